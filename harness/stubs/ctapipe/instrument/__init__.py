import numpy as np
from ctapipe.coordinates import CameraFrame, EngineeringCameraFrame


class CameraGeometry:
    def __init__(self, cam_id=None, pix_id=None, pix_x=None, pix_y=None, pix_area=None, pix_type=None,
                 frame=None, sampling_rate=None, **kw):
        self.cam_id, self.pix_id, self.pix_x, self.pix_y = cam_id, pix_id, pix_x, pix_y
        self.pix_area, self.pix_type, self.frame, self.sampling_rate = pix_area, pix_type, frame, sampling_rate
        self.kw = kw

    @property
    def neighbor_matrix_where(self):
        """(pixel, neighbour) pairs of the pixels sharing an edge"""
        x, y = np.asarray(self.pix_x.value), np.asarray(self.pix_y.value)
        d = np.hypot(x[:, None] - x[None, :], y[:, None] - y[None, :])
        np.fill_diagonal(d, np.inf)
        return np.ascontiguousarray(np.array(np.where(d < d.min() * 1.2)).T)

    def transform_to(self, frame):
        if isinstance(frame, EngineeringCameraFrame) and not isinstance(self.frame, EngineeringCameraFrame):
            if frame.n_mirrors != 2:
                raise ValueError('the stand-in only knows two-mirror telescopes')
            return CameraGeometry(self.cam_id, self.pix_id, self.pix_y, self.pix_x, self.pix_area, self.pix_type, frame)
        return self
