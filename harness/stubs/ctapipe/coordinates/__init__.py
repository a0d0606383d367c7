class CameraFrame:
    def __init__(self, **kw):
        self.kw = kw


class EngineeringCameraFrame:
    """For n_mirrors=2 the engineering frame swaps the axes: x_eng = y, y_eng = x."""
    def __init__(self, n_mirrors=1, **kw):
        self.n_mirrors = n_mirrors
        self.kw = kw
