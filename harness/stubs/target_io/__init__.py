"""Stand-in for the TARGET I/O library.  A "tio" file is a FITS file whose primary header carries
EVENT_HEADER_VERSION and whose first extension holds the events as a JSON document."""
import json
import numpy as np
from astropy.io import fits


def write_tio(path, doc):
    h = fits.PrimaryHDU()
    h.header['HIERARCH EVENT_HEADER_VERSION'] = 1
    data = np.frombuffer(json.dumps(doc).encode(), dtype=np.uint8)
    fits.HDUList([h, fits.ImageHDU(data)]).writeto(path, overwrite=True)


OPENED = []         # how files were opened: (path, events to leave out at the start, at the end)


class WaveformArrayReader:
    def __init__(self, path, skip_events=2, skip_end_events=1):
        OPENED.append((path, skip_events, skip_end_events))
        with fits.open(path) as f:
            self.doc = d = json.loads(np.asarray(f[1].data, dtype=np.uint8).tobytes().decode())
        self.fR1 = d['r1']
        self.events = d['events']
        self.fNEvents = len(self.events)
        self.fRunID = d['run_id']
        self.fNPixels = d['n_pixels']
        self.fNModules = d['n_modules']
        self.fNSuperpixelsPerModule = d['n_sp']
        self.fNSamples = d['n_samples']
        self.fCameraVersion = d['version']
        self.calls = []

    def _get(self, iev, samples, dtype):
        if not 0 <= iev < self.fNEvents:
            raise RuntimeError('target_io: event index out of range')
        if samples.dtype != dtype or samples.shape != (self.fNPixels, self.fNSamples):
            raise TypeError('target_io: wrong buffer')
        e = self.events[iev]
        samples[:] = np.array(e['wf'], dtype=dtype)
        return e['fci'], e['stale'], e['missing'], e['tack'], e['cpu_s'], e['cpu_ns']

    def GetR0Event(self, iev, samples): return self._get(iev, samples, np.uint16)
    def GetR1Event(self, iev, samples): return self._get(iev, samples, np.float32)
    # no bounds checks in the library: garbage beyond the end
    def _at(self, name, *idx):
        v = self.doc[name]
        for i in idx:
            if i >= len(v):
                return 57005
            v = v[i]
        return v

    def GetSN(self, tm): return self._at('sn', tm)
    def GetSiPMTemp(self, tm): return self._at('sipm', tm)
    def GetPrimaryTemp(self, tm): return self._at('primary', tm)
    def GetSPDAC(self, tm, sp): return self._at('dac', tm, sp)
    def GetSPHVON(self, tm, sp): return self._at('hvon', tm, sp)
