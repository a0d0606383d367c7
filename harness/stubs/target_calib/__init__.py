"""Stand-in for the TARGET calibration library, written from how CHECLabPy uses it."""
import json, os
import numpy as np
import pandas as pd

PITCH = 0.00625        # distance of pixel centres within a module
GAP = 0.0007           # additional distance between modules


def layout(version):
    """list of module slots as (module row, module column); 'stub:RxC[:missing,...]' or the full camera"""
    if version.startswith('stub:'):
        p = version.split(':')
        r, c = (int(v) for v in p[1].split('x'))
        miss = {tuple(int(z) for z in m.split('-')) for m in p[2].split(',') if m} if len(p) > 2 else set()
        return [(i, j) for i in range(r) for j in range(c) if (i, j) not in miss], r, c
    miss = {(0, 0), (0, 5), (5, 0), (5, 5)}
    return [(i, j) for i in range(6) for j in range(6) if (i, j) not in miss], 6, 6


# position of the 64 pixels of a module: 16 superpixels of 2x2
TMPIX = []
for sp in range(16):
    for k in range(4):
        TMPIX.append((2 * (sp // 4) + k // 2, 2 * (sp % 4) + k % 2))


class Mapping:
    fOTUpRow_l, fOTUpRow_u, fOTUpCol_l, fOTUpCol_u = 1, 3, 1, 1
    fOTUpX_l, fOTUpX_u, fOTUpY_l, fOTUpY_u = 0.1, 0.1, 0.1, 0.2

    def __init__(self, cfgpath, single=False):
        self.cfg, self.single = cfgpath, bool(single)
        slots, r, c = layout(cfgpath.replace('cfg-', '', 1))
        if self.single:
            slots, r, c = [(0, 0)], 1, 1
        rows = []
        for s, (mr, mc) in enumerate(slots):
            for t, (pr, pc) in enumerate(TMPIX):
                row, col = mr * 8 + pr, mc * 8 + pc
                rows.append(dict(pixel=s * 64 + t, slot=s, asic=t // 16, channel=t % 16, tmpix=t, row=row, col=col,
                                 sipmpix=t, superpixel=s * 16 + t // 4,
                                 xpix=(col - (c * 8 - 1) / 2) * PITCH + (mc - (c - 1) / 2) * GAP,
                                 ypix=(row - (r * 8 - 1) / 2) * PITCH + (mr - (r - 1) / 2) * GAP))
        self.df = pd.DataFrame(rows)
        self.shape = r * 8, c * 8
        self.n_modules = len(slots)

    def as_dataframe(self):
        return self.df.copy()

    def GetCfgPath(self): return self.cfg
    def IsSingleModule(self): return self.single
    def GetNPixels(self): return len(self.df)
    def GetNModules(self): return self.n_modules
    def GetNTMPix(self): return 64
    def GetNSuperPixels(self): return len(self.df) // 4
    def GetNRows(self): return self.shape[0]
    def GetNColumns(self): return self.shape[1]
    def GetSize(self): return PITCH


class CameraConfiguration:
    def __init__(self, version):
        self.version = version

    def GetVersion(self): return self.version
    def GetMapping(self, singleModule=False): return Mapping('cfg-' + self.version, singleModule)
    def GetNCells(self): return 4096 if not self.version.startswith('stub:') else 16384
    def GetReferencePulsePath(self):
        p = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'refpulse.txt')
        if not os.path.exists(p):
            with open(p + '.%d' % os.getpid(), 'w') as f:
                for i, y in enumerate([0, 1, 4, 8, 10, 7, 4, 2, 1, 0, 0]):
                    f.write('%.1e %g\n' % (i * 1e-9, y))
            os.replace(p + '.%d' % os.getpid(), p)
        return p


class Calibrator:
    """R1 = R0 - pedestal of the pixel at the cell (fci + sample)"""
    LOG = []

    def __init__(self, path, sn=None):
        self.path, self.sn = path, sn
        with open(path if isinstance(path, str) else path[0]) as f:
            self.ped = json.load(f)

    def ApplyEvent(self, r0, fci, out):
        n_pix, n_samp = r0.shape
        assert fci.dtype == np.uint16 and fci.shape == (n_pix,) and out.dtype == np.float32
        base, slope = self.ped['base'], self.ped['slope']
        for p in range(n_pix):
            for s in range(n_samp):
                out[p, s] = float(r0[p, s]) - (base * p + slope * ((int(fci[p]) + s) % 16))


class CalibratorMultiFile(Calibrator):
    def __init__(self, path, sn_list):
        super().__init__(path, list(sn_list))
        Calibrator.LOG.append(list(sn_list))
