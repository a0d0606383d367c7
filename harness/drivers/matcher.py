"""Amplitude matching driver (C13): a simulated camera in front of the real AmplitudeMatcher."""
import os, random, tempfile
from .common import *

TIME_LIMIT = 200


class Profile:
    """same interface as IlluminationProfile, with powers of two so that nothing is rounded"""
    def __init__(self, p):
        self.profile = p

    def unfold(self, image):
        return image / self.profile

    def fold(self, image):
        return image * self.profile


class Calibrator:
    """ignores the raw samples: the k-th call returns the k-th prepared event"""
    def __init__(self, n_pixels, n_samples):
        self.n_pixels, self.n_samples = n_pixels, n_samples
        self.queue = []

    def __call__(self, waveforms, fci):
        import numpy as np
        amp, pos = self.queue[int(waveforms[0, 0])]
        out = np.full((self.n_pixels, self.n_samples), -50, dtype=np.float32)
        out += (np.arange(self.n_pixels) % 7)[:, None].astype(np.float32)
        out = np.minimum(out, amp[:, None] - 1).astype(np.float32)
        out[np.arange(self.n_pixels), pos] = amp
        return out


_files = {}


def r0_file(nev, ns):
    if (nev, ns) not in _files:
        import target_io
        p = tempfile.mktemp(dir=scratch(), suffix='_r0.tio')
        target_io.write_tio(p, dict(r1=False, run_id=1, n_pixels=2048, n_modules=32, n_sp=16, n_samples=ns, version='1.1.0',
                                    sn=[0] * 32, sipm=[0] * 32, primary=[0] * 32, dac=[[0] * 16] * 32, hvon=[[1] * 16] * 32,
                                    events=[dict(wf=[[i] * ns] * 2048, fci=i, stale=False, missing=False, tack=i, cpu_s=i,
                                                 cpu_ns=0) for i in range(nev)]))
        _files[nev, ns] = p
    return _files[nev, ns]


def plant(p, dac, rng):
    """amplitude minus aim of a superpixel at a DAC value"""
    k = p['kind']
    if k == 'linear':
        d = p['c'] - p['m'] * dac
    elif k == 'exp':
        d = int(4000 * 2 ** (-(dac - p['c']) / 40.0)) - 4000
    elif k == 'const':
        d = p['c']
    elif k == 'inverse':
        d = p['m'] * dac - p['c']
    else:
        d = rng.randint(-p['c'], p['c'])
    if p.get('noise'):
        d += rng.randint(-p['noise'], p['noise'])
    return d


def replay(h, ev):
    import numpy as np
    from CHECLabPy.calib.amplitude_matcher import AmplitudeMatcher
    if 'seqs' in h:
        n = len(h['seqs'])
        starts = h['starts']
    else:
        n = len(h['plants'])
        starts = h['starts']
    rng = random.Random(h['seed'])
    nev, ns = h['nev'], 4
    aim = h['aim']
    cls = np.array([rng.randrange(n) for _ in range(512)])
    rep = []
    for i in range(n):
        cls[i * (512 // n) + rng.randrange(512 // n)] = i      # every class occurs
    rep = [int(np.nonzero(cls == i)[0][-1]) for i in range(n)]
    start = None if h['start'] == 'none' else np.array([starts[c] for c in cls], dtype=[np.int64, np.int32, np.float64][h['dt']])
    if start is not None and h['start'] == '2d':
        start = start.reshape((32, 16))
    start0 = None if start is None else start.copy()
    mask = None
    if h['mask'] != 'none':
        mask = np.array([h['masked'][c] for c in cls], dtype=bool)
        if h['mask'].startswith('pixel'):
            # a superpixel is only masked when all four of its pixels are
            pm = np.repeat(mask, 4)
            for i in np.nonzero(~mask)[0]:
                pm[4 * i:4 * i + 4] = [int(x) for x in rng.choice(('0000', '1000', '0111', '0101', '1110'))]
        if h['mask'] == 'pixel':
            mask = pm
        elif h['mask'] == '2d':
            mask = mask.reshape((32, 16))
        elif h['mask'] == 'pixel2d':
            mask = pm.reshape((32, 64))
    prof = None
    scale = np.ones(2048)
    if h['profile']:
        prof = Profile(np.array([rng.choice((1, 2, .5)) for _ in range(2048)]))
        scale = prof.profile
    cal = Calibrator(2048, ns)
    m = AmplitudeMatcher(cal, aim, start, mask, prof)
    path = r0_file(nev, ns)
    cfg = dict(aim=aim, nev=nev, start=[100] * n if start is None else [int(x) for x in starts],
               mask=[bool(h['mask'] != 'none' and h['masked'][i]) for i in range(n)])
    dac = list(cfg['start'])
    step = extra = 0
    done = False
    while step < h['maxsteps'] and extra < 3:
        dist = []
        for i in range(n):
            if 'seqs' in h:
                s = h['seqs'][i]
                dist.append(s[step] if step < len(s) else 1)
            else:
                dist.append(plant(h['plants'][i], dac[i], rng))
        amps = []
        for i in range(n):
            # the distance is spread over pixels and events without changing the mean
            a = [[aim + dist[i]] * 4 for _ in range(nev)]
            for _ in range(3):
                e1, p1, e2, p2 = rng.randrange(nev), rng.randrange(4), rng.randrange(nev), rng.randrange(4)
                x = rng.randint(0, 9)
                a[e1][p1] += x
                a[e2][p2] -= x
            amps.append(a)
        cal.queue = []
        for k in range(nev):
            px = np.array([amps[c][k] for c in cls], dtype=np.float64).ravel() * scale
            cal.queue.append((px, np.array([rng.randrange(ns) for _ in range(64)] * 32)))
        r, err = errname(m.process, path)
        if r is None:
            ev.append(dict(op='step', amps=amps, err=err, shape=[], dacs=[], done=False, avg=[], start_same=True))
            return cfg
        nd, avg, done = r
        flat = np.asarray(nd).ravel()
        dacs = [sorted(set(float(x) for x in flat[cls == i])) for i in range(n)]
        dacs = [[int(x) if x == int(x) else BAD for x in v] for v in dacs]
        ev.append(dict(op='step', amps=amps, err='', shape=list(np.shape(nd)), dacs=dacs, done=bool(done),
                       avg=[[q(avg[rep[i] * 4 + p], nev) for p in range(4)] for i in range(n)],
                       start_same=start is None or bool(np.array_equal(start, start0))))
        dac = [v[0] if len(v) == 1 else 100 for v in dacs]
        step += 1
        extra += bool(done)
    ev.append(dict(op='end', must=bool(h.get('must', False)), done=bool(done)))
    return cfg


def base(rng, n):
    return dict(nev=rng.choice((1, 1, 2, 4)), aim=rng.choice((50, 33, 100, 7, 3001)), seed=rng.randrange(1 << 30),
                start=rng.choice(('none', 'flat', '2d', '2d')), dt=rng.choice((0, 0, 1)),
                mask=rng.choice(('none', 'sp', 'pixel', '2d', 'pixel2d')), masked=[rng.random() < .2 for _ in range(n)],
                starts=[rng.choice((rng.randint(10, 255), rng.choice((10, 14, 19, 20, 100, 246, 250, 255)))) for _ in range(n)],
                profile=rng.random() < .4)


def rand_plant(rng, noise):
    k = weighted(rng, linear=8, exp=3, const=2, inverse=2, random=1 if noise else 0)
    m = rng.choice((1, 2, 3, 7))
    p = dict(kind=k, m=m, c=m * rng.randint(-20, 290) + rng.choice((0, 1, 2)))
    if k == 'exp':
        p['c'] = rng.randint(0, 280)
    if k == 'const':
        p['c'] = rng.choice((-30, -1, 0, 1, 30))
    if k == 'random':
        p['c'] = 40
    if noise and rng.random() < .6:
        p['noise'] = rng.choice((1, 3, 10))
    return p


def generate(prop, tier, seed):
    rng = random.Random(seed * 1021)
    out = []
    for _ in range(90 if tier == 'quick' else 900):
        n = rng.choice((1, 2, 4, 8, 12))
        noise = rng.random() < .4
        d = base(rng, n)
        pl = [rand_plant(rng, noise) for _ in range(n)]
        out.append(dict(d, plants=pl, maxsteps=60 if noise else 420,
                        must=not noise))
    return out


def pack(hists, seed):
    """many enumerated sequences in one camera"""
    rng = random.Random(seed)
    seqs = [h['seq'] for h in hists]
    rng.shuffle(seqs)
    out = []
    for i in range(0, len(seqs), 64):
        s = seqs[i:i + 64]
        d = base(rng, len(s))
        out.append(dict(d, seqs=s, nev=1, maxsteps=len(s[0])))
    return out
