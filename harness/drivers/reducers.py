"""Waveform reducer driver (C12): integer waveforms through WaveformReducerChain."""
import os, random, tempfile
from .common import *

TIME_LIMIT = 120
COMMON = ['baseline_start_mean', 'baseline_end_mean', 'waveform_mean', 'baseline_start_rms', 'baseline_end_rms',
          'waveform_rms', 'waveform_max']
AVG = ['t_averagewf', 'charge_averagewf', 'saturation_sum']
TIMING = ['t_event', 't_pulse', 't_pulse_amp', 'fwhm', 't_rise']
CC = ['t_cc', 'charge_cc', 'height_cc', 't_cc_local', 'charge_cc_local', 'height_cc_local',
      't_cc_nn', 'charge_cc_nn', 'height_cc_nn']
SLIDE = ['t_sliding', 'charge_sliding', 't_sliding_local', 'charge_sliding_local', 't_sliding_nn', 'charge_sliding_nn']
PEAK = ['t_local', 'charge_local', 't_nn', 'charge_nn']
SP = ['sp_argmax', 'sp_max']
CHARGE = COMMON + AVG + CC + SLIDE + PEAK + SP
ALL = CHARGE + TIMING + ['flasher_unit']
NNLS = ['charge_nnls', 'nnls_tcharge', 'nnls_tmcharge', 'nnls_tccharge', 'nnls_norm', 'nnls_npulses', 'nnls_errata']
REFS = [[1], [0, 1, 0], [1, 2, 1], [0, 1, 3, 2, 1, 0], [0, 2, 5, 3, 1], [1, 4, 2, 0], [0, 0, 1, 6, 3, -1, 0],
        [2, 1], [0, 3, 7, 9, 6, 3, 1, 0]]
REFS = [r + [0] * (5 - len(r)) for r in REFS]   # cubic interpolation needs points


def ref_file(ref):
    fd, p = tempfile.mkstemp(dir=scratch(), suffix='.txt')
    with os.fdopen(fd, 'w') as f:
        for i, y in enumerate(ref):
            f.write('%.10e %g\n' % (i * 1e-9, y))
        f.write('%.10e 0\n' % ((len(ref) - 0.5) * 1e-9))
    return p


def grid_mapping(n_pixels, ncol):
    """pixels on a grid; also the neighbour lists (1-based)"""
    import pandas as pd
    pos = [(i % ncol, i // ncol) for i in range(n_pixels)]
    df = pd.DataFrame(dict(pixel=range(n_pixels), xpix=[p[0] * 0.006 for p in pos], ypix=[p[1] * 0.006 for p in pos]))
    df.metadata = dict(n_pixels=n_pixels)
    nb = [[j + 1 for j, b in enumerate(pos) if abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1] for a in pos]
    return df, nb


def norm_col(col, v, unit, n):
    import numpy as np
    v = np.atleast_1d(np.asarray(v, dtype=np.float64))
    if v.ndim != 1:
        return [BAD]
    if col in ('baseline_start_mean', 'baseline_end_mean'):
        return qs(v / unit * min(20, n), 10)
    if col == 'waveform_mean':
        return qs(v / unit * n, 10)
    if col in ('baseline_start_rms', 'baseline_end_rms'):
        return qs((v / unit * min(20, n)) ** 2, 1)
    if col == 'waveform_rms':
        return qs((v / unit * n) ** 2, 1)
    if col in ('t_averagewf', 't_event', 'flasher_unit', 'sp_argmax'):
        return [int(x) if x == int(x) else BAD for x in v] if np.all(np.isfinite(v)) else [BAD]
    if col in ('t_pulse', 'fwhm', 't_rise') or col.startswith('t_') and col != 't_pulse_amp':
        return qs(v, 1000)
    if col == 't_pulse_amp':
        return qs(v / unit, 1000)
    return qs(v / unit, 10)


def replay(h, ev):
    import numpy as np
    from CHECLabPy.core.chain import WaveformReducerChain
    if 'ops' in h and h['ops'] and h['ops'][0].get('op') == 'pulse':
        h.update(from_pulse(h['ops'][0]))
    c = h['cfg']
    n_pixels, n = c['n_pixels'], c['n_samples']
    df, nb = grid_mapping(n_pixels, c['ncol'])
    ref = ref_file(c['ref'])
    unit = 2.0 ** -c['lunit']
    cols = h['cols']
    kw = {k: False for k in WaveformReducerChain.default_columns}
    kw.update({k: True for k in cols})
    kw.update(c['kw'])
    chain = WaveformReducerChain(n_pixels, n, reference_pulse_path=ref, mapping=df, **kw)
    g = c['kw'].get
    cfg = dict(unit=2 ** c['lunit'], textract=g('t_extract', -1), shifta=g('window_shift', 3), wsa=g('window_size', 6),
               shifts=g('window_shift', 4), shiftt=g('window_shift', 4), wst=g('window_size', 8), wsl=g('window_size', 8),
               ref=c['ref'], nb=nb if any(x.endswith('_nn') for x in cols) else [])
    for wf in h['wfs']:
        a = (np.array(wf) * unit).astype(c['dtype'])
        r, err = errname(chain.process, a)
        obs = [dict(col=k, val=norm_col(k, v, unit, n)) for k, v in sorted((r or {}).items())]
        ev.append(dict(op='process', wf=wf, cols=cols, err=err, obs=obs))
    return cfg


SHAPES = [[5], [3, 8, 3], [2, 7, 7, 1], [1, 4, 9, 6, 3, 1], [-4, 10, -4], [6, 2, 2, 7], [12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]]
SETS = [dict(), dict(t_extract=12), dict(window_size=5, window_shift=2), dict(window_size=9, window_shift=7)]


def from_pulse(o):
    """the TLC-enumerated placements: one pulse per pixel around o.pos, on a base line"""
    n, p = o['n'], o['pos']
    rng = random.Random(p * 31 + o['shape'] * 7 + n)
    wf = []
    for k in range(4):
        w = [rng.choice((0, 0, 0, 1)) if k > 1 else 0 for _ in range(n)]
        for i, y in enumerate(SHAPES[o['shape']]):
            j = p + k * (k - 1) // 2 + i - 1
            if 0 <= j < n:
                w[j] += y if k != 1 else -(-y // 2)
        wf.append([min(12, x) for x in w])
    s = SETS[o['set']]
    if s.get('t_extract', 10) > n - 10:
        s = {}
    return dict(cfg=dict(n_pixels=4, n_samples=n, ncol=2, ref=REFS[(p + o['shape']) % len(REFS)], lunit=0,
                         dtype='float32' if p % 2 else 'float64', kw=s),
                cols=CHARGE + TIMING, wfs=[wf])


def rand_wf(rng, npix, n, amp):
    style = weighted(rng, pulse=6, noise=2, flat=1, edge=2, sparse=1)
    out = []
    t0 = rng.randrange(n)
    for p in range(npix):
        if style == 'flat':
            v = rng.randint(-amp, amp)
            out.append([v] * n)
            continue
        nz = max(1, amp // rng.choice((4, 12, 40)))
        w = [rng.randint(-nz, nz) for _ in range(n)]
        if style == 'sparse':
            w = [0] * n
        if style != 'noise':
            t = t0 + rng.randint(-2, 2) if style == 'pulse' else rng.choice((0, 1, 2, n - 1, n - 2, n - 3, rng.randrange(n)))
            h = rng.randint(1, amp)
            for i, f in enumerate((.2, .6, 1, .7, .5, .3, .1)):
                j = t - 2 + i
                if 0 <= j < n:
                    w[j] += int(round(h * f))
        out.append([max(-amp, min(amp, x)) for x in w])
    return out


def one(rng, timing):
    npix = rng.choice((4, 4, 8, 12, 16))
    n = rng.choice((20, 24, 32, 40, 64, 96, 128))
    kw = {}
    if rng.random() < .35:
        kw['t_extract'] = rng.randint(10, n - 10)
    if rng.random() < .4:
        kw['window_shift'] = rng.randint(0, 9)
    if rng.random() < .4:
        kw['window_size'] = rng.randint(max(1, kw.get('window_shift', 4)), kw.get('window_shift', 4) + 9) or 1
    kw['window_size'] = min(kw['window_size'], 9 + kw.get('window_shift', 3)) if 'window_size' in kw else None
    if kw['window_size'] is None:
        del kw['window_size']
    cols = TIMING if timing else CHARGE
    k = rng.choice((1, 2, 4, len(cols)))
    cols = rng.sample(cols, min(k, len(cols)))
    amp = 12 if timing else rng.choice((12, 60, 200))
    return dict(cfg=dict(n_pixels=npix, n_samples=n, ncol=rng.choice((2, 4)), ref=rng.choice(REFS), lunit=rng.choice((0, 2)),
                         dtype=rng.choice(('float32', 'float64')), kw=kw),
                cols=cols, wfs=[rand_wf(rng, npix, n, amp) for _ in range(rng.randint(1, 3))])


def flasher(rng):
    u = 2 ** rng.choice((0, 2))
    lv = [rng.choice((20, 29, 30, 31, 40, 60)) for _ in range(4)]
    if rng.random() < .7:
        lv = [max(x, rng.choice((30, 31))) for x in lv]
    if rng.random() < .2:
        lv[rng.randrange(4)] = lv[rng.randrange(4)]
    wf = []
    for p in range(2048):
        m = p // 64
        base = {5: lv[0], 23: lv[1], 8: lv[2], 26: lv[3]}.get(m, rng.choice((0, 90)))
        h = base * u + (rng.choice((-2, 0, 2)) if m in (5, 23, 8, 26) and rng.random() < .3 else 0)
        w = [0, 0, 0]
        w[rng.randrange(3)] = h
        wf.append(w)
    return dict(cfg=dict(n_pixels=2048, n_samples=3, ncol=64, ref=[0, 1, 0, 0, 0], lunit={1: 0, 4: 2}[u],
                         dtype=rng.choice(('float32', 'float64')), kw={}),
                cols=['flasher_unit'], wfs=[wf])


def generate(prop, tier, seed):
    rng = random.Random(seed * 1009 + 12)
    k = 1 if tier == 'quick' else 5
    return [one(rng, False) for _ in range(180 * k)] + [one(rng, True) for _ in range(140 * k)] + \
           [flasher(rng) for _ in range(16 * k)]
