"""Waveform utilities driver (C18, C19)."""
import contextlib, io, random
from .common import *

TIME_LIMIT = 90
DT = ['f8', 'f4', 'u2', 'i2', 'i8']


class Source:
    def __init__(self, events, npix, ns):
        self.events, self.n_pixels, self.n_samples, self.n_events = events, npix, ns, len(events)

    def __iter__(self):
        return iter(self.events)

    def __len__(self):
        return self.n_events


def replay(h, ev):
    import numpy as np
    from CHECLabPy.core.io.waveform import Waveform
    from CHECLabPy.utils import waveform as U
    out = io.StringIO()
    mk = lambda wf, k, dt: Waveform(np.array(wf, dtype=np.dtype(dt)).reshape(h['np'], -1), k, True, t_cpu_container=(0, 0))
    src = Source([mk(w, k, h['dt']) for k, w in enumerate(h['file_ev'])], h['np'], h['nsamp'])
    sub, held = None, []
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        for o in h['ops']:
            op = o['op']
            e = dict(o, err='')
            if op == 'baseline':
                a = {} if o.get('default') else dict(n_base=o['nbase'], n_base_samples=o['ns'])
                sub, e['err'] = errname(U.BaselineSubtractor, src, **a)
                if e['err']:
                    ev.append(e)
                    break
                k = sub.n_base * o['ns']
                e.update(nb=sub.n_base, base=qs(np.asarray(sub.baseline) * k, 1))
                nso = o['ns']
                held = []
            elif op == 'subtract':
                w = src.events[o['ev']] if 'ev' in o else mk(o['wf'], 0, o['dt'])
                e['wf'] = qs(w, 1)
                before = np.array(w)
                r, e['err'] = errname(sub.subtract, w)
                if not e['err']:
                    k = sub.n_base * nso
                    e.update(base=qs(np.asarray(sub.baseline) * k, 1), out=qs(np.asarray(r) * k, 1),
                             same=bool(np.array_equal(before, np.asarray(w))) and not np.shares_memory(r, w),
                             kept=all(np.array_equal(a, b) for a, b in held))
                    held.append((r, np.array(r)))
            elif op == 'shift':
                w = np.array(o['wf'], dtype=o['dt'])
                b = w.copy()
                r, e['err'] = errname(U.shift_array, w, o['num'], *([o['fill']] if o['fill'] else []))
                e.update(out=qs(r, 1) if r is not None else [], same=bool(np.array_equal(b, w)) and (r is None or not np.shares_memory(r, w)))
            elif op == 'align':
                w = np.array(o['wf'], dtype=o['dt'])
                b = w.copy()
                r, e['err'] = errname(U.shift_waveform, w, o['t'], *([o['fill']] if o['fill'] else []))
                e.update(out=qs(r, 1) if r is not None else [], same=bool(np.array_equal(b, w)))
            elif op == 'average':
                n = len(src.events)
                k = max(min(50, n), 1) * 16 * n
                a, e['err'] = errname(U.get_average_wf, src, o['t'])
                p, err2 = errname(U.get_average_wf_per_pixel, src, o['t'])
                e['err'] = e['err'] or err2
                e.update(avg=qs(np.asarray(a) * k * h['np'], 1) if a is not None else [], pix=qs(np.asarray(p) * k, 1) if p is not None else [])
            elif op == 'dead':
                a = {} if o.get('default') else dict(threshold_percent=o['num'] / o['den'], max_events=o['maxev'])
                r, e['err'] = errname(U.obtain_dead_pixel_list_r1, src, **a)
                e['dead'] = [int(x) for x in r] if r is not None else []
            ev.append(e)
            if e['err']:
                break
    return dict(src=h['file_ev'], np=h['np'])


def rwf(rng, npix, ns, neg=True):
    lo = -20 if neg else 0
    b = rng.randint(0, 30) if rng.random() < .9 else rng.randint(20000, 30000)
    w = [[max(lo, b + rng.randint(-3, 3)) for _ in range(ns)] for _ in range(npix)]
    for p in range(npix):
        for _ in range(rng.choice((0, 1, 2))):
            w[p][rng.randrange(ns)] += rng.randint(0, 100)
    return w


def hist18(rng):
    npix, ns = rng.choice((1, 2, 4)), rng.choice((16, 17, 20, 32))
    dt = rng.choice(DT)
    neg = dt != 'u2'
    n = rng.choice((0, 1, 2, 3, 5, 8, 60 if rng.random() < .15 else 4))
    src = [rwf(rng, npix, ns, neg) for _ in range(n)]
    ops = []
    for _ in range(rng.choice((1, 1, 2))):
        if rng.random() < .35:
            ops.append(dict(op='baseline', default=True, nbase=50, ns=16))
        else:
            ops.append(dict(op='baseline', nbase=rng.choice((1, 2, 3, 4, 8, 50, 100)), ns=rng.choice((1, 2, 5, 16, ns))))
        for _ in range(rng.choice((1, 3, 6, 12, 70 if n > 50 else 5, 140 if rng.random() < .15 else 2))):
            if n and rng.random() < .7:
                ops.append(dict(op='subtract', ev=rng.randrange(n)))
            else:
                ops.append(dict(op='subtract', wf=rwf(rng, npix, ns, neg), dt=dt))
    return dict(np=npix, nsamp=ns, dt=dt, file_ev=src, ops=ops)


def hist19(rng):
    npix, ns = rng.choice((1, 2, 4, 8)), rng.choice((16, 17, 20, 32))
    dt = rng.choice(DT)
    neg = dt != 'u2'
    n = rng.choice((1, 2, 4, 8, 8))
    src = [rwf(rng, npix, ns, neg) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(2, 7)):
        op = weighted(rng, shift=3, align=3, average=1, dead=3)
        o = dict(op=op)
        if op in ('shift', 'align'):
            m = rng.choice((1, 2, 3, 8, 20))
            o['dt'] = rng.choice(DT)
            p2 = rng.choice((1, 2, 4))
            o['wf'] = [[rng.choice((0, 1, 5, rng.randint(0, 50), rng.randint(-9 if o['dt'] != 'u2' else 0, 9))) for _ in range(m)] for _ in range(p2)]
            o['fill'] = rng.choice((0, 0, 7))
            if op == 'shift':
                o['num'] = rng.choice((0, 1, -1, m - 1, 1 - m, rng.randint(1 - m, m - 1), m, -m, m + 1, -m - 3))
            else:
                o['t'] = rng.choice((0, m - 1, m // 2, m, -2) if rng.random() < .2 else (0, m - 1, m // 2))
        elif op == 'average':
            o['t'] = rng.choice((0, ns - 1, ns // 2, rng.randrange(ns)))
        else:
            if rng.random() < .3:
                o.update(default=True, num=1, den=10, maxev=100)
            else:
                o.update(num=rng.choice((0, 1, 3, 9, 11, 5)), den=rng.choice((10, 7)), maxev=rng.choice((1, 2, 3, 5, 100)))
        ops.append(o)
    if rng.random() < .4:       # some pixels quiet
        for k in range(n):
            for p in range(npix):
                if p % 3 == 1:
                    src[k][p] = [x // 30 for x in src[k][p]]
    return dict(np=npix, nsamp=ns, dt=dt, file_ev=src, ops=ops)


def long19(rng):
    """a file longer than the rolling average, with a baseline that drifts"""
    npix, ns, n = rng.choice((1, 2)), rng.choice((16, 20)), rng.choice((51, 55, 70, 101))
    slope, t = rng.choice((1, -1, 3)), rng.randrange(ns)
    src = []
    for k in range(n):
        w = rwf(rng, npix, ns)
        at = rng.randrange(ns)
        src.append([[x % 40 + 350 + slope * k + (150 if i == at else 0) for i, x in enumerate(r)] for r in w])
    ops = [dict(op='average', t=t)]
    if rng.random() < .5:
        ops.append(dict(op='dead', default=True, num=1, den=10, maxev=100))
    return dict(np=npix, nsamp=ns, dt=rng.choice(('f8', 'f4', 'i8', 'u2')), file_ev=src, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1117 + int(prop[1:]))
    k = 1 if tier == 'quick' else 12
    return [(hist18 if prop == 'C18' else hist19)(rng) for _ in range((250 if prop == 'C18' else 350) * k)] + ([long19(rng) for _ in range(12 * k)] if prop == 'C19' else [])


def concretise(hists, seed):
    out = []
    for h in hists:
        w = lambda v: [[v, v + 1, 2]]
        ops = [dict(op='baseline', nbase=h['nbase'], ns=2)] + [dict(op='subtract', wf=w(v), dt='f8') for v in h['ev']]
        out.append(dict(np=1, nsamp=3, dt='f8', file_ev=[w(10 + i) for i in range(h['file'])], ops=ops))
    return out
