"""Streaming statistics driver (C17, C24)."""
import random, warnings
from .common import *

TIME_LIMIT = 60


class Big(str):
    """an index label that claims to be huge: reaches the package's memory limit"""
    def __sizeof__(self):
        return 2 ** 29


def replay(h, ev):
    import numpy as np
    import pandas as pd
    from CHECLabPy.stats import welfords_online_algorithm
    from CHECLabPy.utils import resolutions as R
    warnings.simplefilter('ignore')
    w = [None] * h['streams']
    res = [[R.ChargeResolution, R.IntensityResolution][k % 2](m) for k, m in enumerate(h['mc'])]
    st = [[R.ChargeStatistics, R.IntensityStatistics][k % 2]() for k in range(h['stat'])]
    held = []

    def rows(df, cls, pix):
        out = []
        for _, r in df.iterrows():
            d = dict(n=q(r['n'], 1))
            if pix:
                d['pixel'] = q(r['pixel'], 1)
            if cls == 'res':
                d.update(x=q(r['true'], 2), sum=q(r['sum'], 4), abs2=q(r['charge_resolution_abs'] ** 2, 100), rel2=q(r['charge_resolution'] ** 2, 100))
                d['abs2'] = d['abs2'] if r['charge_resolution_abs'] >= 0 else BAD
                d['rel2'] = d['rel2'] if r['charge_resolution'] >= 0 else BAD
            else:
                d.update(x=q(r['amplitude'], 1), sum=q(r['sum'], 10), sum2=q(r['sum2'], 100), mean=q(r['mean'], 1000), var=q(r['std'] ** 2, 100))
                d['var'] = d['var'] if r['std'] >= 0 else BAD
            out.append(d)
        return out

    for o in h['ops']:
        e = dict(o, err='')
        if o['op'] == 'sample':
            k = o['k'] - 1
            base = h['bases'][k]
            if w[k] is None:
                w[k] = h['zero'][k]
            v = base + o['v']
            v = {'int': int, 'float': float, 'f8': np.float64, 'i8': np.int64}[o['type']](v)
            r, e['err'] = errname(welfords_online_algorithm, v, *w[k])
            if not e['err']:
                w[k] = r
                e.update(mean=q(r[0] - base, 1000), count=q(r[1], 1), m2=q(r[2], 10))
        elif o['op'] == 'add':
            tgt = (res if o['cls'] == 'res' else st)[o['k'] - 1]
            rw = o['rows']
            f = 2 if o['cls'] == 'res' else 1
            p = np.array([x[0] for x in rw], dtype=o['pdt'])
            x = np.array([x[1] / f for x in rw], dtype=float)
            y = np.array([x[2] / (2 if o['cls'] == 'res' else 10) for x in rw], dtype=float)
            if o['cont'] == 'array':
                a = (p, x, y)
            else:
                idx = [Big('%d' % i) for i in range(len(rw))] if o['cont'] == 'big' else list(range(7, 7 + len(rw)))
                a = tuple(pd.Series(z, index=idx) for z in (p, x, y))
            _, e['err'] = errname(tgt.add, *a)
            e['kept'] = all(df.equals(c) for df, c in held)
        elif o['op'] == 'finish':
            tgt = (res if o['cls'] == 'res' else st)[o['k'] - 1]
            r, e['err'] = errname(tgt.finish)
            if not e['err']:
                e['pix'], er1 = errname(rows, r[0], o['cls'], True)
                e['cam'], er2 = errname(rows, r[1], o['cls'], False)
                e['err'] = er1 or er2
                held += [(d, d.copy()) for d in r]
            e['kept'] = all(df.equals(c) for df, c in held)
        ev.append(e)
        if e['err']:
            break
    return dict(streams=h['streams'], mc=h['mc'], stat=h['stat'])


def zero(rng):
    return rng.choice(([0, 0, 0], [0.0, 0, 0.0]))


def hist24(rng):
    n = rng.choice((1, 1, 2, 3))
    hi, m = rng.choice(((100, rng.choice((1, 5, 20, 60))), (1000, 10), (3, 40)))
    bases = [rng.choice((0, 0, 10 ** 6, -10 ** 6, 10 ** 8)) for _ in range(n)]
    t = [rng.choice(('int', 'float', 'f8', 'i8')) for _ in range(n)]
    ops = []
    for _ in range(m):
        k = rng.randint(1, n)
        ops.append(dict(op='sample', k=k, v=rng.randint(-hi, hi), type=t[k - 1] if rng.random() < .9 else rng.choice(('int', 'float'))))
    return dict(streams=n, bases=bases, zero=[zero(rng) for _ in range(n)], mc=[], stat=0, ops=ops)


def hist17(rng):
    mc = [rng.random() < .5 for _ in range(rng.choice((0, 1, 1, 2)))]
    stat = rng.choice((0, 1, 1, 2)) if mc else rng.choice((1, 2))
    npix, hi = rng.choice((1, 2, 4, 50)), rng.choice((3, 20, 100))
    many = rng.random() < .05
    large = rng.random() < .15          # charges large compared with their spread
    if many:
        npix, hi = 1, 5
    xs = {}
    ops, some = [], set()
    pdt = rng.choice(('i8', 'i4', 'u2'))
    for _ in range(rng.randint(2, 10)):
        cls = rng.choice(['res'] * len(mc) + ['stat'] * stat)
        k = rng.randint(1, len(mc) if cls == 'res' else stat)
        if (cls, k) in some and rng.random() < .4:
            for _ in range(rng.choice((1, 1, 2))):
                ops.append(dict(op='finish', cls=cls, k=k))
            continue
        if (cls, k) not in xs:
            neg = cls == 'stat' or not mc[k - 1]
            xs[cls, k] = [rng.choice((0, rng.randint(-hi if neg else 0, hi), rng.randint(1, hi))) for _ in range(rng.choice((1, 2, 4)))]
        n = rng.choice((1, 1, 2, 5, 12, 0 if (cls, k) in some else 3))
        const = rng.randint(-50, 300) if rng.random() < .2 else None
        n = rng.choice((40, 300, 600)) if many else n
        off = 3500 if cls == 'stat' and large and not many else 0
        rows = [[rng.randrange(npix), rng.choice(xs[cls, k]), off + (rng.randint(0, 12) if many else const if const is not None else rng.randint(-50, 150))] for _ in range(n)]
        ops.append(dict(op='add', cls=cls, k=k, rows=rows, pdt=pdt, cont=rng.choice(('array', 'array', 'series', 'big'))))
        some.add((cls, k))
    for cls, k in sorted(some):
        ops.append(dict(op='finish', cls=cls, k=k))
    return dict(streams=0, bases=[], zero=[], mc=mc, stat=stat, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 719 + int(prop[1:]))
    k = 1 if tier == 'quick' else 15
    if prop == 'C24':
        return [hist24(rng) for _ in range(250 * k)]
    return [hist17(rng) for _ in range(350 * k)]


def concretise(hists, seed):
    """both classes at once, measured values depending on the call"""
    out = []
    for i, h in enumerate(hists):
        ops, mc = [], [i % 2 == 0]
        for j, o in enumerate(h):
            for cls in ('res', 'stat'):
                if o['op'] == 'finish':
                    ops.append(dict(op='finish', cls=cls, k=1))
                else:
                    rows = [[o['p'], o['x'], 3 + 4 * j]] + ([[1, 6, 7 - j]] if j % 2 else [])
                    ops.append(dict(op='add', cls=cls, k=1, rows=rows * (2 if o['big'] else 1), pdt='i8', cont='big' if o['big'] else 'array'))
        ops += [dict(op='finish', cls='res', k=1), dict(op='finish', cls='stat', k=1)]
        out.append(dict(streams=0, bases=[], zero=[], mc=mc, stat=1, ops=ops))
    return out


def streams(hists, seed):
    """enumerated interleavings of two streams"""
    rng = random.Random(seed)
    return [dict(streams=2, bases=[0, rng.choice((0, 10 ** 8))], zero=[[0, 0, 0], [0.0, 0, 0.0]], mc=[], stat=0,
                 ops=[dict(op='sample', k=o['k'], v=o['v'], type='float') for o in h]) for h in hists]
