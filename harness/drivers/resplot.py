"""Charge resolution plot driver (C32): the real plotters on an off-screen canvas, points read back from the artists."""
import contextlib, io, math, random, warnings
from .common import *

TIME_LIMIT = 120
U = 1024


def edges(xmax):
    r = math.log(xmax / 0.1)
    return [0.1 * math.exp(r * k / 99) for k in range(99)] + [xmax]


def usable(xs):
    """no charge too close to an inner bin edge to say on which side it lies"""
    top = max(xs)
    if top < 110:
        return False
    e = [v * U for v in edges(top / U)]
    return all(x == top or min(abs(x - v) for v in e) > .01 for x in xs)


def table(o, kind, real):
    import numpy as np, pandas as pd
    if real:
        return real_tables(o, kind)
    fr = []
    for t in (o['pixtab'], o['camtab']):
        p, x, y = (np.array([r[k] for r in t]) for k in 'pxy')
        d = dict(amplitude=x / U, mean=y / U, std=(y % 7 + 1) / 16) if kind == 'mean' else dict(true=x / U, charge_resolution=y / U, charge_resolution_abs=y * x / U / U + 1)
        fr.append(pd.DataFrame(dict(pixel=p, sum=y * 3., n=p % 3 + 1, **d)))
    fr[1] = fr[1].drop(columns='pixel')
    k = 'charge_statistics_' if kind == 'mean' else 'charge_resolution_'
    return {k + 'pixel': fr[0], k + 'camera': fr[1]}


def real_tables(o, kind):
    """the same tables out of the package's own accumulators"""
    import numpy as np
    from CHECLabPy.utils.resolutions import ChargeResolution, ChargeStatistics
    p, x, y = (np.array([r[k] for r in o['pixtab']]) for k in 'pxy')
    c = ChargeStatistics() if kind == 'mean' else ChargeResolution(False)
    for _ in range(2):
        c.add(p, x / U, y / U if kind == 'mean' else x / U * (1 + y / U))
    k = 'charge_statistics_' if kind == 'mean' else 'charge_resolution_'
    return dict(zip((k + 'pixel', k + 'camera'), c.finish()))


def replay(h, ev):
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from CHECLabPy.plotting.resolutions import ChargeResolutionPlotter, ChargeResolutionWRRPlotter, ChargeMeanPlotter
    warnings.simplefilter('ignore')
    K = dict(res=ChargeResolutionPlotter, wrr=ChargeResolutionWRRPlotter, mean=ChargeMeanPlotter)
    plots, stores, saw = [], [], []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for o in h['ops']:
                e, op = dict(o, err=''), o['op']
                e.pop('real', None)
                if op == 'new':
                    p, e['err'] = errname(K[o['kind']])
                    plots.append(p), stores.append(None), saw.append(o['kind'])
                else:
                    p, kind = plots[o['k'] - 1], saw[o['k'] - 1]
                if op == 'store':
                    t = table(o, kind, o['real'])
                    stores[o['k'] - 1] = (t, {a: b.copy() for a, b in t.items()})
                    _, e['err'] = errname(p.set_store, t)
                elif op == 'plot':
                    n = len(p.ax.containers)
                    _, e['err'] = errname(p.plot_camera, o['label']) if o['pixel'] == -1 else errname(p.plot_pixel, o['pixel'], o['label'])
                    rows = [r for r in h['ops'][o['src']]['camtab' if o['pixel'] == -1 else 'pixtab'] if o['pixel'] in (-1, r['p'])]
                    e['edges'] = [int(round(v * 32 * U)) for v in edges(max(r['x'] for r in rows) / U)]
                    a, b = stores[o['k'] - 1]
                    e['kept'] = all(a[k].equals(b[k]) for k in a)
                    e.update(x=[], y=[], e2=[], got='')
                    if not e['err']:
                        c = p.ax.containers[-1] if len(p.ax.containers) == n + 1 else None
                        if c is None:
                            e['err'] = 'containers'
                        else:
                            line, _, bars = c.lines
                            x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
                            e['got'] = c.get_label()
                            e['x'] = qs(x, U)
                            if kind == 'wrr':
                                y = y * K['res'].requirement(x)
                            e['y'] = qs(y, 1000 if kind == 'mean' else U)
                            if bars:
                                segs = bars[0].get_segments()
                                e['e2'] = [q(((s[1][1] - s[0][1]) / 2) ** 2, 100000) if len(s) == 2 else NAN for s in segs]
                                if len(segs) < len(x):      # bars of points that are not shown are left out
                                    it = iter(e['e2'])
                                    e['e2'] = [NAN if math.isnan(v) else next(it, BAD) for v in y]
                elif op == 'curve':
                    n = np.array(o['ms']) / 8
                    keep = n.copy()
                    k = len(p.ax.lines)
                    _, e['err'] = errname(getattr(p, 'plot_' + o['name']), n)
                    if not e['err']:
                        ls = p.ax.lines[k:]
                        v = np.asarray(ls[0].get_ydata(), dtype=float) if len(ls) == 1 else np.full(len(n), 9e9)
                        e['at'] = len(ls) == 1 and bool(np.array_equal(ls[0].get_xdata(), keep)) and bool(np.array_equal(n, keep))
                        e['obs'] = qs(v ** 2, 100000) if kind == 'wrr' else qs((v * keep) ** 2, 1000)
                elif op == 'finish':
                    k = len(p.ax.lines)
                    _, e['err'] = errname(p.finish)
                    e['xlog'], e['ylog'] = p.ax.get_xscale() == 'log', p.ax.get_yscale() == 'log'
                    e['span'], e['one'] = [0, 0], True
                    if kind == 'mean' and not e['err']:
                        ls = p.ax.lines[k:]
                        if len(ls) == 1:
                            x, y = ls[0].get_data()
                            e['span'], e['one'] = [q(min(x), U), q(max(x), U)], bool(np.all(np.asarray(y) == 1))
                        else:
                            e['one'] = False
                ev.append(e)
    finally:
        plt.close('all')
    return {}


def xs(rng, n):
    while True:
        top = rng.choice((300, 2000, 20000, 300000, 1100000, 2000000))
        v = set()
        while len(v) < n:
            v.add(max(0, int(rng.choice((math.exp(rng.uniform(math.log(50), math.log(top))), rng.uniform(105, top), rng.choice((0, 1, 2, 60, 110)))))))
        if rng.random() < .3:
            v.add(1024000)
        v = sorted(v)
        if usable(v):
            return v


def hist(rng):
    ops, plots = [], []
    for _ in range(rng.choice((1, 1, 2))):
        ops.append(dict(op='new', kind=rng.choice(('res', 'wrr', 'mean'))))
        plots.append([ops[-1]['kind'], None])
    for k in range(1, len(plots) + 1):
        store(rng, ops, plots, k)
    for _ in range(rng.randint(2, 7)):
        k = rng.randint(1, len(plots))
        kind, (i, pix) = plots[k - 1]
        w = weighted(rng, plot=6, curve=2 if kind != 'mean' else 0, store=1)
        if w == 'plot':
            ops.append(dict(op='plot', k=k, pixel=rng.choice([-1] + pix), src=i, label=rng.choice(('', 'a', 'Camera', 'TM 1'))))
            if ops[-1]['label'] == '':
                ops[-1]['label'] = 'x'
        elif w == 'curve':
            ops.append(dict(op='curve', k=k, name=rng.choice(('requirement', 'goal', 'poisson')),
                            ms=sorted({rng.choice((1, 4, 8, 7999, 8000, 8001, 15999, 16000, 16001, 24000, rng.randint(1, 24000), rng.randint(1, 400))) for _ in range(rng.randint(1, 20))})))
        else:
            store(rng, ops, plots, k)
    for k, (kind, _) in enumerate(plots, 1):
        if any(o['op'] == 'plot' and o['k'] == k for o in ops):
            ops.append(dict(op='finish', k=k))
    return dict(ops=ops)


def store(rng, ops, plots, k):
    kind = plots[k - 1][0]
    real = rng.random() < .4
    pix = rng.sample(range(0, 40), rng.randint(1, 4))
    lim = 40 if rng.random() < .3 else 12
    yv = lambda x: rng.randint(1, 8000) if kind != 'mean' else max(1, int(x * rng.uniform(.3, 1.9)) + rng.randint(0, 60))
    while True:
        pt = []
        if real:        # the same value for every pixel of a charge
            v = {x: yv(x) for x in xs(rng, rng.randint(2, lim)) if x > 0}
            for p in pix:
                own = sorted(rng.sample(sorted(v), rng.randint(1, len(v))))
                if usable(own):
                    pt += [dict(p=p, x=x, y=v[x]) for x in own]
            ct = [dict(p=-1, x=x, y=v[x]) for x in sorted({r['x'] for r in pt})]
        else:
            for p in pix:
                pt += [dict(p=p, x=x, y=yv(x)) for x in xs(rng, rng.randint(1, lim))]
            ct = [dict(p=-1, x=x, y=yv(x)) for x in xs(rng, rng.randint(1, 2 * lim))]
            if rng.random() < .3:
                rng.shuffle(pt), rng.shuffle(ct)
        if pt and ct and usable([r['x'] for r in ct]):
            break
    plots[k - 1][1] = (len(ops), sorted({r['p'] for r in pt}))
    ops.append(dict(op='store', k=k, pixtab=pt, camtab=ct, real=real))


def generate(prop, tier, seed):
    rng = random.Random(seed * 104729 + 32)
    return [hist(rng) for _ in range(160 if tier == 'quick' else 2500)]
