"""Data sheet driver (C29).  Sheets are written over the one in a scratch copy of the package."""
import contextlib, csv, io, os, random, shutil
from .common import *
from . import masks

TIME_LIMIT = 60
COLS = ['vover', 'gain', 'opct', 'pde']
SCALE = [1000000, 1, 1000000, 1000000]


def setup(job):
    masks.copy_package()


def sheet_path():
    import CHECLabPy.calib
    return os.path.join(os.path.dirname(CHECLabPy.calib.__file__), 'data', 'sipm_data_sheet.csv')


def write_sheet(path, t, order):
    with open(path, 'w') as f:
        f.write(','.join(COLS[c] for c in order) + '\n')
        for r in t:
            f.write(','.join('' if r[c] == NAN else repr(float(r[c])) for c in order) + '\n')


def bundled(path):
    with open(path) as f:
        return [[float(r[c]) if r[c] else None for c in COLS] for r in csv.DictReader(f)]


def replay(h, ev):
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from CHECLabPy.calib import SiPMDataSheetConverter
    path = sheet_path()
    orig = path + '.orig'
    if not os.path.exists(orig):
        shutil.copy(path, orig)
    conv = []
    for o in h['ops']:
        e, op = dict(o, err=''), o['op']
        if op == 'new':
            write_sheet(path, h['tabs'][o['t'] - 1], o['order'])
            c, e['err'] = errname(SiPMDataSheetConverter)
            conv.append(c)
        elif op == 'ask':
            args = {COLS[a['k'] - 1]: (np.array(a['v']) / 16 if a['form'] == 'array' else a['v'][0] // 16 if a['form'] == 'int' else a['v'][0] / 16) for a in o['args']}
            got, e['err'] = errname(conv[o['c'] - 1], **args)
            if not e['err']:
                e['cols'] = sorted(str(k) for k in got)
                e['got'] = [[q(np.ravel(got[c])[i], 256) for c in COLS] for i in range(len(o['args'][0]['v']))] if o['args'] and e['cols'] == sorted(COLS) else []
        elif op == 'sheet':
            shutil.copy(orig, path)
            k = o['k'] - 1
            rows = sorted((r for r in bundled(path) if r[k] is not None), key=lambda r: r[k])
            i = o['i'] % (len(rows) - 1)
            a, b = rows[i], rows[i + 1]
            c, e['err'] = errname(SiPMDataSheetConverter)
            v = a[k] if o['f'] == 0 else b[k] if o['f'] == 4 else a[k] + o['f'] / 4 * (b[k] - a[k])
            got, e['err'] = errname(c, **{COLS[k]: v})
            code = lambda r: [NAN if x is None else q(x, s) for x, s in zip(r, SCALE)]
            near = rows[max(0, i - 1):i + 3]
            e.update(a=code(a), b=code(b), edge=[any(r[c] is None for r in near) for c in range(4)],
                     got=[q(float(got[c]), s) for c, s in zip(COLS, SCALE)] if not e['err'] else [])
        elif op == 'plot':
            show, plt.show = plt.show, lambda *a, **k: None
            n0 = set(plt.get_fignums())
            _, e['err'] = errname(conv[o['c'] - 1].plot)
            plt.show = show
            figs = [plt.figure(n) for n in plt.get_fignums() if n not in n0]
            ls = [l for f in figs for a in f.axes for l in a.lines]
            e['lines'] = [[l.get_label(), [[int(q(x, 1)), int(q(y, 1))] for x, y in zip(l.get_xdata(), l.get_ydata())]] for l in sorted(ls, key=lambda l: l.get_label())]
            plt.close('all')
        ev.append(e)
        if op in ('new', 'plot') and e['err']:
            break
    return dict(tabs=h['tabs'])


def column(rng, n, hi=60):
    lo = rng.choice((0, 0, -9, 3))
    c = sorted(rng.sample(range(lo, lo + hi), n))
    return c if rng.random() < .8 else c[::-1]


def sheet(rng):
    n = rng.randint(3, 9)
    cols = [column(rng, n) for _ in range(4)]
    t = [list(r) for r in zip(*cols)]
    for c in range(4):
        for i in range(rng.choice((0, 0, 1, 2))):
            if n - i > 3:
                t[i][c] = NAN
        for i in range(rng.choice((0, 0, 1, 2))):
            if n - i > 5:
                t[n - 1 - i][c] = NAN
        if rng.random() < .15 and n > 6:
            t[rng.randrange(2, n - 2)][c] = NAN
    if rng.random() < .3:
        rng.shuffle(t)
    return t


def value(rng, t, k, out=.15):
    known = sorted(r[k] for r in t if r[k] != NAN)
    r = rng.random()
    if r < .1:
        return 16 * known[-1]
    if r < .3:
        return 16 * rng.choice(known)
    if r < .3 + out:
        return rng.choice((16 * known[0], 16 * known[-1])) + rng.choice((-1, 1, -16, 16, 40, -40))
    return rng.randint(16 * known[0], 16 * known[-1])


def history(rng):
    tabs = [sheet(rng) for _ in range(rng.choice((1, 1, 2)))]
    ops, conv = [], []
    for _ in range(rng.randint(4, 14)):
        op = 'new' if not conv else weighted(rng, new=.6, ask=6, plot=.3, sheet=1)
        if op == 'new':
            t = rng.randrange(len(tabs))
            order = [0, 1, 2, 3]
            if rng.random() < .4:
                rng.shuffle(order)
            ops.append(dict(op='new', t=t + 1, order=order))
            conv.append(t)
        elif op == 'sheet':
            ops.append(dict(op='sheet', k=rng.randint(1, 4), i=rng.randrange(40), f=rng.randint(0, 4)))
        elif op == 'plot':
            ops.append(dict(op='plot', c=rng.randint(1, len(conv))))
        else:
            c = rng.randrange(len(conv))
            t = tabs[conv[c]]
            args = []
            for k in rng.sample(range(4), rng.choice((0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 4))):
                form = rng.choice(('float', 'float', 'int', 'array'))
                n = rng.choice((1, 2, 3, 4, 12))
                v = [value(rng, t, k, rng.choice((0, .1))) for _ in range(n)] if form == 'array' else [value(rng, t, k)]
                if form == 'int':
                    v = [v[0] // 16 * 16]
                args.append(dict(k=k + 1, v=v, form=form))
            ops.append(dict(op='ask', c=c + 1, args=args))
    return dict(tabs=tabs, ops=ops)


def concretise(hists, seed):
    """cases of the same sheet go into one history"""
    rng = random.Random(seed)
    by = {}
    for h in hists:
        by.setdefault((h['key'], h['other'], tuple(h['mkey']), tuple(h['mother'])), []).append(h['pos'])
    out = []
    for (k, o, mk, mo), pos in by.items():
        n = 3
        cols = [column(rng, n) for _ in range(4)]
        t = [list(r) for r in zip(*cols)]
        full = [list(r) for r in t]
        for c, (a, b) in ((k - 1, mk), (o - 1, mo)):
            for i in list(range(a)) + [n - 1 - i for i in range(b)]:
                t[i][c] = NAN
        xs = sorted(r[k - 1] for r in full)
        ops = [dict(op='new', t=1, order=[0, 1, 2, 3])]
        for p in pos:                  # before, on row 1, between at 1/4.., on row 2, ..., after
            i, f = divmod(p, 4)
            v = 16 * xs[0] - 8 if p == 0 else 16 * xs[-1] + 8 if i >= n else None
            if v is None:
                i, f = divmod(p - 1, 4)
                v = 16 * xs[i] + (4 * f * (xs[i + 1] - xs[i]) if i + 1 < n else 8 * f)
            ops.append(dict(op='ask', c=1, args=[dict(k=k, v=[v], form='float')]))
        out.append(dict(tabs=[t], ops=ops))
    return out


def generate(prop, tier, seed):
    rng = random.Random(seed * 1907 + 29)
    return [history(rng) for _ in range(250 if tier == 'quick' else 6000)]
