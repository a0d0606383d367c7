"""Spectrum plot driver (C33): the real figures on an off-screen canvas, read back from their artists."""
import contextlib, io, os, random, re, shutil, sys, tempfile, warnings
from .common import *
from . import spectrum as SP

TIME_LIMIT = 200
U = 1000
NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)'


def setup(job):
    import matplotlib
    matplotlib.use('Agg')
    SP.setup(job)
    from matplotlib.figure import Figure
    from matplotlib import pyplot as plt
    real = Figure.savefig

    def savefig(self, fname, *a, **k):
        SAVED.append((str(fname), describe(self)))
        with open(fname, 'w') as f:
            f.write('figure')

    def show(*a, **k):
        for n in plt.get_fignums():
            SAVED.append(('', describe(plt.figure(n))))

    Figure.savefig = savefig
    plt.show = show


SAVED = []


def numbers(t, n):
    v = [q(float(x), U) for x in re.findall(NUM, t)]
    return v if len(v) == n else [BAD]


def thin(a):
    a = list(a)
    return a if len(a) <= 40 else a[::max(1, len(a) // 25)]


def segments(p):
    """the horizontal stretches of a step outline"""
    if hasattr(p, 'get_data'):
        d = p.get_data()
        return [[q(a, U), q(b, U), q(h, U)] for a, b, h in zip(d.edges[:-1], d.edges[1:], d.values)]
    xy, out = p.get_xy(), []
    for (x0, y0), (x1, y1) in zip(xy[:-1], xy[1:]):
        if y0 == y1 and x1 > x0:
            out.append([q(x0, U), q(x1, U), q(y0, U)])
    return out


def describe(fig):
    """what a figure shows"""
    from matplotlib.collections import PatchCollection
    from matplotlib.patches import Rectangle
    import matplotlib.colors as mc
    d = dict(title=fig._suptitle.get_text() if fig._suptitle is not None else '', images=[], bars=[], stats=[],
             o=dict(steps=[], lines=[], hcol=[], lcol=[], legend=[], rows=[], cells=[]))
    o = d['o']
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, PatchCollection) and c.get_array() is not None:
                d['images'].append(qs(c.get_array(), U))
        rect = [p for p in ax.patches if isinstance(p, Rectangle)]
        step = [p for p in ax.patches if not isinstance(p, Rectangle)]
        leg = ax.get_legend()
        texts = [t.get_text() for t in leg.get_texts()] if leg else []
        if rect and not ax.lines:
            d['bars'] = [[q(p.get_x(), U), q(p.get_x() + p.get_width(), U), q(p.get_height(), 1)] for p in rect]
            d['stats'] = numbers(' '.join(texts), 2)
        if ax.lines:
            o['steps'] = [segments(p) for p in step]
            o['hcol'] = [mc.to_hex(p.get_edgecolor()) for p in step]
            o['lcol'] = [mc.to_hex(l.get_color()) for l in ax.lines]
            o['lines'] = [dict(n=len(l.get_xdata()), x=qs(thin(l.get_xdata()), U), y=qs(thin(l.get_ydata()), U)) for l in ax.lines]
            handles = getattr(leg, 'legend_handles', None) or []
            for t, hd in zip(texts, handles):
                m = re.findall(r'_\{?(\d+)', t)
                v = numbers(t.split('=', 1)[-1], 2)
                # the entry of a colour is the entry of its curve
                k = [i for i, c in enumerate(o['lcol']) if c == mc.to_hex(hd.get_color())] if hasattr(hd, 'get_color') else []
                o['legend'].append([int(m[0]) if len(m) == 1 else BAD] + v)
                if len(set(o['lcol'])) == len(o['lcol']) and k != [len(o['legend']) - 1]:
                    o['legend'][-1][0] = BAD
        for t in ax.tables:
            cell = {k: c.get_text().get_text() for k, c in t.get_celld().items()}
            head = {v: c for (r, c), v in cell.items() if r == 0}
            if 'Initial' not in head or 'Fit' not in head:
                continue
            rows = sorted({r for r, c in cell if r > 0})
            o['rows'] = [cell.get((r, -1), '') for r in rows]
            o['cells'] = [numbers(cell.get((r, head['Initial']), ''), 1) + numbers(cell.get((r, head['Fit']), ''), 2) for r in rows]
    return d


def fit_event(names, vals, errs, x, hy, edges, fx, fy, init):
    return dict(names=list(names), vals=qs(vals, U), errs=qs(errs, U), x=qs(x, U), hy=[qs(y, U) for y in hy], edges=qs(edges, U),
                fx=qs(thin(fx), U), fy=[qs(thin(y), U) for y in fy], nfit=len(fx), init=[[k, q(v, U)] for k, v in init.items()])


def read(path):
    """a fit file as the specification sees it"""
    import pandas as pd
    with pd.HDFStore(path, 'r') as st:
        v, e, a = st['values'], st['errors'], st['arrays']
    from CHECLabPy.core.io import HDF5Reader
    with HDF5Reader(path) as r:
        m = r.get_metadata()
    names = list(v.columns)
    pix = []
    for p in range(len(v)):
        f = fit_event(names, v.loc[p].values, e.loc[p][names].values, *(a.loc[p][k] for k in ('charge_hist_x', 'charge_hist_y', 'charge_hist_edges', 'fit_x', 'fit_y')), {})
        f.pop('init'), f.pop('names')
        pix.append(f)
    return dict(n=m['n_illuminations'], fitter=m['fitter'], names=names, pixels=pix, init=[[k, q(x, U)] for k, x in m['initial'].items()])


EMPTY = dict(n=0, fitter='', names=[], pixels=[], init=[])
FIGURE = dict(steps=[], lines=[], hcol=[], lcol=[], legend=[], rows=[], cells=[])


def camera(n):
    """a mapping with the geometry a camera image asks for"""
    from .reducers import grid_mapping
    m = grid_mapping(n, 3)[0]
    m.metadata = dict(m.metadata, size=.006)
    return m


def arrays(f):
    import numpy as np
    edges = np.array(f['edges']) / 8
    return ((edges[1:] + edges[:-1]) / 2, [np.array(y, dtype=float) for y in f['hy']], edges, np.array(f['fx']) / 8, [np.array(y) / 8 for y in f['fy']])


def replay(h, ev):
    import numpy as np, pandas as pd, yaml
    from matplotlib import pyplot as plt
    from CHECLabPy.core.io import HDF5Writer
    from CHECLabPy.plotting.spe import SpectrumFitPlotter
    from CHECLabPy.scripts import plot_spe, extract_spe
    warnings.simplefilter('ignore')
    d = tempfile.mkdtemp(dir=scratch())
    out = io.StringIO()
    files = []
    argv = sys.argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            for o in h['ops']:
                plt.close('all')
                del SAVED[:]
                op, e = o['op'], dict(op=o['op'], err='')
                if op == 'plot':
                    f = o['fit']
                    a = arrays(f)
                    v, er = {k: x / 8 for k, x in zip(f['names'], f['vals'])}, {k: x / 8 for k, x in zip(f['names'], f['errs'])}
                    ini = {k: x / 8 for k, x in f['init']}
                    e.update(n=o['n'], fit=fit_event(f['names'], list(v.values()), list(er.values()), *a, ini), o=FIGURE)
                    keep = repr((a, v, er, ini))
                    p, e['err'] = errname(SpectrumFitPlotter, o['n'])
                    if not e['err']:
                        _, e['err'] = errname(p.plot, *a, v, er, ini)
                    if not e['err']:
                        _, e['err'] = errname(p.save, os.path.join(d, 'direct', 'x.pdf'))
                    e['kept'] = keep == repr((a, v, er, ini))
                    if not e['err']:
                        e['o'] = SAVED[0][1]['o']
                elif op == 'write':
                    path = os.path.join(d, 'w%d_spe.h5' % len(files))
                    idx = pd.Index(range(len(o['pixels'])), name='pixel')
                    A = [arrays(f) for f in o['pixels']]
                    names = o['names']
                    with HDF5Writer(path) as w:
                        w.write(values=pd.DataFrame([{k: x / 8 for k, x in zip(names, f['vals'])} for f in o['pixels']], index=idx),
                                errors=pd.DataFrame([{k: x / 8 for k, x in zip(names, f['errs'])} for f in o['pixels']], index=idx),
                                arrays=pd.DataFrame([dict(zip(('charge_hist_x', 'charge_hist_y', 'charge_hist_edges', 'fit_x', 'fit_y'), a)) for a in A], index=idx))
                        w.add_mapping(camera(len(idx)))
                        w.add_metadata(files=['a'], fitter=o['fitter'], n_illuminations=o['n'], n_pixels=len(idx), initial={k: x / 8 for k, x in o['init']})
                    files.append((path, None))
                    e['file'] = dict(n=o['n'], fitter=o['fitter'], names=names, init=[[k, x * 125] for k, x in o['init']], pixels=[])
                    for f, a in zip(o['pixels'], A):
                        g = fit_event(names, np.array(f['vals']) / 8, np.array(f['errs']) / 8, *a, {})
                        g.pop('init'), g.pop('names')
                        e['file']['pixels'].append(g)
                elif op == 'extract':
                    npix, nill = len(o['ch']), len(o['ch'][0])
                    SP.DEFAULT[:] = [dict(params=o['params'], nb=o['nb'], lo=o['lo'], hi=o['hi'])]
                    args = ['extract_spe', '-f']
                    for i in range(nill):
                        args.append(os.path.join(d, 'c%d_%d_dl1.h5' % (len(files), i)))
                        SP.dl1(args[-1], [[o['ch'][p][i][k] / 8 for p in range(npix)] for k in range(len(o['ch'][0][i]))], npix)
                    path = os.path.join(d, 'e%d_spe.h5' % len(files))
                    args += ['-o', path, '-C', 'charge', '-s', 'VerifFitter']
                    if o['conf']:
                        with open(path + '.yml', 'w') as f:
                            yaml.safe_dump(dict(initial={k: x / 8 for k, x in o['conf']}), f)
                        args += ['-c', path + '.yml']
                    sys.argv = args
                    _, e['err'] = errname(extract_spe.main)
                    e.update(fitter='VerifFitter', npix=npix, nill=nill, params=[[p['name'], q(p['ini'], U)] for p in o['params']],
                             conf=[[k, x * 125] for k, x in o['conf']], file=EMPTY)
                    if not e['err']:
                        e['file'] = read(path)
                    files.append((path, (args, SP.DEFAULT[0])))
                elif op == 'peek':
                    path, (args, dflt) = files[o['f'] - 1]
                    SP.DEFAULT[:] = [dflt]
                    other = path + '.unused'
                    sys.argv = [other if x == path else x for x in args] + ['-p', str(o['pixel'])]
                    _, e['err'] = errname(call_exit, extract_spe.main)
                    e.update(f=o['f'], pixel=o['pixel'], shown=len(SAVED), title='', o=FIGURE)
                    if SAVED:
                        e.update(title=SAVED[0][1]['title'], o=SAVED[0][1]['o'])
                elif op == 'show':
                    path, _ = files[o['f'] - 1]
                    with open(path, 'rb') as f:
                        keep = f.read()
                    where = os.path.join(d, 'plots', o['dir'])
                    sys.argv = ['plot_spe', '-f', path, '-o', where, '-p', str(o['pixel'])]
                    plt.close('all')
                    _, e['err'] = errname(plot_spe.main)
                    with open(path, 'rb') as f:
                        kept = keep == f.read()
                    e.update(f=o['f'], pixel=o['pixel'], dir=all(os.path.dirname(os.path.abspath(n)) == where and os.path.isfile(n) for n, _ in SAVED), kept=kept,
                             saved=[dict(x, name=os.path.basename(n)) for n, x in SAVED], left=len([n for n in plt.get_fignums() if visible(plt.figure(n))]))
                ev.append(e)
                if e['err']:
                    break
    finally:
        sys.argv = argv
        plt.close('all')
        shutil.rmtree(d)
    return {}


def visible(fig):
    return any(a.lines or a.patches or a.collections for a in fig.axes)


def call_exit(f):
    try:
        f()
    except SystemExit as x:
        if x.code not in (None, 0):
            raise


# ---------------------------------------------------------------- histories
def rfit(rng, names, n):
    nb = rng.randint(1, 8)
    edges = sorted(rng.sample(range(-400, 1600), nb + 1))
    m = rng.randint(2, 12)
    fx = sorted(rng.sample(range(-400, 1600), m))
    return dict(vals=[rng.choice((0, rng.randint(1, 400), rng.randint(-50, 4000))) for _ in names],
                errs=[rng.choice((0, rng.randint(0, 40), rng.randint(0, 900))) for _ in names],
                edges=edges, hy=[[rng.choice((0, 1, rng.randint(0, 200))) for _ in range(nb)] for _ in range(n)],
                fx=fx, fy=[[rng.randint(0, 1600) for _ in range(m)] for _ in range(n)])


def rnames(rng, n):
    other = rng.sample(['norm', 'eped', 'eped_sigma', 'spe', 'spe_sigma', 'opct', 'pap', 'dap'], rng.randint(0, 5))
    names = other + ['lambda_%d' % i for i in range(n)]
    if rng.random() < .5:
        rng.shuffle(names)
    return names


def rinit(rng, names):
    return [[k, rng.choice((0, 8, 1, 4, rng.randint(1, 800), rng.randint(-60, 9000)))] for k in (names if rng.random() < .5 else sorted(names))]


def nudge(rng, ops):
    """the same call with something else"""
    import copy
    o = copy.deepcopy(rng.choice([x for x in ops if x['op'] == 'plot']))
    o['fit']['vals'][rng.randrange(len(o['fit']['vals']))] += 1
    return o


def hist(rng, extract):
    ops, files = [], []
    for _ in range(rng.randint(1, 3)):
        w = 'extract' if extract and not files else weighted(rng, plot=3, write=2, show=2 * bool(files), again=bool([x for x in ops if x['op'] == 'plot']))
        if w == 'plot':
            n = rng.choice((1, 2, 2, 3, 5))
            names = rnames(rng, n)
            ops.append(dict(op='plot', n=n, fit=dict(rfit(rng, names, n), names=names, init=rinit(rng, names))))
        elif w == 'again':
            ops.append(nudge(rng, ops))
        elif w == 'write':
            n = rng.choice((1, 2, 3))
            names = rnames(rng, n)[-4:] if rng.random() < .5 else ['lambda_%d' % i for i in range(n)]
            names += ['lambda_%d' % i for i in range(n) if 'lambda_%d' % i not in names]
            npix = rng.choice((1, 2, 3, 5, 12))
            px = [rfit(rng, names, n) for _ in range(npix)]
            for c in range(len(names)):
                if rng.random() < .3:      # nearly the same value in all pixels
                    b = rng.randint(0, 3000)
                    for f in px:
                        f['vals'][c] = b + rng.choice((0, 0, 1, 3))
            ops.append(dict(op='write', n=n, names=names, fitter=rng.choice(('SiPMGentileFitter', 'MAPMFitter', 'X')), init=rinit(rng, names), pixels=px))
            files.append((npix, False))
            ops.append(dict(op='show', f=len(files), pixel=rng.randrange(npix), dir=rng.choice(('a', 'b/c'))))
        elif w == 'extract':
            n, npix = rng.choice((1, 2, 3)), rng.choice((1, 2, 4))
            ps = [dict(p, multi=p['name'] == 'lambda_') for p in SP.rparams(rng, True)]
            s = SP.rsettings(rng)
            nev = rng.randint(5, 30)
            conf = [[p['name'], int(8 * rng.choice((1, 2.5, -3, .125)))] for p in ps if rng.random() < .3]
            ops.append(dict(op='extract', params=ps, nb=s['nb'], lo=s['lo'], hi=s['hi'], conf=conf,
                            ch=[[[rng.randint(s['lo'], s['hi']) for _ in range(nev)] for _ in range(n)] for _ in range(npix)]))
            files.append((npix, True))
            for op in rng.choice((('peek',), ('peek', 'show'), ('peek', 'peek'))):
                ops.append(dict(op=op, f=len(files), pixel=rng.randrange(npix), dir='a'))
        else:
            f = rng.randint(1, len(files))
            ops.append(dict(op='show', f=f, pixel=rng.randrange(files[f - 1][0]), dir=rng.choice(('a', 'b/c'))))
    return dict(ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 104729 + 33)
    return [hist(rng, i % 4 == 0) for i in range(90 if tier == 'quick' else 1200)]
