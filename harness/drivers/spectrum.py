"""Spectrum fitter driver (C15, C16): real fitters with a sum-of-squares likelihood whose minimum is known."""
import io, contextlib, os, random, sys, tempfile, warnings
from .common import *

TIME_LIMIT = 250
CALLS = []
OFF = {'a_': 0, 'b': 1, 'c_': -2, 'd': 3, 'lambda_': 2, 'm': 0}
DEFAULT = []        # parameters of a fitter made by the factory


def setup(job):
    import numpy as np
    warnings.simplefilter('ignore')
    from CHECLabPy.core.spectrum_fitter import SpectrumFitter, SpectrumParameterCollection

    class VerifFitter(SpectrumFitter):
        def __init__(self, n_illuminations, plist=None):
            super().__init__(n_illuminations)
            d = plist or DEFAULT[0]
            self.parameters = SpectrumParameterCollection(make(d['params']), n_illuminations)
            self.n_bins, self.range = d['nb'], (d['lo'] / 8, d['hi'] / 8)

        @staticmethod
        def _get_spectra(n_illuminations, data_x, lookup, *v):
            return [np.exp(-.5 * ((np.asarray(data_x) - sum(v[j] for j in lookup[i].values())) / 20) ** 2) + .1
                    for i in range(n_illuminations)]

        @staticmethod
        def _get_likelihood(n_illuminations, data_x, data_y, lookup, *v):
            CALLS.append((list(v), [{str(k): int(x) for k, x in d.items()} for d in lookup]))
            r = 0
            x = np.asarray(data_x, dtype=float)
            for i in range(n_illuminations):
                y = np.asarray(data_y[i], dtype=float)
                t = (x * y).sum() / y.sum() if y.sum() else 0
                for name, j in lookup[i].items():
                    r += 100 * (v[j] - t - OFF[name]) ** 2
            return r

    VerifFitter.__qualname__ = 'VerifFitter'
    globals()['VerifFitter'] = VerifFitter
    from CHECLabPy.core.factory import SpectrumFitterFactory
    assert 'VerifFitter' in SpectrumFitterFactory.subclass_names


def make(params):
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter
    return [SpectrumParameter(p['name'], p['ini'], tuple(p['lim']), p['fix'], p['multi']) for p in params]


def val(x):
    try:
        return dict(r=repr(x), q=q(x, 10000))
    except Exception:
        return dict(r=repr(x), q=BAD)


def lim(t):
    try:
        lo, hi = t
        return dict(r=repr(t), lo=q(lo, 10000), hi=q(hi, 10000))
    except Exception:
        return dict(r=repr(t), lo=BAD, hi=BAD)


def par(p):
    return dict(name=p['name'], ini=val(p['ini']), lim=lim(tuple(p['lim'])), fix=p['fix'], multi=p['multi'])


def observe(fs):
    out = []
    for i, f in fs.items():
        c = f.parameters
        lst = [dict(name=p.name, ini=val(p.initial), lim=lim(p.limits), fix=p.fixed, multi=p.multi) for p in c]
        kw = c.minuit_kwargs
        names = list(c.parameter_names)
        out.append(dict(f=i, params=lst, attrs=len(c) == len(lst) and all(getattr(c, p.name) is p for p in c), names=names,
                        nkw=len(kw), kw=[[repr(kw.get(n)), repr(kw.get('limit_' + n)), kw.get('fix_' + n, 'none')] for n in names],
                        lookup=[dict(d) for d in c.lookup], typed=[{str(k): int(v) for k, v in d.items()} for d in c.lookup_typed],
                        nb=f.n_bins, lo=q(f.range[0], 8), hi=q(f.range[1], 8), n=f.n_illuminations))
    return out


def code(table, values, errors, arr):
    import numpy as np
    k = (tuple((a, float(b)) for a, b in values.items() if a != 'pixel'),
         tuple((a, float(b)) for a, b in errors.items() if a != 'pixel'),
         tuple(np.asarray(x, dtype=np.float64).tobytes() for x in [arr['charge_hist_x'], arr['charge_hist_edges'], arr['fit_x']]
               + list(arr['charge_hist_y']) + list(arr['fit_y'])))
    return table.setdefault(k, len(table) + 1)


def result(table, values, errors, arr):
    import numpy as np
    hx, fx = np.asarray(arr['charge_hist_x'], float), np.asarray(arr['fit_x'], float)
    return dict(names=[k for k in values if k != 'pixel'], enames=[k for k in errors if k != 'pixel'],
                vals=[val(float(v)) for k, v in values.items() if k != 'pixel'],
                hist=[qs(y, 1) for y in arr['charge_hist_y']], x=qs(hx, 16), edges=qs(arr['charge_hist_edges'], 16),
                curve=[q(fx[0], 16), q(fx[-1], 16), len(fx)],
                area=[q(np.trapz(np.asarray(fy, float), fx) / a, 1000) if a else 0
                      for fy, a in zip(arr['fit_y'], [np.trapz(np.asarray(y, float), hx) for y in arr['charge_hist_y']])],
                lam=[q(values[k], 1000) for k in values if k.startswith('lambda_')],
                code=code(table, values, errors, arr))


def yaml_doc(d):
    """a hand-written configuration: only the named settings"""
    out = {}
    if d['nb']:
        out['n_bins'] = d['nb'][0]
    if d['range']:
        out['range'] = [d['range'][0][0] / 8, d['range'][0][1] / 8]
    for s in ('initial', 'limits', 'fixed'):
        if d[s]:
            out[s] = dict(d[s])
    for k in d.get('unknown', []):
        out[k] = 1
    return out


def doc_event(d):
    return dict(nb=d['nb'], range=[dict(lo=a, hi=b) for a, b in d['range']],
                initial=[dict(name=k, v=val(v)) for k, v in d['initial']],
                limits=[dict(name=k, v=lim(tuple(v))) for k, v in d['limits']],
                fixed=[dict(name=k, v=v) for k, v in d['fixed']])


def dl1(path, charges, npix, charge='charge'):
    """a DL1 file with the charges[event][pixel]"""
    import numpy as np, pandas as pd
    from CHECLabPy.core.io import HDF5Writer
    from .reducers import grid_mapping
    nev = len(charges)
    with HDF5Writer(path) as w:
        w.append(pd.DataFrame(dict(iev=np.repeat(np.arange(nev), npix).astype(np.uint32), pixel=np.tile(np.arange(npix), nev).astype(np.uint32),
                                   **{charge: np.array(charges, dtype=np.float64).ravel()})))
        m = grid_mapping(npix, 3)[0]
        m.metadata = dict(m.metadata, size=.006)
        w.add_mapping(m)
        w.add_metadata(n_pixels=npix, n_events=nev, n_modules=1, n_samples=10, camera_version='x')


def replay(h, ev):
    if 'real' in h:
        return real(h, ev)
    import numpy as np
    files, fs, table = {}, {}, {}
    DEFAULT[:] = [h['default']]
    d = tempfile.mkdtemp(dir=scratch())
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            for o in h["ops"]:
                e = dict(o, err='')
                stop = do(o, e, fs, files, table, d, h)
                if o['op'] in ('fit', 'pixels') and e['err']:
                    stop = True
                e['obs'] = observe(fs) if not stop else []
                ev.append(e)
                if stop:
                    break
    finally:
        import shutil
        shutil.rmtree(d)
    return dict(off=OFF, real=False)


def do(o, e, fs, files, table, d, h):
    import numpy as np, yaml
    op = o['op']
    p = os.path.join(d, str(o.get('file')) + '.yml')
    if op == 'new':
        e.update(params=[par(x) for x in o['params']])
        fs[o['f']], e['err'] = errname(VerifFitter, o['nill'], o)
        return fs[o['f']] is None
    if op == 'update':
        e['list'] = [par(x) for x in o['list']]
        _, e['err'] = errname(fs[o['f']].parameters.update, make(o['list']))
    elif op == 'save':
        _, e['err'] = errname(fs[o['f']].save_config, p)
    elif op == 'write':
        e['doc'] = doc_event(o['doc'])
        with open(p, 'w') as f:
            if o['doc'].get('style'):
                yaml.safe_dump(yaml_doc(o['doc']), f, default_flow_style=o['doc']['style'] == 1)
            elif yaml_doc(o['doc']):
                yaml.safe_dump(yaml_doc(o['doc']), f)
    elif op == 'load':
        _, e['err'] = errname(fs[o['f']].load_config, p)
    elif op == 'upinit':
        f = fs[o['f']]
        a = (o['ill'],) if o['ill'] or o.get('explicit') else ()
        _, e['err'] = errname(f.update_initial, *a)
    elif op == 'fit':
        f = fs[o['f']]
        del CALLS[:]
        ch = [np.array(c, dtype=[np.float64, np.float32][o.get('f4', 0)]) / 8 for c in o['ch']]
        _, e['err'] = errname(f.apply, *ch)
        if e['err']:
            e['vals'] = []
            return True
        e['first'] = [q(v, 10000) for v in CALLS[0][0]] if CALLS else []
        e['used'] = CALLS[-1][1] if CALLS else []
        e.update(pack_fit(table, f))
    elif op == 'pixels':
        return pixels(o, e, fs, table, d)
    return False


def pack_fit(table, f):
    x, y, ed = f.charge_histogram
    fx, fy = f.fit_result_curve
    return result(table, dict(f.fit_result_values), dict(f.fit_result_errors),
                  dict(charge_hist_x=x, charge_hist_y=y, charge_hist_edges=ed, fit_x=fx, fit_y=fy))


def pixels(o, e, fs, table, d, fitter='VerifFitter'):
    import numpy as np, yaml
    npix, nill = len(o['ch']), len(o['ch'][0])
    e.update(lam=[], order=[], out=[])
    if not o['script']:
        from CHECLabPy.scripts.extract_spe import PixelFitApplier
        charges = [np.array([o['ch'][p][i] for p in range(npix)], dtype=float).T / 8 for i in range(nill)]
        a = PixelFitApplier(fs[o['f']])
        f = a.process if o['nproc'] == 0 else (lambda *c: a.multiprocess(o['nproc'], *c))
        _, e['err'] = errname(f, *charges)
        if e['err']:
            return True
        v, er, ar = dict(a.pixel_values), dict(a.pixel_errors), dict(a.pixel_arrays)
        for p in sorted(set(v) | set(er) | set(ar)):
            if p not in v or p not in er or p not in ar:
                e['out'].append(dict(pixel=int(p), labels=[]))
                e['err'] = 'missing'
                return True
            e['out'].append(dict(result(table, v[p], er[p], ar[p]), pixel=int(p),
                                 labels=[v[p].get('pixel', BAD), er[p].get('pixel', BAD), ar[p].get('pixel', BAD)]))
        return False
    from CHECLabPy.scripts import extract_spe
    from CHECLabPy.core.io import HDF5Reader
    e['params'] = [par(x) for x in o['params']] if fitter == 'VerifFitter' else o['params']
    e['doc'] = doc_event(o['doc'])
    DEFAULT[:] = [dict(params=o['params'], nb=o['nb'], lo=o['lo'], hi=o['hi'])]
    paths = []
    for i in range(nill):
        paths.append(tempfile.mktemp(dir=d, suffix='_dl1.h5'))
        dl1(paths[-1], [[o['ch'][p][i][k] / 8 for p in range(npix)] for k in range(len(o['ch'][0][i]))], npix)
    out = tempfile.mktemp(dir=d, suffix='_spe.h5')
    argv = ['extract_spe', '-f'] + paths + ['-o', out, '-C', 'charge', '-s', fitter]
    if o['doc']['style'] >= 0:
        cfg = os.path.join(d, 'script.yml')
        with open(cfg, 'w') as f:
            yaml.safe_dump(yaml_doc(o['doc']), f)
        argv += ['-c', cfg]
    if o['nproc']:
        argv += ['--n_processes', str(o['nproc'])]
    old = sys.argv
    sys.argv = argv
    try:
        _, e['err'] = errname(extract_spe.main)
    finally:
        sys.argv = old
    if e['err']:
        return True
    with HDF5Reader(out) as r:
        v, er, ar = r.read('values'), r.read('errors'), r.read('arrays')
    e['order'] = [[int(x) for x in t.index] for t in (v, er, ar)]
    for k, p in enumerate(v.index):
        if k >= len(er) or k >= len(ar):
            break
        e['out'].append(dict(result(table, v.iloc[k].to_dict(), er.iloc[k].to_dict(), ar.iloc[k].to_dict()), pixel=int(p),
                             labels=[int(t.index[k]) for t in (v, er, ar)]))
    return False


def real(h, ev):
    """the delivered fitters, through the script"""
    import numpy as np
    from CHECLabPy.core.factory import SpectrumFitterFactory
    table = {}
    d = tempfile.mkdtemp(dir=scratch())
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        f = SpectrumFitterFactory.produce(h['real'], h['nill'])
        f.n_bins = int(f.range[1] - f.range[0]) // 2          # edges exact in binary
        e = dict(op='new', f=1, nill=h['nill'], nb=f.n_bins, lo=q(f.range[0], 8), hi=q(f.range[1], 8), err='')
        o = observe({1: f})
        e.update(params=o[0]['params'], obs=o)
        ev.append(e)
        params, nb, lo, hi = e['params'], e['nb'], e['lo'], e['hi']
        rng = np.random.RandomState(h['seed'])
        ch = []
        for p in range(h['npix']):
            ch.append([])
            for lam in h['lam']:
                k = rng.poisson(lam / 1000, h['nev'])
                ch[-1].append([int(x) for x in np.round(8 * rng.normal(25 * k, np.sqrt(81 + 4 * k)))])
        ch.append(ch[0])                       # a pixel with the same charges
        order = list(range(len(ch)))
        random.Random(h['seed']).shuffle(order)
        for p in order[:2]:
            e = dict(op='fit', f=1, ch=ch[p], err='')
            _, e['err'] = errname(f.apply, *[np.array(c) / 8 for c in ch[p]])
            if e['err']:
                ev.append(dict(e, vals=[]))
                return dict(off=OFF, real=True)
            e.update(pack_fit(table, f), obs=observe({1: f}), first=[], used=[])
            ev.append(e)
        for nproc in h['nprocs']:
            o = dict(op='pixels', script=True, ch=ch, nproc=nproc, nill=h['nill'], params=params, nb=nb, lo=lo, hi=hi,
                     doc=dict(nb=[nb], range=[], initial=[], limits=[], fixed=[], style=0))
            e = dict(o, err='')
            bad = pixels(o, e, {}, table, d, h['real'])
            e['lam'] = h['lam']
            ev.append(e)
            if bad:
                break
    import shutil
    shutil.rmtree(d)
    return dict(off=OFF, real=True)


# ---------------------------------------------------------------- histories
RANGES = [(-80, 240, (4, 5, 10, 20, 32)), (-40, 120, (4, 5, 16, 20)), (0, 160, (4, 10, 20, 40)), (16, 176, (5, 8, 32)), (-16, -8, (4, 8)),
          (-400, 400, (10, 50))]
WIDE = [(-60, 60), (-50.5, 70), (-1000, 41), (-45, 45.25)]
INI = [0, 1, -3, 2.5, 7.125, 12, -0.1, 20.3]


def charges(rng, k=None):
    c = rng.choice((0, 8, 40, 100, 130))
    w = rng.choice((0, 5, 30, 200))
    n = rng.choice((1, 2, 10, 40)) if k is None else k
    return [rng.choice((c + rng.randint(-w, w), c + rng.randint(-w, w), rng.choice((-80, 240, 0, 160, 16, 176, -40, 120, -1000, 1000, 241, -81))))
            for _ in range(n)]


def rpar(rng, name, multi=None):
    return dict(name=name, ini=rng.choice(INI), lim=list(rng.choice(WIDE)), fix=name != 'm' and rng.random() < .25,
                multi=rng.random() < .5 if multi is None else multi)


def rsettings(rng):
    lo, hi, nbs = rng.choice(RANGES)
    return dict(nb=rng.choice(nbs), lo=lo, hi=hi)


def rparams(rng, script=False):
    names = rng.sample(['a_', 'b', 'c_', 'd', 'lambda_'], rng.randint(1, 4))
    if script and 'lambda_' not in names:
        names.append('lambda_')
    names.insert(rng.randint(0, len(names)), 'm')
    return [rpar(rng, n, True if script and n == 'lambda_' else None) for n in names]


def rdoc(rng, names):
    d = dict(nb=[], range=[], initial=[], limits=[], fixed=[], style=rng.choice((0, 1, 2)))
    if rng.random() < .5:
        s = rsettings(rng)
        d.update(nb=[s['nb']], range=[[s['lo'], s['hi']]])
    for sec in ('initial', 'limits', 'fixed'):
        if rng.random() < .6:
            for n in rng.sample(names, rng.randint(1, len(names))):
                p = rpar(rng, n)
                d[sec].append([n, p[dict(initial='ini', limits='lim', fixed='fix')[sec]]])
    if rng.random() < .2:
        d['unknown'] = ['bogus']
    if rng.random() < .15 and d['initial']:
        d['initial'].append(['nobody', 3])
    if rng.random() < .1:
        d = dict(nb=[], range=[], initial=[], limits=[], fixed=[], style=0)
    return d


def default(rng):
    return dict(params=rparams(rng), **rsettings(rng))


def pool(rng, n):
    return [charges(rng) for _ in range(n)]


def hist15(rng):
    ops, nill, names, fitted, files = [], {}, {}, {}, []
    shared = rparams(rng)
    for f in range(1, rng.choice((2, 3, 4))):
        n = rng.choice((1, 2, 2, 3, 4))
        ps = [dict(rpar(rng, p['name'], p['multi'])) for p in shared] if rng.random() < .7 else rparams(rng)
        ops.append(dict(op='new', f=f, nill=n, params=ps, **rsettings(rng)))
        nill[f], names[f], fitted[f] = n, [p['name'] for p in ps], False
    pl = pool(rng, 5)
    for _ in range(rng.randint(2, 9)):
        f = rng.choice(sorted(nill))
        op = weighted(rng, update=3, save=3, write=2, load=4 if files else 0, fit=3, upinit=3 if fitted[f] else 1)
        o = dict(op=op, f=f)
        if op == 'update':
            toggle = rng.random() < .4
            o['list'] = [rpar(rng, n) for n in rng.sample(names[f], rng.randint(1, len(names[f])))]
            if not toggle:
                cur = multi_of(ops, f)
                for p in o['list']:
                    p['multi'] = cur[p['name']]
            else:
                fitted[f] = None                # results may lack the new names
        elif op in ('save', 'write', 'load'):
            o['file'] = rng.choice(files) if op == 'load' else rng.choice((1, 2))
            if op == 'write':
                o.pop('f')
                o['doc'] = rdoc(rng, names[f])
            if op != 'load':
                files.append(o['file'])
        elif op == 'fit':
            o['ch'] = [rng.choice(pl) for _ in range(nill[f])]
            o['f4'] = int(rng.random() < .2)
            fitted[f] = True
        elif op == 'upinit':
            if fitted[f] is None:
                continue
            o['ill'] = rng.randrange(nill[f])
            o['explicit'] = rng.random() < .5
        ops.append(o)
    f = rng.choice(sorted(nill))
    ops.append(dict(op='fit', f=f, ch=[rng.choice(pl) for _ in range(nill[f])]))
    return dict(ops=ops, default=default(rng))


def multi_of(ops, f):
    m = {}
    for o in ops:
        if o.get('f') == f and o['op'] == 'new':
            m = {p['name']: p['multi'] for p in o['params']}
        if o.get('f') == f and o['op'] == 'update':
            m.update({p['name']: p['multi'] for p in o['list']})
    return m


def hist16(rng, script):
    nill = rng.choice((1, 1, 2, 3))
    d = dict(params=rparams(rng, True), **rsettings(rng))
    ops = [dict(op='new', f=f, nill=nill, **d) for f in (1, 2)]
    nev = rng.choice((1, 3, 12))
    npix = rng.choice((1, 2, 3, 5, 9))
    pl = [charges(rng, nev) for _ in range(max(2, npix))]

    def pix(n):
        return [[rng.choice(pl) for _ in range(nill)] for _ in range(n)]
    ch = pix(npix)
    for _ in range(rng.randint(2, 5)):
        f = rng.choice((1, 1, 2))
        op = weighted(rng, fit=4, pixels=3, update=1)
        if op == 'fit':
            ops.append(dict(op='fit', f=f, ch=rng.choice(ch)))
        elif op == 'pixels':
            if rng.random() < .3:
                ch = pix(npix)
            elif rng.random() < .3:
                ch = rng.sample(ch, len(ch))
            ops.append(dict(op='pixels', f=f, script=False, ch=ch, nproc=weighted(rng, **{'0': 6, '1': 1, '2': 2, '3': 1}) if rng.random() < .7 else '0'))
            ops[-1]['nproc'] = int(ops[-1]['nproc'])
        else:
            cur = multi_of(ops, f)
            ops.append(dict(op='update', f=f, list=[rpar(rng, n, cur[n]) for n in rng.sample(sorted(cur), 1)]))
    ops.append(dict(op='pixels', f=1, script=False, ch=ch, nproc=0))
    if script:
        dd = rdoc(rng, [p['name'] for p in d['params']])
        if rng.random() < .5:
            dd = dict(nb=[], range=[], initial=[], limits=[], fixed=[], style=-1)
        ops.append(dict(op='pixels', f=9, nill=nill, script=True, ch=ch, nproc=rng.choice((0, 0, 1, 2, 3)), doc=dd, **d))
    return dict(ops=ops, default=default(rng))


def generate(prop, tier, seed):
    rng = random.Random(seed * 1091 + int(prop[1:]))
    big = tier != 'quick'
    if prop == 'C15':
        return [hist15(rng) for _ in range(2500 if big else 220)]
    out = [hist16(rng, i % 3 == 0) for i in range(900 if big else 110)]
    for k in range(12 if big else 2):
        out.append(dict(real=['SiPMGentileFitter', 'MAPMFitter'][k % 2] if big or k == 0 else 'SiPMGentileFitter', nill=2, npix=rng.choice((2, 3)), nev=1500,
                        lam=rng.choice(([500, 1500], [1700, 800])), seed=seed * 100 + k, nprocs=rng.choice(([0, 2], [3], [2, 0]))))
    rng.shuffle(out)
    return out


def concretise(hists, seed):
    """settings for the enumerated histories"""
    rng = random.Random(seed)
    out = []
    for h in hists:
        shared = rparams(rng)
        n = rng.choice((1, 2, 3))
        pl = pool(rng, 2)
        ops = [dict(op='new', f=f, nill=n, params=[dict(rpar(rng, p['name'], p['multi'])) for p in shared], **rsettings(rng)) for f in (1, 2)]
        names = [p['name'] for p in shared]
        for o in (h['ops'] if isinstance(h, dict) else h):
            f = o['f']
            if o['op'] == 'update':
                cur = multi_of(ops, f)
                ops.append(dict(op='update', f=f, list=[rpar(rng, x, cur[x]) for x in rng.sample(names, 1 if o['var'] == 1 else len(names))]))
            elif o['op'] in ('save', 'load'):
                ops.append(dict(op=o['op'], f=f, file=1))
            elif o['op'] == 'partial':
                ops.append(dict(op='write', file=2, doc=rdoc(rng, names)))
                ops.append(dict(op='load', f=f, file=2))
            elif o['op'] == 'fit':
                ops.append(dict(op='fit', f=f, ch=[pl[o['var'] - 1]] * n))
            else:
                ops.append(dict(op='upinit', f=f, ill=rng.randrange(n)))
        ops.append(dict(op='fit', f=2, ch=[pl[0]] * n))
        out.append(dict(ops=ops, default=default(rng)))
    return out
