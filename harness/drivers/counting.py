"""Photoelectron counting driver (C30): densities and spectrum models, observed peak by peak.  The driver only undoes
the units: a peak is divided by the height of a normal distribution of the stated width, ratios are turned into logarithms."""
import math, random, warnings
from .common import *

TIME_LIMIT = 240
FIT = {}


def fitter(model, n):
    from CHECLabPy.spectrum_fitters.gentile import SiPMGentileFitter
    from CHECLabPy.spectrum_fitters.mapm import MAPMFitter
    if (model, n) not in FIT:
        FIT[model, n] = (SiPMGentileFitter if model == 'gentile' else MAPMFitter)(n)
    return FIT[model, n]


def params(l, model):
    p = dict(eped=l['eped'] / 8, eped_sigma=l['s'] / 8, spe=l['spe'] / 8, spe_sigma=l['t'] / 8, lambda_=l['a'] / 8)
    if model == 'gentile':
        p['opct'] = l['c'] / 16
    return p


def values(f, ills, model):
    """flat parameter values in the fitter's order; shared parameters are the first illumination's"""
    out = []
    for p in f.parameters:
        for i in range(f.n_illuminations if p.multi else 1):
            out.append(float(params(ills[i], model)[p.name]))
    return out


def spectra(o, xs):
    """the spectra of the illuminations at the positions xs (the same for all)"""
    import numpy as np
    from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
    from CHECLabPy.spectrum_fitters.mapm import mapm_spe
    x = np.array(xs, dtype=np.float32)
    if o['via'] == 'function':
        fn = sipm_gentile_spe if o['model'] == 'gentile' else mapm_spe
        return [fn(x, *(params(l, o['model'])[k] for k in (('eped', 'eped_sigma', 'spe', 'spe_sigma') + (('opct',) if o['model'] == 'gentile' else ()) + ('lambda_',))))
                for l in o['ill']]
    f = fitter(o['model'], len(o['ill']))
    return f._get_spectra(f.n_illuminations, x, f.parameters.lookup_typed, *values(f, o['ill'], o['model']))


def ln(x):
    return math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan'))


def replay(h, ev):
    import numpy as np
    from numba import typed
    from CHECLabPy.stats import pdf
    warnings.simplefilter('ignore')
    for o in h['ops']:
        e, op = dict(o, err=''), o['op']
        rng = random.Random(o.get('num', 0))
        if op == 'binom':
            r, e['err'] = errname(pdf.binom, np.array([a for a, _ in o['nk']]), np.array([b for _, b in o['nk']]))
            e['got'] = [] if e['err'] else qs(r, 1)
        elif op == 'poisson':
            ks = np.arange(o['kmax'] + 1)
            order = np.array(rng.sample(range(len(ks)), len(ks)))
            inv = np.argsort(order)
            r, e['err'] = errname(pdf.poisson, ks[order], o['a'] / 8)
            if not e['err']:
                l, e['err'] = errname(pdf.poisson_logpmf, ks[order].astype(np.float32), o['a'] / 8)
            if not e['err']:
                e.update(got=qs(r[inv], 1e6), log=qs(np.exp(l[inv]), 1e6))
        elif op == 'normal':
            x = np.array(o['x']) / 8
            r, e['err'] = errname(pdf.normal_pdf, x.astype(np.float32), o['mean'] / 8, o['s'] / 8)
            if not e['err']:
                e['got'] = [q(-2 * ln(v * math.sqrt(2 * math.pi) * o['s'] / 8), o['s'] ** 2) for v in r]
        elif op == 'xlogy':
            y = np.array([dict(nan=float('nan'), zero=0., pow=2.0 ** m)[k] for k, m in zip(o['kind'], o['m'])])
            r, e['err'] = errname(pdf.xlogy, np.array(o['x'], dtype=np.float32), y)
            if not e['err']:
                e['got'] = qs(r / math.log(2), 1000)
        elif op == 'spectrum':
            if o['via'] == 'fitter':         # one set of positions serves all illuminations: shared parameters are the same
                o = dict(o, ill=[dict(l, **{k: o['ill'][0][k] for k in ('eped', 's', 'spe', 't', 'c', 'h')}) for l in o['ill']])
            l0 = o['ill'][0]
            pos = [(k, d) for k in range(o['kmax'] + 1) for d in (0, -1, 1)]
            rng.shuffle(pos)
            try:
                if o['via'] == 'fitter':
                    S = spectra(o, [(l0['eped'] + k * l0['spe'] + d * l0['h']) / 8 for k, d in pos])
                else:
                    S = [spectra(dict(o, ill=[l]), [(l['eped'] + k * l['spe'] + d * l['h']) / 8 for k, d in pos])[0] for l in o['ill']]
            except Exception as x:
                e['err'] = type(x).__name__
                ev.append(e)
                continue
            e['ill'] = []
            for l, y in zip(o['ill'], S):
                at = dict(zip(pos, (float(v) for v in y)))
                got = []
                for k in range(o['kmax'] + 1):
                    v2 = k * l['t'] ** 2 + l['s'] ** 2
                    w = at[k, 0] * math.sqrt(2 * math.pi * v2 / 64)
                    got.append([q(w, 4096)])
                    if got[-1][0] >= 8:
                        got[-1] += [q(-2 * (ln(at[k, d]) - ln(at[k, 0])), v2) for d in (-1, 1)]
                e['ill'].append(dict(l, got=got))
        elif op == 'moments':
            l = o['ill'][0]
            lo, hi, n = o['lo'] / 8, o['hi'] / 8, 4001
            x = np.linspace(lo, hi, n).astype(np.float32)
            y, e['err'] = errname(spectra, o, x)
            if not e['err']:
                y = np.asarray(y[0], dtype=float)
                dx = (hi - lo) / (n - 1)
                e.update(area=q(y.sum() * dx, 4096), mean=q((y * x).sum() * dx, 8))
        elif op == 'likelihood':
            x = np.arange(o['nb']) * o['width'] / 8 + o['lo'] / 8
            n = len(o['ill'])
            f = fitter(o['model'], n)
            x = x.astype(np.float32)
            truth = [np.asarray(s, dtype=float) for s in f._get_spectra(n, x, f.parameters.lookup_typed, *values(f, o['true'], o['model']))]
            y = [np.round(t / t.sum() * o['total'] * (i + 1)).astype(np.float32) for i, t in enumerate(truth)]

            def lik(ills, ys):
                g = fitter(o['model'], len(ys))
                d = typed.List()
                for v in ys:
                    d.append(v)
                return float(g._get_likelihood(len(ys), x, d, g.parameters.lookup_typed, *values(g, ills, o['model'])))
            try:
                e['got'] = q(lik(o['ill'], y), 100)
                e['single'] = [q(lik([dict(o['ill'][0], a=l['a'])], [v]), 100) for l, v in zip(o['ill'], y)]
                e['other'] = [q(lik(m, y), 100) for m in o['others']] if o['ill'] == o['true'] else []
                e['slack'] = o['slack']
                S = f._get_spectra(n, x, f.parameters.lookup_typed, *values(f, o['ill'], o['model']))
            except Exception as exc:
                e['err'] = type(exc).__name__
                ev.append(e)
                continue
            e['terms'] = []
            for s, v in zip(S, y):
                s = np.asarray(s, dtype=float)
                area = lambda a: float(((a[1:] + a[:-1]) / 2 * np.diff(x.astype(float))).sum())
                mu = s * area(v.astype(float)) / area(s)
                e['terms'].append([q((float(c) * ln(m) if c else 0) - m - math.lgamma(float(c) + 1), 100) for c, m in zip(v, mu)])
            e['terms_ok'] = all(abs(t) < 10 ** 7 for ts in e['terms'] for t in ts)     # (a bin of probability 0 with entries)
        ev.append(e)
    return {}


def peak(rng, a=None, c=None, model='gentile'):
    s, t = rng.randint(3, 9), rng.randint(1, 4)
    return dict(a=a or rng.choice((1, 2, 4, 8, 8, 12, 16, 24, 32, rng.randint(1, 32))), c=0 if model == 'mapm' else rng.randint(0, 11) if c is None else c, s=s, t=t,
                h=rng.randint(2, 6), eped=rng.randint(-80, 80), spe=rng.randint(480, 800))


def spectrum_op(rng, model, via, a=None, c=None):
    n = rng.choice((1, 2)) if via == 'fitter' else 1
    return dict(op='spectrum', model=model, via=via, kmax=rng.choice((6, 12, 20)), num=rng.randrange(10 ** 6), ill=[peak(rng, a, c, model) for _ in range(n)])


def broad(rng, model, a=None):
    return dict(a=a or rng.randint(2, 24), c=0 if model == 'mapm' else rng.randint(0, 8), s=rng.randint(24, 80), t=rng.randint(4, 20), eped=rng.randint(-40, 40), spe=rng.randint(120, 240), h=1)


def history(rng, heavy):
    ops = []
    for _ in range(rng.randint(2, 6)):
        op = weighted(rng, binom=1, poisson=1, normal=1, xlogy=1) if not heavy else weighted(rng, spectrum=4, moments=2, likelihood=2)
        model = rng.choice(('gentile', 'mapm'))
        if op == 'binom':
            ops.append(dict(op=op, nk=[(n, rng.randint(0, n)) for n in (rng.randint(0, 28) for _ in range(rng.randint(1, 12)))]))
        elif op == 'poisson':
            a = rng.choice((1, 4, 8, 24, 80, 240, rng.randint(1, 600)))
            ops.append(dict(op=op, a=a, kmax=int(a / 8 + 12 * math.sqrt(a / 8) + 12), num=rng.randrange(10 ** 6)))
        elif op == 'normal':
            m, s = rng.randint(-400, 400), rng.randint(1, 80)
            ops.append(dict(op=op, mean=m, s=s, x=[m + rng.randint(-15 * s, 15 * s) for _ in range(rng.randint(1, 10))]))
        elif op == 'xlogy':
            n = rng.randint(1, 8)
            ops.append(dict(op=op, x=[rng.choice((0, 0, 1, 2, 50, 900)) for _ in range(n)], m=[rng.randint(-9, 12) for _ in range(n)], kind=[rng.choice(('pow', 'pow', 'pow', 'zero', 'nan')) for _ in range(n)]))
        elif op == 'spectrum':
            ops.append(spectrum_op(rng, model, rng.choice(('function', 'fitter'))))
        elif op == 'moments':
            l = broad(rng, model, rng.choice((None, None, 96, 128, 160)))
            if l['a'] > 90:
                l['c'] = min(l['c'], 4)
            ops.append(dict(op=op, model=model, via='function', ill=[l], a=l['a'], c=l['c'], eped=l['eped'], spe=l['spe'], lo=l['eped'] - 800, hi=l['eped'] + l['spe'] * (45 if l['a'] <= 90 else 70)))
        else:
            n = rng.choice((1, 2))
            base = broad(rng, model, rng.randint(4, 16))
            ills = [dict(base, a=rng.randint(4, 16)) for _ in range(n)]
            same = rng.random() < .6
            other = lambda: [dict(b, a=min(16, max(4, l['a'] + rng.choice((-2, 2, 3))))) if rng.random() < .5 or n > 1 else dict(l, spe=l['spe'] + rng.choice((-24, 24)))
                             for b in [base] for l in ills]
            true = ills if same else other()
            ops.append(dict(op=op, model=model, ill=ills, true=true, others=[o for o in (other() for _ in range(3)) if o != true], slack=200, nb=rng.choice((40, 100)),
                            width=rng.choice((16, 24)), lo=base['eped'] - 160, total=rng.choice((2000, 20000))))
    return dict(ops=ops)


def concretise(hists, seed):
    rng = random.Random(seed)
    hists = list(hists)
    out = []
    for i in range(0, len(hists), 12):
        out.append(dict(ops=[spectrum_op(rng, m, 'function', h['a'], h['c']) for h in hists[i:i + 12] for m in (('gentile', 'mapm') if h['c'] == 0 else ('gentile',))]))
    return out


def generate(prop, tier, seed):
    rng = random.Random(seed * 1907 + 30)
    k = 1 if tier == 'quick' else 12
    return [history(rng, False) for _ in range(60 * k)] + [history(rng, True) for _ in range(24 * k)]
