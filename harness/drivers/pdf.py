"""Probability function driver (C34)."""
import random
from .common import *

TIME_LIMIT = 120


def replay(h, ev):
    import numpy as np
    from CHECLabPy.stats import pdf
    for o in h['ops']:
        e, op = dict(o, err=''), o['op']
        if op == 'choose':
            n = o['n']
            if o['form'] == 'array':
                v, e['err'] = errname(lambda: pdf.binom(np.full(n + 1, n), np.arange(n + 1)))
            else:
                v, e['err'] = errname(lambda: [pdf.binom(n, k) for k in range(n + 1)])
            e['v'] = [q(x, 1) for x in v] if not e['err'] else []
        elif op == 'choose_ratio':
            n, k = o['n'], np.array(o['k'], dtype=np.int64)
            v, e['err'] = errname(lambda: (pdf.binom(n, k), pdf.binom(n, k + 1), pdf.binom(n, 0), pdf.binom(n, n)))
            e.update(r=qs(v[1] / v[0], 10000), first=q(v[2], 10 ** 6), last=q(v[3], 10 ** 6)) if not e['err'] else e.update(r=[], first=0, last=0)
        elif op == 'poisson':
            mu = o['m'] / 16
            k = np.array(o['k'], dtype=np.int64)
            allk = np.arange(0, int(mu + 12 * mu ** .5 + 30))

            def f():
                p, p1, s = pdf.poisson(k, mu), pdf.poisson(k + 1, mu), pdf.poisson(allk, mu).sum()
                lg = pdf.poisson_logpmf(k.astype(np.float32), mu)
                return p, p1, s, lg
            v, e['err'] = errname(f)
            if e['err']:
                e.update(r=[], sum=0, lg=[])
            else:
                p, p1, s, lg = v
                e.update(r=qs(p1 / p, 10000), sum=q(s, 10 ** 6), lg=qs(np.exp(lg - np.log(p)), 10000))
        elif op == 'normal':
            m, sd = o['m'] / 8, o['s'] / 8
            x = (m + np.arange(-28, 29) * sd / 4).astype(np.float32)
            v, e['err'] = errname(lambda: np.asarray(pdf.normal_pdf(x, m, sd)) if o['form'] == 'array' else np.array([pdf.normal_pdf(a, m, sd) for a in x]))
            if e['err']:
                e.update(v=[], q=[])
            else:
                c = v.astype(float)
                e.update(v=qs(v * sd, 10 ** 6), q=qs(c[:-2] * c[2:] / c[1:-1] ** 2, 10000))
        elif op == 'xlogy':
            v, e['err'] = errname(lambda: [pdf.poisson_logpmf(np.float32(k), 0.) for k in (0, 1, 7)])
            e['zero'] = qs(v, 1000) if v is not None else []
            e['t'] = []
            for t in o['t']:
                y = float('nan') if t['ynan'] else t['y'] / 100
                v, err = errname(lambda: pdf.xlogy(np.float32(t['x']), y))
                e['err'] = e['err'] or err
                v = float(v) if not err else 0.
                inf = v in (float('inf'), float('-inf')) or v != v
                e['t'].append(dict(t, v=q(v, 1000), back=q(np.exp(v / t['x']) if t['x'] and not inf else 0, 10000)))
        ev.append(e)
    return dict(n=len(h['ops']))


def history(rng):
    ops = []
    for _ in range(rng.randint(3, 6)):
        op = weighted(rng, choose=1, choose_ratio=2, poisson=4, normal=4, xlogy=1)
        if op == 'choose':
            ops.append(dict(op=op, n=rng.randint(0, 26), form=rng.choice(('array', 'scalar'))))
        elif op == 'choose_ratio':
            n = rng.choice((1, 2, 5, 30, 100, 500, 1000))
            ks = sorted({rng.choice((0, n - 1, rng.randrange(n))) for _ in range(5)})
            # ratios within 1/1000 .. 100 keep their digits
            ops.append(dict(op=op, n=n, k=[k for k in ks if n - k <= 20 * (k + 1) and k + 1 <= 20 * (n - k)] or [n // 2]))
        elif op == 'poisson':
            m = rng.choice((1, 2, 8, 16, 24, 40, 160, 640, 1600, 3200, rng.randint(1, 800)))
            c = m // 16
            ks = {max(0, rng.choice((0, 1, 2, c - 1, c, c + 1, rng.randint(0, 3 * c + 6)))) for _ in range(6)}
            ops.append(dict(op=op, m=m, k=sorted(k for k in ks if abs(k - c) <= 6 * c ** .5 + 5)))
        elif op == 'normal':
            ops.append(dict(op=op, m=rng.choice((0, 8, -8, rng.randint(-400, 800))), s=rng.choice((1, 2, 8, 16, rng.randint(1, 100))),
                            form=rng.choice(('array', 'scalar'))))
        else:
            ts = []
            for _ in range(8):
                ts.append(dict(x=rng.choice((0, 0, 1, 2, 5, 10, -1)), y=rng.choice((0, 1, 50, 100, 100, 250, 1000, rng.randint(1, 5000))), ynan=rng.random() < .15))
            ops.append(dict(op=op, t=ts))
    return dict(ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 3001 + 34)
    out = [history(rng) for _ in range(300 if tier == 'quick' else 8000)]
    out.append(dict(ops=[dict(op='choose', n=n, form=f) for n in range(27) for f in ('array', 'scalar')]))
    out.append(dict(ops=[dict(op='poisson', m=m, k=[max(0, m // 16 - 1), m // 16, m // 16 + 1]) for m in (1, 4, 16, 33, 100, 320, 800, 1599, 3200)]))
    return out
