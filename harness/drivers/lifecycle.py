"""Lifecycle driver (C31): the steps of users' reducers, and what factories make."""
import os, random, tempfile
from .common import *

KEEP = []
_n = [0]
STEPS = ('prepare', 'column', 'post')


class Planned(Exception):
    pass


EXC = dict(Planned=Planned, ValueError=ValueError, KeyError=KeyError, RuntimeError=RuntimeError, AttributeError=AttributeError,
           ZeroDivisionError=ZeroDivisionError, IndexError=IndexError, TypeError=TypeError, NotImplementedError=NotImplementedError)


def build(cfg, log, plan):
    """reducer classes which report every step they make, and fail where planned"""
    import numpy as np
    from CHECLabPy.core.reducer import WaveformReducer, column
    _n[0] += 1
    pre = 'L%dx' % _n[0]
    classes = [WaveformReducer]

    def step(self, kind, what):
        i = type(self).vf
        log.append([i, kind, what])
        if plan and plan[0] == [i, kind, what]:
            raise EXC[plan[1]]('planned')

    def make(i, c):
        ns = dict(vf=i, __doc__='doc')

        def init(self, n_pixels, n_samples, **kw):
            parent.__init__(self, n_pixels, n_samples, **kw)
            if not hasattr(self, 'calls'):
                self.calls, self.tag, self.closed = {}, -1, 0
        ns['__init__'] = init
        if c['prep']:
            def prepare(self, waveforms):
                parent._prepare(self, waveforms)
                step(self, 'prepare', str(i))
                self.tag = int(waveforms[0, 0])
            ns['_prepare'] = prepare
        if c['post']:
            first = not any(cfg['classes'][b - 1]['post'] for b in ancestors(cfg, i))

            def post(self):
                parent._post(self)
                if first:
                    self.closed += 1
                step(self, 'post', str(i))
            ns['_post'] = post
        for name in c['cols']:
            def func(self, name=name):
                self.calls[name] = self.calls.get(name, 0) + 1
                step(self, 'column', name)
                return np.array([int(round(float(self.waveforms.sum()))), self.calls[name], self.tag, self.closed])
            func.__name__ = pre + name
            func.__qualname__ = '%s%d.%s%s' % (pre, i, pre, name)
            ns[pre + name] = column(func)
        parent = classes[c['base']]
        return type(parent)('%s%d' % (pre, i), (parent,), ns)
    for i, c in enumerate(cfg['classes'], 1):
        classes.append(make(i, c))
    KEEP.extend(classes)
    return pre, classes


def ancestors(cfg, i):
    out, b = [], cfg['classes'][i - 1]['base']
    while b:
        out.append(b)
        b = cfg['classes'][b - 1]['base']
    return out


def replay(h, ev):
    cfg = h['cfg']
    if cfg.get('factory'):
        return replay_factory(h, ev)
    import numpy as np
    log, plan = [], []
    pre, classes = build(cfg, log, plan)
    active = {pre + c: True for c in cfg['active']}
    every = [pre + c for k in cfg['classes'] for c in k['cols']]
    npix, ns = cfg.get('npix', 3), cfg.get('ns', 8)
    if cfg.get('mode') == 'alone':
        rs = []
        for i in range(1, len(classes)):
            if any(c in cfg['active'] for c in cfg['classes'][i - 1]['cols']):
                rs.append(classes[i](npix, ns, **{c: c in active for c in every}))

        def process(w):
            out = {}
            for r in rs:
                out.update(r.process(w))
            return out
    else:
        from CHECLabPy.core.chain import WaveformReducerChain
        fd, path = tempfile.mkstemp(suffix='.yml', dir=scratch())
        with os.fdopen(fd, 'w') as f:
            f.write(''.join('%s: true\n' % c for c in sorted(active)) if cfg.get('mode') == 'file' else '{}\n')
        process = WaveformReducerChain(npix, ns, config_path=path, **({} if cfg.get('mode') == 'file' else active)).process
        os.unlink(path)
    buf = np.zeros((npix, ns))
    for k, o in enumerate(h['ops']):
        del log[:]
        exc = o.get('exc', 'Planned')
        plan[:] = [o['fail'], exc] if o['fail'] else []
        tag = o.get('tag', (k * 7 + 3) % 101)
        w = buf if cfg.get('reuse') else np.zeros((npix, ns))      # a reader may fill the same array again
        w[:] = float(k + 1)
        w[0, 0] = tag
        r, err = errname(process, w)
        vals = [] if r is None else sorted([c[len(pre):] if c.startswith(pre) else c, [int(x) for x in v]] for c, v in r.items())
        ev.append(dict(op='event', fail=o['fail'], exc=exc, tag=tag, sum=int(w.sum()), err=err, log=[list(x) for x in log], vals=vals))
    return dict(classes=cfg['classes'], active=cfg['active'], names=[])


def replay_factory(h, ev):
    cfg = h['cfg']
    from CHECLabPy.core import child_subclasses
    from CHECLabPy.core.factory import Factory, SpectrumFitterFactory
    made = []
    if cfg['factory'] == 'package':
        fac, names = SpectrumFitterFactory, list(SpectrumFitterFactory.subclass_names)
        expected = sorted(['SiPMGentileFitter', 'MAPMFitter'])
        ev_names = expected if sorted(names) == expected else ['other: ' + ' '.join(names)]
    else:
        def init(self, *a, **k):
            self.a, self.k = list(a), sorted(k.items())

        class Base:
            __init__ = init
        cl = [Base]
        for name, b in cfg['tree']:
            cl.append(type(name, (cl[b],), {}))
        KEEP.extend(cl)

        class VfFactory(Factory):
            subclasses = child_subclasses(Base)
            subclass_names = [c.__name__ for c in subclasses]
        fac = VfFactory
        ev_names = sorted(set(n for n, _ in cfg['tree']))
    for o in h['ops']:
        args, kw = o['args'], dict((k, v) for k, v in o['kw'])
        r, err = errname(fac.produce, o['name'], *args, **kw)
        if r is not None:
            made.append(r)
        e = dict(op='produce', name=o['name'], args=args, kw=o['kw'], err=err, got=type(r).__name__, distinct=len(set(map(id, made))), gotargs=[], gotkw=[])
        if r is not None:
            if cfg['factory'] == 'package':
                e['gotargs'], e['gotkw'] = ([r.n_illuminations], []) if args else ([], [['n_illuminations', r.n_illuminations]])
            else:
                e['gotargs'], e['gotkw'] = r.a, [list(x) for x in r.k]
        ev.append(e)
    return dict(classes=[], active=[], names=ev_names)


def tree(rng):
    n = rng.randint(1, 5)
    cols = list('abcdefghij')
    rng.shuffle(cols)
    out = []
    for i in range(n):
        k = rng.choice((0, 1, 1, 2, 3))
        own, cols = cols[:k], cols[k:]
        out.append(dict(base=rng.choice((0, 0, rng.randint(0, i))), cols=own, prep=rng.random() < .6, post=rng.random() < .6))
    return out


def ext(cl, i, what):
    return ext(cl, cl[i - 1]['base'], what) + ([i] if cl[i - 1][what] else []) if i else []


def generate(prop, tier, seed):
    rng = random.Random(seed * 7919 + 31)
    out = []
    for _ in range(150 if tier == 'quick' else 2500):
        cl = tree(rng)
        every = [c for k in cl for c in k['cols']]
        active = [c for c in every if rng.random() < .75]
        places = []
        for i, k in enumerate(cl, 1):
            on = [c for c in k['cols'] if c in active]
            if on:
                places += [[i, 'column', c] for c in on] + [[i, 'prepare', str(x)] for x in ext(cl, i, 'prep')] + [[i, 'post', str(x)] for x in ext(cl, i, 'post')]
        out.append(dict(cfg=dict(classes=cl, active=active, mode=rng.choice(('chain', 'file', 'alone')), npix=rng.randint(1, 4), ns=rng.randint(1, 12), reuse=rng.random() < .5),
                        ops=[dict(op='event', fail=rng.choice(places) if places and rng.random() < .25 else [], exc=rng.choice(sorted(EXC)), tag=rng.randint(0, 200))
                             for _ in range(rng.randint(1, 8))]))
    for _ in range(60 if tier == 'quick' else 800):
        names = rng.sample(['Alpha', 'Beta', 'Gamma', 'alpha', 'AlphaBeta', 'Alph', 'B', 'Delta1'], rng.randint(1, 6))
        tr = [[n, rng.randint(0, i)] for i, n in enumerate(names)]
        ops = []
        for _ in range(rng.randint(1, 8)):
            n = rng.choice(names + ['Zeta', '', 'Base', names[0].lower(), names[0] + 'x', names[0][:-1], names[0].upper(), ' ' + names[0]])
            ops.append(dict(op='produce', name=n, args=[rng.randint(0, 9) for _ in range(rng.randint(0, 3))],
                            kw=[[k, rng.randint(0, 9)] for k in sorted(rng.sample(['x', 'y', 'alpha', 'n'], rng.randint(0, 2)))]))
        out.append(dict(cfg=dict(factory='user', tree=tr), ops=ops))
    for _ in range(6 if tier == 'quick' else 40):
        ops = []
        for _ in range(rng.randint(2, 6)):
            n, k = rng.choice(['SiPMGentileFitter', 'MAPMFitter', 'SiPMGentileFitter', 'MAPMFitter', 'mapmfitter', 'SpectrumFitter', 'SiPMGentile', '']), rng.randint(1, 4)
            ops.append(dict(op='produce', name=n, args=[k] if rng.random() < .5 else [], kw=[]))
            if not ops[-1]['args']:
                ops[-1]['kw'] = [['n_illuminations', k]]
        out.append(dict(cfg=dict(factory='package'), ops=ops))
    return out
