"""Reducer class registry driver (C11): executes class definitions from source text."""
import inspect, random
from .common import *

_n = [0]
_keep = []


def replay(h, ev):
    import numpy as np
    from CHECLabPy.core import child_subclasses
    from CHECLabPy.core.reducer import WaveformReducer, column
    import CHECLabPy.core.chain as chain_mod
    from abc import ABC, abstractmethod
    ops = h['ops']
    plain = any(o.get('absm') or o.get('impl') for o in ops) or h.get('plain', False)
    _n[0] += 1
    pre = 'Q%dx' % _n[0]          # names never used before in this process
    cp = ('_' if _n[0] % 4 == 1 else '') + pre.lower() + '_'     # any name can be a column's
    if plain:
        class Root(ABC):
            pass
        base = Root
    else:
        base = WaveformReducer
    classes = [base]
    for o in ops:
        if o['op'] != 'define':
            continue
        ns = dict(WaveformReducer=WaveformReducer, column=column, abstractmethod=abstractmethod)
        names = []
        for b in o['bases']:
            ns['B%d' % b] = classes[b]
            names.append('B%d' % b)
        src = ['class %s%s(%s):' % (pre, o['name'], ', '.join(names)), '    "doc"']
        for c in o['cols']:
            src += ['    @column', '    def %s%s(self):' % (cp, c), '        "doc"', '        return self.waveforms.sum(1)']
        if o['absm']:
            src += ['    @abstractmethod', '    def m(self):', '        pass']
        if o['impl']:
            src += ['    def m(self):', '        return 1']
        for k in range(o.get('extra', 0)):
            src += ['    def helper%d(self):' % k, '        return %d' % k, '    const%d = %d' % (k, k)]

        def run():
            exec('\n'.join(src), ns)
            return ns[pre + o['name']]
        cl, err = errname(run)
        classes.append(cl)
        _keep.append(cl)
        offered = [c.__name__[len(pre):] for c in child_subclasses(base) if c.__name__.startswith(pre)]
        columns = [c[len(cp):] if c.startswith(cp) else c for c in cl.columns] if cl is not None and not plain else []
        ev.append(dict(op='define', name=o['name'], bases=o['bases'], cols=o['cols'], absm=o['absm'], impl=o['impl'],
                       err=err, columns=columns, offered=offered))
        if cl is None or plain:
            continue
        # every column the class has, own or inherited, before an event was given
        for c in sorted(set(n for n in dir(cl) if n.startswith(cp))):
            obj = cl(2, 5)
            _, err = errname(lambda: getattr(obj, c))
            ev.append(dict(op='access', cls=len(classes) - 1, col=c[len(cp):], err=err))
        obj = cl(2, 5)
        r, err = errname(lambda: obj.process(np.arange(10.).reshape(2, 5)))
        ev.append(dict(op='process', cls=len(classes) - 1, err=err,
                       keys=[k[len(cp):] if k.startswith(cp) else k for k in (r or {})]))


def generate(prop, tier, seed):
    rng = random.Random(seed * 1019)
    out = []
    for _ in range(300 if tier == 'quick' else 4000):
        plain = rng.random() < .3
        ops, own, chains = [], {}, [set()]
        ok = [True]
        for i in range(rng.randint(1, 8)):
            name = rng.choice('ABCDEF')
            cand = [b for b in range(len(ok)) if ok[b]]
            bases = [rng.choice(cand[-4:] + [0])]
            if not plain and rng.random() < .2:
                b2 = [b for b in cand if b < bases[0] and b > 0]
                if b2:
                    bases.append(rng.choice(b2))
            cols, absm, impl = [], False, False
            if plain:
                absm, impl = rng.choice(((0, 0), (1, 0), (0, 1)))
            else:
                inh = set()
                cols = rng.sample('abcdefgh', rng.choice((0, 1, 2, 3)))
                bad = [c for c in cols if own.get(c, name) != name]
                if bad:      # a refused definition introduces no new column before the refusal
                    cols = [c for c in cols if own.get(c) == name] + bad
            refused = any(own.get(c, name) != name for c in cols)
            for c in cols:
                own.setdefault(c, name)
            if refused:
                chains.append(set())
            else:
                chains.append(set().union(*[chains[b] for b in bases]) | {name})
            ok.append(not refused)
            ops.append(dict(op='define', name=name, bases=bases, cols=cols, absm=bool(absm), impl=bool(impl),
                            extra=rng.choice((0, 0, 1, 2))))
        out.append(dict(ops=ops, plain=plain))
    return out
