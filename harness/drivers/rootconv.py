"""ROOT conversion driver (C27): the real script, run as a program, against stand-ins for ROOT and root_numpy."""
import contextlib, hashlib, io, os, random, runpy, shutil, sys, tempfile, warnings
from .common import *

TIME_LIMIT = 90
TYPES = ['u1', 'u2', 'u4', 'i4', 'i8', 'f4', 'f8']


def ns(x):
    x = int(x)
    return [x // 10 ** 9, x % 10 ** 9] if -2 ** 30 < x // 10 ** 9 < 2 ** 30 else [BAD]


def code(v):
    """number -> code"""
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return [0, int(v) * 8]
    if isinstance(v, (int, np.integer)) and abs(int(v)) > 10 ** 7:
        return ns(v)
    return [0, q(v, 8)]


def meta_val(kind, v):
    import pandas as pd
    return {'str': lambda: v, 'none': lambda: None, 'bool': lambda: bool(v), 'int': lambda: v, 'float': lambda: v / 8, 'time': lambda: pd.Timestamp(v[0] * 10 ** 9 + v[1])}[kind]()


def meta_code(key, v):
    import pandas as pd
    if v is None:
        return [key, 'none', '']
    if isinstance(v, str):
        return [key, 'str', v]
    if isinstance(v, pd.Timestamp):
        return [key, 'time', ns(v.value)]
    return [key, 'num', code(v)]


def build(path, f, rng):
    """-> columns of the table and of the mapping as written"""
    import numpy as np, pandas as pd
    from CHECLabPy.core.io import HDF5Writer
    from .reducers import grid_mapping
    n = f['n']
    cols = [['iev', 'u4', [i // 4 for i in range(n)]], ['pixel', 'u4', [i % 4 for i in range(n)]]]
    for i, t in enumerate(f['types']):
        cols.append(['c%d' % i, t, [rng.randint(0, 200) * (1 if t[0] != 'f' else 1) for _ in range(n)]])
    if f['cpu']:
        cols.insert(rng.randint(1, len(cols)), ['t_cpu', 'time', [[rng.randint(0, 2 * 10 ** 9 // 2), rng.randrange(10 ** 9)] for _ in range(n)]])
    d = {}
    for name, t, v in cols:
        d[name] = pd.to_datetime([a * 10 ** 9 + b for a, b in v], unit='ns') if t == 'time' else np.array(v, dtype=t) / (8 if t[0] == 'f' else 1)
        if t != 'time':
            d[name] = d[name].astype(t)
    df = pd.DataFrame(d)
    with HDF5Writer(path) as w:
        k = 0
        while k < n:
            m = min(n - k, rng.randint(1, n))
            w.append(df.iloc[k:k + m].reset_index(drop=True), key='data')
            k += m
        w.add_metadata(**{k: meta_val(t, v) for k, t, v in f['meta']})
        mp = grid_mapping(f['np'], 4)[0]
        w.add_mapping(mp)
    enc = [[name, t, [x if t == 'time' else [0, x * (1 if t[0] == 'f' else 8)] for x in v]] for name, t, v in cols]
    return enc


def table(a):
    out = []
    for name in a.dtype.names:
        t = a.dtype[name]
        out.append([name, t.kind + str(t.itemsize), [code(x) for x in a[name]]])
    return out


def replay(h, ev):
    import numpy as np, pandas as pd
    import ROOT
    warnings.simplefilter('ignore')
    d = tempfile.mkdtemp(dir=scratch())
    rng = random.Random(h['num'])
    cfg = dict(files=[])
    out = io.StringIO()
    argv, cwd = sys.argv, os.getcwd()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            for f in h['files']:
                path = os.path.join(d, f['name'])
                os.makedirs(os.path.dirname(path), exist_ok=True)
                cols = build(path, f, rng)
                with pd.HDFStore(path, 'r') as s:
                    meta = dict(s.get_storer('data').attrs.metadata)
                    mp = s['mapping']
                cfg['files'].append(dict(name=f['name'], base=f['base'], meta=[meta_code(k, v) for k, v in meta.items()], cols=cols,
                                         map=table(mp.to_records(index=False))))
                given = dict((k, meta_code(k, meta_val(t, v))) for k, t, v in f['meta'])
                assert all(meta_code(k, meta[k]) == c for k, c in given.items()), 'file was not written as asked'
            os.chdir(d)
            digest = lambda p: hashlib.md5(open(p, 'rb').read()).hexdigest()
            listing = lambda: {os.path.relpath(os.path.join(b, x), d): None for b, _, fs in os.walk(d) for x in fs}
            for o in h['ops']:
                e = dict(o, err='', written=[], mode='', calls=[], trees=[], strs=[], nums=[], data=[], map=[], leaves=True, same=True)
                name = h['files'][o['f'] - 1]['name'] if o['f'] else 'absent.h5'
                before = listing()
                dig = digest(name) if o['f'] else ''
                del ROOT.FILES[:]
                full = o.get('full', False)
                p = lambda x: os.path.join(d, x) if full else x
                sys.argv = ['convert_hd52root.py', o['flags'][0], p(name)] + ([o['flags'][1], p(o['out'])] if o['out'] else [])
                try:
                    runpy.run_module('CHECLabPy.scripts.convert_hd52root', run_name='__main__')
                except SystemExit:
                    e['err'] = 'exit'
                except Exception as x:
                    e['err'] = 'other' if not o['f'] else type(x).__name__
                if not o['f']:
                    e['written'] = sorted(set(listing()) - set(before)) + [f.path for f in ROOT.FILES]
                elif not e['err']:
                    e['written'] = [os.path.relpath(f.path, d) if os.path.isabs(f.path) else f.path for f in ROOT.FILES]
                    f = ROOT.FILES[-1] if ROOT.FILES else None
                    e['same'] = os.path.exists(name) and digest(name) == dig
                    if f is not None:
                        e.update(mode=f.mode.lower(), calls=f.calls, trees=[t.name for t in f.trees])
                        for t in f.trees:
                            if t.name == 'tMeta':
                                e['strs'] = [[k, str(v)] for k, v in sorted(t.fills[0].items())] if len(t.fills) == 1 else [['fills', str(len(t.fills))]]
                                e['leaves'] = all(l == k + '/C' for k, (_, l) in t.branches.items())
                                for a in t.arrays:
                                    e['nums'] += [[k, code(a[k][0])] if len(a) == 1 else [k, [BAD]] for k in a.dtype.names]
                            elif t.name in ('tData', 'tMapping') and len(t.arrays) == 1:
                                e['data' if t.name == 'tData' else 'map'] = table(t.arrays[0])
                e['nums'] = [[k, c] for k, c in e['nums']]
                ev.append(e)
        return cfg
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(d)


def meta_entry(rng, kind=None):
    key = 'k%s' % ''.join(rng.choice('abcdefg_XY') for _ in range(rng.randint(1, 8)))
    kind = kind or rng.choice(('str', 'none', 'bool', 'int', 'float', 'time'))
    if kind == 'num':
        kind = rng.choice(('bool', 'int', 'float'))
    v = {'str': lambda: ''.join(rng.choice('abc /._-0123') for _ in range(rng.choice((0, 3, 9, 60)))), 'none': lambda: 0, 'bool': lambda: rng.randint(0, 1),
         'int': lambda: rng.choice((0, -5, rng.randint(0, 9999))), 'float': lambda: rng.randint(-900, 900),
         'time': lambda: [rng.randint(1, 10 ** 9), rng.randrange(10 ** 9)]}[kind]()
    return [key, kind, v]


def mkfile(rng, i, kinds=None, cpu=None):
    base = rng.choice(('run%d' % i, 'd%d/run_dl1' % i, 'x.y%d' % i, 'Run1234%d_dl1' % i))
    n = 4 * rng.randint(1, 6)
    meta = {}
    for k in (kinds if kinds is not None else [None] * rng.randint(0, 6)):
        e = meta_entry(rng, k)
        meta[e[0]] = e
    return dict(name=base + rng.choice(('.h5', '.h5', '.hdf5')), base=base, n=n, np=rng.choice((4, 16)), cpu=rng.random() < .7 if cpu is None else cpu,
                types=[rng.choice(TYPES) for _ in range(rng.randint(0, 4))], meta=list(meta.values()))


def convert(rng, f, named, i):
    out = '' if not named else 'out%d%s' % (i, rng.choice(('.root', '.x', '')))
    return dict(op='convert', f=f, out=out, flags=rng.choice((['-i', '-o'], ['--in', '--out'])), full=rng.random() < .3)


def history(rng):
    files = [mkfile(rng, i) for i in range(rng.choice((1, 1, 2)))]
    ops = [convert(rng, rng.choice((0, 1, 1, 1, 1, len(files), len(files))), rng.random() < .4, i) for i in range(rng.randint(1, 4))]
    return dict(num=rng.randrange(10 ** 6), files=files, ops=ops)


def concretise(hists, seed):
    rng = random.Random(seed)
    return [dict(num=rng.randrange(10 ** 6), files=[mkfile(rng, 0, h['kinds'], h['cpu'])], ops=[convert(rng, 1, h['named'], 0)]) for h in hists]


def generate(prop, tier, seed):
    rng = random.Random(seed * 1907 + 27)
    return [history(rng) for _ in range(150 if tier == 'quick' else 2500)]
