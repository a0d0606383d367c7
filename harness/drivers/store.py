"""HDF5 file driver (C01-C05): replays histories of writer/appender/reader calls."""
import gc, io, os, random, shutil, sys, tempfile, warnings, weakref
from .common import *

TIME_LIMIT = 120

# column types: name -> (dtype string, bytes per value lo/hi)
TYPES = dict(i8=('int64', 8, 8), i4=('int32', 4, 4), i2=('int16', 2, 2), u1=('uint8', 1, 1), f8=('float64', 8, 8),
             f4=('float32', 4, 4), b=('bool', 1, 1), t=('datetime64[ns]', 8, 8), s=('object', 48, 80),
             u2=('uint16', 2, 2))
COLNAMES = ['iev', 'pixel', 'x', 't_cpu', 'charge', 'b2', 'a1', 'zed', 'name', 'Q', 'first_cell', 'mc_true']
KEYS = ['data', 'pointing', 'monitor_x', 'mc']


def value(t, c):
    import numpy as np, pandas as pd
    if t in ('i8',):
        return np.int64(c) * 1000000007 - 5
    if t == 'i4':
        return np.int32(c * 100003)
    if t == 'i2':
        return np.int16(c * 7 - 100)
    if t == 'u1':
        return np.uint8(c)
    if t == 'u2':
        return np.uint16(c * 3)
    if t in ('f8', 'f4'):
        f = np.float64 if t == 'f8' else np.float32
        return f({97: np.inf, 98: np.nan, 99: -np.inf}.get(c, c / 7.0))
    if t == 'b':
        return np.bool_(c % 2)
    if t == 't':
        if c == 98:
            return pd.NaT
        return pd.Timestamp('2019-05-09 16:08:07.123456789') + pd.Timedelta(c * 1000000007 + c, 'ns')
    return 's%06d' % c


_code = {}


def code(t, v):
    """the code of a value read back, BAD when it is not one of the values ever stored"""
    import numpy as np
    if t in ('f8', 'f4'):
        if np.isnan(v):
            return 98
        v = float(v)
    elif t == 't':
        v = v.value if hasattr(v, 'value') else v
    elif t == 'b':
        return int(v) if v in (True, False) else BAD
    elif t != 's':
        v = int(v)
    if t not in _code:
        _code[t] = {}
        for c in range(0, 256 if t == 'u1' else 2000 if t not in ('i2',) else 2000):
            x = value(t, c)
            if t in ('f8', 'f4'):
                x = float(x)
            elif t == 't':
                x = x.value
            elif t != 's':
                x = int(x)
            _code[t].setdefault(x, c)
    try:
        return _code[t].get(v, BAD)
    except TypeError:
        return BAD


class Big(str):
    """a label that claims to be large, so that the buffered data reaches the flush limit"""
    SIZE = 2 ** 29

    def __sizeof__(self):
        return self.SIZE


def frame(cols, rows, idx=None, big=False):
    import pandas as pd, numpy as np
    d = {}
    for j, (n, t) in enumerate(cols):
        vals = [value(t, r[j]) for r in rows]
        if t == 's':
            d[n] = pd.Series(vals, dtype=object)
        elif t == 't':
            d[n] = pd.Series(pd.DatetimeIndex(vals)) if vals else pd.Series(vals, dtype='datetime64[ns]')
        else:
            d[n] = pd.Series(np.array(vals, dtype=TYPES[t][0]))
    df = pd.DataFrame(d, columns=[n for n, _ in cols])
    if idx is not None:
        df.index = pd.Index(np.array(idx, dtype='int64'))
    if big:
        df.index = pd.Index([Big('%d' % i) for i in range(len(df))], dtype=object)
    return df


def rows_of(df, types):
    out = [[] for _ in range(len(df))]
    for n in df.columns:
        t = types.get(n)
        col = df[n]
        if t == 't':
            vals = [x.value for x in col] if str(col.dtype).startswith('datetime64') else [BAD] * len(col)
        else:
            vals = col.values
        for i, v in enumerate(vals):
            out[i].append(code(t, v) if t else BAD)
    return out


def meta_values():
    import numpy as np, pandas as pd
    return [0, 1, -7, 2.5, 'text', '', None, True, False, [1, 2, 3], dict(a=1, b=[2]), np.arange(6).reshape(2, 3),
            np.float64(1.25), np.int64(9), (1, 'x'), pd.Timestamp('2019-05-09 16:08:07'), 'x' * 5000, float('inf'),
            {}, [], b'bytes', 10 ** 12, {1, 2}, 3 + 4j]


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if type(a) is not type(b):
        # numpy scalars may come back as numpy scalars only
        return False
    return a == b


def meta_code(v):
    for i, x in enumerate(meta_values()):
        if same(x, v):
            return i
    return BAD


def mapping(mid):
    import pandas as pd, numpy as np
    n = 4 * mid
    df = pd.DataFrame(dict(pixel=np.arange(n), superpixel=np.arange(n) // 4, xpix=np.arange(n) * 0.5 * mid,
                           ypix=-np.arange(n) * 0.25, name=['p%d' % i for i in range(n)]))
    if mid == 3:
        df.index = df.index[::-1]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df.metadata = dict(cfgfile='/path/%d' % mid, n_pixels=n, size=0.006125 * mid, is_single_module=bool(mid == 1),
                           n_rows=mid, arr=[mid])
    return df


def mapping_code(df):
    for mid in (1, 2, 3):
        m = mapping(mid)
        try:
            if m.equals(df) and list(m.columns) == list(df.columns) and list(m.index) == list(df.index) \
                    and m.metadata == df.metadata:
                return mid
        except Exception:
            pass
    return BAD


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


EXCS = [Boom, KeyboardInterrupt, BoomBase, ValueError, SystemExit, KeyError, StopIteration, GeneratorExit, MemoryError]


def schemas(cfg):
    return {k: list(zip(s['cols'], s['types'])) for k, s in zip(cfg['keys'], cfg['sch'])}


_batches = {}       # the batches given to the current writer, by table


def do_op(w, o, cols, ev):
    """one writer operation; logs it; exceptions recorded"""
    op = o['op']
    if op == 'append':
        df = frame(cols[o['key']], o['rows'], big=o.get('big', False))
        kw = {}
        if o['key'] != 'data' or o.get('explicit'):
            kw['key'] = o['key']
        if o.get('expected'):
            kw['expectedrows'] = o['expected']
        before = df.copy()
        _, err = errname(w.append, df, **kw)
        if not err and not df.equals(before):
            err = 'input changed'
        refs = _batches.setdefault(o['key'], [])
        refs.append(weakref.ref(df))
        del df, before
        if o.get('big'):
            gc.collect()
        ev.append(dict(op='append', key=o['key'], rows=o['rows'], big=bool(o.get('big')), err=err, held=sum(r() is not None for r in refs)))
    elif op == 'write':
        d = {i['key']: frame(cols[i['key']], i['rows'], i['idx']) for i in o['items']}
        _, err = errname(w.write, **d)
        ev.append(dict(op='write', items=o['items'], err=err))
    elif op == 'meta':
        mv = meta_values()
        kw = {n: mv[c] for n, c in o['entries']}
        if o['key'] != 'data' or o.get('explicit'):
            kw['key'] = o['key']
        if o['name'] != 'metadata' or o.get('explicit'):
            kw['name'] = o['name']
        _, err = errname(w.add_metadata, **kw)
        ev.append(dict(op='meta', key=o['key'], name=o['name'], entries=o['entries'], err=err))
    elif op == 'mapping':
        _, err = errname(w.add_mapping, mapping(o['mid']))
        ev.append(dict(op='mapping', mid=o['mid'], err=err))
    else:
        raise AssertionError(op)


def session(path, mode, ops, how, cols, ev, excn=0):
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender
    cls = HDF5Writer if mode == 'w' else HDF5Appender
    _batches.clear()
    w, err = errname(cls, path)
    ev.append(dict(op='open', mode=mode, err=err))
    if err:
        return False
    seen = True
    if how == 'finish':
        for o in ops:
            do_op(w, o, cols, ev)
        w.finish()
    elif how == 'normal':
        with w as ww:
            for o in ops:
                do_op(ww, o, cols, ev)
    elif how == 'refused':
        seen = False
        try:
            with w as ww:
                for o in ops:
                    do_op(ww, o, cols, ev)
                ww.add_metadata(key='data', name='info', e9=3)
        except ValueError:
            seen = True
    else:
        exc = EXCS[excn % len(EXCS)]('stop')
        seen = False
        try:
            with w as ww:
                for o in ops:
                    do_op(ww, o, cols, ev)
                raise exc
        except BaseException as e:
            seen = e is exc
    ev.append(dict(op='close', how=how, seen=bool(seen)))
    return True


def content(path, cfg, ev):
    from CHECLabPy.core.io import HDF5Reader
    cols = schemas(cfg)
    rec = dict(op='content', err='', keys=[], tabs=[], meta=[], names=[], total=-1, mapp=0)
    ev.append(rec)
    r, rec['err'] = errname(HDF5Reader, path)
    if rec['err']:
        return
    with r:
        rec['keys'] = [str(k) for k in r.dataframe_keys]
        for k in r.dataframe_keys:
            types = dict(cols.get(k, []))
            df = r.read(k)
            rec['tabs'].append(dict(key=k, rows=rows_of(df, types), cols=list(df.columns),
                                    dtypes=[str(x) for x in df.dtypes],
                                    idx=[int(i) if isinstance(i, (int,)) or hasattr(i, '__int__') else BAD for i in df.index],
                                    nbytes=int(r.get_n_bytes(k))))
        for k, names in r.metadata_keys.items():
            for n in names:
                rec['names'].append([k, n])
                d = r.get_metadata(k, n)
                for a, v in d.items():
                    if n == 'metadata' and a in ('n_bytes', 'total_bytes', 'version'):
                        continue
                    rec['meta'].append([k, n, a, meta_code(v)])
        try:
            rec['total'] = int(r.get_metadata()['total_bytes'])
        except KeyError:
            rec['total'] = -1
        m, err = errname(r.get_mapping)
        rec['mapp'] = mapping_code(m) if not err else (0 if err == 'KeyError' else BAD)


def query(r, o, cfg, ev):
    cols = schemas(cfg)
    types = dict(cols.get(o['key'], []))
    e = dict(op='query', q=o['q'], key=o['key'], start=o.get('start', -1), stop=o.get('stop', -1),
             cols=o.get('cols', []), size=o.get('size', 0), err='', rows=[], got=[], vals=[], n=-1, chunks=[])
    ev.append(e)
    q_ = o['q']
    sl = {}
    if e['start'] >= 0:
        sl['start'] = e['start']
    if e['stop'] >= 0:
        sl['stop'] = e['stop']
    known = o['key'] in [k for k in r.dataframe_keys]
    if q_ == 'read':
        df, e['err'] = errname(r.read, o['key'])
        if not e['err']:
            e['rows'] = rows_of(df, types)
    elif q_ == 'select':
        kw = dict(sl)
        if o.get('allcols'):
            e['cols'] = [c for c, _ in cols[o['key']]] if known else []
        else:
            kw['columns'] = list(o['cols'])
        df, e['err'] = errname(r.select, o['key'], **kw)
        if not e['err']:
            e['rows'], e['got'] = rows_of(df, types), list(df.columns)
    elif q_ == 'column':
        if o.get('many'):
            v, e['err'] = errname(r.select_columns, o['key'], list(o['cols']), **sl)
        else:
            e['cols'] = list(o['cols'])[:1]
            v, e['err'] = errname(r.select_column, o['key'], o['cols'][0], **sl)
            v = [v]
        if not e['err']:
            import pandas as pd
            for c, x in zip(e['cols'], v):
                x = pd.Series(x)
                t = types[c]
                e['vals'].append([code(t, y.value if t == 't' else y) for y in x])
            if len(v) != len(e['cols']):
                e['vals'] = []
    elif q_ == 'nrows':
        n, e['err'] = errname(r.get_n_rows, o['key'])
        e['n'] = int(n) if n is not None else -1
    elif q_ == 'names':
        n, e['err'] = errname(r.get_column_names, o['key'])
        e['got'] = [str(x) for x in n] if n is not None else []
    elif q_ == 'chunks':
        kw = dict(chunksize=o['size']) if o['size'] else {}
        try:
            for df in r.iterate_over_chunks(o['key'], **kw):
                e['chunks'].append(rows_of(df, types))
                if len(e['chunks']) > 500:
                    e['err'] = 'endless'
                    break
        except Exception as x:
            e['err'] = type(x).__name__


def big(o, ev):
    """a table whose rows claim to be o['mb'] MB in total (n rows)"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    d = tempfile.mkdtemp(prefix='h5_', dir=scratch())

    class B(str):
        def __sizeof__(self):
            return o['mb'] * 1000000 // o['n']
    path = os.path.join(d, 'big.h5')
    e = dict(op='big', mb=o['mb'], n=o['n'], force=o['force'], err='', ids=[], chunkids=[], sizes=[])
    ev.append(e)
    with HDF5Writer(path) as w:
        for i in range(1, o['n'] + 1):
            w.append(pd.DataFrame(dict(i=[i], s=pd.Series([B('x')], dtype=object))), key='data')
    with HDF5Reader(path) as r:
        df, e['err'] = errname(r.read, 'data', **(dict(force=True) if o['force'] else {}))
        if not e['err']:
            e['ids'] = [int(x) for x in df['i']]
        for c in r.iterate_over_chunks('data'):
            e['sizes'].append(len(c))
            e['chunkids'] += [int(x) for x in c['i']]
            if len(e['sizes']) > 200:
                break
    shutil.rmtree(d, ignore_errors=True)


def version(path, o, ev):
    """a copy of the file as another version of the package would have made it"""
    import pandas as pd, warnings
    from CHECLabPy import __version__
    from CHECLabPy.core.io import HDF5Reader, HDF5Appender
    p = path + '.v.h5'
    shutil.copy(path, p)
    n = 0
    with pd.HDFStore(p, mode='r+') as st:
        for k in st.keys():
            at = st.get_storer(k).attrs
            d = getattr(at, 'metadata', None)
            if isinstance(d, dict) and 'version' in d:
                n += 1
                d = {a: b for a, b in d.items() if a != 'version'}
                if o['v']:
                    d['version'] = '.'.join(str(x) for x in o['v']) + o['suffix']
                at.metadata = d
    if n == 0:
        os.remove(p)
        return
    e = dict(op='version', v=o['v'], pkg=[int(x) for x in __version__.split('.')[:2]], err='', warned=[], shown='', want='.'.join(str(x) for x in o['v']) + o['suffix'])
    ev.append(e)
    for c in (HDF5Reader, HDF5Appender):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r, x = errname(c, p)
            e['err'] = e['err'] or x
            e['warned'].append(any(issubclass(y.category, UserWarning) and 'version' in str(y.message) for y in w))
            if c is HDF5Reader and not x:
                e['shown'] = str(r.version)
        if not x:
            r.store.close()
    os.remove(p)


def replay(h, ev):
    cfg = expand_cfg(h)
    cols = schemas(cfg)
    d = tempfile.mkdtemp(prefix='h5_', dir=scratch())
    path = os.path.join(d, 'sub', 'f.h5') if h.get('subdir') else os.path.join(d, 'f.h5')
    try:
        for s in h['ops']:
            k = s['op']
            if k == 'session':
                if not session(path, s['mode'], s['ops'], s['how'], cols, ev, s.get('exc', 0)):
                    break
                content(path, cfg, ev)
            elif k == 'missing':
                from CHECLabPy.core.io import HDF5Reader, HDF5Appender
                p = os.path.join(d, 'none.h5')
                _, err = errname({'r': HDF5Reader, 'a': HDF5Appender}[s['mode']], p)
                ev.append(dict(op='openmissing', mode=s['mode'], err=err, exists=os.path.exists(p)))
            elif k == 'queries':
                from CHECLabPy.core.io import HDF5Reader
                with HDF5Reader(path) as r:
                    for o in s['qs']:
                        query(r, o, cfg, ev)
            elif k == 'metamiss':
                from CHECLabPy.core.io import HDF5Reader
                with HDF5Reader(path) as r:
                    _, err = errname(r.get_metadata, s['key'], s['name'])
                    ev.append(dict(op='metamiss', key=s['key'], name=s['name'], err=err))
            elif k == 'big':
                big(s, ev)
            elif k == 'version':
                version(path, s, ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cfg


# ------------------------------------------------------------ histories
PRESETS = [
    dict(keys=['data', 't1', 't2'], types=[['i8', 'f8', 's'], ['i8', 'b', 't', 'f4'], ['i8', 'u1']]),
    dict(keys=['data', 't1', 't2'], types=[['i8'], ['i8', 'i4', 'i2', 'u2'], ['i8', 's', 't']]),
]


def make_cfg(keys, types, names=None):
    sch = []
    for i, (k, ts) in enumerate(zip(keys, types)):
        ns = names[i] if names else COLNAMES[:len(ts)]
        sch.append(dict(cols=list(ns), types=list(ts), dtypes=[TYPES[t][0] for t in ts],
                        lo=sum(TYPES[t][1] for t in ts), hi=sum(TYPES[t][2] for t in ts)))
    return dict(keys=list(keys), sch=sch)


def expand_cfg(h):
    """TLC-generated histories name abstract operations; give them concrete data."""
    if 'cfg' in h and 'sch' in h['cfg']:
        return h['cfg']
    rng = random.Random(str(h['id']))
    p = PRESETS[rng.randrange(len(PRESETS))]
    cfg = make_cfg(p['keys'], p['types'])
    types = dict(zip(p['keys'], p['types']))
    uid = [0]
    out, cur = [], None
    for o in h['ops']:
        if o['op'] == 'open':
            cur = dict(op='session', mode=o['mode'], ops=[], how='normal', exc=rng.randrange(9))
            out.append(cur)
        elif o['op'] == 'close':
            cur['how'] = o['how']
        elif o['op'] == 'append':
            cur['ops'].append(dict(op='append', key=o['key'], big=o['big'],
                                   rows=gen_rows(rng, types[o['key']], rng.choice([1, 1, 2, 3]), uid)))
        elif o['op'] == 'write':
            r = gen_rows(rng, types[o['key']], rng.choice([1, 2, 3]), uid)
            cur['ops'].append(dict(op='write', items=[dict(key=o['key'], rows=r, idx=list(range(len(r))))]))
        elif o['op'] == 'meta':
            cur['ops'].append(dict(op='meta', key=o['key'], name=o['name'],
                                   entries=[[o['entry'], rng.randrange(len(META_N))]]))
        elif o['op'] == 'mapping':
            cur['ops'].append(dict(op='mapping', mid=rng.choice([1, 2, 3])))
    h['ops'] = out
    return cfg


META_N = range(24)


def gen_rows(rng, types, n, uid):
    rows = []
    for _ in range(n):
        uid[0] += 1
        r = []
        for j, t in enumerate(types):
            if t == 'i8' and j == 0:
                r.append(uid[0])
            elif t == 'b':
                r.append(rng.randrange(2))
            else:
                r.append(rng.randrange(100))
        if set(types) <= {'f8', 'f4', 't'} and rng.random() < .25:
            r = [98] * len(types)               # a row of which every entry is missing
        rows.append(r)
    return rows


NAMES = ['metadata', 'config', 'mcheader', 'settings']
ENTRIES = ['n_events', 'a', 'b', 'x1', 'date', 'camera']


def rand_ops(rng, keys, types, state, uid, n, prop):
    ops = []
    for _ in range(n):
        w = dict(append=6, write=1, meta=2, mapping=0.3)
        if prop == 'C02':
            w = dict(append=3, write=1, meta=7, mapping=1)
        if prop in ('C01', 'C05'):
            w = dict(append=8, write=1.2, meta=1, mapping=0.2)
        op = weighted(rng, **w)
        k = rng.choice(keys)
        if op == 'append':
            ok = [x for x in keys if state[x] != 'fix']
            if not ok:
                op = 'meta'
            else:
                k = rng.choice(ok)
                state[k] = 'app'
                m = rng.choice([1, 1, 2, 3, 5, 8])
                o = dict(op='append', key=k, rows=gen_rows(rng, types[k], m, uid), big=rng.random() < 0.25)
                if rng.random() < 0.2:
                    o['expected'] = rng.choice([1, 100, 100000])
                if rng.random() < 0.3:
                    o['explicit'] = True
                ops.append(o)
                continue
        if op == 'write':
            ks = rng.sample(keys, rng.choice([1, 1, 2]) if len(keys) > 1 else 1)
            items = []
            for x in ks:
                m = rng.choice([1, 2, 4, 7])
                idx = list(range(m))
                if rng.random() < 0.5:
                    a = rng.randrange(50)
                    idx = [a + 3 * i for i in range(m)]
                    rng.shuffle(idx)
                items.append(dict(key=x, rows=gen_rows(rng, types[x], m, uid), idx=idx))
                state[x] = 'fix'
            ops.append(dict(op='write', items=items))
        elif op == 'meta':
            k = rng.choice(keys + ['onlymeta', 'data'])
            name = rng.choice(NAMES)
            if rng.random() < 0.08:
                name = rng.choice(['info', 'mapping'])
            ents = [[e, rng.randrange(24)] for e in rng.sample(ENTRIES, rng.choice([1, 2, 3]))]
            ops.append(dict(op='meta', key=k, name=name, entries=ents, explicit=rng.random() < 0.5))
        elif op == 'mapping':
            ops.append(dict(op='mapping', mid=rng.choice([1, 2, 3])))
    return ops


def generate(prop, tier, seed):
    rng = random.Random(seed * 1000003 + int(prop[1:]))
    N = {'quick': 500, 'thorough': 6000}[tier]
    hs = []
    for i in range(N):
        nk = rng.choice([1, 2, 3, 4])
        keys = rng.sample(KEYS, nk)
        if rng.random() < 0.5 and 'data' not in keys:
            keys[0] = 'data'
        tl, nl = [], []
        for k in keys:
            ts = ['i8'] + [rng.choice(list(TYPES)) for _ in range(rng.choice([0, 1, 2, 4, 7]))]
            if rng.random() < .2:
                ts = [rng.choice(['f8', 'f4', 't']) for _ in range(rng.choice([1, 2, 3]))]
            ns = rng.sample(COLNAMES, len(ts))
            tl.append(ts)
            nl.append(ns)
        cfg = make_cfg(keys, tl, nl)
        types = dict(zip(keys, tl))
        state = {k: 'none' for k in keys}
        uid = [0]
        ops = []
        nsess = dict(C01=1, C02=rng.choice([1, 2, 3]), C03=rng.choice([1, 1, 2, 3]), C04=rng.choice([2, 3, 4, 5]),
                     C05=1)[prop]
        if prop == 'C04' and rng.random() < 0.1:
            ops.append(dict(op='missing', mode=rng.choice('ra')))
        for s in range(nsess):
            how = rng.choice(['normal', 'normal', 'finish'])
            if prop == 'C03':
                how = rng.choice(['exc', 'exc', 'refused'])
            elif prop == 'C04' and rng.random() < 0.3:
                how = rng.choice(['exc', 'refused'])
            n = rng.choice([0, 1, 2, 3, 5, 8, 14]) if not (prop == 'C01' or prop == 'C05') else rng.choice([1, 3, 6, 10, 20])
            ops.append(dict(op='session', mode='w' if s == 0 else 'a', how=how, exc=rng.randrange(9),
                            ops=rand_ops(rng, keys, types, state, uid, n, prop)))
        if prop == 'C05':
            qs = []
            app = [k for k in keys if state[k] == 'app']
            nrow = {k: 0 for k in keys}
            for o in ops[0]['ops']:
                if o['op'] == 'append':
                    nrow[o['key']] += len(o['rows'])
                elif o['op'] == 'write':
                    for it in o['items']:
                        nrow[it['key']] = 0
            for _ in range(12):
                kind = rng.choice(['read', 'select', 'select', 'column', 'column', 'nrows', 'names', 'chunks', 'chunks', 'chunks'])
                if rng.random() < 0.12 or not app:
                    kk = 'absent'
                    o = dict(q=kind, key=kk, cols=['iev'], size=2)
                else:
                    kk = rng.choice(app)
                    n = nrow[kk]
                    ns = nl[keys.index(kk)]
                    o = dict(q=kind, key=kk, cols=rng.sample(ns, rng.randint(1, len(ns))),
                             size=rng.choice([0, 1, 2, 3, max(1, n - 1), max(n, 1), n + 1, rng.randint(1, n + 2)]))
                    if kind == 'select' and rng.random() < 0.4:
                        o['allcols'] = True
                    if kind == 'column' and rng.random() < 0.5:
                        o['many'] = True
                    if rng.random() < 0.7:
                        o['start'] = rng.randint(0, n)
                    if rng.random() < 0.7:
                        o['stop'] = rng.randint(0, n + 2)
                qs.append(o)
            ops.append(dict(op='queries', qs=qs))
            for _ in range(2):
                if rng.random() < 0.3:
                    ops.append(dict(op='metamiss', key=rng.choice(['absent', 'data']), name='absentname'))
            if rng.random() < .3:
                ops.append(dict(op='version', v=rng.choice([[], [0, 9], [1, 0, 0], [2, 99, 1], [3, 0, 0], [3, 1, 0], [3, 1], [3], [3, 0], [3, 2, 5], [3, 99], [3, 10, 10],
                                                            [4, 0, 0], [4, 1, 0], [10, 0, 1], [30, 1], [2], [4], [rng.randint(0, 12), rng.randint(0, 12)]]),
                                suffix=rng.choice(['', '', '.dev3', 'rc1', '.post2']) ))
            if i % 25 == 0:
                n = rng.choice([1, 2, 3, 5, 8, 16, 17, 20])
                mb = rng.choice([100, 300, 490]) * n
                if rng.random() < 0.7:
                    n, mb = rng.choice([(16, 7900), (17, 8100), (20, 9000), (16, 7990), (18, 8500), (32, 15000), (40, 19000)])
                ops.append(dict(op='big', mb=mb, n=n, force=rng.random() < 0.4))
        hs.append(dict(id='%s-r%d' % (prop, i), cfg=cfg, ops=ops, subdir=rng.random() < 0.1))
    return hs
