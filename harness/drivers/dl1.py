"""DL1 reader driver (C06, C25): files written with HDF5Writer, read in many interleaved ways."""
import contextlib, io, json, random, tempfile, warnings
from .common import *

TIME_LIMIT = 120


def build(path, f):
    import numpy as np, pandas as pd
    from CHECLabPy.core.io import HDF5Writer
    with HDF5Writer(path) as w:
        n = len(f['ev']) * f['np']
        v = np.arange(1, n + 1)
        if n:
            df = pd.DataFrame(dict(iev=np.repeat(np.array(f['ev'], dtype=np.uint32), f['np']), pixel=np.tile(np.arange(f['np'], dtype=np.uint32), len(f['ev'])),
                                   value=v.astype(f['dtype']), half=v * 0.5))
            if f['hasmon']:
                for k in ('camera', 'tm', 'pixel'):
                    df['monitor_%s_index' % k] = np.array(f['idx'][k], dtype='i4')
            cuts = sorted(set([0, n] + [c % (n + 1) for c in f['cuts']]))
            for a, b in zip(cuts, cuts[1:]):
                w.append(df.iloc[a:b].reset_index(drop=True), key='data')
            for a, b in [('mc', 3)] if f['extra'] else []:
                w.append(pd.DataFrame(dict(iev=np.arange(7), value=np.arange(7) + 900)), key='mc')
        w.add_metadata(n_events=len(f['ev']), n_modules=f['nm'], n_pixels=f['np'], n_superpixels_per_module=f['nsp'], n_samples=f['ns'],
                       is_mc=f['is_mc'], camera_version=f['version'])
        w.add_metadata(name='config', alpha=f['ns'], beta=f['version'])
        for nm, key in (('sn', 'sn'), ('sipm_temp', 'sipm'), ('primary_temp', 'primary')):
            w.add_metadata(name=nm, **{'TM%02d' % i: x for i, x in enumerate(f[key])})
        for nm in ('dac', 'hvon'):
            w.add_metadata(name=nm, **{'TM%02d_SP%02d' % (i, j): x for i, r in enumerate(f[nm]) for j, x in enumerate(r)})
        if f['map']:
            from .reducers import grid_mapping
            w.add_mapping(grid_mapping(64, 8)[0])
        if f['hasmon']:
            m = f['mon']
            w.add_metadata(key='monitor_metadata', n_events=m['nev'], n_modules=f['nm'])
            for k in ('camera', 'tm', 'pixel'):
                t = m[k]
                w.append(pd.DataFrame({c: np.array(x, dtype='i8' if c in ('imon', 'idevice') else 'f8') for c, x in zip(t['cols'], t['val'])}),
                         key='monitor_' + k)
    if f['hasmon']:
        s = pd.HDFStore(path, mode='r+')
        a = s.get_storer('monitor_metadata').attrs
        a.metadata = dict(a.metadata, n_bytes=9 * 10 ** 9 if f['mon']['big'] else 12345)
        s.close()


def rows(df):
    out = []
    if df is None:
        return [[BAD, BAD, BAD]]
    cols = list(df.columns)
    if cols[:4] != ['iev', 'pixel', 'value', 'half']:
        return [[BAD, BAD, BAD]]
    for i, p, v, x, ix in zip(df['iev'], df['pixel'], df['value'], df['half'], df.index):
        out.append([int(i), int(p), int(v) if x == v * 0.5 and ix == int(v) - 1 else BAD])
    return out


def vals(s):
    import numpy as np
    return [int(x) if float(x) == int(x) else BAD for x in np.asarray(s).tolist()]


def replay(h, ev):
    import numpy as np
    from CHECLabPy.core.io import DL1Reader
    warnings.simplefilter('ignore')
    d = tempfile.mkdtemp(dir=scratch())
    cfg = dict(files=[])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for i, f in enumerate(h['files']):
            build('%s/f%d.h5' % (d, i + 1), f)
            cfg['files'].append({k: f[k] for k in ('ev', 'np', 'nm', 'nsp', 'sn', 'sipm', 'primary', 'dac', 'hvon', 'hasmon')})
            cfg['files'][-1].update(attrs=[len(f['ev']), f['nm'], f['np'], f['nsp'], f['ns'], f['version'], f['is_mc'], f['version'], f['ns']],
                                    cols=['iev', 'pixel', 'value', 'half'] + (['monitor_%s_index' % k for k in ('camera', 'tm', 'pixel')] if f['hasmon'] else []))
            if f['hasmon']:
                cfg['files'][-1].update(mon=f['mon'], idx=f['idx'])
        rd, its = {}, {}
        for o in h['ops']:
            e = dict(o, err='')
            op = o['op']
            if op == 'open':
                r, e['err'] = errname(DL1Reader, '%s/f%d.h5' % (d, o['file']))
                if not e['err']:
                    rd[o['r']] = r
                    e['attrs'] = [r.n_events, r.n_modules, r.n_pixels, r.n_superpixels_per_module, r.n_samples, r.camera_version, r.is_mc,
                                  r.config['beta'], r.config['alpha']]
                    e['cols'] = list(r.columns) if r.n_events else []
                    e['nrows'] = r.n_rows if r.n_events else 0
            elif op == 'next':
                if o['it'] not in its:
                    continue
                try:
                    e['rows'] = rows(next(its[o['it']]))
                except StopIteration:
                    e['err'] = 'StopIteration'
            elif o['r'] not in rd:
                continue
            else:
                step(o, e, rd[o['r']], its, np)
            ev.append(e)
        for r in rd.values():
            r.store.close()
    import shutil
    shutil.rmtree(d)
    return cfg


def iterator(r, o, np):
    k = o['kind']
    if k == 'events':
        return r.iterate_over_events()
    if k == 'selected':
        return r.iterate_over_selected_events({'list': list, 'array': np.array, 'tuple': tuple}[o['as']](o['list']))
    if k == 'rows':
        return r.iterate_over_rows()
    return r.iterate_over_chunks(o['n']) if o['n'] else r.iterate_over_chunks()


def step(o, e, r, its, np):
    op = o['op']
    conv = {'int': int, 'np': np.int64, 'u4': np.uint32}[o.get('as_int', 'int')]
    if op == 'get':
        x, e['err'] = errname(lambda: r[conv(o['iev'])])
        e['rows'] = rows(x) if not e['err'] else []
    elif op == 'position':
        x, e['err'] = errname(lambda: r.select_event_index(conv(o['j'])))
        e['rows'] = rows(x) if not e['err'] else []
    elif op == 'lookup':
        x, e['err'] = errname(lambda: r.event_lookup)
        e['vals'] = vals(x) if not e['err'] else []
    elif op == 'iter':
        its[o['it']] = iter(iterator(r, o, np))
    elif op == 'all':
        x, e['err'] = errname(lambda: [rows(f) for f in iterator(r, o, np)])
        e['frames'] = x or []
    elif op == 'table':
        x, e['err'] = errname(r.load_entire_table)
        e['rows'] = rows(x) if not e['err'] else []
    elif op == 'range':
        x, e['err'] = errname(r.select, start=o['a'], stop=o['b'])
        e['rows'] = rows(x) if not e['err'] else []
    elif op == 'where':
        x, e['err'] = errname(r.select, where='%s == %d' % (o['col'], o['x']))
        e['rows'] = rows(x) if not e['err'] else []
    elif op == 'columns':
        kw = {} if o['b'] < 0 else dict(start=o['a'], stop=o['b'])
        if o['single']:
            x, e['err'] = errname(lambda: [r.select_column(c, **kw) for c in o['names']])
        else:
            x, e['err'] = errname(r.select_columns, o['names'], **kw)
        e['vals'] = [vals(c) for c in x or []]
    elif op == 'module':
        g = dict(sn=r.get_sn, sipm=r.get_sipm_temp, primary=r.get_primary_temp, dac=r.get_sp_dac, hvon=r.get_sp_hvon)[o['what']]
        x, e['err'] = errname(g, *([o['tm'], o['sp']] if o['what'] in ('dac', 'hvon') else [o['tm']]))
        e['val'] = x if not e['err'] else 0
    else:
        m, e['err'] = errname(lambda: r.monitor)
        if e['err']:
            return
        K = lambda k: 'monitor_' + k if k else None
        if op == 'm_attrs':
            e['attrs'] = [m.n_events, m.n_modules]
            e['cols'] = [list(m.columns_camera), list(m.columns_tm), list(m.columns_pixel)]
        elif op == 'm_print':
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                m.print_columns()
            x = json.loads(b.getvalue())
            e['cols'] = [x.get('monitor_' + k, ['?']) for k in ('camera', 'tm', 'pixel')]
        elif op == 'm_key':
            e['key'], e['err'] = errname(m.get_key_for_column, o['col'])
            e['key'] = e['key'] or ''
        elif op == 'm_column':
            x, e['err'] = errname(lambda: m.select_column(o['col'], *([K(o['key'])] if o['key'] else []), **({} if o['b'] < 0 else dict(start=o['a'], stop=o['b']))))
            e['vals'] = vals(x) if not e['err'] else []
        elif op == 'm_columns':
            x, e['err'] = errname(m.select_columns, o['names'])
            e['vals'] = [vals(c) for c in x or []]
        elif op == 'm_array':
            x, e['err'] = errname(lambda: m.select_column_as_array(o['col'], *([K(o['key'])] if o['key'] else [])))
            e['vals'] = [vals(c) for c in x] if not e['err'] else []
        elif op == 'm_average':
            x, e['err'] = errname(m.get_average, o['col'])
            e['vals'] = qs(x, 1000) if not e['err'] else []
        elif op == 'm_table':
            g = dict(camera=m.load_entire_table_camera, tm=m.load_entire_table_tm, pixel=m.load_entire_table_pixel)[o['key']]
            x, e['err'] = errname(g, o['force']) if o['force'] else errname(g)
            e['cols'] = list(x.columns) if not e['err'] else []
            e['vals'] = [vals(x[c]) for c in x.columns] if not e['err'] else []
        elif op == 'm_matched':
            x, e['err'] = errname(r.get_matched_monitor_column, o['col'])
            e['vals'] = vals(x) if not e['err'] else []


MCOLS = dict(camera=['trigger', 'temp', 'shared'], tm=['temp', 'hum', 'shared', 'tm_only'], pixel=['hv', 'shared', 'hum'])


def rfile(rng, mon, nev=None):
    nm, nsp = rng.choice((1, 2, 3, 12)), rng.choice((1, 2, 16))
    np_ = rng.choice((1, 2, 4, 6))
    n = rng.choice((0, 1, 2, 2, 3, 3, 5, 5, 8)) if nev is None else nev
    if mon:
        n, np_ = rng.choice((1, 2, 4)), rng.choice((2, 4))
    mode = rng.choice(('full', 'gaps', 'shuffled'))
    pool = list(range(n)) if mode == 'full' else rng.sample(range(3 * n + 3), n)
    if mode == 'gaps':
        pool.sort()
    if n and rng.random() < .15:
        pool[-1] = rng.choice((70000, 5000000))
    f = dict(ev=pool, np=np_, nm=nm, nsp=nsp, ns=rng.choice((3, 128)), is_mc=rng.random() < .5, version=rng.choice(('1.1.0', '1.0.1')),
             sn=[rng.randrange(100) for _ in range(nm)], sipm=[rng.randrange(40) for _ in range(nm)], primary=[rng.randrange(40) for _ in range(nm)],
             dac=[[rng.randrange(256) for _ in range(nsp)] for _ in range(nm)], hvon=[[rng.randrange(2) for _ in range(nsp)] for _ in range(nm)],
             cuts=[rng.randrange(1000) for _ in range(rng.choice((0, 0, 1, 3)))], dtype=rng.choice(('f4', 'f8', 'i8')), extra=rng.random() < .4, map=rng.random() < .3,
             hasmon=mon)
    if mon:
        k = rng.choice((1, 2, 3, 5))
        m = dict(nev=k, big=rng.random() < .25)
        nd = dict(camera=1, tm=nm, pixel=np_)
        idx = {}
        for t in ('camera', 'tm', 'pixel'):
            own = [c for c in MCOLS[t] if rng.random() < .75]
            rng.shuffle(own)
            cols = ['imon', 't_cpu', 'idevice'] + own
            r = k * nd[t]
            order = list(range(nd[t]))         # the order in which the devices of one event are stored
            if rng.random() < .3:
                rng.shuffle(order)
            val = [[i // nd[t] for i in range(r)], [1000 + i // nd[t] for i in range(r)], [order[i % nd[t]] for i in range(r)]]
            val += [[rng.randint(-999, 9999) for _ in range(r)] for _ in own]
            m[t] = dict(ndev=nd[t], cols=cols, val=val)
            idx[t] = [rng.randrange(r) for _ in range(n * np_)]
        f.update(mon=m, idx=idx)
    return f


def hist(rng, mon):
    files = [rfile(rng, mon and rng.random() < .9) for _ in range(rng.choice((1, 1, 2)))]
    ops = [dict(op='open', r=1, file=1)]
    readers = {1: 0}
    its = {}
    for _ in range(rng.randint(5, 16)):
        if rng.random() < .12:
            r = len(readers) + 1
            k = rng.randrange(len(files))
            ops.append(dict(op='open', r=r, file=k + 1))
            readers[r] = k
            continue
        r = rng.choice(list(readers))
        f = files[readers[r]]
        n = len(f['ev'])
        if its and rng.random() < .3:
            ops.append(dict(op='next', it=rng.choice(list(its))))
            continue
        if mon and f['hasmon'] is False and rng.random() < .3:
            ops.append(dict(op='m_attrs', r=r))
            continue
        if mon and f['hasmon'] and rng.random() < .8:
            ops.append(mop(rng, r, f))
            continue
        op = weighted(rng, get=6, position=2, lookup=1, iter=4, all=2, table=1, range=1, where=1, columns=2, module=3)
        o = dict(op=op, r=r, as_int=rng.choice(('int', 'np', 'u4')))
        anyev = lambda: rng.choice(f['ev']) if n and rng.random() < .75 else rng.choice((0, 1, n, max(f['ev'] + [0]) + 1, rng.randint(0, 3 * n + 3)))
        if n == 0 and (op in ('position', 'table', 'range', 'where', 'columns')):
            continue
        if op == 'get':
            o['iev'] = anyev()
        elif op == 'position':
            o['j'] = rng.randrange(n)
        elif op in ('iter', 'all'):
            o['kind'] = rng.choice(('events', 'selected', 'rows', 'chunks')) if n else rng.choice(('events', 'selected'))
            if o['kind'] == 'selected':
                l = [anyev() for _ in range(rng.choice((0, 1, 2, 3, 6)))]
                o.update(list=l, **{'as': rng.choice(('list', 'list', 'array', 'tuple'))})
            if o['kind'] == 'chunks':
                o['n'] = rng.choice((0, 1, 2, f['np'], 3, n * f['np'], n * f['np'] + 1, 5))
            if op == 'iter':
                o['it'] = rng.choice((1, 2, 3))
                its[o['it']] = 1
        elif op == 'range':
            o.update(a=rng.randint(0, n * f['np'] + 1), b=rng.randint(0, n * f['np'] + 2))
            if o['b'] < o['a']:
                o['a'], o['b'] = o['b'], o['a']
        elif op == 'where':
            o['col'] = rng.choice(('iev', 'pixel'))
            o['x'] = anyev() if o['col'] == 'iev' else rng.randrange(f['np'] + 1)
        elif op == 'columns':
            a = rng.randint(0, n * f['np'])
            o.update(names=rng.sample(['iev', 'pixel', 'value'], rng.choice((1, 2, 3))), single=rng.random() < .5, a=a,
                     b=rng.choice((-1, -1, rng.randint(a, n * f['np'] + 2))))
        elif op == 'module':
            o.update(what=rng.choice(('sn', 'sipm', 'primary', 'dac', 'hvon')), tm=rng.choice((0, f['nm'] - 1, f['nm'] - 1, f['nm'], f['nm'] + 1, 100)),
                     sp=rng.choice((0, f['nsp'] - 1, f['nsp'] - 1, f['nsp'], f['nsp'] + 5)))
        ops.append(o)
    return dict(files=files, ops=ops)


def mop(rng, r, f):
    m = f['mon']
    have = sorted(set(c for t in ('camera', 'tm', 'pixel') for c in m[t]['cols'][3:]))
    anyc = lambda: rng.choice(have + ['imon', 't_cpu']) if rng.random() < .85 or not have else rng.choice(('absent', 'hv', 'tm_only', 'value'))
    op = weighted(rng, m_attrs=1, m_print=1, m_key=3, m_column=4, m_columns=1, m_array=3, m_average=3, m_table=2, m_matched=4)
    o = dict(op=op, r=r)
    if op in ('m_key', 'm_matched'):
        o['col'] = anyc()
    elif op == 'm_column':
        key = rng.choice(('', '', 'camera', 'tm', 'pixel'))
        a = rng.randint(0, 4)
        o.update(col=anyc(), key=key, a=a, b=rng.choice((-1, -1, -1, a + rng.randint(0, 6))))
        if o['b'] < 0:
            o['a'] = 0
    elif op == 'm_columns':
        o['names'] = [anyc() for _ in range(rng.choice((1, 2, 3)))]
    elif op == 'm_array':
        key = rng.choice(('', '', 'camera', 'tm', 'pixel'))
        o.update(key=key, col=rng.choice(m[key]['cols']) if key else rng.choice(have or ['imon']))
    elif op == 'm_average':
        o['col'] = rng.choice(have + ['imon', 't_cpu'])
    elif op == 'm_table':
        o.update(key=rng.choice(('camera', 'tm', 'pixel')), force=rng.random() < .4)
    return o


def generate(prop, tier, seed):
    rng = random.Random(seed * 977 + int(prop[1:]))
    return [hist(rng, prop == 'C25') for _ in range(350 if tier == 'quick' else 6000)]


def concretise(hists, seed):
    """histories of Gen_DL1: event numbers 1..3 of the model are mapped to numbers of a file"""
    rng = random.Random(seed)
    out = []
    for h in hists:
        f = rfile(rng, False, 3)
        num = {0: max(f['ev']) + 1, **{i + 1: x for i, x in enumerate(f['ev'])}}
        ops = [dict(op='open', r=1, file=1)]
        for o in h:
            o = dict(o, r=1)
            if o['op'] == 'get':
                o['iev'] = num[o['iev']]
            if 'list' in o:
                o.update(list=[num[i] for i in o['list']], **{'as': 'list'})
            ops.append(o)
        out.append(dict(files=[f], ops=ops))
    return out
