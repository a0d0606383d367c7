"""Waveform reader driver (C08): real readers on files of the stand-in TARGET library."""
import os, random, tempfile
from .common import *

TIME_LIMIT = 90


def wf_of(k, npix, ns, r1):
    """samples of event k (1-based), all different between events"""
    return [[(k * 37 + p * 11 + s * 3 + (p * s) % 5 + (0.5 if r1 and (p + s + k) % 3 == 0 else 0)) % 4000 for s in range(ns)] for p in range(npix)]


def doc_of(f):
    ev = [dict(wf=wf_of(i + 1, f['npix'], f['ns'], f['r1']), fci=e['fci'], stale=e['stale'], missing=e['missing'], tack=int(e['tack']),
               cpu_s=e['t'][0], cpu_ns=e['t'][1]) for i, e in enumerate(f['events'])]
    return dict(r1=f['r1'], run_id=f['run'], n_pixels=f['npix'], n_modules=f['nm'], n_sp=f['nsp'], n_samples=f['ns'], version=f['version'],
                sn=f['sn'], sipm=f['sipm'], primary=f['primary'], dac=f['dac'], hvon=f['hvon'], events=ev)


def file_cfg(f):
    ev = [dict(iev=i, fci=e['fci'], stale=e['stale'], missing=e['missing'], tack=str(e['tack']), t=e['t'], mc=0) for i, e in enumerate(f['events'])]
    from target_calib import CameraConfiguration
    c = CameraConfiguration(f['version'])
    return dict(r1=f['r1'], simtel=False, events=ev, nm=f['nm'], nsp=f['nsp'], sn=f['sn'], sipm=f['sipm'], primary=f['primary'], dac=f['dac'],
                hvon=f['hvon'], attrs=[f['run'], f['npix'], f['nm'], f['nsp'], f['ns'], f['version'], 'r1' if f['r1'] else 'r0', f['npix'] // f['nm'],
                                       c.GetNCells(), c.GetReferencePulsePath(), 'cfg-' + f['version'], f['nm'] == 1, False, c.GetMapping(f['nm'] == 1).GetNPixels()])


def write_any(path, kind, f):
    """a file of any kind (not all of them waveform files)"""
    import gzip, struct, target_io
    from astropy.io import fits
    k = kind[:-3] if kind.endswith('.gz') else kind
    tmp = path + '.tmp'
    if k == 'tio':
        target_io.write_tio(tmp, doc_of(f))
    elif k == 'fits':
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(__import__('numpy').zeros(4))]).writeto(tmp)
    elif k == 'fits1':
        # the mark in another header than the primary one
        h = fits.ImageHDU(__import__('numpy').zeros(4))
        h.header['HIERARCH EVENT_HEADER_VERSION'] = 1
        fits.HDUList([fits.PrimaryHDU(), h]).writeto(tmp)
    else:
        b = dict(text=b'not a waveform file ' * 40, fitstext=b'these are not the FITS you are looking for, EVENT_HEADER_VERSION = 1 ' * 9,
                 sim_a=struct.pack('I', 3558836791) + bytes(range(256)), sim_b=struct.pack('I', 931798996) + bytes(300),
                 sim_late=b'abcd' + struct.pack('I', 3558836791) + bytes(40), zeros=bytes(64))[k]
        open(tmp, 'wb').write(b)
    b = open(tmp, 'rb').read()
    os.remove(tmp)
    open(path, 'wb').write(gzip.compress(b, 1) if kind != k else b)


KINDS = ['tio', 'fits', 'fits1', 'text', 'fitstext', 'sim_a', 'sim_b', 'sim_late', 'zeros']


def details(w):
    try:
        v = w.t_cpu.value
        t = [v // 10 ** 9, v % 10 ** 9]
    except Exception as e:
        t = [type(e).__name__]
    g = lambda n: getattr(w, n, 'absent')
    mc = g('mc_true')
    return dict(iev=g('iev'), fci=g('first_cell_id'), stale=g('stale'), missing=g('missing_packets'), tack=str(g('t_tack')), t=t, r1=g('is_r1'),
                mc=0 if mc is None else BAD)


def code(w, f):
    import numpy as np
    w = np.asarray(w)
    dt = np.float32 if f['r1'] else np.uint16
    for k in range(len(f['events'])):
        if w.shape == (f['npix'], f['ns']) and w.dtype == dt and np.array_equal(w, np.array(wf_of(k + 1, f['npix'], f['ns'], f['r1']), dtype=dt)):
            return k + 1
    return BAD


def obs(w, f):
    return dict(details(w), code=code(w, f))


def derived(w, rng):
    """views, slices and results of arithmetic"""
    import numpy as np
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(20)
        x = w
        if k == 0: x = w[:]
        elif k == 1: x = w[rng.randrange(w.shape[0])] if w.ndim > 1 else w[:2]
        elif k == 2: x = w[..., 1:3]
        elif k == 3: x = w.T
        elif k == 4: x = w + 1
        elif k == 5: x = 2.5 * w
        elif k == 6: x = w - np.ones(w.shape[-1])
        elif k == 7: x = np.ones(w.shape) - w
        elif k == 8: x = w.copy()
        elif k == 9: x = w.astype(np.float64)
        elif k == 10: x = w.reshape(-1)
        elif k == 11: x = w.view()
        elif k == 12: x = w[np.arange(w.shape[0]) % 2 == 0]
        elif k == 13: x = w[[0, 0]]
        elif k == 14: x = np.sqrt(w)
        elif k == 15: x = w / 3
        elif k == 16: x = -w.astype(np.float32)
        elif k == 17: x = w.mean(axis=0) if w.ndim > 1 else w
        elif k == 18: x = np.where(True, w, w)[...] if False else np.add(w, w)
        elif k == 19: x = w[:, None] if w.ndim > 1 else w[None]
        out.append(x)
        if np.ndim(x) >= 1 and min(np.shape(x)) > 0:
            w = x
    return out


def replay(h, ev):
    import numpy as np
    from CHECLabPy.core.io import TIOReader, ReaderR0, ReaderR1, WaveformReader
    d = tempfile.mkdtemp(dir=scratch())
    files = h['files']
    paths = []
    for i, f in enumerate(files):
        paths.append(os.path.join(d, 'f%d_%s.tio' % (i, 'r1' if f['r1'] else 'r0')))
        import target_io
        target_io.write_tio(paths[-1], doc_of(f))
    rd, its, held = {}, {}, []
    cfg = dict(files=[file_cfg(f) for f in files])
    for o in h['ops']:
        e = dict(o, err='')
        op = o['op']
        if op == 'pick':
            from CHECLabPy.core.io.simtel import SimtelReader
            f = files[o['file'] - 1]
            p = os.path.join(d, 'pick%d' % len(ev) + o['name'])
            write_any(p, o['kind'], f)
            before = open(p, 'rb').read()
            for n, c in (('tio', TIOReader), ('r0', ReaderR0), ('r1', ReaderR1), ('sim', SimtelReader)):
                v, x = errname(c.is_compatible, p)
                e[n], e['err'] = norm(v), e['err'] or x
            e['got'] = 'skipped'
            if not o['kind'].startswith(('sim_a', 'sim_b')):
                r, x = errname(WaveformReader.from_path, p)
                e['err'] = e['err'] or x
                e['got'] = 'none' if r is None else 'tio' if isinstance(r, TIOReader) and r.n_events == len(f['events']) else 'other'
            e['kept'] = open(p, 'rb').read() == before
            ev.append(e)
            continue
        if op == 'open':
            f = files[o['file'] - 1]
            p = paths[o['file'] - 1] if not o['absent'] else os.path.join(d, 'absent_r0.tio')
            cls = dict(R0=ReaderR0, R1=ReaderR1, TIO=TIOReader, factory=WaveformReader.from_path)[o['kind']]
            a = ([o['max']] if o['max'] or o.get('zero') else []) if o.get('style') else ([o['max'] or None])
            kw = {n: o[n] for n in ('skip_events', 'skip_end_events') if n in o} if o['kind'] != 'factory' else {}
            e['skip_want'] = [kw.get('skip_events', 2), kw.get('skip_end_events', 1)]
            target_io.OPENED.clear()
            r, e['err'] = errname(cls, p, *a, **kw)
            e['skip'] = [[norm(x) for x in c[1:]] for c in target_io.OPENED]
            if e['err'] == '' and r is None:
                e['err'] = 'none'
            if not e['err']:
                e.update(n=r.n_events, len=len(r), attrs=[r.run_id, r.n_pixels, r.n_modules, r.n_superpixels_per_module, r.n_samples,
                                                          r.camera_version, 'r1' if r.is_r1 else 'r0',
                                                          r.n_tmpix, r.n_cells, r.reference_pulse_path, r.tc_mapping.GetCfgPath(),
                                                          r.tc_mapping.IsSingleModule(), r.is_mc, len(r.mapping)])
                rd[o['r']] = (r, f)
            ev.append(e)
            if e['err'] and not o['absent'] and (o['kind'] in ('TIO', 'factory') or (o['kind'] == 'R1') == f['r1']):
                break
            continue
        if op in ('next', 'iter', 'derive', 'held'):
            pass
        elif o['r'] not in rd:
            continue
        if op not in ('next', 'derive', 'held'):
            r, f = rd[o['r']]
        if op == 'iter':
            its[o['it']] = (iter(r), f)
        elif op == 'next':
            if o['it'] not in its:
                continue
            it, f = its[o['it']]
            try:
                w = next(it)
                e['obs'] = obs(w, f)
                held.append((w, f))
            except StopIteration:
                e['err'] = 'StopIteration'
        elif op == 'all':
            ws, e['err'] = errname(lambda: list(r))
            e['obs'] = [obs(w, f) for w in ws or []]
        elif op == 'index':
            w, e['err'] = errname(lambda: r[o['i']])
            if not e['err']:
                e['obs'] = obs(w, f)
                held.append((w, f))
        elif op in ('slice', 'list'):
            key = slice(*[x[0] if x else None for x in (o['a'], o['b'], o['c'])]) if op == 'slice' else o['l']
            w, e['err'] = errname(lambda: r[key])
            e['codes'] = [code(x, f) for x in w] if not e['err'] else []
        elif op == 'badtype':
            key = dict(str='1', float=1.0, none=None, tuple=(0, 1), arr=np.array([0]), dict={})[o['t']]
            _, e['err'] = errname(lambda: r[key])
        elif op == 'module':
            g = dict(sn=r.get_sn, sipm=r.get_sipm_temp, primary=r.get_primary_temp, dac=r.get_sp_dac, hvon=r.get_sp_hvon)[o['what']]
            v, e['err'] = errname(g, *([o['tm'], o['sp']] if o['what'] in ('dac', 'hvon') else [o['tm']]))
            e['val'] = v if v is not None else BAD
        elif op == 'derive':
            if not held:
                continue
            e['h'] = o['h'] % len(held) + 1
            rng = random.Random(o['seed'])
            xs, err = errname(derived, held[e['h'] - 1][0], rng)
            e['obs'] = [dict(details(x), err=err) for x in xs or []]
            if err:
                e['obs'] = [dict(iev=BAD, fci=0, stale=False, missing=False, tack='', t=[], r1=False, mc=0, err=err)]
        elif op == 'held':
            e['obs'] = [obs(w, g) for w, g in held]
        ev.append(e)
        if op == 'index' and e['err'] and -len(f['events']) <= o['i'] < len(f['events']) and o['i'] >= 0 and False:
            break
    import shutil
    shutil.rmtree(d)
    return cfg


def rfile(rng, n=None):
    r1 = rng.random() < .5
    nm, nsp = rng.choice((1, 2, 3)), rng.choice((1, 2, 16))
    n = rng.choice((0, 1, 2, 3, 5, 9)) if n is None else n
    s0 = rng.choice((0, 1557410887, 1570000000, 2000000000))
    ev = []
    for i in range(n):
        ev.append(dict(fci=rng.choice((0, 1, 4095, 16383, rng.randrange(16384))), stale=rng.random() < .3, missing=rng.random() < .3,
                       tack=str(rng.choice((0, rng.randrange(1 << 30), rng.randrange(1 << 62), rng.randrange(1 << 64)))),
                       t=[s0 + i * rng.randint(0, 3), rng.choice((0, 1, 999999999, 123456789, rng.randrange(10 ** 9)))]))
    return dict(r1=r1, run=rng.randrange(10000), npix=rng.choice((nm, 2 * nm, 4 * nm)), nm=nm, nsp=nsp, ns=rng.choice((3, 4, 8)),
                version=rng.choice(('1.1.0', '1.0.1', 'stub:1x1')), events=ev,
                sn=[rng.randrange(100) for _ in range(nm)], sipm=[rng.randrange(40) for _ in range(nm)], primary=[rng.randrange(40) for _ in range(nm)],
                dac=[[rng.randrange(256) for _ in range(nsp)] for _ in range(nm)], hvon=[[rng.randrange(2) for _ in range(nsp)] for _ in range(nm)])


def history(rng):
    files = [rfile(rng) for _ in range(rng.choice((1, 1, 2)))]
    ops, nr = [], 0
    its = {}

    def opn(good):
        nonlocal nr
        nr += 1
        k = rng.randrange(len(files)) + 1
        kinds = ['TIO', 'factory', 'R1' if files[k - 1]['r1'] else 'R0']
        ops.append(dict(op='open', r=nr, file=k, kind=rng.choice(kinds if good else ['R0', 'R1']), absent=not good and rng.random() < .4,
                        max=rng.choice((0, 0, 0, 1, 2, 3, 5, 100)), style=rng.random() < .5, zero=rng.random() < .3))
        for n in ('skip_events', 'skip_end_events'):
            if rng.random() < .25:
                ops[-1][n] = rng.choice((0, 0, 1, 2, 5))
        if not good and ops[-1]['absent']:
            ops[-1]['kind'] = rng.choice(('R0', 'R1', 'TIO'))
    opn(True)
    good = [1]
    for _ in range(rng.randint(3, 14)):
        op = weighted(rng, open=2, iter=2, next=6 if its else 0, all=1, index=6, slice=3, list=2, badtype=1, module=3, derive=4, pick=.6)
        r = rng.choice(good)
        o = dict(op=op, r=r)
        nmax = 10
        if op == 'open':
            g = rng.random() < .5
            opn(g)
            if g:
                good.append(nr)
            continue
        f = files[next(x['file'] for x in ops if x['op'] == 'open' and x['r'] == r) - 1]
        n = len(f['events'])
        ri = lambda: rng.choice((0, -1, n - 1, n, -n, -n - 1, n // 2, rng.randint(-nmax, nmax), rng.randint(0, max(0, n - 1))))
        if op == 'pick':
            o = dict(op='pick', file=rng.randrange(len(files)) + 1, kind=rng.choice(KINDS) + rng.choice(('', '.gz')),
                     name=rng.choice(('', '.tio', '_r0.tio', '_r1.tio', '.fits', '.gz', '.simtel.gz', '.fits.gz')))
        elif op == 'iter':
            o['it'] = rng.choice((1, 2, 3))
            its[o['it']] = r
        elif op == 'next':
            o = dict(op='next', it=rng.choice(sorted(its)))
        elif op == 'index':
            o['i'] = ri()
        elif op == 'slice':
            opt = lambda: [] if rng.random() < .35 else [ri()]
            o.update(a=opt(), b=opt(), c=rng.choice(([], [], [1], [2], [-1], [-2], [3], [-3])))
        elif op == 'list':
            o['l'] = [rng.randint(0, max(0, n - 1)) if rng.random() < .9 else ri() for _ in range(rng.choice((0, 1, 2, 4)))]
        elif op == 'badtype':
            o['t'] = rng.choice(('str', 'float', 'none', 'tuple', 'arr', 'dict'))
        elif op == 'module':
            o.update(what=rng.choice(('sn', 'sipm', 'primary', 'dac', 'hvon')), tm=rng.choice((0, f['nm'] - 1, f['nm'], f['nm'] + 1, 100)),
                     sp=rng.choice((0, f['nsp'] - 1, f['nsp'] - 1, f['nsp'], f['nsp'] + 5)))
        elif op == 'derive':
            o = dict(op='derive', h=rng.randrange(1000), seed=rng.randrange(1 << 30))
        ops.append(o)
    ops.append(dict(op='held'))
    return dict(files=files, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1109)
    return [long_file(rng) for _ in range(2 if tier == 'quick' else 10)] + [history(rng) for _ in range(400 if tier == 'quick' else 6000)]


def long_file(rng):
    """a file of more events than fit any small counter"""
    n = rng.choice((300, 520))
    op = lambda op, **k: dict(op=op, r=1, **k)
    return dict(files=[rfile(rng, n)], ops=[
        dict(op='open', r=1, file=1, kind='TIO', absent=False, max=0, style=False, zero=False),
        op('slice', a=[], b=[], c=[]), op('index', i=n - 1), op('index', i=256), op('index', i=-n), op('index', i=n),
        op('slice', a=[], b=[], c=[-1]), op('list', l=[0, n - 1, 255, 256, 257]), op('all'), dict(op='held')])


def concretise(hists, seed):
    rng = random.Random(seed)
    out = []
    for h in hists:
        ops = []
        f = rfile(rng, 3)
        for o in h:
            o = dict(o, r=1)
            if o['op'] == 'open':
                o.update(file=1, kind=rng.choice(('TIO', 'factory', 'R1' if f['r1'] else 'R0')), absent=False, style=0)
            ops.append(o)
        ops.append(dict(op='held'))
        out.append(dict(files=[f], ops=ops))
    return out


def small_doc(n):
    """a small R1 file of n events"""
    f = dict(npix=4, ns=8, r1=True, run=1, nm=1, nsp=1, version='stub:1x1', sn=[1], sipm=[20], primary=[30], dac=[[1]], hvon=[[1]],
             events=[dict(fci=0, stale=False, missing=False, tack=i, t=[1, 1]) for i in range(n)])
    return doc_of(f)
