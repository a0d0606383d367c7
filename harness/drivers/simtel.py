"""Simulated event driver (C26): the real reader on files of the stand-in for ctapipe."""
import gzip, json, os, random, struct, tempfile
from .common import *

TIME_LIMIT = 120
NP = 2048
HEADER = ['corsika_version', 'simtel_version', 'energy_range_min', 'energy_range_max', 'prod_site_B_total', 'prod_site_B_declination',
          'prod_site_B_inclination', 'prod_site_alt', 'spectral_index', 'shower_prog_start', 'shower_prog_id', 'detector_prog_start',
          'detector_prog_id', 'num_showers', 'shower_reuse', 'max_alt', 'min_alt', 'max_az', 'min_az', 'diffuse', 'max_viewcone_radius',
          'min_viewcone_radius', 'max_scatter_range', 'min_scatter_range', 'core_pos_mode', 'injection_height', 'atmosphere',
          'corsika_iact_options', 'corsika_low_E_model', 'corsika_high_E_model', 'corsika_bunchsize', 'corsika_wlen_min', 'corsika_wlen_max',
          'corsika_low_E_detail', 'corsika_high_E_detail']
PLAIN = {'corsika_version', 'simtel_version', 'spectral_index', 'shower_prog_start', 'shower_prog_id', 'detector_prog_start', 'detector_prog_id',
         'num_showers', 'shower_reuse', 'diffuse', 'core_pos_mode', 'atmosphere', 'corsika_iact_options', 'corsika_low_E_model',
         'corsika_high_E_model', 'corsika_bunchsize', 'corsika_low_E_detail', 'corsika_high_E_detail'}
MC = ['energy', 'alt', 'az', 'core_x', 'core_y', 'h_first_int', 'x_max', 'shower_primary_id']
PT = ['azimuth_raw', 'altitude_raw', 'azimuth_cor', 'altitude_cor']
MARK = {'a': 3558836791, 'b': 931798996}
CAM = []


def camera():
    """the package's camera: position of each pixel (from the stand-in TARGET library)"""
    if not CAM:
        from target_calib import Mapping
        df = Mapping('cfg-1.1.0').as_dataframe().sort_values('pixel')
        CAM.append([(int(r.row), int(r.col), float(r.xpix), float(r.ypix)) for r in df.itertuples()])
    return CAM[0]


def sim_order(f):
    """camera pixel at the position of each simulated pixel"""
    o = list(range(NP))
    kind, rng = f['perm'], random.Random(f['num'])
    cam = camera()
    if kind == 'random':
        rng.shuffle(o)
    elif kind == 'rows':
        o.sort(key=lambda p: cam[p][:2])
    elif kind == 'columns':
        o.sort(key=lambda p: (cam[p][1], cam[p][0]))
    elif kind == 'reverse':
        o.reverse()
    elif kind == 'swap':
        for _ in range(3):
            a, b = rng.sample(range(NP), 2)
            o[a], o[b] = o[b], o[a]
    elif kind == 'modules':
        ms = list(range(32))
        rng.shuffle(ms)
        o = [m * 64 + i for m in ms for i in range(64)]
    return o


def values(f):
    rng = random.Random(f['num'] + 1)
    hd = {k: (rng.randint(0, 9999) if k in PLAIN else [rng.randint(0, 99999) / 8]) for k in HEADER}
    ev = []
    for k in range(f['n']):
        ev.append(dict(iev=k, t=f['t0'] + k * rng.randint(0, 5) + rng.choice((0, .5, .125, 2 ** -9)), mc={m: rng.randint(0, 9999) / (1 if m[0] == 's' else 8) for m in MC},
                       pointing={m: rng.randint(0, 9999) / 8 for m in PT}))
    return hd, ev


def write(f, path, order):
    import numpy as np
    cam = camera()
    hd, evs = values(f)
    j = np.arange(NP)
    events = []
    for k, e in enumerate(evs):
        wf = (k + 1) * 20000.0 + (j * 4)[:, None] + np.arange(f['ns'])[None] * .25
        events.append(dict(count=e['iev'], obs_id=f['run'], wf=wf.tolist(), time=e['t'], mc=e['mc'], pe=((k + 1) * 3000 + j).tolist(), pointing=e['pointing']))
    # the engineering frame swaps the axes
    doc = dict(x=[cam[p][3] + f['dy'] for p in order], y=[cam[p][2] + f['dx'] for p in order], tel=f['tel'], mcheader=hd, events=events)
    # simulated samples as digitised values: the stand-in's r0 only gives the shape
    b = struct.pack('I', MARK[f['mark']]) + json.dumps(doc).encode()
    with (gzip.open(path, 'wb', 1) if f['gz'] else open(path, 'wb')) as o:
        o.write(b)


def look(w, f, short=False, r=None):
    """what an event shows"""
    import numpy as np
    a, pe = np.asarray(w, dtype=float), w.mc_true
    o = dict(code=BAD, pecode=BAD, pix=[], pe=[])
    if a.shape == (NP, f['ns']) and a.dtype.kind == 'f':
        b = a - np.arange(f['ns'])[None] * .25
        k = int(b[0, 0] // 20000)
        j = (b[:, 0] - k * 20000) / 4
        if (b == b[:, :1]).all() and (j == np.round(j)).all() and 0 <= j.min() and j.max() < NP:
            o.update(code=k, pix=[int(x) + 1 for x in j])
    if pe is not None and np.shape(pe) == (NP,):
        pe = np.asarray(pe)
        k = int(pe[0] // 3000)
        j = pe - k * 3000
        if 0 <= j.min() and j.max() < NP:
            o.update(pecode=k, pe=[int(x) + 1 for x in j])
    try:
        v = w.t_cpu.value
        t = [v // 10 ** 9, v % 10 ** 9]
    except Exception as x:
        t = [type(x).__name__]
    o.update(iev=w.iev, t=t, r1=bool(w.is_r1), fci=w.first_cell_id, stale=bool(w.stale), missing=bool(w.missing_packets))
    if r is not None:
        info(o, r)
    return o


def info(o, r):
    g = lambda d, k: norm(d[k]) if k == 'iev' else q(d[k], 8) if k in d else BAD
    o['mc'] = [g(r.mc, 'iev')] + [g(r.mc, k) for k in MC] + [r.mc['t_cpu'].value // 10 ** 9] if r.mc else []
    o['pointing'] = [g(r.pointing, 'iev')] + [g(r.pointing, k) for k in PT] + [r.pointing['t_cpu'].value // 10 ** 9] if r.pointing else []
    o['header'] = [q(r.mcheader[k], 8) if k in r.mcheader else BAD for k in ['obs_id'] + HEADER] if r.mcheader else []
    o['run'] = r.run_id
    return o


def replay(h, ev):
    import numpy as np, shutil
    from CHECLabPy.core.io import WaveformReader
    from CHECLabPy.core.io.simtel import SimtelReader
    d = tempfile.mkdtemp(dir=scratch())
    try:
        cam = camera()
        files, paths, orders = [], [], []
        for i, f in enumerate(h['files']):
            order = sim_order(f)
            orders.append(order)
            paths.append(os.path.join(d, 'f%d.simtel' % i + ('.gz' if f['gz'] else '')))
            write(f, paths[-1], order)
            hd, evs = values(f)
            s8 = lambda v: q(v[0] if isinstance(v, list) else v, 8)
            files.append(dict(
                at=[list(cam[p][:2]) for p in order], run=f['run'], header=[8 * f['run']] + [s8(hd[k]) for k in HEADER], attrs=[NP, 32, f['ns'], '1.1.0', True],
                events=[dict(iev=e['iev'], t=[int(e['t'] // 1), int(e['t'] % 1 * 10 ** 9)], mc=[e['iev']] + [q(e['mc'][k], 8) for k in MC] + [int(e['t'] // 1)],
                             pointing=[e['iev']] + [q(e['pointing'][k], 8) for k in PT] + [int(e['t'] // 1)]) for e in evs]))
        cfg = dict(files=files, cam=[list(c[:2]) for c in cam])
        rd, its, held = {}, {}, []
        for o in h['ops']:
            e = dict(o, err='')
            op = o['op']
            if op == 'open':
                p = os.path.join(d, 'absent.simtel.gz') if o['absent'] else paths[o['file'] - 1]
                c = SimtelReader if o['kind'] == 'simtel' else WaveformReader.from_path
                r, e['err'] = errname(c, p, *([o['max']] if o['max'] else []))
                if e['err'] == '' and r is None:
                    e['err'] = 'none'
                if not e['err']:
                    m = r.mapping.sort_values('pixel')
                    e.update(n=r.n_events, len=len(r), attrs=[r.n_pixels, r.n_modules, r.n_samples, r.camera_version, bool(r.is_mc)],
                             map=[[int(a), int(b)] for a, b in zip(m['row'], m['col'])],
                             nans=all(np.isnan(x) for x in (r.get_sn(0), r.get_sipm_temp(1), r.get_primary_temp(31), r.get_sp_dac(0, 0), r.get_sp_hvon(3, 2))))
                    rd[o['r']] = (r, o['file'] - 1)
                ev.append(e)
                if e['err'] and not o['absent']:
                    break
                continue
            if op == 'iter':
                r, i = rd[o['r']]
                its[o['it']] = (iter(r), r, i)
            elif op == 'next':
                it, r, i = its[o['it']]
                try:
                    w = next(it)
                    e['obs'] = look(w, h['files'][i], r=r)
                    held.append((w, i))
                except StopIteration:
                    e['err'] = 'StopIteration'
            elif op == 'index':
                r, i = rd[o['r']]
                w, e['err'] = errname(lambda: r[o['i']])
                if not e['err']:
                    e['obs'] = look(w, h['files'][i], r=r)
                    held.append((w, i))
            elif op in ('slice', 'list'):
                r, i = rd[o['r']]
                key = slice(*[x[0] if x else None for x in (o['a'], o['b'], o['c'])]) if op == 'slice' else o['l']
                w, e['err'] = errname(lambda: r[key])
                e['codes'] = []
                if not e['err']:
                    for x in w:
                        x = np.asarray(x, dtype=float)
                        inv = (np.array([20000.0 * ((x[0, 0]) // 20000)])[:, None] if x.size else 0)
                        k = int(x[0, 0] // 20000)
                        # the simulated pixel whose samples each camera pixel holds
                        j = (x[:, 0] - k * 20000) / 4
                        want = np.argsort(np.array(orders[i]))
                        e['codes'].append(k if x.shape == (NP, h['files'][i]['ns']) and np.array_equal(j, want) else BAD)
                    e['obs'] = info({}, r)
            elif op == 'held':
                e['obs'] = []
                for w, i in held:
                    x = look(w, h['files'][i])
                    import numpy
                    want = (numpy.argsort(numpy.array(orders[i])) + 1).tolist()
                    x['placed'] = x.pop('pix') == want and x.pop('pe') == want
                    x.pop('pe', 0)
                    e['obs'].append(x)
            ev.append(e)
        return cfg
    finally:
        shutil.rmtree(d)


def rfile(rng, n=None):
    return dict(perm=rng.choice(('random', 'random', 'rows', 'columns', 'reverse', 'swap', 'modules', 'same')), num=rng.randrange(9999), n=n or rng.choice((1, 2, 3, 5)),
                ns=rng.choice((1, 2, 3)), t0=rng.choice((0, 1557410887)), run=rng.randrange(9999), tel=rng.choice((1, 5)), mark=rng.choice('ab'),
                gz=rng.random() < .4, dx=rng.choice((0, 0, .01)), dy=rng.choice((0, 0, -.02)))


def history(rng):
    files = [rfile(rng) for _ in range(rng.choice((1, 1, 2)))]
    ops, rd, its = [], [], {}

    def opn():
        ops.append(dict(op='open', r=len(rd) + 1, file=rng.randrange(len(files)) + 1, kind=rng.choice(('simtel', 'factory')), absent=False, max=rng.choice((0, 0, 0, 1, 2, 10))))
        f = files[ops[-1]['file'] - 1]
        rd.append(min(f['n'], ops[-1]['max'] or 99))
    opn()
    if rng.random() < .15:
        ops.append(dict(op='open', r=0, file=1, kind='simtel', absent=True, max=0))
    for _ in range(rng.randint(3, 8)):
        op = weighted(rng, open=.7, iter=2, next=7 if its else 0, index=5, slice=1, list=1)
        if op == 'open':
            if len(rd) < 3:
                opn()
            continue
        r = rng.randrange(len(rd)) + 1
        n = rd[r - 1]
        o = dict(op=op, r=r)
        ri = lambda: rng.choice((0, -1, n - 1, n, -n - 1, rng.randrange(n), rng.randrange(n)))
        if op == 'iter':
            o['it'] = rng.choice((1, 2))
            its[o['it']] = r
        elif op == 'next':
            o = dict(op='next', it=rng.choice(sorted(its)))
        elif op == 'index':
            o['i'] = ri()
        elif op == 'slice':
            opt = lambda: [] if rng.random() < .35 else [ri()]
            o.update(a=opt(), b=opt(), c=rng.choice(([], [], [1], [2], [-1])))
        elif op == 'list':
            o['l'] = [rng.randrange(n) if rng.random() < .9 else ri() for _ in range(rng.choice((0, 1, 2, 3)))]
        ops.append(o)
    ops.append(dict(op='held'))
    return dict(files=files, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1301 + 26)
    return [history(rng) for _ in range(70 if tier == 'quick' else 900)]


def concretise(hists, seed):
    rng = random.Random(seed + 26)
    return [dict(files=[rfile(rng, 3)], ops=[dict(op='open', r=1, file=1, kind=rng.choice(('simtel', 'factory')), absent=False, max=0)] +
                 [dict(o, r=1) for o in h] + [dict(op='held')]) for h in hists]
