"""DL1 extraction driver (C07): whole files through the real script.  The package is copied into the worker's
scratch directory, because the time corrections are read from a file inside the package."""
import contextlib, gzip, hashlib, io, json, os, random, shutil, struct, sys, tempfile, warnings
from .common import *
from . import masks, simtel
from .calib import write_tcor
from .store import Big

TIME_LIMIT = 150
KEEP = []
JUDGED = ['waveform_max', 'waveform_mean', 'baseline_start_mean', 'vf_argmax']
OTHER = ['waveform_rms', 'baseline_end_mean', 'baseline_start_rms', 'saturation_sum', 't_event', 't_averagewf']
SUFFIX = ['_r1.tio', '_r1.tio', '.tio', '.tio', '.dat', '_dl1.h5.orig']
SIMSUFFIX = ['.simtel.gz', '.simtel.gz', '.simtel', '.sim.gz']


def setup(job):
    masks.copy_package()
    import numpy as np
    from CHECLabPy.core.reducer import WaveformReducer, column

    class VfReducer(WaveformReducer):
        @column
        def vf_argmax(self):
            return np.argmax(np.asarray(self.waveforms), axis=1)
    KEEP.append(VfReducer)


def wf(f, k):
    import numpy as np
    p, s = np.arange(f['np'])[:, None], np.arange(f['ns'])[None]
    return (f['ped'] + k * f['drift'] % 40 + (k * 37 + p * 11 + s * 3 + p * s % 5) % 25 + np.where(s == (f['at'] + k + p) % f['ns'], f['amp'] * ((k + p) % 4), 0)
            + (f['big'] if k >= f['bigfrom'] else 0))


def write(f, path):
    if not f['sim']:
        import target_io
        ev = [dict(wf=wf(f, k).tolist(), fci=e['fci'], stale=e['stale'], missing=e['missing'], tack=int(e['tack']), cpu_s=e['t'][0], cpu_ns=e['t'][1])
              for k, e in enumerate(f['ev'])]
        m = f['mod']
        target_io.write_tio(path, dict(r1=True, run_id=f['run'], n_pixels=f['np'], n_modules=f['np'] // 64, n_sp=16, n_samples=f['ns'], version=version(f),
                                       sn=m['sn'], sipm=m['sipm'], primary=m['primary'], dac=m['dac'], hvon=m['hvon'], events=ev))
        return
    import numpy as np
    cam = simtel.camera()
    hd, evs = simtel.values(f)
    events = [dict(count=e['iev'], obs_id=f['run'], wf=wf(f, k).tolist(), time=e['t'], mc=e['mc'], pe=((k + 1) * 3000 + np.arange(2048)).tolist(), pointing=e['pointing'])
              for k, e in enumerate(evs)]
    doc = dict(x=[c[3] for c in cam], y=[c[2] for c in cam], tel=f['tel'], mcheader=hd, events=events)
    with (gzip.open(path, 'wb', 1) if f['suffix'].endswith('.gz') else open(path, 'wb')) as o:
        o.write(struct.pack('I', simtel.MARK[f['mark']]) + json.dumps(doc).encode())


def version(f):
    return 'stub:1x%d' % (f['np'] // 64)


def cam_of(f):
    if f['sim']:
        return [list(c[:2]) for c in simtel.camera()]
    from target_calib import Mapping
    df = Mapping('cfg-' + version(f), f['np'] == 64).as_dataframe().sort_values('pixel')
    return [[int(r.row), int(r.col)] for r in df.itertuples()]


def cfg_file(f, den):
    if f['sim']:
        hd, evs = simtel.values(f)
        ev = [dict(stale=False, missing=False, fci=0, tack='0', t=[int(e['t'] // 1), int(e['t'] % 1 * 10 ** 9)],
                   mc=[e['iev']] + [q(e['mc'][k], 8) for k in simtel.MC] + [int(e['t'] // 1)],
                   pointing=[e['iev']] + [q(e['pointing'][k], 8) for k in simtel.PT] + [int(e['t'] // 1)]) for e in evs]
        hdr = [8 * f['run']] + [q(v[0] if isinstance(v, list) else v, 8) for v in (hd[k] for k in simtel.HEADER)]
        mods = [[NAN] * 32] * 3 + [[]] * 2
        at = ['CHECLabPy', f['run'], True, 32, 2048, 0, f['ns'], '1.1.0']
    else:
        ev = [dict(stale=e['stale'], missing=e['missing'], fci=e['fci'], tack=str(e['tack']), t=e['t'], mc=[], pointing=[]) for e in f['ev']]
        m = f['mod']
        hdr, mods = [], [[q(x, 8) for x in m['sn']], [q(x, 8) for x in m['sipm']], [q(x, 8) for x in m['primary']],
                         [q(x, 8) for r in m['dac'] for x in r], [q(x, 8) for r in m['hvon'] for x in r]]
        at = ['CHECLabPy', f['run'], False, f['np'] // 64, f['np'], 16, f['ns'], version(f)]
    return dict({k: f[k] for k in ('sim', 'np', 'ns', 'ped', 'drift', 'at', 'amp', 'big', 'bigfrom', 'suffix')}, den=den, events=ev, header=hdr, modules=mods, attrs=at)


def ts(v):
    import pandas as pd
    if v is None:
        return []
    try:
        v = pd.Timestamp(v).value
        return [v // 10 ** 9, v % 10 ** 9]
    except Exception as x:
        return [type(x).__name__]


def look(path, name, f, den, nb, inp):
    """everything a DL1 file holds"""
    import numpy as np, pandas as pd
    o = dict(name=name, iev=[], pixel=[], ev=[], cols=[], col={}, mc=[], dt={}, sim=[[], [], []])
    u = den * 16 * nb
    with pd.HDFStore(path, mode='r') as st:
        df = st.select('data') if '/data' in st.keys() else pd.DataFrame()
        o['cols'] = list(df.columns)
        if len(df):
            o['iev'] = df['iev'].tolist() if 'iev' in df else []
            o['pixel'] = df['pixel'].tolist() if 'pixel' in df else []
            o['dt'] = {c: (t.str[1:] if t.kind != 'M' else 'M8[ns]') for c, t in df.dtypes.items()}
            if {'iev', 'pixel', 't_cpu', 't_tack', 'first_cell_id'} <= set(df):
                for iev, g in df.groupby('iev', sort=False):
                    same = all((g[c] == g[c].iloc[0]).all() for c in ('t_cpu', 't_tack', 'first_cell_id'))
                    o['ev'].append(dict(t=ts(g['t_cpu'].iloc[0]), tack=str(int(g['t_tack'].iloc[0])), fci=int(g['first_cell_id'].iloc[0]), same=bool(same)))
            scale = dict(waveform_max=u, waveform_mean=u * f['ns'], baseline_start_mean=u * min(20, f['ns']), vf_argmax=1, baseline_subtracted=16 * nb * den)
            o['col'] = {c: [q(x, k) for x in df[c].astype('f8')] for c, k in scale.items() if c in df}
            if 'mc_true' in df:
                o['mc'] = [int(x) for x in df['mc_true']]
        at = st.get_storer('data').attrs
        m = at.metadata
        o['meta'] = {k: m.get(k, BAD) for k in ('n_events', 'n_skipped')}
        o['times'] = [ts(m.get('start_time', 'absent')), ts(m.get('end_time', 'absent'))]
        o['attrs'] = [m.get(k, BAD) for k in ('source', 'run_id', 'is_mc', 'n_modules', 'n_pixels', 'n_superpixels_per_module', 'n_samples', 'camera_version')]
        o['input'] = m.get('input_path') == inp
        nm, nsp = f['np'] // 64, 0 if f['sim'] else 16
        o['modules'] = [[q(getattr(at, a)['TM%02d' % i], 8) for i in range(nm)] for a in ('sn', 'sipm_temp', 'primary_temp')] + \
                       [[q(getattr(at, a)['TM%02d_SP%02d' % (i, j)], 8) for i in range(nm) for j in range(nsp)] for a in ('dac', 'hvon')]
        o['config'] = pairs(at.config)
        mp = st['mapping'].sort_values('pixel')
        o['map'] = [[int(a), int(b)] for a, b in zip(mp['row'], mp['col'])]
        if f['sim'] and '/mc' in st.keys():
            row = lambda d, ks: [int(d['iev'])] + [q(d[k], 8) for k in ks] + [ts(d['t_cpu'])[0]]
            o['sim'] = [[row(r, simtel.MC) for _, r in st['mc'].iterrows()], [row(r, simtel.PT) for _, r in st['pointing'].iterrows()],
                        [q(st.get_storer('mc').attrs.mcheader.get(k, NAN), 8) for k in ['obs_id'] + simtel.HEADER]]
    return o


def pairs(c):
    return sorted([k, str(v)] for k, v in c.items() if k != 'reference_pulse_path')


def digest(p):
    return hashlib.md5(open(p, 'rb').read()).hexdigest() if os.path.exists(p) else 'gone'


def replay(h, ev):
    import numpy as np, yaml
    warnings.simplefilter('ignore')
    import CHECLabPy.scripts.extract_dl1 as M
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.io import WaveformReader
    d = tempfile.mkdtemp(dir=scratch())
    base, extractor, altered = M.DL1Writer, M.DL1Extractor, []
    write_tcor(h['tcor'], h['den'])
    flush = {}

    class Flushing(base):
        """the buffer becomes large at chosen events"""
        def append(self, df, *a, **k):
            if 'pixel' in getattr(df, 'columns', ()) and len(df) and flush.get(int(df['iev'].iloc[0])):
                import pandas as pd
                df = df.copy()
                df.index = pd.Index([Big('%d' % i) for i in range(len(df))], dtype=object)
            return super().append(df, *a, **k)

    class Watching(extractor):
        def __call__(self, w, *a, **k):
            before = np.array(w)
            r = super().__call__(w, *a, **k)
            altered.append(not np.array_equal(before, np.asarray(w)))
            return r
    try:
        inputs, cfiles, configs = [], [], []
        for i, f in enumerate(h['files']):
            inputs.append(os.path.join(d, 'in%dx%s' % (i, f['suffix'])))
            write(f, inputs[-1])
        sums = [digest(p) for p in inputs]
        cdir = tempfile.mkdtemp(dir=scratch())
        for i, c in enumerate(h['configs']):
            if c is None:
                cfiles.append(None)
                c = WaveformReducerChain.default_columns
            else:
                cfiles.append(os.path.join(cdir, 'c%d.yml' % i))
                with open(cfiles[-1], 'w') as o:
                    yaml.safe_dump(c, o)
            configs.append(dict(config=pairs(c), cols=sorted(k for k, v in c.items() if v is True)))
        cfg = dict(files=[cfg_file(f, h['den']) for f in h['files']], tcor=h['tcor'], configs=configs, cams=[cam_of(f) for f in h['files']])
        made = set()
        out = io.StringIO()
        for n, o in enumerate(h['ops']):
            e = dict(o, err='', outs=[], made=[])
            flush.clear()
            flush.update({i: b for i, b in enumerate(o['flush'])})
            given = os.path.join(d, *o['out'].split('/')) if o['out'] else None
            M.DL1Writer, M.DL1Extractor = Flushing, Watching
            argv = sys.argv
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    if o['via'] == 'main':
                        sys.argv = ['extract_dl1', '-f'] + [inputs[i - 1] for i in o['files']] + (['-o', given] if given else []) + \
                                   (['-n', str(o['max'])] if o['max'] else []) + (['-c', cfiles[o['config'] - 1]] if cfiles[o['config'] - 1] else [])
                        _, e['err'] = errname(M.main)
                    else:
                        for i in o['files']:
                            def run():
                                r = WaveformReader.from_path(inputs[i - 1], o['max'] or None)
                                M.DL1Writer.write_dl1_file(r, M.DL1Extractor(r, cfiles[o['config'] - 1]), given)
                            _, e['err'] = errname(run)
                            if e['err']:
                                break
            finally:
                sys.argv, M.DL1Writer, M.DL1Extractor = argv, base, extractor
            e['kept'] = [digest(p) for p in inputs] == sums and not any(altered)
            listing = sorted(os.path.relpath(os.path.join(a, b), d) for a, _, bs in os.walk(d) for b in bs)
            e['listing'] = [x for x in listing if os.path.join(d, x) not in inputs]
            for i in o['files'] if not e['err'] else ():
                f = h['files'][i - 1]
                stem = 'in%dx' % (i - 1)
                if given:
                    names = [o['out']] if o['out'] in e['listing'] else []
                else:
                    names = [x for x in e['listing'] if x.startswith(stem)]
                if len(names) != 1:
                    e['err'] = 'output missing'
                    break
                made.add(names[0])
                e['made'].append(names[0])
                nev = len(f['ev'])
                nb = max(min(50, min(o['max'] or nev, nev)), 1)
                e['outs'].append(look(os.path.join(d, names[0]), 'given' if given else names[0][len(stem):], f, h['den'], nb, inputs[i - 1]))
            ev.append(e)
            if e['err']:
                break
        return cfg
    finally:
        shutil.rmtree(d)


def rfile(rng, sim=False, kinds=None):
    f = dict(sim=sim, np=2048 if sim else 64 if rng.random() < .8 else 128, ns=16 if sim else rng.choice((16, 20, 24)), ped=rng.choice((0, 20, 300)), drift=rng.choice((0, 1, 7)),
             at=rng.randrange(16), amp=rng.choice((0, 30, 100)), big=rng.choice((0, 0, 0, 9001, 20003)), suffix=rng.choice(SIMSUFFIX if sim else SUFFIX),
             run=rng.randrange(9999))
    if kinds is None:
        kinds = [rng.choice((0, 0, 0, 1, 2, 3)) for _ in range(rng.choice((1, 2)) if sim else rng.choice((1, 2, 3, 4, 5, 6)))]
    n = len(kinds)
    f['bigfrom'] = rng.randint(0, n)
    if sim:
        f.update(num=rng.randrange(9999), n=n, t0=rng.choice((0, 1557410887)), tel=rng.choice((1, 5)), mark=rng.choice('ab'), ev=[0] * n)
        return f
    t0, nm = rng.choice((0, 1557410887)), f['np'] // 64
    f['ev'] = [dict(stale=bool(k & 1), missing=bool(k & 2), fci=rng.randrange(16384), tack=rng.choice((rng.randrange(10 ** 6), 2 ** 40 + k, 2 ** 62 + 4097 * k + 1, 2 ** 63 + 3 * k + 5, 2 ** 64 - 1 - k)),
                    t=[t0 + i * rng.randint(0, 3), rng.randrange(10 ** 9)]) for i, k in enumerate(kinds)]
    f['mod'] = dict(sn=[rng.randrange(100) for _ in range(nm)], sipm=[rng.randrange(300) / 8 for _ in range(nm)], primary=[rng.randrange(300) / 8 for _ in range(nm)],
                    dac=[[rng.randrange(256) for _ in range(16)] for _ in range(nm)], hvon=[[rng.randrange(2) for _ in range(16)] for _ in range(nm)])
    return f


def rconfig(rng):
    if rng.random() < .12:
        return None
    c = {k: True for k in rng.sample(JUDGED, rng.choice((1, 2, 3, 4)))}
    c.update({k: rng.random() < .5 for k in rng.sample(OTHER, rng.choice((0, 1, 2)))})
    if rng.random() < .3:
        c[rng.choice([k for k in JUDGED + OTHER if k not in c])] = False
    return c


def rtcor(rng, n):
    den = rng.choice((1, 2, 4))
    kind = rng.choice(('zero', 'whole', 'any', 'any'))
    return den, [0 if kind == 'zero' else den * rng.randint(-3, 3) if kind == 'whole' else rng.randint(-5 * den, 5 * den) for _ in range(n)]


def history(rng):
    files = [rfile(rng) for _ in range(rng.choice((1, 1, 2)))]
    den, a = rtcor(rng, 128)
    configs = [rconfig(rng) for _ in range(rng.choice((1, 2)))]
    ops = []
    for _ in range(rng.choice((1, 1, 2))):
        ops.append(op(rng, files, configs))
    return dict(files=files, tcor=a, den=den, configs=configs, ops=ops)


def op(rng, files, configs):
    fs = rng.sample(range(1, len(files) + 1), rng.choice((1, len(files))))
    n = max(len(files[i - 1]['ev']) for i in fs)
    out = rng.choice(('', '', 'o1.h5', 'o2.h5', 'new/dir/o3.h5')) if len(fs) == 1 else ''
    return dict(op='extract', files=fs, config=rng.randrange(len(configs)) + 1, out=out, max=rng.choice((0, 0, 0, 1, 2, n, n + 1)), via=rng.choice(('main', 'main', 'api')),
                flush=[rng.random() < .3 for _ in range(n)])


def sim_history(rng):
    files = [rfile(rng, True)]
    configs = [rconfig(rng) or dict(waveform_max=True)]
    den, a = rtcor(rng, 128)
    return dict(files=files, tcor=a, den=1, configs=configs, ops=[op(rng, files, configs)])


def generate(prop, tier, seed):
    rng = random.Random(seed * 1709 + 7)
    k = 1 if tier == 'quick' else 12
    return [history(rng) for _ in range(54 * k)] + [sim_history(rng) for _ in range(6 * k)]


def concretise(hists, seed):
    rng = random.Random(seed + 7)
    out = []
    for h in hists:
        f = rfile(rng, kinds=h['kinds'])
        f.update(np=64, ns=16, big=9001)
        if f['mod']['sn'][1:]:
            f['mod'] = {k: v[:1] for k, v in f['mod'].items()}
        c = {'waveform_max': True, 'waveform_mean': True}
        den, a = rtcor(rng, 128)
        out.append(dict(files=[f], tcor=a, den=den, configs=[c], ops=[dict(op='extract', files=[1], config=1, out=rng.choice(('', 'o.h5')), max=h['limit'],
                                                                          via=rng.choice(('main', 'api')), flush=h['flush'])]))
    return out
