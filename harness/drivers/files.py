"""Configuration and run files driver (C23)."""
import contextlib, io, os, random, sys, warnings
from .common import *
from .reducers import REFS, grid_mapping, ref_file

TIME_LIMIT = 90
NNLS = 'nnls'


def setup(job):
    from CHECLabPy.core.reducer import WaveformReducer, column
    import CHECLabPy.core.chain  # noqa

    class VfOne(WaveformReducer):
        """A reducer with one line of documentation"""
        @column
        def vf_one(self):
            """One line: with a colon"""
            return self.waveforms[:, 0]

        @column
        def vf_two(self):
            return self.waveforms[:, 1]

    class VfSub(VfOne):
        @column
        def vf_three(self):
            """
            Several lines

            - item: 1
            key: [unbalanced
            """
            return self.waveforms[:, 2]
    globals()['_keep'] = [VfOne, VfSub]


def all_columns():
    from CHECLabPy.core.reducer import WaveformReducer, column
    out, seen = [], set()

    def walk(c):
        for s in c.__subclasses__():
            if s not in seen:
                seen.add(s)
                out.extend(k for k, v in vars(s).items() if isinstance(v, column))
                walk(s)
    walk(WaveformReducer)
    return sorted(set(out))


def name_text(n):
    return ''.join(('' if t['num'] < 0 else '%0*d' % (t['pad'], t['num'])) + ''.join(map(chr, t['text'])) for t in n)


def replay(h, ev):
    import numpy as np
    from CHECLabPy.utils import files as F
    from CHECLabPy.core.chain import WaveformReducerChain
    warnings.simplefilter('ignore')
    d = scratch()
    out = io.StringIO()
    for o in h['ops']:
        e = dict(o, err='')
        with contextlib.redirect_stdout(out):
            if o['op'] == 'hv':
                p = d + '/hv.cfg'
                with open(p, 'w') as f:
                    f.write(''.join(l['pre'] + {'HV': 'M:%d/F/S:%d|HV=%d', 'HVOn': 'M:%d/F/S:%d|HVOn=%d', 'other': 'M:%d/F/S:%d|Temp=%d'}[l['kind']]
                                    % (l['tm'], l['sp'], l['val']) + l['post'] + o['nl'] if l['kind'] != 'text' else l['pre'] + o['nl'] for l in o['lines']))
                r, e['err'] = errname(F.extract_hv_cfg, p)
                if not e['err']:
                    e.update(dac=qs(r[0], 1), hvon=qs(r[1], 1))
                    e['dac'], e['hvon'] = [x for m in e['dac'] for x in m], [x for m in e['hvon'] for x in m]
                e['lines'] = [dict(kind=l['kind'], tm=l['tm'], sp=l['sp'], val=l['val']) for l in o['lines']]
            elif o['op'] == 'sort':
                names = [name_text(n) for n in o['names']]
                lst = list(names)
                r, e['err'] = errname(F.sort_file_list, lst)
                e['perm'] = []
                if not e['err']:
                    rest = list(enumerate(names, 1))
                    for x in r:
                        i = next((k for k, (_, y) in enumerate(rest) if y == x), None)
                        e['perm'].append(rest.pop(i)[0] if i is not None else 0)
                e['names'] = [[dict(num=[] if t['num'] < 0 else [int(c) for c in str(t['num'])], text=t['text']) for t in n] for n in o['names']]
            elif o['op'] == 'runlist':
                runlist(o, e, d, F)
            elif o['op'] == 'config':
                config(o, e, d, WaveformReducerChain)
        ev.append(e)
    from CHECLabPy.core.chain import WaveformReducerChain as C
    return dict(cols=all_columns(), **{'def': [dict(k=k, v=bool(v)) for k, v in C.default_columns.items()]})


def runlist(o, e, d, F):
    import target_io
    rd = os.path.join(d, o['sub']) if o['sub'] else d
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith('Run') and os.path.isfile(os.path.join(rd, f)):
            os.unlink(os.path.join(rd, f))
    p = os.path.join(rd, 'runlist.txt')
    sep = ' '
    with open(p, 'w') as f:
        if o['comment']:
            f.write('# a comment\n')
        if o['kind'] != 'old':
            f.write(sep.join(['run'] + o['cols']) + '\n')
        for i, r in enumerate(o['rows']):
            f.write(sep.join(map(str, r)) + ('#note' if o['comment'] and i == 0 else '') + '\n')
    nev = {}
    if o['open'] and o['kind'] == 'r1':
        for r in o['rows']:
            q_ = os.path.join(rd, 'Run%05d_r1.tio' % r[0])
            n = 1 + r[0] % 4
            nev[r[0]] = n
            write_tio(q_, n)
    if o['open'] and o['kind'] == 'dl1':
        from . import spectrum
        import numpy as np
        for r in o['rows']:
            n = 1 + r[0] % 4
            nev[r[0]] = n
            spectrum.dl1(os.path.join(rd, 'Run%05d_dl1.h5' % r[0]), np.zeros((n, 4)), 4)
    cwd = os.getcwd()
    arg, e['dir'] = p, rd
    if o['relative']:
        os.chdir(rd)
        arg, e['dir'] = 'runlist.txt', ''
    try:
        me = o['max']
        f = {'plain': lambda: F.read_runlist(arg), 'old': lambda: F.read_runlist_old(arg),
             'r1': lambda: F.open_runlist_r1(arg, o['open'], me or None), 'dl1': lambda: F.open_runlist_dl1(arg, o['open'])}[o['kind']]
        df, e['err'] = errname(f)
        if not e['err']:
            own = [c for c in df.columns if c not in ('path', 'reader')] if o['kind'] in ('r1', 'dl1') else list(df.columns)
            e['gotcols'] = own
            e['index'] = [int(x) for x in df.index]
            e['vals'] = [[int(x) for x in row] for row in df[own].values.tolist()]
            e['paths'] = [str(x) for x in df['path']] if 'path' in df else []
            if o['open']:
                e['rpaths'] = [str(x.path) for x in df['reader']]
                e['nev'] = [int(x.n_events) for x in df['reader']]
                lim = me if me and o['kind'] == 'r1' else 10 ** 6
                e['expnev'] = [min(nev[r[0]], lim) for r in o['rows']]
                for x in df['reader']:
                    if hasattr(x, 'store'):
                        x.store.close()
    finally:
        os.chdir(cwd)
    e.setdefault('nev', [])
    e['ext'] = {'r1': '_r1.tio', 'dl1': '_dl1.h5'}.get(o['kind'], '')


def write_tio(path, n):
    import target_io
    from . import wfreader
    target_io.write_tio(path, wfreader.small_doc(n))


def config(o, e, d, Chain):
    import yaml
    from CHECLabPy.scripts import generate_dl1_config as G
    p = d + '/extractor.yml'
    if os.path.exists(p):
        os.unlink(p)
    argv = sys.argv
    sys.argv = ['generate_dl1_config', '-o', p] + (['--bare'] if o['bare'] else [])
    try:
        _, e['err'] = errname(G.main)
    finally:
        sys.argv = argv
    if e['err']:
        return
    text = open(p).read()

    def entries():
        node = yaml.compose(text)
        return [dict(k=str(a.value), v=yaml.safe_load(b.value) if isinstance(b.value, str) else 'unreadable') for a, b in node.value]
    e['entries'], e['err'] = errname(entries)
    if e['err']:
        return
    cols = [x['k'] for x in e['entries']]
    rng = random.Random(o['flips'])
    cand = [c for c in cols if NNLS not in c]
    e['flip'] = rng.sample(cand, min(len(cand), rng.choice((0, 1, 3)))) if o['flips'] else []
    val = {x['k']: x['v'] for x in e['entries']}
    lines = []
    for l in text.split('\n'):
        k = l.split(':')[0]
        lines.append('%s: %s' % (k, not val[k]) if k in e['flip'] and not l.startswith('#') else l)
    with open(p, 'w') as f:
        f.write('\n'.join(lines))
    df, nb = grid_mapping(64, 8)

    def active():
        import numpy as np
        ch = Chain(64, 40, config_path=p, mapping=df, reference_pulse_path=ref_file(REFS[3]))
        return sorted(ch.process(np.random.RandomState(5).randint(0, 50, (64, 40)).astype('f8')))
    e['active'], e['err'] = errname(active)


def hvline(rng, spread):
    k = weighted(rng, HV=5, HVOn=4, other=1, text=1)
    v = rng.choice((0, 1, 10, 100, 255)) if k == 'HV' else rng.choice((0, 1))
    return dict(kind=k, tm=rng.randrange(32) if spread else rng.choice((0, 1, 31)), sp=rng.randrange(16) if spread else rng.choice((0, 1, 15)), val=v,
                pre=rng.choice(('', '', '  ', 'set ', 'T/')) if k != 'text' else rng.choice(('', '# comment', 'something else', 'M:3', 'HVOn')),
                post=rng.choice(('', '', ' ', ' # note', '|')))


def name(rng, pad):
    base = rng.choice(([97], [97, 98], [82, 117, 110], [95], [90], []))
    n = [dict(num=-1, pad=0, text=base)]
    for _ in range(rng.choice((0, 1, 1, 2))):
        n.append(dict(num=rng.choice((0, 1, 2, 9, 10, 11, 100, rng.randint(0, 20), rng.choice((10 ** 5, 99999, 20191231, 20191301, 20191231235959, 2019123123595, rng.randint(0, 10 ** rng.randint(1, 18)))))), pad=rng.choice((1, 1, 3, 5)) if pad else 1,
                      text=rng.choice(([], [46, 104, 53], [95], [95, 114, 49], [97]))))
    for i, t in enumerate(n[1:-1], 1):
        if not t['text']:
            t['text'] = [95]
    return n


def hist(rng):
    ops = []
    for _ in range(rng.randint(2, 4)):
        op = weighted(rng, hv=3, runlist=3, sort=3, config=.5)
        o = dict(op=op)
        if op == 'hv':
            sp = rng.random() < .6
            n = rng.choice((0, 1, 5, 30, 600 if rng.random() < .1 else 12))
            o.update(lines=[hvline(rng, sp) for _ in range(n)], nl=rng.choice(('\n', '\n', '\r\n')))
        elif op == 'sort':
            pad = rng.random() < .4
            pre = rng.choice(([], [47, 100], [100]))
            names = [name(rng, pad) for _ in range(rng.choice((0, 1, 2, 6, 15)))]
            for n in names:
                if pre == [47, 100] and rng.random() < .3:      # a number in the directory
                    n[0]['num'] = rng.choice((2, 10, 100000, 99999))
                    n[0].update(pad=1, text=[47] + n[0]['text'])
                    n.insert(0, dict(num=-1, pad=0, text=pre))
                else:
                    n[0]['text'] = (pre + [rng.choice((97, 98)), 47] if pre == [47, 100] else pre) + n[0]['text']
            o['names'] = names
        elif op == 'runlist':
            kind = rng.choice(('plain', 'old', 'r1', 'dl1'))
            cols = ['attenuation', 'illumination', 'n_events', 'fw'] if kind == 'old' else rng.choice((['fw'], ['a', 'b'], ['pe', 'fw', 'n_events']))
            runs = [rng.choice((1, 2, 10, 123, 5000, 99999, rng.randint(0, 300))) for _ in range(rng.randint(1, 5))]
            if rng.random() < .8:
                runs = list(dict.fromkeys(runs))
            o.update(kind=kind, cols=cols, rows=[[r] + [rng.randint(0, 999) for _ in cols] for r in runs], comment=rng.random() < .4,
                     sub=rng.choice(('', 'sub', 'Run1')), relative=rng.random() < .2, open=kind in ('r1', 'dl1') and rng.random() < .5, max=rng.choice((0, 0, 2)))
        else:
            o.update(bare=rng.random() < .5, flips=rng.choice((0, rng.randint(1, 999))))
        ops.append(o)
    return dict(ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 613 + 23)
    k = 1 if tier == 'quick' else 15
    return [hist(rng) for _ in range(200 * k)] + [dict(ops=[dict(op='config', bare=b, flips=f)]) for b in (True, False) for f in (0, 5, 6)]
