"""Reducer chain driver (C09, C10): building chains from any settings and running them."""
import os, random, sys, tempfile, types
from .common import *
from .reducers import ALL, NNLS, REFS, grid_mapping, ref_file, rand_wf

TIME_LIMIT = 120
MADE = []
USER = [dict(name='VerifA', cols=['ua1', 'ua2']), dict(name='VerifB', cols=['ub1']), dict(name='VerifC', cols=['uc1'])]
SETTINGS = ['window_size', 'window_shift', 't_extract', 'some_setting', 'other', 'plot_timing']
USERCOLS = ['ua1', 'ua2', 'ub1', 'uc1']


def vrepr(v):
    import numpy as np
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    return 'object ' + type(v).__name__


def setup(job):
    from CHECLabPy.core.reducer import WaveformReducer, column
    import CHECLabPy.core.chain  # noqa

    class VerifA(WaveformReducer):
        def __init__(self, n_pixels, n_samples, **kwargs):
            super().__init__(n_pixels, n_samples, **kwargs)
            MADE.append((type(self).__name__, [n_pixels, n_samples], dict(self.kwargs)))

        @column
        def ua1(self):
            return self.waveforms[:, 0] + self.kwargs.get('some_setting', 1)

        @column
        def ua2(self):
            return self.waveforms            # an array of the reducer itself

    class VerifB(VerifA):
        @column
        def ub1(self):
            return self.waveforms.sum(1)

    class VerifC(WaveformReducer):
        def __init__(self, n_pixels, n_samples, other='unset', **kwargs):
            super().__init__(n_pixels, n_samples, **kwargs)
            MADE.append((type(self).__name__, [n_pixels, n_samples], dict(self.kwargs, **({} if other == 'unset' else {'other': other}))))
            self.n = 0

        @column
        def uc1(self):
            self.waveforms += 1              # its own copy: nobody else may notice
            return float(self.waveforms.max())
    globals().update(_keep=[VerifA, VerifB, VerifC])


def settings(d, only=None):
    return [dict(k=k, v=vrepr(v), t=bool(v)) for k, v in d.items() if only is None or k in only]


def replay(h, ev):
    if h['cfg']['kind'] == 'build':
        replay_build(h, ev)
        return dict(user=USER)
    replay_process(h, ev)
    return dict(user=USER)


def to_yaml(d, style):
    if not d:
        return '' if style else '{}\n'
    out = ['# generated'] if style else []
    for k, v in d.items():
        s = {True: 'yes' if style else 'true', False: 'off' if style else 'false'}[v] if isinstance(v, bool) else \
            'null' if v is None else str(v) if not isinstance(v, str) else "'%s'" % v
        out.append('%s: %s' % (k, s))
    return '\n'.join(out) + '\n'


def replay_build(h, ev):
    import numpy as np
    from CHECLabPy.core.chain import WaveformReducerChain
    saved = {k: v for k, v in sys.modules.items() if k == 'ctapipe' or k.startswith('ctapipe.')}
    for o in h['ops']:
        c = h['cfg']
        df, nb = grid_mapping(c['n_pixels'], 4)
        kw = dict(o['kw'])
        if o['ref']:
            kw['reference_pulse_path'] = ref_file(REFS[3])
        if o['mapping']:
            kw['mapping'] = df
        path = None
        if o['hasfile']:
            fd, path = tempfile.mkstemp(dir=scratch(), suffix='.yml')
            with os.fdopen(fd, 'w') as f:
                f.write(to_yaml(o['file'], o['style']))
        del MADE[:]
        if not o['ctapipe']:
            for k in list(sys.modules):
                if k == 'ctapipe' or k.startswith('ctapipe.'):
                    sys.modules.pop(k)
            sys.modules['ctapipe'] = None
        try:
            chain, err = errname(lambda: WaveformReducerChain(c['n_pixels'], c['n_samples'], config_path=path, **kw))
            if err in ('ModuleNotFoundError',):
                err = 'ImportError'
            columns, config = [], {}
            if chain is not None:
                config = dict(chain.config)
                wf = np.random.RandomState(3).randint(0, 50, (c['n_pixels'], c['n_samples'])).astype(np.float64)
                r, perr = errname(chain.process, wf)
                columns = sorted(r) if r is not None else [perr]
        finally:
            if not o['ctapipe']:
                sys.modules.pop('ctapipe', None)
                sys.modules.update(saved)
        known = set(ALL) | set(NNLS) | set(USERCOLS)
        relevant = set(config) - {'reference_pulse_path', 'mapping', '_disable_by_default'}
        ev.append(dict(op='build', hasfile=o['hasfile'], file=settings(o['file']), kw=settings(o['kw']), ref=o['ref'],
                       mapping=o['mapping'], ctapipe=o['ctapipe'], err=err, columns=columns,
                       config=settings({k: config[k] for k in relevant}), dims=[c['n_pixels'], c['n_samples']],
                       made=[dict(name=n, dims=d, got=settings(k, set(SETTINGS))) for n, d, k in MADE]))


class Codes:
    """one code per distinct value (content compared within floating-point accuracy)"""
    def __init__(self):
        self.vals = []

    def __call__(self, v):
        import numpy as np
        a = np.array(v, copy=True)
        for i, x in enumerate(self.vals):
            if x.shape == a.shape and x.dtype.kind == a.dtype.kind and \
                    (np.array_equal(x, a) if a.dtype.kind not in 'fc' else np.allclose(x, a, rtol=1e-6, atol=1e-9, equal_nan=True)):
                return i
        self.vals.append(a)
        return len(self.vals) - 1


def replay_process(h, ev):
    import numpy as np
    from CHECLabPy.core.chain import WaveformReducerChain
    c = h['cfg']
    codes, chains, events, past = Codes(), {}, {}, []
    df, nb = grid_mapping(c['n_pixels'], 4)
    ref = ref_file(REFS[c['ref']])
    ev_in = c['events']
    for o in h['ops']:
        key = (o['config'], tuple(o['active']), o['inst'])
        if key not in chains:
            kw = {k: False for k in WaveformReducerChain.default_columns}
            kw.update({k: True for k in o['active']})
            kw.update(c['configs'][o['config']])
            chains[key] = WaveformReducerChain(c['n_pixels'], c['n_samples'], reference_pulse_path=ref, mapping=df, **kw)
        if o['event'] not in events:
            e = ev_in[o['event']]
            wf = (np.array(e['wf']) * e['scale'] + e.get('offset', 0)).astype(e['dtype'])
            if e['layout'] == 'F':
                wf = np.asfortranarray(wf)
            events[o['event']] = wf
        wf = events[o['event']]
        before = codes(wf)
        r, err = errname(chains[key].process, wf)
        after = codes(wf)
        res = [(k, v, ) for k, v in sorted((r or {}).items())]
        # values returned for earlier events, looked at again
        ev.append(dict(op='process', config=o['config'], event=o['event'], active=o['active'], err=err,
                       obs=[dict(col=k, code=codes(v)) for k, v in res], before=before, after=after,
                       past=[[codes(v) for _, v in p] for p in past]))
        past.append(res)


# ---------------------------------------------------------------- generation
def rand_settings(rng, file):
    d = {}
    cols = [c for c in ALL if c != 'flasher_unit']
    for c in rng.sample(cols + USERCOLS, rng.choice((0, 1, 3, 8, 25))):
        d[c] = weighted(rng, t=5, f=4, one=1, zero=1, none=1)
        d[c] = dict(t=True, f=False, one=1, zero=0, none=None)[d[c]]
    for c in rng.sample(NNLS, rng.choice((0, 0, 2))):
        d[c] = rng.choice((False, False, None, 0))
    for s in rng.sample(SETTINGS, rng.choice((0, 0, 1, 3))):
        d[s] = dict(window_size=rng.randint(3, 9), window_shift=rng.randint(0, 6), t_extract=rng.randint(10, 22),
                    some_setting=rng.choice((0, 3, 7)), other=rng.choice((1, 'text', None, 2.5)),
                    plot_timing=False)[s]
    if rng.random() < .1:
        d = {'flasher_unit': True, 'sp_max': True} if rng.random() < .5 else {}
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def build_history(rng):
    npix = 2048 if rng.random() < .03 else rng.choice((4, 8, 16))
    ops = []
    for _ in range(rng.randint(1, 4)):
        hf = rng.random() < .5
        o = dict(hasfile=hf, file=rand_settings(rng, True) if hf else {}, kw=rand_settings(rng, False) if rng.random() < .8 else {},
                 ref=rng.random() < .85, mapping=rng.random() < .85, ctapipe=rng.random() < .9, style=rng.random() < .5)
        if npix != 2048:
            for k in ('file', 'kw'):
                if 'flasher_unit' in o[k]:
                    o[k]['flasher_unit'] = False
        ops.append(o)
    return dict(cfg=dict(kind='build', n_pixels=npix, n_samples=32), ops=ops)


def from_settings(ops):
    """TLC-enumerated settings of a few names (Gen_Chain)"""
    return ops


def process_history(rng):
    npix, n = rng.choice((4, 8, 16)), rng.choice((24, 32, 64))
    cols = [c for c in ALL if c != 'flasher_unit'] + USERCOLS
    sets = [rng.sample(cols, rng.choice((1, 3, 10, len(cols)))) for _ in range(rng.randint(1, 3))]
    configs = [rng.choice((dict(), dict(window_size=5, window_shift=2), dict(t_extract=12), dict(some_setting=4)))
               for _ in range(rng.randint(1, 2))]
    events = []
    for _ in range(rng.randint(2, 5)):
        amp = rng.choice((10, 100, 400))
        events.append(dict(wf=rand_wf(rng, npix, n, amp), scale=rng.choice((1, .25, .1, 1 / 3.)),
                           dtype=rng.choice(('float32', 'float64')), layout=weighted(rng, C=6, F=1)))
        if events[-1]['dtype'] == 'float64' and rng.random() < .35:
            events[-1]['offset'] = rng.choice((3e4, 1e5, -2e5 / 3))     # more digits than single precision holds
    ops = [dict(config=rng.randrange(len(configs)), active=sorted(rng.choice(sets)), inst=rng.choice((0, 0, 0, 1)),
                event=rng.randrange(len(events))) for _ in range(rng.randint(3, 10))]
    return dict(cfg=dict(kind='process', n_pixels=npix, n_samples=n, ref=rng.randrange(len(REFS)), configs=configs, events=events),
                ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1013 + int(prop[1:]))
    k = 1 if tier == 'quick' else 12
    f = build_history if prop == 'C09' else process_history
    return [f(rng) for _ in range((400 if prop == 'C09' else 250) * k)]
