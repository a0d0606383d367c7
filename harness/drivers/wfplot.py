"""Waveform plot driver (C28): the real plotters on an off-screen canvas, panels read back from the figures."""
import contextlib, io, os, random, re, shutil, tempfile, warnings
from .common import *

TIME_LIMIT = 120
ASIC = ['firebrick', 'dodgerblue', 'darkgreen', 'orchid']


def cam_cfg(c):
    """-> (mapping, spec geometry)"""
    import pandas as pd
    from CHECLabPy.utils.mapping import get_clp_mapping_from_tc_mapping
    if c['kind'] == 'stub':
        from target_calib import Mapping
        m = get_clp_mapping_from_tc_mapping(Mapping('cfg-' + c['version']))
        side, tmpix = 8, 64
    else:       # 6x6 modules of side x side pixels, pixel numbers in a given order within the module
        side, tmpix = c['side'], c['side'] ** 2
        rng = random.Random(c['num'])
        mods = list(range(36))
        rng.shuffle(mods)
        rows = []
        for slot, k in enumerate(mods):
            cells = [(i, j) for i in range(side) for j in range(side)]
            rng.shuffle(cells)
            rows += [dict(pixel=slot * tmpix + t, slot=slot, asic=0, channel=t, tmpix=t, row=k // 6 * side + i, col=k % 6 * side + j, sipmpix=t, superpixel=slot,
                          xpix=(k % 6 * side + j) * .1, ypix=(k // 6 * side + i) * .1) for t, (i, j) in enumerate(cells)]
        m = pd.DataFrame(rows)
        m.metadata = dict(cfgfile='', is_single_module=False, n_pixels=len(m), n_modules=36, n_tmpix=tmpix, n_superpixels=36, n_rows=6 * side, n_columns=6 * side, size=.1)
    d = m.sort_values('pixel')
    return m, dict(cam=[[int(a), int(b)] for a, b in zip(d['row'], d['col'])], slot=[int(x) for x in d['slot']], rows=int(m.metadata['n_rows']),
                   cols=int(m.metadata['n_columns']), side=side, tmpix=tmpix)


def colour(c):
    import matplotlib.colors as mc
    for n in ASIC + ['black', 'red', 'lime', 'white']:
        if mc.to_hex(c) == mc.to_hex(n):
            return n
    return mc.to_hex(c)


def spines(ax):
    s = [ax.spines[k] for k in ('left', 'right', 'bottom', 'top')]
    vis = [bool(x.get_visible()) for x in s]
    cols = {colour(x.get_edgecolor()) for x in s}
    lws = {q(x.get_linewidth(), 100) for x in s}
    return [vis, cols.pop() if len(cols) == 1 else 'mixed', lws.pop() if len(lws) == 1 else BAD]


def curves(ax, ns):
    return [l for l in ax.lines if len(l.get_xdata()) == ns and l.get_transform() == ax.transData]


def panel(kind, ax, ns, npix, tmpix, before, shades):
    import numpy as np
    ls = curves(ax, ns)[before:]
    wide = [l for l in ls if l.get_color() != 'black']
    mean = [l for l in ls if l.get_color() == 'black']
    ok = all(np.array_equal(l.get_xdata(), np.arange(ns)) for l in ls)
    o = dict(curves=[qs(l.get_ydata(), 1) if ok else [BAD] for l in wide], lim=[q(x, 1) for x in ax.get_xlim() + ax.get_ylim()])
    if kind == 'tm':
        o['asic'] = [ASIC.index(colour(l.get_color())) if colour(l.get_color()) in ASIC else BAD for l in wide]
        o['means'] = [qs(np.asarray(l.get_ydata()) * k, 1) for l, k in zip(mean, (npix, tmpix))] if len(mean) == 2 else [[BAD]]
        t = ax.texts[-1].get_text()
        o['dim'] = [[int(x) for x in m] for m in re.findall(r'\[(\d+)\|(\d+)\]', t)]
        if t != ''.join('[%d|%d]\n' % tuple(x) for x in o['dim']):
            o['dim'] = [[BAD, BAD]]
    else:
        o['means'] = [qs(np.asarray(l.get_ydata()) * npix, 1) for l in mean]
        o['shade'] = shades.get(tuple(np.round(ax.get_facecolor(), 6)), BAD)
    return o


def replay(h, ev):
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from CHECLabPy.plotting.waveform import WaveformPlotter, CameraTMWaveformPlotter, CameraPixelWaveformPlotter
    warnings.simplefilter('ignore')
    shades = {tuple(np.round(matplotlib.cm.viridis(i), 6)): i for i in range(255, -1, -1)}
    cams = [cam_cfg(c) for c in h['cams']]
    figs = []
    out = io.StringIO()
    d = tempfile.mkdtemp(dir=scratch())
    grid = lambda ax: (ax.get_subplotspec().rowspan.start, ax.get_subplotspec().colspan.start)

    def panels(p):
        return sorted(p.ax_dict.items())
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            for o in h['ops']:
                e, op = dict(o, err=''), o['op']
                if op == 'new':
                    m, c = cams[o['cam'] - 1]
                    p, e['err'] = errname(*((CameraTMWaveformPlotter, m, 'title') if o['kind'] == 'tm' else (CameraPixelWaveformPlotter, m)))
                    if not e['err']:
                        figs.append([p, o['kind'], c, {}])
                        e['panels'] = [[int(k), *grid(a)] for k, a in panels(p)]
                        e['labels'] = [[int(x) for x in re.findall(r'\d+', a.texts[0].get_text())] for _, a in panels(p)]
                        e['spines'] = [spines(a) for _, a in panels(p)] if o['kind'] == 'pixel' else []
                elif op == 'plot':
                    p, kind, c, n = figs[o['k'] - 1]
                    w = np.array(o['wf'], dtype=o['dt'])
                    ns = w.shape[1]
                    n0 = [len(curves(a, ns)) for _, a in panels(p)]
                    a = (o['num'] / o['den'],) if kind == 'tm' and not o['default'] else ()
                    _, e['err'] = errname(p.plot_waveforms, w, *a)
                    if not e['err']:
                        e['obs'] = [panel(kind, a, ns, len(w), c['tmpix'], b, shades) for (_, a), b in zip(panels(p), n0)]
                elif op == 'highlight':
                    p = figs[o['k'] - 1][0]
                    mask = np.array(o['mask'])
                    _, e['err'] = errname(p.highlight_pixels, mask, *([o['colour']] if o['colour'] != 'red' else []))
                    e['spines'] = [spines(a) for _, a in panels(p)]
                elif op == 'reset':
                    p = figs[o['k'] - 1][0]
                    _, e['err'] = errname(p.reset_pixel_highlight)
                    e['spines'] = [spines(a) for _, a in panels(p)]
                elif op == 'single':
                    p, e['err'] = errname(WaveformPlotter, o['title'], o['units'], o['tunits'])
                    for l in o['lines']:
                        p.add(np.array(l['x']) if l['x'] else None, np.array(l['y']), l['label'])
                    path = os.path.join(d, *o['path'].split('/'))
                    _, e['err'] = errname(p.save, path)
                    e['xy'] = [[qs(x.get_xdata(), 1), qs(x.get_ydata(), 1), x.get_label()] for x in p.ax.lines]
                    e['axes'] = [p.ax.get_title(), p.ax.get_xlabel(), p.ax.get_ylabel()]
                    e['saved'] = os.path.exists(path) and os.path.getsize(path) > 100
                    e['closed'] = not plt.fignum_exists(p.fig.number)
                e['total'] = [[len(curves(a, h['ns'])) for _, a in panels(f[0])] for f in figs]
                ev.append(e)
                if e['err']:
                    break
        return dict(cams=[c for _, c in cams])
    finally:
        plt.close('all')
        shutil.rmtree(d)


def rwf(rng, npix, ns):
    hi = rng.choice((5, 60, 60))
    w = [[rng.randint(0, hi) for _ in range(ns)] for _ in range(npix)]
    for p in range(npix):
        if rng.random() < .7:
            w[p][rng.randrange(ns)] += rng.randint(0, 90)
        if rng.random() < .1:
            w[p] = [x - 40 for x in w[p]]
    return w


def history(rng, heavy=False):
    ns = rng.choice((5, 8, 16))
    if heavy:
        cams = [dict(kind='own', side=rng.choice((1, 1, 2)), num=rng.randrange(99))]
        kinds = ['pixel']
    else:
        cams = [dict(kind='stub', version=rng.choice(('stub:1x1', 'stub:1x2', 'stub:2x2', 'stub:2x1', 'stub:2x2:0-1', 'stub:2x3:0-0,1-2', 'stub:3x2:2-0'))) for _ in range(rng.choice((1, 2)))]
        kinds = ['tm']
    ops, figs = [], []

    def new():
        k = rng.randrange(len(cams))
        ops.append(dict(op='new', k=len(figs) + 1, cam=k + 1, kind=rng.choice(kinds)))
        figs.append((ops[-1]['kind'], cams[k]))

    def npix(c):
        if c['kind'] == 'own':
            return 36 * c['side'] ** 2
        p = c['version'].split(':')
        r, k = (int(x) for x in p[1].split('x'))
        return 64 * (r * k - (len(p[2].split(',')) if len(p) > 2 else 0))
    new()
    for _ in range(rng.randint(2, 5)):
        op = weighted(rng, new=.7, plot=3, highlight=3 if heavy else 0, reset=1.5 if heavy else 0, single=.6)
        if op == 'new':
            if len(figs) < 2:
                new()
        elif op == 'single':
            s = lambda: ''.join(rng.choice('abc xyz') for _ in range(rng.randint(1, 6))).strip()
            n = rng.randint(2, 6)
            ops.append(dict(op='single', title=s(), units=rng.choice(('', 'mV')), tunits=rng.choice(('ns', '', 'samples')), path=rng.choice(('a.png', 'new/dir/b.png', 'c.pdf')),
                            lines=[dict(x=rng.choice(([], [rng.randint(0, 50) for _ in range(n)])), y=[rng.randint(-9, 99) for _ in range(n)], label='l%d' % i) for i in range(rng.randint(1, 3))]))
        else:
            k = rng.randrange(len(figs))
            kind, c = figs[k]
            o = dict(op=op, k=k + 1)
            if op == 'plot':
                o.update(wf=rwf(rng, npix(c), ns), dt=rng.choice(('f8', 'f4', 'i8')), num=rng.choice((1, 3, 9, 5)), den=rng.choice((4, 10, 3)), default=rng.random() < .4)
                if o['default']:
                    o.update(num=3, den=4)
            elif op == 'highlight':
                o.update(mask=[rng.random() < .3 for _ in range(npix(c))], colour=rng.choice(('red', 'red', 'lime')))
            ops.append(o)
    return dict(cams=cams, ns=ns, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1907 + 28)
    k = 1 if tier == 'quick' else 10
    return [history(rng) for _ in range(26 * k)] + [history(rng, True) for _ in range(26 * k)]
