"""Camera display driver (C22)."""
import os, random, warnings
from .common import *

TIME_LIMIT = 60
KEEP = {}


def concretise(hists, seed):
    """TLC histories: a patch display and a grid display of two pixels"""
    new = [dict(op='new', kind=k, src='two', bad=False) for k in ('patch', 'grid')]
    for h in hists:
        for i, o in enumerate(h):
            if o['op'] == 'highlight':
                o['form'] = ('list', 'array', 'mask')[i % 3]
    return [dict(ops=new + h) for h in hists]


def vals(v, dt):
    import numpy as np
    code = {NAN: np.nan, PINF: np.inf, NINF: -np.inf}
    a = np.array([code.get(x, x / 8) for x in v], dtype=float)
    return a if dt == 'f' else a.astype(dict(i=int, f4=np.float32, b=bool)[dt])


def shown(a):
    """a possibly masked array as codes, masked values as not a number"""
    import numpy as np
    return qs(np.ma.filled(np.ma.asarray(a).astype(float), np.nan), 8)


def source(o, maps):
    """-> (pixels, size in micrometres, rows, columns, mapping or None)"""
    import numpy as np
    src = o['src']
    if src == 'two':
        p = [dict(row=0, col=c, x=c * 10000, y=0, slot=0) for c in range(2)]
        return p, 10000, 1, 2, None
    if src == 'plain':      # any arrangement of pixels, in any order
        rng = random.Random(o['num'])
        R, C = o['R'], o['C']
        cells = [(r, c) for r in range(R) for c in range(C)]
        if o.get('corners'):
            cells = [(r, c) for r, c in cells if not (min(r, R - 1 - r) < R // 6 and min(c, C - 1 - c) < C // 6)]
        rng.shuffle(cells)
        return [dict(row=r, col=c, x=c * 11000 - 3000, y=r * 9000 + 500, slot=0) for r, c in cells], 8000, R, C, None
    from CHECLabPy.utils import mapping as M
    if src not in maps:
        v, _, k = src.partition('/')
        m = M.get_clp_mapping_from_version(v, False)
        if k:
            m = dict(sp=M.get_superpixel_mapping, tm=M.get_tm_mapping)[k](m)
        maps[src] = m
    m = maps[src]
    g = m.metadata
    p = [dict(row=int(r['row']), col=int(r['col']), x=q(r['xpix'], 1e6), y=q(r['ypix'], 1e6), slot=int(r['slot'])) for _, r in m.iterrows()]
    return p, q(g['size'], 1e6), int(g['n_rows']), int(g['n_columns']), m


def observe(ci, kind, hls):
    import numpy as np
    from matplotlib.patches import Circle, FancyArrow
    o = {}
    art = ci.pixels if kind == 'patch' else ci.camera
    lim = art.get_clim()
    o['lim'] = [NAN if v is None or np.ma.is_masked(v) else q(v, 8) for v in lim]
    ci.fig.canvas.draw()
    o['v'] = shown(art.get_array())
    o['texts'] = [[q(t.get_position()[0], 1e6), q(t.get_position()[1], 1e6), t.get_text()] for t in ci.ax.texts]
    o['arrows'] = sum(isinstance(x, FancyArrow) for x in ci.ax.patches)
    o['discs'] = sum(isinstance(x, Circle) for x in ci.ax.patches)
    o['hl'] = []
    o['painted'], o['pos'] = True, []
    if kind == 'patch':
        o['painted'] = bool(np.array_equal(art.get_facecolor(), art.cmap(art.norm(art.get_array())))) and bool((np.asarray(art.get_linewidths()) == 0).all())
        for p in art.get_paths():
            b = p.get_extents()
            o['pos'].append([q((b.x0 + b.x1) / 2, 1e6), q((b.y0 + b.y1) / 2, 1e6), q(b.width, 1e6), q(b.height, 1e6)])
        import matplotlib.colors as mc
        for h, color in hls:
            lw = np.asarray(h.get_linewidths(), dtype=float)
            ec, fc = h.get_edgecolor(), h.get_facecolor()
            ok = h in list(ci.ax.collections) and len(lw) == ci.n_pixels and len(fc) == 0 and len(ec) == 1 and np.allclose(ec[0][:3], mc.to_rgb(color))
            o['hl'].append(dict(on=[i + 1 for i in range(len(lw)) if lw[i] > 0], lw=sorted({q(x, 8) for x in lw if x > 0}), outline=bool(ok)))
    return o


def replay(h, ev):
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    warnings.simplefilter('ignore')
    plt.close('all')
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    maps = KEEP
    D = []          # displays: [object, kind, highlights, last array, open]
    n = 0
    out = os.path.join(scratch(), 'camera')
    for o in h['ops']:
        e = dict(o, err='')
        op = o['op']
        if op == 'new':
            cls = CameraImage if o['kind'] == 'patch' else CameraImageImshow
            p, size, nr, nc, m = source(o, maps)
            e.update(p=p, size=size, nr=nr, nc=nc, mapped=m is not None, up=0)
            ks = {'cmap': 'plasma'} if o.get('cmap') and o['kind'] == 'patch' else {}
            if o.get('ax'):
                ks['ax'] = plt.figure().add_subplot(1, 1, 1)
            if m is not None:
                g = m.metadata
                e['up'] = dict(zip(('xl', 'yl', 'xu', 'yu', 'cl', 'rl', 'cu', 'ru'),
                                   [q(g['fOTUp' + k], 1e6) for k in ('X_l', 'Y_l', 'X_u', 'Y_u', 'Col_l', 'Row_l', 'Col_u', 'Row_u')]))
                if o.get('via') == 'version':
                    r, e['err'] = errname(cls.from_camera_version, o['src'], **ks)
                else:
                    r, e['err'] = errname(cls.from_mapping, m, **ks)
            else:
                a, b = ('x', 'y') if o['kind'] == 'patch' else ('row', 'col')
                s = 1e6 if o['kind'] == 'patch' else 1
                a, b = (np.array([c[k] for c in p]) for k in (a, b))
                if s != 1:
                    a, b = a / s, b / s
                if o['bad']:
                    b = b[:-1]
                r, e['err'] = errname(cls, a, b, size / 1e6, **ks) if o['kind'] == 'patch' else errname(cls, a, b, nr, nc, **ks)
            if not e['err']:
                D.append([r, o['kind'], [], None, True])
        else:
            d = D[o['d'] - 1]
            ci = d[0]
            before = len(ci.ax.texts)
            if op == 'image':
                a = vals(o['v'], o.get('dt', 'f'))
                prev = ci.image
                try:
                    ci.image = a
                except Exception as x:
                    e['err'] = type(x).__name__
                if not e['err']:
                    d[3] = a
                e['same'] = ci.image is a or bool(ci.image is not None and np.array_equal(ci.image, a, equal_nan=a.dtype.kind == 'f'))
                if e['err']:
                    e['same'] = ci.image is prev
            elif op == 'mutate':        # the caller reuses its array
                if d[3] is not None:
                    d[3] += 1 if d[3].dtype.kind != 'b' else True
                    d[3] = None
            elif op == 'limits':
                _, e['err'] = errname(ci.set_limits_minmax, o['lo'] / 8, o['hi'] / 8)
            elif op == 'reset':
                _, e['err'] = errname(ci.reset_limits)
            elif op == 'log':
                _, e['err'] = errname(ci.set_z_log)
            elif op == 'colorbar':
                _, e['err'] = errname(ci.add_colorbar, 'label')
                e['bound'] = ci.colorbar is not None and ci.colorbar.mappable is (ci.pixels if d[1] == 'patch' else ci.camera)
            elif op == 'cmap':
                _, e['err'] = errname(ci.set_cmap, o['name'])
                e['got'] = ci.pixels.get_cmap().name
            elif op == 'highlight':
                sel = [i - 1 for i in o['sel']]
                if o['form'] == 'array':
                    sel = np.array(sel, dtype=int)
                elif o['form'] == 'mask':
                    x = np.zeros(ci.n_pixels, dtype=bool)
                    x[sel] = True
                    sel = x
                k = len(ci.ax.collections)
                color = o.get('color', 'g')
                r, e['err'] = errname(ci.highlight_pixels, sel, color, o['lw'] / 8)
                e['added'] = len(ci.ax.collections) == k + 1
                if not e['err']:
                    d[2].append((r, color))
            elif op == 'text':
                _, e['err'] = errname(ci.add_text_to_pixel, o['i'] - 1, o['t'] if not o.get('num') else int(o['t']))
            elif op == 'texts':
                _, e['err'] = errname(ci.add_pixel_text, np.array([int(x) for x in o['ts']]) if o.get('num') else np.array(o['ts']))
            elif op in ('edge', 'led', 'up'):
                k = len(ci.ax.patches)
                f = dict(edge='annotate_tm_edge_label', led='annotate_led_flasher', up='annotate_on_telescope_up')[op]
                _, e['err'] = errname(getattr(ci, f))
                e['added'] = [[q(t.get_position()[0], 1e6), q(t.get_position()[1], 1e6), t.get_text()] for t in ci.ax.texts[before:]]
                if op == 'up':
                    a = [x for x in ci.ax.patches[k:]]
                    e['arrow'] = [q(getattr(a[0], '_' + c), 1e6) for c in ('x', 'y', 'dx', 'dy')] if len(a) == 1 else []
                elif op == 'led':
                    c = [[q(x.center[0], 1e6), q(x.center[1], 1e6)] for x in ci.ax.patches[k:]]
                    if c != [t[:2] for t in e['added']]:
                        e['added'] = [['discs elsewhere']]
            elif op == 'save':
                n += 1
                path = os.path.join(out, 'd%d' % n, 'x.' + o['ext'])
                _, e['err'] = errname(ci.save, path, dpi=20)
                e['saved'] = os.path.exists(path) and os.path.getsize(path) > 0
                d[4] = False
        e['obs'] = [observe(d[0], d[1], d[2]) if d[4] else 0 for d in D]
        ev.append(e)
    plt.close('all')
    return dict(n=0)


def image(rng, n, log, dt):
    pool = [rng.randint(-40, 400) for _ in range(3)] + ([NAN] if rng.random() < .5 else []) + ([PINF, NINF] if rng.random() < .2 else [])
    v = [rng.choice(pool) if rng.random() < .5 else rng.randint(-80, 800) for _ in range(n)]
    if rng.random() < .1:
        v = [rng.choice((NAN, 16, -8))] * n
    if dt == 'i':
        v = [8 * (x // 8) if abs(x) < 10 ** 6 else 8 for x in v]
    if dt == 'b':
        v = [8 * rng.randint(0, 1) for _ in range(n)]
    if log and not any(0 < x < PINF for x in v):
        v[rng.randrange(n)] = 24
    return v


def hist(rng, quick=True):
    ops, D = [], []

    def new():
        kind = rng.choice(('patch', 'patch', 'grid'))
        o = dict(op='new', kind=kind, bad=False)
        r = rng.random()
        if r < .6:
            R, C = rng.choice(((1, 1), (1, 3), (2, 2), (3, 2), (2, 4), (4, 4), (6, 6), (6, 6), (6, 6), (5, 6), (24, 24)))
            o.update(src='plain', R=R, C=C, num=rng.randint(0, 999))
            k = R * C
            if R == C and R in (6, 24) and rng.random() < .5:
                o['corners'] = True
                k -= 4 * (R // 6) ** 2
        elif r < .8:
            o['src'] = rng.choice(('1.1.0/tm', 'stub:2x2/sp', 'stub:2x1/tm', 'stub:1x1/sp', 'stub:2x3/tm'))
            k = {'1.1.0/tm': 32, 'stub:2x2/sp': 64, 'stub:2x1/tm': 2, 'stub:1x1/sp': 16, 'stub:2x3/tm': 6}[o['src']]
        else:
            o.update(src='stub:1x1', via=rng.choice(('', 'version')))
            k = 64
        if rng.random() < .2:
            o['cmap'] = True
        if rng.random() < .2:
            o['ax'] = True
        ops.append(o)
        D.append(dict(kind=kind, n=k, log=False, img=None, open=True, mapped=o['src'] != 'plain'))
    for _ in range(rng.choice((1, 1, 2, 3))):
        new()
    if rng.random() < .1:
        ops.append(dict(op='new', kind=rng.choice(('patch', 'grid')), src='plain', R=2, C=2, num=1, bad=True))
    for _ in range(rng.randint(3, 9)):
        i = rng.randrange(len(D))
        d = D[i]
        if not d['open']:
            continue
        n = d['n']
        op = weighted(rng, image=8, wrong=1, mutate=1, limits=2, reset=2, colorbar=1, text=1, texts=.5, up=.5, edge=1, **(
            dict(log=1.5, cmap=.5, highlight=2, led=.3) if d['kind'] == 'patch' else {}))
        o = dict(op=op, d=i + 1)
        if op == 'image':
            o['dt'] = rng.choice(('f', 'f', 'f', 'i', 'f4') + (() if d['log'] else ('b',)))
            o['v'] = d['img'] = image(rng, n, d['log'], o['dt'])
        elif op == 'wrong':
            o.update(op='image', dt='f', v=[8] * rng.choice((n + 1, max(0, n - 1), 2 * n) if n > 1 else (2, 3)))
        elif op == 'limits':
            o['lo'] = rng.choice((8, 16, 100) if d['log'] else (-80, 0, 8, 100))
            o['hi'] = o['lo'] + rng.choice((8, 80, 801))
        elif op == 'log':
            if d['img'] is None or d['log'] or not any(0 < x < PINF for x in d['img']):
                continue
            d['log'] = True
        elif op == 'cmap':
            o['name'] = rng.choice(('viridis', 'gray', 'plasma'))
        elif op == 'highlight':
            sel = rng.sample(range(1, n + 1), rng.randint(0, n))
            o.update(sel=sel, form=rng.choice(('list', 'array', 'mask')), lw=rng.choice((4, 8, 16)), color=rng.choice('grk'))
        elif op == 'text':
            o.update(i=rng.randint(1, n), t=rng.choice(('a', 'bc', '12')))
            if o['t'] == '12':
                o['num'] = True
        elif op == 'texts':
            if n > 40:
                continue
            k = n if rng.random() < .8 else n + 1
            o.update(ts=[str(rng.randint(0, 99)) for _ in range(k)], num=rng.random() < .5)
        elif op == 'mutate' and d['img'] is None:
            continue
        elif op == 'edge' and not d['mapped'] and rng.random() < .5:
            continue
        ops.append(o)
    if rng.random() < .15:
        ops.append(dict(op='save', d=rng.choice([i + 1 for i in range(len(D))]), ext=rng.choice(('png', 'pdf'))))
    return dict(ops=ops)


def full(rng, kind, src):
    n = {'1.1.0': 2048, '1.1.0/sp': 512}[src]
    o = [dict(op='new', kind=kind, src=src, bad=False)]
    o += [dict(op='image', d=1, dt='f', v=image(rng, n, False, 'f'))]
    o += [dict(op='edge', d=1), dict(op='highlight', d=1, sel=rng.sample(range(1, n + 1), 300), form='mask', lw=4) if kind == 'patch' else dict(op='up', d=1)]
    return dict(ops=o)


def generate(prop, tier, seed):
    rng = random.Random(seed * 811 + 22)
    k = 1 if tier == 'quick' else 12
    return ([hist(rng) for _ in range(220 * k)] + [full(rng, a, b) for a in ('patch', 'grid') for b in ('1.1.0', '1.1.0/sp')])
