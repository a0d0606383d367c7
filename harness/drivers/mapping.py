"""Camera geometry driver (C21)."""
import copy, random, warnings
from .common import *

TIME_LIMIT = 60


def table(h):
    """the pixel table of a history's layout (integers, micrometres)"""
    rng = random.Random(h['num'])
    R, C, P, G = h['R'], h['C'], h['pitch'], h['gap']
    mods = [(r, c) for r in range(R) for c in range(C) if [r, c] not in h['missing']]
    slots = list(range(len(mods)))
    if h['shuffle']:
        rng.shuffle(slots)
    if h['sparse']:
        slots = [2 * s + 1 for s in slots]
    rows = []
    for s, (mr, mc) in zip(slots, mods):
        sps = list(range(16))
        if h['shuffle']:
            rng.shuffle(sps)
        for t in range(64):
            pr, pc = t // 8, t % 8
            row, col = mr * 8 + pr, mc * 8 + pc
            rows.append(dict(slot=s, asic=(pr // 4) * 2 + pc // 4, sp=s * 16 + sps[(pr // 2) * 4 + pc // 2], row=row, col=col,
                             x=h['x0'] + col * P + mc * G, y=h['y0'] + row * P + mr * G))
    if h['shuffle']:
        rng.shuffle(rows)
    else:
        rows.sort(key=lambda r: (r['slot'], r['sp']))
    for i, r in enumerate(rows):
        r['px'] = i
        if h.get('jitter'):
            r['x'] += rng.randint(0, h['jitter'])
            r['y'] += rng.randint(0, h['jitter'])
    return rows


def make(h):
    import numpy as np
    import pandas as pd
    t = table(h)
    df = pd.DataFrame(dict(pixel=[r['px'] for r in t], slot=[r['slot'] for r in t], asic=[r['asic'] for r in t], channel=[i % 16 for i in range(len(t))],
                           superpixel=[r['sp'] for r in t], row=[r['row'] for r in t], col=[r['col'] for r in t],
                           xpix=[r['x'] / 1e6 for r in t], ypix=[r['y'] / 1e6 for r in t]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df.metadata = dict(cfgfile='f', is_single_module=len(t) == 64, n_pixels=len(t), n_modules=len(t) // 64, n_tmpix=64, n_superpixels=len(t) // 4,
                           n_rows=8 * h['R'], n_columns=8 * h['C'], size=h['pitch'] / 1e6, fOTUpRow_l=1, fOTUpRow_u=3, fOTUpCol_l=1, fOTUpCol_u=1,
                           fOTUpX_l=.1, fOTUpX_u=.1, fOTUpY_l=.1, fOTUpY_u=.2)
    return t, df


def replay(h, ev):
    import numpy as np
    from CHECLabPy.utils import mapping as M
    warnings.simplefilter('ignore')
    if h.get('version'):
        df = M.get_clp_mapping_from_version(h['version'], h['single'])
        t = [dict(px=int(r.pixel), slot=int(r.slot), asic=int(r.asic), sp=int(r.superpixel), row=int(r.row), col=int(r.col), x=q(r.xpix, 1e6), y=q(r.ypix, 1e6))
             for r in df.itertuples()]
    else:
        t, df = make(h)
    d0, md0 = df.copy(), copy.deepcopy(df.metadata)
    new = ('n_rows', 'n_columns', 'size')
    for o in h['ops']:
        e = dict(o, err='')
        op = o['op']
        if op in ('superpixel', 'module'):
            r, e['err'] = errname(M.get_superpixel_mapping if op == 'superpixel' else M.get_tm_mapping, df)
            if not e['err']:
                k = 4 if op == 'superpixel' else 64
                n = 'superpixel' if op == 'superpixel' else 'slot'
                e['rows'] = [dict(id=q(x[n], 1), slot=q(x['slot'], 1), asic=q(x['asic'], 1) if 'asic' in r else 0, row=q(x['row'], 1), col=q(x['col'], 1),
                                  x=q(x['xpix'], 1e6 * k), y=q(x['ypix'], 1e6 * k)) for _, x in r.iterrows()]
                e['md'] = dict(n_rows=q(r.metadata['n_rows'], 1), n_columns=q(r.metadata['n_columns'], 1), size=q(r.metadata['size'], 1e6))
                e['mdrest'] = {a: b for a, b in r.metadata.items() if a not in new} == {a: b for a, b in md0.items() if a not in new}
        elif op == 'rowcol':
            at = list(range(1, len(t) + 1))
            if o['order']:
                random.Random(o['order']).shuffle(at)
            x, y = (df[c].values[np.array(at) - 1].copy() for c in ('xpix', 'ypix'))
            x, y = x + o['dx'], y + o['dy']
            b = x.copy(), y.copy()
            r, e['err'] = errname(M.get_row_column, x, y)
            e['at'] = at
            e['same'] = bool((x == b[0]).all() and (y == b[1]).all())
            if not e['err']:
                e['rows'], e['cols'] = qs(r[0], 1), qs(r[1], 1)
        elif op == 'geometry':
            r, e['err'] = errname(M.get_ctapipe_camera_geometry, df)
            if not e['err']:
                e.update(id=qs(r.pix_id, 1), x=qs(r.pix_x.to('m').value, 1e6), y=qs(r.pix_y.to('m').value, 1e6))
        elif op == 'counts':
            g = df.metadata
            e.update(md={a: q(g[a], 1) for a in ('n_pixels', 'n_modules', 'n_tmpix', 'n_superpixels', 'n_rows', 'n_columns')}, single=bool(g['is_single_module']) == bool(h['single']))
        elif op == 'roundtrip':
            def f():
                r = M.get_clp_mapping_from_tc_mapping(M.get_tc_mapping_from_clp_mapping(df))
                return r.equals(d0) and r.metadata == md0
            r, e['err'] = errname(f)
            e['equal'] = bool(r)
        e['kept'] = df.equals(d0) and df.metadata == md0
        ev.append(e)
    return dict(m=t, size=q(md0['size'], 1e6))


def rowcol(rng):
    return dict(op='rowcol', order=rng.choice((0, 0, rng.randint(1, 99))), dx=rng.choice((0, 0, .25, -1)), dy=rng.choice((0, 0, .125, 3)))


def hist(rng):
    small = rng.random() < .75
    R, C = rng.choice(((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 2)) if small else ((3, 3), (2, 5), (3, 4), (4, 3), (5, 2)))
    miss = [c for c in ([0, 0], [0, C - 1], [R - 1, 0], [R - 1, C - 1]) if rng.random() < .5] if min(R, C) > 2 else []
    if R == C == 2 and rng.random() < .4:
        miss = [rng.choice(([0, 0], [0, 1], [1, 0], [1, 1]))]
    h = dict(R=R, C=C, missing=miss, pitch=rng.choice((6000, 6250, 7001, 100)), gap=rng.choice((0, 700, 2000, 12, 6000, 15000)), shuffle=rng.random() < .7,
             sparse=rng.random() < .3, num=rng.randint(0, 9999), x0=rng.choice((0, -50000, 1234)), y0=rng.choice((0, -50000, 999)))
    if h['pitch'] == 100:
        h['gap'] = rng.choice((0, 10, 250))
    ops = [dict(op=weighted(rng, superpixel=2, module=2, geometry=1)) for _ in range(3)] if R * C <= 4 else [dict(op='module')]
    if rng.random() < .3:
        h['jitter'] = 300
    else:
        ops += [rowcol(rng) for _ in range(2)]
    rng.shuffle(ops)
    return dict(h, ops=ops)


def stub_hist(rng):
    v = rng.choice(('stub:1x1', 'stub:1x2', 'stub:2x2', 'stub:2x2:0-1'))
    ops = [dict(op='counts')] + [dict(op=rng.choice(('superpixel', 'module', 'geometry', 'roundtrip'))) for _ in range(3)] + [rowcol(rng)]
    return dict(version=v, single=rng.random() < .3, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 911 + 21)
    k = 1 if tier == 'quick' else 12
    return ([hist(rng) for _ in range(90 * k)] + [stub_hist(rng) for _ in range(15 * k)]
            + [dict(version='1.1.0', single=False, ops=[rowcol(rng), dict(op='roundtrip'), dict(op='geometry')])])
