"""Pixel mask driver (C14).  The package is copied into the worker's scratch directory, because
committing writes into the package."""
import os, random, re, shutil, sys
from .common import *

TIME_LIMIT = 90


def copy_package():
    d = os.path.join(scratch(), 'snap')
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(os.environ['VF_REPO'], 'CHECLabPy'), os.path.join(d, 'CHECLabPy'),
                        ignore=shutil.ignore_patterns('__pycache__'))
    sys.path.insert(0, d)
    import CHECLabPy.calib
    assert os.path.realpath(CHECLabPy.calib.__file__).startswith(os.path.realpath(d)), 'not the scratch copy'


def setup(job):
    copy_package()
    fake_clock()


class Clock:
    t = None


def fake_clock():
    """the clock of the module under test is a history's own (wherever it uses datetime)"""
    import datetime, types
    import CHECLabPy.calib.pixel_masks as m

    class FakeDT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls(*Clock.t) if Clock.t else datetime.datetime.now(tz)

        utcnow = now
    mod = types.ModuleType('datetime')
    mod.__dict__.update(vars(datetime), datetime=FakeDT)
    for k, v in list(vars(m).items()):
        if v is datetime.datetime:
            setattr(m, k, FakeDT)
        elif v is datetime:
            setattr(m, k, mod)


def mask_dir():
    import CHECLabPy.calib
    return os.path.join(os.path.dirname(CHECLabPy.calib.__file__), 'data', 'pixel_masks')


def fname(date, time, pad=True):
    return 'd%06dT%s.dat' % (date, '%04d' % time if pad else '%d' % time)


def write_file(path, f, order, extra):
    import pandas as pd
    d = dict(pixel=list(range(2048)))
    for c, k in (('dead', 'dead'), ('low', 'low'), ('bad_hv', 'pix')):
        s = set(f[k])
        d[c] = [i in s for i in range(2048)]
    if extra:
        d['comment'] = ['x'] * 2048
    cols = list(d)
    random.Random(order).shuffle(cols)
    pd.DataFrame(d)[cols].to_csv(path, sep='\t', index=False)


def idx(a):
    import numpy as np
    a = np.asarray(a)
    return [int(i) for i in np.nonzero(a)[0]] if a.ndim == 1 and a.dtype == bool else [BAD]


def observe(inst):
    out = []
    for i, m in inst.items():
        am = m.all_mask
        out.append(dict(inst=i, dead=idx(m.dead), low=idx(m.low), hv=idx(m.bad_hv), all=idx(am), nall=len(am),
                        sizes=[len(m.dead), len(m.low), len(m.bad_hv)]))
    return out


def clock():
    """the current minute, local and UTC"""
    import datetime as dt
    return [[int(n.strftime('%y%m%d')), int(n.strftime('%H%M'))] for n in (dt.datetime.now(), dt.datetime.utcnow())]


def listing(d):
    """content identity of every mask file"""
    out = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), 'rb') as fh:
            out[f] = (fh.read(), os.stat(os.path.join(d, f)).st_mtime_ns)
    return out


def can_merge(m):
    """merging has no public entry point: it is exercised where the loading method offers it"""
    import inspect
    try:
        return {'path', 'merge'} <= set(inspect.signature(m._load_file).parameters)
    except AttributeError:
        return False


def plot(m):
    """the image on show when the masks are plotted, in halves (not a number: not flagged)"""
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from matplotlib.collections import PatchCollection
    plt.close('all')
    seen = []

    def look(*a, **k):
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                seen.extend(c for c in ax.collections if isinstance(c, PatchCollection) and c.get_array() is not None)
    show, plt.show = plt.show, look
    try:
        _, err = errname(m.plot)
    finally:
        plt.show = show
    img = [np.ma.filled(np.ma.asarray(c.get_array()).astype(float), np.nan) for c in seen]
    plt.close('all')
    # sparse: the flagged pixels and what they are shown as
    return dict(err=err, nimg=len(img), npix=len(img[0]) if img else 0,
                img=[[int(i), q(img[0][i], 2)] for i in np.nonzero(~np.isnan(img[0]))[0]] if img else [])


def replay(h, ev):
    import numpy as np
    from CHECLabPy.calib.pixel_masks import PixelMasks
    d = mask_dir()
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    names = {}
    for k, f in enumerate(h['files']):
        names[f['date'], f['time']] = fname(f['date'], f['time'], f.get('pad', True))
        write_file(os.path.join(d, names[f['date'], f['time']]), f, k, f.get('extra', False))
    inst = {}
    for o in h['ops']:
        e = dict(o, err='')
        e.pop('clk', None)
        if o['op'] in ('open', 'merge'):
            p = os.path.join(d, names[o['date'], o['time']])
        if o['op'] == 'latest':
            r, e['err'] = errname(PixelMasks)
            inst[o['inst']] = r
        elif o['op'] == 'open':
            r, e['err'] = errname(PixelMasks, p)
            inst[o['inst']] = r
        elif o['op'] in ('merge', 'mergelatest'):
            if not can_merge(inst[o['inst']]):
                break
            kw = dict(path=p) if o['op'] == 'merge' else {}
            _, e['err'] = errname(lambda: inst[o['inst']]._load_file(merge=True, **kw))
        elif o['op'] == 'set':
            a = np.array(getattr(inst[o['inst']], o['mask'])) if o.get('assign') else getattr(inst[o['inst']], o['mask'])
            a[np.array(o['idx'], dtype=int)] = o['val']
            if o.get('assign'):
                setattr(inst[o['inst']], o['mask'], a)
        elif o['op'] == 'commit':
            before = listing(d)
            now = clock()
            Clock.t = o.get('clk')
            if Clock.t:
                now += [[Clock.t[0] % 100 * 10000 + Clock.t[1] * 100 + Clock.t[2], Clock.t[3] * 100 + Clock.t[4]]]
            _, e['err'] = errname(inst[o['inst']].commit)
            after = listing(d)
            new = [f for f in after if before.get(f) != after[f]]
            e.update(nnew=len(new), date=0, time=0, now=now + clock())
            m = re.fullmatch(r'd(\d{6})T(\d{4})\.dat', new[0]) if new else None
            if not all(f in after for f in before):
                m = None
            if m:
                e.update(date=int(m[1]), time=int(m[2]))
                names[e['date'], e['time']] = new[0]
        elif o['op'] == 'plot':
            e.update(plot(inst[o['inst']]))
        elif o['op'] == 'convert':
            f = PixelMasks.convert_superpixels_to_pixels if o['n'] == 4 else PixelMasks.convert_module_to_pixels
            arg = np.array(o['list'], dtype=int) if o.get('array') else list(o['list'])
            r, e['err'] = errname(f, arg)
            e['out'] = [int(x) for x in r] if r is not None else []
            ev.append(e)
            continue
        if any(v is None for v in inst.values()):
            e['obs'] = []
            ev.append(e)
            break
        e['obs'] = observe(inst)
        ev.append(e)
    if not ev:
        ev.append(dict(op='convert', n=4, list=[], out=[], err=''))
    return dict(files=h['files'])


def rand_flags(rng, n, k):
    return sorted(set(rng.choice((rng.randrange(n), 0, n - 1)) for _ in range(rng.randint(0, k))))


def history(rng):
    files, used = [], set()
    for _ in range(rng.randint(1, 5)):
        date, time = rng.choice((190417, 190423, 190423, 191001, 200229, 180101)), rng.choice((5, 59, 839, 905, 1100, 1309, 2359))
        if (date, time) in used:
            continue
        used.add((date, time))
        files.append(dict(date=date, time=time, dead=rand_flags(rng, 2048, 6), low=rand_flags(rng, 2048, 10), pix=[],
                          pad=rng.random() < .7, extra=rng.random() < .2))
        for _ in range(rng.randint(0, 4)):
            s = rng.randrange(512)
            files[-1]['pix'] += [4 * s + k for k in rng.choice(((0, 1, 2, 3), (0,), (3,), (1, 2)))]
        files[-1]['pix'] = sorted(set(files[-1]['pix']))
    ops, inst, committed = [], set(), False
    for _ in range(rng.randint(2, 10)):
        op = weighted(rng, latest=3, open=2, merge=3, mergelatest=2, set=4, commit=3 if not (committed and len(files) > 3) else 2, convert=2, plot=.15)
        i = rng.choice((1, 2, 3))
        if op in ('merge', 'mergelatest', 'set', 'commit', 'plot'):
            if not inst:
                continue
            i = rng.choice(sorted(inst))
        o = dict(op=op, inst=i)
        if op in ('open', 'merge'):
            f = rng.choice(files)
            o.update(date=f['date'], time=f['time'])
        if op in ('latest', 'open'):
            inst.add(i)
        if op == 'set':
            m = rng.choice(('dead', 'low', 'bad_hv'))
            o.update(mask=m, idx=rand_flags(rng, 512 if m == 'bad_hv' else 2048, 5), val=rng.random() < .7, assign=rng.random() < .3)
        if op == 'commit' and rng.random() < .9:
            o['clk'] = [rng.choice((2017, 2019, 2019, 2026, 2031)), rng.choice((1, 4, 9, 10, 12)), rng.choice((1, 7, 17, 23, 28)),
                        rng.choice((0, 8, 9, 13, 23)), rng.choice((0, 5, 9, 39, 59)), rng.choice((0, 31, 59))]
        if op == 'convert':
            n = rng.choice((4, 64))
            o.update(n=n, list=[rng.randrange(2048 // n) for _ in range(rng.choice((0, 1, 2, 5)))], array=rng.random() < .5)
            if rng.random() < .3 and o['list']:
                o['list'].append(o['list'][0])
        ops.append(o)
    return dict(files=files, ops=ops)


def generate(prop, tier, seed):
    rng = random.Random(seed * 1031)
    out = [history(rng) for _ in range(260 if tier == 'quick' else 3000)]
    out.append(dict(files=out[0]['files'], ops=[dict(op='convert', inst=1, n=n, list=list(range(2048 // n))[::s], array=a)
                                                for n in (4, 64) for s in (1, -1) for a in (True, False)]))
    for _ in range(8 if tier == 'quick' else 60):      # masks which overlap, shown before and after each change
        hs, dead, low = ([rng.randrange(512) for _ in range(4)] for _ in range(3))
        hs[0], dead[0], low[0] = 0, 511, 511
        ops = [dict(op='latest', inst=1), dict(op='plot', inst=1)]
        ch = [dict(op='set', inst=1, mask='bad_hv', idx=sorted(set(hs)), val=True, assign=False)] + [
            dict(op='set', inst=1, mask=m, idx=sorted({4 * a + rng.randrange(4) for a in hs[:3]} | {4 * a + k for k, a in enumerate(dead if m == 'dead' else low)} | {4 * dead[1] + 2}),
                 val=True, assign=rng.random() < .3) for m in ('dead', 'low')]
        rng.shuffle(ch)
        out.append(dict(files=history(rng)['files'], ops=ops + ch + [dict(op='plot', inst=1)]))
    return [h for h in out if h['ops']]
