"""Calibrators driver (C20).  The package is copied into the worker's scratch directory, because the
time corrections are read from a file inside the package."""
import contextlib, io, json, os, random
from .common import *
from . import masks

TIME_LIMIT = 60


def setup(job):
    masks.copy_package()


def write_tcor(a, den, n=2048):
    import CHECLabPy.calib as m
    p = os.path.join(os.path.dirname(m.__file__), 'data', 'time_correction.dat')
    with open(p, 'w') as f:
        f.write('pixel\tt_cor\n')
        for i in range(n):
            f.write('%d\t%r\n' % (i, a[i] / den if i < len(a) else 77.5))


def replay(h, ev):
    import numpy as np
    from CHECLabPy.calib import TimeCalibrator, AmplitudeCalibrator, IlluminationProfile, WaveformCalibrator
    from CHECLabPy.core.io.waveform import Waveform
    d = scratch()
    a, den, amp, npix = h['a'], h['den'], h['amp'], len(h['a'])
    write_tcor(a, den)
    with open(d + '/prof.dat', 'w') as f:
        f.write('pixel\tcorrection\n')
        for i, x in enumerate(h['prof']):
            f.write('%d\t%r\n' % (i, x / h['pden']))
    with open(d + '/ped.json', 'w') as f:
        json.dump(dict(base=h['ped'][0], slope=h['ped'][1]), f)
    objs, held = {}, []

    def get(kind, ns=None):
        if (kind, ns) not in objs:
            if kind == 'time':
                o = TimeCalibrator()
            elif kind == 'amp':
                o = AmplitudeCalibrator(np.array(amp['fn']) / amp['fd'], np.array(amp['ped'], float), amp['cn'] / amp['cd'])
            elif kind == 'prof':
                o = IlluminationProfile(d + '/prof.dat')
            elif kind == 'online':
                o = WaveformCalibrator(d + '/ped.json', npix, ns)
            else:
                class R:
                    n_modules, n_pixels, n_samples = len(h['sns']), npix, ns
                    def get_sn(self, tm): return h['sns'][tm]
                o = WaveformCalibrator.from_tio_reader(d + '/ped.json', R())
            objs[(kind, ns)] = o
        return objs[(kind, ns)]

    out = io.StringIO()
    for o in h['ops']:
        e = dict(o, err='')
        r = None
        with contextlib.redirect_stdout(out):
            if o['op'] == 'time':
                w = np.array(o['wf'], dtype=o['dt'])
                if o['wrap']:
                    w = Waveform(w, 0)
                b = np.array(w)
                r, e['err'] = errname(lambda: get('time')(w))
                if not e['err']:
                    e.update(out=qs(np.asarray(r, dtype='f8') * den, 1), dtype=r.dtype.str[1:])
                e['same'] = bool(np.array_equal(b, w)) and (r is None or not np.shares_memory(r, w))
            elif o['op'] == 'amp':
                if o['kind'] == 'scalar':
                    v, p = float(o['v'][0]), int(o['pix'][0])
                    e['vshape'] = []
                else:
                    sh = {'array': (-1,), '2d': (2, -1)}[o['kind']]
                    v, p = np.array(o['v'], dtype=o['dt']).reshape(sh), np.array(o['pix']).reshape(sh)
                    e['vshape'] = list(v.shape)
                b, pb = np.array(v), np.array(p)
                r, e['err'] = errname(lambda: get('amp')(v, p))
                if not e['err']:
                    e.update(out=qs(np.ravel(r) * (amp['cn'] * amp['fd']), 1), shape=list(np.shape(r)))
                e['same'] = bool(np.array_equal(b, v)) and bool(np.array_equal(pb, p))
            elif o['op'] == 'fold':
                im = np.array(o['im'], dtype=o['dt'])
                if len(o['im']) == 1 and o['flat']:
                    im = im[0]
                b = im.copy()
                pr, e['err'] = errname(lambda: get('prof'))
                if not e['err']:
                    r, e['err'] = errname(pr.fold, im)
                if not e['err']:
                    u, e['err'] = errname(pr.unfold, im)
                if not e['err']:
                    two = lambda x: np.atleast_2d(x)
                    bk, fo = pr.unfold(r), pr.fold(u)
                    e.update(out=qs(two(r) * h['pden'], 1), back=qs(two(bk), 1), forth=qs(two(fo), 1))
                e['same'] = bool(np.array_equal(b, im)) and (r is None or not np.shares_memory(r, im))
            elif o['op'] == 'online':
                from target_calib import Calibrator
                ns = len(o['wf'][0])
                w = Waveform(np.array(o['wf'], dtype=o['dt']), 3, first_cell_id=o['fci'])
                b = np.array(w)
                Calibrator.LOG.clear()
                c, e['err'] = errname(get, 'multi' if o['multi'] else 'online', ns)
                e['sn'] = list(Calibrator.LOG)
                e['sns'] = [h['sns']] if o['multi'] and Calibrator.LOG else []
                if not e['err']:
                    r, e['err'] = errname(c, w, w.first_cell_id)
                if not e['err']:
                    e.update(out=qs(r, 1), dtype=r.dtype.str[1:], r1=bool(getattr(r, 'is_r1', False)), alias=bool(np.shares_memory(r, w)))
                e['same'] = bool(np.array_equal(b, w)) and not w.is_r1
        e['kept'] = all(np.array_equal(x, y) for x, y in held)
        if isinstance(r, np.ndarray):
            held.append((r, np.array(r)))
        ev.append(e)
    return dict(a=a, den=den, amp=amp, prof=h['prof'], pden=h['pden'], ped=h['ped'])


def hist(rng):
    npix = rng.choice((1, 2, 4, 8))
    den = rng.choice((1, 2, 4, 5, 10, 100))
    ns0 = rng.choice((2, 3, 5, 8, 16))

    def cor():
        k = rng.random()
        if k < .2:
            return 0
        if k < .5:
            return den * rng.randint(-ns0 - 2, ns0 + 2)
        if k < .9:
            return rng.randint(-3 * den, 3 * den)
        return rng.randint(-(ns0 + 3) * den, (ns0 + 3) * den)
    fd, cn, cd = rng.choice((1, 2, 4)), rng.choice((1, 2, 3, 7)), rng.choice((1, 2))
    h = dict(a=[cor() for _ in range(npix)], den=den,
             amp=dict(fn=[rng.randint(1, 9) for _ in range(npix)], fd=fd, ped=[rng.randint(-20, 20) for _ in range(npix)], cn=cn, cd=cd),
             pden=rng.choice((2, 4, 8, 5)), ped=[rng.randint(0, 5), rng.randint(0, 9)],
             sns=[rng.randint(1, 200) for _ in range(rng.choice((1, 2, 3)))])
    h['prof'] = [rng.randint(1, 12) for _ in range(npix)]
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = weighted(rng, time=4, amp=3, fold=2, online=2)
        o = dict(op=op)
        if op == 'time':
            ns = rng.choice((ns0, ns0, 2, 4, 12))
            hi = rng.choice((9, 100, 1000))
            o.update(dt=rng.choice(('f8', 'f4')), wrap=rng.random() < .5, wf=[[rng.randint(-hi, hi) for _ in range(ns)] for _ in range(npix)])
        elif op == 'amp':
            k = rng.choice(('scalar', 'array', 'array', '2d'))
            n = {'scalar': 1, 'array': rng.choice((1, 3, npix)), '2d': 2 * rng.choice((1, npix))}[k]
            o.update(kind=k, dt=rng.choice(('f8', 'i8', 'f4')), v=[rng.randint(-100, 1000) for _ in range(n)], pix=[rng.randrange(npix) for _ in range(n)])
        elif op == 'fold':
            n = rng.choice((1, 1, 3))
            o.update(flat=rng.random() < .6, dt=rng.choice(('f8', 'i8', 'f4')), im=[[rng.randint(-50, 500) for _ in range(npix)] for _ in range(n)])
        else:
            ns = rng.choice((ns0, 4, 16))
            o.update(dt=rng.choice(('u2', 'f4')), fci=rng.choice((0, 5, 15, 1000, 16383)), multi=rng.random() < .5,
                     wf=[[rng.randint(0, 4095) for _ in range(ns)] for _ in range(npix)])
        ops.append(o)
    h['ops'] = ops
    return h


def generate(prop, tier, seed):
    rng = random.Random(seed * 331 + 20)
    return [hist(rng) for _ in range(400 if tier == 'quick' else 8000)]
