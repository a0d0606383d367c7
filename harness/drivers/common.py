"""Helpers shared by the drivers: normalising observations for TLC (32-bit integers,
strings, booleans, lists, records with string keys; no null, no floats)."""
import math, os, random, shutil, tempfile

BAD = -999999999       # an observation that has no code
NAN = -999999998
PINF = 999999997
NINF = -999999996
LIM = 2 ** 31 - 10


def scratch():
    return os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()


def check_events(ev):
    """Make every logged value evaluable by TLC (anything else becomes a string)."""
    for e in ev:
        for k in list(e):
            e[k] = norm(e[k])


def norm(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if -LIM < v < LIM else BAD
    if isinstance(v, str):
        return v.encode('ascii', 'replace').decode().replace('"', "'").replace('\\', '/')
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return norm(v.tolist())
    if isinstance(v, (float, np.floating)):
        return q(v, 1)
    return 'unexpected ' + type(v).__name__


def q(x, scale):
    """A real number as an integer in units of 1/scale."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    y = x * scale
    if not -LIM / 2 < y < LIM / 2:
        return BAD
    return int(math.floor(y + 0.5))


def qs(a, scale):
    """Array -> nested list of scaled integers."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return q(a, scale)
    return [qs(x, scale) for x in a]


def errname(f, *a, **k):
    """-> (result, '') or (None, exception type name)"""
    try:
        return f(*a, **k), ''
    except Exception as e:
        return None, type(e).__name__


def weighted(rng, **w):
    ks = list(w)
    return rng.choices(ks, [w[k] for k in ks])[0]
