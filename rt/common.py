"""Shared by the run-time side (real code under /opt/venv): encoding of inputs, comparison, scratch archives."""
import os, sys, json, math, tempfile, shutil, io, contextlib, warnings
import numpy as np

REPO = os.environ.get('PYOWC_REPO', '/repo')
sys.dont_write_bytecode = True


class Bad(Exception):
    """The real code broke the property on this input."""


class Skip(Exception):
    """This input lies outside the quantifier (or on a rounding boundary): it decides nothing."""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def enc(v):
    if isinstance(v, np.ndarray):
        return {'__nd__': [enc(x) for x in v.flatten().tolist()], 'shape': list(v.shape), 'dtype': str(v.dtype)}
    if isinstance(v, np.generic):
        return enc(v.item())
    if isinstance(v, dict):
        return {'__d__': [[k, enc(x)] for k, x in v.items()]}
    if isinstance(v, tuple):
        return {'__t__': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, float):
        if math.isnan(v): return {'__f__': 'nan'}
        if math.isinf(v): return {'__f__': 'inf' if v > 0 else '-inf'}
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if '__nd__' in v:
            return np.array([dec(x) for x in v['__nd__']], dtype=v['dtype']).reshape(v['shape'])
        if '__d__' in v:
            return {k: dec(x) for k, x in v['__d__']}
        if '__t__' in v:
            return tuple(dec(x) for x in v['__t__'])
        if '__f__' in v:
            return float(v['__f__'])
    return v


def install_interp2d():
    """scipy removed interp2d; every grid here is regular, where the linear interp2d is the bilinear interpolant
    (clamped to the grid), which this stand-in evaluates."""
    import scipy.interpolate as si

    class interp2d:                                      # noqa
        def __init__(self, x, y, z, kind='linear', **_):
            x = np.asarray(x, float).ravel(); y = np.asarray(y, float).ravel()
            z = np.asarray(z, float).reshape(len(y), len(x))
            ix = np.argsort(x); iy = np.argsort(y)
            self.x, self.y, self.z = x[ix], y[iy], z[iy][:, ix]

        @staticmethod
        def _w(g, v):
            v = np.clip(v, g[0], g[-1])
            k = np.clip(np.searchsorted(g, v, side='right') - 1, 0, max(len(g) - 2, 0))
            if len(g) == 1: return np.zeros(len(v), int), np.zeros(len(v), int), np.zeros(len(v))
            return k, k + 1, (v - g[k]) / (g[k + 1] - g[k])

        def __call__(self, x, y):
            x = np.atleast_1d(np.asarray(x, float)); y = np.atleast_1d(np.asarray(y, float))
            a, b, u = self._w(self.x, x); c, d, v = self._w(self.y, y)
            z = self.z
            top = z[np.ix_(c, a)] * (1 - u) + z[np.ix_(c, b)] * u
            bot = z[np.ix_(d, a)] * (1 - u) + z[np.ix_(d, b)] * u
            out = top * (1 - v)[:, None] + bot * v[:, None]
            return out.ravel() if out.shape[0] == 1 else out
    si.interp2d = interp2d


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    install_interp2d()
    import pyowc                                         # noqa
    return pyowc


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pyowc_vp_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def close(a, b, rtol=1e-9, atol=1e-9):
    """Same value at float accuracy, missing values equal to each other."""
    a = np.asarray(a, float); b = np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def same(a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape: return False
    try:
        return bool(np.array_equal(a, b, equal_nan=True))
    except TypeError:
        return bool(np.array_equal(a, b))


def call(fn, *a, **k):
    """Calls the real code; any exception on an input within the quantifier is a violation."""
    try:
        with quiet():
            return fn(*a, **k)
    except (Bad, Skip):
        raise
    except BaseException as e:                           # noqa
        if isinstance(e, (KeyboardInterrupt, MemoryError)): raise
        raise Bad(f'{getattr(fn, "__name__", fn)} raised {type(e).__name__}: {str(e)[:200]}')


PI = math.pi
OMEGA = 7.292e-5


def pv(lat, z):
    v = 2 * OMEGA * math.sin(lat * PI / 180) / z
    return 1e-5 if v == 0 else v


def base_config(**kw):
    c = {'HISTORICAL_DIRECTORY': '', 'HISTORICAL_CTD_PREFIX': '/ctd_', 'HISTORICAL_BOTTLE_PREFIX': '/bot_',
         'HISTORICAL_ARGO_PREFIX': '/argo_', 'FLOAT_SOURCE_DIRECTORY': '', 'FLOAT_SOURCE_POSTFIX': '.mat',
         'FLOAT_MAPPED_DIRECTORY': '', 'FLOAT_MAPPED_PREFIX': 'map_', 'FLOAT_MAPPED_POSTFIX': '.mat',
         'FLOAT_CALIB_DIRECTORY': '', 'FLOAT_CALIB_PREFIX': 'cal_', 'FLOAT_CALSERIES_PREFIX': 'calseries_',
         'FLOAT_CALIB_POSTFIX': '.mat', 'CONFIG_DIRECTORY': '', 'CONFIG_WMO_BOXES': 'wmo_boxes.mat',
         'CONFIG_SAF': 'TypicalProfileAroundSAF.mat', 'CONFIG_MAX_CASTS': 300, 'MAP_USE_PV': 0, 'MAP_USE_SAF': 0,
         'MAPSCALE_LONGITUDE_LARGE': 8., 'MAPSCALE_LONGITUDE_SMALL': 4., 'MAPSCALE_LATITUDE_LARGE': 4.,
         'MAPSCALE_LATITUDE_SMALL': 2., 'MAPSCALE_PHI_LARGE': .1, 'MAPSCALE_PHI_SMALL': .02,
         'MAPSCALE_AGE_LARGE': 20., 'MAPSCALE_AGE_SMALL': 10., 'MAP_P_EXCLUDE': 100., 'MAP_P_DELTA': 250.}
    c.update(kw)
    return c
