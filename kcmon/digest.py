"""Deep digests of objects: what of them a user can observe."""
import hashlib

import numpy as np


def _feed(h, x, depth, seen):
    if depth > 8:
        return
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        h.update(repr((type(x).__name__, x)).encode())
    elif isinstance(x, np.generic):
        h.update(repr((x.dtype.str, x.tobytes())).encode())
    elif isinstance(x, np.ndarray):
        h.update(repr((x.dtype.str, x.shape)).encode())
        if x.dtype.hasobject:
            for y in x.ravel().tolist():
                _feed(h, y, depth + 1, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(repr((type(x).__name__, len(x))).encode())
        for y in x:
            _feed(h, y, depth + 1, seen)
    elif isinstance(x, dict):
        h.update(repr(('dict', len(x))).encode())
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            _feed(h, x[k], depth + 1, seen)
    elif isinstance(x, (set, frozenset)):
        h.update(repr(sorted(map(repr, x))).encode())
    elif callable(getattr(x, '__dict__', None)) or hasattr(x, '__dict__'):
        if id(x) in seen:
            return
        seen.add(id(x))
        h.update(type(x).__name__.encode())
        for k in sorted(vars(x)):
            h.update(k.encode())
            _feed(h, vars(x)[k], depth + 1, seen)
        # what interp1d keeps in slots
        for k in ('x', 'y'):
            if k not in vars(x) and hasattr(type(x), k) and type(x).__name__ == 'interp1d':
                _feed(h, np.asarray(getattr(x, k)), depth + 1, seen)
    else:
        h.update(type(x).__name__.encode())


def digest(*xs):
    h = hashlib.sha1()
    for x in xs:
        _feed(h, x, 0, set())
    return h.hexdigest()


# the documented attributes, so that private caches may come and go
SED = ('wave', 'flux', 'restframe_wave', 'restframe_flux', 'nsed', 'nwave', 'redshift',
       'binimage', 'intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')
RESPONSE = ('wave', 'response', 'nwave', 'lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high',
            'solar_magnitude', 'vega2ab')
FITTER = ('abcorrect', 'nredshift', 'redshift_range', 'redshifts', 'responses',
          'responses_out', 'responses_map', 'imap')


def attrs(x, names):
    """Copies of the named attributes (values; list and array alike)."""
    out = {}
    for n in names:
        if hasattr(x, n):
            v = getattr(x, n)
            if isinstance(v, np.ndarray):
                v = np.array(v, copy=True)
            elif isinstance(v, (list, tuple)):
                v = list(v)
            out[n] = v
    return out


def same(a, b):
    """names whose values differ"""
    bad = []
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            bad.append(n)
            continue
        x, y = a[n], b[n]
        if x is None or y is None:
            if x is not y:
                bad.append(n)
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not np.array_equal(
                x, y, equal_nan=(x.dtype.kind in 'fc' and y.dtype.kind in 'fc')):
            bad.append(n)
    return bad


def probe_interp(f, x):
    return None if f is None else np.array(f(x))


def fitter_state(k):
    """Everything documented of a fitter, and what its interpolators give."""
    d = attrs(k, FITTER)
    t = attrs(k.templates, SED)
    d.update(('templates.' + n, v) for n, v in t.items())
    z = np.asarray(d['redshifts'], dtype=np.float64)
    mid = 0.5 * (z[1:] + z[:-1])
    d['A'] = np.array(k.Amatrix(np.concatenate([z, mid])))
    if hasattr(k, 'AmatrixOut'):
        d['AOut'] = np.array(k.AmatrixOut(np.concatenate([z, mid])))
    return d


def response_state(r):
    d = attrs(r, RESPONSE)
    if getattr(r, 'interp', None) is not None and d.get('wave') is not None:
        w = np.asarray(d['wave'], dtype=np.float64)
        d['interp'] = np.array(r.interp(np.concatenate([w, 0.5 * (w[1:] + w[:-1]),
                                                        [w[0] - 5., w[-1] + 5.]])))
    return d


def registry_state(only=None):
    from . import gen
    f = gen.RESP.ResponseDict()
    return dict((n, response_state(f[n])) for n in list(f) if only is None or n in only)
