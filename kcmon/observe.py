"""Monitors on the public methods.

While an Observer is active every call of a public method of any Fitter or
Kcorrect object - by the workload, by another method, by the repository's own
tests, by any thread - is an event {object, method, arguments, result}, and
the oracles of the chosen properties decide on it against the reference model
of that object.  What they find is kept until `flush`, so that the code under
test can not swallow it and threads do not lose it.
"""
import inspect
import threading

import numpy as np

from . import boot, gen, ref
from .core import Violation

kc = boot.boot()
Fitter = kc.fitter.Fitter
Kcorrect = kc.kcorrect.Kcorrect

METHODS = [(Fitter, 'fit_coeffs'), (Fitter, 'reconstruct'),
           (Kcorrect, 'reconstruct_out'), (Kcorrect, 'kcorrect'),
           (Kcorrect, 'absmag'), (Kcorrect, 'derived'),
           (Kcorrect, 'absmag_mc'), (Kcorrect, 'derived_mc'),
           (Kcorrect, 'fromfits')]

MAGTOL = 4e-5


def f64(x):
    """The numbers as the code under test takes them."""
    return None if x is None else np.array(np.float32(x), dtype=np.float64)


class Bad(Exception):
    pass


class Observer(object):
    def __init__(self, mon, props):
        self.mon = mon
        self.props = set(props)
        self.models = {}
        self.bad = []
        self.lock = threading.RLock()
        self.depth = threading.local()
        self.orig = []
        self.skipped = 0

    # ------------------------------------------------------------ plumbing
    def register(self, k, m):
        with self.lock:
            self.models[id(k)] = (k, m)

    def model(self, k):
        with self.lock:
            if id(k) not in self.models:
                m = gen.model(k)
                m.cls = type(k).__name__
                m.abcorrect = bool(k.abcorrect)
                self.models[id(k)] = (k, m)
            return self.models[id(k)][1]

    def __enter__(self):
        for cls, name in METHODS:
            if name in vars(cls):
                orig = vars(cls)[name]
                self.orig.append((cls, name, orig))
                setattr(cls, name, self._wrap(name, orig))
        return self

    def __exit__(self, et, ev, tb):
        for cls, name, orig in reversed(self.orig):
            setattr(cls, name, orig)
        self.orig = []
        if et is None:
            self.flush()
        return False

    def flush(self):
        if self.bad:
            what, data = self.bad[0]
            raise Violation(what, dict(data, total=len(self.bad)))

    def _wrap(self, name, orig):
        obs = self
        sig = inspect.signature(orig)

        def wrapper(self_, *args, **kw):
            # what the caller asked for, before the code can change it
            b = sig.bind(self_, *args, **kw)
            b.apply_defaults()
            given = dict(b.arguments)
            given.pop('self', None)
            frozen = dict((k, obs._freeze(v)) for k, v in given.items())
            try:
                out = orig(self_, *args, **kw)
            except Exception as e:
                obs._event(self_, name, frozen, None, e)
                raise
            obs._event(self_, name, frozen, out, None)
            return out
        wrapper.__name__ = name
        wrapper.__doc__ = orig.__doc__
        return wrapper

    @staticmethod
    def _freeze(v):
        if isinstance(v, np.ndarray):
            return np.array(v, copy=True)
        if isinstance(v, (list, tuple)):
            return list(v)
        return v

    def fail(self, what, **data):
        with self.lock:
            self.bad.append((what, data))

    def _event(self, k, name, a, out, exc):
        if name == 'fromfits':
            with self.lock:
                self.models.pop(id(k), None)
            return
        fn = getattr(self, 'on_' + name, None)
        if fn is None:
            return
        if not isinstance(k, Kcorrect):
            return
        try:
            m = self.model(k)
        except Exception as e:
            self.skipped += 1
            self.mon.event('unmodelled:' + type(e).__name__)
            return
        if exc is not None:
            self.mon.event('raised')
            self.on_raised(m, name, a, exc)
            return
        try:
            fn(m, a, out)
        except Bad as e:
            self.fail('{}: {}'.format(name, e.args[0]), **e.args[1])

    def dec(self, n=1):
        with self.lock:
            self.mon.decisions += n

    def cmp(self, got, want, tol, what, where=None, **data):
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            raise Bad(what + ': shape {} instead of {}'.format(g.shape, w.shape), data)
        t = np.broadcast_to(tol, w.shape)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= t) | (g == w))
        if where is not None:
            bad &= where
            n = int(np.count_nonzero(np.broadcast_to(where, w.shape)))
        else:
            n = w.size
        self.dec(1)
        with self.lock:
            self.mon.event('values_checked', n)
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if w.ndim else ()
            raise Bad(what, dict(data, at=list(i), got=g[i], want=w[i],
                                 tol=t[i], nbad=int(bad.sum()), of=int(w.size)))

    # ------------------------------------------------------------- errors
    def on_raised(self, m, name, a, exc):
        """A call whose redshifts are well inside the range and whose shapes
        are right must not raise."""
        return

    # ------------------------------------------------------- reconstruction
    def _recon(self, m, a, out, isout):
        z = f64(a['redshift'])
        b = float(a['band_shift'])
        s = z + b + z * b
        slack = 1e-6 * (1. + abs(b)) * (1. + np.abs(s))
        if np.any(s < m.range[0] - slack) or np.any(s > m.range[1] + slack):
            if 'C04' in self.props:
                raise Bad('returned maggies at a redshift outside the range',
                          dict(redshift=z, band_shift=b, range=m.range))
            return
        self.mon.event('reconstructions')
        if 'C07' not in self.props:
            return
        z = np.clip(z, m.range[0], m.range[1]) if b == 0. else z
        v, e = m.maggies(z, f64(a['coeffs']), out=isout, band_shift=b)
        self.cmp(out, v, e, 'maggies differ from the photometry of the model',
                 redshift=z, band_shift=b)

    def on_reconstruct(self, m, a, out):
        self._recon(m, a, out, False)

    def on_reconstruct_out(self, m, a, out):
        self._recon(m, a, out, True)

    # --------------------------------------------------------- K-corrections
    def expect_k(self, m, z, c, b):
        """value, allowance, decided [..., nout]; value nan where undefined"""
        vi, ei = m.maggies(z, c)
        vo, eo = m.maggies(np.zeros_like(z), c, out=True, band_shift=b)
        vi, ei = vi[..., m.map], ei[..., m.map]
        with np.errstate(all='ignore'):
            k = ref.mag(vi / vo)
        tol = ref.magerr(vi, ei) + ref.magerr(vo, eo) + MAGTOL
        zero_i, zero_o = (vi == 0.) & (ei == 0.), (vo == 0.) & (eo == 0.)
        undef = zero_i | zero_o
        decided = ((vi > 3. * ei) & (vo > 3. * eo)) | undef
        k = np.where(undef, np.nan, k)
        nz = np.broadcast_to((np.sum(c, axis=-1) > 0.)[..., None], k.shape)
        k = np.where(nz, k, 0.)
        tol = np.where(nz, tol, 0.)
        decided = np.where(nz, decided, True)
        return k, tol, decided

    def on_kcorrect(self, m, a, out):
        self.mon.event('kcorrections')
        if 'C08' not in self.props:
            return
        z, c = f64(a['redshift']), f64(a['coeffs'])
        k, tol, dec = self.expect_k(m, z, c, float(a['band_shift']))
        fin = np.isfinite(k)
        self.cmp(out, np.where(fin, k, 0.), tol, 'K-correction differs from its definition',
                 where=dec & fin, redshift=z)

    # ----------------------------------------------------------- magnitudes
    def dm(self, m, z, distance):
        if distance is not None:
            d = f64(distance)
            return 5. * np.log10(d) + 25.
        return ref.distmod(m.cosmo, z)

    def dmtol(self, m, z, distance):
        """allowance [..] in mag for a cosmology evaluated in float32"""
        if distance is not None:
            return np.zeros_like(z)
        try:
            import astropy.units
            low = np.asarray(m.cosmo.distmod(np.float32(z)).to_value(astropy.units.mag))
            return 1.5 * np.abs(np.float64(low) - ref.distmod(m.cosmo, z)) + 1e-6
        except Exception:
            return np.zeros_like(z) + 1e-5

    def expect_absmag(self, m, z, mg, iv, c, b, distance):
        dm = self.dm(m, z, distance)
        dm = np.asarray(dm)[..., None]
        mg, iv = gen.to_ab_ref(dict(cls=m.cls, abcorrect=m.abcorrect), mg, iv)
        mg, iv = mg[..., m.map], iv[..., m.map]
        k, tol, dec = self.expect_k(m, z, c, b)
        fin = np.isfinite(k)
        dmt = np.asarray(self.dmtol(m, z, distance))[..., None]
        tol = tol + MAGTOL + dmt
        with np.errstate(all='ignore'):
            am = np.where((mg > 0.) & (iv > 0.) & fin, ref.mag(mg) - dm - k, -9999.)
            al = np.where((iv > 0.) & fin & (np.sum(c, axis=-1) > 0.)[..., None],
                          ref.mag(1. / np.sqrt(iv)) - dm - k, -9999.)
        amt = np.where(am == -9999., 0., tol)
        alt = np.where(al == -9999., 0., tol)
        # where only the K-correction is undecided, -9999 is decided anyway
        amd = dec | ~((mg > 0.) & (iv > 0.))
        ald = dec | ~(iv > 0.)
        vo, eo = m.maggies(np.zeros_like(z), c, out=True, band_shift=b)
        with np.errstate(all='ignore'):
            ar = np.where(vo > 0., ref.mag(vo) - dm, -9999.)
        art = np.where(ar == -9999., 0., ref.magerr(vo, eo) + 2 * MAGTOL + dmt)
        ard = (np.abs(vo) > 3. * eo) | ((vo == 0.) & (eo == 0.))
        return (am, amt, amd), (ar, art, ard), (al, alt, ald), (k, tol, dec & fin)

    def on_absmag(self, m, a, out):
        self.mon.event('absmags')
        if not self.props & {'C09', 'C10'}:
            return
        z, c = f64(a['redshift']), f64(a['coeffs'])
        exp = self.expect_absmag(m, z, f64(a['maggies']), f64(a['ivar']), c,
                                 float(a['band_shift']), a['distance'])
        self._mags(a, out, exp, z, 'limit' in a and a['limit'])

    def _mags(self, a, out, exp, z, limit):
        (am, ar, al, kk) = exp
        n = 1 + bool(a['reconstruct']) + bool(limit) + bool(a['kcorrect'])
        if n == 1:
            out = (out,)
        elif not isinstance(out, tuple) or len(out) != n:
            raise Bad('did not return the {} arrays asked for'.format(n), {})
        i = 0
        if 'C09' in self.props or 'C13' in self.props:
            self.cmp(out[0], am[0], am[1], 'absolute magnitude is not m - DM - K',
                     where=am[2], redshift=z, distance=a['distance'])
            g = np.asarray(out[0])
            if not np.isfinite(g).all():
                raise Bad('absolute magnitude neither finite nor -9999', dict(got=g))
        i += 1
        if a['reconstruct']:
            if 'C10' in self.props or 'C13' in self.props:
                self.cmp(out[i], ar[0], ar[1],
                         'reconstructed magnitude is not that of the model at rest',
                         where=ar[2], redshift=z)
                self.mon.event('reconstructed_mags')
            i += 1
        if limit:
            if 'C10' in self.props:
                self.cmp(out[i], al[0], al[1], 'limit is not that of one sigma',
                         where=al[2], redshift=z)
                self.mon.event('limits')
            i += 1
        if a['kcorrect'] and self.props & {'C08', 'C09', 'C13'}:
            self.cmp(out[i], np.where(kk[2], kk[0], 0.), kk[1],
                     'returned K-correction differs', where=kk[2])

    # -------------------------------------------------------------- derived
    def expect_derived(self, m, z, c, b, distance):
        d10 = 10.**(0.4 * self.dm(m, z, distance))
        ms, sf = c.dot(m.mremain), c.dot(m.intsfh)
        met = c.dot(m.mremain * m.mets)
        has = ms > 0.
        with np.errstate(all='ignore'):
            d = dict(mremain=ms * d10, intsfh=sf * d10,
                     metallicity=np.where(has, met / ms, 0.),
                     b50=np.where(has, c.dot(m.m50) / sf, 0.),
                     b300=np.where(has, c.dot(m.m300) / sf, 0.),
                     b1000=np.where(has, c.dot(m.m1000) / sf, 0.))
        vo, eo = m.maggies(np.zeros_like(z), c, out=True, band_shift=b)
        sol = np.array([_solar(n) for n in m.responses_out])
        lum = vo / 10.**(-0.4 * sol)
        with np.errstate(all='ignore'):
            mtol = np.where(vo > 0., ms[..., None] / lum, 0.)
            rel = np.where(vo > 0., eo / (vo - eo), 0.) + 1e-4
        dec = (np.abs(vo) > 3. * eo) | ((vo == 0.) & (eo == 0.))
        dec = dec & np.isfinite(sol)
        rt = 3e-5 + 0.93 * self.dmtol(m, z, distance)
        dt = dict((n, np.abs(d[n]) * (rt if n in ('mremain', 'intsfh') else 3e-5))
                  for n in d)
        return d, dt, mtol, np.abs(mtol) * rel, dec

    def on_derived(self, m, a, out):
        self.mon.event('derived')
        if 'C11' not in self.props:
            return
        z, c = f64(a['redshift']), f64(a['coeffs'])
        self._derived(out, self.expect_derived(m, z, c, float(a['band_shift']), a['distance']), z)

    def _derived(self, out, exp, z):
        d, dt, mtol, tol, dec = exp
        for n in d:
            if n not in out:
                raise Bad('no ' + n, {})
            self.cmp(out[n], d[n], dt[n], n + ' differs from its definition',
                     redshift=z)
        self.cmp(out['mtol'], mtol, tol, 'mtol differs from its definition',
                 where=dec, redshift=z)

    # ----------------------------------------------------------- Monte Carlo
    def on_absmag_mc(self, m, a, out):
        if 'C13' not in self.props:
            return
        self.mon.event('absmag_mcs')
        z, c = f64(a['redshift']), f64(a['coeffs_mc'])
        mg, iv = f64(a['maggies_mc']), f64(a['ivar'])
        exps = [self.expect_absmag(m, z, mg[..., i], iv, c[..., i],
                                   float(a['band_shift']), a['distance'])
                for i in range(c.shape[-1])]
        exp = tuple(tuple(np.stack([e[j][q] for e in exps], axis=-1) for q in range(3))
                    for j in range(4))
        self._mags(a, out, exp, z, False)

    def on_derived_mc(self, m, a, out):
        if 'C13' not in self.props:
            return
        self.mon.event('derived_mcs')
        z, c = f64(a['redshift']), f64(a['coeffs_mc'])
        exps = [self.expect_derived(m, z, c[..., i], float(a['band_shift']), a['distance'])
                for i in range(c.shape[-1])]
        d = dict((n, np.stack([e[0][n] for e in exps], axis=-1)) for n in exps[0][0])
        dt = dict((n, np.stack([e[1][n] for e in exps], axis=-1)) for n in d)
        self._derived(out, (d, dt) + tuple(np.stack([e[q] for e in exps], axis=-1)
                                           for q in (2, 3, 4)), z)

    # ------------------------------------------------------------------ fits
    def on_fit_coeffs(self, m, a, out):
        self.mon.event('fits')
        z = f64(a['redshift'])
        mg, iv = f64(a['maggies']), f64(a['ivar'])
        cond = dict(cls=m.cls, abcorrect=m.abcorrect)
        mc = int(a['mc'] or 0)
        if mc > 0:
            if not isinstance(out, tuple) or len(out) != 3:
                raise Bad('a fit with Monte Carlo returns three arrays', {})
            c, cmc, mmc = (np.asarray(x) for x in out)
        else:
            c, cmc, mmc = np.asarray(out), None, None
        want = (m.nsed,) if z.ndim == 0 else (len(z), m.nsed)
        if self.props & {'C01', 'C02', 'C12'} and c.shape != want:
            raise Bad('weights have shape {} instead of {}'.format(c.shape, want), {})
        if mc > 0 and 'C12' in self.props:
            if cmc.shape != want + (mc,):
                raise Bad('Monte Carlo weights have shape {}'.format(cmc.shape), {})
            if mmc.shape != mg.shape + (mc,):
                raise Bad('Monte Carlo maggies have shape {}'.format(mmc.shape), {})
        ab, abiv = gen.to_ab_ref(cond, mg, iv)
        zz, cc = np.atleast_1d(z), c.reshape(-1, m.nsed)
        ab, abiv = ab.reshape(len(zz), -1), abiv.reshape(len(zz), -1)
        if mc > 0:
            cmc = cmc.reshape(len(zz), m.nsed, mc)
            mmc = np.float64(mmc).reshape(len(zz), -1, mc)
        for i, zi in enumerate(zz):
            if zi < m.range[0] or zi > m.range[1]:
                self.mon.event('outside')
                if 'C04' in self.props:
                    self.dec()
                    if np.any(cc[i] != 0.) or (mc > 0 and np.any(cmc[i] != 0.)):
                        raise Bad('an object outside the range has non-zero weights',
                                  dict(redshift=zi, coeffs=cc[i]))
                continue
            if not self.props & {'C01', 'C12'}:
                continue
            A, S = m.A(np.clip(zi, m.range[0], m.range[1]))
            if 'C01' in self.props:
                self._optimal(A, S, ab[i], abiv[i], cc[i], 'fit', zi)
            if mc > 0 and 'C12' in self.props:
                for j in range(mc):
                    abj = gen.to_ab_ref(cond, mmc[i, :, j])
                    self._optimal(A, S, abj, abiv[i], cmc[i, :, j], 'draw', zi)

    def _optimal(self, A, S, mg, iv, c, what, z):
        self.dec()
        self.mon.event('optima_checked')
        if not np.isfinite(c).all() or (c < 0.).any():
            raise Bad(what + ': weights are not non-negative numbers', dict(coeffs=c))
        v = ref.kkt(A, mg, iv, c, S)
        if v > 1.:
            raise Bad(what + ': weights are not the non-negative least-squares optimum',
                      dict(redshift=z, excess=v, coeffs=c, maggies=mg, ivar=iv,
                           chi2=ref.chi2(A, mg, iv, c)))


_solar_cache = {}


def _solar(name):
    """Solar absolute magnitude of a band by definition (0 where undefined:
    then mtol is per maggy; nan where that is a known finding)."""
    if name not in _solar_cache:
        b = gen.band(name)
        spec = _sun()
        v, s, info = ref.project(spec, b)
        if not info['overlap']:
            _solar_cache[name] = 0.
        elif info['inside'] == 0 or b.wave[-1] > 1.0e6:
            _solar_cache[name] = np.nan
        else:
            _solar_cache[name] = float(ref.mag(v[0]))
    return _solar_cache[name]


_suncache = []


def _sun():
    if not _suncache:
        _suncache.append(ref.basel_sed(gen.DATADIR, 'sun'))
    return _suncache[0]
