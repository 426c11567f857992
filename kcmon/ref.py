"""Independent float64 reference of what the code is documented to compute.

Nothing here calls the code under test; it only takes numbers out of it
(rest-frame templates, bandpass samples) and numbers put into it.
"""
import itertools
import os

import numpy as np
from scipy.interpolate import CubicSpline

REL = 1e-5      # float32 arithmetic of the code under test, with room (worst seen: 2e-6)


def trapz(y, x):
    y = np.asarray(y)
    return np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x), axis=-1)


def ab_flux(wave):
    """3631 Jy per Angstrom, erg/s/cm^2/A."""
    w = np.asarray(wave, dtype=np.float64)
    return 3631. * 1e-23 * 2.99792458e18 / w**2


AB_REL = 3e-7 * 3   # 2.99792 against 2.99792458


class Band(object):
    """A bandpass: sorted samples, cubic in between, zero outside."""

    def __init__(self, wave, response):
        w = np.array(wave, dtype=np.float64)
        r = np.array(response, dtype=np.float64)
        o = np.argsort(w, kind='stable')
        self.wave, self.response = w[o], r[o]
        self._s = CubicSpline(self.wave, self.response)
        self._d = self._s.derivative()

    def slope(self, x):
        return self._d(np.clip(x, self.wave[0], self.wave[-1]))

    def __call__(self, x):
        x = np.asarray(x, dtype=np.float64)
        ok = (x >= self.wave[0]) & (x <= self.wave[-1])
        out = np.zeros(x.shape)
        out[ok] = self._s(x[ok])
        return out


class Spec(object):
    """A set of spectra at rest: cubic between samples, zero outside."""

    def __init__(self, wave, flux):
        self.wave = np.array(wave, dtype=np.float64).reshape(-1)
        f = np.array(flux, dtype=np.float64)
        self.flux = f.reshape(-1, len(self.wave))
        self.nsed = self.flux.shape[0]
        self._s = CubicSpline(self.wave, self.flux, axis=-1)
        self._d = self._s.derivative()

    def slope(self, x, z=0.):
        """derivative of at(x, z) by x, clipped at the ends"""
        xr = np.clip(np.asarray(x, dtype=np.float64) / (1. + z), self.wave[0], self.wave[-1])
        return self._d(xr) / (1. + z)**2

    def pull(self, x, z=0.):
        """What a relative change of 1 of the wavelengths and fluxes of single
        samples can do to the curve near x [nsed, len(x)] (the influence of a
        sample falls by about 0.27 with every sample in between)."""
        xr = np.asarray(x, dtype=np.float64) / (1. + z)
        i0 = max(int(np.searchsorted(self.wave, xr[0])) - 40, 0)
        i1 = min(int(np.searchsorted(self.wave, xr[-1])) + 40, len(self.wave))
        w = self.wave[i0:i1]
        g = np.abs(self.flux[:, i0:i1]) + np.abs(self._d(w)) * w
        a, b = g.copy(), g.copy()
        n = g.shape[1]
        for i in range(1, n):
            a[:, i] += 0.28 * a[:, i - 1]
            b[:, n - 1 - i] += 0.28 * b[:, n - i]
        e = np.maximum(a, b)
        k = np.clip(np.searchsorted(w, xr), 1, n - 1)
        return np.maximum(e[:, k - 1], e[:, k]) / (1. + z)

    def at(self, x, z=0.):
        """flux at observed wavelengths x when redshifted to z."""
        xr = np.asarray(x, dtype=np.float64) / (1. + z)
        # the samples of the spectrum itself must not fall outside by rounding
        lo, hi = self.wave[0], self.wave[-1]
        ok = (xr >= lo * (1. - 1e-13)) & (xr <= hi * (1. + 1e-13))
        out = np.zeros((self.nsed, len(xr)))
        out[:, ok] = self._s(np.clip(xr[ok], lo, hi)) / (1. + z)
        return out


def project(spec, band, z=0.):
    """AB maggies [nsed], a bound-like scale [nsed], and a description.

    The integrals are taken over every wavelength sampled by the spectrum or
    the bandpass.  info['inside'] is the number of samples of the spectrum
    inside the bandpass, info['overlap'] whether the two ranges overlap.
    """
    sw = spec.wave * (1. + z)
    b0, b1 = band.wave[0], band.wave[-1]
    keep = (sw >= b0) & (sw <= b1)
    i = np.where(keep)[0]
    info = dict(inside=len(i), overlap=bool(sw[0] <= b1 and sw[-1] >= b0))
    if not info['overlap']:
        zero = np.zeros(spec.nsed)
        return zero, zero, info
    if len(i):
        lo = max(i[0] - 1, 0)
        hi = min(i[-1] + 1, len(sw) - 1)
        x = np.unique(np.concatenate([sw[lo:hi + 1], band.wave]))
    else:
        # the spectrum spans the band without a sample inside it
        x = band.wave
    r = band(x)
    num = spec.at(x, z) * r * x
    den = trapz(ab_flux(x) * r * x, x)
    aden = trapz(np.abs(ab_flux(x) * r * x), x)
    val = trapz(num, x) / den
    scale = trapz(np.abs(num), x) / abs(den) * (aden / abs(den))
    # the samples of the spectrum are where float32 puts them
    f = spec.at(x, z)
    move = (np.abs(f * band.slope(x)) + np.where(f != 0., np.abs(spec.slope(x, z) * r), 0.))
    scale = scale + trapz(move * x * x, x) * (1.2e-7 / abs(den) / REL)
    # ... and so are their neighbours, which pull at the curve between them
    # (much, where a spectrum changes by orders of magnitude from one to the
    # next)
    scale = scale + trapz(spec.pull(x, z) * np.abs(r) * x, x) * (1.2e-7 / abs(den) / REL)
    # sets are integrated in float32: no smaller numbers
    scale = scale + 3e-45 / abs(den) / REL
    # an end of the spectrum inside the band is a step, whose place is known
    # to float32 (only)
    for e, f in ((sw[0], spec.flux[:, 0]), (sw[-1], spec.flux[:, -1])):
        if b0 <= e <= b1:
            step = np.abs(f) / (1. + z) * abs(float(band(np.array([e]))[0])) * e
            scale = scale + step * (2.4e-7 * e / abs(den) / REL)
            # ... and one which coincides with a sample of the band decides on
            # a whole cell of the sum
            near = np.abs(band.wave / e - 1.) < 3e-7
            if near.any():
                scale = scale + step * (_cell(x, e) / abs(den) / REL)
    for e in (b0, b1):
        near = np.abs(sw / e - 1.) < 3e-7
        if near.any():
            r_e = abs(float(band(np.array([e]))[0])) * e * _cell(x, e) / abs(den) / REL
            scale = scale + r_e * (np.abs(spec.flux[:, near]).max(axis=1) / (1. + z) +
                                   np.abs(val) * float(ab_flux(e)))
    info['x'] = x
    return val, scale, info


def _cell(x, e):
    i = int(np.argmin(np.abs(x - e)))
    return float(x[min(i + 2, len(x) - 1)] - x[max(i - 2, 0)])


def refined(spec, band, z=0., m=8):
    """The same integrals on a grid m times finer."""
    sw = spec.wave * (1. + z)
    b0, b1 = band.wave[0], band.wave[-1]
    x = np.unique(np.concatenate([sw[(sw >= b0) & (sw <= b1)], band.wave]))
    xs = [x]
    for k in range(1, m):
        xs.append(x[:-1] + np.diff(x) * k / m)
    x = np.unique(np.concatenate(xs))
    r = band(x)
    num = spec.at(x, z) * r * x
    return trapz(num, x) / trapz(ab_flux(x) * r * x, x)


def grid(redshift_range, n):
    r = np.asarray(np.float32(redshift_range), dtype=np.float64)
    return r[0] + (r[1] - r[0]) * np.arange(n) / (n - 1.)


def lambda_eff(wave, response):
    w = np.asarray(wave, dtype=np.float64)
    r = np.asarray(response, dtype=np.float64)
    return np.exp(trapz(np.log(w) * r / w, w) / trapz(r / w, w))


def halfmax(wave, response):
    """First and last wavelength where the (cubic) response is half its
    largest sample, searched from the ends sample by sample."""
    b = Band(wave, response)
    r = b.response
    peak = r.max()
    up = np.where(r > 0.5 * peak)[0]
    if up[0] == 0:
        lo = b.wave[0]
    else:
        lo = _cross(b, up[0] - 1, up[0], peak)
    dn = np.where(r >= 0.5 * peak)[0]
    if dn[-1] == len(r) - 1:
        hi = b.wave[-1]
    else:
        hi = _cross(b, dn[-1], dn[-1] + 1, peak)
    return lo, hi


def _cross(b, i, j, peak):
    x0, x1 = b.wave[i], b.wave[j]
    f0 = float(b(np.array([x0]))[0]) - 0.5 * peak
    if f0 == 0.:
        return x0
    for _ in range(200):
        xm = 0.5 * (x0 + x1)
        fm = float(b(np.array([xm]))[0]) - 0.5 * peak
        if fm == 0.:
            return xm
        if (fm > 0) == (f0 > 0):
            x0, f0 = xm, fm
        else:
            x1 = xm
    return 0.5 * (x0 + x1)


# ---------------------------------------------------------------- the model

class Model(object):
    """Reference for one Fitter/Kcorrect object, from its documented
    attributes (taken as they are when this is made)."""

    def __init__(self, k, bands, responses_out=True):
        t = k.templates
        self.spec = Spec(np.array(t.restframe_wave), np.array(t.restframe_flux))
        self.nsed = self.spec.nsed
        self.responses = [str(x) for x in k.responses]
        self.range = np.array(np.float32(k.redshift_range), dtype=np.float64).reshape(2)
        self.nz = int(np.squeeze(k.nredshift))
        self.grid = grid(self.range, self.nz)
        self.bands = dict((n, bands(n)) for n in self.responses)
        if responses_out and hasattr(k, 'responses_out'):
            self.responses_out = [str(x) for x in k.responses_out]
            self.responses_map = [str(x) for x in k.responses_map]
            for n in self.responses_out:
                self.bands[n] = bands(n)
            self.map = [self.responses.index(n) for n in self.responses_map]
            self.cosmo = k.cosmo
        for a in ('mremain', 'intsfh', 'mets', 'm50', 'm300', 'm1000'):
            if hasattr(t, a):
                setattr(self, a, np.array(getattr(t, a), dtype=np.float64).ravel())
        self._node = {}

    def inside(self, z, slack=0.):
        return (z >= self.range[0] + slack) & (z <= self.range[1] - slack)

    def node(self, name, i):
        key = (name, i)
        if key not in self._node:
            v, s, info = project(self.spec, self.bands[name], self.grid[i])
            self._node[key] = (v, s)
        return self._node[key]

    def column(self, name, z):
        """maggies and scale [nsed] of the unit templates at z, interpolated
        linearly in the grid."""
        z = float(z)
        i = int(np.clip(np.searchsorted(self.grid, z, side='right') - 1, 0, self.nz - 2))
        w = (z - self.grid[i]) / (self.grid[i + 1] - self.grid[i])
        a, sa = self.node(name, i)
        b, sb = self.node(name, i + 1)
        # the grid of the code is rounded to float32
        extra = np.abs(b - a) * (1.2e-7 * 4 * (1. + abs(z)) /
                                 abs(self.grid[i + 1] - self.grid[i])) / REL
        # next to a node, rounding decides which interval z is in
        eps = 1e-6 * (1. + abs(z))
        for near, node, far in ((z - self.grid[i] < eps, a, i - 1),
                                (self.grid[i + 1] - z < eps, b, i + 2)):
            if near and 0 <= far < self.nz:
                extra = extra + np.abs(self.node(name, far)[0] - node) * (
                    1.2e-7 * 4 * (1. + abs(z)) / abs(self.grid[i + 1] - self.grid[i])) / REL
        return a * (1. - w) + b * w, sa * (1. - w) + sb * w + extra

    def A(self, z, out=False, band_shift=0.):
        names = self.responses_out if out else self.responses
        b = float(band_shift)
        s = z + b + z * b if b != 0. else z
        cols = [self.column(n, s) for n in names]
        return (np.array([c[0] for c in cols]) / (1. + b),
                np.array([c[1] for c in cols]) / (1. + b))

    def maggies(self, z, coeffs, out=False, band_shift=0.):
        """value and error allowance, [.., nband]"""
        z = np.asarray(z, dtype=np.float64)
        c = np.asarray(coeffs, dtype=np.float64)
        if z.ndim == 0:
            a, s = self.A(float(z), out, band_shift)
            return a.dot(c), REL * s.dot(np.abs(c))
        v, e = [], []
        for zi, ci in zip(z, c):
            a, s = self.A(float(zi), out, band_shift)
            v.append(a.dot(ci))
            e.append(REL * s.dot(np.abs(ci)))
        n = len(self.responses_out if out else self.responses)
        return np.array(v).reshape(-1, n), np.array(e).reshape(-1, n)


def mag(x):
    return -2.5 * np.log10(x)


def magerr(v, e):
    """allowance in mag for a flux v with allowance e"""
    with np.errstate(all='ignore'):
        return np.where(v > 0, 1.0857 * e / np.maximum(v - e, 1e-300), np.inf)


def distmod(cosmo, z):
    """5 log10(d_L / 10 pc) of the configured cosmology."""
    z = np.asarray(z, dtype=np.float64)
    if hasattr(cosmo, 'luminosity_distance'):
        d = np.asarray(cosmo.luminosity_distance(z).to_value('Mpc'))
        return 5. * np.log10(d) + 25.
    import astropy.units
    return np.asarray(cosmo.distmod(z).to_value(astropy.units.mag))


# -------------------------------------------------------------- weights

def kkt(A, maggies, ivar, c, S=None):
    """Largest violation of the optimality conditions of non-negative least
    squares, in units of what rounding allows (more than 1: not optimal).

    S is the scale of the rounding error of A."""
    A = np.asarray(A, dtype=np.float64)
    w = np.sqrt(np.asarray(ivar, dtype=np.float64))
    b = np.asarray(maggies, dtype=np.float64) * w
    c = np.asarray(c, dtype=np.float64)
    Aw = A * w[:, None]
    Ac = Aw.dot(c)
    r = b - Ac
    g = Aw.T.dot(r)
    norm = np.sqrt((Aw**2).sum(axis=0)) * (np.sqrt((b**2).sum()) +
                                          np.sqrt(((Aw * c[None, :])**2).sum()))
    allow = 2e-5 * norm
    if S is not None:
        Sw = REL * np.asarray(S, dtype=np.float64) * w[:, None]
        allow = allow + 2. * (Sw.T.dot(np.abs(r)) + np.abs(Aw).T.dot(Sw.dot(c)) +
                              Sw.T.dot(Sw.dot(c)))
    with np.errstate(all='ignore'):
        rel = np.where(allow > 0, g / allow, 0.)
    worst_up = max(0., rel.max()) if len(rel) else 0.
    active = c > 0
    worst_in = np.abs(rel[active]).max() if active.any() else 0.
    return max(worst_up, worst_in)


def chi2(A, maggies, ivar, c):
    r = np.asarray(maggies, dtype=np.float64) - np.asarray(A, dtype=np.float64).dot(
        np.asarray(c, dtype=np.float64))
    return float((r**2 * np.asarray(ivar, dtype=np.float64)).sum())


def best_by_support(A, maggies, ivar):
    """Optimum of non-negative weighted least squares by trying every support
    (only for few templates)."""
    A = np.asarray(A, dtype=np.float64)
    w = np.sqrt(np.asarray(ivar, dtype=np.float64))
    b = np.asarray(maggies, dtype=np.float64) * w
    Aw = A * w[:, None]
    n = A.shape[1]
    best = (float((b**2).sum()), np.zeros(n))
    sc = np.sqrt((Aw**2).sum(axis=0))
    for k in range(1, n + 1):
        for sup in itertools.combinations(range(n), k):
            s = list(sup)
            if (sc[s] == 0).any():
                continue
            x, *_ = np.linalg.lstsq(Aw[:, s] / sc[s], b, rcond=None)
            if (x < 0).any():
                continue
            c = np.zeros(n)
            c[s] = x / sc[s]
            v = float(((b - Aw.dot(c))**2).sum())
            if v < best[0]:
                best = (v, c)
    return best


# -------------------------------------------------------------- utils

ABFIX = np.array([-0.036, 0.012, 0.010, 0.028, 0.040])
B0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10])


def ab_correct(maggies, ivar=None, abfix=ABFIX):
    f = 10.**(-0.4 * np.asarray(abfix, dtype=np.float64))
    m = np.asarray(maggies, dtype=np.float64) * f
    if ivar is None:
        return m
    return m, np.asarray(ivar, dtype=np.float64) / f**2


def asinh_mag(maggies):
    """SDSS asinh magnitudes of maggies [..., 5]."""
    m = np.asarray(maggies, dtype=np.float64)
    return -2.5 / np.log(10.) * (np.arcsinh(m / (2. * B0)) + np.log(B0))


def read_basel(filename):
    """info, wave [nm], flux of a Basel file, by position in the text."""
    words = open(filename).read().split()
    nw = 1221
    wave = np.array(words[:nw], dtype=np.float64)
    rest = words[nw:]
    n = len(rest) // (nw + 6)
    head, flux = [], []
    for i in range(n):
        blk = rest[i * (nw + 6):(i + 1) * (nw + 6)]
        head.append([float(x) for x in blk[:6]])
        flux.append([float(x) for x in blk[6:]])
    return np.array(head), wave, np.array(flux)


def basel_sed(datadir, name):
    """The shipped solar ('sun') or Vega ('vega') model in erg/s/cm^2/A."""
    head, wave, flux = read_basel(os.path.join(datadir, 'basel', 'lcb' + name + '.ori'))
    wave = wave * 10.
    pc = 3.086e18
    if name == 'sun':
        dil = (6.960e10 / (10. * pc))**2
    else:
        dil = (1.91144e11 / (7.68 * pc))**2
    f = np.pi * 4. * flux * 2.99792e18 / wave**2 * dil
    return Spec(wave, f)
