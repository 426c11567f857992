"""C17 Bandpass summary quantities follow their definitions."""
import os

import numpy as np

from .. import gen, ref

kc = gen.kc
RULE = ('Every shipped bandpass, and new ones (regular and irregular samples, any unit, any order '
        'of samples, wide, narrow and few samples, half peak between, at and beyond the samples, '
        'ultraviolet to far infrared, inside and outside the stellar models) are read from files, '
        'FITS tables, arrays or the registry, also one object reading many in turn, and each '
        'derived quantity is compared with its definition evaluated in float64. Distinct by band.')
ASSUMPTIONS = ['stellar models and responses between their samples are the cubic splines',
               'peak: the largest sample of the response',
               'the shipped models are at 10 pc (Sun) and 7.68 pc (Vega), radii as documented']
MIN_EVENTS = {'shipped': 150, 'made': 150, 'orders': 40, 'reread': 60, 'outside': 10,
              'solar': 300, 'vega': 300}
SUN = ref.basel_sed(gen.DATADIR, 'sun')
VEGA = ref.basel_sed(gen.DATADIR, 'vega')
ALL = gen.shipped()


def jittered(spec, n=12):
    # the models are kept in float32: where the spline is stiff (their
    # sampling becomes 250 times coarser at 10 microns) that is amplified
    g = np.random.default_rng(17)
    return ref.Spec(spec.wave, spec.flux * (1. + 2.4e-7 * g.uniform(-1., 1., (n, len(spec.wave)))))


JITTER = {id(SUN): jittered(SUN), id(VEGA): jittered(VEGA)}


def half(mon, r, b, which, what):
    """fwhm_low or fwhm_high is a place where the response passes half its
    peak, the outermost one to the resolution of the samples."""
    w, f = b.wave, b.response
    p = f.max()
    if which == 'low':
        got = float(r.fwhm_low)
    else:
        got = float(r.fwhm_high)
        w, f = w[::-1], f[::-1]
    tol = 2e-7 * abs(w[0])
    strict = int(np.argmax(f > 0.5 * p * (1. + 2e-6)))
    loose = int(np.argmax(f >= 0.5 * p * (1. - 2e-6)))
    # (samples at half the peak: rounding decides)
    a, c = sorted((w[max(loose - 1, 0)], w[strict]))
    ok = a - tol <= got <= c + tol
    mon.check(ok, '{}: fwhm_{} is not where the response first reaches half its peak'.format(
        what, which), got=got, between=[w[max(strict - 1, 0)], w[strict]])
    if loose == 0:
        mon.check(abs(got - w[0]) <= tol or abs(float(b(np.array([got]))[0]) - 0.5 * p) <= 1e-5 * p,
                  '{}: fwhm_{} of a band which starts above half its peak'.format(what, which),
                  got=got, want=w[0])
        mon.event('half_at_end')
        return
    x = np.clip(got, b.wave[0], b.wave[-1])
    v = float(b(np.array([x]))[0])
    slack = abs(float(b.slope(np.array([x]))[0])) * 3e-7 * abs(x)
    mon.check(abs(v - 0.5 * p) <= 1e-5 * p + slack,
              '{}: the response at fwhm_{} is not half its peak'.format(what, which),
              got=got, response=v, peak=p)
    mon.event('half')


def star(mon, got, spec, b, what, name):
    v, s, info = ref.project(spec, b)
    v, tol = float(v[0]), float(ref.REL * s[0])
    if b.wave[-1] > 90000.:
        j = ref.project(JITTER[id(spec)], b)[0]
        tol += 3. * float(np.abs(j - v).max())
    if not info['overlap']:
        mon.check(got is None, what + ': defined outside the model', got=got)
        mon.event('outside')
        return
    if got is None:
        if v <= tol:
            if name:
                # between its coarse far infrared samples the model, as
                # interpolated, may be negative (known findings)
                mon.finding('{}: no {} although the band is inside the model'.format(
                    name, 'solar_magnitude' if spec is SUN else 'vega2ab'))
                return
            mon.event('model_without_flux')
            # (a model may be dark in a band; one that is bright is not)
            # (and a response whose interpolation is negative gives nothing)
            fine = np.linspace(b.wave[0], b.wave[-1], 2000)
            mon.check(v > -tol or b(fine).min() < -1e-3 * b.response.max(),
                      what + ': undefined inside the model', reference=v)
            return
    mon.check(got is not None, what + ': undefined inside the model', reference=v)
    if v > tol:
        mon.close(got, -2.5 * np.log10(v), what, rtol=0.,
                  atol=2e-6 + float(ref.magerr(v, tol)))
        mon.event('solar' if spec is SUN else 'vega')


def judge(mon, r, b, what, name=''):
    mon.same(np.asarray(r.wave, dtype=np.float64), b.wave, what + ': wavelengths')
    mon.same(np.asarray(r.response, dtype=np.float64), b.response, what + ': responses')
    mon.check(int(r.nwave) == len(b.wave), what + ': nwave')
    le = ref.lambda_eff(b.wave, b.response)
    mon.close(r.lambda_eff, le, what + ': effective wavelength',
              rtol=3e-7 if np.asarray(r.wave).dtype.itemsize == 8 else 1e-5)
    if (b.response >= 0.).all():
        mon.check(b.wave[0] * (1 - 1e-6) <= float(r.lambda_eff) <= b.wave[-1] * (1 + 1e-6),
                  what + ': effective wavelength outside the band')
    half(mon, r, b, 'low', what)
    half(mon, r, b, 'high', what)
    mon.close(r.fwhm, float(r.fwhm_high) - float(r.fwhm_low), what + ': fwhm', rtol=1e-6,
              atol=3e-7 * b.wave[-1])
    star(mon, r.solar_magnitude, SUN, b, what + ': solar magnitude', name)
    star(mon, r.vega2ab, VEGA, b, what + ': Vega offset', name)
    # the interpolation itself
    x = np.concatenate([b.wave, 0.5 * (b.wave[1:] + b.wave[:-1]),
                        [b.wave[0] * 0.99, b.wave[-1] * 1.01, 0., -5.]])
    mon.close(r.interp(x), b(x), what + ': interpolation', rtol=1e-6,
              atol=3e-6 * np.abs(b.response).max())


def shipped(rng, mon):
    """index'th shipped band, every way of getting at it"""
    name = ALL[mon.index % len(ALL)]
    b = gen.band(name)
    mon.key(name)
    mon.note(band=name)
    f = kc.response.ResponseDict()
    f.load_response(name)
    judge(mon, f[name], b, 'registry', name)
    r = kc.response.Response(filename=name + '.dat')
    judge(mon, r, b, 'file', name)
    r = kc.response.Response(filename=os.path.join(gen.DATADIR, 'responses', name + '.dat'))
    judge(mon, r, b, 'absolute file', name)
    o = rng.permutation(len(b.wave))
    if len(np.unique(b.wave)) == len(b.wave):
        q = float(10.**rng.uniform(-8, 8))
        r = kc.response.Response(wave=b.wave[o], response=b.response[o] * q)
        judge(mon, r, ref.Band(b.wave, b.response * q), 'arrays', name)
    mon.event('shipped')


def made(rng, lo=None):
    u = rng.random()
    if lo is None:
        if u < 0.7:
            lo = float(10.**rng.uniform(np.log10(1200.), np.log10(40000.)))
        elif u < 0.8:
            lo = float(10.**rng.uniform(np.log10(1.7e6), 8.))
        elif u < 0.85:
            lo = float(rng.uniform(1., 40.))
        else:
            lo = float(rng.uniform(3000., 9000.))
    width = float(rng.choice([0.002, 0.02, 0.1, 0.4, 1.]))
    w, r = gen.curve(rng, lo, lo * (1. + width * rng.uniform(0.8, 1.2)),
                     n=int(rng.choice([5, 7, 11, 30, 100, 400])))
    u = rng.random()
    if u < 0.15:
        # plateau near half peak (at half peak rounding would decide)
        r = np.where(r >= 0.5 * r.max(), r.max(), rng.choice([0.48, 0.52]) * r.max())
    elif u < 0.25:
        r = np.ones(len(w)) * r.max()
    elif u < 0.35:
        # several peaks
        x = (w - w[0]) / (w[-1] - w[0])
        h = r.max()
        r = np.zeros(len(w)) + 1e-3 * h
        for p in np.arange(0.1, 1., rng.choice([0.13, 0.2, 0.27])):
            r += h * rng.uniform(0.35, 1.) * np.exp(-0.5 * ((x - p) / 0.03)**2)
    elif u < 0.45:
        # two peaks
        x = (w - w[0]) / (w[-1] - w[0])
        r = r.max() * (np.exp(-0.5 * ((x - 0.25) / 0.07)**2) +
                       rng.uniform(0.3, 1.) * np.exp(-0.5 * ((x - 0.7) / 0.07)**2))
    return w, r


def new(rng, mon):
    w, r = made(rng)
    q = float(10.**rng.uniform(-12, 12))
    how = str(rng.choice(['arrays', 'f4', 'dat', 'fits', 'registry']))
    mon.note(nwave=len(w), lo=float(w[0]), hi=float(w[-1]), how=how)
    mon.key(how, len(w), round(float(w[0]), 2))
    o = rng.permutation(len(w)) if rng.random() < 0.5 else np.arange(len(w))
    if how == 'f4':
        w, r = np.float32(w), np.float32(r * q)
        if len(np.unique(w)) < len(w):
            return
        R = kc.response.Response(wave=w[o], response=r[o])
    elif how == 'arrays':
        r = r * q
        R = kc.response.Response(wave=w[o], response=r[o])
    else:
        p = gen.scratch('band')
        gen.write_dat(p + '.dat', w[o], r[o])
        w, r = gen.read_dat(p + '.dat')
        if how == 'registry':
            f = kc.response.ResponseDict()
            f.load_response(p)
            R = f[p]
        else:
            R = kc.response.Response(filename=p + '.dat')
        if how == 'fits':
            R.tofits(p + '.fits')
            R = kc.response.Response()
            R.fromfits(p + '.fits')
    b = ref.Band(w, r)
    judge(mon, R, b, how)
    mon.event('made')


def orders(rng, mon):
    """Order of the samples and unit of the response change nothing."""
    w, r = made(rng, lo=float(rng.uniform(2000., 20000.)))
    mon.key(len(w), round(float(w[0]), 2))
    base = kc.response.Response(wave=w, response=r)
    for _ in range(3):
        o = rng.permutation(len(w))
        q = float(10.**rng.uniform(-15, 15))
        R = kc.response.Response(wave=w[o], response=(r * q)[o])
        for n in ('lambda_eff', 'fwhm_low', 'fwhm_high', 'solar_magnitude', 'vega2ab'):
            mon.close(getattr(R, n), getattr(base, n), n + ' depends on order or unit', rtol=2e-6,
                      atol=2e-5 if n in ('solar_magnitude', 'vega2ab') else 0.)
        mon.event('orders')


def reread(rng, mon):
    """One object reading several bands in turn."""
    R = kc.response.Response()
    seq = []
    for _ in range(6):
        how = str(rng.choice(['shipped', 'dat', 'fits', 'assigned']))
        name = ''
        if how == 'shipped':
            name = str(rng.choice(ALL))
            R.fromdat(filename=name + '.dat')
            b = gen.band(name)
        elif how == 'dat':
            p = gen.user_band(rng)
            R.fromdat(filename=p + '.dat')
            b = gen.band(p)
        elif how == 'fits':
            w, r = made(rng)
            p = gen.scratch('r.fits')
            kc.response.Response(wave=w, response=r).tofits(p)
            R.fromfits(p)
            b = ref.Band(w, r)
        else:
            w, r = made(rng)
            R.wave, R.response, R.nwave = w, r, len(w)
            R.set_interp()
            R.set_lambda_eff()
            R.set_solar_magnitude()
            R.set_vega2ab()
            R.set_fwhm_limits()
            b = ref.Band(w, r)
        seq.append(how)
        judge(mon, R, b, 'after ' + ' '.join(seq), name)
        mon.event('reread')
    mon.key(seq, name)
    mon.note(seq=seq)


def physics(rng, mon):
    """Values known from the literature, to a few hundredths."""
    f = kc.response.ResponseDict()
    for n, sun, vega in (('bessell_B', 5.31, -0.10), ('bessell_V', 4.80, 0.02),
                         ('bessell_R', 4.61, 0.19), ('sdss_g0', 5.12, -0.08),
                         ('sdss_r0', 4.64, 0.16), ('sdss_i0', 4.53, 0.37),
                         ('sdss_z0', 4.51, 0.54), ('twomass_J', 4.56, 0.91),
                         ('twomass_Ks', 5.14, 1.85)):
        f.load_response(n)
        mon.check(abs(f[n].solar_magnitude - sun) < 0.12, 'solar magnitude of ' + n,
                  got=f[n].solar_magnitude, literature=sun)
        mon.check(abs(f[n].vega2ab - vega) < 0.08, 'Vega offset of ' + n,
                  got=f[n].vega2ab, literature=vega)
        mon.event('literature')
    mon.key('physics')


FAMILIES = [
    ('shipped', shipped, len(ALL), 3 * len(ALL)),
    ('new', new, 480, 9000),
    ('orders', orders, 30, 800),
    ('reread', reread, 25, 600),
    ('physics', physics, 1, 1),
]
