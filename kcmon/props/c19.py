"""C19 Asinh magnitudes convert to the right maggies and errors."""
import numpy as np

from .. import digest, gen, observe, ref, work

kc = gen.kc
conv = kc.utils.sdss_asinh_to_maggies
RULE = ('Random asinh magnitudes (bright, faint, at and beyond zero flux), errors and extinctions '
        'as one object and catalogues of any size (also five), in many array forms, with and '
        'without errors and extinction, are converted and compared in float64 with the inverse '
        'of the asinh magnitude, its derivative, themselves re-encoded, and the same objects '
        'converted alone or with others changed; fits of asinh magnitudes with fits of the '
        'converted maggies. Distinct by size, form and options.')
ASSUMPTIONS = ['softening 1.4, 0.9, 1.2, 1.8, 7.4e-10 maggies for ugriz, as documented by SDSS',
               'float32 results: argument of sinh good to 5e-6']
MIN_EVENTS = {'values': 15000, 'negative': 500, 'zero_crossing': 100, 'errors': 10000,
              'extinctions': 3000, 'asinh_fits': 80}
ARG = 5e-6


def expect(mag, err, ext):
    x = -np.log(ref.B0) - 0.4 * np.log(10.) * mag
    e = 1. if ext is None else 10.**(0.4 * ext)
    m = 2. * ref.B0 * np.sinh(x) * e
    mt = 2. * ref.B0 * np.cosh(x) * e * ARG + 1e-6 * np.abs(m)
    if err is None:
        return m, mt, None
    s = 2. * ref.B0 * np.cosh(x) * e * 0.4 * np.log(10.) * np.abs(err)
    return m, mt, 1. / s**2


def draw(rng, shape):
    u = rng.random()
    if u < 0.5:
        mag = rng.uniform(12., 24., shape)
    elif u < 0.8:
        mag = rng.uniform(20., 30., shape)
    elif u < 0.95:
        mag = rng.uniform(2., 36., shape)
    else:
        # brighter than anything in the sky
        mag = rng.uniform(-12., 14., shape)
    zero = -2.5 / np.log(10.) * np.log(ref.B0)
    near = rng.random(shape) < 0.1
    mag = np.where(near, zero + rng.choice([0., 1e-5, 1e-3, 0.1], size=shape) *
                   rng.choice([-1., 1.], size=shape), mag)
    err = 10.**rng.uniform(-3.5, 0.7, shape)
    ext = rng.uniform(0., 3., shape) if rng.random() < 0.7 else rng.uniform(-0.5, 8., shape)
    ext = np.where(rng.random(shape) < 0.1, 0., ext)
    if rng.random() < 0.2:
        # the same in each band of an object
        ext = np.broadcast_to(ext[..., :1], shape).copy()
    return np.float32(mag), np.float32(err), np.float32(ext)


def judge(mon, mag, err, ext, got, what):
    M = np.float64(mag)
    m, mt, v = expect(M, None if err is None else np.float64(err),
                      None if ext is None else np.float64(ext))
    if err is None:
        mon.check(not isinstance(got, tuple), what + ': errors without being asked')
        g = got
    else:
        mon.check(isinstance(got, tuple) and len(got) == 2, what + ': no inverse variances')
        g, gv = got
        mon.close(gv, v, what + ': inverse variances', rtol=4e-5)
        mon.event('errors', int(v.size))
    mon.close(g, m, what + ': maggies', rtol=0., atol=mt)
    mon.event('values', int(m.size))
    mon.event('negative', int((m < 0).sum()))
    mon.event('zero_crossing', int((np.abs(m) < 1e-11).sum()))
    # re-encoded
    g0 = np.float64(g) / (1. if ext is None else 10.**(0.4 * np.float64(ext)))
    mon.close(ref.asinh_mag(g0), M, what + ': re-encoding', rtol=0., atol=2.5 * ARG)


def convert(rng, mon):
    n = None if rng.random() < 0.25 else int(rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 40, 300]))
    shape = (5,) if n is None else (n, 5)
    mag, err, ext = draw(rng, shape)
    kinds = []
    mon.note(n=n)
    for useerr in (True, False):
        for useext in (True, False):
            kk = [str(rng.choice(gen.FORMS)) for _ in range(3)]
            a = gen.form(rng, mag, kk[0])
            b = gen.form(rng, err, kk[1]) if useerr else None
            c = gen.form(rng, ext, kk[2]) if useext else None
            kinds.append(kk)
            before = digest.digest(a, b, c)
            got = conv(mag=a, mag_err=b, extinction=c)
            mon.check(digest.digest(a, b, c) == before, 'conversion changed its inputs')
            judge(mon, mag, err if useerr else None, ext if useext else None, got,
                  'conversion')
            if useerr and useext:
                full = got
                mon.event('extinctions', int(mag.size))
            elif useerr:
                bare = got
    mon.key(n, kinds)
    # signal-to-noise without and with extinction
    sn = [np.float64(g) * np.sqrt(np.float64(v)) for g, v in (full, bare)]
    x = -np.log(ref.B0) - 0.4 * np.log(10.) * np.float64(mag)
    tol = 3. * ARG / np.tanh(1e-6 + np.abs(x)) + 2e-5
    mon.close(sn[0] / sn[1] * (sn[1] != 0.) + (sn[1] == 0.), np.ones(shape),
              'extinction changes signal-to-noise', rtol=0., atol=tol)
    mt = expect(np.float64(mag), None, np.float64(ext))[1]
    # alone, in another order, with the others changed
    if n is not None:
        o = rng.permutation(n)
        g, v = conv(mag=mag[o], mag_err=err[o], extinction=ext[o])
        mon.close(g, np.asarray(full[0])[o], 'order of objects matters', rtol=2e-7,
                  atol=mt[o])
        mon.close(v, np.asarray(full[1])[o], 'order of objects matters', rtol=2e-6)
        for i in rng.permutation(n)[:3]:
            g, v = conv(mag=mag[i], mag_err=err[i], extinction=ext[i])
            mon.close(g, full[0][i], 'an object alone', rtol=1e-6, atol=mt[i])
            mon.close(v, full[1][i], 'an object alone', rtol=1e-6)
            m1, e1, x1 = mag.copy(), err.copy(), ext.copy()
            j = int(rng.integers(5))
            m1[i, j] += np.float32(1.)
            e1[i, j] *= np.float32(3.)
            x1[i, j] += np.float32(0.5)
            g, v = conv(mag=m1, mag_err=e1, extinction=x1)
            keep = np.ones(shape, dtype=bool)
            keep[i, j] = False
            mon.close(np.asarray(g)[keep], np.asarray(full[0])[keep], 'one value changes others',
                      rtol=2e-7, atol=mt[keep])
            mon.close(np.asarray(v)[keep], np.asarray(full[1])[keep], 'one value changes others',
                      rtol=2e-6)
            mon.event('independence')
    # again
    g, v = conv(mag=mag, mag_err=err, extinction=ext)
    mon.close(g, full[0], 'repeated conversion', rtol=2e-7, atol=mt)
    mon.close(v, full[1], 'repeated conversion', rtol=2e-6)


def fits(rng, mon):
    """fit_coeffs_asinh equals the fit of the converted maggies."""
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, cls='KcorrectSDSS', nz=int(rng.choice([3, 8, 20])))
        mon.note(**gen.describe(c))
        mon.key(c['_mode'], m.nsed, m.nz, c['abcorrect'])
        for n in (None, 1, int(rng.choice([2, 5, 9]))):
            nn = 1 if n is None else n
            z = gen.redshifts(rng, m, nn)
            mg, iv = gen.photometry(rng, m, z, scale=float(10.**rng.uniform(-10, -4)))
            mag = np.float32(ref.asinh_mag(mg))
            s = 1. / np.sqrt(np.maximum(np.float64(iv), 1e-12))
            err = s / (2. * ref.B0 * np.sqrt(1. + (mg / (2. * ref.B0))**2)) / (0.4 * np.log(10.))
            err = np.float32(np.clip(err, 1e-3, 1e4))
            ext = np.float32(rng.uniform(0., 1.5, mag.shape))
            if n is None:
                z, mag, err, ext = z[0], mag[0], err[0], ext[0]
            use = bool(rng.random() < 0.7)
            f = lambda x: gen.form(rng, x)     # noqa: E731
            got = k.fit_coeffs_asinh(redshift=f(z), mag=f(mag), mag_err=f(err),
                                     extinction=f(ext) if use else None)
            x = ext if use else None
            g, _, v = expect(np.float64(mag), np.float64(err),
                             None if x is None else np.float64(x))
            cg, cv = conv(mag=mag, mag_err=err, extinction=x)
            judge(mon, mag, err, x, (cg, cv), 'conversion')
            want = k.fit_coeffs(redshift=z, maggies=cg, ivar=cv)
            mon.check(np.shape(got) == np.shape(want), 'shape of the weights',
                      got=np.shape(got), want=np.shape(want))
            work.same_fit(mon, m, z, *gen.to_ab_ref(c, g, v), got, want,
                          'the fit of asinh magnitudes is not that of their maggies')
            mon.event('asinh_fits')


FAMILIES = [
    ('convert', convert, 180, 6000),
    ('fits', fits, 40, 700),
]
