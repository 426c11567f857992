"""C05 Projection gives photon-weighted AB maggies."""
import numpy as np

from .. import gen, ref

kc = gen.kc
RULE = ('A case draws a spectrum or a set (1-8 spectra, 5-3000 samples, breaks and lines, '
        'coarse and fine, covering, partly covering or missing the band) and shipped and new '
        'bandpasses (non-zero edges, negative lobes, few samples), projects by every calling '
        'form and compares with an independent float64 integral on the union of the samples. '
        'Distinct by band, sampling and coverage; non-trivial if the ranges overlap.')
ASSUMPTIONS = ['between samples, spectra and responses are the cubic splines through them',
               'float32 rounding up to 1e-5 of the integral of absolute values']
MIN_EVENTS = {'projections': 2000, 'overlapping': 1000, 'edge_nonzero': 50, 'ab_sources': 100}

ALL = gen.shipped()
REAL = [n for n in ALL if 1000. < gen.band(n).wave[0] and gen.band(n).wave[-1] < 60000.]


def a_response(rng, lo=None, hi=None):
    """A Response, its reference, its name"""
    if rng.random() < 0.5:
        n = str(rng.choice(REAL))
        f = kc.response.ResponseDict()
        f.load_response(n)
        return f[n], gen.band(n), n
    w, r = gen.curve(rng, lo, hi)
    if rng.random() < 0.15:
        w, r = w[:: max(1, len(w) // 6)], r[:: max(1, len(w) // 6)]
        if len(w) < 5 or r.max() <= 0.:
            w, r = gen.curve(rng, lo, hi, n=12)
    o = rng.permutation(len(w)) if rng.random() < 0.4 else np.arange(len(w))
    return kc.response.Response(wave=w[o], response=r[o]), ref.Band(w, r), 'new'


def a_spectrum(rng, band, nsed=None):
    """wave, flux float32, arranged around the band"""
    b0, b1 = band.wave[0], band.wave[-1]
    u = rng.random()
    n = int(rng.choice([8, 20, 60, 200, 800, 3000]))
    many = nsed is None and rng.random() < 0.02
    if many:
        n, nsed = min(n, 60), int(rng.integers(100, 1300))
    elif rng.random() < 0.02:
        n = int(rng.integers(5000, 70000))
    if u < 0.55:
        lo, hi = b0 * rng.uniform(0.2, 0.9), b1 * rng.uniform(1.1, 4.)
        how = 'covering'
    elif u < 0.7:
        lo, hi = b0 * rng.uniform(0.3, 0.9), b0 + (b1 - b0) * rng.uniform(0.1, 0.9)
        how = 'blue part'
    elif u < 0.85:
        lo, hi = b0 + (b1 - b0) * rng.uniform(0.1, 0.9), b1 * rng.uniform(1.1, 3.)
        how = 'red part'
    elif u < 0.93:
        lo, hi = b0 + (b1 - b0) * rng.uniform(0.1, 0.3), b1 - (b1 - b0) * rng.uniform(0.1, 0.3)
        how = 'within'
    else:
        if rng.random() < 0.5:
            lo, hi = b0 * 0.3, b0 * rng.uniform(0.5, 0.98)
        else:
            lo, hi = b1 * rng.uniform(1.02, 2.), b1 * 3.
        how = 'missing'
    nsed = int(nsed or rng.choice([1, 1, 2, 3, 8]))
    w = np.sort(np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) *
                       (np.arange(n) + rng.uniform(-0.3, 0.3, n)) / (n - 1.)))
    w[0], w[-1] = lo, hi
    w = np.unique(np.float32(w))
    x = np.log(w / np.float32(5500.))
    f = np.zeros((nsed, len(w)))
    for i in range(nsed):
        y = np.exp(np.clip(rng.uniform(-3, 3) * x, -12, 12))
        for _ in range(int(rng.integers(0, 4))):
            xb = x[0] + (x[-1] - x[0]) * rng.random()
            y = y * (1. + rng.uniform(0.1, 3.) * np.exp(-0.5 * ((x - xb) / 0.02)**2))
        f[i] = y
    if rng.random() < 0.15:
        f = f * rng.choice([1., -1.], size=f.shape)
    f *= 10.**rng.uniform(-18, -3)
    return w, np.float32(f), how


def judge(mon, got, spec, band, z, what, **data):
    """Compare a projection with the reference."""
    v, s, info = ref.project(spec, band, z)
    got = np.asarray(got, dtype=np.float64)
    mon.event('projections')
    if info['overlap']:
        mon.event('overlapping')
    if not info['overlap']:
        mon.check(np.all(got == 0.), what + ': not zero without overlap', got=got, **data)
        return v, s, info
    if info['inside'] == 0:
        mon.event('no_sample_inside')
    # the wavelengths are float32 in part
    tol = ref.REL * s
    mon.check(got.shape in (v.shape, ()) and (got.size == v.size),
              what + ': shape {}'.format(got.shape), **data)
    mon.close(got.reshape(v.shape), v, what, rtol=0., atol=tol, **data)
    return v, s, info


def near_edge(spec, band, z, eps=3e-7):
    """An end of the spectrum coincides with a sample of the band (or the
    other way round) to within float32 rounding."""
    sw = spec.wave[[0, -1]] * (1. + z)
    d = np.abs(sw[:, None] / band.wave[None, :] - 1.)
    e = np.abs(spec.wave[:, None] * (1. + z) / band.wave[None, [0, -1]] - 1.)
    return d.min() < eps or e.min() < eps


def projections(rng, mon):
    r, band, name = a_response(rng)
    w, f, how = a_spectrum(rng, band)
    z = 0. if rng.random() < 0.3 else float(rng.uniform(-0.3, 2.5))
    if how == 'missing':
        z = 0.
    spec = ref.Spec(w, f)
    mon.note(band=name, nwave=len(w), nsed=f.shape[0], how=how, z=z)
    if near_edge(spec, band, z) or near_edge(spec, band, 0.):
        mon.event('ambiguous_edges')
        return
    edge = max(abs(band.response[0]), abs(band.response[-1])) / np.abs(band.response).max()
    if edge > 0.01:
        mon.event('edge_nonzero')
    mon.key(name, len(w), f.shape[0], how, round(z, 3), round(float(band.wave[0]), 1))
    interp = bool(rng.random() < 0.7)
    sed = kc.template.SED(wave=w.copy(), flux=(f[0] if (f.shape[0] == 1 and rng.random() < 0.5)
                                              else f).copy(), interpolate=True)
    sed.set_redshift(z)
    judge(mon, r.project(sed=sed), spec, band, z, 'projection of a spectrum object')
    # as arrays
    v, s, info = judge(mon, r.project(wave=w, flux=f), spec, band, 0., 'projection of arrays')
    if f.shape[0] > 1:
        for i in (range(f.shape[0]) if f.shape[0] < 10 else rng.integers(0, f.shape[0], 6)):
            judge(mon, r.project(wave=w, flux=f[i]), ref.Spec(w, f[i]), band, 0.,
                  'projection of one of a set')
    fz = (spec.flux / (1. + z))
    # (the shifted wavelengths themselves are rounded to float32)
    w32, f32 = np.float32(spec.wave * (1. + z)), np.float32(fz)
    if len(np.unique(w32)) == len(w32) and not near_edge(ref.Spec(w32, f32), band, 0.):
        judge(mon, r.project(wave=w32, flux=f32), ref.Spec(w32, f32), band, 0.,
              'projection of shifted arrays')
        if interp:
            judge(mon, r.project(wave=list(w32.astype(float)), flux=f32.astype(float).tolist()),
                  ref.Spec(w32, f32), band, 0., 'projection of lists')


def ab_source(rng, mon):
    r, band, name = a_response(rng)
    mon.key(name, round(float(band.wave[0]), 2))
    n = int(rng.choice([400, 1500, 4000]))
    w = np.logspace(np.log10(band.wave[0] * rng.uniform(0.5, 0.97)),
                    np.log10(band.wave[-1] * rng.uniform(1.03, 2.)), n)
    w = np.float32(w)
    spec = ref.Spec(w, np.float32(ref.ab_flux(w)))
    if near_edge(spec, band, 0.):
        return
    mon.note(band=name, nwave=n)
    for flux in (kc.utils.sed_ab(w), np.float32(ref.ab_flux(w))):
        v, s, info = ref.project(spec, band)
        sed = kc.template.SED(wave=w, flux=np.float32(flux))
        tol = 2e-5 * s + 3. * abs(v - 1.)
        mon.close(np.reshape(r.project(sed=sed), -1), np.ones(1), 'the AB source is not one',
                  rtol=0., atol=tol)
        mon.close(np.reshape(r.project(wave=w, flux=np.float32(flux)), -1), np.ones(1),
                  'the AB source is not one', rtol=0., atol=tol)
        mon.event('ab_sources', 2)
        mon.event('projections', 2)


def linear(rng, mon):
    r, band, name = a_response(rng)
    w, f, how = a_spectrum(rng, band, nsed=2)
    spec = ref.Spec(w, f)
    if near_edge(spec, band, 0.) or how == 'missing':
        return
    a, b = 10.**rng.uniform(-3, 3, 2) * rng.choice([1., -1.], 2)
    f[1] *= np.float32(np.abs(f[0]).max() / np.abs(f[1]).max() * abs(a / b))
    mon.key(name, len(w), how)
    mon.note(band=name, nwave=len(w), how=how)
    p = [np.float64(np.squeeze(r.project(wave=w, flux=f[i]))) for i in range(2)]
    mix = np.float32(a * np.float64(f[0]) + b * np.float64(f[1]))
    _, s, info = ref.project(ref.Spec(w, f), band)
    tol = 3. * ref.REL * (abs(a) * s[0] + abs(b) * s[1])
    mon.close(np.reshape(r.project(wave=w, flux=mix), -1), np.reshape(a * p[0] + b * p[1], -1),
              'projection is not linear', rtol=0., atol=tol)
    mon.event('projections', 3)
    mon.event('linear')
    for q in (1e-12, 1e3, -1.):
        mon.close(np.reshape(r.project(wave=w, flux=np.float32(f[0] * q)), -1),
                  np.reshape(q * p[0], -1), 'projection does not scale with the flux',
                  rtol=0., atol=3. * ref.REL * abs(q) * s[0])


def normalisation(rng, mon):
    """The unit of the response, its sample order and float type do not matter."""
    w, r = gen.curve(rng)
    band = ref.Band(w, r)
    sw, f, how = a_spectrum(rng, band)
    spec = ref.Spec(sw, f)
    if near_edge(spec, band, 0.):
        return
    mon.key(len(w), len(sw), how, round(float(w[0]), 1))
    mon.note(nwave=len(sw), nband=len(w), how=how)
    for q in (1., 1e-8, 1e6, float(10.**rng.uniform(-12, 12))):
        o = rng.permutation(len(w))
        R = kc.response.Response(wave=w[o], response=(r * q)[o])
        judge(mon, R.project(wave=sw, flux=f), spec, band, 0., 'unit of the response matters',
              factor=q)
        mon.event('normalisations')


def sequence(rng, mon):
    """One bandpass and one spectrum object used over and over."""
    r, band, name = a_response(rng)
    w, f, how = a_spectrum(rng, band, nsed=int(rng.choice([1, 3])))
    spec = ref.Spec(w, f)
    sed = kc.template.SED(wave=w, flux=f)
    mon.key(name, len(w), how, f.shape[0])
    mon.note(band=name, nwave=len(w), how=how)
    for _ in range(12):
        z = float(rng.choice([0., 0.1, 0.1001, float(rng.uniform(-0.2, 1.5))]))
        if near_edge(spec, band, z):
            continue
        sed.set_redshift(z)
        judge(mon, r.project(sed=sed), spec, band, z, 'projection in a sequence')
        if rng.random() < 0.5:
            r2, band2, _ = a_response(rng)
            if not near_edge(spec, band2, z):
                judge(mon, r2.project(sed=sed), spec, band2, z, 'projection in a sequence')
        if rng.random() < 0.3 and not near_edge(spec, band, 0.):
            judge(mon, r.project(wave=w, flux=f * np.float32(2.)),
                  ref.Spec(w, f * np.float32(2.)), band, 0., 'projection in a sequence')


def coarse(rng, mon):
    """Spectra sampled more coarsely than the band is wide."""
    r, band, name = a_response(rng)
    b0, b1 = band.wave[0], band.wave[-1]
    n = int(rng.integers(4, 9))
    w = np.unique(np.float32(np.sort(rng.uniform(b0 * 0.3, b1 * 2.5, n))))
    if len(w) < 4:
        return
    f = np.float32(rng.uniform(0.5, 2., (int(rng.choice([1, 3])), len(w))) * 1e-9)
    spec = ref.Spec(w, f)
    if near_edge(spec, band, 0.):
        return
    mon.key(name, len(w), int(((w > b0) & (w < b1)).sum()))
    mon.note(band=name, nwave=len(w), inside=int(((w > b0) & (w < b1)).sum()))
    judge(mon, r.project(wave=w, flux=f), spec, band, 0., 'projection of a coarse spectrum')
    mon.event('coarse')


FAMILIES = [
    ('projections', projections, 600, 9000),
    ('ab_source', ab_source, 120, 1200),
    ('linear', linear, 100, 1500),
    ('normalisation', normalisation, 60, 900),
    ('sequence', sequence, 60, 900),
    ('coarse', coarse, 80, 900),
]
