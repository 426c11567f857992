"""C22 Flux conversion uses the AB source at the effective wavelength."""
import numpy as np

from .. import digest, gen, ref
from . import c16

kc = gen.kc
convert = kc.utils.maggies2flambda
RULE = ('Random maggies and inverse variances of one object and catalogues, in lists of shipped and '
        'new bandpasses (repeated, in any order, loaded before or not), are converted and compared '
        'in float64 with the AB source at the effective wavelength of the samples of the files; '
        'the AB source itself is compared over all wavelengths; sources projected through a band '
        'and converted are compared with their flux at the effective wavelength. Distinct by '
        'band list and shape.')
ASSUMPTIONS = ['3631 Jy and c = 2.99792e18 A/s to 1e-5']
MIN_EVENTS = {'values': 6000, 'on_demand': 150, 'sources': 200, 'ab_values': 5000}
REAL = gen.shipped()


def source(rng, mon):
    """sed_ab"""
    for n in (1, 2, 7, 300):
        w = 10.**rng.uniform(1.5, 7, n)
        for x in (w, np.float32(w), w.astype('>f8'), w[::-1], w.reshape(1, -1)):
            x0 = np.array(x)
            g = kc.utils.sed_ab(x)
            mon.close(g, ref.ab_flux(x), 'the AB source is not 3631 Jy', rtol=1e-5)
            mon.same(x, x0, 'sed_ab changed its input')
            mon.event('ab_values', n)
    v = float(w[0])
    mon.close(kc.utils.sed_ab(v), ref.ab_flux(v), 'the AB source of a scalar', rtol=1e-5)
    mon.close(kc.utils.sed_ab(wave=np.float32(v)), ref.ab_flux(np.float64(np.float32(v))),
              'the AB source of a scalar', rtol=1e-5)
    # f_nu, at 1 micron in cgs: 3631 Jy
    mon.close(kc.utils.sed_ab(np.array([1e4])) * 1e8 / 2.99792458e18, [3631e-23],
              'f_nu of the AB source', rtol=1e-5)
    mon.key(round(v, 3))


def names(rng):
    k = int(rng.choice([1, 2, 3, 5, 8])) if rng.random() < 0.93 else int(rng.integers(9, 40))
    out = [str(x) for x in rng.choice(REAL if rng.random() < 0.5 else gen.POOL, size=k)]
    for i in range(k):
        if rng.random() < 0.2:
            out[i] = gen.user_band(rng)
        elif i and rng.random() < 0.15:
            out[i] = out[int(rng.integers(i))]
    return [n for n in out if n not in ('blah', 'test')] or ['sdss_r0']


def fluxes(rng, mon):
    f = kc.response.ResponseDict()
    f.clear()
    resp = names(rng)
    nb = len(resp)
    loaded = [n for n in set(resp) if rng.random() < 0.3]
    for n in sorted(loaded):
        f.load_response(n)
    before = c16.snap(f)
    n = None if rng.random() < 0.3 else int(rng.choice([1, 2, nb, nb, 5, 40])) if rng.random() < 0.93 else \
        int(rng.choice([65, 300, 5000]))
    shape = (nb,) if n is None else (n, nb)
    mg = np.float32(rng.standard_normal(shape) * 10.**rng.uniform(-12, 2))
    iv = np.float32(np.minimum(rng.exponential(1., shape) * 10.**rng.uniform(-3, 26), 1e34))
    mg = np.where(rng.random(shape) < 0.1, np.float32(0.), mg)
    iv = np.where(rng.random(shape) < 0.15, np.float32(0.), iv)
    mon.note(bands=[x.split('/')[-1] for x in resp], n=n)
    mon.key(resp, n)
    forms = ['f4', 'f8', 'bigf4', 'bigf8', 'fortran', 'strided', 'negstride', 'readonly', 'view']
    le = np.array([ref.lambda_eff(gen.band(x).wave, gen.band(x).response) for x in resp])
    s = ref.ab_flux(le)
    w = np.broadcast_to(s, shape) * np.float64(mg)
    wv = np.float64(iv) / np.broadcast_to(s, shape)**2
    for rnd in range(3):
        a, b = gen.form(rng, mg, str(rng.choice(forms))), gen.form(rng, iv, str(rng.choice(forms)))
        r = [list, tuple][int(rng.integers(2))](resp)
        dig = digest.digest(a, b, list(r))
        out = convert(maggies=a, ivar=b, responses=r)
        mon.check(digest.digest(a, b, list(r)) == dig, 'conversion changed its inputs')
        mon.check(isinstance(out, tuple) and len(out) == 3, 'does not return three arrays')
        mon.close(out[0], le, 'wavelengths are not effective wavelengths in the order given',
                  rtol=1e-5)
        mon.close(out[1], w, 'flux densities', rtol=4e-5)
        mon.close(out[2], wv, 'inverse variances', rtol=8e-5)
        with np.errstate(all='ignore'):
            sn = np.float64(out[1]) * np.sqrt(np.float64(out[2]))
        mon.close(sn, np.float64(mg) * np.sqrt(np.float64(iv)), 'signal-to-noise', rtol=1e-5)
        two = convert(maggies=a, responses=r)
        mon.check(isinstance(two, tuple) and len(two) == 2, 'does not return two arrays')
        mon.same(two[0], out[0], 'wavelengths without errors')
        mon.same(two[1], out[1], 'flux densities without errors')
        mon.event('values', int(mg.size))
        if rnd == 0:
            mon.check(set(f) == set(resp), 'bands are not loaded on demand', got=sorted(f),
                      want=sorted(set(resp)))
            c16.unchanged(mon, f, before, 'conversion', but=set(resp) - set(before))
            mon.event('on_demand', len(set(resp) - set(before)))
    # alone, and in another order
    if n is not None:
        i = int(rng.integers(n))
        one = convert(maggies=mg[i], ivar=iv[i], responses=resp)
        mon.close(one[1], out[1][i], 'an object alone', rtol=1e-6)
        mon.close(one[2], out[2][i], 'an object alone', rtol=1e-6)
    o = rng.permutation(nb)
    per = convert(maggies=mg[..., o], ivar=iv[..., o], responses=[resp[i] for i in o])
    for g, want in zip(per, out):
        mon.close(g, np.asarray(want)[..., o], 'order of bands', rtol=1e-6)
    f.clear()


def reloaded(rng, mon):
    """A band whose file changed, reloaded: the new wavelength."""
    f = kc.response.ResponseDict()
    p = gen.user_band(rng)
    mg = np.float32(rng.random(2) + 0.1)
    for _ in range(3):
        b = gen.band(p)
        out = convert(maggies=mg, responses=[p, 'sdss_g0'])
        le = ref.lambda_eff(b.wave, b.response)
        mon.close(out[0][0], le, 'effective wavelength', rtol=1e-5)
        mon.close(out[1][0], ref.ab_flux(le) * np.float64(mg[0]), 'flux density', rtol=4e-5)
        gen.write_dat(p + '.dat', *gen.curve(rng))
        f.load_response(p, reload=True)
        mon.event('reloads')
    mon.key(round(float(le), 2))
    f.clear()


def physical(rng, mon):
    """A source, projected and converted, has its own flux density at the
    effective wavelength to within the width of the band."""
    f = kc.response.ResponseDict()
    name = str(rng.choice(gen.POOL)) if rng.random() < 0.5 else gen.user_band(rng, kind=str(rng.choice(gen.SMOOTH)))
    f.load_response(name)
    b = gen.band(name)
    le = ref.lambda_eff(b.wave, b.response)
    w = np.float32(np.linspace(b.wave[0] * 0.9, b.wave[-1] * 1.1, 2000))
    s = float(rng.uniform(-2., 2.))
    amp = 10.**rng.uniform(-10, 2)
    src = amp * ref.ab_flux(np.float64(w)) * (np.float64(w) / le)**s
    m = f[name].project(wave=w, flux=np.float32(src))
    wave, flux = convert(maggies=np.float32(np.reshape(m, -1)), responses=[name])
    want = amp * ref.ab_flux(le)
    x = np.abs(np.log(b.wave / le))
    wt = ref.trapz(b.response / b.wave, b.wave)
    width = np.sqrt(ref.trapz(x**2 * b.response / b.wave, b.wave) / wt)
    tol = 4. * abs(s) * width**2 + (s * width)**2 + 2e-4 + abs(s) * width * 0.3
    mon.check(abs(float(flux[0]) / want - 1.) <= tol, 'not the flux density of the source',
              got=float(flux[0]), want=want, band=name, slope=s, width=width)
    mon.event('sources')
    mon.key(name, round(s, 3))


FAMILIES = [
    ('source', source, 30, 300),
    ('fluxes', fluxes, 200, 6000),
    ('reloaded', reloaded, 12, 200),
    ('physical', physical, 240, 4000),
]
