"""C09 Absolute magnitudes follow m - DM - K, with -9999 where undefined."""
import numpy as np
import astropy.units

from .. import gen, observe, ref, work

RULE = ('A case builds a random object (class, band map, cosmology) and asks for absolute '
        'magnitudes of single objects and catalogues with negative, zero and missing '
        'photometry, with and without distances and band shifts; an observer evaluates '
        'm - DM - K independently for every value. Distinct by class, output mode, sizes, '
        'range, flags and cosmology.')
ASSUMPTIONS = ['what an object without any weights but with good photometry has as absolute '
               'magnitude is taken with K = 0, as the code documents for K-corrections']
MIN_EVENTS = {'absmags': 800, 'values_checked': 5000, 'undefined': 300, 'defined': 1000,
              'cosmologies_compared': 60}
P = ['C09']
OPS = ['absmag_all', 'absmag', 'absmag']


class _DistmodOnly(object):
    """All the constructor documents to need."""

    def __init__(self, c):
        self._c = c

    def distmod(self, z):
        return self._c.distmod(z)


def identity(rng, mon):
    """m - DM - K from what the object itself returns, and from the input."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    if not m.inside(0.):
        return
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(z), d is not None)
    one = rng.random() < 0.3
    args = dict(redshift=z, maggies=mg, ivar=iv, coeffs=w)
    if d is not None:
        args['distance'] = d
    if one:
        args = dict((n, v[0]) for n, v in args.items())
    am, kk = k.absmag(band_shift=b, kcorrect=True, **args)
    k2 = k.kcorrect(redshift=args['redshift'], coeffs=args['coeffs'], band_shift=b)
    mon.close(kk, k2, 'K-correction returned alongside is another', rtol=0., atol=1e-5)
    ab, abiv = gen.to_ab_ref(c, args['maggies'], args['ivar'])
    ab, abiv = ab[..., m.map], abiv[..., m.map]
    zz = np.float64(args['redshift'])
    if d is None:
        dm = ref.distmod(m.cosmo, zz)
    else:
        dm = 5. * np.log10(np.float64(args['distance']) * 1e5)
    dm = np.asarray(dm)[..., None]
    am = np.float64(am)
    und = (ab <= 0.) | (abiv <= 0.) | ~np.isfinite(kk)
    mon.check(np.all(am[und] == -9999.), 'absolute magnitude without a measurement is not -9999',
              got=am, maggies=ab, ivar=abiv)
    mon.check(np.isfinite(am).all(), 'absolute magnitude is not finite', got=am)
    ok = ~und
    with np.errstate(all='ignore'):
        want = ref.mag(ab) - dm - np.float64(kk)
    tol = 5e-5 + np.asarray(work._quiet.dmtol(m, zz, d))[..., None]
    bad = ok & ~(np.abs(am - want) <= tol)
    mon.check(not bad.any(), 'absolute magnitude is not m - DM - K', got=am, want=want)
    mon.event('undefined', int(und.sum()))
    mon.event('defined', int(ok.sum()))


def cosmologies(rng, mon):
    """distances given: the cosmology does not matter; not given: it does"""
    c = gen.conf(rng, nz=int(rng.choice([3, 8])))
    c['cosmo'] = gen.cosmology(rng)
    m = gen.model_conf(c)
    k = gen.build(c)
    c2 = dict(c)
    c2['cosmo'] = gen.FlatToy(float(rng.uniform(500., 1500.)))
    if rng.random() < 0.4:
        c2['cosmo'] = _DistmodOnly(c2['cosmo'])
    k2 = gen.build(c2)
    n = int(rng.choice([1, 2, 5]))
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    if not m.inside(0.):
        return
    mon.note(n=n, **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, n, str(getattr(c['cosmo'], 'name', None)))
    d = work.distance(rng, n)
    b = work.shift(rng, m)
    a = dict(redshift=z, maggies=mg, ivar=iv, coeffs=w, band_shift=b)
    r1 = np.asarray(k.absmag(distance=d, **a))
    r2 = np.asarray(k2.absmag(distance=d, **a))
    mon.close(r1, r2, 'the cosmology matters though distances are given', rtol=0., atol=1e-5)
    r3 = np.float64(k.absmag(**a))
    r4 = np.float64(k2.absmag(**a))
    mon.check(np.array_equal(r3 == -9999., r1 == -9999.) and
              np.array_equal(r4 == -9999., r1 == -9999.),
              'where -9999 is given depends on the distance')
    toy = getattr(c2['cosmo'], '_c', c2['cosmo'])
    z64 = np.float64(z)
    diff = np.broadcast_to((ref.distmod(m.cosmo, z64) - ref.distmod(toy, z64))[:, None], r3.shape)
    ok = r3 != -9999.
    tol = 1e-4 + np.asarray(work._quiet.dmtol(m, z64, None))[:, None] * 2.
    mon.check(not (ok & ~(np.abs((r4 - r3) - diff) <= tol)).any(),
              'absolute magnitudes do not follow the cosmology', got=r4 - r3, want=diff)
    # a distance moves the magnitude by its modulus
    d2 = np.float32(d * np.float32(10.**rng.uniform(-2, 2)))
    r5 = np.float64(k.absmag(distance=d2, **a))
    sh = np.broadcast_to((-5. * np.log10(np.float64(d2) / np.float64(d)))[:, None], r1.shape)
    mon.check(not (ok & ~(np.abs((r5 - r1) - sh) <= 1e-4)).any(),
              'absolute magnitudes do not follow the distance', got=r5 - r1, want=sh)
    mon.event('cosmologies_compared')


FAMILIES = [
    ('calls', work.calls(P, OPS), 140, 2200),
    ('history', work.history(P, OPS), 30, 450),
    ('close', work.close_calls(P, ['absmag']), 30, 400),
    ('identity', identity, 120, 1800),
    ('cosmologies', cosmologies, 80, 1000),
]
