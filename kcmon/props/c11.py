"""C11 Derived stellar quantities follow from weights and distance."""
import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds a random object (output bands of any number, with and without a solar '
        'magnitude; template sets with empty templates) and asks for derived quantities of '
        'single objects and catalogues, with distances or a cosmology and band shifts; an '
        'observer evaluates every definition independently. Distinct by class, output mode, '
        'sizes, range and flags.')
ASSUMPTIONS = ['solar magnitudes are those of C17, and bands of its known findings are not used '
               'here']
MIN_EVENTS = {'derived': 800, 'values_checked': 8000, 'scalings': 80}
P = ['C11']


def _mk(rng):
    while True:
        c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
        if m.inside(0.):
            return c, m, k, z, w, b


def scaling(rng, mon):
    c, m, k, z, w, b = _mk(rng)
    n = len(z)
    mon.note(n=n, **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), n)
    d = work.distance(rng, n)
    base = k.derived(redshift=z, coeffs=w, band_shift=b, distance=d)
    dd, dt, mtol, mt, dec = work._quiet.expect_derived(m, np.float64(z), np.float64(w), float(b), d)
    f = np.float32(10.**rng.uniform(-6, 6, n))
    q = np.float32(10.**rng.uniform(-2, 2, n))
    r = k.derived(redshift=z, coeffs=w * f[:, None], band_shift=b, distance=np.float32(d * q))
    g = np.float64(f) * (np.float64(np.float32(d * q)) / np.float64(d))**2
    for nme in work.MASSES:
        mon.close(np.float64(r[nme]) / g, base[nme], nme + ' is not linear in weights and '
                  'squared distance', rtol=5e-5, atol=1e-30)
    for nme in work.FRACS:
        mon.close(r[nme], base[nme], nme + ' depends on scale or distance', rtol=5e-5, atol=1e-30)
    bad = dec & ~(np.abs(np.float64(r['mtol']) - base['mtol']) <= 3. * mt + 1e-30)
    mon.check(not bad.any(), 'mass-to-light ratio depends on scale or distance',
              got=r['mtol'], want=base['mtol'])
    # without a distance: that of the cosmology
    r2 = k.derived(redshift=z, coeffs=w, band_shift=b)
    dm = ref.distmod(m.cosmo, np.float64(z))
    dl = 10.**(0.2 * (dm - 25.))
    t = np.asarray(work._quiet.dmtol(m, np.float64(z), None))
    for nme in work.MASSES:
        w1 = np.float64(base[nme]) * (dl / np.float64(d))**2
        mon.close(r2[nme], w1, nme + ' is not at the distance of the cosmology', rtol=0.,
                  atol=np.abs(w1) * (5e-5 + t))
    for nme in work.FRACS:
        mon.close(r2[nme], base[nme], nme + ' depends on the distance', rtol=5e-5, atol=1e-30)
    bad = dec & ~(np.abs(np.float64(r2['mtol']) - base['mtol']) <= 3. * mt + 1e-30)
    mon.check(not bad.any(), 'mass-to-light ratio depends on the distance')
    # the same for a single object
    i = int(rng.integers(n))
    r3 = k.derived(redshift=z[i], coeffs=w[i], band_shift=b, distance=d[i])
    for nme in work.MASSES + work.FRACS:
        mon.close(np.asarray(r3[nme]), np.asarray(base[nme])[i], nme + ' of a single object',
                  rtol=5e-5, atol=1e-30)
    # no weights, nothing derived
    w0 = w.copy()
    w0[i] = 0.
    r4 = k.derived(redshift=z, coeffs=w0, band_shift=b, distance=d)
    for nme in work.MASSES + work.FRACS + ('mtol',):
        mon.check(np.all(np.asarray(r4[nme])[i] == 0.), nme + ' of an object without weights',
                  got=np.asarray(r4[nme])[i])
        o = [j for j in range(n) if j != i]
        mon.close(np.asarray(r4[nme])[o], np.asarray(base[nme])[o],
                  nme + ' changed by another object', rtol=5e-5, atol=1e-30)
    mon.event('scalings')


def light(rng, mon):
    """mass over (mtol x solar units) is the luminosity absmag reconstructs"""
    c, m, k, z, w, b = _mk(rng)
    n = len(z)
    mon.note(n=n, **gen.describe(c))
    mon.key('light', c['cls'], c['_mode'], m.nsed, len(m.responses), n)
    d = work.distance(rng, n)
    r = k.derived(redshift=z, coeffs=w, band_shift=b, distance=d)
    mg = np.full((n, len(m.responses)), 1e-9, dtype=np.float32)
    am, ar = k.absmag(redshift=z, coeffs=w, band_shift=b, distance=d, maggies=mg,
                      ivar=np.float32(1. / (0.1 * mg)**2), reconstruct=True)
    dd, dt, mtol, mt, dec = work._quiet.expect_derived(m, np.float64(z), np.float64(w), float(b), d)
    sol = np.array([observe._solar(x) for x in m.responses_out])
    with np.errstate(all='ignore'):
        # luminosity at 10 pc in solar units; the magnitude reconstructed is
        # that of the model scaled to the given distance
        lum = 10.**(-0.4 * (np.float64(ar) - sol))
        want = np.asarray(r['mremain'], dtype=np.float64)[:, None] / lum
        bad = dec & (np.float64(ar) != -9999.) & \
            ~(np.abs(np.float64(r['mtol']) - want) <= 4. * mt + 1e-4 * np.abs(want))
    mon.check(not bad.any(), 'mass-to-light ratio is not mass over luminosity',
              got=r['mtol'], want=want)
    mon.event('lights')


def unlit(rng, mon):
    """Output bands in which the Sun has no magnitude, among others."""
    with observe.Observer(mon, P) as obs:
        t = gen.template(rng, hi=float(10.**rng.uniform(6.45, 6.8)),
                         nwave=int(rng.integers(400, 700)))
        c = gen.conf(rng, cls='Kcorrect', tmpl=t, zero=True)
        out = []
        for _ in range(int(rng.integers(1, 5))):
            if rng.random() < 0.5:
                out.append(gen.user_band(rng, lo=float(rng.uniform(1.65e6, 2.1e6))))
            else:
                out.append(str(rng.choice(gen.OPTICAL)))
        out.insert(int(rng.integers(len(out) + 1)),
                   gen.user_band(rng, lo=float(rng.uniform(1.65e6, 2.1e6))))
        c['responses_out'] = out
        c['responses_map'] = [str(x) for x in rng.choice(c['responses'], len(out))]
        c['_mode'] = 'unlit'
        m = gen.model_conf(c)
        k = gen.build(c)
        obs.register(k, m)
        mon.note(**gen.describe(c))
        mon.key('unlit', m.nsed, len(out), m.nz)
        for n in (None, 1, gen.sizes(rng, m, big=0.)):
            work.one_round(rng, mon, m, k, n, ['derived', 'derived'])
            mon.event('without_sun')


FAMILIES = [
    ('calls', work.calls(P, ['derived']), 140, 2200),
    ('history', work.history(P, ['derived']), 30, 450),
    ('close', work.close_calls(P, ['derived']), 30, 400),
    ('scaling', scaling, 80, 1200),
    ('light', light, 40, 600),
    ('unlit', unlit, 30, 400),
]
