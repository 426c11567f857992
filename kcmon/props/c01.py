"""C01 Fits are the non-negative weighted least-squares optimum."""
import numpy as np
import scipy.optimize

from .. import gen, observe, ref, work

RULE = ('A case builds a random object (class, bands, templates, grid, AB flag) and fits '
        'catalogues of several sizes, shapes and array forms with hostile photometry (zero '
        'inverse variances, negative and zero fluxes, S/N 0.5-200, scales 1e-11..10). It is '
        'non-trivial when at least one fit inside the redshift range was judged; distinct by '
        'class, sizes, grid and band mode. Every fit event is judged by the optimality (KKT) '
        'conditions against an independent float64 photometry of the templates.')
ASSUMPTIONS = ['the templates of a fit are those given to the constructor; their photometry '
               'is interpolated linearly in the redshift grid',
               'optimality is decided to 2e-5 of the natural scale of the gradient, plus the '
               'effect of float32 rounding of the photometry of the templates']
MIN_EVENTS = {'optima_checked': 1000}


def optimum(rng, mon):
    """Few templates: compare with the best of every support."""
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, nsed=int(rng.integers(1, 6)), nz=4)
        mon.note(**gen.describe(c))
        mon.key('support', c['cls'], m.nsed, len(m.responses))
        z, mg, iv = work.catalogue(rng, m, 6)
        cf = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv), dtype=np.float64)
        ab, abiv = gen.to_ab_ref(c, mg, iv)
        for i in range(len(z)):
            A, _ = m.A(z[i])
            best, bc = ref.best_by_support(A, ab[i], abiv[i])
            got = ref.chi2(A, ab[i], abiv[i], cf[i])
            tot = float((ab[i]**2 * abiv[i]).sum())
            mon.event('supports_enumerated', 2**m.nsed)
            # the error of the design matrix enters linearly with the residual
            mon.check(got <= best + 4e-5 * np.sqrt(best * tot) + 1e-9 * tot,
                      'other non-negative weights fit better',
                      got=got, best=best, best_coeffs=bc, coeffs=cf[i], z=z[i],
                      maggies=ab[i], ivar=abiv[i])


def unweighted(rng, mon):
    """Bands without inverse variance never influence the fit."""
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, nz=4)
        mon.note(**gen.describe(c))
        n = None if rng.random() < 0.3 else gen.sizes(rng, m, big=0.)
        z, mg, iv = work.catalogue(rng, m, n)
        off = rng.random(iv.shape) < 0.35
        iv = np.where(off, np.float32(0.), iv)
        mon.key('zero', c['cls'], m.nsed, len(m.responses), int(off.sum()))
        one = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
        for _ in range(3):
            junk = np.float32(rng.choice([0., -1., 1., 1e6, -1e6, 1e-6], size=mg.shape) *
                              np.abs(mg).max())
            mg2 = np.where(iv == 0., junk, mg)
            two = np.asarray(k.fit_coeffs(redshift=z, maggies=mg2, ivar=iv))
            mon.event('masked_bands_changed', int((iv == 0.).sum()))
            mon.close(two, one, 'the maggies of a band of zero inverse variance matter',
                      rtol=1e-5, atol=1e-6 * float(np.abs(one).max() + 1e-300))


def noise_free(rng, mon):
    """Photometry made by the templates themselves is fitted perfectly."""
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, nz=6, abcorrect=False)
        mon.note(**gen.describe(c))
        mon.key('exact', c['cls'], m.nsed, len(m.responses))
        n = gen.sizes(rng, m, big=0.)
        z = gen.redshifts(rng, m, n)
        w = gen.weights(rng, m.nsed, n)
        mg, e = m.maggies(z, w)
        s = 10.**rng.uniform(-10, 0) / np.abs(mg).max()
        mg, e = mg * s, e * s
        err = np.abs(mg) * 0.05 + np.abs(mg).max(axis=1, keepdims=True) * 1e-4
        cf = np.asarray(k.fit_coeffs(redshift=z, maggies=np.float32(mg), ivar=np.float32(1. / np.maximum(err, 1e-17)**2)))
        rec, _ = m.maggies(z, cf)
        mon.event('noise_free_fits', n)
        # chi^2 is zero at the optimum
        mon.check(float((((rec - mg) / np.maximum(err, 1e-17))**2).max()) < 1e-3, 'templates not recovered',
                  worst=float((((rec - mg) / np.maximum(err, 1e-17))**2).max()))


def many_templates(rng, mon):
    """More templates than bands, repeated and useless templates."""
    with observe.Observer(mon, ['C01']) as obs:
        nsed = int(rng.choice([8, 15, 30, 60]))
        wave, flux = gen.spectra(rng, nsed, 260)
        for i in range(nsed):
            u = rng.random()
            if u < 0.15:
                flux[i] = flux[int(rng.integers(nsed))] * np.float32(rng.choice([1., 2., 0.1]))
            elif u < 0.2:
                flux[i] = 0.
        p = gen.scratch('t.fits')
        gen.write_template(rng, p, wave, flux)
        t = gen.kc.template.Template(filename=p, interpolate=bool(rng.random() < 0.5))
        c, m, k = gen.make(rng, obs, tmpl=t, nz=3)
        mon.note(**gen.describe(c))
        mon.key('many', c['cls'], nsed, len(m.responses))
        for n in (None, 1, 12):
            z, mg, iv = work.catalogue(rng, m, n)
            k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)


def shipped(rng, mon):
    """The shipped templates with their survey classes."""
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, tmpl=gen.default_template(bool(rng.random() < 0.5)),
                           nz=int(rng.choice([3, 10])), zmax=float(rng.choice([0.5, 1.])))
        mon.note(**gen.describe(c))
        mon.key('shipped', c['cls'], len(m.responses), m.nz)
        for n in (None, 1, int(rng.choice([30, 400]))):
            z, mg, iv = work.catalogue(rng, m, n)
            k.fit_coeffs(redshift=gen.form(rng, z), maggies=gen.form(rng, mg),
                         ivar=gen.form(rng, iv))


def large(rng, mon):
    with observe.Observer(mon, ['C01']) as obs:
        c, m, k = gen.make(rng, obs, nz=3, cls='KcorrectSDSS', nsed=3)
        n = int(rng.choice([1001, 1025, 2500, 5000]))
        mon.note(n=n, **gen.describe(c))
        mon.key('large', n)
        if rng.random() < 0.3:
            z = np.float32(rng.choice(m.grid, n))
        else:
            z = gen.redshifts(rng, m, n)
        mg, iv = gen.photometry(rng, m, z)
        k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)


def short_of_iterations(rng, mon):
    """The optimiser gives up within its usual number of iterations."""
    real = scipy.optimize.nnls
    state = dict(failed=0)

    def failing(A, b, *args, **kw):
        mi = kw.get('maxiter', args[0] if args else None)
        n = np.shape(A)[1]
        if (mi is None or mi <= 3 * n) and rng.random() < 0.6:
            state['failed'] += 1
            raise RuntimeError('Maximum number of iterations reached.')
        return real(A, b, *args, **kw)
    with observe.Observer(mon, ['C01', 'C12']) as obs:
        c, m, k = gen.make(rng, obs, nz=3)
        mon.note(**gen.describe(c))
        mon.key('iterations', c['cls'], m.nsed, len(m.responses))
        scipy.optimize.nnls = failing
        try:
            for n in (None, 1, 8):
                z, mg, iv = work.catalogue(rng, m, n)
                k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=int(rng.choice([0, 0, 2])))
        finally:
            scipy.optimize.nnls = real
        mon.event('optimiser_failures_injected', state['failed'])


FAMILIES = [
    ('calls', work.calls(['C01'], []), 60, 700),
    ('fitter', work.calls(['C01'], [], cls='Fitter'), 12, 150),
    ('history', work.history(['C01'], ['reconstruct', 'kcorrect']), 12, 200),
    ('close', work.close_calls(['C01'], ['fit']), 12, 150),
    ('optimum', optimum, 40, 500),
    ('unweighted', unweighted, 30, 300),
    ('noise_free', noise_free, 30, 300),
    ('many_templates', many_templates, 10, 120),
    ('shipped', shipped, 6, 60),
    ('large', large, 2, 12),
    ('short_of_iterations', short_of_iterations, 12, 120),
]
