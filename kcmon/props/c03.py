"""C03 Results respond correctly to flux and error units."""
import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds a random object and catalogue, obtains every result, then multiplies '
        'the fluxes (ivar by the inverse square) or the inverse variances alone by factors '
        'from 1e-12 to 1e12, or builds a second object with the bands in another order, and '
        'compares all results. Distinct by class, sizes, factor and order.')
ASSUMPTIONS = ['factors keep fluxes and inverse variances within float32']
MIN_EVENTS = {'values_compared': 5000, 'scalings': 100, 'reorderings': 20}


def _base(rng, **kw):
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng, **kw)
    return c, m, k, z, mg, iv, b, bz, d


def scaling(rng, mon):
    c, m, k, z, mg, iv, b, bz, d = _base(rng)
    mon.note(n=len(z), **gen.describe(c))
    # weights fitted at each scale: everything downstream of the fit
    w1 = np.float32(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
    r1 = work.results(k, m, z, mg, iv, w1, b, bz, d, fit=False)
    A = gen.to_ab_ref(c, mg, iv)
    for _ in range(4):
        top = float(np.abs(mg).max())
        f = 10.**rng.uniform(-12, 12)
        f = min(max(f, 1e-13 / top), 1e13 / top)
        vmax = float(iv.max()) if iv.max() > 0 else 1.
        vmin = float(iv[iv > 0].min()) if (iv > 0).any() else 1.
        f = min(max(f, np.sqrt(vmax / 1e36)), np.sqrt(vmin / 1e-30))
        if rng.random() < 0.5:
            f = 2.**int(np.round(np.log2(f)))
        mg2 = np.float32(np.float64(mg) * f)
        iv2 = np.float32(np.float64(iv) / f**2)
        mon.key(c['cls'], m.nsed, len(m.responses), len(z), round(float(np.log10(f)), 2))
        w2 = np.float32(k.fit_coeffs(redshift=z, maggies=mg2, ivar=iv2))
        work.same_fit(mon, m, z, A[0], A[1], np.float64(w2) / f, w1,
                      'weights do not scale with the flux', factor=f)
        # the same weights scaled exactly, so that the rest is comparable
        w2 = np.float32(np.float64(w1) * f)
        r2 = work.results(k, m, z, mg2, iv2, w2, b, bz, d, fit=False)
        al = work.allowances(m, z, mg, iv, w1, b, bz, d)
        s = -2.5 * np.log10(f)
        for n in r2:
            if n.startswith('maggies') or n in work.MASSES:
                r2[n] = np.asarray(r2[n], dtype=np.float64) / f
            elif n in ('absmag', 'absmag_reconstruct', 'absmag_limit'):
                v = np.asarray(r2[n], dtype=np.float64)
                r2[n] = np.where(v == -9999., v, v - s)
        ms = np.asarray(r1.get('mremain', [1.]))
        # (a mass within float32 rounding of nothing has no ratios)
        work.agree(mon, m, r2, r1, al, z, mg, iv, 'at another flux scale', factor=3., scale=f)
        mon.event('scalings')


def weights(rng, mon):
    """Weights in any unit, with the photometry as it is."""
    c, m, k, z, mg, iv, b, bz, d = _base(rng)
    mon.note(n=len(z), **gen.describe(c))
    w1 = gen.weights(rng, m.nsed, len(z))
    w1 /= w1.max()
    r1 = work.results(k, m, z, mg, iv, w1, b, bz, d, fit=False)
    al = work.allowances(m, z, mg, iv, w1, b, bz, d)
    i = int(rng.integers(len(z)))
    for _ in range(4):
        f = 2.**int(rng.integers(-66, 40))
        mon.key('weights', c['cls'], m.nsed, len(m.responses), len(z), f)
        w2 = np.float32(w1 * np.float32(f))
        r2 = work.results(k, m, z, mg, iv, w2, b, bz, d, fit=False)
        r3 = work.stack([work.results(k, m, z[i], mg[i], iv[i], w2[i], b, bz,
                                      None if d is None else d[i], fit=False)])
        for r in (r2, r3):
            for n in r:
                if n.startswith('maggies') or n in work.MASSES:
                    r[n] = np.asarray(r[n], dtype=np.float64) / f
                elif n == 'absmag_reconstruct':
                    v = np.asarray(r[n], dtype=np.float64)
                    r[n] = np.where(v == -9999., v, v + 2.5 * np.log10(f))
        work.agree(mon, m, r2, r1, al, z, mg, iv, 'with weights in another unit', factor=3., scale=f)
        s = slice(i, i + 1)
        work.agree(mon, m, r3, work.rows(r1, s), work.sub_allow(al, s), z[s], mg[s], iv[s],
                   'alone with weights in another unit', factor=3., scale=f)
        mon.event('scalings', 2)


def errors(rng, mon):
    c, m, k, z, mg, iv, b, bz, d = _base(rng)
    mon.note(n=len(z), **gen.describe(c))
    w1 = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
    A = gen.to_ab_ref(c, mg, iv)
    vmax = float(iv.max()) if iv.max() > 0 else 1.
    vmin = float(iv[iv > 0].min()) if (iv > 0).any() else 1.
    for _ in range(4):
        f = 10.**rng.uniform(-10, 10)
        f = max(min(f, 1e37 / vmax), 1e-34 / vmin)
        mon.key(c['cls'], m.nsed, len(m.responses), len(z), round(float(np.log10(f)), 2))
        w2 = np.asarray(k.fit_coeffs(redshift=z, maggies=mg,
                                     ivar=np.float32(np.float64(iv) * f)))
        work.same_fit(mon, m, z, A[0], A[1], w2, w1,
                      'weights change with the unit of the errors', factor=f)
        mon.event('scalings')


def reorder(rng, mon):
    c, m, k, z, mg, iv, b, bz, d = _base(rng, cls='Kcorrect', nin=int(rng.integers(2, 9)))
    mon.note(n=len(z), **gen.describe(c))
    w = gen.weights(rng, m.nsed, len(z))
    p = rng.permutation(len(m.responses))
    q = rng.permutation(len(m.responses_out))
    c2 = dict(c)
    c2['responses'] = [m.responses[i] for i in p]
    c2['responses_out'] = [m.responses_out[i] for i in q]
    c2['responses_map'] = [m.responses_map[i] for i in q]
    mon.key(m.nsed, len(m.responses), len(z), c['_mode'], [int(x) for x in p], [int(x) for x in q])
    k2 = gen.build(c2)
    r1 = work.results(k, m, z, mg, iv, w, b, bz, d)
    r2 = work.results(k2, m, z, mg[:, p], iv[:, p], w, b, bz, d)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    want = {}
    for n, v in r1.items():
        if n in ('maggies', 'maggies_shift'):
            v, pp = np.asarray(v)[:, p], p
        elif n in ('maggies_out', 'mtol') or n in work.MAGS:
            v, pp = np.asarray(v)[:, q], q
        else:
            pp = None
        want[n] = v
        if pp is not None:
            t, dd = al[n]
            al[n] = (t[:, pp] if np.ndim(t) == 2 else t, dd[:, pp] if np.ndim(dd) == 2 else dd)
    fit = gen.to_ab_ref(c, mg, iv)
    work.agree(mon, m, r2, want, al, z, mg, iv, 'with the bands in another order', fitted=fit,
               order=p, order_out=q)
    mon.event('reorderings')


FAMILIES = [
    ('scaling', scaling, 100, 1500),
    ('weights', weights, 40, 600),
    ('errors', errors, 60, 800),
    ('reorder', reorder, 80, 1200),
]
