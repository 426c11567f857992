"""C13 Monte Carlo propagation equals per-draw evaluation."""
import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds a random object (any number of output bands, any class, AB flag), gets '
        'Monte Carlo samples from a fit or makes them, and propagates them to absolute '
        'magnitudes and derived quantities with any optional results, distances and shifts; an '
        'observer evaluates every draw independently, and every draw is compared with the '
        'ordinary call. Distinct by class, output mode, sizes, draws and options.')
ASSUMPTIONS = ['the samples are passed as arrays, as fits return them']
MIN_EVENTS = {'absmag_mcs': 200, 'derived_mcs': 150, 'values_checked': 5000,
              'draws_compared': 300, 'vanishing': 40}
P = ['C13']


def perdraw(rng, mon):
    """Draw by draw the same as the ordinary calls."""
    with observe.Observer(mon, P) as obs:
        c, m, k = gen.make(rng, obs, **(dict(zero=True) if mon.index % 20 == 3 else {}))
        if not m.inside(0.):
            return
        mon.note(**gen.describe(c))
        for n in [None, 1, max(2, gen.sizes(rng, m, big=0.))]:
            mc = int(rng.choice([1, 2, 3, 5, len(m.responses_out), n or 1]))
            if mon.index % 20 == 3 and (n or 1) < 8:
                # many draws
                mc = [60, 130, 300, 257][mon.index // 20 % 4]
            z, mg, iv = work.catalogue(rng, m, n)
            nn = n or 1
            if rng.random() < 0.5:
                w, cmc, mmc = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=mc)
            else:
                # any samples will do
                cmc = np.stack([gen.weights(rng, m.nsed, nn) for _ in range(mc)], axis=-1)
                mmc = np.stack([mg.reshape(nn, -1) * np.float32(rng.uniform(-0.2, 3., (nn, 1)))
                                for _ in range(mc)], axis=-1)
                if rng.random() < 0.5:
                    cmc[int(rng.integers(nn)), :, int(rng.integers(mc))] = 0.
                if n is None:
                    cmc, mmc = cmc[0], mmc[0]
            cmc, mmc = np.asarray(cmc), np.asarray(mmc)
            u = rng.random()
            if u < 0.2:
                cmc, mmc = np.asfortranarray(cmc), np.asfortranarray(mmc)
            elif u < 0.4:
                cmc, mmc = cmc.astype(np.float64), mmc.astype(np.float64)
            b = work.shift(rng, m)
            d = work.distance(rng, n) if rng.random() < 0.5 else None
            r, q = (bool(x) for x in rng.integers(0, 2, 2))
            mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(m.responses_out), n, mc, r, q)
            kw = dict(redshift=z, band_shift=b, distance=d)
            out = k.absmag_mc(maggies_mc=mmc, ivar=iv, coeffs_mc=cmc, reconstruct=r, kcorrect=q, **kw)
            der = k.derived_mc(coeffs_mc=cmc, **kw)
            names = 'a' + 'r' * r + 'k' * q
            if len(names) == 1:
                out = (out,)
            mon.check(isinstance(out, tuple) and len(out) == len(names), 'not what was asked for')
            lead = () if n is None else (n,)
            for o in out:
                mon.check(np.shape(o) == lead + (len(m.responses_out), mc),
                          'shape of propagated magnitudes', got=np.shape(o))
            for j in (range(mc) if mc < 50 else [*range(mc - 12, mc), *rng.integers(0, mc, 12)]):
                one = k.absmag(maggies=mmc[..., j], ivar=iv, coeffs=cmc[..., j],
                               reconstruct=r, kcorrect=q, **kw)
                one = one if len(names) > 1 else (one,)
                for o, s, t in zip(out, one, names):
                    mon.close(o[..., j], s, 'draw {} of result {} differs from the ordinary '
                              'call'.format(j, t), rtol=0., atol=3e-5)
                od = k.derived(coeffs=cmc[..., j], **kw)
                mon.check(set(od) == set(der), 'derived quantities', got=sorted(der))
                for t in od:
                    mon.close(np.asarray(der[t])[..., j], np.float32(od[t]), 'draw of {} differs '
                              'from the ordinary call'.format(t), rtol=1e-5, atol=1e-30)
                mon.event('draws_compared')


def vanishing(rng, mon):
    """Fit to magnitudes with vanishing errors: every draw is the ordinary
    result."""
    c, m, k = gen.make(rng)
    if not m.inside(0.):
        return
    n = [None, 1, 2, 5][int(rng.integers(4))]
    mon.note(n=n, **gen.describe(c))
    mon.key('vanish', c['cls'], c['_mode'], m.nsed, len(m.responses), n)
    z = gen.redshifts(rng, m, n or 1, positive=True)
    mg, iv = gen.photometry(rng, m, z, hostile=False, snr=3e6,
                            scale=10.**rng.uniform(-3, 3))
    if n is None:
        z, mg, iv = z[0], mg[0], iv[0]
    mc = 3
    w, cmc, mmc = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=mc)
    # (the fit may be degenerate: then only that of the ordinary weights)
    b = work.shift(rng, m)
    d = work.distance(rng, n) if rng.random() < 0.5 else None
    cc = np.repeat(np.asarray(w)[..., None], mc, axis=-1)
    kw = dict(redshift=z, band_shift=b, distance=d)
    am = np.asarray(k.absmag(maggies=mg, ivar=iv, coeffs=w, **kw))
    amc = np.asarray(k.absmag_mc(maggies_mc=mmc, ivar=iv, coeffs_mc=cc, **kw))
    mon.close(amc, np.repeat(am[..., None], mc, axis=-1),
              'draws with vanishing errors do not give the ordinary magnitudes', rtol=0., atol=1e-4)
    zz = np.atleast_1d(np.float64(z))
    ab, abiv = gen.to_ab_ref(c, mg, iv)
    for j in range(mc):
        work.same_fit(mon, m, zz, ab, abiv, cmc[..., j], w, 'drawn weights with vanishing errors '
                      'are another fit')
    # where the fit is well-posed the results through drawn weights agree too
    ok = True
    for i, zi in enumerate(zz):
        A, _ = m.A(zi)
        Aw = A * np.sqrt(np.atleast_2d(abiv)[i])[:, None]
        s = np.sqrt((Aw**2).sum(axis=0))
        if (s == 0).any():
            ok = False
            continue
        sv = np.linalg.svd(Aw / s, compute_uv=False)
        ok = ok and len(sv) == m.nsed and sv[-1] > 0.05
    if ok and np.asarray(w).any():
        am2 = np.asarray(k.absmag_mc(maggies_mc=mmc, ivar=iv, coeffs_mc=cmc, **kw))
        amr = np.repeat(am[..., None], mc, axis=-1)
        good = (amr != -9999.)
        k64, tol, dec = work._quiet.expect_k(m, np.float64(z), np.float64(w), float(b))
        t = np.broadcast_to((tol + 2e-3)[..., None], amr.shape)
        dd = np.broadcast_to((dec & (tol < 1e-2))[..., None], amr.shape)
        mon.check(not (good & dd & ~(np.abs(am2 - amr) <= t)).any(),
                  'draws with vanishing errors do not give the ordinary magnitudes',
                  got=am2, want=amr)
        mon.event('vanishing_posed')
    mon.event('vanishing')


FAMILIES = [
    ('calls', work.calls(P, ['absmag_mc', 'derived_mc'], mc=True), 90, 1400),
    ('history', work.history(P, ['absmag_mc', 'derived_mc'], mc=True), 20, 300),
    ('perdraw', perdraw, 60, 900),
    ('vanishing', vanishing, 60, 900),
]
