"""C12 Monte Carlo fits sample the stated errors."""
import numpy as np
from scipy import stats

from .. import gen, observe, ref, work

RULE = ('A case builds a random object and asks for Monte Carlo fits of single objects, '
        'one-element and longer catalogues with any number of draws, with negative, zero and '
        'missing photometry. An observer decides optimality of every draw for exactly its own '
        'maggies; offline tests on the recorded noise decide mean, variance, shape and '
        'independence over bands, objects, draws and calls. Distinct by class, sizes, draws.')
ASSUMPTIONS = ['statistical tests reject at a probability of 1e-11 each, so that some thousand '
               'tests on correct code raise a false alarm with probability below 1e-7',
               'the state of the global generator is set at the start of each case']
MIN_EVENTS = {'optima_checked': 5000, 'draws': 20000, 'stat_tests': 300, 'same_weights': 200,
              'untouched': 100}
P = ['C12']
PMIN = 1e-11


def shapes(rng, mon):
    """Shapes, weights as without draws, untouched bands, draws of every fit."""
    with observe.Observer(mon, P) as obs:
        c, m, k = gen.make(rng, obs)
        mon.note(**gen.describe(c))
        for n in [None, 1, 2, gen.sizes(rng, m, big=0.)]:
            mc = int(rng.choice([1, 2, 3, 5, m.nsed, len(m.responses)]))
            mon.key(c['cls'], m.nsed, len(m.responses), n, mc)
            z, mg, iv = work.catalogue(rng, m, n)
            if rng.random() < 0.25:
                z = z + np.float32(m.range[1] * 3.) if n is None else z
                if n is not None:
                    z = z.copy()
                    z[int(rng.integers(n))] = np.float32(m.range[1] + 1.)
            if n and n > 1 and rng.random() < 0.4:
                iv[int(rng.integers(n))] = 0.
            f = lambda x: gen.form(rng, x)   # noqa: E731
            c0 = np.asarray(k.fit_coeffs(redshift=f(z), maggies=f(mg), ivar=f(iv)))
            cmc, dmc, mmc = k.fit_coeffs(redshift=f(z), maggies=f(mg), ivar=f(iv), mc=mc)
            lead = () if n is None else (n,)
            for a, s, t in ((cmc, lead + (m.nsed,), 'weights'),
                            (dmc, lead + (m.nsed, mc), 'drawn weights'),
                            (mmc, lead + (len(m.responses), mc), 'drawn maggies')):
                mon.check(np.shape(a) == s, 'shape of ' + t, got=np.shape(a), want=s)
            mon.close(cmc, c0, 'weights with draws differ from those without', rtol=1e-5,
                      atol=1e-6 * np.abs(c0).max() if c0.size else 0.)
            mon.event('same_weights')
            mon.event('draws', int(np.size(mmc)))
            und = np.float32(iv) == 0.
            got = np.moveaxis(np.asarray(mmc), -1, 0)[:, und]
            want = np.broadcast_to(np.float32(mg)[und], got.shape)
            mon.close(got, want, 'a band without an error was given noise', rtol=3e-7)
            mon.event('untouched', int(got.size))
            # (float32 maggies coincide when the noise is tiny compared with them)
            snr = np.abs(np.float64(mg)) * np.sqrt(np.float64(np.float32(iv)))
            good = ~und & (snr < 1e5)
            dd = np.moveaxis(np.asarray(mmc, dtype=np.float64), -1, 0)[:, good]
            s = (dd - np.float64(np.float32(mg))[good]) * np.sqrt(np.float64(np.float32(iv))[good])
            mon.check(np.all(np.abs(s) < 9.), 'noise far beyond the error', got=s)
            mon.check(good.sum() == 0 or np.any(s != 0.), 'no noise at all')


def pulls(mon, mg, iv, mmc):
    """standard normal numbers, if the property holds [nobj, nband, mc]"""
    x = np.float64(mmc) - np.float64(mg)[..., None]
    return x * np.sqrt(np.float64(iv))[..., None]


def tests(mon, x, what, **data):
    """x: [.., n] supposed standard normal, independent"""
    x = np.ravel(x)
    n = x.size
    if n < 50:
        return
    mean = x.mean() * np.sqrt(n)
    p = 2. * stats.norm.sf(abs(mean))
    mon.check(p > PMIN, what + ': noise has a mean', pull=mean, n=n, **data)
    q = (x**2).sum()
    p = 2. * min(stats.chi2.sf(q, n), stats.chi2.cdf(q, n))
    mon.check(p > PMIN, what + ': noise has another standard deviation',
              std=np.sqrt(q / n), n=n, **data)
    d, p = stats.kstest(x, 'norm')
    mon.check(p > PMIN, what + ': noise is not Gaussian', D=d, n=n, **data)
    for t in (1.5, 2.5, 3., 3.5):
        far = int((np.abs(x) > t).sum())
        f = 2. * stats.norm.sf(t)
        p = 2. * min(stats.binom.sf(far - 1, n, f), stats.binom.cdf(far, n, f))
        mon.check(p > PMIN, what + ': too few or many draws far out', beyond=t, got=far,
                  expected=n * f, n=n, **data)
    mon.event('stat_tests', 7)


def indep(mon, x, y, what, **data):
    """x, y independent standard normal"""
    x, y = np.ravel(x), np.ravel(y)
    n = x.size
    if n < 100:
        return
    r = np.corrcoef(x, y)[0, 1]
    if not np.isfinite(r):
        mon.check(False, what + ': constant noise', **data)
    pull = np.arctanh(np.clip(r, -1 + 1e-12, 1 - 1e-12)) * np.sqrt(n - 3.)
    mon.check(2. * stats.norm.sf(abs(pull)) > PMIN, what, r=r, n=n, **data)
    # the squares too: shared amplitudes
    r = np.corrcoef(stats.norm.cdf(np.abs(x)), stats.norm.cdf(np.abs(y)))[0, 1]
    pull = np.arctanh(np.clip(r, -1 + 1e-12, 1 - 1e-12)) * np.sqrt(n - 3.)
    mon.check(2. * stats.norm.sf(abs(pull)) > PMIN, what + ' (in size)', r=r, n=n, **data)
    mon.event('stat_tests', 2)


def noise(rng, mon):
    """Offline tests on the recorded noise of many draws."""
    nin = int(rng.choice([1, 2, 3, 4]))
    c = gen.conf(rng, nin=nin, nsed=int(rng.choice([1, 2, 3])), nz=int(rng.choice([2, 4])))
    m = gen.model_conf(c)
    k = gen.build(c)
    n, mc = [(None, 1200), (1, 1200), (2, 600), (12, 100), (80, 12), (400, 1), (250, 2),
             (None, 12000)][int(rng.integers(8))]
    mon.note(n=n, mc=mc, **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), n, mc)
    z = gen.redshifts(rng, m, n or 1, positive=True)
    mg, iv = gen.photometry(rng, m, z, hostile=bool(rng.random() < 0.6),
                            snr=None if rng.random() < 0.5 else float(10.**rng.uniform(-1, 2)))
    if n and n > 1 and rng.random() < 0.4:
        # objects outside the range have draws as well
        z[::3] = np.float32(m.range[1] + 0.5)
    a = (z, mg, iv) if n else (z[0], mg[0], iv[0])
    w1, d1, m1 = k.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2], mc=mc)
    w2, d2, m2 = k.fit_coeffs(redshift=a[0], maggies=a[1], ivar=a[2], mc=mc)
    s = (n or 1, len(m.responses), mc)
    x1 = pulls(mon, mg, iv, np.asarray(m1).reshape(s))
    x2 = pulls(mon, mg, iv, np.asarray(m2).reshape(s))
    good = iv > 0.
    mon.event('draws', int(good.sum() * mc * 2))
    if good.sum() == 0:
        return
    tests(mon, x1[good], 'all draws')
    tests(mon, x2[good], 'all draws')
    for b in range(s[1]):
        tests(mon, np.concatenate([x1[:, b][good[:, b]], x2[:, b][good[:, b]]]),
              'band {}'.format(b))
    if n is None or n <= 12:
        for i in range(s[0]):
            tests(mon, np.concatenate([x1[i][good[i]], x2[i][good[i]]], axis=-1),
                  'object {}'.format(i), redshift=z[i], maggies=mg[i], ivar=iv[i])
    sg = np.sign(mg)
    for q in (-1., 1.):
        tests(mon, x1[good & (sg == q)], 'fluxes of sign {}'.format(q))
    far = (z < m.range[0]) | (z > m.range[1])
    for q in (True, False):
        tests(mon, x1[good & (far == q)[:, None]], 'outside the range' if q else 'in range')
    snr = np.abs(mg) * np.sqrt(iv)
    for lo, hi in ((0, 1), (1, 5), (5, 1e9)):
        sel = good & (snr > lo) & (snr <= hi)
        tests(mon, x1[sel], 'signal-to-noise {}..{}'.format(lo, hi))
    # independence
    indep(mon, x1[good], x2[good], 'two calls share their noise')
    for b in range(1, s[1]):
        both = good[:, b] & good[:, b - 1]
        indep(mon, x1[:, b][both], x1[:, b - 1][both], 'bands share their noise')
        both = good[:, b] & good[:, 0]
        indep(mon, x1[:, b][both], x1[:, 0][both], 'bands share their noise')
    if mc > 1:
        indep(mon, x1[good][:, 1:], x1[good][:, :-1], 'draws share their noise')
        indep(mon, x1[good], x1[good][:, ::-1], 'draws share their noise') if mc > 300 else None
        indep(mon, x1[good][:, 0], x1[good][:, -1], 'first and last draw share their noise')
    if s[0] > 1:
        for st in (1, 2):
            both = good[st:] & good[:-st]
            indep(mon, x1[st:][both], x1[:-st][both], 'objects share their noise')
    # exactly repeated noise, however few numbers
    u = x1[good].ravel()
    u = u[np.abs(u) > 1e-3]
    if u.size > 50 and snr.max() < 300.:
        # (float32 maggies coincide when the noise is tiny compared with them)
        r = np.unique(np.round(np.concatenate([u, x2[good].ravel()]), 9)).size
        mon.check(r > 0.5 * (u.size + x2[good].size), 'noise repeats itself', distinct=r,
                  of=u.size + x2[good].size)


def weak(rng, mon):
    """Tiny errors: draws hug the maggies, and the drawn weights the fit."""
    c, m, k = gen.make(rng)
    n = int(rng.choice([1, 2, 6]))
    mon.note(n=n, **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), n)
    z = gen.redshifts(rng, m, n, positive=True)
    mg, iv = gen.photometry(rng, m, z, hostile=False, snr=1e7,
                            scale=10.**rng.uniform(-3, 3))
    w, d, mm = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=3)
    mon.close(mm, np.repeat(mg[:, :, None], 3, axis=-1), 'draws with tiny errors leave the '
              'maggies', rtol=2e-6)
    for j in range(3):
        ab, abiv = gen.to_ab_ref(c, mg, iv)
        work.same_fit(mon, m, z, ab, abiv, d[:, :, j], w, 'drawn weights with tiny errors '
                      'differ from the fit')


FAMILIES = [
    ('calls', work.calls(P, [], mc=True), 60, 900),
    ('shapes', shapes, 80, 1200),
    ('noise', noise, 60, 900),
    ('weak', weak, 30, 300),
]
