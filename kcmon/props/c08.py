"""C08 K-corrections obey their definition and identities."""
import numpy as np

from .. import gen, observe, work

RULE = ('A case builds a random object, including output bands and maps with repeats and any '
        'order, and asks for K-corrections of single objects and catalogues with and without '
        'band shifts; an observer compares each with the definition evaluated independently, '
        'and the identities (scale, z=0, shift=z, zero weights) are decided on twin calls. '
        'Distinct by class, output mode, sizes, range and flags.')
ASSUMPTIONS = ['values are decided where the model flux is at least three times its '
               'rounding allowance']
MIN_EVENTS = {'kcorrections': 600, 'values_checked': 3000, 'identities': 400}
P = ['C08']


def _mono(rng, **kw):
    """output bands identical to the input bands, mapped to themselves"""
    mode = str(rng.choice(['same', 'same', 'permuted']))
    return work.setup(rng, out=mode, **kw)


def _dec(m, z, w, b):
    k, tol, dec = work._quiet.expect_k(m, np.float64(z), np.float64(w), float(b))
    return np.broadcast_to(tol, k.shape), dec & np.isfinite(k)


def scale(rng, mon):
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    mon.note(n=len(z), **gen.describe(c))
    mon.key('scale', c['cls'], c['_mode'], m.nsed, len(m.responses), len(z))
    if not m.inside(0.):
        return
    r = np.asarray(k.kcorrect(redshift=z, coeffs=w, band_shift=b))
    tol, dec = _dec(m, z, w, b)
    for _ in range(3):
        # each object by its own factor
        f = np.float32(10.**rng.uniform(-9, 9, len(z)))
        r2 = np.asarray(k.kcorrect(redshift=z, coeffs=w * f[:, None], band_shift=b))
        mon.check(r2.shape == r.shape, 'shape')
        bad = dec & ~(np.abs(np.float64(r2) - r) <= 2. * tol)
        mon.check(not bad.any(), 'K-correction depends on the scale of the weights',
                  got=r2, want=r, factor=f)
        mon.event('identities', int(dec.sum()))
    w0 = w.copy()
    i = int(rng.integers(len(z)))
    w0[i] = 0.
    r0 = np.asarray(k.kcorrect(redshift=z, coeffs=w0, band_shift=b))
    mon.check(np.all(r0[i] == 0.), 'K-correction of an object without weights is not zero',
              got=r0[i])
    one = np.asarray(k.kcorrect(redshift=z[i], coeffs=w0[i], band_shift=b))
    mon.check(np.all(one == 0.), 'K-correction of an object without weights is not zero', got=one)
    o = [j for j in range(len(z)) if j != i]
    bad = dec[o] & ~(np.abs(np.float64(r0[o]) - r[o]) <= 2. * tol[o])
    mon.check(not bad.any(), 'an object without weights changes others')


def rest(rng, mon):
    """z=0 and identical unshifted bands give zero; exactly so for all models"""
    c, m, k, z, mg, iv, w, b, bz, d = _mono(rng)
    mon.note(n=len(z), **gen.describe(c))
    mon.key('rest', c['cls'], c['_mode'], m.nsed, len(m.responses), len(z))
    if not m.inside(0.):
        return
    w = gen.weights(rng, m.nsed, len(z))
    r = np.asarray(k.kcorrect(redshift=np.zeros(len(z), dtype=np.float32), coeffs=w))
    tol, dec = _dec(m, np.zeros(len(z)), w, 0.)
    mon.check(not (dec & ~(np.abs(r) <= 1e-5)).any(),
              'K-correction at zero redshift between identical bands is not zero', got=r)
    mon.event('identities', int(dec.sum()))
    one = np.asarray(k.kcorrect(redshift=np.float32(0.), coeffs=w[0]))
    mon.check(not (dec[0] & ~(np.abs(one) <= 1e-5)).any(),
              'K-correction at zero redshift between identical bands is not zero', got=one)


def native(rng, mon):
    """band shift equal to the redshift: -2.5 log10(1+z) for every model"""
    c, m, k, z, mg, iv, w, b, bz, d = _mono(rng)
    mon.note(n=len(z), **gen.describe(c))
    mon.key('native', c['cls'], c['_mode'], m.nsed, len(m.responses), len(z))
    if not m.inside(0.):
        return
    for i in range(5):
        zi = gen.redshifts(rng, m, 1)[0]
        if rng.random() < 0.5:
            bb = float(zi)
        else:
            bb = np.float32(zi)
        n = int(rng.choice([1, 2, 3, 8]))
        ww = gen.weights(rng, m.nsed, n) * np.float32(10.**rng.uniform(-2, 2))
        if n == 1 and rng.random() < 0.5:
            r = np.asarray(k.kcorrect(redshift=zi, coeffs=ww[0], band_shift=bb))[None]
        else:
            r = np.asarray(k.kcorrect(redshift=np.full(n, zi, dtype=np.float32), coeffs=ww,
                                      band_shift=bb))
        tol, dec = _dec(m, np.full(n, zi), ww, float(bb))
        want = -2.5 * np.log10(1. + float(zi))
        bad = dec & ~(np.abs(np.float64(r) - want) <= tol + 1e-5)
        mon.check(not bad.any(), 'K-correction to the band shifted by z is not -2.5 log10(1+z)',
                  got=r, want=want, redshift=zi)
        mon.event('identities', int(dec.sum()))


FAMILIES = [
    ('calls', work.calls(P, ['kcorrect', 'kcorrect', 'absmag_all']), 140, 2200),
    ('history', work.history(P, ['kcorrect', 'absmag_all']), 30, 450),
    ('close', work.close_calls(P, ['kcorrect', 'absmag']), 40, 600),
    ('scale', scale, 60, 900),
    ('rest', rest, 40, 500),
    ('native', native, 60, 900),
]
