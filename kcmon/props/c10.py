"""C10 Reconstructed absolute magnitudes and limits are consistent."""
import itertools

import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds a random object and asks for absolute magnitudes with every combination '
        'of the optional results, for single objects and catalogues with negative, zero and '
        'missing photometry, zero weights, distances and shifts; an observer evaluates '
        'reconstructed magnitudes and limits independently. Distinct by class, output mode, '
        'sizes, range and flags.')
ASSUMPTIONS = ['values are decided where the model flux is at least three times its '
               'rounding allowance']
MIN_EVENTS = {'absmags': 1000, 'reconstructed_mags': 500, 'limits': 500, 'values_checked': 5000,
              'combinations': 100, 'meanings': 60}
P = ['C10']


def options(rng, mon):
    """The same values whatever else is asked for, in the documented order."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    if not m.inside(0.):
        return
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(z), d is not None)
    a = dict(redshift=z, maggies=mg, ivar=iv, coeffs=w)
    if d is not None:
        a['distance'] = d
    if rng.random() < 0.3:
        a = dict((n, v[0]) for n, v in a.items())
    a['band_shift'] = b
    ref_ = dict(zip('arlk', k.absmag(reconstruct=True, limit=True, kcorrect=True, **a)))
    combos = list(itertools.product([False, True], repeat=3))
    for i in rng.permutation(len(combos)):
        r, li, kq = combos[i]
        out = k.absmag(reconstruct=r, limit=li, kcorrect=kq, **a)
        names = 'a' + 'r' * r + 'l' * li + 'k' * kq
        if len(names) == 1:
            out = (out,)
        mon.check(isinstance(out, tuple) and len(out) == len(names),
                  'not the results asked for', asked=names)
        for n, v in zip(names, out):
            mon.close(v, ref_[n], 'result {} depends on what else is asked for'.format(n),
                      rtol=0., atol=2e-5, asked=names)
        mon.event('combinations')
    mon.check(np.asarray(ref_['a']).shape == np.asarray(a['redshift']).shape + (len(m.responses_out),),
              'shape of the magnitudes')


def meaning(rng, mon):
    """Reconstructed magnitudes ignore photometry and map; limits are the
    magnitudes of a source of one sigma."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    if not m.inside(0.):
        return
    w = gen.weights(rng, m.nsed, len(z))
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(z), d is not None)
    a = dict(redshift=z, coeffs=w, band_shift=b)
    if d is not None:
        a['distance'] = d
    am, ar, al, kk = k.absmag(maggies=mg, ivar=iv, reconstruct=True, limit=True, kcorrect=True, **a)
    # other photometry altogether
    mg2 = np.float32(mg * rng.choice([-3., 0., 2.], mg.shape))
    iv2 = np.float32(iv * rng.choice([0., 1., 4.], iv.shape))
    am2, ar2 = k.absmag(maggies=mg2, ivar=iv2, reconstruct=True, **a)
    mon.close(ar2, ar, 'reconstructed magnitudes depend on the photometry', rtol=0., atol=2e-5)
    # another map
    if c['cls'] == 'Kcorrect':
        c2 = dict(c)
        c2['responses_out'] = list(m.responses_out)
        c2['responses_map'] = [str(x) for x in rng.choice(m.responses, size=len(m.responses_out))]
        k2 = gen.build(c2)
        am3, ar3 = k2.absmag(maggies=mg, ivar=iv, reconstruct=True, **a)
        mon.close(ar3, ar, 'reconstructed magnitudes depend on the band map', rtol=0., atol=2e-5)
        mon.event('maps')
    # a source of one sigma in every band
    with np.errstate(all='ignore'):
        one = np.where(iv > 0., np.float32(1. / np.sqrt(np.float64(iv))), np.float32(0.))
    ams = np.asarray(k.absmag(maggies=np.float32(one), ivar=iv, **a))
    mon.close(al, ams, 'limit is not the magnitude of a source of one sigma', rtol=0., atol=6e-5)
    al = np.asarray(al)
    good = (iv[:, m.map] > 0.) & np.isfinite(np.asarray(kk))
    mon.check(np.all(al[~good] == -9999.), 'limit without an error', got=al)
    mon.check(np.all(al[good] != -9999.), 'no limit though there is an error', got=al, ivar=iv)
    # zero weights: no limit, whatever the photometry
    w0 = w.copy()
    i = int(rng.integers(len(z)))
    w0[i] = 0.
    a['coeffs'] = w0
    out = k.absmag(maggies=mg, ivar=iv, limit=True, reconstruct=True, **a)
    mon.check(np.all(np.asarray(out[2])[i] == -9999.), 'limit for an object without weights',
              got=out[2])
    mon.check(np.all(np.asarray(out[1])[i] == -9999.),
              'reconstructed magnitude for an object without weights', got=out[1])
    o = [j for j in range(len(z)) if j != i]
    mon.close(np.asarray(out[2])[o], al[o], 'limits changed by another object', rtol=0., atol=2e-5)
    mon.event('meanings')


FAMILIES = [
    ('calls', work.calls(P, ['absmag_all', 'absmag']), 140, 2200),
    ('history', work.history(P, ['absmag_all']), 30, 450),
    ('close', work.close_calls(P, ['absmag']), 30, 400),
    ('options', options, 60, 900),
    ('meaning', meaning, 100, 1500),
]
