"""C04 Redshift range is closed, isolated and never extrapolated."""
import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds an object with a random redshift range and grid size (including ranges '
        'whose ends are not float32 numbers and grids up to 4000) and fits and reconstructs at '
        'the ends, at neighbouring floats, at grid nodes, inside and outside, alone and in mixed '
        'catalogues, with and without Monte Carlo and band shifts. Distinct by range, grid and '
        'sizes. A redshift is outside if its float32 value is beyond the float32 range end.')
ASSUMPTIONS = ['the range is that of its float32 values; NaN redshifts are not covered',
               'a combined shift within 1e-6 of the end of the range may go either way']
MIN_EVENTS = {'endpoints': 100, 'outside': 100, 'rejections': 200, 'isolated': 50,
              'fitted_not_zero': 500}


def ranges(rng):
    u = rng.random()
    if u < 0.25:
        r = [float(rng.choice([0., 0., 0.1, 0.05, 0.01])), float(rng.choice([1.0, 0.7, 0.9, 1.1, 0.35, 2.2]))]
    elif u < 0.5:
        r = sorted(float(x) for x in np.round(rng.uniform(0, 2.5, 2), int(rng.integers(1, 4))))
    elif u < 0.8:
        r = sorted(float(x) for x in rng.uniform(0, 2.5, 2))
    else:
        r = [-float(rng.uniform(0., 0.2)), float(rng.uniform(0.1, 1.5))]
    if r[1] - r[0] < 0.02:
        r[1] = r[0] + 0.3
    if rng.random() < 0.3:
        r = [np.float32(x) for x in r]
    elif rng.random() < 0.3:
        r = np.array(r)
    elif rng.random() < 0.2:
        r = tuple(r)
    return r


def make(rng, big=False):
    """An object whose range is anything."""
    nz = int(rng.choice([2, 3, 5, 7, 10, 11, 17, 33, 100]))
    t = gen.template(rng, nsed=int(rng.integers(1, 4)), nwave=int(rng.integers(200, 300)))
    if big:
        nz = int(rng.choice([257, 500, 1000, 2000]))
    c = gen.conf(rng, cls=None if not big else 'Kcorrect', tmpl=t, nz=nz, user=0.,
                 nin=int(rng.integers(1, 4)))
    if big and 'responses_out' in c:
        # (one grid is enough)
        del c['responses_out']
        c.pop('responses_map', None)
    c['redshift_range'] = ranges(rng)
    m = gen.model_conf(c)
    k = gen.build(c)
    return c, m, k


def _ends(m):
    lo, hi = np.float32(m.range[0]), np.float32(m.range[1])
    return lo, hi


def endpoints(rng, mon, big=False):
    with observe.Observer(mon, ['C01', 'C04', 'C07', 'C12']) as obs:
        c, m, k = make(rng, big)
        obs.register(k, m)
        mon.note(**gen.describe(c))
        mon.key([float(x) for x in m.range], m.nz, c['cls'])
        lo, hi = _ends(m)
        inf = np.float32(np.inf)
        zs = [lo, hi, np.nextafter(lo, inf), np.nextafter(hi, -inf)]
        zs += [np.float32(x) for x in rng.uniform(lo, hi, 4)]
        # as the user wrote them
        zs += [c['redshift_range'][0], c['redshift_range'][1]]
        zs += [np.float32(k.redshifts[int(i)]) for i in rng.integers(0, m.nz, 3)]
        zs = [z for z in zs if lo <= np.float32(z) <= hi]
        fitted = 0
        for z in zs:
            mg, iv = gen.photometry(rng, m, np.float32([z]), hostile=False, snr=50.)
            mc = int(rng.choice([0, 0, 2]))
            out = k.fit_coeffs(redshift=z, maggies=mg[0], ivar=iv[0], mc=mc)
            # (that it was fitted, not set to zero, is judged by its optimality)
            fitted += bool(np.any(np.asarray(out[0] if mc else out) > 0.))
            k.reconstruct(redshift=z, coeffs=gen.weights(rng, m.nsed, 1)[0])
            k.reconstruct_out(redshift=z, coeffs=gen.weights(rng, m.nsed, 1)[0])
            mon.event('endpoints')
        z = np.float32(zs)
        mg, iv = gen.photometry(rng, m, z, hostile=False, snr=50.)
        k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)
        mon.event('fitted_not_zero', fitted)
        k.reconstruct(redshift=z, coeffs=gen.weights(rng, m.nsed, len(z)))
        # shifts which combine to the ends
        for zt in (lo, hi):
            z1 = np.float32(rng.uniform(lo, hi))
            b = (1. + float(zt)) / (1. + float(z1)) - 1.
            b *= 1. - 4e-6 * np.sign(b) / max(abs(b), 1e-3)
            s = float(z1) + b + float(z1) * b
            if m.inside(s, 2e-6):
                k.reconstruct(redshift=z1, coeffs=gen.weights(rng, m.nsed, 1)[0], band_shift=b)


def big(rng, mon):
    return endpoints(rng, mon, big=True)


def outside_values(rng, m):
    lo, hi = _ends(m)
    inf = np.float32(np.inf)
    v = [np.nextafter(lo, -inf), np.nextafter(hi, inf), hi + np.float32(1e-3), lo - np.float32(1e-3),
         hi + np.float32(rng.uniform(0.01, 3.)), np.float32(1e3), np.float32(1e20),
         np.float32(-1.), np.float32(-5.), lo - np.float32(rng.uniform(0.01, 0.5))]
    return [x for x in v if x < lo or x > hi]


def outside(rng, mon):
    """Outside alone: zeros from fits, ValueError from everything else."""
    with observe.Observer(mon, ['C01', 'C04', 'C12']) as obs:
        c, m, k = make(rng)
        obs.register(k, m)
        mon.note(**gen.describe(c))
        mon.key([float(x) for x in m.range], m.nz, c['cls'])
        zin = np.float32(rng.uniform(*m.range))
        mg, iv = gen.photometry(rng, m, np.float32([zin]))
        mg, iv = mg[0], iv[0]
        w = gen.weights(rng, m.nsed, 1)[0]
        for z in outside_values(rng, m):
            mc = int(rng.choice([0, 1, 3]))
            for arr in (False, True):
                zz, mm, vv, ww = ((np.float32([z]), mg[None], iv[None], w[None]) if arr else
                                  (z, mg, iv, w))
                out = k.fit_coeffs(redshift=zz, maggies=mm, ivar=vv, mc=mc)
                cf = np.asarray(out[0] if mc else out)
                mon.check(not cf.any(), 'weights outside the range are not zero', redshift=z)
                if mc:
                    mon.check(not np.any(out[1]), 'weights of draws outside the range are not zero')
                    mon.check(np.shape(out[1]) == np.shape(cf) + (mc,) and
                              np.shape(out[2]) == np.shape(mm) + (mc,), 'shapes of draws')
                mon.raises(ValueError, 'reconstruct outside the range', k.reconstruct,
                           redshift=zz, coeffs=ww)
                mon.raises(ValueError, 'reconstruct_out outside the range', k.reconstruct_out,
                           redshift=zz, coeffs=ww)
                mon.raises(ValueError, 'kcorrect outside the range', k.kcorrect,
                           redshift=zz, coeffs=ww)
                d = np.float32(10.) if not arr else np.float32([10.])
                mon.raises(ValueError, 'absmag outside the range', k.absmag, redshift=zz,
                           maggies=mm, ivar=vv, coeffs=ww, distance=d)
                # zero weights are no excuse to evaluate it
                mon.raises(ValueError, 'reconstruct outside the range with zero weights',
                           k.reconstruct, redshift=zz, coeffs=ww * 0)


def shifted(rng, mon):
    """Combined redshift and band shift outside: ValueError."""
    c, m, k = make(rng)
    mon.note(**gen.describe(c))
    lo, hi = m.range
    w = gen.weights(rng, m.nsed, 1)[0]
    for _ in range(10):
        z = float(np.float32(rng.uniform(lo, hi)))
        t = (hi + rng.choice([1e-4, 0.01, 0.5, 5.]) if rng.random() < 0.7 else
             lo - rng.choice([1e-4, 0.01, 0.2]))
        if t <= -0.9:
            continue
        b = (1. + t) / (1. + z) - 1.
        mon.key([float(x) for x in m.range], m.nz, round(b, 3))
        for zz, ww in ((np.float32(z), w), (np.float32([z]), w[None])):
            mon.raises(ValueError, 'reconstruct with a band shift out of range', k.reconstruct,
                       redshift=zz, coeffs=ww, band_shift=b)
            mon.raises(ValueError, 'reconstruct_out with a band shift out of range',
                       k.reconstruct_out, redshift=zz, coeffs=ww, band_shift=b)
    z = np.float32(rng.uniform(max(lo, 1e-3), hi))
    mg, iv = gen.photometry(rng, m, np.float32([z]))
    for b in (hi + 1e-3, hi + 1., lo - 1e-3, lo - 0.1):
        if b <= -0.9 or m.inside(b, -1e-6):
            continue
        mon.raises(ValueError, 'kcorrect at a band shift out of range', k.kcorrect,
                   redshift=z, coeffs=w, band_shift=b)
        mon.raises(ValueError, 'absmag at a band shift out of range', k.absmag, redshift=z,
                   maggies=mg[0], ivar=iv[0], coeffs=w, band_shift=b)
        mon.raises(ValueError, 'derived at a band shift out of range', k.derived, redshift=z,
                   coeffs=w, band_shift=b)
        mon.raises(ValueError, 'derived at a band shift out of range', k.derived,
                   redshift=np.float32([z, z]), coeffs=np.array([w, w]), band_shift=b)
    if not m.inside(0., -1e-6):
        # quantities at rest cannot be had
        mon.raises(ValueError, 'kcorrect without zero redshift in the range', k.kcorrect,
                   redshift=z, coeffs=w)
        mon.raises(ValueError, 'derived without zero redshift in the range', k.derived,
                   redshift=z, coeffs=w)
        mon.event('no_rest')


def isolated(rng, mon):
    """Objects outside never disturb the others."""
    with observe.Observer(mon, ['C01', 'C04', 'C12']) as obs:
        c, m, k = make(rng)
        obs.register(k, m)
        mon.note(**gen.describe(c))
        n = int(rng.integers(2, 12))
        z = gen.redshifts(rng, m, n)
        mg, iv = gen.photometry(rng, m, z)
        out = outside_values(rng, m)
        bad = rng.random(n) < rng.choice([0.2, 0.5, 0.9])
        bad[int(rng.integers(n))] = True
        mon.key([float(x) for x in m.range], m.nz, c['cls'], [bool(x) for x in bad])
        z2 = z.copy()
        for i in np.where(bad)[0]:
            z2[i] = out[int(rng.integers(len(out)))]
        mc = int(rng.choice([0, 0, 1, 4]))
        ref_c = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
        o = k.fit_coeffs(redshift=z2, maggies=mg, ivar=iv, mc=mc)
        got = np.asarray(o[0] if mc else o)
        mon.event('isolated')
        mon.check(got.shape == ref_c.shape, 'shape')
        mon.check(not got[bad].any(), 'an object outside the range has weights')
        if mc:
            mon.check(not np.asarray(o[1])[bad].any(), 'a draw outside the range has weights')
            mon.check(np.shape(o[1]) == got.shape + (mc,) and np.shape(o[2]) == mg.shape + (mc,),
                      'shapes of draws')
            mon.check(np.isfinite(np.asarray(o[2])).all(), 'maggies of draws are not finite')
        ok = ~bad
        if ok.any():
            f = gen.to_ab_ref(c, mg[ok], iv[ok])
            work.same_fit(mon, m, z[ok], f[0], f[1], got[ok], ref_c[ok],
                          'an object outside the range disturbs others')
        w = gen.weights(rng, m.nsed, n)
        mon.raises(ValueError, 'reconstruct of a catalogue with an object outside', k.reconstruct,
                   redshift=z2, coeffs=w)
        mon.raises(ValueError, 'kcorrect of a catalogue with an object outside', k.kcorrect,
                   redshift=z2, coeffs=w)
        # and the object is as usable as before
        again = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
        mon.same(again, ref_c, 'a rejected call changed later fits')


FAMILIES = [
    ('endpoints', endpoints, 100, 1500),
    ('big', big, 8, 60),
    ('outside', outside, 60, 800),
    ('shifted', shifted, 60, 800),
    ('isolated', isolated, 80, 1000),
]
