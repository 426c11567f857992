"""C21 Error floors only ever raise errors, to exactly the floor."""
import numpy as np

from .. import digest, gen

kc = gen.kc
floor_of = kc.utils.error_floor
RULE = ('Random fluxes (any sign, zeros), inverse variances (zero, negative, far above, near and '
        'below the floor, exact measurements) and floors for any number of bands and objects '
        '(square too), in many array forms, go through error_floor; each returned value is '
        'compared with its definition in float64, unchanged ones bitwise, floored again, '
        'object by object and with other values changed. Distinct by shape and form.')
ASSUMPTIONS = ['inverse variances are given as floating-point numbers',
               'within 1e-5 of the floor either value is right']
MIN_EVENTS = {'values': 20000, 'raised': 5000, 'untouched': 5000, 'no_measurement': 1000,
              'zero_flux': 500, 'negative_flux': 2000, 'rejections': 60}


def draw(rng, shape, nb):
    mg = np.float32(rng.standard_normal(shape) * 10.**rng.uniform(-12, 2))
    floor = 10.**rng.uniform(-3.5, 0.3, nb)
    if rng.random() < 0.3:
        floor[int(rng.integers(nb))] = 0.
    if rng.random() < 0.3:
        floor[:] = floor[0]
    floor = np.float32(floor)
    near = rng.choice([1., 1., 0.999, 1.001, 0.1, 0.5, 2., 10.], size=shape)
    spread = 10.**rng.uniform(-2, 2, shape)
    r = np.where(rng.random(shape) < 0.3, near, spread)
    ferr = np.where(floor > 0., floor, 0.01) * r
    a = np.abs(np.float64(mg))
    iv = 1. / (np.where(a > 0., a, 1.) * ferr)**2
    iv = np.float32(np.minimum(iv, 1e35))
    u = rng.random(shape)
    iv = np.where(u < 0.12, np.float32(0.), iv)
    iv = np.where((u > 0.12) & (u < 0.18), -iv, iv)
    iv = np.where((u > 0.18) & (u < 0.2), np.float32(np.inf), iv)
    mg = np.where(rng.random(shape) < 0.08, np.float32(0.), mg)
    return mg, iv, floor


def expect(mg, iv, floor):
    """value, exactly unchanged, either"""
    m = np.abs(np.float64(mg))
    v = np.float64(iv)
    f = np.broadcast_to(np.float64(floor), m.shape)
    with np.errstate(all='ignore'):
        ferr = 1. / (m * np.sqrt(np.where(v > 0., v, 1.)))
        ferr = np.where(m == 0., np.inf, np.where(np.isinf(v), 0., ferr))
        raise_ = (v > 0.) & (m > 0.) & (ferr < f)
        near = (v > 0.) & (np.abs(ferr - f) <= 1e-5 * f)
        want = np.where(raise_, 1. / (m * f)**2, v)
    return want, ~raise_, near, raise_


def judge(mon, mg, iv, floor, got, what):
    want, same, near, raised = expect(mg, iv, floor)
    g = np.asarray(got, dtype=np.float64)
    mon.check(g.shape == want.shape, what + ': shape', got=g.shape, want=want.shape)
    with np.errstate(all='ignore'):
        ok = (np.abs(g - want) <= 1e-5 * np.abs(want)) | (g == want)
        exact = g == np.float64(iv)
    mon.check(ok.all(), what, at=np.argwhere(~ok)[:1], got=g[~ok][:1], want=want[~ok][:1],
              maggies=np.asarray(mg)[~ok][:1], ivar=np.asarray(iv)[~ok][:1])
    bad = same & ~near & ~exact
    mon.check(not bad.any(), what + ': a value above the floor is changed', got=g[bad][:1],
              want=np.asarray(iv)[bad][:1])
    up = (np.float64(iv) > 0.) & (g > np.float64(iv) * (1. + 1e-5))
    mon.check(not up.any(), what + ': an error was lowered', got=g[up][:1],
              was=np.asarray(iv)[up][:1])
    mon.event('values', int(g.size))
    mon.event('raised', int(raised.sum()))
    mon.event('untouched', int((same & (np.float64(iv) > 0.)).sum()))
    mon.event('no_measurement', int((np.float64(iv) <= 0.).sum()))
    mon.event('zero_flux', int((np.asarray(mg) == 0.).sum()))
    mon.event('negative_flux', int((np.asarray(mg) < 0.).sum()))


def floors(rng, mon):
    nb = int(rng.choice([1, 2, 3, 5, 5, 8, 10]))
    n = None if rng.random() < 0.25 else int(rng.choice([1, 2, 3, nb, nb, 7, 40, 300]))
    shape = (nb,) if n is None else (n, nb)
    mon.note(n=n, bands=nb)
    mg, iv, fl = draw(rng, shape, nb)
    kk = [str(rng.choice(gen.FORMS)) for _ in range(3)]
    if nb == 1:
        kk = [k if k != 'column' else 'f4' for k in kk]
    a, b, c = gen.form(rng, mg, kk[0]), gen.form(rng, iv, kk[1]), gen.form(rng, fl, kk[2])
    mon.key(n, nb, kk)
    before = digest.digest(a, b, c)
    got = floor_of(floor=c, maggies=a, ivar=b)
    mon.check(digest.digest(a, b, c) == before, 'error_floor changed its inputs', forms=kk)
    mon.check(not (isinstance(b, np.ndarray) and np.shares_memory(got, b)),
              'error_floor returns its input')
    judge(mon, mg, iv, fl, got, 'floored')
    # twice
    got = np.asarray(got)
    again = floor_of(floor=c, maggies=a, ivar=got)
    mon.close(again, got, 'a second floor changes something', rtol=1e-6)
    # a lower floor afterwards changes nothing; a higher one is as if alone
    low = floor_of(floor=fl * np.float32(0.5), maggies=mg, ivar=got)
    mon.close(low, got, 'a lower floor changes something', rtol=1e-6)
    mon.event('repeats')
    # double precision
    mg8, iv8 = mg.astype(np.float64) * 1e-9, iv.astype(np.float64) * 1e18
    judge(mon, mg8, iv8, fl, floor_of(floor=fl, maggies=mg8, ivar=iv8), 'floored in float64')
    if n is None:
        one = floor_of(floor=fl, maggies=mg[None], ivar=iv[None])
        mon.close(one, got[None], 'a catalogue of one object', rtol=1e-6)
        return
    o = rng.permutation(n)
    mon.close(floor_of(floor=fl, maggies=mg[o], ivar=iv[o]), got[o], 'order of objects', rtol=1e-6)
    p = rng.permutation(nb)
    mon.close(floor_of(floor=fl[p], maggies=mg[:, p], ivar=iv[:, p]), got[:, p],
              'order of bands', rtol=1e-6)
    for i in rng.permutation(n)[:3]:
        mon.close(floor_of(floor=fl, maggies=mg[i], ivar=iv[i]), got[i], 'an object alone',
                  rtol=1e-6)
        m2, v2 = mg.copy(), iv.copy()
        j = int(rng.integers(nb))
        m2[i, j] = -np.float32(rng.choice([0., 3., 1e-6])) * m2[i, j]
        v2[i, j] = np.float32(rng.choice([0., -1., 1e-3]))
        g = floor_of(floor=fl, maggies=m2, ivar=v2)
        judge(mon, m2, v2, fl, g, 'with one value changed')
        mon.event('independence')


def rejected(rng, mon):
    mg, iv, fl = draw(rng, (3, 4), 4)
    for a, b, c in ((fl[:3], mg, iv), (np.append(fl, fl[:1]), mg, iv), (fl, mg[:, :3], iv),
                    (fl, mg, iv[:2]), (fl, mg, iv[:, :3]), (fl, mg[0], iv), (fl, mg, iv[0]),
                    (fl, mg.T, iv.T), (fl, mg, iv[:1])):
        mon.raises((ValueError, IndexError, TypeError), 'mismatched shapes {} {} {}'.format(
            np.shape(a), np.shape(b), np.shape(c)), floor_of, floor=a, maggies=b, ivar=c)
    judge(mon, mg, iv, fl, floor_of(floor=fl, maggies=mg, ivar=iv), 'after rejections')
    mon.key('rejected', round(float(fl[0]), 5))


FAMILIES = [
    ('floors', floors, 300, 9000),
    ('rejected', rejected, 8, 60),
]
