"""C02 Catalogue results equal per-object results."""
import numpy as np

from .. import gen, observe, work

RULE = ('A case builds a random object and a catalogue (sizes 1-300, including the number of '
        'bands and of templates, duplicates, zero weights, unusable photometry), asks for every '
        'result of the catalogue and compares with the same question asked for each object '
        'alone, for one-element, permuted, split and repeated catalogues, and for the same '
        'numbers in other containers. Distinct by class, sizes and band mode.')
ASSUMPTIONS = ['fits are compared by the weighted model they make, which is unique, and by '
               'their weights where the design is well-conditioned']
MIN_EVENTS = {'values_compared': 5000, 'rows_alone': 200}


def alone(rng, mon):
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), len(z), c['_mode'])
    mga, iva = gen.to_ab_ref(c, mg, iv)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    cat = work.results(k, m, z, mg, iv, w, b, bz, d)
    for n, v in cat.items():
        mon.check(np.shape(v)[0] == len(z), n + ' has no object axis', shape=np.shape(v))
    for i in range(len(z)):
        one = work.results(k, m, z[i], mg[i], iv[i], w[i], b, bz, None if d is None else d[i])
        arr = work.results(k, m, z[i:i + 1], mg[i:i + 1], iv[i:i + 1], w[i:i + 1], b, bz,
                           None if d is None else d[i:i + 1])
        mon.event('rows_alone')
        for n in cat:
            mon.check(np.shape(one[n]) == np.shape(cat[n])[1:],
                      n + ' of a scalar redshift has the wrong shape', shape=np.shape(one[n]),
                      catalogue=np.shape(cat[n]))
            mon.check(np.shape(arr[n]) == (1,) + np.shape(cat[n])[1:],
                      n + ' of a one-element redshift has the wrong shape',
                      shape=np.shape(arr[n]), catalogue=np.shape(cat[n]))
        s = slice(i, i + 1)
        a = work.sub_allow(al, s)
        work.agree(mon, m, work.stack([one]), work.rows(cat, s), a, z[s], mg[s], iv[s],
                   'alone', fitted=(mga[s], iva[s]), row=i)
        work.agree(mon, m, arr, work.rows(cat, s), a, z[s], mg[s], iv[s],
                   'one-element', fitted=(mga[s], iva[s]), row=i)


def drawn(rng, mon):
    """The weights given with draws are those of each object alone."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    n = len(z)
    mon.note(n=n, **gen.describe(c))
    mon.key('drawn', c['cls'], m.nsed, len(m.responses), n)
    mc = int(rng.choice([1, 2, 3, n, m.nsed]))
    cf, cm, mm = k.fit_coeffs(redshift=gen.form(rng, z), maggies=gen.form(rng, mg),
                              ivar=gen.form(rng, iv), mc=mc)
    ab, abiv = gen.to_ab_ref(c, mg, iv)
    one = np.array([np.asarray(k.fit_coeffs(redshift=z[i], maggies=mg[i], ivar=iv[i]))
                    for i in range(n)])
    work.same_fit(mon, m, z, ab, abiv, np.asarray(cf), one, 'weights of a catalogue with draws')
    mon.event('rows_alone', n)
    # and the weights of every draw are those of the drawn maggies alone
    cm, mm = np.asarray(cm), np.asarray(mm)
    for j in range(mc):
        x = np.ascontiguousarray(mm[..., j])
        one = np.array([np.asarray(k.fit_coeffs(redshift=z[i], maggies=x[i], ivar=iv[i]))
                        for i in range(n)])
        work.same_fit(mon, m, z, gen.to_ab_ref(c, x, iv)[0], abiv, cm[..., j], one,
                      'weights of draws of a catalogue')
        mon.event('draws_alone', n)
        if j == 3:
            break
    if not m.inside(0.):
        return
    # quantities of draws: of a catalogue, and alone
    b = work.shift(rng, m)
    kw = dict(band_shift=b, reconstruct=True, kcorrect=True)
    dd = (lambda i: {}) if d is None else (lambda i: dict(distance=d[i]))
    a = k.absmag_mc(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=cm, **kw, **dd(slice(None)))
    q = k.derived_mc(redshift=z, coeffs_mc=cm, band_shift=b, **dd(slice(None)))
    for i in range(n):
        ai = k.absmag_mc(redshift=z[i], maggies_mc=mm[i], ivar=iv[i], coeffs_mc=cm[i], **kw,
                         **dd(i))
        qi = k.derived_mc(redshift=z[i], coeffs_mc=cm[i], band_shift=b, **dd(i))
        for name, x, y in zip(('absmag', 'reconstruct', 'k'), a, ai):
            mon.close(np.asarray(x)[i], y, 'absmag_mc: {} of a catalogue'.format(name),
                      rtol=1e-5, atol=2e-5, row=i)
        mon.check(set(q) == set(qi), 'derived_mc: other results')
        for name in q:
            x, y = np.asarray(q[name])[i], np.asarray(qi[name])
            mon.close(x, y, 'derived_mc: {} of a catalogue'.format(name), rtol=2e-5,
                      atol=2e-6 * float(np.nanmax(np.abs(y), initial=0.)), row=i)
        mon.event('draws_alone')


def order(rng, mon):
    """Permuted, repeated, split and padded catalogues."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng, n=int(rng.integers(2, 40)))
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), len(z), c['_mode'])
    fit = gen.to_ab_ref(c, mg, iv)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    base = work.results(k, m, z, mg, iv, w, b, bz, d)
    n = len(z)
    picks = [rng.permutation(n), np.arange(n)[::-1],
             rng.integers(0, n, int(rng.integers(1, 2 * n + 1))),
             np.full(int(rng.choice([1, 2, 3, len(m.responses), m.nsed])), int(rng.integers(n))),
             np.arange(n)[:int(rng.integers(1, n + 1))],
             np.argsort(z)]
    for p in picks:
        got = work.results(k, m, z[p], mg[p], iv[p], w[p], b, bz, None if d is None else d[p])
        work.agree(mon, m, got, work.rows(base, p), work.sub_allow(al, p), z[p], mg[p], iv[p],
                   'rearranged catalogue', fitted=(fit[0][p], fit[1][p]), pick=p)
        mon.event('rearrangements')


def neighbours(rng, mon):
    """Changing the other members of a catalogue changes nothing for one."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng, n=int(rng.integers(2, 20)))
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), len(z), c['_mode'])
    base = work.results(k, m, z, mg, iv, w, b, bz, d)
    fit = gen.to_ab_ref(c, mg, iv)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    i = int(rng.integers(len(z)))
    for _ in range(3):
        z2, mg2, iv2 = work.catalogue(rng, m, len(z))
        z2 = np.minimum(z2, z.max())
        w2 = gen.weights(rng, m.nsed, len(z)) * np.float32(10.**rng.uniform(-5, 5))
        d2 = None if d is None else work.distance(rng, len(z))
        what = rng.integers(4)
        if what == 0:
            w2 *= 0.
        elif what == 1:
            iv2 *= 0.
        elif what == 2:
            mg2 = -np.abs(mg2)
        z2[i], mg2[i], iv2[i], w2[i] = z[i], mg[i], iv[i], w[i]
        if d is not None:
            d2[i] = d[i]
        got = work.results(k, m, z2, mg2, iv2, w2, b, bz, d2)
        s = slice(i, i + 1)
        work.agree(mon, m, work.rows(got, s), work.rows(base, s), work.sub_allow(al, s),
                   z[s], mg[s], iv[s], 'with other neighbours',
                   fitted=(fit[0][s], fit[1][s]), row=i)
        mon.event('neighbourhoods')


def forms(rng, mon):
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    scalar = bool(rng.random() < 0.3)
    mon.note(n=len(z), scalar=scalar, **gen.describe(c))
    mon.key(c['cls'], m.nsed, len(m.responses), len(z), c['_mode'])
    fit = gen.to_ab_ref(c, mg, iv)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    if scalar:
        al = work.sub_allow(al, 0)
        z, mg, iv, w = z[0], mg[0], iv[0], w[0]
        fit = (fit[0][0], fit[1][0])
        d = None if d is None else d[0]
    base = work.results(k, m, z, mg, iv, w, b, bz, d)
    for kind in gen.FORMS:
        got = work.results(k, m, z, mg, iv, w, b, bz, d, f=lambda x: gen.form(rng, x, kind))
        work.agree(mon, m, got, base, al, z, mg, iv, 'given as ' + kind, fitted=fit)
        mon.event('forms')
    for _ in range(3):
        got = work.results(k, m, z, mg, iv, w, b, bz, d, f=lambda x: gen.form(rng, x))
        work.agree(mon, m, got, base, al, z, mg, iv, 'given in mixed forms', fitted=fit)
        mon.event('forms')


def large(rng, mon):
    """Sizes at which an implementation could work in pieces."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(
        rng, n=[257, 256, 1001, 513, 2049, 4097, 1024, 10001][mon.index % 8], nz=3,
        nsed=int(rng.integers(1, 4)), nin=int(rng.integers(1, 4)), cls='Kcorrect', user=0.)
    mon.note(n=len(z), **gen.describe(c))
    mon.key('large', len(z), m.nsed, len(m.responses))
    cat = work.results(k, m, z, mg, iv, w, b, bz, d)
    n = len(z)
    for i in [0, 1, n - 1, n - 2] + [int(x) for x in rng.integers(0, n, 12)]:
        s = slice(i, i + 1)
        al = work.allowances(m, z[s], mg[s], iv[s], w[s], b, bz, None if d is None else d[s])
        one = work.results(k, m, z[i], mg[i], iv[i], w[i], b, bz, None if d is None else d[i])
        work.agree(mon, m, work.stack([one]), work.rows(cat, s), al, z[s], mg[s], iv[s],
                   'alone', fitted=gen.to_ab_ref(c, mg[s], iv[s]), row=i)
        mon.event('rows_alone')


def prefixes(rng, mon):
    """The first n rows of a catalogue for many n: every way of working in
    pieces has its last piece somewhere."""
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(
        rng, n=int(rng.choice([1060, 1060, 2060])), nz=int(rng.choice([2, 3, 6])),
        nsed=int(rng.integers(1, 6)), nin=int(rng.integers(1, 6)), cls='Kcorrect', user=0.)
    n = len(z)
    mon.note(n=n, **gen.describe(c))
    full = work.results(k, m, z, mg, iv, w, b, bz, d)
    ns = set(int(x) for x in rng.integers(1, n, 10))
    ns |= set(int(x) for x in rng.integers(1, 130, 12))
    for piece in (8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024,
                  2000, 2048):
        ns |= set(piece * int(rng.integers(1, 3)) + e for e in (0, 1))
        ns.add(piece - 1)
    ns = sorted(x for x in ns if 0 < x <= n)
    ns = [ns[i] for i in rng.permutation(len(ns))]
    mon.key('prefixes', n, m.nsed, len(m.responses), ns)
    for i, x in enumerate(ns):
        s = slice(0, x)
        o = 0 if rng.random() < 0.6 else int(rng.integers(0, n - x + 1))
        s = slice(o, o + x)
        got = work.results(k, m, z[s], mg[s], iv[s], w[s], b, bz, None if d is None else d[s],
                           fit=(x < 300 or i % 3 == 0))
        mon.check(all(np.asarray(v).shape[0] == x for v in got.values()), 'number of rows')
        j = np.unique([x - 1, max(x - 2, 0), 0] + [int(y) for y in rng.integers(0, x, 3)])
        q = o + j
        al = work.allowances(m, z[q], mg[q], iv[q], w[q], b, bz, None if d is None else d[q])
        want = work.rows(full, q)
        if 'coeffs' not in got:
            want.pop('coeffs')
        work.agree(mon, m, work.rows(got, j), want, al, z[q], mg[q], iv[q],
                   'rows of a part of {} rows'.format(x),
                   fitted=gen.to_ab_ref(c, mg[q], iv[q]))
        mon.event('parts')
        mon.event('rows_alone', len(q))


FAMILIES = [
    ('prefixes', prefixes, 10, 120),
    ('alone', alone, 90, 1200),
    ('drawn', drawn, 40, 700),
    ('order', order, 60, 900),
    ('neighbours', neighbours, 60, 900),
    ('forms', forms, 60, 900),
    ('large', large, 8, 60),
]
