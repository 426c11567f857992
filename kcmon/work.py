"""Workloads shared by the properties of the fitting and magnitude methods."""
import numpy as np

from . import gen, observe

kc = gen.kc


def shift(rng, m, z=None, p0=0.35):
    """A band shift which keeps z (or zero redshift) inside the range."""
    if rng.random() < p0:
        return 0.
    z = 0. if z is None else float(np.max(z))
    lo, hi = m.range
    bhi = (1. + hi) / (1. + z) - 1.
    if bhi <= 1e-3:
        return 0.
    u = rng.random()
    b = bhi * (1. - 1e-5) if u < 0.1 else float(rng.uniform(0., bhi * 0.999))
    if lo < 0. and u > 0.85 and z == 0.:
        b = float(rng.uniform(lo, 0.)) * 0.999
    if u < 0.5:
        b = float(np.float32(b))
    return b


def bform(rng, b):
    return [float(b), np.float32(b), np.float64(b)][int(rng.integers(3))] if b else b


def distance(rng, n):
    d = 10.**rng.uniform(-2, 4, n)
    return np.float32(d)


def catalogue(rng, m, n=None, positive=True, hostile=True):
    """z, maggies, ivar; n None for a single object"""
    nn = 1 if n is None else n
    z = gen.redshifts(rng, m, nn, positive=positive)
    mg, iv = gen.photometry(rng, m, z, hostile=hostile)
    if rng.random() < 0.35:
        # rows which repeat parts of other rows
        z, mg, iv = gen.share(rng, z, mg, iv)
    last = getattr(m, 'last', None)
    if last is not None and rng.random() < 0.4:
        # parts of the catalogue before
        p = rng.integers(0, len(last[0]), nn) if len(last[0]) != nn else np.arange(nn)
        q = int(rng.integers(1, 7))
        r = np.float64(np.abs(last[1]).max()) / max(float(np.abs(mg).max()), 1e-20)
        if r > 0. and q & 6 == 2:
            # (errors on the scale of these fluxes)
            iv = np.float32(np.minimum(iv / np.float64(r)**2, 1e34))
        elif r > 0. and q & 6 == 4:
            mg = np.float32(mg * r)
        z, mg, iv = [np.array(b[p]) if q & (1 << x) else a
                     for x, (a, b) in enumerate(zip((z, mg, iv), last))]
    m.last = (z, mg, iv)
    if n is None:
        return z[0], mg[0], iv[0]
    return z, mg, iv


def one_round(rng, mon, m, k, n, ops, forms=True, mc=False):
    """Fit one catalogue and ask for what `ops` names; returns the weights."""
    f = (lambda x: gen.form(rng, x)) if forms else (lambda x: x)
    z, mg, iv = catalogue(rng, m, n)
    zf = f(z)
    mon.event('objects', 1 if n is None else n)
    nmc = 0
    if mc:
        nmc = int(rng.choice([1, 2, 3, 7]))
        cf, cmc, mmc = k.fit_coeffs(redshift=zf, maggies=f(mg), ivar=f(iv), mc=nmc)
    else:
        cf = k.fit_coeffs(redshift=zf, maggies=f(mg), ivar=f(iv))
    cf = np.asarray(cf)
    if rng.random() < 0.25:
        # not the fit: any non-negative weights, some objects without any
        cf = gen.weights(rng, m.nsed, 1 if n is None else n) * np.float32(10.**rng.uniform(-3, 3))
        if n is None:
            cf = cf[0]
        elif n > 1:
            cf[int(rng.integers(n))] = 0.
    d = None
    if rng.random() < 0.4:
        d = distance(rng, None if n is None else n)
        d = f(np.float32(d))
    can0 = bool(m.inside(0.))
    for op in ops:
        b = bform(rng, shift(rng, m))
        if op == 'reconstruct':
            bb = bform(rng, shift(rng, m, z))
            k.reconstruct(redshift=f(z), coeffs=f(cf), band_shift=bb)
        elif op == 'reconstruct_out':
            bb = bform(rng, shift(rng, m, z))
            k.reconstruct_out(redshift=f(z), coeffs=f(cf), band_shift=bb)
        elif not can0:
            continue
        elif op == 'kcorrect':
            k.kcorrect(redshift=f(z), coeffs=f(cf), band_shift=b)
        elif op == 'absmag':
            r, l, q = (bool(x) for x in rng.integers(0, 2, 3))
            k.absmag(redshift=f(z), maggies=f(mg), ivar=f(iv), coeffs=f(cf),
                     band_shift=b, distance=d, reconstruct=r, limit=l, kcorrect=q)
        elif op == 'absmag_all':
            k.absmag(redshift=f(z), maggies=f(mg), ivar=f(iv), coeffs=f(cf),
                     band_shift=b, distance=d, reconstruct=True, limit=True, kcorrect=True)
        elif op == 'derived':
            k.derived(redshift=f(z), coeffs=f(cf), band_shift=b, distance=d)
        elif op == 'absmag_mc' and mc:
            r, q = (bool(x) for x in rng.integers(0, 2, 2))
            k.absmag_mc(redshift=f(z), maggies_mc=mmc, ivar=f(iv), coeffs_mc=cmc,
                        band_shift=b, distance=d, reconstruct=r, kcorrect=q)
        elif op == 'derived_mc' and mc:
            k.derived_mc(redshift=f(z), coeffs_mc=cmc, band_shift=b, distance=d)
    return cf


def calls(props, ops, mc=False, **confkw):
    """A family: one object, catalogues of several sizes and forms, every
    call decided by the oracles of props."""
    def family(rng, mon):
        with observe.Observer(mon, props) as obs:
            c, m, k = gen.make(rng, obs, **confkw)
            mon.note(**gen.describe(c))
            mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), m.nz,
                    [round(float(x), 4) for x in m.range], c['abcorrect'])
            for n in [None, 1, gen.sizes(rng, m), gen.sizes(rng, m)]:
                one_round(rng, mon, m, k, n, ops, mc=mc)
    return family


def history(props, ops, mc=False):
    """A family: several objects of different configuration sharing one
    template object, used in an interleaved order; every call decided."""
    def family(rng, mon):
        with observe.Observer(mon, props) as obs:
            t = gen.template(rng)
            ks = []
            for _ in range(int(rng.integers(2, 4))):
                ks.append(gen.make(rng, obs, tmpl=t, nz=int(rng.choice([2, 3, 6, 12])),
                                   user=0.3))
            mon.note(objects=[gen.describe(c) for c, m, k in ks])
            mon.key([(c['cls'], c['_mode'], len(m.responses), m.nz) for c, m, k in ks])
            for step in range(int(rng.integers(4, 9))):
                c, m, k = ks[int(rng.integers(len(ks)))]
                n = None if rng.random() < 0.3 else gen.sizes(rng, m, big=0.)
                sub = [str(x) for x in rng.choice(ops, size=min(len(ops), 2), replace=False)]
                one_round(rng, mon, m, k, n, sub, mc=mc)
                mon.event('history_steps')
                if rng.random() < 0.2:
                    t.set_redshift(float(rng.uniform(0, 1)))   # objects are built already
    return family


def close_calls(props, ops):
    """A family: calls that differ a little in one argument follow each other
    closely (nearby redshifts and shifts, same redshift with other weights)."""
    def family(rng, mon):
        with observe.Observer(mon, props) as obs:
            c, m, k = gen.make(rng, obs, nz=int(rng.choice([3, 6, 12])), user=0.)
            mon.note(**gen.describe(c))
            mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), m.nz)
            can0 = bool(m.inside(0.))
            z0 = float(rng.uniform(max(m.range[0], 0.02), m.range[1] * 0.9))
            b0 = float(rng.uniform(0., m.range[1] * 0.5))
            cc = gen.weights(rng, m.nsed, 3)
            for i in range(10):
                z = np.float32(z0 + rng.choice([0., 1e-5, 1e-4, 1e-3, 0.01]) *
                               rng.uniform(-1, 1))
                z = np.clip(z, np.float32(m.range[0]), np.float32(m.range[1]))
                b = b0 + rng.choice([0., 0., 1e-4, 1e-3, 0.01])
                w = cc[int(rng.integers(3))]
                if rng.random() < 0.4:
                    z = np.float32([z, z, z0])
                    w = np.array([w, cc[0], w])
                mg, iv = gen.photometry(rng, m, np.atleast_1d(z))
                if z.ndim == 0:
                    mg, iv = mg[0], iv[0]
                for op in ops:
                    if op == 'fit':
                        k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)
                    elif op == 'reconstruct':
                        k.reconstruct(redshift=z, coeffs=w)
                    elif op == 'reconstruct_out':
                        k.reconstruct_out(redshift=z * 0 if can0 else z, coeffs=w,
                                          band_shift=b if can0 else 0.)
                    elif not can0:
                        continue
                    elif op == 'kcorrect':
                        k.kcorrect(redshift=z, coeffs=w, band_shift=b)
                    elif op == 'absmag':
                        k.absmag(redshift=z, maggies=mg, ivar=iv, coeffs=w, band_shift=b,
                                 reconstruct=True, limit=True, kcorrect=True)
                    elif op == 'derived':
                        k.derived(redshift=z, coeffs=w, band_shift=b)
                mon.event('close_steps')
    return family


# ------------------------------------------------------------- all results

_quiet = observe.Observer(None, [])

MAGS = ('kcorrect', 'absmag', 'absmag_reconstruct', 'absmag_limit', 'absmag_k')
FRACS = ('b50', 'b300', 'b1000', 'metallicity')
MASSES = ('mremain', 'intsfh')


def results(k, m, z, mg, iv, c, b=0., bz=0., d=None, f=None, order=None, fit=True):
    """Everything the object can say about a catalogue (or one object)."""
    f = f or (lambda x: x)
    can0 = bool(m.inside(0.))
    out = {}

    def do_fit():
        out['coeffs'] = k.fit_coeffs(redshift=f(z), maggies=f(mg), ivar=f(iv))

    def do_rec():
        out['maggies'] = k.reconstruct(redshift=f(z), coeffs=f(c))

    def do_recb():
        out['maggies_shift'] = k.reconstruct(redshift=f(z), coeffs=f(c), band_shift=bz)

    def do_out():
        out['maggies_out'] = k.reconstruct_out(redshift=f(z), coeffs=f(c), band_shift=bz)

    def do_k():
        out['kcorrect'] = k.kcorrect(redshift=f(z), coeffs=f(c), band_shift=b)

    def do_mag():
        r = k.absmag(redshift=f(z), maggies=f(mg), ivar=f(iv), coeffs=f(c), band_shift=b,
                     distance=None if d is None else f(d), reconstruct=True, limit=True,
                     kcorrect=True)
        out['absmag'], out['absmag_reconstruct'], out['absmag_limit'], out['absmag_k'] = r

    def do_der():
        r = k.derived(redshift=f(z), coeffs=f(c), band_shift=b,
                      distance=None if d is None else f(d))
        for n in MASSES + FRACS + ('mtol',):
            out[n] = r[n]
    steps = [do_rec, do_recb, do_out]
    if fit:
        steps.append(do_fit)
    if can0:
        steps += [do_k, do_mag, do_der]
    if order is not None:
        steps = [steps[i] for i in order.permutation(len(steps))]
    for s in steps:
        s()
    return out


def allowances(m, z, mg, iv, c, b=0., bz=0., d=None):
    """name -> (absolute allowance, decided) for results() of a catalogue."""
    z, c = observe.f64(z), observe.f64(c)
    mg, iv = observe.f64(mg), observe.f64(iv)
    yes = np.array(True)
    t = {}
    for n, isout, s in (('maggies', False, 0.), ('maggies_shift', False, bz),
                        ('maggies_out', True, bz)):
        v, e = m.maggies(z, c, out=isout, band_shift=float(s))
        t[n] = (e + 1e-6 * np.abs(v), yes)
    if bool(m.inside(0.)):
        exp = _quiet.expect_absmag(m, z, mg, iv, c, float(b), d)
        k, ktol, kdec = _quiet.expect_k(m, z, c, float(b))
        t['kcorrect'] = (ktol, kdec)
        t['absmag'] = exp[0][1:]
        t['absmag_reconstruct'] = exp[1][1:]
        t['absmag_limit'] = exp[2][1:]
        t['absmag_k'] = (ktol, kdec)
        dd, dt, mtol, mt, mdec = _quiet.expect_derived(m, z, c, float(b), d)
        for n in MASSES + FRACS:
            t[n] = (dt[n] + 1e-30, yes)
        t['mtol'] = (mt, mdec)
    return t


def same_fit(mon, m, z, mg, iv, c1, c2, what, cls=None, **data):
    """Two sets of weights are the same fit: the same weighted model, and
    where the design is well-conditioned the same weights."""
    z = np.atleast_1d(observe.f64(z))
    mg, iv = observe.f64(mg).reshape(len(z), -1), observe.f64(iv).reshape(len(z), -1)
    c1 = np.asarray(c1, dtype=np.float64).reshape(len(z), -1)
    c2 = np.asarray(c2, dtype=np.float64).reshape(len(z), -1)
    for i in range(len(z)):
        if not m.inside(z[i]):
            mon.check(not c1[i].any() and not c2[i].any(), what + ': outside the range')
            continue
        mon.decisions += 1
        A, _ = m.A(z[i])
        Aw = A * np.sqrt(iv[i])[:, None]
        p1, p2 = Aw.dot(c1[i]), Aw.dot(c2[i])
        b = mg[i] * np.sqrt(iv[i])
        tol = 3e-4 * (np.sqrt((b**2).sum()) + np.sqrt((p1**2).sum()))
        # (the fit of noisy photometry is as smooth as its gradient)
        if np.sqrt(((p1 - p2)**2).sum()) > tol:
            mon.check(False, what, coeffs=c1[i], other=c2[i], redshift=z[i], row=i, **data)
        s = np.sqrt((Aw**2).sum(axis=0))
        use = s > 0.
        if use.any():
            sv = np.linalg.svd(Aw[:, use] / s[use], compute_uv=False)
            if len(sv) == use.sum() and sv[-1] > 0.02:
                dc = np.abs(c1[i] - c2[i])[use] * s[use]
                if dc.max() > 60. * tol:
                    mon.check(False, what, coeffs=c1[i], other=c2[i], redshift=z[i], row=i, **data)
                mon.event('weights_compared')


def agree(mon, m, got, want, al, z, mg, iv, what, fitted=None, factor=2., **data):
    """results() `got` equal `want` (both of catalogues)."""
    mon.check(set(got) == set(want), what + ': other results', got=sorted(got), want=sorted(want))
    for n in got:
        if n == 'coeffs':
            same_fit(mon, m, z, *(fitted or (mg, iv)), c1=got[n], c2=want[n],
                     what='{}: {}'.format(what, n), **data)
            continue
        tol, dec = al[n]
        g = np.asarray(got[n], dtype=np.float64)
        w = np.asarray(want[n], dtype=np.float64)
        mon.decisions += 1
        if g.shape != w.shape:
            mon.check(False, '{}: {} has shape {} instead of {}'.format(what, n, g.shape, w.shape),
                      **data)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= factor * tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
        bad &= dec
        mon.event('values_compared', int(g.size))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            mon.check(False, '{}: {}'.format(what, n), at=list(i), got=g[i], want=w[i],
                      tol=np.broadcast_to(tol, g.shape)[i], nbad=int(bad.sum()), **data)


def rows(res, i):
    return dict((n, np.asarray(v)[i]) for n, v in res.items())


def stack(list_of_results):
    return dict((n, np.array([np.asarray(r[n]) for r in list_of_results]))
                for n in list_of_results[0])


def sub_allow(al, i):
    out = {}
    for n, (t, d) in al.items():
        out[n] = (t[i] if np.ndim(t) else t, d[i] if np.ndim(d) else d)
    return out


def setup(rng, obs=None, n=None, z0=True, **kw):
    """object, model, a catalogue with weights, shifts, distances"""
    c, m, k = gen.make(rng, obs, **kw)
    nn = n or max(2, gen.sizes(rng, m, big=0.))
    z, mg, iv = catalogue(rng, m, nn)
    w = gen.weights(rng, m.nsed, nn)
    if rng.random() < 0.3:
        w[int(rng.integers(nn))] = 0.
    b = shift(rng, m)
    bz = shift(rng, m, z)
    d = distance(rng, nn) if rng.random() < 0.5 else None
    if rng.random() < 0.35:
        z, mg, iv, w, d = gen.share(rng, z, mg, iv, w, d)
    return c, m, k, z, mg, iv, w, b, bz, d
