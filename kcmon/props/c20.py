"""C20 The AB zero-point correction is applied exactly once."""
import numpy as np

from .. import digest, gen, ref, work

kc = gen.kc
correct = kc.utils.sdss_ab_correct
RULE = ('Random fluxes and inverse variances (any sign, zeros, one object and catalogues, also of '
        'five) are corrected with default and other offsets and compared with their definition; '
        'objects of the three classes with the correction on are compared in every result with '
        'ones with it off given fluxes corrected beforehand; histories of calls on objects with '
        'the correction on and off run interleaved. Distinct by class, size and configuration.')
ASSUMPTIONS = ['offsets -0.036, 0.012, 0.010, 0.028, 0.040 mag as documented']
MIN_EVENTS = {'corrected': 5000, 'pairs': 100, 'wrong_sizes': 200, 'reconstructions_compared': 100,
              'mc_pairs': 40, 'asinh_pairs': 60}


def utils(rng, mon):
    n = None if rng.random() < 0.3 else int(rng.choice([1, 2, 4, 5, 5, 6, 10, 50]))
    shape = (5,) if n is None else (n, 5)
    mg = np.float32(rng.standard_normal(shape) * 10.**rng.uniform(-12, 3))
    iv = np.float32(10.**rng.uniform(-3, 25) * rng.exponential(1., shape))
    mg = np.where(rng.random(shape) < 0.1, np.float32(0.), mg)
    iv = np.where(rng.random(shape) < 0.2, np.float32(0.), iv)
    mon.note(n=n)
    for _ in range(4):
        fix = None
        if rng.random() < 0.5:
            fix = np.float32(rng.uniform(-0.5, 0.5, 5))
            if rng.random() < 0.2:
                fix = np.float32(np.zeros(5))
        w, wv = ref.ab_correct(mg, iv, *([] if fix is None else [np.float64(fix)]))
        a, b = gen.form(rng, mg), gen.form(rng, iv)
        kw = {} if fix is None else dict(abfix=gen.form(rng, fix))
        before = digest.digest(a, b, kw)
        got = correct(maggies=a, ivar=b, **kw)
        mon.check(isinstance(got, tuple) and len(got) == 2, 'no inverse variances')
        mon.close(got[0], w, 'corrected maggies', rtol=1e-6)
        mon.close(got[1], wv, 'corrected inverse variances', rtol=2e-6)
        alone = correct(maggies=a, **kw)
        mon.close(alone, w, 'corrected maggies without errors', rtol=1e-6)
        sn = np.float64(mg) * np.sqrt(np.float64(iv))
        mon.close(np.float64(got[0]) * np.sqrt(np.float64(got[1])), sn, 'signal-to-noise',
                  rtol=4e-6)
        mon.check(digest.digest(a, b, kw) == before, 'correction changed its inputs')
        mon.event('corrected', 2 * mg.size)
        mon.key(n, None if fix is None else round(float(fix[0]), 4))
    # in the classes
    for cls, bands in (('KcorrectSDSS', 5), ('KcorrectGST', 10)):
        obj = getattr(kc.kcorrect, cls)
        sh = (bands,) if n is None else (n, bands)
        M = np.float32(rng.standard_normal(sh) * 1e-9)
        V = np.float32(rng.exponential(1e18, sh))
        k = obj.__new__(obj)
        c = dict(cls=cls, abcorrect=True)
        wm, wv = gen.to_ab_ref(c, M, V)
        M0, V0 = M.copy(), V.copy()
        g, gv = k.to_ab(maggies=M, ivar=V)
        mon.close(g, wm, cls + '.to_ab', rtol=1e-6)
        mon.close(gv, wv, cls + '.to_ab ivar', rtol=2e-6)
        mon.close(k.to_ab(maggies=M), wm, cls + '.to_ab without errors', rtol=1e-6)
        mon.same(M, M0, cls + '.to_ab changed its input')
        mon.same(V, V0, cls + '.to_ab changed its input')
        mon.event('corrected', 2 * M.size)


def sizes(rng, mon):
    """Anything but five bands is rejected."""
    for _ in range(6):
        n = int(rng.choice([1, 2, 3, 4, 6, 7, 10]))
        shape = [(n,), (int(rng.integers(1, 9)), n), (5, n), (0,), ()][int(rng.integers(5))]
        if n == 5:
            continue
        mg = np.float32(rng.standard_normal(shape))
        mon.key(shape)
        mon.raises((ValueError, TypeError, IndexError), 'maggies of shape {}'.format(shape),
                   correct, maggies=mg)
        mon.raises((ValueError, TypeError, IndexError), 'maggies of shape {}'.format(shape),
                   correct, maggies=mg, ivar=np.abs(mg))
        mon.event('wrong_sizes', 2)
        ok = np.float32(rng.standard_normal((3, 5)))
        bad = [(5,), (1, 5), (3, 1), (5, 3), (3, 4), (15,), (4, 5), ()][int(rng.integers(8))]
        mon.raises((ValueError, TypeError, IndexError), 'ivar of shape {} for {}'.format(
            bad, ok.shape), correct, maggies=ok, ivar=np.ones(bad, dtype=np.float32))
        m = int(rng.choice([0, 1, 2, 3, 4, 6]))
        mon.raises((ValueError, TypeError, IndexError), '{} offsets'.format(m), correct,
                   maggies=ok, abfix=np.zeros(m, dtype=np.float32))
        mon.event('wrong_sizes', 2)
    # and it works after that
    ok = np.float32(rng.standard_normal((3, 5)))
    mon.close(correct(maggies=ok), ref.ab_correct(ok), 'after rejections', rtol=1e-6)


def pairs(rng, mon):
    """On, against off with fluxes corrected beforehand."""
    t = gen.template(rng)
    cls = str(rng.choice(['KcorrectSDSS', 'KcorrectGST', 'KcorrectSDSS', 'KcorrectGST', 'Kcorrect']))
    c, m, on = gen.make(rng, cls=cls, abcorrect=True, tmpl=t, nz=int(rng.choice([3, 8, 20])))
    off = gen.build(dict(c, abcorrect=False))
    mon.note(**gen.describe(c))
    mon.key(cls, c['_mode'], m.nsed, len(m.responses), m.nz, [float(x) for x in m.range])
    for n in (None, 1, int(rng.choice([2, 5, 10, 7]))):
        z, mg, iv = work.catalogue(rng, m, n)
        if n is not None and rng.random() < 0.5:
            mg, iv = mg.copy(), iv.copy()
        ab, abiv = gen.to_ab_ref(c, mg, iv)
        ab, abiv = np.float32(ab), np.float32(abiv)
        w = gen.weights(rng, m.nsed, 1 if n is None else n)
        if n is None:
            w = w[0]
        b, bz = work.shift(rng, m), work.shift(rng, m, z)
        d = work.distance(rng, None if n is None else n) if rng.random() < 0.5 else None
        f = lambda x: gen.form(rng, x)      # noqa: E731
        r1 = work.results(on, m, z, mg, iv, w, b, bz, d, f=f, order=rng)
        r0 = work.results(off, m, z, ab, abiv, w, b, bz, d, order=rng)
        if n is None:
            z1 = np.atleast_1d(z)
            al = work.allowances(m, z1, mg[None], iv[None], w[None], b, bz,
                                 None if d is None else np.atleast_1d(d))
            r1 = work.stack([r1])
            r0 = work.stack([r0])
            work.agree(mon, m, r1, r0, al, z1, ab[None], abiv[None],
                       'correction on is not correcting beforehand')
        else:
            al = work.allowances(m, z, mg, iv, w, b, bz, d)
            work.agree(mon, m, r1, r0, al, z, ab, abiv,
                       'correction on is not correcting beforehand')
        # reconstructions know nothing of it
        for name in ('maggies', 'maggies_shift', 'maggies_out'):
            mon.close(r1[name], r0[name], name + ' depend on the correction', rtol=1e-6,
                      atol=1e-7 * np.abs(np.asarray(r0[name])).max() + al[name][0])
            mon.event('reconstructions_compared')
        mon.event('pairs')
        # off: nothing is changed; every class alike
        if cls != 'Kcorrect' and n is not None:
            plain = gen.build(dict(c, cls='Kcorrect', responses=m.responses,
                                   responses_out=m.responses_out, responses_map=m.responses_map,
                                   abcorrect=bool(rng.random() < 0.5)))
            rp = work.results(plain, m, z, ab, abiv, w, b, bz, d)
            work.agree(mon, m, rp, r0, al, z, ab, abiv, 'correction off changes something')
            mon.event('plain')


def asinh(rng, mon):
    """Asinh magnitudes are converted, and then corrected once."""
    c, m, on = gen.make(rng, cls='KcorrectSDSS', abcorrect=True, nz=int(rng.choice([3, 8])))
    off = gen.build(dict(c, abcorrect=False))
    mon.note(**gen.describe(c))
    mon.key('asinh', c['_mode'], m.nsed, m.nz)
    for n in (None, 1, int(rng.choice([2, 5, 9]))):
        z, mg, iv = work.catalogue(rng, m, n)
        s = 10.**rng.uniform(-9, -7) / max(float(np.abs(mg).max()), 1e-30)
        mag = np.float32(ref.asinh_mag(np.float64(mg) * s))
        err = np.float32(10.**rng.uniform(-2, -0.5, mag.shape))
        ext = np.float32(rng.uniform(0., 0.3, mag.shape)) * np.float32(rng.integers(2))
        M, V = kc.utils.sdss_asinh_to_maggies(mag=mag, mag_err=err, extinction=ext)
        ab, abiv = gen.to_ab_ref(c, M, V)
        ab, abiv = np.float32(ab), np.float32(abiv)
        f = lambda x: gen.form(rng, x)      # noqa: E731
        got = on.fit_coeffs_asinh(redshift=f(z), mag=f(mag), mag_err=f(err), extinction=f(ext))
        want = off.fit_coeffs(redshift=z, maggies=ab, ivar=abiv)
        mon.check(np.shape(got) == np.shape(want), 'shape of a fit of asinh magnitudes',
                  got=np.shape(got), want=np.shape(want))
        work.same_fit(mon, m, z, ab, abiv, got, want,
                      'a fit of asinh magnitudes is not that of their corrected maggies')
        got = off.fit_coeffs_asinh(redshift=z, mag=mag, mag_err=err, extinction=ext)
        want = off.fit_coeffs(redshift=z, maggies=np.asarray(M), ivar=np.asarray(V))
        work.same_fit(mon, m, z, M, V, got, want,
                      'a fit of asinh magnitudes without correction is not that of their maggies')
        mon.event('asinh_pairs')


def mc(rng, mon):
    """Monte Carlo: draws are in the system of the input; propagation
    corrects them once."""
    cls = str(rng.choice(['KcorrectSDSS', 'KcorrectGST']))
    c, m, on = gen.make(rng, cls=cls, abcorrect=True, nz=8, zmax=1.)
    off = gen.build(dict(c, abcorrect=False))
    mon.note(**gen.describe(c))
    mon.key(cls, c['_mode'], m.nsed, m.nz)
    can0 = bool(m.inside(0.))
    for n in (None, 1, int(rng.choice([2, 5]))):
        z, mg, iv = work.catalogue(rng, m, n)
        nmc = int(rng.choice([1, 3, 5]))
        co, cm, mm = on.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=nmc)
        # the draws scatter around the input as given
        err = np.where(iv > 0., 1. / np.sqrt(np.where(iv > 0., iv, 1.)), 0.)
        dev = np.abs(np.asarray(mm, dtype=np.float64) - np.float64(mg)[..., None])
        mon.check((dev <= 7.5 * np.float64(err)[..., None] + 1e-6 * np.abs(np.float64(mg))[..., None]
                   ).all(), 'Monte Carlo maggies do not scatter around the input maggies')
        if not can0:
            continue
        b = work.shift(rng, m)
        a1 = on.absmag_mc(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=cm, band_shift=b,
                          reconstruct=True, kcorrect=True)
        for j in range(nmc):
            x = np.asarray(mm)[..., j]
            ab, abiv = gen.to_ab_ref(c, x, iv)
            a0 = off.absmag(redshift=z, maggies=np.float32(ab), ivar=np.float32(abiv),
                            coeffs=np.asarray(cm)[..., j], band_shift=b, reconstruct=True,
                            kcorrect=True)
            sh = (lambda q: np.asarray(q)[None]) if n is None else np.asarray
            al = work.allowances(m, np.atleast_1d(z), sh(x), sh(iv), sh(np.asarray(cm)[..., j]), b)
            for got, want, name in zip(a1, a0, ('absmag', 'absmag_reconstruct', 'absmag_k')):
                tol, dec = al[name]
                g, w = sh(np.asarray(got)[..., j]), sh(want)
                ok = (np.abs(g - w) <= 2. * tol + 1e-5) | ~np.broadcast_to(dec, g.shape) | (g == w)
                mon.check(ok.all(), '{} of draws is not that of corrected draws'.format(name),
                          got=g, want=w)
            mon.event('mc_pairs')


def interleaved(rng, mon):
    """Objects with and without the correction, used in turn; arrays reused."""
    t = gen.template(rng)
    objs = []
    for ab in (True, False, bool(rng.random() < 0.5)):
        cls = str(rng.choice(['KcorrectSDSS', 'KcorrectGST']))
        c, m, k = gen.make(rng, cls=cls, abcorrect=ab, tmpl=t, nz=5, zero=True)
        plain = gen.build(dict(c, cls='Kcorrect', responses=m.responses,
                               responses_out=m.responses_out, responses_map=m.responses_map,
                               abcorrect=False))
        z, mg, iv = work.catalogue(rng, m, int(rng.choice([1, 2, 5])))
        objs.append((c, m, k, plain, z, mg, iv, mg.copy(), iv.copy()))
    mon.key([(o[0]['cls'], o[0]['abcorrect'], o[0]['_mode']) for o in objs])
    mon.note(objects=[gen.describe(o[0]) for o in objs])
    for _ in range(8):
        c, m, k, plain, z, mg, iv, mg0, iv0 = objs[int(rng.integers(len(objs)))]
        ab, abiv = gen.to_ab_ref(c, mg0, iv0)
        w1 = np.asarray(k.fit_coeffs(redshift=z, maggies=mg, ivar=iv))
        w0 = np.asarray(plain.fit_coeffs(redshift=z, maggies=np.float32(ab),
                                         ivar=np.float32(abiv)))
        work.same_fit(mon, m, z, ab, abiv, w1, w0, 'a fit in a sequence')
        a1 = k.absmag(redshift=z, maggies=mg, ivar=iv, coeffs=w0, limit=True, reconstruct=True)
        a0 = plain.absmag(redshift=z, maggies=np.float32(ab), ivar=np.float32(abiv), coeffs=w0,
                          limit=True, reconstruct=True)
        al = work.allowances(m, z, mg0, iv0, w0, 0.)
        for g, w, name in zip(a1, a0, ('absmag', 'absmag_reconstruct', 'absmag_limit')):
            tol, dec = al[name]
            ok = (np.abs(g - w) <= 2. * tol + 1e-5) | ~np.broadcast_to(dec, g.shape) | (g == w)
            mon.check(ok.all(), name + ' in a sequence', got=g, want=w)
        mon.same(mg, mg0, 'the fluxes given were changed')
        mon.same(iv, iv0, 'the inverse variances given were changed')
        mon.event('sequence_steps')


FAMILIES = [
    ('utils', utils, 150, 4000),
    ('sizes', sizes, 30, 400),
    ('pairs', pairs, 50, 900),
    ('asinh', asinh, 30, 400),
    ('mc', mc, 30, 500),
    ('interleaved', interleaved, 30, 500),
]
