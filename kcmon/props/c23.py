"""C23 Calls have no side effects on inputs or on shared state."""
import os

import numpy as np

from .. import digest, gen, ref, work

kc = gen.kc
RULE = ('Every public method and function is called with arguments in every array form (writeable '
        'and read-only, views, lists), with digests of every argument, of every object, template '
        'and registry entry taken before and after; results are overwritten by the caller and the '
        'call repeated; objects sharing a template run interleaved, with failing calls between, '
        'and are compared with objects that had everything to themselves. Distinct by operation, '
        'forms and configuration.')
ASSUMPTIONS = ['state is what the documented attributes and interpolation functions show',
               'writeable results belong to the caller']
MIN_EVENTS = {'calls': 1200, 'argument_digests': 1200, 'repeats': 1000, 'state_compared': 600,
              'interleaved': 150, 'objects_alone': 40}


def state(objs):
    """Everything observable of objects, templates and registry."""
    s = {}
    for i, k in enumerate(objs):
        for n, v in digest.fitter_state(k).items():
            s['object {}: {}'.format(i, n)] = v
    for n, d in digest.registry_state().items():
        for a, v in d.items():
            s['bandpass {}: {}'.format(os.path.basename(n), a)] = v
    return s


def ops_of(rng, c, m, k, n):
    """[(name, function of forms, {arg: array})]"""
    nn = 1 if n is None else n
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, nn)
    if n is None:
        w = w[0]
    b, bz = work.shift(rng, m), work.shift(rng, m, z)
    d = work.distance(rng, n) if rng.random() < 0.6 else None
    mc = int(rng.choice([1, 2, 4]))
    wmc = np.stack([w * np.float32(rng.uniform(0.5, 2.)) for _ in range(mc)], axis=-1)
    mmc = np.stack([mg * np.float32(rng.uniform(0.5, 2.)) for _ in range(mc)], axis=-1)
    can0 = bool(m.inside(0.))
    o = [('fit', k.fit_coeffs, dict(redshift=z, maggies=mg, ivar=iv), {}),
         ('reconstruct', k.reconstruct, dict(redshift=z, coeffs=w), dict(band_shift=bz)),
         ('reconstruct_out', k.reconstruct_out, dict(redshift=z, coeffs=w), dict(band_shift=bz)),
         ('fit_mc', k.fit_coeffs, dict(redshift=z, maggies=mg, ivar=iv), dict(mc=mc)),
         ('to_ab', k.to_ab, dict(maggies=mg, ivar=iv), {})]
    if c['cls'] == 'KcorrectSDSS':
        mag = np.float32(np.clip(ref.asinh_mag(np.clip(np.float64(mg), -1e-8, 1e-2)), 5., 30.))
        o.append(('fit_asinh', k.fit_coeffs_asinh,
                  dict(redshift=z, mag=mag, mag_err=np.float32(0.05) + 0 * mag,
                       extinction=np.float32(0.1) + 0 * mag), {}))
    if can0:
        dist = {} if d is None else dict(distance=d)
        o += [('kcorrect', k.kcorrect, dict(redshift=z, coeffs=w), dict(band_shift=b)),
              ('absmag', k.absmag, dict(redshift=z, maggies=mg, ivar=iv, coeffs=w, **dist),
               dict(band_shift=b, reconstruct=True, limit=True, kcorrect=True)),
              ('derived', k.derived, dict(redshift=z, coeffs=w, **dist), dict(band_shift=b)),
              ('absmag_mc', k.absmag_mc, dict(redshift=z, maggies_mc=mmc, ivar=iv, coeffs_mc=wmc,
                                              **dist),
               dict(band_shift=b, reconstruct=True, kcorrect=True)),
              ('derived_mc', k.derived_mc, dict(redshift=z, coeffs_mc=wmc, **dist),
               dict(band_shift=b))]
    return o


ARRAYS = ['f4', 'f8', 'bigf4', 'bigf8', 'fortran', 'strided', 'negstride', 'readonly', 'view']


def forms(rng, name, args):
    """The arguments in random guises (Monte Carlo arrays stay arrays)."""
    out = {}
    for a, v in args.items():
        if name in ('absmag_mc', 'derived_mc', 'to_ab'):
            if a in ('maggies_mc', 'coeffs_mc', 'maggies', 'ivar'):
                out[a] = gen.form(rng, v, str(rng.choice(ARRAYS)))
            else:
                out[a] = gen.form(rng, v, str(rng.choice(ARRAYS))) if np.ndim(v) else v
        else:
            out[a] = gen.form(rng, v)
    return out


def freeze(out):
    """A copy of a result."""
    if isinstance(out, tuple):
        return tuple(np.array(x, copy=True) for x in out)
    if isinstance(out, dict):
        return dict((n, np.array(v, copy=True)) for n, v in out.items())
    return np.array(out, copy=True)


def arrays(out):
    if isinstance(out, tuple):
        return list(out)
    if isinstance(out, dict):
        return list(out.values())
    return [out]


def scribble(out):
    for x in arrays(out):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 77.


def same_result(mon, a, b, what, loose=False, **data):
    a, b = freeze(a), freeze(b)
    if isinstance(a, dict):
        mon.check(set(a) == set(b), what + ': other results')
        pairs = [(a[n], b[n]) for n in a]
    elif isinstance(a, tuple):
        mon.check(len(a) == len(b), what + ': other results')
        pairs = list(zip(a, b))
    else:
        pairs = [(a, b)]
    for x, y in pairs:
        mon.check(x.shape == y.shape, what + ': shape', got=x.shape, want=y.shape, **data)
        if loose:
            t = 1e-4 * np.abs(y).max() if y.size else 0.
        else:
            t = 1e-9 * np.abs(y).max() if y.size else 0.
        ok = (np.abs(np.float64(x) - np.float64(y)) <= t + 3e-7 * np.abs(np.float64(y))) | \
            (x == y) | (np.isnan(x) & np.isnan(y))
        mon.check(ok.all(), what, got=x[~ok][:3], want=y[~ok][:3], **data)


def call(mon, name, fn, args, kw):
    """One call, with digests of its arguments."""
    every = dict(args, **kw)
    before = digest.digest(every)
    kinds = dict((a, (type(v).__name__, getattr(v, 'shape', None), str(getattr(v, 'dtype', '')),
                      getattr(getattr(v, 'flags', None), 'writeable', None)))
                 for a, v in every.items())
    out = fn(**every)
    mon.event('calls')
    mon.check(digest.digest(every) == before, name + ' changed its arguments', forms=kinds)
    after = dict((a, (type(v).__name__, getattr(v, 'shape', None), str(getattr(v, 'dtype', '')),
                      getattr(getattr(v, 'flags', None), 'writeable', None)))
                 for a, v in every.items())
    mon.check(after == kinds, name + ' changed its arguments', forms=kinds)
    mon.event('argument_digests')
    return out


def arguments(rng, mon):
    """Every method: arguments, state, results of a repeated call."""
    c, m, k = gen.make(rng, nz=int(rng.choice([3, 8, 20])))
    mon.note(**gen.describe(c))
    for n in (None, 1, int(rng.choice([2, 3, 5, 8]))):
        ops = ops_of(rng, c, m, k, n)
        s0 = state([k])
        for i in rng.permutation(len(ops)):
            name, fn, args, kw = ops[i]
            fa = forms(rng, name, args)
            mon.key(c['cls'], name, n, c['_mode'], m.nsed, len(m.responses))
            seed = int(rng.integers(1 << 31))
            np.random.seed(seed)
            out = call(mon, name, fn, fa, kw)
            for x in arrays(out):
                for a, v in fa.items():
                    if isinstance(v, np.ndarray) and isinstance(x, np.ndarray) and name != 'to_ab':
                        mon.check(not np.shares_memory(x, v), name + ' returns its argument ' + a)
            keep = freeze(out)
            # (to_ab may hand back what it got)
            if name != 'to_ab':
                scribble(out)
            np.random.seed(seed)
            again = call(mon, name, fn, fa, kw)
            same_result(mon, again, keep, name + ' repeated')
            mon.event('repeats')
            if name != 'to_ab':
                scribble(again)
        bad = digest.same(s0, state([k]))
        mon.check(not bad, 'calls changed ' + ', '.join(bad[:5]))
        mon.event('state_compared', len(s0))


def failing(rng, m, k, n):
    """Calls that are rejected."""
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    hi = np.float32(m.range[1] + 0.5)
    return [lambda: k.fit_coeffs(redshift=z, maggies=mg[:, :-1], ivar=iv),
            lambda: k.fit_coeffs(redshift=None, maggies=mg, ivar=iv),
            lambda: k.reconstruct(redshift=z * 0 + hi, coeffs=w),
            lambda: k.reconstruct_out(redshift=z, coeffs=w, band_shift=99.),
            lambda: k.kcorrect(redshift=z, coeffs=w[:, :0]),
            lambda: k.derived(redshift=z, coeffs=w, band_shift=99.),
            lambda: kc.response.ResponseDict().load_response('no_such_band'),
            lambda: kc.kcorrect.Kcorrect(responses=['sdss_r0', 'no_such_band'],
                                         templates=k.templates, nredshift=3)]


def interleaved(rng, mon):
    """Objects sharing a template against objects with their own."""
    wave, flux = gen.spectra(rng, int(rng.integers(1, 5)), int(rng.integers(250, 400)))
    p = gen.scratch('t.fits')
    gen.write_template(rng, p, wave, flux, binimage=bool(rng.random() < 0.5))
    interp = bool(rng.random() < 0.6)

    def fresh():
        return kc.template.Template(filename=p, interpolate=interp)
    shared = fresh()
    confs = []
    for _ in range(int(rng.integers(2, 4))):
        confs.append(gen.conf(rng, tmpl=shared, nz=int(rng.choice([2, 3, 6])), user=0.3))
    plan = []
    for c in confs:
        m = gen.model_conf(c)
        kc.response.ResponseDict().clear()
        alone = gen.build(dict(c, templates=fresh()))
        n = int(rng.choice([1, 2, 5]))
        jobs = []
        for name, fn, args, kw in ops_of(rng, c, m, alone, n):
            if name in ('to_ab',):
                continue
            seed = int(rng.integers(1 << 31))
            np.random.seed(seed)
            jobs.append((name, args, kw, seed, freeze(fn(**dict(args, **kw)))))
        plan.append((c, m, jobs, digest.fitter_state(alone)))
        mon.event('objects_alone')
    mon.note(objects=[gen.describe(c) for c in confs])
    mon.key([(c['cls'], c['_mode'], len(m.responses)) for c, m, _, _ in plan])
    kc.response.ResponseDict().clear()
    tstate = digest.attrs(shared, digest.SED)
    objs = []
    names = dict(fit='fit_coeffs', fit_mc='fit_coeffs', fit_asinh='fit_coeffs_asinh')
    for step in range(16):
        if len(objs) < len(plan) and (not objs or rng.random() < 0.4):
            c, m, jobs, st = plan[len(objs)]
            before = state(objs)
            k = gen.build(c)
            bad = [x for x in digest.same(before, state(objs)) if x in before]
            mon.check(not bad, 'making an object changed ' + ', '.join(bad[:5]))
            objs.append(k)
            bad = digest.same(st, digest.fitter_state(k))
            mon.check(not bad, 'an object differs from one made alone in ' + ', '.join(bad[:5]))
            continue
        i = int(rng.integers(len(objs)))
        c, m, jobs, st = plan[i]
        k = objs[i]
        if rng.random() < 0.25:
            f = failing(rng, m, k, 3)
            try:
                f[int(rng.integers(len(f)))]()
            except Exception:
                mon.event('failing_calls')
        name, args, kw, seed, want = jobs[int(rng.integers(len(jobs)))]
        np.random.seed(seed)
        got = call(mon, name, getattr(k, names.get(name, name)),
                   dict((a, np.array(v, copy=True)) for a, v in args.items()), kw)
        same_result(mon, got, want, name + ' differs from that of an object made alone',
                    step=step)
        scribble(got)
        mon.event('interleaved')
        mon.event('repeats')
    for k, (c, m, jobs, st) in zip(objs, plan):
        bad = digest.same(st, digest.fitter_state(k))
        mon.check(not bad, 'an object differs from one made alone in ' + ', '.join(bad[:5]))
        mon.event('state_compared', len(st))
    bad = digest.same(tstate, digest.attrs(shared, digest.SED))
    mon.check(not bad, 'the shared template changed in ' + ', '.join(bad))


def functions(rng, mon):
    """Utilities, spectra and bandpasses."""
    f = kc.response.ResponseDict()
    names = [str(x) for x in rng.choice(gen.POOL, 3, replace=False)]
    for n in names:
        f.load_response(n)
    s0 = state([])
    n = int(rng.choice([1, 3, 5]))
    mg = np.float32(rng.standard_normal((n, 5)) * 1e-9)
    iv = np.float32(rng.exponential(1e19, (n, 5)))
    mag = np.float32(rng.uniform(14, 26, (n, 5)))
    err = np.float32(rng.uniform(0.01, 0.5, (n, 5)))
    w, fl = gen.spectra(rng, int(rng.choice([1, 3])), 300)
    bw, br = gen.curve(rng, n=40)
    u = kc.utils
    jobs = [('sdss_ab_correct', u.sdss_ab_correct, dict(maggies=mg, ivar=iv)),
            ('sdss_ab_correct', u.sdss_ab_correct,
             dict(maggies=mg, ivar=iv, abfix=np.float32(rng.uniform(-1., 1., 5) *
                                                        10.**rng.uniform(-2., 0.5)))),
            ('error_floor', u.error_floor, dict(floor=np.float32(rng.uniform(0.01, 0.2, 5)),
                                                maggies=mg, ivar=iv)),
            ('sdss_asinh_to_maggies', u.sdss_asinh_to_maggies,
             dict(mag=mag, mag_err=err, extinction=err)),
            ('maggies2flambda', lambda maggies, ivar: u.maggies2flambda(
                maggies=maggies, ivar=ivar, responses=names[:1] * 5), dict(maggies=mg, ivar=iv)),
            ('sed_ab', u.sed_ab, dict(wave=w)),
            ('project', f[names[0]].project, dict(wave=w, flux=fl)),
            ('project', f[names[0]].project, dict(wave=w, flux=fl[0])),
            ('interp', f[names[0]].interp, dict(x=w))]
    for i in rng.permutation(len(jobs)):
        name, fn, args = jobs[i]
        kinds = ARRAYS if name in ('sed_ab', 'maggies2flambda', 'project') else None
        fa = dict((a, gen.form(rng, v, str(rng.choice(kinds)) if kinds else None))
                  for a, v in args.items())
        out = call(mon, name, fn, fa, {})
        keep = freeze(out)
        scribble(out)
        same_result(mon, call(mon, name, fn, fa, {}), keep, name + ' repeated')
        mon.event('repeats')
        mon.key(name, n)
        if kinds is None:
            # every guise of every argument
            for a in args:
                for kind in gen.FORMS:
                    fa = dict((b, gen.form(rng, v, kind if b == a else None))
                              for b, v in args.items())
                    same_result(mon, call(mon, name, fn, fa, {}), keep,
                                name + ' in another form')
    # making, shifting, projecting, writing
    for kind in ('f4', 'f8', 'readonly', 'strided', 'negstride'):
        a, b = gen.form(rng, w, kind), gen.form(rng, fl, kind)
        before = digest.digest(a, b)
        sed = kc.template.SED(wave=a, flux=b, interpolate=bool(rng.random() < 0.5))
        rest = digest.attrs(sed, ('restframe_wave', 'restframe_flux', 'nsed', 'nwave'))
        for z in (0.3, 0., 1.1):
            sed.set_redshift(z)
            f[names[0]].project(wave=sed.wave, flux=sed.flux)
            if sed.interp is not None:
                f[names[0]].project(sed=sed)
                x = digest.attrs(sed, digest.SED)
                f[names[1]].project(sed=sed)
                mon.check(not digest.same(x, digest.attrs(sed, digest.SED)),
                          'projection changed a spectrum')
        mon.check(digest.digest(a, b) == before, 'a spectrum changed the arrays it was made from')
        bad = digest.same(rest, digest.attrs(sed, tuple(rest)))
        mon.check(not bad, 'rest-frame values changed: ' + ', '.join(bad))
        sed.tofits(gen.scratch('s.fits'))
        mon.check(digest.digest(a, b) == before, 'writing a spectrum changed its arrays')
        o = rng.permutation(len(bw))
        a, b = gen.form(rng, np.float32(bw[o]), kind), gen.form(rng, np.float32(br[o]), kind)
        if len(np.unique(a)) == len(a):
            before = digest.digest(a, b)
            r = kc.response.Response(wave=a, response=b)
            r.project(wave=w, flux=fl)
            x = digest.response_state(r)
            r.set_solar_magnitude()
            r.set_vega2ab()
            r.set_lambda_eff()
            r.set_fwhm_limits()
            r.set_interp()
            bad = digest.same(x, digest.response_state(r))
            mon.check(not bad, 'derived again, a bandpass changed in ' + ', '.join(bad))
            mon.check(digest.digest(a, b) == before, 'a bandpass changed the arrays it was made from')
        mon.event('objects_made')
    # plots
    if rng.random() < 0.15:
        import matplotlib.pyplot as plt
        t = gen.template(rng, nsed=2, interpolate=True)
        x = digest.attrs(t, digest.SED)
        t.plot(indx=0)
        t.plot()
        plt.close('all')
        mon.check(not digest.same(x, digest.attrs(t, digest.SED)), 'plotting changed a template')
        mon.event('plots')
    bad = digest.same(s0, state([]))
    mon.check(not bad, 'functions changed ' + ', '.join(bad[:5]))
    mon.event('state_compared', len(s0))


def constructors(rng, mon):
    """Lists and templates given to constructors stay what they were, and
    defaults are the same for every object."""
    t = gen.template(rng)
    t0 = digest.attrs(t, digest.SED)
    names = [str(x) for x in rng.choice(gen.OPTICAL, 3, replace=False)]
    given = dict(responses=list(names), responses_out=list(names[:2]),
                 responses_map=[names[2], names[0]], redshift_range=[0., 0.6])
    keep = dict((n, list(v)) for n, v in given.items())
    ks = []
    for i in range(3):
        ks.append(kc.kcorrect.Kcorrect(templates=t, nredshift=4 + i, **given))
        mon.check(given == keep, 'a constructor changed its lists')
        mon.check(not digest.same(t0, digest.attrs(t, digest.SED)),
                  'a constructor changed its templates')
    # defaults
    for cls, want in (('KcorrectSDSS', gen.SDSS), ('KcorrectGST', gen.GST)):
        a = getattr(kc.kcorrect, cls)(templates=t, nredshift=3)
        sa = digest.fitter_state(a)
        other = getattr(kc.kcorrect, cls)(templates=t, nredshift=4, redshift_range=[0.1, 0.5],
                                          responses_out=['sdss_g0'], responses_map=['sdss_r0'],
                                          abcorrect=not a.abcorrect)
        b = getattr(kc.kcorrect, cls)(templates=t, nredshift=3)
        bad = digest.same(sa, digest.fitter_state(b)) + digest.same(sa, digest.fitter_state(a))
        mon.check(not bad, 'objects made with defaults differ in ' + ', '.join(bad[:5]))
        mon.check(list(a.responses) == want and list(other.responses_out) == ['sdss_g0'],
                  'default bands')
        mon.event('defaults')
    for k in ks:
        p = gen.scratch('k.fits')
        s = digest.fitter_state(k)
        k.tofits(p)
        bad = digest.same(s, digest.fitter_state(k))
        mon.check(not bad, 'saving changed ' + ', '.join(bad[:5]))
        mon.event('saved')
    mon.key(names, len(ks))


FAMILIES = [
    ('arguments', arguments, 50, 1200),
    ('interleaved', interleaved, 30, 700),
    ('functions', functions, 40, 900),
    ('constructors', constructors, 12, 200),
]
