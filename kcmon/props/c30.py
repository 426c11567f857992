"""C30 Long use does not leak memory, files or objects."""
import collections
import gc
import os
import time
import tracemalloc
import warnings

import numpy as np

from .. import digest, gen, work

kc = gen.kc
RULE = ('A case repeats some operations (loading, reloading, failing and saving files; making and '
        'dropping spectra, templates, bandpasses and objects; redshifting; listing; fits and '
        'everything calculated from them; failing calls), each with the same inputs, in windows, '
        'and counts open files, living objects of the package and traced memory after each '
        'window. Distinct by operation and inputs.')
ASSUMPTIONS = ['a leak shows in each of three windows; memory below 2500 bytes per repetition is '
               'not counted']
# bytes per repetition: numpy and the interpreter keep some tens per array
LEAK = 2500


MIN_EVENTS = {'operations': 60, 'repetitions': 1500, 'windows': 200, 'failing_repetitions': 150,
              'runs_with_warnings': 100, 'held_objects': 1000}


def counted():
    """Living objects by type: those of the package, and open FITS files."""
    import astropy.io.fits as fits
    import scipy.interpolate as si
    n = {}
    for o in gc.get_objects():
        t = type(o)
        mod = getattr(t, '__module__', '')
        if (isinstance(mod, str) and mod.startswith('kcorrect')) or t in (fits.HDUList, si.interp1d):
            n[t.__name__] = n.get(t.__name__, 0) + 1
    return n


def elements():
    """Elements of the lists, dictionaries and sets reachable from the package (its modules,
    classes and living objects)."""
    import sys
    todo = []
    for name in list(sys.modules):
        if name == 'kcorrect' or name.startswith('kcorrect.'):
            todo.append(vars(sys.modules[name]))
    for o in gc.get_objects():
        t = type(o)
        mod = getattr(t, '__module__', '')
        if isinstance(mod, str) and mod.startswith('kcorrect') and hasattr(o, '__dict__'):
            todo.append(vars(o))
            todo.append(dict(vars(t)))
    seen, n = set(), 0
    # (what is made here is kept until the end, so that its identity is not used again)
    keep = list(todo)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            n += len(x)
            more = [v for k, v in list(x.items()) if k != '__builtins__']
        else:
            n += len(x)
            more = list(x)
        for v in more:
            if isinstance(v, (dict, list, set, tuple, collections.deque)):
                todo.append(v)
            elif callable(v) and hasattr(v, '__dict__') and not isinstance(v, type):
                todo.append(vars(v))
    del keep
    return n


def fds():
    return len(os.listdir('/proc/self/fd'))


def ops_files(rng):
    """name -> function"""
    w, f = gen.spectra(rng, 3, 600)
    ps, pt, pr, pk, pw = (gen.scratch(x) for x in ('s.fits', 't.fits', 'r.fits', 'k.fits',
                                                   'w.fits'))
    s = kc.template.SED(wave=w, flux=f)
    s.tofits(ps)
    gen.write_template(rng, pt, w, f, binimage=bool(rng.random() < 0.5))
    t = kc.template.Template(filename=pt, interpolate=bool(rng.random() < 0.5))
    b = gen.user_band(rng)
    r = kc.response.Response()
    r.fromdat(b + '.dat')
    r.tofits(pr)
    k = kc.kcorrect.Kcorrect(responses=['sdss_g0', b], templates=t, nredshift=3,
                             redshift_range=[0., 0.3])
    k.tofits(pk)
    bad = gen.scratch('bad.fits')
    with open(bad, 'w') as fp:
        fp.write('no FITS file ' * 300)
    cut = gen.scratch('cut.fits')
    with open(cut, 'wb') as fp:
        fp.write(open(pk, 'rb').read()[:int(rng.integers(3000, os.path.getsize(pk) - 9000))])
    baddat = gen.scratch('bad')
    with open(baddat + '.dat', 'w') as fp:
        fp.write('| lambda | pass |\n| 3000 | x |\n')
    reg = kc.response.ResponseDict()

    def fail(fn, *a, **kw):
        def inner():
            try:
                fn(*a, **kw)
            except Exception:
                pass
        inner.fails = True
        return inner

    d = gen.scratch('dir')
    os.makedirs(d)
    for i in range(3):
        gen.write_dat(os.path.join(d, 'b{}.dat'.format(i)), np.linspace(4000, 5000, 30),
                      np.exp(-((np.linspace(4000, 5000, 30) - 4500.) / 100.)**2))

    def resp():
        q = kc.response.Response()
        q.fromfits(pr)

    def dat():
        q = kc.response.Response()
        q.fromdat(b + '.dat')

    basel = os.path.join(gen.DATADIR, 'basel', 'lcbsun.ori')
    return {
        'load a spectrum': lambda: kc.template.SED(filename=ps),
        'load a template set': lambda: kc.template.Template(filename=pt),
        'load a bandpass file': dat,
        'load a bandpass from FITS': resp,
        'load an object': lambda: kc.kcorrect.Kcorrect(filename=pk),
        'save a spectrum': lambda: s.tofits(pw),
        'save a template set': lambda: t.tofits(pw),
        'save a bandpass': lambda: r.tofits(pw),
        'save an object': lambda: k.tofits(pw),
        'reload a bandpass': lambda: reg.load_response(b, reload=True),
        'ask for a loaded bandpass': lambda: reg.load_response(b),
        'fail to load a spectrum': fail(kc.template.SED, filename=bad),
        'fail to load a template set': fail(kc.template.Template, filename=ps),
        'fail to load an object': fail(kc.kcorrect.Kcorrect, filename=pt),
        'fail to load a cut file': fail(kc.kcorrect.Kcorrect, filename=cut),
        'fail to load a bandpass': fail(reg.load_response, 'no_such_band'),
        'fail to read a bandpass': fail(reg.load_response, baddat),
        'fail to save': fail(k.tofits, '/nonexistent/x.fits'),
        'list a directory': lambda: kc.response.all_responses(response_dir=d),
        'check a directory': lambda: kc.response.all_responses(response_dir=d,
                                                               check_validity=True),
        'read a stellar model': lambda: kc.utils.read_basel(basel),
    }


def ops_compute(rng):
    while True:
        c, m, k = gen.make(rng)
        if m.inside(0.):
            break
    n = int(rng.choice([1, 40, 150]))
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    mc = 2
    wm, mm = np.repeat(w[..., None], mc, -1), np.repeat(np.asarray(mg)[..., None], mc, -1)
    wv, fl = gen.spectra(rng, 4, 700)
    s = kc.template.SED(wave=wv, flux=fl)
    cnt = [0]
    bw = np.linspace(4000., 5000., 60)
    br = np.exp(-((bw - 4500.) / 100.)**2)
    band = kc.response.Response(wave=bw, response=br)
    out = k.responses_out[0]
    spec = np.ones(500, dtype=np.float32)
    sw = np.linspace(3000, 9000, 500)
    f5 = np.float32(rng.random((n, 5)) * 1e-9)

    def shiftit():
        cnt[0] += 1
        s.set_redshift(new(2.))

    def new(top):
        # a redshift never used before
        return top * ((cnt[0] * 0.6180339887498949) % 1.)

    def newfit():
        cnt[0] += 1
        k.fit_coeffs(redshift=znew(), maggies=mg[0], ivar=iv[0])

    def newband():
        cnt[0] += 1
        q = kc.response.Response(wave=bw + cnt[0] * 0.01, response=br)
        q.project(sed=s)

    def newrest():
        cnt[0] += 1
        zn = znew()
        top = (1. + m.range[1]) / (1. + max(zn, 0.)) - 1.
        k.kcorrect(redshift=zn, coeffs=w[0], band_shift=max(0., 0.99 * new(top)))

    def znew():
        lo, hi = m.range
        return np.float64(lo + 0.001 * (hi - lo) + 0.998 * new(hi - lo))
    # (long ones, so that what is kept of them shows)
    lw = np.linspace(3000., 9000., 3000)
    lf = 1. + 0.5 * np.sin(lw / 70.)
    wide = np.linspace(3500., 8000., 900)
    wide = kc.response.Response(wave=wide, response=np.exp(-((wide - 5700.) / 1500.)**2))
    ln = 200

    def newgrid():
        cnt[0] += 1
        wide.project(wave=lw * (1. + new(0.3)), flux=lf)

    def newspec():
        cnt[0] += 1
        q = kc.template.SED(wave=lw + new(0.9), flux=lf * (1. + new(1.)))
        q.set_redshift(new(0.3))
        wide.project(sed=q)

    def newz():
        lo, hi = m.range
        return np.float32(lo + (hi - lo) * (0.001 + 0.998 * np.random.default_rng(
            cnt[0]).random(ln)))

    lg, li, lwt = (np.resize(x, (ln, x.shape[1])) for x in (mg, iv, w))

    def newcat():
        cnt[0] += 1
        k.fit_coeffs(redshift=newz(), maggies=lg * (1. + new(1.)), ivar=li)

    def newmags():
        cnt[0] += 1
        zn = np.maximum(newz(), np.float32(1e-3))
        k.absmag(redshift=zn, maggies=lg * (1. + new(1.)), ivar=li, coeffs=lwt, reconstruct=True,
                 limit=True, kcorrect=True)

    def newderived():
        cnt[0] += 1
        zn = np.maximum(newz(), np.float32(1e-3))
        k.derived(redshift=zn, coeffs=lwt)

    def newfile():
        cnt[0] += 1
        q = gen.scratch('.fits')
        kc.template.SED(wave=lw, flux=lf).tofits(q)
        kc.template.SED(filename=q)
        r = kc.response.Response()
        wide.tofits(q)
        r.fromfits(q)
        os.unlink(q)

    def newrange():
        cnt[0] += 1
        kc.kcorrect.Kcorrect(**dict(conf, responses=list(k.responses),
                                    nredshift=2 if cnt[0] % 3 else 12,
                                    redshift_range=[0., 0.1 + new(0.2)], templates=k.templates))
    for x in (shiftit, newfit, newband, newrest, newgrid, newspec, newcat, newmags, newderived,
              newfile, newrange):
        x.changing = True

    def fail(fn, *a, **kw):
        def inner():
            try:
                fn(*a, **kw)
            except Exception:
                pass
        inner.fails = True
        return inner
    u = kc.utils
    import matplotlib.pyplot as plt

    def plot():
        fig = plt.figure()
        s.plot(wavelim=[3000., 9000.])
        plt.close(fig)
    conf = dict((a, b) for a, b in c.items() if a != 'cls' and a[0] != '_')

    def build():
        kc.kcorrect.Kcorrect(**dict(conf, responses=list(k.responses), nredshift=2,
                                    templates=k.templates))

    def matrices():
        f = kc.fitter.Fitter(responses=list(k.responses), templates=k.templates, nredshift=2,
                             redshift_range=[0., 0.2])
        f.set_Amatrix()
        f.set_Amatrix()
    return {
        'fit': lambda: k.fit_coeffs(redshift=z, maggies=mg, ivar=iv),
        'fit with draws': lambda: k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=mc),
        'reconstruct': lambda: k.reconstruct(redshift=z, coeffs=w),
        'kcorrect': lambda: k.kcorrect(redshift=z, coeffs=w),
        'absmag': lambda: k.absmag(redshift=z, maggies=mg, ivar=iv, coeffs=w, reconstruct=True,
                                   limit=True, kcorrect=True),
        'derived': lambda: k.derived(redshift=z, coeffs=w),
        'absmag_mc': lambda: k.absmag_mc(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=wm),
        'derived_mc': lambda: k.derived_mc(redshift=z, coeffs_mc=wm),
        'out of range': lambda: k.fit_coeffs(redshift=np.full(n, 90.), maggies=mg, ivar=iv),
        'fit without data': lambda: k.fit_coeffs(redshift=z, maggies=mg, ivar=0. * iv),
        'absmag without data': lambda: k.absmag(redshift=z, maggies=mg, ivar=0. * iv,
                                                coeffs=0. * w, reconstruct=True, limit=True),
        'derived without light': lambda: k.derived(redshift=z, coeffs=0. * w),
        'fail to fit': fail(k.fit_coeffs, redshift=z, maggies=mg[:, :-1], ivar=iv),
        'fail to reconstruct': fail(k.reconstruct, redshift=np.full(n, 90.), coeffs=w),
        'redshift': shiftit,
        'fit at new redshifts': newfit,
        'new bandpasses': newband,
        'kcorrect at new redshifts': newrest,
        'project at new redshifts': newgrid,
        'new spectra': newspec,
        'fit catalogues at new redshifts': newcat,
        'absmag at new redshifts': newmags,
        'derived at new redshifts': newderived,
        'new files': newfile,
        'build an object for a new range': newrange,
        'make a spectrum': lambda: kc.template.SED(wave=wv, flux=fl),
        'make a bandpass': lambda: kc.response.Response(wave=bw, response=br),
        'project a spectrum': lambda: band.project(sed=s),
        'project arrays': lambda: band.project(wave=sw, flux=spec),
        'solar magnitude': band.set_solar_magnitude,
        'set interpolator': s.set_interp,
        'flux density': lambda: u.maggies2flambda(maggies=np.float32(np.ones(1)),
                                                  responses=[out]),
        'error floor': lambda: u.error_floor(floor=[0.1] * 5, maggies=f5, ivar=1. / f5**2),
        'asinh': lambda: u.sdss_asinh_to_maggies(mag=f5 + 20., mag_err=f5 + 0.1),
        'AB': lambda: u.sdss_ab_correct(maggies=f5, ivar=f5),
        'plot': plot,
        'build an object': build,
        'build matrices': matrices,
    }


def growing(seen, reps):
    """What grows in every window: list of texts."""
    out = []
    f = [s[0] for s in seen]
    if all(b > a for a, b in zip(f, f[1:])):
        out.append(('open files', f))
    for t in seen[-1][1]:
        c = [s[1].get(t, 0) for s in seen]
        if all(b > a for a, b in zip(c, c[1:])):
            out.append(('objects of type ' + t, c))
    e = [s[3] for s in seen]
    if all(b - a >= reps // 2 for a, b in zip(e, e[1:])):
        out.append(('elements of lists and dictionaries of the package', e))
    m = [s[2] for s in seen]
    if all(b - a > LEAK * reps for a, b in zip(m, m[1:])):
        out.append(('memory', m))
    return out


def unclosed(mon, name, fn):
    """Files left for the garbage collector to close."""
    gc.collect()
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('ignore')
        warnings.simplefilter('always', ResourceWarning)
        fn()
        gc.collect()
    mon.event('runs_with_warnings')
    left = [str(w.message)[:200] for w in seen if issubclass(w.category, ResourceWarning)]
    mon.check(not left, 'a file is not closed: ' + name, warnings=left)


def watch(mon, name, fn, reps):
    """Windows of repetitions; what is left after each."""
    changing = bool(getattr(fn, 'changing', False))
    fails = bool(getattr(fn, 'fails', False))

    def windows(n, reps):
        seen = []
        for _ in range(n):
            for _ in range(reps):
                fn()
            gc.collect()
            gc.collect()
            seen.append((fds(), counted(), tracemalloc.get_traced_memory()[0], elements()))
        mon.event('windows', n)
        mon.event('repetitions', n * reps)
        if fails:
            mon.event('failing_repetitions', n * reps)
        return seen
    if not fails:
        unclosed(mon, name, fn)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        windows(2, reps)                  # (whatever is filled once, is filled)
        tracemalloc.start(1)
        try:
            bad = growing(windows(5, reps)[1:], reps)
            if bad:
                # a store with a limit fills up; a leak goes on
                t0 = time.process_time()
                fn()
                one = max(time.process_time() - t0, 1e-4)
                n = int(min(400, max(300 if changing else 24, 8. / one / 4)))
                mon.event('suspicions')
                windows(1, n)
                first = set(x for x, _ in bad)
                bad = [x for x in growing(windows(4, n // 4), n // 4) if x[0] in first]
        finally:
            tracemalloc.stop()
    mon.event('operations')
    mon.check(not bad, 'kept with every repetition: {}: {}'.format(
        name, ', '.join(x for x, _ in bad)), counts=[c for _, c in bad], reps=reps)


def some(make):
    def family(rng, mon):
        ops = make(rng)
        names = sorted(ops)
        j = mon.index % len(names)
        pick = [names[j]] + [str(x) for x in rng.choice(names, size=2)]
        for n in pick:
            watch(mon, n, ops[n], int(rng.choice([4, 6])) if mon.tier == 'quick' else 12)
        mon.key(pick, mon.index // len(names))
        mon.note(operations=pick)
    return family


def held(rng, mon):
    """Many loaded objects alive at the same time, and their files changed."""
    kind = KINDS[mon.index % len(KINDS)]
    w, f = gen.spectra(rng, int(rng.integers(1, 4)), 300)
    p = gen.scratch('.fits')
    gc.collect()
    if kind in ('sed', 'sed_bin', 'template', 'template_bin'):
        gen.write_template(rng, p, w, f, binimage=kind.endswith('bin'))
        cls = kc.template.SED if kind.startswith('sed') else kc.template.Template
        names = digest.SED

        def load():
            return cls(filename=p, interpolate=bool(rng.random() < 0.5))

        def state(s):
            return digest.attrs(s, names)
    elif kind == 'response':
        r = kc.response.Response()
        r.fromdat(gen.user_band(rng) + '.dat')
        r.tofits(p)
        state = digest.response_state

        def load():
            q = kc.response.Response()
            q.fromfits(p)
            return q
    elif kind == 'dat':
        b = gen.user_band(rng)
        p = b + '.dat'
        state = digest.response_state

        def load():
            q = kc.response.Response()
            q.fromdat(p)
            return q
    else:
        gen.write_template(rng, p, w, f)
        k = kc.kcorrect.Kcorrect(responses=['sdss_g0'], templates=kc.template.Template(filename=p),
                                 nredshift=3, redshift_range=[0., 0.3])
        k.tofits(p)
        state = digest.fitter_state

        def load():
            return kc.kcorrect.Kcorrect(filename=p)
    load()
    gc.collect()
    n0 = fds()
    objs = [load() for _ in range(40)]
    mon.event('held_objects', len(objs))
    mon.event('operations')
    n1 = fds()
    mon.check(n1 < n0 + 20, 'objects hold on to the files they were loaded from: ' + kind,
              before=n0, after=n1, objects=len(objs))
    s0 = [state(o) for o in objs[:3]]
    size = os.path.getsize(p)
    how = str(rng.choice(['zeros', 'ones', 'removed', 'replaced', 'mixed']))
    if how == 'removed':
        os.unlink(p)
    elif how == 'replaced':
        with open(p + '.new', 'wb') as fp:
            fp.write(b'x' * size)
        os.rename(p + '.new', p)
    else:
        # the bytes in the place of the old ones (never less of them)
        with open(p, 'r+b') as fp:
            fp.write({'zeros': bytes(size), 'ones': b'1' * size}.get(
                how, bytes(rng.integers(0, 256, size, dtype=np.uint8))))
    for o, s in zip(objs[:3], s0):
        bad = digest.same(s, state(o))
        mon.check(not bad, 'an object changes with the file it was loaded from: {}: {}'.format(
            kind, ', '.join(bad)), how=how)
        if hasattr(o, 'set_redshift'):
            o.set_redshift(0.3)
            o.set_redshift(0.)
            bad = digest.same(s, state(o))
            mon.check(not bad, 'redshifting reads the file again: {}: {}'.format(
                kind, ', '.join(bad)), how=how)
    mon.key(kind, how, len(w), len(f))
    mon.note(kind=kind, how=how)


KINDS = ['sed', 'sed_bin', 'template', 'template_bin', 'response', 'dat', 'kcorrect']


def mixed(rng, mon):
    """All kinds of operations in a row, as one repetition."""
    ops = dict(ops_files(rng) if rng.random() < 0.5 else ops_compute(rng))
    names = [str(x) for x in rng.permutation(sorted(ops))[:6]]

    def all_of_them():
        for n in names:
            ops[n]()
    all_of_them.fails = any(getattr(ops[n], 'fails', False) for n in names)
    watch(mon, 'in a row: ' + ', '.join(names), all_of_them, 3)
    mon.key(names)


FAMILIES = [
    ('files', some(ops_files), 24, 300),
    ('compute', some(ops_compute), 37, 370),
    ('held', held, 42, 500),
    ('mixed', mixed, 12, 150),
]
