"""What one process computes of a scenario, with the package alone (C32, C33).

    python child.py SCENARIO.json OUT.npz

The scenario says what the process does before and around the work.  Imports
nothing of kcmon, so that interpreter options meet the package only.
"""
import json
import os
import sys


def imports(how):
    """The package, imported in one of the ways a user may."""
    if how == 1:
        import kcorrect
    elif how == 2:
        from kcorrect.kcorrect import Kcorrect     # noqa: F401
    elif how == 3:
        import kcorrect.utils
    elif how == 4:
        import kcorrect.template
        import kcorrect.response
    elif how == 5:
        from kcorrect import utils, fitter         # noqa: F401
    elif how == 6:
        import kcorrect.response
    elif how == 7:
        import importlib
        for n in ('fitter', 'template', 'utils', 'kcorrect', 'response'):
            importlib.import_module('kcorrect.' + n)
    import kcorrect.kcorrect
    return kcorrect


def environment(e):
    """Settings of the process, made by its user."""
    import numpy as np
    if e.get('printoptions'):
        np.set_printoptions(precision=1, threshold=3, suppress=True, floatmode='fixed')
    if e.get('seterr'):
        np.seterr(**e['seterr'])
    if e.get('cosmology'):
        import astropy.cosmology
        astropy.cosmology.default_cosmology.set(astropy.cosmology.WMAP5)
    if e.get('units'):
        import astropy.units
        astropy.units.set_enabled_equivalencies(astropy.units.spectral())
    if e.get('style'):
        import matplotlib
        matplotlib.use('Agg')
        matplotlib.rcParams['axes.linewidth'] = 3.
    if e.get('locale'):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    if e.get('memmap') is not None:
        import astropy.io.fits
        astropy.io.fits.conf.use_memmap = bool(e['memmap'])
    if e.get('fitsconf'):
        import astropy.io.fits
        astropy.io.fits.conf.lazy_load_hdus = False
    if e.get('draws'):
        np.random.seed(e['draws'])
        np.random.normal(size=17)
    if e.get('recursion'):
        sys.setrecursionlimit(int(e['recursion']))
    if e.get('gcoff'):
        import gc
        gc.disable()
        gc.set_threshold(1)
    if e.get('files'):
        import resource
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (int(e['files']), hard))


def build(kc, s):
    import astropy.cosmology
    kw = dict(templates=kc.template.Template(filename=s['templates'],
                                             interpolate=bool(s['interpolate'])),
              redshift_range=list(s['redshift_range']), nredshift=int(s['nredshift']),
              abcorrect=bool(s['abcorrect']))
    for n in ('responses', 'responses_out', 'responses_map'):
        if s.get(n) is not None:
            kw[n] = list(s[n])
    if s.get('cosmo') is not None:
        kw['cosmo'] = astropy.cosmology.FlatLambdaCDM(H0=s['cosmo'][0], Om0=s['cosmo'][1])
    return getattr(kc.kcorrect, s['cls'])(**kw)


def results(k, a, inside0=True):
    """The results a user takes from an object."""
    z, mg, iv, w, b, bz = [a[n] for n in ('z', 'mg', 'iv', 'w', 'b', 'bz')]
    b, bz = float(b), float(bz)
    d = a.get('d')
    o = {}
    o['coeffs'] = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)
    o['maggies'] = k.reconstruct(redshift=z, coeffs=w)
    o['maggies_shift'] = k.reconstruct(redshift=z, coeffs=w, band_shift=bz)
    o['maggies_out'] = k.reconstruct_out(redshift=z, coeffs=w, band_shift=bz)
    if inside0:
        o['kcorrect'] = k.kcorrect(redshift=z, coeffs=w, band_shift=b)
        r = k.absmag(redshift=z, maggies=mg, ivar=iv, coeffs=w, band_shift=b, distance=d,
                     reconstruct=True, limit=True, kcorrect=True)
        o['absmag'], o['absmag_reconstruct'], o['absmag_limit'], o['absmag_k'] = r
        r = k.derived(redshift=z, coeffs=w, band_shift=b, distance=d)
        for n in ('mremain', 'intsfh', 'b50', 'b300', 'b1000', 'metallicity', 'mtol'):
            o[n] = r[n]
    return o


def more(kc, k, s, a):
    """Everything else; name -> array of numbers or of strings."""
    import numpy as np
    o = {}
    f = kc.response.ResponseDict()
    for n in s['bands']:
        f.load_response(n)
        r = f[n]
        o['band ' + n] = np.array([r.lambda_eff, r.fwhm, r.fwhm_low, r.fwhm_high,
                                   r.solar_magnitude,
                                   np.nan if getattr(r, 'vega2ab', None) is None else r.vega2ab,
                                   np.sum(r.wave), np.sum(r.response)], dtype=np.float64)
    o['names'] = np.array(sorted(kc.response.all_responses()))
    t = kc.template.Template(filename=s['templates'], interpolate=bool(s['interpolate']))
    t.set_redshift(0.25)
    o['redshifted'] = np.array([np.sum(t.wave, dtype=np.float64),
                                np.sum(t.flux, dtype=np.float64)])
    g = kc.template.SED(wave=t.restframe_wave, flux=t.restframe_flux)
    o['projected'] = np.array([f[n].project(sed=g) for n in s['bands'][:3]])
    if t.interpolate:
        o['projected templates'] = np.array([f[n].project(sed=t) for n in s['bands'][:3]])
    u = kc.utils
    fl, fv = a['flux5'], a['ivar5']
    o['floor'] = np.array(u.error_floor(floor=[0.05, 0.02, 0.02, 0.02, 0.03], maggies=fl,
                                        ivar=fv))
    o['ab'] = np.array(u.sdss_ab_correct(maggies=fl, ivar=fv))
    mag = np.float32(22.5 - 2.5 * np.log10(np.abs(fl) * 1e9 + 1e-3))
    r = u.sdss_asinh_to_maggies(mag=mag, mag_err=np.float32(np.full(fl.shape, 0.1)))
    o['asinh'] = np.array([np.asarray(x) for x in r])
    o['flambda'] = np.array(u.maggies2flambda(maggies=fl[0], responses=list(s['sdss'])))
    if s.get('basel'):
        info, w, fx = u.read_basel(filename=s['basel'])
        o['basel'] = np.array([np.sum(w, dtype=np.float64), np.sum(fx, dtype=np.float64)])
    if s.get('default'):
        t = kc.template.Template(filename=s['default'])
        o['default'] = np.array([np.sum(t.restframe_flux, dtype=np.float64), t.nsed, t.nwave])
        q = kc.kcorrect.KcorrectSDSS(nredshift=3, redshift_range=[0., 0.2])
        o['default maggies'] = np.asarray(q.reconstruct(redshift=np.float32(0.1), coeffs=np.ones(
            q.templates.nsed, dtype=np.float32)))
    # Monte Carlo, from a seed
    np.random.seed(1234)
    c, cm, mm = k.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)
    o['mc maggies'] = np.asarray(mm)
    return o


def rejected(kc, k, s, a):
    """Calls which can not be right: which of them fail."""
    import numpy as np
    z, mg, iv, w = a['z'], a['mg'], a['iv'], a['w']
    one = np.ones
    r = kc.response.Response(wave=np.linspace(4000., 5000., 50),
                             response=np.exp(-(np.linspace(-3., 3., 50))**2))
    calls = [
        ('flux of one band short', lambda: k.fit_coeffs(redshift=z, maggies=mg[:, :-1],
                                                        ivar=iv[:, :-1])),
        ('error of other shape', lambda: k.fit_coeffs(redshift=z, maggies=mg, ivar=iv[:, :-1])),
        ('redshifts of another number', lambda: k.fit_coeffs(redshift=z[:-1], maggies=mg,
                                                             ivar=iv)),
        ('weights of one too few', lambda: k.reconstruct(redshift=z, coeffs=w[:, :-1])),
        ('redshift outside', lambda: k.reconstruct(redshift=z + np.float32(50.), coeffs=w)),
        ('weights of another number', lambda: k.kcorrect(redshift=z, coeffs=w[:-1])),
        ('no such band', lambda: kc.response.ResponseDict().load_response('no_such_band')),
        ('no such file', lambda: kc.template.Template(filename='/nonexistent/x.fits')),
        ('other file', lambda: kc.kcorrect.Kcorrect(filename=s['templates'])),
        ('nothing to project', lambda: r.project()),
        ('spectrum of two lengths', lambda: kc.template.SED(wave=one(5), flux=one((2, 6)))),
        ('response of two lengths', lambda: kc.response.Response(wave=np.linspace(4e3, 5e3, 9),
                                                                 response=one(7))),
        ('fluxes for more bands', lambda: kc.utils.maggies2flambda(
            maggies=one(3, dtype=np.float32), responses=list(s['sdss']))),
        ('floor of another number', lambda: kc.utils.error_floor(
            floor=[0.1, 0.1], maggies=a['flux5'], ivar=a['ivar5'])),
    ]
    sure = len(calls)
    # every argument of every call in a wrong shape (some may be right)
    wm = np.repeat(w[..., None], 2, -1)
    mm = np.repeat(np.asarray(mg)[..., None], 2, -1)
    good = [
        ('fit_coeffs', dict(redshift=z, maggies=mg, ivar=iv)),
        ('reconstruct', dict(redshift=z, coeffs=w)),
        ('reconstruct_out', dict(redshift=z, coeffs=w)),
        ('kcorrect', dict(redshift=z, coeffs=w)),
        ('absmag', dict(redshift=z, maggies=mg, ivar=iv, coeffs=w)),
        ('derived', dict(redshift=z, coeffs=w)),
        ('absmag_mc', dict(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=wm)),
        ('derived_mc', dict(redshift=z, coeffs_mc=wm))]
    wrong = {
        'short': lambda x: x[:-1], 'long': lambda x: np.concatenate([x, x[:1]]),
        'narrow': lambda x: x[..., :-1], 'wide': lambda x: np.concatenate([x, x[..., :1]], -1),
        'deep': lambda x: x[None], 'deeper': lambda x: x[..., None], 'one': lambda x: x[0],
        'middle': lambda x: x[:, :-1], 'none': lambda x: None}
    for op, must in good:
        for arg in sorted(must):
            for how in sorted(wrong):
                try:
                    bad = wrong[how](np.asarray(must[arg]))
                except IndexError:
                    continue
                calls.append(('{}: {} of {}'.format(op, arg, how), lambda op=op, kw=dict(
                    must, **{arg: bad}): getattr(k, op)(**kw)))
    sd = kc.template.SED(wave=np.linspace(3500., 5500., 40), flux=one((2, 40)))
    calls += [
        ('project a spectrum of two lengths', lambda: r.project(wave=one(5), flux=one((2, 6)))),
        ('project a cube', lambda: r.project(wave=sd.wave, flux=one((2, 2, 40)))),
        ('project onto a plane', lambda: r.project(wave=one((2, 40)), flux=one((2, 40)))),
        ('bands and map of two lengths', lambda: kc.kcorrect.Kcorrect(
            responses=['sdss_r0'], responses_out=['sdss_r0', 'sdss_g0'], nredshift=2,
            redshift_range=[0., 0.1], templates=k.templates)),
        ('map to a band which is not there', lambda: kc.kcorrect.Kcorrect(
            responses=['sdss_r0'], responses_map=['sdss_g0'], nredshift=2,
            redshift_range=[0., 0.1], templates=k.templates)),
        ('asinh magnitudes of other bands', lambda: kc.utils.sdss_asinh_to_maggies(
            mag=one((3, 4)), mag_err=one((3, 4)))),
        ('asinh errors of other shape', lambda: kc.utils.sdss_asinh_to_maggies(
            mag=one((3, 5)), mag_err=one((2, 5)))),
        ('AB offsets of another number', lambda: kc.utils.sdss_ab_correct(
            maggies=one((3, 5)), ivar=one((3, 5)), abfix=[0.1, 0.2])),
        ('a spectrum which is not there', lambda: sd.plot(indx=[7]))]
    out = []
    for n, fn in calls:
        try:
            fn()
            out.append((n, ''))
        except Exception as e:
            out.append((n, type(e).__name__))
    return out, set(x for x, _ in calls[:sure])


def work(kc, s, a):
    import numpy as np
    k = build(kc, s)
    o = dict(('res ' + n, np.asarray(v)) for n, v in results(k, a, s['inside0']).items())
    o.update(('more ' + n, np.asarray(v)) for n, v in more(kc, k, s, a).items())
    j, sure = rejected(kc, k, s, a)
    o['rejected'] = np.array([x[0] for x in j if x[1]])
    o['accepted'] = np.array([x[0] for x in j if not x[1] and x[0] in sure])
    # (again: nothing of the above changed it)
    o['again'] = np.asarray(k.reconstruct(redshift=a['z'], coeffs=a['w']))
    if s.get('save'):
        k.tofits(filename=s['save'])
        q = getattr(kc.kcorrect, s['cls'])
        q = q(filename=s['save']) if s['cls'] == 'Kcorrect' else None
        if q is not None:
            q.cosmo = k.cosmo
            o.update(('saved ' + n, np.asarray(v))
                     for n, v in results(q, a, s['inside0']).items())
    return o


def main():
    with open(sys.argv[1]) as fp:
        s = json.load(fp)
    e = s['env']
    sys.path.insert(0, s['src'])
    sys.dont_write_bytecode = True
    if e.get('gone'):
        os.makedirs(e['gone'])
        os.chdir(e['gone'])
        os.rmdir(e['gone'])
    if e.get('before'):
        environment(e)
    kc = imports(int(e.get('imports', 0)))
    if not os.path.realpath(kc.__file__).startswith(os.path.realpath(s['src']) + os.sep):
        raise SystemExit('imported from ' + kc.__file__)
    if not e.get('before'):
        environment(e)
    import numpy as np
    a = dict(np.load(s['arrays'], allow_pickle=False))
    out = {}
    if e.get('chdir'):
        os.chdir(e['chdir'])
    if e.get('thread'):
        import threading
        t = threading.Thread(target=lambda: out.update(work(kc, s, a)))
        t.start()
        t.join()
        if not out:
            raise SystemExit('kcorrect failed in a thread')
    elif e.get('atexit'):
        # (a process which forks its work)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                np.savez(sys.argv[2], **work(kc, s, a))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        raise SystemExit(0 if st == 0 else 'kcorrect failed in a forked process')
    else:
        out = work(kc, s, a)
    np.savez(sys.argv[2], **out)


if __name__ == '__main__':
    main()
