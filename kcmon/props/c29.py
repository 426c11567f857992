"""C29 An argument left out means its documented default."""
import os

import astropy.cosmology
import numpy as np

from .. import boot, digest, gen, ref, work
from . import c16

kc = gen.kc
RULE = ('A case builds an object of some class leaving out a random choice of arguments (the rest '
        'kept small), judges it against the documented defaults, and compares everything it '
        'calculates with an object that was given those defaults; or makes calls with arguments '
        'left out, between calls with other values, and compares them with calls that spell the '
        'defaults out; or builds the objects of the documented examples. Distinct by class, '
        'arguments left out and history.')
ASSUMPTIONS = ['the defaults are those in the docstrings (for KcorrectGST and abcorrect, which '
               'has two, the one its notes explain)']
MIN_EVENTS = {'objects': 50, 'left_out': 80, 'default_calls': 600, 'default_templates': 6,
              'default_grids': 5, 'planck': 10, 'full_defaults': 4, 'predictions': 400,
              'list_changes': 60}
RANGE = {'Fitter': ([0., 1.], 2000)}
KARGS = ['responses_out', 'responses_map', 'redshift_range', 'nredshift', 'abcorrect', 'cosmo',
         'templates', 'interpolate_templates']


def v4():
    """The default template set, from the bytes of its file."""
    import astropy.io.fits as fits
    with fits.open(os.path.join(gen.DATADIR, 'templates', 'kcorrect-default-v4.fits')) as h:
        d = dict((n.lower(), np.array(h[n].data)) for n in ('INTSFH', 'MREMAIN', 'METS', 'M300',
                                                            'M1000'))
        if 'M50' in h:
            d['m50'] = np.array(h['M50'].data)
        t = h['FLUX'].data
        d['restframe_wave'] = np.array(t['wave']).ravel()
        d['restframe_flux'] = np.array(t['flux']).reshape(-1, d['restframe_wave'].size)
    return d


def default_of(cls):
    z, n = RANGE.get(cls, ([0., 2.], 4000))
    d = dict(redshift_range=z, nredshift=n, abcorrect=(cls == 'KcorrectSDSS'))
    if cls == 'KcorrectSDSS':
        d['responses'] = list(gen.SDSS)
    elif cls == 'KcorrectGST':
        d['responses'] = list(gen.GST)
    return d


def small(rng, nsed=1):
    """Templates so small that the default grid is no work."""
    w, f = gen.spectra(rng, nsed, int(rng.integers(40, 70)), cool=0.)
    p = gen.scratch('t.fits')
    gen.write_template(rng, p, w, f)
    return kc.template.Template(filename=p, interpolate=bool(rng.random() < 0.5))


def judge(mon, rng, k, cls, kw, given, what):
    """The attributes of an object built with some arguments left out."""
    d = default_of(cls)
    d.update((n, v) for n, v in given.items() if v is not None)
    lo, hi = (float(np.float32(x)) for x in d['redshift_range'])
    mon.check(int(k.nredshift) == int(d['nredshift']), what + ': number of redshifts',
              got=k.nredshift, want=d['nredshift'])
    mon.close(k.redshift_range, [lo, hi], what + ': redshift range', rtol=1e-6)
    g = np.asarray(k.redshifts, dtype=np.float64)
    mon.close(g, lo + (hi - lo) * np.arange(d['nredshift']) / (d['nredshift'] - 1.),
              what + ': redshift grid', rtol=0., atol=1e-6 * max(1., abs(hi)))
    mon.check(g[0] <= lo and g[-1] >= hi, what + ': ends of the redshift grid')
    mon.check(bool(k.abcorrect) == bool(d['abcorrect']), what + ': abcorrect', got=k.abcorrect)
    mon.check([str(x) for x in k.responses] == list(d['responses']), what + ': bands',
              got=list(k.responses))
    if 'nredshift' not in given and 'redshift_range' not in given:
        mon.event('default_grids')
    if cls == 'Fitter':
        return d
    out = list(d.get('responses_out') or d['responses'])
    mp = list(d.get('responses_map') or d['responses'])
    mon.check([str(x) for x in k.responses_out] == out, what + ': output bands',
              got=list(k.responses_out))
    mon.check([str(x) for x in k.responses_map] == mp, what + ': band map',
              got=list(k.responses_map))
    mon.check([int(i) for i in k.imap] == [d['responses'].index(x) for x in mp],
              what + ': index of the band map', got=list(k.imap))
    if d.get('cosmo') is None:
        z = np.float64([1e-4, 0.01, 0.1, float(rng.uniform(0.01, 2.)), 2.])
        mon.close(k.cosmo.distmod(z).value, astropy.cosmology.Planck18.distmod(z).value,
                  what + ': cosmology', rtol=1e-9)
        mon.event('planck')
    else:
        mon.check(k.cosmo is d['cosmo'], what + ': not the cosmology given')
    if d.get('templates') is None:
        t, f = k.templates, v4()
        for n, v in f.items():
            mon.close(getattr(t, n), v, what + ': default templates: ' + n, rtol=1e-7)
        mon.check(t.nsed == 5, what + ': number of default templates', got=t.nsed)
        mon.check(float(t.redshift) == 0., what + ': default templates are not at rest')
        mon.same(t.wave, t.restframe_wave, what + ': default templates are not at rest')
        mon.check(bool(t.interpolate) == bool(d.get('interpolate_templates', True)),
                  what + ': interpolation of the templates', got=t.interpolate)
        mon.event('default_templates')
    else:
        mon.check(k.templates is d['templates'], what + ': not the templates given')
    return d


def compare(mon, rng, k1, k2, cls, what, n=3):
    """Everything two objects calculate is the same."""
    lo, hi = (float(x) for x in k2.redshift_range)
    z = np.float32(np.concatenate([rng.uniform(max(lo, 1e-3), hi, n), [hi]]))
    nsed, nb = int(k2.templates.nsed), len(k2.responses)
    mg = np.float32(10.**rng.uniform(-10, -7, (n + 1, nb)))
    iv = np.float32((rng.uniform(1., 30., mg.shape) / mg)**2)
    w = gen.weights(rng, nsed, n + 1)
    for ops in [('fit_coeffs', dict(maggies=mg, ivar=iv)), ('reconstruct', dict(coeffs=w))] + (
            [] if cls == 'Fitter' else
            [('reconstruct_out', dict(coeffs=w)), ('kcorrect', dict(coeffs=w)),
             ('absmag', dict(maggies=mg, ivar=iv, coeffs=w)), ('derived', dict(coeffs=w))]):
        a = getattr(k1, ops[0])(redshift=z, **ops[1])
        b = getattr(k2, ops[0])(redshift=z, **ops[1])
        if ops[0] == 'derived':
            mon.check(set(a) == set(b), what + ': derived quantities')
            for x in a:
                mon.close(a[x], b[x], '{}: {}'.format(what, x), rtol=2e-5, atol=1e-30)
        elif ops[0] == 'fit_coeffs':
            mon.close(a, b, what + ': fits', rtol=1e-4, atol=1e-5 * np.abs(b).max())
        elif ops[0] in ('kcorrect', 'absmag'):
            mon.close(a, b, '{}: {}'.format(what, ops[0]), rtol=0., atol=3e-5)
        else:
            mon.close(a, b, '{}: {}'.format(what, ops[0]), rtol=2e-5,
                      atol=1e-6 * np.abs(b).max())
        mon.event('predictions', int(z.size))
    for zz in (np.nextafter(np.float32(hi), np.float32(9.)), np.float32(hi + 0.3)):
        for k in (k1, k2):
            c = k.fit_coeffs(redshift=zz, maggies=mg[0], ivar=iv[0])
            mon.check(not np.asarray(c).any(), what + ': fits above its redshift range', z=zz)


def construct(rng, mon):
    """Arguments left out one by one and together."""
    cls = ['Kcorrect', 'KcorrectSDSS', 'KcorrectGST', 'Fitter'][mon.index % 4]
    bands = [str(x) for x in rng.choice(gen.OPTICAL, size=int(rng.integers(1, 5)), replace=False)]
    full = dict(responses=bands, templates=small(rng, int(rng.choice([1, 2]))),
                redshift_range=[0., float(rng.choice([0.3, 0.7, 1.5]))],
                nredshift=int(rng.choice([2, 3, 5])), abcorrect=bool(rng.random() < 0.5))
    names = ['redshift_range', 'nredshift', 'abcorrect']
    if cls in ('KcorrectSDSS', 'KcorrectGST'):
        full['responses'] = default_of(cls)['responses']
        names.append('responses')
    if cls != 'Fitter':
        m = [str(x) for x in rng.choice(full['responses'], size=len(full['responses']))]
        o = [str(x) for x in rng.choice(gen.OPTICAL, size=len(m))]
        full.update(responses_out=o, responses_map=m, cosmo=gen.cosmology(rng))
        names += ['responses_out', 'responses_map', 'cosmo', 'templates']
    left = [n for n in names if rng.random() < (0.45 if n != 'nredshift' else 0.25)]
    if not left:
        left = [str(rng.choice(names))]
    if 'templates' in left and 'nredshift' in left:
        left.remove(str(rng.choice(['templates', 'nredshift'])))
    if 'nredshift' in left and len(full['responses']) > 5:
        left.remove('nredshift')
        left = left or ['redshift_range']
    given = dict((n, v) for n, v in full.items() if n not in left)
    # an argument given as None is one left out, where the documentation has "None" for it
    for n in ('responses_out', 'responses_map', 'cosmo', 'templates'):
        if n in left and rng.random() < 0.3:
            given[n] = None
    C = kc.fitter.Fitter if cls == 'Fitter' else getattr(kc.kcorrect, cls)
    if cls == 'Kcorrect' and given.get('templates') is None and rng.random() < 0.5:
        given['interpolate_templates'] = bool(rng.random() < 0.5)
    what = '{} without {}'.format(cls, ', '.join(sorted(left)))
    k = C(**given)
    if cls == 'Fitter':
        k.set_Amatrix()
    mon.event('objects')
    mon.event('left_out', len(left))
    d = judge(mon, rng, k, cls, full, given, what)
    spelled = dict(d)
    spelled.setdefault('templates', None)
    if spelled['templates'] is None:
        if cls == 'Fitter':
            raise RuntimeError('a fitter needs templates')
        spelled['templates'] = gen.default_template(interpolate=spelled.pop(
            'interpolate_templates', True))
    else:
        # (its own copy)
        p = gen.scratch('u.fits')
        spelled['templates'].tofits(p)
        spelled['templates'] = kc.template.Template(
            filename=p, interpolate=spelled['templates'].interpolate)
    if cls != 'Fitter':
        for n in ('responses_out', 'responses_map'):
            if not spelled.get(n):
                spelled[n] = list(d['responses'])
        if spelled.get('cosmo') is None:
            spelled['cosmo'] = astropy.cosmology.Planck18
    k2 = C(**spelled)
    if cls == 'Fitter':
        k2.set_Amatrix()
    compare(mon, rng, k, k2, cls, what)
    mon.key(cls, left, sorted(n for n in given if given[n] is None), full['responses'])
    mon.note(cls=cls, left_out=left)


def whole(rng, mon):
    """Objects with nothing but what must be given, as documented."""
    i = mon.index % 4
    if i == 0:
        cls, args, k = 'KcorrectSDSS', {}, kc.kcorrect.KcorrectSDSS()
    elif i == 1:
        b = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0'][:int(rng.integers(4, 6))]
        cls, args = 'Kcorrect', dict(responses=b)
        k = kc.kcorrect.Kcorrect(**args)
    elif i == 2:
        cls = 'Kcorrect'
        args = dict(responses=list(gen.SDSS), responses_map=['sdss_r0', 'sdss_i0', 'sdss_z0'],
                    responses_out=['bessell_U', 'bessell_B', 'bessell_V'])
        k = kc.kcorrect.Kcorrect(**args)
    else:
        cls, args, k = 'KcorrectGST', {}, kc.kcorrect.KcorrectGST()
    mon.event('full_defaults')
    mon.key(cls, sorted(args))
    what = '{}({})'.format(cls, ', '.join(sorted(args)))
    judge(mon, rng, k, cls, args, args, what)
    m = ref.Model(k, gen.band)
    m.cls, m.abcorrect = cls, bool(k.abcorrect)
    n = 6
    z = np.float32(np.concatenate([rng.uniform(0.001, 2., n), [0., 2., 0.0826, 0.72]]))
    w = gen.weights(rng, 5, len(z))
    v, e = m.maggies(np.float64(z), np.float64(w))
    got = k.reconstruct(redshift=z, coeffs=w)
    mon.close(got, v, what + ': predictions', rtol=0., atol=e + 1e-6 * np.abs(v))
    v, e = m.maggies(np.float64(z), np.float64(w), out=True)
    mon.close(k.reconstruct_out(redshift=z, coeffs=w), v, what + ': predictions in output bands',
              rtol=0., atol=e + 1e-6 * np.abs(v))
    mon.event('predictions', 2 * int(z.size))
    # the photometry of galaxies made of these templates is explained by them
    z = np.float32(rng.uniform(0.01, 1.9, 5))
    v, _ = m.maggies(np.float64(z), np.float64(gen.weights(rng, 5, 5)))
    ok = v.max(axis=1) > 0.
    z, mg = z[ok], np.float32(v[ok] / v[ok].max(axis=1, keepdims=True) * 1e-8)
    iv = np.full(mg.shape, 1e20, dtype=np.float32)
    c = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)
    fit = k.reconstruct(redshift=z, coeffs=c)
    want = gen.to_ab_ref(dict(cls=cls, abcorrect=m.abcorrect), np.float64(mg))
    want = want[0] if isinstance(want, tuple) else want
    if not m.abcorrect:
        mon.close(fit, want, what + ': photometry of its own templates is not fitted',
                  rtol=1e-3, atol=1e-12)
    # the documented example
    if 'sdss_u0' in k.responses and len(k.responses) in (4, 5):
        nb = len(k.responses)
        mg = [27.26e-9, 73.98e-9, 132.56e-9, 198.52e-9, 238.05e-9][:nb]
        iv = [1.528e+18, 5.23e+18, 2.429e+18, 1.042e+18, 0.1653e+18][:nb]
        c = k.fit_coeffs(redshift=0.0826, maggies=mg, ivar=iv)
        mon.check(np.shape(c) == (5,), what + ': shape of the weights', got=np.shape(c))
        r = k.reconstruct(redshift=0.0826, coeffs=c)
        mon.close(r, mg, what + ': the documented example is not fitted within a few percent',
                  rtol=0.1)
        wave = k.templates.restframe_wave * (1. + 0.0826)
        spec = np.asarray(c).dot(k.templates.restframe_flux) / (1. + 0.0826)
        for name, x in zip(k.responses, r):
            got = kc.response.ResponseDict()[name].project(wave=wave, flux=spec)
            mon.close(got, x, what + ': the documented spectrum has other maggies', rtol=2e-3)
        kk = k.kcorrect(redshift=0.0826, coeffs=c)
        mon.check(np.shape(kk) == (len(k.responses_out),), what + ': shape of K-corrections')
        a = k.absmag(redshift=0.0826, maggies=mg, ivar=iv, coeffs=c)
        d = k.derived(redshift=0.0826, coeffs=c)
        dm = astropy.cosmology.Planck18.distmod(0.0826).value
        want = -2.5 * np.log10(np.float64(gen.to_ab_ref(
            dict(cls=cls, abcorrect=m.abcorrect), np.float64(mg)))[list(k.imap)]) - dm - kk
        mon.close(a, want, what + ': absolute magnitudes of the documented example', rtol=0.,
                  atol=1e-3)
        mon.check(1e8 < d['mremain'] < 1e13, what + ': stellar mass of a galaxy',
                  got=d['mremain'])


def calls(rng, mon):
    """Calls with and without their optional arguments, in a row."""
    c, m, k = gen.make(rng)
    while not m.inside(0.):
        c, m, k = gen.make(rng)
    n = None if rng.random() < 0.3 else max(2, gen.sizes(rng, m, big=0.))
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n or 1)
    w = w[0] if n is None else w
    lead = () if n is None else (n,)
    mc = 2
    wmc = np.repeat(np.asarray(w)[..., None], mc, axis=-1)
    mmc = np.repeat(np.asarray(mg)[..., None], mc, axis=-1)
    opts = {
        'fit_coeffs': (dict(redshift=z, maggies=mg, ivar=iv), dict(mc=0)),
        'reconstruct': (dict(redshift=z, coeffs=w), dict(band_shift=0.)),
        'reconstruct_out': (dict(redshift=z, coeffs=w), dict(band_shift=0.)),
        'kcorrect': (dict(redshift=z, coeffs=w), dict(band_shift=0.)),
        'absmag': (dict(redshift=z, maggies=mg, ivar=iv, coeffs=w),
                   dict(band_shift=0., distance=None, reconstruct=False, limit=False,
                        kcorrect=False)),
        'derived': (dict(redshift=z, coeffs=w), dict(band_shift=0., distance=None)),
        'absmag_mc': (dict(redshift=z, maggies_mc=mmc, ivar=iv, coeffs_mc=wmc),
                      dict(band_shift=0., distance=None, reconstruct=False, kcorrect=False)),
        'derived_mc': (dict(redshift=z, coeffs_mc=wmc), dict(band_shift=0., distance=None)),
    }
    order = []
    for _ in range(24):
        op = str(rng.choice(sorted(opts)))
        must, may = opts[op]
        other = {}
        b = work.shift(rng, m, z if op.startswith('reconstruct') else None)
        for o in may:
            other[o] = (b if o == 'band_shift' else work.distance(rng, n) if o == 'distance'
                        else int(rng.integers(1, 3)) if o == 'mc' else True)
        u = rng.random()
        order.append(op)
        if u < 0.35:
            getattr(k, op)(**dict(must, **other))        # (something else in between)
            continue
        some = dict((o, v) for o, v in may.items() if rng.random() < 0.5)
        got = getattr(k, op)(**dict(must, **some))
        want = getattr(k, op)(**dict(must, **may))
        mon.event('default_calls')
        what = '{} without {}'.format(op, ', '.join(sorted(set(may) - set(some))))
        mon.check(type(got) is type(want), what + ': returns something else',
                  got=type(got).__name__, want=type(want).__name__)
        if isinstance(want, dict):
            mon.check(set(got) == set(want), what + ': other keys')
            for x in want:
                mon.close(got[x], want[x], '{}: {}'.format(what, x), rtol=1e-6)
        else:
            mon.close(got, want, what, rtol=1e-6)
        # exactly one thing is returned
        if op in ('absmag', 'kcorrect', 'reconstruct_out'):
            mon.check(np.shape(got) == lead + (len(m.responses_out),), what + ': shape',
                      got=np.shape(got))
    mon.key(c['cls'], c['_mode'], n, order)


def utilities(rng, mon):
    """The functions and classes besides."""
    u = kc.utils
    n = int(rng.integers(1, 6))
    mg = np.float32(10.**rng.uniform(-11, -6, (n, 5)))
    iv = np.float32((10. / mg)**2)
    done = []
    D = [-0.036, 0.012, 0.010, 0.028, 0.040]
    for _ in range(16):
        op = str(rng.choice(['abfix', 'extinction', 'sed', 'template', 'redshift', 'reload',
                             'listing', 'clobber', 'ext', 'errors', 'fresh']))
        done.append(op)
        if op == 'abfix':
            if rng.random() < 0.5:
                u.sdss_ab_correct(maggies=mg, ivar=iv, abfix=list(rng.uniform(-1, 1, 5)))
            g = u.sdss_ab_correct(maggies=mg, ivar=iv)
            w = u.sdss_ab_correct(maggies=mg, ivar=iv, abfix=D)
            mon.close(g[0], w[0], 'default AB offsets', rtol=1e-6)
            mon.close(g[1], w[1], 'default AB offsets', rtol=1e-6)
            mon.close(g[0], np.float64(mg) * 10.**(-0.4 * np.array(D)), 'default AB offsets',
                      rtol=4e-6)
            one = u.sdss_ab_correct(maggies=mg)
            mon.close(one, w[0], 'AB correction without errors', rtol=1e-6)
        elif op == 'extinction':
            m = np.float32(rng.uniform(14, 25, (n, 5)))
            s = np.float32(rng.uniform(0.01, 0.5, (n, 5)))
            if rng.random() < 0.5:
                u.sdss_asinh_to_maggies(mag=m, mag_err=s, extinction=np.abs(s))
            g = u.sdss_asinh_to_maggies(mag=m, mag_err=s)
            w = u.sdss_asinh_to_maggies(mag=m, mag_err=s, extinction=np.zeros_like(m))
            mon.close(g[0], w[0], 'extinction left out', rtol=1e-6)
            mon.close(g[1], w[1], 'extinction left out', rtol=1e-6)
            mon.close(u.sdss_asinh_to_maggies(mag=m), w[0], 'errors left out', rtol=1e-6)
        elif op in ('sed', 'template'):
            w, f = gen.spectra(rng, 2, 80)
            if op == 'sed':
                s, want = kc.template.SED(wave=w, flux=f), True
            else:
                p = gen.scratch('t.fits')
                gen.write_template(rng, p, w, f)
                s, want = kc.template.Template(filename=p), False
            mon.check(bool(s.interpolate) == want and (s.interp is not None) == want,
                      'interpolation of a new {}'.format(op), got=s.interpolate)
            mon.check(float(s.redshift) == 0., 'redshift of a new ' + op)
            mon.same(s.wave, w, 'wavelengths of a new ' + op)
        elif op == 'redshift':
            w, f = gen.spectra(rng, 2, 80)
            s = kc.template.SED(wave=w, flux=f)
            s.set_redshift(redshift=float(rng.uniform(0.1, 2.)))
            s.set_redshift()
            mon.check(float(s.redshift) == 0., 'redshift left out', got=s.redshift)
            mon.same(s.wave, w, 'redshift left out')
            mon.same(s.flux, f, 'redshift left out')
        elif op == 'reload':
            name, w, r = c16.newfile(rng)
            f = kc.response.ResponseDict()
            f.load_response(name)
            e = f[name]
            had = digest.response_state(e)
            c16.newfile(rng, path=name)
            f.load_response(name)
            mon.check(f[name] is e and not digest.same(had, digest.response_state(f[name])),
                      'a loaded bandpass was reloaded without being asked')
            f.load_response(name, reload=True)
            mon.check(bool(digest.same(had, digest.response_state(f[name]))),
                      'not reloaded when asked')
        elif op == 'listing':
            f = kc.response.ResponseDict()
            had = digest.registry_state()
            got = kc.response.all_responses()
            d = os.path.join(gen.DATADIR, 'responses')
            want = [x[:-4] for x in os.listdir(d) if x.endswith('.dat')]
            mon.check(sorted(got) == sorted(want), 'default listing', missing=sorted(
                set(want) - set(got)), more=sorted(set(got) - set(want)))
            now = digest.registry_state()
            mon.check(set(now) == set(had), 'listing without validity check loaded something')
        elif op == 'clobber':
            p = gen.scratch('x.fits')
            objs = []
            for _ in range(2):
                w, f = gen.spectra(rng, 2, int(rng.integers(50, 90)))
                objs.append(kc.template.SED(wave=w, flux=f, interpolate=False))
            for s in objs:
                s.tofits(p)
                q = kc.template.SED(filename=p)
                mon.same(q.restframe_flux, s.restframe_flux, 'saved over another file')
            bands = [kc.response.Response(wave=np.sort(w), response=np.ones(len(w)))]
            w2 = np.linspace(4000., 5000., 30)
            bands.append(kc.response.Response(wave=w2, response=np.exp(-((w2 - 4500) / 100)**2)))
            for b in bands:
                b.tofits(p)
                q = kc.response.Response()
                q.fromfits(p)
                mon.close(q.wave, b.wave, 'bandpass saved over another file', rtol=1e-6)
                mon.close(q.response, b.response, 'bandpass saved over another file', rtol=1e-6,
                          atol=1e-30)
        elif op == 'ext':
            w, f = gen.spectra(rng, 2, 80)
            s = kc.template.SED(wave=w, flux=f, interpolate=False)
            p, q = gen.scratch('x.fits'), gen.scratch('y.fits')
            s.tofits(p)
            s.tofits(q, ext='FLUX', clobber=True)
            for a in (p, q):
                for kw in ({}, dict(ext='FLUX')):
                    t = kc.template.SED(filename=a, **kw)
                    mon.same(t.restframe_flux, s.restframe_flux, 'default extension')
                    mon.same(t.restframe_wave, s.restframe_wave, 'default extension')
        elif op == 'errors':
            g = u.maggies2flambda(maggies=mg, responses=list(gen.SDSS))
            w = u.maggies2flambda(maggies=mg, ivar=iv, responses=list(gen.SDSS))
            mon.check(len(g) == 2 and len(w) == 3, 'results of the conversion')
            mon.close(g[1], w[1], 'errors left out', rtol=1e-6)
        else:
            r = kc.response.Response()
            for a in ('wave', 'response', 'interp', 'lambda_eff', 'solar_magnitude'):
                mon.check(getattr(r, a) is None, 'an empty bandpass has ' + a,
                          got=getattr(r, a))
            s = kc.template.SED()
            mon.check(s.wave is None and s.flux is None and s.interp is None,
                      'an empty spectrum has something')
            mon.check(s.info == {}, 'an empty spectrum has metadata', got=s.info)
            s.info['x'] = 1
        mon.event('default_calls')
    mon.key(done)


LISTS = ('responses', 'responses_out', 'responses_map')


def lists(rng, mon):
    """Band lists changed in place, of objects and by callers, before new objects are built."""
    live, done = [], []

    def held(k):
        return dict((n, [str(x) for x in getattr(k, n)]) for n in LISTS if hasattr(k, n))

    def stir(x):
        """Change a list in place."""
        how = str(rng.choice(['append', 'pop', 'reverse', 'item', 'clear', 'extend', 'insert',
                              'sort']))
        if how == 'append':
            x.append(str(rng.choice(gen.OPTICAL)))
        elif how == 'pop' and len(x):
            x.pop(int(rng.integers(len(x))))
        elif how == 'reverse':
            x.reverse()
        elif how == 'item' and len(x):
            x[int(rng.integers(len(x)))] = str(rng.choice(gen.OPTICAL))
        elif how == 'clear':
            del x[:]
        elif how == 'extend':
            x.extend([str(y) for y in rng.choice(gen.OPTICAL, size=2)])
        elif how == 'insert':
            x.insert(0, str(rng.choice(gen.OPTICAL)))
        else:
            x.sort()
        return how

    def unmoved(what):
        for k, had in live:
            for n, v in had.items():
                got = [str(x) for x in getattr(k, n)]
                mon.check(got == v, '{} changed the {} of another object'.format(what, n),
                          got=got, want=v)

    for _ in range(9):
        cls = str(rng.choice(['KcorrectSDSS', 'KcorrectSDSS', 'KcorrectGST', 'Kcorrect',
                              'Fitter']))
        bands = [str(x) for x in rng.choice(gen.OPTICAL, size=int(rng.integers(2, 5)),
                                            replace=False)]
        given = dict(templates=small(rng), nredshift=2)
        if rng.random() < 0.4:
            given['redshift_range'] = [0., float(rng.choice([0.3, 0.7]))]
        if cls in ('Kcorrect', 'Fitter') or rng.random() < 0.2:
            given['responses'] = list(default_of(cls).get('responses', bands))
        base = given.get('responses') or default_of(cls)['responses']
        if cls != 'Fitter' and rng.random() < 0.4:
            m = [str(x) for x in rng.choice(base, size=len(base))]
            given['responses_map'] = m
            if rng.random() < 0.6:
                given['responses_out'] = [str(x) for x in rng.choice(gen.OPTICAL, size=len(m))]
        C = kc.fitter.Fitter if cls == 'Fitter' else getattr(kc.kcorrect, cls)
        said = dict((n, list(v) if isinstance(v, list) else v) for n, v in given.items())
        k = C(**given)
        if cls == 'Fitter':
            k.set_Amatrix()
        what = '{} after {}'.format(cls, ', '.join(done[-4:]) or 'nothing')
        for n, v in said.items():
            mon.check(given[n] is v or given[n] == v, what + ': changed the list it was given',
                      arg=n, got=given[n])
        judge(mon, rng, k, cls, dict(responses=said.get('responses')), said, what)
        mon.event('objects')
        unmoved('building a ' + cls)
        live.append((k, held(k)))
        # the caller goes on with the lists
        for n, v in sorted(given.items()):
            if isinstance(v, list) and rng.random() < 0.6:
                if n == 'redshift_range':
                    v[1] = 9.
                    how = 'item'
                else:
                    how = stir(v)
                done.append('{} of the caller of {} {}'.format(n, cls, how))
                unmoved('a caller who changed {}'.format(n))
                mon.close(k.redshift_range, said.get('redshift_range',
                                                     default_of(cls)['redshift_range']),
                          'a caller who changed {}: redshift range'.format(n), rtol=1e-6)
                mon.event('list_changes')
        # somebody changes the lists of an object
        if rng.random() < 0.6:
            i = int(rng.integers(len(live)))
            o, had = live.pop(i)
            n = str(rng.choice(sorted(had)))
            x = getattr(o, n)
            if isinstance(x, list):
                how = stir(x)
                done.append('{}.{} {}'.format(type(o).__name__, n, how))
                for n2 in had:
                    mon.check(n2 == n or [str(y) for y in getattr(o, n2)] == had[n2],
                              '{}: changing {} changed {}'.format(type(o).__name__, n, n2),
                              got=list(getattr(o, n2)), want=had[n2])
                unmoved('changing {} of a {}'.format(n, type(o).__name__))
                mon.event('list_changes')
        # ... or its arrays
        if live and rng.random() < 0.5:
            o, had = live[int(rng.integers(len(live)))]
            n = str(rng.choice([x for x in ('redshift_range', 'redshifts', 'imap')
                                if isinstance(getattr(o, x, None), np.ndarray)]))
            x = getattr(o, n)
            others = [(q, y, np.array(getattr(q, y))) for q, _ in live for y in
                      ('redshift_range', 'redshifts', 'imap')
                      if (q is not o or y != n) and isinstance(getattr(q, y, None), np.ndarray)]
            if x.flags.writeable:
                x[...] = np.roll(x, 1) * 0 + rng.integers(0, 5) if rng.random() < 0.5 else x[::-1]
                done.append('{}.{} changed'.format(type(o).__name__, n))
                for q, y, v in others:
                    mon.check(bool(np.array_equal(getattr(q, y), v)),
                              '{}: changing {} changed {}'.format(type(o).__name__, n, y),
                              same_object=q is o)
                mon.event('list_changes')
    mon.key(done)


def shared(rng, mon):
    """Default templates, cosmology and offsets: changed by users of earlier objects."""
    file = v4()
    done = []

    def new():
        cls = str(rng.choice(['Kcorrect', 'KcorrectSDSS']))
        kw = dict(nredshift=2, redshift_range=[0., 0.2])
        if cls == 'Kcorrect':
            kw['responses'] = ['sdss_g0', 'sdss_r0'][:int(rng.integers(1, 3))]
            if rng.random() < 0.5:
                kw['interpolate_templates'] = bool(rng.random() < 0.5)
        what = '{} after {}'.format(cls, ', '.join(done[-4:]) or 'nothing')
        u = rng.random()
        if u < 0.4:
            other = astropy.cosmology.FlatLambdaCDM(H0=float(rng.uniform(40, 120)), Om0=0.3)
            with astropy.cosmology.default_cosmology.set(other):
                k = getattr(kc.kcorrect, cls)(**kw)
                judge(mon, rng, k, cls, {}, kw, what + ', another default cosmology')
        else:
            k = getattr(kc.kcorrect, cls)(**kw)
        judge(mon, rng, k, cls, {}, kw, what)
        w = np.float32(rng.random((2, 5)))
        d = k.derived(redshift=np.float32([0.05, 0.2]), coeffs=w)
        p = k.reconstruct(redshift=np.float32([0.05, 0.2]), coeffs=w)
        q = ref.Model(k, gen.band)
        v, e = q.maggies(np.float64(np.float32([0.05, 0.2])), np.float64(w))
        mon.close(p, v, what + ': predictions', rtol=0., atol=e + 1e-6 * np.abs(v))
        z = np.float64(np.float32([0.05, 0.2]))
        fac = 10.**(0.4 * astropy.cosmology.Planck18.distmod(z).value)
        mon.close(d['mremain'], np.float64(w).dot(np.float64(file['mremain'])) * fac,
                  what + ': masses', rtol=1e-4)
        mon.event('objects')
        mon.event('predictions', 2)
        return k

    def attributes(k):
        t = k.templates
        n = str(rng.choice(['intsfh', 'mremain', 'mets', 'm300', 'm1000', 'm50',
                            'restframe_flux', 'restframe_wave', 'flux', 'wave', 'redshift',
                            'info', 'cosmo', 'abcorrect', 'nredshift']))
        if n == 'redshift':
            t.set_redshift(redshift=float(rng.uniform(0.1, 2.)))
        elif n == 'info':
            t.info.clear()
        elif n == 'cosmo':
            k.cosmo = astropy.cosmology.WMAP5
        elif n == 'abcorrect':
            k.abcorrect = not k.abcorrect
        elif n == 'nredshift':
            k.nredshift = 7
        else:
            x = getattr(t, n)
            if rng.random() < 0.5 and x.flags.writeable:
                x *= x.dtype.type(1.7)
            else:
                setattr(t, n, x * x.dtype.type(0.3))
        return n

    ks = [new()]
    for _ in range(5):
        k = ks[int(rng.integers(len(ks)))]
        had = [digest.fitter_state(q) for q in ks if q is not k]
        done.append(attributes(k) + ' changed')
        mon.event('list_changes')
        for q, h in zip([q for q in ks if q is not k], had):
            bad = digest.same(h, digest.fitter_state(q))
            mon.check(not bad, '{}: shows in another object: {}'.format(done[-1],
                                                                       ', '.join(bad)))
        ks.append(new())
    mon.key(done)


FAMILIES = [
    ('whole', whole, 4, 16),
    ('construct', construct, 56, 500),
    ('calls', calls, 40, 500),
    ('utilities', utilities, 40, 400),
    ('lists', lists, 24, 300),
    ('shared', shared, 8, 120),
]
