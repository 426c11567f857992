"""C24 Malformed inputs are rejected, never silently reinterpreted."""
import os

import numpy as np

from .. import digest, gen, work

kc = gen.kc
RULE = ('Every array argument of every public method is given in every wrong shape (objects, bands, '
        'templates or draws too few, too many, one, none; axes missing, added, swapped, flattened; '
        'also with the right total size or broadcastable), as array and as list; constructors get '
        'wrong maps, bands and lengths. A monitor decides that the call raised; the state of the '
        'object and the results of a valid call are compared before and after. Distinct by method, '
        'argument, shape and configuration.')
ASSUMPTIONS = ['any exception of the Exception family is a rejection',
               'an array that has the right shape is valid whatever is meant by it']
MIN_EVENTS = {'rejections': 3000, 'wrong_shapes': 2500, 'valid_between': 300,
              'constructor_rejections': 300, 'state_compared': 300}


def wrong(shape, sizes, rng):
    """Shapes of an argument that should have `shape`; sizes: other numbers in
    use (so that mistaking one axis for another is tried)."""
    out = set()
    nd = len(shape)
    size = int(np.prod(shape))
    for ax in range(nd):
        for n in [1, shape[ax] - 1, shape[ax] + 1, 2 * shape[ax], 0] + list(sizes):
            s = list(shape)
            s[ax] = n
            out.add(tuple(s))
        s = list(shape)
        del s[ax]
        out.add(tuple(s))
    for ax in range(nd + 1):
        s = list(shape)
        s.insert(ax, 1)
        out.add(tuple(s))
        s = list(shape)
        s.insert(ax, 2)
        out.add(tuple(s))
    out.add(tuple(reversed(shape)))
    out.add((size,))
    out.add((1, size))
    out.add((size, 1))
    out.add((1,))
    out.add((1, 1))
    out.add(())
    out.discard(tuple(shape))
    return sorted(s for s in out if all(x >= 0 for x in s))


def fill(rng, shape, scale=1.):
    return np.float32(rng.uniform(0.5, 1.5, shape) * scale)


def methods(rng, m, k, c, n):
    """name -> (method, valid arguments, {argument: shape the argument must have})"""
    z, mg, iv = work.catalogue(rng, m, n)
    nn = () if n is None else (n,)
    nb, ns = len(m.responses), m.nsed
    w = gen.weights(rng, ns, 1 if n is None else n)
    if n is None:
        w = w[0]
    mc = int(rng.choice([2, 3, 4]))
    wm = np.stack([w] * mc, axis=-1)
    mm = np.stack([mg] * mc, axis=-1)
    o = dict(
        fit_coeffs=(k.fit_coeffs, dict(redshift=z, maggies=mg, ivar=iv),
                    dict(maggies=nn + (nb,), ivar=nn + (nb,))),
        fit_mc=(lambda **kw: k.fit_coeffs(mc=mc, **kw), dict(redshift=z, maggies=mg, ivar=iv),
                dict(maggies=nn + (nb,), ivar=nn + (nb,))),
        reconstruct=(k.reconstruct, dict(redshift=z, coeffs=w), dict(coeffs=nn + (ns,))),
        reconstruct_out=(k.reconstruct_out, dict(redshift=z, coeffs=w), dict(coeffs=nn + (ns,))))
    if c['cls'] == 'KcorrectSDSS':
        mag = fill(rng, nn + (5,), 18.)
        o['fit_coeffs_asinh'] = (k.fit_coeffs_asinh,
                                 dict(redshift=z, mag=mag, mag_err=mag * 0.01,
                                      extinction=mag * 0.01),
                                 dict(mag=nn + (5,), mag_err=nn + (5,), extinction=nn + (5,)))
    if m.inside(0.):
        o['kcorrect'] = (k.kcorrect, dict(redshift=z, coeffs=w), dict(coeffs=nn + (ns,)))
        o['absmag'] = (k.absmag, dict(redshift=z, maggies=mg, ivar=iv, coeffs=w),
                       dict(maggies=nn + (nb,), ivar=nn + (nb,), coeffs=nn + (ns,)))
        d = work.distance(rng, n)
        o['absmag_distance'] = (k.absmag, dict(redshift=z, maggies=mg, ivar=iv, coeffs=w,
                                               distance=d), dict(distance=nn))
        o['absmag_all'] = (lambda **kw: k.absmag(reconstruct=True, limit=True, kcorrect=True, **kw),
                           dict(redshift=z, maggies=mg, ivar=iv, coeffs=w),
                           dict(maggies=nn + (nb,), ivar=nn + (nb,), coeffs=nn + (ns,)))
        o['derived'] = (k.derived, dict(redshift=z, coeffs=w), dict(coeffs=nn + (ns,)))
        o['derived_distance'] = (k.derived, dict(redshift=z, coeffs=w, distance=d),
                                 dict(distance=nn))
        o['absmag_mc'] = (k.absmag_mc, dict(redshift=z, maggies_mc=mm, ivar=iv, coeffs_mc=wm),
                          dict(maggies_mc=nn + (nb, mc), ivar=nn + (nb,), coeffs_mc=nn + (ns, mc)))
        o['derived_mc'] = (k.derived_mc, dict(redshift=z, coeffs_mc=wm),
                           dict(coeffs_mc=nn + (ns, mc)))
    return o, z, w, mc


def methods_case(rng, mon):
    c, m, k = gen.make(rng, nz=int(rng.choice([3, 6])), user=0.05,
                       nin=int(rng.choice([1, 2, 3, 4, 5])), nsed=int(rng.choice([1, 2, 3, 4, 5])))
    mon.note(**gen.describe(c))
    nb, ns = len(m.responses), m.nsed
    # numbers of objects that coincide with other numbers
    n = [None, 1, nb, ns, int(rng.choice([2, 3, 4]))][int(rng.integers(5))]
    mon.note(n=n, bands=nb)
    o, z, w, mc = methods(rng, m, k, c, n)
    names = list(o)
    rng.shuffle(names)
    s0 = digest.fitter_state(k)
    r0 = np.array(k.reconstruct(redshift=z, coeffs=w))
    for name in names[:6]:
        fn, args, shapes = o[name]
        fn(**args)                           # valid
        mon.event('valid_between')
        for a, shape in shapes.items():
            ws = wrong(shape, (nb, ns, 1 if n is None else n), rng)
            if a == 'coeffs_mc' and name == 'derived_mc':
                # any number of draws is a number of draws
                ws = [s for s in ws if len(s) != len(shape) or s[:-1] != shape[:-1]]
            if a in ('maggies_mc', 'coeffs_mc'):
                # nothing to draw from: not an array of samples
                ws = [s for s in ws if len(s) >= 1 and s[-1] > 0]
            if mon.tier == 'quick' and len(ws) > 14:
                ws = [ws[i] for i in rng.choice(len(ws), 14, replace=False)]
            for s in ws:
                v = fill(rng, s, float(np.median(np.abs(np.asarray(args[a])))) or 1.)
                if name[-3:] != '_mc' and rng.random() < 0.3:
                    v = v.tolist()
                elif rng.random() < 0.2:
                    v = np.float64(v)
                mon.key(c['cls'], name, a, n, nb, ns, s)
                mon.raises(Exception, '{}: {} of shape {} instead of {} ({} objects, {} bands, '
                           '{} templates)'.format(name, a, s, shape, n, nb, ns),
                           fn, **dict(args, **{a: v}))
                mon.event('wrong_shapes')
        # the redshifts
        if n is None:
            bad = [None, np.float32([z]), np.float32([z, z]), np.float32([[z]]), []]
        else:
            bad = [None, z[:-1], np.append(z, z[:1]), z[0], z[:, None], z[None, :],
                   z.reshape(1, 1, -1), [list(map(float, z))], np.append(z, z)]
        for x in bad:
            mon.raises(Exception, '{}: redshift of shape {} ({} objects)'.format(
                name, None if x is None else np.shape(x), n), fn, **dict(args, redshift=x))
            mon.event('wrong_shapes')
        less = dict(args)
        del less['redshift']
        mon.raises(Exception, name + ': without redshift', fn, **less)
        # (a missing array)
        for a in shapes:
            if a in ('extinction', 'distance'):
                continue
            mon.raises(Exception, '{}: without {}'.format(name, a), fn, **dict(args, **{a: None}))
    bad = digest.same(s0, digest.fitter_state(k))
    mon.check(not bad, 'rejected calls changed ' + ', '.join(bad[:5]))
    mon.event('state_compared', len(s0))
    mon.same(k.reconstruct(redshift=z, coeffs=w), r0, 'result after rejected calls')


def constructors(rng, mon):
    """Wrong constructor arguments."""
    t = gen.template(rng, nsed=int(rng.choice([1, 3])))
    f = gen.RESP.ResponseDict()
    names = [str(x) for x in rng.choice(gen.POOL, 5, replace=False)]
    nothere = ['no_such_band', '', gen.scratch('nowhere'), names[0] + ' ', names[0].upper() + 'x']
    cls = [kc.kcorrect.Kcorrect, kc.kcorrect.KcorrectSDSS, kc.kcorrect.KcorrectGST][
        int(rng.integers(3))]
    if cls is kc.kcorrect.KcorrectSDSS:
        own = gen.SDSS
    elif cls is kc.kcorrect.KcorrectGST:
        own = gen.GST
    else:
        own = names[:int(rng.integers(2, 5))]
    base = dict(templates=t, nredshift=2, redshift_range=[0., 0.3])
    if cls is kc.kcorrect.Kcorrect:
        base['responses'] = own
    k0 = cls(**base)
    s0, t0 = digest.fitter_state(k0), digest.attrs(t, digest.SED)
    for x in nothere:
        f.pop(x, None)
    r0 = digest.registry_state()
    other = [x for x in names + gen.SDSS if x not in own][:3]
    bad = []
    # maps of the wrong length
    for nout in (1, 2, 3):
        outs = [str(x) for x in rng.choice(gen.OPTICAL, nout)]
        for nmap in (0, 1, 2, 3, 4):
            if nmap != nout:
                bad.append(dict(responses_out=outs,
                                responses_map=[own[i % len(own)] for i in range(nmap)]))
    bad.append(dict(responses_map=list(own) + [own[0]]))
    bad.append(dict(responses_map=list(own)[:-1]))
    bad.append(dict(responses_out=list(own) + ['sdss_r0']))
    bad.append(dict(responses_out=list(own)[:-1]))
    # maps naming bands that are not input bands
    for o in other + nothere[:2] + [own[0] + '.dat', own[0].upper()]:
        if o in own:
            continue
        for pos in (0, 1):
            mp = [own[0], own[-1]]
            mp[pos] = o
            bad.append(dict(responses_out=['sdss_g0', 'sdss_r0'], responses_map=mp))
        mp = list(own)
        mp[int(rng.integers(len(mp)))] = o
        bad.append(dict(responses_map=mp))
    # bands that do not exist
    for x in nothere:
        bad.append(dict(responses=list(own[:1]) + [x]))
        bad.append(dict(responses_out=[x], responses_map=[own[0]]))
    for kw in bad:
        mon.raises(Exception, '{} accepted {}'.format(cls.__name__, kw), cls, **dict(base, **kw))
        mon.event('constructor_rejections')
        mon.key(cls.__name__, sorted(kw), len(own))
    mon.check(not digest.same(t0, digest.attrs(t, digest.SED)), 'rejected objects changed their '
              'templates')
    # rejected or not, the templates can be used, as they were
    k1 = cls(**base)
    for k in (k0, k1):
        d = digest.same(s0, digest.fitter_state(k))
        mon.check(not d, 'rejected objects changed ' + ', '.join(d[:5]))
        mon.event('state_compared', len(s0))
    r1 = digest.registry_state()
    for x in r0:
        mon.check(x in r1 and not digest.same(r0[x], r1[x]), 'rejected objects changed bandpass ' + x)
    for x in r1:
        mon.check(os.path.basename(x) not in ('no_such_band', '') and x not in nothere,
                  'a bandpass without a file is in the registry: ' + x)


def spectra(rng, mon):
    """Spectra, bandpasses, projections and utilities."""
    n = int(rng.choice([60, 100, 200]))
    nsed = int(rng.choice([1, 2, 3, 5, n]))
    wave, flux = gen.spectra(rng, nsed, n)
    f = gen.RESP.ResponseDict()
    f.load_response('sdss_r0')
    r = f['sdss_r0']
    before = digest.response_state(r)
    want = np.array(r.project(wave=wave, flux=flux))
    interp = bool(rng.random() < 0.5)
    lens = [1, 2, n - 1, n + 1, 2 * n, n // 2]
    for x in lens:
        w2, f2 = gen.spectra(rng, nsed, max(x, 4))
        w2, f2 = w2[:x], f2[:, :x]
        for a, b in ((wave, f2), (w2, flux), (wave, f2[0]), (w2, flux[0])):
            if a.shape[0] == b.shape[-1]:
                continue
            for ii in (interp, not interp):
                mon.raises(Exception, 'SED of {} wavelengths, fluxes {}, interpolate={}'.format(
                    len(a), b.shape, ii), kc.template.SED, wave=a, flux=b, interpolate=ii)
                mon.event('constructor_rejections')
            mon.raises(Exception, 'project of {} wavelengths, fluxes {}'.format(len(a), b.shape),
                       r.project, wave=a, flux=b)
        mon.key('sed', n, nsed, x)
    if nsed not in (1, n):
        for ii in (True, False):
            mon.raises(Exception, 'SED of transposed fluxes', kc.template.SED, wave=wave,
                       flux=flux.T, interpolate=ii)
        mon.raises(Exception, 'project of transposed fluxes', r.project, wave=wave, flux=flux.T)
    if nsed > 1:
        mon.raises(Exception, 'project of flattened fluxes', r.project, wave=wave,
                   flux=flux.ravel())
    mon.raises(Exception, 'project of 2-D wavelengths', r.project, wave=np.tile(wave, (nsed, 1)),
               flux=flux)
    mon.raises(Exception, 'project of 3-D fluxes', r.project, wave=wave, flux=flux[None])
    mon.raises(Exception, 'project of nothing', r.project)
    mon.raises(Exception, 'project of wavelengths only', r.project, wave=wave)
    mon.raises(Exception, 'project of fluxes only', r.project, flux=flux)
    # bandpasses
    bw, br = gen.curve(rng, n=50)
    for x in (1, len(bw) - 1, len(bw) + 1, 2 * len(bw)):
        b2 = np.resize(br, x)
        for a, b in ((bw, b2), (np.linspace(bw[0], bw[-1], x), br)):
            mon.raises(Exception, 'Response of {} wavelengths and {} values'.format(len(a), len(b)),
                       kc.response.Response, wave=a, response=b)
            mon.event('constructor_rejections')
    # names
    for x in ('no_such_band', gen.scratch('nowhere'), 'sdss_r0.dat', 'SDSS_R0', 'sdss_r0 '):
        for rl in (False, True):
            mon.raises(Exception, 'load_response({!r})'.format(x), f.load_response, x, reload=rl)
        mon.check(x not in f, 'an unknown bandpass is in the registry: ' + x)
        mon.raises(Exception, 'lookup of {!r}'.format(x), lambda: f[x])
        mon.raises(Exception, 'maggies2flambda of {!r}'.format(x), kc.utils.maggies2flambda,
                   maggies=np.ones(2, dtype=np.float32), responses=['sdss_r0', x])
    # utilities
    u = kc.utils
    names = gen.SDSS[:int(rng.integers(2, 5))]
    nb = len(names)
    for nn in ((), (1,), (2,), (nb,)):
        good = fill(rng, nn + (nb,), 1e-9)
        u.maggies2flambda(maggies=good, ivar=good, responses=names)
        for s in wrong(nn + (nb,), (), rng):
            if len(s) in (1, 2) and s[-1] != nb:
                mon.raises(Exception, 'maggies2flambda of {} for {} bands'.format(s, nb),
                           u.maggies2flambda, maggies=fill(rng, s), responses=names)
                mon.raises(Exception, 'error_floor of {} for {} floors'.format(s, nb),
                           u.error_floor, floor=fill(rng, nb, 0.01), maggies=fill(rng, s),
                           ivar=fill(rng, s))
            if len(s) in (1, 2):
                mon.raises(Exception, 'maggies2flambda of {} with ivar {}'.format(nn + (nb,), s),
                           u.maggies2flambda, maggies=good, ivar=fill(rng, s), responses=names)
                mon.raises(Exception, 'error_floor of {} with ivar {}'.format(nn + (nb,), s),
                           u.error_floor, floor=fill(rng, nb, 0.01), maggies=good,
                           ivar=fill(rng, s))
            mon.event('wrong_shapes')
        good = fill(rng, nn + (5,), 20.)
        for s in wrong(nn + (5,), (), rng):
            if s == () or s[-1] != 5:
                mon.raises(Exception, 'sdss_ab_correct of {}'.format(s), u.sdss_ab_correct,
                           maggies=fill(rng, s))
                mon.raises(Exception, 'sdss_asinh_to_maggies of {}'.format(s),
                           u.sdss_asinh_to_maggies, mag=fill(rng, s, 20.))
            mon.raises(Exception, 'sdss_ab_correct of {} with ivar {}'.format(good.shape, s),
                       u.sdss_ab_correct, maggies=good, ivar=fill(rng, s))
            mon.raises(Exception, 'asinh magnitudes {} with errors {}'.format(good.shape, s),
                       u.sdss_asinh_to_maggies, mag=good, mag_err=fill(rng, s, 0.1))
            mon.raises(Exception, 'asinh magnitudes {} with extinctions {}'.format(good.shape, s),
                       u.sdss_asinh_to_maggies, mag=good, mag_err=good * 0.01,
                       extinction=fill(rng, s, 0.1))
            mon.event('wrong_shapes')
    for s in ((5, 1), (5, 3), (5, 6), (5, 7), (5, 10), (5, 5, 6), (5, 5, 2), (5, 5, 10)):
        mon.raises(Exception, 'sdss_ab_correct of {}'.format(s), u.sdss_ab_correct,
                   maggies=fill(rng, s))
        mon.raises(Exception, 'sdss_ab_correct of {}'.format(s), u.sdss_ab_correct,
                   maggies=fill(rng, s), ivar=fill(rng, s))
        mon.raises(Exception, 'asinh magnitudes {}'.format(s), u.sdss_asinh_to_maggies,
                   mag=fill(rng, s, 20.))
    for x in (0, 1, 4, 6, 10):
        mon.raises(Exception, 'sdss_ab_correct with {} offsets'.format(x), u.sdss_ab_correct,
                   maggies=fill(rng, (3, 5)), abfix=fill(rng, x, 0.01))
    d = digest.same(before, digest.response_state(r))
    mon.check(not d, 'rejected calls changed a bandpass: ' + ', '.join(d))
    mon.same(r.project(wave=wave, flux=flux), want, 'projection after rejected calls')
    mon.event('valid_between')


FAMILIES = [
    ('methods', methods_case, 60, 700),
    ('constructors', constructors, 20, 250),
    ('spectra', spectra, 24, 300),
]
