"""C25 The memory-saving template mode changes nothing but memory."""
import os

import numpy as np

from .. import digest, gen, ref, work

kc = gen.kc
RULE = ('The same spectra go into objects with and without interpolators (from table and image files, '
        'from arrays, from the shipped set; numbers of spectra from one to beyond several groups, on '
        'and around the group size); their template maggies are compared with each other and with '
        'an independent float64 projection, their fits and predictions with each other. Distinct by '
        'number of spectra, bands, source and grid.')
ASSUMPTIONS = ['template maggies are decided to 1e-5 of the sum of the absolute contributions']
MIN_EVENTS = {'pairs': 60, 'elements': 30000, 'zero_elements': 50, 'large_sets': 5,
              'values_compared': 1500}


def outer(rng, m_lo=2.5e5):
    """A band no template reaches."""
    if rng.random() < 0.5:
        lo = float(rng.uniform(m_lo, 2 * m_lo))
        return gen.user_band(rng, lo=lo, hi=lo * 1.2)
    lo = float(rng.uniform(60., 200.))
    return gen.user_band(rng, lo=lo, hi=lo * 1.5)


def templates(rng, wave, flux, src=None):
    """(with, without interpolators, name of the source)"""
    src = src or str(rng.choice(['table', 'image', 'sed', 'sed8', 'sedfile', 'mixed']))
    out = []
    for interp in (True, False):
        s = src if src != 'mixed' else ('sed' if interp else 'table')
        if s in ('table', 'image'):
            p = gen.scratch('t.fits')
            gen.write_template(np.random.default_rng(5), p, wave, flux, binimage=(s == 'image'))
            t = kc.template.Template(filename=p, interpolate=interp)
            os.remove(p)
        elif s == 'sedfile':
            p = gen.scratch('s.fits')
            kc.template.SED(wave=wave.copy(), flux=flux.copy(), interpolate=False).tofits(p)
            t = kc.template.SED(filename=p, interpolate=interp)
            os.remove(p)
        elif s == 'sed8':
            t = kc.template.SED(wave=np.float64(wave), flux=np.float64(flux), interpolate=interp)
        else:
            f = flux.copy()
            if len(f) == 1 and rng.random() < 0.5:
                f = f[0]
            t = kc.template.SED(wave=wave.copy(), flux=f, interpolate=interp)
        out.append(t)
    return out[0], out[1], src


class _Conf(object):
    pass


def model_of(wave, flux, names, outs, maps, zr, nz):
    p = _Conf()
    p.templates = _Conf()
    p.templates.restframe_wave, p.templates.restframe_flux = wave, flux
    p.responses, p.responses_out, p.responses_map = names, outs, maps
    p.redshift_range, p.nredshift, p.cosmo = zr, nz, None
    return ref.Model(p, gen.band)


def matrices(mon, m, a, b, zs, what):
    """Template maggies of both modes against the reference and each other."""
    for z in zs:
        for out in (False, True):
            if out and not (hasattr(a, 'AmatrixOut') and hasattr(b, 'AmatrixOut')):
                continue
            want, scale = m.A(float(z), out=out)
            tol = ref.REL * scale
            ga = np.asarray((a.AmatrixOut if out else a.Amatrix)(z), dtype=np.float64)
            gb = np.asarray((b.AmatrixOut if out else b.Amatrix)(z), dtype=np.float64)
            mon.close(ga, want, what + ': template maggies with interpolators', rtol=0.,
                      atol=tol + 1e-37, redshift=float(z))
            mon.close(gb, want, what + ': template maggies without interpolators', rtol=0.,
                      atol=tol + 1e-37, redshift=float(z))
            mon.close(gb, ga, what + ': template maggies of the two modes', rtol=0.,
                      atol=2. * tol + 1e-37, redshift=float(z))
            mon.event('elements', int(ga.size))
            nothing = scale == 0.
            mon.check(not ga[nothing].any() and not gb[nothing].any(),
                      what + ': maggies where nothing overlaps', redshift=float(z))
            mon.event('zero_elements', int(nothing.sum()))


def kept(mon, t, what):
    mon.check(t.interp is None and not t.interpolate, what + ' keeps interpolators')
    mon.check(float(t.redshift) == 0., what + ' is not at redshift zero')


def pairs(rng, mon):
    """Two objects of the same spectra, small sets."""
    nsed = int(rng.choice([1, 1, 2, 3, 5, 9]))
    wave, flux = gen.spectra(rng, nsed, int(rng.integers(250, 450)),
                             lyman=bool(rng.random() < 0.3))
    ta, tb, src = templates(rng, wave, flux)
    nin = int(rng.choice([1, 2, 3, 5]))
    names = [str(x) for x in rng.choice(gen.POOL, nin, replace=False)]
    outs = [str(x) for x in rng.choice(gen.POOL, int(rng.choice([1, 2, 4])), replace=False)]
    if rng.random() < 0.5:
        names[int(rng.integers(nin))] = outer(rng)
    if rng.random() < 0.4:
        outs[0] = outer(rng)
    if rng.random() < 0.3:
        # the edge of the spectra lies in the band at some redshifts
        z = float(rng.uniform(0., 1.))
        e = float(wave[-1] if rng.random() < 0.5 else wave[0]) * (1. + z)
        names[0] = gen.user_band(rng, lo=e * 0.85, hi=e * 1.2)
    if rng.random() < 0.3:
        outs = names
    maps = [names[int(rng.integers(nin))] for _ in outs]
    zr = [0., float(rng.choice([0.2, 0.7, 1.5]))]
    nz = int(rng.choice([2, 3, 5, 9]))
    what = '{} spectra from {}'.format(nsed, src)
    mon.note(nsed=nsed, source=src, bands=len(names), out=len(outs), nredshift=nz)
    mon.key(nsed, src, len(names), len(outs), nz)
    kw = dict(responses=names, responses_out=outs, responses_map=maps, redshift_range=zr,
              nredshift=nz)
    if rng.random() < 0.5:
        a = kc.kcorrect.Kcorrect(templates=ta, **kw)
        b = kc.kcorrect.Kcorrect(templates=tb, **kw)
    else:
        b = kc.kcorrect.Kcorrect(templates=tb, **kw)
        a = kc.kcorrect.Kcorrect(templates=ta, **kw)
    kept(mon, tb, what)
    m = model_of(wave, flux, names, outs, maps, zr, nz)
    zs = np.concatenate([m.grid, np.float32(rng.uniform(*(zr + [4])))])
    matrices(mon, m, a, b, np.clip(zs, a.redshift_range[0], a.redshift_range[1]), what)
    m.map = [names.index(x) for x in maps]
    z = gen.redshifts(rng, m, 5)
    mg, iv = gen.photometry(rng, m, z)
    w = gen.weights(rng, nsed, 5)
    bs = work.shift(rng, m)
    for k, other in ((a, b), (b, a)):
        for i in (None, 2):
            zz, mm, vv, ww = (z, mg, iv, w) if i is None else (z[i], mg[i], iv[i], w[i])
            work.same_fit(mon, m, zz, mm, vv, k.fit_coeffs(redshift=zz, maggies=mm, ivar=vv),
                          other.fit_coeffs(redshift=zz, maggies=mm, ivar=vv), what + ': fits')
            for out in (False, True):
                v, e = m.maggies(zz, ww, out=out)
                f = 'reconstruct_out' if out else 'reconstruct'
                g = [getattr(x, f)(redshift=zz, coeffs=ww) for x in (k, other)]
                mon.close(g[0], g[1], '{}: {}'.format(what, f), rtol=2e-6, atol=2 * e + 1e-37)
                mon.event('values_compared', int(np.size(v)))
            kt, ktol, kdec = work._quiet.expect_k(m, np.float64(zz), np.float64(ww), float(bs))
            g = [np.asarray(x.kcorrect(redshift=zz, coeffs=ww, band_shift=bs), dtype=np.float64)
                 for x in (k, other)]
            with np.errstate(all='ignore'):
                ok = (np.abs(g[0] - g[1]) <= 2. * ktol) | ~kdec | (g[0] == g[1]) | \
                    (np.isnan(g[0]) & np.isnan(g[1]))
            mon.check(g[0].shape == g[1].shape and ok.all(), what + ': K-corrections',
                      got=g[0], want=g[1])
            mon.event('values_compared', int(g[0].size))
        if hasattr(ta, 'mremain') and hasattr(tb, 'mremain'):
            d0 = a.derived(redshift=np.maximum(z, np.float32(0.01)), coeffs=w)
            d1 = b.derived(redshift=np.maximum(z, np.float32(0.01)), coeffs=w)
            for n in ('mremain', 'intsfh', 'b50', 'b300', 'b1000', 'metallicity'):
                mon.close(d1[n], d0[n], '{}: {}'.format(what, n), rtol=1e-5, atol=1e-30)
    mon.event('pairs')


GROUP = 1000


def groups(rng, mon, nsed=None):
    """Sets on and around the group size."""
    i = mon.index
    counts = [GROUP, GROUP + 1, GROUP - 1, 2 * GROUP, 2 * GROUP + 1, GROUP + 2, GROUP + 237,
              2 * GROUP - 1, 3 * GROUP, 3 * GROUP + 1, GROUP + GROUP // 2, 2 * GROUP + 2]
    nsed = counts[i % len(counts)] if i < len(counts) else int(rng.integers(900, 3300))
    nw = int(rng.integers(70, 110))
    wave, flux = gen.spectra(rng, 1, nw)
    # many spectra at no cost: combinations of a few, each on its own scale
    base = np.stack([gen.spectra(rng, 1, nw)[1][0] for _ in range(6)])
    c = rng.exponential(1., (nsed, 6)) * 10.**rng.uniform(-1, 1, (nsed, 1))
    flux = np.float32(c.dot(base))
    ta, tb, src = templates(rng, wave, flux)
    names = [str(x) for x in rng.choice(gen.OPTICAL, int(rng.choice([1, 2])), replace=False)]
    if rng.random() < 0.4:
        names.append(outer(rng))
    zr, nz = [0., 0.5], int(rng.choice([2, 3]))
    what = '{} spectra from {}'.format(nsed, src)
    mon.note(nsed=nsed, source=src, bands=len(names), nredshift=nz)
    mon.key(nsed, src, len(names), nz)
    ks = []
    for t in (ta, tb):
        if rng.random() < 0.5:
            k = kc.fitter.Fitter(responses=names, templates=t, redshift_range=zr, nredshift=nz)
            k.set_Amatrix()
        else:
            k = kc.kcorrect.Kcorrect(responses=names, templates=t, redshift_range=zr, nredshift=nz)
        ks.append(k)
    kept(mon, tb, what)
    m = model_of(wave, flux, names, names, names, zr, nz)
    matrices(mon, m, ks[0], ks[1], list(m.grid) + [0.1234], what)
    z = np.float32([0.1, 0.3])
    mg, iv = gen.photometry(rng, m, z)
    work.same_fit(mon, m, z, mg, iv, ks[0].fit_coeffs(redshift=z, maggies=mg, ivar=iv),
                  ks[1].fit_coeffs(redshift=z, maggies=mg, ivar=iv), what + ': fits')
    w = gen.weights(rng, nsed, 2)
    v, e = m.maggies(z, w)
    mon.close(ks[0].reconstruct(redshift=z, coeffs=w), ks[1].reconstruct(redshift=z, coeffs=w),
              what + ': reconstruct', rtol=2e-6, atol=2 * e + 1e-37)
    mon.event('values_compared', int(v.size))
    mon.event('large_sets')
    mon.event('pairs')


def default_set(rng, mon):
    """The shipped templates through the constructor flag."""
    nin = int(rng.choice([1, 3]))
    names = [str(x) for x in rng.choice(gen.OPTICAL, nin, replace=False)]
    names.append(outer(rng, 2e8) if rng.random() < 0.3 else 'galex_FUV')
    kw = dict(responses=names, responses_out=['sdss_r0'], responses_map=[names[0]],
              redshift_range=[0., float(rng.choice([0.3, 1.]))], nredshift=3)
    a = kc.kcorrect.Kcorrect(interpolate_templates=True, **kw)
    b = kc.kcorrect.Kcorrect(interpolate_templates=False, **kw)
    kept(mon, b.templates, 'the shipped set')
    mon.check(a.templates.interp is not None, 'no interpolators kept')
    m = ref.Model(a, gen.band)
    m.cls, m.abcorrect = 'Kcorrect', False
    matrices(mon, m, a, b, list(m.grid) + [float(rng.uniform(0., 0.3))], 'shipped set')
    z = gen.redshifts(rng, m, 4, positive=True)
    mg, iv = gen.photometry(rng, m, z)
    w = gen.weights(rng, m.nsed, 4)
    al = work.allowances(m, z, mg, iv, w)
    work.agree(mon, m, work.results(b, m, z, mg, iv, w), work.results(a, m, z, mg, iv, w), al,
               z, mg, iv, 'shipped set, without interpolators')
    mon.key(names)
    mon.event('pairs')


def later(rng, mon):
    """One template object used in both modes, one after the other."""
    nsed = int(rng.choice([1, 2, 4]))
    wave, flux = gen.spectra(rng, nsed, 300)
    p = gen.scratch('t.fits')
    gen.write_template(rng, p, wave, flux, binimage=bool(rng.random() < 0.5))
    t = kc.template.Template(filename=p, interpolate=False)
    names = [str(x) for x in rng.choice(gen.OPTICAL, 3, replace=False)] + [outer(rng)]
    zr, nz = [0., 0.8], 4
    kw = dict(responses=names, templates=t, redshift_range=zr, nredshift=nz)
    a = kc.kcorrect.Kcorrect(**kw)
    kept(mon, t, 'template')
    s = digest.fitter_state(a)
    t.set_redshift(float(rng.uniform(0., 2.)))
    t.set_interp()
    b = kc.kcorrect.Kcorrect(**kw)
    m = model_of(wave, flux, names, names, names, zr, nz)
    matrices(mon, m, b, a, list(m.grid) + [0.33], 'one template in both modes')
    mon.check(not digest.same(s, digest.fitter_state(a)), 'the first object changed')
    c = kc.kcorrect.Kcorrect(responses=names, templates=kc.template.Template(
        filename=p, interpolate=True), redshift_range=zr, nredshift=nz)
    matrices(mon, m, c, a, list(m.grid) + [0.77], 'two templates')
    mon.key(nsed, names)
    mon.event('pairs')
    os.remove(p)


FAMILIES = [
    ('pairs', pairs, 60, 1200),
    ('groups', groups, 12, 90),
    ('default_set', default_set, 4, 30),
    ('later', later, 12, 150),
]
