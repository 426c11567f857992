"""C15 Spectrum, template and bandpass files round-trip."""
import hashlib
import os

import numpy as np
from astropy.io import fits

from .. import digest, gen, ref

RULE = ('A case makes random spectra, template sets or bandpasses (one or many, table or image '
        'layout, any order and type of input, redshifted or not), writes them to FITS, reads '
        'them back and compares every value; tables of several rows, refused overwriting and '
        'repeated round trips are included. Distinct by kind, sizes, layout and redshift.')
ASSUMPTIONS = ['spectra are stored as 32-bit floats, as the code documents its spectra',
               'wavelengths of a bandpass are distinct']
MIN_EVENTS = {'roundtrips': 300, 'refused': 40, 'rows_ignored': 20}
T = gen.kc.template
R = gen.RESP


def sha(path):
    return hashlib.sha1(open(path, 'rb').read()).hexdigest()


def check_sed(mon, s, wave, flux, what):
    mon.same(np.asarray(s.restframe_wave), wave, what + ': rest-frame wavelengths')
    mon.same(np.asarray(s.restframe_flux), flux, what + ': rest-frame fluxes')
    mon.check(int(s.nsed) == flux.shape[0] and int(s.nwave) == len(wave), what + ': sizes')
    mon.same(np.asarray(s.wave), wave, what + ': wavelengths')
    mon.same(np.asarray(s.flux), flux, what + ': fluxes')
    mon.check(float(s.redshift) == 0., what + ': redshift')
    if s.interpolate:
        x = np.concatenate([wave[:-1], 0.5 * (wave[1:] + wave[:-1])])
        sp = ref.Spec(wave, flux)
        want = sp.at(x)
        got = np.asarray(s.interp(x)).reshape(want.shape)
        mon.close(got, want, what + ': interpolation', rtol=1e-5,
                  atol=1e-5 * np.abs(flux).max())


def sed(rng, mon):
    nsed = int(rng.choice([1, 1, 2, 3, 7]))
    nwave = int(rng.choice([4, 5, 50, 300]))
    wave, flux = gen.spectra(rng, nsed, nwave)
    if rng.random() < 0.3:
        flux = -flux
    w, f = wave, flux
    if nsed == 1 and rng.random() < 0.5:
        f = flux[0]
    if rng.random() < 0.2:
        w, f = w.astype('>f4'), f.astype('>f4')
    binimage = bool(rng.random() < 0.5)
    if binimage and rng.random() < 0.3:
        # (images keep their precision)
        wave, flux = np.float64(wave) * (1. + 1e-9), np.float64(flux) * (1. + 1e-9)
        w, f = wave, flux if np.ndim(f) == 2 else flux[0]
    s = T.SED(wave=w.copy(), flux=f.copy(), interpolate=bool(rng.random() < 0.5))
    s.binimage = binimage
    ext = 'FLUX' if binimage else str(rng.choice(['FLUX', 'SPEC', 'flux2']))
    z = 0. if rng.random() < 0.4 else float(rng.uniform(0.01, 3.))
    if z:
        s.set_redshift(z)
    mon.note(nsed=nsed, nwave=nwave, binimage=binimage, ext=ext, redshift=z)
    mon.key('sed', nsed, nwave, binimage, ext, bool(z), np.ndim(f))
    p = gen.scratch('.fits')
    if rng.random() < 0.4:
        # over something else
        o = T.SED(wave=wave[:4].copy(), flux=flux[:, :4].copy())
        o.binimage = not binimage
        o.tofits(filename=p)
    state = digest.attrs(s, digest.SED)
    s.tofits(filename=p, ext=ext)
    mon.check(not digest.same(state, digest.attrs(s, digest.SED)), 'writing changed the spectrum')
    r = T.SED(filename=p, ext=ext, interpolate=bool(rng.random() < 0.6))
    mon.check(bool(r.binimage) == binimage, 'layout')
    check_sed(mon, r, wave, flux, 'read back')
    mon.event('roundtrips')
    # the reread one, written again, over its own file too
    for i in range(2):
        if rng.random() < 0.5:
            r.set_redshift(float(rng.uniform(0., 2.)))
        q = p if i else gen.scratch('.fits')
        r.tofits(filename=q, ext=ext)
        r2 = T.SED(filename=q, ext=ext)
        check_sed(mon, r2, wave, flux, 'written again')
        mon.same(np.asarray(r.restframe_flux), flux, 'after its file was replaced')
        mon.event('roundtrips')
        r = r2
    # reading into an object which held something else
    o = T.SED(wave=wave[:5].copy(), flux=flux[:, :5].copy())
    o.set_redshift(0.7)
    o.fromfits(p, ext=ext)
    check_sed(mon, o, wave, flux, 'read into a used object')
    # not without permission
    h = sha(p)
    o = T.SED(wave=wave.copy(), flux=flux * 2)
    o.binimage = bool(rng.random() < 0.5)
    mon.raises(Exception, 'writing over a file without permission',
               o.tofits, filename=p, clobber=False)
    mon.check(sha(p) == h, 'writing without permission altered the file')
    mon.event('refused')
    q = gen.scratch('.fits')
    o.tofits(filename=q, clobber=False)
    if not o.binimage:
        # (tables are single precision)
        wave, flux = np.float32(wave), np.float32(flux)
    check_sed(mon, T.SED(filename=q), wave, flux * np.float32(2), 'written without clobber')


def table(rng, mon):
    """Tables of several rows: only the first is read."""
    nsed = int(rng.choice([1, 2, 4]))
    nwave = int(rng.choice([5, 60]))
    nrow = int(rng.integers(1, 5))
    wave, flux = gen.spectra(rng, nsed, nwave)
    flat = nsed == 1 and rng.random() < 0.6
    t = str(rng.choice(['f4', 'f8']))
    dt = np.dtype([('wave', t, nwave), ('flux', t, nwave if flat else (nsed, nwave))])
    d = np.zeros(nrow, dtype=dt)
    for i in range(nrow):
        d['wave'][i] = wave * (1. + 0.1 * i)
        d['flux'][i] = (flux[0] if flat else flux) * (1. + i)
    p = gen.scratch('.fits')
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(d, name='FLUX')]).writeto(p)
    mon.note(nsed=nsed, nwave=nwave, rows=nrow, flat=flat, type=t)
    mon.key('table', nsed, nwave, nrow, flat, t)
    s = T.SED(filename=p)
    check_sed(mon, s, np.asarray(wave, dtype=t), np.asarray(flux, dtype=t), 'first row')
    q = gen.scratch('.fits')
    s.tofits(filename=q)
    check_sed(mon, T.SED(filename=q), wave, flux, 'first row written')
    mon.event('rows_ignored', nrow - 1)
    mon.event('roundtrips')


def template(rng, mon):
    nsed = int(rng.choice([1, 2, 3, 5, 9]))
    nwave = int(rng.choice([20, 120, 400]))
    wave, flux = gen.spectra(rng, nsed, nwave)
    p = gen.scratch('.fits')
    binimage = bool(rng.random() < 0.5)
    m50 = bool(rng.random() < 0.7)
    props = gen.write_template(rng, p, wave, flux, binimage=binimage, m50=m50)
    mon.note(nsed=nsed, nwave=nwave, binimage=binimage, m50=m50)
    mon.key('template', nsed, nwave, binimage, m50)
    if not m50:
        props['m50'] = np.zeros(nsed)

    def check(t, what):
        check_sed(mon, t, wave, flux, what)
        mon.check(bool(t.binimage) == binimage, what + ': layout')
        for n in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
            mon.same(np.asarray(getattr(t, n)), props[n], '{}: {}'.format(what, n))
        mon.event('roundtrips')
    t = T.Template(filename=p, interpolate=bool(rng.random() < 0.5))
    check(t, 'as made')
    for i in range(3):
        if rng.random() < 0.5:
            t.set_redshift(float(rng.uniform(0., 2.)))
        state = digest.attrs(t, digest.SED)
        if rng.random() < 0.5:
            q = p
        else:
            q = gen.scratch('.fits')
            if rng.random() < 0.5:
                o = gen.template(rng, nsed=2)
                o.tofits(filename=q)
        t.tofits(filename=q)
        mon.check(not digest.same(state, digest.attrs(t, digest.SED)),
                  'writing changed the templates')
        with fits.open(q, memmap=False) as h:
            names = sorted(x.name for x in h if x.data is not None)
        want = ['INTSFH', 'M1000', 'M300', 'M50', 'METS', 'MREMAIN'] + \
            (['FLUX', 'WAVE'] if binimage else ['FLUX'])
        mon.check(names == sorted(want), 'contents of the file', got=names)
        t = T.Template(filename=q, interpolate=bool(rng.random() < 0.5))
        check(t, 'round {}'.format(i))
    h = sha(q)
    o = gen.template(rng, nsed=2)
    mon.raises(Exception, 'writing over a file without permission', o.tofits, filename=q,
               clobber=False)
    mon.check(sha(q) == h, 'writing without permission altered the file')
    mon.event('refused')


def same_response(mon, a, b, what, exact=True):
    x, y = digest.response_state(a), digest.response_state(b)
    for n in ('wave', 'response', 'nwave'):
        mon.same(np.asarray(y[n]), np.asarray(x[n]), '{}: {}'.format(what, n))
    for n in ('lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high', 'solar_magnitude', 'vega2ab'):
        mon.check((x[n] is None) == (y[n] is None), '{}: {}'.format(what, n))
        if x[n] is not None:
            mon.close(y[n], x[n], '{}: {}'.format(what, n), rtol=1e-6, atol=1e-6)
    mon.close(y['interp'], x['interp'], what + ': interpolation', rtol=1e-6,
              atol=1e-6 * np.abs(x['interp']).max())


def response(rng, mon):
    w, r = gen.curve(rng)
    t = str(rng.choice(['f8', 'f4']))
    w, r = w.astype(t), r.astype(t)
    o = rng.permutation(len(w)) if rng.random() < 0.7 else np.arange(len(w))
    if rng.random() < 0.2:
        o = o[::-1]
    rd = bool(rng.random() < 0.3)
    src = str(rng.choice(['arrays', 'dat', 'bigendian']))
    mon.note(n=len(w), type=t, source=src)
    mon.key('response', len(w), t, src, rd, [int(x) for x in o[:5]])
    if src == 'dat':
        p = gen.scratch('.dat')
        gen.write_dat(p, w[o], r[o], extra=bool(rng.random() < 0.4))
        w, r = gen.read_dat(p)
        a = R.Response(filename=p)
    else:
        wi, ri = w[o].copy(), r[o].copy()
        if src == 'bigendian':
            wi, ri = wi.astype('>' + t), ri.astype('>' + t)
        a = R.Response(wave=wi, response=ri)
        mon.same(wi, w[o], 'the wavelengths given')
        mon.same(ri, r[o], 'the responses given')
    mon.same(np.asarray(a.wave), w, 'wavelengths are not sorted with their responses')
    mon.same(np.asarray(a.response), r, 'responses are not sorted with their wavelengths')
    f = gen.scratch('.fits')
    if rng.random() < 0.3:
        w0, r0 = gen.curve(rng)
        R.Response(wave=w0, response=r0).tofits(filename=f)
    ext = [None, 'FLUX', 'PASS', 'pass 2'][int(rng.integers(4))]
    kw = {} if ext is None else dict(ext=ext)
    a.tofits(filename=f, **kw)
    for e in (ext or 'FLUX', 1):
        b = R.Response()
        b.fromfits(f, ext=e)
        same_response(mon, a, b, 'read from the extension written to')
    b = R.Response()
    if rng.random() < 0.4:
        w0, r0 = gen.curve(rng)
        b = R.Response(wave=w0, response=r0)
    b.fromfits(filename=f)
    same_response(mon, a, b, 'read back')
    mon.event('roundtrips')
    b.tofits(filename=f)
    c = R.Response()
    c.fromfits(filename=f)
    same_response(mon, a, c, 'read back twice')
    mon.event('roundtrips')
    # unsorted, and only the first row
    n = len(w)
    d = np.zeros(2, dtype=[('wave', 'f8', n), ('response', 'f8', n)])
    d['wave'][0], d['response'][0] = w[o], r[o]
    d['wave'][1], d['response'][1] = w + 500., r[::-1]
    g = gen.scratch('.fits')
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(d)]).writeto(g)
    e = R.Response()
    e.fromfits(filename=g)
    mon.same(np.asarray(e.wave), np.float64(w), 'wavelengths of the first row, sorted')
    mon.same(np.asarray(e.response), np.float64(r), 'responses of the first row, sorted')
    mon.event('rows_ignored')
    h = sha(f)
    mon.raises(Exception, 'writing over a file without permission', e.tofits, filename=f,
               clobber=False)
    mon.check(sha(f) == h, 'writing without permission altered the file')
    mon.event('refused')


def extensions(rng, mon):
    """Files of several spectra; the one asked for is read.  The same file
    read again after it was replaced."""
    names = ['FLUX', 'SPEC', 'OTHER', 'X2']
    names = [names[i] for i in rng.permutation(4)[:int(rng.integers(1, 5))]]
    p = gen.scratch('.fits')
    mon.key('extensions', names)
    mon.note(extensions=names)
    for i in range(3):
        have = {}
        hdus = [fits.PrimaryHDU()]
        if rng.random() < 0.2:
            hdus.append(fits.ImageHDU(np.arange(7.), name='NOISE'))
        for n in names:
            nsed = int(rng.choice([1, 2, 3]))
            nwave = 40 if rng.random() < 0.6 else int(rng.choice([5, 60]))
            wave, flux = gen.spectra(rng, nsed, nwave)
            d = np.zeros(1, dtype=[('wave', 'f4', nwave), ('flux', 'f4', (nsed, nwave))])
            d['wave'][0], d['flux'][0] = wave, flux
            hdus.append(fits.BinTableHDU(d, name=n))
            have[n] = (wave, flux)
        fits.HDUList(hdus).writeto(p, overwrite=True)
        o = T.SED()
        for n in [names[j] for j in rng.permutation(len(names))]:
            s = T.SED(filename=p, ext=n, interpolate=bool(rng.random() < 0.5))
            check_sed(mon, s, have[n][0], have[n][1], 'extension ' + n)
            o.fromfits(p, ext=n)
            check_sed(mon, o, have[n][0], have[n][1], 'read again, extension ' + n)
            mon.event('roundtrips', 2)
        if 'FLUX' in names:
            check_sed(mon, T.SED(filename=p), *have['FLUX'], what='default extension')
        mon.raises(Exception, 'reading an extension which is not there', T.SED, filename=p,
                   ext='MISSING')


def replaced(rng, mon):
    """Files replaced under the same name are read as they are now."""
    p, q, g = gen.scratch('.fits'), gen.scratch('.fits'), gen.scratch('.fits')
    dat = gen.scratch('.dat')
    size = int(rng.choice([30, 60]))
    nsed = int(rng.choice([1, 2, 4]))
    mon.key('replaced', size, nsed, int(rng.integers(1 << 30)))
    for i in range(3):
        # the size of the file, too, stays the same
        wave, flux = gen.spectra(rng, nsed, size)
        s = T.SED(wave=wave.copy(), flux=flux.copy())
        s.binimage = False
        with gen.Dated(rng, p, q):
            s.tofits(filename=p)
            props = gen.write_template(rng, q, wave, flux)
        check_sed(mon, T.SED(filename=p), wave, flux, 'replaced spectrum')
        t = T.Template(filename=q)
        check_sed(mon, t, wave, flux, 'replaced templates')
        for n in ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000'):
            mon.same(np.asarray(getattr(t, n)), props[n], 'replaced ' + n)
        w, r = gen.curve(rng, 4000., 6000., n=size, kind=str(rng.choice(gen.SMOOTH)))
        a = R.Response(wave=w, response=r)
        with gen.Dated(rng, g, dat):
            a.tofits(filename=g)
            gen.write_dat(dat, w, r)
        b = R.Response()
        b.fromfits(filename=g)
        same_response(mon, a, b, 'replaced bandpass')
        w, r = gen.read_dat(dat)
        b = R.Response(filename=dat)
        mon.same(np.asarray(b.wave), w, 'wavelengths of a replaced file')
        mon.same(np.asarray(b.response), r, 'responses of a replaced file')
        mon.event('roundtrips', 4)


FAMILIES = [
    ('sed', sed, 100, 1500),
    ('table', table, 60, 800),
    ('template', template, 80, 1200),
    ('response', response, 100, 1500),
    ('extensions', extensions, 30, 400),
    ('replaced', replaced, 16, 250),
]
