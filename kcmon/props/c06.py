"""C06 Redshifting a spectrum is exact, flux-conserving and history-free."""
import numpy as np

from .. import gen, observe, ref, work

kc = gen.kc
RULE = ('A case sets a spectrum or template object (with and without interpolator, one or many '
        'spectra, float32 or float64) to a sequence of redshifts and judges wavelengths, fluxes, '
        'bolometric flux, interpolator and rest-frame arrays after each; or builds objects with '
        'templates left at some redshift. Distinct by sequence and object.')
ASSUMPTIONS = ['float32 rounding (2e-6)']
MIN_EVENTS = {'redshifts_set': 1000, 'objects_built': 40}


def check_state(mon, s, w0, f0, z, copies, what):
    w, f = np.asarray(s.wave, dtype=np.float64), np.asarray(s.flux, dtype=np.float64)
    mon.close(w, w0 * (1. + z), what + ': wavelengths are not stretched by (1+z)', rtol=2e-6)
    mon.close(f, f0 / (1. + z), what + ': fluxes are not divided by (1+z)', rtol=2e-6)
    mon.close(ref.trapz(f, w), ref.trapz(f0, w0), what + ': the bolometric flux changed',
              rtol=0., atol=1e-5 * ref.trapz(np.abs(f0), w0))
    mon.check(float(s.redshift) == float(z), what + ': redshift attribute', got=s.redshift)
    mon.same(s.restframe_wave, copies[0], what + ': rest-frame wavelengths changed')
    mon.same(s.restframe_flux, copies[1], what + ': rest-frame fluxes changed')
    if z == 0.:
        mon.same(s.wave, copies[0], what + ': rest-frame wavelengths not restored')
        mon.same(s.flux, copies[1], what + ': rest-frame fluxes not restored')
    if s.interpolate and s.interp is not None:
        i = np.arange(1, len(w) - 1, max(1, len(w) // 40))
        mon.close(s.interp(np.asarray(s.wave)[i]), np.asarray(s.flux)[..., i],
                  what + ': interpolator is not that of the shifted spectrum', rtol=1e-4,
                  atol=2e-5 * np.abs(f).max())


def sequences(rng, mon):
    nsed = int(rng.choice([1, 1, 2, 5]))
    if rng.random() < 0.04:
        nsed = int(rng.integers(20, 700))
        wave, flux = gen.spectra(rng, nsed, int(rng.integers(60, 100)))
    elif rng.random() < 0.04:
        wave, flux = gen.spectra(rng, nsed, int(rng.integers(3000, 30000)))
    else:
        wave, flux = gen.spectra(rng, nsed, int(rng.integers(60, 500)))
    kind = str(rng.choice(['sed', 'sed1d', 'sed64', 'file', 'template', 'template_bin']))
    interp = bool(rng.random() < 0.6)
    p = gen.scratch('s.fits')
    if kind == 'sed':
        s = kc.template.SED(wave=wave, flux=flux, interpolate=interp)
    elif kind == 'sed1d':
        flux = flux[:1]
        s = kc.template.SED(wave=wave, flux=flux[0], interpolate=interp)
    elif kind == 'sed64':
        wave, flux = np.float64(wave), np.float64(flux)
        s = kc.template.SED(wave=wave, flux=flux, interpolate=interp)
    elif kind == 'file':
        kc.template.SED(wave=wave, flux=flux).tofits(p)
        s = kc.template.SED(filename=p, interpolate=interp)
    else:
        gen.write_template(rng, p, wave, flux, binimage=kind.endswith('bin'))
        s = kc.template.Template(filename=p, interpolate=interp)
    copies = (np.array(s.restframe_wave), np.array(s.restframe_flux))
    given = (wave.copy(), flux.copy())
    w0, f0 = np.float64(wave), np.float64(flux)
    zs = [0.]
    for _ in range(int(rng.integers(4, 14))):
        u = rng.random()
        zs.append(0. if u < 0.2 else zs[-1] if u < 0.3 else
                  float(rng.uniform(-0.9, 0.)) if u < 0.4 else
                  float(np.float32(rng.uniform(0, 8.))) if u < 0.5 else
                  float(10.**rng.uniform(0.9, 3.2)) if u < 0.6 else
                  zs[-1] + float(rng.choice([1e-4, -1e-4, 1e-5, -3e-6, 1e-3, 0.01])) if u < 0.7 else
                  float(rng.uniform(0, 1.)))
    mon.key(kind, nsed, len(wave), interp, [round(z, 3) for z in zs])
    mon.note(kind=kind, nsed=nsed, nwave=len(wave), interpolate=interp, redshifts=zs)
    band = str(rng.choice(gen.OPTICAL))
    f = kc.response.ResponseDict()
    f.load_response(band)
    spec = ref.Spec(wave, flux)
    from .c05 import near_edge
    for j, z in enumerate(zs):
        if j > 0:
            zz = [z, np.float32(z), np.float64(z)][int(rng.integers(3))] if float(np.float32(z)) == z else z
            if z == 0. and rng.random() < 0.3:
                s.set_redshift()
            else:
                s.set_redshift(redshift=zz)
        mon.event('redshifts_set')
        check_state(mon, s, w0, f0, z, copies, 'after {} redshifts'.format(j))
        b = gen.band(band)
        if s.interpolate and not near_edge(spec, b, z):
            v, sc, info = ref.project(spec, b, z)
            if info['inside'] > 0:
                mon.close(np.reshape(f[band].project(sed=s), -1), v, 'photometry at a redshift',
                          rtol=0., atol=ref.REL * sc)
                mon.event('photometry')
        if rng.random() < 0.15:
            s.set_interp()
            check_state(mon, s, w0, f0, z, copies, 'after set_interp')
    # the arrays the caller gave are his
    mon.same(wave, given[0], 'the wavelengths given by the caller changed')
    mon.same(flux, given[1], 'the fluxes given by the caller changed')


def changed(rng, mon):
    """Redshifting starts from the rest-frame spectrum as it is now, however
    the object was left."""
    nsed = int(rng.choice([1, 2, 4]))
    wave, flux = gen.spectra(rng, nsed, int(rng.integers(60, 300)))
    interp = bool(rng.random() < 0.7)
    s = kc.template.SED(wave=wave.copy(), flux=flux.copy(), interpolate=interp)
    w0, f0 = wave.copy(), flux.copy()
    z, ops = 0., []
    for _ in range(int(rng.integers(4, 10))):
        op = str(rng.choice(['flux', 'inplace', 'wave', 'shown', 'shown_inplace', 'off', 'on',
                             'interp', 'none', 'both']))
        ops.append(op)
        if op in ('flux', 'both'):
            f0 = np.float32(f0 * rng.uniform(0.5, 2., (nsed, 1)))
            s.restframe_flux = f0.copy()
        elif op == 'inplace':
            f0 = np.float32(f0 * rng.uniform(0.5, 2., (nsed, 1)))
            s.restframe_flux[...] = f0
        if op in ('wave', 'both'):
            w0 = np.float32(w0 * rng.uniform(0.9, 1.1))
            s.restframe_wave = w0.copy()
        elif op == 'shown':
            s.flux = s.flux * np.float32(3.)
            if rng.random() < 0.5:
                s.wave = s.wave * np.float32(1.5)
        elif op == 'shown_inplace' and not np.shares_memory(s.flux, s.restframe_flux):
            s.flux[...] *= np.float32(3.)
        elif op == 'off':
            s.interpolate = False
        elif op == 'on':
            s.interpolate = True
        elif op == 'interp':
            s.set_interp()
            mon.close(s.interp(np.asarray(s.wave)[5:9]), np.asarray(s.flux)[..., 5:9],
                      'set_interp: not the spectrum as it is', rtol=1e-4,
                      atol=2e-5 * np.abs(s.flux).max())
        if rng.random() < 0.5:
            z = float(rng.choice([0., rng.uniform(-0.3, 0.), rng.uniform(0., 2.)]))
        s.set_redshift(redshift=z)
        mon.event('redshifts_set')
        check_state(mon, s, np.float64(w0), np.float64(f0), z, (w0.copy(), f0.copy()),
                    'after changes by the caller ({})'.format(op))
    mon.key(ops, nsed, interp)


def two(rng, mon):
    """Two objects made of the same arrays are independent."""
    wave, flux = gen.spectra(rng, int(rng.choice([1, 3])), 120)
    a = kc.template.SED(wave=wave, flux=flux, interpolate=bool(rng.random() < 0.5))
    b = kc.template.SED(wave=wave, flux=flux, interpolate=bool(rng.random() < 0.5))
    copies = (wave.copy(), flux.copy())
    za = zb = 0.
    seq = []
    for _ in range(10):
        if rng.random() < 0.5:
            za = float(rng.choice([0., rng.uniform(0, 2)]))
            a.set_redshift(za)
        else:
            zb = float(rng.choice([0., rng.uniform(0, 2)]))
            b.set_redshift(zb)
        seq.append((round(za, 2), round(zb, 2)))
        mon.event('redshifts_set')
        check_state(mon, a, np.float64(copies[0]), np.float64(copies[1]), za, copies, 'first')
        check_state(mon, b, np.float64(copies[0]), np.float64(copies[1]), zb, copies, 'second')
    mon.key(seq)


def objects(rng, mon):
    """Building and using objects leaves the templates at redshift zero and
    does not depend on where they were."""
    with observe.Observer(mon, ['C07', 'C08']) as obs:
        t = gen.template(rng)
        copies = (np.array(t.restframe_wave), np.array(t.restframe_flux))
        w0, f0 = np.float64(copies[0]), np.float64(copies[1])
        seq = []
        for _ in range(int(rng.integers(1, 4))):
            z = float(rng.choice([0., rng.uniform(0, 3), rng.uniform(-0.5, 0)]))
            t.set_redshift(z)
            c, m, k = gen.make(rng, obs, tmpl=t, nz=int(rng.choice([2, 4, 9])))
            seq.append((round(z, 3), c['cls'], c['_mode']))
            mon.event('objects_built')
            check_state(mon, t, w0, f0, 0., copies, 'after building an object')
            for n in (None, 3):
                work.one_round(rng, mon, m, k, n, ['reconstruct', 'reconstruct_out', 'kcorrect'],
                               forms=False)
            check_state(mon, t, w0, f0, 0., copies, 'after using an object')
            if rng.random() < 0.4:
                fit = kc.fitter.Fitter(responses=list(m.responses), templates=t,
                                       redshift_range=[0., 0.5], nredshift=3)
                t.set_redshift(float(rng.uniform(0, 2)))
                fit.set_Amatrix()
                mon.event('objects_built')
                check_state(mon, t, w0, f0, 0., copies, 'after building a fitter')
                cc = gen.weights(rng, m.nsed, 1)[0]
                mm = ref.Model(fit, gen.band, responses_out=False)
                v, e = mm.maggies(np.float64(0.2), cc)
                mon.close(fit.reconstruct(redshift=np.float32(0.2), coeffs=cc), v,
                          'predictions depend on the redshift of the templates before',
                          rtol=0., atol=e + 1e-6 * np.abs(v))
        mon.key(seq)
        mon.note(sequence=seq, **gen.describe(c))


FAMILIES = [
    ('sequences', sequences, 160, 2500),
    ('changed', changed, 40, 600),
    ('two', two, 40, 500),
    ('objects', objects, 60, 800),
]
