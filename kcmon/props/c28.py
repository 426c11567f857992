"""C28 Spectrum plots show the spectra asked for."""
import numpy as np

from .. import digest, gen, work

kc = gen.kc
RULE = ('A case makes a spectrum or template object (one or many spectra, with zero and negative '
        'samples, left at random redshifts), plots random choices of its spectra with and without '
        'wavelength limits on new and used axes, and reads the lines, limits and labels back from '
        'the figure. Distinct by object, choice of spectra, limits and redshift.')
ASSUMPTIONS = ['wavelength limits enclose samples with flux of the chosen spectra',
               'the Agg backend']
MIN_EVENTS = {'plots': 600, 'lines': 1200, 'points': 100000, 'limits': 250, 'at_redshift': 250,
              'masked_samples': 2000}


def _object(rng):
    nsed = int(rng.choice([1, 1, 2, 3, 6, 12]))
    wave, flux = gen.spectra(rng, nsed, int(rng.integers(60, 500)))
    if rng.random() < 0.25:
        # any unit of flux
        flux = np.float32(flux * max(10.**rng.uniform(-16, 24),
                                     1e-34 / np.abs(flux[flux != 0.]).min()))
    kind = str(rng.choice(['sed', 'sed1d', 'sed64', 'file', 'template', 'template_bin', 'fitter']))
    if rng.random() < 0.6:
        # samples without flux, and below zero
        for i in range(nsed):
            u = rng.random()
            if u < 0.3:
                flux[i, :int(rng.integers(1, flux.shape[1] // 2))] = 0.
            elif u < 0.5:
                flux[i, rng.random(flux.shape[1]) < 0.2] = 0.
            elif u < 0.8:
                flux[i, rng.random(flux.shape[1]) < 0.2] *= -1.
    p = gen.scratch('p.fits')
    interp = bool(rng.random() < 0.5)
    if kind == 'sed1d':
        flux = flux[:1]
        s = kc.template.SED(wave=wave, flux=flux[0], interpolate=interp)
    elif kind == 'sed64':
        s = kc.template.SED(wave=np.float64(wave), flux=np.float64(flux), interpolate=interp)
    elif kind == 'sed':
        s = kc.template.SED(wave=wave, flux=flux, interpolate=interp)
    elif kind == 'file':
        kc.template.SED(wave=wave, flux=flux).tofits(p)
        s = kc.template.SED(filename=p, interpolate=interp)
    else:
        gen.write_template(rng, p, wave, flux, binimage=kind.endswith('bin'))
        s = kc.template.Template(filename=p, interpolate=interp)
        if kind == 'fitter':
            s = kc.kcorrect.Kcorrect(responses=['sdss_g0'], templates=s, nredshift=2,
                                     redshift_range=[0., 0.3]).templates
    return kind, s, np.float64(wave), np.float64(flux)


def state(s):
    d = digest.attrs(s, digest.SED)
    if s.interp is not None:
        d['interp'] = np.array(s.interp(np.asarray(s.wave)))
    return d


def points(line):
    x = np.asarray(line.get_xdata(), dtype=np.float64)
    y = np.asarray(line.get_ydata(), dtype=np.float64)
    ok = np.isfinite(x) & np.isfinite(y)
    return x[ok], y[ok]


def plots(rng, mon):
    import matplotlib.pyplot as plt
    kind, s, w0, f0 = _object(rng)
    nsed = len(f0)
    keys = []
    for _ in range(int(rng.integers(3, 7))):
        z = 0.
        if rng.random() < 0.6:
            z = float(rng.choice([0., 0.1, rng.uniform(-0.05, 1.), rng.uniform(1., 8.)]))
            s.set_redshift(z)
            mon.event('at_redshift')
        else:
            s.set_redshift(0.)
        w, f = w0 * (1. + z), f0 / (1. + z)
        u = rng.random()
        if u < 0.3:
            indx, rows = None, list(range(nsed))
        elif u < 0.5:
            i = int(rng.integers(nsed))
            indx, rows = [i, np.int32(i), np.int64(i), np.array(i)][int(rng.integers(4))], [i]
        else:
            rows = [int(x) for x in rng.permutation(nsed)[:int(rng.integers(1, nsed + 1))]]
            indx = [rows, tuple(rows), np.array(rows), np.int32(rows)][int(rng.integers(4))]
        kw = {} if indx is None and rng.random() < 0.5 else dict(indx=indx)
        lim = None
        lfl = np.where(f > 0., f, np.nan) * w
        if rng.random() < 0.6:
            a, b = np.sort(rng.uniform(np.log(w[0] * 0.8), np.log(w[-1] * 1.2), 2))
            a, b = np.exp(a), np.exp(b)
            inside = (w > a * (1 + 1e-5)) & (w < b * (1 - 1e-5))
            near = (w > a * (1 - 1e-5)) & (w < b * (1 + 1e-5))
            if inside.any() and np.isfinite(lfl[rows][:, inside]).any():
                lim = (a, b)
                kw['wavelim'] = [list, tuple, np.array, np.float32][int(rng.integers(4))](lim)
        elif rng.random() < 0.2:
            kw['wavelim'] = None
        fig = plt.figure()
        ax = fig.add_subplot(*([111] if rng.random() < 0.5 else [2, 1, 2]))
        nold = 0
        if rng.random() < 0.3:
            # something is there already
            nold = 2
            ax.plot([3., 4.], [-10., -11.])
            ax.plot([3.5], [-12.], 'o')
        before = state(s)
        if rng.random() < 0.5:
            dig = digest.digest(kw.get('indx'), kw.get('wavelim'))
        else:
            dig = None
        s.plot(**kw)
        mon.event('plots')
        what = 'plot of {} spectra of {}'.format(len(rows), nsed)
        mon.check(not digest.same(before, state(s)), 'plotting changed the object',
                  changed=digest.same(before, state(s)))
        if dig is not None:
            mon.check(digest.digest(kw.get('indx'), kw.get('wavelim')) == dig,
                      'plotting changed its arguments')
        mon.check(plt.gca() is ax, what + ': not on the current axes')
        got = [points(x) for x in ax.get_lines()[nold:]]
        got = [x for x in got if len(x[0])]
        want = []
        for i in rows:
            ok = f[i] > 0.
            mon.event('masked_samples', int((~ok).sum()))
            if ok.any():
                want.append((np.log10(w[ok]), np.log10(w[ok] * f[i][ok])))
        mon.check(len(got) == len(want), what + ': number of lines', got=len(got), want=len(want))
        for i, (gx, gy) in enumerate(got):
            j = i
            if len(gx) != len(want[j][0]) or np.abs(gy - want[j][1]).max() > 1e-4:
                # (in any order)
                js = [n for n in range(len(want)) if len(want[n][0]) == len(gx) and
                      np.abs(want[n][1] - gy).max() < 1e-4]
                mon.check(bool(js), what + ': a line is none of the spectra asked for', line=i,
                          rows=rows, z=z)
                j = js[0]
            mon.close(gx, want[j][0], what + ': wavelengths of the line', rtol=3e-6)
            mon.close(gy, want[j][1], what + ': values of the line', rtol=0., atol=2e-5)
            mon.event('lines')
            mon.event('points', len(gx))
        if lim is not None:
            x = np.array(ax.get_xlim())
            mon.close(x, np.log10(lim), what + ': wavelength limits', rtol=1e-6)
            y = ax.get_ylim()
            v = np.log10(lfl[rows][:, inside])
            lo, hi = np.nanmin(v), np.nanmax(v)
            mon.check(y[0] < lo and y[1] > hi, what + ': the limits cut off part of the spectra',
                      limits=list(y), spectra=[lo, hi])
            v = np.log10(lfl[rows][:, near])
            mon.check(y[0] > np.nanmin(v) - 0.5 and y[1] < np.nanmax(v) + 0.5,
                      what + ': the limits are not those of the spectra shown', limits=list(y),
                      spectra=[lo, hi])
            mon.event('limits')
        mon.check('lambda' in ax.get_xlabel() and 'lambda' in ax.get_ylabel(), 'labels',
                  x=ax.get_xlabel(), y=ax.get_ylabel())
        keys.append((rows, round(z, 3), lim is None))
        plt.close(fig)
    mon.key(kind, nsed, len(w0), keys)
    mon.note(kind=kind, nsed=nsed)


FAMILIES = [
    ('plots', plots, 200, 3000),
]
