"""Generators: templates, bandpasses, configurations, photometry, input forms."""
import os

import numpy as np
import astropy.cosmology
import astropy.units
from astropy.io import fits

from . import boot, ref

kc = boot.boot()
RESP = kc.response
DATADIR = os.path.join(kc.KCORRECT_DIR, 'data')

# shipped bands used most, by increasing wavelength
POOL = ['galex_FUV', 'galex_NUV', 'bessell_U', 'sdss_u0', 'bessell_B', 'decam_g',
        'sdss_g0', 'bass_g', 'bessell_V', 'wfpc2_f606w', 'sdss_r0', 'sdss_r1',
        'bessell_R', 'decam_r', 'sdss_i0', 'bessell_I', 'hst_acs_f814w', 'sdss_z0',
        'decam_z', 'clash_wfc3_f105w', 'twomass_J', 'oldtwomass_J', 'twomass_H',
        'twomass_Ks']
OPTICAL = [n for n in POOL if not n.startswith('galex')]
SDSS = ['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0', 'sdss_z0']
GST = ['galex_FUV', 'galex_NUV'] + SDSS + ['twomass_J', 'twomass_H', 'twomass_Ks']

_counter = [0]


def scratch(name=''):
    d = os.path.join(boot.scratch(), 'w{}'.format(os.getpid()))
    os.makedirs(d, exist_ok=True)
    _counter[0] += 1
    return os.path.join(d, '{:06d}{}'.format(_counter[0], name))


# ---------------------------------------------------------------- bandpasses

_bandcache = {}


def read_dat(path):
    """Columns lambda, pass of a fixed-width response file (own reader)."""
    rows = []
    cols = None
    for line in open(path):
        s = line.strip()
        if not s or s.startswith('#'):
            continue
        if '|' in s:
            f = [x.strip() for x in s.strip('|').split('|')]
        else:
            f = s.split()
        if cols is None:
            cols = f
            continue
        rows.append(f)
    il, ip = cols.index('lambda'), cols.index('pass')
    a = np.array([[float(r[il]), float(r[ip])] for r in rows])
    o = np.argsort(a[:, 0], kind='stable')
    return a[o, 0], a[o, 1]


def band(name):
    """Reference Band of a bandpass name, from the bytes of its file."""
    p = name + '.dat'
    if not os.path.isabs(p):
        p = os.path.join(DATADIR, 'responses', p)
    st = os.stat(p)
    key = (p, st.st_mtime_ns, st.st_size)
    if key not in _bandcache:
        _bandcache[key] = ref.Band(*read_dat(p))
    return _bandcache[key]


def shipped():
    """Names of the shipped response files this reader can read."""
    out = []
    d = os.path.join(DATADIR, 'responses')
    for n in sorted(os.listdir(d)):
        if n.endswith('.dat') and os.path.isfile(os.path.join(d, n)):
            try:
                band(n[:-4])
            except Exception:
                continue
            out.append(n[:-4])
    return out


_many = []


def many():
    """Shipped bands from the ultraviolet to the near infrared."""
    if not _many:
        _many.extend(n for n in shipped() if band(n).wave[0] > 1500. and band(n).wave[-1] < 24000.)
    return _many


def write_dat(path, wave, response, extra=False):
    """A response file as the package ships them."""
    import astropy.table
    t = astropy.table.Table()
    t['lambda'] = np.asarray(wave, dtype=np.float64)
    t['pass'] = np.asarray(response, dtype=np.float64)
    if extra:
        t['pass_1'] = np.asarray(response, dtype=np.float64) * 0.5
    t.write(path, format='ascii.fixed_width', overwrite=True)


SMOOTH = ['gauss', 'tophat', 'edge', 'ramp', 'bumpy', 'triangle']


def curve(rng, lo=None, hi=None, n=None, kind=None):
    """wave, response of a random bandpass"""
    if lo is None:
        lo = float(rng.uniform(1500., 18000.))
    if hi is None:
        hi = lo * float(rng.uniform(1.05, 1.6))
    n = int(n or rng.integers(12, 200))
    kind = kind or rng.choice(SMOOTH + ['box', 'padded'])
    if rng.random() < 0.5:
        w = np.linspace(lo, hi, n)
    else:
        w = np.sort(rng.uniform(lo, hi, n))
        w[0], w[-1] = lo, hi
        # no nearly coincident samples: the cubic would overshoot wildly
        w = np.unique(np.round(w, 2))
        gap = (hi - lo) / n * 0.2
        keep = [0]
        for i in range(1, len(w)):
            if w[i] - w[keep[-1]] >= gap:
                keep.append(i)
        w = w[keep]
        if len(w) < 6:
            w = np.linspace(lo, hi, 12)
    x = np.clip((w - lo) / (hi - lo), 0., 1.)
    if kind == 'gauss':
        r = np.exp(-0.5 * ((x - 0.5) / 0.18)**2)
    elif kind == 'tophat':
        r = 1. / (1. + np.exp(-(x - 0.15) * 40.)) / (1. + np.exp((x - 0.85) * 40.))
    elif kind == 'edge':
        r = 0.3 + 0.7 * np.sin(np.pi * x)
    elif kind == 'ramp':
        r = 0.05 + x**1.5
    elif kind == 'bumpy':
        r = np.sin(np.pi * x) * (1. + 0.4 * np.sin(9. * x)) + 0.01
    elif kind == 'box':
        # nothing and everything, with the steps anywhere
        a, b = sorted(rng.choice(len(w), 2, replace=False))
        r = np.zeros(len(w))
        r[max(1, min(a, b - 1)):b + 1] = 1.
        if rng.random() < 0.5:
            r[-1] = 0.
        if r.sum() < 2.:
            r = 1. - np.abs(2. * x - 1.)
    elif kind == 'padded':
        a = rng.uniform(0.2, 0.8)
        r = np.where(np.abs(x - a) < 0.19, np.exp(-0.5 * ((x - a) / 0.08)**2), 0.)
        if r.max() < 0.3:
            r = 1. - np.abs(2. * x - 1.)
    else:
        r = 1. - np.abs(2. * x - 1.)
    return w, r * float(10.**rng.uniform(-3, 2))


def user_band(rng, shuffled=True, **kw):
    """Name of a new bandpass file outside the package."""
    w, r = curve(rng, **kw)
    if shuffled and rng.random() < 0.4:
        o = rng.permutation(len(w))
        w, r = w[o], r[o]
    name = scratch('band')
    write_dat(name + '.dat', w, r, extra=bool(rng.random() < 0.3))
    return name


# ---------------------------------------------------------------- templates

def spectra(rng, nsed, nwave=400, lo=700., hi=32000., kind=None, lyman=False,
            cool=0.04):
    """wave [nwave], flux [nsed, nwave]: positive, galaxy-like"""
    # ends at no round number: whether an end sample coincides with a sample
    # of a bandpass must not hang on rounding
    lo, hi = lo * rng.uniform(0.9, 1.1), hi * rng.uniform(0.9, 1.1)
    w = np.logspace(np.log10(lo), np.log10(hi), nwave)
    if rng.random() < 0.5 and nwave > 50:
        # irregular sampling, as real template sets have
        lw = np.log(w)
        lw[1:-1] += rng.uniform(-0.3, 0.3, nwave - 2) * (lw[1] - lw[0])
        w = np.exp(lw)
    x = np.log(w / 5500.)
    f = np.zeros((nsed, nwave))
    for i in range(nsed):
        slope = rng.uniform(-3.5, 1.5)
        if rng.random() < 0.06:
            # (hardly anything at short wavelengths)
            slope = rng.uniform(2., 7.)
        y = np.exp(np.clip(slope * x + rng.uniform(-0.5, 0.3) * x**2, -12, 12))
        if rng.random() < cool:
            # a cool star: fades by orders of magnitude within a few bands
            t = 14388e4 / (10.**rng.uniform(np.log10(2500.), np.log10(7000.)))
            y = np.exp(np.clip(-5. * x - t * (1. / w - 1. / 5500.), -35., 12.))
        for _ in range(int(rng.integers(0, 4))):     # breaks
            xb = np.log(rng.uniform(1500., 15000.) / 5500.)
            y = y * (1. - rng.uniform(0., 0.7) / (1. + np.exp((x - xb) * 60.)))
        for _ in range(int(rng.integers(0, 5))):     # lines
            xl = np.log(rng.uniform(1500., 15000.) / 5500.)
            y = y * (1. + rng.uniform(0.1, 4.) * np.exp(-0.5 * ((x - xl) / 0.012)**2))
        f[i] = y * 10.**rng.uniform(-0.7, 0.7)
    if lyman:
        f[:, w < 912. * rng.uniform(0.95, 1.05)] = 0.
    f *= 10.**rng.uniform(-16., -13.)
    return np.float32(w), np.float32(f)


class Dated:
    """Files written inside keep the times they had (as copies with their times do)."""

    def __init__(self, rng, *paths, always=False):
        self.old = dict((p, os.stat(p)) for p in paths
                        if os.path.isfile(p) and (always or rng.random() < 0.5))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p, st in self.old.items():
            if os.path.isfile(p):
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def write_template(rng, path, wave, flux, binimage=False, m50=True, props=None):
    nsed = flux.shape[0]
    h = fits.HDUList()
    if binimage:
        h.append(fits.PrimaryHDU())
        h.append(fits.ImageHDU(wave, name='WAVE'))
        h.append(fits.ImageHDU(flux, name='FLUX'))
    else:
        dt = np.dtype([('wave', np.float32, len(wave)),
                       ('flux', np.float32, (nsed, len(wave)))])
        d = np.zeros(1, dtype=dt)
        d['wave'] = wave
        d['flux'] = flux
        h.append(fits.PrimaryHDU())
        h.append(fits.BinTableHDU(d, name='FLUX'))
    if props is None:
        props = dict(intsfh=10.**rng.uniform(-0.3, 0.3, nsed))
        props['mremain'] = props['intsfh'] * rng.uniform(0.4, 0.95, nsed)
        props['mets'] = rng.uniform(0.004, 0.05, nsed)
        props['m300'] = props['intsfh'] * rng.uniform(0., 0.5, nsed)
        props['m50'] = props['m300'] * rng.uniform(0., 1., nsed)
        props['m1000'] = props['m300'] + props['intsfh'] * rng.uniform(0., 0.4, nsed)
        if rng.random() < 0.1:
            # (numbers which are no fractions)
            for n in ('mets', 'm50', 'm300', 'm1000'):
                props[n] = props[n] * 10.**rng.uniform(0., 3., nsed)
        if rng.random() < 0.3:
            # a template without stars
            props['mremain'][rng.integers(nsed)] = 0.
    kind = np.float64 if rng.random() < 0.25 else np.float32
    props = dict((n, kind(v)) for n, v in props.items())
    for n in ('intsfh', 'mremain', 'mets', 'm300', 'm50', 'm1000'):
        if n == 'm50' and not m50:
            continue
        h.append(fits.ImageHDU(props[n], name=n.upper()))
    h.writeto(path, overwrite=True)
    return props


def template(rng, nsed=None, nwave=None, interpolate=None, lyman=False, hi=None, cool=None,
             **kw):
    """A Template object of the code under test, from a new file."""
    if nsed is None and nwave is None and rng.random() < 0.02:
        # (as many as a set of single stellar populations)
        nsed, nwave = int(rng.integers(40, 560)), int(rng.integers(60, 120))
    nsed = int(nsed or rng.integers(1, 7))
    nwave = int(nwave or rng.integers(250, 500))
    wave, flux = spectra(rng, nsed, nwave, lyman=lyman,
                         **dict(([] if hi is None else [('hi', hi)]) +
                                ([] if cool is None else [('cool', cool)])))
    p = scratch('t.fits')
    write_template(rng, p, wave, flux, binimage=bool(rng.random() < 0.4),
                   m50=bool(rng.random() < 0.7), **kw)
    if interpolate is None:
        interpolate = bool(rng.random() < 0.6)
    return kc.template.Template(filename=p, interpolate=interpolate)


def default_template(interpolate=True):
    return kc.template.Template(
        filename=os.path.join(DATADIR, 'templates', 'kcorrect-default-v4.fits'),
        interpolate=interpolate)


# ---------------------------------------------------------------- cosmology

class FlatToy(object):
    """A cosmology that is none of astropy's: d_L = 3000 z (1 + z) Mpc."""
    name = 'toy'

    def __init__(self, scale=3000.):
        self.scale = scale

    def luminosity_distance(self, z):
        z = np.asarray(getattr(z, 'value', z), dtype=np.float64)
        return self.scale * z * (1. + z) * astropy.units.Mpc

    def distmod(self, z):
        d = self.luminosity_distance(z).to_value('Mpc')
        return (5. * np.log10(d) + 25.) * astropy.units.mag


def cosmology(rng):
    i = int(rng.integers(4))
    if i == 0:
        return None
    if i == 1:
        return astropy.cosmology.FlatLambdaCDM(H0=float(rng.uniform(50, 100)),
                                               Om0=float(rng.uniform(0.1, 0.9)))
    if i == 2:
        return astropy.cosmology.WMAP9
    return FlatToy(float(rng.uniform(2000, 6000)))


# ---------------------------------------------------------------- objects

def conf(rng, cls=None, nin=None, zero='some', nz=None, nsed=None, out=None,
         lyman=False, abcorrect=None, user=0.15, zmax=None, tmpl=None, cosmo=None):
    """A random configuration: dict of class and constructor arguments."""
    cls = cls or rng.choice(['Kcorrect', 'Kcorrect', 'Kcorrect', 'KcorrectSDSS', 'KcorrectGST'])
    t = tmpl if tmpl is not None else template(rng, nsed=nsed, lyman=lyman)
    zmax = zmax or float(rng.choice([0.3, 0.55, 0.7, 1.0, 1.3, 2.0]))
    if zero == 'some':
        zero = bool(rng.random() < 0.88)
    zmin = 0. if zero else float(rng.choice([0.05, 0.1, 0.2]))
    if zero and rng.random() < 0.2:
        zmin = -float(rng.choice([0.01, 0.05]))
    n = int(nz or rng.choice([2, 3, 5, 8, 13, 20, 31]))
    if nz is None and t.nsed > 20:
        n = min(n, 5)
    d = dict(cls=str(cls), templates=t, redshift_range=[zmin, zmax], nredshift=n)
    if cls == 'KcorrectSDSS':
        names = list(SDSS)
    elif cls == 'KcorrectGST':
        names = list(GST)
    else:
        k = int(nin or rng.choice([1, 2, 3, 4, 5, 6, 8, 10]))
        pool = POOL if rng.random() < 0.5 else OPTICAL
        if nin is None and rng.random() < 0.03:
            # (as many as narrow-band surveys have)
            k, pool = int(rng.integers(15, 45)), many()
            n = d['nredshift'] = min(n, 5)
        names = [str(x) for x in rng.choice(pool, size=min(k, len(pool)), replace=False)]
        for i in range(len(names)):
            if rng.random() < user:
                names[i] = user_band(rng)
        d['responses'] = names
    mode = out or str(rng.choice(['same', 'permuted', 'fewer', 'more', 'other', 'repeat', 'maponly']))
    if mode == 'permuted':
        p = rng.permutation(len(names))
        d['responses_out'] = [names[i] for i in p]
        d['responses_map'] = [names[i] for i in p]
    elif mode == 'maponly':
        d['responses_map'] = [names[i] for i in rng.permutation(len(names))]
    elif mode in ('fewer', 'more', 'other', 'repeat'):
        k = {'fewer': max(1, len(names) - int(rng.integers(1, 3))),
             'more': len(names) + int(rng.integers(1, 4)),
             'other': len(names),
             'repeat': int(rng.integers(1, 8))}[mode]
        pool = OPTICAL if rng.random() < 0.8 else POOL
        if k > len(pool):
            pool = many()
        o = [str(x) for x in rng.choice(pool, size=k, replace=(mode == 'repeat'))]
        if rng.random() < user:
            o[int(rng.integers(k))] = user_band(rng)
        d['responses_out'] = o
        d['responses_map'] = [str(x) for x in rng.choice(names, size=k)]
    if cls == 'Kcorrect':
        d['abcorrect'] = bool(rng.random() < 0.3) if abcorrect is None else bool(abcorrect)
    else:
        d['abcorrect'] = bool(rng.random() < 0.6) if abcorrect is None else bool(abcorrect)
    if cls == 'Fitter':
        d = dict((k, v) for k, v in d.items() if k not in ('responses_out', 'responses_map'))
        d['_mode'] = 'fitter'
        return d
    d['cosmo'] = cosmology(rng) if cosmo is None else cosmo
    d['_mode'] = mode
    return d


def build(c):
    """The object of a configuration."""
    kw = dict((k, v) for k, v in c.items() if k != 'cls' and not k.startswith('_'))
    if c['cls'] == 'Fitter':
        k = kc.fitter.Fitter(**kw)
        k.set_Amatrix()
        return k
    return getattr(kc.kcorrect, c['cls'])(**kw)


def model(k):
    return ref.Model(k, band)


def describe(c):
    t = c['templates']
    cosmo = c.get('cosmo')
    return dict(cls=c['cls'], nsed=int(t.nsed), nwave=int(t.nwave),
                interpolate=bool(t.interpolate), range=c['redshift_range'],
                nredshift=c['nredshift'], abcorrect=c['abcorrect'],
                responses=[os.path.basename(x) for x in c.get('responses', [c['cls']])],
                out=c['_mode'], cosmo=str(getattr(cosmo, 'name', cosmo)))


def to_ab_ref(c, maggies, ivar=None):
    """What the fluxes of class c['cls'] are in AB, by definition."""
    m = np.array(np.float32(maggies), dtype=np.float64)
    v = None if ivar is None else np.array(np.float32(ivar), dtype=np.float64)
    if c['abcorrect'] and c['cls'] in ('KcorrectSDSS', 'KcorrectGST'):
        f = 10.**(-0.4 * ref.ABFIX)
        s = slice(0, 5) if c['cls'] == 'KcorrectSDSS' else slice(2, 7)
        m[..., s] = m[..., s] * f
        if v is not None:
            v[..., s] = v[..., s] / f**2
    return m if ivar is None else (m, v)


# ---------------------------------------------------------------- photometry

def redshifts(rng, m, n, positive=False):
    lo, hi = m.range
    z = rng.uniform(lo, hi, n)
    for i in range(n):
        u = rng.random()
        if u < 0.15:
            z[i] = m.grid[int(rng.integers(m.nz))]
        elif u < 0.2:
            z[i] = lo
        elif u < 0.25:
            z[i] = hi
        elif u < 0.35 and i > 0:
            z[i] = z[int(rng.integers(i))]
    z = np.float32(z)
    z = np.clip(z, np.float32(lo), np.float32(hi))
    if positive:
        z = np.where(z <= 1e-3, np.float32(max(1e-3, lo)), z)
    return z


def weights(rng, nsed, n):
    c = rng.exponential(1., (n, nsed)) * (rng.random((n, nsed)) < 0.6)
    c *= 10.**rng.uniform(-1, 1, (n, 1))
    if rng.random() < 0.08:
        c *= 10.**rng.uniform(-22, 15)
    for i in range(n):
        if not c[i].any():
            c[i, int(rng.integers(nsed))] = 1.
    return np.float32(c)


def photometry(rng, m, z, scale=None, hostile=True, snr=None, offset=0.05):
    """maggies, ivar [n, nin] (float32) near what the templates can make"""
    n, nin = len(z), len(m.responses)
    c = weights(rng, m.nsed, n)
    g, _ = m.maggies(z, c)
    g = np.abs(g)
    big = max(float(g.max()), 1e-300)
    g = np.where(g < 1e-6 * big, 1e-6 * big, g)
    if scale is None:
        # maggies, now and then in some other unit
        scale = float(10.**(rng.uniform(-11, 1) if rng.random() < 0.9 else rng.uniform(-15, 12)))
    g = g / big * scale
    s = snr or 10.**rng.uniform(-0.3, 2.3, (n, nin))
    err = g / s
    mg = g * (1. + offset * rng.standard_normal((n, nin))) + err * rng.standard_normal((n, nin))
    iv = 1. / err**2
    if hostile:
        u = rng.random((n, nin))
        iv = np.where(u < 0.12, 0., iv)
        mg = np.where((u > 0.12) & (u < 0.2), -np.abs(mg), mg)
        mg = np.where((u > 0.2) & (u < 0.23), 0., mg)
        if n > 3 and rng.random() < 0.3:
            iv[int(rng.integers(n))] = 0.
        if n > 3 and rng.random() < 0.3:
            mg[int(rng.integers(n))] *= -1.
    return np.float32(mg), np.float32(np.minimum(iv, 1e34))


def share(rng, *arrays):
    """Copies of the arrays in which some rows repeat parts of other rows:
    equal in some of the arrays and different in the rest."""
    out = [None if a is None else np.array(a) for a in arrays]
    have = [i for i, a in enumerate(out) if a is not None]
    n = len(out[have[0]])
    if n < 2:
        return out
    for _ in range(int(rng.integers(1, n + 1))):
        i = int(rng.integers(1, n))
        j = i - 1 if rng.random() < 0.6 else int(rng.integers(n))
        take = [x for x in have if rng.random() < 0.6]
        for x in take:
            if out[x].ndim == 2 and rng.random() < 0.3:
                q = int(rng.integers(out[x].shape[1]))
                out[x][i, :q] = out[x][j, :q]
            else:
                out[x][i] = out[x][j]
    return out


def sizes(rng, m=None, big=0.08):
    u = rng.random()
    if u < big:
        return int(rng.choice([64, 150, 300]))
    opts = [1, 1, 2, 3, 4, 5, 7, 12]
    if m is not None:
        opts += [len(m.responses), m.nsed]
        if hasattr(m, 'responses_out'):
            opts.append(len(m.responses_out))
    return int(rng.choice(opts))


# ---------------------------------------------------------------- forms

FORMS = ['f4', 'f8', 'list', 'tuple', 'bigf4', 'bigf8', 'fortran', 'strided',
         'negstride', 'readonly', 'longdouble', 'column', 'view']


def form(rng, a, kind=None):
    """The numbers of float32 array a in another guise (same values)."""
    a = np.asarray(a, dtype=np.float32)
    kind = kind or str(rng.choice(FORMS))
    if a.ndim == 0:
        v = float(a)
        opts = [v, np.float32(a), np.float64(v), a, np.array(v, dtype='>f4')]
        return opts[int(rng.integers(len(opts)))]
    if kind == 'f4':
        return a.copy()
    if kind == 'f8':
        return a.astype(np.float64)
    if kind == 'list':
        return a.astype(np.float64).tolist()
    if kind == 'tuple':
        return tuple(tuple(x) if isinstance(x, list) else x
                     for x in a.astype(np.float64).tolist())
    if kind == 'bigf4':
        return a.astype('>f4')
    if kind == 'bigf8':
        return a.astype('>f8')
    if kind == 'fortran':
        return np.asfortranarray(a.copy())
    if kind == 'strided':
        b = np.full(tuple(2 * s for s in a.shape), 7., dtype=np.float32)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if kind == 'negstride':
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return a[sl].copy()[sl]
    if kind == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == 'longdouble':
        return a.astype(np.longdouble)
    if kind == 'column' and a.shape[-1] > 1:
        # (a Column of one number loses its axis in numpy expressions)
        import astropy.table
        return astropy.table.Column(a.copy())
    return a.copy().T.copy().T


# ------------------------------------------------- models made beforehand

class _Plain(object):
    pass


def model_conf(c):
    """Reference model of a configuration, from what goes into the
    constructor and before it runs."""
    p = _Plain()
    t = c['templates']
    p.templates = t
    default = {'KcorrectSDSS': SDSS, 'KcorrectGST': GST}.get(c['cls'])
    p.responses = list(c.get('responses', default))
    p.responses_out = list(c.get('responses_out', p.responses))
    p.responses_map = list(c.get('responses_map', p.responses))
    p.redshift_range = c['redshift_range']
    p.nredshift = c['nredshift']
    p.cosmo = c['cosmo'] if c.get('cosmo') is not None else astropy.cosmology.Planck18
    m = ref.Model(p, band)
    m.cls = c['cls']
    m.abcorrect = bool(c['abcorrect'])
    return m


def make(rng, obs=None, **kw):
    """configuration, model, object; registered with an observer if given"""
    c = conf(rng, **kw)
    m = model_conf(c)
    k = build(c)
    if obs is not None:
        obs.register(k, m)
    return c, m, k
