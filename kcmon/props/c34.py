"""C34 Survey photometry comes out as documented, end to end."""
import io
import os
import runpy
import sys
import types

import numpy as np
import scipy.optimize
from astropy.io import fits

from .. import boot, digest, gen, observe, ref, work

kc = gen.kc
RULE = ('A case draws galaxies from the bundled survey catalogue in random order and storage, takes '
        'them through a documented way to use the package (GALEX, SDSS and 2MASS units, zero '
        'points, extinction, error floors; fits, K-corrections, magnitudes, stellar quantities), '
        'and judges photometry, every call and the final numbers against an independent '
        'calculation in double precision, and against the same galaxies in another order, '
        'storage, grouping or route; or runs a program of bin/ on them and reads its figures. '
        'Distinct by route, galaxies and configuration.')
ASSUMPTIONS = ['zero points, extinction coefficients and floors are those of bin/k_plot_test_gst',
               'the documented ranges are those its figures show',
               'the programs read their tables with fitsio, replaced by a stand-in over astropy']
MIN_EVENTS = {'galaxies': 900, 'fits': 40, 'kcorrections': 40, 'absmags': 40, 'derived': 20,
              'photometry': 20000, 'end_to_end': 900, 'unweighted': 200, 'programs': 6,
              'figures': 8, 'in_range': 600}
P = ['C01', 'C04', 'C07', 'C08', 'C09', 'C10', 'C11']
CAT = os.path.join(gen.DATADIR, 'test', 'gst_tests_small.fits')
ZP = np.array([18.82, 20.08])
RED = np.array([8.29, 8.18, 5.155, 3.793, 2.751, 2.086, 1.479, 0.902, 0.576, 0.367])
FLOOR = np.array([0.03, 0.03, 0.02, 0.02, 0.02, 0.02, 0.02, 0.04, 0.04, 0.04])
# K-corrections and residuals the figures of bin/k_plot_test_gst show
KRANGE = np.array([[-0.5, 1.31], [-0.5, 1.31], [-0.2, 1.51], [-0.1, 1.05], [-0.12, 0.46],
                   [-0.29, 0.32], [-0.18, 0.29], [-0.18, 0.19], [-0.18, 0.19], [-0.58, 0.09]])
DRANGE = np.array([1.3, 1.1, 0.4, 0.2, 0.15, 0.15, 0.15, 0.5, 0.5, 0.5])
_cat = []


def catalogue():
    if not _cat:
        with fits.open(CAT) as h:
            _cat.append(np.array(h[1].data))
    return _cat[0]


def draw(rng, n):
    """n galaxies, with those that have ultraviolet photometry more often."""
    g = catalogue()
    uv = np.nonzero((g['FUV_FLUX_AUTO'] > 0.) | (g['NUV_FLUX_AUTO'] > 0.))[0]
    odd = np.nonzero((g['MODELFLUX'] <= 0.).any(axis=1) | (g['PETROFLUX'] <= 0.).any(axis=1) |
                     (g['H_M_EXT'] == 0.) | (g['J_M_EXT'] == 0.) | (g['Z'] > 0.35))[0]
    i = rng.integers(len(g), size=n)
    u = rng.random(n)
    i = np.where(u < 0.35, uv[rng.integers(len(uv), size=n)], i)
    i = np.where((u > 0.35) & (u < 0.5), odd[rng.integers(len(odd), size=n)], i)
    return g[i]


_v2a = {}


def vega2ab(name):
    if name not in _v2a:
        v, s, info = ref.project(ref.basel_sed(gen.DATADIR, 'vega'), gen.band(name))
        _v2a[name] = float(ref.mag(v[0]))
    return _v2a[name]


# ------------------------------------------------------------- photometry

def photometry(g, ab=True, floor=True, extinction=True, flux='MODELFLUX', sdss=False):
    """maggies, ivar [n, 10] (or [n, 5]) of catalogue rows, in float64."""
    m = np.zeros((len(g), 10))
    v = np.zeros((len(g), 10))
    d = dict((n, np.asarray(g[n], dtype=np.float64)) for n in g.dtype.names)
    for i, n in enumerate(('FUV', 'NUV')):
        f, e = d[n + '_FLUX_AUTO'], d[n + '_FLUXERR_AUTO']
        ok = (f != -99.) & (f != 0.) & (e != -99.) & (e != 0.)
        s = 10.**(-0.4 * ZP[i])
        m[ok, i] = f[ok] * s
        v[ok, i] = 1. / (e[ok] * s)**2
    a, b = d[flux], d[flux + '_IVAR']
    if ab:
        a, b = ref.ab_correct(a, b)
    m[:, 2:7] = a * 1.e-9
    v[:, 2:7] = b * 1.e+18
    for i, (n, r) in enumerate((('J', 'twomass_J'), ('H', 'twomass_H'), ('K', 'twomass_Ks'))):
        x, e = d[n + '_M_EXT'], d[n + '_MSIG_EXT']
        ok = (x != 0.) & (e > 0.)
        m[ok, 7 + i] = 10.**(-0.4 * (x[ok] + vega2ab(r)))
        v[ok, 7 + i] = 1. / (m[ok, 7 + i] * np.log(10.) / 2.5 * e[ok])**2
    if extinction:
        x = d['EXTINCTION'][:, [2]] * (RED / RED[4])
        m = m * 10.**(0.4 * x)
        v = v * 10.**(-0.8 * x)
    if floor:
        with np.errstate(all='ignore'):
            e = np.sqrt(1. / v) / np.abs(m)
            low = (v > 0.) & (m != 0.) & (e < FLOOR)
            v = np.where(low, 1. / (FLOOR * m)**2, v)
    if sdss:
        return m[:, 2:7], v[:, 2:7]
    return m, v


def users(g, rng, ab=True, f=lambda x: x, dtype=np.float32):
    """The same with the functions of the package."""
    rd = kc.response.ResponseDict()
    for n in ('twomass_J', 'twomass_H', 'twomass_Ks'):
        rd.load_response(n)
    m = np.zeros((len(g), 10), dtype=dtype)
    v = np.zeros((len(g), 10), dtype=dtype)
    for i, n in enumerate(('FUV', 'NUV')):
        x, e = g[n + '_FLUX_AUTO'], g[n + '_FLUXERR_AUTO']
        ok = (x != -99.) & (x != 0.) & (e != -99.) & (e != 0.)
        m[ok, i] = x[ok] * 10.**(-0.4 * ZP[i])
        v[ok, i] = 1. / (x[ok] * 0. + e[ok] * 10.**(-0.4 * ZP[i]))**2
    if ab:
        a, b = kc.utils.sdss_ab_correct(maggies=f(g['MODELFLUX']), ivar=f(g['MODELFLUX_IVAR']))
    else:
        a, b = g['MODELFLUX'], g['MODELFLUX_IVAR']
    m[:, 2:7] = np.asarray(a) * 1.e-9
    v[:, 2:7] = np.asarray(b) * 1.e+18
    for i, (n, r) in enumerate((('J', 'twomass_J'), ('H', 'twomass_H'), ('K', 'twomass_Ks'))):
        x, e = g[n + '_M_EXT'], g[n + '_MSIG_EXT']
        ok = (x != 0.) & (e > 0.)
        m[ok, 7 + i] = 10.**(-0.4 * (x[ok] + rd[r].vega2ab))
        v[ok, 7 + i] = 1. / (m[ok, 7 + i] * np.log(10.) / 2.5 * e[ok])**2
    red = np.array(RED, dtype=dtype)
    red = red / red[4]
    for i in range(10):
        m[:, i] = m[:, i] * 10.**(0.4 * g['EXTINCTION'][:, 2] * red[i])
        v[:, i] = v[:, i] * 10.**(-0.8 * g['EXTINCTION'][:, 2] * red[i])
    v = kc.utils.error_floor(floor=np.array(FLOOR, dtype=dtype), maggies=f(m), ivar=f(v))
    return m, np.asarray(v)


def fit64(m, z, mg, iv):
    """Weights by definition, in float64: [n, nsed]; and how well determined
    the photometry of the model is."""
    out = np.zeros((len(z), m.nsed))
    for i in range(len(z)):
        if not m.inside(float(z[i])):
            continue
        A, _ = m.A(float(z[i]))
        w = np.sqrt(iv[i])
        s = np.sqrt(((A * w[:, None])**2).sum(axis=0))
        s = np.where(s > 0., s, 1.)
        b = mg[i] * w
        nb = np.sqrt((b**2).sum()) or 1.
        try:
            x, r = scipy.optimize.nnls(A * w[:, None] / s, b / nb, maxiter=1000)
            out[i] = x * nb / s
        except RuntimeError:
            out[i] = np.nan
    return out


def end_to_end(mon, m, z, mg, iv, k_got, mag_got, mass_got, what, band_shift=0., where=None):
    """K-corrections, magnitudes and masses of photometry, independently of
    every step of the code.  `iv` decides how firmly the weights are fixed, so
    only the bulk of the galaxies has to agree closely."""
    c = fit64(m, z, mg, iv)
    ok = np.isfinite(c).all(axis=1) & (c.sum(axis=1) > 0.)
    k, tol, dec = observe.Observer(mon, []).expect_k(m, z, c, band_shift)
    dk = np.abs(np.asarray(k_got, dtype=np.float64) - k)
    sel = ok[:, None] & dec & np.isfinite(k)
    mon.event('end_to_end', int(ok.sum()))
    if sel.sum() < 20:
        return c
    mon.check(np.percentile(dk[sel], 90) < 3e-3, what + ': K-corrections end to end',
              percentiles=np.percentile(dk[sel], [50, 90, 99, 100]))
    mon.check(np.median(dk[sel]) < 2e-4, what + ': K-corrections end to end (typical)',
              percentiles=np.percentile(dk[sel], [50, 90, 99, 100]))
    dm = ref.distmod(m.cosmo, z)
    if mag_got is not None:
        mm, vv = mg[:, m.map], iv[:, m.map]
        det = sel & (mm > 0.) & (vv > 0.)
        with np.errstate(all='ignore'):
            d = np.abs(np.asarray(mag_got, dtype=np.float64) - (ref.mag(mm) - dm[:, None] - k))
        if det.sum() > 20:
            mon.check(np.percentile(d[det], 90) < 4e-3 and np.median(d[det]) < 4e-4,
                      what + ': absolute magnitudes end to end',
                      percentiles=np.percentile(d[det], [50, 90, 99, 100]))
    if mass_got is not None:
        ms = c.dot(m.mremain) * 10.**(0.4 * dm)
        with np.errstate(all='ignore'):
            d = np.abs(np.log10(np.asarray(mass_got, dtype=np.float64) / ms))[ok]
        mon.check(np.percentile(d, 80) < 1e-2 and np.median(d) < 5e-4,
                  what + ': stellar masses end to end',
                  percentiles=np.percentile(d, [50, 80, 99, 100]))
    return c


def stored(rng, g):
    """The catalogue rows as users hold them."""
    u = int(rng.integers(4))
    if u == 0:
        return g.copy()
    if u == 1:
        return g.astype(g.dtype.newbyteorder('='))
    if u == 2:
        import astropy.table
        return astropy.table.Table(g).as_array()
    b = np.zeros(2 * len(g), dtype=g.dtype)
    b[::2] = g
    return b[::2]


# ---------------------------------------------------------------- families

def survey(rng, mon):
    n = int(rng.integers(25, 60))
    g = draw(rng, n)
    nz = int(rng.choice([30, 60, 120]))
    zr = [0., float(rng.choice([0.6, 0.6, 0.8]))]
    ab = bool(rng.random() < 0.35)
    kw = dict(redshift_range=zr, nredshift=nz, abcorrect=ab)
    route = str(rng.choice(['class', 'list', 'ubv']))
    if route == 'class':
        k = kc.kcorrect.KcorrectGST(**kw)
    elif route == 'list':
        ab = kw['abcorrect'] = False
        k = kc.kcorrect.Kcorrect(responses=list(gen.GST), **kw)
    else:
        out = ['bessell_U', 'bessell_B', 'bessell_V', 'bessell_R']
        k = kc.kcorrect.KcorrectGST(responses_out=out,
                                    responses_map=['sdss_u0', 'sdss_g0', 'sdss_r0', 'sdss_i0'],
                                    **kw)
    m = gen.model(k)
    m.cls, m.abcorrect = type(k).__name__, ab
    gs = stored(rng, g)
    f = (lambda x: gen.form(rng, x)) if rng.random() < 0.4 else (lambda x: x)
    before = digest.digest(gs)
    dtype = [np.float32, np.float32, np.float64][int(rng.integers(3))]
    mg, iv = users(gs, rng, ab=not ab, f=f, dtype=dtype)
    mon.check(digest.digest(gs) == before, 'preparing photometry changed the catalogue')
    # the photometry
    m64, v64 = photometry(g)
    if not ab:
        mon.close(mg, m64, 'maggies of the catalogue', rtol=2e-5)
        mon.close(iv, v64, 'inverse variances of the catalogue', rtol=6e-5)
    else:
        r64, w64 = photometry(g, ab=False)
        mon.close(mg, r64, 'maggies of the catalogue', rtol=2e-5)
        mon.close(iv, w64, 'inverse variances of the catalogue', rtol=6e-5)
    mon.event('photometry', mg.size + iv.size)
    mon.event('galaxies', n)
    z = gs['Z']
    b = float(rng.choice([0., 0., 0.1]))
    d = None if rng.random() < 0.6 else np.float32(10.**(0.2 * (ref.distmod(
        k.cosmo, np.float64(z)) - 25.)))
    with observe.Observer(mon, P) as obs:
        obs.register(k, m)
        c = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv)
        kk = k.kcorrect(redshift=z, coeffs=c, band_shift=b)
        am, lim = k.absmag(redshift=z, maggies=mg, ivar=iv, coeffs=c, band_shift=b, limit=True,
                           distance=d)
        der = k.derived(redshift=z, coeffs=c, band_shift=b, distance=d)
        rm = k.reconstruct(redshift=z, coeffs=c)
    z64 = np.float64(np.float32(z))
    end_to_end(mon, m, z64, m64, v64, kk, am, der['mremain'], 'catalogue', b)
    ranges(mon, m, z64, m64, v64, kk, rm, c, der, b, route != 'ubv')
    # what has no weight has no influence
    un = np.asarray(iv) == 0.
    if un.any():
        mg2 = np.array(mg)
        mg2[un] = np.float32(rng.choice([0., -1e-8, 3e-7, 1e-4])) * (1. + rng.random(un.sum()))
        c2 = k.fit_coeffs(redshift=z, maggies=mg2, ivar=iv)
        mon.close(c2, c, 'photometry without weight changed a fit', rtol=1e-6,
                  atol=1e-9 * np.abs(c).max())
        am2 = k.absmag(redshift=z, maggies=mg2, ivar=iv, coeffs=c, band_shift=b, distance=d)
        mon.same(am2, am, 'photometry without weight changed a magnitude')
        mon.event('unweighted', int(un.sum()))
    # other orders, groups and storage
    o = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    ws = dict(fit=True)
    al = work.allowances(m, np.array(z), np.array(mg), np.array(iv), c, b, 0., d)
    full = work.results(k, m, z, mg, iv, c, b, 0., d, **ws)
    dd = None if d is None else d[o]
    part = work.results(k, m, np.asarray(z)[o], np.asarray(mg)[o], np.asarray(iv)[o], c[o], b, 0.,
                        dd, f=lambda x: gen.form(rng, x), **ws)
    cab = dict(cls=m.cls, abcorrect=m.abcorrect)
    fm, fv = gen.to_ab_ref(cab, np.asarray(mg)[o], np.asarray(iv)[o])
    work.agree(mon, m, part, work.rows(full, o), work.sub_allow(al, o), np.asarray(z)[o],
               np.asarray(mg)[o], np.asarray(iv)[o], 'galaxies in another order', fitted=(fm, fv))
    i = int(rng.integers(n))
    one = work.results(k, m, float(z[i]), np.asarray(mg)[i], np.asarray(iv)[i], c[i], b, 0.,
                       None if d is None else float(d[i]), **ws)
    fm, fv = gen.to_ab_ref(cab, np.asarray(mg)[i], np.asarray(iv)[i])
    work.agree(mon, m, one, work.rows(full, i), work.sub_allow(al, i), z64[i],
               np.asarray(mg)[i], np.asarray(iv)[i], 'one galaxy', fitted=(fm, fv))
    mon.key(route, ab, nz, b, d is None, g['RA'].tolist())
    mon.note(route=route, galaxies=n, abcorrect=ab)


def ranges(mon, m, z, mg, iv, kk, rm, c, der, b, native):
    """What the figures of the programs show of every such galaxy."""
    low = z < 0.26
    if native and b == 0.:
        kk = np.asarray(kk)
        inside = ((kk > KRANGE[:, 0]) & (kk < KRANGE[:, 1]))[low]
        mon.event('in_range', inside.size)
        mon.check(inside.mean() > 0.985, 'K-corrections outside the documented ranges',
                  fraction=inside.mean(axis=0))
    det = (mg > 0.) & (iv > 0.) & (np.asarray(rm) > 0.)
    with np.errstate(all='ignore'):
        d = -2.5 * np.log10(mg / np.asarray(rm, dtype=np.float64))
    near = (np.abs(d) < DRANGE)[:, 3:7][det[:, 3:7]]
    mon.event('in_range', near.size)
    mon.check(near.mean() > 0.93, 'the fits do not reproduce the photometry',
              fraction=near.mean(), of=int(near.size))
    mass = np.log10(np.asarray(der['mremain'], dtype=np.float64)[low])
    mon.check(mass.size == 0 or ((mass > 8.3) & (mass < 12.5)).mean() > 0.94,
              'stellar masses of survey galaxies', masses=mass)


def units(rng, mon):
    """SDSS galaxies: nanomaggies, maggies, asinh magnitudes and the class
    that corrects them give the same galaxies."""
    n = int(rng.integers(20, 50))
    g = draw(rng, n)
    flux = str(rng.choice(['MODELFLUX', 'PETROFLUX']))
    kw = dict(redshift_range=[0., 0.6], nredshift=int(rng.choice([40, 80])))
    ka = kc.kcorrect.KcorrectSDSS(**kw)
    kb = kc.kcorrect.KcorrectSDSS(abcorrect=False, **kw)
    kn = kc.kcorrect.Kcorrect(responses=list(gen.SDSS), **kw)
    m = gen.model(ka)
    m.cls, m.abcorrect = 'KcorrectSDSS', True
    z = g['Z']
    z64 = np.float64(np.float32(z))
    ext = g['EXTINCTION']
    nm = g[flux] * 10.**(0.4 * ext)
    nv = g[flux + '_IVAR'] * 10.**(-0.8 * ext)
    with observe.Observer(mon, P) as obs:
        obs.register(ka, m)
        ca = ka.fit_coeffs(redshift=z, maggies=nm * 1e-9, ivar=nv * 1e18)
        ma, mv = kc.utils.sdss_ab_correct(maggies=nm * 1e-9, ivar=nv * 1e18)
        cb = kb.fit_coeffs(redshift=z, maggies=ma, ivar=mv)
        cn = kn.fit_coeffs(redshift=z, maggies=ma, ivar=mv)
        # weights in the units of the fluxes
        cu = ka.fit_coeffs(redshift=z, maggies=nm, ivar=nv)
        res = []
        for k, c, x, v in ((ka, ca, nm * 1e-9, nv * 1e18), (kb, cb, ma, mv), (kn, cn, ma, mv),
                           (ka, cu, nm, nv)):
            kk = k.kcorrect(redshift=z, coeffs=c, band_shift=0.1)
            am = k.absmag(redshift=z, maggies=x, ivar=v, coeffs=c, band_shift=0.1)
            res.append((kk, am, k.derived(redshift=z, coeffs=c)['mremain']))
    a64, v64 = ref.ab_correct(np.float64(nm) * 1e-9, np.float64(nv) * 1e18)
    mon.close(ma, a64, 'maggies in AB', rtol=2e-6)
    mon.close(mv, v64, 'inverse variances in AB', rtol=4e-6)
    mon.event('photometry', 2 * ma.size)
    mon.event('galaxies', n)
    for c, what in ((cb, 'corrected beforehand'), (cn, 'the general class'),
                    (np.asarray(cu) * 1e-9, 'nanomaggies')):
        work.same_fit(mon, m, z, a64, v64, ca, c, 'fits differ: ' + what)
    for (kk, am, ms), s, what in zip(res, (1., 1., 1., 1e9),
                                     ('SDSS class', 'corrected beforehand', 'general class',
                                      'nanomaggies')):
        am = np.where(am == -9999., am, am + 2.5 * np.log10(s))
        end_to_end(mon, m, z64, a64, v64, kk, am, ms / s, what, 0.1)
    # asinh magnitudes of the same fluxes
    b = ref.B0
    mags = ref.asinh_mag(np.float64(nm) * 1e-9)
    err = 2.5 / np.log(10.) / np.sqrt(np.float64(nv) * 1e18) / (2. * b) / \
        np.sqrt(1. + (np.float64(nm) * 1e-9 / (2. * b))**2)
    ga, gv = kc.utils.sdss_asinh_to_maggies(mag=mags, mag_err=err)
    mon.close(ga, np.float64(nm) * 1e-9, 'maggies of asinh magnitudes', rtol=3e-5,
              atol=3e-6 * b)
    mon.close(gv, np.float64(nv) * 1e18, 'inverse variances of asinh magnitudes', rtol=2e-4)
    mon.event('photometry', 2 * ma.size)
    cc = ka.fit_coeffs(redshift=z, maggies=ga, ivar=gv)
    work.same_fit(mon, m, z, a64, v64, ca, cc, 'fits of asinh magnitudes differ')
    mon.key(flux, kw['nredshift'], g['RA'].tolist())
    mon.note(flux=flux, galaxies=n)


def examples(rng, mon):
    """The examples of the documentation, on other galaxies, as lists."""
    n = int(rng.integers(2, 6))
    g = draw(rng, n)
    nz = int(rng.choice([100, 200]))
    kw = dict(redshift_range=[0., 1.], nredshift=nz)
    mg, iv = photometry(g, sdss=True)
    k5 = kc.kcorrect.Kcorrect(responses=list(gen.SDSS), **kw)
    k4 = kc.kcorrect.Kcorrect(responses=list(gen.SDSS[:4]), **kw)
    ku = kc.kcorrect.Kcorrect(responses=list(gen.SDSS),
                              responses_out=['bessell_U', 'bessell_B', 'bessell_V'],
                              responses_map=['sdss_r0', 'sdss_i0', 'sdss_z0'], **kw)
    z = [float(np.float32(x)) for x in g['Z']]
    with observe.Observer(mon, P + ['C12', 'C13']):
        # one object
        m1, v1 = [float(x) for x in mg[0]], [float(x) for x in iv[0]]
        c = k5.fit_coeffs(redshift=z[0], maggies=m1, ivar=v1)
        kk = k5.kcorrect(redshift=z[0], coeffs=c)
        mon.check(c.shape == (5,) and kk.shape == (5,), 'shapes of one object')
        r = k5.reconstruct(redshift=z[0], coeffs=c)
        w = k5.templates.restframe_wave * (1. + z[0])
        s = c.dot(k5.templates.restframe_flux) / (1. + z[0])
        rd = kc.response.ResponseDict()
        p = [float(rd[x].project(wave=w, flux=s)) for x in gen.SDSS]
        # (up to the linear interpolation in redshift)
        mon.close(r, p, 'the spectrum of the model has other fluxes', rtol=2e-2)
        cu = ku.fit_coeffs(redshift=z[0], maggies=m1, ivar=v1)
        mon.check(ku.kcorrect(redshift=z[0], coeffs=cu).shape == (3,) and
                  ku.absmag(redshift=z[0], maggies=m1, ivar=v1, coeffs=cu).shape == (3,),
                  'shapes with output bands')
        # several
        m4, v4 = mg[:, :4].tolist(), iv[:, :4].tolist()
        c = k4.fit_coeffs(redshift=z, maggies=m4, ivar=v4)
        mon.check(c.shape == (n, 5) and k4.kcorrect(redshift=z, coeffs=c).shape == (n, 4),
                  'shapes of several objects')
        k4.derived(redshift=z, coeffs=c)
        k4.absmag(redshift=z, maggies=m4, ivar=v4, coeffs=c, reconstruct=True)
        # a flux below zero
        i = int(rng.integers(n))
        m4[i][0] = -abs(m4[i][0]) * float(rng.uniform(0.01, 1.)) - 1e-10
        c = k4.fit_coeffs(redshift=z, maggies=m4, ivar=v4)
        a, l = k4.absmag(redshift=z, maggies=m4, ivar=v4, coeffs=c, limit=True)
        mon.check(a[i, 0] == -9999. and l[i, 0] != -9999. and (a != -9999.).sum() == (
            np.array(m4) > 0.).sum(), 'a negative flux', absmag=a, limits=l)
        # nothing known about a band
        v4[i][0] = v4[i][1] = 0.
        c = k4.fit_coeffs(redshift=z, maggies=m4, ivar=v4)
        a, l = k4.absmag(redshift=z, maggies=m4, ivar=v4, coeffs=c, limit=True)
        mon.check(a[i, 0] == a[i, 1] == l[i, 0] == l[i, 1] == -9999. and a[i, 2] != -9999.,
                  'bands without weight', absmag=a, limits=l)
        nmc = int(rng.choice([5, 20]))
        c, cmc, mmc = k4.fit_coeffs(redshift=z, maggies=mg[:, :4].tolist(), ivar=v4, mc=nmc)
        mon.check(c.shape == (n, 5) and cmc.shape == (n, 5, nmc) and mmc.shape == (n, 4, nmc),
                  'shapes of Monte Carlo')
        amc = k4.absmag_mc(redshift=z, maggies_mc=mmc, ivar=v4, coeffs_mc=cmc)
        mon.check(amc.shape == (n, 4, nmc), 'shapes of Monte Carlo magnitudes')
        err = amc.std(axis=2, where=(amc != -9999.))
        e = 2.5 / np.log(10.) / np.sqrt(np.array(v4)) / np.array(mg[:, :4])
        good = (np.array(v4) > 0.) & (e > 0.) & (e < 0.03) & (c.sum(axis=1) > 0.)[:, None]
        mon.check((err[good] < 0.4).all(), 'Monte Carlo errors of good photometry', errors=err)
    mon.event('galaxies', n)
    mon.key(n, nz, nmc, g['RA'].tolist())
    mon.note(galaxies=n)


# ---------------------------------------------------------------- programs

PROGRAMS = ['gst', 'sdss', 'mtol', 'v4_default_fit', 'v4_lrg1_colors', 'v4_lrg1_fit']
FIGURES = {'gst': 4, 'sdss': 4, 'mtol': 2}


def _tables(rng, g):
    """What fitsio.read gives the programs."""
    def read(filename, *args, **kw):
        name = os.path.basename(str(filename))
        if name.startswith('gst'):
            mine = os.path.realpath(filename)
            if mine != os.path.realpath(CAT):
                raise OSError('no such catalogue: ' + str(filename))
            return g.copy()
        if name.startswith('post'):
            t = np.zeros(len(g), dtype=[('Z', '>f4'), ('OBJECT_POSITION', '>i4')])
            t['Z'] = g['Z']
            t['OBJECT_POSITION'] = perm
            return t
        if name.startswith('object'):
            t = np.zeros(len(g), dtype=g.dtype)
            t[perm] = g
            return t
        raise OSError(filename)
    perm = rng.permutation(len(g))
    return types.SimpleNamespace(read=read)


def _shown(fig):
    """The points and curves of every axes of a figure."""
    out = []
    for ax in fig.get_axes():
        pts = [np.asarray(c.get_offsets(), dtype=np.float64) for c in ax.collections]
        lines = [np.asarray(x.get_xydata(), dtype=np.float64) for x in ax.get_lines()]
        out.append((pts, lines, ax.get_xlim(), ax.get_ylim(), ax.get_ylabel()))
    return out


def programs(rng, mon, index=None):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    name = PROGRAMS[mon.index % len(PROGRAMS)]
    n = int(rng.integers(60, 120))
    g = draw(rng, n)
    path = os.path.join(boot.REPO, 'bin', 'k_plot_test_' + name)
    d = gen.scratch('prog')
    os.makedirs(d)
    had = sys.modules.get('fitsio')
    cwd, argv = os.getcwd(), sys.argv
    rc = dict(matplotlib.rcParams)
    saved = {}
    orig = Figure.savefig

    def savefig(fig, fname, *args, **kw):
        saved.setdefault(os.path.basename(str(fname)), []).append(_shown(fig))
        return orig(fig, fname, *args, **kw)
    said = io.StringIO()
    out = sys.stdout
    try:
        os.chdir(d)
        sys.modules['fitsio'] = _tables(rng, g)
        sys.argv = [path]
        sys.stdout = said
        Figure.savefig = savefig
        with observe.Observer(mon, P):
            runpy.run_path(path, run_name='__main__')
    finally:
        Figure.savefig = orig
        sys.stdout = out
        sys.argv = argv
        os.chdir(cwd)
        if had is None:
            sys.modules.pop('fitsio', None)
        else:
            sys.modules['fitsio'] = had
        plt.close('all')
        with np.errstate(all='ignore'):
            matplotlib.rcParams.update(rc)
    pngs = sorted(x for x in os.listdir(d) if x.endswith('.png'))
    mon.check(len(pngs) == FIGURES.get(name, 1), name + ': figures', figures=pngs)
    for x in pngs:
        im = plt.imread(os.path.join(d, x))
        mon.check(im.size > 1000 and im.std() > 0., name + ': an empty figure', figure=x)
        mon.check(x in saved, 'figure not seen')
        mon.event('figures')
    fig = dict((x, v[-1]) for x, v in saved.items())
    globals()['_fig_' + name](mon, g, fig)
    mon.event('programs')
    mon.event('galaxies', len(g))
    mon.key(name, g['RA'].tolist())
    mon.note(program=name, galaxies=len(g))


_full = {}


def full_model(names, out=None, omap=None, z=(0., 2.), nz=4000, lrg=False):
    """The model of an object with the default templates and grid."""
    key = (tuple(names), tuple(out or ()), tuple(z), nz)
    if key not in _full:
        from . import c29
        p = types.SimpleNamespace()
        p.templates = types.SimpleNamespace(**c29.v4())
        p.responses = list(names)
        p.responses_out = list(out or names)
        p.responses_map = list(omap or names)
        p.redshift_range, p.nredshift = list(z), nz
        import astropy.cosmology
        p.cosmo = astropy.cosmology.Planck18
        _full[key] = ref.Model(p, gen.band)
    return _full[key]


def _named(fig, end):
    x = [v for n, v in fig.items() if n.endswith(end)]
    return x[0] if len(x) == 1 else None


def _panels(mon, shown, nb, z, want, what, tol=(2e-4, 3e-3), sel=None):
    """Panels of points (z, value of band i), in any order of points."""
    mon.check(shown is not None and len(shown) >= nb, what + ': panels')
    for i in range(nb):
        pts = shown[i][0]
        mon.check(len(pts) == 1, what + ': a panel', points=len(pts))
        p = pts[0]
        ok = np.isfinite(want[:, i]) & (np.ones(len(z), bool) if sel is None else sel[:, i])
        p = p[np.isfinite(p).all(axis=1)]
        mon.check(len(p) >= ok.sum() - 0.1 * len(z) - 1, what + ': galaxies missing in a panel',
                  shown=len(p), of=int(ok.sum()), panel=i)
        if ok.sum() < 8:
            continue
        # each galaxy by its redshift
        d = []
        for zi, wi in zip(z[ok], want[ok, i]):
            near = np.abs(p[:, 0] - zi) < 1e-6
            mon.check(near.any(), what + ': a galaxy is not shown', redshift=zi, panel=i)
            d.append(np.abs(p[near, 1] - wi).min())
        mon.check(np.median(d) < tol[0] and np.percentile(d, 85) < tol[1],
                  what + ': shows other values', panel=i,
                  percentiles=np.percentile(d, [50, 85, 100]))
        mon.event('end_to_end', len(d))


def _fig_gst(mon, g, fig):
    m = full_model(gen.GST)
    z = np.float64(g['Z'])
    mg, iv = photometry(g)
    c = fit64(m, z, mg, iv)
    k, _, _ = observe.Observer(mon, []).expect_k(m, z, c, 0.)
    _panels(mon, _named(fig, '.gst.png'), 10, z, k, 'K-correction figure')
    rm, _ = m.maggies(z, c)
    with np.errstate(all='ignore'):
        d = np.where((mg > 0.) & (rm > 0.), ref.mag(mg / rm), np.nan)
    _panels(mon, _named(fig, 'deltam.png'), 10, z, d, 'residual figure', tol=(1e-3, 1e-2))
    _panels(mon, _named(fig, 'deltac.png'), 9, z, d[:, :-1] - d[:, 1:], 'colour figure',
            tol=(2e-3, 1.5e-2))
    _mtol(mon, _named(fig, 'mtolv.png'), z, c, mg, 3)


def _mtol(mon, shown, z, c, mg, ig):
    """M/L against B-V, in the Vega system."""
    mon.check(shown is not None and len(shown) == 1, 'M/L figure')
    pts = shown[0][0][0]
    m = full_model(['sdss_g0', 'sdss_r0'], ['bessell_B', 'bessell_V'])
    o = observe.Observer(mon, [])
    k, _, _ = o.expect_k(m, z, c, 0.)
    vo, _ = m.maggies(np.zeros_like(z), c, out=True)
    with np.errstate(all='ignore'):
        am = ref.mag(mg[:, ig:ig + 2]) - k
        bmv = am[:, 0] - am[:, 1] - vega2ab('bessell_B') + vega2ab('bessell_V')
        ml = np.log10(c.dot(m.mremain) / (vo[:, 1] / 10.**(-0.4 * observe._solar('bessell_V'))))
        ml = ml - 0.4 * vega2ab('bessell_V')
    ok = np.isfinite(bmv) & np.isfinite(ml)
    mon.check(abs(len(pts) - ok.sum()) <= 0.05 * len(z) + 1, 'M/L figure: galaxies')
    d = []
    for x, y in zip(bmv[ok], ml[ok]):
        d.append(np.hypot(pts[:, 0] - x, pts[:, 1] - y).min())
    mon.check(np.median(d) < 1e-3 and np.percentile(d, 80) < 1e-2, 'M/L figure: other values',
              percentiles=np.percentile(d, [50, 80, 100]))
    # close to the relation that is drawn
    off = pts[:, 1] - (-0.734 + 1.404 * pts[:, 0])
    mon.check(abs(np.median(off)) < 0.25, 'M/L far from Bell & de Jong', median=np.median(off))
    mon.event('end_to_end', len(d))
    return bmv, ml, am


def _sdss(g, flux):
    ext = np.float64(g['EXTINCTION'])
    return ref.ab_correct(np.float64(g[flux]) * 10.**(0.4 * ext),
                          np.float64(g[flux + '_IVAR']) * 10.**(-0.8 * ext))


def _fig_sdss(mon, g, fig):
    m = full_model(gen.SDSS)
    z = np.float64(g['Z'])
    mg, iv = _sdss(g, 'PETROFLUX')
    c = fit64(m, z, mg, iv)
    o = observe.Observer(mon, [])
    for end, b in (('.sdss.png', 0.), ('0.1.png', 0.1)):
        k, _, _ = o.expect_k(m, z, c, b)
        _panels(mon, _named(fig, end), 5, z, k, 'K-correction figure')
    rm, _ = m.maggies(z, c)
    with np.errstate(all='ignore'):
        d = np.where((mg > 0.) & (rm > 0.), ref.mag(mg / rm), np.nan)
    _panels(mon, _named(fig, 'deltam.png'), 5, z, d, 'residual figure', tol=(1e-3, 1e-2))
    _panels(mon, _named(fig, 'deltac.png'), 4, z, d[:, :-1] - d[:, 1:], 'colour figure',
            tol=(2e-3, 1.5e-2))


def _fig_mtol(mon, g, fig):
    m = full_model(gen.SDSS)
    g = g[np.float64(g['Z']) < 0.2]
    z = np.float64(g['Z'])
    mg, iv = _sdss(g, 'PETROFLUX')
    mg, iv = mg * 1e-9, iv * 1e18
    fl = np.array([0.05, 0.02, 0.02, 0.02, 0.03])
    with np.errstate(all='ignore'):
        low = (iv > 0.) & (mg != 0.) & (1. / np.sqrt(iv) < fl * np.abs(mg))
        iv = np.where(low, 1. / (fl * mg)**2, iv)
    c = fit64(m, z, mg, iv)
    bmv, ml, am = _mtol(mon, _named(fig, 'mtolv.png'), z, c, mg, 1)
    shown = _named(fig, 'masses.png')
    mon.check(shown is not None and len(shown) >= 1, 'mass figure')
    pts = shown[0][0][0]
    dm = ref.distmod(m.cosmo, z)
    mass = np.log10(c.dot(m.mremain)) + 0.4 * dm
    d = []
    for x, y in zip(am[:, 1] - dm, mass):
        if np.isfinite(x) and np.isfinite(y):
            d.append(np.hypot(pts[:, 0] - x, pts[:, 1] - y).min())
    mon.check(np.median(d) < 1e-3 and np.percentile(d, 80) < 1e-2, 'mass figure: other values',
              percentiles=np.percentile(d, [50, 80, 100]))


def _lrg():
    with fits.open(os.path.join(gen.DATADIR, 'templates', 'kcorrect-lrg1-v4.fits')) as h:
        t = h['FLUX'].data
        w = np.array(t['wave'], dtype=np.float64).ravel()
        return w, np.array(t['flux'], dtype=np.float64).reshape(-1, w.size)


def _fig_fit(mon, fig, w, f):
    names = gen.SDSS + ['twomass_Ks', 'wise_w4']
    p = types.SimpleNamespace(templates=types.SimpleNamespace(restframe_wave=w,
                                                              restframe_flux=f),
                              responses=names, redshift_range=[0., 0.1], nredshift=100)
    m = ref.Model(p, gen.band)
    z = np.array([0.0532])
    mg, iv = np.ones((1, 7)), np.ones((1, 7))
    c = fit64(m, z, mg, iv)
    v, _ = m.maggies(z, c)
    le = np.array([ref.lambda_eff(gen.band(n).wave, gen.band(n).response) for n in names])
    shown = list(fig.values())[0]
    pts = [q for q in shown[0][0] if len(q) == 7]
    mon.check(len(pts) == 2, 'fit figure: points')
    for q in pts:
        o = np.argsort(q[:, 0])
        mon.close(q[o, 0], np.sort(np.log10(le)), 'fit figure: wavelengths', rtol=1e-5)
    got = [q for q in pts if np.abs(q[:, 1]).max() > 1e-6]
    mon.check(len(got) == 1, 'fit figure: fitted maggies')
    o = np.argsort(got[0][:, 0])
    mon.close(got[0][o, 1], np.log10(v[0])[np.argsort(le)], 'fit figure: fitted maggies',
              atol=2e-3, rtol=0.)
    lines = [x for x in shown[0][1] if len(x) > 100]
    mon.check(len(lines) == 1, 'fit figure: spectrum')
    x, y = lines[0].T
    with np.errstate(all='ignore'):
        want = np.log10(c[0].dot(f) / ref.ab_flux(w))
    ok = np.isfinite(want) & (want > -6)
    mon.close(x, np.log10(w), 'fit figure: wavelengths of the spectrum', rtol=2e-6)
    mon.close(y[ok], want[ok], 'fit figure: spectrum', rtol=0., atol=3e-3)
    mon.event('end_to_end', 7)


def _fig_v4_default_fit(mon, g, fig):
    from . import c29
    d = c29.v4()
    _fig_fit(mon, fig, np.float64(d['restframe_wave']), np.float64(d['restframe_flux']))


def _fig_v4_lrg1_fit(mon, g, fig):
    _fig_fit(mon, fig, *_lrg())


def _fig_v4_lrg1_colors(mon, g, fig):
    w, f = _lrg()
    spec = ref.Spec(w, f)
    shown = list(fig.values())[0]
    lines = [x for a in shown for x in a[1]]
    mon.check(len(lines) == 4, 'colour figure: curves')
    for i, (a, b) in enumerate(zip(gen.SDSS[:-1], gen.SDSS[1:])):
        xy = lines[i]
        mon.check(len(xy) == 1000, 'colour figure: redshifts')
        for j in range(7, len(xy), 61):
            z = xy[j, 0]
            c = ref.mag(ref.project(spec, gen.band(a), z)[0][0] /
                        ref.project(spec, gen.band(b), z)[0][0])
            mon.close(xy[j, 1], c, 'colour figure: ' + a + '-' + b, rtol=0., atol=3e-4, z=z)
    mon.event('end_to_end', 4)


FAMILIES = [
    ('programs', programs, 6, 60),
    ('survey', survey, 36, 500),
    ('units', units, 20, 300),
    ('examples', examples, 20, 300),
]
