"""C14 A saved K-correction object reloads to an equivalent one."""
import copy
import os
import subprocess
import sys

import numpy as np
from astropy.io import fits

from .. import boot, digest, gen, ref, work

RULE = ('A case builds a random object, perhaps uses it or redshifts its templates, saves it '
        '(to a new file, over another one, or over the one it was loaded from), loads it '
        '(constructor, fromfits of an existing object, a fresh process) and compares every '
        'documented attribute and every result. Distinct by class, sizes, layout, way of '
        'saving and loading.')
ASSUMPTIONS = ['the class that converts fluxes is not part of the file: objects of the SDSS '
               'classes are loaded into an object of their class',
               'the cosmology is not saved; it is set again',
               'names of bands are ASCII without trailing blanks (FITS has no others)']
MIN_EVENTS = {'reloads': 200, 'values_compared': 10000, 'overwrites': 40, 'fresh_processes': 3,
              'long_names': 30}


def state(k):
    s = digest.fitter_state(k)
    # stored as 32-bit floats
    s['redshift_range'] = np.float32(s['redshift_range'])
    s['abcorrect'] = bool(s['abcorrect'])
    s['nredshift'] = int(np.squeeze(s['nredshift']))
    s['responses_out'] = [str(x) for x in s['responses_out']]
    s['responses_map'] = [str(x) for x in s['responses_map']]
    s['responses'] = [str(x) for x in s['responses']]
    for n in ('templates.redshift', 'templates.wave', 'templates.flux'):
        s.pop(n, None)
    s.pop('templates.binimage', None)
    return s


def equal(mon, a, b, what):
    tol = {}
    for n in ('A', 'AOut'):
        x, y = a.pop(n), b.pop(n)
        mon.close(y, x, '{}: {}'.format(what, n), rtol=2e-6, atol=1e-7 * np.abs(x).max())
    bad = digest.same(a, b)
    mon.check(not bad, '{}: {} differ'.format(what, ', '.join(bad)),
              was=dict((n, a.get(n)) for n in bad), **dict(('now_' + n, b.get(n)) for n in bad))
    mon.event('values_compared', int(sum(np.size(v) for v in a.values())))
    return tol


def hdus(path):
    with fits.open(path, memmap=False) as h:
        return [(x.name, None if x.data is None else np.array(x.data)) for x in h]


def same_hdus(mon, a, b, what):
    mon.check([n for n, _ in a] == [n for n, _ in b], what + ': other contents',
              was=[n for n, _ in a], now=[n for n, _ in b])
    for (n, x), (_, y) in zip(a, b):
        mon.decisions += 1
        if x is None and y is None:
            continue
        ok = (x is not None and y is not None and x.shape == y.shape and x.dtype == y.dtype and
              x.tobytes() == y.tobytes())
        mon.check(ok, '{}: {} differs'.format(what, n))


def load(rng, c, path, m):
    """Through the constructor, or into an existing object."""
    cls = gen.kc.kcorrect
    if c['cls'] == 'Kcorrect' and rng.random() < 0.6:
        if rng.random() < 0.4:
            # what only the file may decide
            return cls.Kcorrect(filename=path, responses=['bessell_B'], nredshift=7,
                                redshift_range=[0.4, 0.5], abcorrect=not c['abcorrect'],
                                cosmo=c['cosmo'], responses_out=['bessell_V'],
                                responses_map=['bessell_B'])
        return cls.Kcorrect(filename=path, cosmo=c['cosmo'])
    o = dict(templates=gen.template(rng), redshift_range=[0., 0.1], nredshift=2,
             abcorrect=not c['abcorrect'], cosmo=c['cosmo'])
    if c['cls'] == 'Kcorrect':
        o['responses'] = ['bessell_B', 'bessell_V'][:int(rng.integers(1, 3))]
    k = getattr(cls, c['cls'])(**o)
    if rng.random() < 0.5 and k.templates.nsed > 0:
        k.fit_coeffs(redshift=0.05, maggies=np.ones(len(k.responses), dtype=np.float32),
                     ivar=np.ones(len(k.responses), dtype=np.float32))
    k.fromfits(path)
    return k


def _make(rng, **kw):
    if rng.random() < 0.3:
        # cool stars, far away: hardly any flux in the bluer bands
        kw = dict(kw, tmpl=gen.template(rng, cool=0.7), zmax=float(rng.choice([1., 2., 3.])))
    c = gen.conf(rng, lyman=bool(rng.random() < 0.2), **kw)
    if rng.random() < 0.3:
        c['templates'].set_redshift(float(rng.uniform(0.05, 1.)))
        # building sets it back
    m = gen.model_conf(c)
    return c, m, gen.build(c)


def compare(mon, rng, c, m, k, k2, what):
    n = int(rng.choice([1, 2, 4]))
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    b, bz = work.shift(rng, m), work.shift(rng, m, z)
    d = work.distance(rng, n) if rng.random() < 0.5 else None
    r1 = work.results(k, m, z, mg, iv, w, b, bz, d)
    r2 = work.results(k2, m, z, mg, iv, w, b, bz, d)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    work.agree(mon, m, r2, r1, al, z, mg, iv, what, fitted=gen.to_ab_ref(c, mg, iv), factor=0.5)
    np.random.seed(7)
    a1 = k.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=2)
    np.random.seed(7)
    a2 = k2.fit_coeffs(redshift=z, maggies=mg, ivar=iv, mc=2)
    mon.close(a2[2], a1[2], what + ': Monte Carlo maggies', rtol=1e-5,
              atol=1e-6 * float(np.abs(mg).max()))


def roundtrip(rng, mon):
    c, m, k = _make(rng)
    mon.note(**gen.describe(c))
    how = str(rng.choice(['new', 'over', 'self', 'chain']))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(m.responses_out), m.nz,
            bool(k.templates.binimage), how, c['abcorrect'])
    if rng.random() < 0.5:
        compare(mon, rng, c, m, k, k, 'itself')
    if rng.random() < 0.3:
        k.templates.set_redshift(float(rng.uniform(0.1, 1.)))
    before = state(k)
    extra = digest.attrs(k.templates, ('redshift', 'wave', 'flux', 'binimage'))
    path = gen.scratch('.fits')
    if how == 'over':
        # a file with other and larger contents
        c0 = gen.conf(rng, nsed=6, nz=31)
        k0 = gen.build(c0)
        if rng.random() < 0.5:
            # (or of the same size)
            k0 = copy.deepcopy(k)
            k0.templates.restframe_flux = k0.templates.restframe_flux * np.float32(2.)
            k0.templates.set_redshift(0.)
            k0.set_Amatrix()
        k0.tofits(path)
        if rng.random() < 0.5:
            # and read before
            gen.kc.kcorrect.Kcorrect(filename=path)
            gen.kc.template.Template(filename=path)
        mon.event('overwrites')
    with gen.Dated(rng, path):
        k.tofits(filename=path)
    bad = digest.same(extra, digest.attrs(k.templates, ('redshift', 'wave', 'flux', 'binimage')))
    mon.check(not bad, 'saving changed the templates: ' + ', '.join(bad))
    equal(mon, dict(before), state(k), 'saving changed the object')
    p2 = gen.scratch('.fits')
    k.tofits(filename=p2)
    same_hdus(mon, hdus(p2), hdus(path), 'the file depends on what was there')
    if rng.random() < 0.5:
        gen.RESP.ResponseDict().clear()
    k2 = load(rng, c, path, m)
    mon.event('reloads')
    equal(mon, dict(before), state(k2), 'the reloaded object')
    compare(mon, rng, c, m, k, k2, 'reloaded')
    if how in ('self', 'chain'):
        for i in range(2 if how == 'self' else 3):
            # over the file it was loaded from, or ever on
            q = path if how == 'self' else gen.scratch('.fits')
            k2.tofits(filename=q)
            mon.event('overwrites')
            equal(mon, dict(before), state(k2), 'saving over its own file changed the object')
            k3 = load(rng, c, q, m)
            mon.event('reloads')
            equal(mon, dict(before), state(k3), 'saved and loaded again')
            compare(mon, rng, c, m, k, k3, 'saved and loaded again')
            # the earlier object still works on
            compare(mon, rng, c, m, k, k2, 'after its file was replaced')
            a, b = hdus(q), hdus(p2)
            mon.check([n for n, _ in a] == [n for n, _ in b], 'repeated saving changes the file',
                      was=[n for n, _ in b], now=[n for n, _ in a])
            k2 = k3
    # a template set inside is one by itself
    t = gen.kc.template.Template(filename=path)
    mon.check(not digest.same(digest.attrs(t, ('restframe_wave', 'restframe_flux')),
                              digest.attrs(k.templates, ('restframe_wave', 'restframe_flux'))),
              'templates of the saved file')


CHILD = r'''
import sys
sys.path.insert(0, sys.argv[1])
import numpy as np
from kcmon import boot
boot.boot()
from kcmon import gen, work
import kcorrect.kcorrect
a = dict(np.load(sys.argv[3], allow_pickle=False))
k = kcorrect.kcorrect.Kcorrect(filename=sys.argv[2])
class M(object):
    def inside(self, z):
        return True
d = None if 'd' not in a else a['d']
r = work.results(k, M(), a['z'], a['mg'], a['iv'], a['w'], float(a['b']), float(a['bz']), d)
r = dict((n, np.asarray(v)) for n, v in r.items())
r['_responses'] = np.array([str(x) for x in k.responses])
r['_responses_out'] = np.array([str(x) for x in k.responses_out])
r['_responses_map'] = np.array([str(x) for x in k.responses_map])
r['_imap'] = np.asarray(k.imap)
r['_redshifts'] = np.asarray(k.redshifts)
r['_wave'] = np.asarray(k.templates.restframe_wave)
r['_flux'] = np.asarray(k.templates.restframe_flux)
np.savez(sys.argv[4], **r)
'''


def fresh(rng, mon):
    """Loaded in another process."""
    while True:
        c, m, k = _make(rng, cls='Kcorrect')
        if m.inside(0.):
            break
    c['cosmo'] = None
    k = gen.build(c)
    m = gen.model_conf(c)
    mon.note(**gen.describe(c))
    mon.key('fresh', c['_mode'], m.nsed, len(m.responses), m.nz)
    n = 3
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    b, bz = work.shift(rng, m), work.shift(rng, m, z)
    d = work.distance(rng, n) if rng.random() < 0.5 else None
    path, pin, pout = gen.scratch('.fits'), gen.scratch('.npz'), gen.scratch('out.npz')
    k.tofits(filename=path)
    a = dict(z=z, mg=mg, iv=iv, w=w, b=b, bz=bz)
    if d is not None:
        a['d'] = d
    np.savez(pin, **a)
    env = dict(os.environ, KCMON_REPO=boot.REPO)
    p = subprocess.run([sys.executable, '-c', CHILD, boot.VERIF, path, pin, pout],
                       capture_output=True, text=True, timeout=300, env=env, cwd='/')
    if p.returncode != 0 and '/kcorrect/' not in p.stderr:
        raise RuntimeError('child failed: ' + p.stderr[-2000:])
    mon.check(p.returncode == 0, 'a fresh process can not use the saved object',
              stderr=p.stderr[-2000:])
    got = dict(np.load(pout))
    for nme, want in (('_responses', k.responses), ('_responses_out', k.responses_out),
                      ('_responses_map', k.responses_map)):
        mon.check([str(x) for x in got.pop(nme)] == [str(x) for x in want],
                  'a fresh process has other ' + nme)
    mon.same(got.pop('_imap'), k.imap, 'band map in a fresh process')
    mon.same(got.pop('_redshifts'), k.redshifts, 'redshift grid in a fresh process')
    mon.same(got.pop('_wave'), np.asarray(k.templates.restframe_wave), 'wavelengths')
    mon.same(got.pop('_flux'), np.asarray(k.templates.restframe_flux), 'fluxes')
    want = work.results(k, m, z, mg, iv, w, b, bz, d)
    al = work.allowances(m, z, mg, iv, w, b, bz, d)
    work.agree(mon, m, got, want, al, z, mg, iv, 'in a fresh process', factor=0.5)
    mon.event('fresh_processes')


def names(rng, mon):
    """Bands by their paths: long ones, similar ones, with unusual characters."""
    base = gen.scratch('n')
    os.makedirs(base)

    def newname():
        total = int(rng.choice([0, 30, 120, 199 - len(base), 200 - len(base), 201 - len(base),
                                230, 400, 900]))
        d = base
        while len(d) < len(base) + total - 2:
            d += '/' + ''.join(rng.choice(list('abcXYZ019_+-. #&,;='),
                                          size=min(200, len(base) + total - len(d) - 1))).strip(
                                              ' .') + 'q'
        os.makedirs(d, exist_ok=True)
        n = d + '/' + ''.join(rng.choice(list("abXY_ '|%"), size=int(rng.integers(1, 20)))) + 'w'
        w, r = gen.curve(rng, lo=float(rng.uniform(3000, 9000)), n=int(rng.integers(8, 40)))
        gen.write_dat(n + '.dat', w, r)
        return n

    bands = [newname() for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.6:
        # one that begins like another one
        n = bands[0] + str(rng.choice(['x', '0', '_', '.dat', 'x' * 40]))
        w, r = gen.curve(rng, lo=float(rng.uniform(3000, 9000)), n=20)
        gen.write_dat(n + '.dat', w, r)
        bands.append(n)
    if rng.random() < 0.5:
        bands.append('sdss_r0')
    bands = list(dict.fromkeys(bands))
    bands = [bands[i] for i in rng.permutation(len(bands))]
    nout = int(rng.integers(1, 5))
    out = [newname() if rng.random() < 0.4 else str(rng.choice(bands)) for _ in range(nout)]
    mp = [str(rng.choice(bands)) for _ in range(nout)]
    w, f = gen.spectra(rng, 2, 60, cool=0.)
    p, q = gen.scratch('t.fits'), gen.scratch('k.fits')
    gen.write_template(rng, p, w, f)
    K = gen.kc.kcorrect.Kcorrect
    k = K(responses=bands, responses_out=out, responses_map=mp, nredshift=3,
          redshift_range=[0., 0.4], templates=gen.kc.template.Template(filename=p))
    k.tofits(filename=q)
    if rng.random() < 0.5:
        gen.RESP.ResponseDict().clear()
    k2 = K(filename=q)
    for n in ('responses', 'responses_out', 'responses_map'):
        mon.check([str(x) for x in getattr(k2, n)] == [str(x) for x in getattr(k, n)],
                  'other ' + n, got=list(getattr(k2, n)), want=list(getattr(k, n)))
    mon.same(np.asarray(k2.imap), np.asarray(k.imap), 'band map')
    z = np.float32([0.1, 0.4])
    c = gen.weights(rng, 2, 2)
    for op in ('reconstruct', 'reconstruct_out', 'kcorrect', 'derived'):
        a, b = (getattr(x, op)(redshift=z, coeffs=c) for x in (k, k2))
        for x, y in ([(a, b)] if op != 'derived' else [(a[i], b[i]) for i in a]):
            mon.close(y, x, 'with long names: ' + op, rtol=1e-5, atol=1e-6)
    mon.event('reloads')
    mon.event('long_names', sum(len(x) > 200 for x in bands + out))
    mon.key(sorted(len(x) for x in bands), nout)


FAMILIES = [
    ('roundtrip', roundtrip, 120, 1800),
    ('fresh', fresh, 6, 60),
    ('names', names, 40, 600),
]
