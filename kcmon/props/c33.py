"""C33 Copied and pickled objects work like the original, and apart from it."""
import copy
import io
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import boot, child, digest, gen, work
from . import c14

kc = gen.kc
RULE = ('A case copies an object (K-correction object or fitter, template set, spectrum, bandpass; '
        'fresh, used, reloaded, redshifted) with copy, deepcopy or pickle of some protocol, '
        'compares every documented attribute and every result, then changes one of the two '
        '(redshifts, attributes, arrays) and looks at the other; or hands a pickle to a new '
        'process, which uses it or shares it out to a pool (fork, spawn, forkserver). Distinct '
        'by class, sizes, way of copying and history.')
ASSUMPTIONS = ['copy.copy shares the parts of an object, as everywhere in Python; that rebinding '
               'attributes of the copy leaves the original alone is checked',
               'cosmologies are those which can be pickled; pickle protocols from 2 (scipy)']
MIN_EVENTS = {'copies': 200, 'changes': 100, 'values_compared': 10000, 'processes': 9,
              'pools': 3}
HOWS = ['copy', 'deepcopy', 'deepcopy', 'deepcopy of pair'] + [2, 3, 4, 5] + ['pickler', 'twice']


def duplicate(x, how):
    if how == 'copy':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    if how == 'deepcopy of pair':
        a, b = copy.deepcopy([x, {'same': x}])
        if a is not b['same']:
            raise RuntimeError('deepcopy')
        return a
    if how == 'pickler':
        fp = io.BytesIO()
        p = pickle.Pickler(fp)
        p.dump((x, 'end'))
        fp.seek(0)
        return pickle.Unpickler(fp).load()[0]
    if how == 'twice':
        return pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x)))))
    return pickle.loads(pickle.dumps(x, protocol=int(how)))


def choose(rng, mon):
    j = mon.index
    return HOWS[j % len(HOWS)] if rng.random() < 0.7 else HOWS[int(rng.integers(len(HOWS)))]


def arrays_of(rng, m, n):
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    b, bz = work.shift(rng, m), work.shift(rng, m, z)
    a = dict(z=z, mg=mg, iv=iv, w=w, b=b, bz=bz)
    if rng.random() < 0.5:
        a['d'] = work.distance(rng, n)
    return a


def agree(mon, m, c, a, got, want, what):
    al = work.allowances(m, a['z'], a['mg'], a['iv'], a['w'], float(a['b']), float(a['bz']),
                         a.get('d'))
    work.agree(mon, m, got, want, al, a['z'], a['mg'], a['iv'], what,
               fitted=gen.to_ab_ref(c, a['mg'], a['iv']), factor=0.5)


def cosmo(rng):
    import astropy.cosmology
    return [None, astropy.cosmology.WMAP9,
            astropy.cosmology.FlatLambdaCDM(H0=float(rng.uniform(50, 100)),
                                            Om0=float(rng.uniform(0.1, 0.9)))][
        int(rng.integers(3))]


def make(rng):
    c = gen.conf(rng, cosmo='no')
    c['cosmo'] = cosmo(rng)
    m = gen.model_conf(c)
    k = gen.build(c)
    return c, m, k


def results(m, k, a):
    return dict((n, np.array(v)) for n, v in child.results(k, a, bool(m.inside(0.))).items())


def nomatrix(d):
    return dict((n, v) for n, v in d.items() if n not in ('A', 'AOut'))


def samestate(mon, a, b, what):
    bad = digest.same(nomatrix(a), nomatrix(b))
    mon.check(not bad, '{}: {} differ'.format(what, ', '.join(bad)))
    for n in ('A', 'AOut'):
        mon.check((n in a) == (n in b), what + ': ' + n)
        if n in a:
            mon.close(b[n], a[n], '{}: {}'.format(what, n), rtol=1e-6,
                      atol=1e-7 * float(np.abs(a[n]).max()))
    mon.event('values_compared', int(sum(np.size(v) for v in a.values())))


def put(x, v):
    """Write into an array, if that is possible."""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = v


def spoil(rng, mon, k, deep):
    """Change an object in the ways its user may."""
    ops = ['cosmo', 'abcorrect', 'names', 'use', 'nredshift']
    if deep:
        ops += ['redshift', 'arrays', 'grid', 'matrix']
    for op in [str(x) for x in rng.permutation(ops)[:int(rng.integers(1, len(ops) + 1))]]:
        mon.event('changes')
        if op == 'cosmo' and hasattr(k, 'cosmo'):
            k.cosmo = gen.FlatToy(123.)
        elif op == 'abcorrect':
            k.abcorrect = not k.abcorrect
        elif op == 'names':
            k.responses = list(k.responses)[:1]
            if hasattr(k, 'responses_map'):
                k.responses_map = list(k.responses_map)[::-1]
        elif op == 'nredshift':
            k.nredshift = 2
            k.redshift_range = [0., 0.01]
        elif op == 'redshift':
            k.templates.set_redshift(float(rng.uniform(0.1, 2.)))
        elif op == 'arrays':
            put(k.templates.restframe_flux, 0.)
            put(k.templates.restframe_wave, 1.5 * np.array(k.templates.restframe_wave))
            for n in ('mremain', 'intsfh', 'mets'):
                if hasattr(k.templates, n):
                    put(getattr(k.templates, n), -1.)
        elif op == 'grid':
            put(k.redshifts, 0.)
            if hasattr(k, 'imap'):
                put(k.imap, 0)
        elif op == 'matrix':
            put(getattr(k.Amatrix, 'y', None), 0.)
        elif op == 'use':
            try:
                k.reconstruct(redshift=np.float32(k.redshifts[0]),
                              coeffs=np.ones(k.templates.nsed, dtype=np.float32))
            except Exception:
                pass           # (of an object whose parts were changed)


def objects(rng, mon):
    c, m, k = make(rng)
    how = choose(rng, mon)
    hist = str(rng.choice(['fresh', 'used', 'reloaded', 'redshifted', 'copied']))
    mon.note(how=str(how), history=hist, **gen.describe(c))
    a = arrays_of(rng, m, int(rng.choice([1, 2, 4])))
    if hist == 'used':
        results(m, k, a)
        k.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)
    elif hist == 'reloaded':
        p = gen.scratch('.fits')
        k.tofits(p)
        co = k.cosmo
        k = c14.load(rng, c, p, m)
        k.cosmo = co
        os.unlink(p)
    elif hist == 'redshifted':
        k.templates.set_redshift(float(rng.uniform(0.1, 1.)))
    elif hist == 'copied':
        k = duplicate(k, HOWS[int(rng.integers(len(HOWS)))])
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), m.nz, str(how), hist)
    s0 = digest.fitter_state(k)
    r0 = results(m, k, a)
    q = duplicate(k, how)
    mon.event('copies')
    mon.check(type(q) is type(k) and q is not k, 'a copy is of another class')
    samestate(mon, s0, digest.fitter_state(k), 'copying ({}) changed the object'.format(how))
    samestate(mon, s0, digest.fitter_state(q), 'copy ({})'.format(how))
    mon.check(str(q.cosmo) == str(k.cosmo), 'copy ({}): other cosmology'.format(how))
    if rng.random() < 0.3:
        gen.RESP.ResponseDict().clear()
    agree(mon, m, c, a, results(m, q, a), r0, 'copy ({})'.format(how))
    np.random.seed(3)
    x = k.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)[2]
    np.random.seed(3)
    y = q.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)[2]
    mon.close(y, x, 'copy ({}): Monte Carlo maggies'.format(how), rtol=1e-5,
              atol=1e-6 * float(np.abs(a['mg']).max()))
    # files written by both
    p1, p2 = gen.scratch('.fits'), gen.scratch('.fits')
    k.tofits(p1)
    q.tofits(p2)
    c14.same_hdus(mon, c14.hdus(p1), c14.hdus(p2), 'the file of a copy ({})'.format(how))
    # one of them goes its own way
    one, other = (q, k) if rng.random() < 0.6 else (k, q)
    spoil(rng, mon, one, how != 'copy')
    samestate(mon, s0, digest.fitter_state(other), 'changing {} ({}) changed the other'.format(
        'the copy' if one is q else 'the original', how))
    agree(mon, m, c, a, results(m, other, a), r0, 'after changing the other of two ({})'.format(
        how))


def fitters(rng, mon):
    """Fitter objects, with and without matrices."""
    c = gen.conf(rng, cls='Fitter')
    how = choose(rng, mon)
    kw = dict((n, v) for n, v in c.items() if n != 'cls' and n[0] != '_')
    k = kc.fitter.Fitter(**kw)
    early = bool(rng.random() < 0.4)
    mon.note(how=str(how), early=early)
    mon.key('fitter', str(how), early, len(c['responses']), c['nredshift'])
    if early:
        q = duplicate(k, how)
        k.set_Amatrix()
        q.set_Amatrix()
    else:
        k.set_Amatrix()
        q = duplicate(k, how)
    mon.event('copies')
    s0 = digest.fitter_state(k)
    samestate(mon, s0, digest.fitter_state(q), 'copy of a fitter ({})'.format(how))
    spoil(rng, mon, q, how != 'copy')
    samestate(mon, s0, digest.fitter_state(k), 'changing a copy ({}) changed the fitter'.format(
        how))


def sed_state(s):
    d = digest.attrs(s, digest.SED)
    if getattr(s, 'interp', None) is not None:
        w = np.asarray(s.wave, dtype=np.float64)
        d['interp'] = np.array(s.interp(0.5 * (w[1:] + w[:-1])))
    d['filename'] = None if getattr(s, 'filename', None) is None else str(s.filename)
    return d


def parts(rng, mon):
    """Spectra, template sets and bandpasses."""
    how = choose(rng, mon)
    kind = ['sed', 'template', 'response'][mon.index % 3]
    mon.note(kind=kind, how=str(how))
    if kind == 'response':
        names = gen.OPTICAL
        if rng.random() < 0.5:
            f = gen.RESP.ResponseDict()
            n = str(rng.choice(names))
            f.load_response(n)
            r = f[n]
        else:
            r = kc.response.Response()
            r.fromdat(gen.user_band(rng) + '.dat')
        state = digest.response_state
        mon.key(kind, str(how), r.nwave)
        s0 = state(r)
        q = duplicate(r, how)
        mon.event('copies')
        bad = digest.same(s0, state(q))
        mon.check(not bad, 'copy of a bandpass ({}): {} differ'.format(how, ', '.join(bad)))
        bad = digest.same(s0, state(r))
        mon.check(not bad, 'copying a bandpass ({}) changed it: {}'.format(how, ', '.join(bad)))
        w, fl = gen.spectra(rng, 2, 500)
        s = kc.template.SED(wave=w, flux=fl)
        mon.close(q.project(sed=s), r.project(sed=s), 'a copy of a bandpass projects', rtol=1e-6)
        mon.close(q.project(wave=w, flux=fl[0]), r.project(wave=w, flux=fl[0]),
                  'a copy of a bandpass projects arrays', rtol=1e-6)
        keep = duplicate(q, 'deepcopy')
        if how != 'copy':
            put(q.wave, np.array(q.wave) + 100.)
            put(q.response, 0.5 * np.array(q.response))
        q.set_interp()
        q.set_lambda_eff()
        q.solar_magnitude = 99.
        mon.event('changes')
        bad = digest.same(s0, state(r))
        mon.check(not bad, 'changing a copy of a bandpass ({}) changed it: {}'.format(
            how, ', '.join(bad)))
        mon.close(keep.project(sed=s), r.project(sed=s), 'two copies', rtol=1e-6)
        return
    w, fl = gen.spectra(rng, int(rng.integers(1, 5)), 300)
    interp = bool(rng.random() < 0.7)
    if kind == 'sed':
        s = kc.template.SED(wave=w, flux=fl, interpolate=interp)
    else:
        p = gen.scratch('t.fits')
        gen.write_template(rng, p, w, fl, binimage=bool(rng.random() < 0.5))
        s = kc.template.Template(filename=p, interpolate=interp)
    if rng.random() < 0.5:
        s.set_redshift(float(rng.uniform(0., 2.)))
    mon.key(kind, str(how), s.nsed, interp, float(s.redshift) > 0.)
    s0 = sed_state(s)
    q = duplicate(s, how)
    mon.event('copies')
    for x, what in ((q, 'copy of a spectrum ({}): {} differ'),
                    (s, 'copying a spectrum ({}) changed it: {}')):
        bad = digest.same(s0, sed_state(x))
        mon.check(not bad, what.format(how, ', '.join(bad)), kind=kind)
    z = float(rng.uniform(0., 3.))
    one, other = (q, s) if rng.random() < 0.6 else (s, q)
    one.set_redshift(z)
    mon.event('changes')
    bad = digest.same(s0, sed_state(other))
    mon.check(not bad, 'a redshift of one of two ({}) is seen in the other: {}'.format(
        how, ', '.join(bad)), kind=kind)
    other.set_redshift(z)
    bad = digest.same(sed_state(one), sed_state(other))
    mon.check(not bad, 'both at one redshift ({}): {} differ'.format(how, ', '.join(bad)))
    one.set_redshift(float(s0['redshift']))
    bad = digest.same(s0, sed_state(one))
    mon.check(not bad, 'back again ({}): {} differ'.format(how, ', '.join(bad)))
    if how != 'copy':
        st = sed_state(other)
        put(one.restframe_flux, 0.)
        put(one.wave, 1.)
        put(one.flux, 0.)
        mon.event('changes')
        bad = digest.same(st, sed_state(other))
        mon.check(not bad, 'arrays of a copy of a spectrum ({}) are shared: {}'.format(
            how, ', '.join(bad)), kind=kind)
        p, r = gen.scratch('.fits'), gen.scratch('.fits')
        other.tofits(p)
        mon.check(kc.template.SED(filename=p).nsed == other.nsed, 'the file of a copy')


def processes(rng, mon):
    """A pickle goes to a new process."""
    while True:
        c, m, k = make(rng)
        if m.nsed > 1 and len(m.responses) > 1:
            break
    j = mon.index
    how = ['here', 'spawn', 'here', 'fork', 'here', 'forkserver'][j % 6]
    proto = int(rng.integers(2, 6)) if how == 'here' else None
    hist = str(rng.choice(['fresh', 'used', 'reloaded']))
    a = arrays_of(rng, m, int(rng.choice([3, 5, 8])))
    if hist == 'used':
        results(m, k, a)
    elif hist == 'reloaded':
        p = gen.scratch('.fits')
        k.tofits(p)
        co = k.cosmo
        k = c14.load(rng, c, p, m)
        k.cosmo = co
        os.unlink(p)
    mon.note(how=how, protocol=proto, history=hist, **gen.describe(c))
    mon.key('process', c['cls'], c['_mode'], m.nsed, len(m.responses), how, proto, hist)
    d = gen.scratch('p')
    os.makedirs(d)
    s = dict(pickle=os.path.join(d, 'k.pickle'), arrays=os.path.join(d, 'a.npz'), how=how,
             inside0=bool(m.inside(0.)), save=os.path.join(d, 'saved.fits'))
    np.savez(s['arrays'], **a)
    f = gen.RESP.ResponseDict()
    for n in ('sdss_g0', 'sdss_r0'):
        f.load_response(n)
    w, fl = gen.spectra(rng, 1, 600)
    sed = kc.template.SED(wave=w, flux=fl)
    bands = [f['sdss_g0'], f['sdss_r0']]
    with open(s['pickle'], 'wb') as fp:
        pickle.dump(dict(k=k, sed=sed, bands=bands, templates=k.templates), fp,
                    **({} if proto is None else dict(protocol=proto)))
    ps, po = os.path.join(d, 's.json'), os.path.join(d, 'o.npz')
    with open(ps, 'w') as fp:
        json.dump(s, fp)
    env = dict((n, v) for n, v in os.environ.items() if not n.startswith('PYTHON'))
    env['KCMON_SRC'] = boot.SRC
    p = subprocess.run([sys.executable, os.path.join(boot.VERIF, 'kcmon', 'pchild.py'), ps, po],
                       capture_output=True, text=True, timeout=300, env=env, cwd=d)
    what = 'another process ({})'.format(how)
    if p.returncode != 0 and '/kcorrect/' not in p.stderr:
        raise RuntimeError('child failed: ' + p.stderr[-2000:])
    mon.check(p.returncode == 0, what + ' can not use a pickled object', stderr=p.stderr[-2500:])
    mon.event('processes')
    if how != 'here':
        mon.event('pools')
    got = dict(np.load(po))
    agree(mon, m, c, a, dict((n[4:], v) for n, v in got.items() if n.startswith('res ')),
          results(m, k, a), what)
    if how != 'here':
        mon.close(got['methods'], k.reconstruct(redshift=a['z'], coeffs=a['w']),
                  what + ': methods', rtol=1e-5, atol=1e-6 * float(np.abs(got['methods']).max()))
        return
    np.random.seed(1234)
    mm = k.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)[2]
    mon.close(got['mc'], mm, what + ': Monte Carlo maggies', rtol=1e-5,
              atol=1e-6 * float(np.abs(a['mg']).max()))
    mon.check(got['names'].tolist() == [str(x) for x in k.responses], what + ': names')
    ww = np.linspace(2500., 11000., 700)
    ff = (ww / 5000.)**-1.3
    for i, r in enumerate(bands):
        mon.close(got['band {}'.format(i)], np.array([
            np.squeeze(r.project(wave=ww, flux=ff)), np.squeeze(r.project(sed=sed)),
            r.lambda_eff, r.fwhm, r.solar_magnitude, np.sum(r.wave), np.sum(r.response)],
            dtype=np.float64), what + ': a bandpass', rtol=1e-5)
    mon.same(got['sed'], np.concatenate([np.ravel(sed.wave), np.ravel(sed.flux)]),
             what + ': a spectrum')
    sed.set_redshift(0.37)
    mon.same(got['sed shifted'], np.concatenate([np.ravel(sed.wave), np.ravel(sed.flux)]),
             what + ': a redshifted spectrum')
    t = k.templates
    mon.same(got['templates'], np.concatenate([np.ravel(x) for x in (
        t.restframe_wave, t.restframe_flux, t.mremain, t.intsfh, t.mets, t.m300, t.m1000)]),
        what + ': templates')
    p1 = os.path.join(d, 'here.fits')
    k.tofits(filename=p1)
    mon.check([n for n, _ in c14.hdus(p1)] == [n for n, _ in c14.hdus(s['save'])],
              what + ': a saved file')


FAMILIES = [
    ('processes', processes, 18, 180),
    ('objects', objects, 130, 2000),
    ('fitters', fitters, 36, 500),
    ('parts', parts, 90, 1500),
]
