"""A process which gets objects from a pickle (C33).

    python pchild.py SCENARIO.json OUT.npz

Nothing of the package is imported before the pickle is read.
"""
import json
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['KCMON_SRC'])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def several(k, a, rows, inside0):
    """Some objects of a catalogue (what one process of a pool does)."""
    import child
    b = dict((n, v[rows] if n in ('z', 'mg', 'iv', 'w', 'd') else v) for n, v in a.items())
    return child.results(k, b, inside0)


def method(fn, kw):
    return fn(**kw)


def main():
    with open(sys.argv[1]) as fp:
        s = json.load(fp)
    with open(s['pickle'], 'rb') as fp:
        objs = pickle.load(fp)
    import numpy as np
    import child
    a = dict(np.load(s['arrays'], allow_pickle=False))
    k = objs['k']
    out = {}
    if s['how'] == 'here':
        out.update(('res ' + n, v) for n, v in child.results(k, a, s['inside0']).items())
        np.random.seed(1234)
        out['mc'] = k.fit_coeffs(redshift=a['z'], maggies=a['mg'], ivar=a['iv'], mc=2)[2]
        out['names'] = np.array([str(x) for x in k.responses])
        w = np.linspace(2500., 11000., 700)
        f = (w / 5000.)**-1.3
        for i, r in enumerate(objs['bands']):
            out['band {}'.format(i)] = np.array([
                np.squeeze(r.project(wave=w, flux=f)), np.squeeze(r.project(sed=objs['sed'])),
                r.lambda_eff, r.fwhm, r.solar_magnitude, np.sum(r.wave), np.sum(r.response)],
                dtype=np.float64)
        t = objs['sed']
        out['sed'] = np.concatenate([np.ravel(t.wave), np.ravel(t.flux)])
        t.set_redshift(0.37)
        out['sed shifted'] = np.concatenate([np.ravel(t.wave), np.ravel(t.flux)])
        t = objs['templates']
        out['templates'] = np.concatenate([np.ravel(x) for x in (
            t.restframe_wave, t.restframe_flux, t.mremain, t.intsfh, t.mets, t.m300, t.m1000)])
        if s.get('save'):
            k.tofits(filename=s['save'])
    else:
        import multiprocessing
        ctx = multiprocessing.get_context(s['how'])
        n = len(a['z'])
        parts = [x for x in np.array_split(np.arange(n), min(n, 3)) if len(x)]
        with ctx.Pool(2) as pool:
            r = pool.starmap(several, [(k, a, p, s['inside0']) for p in parts])
            for name in r[0]:
                out['res ' + name] = np.concatenate([np.asarray(x[name]) for x in r])
            # the methods themselves
            c = pool.starmap(method, [(k.reconstruct, dict(redshift=a['z'][p],
                                                           coeffs=a['w'][p])) for p in parts])
            out['methods'] = np.concatenate([np.asarray(x) for x in c])
    np.savez(sys.argv[2], **dict((n, np.asarray(v)) for n, v in out.items()))


if __name__ == '__main__':
    main()
