"""C07 Reconstructed maggies are the photometry of the model spectrum."""
import numpy as np

from .. import gen, observe, ref, work

RULE = ('A case builds a random object (class, bands, output bands, templates, grid, band map) '
        'and calls reconstruct and reconstruct_out, and the methods that use them, for single '
        'objects and catalogues at grid nodes, end points, between nodes and with band shifts; '
        'an observer compares every returned value with an independent float64 projection of '
        'the templates. Distinct by class, output mode, sizes, range and flags.')
ASSUMPTIONS = ['between grid nodes the unit photometry is linear in redshift; how far that is '
               'from the exact photometry is decided on fine grids only',
               'redshifts, weights and shifts are taken as float32, as the code documents']
MIN_EVENTS = {'reconstructions': 1000, 'values_checked': 5000, 'exact_compared': 200,
              'linear': 100}
OPS = ['reconstruct', 'reconstruct_out', 'kcorrect', 'derived', 'absmag_all']
P = ['C07']


def fine(rng, mon):
    """On a fine grid, compare with the photometry at exactly that redshift:
    of the summed spectrum, projected by the reference."""
    z0 = float(rng.choice([0., 0., 0.1]))
    c = gen.conf(rng, zero=True, user=0.2)
    c['redshift_range'] = [z0, z0 + float(rng.choice([0.05, 0.1, 0.2]))]
    c['nredshift'] = int(rng.choice([201, 400]))
    if len(c.get('responses', [])) > 4:
        c['nredshift'] = 101
        c['redshift_range'][1] = z0 + 0.05
    m = gen.model_conf(c)
    k = gen.build(c)
    mon.note(**gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), m.range.tolist())
    n = 4
    z = gen.redshifts(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    for isout in (False, True):
        b = work.shift(rng, m, z)
        names = m.responses_out if isout else m.responses
        f = k.reconstruct_out if isout else k.reconstruct
        got = np.asarray(f(redshift=z, coeffs=w, band_shift=b), dtype=np.float64)
        mon.check(got.shape == (n, len(names)), 'shape of reconstructed maggies', got=got.shape)
        mon.check((got >= -1e-7 * np.abs(got).max()).all(),
                  'negative maggies for non-negative weights', got=got)
        for i in range(n):
            s = float(z[i]) + b + float(z[i]) * b
            for j, name in enumerate(names):
                u, sc, info = ref.project(m.spec, m.bands[name], s)
                want = float(u.dot(np.float64(w[i]))) / (1. + b)
                # curvature over one step of the grid, from its neighbours;
                # band edges crossing samples make the quadrature itself step
                step = m.grid[1] - m.grid[0]
                near = [float(ref.project(m.spec, m.bands[name], s + q * step)[0].dot(
                    np.float64(w[i]))) / (1. + b) for q in (-1., -0.5, 0.5, 1.)]
                span = max(abs(x - want) for x in near)
                tol = 1.5 * span + 3e-5 * abs(want) + ref.REL * float(sc.dot(np.float64(w[i])))
                mon.check(abs(got[i, j] - want) <= tol,
                          'maggies differ from the exact photometry of the model',
                          got=got[i, j], want=want, tol=tol, band=name, redshift=z[i],
                          band_shift=b, out=isout)
                if want > 0.:
                    mon.event('exact_compared')
                    if span < 1e-2 * want:
                        mon.event('exact_within_a_percent')


def linear(rng, mon):
    c, m, k, z, mg, iv, w, b, bz, d = work.setup(rng)
    mon.note(n=len(z), **gen.describe(c))
    mon.key(c['cls'], c['_mode'], m.nsed, len(m.responses), len(z))
    n = len(z)
    w1 = gen.weights(rng, m.nsed, n)
    w2 = gen.weights(rng, m.nsed, n)
    sgn = np.float32(rng.choice([-1., 1.], (n, m.nsed))) if rng.random() < 0.4 else np.float32(1.)
    w1 = w1 * sgn
    a = np.float32(10.**rng.uniform(-3, 3))
    for isout, shift in ((False, 0.), (False, bz), (True, 0.), (True, bz)):
        f = k.reconstruct_out if isout else k.reconstruct
        r1 = np.float64(f(redshift=z, coeffs=w1, band_shift=shift))
        r2 = np.float64(f(redshift=z, coeffs=w2, band_shift=shift))
        r3 = np.float64(f(redshift=z, coeffs=a * w1 + w2, band_shift=shift))
        _, e = m.maggies(z, np.abs(np.float64(a * w1)) + np.float64(w2), out=isout, band_shift=shift)
        mon.close(r3, float(a) * r1 + r2, 'reconstruction is not linear in the weights',
                  rtol=0., atol=3. * e)
        mon.check(np.all(r2 >= -e), 'negative maggies for non-negative weights')
        r0 = np.asarray(f(redshift=z, coeffs=np.zeros_like(w1), band_shift=shift))
        mon.check(not np.any(r0), 'maggies for zero weights', got=r0)
        mon.event('linear')
        if not isout or m.responses_out == m.responses:
            o = k.reconstruct_out(redshift=z, coeffs=w1, band_shift=shift) \
                if m.responses_out == m.responses else None
            if o is not None:
                mon.close(o, r1, 'same bands, other maggies', rtol=0., atol=2 * e + np.abs(e))


FAMILIES = [
    ('calls', work.calls(P, OPS), 120, 1800),
    ('fitter', work.calls(P, ['reconstruct'], cls='Fitter'), 15, 200),
    ('history', work.history(P, OPS), 30, 450),
    ('close', work.close_calls(P, ['reconstruct', 'reconstruct_out', 'kcorrect']), 40, 600),
    ('fine', fine, 30, 400),
    ('linear', linear, 60, 800),
]
