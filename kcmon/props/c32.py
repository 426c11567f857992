"""C32 The same inputs give the same results in every process."""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from .. import boot, child, digest, gen, work

kc = gen.kc
RULE = ('A case writes the inputs of a random scenario (object, catalogue, bandpasses, spectra, '
        'conversions, calls which can not be right) and has it computed in processes of '
        'different environments: hash seeds, interpreter options, locales, working directories '
        '(with files named like the package\'s own, not writable, deleted), users, ways and '
        'orders of importing, threads, forks, settings of numpy, astropy and matplotlib, places '
        'of the package. Results, rejections and saved files are compared with those computed '
        'here, and the working directory and the package are watched for new files. Distinct by '
        'scenario and environment.')
ASSUMPTIONS = ['interpreter, numpy and machine are the same; values are compared within the '
               'allowances of 32-bit floats']
MIN_EVENTS = {'processes': 60, 'values_compared': 3000, 'rejections': 500, 'saved_files': 20}

CHILD = os.path.join(boot.VERIF, 'kcmon', 'child.py')
HARM = 'not a file of the package\n' * 40


def decoys(d):
    """A working directory of someone who has files of the same names."""
    for n in ('sdss_g0.dat', 'sdss_r0.dat', 'sdss_g0', 'kcorrect-default-v4.fits', 'lcbvega.ori',
              'lcbsun.ori', 'bessell_V.dat', 'solar.fits', 'vega.fits'):
        with open(os.path.join(d, n), 'w') as fp:
            fp.write(HARM)
    for sub, n in (('data/responses', 'sdss_g0.dat'), ('data/templates',
                                                       'kcorrect-default-v4.fits'),
                   ('data/basel', 'lcbvega.ori'), ('data/basel', 'lcbsun.ori'),
                   ('responses', 'sdss_r0.dat'), ('basel', 'lcbsun.ori')):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        with open(os.path.join(d, sub, n), 'w') as fp:
            fp.write(HARM)


def environments(rng):
    """Environment name -> settings."""
    r = rng.integers
    return [
        ('plain', {}),
        ('hash seed', dict(vars=dict(PYTHONHASHSEED=str(int(r(2**32)))))),
        ('optimised', dict(flags=['-O'])),
        ('no docstrings', dict(flags=['-OO'])),
        ('ASCII locale', dict(vars=dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0',
                                        LANG='C'))),
        ('decoys', dict(decoys=True)),
        ('user', dict(user=65534, vars=dict(HOME='/nonexistent', TMPDIR='/nonexistent'))),
        ('umask', dict(umask=0o077, vars=dict(HOME=''))),
        ('deleted directory', dict(env=dict(gone=True))),
        ('import 1', dict(env=dict(imports=1))),
        ('import 2', dict(env=dict(imports=2))),
        ('import 3', dict(env=dict(imports=3))),
        ('import 4', dict(env=dict(imports=4))),
        ('import 5', dict(env=dict(imports=5))),
        ('import 6', dict(env=dict(imports=6))),
        ('import 7', dict(env=dict(imports=7, before=True, draws=5))),
        ('one thread', dict(vars=dict(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))),
        ('many threads', dict(vars=dict(OMP_NUM_THREADS='16', OPENBLAS_NUM_THREADS='16'))),
        ('print options', dict(env=dict(printoptions=True, before=bool(r(2))))),
        ('numpy warnings', dict(env=dict(seterr=dict(all='warn')))),
        ('default cosmology', dict(env=dict(cosmology=True, before=bool(r(2))))),
        ('units', dict(env=dict(units=True, style=True, fitsconf=True))),
        ('thread', dict(env=dict(thread=True))),
        ('fork', dict(env=dict(atexit=True))),
        ('no memory maps', dict(env=dict(memmap=False))),
        ('random state', dict(env=dict(draws=int(r(1, 1000))))),
        ('collector', dict(env=dict(gcoff=True))),
        ('few files', dict(env=dict(files=int(r(24, 40))))),
        ('time zone', dict(vars=dict(TZ='Pacific/Kiritimati', LANG='de_DE.UTF-8',
                                     LC_NUMERIC='de_DE.UTF-8'), env=dict(locale=True))),
        ('other directory', dict(env=dict(chdir='/'))),
        ('development mode', dict(flags=['-X', 'dev', '-W', 'ignore'])),
        ('isolated', dict(flags=['-I', '-B'])),
        ('moved package', dict(moved=str(rng.choice(['with space', 'a[1]b', 'per%20cent',
                                                     'pl+us (x)', 'h#sh', 'data', 'x.dat',
                                                     'K\u00fcrzel', '{f}', '~', "quo'te"])))),
    ]


def stamp(root):
    """The files below root: size and time of change."""
    out = {}
    for d, _, names in os.walk(root):
        if os.path.basename(d) == '__pycache__':
            continue
        for n in names:
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = (st.st_size, st.st_mtime_ns)
    return out


def scenario(rng, d):
    """Inputs of everything, below directory d."""
    while True:
        c = gen.conf(rng, cosmo='no')
        c['cosmo'] = None
        m = gen.model_conf(c)
        if m.nsed > 1 and len(m.responses) > 1:
            break
    s = dict((n, c[n]) for n in ('cls', 'redshift_range', 'nredshift', 'abcorrect'))
    for n in ('responses', 'responses_out', 'responses_map'):
        s[n] = c.get(n)
    s['templates'] = os.path.join(d, 'templates.fits')
    c['templates'].tofits(s['templates'])
    s['interpolate'] = bool(c['templates'].interpolate)
    s['cosmo'] = None if rng.random() < 0.5 else [float(rng.uniform(50, 100)),
                                                  float(rng.uniform(0.1, 0.9))]
    s['inside0'] = bool(m.inside(0.))
    if s['cosmo'] is not None:
        import astropy.cosmology
        c['cosmo'] = astropy.cosmology.FlatLambdaCDM(H0=s['cosmo'][0], Om0=s['cosmo'][1])
        m = gen.model_conf(c)
    n = int(rng.choice([2, 3, 6]))
    z, mg, iv = work.catalogue(rng, m, n)
    w = gen.weights(rng, m.nsed, n)
    b, bz = work.shift(rng, m), work.shift(rng, m, z)
    a = dict(z=z, mg=mg, iv=iv, w=w, b=b, bz=bz)
    if rng.random() < 0.5:
        a['d'] = work.distance(rng, n)
    a['flux5'] = np.float32(10.**rng.uniform(-10, -7, (4, 5)))
    a['ivar5'] = np.float32(1. / (a['flux5'] * rng.uniform(0.01, 0.3, (4, 5)))**2)
    s['arrays'] = os.path.join(d, 'arrays.npz')
    np.savez(s['arrays'], **a)
    s['sdss'] = list(gen.SDSS)
    s['bands'] = sorted(set(str(x) for x in rng.choice(gen.OPTICAL, 3)) | set([
        'twomass_J', os.path.join(gen.DATADIR, 'responses', 'sdss_g0')]))[:5]
    s['bands'] = [x for x in s['bands'] if not os.path.isabs(x)]
    s['basel'] = os.path.join(gen.DATADIR, 'basel', 'lcbvega.ori') if rng.random() < 0.5 else None
    s['default'] = (os.path.join(gen.DATADIR, 'templates', 'kcorrect-default-v4.fits')
                    if rng.random() < 0.25 else None)
    return c, m, s, a


def compare(mon, m, c, a, got, want, what):
    """Two processes' results."""
    d = a.get('d')
    z, mg, iv, w, b, bz = [a[n] for n in ('z', 'mg', 'iv', 'w', 'b', 'bz')]
    al = work.allowances(m, z, mg, iv, w, float(b), float(bz), d)
    mon.check(set(got) == set(want), what + ': other results',
              got=sorted(set(got) - set(want)), want=sorted(set(want) - set(got)))
    for head in ('res ', 'saved '):
        g = dict((n[len(head):], v) for n, v in got.items() if n.startswith(head))
        h = dict((n[len(head):], v) for n, v in want.items() if n.startswith(head))
        if h:
            work.agree(mon, m, g, h, al, z, mg, iv, what, fitted=gen.to_ab_ref(c, mg, iv),
                       factor=0.5)
    for n in sorted(want):
        if n.startswith('more ') or n == 'again':
            g, h = np.asarray(got[n]), np.asarray(want[n])
            if h.dtype.kind in 'US':
                mon.check(g.tolist() == h.tolist(), '{}: {}'.format(what, n))
                continue
            mon.check(g.shape == h.shape and g.dtype.kind == h.dtype.kind,
                      '{}: {} of other shape or type'.format(what, n), got=g, want=h)
            fin = np.abs(h[np.isfinite(h)])
            at = 1e-6 * float(fin.max()) if fin.size and n != 'more floor' else 0.
            mon.close(g, h, '{}: {}'.format(what, n), rtol=1e-5, atol=at)
            mon.event('values_compared', int(g.size))
    r = sorted(got['rejected'].tolist())
    mon.check(r == sorted(want['rejected'].tolist()), what + ': other calls are rejected',
              got=r, want=sorted(want['rejected'].tolist()))
    mon.event('rejections', len(r))


def processes(rng, mon):
    os.chmod(boot.scratch(), 0o755)
    top = gen.scratch('case')
    os.makedirs(top)
    os.chmod(top, 0o755)
    try:
        _processes(rng, mon, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _processes(rng, mon, top):
    c, m, s, a = scenario(rng, top)
    mon.note(**gen.describe(c))
    envs = environments(rng)
    j = mon.index
    pick = [envs[(3 * j + i) % len(envs)] for i in range(3)]
    mon.note(environments=[n for n, _ in pick])
    s['save'] = os.path.join(top, 'here.fits')
    want = child.work(kc, dict(s), dict((n, np.asarray(v)) for n, v in a.items()))
    mon.check(not len(want['accepted']), 'calls which can not be right are accepted',
              accepted=want['accepted'].tolist())
    src0 = stamp(os.path.join(boot.SRC, 'kcorrect'))
    for name, e in pick:
        mon.key('process', name, c['cls'], c['_mode'], m.nsed, len(m.responses))
        one(rng, mon, top, c, m, s, a, want, name, e)
    src1 = stamp(os.path.join(boot.SRC, 'kcorrect'))
    bad = sorted(set(src0.items()) ^ set(src1.items()))
    mon.check(not bad, 'files of the package are written', files=[x[0] for x in bad][:5])


def one(rng, mon, top, c, m, s, a, want, name, e):
    d = os.path.join(top, name.replace(' ', '_'))
    cwd, out = os.path.join(d, 'cwd'), os.path.join(d, 'out')
    for p in (d, cwd, out):
        os.makedirs(p)
    os.chmod(out, 0o777)
    if e.get('decoys'):
        decoys(cwd)
    t = dict(s, src=boot.SRC, env=dict(e.get('env', {})), save=os.path.join(out, 'saved.fits'))
    if t['env'].get('gone'):
        t['env']['gone'] = os.path.join(out, 'gone')
    if e.get('moved'):
        t['src'] = os.path.join(d, e['moved'])
        shutil.copytree(os.path.join(boot.SRC, 'kcorrect'), os.path.join(t['src'], 'kcorrect'),
                        symlinks=True, ignore=shutil.ignore_patterns('__pycache__', 'test', 'bessell', 'acs'))
        for n in ('basel', 'default'):
            if t[n]:
                t[n] = t[n].replace(os.path.join(boot.SRC, ''), os.path.join(t['src'], ''))
    ps, po = os.path.join(out, 'scenario.json'), os.path.join(out, 'out.npz')
    with open(ps, 'w') as fp:
        json.dump(t, fp)
    script = os.path.join(d, 'child.py')
    shutil.copy(CHILD, script)
    for p in (d, cwd):
        os.chmod(p, 0o755)
    for p in (script, ps, s['templates'], s['arrays']):
        os.chmod(p, 0o644)
    env = dict((n, v) for n, v in os.environ.items() if not n.startswith('PYTHON'))
    env.update(e.get('vars', {}))
    env['MPLCONFIGDIR'] = out
    kw = {}
    if e.get('user'):
        kw.update(user=e['user'], group=e['user'], extra_groups=[])
        try:
            q = subprocess.run([sys.executable, '-c', 'import sys, numpy; [open(x).close() for x '
                                'in sys.argv[1:]]', script, ps, s['templates'],
                                os.path.join(boot.SRC, 'kcorrect', '__init__.py')] +
                               [x for x in m.responses if os.path.isabs(x) and os.path.exists(x)],
                               capture_output=True, env=env, cwd=cwd, timeout=120, **kw)
            able = q.returncode == 0
        except (OSError, subprocess.SubprocessError):
            able = False
        if not able:
            mon.event('no_other_user')
            return
    if e.get('umask') is not None:
        kw['umask'] = e['umask']
    p = subprocess.run([sys.executable] + e.get('flags', []) + [script, ps, po],
                       capture_output=True, text=True, errors='replace', timeout=300, env=env,
                       cwd=cwd, **kw)
    what = 'process ({})'.format(name)
    if p.returncode != 0 and 'kcorrect' not in p.stderr:
        raise RuntimeError('child failed: ' + p.stderr[-2000:])
    mon.check(p.returncode == 0, what + ' fails', stderr=p.stderr[-2500:])
    mon.check(os.path.exists(po), what + ' has no results', stderr=p.stderr[-2500:])
    mon.event('processes')
    got = dict(np.load(po))
    compare(mon, m, c, a, got, want, what)
    # only what was asked for is written
    left = sorted(stamp(cwd))
    if not e.get('decoys'):
        mon.check(not left, what + ' leaves files in the working directory', files=left)
    else:
        for n in left:
            with open(os.path.join(cwd, n)) as fp:
                mon.check(fp.read() == HARM, what + ' changes or adds a file of the working '
                          'directory', file=n)
    left = set(os.listdir(out)) - set(['scenario.json', 'out.npz', 'saved.fits'])
    left = [x for x in left if not x.startswith(('fontlist', 'matplotlib')) and x != 'gone']
    mon.check(not left, what + ' leaves files beside the saved one', files=left)
    # the saved file has the same contents
    from .c14 import hdus
    x, y = hdus(t['save']), hdus(s['save'])
    mon.check([n for n, _ in x] == [n for n, _ in y], what + ': other contents of the saved file',
              got=[n for n, _ in x], want=[n for n, _ in y])
    for (n, g), (_, h) in zip(x, y):
        if g is None or h is None:
            mon.check(g is h, what + ': HDU ' + n)
        elif h.dtype.names:
            mon.check(g.dtype == h.dtype and g.shape == h.shape, what + ': columns of ' + n)
            for q in h.dtype.names:
                column(mon, g[q], h[q], '{}: saved {} {}'.format(what, n, q))
        else:
            mon.check(g.dtype == h.dtype and g.shape == h.shape, what + ': form of ' + n)
            column(mon, g, h, '{}: saved {}'.format(what, n))
    mon.event('saved_files')


def column(mon, g, h, what):
    if h.dtype.kind in 'fc':
        top = np.abs(h[np.isfinite(h)])
        mon.close(g, h, what, rtol=3e-6, atol=1e-7 * (float(top.max()) if top.size else 0.))
    else:
        mon.check(np.array_equal(g, h), what)


FAMILIES = [
    ('processes', processes, 33, 330),
]
