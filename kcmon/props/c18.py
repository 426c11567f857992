"""C18 The bandpass listing is complete and its validity check truthful."""
import os

import numpy as np

from .. import digest, gen
from . import c16

R = gen.RESP
RULE = ('Directories with any mix of valid, broken, borderline and foreign files, directories, '
        'links, pipes and hidden, spaced, dotted and non-ASCII names (some those of shipped or '
        'already loaded bandpasses) are listed with and without validity checking, again and '
        'again while files are added, broken, mended and removed, by absolute, relative and '
        'trailing-slash paths and by default; the result is compared with the directory, the '
        'registry with the files, and every file with its earlier bytes and times. Distinct by '
        'directory contents and way of listing.')
ASSUMPTIONS = ['a file of borderline form is valid if a Response can be made from it']
MIN_EVENTS = {'listings': 300, 'checked_listings': 120, 'valid_entries': 300, 'invalid_files': 200,
              'collisions': 20, 'relative': 30}
DEFAULT = os.path.join(gen.DATADIR, 'responses')
CLEAR = ('empty', 'header', 'nocolumn')
NAMES = ['a', 'b c', '.hidden', 'x.dat', 'two.dots.here', 'UPPER', 'dat', 'edat', 'é', 'n+1',
         'sdss_r0', 'bessell_V', 'sdss_g0', '{n}', '%s', '[ab]', 'old.dat.dat', '-', 'test', '_']


def stamp(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        st = os.lstat(p)
        data = None
        if os.path.isfile(p):
            data = open(p, 'rb').read()
        out[n] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, data)
    return out


def listed(d):
    return sorted(n[:-4] for n in os.listdir(d)
                  if n.endswith('.dat') and len(n) > 4 and os.path.isfile(os.path.join(d, n)))


def truth(path):
    """(can be loaded, wave, response) of a file"""
    try:
        r = R.Response(filename=path)
        return True, np.asarray(r.wave, dtype=np.float64), \
            np.asarray(r.response, dtype=np.float64)
    except Exception:
        return False, None, None


def populate(rng, d, kinds):
    """Files in d; records what was meant in kinds[name]."""
    for i in range(int(rng.integers(3, 10))):
        n = str(rng.choice(NAMES)) if rng.random() < 0.6 else 'band{}'.format(i)
        add(rng, d, n, kinds)
    for n in ('readme.txt', 'x.DAT', 'y.dat~', 'zdat', 'w.dat.gz', 'v.data', 'dat', 'u.fits'):
        if rng.random() < 0.3 and not os.path.lexists(os.path.join(d, n)):
            w, r = gen.curve(rng)
            gen.write_dat(os.path.join(d, n), w, r)
    if rng.random() < 0.4:
        os.makedirs(os.path.join(d, 'directory.dat'), exist_ok=True)
    if rng.random() < 0.3:
        os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
        w, r = gen.curve(rng)
        gen.write_dat(os.path.join(d, 'sub', 'inner.dat'), w, r)
    if rng.random() < 0.3 and not os.path.lexists(os.path.join(d, 'link.dat')):
        src = gen.user_band(rng)
        os.symlink(src + '.dat', os.path.join(d, 'link.dat'))
        kinds['link'] = 'valid'
    if rng.random() < 0.3 and not os.path.lexists(os.path.join(d, 'dangling.dat')):
        os.symlink(os.path.join(d, 'nowhere'), os.path.join(d, 'dangling.dat'))
    if rng.random() < 0.2 and not os.path.lexists(os.path.join(d, 'pipe.dat')):
        os.mkfifo(os.path.join(d, 'pipe.dat'))


def add(rng, d, n, kinds):
    p = os.path.join(d, n + '.dat')
    if os.path.isdir(p) or os.path.islink(p):
        return
    if rng.random() < 0.5:
        w, r = gen.curve(rng)
        if rng.random() < 0.5:
            o = rng.permutation(len(w))
            w, r = w[o], r[o]
        if rng.random() < 0.1:
            w = w * 1e5        # beyond the stellar models
        gen.write_dat(p, w, r, extra=bool(rng.random() < 0.3))
        kinds[n] = 'valid'
    else:
        kind = str(rng.choice([k for k in c16.BAD if k not in ('missing', 'directory')]))
        c16.write_bad(rng, p, kind)
        kinds[n] = kind


def spell(rng, d):
    """The directory in another spelling, and where to be."""
    u = rng.random()
    if u < 0.35:
        return d, None
    if u < 0.5:
        return d + '/', None
    if u < 0.7:
        return os.path.basename(d), os.path.dirname(d)
    if u < 0.8:
        return '.', d
    if u < 0.9:
        return os.path.join('..', os.path.basename(d), ''), d
    return os.path.join(os.path.dirname(d), '.', os.path.basename(d)), None


def one(rng, mon, d, kinds, check):
    f = R.ResponseDict()
    want = listed(d)
    before = stamp(d)
    entries = c16.snap(f)
    loadable = dict((n, truth(os.path.join(d, n + '.dat'))) for n in want)
    for n in want:
        k = kinds.get(n)
        if k == 'valid':
            mon.check(loadable[n][0], 'a good file can not be loaded', name=n)
            w, r = gen.read_dat(os.path.join(d, n + '.dat'))
            mon.same(loadable[n][1], w, 'wavelengths of a file read alone', name=n)
            mon.same(loadable[n][2], r, 'responses of a file read alone', name=n)
        elif k in CLEAR:
            mon.check(not loadable[n][0], 'a broken file can be loaded', name=n, kind=k)
    c16.unchanged(mon, f, entries, 'reading files alone')
    path, cwd = spell(rng, d)
    here = os.getcwd()
    try:
        if cwd is not None:
            os.chdir(cwd)
            mon.event('relative')
        u = rng.random()
        if d == DEFAULT and u < 0.6:
            got = R.all_responses(check_validity=check) if check else R.all_responses()
        elif check:
            got = R.all_responses(response_dir=path, check_validity=True)
        elif u < 0.8:
            got = R.all_responses(response_dir=path)
        else:
            got = R.all_responses(path, False)
    finally:
        os.chdir(here)
    mon.event('listings')
    after = stamp(d)
    mon.check(after == before, 'listing changed the directory',
              files=[n for n in set(before) | set(after) if before.get(n) != after.get(n)])
    got = [str(x) for x in got]
    if check:
        mon.event('checked_listings')
        want = [n for n in want if loadable[n][0]]
    mon.check(sorted(got) == want, 'the listing is not that of the directory',
              missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)),
              twice=sorted(n for n in set(got) if got.count(n) > 1), check=check)
    if not check:
        c16.unchanged(mon, f, entries, 'listing without validity check')
        return
    c16.unchanged(mon, f, entries, 'listing with validity check', but=want)
    for n in want:
        if n in entries:
            mon.event('collisions')
        mon.check(n in f, 'a valid bandpass is not in the registry', name=n)
        mon.same(np.asarray(f[n].wave, dtype=np.float64), loadable[n][1],
                 'wavelengths in the registry', name=n)
        mon.same(np.asarray(f[n].response, dtype=np.float64), loadable[n][2],
                 'responses in the registry', name=n)
        alone = R.Response(filename=os.path.join(d, n + '.dat'))
        bad = digest.same(digest.response_state(alone), digest.response_state(f[n]))
        mon.check(not bad, 'the registry entry {} differs from its file in {}'.format(n, bad))
        mon.event('valid_entries')
    mon.event('invalid_files', len(loadable) - len(want))
    # and again: as the first time
    mid = c16.snap(f)
    again = R.all_responses(response_dir=d, check_validity=True)
    mon.check(sorted(again) == want, 'the second listing differs',
              missing=sorted(set(want) - set(again)), extra=sorted(set(again) - set(want)))
    mon.check(set(f) == set(mid), 'the second listing changes the registry')
    for n in mid:
        bad = digest.same(mid[n][1], digest.response_state(f[n]))
        mon.check(not bad, 'the second listing changed entry {} in {}'.format(n, bad))


def alter(rng, mon, d, kinds):
    """One of the good files gets other numbers, some of them as before; perhaps
    with the size and times of the old file."""
    good = [n for n in sorted(kinds) if kinds[n] == 'valid' and n != 'link']
    if not good:
        return
    p = os.path.join(d, str(rng.choice(good)) + '.dat')
    w, r = gen.read_dat(p)
    st = os.stat(p)
    how = str(rng.choice(['pass', 'lambda', 'one', 'last', 'shape', 'shape']))
    if how == 'pass':
        r = r * rng.uniform(0.5, 0.9)
    elif how == 'lambda':
        w = w + 7.
    elif how == 'one':
        r[int(rng.integers(len(r)))] += 0.01
    elif how == 'last':
        r[-1] += 0.02
    else:
        r = r[::-1].copy()
    gen.write_dat(p, w, r)
    if rng.random() < 0.5:
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    mon.event('altered_files')


def directories(rng, mon):
    f = R.ResponseDict()
    f.clear()
    for n in ('sdss_r0', 'bessell_V'):
        if rng.random() < 0.6:
            f.load_response(n)
    d = gen.scratch('d ir' if rng.random() < 0.2 else 'dir')
    os.makedirs(d)
    kinds = {}
    populate(rng, d, kinds)
    steps = int(rng.integers(3, 7))
    for i in range(steps):
        one(rng, mon, d, kinds, check=bool(rng.random() < 0.5))
        mon.key(i, tuple(sorted(kinds.items())))
        if rng.random() < 0.4:
            alter(rng, mon, d, kinds)
        u = rng.random()
        names = [n for n in kinds if n != 'link']
        if u < 0.4 and names:
            add(rng, d, str(rng.choice(names)), kinds)
        elif u < 0.6 and names:
            n = str(rng.choice(names))
            p = os.path.join(d, n + '.dat')
            if os.path.exists(p):
                os.remove(p)
            kinds.pop(n)
        elif u < 0.8:
            add(rng, d, 'later{}'.format(i), kinds)
        elif u < 0.9 and names:
            # a bandpass loaded by path, then listed by name
            f.load_response(gen.user_band(rng))
    mon.note(files=kinds)
    f.clear()


def empty(rng, mon):
    d = gen.scratch('dir')
    os.makedirs(d)
    one(rng, mon, d, {}, check=bool(rng.random() < 0.5))
    mon.check(R.all_responses(response_dir=d) == [], 'an empty directory lists something')
    mon.raises((OSError, ValueError), 'a directory which does not exist', R.all_responses,
               response_dir=os.path.join(d, 'no'))
    mon.key('empty', int(rng.integers(1000)))


def default(rng, mon):
    """The package's own directory."""
    f = R.ResponseDict()
    f.clear()
    if rng.random() < 0.5:
        for n in rng.choice(gen.POOL, 4, replace=False):
            f.load_response(str(n))
    kinds = dict((n, 'valid') for n in gen.shipped() if n not in ('blah', 'test'))
    one(rng, mon, DEFAULT, kinds, check=bool(mon.index % 2))
    mon.key('default', mon.index % 2)
    f.clear()


FAMILIES = [
    ('directories', directories, 80, 2500),
    ('empty', empty, 10, 60),
    ('default', default, 6, 40),
]
