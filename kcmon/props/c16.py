"""C16 The bandpass registry never holds a broken or stale entry."""
import os

import numpy as np
import astropy.io.ascii

from .. import digest, faults, gen, ref, work

RULE = ('Loads and reloads run with a real failure injected at one point each: at the n-th '
        'opening of a file, at every line of the code under test and at every call it makes '
        '(for three kinds of exception), or with missing, truncated and malformed files. After '
        'each the registry must be the old one or hold the complete new entry. Random histories '
        'of loads, reloads, rewriting and deleting files and constructing objects run against a '
        'model of the registry. Distinct by injection point, kind and prior state.')
ASSUMPTIONS = ['an exception injected after the entry was made may leave the new, complete entry',
               'truncated files which still parse count as files with those contents']
MIN_EVENTS = {'injected': 150, 'failed_loads': 150, 'distinct_points': 60, 'history_steps': 300,
              'registry_compared': 600, 'open_failures': 12, 'other_names': 500}
LEVEL = 'fault_enumeration'
R = gen.RESP


def yes(rng):
    return True if rng.random() < 0.7 else np.bool_(True)


def reg():
    return R.ResponseDict()


def snap(f):
    return dict((n, (f[n], digest.response_state(f[n]))) for n in list(f))


def unchanged(mon, f, before, what, but=()):
    mon.event('registry_compared')
    now = set(f) - set(but)
    mon.check(now == set(before) - set(but), what + ': other entries in the registry',
              extra=sorted(now - set(before)), missing=sorted(set(before) - set(but) - now))
    for n in now:
        mon.check(f[n] is before[n][0], what + ': the entry {} is another object'.format(n))
        bad = digest.same(before[n][1], digest.response_state(f[n]))
        mon.check(not bad, '{}: entry {} changed in {}'.format(what, n, bad))


def complete(mon, f, name, wave, resp, what):
    """The entry is there, complete, and holds exactly these data."""
    mon.check(name in f, what + ': no entry')
    r = f[name]
    mon.same(np.asarray(r.wave, dtype=np.float64), wave, what + ': wavelengths')
    mon.same(np.asarray(r.response, dtype=np.float64), resp, what + ': responses')
    mon.check(int(r.nwave) == len(wave), what + ': nwave')
    for n in ('lambda_eff', 'fwhm', 'fwhm_low', 'fwhm_high', 'interp'):
        mon.check(getattr(r, n, None) is not None, what + ': half-filled, no ' + n)
    mon.close(r.lambda_eff, ref.lambda_eff(wave, resp), what + ': effective wavelength', rtol=1e-5)
    x = 0.5 * (wave[1:] + wave[:-1])
    mon.close(r.interp(x), ref.Band(wave, resp)(x), what + ': interpolation', rtol=1e-6,
              atol=1e-6 * np.abs(resp).max())
    mon.close(r.fwhm, r.fwhm_high - r.fwhm_low, what + ': fwhm', rtol=1e-6, atol=1e-6)
    for n in ('solar_magnitude', 'vega2ab'):
        mon.check(hasattr(r, n), what + ': half-filled, no ' + n)
    mon.check(r.solar_magnitude is not None, what + ': no solar magnitude')


def newfile(rng, path=None):
    w, r = gen.curve(rng, lo=float(rng.uniform(3000, 9000)), n=int(rng.integers(8, 40)))
    lo = w[0]
    name = path or gen.scratch('band')
    gen.write_dat(name + '.dat', w, r)
    return (name,) + gen.read_dat(name + '.dat')


def setup(rng, f):
    """Some entries that are none of the test's business."""
    f.clear()
    f.load_response('sdss_r0')
    name, w, r = newfile(rng)
    f.load_response(name)
    return name


def prior(rng, f, state):
    """A band in the given state: its name, file data, registry data"""
    name, w, r = newfile(rng)
    old = None
    if state == 'reload':
        f.load_response(name)
        old = (w, r)
        name, w, r = newfile(rng, path=name)
    return name, (w, r), old


def attempt(mon, f, name, new, old, call, what):
    """One failing load: registry as it was, or complete; then a clean one."""
    before = snap(f)
    try:
        call()
        raised = None
    except BaseException as e:
        raised = e
        if not isinstance(e, (Exception, KeyboardInterrupt)):
            raise
    if raised is None:
        # the error was survived: fine, with a complete entry
        unchanged(mon, f, before, what, but=(name,))
        complete(mon, f, name, new[0], new[1], what + ' (returned)')
        return 'returned'
    if name in f and (name not in before or f[name] is not before[name][0]):
        unchanged(mon, f, before, what, but=(name,))
        complete(mon, f, name, new[0], new[1], what + ' (entered before it failed)')
        return 'entered'
    unchanged(mon, f, before, what)
    return 'failed'


def lines(rng, mon):
    """An exception at one line or call of a load."""
    f = reg()
    setup(rng, f)
    state = str(rng.choice(['absent', 'reload']))
    via = str(rng.choice(['load', 'load', 'load', 'flambda', 'fitter', 'all']))
    mon.note(state=state, via=via)

    def caller(name):
        if via == 'load' or state == 'reload':
            return lambda: f.load_response(name, reload=(state == 'reload'))
        if via == 'flambda':
            return lambda: gen.kc.utils.maggies2flambda(np.float32([1e-9]), responses=[name])
        if via == 'fitter':
            t = gen.template(rng, nsed=1, interpolate=True)
            return lambda: gen.kc.kcorrect.Kcorrect(responses=[name], templates=t,
                                                    redshift_range=[0., 0.1], nredshift=2)
        return lambda: None
    if via == 'all' and state == 'absent':
        # the listing with its validity check
        return listing(rng, mon, f)
    name, new, old = prior(rng, f, state)
    call = caller(name)
    with faults.Tracer() as t:
        call()
    first, last = {}, {}
    for key, n in t.points:
        first.setdefault(key, n)
        last[key] = n
    pts = sorted(first, key=repr)
    mon.event('distinct_points_per_load', len(pts))
    k = 20 if mon.tier == 'quick' else 60
    sel = [pts[i] for i in rng.permutation(len(pts))[:k]]
    for key in sel:
        occ = first[key] if rng.random() < 0.5 else (
            last[key] if rng.random() < 0.5 else int(rng.integers(first[key], last[key] + 1)))
        exc = faults.KINDS[int(rng.integers(3))]
        if name in f and state == 'absent':
            del f[name]
        if state == 'reload':
            # the registry holds the old contents again
            gen.write_dat(name + '.dat', *old)
            f.load_response(name, reload=yes(rng))
            gen.write_dat(name + '.dat', *new)
        call = caller(name)
        tr = faults.Tracer(at=(key, occ), exc=exc)

        def run():
            with tr:
                call()
        how = attempt(mon, f, name, new, old, run, 'failed at {} ({})'.format(key, exc.__name__))
        if tr.fired is None:
            continue
        mon.event('injected')
        mon.event('outcome_' + how)
        if how == 'failed':
            mon.event('failed_loads')
        mon.key(state, via, key, exc.__name__)
        # and then it works
        f.load_response(name, reload=yes(rng))
        complete(mon, f, name, new[0], new[1], 'a load after a failed one')
    mon.event('distinct_points', len(sel))


def listing(rng, mon, f):
    d = gen.scratch('dir')
    os.makedirs(d)
    bands = {}
    for i in range(3):
        n, w, r = newfile(rng, path=os.path.join(d, 'b{}'.format(i)))
        bands['b{}'.format(i)] = (w, r)
    call = lambda: R.all_responses(response_dir=d, check_validity=True)   # noqa: E731
    with faults.Tracer() as t:
        call()
    keys = sorted(set(k for k, n in t.points), key=repr)
    for key in [keys[i] for i in rng.permutation(len(keys))[:15]]:
        occ = int(rng.integers(0, t.count[key]))
        for n in bands:
            f.pop(n, None)
        before = snap(f)
        tr = faults.Tracer(at=(key, occ), exc=faults.KINDS[int(rng.integers(3))])
        out = None
        try:
            with tr:
                out = call()
        except (Exception, KeyboardInterrupt):
            pass
        if tr.fired is None:
            continue
        mon.event('injected')
        mon.key('all', key, occ, tr.exc.__name__)
        unchanged(mon, f, before, 'listing failed at {}'.format(key), but=bands)
        for n in bands:
            if n in f:
                complete(mon, f, n, bands[n][0], bands[n][1], 'listing failed at {}'.format(key))
            elif out is not None:
                mon.check(n not in out, 'a band is listed as valid which was not loaded')
    for n in bands:
        f.pop(n, None)
    mon.event('distinct_points', 15)


def opens(rng, mon):
    """The n-th opening of a file fails."""
    f = reg()
    setup(rng, f)
    state = str(rng.choice(['absent', 'reload']))
    mon.note(state=state)
    name, new, old = prior(rng, f, state)
    for n in range(1, 8):
        exc = [faults.Injected, PermissionError, InterruptedError][int(rng.integers(3))]
        o = faults.OpenFaults(('.dat', '.ori'), n, exc)

        def run():
            with o:
                f.load_response(name, reload=yes(rng) if state == 'reload' else False)
        before = snap(f)
        how = attempt(mon, f, name, new, old, run, 'opening {} failed'.format(n))
        if not o.fired:
            mon.check(how == 'returned', 'a load without an error failed')
            break
        mon.event('open_failures')
        mon.key(state, n, exc.__name__)
        mon.check(how == 'failed' or how == 'returned', 'a load entered a bandpass and failed')
        if how == 'failed':
            mon.event('failed_loads')
            # again: it must fail again
            o = faults.OpenFaults(('.dat', '.ori'), n, exc)
            mon.check(attempt(mon, f, name, new, old, run, 'opening {} failed again'.format(n))
                      == 'failed', 'a load which failed is accepted when repeated')
            unchanged(mon, f, before, 'after two failed loads')


BAD = ['missing', 'empty', 'header', 'nocolumn', 'text', 'directory', 'short', 'binary', 'equal',
       'truncated', 'mangled']


def write_bad(rng, path, kind):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    w, r = gen.curve(rng, n=int(rng.integers(6, 30)))
    if kind == 'missing':
        return
    if kind == 'directory':
        os.makedirs(path)
        return
    gen.write_dat(path, w, r)
    txt = open(path).read()
    ls = txt.split('\n')
    if kind == 'empty':
        txt = ''
    elif kind == 'header':
        txt = ls[0] + '\n'
    elif kind == 'nocolumn':
        txt = txt.replace('lambda', 'wavele') if rng.random() < 0.5 else txt.replace('pass', 'thru')
    elif kind == 'text':
        i = int(rng.integers(1, len(ls) - 1))
        j = ls[i].rindex('.') if '.' in ls[i] else 5
        ls[i] = ls[i][:j] + 'x' + ls[i][j + 1:]
        txt = '\n'.join(ls)
    elif kind == 'short':
        txt = '\n'.join(ls[:1 + int(rng.integers(1, 4))]) + '\n'
    elif kind == 'binary':
        open(path, 'wb').write(bytes(rng.integers(0, 256, 300, dtype=np.uint8)))
        return
    elif kind == 'equal':
        w[1] = w[0]
        gen.write_dat(path, w, r)
        return
    elif kind == 'truncated':
        txt = txt[:int(rng.integers(0, len(txt)))]
    elif kind == 'mangled':
        b = list(txt)
        for _ in range(int(rng.integers(1, 6))):
            b[int(rng.integers(len(b)))] = str(rng.choice(list('x|. -e9\n')))
        txt = ''.join(b)
    open(path, 'w').write(txt)


def independent(path):
    """What the file holds, if it can be read: (wave, response) or None."""
    try:
        t = astropy.io.ascii.read(path, format='fixed_width')
        w, r = t['lambda'], t['pass']
        if np.ma.isMaskedArray(w) or np.ma.isMaskedArray(r):
            return 'undecided'
        w, r = np.asarray(w, dtype=np.float64), np.asarray(r, dtype=np.float64)
        if not (np.isfinite(w).all() and np.isfinite(r).all()):
            return 'undecided'
        o = np.argsort(w, kind='stable')
        if len(np.unique(w)) < len(w):
            return 'undecided' if len(w) >= 4 else None
        return w[o], r[o]
    except Exception:
        return None


def files(rng, mon):
    """Missing and malformed files."""
    f = reg()
    setup(rng, f)
    for _ in range(6):
        kind = str(rng.choice(BAD))
        loaded = bool(rng.random() < 0.5)
        name, w, r = newfile(rng)
        if loaded:
            f.load_response(name)
        write_bad(rng, name + '.dat', kind)
        mon.key(kind, loaded, int(rng.integers(1000)))
        reload = loaded or bool(rng.random() < 0.3)
        for i in range(int(rng.integers(2, 4))):
            before = snap(f)
            want = None if kind in ('missing', 'directory', 'binary') else \
                independent(name + '.dat')
            try:
                f.load_response(name, reload=reload)
                err = None
            except Exception as e:
                err = e
            if err is None:
                mon.check(want is not None or kind in ('binary',), 'a {} file was accepted'.format(kind),
                          text=open(name + '.dat', 'rb').read()[:300]
                          if os.path.isfile(name + '.dat') else None)
                unchanged(mon, f, before, 'a load', but=(name,))
                mon.event('odd_files_loaded')
                if want is not None and not isinstance(want, str):
                    mon.same(np.asarray(f[name].wave, dtype=np.float64), want[0], 'wavelengths')
                    mon.same(np.asarray(f[name].response, dtype=np.float64), want[1], 'responses')
                for n in ('lambda_eff', 'fwhm', 'interp'):
                    mon.check(getattr(f[name], n, None) is not None, 'half-filled, no ' + n)
                break
            unchanged(mon, f, before, 'a failed load ({} file)'.format(kind))
            mon.event('failed_loads')
            if loaded:
                # still there without a reload
                f.load_response(name)
                unchanged(mon, f, before, 'a load of a band already there')
        # mended
        if os.path.isdir(name + '.dat'):
            os.rmdir(name + '.dat')
        name, w, r = newfile(rng, path=name)
        f.load_response(name, reload=yes(rng))
        complete(mon, f, name, w, r, 'a load after the file was mended')


def variants(rng, n):
    """Names that are not the name."""
    d, b = os.path.split(n)
    i = int(rng.integers(len(b)))
    out = [b.upper(), b.lower(), b.swapcase(), b.capitalize(), b + '.dat', b + '.dat.dat', b + ' ',
           ' ' + b, b[:-1], b[1:], b + '0', b + '_', b[:i] + b[i + 1:], b + '.par', b + '.fits',
           b.replace('_', '-'), b.replace('_', ''), b.replace('_', ' '), b + '*', b + '?', '']
    return [os.path.join(d, x) if d else x for x in out if x != b]


def names(rng, mon):
    """Only the very name of a file finds it."""
    f = reg()
    setup(rng, f)
    mine = gen.scratch('Dir_a')
    os.makedirs(mine)
    good = newfile(rng, path=os.path.join(mine, str(rng.choice(['my_band', 'My_Band', 'band.v1']))))
    shipped = gen.shipped()
    for _ in range(4):
        n = good[0] if rng.random() < 0.3 else str(rng.choice(shipped))
        if rng.random() < 0.5:
            f.load_response(n)
        for v in variants(rng, n):
            path = v + '.dat'
            if not os.path.isabs(v):
                path = os.path.join(gen.DATADIR, 'responses', path)
            if os.path.exists(path) or v in f:
                continue
            before = snap(f)
            mon.raises(Exception, 'a band of the name {!r}, which has no file,'.format(v),
                       f.load_response, v, **(dict(reload=True) if rng.random() < 0.2 else {}))
            unchanged(mon, f, before, 'a band of another name')
            mon.event('failed_loads')
            mon.event('other_names')
        # it is the bare name that is looked for among the shipped ones
        mon.key(n)
    # a file of the working directory is none of the shipped
    old = os.getcwd()
    os.chdir(mine)
    try:
        v = os.path.basename(good[0])
        before = snap(f)
        try:
            f.load_response('./' + v)
        except Exception:
            unchanged(mon, f, before, 'a relative name')
        else:
            complete(mon, f, './' + v, good[1], good[2], 'a relative name')
            unchanged(mon, f, before, 'a relative name', but=('./' + v,))
            f.pop('./' + v)
        n = str(rng.choice([x for x in gen.OPTICAL if x not in f]))
        newfile(rng, path=os.path.join(mine, n))
        f.load_response(n)
        b = gen.band(n)
        complete(mon, f, n, b.wave, b.response, 'a shipped band with a file of its name here')
    finally:
        os.chdir(old)


def history(rng, mon):
    """Random histories against a model of the registry."""
    f = reg()
    mon.check(R.ResponseDict() is f and isinstance(f, dict), 'there are two registries')
    f.clear()
    names = [newfile(rng)[0] for _ in range(3)]
    names.append('sdss_i0')
    names.append('bessell_V')
    disk, model = {}, {}

    def read(n):
        p = n + '.dat' if os.path.isabs(n) else os.path.join(gen.DATADIR, 'responses', n + '.dat')
        return gen.read_dat(p)
    for n in names:
        disk[n] = read(n)
    seq = []
    for step in range(int(rng.integers(12, 25))):
        n = names[int(rng.integers(len(names)))]
        user = os.path.isabs(n)
        op = str(rng.choice(['load', 'load', 'reload', 'rewrite', 'break', 'mend', 'flambda',
                             'fitter', 'standalone', 'delete', 'all', 'get']))
        if seq and seq[-1][0] == 'rewrite' and rng.random() < 0.6:
            op, n, user = 'reload', last, os.path.isabs(last)
        elif n in model and user and disk[n] is not None and rng.random() < 0.3:
            op = 'rewrite'
        last = n
        seq.append((op, os.path.basename(n)))
        before = snap(f)
        g = R.ResponseDict()
        mon.check(g is f, 'there are two registries')
        if op in ('load', 'reload', 'flambda', 'fitter'):
            had = n in model
            try:
                if op == 'flambda':
                    gen.kc.utils.maggies2flambda(np.float32([1., 2.]), responses=[n, n])
                elif op == 'fitter':
                    t = gen.template(rng, nsed=1)
                    gen.kc.kcorrect.Kcorrect(responses=[n], templates=t,
                                             redshift_range=[0., 0.1], nredshift=2)
                else:
                    g.load_response(n, reload=(op == 'reload'))
                ok = True
            except Exception:
                ok = False
            must = (had and op != 'reload') or disk[n] is not None
            mon.check(ok == must, '{} {}'.format(op, 'failed' if must else 'of a broken file '
                                                 'was accepted'), history=seq)
            if ok and (op == 'reload' or not had):
                unchanged(mon, f, before, op, but=(n,))
                model[n] = disk[n]
                mon.check(not had or op != 'reload' or
                          True, 'reload')
            else:
                unchanged(mon, f, before, op)
                if not ok:
                    mon.event('failed_loads')
        elif op == 'rewrite' and user:
            with gen.Dated(rng, n + '.dat'):
                if disk[n] is not None and rng.random() < 0.5:
                    # (as many bytes as before)
                    gen.write_dat(n + '.dat', disk[n][0], disk[n][1][::-1])
                    disk[n] = gen.read_dat(n + '.dat')
                else:
                    disk[n] = newfile(rng, path=n)[1:]
        elif op == 'break' and user:
            with gen.Dated(rng, n + '.dat'):
                write_bad(rng, n + '.dat',
                          str(rng.choice(['empty', 'header', 'nocolumn', 'missing'])))
            disk[n] = None
        elif op == 'delete' and user:
            if os.path.exists(n + '.dat'):
                os.remove(n + '.dat')
            disk[n] = None
        elif op == 'mend' and user and disk[n] is None:
            disk[n] = newfile(rng, path=n)[1:]
        elif op == 'standalone' and disk[n] is not None:
            r = R.Response(filename=n + '.dat')
            r.set_solar_magnitude()
            r.set_vega2ab()
            r.project(wave=disk[n][0], flux=disk[n][1])
            unchanged(mon, f, before, 'reading a bandpass alone')
        elif op == 'all':
            R.all_responses(response_dir=os.path.dirname(names[0]))
            unchanged(mon, f, before, 'listing')
        elif op == 'get' and n in model:
            r = f[n]
            r.project(wave=model[n][0], flux=np.ones(len(model[n][0])))
            unchanged(mon, f, before, 'using a bandpass')
        mon.check(set(f) == set(model), 'the registry has other entries than were loaded',
                  got=sorted(f), want=sorted(model), history=seq)
        for q, (w, r) in model.items():
            complete(mon, f, q, w, r, 'entry after ' + op)
        mon.event('history_steps')
    mon.key(seq)
    mon.note(history=seq)


FAMILIES = [
    ('lines', lines, 30, 300),
    ('opens', opens, 16, 120),
    ('files', files, 40, 600),
    ('history', history, 30, 500),
    ('names', names, 24, 400),
]
