"""C27 Threads sharing bandpasses and fitters see sequential results."""
import os
import subprocess
import sys
import threading
import time

import numpy as np

from .. import boot, digest, gen, sched, work
from . import c16, c23

kc = gen.kc
RULE = ('Real threads run the real code under schedules made by a baton that is handed on at the '
        'lines and opcodes of the code under test and at its calls: a loading thread interrupted '
        'at every point by a looking thread; one interruption at a chosen point with the other '
        'thread run to its end; random walks; and free-running threads with the shortest switch '
        'interval. Lookups, loads and results are compared with files and with sequential runs. '
        'Distinct by operations and schedule.')
ASSUMPTIONS = ['templates are not shared by threads that construct objects',
               'schedules interleave at lines, opcodes and calls, not inside compiled code, '
               'except in the free-running family']
MIN_EVENTS = {'schedules': 250, 'lookups': 1500, 'switches': 3000, 'results_compared': 500,
              'loads': 100}
R = gen.RESP


def reg():
    return R.ResponseDict()


def outcome(mon, res, what):
    out = []
    for i, r in enumerate(res):
        mon.check(r is not None and r[0] == 'ok', '{}: thread {} {}'.format(
            what, i, 'did not end' if r is None else 'raised {!r}'.format(r[1])))
        out.append(r[1])
    return out


def run(mon, b, fns, what):
    try:
        res = b.run(fns)
    except sched.Stuck as e:
        mon.check(False, '{}: threads block each other: {}'.format(what, e))
    mon.event('schedules')
    mon.event('switches', len(b.schedule))
    mon.event('points', b.points)
    if b.forced:
        mon.event('blocked', b.forced)
    return outcome(mon, res, what)


def fresh(name):
    """What a bandpass of this name, loaded with nobody else around, shows."""
    r = R.Response()
    r.fromdat(filename=name + '.dat')
    return digest.response_state(r)


def is_one_of(state, states):
    for i, s in enumerate(states):
        if not digest.same(state, s):
            return i
    return None


LOADERS = ['load', 'reload', 'load_shipped', 'flambda', 'listing', 'construct']


def lookups(rng, mon):
    """A loading thread, interrupted at every point by one that looks."""
    kind = LOADERS[mon.index % len(LOADERS)]
    f = reg()
    f.clear()
    f.load_response('sdss_g0')
    name, w, r = c16.newfile(rng)
    states = []
    if kind in ('reload', 'listing') or (kind != 'load_shipped' and rng.random() < 0.2):
        f.load_response(name)
        states.append(fresh(name))
        c16.newfile(rng, path=name)          # (new contents)
    look = name
    if kind == 'load':
        def loader():
            f.load_response(name)
    elif kind == 'reload':
        def loader():
            f.load_response(name, reload=True)
    elif kind == 'load_shipped':
        look = str(rng.choice([n for n in gen.OPTICAL if n != 'sdss_g0']))
        f.pop(look, None)

        def loader():
            reg().load_response(look)
    elif kind == 'flambda':
        def loader():
            kc.utils.maggies2flambda(maggies=np.ones(2, dtype=np.float32),
                                     responses=['sdss_g0', name])
    elif kind == 'listing':
        d = gen.scratch('dir')
        os.makedirs(d)
        look = 'mine'
        gen.write_dat(os.path.join(d, 'mine.dat'), w, r)
        if rng.random() < 0.5:
            old = R.Response(wave=np.array(w), response=np.array(r)[::-1].copy())
            f[look] = old
            states = [digest.response_state(old)]
        else:
            states = []

        def loader():
            R.all_responses(response_dir=d, check_validity=True)
    else:
        t = gen.template(rng, nsed=1, nwave=250)

        def loader():
            kc.kcorrect.Kcorrect(responses=['sdss_g0'], responses_out=[name],
                                 responses_map=['sdss_g0'], templates=t, nredshift=2)
    had = bool(states)
    if kind == 'listing':
        probe = R.Response()
        probe.fromdat(filename=os.path.join(d, 'mine.dat'))
        states.append(digest.response_state(probe))
    else:
        states.append(fresh(look))
    new = len(states) - 1
    other = digest.response_state(f['sdss_g0'])
    seen, end = [], [False]

    def watcher():
        while not end[0]:
            if look in f:
                try:
                    e = f[look]
                except KeyError:
                    seen.append('gone')
                else:
                    try:
                        i = is_one_of(digest.response_state(e), states)
                    except Exception as x:
                        i = 'broken: {!r}'.format(x)
                    seen.append('half' if i is None else i)
            else:
                seen.append('none')
            if 'sdss_g0' not in f or digest.same(other, digest.response_state(f['sdss_g0'])):
                seen.append('other changed')
            b.point('turn')

    def load():
        loader()
        end[0] = True
    b = sched.Baton(sched.every(0, 1), opcodes=bool(rng.random() < 0.15), cap=6)
    run(mon, b, [load, watcher], kind)
    mon.event('lookups', len(seen))
    mon.event('loads')
    mon.check(len(seen) > 3 or (had and kind not in ('reload', 'listing')), 'harness: nothing seen')
    # what was there before does not go away
    ok = set(range(len(states))) | (set() if had else {'none', 'gone'})
    for i, s in enumerate(seen):
        mon.check(s in ok, '{}: a lookup during the load saw {}'.format(kind, s), at=i, of=len(seen))
    order = [s for s in seen if isinstance(s, int)]
    mon.check(order == sorted(order), kind + ': a lookup saw the old entry after the new one')
    final = is_one_of(digest.response_state(f[look]), states)
    if kind in ('load', 'flambda', 'construct') and had:
        mon.check(final in (0, new), kind + ': final entry', got=final)
    else:
        mon.check(final == new, kind + ': final entry is not that of the file', got=final)
    mon.note(kind=kind, points=b.points, lookups=len(seen), saw=sorted(set(map(str, seen))))
    mon.key(kind, had, b.points)


def loads(rng, mon):
    """Threads that ask for loads and use what they asked for at once."""
    f = reg()
    nt = int(rng.choice([2, 2, 3, 4]))
    made = []
    for _ in range(int(rng.choice([1, 1, 2]))):
        made.append(c16.newfile(rng)[0])
    if rng.random() < 0.4:
        made.append(str(rng.choice(gen.OPTICAL)))
    want = dict((n, fresh(n)) for n in made)
    warm = [bool(rng.random() < 0.4) for _ in made]
    plan = []
    for _ in range(nt):
        steps = []
        for _ in range(int(rng.choice([1, 1, 2]))):
            n = made[int(rng.integers(len(made)))]
            steps.append((str(rng.choice(['load', 'load', 'reload', 'flambda', 'construct'],
                                         p=[0.35, 0.25, 0.2, 0.12, 0.08])), n))
        plan.append(steps)
    if rng.random() < 0.4:
        # one reloads what the others have
        warm[0] = True
        plan[0][0] = ('reload', made[0])
        plan[1][0] = (str(rng.choice(['use', 'use', 'load'])), made[0])
    tmpl = [gen.template(rng, nsed=1, nwave=250) for _ in range(nt)]
    wave = np.float32(np.linspace(2000., 30000., 400))
    b = [None]

    def thread(i):
        def body():
            bad = []
            for kind, n in plan[i]:
                if kind == 'load':
                    reg().load_response(n)
                elif kind == 'reload':
                    reg().load_response(n, reload=True)
                elif kind == 'use':
                    # (there from the start)
                    pass
                elif kind == 'flambda':
                    kc.utils.maggies2flambda(maggies=np.ones(1, dtype=np.float32), responses=[n])
                else:
                    kc.kcorrect.Kcorrect(responses=[n], templates=tmpl[i], nredshift=2)
                b[0].point('between')
                e = reg()[n]
                d = digest.same(want[n], digest.response_state(e))
                if d:
                    bad.append('{} after {}: {}'.format(os.path.basename(n), kind, d))
                e.project(wave=wave, flux=wave * 0. + 1e-10)
                b[0].point('between')
            return bad
        return body
    # how many points the first thread has
    marks = None
    nsch = 4 if mon.tier == 'quick' else 12
    for s in range(nsch):
        f.clear()
        for n, wm in zip(made, warm):
            if wm:
                f.load_response(n)
        if s % 2 == 0 and marks:
            pol = sched.once(0, int(rng.choice(marks)), 1)
        elif s % 3 == 0:
            pol = sched.bursts(rng, 60)
        else:
            pol = sched.walk(rng, float(rng.choice([0.02, 0.1, 0.5])))
        b[0] = sched.Baton(pol, opcodes=bool(rng.random() < 0.1), cap=20)
        out = run(mon, b[0], [thread(i) for i in range(nt)], 'loads')
        marks = b[0].marks[0]
        for i, o in enumerate(out):
            mon.check(not o, 'thread {} cannot use what it asked for: {}'.format(i, o), plan=plan)
            mon.event('loads', len(plan[i]))
            mon.event('lookups', len(plan[i]))
        for n in set(n for p in plan for _, n in p):
            d = digest.same(want[n], digest.response_state(f[n]))
            mon.check(not d, 'final entry of {} differs in {}'.format(n, d))
        mon.key(plan, warm, sched.signature(b[0]))
    mon.note(threads=nt, plan=[[k for k, _ in p] for p in plan], warm=warm)


def jobs_of(rng, c, m, k):
    """[(name, function)] giving a frozen result; sequential results alike"""
    jobs = []
    for n in (None, int(rng.choice([1, 2, 3]))):
        for name, fn, args, kw in c23.ops_of(rng, c, m, k, n):
            if name in ('to_ab',):
                continue
            a = dict(args, **kw)
            if name == 'fit_mc':
                def job(fn=fn, a=a):
                    cf, cmc, mmc = fn(**dict(a))
                    return np.array(cf)
            else:
                def job(fn=fn, a=a):
                    return c23.freeze(fn(**dict((x, np.array(v, copy=True) if isinstance(
                        v, np.ndarray) else v) for x, v in a.items())))
            jobs.append((name, job))
    # other functions that have no state either
    wave, flux = gen.spectra(rng, int(rng.choice([1, 2])), 120)
    names = [x for x in m.responses]
    mg = np.float32(rng.uniform(1, 2, (2, len(names))) * 1e-9)

    def proj():
        return c23.freeze(reg()[names[0]].project(wave=wave, flux=flux))

    def flam():
        return c23.freeze(kc.utils.maggies2flambda(maggies=mg, ivar=mg, responses=names))

    def asinh():
        return c23.freeze(kc.utils.sdss_asinh_to_maggies(
            mag=np.float32([[20., 21., 19., 18., 17.]] * 2),
            mag_err=np.float32([[.1, .1, .2, .1, .1]] * 2)))

    def floor():
        return c23.freeze(kc.utils.error_floor(floor=np.full(len(names), 0.05, dtype=np.float32),
                                               maggies=mg, ivar=np.float32(1e4) / mg**2))
    jobs += [('project', proj), ('flambda', flam), ('asinh', asinh), ('floor', floor)]
    return jobs


def calculations(rng, mon):
    """Threads calculating on one shared object."""
    c, m, k = gen.make(rng, nz=int(rng.choice([2, 3, 6])), user=0.1,
                       nin=int(rng.choice([2, 3, 5])), nsed=int(rng.choice([1, 2, 4])))
    mon.note(**gen.describe(c))
    for n in m.responses:
        reg().load_response(n)
    jobs = jobs_of(rng, c, m, k)
    want = {}
    for i, (n, j) in enumerate(jobs):
        want[i] = j()
    s0 = digest.fitter_state(k)
    nsch = 10 if mon.tier == 'quick' else 30
    steps = {}

    def compare(i, got, what):
        c23.same_result(mon, got, want[i], '{}: {}'.format(what, jobs[i][0]))
        mon.event('results_compared')
    for s in range(nsch):
        nt = 2 if s % 2 == 0 else int(rng.choice([2, 3, 4]))
        # often the same operation on other objects
        ids = [int(rng.integers(len(jobs)))]
        for _ in range(nt - 1):
            same = [i for i, j in enumerate(jobs) if j[0] == jobs[ids[0]][0] and i != ids[0]]
            ids.append(int(rng.choice(same)) if same and rng.random() < 0.5
                       else int(rng.integers(len(jobs))))
        if s % 2 == 0:
            if ids[0] not in steps:
                b = sched.Baton(sched.once(0, -1, 1))
                compare(ids[0], run(mon, b, [jobs[ids[0]][1]], 'alone')[0], 'one thread')
                steps[ids[0]] = b.marks[0] or [0]
            # interrupted at several points
            for at in rng.choice(steps[ids[0]], 4):
                b = sched.Baton(sched.once(0, int(at), 1))
                out = run(mon, b, [jobs[i][1] for i in ids], 'calculations')
                for i, o in zip(ids, out):
                    compare(i, o, 'interrupted at point {}'.format(at))
                mon.key([jobs[i][0] for i in ids], sched.signature(b))
            continue
        pol = sched.walk(rng, float(rng.choice([0.05, 0.3, 0.9]))) if s % 3 else \
            sched.bursts(rng, 25)
        b = sched.Baton(pol, opcodes=bool(rng.random() < 0.15))
        out = run(mon, b, [jobs[i][1] for i in ids], 'calculations')
        for i, o in zip(ids, out):
            compare(i, o, '{} threads'.format(nt))
        mon.key([jobs[i][0] for i in ids], sched.signature(b))
    bad = digest.same(s0, digest.fitter_state(k))
    mon.check(not bad, 'concurrent calculations changed ' + ', '.join(bad[:5]))


def free(rng, mon):
    """Free-running threads."""
    c, m, k = gen.make(rng, nz=int(rng.choice([2, 3, 6])), user=0.1,
                       nin=int(rng.choice([2, 3, 5])), nsed=int(rng.choice([1, 2, 4])))
    mon.note(**gen.describe(c))
    f = reg()
    for n in m.responses:
        f.load_response(n)
    jobs = jobs_of(rng, c, m, k)
    want = dict((i, j()) for i, (n, j) in enumerate(jobs))
    name = c16.newfile(rng)[0]
    state = fresh(name)
    f.load_response(name)
    nt = int(rng.choice([3, 4, 6]))
    rounds = 25 if mon.tier == 'quick' else 80
    seeds = [int(x) for x in rng.integers(1 << 31, size=nt)]
    found, errors, seen, looks, end = [], [], [0], [], [False]

    def worker(i):
        r = np.random.default_rng(seeds[i])
        try:
            for _ in range(rounds):
                j = int(r.integers(len(jobs)))
                found.append((j, jobs[j][1]()))
                if r.random() < 0.1:
                    time.sleep(float(r.uniform(0, 1e-3)))
        except BaseException as e:
            errors.append(e)

    def loader():
        try:
            while not end[0]:
                f.load_response(name, reload=True)
                if digest.same(state, digest.response_state(f[name])):
                    looks.append('reload')
                seen[0] += 1
        except BaseException as e:
            errors.append(e)

    def looker():
        try:
            while not end[0]:
                f.load_response(name)
                if digest.same(state, digest.response_state(f[name])):
                    looks.append('lookup')
                seen[0] += 1
                time.sleep(2e-4)
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(nt)]
        xs = [threading.Thread(target=g, daemon=True) for g in (loader, looker, looker)]
        for t in ts + xs:
            t.start()
        for t in ts:
            t.join(300.)
        end[0] = True
        for t in xs:
            t.join(300.)
    finally:
        sys.setswitchinterval(old)
    mon.check(not any(t.is_alive() for t in ts + xs), 'threads did not end')
    mon.check(not errors, 'a thread raised {!r}'.format(errors[:1]))
    mon.check(not looks, 'a {} saw an incomplete entry'.format(looks[:1]))
    for j, got in found:
        c23.same_result(mon, got, want[j], 'free-running threads: ' + jobs[j][0])
        mon.event('results_compared')
    mon.event('lookups', seen[0])
    mon.event('free_running')
    mon.key(nt, [n for n, _ in jobs], c['cls'], seeds[0])


FIRST = '''
import sys
sys.path.insert(0, {verif!r})
from kcmon import boot, sched
import numpy as np
kc = boot.boot()
R = kc.response
name, at, op = {name!r}, {at}, {op}
def t():
    f = R.ResponseDict()
    b.point('between')
    f.load_response(name)
    b.point('between')
    e = R.ResponseDict()[name]
    return id(f), float(e.lambda_eff), e.interp is not None
rng = np.random.default_rng({seed})
pol = sched.once(0, at, 1) if at >= 0 else sched.walk(rng, 0.3)
b = sched.Baton(pol, opcodes=op)
out = b.run([t] * {nt})
g = R.ResponseDict()
for o in out:
    if o[0] != 'ok':
        print('BAD raised', repr(o[1]))
    elif o[1][0] != id(g):
        print('BAD another registry')
    elif o[1][1:] != (float(g[name].lambda_eff), True):
        print('BAD entry')
if name not in g:
    print('BAD entry lost')
print('DONE', b.points, len(b.schedule))
'''


def first(rng, mon):
    """Threads that are the first to ask for the registry."""
    name = c16.newfile(rng)[0]
    i = mon.index
    at = i if i < 8 else (-1 if rng.random() < 0.5 else int(rng.integers(0, 40)))
    op = bool(i >= 8 and rng.random() < 0.5)
    code = FIRST.format(verif=boot.VERIF, name=name, at=at, op=op, nt=2 + i % 2,
                        seed=int(rng.integers(1 << 31)))
    p = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True,
                       timeout=200)
    mon.check('DONE' in p.stdout, 'threads asking first: ' + (p.stdout + p.stderr)[-800:])
    mon.check('BAD' not in p.stdout, 'threads asking first: ' + p.stdout[:500], at=at, opcodes=op)
    w = p.stdout.split('DONE')[1].split()
    mon.event('schedules')
    mon.event('first')
    mon.event('switches', int(w[1]))
    mon.event('loads', 2)
    mon.key(at, op, i % 2)


FAMILIES = [
    ('lookups', lookups, 36, 400),
    ('loads', loads, 30, 400),
    ('calculations', calculations, 40, 600),
    ('free', free, 6, 60),
    ('first', first, 8, 40),
]
