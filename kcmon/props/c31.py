"""C31 Files cut short never pass for complete ones."""
import os
import resource
import signal

import numpy as np

from .. import digest, faults, gen, work

kc = gen.kc
RULE = ('A case saves an object (K-correction object, template set, spectra, bandpass; to a new '
        'file or over an older one) and cuts the file at HDU boundaries and random places, or '
        'saves it where the file system refuses to write more than so much, or interrupts the '
        'saving at a point of the execution; what is on the disk then is loaded, and must raise '
        'or be the complete object. Distinct by object and cuts.')
ASSUMPTIONS = ['a crash leaves a prefix of the bytes, or what the execution has written',
               'a saving which loses no more than the last 6976 bytes of the file, which numpy '
               'writes without noticing that it failed, need not raise if the file does not load']
MIN_EVENTS = {'cuts': 1500, 'loads_refused': 1800, 'loads_complete': 40, 'full_disk': 120,
              'interrupted_saves': 250, 'objects': 60}
KINDS = ['kcorrect', 'kcorrect', 'template', 'sed', 'sed_bin', 'response']
ERRORS = (Exception,)


def template_state(t):
    return digest.attrs(t, ('restframe_wave', 'restframe_flux', 'intsfh', 'mremain', 'mets',
                            'm50', 'm300', 'm1000', 'nsed', 'nwave'))


def kstate(k):
    d = template_state(k.templates)
    d.update(digest.attrs(k, ('nredshift', 'redshift_range', 'redshifts', 'responses',
                              'responses_out', 'responses_map', 'imap', 'abcorrect')))
    z = np.asarray(k.redshifts, dtype=np.float64)
    d['A'], d['Aout'] = np.array(k.Amatrix(z)), np.array(k.AmatrixOut(z))
    return d


def sstate(s):
    return digest.attrs(s, ('restframe_wave', 'restframe_flux', 'nsed', 'nwave'))


def rstate(r):
    return digest.attrs(r, ('wave', 'response', 'nwave', 'lambda_eff'))


def make(rng, kind):
    """(object, how to load one, state of it)"""
    if kind == 'kcorrect':
        c = gen.conf(rng, nz=int(rng.choice([2, 3, 9, 20, 60])), user=0.)
        k = gen.build(c)
        cls = type(k)

        def load(p):
            return (kc.kcorrect.Kcorrect)(filename=p)
        return k, load, kstate
    nsed = int(rng.choice([1, 2, 5]))
    if kind == 'template':
        return (gen.template(rng, nsed=nsed), lambda p: kc.template.Template(filename=p),
                template_state)
    if kind == 'response':
        w, r = gen.curve(rng)
        o = np.argsort(w)

        def load(p):
            q = kc.response.Response()
            q.fromfits(p)
            return q
        return kc.response.Response(wave=np.float32(w[o]), response=np.float32(r[o])), load, rstate
    w, f = gen.spectra(rng, nsed, int(rng.integers(60, 900)))
    s = kc.template.SED(wave=w, flux=f, interpolate=bool(rng.random() < 0.5))
    if kind == 'sed_bin':
        p = gen.scratch('b.fits')
        s.binimage = True
        s.tofits(p)
        s = kc.template.SED(filename=p)
    return s, lambda p: kc.template.SED(filename=p), sstate


def judge(mon, load, state, path, wants, what, **data):
    """Loading what is there raises, or gives one of the complete objects."""
    try:
        got = state(load(path))
    except ERRORS:
        mon.decisions += 1
        mon.event('loads_refused')
        return False
    bad = [digest.same(w, got) for w in wants]
    mon.check(any(not b for b in bad), what + ': an incomplete file was loaded as a different '
              'object', differs=min(bad, key=len), **data)
    mon.event('loads_complete')
    return True


def loaded_state(load, state, path):
    return state(load(path))


def cut(rng, mon):
    kind = KINDS[mon.index % len(KINDS)]
    o, load, state = make(rng, kind)
    mon.event('objects')
    p, q = gen.scratch('w.fits'), gen.scratch('c.fits')
    o.tofits(p)
    want = [loaded_state(load, state, p)]
    b = open(p, 'rb').read()
    n = len(b)
    mon.note(kind=kind, bytes=n)
    # where headers and data begin
    marks = [i for i in range(0, n, 2880)]
    heads = [i for i in marks if b[i:i + 8] in (b'SIMPLE  ', b'XTENSION')]
    cuts = set(heads) | set(i + 2880 for i in heads)
    cuts |= set(int(x) for x in rng.choice(marks, size=min(20, len(marks)), replace=False))
    cuts |= set(i + int(rng.integers(-40, 40)) for i in list(cuts))
    cuts |= set(int(x) for x in rng.integers(0, n, 30))
    cuts = sorted(x for x in cuts if 0 <= x < n)
    other = bool(kind == 'kcorrect')
    ts = [template_state(kc.template.Template(filename=p))] if other else None
    for x in cuts:
        with open(q, 'wb') as fp:
            fp.write(b[:x])
        mon.event('cuts')
        judge(mon, load, state, q, want, '{} cut to {} of {} bytes'.format(kind, x, n), kind=kind)
        if other and rng.random() < 0.3:
            # the template set in it
            judge(mon, lambda r: kc.template.Template(filename=r), template_state, q, ts,
                  'templates of a file cut to {} of {} bytes'.format(x, n))
    # complete again
    with open(q, 'wb') as fp:
        fp.write(b)
    mon.check(judge(mon, load, state, q, want, 'the complete file'), 'the complete file is refused')
    mon.key(kind, n, cuts)
    os.remove(p)
    os.remove(q)


# numpy writes arrays through a buffer of the C library, and does not notice if
# what is left in it when it closes the file can not be written
TAIL = 4096 + 2880


def full(rng, mon):
    """The disk is full."""
    kind = KINDS[mon.index % len(KINDS)]
    o, load, state = make(rng, kind)
    mon.event('objects')
    p, q = gen.scratch('w.fits'), gen.scratch('f.fits')
    o.tofits(p)
    want = loaded_state(load, state, p)
    mem = state(o)
    n = os.path.getsize(p)
    old = None
    if rng.random() < 0.5:
        oo, _, _ = make(rng, kind)
        oo.tofits(gen.scratch('o.fits'))
        old = gen.scratch('old.fits')
        oo.tofits(old)
    lims = [0, 2880, n // 2880 // 2 * 2880, n - 2880, n - 1, n, n + 9000]
    lims += [int(x) for x in rng.integers(0, n, 5)]
    for lim in lims:
        wants = [want]
        if os.path.exists(q):
            os.remove(q)
        if old is not None:
            with open(q, 'wb') as fp:
                fp.write(open(old, 'rb').read())
            wants.append(loaded_state(load, state, q))
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                try:
                    o.tofits(q)
                    code = 0
                except Exception:
                    code = 1
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if code not in (0, 1):
            raise RuntimeError('saving child ended with {}'.format(code))
        mon.event('full_disk')
        what = '{} saved with room for {} of {} bytes'.format(kind, lim, n)
        there = os.path.exists(q) and judge(mon, load, state, q, wants, what, kind=kind)
        if code == 0 and not there and n - TAIL <= lim < n:
            mon.event('tails_lost')
        elif code == 0:
            # it said the file is there
            mon.check(there, what + ': saving did not fail, but the file can not be loaded')
            mon.check(not digest.same(want, loaded_state(load, state, q)),
                      what + ': saving did not fail, but the file has something else')
    # and with room again
    o.tofits(q)
    mon.check(judge(mon, load, state, q, [want], 'saved after failures'), 'saved after failures')
    mon.check(not digest.same(mem, state(o)), 'the object itself changed')
    mon.key('full', kind, n, old is None, lims)
    mon.note(kind=kind, bytes=n)


def interrupted(rng, mon):
    """Saving stopped at a point of its execution."""
    kind = KINDS[mon.index % len(KINDS)]
    o, load, state = make(rng, kind)
    mon.event('objects')
    p, q = gen.scratch('w.fits'), gen.scratch('i.fits')
    with faults.Tracer() as tr:
        o.tofits(p)
    want = loaded_state(load, state, p)
    mem = state(o)
    old = None
    if rng.random() < 0.6:
        oo, _, _ = make(rng, kind)
        old = gen.scratch('old.fits')
        oo.tofits(old)
    pts = [tr.points[i] for i in
           sorted(rng.permutation(len(tr.points))[:18 if mon.tier == 'quick' else 60])]
    for at in pts:
        wants = [want]
        if os.path.exists(q):
            os.remove(q)
        if old is not None:
            with open(q, 'wb') as fp:
                fp.write(open(old, 'rb').read())
            wants.append(loaded_state(load, state, q))
        exc = faults.KINDS[int(rng.integers(len(faults.KINDS)))]
        with faults.Tracer(at=at, exc=exc) as t2:
            try:
                o.tofits(q)
                done = True
            except (faults.Injected, faults.InjectedMemory, faults.InjectedInterrupt):
                done = False
        if t2.fired is None:
            continue
        mon.event('interrupted_saves')
        what = '{} with its saving interrupted at {}'.format(kind, at[0])
        there = os.path.exists(q) and judge(mon, load, state, q, wants, what, kind=kind)
        if done:
            mon.check(there, what + ': saving did not fail, but the file can not be loaded')
        mon.check(not digest.same(mem, state(o)), what + ': the object itself changed',
                  changed=digest.same(mem, state(o)))
    o.tofits(q)
    mon.check(judge(mon, load, state, q, [want], 'saved after failures'), 'saved after failures')
    mon.key('interrupted', kind, old is None, [x[0] for x in pts])
    mon.note(kind=kind, points=len(tr.points))


FAMILIES = [
    ('cut', cut, 36, 600),
    ('full', full, 18, 300),
    ('interrupted', interrupted, 30, 400),
]
