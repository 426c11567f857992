"""Case runner: verdicts, evidence, replay.

A property module gives FAMILIES = [(name, function, n_quick, n_thorough)].
function(rng, mon) runs one case against the real code and reports to `mon`:

    mon.check(ok, what, **data)   one decision of the oracle
    mon.event(kind, n=1)          something the monitor observed
    mon.key(*parts)               makes the case count as non-trivial, and
                                  identifies it for distinctness
    mon.note(**facts)             facts about the case, for the evidence file

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: too little observed, watchdog, harness error).
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

from . import boot

VERIF = boot.VERIF


class Violation(Exception):
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data or {}


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as fp:
        for line in fp:
            head = 'known: property={} '.format(prop)
            if line.startswith(head):
                out.append(line[len(head):].strip())
    return out


def jsonable(x, depth=0):
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item()) if x.dtype.kind in 'biufSU' else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'dtype': str(x.dtype),
                    'head': jsonable(x.ravel()[:12].tolist(), depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Mon(object):
    """Collects what the monitors of one case observed and decided."""

    def __init__(self, prop, family, index, tier):
        self.prop = prop
        self.family = family
        self.index = index
        self.tier = tier
        self.decisions = 0
        self.events = {}
        self.keyparts = []
        self.notes = {}
        self.known = []

    def check(self, ok, what, **data):
        self.decisions += 1
        if not ok:
            raise Violation(what, data)

    def close(self, got, want, what, rtol=2e-5, atol=0., **data):
        """Every element of got is within rtol*|want|+atol of want."""
        self.decisions += 1
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            raise Violation(what + ': shape {} instead of {}'.format(g.shape, w.shape),
                            dict(data, got=g, want=w))
        a = np.broadcast_to(np.asarray(atol, dtype=np.float64), w.shape)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= rtol * np.abs(w) + a) |
                    ((g == w) & ~np.isnan(g)) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(
                np.abs(g - w), nan=np.inf, posinf=np.inf), -1.))), w.shape) if w.ndim else ()
            raise Violation(what, dict(data, at=list(i), got=g[i], want=w[i],
                                       nbad=int(bad.sum()), of=int(w.size)))

    def same(self, got, want, what, **data):
        """Bitwise equal values (nan equals nan), equal shape."""
        self.decisions += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape or not np.array_equal(
                g, w, equal_nan=(g.dtype.kind == 'f' and w.dtype.kind == 'f')):
            raise Violation(what, dict(data, got=g, want=w))

    def raises(self, exc, what, fn, *args, **kw):
        """fn(*args, **kw) raises one of exc."""
        self.decisions += 1
        try:
            out = fn(*args, **kw)
        except exc:
            self.event('rejections')
            return
        except Exception as e:
            raise Violation(what + ': raised {} instead'.format(type(e).__name__),
                            dict(error=str(e)))
        raise Violation(what + ': accepted', dict(returned=out))

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def key(self, *parts):
        self.keyparts.append(repr(parts))

    def note(self, **facts):
        self.notes.update(facts)

    def finding(self, text):
        """A violation seen: a known finding if known_findings.txt lists it."""
        if text not in known_findings(self.prop):
            raise Violation(text)
        if text not in self.known:
            self.known.append(text)


def case_rng(seed, prop, family, index):
    h = hashlib.sha256('{}|{}|{}|{}'.format(seed, prop, family, index).encode()).digest()
    ints = np.frombuffer(h, dtype=np.uint32)
    np.random.seed(int(ints[0]))   # the library draws from the global stream
    return np.random.default_rng([int(x) for x in ints])


def _in_kcorrect(tb):
    src = os.path.realpath(os.path.join(boot.SRC, 'kcorrect'))
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(src + os.sep):
            return True
    return False


def run_case(prop, seed, tier, family, fn, index):
    """Run one case; returns a plain dict."""
    mon = Mon(prop, family, index, tier)
    rng = case_rng(seed, prop, family, index)
    res = dict(family=family, index=index)
    t0 = time.time()
    try:
        fn(rng, mon)
        res['verdict'] = 'held'
    except Violation as v:
        res['verdict'] = 'violated'
        res['what'] = v.what
        res['data'] = jsonable(v.data)
    except MemoryError:
        res['verdict'] = 'error'
        res['what'] = 'out of memory'
    except Exception as e:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _in_kcorrect(tb):
            res['verdict'] = 'violated'
            res['what'] = 'valid call raised {}: {}'.format(type(e).__name__, e)
            res['data'] = dict(traceback=text)
        else:
            res['verdict'] = 'error'
            res['what'] = text
    res['wall'] = time.time() - t0
    res['decisions'] = mon.decisions
    res['events'] = mon.events
    res['key'] = (hashlib.sha1((family + '|' + '|'.join(mon.keyparts)).encode()).hexdigest()
                  if mon.keyparts else None)
    res['notes'] = jsonable(mon.notes)
    res['known'] = mon.known
    return res


def worker(prop, seed, tier, jobs, families, wfd, deadline):
    out = os.fdopen(wfd, 'w')
    for (family, index) in jobs:
        if time.time() > deadline:
            out.write(json.dumps(dict(family=family, index=index,
                                      verdict='skipped')) + '\n')
            continue
        out.write(json.dumps(run_case(prop, seed, tier, family,
                                      families[family], index)) + '\n')
        out.flush()
    out.close()


def run_all(prop, seed, tier, fams, nproc, budget):
    """Run every case of fams = [(name, fn, n)] in nproc forked workers."""
    jobs = []
    for name, fn, n in fams:
        jobs += [(name, i) for i in range(n)]
    # deal the cases out evenly, whatever the family (and what is left out for
    # lack of time is some of each)
    random.Random(len(jobs)).shuffle(jobs)
    families = dict((name, fn) for name, fn, n in fams)
    nproc = max(1, min(nproc, len(jobs)))
    deadline = time.time() + budget
    pids, fds = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nproc):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                for f in fds:
                    os.close(f)
                os.close(r)
                worker(prop, seed, tier, jobs[w::nproc], families, wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        fds.append(r)
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for f in fds:
        sel.register(f, selectors.EVENT_READ)
        bufs[f] = b''
    killed = False
    # the watchdog is generous; its firing is inconclusive, never a violation
    while sel.get_map():
        evs = sel.select(timeout=1.)
        for k, _ in evs:
            d = os.read(k.fd, 1 << 16)
            if d:
                bufs[k.fd] += d
            else:
                sel.unregister(k.fd)
                os.close(k.fd)
        if time.time() > deadline + 120. and not killed:
            killed = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0:
            bad += 1
    results = []
    for f in fds:
        for line in bufs[f].split(b'\n'):
            if line.strip():
                try:
                    results.append(json.loads(line))
                except ValueError:
                    bad += 1
    results.sort(key=lambda d: (d['family'], d['index']))
    return results, len(jobs), bad
