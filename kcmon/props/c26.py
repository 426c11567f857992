"""C26 Stellar-atmosphere files are parsed faithfully."""
import os

import numpy as np

from .. import gen, ref

kc = gen.kc
NW = 1221
KEYS = ('modelno', 'teff', 'logg', 'mh', 'vturb', 'xh')
RULE = ('Files of the Basel format are written from known numbers, with any number of models, line '
        'breaks, spacing and number formats, and what is read is compared number by number with '
        'what was written; every number of a file differs from its neighbours and from the same '
        'number of other models, so lost or shifted values show. Distinct by layout and models.')
ASSUMPTIONS = ['numbers are separated by white space', 'files hold whole models']
MIN_EVENTS = {'files': 40, 'models': 90, 'fluxes': 100000}


def layout(rng, words, heads):
    """Text of the file: words broken into lines in some way."""
    kind = str(rng.choice(['basel', 'basel', 'one_line', 'one_word', 'random', 'tabs', 'crlf',
                           'no_newline', 'blank_lines']))
    per = int(rng.choice([1, 2, 5, 7, 8, 11, 100]))
    nl, out = '\n', []
    if kind == 'crlf':
        nl = '\r\n'
    if kind == 'one_line':
        return kind, ' '.join(words)
    if kind == 'one_word':
        return kind, nl.join(words) + nl
    if kind == 'random':
        for w in words:
            out.append(w)
            out.append(' ' * int(rng.integers(1, 4)) if rng.random() < 0.9 else nl)
        return kind, ''.join(out)
    if kind == 'tabs':
        return kind, '\t'.join(words[:50]) + nl + ' \t '.join(words[50:]) + nl
    # as published: wavelengths, then for each model a header line and fluxes
    i = 0
    blocks = [words[:NW]]
    rest = words[NW:]
    for m in range(heads):
        b = rest[m * (NW + 6):(m + 1) * (NW + 6)]
        blocks += [b[:6], b[6:]]
    for b in blocks:
        if len(b) == 6:
            out.append('  ' + '  '.join(b) + nl)
            continue
        for i in range(0, len(b), per):
            out.append(' ' + ' '.join(x.rjust(10) for x in b[i:i + per]) + nl)
            if kind == 'blank_lines' and rng.random() < 0.1:
                out.append(nl)
    text = ''.join(out)
    if kind == 'blank_lines':
        text = nl + text + nl * 2
    return kind, text.rstrip() if kind == 'no_newline' else text


def number(rng, x, style):
    if style == 'e':
        return '{:.4E}'.format(x)
    if style == 'long':
        return '{:.10e}'.format(x)
    if style == 'f':
        return '{:.1f}'.format(x)
    if style == 'g':
        return '{:g}'.format(x)
    s = '{:.3f}'.format(x)
    return '+' + s if style == 'sign' else s


def decide(mon, text, out, nmod, what):
    """`out` is what the words of the text say, by position."""
    words = text.split()
    info, wave, flux = out
    mon.check(len(words) == NW + nmod * (NW + 6), 'harness: words')
    want = np.array(words[:NW], dtype=np.float64)
    mon.close(wave, want, what + ': wavelengths', rtol=2e-7)
    mon.check(np.shape(flux) == (nmod, NW), what + ': shape of the fluxes', got=np.shape(flux),
              want=(nmod, NW))
    for k in KEYS:
        mon.check(k in info, what + ': no ' + k)
        mon.check(np.shape(info[k]) == (nmod,), what + ': shape of ' + k, got=np.shape(info[k]))
    for i in range(nmod):
        s = NW + i * (NW + 6)
        for j, k in enumerate(KEYS):
            mon.close(info[k][i], float(words[s + j]), '{}: {} of model {}'.format(what, k, i),
                      rtol=2e-7)
        mon.close(flux[i], np.array(words[s + 6:s + 6 + NW], dtype=np.float64),
                  '{}: fluxes of model {}'.format(what, i), rtol=2e-7, atol=1e-44)
        mon.event('models')
        mon.event('fluxes', NW)
    mon.event('files')


def synthetic(rng, mon):
    nmod = int(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 7, 12])) if mon.tier == 'quick' else \
        int(rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 467]))
    if mon.index % 29 == 7:
        nmod = [65, 130, 33, 260][mon.index // 29 % 4]
    style = str(rng.choice(['e', 'e', 'long', 'plain', 'sign']))
    if rng.random() < 0.5:
        w = np.sort(rng.uniform(9., 160000., NW))
    else:
        w = np.logspace(1, 5.2, NW)
    words = [number(rng, x, str(rng.choice(['f', 'g', 'long']))) for x in w]
    heads = []
    for i in range(nmod):
        start = int(rng.choice([0, 1, 100]))
        p = [str(int(rng.choice([i + 1, i + start, int(rng.integers(0, 10**6))]))),
             str(int(rng.integers(2000, 50000))) if rng.random() < 0.7 else
             '{:.1f}'.format(rng.uniform(2000, 50000)),
             '{:.2f}'.format(rng.uniform(-1., 5.5)), '{:.2f}'.format(rng.uniform(-5., 1.)),
             '{:.2f}'.format(rng.uniform(0., 4.)), '{:.2f}'.format(rng.uniform(0., 2.))]
        heads.append(p)
        f = 10.**rng.uniform(-12, 1, NW) if style in ('e', 'long') else rng.uniform(0, 9., NW)
        if rng.random() < 0.4:
            f[:int(rng.integers(1, 200))] = 0.
        words += p + [number(rng, x, style) for x in f]
    seed = int(rng.integers(1 << 31))
    kind, text = layout(np.random.default_rng(seed), words, nmod)
    path = gen.scratch('lcb')
    with open(path, 'w', newline='') as fp:
        fp.write(text)
    before = open(path, 'rb').read()
    out = kc.utils.read_basel(filename=path)
    decide(mon, text, out, nmod, 'file of {} models, {}'.format(nmod, kind))
    mon.check(open(path, 'rb').read() == before, 'reading changed the file')
    # read again: another reading does not change the first
    keep = [np.array(out[1]), np.array(out[2])] + [np.array(out[0][k]) for k in KEYS]
    again = kc.utils.read_basel(filename=path)
    if nmod:
        again[2][...] = -1.
        again[1][...] = -1.
    for a, b in zip([out[1], out[2]] + [out[0][k] for k in KEYS], keep):
        mon.same(a, b, 'a second reading changed the first')
    if rng.random() < 0.5:
        # other numbers under the same name
        other = list(words)
        if rng.random() < 0.5:
            for i in rng.integers(0, len(words), 200):
                if '.' in other[i]:
                    # (the number of a model is an integer)
                    other[i] = '{:.4f}'.format(float(other[i]) * 1.5 + 0.25)
            kind2, text2 = layout(rng, other, nmod)
        else:
            # of the same length
            for i in rng.integers(0, len(words), 200):
                other[i] = other[i].replace('1', '2', 1)
            kind2, text2 = layout(np.random.default_rng(seed), other, nmod)
        with gen.Dated(rng, path):
            with open(path, 'w', newline='') as fp:
                fp.write(text2)
        decide(mon, text2, kc.utils.read_basel(filename=path), nmod, 'replaced file')
        mon.event('replaced')
    mon.note(models=nmod, layout=kind, style=style)
    mon.key(nmod, kind, style, len(text))
    os.remove(path)


def shipped(rng, mon):
    """The shipped models, as they are and laid out anew, alone and joined."""
    d = os.path.join(gen.DATADIR, 'basel')
    texts = [open(os.path.join(d, n)).read() for n in ('lcbsun.ori', 'lcbvega.ori')]
    for n, t in zip(('sun', 'vega'), texts):
        decide(mon, t, kc.utils.read_basel(filename=os.path.join(d, 'lcb{}.ori'.format(n))), 1, n)
    words = texts[0].split()
    joined = list(words)
    order = rng.permutation(int(rng.integers(2, 5)))
    for i in order:
        joined += texts[int(i) % 2].split()[NW:]
    nmod = 1 + len(order)
    kind, text = layout(rng, joined, nmod)
    path = gen.scratch('lcb')
    with open(path, 'w', newline='') as fp:
        fp.write(text)
    out = kc.utils.read_basel(filename=path)
    decide(mon, text, out, nmod, 'shipped models joined')
    head, wave, flux = ref.read_basel(path)
    mon.close(out[2], flux, 'shipped models joined', rtol=2e-7, atol=1e-44)
    mon.key(kind, list(map(int, order)))
    os.remove(path)


FAMILIES = [
    ('synthetic', synthetic, 60, 700),
    ('shipped', shipped, 12, 60),
]
