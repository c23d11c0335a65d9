"""Seeded generators of vocabularies, texts and special tokens."""
import random

ALPHAS = [
    'ab', 'abc', 'aab', 'abcde ', 'é a', 'aé漢', '漢字b', '😀a', 'aéb\r\n', 'xyz\t\n ',
    'aA1_-', '\x00a\x7f', 'ßſa', '\u0301ea', '한글ᄀ', 'ﬁﬂa½',
    '\ufeffa', 'a\u200b\u00a0', '\u2028\u0085 x', '\u00ada\ufffd', 'İıIi',
]


def score(rng, kind):
    """Multiples of 1/4, so that sums are exact."""
    if kind == 'neg':
        return -rng.randint(1, 80) / 4
    if kind == 'flat':
        return -rng.choice([4, 4, 8, 12]) / 4
    if kind == 'zero':
        return rng.choice([0.0, 0.0, -0.25, 0.25, -1.0])
    if kind == 'pos':
        return rng.randint(-20, 40) / 4
    return -rng.randint(1, 400) / 4


SCALE = 4


def u8(x):
    return x.encode() if isinstance(x, str) else bytes(x)


def word(rng, alpha, lo=1, hi=6):
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def vocab(rng, alpha, n=None, all_bytes=False, singles=True, dups=True, odd=True, kind=None, empties=True):
    """[(bytes, score, keep)], in random order."""
    kind = kind or rng.choice(['neg', 'flat', 'zero', 'pos', 'wide'])
    n = rng.randint(1, 12) if n is None else n
    toks = []
    if all_bytes:
        toks += [bytes([b]) for b in range(256)]
    elif singles:
        toks += sorted({bytes([b]) for b in alpha.encode()})
        if not all_bytes and rng.random() < 0.15 and toks:
            toks.pop(rng.randrange(len(toks)))
    for _ in range(n):
        r = rng.random()
        w = word(rng, alpha).encode()
        if odd and r < 0.15 and len(w) > 1:
            # a piece of a character, or a run across a character border
            i = rng.randrange(len(w))
            w = w[i:] if rng.random() < 0.5 else w[:i + 1]
        elif odd and r < 0.18:
            w = bytes(rng.randrange(256) for _ in range(rng.randint(1, 4)))
        elif r < 0.30 and toks:
            w = (rng.choice(toks) + rng.choice(toks))[:10]
        elif odd and r < 0.32:
            w = (word(rng, alpha, 1, 2) * rng.randint(8, 20)).encode()
        toks.append(w)
    if not dups:
        toks = list(dict.fromkeys(toks))
    elif rng.random() < 0.4 and toks:
        toks.append(rng.choice(toks))
    if empties and odd and rng.random() < 0.08:
        toks.append(b'')
    rng.shuffle(toks)
    return [(t, score(rng, kind), rng.random() < 0.3) for t in toks]


def text(rng, alpha, vs=(), hi=24, specials=()):
    out = []
    for _ in range(rng.randint(0, hi)):
        r = rng.random()
        if specials and r < 0.2:
            s = rng.choice(specials)
            out.append(s if rng.random() < 0.7 else s[:rng.randint(0, len(s))])
        elif vs and r < 0.5:
            out.append(bytes(rng.choice(vs)[0]).decode(errors='ignore'))
        else:
            out.append(rng.choice(alpha))
    return ''.join(out)[:hi * 2]


def specials(rng, alpha, n=None):
    out = []
    base = word(rng, alpha, 1, 4)
    for _ in range(rng.randint(0, 4) if n is None else n):
        r = rng.random()
        if r < 0.25:
            out.append('<' + word(rng, alpha, 0, 3) + '>')
        elif r < 0.5:
            out.append(base[:rng.randint(1, len(base))])
        elif r < 0.7:
            out.append(base + word(rng, alpha, 0, 2))
        elif r < 0.74:
            out.append('')
        elif r < 0.8:
            out.append(rng.choice(['\r\n', 'é', 'e\u0301', '\u0301', '"', '\\', '\r', '\n', '<\r\n>']))
        else:
            out.append(word(rng, alpha, 1, 3))
    return out


PROCS = ['crlf', 'nfc', 'nfd', 'nfkc', 'nfkd']


def procs(rng):
    r = rng.random()
    if r < 0.45:
        return []
    return [rng.choice(PROCS) for _ in range(rng.randint(1, 3) if r < 0.96 else rng.randint(4, 12))]


def similar(rng, alpha, n, lo=4, hi=60):
    """Texts that agree in length and in most places."""
    base = word(rng, alpha, lo, hi)
    out = [base]
    while len(out) < n:
        t = list(rng.choice(out))
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.choice([0, len(t) - 1, rng.randrange(len(t))])
            r = rng.random()
            if r < 0.8:
                t[i] = rng.choice(alpha)
            elif r < 0.9:
                j = rng.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            else:
                t = t[:-1] if len(t) > 1 and rng.random() < 0.5 else t + [rng.choice(alpha)]
        out.append(''.join(t))
    return out


def fine_vocab(rng, alpha, n, scale):
    """Scores with many digits, and compounds that cost almost exactly what
    their parts cost."""
    vs = [(bytes([b]), -rng.randint(scale // 2, 12 * scale) / scale) for b in sorted(set(alpha.encode()))]
    for _ in range(n):
        a, b = rng.choice(vs), rng.choice(vs)
        if len(a[0]) + len(b[0]) > 9 or a[1] + b[1] < -24:
            continue
        vs.append((a[0] + b[0], a[1] + b[1] + rng.choice([-1, 0, 1, 1, -2, 3]) / scale))
    seen = {}
    for v, s in vs:
        seen[v] = s
    vs = [(v, s, rng.random() < 0.3) for v, s in seen.items()]
    rng.shuffle(vs)
    return vs
