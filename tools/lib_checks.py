"""Checks of the library properties: record the real calls, let TLC judge."""
import itertools, math, os, random, signal, struct
from vlib import *
import gen


def rng_for(prop):
    return random.Random('%s-%d' % (prop, SEED))


def scaled(q, t):
    """The sizes of either tier; or how many cases, from a base number for each."""
    if isinstance(q, int):
        return 4 * t if THOROUGH else min(t, 6 * q)
    return t if THOROUGH else q


FINE = 1 << 19      # of scores with many digits
UNITS = [-1050, -300, -60, -30, 30, 300, 900]   # powers of two


class Recorder:
    """Sessions recorded over a few drivers in parallel."""

    def __init__(self, limit=30):
        self.sessions = []
        self.drivers = [Driver(limit=limit) for _ in range(4)]

    def run(self, makers, units=False):
        """makers: [(name, scale, function(session))]"""
        def part(k):
            out = []
            for name, scale, f in makers[k::len(self.drivers)]:
                s = Session(self.drivers[k], name, scale)
                if units:
                    r = random.Random('%s-%d-unit' % (name, SEED))
                    s.unit = 2.0 ** r.choice([0, 0, 0] + UNITS)
                f(s)
                out.append(s)
            return out
        with ThreadPoolExecutor(len(self.drivers)) as ex:
            for ss in ex.map(part, range(len(self.drivers))):
                self.sessions += ss
        return self.sessions

    def close(self):
        for d in self.drivers:
            d.close()


def record_and_validate(res, makers, limit=30, units=False):
    build()
    rec = Recorder(limit)
    try:
        ss = rec.run(makers, units)
    finally:
        rec.close()
    validate(res, ss)
    return ss


def big_vocab(r, n=65536):
    """More tokens than sixteen bits count: pairs of bytes, then all bytes."""
    vs = [(bytes([a, b]), -r.randint(1, 400) / 4, r.random() < 0.1) for a in range(256) for b in range(256)]
    r.shuffle(vs)
    return vs[:n] + [(bytes([b]), -50.0, True) for b in range(256)]


# ------------------------------------------------------------------- P01

def long_text(rng, alpha, n):
    return (gen.word(rng, alpha, 20, 40) * (n // 10))[:n]


def p01(res):
    rng = rng_for('P01')
    makers = []

    def mk(seed, kind):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            allb = r.random() < 0.25
            vs = gen.vocab(r, alpha, all_bytes=allb)
            sp = gen.specials(r, alpha)
            s.new(0, vs, gen.procs(r) if kind else (), sp)
            if r.random() < 0.3:
                s.addsp(0, gen.specials(r, alpha))
            if r.random() < 0.3:
                s.addbase(0, gen.vocab(r, alpha, n=2, singles=False))
            for _ in range(6):
                if s.dead:
                    return
                x = gen.text(r, alpha, vs, specials=sp)
                s.encode(0, x, ['P01'], how=r.choice(['full', 'full', 'ord']), dec=True,
                         p=r.choice([0, 0, 0.3, 0.7, 1.0, -1.0, 2.0]))
        return f
    for i in range(scaled(150, 1200)):
        seed = rng.random()
        makers.append(('random-%d' % i, 4, mk(seed, i % 3)))

    def mklong(seed, n, allb, p):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=10, all_bytes=allb, kind='neg')
            if not allb:
                vs += [(bytes([b]), -9.0, True) for b in alpha.encode()]
            s.new(0, vs, (), ['<|x|>'])
            x = long_text(r, alpha, n) + '<|x|>' + alpha
            s.encode(0, x, ['P01'], dec=True, p=p)
        return f
    for n in scaled([300, 1500, 5000], [300, 1000, 3000, 10000, 70000]):
        for p in (0.0, 0.5):
            makers.append(('long-%d' % n, 4, mklong(rng.random(), n, p == 0.5, p)))
    # Long texts whose characters are spelled by several tokens each, at every
    # offset: no internal block border may show.
    def mkblocks(seed, n, p):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(bytes([b]), -4.0) for b in range(256)] + [('aé'.encode(), -5.0)], (), ['<|x|>'])
            for k in range(4):
                c = r.choice(['é', '漢', '\U0001F600'])
                x = 'a' * k + c * (n // len(c.encode()))
                if k == 2:
                    x = x[:len(x) // 2] + '<|x|>' + x[len(x) // 2:]
                s.encode(0, x, ['P01'], how='ord' if k == 1 else 'full', dec=True, p=p)
        return f
    for n, p in scaled([(5000, 0.0), (17000, 0.0), (17000, 1.0), (70000, 0.0), (200000, 0.0)],
                       [(5000, 0.0), (17000, 0.0), (17000, 1.0), (70000, 0.0), (70000, 0.5), (300000, 0.0)]):
        makers.append(('blocks-%d' % n, 4, mkblocks(rng.random(), n, p)))

    def bigvocab(s):
        r = random.Random('P01-big-%d' % SEED)
        s.new(0, big_vocab(r), gen.procs(r), ['<s>', 'é'])
        s.addbase(0, [(b'abc', -1.0), ('é漢'.encode(), -0.25)])
        s.addsp(0, ['<t>'])
        for p in (0, 0, 0.5, 1):
            x = gen.word(r, ['<s>', 'é', 'abc', '漢', '<t>', '\x00', '\U0001F600'], 5, 30)
            s.encode(0, x, ['P01'], how=r.choice(['full', 'full', 'ord']), dec=True, p=p)
    makers.append(('bigvocab', 4, bigvocab))

    # every single character class, at every UTF-8 width, with all bytes
    def widths(s):
        s.new(0, [(bytes([b]), -4.0) for b in range(256)], (), ['\U0001F600', 'é'])
        for c in [0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1F600, 0xe9]:
            for how in ('full', 'ord'):
                s.encode(0, chr(c) + 'a' + chr(c), ['P01'], how=how, dec=True)
    makers.append(('widths', 4, widths))
    record_and_validate(res, makers)


# ------------------------------------------------------------------- P02

def p02(res):
    rng = rng_for('P02')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=r.randint(2, 14), singles=r.random() < 0.7)
            s.new(0, vs, gen.procs(r) if r.random() < 0.2 else ())
            if r.random() < 0.35:
                s.addbase(0, [(v[0], gen.score(r, 'neg'), False) for v in r.sample(vs, min(2, len(vs)))]
                          + gen.vocab(r, alpha, n=2, singles=False))
            for _ in range(8):
                if s.dead:
                    return
                s.encode(0, gen.text(r, alpha, vs), ['P02'], how=r.choice(['full', 'ord', 'model']), again=True)
        return f
    for i in range(scaled(150, 1200)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    # Two alike, by turns on the same texts.
    def pair(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=r.randint(2, 10))
            ps = gen.procs(r) if r.random() < 0.3 else ()
            for t in (0, 1):
                s.new(t, vs, ps)
                vs = r.sample(vs, len(vs)) if r.random() < 0.6 else [(v[0], gen.score(r, 'neg'), False) for v in vs]
            for _ in range(4):
                x = gen.text(r, alpha, vs)
                how = r.choice(['full', 'ord', 'model'])
                for t in r.choice([(0, 1), (1, 0), (0, 1, 0), (1, 0, 1)]):
                    if s.dead:
                        return
                    s.encode(t, x, ['P02'], how=how)
        return f
    for i in range(scaled(40, 300)):
        makers.append(('pair-%d' % i, 4, pair(rng.random())))

    def mklongtok(seed):
        # tokens longer than 255 bytes
        def f(s):
            r = random.Random(seed)
            w = gen.word(r, 'abc', 1, 3) * 300
            toks = [(w[:n].encode(), -r.randint(1, 400) / 4, False)
                    for n in (1, 2, 3, 127, 128, 255, 256, 257, 300)]
            vs = toks + [(bytes([b]), -2.0, False) for b in b'abc']
            s.new(0, vs)
            for n in (254, 255, 256, 257, 258, 511, 600):
                s.encode(0, w[:n], ['P02'], how='model')
        return f
    for i in range(scaled(2, 10)):
        makers.append(('longtok-%d' % i, 4, mklongtok(rng.random())))

    def mklong(seed, n):
        def f(s):
            r = random.Random(seed)
            vs = gen.vocab(r, 'abc', n=12, kind='neg', odd=False) + [(bytes([b]), -9.0, False) for b in b'abc']
            s.new(0, vs)
            s.encode(0, gen.word(r, 'abc', n, n), ['P02'])
        return f
    for n in scaled([1000, 3000], [1000, 3000, 20000, 66000, 140000]):
        makers.append(('long-%d' % n, 4, mklong(rng.random(), n)))

    # One word over and over, of which only the whole is a good token: where
    # ever a block of the text might end, it would cut one.
    def tiles(seed, n):
        def f(s):
            r = random.Random(seed)
            w = 'a' + gen.word(r, 'bc', 5, 11)
            s.new(0, [(w.encode(), -2.0, False), (w[:3].encode(), -6.0, False), (w[-2:].encode(), -7.0, False)]
                  + [(bytes([b]), -9.0, False) for b in b'abc'])
            s.encode(0, (gen.word(r, 'bc', 0, 4) + w * (n // len(w) + 1))[:n], ['P02'], how=r.choice(['full', 'ord', 'model']))
        return f
    for n in scaled([5000, 9000, 67000, 270000], [5000, 9000, 20000, 67000, 140000, 530000, 1050000]):
        makers.append(('tiles-%d' % n, 4, tiles(rng.random(), n)))

    def bigvocab(s):
        r = random.Random('P02-big-%d' % SEED)
        s.new(0, big_vocab(r))
        for how in ('full', 'ord', 'model', 'full'):
            s.encode(0, gen.word(r, 'aé漢b\x00', 5, 40), ['P02'], how=how)
    makers.append(('bigvocab', 4, bigvocab))

    # Scores of many digits, and segmentations that differ in the last ones;
    # a text long enough that small scores meet a large running total.
    def fine(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(['ab', 'abc', 'abcde ', 'é a', 'aé漢'])
            s.new(0, gen.fine_vocab(r, alpha, r.randint(3, 12), FINE))
            for x in gen.similar(r, alpha, 5, 5, 60):
                s.encode(0, x.encode()[:80].decode(errors='ignore'), ['P02'], how=r.choice(['full', 'ord', 'model']))
        return f
    for i in range(scaled(60, 500)):
        makers.append(('fine-%d' % i, FINE, fine(rng.random())))

    # One after another, texts that look alike.
    def alike(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=10)
            s.new(0, vs)
            xs = gen.similar(r, alpha, 8, 8, 90)
            for x in xs + r.sample(xs, 4):
                if s.dead:
                    return
                s.encode(0, x, ['P02'], how=r.choice(['full', 'ord', 'model']))
        return f
    for i in range(scaled(30, 250)):
        makers.append(('alike-%d' % i, 4, alike(rng.random())))

    # The same text many times over: no run may differ from another.
    def again(s):
        r = random.Random(5)
        vs = gen.vocab(r, 'ab', n=10, kind='flat')
        s.new(0, vs + [(b'a', -1.0), (b'b', -1.0)])
        x = gen.word(r, 'ab', 20, 20)
        v = s.call({'op': 'encode_many', 't': 0, 'text': B(x), 'n': 300, 'p': 0.0})
        s.log(e='many', t=0, how='full', p='0', x=B(x), chk=['P02'],
              outs=[[reply(o), n] for o, n in v.get('outs', [[v, 1], [v, 1]])])
    makers.append(('repeat', 4, again))
    record_and_validate(res, makers, units=True)


# ------------------------------------------------------------------- P03

def wilson(n, p, sigmas=7.0):
    m, d = n * p, math.sqrt(n * p * (1 - p)) * sigmas + 3
    return int(max(0, m - d)), int(min(n, m + d))


RATES = [(1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 5), (4, 5), (2, 5), (3, 5), (1, 8), (7, 8)]


def few_places(r):
    """A vocabulary, and texts with one to six places for its longer tokens
    (so that a chance of the eighth power of ten is the smallest there is)."""
    while True:
        alpha = r.choice(['ab', 'ab', 'abc', 'é', 'aé'])
        vs = gen.vocab(r, alpha, n=r.randint(1, 4), singles=r.random() < 0.9, empties=False, kind=r.choice(['neg', 'neg', 'flat', 'pos']))
        live = {v[0] for v in vs if len(v[0]) > 1}
        xs = []
        for _ in range(30):
            x = gen.text(r, alpha, vs, hi=4)[:10]
            b = x.encode()
            k = sum(1 for v in live for i in range(len(b)) if b.startswith(v, i))
            if 1 <= k <= 6 and len(b) <= 12 and x not in xs:
                xs.append(x)
        if xs:
            return vs, xs[:3]


def apart(prop, seed):
    """Long texts of many places for one token, encoded over and over at an
    even rate: one by one, in batches, or by threads that share a tokenizer."""
    def f(s):
        r = random.Random(seed)
        w = r.choice([b'ab', 'é'.encode(), b'abc', '漢'.encode()])
        vs = [(bytes([b]), -4.0) for b in sorted(set(w))] + [(w, -1.0)]
        r.shuffle(vs)
        s.new(0, vs)
        x = (w * r.randint(80, 120)).decode()
        for threads in ([1] if prop == 'P03' else r.sample([1, 2, 3, 4, 8], 2)):
            n = r.randint(20, 60)
            if prop == 'P03':
                how = r.choice(['full', 'ord', 'model'])
                v = s.call({'op': 'encode_many', 't': 0, 'text': B(x), 'n': n, 'p': 0.5, 'how': how})
                rs = [reply(o) for o, k in v.get('outs', [[v, 1]]) for _ in range(k)]
            else:
                how = r.choice(['full', 'ord'])
                v = s.call({'op': 'encode_batch', 't': 0, 'texts': [B(x)] * n, 'how': how, 'p': 0.5, 'threads': threads})
                rs = [reply(o) for o in v['batch']] if 'batch' in v else [reply(v)]
            s.log(e='apart', t=0, how=how, p='mid', x=B(x), rs=rs, chk=[prop])
            s.weight += 300
    return f


def p03(res):
    rng = rng_for('P03')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=r.randint(2, 12), singles=r.random() < 0.8, odd=r.random() < 0.5)
            sp = gen.specials(r, alpha) if r.random() < 0.3 else []
            s.new(0, vs, (), sp)
            for _ in range(4):
                if s.dead:
                    return
                x = B(gen.text(r, alpha, vs, hi=14, specials=sp))
                how = r.choice(['full', 'ord', 'model'])
                for p in (r.choice([0.0, -0.5, -1e-300]), r.choice([0.1, 0.5, 0.9]), r.choice([1.0, 1.5, 1e300])):
                    v = s.call({'op': 'encode_many', 't': 0, 'text': x, 'n': 12 if pclass(p) == 'mid' else 2,
                                'p': p, 'how': how})
                    s.log(e='many', t=0, how=how, p=pclass(p), x=x, chk=['P03'],
                          outs=[[reply(o), n] for o, n in v.get('outs', [[v, 1]])])
        return f
    for i in range(scaled(110, 900)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    # Rates: a text that is itself one best token; withheld with probability
    # p, never when it is a single byte, and each occurrence independently.
    def rate(seed, n):
        def f(s):
            r = random.Random(seed)
            vs = [(b'a', -8.0), (b'b', -8.0), (b'ab', -1.0), (b'abab', -0.5)]
            s.new(0, vs)
            rates = []
            for p in (0.05, 0.3, 0.5, 0.8, 0.97):
                v = s.call({'op': 'encode_many', 't': 0, 'text': B('ab'), 'n': n, 'p': p})
                k = sum(c for o, c in v.get('outs', []) if o.get('ids') == [2])
                lo, hi = wilson(n, 1 - p)
                rates.append({'n': k, 'lo': lo, 'hi': hi})
                v = s.call({'op': 'encode_many', 't': 0, 'text': B('bab'), 'n': n, 'p': p, 'how': 'ord'})
                k = sum(c for o, c in v.get('outs', []) if o.get('ids') == [1, 2])
                lo, hi = wilson(n, 1 - p)
                rates.append({'n': k, 'lo': lo, 'hi': hi})
                # abab: kept whole 1-p; else each ab on its own 1-p
                v = s.call({'op': 'encode_many', 't': 0, 'text': B('abab'), 'n': n, 'p': p})
                for ids, q in (([3], 1 - p), ([2, 2], p * (1 - p) ** 2), ([2, 0, 1], p * (1 - p) * p),
                               ([0, 1, 2], p * p * (1 - p)), ([0, 1, 0, 1], p ** 3)):
                    k = sum(c for o, c in v.get('outs', []) if o.get('ids') == ids)
                    lo, hi = wilson(n, q)
                    rates.append({'n': k, 'lo': lo, 'hi': hi})
                # the same, in the lattice
                v = s.call({'op': 'encode_many', 't': 0, 'text': B('ab'), 'n': n, 'p': p, 'how': 'lattice'})
                k = sum(c for o, c in v.get('outs', []) if [0, 2, 2] in o.get('nodes', []))
                lo, hi = wilson(n, 1 - p)
                rates.append({'n': k, 'lo': lo, 'hi': hi})
                k = sum(c for o, c in v.get('outs', []) if [0, 0, 1] in o.get('nodes', []) and [1, 1, 1] in o.get('nodes', []))
                rates.append({'n': k, 'lo': n, 'hi': n})
            s.log(e='rate', t=0, chk=['P03'], rates=rates)
        return f
    makers.append(('rates', 4, rate(rng.random(), scaled(4000, 40000))))

    # Short texts in which at most a handful of tokens could be withheld: the
    # specification knows the chance of every outcome.
    def spread(seed):
        def f(s):
            r = random.Random(seed)
            vs, xs = few_places(r)
            s.new(0, vs)
            for x in xs:
                for how in r.sample(['full', 'ord', 'model', 'lattice'], 2):
                    num, den = r.choice(RATES)
                    n = min(scaled([2000], [20000])[0], 2 ** 30 // den ** 6)
                    v = s.call({'op': 'encode_many', 't': 0, 'text': B(x), 'n': n, 'p': num / den, 'how': how})
                    s.log(e='spread', t=0, how=how, x=B(x), num=num, den=den, n=n, chk=['P03'],
                          outs=[[reply(o), k] for o, k in v.get('outs', [[v, n]])])
                    s.weight += 3000
        return f
    for i in range(scaled(12, 90)):
        makers.append(('spread-%d' % i, 4, spread(rng.random())))

    # So many places that no two calls agree.
    for i in range(scaled(4, 16)):
        makers.append(('apart-%d' % i, 4, apart('P03', rng.random())))

    # Long tokens are withheld as short ones are, wherever they stand, and
    # so are the long tokens inside of them.
    def long(seed, n):
        def f(s):
            r = random.Random(seed)
            c = r.choice(['a', 'é', '漢']).encode()
            w = c * (n // len(c) + 1)
            k = r.choice([n // len(c), n // 2 // len(c) + 1])
            vs = [(bytes([b]), -4.0) for b in range(256)] + [(w, -1.0), (c * k, -1.0)]
            vs = list(dict.fromkeys(vs))
            s.new(0, vs)
            for how in ('full', 'ord', 'model', 'lattice')[:4 if n < 128 else 3]:
                num, den = r.choice([(1, 2), (1, 4), (3, 4)])
                m = scaled(400, 4000)
                x = w.decode()
                # the token that spans all of the text
                v = s.call({'op': 'encode_many', 't': 0, 'text': B(x), 'n': m, 'p': num / den, 'how': how})
                if how == 'lattice':
                    got = sum(q for o, q in v.get('outs', []) if [0, 256, len(w)] in o.get('nodes', []))
                else:
                    got = sum(q for o, q in v.get('outs', []) if o.get('ids') == [256])
                lo, hi = wilson(m, 1 - num / den)
                s.log(e='rate', t=0, chk=['P03'], rates=[{'n': got, 'lo': lo, 'hi': hi}])
                if how != 'lattice':
                    for p in (1.0, 3.5):
                        v = s.call({'op': 'encode', 't': 0, 'text': B(x), 'how': how, 'p': p})
                        left = sum(1 for i in v.get('ids', [256]) if i >= 256)
                        s.log(e='rate', t=0, chk=['P03'], rates=[{'n': left, 'lo': 0, 'hi': 0}])
        return f
    for n in scaled([5, 16, 31, 64, 100, 255, 300], [5, 8, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 500]):
        makers.append(('long-%d' % n, 4, long(rng.random(), n)))

    # Many occurrences in one text: at a rate of one none survives, at zero
    # all do, in between the expected share, wherever they stand.
    def crowd(seed, n):
        def f(s):
            r = random.Random(seed)
            vs = [(b'a', -8.0), (b'b', -8.0), (b'ab', -1.0)]
            s.new(0, vs)
            x = B('ab' * n)
            rates = []
            for p in (0.001, 0.03, 0.25, 0.5, 0.75, 0.97, 0.999):
                v = s.call({'op': 'encode', 't': 0, 'text': x, 'how': r.choice(['full', 'ord', 'model']), 'p': p})
                ids = v.get('ids', [])
                places, at = [], 0
                for i in ids:
                    places.append((i, at))
                    at += 2 if i == 2 else 1
                for lo_, hi_ in ((0, 2 * n), (0, n // 2), (2 * n - n // 2, 2 * n)):
                    k = sum(1 for i, at in places if i == 2 and lo_ <= at < hi_)
                    lo, hi = wilson((hi_ - lo_) // 2, 1 - p)
                    rates.append({'n': k, 'lo': lo, 'hi': hi})
                # neighbours are withheld independently of each other
                kept = {at // 2 for i, at in places if i == 2}
                both = sum(1 for k in range(0, n - 1, 2) if k in kept and k + 1 in kept)
                lo, hi = wilson(n // 2, (1 - p) ** 2)
                rates.append({'n': both, 'lo': lo, 'hi': hi})
            for p, want in ((0.0, n), (-1.0, n), (1.0, 0), (1.0 + 1e-9, 0), (7.0, 0), (float(1 << 60), 0)):
                for how in ('full', 'ord', 'model'):
                    for _ in range(2):
                        v = s.call({'op': 'encode', 't': 0, 'text': x, 'how': how, 'p': p})
                        rates.append({'n': v.get('ids', [0, 1]).count(2), 'lo': want, 'hi': want})
            s.log(e='rate', t=0, chk=['P03'], rates=rates)
        return f
    for i in range(scaled(1, 4)):
        makers.append(('crowd-%d' % i, 4, crowd(rng.random(), scaled(10000, 40000))))

    # Rates so small, or so large, that one expects never to see the
    # difference: the plain best, and the single bytes only.
    def tiny(s):
        vs = [(b'a', -8.0), (b'b', -8.0), (b'ab', -1.0), (b'\xc3\xa9', -1.0), (b'\xc3', -3.0), (b'\xa9', -3.0)]
        s.new(0, vs)
        for x in ('ab' * 10, 'éab', 'é' * 8):
            for p, cls in ((1e-12, '0'), (1 - 1e-12, '1')):
                v = s.call({'op': 'encode_many', 't': 0, 'text': B(x), 'n': 50, 'p': p})
                s.log(e='many', t=0, how='full', p=cls, x=B(x), chk=['P03'],
                      outs=[[reply(o), n] for o, n in v.get('outs', [[v, 1]])])
    makers.append(('extremes', 4, tiny))
    record_and_validate(res, makers, units=True)


# ------------------------------------------------------------------- P04

def p04(res):
    rng = rng_for('P04')
    makers = []

    def split(sp, x):
        """Only to know which stretches to ask for one by one; TLC decides
        whether they are the right ones."""
        out, cur, i = [], '', 0
        while i < len(x):
            m = next((s for s in sp if s and x.startswith(s, i)), None)
            if m is None:
                cur += x[i]
                i += 1
            else:
                if cur:
                    out.append(cur)
                cur = ''
                out.append(None if False else m)
                i += len(m)
        if cur:
            out.append(cur)
        return out

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha + ('\r\n' if r.random() < 0.3 else ''), n=6, empties=False)
            vs += [(bytes([b]), -30.0, False) for b in range(256)] if r.random() < 0.3 else []
            pr = gen.procs(r) if r.random() < 0.5 else []
            sp = gen.specials(r, alpha, r.randint(1, 5))
            s.new(0, vs, pr, sp[:2])
            s.addsp(0, sp[2:])
            uniq = list(dict.fromkeys(sp))
            for _ in range(6):
                if s.dead:
                    return
                x = gen.text(r, alpha, vs, hi=16, specials=sp)
                parts = []
                for q in split(uniq, x):
                    if q in uniq:
                        parts.append({'k': 'sp', 'x': q})
                    else:
                        parts.append({'k': 'ord', 'x': q})
                got = []
                for q in parts:
                    # a special token alone, or a stretch through ordinary encoding
                    v = s.call({'op': 'encode', 't': 0, 'text': B(q['x']),
                                'how': 'full' if q['k'] == 'sp' else 'ord', 'p': 0.0})
                    got.append(reply(v))
                s.encode(0, x, ['P04'], how='full', parts=got)
                s.encode(0, x, ['P04'], how='ord')
        return f
    for i in range(scaled(160, 1300)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    # Stretches that look alike, in one text and in several texts.
    def alike(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=8, empties=False) + ([(bytes([b]), -9.0, True) for b in range(256)] if r.random() < 0.5 else [])
            sp = r.choice([['<s>'], ['<s>', '<t>'], ['|'], ['\0']])
            s.new(0, vs, gen.procs(r) if r.random() < 0.4 else [], sp)
            xs = [x for x in gen.similar(r, alpha, 6, 3, 40) if not any(q in x for q in sp)]
            for _ in range(4):
                if s.dead:
                    return
                seq = []
                for k in range(r.randint(1, 6)):
                    if xs and r.random() < 0.9:
                        seq.append(('ord', r.choice(xs)))
                    seq.append(('full', r.choice(sp)))
                got = [reply(s.call({'op': 'encode', 't': 0, 'text': B(q), 'how': how, 'p': 0.0})) for how, q in seq]
                s.encode(0, ''.join(q for _, q in seq), ['P04'], how='full', parts=got)
        return f
    for i in range(scaled(60, 500)):
        makers.append(('alike-%d' % i, 4, alike(rng.random())))

    # Many occurrences, long stretches.
    def many(seed, n):
        def f(s):
            r = random.Random(seed)
            sp = ['<s>', '<s', 's>', '<ss>', '']
            s.new(0, [(bytes([b]), -4.0) for b in range(128)] + [(b'<s>', -1.0), (b'ab', -1.0)], ['nfc'], sp)
            x = ''.join(r.choice(['<s>', '<', 's>', 'ab', 'a', '>', '<ss>']) for _ in range(n))
            s.encode(0, x, ['P04'], how='full')
            s.encode(0, x, ['P04'], how='ord')
        return f
    for n in scaled([200, 600, 5000, 30000], [200, 600, 3000, 5000, 30000, 60000]):
        makers.append(('many-%d' % n, 4, many(rng.random(), n)))

    # Crowds of special tokens, given at once or bit by bit.
    def crowd(seed, n):
        def f(s):
            r = random.Random(seed)
            form = r.choice(['<s%d>', '<%d', '\u00e9%d;', '[%d]'])
            sp = [form % i for i in range(n)]
            if r.random() < 0.5:
                r.shuffle(sp)
            s.new(0, [(bytes([b]), -4.0) for b in range(128)] + [(b'<s', -1.0), (b'12', -1.0)], ['nfc'] if r.random() < 0.5 else [],
                  sp[:n // 2] if r.random() < 0.5 else sp)
            for i in range(0, n, 100):
                s.addsp(0, sp[i:i + 100])
            near = [0, 1, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, n - 2, n - 1]
            for _ in range(8):
                ix = [r.choice(near + [r.randrange(n)]) for _ in range(r.randint(1, 6))]
                seq = []
                for i in ix:
                    if r.random() < 0.6:
                        seq.append(('ord', r.choice(['ab', '12', 'a<', 'b'])))
                    seq.append(('full', sp[i % n]))
                got = [reply(s.call({'op': 'encode', 't': 0, 'text': B(q), 'how': how, 'p': 0.0})) for how, q in seq]
                x = ''.join(q for _, q in seq)
                s.encode(0, x, ['P04'], how='full', **({'parts': got} if split(sp, x) == [q for _, q in seq] else {}))
            s.encode(0, ''.join(sp[i] for i in range(0, n, 7)), ['P04'], how='full')
            s.encode(0, ''.join(sp[i] for i in range(0, n, 7)), ['P04'], how='ord')
        return f
    for n in scaled([40, 130, 260, 300], [40, 70, 130, 260, 300, 520, 1100]):
        makers.append(('crowd-%d' % n, 4, crowd(rng.random(), n)))

    # Special tokens far into a text, and long ones.
    def far(seed, n, long):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(['ab', 'aé', 'a漢', 'a☃😀'])
            if long:
                sp = ['<%s>' % ''.join(r.choice(alpha) for _ in range(k)) for k in (1, n // 2, n - 3, n - 2, n - 1, n)]
            else:
                sp = ['<s>', '<t>']
            s.new(0, [(bytes([b]), -4.0) for b in range(256)] + [(b'ab', -1.0), (b'aa', -1.5)],
                  ['nfc'] if r.random() < 0.5 else [], sp)
            for _ in range(2 if n < 20000 else 1):
                seq = [('ord', ''.join(r.choice(alpha) for _ in range(r.choice([1, 3, 40]) if long else n)))]
                for q in r.sample(sp, 2):
                    seq += [('full', q), ('ord', ''.join(r.choice(alpha) for _ in range(r.choice([1, 2, 300]))))]
                got = [reply(s.call({'op': 'encode', 't': 0, 'text': B(q), 'how': how, 'p': 0.0})) for how, q in seq]
                s.encode(0, ''.join(q for _, q in seq), ['P04'], how='full', parts=got)
        return f
    for n in scaled([62, 126, 254, 255, 300, 1022], [62, 126, 254, 255, 300, 510, 1022, 2047, 4094]):
        makers.append(('long-%d' % n, 4, far(rng.random(), n, True)))
    for n in scaled([250, 1020, 4094, 16383, 32767, 65534], [250, 510, 1020, 2046, 4094, 8190, 16383, 32767, 65534, 65534, 100000]):
        makers.append(('far-%d' % n, 4, far(rng.random(), n + rng.randint(1, 9), False)))
    record_and_validate(res, makers, units=True)


# ------------------------------------------------------------------- P05

def query(s, t, ids, toks, chk):
    v = s.call({'op': 'query', 't': t, 'ids': ids, 'toks': [B(x) for x in toks]})
    rr = reply(v)
    if rr['k'] != 'ok':
        s.log(e='query', t=t, r=rr, ids=[], toks=[], chk=chk)
        return
    def ent(o):
        return s.vocab(o, s.back)
    s.log(e='query', t=t, r=rr, chk=chk,
          ids=[{'id': min(int(q['id']), BIG), 'tok': q['tok'], 'sp': q['sp'], 'base': ent(q['base']),
                'model': ent(q['model']), 'is_sp': q['is_sp'], 'is_base': q['is_base']} for q in v['ids']],
          toks=[{'v': q['v'], 'tok': q['tok'], 'base': q['base'], 'model': q['model'], 'sp': q['sp']}
                for q in v['toks']])


def p05(res):
    rng = rng_for('P05')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            pool = [gen.word(r, alpha, 0, 3) for _ in range(8)]

            def base(n):
                return [(r.choice(pool).encode() if r.random() < 0.7 else bytes([r.randrange(256)]),
                         gen.score(r, 'neg'), r.random() < 0.3) for _ in range(r.randint(0, n))]

            def spec(n):
                return [r.choice(pool) for _ in range(r.randint(0, n))]

            def look(t):
                n = s.nbase[t] + s.nsp[t]
                ids = sorted(set(list(range(0, n + 3)) + [s.nbase[t] - 1 if s.nbase[t] else 0, n, n + 1,
                             n + 257, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]))
                query(s, t, ids, [p.encode() for p in pool] + [b'', b'\xff', b'zz', b'\xe9'], ['P05'])
                s.state(t, ['P05'])

            def recount(t):
                v = s.call({'op': 'state', 't': t})
                s.nbase[t], s.nsp[t] = v.get('base', 0), v.get('special', 0)
            s.new(0, base(8), gen.procs(r), spec(4))
            recount(0)
            look(0)
            for _ in range(r.randint(2, 6)):
                if s.dead:
                    return
                k = r.random()
                t = r.choice(list(s.nbase))
                if k < 0.35:
                    s.addbase(t, base(4), ['P05'])
                elif k < 0.7:
                    s.addsp(t, spec(3), ['P05'])
                elif k < 0.85:
                    s.clone(1 - t if len(s.nbase) < 2 else 1 - t, t, ['P05'])
                    t = 1 - t
                else:
                    # a detour through the written form changes nothing
                    v = s.call({'op': 'to_str', 't': t, 's': 1})
                    v = s.call({'op': 'from_str', 't': t, 's': 1})
                for u in {0, 1} & set(list(s.nbase) + [t]):
                    recount(u)
                    look(u)
        return f
    for i in range(scaled(150, 1200)):
        makers.append(('history-%d' % i, 4, mk(rng.random())))

    # More ids than sixteen bits count.
    def bigvocab(s):
        r = random.Random('P05-big-%d' % SEED)
        vs = big_vocab(r, r.choice([65278, 65279, 65280, 65281, 65536]))
        s.new(0, vs, (), ['<s>', 'é', 'ab'])
        for more in ([], [('<t>',)], [(b'xyz', -1.0, False), (b'ab', -2.0, True)], [('<u>', '<s>')]):
            if more and isinstance(more[0][0], str):
                s.addsp(0, list(more[0]))
            elif more:
                s.addbase(0, more)
            ids = sorted({0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65791, 65792, 131071, 131072}
                         | set(range(len(vs) - 2, len(vs) + 9)))
            query(s, 0, ids, [v[0] for v in r.sample(vs, 20)] + [b'<s>', b'<t>', b'<u>', b'xyz', 'é'.encode(), b'ab', vs[-1][0]],
                  ['P05'])
    makers.append(('bigvocab', 4, bigvocab))

    # Crowds of special tokens, added bit by bit, some of them again, some of
    # them base tokens too, with base tokens added in between.
    def crowd(seed, n):
        def f(s):
            r = random.Random(seed)
            form = r.choice(['<%d>', '\u00e9%d', '%d'])
            names = [form % i for i in range(n)]
            r.shuffle(names)
            s.new(0, [(b'%d' % i, -1.0 - i / 4) for i in range(r.choice([0, 1, 9, 40]))], (), names[:r.choice([0, n // 3])])
            for k in range(4):
                if s.dead:
                    return
                s.addsp(0, names[k * n // 4:(k + 1) * n // 4] + r.sample(names, min(n, 3)), ['P05'])
                if r.random() < 0.5:
                    s.addbase(0, [(r.choice(names).encode(), -2.0, r.random() < 0.3) for _ in range(r.choice([1, 5, 30]))], ['P05'])
                v = s.call({'op': 'state', 't': 0})
                nb, ns = v.get('base', 0), v.get('special', 0)
                ids = sorted({0, nb - 1 if nb else 0, nb, nb + 1, nb + 31, nb + 32, nb + 63, nb + 64, nb + 127, nb + 128, nb + 254, nb + 255, nb + 256,
                              nb + 257, nb + ns - 1 if nb + ns else 0, nb + ns, nb + ns + 1} | {r.randrange(nb + ns + 2) for _ in range(8)})
                query(s, 0, ids, [x.encode() for x in r.sample(names, min(n, 12))] + [b'%d' % r.randrange(n)], ['P05'])
            s.state(0, ['P05'])
        return f
    for n in scaled([12, 40, 130, 300], [9, 17, 40, 70, 130, 300, 520, 1100]):
        makers.append(('crowd-%d' % n, 4, crowd(rng.random(), n)))
    record_and_validate(res, makers)


# ------------------------------------------------------------------- P10

def p10(res):
    rng = rng_for('P10')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=6)
            # pieces of characters, overlong forms, surrogates, stray bytes
            odd = [b'\xe2\x82', b'\xac', b'\xf0\x9f', b'\x98\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90', b'\xff',
                   b'\xe2', b'\x80', b'\xf0\x90\x80', b'\xef\xbf\xbd', b'a\xc3', b'\xa9b', b'\xe0\x9f', b'\xc2']
            vs = vs + [(t, -1.0, False) for t in r.sample(odd, 6)]
            sp = gen.specials(r, alpha)
            s.new(0, vs, gen.procs(r), sp)
            if r.random() < 0.3:
                s.addbase(0, [(r.choice(odd), -2.0)])
            v = s.call({'op': 'state', 't': 0})
            b, n = v.get('base', 0), v.get('size', 0)
            for _ in range(10):
                if s.dead:
                    return
                ids = []
                for _ in range(r.randint(0, 10)):
                    k = r.random()
                    if k < 0.7 or n == b:
                        ids.append(r.randrange(b) if b else 0)
                    elif k < 0.96:
                        ids.append(r.randrange(b, n))
                    else:
                        ids.append(r.choice([n, n + 1, n + 100, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - n, b + 2 ** 31]))
                s.decode(0, ids, r.random() < 0.5, ['P10'])
                if r.random() < 0.3:
                    s.decode(0, ids, True, ['P10'], how='model')
        return f
    for i in range(scaled(200, 1600)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    # The single-byte vocabulary: every lossy decoding, by random byte runs.
    def lossy(seed):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(bytes([b]), -4.0) for b in range(256)], (), ['é', '<x>'])
            lead = [0x41, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3,
                    0xf4, 0xf5, 0xff, 0x90, 0x8f, 0xa0, 0x9f, 0x7f, 256, 257]
            for _ in range(60):
                s.decode(0, [r.choice(lead) for _ in range(r.randint(1, 9))], r.random() < 0.7, ['P10'])
        return f
    for i in range(scaled(12, 120)):
        makers.append(('lossy-%d' % i, 4, lossy(rng.random())))

    # Long sequences.
    def blocks(seed, n):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(bytes([b]), -4.0) for b in range(256)], (), ['é', '<x>'])
            for k in range(4):
                c = r.choice(['é', '漢', '\U0001F600']).encode()
                ids = [97] * k + list(c) * (n // len(c))
                if k == 2:
                    for _ in range(5):
                        ids.insert(r.randrange(len(ids)), r.choice([256, 257]))
                s.decode(0, ids, k != 3, ['P10'], how='model' if k == 1 else 'full')
        return f
    for n in scaled([5000, 20000, 70000], [5000, 20000, 70000, 270000]):
        makers.append(('blocks-%d' % n, 4, blocks(rng.random(), n)))

    # One and the same thing many times over.
    def runs(seed):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(bytes([b]), -4.0) for b in range(256)] + [(b'\xe2\x82', -1.0), (b'\xff' * 20, -1.0), (b'\xef\xbf\xbd', -1.0)],
                  (), ['\u00e9', '<x>', '\ufffd'])
            for _ in range(6):
                ids = []
                for _ in range(r.randint(1, 4)):
                    one = r.choice([[0xff], [0x80], [0xc3], [0xe2, 0x82], [256], [257], [258], [259], [260], [261], [0], [0x20],
                                    [0x0a], [0xef, 0xbb, 0xbf], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80], [0xef, 0xbf, 0xbd]])
                    ids += one * r.choice([1, 15, 16, 17, 33, 64, 100, 130, 256, 300]) + [97] * r.randint(0, 2)
                s.decode(0, ids[:1500], r.random() < 0.7, ['P10'])
        return f
    for i in range(scaled(8, 60)):
        makers.append(('runs-%d' % i, 4, runs(rng.random())))

    def bigvocab(s):
        r = random.Random('P10-big-%d' % SEED)
        vs = big_vocab(r)
        s.new(0, vs, (), ['<s>', 'é', 'ab'])
        for inc in (True, False, True):
            ids = [r.choice([r.randrange(len(vs)), len(vs) + r.randrange(3), 65535 + r.randrange(4)]) for _ in range(200)]
            s.decode(0, ids, inc, ['P10'])
        for id in (65536, len(vs) - 1, len(vs), len(vs) + 2, len(vs) + 3, 131072):
            for inc in (True, False):
                s.decode(0, [97, id], inc, ['P10'])
    makers.append(('bigvocab', 4, bigvocab))

    # Crowds of special tokens, added bit by bit, some of them again, some of
    # them base tokens too, with base tokens added in between.
    def crowd(seed, n):
        def f(s):
            r = random.Random(seed)
            form = r.choice(['<%d>', '\u00e9%d', '%d'])
            names = [form % i for i in range(n)]
            r.shuffle(names)
            s.new(0, [(b'%d' % i, -1.0 - i / 4) for i in range(r.choice([0, 1, 9, 40]))], (), names[:r.choice([0, n // 3])])
            for k in range(4):
                if s.dead:
                    return
                s.addsp(0, names[k * n // 4:(k + 1) * n // 4] + r.sample(names, min(n, 3)), ['P05'])
                if r.random() < 0.5:
                    s.addbase(0, [(r.choice(names).encode(), -2.0, r.random() < 0.3) for _ in range(r.choice([1, 5, 30]))], ['P05'])
                v = s.call({'op': 'state', 't': 0})
                nb, ns = v.get('base', 0), v.get('special', 0)
                ids = sorted({0, nb - 1 if nb else 0, nb, nb + 1, nb + 31, nb + 32, nb + 63, nb + 64, nb + 127, nb + 128, nb + 254, nb + 255, nb + 256,
                              nb + 257, nb + ns - 1 if nb + ns else 0, nb + ns, nb + ns + 1} | {r.randrange(nb + ns + 2) for _ in range(8)})
                query(s, 0, ids, [x.encode() for x in r.sample(names, min(n, 12))] + [b'%d' % r.randrange(n)], ['P05'])
            s.state(0, ['P05'])
        return f
    for n in scaled([12, 40, 130, 300], [9, 17, 40, 70, 130, 300, 520, 1100]):
        makers.append(('crowd-%d' % n, 4, crowd(rng.random(), n)))
    record_and_validate(res, makers)


# ------------------------------------------------------------------- P11

def prefix(s, t, x, chk, junk=()):
    v = s.call({'op': 'prefix', 't': t, 'text': B(x), 'junk': list(junk)})
    s.log(e='prefix', t=t, x=B(x), r=reply(v), found=v.get('found', 0), chk=chk)


def p11(res):
    rng = rng_for('P11')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, n=12, singles=r.random() < 0.6)
            s.new(0, vs, (), gen.specials(r, alpha, 1))
            for step in range(3):
                for _ in range(6):
                    if s.dead:
                        return
                    x = gen.text(r, alpha, vs, hi=10)
                    prefix(s, 0, x, ['P11'])
                    k = r.choice(vs)[0]
                    prefix(s, 0, k + r.choice(vs)[0], ['P11'])
                    prefix(s, 0, k[:-1], ['P11'])
                more = gen.vocab(r, alpha, n=3, singles=False) + [(r.choice(vs)[0], -1.0, False)]
                s.addbase(0, more)
                vs = vs + more
        return f
    for i in range(scaled(120, 1000)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    def long(seed):
        def f(s):
            r = random.Random(seed)
            w = bytes(r.randrange(256) for _ in range(700))
            lens = [1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600]
            r.shuffle(lens)
            s.new(0, [(w[:n], -1.0) for n in lens[:8]])
            for n in (255, 256, 257, 700):
                prefix(s, 0, w[:n], ['P11'])
            s.addbase(0, [(w[:n], -2.0) for n in lens[8:] + lens[:2]])
            for n in (1, 255, 256, 257, 512, 700):
                prefix(s, 0, w[:n], ['P11'])
            prefix(s, 0, w[:300] + b'\x00' + w[300:], ['P11'])
        return f
    for i in range(scaled(6, 40)):
        makers.append(('long-%d' % i, 4, long(rng.random())))

    # A token as long as a file: found, copied and dropped.
    def huge(s):
        n = 60000
        w = b'ab' * (n // 2)
        s.new(0, [(w, -1.0), (w[:n // 2], -1.0), (b'a', -1.0)])
        s.clone(1, 0)
        prefix(s, 1, w + b'c', ['P11'])
        prefix(s, 0, w[:-1], ['P11'])
        s.new(1, [(b'a', -1.0)])
        s.new(0, [(b'a', -1.0)])
        prefix(s, 0, b'ab', ['P11'])
    makers.append(('huge', 4, huge))

    # Lengths around the limits of small integers.
    def limits(s):
        ns = scaled([127, 128, 255, 256, 257, 65535, 65536, 65540], [127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65540, 131072])
        s.new(0, [(b'a' * n, -1.0) for n in ns[:4]] + [(b'a', -1.0)])
        s.addbase(0, [(b'a' * n, -1.0) for n in ns[4:]])
        prefix(s, 0, b'a' * (ns[-1] + 1), ['P11'])
        s.new(0, [(b'a' * n, -1.0) for n in ns])
        prefix(s, 0, b'a' * (ns[-1] + 1), ['P11'])
    makers.append(('limits', 4, limits))

    def bigvocab(s):
        r = random.Random('P11-big-%d' % SEED)
        s.new(0, big_vocab(r))
        s.addbase(0, [(b'abc', -1.0), (b'abcd', -1.0), (b'ab', -3.0)])
        for _ in range(30):
            prefix(s, 0, bytes(r.choice([97, 98, 99, 100, r.randrange(256)]) for _ in range(5)), ['P11'])
        prefix(s, 0, b'abcde', ['P11'])
    makers.append(('bigvocab', 4, bigvocab))

    def bytes256(s):
        s.new(0, [(bytes([b]), -1.0) for b in range(256)] + [(bytes([b, 255 - b]), -1.0) for b in range(256)])
        for b in range(256):
            prefix(s, 0, bytes([b, 255 - b, b]), ['P11'])
    makers.append(('all-bytes', 4, bytes256))
    record_and_validate(res, makers, units=True)


# ------------------------------------------------------------- P12 and P13

def lattice(s, t, xs, ns, chk, ws=None, denom=1, order=0):
    v = s.call({'op': 'lattice', 't': t, 'texts': [B(x) for x in xs], 'ns': ns, 'order': order})
    rr = reply(v)
    ev = dict(e='lattice', t=t, r=rr, chk=chk, w=ws or [], sents=[])
    if rr['k'] == 'ok':
        prev = None
        for x, q in zip(xs, v['sents']):
            x = B(x)
            def path(p):
                return [{'id': min(int(n['id']), BIG), 'pos': n['pos'], 'len': n['len'], 's': s.back(n['s'])} for n in p]
            o = {'x': x}
            if 'P12' in chk:
                o['best'] = path(q['best'])
                o['nbest'] = [{'n': b['n'], 'paths': [path(p) for p in b['paths']]} for b in q['nbest']]
            if 'P13' in chk:
                back = len(x) * math.log(denom)
                def num(f, tol=1e-4):
                    if f != f or abs(f) > 1.5e9:
                        return ODD
                    k = round(f)
                    return k if abs(f - k) < max(tol, abs(f) * 1e-10) else ODD
                z = float(q['z'])
                Z = math.exp(z + back) if z == z and z + back < 600 else float('nan')
                acc = [float(a) for a in q['acc']]
                base = prev or [0.0] * len(acc)
                zacc = float(q['zacc'])
                o.update(z=num(Z), own=[num(float(f) * Z) for f in q['own']],
                         zacc=num(math.exp(zacc + back)) if zacc == zacc and zacc + back < 600 else ODD,
                         acc=[num((a - b) * Z) for a, b in zip(acc, base)])
                prev = acc
            ev['sents'].append(o)
    s.log(**ev)
    s.weight += sum(len(o['x']) * 30 + 60 * sum(len(b['paths']) for b in o.get('nbest', [])) for o in ev['sents'])


def staircase(r, n):
    """A vocabulary under which `x a^n y` falls apart in n + 1 ways, and
    short sentences of the same pieces."""
    toks = [b'x' + b'a' * k for k in range(n + 1)] + [b'a' * k + b'y' for k in range(n + 1)] + [b'a']
    toks = list(dict.fromkeys(toks))
    r.shuffle(toks)
    return toks, b'x' + b'a' * n + b'y'


def p12(res):
    rng = rng_for('P12')
    makers = []

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS[:9])
            vs = gen.vocab(r, alpha, n=r.randint(2, 9), singles=r.random() < 0.6, empties=False)
            s.new(0, vs)
            xs = []
            for _ in range(r.randint(2, 5)):
                xs.append(gen.text(r, alpha, vs, hi=r.choice([2, 6, 9])).encode()[:20])
            lattice(s, 0, xs, sorted({0, 1, 2, 3, r.randint(4, 40)}), ['P12'], order=r.choice([0, 1]))
        return f
    for i in range(scaled(160, 1300)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    def gaps(seed):
        # no single bytes: positions that no segmentation reaches
        def f(s):
            r = random.Random(seed)
            toks = list({gen.word(r, 'ab', 1, 4) for _ in range(r.randint(2, 6))})
            vs = [(t.encode(), gen.score(r, r.choice(['neg', 'pos', 'zero'])), False) for t in toks]
            s.new(0, vs)
            xs = [''.join(r.choice(toks) for _ in range(r.randint(0, 4))) for _ in range(5)]
            lattice(s, 0, xs, [1, 2, 5, 30], ['P12'])
        return f
    for i in range(scaled(120, 1000)):
        makers.append(('gaps-%d' % i, 4, gaps(rng.random())))

    # Many segmentations: the agenda's own limits.
    def deep(n, k):
        def f(s):
            s.new(0, [(b'a', -1.0), (b'aa', -2.25), (b'aaa', -3.5), (b'b', -1.0)])
            lattice(s, 0, ['a' * n, 'ab' * 5], [k], ['P12'])
        return f
    makers.append(('deep', 4, deep(16, 300)))
    if THOROUGH:
        makers.append(('deeper', 4, deep(24, 3000)))
        makers.append(('deepest', 4, deep(30, 9000)))
    def fine(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(['ab', 'abc', 'é a'])
            s.new(0, gen.fine_vocab(r, alpha, r.randint(3, 8), FINE))
            xs = [x.encode()[:14] for x in gen.similar(r, alpha, 4, 3, 14)]
            lattice(s, 0, xs, [1, 2, 5], ['P12'])
        return f
    for i in range(scaled(40, 300)):
        makers.append(('fine-%d' % i, FINE, fine(rng.random())))

    # Long stretches that no segmentation reaches, before, between and after
    # the positions that matter.
    def walls(seed):
        def f(s):
            r = random.Random(seed)
            n = r.choice([8, 20, 28, 34, 45, 60, 120])
            c = r.choice(['x', 'é', '\0'])
            toks = [('a', -2), ('aa', -3), (c + 'a' * n, -r.choice([1, 50, 200])), ('a' * n + c, -r.choice([1, 50, 200]))]
            s.new(0, [(t.encode(), float(x)) for t, x in toks])
            k = r.randint(0, 4)
            lattice(s, 0, [c + 'a' * (n + k), 'a' * (n + k) + c, 'aa' + c + 'a' * n + 'a' * k + 'a' * n + c],
                    [1, 2, 3, 7], ['P12'])
        return f
    for i in range(scaled(14, 60)):
        makers.append(('walls-%d' % i, 4, walls(rng.random())))

    # Many pieces begin and end at the same place; afterwards, small
    # sentences in the same lattice.
    def stairs(seed, n):
        def f(s):
            r = random.Random(seed)
            toks, x = staircase(r, n)
            s.new(0, [(t, -float(r.randint(1, 60 if t != b'a' else 9)) / 4 - 40 * (t == b'a')) for t in toks])
            lattice(s, 0, [x, b'xay', b'xy', x, b'xy' * (n // 2) + b'xa', x[:n // 2], x, x[n // 2:] + b'xy' * (n // 4 + 1), x], [1, 2, n // 2, 3],
                    ['P12'])
        return f
    for n in scaled([20, 40, 70], [20, 40, 70, 140]):
        makers.append(('stairs-%d' % n, 4, stairs(rng.random(), n)))

    # Long sentences with few segmentations.
    def long(seed, n):
        def f(s):
            r = random.Random(seed)
            toks = [b'a', b'b', b'ab', b'abb', b'a' * 300, b'b' * 260]
            s.new(0, [(t, -r.randint(1, 400) / 4, False) for t in toks])
            x = bytearray(b'b' * n)
            for _ in range(4):
                i = r.randrange(n - 4)
                x[i:i + 3] = r.choice([b'abb', b'aab', b'aba'])
            x[r.randrange(n - 300):0] = b'a' * r.choice([299, 300, 301])
            lattice(s, 0, [bytes(x), b'ab', bytes(x[::-1])], [1, 2, 7], ['P12'])
        return f
    for n in scaled([310, 700], [310, 700, 1500]):
        makers.append(('long-%d' % n, 4, long(rng.random(), n)))

    # Sentences as long as files, of one word over and over.
    def tiles(seed, n):
        def f(s):
            r = random.Random(seed)
            w = 'a' + gen.word(r, 'bc', 5, 11)
            s.new(0, [(w.encode(), -2.0, False), (w[:3].encode(), -6.0, False), (w[-2:].encode(), -7.0, False)]
                  + [(bytes([b]), -9.0, False) for b in b'abc'])
            lattice(s, 0, [((gen.word(r, 'bc', 0, 4) + w * (n // len(w) + 1))[:n]).encode(), b'a', w.encode() * 2], [], ['P12'])
        return f
    for n in scaled([5000, 20000, 67000], [5000, 9000, 20000, 67000, 140000]):
        makers.append(('tiles-%d' % n, 4, tiles(rng.random(), n)))

    # So many results that the search has to forget hypotheses.
    def many(seed, n, L):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(b'a' * k, -r.randint(1, 200) / 64) for k in r.sample([1, 2, 3, 4, 5], 4)] + [(b'a', -1.5)])
            x = B('a' * L)
            v = s.call({'op': 'nbest_hist', 't': 0, 'text': x, 'n': n})
            s.log(e='hist', t=0, x=x, n=n, r={'k': 'ok'} if 'hist' in v else reply(v), chk=['P12'], odd=v.get('odd', 0),
                  sorted=v.get('sorted', False), distinct=v.get('distinct', 0), found=v.get('n', 0),
                  hist=[[s.back(a), b] for a, b in v.get('hist', [])])
        return f
    for n, L in scaled([(700, 24), (12000, 30), (20000, 34)], [(700, 24), (2000, 40), (12000, 30), (20000, 34), (60000, 40)]):
        makers.append(('many-%d' % n, 64, many(rng.random(), n, L)))
    record_and_validate(res, makers, limit=120, units=True)


def p13(res):
    rng = rng_for('P13')
    makers = []

    def weights(r, toks, denom):
        ws = [r.choice([1, 1, 2, 3, 4, 5]) for _ in toks]
        return ws, [(t, math.log(w) - len(t) * math.log(denom), False) for t, w in zip(toks, ws)]

    def total(toks, ws, x):
        last = {}
        for t, w in zip(toks, ws):
            last[t] = w
        a = [1] + [0] * len(x)
        for i in range(1, len(x) + 1):
            for t, w in last.items():
                if t and x[:i].endswith(t) and len(t) <= i:
                    a[i] += w * a[i - len(t)]
        return a[-1]

    def mk(seed, gappy):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS[:9]) if not gappy else 'ab'
            if gappy:
                toks = [gen.word(r, 'ab', 1, 4).encode() for _ in range(r.randint(2, 6))]
            else:
                toks = [v[0] for v in gen.vocab(r, alpha, n=r.randint(2, 8), singles=True, empties=False)]
            denom = r.choice([1, 1, 7, 16])
            ws, vs = weights(r, toks, denom)
            s.scale = 1
            s.new(0, [(t, 0.0, False) for t in toks])      # for the model: weights, not scores
            s.ev.pop()
            s.call({'op': 'new', 't': 0, 'vocab': [[B(t), x] for t, x, _ in vs], 'procs': [], 'specials': []})
            s.log(e='new', t=0, vocab=[{'v': B(t), 's': 0, 'k': False} for t in toks], procs=[], sp=[],
                  r={'k': 'ok'}, chk=[])
            xs = []
            for _ in range(r.randint(2, 6)):
                x = b''.join(r.choice(toks) for _ in range(r.randint(0, 5))) if gappy or r.random() < 0.5 \
                    else gen.text(r, alpha, vs, hi=10).encode()[:14]
                if total(toks, ws, x) < 1000000:
                    xs.append(x)
            lattice(s, 0, xs, [1, 2], ['P13'], ws, denom)
        return f
    for i in range(scaled(220, 1800)):
        makers.append(('random-%d' % i, 4, mk(rng.random(), i % 3 == 0)))

    # Sentences far less, or far more, likely than a number can say.
    def faint(seed):
        def f(s):
            r = random.Random(seed)
            toks = [b'a', b'b', b'c', b'ab', b'bc', b'abc', b'ccc'][:r.randint(4, 7)]
            denom = r.choice([16, 1000, 1 / 16, 1 / 1000, 1.0])
            ws, vs = weights(r, toks, denom)
            ws[:3] = [1, 1, 1]
            vs = [(t, math.log(w) - len(t) * math.log(denom), False) for t, w in zip(toks, ws)]
            s.call({'op': 'new', 't': 0, 'vocab': [[B(t), x] for t, x, _ in vs], 'procs': [], 'specials': []})
            s.log(e='new', t=0, vocab=[{'v': B(t), 's': 0, 'k': False} for t in toks], procs=[], sp=[],
                  r={'k': 'ok'}, chk=[])
            xs = []
            while len(xs) < 3:
                n = r.choice([60, 130, 280, 320])
                x = bytearray(b'a' * n)
                for i in range(0, n - 3, 2):
                    if r.random() < 0.5:
                        x[i:i + 1] = r.choice([b'b', b'c', b'ca'])
                for _ in range(r.randint(0, 6)):
                    i = r.randrange(n - 3)
                    x[i:i + 3] = r.choice([b'abc', b'ccc', b'bca', b'aab'])
                x = bytes(x)
                while total(toks, ws, x) >= 1000000:
                    # take out what can be spelled in two ways
                    i = min(k for k in (x.find(t) for t in toks[3:]) if k >= 0)
                    x = x[:i] + b'a' + x[i + 2:]
                xs.append(x)
            lattice(s, 0, xs, [1], ['P13'], ws, denom)
        return f
    for i in range(scaled(8, 60)):
        makers.append(('faint-%d' % i, 1, faint(rng.random())))

    # Some tokens far likelier, or far less likely, than the rest.
    def steep(s):
        toks = [b'a', b'b', b'ab', b'ba', b'aba']
        ws = [1, 1000, 1, 30, 900]
        given(s, toks, ws, 1)
        lattice(s, 0, [b'a', b'ab', b'aba', b'ba', b'abab'[:3]], [1], ['P13'], ws)
    makers.append(('steep', 1, steep))

    def given(s, toks, ws, denom):
        vs = [(t, math.log(w) - len(t) * math.log(denom)) for t, w in zip(toks, ws)]
        s.call({'op': 'new', 't': 0, 'vocab': [[B(t), x] for t, x in vs], 'procs': [], 'specials': []})
        s.log(e='new', t=0, vocab=[{'v': B(t), 's': 0, 'k': False} for t in toks], procs=[], sp=[], r={'k': 'ok'}, chk=[])

    def uneven(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(['ab', 'ab', 'abc'])
            toks = list(dict.fromkeys([c.encode() for c in alpha] +
                                      [gen.word(r, alpha, 2, 4).encode() for _ in range(r.randint(2, 7))]))
            r.shuffle(toks)
            ws = [r.choice([1, 1, 2, 5, 300, 9000, 10 ** 6, 3 * 10 ** 7, 2 * 10 ** 8]) if len(t) > 1 or r.random() < 0.2 else
                  r.choice([1, 1, 2, 20]) for t in toks]
            denom = r.choice([1, 1, 7, 1 / 16])
            given(s, toks, ws, denom)
            xs = []
            for _ in range(40):
                x = b''.join(r.choice(toks) for _ in range(r.randint(1, 5)))[:14]
                if len(xs) < 6 and total(toks, ws, x) * len(x) < 14 * 10 ** 8:
                    xs.append(x)
            lattice(s, 0, xs, [1], ['P13'], ws, denom)
        return f
    for i in range(scaled(60, 500)):
        makers.append(('uneven-%d' % i, 1, uneven(rng.random())))

    # Sentences as long as files, in blocks that do not touch each other.
    def blocks(seed, n):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(['ab', 'abc'])
            toks = [c.encode() for c in alpha] + [b'|'] + list(dict.fromkeys(gen.word(r, alpha, 2, 4).encode() for _ in range(r.randint(2, 6))))
            r.shuffle(toks)
            ws = [r.choice([1, 1, 2, 3, 5]) for _ in toks]
            given(s, toks, ws, r.choice([1, 7, 1 / 16, 1000]))
            kinds = {}
            while len(kinds) < 5:
                x = b''.join(r.choice(toks) for _ in range(r.randint(1, 6))).replace(b'|', b'') + b'|'
                if total(toks, ws, x) < 100000:
                    kinds[x] = r.randint(1, max(2, n // 20))
            order = [x for x, k in kinds.items() for _ in range(k)]
            r.shuffle(order)
            v = s.call({'op': 'lattice', 't': 0, 'texts': [B(b''.join(order)), B(b'a|')], 'ns': [], 'order': 0})
            rr = reply(v)
            f = [round(float(q) * 1000) if float(q) == float(q) and abs(float(q)) < 10 ** 6 else ODD for q in v['sents'][0]['own']] if rr['k'] == 'ok' else []
            s.log(e='margblocks', t=0, r=rr, chk=['P13'], w=ws, sep=ord('|'), unit=1000, f=f, blocks=[[B(x), k] for x, k in kinds.items()])
            s.weight += 2000
        return f
    for n in scaled([500, 5000, 20000, 60000], [500, 5000, 20000, 60000, 120000, 240000]):
        for _ in range(2):
            makers.append(('blocks-%d' % n, 1, blocks(rng.random(), n)))

    # Many pieces begin and end at the same place; afterwards, small
    # sentences in the same lattice.
    def stairs(seed, n):
        def f(s):
            r = random.Random(seed)
            toks, x = staircase(r, n)
            toks.remove(b'a')
            ws = [r.choice([1, 1, 2, 3]) if len(t) > 1 else 1 for t in toks]
            given(s, toks, ws, 1)
            lattice(s, 0, [x, b'xay', b'xy', x, b'xy' * (n // 2) + b'xaay', x, x[n // 2:] + b'xy' * (n // 4 + 1), x, b'xy'], [1], ['P13'], ws)
        return f
    for n in scaled([20, 40, 70], [20, 40, 70, 140]):
        makers.append(('stairs-%d' % n, 1, stairs(rng.random(), n)))
    record_and_validate(res, makers)
