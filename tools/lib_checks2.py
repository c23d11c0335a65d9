"""Checks of written definitions, batches and normalisation (P06 - P09)."""
import decimal, json, math, os, random, resource, signal, struct, subprocess, unicodedata
from vlib import *
from lib_checks import *
import gen


# ------------------------------------------------------------------- P06

def serde_read(x):
    """What serde_json, without its float_roundtrip feature, makes of the
    shortest decimal form of x: the digits as one rounded integer, scaled by
    one rounded power of ten (see the known finding of P06)."""
    sign, digits, exp = decimal.Decimal(repr(x)).as_tuple()
    f = float(int(''.join(map(str, digits))))
    while abs(exp) > 308:
        if f == 0:
            break
        if exp >= 0:
            return math.inf
        f /= 1e308
        exp += 308
    f = f * float('1e%d' % exp) if exp >= 0 else f / float('1e%d' % -exp)
    return -f if sign else f


def any_score(r):
    """A finite score whose shortest decimal form is read back exactly."""
    while True:
        k = r.random()
        if k < 0.2:
            x = -r.randint(0, 4000) / 4
        elif k < 0.5:
            x = round(-r.random() * 20, r.randint(1, 14))
        elif k < 0.75:
            x = -math.log(r.randint(2, 10 ** 9)) if r.random() < 0.8 else r.random()
        elif k < 0.8:
            x = r.choice([0.0, -0.0, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 2.0 ** 53, -2.0 ** 60, 1e22,
                          123456789012345680.0, 0.1, -1 / 3, 2.2250738585072014e-308])
        else:
            x = struct.unpack('<d', r.randbytes(8))[0]
        if x == x and abs(x) != math.inf and serde_read(x) == x:
            return x


def odd_text(r):
    return ''.join(r.choice(['"', '\\', '/', '\x00', '\x1f', '\n', '\r', '\t', '\x7f', '\u2028', 'é', '😀', 'a', 'b', '<',
                             '|', '\ufeff', '\U0010ffff', '\\n', '\\u0041', "'", ' ', '\u0301'])
                   for _ in range(r.randint(0, 4)))


def save(s, t, d, resave=None):
    """Write slot t as document d (text); optionally compare with an earlier one."""
    r = s.call({'op': 'to_str', 't': t, 's': d, **({'same_as': resave} if resave is not None else {})})
    ev = dict(e='save', t=t, d=d, r=reply(r), chk=['P06'])
    if resave is not None:
        ev['same'] = bool(r.get('same'))
    s.log(**ev)


def loaded(s, t, d, r):
    ev = dict(e='load', t=t, d=d, r=reply(r), chk=['P06'], st=0)
    if 'state' in r:
        ev['st'] = s.st(r['state'])
    s.log(**ev)


def p06(res):
    rng = rng_for('P06')
    makers = []
    where = os.path.join(scratch(), 'p06')
    os.makedirs(where, exist_ok=True)

    def tokens(r, exact, n):
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                v = bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
            elif k < 0.6:
                v = odd_text(r).encode()
            elif k < 0.7:
                v = odd_text(r).encode()[r.randint(0, 2):]
            elif k < 0.75:
                v = r.choice([b'dHJ1ZQ', b'true', b'null', b'=', b'AA==', b'\xef\xbb\xbf', b'\xed\xa0\x80', b'\xff' * 40])
            else:
                v = gen.word(r, 'ab漢', 1, 6).encode()
            out.append((v, any_score(r) if exact else gen.score(r, 'neg'), r.random() < 0.4))
        return out

    def mk(seed, i):
        def f(s):
            r = random.Random(seed)
            exact = s.scale is None
            s.new(0, tokens(r, exact, r.randint(0, 9)), gen.procs(r), [odd_text(r) for _ in range(r.randint(0, 4))])
            if r.random() < 0.4:
                s.addsp(0, [odd_text(r)])
            if r.random() < 0.4:
                s.addbase(0, tokens(r, exact, 3))
            save(s, 0, 1)
            loaded(s, 1, 1, s.call({'op': 'from_str', 's': 1, 't': 1}))
            save(s, 1, 2, 1)
            if r.random() < 0.5:
                # another way of laying the text out
                s.call({'op': 'to_str', 't': 0, 's': 3, 'how': 'pretty'})
                loaded(s, 2, 1, s.call({'op': 'from_str', 's': 3, 't': 2}))
            # a file that held something else before, shorter or longer
            name = os.path.join(where, 'f%d.json' % (i % 4))
            r1 = s.call({'op': 'save', 't': 1, 'file': name})
            s.log(e='save', t=1, d=4, r=reply(r1), chk=['P06'])
            loaded(s, 3, 4, s.call({'op': 'load', 't': 3, 'file': name}))
            save(s, 3, 5, 1)
            for t in (1, 3):
                s.state(t, ['P06'])
            if not exact and not s.dead:
                for _ in range(3):
                    x = gen.text(r, 'ab漢', (), hi=8) + odd_text(r)
                    for t in (0, 3):
                        s.encode(t, x, ['P06'])
                n = 14
                ids = [r.randrange(n) for _ in range(5)]
                for t in (0, 3):
                    s.decode(t, ids, True, ['P06'])
                    s.decode(t, ids, False, ['P06'])
            # what was loaded is as alive as what was built
            if r.random() < 0.5 and not s.dead:
                s.addsp(3, [odd_text(r)], ['P06'])
                s.addbase(3, tokens(r, exact, 2), ['P06'])
                save(s, 3, 6)
                loaded(s, 4, 6, s.call({'op': 'from_str', 's': 6, 't': 4}))
        return f
    for i in range(scaled(160, 1400)):
        makers.append(('random-%d' % i, None if i % 2 else 4, mk(rng.random(), i)))

    def every_byte(s):
        s.new(0, [(bytes([b]), -1.0, b % 3 == 0) for b in range(256)] + [(bytes([b, 0x80]), -2.0) for b in range(256)])
        save(s, 0, 1)
        loaded(s, 1, 1, s.call({'op': 'from_str', 's': 1, 't': 1}))
        save(s, 1, 2, 1)
    makers.append(('every-byte', 4, every_byte))

    # Long tokens, as text and as bytes, and long special tokens.
    def long(n):
        def f(s):
            r = random.Random(rng.random())
            vs = []
            for k in (n - 1, n, n + 1, n + 2):
                vs.append((bytes(r.randrange(256) for _ in range(k)), -1.0 - k, r.random() < 0.4))
                vs.append((b'\xff' * k, -2.0 - k, False))
                vs.append((''.join(r.choice('abé"\\ \n') for _ in range(k)).encode(), -3.0 - k, r.random() < 0.4))
            s.new(0, vs, (), [''.join(r.choice('<s>漢"') for _ in range(k)) for k in (n, n + 1)])
            save(s, 0, 1)
            loaded(s, 1, 1, s.call({'op': 'from_str', 's': 1, 't': 1}))
            save(s, 1, 2, 1)
            name = os.path.join(where, 'long-%d.json' % n)
            s.log(e='save', t=1, d=4, r=reply(s.call({'op': 'save', 't': 1, 'file': name})), chk=['P06'])
            loaded(s, 3, 4, s.call({'op': 'load', 't': 3, 'file': name}))
        return f
    for n in scaled([15, 47, 57, 63, 75, 127, 255, 600], [15, 31, 47, 57, 63, 64, 75, 127, 255, 256, 511, 600, 1023, 3000]):
        makers.append(('long-%d' % n, 4, long(n)))

    def every_char(lo, hi):
        def f(s):
            s.new(0, [(chr(c).encode(), -1.0) for c in range(lo, hi)], (), ['<%s>' % chr(c) for c in range(lo, hi)])
            save(s, 0, 1)
            loaded(s, 1, 1, s.call({'op': 'from_str', 's': 1, 't': 1}))
            save(s, 1, 2, 1)
        return f
    for lo in list(range(0, 512, 128)) + [0x2000, 0xfff0 - 100]:
        makers.append(('chars-%x' % lo, 4, every_char(lo, lo + 128 if lo < 0xff00 else 0x10000)))

    def wide(n, specials, steps):
        def f(s):
            # large tables, as a training command leaves them
            r = random.Random(rng.random())
            sp = ['<%d>' % i for i in range(specials)] + ([odd_text(r) for _ in range(9)] if specials else [])
            r.shuffle(sp)
            s.new(0, [(b'%d' % i, any_score(r), i % 7 == 0) for i in range(n)],
                  [r.choice(['nfc', 'crlf', 'nfd', 'nfkc', 'nfkd']) for _ in range(steps)], sp)
            save(s, 0, 1)
            loaded(s, 1, 1, s.call({'op': 'from_str', 's': 1, 't': 1}))
            save(s, 1, 2, 1)
        return f
    for n, sp, st in [(scaled(1500, 6000), 1, 2), (3, 9, 9), (0, 40, 0), (20, 300, 40)] + scaled([], [(5, 17, 17), (300, 1100, 300), (0, 70, 1)]):
        makers.append(('wide-%d' % sp, None, wide(n, sp, st)))

    record_and_validate(res, makers)
    known_scores(res)


def known_scores(res):
    """The listed scores that do not come back exactly (known finding)."""
    d = Driver()
    for k in known('P06'):
        x = float.fromhex(k['score'])
        d.call({'op': 'new', 't': 0, 'vocab': [[B('a'), x]], 'procs': [], 'specials': []})
        d.call({'op': 'to_str', 't': 0, 's': 1})
        r = d.call({'op': 'from_str', 's': 1, 't': 1})
        res.count('known_probes')
        try:
            y = float(r['state']['vocab'][0][1])
        except Exception:
            y = None
        if y == x:
            continue
        if y is not None and y == float.fromhex(k['got']):
            res.known.append(k['what'])
        else:
            res.violate('score does not come back', {'score': k['score'], 'reply': str(r)[:500]})
    d.close()


def known(prop):
    with open(os.path.join(ROOT, 'known-findings.json')) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


# ------------------------------------------------------------------- P07

class Doc:
    """Abstract JSON values and their text."""

    def __init__(self, r):
        self.r = r

    def render(self, v):
        k = v['k']
        if k == 'raw':
            return v['text']
        if k == 'str':
            return self.string(v['t'])
        if k == 'num':
            return v['text']
        if k == 'bool':
            return 'true' if v['x'] else 'false'
        if k == 'null':
            return 'null'
        ws = lambda: self.r.choice(['', '', '', ' ', '\n', '\t ', '\r\n'])
        if k == 'arr':
            return '[' + ws() + (ws() + ',' + ws()).join(self.render(x) for x in v['x']) + ws() + ']'
        return '{' + ws() + (ws() + ',' + ws()).join(
            '"%s"%s:%s%s' % (f, ws(), ws(), self.render(x)) for f, x in v['x']) + ws() + '}'

    def string(self, t):
        out = []
        for c in t:
            if c in '"\\' or ord(c) < 32:
                out.append(json.dumps(c)[1:-1])
            elif self.r.random() < 0.15:
                out.append(json.dumps(c)[1:-1] if ord(c) > 127 else '\\u%04x' % ord(c))
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'

    @staticmethod
    def plain(v):
        """The value as the specification sees it."""
        k = v['k']
        if k == 'str':
            return {'k': 'str', 'x': B(v['t']), 'a': v['t'] if v['t'].isascii() and v['t'].isprintable() else '?'}
        if k == 'arr':
            return {'k': 'arr', 'x': [Doc.plain(x) for x in v['x']]}
        if k == 'obj':
            return {'k': 'obj', 'x': [[f, Doc.plain(x)] for f, x in v['x']]}
        if k == 'null' or k == 'raw':
            return {'k': k, 'x': 0}
        return {'k': k, 'x': v['x']}


def S(t):
    return {'k': 'str', 't': t}


def NUM(r, x4):
    """x4 quarters."""
    f = x4 / 4
    forms = [repr(f), '%de-2' % (x4 * 25), '%.4f' % f, '%.2fE+0' % f, '%de%d' % (x4 * 2500, -4)]
    if f == int(f):
        forms += [str(int(f)), '%d.0' % int(f)]
    return {'k': 'num', 'x': x4, 'text': r.choice(forms)}


def b64(b):
    import base64
    return base64.b64encode(b).decode().rstrip('=')


def p07(res):
    rng = rng_for('P07')
    makers = []
    where = os.path.join(scratch(), 'p07')
    os.makedirs(where, exist_ok=True)

    def wrong(r, good):
        """A value of a kind other than good's."""
        opts = [S(r.choice(['', 'true', '1', 'abc'])), NUM(r, r.randint(-8, 8)), {'k': 'bool', 'x': r.random() < 0.5},
                {'k': 'null'}, {'k': 'arr', 'x': []}, {'k': 'arr', 'x': [S('a')]}, {'k': 'obj', 'x': []},
                {'k': 'raw', 'text': r.choice(['nul', 'True', 'NaN', '-', '01', '.5', '1e', '"\\x41"', '"\n"', "'a'", '"\\ud800"',
                                               'Infinity', '+1', '1e999', ','])},
                {'k': 'obj', 'x': [['value', S('a')]]}]
        return r.choice([o for o in opts if o['k'] != good])

    def token(r):
        fs = []
        if r.random() < 0.35:
            b = bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
            fs += [['value', S(b64(b))], ['encoded', {'k': 'bool', 'x': True}]]
        else:
            fs += [['value', S(odd_text(r) + r.choice(['', 'ab', 'a']))]]
            if r.random() < 0.3:
                fs += [['encoded', {'k': 'bool', 'x': False}]]
        fs += [['score', NUM(r, r.randint(-80, 40))]]
        if r.random() < 0.5:
            fs += [['keep', {'k': 'bool', 'x': r.random() < 0.7}]]
        r.shuffle(fs)
        return {'k': 'obj', 'x': fs}

    def step(r):
        if r.random() < 0.35:
            fs = [['type', S('crlf')]]
        else:
            fs = [['type', S('unicode')], ['form', S(r.choice(['nfc', 'nfd', 'nfkc', 'nfkd']))]]
        r.shuffle(fs)
        return {'k': 'obj', 'x': fs}

    def good(r):
        fs = [['version', S('2.0')]]
        if r.random() < 0.8:
            fs.append(['special_tokens', {'k': 'arr', 'x': [S(odd_text(r)) for _ in range(r.randint(0, 3))]}])
        if r.random() < 0.8:
            fs.append(['processors', {'k': 'arr', 'x': [step(r) for _ in range(r.randint(0, 3))]}])
        if r.random() < 0.95:
            fs.append(['vocab', {'k': 'arr', 'x': [token(r) for _ in range(r.randint(0, 5))]}])
        if r.random() < 0.7:
            r.shuffle(fs)
        return {'k': 'obj', 'x': fs}

    def getf(o, f):
        return next((q for q in o['x'] if q[0] == f), None)

    def spoil(r, d):
        """One change to the document (which may leave it valid)."""
        k = r.random()
        top = d['x']
        if k < 0.14:
            q = getf(d, 'version')
            if q is None:
                return
            c = r.randrange(4)
            if c == 0:
                top.remove(q)
            elif c == 1:
                q[1] = S(r.choice(['1.0', '2', '2.00', '', ' 2.0', '2.0 ', '3.0', 'v2.0', '2.1', '2,0']))
            elif c == 2:
                q[1] = wrong(r, 'str')
            else:
                q[1] = NUM(r, 8)
        elif k < 0.22:
            top.insert(r.randint(0, len(top)), [r.choice(['Version', 'extra', 'model', 'vocabulary', 'token', '', 'special-tokens']),
                                               r.choice([S('x'), {'k': 'null'}, {'k': 'arr', 'x': []}])])
        elif k < 0.3:
            q = r.choice(top)
            if q[1]['k'] in ('arr', 'str'):
                q[1] = wrong(r, q[1]['k'])
        elif k < 0.75:
            q = getf(d, 'vocab')
            if q is None or q[1]['k'] != 'arr' or not q[1]['x']:
                return
            ts = q[1]['x']
            i = r.randrange(len(ts))
            t = ts[i]
            if t['k'] != 'obj':
                return
            c = r.randrange(8)
            if c == 0:
                ts[i] = wrong(r, 'obj')
            elif c == 1:
                t['x'].insert(r.randint(0, len(t['x'])), [r.choice(['Value', 'id', 'token', 'special', 'Keep', '']), {'k': 'null'}])
            elif c == 2 and t['x']:
                t['x'].remove(r.choice(t['x']))
            elif c == 3 and t['x']:
                p = r.choice(t['x'])
                p[1] = {'k': 'null'}
            elif c == 4 and t['x']:
                p = r.choice(t['x'])
                p[1] = wrong(r, p[1]['k'])
            else:
                # an encoded value that may not be base64
                v = r.choice(['A', 'AAAAA', 'QQ==', 'QQ=', 'Q Q', 'Q-_A', 'é', 'QQ\n', 'QR', 'QUJ', 'QUJE', '', '====', 'QUJDR', '+/+/',
                              'zz', 'QQ', '*', 'Q\x00'])
                fs = [p for p in t['x'] if p[0] not in ('value', 'encoded')]
                fs += [['value', S(v)], ['encoded', {'k': 'bool', 'x': r.random() < 0.85}]]
                r.shuffle(fs)
                t['x'] = fs
        else:
            q = getf(d, 'processors')
            if q is None or q[1]['k'] != 'arr' or not q[1]['x']:
                return
            ps = q[1]['x']
            i = r.randrange(len(ps))
            p = ps[i]
            if p['k'] != 'obj':
                return
            c = r.randrange(6)
            if c == 0:
                ps[i] = wrong(r, 'obj')
            elif c == 1 and p['x']:
                p['x'].remove(r.choice(p['x']))
            elif c == 2 and p['x']:
                f = r.choice(p['x'])
                f[1] = S(r.choice(['NFC', 'nfx', '', 'CRLF', 'lower', 'crlf', 'unicode', 'nfc']))
            elif c == 3 and p['x']:
                f = r.choice(p['x'])
                f[1] = wrong(r, 'str')
            elif c == 4:
                p['x'] = []
            else:
                f = getf(p, 'type')
                if f:
                    f[1] = S(r.choice(['', 'nfc', 'unicod', 'Unicode', 'crlf ', 'norm']))

    def has_raw(v):
        if v['k'] == 'raw':
            return True
        if v['k'] == 'arr':
            return any(has_raw(x) for x in v['x'])
        return v['k'] == 'obj' and any(has_raw(x) for _, x in v['x'])

    def mk(seed, n):
        def f(s):
            r = random.Random(seed)
            for j in range(8):
                if s.dead:
                    return
                d = good(r)
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    spoil(r, d)
                text = Doc(r).render(d)
                plain = {'k': 'raw', 'x': 0} if has_raw(d) else Doc.plain(d)
                c = r.random()
                if c < 0.06 and text:
                    text, plain = text[:r.randrange(len(text))], {'k': 'raw', 'x': 0}
                elif c < 0.1:
                    text, plain = text + r.choice(['x', '}', ',', '{}', ' 1', '\x00']), {'k': 'raw', 'x': 0}
                elif c < 0.12:
                    text, plain = text[:-1] + ',}', {'k': 'raw', 'x': 0}
                elif c < 0.13:
                    text, plain = '\ufeff' + text, {'k': 'raw', 'x': 0}
                elif c < 0.15:
                    d = wrong(r, 'obj')
                    text = Doc(r).render(d)
                    plain = {'k': 'raw', 'x': 0} if has_raw(d) else Doc.plain(d)
                if r.random() < 0.5:
                    v = s.call({'op': 'from_str', 't': 9, 'json': text})
                else:
                    name = os.path.join(where, 'd%d.json' % n)
                    data = text.encode()
                    if r.random() < 0.05:
                        i = r.randint(0, len(data))
                        data, plain = data[:i] + b'\xff' + data[i:], {'k': 'raw', 'x': 0}
                    with open(name, 'wb') as g:
                        g.write(data)
                    v = s.call({'op': 'load', 't': 9, 'file': name})
                s.log(e='read', doc=plain, r=reply(v), st=s.st(v['state']) if 'state' in v else 0, chk=['P07'])
                s.weight += len(text)
        return f
    for i in range(scaled(220, 2400)):
        makers.append(('doc-%d' % i, 4, mk(rng.random(), i)))

    # Cut off at every byte.
    def cuts(seed, n, step):
        def f(s):
            r = random.Random(seed)
            s.new(0, gen.vocab(r, r.choice(gen.ALPHAS), n=n), gen.procs(r), gen.specials(r, 'ab') + ['"}', ']}'])
            for k, how in enumerate(('compact', 'pretty')):
                s.call({'op': 'to_str', 't': 0, 's': k, 'how': how})
                v = s.call({'op': 'cuts', 's': k, 'file': os.path.join(where, 'cut%d.json' % n), 'step': step})
                rr = {'k': 'cuts', **v} if 'tried' in v else reply(v)
                s.log(e='cuts', r=rr, chk=['P07'])
                s.notes = v.get('tried', 0)
        return f
    for i in range(scaled(12, 60)):
        makers.append(('cuts-%d' % i, 4, cuts(rng.random(), i, 1)))
    record_and_validate(res, makers)
    interrupted(res, rng, where)


def interrupted(res, rng, where):
    """Saves that the system really cuts short (the file may grow to a given
    size and no further): what is left must not load."""
    ss = []
    for i in range(scaled(6, 40)):
        size = rng.choice([0, 1, 100, 777, 1500, 4096, 5000])

        def lim(size=size):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        d, e = Driver(pre=lim), Driver()
        s = Session(d, 'interrupted-%d' % size, 4)
        s.new(0, [(b'%d' % k, -1.0, True) for k in range(120)], (), ['<a>'])
        name = os.path.join(where, 'int%d.json' % i)
        if i % 2:
            with open(name, 'w') as g:      # over an earlier, complete save
                g.write('{"version":"2.0","vocab":[]}' + ' ' * rng.choice([0, 10, 9000]))
        v = s.call({'op': 'save', 't': 0, 'file': name})
        s.drv = e
        w = s.call({'op': 'load', 't': 1, 'file': name})
        whole = os.path.getsize(name) if os.path.exists(name) else -1
        # the save says it failed, and what it left is refused
        s.log(e='holds', ok='err' in v and 'err' in w, chk=['P07'])
        s.log(e='cuts', r={'k': 'cuts', 'tried': 1, 'accepted': [] if 'err' in w else [whole], 'panics': []}, chk=['P07'])
        d.close(), e.close()
        ss.append(s)
    validate(res, ss)


# ------------------------------------------------------------------- P08

def p08(res):
    rng = rng_for('P08')
    makers = []

    def batch(s, kind, r, x, how, p, threads, inc, t=0):
        if kind == 'enc':
            singles = [reply(s.call({'op': 'encode', 't': t, 'text': B(q), 'how': how, 'p': p})) for q in x]
            v = s.call({'op': 'encode_batch', 't': t, 'texts': [B(q) for q in x], 'how': how, 'p': p, 'threads': threads})
        else:
            singles = [reply(s.call({'op': 'decode', 't': t, 'ids': q, 'inc': inc})) for q in x]
            v = s.call({'op': 'decode_batch', 't': t, 'ids': x, 'inc': inc, 'threads': threads})
        s.log(e='batch', kind=kind, n=len(x), threads=threads, singles=singles, r=reply(v), chk=['P08'])
        s.weight += sum(len(str(q)) for q in singles) // 3
        return singles

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, all_bytes=r.random() < 0.6, n=8)
            sp = gen.specials(r, alpha)
            s.new(0, vs, gen.procs(r), sp)
            n = r.choice([0, 1, 2, 3, 7, 8, 9, 16, 33])
            xs = [gen.text(r, alpha, vs, hi=r.choice([0, 3, 12]), specials=sp) for _ in range(n)]
            if xs and r.random() < 0.3:
                xs += [xs[0]] * 3
            if r.random() < 0.3:
                xs += gen.similar(r, alpha, 5)
            size = len(vs) + len(set(sp))
            for threads in r.sample([1, 2, 3, 4, 5, 8, 16], 3):
                if s.dead:
                    return
                batch(s, 'enc', r, xs, r.choice(['full', 'ord']), r.choice([0.0, -1.0, 1.0]), threads, True)
                ids = [[r.randrange(size + (1 if r.random() < 0.02 else 0)) for _ in range(r.randint(0, 6))]
                       for _ in range(r.choice([0, 1, 2, 5, 20]))]
                batch(s, 'dec', r, ids, None, 0, threads, r.random() < 0.5)
            if xs and not s.dead:
                singles = [reply(s.call({'op': 'encode', 't': 0, 'text': B(q), 'how': 'full', 'p': 0.0})) for q in xs]
                v = s.call({'op': 'share', 't': 0, 'texts': [B(q) for q in xs], 'threads': r.choice([2, 4, 8]), 'rounds': 3})
                rr = {'k': 'runs', 'runs': [[reply(o) for o in run] for run in v['runs']]} if 'runs' in v else reply(v)
                s.log(e='share', t=0, singles=singles, r=rr, chk=['P08'])
                s.weight += len(str(rr)) // 4
        return f
    for i in range(scaled(120, 1000)):
        makers.append(('random-%d' % i, 4, mk(rng.random())))

    # Several alike, by turns on the same elements.
    def alike(seed):
        def f(s):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            vs = gen.vocab(r, alpha, all_bytes=True, n=6)
            sp, ps = gen.specials(r, alpha), gen.procs(r)
            for t in range(3):
                s.new(t, vs, ps, sp)
                if r.random() < 0.7:
                    vs = r.sample(vs, len(vs))
                else:
                    vs = [(v[0], gen.score(r, 'neg'), False) for v in vs]
                sp = r.sample(sp, len(sp))
            for _ in range(5):
                n = r.choice([1, 1, 2, 3, 8, 17])
                xs = [gen.text(r, alpha, vs, hi=r.choice([2, 6]), specials=sp) for _ in range(n)]
                ids = [[r.randrange(len(vs)) for _ in range(r.randint(1, 6))] for _ in range(n)]
                how, threads = r.choice(['full', 'ord']), r.choice([1, 2, 3])
                for t in r.sample(range(3), 3):
                    if s.dead:
                        return
                    batch(s, 'enc', r, xs, how, 0.0, threads, True, t)
                    batch(s, 'dec', r, ids, None, 0, threads, True, t)
        return f
    for i in range(scaled(60, 400)):
        makers.append(('alike-%d' % i, 4, alike(rng.random())))

    # Equal texts with so many places that no two answers agree.
    for i in range(scaled(12, 60)):
        makers.append(('apart-%d' % i, 4, apart('P08', rng.random())))

    # Equal texts in one batch, at a rate: each is drawn for on its own.
    def spread(seed):
        def f(s):
            r = random.Random(seed)
            vs, xs = few_places(r)
            s.new(0, vs)
            num, den = r.choice(RATES)
            n = min(scaled([1500], [8000])[0], 2 ** 30 // den ** 6)
            how, threads = r.choice(['full', 'ord']), r.choice([1, 2, 4, 8])
            batch = [x for x in xs for _ in range(n)]
            if r.random() < 0.6:
                r.shuffle(batch)
            v = s.call({'op': 'encode_batch', 't': 0, 'texts': [B(x) for x in batch], 'how': how, 'p': num / den, 'threads': threads})
            rs = [reply(o) for o in v['batch']] if 'batch' in v else None
            if rs is None and not all(bytes([b]) in {q[0] for q in vs} for x in xs for b in x.encode()):
                return                  # may fail: some text needs a token that can be withheld
            for x in xs:
                outs = {}
                for y, o in zip(batch, rs or [reply(v)] * len(batch)):
                    if x == y:
                        k = json.dumps(o)
                        outs[k] = outs.get(k, 0) + 1
                s.log(e='spread', t=0, how=how, x=B(x), num=num, den=den, n=n, chk=['P08'],
                      outs=[[json.loads(k), c] for k, c in sorted(outs.items())])
                s.weight += 3000
        return f
    for i in range(scaled(8, 60)):
        makers.append(('spread-%d' % i, 4, spread(rng.random())))

    # Large batches, with and without one element that fails; elements of
    # very different length, so that workers finish out of order.
    def big(seed, n, threads, bad):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(b'a', -1.0), (b'b', -2.0), (b'ab', -2.5), (b'aab', -1.25)], (), ['<s>'])
            xs = [''.join(r.choice(['a', 'b', 'ab', '<s>']) for _ in range(r.choice([1, 2, 3, 400 if k % 97 == 0 else 4])))
                  for k in range(n)]
            if bad is not None and n:
                xs[bad % n] = 'abc'
            singles = batch(s, 'enc', r, xs, 'full', 0.0, threads, True)
            ids = [q['ids'] for q in singles if q['k'] == 'ids']
            if bad is not None and ids:
                ids[bad % len(ids)] = [0, 5]
            batch(s, 'dec', r, ids, None, 0, threads, True)
        return f
    # A few long elements, next to short ones; at times one that fails late.
    def lengthy(seed, n, bad):
        def f(s):
            r = random.Random(seed)
            # every byte but NUL, so that characters stand in several tokens
            s.new(0, [(bytes([b]), -2.0) for b in range(1, 256)] + [(b'ab', -2.5), (b'aab', -1.25)],
                  r.choice([[], ['nfc'], ['crlf', 'nfkd']]), ['<s>', 'b\u00e9'])
            xs = [''.join(r.choice(['a', 'b', 'ab', '<s>', 'b\u00e9', 'c ', '\r\n', '\u6f22', '\U0001f600']) for _ in range(k))
                  for k in (n // 2, 3, n, n + 1)]
            ids = [[r.randrange(259) for _ in range(k)] for k in (n, 2, n + 1, n // 2)]
            for k in range(3):
                y = ''.join(r.choice(['a', '\u6f22', '\u6f22', '\U0001f600']) for _ in range((n + k) // 2)).encode()
                ids.append([b - 1 for b in y])
            if bad:
                xs[2] += '\0'
                ids[2][-1 - r.randrange(3)] = r.choice([259, 1 << 20, (1 << 32) - 1])
            r.shuffle(xs)
            r.shuffle(ids)
            threads = r.choice([1, 2, 8])
            batch(s, 'enc', r, xs, r.choice(['full', 'ord']), 0.0, threads, True)
            for inc in (True, False):
                batch(s, 'dec', r, ids, None, 0, threads, inc)
        return f
    for n in scaled([250, 1023, 4095, 8191], [250, 511, 1023, 2047, 4095, 8191, 16383, 65535]):
        for bad in (False, True):
            makers.append(('lengthy-%d' % n, 4, lengthy(rng.random(), n, bad)))

    for n in scaled([64, 257, 700, 5000], [64, 257, 700, 2500, 5000, 20000]):
        for threads in (1, 3, 8) if n < 5000 else (4,):
            for bad in (None, 0, n - 1, n // 2):
                makers.append(('big-%d-%d-%s' % (n, threads, bad), 4, big(rng.random(), n, threads, bad)))
    record_and_validate(res, makers)


# ------------------------------------------------------------------- P09

def norm(s, p, x, chk=('P09',), e='norm'):
    v = s.call({'op': 'preproc', 'proc': p, 'text': B(x)})
    s.log(e=e, form=p, x=B(x), y=v.get('pre', 0), post=v.get('post', 0),
          r={'k': 'ok'} if 'pre' in v else reply(v), chk=list(chk))


def scramble(r, x):
    """A canonically equivalent text: decompose here and there, exchange
    neighbouring marks of different classes, recompose some pieces."""
    cs = []
    for c in x:
        cs += list(unicodedata.normalize('NFD', c)) if r.random() < 0.5 else [c]
    for _ in range(len(cs)):
        i = r.randrange(len(cs)) if cs else 0
        if i + 1 < len(cs):
            a, b = (unicodedata.combining(cs[j]) for j in (i, i + 1))
            if a and b and a != b:
                cs[i], cs[i + 1] = cs[i + 1], cs[i]
    out = ''.join(cs)
    if r.random() < 0.3:
        i, j = sorted((r.randint(0, len(out)), r.randint(0, len(out))))
        out = out[:i] + unicodedata.normalize('NFC', out[i:j]) + out[j:]
    return out


def p09(res):
    rng = rng_for('P09')
    makers = []
    marks = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000 and unicodedata.combining(chr(c))]
    decs = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000 and unicodedata.decomposition(chr(c))]
    starters = ['a', 'e', 'o', 'A', 'c', 's', 'ſ', 'Ω', 'ᄀ', '가', '각', 'ᅡ', 'ᆨ', 'ᆩ', '한', 'क', 'ড', '𑂙', '𑄱', '漢', 'ﬁ', '①', 'ǆ',
                'ϔ', 'ẛ', 'ÅÅ', 'ấ', '\u0f71', '\u09c7', '\u09be', '\u1161', '\u11a8', '\u0b47', '\u0bc6', '\u0dd9']

    def uni(r):
        out = []
        for _ in range(r.randint(0, 9)):
            k = r.random()
            if k < 0.35:
                out.append(r.choice(starters))
            elif k < 0.6:
                out.append(r.choice(marks[:120] if r.random() < 0.7 else marks))
            elif k < 0.8:
                out.append(r.choice(decs))
            elif k < 0.9:
                out.append(r.choice(['\r\n', '\r', '\n', '\r\r\n', '\n\r']))
            else:
                out.append(chr(r.choice([0x61, 0xac00 + r.randrange(11172), r.randrange(0x300, 0x3000)])))
        # characters the specification's Unicode version knows
        return ''.join(c for c in out if unicodedata.category(c[0]) != 'Cn')

    def mk(seed):
        def f(s):
            r = random.Random(seed)
            for _ in range(8):
                x = uni(r)
                for p in r.sample(gen.PROCS, 3):
                    norm(s, p, x)
                    if r.random() < 0.3:
                        v = s.call({'op': 'preproc', 'proc': p, 'text': B(x)})
                        if 'pre' in v:
                            norm(s, p, bytes(v['pre']))      # a second time changes nothing
        return f
    for i in range(scaled(100, 900)):
        makers.append(('norm-%d' % i, 4, mk(rng.random())))

    def long(seed):
        def f(s):
            r = random.Random(seed)
            for _ in range(2):
                x = ''.join(uni(r) for _ in range(scaled([60], [400])[0]))
                for p in gen.PROCS:
                    norm(s, p, x)
                    norm(s, p, 'a' * r.choice([60, 100, 127, 255, 1000]) + x[:20] + 'a' * 40)
        return f
    for i in range(scaled(2, 20)):
        makers.append(('long-%d' % i, 4, long(rng.random())))

    # Texts as long as files, at every offset: no internal border may show.
    def whole(seed, n):
        def f(s):
            r = random.Random(seed)
            s.new(0, [(bytes([b]), -4.0, True) for b in range(256)], [r.choice(gen.PROCS[1:]), 'crlf'][::r.choice([1, -1])], [])
            for shift in range(3):
                w = r.choice(['ae\u0301', 'b\u0323\u0307', 'c\u0307\u0323', '\u1112\u1161\u11ab', 'a\r\n', 'x\u212b', 'e\u0301\u0323'])
                x = 'z' * shift + ''.join(c for c in (w + 'q' * r.choice([0, 0, 0, 1])) * (n // len(w) + 1))
                if not w[0].isascii():
                    x = x.replace(w * 5, w * 4 + 'k')
                for p in r.sample(gen.PROCS[1:], 2) + ['crlf'] * ('\r' in w):
                    norm(s, p, x[:n], e='normlong')
                s.weight += 3 * n
            # through a tokenizer whose ids are the bytes, with one form
            form = r.choice(gen.PROCS)
            s.new(1, [(bytes([b]), -4.0, True) for b in range(256)], [form])
            w = r.choice(['ae\u0301', 'a\r\n', 'c\u0307\u0323', 'ab\r\n\u1112\u1161\u11ab'])
            x = ('z' * r.randint(0, 2) + w * (n // len(w) + 1))[:n]
            v = s.call({'op': 'encode', 't': 1, 'text': B(x), 'how': r.choice(['full', 'ord']), 'p': 0.0})
            s.log(e='normlong', form=form, x=B(x), y=v.get('ids', 0), post=B(x), r={'k': 'ok'} if 'ids' in v else reply(v), chk=['P09'])
        return f
    for n in scaled([4200, 9000, 66000], [4200, 9000, 17000, 33000, 66000, 140000, 270000]):
        makers.append(('whole-%d' % n, 4, whole(rng.random(), n)))

    # Many marks on one character.
    def pile(seed, n):
        def f(s):
            r = random.Random(seed)
            known = [c for c in marks if unicodedata.category(c) != 'Cn']
            kinds = {}
            for c in known:
                kinds.setdefault(unicodedata.combining(c), []).append(c)
            for _ in range(3):
                some = r.sample(known, r.choice([1, 2, 5])) if r.random() < 0.6 else [r.choice(kinds[r.choice(list(kinds))]) for _ in range(9)]
                x = r.choice(starters) + ''.join(r.choice(some) for _ in range(n)) + r.choice(['', 'a', '\u1161'])
                for p in gen.PROCS[1:]:
                    norm(s, p, x)
        return f
    for n in scaled([12, 29, 30, 31, 33, 64, 130], [12, 29, 30, 31, 32, 33, 64, 130, 260, 700]):
        makers.append(('pile-%d' % n, 4, pile(rng.random(), n)))

    def crlf(seed):
        def f(s):
            r = random.Random(seed)
            for _ in range(30):
                norm(s, 'crlf', ''.join(r.choice('\r\r\n\nab\u2028\x85é') for _ in range(r.randint(0, 12))))
        return f
    for i in range(scaled(10, 60)):
        makers.append(('crlf-%d' % i, 4, crlf(rng.random())))

    # Every character that any form touches, one at a time.
    touched = sorted(set(marks) | set(decs) | {chr(c) for c in range(0xac00, 0xd7a4, 1 if THOROUGH else 97)}
                     | {chr(c) for c in range(0x1100, 0x1200)})
    per = 24

    def chars(cs, forms):
        def f(s):
            for i in range(0, len(cs), per):
                for p in forms:
                    norm(s, p, 'x'.join(cs[i:i + per]) + 'x')
        return f
    pick = touched if THOROUGH else [c for i, c in enumerate(touched) if ord(c) < 0x3000 or i % 6 == rng.randrange(6)]
    for i in range(0, len(pick), 240):
        forms = gen.PROCS[1:] if THOROUGH else [gen.PROCS[1:][(i // 240 + k) % 4] for k in (0, 1)]
        makers.append(('chars-%d' % i, 4, chars(pick[i:i + 240], forms)))

    # In a tokenizer: several steps, in order, per stretch; the ids of
    # equivalent texts; decoding changes nothing.
    def tok(seed):
        def f(s):
            r = random.Random(seed)
            pr = [r.choice(gen.PROCS) for _ in range(r.randint(1, 4))]
            sp = r.choice([[], ['<s>'], ['e\u0301', '\r\n'], ['\u0301']])
            s.new(0, [(bytes([b]), -4.0, True) for b in range(256)] + [('é'.encode(), -1.0), ('가'.encode(), -1.0), (b'\r\n', -1.0)],
                  pr, sp)
            for _ in range(6):
                if s.dead:
                    return
                x = uni(r)
                if sp and r.random() < 0.6:
                    i = r.randint(0, len(x))
                    x = x[:i] + r.choice(sp) + x[i:]
                s.encode(0, x, ['P09'], how=r.choice(['full', 'ord']), dec=True)
            s.decode(0, [r.choice([13, 10, 256, 257, 258, 0xc3, 0xa9, 0xcc, 0x81, 65]) for _ in range(8)], True, ['P09'])
            form = r.choice(gen.PROCS[1:])
            s.new(1, [(bytes([b]), -4.0, True) for b in range(256)], [form])
            for _ in range(4):
                x = uni(r)
                y = scramble(r, x)
                rx, ry = (reply(s.call({'op': 'encode', 't': 1, 'text': B(q), 'how': 'ord', 'p': 0.0})) for q in (x, y))
                s.log(e='equiv', x=B(x), y=B(y), rx=rx, ry=ry, chk=['P09'])
        return f
    for i in range(scaled(60, 600)):
        makers.append(('steps-%d' % i, 4, tok(rng.random())))
    record_and_validate(res, makers)
