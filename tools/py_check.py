"""The Python module against the Rust library (P24)."""
import json, os, random, sys
from vlib import *
from lib_checks import rng_for, scaled
import gen
from train_lib import write_tok

PYDRIVER = os.path.join(ROOT, 'tools', 'pydriver.py')


def rust(op, r):
    """A reply of the Rust driver, as the Python driver words it."""
    for k in ('hang', 'crash', 'panic'):
        if k in r:
            return {k: 1}
    if 'err' in r:
        return {'err': 'TokenGeeXError'}
    ent = lambda o: [o[0], float(o[1]).hex()]
    if op == 'state':
        return {'sp': r['specials'], 'size': r['size'], 'base': r['base'], 'special': r['special'],
                'vocab': [ent(v) for v in r['vocab']]}
    if op == 'encode':
        return {'ids': r['ids']}
    if op == 'encode_batch':
        return {'batch': [x['ids'] for x in r['batch']]}
    if op == 'decode':
        return {'text': r['text']}
    if op == 'decode_batch':
        return {'batch': [x['text'] for x in r['batch']]}
    if op == 'query':
        return {'ids': [{'tok': q['tok'], 'sp': q['sp'], 'base': [ent(b) for b in q['base']], 'is_sp': q['is_sp'],
                         'is_base': q['is_base']} for q in r['ids']],
                'toks': [{'tok': q['tok'], 'base': q['base'], 'sp': q['sp']} for q in r['toks']]}
    if op == 'prefix':
        return {'found': [i for i, _ in r['found']]}
    return {'ok': True}


def python(r):
    for k in ('hang', 'crash', 'panic'):
        if k in r:
            return {k: 1}
    return {k: v for k, v in r.items() if k != 'msg'}


def plain(v):
    """As the specification can compare it: alternatives told apart by k."""
    def go(x):
        if isinstance(x, dict):
            return {k: go(y) for k, y in x.items()}
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, int) and not isinstance(x, bool):
            return min(x, BIG)
        return x
    v = go(v)
    k = 'err' if 'err' in v else next(iter(v))
    return {'k': k, 'v': v}


class Dead(Exception):
    """One side is gone; the history ends here."""


class Pair:
    """The same history on both."""

    def __init__(self, s, py):
        self.s, self.py = s, py

    def both(self, cmd, cmd_py=None):
        a = self.s.drv.call(cmd)
        b = self.py.call(cmd_py or cmd)
        self.s.cmds.append([cmd, str(a)[:2000], str(b)[:2000]])
        op = cmd['op']
        if op in ('new', 'clone', 'to_str'):
            return a, b
        pa, pb = plain(rust(op, a)), plain(python(b))
        if pa['k'] != pb['k']:
            pa, pb = {'k': pa['k'], 'v': 0}, {'k': pb['k'], 'v': 0}
        self.s.log(e='parity', chk=['P24'], what=op, a=pa, b=pb)
        if pa['k'] in ('hang', 'crash') or pb['k'] in ('hang', 'crash'):
            raise Dead()
        return a, b

    def holds(self, ok, what):
        self.s.log(e='holds', chk=['P24'], ok=bool(ok), what=what)


def p24(res):
    build()
    mod = build('py')
    rng = rng_for('P24')
    d = os.path.join(scratch(), 'p24')
    os.makedirs(d, exist_ok=True)
    jobs = []

    def mk(i, seed):
        def f(pair):
            r = random.Random(seed)
            alpha = r.choice(gen.ALPHAS)
            kind = r.choice(['neg', 'wide'])
            vs = gen.vocab(r, alpha, r.choice([0, 2, 6, 12]), all_bytes=r.random() < 0.15, kind=kind)
            if r.random() < 0.5:
                # scores with all the digits a score can have
                vs = [(v, s * (1 + r.random() * 1e-3) - r.random() * 1e-3, k) for v, s, k in vs]
            sp = list(dict.fromkeys(gen.specials(r, alpha)))
            procs = gen.procs(r)
            base = os.path.join(d, str(i))
            # the same definition, from a file or from its text
            write_tok(base, vs, procs, sp)
            if r.random() < 0.5:
                pair.both({'op': 'load', 't': 0, 'file': base})
            else:
                pair.both({'op': 'from_str', 't': 0, 'json': open(base).read()})
            mine = dict(vocab=vs, sp=sp)
            live = [0]

            def look(t, n=2):
                pair.both({'op': 'state', 't': t})
                a, _ = pair.both({'op': 'query', 't': t, 'ids': ids(t), 'toks': [B(v[0]) for v in vs[:8]] + [B(x) for x in sp] +
                                  [[], [255], B('zz')]})
                for _ in range(n):
                    use(t)

            def ids(t):
                b = len(vs)
                return sorted({0, 1, max(0, b - 1), b, b + 1, b + len(sp) - 1 if sp else b, b + len(sp), b + len(sp) + 1,
                               b + 300, 2 ** 31, 2 ** 32 - 1} | {r.randrange(b + len(sp) + 2) for _ in range(3)})

            def text():
                return B(gen.text(r, alpha, vs, 12, sp))

            def use(t):
                k = r.random()
                how = r.choice(['full', 'full', 'ord'])
                p = r.choice([0.0, 0.0, 1.0])
                some = lambda: [r.randrange(len(vs) + len(sp) + (1 if r.random() < 0.1 else 0)) for _ in range(r.randint(0, 8))] \
                    if len(vs) + len(sp) else []
                if k < 0.35:
                    a, _ = pair.both({'op': 'encode', 't': t, 'how': how, 'text': text(), 'p': p})
                    if 'ids' in a:
                        pair.both({'op': 'decode', 't': t, 'ids': a['ids'], 'inc': r.random() < 0.5})
                elif k < 0.55:
                    pair.both({'op': 'encode_batch', 't': t, 'how': how, 'p': p, 'texts': [text() for _ in range(r.randint(0, 6))]})
                elif k < 0.7:
                    pair.both({'op': 'decode', 't': t, 'ids': some(), 'inc': r.random() < 0.5})
                elif k < 0.85:
                    pair.both({'op': 'decode_batch', 't': t, 'ids': [some() for _ in range(r.randint(0, 5))], 'inc': r.random() < 0.5})
                else:
                    x = text()
                    pair.both({'op': 'prefix', 't': t, 'text': x})
            look(0)
            for _ in range(r.randint(1, 5)):
                t = r.choice(live)
                k = r.random()
                if k < 0.3:
                    more = gen.specials(r, alpha)
                    pair.both({'op': 'add_special', 't': t, 'toks': [B(x) for x in more]})
                    sp.extend(more)
                elif k < 0.5:
                    u = 1 - t
                    pair.both({'op': 'clone', 't': t, 'to': u}, {'op': r.choice(['pickle', 'pickle', 'copy'] + ['restate'] * 3 * (u in live)), 't': t, 'to': u,
                                                                 'protocol': r.choice([2, 3, 4, 5])})
                    if u not in live:
                        live.append(u)
                    look(u, 1)
                elif k < 0.65:
                    fa, fb = base + '.a', base + '.b'
                    pair.both({'op': 'save', 't': t, 'file': fa}, {'op': 'save', 't': t, 'file': fb})
                    pair.holds(os.path.exists(fb) and open(fa).read() == open(fb).read(), 'the same file')
                    pair.both({'op': 'load', 't': t, 'file': fa}, {'op': 'load', 't': t, 'file': fb})
                elif k < 0.75:
                    bad = r.choice([d, base + '.nodir/x', ''])
                    b = pair.py.call({'op': 'save', 't': t, 'file': bad})
                    pair.holds('err' in b, 'a save that fails raises')
                elif k < 0.8:
                    bad = r.choice(['', '{', '{}', '[]', 'null', open(base).read()[:-1], open(base).read().replace('2.0', '2.1', 1), open(base).read() + 'x'])
                    b = pair.py.call({'op': 'badstate', 't': t, 'state': bad, 'bytes': r.random() < 0.8})
                    pair.holds('err' in b, 'an unreadable state raises')
                elif k < 0.9:
                    _, b = pair.both({'op': 'to_str', 't': t, 's': 0})
                    a = pair.s.drv.call({'op': 'dump_str', 's': 0})
                    pair.holds(b.get('str') == a.get('json'), 'the same text')
                    pair.both({'op': 'from_str', 't': t, 's': 0})
                else:
                    junk = r.choice(['', '{}', '[]', '{"version":"1.0"}', open(base).read()[:-1], open(base).read() + 'x',
                                     '{"version":"2.0","vocab":[{"value":"a"}]}'])
                    with open(base + '.junk', 'w') as g:
                        g.write(junk)
                    pair.both({'op': 'from_str', 't': 9, 'json': junk})
                    pair.both({'op': 'load', 't': 9, 'file': base + r.choice(['.junk', '.nowhere'])})
                look(t, 1)
        return f

    def dropout(pair):
        # whether the rate reaches the library: at a half, some tokens of a
        # long text are dropped and some are not
        base = os.path.join(d, 'drop')
        write_tok(base, [(b'a', -8.0, False), (b'b', -8.0, False), (b'ab', -1.0, False)])
        pair.both({'op': 'load', 't': 0, 'file': base})
        b = pair.py.call({'op': 'exports'})
        pair.holds(b == {'ok': True}, 'TokenGeeXError is exported')
        b = pair.py.call({'op': 'empty', 't': 3})
        pair.holds('ok' in b, 'an empty tokenizer can be made')
        x = B('ab' * 400)
        for how in ('full', 'ord'):
            for op in ('encode', 'encode_batch'):
                for p in (0.25, 0.5, 0.75):
                    cmd = {'op': op, 't': 0, 'how': how, 'p': p}
                    cmd.update({'text': x} if op == 'encode' else {'texts': [x, x]})
                    out = []
                    for got in (rust(op, pair.s.drv.call(cmd)), python(pair.py.call(cmd))):
                        ids = got.get('ids') if op == 'encode' else [i for y in got.get('batch', []) for i in y]
                        n = (ids or []).count(2) * (2 if op == 'encode' else 1)
                        # 800 trials; seven deviations are 99
                        out.append(abs(n - 800 * (1 - p)) <= 110)
                    pair.s.log(e='parity', chk=['P24'], what='rate', a={'k': 'rate', 'v': out[0]}, b={'k': 'rate', 'v': out[1]})

    for i in range(scaled(150, 1500)):
        jobs.append(('history-%d' % i, mk(i, rng.random())))
    jobs.append(('dropout', dropout))

    def part(k):
        drv = Driver(limit=30)
        py = Driver(argv=['/usr/bin/python3', PYDRIVER, mod], limit=30)
        out = []
        for name, f in jobs[k::4]:
            s = Session(drv, name, 4)
            try:
                f(Pair(s, py))
            except Dead:
                pass
            out.append(s)
        drv.close()
        py.close()
        return out
    with ThreadPoolExecutor(4) as ex:
        sessions = [s for ss in ex.map(part, range(4)) for s in ss]
    validate(res, sessions)
