"""Running the training commands and recording what they did."""
import base64, json, math, os, random, re, resource, subprocess, time
from fractions import Fraction
from vlib import *
from lib_checks import rng_for, scaled
import gen


class Case:
    """One recorded history of commands."""

    def __init__(self, name, note=''):
        self.name, self.note, self.ev, self.cmds, self.weight = name, note, [], [], 0

    def log(self, cost=0, **ev):
        self.ev.append(ev)
        self.weight += len(json.dumps(ev)) // 3 + cost


def where(prop):
    d = os.path.join(scratch(), prop.lower())
    os.makedirs(d, exist_ok=True)
    return d


def cli(case, args, threads=None, limit=90, env=None):
    """Run the real program.  Returns ok, crash or hang."""
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ, RUST_BACKTRACE='0', **(env or {}))
    e.pop('RUST_LOG', None)
    if threads:
        e['RAYON_NUM_THREADS'] = str(threads)
    args = [str(a) for a in args]
    try:
        p = subprocess.run([CLI] + args, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=limit, preexec_fn=limits)
        r = 'ok' if p.returncode == 0 else 'crash'
        err = p.stderr.decode(errors='replace')[-600:]
    except subprocess.TimeoutExpired:
        r, err = 'hang', ''
    case.cmds.append({'argv': args, 'threads': threads, 'result': r, 'stderr': err})
    return r


def write_tok(path, vocab, procs=(), sp=()):
    """vocab: [(bytes, score, keep)]"""
    doc = {'version': '2.0', 'special_tokens': list(sp),
           'processors': [{'type': 'crlf'} if p == 'crlf' else {'type': 'unicode', 'form': p} for p in procs],
           'vocab': []}
    for v, s, k in vocab:
        t = {'value': base64.b64encode(v).decode().rstrip('='), 'encoded': True, 'score': s}
        if k:
            t['keep'] = True
        doc['vocab'].append(t)
    with open(path, 'w') as f:
        json.dump(doc, f)


class Tok:
    def __init__(self, vocab, procs, sp):
        self.vocab, self.procs, self.sp = vocab, list(procs), list(sp)

    def pa(self):
        return {'sp': [B(s) for s in self.sp], 'procs': self.procs}


def read_tok(path):
    """What a command left; None if it cannot be read."""
    try:
        with open(path) as f:
            d = json.load(f)
        assert d['version'] == '2.0'
        vocab = []
        for t in d['vocab']:
            v = base64.b64decode(t['value'] + '=' * (-len(t['value']) % 4)) if t.get('encoded') else t['value'].encode()
            vocab.append((v, t['score'], bool(t.get('keep'))))
        procs = ['crlf' if p['type'] == 'crlf' else p['form'] for p in d['processors']]
        return Tok(vocab, procs, d['special_tokens'])
    except Exception:
        return None


NOWHERE = {'sp': [], 'procs': ['unreadable']}


def entries(vocab, f):
    return [{'v': list(v), 's': f(s), 'k': k} for v, s, k in vocab]


def ranks(*groups):
    """Order-preserving numbers for scores."""
    num = [x for g in groups for x in g if isinstance(x, (int, float))]
    order = {x: i for i, x in enumerate(sorted(set(float(x) for x in num)))}
    return lambda x: order[float(x)] if isinstance(x, (int, float)) else ODD


def times(scale):
    def f(x):
        if not isinstance(x, (int, float)) or abs(x) * scale > 1e9:
            return ODD
        return round(x * scale)
    return f


# ------------------------------------------------------------- sample files

class Source:
    """A file of samples and how it is passed."""

    def __init__(self, path, raw=None, num=1, den=1, reps=None, rng=None, pretext=None):
        self.path, self.num, self.den = path, num, den
        self.desc = {}
        if raw is not None:
            data = raw
            self.desc = {'raw': list(raw), 'num': num, 'den': den}
        else:
            order = [x for x, n in reps for _ in range(n)]
            rng.shuffle(order)
            data = b'\0'.join(order)
            self.desc = {'reps': [[list(x), n] for x, n in reps]}
        with open(path, 'wb') as f:
            f.write(data)

    def arg(self, name='s'):
        a = '%s:%s' % (name, self.path)
        if (self.num, self.den) != (1, 1):
            x = self.num / self.den
            forms = [repr(x), '%.20f' % x, '%.17e' % x, '+' + repr(x)] + ([repr(x)[1:]] if 0 < x < 1 else [])
            a += ':%s' % [f for f in forms if float(f) == x][len(self.path + repr(self.num)) * 7 % 5 % len(forms)]
        return a


def long_source(rng, path, blocks, sep='\x01'):
    """One long sample: [(bytes, n)], each block n times, sep after each."""
    blocks = [(x + sep.encode(), n) for x, n in blocks]
    order = [x for x, n in blocks for _ in range(n)]
    rng.shuffle(order)
    s = Source(path, raw=b''.join(order))
    s.desc = {'blocks': [[list(x), n] for x, n in blocks], 'sep': ord(sep)}
    return s


NAMES = ['s', 'code', 'é 漢', '', 'a/b', '-x', '0.5', 's1']


def args_of(sources):
    """Names are labels: they may be anything without a colon, and equal."""
    out = []
    for i, s in enumerate(sources):
        out += ['--train', s.arg('s%d' % i if len(s.path) % 2 else NAMES[(i + len(str(s.desc))) % len(NAMES)])]
    return out


def raw_source(rng, path, samples):
    """NUL-separated, with empty samples in between and odd proportions."""
    parts = []
    for x in samples:
        while rng.random() < 0.2:
            parts.append(b'')
        parts.append(x.encode() if isinstance(x, str) else x)
    while rng.random() < 0.3:
        parts.append(b'')
    n = sum(1 for p in parts if p)
    num, den = 1, 1
    r = rng.random()
    if r < 0.35:
        den = rng.choice([2, 4, 8])
        num = rng.randint(0, den + 1)
    elif r < 0.5:
        num = rng.randint(1, 9)
        den = 10
        if (n * num) % den == 0:
            num, den = 1, 1
    if num == den:
        num, den = 1, 1
    # the name of a file is its own, to the last character
    path += ['', '', ' ', '.txt', '\t', ' .x', '\u3000', '.\u00e9', '', "'", '~', '\n', '%20', '?', '*'][(7 * len(parts) + n + len(path)) % 15]
    return Source(path, raw=b'\0'.join(parts), num=num, den=den)


def reps_sources(rng, base, samples, files=None):
    """samples: [(bytes, n)] spread over some files."""
    files = files or rng.randint(1, 3)
    parts = [[] for _ in range(files)]
    for x, n in samples:
        cuts = sorted(rng.randint(0, n) for _ in range(files - 1))
        for p, a, b in zip(parts, [0] + cuts, cuts + [n]):
            if b > a:
                p.append((x, b - a))
    return [Source('%s.s%d' % (base, i), reps=p, rng=rng) for i, p in enumerate(parts)]


# ------------------------------------------------------------- patterns

def chr_(*rs, neg=False):
    return {'k': 'chr', 'neg': neg, 'rs': [[ord(r[0]), ord(r[-1])] for r in rs]}


def cat(*xs):
    return {'k': 'cat', 'xs': list(xs)}


def alt(*xs):
    return {'k': 'alt', 'xs': list(xs)}


def rep(x, lo, hi, lazy=False):
    return {'k': 'rep', 'x': x, 'lo': lo, 'hi': hi, 'lazy': lazy}


BOL, EOL = {'k': 'bol'}, {'k': 'eol'}


def lit(s):
    return cat(*[chr_(c) for c in s])


def render(a):
    """The pattern as a regular expression."""
    k = a['k']
    if k == 'chr':
        e = lambda c: '\\x{%x}' % c if c > 126 or c < 32 else '\\' + chr(c) if not (chr(c).isalnum() or c == 32) else chr(c)
        if len(a['rs']) == 1 and a['rs'][0][0] == a['rs'][0][1] and not a['neg']:
            c = a['rs'][0][0]
            return '\\x{%x}' % c if chr(c) in '<>' else e(c)
        return '[%s%s]' % ('^' if a['neg'] else '', ''.join(
            '\\x{%x}-\\x{%x}' % (x, y) for x, y in a['rs']))
    if k == 'cat':
        return ''.join('(?:%s)' % render(x) if x['k'] == 'alt' else render(x) for x in a['xs'])
    if k == 'alt':
        return '|'.join(render(x) for x in a['xs'])
    if k == 'rep':
        lo, hi = a['lo'], a['hi']
        q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((lo, hi)) or (
            '{%d,}' % lo if hi == -1 else '{%d,%d}' % (lo, hi))
        return '(?:%s)%s%s' % (render(a['x']), q, '?' if a['lazy'] else '')
    return {'bol': '^', 'eol': '$'}[k]


def custom(rng, alpha, depth=2, nullable=False):
    """A random pattern; repeated parts never match the empty text."""
    def chars():
        n = rng.randint(1, 2)
        return chr_(*[rng.choice(alpha) for _ in range(n)], neg=rng.random() < 0.1)

    def go(d):
        r = rng.random()
        if d == 0 or r < 0.25:
            return chars()
        if r < 0.5:
            return cat(*[go(d - 1) for _ in range(rng.randint(1, 3))])
        if r < 0.75:
            return alt(*[go(d - 1) for _ in range(rng.randint(2, 3))])
        lo = rng.randint(1, 2)
        return rep(go(d - 1), lo, rng.choice([-1, lo, lo + 1, 3]), rng.random() < 0.2)

    a = go(depth)
    r = rng.random()
    if r < 0.12:
        a = cat(rep(chars(), 0, 1, rng.random() < 0.3), a)
    elif r < 0.2:
        a = alt(a, cat(BOL, chars())) if rng.random() < 0.5 else cat(a, EOL)
    if nullable and rng.random() < 0.15:
        a = rep(a, 0, 1)
    return a


def ast(a):
    return {'ast': a}


def walk(a, f):
    """The pattern with f applied to every part, inner ones first."""
    b = dict(a)
    if 'xs' in a:
        b['xs'] = [walk(x, f) for x in a['xs']]
    if 'x' in a:
        b['x'] = walk(a['x'], f)
    return f(b)


def parts(a):
    return [a] + [y for x in a.get('xs', []) + ([a['x']] if 'x' in a else []) for y in parts(x)]


def folded(a):
    """The pattern whatever the case of its letters."""
    def go(b):
        if b['k'] == 'chr':
            rs = list(b['rs'])
            for x, y in b['rs']:
                assert x == y
                for c in {ord(z) for z in (chr(x).lower(), chr(x).upper(), {'k': '\u212a', 's': '\u017f'}.get(chr(x).lower(), chr(x)))
                          if len(z) == 1}:
                    if [c, c] not in rs:
                        rs.append([c, c])
            b['rs'] = rs
        return b
    return walk(a, go)


ANY = {'k': 'chr', 'neg': False, 'rs': [[0, 0x10ffff]]}
DOT = chr_('\n', neg=True)


def dressed(rng, a, comments=True):
    """A pattern written with flags of its own, which concern nothing else:
    what it says (ast) and how it is written (src)."""
    k = rng.choice('isdmxxUngg')
    if k == 'i':
        return {'ast': folded(a), 'src': '(?i)' + render(a)}
    if k in 'sd':
        # a dot somewhere
        dots = rng.choice(['.', '.{1,2}', '.+'])
        dot = {'s': ANY, 'd': DOT}[k]
        x = {'.': dot, '.{1,2}': rep(dot, 1, 2), '.+': rep(dot, 1, -1)}[dots]
        inner = '(?:%s)' % render(a)
        first = rng.random() < 0.5
        return {'ast': cat(*([x, a] if first else [a, x])), 'src': ('(?s)' if k == 's' else '') + (dots + inner if first else inner + dots)}
    if k == 'm' and not any(b['k'] in ('bol', 'eol') for b in parts(a)):
        return {'ast': a, 'src': '(?m)' + render(a)}
    if k == 'x':
        # blanks and comments, of which the last may come at the very end
        gap = lambda: rng.choice(['', ' ', '\n', '\t'] + [' # (\n'] * comments)
        return {'ast': a, 'src': '(?x)' + gap() + render(a).replace(' ', '\\x{20}') + gap() +
                (rng.choice(['', '# so', ' #)|(', ' # b\n', '#']) if comments else '')}
    if k == 'U':
        def swap(b):
            if b['k'] == 'rep':
                b['lazy'] = not b['lazy']
            return b
        return {'ast': walk(a, swap), 'src': '(?U)' + render(a)}
    if k == 'g':
        # groups, of which some have names; and what looks like one
        names = iter(rng.sample(['n', 'm', 'n1', 'é.[0]'], 3))
        def group(_):
            n = rng.choice(['', '', '?P<%s>', '?<%s>', '?:'])
            x = next(names, None) if '%' in n else ''
            return '(' + (n % x if x else '' if x is None else n)
        src = re.sub(r'\(\?:', group, '(?:%s)' % render(a) if rng.random() < 0.7 else '(?:(?:%s)|(?:%s))' % (render(a), render(a)))
        for _ in range(rng.choice([0, 0, 1, 2])):
            x, cs = rng.choice([('[(?<n>]', '(?<n>'), ('\\(', '('), ('[](]', ']('), ('[\\](?P<n>]', '](?P<n>'), ('[[(]?]', '(?'), ('\\[(?:)', '[')])
            a, src = (cat(a, chr_(*cs)), src + x) if rng.random() < 0.5 else (cat(chr_(*cs), a), x + src)
        return {'ast': a, 'src': src}
    if k == 'n':
        # line ends as they are
        x = rng.choice(['\n', '\r', '\r\n', '\n\n'])
        first = rng.random() < 0.5
        return {'ast': cat(*([lit(x), a] if first else [a, lit(x)])),
                'src': x + '(?:%s)' % render(a) if first else '(?:%s)' % render(a) + x}
    return ast(a)


def written(p):
    """The pattern as an argument."""
    return p['name'] if 'name' in p else p.get('src') or render(p['ast'])


def pattern_file(path, a, src=None):
    # Blanks around the whole pattern are layout, and are left out when the
    # file is read: none of the pattern's own may stand there.
    with open(path, 'w') as f:
        f.write(src or '(?:%s)' % render(a))
    return path


# ------------------------------------------------------------- judging

def run_cases(res, jobs, workers=6, **kw):
    """jobs: [(name, function(case))]; run them, then have TLC judge."""
    build()

    def one(j):
        c = Case(j[0])
        if not THOROUGH and time.time() - T0 > 480:
            # a program far slower than usual: what was run is judged
            res.count('cases_out_of_time')
            return c
        j[1](c)
        return c
    with ThreadPoolExecutor(workers) as ex:
        cases = list(ex.map(one, jobs))
    validate(res, cases, module='TrainTrace', **kw)
    skipped, judged = res.notes.get('lines_undecided', 0), sum(len(c.ev) for c in cases)
    if skipped * 2 > judged:
        raise ToolError('too many cases could not be judged: %d of %d' % (skipped, judged))
    return cases
