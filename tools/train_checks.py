"""Checks of the training commands (P14 - P23, P25)."""
import itertools, unicodedata
from train_lib import *
from lib_checks2 import known
from lib_checks import record_and_validate
from lib_checks2 import any_score


def vocab_for(rng, alpha, n, scorer, keep=0.2, lo=1, hi=5, singles=True, single_keep=None):
    """Distinct byte strings over alpha, with all the bytes of alpha."""
    out = {}
    if singles:
        for b in sorted(set(alpha.encode())):
            out[bytes([b])] = (scorer(), rng.random() < (keep if single_keep is None else single_keep))
    while n > 0:
        w = gen.word(rng, alpha, lo, hi).encode()
        if rng.random() < 0.15 and len(w) > 1:
            w = w[:-1] if rng.random() < 0.5 else w[1:]
        if w not in out:
            out[w] = (scorer(), rng.random() < keep)
        n -= 1
    items = [(v, s, k) for v, (s, k) in out.items()]
    rng.shuffle(items)
    return items


def uniques(rng, step=16, hi=4096):
    """Scores that are all different multiples of 1/step."""
    seen = set()

    def one():
        while True:
            x = -rng.randint(1, hi)
            if x not in seen:
                seen.add(x)
                return x / step
    return one


def words(rng, alpha, n, lo=1, hi=8):
    return [gen.word(rng, alpha, lo, hi) for _ in range(n)]


def counted(rng, xs, hi=12):
    """Distinct samples with multiplicities."""
    out = {}
    for x in xs:
        out[x.encode() if isinstance(x, str) else x] = rng.randint(1, hi)
    return list(out.items())


SPS = [[], [], ['<s>'], ['<|pad|>', 'é"\\'], ['a', 'ab', '\r\n'], ['<%d>' % (i * 7 % 40) for i in range(40)]]


# ------------------------------------------------------------------- P14

def p14(res):
    rng = rng_for('P14')
    d = where('P14')
    jobs = []

    def job(i, r):
        def run(c):
            mode = r.choice(['dyadic', 'ties', 'any', 'zero'])
            scorer = {'dyadic': lambda: -r.randint(1, 200) / 8, 'ties': lambda: -float(r.randint(1, 4)),
                      'any': lambda: any_score(r), 'zero': lambda: r.choice([0.0, -0.0, 1.0, -1.0, 0.5])}[mode]
            n = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60]) if i % 50 else 700
            if i % 400 in (150, 250):
                n = 3000 if i % 400 == 150 else 70000
            vocab = vocab_for(r, r.choice(['ab', 'abc', 'aé', 'a\n']), n, scorer, hi=5 if n < 1000 else 24, keep=r.choice([0, 0.3, 0.6, 1 if n < 1000 else 0.1]),
                              singles=r.random() < 0.7) if n else []
            if vocab and r.random() < 0.25:
                vocab += [(v, scorer(), r.random() < 0.5) if r.random() < 0.5 else (v, s, k)
                          for v, s, k in r.sample(vocab, min(3, len(vocab)))]
            procs, sp = gen.procs(r), r.choice(SPS)
            for step in range(r.choice([1, 1, 2, 3])):
                inp, out = os.path.join(d, '%d.in' % i), os.path.join(d, '%d.out' % i)
                write_tok(inp, vocab, procs, sp)
                if os.path.exists(out):
                    os.remove(out)
                n = len(vocab)
                args = ['filter', '-i', inp, '-o', out]
                size, mn, force = 0, None, False
                if r.random() < 0.8:
                    size = r.choice([0, 1, n // 2, n - 1, n, n + 1, max(0, n - 3), n // 3])
                    size = max(0, size)
                    args += ['-v', size]
                if r.random() < 0.9 and vocab:
                    ss = sorted(v[1] for v in vocab)
                    mn = r.choice([r.choice(ss), r.choice(ss), ss[0], ss[-1], ss[-1] + 1, ss[0] - 1, -10.0,
                                   (ss[len(ss) // 2] + ss[-1]) / 2, 1e9])
                    if mn in (float('inf'), float('-inf')):
                        mn = 0.0
                    args += ['--min-score', repr(mn)]
                if r.random() < 0.6:
                    force = r.random() < 0.5
                    args += ['--force', 'true' if force else 'false']
                rr = cli(c, args)
                t = read_tok(out) if rr == 'ok' else None
                ov = t.vocab if t else []
                f = ranks([v[1] for v in vocab], [v[1] for v in ov], [mn] if mn is not None else [])
                c.log(e='filter', chk=['P14'], r=rr, **{'in': entries(vocab, f)}, out=entries(ov, f), size=size,
                      min=[] if mn is None else [f(mn)], force=force,
                      pa=Tok(vocab, procs, sp).pa(), pb=t.pa() if t else NOWHERE)
                if not t:
                    break
                vocab = ov
        return ('filter-%d' % i, run)

    for i in range(scaled(160, 1200)):
        jobs.append(job(i, random.Random(rng.random())))
    run_cases(res, jobs)


# ------------------------------------------------------------------- P15

def pads(n):
    """Tokens that no sample contains, so that ids are large."""
    return [(b'\x02%x' % i, -40.0, True) for i in range(n)]


def merge_case(c, r, base, chk, vocab, sources, procs, sp, o, pat, scale, threads=None, margin=None, slack=None,
               defaults=False, padding=0):
    """o: merges, step, factor, maxlen"""
    inp, out, af = base + '.in', base + '.out', base + '.re'
    write_tok(inp, pads(padding) + vocab, procs, sp)
    if os.path.exists(out):
        os.remove(out)
    if 'name' in pat:
        rc = cli(c, ['regex', '-o', af, '-p', pat['name']])
    else:
        pattern_file(af, pat['ast'])
    args = ['merge', '-i', inp, '-o', out, '--allow', af] + args_of(sources)
    args += ['--num-merges', o['merges']] + ([] if o['step'] == 50 and defaults else ['--step', o['step']])
    if not (defaults and o['factor'] == 0.9):
        args += ['--scale-factor', o['factor']]
    if not (defaults and o['maxlen'] == 24):
        args += ['--max-token-length', o['maxlen']]
    rr = cli(c, args, threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    f = times(scale)
    exact = o['factor'] in (0.25, 0.5, 0.75, 1.0, 1.5)
    if t and t.vocab[:padding] == pads(padding):
        t.vocab = t.vocab[padding:]
    full = {'merges': o['merges'], 'step': o['step'], 'mul': round(o['factor'] * 100), 'maxlen': o['maxlen'],
            'margin': 0 if exact else 40, 'slack': 0 if exact else 300,
            'allow': {'ast': allow_ast(pat)} if 'name' in pat else pat}
    ev = dict(e='merge', chk=chk, r=rr, out=entries(t.vocab, f) if t else [], sources=[s.desc for s in sources], o=full,
              pa=Tok(vocab, procs, sp).pa(), pb=t.pa() if t else NOWHERE)
    ev['in'] = entries(vocab, f)
    c.log(cost=300 * (o['merges'] // o['step'] + 1), **ev)
    return t


NAMED_AST = {
    'lowercase-word': rep(chr_('az'), 1, -1),
    'any-char': chr_('\n', neg=True),
    'space-lowercase-word': cat(rep(chr_(' '), 0, 1), rep(chr_('az'), 1, -1)),
    'word': rep(chr_('AZ', 'az'), 1, -1),
}


def allow_ast(p):
    return cat(BOL, NAMED_AST[p['name']], EOL)


def whole(a):
    return cat(BOL, a, EOL)


def any_text():
    return rep(chr_('\x00\U0010ffff'), 0, -1)


def p15(res):
    rng = rng_for('P15')
    d = where('P15')
    jobs = []

    def job(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'ab ', 'aé', 'abcd', 'éà'])
            vocab = vocab_for(r, alpha, r.choice([0, 2, 5]), uniques(r, 64, 800), keep=0.3, hi=3)
            procs, sp = gen.procs(r), r.choice(SPS)
            xs = words(r, alpha, r.choice([1, 2, 4, 8]), 1, 9)
            if procs:
                # every byte the processors may make of the samples
                have = {v for v, _, _ in vocab}
                more = uniques(r, 64, 800)
                for b in sorted(all_bytes(alpha, xs)):
                    if bytes([b]) not in have:
                        vocab.append((bytes([b]), more(), False))
            base = os.path.join(d, str(i))
            if r.random() < 0.4:
                srcs = [raw_source(r, base + '.a', xs)]
                if r.random() < 0.4:
                    srcs.append(raw_source(r, base + '.b', xs[:2] + xs[:1]))
            else:
                srcs = reps_sources(r, base, counted(r, xs, r.choice([1, 3, 40])))
            pat = r.choice([ast(any_text()), ast(any_text()), ast(whole(rep(chr_('a', alpha[-1]), 1, -1))),
                            ast(chr_('a')), ast(whole(any_text())), {'name': 'lowercase-word'},
                            {'name': 'space-lowercase-word'}, ast(whole(custom(r, alpha + '\ufffd'))),
                            ast(whole(rep(chr_('\ufffd', 'a'), 1, -1)))])
            o = {'merges': r.choice([0, 1, 2, 3, 5, 8, 12]), 'step': r.choice([1, 1, 2, 3, 5, 50]),
                 'factor': r.choice([0.5, 0.75, 0.9, 0.25, 0.9] + [1.0] * (i % 9 == 0)),
                 'maxlen': r.choice([2, 3, 4, 6, 24])}
            # Scores shrink by factors of 4 per round at most.
            scale = 64 * (4 ** 5 if o['factor'] == 0.25 else 4 ** 6 if o['factor'] in (0.5, 0.75) else 64)
            if o['factor'] == 0.25:
                o['merges'] = min(o['merges'], 5)
            if o['factor'] in (0.5, 0.75):
                o['merges'] = min(o['merges'], 6)
            if i % 10 == 3:
                # scores that grow
                o['factor'], o['merges'], scale = 1.5, min(o['merges'], 3), 64 * 16
            merge_case(c, r, base, ['P15'], vocab, srcs, procs, sp, o, pat, scale, defaults=r.random() < 0.5)
        return ('merge-%d' % i, run)

    # More tokens than sixteen bits count.
    def padded(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'aé'])
            vocab = vocab_for(r, alpha, 3, uniques(r, 64, 800), keep=0.3, hi=3)
            base = os.path.join(d, 'p%d' % i)
            srcs = reps_sources(r, base, counted(r, words(r, alpha, 4, 2, 9), 40))
            o = {'merges': r.choice([2, 3, 5]), 'step': r.choice([1, 2, 50]), 'factor': 0.5, 'maxlen': r.choice([4, 24])}
            merge_case(c, r, base, ['P15'], vocab, srcs, [], r.choice(SPS), o, ast(any_text()), 64 * 4 ** 6,
                       padding=r.choice([65530, 65536, 66000, 70000]))
        return ('padded-%d' % i, run)

    # Many merges over long samples, long tokens.
    def large(i, r):
        def run(c):
            base = os.path.join(d, 'g%d' % i)
            alpha = r.choice(['abcdef', 'ab c', 'aéb'])
            vocab = vocab_for(r, alpha, 3, uniques(r, 64, 800), keep=0.3, hi=3)
            w = gen.word(r, alpha, 12, 30)
            xs = [gen.word(r, alpha, 60, 150), w * r.choice([1, 3]), gen.word(r, alpha, 20, 40) + w]
            srcs = reps_sources(r, base, counted(r, xs, r.choice([3, 40])))
            o = {'merges': r.choice([10, 20, 40]), 'step': r.choice([1, 3, 7, 50]), 'factor': r.choice([0.95, 0.9, 0.8]),
                 'maxlen': r.choice([4, 8, 24, 300])}
            merge_case(c, r, base, ['P15'], vocab, srcs, [], r.choice(SPS), o, ast(any_text()), 4096)
        return ('large-%d' % i, run)

    # Counts beyond small integers, and close to each other.
    def crowded(i, r):
        def run(c):
            base = os.path.join(d, 'c%d' % i)
            alpha = r.choice(['abc', 'aéb', 'abcd'])
            vocab = vocab_for(r, alpha, 0, uniques(r, 64, 800), keep=0.3)
            at = r.choice([65536, 70000, 100000, 131072])
            xs = list(dict.fromkeys(words(r, alpha, 4, 2, 4)))
            near = [at, at + 1, at - 1, at + 100, at // 2]
            if i % 2:
                srcs = [long_source(r, base + '.s', [(x.encode(), n) for x, n in zip(xs, near)])]
                vocab.append((b'\x01', -3.0, False))
                pat = ast(whole(rep(chr_(*alpha), 1, -1)))
            else:
                srcs = reps_sources(r, base, [(x.encode(), n) for x, n in zip(xs, near)])
                pat = ast(any_text())
            o = {'merges': r.choice([1, 2, 4]), 'step': r.choice([1, 2, 50]), 'factor': 0.5, 'maxlen': r.choice([3, 24])}
            merge_case(c, r, base, ['P15'], vocab, srcs, [], [], o, pat, 64 * 4 ** 6, threads=r.choice([1, 1, 4]))
        return ('crowded-%d' % i, run)

    # One long sample.
    def whole_file(i, r):
        def run(c):
            base = os.path.join(d, 'w%d' % i)
            alpha = r.choice(['abc', 'aéb', 'abcd'])
            vocab = vocab_for(r, alpha, 3, uniques(r, 64, 800), keep=0.3, hi=3) + [(b'\x01', -3.0, False)]
            srcs = [long_source(r, base + '.s', counted(r, words(r, alpha, 6, 1, 8), r.choice([300, 2000, 4000])))]
            if r.random() < 0.4:
                srcs += reps_sources(r, base, counted(r, words(r, alpha, 3, 1, 8), 40))
            o = {'merges': r.choice([2, 5, 8]), 'step': r.choice([1, 3, 50]), 'factor': 0.9, 'maxlen': r.choice([3, 24])}
            merge_case(c, r, base, ['P15'], vocab, srcs, [], r.choice(SPS), o, ast(whole(rep(chr_(*alpha), 1, -1))), 4096)
        return ('whole-%d' % i, run)

    for i in range(scaled(90, 700)):
        jobs.append(job(i, random.Random(rng.random())))
    for i in range(scaled(3, 40)):
        jobs.append(large(i, random.Random(rng.random())))
    for i in range(scaled(4, 40)):
        jobs.append(crowded(i, random.Random(rng.random())))
    for i in range(scaled(4, 40)):
        jobs.append(whole_file(i, random.Random(rng.random())))
    for i in range(scaled(2, 16)):
        jobs.append(padded(i, random.Random(rng.random())))
    run_cases(res, jobs)


# ------------------------------------------------------------------- P16

def prune_case(c, base, chk, vocab, sources, procs, sp, target, num, den, exact=True, threads=None, em=0, dropout=0.0,
               args_extra=(), kind=None, padding=0, multiple=1):
    inp, out = base + '.in', base + '.out'
    write_tok(inp, pads(padding) + vocab, procs, sp)
    if os.path.exists(out):
        os.remove(out)
    args = ['prune', '-i', inp, '-o', out, '-v', target + padding] + args_of(sources) + list(args_extra)
    if num is not None:
        args += ['--shrink-factor', repr(num / den)]
    if em is not None:
        args += ['--em-subiters', em]
    if dropout is not None:
        args += ['--dropout', dropout]
    rr = cli(c, args, threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    if t and padding and sorted(x for x in t.vocab if x[0][:1] == b'\x02') == sorted(pads(padding)):
        t.vocab = [x for x in t.vocab if x[0][:1] != b'\x02']
    ov = t.vocab if t else []
    f = times(16) if exact else ranks([v[1] for v in vocab], [v[1] for v in ov])
    ev = dict(e=kind or ('prune' if exact else 'pruneem'), chk=chk, r=rr, out=entries(ov, f),
              sources=[s.desc for s in sources],
              o={'target': target, 'num': 4 if num is None else num, 'den': 5 if num is None else den}, pa=Tok(vocab, procs, sp).pa(),
              pb=t.pa() if t else NOWHERE)
    ev['in'] = entries(vocab, f)
    if ev['e'] == 'prune':
        ev['times'] = multiple
    c.log(cost=len(vocab) * 100, **ev)
    return t


def prune_words(r, vocab, alpha, n):
    """Samples in which most of the vocabulary is used."""
    out = words(r, alpha, n, 1, 7)
    multi = [v for v, _, _ in vocab if len(v) > 1]
    for _ in range(n * 2):
        x = b''.join(r.choice(multi) for _ in range(r.randint(1, 2))) if multi else b'a'
        try:
            out.append(x.decode())
        except UnicodeDecodeError:
            pass
    return out


def once(c, base, vocab, procs, sp, sources, target, em, num=1, den=1, threads=None):
    """One run of prune without dropout."""
    inp, out = base + '.in', base + '.out'
    write_tok(inp, vocab, procs, sp)
    if os.path.exists(out):
        os.remove(out)
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', target, '--dropout', 0, '--em-subiters', em, '--shrink-factor', repr(num / den)]
             + args_of(sources), threads=threads)
    return rr, (read_tok(out) if rr == 'ok' else None)


def anchored(vocab):
    """NEVER occurs nowhere and is kept, DUMMY occurs nowhere and is not."""
    return [t for t in vocab if t[0] != DUMMY] + [(DUMMY, -3.5, False)]


GRID = 1 << 16


def rounds_case(c, base, chk, vocab, sources, sp, target, num, den, em, threads):
    """Rounds one by one, each with the scores it judged by, and all at once."""
    cur, stages, ok = vocab, [], True
    while len(cur) > target and ok:
        rr, t = once(c, base + '.e', anchored([(v, s, True) for v, s, _ in cur]), (), sp, sources, len(cur), em, threads=threads)
        keep = {v: k for v, _, k in cur}
        if rr != 'ok' or {v for v, _, _ in t.vocab} != set(keep):
            ok = False
            break
        est = {v: s for v, s, _ in t.vocab}
        if any(not k and est[v] <= est[NEVER] + 1e-6 for v, k in keep.items()):
            return None         # some would be dropped by their expected count
        goal = max(target, len(cur) * num // den)
        rr, t = once(c, base + '.r', cur, (), sp, sources, goal, em, num, den, threads)
        if rr != 'ok':
            ok = False
            break
        if len(t.vocab) > goal:
            return None         # more rounds in that run
        f = times(GRID)
        stages.append({'in': entries([(v, est[v], k) for v, _, k in cur], f), 'out': entries(t.vocab, f),
                       'o': {'target': goal, 'num': num, 'den': den, 'slack': 40}})
        cur = t.vocab
    if not stages and ok:
        return None
    rr, t = once(c, base, vocab, (), sp, sources, target, em, num, den, threads)
    c.log(cost=len(vocab) * 300 * max(1, len(stages)), e='rounds', chk=chk, r=rr if ok else 'bad', stages=stages, out=entries(t.vocab, times(GRID)) if t else [],
          sources=[x.desc for x in sources], pa=Tok(vocab, (), sp).pa(), pb=t.pa() if t else NOWHERE)


def steps_case(c, base, chk, vocab, sources, sp, n, threads):
    """n steps in one run against n runs of one step."""
    r1, one = once(c, base, anchored(vocab), (), sp, sources, len(vocab), n, threads=threads)
    r2, many, cur = 'ok', None, vocab
    for i in range(n):
        r2, many = once(c, '%s.%d' % (base, i), anchored(cur), (), sp, sources, len(cur), 1, threads=threads)
        if r2 != 'ok':
            break
        cur = many.vocab
    f = times(10 ** 5)
    c.log(cost=300, e='steps', chk=chk, r1=r1, r2=r2, one=entries(one.vocab, f) if one else [], many=entries(many.vocab, f) if many else [],
          sources=[x.desc for x in sources], pa=one.pa() if one else NOWHERE, pb=many.pa() if many else NOWHERE)


def p16(res):
    rng = rng_for('P16')
    d = where('P16')
    jobs = []

    def job(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'abc', 'aé', 'abcd'])
            n = r.choice([3, 6, 10, 14])
            # Longer entries score better than their parts, mostly.
            seen = set()

            def vocab_():
                out = {}
                for b in sorted(set(alpha.encode())):
                    out[bytes([b])] = r.random() < r.choice([0.5, 1.0, 1.0])
                for _ in range(n):
                    w = gen.word(r, alpha, 2, 5).encode()
                    if r.random() < 0.1:
                        w = w[:-1]
                    out.setdefault(w, r.random() < 0.2)
                items = []
                for v, k in out.items():
                    while True:
                        s = -r.randint(1, 60 * 16) / 16 - (len(v) * 8 if r.random() < 0.8 else 0)
                        if len(v) == 1:
                            s -= 30
                        if s not in seen:
                            seen.add(s)
                            break
                    items.append((v, s, k))
                r.shuffle(items)
                return items
            vocab = vocab_()
            procs, sp = r.choice([[], [], ['crlf'], ['nfc']]), r.choice(SPS)
            xs = prune_words(r, vocab, alpha, r.choice([2, 4, 7]))
            base = os.path.join(d, str(i))
            xs, many = counted(r, xs, r.choice([1, 4, 20])), 1
            if i % 40 == 5:
                # used so often that the count takes more than two bytes
                many = 66000 // min(10, max(n for _, n in xs)) + r.randint(0, 999)
                srcs = reps_sources(r, base, [(x, n * many) for x, n in xs], 1)
            else:
                srcs = reps_sources(r, base, xs)
            size = len(vocab)
            target = max(0, r.choice([0, 1, size // 2, size - 1, size, size + 2, size - 3, size - 2, size * 2 // 3]))
            num, den = r.choice([(1, 2), (3, 4), (7, 8), (1, 4), (15, 16), (1, 1), (0, 1)])
            if many > 1 or r.random() < 0.8:
                # without re-estimation nothing is left to chance, whatever the rate
                # among many tokens that have nothing to do with it, at times
                pad = 0
                if i % 4 == 3 and r.random() < 0.9:
                    pad, num, den = r.choice([60, 300, 1000, 5000] if i % 16 != 3 else [65536, 70000]), 0, 1
                prune_case(c, base, ['P16'], vocab, srcs, procs, sp, target, num, den, dropout=r.choice([0.0, 0.0, None, 0.3, 1.0]), padding=pad, multiple=many)
            else:
                # the command's own choices of everything else
                allkeep = [(v, s, k or len(v) == 1) for v, s, k in vocab]
                em, drop, sf = r.choice([(None, None, None), (2, 0.0, (1, 2)), (1, 0.5, (3, 4)), (3, 0.1, None),
                                         (1, 1.0, None)])
                if target == 0 and r.random() < 0.5:
                    target = len(set(alpha.encode()))
                prune_case(c, base, ['P16'], allkeep, srcs, procs, sp, target, *(sf or (None, None)), exact=False, em=em,
                           dropout=drop)
        return ('prune-%d' % i, run)

    def rounds(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'aé', 'abcd'])
            base = os.path.join(d, 'r%d' % i)
            vocab = [(bytes([b]), -r.uniform(6, 9), True) for b in sorted(set(alpha.encode()))]
            for _ in range(r.choice([3, 6, 10, 14])):
                w = gen.word(r, alpha, 2, 5).encode()
                if w not in [v for v, _, _ in vocab]:
                    vocab.append((w, -r.uniform(1, 8), r.random() < 0.15))
            vocab.append((NEVER, -r.uniform(1, 9), True))
            r.shuffle(vocab)
            xs = prune_words(r, [t for t in vocab if t[0] != NEVER], alpha, r.choice([2, 4, 6]))
            srcs = reps_sources(r, base, counted(r, xs, r.choice([5, 20])))
            size, least = len(vocab), sum(k for _, _, k in vocab)
            num, den = r.choice([(1, 2), (3, 4), (7, 8), (15, 16), (0, 1)])
            rounds_case(c, base, ['P16'], vocab, srcs, r.choice(SPS), r.choice([least, size - 1, (size + least) // 2, size - 2]),
                        num, den, r.choice([1, 1, 2]), r.choice([None, 1, 4, 16]))
        return ('rounds-%d' % i, run)

    # Long tokens, and long ways to spell them otherwise; long samples.
    def long(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'aé'])
            base = os.path.join(d, 'l%d' % i)
            sc = uniques(r, 16, 600)
            vocab = [(bytes([b]), sc() - 40, r.random() < 0.8) for b in sorted(set(alpha.encode()))]
            vocab += [(w, sc() - 30, r.random() < 0.2) for w in {gen.word(r, alpha, 2, 4).encode() for _ in range(r.randint(0, 5))}]
            most = []
            for _ in range(r.randint(2, 5)):
                w = gen.word(r, alpha, *r.choice([(8, 16), (15, 20), (20, 40), (60, 70)])).encode()
                if w not in most:
                    most.append(w)
                    vocab.append((w, sc() - len(w) * r.choice([1, 20]), r.random() < 0.1))
            r.shuffle(vocab)
            xs = [w for w in most if r.random() < 0.9] + [r.choice(most) + gen.word(r, alpha, 1, 6).encode() for _ in range(3)] + \
                [x.encode() for x in words(r, alpha, 2, 1, 7)]
            if i % 3 == 0:
                vocab.append((b'\x01', -33.0, True))
                srcs = [long_source(r, base + '.s', counted(r, xs, 20))]
            else:
                srcs = reps_sources(r, base, counted(r, xs, 9))
            prune_case(c, base, ['P16'], vocab, srcs, [], r.choice(SPS), r.choice([0, len(vocab) - 1, len(vocab) - 2, len(vocab) // 2]),
                       *r.choice([(1, 2), (3, 4), (15, 16)]))
        return ('long-%d' % i, run)

    for i in range(scaled(24, 200)):
        jobs.append(long(i, random.Random(rng.random())))
    for i in range(scaled(100, 700)):
        jobs.append(job(i, random.Random(rng.random())))
    for i in range(scaled(16, 300)):
        jobs.append(rounds(i, random.Random(rng.random())))
    run_cases(res, jobs)


# ------------------------------------------------------------------- P17

def digamma(x):
    r = 0.0
    while x < 30:
        r -= 1 / x
        x += 1
    y = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - y * (1 / 12 - y * (1 / 120 - y * (1 / 252 - y * (1 / 240 - y / 132))))


def inverse_digamma(y):
    lo, hi = 1e-6, 1e12
    for _ in range(200):
        mid = math.sqrt(lo * hi)
        if digamma(mid) < y:
            lo = mid
        else:
            hi = mid
    return math.sqrt(lo * hi)


def em_unit(vocab, weights, sources):
    """How finely expected counts can be compared within 32-bit integers."""
    worst, total = 1, len(vocab)
    if any('reps' not in src.desc for src in sources):
        return 1000
    for src in sources:
        for x, n in src.desc.get('reps', []):
            worst = max(worst, weight_of(vocab, weights, bytes(x)))
            total += n * len(x)
    return max([1000] + [u for u in (10 ** 4, 10 ** 5, 10 ** 6) if max(worst, total) * u < 2 ** 30])


def em_case(c, base, chk, vocab, weights, sources, sp, denom, threads=None, subiters=1, procs=(), modelw=None):
    """vocab: [(bytes, keep)], the last of which never occurs and is kept;
    one entry is appended that is sure to be dropped."""
    full = [(v, math.log(w) - len(v) * math.log(denom), k) for (v, k), w in zip(vocab, weights)]
    inp, out = base + '.in', base + '.out'
    write_tok(inp, full, procs, sp)
    if os.path.exists(out):
        os.remove(out)
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', len(full) - 1, '--dropout', 0, '--em-subiters', subiters]
             + args_of(sources), threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    f, fsum = [-2] * len(full), 0
    unit = em_unit(vocab, modelw or weights, sources)
    if t:
        got = {v: s for v, s, _ in t.vocab}
        anchor = [v for v, k in vocab if v == NEVER][0]
        if anchor in got and all(isinstance(s, float) or isinstance(s, int) for s in got.values()):
            total = digamma(0.5) - got[anchor]
            fsum = min(2 * 10 ** 9, round(unit * inverse_digamma(total)))
            for i, (v, k) in enumerate(vocab):
                f[i] = min(2 * 10 ** 9, round(unit * inverse_digamma(got[v] + total))) if v in got else -1
        if len(got) != len(t.vocab) or any(v not in {x for x, _ in vocab} for v in got) or \
                any(k != dict(vocab)[v] for v, _, k in t.vocab):
            rr = 'bad'
    ev = dict(e='em', chk=chk, r=rr, w=list(modelw or weights), f=f, fsum=fsum, unit=unit, sources=[s.desc for s in sources],
              pa=Tok(full, procs, sp).pa(), pb=t.pa() if t else NOWHERE)
    ev['in'] = [{'v': list(v), 's': 0, 'k': k} for v, k in vocab]
    c.log(cost=400, **ev)
    return t


NEVER, DUMMY = b'\xfe\xff', b'\xff\xff'


def rises_case(c, base, r, threads):
    """Tokens of one byte each, whose counts are known: their scores to the
    last digits."""
    while True:
        n = r.choice([1, 2, 3, 5, 9])
        bs = r.sample(range(33, 127), n)
        counts, f = [], r.choice([1, 1, 1, 2, 5, 30, 500])
        for _ in bs:
            counts.append(f)
            f += r.choice([0, 1, 1, 2, 3, r.randint(1, 9)])
        counts[-1] += r.choice([0, 1, 40])
        ends = counts + [sum(counts)]
        if all(sum(1 / k for k in range(a, b)) < 1.9 for a, b in zip(ends, ends[1:])):
            break
    text = [b for b, k in zip(bs, counts) for _ in range(k)]
    r.shuffle(text)
    samples = {}
    while text:
        k = r.choice([1, 2, 5, 20])
        x, text = bytes(text[:k]), text[k:]
        samples[x] = samples.get(x, 0) + 1
    sources = reps_sources(r, base, list(samples.items()))
    tok = [(bytes([b]), -r.uniform(1, 9), True) for b in bs] + [(DUMMY, -2.0, False)]
    r.shuffle(tok)
    inp, out = base + '.in', base + '.out'
    write_tok(inp, tok, (), [])
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', len(tok) - 1, '--dropout', r.choice([0, 0.5]), '--em-subiters', 1] + args_of(sources),
             threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    got = {v: s for v, s, _ in t.vocab} if t else {}
    at = [got.get(bytes([b]), math.inf) for b in bs] + [0.0]
    if not all(isinstance(x, (int, float)) and math.isfinite(x) for x in at) or len(got) != n:
        rr, at = 'bad', [0.0] * (n + 1)
    c.log(cost=50 + sum(counts), e='rises', chk=['P17'], r=rr, order=[[b] for b in bs] + [[]], sources=[s.desc for s in sources],
          d=[max(-2 * 10 ** 9, min(2 * 10 ** 9, round((y - x) * 1e9))) for x, y in zip(at, at[1:])],
          pa=Tok(tok, (), []).pa(), pb=t.pa() if t else NOWHERE)


def em_vocab(r, alpha, n):
    vocab, weights = {}, []
    for b in sorted(set(alpha.encode())):
        vocab[bytes([b])] = r.random() < 0.6
    for _ in range(n):
        w = gen.word(r, alpha, 2, 4).encode()
        vocab.setdefault(w, r.random() < 0.5)
    items = list(vocab.items())
    r.shuffle(items)
    items.insert(r.randint(0, len(items)), (NEVER, True))
    items.insert(r.randint(0, len(items)), (DUMMY, False))
    return items


def weight_of(vocab, w, x):
    """Total weight of the segmentations of x."""
    tab = dict(zip([v for v, _ in vocab], w))
    n = len(x)
    z = [0] * n + [1]
    for i in range(n - 1, -1, -1):
        z[i] = sum(tab[x[i:j]] * z[j] for j in range(i + 1, min(n, i + 6) + 1) if x[i:j] in tab)
    return z[0]


def em_samples(r, vocab, weights, alpha, n, limit, hi):
    out = {}
    for _ in range(n * 3):
        x = gen.word(r, alpha, 1, 12).encode()
        k = r.randint(1, hi)
        if 0 < weight_of(vocab, weights, x) and weight_of(vocab, weights, x) * k * (len(x) + 1) < limit:
            out[x] = k
        if len(out) >= n:
            break
    return list(out.items())


def p17(res):
    rng = rng_for('P17')
    d = where('P17')
    jobs = []

    def job(i, r):
        def run(c):
            base = os.path.join(d, str(i))
            kind = r.random()
            threads = r.choice([None, 1, 2, 3, 8, 16])
            alpha = r.choice(['ab', 'abc', 'aé', 'abcd'])
            if kind < 0.6:
                vocab = em_vocab(r, alpha, r.choice([2, 4, 7, 12]))
                w = [r.randint(1, r.choice([1, 2, 3])) for _ in vocab]
                samples = em_samples(r, vocab, w, alpha, r.choice([1, 3, 8, 15]), 2000000, r.choice([1, 5, 60, 400]))
                em_case(c, base, ['P17'], vocab, w, reps_sources(r, base, samples), r.choice(SPS),
                        r.choice([1, 4, 50]), threads)
            elif kind < 0.9 and i % 2:
                # few short samples: counts between the threshold and ten
                vocab = em_vocab(r, alpha, r.choice([2, 4, 7]))
                w = [r.randint(1, r.choice([1, 2, 3])) for _ in vocab]
                samples = em_samples(r, vocab, w, alpha, r.choice([1, 2, 4]), 1000, r.choice([1, 2, 5]))
                em_case(c, base, ['P17'], vocab, w, reps_sources(r, base, samples), r.choice(SPS),
                        r.choice([1, 4, 50]), threads)
            elif kind < 0.9:
                # only one way to segment: the same whatever the number of steps
                vocab = [(bytes([b]), r.random() < 0.5) for b in sorted(set(alpha.encode()))]
                vocab += [(NEVER, True), (DUMMY, False)]
                w = [r.randint(1, 5) for _ in vocab]
                samples = em_samples(r, vocab, [1] * len(vocab), alpha, 8, 2000000, r.choice([5, 300]))
                em_case(c, base, ['P17'], vocab, w, reps_sources(r, base, samples), r.choice(SPS), 7, threads,
                        subiters=r.choice([1, 2, 3]), modelw=[1] * len(vocab))
            else:
                # very long samples, given to the command as repetitions of one word
                unit = r.choice([b'ab', b'a', b'abbab'])
                n = r.choice([81919, 81920, 81921, 100003, 163841, 81920 * 2])
                vocab = [(bytes([b]), r.random() < 0.5) for b in b'ab'] + [(NEVER, True), (DUMMY, False)]
                w = [2, 3, 1, 1]
                x = (unit * (n // len(unit) + 1))[:n]
                src = Source(base + '.s', raw=x)
                # the same counts, as single characters
                src.desc = {'reps': [[[ch], x.count(bytes([ch]))] for ch in sorted(set(x))]}
                em_case(c, base, ['P17'], vocab, w, [src], [], 5, threads, modelw=[1] * 4)
        return ('em-%d' % i, run)

    def steps(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'aé', 'abcd'])
            base = os.path.join(d, 's%d' % i)
            vocab = [(bytes([b]), -r.uniform(1, 9), r.random() < 0.6) for b in sorted(set(alpha.encode()))]
            for _ in range(r.choice([1, 3, 6, 10])):
                w = gen.word(r, alpha, 2, 5).encode()
                if w not in [v for v, _, _ in vocab]:
                    vocab.append((w, -r.uniform(1, 12), True))
            r.shuffle(vocab)
            xs = words(r, alpha, r.choice([1, 3, 8]), 1, r.choice([8, 30]))
            steps_case(c, base, ['P17'], vocab, reps_sources(r, base, counted(r, xs, r.choice([1, 3, 40]))), r.choice(SPS),
                       r.choice([2, 2, 3, 4]), r.choice([None, 1, 4, 16]))
        return ('steps-%d' % i, run)

    for i in range(scaled(80, 600)):
        jobs.append(job(i, random.Random(rng.random())))
    for i in range(scaled(30, 200)):
        jobs.append(steps(i, random.Random(rng.random())))
    for i in range(scaled(40, 300)):
        jobs.append(('rises-%d' % i, lambda c, i=i, r=random.Random(rng.random()):
                     rises_case(c, os.path.join(d, 'r%d' % i), r, r.choice([None, 1, 3, 8]))))
    run_cases(res, jobs)


# ----------------------------------------------------------------------- P26

ANCHOR = '\u2021\u2021'


def insertion_case(c, base, kind, sources, o, num, den, procs, sp, threads):
    """All that came out, with how often it was counted.  The anchor is an
    added token that occurs nowhere: counted once."""
    out = base + '.out'
    o = dict(o, added=o['added'] + [ANCHOR], size=256 + 20000)
    args = ['generate', '-v', o['size'], '-o', out, '--insert-probability', num / den, '--max-token-length', o['maxlen']]
    for x in procs:
        args += ['--processor', x]
    for x in sp:
        args += ['--special', x]
    for k in ('added', 'suggested'):
        if o[k]:
            with open('%s.%s' % (base, k), 'w') as f:
                json.dump(o[k], f)
            args += ['--' + k, '%s.%s' % (base, k)]
    for k in ('allow', 'split'):
        if o[k]:
            args += ['--' + k, pattern_file('%s.%s' % (base, k), o[k])]
    rr = cli(c, args + args_of(sources), threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    f = []
    if t:
        at = {v: s for v, s, _ in t.vocab}.get(ANCHOR.encode())
        for v, s, _ in t.vocab:
            if len(v) > 1:
                x = len(ANCHOR.encode()) * math.exp(min(40, s - at)) / len(v) if at is not None else -1
                f.append([list(v), round(x) if abs(x - round(x)) < 1e-4 * max(1, x) and x < 1e8 else ODD])
    c.log(cost=300, e=kind, chk=['P26'], r=rr if t else 'crash', f=f, num=num, den=den, sources=[s.desc for s in sources],
          o={'size': o['size'], 'maxlen': o['maxlen'], 'allow': [ast(o['allow'])] if o['allow'] else [],
             'split': [ast(o['split'])] if o['split'] else [], 'added': [B(x) for x in o['added']],
             'suggested': [B(x) for x in o['suggested']]},
          pa=Tok([], procs, sp).pa(), pb=t.pa() if t else NOWHERE)


def dropout_case(c, base, vocab, weights, x, n, num, den, sp, denom, threads, rng):
    """One step of estimation on n times the sample x, all entries kept."""
    full = [(v, math.log(w) - len(v) * math.log(denom), k) for (v, k), w in zip(vocab, weights)]
    inp, out = base + '.in', base + '.out'
    write_tok(inp, full, (), sp)
    sources = reps_sources(rng, base, [(x, n)], files=1)
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', len(full) - 1, '--dropout', num / den, '--em-subiters', 1] + args_of(sources),
             threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    unit, f = 1000, [ODD] * len(vocab)
    if t:
        got = {v: s for v, s, _ in t.vocab}
        if NEVER in got and len(got) == len(t.vocab) == len(vocab) - 1 and DUMMY not in got:
            total = digamma(0.5) - got[NEVER]
            f = [min(2 * 10 ** 9, round(unit * inverse_digamma(got[v] + total))) if v in got else 500 for v, k in vocab]
        else:
            rr = 'bad'
    ev = dict(e='dropout', chk=['P26'], r=rr if t else 'crash', w=list(weights), f=f, unit=unit, num=num, den=den,
              sources=[s.desc for s in sources], pa=Tok(full, (), sp).pa(), pb=t.pa() if t else NOWHERE)
    ev['in'] = [{'v': list(v), 's': 0, 'k': k} for v, k in vocab]
    c.log(cost=2000, **ev)


def dropcrowd_case(c, base, vocab, w, x, n, num, den, sp, denom, threads, rng):
    """Like dropout_case, on n samples made like x from bytes of their own."""
    letters = sorted(set(x))
    pool = [b for b in range(33, 127)]
    full = {bytes([b]): w[vocab.index(bytes([letters[0]]))] for b in pool}
    taken, texts, maps = set(), [], []
    multi = [v for v in vocab if len(v) > 1]
    parts = {x[a:b] for a in range(len(x)) for b in range(a + 2, len(x) + 1)}
    for _ in range(20 * n):
        if len(texts) == n:
            break
        m = dict(zip(letters, rng.sample(pool, len(letters))))
        of = lambda v: bytes(m[b] for b in v)
        mine = {of(p) for p in parts}
        if mine & taken:
            continue
        taken |= mine
        texts.append(of(x))
        maps.append([of(v) for v in multi])
        for v in multi:
            full[of(v)] = w[vocab.index(v)]
    items = list(full.items())
    rng.shuffle(items)
    tok = [(v, math.log(k) - len(v) * math.log(denom), True) for v, k in items]
    tok.insert(rng.randrange(len(tok)), (NEVER, -2.0, True))
    tok.insert(rng.randrange(len(tok)), (DUMMY, -2.0, False))
    inp, out = base + '.in', base + '.out'
    write_tok(inp, tok, (), sp)
    sources = reps_sources(rng, base, [(y, 1) for y in texts])
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', len(tok) - 1, '--dropout', num / den, '--em-subiters', 1] + args_of(sources),
             threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    unit, fs = 1000, []
    if t:
        got = {v: s for v, s, _ in t.vocab}
        if NEVER in got and len(got) == len(t.vocab) == len(tok) - 1 and DUMMY not in got:
            total = digamma(0.5) - got[NEVER]
            fs = [[min(2 * 10 ** 9, round(unit * inverse_digamma(got[v] + total))) if v in got else ODD for v in vs] for vs in maps]
        else:
            rr = 'bad'
    ev = dict(e='dropcrowd', chk=['P26'], r=rr if t else 'crash', w=list(w), x=list(x), fs=fs, unit=unit, num=num, den=den,
              pa=Tok(tok, (), sp).pa(), pb=t.pa() if t else NOWHERE)
    ev['in'] = [{'v': list(v), 's': 0, 'k': True} for v in vocab]
    c.log(cost=2000, **ev)


def dropsteps_case(c, base, n, rest, num, den, steps, shrink, sp, threads, rng):
    """Several steps, and rounds: tokens with samples of their own, of which
    those in `rest` may be removed.  One letter weighs all others down."""
    pool = list(range(33, 127))
    rng.shuffle(pool)
    take = lambda k: bytes(pool.pop() for _ in range(k))
    kept = [take(rng.choice([2, 2, 3, 4])) for _ in range(rng.choice([1, 2, 4]))]
    free = [take(2) for _ in rest]
    ballast = take(1)
    items = [(bytes([b]), -14.0, True) for v in kept + free + [ballast] for b in v]
    items += [(v, -8.0, True) for v in kept] + [(v, -8.0, False) for v in free]
    rng.shuffle(items)
    items += [(NEVER, -2.0, True), (DUMMY, -2.0, False)]
    samples = [(v, n) for v in kept] + list(zip(free, rest)) + [(ballast * 2000, n // 5)]
    inp, out = base + '.in', base + '.out'
    write_tok(inp, items, (), sp)
    sources = reps_sources(rng, base, samples, files=rng.choice([1, 2]))
    target = len(items) - 1 - (rng.randint(1, len(free)) if free else 0)
    rr = cli(c, ['prune', '-i', inp, '-o', out, '-v', target, '--dropout', num / den, '--em-subiters', steps,
                 '--shrink-factor', shrink] + args_of(sources), threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    unit, f = 100, []
    if t:
        got = {v: s for v, s, _ in t.vocab}
        if NEVER in got and len(got) == len(t.vocab) == target and DUMMY not in got:
            total = digamma(0.5) - got[NEVER]
            f = [min(2 * 10 ** 9, round(unit * inverse_digamma(got[v] + total))) if v in got else -1 for v, _, _ in items]
        else:
            rr = 'bad'
    ev = dict(e='dropsteps', chk=['P26'], r=rr if t else 'crash', f=f, unit=unit, num=num, den=den,
              sources=[s.desc for s in sources], pa=Tok(items, (), sp).pa(), pb=t.pa() if t else NOWHERE)
    ev['in'] = [{'v': list(v), 's': 0, 'k': k} for v, _, k in items]
    c.log(cost=500, **ev)


TEMPLATES = [(b'abab', [b'ab']), (b'abc', [b'ab', b'abc']), (b'abc', [b'ab', b'bc']), (b'ababab', [b'ab']), (b'abcd', [b'ab', b'cd', b'abcd']),
             (b'aab', [b'aa', b'aab']), (b'abcab', [b'ab', b'ca']), (b'abcabc', [b'abc', b'ca']), (b'aaa', [b'aa']), (b'aaaa', [b'aa', b'aaa']),
             (b'abab', [b'ab', b'abab']), (b'abcde', [b'bcd', b'de']), (b'ab', [b'ab'])]


def p26(res):
    rng = rng_for('P26')
    d = where('P26')
    jobs = []

    def insertion(i, r):
        def run(c):
            base = os.path.join(d, 'i%d' % i)
            alpha = r.choice(['ab', 'abc', 'aé', 'a漢b', 'ab\n'])
            samples = {}
            for _ in range(r.choice([1, 2, 4])):
                x = gen.word(r, alpha, 2, 6)
                if r.random() < 0.4:
                    x = r.choice(['', '', '.']).join([gen.word(r, alpha, 2, 3)] * r.choice([2, 3, 4]))
                samples[x.encode()] = r.choice([200, 400, 900, 2000])
            o = {'maxlen': r.choice([2, 3, 4, 6, 24]), 'added': [], 'suggested': [],
                 'allow': None if r.random() < 0.6 else whole(rep(chr_(*sorted(set(alpha.replace('\n', '')))), 2, 2)),
                 'split': None if r.random() < 0.6 else r.choice([rep(chr_(*sorted(set(alpha.replace('\n', '')))), 2, 3), rep(chr_(alpha[0]), 1, -1),
                                                                  cat(rep(chr_(alpha[0]), 0, 1), chr_(alpha[1]))])}
            for k in ('added', 'suggested'):
                for _ in range(r.choice([0, 0, 1, 2])):
                    w = gen.word(r, alpha, 2, 4)
                    if r.random() < 0.6:
                        x = r.choice(list(samples)).decode()
                        a = r.randrange(len(x) - 1)
                        w = x[a:a + r.choice([2, 2, 3])]
                    if w not in o['added']:
                        o[k].append(w)
            num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 2), (0, 4), (4, 4), (1, 8), (2, 3), (0, 0), (0, 0)])
            if den == 0:
                # rates between the hundredths, and samples enough to tell
                samples = {gen.word(r, alpha, 2, 4).encode(): 40000}
                num, den = r.choice([1, 2, 5, 15, 375, 985, 995, 998, 999]), 1000
            insertion_case(c, base, 'insertion', reps_sources(r, base, list(samples.items())), o, num, den, [], r.choice(SPS),
                           r.choice([None, 1, 2, 8]))
        return ('insertion-%d' % i, run)

    def crowd(i, r):
        def run(c):
            base = os.path.join(d, 'c%d' % i)
            chars = [chr(x) for x in r.sample(range(0x4e00, 0x9000), r.choice([150, 300]) if i % 4 else 800)]
            cut = r.choice([1, 1, 2, 10, 50])
            xs = [(''.join(chars[k::cut]).encode(), 1) for k in range(cut)]
            o = {'maxlen': r.choice([3, 6, 6, 9, 12, 18]), 'added': [], 'suggested': [], 'allow': None,
                 'split': None if r.random() < 0.6 else rep(chr_('\u4e00\u9fff'), 1, r.choice([2, 3, 4]))}
            num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 8)])
            insertion_case(c, base, 'crowd', reps_sources(r, base, xs), o, num, den, [], [], r.choice([None, 1, 4]))
        return ('crowd-%d' % i, run)

    def drops(i, r):
        def run(c):
            base = os.path.join(d, 'd%d' % i)
            alpha = r.choice(['ab', 'aé', 'abc'])
            while True:
                x = gen.word(r, alpha, 2, 5).encode()
                vocab = {bytes([b]): True for b in sorted(set(x))}
                for _ in range(r.choice([1, 2, 3])):
                    a = r.randrange(len(x) - 1)
                    vocab[x[a:r.randint(a + 2, len(x))]] = True
                multi = [v for v in vocab if len(v) > 1]
                places = sum(x[k:].startswith(v) for v in multi for k in range(len(x)))
                items = list(vocab.items())
                r.shuffle(items)
                items += [(NEVER, True), (DUMMY, False)]
                w = [r.randint(1, 3) for _ in items]
                if places <= 4 and weight_of(items, w, x) * len(x) < 1500000:
                    break
            num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 2), (0, 4), (4, 4), (1, 8)])
            n = r.choice([1, 50, 500, 2000]) if num in (0, den) else r.choice([300, 1000, 3000])
            if places == 1 and r.random() < 0.7:
                num, den, n = r.choice([5, 15, 375, 985, 995]), 1000, 40000
                w = [40 if len(v) > 1 else 1 for v, _ in items]
            dropout_case(c, base, items, w, x, n,
                         num, den, r.choice(SPS), r.choice([1, 4]), r.choice([None, 1, 2, 8]), r)
        return ('dropout-%d' % i, run)

    def dropcrowd(i, r):
        def run(c):
            x, multi = TEMPLATES[i % len(TEMPLATES)]
            vocab = [bytes([b]) for b in sorted(set(x))] + multi
            one = r.choice([1, 2])
            w = [one] * (len(vocab) - len(multi)) + [r.choice([3, 7, 12]) * one ** len(v) for v in multi]
            num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 2), (0, 4), (4, 4), (1, 8)])
            dropcrowd_case(c, os.path.join(d, 'k%d' % i), vocab, w, x, r.choice([60, 120, 200]), num, den, r.choice(SPS), r.choice([1, 40]),
                           r.choice([None, 1, 2, 8]), r)
        return ('dropcrowd-%d' % i, run)

    def dropsteps(i, r):
        def run(c):
            num, den = r.choice([(1, 2), (1, 4), (3, 4), (1, 10), (0, 4), (4, 4)])
            # tokens that are never counted would go at once
            rest = [r.randint(60, 120) for _ in range(0 if num == den else r.choice([0, 0, 3, 6]))]
            dropsteps_case(c, os.path.join(d, 'p%d' % i), r.choice([400, 600, 800]), rest, num, den, r.choice([1, 2, 3, 4]),
                           r.choice([0.5, 0.9, 0.95]), r.choice(SPS), r.choice([None, 1, 2, 8]), r)
        return ('dropsteps-%d' % i, run)

    import mc
    mc.model(res, 'MC_Chance', 'insert')
    mc.model(res, 'MC_Chance', 'drop')
    for i in range(scaled(60, 400)):
        jobs.append(insertion(i, random.Random(rng.random())))
    for i in range(scaled(16, 80)):
        jobs.append(crowd(i, random.Random(rng.random())))
    for i in range(scaled(50, 400)):
        jobs.append(drops(i, random.Random(rng.random())))
    for i in range(scaled(10, 60)):
        jobs.append(dropcrowd(i, random.Random(rng.random())))
    for i in range(scaled(6, 40)):
        jobs.append(dropsteps(i, random.Random(rng.random())))
    run_cases(res, jobs)


# ------------------------------------------------------------------- P18, P19

def fraction(x, limit, cap):
    if not (isinstance(x, float) and 0 < x < 1e6):
        return [-1, 1]
    f = Fraction(x).limit_denominator(limit)
    return [f.numerator, f.denominator] if f.numerator <= cap else [-1, 1]


def generate_case(c, base, chk, sources, size, o, procs=(), sp=(), p=1.0, threads=None, nodefault=True):
    """o: maxlen, allow, split (patterns or None), added, suggested"""
    out = base + '.out'
    if os.path.exists(out):
        os.remove(out)
    args = ['generate', '-v', size, '-o', out] + args_of(sources)
    for x in procs:
        args += ['--processor', x]
    for x in sp:
        args += ['--special', x]
    for k in ('added', 'suggested'):
        parts = o[k]
        if parts:
            cut = len(parts) // 2 if len(parts) > 2 else len(parts)
            for j, part in enumerate([parts[:cut], parts[cut:]]):
                if part:
                    with open('%s.%s%d' % (base, k, j), 'w') as f:
                        json.dump(part, f, ensure_ascii=len(part) % 2 == 0)
                    args += ['--' + k, '%s.%s%d' % (base, k, j)]
    for k in ('allow', 'split'):
        if o[k]:
            args += ['--' + k, pattern_file('%s.%s' % (base, k), o[k], o.get('written', {}).get(k))]
    if nodefault or p != 0.1:
        args += ['--insert-probability', p]
    if nodefault or o['maxlen'] != 24:
        args += ['--max-token-length', o['maxlen']]
    rr = cli(c, args, threads=threads)
    t = read_tok(out) if rr == 'ok' else None
    ov = t.vocab if t else []
    ratio, byteprob = [], [-1, 1]
    if t:
        if not all(isinstance(s, (int, float)) for _, s, _ in ov):
            rr = 'bad'
        elif p >= 1:
            bs = [s for v, s, _ in ov if len(v) == 1]
            b = bs[0] if bs else 0.0
            ratio = [fraction(math.exp(min(50, s - b)), 5000, 400000) for _, s, _ in ov]
            byteprob = fraction(math.exp(min(50, b)), 2000000, 1000)
    f = ranks([s for _, s, _ in ov])
    c.log(cost=200, e='generate', giveup='written' in o, chk=chk, r=rr, out=entries(ov, f), exact=p >= 1, ratio=ratio, byteprob=byteprob,
          sources=[s.desc for s in sources],
          o={'size': size, 'maxlen': o['maxlen'], 'allow': [ast(o['allow'])] if o['allow'] else [],
             'split': [ast(o['split'])] if o['split'] else [], 'added': [B(x) for x in o['added']],
             'suggested': [B(x) for x in o['suggested']]},
          pa=Tok([], procs, sp).pa(), pb=t.pa() if t else NOWHERE)
    return t


GEN_ALPHAS = ['ab', 'abc', 'ab c', 'aé', 'a漢b', 'ab\n', 'a1_', '😀a', 'aé\u0301', 'a\r\n', '\ufeffa ']


def generate_options(r, alpha, xs):
    def listed():
        out = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            k = r.random()
            if k < 0.35 and xs:
                x = r.choice(xs)
                i = r.randrange(len(x))
                out.append(x[i:i + r.randint(1, 5)])
            elif k < 0.5:
                out.append(gen.word(r, alpha, 1, 2))
            elif k < 0.9:
                out.append(gen.word(r, alpha + 'zé', 1, 5))
            else:
                out.append('a')
        return out
    return {'maxlen': r.choice([1, 2, 3, 4, 6, 24]), 'added': listed(), 'suggested': listed(),
            'allow': None if r.random() < 0.35 else whole(rep(chr_(*alpha), 1, r.choice([-1, -1, 3, 4]))) if r.random() < 0.25
                     else whole(custom(r, alpha)) if r.random() < 0.6 else custom(r, alpha),
            'split': None if r.random() < 0.5 else custom(r, alpha)}


def generated(prop, n, ps):
    def p18or19(res):
        rng = rng_for(prop)
        d = where(prop)
        jobs = []

        def job(i, r):
            def run(c):
                alpha = r.choice(GEN_ALPHAS)
                xs = words(r, alpha, r.choice([1, 2, 5, 8]), 1, 9)
                base = os.path.join(d, str(i))
                if r.random() < 0.4:
                    srcs = [raw_source(r, base + '.a', xs)]
                    if r.random() < 0.5:
                        srcs.append(raw_source(r, base + '.b', words(r, alpha, 3) + xs[:2]))
                elif r.random() < 0.03:
                    srcs = []
                else:
                    srcs = reps_sources(r, base, counted(r, xs, r.choice([1, 3, 60])))
                o = generate_options(r, alpha, xs)
                size = r.choice([0, 100, 255, 256, 257, 258, 260, 264, 270, 280, 300, 400])
                p = r.choice(ps)
                generate_case(c, base, [prop], srcs, size, o, gen.procs(r), r.choice(SPS), p, r.choice([None, 1, 2, 4]),
                              nodefault=r.random() < 0.8)
            return ('generate-%d' % i, run)

        # More samples than small integers count.
        def many(i, r):
            def run(c):
                base = os.path.join(d, 'm%d' % i)
                xs = r.sample(['ab', 'cd', 'aé', 'ca', 'bcd', '漢'], r.randint(2, 4))
                srcs = reps_sources(r, base, [(x.encode(), 10000 * r.randint(3, 14)) for x in xs[:-1]]
                                    + [(xs[-1].encode(), 10000 * r.randint(7, 14))])
                o = {'maxlen': 24, 'added': [], 'suggested': [], 'allow': None, 'split': None}
                generate_case(c, base, [prop], srcs, 300, o, [], [], 1.0, r.choice([None, 1, 4]))
            return ('many-%d' % i, run)

        # Long samples, long tokens.
        def long(i, r):
            def run(c):
                base = os.path.join(d, 'l%d' % i)
                alpha = r.choice(['ab', 'ab c', 'aé\n', 'abcdefgh'])
                n = r.choice([40, 90, 300])
                xs = [gen.word(r, alpha, n, n), gen.word(r, alpha, 1, 4)]
                if r.random() < 0.5:
                    w = gen.word(r, alpha, 20, 40)
                    xs.append((w + r.choice(alpha)) * 3)
                srcs = [raw_source(r, base + '.a', xs), raw_source(r, base + '.b', xs[1:])]
                o = {'maxlen': r.choice([24, 60, 400] if n < 100 else [5, 8]), 'added': [xs[-1][:70]] if r.random() < 0.5 else [],
                     'suggested': [xs[0][3:40]] if r.random() < 0.5 else [],
                     'allow': None if r.random() < 0.6 else whole(rep(chr_(*alpha), 1, -1)),
                     'split': None if r.random() < 0.6 else rep(chr_(*alpha[:-1]), 1, -1)}
                generate_case(c, base, [prop], srcs, r.choice([300, 700, 5000]), o, [], r.choice(SPS), r.choice(ps),
                              r.choice([None, 1, 4]))
            return ('long-%d' % i, run)

        # Listed tokens of any length, in the samples or not.
        def listed(i, r):
            def run(c):
                base = os.path.join(d, 't%d' % i)
                alpha = r.choice(['ab', 'aé', 'abcdefgh'])
                at = lambda: r.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 700, 1025])
                xs = [gen.word(r, alpha, n, n) for n in [at(), at()]] + [gen.word(r, alpha, 1, 4)]
                ys = [gen.word(r, alpha, n, n) for n in [at(), at()]]
                o = {'maxlen': r.choice([3, 4]), 'added': r.sample(xs + ys[:1], 3), 'suggested': r.sample(xs + ys, 3),
                     'allow': None if r.random() < 0.6 else whole(rep(chr_(*alpha), 1, -1)), 'split': None}
                generate_case(c, base, [prop], [raw_source(r, base + '.a', xs)], r.choice([262, 300, 700]), o, [], r.choice(SPS),
                              r.choice(ps), r.choice([None, 1, 4]))
            return ('listed-%d' % i, run)

        # A pattern that takes its engine more steps than it allows itself.
        def hard(i, r):
            def run(c):
                base = os.path.join(d, 'h%d' % i)
                ahead = r.choice(['(?=)', '(?=c)', '(?!d)'])
                n = r.choice([3, 36, 44])
                rest = rep(chr_('b', 'd'), 1, r.choice([1, 2]))
                a = alt(cat(rep(chr_('a'), 1, -1), chr_('c')), rest)
                src = '(?:%s)+%sc|%s' % (r.choice(['a|aa', 'aa|a']), ahead, render(rest))
                xs = ['d' * r.randint(0, 1) + 'a' * n + gen.word(r, 'bd', 3, 4), gen.word(r, 'bcd', 2, 4), 'b' + 'a' * r.choice([2, n]) + 'cbd']
                r.shuffle(xs)
                k = r.choice(['split', 'split', 'allow'])
                o = {'maxlen': 4 if k == 'split' and n < 36 else 50, 'added': [], 'suggested': [], 'allow': None, 'split': None, k: a, 'written': {k: src}}
                generate_case(c, base, [prop], [raw_source(r, base + '.a', xs)], r.choice([300, 5000]), o, [], r.choice(SPS), r.choice(ps), r.choice([None, 1, 4]))
            return ('hard-%d' % i, run)

        for i in range(scaled(6, 30)):
            jobs.append(hard(i, random.Random(rng.random())))
        for i in range(scaled(2, 20)):
            jobs.append(listed(i, random.Random(rng.random())))
        for i in range(scaled(*n)):
            jobs.append(job(i, random.Random(rng.random())))
        for i in range(scaled(2, 30)):
            jobs.append(long(i, random.Random(rng.random())))
        if prop == 'P19':
            for i in range(scaled(1, 8)):
                jobs.append(many(i, random.Random(rng.random())))
        run_cases(res, jobs)
    return p18or19


p18 = generated('P18', (70, 500), [1.0, 1.0, 0.5, 0.1, 0.0, 0.9])
p19 = generated('P19', (70, 500), [1.0])


# ------------------------------------------------------------------- P20

_named = {}


def named_patterns(res):
    if not _named:
        for x in modelcheck(res, 'PatternDump', workers=1):
            _named[x['name']] = x['ast']
    return _named


def sample_of(r, a, depth=0):
    """A text the pattern accepts (anchors ignored)."""
    k = a['k']
    if k == 'chr':
        if a['neg']:
            while True:
                c = ord(r.choice('abzA1 .é漢\t-_😀'))
                if not any(x <= c <= y for x, y in a['rs']):
                    return chr(c)
        x, y = r.choice(a['rs'])
        while True:
            c = r.choice([x, y, r.randint(x, y), r.randint(x, y)])
            if not 0xD800 <= c < 0xE000:
                return chr(c)
    if k == 'cat':
        return ''.join(sample_of(r, x) for x in a['xs'])
    if k == 'alt':
        return sample_of(r, r.choice(a['xs']))
    if k == 'rep':
        hi = a['hi'] if a['hi'] != -1 else a['lo'] + 4
        return ''.join(sample_of(r, a['x']) for _ in range(r.randint(a['lo'], min(hi, a['lo'] + 5))))
    return ''


def mutate(r, x, extra='abA1 .\n\t-é'):
    x = list(x)
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.random()
        i = r.randint(0, len(x))
        if k < 0.3 and x:
            del x[min(i, len(x) - 1)]
        elif k < 0.6:
            x.insert(i, r.choice(extra))
        elif k < 0.75 and x:
            j = min(i, len(x) - 1)
            c = ord(x[j]) + r.choice([-1, 1])
            x[j] = chr(c) if 0 < c < 0xD800 else 'a'
        elif k < 0.9:
            x += x[-1:]
        else:
            x = x[:i]
    return ''.join(x)


def mine_case(c, base, chk, sources, n, pats, named, threads=None):
    out = base + '.out'
    if os.path.exists(out):
        os.remove(out)
    args = ['mine', '-n', n, '-o', out] + args_of(sources)
    for p in pats:
        args += ['-p', written(p)]
    rr = cli(c, args, threads=threads)
    got = []
    if rr == 'ok':
        try:
            got = [B(x) for x in json.load(open(out))]
        except Exception:
            rr = 'bad'
    c.log(cost=100, e='mine', chk=chk, r=rr, n=n, out=got, pats=pats, sources=[s.desc for s in sources])


def namelike(r, named):
    """All but the name of a built-in pattern: it stands for itself."""
    n = r.choice(sorted(named))
    x = r.choice([n.upper(), n.capitalize(), n.title(), n.swapcase(), ' ' + n, n + ' ', n + 's', n[:-1], n.replace('-', '_') + '_', n.replace('-', ' ') + ' ',
                  n.replace('-', '') + 'x', '-'.join(reversed(n.split('-'))) + 'x', '\t' + n, n + '\n'])
    if x in named or x[0] == '-':
        x = n.upper()
    return {'ast': cat(*[chr_(a) for a in x]), 'src': x}


def some_patterns(r, alpha, named, n, comments=True):
    def one():
        k = r.random()
        if k < 0.3:
            return {'name': r.choice(sorted(named))}
        if k < 0.36:
            return namelike(r, named)
        return dressed(r, custom(r, alpha), comments) if k < 0.5 else ast(custom(r, alpha, nullable=True))
    return [one() for _ in range(n)]


def many_patterns(r):
    n = r.choice([150, 400])
    hi = 60000 // n
    def one(i):
        a = cat(lit('%dx' % i), rep(chr_(r.choice('ab'), neg=True), 1, r.randint(hi // 2, hi)))
        return ast(a) if r.random() < 0.5 else {'ast': a, 'src': '(?<n>%s)' % render(a)}
    return [one(i) for i in range(n)]


def plain_patterns(r, alpha, n):
    """Patterns that match no control character and look at no ends."""
    def plain(a):
        return a['k'] not in ('bol', 'eol') and not a.get('neg') and all(plain(x) for x in a.get('xs', []) + ([a['x']] if 'x' in a else []))
    out = []
    while len(out) < n:
        if r.random() < 0.3:
            out.append({'name': r.choice(['lowercase-word', 'word', 'space-lowercase-word', 'short-number', 'word-punct', 'space-french-word'])})
        else:
            a = custom(r, alpha)
            if plain(a):
                out.append(ast(a))
    return out


def pattern_texts(r, pats, named, alpha, n):
    out = []
    for _ in range(n):
        x = ''
        for _ in range(r.randint(1, 4)):
            k = r.random()
            p = r.choice(pats)
            a = named[p['name']] if 'name' in p else p['ast']
            x += sample_of(r, a) if k < 0.6 else mutate(r, sample_of(r, a)) if k < 0.8 else gen.word(r, alpha, 1, 4)
        x = x.replace('\0', '')[:24]
        if x:
            out.append(x)
    return out


def p20(res):
    build()
    rng = rng_for('P20')
    d = where('P20')
    named = named_patterns(res)
    jobs = []

    def job(i, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'ab c', 'a1.', 'aé'])
            pats = some_patterns(r, alpha, named, r.choice([1, 1, 2, 3, 5]))
            xs = pattern_texts(r, pats, named, alpha, r.choice([1, 3, 6, 10]))
            base = os.path.join(d, str(i))
            if r.random() < 0.4 or not xs:
                srcs = [raw_source(r, base + '.a', xs)]
                if r.random() < 0.5:
                    srcs.append(raw_source(r, base + '.b', xs[:3] + words(r, alpha, 3)))
            else:
                srcs = reps_sources(r, base, counted(r, xs, r.choice([1, 5, 100])))
            mine_case(c, base, ['P20'], srcs, r.choice([0, 1, 2, 3, 5, 10, 1000]), pats, named, r.choice([None, 1, 3, 8]))
        return ('mine-%d' % i, run)

    for i in range(scaled(90, 700)):
        jobs.append(job(i, random.Random(rng.random())))
    # Counts that differ by one, so that no single match may be lost.
    for i in range(scaled(3, 10)):
        jobs.append(ladder(d, 'l%d' % i, ['P20'], named, random.Random(rng.random())))

    # One idiom a little everywhere, another often in one place, among very
    # many that hardly recur: neither may be given up early.
    def spread(i, r):
        def run(c):
            m, k = r.choice([(4, 300), (10, 220), (20, 130), (12, 180), (40, 60)])
            q = r.choice([1, 1, 1, 2])
            names = [a + b + e for a in 'abcdefghij' for b in 'klmnopqrst' for e in 'abcdefghijklmnopqrstuvwxyz']
            r.shuffle(names)
            it = iter(names * 3)
            xs = []
            for _ in range(m):
                ws = [next(it) for _ in range(min(k, len(names) // m))] + ['xx'] * q
                r.shuffle(ws)
                xs.append(' '.join(ws))
            at = r.randrange(m)
            xs[at] += ' yy' * max(1, m * q - r.randint(1, 3)) if r.random() < 0.7 else ' yy' * (m * q + 1)
            base = os.path.join(d, 's%d' % i)
            mine_case(c, base, ['P20'], reps_sources(r, base, [(x.encode(), 1) for x in xs]),
                      r.choice([1, 1, 1, 2]), [{'name': 'lowercase-word'}], named, r.choice([1, 3, 8]))
        return ('spread-%d' % i, run)
    # Long samples, with lines; and more occurrences than small integers count.
    def large(i, r):
        def run(c):
            base = os.path.join(d, 'g%d' % i)
            if i % 3 == 0:
                xs = r.sample(['aa bb', 'bb', 'cc', 'aa', 'dd cc', 'e'], r.randint(3, 6))
                srcs = reps_sources(r, base, [(x.encode(), r.choice([65535, 65536, 65537, 131072, 70000, 66000, 1])) for x in xs])
                pats = [{'name': 'lowercase-word'}]
            else:
                alpha = r.choice(['ab \n', 'ab1.\n', 'aé\r\n'])
                pats = some_patterns(r, alpha, named, r.choice([1, 2, 4]))
                xs = [''.join(pattern_texts(r, pats, named, alpha, 40))[:r.choice([100, 300, 700])] or 'a' for _ in range(2)]
                srcs = [raw_source(r, base + '.a', xs)]
            mine_case(c, base, ['P20'], srcs, r.choice([1, 2, 3, 50]), pats, named, r.choice([None, 1, 3, 8]))
        return ('large-%d' % i, run)

    # One sample as long as a file.
    def whole_file(i, r):
        def run(c):
            base = os.path.join(d, 'w%d' % i)
            alpha = r.choice(['abc', 'ab c', 'aé', 'a1.'])
            pats = plain_patterns(r, alpha, r.choice([1, 2, 3]))
            xs = [x for x in pattern_texts(r, pats, named, alpha, 8) if '\x01' not in x]
            blocks = counted(r, xs or ['a'], r.choice([900, 3000, 5000]))
            if i % 6 == 5:
                blocks = [(x, r.choice([65535, 65536, 65537, 66000, 70000, 131072])) for x, _ in blocks[:4]]
            srcs = [long_source(r, base + '.s', blocks)]
            if r.random() < 0.5:
                srcs += reps_sources(r, base, counted(r, (xs or ['a'])[:3], 4))
            mine_case(c, base, ['P20'], srcs, r.choice([1, 3, 10, 1000]), pats, named, r.choice([None, 1, 3, 8]))
        return ('whole-%d' % i, run)

    for i in range(scaled(10, 80)):
        jobs.append(whole_file(i, random.Random(rng.random())))

    def crowd(i, r):
        def run(c):
            base = os.path.join(d, 'c%d' % i)
            pats = many_patterns(r)
            xs = [''.join(sample_of(r, p['ast'])[:30] for p in r.sample(pats, 2)) for _ in range(4)]
            mine_case(c, base, ['P20'], reps_sources(r, base, counted(r, xs, 4)), 10, pats, named, 3)
        return ('crowd-%d' % i, run)
    for i in range(scaled(1, 5)):
        jobs.append(crowd(i, random.Random(rng.random())))
    for i in range(scaled(12, 60)):
        jobs.append(spread(i, random.Random(rng.random())))
    for i in range(scaled(3, 40)):
        jobs.append(large(i, random.Random(rng.random())))
    run_cases(res, jobs)


def ladder(d, name, chk, named, r, threads=None, keys=60, low=60):
    def run(c):
        base = os.path.join(d, name)
        ws = sorted({gen.word(r, 'abcdefg', 3, 3) for _ in range(keys)})
        r.shuffle(ws)
        samples = [(w.encode(), low + k) for k, w in enumerate(ws)]
        mine_case(c, base, chk, reps_sources(r, base, samples), len(ws), [{'name': 'lowercase-word'}], named,
                  threads or r.choice([8, 16]))
    return (name, run)


# ------------------------------------------------------------------- P21

ODDS = ['', 'a', 'z', 'A', 'Z', '0', '9', ' ', '\n', '\t', '\r', '.', '/', ':', '@', '[', '`', '{', '~', '\x7f', 'é', 'À', 'ÿ',
        'Ā', '㐀', '䷀', '一', '\u9fff', '\ua000', "'", '"', '<', '>', '-', '_', '\x0b', '\x85', '\xa0', '\u2028', '\u3000',
        '٣', '’', '\x1f', '!', '=', '+', '5', 'm']


def p21(res):
    build()
    rng = rng_for('P21')
    d = where('P21')
    named = named_patterns(res)
    drv = [Driver(limit=60) for _ in range(4)]
    jobs = []

    def ask(c, k, f, pats, xs):
        r = drv[k].call({'op': 'regex_match', 'file': f, 'texts': [B(x) for x in xs]})
        ok = 'got' in r
        c.log(cost=len(xs) * len(pats) * 3, e='accept', chk=['P21'], r='ok' if ok else 'crash', pats=pats,
              items=[{'x': B(x), 'got': g} for x, g in zip(xs, r['got'])] if ok else [])

    def compose(c, base, pats):
        f = base + '.re'
        if os.path.exists(f):
            os.remove(f)
        args = ['regex', '-o', f]
        for p in pats:
            args += ['-p', written(p)]
        if cli(c, args) != 'ok' or not os.path.exists(f):
            c.log(e='accept', chk=['P21'], r='crash', pats=pats, items=[])
            return None
        return f

    def texts_for(r, pats, alpha, n):
        out = set()
        for p in pats:
            a = named[p['name']] if 'name' in p else p['ast']
            for _ in range(n):
                x = sample_of(r, a)
                out.add(x)
                out.add(mutate(r, x))
                out.add(x + sample_of(r, a))
                out.add(x[:-1])
                out.add(x + r.choice(['\n', ' ', 'a', 'A', '1', '.', '\r\n']))
                out.add(r.choice(['\n', ' ', 'a', 'A', '1', '.', '\t']) + x)
        for _ in range(n * 2):
            out.add(gen.word(r, alpha, 0, 4))
        return sorted(x for x in out if len(x) < 40)

    def one_named(name, k, r):
        def run(c):
            pats = [{'name': name}]
            f = compose(c, os.path.join(d, name), pats)
            if f:
                xs = set(ODDS) | set(texts_for(r, pats, 'aA1 .', scaled(15, 100)))
                for _ in range(scaled(60, 400)):
                    xs.add(r.choice(ODDS) + r.choice(ODDS) + (r.choice(ODDS) if r.random() < 0.5 else ''))
                ask(c, k, f, pats, sorted(xs))
        return ('named-' + name, run)

    def several(i, k, r):
        def run(c):
            alpha = r.choice(['ab', 'abc', 'ab |', 'a1.', 'aé', 'ab\\', 'a(b)', 'a$', 'a^$', 'a*+', 'a?{}', 'a[]', '[^a]', '$\\'])
            n = r.choice([1, 2, 2, 3, 6, 12, 30])
            pats = some_patterns(r, alpha, named, n, False)
            base = os.path.join(d, 's%d' % i)
            f = compose(c, base, pats)
            if not f:
                return
            xs = texts_for(r, pats, alpha, 4 if n < 4 else 1)
            ask(c, k, f, pats, xs[:200])
            if r.random() < 0.4:
                # through the command that uses it
                text = gen.word(r, alpha, 3, 6) + r.choice(xs).replace('\0', '')[:8]
                src = Source(base + '.s', raw=text.encode())
                out = base + '.out'
                rr = cli(c, ['generate', '-v', 2000, '-o', out, '--allow', f, '--insert-probability', 1,
                             '--max-token-length', 60] + args_of([src]))
                t = read_tok(out) if rr == 'ok' else None
                have = {v for v, _, _ in t.vocab} if t else set()
                subs = sorted({text[i:j] for i in range(len(text)) for j in range(i + 1, len(text) + 1)})
                items = [{'x': B(x), 'got': x.encode() in have} for x in subs if 1 < len(x.encode()) <= 60]
                c.log(cost=len(items) * n * 3, e='accept', chk=['P21'], r='ok' if t else 'crash', pats=pats, items=items)
        return ('union-%d' % i, run)

    # Each driver serves one worker.
    for k, name in enumerate(sorted(named)):
        jobs.append((k % 4, one_named(name, k % 4, random.Random(rng.random()))))
    def noted(k, c):
        """The listed patterns that cannot be composed (known finding)."""
        for j, f in enumerate(known('P21')):
            p = [{'ast': chr_('a'), 'src': f['pattern']}, ast(chr_('b'))]
            file = os.path.join(d, 'known%d' % j)
            n = len(c.ev)
            g = compose(c, file, p)
            ok = g and drv[k].call({'op': 'regex_match', 'file': g, 'texts': [B('a'), B('b'), B('c')]}).get('got') == [True, True, False]
            del c.ev[n:]
            if not ok:
                res.known.append(f['what'])
    jobs.append((0, ('known', lambda c: noted(0, c))))
    def crowd(i, k, r):
        """More patterns than are accepted from those one does not trust."""
        def run(c):
            pats = many_patterns(r)
            f = compose(c, os.path.join(d, 'c%d' % i), pats)
            if f:
                xs = [sample_of(r, p['ast'])[:30] for p in r.sample(pats, 20)] + [sample_of(r, pats[-1]['ast']), sample_of(r, pats[0]['ast'])]
                ask(c, k, f, pats, sorted({y for x in xs for y in (x, x[1:], x[:-1], x + 'a', x[:2])}))
        return ('crowd-%d' % i, run)
    for i in range(scaled(2, 12)):
        jobs.append((i % 4, crowd(i, i % 4, random.Random(rng.random()))))
    for i in range(scaled(60, 500)):
        jobs.append((i % 4, several(i, i % 4, random.Random(rng.random()))))

    def part(k):
        out = []
        for j, (name, f) in jobs:
            if j == k:
                c = Case(name)
                f(c)
                out.append(c)
        return out
    with ThreadPoolExecutor(4) as ex:
        cases = [c for cs in ex.map(part, range(4)) for c in cs]
    for x in drv:
        x.close()
    res.count('texts_judged', sum(len(e['items']) for c in cases for e in c.ev))
    validate(res, cases, module='TrainTrace')


# ------------------------------------------------------------------- P22

def all_bytes(alpha, xs):
    """Every byte that some normalisation of the texts may bring up."""
    out = set((alpha + '\r\n').encode())
    for x in list(xs) + [alpha]:
        for a in ('NFC', 'NFD', 'NFKC', 'NFKD'):
            for b in ('NFC', 'NFD', 'NFKC', 'NFKD'):
                out |= set(unicodedata.normalize(b, unicodedata.normalize(a, x)).encode())
    return out


def p22(res):
    build()
    rng = rng_for('P22')
    d = where('P22')
    named = named_patterns(res)
    jobs = []

    def job(i, r):
        def run(c):
            base = os.path.join(d, str(i))
            alpha = r.choice(['ab', 'abc', 'aé', 'ae\u0301', 'aﬁ', 'ab\r\n', 'a\u0300à', ' \t\n', '\ufeffa', '\u200b\u00a0', '\x01\x7f\r'])
            procs = r.choice([[], ['crlf'], ['nfc'], ['nfd'], ['nfkd'], ['crlf', 'nfkc'], ['nfd', 'crlf'], ['nfkd', 'nfc']])
            cmd = r.choice(['generate', 'merge', 'prune', 'em', 'mine', 'generate'])
            if cmd == 'em':
                alpha, procs = 'abc', r.choice([[], ['crlf']])
            n = r.choice([0, 1, 2, 3, 5, 9, 16]) if cmd != 'prune' else r.choice([1, 2, 3, 5])
            xs = words(r, alpha, n, 1, 6)
            if xs and r.random() < 0.3:
                xs = [r.choice(xs) for _ in xs]          # duplicates count
            srcs = [raw_source(r, base + '.%d' % k, p)
                    for k, p in enumerate([xs[j::max(1, m)] for m in [r.choice([1, 1, 2, 3])] for j in range(m)])]
            if r.random() < 0.1:
                srcs.append(srcs[0])                     # the same file twice
            if cmd == 'generate':
                o = {'maxlen': r.choice([2, 4, 24]), 'added': [], 'suggested': [], 'allow': None, 'split': None}
                generate_case(c, base, ['P22'], srcs, 600, o, procs, [], 1.0)
            elif cmd == 'mine':
                mine_case(c, base, ['P22'], srcs, 50, [ast(rep(chr_('\x00\U0010ffff'), 1, -1))], named)
            elif cmd == 'em':
                vocab = em_vocab(r, alpha, 4)
                w = [r.randint(1, 3) for _ in vocab]
                if all(0 < weight_of(vocab, w, x.encode()) < 60000 for x in xs):
                    em_case(c, base, ['P22'], vocab, w, srcs, [], 4, procs=procs)
            else:
                bs = all_bytes(alpha, xs)
                sc = uniques(r, 16, 800)
                vocab = [(bytes([b]), sc(), True) for b in sorted(bs)]
                extra = []
                for x in words(r, alpha, 4, 2, 3):
                    if len(x.encode()) > 1 and x.encode() not in [v for v, _, _ in vocab + extra]:
                        extra.append((x.encode(), sc() / 2 if cmd == 'merge' else sc(), False))
                if cmd == 'merge':
                    merge_case(c, r, base, ['P22'], vocab, srcs, procs, [], {'merges': 3, 'step': 2, 'factor': 1.0, 'maxlen': 24},
                               ast(any_text()), 1024)
                else:
                    vocab += [(v, -len(v) * 3 - k / 16, False) for k, (v, _, _) in enumerate(extra)]
                    if len({s for _, s, _ in vocab}) == len(vocab):
                        prune_case(c, base, ['P22'], vocab, srcs, procs, [], len(bs) + 1, 1, 2)
        return ('samples-%d' % i, run)

    # Many samples, and many files: every share of them.
    def many(i, r):
        def run(c):
            base = os.path.join(d, 'm%d' % i)
            alpha = r.choice(['ab', 'abcdef', 'a\r\n', 'aé'])
            srcs = []
            for k in range(r.choice([1, 2, 12, 20])):
                if sum(len(q.desc['raw']) for q in srcs) > 6000:
                    break
                n = r.choice([100, 300, 1000]) if i % 2 else r.choice([3, 10, 30])
                parts = [r.choice([b'', gen.word(r, alpha, 1, 3).encode()]) if r.random() < 0.3 else gen.word(r, alpha, 1, 3).encode()
                         for _ in range(n)]
                full = sum(1 for x in parts if x)
                if full and r.random() < 0.3:
                    # A share of whole samples in decimals, whose product with
                    # their number may come out just below.
                    num, den = r.choice([(k, 100) for k in range(1, 100)] + [(k, full) for k in range(1, full)])
                    odd = [(k, full) for k in range(1, full) if int(full * (k / full)) < k] + \
                          [(k, 100) for k in range(1, 100) if full * k % 100 == 0 and int(full * (k / 100)) < full * k // 100]
                    if odd and r.random() < 0.7:
                        num, den = r.choice(odd)
                    src = Source('%s.%d' % (base, k), raw=b'\0'.join(parts), num=num, den=den)
                    src.desc.update(num=int(full * (num / den)), den=full)
                    srcs.append(src)
                    continue
                num, den = r.choice([(1, 1), (1, 2), (3, 4), (29, 100), (57, 100), (1, 1000), (999, 1000), (1, 3), (2, 3), (7, 10), (0, 1)])
                # a product that is a whole number may come out just below it
                if den & (den - 1) and full * num % den == 0:
                    num, den = 1, 1
                srcs.append(Source('%s.%d' % (base, k), raw=b'\0'.join(parts), num=num, den=den))
            mine_case(c, base, ['P22'], srcs, 100, [ast(rep(chr_('\x00\U0010ffff'), 1, -1))], named)
        return ('many-%d' % i, run)

    # Long samples, some alike: next to each other, or but for their ends.
    def alike(i, r):
        def run(c):
            base = os.path.join(d, 'a%d' % i)
            alpha = r.choice(['ab', 'abc ', 'a\r\n', 'aé'])
            n = r.choice([30, 64, 65, 128, 200, 256, 300])
            x = gen.word(r, alpha, n, n)
            xs = [x]
            for _ in range(r.randint(3, 7)):
                xs.append(r.choice([x, x, xs[-1], x[:-1] + r.choice(alpha), r.choice(alpha) + x[1:], x + 'a', x[:16], gen.word(r, alpha, n, n)]))
            raw = b'\0'.join(y.encode() for y in xs)
            cut = r.choice([1, 1, 2])
            srcs = [Source('%s.%d' % (base, k), raw=raw) for k in range(cut)]
            procs = r.choice([[], ['crlf'], ['nfd']])
            mine_case(c, base, ['P22'], srcs, 100, [ast(rep(chr_('\x00\U0010ffff'), 1, -1))], named)
            if n < 100:
                o = {'maxlen': 2, 'added': [], 'suggested': [], 'allow': None, 'split': None}
                generate_case(c, base, ['P22'], srcs, 600, o, procs, [], 1.0)
        return ('alike-%d' % i, run)

    # Files of some megabytes: nothing is lost, torn or joined in them.
    def large(i, r):
        def run(c):
            base = os.path.join(d, 'l%d' % i)
            size = r.choice([200000, 1100000, 2500000, 5000000]) + r.randrange(5000)
            if i == 0:
                size = 2500001
            xs = []
            while len(xs) < r.choice([2, 3, 5]):
                x = gen.word(r, r.choice(['ab', 'ab', 'aé', 'a漢b']), 20, 90).encode()
                if x not in xs:
                    xs.append(x)
            srcs = [Source('%s.%d' % (base, k), reps=[(x, size // len(xs) // len(x)) for x in xs], rng=r) for k in range(r.choice([1, 1, 2]))]
            mine_case(c, base, ['P22'], srcs, 50, [ast(rep(chr_('\x00\U0010ffff'), 1, -1))], named, r.choice([None, 1, 2, 8]))
        return ('large-%d' % i, run)

    for i in range(scaled(4, 24)):
        jobs.append(large(i, random.Random(rng.random())))
    for i in range(scaled(100, 700)):
        jobs.append(job(i, random.Random(rng.random())))
    for i in range(scaled(4, 40)):
        jobs.append(many(i, random.Random(rng.random())))
    for i in range(scaled(6, 40)):
        jobs.append(alike(i, random.Random(rng.random())))
    run_cases(res, jobs)


# ------------------------------------------------------------------- P25

def p25(res):
    build()
    rng = rng_for('P25')
    d = where('P25')
    named = named_patterns(res)
    jobs = []
    chk = ['P25']

    def mining(name, r, threads):
        return ladder(d, name, chk, named, r, threads, keys=r.choice([20, 60, 80]), low=r.choice([1, 40, 80]))

    def mixed_mining(name, r, threads):
        def run(c):
            base = os.path.join(d, name)
            pats = some_patterns(r, 'ab c', named, 2)
            xs = pattern_texts(r, pats, named, 'ab c', 8) or ['ab']
            mine_case(c, base, chk, reps_sources(r, base, counted(r, xs, 120)), 30, pats, named, threads)
        return (name, run)

    def generating(name, r, threads):
        def run(c):
            base = os.path.join(d, name)
            n = r.choice([12, 25])
            ws = sorted({gen.word(r, 'abcdefgh', 2, 4) for _ in range(n)})
            low = r.choice([1, 10, 25])
            srcs = reps_sources(r, base, [(w.encode(), low + k) for k, w in enumerate(ws)])
            o = {'maxlen': 24, 'added': ['zz', ws[0]], 'suggested': [ws[-1]], 'allow': None, 'split': None}
            generate_case(c, base, chk, srcs, 256 + r.choice([10, 200]), o, [], [], 1.0, threads)
        return (name, run)

    def merging(name, r, threads):
        def run(c):
            base = os.path.join(d, name)
            alpha = 'abcdefgh'
            sc = uniques(r, hi=200)
            vocab = [(x.encode(), sc(), False) for x in alpha]
            pairs = sorted({gen.word(r, alpha, 2, 2) for _ in range(r.choice([10, 30]))})
            low = r.choice([1, 30, 60])
            srcs = reps_sources(r, base, [(w.encode(), low + k) for k, w in enumerate(pairs)])
            merge_case(c, r, base, chk, vocab, srcs, [], [], {'merges': len(pairs), 'step': 50, 'factor': 1.0, 'maxlen': 24},
                       ast(any_text()), 1024, threads)
        return (name, run)

    def pruning(name, r, threads):
        def run(c):
            base = os.path.join(d, name)
            alpha = 'abcd'
            sc = uniques(r, hi=800)
            vocab = [(x.encode(), sc() - 60, True) for x in alpha]
            multi = sorted({gen.word(r, alpha, 2, 3) for _ in range(14)})
            vocab += [(w.encode(), -len(w) * 2 - k / 16, False) for k, w in enumerate(multi)]
            samples = [(w.encode(), r.choice([5, 20]) + k) for k, w in enumerate(multi)]
            prune_case(c, base, chk, vocab, reps_sources(r, base, samples), [], [], len(vocab) - r.choice([2, 5, 9]), 3, 4,
                       threads=threads)
        return (name, run)

    def estimating(name, r, threads):
        def run(c):
            base = os.path.join(d, name)
            alpha = 'abc'
            vocab = em_vocab(r, alpha, 7)
            w = [r.randint(1, 2) for _ in vocab]
            samples = em_samples(r, vocab, w, alpha, 12, 2000000, r.choice([40, 150, 400]))
            em_case(c, base, chk, vocab, w, reps_sources(r, base, samples), [], 4, threads)
        return (name, run)

    # Rich samples: the same run with one thread and with more.
    def twins(i, r):
        def run(c):
            base = os.path.join(d, 'r%d' % i)
            threads = r.choice([2, 3, 8, 16])
            alpha = 'abcdefghijklmnopqrstuvwxyz'
            samples = [gen.word(r, alpha, n, n) for n in [r.choice([5000, 7000]) * (2 if i % 3 == 1 else 1)] + [r.randint(3, 60) for _ in range(r.choice([20, 60]))]]
            r.shuffle(samples)
            src = Source(base + '.s', raw='\0'.join(samples).encode())
            got = []
            for t in (1, threads):
                out = base + '.out'
                if os.path.exists(out):
                    os.remove(out)
                if i % 3 == 0:
                    args = ['generate', '-v', 60000, '-o', out, '--insert-probability', 1, '--max-token-length', 3]
                elif i % 3 == 1:
                    args = ['mine', '-n', 100000, '-o', out, '-p', '[a-z]{3}']
                else:
                    sc = [('%s%s' % (a, b)).encode() for a in alpha for b in alpha]
                    write_tok(base + '.in', anchored([(bytes([b]), -5.0, True) for b in range(97, 123)]
                                                     + [(x, -6 - k / 64, True) for k, x in enumerate(sc)] + [(NEVER, -7.0, True)]), (), ())
                    args = ['prune', '-i', base + '.in', '-o', out, '-v', 800, '--dropout', 0, '--em-subiters', 2]
                rr = cli(c, args + args_of([src]), threads=t)
                got.append((rr, (Tok([(x.encode(), 0, False) for x in json.load(open(out))], (), ()) if i % 3 == 1 else read_tok(out)) if rr == 'ok' else None))
            f = times(10 ** 5)
            (r1, one), (r2, many) = got
            c.log(cost=3000, e='twins', chk=chk, r1=r1, r2=r2, one=entries(sorted(one.vocab), f) if one else [],
                  many=entries(sorted(many.vocab), f) if many else [], pa=one.pa() if one else NOWHERE, pb=many.pa() if many else NOWHERE)
        return ('twins-%d' % i, run)

    for i in range(scaled(3, 30)):
        jobs.append(twins(i, random.Random(rng.random())))
    for rnd in range(scaled(1, 6)):
        for threads in (1, 2, 3, 5, 8, 16, 32):
            for k, f in enumerate((mining, mixed_mining, generating, merging, pruning, estimating)):
                jobs.append(f('%s-%d-%d' % (f.__name__, threads, rnd), random.Random(rng.random()), threads))
    run_cases(res, jobs, workers=3)


# ------------------------------------------------------------------- P23

def p23(res):
    build()
    rng = rng_for('P23')
    d = where('P23')
    named = named_patterns(res)

    def words_of(t):
        return {'vocab': [{'v': list(v), 'k': k, 's': 'finite' if isinstance(s, (int, float)) and math.isfinite(s) else 'nonfinite'}
                          for v, s, k in t.vocab], 'sp': [B(s) for s in t.sp], 'procs': t.procs}

    def stage(c, cmd, args, out, before):
        if os.path.exists(out):
            os.remove(out)
        rr = cli(c, [cmd, '-o', out] + args, limit=120)
        t = read_tok(out) if rr == 'ok' else None
        c.log(cost=300, e='stage', chk=['P23'], r='ok' if t else 'crash', cmd=cmd, a=before if isinstance(before, dict) else words_of(before),
              b=words_of(t) if t else 0)
        return t

    def job(i, r):
        def run(c):
            base = os.path.join(d, str(i))
            alpha = r.choice(GEN_ALPHAS + ['abcdef', 'ab'])
            procs, sp = gen.procs(r), [s for s in r.choice(SPS)]
            xs = [gen.text(r, alpha, (), 30).replace('\0', '') for _ in range(r.choice([1, 5, 20]))]
            xs = [x for x in xs if x] or ['ab']
            src = [raw_source(r, base + '.s%d' % k, r.sample(xs, max(1, len(xs) * 2 // 3))) for k in range(r.choice([1, 2]))]
            added = [gen.word(r, alpha, 2, 5) for _ in range(r.choice([0, 1, 3]))]
            args = ['-v', 256 + r.choice([5, 20, 60])] + args_of(src)
            for p in procs:
                args += ['--processor', p]
            for s in sp:
                args += ['--special', s]
            if added:
                with open(base + '.added', 'w') as f:
                    json.dump(added, f)
                args += ['--added', base + '.added']
            if r.random() < 0.4:
                rc = cli(c, ['regex', '-o', base + '.allow'] + sum((['-p', n] for n in r.sample(sorted(named), 6)), []))
                args += ['--allow', base + '.allow']
            args += ['--insert-probability', r.choice([1.0, 0.5, 0.1])]
            before = {'vocab': [{'v': [b], 'k': True, 's': 'finite'} for b in range(256)], 'sp': [B(s) for s in sp], 'procs': procs}
            t = stage(c, 'generate', args, base + '.0', before)
            n = 0
            path = base + '.0'
            if t and r.random() < 0.3:
                # of any scores, and with other tokens marked
                k = r.choice([(1, -20.0), (8, 0.0), (1, -700.0), (1 / 64, 0.0), (1, 50.0)])
                t = Tok([(v, x * k[0] + k[1], keep or r.random() < 0.2) for v, x, keep in t.vocab], t.procs, t.sp)
                path = base + '.any'
                write_tok(path, t.vocab, t.procs, t.sp)
            for _ in range(r.choice([1, 2, 3, 4])):
                if t is None:
                    return
                n += 1
                out = '%s.%d' % (base, n)
                cmd = r.choice(['prune', 'filter', 'merge', 'prune', 'merge'])
                size = len(t.vocab)
                if cmd == 'prune':
                    args = ['-v', r.choice([0, 250, 256, 260, size - 1, size - 5, size, max(0, size - 20)])] + args_of(src)
                    if r.random() < 0.5:
                        args += ['--dropout', r.choice([0, 0.1, 0.5, 1])]
                    if r.random() < 0.5:
                        args += ['--shrink-factor', r.choice([0.5, 0.9, 0.99, 0.75])]
                    if r.random() < 0.5:
                        args += ['--em-subiters', r.choice([0, 1, 2, 3])]
                elif cmd == 'filter':
                    ss = [s for _, s, _ in t.vocab]
                    args = ['--min-score', repr(r.choice(ss + [0.0, -5.0]))]
                    if r.random() < 0.7:
                        args += ['-v', r.choice([0, 200, 256, size - 2])]
                    if r.random() < 0.3:
                        args += ['--force', 'false']
                else:
                    af = pattern_file(base + '.re', r.choice([any_text(), whole(rep(chr_(alpha[0]), 1, -1)), any_text()]))
                    args = ['--allow', af] + args_of(src) + ['--num-merges', r.choice([0, 1, 5, 20])]
                    if r.random() < 0.5:
                        args += ['--step', r.choice([1, 3, 7])]
                    if r.random() < 0.5:
                        args += ['--scale-factor', r.choice([1.0, 0.5, 1.5])]
                    if r.random() < 0.5:
                        args += ['--max-token-length', r.choice([2, 5, 60])]
                t = stage(c, cmd, ['-i', path] + args, out, t)
                path = out
            c.final = path if t else None
            c.texts = xs[:3] + [gen.text(r, alpha + 'é漢😀\x00\r\n', [(v, 0) for v, _, _ in t.vocab[-40:]] if t else (), 16, sp)
                                for _ in range(5)]
        return ('pipeline-%d' % i, run)

    def tree(i, first, seqs):
        """Sequences of the model that begin alike, each beginning run once."""
        def run(c):
            base = os.path.join(d, 'm%d' % i)
            os.makedirs(base, exist_ok=True)
            src = Source(base + '/s', raw=b'abb aab\0bb\0abab ba\0\0b\r\nabb\0' + 'é ab'.encode())
            with open(base + '/added', 'w') as f:
                json.dump(['ab', 'abb'], f)
            any_, few = pattern_file(base + '/any', any_text()), pattern_file(base + '/few', whole(rep(chr_('a', 'b'), 1, -1)))
            split = pattern_file(base + '/split', rep(chr_('a', 'b'), 1, -1))
            done = {}
            for seq in seqs:
                for k in range(1, len(seq) + 1):
                    key = json.dumps(seq[:k])
                    if key in done:
                        continue
                    path = '%s/%d' % (base, len(done))
                    op = seq[k - 1]
                    if k == 1:
                        args = ['-v', 266, '--insert-probability', 1] + args_of([src])
                        for x in op[1]:
                            args += ['--processor', x]
                        for x in op[2]:
                            args += ['--special', x]
                        args += {'added': ['--added', base + '/added'], 'split': ['--split', split], 'plain': []}[op[3]]
                        t = stage(c, 'generate', args, path, {
                            'vocab': [{'v': [b], 'k': True, 's': 'finite'} for b in range(256)], 'sp': [B(x) for x in op[2]], 'procs': op[1]})
                    else:
                        src_path, before = done[json.dumps(seq[:k - 1])]
                        if before is None:
                            done[key] = (path, None)
                            continue
                        size = len(before.vocab)
                        if op[0] == 'prune':
                            args = ['-v', {'none': size, 'some': size - 3, 'all': 0}[op[1]], '--em-subiters', op[2]] + args_of([src])
                        elif op[0] == 'filter':
                            args = ['--min-score', -1e9 if op[1] == 'low' else 0.0, '-v', size - 3 if op[2] == 'some' else 0]
                        else:
                            args = ['--num-merges', op[1], '--allow', any_ if op[2] == 'any' else few] + args_of([src])
                        t = stage(c, op[0], ['-i', src_path] + args, path, before)
                    done[key] = (path, t)
                    res.replayed += 1
            last = done[json.dumps(seqs[-1])]
            c.final = last[0] if last[1] else None
            c.texts = ['abb\r\naab', 'b<s>\x00', 'ébbab']
        return ('sequences-%d' % i, run)

    import mc
    groups = {}
    for line in mc.chosen(mc.model(res, 'MC_Pipeline'), 4000 if THOROUGH else 250):
        seq = json.loads(json.loads(line))
        groups.setdefault(json.dumps(seq[:2 if THOROUGH else 1]), []).append(seq)
    jobs = [tree(i, g, groups[g]) for i, g in enumerate(sorted(groups))]
    jobs += [job(i, random.Random(rng.random())) for i in range(scaled(60, 500))]
    cases = run_cases(res, jobs)
    # what the last stage left still tokenizes everything
    makers = []
    for c in cases:
        if getattr(c, 'final', None):
            def f(s, c=c):
                r = s.call({'op': 'load', 't': 0, 'file': c.final})
                if 'state' not in r:
                    s.log(e='holds', chk=['P23'], ok=False)
                    return
                st = r['state']
                # what the specification knows of it: the tokenizer that was loaded
                s.log(e='new', t=0, vocab=s.vocab(st['vocab']), procs=st['procs'], sp=st['specials'], r={'k': 'ok'}, chk=[])
                for x in c.texts:
                    s.encode(0, x, ['P23'], dec=True)
                    s.encode(0, x, ['P23'], how='ord', dec=True)
            makers.append((c.name, None, f))
    record_and_validate(res, makers)


# ----------------------------------------------------------------------- P27

def p27(res):
    import mc
    mc.commands(res)
