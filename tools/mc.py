"""The bounded models, and their behaviours replayed into the real code.

Each model (spec/MC_*.tla) is explored exhaustively by TLC, which checks it
against the declarative statements in it and prints, for every state worth
it, the call and what the specification says must come of it.  Here those
calls are made and the answers compared."""
import itertools, json, math, multiprocessing, os, random, shutil, subprocess
from concurrent.futures import ProcessPoolExecutor
from vlib import *

_drv = None
_dir = None


def _start(env):
    global _drv, _dir
    _drv = Driver(limit=60, env=env)
    _dir = None


def tmp():
    """A directory of this process for files of the replayed calls."""
    global _dir
    if _dir is None:
        _dir = os.path.join(scratch(), 'mc%d' % os.getpid())
        os.makedirs(_dir, exist_ok=True)
    return _dir


def _part(f, lines):
    n, bad = 0, []
    for line in lines:
        d = json.loads(json.loads(line))
        k, b = f(_drv, d)
        n += k
        bad += b
        if len(bad) > 20:
            break
    return n, bad[:20]


def chosen(lines, keep=None):
    """All of them, or the same selection for the same seed."""
    lines = sorted(set(lines))
    if keep is not None and len(lines) > keep:
        lines = random.Random('mc-%d' % SEED).sample(lines, keep)
    return lines


def replay(res, lines, f, workers=None, keep=None, env=None):
    """f(driver, behaviour) -> (how many calls, [(what, detail)])."""
    build()
    scratch()
    lines = chosen(lines, keep)
    workers = workers or CORES
    random.Random(7).shuffle(lines)
    parts = [lines[k::workers * 4] for k in range(workers * 4)]
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_start, initargs=(env,)) as ex:
        for n, bad in ex.map(_part, [f] * len(parts), parts):
            res.replayed += n
            for what, detail in bad:
                res.violate('replay of the model: ' + what, detail)


def model(res, module, part='-', deep=None):
    deep = THOROUGH if deep is None else deep
    return modelcheck(res, module, env={'MC_PART': part, 'MC_DEEP': '1' if deep else '0'}, raw=True,
                      mem='12g' if deep else '8g')


# Letters of the models, as other letters: single bytes, and characters of
# two bytes each.
ALPHABETS = [{97: b'a', 98: b'b'}, {97: 'é'.encode(), 98: 'è'.encode()}]


def into(h, x):
    return list(b''.join(h[c] for c in x))


def new(vocab, sp=(), procs=(), t=0):
    return {'op': 'new', 't': t, 'vocab': [[v, repr(float(s)), bool(k)] for v, s, k in vocab], 'procs': list(procs), 'specials': [list(s) for s in sp]}


def ids_of(r):
    return r['ids'] if 'ids' in r else None


# ------------------------------------------------------------- MC_Segment

HOWS = ['full', 'ord', 'model']


def _best(drv, d):
    cmds, want = [], []
    for h in ALPHABETS:
        cmds.append(new([(into(h, v), s, False) for v, s in d['v']]))
        want.append(None)
        for i, c in enumerate(d['c']):
            cmds.append({'op': 'encode', 't': 0, 'text': into(h, c['x']), 'how': HOWS[(i + len(d['v'])) % 3], 'p': 0.0})
            want.append(c['best'])
    got, bad = drv.many(cmds), []
    for c, w, g in zip(cmds, want, got):
        if w is None:
            continue
        if not (ids_of(g) in w if w else g.get('err') == 'NoPath'):
            bad.append(('not a best segmentation', {'vocab': d['v'], 'call': c, 'allowed': w, 'got': g}))
    return len(cmds), bad


def best(res):
    """P02: every small vocabulary with every small text."""
    replay(res, model(res, 'MC_Segment', 'best'), _best)


def _drop(drv, d):
    cmds = [new([(v, s, False) for v, s in d['v']])]
    want = [None]
    for i, c in enumerate(d['c']):
        for p, w, f in ((0.5, c['mid'], c['mayfail']), (0.0, c['zero'], not c['zero']), (1.0, c['one'], not c['one'])):
            cmds.append({'op': 'encode_many', 't': 0, 'text': c['x'], 'how': HOWS[i % 3], 'p': p, 'n': 12 if p == 0.5 else 2})
            want.append((w, f))
    got, bad = drv.many(cmds), []
    for c, w, g in zip(cmds, want, got):
        if w is None:
            continue
        outs = [o for o, _ in g.get('outs', [])] or [g]
        if c['p'] in (0.0, 1.0) and len(outs) > 1:
            bad.append(('different results of the same call', {'vocab': d['v'], 'call': c, 'got': g}))
        for o in outs:
            if not (o['ids'] in w[0] if 'ids' in o else o.get('err') == 'NoPath' and w[1]):
                bad.append(('dropout gave what it may not', {'vocab': d['v'], 'call': c, 'allowed': w[0], 'may_fail': w[1], 'got': o}))
    return len(cmds), bad


def drop(res):
    """P03: what dropout may give, and must at its ends."""
    replay(res, model(res, 'MC_Segment', 'drop'), _drop)


def _spell(drv, d):
    cmds = [new([(v, s, False) for v, s in d['v']])]
    asked = []
    for c in d['c']:
        for s in c['mid']:
            asked.append((len(cmds), c['x'], s))
            cmds.append({'op': 'decode', 't': 0, 'ids': s, 'inc': True})
    enc = []
    for i, c in enumerate(d['c']):
        for p in (0.0, 0.5, 1.0):
            enc.append((len(cmds), c['x'], p, c['mid'] if p == 0.5 else c['zero'] if p == 0.0 else c['one']))
            cmds.append({'op': 'encode', 't': 0, 'text': c['x'], 'how': HOWS[i % 3], 'p': p})
    got, bad = drv.many(cmds), []
    for k, x, s in asked:
        if got[k].get('text') != x:
            bad.append(('a segmentation does not decode to its text', {'vocab': d['v'], 'text': x, 'ids': s, 'got': got[k]}))
    back = []
    for k, x, p, w in enc:
        if 'ids' in got[k]:
            back.append((x, p, got[k]['ids']))
        elif w and p != 0.5:
            bad.append(('a text that can be segmented was not encoded', {'vocab': d['v'], 'text': x, 'p': p, 'got': got[k]}))
    n = len(cmds) + len(back)
    for (x, p, i), g in zip(back, drv.many([{'op': 'decode', 't': 0, 'ids': i, 'inc': True} for _, _, i in back])):
        if g.get('text') != x:
            bad.append(('what was encoded does not decode to the text', {'vocab': d['v'], 'text': x, 'p': p, 'ids': i, 'got': g}))
    return n, bad


def spell(res):
    """P01: every segmentation decodes to its text, and every encoding."""
    replay(res, model(res, 'MC_Segment', 'drop'), _spell)


def _nbest(drv, d):
    n, bad = 0, []
    for h in ALPHABETS:
        w = len(h[97])
        cs = [c for c in d['c'] if c['tops']]
        if not cs:
            continue
        most = max(len(c['tops']) for c in cs)
        ns = [1, 2, 3, most, most + 2]
        cmds = [new([(into(h, v), s, False) for v, s in d['v']]),
                {'op': 'lattice', 't': 0, 'texts': [into(h, c['x']) for c in cs], 'ns': ns, 'order': len(d['v']) % 2}]
        g = drv.many(cmds)[1]
        n += len(cs) * (len(ns) + 1)
        lens = [len(v) * w for v, _ in d['v']]

        def seg(p):
            at = 0
            for q in p:
                i = int(q['id'])
                if i >= len(lens) or q['pos'] != at or q['len'] != lens[i] or q['s'] != d['v'][i][1]:
                    return None
                at += lens[i]
            return [int(q['id']) for q in p]
        for c, s in zip(cs, g.get('sents', [{}] * len(cs))):
            tops = [(a, b) for a, b in c['tops']]
            ctx = {'vocab': d['v'], 'text': c['x'], 'alphabet': w}
            if not s:
                bad.append(('no lattice', dict(ctx, got=g)))
                continue
            b = seg(s['best'])
            if [tops[0][0], b] not in c['tops']:
                bad.append(('not the best path', dict(ctx, got=s['best'])))
            for r in s['nbest']:
                ps = [seg(p) for p in r['paths']]
                k = min(r['n'], len(tops))
                score = {json.dumps(q): a for a, q in tops}
                if len(ps) != k or len({json.dumps(p) for p in ps}) != k or \
                        [score.get(json.dumps(p)) for p in ps] != [a for a, _ in tops[:k]]:
                    bad.append(('not the n best', dict(ctx, n=r['n'], want=c['tops'], got=r['paths'])))
    return n, bad


def nbest(res):
    """P12: the n best, against all segmentations."""
    replay(res, model(res, 'MC_Segment', 'nbest'), _nbest)


def _post(drv, d):
    n, bad = 0, []
    for h, denom in zip(ALPHABETS, (1, 5)):
        cs = [c for c in d['c'] if c['z']]
        if not cs:
            continue
        vocab = [(into(h, v), math.log(w) - len(into(h, v)) * math.log(denom), False) for v, w in d['v']]
        texts = [into(h, c['x']) for c in cs]
        g = drv.many([new(vocab), {'op': 'lattice', 't': 0, 'texts': texts, 'ns': [], 'order': len(d['v']) % 2}])[1]
        n += len(cs)
        acc = [0.0] * len(vocab)
        for c, x, s in zip(cs, texts, g.get('sents', [{}] * len(cs))):
            ctx = {'vocab': d['v'], 'text': c['x'], 'denom': denom, 'want': [c['z'], c['num']]}
            if not s:
                bad.append(('no lattice', dict(ctx, got=g)))
                continue
            z = math.log(c['z']) - len(x) * math.log(denom)
            own = [k / c['z'] for k in c['num']]
            acc = [a + b for a, b in zip(acc, own)]
            near = lambda a, b: abs(float(a) - b) <= 1e-9 * max(1, abs(b))
            if not near(s['z'], z) or not near(s['zacc'], z):
                bad.append(('not the log probability', dict(ctx, got=[s['z'], s['zacc']])))
            if not all(map(near, s['own'], own)) or not all(map(near, s['acc'], acc)):
                bad.append(('not the expected counts', dict(ctx, got=[s['own'], s['acc']])))
    return n, bad


def post(res):
    """P13: probabilities and expected counts, against all segmentations."""
    replay(res, model(res, 'MC_Segment', 'post'), _post)


def _prefix(drv, d):
    n, bad = 0, []
    for h in ALPHABETS:
        cmds = [new([(into(h, v), s, False) for v, s in d['v']])]
        w = len(h[97])
        for c in d['c']:
            cmds.append({'op': 'prefix', 't': 0, 'text': into(h, c['x']), 'junk': [7] if len(c['x']) % 2 else []})
        n += len(cmds)
        for c, g in zip(d['c'], drv.many(cmds)[1:]):
            want = [[i, k * w] for i, k in c['found']]
            if g.get('found') != want:
                bad.append(('not the prefixes', {'vocab': d['v'], 'text': c['x'], 'width': w, 'want': want, 'got': g}))
    return n, bad


def prefix(res):
    """P11: every vocabulary of three short strings, every short text."""
    replay(res, model(res, 'MC_Segment', 'prefix'), _prefix)


# ------------------------------------------------------- MC_Special (P04)

def _special(procs):
    def f(drv, d):
        a, b = (13, 10) if procs else (97, 98)
        cmds = [new([([a], -1, False), ([b], -1, False), ([a, b], -1, False)], d['sp'], procs)]
        for c in d['c']:
            cmds += [{'op': 'encode', 't': 0, 'text': c['x'], 'how': 'full', 'p': 0.0},
                     {'op': 'encode', 't': 0, 'text': c['x'], 'how': 'ord', 'p': 0.0},
                     {'op': 'decode', 't': 0, 'ids': c['full'], 'inc': True}]
        got, bad = drv.many(cmds)[1:], []
        for i, c in enumerate(d['c']):
            for k, (g, w) in enumerate(zip(got[3 * i:3 * i + 3], ({'ids': c['full']}, {'ids': c['ord']}, {'text': c['back']}))):
                if g != w:
                    bad.append((['encode', 'encode_ordinary', 'decode'][k] + ' with special tokens',
                                {'specials': d['sp'], 'case': c, 'want': w, 'got': g}))
        return len(cmds), bad
    return f


_special_plain, _special_crlf = _special(()), _special(('crlf',))


def _splain(drv, d):
    return _special_plain(drv, d)


def _scrlf(drv, d):
    return _special_crlf(drv, d)


def special(res):
    """P04: every list of three special tokens, every short text."""
    replay(res, model(res, 'MC_Special', 'plain'), _splain)
    replay(res, model(res, 'MC_Special', 'crlf'), _scrlf)


# -------------------------------------------------------- MC_Decode (P10)

PIECES = [[195], [169], [226, 130], [172], [65], [], [240, 159], [152, 128, 195]]
CLASSES = [65, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245]


def _dec(r):
    return {'k': 'text', 'text': r['text']} if 'text' in r else {'k': 'err', 'e': r.get('err', str(r))}


def _decode_with(vocab, sp):
    def f(drv, ds):
        cmds = [new([(v, -1, False) for v in vocab], sp)]
        for d in ds:
            cmds += [{'op': 'decode', 't': 0, 'ids': d['ids'], 'inc': True},
                     {'op': 'decode', 't': 0, 'ids': d['ids'], 'inc': False},
                     {'op': 'decode', 't': 0, 'ids': d['ids'], 'inc': True, 'how': 'model'}]
        got, bad = drv.many(cmds)[1:], []
        for i, d in enumerate(ds):
            for k, g in enumerate(got[3 * i:3 * i + 3]):
                want = d[['with', 'without', 'm'][k]]
                if _dec(g) != want:
                    bad.append((['decode', 'decode without specials', 'decode of the model'][k],
                                {'ids': d['ids'], 'want': want, 'got': g}))
        return len(cmds), bad
    return f


_dec_ids, _dec_utf8 = _decode_with(PIECES, [[60], [195, 169]]), _decode_with([[c] for c in CLASSES], [])


def _dids(drv, d):
    return _dec_ids(drv, d)


def _dutf8(drv, d):
    return _dec_utf8(drv, d)


def bundle(lines, n=200):
    """Several behaviours of the same setting in one."""
    lines = sorted(set(lines))
    return [json.dumps('[' + ','.join(json.loads(x) for x in lines[i:i + n]) + ']') for i in range(0, len(lines), n)]


def decode(res):
    """P10: every short sequence of ids; every short sequence of byte classes."""
    replay(res, bundle(model(res, 'MC_Decode', 'ids')), _dids)
    replay(res, bundle(model(res, 'MC_Decode', 'utf8')), _dutf8)


# ------------------------------------------------------- MC_Unicode (P09)

def _forms(drv, ds):
    cmds, want = [], []
    for d in ds:
        for f in ('nfc', 'nfd', 'nfkc', 'nfkd'):
            cmds.append({'op': 'preproc', 'proc': f, 'text': d['x']})
            want.append(d[f])
    bad = [('normal form', {'call': c, 'want': w, 'got': g})
           for c, w, g in zip(cmds, want, drv.many(cmds)) if g != {'pre': w, 'post': c['text']}]
    return len(cmds), bad


def _steps(drv, ds):
    bad, n = [], 0
    every = [([b], -1, False) for b in range(256)]
    for d in ds:
        g = drv.many([new(every, (), d['procs']), {'op': 'encode', 't': 0, 'text': d['x'], 'how': 'full', 'p': 0.0},
                      {'op': 'encode', 't': 0, 'text': d['x'], 'how': 'ord', 'p': 0.0}])[1:]
        n += 2
        # each byte is its own token
        if any(r.get('ids') != d['y'] for r in g):
            bad.append(('the steps of a tokenizer', {'procs': d['procs'], 'text': d['x'], 'want': d['y'], 'got': g}))
    return n, bad


def unicode(res):
    """P09: every short sequence of characters; every short list of steps."""
    replay(res, bundle(model(res, 'MC_Unicode', 'forms'), 100), _forms)
    replay(res, bundle(model(res, 'MC_Unicode', 'steps'), 50), _steps)


# ------------------------------------------------- MC_Lib (P05, P06, P24)

def _entry(e):
    return [e[0], float(e[1]), bool(e[2])]


def _calls(h, d, t0=0):
    """The calls of a history.  Slots of other histories are not disturbed."""
    out = []
    for i, o in enumerate(h):
        k, t = o['op'], o['t']
        if k == 'new':
            out.append(new([(e['v'], e['s'], e['k']) for e in o['vocab']], o['sp'], o['procs'], t))
        elif k == 'addsp':
            out.append({'op': 'add_special', 't': t, 'toks': o['toks']})
        elif k == 'addbase':
            out.append({'op': 'add_base', 't': t, 'toks': [[e['v'], repr(float(e['s'])), e['k']] for e in o['toks']]})
        elif k == 'clone':
            out.append({'op': 'clone', 't': o['f'], 'to': t})
        elif k == 'save':
            out.append({'op': 'save', 't': t, 'file': d} if len(h) % 2 else {'op': 'to_str', 't': t, 's': 1})
        elif k == 'load':
            out.append({'op': 'load', 't': t, 'file': d} if len(h) % 2 else {'op': 'from_str', 't': t, 's': 1})
    return out


def _state_want(s):
    vocab = [_entry(e) for e in s['vocab']]
    return {'vocab': vocab, 'base_api': vocab, 'specials': s['sp'], 'procs': s['procs'], 'size': len(vocab) + len(s['sp']),
            'base': len(vocab), 'special': len(s['sp']), 'model_size': len(vocab)}


def _state_got(g):
    if 'vocab' not in g:
        return g
    f = lambda v: [[x[0], None if x[1] is None else float(x[1]), x[2]] if x else x for x in v]
    return dict(g, vocab=f(g['vocab']), base_api=f(g['base_api']))


def _lib(drv, d):
    cmds = _calls(d['h'], os.path.join(tmp(), 'doc.json'))
    k = len(cmds)
    want = []
    for t, s, look in d['slots']:
        cmds.append({'op': 'state', 't': t})
        want.append(('state', _state_want(s)))
        toks = [q[0] for q in look['toks']]
        cmds.append({'op': 'query', 't': t, 'ids': list(range(len(look['ids']))), 'toks': toks})
        want.append(('look-ups', (s, look)))
    got = drv.many(cmds)
    bad = [('a call of the history failed', {'h': d['h'], 'call': c, 'got': g}) for c, g in zip(cmds[:k], got[:k])
           if not ('ok' in g or 'len' in g)]
    for c, (what, w), g in zip(cmds[k:], want, got[k:]):
        if what == 'state':
            if _state_got(g) != w:
                bad.append(('the tokenizer after a history', {'h': d['h'], 'slot': c['t'], 'want': w, 'got': g}))
        else:
            s, look = w
            n = len(s['vocab'])
            ids = [{'id': str(i), 'tok': q[0], 'is_base': q[1], 'is_sp': q[2]} for i, q in enumerate(look['ids'])]
            gids = [{k: q[k] for k in ('id', 'tok', 'is_base', 'is_sp')} for q in g.get('ids', [])]
            rest = [(q['sp'], [list(b) for b in _state_got({'vocab': q['base'], 'base_api': q['model']})['vocab']]) for q in g.get('ids', [])]
            rwant = [([s['sp'][i - n]] if n <= i < n + len(s['sp']) else [], [_entry(s['vocab'][i])] if i < n else [])
                     for i in range(len(look['ids']))]
            toks = [{'v': q[0], 'tok': q[1], 'base': q[2], 'model': q[2], 'sp': q[3]} for q in look['toks']]
            gtoks = [{k: q[k] for k in ('v', 'tok', 'base', 'model', 'sp')} for q in g.get('toks', [])]
            if gids != ids or toks != gtoks or rest != rwant:
                bad.append(('the look-ups after a history', {'h': d['h'], 'slot': c['t'], 'want': look, 'got': g}))
    return len(cmds), bad


def lib(res):
    """P05: every short history of calls that make or change tokenizers."""
    replay(res, model(res, 'MC_Lib'), _lib)


def kept(res):
    """P06: those of them that write and read."""
    replay(res, [x for x in model(res, 'MC_Lib') if 'load' in x], _lib)


# The same behaviours through the Python module.

def _doc(h, d):
    """A definition file of a vocabulary, for the module has no constructor."""
    from train_lib import write_tok
    write_tok(d, [(bytes(e['v']), float(e['s']), e['k']) for e in h['vocab']], h['procs'], [bytes(x).decode() for x in h['sp']])
    with open(d) as f:
        return f.read()


_py = None


def _module(drv):
    """The Python driver of this worker."""
    global _py
    if _py is None:
        import py_check
        _py = Driver(argv=['/usr/bin/python3', py_check.PYDRIVER, os.path.join(BUILD, 'pymod')], limit=60)
    return _py


def _pylib(drv, d):
    py, h = _module(drv), d['h']
    doc, out = os.path.join(tmp(), 'pydoc.json'), os.path.join(tmp(), 'pyout.json')
    cmds = []
    for o, c in zip(h, _calls(h, out)):
        if o['op'] == 'addbase':
            return 0, []
        if o['op'] == 'new':
            # a file read later would be overwritten meanwhile
            c = {'op': 'from_str', 't': o['t'], 'json': _doc(o, doc)}
        elif o['op'] == 'clone':
            c = {'op': 'copy' if len(cmds) % 2 else 'pickle', 't': o['f'], 'to': o['t'], 'protocol': len(h) + 1}
        cmds.append(c)
    k = len(cmds)
    for t, s, look in d['slots']:
        cmds += [{'op': 'state', 't': t}, {'op': 'query', 't': t, 'ids': list(range(len(look['ids']))), 'toks': [q[0] for q in look['toks']]}]
    got = py.many(cmds)
    bad = [('a call of the history failed in Python', {'h': h, 'call': c, 'got': g}) for c, g in zip(cmds[:k], got[:k]) if 'ok' not in g and 'str' not in g]
    for i, (t, s, look) in enumerate(d['slots']):
        ent = [[e[0], float(e[1]).hex()] for e in s['vocab']]
        n = len(ent)
        want = {'sp': s['sp'], 'size': n + len(s['sp']), 'base': n, 'special': len(s['sp']), 'vocab': ent}
        if got[k + 2 * i] != want:
            bad.append(('the tokenizer after a history in Python', {'h': h, 'slot': t, 'want': want, 'got': got[k + 2 * i]}))
        want = {'ids': [{'tok': q[0], 'sp': [s['sp'][j - n]] if n <= j < n + len(s['sp']) else [], 'base': [ent[j]] if j < n else [],
                         'is_sp': q[2], 'is_base': q[1]} for j, q in enumerate(look['ids'])],
                'toks': [{'tok': q[1], 'base': q[2], 'sp': q[3]} for q in look['toks']]}
        if got[k + 2 * i + 1] != want:
            bad.append(('the look-ups after a history in Python', {'h': h, 'slot': t, 'want': want, 'got': got[k + 2 * i + 1]}))
    return len(cmds), bad


def _load_py(py, vocab, sp, procs):
    return {'op': 'from_str', 't': 0, 'json': _doc({'vocab': [{'v': v, 's': s, 'k': False} for v, s in vocab], 'procs': procs, 'sp': sp},
                                                   os.path.join(tmp(), 'pydoc.json'))}


def _pyspecial(drv, d):
    py = _module(drv)
    cmds = [_load_py(py, [([97], -1), ([98], -1), ([97, 98], -1)], [x for k, x in enumerate(d['sp']) if x not in d['sp'][:k]], [])]
    want = [{'ok': True}]
    for c in d['c']:
        cmds += [{'op': 'encode', 't': 0, 'text': c['x'], 'how': 'full'}, {'op': 'encode', 't': 0, 'text': c['x'], 'how': 'ord'},
                 {'op': 'decode', 't': 0, 'ids': c['full'], 'inc': True}]
        want += [{'ids': c['full']}, {'ids': c['ord']}, {'text': c['back']}]
    xs = [c['x'] for c in d['c']]
    cmds += [{'op': 'encode_batch', 't': 0, 'texts': xs, 'how': how} for how in ('full', 'ord')]
    want += [{'batch': [c['full'] for c in d['c']]}, {'batch': [c['ord'] for c in d['c']]}]
    cmds.append({'op': 'decode_batch', 't': 0, 'ids': [c['full'] for c in d['c']], 'inc': True})
    want.append({'batch': [c['back'] for c in d['c']]})
    bad = [('in Python: ' + c['op'], {'specials': d['sp'], 'call': c, 'want': w, 'got': g}) for c, w, g in zip(cmds, want, py.many(cmds)) if g != w]
    return len(cmds), bad


def _pydec(drv, ds):
    py = _module(drv)
    cmds, want = [_load_py(py, [(v, -1) for v in PIECES], [[60], [195, 169]], [])], [{'k': 'ok'}]
    for d in ds:
        cmds += [{'op': 'decode', 't': 0, 'ids': d['ids'], 'inc': True}, {'op': 'decode', 't': 0, 'ids': d['ids'], 'inc': False}]
        want += [{'k': x['k']} if x['k'] == 'err' else x for x in (d['with'], d['without'])]
    bad = []
    for c, w, g in zip(cmds[1:], want[1:], py.many(cmds)[1:]):
        if ({'k': 'err'} if g.get('err') == 'TokenGeeXError' else {'k': 'text', 'text': g.get('text')}) != w:
            bad.append(('in Python: decode', {'call': c, 'want': w, 'got': g}))
    return len(cmds), bad


def py(res):
    """P24: histories, special tokens and decoding, through the module."""
    build('py')
    replay(res, [x for x in model(res, 'MC_Lib') if 'addbase' not in x], _pylib)
    replay(res, model(res, 'MC_Special', 'plain'), _pyspecial, keep=None if THOROUGH else 400)
    replay(res, bundle(model(res, 'MC_Decode', 'ids')), _pydec)


# ------------------------------------------------------ MC_Formats (P07)

def _text_of(v):
    k = v['k']
    if k == 'str':
        return json.dumps(bytes(v['x']).decode())
    if k == 'num':
        return repr(v['x'] / 4)
    if k == 'bool':
        return 'true' if v['x'] else 'false'
    if k == 'null':
        return 'null'
    if k == 'arr':
        return '[' + ','.join(map(_text_of, v['x'])) + ']'
    return '{' + ','.join('%s:%s' % (json.dumps(f), _text_of(x)) for f, x in v['x']) + '}'


def _formats(drv, ds):
    cmds = [{'op': 'from_str', 't': 9, 'json': _text_of(d['d'])} for d in ds]
    # as a file, too
    name = os.path.join(tmp(), 'doc.json')
    bad = []
    got = drv.many(cmds)
    for i, (d, c, g) in enumerate(zip(ds, cmds, got)):
        both = [g]
        if i % 4 == 0:
            with open(name, 'w') as f:
                f.write(c['json'])
            both.append(drv.many([{'op': 'load', 't': 9, 'file': name}])[0])
        for g in both:
            if not d['ok']:
                if 'err' not in g:
                    bad.append(('a wrong definition was not refused', {'json': c['json'], 'got': g}))
            else:
                w = _state_want({'vocab': [[e['v'], e['s'] / 4, e['k']] for e in d['vocab']],
                                 'sp': [x for k, x in enumerate(d['sp']) if x not in d['sp'][:k]], 'procs': d['procs']})
                if 'state' not in g or _state_got(g['state']) != w:
                    bad.append(('a definition was not read as what it says', {'json': c['json'], 'want': w, 'got': g}))
    return len(cmds), bad


def formats(res):
    """P07: everything that can be wrong at one place (deep: two places)."""
    replay(res, bundle(model(res, 'MC_Formats'), 40), _formats)


# -------------------------------------------------------- MC_Batch (P08)

def _batch(drv, d):
    n, fails = d['n'], set(d['fails'])
    word = ['', 'ab', 'ba', 'aab', 'b', 'abab', 'aaaa']
    bad, k = [], 0
    # Longer batches of the same kind: several of each element.
    for times, threads in ((1, 1), (1, 2), (1, 3), (1, 8), (7, 3), (40, 8)):
        xs = [word[i % 7] + ('c' * (i in fails)) for i in range(1, n + 1) for _ in range(times)]
        ids = [[0] * (i % 3) + ([9, i] if i in fails else [1]) for i in range(1, n + 1) for _ in range(times)]
        cmds = [new([([97], -1, False), ([98], -1, False), ([97, 98], -1.5, False)])]
        cmds += [{'op': 'encode_batch', 't': 0, 'texts': [B(x) for x in xs], 'how': how, 'p': 0.0, 'threads': threads} for how in ('full', 'ord')]
        cmds += [{'op': 'decode_batch', 't': 0, 'ids': ids, 'inc': True, 'threads': threads}]
        cmds += [{'op': 'encode', 't': 0, 'text': B(x), 'how': 'full', 'p': 0.0} for x in xs]
        cmds += [{'op': 'decode', 't': 0, 'ids': i, 'inc': True} for i in ids]
        got = drv.many(cmds)
        e, o = got[4:4 + len(xs)], got[4 + len(xs):]
        k += 3
        for c, g, single in ((cmds[1], got[1], e), (cmds[2], got[2], e), (cmds[3], got[3], o)):
            if not fails:
                ok = g.get('batch') == single
            else:
                ok = 'err' in g and any(g == s for s in single if 'err' in s)
            if not ok:
                bad.append(('a batch is not its single calls', {'call': c, 'singles': single, 'got': g}))
    return k, bad


def batch(res):
    """P08: every batch of a few elements with every set of failing ones."""
    replay(res, model(res, 'MC_Batch'), _batch)


# ------------------------------------------------------- the commands

def tgx(args, threads=None):
    env = {k: v for k, v in os.environ.items() if k != 'RUST_LOG'}
    env['RUST_BACKTRACE'] = '0'
    if threads:
        env['RAYON_NUM_THREADS'] = str(threads)
    try:
        p = subprocess.run([CLI] + [str(a) for a in args], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
        return 'ok' if p.returncode == 0 else 'crash'
    except subprocess.TimeoutExpired:
        return 'hang'


def fresh(*names):
    out = [os.path.join(tmp(), n) for n in names]
    for f in out:
        if os.path.exists(f):
            os.remove(f)
    return out


def put(name, data):
    f = os.path.join(tmp(), name)
    with open(f, 'wb') as g:
        g.write(data if isinstance(data, bytes) else data.encode())
    return f


def grouped(lines, key, val):
    """All outcomes the model allows of each configuration."""
    out = {}
    for line in set(lines):
        d = json.loads(json.loads(line))
        out.setdefault(json.dumps(key(d), sort_keys=True), []).append(val(d))
    return [json.dumps(json.dumps({'key': json.loads(k), 'outs': v})) for k, v in out.items()]


def _filter(drv, d):
    from train_lib import read_tok, write_tok
    k = d['key']
    inp, out = fresh('in', 'out')
    write_tok(inp, [(bytes(e['v']), float(e['s']), e['k']) for e in k['i']], ['nfc'], ['<s>'])
    args = ['filter', '-i', inp, '-o', out, '-v', k['size'], '--force', 'true' if k['force'] else 'false']
    if k['min']:
        args += ['--min-score', float(k['min'][0])]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    by = {bytes(e['v']): (float(e['s']), e['k']) for e in k['i']}
    ok = t is not None and [list(v) for v, _, _ in t.vocab] in d['outs'] and t.procs == ['nfc'] and t.sp == ['<s>'] and \
        all(by.get(v) == (s, kk) for v, s, kk in t.vocab)
    return 1, [] if ok else [('filter', {'case': k, 'argv': args, 'allowed': d['outs'], 'result': r, 'got': t and t.vocab})]


def filter(res):
    """P14: every vocabulary of up to three entries, filtered in every way."""
    lines = grouped(model(res, 'MC_Filter'), lambda d: {k: d[k] for k in ('i', 'size', 'min', 'force')}, lambda d: d['out'])
    replay(res, lines, _filter, keep=None if THOROUGH else 1500)


def _samples_file(name, samples):
    return put(name, b'\0'.join(bytes(x) for x, n in samples for _ in range(n)))


ALLOWS = [None, '[^\\n]', 'b', '^a+b$']


def _merge(drv, d):
    from train_lib import read_tok, write_tok
    c = d['key']
    inp, out = fresh('in', 'out')
    base = [(b'a', -64.0, True), (b'b', -64.0, False)]
    write_tok(inp, base, ['nfc'], ['<s>'])
    src = _samples_file('s', c['samples'])
    allow = put('re', ALLOWS[c['allow']])
    o = c['o']
    args = ['merge', '-i', inp, '-o', out, '--allow', allow, '--train', 's:' + src, '--num-merges', o['merges'], '--step', o['step'],
            '--scale-factor', o['mul'] / 100, '--max-token-length', o['maxlen']]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    allowed = [[v for v, _ in x['out']] for x in d['outs']]
    ok = t is not None and t.vocab[:2] == base and t.procs == ['nfc'] and t.sp == ['<s>'] and \
        [list(v) for v, _, _ in t.vocab[2:]] in allowed and not any(k for _, _, k in t.vocab[2:])
    if ok:
        # the scores: three quarters of the sum of a pair that makes the token
        sc = {v: s for v, s, _ in t.vocab}
        seen = {b'a', b'b'}
        for v, s, _ in t.vocab[2:]:
            if not any(v[:i] in seen and v[i:] in seen and abs(0.75 * (sc[v[:i]] + sc[v[i:]]) - s) < 1e-9 for i in range(1, len(v))):
                ok = False
            seen.add(v)
    return 1, [] if ok else [('merge', {'case': c, 'argv': args, 'allowed': allowed, 'result': r, 'got': t and t.vocab})]


def merge(res):
    """P15: every sample of up to four letters (two shorter ones), merged."""
    lines = grouped(model(res, 'MC_Merge'), lambda d: d['cfg'], lambda d: {'out': d['out']})
    replay(res, lines, _merge, keep=None if THOROUGH else 2500)


def _prune(drv, d):
    from train_lib import read_tok, write_tok
    c = d['key']
    if any(o['end'] != 'over' for o in d['outs']):
        return 0, []
    inp, out = fresh('in', 'out')
    write_tok(inp, [(bytes(e['v']), float(e['s']), e['k']) for e in c['in']], ['nfc'], ['<s>'])
    src = _samples_file('s', c['samples'])
    args = ['prune', '-i', inp, '-o', out, '-v', c['target'], '--train', 's:' + src, '--shrink-factor', c['num'] / 4, '--em-subiters', 0,
            '--dropout', 0]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    allowed = [[[e['v'], e['s'], e['k']] for e in x['out']] for x in d['outs']]
    ok = t is not None and t.procs == ['nfc'] and t.sp == ['<s>'] and [[list(v), s, k] for v, s, k in t.vocab] in allowed
    return 1, [] if ok else [('prune', {'case': c, 'argv': args, 'allowed': allowed, 'result': r, 'got': t and t.vocab})]


def prune(res):
    """P16: small vocabularies, pruned to every size."""
    lines = grouped(model(res, 'MC_Prune'), lambda d: dict(d['cfg'], samples=d['samples']), lambda d: {'end': d['end'], 'out': d['out']})
    replay(res, lines, _prune, keep=None if THOROUGH else 2500)


def _estimate(drv, d):
    from train_checks import DUMMY, NEVER, digamma, inverse_digamma
    from train_lib import read_tok, write_tok
    c, den = d['cfg'], d['den']
    entries = [(bytes(e['v']), e['k']) for e in c['vocab']]
    at = sum(len(v) for v, _ in entries) % (len(entries) + 1)
    full = [(v, math.log(w) - len(v) * math.log(3), k) for (v, k), w in zip(entries, c['w'])]
    full.insert(at, (NEVER, 0.0, True))
    full.append((DUMMY, -1.0, False))
    inp, out = fresh('in', 'out')
    write_tok(inp, full, ['nfc'], ['<s>'])
    xs = [bytes(x) for x, n in d['samples'] for _ in range(n)]
    xs = xs[at % len(xs):] + xs[:at % len(xs)]
    args = ['prune', '-i', inp, '-o', out, '-v', len(full) - 1, '--train', 's:' + put('s', b'\0'.join(xs)), '--em-subiters', 1, '--dropout', 0]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    if r == 'crash' and d['fails']:
        return 1, []
    ok = t is not None and t.procs == ['nfc'] and t.sp == ['<s>']
    if ok:
        got = {v: s for v, s, _ in t.vocab}
        keep = dict(entries)
        keep[NEVER] = True
        ok = len(got) == len(t.vocab) and NEVER in got and all(keep.get(v) == k for v, _, k in t.vocab) and \
            all(isinstance(s, (int, float)) for s in got.values())
    if ok:
        # scores are digamma of the count less digamma of the sum of all counts
        total = digamma(0.5) - got[NEVER]
        stay, tie = 0.5, False
        for i, ((v, k), n) in enumerate(zip(entries, d['num'])):
            want = max(n / den, 0.5)
            survives = k or 2 * n >= den
            tie = tie or (not k and 2 * n == den)
            stay += want if survives else 0
            if v in got:
                ok = ok and survives and abs(inverse_digamma(got[v] + total) - want) <= 1e-6 * want
            else:
                ok = ok and (not survives or i + 1 in d['go'] or (not k and 2 * n == den))
        ok = ok and (tie or abs(inverse_digamma(total) - stay) <= 1e-5 * stay)
    return 1, [] if ok else [('estimate', {'case': d, 'argv': args, 'result': r, 'got': t and t.vocab})]


def estimate(res):
    """P17: small vocabularies and samples, every entry's exact expected count."""
    replay(res, list(model(res, 'MC_Estimate')), _estimate, keep=None if THOROUGH else 2500)


def _generate(drv, d):
    from train_lib import read_tok, render
    c = d['key']
    out, = fresh('out')
    args = ['generate', '-v', c['size'], '-o', out, '--train', 's:' + _samples_file('s', c['samples']), '--insert-probability', 1,
            '--max-token-length', c['maxlen'], '--processor', 'nfc', '--special', '<s>']
    for k in ('allow', 'split'):
        if c[k]:
            args += ['--' + k, put(k, '(?:%s)' % render(c[k][0]))]
    for k in ('added', 'suggested'):
        if c[k]:
            args += ['--' + k, put(k, json.dumps([bytes(x).decode() for x in c[k]]))]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    ok = t is not None and t.procs == ['nfc'] and t.sp == ['<s>']
    if ok:
        single = {v: (s, k) for v, s, k in t.vocab if len(v) == 1}
        multi = sorted([list(v), k] for v, s, k in t.vocab if len(v) != 1)
        allowed = [sorted([v, k] for v, k, _ in o['out']) for o in d['outs']]
        base = single.get(b'a', (0.0, True))[0]
        ok = len(single) == 256 and all(x == (base, True) for x in single.values()) and multi in allowed and \
            all(a[1] >= b[1] for a, b in zip(t.vocab, t.vocab[1:]))
        if ok:
            o = next(o for o in d['outs'] if sorted([v, k] for v, k, _ in o['out']) == multi)
            w = {bytes(v): n for v, _, n in o['out']}
            top = o['top']
            total = 256 * top + sum(w.values())
            ok = all(abs(s - math.log(w.get(v, top) / total)) < 1e-9 for v, s, _ in t.vocab)
    return 1, [] if ok else [('generate', {'case': c, 'argv': args, 'allowed': d['outs'], 'result': r,
                                           'got': t and [x for x in t.vocab if len(x[0]) != 1] + t.vocab[:2]})]


def generate(res):
    """P18, P19: small samples with every combination of the options."""
    lines = grouped(model(res, 'MC_Generate'), lambda d: d['cfg'], lambda d: {'top': d['top'], 'out': d['out']})
    replay(res, lines, _generate)


# ---------------------------------------------------- MC_Regex (P20, P21)

def _args(pats):
    from train_lib import render
    out = []
    for p in pats:
        out += ['-p', render(p)]
    return out


def _accept(drv, d):
    out, = fresh('re')
    args = ['regex', '-o', out] + _args(d['pats'])
    if tgx(args) != 'ok' or not os.path.exists(out):
        return 1, [('composing patterns failed', {'argv': args})]
    g = drv.many([{'op': 'regex_match', 'file': out, 'texts': [x for x, _ in d['c']]}])[0]
    if g.get('got') != [w for _, w in d['c']]:
        return 1, [('what the composed pattern accepts', {'argv': args, 'want': d['c'], 'got': g})]
    return 1, []


def _mine(drv, d):
    out, = fresh('out')
    texts = b'\0'.join(bytes(x) for x, _ in d['c'] if x)
    args = ['mine', '-n', 100, '-o', out, '--train', 's:' + put('s', texts)] + _args(d['pats'])
    r = tgx(args)
    try:
        got = [list(x.encode()) for x in json.load(open(out))]
    except Exception:
        got = None
    want = {json.dumps(v): n for v, n in d['idioms']}
    ok = r == 'ok' and got is not None and sorted(json.dumps(v) for v in got) == sorted(want) and \
        all(want[json.dumps(a)] >= want[json.dumps(b)] for a, b in zip(got, got[1:]))
    return 1, [] if ok else [('mine', {'argv': args, 'texts': list(texts), 'want': d['idioms'], 'result': r, 'got': got})]


def accept(res):
    """P21: every small pattern, and unions, on every small text."""
    replay(res, model(res, 'MC_Regex'), _accept)


def mine(res):
    """P20: the matches of every small pattern in every small text."""
    replay(res, model(res, 'MC_Regex'), _mine)


# ------------------------------------------------------ MC_Samples (P22)

def _used(drv, d):
    """The samples a command used, with their numbers, from the expected
    counts that scores are made of: generate, with everything a candidate."""
    from train_lib import read_tok
    out, = fresh('out')
    args = ['generate', '-v', 300, '-o', out, '--insert-probability', 1, '--max-token-length', 24,
            '--split', put('split', '^[ab]+$'), '--allow', put('allow', '^[ab]+$')]
    for i, f in enumerate(d['files']):
        a = 's%d:%s' % (i, put('s%d' % i, bytes(f['raw'])))
        if f['num'] != f['den']:
            a += ':%r' % (f['num'] / f['den'])
        args += ['--train', a]
    r = tgx(args)
    t = read_tok(out) if r == 'ok' else None
    # how often each text occurs within the samples used (once per sample)
    freq = {}
    for x in d['used']:
        x = bytes(x)
        for v in {x[i:j] for i in range(len(x)) for j in range(i + 1, len(x) + 1)}:
            freq[v] = freq.get(v, 0) + 1
    ok = t is not None
    if ok:
        top = max(freq.values(), default=1)
        w = {v: n * len(v) for v, n in freq.items() if len(v) > 1}
        total = 256 * top + sum(w.values())
        multi = {v for v, _, _ in t.vocab if len(v) > 1}
        ok = multi == set(w) and all(abs(s - math.log(w.get(v, top) / total)) < 1e-9 for v, s, _ in t.vocab)
    out2, = fresh('out2')
    args2 = ['mine', '-n', 100, '-o', out2, '-p', '[ab]+'] + args[args.index('--train'):] if '--train' in args else None
    r2 = tgx(args2)
    try:
        got2 = [x.encode() for x in json.load(open(out2))]
    except Exception:
        got2 = None
    n2 = {}
    for x in d['used']:
        n2[bytes(x)] = n2.get(bytes(x), 0) + 1
    ok2 = r2 == 'ok' and got2 is not None and sorted(got2) == sorted(n2) and all(n2[a] >= n2[b] for a, b in zip(got2, got2[1:]))
    bad = []
    if not ok:
        bad.append(('the samples used by generate', {'case': d, 'argv': args, 'result': r, 'got': t and [x for x in t.vocab if len(x[0]) > 1]}))
    if not ok2:
        bad.append(('the samples used by mine', {'case': d, 'argv': args2, 'result': r2, 'got': got2}))
    return 2, bad


def samples(res):
    """P22: every short file of samples, with every proportion."""
    replay(res, model(res, 'MC_Samples'), _used, keep=None if THOROUGH else 1100)


# ----------------------------------------------------- MC_Fold (P25)

def _fold(drv, d):
    bad = []
    n = len(d['samples'])
    g = drv.many([{'op': 'par_chunk', 'n': n, 'f': d['f'], 'threads': d['threads']}])[0]
    if not (isinstance(g.get('size'), int) and g['size'] >= 1):
        bad.append(('the size of a chunk', {'case': d, 'got': g}))
    # x once a sample, y as often as it occurs: counted by mine
    words = []
    for s in d['samples']:
        words.append(' '.join(['x'] * s['x'] + ['y'] * s['y']) or '-')
    out, = fresh('out')
    args = ['mine', '-n', 10, '-o', out, '-p', '[xy]', '--train', 's:' + put('s', '\0'.join(words))]
    r = tgx(args, threads=d['threads'])
    want = {k: v for k, v in d['total'].items() if v}
    try:
        got = json.load(open(out))
    except Exception:
        got = None
    if r != 'ok' or got is None or sorted(got) != sorted(want) or any(want[a] < want[b] for a, b in zip(got, got[1:])):
        bad.append(('counting over chunks', {'case': d, 'argv': args, 'result': r, 'got': got}))
    return 2, bad


def fold(res):
    """P25: every list of a few samples over every number of workers."""
    replay(res, model(res, 'MC_Fold'), _fold)


# ----------------------------------------------------- MC_Commands (P27)

SAMPLE = b'abab aab\0bba ab\0\0abb'


def _flags(cmd, inputs, out, bad):
    """The arguments of a command; inputs: name -> path or text."""
    g, a = bad.get('flag'), [cmd]
    if cmd != 'regex' or out:
        a += ['-o', out]
    for k in ('source', 'source2'):
        if k in inputs and g != 'nosource':
            a += ['--train', inputs[k]]
    if 'input' in inputs and not (cmd == 'filter' and g == 'required'):
        a += ['-i', inputs['input']]
    if cmd in ('generate', 'prune') and g != 'required':
        a += ['-v', 'many' if g == 'number' else 262]
    if cmd == 'generate':
        a += ['--insert-probability', 1, '--special', '<s>', '--processor', inputs['processor']]
        for k in ('added', 'suggested', 'allow', 'split'):
            a += ['--' + k, inputs[k]]
    if cmd == 'prune':
        a += ['--em-subiters', 1, '--dropout', 0]
    if cmd == 'filter':
        a += ['-v', 255, '--min-score', 'low' if g == 'number' else -1]
    if cmd == 'merge':
        a += ['--num-merges', '-1' if g == 'number' else 2]
        if g != 'required':
            a += ['--allow', inputs['allow']]
    if cmd == 'mine' and g != 'required':
        a += ['-n', '2.5' if g == 'number' else 50]
    if 'pattern' in inputs and g != 'nopattern':
        a += ['-p', '[a-c]+', '-p', inputs['pattern']]
    if g == 'unknown':
        a += ['--bogus', '1']
    return a


def _good_input():
    from train_lib import write_tok
    f = os.path.join(tmp(), 'good.json')
    write_tok(f, [(bytes([b]), -6.0, b < 200) for b in range(256)] +
              [(b'ab', -3.0, False), (b'ba', -4.0, False), (b'abb', -5.0, False), (b'bb', -4.5, True), (b'aab', -7.0, False),
               (b' a', -4.25, False), (b'b ', -4.75, False)], ['nfc'], ['<s>'])
    return f


def _wrong(kind, fault, good):
    """What stands for an input that is wrong in this way."""
    base = os.path.join(tmp(), 'bad')
    if fault == 'missing':
        p = base + '.missing'
        return 's:' + p if kind.startswith('source') else p
    if fault == 'dir':
        os.makedirs(base + '.dir', exist_ok=True)
        return 's:' + base + '.dir' if kind.startswith('source') else base + '.dir'
    if kind.startswith('source'):
        f = put('bad.src', SAMPLE if fault != 'utf8' else b'ab\0a\xc3\0ba')
        return {'format': f if kind == 'source' else 'a:%s:1:2' % f, 'proportion': 's:%s:%s' % (f, 'half' if kind == 'source' else ''), 'utf8': 's:' + f}[fault]
    if kind == 'input':
        with open(good) as f:
            text = f.read()
        return put('bad.tok', text[:-9] if fault == 'broken' else text.replace('"score"', '"scores"', 1))
    if kind in ('added', 'suggested'):
        return put('bad.list', {'json': '["ab", "ba"', 'type': '["ab", 7]', 'null': '["ab", null]', 'nested': '["ab", ["ba"]]',
                                'object': '{"ab": 1}', 'string': '"ab"', 'utf8': b'["ab", "b\xc3"]'}[fault])
    if kind in ('allow', 'split'):
        return put('bad.re', '(ab')
    return {'name': 'nfq', 'syntax': '[a'}[fault]


def _seen(cmd, path):
    """What an output says, whatever the order of its ties."""
    from train_lib import read_tok
    try:
        with open(path) as f:
            text = f.read()
        if cmd == 'regex':
            return text
        if cmd == 'mine':
            return json.dumps(sorted(json.loads(text)))
    except (OSError, ValueError):
        return None
    t = read_tok(path)
    return t and json.dumps([sorted([list(v), '%.9f' % s, k] for v, s, k in t.vocab), t.procs, t.sp])


_expected = {}


NEAR = ['end' + x for x in ('.tmp', '~', '.bak', '.part', '.partial', '.new', '.old', '.swp', '.json', '.json.tmp', '.lock', '0', '.0', '.1')] + \
    ['.end', '.end.tmp', '.end.swp', 'tmp', 'en', '.end~']


def _command(drv, d):
    n, bad = _command_once(drv, d, None)
    if not d['bad'] and d['cmd'] in ('generate', 'prune', 'merge', 'mine') and d['room'] not in ('nodir', 'isdir'):
        for j in range(0, len(NEAR), 2):
            bad = bad or _command_once(drv, d, j)[1]
        for f in NEAR:
            if os.path.exists(os.path.join(tmp(), f)):
                os.remove(os.path.join(tmp(), f))
    return n, bad


def _command_once(drv, d, pair):
    import resource, signal
    cmd, bad = d['cmd'], dict(d['bad'])
    good = {'input': _good_input(), 'source': 's:' + put('good.s', SAMPLE), 'source2': 't:' + put('good.t', b'bab') + ':1.0',
            'added': put('good.added', '["abab", "q"]'), 'suggested': put('good.sugg', '["bba"]'), 'allow': put('good.allow', '^[ab]+$'),
            'split': put('good.split', '[ab]+'), 'processor': 'nfc', 'pattern': 'b+ '}
    mine = {'generate': ['source', 'source2', 'added', 'suggested', 'allow', 'split', 'processor'], 'prune': ['input', 'source', 'source2'],
            'filter': ['input'], 'merge': ['input', 'source', 'source2', 'allow'], 'mine': ['source', 'source2', 'pattern'], 'regex': ['pattern']}[cmd]
    if cmd == 'merge':
        # one merge and no other, whatever goes first among equals
        good['allow'] = put('one.allow', '^abab$')
    inputs = {k: good[k] for k in mine}
    # inputs whose names are next to the output's
    beside = dict(zip(NEAR[pair:pair + 2], (SAMPLE, b'bab'))) if pair is not None else {}
    if beside:
        inputs['source'], inputs['source2'] = ['%s:%s' % (n, put(f, x)) for n, (f, x) in zip('st', beside.items())]
    if cmd not in _expected:
        out, = fresh('first')
        r = tgx(_flags(cmd, inputs, out, {}))
        _expected[cmd] = (_seen(cmd, out), os.path.getsize(out) if os.path.exists(out) else 0)
        if r != 'ok' or _expected[cmd][0] is None:
            return 1, [('a command that has all it needs failed', {'argv': _flags(cmd, inputs, out, {}), 'result': r})]
    seen, size = _expected[cmd]
    out = os.path.join(tmp(), 'end')
    shutil.rmtree(out, ignore_errors=True)
    fresh('end')
    old = None
    if d['room'] == 'nodir':
        out = os.path.join(tmp(), 'nowhere', 'end')
    elif d['room'] == 'isdir':
        os.makedirs(out)
    if d['before'] == 'old':
        old = (seen + '#' * 70000).encode()
        put('end', old)
    elif d['before'] == 'self':
        with open(good['input'], 'rb') as f:
            old = f.read()
        inputs['input'] = put('end', old)
    for k, f in bad.items():
        if k != 'flag':
            inputs[k] = _wrong(k, f, good['input'])
    argv = _flags(cmd, inputs, out, bad)

    whole = {f: open(f, 'rb').read() for f in (os.path.join(tmp(), x) for x in
             (*beside, 'good.json', 'good.s', 'good.t', 'good.added', 'good.sugg', 'good.allow', 'one.allow', 'good.split')) if os.path.exists(f)}

    def limits():
        if d['room'] in ('cut', 'none'):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            n = 0 if d['room'] == 'none' else max(0, size - 1)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    env = {k: v for k, v in os.environ.items() if k != 'RUST_LOG'}
    try:
        p = subprocess.run([CLI] + [str(a) for a in argv], env=dict(env, RUST_BACKTRACE='0'), stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, preexec_fn=limits)
        ended, ok = True, p.returncode == 0
    except subprocess.TimeoutExpired:
        ended, ok = False, False
    # what there is now, in the words of the specification
    if os.path.isdir(out) or not os.path.exists(out):
        now = 'absent' if (d['room'] == 'isdir') == os.path.isdir(out) and not (os.path.isdir(out) and os.listdir(out)) else 'gone'
    else:
        with open(out, 'rb') as f:
            data = f.read()
        now = 'old' if data == old else 'new' if _seen(cmd, out) == seen else 'partial'
    want = [tuple(w) for w in d['want']]
    # a write that failed may also have left things as they were
    if (False, 'partial') in want:
        want += [(False, 'old'), (False, 'absent')]
    shutil.rmtree(out, ignore_errors=True)
    for f, data in whole.items():
        if not os.path.isfile(f) or open(f, 'rb').read() != data:
            return 1, [('a command changed its input', {'case': d, 'argv': argv, 'file': f})]
    if not ended or (ok, now) not in want:
        return 1, [('how a command ended', {'case': d, 'argv': argv, 'want': want, 'got': [ended, ok, now]})]
    return 1, []


def commands(res):
    """P27: every command with everything that can be wrong with one input
    (deep: two), over every state of the output."""
    replay(res, model(res, 'MC_Commands'), _command)


# ------------------------------------------------------ no replay

def viterbi(res):
    """P03: the encoder as a machine, against what the specification of
    encoding allows."""
    model(res, 'MC_Viterbi')
