"""The Python module behind the same line protocol as the Rust driver: the
projection between the specification's actions and the module's methods."""
import copy, json, os, pickle, sys
sys.path.insert(0, sys.argv[1])
import tokengeex

OUT = os.dup(1)
os.dup2(2, 1)
toks, strs = {}, {}
BIG = 1000000000
cap = lambda i: min(i, BIG)
opt = lambda x, f=lambda y: y: [] if x is None else [f(x)]


def guarded(f):
    try:
        return f()
    except tokengeex.TokenGeeXError as e:
        return {'err': 'TokenGeeXError', 'msg': str(e)}
    except Exception as e:
        return {'err': type(e).__name__}
    except BaseException as e:
        return {'panic': type(e).__name__}


def run(c):
    op, t = c['op'], toks.get(c.get('t', 0))
    txt = lambda b: bytes(b).decode()
    p = float(c.get('p', 0.0))
    if op == 'from_str':
        toks[c['t']] = tokengeex.Tokenizer.from_str(c['json'] if 'json' in c else strs[c['s']])
        return {'ok': True}
    if op == 'load':
        toks[c['t']] = tokengeex.Tokenizer.from_file(c['file'])
        return {'ok': True}
    if op == 'to_str':
        strs[c['s']] = t.to_string()
        return {'str': strs[c['s']]}
    if op == 'save':
        r = t.save(c['file'])
        return {'ok': r is None}
    if op == 'pickle':
        toks[c['to']] = pickle.loads(pickle.dumps(t, protocol=c.get('protocol', 2)))
        return {'ok': True}
    if op == 'copy':
        toks[c['to']] = copy.deepcopy(t)
        return {'ok': True}
    if op == 'restate':
        # over whatever that tokenizer was
        toks[c['to']].__setstate__(t.__getstate__())
        return {'ok': True}
    if op == 'badstate':
        t.__setstate__(c['state'].encode() if c['bytes'] else c['state'])
        return {'ok': True}
    if op == 'empty':
        toks[c['t']] = tokengeex.Tokenizer()
        return {'ok': True}
    if op == 'add_special':
        t.add_special_tokens([txt(x) for x in c['toks']])
        return {'ok': True}
    if op == 'state':
        return {'sp': [list(s.encode()) for s in t.special_tokens()], 'size': t.vocab_size(),
                'base': t.base_vocab_size(), 'special': t.special_vocab_size(),
                'vocab': [[list(b), s.hex()] for b, s in (t.id_to_base_token(i) for i in range(t.base_vocab_size()))]}
    if op == 'encode':
        f = t.encode_ordinary if c.get('how') == 'ord' else t.encode
        return {'ids': f(txt(c['text']), p)}
    if op == 'encode_batch':
        f = t.encode_ordinary_batch if c.get('how') == 'ord' else t.encode_batch
        return {'batch': f([txt(x) for x in c['texts']], p)}
    if op == 'decode':
        return {'text': list(t.decode(c['ids'], c['inc']).encode())}
    if op == 'decode_batch':
        return {'batch': [list(x.encode()) for x in t.decode_batch(c['ids'], c['inc'])]}
    if op == 'query':
        return {'ids': [{'tok': opt(t.id_to_token(i), list), 'sp': opt(t.id_to_special_token(i), lambda s: list(s.encode())),
                         'base': opt(t.id_to_base_token(i), lambda x: [list(x[0]), x[1].hex()]),
                         'is_sp': t.is_special(i), 'is_base': t.is_base(i)} for i in c['ids']],
                'toks': [{'tok': opt(t.token_to_id(x)), 'base': opt(t.base_token_to_id(x)), 'sp': special(t, x)}
                         for x in map(bytes, c['toks'])]}
    if op == 'prefix':
        return {'found': t.common_prefix_search(txt(c['text']))}
    if op == 'exports':
        e = tokengeex.TokenGeeXError
        return {'ok': isinstance(e, type) and issubclass(e, Exception)}
    raise SystemExit('bad op')


def special(t, x):
    try:
        return opt(t.special_token_to_id(x.decode()))
    except UnicodeDecodeError:
        return []


for line in sys.stdin.buffer:
    c = json.loads(line)
    os.write(OUT, (json.dumps(guarded(lambda: run(c))) + '\n').encode())
