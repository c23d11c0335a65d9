#!/usr/bin/env python3
"""Writes spec/unicode.json: for every character with a decomposition, a
combining class or a place in a composition, [ccc, kind, decomposition,
compositions], paged by 64.  kind: 0 none, 1 canonical, 2 compatibility.
Hangul syllables are algorithmic (see Unicode.tla)."""
import json, os, sys, unicodedata as U

ccc, dec, comp = {}, {}, {}
EXCL = set()
for c in range(0x110000):
    if 0xD800 <= c < 0xE000 or 0xAC00 <= c <= 0xD7A3:
        continue
    ch = chr(c)
    k = U.combining(ch)
    if k:
        ccc[c] = k
    d = U.decomposition(ch)
    if d:
        p = d.split()
        kind = 1
        if p[0].startswith('<'):
            kind, p = 2, p[1:]
        dec[c] = (kind, [int(x, 16) for x in p])
        if kind == 1 and len(p) == 2 and U.normalize('NFC', ch) == ch:
            a, b = dec[c][1]
            comp.setdefault(a, []).append([b, c])
pages, index = [], [0] * (0x110000 // 64)
for c in sorted(set(ccc) | set(dec) | set(comp)):
    p = c // 64
    if not index[p]:
        pages.append([[] for _ in range(64)])
        index[p] = len(pages)
    kind, d = dec.get(c, (0, []))
    pages[index[p] - 1][c % 64] = [ccc.get(c, 0), kind, d, comp.get(c, [])]
while index[-1] == 0:
    index.pop()
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'unicode.json')
with open(out, 'w') as f:
    json.dump({'version': U.unidata_version, 'index': index, 'pages': pages}, f, separators=(',', ':'))
    f.write('\n')
