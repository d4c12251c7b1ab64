#!/usr/bin/env python3
"""Generates harness/nd/ref.go: the Unicode 17.0 classes of every code point,
read from the UCD files with an independent parser. Run once on the pristine
data; the result is committed and never regenerated by a check."""
import re, sys
ucd = sys.argv[1]
gcb = {}
incb = {}
def lines(f):
    for l in open(f, encoding='utf-8'):
        l = l.split('#')[0].strip()
        if l:
            yield [x.strip() for x in l.split(';')]
def rng(s):
    a, _, b = s.partition('..')
    return range(int(a, 16), int(b or a, 16) + 1)
for f in lines(ucd + '/auxiliary/GraphemeBreakProperty.txt'):
    for c in rng(f[0]): 
        assert c not in gcb
        gcb[c] = f[1]
for f in lines(ucd + '/emoji/emoji-data.txt'):
    if f[1] == 'Extended_Pictographic':
        for c in rng(f[0]):
            assert c not in gcb, hex(c)
            gcb[c] = 'Extended_Pictographic'
for f in lines(ucd + '/DerivedCoreProperties.txt'):
    if f[1] == 'InCB':
        for c in rng(f[0]):
            assert c not in incb
            incb[c] = f[2]
pairs = sorted({(gcb.get(c, 'Other'), incb.get(c, 'None')) for c in range(0x110000)}, key=lambda p: (p != ('Other', 'None'), p))
code = {p: i for i, p in enumerate(pairs)}
vals = [code[(gcb.get(c, 'Other'), incb.get(c, 'None'))] for c in range(0x110000)]
blocks = {}
idx = []
data = []
for b in range(0, 0x110000, 64):
    k = tuple(vals[b:b+64])
    if k not in blocks:
        blocks[k] = len(blocks)
        data += k
    idx.append(blocks[k])
assert len(blocks) < 256
o = []
o.append('package verifnd\n\n// Code generated by tools/mkref.py from the Unicode 17.0 data. DO NOT EDIT.\n')
o.append('// Class numbers: a (Grapheme_Cluster_Break or Extended_Pictographic, InCB) pair each.\nconst (')
for p in pairs:
    n = 'C' + ''.join(p).replace('_', '') if p[1] != 'None' else 'C' + p[0].replace('_', '')
    o.append('\t%s = %d' % (n, code[p]))
o.append('\tNumClasses = %d\n)\n' % len(pairs))
o.append('var ClassGCB = [...]string{' + ', '.join('"%s"' % p[0] for p in pairs) + '}\n')
o.append('var ClassInCB = [...]string{' + ', '.join('"%s"' % p[1] for p in pairs) + '}\n')
rep = {}
for c in range(0x110000):
    if 0xd800 <= c < 0xe000: continue
    L = 1 if c < 128 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    rep.setdefault((vals[c], L), c)
def arr(name, typ, d):
    o.append('var %s = [...]%s{' % (name, typ))
    for i in range(0, len(d), 32):
        o.append('\t' + ','.join(map(str, d[i:i+32])) + ',')
    o.append('}\n')
arr('refIdx', 'uint8', idx)
arr('refBlk', 'uint8', data)
o.append('''// RefClass is the class of a code point below 0x110000.
func RefClass(cp uint32) uint8 {
	return refBlk[int(refIdx[cp>>6])<<6|int(cp&63)]
}
''')
open('/verif/harness/nd/ref.go', 'w').write('\n'.join(o))
print(len(blocks), pairs)
