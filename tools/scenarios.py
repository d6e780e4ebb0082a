#!/usr/bin/env python3
"""Generates sym/harness/src/scn.rs (the scenario table) and tools/scn.json from the text below.

A scenario is a row of tokens, separated by blanks; every token is
  its text            that token (E('use strict') needs its vocabulary name, e.g. #S_STRICT)
  ?                   any token but comments and the end of file
  %name               any token of the named domain
  #NAME               the token with that vocabulary name
and may be followed by
  _                   a line feed in the gap behind it
  ~                   the gap may hold a line feed
  *                   the gap may hold any line terminator
`[n]` in front of a token repeats it 0..n times, one scenario for each length.
  <name>              what that nonterminal of the grammar (tools/grammar.txt) derives with the size given

A scenario with nonterminals stands for all sentences they derive whose alternatives have costs of at
most `size` together, and then for those with one edit: t one token replaced, put in or taken away,
c cut off somewhere, f one token replaced by a line feed, l one line terminator put in, m one comment.
"""
import json, re, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VOC = open(os.path.join(HERE, '../sym/harness/src/vocab.rs')).read()
NAMES = {}
for m in re.finditer(r'pub const (\w+): u8 = (\d+);', VOC):
    NAMES[m.group(1)] = int(m.group(2))
TEXTS = [eval('"' + m.group(1) + '"') for m in re.finditer(r'^    \(RefToken::.*?, "(.*)"\),$', VOC, re.M)]
BY_TEXT = {}
for i, t in enumerate(TEXTS):
    BY_TEXT.setdefault(t, i)
COMMENTS = [i for n, i in NAMES.items() if n.startswith('C_') and n != 'COUNT']
FULL = [i for i in range(1, len(TEXTS)) if i not in COMMENTS]

def toks(text):
    out = []
    for w in text.split():
        if w.startswith('#'): out.append(NAMES[w[1:]])
        elif w.startswith('%') and w not in BY_TEXT: out += DOM[w[1:]]
        else: out.append(BY_TEXT[w])
    return sorted(set(out))
DOM = {}
def dom(name, text): DOM[name] = toks(text)
DOM['full'] = FULL
DOM['comment'] = sorted(COMMENTS)
dom('id', 'alpha bravo async of get let yield await static eval #I_UNI')
dom('name', 'alpha bravo')
dom('lit', '12345 0x1aF #S_SINGLE #S_EMPTY true false null /abc/ `abc`')
dom('binop', '|| && | ^ & == != === !== < > <= >= instanceof in << >> >>> + - * / % **')
dom('asgop', '= += -= *= /= %= <<= >>= >>>= |= ^= &= **=')
dom('unop', '- + ! ~ typeof void delete ++ -- await')
SCN = []
EDITS = dict(t=1, c=2, f=4, l=8, m=16)
NT, GRAM = {}, []
def item(w):
    """-> (nonterminal or None, domain, gap)"""
    if re.match(r'<[\w.]+>$', w):
        n = w[1:-1]
        if n not in NT: NT[n] = len(NT)
        return (n, (), 0)
    nl = 0
    if len(w) > 1 and w[-1] in '_~*' and w not in BY_TEXT and w[:-1] in list(BY_TEXT) + ['?'] + ['%' + d for d in DOM] + ['#' + n for n in NAMES]:
        nl = {'_': 1, '~': 2, '*': 3}[w[-1]]
        w = w[:-1]
    return (None, tuple(FULL if w == '?' else toks(w)), nl)
RULES = {}
def gram(text, sub={}, prefix=''):
    """Lines `name:` and `COST item...`; sub: words to replace."""
    cur = None
    sub = dict(sub)
    for n in re.findall(r'^([\w.]+):$', text, re.M): sub['<%s>' % n] = '<%s%s>' % (prefix, n)
    for l in text.split('\n'):
        w = [x for y in l.split() for x in sub.get(y, y).split()]
        if not w or w[0].startswith('//'): continue
        if len(w) == 1 and re.match(r'[\w.]+:$', w[0]):
            cur = prefix + w[0][:-1]
            if cur in RULES: sys.exit('twice: ' + cur)
            RULES[cur] = []
            continue
        RULES[cur].append((int(w[0]), tuple(item(x) for x in w[1:])))
def add(props, name, spec, modes='s', tier='q', entry='diff', size=0, edits=''):
    rows = [[]]
    for w in spec.split():
        m = re.match(r'\[(\d+)\](.*)$', w)
        if m:
            rows = [r + [m.group(2)] * k for r in rows for k in range(int(m.group(1)) + 1)]
        else:
            rows = [r + [w] for r in rows]
    for r in rows:
        slots = []
        slots = [item(w) for w in r]
        for m in modes:
            SCN.append(dict(props=props.split(), name=name, slots=slots, mode=m, tier=tier, entry=entry, size=size, edits=edits, spec=' '.join(r) + (' [size %d%s]' % (size, ' edit ' + edits if edits else '') if size or edits else '')))
for f in ('scenarios.txt', 'grammar.txt'): exec(open(os.path.join(HERE, f)).read())

# The quick tier of a property is kept within BUDGET paths, for its sequences of slots and for its
# sentences of the grammar: its cheapest scenarios by the measurements in tools/cost.json
# (tools/measure.py; -1: over the time limit); the others are thorough only.
BUDGET = {False: 900000, True: 2200000}
def demote():
    p = os.path.join(HERE, 'cost.json')
    cost = json.load(open(p)) if os.path.exists(p) else {}
    byprop = {}
    for s in SCN:
        s['want'] = s['tier']
        for q in s['props']:
            if s['tier'] == 'q': byprop.setdefault((q, s['size'] > 0), []).append(s)
    for (q, g), l in byprop.items():
        total = 0
        for s in sorted(l, key=lambda s: abs(cost.get(' '.join([s['entry'], s['mode'], s['spec']]), 0))):
            c = cost.get(' '.join([s['entry'], s['mode'], s['spec']]), 0)
            total += c
            if c < 0 or total > BUDGET[g]: s['tier'] = 't'

def main():
    demote()
    doms, rows = {}, {}
    names = list(NT)
    for n in names:
        if n not in RULES: sys.exit('no such nonterminal: ' + n)
        RULES[n].sort(key=lambda a: a[0])
    missing = [n for n in RULES if n not in NT]
    if missing: print('not used:', missing)
    def items(l):
        out = []
        for n, d, nl in l:
            if n is None and d not in doms: doms[d] = 'D%d' % len(doms)
            out.append('Item { nt: %s, slot: Slot { dom: %s, nl: %d } }' % (('T', '&' + doms[d], nl) if n is None else (NT[n], '&[]', 0)))
        return '&[' + ', '.join(out) + ']'
    grammar = ['    &[' + ', '.join('Alt { cost: %d, items: %s }' % (c, items(l)) for c, l in RULES[n]) + '],' for n in names]
    body = []
    for s in SCN:
        flags = {'s': 0, 'm': 1, 't': 2, 'u': 3}[s['mode']]
        if 'm' in s['edits'] or any(set(d) & set(COMMENTS) for _, d, _ in s['slots']): flags |= 4
        key = (flags, s['size'], sum(EDITS[e] for e in s['edits']), tuple(s['slots']))
        if key not in rows:
            rows[key] = len(rows)
            body.append('    Scn { flags: %d, size: %d, edits: %d, items: %s },' % (key[:3] + (items(s['slots']),)))
        s['k'] = rows[key]
    o = ['// generated by tools/scenarios.py; do not edit', 'use crate::slots::{Alt, Item, Slot, T};',
         'pub const F_MODULE: u32 = 1;', 'pub const F_TOLERANT: u32 = 2;', 'pub const F_COMMENTS: u32 = 4;',
         'pub struct Scn { pub items: &\'static [Item], pub flags: u32, pub size: u8, pub edits: u8 }']
    o.append('pub static ANY: &[u8] = &%s;' % list(FULL))
    o.append('pub static COMMENTS: &[u8] = &%s;' % sorted(COMMENTS))
    for d, n in doms.items():
        o.append('static %s: [u8; %d] = %s;' % (n, len(d), str(list(d))))
    o.append('pub static GRAMMAR: [&[Alt]; %d] = [' % len(names))
    o += grammar + ['];']
    o.append('pub static SCN: [Scn; %d] = [' % len(rows))
    o += body + ['];']
    text = '\n'.join(o) + '\n'
    p = os.path.join(HERE, '../sym/harness/src/scn.rs')
    if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
    text = '[\n' + ',\n'.join(json.dumps(dict(k=s['k'], props=s['props'], entry=s['entry'], name=s['name'], mode=s['mode'], tier=s['tier'], want=s['want'], spec=s['spec'])) for s in SCN) + '\n]\n'
    p = os.path.join(HERE, 'scn.json')
    if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
if __name__ == '__main__': main()
