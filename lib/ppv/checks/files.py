"""C20: a file that cannot be opened or read to its end, or that does not fit the other files, is never passed over in silence."""
import re
from .. import ir, iostate
from ..iostate import B, E, F, C
from ..run import Result, pmap

CTOR = re.compile(r'^std::basic_ifstream<char.*?>::basic_ifstream\(')
# what leads to an operation on an input stream is inlined
STREAM = (r'^std::istream::', r'^std::basic_(ios|ifstream|istream)<char, std::char_traits<char>>(& std::|::)')
STRICT = re.compile(r'operator>><.*\(std::istream&, .*DefaultDatas<.*&\)$')


def unit(item):
    rels, exe = item
    R = Result(); m = ir.dump(rels, reach=STREAM, roots=(r'^main$', r'operator>><.*\(std::istream&, .*DefaultDatas<.*&\)$'))
    mains = [f for f in m.fns if f.dem == 'main']
    n = 0
    for f in mains:
        for c in [i for i in f.calls() if CTOR.match(i.dem) and i.ops]:
            o = c.ops[0]
            n += 1
            P = iostate.Paths(f, (o['k'], o.get('v'))); P.run()
            R.coverage['paths'] = R.coverage.get('paths', 0) + P.visited; R.coverage['stream operations'] = R.coverage.get('stream operations', 0) + len(P.ops)
            bad = 0
            for s, v, has, i in P.ends:
                fail = s.pend or s.bits is not None and not P.good(s.bits) and not s.said
                if not fail: continue
                if v is None and has and i.ops[0]['k'] != 'c': continue
                if v: continue
                bad |= 2 if s.bits is not None and s.bits & C else 1
            if bad: R.bad(c.loc(), 'a file is read to its end or its failure is told', '%s: a way leads to a successful end although the file could not be opened or was not read to its end, and nothing is thrown, returned or written to std::cerr because of it' % exe)
            else: R.ok('%s: %s' % (exe, c.loc()))
    R.coverage['files opened'] = n
    for f in m.fns:
        if not STRICT.search(f.dem): continue
        P = iostate.Paths(f, ('a', 0), start=0, strict=True); P.run()
        R.coverage['strict readers'] = R.coverage.get('strict readers', 0) + 1
        left = any(s.pend for s, v, has, i in P.ends)
        if left: R.bad('%s:%s' % ((f.file or '').replace(ir.REPO + '/', ''), f.line), 'a table that was cut short is refused', '%s: the reader of the feature tables returns normally although a value could not be read' % exe)
        else: R.ok('%s: the feature tables are complete or refused' % exe)
    return R


def agree(item):
    """the glyphs and the feature tables that are used together are equally many"""
    rels, exe = item
    R = Result()
    A = (r'operator>><.*\(std::istream&, .*DefaultDatas<.*&\)$', r'operator>>\(std::istream&, ppocr::(loader2|ocr2)::Glyphs&\)$', r'::size\(\) const$')
    m = ir.dump(rels, noinline=A, reach=A, roots=(r'^main$',))
    f = [g for g in m.fns if g.dem == 'main'][0]
    D = [i for i in f.calls() if re.search(r'operator>><.*\(std::istream&, .*DefaultDatas<.*&\)$', i.dem)]
    G = [i for i in f.calls() if re.search(r'operator>>\(std::istream&, ppocr::(loader2|ocr2)::Glyphs&\)$', i.dem)]
    R.coverage['combined'] = 0
    if not (D and G): return R
    # what every value is made from
    src = {}
    def seed(i, tag): src.setdefault((i.ops[1]['k'], i.ops[1].get('v')), set()).add(tag)
    for i in D: seed(i, 'd')
    for i in G: seed(i, 'g')
    # the base of the object an address is derived from, and other addresses of the same object
    def base(o):
        while o['k'] == 'i' and f.inst[o['v']].op in ('getelementptr', 'bitcast', 'freeze'): o = f.inst[o['v']].ops[0]
        return (o['k'], o.get('v'))
    roots = {}
    for i, t in [(x, 'd') for x in D] + [(x, 'g') for x in G]: roots.setdefault(base(i.ops[1]), set()).add(t)
    val = dict((k, set(v)) for k, v in roots.items()); ch = True
    while ch:
        ch = False
        for i in f.insts():
            k = ('i', i.id)
            if i.op in ('store', 'br', 'switch', 'ret', 'invoke', 'call') and not (i.op in ('call', 'invoke') and re.search(r'(::size\(\)|::(begin|end|cbegin|cend)\(\)) const$|std::distance<|::operator-<|operator-', i.dem)): continue
            if i.op == 'alloca': continue
            s = set()
            for o in ir.operands(i): s |= val.get((o['k'], o.get('v')), set())
            if s - val.get(k, set()): val.setdefault(k, set()).update(s); ch = True
        for i in f.insts():
            # a value kept in a local variable
            if i.op == 'store':
                s = val.get((i.ops[0]['k'], i.ops[0].get('v')), set()); b = (i.ops[1]['k'], i.ops[1].get('v'))
                if s and b[0] == 'i' and f.inst[b[1]].op == 'alloca' and b not in roots and s - val.get(b, set()): val.setdefault(b, set()).update(s); ch = True
    # what a condition says about the two counts: its value when there are fewer, equally many, more rows than glyphs
    REL = (-1, 0, 1); tab = {}

    def table(o):
        if o['k'] == 'c': return {r: int(o['v']) & 1 for r in REL} if o.get('t') == 'i1' else {r: int(o['v']) for r in REL}
        return tab.get(o.get('v')) if o['k'] == 'i' else None
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i.id in tab: continue
            t = None
            if i.op == 'icmp' and i.ops[0].get('t') != 'ptr':
                a, b = (val.get((o['k'], o.get('v')), set()) for o in i.ops)
                p = i.d['pred'].lstrip('us') if i.d['pred'] not in ('eq', 'ne') else i.d['pred']
                f2 = {'eq': lambda r: r == 0, 'ne': lambda r: r != 0, 'lt': lambda r: r < 0, 'gt': lambda r: r > 0, 'le': lambda r: r <= 0, 'ge': lambda r: r >= 0}[p]
                if (a, b) == ({'d'}, {'g'}): t = {r: int(f2(r)) for r in REL}
                elif (a, b) == ({'g'}, {'d'}): t = {r: int(f2(-r)) for r in REL}
                elif p in ('eq', 'ne') and any(o['k'] == 'i' and o['v'] in tab for o in i.ops):
                    x, y = (table(o) for o in i.ops)
                    if x and y: t = {r: int((x[r] == y[r]) == (p == 'eq')) for r in REL}
            elif i.op in ('zext', 'trunc', 'freeze') and table(i.ops[0]): t = table(i.ops[0])
            elif i.op in ('xor', 'and', 'or') and any(o['k'] == 'i' and o['v'] in tab for o in i.ops):
                x, y = (table(o) for o in i.ops)
                if x and y: t = {r: {'xor': x[r] ^ y[r], 'and': x[r] & y[r], 'or': x[r] | y[r]}[i.op] for r in REL}
            elif i.op == 'select':
                x, y, z = (table(o) for o in i.ops)
                if x and y and z: t = {r: y[r] if x[r] & 1 else z[r] for r in REL}
            if t is not None: tab[i.id] = t; ch = True
    rets = {o['v'] for i in f.insts() if i.op == 'ret' for o in i.ops if o['k'] == 'i'}; ch = True
    while ch:
        n = len(rets); rets |= {o['v'] for v in rets if f.inst[v].op == 'phi' for o, _ in f.inst[v].ops if o['k'] == 'i'}; ch = len(rets) != n
    phis = {i.id for i in f.insts() if i.op == 'phi' and (i.id in rets or i.t == 'i1')}
    for d in D:
        for g in G:
            # over all ways: which were loaded, how the counts may compare, what will be returned
            seen = set(); st = [(0, None, frozenset(), frozenset(REL), frozenset())]; hit = False
            while st and not hit:
                b, prev, h, rel, env = st.pop()
                e = dict(env); new = {}
                for i in f.blocks[b]:
                    if i.op == 'phi' and i.id in phis:
                        for o, p in i.ops:
                            if p == prev: new[i.id] = ('c', int(o['v'])) if o['k'] == 'c' else e.get(o.get('v'), ('v', o.get('v')) if o.get('v') in tab else None)
                e.update(new); e = {k: v for k, v in e.items() if v is not None}; env = frozenset(e.items())
                if (b, h, rel, env) in seen: continue
                seen.add((b, h, rel, env))
                if len(seen) > 300000: raise iostate.TooMany('main')
                for x, t in ((d, 'd'), (g, 'g')):
                    if x.bb == b: h = h | {t}
                if len(h) < 2: rel = frozenset(REL)
                t = f.blocks[b][-1]
                if t.op == 'ret':
                    o = t.ops[0] if t.ops else None
                    v = ('c', int(o['v'])) if o and o['k'] == 'c' else e.get(o['v']) if o else None
                    if len(h) == 2 and rel != {0} and not (v and v[0] == 'c' and v[1]): hit = True
                    continue
                if t.op == 'invoke': st.append((t.d['succ'][0], b, h, rel, env)); continue
                c = t.d.get('cond')
                if t.op == 'br' and c and c['k'] == 'i' and len(t.d['succ']) == 2:
                    w = e.get(c['v'], ('v', c['v'])); T = tab.get(w[1]) if w[0] == 'v' else {r: w[1] for r in REL}
                    if T:
                        for k, s in enumerate(t.d['succ']):
                            q = frozenset(r for r in rel if (T[r] & 1) == 1 - k)
                            if q: st.append((s, b, h, q, env))
                        continue
                for s in f.succ[b]: st.append((s, b, h, rel, env))
            R.coverage['combined'] += 1
            if hit: R.bad(g.loc(), 'as many glyphs as rows of features', '%s: glyphs and feature tables of different length are used together: a way leads to the end of main without both counts being found equal' % exe)
            else: R.ok('%s: counts agree' % exe)
    return R


def told(tier):
    R = Result('proof')
    libs, exes = ir.jamroot_units()
    items = [([s] + libs, n) for n, s in sorted(exes.items())]
    for r in pmap(unit, items): R.merge(r)
    for r in pmap(agree, [x for x in items if x[1].startswith(('extract', 'ocr2'))]): R.merge(r)
    R.need(R.coverage.get('files opened', 0) > 5, 'hardly any file opened')
    R.need(R.coverage.get('strict readers', 0) >= 3, 'readers of feature tables')
    R.need(R.coverage.get('combined', 0) >= 3, 'programs that combine glyphs and features')
    R.coverage['rule'] = 'with the exact state bits of the stream followed over every path: no end of main with status 0 while a file was not opened or not read to its end, unless something was written to std::cerr only then'
    return R
