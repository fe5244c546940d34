"""C07: what is computed for a glyph does not depend on the glyphs computed before."""
import copy, os, re
from .. import ir
from ..absint import Engine, conv, width
from ..models import Models, ALGO
from ..work import WorkModels
from ..poly import ZERO
from ..run import Result, pmap, consistent
from .features import module, extractors, uses_buffers, SIDE

LOAD = r'^ppocr::strategies::[a-z0-9_]+::load\('
DRIVER = os.path.join(ir.VERIF, 'drivers', 'history.cpp')


# ---- one extractor ------------------------------------------------------------------------------

def place(f, o):
    """('arg' or 'al', index, offset) of an address with a constant offset, or None"""
    c = 0
    while o['k'] == 'i' and f.inst[o['v']].op in ('getelementptr', 'bitcast'):
        g = f.inst[o['v']]
        if g.op == 'getelementptr':
            if g.d['gep']['var']: return None
            c += g.d['gep']['coff']
        o = g.ops[0]
    if o['k'] == 'a': return ('arg', o['v'], c)
    if o['k'] == 'i' and f.inst[o['v']].op == 'alloca': return ('al', o['v'], c)
    return None


def ctx_param(f): return len(f.params) - 1


def touches(f):
    """does the extractor look at its context at all"""
    n = ctx_param(f)
    for i in f.insts():
        for k, o in enumerate(ir.operands(i)):
            if o.get('k') == 'a' and o['v'] == n: return True
    return False


def flag_of(f):
    """(offset, value when computed) of the 'already computed' flag: a byte of the context that is tested and set to a constant"""
    n = ctx_param(f); ld = set(); st = {}
    for i in f.insts():
        if i.op == 'load' and i.d['sz'] == 1:
            p = place(f, i.ops[0])
            if p and p[:2] == ('arg', n): ld.add(p[2])
        if i.op == 'store' and i.d['sz'] == 1 and i.ops[0].get('k') == 'c' and int(i.ops[0]['v']) & 255 in (0, 1):
            p = place(f, i.ops[1])
            if p and p[:2] == ('arg', n): st.setdefault(p[2], set()).add(int(i.ops[0]['v']) & 1)
    x = [(o, v.pop()) for o, v in st.items() if o in ld and len(v) == 1]
    if len(x) > 1: raise ir.AnalysisBroken('several flags in the context of ' + f.dem.split('(')[0])
    return x[0] if x else None


def specialise(f, off, value):
    """the extractor as it runs when the flag at entry has the given value"""
    n = ctx_param(f); d = copy.deepcopy(f.d); known = {}
    # the flag is read at entry (before anything stores it) or is not specialised at all
    for b in f.rpo:
        for i in f.blocks[b]:
            v = None
            if i.op == 'load' and i.d['sz'] == 1:
                p = place(f, i.ops[0])
                if p == ('arg', n, off):
                    if any(s.op == 'store' and place(f, s.ops[1]) == p and (s.bb == b and s.idx < i.idx or b in after(f, s.bb)) for s in f.insts()): raise ir.AnalysisBroken('the flag is tested after it was set in ' + f.dem.split('(')[0])
                    v = value
            elif i.op in ('trunc', 'zext', 'freeze'): v = known.get(i.ops[0].get('v')) if i.ops[0]['k'] == 'i' else None
            elif i.op in ('icmp', 'xor', 'and'):
                a = [known.get(o['v']) if o['k'] == 'i' else int(o['v']) if o['k'] == 'c' else None for o in i.ops]
                if None not in a and any(o['k'] == 'i' for o in i.ops):
                    v = {'icmp': {'eq': a[0] == a[1], 'ne': a[0] != a[1]}.get(i.d.get('pred')), 'xor': (a[0] ^ a[1]) & 1, 'and': a[0] & a[1]}[i.op]
            if v is not None: known[i.id] = int(v)
    if not known: raise ir.AnalysisBroken('flag of %s not found' % f.dem[:60])
    for b, insts in enumerate(d['blocks']):
        t = insts[-1]
        c = t.get('cond')
        if t.get('op') == 'br' and c and c.get('k') == 'i' and c['v'] in known: t['cond'] = {'k': 'c', 'w': 1, 'v': known[c['v']] & 1, 't': 'i1'}
    return ir.Function(d, f.mod)


def after(f, b):
    """blocks that can run after block b has run"""
    seen = set(); st = list(f.succ[b])
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += f.succ[x]
    return seen


def resource(f, i):
    """a value that only says which storage to use: the address of an owned buffer, or its recorded capacity"""
    if i.t == 'ptr': return True
    if i.t != 'i64': return False
    return all(j.op == 'icmp' and j.d['pred'] in ('ult', 'ugt', 'ule', 'uge') for j in f.insts() if any(o.get('k') == 'i' and o['v'] == i.id for o in ir.operands(j)))


def written(f):
    """(per block: the sets of context bytes written on the paths to its start, transfer function, the sets at the returns)"""
    n = ctx_param(f)
    def gen(b, P, upto=None):
        new = set()
        for i in f.blocks[b][:upto]:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if p and p[:2] == ('arg', n): new.update(range(p[2], p[2] + i.d['sz']))
            elif i.op in ('call', 'invoke') and re.match(r'llvm\.mem(set|cpy|move)', i.callee or '') and i.ops[2].get('k') == 'c':
                p = place(f, i.ops[0])
                if p and p[:2] == ('arg', n): new.update(range(p[2], p[2] + int(i.ops[2]['v'])))
        return set(S | new for S in P) if new else P
    IN = {0: {frozenset()}}; work = [0]
    while work:
        b = work.pop()
        o = gen(b, IN[b])
        if len(o) > 200: raise ir.AnalysisBroken('too many paths')
        for s in f.succ[b]:
            if not o <= IN.get(s, set()): IN[s] = IN.get(s, set()) | o; work.append(s)
    outs = set()
    for b in f.reach:
        if f.blocks[b][-1].op == 'ret' and b in IN: outs |= gen(b, IN[b])
    return IN, gen, outs


def reads(f):
    """(inst, offset, size) of everything the extractor reads directly from its context"""
    n = ctx_param(f)
    for i in f.insts():
        if i.op == 'load':
            p = place(f, i.ops[0])
            if p and p[:2] == ('arg', n): yield i, p[2], i.d['sz']
        elif i.op in ('call', 'invoke') and re.match(r'llvm\.mem(cpy|move)', i.callee or '') and i.ops[2].get('k') == 'c':
            p = place(f, i.ops[1])
            if p and p[:2] == ('arg', n): yield i, p[2], int(i.ops[2]['v'])


def fresh_storage(f, R, name):
    """every word read from a work buffer was cleared or written in this very computation"""
    M = WorkModels(side=SIDE, minside=1); E = Engine(f, M); E.solve(); M.content(E); consistent(E)
    cl = {}
    for i in f.calls():
        c = i.callee or ''
        if c.startswith('llvm.memset'):
            p = E.P(conv(i.ops[0]))
            if p: cl.setdefault(p[0], []).append((i, p[1], E.U(conv(i.ops[2]))))
        elif ALGO.search(i.dem) and ALGO.search(i.dem).group(1) in ('fill', 'fill_n'):
            for j, what, ptr, ln, wr in M.accesses(E):
                p = E.P(ptr)
                if j is i and wr and p and ln is not None: cl.setdefault(p[0], []).append((i, p[1], ln))
    n = 0
    for i, what, ptr, ln, wr in M.accesses(E):
        if wr or ln is None: continue
        p = E.P(ptr)
        if p is None or p[0][0] not in ('buf', 'phib', 'new'): continue
        n += 1
        good = any(f.dom_inst(c, i) and E.prove(p[1] - lo, (i.bb, i.idx), depth=6) and E.prove(lo + L - p[1] - ln, (i.bb, i.idx), depth=6) for c, lo, L in cl.get(p[0], []))
        if good: R.ok('%s: what is read at %s was cleared for this glyph' % (name, i.loc()))
        else: R.bad('%s in %s' % (i.loc(), name), 'stale', 'this may read work-buffer contents left by the previous glyph')
    R.need(n > 0, 'no read of a work buffer in ' + name)


def one(k):
    f = extractors()[k]; R = Result(); name = f.dem.split('(')[0]
    R.coverage['extractors'] = 1
    ctx = ir.params(f.dem)[0][-1]
    if not touches(f): R.ok('%s keeps no state' % name); return R, None
    off, done = flag_of(f) or (None, None)
    g = specialise(f, off, 1 - done) if off is not None else f
    IN, gen, W = written(g)
    for i, o, n in reads(g):
        if o == off and n == 1: continue
        S = gen(i.bb, IN[i.bb], i.idx)
        if all(set(range(o, o + n)) <= x for x in S): R.ok('%s: byte %d of the context read at %s was written in the same computation' % (name, o, i.loc()))
        elif i.op == 'load' and resource(g, i): R.ok()
        else: R.bad('%s in %s' % (i.loc(), name), 'stale', 'the value read from the context was not computed for this glyph on every path')
    if uses_buffers(g): fresh_storage(g, R, name)
    R.coverage['caching_extractors'] = 1
    use = None
    if off is not None:
        h = specialise(f, off, done); use = set()
        for i, o, n in reads(h):
            if o == off and n == 1: continue
            if i.op == 'load' and i.t == 'ptr': continue
            use.update(range(o, o + n))
        for i in h.insts():
            if i.op == 'store':
                p = place(h, i.ops[1])
                if p and p[:2] == ('arg', ctx_param(h)) and p[2] != off: R.bad('%s in %s' % (i.loc(), name), 'stale', 'a value that is already computed is changed')
    W = [x for x in W if off is None or off in x]
    return R, (name, ctx, (off, done) if off is not None else None, use, set.intersection(*map(set, W)) if W else set())


# ---- the uses -----------------------------------------------------------------------------------

def loads_in(f): return [i for i in f.calls() if re.search(LOAD, i.dem)]


def follow(f, flags, R, name):
    """each context is reset since it was last used for other images"""
    calls = loads_in(f); locs = set()
    info = {}
    for c in calls:
        ex = re.match(r'(.*?)\(', c.dem).group(1)
        if ex not in flags: continue
        p = place(f, c.ops[-1])
        if p is None: R.bad('%s in %s' % (c.loc(), name), 'reset', 'the context used cannot be identified'); continue
        l = p[:2] + (p[2] + flags[ex][0], 1 - flags[ex][1]); locs.add(l)
        info[c.id] = (l, tuple((place(f, o) or ('v', o.get('v'))) for o in c.ops[-3:-1]))
    if not calls: return 0
    BAD = 'stale'
    def step(i, S, report):
        S = dict(S)
        if i.op == 'store':
            p = place(f, i.ops[1])
            if p is not None:
                for l in locs:
                    if l[:2] == p[:2] and p[2] <= l[2] < p[2] + i.d['sz']: S[l] = 'reset' if i.ops[0].get('k') == 'c' and int(i.ops[0]['v']) >> 8 * (l[2] - p[2]) & 255 == l[3] else BAD
        elif i.op in ('call', 'invoke'):
            if i.id in info:
                l, imgs = info[i.id]; s = S[l]
                if report:
                    if s == 'reset' or s == ('used', imgs): R.ok('%s: %s at %s finds its context fresh, or filled for the same images' % (name, i.dem.split('(')[0], i.loc()))
                    elif s == BAD: R.bad('%s in %s' % (i.loc(), name), 'reset', '%s may use values computed for an earlier glyph: its context is not reset before' % i.dem.split('(')[0])
                    else: R.bad('%s in %s' % (i.loc(), name), 'reset', '%s uses a context filled from other images (upright and rotated exchanged)' % i.dem.split('(')[0])
                S[l] = ('used', imgs)
            elif re.match(r'llvm\.memset', i.callee or ''):
                p = place(f, i.ops[0]); z = i.ops[1].get('k') == 'c' and i.ops[2].get('k') == 'c'
                for l in locs:
                    if p and l[:2] == p[:2] and p[2] <= l[2]:
                        if z and l[2] < p[2] + int(i.ops[2]['v']): S[l] = 'reset' if int(i.ops[1]['v']) & 255 == l[3] else BAD
                        elif not z: S[l] = BAD
            elif not re.match(r'llvm\.(lifetime|dbg|experimental|assume)', i.callee or '') and not re.search(LOAD, i.dem):
                for k, o in enumerate(i.ops):
                    if o.get('t') != 'ptr': continue
                    at = i.d['pattr'][k] if k < len(i.d.get('pattr', [])) else {}
                    if at.get('ro') or ir.keeps(i, k): continue
                    p = place(f, o)
                    if p is None: continue
                    n = ir.this_size(i) if k == 0 else None
                    for l in locs:
                        if l[:2] == p[:2] and p[2] <= l[2] and (n is None or l[2] < p[2] + n) and not re.search(r'std::vector<', i.dem): S[l] = BAD
        return S
    def meet(a, b):
        if a == b: return a
        x = set((a, b))
        if BAD in x: return BAD
        u = [y for y in x if y != 'reset']
        return u[0] if len(u) == 1 else BAD
    # a further round of a loop that uses a context works on another image
    inside = {h: set(info[c.id][0] for c in calls if c.id in info and c.bb in L['body']) for h, L in f.loops.items()}
    IN = {0: {l: BAD for l in locs}}
    def out(b, s):
        S = IN[b]
        for i in f.blocks[b]: S = step(i, S, False)
        if s in f.loops and b in f.loops[s]['body']: S = {l: (BAD if v != 'reset' and l in inside[s] else v) for l, v in S.items()}
        return S
    ch = True; rounds = 0
    while ch:
        ch = False; rounds += 1
        if rounds > 200: raise ir.AnalysisBroken('no fixpoint')
        for b in f.rpo:
            o = [out(p, b) for p in f.pred[b] if p in IN]
            if b == 0 or not o: continue
            s = {l: o[0][l] for l in locs}
            for x in o[1:]: s = {l: meet(s[l], x[l]) for l in locs}
            if IN.get(b) != s: IN[b] = s; ch = True
    for b in f.reach:
        S = IN[b]
        for i in f.blocks[b]: S = step(i, S, True)
    return len(calls)


def tops(m):
    fs = [f for f in m.fns if loads_in(f)]
    site = lambda f: set((i.d.get('file'), i.d.get('line'), i.dem) for i in loads_in(f))
    r = [f for f in fs if f.dem == 'main']
    seen = set().union(*(site(f) for f in r)) if r else set()
    return r + [f for f in fs if f not in r and not re.search(LOAD, f.dem) and not site(f) <= seen]


def work(item):
    kind, x, flags = item
    if kind == 'one': return one(x)
    R = Result()
    if kind == 'driver':
        m = ir.dump(ir.jamroot_units()[0] + [DRIVER], roots=['^hist_'], noinline=[r'^ppocr::rotate90\(', LOAD])
        for f in m.fns:
            n = follow(f, flags, R, f.dem.split('(')[0].replace('hist_datas', 'Datas::load').replace('hist_compute', 'compute_image').split(' ')[-1])
            R.need(n >= 15, 'hardly any feature is loaded by ' + f.dem[:40]); R.coverage['uses'] = R.coverage.get('uses', 0) + n
    else:
        m = ir.dump([x], reach=[LOAD])
        for f in tops(m): R.coverage['uses'] = R.coverage.get('uses', 0) + follow(f, flags, R, '%s (%s)' % (f.dem.split('(')[0][-60:], x)); R.coverage['tool_functions'] = R.coverage.get('tool_functions', 0) + 1
    return R, None


def independent(thorough):
    R = Result('proof')
    module(); fs = extractors(); infos = []
    for r, inf in pmap(work, [('one', k, None) for k in range(len(fs))]):
        R.merge(r)
        if inf: infos.append(inf)
    R.need(len(infos) >= 6, 'hardly any extractor uses a context')
    # what one extractor takes over from another was computed by it
    for name, ctx, off, use, W in infos:
        for n2, c2, o2, u2, W2 in infos:
            if c2 != ctx or off is None: continue
            if use <= W2 and off == o2: R.ok('%s takes over only what %s computed' % (name, n2))
            else: R.bad(name, 'stale', 'what is taken over after %s was not all computed by it' % n2)
    flags = {name: off for name, ctx, off, use, W in infos if off is not None}
    libs, exes = ir.jamroot_units()
    for r, _ in pmap(work, [('driver', None, flags)] + [('tool', src, flags) for n, src in sorted(exes.items())]): R.merge(r)
    R.coverage['rule'] = ('per extractor, with its context marked as not computed: every field read was written on all paths of the same call and every buffer word read was cleared in it; '
                          'per use: a dataflow over the calling functions shows each context was reset since it was used for another image, and that all users of one context agree on upright and rotated image')
    R.assumptions += ['the address and capacity of an owned buffer may depend on earlier glyphs, its contents may not', 'callees do not write through const pointers or references']
    return R
