"""Ghost cursors for buffers filled from a file and buffers filled front to back.

f(region): bytes delivered into the region by read();  r(region): end of the most advanced byte looked at;
w(region): bytes written so far by stores that each continue where the previous one stopped."""
import re
from .poly import Poly, ZERO
from .absint import conv, width
from .models import Models, ALGO


class FillModels(Models):
    def __init__(self, **kw):
        Models.__init__(self, **kw)
        self.ghosts = []          # (base, kind)

    def detect(self, E):
        fn = E.fn
        bases = {}
        for i in fn.insts():
            if i.op == 'call' or i.op == 'invoke':
                if i.callee == 'read':
                    p = E.P(conv(i.ops[1]))
                    if p: bases.setdefault(p[0], set()).update('fr')
            elif i.op == 'store' and i.d['sz'] == 1:
                p = E.P(conv(i.ops[1]))
                if p and p[0][0] in ('new',): bases.setdefault(p[0], set()).add('w')
        self.ghosts = [(b, k) for b, ks in bases.items() for k in sorted(ks) if b[0] == 'new' and not ('w' in ks and 'f' in ks and k == 'w')]
        for b, k in self.ghosts:
            loc = (('ghost', b, k), 0, 8)
            for bb in fn.reach: E._read_entry(loc, bb, 'i64')
            for bb in fn.reach: E._read_out(loc, bb, 'i64')
        for bb in fn.reach:
            for m in E.mphis_by_block.get(bb, []):
                if m[2][0][0] == 'ghost' and E.find(m) == m: E.U(m, 64)
        # bytes looked at were delivered; cursors are monotone and non-negative by construction

    def loc(self, base, kind): return (('ghost', base, kind), 0, 8)

    def before(self, E, base, kind, i): return E.U(E._read(self.loc(base, kind), i.bb, i.idx, 'i64'), 64)

    def ghost_effect(self, E, i, loc, t):
        _, base, kind = loc[0]
        if i.id == base[1] and i.op in ('call', 'invoke'): return ('c', 64, 0)
        if kind == 'f':
            if i.callee == 'read' and i.op in ('call', 'invoke'):
                p = E.P(conv(i.ops[1]))
                if p and p[0] == base: return ('gset', i.id, loc)
            return None
        if kind == 'w' and i.op == 'store' or kind == 'r' and i.op == 'load':
            p = E.P(conv(i.ops[1 if kind == 'w' else 0]))
            if p and p[0] == base: return ('gset', i.id, loc)
            return None
        if kind == 'w' and i.op in ('call', 'invoke'):
            m = ALGO.search(i.dem)
            c = i.callee or ''
            if c.startswith('llvm.memset') and self.clears(E, i, base): return None      # a fresh array of zeros has no pixels yet
            for o in i.ops:
                if o.get('t') == 'ptr':
                    p = E.P(conv(o))
                    if p and p[0] == base and not (i.d.get('ro') or i.d.get('rn') or c.startswith(('llvm.lifetime', 'llvm.dbg')) or 'operator delete' in i.dem):
                        return ('gset', i.id, loc)
        return None

    def clears(self, E, i, base):
        """the memset of a value-initialised array: the whole of it, to zero"""
        p = E.P(conv(i.ops[0])); a = E.fn.inst[base[1]]
        if not (p and p[0] == base and i.ops[1].get('k') == 'c' and int(i.ops[1]['v']) == 0): return False
        return (p[1] - ZERO).is_const() and p[1].cval() == 0 and i.ops[2] == a.ops[0]

    def ghost_value(self, E, v):
        _, iid, loc = v
        _, base, kind = loc[0]
        i = E.fn.inst[iid]
        prev = E.U(E._read(loc, i.bb, i.idx, 'i64'), 64)
        if kind == 'f': return prev + E.S(('i', iid))
        if i.op in ('store', 'load'):
            p = E.P(conv(i.ops[1 if kind == 'w' else 0]))
            new = p[1] + i.d['sz']
            if kind == 'r' and (prev - new).is_const() and (prev - new).cval() >= 0: return prev
            return new
        for o in self.ranges(E, i):
            if o[0] == base: return o[1] + o[2]
        return None

    def ranges(self, E, i):
        for j, what, ptr, ln, wr in self.accesses(E):
            if j is i and wr and ln is not None:
                p = E.P(ptr)
                if p: yield p[0], p[1], ln

    def slice_roots(self, E):
        r = []
        for b, k in self.ghosts:
            for bb in range(len(E.fn.blocks)):
                r += [m for m in E.mphis_by_block.get(bb, []) if m[2] == self.loc(b, k)]
        return r

    def candidates(self, E, h, K, pa, init, hat):
        C = []
        for b, k in self.ghosts:
            gs = [(a, v) for a, kind, v in pa if kind == 'U' and v[0] == 'mphi' and v[2] == self.loc(b, k)]
            offs = [(a, v) for a, kind, v in pa if kind == 'off' and (E.P(v) or (None,))[0] == b]
            for g, _ in gs:
                for a, _ in offs:
                    d = Poly.atom(g) - Poly.atom(a)
                    C += [d, -d]
                # a store (load) inside the loop goes on where the cursor stands
                if k not in 'wr': continue
                body = E.fn.loops[h]['body']
                for i in E.fn.insts():
                    if i.bb not in body or i.op != ('store' if k == 'w' else 'load'): continue
                    p = E.P(conv(i.ops[1 if k == 'w' else 0]))
                    if p is None or p[0] != b: continue
                    for e in list(E.expand_inner(p[1], h))[:4]:
                        d = Poly.atom(g) - e
                        C += [d, -d]
        return C

    def atom_facts(self, E, a):
        out = Models.atom_facts(self, E, a)
        k = E.names[a]
        if k[0] == 'U' and k[1][0] in ('mphi', 'gset'):
            v = k[1]
            if v[2][0][0] == 'ghost': out = out + [Poly.atom(a)]
        return out

    def fill_obligations(self, E):
        """(inst, what, [goals])"""
        fn = E.fn
        for i in fn.insts():
            if i.op in ('call', 'invoke') and i.callee == 'read':
                p = E.P(conv(i.ops[1]))
                if p and p[0] in [b for b, k in self.ghosts if k == 'f']:
                    f = self.before(E, p[0], 'f', i)
                    yield i, 'read() appends where the previous one stopped', [p[1] - f, f - p[1]]
            if i.op == 'store':
                p = E.P(conv(i.ops[1]))
                if p and (p[0], 'w') in self.ghosts:
                    w = self.before(E, p[0], 'w', i)
                    yield i, 'store continues where the previous one stopped', [p[1] - w, w - p[1]]
            if i.op == 'load':
                p = E.P(conv(i.ops[0]))
                if p and (p[0], 'f') in self.ghosts:
                    f = self.before(E, p[0], 'f', i)
                    yield i, 'only bytes delivered by the file are looked at', [f - p[1] - i.d['sz']]
