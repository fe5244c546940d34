"""Relational abstract interpretation of one normalised function.

Values are polynomials over SSA/memory atoms (exactness of every wrapping operation is itself an
obligation); facts at a program point are the dominating branch conditions, the definitions of atoms,
library models, and loop invariants.  Loop invariants are the greatest inductive subset of a candidate
template set (guards, strides, trip counts)."""
import math, os, re
from fractions import Fraction
from .poly import Poly, LP, ZERO, ONE

LIT = 1 << 28


def width(t):
    m = re.match(r'^i(\d+)$', t)
    return int(m.group(1)) if m else None


class Unknown(Exception):
    pass


def conv(o):
    k = o['k']
    if k == 'i': return ('i', o['v'])
    if k == 'a': return ('a', o['v'])
    if k == 'c': return ('c', o['w'], int(o['v']))
    if k == 'null': return ('null',)
    if k == 'undef': return ('undef',)
    if k == 'g': return ('g', o['n'])
    if k == 'fn': return ('fn', o['n'])
    if k == 'ce':
        if 'gep' in o: return ('cegep', conv(o['ops'][0]), o['gep']['coff'])
        return ('x', id(o))
    if k == 'f': return ('f', o['v'])
    if k == 'zero': return ('zero',)
    return ('x', id(o))


SIGNED_RESULT = ('read', 'pread', 'write')   # ssize_t: -1 or a count


class Engine:
    def __init__(self, fn, models=None, assume_fields=None, maxside=None, log=None, scope=None):
        self.bounded = bool(models and models.side)
        self.fn = fn; self.models = models; self.log = log or (lambda *a: None)
        self.loading = set(); self.poison = False
        self.names = []; self.ids = {}; self.afacts = {}; self.adef = {}
        self.T31 = self.atom(('T31',))
        t31 = Poly.atom(self.T31); LP.big = self.T31
        self.afacts[self.T31] = [t31 - LIT, t31 * t31 - t31 * (1 << 10)]
        self.adef[self.T31] = None
        self.optimistic = False
        self.inv = {}        # header -> list of polys
        self.reset_memo()
        self.optmemo = {}; self.widen = False
        self.deep = set(); self.sliced = None; self.lpcache = {}; self.trace = bool(os.environ.get('PPV_TRACE')); self.untouchedmemo = {}
        self.memmemo = {}; self.mphi = {}; self.fwd = {}; self.reachmemo = {}; self.buildingmem = 1; self.storesaddr = None; self.building = []
        self.mphis_by_block = {}
        self.extra_facts = {}   # block -> list of polys (assumptions valid from that block on)
        self.entry_facts = []
        self.region_size = {}   # base -> Poly (bytes)
        self.assumptions = set()
        self.obl_cache = {}
        self.regionfacts = {}
        self.phibase = {}
        self.regions = {}
        if models: models.setup(self)

    # -- atoms ---------------------------------------------------------------------------------
    def atom(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.names); self.ids[key] = i; self.names.append(key)
        return i

    def aname(self, a):
        k = self.names[a]
        if k[0] in ('U', 'S', 'off'):
            v = k[1]
            if v[0] == 'i':
                d = self.fn.inst[v[1]].d
                return '%s%%%d%s' % ('' if k[0] == 'U' else k[0] + ':', v[1], '{%s}' % d['var'] if d.get('var') else '')
            if v[0] == 'a':
                return self.fn.params[v[1]].get('n') or 'arg%d' % v[1]
            return '%s%s' % (k[0], v)
        if k[0] == 'T31': return '2^31'
        if k[0] in ('q', 'sq'): return '[%s / %s]' % (self.show(k[1]), self.show(k[2]))
        if k[0] == 'U' and k[1][0] == 'm' and k[1][1][0] == 'init': return 'mem%s+%d' % (k[1][1][1][0][1:], k[1][1][1][1])
        return str(k)

    def show(self, p): return p.show(self.aname)

    def reset_memo(self):
        self.memU = {}; self.memS = {}; self.memP = {}; self.factmemo = {}; self.provememo = {}; self.inprog = set(); self.globmemo = {}
        self.condmemo = {}; self.elimmemo = {}

    def cpoly(self, v):
        if self.bounded or abs(v) < LIT: return Poly.const(v)
        T = Poly.atom(self.T31)
        for base, p in ((1 << 31, T), (1 << 32, T * 2), (1 << 63, T * T * 2), (1 << 64, T * T * 4), (1 << 62, T * T), (1 << 30, None)):
            if p is None: continue
            for s in (1, -1):
                d = v - s * base
                if abs(d) < LIT: return p * s + d
        return Poly.const(v)

    def rangeU(self, a, w):
        A = Poly.atom(a)
        if self.bounded and w >= 31: return [A]
        return [A, self.maxU(w) - A]

    def rangeS(self, a, w):
        A = Poly.atom(a)
        if self.bounded and w >= 31: return []
        return [A + self.cpoly(1 << (w - 1)), self.cpoly((1 << (w - 1)) - 1) - A]

    def maxU(self, w): return self.cpoly((1 << w) - 1)

    # -- memory --------------------------------------------------------------------------------
    def find(self, v):
        while v in self.fwd: v = self.fwd[v]
        return v

    def roots(self, base):
        if base and base[0] == 'phib': return self.phibase.get(base, frozenset([base]))
        return frozenset([base])

    def escaped_unknown(self, base): return base[0] in ('unk',)

    def loc_of(self, ptr, size):
        p = self.P(ptr)
        if p is None: return None
        base, off = p
        if off.is_const() and off.cval() == int(off.cval()): return (base, int(off.cval()), size)
        return None

    def load_value(self, inst):
        """resolve a load instruction to a value tuple"""
        if inst.id in self.memmemo:
            if inst.id in self.loading: self.poison = True
            return self.find(self.memmemo[inst.id])
        key = ('m', ('ld', inst.id))
        self.memmemo[inst.id] = key     # in case of recursion
        self.loading.add(inst.id)
        try:
            loc = self.loc_of(conv(inst.ops[0]), inst.d['sz'])
            if loc is None or loc[0][0] in ('g',):
                return key
            v = self._read(loc, inst.bb, inst.idx, inst.t)
        finally: self.loading.discard(inst.id)
        if v is None: v = key
        self.memmemo[inst.id] = v
        if self.poison and not self.loading:
            # what was computed from the provisional value is forgotten
            self.poison = False
            self.memU = {}; self.memS = {}; self.memP = {}; self.optmemo = {}
        return self.find(v)

    def untouched(self, loc):
        """no instruction of the function can write loc"""
        if loc in self.untouchedmemo: return self.untouchedmemo[loc]
        if loc[0][0] not in ('arg',):
            self.untouchedmemo[loc] = False; return False
        self.untouchedmemo[loc] = False
        r = all(i.op not in ('store', 'call', 'invoke') or self._effect(i, loc, None) is None for i in self.fn.insts())
        self.untouchedmemo[loc] = r
        return r

    def _read(self, loc, bb, idx, t):
        """value of memory location loc just before instruction idx of block bb"""
        if self.untouched(loc): return ('m', ('init', loc))
        for k in range(idx - 1, -1, -1):
            r = self._effect(self.fn.blocks[bb][k], loc, t)
            if r is not None: return r
        return self._read_entry(loc, bb, t)

    def _read_out(self, loc, bb, t):
        key = ('out', loc, bb)
        if key in self.memmemo: return self.find(self.memmemo[key])
        r = self._read(loc, bb, len(self.fn.blocks[bb]), t)
        self.memmemo[key] = r
        return r

    def _read_entry(self, loc, bb, t):
        key = ('in', loc, bb)
        if key in self.memmemo: return self.find(self.memmemo[key])
        if bb == 0:
            r = ('undef',) if loc[0][0] in ('al', 'new') and not self._zeroinit(loc) else ('m', ('init', loc))
            self.memmemo[key] = r; return r
        preds = self.fn.pred[bb]
        if len(preds) == 1 :
            # avoid unbounded recursion depth problems: iterate simple chains
            r = self._read_out(loc, preds[0], t)
            self.memmemo[key] = r; return r
        ph = ('mphi', bb, loc, t)
        self.memmemo[key] = ph
        self.mphi[ph] = None
        self.building.append(ph)
        inc = {}
        for p in preds: inc[p] = self._read_out(loc, p, t)
        self.mphi[ph] = inc
        self.building.pop()
        self.mphis_by_block.setdefault(bb, []).append(ph)
        if not any(x[2] == loc for x in self.building): self.simplify(loc)
        return self.find(ph)

    def simplify(self, loc):
        """forward every strongly connected web of memory phis of loc that is fed by a single outside value"""
        changed = True
        while changed:
            changed = False
            nodes = [m for m in self.mphi if m[2] == loc and m not in self.fwd and self.mphi[m]]
            succ = {m: [self.find(x) for x in self.mphi[m].values()] for m in nodes}
            reach = {}
            for m in nodes:
                seen = set(); st = [m]
                while st:
                    for y in succ.get(st.pop(), ()):
                        if y not in seen: seen.add(y); st.append(y)
                reach[m] = seen
            for m in nodes:
                scc = [x for x in nodes if x == m or (x in reach[m] and m in reach[x])]
                ext = set(y for x in scc for y in succ[x] if y not in scc)
                if len(ext) == 1 and ('undef',) not in ext:
                    v = ext.pop()
                    for x in scc: self.fwd[x] = v; self.mphi.pop(x, None)
                    changed = True
                    break

    def _zeroinit(self, loc): return False

    def _effect(self, i, loc, t):
        """value of loc after instruction i if i defines/clobbers it, else None"""
        base, off, size = loc
        if base[0] == 'ghost': return self.models.ghost_effect(self, i, loc, t)
        if i.op == 'store':
            if base[0] == 'arg' and self.loaded_from_arg(i.ops[1]): return None
            p = self.P(conv(i.ops[1]))
            if p is None: return None
            b2, o2 = p
            if not (self.roots(b2) & self.roots(base)): return None
            if b2 == base and o2.is_const():
                o2 = o2.cval(); s2 = i.d['sz']
                if o2 == off and s2 == size: return conv(i.ops[0])
                if o2 + s2 <= off or off + size <= o2: return None
                if o2 <= off and off + size <= o2 + s2 and width(i.d.get('st', '')):
                    x = self.bits(conv(i.ops[0]), 8 * int(off - o2), 8 * size)
                    if x is not None: return x
                return ('m', ('clob', i.id, loc))
            if b2 == base:
                # variable offset: prove disjointness is out of reach, be conservative
                return ('m', ('clob', i.id, loc))
            return ('m', ('clob', i.id, loc))
        if i.op in ('call', 'invoke'):
            if i.d.get('ro') or i.d.get('rn'): return None
            cal = i.callee or ''
            if cal.startswith('llvm.lifetime'):
                return None
            if cal.startswith('llvm.dbg') or cal.startswith('llvm.assume'): return None
            if base[0] == 'new' and base[1] == i.id: return ('undef',)
            if cal.startswith(('llvm.memcpy', 'llvm.memmove')):
                p, q, n = self.P(conv(i.ops[0])), self.P(conv(i.ops[1])), conv(i.ops[2])
                if p and q and n[0] == 'c' and p[0] == base and p[1].is_const() and q[1].is_const():
                    lo = int(p[1].cval())
                    if lo <= off and off + size <= lo + n[2]:
                        return self._read((q[0], int(q[1].cval()) + off - lo, size), i.bb, i.idx, t)
            eff = self.models.effects(self, i) if self.models else None
            if eff is not None:
                for (b2, lo, hi) in eff:   # clobbered byte ranges (None = whole)
                    if b2 is None: continue
                    if self.roots(b2) & self.roots(base):
                        if lo is None or not (hi is not None and (hi <= off or off + size <= lo)):
                            return ('m', ('clob', i.id, loc))
                return None
            for k, o in enumerate(i.ops):
                if o.get('t') != 'ptr': continue
                at = i.d['pattr'][k] if k < len(i.d.get('pattr', [])) else {}
                if at.get('ro') or at.get('byval'): continue
                p = self.P(conv(o))
                if p is None: continue
                b2, o2 = p
                if self.roots(b2) & self.roots(base):
                    lo, hi = None, None
                    ext = self.subobject(o, p)
                    if ext is not None:
                        lo, hi = ext
                        if hi <= off or off + size <= lo: continue
                    return ('m', ('clob', i.id, loc))
        return None

    def loaded_from_arg(self, o):
        """pointer read from a field of an argument object: it designates memory owned by the object, not the
        object itself (unless this function stores addresses of objects into fields: then do not conclude)"""
        def strip(o):
            while o['k'] == 'i' and self.fn.inst[o['v']].op == 'getelementptr': o = self.fn.inst[o['v']].ops[0]
            return o
        if self.storesaddr is None:
            self.storesaddr = any(i.op == 'store' and i.ops[0].get('t') == 'ptr' and strip(i.ops[0])['k'] == 'a' for i in self.fn.insts())
        if self.storesaddr: return False
        st = [o]; seen = set()
        while st:
            o = strip(st.pop())
            if o['k'] != 'i': return False
            if o['v'] in seen: continue
            seen.add(o['v'])
            i = self.fn.inst[o['v']]
            if i.op == 'phi': st += [x for x, b in i.ops]; continue
            if i.op == 'select': st += i.ops[1:]; continue
            if i.op != 'load' or strip(i.ops[0])['k'] != 'a': return False
        return True

    def subobject(self, o, p):
        """byte range of the member subobject a pointer argument designates, when its GEP says so"""
        if o['k'] != 'i': return None
        i = self.fn.inst[o['v']]
        if i.op != 'getelementptr' or not p[1].is_const(): return None
        g = i.d['gep']
        lay = self.fn.mod.structs.get(g['sty'].lstrip('%').strip('"'))
        if not lay or len(g['idx']) != 2 or g['idx'][0] != 0 or g['idx'][1] is None: return None
        k = g['idx'][1]
        lo = int(p[1].cval())
        a = self.P(conv(i.ops[0]))
        if k + 1 < len(lay): hi = lo - lay[k][0] + lay[k + 1][0]
        else: return None if True else None
        return (lo, hi)

    # -- pointers ------------------------------------------------------------------------------
    def P(self, v):
        v = self.find(v)
        if v in self.memP: return self.memP[v]
        key = ('P', v)
        if key in self.inprog: return None
        self.inprog.add(key)
        try: r = self._P(v)
        finally: self.inprog.discard(key)
        self.memP[v] = r
        return r

    def phi_incoming(self, v):
        v = self.find(v)
        if v[0] == 'i':
            i = self.fn.inst[v[1]]
            return {b: conv(x) for x, b in i.ops if b in self.fn.reach}
        return {b: self.find(x) for b, x in (self.mphi.get(v) or {}).items()}

    def is_phi(self, v):
        return (v[0] == 'i' and self.fn.inst[v[1]].op == 'phi') or v[0] == 'mphi'

    def phi_block(self, v): return self.fn.inst[v[1]].bb if v[0] == 'i' else v[1]

    def ptr_preds(self, x):
        """pointer values a phi/gep/select/forwarded load takes its value from, or None for a source"""
        if self.is_phi(x): return [self.find(y) for y in self.phi_incoming(x).values()]
        if x[0] == 'i':
            i = self.fn.inst[x[1]]
            if i.op == 'getelementptr': return [self.find(conv(i.ops[0]))]
            if i.op == 'select': return [self.find(conv(i.ops[1])), self.find(conv(i.ops[2]))]
            if i.op == 'load':
                y = self.load_value(i)
                if y != ('m', ('ld', i.id)): return [self.find(y)]
                return None
            if self.models:
                s = self.models.pointer_source(self, i)
                if s is not None: return [self.find(s)]
        return None

    def ptr_reach(self, v):
        v = self.find(v)
        r = self.reachmemo.get(v)
        if r is not None: return r
        seen = set(); st = [v]
        while st:
            x = st.pop()
            for y in self.ptr_preds(x) or ():
                if y not in seen: seen.add(y); st.append(y)
        if not self.buildingmem: self.reachmemo[v] = seen
        return seen

    def phi_sources(self, v):
        """values entering the pointer web of phi/select v: non-phi sources, and merge phis that do not
        themselves depend on v (those are regions of their own)"""
        seen = set(); out = set(); st = [v]; v = self.find(v)
        while st:
            x = self.find(st.pop())
            if x in seen: continue
            seen.add(x)
            if x != v and self.is_phi(x) and v not in self.ptr_reach(x): out.add(x); continue
            ps = self.ptr_preds(x)
            if ps is None: out.add(x)
            else: st.extend(ps)
        return out

    def source_base(self, x):
        x = self.find(x)
        if x[0] == 'undef': return None
        p = self.P(x)
        return p[0] if p else ('unk', x)

    def _P(self, v):
        k = v[0]
        if k == 'null': return (('null',), ZERO)
        if k == 'a': return (('arg', v[1]), ZERO)
        if k == 'g': return (('g', v[1]), ZERO)
        if k == 'fn': return (('g', v[1]), ZERO)
        if k == 'cegep':
            p = self.P(v[1]); return (p[0], p[1] + v[2]) if p else None
        if k == 'm':
            if self.models:
                r = self.models.memptr(self, v)
                if r is not None: return r
            return (('mem', v[1]), ZERO)
        if k == 'undef': return None
        if k == 'mphi' or (k == 'i' and self.fn.inst[v[1]].op in ('phi', 'select')):
            srcs = self.phi_sources(v)
            bases = set(self.source_base(s) for s in srcs) - {None}
            nn = bases - {('null',)}
            if len(nn) == 1:
                base = nn.pop()
                inc = self.phi_incoming(v) if self.is_phi(v) else None
                if k == 'i' and self.fn.inst[v[1]].op == 'select':
                    a = self.atom(('off', v)); self.adef.setdefault(a, v)
                    return (base, Poly.atom(a))
                a = self.atom(('off', v)); self.adef.setdefault(a, v)
                return (base, Poly.atom(a))
            base = ('phib', v)
            rs = set()
            for b in nn: rs |= self.roots(b)
            self.phibase[base] = frozenset(rs) | {base}
            # different regions: the merged pointer is its own region, offset 0 at the phi
            return (base, ZERO)
        if k == 'i':
            i = self.fn.inst[v[1]]
            if i.op == 'alloca': return (('al', i.id), ZERO)
            if i.op == 'getelementptr':
                p = self.P(conv(i.ops[0]))
                if p is None: return None
                off = p[1] + i.d['gep']['coff']
                for x, s in i.d['gep']['var']:
                    if s >= (1 << 63): s -= 1 << 64
                    off = off + self.S(conv(x)) * s
                return (p[0], off)
            if i.op == 'load':
                y = self.load_value(i)
                if y == ('m', ('ld', i.id)):
                    if self.models:
                        r = self.models.memptr(self, y)
                        if r is not None: return r
                    return (('mem', ('ld', i.id)), ZERO)
                return self.P(y)
            if i.op in ('call', 'invoke', 'extractvalue'):
                if self.models:
                    r = self.models.pointer(self, i)
                    if r is not None: return r
                return (('ret', i.id), ZERO)
            if i.op in ('bitcast', 'freeze', 'addrspacecast'): return self.P(conv(i.ops[0]))
            return (('unk', v), ZERO)
        return (('unk', v), ZERO)

    # -- integers ------------------------------------------------------------------------------
    def memo(self, name, v, f):
        m = (self.optmemo if self.optimistic else (self.memU if name == 'U' else self.memS))
        key = (name, v) if self.optimistic else v
        if key in m: return m[key]
        ip = (name, v, self.optimistic)
        if ip in self.inprog:
            if v[0] == 'i' and v[1] in self.loading: self.poison = True
            return None
        self.inprog.add(ip)
        try: r = f()
        finally: self.inprog.discard(ip)
        if r is not None: m[key] = r
        return r

    def vtype(self, v):
        v = self.find(v)
        if v[0] == 'i': return self.fn.inst[v[1]].t
        if v[0] == 'a': return self.fn.params[v[1]]['t']
        if v[0] == 'c': return 'i%d' % v[1]
        if v[0] == 'mphi': return v[3]
        if v[0] in ('gmark', 'gset'): return 'i64'
        return None

    def opaqueU(self, v, w):
        a = self.atom(('U', v))
        if a not in self.adef:
            self.adef[a] = v
            self.afacts.setdefault(a, []).extend(self.rangeU(a, w))
            if self.models: self.models.int_atom(self, v, a, w)
        return Poly.atom(a)

    def opaqueS(self, v, w):
        a = self.atom(('S', v))
        if a not in self.adef:
            self.adef[a] = v
            self.afacts.setdefault(a, []).extend(self.rangeS(a, w))
            if self.models: self.models.int_atom_s(self, v, a, w)
        return Poly.atom(a)

    def U(self, v, w=None):
        v = self.find(v)
        if v[0] == 'c': return self.cpoly(v[2])
        r = self.memo('U', v, lambda: self._U(v, w))
        if r is None: r = self.opaqueU(v, w or width(self.vtype(v) or 'i64') or 64)
        return r

    def S(self, v, w=None):
        v = self.find(v)
        if v[0] == 'c':
            x = v[2]
            if x >= 1 << (v[1] - 1) and v[1] > 1: x -= 1 << v[1]
            return self.cpoly(x)
        r = self.memo('S', v, lambda: self._S(v, w))
        if r is None: r = self.opaqueS(v, w or width(self.vtype(v) or 'i64') or 64)
        return r

    def ok(self, goal, inst):
        """goal>=0 at inst (or assumed in optimistic mode)"""
        if self.optimistic: return True
        if self.prove(goal, (inst.bb, inst.idx), depth=1, light=True): return True
        # a counter's increment: worth a look at the bounds of what it is compared with
        if inst.op in ('add', 'sub'): return any(o['k'] == 'c' for o in inst.ops) and self.prove(goal, (inst.bb, inst.idx), depth=1)
        # a product guarded on each way of getting here
        return inst.op == 'mul' and not self.bounded and self.by_merge(goal, inst.bb)

    def by_merge(self, goal, bb):
        """prove goal in block bb separately for each way into the closest merge above it"""
        key = (goal, bb, 'merge')
        if key in self.provememo: return self.provememo[key]
        self.provememo[key] = False
        m = bb; r = False
        for _ in range(6):
            ps = self.fn.pred[m]
            if m in self.fn.loops: break
            if 2 <= len(ps) <= 4:
                ine, dis = self.block_facts(bb); r = True
                for p in ps:
                    pi, pd = self.block_facts(p); ei, ed = self.edge_facts(p, m)
                    if not self._prove(goal, list(ine) + list(pi) + list(ei), list(dis) + list(pd) + list(ed), 1, False, p): r = False; break
                break
            if m == 0: break
            m = self.fn.idom[m]
        self.provememo[key] = r
        return r

    def _int_phi(self, v, w, kind):
        inc = self.phi_incoming(v)
        vals = set(self.find(x) for x in inc.values()) - {('undef',), v}
        if len(vals) == 1 and self.phi_block(v) not in self.fn.loops:
            x = vals.pop()
            if x[0] in ('c', 'a'): return self.U(x, w) if kind == 'U' else self.S(x, w)
        a = self.atom((kind, v))
        if a not in self.adef:
            self.adef[a] = v
            if kind == 'U': self.afacts.setdefault(a, []).extend(self.rangeU(a, w))
            else: self.afacts.setdefault(a, []).extend(self.rangeS(a, w))
        return Poly.atom(a)

    def _U(self, v, w):
        if v[0] == 'gmark':
            i = self.fn.inst[v[1]]
            return self.U(self._read(v[2], i.bb, i.idx, 'i64'), 64) + 1
        if v[0] == 'gset':
            r = self.models.ghost_value(self, v)
            return r if r is not None else self.opaqueU(v, 64)
        if v[0] == 'undef': return self.opaqueU(v, w or 64)
        t = self.vtype(v)
        w = width(t) if t and width(t) else (w or 64)
        if v[0] == 'mphi': return self._int_phi(v, w, 'U')
        if v[0] == 'a':
            return self.opaqueU(v, w)
        if v[0] == 'm':
            return self.opaqueU(v, w)
        if v[0] != 'i': return self.opaqueU(v, w)
        i = self.fn.inst[v[1]]; op = i.op
        if self.models:
            r = self.models.intval(self, i, 'U')
            if r is not None: return r
        if op == 'phi': return self._int_phi(v, w, 'U')
        if op == 'load':
            y = self.load_value(i)
            if y == ('m', ('ld', i.id)) or y[0] in ('undef', 'x', 'f'): return self.opaqueU(v, w)
            ty = self.vtype(y)
            if ty and width(ty) not in (None, w): return self.opaqueU(v, w)
            return self.U(y, w)
        if op == 'zext':
            return self.U(conv(i.ops[0]))
        if op in ('trunc', 'lshr', 'and'):
            sl = self.slice_of(v, w)
            if sl is not None and sl[0] != 'undef': return self.U(sl, w)
        if op == 'trunc':
            x = self.U(conv(i.ops[0]))
            if self.ok(self.maxU(w) - x, i): return x
            return self.opaqueU(v, w)
        if op == 'freeze': return self.U(conv(i.ops[0]))
        if op in ('add', 'sub', 'mul', 'shl', 'or'):
            e = self._binU(i, op, w)
            if e is not None: return e
            return self.opaqueU(v, w)
        if op in ('udiv', 'urem', 'lshr', 'and', 'sdiv', 'srem'):
            e = self._divU(i, op, w, v)
            if e is not None: return e
            return self.opaqueU(v, w)
        if op == 'sext':
            x = self.S(conv(i.ops[0]))
            if self.ok(x, i): return x
            return self.opaqueU(v, w)
        if op == 'ptrtoint':
            p = self.P(conv(i.ops[0]))
            if p is not None:
                b = self.opaqueU(('addr', p[0]), w)
                return b + p[1]
            return self.opaqueU(v, w)
        if op == 'select':
            a = self.atom(('U', v))
            if a not in self.adef:
                self.adef[a] = v
                self.afacts.setdefault(a, []).extend(self.rangeU(a, w))
            return Poly.atom(a)
        if op in ('call', 'invoke') and i.callee and re.match(r'llvm\.(umin|umax|smin|smax|abs|usub\.sat)', i.callee):
            x = self.opaqueU(v, w); a = list(x.atoms())[0]
            if not self.optimistic or True:
                pass
            return x
        return self.opaqueU(v, w)

    def bits(self, v, lo, n, depth=0):
        """a value equal to bits [lo, lo+n) of v (zero-extended slices give constant 0), or None"""
        v = self.find(v)
        if v[0] == 'c': return ('c', n, (v[2] >> lo) & ((1 << n) - 1))
        if v[0] == 'undef': return v
        w = width(self.vtype(v) or '')
        if w is None or depth > 12 or lo + n > w: return None
        if lo == 0 and n == w: return v
        if v[0] != 'i': return None
        i = self.fn.inst[v[1]]
        if i.op == 'extractvalue': return ('m', ('sl', v, lo, n))
        rec = lambda x, l: self.bits(x, l, n, depth + 1)
        if i.op == 'load':
            y = self.load_value(i)
            if y != ('m', ('ld', i.id)) and y != v:
                r = rec(y, lo)
                if r is not None: return r
            loc = self.loc_of(conv(i.ops[0]), i.d['sz'])
            if loc is not None and loc[0][0] != 'g' and lo % 8 == 0 and n % 8 == 0:
                return self._read((loc[0], loc[1] + lo // 8, n // 8), i.bb, i.idx, 'i%d' % n)
            return None
        if i.op in ('zext',):
            x = conv(i.ops[0]); xw = width(self.vtype(x) or '')
            if xw is None: return None
            if lo >= xw: return ('c', n, 0)
            if lo + n <= xw: return rec(x, lo)
            return x if lo == 0 and n >= xw else None
        if i.op in ('trunc', 'freeze'): return rec(conv(i.ops[0]), lo)
        if i.op in ('shl', 'lshr') and conv(i.ops[1])[0] == 'c':
            c = conv(i.ops[1])[2]
            if i.op == 'shl':
                if lo >= c: return rec(conv(i.ops[0]), lo - c)
                return ('c', n, 0) if lo + n <= c else None
            if lo + c >= w: return ('c', n, 0)
            if lo + c + n <= w: return rec(conv(i.ops[0]), lo + c)
            k = w - lo - c
            return self.bits(conv(i.ops[0]), lo + c, k, depth + 1)
        if i.op == 'and' and conv(i.ops[1])[0] == 'c':
            m = (conv(i.ops[1])[2] >> lo) & ((1 << n) - 1)
            if m == 0: return ('c', n, 0)
            return rec(conv(i.ops[0]), lo) if m == (1 << n) - 1 else None
        if i.op == 'or' or i.op == 'xor' or i.op == 'add' and i.d.get('disjoint'):
            x = rec(conv(i.ops[0]), lo); y = rec(conv(i.ops[1]), lo)
            if x is None or y is None: return None
            if x[0] == 'c' and x[2] == 0: return y
            if y[0] == 'c' and y[2] == 0: return x
            return None
        return None

    def slice_of(self, v, w):
        """the sub-word value an integer instruction extracts, when it is one"""
        i = self.fn.inst[v[1]]
        if i.op == 'trunc': s = self.bits(conv(i.ops[0]), 0, w)
        elif i.op == 'lshr' and conv(i.ops[1])[0] == 'c' and conv(i.ops[1])[2] in (16, 32): s = self.bits(conv(i.ops[0]), conv(i.ops[1])[2], w - conv(i.ops[1])[2])
        elif i.op == 'and' and conv(i.ops[1])[0] == 'c' and conv(i.ops[1])[2] in (0xffff, 0xffffffff): s = self.bits(conv(i.ops[0]), 0, conv(i.ops[1])[2].bit_length())
        else: return None
        return None if s == v else s

    def ptrdiff(self, i):
        """sub of two ptrtoint of the same base -> offset difference"""
        a, b = conv(i.ops[0]), conv(i.ops[1])
        if a[0] == 'i' and b[0] == 'i':
            x, y = self.fn.inst[a[1]], self.fn.inst[b[1]]
            if x.op == 'ptrtoint' and y.op == 'ptrtoint':
                p, q = self.P(conv(x.ops[0])), self.P(conv(y.ops[0]))
                if p and q and p[0] == q[0]: return p[1] - q[1]
        return None

    def UorS(self, o, i):
        """unsigned reading of an operand at instruction i; a call returning a signed count is read as signed once its sign is known"""
        v = self.find(o)
        if v[0] == 'i' and self.fn.inst[v[1]].callee in SIGNED_RESULT:
            s = self.S(v)
            if self.ok(s, i): return s
        return self.U(o)

    def _binU(self, i, op, w):
        a, b = conv(i.ops[0]), conv(i.ops[1])
        if op == 'sub':
            d = self.ptrdiff(i)
            if d is not None:
                return d if self.ok(d, i) else None
        if op == 'shl':
            if b[0] != 'c' or b[2] >= w: return None
            e = self.U(a) * (1 << b[2])
            return e if self.ok(self.maxU(w) - e, i) else None
        if op == 'or':
            if not i.d.get('disjoint'): return None
            op = 'add'
        if op == 'add':
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and b[2] >= 1 << (w - 1) and w > 1:
                e = self.U(a) - ((1 << w) - b[2])
                return e if self.ok(e, i) else None
            e = self.UorS(a, i) + self.UorS(b, i)
            if i.d.get('nuw') : return e
            if self.ok(self.maxU(w) - e, i): return e
            # cancelling wraparound: x + (y - z) where the intermediate wrapped
            return self._modsum(i, w)
        if op == 'sub':
            e = self.UorS(a, i) - self.UorS(b, i)
            if i.d.get('nuw'): return e
            if self.ok(e, i): return e
            return self._modsum(i, w)
        if op == 'mul':
            e = self.U(a) * self.U(b)
            if i.d.get('nuw'): return e
            return e if self.ok(self.maxU(w) - e, i) else None
        return None

    def _modpoly(self, v, w, depth=0):
        """polynomial congruent to v modulo 2^w, looking through wrapping add/sub/mul-by-constant"""
        v = self.find(v)
        if v[0] == 'i' and depth < 8:
            i = self.fn.inst[v[1]]
            if i.op in ('add', 'sub') and width(i.t) == w:
                x = self._modpoly(conv(i.ops[0]), w, depth + 1); y = self._modpoly(conv(i.ops[1]), w, depth + 1)
                return x + y if i.op == 'add' else x - y
            if i.op == 'load':
                y = self.load_value(i)
                if y != ('m', ('ld', i.id)) and y[0] not in ('undef',): return self._modpoly(y, w, depth + 1)
        if v[0] == 'c':
            x = v[2]
            return self.cpoly(x - (1 << w) if x >= 1 << (w - 1) else x)
        return self.U(v, w)

    def _modsum(self, i, w):
        if self.optimistic: return None
        try: e = self._modpoly(('i', i.id), w)
        except RecursionError: return None
        if self.prove(e, (i.bb, i.idx), depth=1, light=True) and self.prove(self.maxU(w) - e, (i.bb, i.idx), depth=1, light=True):
            return e
        return None

    def _divU(self, i, op, w, v):
        a, b = conv(i.ops[0]), conv(i.ops[1])
        if op in ('sdiv', 'srem'):
            x, y = self.S(a), self.S(b)
            if not (self.ok(x, i) and self.ok(y - 1, i)): return None
            op = 'udiv' if op == 'sdiv' else 'urem'
        else:
            if op == 'lshr':
                if b[0] != 'c': return None
                x, y, op = self.U(a), Poly.const(1 << b[2]), 'udiv'
            elif op == 'and':
                if a[0] == 'c': a, b = b, a
                if b[0] != 'c': 
                    return None
                if b[2] & (b[2] + 1): return self._and_bound(i, v, w, b[2])
                x, y, op = self.U(a), self.cpoly(b[2] + 1), 'urem'
            else:
                x, y = self.U(a), self.U(b)
        if y.is_const() and y.cval() == 0: return None
        if y.is_const() and y.cval() == 1: return x if op == 'udiv' else ZERO
        if x.is_const() and y.is_const():
            return Poly.const(x.cval() // y.cval() if op == 'udiv' else x.cval() % y.cval())
        q = self.quot(x, y, i)
        if op == 'udiv': return Poly.atom(q)
        return x - Poly.atom(q) * y

    def _and_bound(self, i, v, w, mask):
        e = self.opaqueU(v, w)
        self.afacts[list(e.atoms())[0]].append(self.cpoly(mask) - e)
        return e

    def quot(self, x, y, i=None):
        q = self.atom(('q', x, y))
        if q not in self.adef:
            self.adef[q] = ('q', x, y)
            Q = Poly.atom(q)
            # q*y <= x <= q*y + y - 1   (y >= 1 is an obligation of the division itself)
            self.afacts.setdefault(q, []).extend([Q, x - Q * y, Q * y + y - 1 - x, x - Q])
        return q

    def _S(self, v, w):
        if v[0] == 'undef': return self.opaqueS(v, w or 64)
        t = self.vtype(v)
        w = width(t) if t and width(t) else (w or 64)
        if v[0] == 'mphi': return self._int_phi(v, w, 'S')
        if v[0] != 'i':
            return self._S_from_U(v, w, None)
        i = self.fn.inst[v[1]]; op = i.op
        if self.models:
            r = self.models.intval(self, i, 'S')
            if r is not None: return r
        if op == 'phi': return self._int_phi(v, w, 'S')
        if op == 'load':
            y = self.load_value(i)
            if y == ('m', ('ld', i.id)) or y[0] in ('undef', 'x', 'f'): return self._S_from_U(v, w, i)
            ty = self.vtype(y)
            if ty and width(ty) not in (None, w): return self.opaqueS(v, w)
            return self.S(y, w)
        if op == 'zext': return self.U(conv(i.ops[0]))
        if op == 'sext': return self.S(conv(i.ops[0]))
        if op == 'freeze': return self.S(conv(i.ops[0]))
        if op == 'sub':
            d = self.ptrdiff(i)
            if d is not None: return d
        if op in ('add', 'sub', 'mul'):
            a, b = self.S(conv(i.ops[0])), self.S(conv(i.ops[1]))
            e = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if i.d.get('nsw'): return e
            lim = self.cpoly(1 << (w - 1))
            if self.ok(e + lim, i) and self.ok(lim - 1 - e, i): return e
            return self._S_from_U(v, w, i)
        if op == 'select':
            a = self.atom(('S', v))
            if a not in self.adef:
                self.adef[a] = v
                self.afacts.setdefault(a, []).extend(self.rangeS(a, w))
            return Poly.atom(a)
        if op in ('sdiv', 'srem'):
            x, y = self.S(conv(i.ops[0])), self.S(conv(i.ops[1]))
            if self.ok(y - 1, i):
                if self.ok(x, i):
                    q = self.quot(x, y, i)
                    return Poly.atom(q) if op == 'sdiv' else x - Poly.atom(q) * y
                if op == 'sdiv':
                    return self.squot(x, y)
        if op == 'ashr' and conv(i.ops[1])[0] == 'c':
            x = self.S(conv(i.ops[0])); y = Poly.const(1 << conv(i.ops[1])[2])
            q = self.atom(('q', x, y)); Q = Poly.atom(q)
            if q not in self.adef:
                self.adef[q] = ('q', x, y)
                self.afacts.setdefault(q, []).extend([x - Q * y, Q * y + y - 1 - x])
            return Q
        return self._S_from_U(v, w, i)

    def squot(self, x, y):
        """truncating signed quotient with y>=1, sign of x unknown"""
        q = self.atom(('sq', x, y)); Q = Poly.atom(q)
        if q not in self.adef:
            self.adef[q] = ('sq', x, y)
            self.afacts.setdefault(q, []).extend([Q * y + y - 1 - x, x + y - 1 - Q * y])
        return Q

    def _S_from_U(self, v, w, i):
        if v[0] == 'm' or v[0] == 'a' or i is not None:
            u = self.U(v, w)
            half = self.cpoly((1 << (w - 1)) - 1)
            at = i if i is not None else self.fn.blocks[0][0]
            if self.ok(half - u, at): return u
        return self.opaqueS(v, w)

    # -- facts ---------------------------------------------------------------------------------
    def cond_facts(self, v, truth, depth=0):
        """-> (ineqs, diseqs) implied by boolean value v being `truth`"""
        v = self.find(v)
        key = (v, truth)
        if key in self.condmemo: return self.condmemo[key]
        r = ([], [])
        if v[0] == 'i' and depth < 6:
            i = self.fn.inst[v[1]]
            if i.op == 'icmp': r = self.icmp_facts(i, truth)
            elif i.op == 'and' and truth or i.op == 'or' and not truth:
                a = self.cond_facts(conv(i.ops[0]), truth, depth + 1); b = self.cond_facts(conv(i.ops[1]), truth, depth + 1)
                r = (a[0] + b[0], a[1] + b[1])
            elif i.op == 'select':
                x, y = conv(i.ops[1]), conv(i.ops[2])
                if truth and y == ('c', 1, 0) or (not truth and x == ('c', 1, 1)):
                    other = x if truth else y
                    a = self.cond_facts(conv(i.ops[0]), truth, depth + 1); b = self.cond_facts(other, truth, depth + 1)
                    r = (a[0] + b[0], a[1] + b[1])
            elif i.op == 'xor' and conv(i.ops[1]) == ('c', 1, 1): r = self.cond_facts(conv(i.ops[0]), not truth, depth + 1)
            elif i.op == 'freeze': r = self.cond_facts(conv(i.ops[0]), truth, depth + 1)
            elif i.op == 'load':
                y = self.load_value(i)
                if y[0] == 'i' and y != v: r = self.cond_facts(y, truth, depth + 1)
            elif self.models:
                m = self.models.cond(self, i, truth)
                if m: r = m
        self.condmemo[key] = r
        return r

    def icmp_polys(self, i):
        """(lhs, rhs) polys for an icmp, in the interpretation its predicate asks for"""
        a, b = conv(i.ops[0]), conv(i.ops[1])
        pr = i.d['pred']
        if i.ops[0].get('t') == 'ptr':
            p, q = self.P(a), self.P(b)
            if p is None or q is None or p[0] != q[0]:
                return None
            return p[1], q[1]
        if pr[0] == 's': return self.S(a), self.S(b)
        if pr in ('eq', 'ne'):
            # either interpretation is sound as long as both sides use the same one
            w = width(i.ops[0].get('t', '')) or 64
            neg = any(o[0] == 'c' and o[2] >= 1 << (w - 1) for o in (a, b)) and w > 1
            def signedish(o):
                o = self.find(o)
                return o[0] == 'i' and (self.fn.inst[o[1]].op in ('sext', 'sdiv', 'srem') or self.fn.inst[o[1]].d.get('nsw') and not self.fn.inst[o[1]].d.get('nuw') or self.ptrdiff_safe(o))
            if neg or signedish(a) or signedish(b): return self.S(a), self.S(b)
        return self.U(a), self.U(b)

    def ptrdiff_safe(self, o):
        i = self.fn.inst[o[1]]
        return i.op == 'sub' and self.ptrdiff(i) is not None

    def icmp_facts(self, i, truth):
        xy = self.icmp_polys(i)
        if xy is None: return ([], [])
        x, y = xy
        pr = i.d['pred']
        if not truth:
            pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                  'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[pr]
        d = x - y
        if pr == 'eq':
            r = [d, -d]
            for t in self.factor(d): r += [t, -t]
            return (r, [])
        if pr == 'ne':
            sd = self.models.stride(self, d) if self.models and hasattr(self.models, 'stride') else None
            # a difference known to be a multiple of m: state that its quotient by m is not zero
            if sd and sd[1] > 1 and sd[0] % sd[1] == 0: d = Poly({m: Fraction(v) / sd[1] for m, v in d.c.items()})
            r = [d]
            f = self.strip_common(d)
            if f is not None: r.append(f)
            return ([], r)
        if pr in ('ult', 'slt'): r = [-d - 1]
        elif pr in ('ule', 'sle'): r = [-d]
        elif pr in ('ugt', 'sgt'): r = [d - 1]
        else: r = [d]
        return (r, [])

    def strip_common(self, d):
        """d != 0 with d = m*e  =>  e != 0"""
        r = d; did = False
        for a in d.common_atoms():
            r = r.divide_atom(a); did = True
        return r if did else None

    def factor(self, d): return []

    def norm(self, p):
        """integer-tighten p>=0"""
        if not p.c: return p
        den = 1
        for v in p.c.values():
            if isinstance(v, Fraction): den = den * v.denominator // math.gcd(den, v.denominator)
        c = {m: int(v * den) for m, v in p.c.items()}
        g = 0
        for m, v in c.items():
            if m != (): g = math.gcd(g, v)
        if g > 1:
            c = {m: (v // g) for m, v in c.items()}   # floor on the constant
        return Poly(c)

    def block_facts(self, b):
        """facts from dominating edges and invariants valid at the start of block b"""
        if b in self.factmemo: return self.factmemo[b]
        self.factmemo[b] = ([], [])   # recursion guard
        if b == 0: ine, dis = list(self.entry_facts), []
        else:
            pi, pd = self.block_facts(self.fn.idom[b])
            ine, dis = list(pi), list(pd)
            preds = self.fn.pred[b]
            if len(preds) == 1:
                fi, fd = self.edge_facts(preds[0], b)
                ine += fi; dis += fd
        ine += self.inv.get(b, [])
        ine += self.extra_facts.get(b, [])
        self.factmemo[b] = (ine, dis)
        return self.factmemo[b]

    def edge_facts(self, p, b):
        t = self.fn.blocks[p][-1]
        ine, dis = [], []
        if t.op == 'br' and 'cond' in t.d and len(set(t.d['succ'])) == 2:
            truth = t.d['succ'][0] == b
            fi, fd = self.cond_facts(conv(t.d['cond']), truth)
            ine += fi; dis += fd
        elif t.op == 'switch':
            cs = [int(v) for v, s in t.d['cases'] if s == b]
            c = conv(t.d['cond']); w = width(t.d['cond']['t'])
            if t.d['succ'][0] != b and cs:
                u = self.U(c)
                if len(cs) == 1: ine += [u - self.cpoly(cs[0]), self.cpoly(cs[0]) - u]
                else: ine += [u - self.cpoly(min(cs)), self.cpoly(max(cs)) - u]
            elif t.d['succ'][0] == b and not cs:
                u = self.U(c)
                for v, s in t.d['cases']: dis.append(u - self.cpoly(int(v)))
        if self.models:
            m = self.models.edge(self, p, b)
            if m: ine += m
        return ine + self.sign_links(ine), dis

    def sign_links(self, facts):
        """a value known non-negative reads the same signed and unsigned"""
        out = []
        for f in facts:
            if len(f.c) > 2: continue
            at = list(f.atoms())
            if len(at) != 1: continue
            k = self.names[at[0]]
            if k[0] == 'U' and f.c.get((at[0],)) == -1 and ('S', k[1]) in self.ids:
                t = self.vtype(k[1]); w = width(t) if t and width(t) else 64
                if f.cval() < 1 << (w - 1):
                    d = self.S(k[1], w) - Poly.atom(at[0])
                    if not d.is_const(): out += [d, -d]
                continue
            if f.c.get((at[0],)) != 1 or f.cval() > 0: continue
            if k[0] != 'S': continue
            t = self.vtype(k[1])
            w = width(t) if t and width(t) else 64
            u = self.U(k[1], w)
            d = u - Poly.atom(at[0])
            if not d.is_const(): out += [d, -d, self.cpoly((1 << (w - 1)) - 1) - u]
        return out

    def isglobal(self, a):
        r = self.globmemo.get(a)
        if r is None: r = self.globmemo[a] = self.defblock(a) is None and self.names[a][0] not in ('def',)
        return r

    def closure(self, goal, ine, dis, extra=(), rounds=4, cap=90, local=True, sub=None):
        """facts relevant to the goal's atoms.  local: relevance only propagates through atoms defined
        inside the function (a fact about another loop's counter is not pulled in by a shared parameter)"""
        atoms = set(goal.atoms()); 
        for e in extra: atoms |= e.atoms()
        pool = list(dict.fromkeys(ine))
        facts = []; used = set(); done = set()
        for rd in range(rounds):
            new = set()
            for a in list(atoms):
                if a in done: continue
                done.add(a)
                for f in self.atom_facts(a):
                    if f not in used:
                        used.add(f); facts.append(f); new |= f.atoms()
            for f in pool:
                if f in used: continue
                at = f.atoms()
                if local:
                    loc = [x for x in at if not self.isglobal(x)]
                    rel = any(x in atoms for x in loc) if loc else (not at or bool(at & atoms))
                else: rel = not at or at & atoms
                if rel:
                    used.add(f); facts.append(f); new |= at
            nxt = atoms | new
            if nxt == atoms: break
            atoms = nxt
            if len(facts) > cap: break
        # facts about atoms pulled in last
        for a in list(atoms):
            if a in done: continue
            for f in self.atom_facts(a):
                if f not in used and f.atoms() <= atoms: used.add(f); facts.append(f)
        d2 = [d for d in dis if d.atoms() and d.atoms() & atoms]
        # a disequality about a quotient of a relevant value brings the quotient in
        for d in dis:
            for x in d.atoms():
                k = self.names[x]
                if k[0] in ('q', 'sq') and any(y in atoms and not self.isglobal(y) for y in (k[1].subst(sub) if sub else k[1]).atoms()):
                    if d not in d2: d2.append(d)
                    for y in d.atoms():
                        if y in atoms: continue
                        for f in self.atom_facts(y):
                            if f not in used: used.add(f); facts.append(f)
                    atoms = atoms | d.atoms()
                    break
        facts = [self.norm(f) for f in facts]
        # x <= y*z + c with c < 0 bounds the quotient: [x/y] <= z - 1
        add = []
        for a in atoms:
            k = self.names[a]
            if k[0] != 'q' or len(k[2].c) != 1: continue
            (m, v), = k[2].c.items()
            if len(m) != 1 or v != 1: continue
            for f in facts:
                r = f + k[1]; c = r.cval(); r = r - c
                if c > 0 or not r.c: continue
                z = r.divide_atom(m[0]) if m[0] in r.common_atoms() else None
                if z is not None and not z.atoms() & {a}: add.append(z - (1 if c < 0 else 0) - Poly.atom(a))
        facts += [self.norm(f) for f in add if f not in used]
        return facts, d2, atoms

    def atom_facts(self, a):
        fs = self.afacts.get(a, [])
        k = self.names[a]
        if self.models:
            fs = fs + self.models.atom_facts(self, a)
        if k[0] == 'K': fs = fs + [Poly.atom(a)]
        if k[0] in ('U', 'S') and k[1][0] == 'i' and not self.optimistic:
            i = self.fn.inst[k[1][1]]
            if i.op in ('call',) and i.callee:
                m = re.match(r'llvm\.([us])(min|max)', i.callee)
                if m:
                    g = self.U if m.group(1) == 'u' else self.S
                    if m.group(1).upper() == k[0]:
                        x, y = g(conv(i.ops[0])), g(conv(i.ops[1])); A = Poly.atom(a)
                        fs = fs + ([x - A, y - A] if m.group(2) == 'min' else [A - x, A - y])
        return fs

    # -- proving -------------------------------------------------------------------------------
    def prove(self, goal, at, depth=3, light=False, extra=()):
        goal = self.norm(goal)
        if goal.is_const(): return goal.cval() >= 0
        key = (goal, at[0], depth, light, tuple(extra))
        if key in self.provememo: return self.provememo[key]
        self.provememo[key] = False
        ine, dis = self.block_facts(at[0])
        if extra: ine = list(ine) + list(extra)
        r = self._prove(goal, ine, dis, depth, light, at[0])
        self.provememo[key] = r
        return r

    def positive(self, a, pool):
        for f in pool:
            if len(f.c) <= 2 and f.c.get((a,)) == 1 and f.c.get((), 0) <= -1: return True
        return False

    def eliminate(self, ine, dis):
        """Gaussian elimination with the equalities among the facts: (substitution, facts, disequalities)"""
        key = (tuple(ine), tuple(dis))
        r = self.elimmemo.get(key)
        if r is not None: return r
        sub = {}
        ine = list(dict.fromkeys(ine)); dis = list(dict.fromkeys(dis))
        for _ in range(64):
            S = set(ine); pick = None; best = None
            for f in ine:
                if len(f.c) < 1 or -f not in S or not f.c: continue
                # common factor known to be positive
                for m, v in f.c.items():
                    if len(m) != 1 or abs(v) != 1: continue
                    a = m[0]
                    if any(a in n and n != m for n in f.c): continue
                    k = self.names[a]
                    if k[0] not in ('U', 'S', 'off', 'K'): continue
                    d = self.defblock(a)
                    pr = (0 if k[0] in ('off',) else 1 if k[0] in ('U', 'S') and d is not None else 2 if k[0] == 'K' else 3, -(self.fn.rponum.get(d, 0) if d is not None else -1), a)
                    if best is None or pr < best: best = pr; pick = (a, (Poly({m: v}) - f) * v)
                    # f = v*a + rest = 0  ->  a = -rest/v
            if pick is None: break
            a, e = pick
            sub = {x: p.subst({a: e}) for x, p in sub.items()}; sub[a] = e
            out = []
            # what is known of the eliminated value holds of the expression standing for it
            own = [f for f in self.atom_facts(a) if f.c.get((a,)) and (e.degree() > 1 or len(f.c) == 1)]
            for f in ine + own:
                g = self.norm(f.subst({a: e}))
                if g.is_const() and g.cval() >= 0: continue
                out.append(g)
            ine = list(dict.fromkeys(out))
            dis = [d.subst({a: e}) for d in dis]
        # x*e >= 1 with x >= 0: e is positive
        for f in list(ine):
            c0 = f.cval()
            if c0 >= 0 or f.is_const(): continue
            l = f - c0
            for a in l.common_atoms():
                if self.names[a][0] in ('U', 'K') and l.degree() > 1:
                    g = l.divide_atom(a) - 1
                    if g not in ine: ine.append(g)
        # divide by factors known to be positive
        out = []
        for f in ine:
            g = f
            for a in f.common_atoms():
                if self.positive(a, ine): g = g.divide_atom(a)
            out.append(f)
            if g is not f: out.append(self.norm(g))
        best = {}
        for f in dict.fromkeys(out):
            c0 = f.cval(); l = f - c0
            if l not in best or c0 < best[l]: best[l] = c0
        ine = [l + c0 for l, c0 in best.items()]
        dd = list(dis)
        for d in dis:
            f = self.strip_common(d)
            if f is not None: dd.append(f)
        r = (sub, ine, list(dict.fromkeys(dd)))
        self.elimmemo[key] = r
        return r

    def quot_upper(self, a, lp, depth=0):
        """constant upper bound of a quotient by a constant, from the bounds of its numerator's atoms"""
        k = self.names[a]
        if k[0] != 'q' or not k[2].is_const() or k[2].cval() < 1 or depth > 3: return None
        tot = 0
        for m, v in k[1].c.items():
            if v < 0: continue
            t = v
            for x in m:
                if self.names[x][0] not in ('U', 'q'): return None
                u = lp.upper(Poly.atom(x))
                if u is None: u = self.quot_upper(x, lp, depth + 1)
                if u is None or u < 0: return None
                t *= u
            tot += t
        if any(v < 0 and any(self.names[x][0] not in ('U', 'q') for x in m) for m, v in k[1].c.items()): return None
        return math.floor(tot / k[2].cval())

    def _decide(self, goal, facts, d2, atoms, quick):
        if goal.degree() >= 2:
            # constant bounds of the factors of nonlinear monomials
            need = sorted(set(a for m in goal.c if len(m) >= 2 for a in m))
            have = set(a for f in facts for a in need if f.c.get((a,), 0) < 0 and all(m in ((), (a,)) for m in f.c))
            miss = [a for a in need if a not in have]
            if miss:
                l0 = LP([f for f in facts if f.degree() <= 1])
                add = []
                late = []
                for a in miss:
                    u = l0.upper(Poly.atom(a))
                    if u is not None: add.append(Poly.const(math.floor(u)) - Poly.atom(a))
                    elif self.names[a][0] == 'q' and len(miss) < 6: late.append(a)
                facts = facts + add
                for a in late:
                    u = self.quot_upper(a, l0)
                    if u is not None: facts = facts + [Poly.const(u) - Poly.atom(a)]
        gm = list(goal.c)
        for m in goal.c:
            if len(m) == 2:
                for x, o in (m, m[::-1]):
                    # quotient times something: its numerator times the same thing
                    if self.names[x][0] == 'q': gm += [tuple(sorted((y, o))) for n in self.names[x][1].c if len(n) == 1 for y in n]
        lp = LP(facts, goalmons=gm)
        if lp.entails(goal): return True
        # disequalities become strict once one side is known
        if d2:
            add = []
            for _ in range(2):
                n = len(add)
                for d in d2:
                    if self.norm(d - 1) in add or self.norm(-d - 1) in add: continue
                    if lp.entails(d): add.append(self.norm(d - 1))
                    elif lp.entails(-d): add.append(self.norm(-d - 1))
                if len(add) == n: break
                facts = facts + add
                lp = LP(facts, goalmons=goal.c)
            if add and lp.entails(goal): return True
        if quick: return False
        return self.tighten(goal, facts, atoms)

    def _prove(self, goal, ine, dis, depth, light, bb, splits=frozenset()):
        if goal.is_const() and goal.cval() >= 0: return True
        ctx = frozenset((bb,)) if isinstance(bb, int) else frozenset(bb)
        goal0, ine0, dis0 = goal, ine, dis
        sub, ine, dis = self.eliminate(ine, dis)
        if sub: goal = self.norm(goal.subst(sub))
        if goal.is_const():
            if goal.cval() >= 0: return True
        gc = goal.cval(); gl = goal - gc
        for f in ine:
            if f.cval() <= gc and f - f.cval() == gl: return True
        if any(f.is_const() and f.cval() < 0 for f in ine) or any(not d.c for d in dis): return True
        for local in ((True, False) if self.widen else (True,)):
            # a constant goal is only provable on a contradictory path: look at the latest conditions
            extra = [f.subst(sub) for f in list(ine0)[-3:] + list(dis0)[-2:]] if goal.is_const() else ()
            facts, d2, atoms = self.closure(goal, ine, dis, extra=extra, local=local, sub=sub)
            if sub: facts = [self.norm(f.subst(sub)) for f in facts]
            ck = (goal, frozenset(facts), frozenset(d2), light and depth <= 0)
            r = self.lpcache.get(ck)
            if r is None:
                r = self._decide(goal, facts, d2, atoms, light and depth <= 0)
                self.lpcache[ck] = r
            if r: return True
        if light and depth <= 0: return False
        if depth > 0:
            # split on a merge phi / select among the relevant atoms
            atoms = atoms | goal0.atoms()
            for a in sorted(atoms, key=lambda a: (self.names[a][0] == 'sq', 0 if a in goal.atoms() else 1)):
                if a in splits: continue
                if light and a not in goal.atoms() and a not in goal0.atoms(): continue
                cs = self.split_cases(a, ctx)
                if cs is None: continue
                good = True
                for sub, fi, fd, *via in cs:
                    g = self.norm(goal0.subst(sub))
                    I = [f.subst(sub) for f in list(ine0) + [x for y in atoms for x in self.atom_facts(y)]] + fi
                    D = [d.subst(sub) for d in dis0] + fd
                    if not self._prove(g, I, D, depth - 1, light, ctx | set(via), splits | {a}): good = False; break
                if good: return True
        return False

    def contradiction(self, ine, dis):
        return False

    def split_cases(self, a, bb):
        k = self.names[a]
        if k[0] == 'sq':
            # sign of the numerator of a truncating quotient
            x, y = k[1], k[2]; Q = Poly.atom(a)
            return [({}, [x, Q, x - Q * y], []), ({}, [-x - 1, -Q, Q * y - x], [])]
        if k[0] not in ('U', 'S', 'off'): return None
        v = k[1]
        if v[0] == 'i' and self.fn.inst[v[1]].op == 'select':
            i = self.fn.inst[v[1]]
            res = []
            for truth, o in ((True, i.ops[1]), (False, i.ops[2])):
                p = self.kindval(k[0], conv(o), v)
                if p is None: return None
                fi, fd = self.cond_facts(conv(i.ops[0]), truth)
                res.append(({a: p}, list(fi), list(fd)))
            return res
        if v[0] == 'i' and self.fn.inst[v[1]].op == 'call' and self.fn.inst[v[1]].callee and re.match(r'llvm\.[us](min|max)', self.fn.inst[v[1]].callee):
            i = self.fn.inst[v[1]]; m = re.match(r'llvm\.([us])(min|max)', i.callee)
            g = self.U if k[0] == 'U' else self.S
            x, y = g(conv(i.ops[0])), g(conv(i.ops[1]))
            d = (y - x) if m.group(2) == 'min' else (x - y)
            return [({a: x}, [d], []), ({a: y}, [-d], [])]
        if not self.is_phi(v): return None
        b = self.phi_block(v)
        if b in self.fn.loops: return None
        if len(self.fn.pred[b]) > 6: return None
        # the facts of the incoming edges only hold once the merge has been executed
        if not any(self.fn.dominates(b, x) for x in bb): return None
        atoms = [(x, self.names[x]) for x in range(len(self.names)) if self.names[x][0] in ('U', 'S', 'off') and self.is_phi(self.names[x][1]) and self.phi_block(self.names[x][1]) == b]
        res = []
        for p in self.fn.pred[b]:
            sub = {}
            for x, kx in atoms:
                inc = self.phi_incoming(kx[1]).get(p)
                if inc is None: continue
                inc = self.find(inc)
                if inc[0] == 'undef': continue
                q = self.kindval(kx[0], inc, kx[1])
                if q is not None and q != Poly.atom(x): sub[x] = q
            if a not in sub:
                # undefined on this edge: value irrelevant
                inc = self.find(self.phi_incoming(v).get(p, ('undef',)))
                if inc[0] != 'undef': return None
                continue
            fi, fd = self.block_facts(p)
            ei, ed = self.edge_facts(p, b)
            res.append((sub, list(fi) + list(ei), list(fd) + list(ed), p))
        return res

    def kindval(self, kind, inc, v):
        if kind == 'off':
            p = self.P(inc); base = self.P(v)
            if p is None: return None
            if p[0] == ('null',): return None
            return p[1]
        w = width(self.vtype(v) or '') or 64
        return self.U(inc, w) if kind == 'U' else self.S(inc, w)

    def tighten(self, goal, facts, atoms):
        """integer (Gomory-style) tightening of bounds of differences between step/quotient atoms"""
        neg = self.norm(-goal - 1)
        fs = facts + [neg]
        lp = LP(fs, goalmons=goal.c)
        if lp.entails(Poly.const(-1)): return True
        qs = [a for a in atoms if self.names[a][0] in ('q', 'sq')]
        if not qs: return False
        cand = []
        lin = set(a for f in fs for m in f.c if len(m) == 1 for a in m)
        others = [a for a in lin if a != self.T31]
        cands = []
        for q in qs:
            for o in others:
                if o == q: continue
                cands.append(Poly.atom(o) - Poly.atom(q))
            cands.append(Poly.atom(q))
        for o in others:
            if o not in qs: cands.append(Poly.atom(o))
        # pairwise sums used by delta terms: goal's own linear part
        gl = Poly({m: v for m, v in goal.c.items() if len(m) == 1})
        if gl.c: cands.append(gl)
        for f in facts:
            # non-unit coefficient rows: difference patterns o-p-q
            nz = [(m, v) for m, v in f.c.items() if len(m) >= 1]
            big = [m for m, v in nz if abs(v) > 1]
            if 2 <= len(big) <= 6 and len(big) < len(nz) and not any(self.T31 in m for m in big):
                g = 0
                for m, v in nz:
                    if abs(v) > 1: g = math.gcd(g, int(v))
                if g > 1:
                    e = Poly({m: v // g for m, v in nz if abs(v) > 1})
                    cands.append(e)
                    cands += [e * sg - Poly.atom(q) for q in qs[:4] for sg in (1, -1)]
        cands = list(dict.fromkeys(cands))[:120]
        for rnd in range(3):
            add = []
            for e in cands:
                for s in (1, -1):
                    u = lp.upper(e * s)
                    if u is None or u.denominator == 1: continue
                    add.append(Poly.const(math.floor(u)) - e * s)
            if not add: return False
            fs = fs + add
            lp = LP(fs, goalmons=goal.c)
            if lp.entails(Poly.const(-1)): return True
        return False

    # -- loops ---------------------------------------------------------------------------------
    def header_phis(self, h):
        out = []
        for i in self.fn.blocks[h]:
            if i.op == 'phi': out.append(('i', i.id))
            else: break
        out += [m for m in self.mphis_by_block.get(h, []) if self.find(m) == m]
        return out

    def slice(self):
        """values that can influence an address, an extent, a divisor or a comparison"""
        F = self.fn; st = []; seen = set()
        cmpphi = []
        for i in F.insts():
            if i.op == 'load': st.append(conv(i.ops[0]))
            elif i.op == 'store': st.append(conv(i.ops[1]))
            elif i.op in ('call', 'invoke'): st += [conv(o) for o in i.ops]
            elif i.op in ('udiv', 'sdiv', 'urem', 'srem'): st.append(conv(i.ops[1]))
            elif i.op == 'icmp': cmpphi.append(i)
            elif i.op == 'br' and 'cond' in i.d: st.append(conv(i.d['cond']))
            elif i.op == 'switch': st.append(conv(i.d['cond']))
        if self.models and hasattr(self.models, 'slice_roots'): st += self.models.slice_roots(self)
        while st:
            v = self.find(st.pop())
            if v in seen: continue
            seen.add(v)
            if v[0] == 'i':
                i = F.inst[v[1]]
                if i.op == 'phi': st += [conv(x) for x, b in i.ops]
                elif i.op == 'load': st += [self.load_value(i), conv(i.ops[0])]
                elif i.op == 'getelementptr': st += [conv(i.ops[0])] + [conv(x) for x, _ in i.d['gep']['var']]
                elif i.op == 'icmp':
                    st += [conv(o) for o in i.ops]
                else: st += [conv(o) for o in i.ops if isinstance(o, dict)]
            elif v[0] == 'mphi': st += list(self.phi_incoming(v).values())
        return seen

    def phi_atoms(self, h):
        """(atom, kind, value) for the phis of header h that have an atom"""
        r = []
        for v in self.header_phis(h):
            t = self.vtype(v)
            if self.sliced is not None and self.find(v) not in self.sliced: continue
            if t == 'ptr':
                p = self.P(v)
                if p is not None and p[1] == Poly.atom(self.atom(('off', v))): r.append((self.atom(('off', v)), 'off', v))
            elif t and width(t) and width(t) > 1:
                for kind in ('U', 'S'):
                    if (kind, v) in self.ids: r.append((self.ids[(kind, v)], kind, v))
        return r

    def defblock(self, a):
        """block defining atom a (None: entry)"""
        k = self.names[a]
        if k[0] in ('U', 'S', 'off'):
            v = k[1]
            if v[0] == 'i': return self.fn.inst[v[1]].bb
            if v[0] == 'mphi': return v[1]
            if v[0] in ('gset', 'gmark'): return self.fn.inst[v[1]].bb
            if v[0] == 'm':
                kk = v[1]
                if kk[0] == 'clob': return self.fn.inst[kk[1]].bb
                if kk[0] == 'ld': return self.fn.inst[kk[1]].bb
                if kk[0] == 'sl': return self.fn.inst[kk[1][1]].bb
            return None
        if k[0] == 'K': return k[1]
        if k[0] in ('q', 'sq'):
            best = None
            for p in (k[1], k[2]):
                for x in p.atoms():
                    d = self.defblock(x)
                    if d is not None and (best is None or self.fn.rponum[d] > self.fn.rponum[best]): best = d
            return best
        if k[0] == 'def': return k[1]
        return None

    def varying(self, a, h):
        d = self.defblock(a)
        return d is not None and d in self.fn.loops[h]['body'] and d != h or d == h

    def outside(self, p, h, allow=()):
        return all(a in allow or not self.varying(a, h) for a in p.atoms())

    def available(self, p, h, hat):
        """every value the bound mentions is a phi of the header or was computed before it"""
        for x in p.atoms():
            if x in hat: continue
            d = self.defblock(x)
            if d is not None and not self.fn.dominates(d, h): return False
        return True

    def prime(self):
        """evaluate optimistically so that atoms and memory phis exist before candidates are formed"""
        self.optimistic = True
        for i in self.fn.insts():
            t = i.t
            try:
                if t == 'ptr': self.P(('i', i.id))
                elif width(t) and width(t) > 1:
                    self.U(('i', i.id))
                    if i.op in ('phi',) or i.op == 'select': self.S(('i', i.id))
                if i.op == 'icmp':
                    if i.ops[0].get('t') == 'ptr' or width(i.ops[0].get('t', '')): self.icmp_polys(i)
                if i.op == 'store': self.P(conv(i.ops[1]))
                if i.op in ('sdiv', 'srem'): self.S(conv(i.ops[1])); self.S(conv(i.ops[0]))
            except RecursionError:
                pass
        # S view of header phis used by signed comparisons only: done lazily by icmp_polys
        self.optimistic = False

    def latch_value(self, kind, v, b):
        inc = self.phi_incoming(v).get(b)
        if inc is None: return None
        inc = self.find(inc)
        if inc[0] == 'undef': return None
        return self.kindval(kind, inc, v)

    def expand_steps(self, poly, a, h, depth=0):
        """set of polys a latch value can take when merge phis/selects inside the loop are expanded"""
        out = [poly]
        for _ in range(4):
            nxt = []; ch = False
            for p in out:
                t = None
                for x in p.atoms():
                    k = self.names[x]
                    if k[0] in ('U', 'S', 'off') and x != a:
                        v = k[1]
                        if self.is_phi(v) and self.phi_block(v) not in self.fn.loops and self.phi_block(v) in self.fn.loops[h]['body']:
                            t = [self.kindval(k[0], self.find(y), v) for y in self.phi_incoming(v).values() if self.find(y)[0] != 'undef']; break
                        if v[0] == 'i' and self.fn.inst[v[1]].op == 'select' and self.fn.inst[v[1]].bb in self.fn.loops[h]['body']:
                            t = [self.kindval(k[0], conv(o), v) for o in self.fn.inst[v[1]].ops[1:]]; break
                if t is None: nxt.append(p); continue
                ch = True
                for q in t:
                    if q is not None: nxt.append(p.subst({x: q}))
            out = list(dict.fromkeys(nxt))[:16]
            if not ch: break
        return out

    def zero_jointly(self, d, h, depth=0):
        """d is zero whichever way each merge inside loop h was entered"""
        if d.is_const(): return d.cval() == 0
        if depth > 4: return False
        F = self.fn; ms = {}
        for x in d.atoms():
            k = self.names[x]
            if k[0] in ('U', 'S', 'off') and self.is_phi(k[1]):
                b = self.phi_block(k[1])
                if b not in F.loops and b in F.loops[h]['body']: ms.setdefault(b, []).append((x, k))
        if not ms: return False
        b = max(ms, key=lambda b: F.rponum[b])
        for p in F.pred[b]:
            sub = {}
            for x, k in ms[b]:
                inc = self.find(self.phi_incoming(k[1]).get(p, ('undef',)))
                q = self.kindval(k[0], inc, k[1]) if inc[0] != 'undef' else None
                if q is None: return False
                sub[x] = q
            if not self.zero_jointly(d.subst(sub), h, depth + 1): return False
        return True

    def candidates(self, optimistic=True):
        self.optimistic = optimistic
        cands = {}
        F = self.fn
        # inner loops first so that outer ones can use their trip-count bounds
        order = sorted(F.loops, key=lambda h: len(F.loops[h]['body']))
        self.kbounds = {}
        icmps = [i for i in F.insts() if i.op == 'icmp']
        quots = [x for x in range(len(self.names)) if self.names[x][0] in ('q', 'sq')]
        # invariants of the parent flow must also be known for memory merges; only headers here
        steps = {}; self.inits = {}
        rng = {}
        for h in order:
            L = F.loops[h]; C = []
            K = self.atom(('K', h)); self.adef[K] = ('K', h)
            pa = self.phi_atoms(h)
            hat = set(a for a, _, _ in pa) | {K}
            entry = [p for p in F.pred[h] if p not in L['body']]
            init = {}
            for a, kind, v in pa:
                ini = None
                vals = set()
                for p in entry:
                    q = self.latch_value(kind, v, p)
                    if q is not None: vals.add(q)
                if len(vals) == 1: ini = vals.pop()
                init[a] = ini; self.inits[a] = (ini, h)
                st = set(); 
                for b in L['latches']:
                    q = self.latch_value(kind, v, b)
                    if q is None: continue
                    for e in self.expand_steps(q, a, h): st.add(e - Poly.atom(a))
                if ini is None or not st: continue
                A = Poly.atom(a)
                # resolve steps through inner loops' trip counts
                res = set()
                for s in st:
                    res.add(s)
                    for x in s.atoms():
                        if self.names[x][0] == 'K' or (self.names[x][0] in ('U', 'S', 'off') and self.defblock(x) in F.loops and self.defblock(x) != h and self.defblock(x) in L['body']):
                            pass
                inv_steps = [s for s in res if self.outside(s, h)]
                if len(res) == 1 and inv_steps:
                    s = inv_steps[0]
                    C += [A - ini - s * Poly.atom(K), ini + s * Poly.atom(K) - A]
                    steps[a] = (ini, s, h)
                    # counting down before the test: the next decrement does not wrap
                    if kind == 'U' and s.is_const() and s.cval() < 0: C.append(A + s)
                else:
                    var_steps = [s for s in res if not self.outside(s, h)]
                    C += [A - ini, ini - A]
                    if self.models and self.models.divisors and not ini.is_const() and var_steps:
                        C.append(A - 1); self.deep.add(self.norm(A - 1))
                    if not var_steps:
                        for s in inv_steps:
                            C += [ini + s * Poly.atom(K) - A, A - ini - s * Poly.atom(K)]
                    rng[a] = (ini, inv_steps, var_steps, h)
                    # inner-loop step inference: a' = inner phi at exit = a + s_in * K_in, K_in = bound
                    for s in var_steps:
                        for bnd in self.inner_bounds(s, h, steps):
                            if self.outside(bnd, h):
                                C += [A - ini - bnd * Poly.atom(K), ini + bnd * Poly.atom(K) - A]
                                steps.setdefault(a, (ini, bnd, h))
                    for q in quots:
                        if not self.varying(q, h) and any(q in s.atoms() for s in var_steps + inv_steps):
                            C += [ini + Poly.atom(q) * Poly.atom(K) - A]
                        elif kind == 'off' and var_steps and self.names[q][0] == 'q' and not self.varying(q, h) and self.defblock(q) is not None and F.dominates(self.defblock(q), h):
                            # a row of the data takes a rounded-up number of bytes
                            e = A - ini - Poly.atom(q) * Poly.atom(K)
                            C += [e, -e]
                    # floor/ceil relations c*(a-ini) ~ K
                    for c in self.divisors(L):
                        d = (A - ini) * c - Poly.atom(K)
                        C += [d, Poly.const(c - 1) - d, -d, d + (c - 1)]
            sub = {}
            for a, kind, v in pa:
                if a in steps and steps[a][2] == h:
                    sub[a] = steps[a][0] + steps[a][1] * Poly.atom(K)
            body = L['body']
            kb = []
            for i in icmps:
                try: xy = self.icmp_polys(i)
                except RecursionError: xy = None
                if xy is None: continue
                d = xy[0] - xy[1]
                if d.is_const(): continue
                if not d.atoms() & hat and not (i.bb in body):
                    continue
                ds = set()
                for e in self.expand_inner(d, h):
                    ds.add(e)
                for d in ds:
                    if not self.outside(d, h, hat): continue
                    if not d.atoms() & hat: continue
                    for e in (d, d + 1, d - 1):
                        C += [e, -e]
                    dk = d.subst(sub)
                    f = self.strip_common(dk)
                    for e in ([dk] if dk != d else []) + ([f] if f is not None else []):
                        if e.atoms() & {K}:
                            for g in (e, e + 1, e - 1): C += [g, -g]
                            kb.append(e)
                    # any other counter of this loop with the same stride
            # pairs of counters vs. K are covered by equalities
            for e in kb:
                # K coefficient +-1: bound expression
                c = e.c.get((K,), 0)
                if c in (1, -1) and not any(K in m and len(m) > 1 for m in e.c):
                    self.kbounds.setdefault(h, []).append(Poly.atom(K) - e * c)
            C1 = []; C2 = []
            near = set(x for c in C for x in c.atoms())
            for x in list(near):
                k = self.names[x]
                if k[0] in ('U', 'S', 'off') and self.is_phi(k[1]) and self.phi_block(k[1]) not in F.loops:
                    v = k[1]
                    for p, inc in self.phi_incoming(v).items():
                        q = self.kindval(k[0], self.find(inc), v) if self.find(inc)[0] != 'undef' else None
                        if q is not None: near |= q.atoms()
            for q in quots:
                if q in near and not self.varying(q, h): C1.append(Poly.atom(q) - Poly.atom(K))
            for a, kind, v in pa:
                if kind == 'off' and self.models:
                    p = self.P(v); sz = self.models.size_of(self, p[0])
                    if sz is not None: C2 += [sz - Poly.atom(a), Poly.atom(a)]
            # phis moving in step, or in opposite directions
            lv = {a: [self.latch_value(kind, v, b) for b in L['latches']] for a, kind, v in pa}
            for n, (a, _, _) in enumerate(pa):
                for b, _, _ in pa[n + 1:]:
                    if init.get(a) is None or init.get(b) is None or None in lv[a] or None in lv[b]: continue
                    A, B = Poly.atom(a), Poly.atom(b)
                    for sg in (1, -1):
                        if all(self.zero_jointly(x - A + (y - B) * sg, h) for x, y in zip(lv[a], lv[b])):
                            d = A + B * sg - init[a] - init[b] * sg
                            C += [d, -d]
            if self.models: C += self.models.candidates(self, h, K, pa, init, hat)
            seen = set()
            tiers = []
            for T in (C, C1, C2):
                T = [p for p in dict.fromkeys(self.norm(c) for c in T) if not p.is_const() and p not in seen and self.available(p, h, hat)]
                seen.update(T); tiers.append(T)
            cands[h] = tiers
        self.optimistic = False
        self.steps = steps
        return cands

    def divisors(self, L):
        s = set()
        for b in L['body']:
            for i in self.fn.blocks[b]:
                if i.op in ('urem', 'srem', 'udiv', 'sdiv'):
                    c = conv(i.ops[1])
                    if c[0] == 'c' and 2 <= c[2] <= 64: s.add(c[2])
                if i.op == 'and':
                    c = conv(i.ops[1])
                    if c[0] == 'c' and c[2] in (1, 3, 7, 15, 31, 63): s.add(c[2] + 1)
        return s

    def inner_bounds(self, s, h, steps):
        """rewrite inner-loop phi atoms in step s by init + step*bound"""
        out = [s]
        for _ in range(3):
            nxt = []
            ch = False
            for p in out:
                hit = None
                for x in p.atoms():
                    if x in steps and steps[x][2] != h and steps[x][2] in self.fn.loops[h]['body']:
                        ini, st, hh = steps[x]
                        for kb in self.kbounds.get(hh, []):
                            nxt.append(p.subst({x: ini + st * kb})); hit = True; ch = True
                        break
                if not hit: nxt.append(p)
            out = list(dict.fromkeys(nxt))[:12]
            if not ch: break
        return out

    def expand_inner(self, d, h):
        out = self.expand_steps(d, -1, h)
        res = list(out)
        for p in out:
            for _ in range(3):
                x = next((x for x in p.atoms() if x in self.inits and self.inits[x][1] != h and self.inits[x][1] in self.fn.loops[h]['body'] and self.inits[x][0] is not None), None)
                if x is None: break
                p = p.subst({x: self.inits[x][0]})
                for q in self.expand_steps(p, -1, h): res.append(q)
        return list(dict.fromkeys(res))[:8]

    def solve(self, done=None):
        """greatest inductive subset of the candidates, tier by tier until the obligations are discharged"""
        self.prime()
        if self.models and hasattr(self.models, 'detect'): self.models.detect(self)
        self.sliced = self.slice()
        F = self.fn
        fixed = {h: [] for h in F.loops}; dropped = {h: [] for h in F.loops}; tried = set()
        self.inv = {h: [] for h in F.loops}
        # values are read optimistically first; the second pass reads them the way the invariants found so far allow
        for optimistic in (True, False):
            cands = self.candidates(optimistic)
            if not optimistic: cands = {h: [[c for c in T if (h, c) not in tried] for T in TT] for h, TT in cands.items()}
            for h, TT in cands.items(): tried.update((h, c) for T in TT for c in T)
            if not any(T for TT in cands.values() for T in TT): break
            for stage in range(4):
                if stage < 3: new = {h: list(T[stage]) for h, T in cands.items()}
                else: new = dropped
                if stage == 3: dropped = {h: [] for h in cands}
                if not any(new.values()): continue
                surv = self.stage(fixed, new)
                for h in cands:
                    s = set(surv[h])
                    dropped[h] = dropped[h] + [c for c in new[h] if c not in s]
                    fixed[h] = fixed[h] + surv[h]
                self.inv = {h: list(c) for h, c in fixed.items()}; self.reset_memo()
                if done is None:
                    if self.models and hasattr(self.models, 'discharged') and self.models.discharged(self): return self
                elif done(self): return self
        return self

    def stage(self, fixed, cands):
        F = self.fn
        cur = {h: list(c) for h, c in cands.items()}
        total0 = sum(map(len, cands.values()))
        order = sorted(F.loops, key=lambda h: F.rponum[h])
        rounds = 0
        self.inv = {h: fixed[h] + cur[h] for h in cur}
        while True:
            rounds += 1
            self.reset_memo()
            changed = False
            for h in order:
                L = F.loops[h]
                keep = []; kept = {}
                for c in sorted(cur[h], key=lambda c: c.cval()):
                    ok = True
                    lin = c - c.cval()
                    if lin in kept: keep.append(c); continue
                    for p in F.pred[h]:
                        if not self.check_edge(c, h, p, p in L['body']):
                            ok = False; self.log('    drop [%d<-%d] %s' % (h, p, self.show(c))) if self.trace else None
                            break
                    if ok: keep.append(c); kept[lin] = 1
                    else: changed = True
                if len(keep) != len(cur[h]):
                    cur[h] = keep
                    self.inv[h] = fixed[h] + keep
                    self.reset_memo()
            self.log('  round %d: %d/%d invariants' % (rounds, sum(map(len, cur.values())), total0))
            if not changed: break
            if rounds > 12:
                cur = {h: [] for h in cur}; break
        self.inv = {h: fixed[h] + cur[h] for h in cur}; self.reset_memo()
        return cur

    def check_edge(self, c, h, p, back):
        sub = {}
        K = self.atom(('K', h))
        for a in c.atoms():
            k = self.names[a]
            if a == K: sub[a] = Poly.atom(K) + 1 if back else ZERO
            elif k[0] in ('U', 'S', 'off') and self.is_phi(k[1]) and self.phi_block(k[1]) == h:
                q = self.latch_value(k[0], k[1], p)
                if q is None:
                    inc = self.find(self.phi_incoming(k[1]).get(p, ('undef',)))
                    if inc[0] == 'undef': return True if not back else False
                    return False
                sub[a] = q
        g = self.norm(c.subst(sub))
        if g.is_const(): return g.cval() >= 0
        # a quotient atom over header phis must not be substituted textually
        for a in c.atoms():
            if self.names[a][0] in ('q', 'sq') and self.varying(a, h): return False
        ine, dis = self.block_facts(p)
        ei, ed = self.edge_facts(p, h)
        return self._prove(g, list(ine) + list(ei), list(dis) + list(ed), 6 if c in self.deep or self.models and c in getattr(self.models, 'deep', ()) else 2, False, p)
