"""Work arrays: owning buffers with a capacity field, regions of one buffer (table | stack), content bounds and a
ghost count of the non-zero table words (every push marks a new table word, hence the stack cannot outgrow it)."""
import re
from .poly import Poly, ZERO
from .absint import conv, width
from .models import Models


class WorkModels(Models):
    def setup(self, E):
        Models.setup(self, E)
        self.deep = set()
        self.work = []          # list of Region objects
        self.counts = []        # ((arg, count off), (arg, ptr off), multiplier)
        fn = E.fn
        structs = fn.mod.structs
        bufs = {}; info = []
        for i in fn.insts():
            if i.op != 'getelementptr': continue
            sty = i.d['gep'].get('sty', '')
            if not re.search(r'Buffer|ZoneInfo', sty): continue
            p = self.synt(E, i.ops[0])
            if p is None: continue
            base, off = p
            if 'Buffer' in sty: bufs[(base, off)] = True
            else: info.append((base, off))
        # first member of a ZoneInfo is its buffer
        for base, off in info: bufs[(base, off)] = True
        for (base, off) in bufs:
            self.bufs[(base, off)] = (off + 8, 4)
            cap = E.U(('m', ('init', (base, off + 8, 8))), 64)
            E.region_size[('buf', base, off)] = cap * 4
        for base, off in sorted(set(info), key=str):
            cap = E.U(('m', ('init', (base, off + 8, 8))), 64); n = E.U(('m', ('init', (base, off + 16, 4))), 32)
            E.entry_facts.append(cap - n * 4)
            if self.side: E.entry_facts.append(Poly.const(self.side * self.side) - n)
            self.counts.append((base, off))

    def synt(self, E, o):
        """(arg base, const offset) of an operand through constant GEPs"""
        off = 0
        while o['k'] == 'i' and E.fn.inst[o['v']].op == 'getelementptr':
            g = E.fn.inst[o['v']]
            if g.d['gep']['var']: return None
            off += g.d['gep']['coff']; o = g.ops[0]
        if o['k'] == 'a': return (('arg', o['v']), off)
        return None

    # -- merged owner pointers ---------------------------------------------------------------
    def phib_size(self, E, base):
        v = base[1]
        if not E.is_phi(v): return None
        b = E.phi_block(v)
        if b in E.fn.loops: return None
        a = E.atom(('def', b, 'size', v)); E.adef[a] = None
        A = Poly.atom(a)
        lows = []
        for p, x in E.phi_incoming(v).items():
            x = E.find(x)
            if x == ('undef',): continue
            q = E.P(x)
            if q is None: return None
            s = self.size_of(E, q[0])
            if s is None: return None
            ine, dis = E.block_facts(p); ei, ed = E.edge_facts(p, b)
            lows.append((p, s - q[1], list(ine) + list(ei), list(dis) + list(ed)))
        cands = {}
        for i in E.fn.calls():
            c = i.callee or ''
            if re.match(r'llvm\.(memset|memcpy|memmove)', c):
                q = E.P(conv(i.ops[0]))
                if q and q[0] == base: cands[E.U(conv(i.ops[2]))] = 0
        for p, s, *_ in lows: cands[s] = 0
        for base2, off in self.counts:
            r = E._read_entry((base2, off + 16, 4), b, 'i32')
            cands[E.U(r, 32) * 16] = (r, 32, 16)
        for (base2, off), (capoff, es) in self.bufs.items():
            r = E._read_entry((base2, capoff, 8), b, 'i64')
            cands[E.U(r, 64) * es] = (r, 64, es)
        fs = []
        for c, r in cands.items():
            good = True
            for p, s, ine, dis in lows:
                g = c
                if r and E.is_phi(E.find(r[0])) and E.phi_block(E.find(r[0])) == b:
                    inc = E.find(E.phi_incoming(r[0])[p])
                    g = E.U(inc, r[1]) * r[2]
                if not E._prove(E.norm(s - g), ine, dis, 2, False, p): good = False; break
            if good: fs.append(A - c)
        E.afacts[a] = [A] + fs
        return A

    # -- regions -----------------------------------------------------------------------------
    def detect(self, E):
        """after prime(): buffers used as table + stack"""
        fn = E.fn
        bases = {}
        for i in fn.insts():
            if i.op in ('load', 'store') and i.d['sz'] == 4:
                p = E.P(conv(i.ops[1 if i.op == 'store' else 0]))
                if p and p[0][0] in ('phib', 'buf', 'new'): bases.setdefault(p[0], []).append((i, p[1]))
        for base, acc in bases.items():
            if not any(i.op == 'store' for i, _ in acc): continue
            webs = [x for x in range(len(E.names)) if E.names[x][0] == 'off' and E.is_phi(E.names[x][1]) and (E.P(E.names[x][1]) or (None,))[0] == base]
            splits = set()
            for x in webs:
                v = E.names[x][1]; h = E.phi_block(v)
                if h not in fn.loops: continue
                for p in fn.pred[h]:
                    if p in fn.loops[h]['body']: continue
                    q = E.latch_value('off', v, p)
                    if q is not None and not any(E.names[y][0] == 'off' for y in q.atoms()): splits.add(q)
            splits -= {ZERO}
            if len(splits) != 1: continue
            R = Region(base, splits.pop(), set(webs), acc)
            import math
            st = [E.names[x][1] for x in webs]; seen = set(); g = 0
            while st:
                x = E.find(st.pop())
                if x in seen: continue
                seen.add(x)
                if x[0] == 'i' and fn.inst[x[1]].op == 'getelementptr' and (E.P(x) or (0, ZERO))[1].atoms() & R.webs:
                    gp = fn.inst[x[1]].d['gep']; g = math.gcd(g, int(gp['coff']) % (1 << 64) if gp['coff'] >= 0 else -int(gp['coff']))
                    for _, sc in gp['var']: g = math.gcd(g, int(sc))
                st += E.ptr_preds(x) or []
            R.step = g
            self.work.append(R)
            loc = (('ghost', base), 0, 8); R.loc = loc
            R.marks = {}
            for i, off in acc:
                if i.op == 'store' and not (off.atoms() & R.webs):
                    z = self.zero_checked(E, i, off, R)
                    R.marks[i.id] = z
        # ghost reads
        for R in self.work:
            for b in range(len(fn.blocks)):
                if b not in fn.reach: continue
                n = E._read_entry(R.loc, b, 'i64')
            for i, off in R.acc:
                if i.id in R.marks and R.marks[i.id]:
                    n = E.U(E._read(R.loc, i.bb, i.idx, 'i64'), 64)
                    E.extra_facts.setdefault(i.bb, []).append(R.split - (n + 1) * 4)

    def zero_checked(self, E, i, off, R):
        """the stored-to table word is known to be zero: a dominating test of the same word with no table store between"""
        fn = E.fn; b = i.bb
        seen = 0
        instrs = fn.blocks[b][:i.idx]
        while seen < 40:
            seen += 1
            for j in instrs:
                if j.op in ('call', 'invoke') and not (j.d.get('ro') or j.d.get('rn')): return None
                if j.op == 'store':
                    p = E.P(conv(j.ops[1]))
                    if p is None: return None
                    if E.roots(p[0]) & E.roots(R.base) and not (p[0] == R.base and p[1].atoms() & R.webs): return None
                if j.op == 'load' and j.d['sz'] == 4:
                    p = E.P(conv(j.ops[0]))
                    if p and p[0] == R.base and p[1] == off:
                        v = E.U(('i', j.id))
                        ine, dis = E.block_facts(i.bb)
                        if E._prove(-v, list(ine), list(dis), 1, False, i.bb): return j.id
            if len(fn.pred[b]) != 1: return None
            b = fn.pred[b][0]; instrs = fn.blocks[b]
        return None

    def region_of(self, E, i, off):
        for R in self.work:
            if any(i is j for j, _ in R.acc): return R
        return None

    def effects(self, E, i):
        return Models.effects(self, E, i)

    def ghost_effect(self, E, i, loc, t):
        base = loc[0][1]
        R = next((R for R in self.work if R.base == base), None)
        if R is None: return None
        if i.op == 'store':
            p = E.P(conv(i.ops[1]))
            if p is None: return ('m', ('clob', i.id, loc))
            if not (E.roots(p[0]) & E.roots(base)): return None
            if p[0] == base and p[1].atoms() & R.webs: return None      # stack part (verified)
            if R.marks.get(i.id): return ('gmark', i.id, loc)
            return ('m', ('clob', i.id, loc))
        if i.op in ('call', 'invoke'):
            eff = E.models.effects(E, i)
            if eff is None: 
                if i.d.get('ro') or i.d.get('rn') or (i.callee or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')): return None
                for o in i.ops:
                    if o.get('t') == 'ptr':
                        p = E.P(conv(o))
                        if p is None or E.roots(p[0]) & E.roots(base): return ('m', ('clob', i.id, loc))
                return None
            for b2, lo, hi in eff:
                if b2 is not None and E.roots(b2) & E.roots(base): return ('m', ('clob', i.id, loc))
        return None

    def slice_roots(self, E):
        r = []
        for R in self.work:
            for b in range(len(E.fn.blocks)):
                r += [m for m in E.mphis_by_block.get(b, []) if m[2] == R.loc]
            for i, off in R.acc:
                if i.op == 'store': r.append(conv(i.ops[0]))
        return r

    def atom_facts(self, E, a):
        out = Models.atom_facts(self, E, a)
        k = E.names[a]
        if k[0] in ('U', 'S') and self.work:
            v = k[1]; A = Poly.atom(a)
            loc = v[2] if v[0] in ('mphi', 'gmark') else v[1][-1] if v[0] == 'm' and v[1][0] in ('init', 'clob') else None
            if loc is not None and loc[0][0] == 'ghost':
                R = next((R for R in self.work if R.loc == loc), None)
                if R: out = out + [A, R.split - A * 4]
            lid = v[1][1] if v[0] == 'm' and v[1][0] == 'ld' else v[1] if v[0] == 'i' and E.fn.inst[v[1]].op == 'load' else None
            if lid is not None:
                for R in self.work:
                    if lid in R.stackloads: out = out + [R.split - 4 - A * 4, A]
                    out = out + [u - A for u in R.tablefacts.get(lid, ())]
        return out

    def candidates(self, E, h, K, pa, init, hat):
        C = []
        for R in self.work:
            offs = [(a, v) for a, kind, v in pa if kind == 'off' and a in R.webs]
            gs = [(a, v) for a, kind, v in pa if kind == 'U' and v[0] == 'mphi' and v[2] == R.loc]
            for a, v in offs:
                for g, w in gs:
                    if init.get(a) is not None and init.get(g) is not None:
                        C.append((Poly.atom(g) - init[g]) * 4 - (Poly.atom(a) - init[a]))
                if init.get(a) is not None: C.append(Poly.atom(a) - R.split)
            for a, kind, v in pa:
                if kind == 'U' and v[0] == 'i' and E.vtype(v) == 'i32':
                    C += [R.split - 4 - Poly.atom(a) * 4]
        self.deep.update(E.norm(c) for c in C)
        return C

    def stride(self, E, d):
        """(residue, modulus) of a difference whose only varying atoms are stack pointers of one region"""
        for R in self.work:
            if d.atoms() & R.webs and R.step:
                r = d.subst({x: R.split for x in R.webs})
                if r.is_const(): return int(r.cval()), R.step
        return None

    # -- verification of what was assumed ------------------------------------------------------
    def content(self, E):
        """bounds of the table words per block: greatest fixpoint over candidate bounds, then facts for loads"""
        fn = E.fn
        for R in self.work:
            stores = [(i, off) for i, off in R.acc if i.op == 'store' and not (off.atoms() & R.webs)]
            vals = set()
            for i, off in stores: vals.add(E.find(conv(i.ops[0])))
            # phi web around the stored values
            web = set(); st = list(vals)
            users = {}
            for j in fn.insts():
                if j.op == 'phi':
                    for x, b in j.ops: users.setdefault(E.find(conv(x)), []).append(('i', j.id))
                elif j.op == 'add' and conv(j.ops[1])[0] == 'c': users.setdefault(E.find(conv(j.ops[0])), []).append(('i', j.id))
            while st:
                x = E.find(st.pop())
                if x in web or x[0] != 'i': continue
                web.add(x)
                j = fn.inst[x[1]]
                if j.op == 'phi': st += [conv(y) for y, _ in j.ops]
                st += users.get(x, [])
            cand = []
            for x in web:
                u = E.U(x)
                for d in (0, 1, 2): cand.append(u - d)
            cand = list(dict.fromkeys(c for c in cand if not c.is_const()))
            clears = [i for i in fn.calls() if (i.callee or '').startswith('llvm.memset') and (E.P(conv(i.ops[0])) or (None,))[0] == R.base]
            if len(clears) != 1 or conv(clears[0].ops[1])[-1] != 0: R.state = {}; continue
            clear = clears[0]
            # in-state per block; None = top (unreached)
            live = set(); st = [clear.bb]
            while st:
                b = st.pop()
                for s in fn.succ[b]:
                    if s not in live: live.add(s); st.append(s)
            state = {b: set(cand) for b in live}
            # blocks at whose end the table is still all zeroes
            dirty = set(); st = [i.bb for i, _ in stores if i.bb != clear.bb or i.idx > clear.idx or i.bb in live]
            while st:
                b = st.pop()
                if b not in dirty: dirty.add(b); st += fn.succ[b]
            pristine = (live | {clear.bb}) - dirty if clear.bb not in live else set()
            def transfer(b, S, upto=None, start=0):
                S = set(S)
                for j in fn.blocks[b][start:upto]:
                    if j.op == 'store' and any(j is i for i, _ in stores):
                        v = E.U(conv(j.ops[0]), 32); at = (j.bb, j.idx)
                        S = set(c for c in S if E.prove(c - v, at))
                return S
            def out(p):
                if p == clear.bb and p not in live: base0 = set(c for c in cand if self.avail(E, c, p) and E.prove(c, (p, 0))); return transfer(p, base0, start=clear.idx)
                if p not in live: return set()
                return transfer(p, state[p])
            ch = True
            while ch:
                ch = False
                for b in sorted(live, key=lambda b: fn.rponum[b]):
                    keep = set(state[b])
                    for p in fn.pred[b]:
                        o = out(p)
                        k2 = set()
                        for c in keep:
                            if not self.avail(E, c, b): continue
                            sub = {}; bad = False
                            for x in c.atoms():
                                kx = E.names[x]
                                if kx[0] in ('U', 'S') and E.is_phi(kx[1]) and E.phi_block(kx[1]) == b:
                                    q = E.latch_value(kx[0], kx[1], p)
                                    if q is None: bad = True; break
                                    sub[x] = q
                            if bad: continue
                            g = c.subst(sub)
                            if g in o or any((g - d).is_const() and (g - d).cval() >= 0 for d in o): k2.add(c); continue
                            if p in pristine:
                                ine, dis = E.block_facts(p); ei, ed = E.edge_facts(p, b)
                                if E._prove(E.norm(g), list(ine) + list(ei), list(dis) + list(ed), 1, False, p): k2.add(c)
                        keep = k2
                    if keep != state[b]: state[b] = keep; ch = True
            R.state = state
            for i, off in R.acc:
                if i.op == 'load' and not (off.atoms() & R.webs) and i.bb in live:
                    fs = transfer(i.bb, state[i.bb], upto=i.idx)
                    if fs: R.tablefacts[i.id] = list(fs)
        E.reset_memo(); E.lpcache.clear()

    def avail(self, E, c, b):
        """all SSA values of c are defined on every path to block b"""
        for x in c.atoms():
            d = E.defblock(x)
            if d is not None and not E.fn.dominates(d, b): return False
        return True

    def work_obligations(self, E):
        """(inst, what, [goals]) proving what region splitting assumed"""
        for R in self.work:
            for i, off in R.acc:
                st = i.op == 'store'
                v = E.U(conv(i.ops[0]), 32) if st else None
                if off.atoms() & R.webs:
                    g = [off - R.split]
                    if st: g += [R.split - 4 - v * 4, v]
                    yield i, ('push' if st else 'pop') + ' stays in the stack part with an in-table index', g
                else:
                    g = [R.split - off - 4, off]
                    if st: g += [v - 1]
                    yield i, 'table access', g

    def field_obligations(self, E):
        """capacity/count fields agree with what was allocated, at every exit and before everything that may throw"""
        fn = E.fn
        pts = []
        for b in fn.reach:
            t = fn.blocks[b][-1]
            if t.op in ('ret', 'resume'): pts.append(t)
        for i in fn.calls():
            if (i.callee or '') in ('_Znwm', '_Znam'): pts.append(i)
        for (base, off), (capoff, es) in self.bufs.items():
            for i in pts:
                ptr = E._read((base, off, 8), i.bb, i.idx, 'ptr'); cap = E.U(E._read((base, capoff, 8), i.bb, i.idx, 'i64'), 64)
                q = E.P(ptr)
                if q is None: yield i, 'owner pointer', None; continue
                if q[0] == ('null',): yield i, 'capacity of an empty buffer', [-cap]; continue
                s = self.size_of(E, q[0])
                yield i, 'capacity does not exceed the allocation', [s - q[1] - cap * es] if s is not None else None
        for base, off in self.counts:
            for i in pts:
                cap = E.U(E._read((base, off + 8, 8), i.bb, i.idx, 'i64'), 64); n = E.U(E._read((base, off + 16, 4), i.bb, i.idx, 'i32'), 32)
                yield i, 'zone count does not exceed the capacity', [cap - n * 4] + ([Poly.const(self.side * self.side) - n] if self.side else [])


class Region:
    def __init__(self, base, split, webs, acc):
        self.base = base; self.split = split; self.webs = webs; self.acc = acc
        self.stackloads = set(i.id for i, off in acc if i.op == 'load' and off.atoms() & webs)
        self.tablefacts = {}; self.step = 0; self.state = {}
