"""Path-sensitive resource typestate over the normalised IR, exception edges included.

One resource is followed at a time.  A state is (mode, env): mode is 'none', 'held', 'released' or 'escaped'; env maps SSA values and
memory slots (base value, constant offset) to 'R' (the resource), 'D' (a pointer into it) or a constant.  Constants make tests of null
pointers and flags decidable, so that "if (p) delete p" is not a leak."""
import re
from . import ir

ACQ = [
    (re.compile(r'^operator new\[\]\('), 'new[]'), (re.compile(r'^operator new\('), 'new'),
    (re.compile(r'^(malloc|calloc|aligned_alloc|realloc|strdup)$'), 'malloc'), (re.compile(r'^(open|open64|creat|dup)$'), 'fd'),
    (re.compile(r'^(fopen|fopen64)$'), 'FILE'),
]
REL = [
    (re.compile(r'^operator delete\[\]\('), 'new[]'), (re.compile(r'^operator delete\('), 'new'),
    (re.compile(r'^(free|cfree)$'), 'malloc'), (re.compile(r'^close$'), 'fd'), (re.compile(r'^fclose$'), 'FILE'),
]
NAMES = {'new[]': 'array', 'new': 'buffer', 'malloc': 'buffer', 'fd': 'file descriptor', 'FILE': 'file'}
LIMIT = 60000


def kind(i, table):
    if i.op not in ('call', 'invoke'): return None
    for r, k in table:
        if r.search(i.dem or i.callee or ''): return k
    return None


def acquisitions(f):
    return [(i, kind(i, ACQ)) for i in f.calls() if kind(i, ACQ)]


def may_throw(i):
    if i.op != 'call' or i.d.get('nothrow'): return False
    c = i.callee or ''
    if c.startswith('llvm.'): return False
    if c in ('__cxa_throw', '__cxa_rethrow'): return True
    if not c: return True
    if kind(i, REL): return False
    return c.startswith('_Z') and not re.search(r'::~', i.dem)


def liveness(f):
    """SSA values live on entry of each block (pointers into a live object keep it alive only through the value itself)"""
    use = {}; defs = {}; phiuse = {}
    for b in f.reach:
        u = set(); d = set()
        for i in f.blocks[b]:
            if i.op == 'phi':
                for e in i.ops:
                    if e[0].get('k') == 'i': phiuse.setdefault(e[1], set()).add(e[0]['v'])
            else:
                for o in ir.operands(i):
                    if o.get('k') == 'i' and o['v'] not in d: u.add(o['v'])
            d.add(i.id)
        use[b] = u; defs[b] = d
    live = {b: set() for b in f.reach}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.rpo):
            o = set(phiuse.get(b, ()))
            for s in f.succ[b]: o |= live.get(s, set())
            n = use[b] | (o - defs[b])
            if n != live[b]: live[b] = n; ch = True
    for b in f.reach:
        live[b] |= phiuse.get(b, set()) if False else set()
    # values a phi of the block takes are used on the edge: they count as live into the block
    for b in f.reach:
        for i in f.blocks[b]:
            if i.op != 'phi': break
            for e in i.ops:
                if e[0].get('k') == 'i': live[b].add(e[0]['v'])
    return live


def reaches(f, t):
    """blocks from which t can be reached"""
    seen = {t}; st = [t]
    while st:
        b = st.pop()
        for p in f.pred[b]:
            if p not in seen: seen.add(p); st.append(p)
    return seen


class Flow:
    def __init__(self, f, site, rkind, entry=None):
        self.f = f; self.site = site; self.kind = rkind; self.bad = []; self.paths = 0; self.seen_rel = 0; self.ends = []
        self.entry = entry
        self.consts = {}
        # conditions branched on more than once: their outcome is remembered
        n = {}
        for i in f.insts():
            if i.op == 'br' and i.d.get('cond', {}).get('k') == 'i': n[i.d['cond']['v']] = n.get(i.d['cond']['v'], 0) + 1
        self.multi = set(v for v, k in n.items() if k > 1)
        self.allocas = set(i.id for i in f.insts() if i.op == 'alloca')
        self.live = liveness(f)
        self.after = reaches(f, site.bb) if site is not None else None

    # -- values
    def key(self, o):
        k = o.get('k')
        if k == 'i': return ('i', o['v'])
        if k == 'a': return ('a', o['v'])
        return None

    def val(self, env, o):
        k = o.get('k')
        if k == 'c':
            try: return int(o['v'])
            except Exception: return None
        if k == 'null': return 0
        kk = self.key(o)
        return env.get(kk) if kk else None

    def slot(self, o, depth=0):
        """(base, offset) of an address with a constant offset"""
        k = self.key(o)
        if k is None: return None
        if k[0] == 'i':
            i = self.f.inst[k[1]]
            if i.op == 'getelementptr':
                g = i.d['gep']
                if not g.get('ok', True) or g['var']: return None
                b = self.slot(i.ops[0], depth + 1)
                return None if b is None else (b[0], b[1] + g['coff'])
            if i.op in ('bitcast', 'addrspacecast'): return self.slot(i.ops[0], depth + 1)
        return (k, 0)

    def root(self, o):
        """base value an address is formed from, whatever the offset"""
        k = self.key(o)
        while k and k[0] == 'i' and self.f.inst[k[1]].op in ('getelementptr', 'bitcast'):
            k = self.key(self.f.inst[k[1]].ops[0])
        return k

    def local(self, base): return base[0] == 'i' and base[1] in self.allocas

    def external(self, env):
        return [k for k, v in env.items() if k[0] == 's' and v == 'R' and not self.local(k[1])]

    def fault(self, i, what):
        w = (i.loc(), what)
        if w not in self.bad: self.bad.append(w)

    # -- the walk
    def run(self):
        st = set(); work = []
        env0 = {}; mode = 'none'
        if self.entry is not None:
            mode = 'held'
            for k, v in self.entry.items(): env0[k] = v
        work.append((0, None, mode, frozenset(env0.items())))
        while work:
            b, frm, mode, fe = work.pop()
            if (b, frm if self.f.blocks[b][0].op == 'phi' else None, mode, fe) in st: continue
            st.add((b, frm if self.f.blocks[b][0].op == 'phi' else None, mode, fe))
            if len(st) > LIMIT: raise ir.AnalysisBroken('too many paths in ' + self.f.dem[:80])
            env = dict(fe)
            for s, m, e in self.block(b, frm, mode, env):
                if m == 'none' and s not in self.after: continue           # never acquired on the rest of this path
                L = self.live[s]
                work.append((s, b, m, frozenset(x for x in e.items() if x[0][0] != 'i' or x[0][1] in L and (m != 'none' or x[1] in ('R', 'D')))))
        self.paths = len(st)
        return self.bad

    def exits(self, i, mode, env, how):
        self.ends.append((i, mode, dict(env), how))
        out = self.external(env)
        if how == 'exception':
            # an object under construction is not destroyed when its construction fails
            ctor = re.search(r'(\w+)(?:<.*>)?::\1\(', self.f.dem) is not None
            out = [k for k in out if not (k[1][0] == 'a' and (self.f.params[k[1][1]].get('sret') or (ctor and k[1][1] == 0)))]
        if how == 'return' and i.ops and self.carries(env, i.ops[0]): out = out + ['returned']
        if mode == 'held':
            if not out: self.fault(i, 'the %s acquired at %s is never released when the function is left here (%s)' % (NAMES[self.kind], self.where(), how))
        elif mode == 'released' and out:
            self.fault(i, 'the %s acquired at %s has been released but is still owned when the function is left here' % (NAMES[self.kind], self.where()))

    def where(self): return self.site.loc() if self.site is not None else 'entry'

    def carries(self, env, o):
        """the resource itself, or an aggregate built around it"""
        k = self.key(o)
        if k is None: return False
        if env.get(k) == 'R': return True
        if k[0] == 'i' and self.f.inst[k[1]].op == 'insertvalue':
            return any(self.carries(env, x) for x in self.f.inst[k[1]].ops[:2])
        return False

    def block(self, b, frm, mode, env):
        f = self.f
        # phis in parallel
        new = {}
        for i in f.blocks[b]:
            if i.op != 'phi': break
            v = None
            for e in i.ops:
                if e[1] == frm: v = self.val(env, e[0])
            if isinstance(v, int) and (abs(v) > 255 or i.t not in ('i1', 'i8', 'ptr')): v = None
            new[('i', i.id)] = v
        # values computed in this block are recomputed: forget those of the previous round
        for i in f.blocks[b]:
            if i.op != 'phi': env.pop(('i', i.id), None)
        for k, v in new.items():
            if v is None: env.pop(k, None)
            else: env[k] = v
        for i in f.blocks[b]:
            if i.op == 'phi': continue
            if i.op in ('call', 'invoke'):
                if i.op == 'invoke':
                    nm, ne, ok = self.call(i, mode, env)
                    ue = dict(env)
                    um = mode
                    if kind(i, REL): um, ue = nm, dict(ne)      # a destructor or release that throws has still released
                    elif i is not self.site:
                        um, ue = self.unwind_effect(i, mode, ue)
                    if not self.noreturn(i): yield i.d['succ'][0], nm, ne
                    c = i.callee or ''
                    if not c or c.startswith('_Z') or c.startswith('__cxa_'): yield i.d['succ'][1], um, ue       # C functions do not throw
                    return
                if may_throw(i): self.exits(i, mode, env, 'exception')
                mode, env, _ = self.call(i, mode, env)
                if i.d.get('noret'): return
                continue
            if i.op == 'ret':
                self.exits(i, mode, env, 'return'); return
            if i.op == 'resume':
                self.exits(i, mode, env, 'exception'); return
            if i.op == 'unreachable': return
            if i.op in ('br', 'switch'):
                yield from self.branch(i, mode, env); return
            if i.op == 'alloca':
                for k in [k for k in env if k[0] == 's' and k[1] == ('i', i.id)]: del env[k]
                continue
            if i.op == 'load':
                a = self.val(env, i.ops[0])
                if a in ('R', 'D') and mode == 'released': self.fault(i, 'read of the %s acquired at %s after it was released' % (NAMES[self.kind], self.where()))
                s = self.slot(i.ops[0])
                v = env.get(('s',) + s) if s else None
                if v is not None: env[('i', i.id)] = v
                continue
            if i.op == 'store':
                a = self.val(env, i.ops[1])
                if a in ('R', 'D') and mode == 'released': self.fault(i, 'write to the %s acquired at %s after it was released' % (NAMES[self.kind], self.where()))
                s = self.slot(i.ops[1]); v = self.val(env, i.ops[0])
                if s is not None:
                    sz = i.d.get('sz', 1)
                    for k in [k for k in env if k[0] == 's' and k[1] == s[0] and k[2] < s[1] + sz and k[2] + 8 > s[1]]:
                        if k[2] != s[1] and env[k] in ('R', 'D') and k[2] + 8 <= s[1]: continue
                        if k[2] == s[1] or env[k] in ('R', 'D') or True:
                            if k[2] >= s[1]: del env[k]
                    if v is not None and (v in ('R', 'D') or abs(v) < 256): env[('s',) + s] = v
                elif v == 'R':
                    mode = 'escaped'
                continue
            if i.op in ('getelementptr', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                v = self.val(env, i.ops[0])
                if v == 'R':
                    same = i.op != 'getelementptr' or (not i.d['gep']['var'] and i.d['gep']['coff'] == 0)
                    env[('i', i.id)] = 'R' if same and i.op != 'ptrtoint' else 'D'
                elif v == 'D': env[('i', i.id)] = 'D'
                continue
            if i.op == 'select':
                c = self.val(env, i.ops[0])
                x, y = self.val(env, i.ops[1]), self.val(env, i.ops[2])
                if c in (0, 1): v = x if c else y
                elif x == y: v = x
                elif 'R' in (x, y) or 'D' in (x, y): v = 'R' if 'R' in (x, y) else 'D'
                else: v = None
                if v is not None: env[('i', i.id)] = v
                continue
            if i.op == 'icmp':
                v = self.compare(i, mode, env)
                if v is not None: env[('i', i.id)] = int(v)
                continue
            if i.op in ('zext', 'sext', 'trunc', 'freeze'):
                v = self.val(env, i.ops[0])
                if v == 'R' or isinstance(v, int): env[('i', i.id)] = v
                continue
            if i.op in ('xor', 'and', 'or'):
                x, y = self.val(env, i.ops[0]), self.val(env, i.ops[1])
                if isinstance(x, int) and isinstance(y, int): env[('i', i.id)] = {'xor': x ^ y, 'and': x & y, 'or': x | y}[i.op]
                elif i.op == 'and' and 0 in (x, y): env[('i', i.id)] = 0
                elif i.op == 'or' and 1 in (x, y) and i.t == 'i1': env[('i', i.id)] = 1
                continue
            if i.op == 'extractvalue':
                continue

    def noreturn(self, i): return i.d.get('noret') or i.callee in ('__cxa_throw', '__cxa_rethrow')

    def unwind_effect(self, i, mode, env):
        m, e, _ = self.call(i, mode, dict(env), report=False)
        if i is self.site: return mode, env
        return m, e

    def compare(self, i, mode, env):
        x, y = self.val(env, i.ops[0]), self.val(env, i.ops[1])
        p = i.d.get('pred')
        if isinstance(x, int) and isinstance(y, int):
            return {'eq': x == y, 'ne': x != y}.get(p)
        if 'R' in (x, y) and 0 in (x, y) and self.kind not in ('fd',):
            # a pointer known to be valid is not null (unless the allocation may have failed: see branch)
            if self.kind in ('new', 'new[]') or self.entry is not None: return {'eq': False, 'ne': True}.get(p)
        if 'D' in (x, y) and 0 in (x, y): return {'eq': False, 'ne': True}.get(p)
        return None

    def failing(self, i, env):
        """outcome of the comparison under which the acquisition has failed, or None"""
        if i.op != 'icmp': return None
        x, y = self.val(env, i.ops[0]), self.val(env, i.ops[1]); p = i.d.get('pred')
        if x != 'R' or not isinstance(y, int): return None
        if y >= 1 << 31: y -= 1 << (64 if y >= 1 << 63 else 32)
        if self.kind == 'fd':
            if (p, y) in (('slt', 0), ('eq', -1), ('sle', -1)): return True
            if (p, y) in (('sgt', -1), ('sge', 0), ('ne', -1)): return False
        elif y == 0:
            if p == 'eq': return True
            if p == 'ne': return False
        return None

    def branch(self, i, mode, env):
        f = self.f; succ = i.d['succ']
        c = i.d.get('cond')
        if i.op == 'br' and c is not None and len(succ) == 2:
            v = self.val(env, c)
            fl = None
            if c.get('k') == 'i' and mode == 'held': fl = self.failing(f.inst[c['v']], env)
            for n, s in enumerate(succ):
                truth = n == 0
                if isinstance(v, int) and bool(v & 1) != truth: continue
                e = dict(env); m = mode
                if c.get('k') == 'i':
                    if c['v'] in self.multi: e[('i', c['v'])] = int(truth)
                    else: e.pop(('i', c['v']), None)
                    ci = f.inst[c['v']]
                    if ci.op == 'icmp':
                        # equality with a constant is learnt
                        x, y = ci.ops[0], ci.ops[1]; k = self.key(x); yv = self.val(env, y)
                        if k and isinstance(yv, int) and abs(yv) < 256 and self.val(env, x) is None and ci.d.get('pred') == ('eq' if truth else 'ne') and f.inst.get(k[1]) is not None and k[0] == 'i' and f.inst[k[1]].op in ('phi', 'load'): e[k] = yv
                if fl is not None and fl == truth:
                    # nothing was acquired
                    m = 'none'; e = {k: w for k, w in e.items() if w not in ('R', 'D')}
                yield s, m, e
            return
        if i.op == 'switch':
            v = self.val(env, c) if c else None
            if isinstance(v, int):
                for val, s in i.d.get('cases', []):
                    if int(val) == v: yield s, mode, env; return
                yield succ[0], mode, env; return
        for s in dict.fromkeys(succ): yield s, mode, dict(env)

    def call(self, i, mode, env, report=True):
        env = dict(env)
        if i is self.site:
            if mode == 'held' and not self.external(env):
                if report: self.fault(i, 'a new %s is acquired while the one of the previous round has not been released' % NAMES[self.kind])
            # values of the previous instance no longer denote this one
            env = {k: v for k, v in env.items() if v not in ('R', 'D')}
            env[('i', i.id)] = 'R'
            return 'held', env, True
        rk = kind(i, REL)
        if rk:
            a = self.val(env, i.ops[0])
            if a in ('R', 'D') and mode != 'none':
                if a == 'D':
                    if report: self.fault(i, 'what is released is not the start of the %s acquired at %s' % (NAMES[self.kind], self.where()))
                elif rk != self.kind:
                    if report: self.fault(i, 'the %s acquired at %s with %s is released by %s' % (NAMES[self.kind], self.where(), self.kind, i.dem.split('(')[0]))
                elif mode == 'released':
                    if report: self.fault(i, 'the %s acquired at %s is released twice' % (NAMES[self.kind], self.where()))
                elif mode in ('held', 'escaped'):
                    self.seen_rel += 1
                    mode = 'released'
            return mode, env, True
        c = i.callee or ''
        if c.startswith('llvm.lifetime') or c.startswith('llvm.dbg') or c.startswith('llvm.experimental') or c.startswith('llvm.assume'): return mode, env, True
        m = re.match(r'llvm\.mem(cpy|move|set)', c)
        if m:
            for o in i.ops[:2]:
                if self.val(env, o) in ('R', 'D') and mode == 'released' and report: self.fault(i, 'use of the %s acquired at %s after it was released' % (NAMES[self.kind], self.where()))
            d = self.slot(i.ops[0]); n = i.ops[2].get('v') if i.ops[2].get('k') == 'c' else None
            if d is not None and n is not None:
                n = int(n)
                for k in [k for k in env if k[0] == 's' and k[1] == d[0] and d[1] <= k[2] < d[1] + n]: del env[k]
                if m.group(1) == 'set':
                    v = self.val(env, i.ops[1])
                    if v == 0:
                        for o in range(0, min(n, 256), 8): env[('s', d[0], d[1] + o)] = 0
                else:
                    s = self.slot(i.ops[1])
                    if s is not None:
                        for k, v in list(env.items()):
                            if k[0] == 's' and k[1] == s[0] and s[1] <= k[2] < s[1] + n: env[('s', d[0], d[1] + k[2] - s[1])] = v
            return mode, env, True
        # any other call borrows what it is given, and may change what it is given by non-const reference
        for k, o in enumerate(i.ops):
            v = self.val(env, o)
            if v in ('R', 'D') and mode == 'released' and report: self.fault(i, 'the %s acquired at %s is used after it was released' % (NAMES[self.kind], self.where()))
            r = self.root(o)
            if r is None: continue
            mine = [q for q in env if q[0] == 's' and q[1] == r]
            if mine and k == int(any(a.get('sret') for a in i.d.get('pattr', []))):
                n = ir.this_size(i); s = self.slot(o)
                if n and s is not None: mine = [q for q in mine if s[1] <= q[2] < s[1] + n]
            if not mine: continue
            at = i.d.get('pattr', [])
            if k < len(at) and (at[k].get('ro') or at[k].get('byval')): continue
            if ir.keeps(i, k): continue
            for q in mine:
                if env[q] == 'R' and mode == 'held': mode = 'escaped'
                del env[q]
        return mode, env, True
