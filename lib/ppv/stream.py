"""The shape of what a function puts on a stream, and of what a function takes off one.

A writer or reader is walked over its control flow on the way where the stream stays good: calls are followed, a loop is summarised from one generic
iteration (what it steps over, how often it runs), and every stream operation becomes an event. `match` walks the two event lists side by side and decides
whether the reader takes off exactly what the writer put on, and whether every value ends in the place it was taken from."""
import re
from . import ir


class Undecided(Exception): pass
class ByValue(Exception):
    """how many elements are written or read depends on what they hold"""


class Wrong(Exception): pass


W = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
OUT = re.compile(r'^std::ostream::operator<<\((.*)\)$')
IN = re.compile(r'^std::istream::operator>>\((.*)&\)$')
STRING = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VEC = re.compile(r'std::(?:__debug::)?vector<')


def add(a, n):
    if n == 0: return a
    if a[0] == 'gep':
        return add(a[1], a[2] + n) if a[2] + n == 0 else ('gep', a[1], a[2] + n) if a[2] + n else a[1]
    if a[0] == 'pack' or a[0] == 'c': raise Undecided('arithmetic on an address that is not known')
    return ('gep', a, n)


def split(a):
    return (a[1], a[2]) if a[0] == 'gep' else (a, 0)


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('zx', 'sx'): t = t[2]
    return t


def root(a):
    while isinstance(a, tuple) and a and a[0] in ('gep', 'el', 'elx', 'gepv', 'size', 'begin', 'end'): a = a[1]
    return a


class Walk:
    def __init__(self, mod):
        self.mod = mod; self.mem = {}; self.ev = []; self.req = []; self.ntok = 0; self.nfr = 0; self.nloop = 0
        self.inits = {}; self.steps = {}; self.counts = {}; self.skipws = True; self.path = []; self.depth = 0; self.alias = {}; self.fresh = set(); self.cur = []; self.fns = set(); self.sites = 0; self.eofloop = False

    # ---- memory
    def canon(self, a):
        if not isinstance(a, tuple): return a
        if a in self.alias: return self.canon(self.alias[a])
        if a[0] == 'el' or a[0] == 'size' or a[0] == 'begin' or a[0] == 'end':
            return (a[0], self.canon(a[1])) + a[2:]
        if a[0] == 'gep': return add(self.canon(a[1]), a[2])
        return a

    def store(self, a, n, t):
        a = self.canon(a)
        if root(a)[0] not in ('P', 'L', 'H', 'ld', 'new'):
            if self.loose: return
            raise Undecided('writes through %s' % short(a))
        b, o = split(a)
        for k in list(self.mem):
            if isinstance(k, tuple) and k[0] != 'size':
                kb, ko = split(k)
                if kb == b and k != a:
                    kn = self.mem[k][0]
                    if ko < o + n and o < ko + kn:
                        if ko >= o and ko + kn <= o + n: del self.mem[k]
                        else:
                            v = self.mem.pop(k)[1]
                            if ko < o: self.mem[k] = (o - ko, self.part(v, 0, o - ko))
                            if ko + kn > o + n: self.mem[add(b, o + n)] = (ko + kn - o - n, self.part(v, o + n - ko, ko + kn - o - n))
        if t[0] == 'pack':
            for (po, pn, pt) in t[1]: self.mem[add(a, po)] = (pn, pt)
            return
        self.mem[a] = (n, t)

    def part(self, t, o, n):
        if t[0] == 'c':
            return ('c', (t[1] >> (8 * o)) & ((1 << (8 * n)) - 1))
        if t[0] == 'ld' and o + n <= t[2]: return ('ld', add(t[1], o), n)
        if t[0] == 'zx' and o == 0 and n == t[1]: return t[2]
        if t[0] == 'zx' and o == 0 and n > t[1]: return t
        if t[0] == 'zx' and o >= t[1]: return ('c', 0)
        if t[0] == 'pack':
            r = [(po - o, pn, pt) for po, pn, pt in t[1] if o <= po and po + pn <= o + n]
            if len(r) == 1 and r[0][0] == 0 and r[0][1] == n: return r[0][2]
            for po, pn, pt in t[1]:
                if po <= o and o + n <= po + pn: return self.part(pt, o - po, n)
            if r: return ('pack', tuple(r))
        return ('part', t, o, n)

    def load(self, a, n):
        a = self.canon(a)
        if a in self.mem and self.mem[a][0] == n: return self.mem[a][1]
        if a in self.mem and self.mem[a][0] > n: return self.part(self.mem[a][1], 0, n)
        b, o = split(a); sub = []
        for k, v in self.mem.items():
            if not isinstance(k, tuple) or k[0] == 'size': continue
            kb, ko = split(k)
            if kb != b: continue
            if ko <= o and o + n <= ko + v[0]: return self.part(v[1], o - ko, n)
            if o <= ko and ko + v[0] <= o + n: sub.append((ko - o, v[0], v[1]))
        if sub: return ('pack', tuple(sorted(sub, key=lambda x: x[0])))
        if b[0] == 'el':
            # the elements were filled in by another loop over all of them
            for k in self.mem:
                kb = split(k)[0]
                if kb[0] == 'el' and kb[1] == b[1] and kb[2] != b[2] and self.counts.get(kb[2]) is not None: return self.load(add(kb, o), n)
        if root(a)[0] == 'L': return ('undef',)
        return ('ld', a, n)

    def size(self, c):
        c = self.canon(c); k = ('size', c)
        if k in self.mem: return self.mem[k][1]
        if root(c)[0] == 'L': return ('c', 0)
        b = split(c)[0]
        if b[0] == 'el' and b[1] in self.fresh: return ('c', 0)
        return k

    def setsize(self, c, t):
        self.mem[('size', self.canon(c))] = (0, t)

    def copy(self, dst, src, n=None):
        """what is known of the n bytes at src is known of those at dst, with all they own"""
        src = self.canon(src); dst = self.canon(dst)
        sb, so = split(src)

        def rb(a):
            if a[0] in ('el', 'size', 'elx'):
                c = rb(a[1]); return None if c is None else (a[0], c) + a[2:]
            b, o = split(a)
            if b == sb: return add(dst, o - so) if o >= so and (n is None or o < so + n) else None
            if b[0] in ('el', 'elx'):
                c = rb(b[1]); return None if c is None else add((b[0], c) + b[2:], o)
            return None
        new = {}; old = []
        for k, v in self.mem.items():
            r = rb(k)
            if r is not None: new[r] = v
        for k in list(self.mem):
            # the destination is replaced
            b, o = split(k); db, do = split(dst)
            if n is not None and b == db and do <= o < do + n: del self.mem[k]
        self.mem.update(new)
        for k, v in list(self.alias.items()):
            r = rb(k)
            if r is not None: self.alias[r] = v
        return bool(new)

    def own(self, dst, src, n):
        """copy or move of an owning object of n bytes"""
        if not self.copy(dst, src, n) and root(self.canon(src))[0] != 'L': self.alias[self.canon(dst)] = self.canon(src)

    # ---- values
    def val(self, f, env, o):
        k = o['k']
        if k == 'i':
            if o['v'] not in env: raise Undecided('a value not computed on this way')
            return env[o['v']]
        if k == 'a': return env[('a', o['v'])]
        if k == 'c':
            v = int(o['v']); w = o.get('w') or 64
            return ('c', v - (1 << w) if w > 1 and v >= 1 << (w - 1) else v)
        if k == 'null': return ('c', 0)
        if k == 'g': return ('g', o.get('n'), o.get('s'))
        if k == 'fn': return ('fn', o.get('n'))
        return ('undef',)

    def bits(self, t):
        m = re.match(r'i(\d+)$', t or '')
        return (int(m.group(1)) + 7) // 8 if m else 8

    def run(self, f, args):
        if self.depth > 40: raise Undecided('calls go too deep')
        self.depth += 1; self.fns.add(f.dem); fr = self.nfr = self.nfr + 1
        env = {('a', k): a for k, a in enumerate(args)}; env['fr'] = fr
        G = graph(f)
        r = self.go(f, G, env, 0, None, None, set(f.blocks) if isinstance(f.blocks, dict) else set(range(len(f.blocks))), None)
        self.depth -= 1
        if r is None or r[0] != 'ret': raise Undecided('%s does not return on the good way' % f.dem[:80])
        return r[1]

    def go(self, f, G, env, b, prev, stop, region, loop):
        """walk from b until stop (a block not walked), a return, or the back edge of loop; -> ('ret', v) | ('at', block, prev) | ('back', prev)"""
        first = loop is not None and b == loop
        while True:
            if stop is not None and b == stop: return ('at', b, prev)
            if self.loose and self.depth == 1 and loop is None and stop is None and b not in G.streams: return ('ret', None)
            if loop is not None and b == loop and not first: return ('back', prev)
            if b in f.loops and not (first and b == loop):
                b, prev = self.loop(f, G, env, b, prev, region); continue
            if not (first and b == loop): self.phis(f, env, b, prev)
            first = False
            nxt = self.block(f, env, b)
            if nxt[0] == 'ret': return nxt
            if nxt[0] == 'dead': raise Undecided('the good way ends in a throw in %s' % f.dem[:60])
            if nxt[0] == 'goto': prev, b = b, nxt[1]; 
            else:
                c, s1, s2 = nxt[1:]
                r = self.branch(f, G, env, b, c, s1, s2, region, loop, stop)
                if r[0] == 'next': prev, b = r[2], r[1]
                else: return r
            if b not in region: return ('out', b, prev)

    def phis(self, f, env, b, prev):
        new = {}
        for i in f.blocks[b]:
            if i.op == 'phi':
                for v, pb in i.ops:
                    if pb == prev: new[i.id] = self.val(f, env, v) if not (v['k'] == 'i' and v['v'] not in env) else ('undef',)
        env.update(new)

    def good(self, c):
        """polarity with which a condition says the stream is good; None if it does not speak of a stream"""
        if c[0] == 'good': return c[1]
        if c[0] == 'not':
            g = self.good(c[1]); return None if g is None else not g
        return None

    def branch(self, f, G, env, b, c, s1, s2, region, loop, stop=None):
        c = self.simp(c)
        if c[0] == 'c': return ('next', s1 if c[1] & 1 else s2, b)
        g = self.good(c)
        live = [s for s in (s1, s2) if s in G.live]
        if g is not None:
            t = s1 if g else s2; o = s2 if g else s1
            if t not in G.live: raise Undecided('a good stream leads to a throw in %s' % f.dem[:60])
            if loop is not None and o not in region: self.exits.setdefault(loop, []).append(('fail', o, b))
            if loop is not None and t not in region:
                # left when the stream is good
                self.exits.setdefault(loop, []).append(('always', t, b)); return ('next', t, b)
            return ('next', t, b)
        if len(live) == 1:
            pol = live[0] == s1
            self.req.append((tuple(self.path), c if pol else ('not', c), '%s:%s' % (f.file or '', f.dem[:80])))
            return ('next', live[0], b)
        if not live: raise Undecided('dead end in %s' % f.dem[:60])
        if loop is not None:
            ins = [s for s in (s1, s2) if s in region]
            if len(ins) == 1:
                o = s2 if ins[0] == s1 else s1
                self.exits.setdefault(loop, []).append(('count', o, b, c if ins[0] == s1 else ('not', c)))
                return ('next', ins[0], b)
            if not ins: raise Undecided('a loop left on both ways in %s' % f.dem[:60])
        j = G.join(b, region, loop)
        sides = []
        mem0, ev0, nt, al0 = dict(self.mem), self.ev, self.ntok, dict(self.alias)
        for s, pol in ((s1, True), (s2, False)):
            self.mem = dict(mem0); self.ev = []; self.alias = dict(al0); e = dict(env); self.path.append(c if pol else ('not', c))
            r = ('at', s, b) if s == j else self.go(f, G, e, s, b, j, region, loop)
            self.path.pop()
            sides.append((r, e, self.mem, self.ev, self.alias))
        (r1, e1, m1, v1, a1), (r2, e2, m2, v2, a2) = sides
        self.ev = ev0
        if v1 and v1 == v2: self.ev += v1
        elif v1 or v2: 
            # a loop over something guarded by that thing not being empty
            only = v1 or v2; neg = not v1
            if not (v1 and v2) and len(only) == 1 and only[0][0] == 'LOOP' and self.guards(('not', c) if neg else c, only[0][2]): self.ev += only
            else: self.ev.append(('IF', c, v1, v2))
        if r1[0] == 'at' and r2[0] == 'at' or r1[0] == r2[0] == 'back':
            env.clear()
            for k in e1:
                if k in e2: env[k] = e1[k] if e1[k] == e2[k] else ('either', c, e1[k], e2[k])
            self.mem = {}
            for k in set(m1) | set(m2):
                x = m1.get(k); y = m2.get(k)
                if x == y: self.mem[k] = x
                elif v1 and not v2 and x is not None and self.guardedloop(v1): self.mem[k] = x
                elif v2 and not v1 and y is not None and self.guardedloop(v2): self.mem[k] = y
                else:
                    n = (x or y)[0]; self.mem[k] = (n, ('either', c, x and x[1], y and y[1]))
            self.alias = {k: v for k, v in a1.items() if a2.get(k) == v}
            if r1[0] == 'back':
                self.backs.append((r1[1], r2[1])); return ('back', (r1[1], r2[1], c, e1, e2))
            new = {}
            for i in f.blocks[j]:
                if i.op == 'phi':
                    xs = []
                    for (r, e) in ((r1, e1), (r2, e2)):
                        if isinstance(r[2], tuple): xs.append(r[2][1][i.id]); continue
                        for v, pb in i.ops:
                            if pb == r[2]: xs.append(self.val(f, e, v))
                    if len(xs) != 2: raise Undecided('join in %s' % f.dem[:60])
                    new[i.id] = xs[0] if xs[0] == xs[1] else self.simp(('either', c, xs[0], xs[1]))
            env.update(new)
            if j == stop: return ('at', j, ('merged', new))
            nxt = self.block(f, env, j) if not (j in f.loops) else None
            if nxt is None:
                # join is a loop header: enter with the merged values
                k, p = self.loop(f, G, env, j, ('merged', new), region); return ('next', k, p)
            if nxt[0] in ('ret', ): return nxt
            if nxt[0] == 'goto': return ('next', nxt[1], j)
            if nxt[0] == 'dead': raise Undecided('throws')
            return self.branch(f, G, env, j, nxt[1], nxt[2], nxt[3], region, loop, stop)
        if r1[0] == r2[0] == 'ret':
            self.mem = {k: m1[k] if m1.get(k) == m2.get(k) else (0, ('either', c, m1.get(k, (0, None))[1], m2.get(k, (0, None))[1])) for k in set(m1) | set(m2)}
            return ('ret', r1[1] if r1[1] == r2[1] else ('either', c, r1[1], r2[1]))
        raise Undecided('ways that do not meet in %s: %r %r' % (f.dem[:160], r1[:2], r2[:2]))

    def guardedloop(self, v): return len(v) == 1 and v[0][0] == 'LOOP'

    def guards(self, c, count):
        c = self.simp(c)
        if c[0] == 'not' and c[1][0] == 'cmp' and c[1][1] == 'eq': c = ('cmp', 'ne') + c[1][2:]
        if c[0] == 'cmp' and c[1] in ('ne', 'ugt', 'sgt') and strip(c[2]) == strip(count) and c[3] == ('c', 0): return True
        return c == ('not', ('empty', count[1])) if count[0] == 'size' else False

    def simp(self, c):
        if c[0] == 'not':
            x = self.simp(c[1])
            if x[0] == 'not': return x[1]
            if x[0] == 'c': return ('c', 1 - (x[1] & 1))
            if x[0] == 'good': return ('good', not x[1])
            return ('not', x)
        if c[0] == 'xor' and c[2] == ('c', 1) or c[0] == 'xor' and c[2] == ('c', -1): return self.simp(('not', c[1]))
        if c[0] == 'cmp':
            a, b = c[2], c[3]
            if b == ('c', 0) and strip(a)[0] in ('good', 'cmp', 'not', 'empty') and c[1] in ('eq', 'ne'):
                return self.simp(strip(a) if c[1] == 'ne' else ('not', strip(a)))
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                return ('c', int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y, 'ult': x % 2**64 < y % 2**64, 'ugt': x % 2**64 > y % 2**64, 'ule': x % 2**64 <= y % 2**64, 'uge': x % 2**64 >= y % 2**64}[c[1]]))
            if a == b and c[1] in ('eq', 'ne'): return ('c', int(c[1] == 'eq'))
        if c[0] == 'either':
            if c[2] == ('c', 1) and c[3] == ('c', 0): return self.simp(c[1])
            if c[2] == ('c', 0) and c[3] == ('c', 1): return self.simp(('not', c[1]))
            # a && b, a || b
            if c[3] is not None and c[3][0] == 'c' and self.good(self.simp(c[1])) is True and c[3][1] & 1 == 0: return self.simp(c[2])
            if c[2] is not None and c[2][0] == 'c' and self.good(self.simp(c[1])) is False and c[2][1] & 1 == 0: return self.simp(c[3])
        return c

    # ---- loops
    exits = None; backs = None; cur = (); loose = False

    def loop(self, f, G, env, h, prev, region):
        body = set(f.loops[h]['body'])
        if self.exits is None: self.exits = {}; self.backs = []
        key0 = self.nloop = self.nloop + 1
        init = {}
        if isinstance(prev, tuple) and prev[0] == 'merged': init = dict(prev[1])
        else:
            for i in f.blocks[h]:
                if i.op == 'phi':
                    for v, pb in i.ops:
                        if pb == prev: init[i.id] = self.val(f, env, v)
        mem0, ev0, nt0, al0, nl0, req0, nfr0 = dict(self.mem), self.ev, self.ntok, dict(self.alias), self.nloop, list(self.req), self.nfr
        modified = set()
        for b in body:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and re.search(r'operator\+\+\(', i.dem or '') and i.ops[0].get('k') == 'i' and i.ops[0]['v'] in env:
                    k = self.canon(env[i.ops[0]['v']])
                    if k in mem0: modified.add(k)
        for rnd in range(4):
            self.mem = dict(mem0); self.ev = []; self.ntok = nt0; self.alias = dict(al0); self.nloop = nl0; self.req = list(req0); self.nfr = nfr0
            u = key0; e = dict(env); sv = self.exits; self.exits = {}
            its = {}
            for pid, t in init.items():
                its[pid] = e[pid] = self.iter(u, pid, t)
            for k in modified:
                n, t = mem0[k]
                its[k] = self.iter(u, k, t); self.mem[k] = (n, its[k])
            start = dict(self.mem); self.cur.append(u)
            r = self.go(f, G, e, h, None, None, body & G.live, h); self.cur.pop()
            exits = self.exits.get(h, []); self.exits = sv
            if r[0] == 'ret' or r[0] == 'at': raise Undecided('a loop that returns in %s' % f.dem[:60])
            ch = {k for k in mem0 if self.mem.get(k) != start.get(k)} - modified
            if not ch or r[0] == 'out': break
            modified |= ch
        else: raise Undecided('loop in %s' % f.dem[:60])
        body_ev = self.ev; self.ev = ev0
        if r[0] == 'out':
            # never goes round
            self.ev += body_ev; env.clear(); env.update(e); return r[1], r[2]
        step = {}
        back = r[1]
        for i in f.blocks[h]:
            if i.op == 'phi':
                for v, pb in i.ops:
                    if isinstance(back, tuple) and len(back) == 5:
                        if pb == back[0]: step[i.id] = self.val(f, back[3], v)
                    elif pb == back: step[i.id] = self.val(f, e, v)
        for k in modified: step[k] = self.mem.get(k, (0, ('undef',)))[1]
        cnt = [x for x in exits if x[0] == 'count']; fails = [x for x in exits if x[0] == 'fail']
        if any(x[0] == 'always' for x in exits): raise Undecided('a loop left while the stream is good in %s' % f.dem[:60])
        if len(cnt) > 1 and any(self.byvalue(x[3]) for x in cnt): raise ByValue('a loop over the elements in %s is also left depending on what an element holds' % f.dem[:90])
        if len({x[1] for x in cnt}) > 1 or len(cnt) > 1: raise Undecided('a loop with several ways out in %s' % f.dem[:60])
        if cnt:
            count, by = self.trip(u, cnt[0][3], its, init, step); target = cnt[0][1]; frm = cnt[0][2]
        else:
            if not fails: raise Undecided('a loop without an end in %s' % f.dem[:60])
            count, by = ('EOF',), None; target = fails[0][1]; frm = fails[0][2]
        self.counts[u] = count
        if body_ev: self.ev.append(('LOOP', u, count, body_ev))
        # values after the loop
        fin = {}
        for k, t in its.items():
            s = step.get(k)
            if s == t: fin[k] = init[k] if k in init else mem0[k][1]
            elif self.isinc(s, t) == 1 and strip(init.get(k, mem0[k][1] if k in mem0 else ('undef',))) == ('c', 0): fin[k] = count
            elif isinstance(k, tuple) and k[0] == 'size' and s is not None and s[0] == 'inc' and s[1] == t: fin[k] = ('pushed', mem0[k][1], u)
            elif self.isinc(s, t) == -1 and by == k: fin[k] = ('c', 0)
            else: fin[k] = ('fin', u, k)
        for k, v in list(self.mem.items()):
            if isinstance(k, tuple) and k[0] == 'size' and k not in mem0 and v[1][0] == 'inc': self.mem[k] = (0, ('pushed', v[1][1], u))
            elif isinstance(k, tuple) and k[0] == 'size' and k not in mem0 and self.outer(k, u): pass
        env.update(e)
        for k, t in fin.items():
            if k in init: env[k] = t
            elif k in self.mem: self.mem[k] = (self.mem[k][0], t)
        # values computed in the loop speak of its last turn
        for k in list(env):
            if k in fin or k in ('fr',): continue
            if isinstance(k, int) and self.has(env[k], ('it', u)): env[k] = ('fin', u, k)
        return target, frm

    def outer(self, k, u): return False

    def byvalue(self, c):
        """does the condition look at what an element of a container holds"""
        if not isinstance(c, tuple): return False
        if c and c[0] == 'ld' and c[1][0] in ('el', 'gep') and "'el'" in str(c[1]): return True
        return any(self.byvalue(x) for x in c)

    def has(self, t, pre):
        if not isinstance(t, tuple): return False
        if t[:2] == pre: return True
        return any(self.has(x, pre) for x in t)

    def iter(self, u, k, t):
        """the value of a loop variable in the generic turn"""
        self.inits[(u, k)] = t
        s = strip(t)
        if s[0] == 'begin': return ('el', s[1], u)
        if s[0] in ('P', 'L', 'gep', 'el', 'ld') and (s[0] != 'ld' or s[2] == 8) and not isinstance(k, str) and s[0] != 'ld': return ('el', s, u)
        return ('it', u, k)

    def isinc(self, s, t):
        if s is None: return 0
        s = strip(s)
        if s[0] == 'op' and s[1] == 'add' and strip(s[2]) == strip(t) and s[3][0] == 'c': return s[3][1]
        if s[0] == 'op' and s[1] == 'sub' and strip(s[2]) == strip(t) and s[3][0] == 'c': return -s[3][1]
        return 0

    def trip(self, u, c, its, init, step):
        c = self.simp(c); neg = False
        if c[0] == 'not': c = c[1]; neg = True
        if c[0] == 'empty': raise Undecided('a loop that empties a container')
        if c[0] != 'cmp': raise Undecided('a loop that goes on while %s' % short(c))
        p, x, y = c[1:]
        if neg: p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
        swap = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
        for a, b, q in ((x, y, p), (y, x, swap[p])):
            for k, t in its.items():
                if strip(a) != t: continue
                i0 = strip(self.inits[(u, k)]); s = step.get(k)
                if t[0] == 'el':
                    if q not in ('ne', 'ult'): raise Undecided('a loop that goes on while an iterator is %s' % q)
                    st = s[2] if s and s[0] == 'gep' and s[1] == t else 'next' if s == ('next', t) else None
                    if st is None: raise Undecided('a loop that does not step by one element')
                    self.steps[u] = st
                    b = strip(b)
                    if b == ('end', t[1]): return ('size', t[1]) if self.canon(t[1]) == t[1] and ('size', t[1]) not in self.mem else self.size(t[1]), k
                    if b[0] == 'gep' and b[1] == t[1] and isinstance(st, int) and b[2] % st == 0: return ('c', b[2] // st), k
                    bb, bo = split(b); tb, to = split(t[1])
                    if bb == tb and isinstance(st, int) and (bo - to) % st == 0: return ('c', (bo - to) // st), k
                    if b[0] == 'gepv' and b[1] in (t[1], ('begin', t[1])) and (b[3] == st or st == 'next'): return strip(b[2]), k
                    raise Undecided('a loop up to %s' % short(b))
                d = self.isinc(s, t)
                if d == 1 and i0 == ('c', 0) and q in ('ne', 'ult', 'slt'): return strip(b), k
                if d == 1 and i0 == ('c', 1) and q in ('ule', 'sle'): return strip(b), k
                if d == -1 and strip(b) == ('c', 0) and q in ('ne', 'ugt', 'sgt'): return i0, k
                raise Undecided('a loop counting from %s by %s while %s %s' % (short(i0), d, q, short(b)))
        raise Undecided('a loop that goes on while %s' % short(c))

    # ---- instructions
    def block(self, f, env, b):
        for i in f.blocks[b]:
            op = i.op
            V = lambda k: self.val(f, env, i.ops[k])
            if op == 'phi': continue
            if op == 'alloca':
                a = env[i.id] = ('L', env['fr'], i.id)
            elif op == 'load': env[i.id] = self.stream_or(self.load(V(0), i.d.get('sz') or self.bits(i.t)))
            elif op == 'store': self.store(V(1), i.d.get('sz') or self.bits(i.ops[0].get('t')), V(0))
            elif op == 'getelementptr':
                g = i.d['gep']; base = V(0)
                if base == ('S',): env[i.id] = base; continue
                if not g['ok']: raise Undecided('address arithmetic in %s' % f.dem[:60])
                if g['var']:
                    x = [(self.val(f, env, v), s) for v, s in g['var']]
                    if base[0] in ('?', 'undef') or root(base) == ('S',): env[i.id] = ('S',); continue
                    if len(x) != 1: raise Undecided('address arithmetic')
                    ix, sc = strip(x[0][0]), x[0][1]
                    if ix[0] == 'c': env[i.id] = self.gep(base, ix[1] * sc + g['coff'])
                    elif ix[0] == 'it' and strip(self.inits[ix[1:]]) == ('c', 0): env[i.id] = add(('el', base[1] if base[0] == 'begin' else base, ix[1]), g['coff'])
                    else: env[i.id] = add(('gepv', base, ix, sc), g['coff'])
                else: env[i.id] = self.gep(base, g['coff'])
            elif op in ('zext', 'sext'):
                x = V(0); n = self.bits(i.ops[0].get('t'))
                env[i.id] = x if x[0] == 'c' and op == 'sext' else ('c', x[1] & ((1 << (8 * n)) - 1)) if x[0] == 'c' and i.ops[0].get('t') != 'i1' else x if x[0] in ('good',) else (('zx' if op == 'zext' else 'sx'), n, x)
            elif op == 'trunc':
                x = V(0)
                if i.t == 'i1':
                    env[i.id] = strip(x) if strip(x)[0] in ('cmp', 'good', 'not', 'empty') else x if x[0] != 'zx' else x[2]
                else: env[i.id] = self.part(x, 0, self.bits(i.t)) if x[0] != 'sx' or x[1] != self.bits(i.t) else x[2]
            elif op == 'lshr' and V(1)[0] == 'c' and V(1)[1] % 8 == 0:
                n = self.bits(i.t); k = V(1)[1] // 8; env[i.id] = ('zx', n - k, self.part(V(0), k, n - k))
            elif op == 'shl' and V(1)[0] == 'c' and V(1)[1] % 8 == 0 and V(0)[0] == 'zx':
                n = self.bits(i.t); k = V(1)[1] // 8; env[i.id] = ('pack', ((k, min(V(0)[1], n - k), V(0)[2]),))
            elif op == 'or' and V(0)[0] == 'pack' and V(1)[0] in ('zx', 'pack') or op == 'or' and V(1)[0] == 'pack' and V(0)[0] == 'zx':
                P = []
                for x in (V(0), V(1)): P += list(x[1]) if x[0] == 'pack' else [(0, x[1], x[2])]
                env[i.id] = ('pack', tuple(sorted(P, key=lambda x: x[0])))
            elif op == 'and' and V(1)[0] == 'c' and V(1)[1] in (0xff, 0xffff, 0xffffffff): 
                n = {0xff: 1, 0xffff: 2, 0xffffffff: 4}[V(1)[1]]; env[i.id] = ('zx', n, self.part(V(0), 0, n))
            elif op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): env[i.id] = V(0)
            elif op == 'icmp': env[i.id] = self.simp(('cmp', i.d['pred'], V(0), V(1)))
            elif op == 'xor' and i.t == 'i1': env[i.id] = self.simp(('xor', V(0), V(1)))
            elif op == 'select':
                c = self.simp(V(0))
                env[i.id] = V(1) if c == ('c', 1) or V(1) == V(2) else V(2) if c == ('c', 0) else self.simp(('either', c, V(1), V(2)))
            elif op in ('extractvalue', 'insertvalue'): env[i.id] = ('undef',)
            elif op in ('call', 'invoke'):
                d = i.dem or ''
                A = [self.val(f, env, o) for o in i.ops]
                if re.search(r'::setstate\(', d) and A[1:] and A[1][0] == 'c' and A[1][1] & 5: return ('dead',)
                r = self.call(f, i, A)
                if r is not None: env[i.id] = r
                if op == 'invoke': return ('goto', i.d['succ'][0])
            elif op == 'br':
                s = i.d['succ']
                if 'cond' not in i.d or len(s) == 1: return ('goto', s[0])
                return ('br', self.val(f, env, i.d['cond']), s[0], s[1])
            elif op == 'switch':
                raise Undecided('switch in %s' % f.dem[:60])
            elif op == 'ret': return ('ret', V(0) if i.ops else None)
            elif op in ('unreachable', 'resume', 'landingpad'): return ('dead',)
            else:
                x = [V(k) for k in range(len(i.ops))]
                if len(x) == 2 and x[0][0] == x[1][0] == 'c' and op in ('add', 'sub', 'mul'):
                    env[i.id] = ('c', {'add': x[0][1] + x[1][1], 'sub': x[0][1] - x[1][1], 'mul': x[0][1] * x[1][1]}[op])
                else: env[i.id] = ('op', op) + tuple(x)
        raise Undecided('block')

    def stream_or(self, t): return t

    def gep(self, base, n):
        if base[0] in ('begin', 'c', 'undef', '?', 'fn'):
            if n == 0: return base
            if base[0] == 'begin': return ('elx', base[1], n)
            return ('?',)
        return add(base, n)

    # ---- calls
    def tok(self, kind, w, **k):
        self.ntok += 1; return ('tok', self.ntok, w, kind)

    def emit(self, *e): self.ev.append(e); self.sites += 1

    def call(self, f, i, A):
        d = i.dem or ''; c = i.callee or ''
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental|donothing|invariant|prefetch)', c): return None
        if c.startswith('llvm.mem'):
            n = A[2][1] if A[2][0] == 'c' else None
            if c.startswith('llvm.memset'):
                if n is None: raise Undecided('memset')
                self.store(A[0], n, A[1] if n == 1 or A[1] == ('c', 0) else ('?',)); return None
            if n is None: raise Undecided('a block copy of unknown length')
            if not self.copy(A[0], A[1], n): self.store(A[0], n, self.load(A[1], n))
            return None
        if c.startswith('llvm.'): return ('op', c.split('.')[1]) + tuple(A)
        if re.search(r'::~\w+\(\)$', d) and (self.mod.byname.get(c) is None or d.startswith('std::')) or re.search(r'^operator delete', d) or 'deallocate(' in d: return None
        if re.match(r'operator new(\[\])?\(', d): self.ntok += 1; return ('H', self.ntok)
        S = ('S',)
        m = OUT.match(d)
        if m:
            t = m.group(1)
            if '(*)' in t:
                n = A[1][1] if A[1][0] == 'fn' else ''
                if 'endl' in (n or ''): self.emit('CH', '\n')
                elif 'flush' in (n or ''): pass
                else: self.emit('MANIP', n)
            elif t in W: self.emit('INT', t, A[1], f.dem)
            else: raise Undecided('puts a %s on a stream' % t)
            return S
        m = IN.match(d)
        if m:
            t = m.group(1)
            if t not in W: raise Undecided('takes a %s off a stream' % t)
            self.emit('INT', t, self.take(A[1], t), f.dem, self.skipws); return S
        if re.search(r'std::operator<<<.*\(std::basic_ostream<char, std::char_traits<char>>&, (char|signed char|unsigned char)\)$', d):
            if A[1][0] == 'c': self.emit('CH', chr(A[1][1] & 255))
            else: self.emit('CHV', A[1], f.dem)
            return S
        if re.search(r'std::operator<<<.*&, char const\*\)$', d):
            if A[1][0] == 'g' and A[1][2] is not None:
                for ch in A[1][2].split('\0')[0]: self.emit('CH', ch)
                return S
            raise Undecided('puts a text that is not a literal on a stream')
        if re.search(r'std::operator<<<.*&, %s const&\)$' % re.escape(STRING), d): self.emit('STR', self.load(A[1], 32), f.dem); return S
        if re.search(r'std::operator>>.*&, %s&\)$' % re.escape(STRING), d):
            t = self.tok('s', 32); self.store(A[1], 32, t); self.emit('STR', t, f.dem, self.skipws); return S
        if re.search(r'std::operator>>.*&, char&\)$', d):
            t = self.tok('c', 1); self.store(A[1], 1, t); self.emit('CHV', t, f.dem, self.skipws); return S
        if re.match(r'std::ostream::write\(', d): self.emit('RAW', A[1], A[2], f.dem); return S
        if re.match(r'std::istream::read\(', d):
            t = self.tok('r', 0); self.store(('el', A[1], 'raw') if A[1][0] != 'begin' else ('el', A[1][1], 'raw'), 1, t)
            self.emit('RAW', A[1], A[2], f.dem); return S
        if re.match(r'std::ostream::put\(', d):
            if A[1][0] == 'c': self.emit('CH', chr(A[1][1] & 255))
            else: self.emit('CHV', A[1], f.dem)
            return S
        if re.match(r'std::ostream::flush\(', d): return S
        if re.match(r'std::istream::get\(char&\)', d):
            t = self.tok('c', 1); self.store(A[1], 1, t); self.emit('CHV', t, f.dem, False); return S
        if re.match(r'std::istream::get\(\)', d): t = self.tok('c', 4); self.emit('CHV', t, f.dem, False); return t
        if re.match(r'std::istream::ignore\(', d):
            if len(A) == 1 or A[1] == ('c', 1): self.emit('SKIP1', f.dem); return S
            if len(A) == 3 and A[2][0] == 'c' and A[1] == ('c', 2**63 - 1): self.emit('LINE', chr(A[2][1] & 255), f.dem); return S
            raise Undecided('ignore')
        if re.search(r'basic_ios<.*>::rdbuf\(\) const$', d): return ('S', 'buf')
        if re.search(r'basic_streambuf<.*>::(snextc|sbumpc|stossc)\(\)$', d): self.emit('SKIP1', f.dem); return ('?',)
        if re.search(r'basic_istream<.*>::sentry::sentry\(', d) or re.search(r'std::istream::sentry::sentry\(', d):
            if A[2] == ('c', 0) and self.skipws: self.emit('WS')
            return None
        if re.search(r'sentry::operator bool', d): return ('good', True)
        if re.search(r'\bws<', d) : self.emit('WS'); return S
        if re.match(r'std::istream::operator>>\(.*\(\*\)', d):
            n = (A[1][1] if A[1][0] == 'fn' else '') or ''
            if 'noskipws' in n: self.skipws = False
            elif 'skipws' in n: self.skipws = True
            elif re.search(r'2ws', n): self.emit('WS')
            elif re.search(r'3dec', n): pass
            else: self.emit('MANIP', n)
            return S
        if re.search(r'std::ios_base::unsetf\(', d):
            if A[1] == ('c', 4096): self.skipws = False; return None
            self.emit('MANIP', 'unsetf'); return None
        if re.search(r'std::ios_base::setf\(', d):
            if A[1] == ('c', 4096): self.skipws = True; return ('?',)
            self.emit('MANIP', 'setf'); return ('?',)
        if re.search(r'std::ios_base::flags\(\) const', d): return ('flags', self.skipws)
        if re.search(r'std::ios_base::flags\(', d):
            if A[1][0] == 'flags': self.skipws = A[1][1]
            else: self.emit('MANIP', 'flags')
            return ('?',)
        if re.search(r'std::ios_base::(width|precision)\(\w+\)', d) or re.search(r'>::fill\(char\)', d) or re.match(r'std::(noskipws|skipws|hex|oct|dec|boolalpha|uppercase|left|right|fixed|scientific)\(', d):
            if 'noskipws' in d: self.skipws = False; return S
            if 'std::skipws' in d: self.skipws = True; return S
            if 'std::dec' in d: return S
            self.emit('MANIP', d[:40]); return S
        if re.search(r'operator(<<|>>)<?.*std::_(Setw|Setfill|Setprecision|Setbase)', d): self.emit('MANIP', d[:60]); return S
        if re.search(r'basic_ios<.*>::(operator!|fail|bad|eof)\(\) const$', d): return ('good', False)
        if re.search(r'basic_ios<.*>::(operator bool|good)\(\) const$', d): return ('good', True)
        if re.search(r'basic_ios<.*>::(clear|exceptions|tie)\(|std::[io]stream::(seek|tell|putback|unget|peek|readsome|gcount)', d): raise Undecided('calls %s' % d[-60:])
        try: r = self.std(f, i, A, d, c)
        except Undecided:
            if not self.loose: raise
            self.ntok += 1; return ('?', self.ntok)
        if r is not False: return r
        g = self.mod.byname.get(c)
        if self.loose and g is not None and not g.dem.startswith('ppocr') and 'ppocr::' not in g.dem.split('(')[0]: self.ntok += 1; return ('?', self.ntok)
        if g is not None:
            r = self.run(g, A); return r
        if d.startswith('__cxa') or c.startswith('__cxa'): return ('?',)
        if self.loose and not re.search(r'basic_[io]stream|std::[io]stream', d): self.ntok += 1; return ('?', self.ntok)
        raise Undecided('calls ' + (lambda x: x if len(x) < 160 else x[:80] + ' ... ' + x[-160:])(d or c or 'through a pointer'))

    def take(self, a, t):
        k = self.tok('i', W[t]); self.store(a, W[t], k); return k

    def index(self, c, ix):
        c = self.canon(c); ix = strip(ix)
        if ix[0] == 'it' and strip(self.inits[ix[1:]]) == ('c', 0): return ('el', c, ix[1])
        return ('elx', c, ix)

    def std(self, f, i, A, d, c):
        """library containers and strings; False if not one of them"""
        m = re.match(r'(?:.* )?__gnu_cxx::operator(==|!=|<|-)<', d) or re.match(r'bool std::operator(==|!=)<.*iterator', d)
        if m and m.group(1) != '-': 
            return self.simp(('cmp', {'==': 'eq', '!=': 'ne', '<': 'ult'}[m.group(1)], self.load(A[0], 8), self.load(A[1], 8)))
        m = re.match(r'__gnu_cxx::__normal_iterator<.*>::(operator\*|operator->|operator\+\+|operator\[\]|base|__normal_iterator|operator\+)(<[^(]*>)?\((.*)\)( const)?$', d)
        if m:
            n = m.group(1)
            if n in ('operator*', 'operator->'): return self.load(A[0], 8)
            if n == 'base': return A[0]
            if n == '__normal_iterator': self.store(A[0], 8, self.load(A[1], 8)); return None
            if n == 'operator++':
                o = self.load(A[0], 8); self.store(A[0], 8, ('next', o)); return A[0] if not m.group(3) else o
            raise Undecided('iterator arithmetic')
        M = re.match(r'(?:.* )?std::(vector|__cxx11::basic_string|array|basic_string_view|unique_ptr|initializer_list)<', d)
        if not M: return False
        kind = M.group(1)
        # the member name behind the template arguments
        j = M.end() - 1; dep = 0
        for k in range(j, len(d)):
            if d[k] == '<': dep += 1
            elif d[k] == '>':
                dep -= 1
                if dep == 0: break
        rest = d[k + 1:]; T = d[j + 1:k]
        m = re.match(r'::(operator ?[^\w\s(]+|operator\[\]|operator\(\)|operator bool|~?\w+)', rest)
        if not m: return False
        n = m.group(1); ps = rest[m.end():]
        this = A[0] if A else None
        sret = bool(i.d.get('pattr') and i.d['pattr'] and i.d['pattr'][0].get('sret'))
        if kind == 'vector':
            elt = first(T)
            if n in ('begin', 'cbegin', 'data'): return ('begin', self.canon(this))
            if n in ('end', 'cend'): return ('end', self.canon(this))
            if n == 'size': return self.size(this)
            if n == 'empty':
                s = self.size(this)
                return ('c', int(s == ('c', 0))) if s[0] == 'c' else ('empty', self.canon(this))
            if n in ('operator[]', 'at'): return self.index(this, A[1])
            if n == 'vector' and ps == '()': self.setsize(this, ('c', 0)); return None
            if n == 'vector' and re.match(r'\(std::vector<.*>( const&|&&)(, .*)?\)$', ps) or n == 'operator=' and re.match(r'\(std::vector<.*>( const&|&&)\)$', ps):
                self.own(this, A[1], 24); return this if n == 'operator=' else None
            if n == 'vector' and re.match(r'\(unsigned long, std::allocator', ps): self.setsize(this, strip(A[1])); return None
            if n == 'resize':
                if self.size(this) == ('c', 0): self.fresh.add(self.canon(this))
                self.setsize(this, strip(A[1])); return None
            if n == 'back':
                c = self.canon(this); s = self.size(c)
                return ('el', c, self.cur[-1]) if s[0] == 'inc' and self.cur else ('elx', c, ('last',))
            if n == 'front': return ('elx', self.canon(this), ('c', 0))
            if n == 'capacity': return ('capacity', self.canon(this))
            if n in ('reserve', 'shrink_to_fit'): return None
            if n == 'clear': self.setsize(this, ('c', 0)); return None
            if n in ('push_back', 'emplace_back'): return self.push(f, this, elt, A[1:], n, ps)
            if n in ('swap',): raise Undecided('swap')
            raise Undecided('vector::%s' % n)
        if kind == '__cxx11::basic_string':
            if n == 'basic_string' and re.match(r'\((std::allocator<char> const&)?\)$', ps): self.store(this, 32, ('emptystr',)); return None
            if n == 'basic_string' and re.match(r'\(std::__cxx11::basic_string<.*>( const&|&&)\)$', ps) or n == 'operator=' and 'basic_string<' in ps:
                self.store(this, 32, self.load(A[1], 32)); return this if n == 'operator=' else None
            if n in ('begin', 'cbegin', 'data', 'c_str'): return ('begin', ('str', self.load(this, 32)))
            if n in ('size', 'length'): return ('size', ('str', self.load(this, 32)))
            if n == 'end': return ('end', ('str', self.load(this, 32)))
            if n in ('clear', 'reserve', 'shrink_to_fit'):
                if n == 'clear': self.store(this, 32, ('emptystr',))
                return None
            if n == 'empty': return ('empty', ('str', self.load(this, 32)))
            raise Undecided('string::%s' % n)
        if kind == 'unique_ptr':
            if n in ('get', 'release', 'operator->'): return self.load(this, 8)
            if n == 'reset': self.store(this, 8, A[1] if len(A) > 1 else ('c', 0)); return None
            if n == 'operator=':
                self.store(this, 8, self.load(A[1], 8)); return this
            if n == 'operator[]': return self.index(self.load(this, 8), A[1])
        if kind == 'array':
            if n in ('begin', 'cbegin', 'data'): return this
            if n == 'operator[]': return self.index(this, A[1])
            mm = re.match(r'(.*), (\d+)ul$', T)
            if n == 'size' and mm: return ('c', int(mm.group(2)))
        return False

    def push(self, f, v, elt, args, n, ps):
        c = self.canon(v)
        u = None
        s = self.size(c)
        # which loop is running: pushing once per turn of the innermost one
        e = ('el', c, self.cur[-1]) if self.cur else ('elx', c, s)
        self.setsize(c, ('inc', s))
        g = self.mod.byname
        elt = elt.strip()
        if not args and n == 'emplace_back' and (elt in W or elt.startswith('std::')):
            self.fresh.add(c)
            if elt in W: self.store(e, W[elt], ('c', 0))
            elif VEC.match(elt): self.setsize(e, ('c', 0))
            return e
        if elt in W:
            self.store(e, W[elt], self.load(args[0], W[elt])); return e
        m = re.match(r'\((.*)\)$', ps)
        if n == 'push_back' or len(args) == 1 and re.match(r'\(%s( const)?&&?\)$' % re.escape(elt), ps):
            self.copy(e, args[0]); return e
        name = elt.split('<')[0].split('::')[-1] if '<' not in elt else None
        C = [x for x in self.mod.fns if x.dem.startswith(elt + '::') and re.match(r'%s::%s\(' % (re.escape(elt), elt.split('::')[-1]), x.dem) and len(x.params) == 1 + len(args)]
        C = [x for x in C if not (len(args) == 1 and re.search(r'\(%s( const&|&&)\)' % re.escape(elt), x.dem))]
        if len(C) != 1: raise Undecided('emplace_back of %s' % elt[-60:])
        B = []
        for a, p in zip(args, C[0].params[1:]):
            B.append(a if p['t'] == 'ptr' else self.load(a, self.bits(p['t'])))
        self.run(C[0], [e] + B)
        return e


def first(T):
    d = 0
    for k, ch in enumerate(T):
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        elif ch == ',' and d == 0: return T[:k]
    return T


def short(t):
    s = repr(t); return s if len(s) < 100 else s[:97] + '...'


class Graph:
    """blocks from which the function can return without an error being raised, and joins"""

    def __init__(self, f):
        self.f = f; B = f.blocks; ids = list(f.rpo)
        self.idx = {b: k for k, b in enumerate(ids)}
        bad = set()
        for b in ids:
            for i in B[b]:
                if i.op in ('call', 'invoke') and re.search(r'::setstate\(', i.dem or '') and i.ops[1].get('k') == 'c' and int(i.ops[1]['v']) & 5: bad.add(b)
                if i.op in ('landingpad',): bad.add(b)
        self.succ = {}
        for b in ids:
            t = B[b][-1]
            s = list(t.d.get('succ') or [])
            if t.op == 'invoke': s = s[:1]
            self.succ[b] = [x for x in s if x not in bad]
        live = {b for b in ids if B[b][-1].op == 'ret' and b not in bad}
        ch = True
        while ch:
            ch = False
            for b in ids:
                if b not in live and b not in bad and any(s in live for s in self.succ[b]): live.add(b); ch = True
        self.live = live
        st = {b for b in ids if any(i.op in ('call', 'invoke') and re.search(r'std::(basic_)?[io]stream', i.dem or '') for i in B[b])}
        ch = True
        while ch:
            ch = False
            for b in ids:
                if b not in st and any(x in st for x in self.succ[b]): st.add(b); ch = True
        self.streams = st

    def join(self, b, region, header):
        """the nearest block every way from b goes through"""
        R = [x for x in self.f.rpo if x in self.live and x in region]
        pd = {}
        END = 'end'
        for x in reversed(R):
            ss = [s for s in self.succ[x] if s in self.live and (s in region)]
            fs = [s for s in ss if s == header or self.idx[s] > self.idx[x]]
            outs = []
            for s in fs:
                if s == header and header is not None: outs.append({END})
                elif s in pd: outs.append(pd[s])
            if not outs: outs = [{END}]
            r = set.intersection(*outs) | {x}
            pd[x] = r
        c = [x for x in pd.get(b, ()) if x not in (b, END)]
        return min(c, key=lambda x: self.idx[x]) if c else None


def graph(f):
    if not hasattr(f, '_sg'): f._sg = Graph(f)
    return f._sg


# ---- matching a writer with a reader
def literal_chars(W, i):
    return i < len(W) and W[i][0] == 'CH'


def startsnum(c): return c.isalnum() or c in '+-._'


class Match:
    """takes the writer's events off with the reader's"""

    def __init__(self, w, r, atleast1=False):
        self.w = w; self.r = r; self.pairs = []; self.raws = []; self.loops = {}; self.counts = []; self.lit = {}; self.atleast1 = atleast1; self.steps = 0; self.skipped = []; self.memo = {}

    def pair(self, we, re_):
        if (we, re_) not in self.pairs: self.pairs.append((we, re_))

    def seq(self, W, R, pend, glue, top=True):
        """all (pending, glue) in which the reader can be after R, W being used up"""
        return self.go(W, 0, R, 0, tuple(pend), glue, top)

    def go(self, W, i, R, k, pend, glue, top):
        key = (id(W), i, id(R), k, pend, glue, top)
        if key not in self.memo: self.memo[key] = self.go1(W, i, R, k, pend, glue, top)
        return self.memo[key]

    def go1(self, W, i, R, k, pend, glue, top):
        self.steps += 1
        if self.steps > 20000: raise Undecided('too many ways to read')
        while True:
            if k == len(R):
                while i < len(W) and W[i][0] == 'CH': pend += (W[i][1],); i += 1
                if i < len(W): raise Wrong('%s is written but never read' % say(W[i]))
                return {(pend, glue)}
            e = R[k]
            if e[0] in ('INT', 'STR') or e[0] == 'CHV' and e[3]:
                skip = e[-1]
                while i < len(W) and W[i][0] == 'CH' and (skip or e[0] == 'CHV' and not pend):
                    if e[0] == 'CHV' and pend and not pend[-1].isspace(): break
                    pend += (W[i][1],); i += 1
                if e[0] == 'CHV':
                    p = [c for c in pend]
                    while p and p[0].isspace(): p.pop(0); glue = False
                    if p: self.char(e, p[0]); pend = tuple(p[1:]); k += 1; glue = False; continue
                    if i < len(W) and W[i][0] == 'CHV': self.pair(W[i], e); pend = (); i += 1; k += 1; glue = False; continue
                    raise Wrong('a character is read where %s was written' % (say(W[i]) if i < len(W) else 'nothing'))
                bad = [c for c in pend if not c.isspace()] if skip else list(pend)
                if bad: raise Wrong('%s is read where the character %r was written' % (kind(e), bad[0]))
                if i >= len(W): raise Wrong('%s is read where nothing was written' % kind(e))
                if W[i][0] != e[0]: raise Wrong('%s is read where %s was written' % (kind(e), say(W[i])))
                if glue and not pend: raise Wrong('two values are written with nothing between them')
                self.pair(W[i], e); i += 1; k += 1; pend = (); glue = True
                if i < len(W) and W[i][0] == 'CH' and (not W[i][1].isspace() if e[0] == 'STR' else startsnum(W[i][1])): raise Wrong('the character %r written behind a value is read as part of it' % W[i][1])
                continue
            if e[0] in ('CHV', 'SKIP1'):
                if not pend and i < len(W) and W[i][0] == 'CH': pend = (W[i][1],); i += 1
                if not pend:
                    if e[0] == 'CHV' and i < len(W) and W[i][0] == 'CHV': self.pair(W[i], e); i += 1; k += 1; glue = False; continue
                    raise Wrong('one character is %s where %s was written' % ('read' if e[0] == 'CHV' else 'skipped', say(W[i]) if i < len(W) else 'nothing'))
                if e[0] == 'CHV': self.char(e, pend[0])
                pend = pend[1:]; k += 1; glue = False; continue
            if e[0] == 'RAW':
                while i < len(W) and W[i][0] == 'CH': pend += (W[i][1],); i += 1
                if pend: raise Wrong('a block is read where the character %r was written' % pend[0])
                if i >= len(W) or W[i][0] != 'RAW': raise Wrong('a block is read where %s was written' % (say(W[i]) if i < len(W) else 'nothing'))
                if (W[i], e) not in self.raws: self.raws.append((W[i], e))
                i += 1; k += 1; glue = False; continue
            if e[0] == 'LINE':
                done = False
                if e[1] in pend: pend = pend[pend.index(e[1]) + 1:]; done = True
                else: pend = ()
                while not done:
                    if i >= len(W): raise Wrong('a line is skipped where the writer had ended none')
                    if W[i][0] in ('LOOP', 'IF'): raise Wrong('a line is skipped which %s is part of' % say(W[i]))
                    if W[i][0] == 'CH' and W[i][1] == e[1]: done = True
                    elif W[i][0] != 'CH': self.skipped.append(W[i])
                    i += 1
                k += 1; glue = False; continue
            if e[0] == 'WS':
                while i < len(W) and W[i][0] == 'CH': pend += (W[i][1],); i += 1
                p = list(pend)
                while p and p[0].isspace(): p.pop(0); glue = False
                pend = tuple(p); k += 1; continue
            if e[0] == 'MANIP':
                if i < len(W) and W[i][0] == 'MANIP' and W[i][1] == e[1]: i += 1; k += 1; continue
                raise Wrong('the reader sets a format (%s) the writer does not' % e[1])
            if e[0] == 'LOOP':
                while i < len(W) and W[i][0] == 'CH': pend += (W[i][1],); i += 1
                if i >= len(W) or W[i][0] != 'LOOP': raise Wrong('a repeated part is read where %s was written' % (say(W[i]) if i < len(W) else 'nothing'))
                w = W[i]; self.loops[w[1]] = e[1]
                if (w, e) not in self.counts: self.counts.append((w, e))
                if e[2] == ('EOF',) and not top: raise Wrong('the reader goes on to the end of the file inside a part that the writer repeats')
                seen = {(pend, glue)}; new = set(seen); ends = set()
                while new:
                    s = new.pop()
                    for t in self.seq(w[3], e[3], s[0], s[1], False):
                        ends.add(t)
                        if t not in seen:
                            seen.add(t); new.add(t)
                            if len(seen) > 12 or len(t[0]) > 40: raise Wrong('what is left unread grows with every turn')
                outs = set(ends)
                if not (self.atleast1 and not top or e[2][0] == 'c' and e[2][1] > 0): outs.add((pend, glue))
                if e[2] == ('EOF',):
                    rest = R[k + 1:]
                    for p, g in outs:
                        q = [c for c in p if not (c.isspace() and takesws(e[3]))]
                        if q: raise Wrong('behind the last record %r is left, which the reader takes for another one' % q[0])
                    outs = {((), True)}
                r = set()
                for p, g in outs: r |= self.go(W, i + 1, R, k + 1, p, g, top)
                return r
            if e[0] == 'IF':
                raise Wrong('something is read only when %s' % short(e[1]))
            raise Undecided('reads %s' % e[0])

    def char(self, e, c):
        self.lit.setdefault(e[1], set()).add(c)

    # ---- values
    def addr(self, a):
        if a[0] == 'P': return a
        if a[0] == 'gep': return add(self.addr(a[1]), a[2])
        if a[0] == 'el':
            if a[2] not in self.loops: raise Wrong('a value of a repeated part is written outside of it')
            return ('el', self.addr(a[1]), self.loops[a[2]])
        if a[0] == 'ld':
            t = self.r.load(self.addr(a[1]), a[2]); return t
        raise Undecided('the address %s' % short(a))

    def eval(self, t):
        """the writer's term on the object the reader has made"""
        if t[0] == 'ld': return self.norm(self.r.load(self.addr(t[1]), t[2]))
        if t[0] == 'size': return self.norm(self.r.size(self.addr(t[1])))
        if t[0] in ('zx', 'sx'): return self.norm((t[0], t[1], self.eval(t[2])))
        if t[0] == 'c': return t
        if t[0] == 'op': return ('op', t[1]) + tuple(self.eval(x) for x in t[2:])
        if t[0] == 'part': return self.norm(('part', self.eval(t[1]), t[2], t[3]))
        if t[0] == 'either' : raise Wrong('what is written depends on %s' % short(t[1]))
        if t[0] == 'capacity': raise Wrong('the capacity of a container is written')
        raise Undecided('writes %s' % short(t))

    def norm(self, t):
        """casts that keep every value that can come are dropped"""
        if t[0] in ('zx', 'sx'): return self.norm(t[2])
        if t[0] == 'pushed' and t[1] == ('c', 0) and (self.r.counts.get(t[2]) or ('EOF',)) != ('EOF',):
            # as many as were pushed: the count is that of the loop
            return self.norm(self.r.counts[t[2]])
        if t[0] == 'part' and t[2] == 0:
            x = self.norm(t[1])
            if x[0] == 'tok' and self.width.get(x, x[2]) <= t[3]: return x
            return ('part', x) + t[2:]
        if t[0] == 'op': return ('op', t[1]) + tuple(self.norm(x) for x in t[2:])
        if t[0] == 'cmp' and t[3] == ('c', 0) and t[1] == 'ne' and self.norm(t[2])[0] == 'tok': 
            x = self.norm(t[2])
            if self.width.get(x) == 'bool': return x
        return t

    def wwidth(self, t, ty):
        while t[0] in ('zx', 'sx'): t = t[2]
        if t[0] == 'size': return 4
        if t[0] == 'ld': return min(t[2], W[ty])
        return W[ty]

    def check(self, start=((), False), eof=False):
        """-> list of (obligation, fault or None)"""
        out = []
        ends = self.seq(self.w.ev, self.r.ev, *start)
        for p, g in ends:
            q = [c for c in p if not c.isspace()]
            if q: raise Wrong('the character %r at the end is not read' % q[0])
            if eof and p: raise Wrong('%r is left behind the last value, so that a file is taken to be unreadable' % p[0])
        self.width = {}
        for we, e in self.pairs:
            if we[0] == 'INT': self.width[e[2]] = self.wwidth(we[2], we[1])
        for we, e in self.pairs:
            nm = '%s' % (short(we[2] if we[0] == 'INT' else we[1]))
            if we[0] == 'INT':
                wt, rt = we[1], e[1]; ww = self.width[e[2]]
                if (wt in ('float', 'double')) or (rt in ('float', 'double')): out.append((nm, 'a floating-point value does not keep its digits in text')); continue
                if rt == 'bool' and wt != 'bool': out.append((nm, 'a number is read into a bool')); continue
                if W[rt] < ww: out.append((nm, 'a value of %d bytes is read into %d' % (ww, W[rt]))); continue
                us = lambda t: t.startswith('unsigned') or t == 'bool'
                if us(wt) and not us(rt) and W[rt] <= ww: out.append((nm, 'an unsigned value is read into a signed %s' % rt)); continue
                term = we[2]
            else: term = we[1]
            got = self.eval(term); tok = e[2] if we[0] == 'INT' else e[1]
            if got != tok: out.append((nm, 'the value written from %s is not the one that is there after reading (there: %s)' % (place(term), place(got)))); continue
            out.append((nm, None))
        for we, e in self.raws:
            nm = 'block of %s' % short(we[2])
            a, b = self.eval(we[2]), self.norm(e[2])
            if a != b and not (a[0] == b[0] == 'op' and a[1] == b[1] == 'mul' and sorted(a[2:], key=repr) == sorted(b[2:], key=repr)): out.append((nm, 'a block of %s is read where %s was written' % (short(b), short(a)))); continue
            pa = self.eval(we[1])
            if pa != e[1]: out.append((nm, 'the block is not kept where it was written from')); continue
            out.append((nm, None))
        for w, e in self.counts:
            nm = 'repetition of %s' % short(w[2])
            if e[2] == ('EOF',):
                if w[2][0] != 'size': raise Undecided('a repetition of %s up to the end of the file' % short(w[2]))
                s = self.r.size(self.addr(w[2][1]))
                if s[0] == 'pushed' and s[2] == e[1] or self.loose: out.append((nm, None))
                else: out.append((nm, 'not every record read is kept'))
                continue
            a = self.eval(w[2]); b = self.norm(e[2])
            out.append((nm, None if a == b else 'the part is repeated %s times but read %s times' % (short(a), short(b))))
        for path, c, where in self.r.req:
            v = self.guard(path, c)
            if v is False: out.append((short(c), 'the reader refuses values that the writer may have written (%s)' % short(c)))
            elif v is None: out.append((short(c), ('assumed',)))
            else: out.append((short(c), None))
        for path, c, where in self.w.req: out.append((short(c), ('assumed',)))
        return out

    loose = False

    GRID = (0, 1, 2, 3, 7, 255, 1000, 65535)

    def guard(self, path, c):
        toks = set()

        def walk(t):
            if not isinstance(t, tuple): return True
            if t[0] == 'tok': toks.add(t); return True
            if t[0] in ('ld', 'undef', '?', 'it', 'fin', 'pushed', 'size', 'either', 'part', 'empty', 'el', 'H'): return False
            return all(walk(x) for x in t[1:])
        if not all(walk(x) for x in tuple(path) + (c,)): return None
        import itertools
        toks = sorted(toks, key=repr)
        if len(toks) > 3: return None
        doms = []
        for t in toks:
            if t in self.lit: doms.append([ord(x) for x in self.lit[t]])
            elif t[3] != 'i': return None
            elif t[2] == 1: doms.append([0, 1])
            else: doms.append(self.GRID)

        def ev(t, env):
            if t[0] == 'c': return t[1]
            if t[0] == 'tok': return env[t]
            if t[0] in ('zx', 'sx'): return ev(t[2], env)
            if t[0] == 'not': return int(not ev(t[1], env))
            if t[0] == 'cmp':
                a, b = ev(t[2], env), ev(t[3], env); p = t[1]
                if p[0] == 'u': a %= 2**64; b %= 2**64
                return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
            if t[0] == 'op':
                x = [ev(y, env) for y in t[2:]]
                if t[1] in ('udiv', 'urem'):
                    a = x[0] % 2**32; 
                    if x[1] == 0: raise ZeroDivisionError
                    return a // x[1] if t[1] == 'udiv' else a % x[1]
                if t[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor'): return {'add': x[0] + x[1], 'sub': x[0] - x[1], 'mul': x[0] * x[1], 'and': x[0] & x[1], 'or': x[0] | x[1], 'xor': x[0] ^ x[1]}[t[1]]
            raise KeyError
        try:
            for v in itertools.product(*doms):
                env = dict(zip(toks, v))
                if all(ev(p, env) for p in path) and not ev(c, env): return False
        except (KeyError, ZeroDivisionError): return None
        return True


def takesws(R):
    for e in R:
        if e[0] in ('INT', 'STR', 'CHV'): return bool(e[-1])
        if e[0] == 'LOOP': return takesws(e[3])
        if e[0] == 'LINE': return True
    return False


def kind(e):
    return {'INT': 'a number', 'STR': 'a word', 'CHV': 'a character'}[e[0]]


def say(e):
    if e[0] == 'CH': return 'the character %r' % e[1]
    if e[0] == 'INT': return 'the number %s' % place(e[2])
    if e[0] == 'STR': return 'the text %s' % place(e[1])
    if e[0] == 'RAW': return 'a block'
    if e[0] == 'LOOP': return 'a part repeated %s times' % place(e[2])
    if e[0] == 'IF': return 'something that depends on %s' % short(e[1])
    if e[0] == 'MANIP': return 'a format change (%s)' % e[1]
    return e[0]


def place(t):
    """readable name of a term"""
    if t[0] == 'P': return 'object'
    if t[0] == 'gep': return '%s+%d' % (place(t[1]), t[2])
    if t[0] == 'el': return place(t[1]) + '[]'
    if t[0] == 'ld': return place(t[1])
    if t[0] == 'size': return 'size(%s)' % place(t[1])
    if t[0] in ('zx', 'sx'): return place(t[2])
    if t[0] == 'tok': return 'value %d read' % t[1]
    return short(t)


def places(t, out):
    """the places of the object a writer's term speaks of"""
    if not isinstance(t, tuple): return
    if t and t[0] == 'ld': out.add((t[1], t[2]))
    if t and t[0] == 'size': out.add((t[1], 24))
    for x in t: places(x, out)
