"""Paths through a function with the exact state bits of one input stream.

The state of the stream (end of file, fail, bad, never opened) is followed through every call on it; its tests are evaluated, so that a way that
cannot be taken with those bits is not taken. What is wanted is known at the end: with which bits the stream is left, and whether something was said."""
import re
from . import ir

B, E, F, C = 1, 2, 4, 8          # badbit, eofbit, failbit; C: the file could not be opened
IOS = re.compile(r'^(?:std::basic_ios<char.*?>|std::ios_base|std::basic_ifstream<char.*?>|std::basic_filebuf<char.*?>)::(operator!|operator bool|good|eof|fail|bad|rdstate|clear|setstate|exceptions|is_open|open|close|~?basic_ifstream)\((.*)\)( const)?$')
QUIET = re.compile(r'^(?:std::(?:basic_)?[io]*stream.*|std::basic_ios<char.*?>|std::ios_base)::(rdbuf|tie|flags|setf|unsetf|width|precision|fill|imbue|getloc|gcount|locale|copyfmt|narrow|widen)\(|^std::(boolalpha|noboolalpha|skipws|noskipws|dec|hex|oct)\(')
READ = re.compile(r'(^| )std::(?:basic_)?istream(?:<char.*?>)?::|std::istream::sentry|(^|[ &])std::(operator>>|getline|ws)[<(]')
RET = re.compile(r'std::(?:basic_)?istream(<[^()]*>)?::(operator>>|read|get|getline|ignore|putback|unget|seekg)\(|& std::(operator>>|getline|ws)[<(]|^std::(operator>>|getline|ws)[<(]')
OBJ = re.compile(r'\b(istream|ifstream|basic_ios|ios_base|basic_istream|basic_ifstream|iostream)\b')
BITOP = re.compile(r'^std::operator([&|^~])\(std::_Ios_Iostate')
CERR = ('_ZSt4cerr', '_ZSt4clog')
ALL = tuple(range(8))


class St:
    __slots__ = ('pend', 'bits', 'said', 'exc', 'env')

    def __init__(self, pend=False, bits=None, said=False, exc=0, env=()):
        self.pend = pend; self.bits = bits; self.said = said; self.exc = exc; self.env = env

    def key(self): return (self.pend, self.bits, self.said, self.exc, self.env)

    def __hash__(self): return hash(self.key())

    def __eq__(self, o): return self.key() == o.key()

    def but(self, **k):
        s = St(self.pend, self.bits, self.said, self.exc, self.env)
        for a, v in k.items(): setattr(s, a, v)
        return s


class TooMany(Exception): pass


class Paths:
    """root: operand key of the stream; start: bits of the stream at entry (None: it is created inside)"""
    LIMIT = 400000

    def __init__(self, f, root, start=None, strict=False):
        self.f = f; self.root = root; self.start = start; self.strict = strict      # strict: a value that could not be read is a failure for good
        self.D = self.aliases(); self.escaped = self.escapes()
        self.other = self.others()
        self.track(); self.live()
        self.points = {}          # cerr call id -> [failing, success]
        self.says = set(); self.nops = 0; self.ops = set(); self.tests = set()

    # ---- which operands are the stream
    def aliases(self):
        f = self.f; D = {self.root}; ch = True
        while ch:
            ch = False
            for i in f.insts():
                if ('i', i.id) in D: continue
                if i.op in ('getelementptr', 'bitcast', 'freeze'): src = [i.ops[0]]
                elif i.op == 'phi': src = [e[0] for e in i.ops]
                elif i.op == 'select': src = i.ops[1:]
                elif i.op in ('call', 'invoke') and i.t == 'ptr' and i.ops and RET.search(i.dem): src = [i.ops[0]]
                else: continue
                if any((o['k'], o.get('v')) in D for o in src): D.add(('i', i.id)); ch = True
        return D

    def inD(self, o): return (o['k'], o.get('v')) in self.D

    def escapes(self):
        return any(i.op == 'store' and self.inD(i.ops[0]) for i in self.f.insts())

    def others(self):
        """values that are another stream: global ones, and other streams created here"""
        f = self.f; R = set()
        for i in f.calls():
            if i.ops and re.search(r'::basic_[io]*f?stream\(|::basic_[io]*stringstream\(', i.dem) and not self.inD(i.ops[0]): R.add((i.ops[0]['k'], i.ops[0].get('v')))
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if ('i', i.id) in R: continue
                if i.op in ('getelementptr', 'bitcast', 'freeze') or i.op in ('call', 'invoke') and i.t == 'ptr' and i.ops and (RET.search(i.dem) or 'ostream' in i.dem): s = i.ops[0]
                else: continue
                if s['k'] == 'g' or (s['k'], s.get('v')) in R: R.add(('i', i.id)); ch = True
        return R

    def mine(self, i):
        """operand index of the stream in call i, or None"""
        for k, o in enumerate(i.ops):
            if self.inD(o): return k
        if self.escaped and i.ops and OBJ.search(i.dem) and i.ops[0].get('t') == 'ptr' and (IOS.match(i.dem) or READ.search(i.dem)):
            o = i.ops[0]
            if o['k'] != 'g' and (o['k'], o.get('v')) not in self.other: return 0
        return None

    # ---- which values are followed
    SIMPLE = ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'select', 'freeze', 'phi', 'lshr')

    def track(self):
        f = self.f; T = set()
        for i in f.calls():
            m = IOS.match(i.dem)
            if m and m.group(1) in ('operator!', 'operator bool', 'good', 'eof', 'fail', 'bad', 'rdstate', 'is_open') and self.mine(i) is not None: T.add(i.id); self_tests = True
        rets = {o['v'] for i in f.insts() if i.op == 'ret' for o in i.ops if o['k'] == 'i'}; ch = True
        while ch:
            ch = False
            for v in list(rets):
                i = f.inst.get(v)
                if i is not None and i.op in ('phi', 'select', 'zext', 'sext', 'trunc'):
                    for o in ir.operands(i):
                        if o['k'] == 'i' and o['v'] not in rets: rets.add(o['v']); ch = True
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i.id in T or i.op not in self.SIMPLE and not (i.op in ('call', 'invoke') and BITOP.match(i.dem)): continue
                if i.op == 'phi' and (i.t in ('i1', 'i8') or i.id in rets) and any(e[0]['k'] == 'c' for e in i.ops): T.add(i.id); ch = True; continue
                if any(o['k'] == 'i' and o['v'] in T for o in ir.operands(i)): T.add(i.id); ch = True
        # only what a branch or the result depends on
        need = set(); st = []
        for i in f.insts():
            if i.op in ('br', 'switch', 'ret'): st += [o['v'] for o in ir.operands(i) if o['k'] == 'i' and o['v'] in T]
        while st:
            v = st.pop()
            if v in need: continue
            need.add(v)
            if f.inst[v].op in ('call', 'invoke') and not BITOP.match(f.inst[v].dem): continue
            st += [o['v'] for o in ir.operands(f.inst[v]) if o['k'] == 'i' and o['v'] in T]
        self.T = need

    def live(self):
        f = self.f; use = {}; dfn = {}; phi = {}
        for b in f.rpo:
            u = set(); d = set()
            for i in f.blocks[b]:
                if i.op == 'phi':
                    if i.id in self.T:
                        for o, p in i.ops:
                            if o['k'] == 'i' and o['v'] in self.T: phi.setdefault((p, b), set()).add(o['v'])
                else:
                    if i.op in ('br', 'switch', 'ret') or i.id in self.T and (i.op not in ('call', 'invoke') or BITOP.match(i.dem)):
                        for o in ir.operands(i):
                            if o['k'] == 'i' and o['v'] in self.T and o['v'] not in d: u.add(o['v'])
                if i.id in self.T: d.add(i.id)
            use[b] = u; dfn[b] = d
        L = {b: set(use[b]) for b in f.rpo}; ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set()
                for s in f.succ[b]: o |= (L.get(s, set())) | phi.get((b, s), set())
                n = use[b] | (o - dfn[b])
                if n != L[b]: L[b] = n; ch = True
        self.L = L

    def value(self, env, o):
        if o['k'] == 'c': return int(o['v'])
        if o['k'] == 'i': return env.get(o['v'])
        return None

    def compute(self, i, env):
        V = [self.value(env, o) for o in i.ops] if i.op != 'phi' else None
        if i.op == 'icmp':
            a, b = V
            if a is None or b is None: return None
            p = i.d.get('pred')
            w = i.ops[0].get('w') or i.ops[1].get('w') or 64
            m = (1 << w) - 1; a &= m; b &= m
            if p[0] == 's':
                a -= (a >> (w - 1)) << w; b -= (b >> (w - 1)) << w
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
        if i.op in ('and', 'or', 'xor', 'lshr'):
            a, b = V
            if i.op == 'and' and (a == 0 or b == 0): return 0
            if i.op == 'or' and i.t == 'i1' and ((a is not None and a & 1) or (b is not None and b & 1)): return 1
            if a is None or b is None: return None
            if i.t == 'i1': a &= 1; b &= 1
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'lshr': (a & 0xffffffff) >> b}[i.op]
        if i.op in ('zext', 'sext', 'trunc', 'freeze'):
            if V[0] is None: return None
            return V[0] & 1 if i.t == 'i1' or i.op == 'zext' and i.ops[0].get('t') == 'i1' else V[0]
        if i.op == 'select':
            if V[0] is None: return V[1] if V[1] == V[2] else None
            return V[1] if V[0] & 1 else V[2]
        return None

    # ---- calls on the stream
    def call(self, i, s):
        """-> (list of (state, value or None) on the normal way, list of states on the throwing way)"""
        d = i.dem; k = self.mine(i); m = BITOP.match(d)
        if m:
            V = [self.value(dict(s.env), o) for o in i.ops]; o = m.group(1)
            if o == '&' and any(v is not None and v & 7 == 0 for v in V): return [(s, 0)], [s]
            if None in V: return [(s, None)], [s]
            return [(s, (~V[0] if o == '~' else V[0] & V[1] if o == '&' else V[0] | V[1] if o == '|' else V[0] ^ V[1]) & 0xffffffff)], [s]
        if k is None:
            if any(o['k'] == 'g' and o.get('n') in CERR for o in i.ops[:1]) or i.callee in ('perror',) or i.callee in ('fprintf', 'fputs', 'fwrite') and any('stderr' in str(o.get('n')) for o in i.ops): return self.say(i, s)
            return [(s, None)], [s]
        m = IOS.match(d); n = m.group(1) if m else None
        if d.startswith('llvm.') or (i.callee or '').startswith('llvm.'): return [(s, None)], [s]
        self.ops.add(i.id)
        if n == 'basic_ifstream' or n == 'open':
            if n == 'basic_ifstream' and s.bits is not None and not self.good(s.bits): s = s.but(pend=s.pend or not s.said)
            s = s.but(said=False, exc=0 if n == 'basic_ifstream' else s.exc)
            if n == 'basic_ifstream' and len([o for o in i.ops]) < 2: return [(s.but(bits=C), None)], [s]
            return [(s.but(bits=0), None), (s.but(bits=F | C), None)], [s]
        if s.bits is None: return [(s, None)], [s]
        b = s.bits
        if n == '~basic_ifstream':
            return [(s.but(bits=None, said=False, pend=s.pend or not (s.said or self.good(b)), exc=0), None)], [s]
        if n in ('operator!', 'fail'): return [(s, int(b & (F | B) != 0))], [s]
        if n == 'operator bool': return [(s, int(b & (F | B) == 0))], [s]
        if n == 'good': return [(s, int(b & 7 == 0))], [s]
        if n == 'eof': return [(s, int(b & E != 0))], [s]
        if n == 'bad': return [(s, int(b & B != 0))], [s]
        if n == 'rdstate': return [(s, b & 7)], [s]
        if n == 'is_open': return [(s, int(b & C == 0))], [s]
        if n == 'close': return [(s, None)], [s]
        if n == 'clear':
            o = i.ops[1] if len(i.ops) > 1 else None
            new = [0] if o is None else [int(o['v']) & 7] if o['k'] == 'c' else list(ALL)
            return self.change(s, [x | (b & C) for x in new])
        if n == 'setstate':
            o = i.ops[1]
            return self.change(s, [b | (int(o['v']) & 7)] if o['k'] == 'c' else [b | x for x in ALL])
        if n == 'exceptions':
            if len(i.ops) < 2: return [(s, None)], [s]
            x = int(i.ops[1]['v']) & 7 if i.ops[1]['k'] == 'c' else 0
            s = s.but(exc=x)
            return self.change(s, [b])
        if QUIET.search(d): return [(s, None)], [s]
        if READ.search(d) and k == 0 or 'sentry' in d:
            if self.strict and not re.search(r'ignore\(|sentry|std::ws', d):
                r, x = self.reading(s, b, d)
                return [(t.but(pend=True) if t.bits & (F | B) else t, v) for t, v in r], x
            return self.reading(s, b, d)
        # something else is done with it
        r, x = self.change(s, [y | (b & C) for y in ALL])
        return r, x + [s]

    def reading(self, s, b, d):
        if b & (F | B): return self.change(s, [b | F])
        if b & E: return self.change(s, [b | F])
        if b & C: return self.change(s, [C | F | E])
        if re.search(r'ignore\(', d): new = [0, E, B]
        elif 'sentry' in d: new = [0, E | F, B, B | F]
        elif re.search(r'basic_string|getline', d): new = [0, E, E | F, B, B | F]
        elif re.search(r'istream.*::read\(', d): new = [0, E | F, B]
        else: new = [0, E, F, E | F, B, B | F]
        return self.change(s, new)

    def good(self, b): return bool(b & E) and not b & C

    def change(self, s, new):
        r = []; x = []
        for b in new:
            t = s.but(bits=b, said=s.said and b == s.bits)
            (x if s.exc & b else r).append((t, None) if not s.exc & b else t)
        return r, x + [s]

    def say(self, i, s):
        p = self.points.setdefault(i.id, [False, False])
        if s.pend or s.bits is not None and not self.good(s.bits): p[0] = True
        else: p[1] = True
        if i.id in self.says: s = s.but(said=True, pend=False)
        return [(s, None)], [s]

    # ---- walk
    def run(self):
        while True:
            self.points = {}; self.walk()
            says = {k for k, (bad, ok) in self.points.items() if bad and not ok}
            if says <= self.says: return
            self.says |= says

    def walk(self):
        f = self.f; self.ends = []; seen = {}
        s0 = St(bits=self.start); st = [(0, None, s0)]; n = 0
        while st:
            b, prev, s = st.pop(); n += 1
            if n > self.LIMIT: raise TooMany(f.dem[:80])
            env = dict(s.env); new = {}
            for i in f.blocks[b]:
                if i.op != 'phi': break
                if i.id not in self.T: continue
                v = None
                for o, p in i.ops:
                    if p == prev: v = self.value(env, o)
                new[i.id] = v
            L = self.L[b]
            env = {k: v for k, v in env.items() if k in L and k not in new}
            env.update({k: v for k, v in new.items() if v is not None})
            s = s.but(env=tuple(sorted(env.items())))
            if s in seen.setdefault(b, set()): continue
            seen[b].add(s)
            cur = [s]; done = False
            for i in f.blocks[b]:
                if i.op == 'phi': continue
                if i.op in ('call', 'invoke'):
                    if i.callee in ('__cxa_throw', '__cxa_rethrow', 'abort', 'exit', '_Exit', '_exit', '__assert_fail') and not (i.callee == 'exit' and i.ops[0].get('v') == '0' or False) and i.op == 'call': cur = []; break
                    nxt = []; exc = []
                    for t in cur:
                        r, x = self.call(i, t); exc += x
                        for u, v in r:
                            if i.id in self.T and v is not None:
                                e = dict(u.env); e[i.id] = v; u = u.but(env=tuple(sorted(e.items())))
                            elif i.id in self.T:
                                u = u.but(env=tuple(kv for kv in u.env if kv[0] != i.id))
                            nxt.append(u)
                    cur = list(dict.fromkeys(nxt))
                    if i.op == 'invoke':
                        ok, bad = i.d['succ'][:2]
                        if i.callee in ('__cxa_throw', '__cxa_rethrow') or i.d.get('noret'): cur_ok = []
                        else: cur_ok = cur
                        for t in cur_ok: st.append((ok, b, t))
                        for t in dict.fromkeys(exc): st.append((bad, b, t))
                        done = True; break
                elif i.op in ('br', 'switch'):
                    for t in cur:
                        for x in self.targets(i, dict(t.env)): st.append((x, b, t))
                    done = True; break
                elif i.op == 'ret':
                    for t in cur:
                        v = self.value(dict(t.env), i.ops[0]) if i.ops else None
                        self.ends.append((t, v, bool(i.ops), i))
                    done = True; break
                elif i.id in self.T:
                    nxt = []
                    for t in cur:
                        e = dict(t.env); v = self.compute(i, e); e.pop(i.id, None)
                        if v is not None: e[i.id] = v
                        nxt.append(t.but(env=tuple(sorted(e.items()))))
                    cur = nxt
        self.visited = n

    def targets(self, i, env):
        c = i.d.get('cond'); succ = i.d['succ']
        if i.op == 'br':
            if len(succ) == 1 or c is None: return succ[:1]
            v = self.value(env, c)
            if v is None: return list(dict.fromkeys(succ))
            return [succ[0 if v & 1 else 1]]
        v = self.value(env, c) if c else None
        cases = i.d.get('cases')
        if v is None or cases is None: return list(dict.fromkeys(succ))
        for x in cases:
            if int(x[0]) == v: return [x[1]]
        return [succ[0]]
