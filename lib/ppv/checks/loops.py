"""C19: every loop moves on. A way round a loop on which nothing changes that its own tests look at is taken for ever once it is taken."""
import os, re
from .. import ir
from ..run import Result, pmap

DRIVER = os.path.join(ir.VERIF, 'drivers', 'loops.cpp')
LIMIT = 4000
PURE = set('begin end cbegin cend rbegin rend crbegin crend size length empty data operator[] front back at c_str find rfind find_first_of compare get operator* operator-> '
           'operator!= operator== operator< operator> operator<= operator>= operator- operator+ base good fail eof bad rdstate distance addressof capacity max_size '
           'lower_bound upper_bound operator bool operator! second first count is_open min max rdbuf sgetc '
           'find_if find_if_not adjacent_find upper_bound lower_bound equal_range all_of any_of none_of count_if binary_search search mismatch equal next prev max_element min_element'.split()) | {'operator bool'}
STREAM = re.compile(r'^(?:std::(?:basic_)?i?(?:f|string)?stream|std::istream|std::basic_istream<.*?>|std::basic_ifstream<.*?>)::')
TEST = re.compile(r'basic_ios<.*>::(operator bool|operator!|good|fail|eof|bad|rdstate)\(')
INTR = re.compile(r'^llvm\.(lifetime|dbg|assume|experimental|umul|uadd|usub|smul|sadd|ssub|umax|umin|smax|smin|abs|ctpop|objectsize|expect|is\.constant)')


def name_of(dem):
    """the unqualified name of a demangled function"""
    s = re.sub(r'\(anonymous namespace\)', 'anon', dem or '')
    d = 0; out = ''; k = 0
    m = re.search(r'operator(\(\)|\[\]|\+\+|--|->\*?|<<=?|>>=?|<=|>=|==|!=|&&|\|\||[-+*/%!<>=&|^~]=?| bool)', s)
    if m:
        pre = s[:m.start()]
        if pre.count('<') == pre.count('>') and '(' not in pre: return m.group(0)
    for c in s:
        if c in '<': d += 1
        elif c in '>': d -= 1
        elif c == '(' and d == 0: break
        if d == 0 and c != '>': out += c
    return out.split('::')[-1].split(' ')[-1].strip()


def stream_op(i):
    """the call takes something off a stream, which is its first operand"""
    if not i.ops or i.ops[0].get('t') != 'ptr' or LAMBDA.search(i.dem): return False
    d = i.dem
    if re.search(r'operator>>', d) and re.search(r'istream|basic_istream', d): return True
    if re.search(r'std::getline<|basic_istream<.*>::(getline|get|ignore|read|peek|readsome|unget|putback)\(|std::istream::(getline|get|ignore|read|peek|operator>>)\(', d): return True
    return False


def built(i):
    """the call makes its first operand out of the other ones: a constructor of the standard library"""
    d = i.dem or ''
    if not d.startswith(('std::', '__gnu_cxx::')) or not i.ops or i.ops[0].get('t') != 'ptr': return False
    q = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', d.split('(')[0])))).split('::')
    return len(q) > 1 and q[-1] == q[-2] and all(o.get('t') != 'ptr' or ir.keeps(i, k) for k, o in enumerate(i.ops) if k)


def outs(i):
    """operands whose objects a deterministic call writes as a whole"""
    r = {n for n, a in enumerate(i.d.get('pattr', [])) if n < len(i.ops) and a.get('sret')}
    if built(i): r.add(0)
    return r


LAMBDA = re.compile(r"(\$_\d+|'lambda\d*'|\{lambda).*operator\(\)|::operator\(\)(<.*>)?\([^()]*\)( const)?$")
REPO = re.compile(r'(^| )ppocr::')


def effect_free(m, name):
    """the function writes nothing but its own objects and its result"""
    c = m.__dict__.setdefault('_effect_free', {})
    if name in c: return c[name]
    c[name] = True                                    # of a recursion: what the rest of it does counts
    f = m.byname[name]; L = Loop(f, None); r = True
    own = lambda o: L.root(o)[0][0] == 'al' or L.root(o)[0][0] == 'arg' and L.root(o)[0][1] < len(f.params) and f.params[L.root(o)[0][1]].get('sret')
    for i in f.insts():
        if i.op == 'store': r = own(i.ops[1])
        elif i.op in ('call', 'invoke'):
            if re.match(r'llvm\.mem(set|cpy|move)', i.callee or ''): r = own(i.ops[0])
            elif L.pure(i): r = all(own(i.ops[k]) for k in outs(i))
            else: r = bool(i.dem) and i.dem.startswith(('std::', '__gnu_cxx::')) and all(o.get('t') != 'ptr' or own(o) or ir.keeps(i, k) for k, o in enumerate(i.ops))
        elif i.op in ('atomicrmw', 'cmpxchg', 'fence'): r = False
        if not r:
            break
    c[name] = r
    return r


def stays(i):
    """an algorithm that may return the start of its range"""
    return i.op in ('call', 'invoke') and bool(re.search(r'\bstd::(lower_bound|partition_point|adjacent_find)<', i.dem or ''))


class Loop:
    def __init__(self, f, h):
        self.f = f; self.h = h; self.body = f.loops[h]['body'] if h is not None else set()
        self.escaped = None

    # ---- objects
    def root(self, o, depth=0):
        """(kind, id) of the object an address lies in, and its constant offset or None"""
        c = 0
        while o['k'] == 'i' and depth < 60:
            depth += 1
            i = self.f.inst[o['v']]
            if i.op == 'getelementptr':
                g = i.d['gep']; c = None if g['var'] or c is None else c + g['coff']; o = i.ops[0]; continue
            if i.op in ('bitcast', 'addrspacecast', 'freeze'): o = i.ops[0]; continue
            if i.op in ('call', 'invoke') and i.t == 'ptr' and stream_op(i): o = i.ops[0]; continue
            if i.op == 'alloca': return ('al', i.id), c
            return ('v', i.id), c
        if o['k'] == 'a': return ('arg', o['v']), c
        if o['k'] == 'g': return ('g', str(o.get('v'))), c
        return ('?', 0), None

    def esc(self):
        """allocas whose address is stored somewhere"""
        if self.escaped is None:
            self.escaped = set()
            for i in self.f.insts():
                if i.op == 'store' and i.ops[0].get('t') == 'ptr':
                    r, _ = self.root(i.ops[0])
                    if r[0] == 'al': self.escaped.add(r)
        return self.escaped

    def pure(self, i):
        c = i.callee or ''
        if INTR.match(c): return True
        if c.startswith('llvm.'): return False
        if i.d.get('ro'): return True
        d = i.dem
        if not d: return False
        if built(i): return True
        n = name_of(d)
        if n in PURE and not (n == 'get' and 'stream' in d) and not ('ppocr' in d.split('(')[0] and i.callee in self.f.mod.byname): return True
        if i.callee in self.f.mod.byname and REPO.search(re.sub(r'<.*', '', d.replace('(anonymous namespace)', 'ppocr'))):
            e = effect_free(self.f.mod, i.callee)
            if e: return True
            if LAMBDA.search(d): return False
            if n in PURE: return True
        ptrs = [k for k, o in enumerate(i.ops) if o.get('t') == 'ptr']
        return bool(ptrs) and all(ir.keeps(i, k) for k in ptrs)

    def writes(self, i, r, noop):
        """may instruction i change the contents of object r"""
        if i.op == 'store':
            q, c = self.root(i.ops[1])
            if q == r: return True
            if q[0] == 'al' or r[0] == 'al' and r not in self.esc(): return False
            return True
        if i.op in ('call', 'invoke'):
            c = i.callee or ''
            if INTR.match(c): return False
            if i.id in noop: return False
            if re.match(r'llvm\.mem(set|cpy|move)', c):
                q, _ = self.root(i.ops[0]); return q == r or not (q[0] == 'al' or r[0] == 'al' and r not in self.esc())
            if self.pure(i):
                return any(self.root(i.ops[k])[0] == r for k in outs(i))
            for k, o in enumerate(i.ops):
                if o.get('t') != 'ptr' or ir.keeps(i, k): continue
                q, _ = self.root(o)
                if q == r: return True
                if q[0] != 'al' and r[0] != 'al': return True
            if all(o.get('t') != 'ptr' or ir.keeps(i, k) for k, o in enumerate(i.ops)) and not LAMBDA.search(i.dem): return False
            return (r[0] != 'al' and not re.match(r'(^|.* )std::', i.dem)) or r in self.esc()
        return False

    # ---- ways round
    def ways(self):
        """acyclic ways from the header back to it: lists of blocks (exception edges left out)"""
        f = self.f; out = []; n = 0
        st = [(self.h, (self.h,))]
        while st:
            b, p = st.pop()
            t = f.blocks[b][-1]
            ss = f.succ[b][:1] if t.op == 'invoke' else f.succ[b]
            for s in ss:
                if s == self.h: out.append(p); 
                elif s in self.body and s not in p: st.append((s, p + (s,)))
                if len(out) > LIMIT or n > 60 * LIMIT: return None
                n += 1
        return out

    def stuck(self, way, dead=None):
        """True when nothing changes on this way that its tests look at; dead: the stream that has failed already"""
        f = self.f; pred = {way[k]: way[k - 1] for k in range(1, len(way))}; pos = {b: k for k, b in enumerate(way)}
        seq = [i for b in way for i in f.blocks[b]]; at = {i.id: k for k, i in enumerate(seq)}
        noop = set()
        if dead is not None:
            for i in seq:
                if i.op in ('call', 'invoke') and stream_op(i) and self.root(i.ops[0])[0] == dead: noop.add(i.id)
                if i.op in ('call', 'invoke') and i.ops and re.search(r'::(clear|setstate|open|close|exceptions)\(', i.dem) and i.ops[0].get('t') == 'ptr' and self.stream_root(i.ops[0]) == dead: return False
        memo = {}; mode = [False]                     # mode: an inner loop on the way takes some turns
        inner = {b for b in way if b != self.h and b in f.loops}
        off = [i for b in set().union(*(f.loops[b]['body'] for b in inner), ()) if b not in pos for i in f.blocks[b]]

        def resolve(o, depth=0):
            """follow phis along the way"""
            while o['k'] == 'i':
                i = f.inst[o['v']]
                if i.op == 'phi' and i.bb in pos and i.bb != self.h:
                    if mode[0] and i.bb in inner and any(not (v['k'] == 'i' and v['v'] == i.id) for v, p in i.ops if p in f.loops[i.bb]['body']): return o
                    x = [v for v, p in i.ops if p == pred[i.bb]]
                    if not x: return o
                    o = x[0]; continue
                if i.op in ('freeze',): o = i.ops[0]; continue
                return o
            return o

        def const(o, depth=0):
            """what a test of the failed stream gives"""
            o = resolve(o)
            if o['k'] == 'c' and 'w' in o: return int(o['v'])
            if o['k'] != 'i' or depth > 20: return None
            i = f.inst[o['v']]
            if i.op in ('call', 'invoke'):
                m = TEST.search(i.dem)
                if m and dead is not None and i.ops and self.stream_root(i.ops[0]) == dead: return {'operator bool': 0, 'good': 0, 'operator!': 1, 'fail': 1}.get(m.group(1))
                return None
            if i.op in ('zext', 'trunc', 'freeze'): return const(i.ops[0], depth + 1)
            if i.op in ('xor', 'and', 'or', 'icmp'):
                a, b = const(i.ops[0], depth + 1), const(i.ops[1], depth + 1)
                if i.op == 'and' and 0 in (a, b): return 0
                if None in (a, b): return None
                if i.op == 'icmp': return {'eq': int(a == b), 'ne': int(a != b)}.get(i.d['pred'])
                return {'xor': a ^ b, 'and': a & b, 'or': a | b}[i.op] & 1
            return None

        def same(o, use, depth=0):
            """is the value the same the next time round"""
            o = resolve(o)
            if o['k'] != 'i': return True
            i = f.inst[o['v']]
            if i.bb not in self.body: return True
            if i.bb not in pos: return False
            key = (i.id, mode[0])
            if key in memo: return memo[key]
            memo[key] = False                         # cut cycles
            if i.op == 'phi':
                if i.bb != self.h: r = False          # of an inner loop
                else:
                    x = [v for v, p in i.ops if p == way[-1]]
                    y = resolve(x[0]) if x else None; c = 0
                    while y is not None and y['k'] == 'i' and y['v'] != i.id:
                        j = f.inst[y['v']]
                        if j.op == 'getelementptr' and not j.d['gep']['var']: c += j.d['gep']['coff']
                        elif j.op in ('add', 'sub') and j.ops[1]['k'] == 'c' and 'w' in j.ops[1]:
                            w = int(j.ops[1]['w']); v = int(j.ops[1]['v']) & ((1 << w) - 1); c += (v if j.op == 'add' else -v); c = c & ((1 << w) - 1)
                        else: break
                        y = resolve(j.ops[0])
                    r = y is not None and y['k'] == 'i' and y['v'] == i.id and c == 0
            elif i.op == 'load': r = same(i.ops[0], at[i.id], depth + 1) and content(i.ops[0], at[i.id], i.d['sz'], depth + 1)
            elif i.op == 'alloca': r = True
            elif i.op in ('call', 'invoke'):
                if i.id in noop: r = True
                elif not self.pure(i): r = False
                else:
                    r = all(same(x, at[i.id], depth + 1) for x in i.ops)
                    for k, x in enumerate(i.ops):
                        if not r:
                            break
                        if x.get('t') == 'ptr' and k not in outs(i): r = content(x, at[i.id], None, depth + 1)
            else: r = all(same(x, at[i.id], depth + 1) for x in ir.operands(i))
            memo[key] = r
            return r

        def origin(o, depth=0):
            """(load, constant): the value is what lay somewhere when the round began, plus a constant"""
            c = 0
            while depth < 40:
                depth += 1; o = resolve(o)
                if o['k'] != 'i': return None, 0
                i = f.inst[o['v']]
                if i.bb not in pos: return None, 0
                if stays(i): o = i.ops[0]; continue
                if i.op == 'getelementptr' and not i.d['gep']['var']: c += i.d['gep']['coff']; o = i.ops[0]; continue
                if i.op in ('add', 'sub') and i.ops[1]['k'] == 'c' and 'w' in i.ops[1]:
                    w = int(i.ops[1]['w']); v = int(i.ops[1]['v']) & ((1 << w) - 1); v = v - (1 << w) if v >> (w - 1) else v
                    c += v if i.op == 'add' else -v; o = i.ops[0]; continue
                if i.op != 'load': return None, 0
                a = self.root(i.ops[0])
                if a[0][0] != 'al' or a[1] is None: return i, c
                before = [j for j in seq[:at[i.id]] if self.writes(j, a[0], noop)]
                if not before: return i, c
                j = before[-1]
                if j.op != 'store' or self.root(j.ops[1]) != a: return None, 0
                o = j.ops[0]
            return None, 0

        def level(r, c):
            """an object of the function that has its old value again at the end of the round"""
            ws = [i for i in seq if self.writes(i, r, noop)]
            if not ws or any(i.op != 'store' or self.root(i.ops[1]) != (r, c) for i in ws) or c is None: return False
            l, k = origin(ws[-1].ops[0])
            return l is not None and k == 0 and self.root(l.ops[0]) == (r, c)

        def silent(i):
            """a store that puts back what it took from the same place"""
            if i.op != 'store': return False
            o = resolve(i.ops[0])
            if o['k'] == 'i' and stays(f.inst[o['v']]): o = resolve(f.inst[o['v']].ops[0])
            if o['k'] != 'i' or f.inst[o['v']].op != 'load' or f.inst[o['v']].bb not in pos: return False
            a, b = self.root(f.inst[o['v']].ops[0]), self.root(i.ops[1])
            return a == b and a[1] is not None

        def content(addr, k, size, depth, lax=False):
            """is what lies at the address the same the next time round, as seen at position k"""
            if depth > 40: return False
            r, c = self.root(addr); done = set()
            if r[0] in ('?',): return False
            touched = any(self.writes(i, r, noop) for i in off)
            if touched and mode[0] and not lax: return False
            if not touched and r[0] == 'al' and level(r, c): return True
            j = k - 1
            while j >= 0:
                i = seq[j]
                if silent(i): pass
                elif self.writes(i, r, noop):
                    if i.op == 'store' and self.root(i.ops[1])[0] == r:
                        q, d = self.root(i.ops[1])
                        if d is None: return False
                        if size is not None and c is not None and (d + i.d['sz'] <= c or c + size <= d): pass
                        elif d in done: pass
                        else:
                            if not same(i.ops[0], j, depth + 1): return False
                            done.add(d)
                            if size is not None and c == d and size <= i.d['sz']: return True
                    elif i.op in ('call', 'invoke') and any(self.root(i.ops[n])[0] == r for n in outs(i)):
                        if not self.pure(i): return False
                        for n, x in enumerate(i.ops):
                            if n in outs(i): continue
                            if not same(x, j, depth + 1): return False
                            if x.get('t') == 'ptr' and not content(x, j, None, depth + 1): return False
                        return True
                    else: return False
                j -= 1
            if touched: return False
            for i in seq[k + 1:]:
                if silent(i): continue
                if self.writes(i, r, noop):
                    if i.op == 'store':
                        q, d = self.root(i.ops[1])
                        if q == r and d is not None and (d in done or size is not None and c is not None and (d + i.d['sz'] <= c or c + size <= d)): continue
                    return False
            return True

        def told(o, depth=0):
            """does the value change only because a function of the repository may give another answer"""
            o = resolve(o)
            if same(o, 0): return True
            if o['k'] != 'i' or depth > 20: return False
            i = f.inst[o['v']]
            if i.bb not in pos or i.op in ('phi', 'load'): return False
            if i.op in ('call', 'invoke'):
                if i.dem and not self.pure(i) and not stream_op(i) and re.search(r'(^| )(\(anonymous namespace\)|ppocr)::', re.sub(r'<.*', '', i.dem)): return True
                if self.pure(i): return all(told(x, depth + 1) and (x.get('t') != 'ptr' or n in outs(i) or content(x, at[i.id], None, 0, True)) for n, x in enumerate(i.ops))
                return False
            return all(told(x, depth + 1) for x in ir.operands(i))

        tests = 0
        for k, b in enumerate(way):
            t = f.blocks[b][-1]; nxt = way[k + 1] if k + 1 < len(way) else self.h
            mode[0] = not any(b in f.loops[x]['body'] for x in inner)
            if t.op == 'br' and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1]:
                v = const(t.d['cond'])
                if v is not None and dead is not None:
                    if t.d['succ'][0 if v & 1 else 1] != nxt: return False
                    tests += 1; continue
                tests += 1
                if not same(t.d['cond'], at[t.id]):
                    if any(x not in self.body for x in t.d['succ']) or self.flag() or not told(t.d['cond']):
                        return False
            elif t.op == 'switch':
                tests += 1
                if not same(t.d['cond'], at[t.id]): return False
        return True

    def stream_root(self, o):
        """the stream behind the pointer to its basic_ios part"""
        for _ in range(60):
            if o['k'] != 'i': break
            i = self.f.inst[o['v']]
            if i.op == 'getelementptr': o = i.ops[0]
            elif i.op in ('call', 'invoke') and i.t == 'ptr' and (stream_op(i) or TEST.search(i.dem)): o = i.ops[0]
            elif i.op == 'phi' and i.bb not in self.f.loops:
                rs = {self.stream_root(v) for v, _ in i.ops}
                return rs.pop() if len(rs) == 1 else ('?', 0)
            else: break
        return self.root(o)[0]

    def flag(self):
        """does an exit look at a flag, or at no object or counter at all"""
        if not hasattr(self, '_flag'):
            f = self.f; self._flag = False; seen = set(); leaf = False
            st = [f.blocks[b][-1].d['cond'] for b in self.body if f.blocks[b][-1].op == 'br' and len(f.succ[b]) == 2 and any(s not in self.body for s in f.succ[b])]
            while st:
                o = st.pop()
                if o['k'] != 'i' or o['v'] in seen: continue
                seen.add(o['v']); i = f.inst[o['v']]
                if i.bb not in self.body:
                    if i.op == 'alloca': leaf = True
                    continue
                if i.op == 'phi':
                    vs = [v for v, p in i.ops]
                    if i.t == 'i1' or all(v['k'] == 'c' for v in vs): self._flag = True
                    if i.bb == self.h: leaf = True
                    else: st += vs
                    continue
                if i.op in ('call', 'invoke') and not self.pure(i): self._flag = True
                if i.op == 'load' and i.d['sz'] == 1: self._flag = True
                st += list(ir.operands(i))
            self._flag = self._flag or not leaf
        return self._flag

    def streams(self):
        return {self.root(i.ops[0])[0] for b in self.body for i in self.f.blocks[b] if i.op in ('call', 'invoke') and stream_op(i)} - {('?', 0)}

    # ---- counting
    def step(self, p):
        """the constant by which a header phi changes on every way round"""
        f = self.f; i = f.inst[p]; s = set(); seen = set()
        st = [v for v, b in i.ops if b in self.body]
        while st:
            o = st.pop()
            if o['k'] != 'i': return None
            if o['v'] == p: s.add(0); continue
            if o['v'] in seen: continue
            seen.add(o['v']); j = f.inst[o['v']]
            if j.op == 'phi' and j.bb in self.body and j.bb != self.h: st += [v for v, _ in j.ops]
            elif j.op in ('add', 'sub') and j.ops[1]['k'] == 'c' and j.ops[0]['k'] == 'i' and j.ops[0]['v'] == p:
                w = int(j.ops[1]['w']); v = int(j.ops[1]['v']) & ((1 << w) - 1); v = v - (1 << w) if v >> (w - 1) else v
                s.add(v if j.op == 'add' else -v)
            elif j.op == 'getelementptr' and not j.d['gep']['var'] and j.ops[0]['k'] == 'i' and j.ops[0]['v'] == p: s.add(j.d['gep']['coff'])
            else: return None
        return s

    def idle(self):
        """a step that may be nothing: only quotients, sizes and such"""
        f = self.f
        def flat(o):
            while o['k'] == 'i' and f.inst[o['v']].op in ('zext', 'sext', 'trunc', 'freeze'): o = f.inst[o['v']].ops[0]
            if o['k'] == 'i' and f.inst[o['v']].op == 'add' and f.inst[o['v']].bb in self.body: return [y for x in f.inst[o['v']].ops for y in flat(x)]
            return [o]
        strip = lambda o: flat(o)[0] if len(flat(o)) == 1 else o
        tests = set()
        for b in self.body:
            t = f.blocks[b][-1]
            if t.op == 'br' and len(f.succ[b]) == 2 and any(s not in self.body for s in f.succ[b]) and t.d['cond']['k'] == 'i' and f.inst[t.d['cond']['v']].op == 'icmp':
                tests |= {x['v'] for o in f.inst[t.d['cond']['v']].ops for x in [strip(o)] if x['k'] == 'i'}
        for p in tests:
            i = f.inst[p]
            if i.op != 'phi' or i.bb != self.h: continue
            for v, b in i.ops:
                if b not in self.body or v['k'] != 'i': continue
                ts = flat(v)
                me = [x for x in ts if x['k'] == 'i' and x['v'] == p]
                if len(me) != 1 or len(ts) < 2: continue
                rest = [x for x in ts if x is not me[0]]
                if all(x['k'] == 'i' and (f.inst[x['v']].op in ('udiv', 'lshr') or f.inst[x['v']].op in ('call', 'invoke') and name_of(f.inst[x['v']].dem) in ('size', 'length', 'count', 'distance')) for x in rest): return i, rest[0]
        return None

    def away(self):
        """a counted test that the counter moves away from"""
        f = self.f
        exits = [f.blocks[b][-1] for b in self.body if f.blocks[b][-1].op == 'br' and len(f.succ[b]) == 2 and any(s not in self.body for s in f.succ[b])]
        rest = [b for b in self.body if any(s not in self.body for s in (f.succ[b][:1] if f.blocks[b][-1].op == 'invoke' else f.succ[b])) and f.blocks[b][-1] not in exits]
        if rest or len(exits) != 1: return None
        t = exits[0]; c = t.d['cond']
        if c['k'] != 'i' or f.inst[c['v']].op != 'icmp': return None
        c = f.inst[c['v']]; pr = c.d['pred']; x, y = c.ops
        inv = lambda o: o['k'] != 'i' or f.inst[o['v']].bb not in self.body
        if inv(x): x, y = y, x; pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
        if not inv(y) or x['k'] != 'i': return None
        p = f.inst[x['v']]
        if not (p.op == 'phi' and p.bb == self.h): return None
        if t.d['succ'][0] not in self.body: pr = {'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'eq': 'ne', 'ne': 'eq'}.get(pr, pr)
        s = self.step(p.id)
        if not s: return None
        if all(v > 0 for v in s) and pr[1:] in ('gt', 'ge') or all(v < 0 for v in s) and pr in ('slt', 'sle'): return 'it is counted %s while it is to become %s' % (('up', 'smaller') if min(s) > 0 else ('down', 'larger'))
        return False if s and 0 not in s else None


def find_replace(f, L, R, name):
    """a text is searched behind what was found, and behind what was put in"""
    n = 0
    for b in L.body:
        for i in f.blocks[b]:
            if i.op not in ('call', 'invoke') or not re.search(r'(basic_string<.*>|std::(__cxx11::)?string)::find\(', i.dem) or f.loopof[b] != L.h or len(i.ops) < 3: continue
            text, pos = i.ops[0], i.ops[2]
            if pos['k'] != 'i' or f.inst[pos['v']].op != 'phi' or f.inst[pos['v']].bb != L.h: continue
            n += 1; p = f.inst[pos['v']]
            changed = any(L.writes(j, L.root(text)[0], set()) for c in L.body for j in f.blocks[c] if j is not i)
            st = [v for v, c in p.ops if c in L.body]; good = True; seen = set()
            while st:
                o = st.pop()
                if o['k'] == 'c': good = False; continue
                if o['k'] != 'i' or o['v'] in seen: continue
                seen.add(o['v']); j = f.inst[o['v']]
                if j.op == 'phi': st += [v for v, _ in j.ops]; continue
                if j.id == i.id or j.id == p.id: good = False; continue
                if j.op == 'add':
                    s = [f.inst[x['v']] if x['k'] == 'i' else x for x in j.ops]
                    if any(isinstance(x, dict) and x['k'] == 'c' and int(x['v']) > 0 for x in s) and not changed: continue
                    if any(isinstance(x, ir.Inst) and x.op in ('call', 'invoke') and name_of(x.dem) in ('size', 'length') or isinstance(x, ir.Inst) and x.op == 'load' for x in s): continue
                    good = False
            if good: R.ok('%s: the search at %s goes on behind what was found or put in' % (name, i.loc()))
            else: R.bad('%s in %s' % (i.loc(), name), 'progress', 'the search starts again at what it has found or put in: it may find it again for ever')
            # an empty text is found everywhere
            pat = L.root(i.ops[1])[0]; tested = False
            for c in f.domset[L.h]:
                for j in f.blocks[c]:
                    if j.op in ('call', 'invoke') and name_of(j.dem) in ('empty', 'size', 'length') and j.ops and L.root(j.ops[0])[0] == pat: tested = True
            if tested: R.ok('%s: an empty text is not searched' % name)
            elif changed or True: 
                steps = [f.inst[o['v']] for v, c in p.ops if c in L.body for o in [v] if o['k'] == 'i']
                if any(j.op == 'add' and any(x['k'] == 'c' and int(x['v']) > 0 for x in j.ops) for j in steps): R.ok('%s: the search moves on by at least one' % name)
                else: R.bad('%s in %s' % (i.loc(), name), 'progress', 'an empty text is found everywhere: the search never ends')
    return n


def judge(f, R):
    name = re.sub(r'<.*>', '<>', f.dem.split('(')[0])[-70:] if not f.dem.startswith('_Z') else f.dem[:60]
    for h in f.loops:
        L = Loop(f, h)
        where = f.blocks[h][-1].loc()
        ws = [b for b in L.body]
        src = {f.blocks[b][-1].loc().split(' ')[0] for b in L.body}
        if not any(s.startswith(('src/', 'main/')) for s in src): continue
        key = '%s in %s' % (where, name)
        R.coverage['loops'] = R.coverage.get('loops', 0) + 1
        exits = [b for b in L.body if any(s not in L.body for s in (f.succ[b][:1] if f.blocks[b][-1].op == 'invoke' else f.succ[b])) or f.blocks[b][-1].op in ('ret', 'unreachable')]
        if not exits: R.bad(key, 'progress', 'the loop has no way out'); continue
        ways = L.ways()
        if ways is None: R.coverage['loops with too many ways'] = R.coverage.get('loops with too many ways', 0) + 1; continue
        R.coverage['ways round'] = R.coverage.get('ways round', 0) + len(ways)
        bad = None
        for w in ways:
            if L.stuck(w): bad = ('on a way round this loop nothing changes that its tests look at: once taken, it is taken for ever', w); break
        if bad is None:
            for s in sorted(L.streams(), key=str):
                for w in ways:
                    if any(stream_op(i) and L.root(i.ops[0])[0] == s for b in w for i in f.blocks[b] if i.op in ('call', 'invoke')) and L.stuck(w, s):
                        bad = ('once reading has failed, nothing changes any more on a way round this loop and no test ends it', w); break
                if bad: break
                R.ok('%s: the loop ends once reading has failed' % key)
        if bad is None:
            a = L.away()
            if a: bad = ('the loop moves away from its end: ' + a, ())
            elif a is False: R.coverage['counted loops'] = R.coverage.get('counted loops', 0) + 1
        if bad is None:
            a = L.idle()
            if a: bad = ('the step by %s may be nothing' % (name_of(f.inst[a[1]['v']].dem) + '()' if f.inst[a[1]['v']].op in ('call', 'invoke') else 'a quotient'), ())
        if bad:
            last = [f.blocks[b][-1].loc().split(' ')[0] for b in bad[1]]
            R.bad(key, 'progress', bad[0] + (' (way by %s)' % ', '.join(dict.fromkeys(last)) if last else ''))
        else: R.ok('%s: %d ways round, each changes what its tests look at' % (key, len(ways)))
        find_replace(f, L, R, name)
    # a recursive call with the same arguments
    for i in f.calls():
        if i.callee != f.name: continue
        R.coverage['recursive calls'] = R.coverage.get('recursive calls', 0) + 1
        if len(i.ops) == len(f.params) and all(o['k'] == 'a' and o['v'] == k for k, o in enumerate(i.ops)) and not any(j.op == 'store' for j in f.insts()): R.bad('%s in %s' % (i.loc(), name), 'progress', 'the function calls itself with the very same arguments')
        else: R.ok('%s: the call of itself at %s passes something else on' % (name, i.loc()))


def unit(item):
    rels, skip = item
    R = Result()
    m = ir.dump(rels, no_repo_inline=True)
    for f in m.fns:
        if f.name in skip: continue
        judge(f, R)
    return R, {f.name for f in m.fns}


def ends(thorough):
    R = Result('other', 'static analysis: every acyclic way round every loop is examined for something that changes and that a test on it looks at')
    libs, exes = ir.jamroot_units()
    r, names = unit((libs + [DRIVER], frozenset()))
    R.merge(r)
    for r, _ in pmap(unit, [([src] + libs, frozenset(names)) for n, src in sorted(exes.items())]): R.merge(r)
    R.need(R.coverage.get('loops', 0) >= 120, 'hardly any loop found')
    R.coverage['rule'] = ('every acyclic way round every loop of the library and the tools changes a value, an object or a stream that a test on that way looks at (also when a stream has failed before); '
                          'counted loops move towards their bound; repeated searches start behind the last find')
    R.assumptions += ['an inner loop may be passed without a turn', 'const member functions and const references do not change an object', 'a stream that has failed stays failed']
    return R
