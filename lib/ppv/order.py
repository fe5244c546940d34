"""Deciding comparators: a comparison function is interpreted over terms; every test it makes compares the same key of its two arguments (a field, a size,
the content of a string, of an image ...), so that the function is a table from the signs of those key comparisons to its result. Whether the table is a strict
weak order, an equivalence or a three-way order is decided on all arrangements of three elements per key."""
import re, itertools
from . import ir

INLINE = (ir.STD_INLINE, r'(^| )(std::)?(operator(<|>|==|!=|<=|>=)<.*std::(tuple|pair)<|__tuple_compare|less<|greater<|equal_to<|not_equal_to<|less_equal<|greater_equal<|_Swallow_assign|tie<|make_pair<|make_tuple<|minmax<|__invoke|invoke<|cref<|ref<)',
          r'std::__tuple_compare', r'std::(less|greater|equal_to|not_equal_to|less_equal|greater_equal|pair|tuple)<.*>::')
CMPKIND = {'sort': 'lt', 'stable_sort': 'lt', 'partial_sort': 'lt', 'nth_element': 'lt', 'max_element': 'lt', 'min_element': 'lt', 'minmax_element': 'lt', 'set_union': 'lt', 'set_intersection': 'lt',
           'set_difference': 'lt', 'set_symmetric_difference': 'lt', 'merge': 'lt', 'inplace_merge': 'lt', 'includes': 'lt', 'is_sorted': 'lt', 'make_heap': 'lt', 'push_heap': 'lt', 'pop_heap': 'lt', 'sort_heap': 'lt',
           'unique': 'eq', 'unique_copy': 'eq', 'adjacent_find': 'eq', 'lower_bound': 'lb', 'upper_bound': 'ub', 'equal_range': 'lt', 'binary_search': 'lt'}
ALGO = re.compile(r'(?:^|[ &*>])std::(%s)<' % '|'.join(sorted(CMPKIND, key=len, reverse=True)))
STR = r'std::__cxx11::basic_string<char'
PURE = re.compile(r'(>::(operator\[\]|at)\(unsigned long\)( const)?$)')


class Undecided(Exception): pass


class Mismatched(Exception): pass


def swap(t):
    if isinstance(t, tuple):
        if t == ('A',): return ('B',)
        if t == ('B',): return ('A',)
        return tuple(swap(x) for x in t)
    return t


def mentions(t, n):
    if t == (n,): return True
    return isinstance(t, tuple) and any(mentions(x, n) for x in t)


def leaves(t):
    """the loads and sizes of a term"""
    if isinstance(t, tuple):
        if t and t[0] in ('ld', 'size', 'A', 'B'): yield t; return
        for x in t: yield from leaves(x)


class Need(Exception):
    def __init__(self, key): self.key = key


class Eval:
    """one run of a comparator under an assignment key -> sign"""

    def __init__(self, mod, signs, kinds, depth=0): self.mod = mod; self.signs = signs; self.kinds = kinds; self.depth = depth

    def sign(self, x, y, kind=''):
        """sign of comparing term x with term y"""
        if x == y: return 0
        if mentions(x, 'A') and not mentions(x, 'B') and swap(x) == y: k, s = x, 1
        elif mentions(x, 'B') and not mentions(x, 'A') and swap(x) == y: k, s = y, -1
        else: raise Undecided('compares %s with %s' % (short(x), short(y)))
        k = (kind, k)
        if k not in self.signs: raise Need(k)
        return s * self.signs[k]

    def addr(self, f, env, o, mem):
        return self.val(f, env, o)

    def val(self, f, env, o):
        k = o['k']
        if k == 'i': 
            if o['v'] not in env: raise Undecided('a value that is not computed on this way')
            return env[o['v']]
        if k == 'a': return env[('a', o['v'])]
        if k == 'c': 
            v = int(o['v']); w = o.get('w') or 64
            return ('c', v - (1 << w) if w > 1 and v >= 1 << (w - 1) else v)
        if k == 'null': return ('c', 0)
        if k in ('g', 'fn'): return ('g', o.get('n'))
        return ('?', k)

    def gep(self, base, coff, var):
        if base[0] == 'gep':
            base, coff, var = base[1], base[2] + coff, base[3] + var
        if not coff and not var: return base
        return ('gep', base, coff, var)

    def load(self, a, mem, ty):
        if a in mem: return mem[a]
        root = a
        while root[0] == 'gep': root = root[1]
        if root[0] == 'alloca': raise Undecided('reads a local that was not set in one piece')
        return ('ld', a, ty)

    def truth(self, t):
        """decide a boolean term"""
        if t[0] == 'c': return t[1] & 1
        if t[0] == 'not': return 1 - self.truth(t[1])
        if t[0] == 'and': return self.truth(t[1]) and self.truth(t[2])
        if t[0] == 'or': return self.truth(t[1]) or self.truth(t[2])
        if t[0] == 'xor': return self.truth(t[1]) ^ self.truth(t[2])
        if t[0] == 'cmp': return self.cmp(t[1], t[2], t[3])
        if t[0] == 'b': return t[1]
        if t[0] == 'str':
            s = self.elemsign(t[2], t[3], 'content')
            if s is None: s = self.sign(t[2], t[3], 'content')
            return int({'==': s == 0, '!=': s != 0, '<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[t[1]])
        if t[0] == 'equal': return int(self.lex(t[1:]) == 0)
        raise Undecided('tests %s' % short(t))

    def lex(self, r):
        """sign of the lexicographic comparison of two ranges (b1, e1, b2, element key, e2 or None)"""
        b1, e1, b2, key, e2 = r
        n = self.length(b1, e1)
        if e2 is not None and e1 is not None: 
            m = self.length(b2, e2)
            if n is not None and m is not None and n != m and self.lens(n) != 0: return 2
        elif n is not None and self.lens(n) != 0: raise Mismatched('walks two ranges of different lengths together')
        return self.sign(b1, b2, 'lex' + repr(key))

    def length(self, b, e):
        if e is None: return None
        if b[0] == 'begin' and e == ('end', b[1]): return ('size', b[1])
        if e[0] == 'gep' and e[1] == b: return ('len',) + tuple(v for v in e[3]) + (e[2],)
        if e[0] == 'len': return e
        raise Undecided('range %s .. %s' % (short(b), short(e)))

    def lens(self, n):
        """0 if the two lengths are known to be equal; a length with no difference between the sides is equal"""
        if swap(n) == n: return 0
        ks = [n] if n[0] == 'size' else [x for x in leaves(n)]
        r = 0
        for k in ks:
            q = None
            for (kind, t), s in self.signs.items():
                if kind == '' and t in (k, swap(k)): q = s
            if q is None: return 1
            r |= q != 0
        return r

    def cmp(self, pred, x, y):
        P = {'eq': lambda s: s == 0, 'ne': lambda s: s != 0, 'lt': lambda s: s < 0, 'gt': lambda s: s > 0, 'le': lambda s: s <= 0, 'ge': lambda s: s >= 0}
        f = P[pred]
        if x[0] == 'c' and y[0] == 'c': return int(f((x[1] > y[1]) - (x[1] < y[1])))
        if x[0] == 'c': x, y = y, x; f = P[{'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[pred]]
        if y[0] == 'c':
            c = y[1]
            if x[0] == '3way': 
                s = self.sign(x[2], x[3], x[1])
                if c == 0: return int(f(s))
                if c == -1 and pred == 'gt': return int(s >= 0)
                if c == 1 and pred == 'lt': return int(s <= 0)
                raise Undecided('tests the exact value of a three-way comparison')
            if x[0] == 'zb':           # widened boolean
                b = self.truth(x[1]); b = -b if x[2] else b
                return int(f((b > c) - (b < c)))
            if x[0] == 'op' and x[1] == 'sub' and c == 0: return int(f(self.sign(x[2], x[3])))
        if x[0] == 'zb' and y[0] == 'zb':
            a, b = self.truth(x[1]), self.truth(y[1]); return int(f((a > b) - (a < b)))
        # the end test of a std::mismatch
        for p, q in ((x, y), (y, x)):
            if p[0] in ('mm1', 'mm2') and pred in ('eq', 'ne'):
                b1, e1, b2, key, e2 = p[1]
                if q == e1 and p[0] == 'mm1' or (q == e2 or q[0] == 'end' and b2 == ('begin', q[1])) and p[0] == 'mm2': 
                    s = self.lex(p[1]); return int((s == 0) == (pred == 'eq'))
        e = self.elemsign(x, y)
        if e is not None: return int(f(e))
        return int(f(self.sign(x, y)))

    def elemsign(self, x, y, kind=''):
        """comparison of a key of the first differing elements"""
        for p, q, s in ((x, y, 1), (y, x, -1)):
            m = find(p, 'mm1')
            if m is None or find(q, 'mm2') is None: continue
            if replace(p, ('mm1', m), ('E',)) != replace(q, ('mm2', m), ('E',)): continue
            k = replace(p, ('mm1', m), ('E',)); key = m[3]
            if key != ('=',) and ((kind, k) not in key): raise Undecided('orders the first difference by something else than what was compared')
            return s * self.lex(m)
        return None

    def run(self, f, args):
        if self.depth > 6: raise Undecided('calls go too deep')
        env = {('a', k): a for k, a in enumerate(args)}; mem = {}; b = 0; prev = None; seen = {}
        while True:
            seen[b] = seen.get(b, 0) + 1
            if seen[b] > 1: raise Undecided('has a loop of its own')
            nxt = None; phis = {}
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for v, pb in i.ops:
                        if pb == prev: phis[i.id] = self.val(f, env, v)
            env.update(phis)
            for i in f.blocks[b]:
                op = i.op
                if op == 'phi': continue
                V = lambda k: self.val(f, env, i.ops[k])
                if op == 'alloca': env[i.id] = ('alloca', self.depth, i.id)
                elif op == 'load': env[i.id] = self.load(V(0), mem, i.t)
                elif op == 'store':
                    a = V(1); root = a
                    while root[0] == 'gep': root = root[1]
                    if root[0] != 'alloca': raise Undecided('writes to memory that is not its own')
                    mem[a] = V(0)
                elif op == 'getelementptr':
                    g = i.d['gep']
                    if not g['ok']: raise Undecided('address arithmetic')
                    env[i.id] = self.gep(V(0), g['coff'], tuple((self.val(f, env, v), s) for v, s in g['var']))
                elif op in ('zext', 'sext'):
                    x = V(0); env[i.id] = ('zb', x, op == 'sext') if i.ops[0].get('t') == 'i1' else ('c', x[1]) if x[0] == 'c' and op == 'sext' else x if x[0] == '3way' else ('op', op, x) if x[0] != 'op' or x[1] != op else x
                elif op == 'trunc' and i.t == 'i1': env[i.id] = V(0)
                elif op in ('freeze', 'bitcast'): env[i.id] = V(0)
                elif op == 'icmp': 
                    p = i.d['pred']; env[i.id] = ('cmp', p[-2:] if p not in ('eq', 'ne') else p, V(0), V(1))
                elif op == 'fcmp':
                    p = i.d['pred']
                    if p[0] not in 'ou' or p[1:] not in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'): raise Undecided('fcmp ' + p)
                    env[i.id] = ('cmp', p[1:], V(0), V(1))
                elif op in ('xor', 'and', 'or') and i.t == 'i1': env[i.id] = (op, V(0), V(1))
                elif op == 'select':
                    c = V(0); env[i.id] = V(1) if self.truth(c) else V(2)
                elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'lshr', 'ashr', 'shl', 'fsub', 'fadd', 'fmul', 'fdiv', 'and', 'or', 'xor', 'trunc', 'ptrtoint', 'sitofp', 'uitofp', 'fpext', 'fneg', 'urem', 'srem'):
                    env[i.id] = ('op', op.replace('fsub', 'sub')) + tuple(V(k) for k in range(len(i.ops)))
                elif op == 'extractvalue':
                    x = V(0); n = (i.d.get('xi') or [None])[0]
                    if x[0] == 'mm' and n in (0, 1): env[i.id] = ('mm%d' % (n + 1), x[1])
                    elif x[0] == 'pair' and n in (0, 1): env[i.id] = x[1 + n]
                    else: env[i.id] = ('ev', x, n)
                elif op == 'insertvalue':
                    x = V(0); n = (i.d.get('xi') or [None])[0]
                    if n not in (0, 1): raise Undecided('insertvalue')
                    p = list(x if x[0] == 'pair' else ('pair', ('?',), ('?',))); p[1 + n] = V(1); env[i.id] = tuple(p)
                elif op in ('call', 'invoke'):
                    env[i.id] = self.call(f, i, [self.val(f, env, o) for o in i.ops], mem)
                    if op == 'invoke': nxt = i.d['succ'][0]
                elif op == 'br':
                    s = i.d['succ']
                    if len(s) == 1 or 'cond' not in i.d: nxt = s[0]
                    else: nxt = s[0] if self.truth(self.val(f, env, i.d['cond'])) else s[1]
                elif op == 'switch': raise Undecided('switch')
                elif op == 'ret':
                    return self.val(f, env, i.ops[0]) if i.ops else None
                elif op in ('unreachable', 'landingpad', 'resume'): raise Undecided('does not return')
                else: raise Undecided(op)
            prev, b = b, nxt

    def call(self, f, i, A, mem):
        d = i.dem; c = i.callee or ''
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental)', c): return ('c', 0)
        if c.startswith('llvm.memcpy'):
            n = A[2][1] if A[2][0] == 'c' else None
            src, dst = A[1], A[0]; done = False
            for a, v in list(mem.items()):
                if a == src or a[0] == 'gep' and a[1] == src:
                    mem[self.gep(dst, a[2] if a != src else 0, ())] = v; done = True
            if not done and n == 8: mem[dst] = self.load(src, mem, 'ptr'); done = True
            if not done: raise Undecided('copies a block')
            return ('c', 0)
        if c.startswith('llvm.') and re.match(r'llvm\.(abs|fabs|umin|umax|smin|smax)', c): return ('op', c) + tuple(A)
        dd = d
        if re.search(r'(basic_string<char.*|string_view|vector<.*)>::(size|length)\(\) const$', dd): return ('size', A[0])
        m = re.search(r'>::(c?begin|c?end|data|c_str|front|back)\(\)( const)?$', dd)
        if m and re.search(r'std::(__cxx11::)?(basic_string|vector|basic_string_view|array)<', dd): 
            return {'begin': ('begin', A[0]), 'cbegin': ('begin', A[0]), 'end': ('end', A[0]), 'cend': ('end', A[0]), 'data': ('begin', A[0]), 'c_str': ('begin', A[0]), 'front': ('begin', A[0]), 'back': ('back', A[0])}[m.group(1)]
        if re.search(r'__normal_iterator<.*>::(operator->|operator\*|base)\(\) const$', dd): return self.load(A[0], mem, 'ptr')
        if re.search(r'reference_wrapper<.*>::(get|operator .*&)\(\) const$', dd): return self.load(A[0], mem, 'ptr')
        m = re.search(r'bool __gnu_cxx::operator(==|!=)<', dd)
        if m: return ('cmp', 'eq' if m.group(1) == '==' else 'ne', self.load(A[0], mem, 'ptr'), self.load(A[1], mem, 'ptr'))
        if PURE.search(dd) and re.search(r'std::(__cxx11::)?(vector|basic_string|array|deque)<', dd): return ('elem', A[0], A[1])
        m = re.search(r'bool std::operator(==|!=|<|>|<=|>=)<', dd)
        if m:
            ps, _ = ir.params(dd)
            t = re.sub(r' const|&', '', ps[0]).strip() if ps else ''
            if ps and len(ps) == 2 and (t.startswith(STR) or re.match(r'std::vector<(unsigned int|int|char|unsigned char|long|unsigned long|double|std::__cxx11::basic_string<char.*|bool), std::allocator', t)) and ps[0] == ps[1]:
                return ('str', m.group(1), A[0], A[1])
        if re.search(r'basic_string<char.*::compare\(%s' % STR, dd): return ('3way', 'content', A[0], A[1])
        if re.search(r'operator ?==\(ppocr::Image const&, ppocr::Image const&\)', dd) and self.mod.byname.get(c) is None: return ('cmp', 'eq', ('3way', 'image', A[0], A[1]), ('c', 0))
        if re.search(r'\bimage_compare\(', dd) and len(A) == 2: return ('3way', 'image', A[0], A[1])
        if c in ('memcmp', 'bcmp', '__builtin_memcmp'): 
            e = ('len', A[2]); self.lenarg(A[2]); return ('3way', 'lex' + repr(('=',)), A[0], A[1])
        if c in ('strcmp',): return ('3way', 'content', A[0], A[1])
        m = re.search(r'std::(mismatch|equal|lexicographical_compare)<', dd)
        if m and not (i.d.get('pattr') and i.d['pattr'] and i.d['pattr'][0].get('sret')):
            ps, _ = ir.params(dd); ps = ps or []
            key = ('='),; key = ('=',)
            its = ps; fun = None
            if ps and ps[-1] not in (ps[0], ps[1]) and len(ps) in (4, 5) and not re.search(r'(\*|__normal_iterator<.*>)$', ps[-1]): fun = ps[-1]; its = ps[:-1]
            R = A[:len(its)]
            R = [self.load(x, mem, 'ptr') if x[0] == 'alloca' else x for x in R]
            if m.group(1) == 'lexicographical_compare': raise Undecided('std::lexicographical_compare')
            if len(R) not in (3, 4): raise Undecided(m.group(1))
            if fun: key = self.elemkey(fun)
            elif not re.search(r'(char|int|long|double|short|bool)( const)?\*', its[0]):
                key = self.elemkey2(its[0])
            if len(R) == 3: b1, e1, b2 = R; e2 = None
            else: b1, e1, b2, e2 = R
            r = (b1, e1, b2, key, e2)
            return ('equal',) + r if m.group(1) == 'equal' else ('mm', r)
        g = self.mod.byname.get(c)
        if g is not None and len(g.reach) < 60 and len(g.params) == len(A): 
            return Sub(self, mem).run(g, A)
        if (i.d.get('ro') or i.d.get('rn')) and i.t != 'void' or re.search(r'\) const$', dd): return ('call', d or c) + tuple(A)
        raise Undecided('calls %s' % (re.sub(r'<.*', '', d or c or 'through a pointer')))

    def lenarg(self, n):
        if self.lens(n) != 0 and swap(n) != n: raise Mismatched('compares blocks by one side\'s length, which may exceed the other side')

    def elemkey(self, fun):
        """the keys an equality predicate on elements looks at"""
        g = [x for x in self.mod.fns if x.dem.startswith(fun + '::operator()(')]
        if len(g) != 1 or len(g[0].params) not in (2, 3): raise Undecided('element predicate %s' % fun[-60:])
        g = g[0]; off = len(g.params) - 2
        tab = table(self.mod, lambda ev: ev.run(g, [('this',)] * off + [('A',), ('B',)]))
        for s, r in tab:
            if r != int(all(v == 0 for v in s.values())): raise Undecided('an element predicate that is not the equality of its keys')
        return tuple(sorted({(k[0], replace(k[1], ('A',), ('E',))) for s, r in tab for k in s}, key=repr))

    def elemkey2(self, it):
        m = re.search(r'__normal_iterator<(.*?)( const)?\*,', it)
        if m and m.group(1).startswith(STR): return ('=',)
        T = m.group(1) if m else it
        g = [x for x in self.mod.fns if re.search(r'(^|::)operator ?==\(%s const&, %s const&\)' % (re.escape(T), re.escape(T)), x.dem)]
        if len(g) != 1: raise Undecided('the equality of %s' % T[-40:])
        tab = table(self.mod, lambda ev: ev.run(g[0], [('A',), ('B',)]))
        for s, r in tab:
            if r != int(all(v == 0 for v in s.values())): raise Undecided('an equality that is not the equality of its keys')
        return tuple(sorted({(k[0], replace(k[1], ('A',), ('E',))) for s, r in tab for k in s}, key=repr))


class Sub(Eval):
    def __init__(self, ev, mem): super().__init__(ev.mod, ev.signs, ev.kinds, ev.depth + 1); self.outer = mem; self.up = ev

    def load(self, a, mem, ty):
        if a in mem: return mem[a]
        if a in self.outer: return self.outer[a]
        if isinstance(self.up, Sub): return self.up.load(a, self.outer, ty)
        return super().load(a, mem, ty)


def find(t, tag):
    if isinstance(t, tuple):
        if t and t[0] == tag: return t[1]
        for x in t:
            r = find(x, tag)
            if r is not None: return r
    return None


def replace(t, a, b):
    if t == a: return b
    return tuple(replace(x, a, b) for x in t) if isinstance(t, tuple) else t


def short(t):
    s = repr(t); return s if len(s) < 120 else s[:117] + '...'


def table(mod, go, limit=400):
    """[(signs, result)] covering all sign combinations; result is 0/1 for a boolean, or -1/0/1 for a three-way comparison"""
    out = []; todo = [{}]
    while todo:
        s = todo.pop()
        if len(out) + len(todo) > limit: raise Undecided('too many cases')
        ev = Eval(mod, s, {})
        try:
            r = go(ev)
            r = result(ev, r)
            out.append((s, r))
        except Need as n:
            for v in (-1, 0, 1): todo.append(dict(s, **{}) | {n.key: v})
    return out


def result(ev, r):
    if r is None: raise Undecided('no result')
    if r[0] == 'c': return r[1]
    if r[0] == 'zb': return -ev.truth(r[1]) if r[2] else ev.truth(r[1])
    if r[0] == '3way': return ev.sign(r[2], r[3], r[1])
    return int(ev.truth(r))


PRE = sorted({tuple(sorted(set(p)).index(x) for x in p) for p in itertools.product(range(3), repeat=3)})      # the 13 preorders of three points


def lookup(tab, sg):
    for s, r in tab:
        if all(sg[k] == v for k, v in s.items()): return r
    raise Undecided('hole in the table')


def keyname(k):
    kind, t = k
    s = repr(t)
    return (kind[:12] + ' ' if kind else '') + (s if len(s) < 90 else s[:87] + '...')


def judge(tab, kind):
    """None if the table is what kind demands, else the reason"""
    keys = sorted({k for s, _ in tab for k in s}, key=repr)
    if len(keys) > 4: raise Undecided('%d keys' % len(keys))
    if not keys and kind != 'const': pass
    for ranks in itertools.product(PRE, repeat=len(keys)):
        def F(x, y): return lookup(tab, {k: (ranks[j][x] > ranks[j][y]) - (ranks[j][x] < ranks[j][y]) for j, k in enumerate(keys)})
        if kind == '3way':
            sg = lambda v: (v > 0) - (v < 0)
            G = lambda x, y: sg(F(x, y)) < 0
            if F(0, 0) != 0: return 'an element does not compare equal to itself'
            if sg(F(0, 1)) != -sg(F(1, 0)): return 'comparing the other way round does not give the opposite answer'
            if F(0, 1) == 0 and any(r[0] != r[1] for r in ranks): return 'two elements that differ compare equal'
        else: G = lambda x, y: bool(F(x, y))
        if kind == 'eq':
            if not G(0, 0): return 'an element is not equal to itself'
            if G(0, 1) != G(1, 0): return 'a equals b without b equalling a'
            if G(0, 1) and G(1, 2) and not G(0, 2): return 'a equals b and b equals c, but a does not equal c'
            continue
        if G(0, 0): return 'an element is ordered before itself'
        if G(0, 1) and G(1, 0): return 'a comes before b and b before a'
        if G(0, 1) and G(1, 2) and not G(0, 2): return 'a comes before b and b before c, but a does not come before c'
        N = lambda x, y: not G(x, y) and not G(y, x)
        if N(0, 1) and N(1, 2) and not N(0, 2): return 'a and b are equivalent, b and c too, but a and c are not'
    return None


def groups(sort, eq):
    """after sorting with table sort, elements that are equal under table eq are adjacent: no y strictly between or equivalent-but-different"""
    keys = sorted({k for t in (sort, eq) for s, _ in t for k in s}, key=repr)
    if len(keys) > 4: raise Undecided('%d keys' % len(keys))
    for ranks in itertools.product(PRE, repeat=len(keys)):
        def F(t, x, y): return bool(lookup(t, {k: (ranks[j][x] > ranks[j][y]) - (ranks[j][x] < ranks[j][y]) for j, k in enumerate(keys)}))
        # x, y, z in an order the sort may leave them in, x and z equal, y not
        if not F(sort, 1, 0) and not F(sort, 2, 1) and not F(sort, 2, 0) and F(eq, 0, 2) and not F(eq, 0, 1) and not F(eq, 1, 2): return False
    return True
