"""C10: comparison functions are genuine orders. C11: ranges are searched and cleared of duplicates only while sorted by a matching order."""
import re
from .. import ir, order
from ..run import Result, pmap

MAPCMP = re.compile(r'std::_Rb_tree<')


def targs(s, start):
    """template arguments of the '<' at s[start]"""
    d = 0; out = []; cur = ''
    for c in s[start:]:
        if c in '<([{':
            d += 1
            if d == 1: continue
        elif c in '>)]}':
            d -= 1
            if d == 0: out.append(cur.strip()); return out
        if c == ',' and d == 1: out.append(cur.strip()); cur = ''
        else: cur += c
    return out


def comparator(mod, T):
    g = [x for x in mod.fns if x.dem.startswith(T + '::operator()(')]
    return g[0] if g else None


def tab_of(mod, g, flip=False):
    if g.params and g.params[0].get('sret'): raise order.Undecided('returns through memory')
    n = len(g.params)
    a, b = (('B',), ('A',)) if flip else (('A',), ('B',))
    return order.table(mod, lambda ev: ev.run(g, [('this',)] * (n - 2) + [a, b]))


def value_type(it):
    m = re.search(r'__normal_iterator<(.*?)( const)?\*,', it)
    if m: return m.group(1)
    m = re.match(r'(.*?)( const)?\*$', it)
    return m.group(1) if m else it


class Het(order.Eval):
    """element on one side, searched value on the other"""
    def sign(self, x, y, kind=''):
        if x == y: return 0
        for p, q, s in ((x, y, 1), (y, x, -1)):
            if order.mentions(p, 'A') and not order.mentions(p, 'B') and order.mentions(q, 'B') and not order.mentions(q, 'A'):
                k = (kind, p)
                if k not in self.signs: raise order.Need(k)
                return s * self.signs[k]
        raise order.Undecided('compares %s with %s' % (order.short(x), order.short(y)))


def het_table(mod, g, flip):
    n = len(g.params); a, b = (('B',), ('A',)) if flip else (('A',), ('B',))
    out = []; todo = [{}]
    while todo:
        s = todo.pop()
        if len(todo) > 100: raise order.Undecided('too many cases')
        ev = Het(mod, s, {})
        try: out.append((s, order.result(ev, ev.run(g, [('this',)] * (n - 2) + [a, b]))))
        except order.Need as e: todo += [s | {e.key: v} for v in (-1, 0, 1)]
    return out


def abstract_this(k):
    """captured data is named the same in every comparator"""
    def go(t):
        if not isinstance(t, tuple): return t
        if t == ('this',): return ('cap',)
        if t and t[0] == 'ld' and len(t) == 3:
            a = go(t[1])
            if a == ('cap',) or a[0] == 'gep' and a[1] == ('cap',): return ('cap',)
            return ('ld', a, t[2])
        t = tuple(go(x) for x in t)
        if t and t[0] == 'gep' and t[1] == ('cap',): return ('cap',)
        return t
    return (k[0], go(k[1]))


def norm_tab(tab): return [({abstract_this(k): v for k, v in s.items()}, r) for s, r in tab]


# ---------------------------------------------------------------- sites

CONSTM = re.compile(r'>::(c?r?begin|c?r?end|size|empty|data|operator\[\]|at|front|back|capacity|reserve|erase|clear|pop_back|resize|shrink_to_fit|~[a-z_]+)\(')
BEGIN = re.compile(r'std::(__cxx11::)?(vector|basic_string|array|deque)<.*>::(c?begin|c?end|data)\(\)( const)?$')
REORDER = re.compile(r'(?:^|[ &*>])std::(reverse|rotate|shuffle|random_shuffle|iota|fill|fill_n|transform|copy|copy_n|generate|swap_ranges|partition|stable_partition|nth_element|partial_sort|replace|replace_if|iter_swap)<')


class Sites:
    def __init__(self, f): self.f = f; self.memo = {}

    def canon(self, o, n=0):
        """address as (base, offset)"""
        f = self.f
        if o['k'] != 'i': return ((o['k'], o.get('v', o.get('n'))), 0)
        i = f.inst[o['v']]
        if i.op == 'getelementptr' and i.d['gep']['ok'] and not i.d['gep']['var']:
            b, x = self.canon(i.ops[0], n + 1); return (b, x + i.d['gep']['coff'])
        if i.op in ('bitcast', 'freeze'): return self.canon(i.ops[0], n + 1)
        if i.op == 'load' and n < 20:
            a = self.canon(i.ops[0], n + 1); return (('ld', a), 0)
        return (('i', o['v']), 0)

    def roots(self, o, seen=None):
        """containers an iterator may belong to"""
        f = self.f; seen = set() if seen is None else seen
        key = (o['k'], o.get('v'))
        if key in seen: return set()
        seen.add(key)
        if o['k'] == 'a': return {(('a', o['v']), 0)}
        if o['k'] != 'i': return set()
        i = f.inst[o['v']]
        if i.op in ('call', 'invoke'):
            if BEGIN.search(i.dem): return {self.canon(i.ops[0])}
            if re.search(r'(^|[ &*>])std::(move_iterator|make_move_iterator|next|prev|__niter_base|forward|move)<|__normal_iterator<.*>::(operator|base)|(^| )__gnu_cxx::', i.dem) or order.ALGO.search(i.dem) or re.search(r'(^|[ &*>])std::(remove_if|find_if|mismatch|set_union|copy)<', i.dem):
                if order.ALGO.search(i.dem) and 'set_union' in i.dem: return self.roots(i.ops[4], seen)
                r = set()
                for x in i.ops[:1]:
                    if x.get('t') == 'ptr': r |= self.roots(x, seen)
                return r
            return {(('i', o['v']), 0)}
        if i.op == 'phi':
            r = set()
            for v, _ in i.ops: r |= self.roots(v, seen)
            return r
        if i.op == 'select': return self.roots(i.ops[1], seen) | self.roots(i.ops[2], seen)
        if i.op in ('getelementptr', 'bitcast', 'freeze'):
            return self.roots(i.ops[0], seen)
        if i.op == 'alloca':
            # an iterator kept in a local: what is stored there
            r = set()
            for j in self.f.insts():
                if j.op == 'store' and j.ops[1].get('v') == i.id and j.ops[1]['k'] == 'i' and j.ops[0].get('t') == 'ptr': r |= self.roots(j.ops[0], seen)
            return r
        if i.op == 'load':
            b, off = self.canon(i.ops[0])
            if b[0] == 'i' and f.inst[b[1]].op == 'alloca' and f.inst[b[1]].d.get('sz', 0) <= 16:
                r = set(); hit = False
                for j in f.insts():
                    if j.op == 'store' and self.canon(j.ops[1]) == (b, off): r |= self.roots(j.ops[0], seen); hit = True
                if hit: return r
            return {(b, off)}
        return set()


def describe(i): return re.sub(r' \(.*', '', i.loc())


def unit(item):
    rels, label = item
    R = Result(); R11 = Result()
    m = ir.dump(rels, reach=[order.ALGO.pattern], inline=order.INLINE)
    undecided = []; tabs = {}
    def get(T, kind):
        """table of the comparison function of type T"""
        key = (T, kind == 'ub')
        if key not in tabs:
            g = comparator(m, T)
            try:
                if g is None: tabs[key] = (None, 'no body', None)
                else: tabs[key] = (tab_of(m, g), None, g)
            except order.Undecided as e: tabs[key] = (None, str(e), g)
            except order.Mismatched as e: tabs[key] = (None, None, (g, str(e)))
        return tabs[key]
    ctor_sorts = []; searches = []; decided = {}; delegated = {}
    def default_tab(i, ps):
        T = value_type(ps[0])
        if T.startswith('ppocr::') or T.startswith('(anonymous'):
            r = []
            for op in ('<', '=='):
                g = [x for x in m.fns if re.search(r'operator ?%s\(%s const&, %s const&\)$' % (op, re.escape(T), re.escape(T)), x.dem)]
                try: r.append(tab_of(m, g[0]) if len(g) == 1 else None)
                except order.Undecided: r.append(None)
            return tuple(r)
        lt = [({('', ('A',)): v}, int(v < 0)) for v in (-1, 0, 1)]
        return lt, [(s, int(list(s.values())[0] == 0)) for s, _ in lt]
    # repo orders and equalities on objects
    for g in m.fns:
        mm = re.search(r'(?:^|::|\s)(operator ?(?:==|!=|<|>|<=|>=)|image_compare)\((ppocr::[A-Za-z0-9_:]+) const&, (ppocr::[A-Za-z0-9_:]+) const&\)$', g.dem)
        if not mm or mm.group(2) != mm.group(3) or len(g.params) != 2: continue
        op = mm.group(1).replace('operator', '').strip()
        name = '%s (%s:%d)' % (re.sub(r'.*?(operator ?\S+?|image_compare)\(', r'\1(', g.dem), g.file.replace(ir.REPO + '/', ''), g.line)
        try:
            t = tab_of(m, g)
            if op == '!=': t = [(s, 1 - r) for s, r in t]
            if op in ('<=', '>='): t = [(s, 1 - r) for s, r in t]
            why = order.judge(t, '3way' if op == 'image_compare' else 'eq' if op in ('==', '!=') else 'lt')
            if why: R.bad(name, 'order', why)
            else: R.ok('%s, on %s' % (name, ', '.join(sorted({order.keyname(k) for s, _ in t for k in s}))))
            if op == 'image_compare' or 'ppocr::Image const&' in g.dem and op == '==': R.coverage.setdefault('image', []).append([op, sorted({repr(k) for s, _ in t for k in s}), name])
        except order.Undecided as e: undecided.append('%s: %s' % (name, e))
        except order.Mismatched as e: R.bad(name, 'order', str(e))
    # comparators of maps and sets
    seen = set()
    for f in m.fns:
        for i in f.calls():
            k = i.dem.find('std::_Rb_tree<')
            if k < 0: continue
            a = targs(i.dem, k + len('std::_Rb_tree'))
            if len(a) < 4 or a[3].startswith('std::less<') or a[3] in seen: continue
            seen.add(a[3]); t, e, g = get(a[3], 'lt')
            if t is None and e is None: R.bad(a[3], 'order', g[1]); continue
            if t is None: undecided.append('%s: %s' % (a[3], e)); continue
            why = order.judge(t, 'lt')
            if why: R.bad('%s:%d (order of a map)' % (g.file.replace(ir.REPO + '/', ''), g.line), 'order', why)
            else: R.ok('%s:%d, the order of a map' % (g.file.replace(ir.REPO + '/', ''), g.line))
    for f in m.fns:
        if not f.file.startswith(ir.REPO): continue
        S = Sites(f); algos = []
        for i in f.calls():
            mm = order.ALGO.search(i.dem)
            if not mm: continue
            ps, _ = ir.params(i.dem)
            if not ps: continue
            name = mm.group(1); kind = order.CMPKIND[name]; T = ps[-1]
            iters = {'lower_bound': 2, 'upper_bound': 2, 'binary_search': 2, 'equal_range': 2}.get(name)
            has = comparator(m, T) is not None
            if has:
                g = comparator(m, T); where = '%s, comparison at %s:%d' % (describe(i), g.file.replace(ir.REPO + '/', ''), g.line)
                t, e, x = get(T, 'lt')
                if kind in ('lb', 'ub') and t is None and e is not None:
                    try:
                        ht = het_table(m, g, kind == 'ub')
                        ks = {k for s, _ in ht for k in s}
                        if len(ks) != 1: raise order.Undecided('%d keys' % len(ks))
                        want = (lambda v: int(v < 0)) if kind == 'lb' else (lambda v: int(v > 0))
                        if kind == 'ub': want = lambda v: int(v > 0)      # value < element: the element's key is greater
                        if any(r != want(list(s.values())[0]) for s, r in ht):
                            R.bad(where, 'order', 'the predicate of the binary search does not split a range sorted in ascending order of its key: it has to hold exactly for elements %s the value' % ('below' if kind == 'lb' else 'above')); t = None
                        else:
                            R.ok('%s: %s splits its range by one key' % (describe(i), name)); t = [({list(ks)[0]: v}, int(v < 0)) for v in (-1, 0, 1)]
                    except order.Undecided as e2: undecided.append('%s (%s): %s' % (where, name, e2)); t = None
                elif t is None and e is None: R.bad(where, 'order', x[1])
                elif t is None: undecided.append('%s (%s): %s' % (where, name, e))
                else:
                    why = order.judge(t, 'eq' if kind == 'eq' else 'lt')
                    if why: R.bad(where, 'order', 'handed to std::%s, but %s' % (name, why))
                    else: R.ok('%s: %s' % (describe(i), name))
            else:
                lt, eq = default_tab(i, ps)
                t = eq if kind == 'eq' else lt
            algos.append((i, name, kind, t))
        if not algos: continue
        byid = {i.id: (i, n, k, t) for i, n, k, t in algos}
        for i, name, kind, t in algos:
            if name in ('sort', 'stable_sort'):
                rs = S.roots(i.ops[0])
                for b, off in rs:
                    if t and not on_every_path(m, f, S, i, (b, off), byid): t2 = 'some'
                    else: t2 = norm_tab(t) if t else None
                    if b == ('a', 0) or b[0] == 'ld' and b[1][0] == ('a', 0) or b == ('ld', (('a', 0), 0)):
                        mm = re.match(r'(.*)::(~?\w+)(<.*>)?\(', f.dem)
                        ctor_sorts.append((f.dem.split('(')[0], off, t2, describe(i)))
                if t:
                    # floating point keys: the best first
                    for s, r in t:
                        for k in s:
                            if k[1] and k[1][0] == 'ld' and k[1][2] in ('double', 'float') and all(v == 0 for q, v in s.items() if q != k) and s[k] != 0:
                                if r != int(s[k] > 0): R11.bad(describe(i), 'best first', 'candidates are ordered with the lowest score first, while the first of equal candidates is the one kept and shown')
                                else: R11.ok('%s: highest score first' % describe(i))
            if kind not in ('eq', 'lb', 'ub') and name not in ('set_union', 'binary_search', 'equal_range'): continue
            if t is None: delegated.setdefault(describe(i), set()).add('predicate not decided'); continue
            roots = S.roots(i.ops[0])
            if name == 'unique_copy' or True:
                v = sorted_before(m, f, S, i, roots, name, kind, t, byid)
            where = describe(i)
            if v[0] == 'ok': decided.setdefault(where, []).append(v[1]); R11.ok('%s: %s after %s' % (where, name, v[1]))
            elif v[0] == 'bad': R11.bad('%s in %s' % (where, re.sub(r'<.*>', '<>', f.dem.split('(')[0])[-60:]), 'sorted', 'std::%s %s' % (name, v[1]))
            elif v[0] == 'member': searches.append((v[1], v[2], norm_tab(t), name, where))
            else: delegated.setdefault(where, set()).add(v[1])
    identity(m, R11)
    return R, R11, undecided, ctor_sorts, searches, decided, delegated


def sorted_before(m, f, S, site, roots, name, kind, t, byid):
    if len(roots) != 1: return ('open', '%d containers' % len(roots))
    root = next(iter(roots)); base, off = root
    def event(j):
        """what instruction j does to the container: None, ('sort', table, where) or ('kill', how)"""
        if j.op in ('call', 'invoke'):
            if j.id in byid:
                i, n, k, tt = byid[j.id]
                if n in ('sort', 'stable_sort') and root in S.roots(i.ops[0]): return ('sort', tt, describe(i))
                if n == 'set_union' and root in S.roots(i.ops[4]): return ('sort', tt, describe(i))
                if n == 'unique_copy' and root in S.roots(i.ops[2]): return ('kill', 'is filled by unique_copy at %s' % describe(i))
                if n == 'unique' and root in S.roots(i.ops[0]): return None
                return None
            if REORDER.search(j.dem) and j.ops and j.ops[0].get('t') == 'ptr' and root in S.roots(j.ops[0]): return ('kill', 'is reordered at %s' % describe(j))
            if j.callee and j.callee.startswith('llvm.'): return None
            for k, o in enumerate(j.ops):
                if o.get('t') == 'ptr' and S.canon(o) == root:
                    if CONSTM.search(j.dem) or ir.keeps(j, k) or re.search(r'\) const$', j.dem) and k <= 1: return None
                    if j.d['pattr'][k].get('ro') if k < len(j.d.get('pattr', [])) else False: return None
                    if re.search(r'::vector\(|::~', j.dem): return ('new', '')
                    return ('kill', 'is changed by %s at %s' % (re.sub(r'<.*?>', '', j.dem.split('(')[0])[-50:], describe(j)))
        elif j.op == 'store':
            b, o = S.canon(j.ops[1])
            if (b, o) == root and base[0] != 'i': return None
            # a field of an element that the order looks at
            flds = {(k[1][1][2] if k[1][1][0] == 'gep' else 0, k[1][2]) for s, _ in t for k in s if k[1] and k[1][0] == 'ld' and (k[1][1] == ('A',) or k[1][1][0] == 'gep' and k[1][1][1] == ('A',))}
            if flds and j.ops[1]['k'] == 'i':
                i2 = f.inst[j.ops[1]['v']]; coff = 0; src = j.ops[1]
                if i2.op == 'getelementptr' and not i2.d['gep']['var'] and i2.d['gep']['ok']: coff = i2.d['gep']['coff']; src = i2.ops[0]
                if (coff, j.ops[0].get('t')) in flds and root in S.roots(src): return ('kill', 'has its keys changed at %s' % describe(j))
        return None
    seen = set(); todo = [(site.bb, site.idx)]; found = []; entry = False; changed = False
    while todo:
        b, k = todo.pop(); hit = False
        for j in reversed(f.blocks[b][:k]):
            e = event(j)
            if e is None: continue
            if e[0] == 'kill': return ('bad', 'runs on a range that %s after it was last sorted' % e[1])
            if e[0] == 'new': hit = True; found.append(None); break
            found.append(e); hit = True; break
        if hit: continue
        if b == 0: entry = True
        for p in f.pred[b]:
            if p not in seen and not few(f, S, p, b, root): seen.add(p); todo.append((p, len(f.blocks[p])))
    sorts = [e for e in found if e]
    for e in sorts:
        if e[1] is None: return ('open', 'the order of the sort at %s is not decided' % e[2])
        try:
            if kind == 'eq':
                if not order.groups(e[1], t): return ('bad', 'removes neighbours, but the sort at %s does not bring equal elements together' % e[2])
            else:
                if not same_order(e[1], t): return ('bad', 'searches by another key or direction than the sort at %s' % e[2])
        except order.Undecided as x: return ('open', str(x))
    if sorts and not entry and None not in found: return ('ok', 'the sort at %s' % ', '.join(sorted({e[2] for e in sorts})))
    if sorts: return ('bad', 'is reached on a way round the sort at %s' % sorts[0][2])
    # never sorted in this function
    mm = re.match(r'(?:.* )?(ppocr::[A-Za-z0-9_:]+|\(anonymous namespace\)::[A-Za-z0-9_:]+)::~?[A-Za-z_0-9]+(<.*>)?\(', f.dem)
    if re.search(r'ppocr::container::', f.dem): return ('open', 'the nodes of a trie are in the order of their insertion (C22)')
    if base == ('a', 0) and mm and f.dem.endswith(' const'): return ('member', mm.group(1), off)
    if base[0] == 'a':
        d = f.params[base[1]].get('di') or ''
        c = re.match(r'const (ppocr::[A-Za-z0-9_:]+)&$', d)
        if c: return ('member', c.group(1), off)
        return ('open', 'belongs to the caller')
    if None in found: return ('bad', 'runs on a range that was never sorted')
    # a range that comes as it was read and is only ever searched here
    return ('open', 'a range taken over from elsewhere in the order it came')


SIZE = re.compile(r'std::(__cxx11::)?(vector|basic_string|array|deque)<.*>::(size|empty|begin|end|cbegin|cend|data)\(\)( const)?$')


def few(f, S, p, b, root):
    """the way from block p to block b is taken only when the container has at most one element"""
    t = f.blocks[p][-1]; c = t.d.get('cond')
    if t.op != 'br' or not c or c['k'] != 'i' or t.d['succ'][0] == t.d['succ'][1]: return False
    taken = t.d['succ'][0] == b; i = f.inst[c['v']]
    while i.op == 'xor' and i.ops[1]['k'] == 'c' and int(i.ops[1]['v']) in (1, -1) and i.ops[0]['k'] == 'i': i = f.inst[i.ops[0]['v']]; taken = not taken
    def sz(o):
        if o['k'] != 'i': return None
        j = f.inst[o['v']]
        if j.op in ('zext', 'trunc', 'sext', 'freeze'): return sz(j.ops[0])
        if j.op in ('call', 'invoke') and SIZE.search(j.dem) and S.canon(j.ops[0]) == root: return re.search(r'::(\w+)\(\)( const)?$', j.dem).group(1)
        if j.op == 'sub':
            a = [x for x in slice_of(f, o) if f.inst[x].op in ('call', 'invoke', 'load')]
            if a and all(sz({'k': 'i', 'v': x}) or f.inst[x].op == 'load' and S.canon({'k': 'i', 'v': x})[0][0] == 'ld' and S.canon({'k': 'i', 'v': x})[0][1][0] == root[0] for x in a): return 'size'
        return None
    if i.op in ('call', 'invoke'):
        mm = re.search(r'bool (__gnu_cxx|std)::operator(==|!=)<', i.dem)
        if mm and len(i.ops) >= 2:
            def held(o):
                if o['k'] != 'i': return None
                j = f.inst[o['v']]
                if j.op != 'alloca': return sz(o)
                v = {sz(k.ops[0]) for k in f.insts() if k.op == 'store' and k.ops[1]['k'] == 'i' and k.ops[1]['v'] == j.id}
                return v.pop() if len(v) == 1 else None
            a, b2 = held(i.ops[0]), held(i.ops[1])
            return a is not None and b2 is not None and a[-3:] != b2[-3:] and taken == (mm.group(2) == '==')
        return sz({'k': 'i', 'v': i.id}) == 'empty' and taken
    if i.op != 'icmp': return False
    x, y = i.ops; P = i.d['pred']
    if P in ('eq', 'ne') and {sz(x), sz(y)} <= {'begin', 'end', 'cbegin', 'cend', 'data'}: return taken == (P == 'eq')
    if x['k'] == 'c': x, y = y, x; P = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(P, P)
    if y['k'] != 'c' or sz(x) not in ('size', 'empty'): return False
    n = int(y['v']); rel = {'eq': lambda v: v == n, 'ne': lambda v: v != n, 'lt': lambda v: v < n, 'gt': lambda v: v > n, 'le': lambda v: v <= n, 'ge': lambda v: v >= n}[P if P in ('eq', 'ne') else P[1:]]
    if sz(x) == 'empty': return all(v == 1 for v in (0, 1) if rel(v) == taken)
    return all(v <= 1 for v in range(0, n + 3) if rel(v) == taken)


def on_every_path(m, f, S, site, root, byid):
    """no way from the entry to a return leaves the sort out, except with at most one element"""
    seen = set(); todo = [0]
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if any(j.id in byid and byid[j.id][1] in ('sort', 'stable_sort') and root in S.roots(j.ops[0]) for j in f.blocks[b]): continue
        if f.blocks[b][-1].op == 'ret': return False
        todo += [s for s in f.succ[b] if not few(f, S, b, s, root)]
    return True


def same_order(a, b):
    """the two tables give the same order on single elements: b sorted-by-a is usable for searching"""
    a = norm_tab(a); b = norm_tab(b)
    keys = sorted({k for t in (a, b) for s, _ in t for k in s}, key=repr)
    if len(keys) > 5: raise order.Undecided('keys')
    import itertools
    for sg in itertools.product((-1, 0, 1), repeat=len(keys)):
        s = dict(zip(keys, sg))
        x, y = order.lookup(a, s), order.lookup(b, s)
        if bool(y) and not bool(x): return False          # the searched order must be implied by the sorted order
        inv = {k: -v for k, v in s.items()}
        if bool(order.lookup(b, inv)) and bool(x): return False
    return True


def identity(m, R):
    """a table indexed by element number is filled through the element, not through the place it was sorted to"""
    for f in m.fns:
        if not re.search(r'get_views_indexes_ordered\(', f.dem): continue
        S = Sites(f); n = 0
        for i in f.insts():
            if i.op != 'store' or i.ops[0].get('t') != 'i32': continue
            dst = i.ops[1]
            if dst['k'] != 'i': continue
            ps = slice_of(f, i.ops[1]); pv = slice_of(f, i.ops[0])
            def diff(s):
                for x in s:
                    if f.inst[x].op == 'sub' and all(o['k'] == 'i' and f.inst[o['v']].op == 'ptrtoint' for o in f.inst[x].ops):
                        base = slice_of(f, f.inst[x].ops[1])
                        if not any(f.inst[y].op == 'alloca' for y in base) and any(o['k'] == 'a' for y in base for o in ir.operands(f.inst[y])): return True
                return False
            if not diff(pv): continue
            n += 1
            if diff(ps): R.ok('%s: indexed by the element' % describe(i))
            else: R.bad(describe(i), 'identity', 'the class of an element is written at the place the element was sorted to, but is read at the element\'s own number')
        if n == 0: R.coverage['identity'] = 'no store of an element number found in get_views_indexes_ordered'


def slice_of(f, o):
    seen = set(); st = [o]
    while st:
        x = st.pop()
        if x['k'] != 'i' or x['v'] in seen: continue
        seen.add(x['v']); i = f.inst[x['v']]
        st += [y for y in ir.operands(i)]
    return seen


_cache = {}


def everything():
    if 'r' not in _cache:
        libs, exes = ir.jamroot_units()
        _cache['r'] = pmap(unit, [(libs, 'library')] + [([v], k) for k, v in sorted(exes.items())])
    return _cache['r']


def orders(thorough):
    R = Result(); und = []
    for r in everything(): R.merge(r[0]); und += [u for u in r[2] if u not in und]
    img = R.coverage.pop('image', [])
    ic = [x for x in img if x[0] == 'image_compare']; eq = [x for x in img if x[0] == '==']
    R.need(ic or R.violations, 'image_compare not found or not decided: ' + '; '.join(und)[:300])
    if eq and ic and eq[0][1] != ic[0][1]: R.bad(eq[0][2], 'order', 'Image equality looks at %s while image_compare looks at %s' % (eq[0][1], ic[0][1]))
    elif eq: R.ok('Image == and image_compare look at the same keys')
    R.coverage['not_decided'] = und
    R.need(R.obligations >= 15, 'only %d comparison functions decided: %s' % (R.obligations, '; '.join(und)[:400]))
    R.coverage['explanation'] = 'each comparison function reachable from a standard algorithm or ordered container is tabulated over the signs of its key comparisons and the table is decided on all arrangements of three elements'
    R.assumptions = ['scores are not NaN', 'std::string, std::vector and arithmetic comparisons are the total orders the standard gives them']
    return R


def sorted_ranges(thorough):
    R = Result(); ctors = []; searches = []; decided = {}; delegated = {}
    for r in everything():
        R.merge(r[1]); ctors += r[3]; searches += r[4]
        for k, v in r[5].items(): decided.setdefault(k, []).extend(v)
        for k, v in r[6].items(): delegated.setdefault(k, set()).update(v)
    for cls, off, t, name, where in searches:
        short = cls.split('::')[-1]
        c = [x for x in ctors if re.search(r'(^|::)%s::%s(<|$)' % (re.escape(short), re.escape(short)), x[0])]
        if not c and where in decided: continue
        if not c: 
            R.bad(where, 'sorted', 'std::%s searches a member of %s that no constructor of it sorts' % (name, short)); continue
        for x in c:
            if x[2] is None: delegated.setdefault(where, set()).add('order of the sort at %s not decided' % x[3]); continue
            if x[2] == 'some': R.bad(where, 'sorted', 'std::%s searches what the constructor does not sort on every way (%s)' % (name, x[3]))
            elif same_order(x[2], t): R.ok('%s: %s in what the constructor sorted at %s' % (where, name, x[3])); decided.setdefault(where, []).append(x[3])
            else: R.bad(where, 'sorted', 'std::%s searches by another key or direction than the sort at %s' % (name, x[3]))
    for k, v in sorted(delegated.items()):
        if k not in decided and v == {'belongs to the caller'}: R.bad(k, 'sorted', 'a range is searched or cleared of duplicates, and no caller sorts it before')
    R.coverage['not_decided'] = ['%s: %s' % (k, ', '.join(sorted(v))) for k, v in sorted(delegated.items()) if k not in decided]
    R.coverage['explanation'] = 'for every duplicate removal and binary search the sorts that reach it are found on the control flow graph and their order is compared with the predicate of the search'
    R.need(R.obligations >= 8, 'only %d obligations' % R.obligations)
    R.assumptions = ['the views of a glyph file are in the order normalize_glyphs wrote them', 'scores are not NaN']
    return R
