"""Library and class models used by the abstract interpreter, and memory/division obligations."""
import re
from . import ir
from .poly import Poly, ZERO
from .absint import Engine, conv, width

ALGO = re.compile(r'(?:^|[ &*])std::(copy|copy_backward|move|fill|count_if|count|all_of|any_of|none_of|find|find_if|find_if_not|equal|'
                  r'accumulate|reverse|for_each|max_element|min_element|sort|stable_sort|unique|lower_bound|upper_bound|adjacent_find|swap_ranges|mismatch|replace|replace_if|'
                  r'copy_n|fill_n|transform|copy_if|remove_if|inner_product|iota|lexicographical_compare)<')
NEW = ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc')
PURE = re.compile(r'(strerror|__errno_location|__cxa_|std::runtime_error|__clang_call_terminate|_Unwind|std::__cxx11::basic_string|std::allocator|std::__new_allocator|operator delete|llvm\.eh|std::__throw|std::terminate)')


class Models:
    def __init__(self, side=None, glyph=False, image_params=True, minside=0):
        self.side = side          # bound on glyph image sides (None: only the image invariant w*h < 2^32)
        self.minside = minside
        self.image_params = image_params
        self.bufs = {}            # (base, off of pointer) -> (off of capacity, elem size): owning buffer with capacity field
        self.known_elem = {}
        self.divisors = False     # decide divisors; ranges handed to algorithms are then assumed well-formed (decided by the memory rule)

    def setup(self, E):
        self.E = E
        self.sz = {}
        self.images = {}
        fn = E.fn
        for n, p in enumerate(fn.params):
            di = p.get('di') or ''
            if re.search(r'(^|\s)ppocr::Image&', di) and self.image_params:
                self.add_image(E, ('arg', n))

    def add_image(self, E, obj, off=0, entry=True):
        """class invariant of Image at object `obj`+off: data_ points to width*height pixels"""
        w = E.U(('m', ('init', (obj, off + 8, 4))), 32); h = E.U(('m', ('init', (obj, off + 12, 4))), 32)
        self.images[(obj, off)] = (w, h)
        base = ('pix', obj, off)
        E.region_size[base] = w * h
        if not self.side: E.entry_facts.append(Poly.atom(E.T31) * 2 - 1 - w * h)
        if self.side:
            E.entry_facts += [Poly.const(self.side) - w, Poly.const(self.side) - h]
        if self.minside:
            E.entry_facts += [w - self.minside, h - self.minside]

    def linked(self, E, a, b):
        """image b is the 90-degree rotation of image a: sides swapped"""
        wa, ha = self.images[(a, 0)]; wb, hb = self.images[(b, 0)]
        E.entry_facts += [wa - hb, hb - wa, ha - wb, wb - ha]

    def memptr(self, E, v):
        k = v[1]
        if k[0] == 'init':
            (base, off, size) = k[1]
            if (base, off) in self.images: return (('pix', base, off), ZERO)
            if size == 8 and (base, off) in self.bufs:
                b = ('buf', base, off)
                capoff, es = self.bufs[(base, off)]
                if b not in E.region_size:
                    E.region_size[b] = E.U(('m', ('init', (base, capoff, 8))), 64) * es
                return (b, ZERO)
        return None

    # -- calls ---------------------------------------------------------------------------------
    def callee(self, i): return i.dem

    def effects(self, E, i):
        d = i.dem
        c = i.callee or ''
        if c in NEW or PURE.search(d) or PURE.search(c): 
            # constructors/string helpers only touch the object they are invoked on
            if c in NEW or 'operator delete' in d or c.startswith('__cxa') or 'strerror' in c or 'errno' in c: return []
            p = E.P(conv(i.ops[0])) if i.ops and i.ops[0].get('t') == 'ptr' else None
            return [(p[0], None, None)] if p else []
        if d.startswith('std::from_chars') or 'std::from_chars' in d.split('(')[0] or re.search(r'from_chars<', d):
            p = E.P(conv(i.ops[2]))
            if p and p[1].is_const(): return [(p[0], int(p[1].cval()), int(p[1].cval()) + 4)]
            return None
        if c == 'read':
            p = E.P(conv(i.ops[1])); return [(p[0], None, None)] if p else None
        if c in ('open', 'close'): return []
        if c in ('fstat', 'fstat64'):
            p = E.P(conv(i.ops[1])); return [(p[0], None, None)] if p else None
        if re.match(r'llvm\.(memset|memcpy|memmove)', c):
            p = E.P(conv(i.ops[0]))
            if p is None: return None
            n = conv(i.ops[2])
            if p[1].is_const() and n[0] == 'c': return [(p[0], int(p[1].cval()), int(p[1].cval()) + n[2])]
            return [(p[0], None, None)]
        if c.startswith('llvm.'): return []
        m = ALGO.search(d)
        if m:
            a = m.group(1)
            if a in ('count_if', 'count', 'all_of', 'any_of', 'none_of', 'find', 'find_if', 'find_if_not', 'equal', 'accumulate', 'max_element', 'min_element', 'lower_bound', 'upper_bound', 'adjacent_find', 'mismatch', 'inner_product', 'lexicographical_compare'):
                return []
        return None

    def first_arg(self, i, k): return conv(i.ops[k])

    def pointer_source(self, E, i):
        if i.op == 'extractvalue' and i.d['xi'] == [0] and i.ops[0]['k'] == 'i':
            c = E.fn.inst[i.ops[0]['v']]
            if c.op in ('call', 'invoke') and 'from_chars' in c.dem: return conv(c.ops[0])
        if i.op in ('call', 'invoke'):
            m = ALGO.search(i.dem)
            if m:
                a = m.group(1)
                if a in ('copy', 'move', 'copy_backward', 'transform', 'copy_if') and len(i.ops) >= 3: return conv(i.ops[2])
                if a in ('find', 'find_if', 'find_if_not', 'max_element', 'min_element', 'unique', 'lower_bound', 'upper_bound', 'adjacent_find', 'remove_if'): return conv(i.ops[0])
                if a == 'copy_n': return conv(i.ops[2])
                if a == 'fill_n': return conv(i.ops[0])
            if i.dem.startswith('std::__cxx11::basic_string') : return None
        return None

    def pointer(self, E, i):
        c = i.callee or ''
        if c in NEW:
            b = ('new', i.id)
            E.region_size.setdefault(b, None)
            return (b, ZERO)
        if i.op == 'extractvalue':
            s = self.pointer_source(E, i)
            if s is not None:
                c = E.fn.inst[i.ops[0]['v']]
                p, q = E.P(conv(c.ops[0])), E.P(conv(c.ops[1]))
                if p is None: return None
                a = E.atom(('off', ('i', i.id))); E.adef.setdefault(a, ('i', i.id))
                return (p[0], Poly.atom(a))
            return None
        m = ALGO.search(i.dem)
        if m and len(i.ops) >= 2:
            a = m.group(1)
            if a in ('copy', 'move') and len(i.ops) == 3 and i.ops[0]['t'] == 'ptr' and i.ops[2]['t'] == 'ptr':
                p, q, o = (E.P(conv(x)) for x in i.ops[:3])
                if p and q and o and p[0] == q[0] and self.same_elem(i): return (o[0], o[1] + q[1] - p[1])
            s = self.pointer_source(E, i)
            if s is not None:
                p = E.P(s)
                if p:
                    x = E.atom(('off', ('i', i.id))); E.adef.setdefault(x, ('i', i.id))
                    return (p[0], Poly.atom(x))
        return None

    def same_elem(self, i):
        m = re.search(r'std::(?:copy|move)<([^,<>]*(?:<[^<>]*>)?)\s*,\s*([^,<>]*)>', i.dem)
        if not m: return True
        strip = lambda s: s.replace('const', '').replace('*', '').replace(' ', '').replace('unsignedchar', 'char').replace('signedchar', 'char')
        return strip(m.group(1)) == strip(m.group(2))

    def intval(self, E, i, kind):
        if i.op == 'extractvalue' and i.ops[0]['k'] == 'i':
            c = E.fn.inst[i.ops[0]['v']]
            if (c.callee or '').startswith('llvm.umul.with.overflow') and i.d['xi'] == [0] and kind == 'U':
                return None
        return None

    def int_atom(self, E, v, a, w):
        if v[0] == 'i':
            i = E.fn.inst[v[1]]
            if i.op == 'load' and width(i.t) == 8: return
    def int_atom_s(self, E, v, a, w):
        if v[0] == 'i':
            i = E.fn.inst[v[1]]
            if i.callee == 'read':
                A = Poly.atom(a)
                E.afacts[a].append(A + 1)
                E.afacts[a].append(E.U(conv(i.ops[2])) - A)

    def atom_facts(self, E, a):
        k = E.names[a]
        out = []
        if k[0] == 'off' and k[1][0] == 'i':
            i = E.fn.inst[k[1][1]]
            A = Poly.atom(a)
            if i.op == 'extractvalue' and i.ops[0]['k'] == 'i':
                c = E.fn.inst[i.ops[0]['v']]
                p, q = E.P(conv(c.ops[0])), E.P(conv(c.ops[1]))
                if p and q and p[0] == q[0]: out += [A - p[1], q[1] - A]
            elif i.op in ('call', 'invoke'):
                m = ALGO.search(i.dem)
                if m and m.group(1) in ('find', 'find_if', 'find_if_not', 'max_element', 'min_element', 'unique', 'lower_bound', 'upper_bound', 'adjacent_find', 'remove_if'):
                    p, q = E.P(conv(i.ops[0])), E.P(conv(i.ops[1]))
                    if p and q and p[0] == q[0]: out += [A - p[1], q[1] - A]
        return out

    def cond(self, E, i, truth): return None

    def detect(self, E):
        if not self.divisors: return
        for i in E.fn.calls():
            m = ALGO.search(i.dem)
            if m and len(i.ops) >= 2 and i.ops[0].get('t') == 'ptr' and i.ops[1].get('t') == 'ptr':
                p, q = E.P(conv(i.ops[0])), E.P(conv(i.ops[1]))
                if p and q and p[0] == q[0]: E.extra_facts.setdefault(i.bb, []).append(q[1] - p[1])

    def edge(self, E, p, b):
        t = E.fn.blocks[p][-1]
        return None

    def candidates(self, E, h, K, pa, init, hat): return []

    # -- region sizes --------------------------------------------------------------------------
    def size_of(self, E, base):
        """byte size of a region as a polynomial, or None when it is not tracked"""
        if base in self.sz: return self.sz[base]
        self.sz[base] = None
        r = E.region_size.get(base)
        if r is None:
            if base[0] == 'al':
                s = E.fn.inst[base[1]].d['sz']; r = Poly.const(s) if s >= 0 else None
            elif base[0] == 'arg':
                s = E.fn.params[base[1]].get('deref') or 0; r = Poly.const(s) if s > 0 else None
            elif base[0] == 'new':
                i = E.fn.inst[base[1]]
                r = self.new_size(E, i)
            elif base[0] == 'phib':
                r = self.phib_size(E, base)
        self.sz[base] = r
        return r

    def new_size(self, E, i):
        v = E.find(conv(i.ops[0]))
        # select(overflow, -1, n*size): the allocation throws when it overflows
        if v[0] == 'i':
            j = E.fn.inst[v[1]]
            if j.op == 'select' and conv(j.ops[1]) == ('c', 64, (1 << 64) - 1):
                v = E.find(conv(j.ops[2])); j = E.fn.inst[v[1]] if v[0] == 'i' else None
            if j is not None and j.op == 'extractvalue' and j.ops[0]['k'] == 'i':
                c = E.fn.inst[j.ops[0]['v']]
                if (c.callee or '').startswith('llvm.umul.with.overflow'):
                    return E.U(conv(c.ops[0])) * E.U(conv(c.ops[1]))
        return E.U(v)

    def phib_size(self, E, base):
        """merged owner pointer: a fresh size atom bounded below by what every incoming edge guarantees"""
        v = base[1]
        if not E.is_phi(v): return None
        b = E.phi_block(v)
        if b in E.fn.loops: return None
        a = E.atom(('def', b, 'size', v)); E.adef[a] = None
        A = Poly.atom(a)
        lows = []
        for p, x in E.phi_incoming(v).items():
            x = E.find(x)
            if x == ('undef',): continue
            q = E.P(x)
            if q is None: return None
            s = self.size_of(E, q[0])
            if s is None: return None
            lows.append((p, s - q[1]))
        # candidate lower bounds: lengths used with this pointer afterwards and guarded quantities
        cands = set()
        for i in E.fn.calls():
            c = i.callee or ''
            if re.match(r'llvm\.(memset|memcpy|memmove)', c):
                q = E.P(conv(i.ops[0]))
                if q and q[0] == base: cands.add(E.U(conv(i.ops[2])))
        for p, s in lows: cands.add(s)
        fs = []
        for c in cands:
            good = all(E.prove(s - c, (p, 0), depth=1) for p, s in lows)
            if good: fs.append(A - c)
        E.afacts[a] = [A] + fs
        return A

    # -- obligations ---------------------------------------------------------------------------
    def accesses(self, E):
        """(inst, description, ptr value operand, length poly in bytes, iswrite)"""
        fn = E.fn
        for i in fn.insts():
            if i.op == 'load': yield i, 'read', conv(i.ops[0]), Poly.const(i.d['sz']), False
            elif i.op == 'store': yield i, 'write', conv(i.ops[1]), Poly.const(i.d['sz']), True
            elif i.op in ('call', 'invoke'):
                c = i.callee or ''
                if re.match(r'llvm\.mem(set|cpy|move)', c):
                    n = E.U(conv(i.ops[2]))
                    yield i, c.split('.')[1] + ' destination', conv(i.ops[0]), n, True
                    if 'memset' not in c: yield i, c.split('.')[1] + ' source', conv(i.ops[1]), n, False
                elif c == 'read': yield i, 'read() buffer', conv(i.ops[1]), E.U(conv(i.ops[2])), True
                elif c == 'write': yield i, 'write() buffer', conv(i.ops[1]), E.U(conv(i.ops[2])), False
                elif re.search(r'std::(istream|basic_istream<.*>)::read\(', i.dem): yield i, 'istream::read', conv(i.ops[1]), E.S(conv(i.ops[2])), True
                elif re.search(r'std::(ostream|basic_ostream<.*>)::write\(', i.dem): yield i, 'ostream::write', conv(i.ops[1]), E.S(conv(i.ops[2])), False
                elif 'from_chars' in i.dem and len(i.ops) >= 3:
                    p, q = E.P(conv(i.ops[0])), E.P(conv(i.ops[1]))
                    if p and q: yield i, 'from_chars range', conv(i.ops[0]), (q[1] - p[1]) if p[0] == q[0] else None, False
                else:
                    m = ALGO.search(i.dem)
                    if m and len(i.ops) >= 2 and i.ops[0].get('t') == 'ptr':
                        a = m.group(1)
                        if a in ('copy_n', 'fill_n'):
                            n = E.U(conv(i.ops[1])) * self.elem(i)
                            yield i, a + ' range', conv(i.ops[0]), n, a == 'fill_n'
                            if a == 'copy_n': yield i, a + ' destination', conv(i.ops[2]), n, True
                            continue
                        if i.ops[1].get('t') != 'ptr': continue
                        p, q = E.P(conv(i.ops[0])), E.P(conv(i.ops[1]))
                        if not p or not q: continue
                        n = (q[1] - p[1]) if p[0] == q[0] else None
                        yield i, a + ' range', conv(i.ops[0]), n, a in ('fill', 'reverse', 'sort', 'unique')
                        if a in ('copy', 'move', 'transform', 'swap_ranges') and i.ops[2].get('t') == 'ptr':
                            yield i, a + ' destination', conv(i.ops[2]), n, True
                        if a in ('equal', 'mismatch', 'inner_product') and i.ops[2].get('t') == 'ptr':
                            four = a != 'inner_product' and len(i.ops) >= 4 and i.ops[3].get('t') == 'ptr' and re.search(r'std::%s<([^,]*), \1>\(([^,]*), \2, \2, \2' % a, i.dem)
                            if not four: yield i, a + ' second range', conv(i.ops[2]), n, False

    def elem(self, i):
        return ir.elem_size(i.dem, 1)

    def bases(self, E, v):
        p = E.P(v)
        return p[0] if p else None

    def obligations(self, E):
        """(inst, what, base, off, len, size, write) for every access to a region of known extent; the rest in self.skipped"""
        self.skipped = []
        for i, what, ptr, ln, wr in self.accesses(E):
            p = E.P(ptr)
            if p is None: self.skipped.append((i, what, None)); continue
            s = self.size_of(E, p[0])
            if s is None: self.skipped.append((i, what, p[0])); continue
            yield i, what, p[0], p[1], ln, s, wr

    def holds(self, E, o):
        i, what, base, off, ln, s, wr = o
        at = (i.bb, i.idx)
        return ln is not None and all(E.prove(g, at) or E.prove(g, at, depth=7) for g in (off, s - off - ln, ln))

    def discharged(self, E):
        return all(self.holds(E, o) for o in self.obligations(E))
