"""C04: the character segmentation, proved modularly: contract of make_box_character, and its use at every call site."""
import re
from .. import ir
from ..absint import Engine, conv
from ..models import Models
from ..poly import Poly
from ..run import Result, pmap, consistent
from ..ir import params
from .features import module, region

SIDE = 1 << 15
ANCHOR = r'ppocr::make_box_character\('
SECTION = r'ppocr::Image::section\(|ppocr::section\('


class BoxModels(Models):
    """make_box_character itself: the bounds are those of the image, the start column lies inside or just behind it"""
    def __init__(self): super().__init__(side=SIDE, minside=1)

    def setup(self, E):
        super().setup(E)
        g = lambda n, o: E.U(('m', ('init', (('arg', n), o, 4))), 32)
        kinds = [re.search(r'ppocr::(\w+)', p.get('di') or '') for p in E.fn.params]
        kinds = [k.group(1) if k else None for k in kinds]
        if kinds != ['Image', 'Index', 'Bounds']: raise ir.AnalysisBroken('make_box_character no longer takes an image, an index and bounds')
        W, H = self.images[(('arg', 0), 0)]
        self.W, self.H, self.x0 = W, H, g(1, 0)
        E.entry_facts += [W - g(1, 0), g(1, 4), -g(1, 4)]
        # the bounds passed are those of the image: one and the same value
        for o in (0, 4): E.fwd[('m', ('init', (('arg', 2), o, 4)))] = ('m', ('init', (('arg', 0), 8 + o, 4)))
        E.reset_memo()


def returned(E, t):
    """the four 32-bit members of the returned box: x, y, width, height"""
    v = conv(t.ops[0]); parts = {}
    while v[0] == 'i' and E.fn.inst[v[1]].op == 'insertvalue':
        i = E.fn.inst[v[1]]
        parts.setdefault(tuple(i.d['xi']), conv(i.ops[1])); v = conv(i.ops[0])
    if set(parts) != {(0,), (1,)}: raise ir.AnalysisBroken('the box is not returned in two words')
    out = []
    for k in ((0,), (1,)):
        for lo in (0, 32):
            b = E.bits(parts[k], lo, 32)
            if b is None: raise ir.AnalysisBroken('cannot read the returned box')
            out.append(E.U(b, 32))
    return out


def contract():
    R = Result()
    fs = [f for f in module().find('^' + ANCHOR) if 'operator()' not in f.dem]
    if len(fs) != 1: raise ir.AnalysisBroken('make_box_character not found')
    f = fs[0]; M = BoxModels(); E = Engine(f, M)

    def posts(E):
        for bb in f.reach:
            t = f.blocks[bb][-1]
            if t.op != 'ret': continue
            x, y, w, h = returned(E, t)
            yield t, 'the box starts at or right of the requested column', x - M.x0
            yield t, 'left edge + width <= image width', M.W - x - w
            yield t, 'top edge + height <= image height', M.H - y - h
            yield t, 'top edge not above the image', y
    def done(E): return M.discharged(E) and all(E.prove(g, (t.bb, t.idx), depth=5) for t, _, g in posts(E))
    E.solve(done)
    consistent(E)
    for o in M.obligations(E):
        i, what, base, off, ln, s, wr = o
        n = region(E, base); R.coverage['accesses_to_' + n.replace(' ', '_')] = R.coverage.get('accesses_to_' + n.replace(' ', '_'), 0) + 1
        if M.holds(E, o): R.ok('%s of %s at %s: 0 <= %s and offset + length <= %s' % (what, n, i.loc(), E.show(off)[:80], E.show(s)[:60]))
        else: R.bad('%s in make_box_character' % i.loc(), 'in-bounds', '%s of %s not within its extent: offset %s, extent %s' % (what, n, E.show(off)[:160], E.show(s)[:80]))
    for i, what, base in M.skipped: R.bad('%s in make_box_character' % i.loc(), 'in-bounds', '%s through an address that cannot be tied to the image' % what)
    n = 0
    for t, what, g in posts(E):
        n += 1
        if E.prove(g, (t.bb, t.idx), depth=5): R.ok('at the return: ' + what)
        else: R.bad('make_box_character', 'box', 'not guaranteed: ' + what)
    R.need(n >= 4, 'make_box_character never returns')
    R.need(R.coverage.get('accesses_to_image_pixels', 0) >= 3, 'hardly any pixel access in make_box_character')
    R.coverage['functions'] = 1; R.coverage['loops'] = len(f.loops); R.coverage['invariants'] = sum(len(x) for x in E.inv.values())
    return R


class ConstModels(Models):
    """a call writes to what it is given by non-const pointer or reference, and to nothing else of the caller's locals"""
    def effects(self, E, i):
        r = super().effects(E, i)
        if r is not None: return r
        if not i.callee: return None
        ps, const = params(i.dem)
        out = []
        n = len(i.ops)
        for k, o in enumerate(i.ops):
            if o.get('t') != 'ptr': continue
            at = i.d['pattr'][k] if k < len(i.d.get('pattr', [])) else {}
            if at.get('ro') or at.get('byval'): continue
            if not at.get('sret') and ps is not None:
                j = k - (n - len(ps))
                sret = any(a.get('sret') for a in i.d.get('pattr', []))
                if n - len(ps) in (0, 1, 2) and j >= 0 and re.search(r'\bconst ?[&*]$', ps[j]): continue
                if j == -1 and const and n - len(ps) == 1 + sret: continue
            p = E.P(conv(o))
            if p is None: continue
            lo, hi = None, None
            ext = E.subobject(o, p)
            if ext is not None: lo, hi = ext
            elif at.get('sret') and p[1].is_const(): lo = int(p[1].cval()); hi = lo + at.get('sz', 0)
            out.append((p[0], lo, hi))
        return out


class UseModels(ConstModels):
    """callers: each box handed out satisfies the contract"""
    def __init__(self): super().__init__(side=SIDE, image_params=False); self.post = None

    def boxcalls(self, E): return [i for i in E.fn.calls() if re.search(ANCHOR, i.dem)]

    def field(self, E, i, k, off):
        """32-bit member at byte off of the object argument k designates, when call i is made"""
        p = E.P(conv(i.ops[k]))
        if p is None or not p[1].is_const(): return None
        v = E._read((p[0], int(p[1].cval()) + off, 4), i.bb, i.idx, 'i32')
        return None if v == ('undef',) else E.U(v, 32)

    def next(self, E, x, h, b):
        """value of x, a quantity of loop h, in the iteration after the one that leaves by latch b"""
        sub = {}
        for a in x.atoms():
            k = E.names[a]
            if k[0] == 'U' and E.is_phi(k[1]) and E.phi_block(k[1]) == h:
                q = E.latch_value('U', k[1], b)
                if q is None: return None
                sub[a] = q
            elif E.varying(a, h): return None
        return x.subst(sub)

    def slice_roots(self, E):
        out = []
        for i in self.boxcalls(E):
            for k, off in ((0, 8), (0, 12), (1, 0), (1, 4), (2, 0), (2, 4)):
                p = self.field(E, i, k, off)
                for a in p.atoms() if p is not None else ():
                    if E.names[a][0] in ('U', 'S'): out.append(E.names[a][1])
        return out

    def candidates(self, E, h, K, pa, init, hat):
        out = super().candidates(E, h, K, pa, init, hat)
        for i in self.boxcalls(E):
            if i.bb not in E.fn.loops[h]['body']: continue
            W = self.field(E, i, 0, 8)
            if W is not None: out += [W - Poly.atom(a) for a, kind, v in pa if kind == 'U']
        return out

    def member(self, E, c, k):
        """the k-th 32-bit member (x, y, width, height) of the box returned by call c"""
        for i in E.fn.insts():
            if i.op == 'extractvalue' and i.ops[0]['k'] == 'i' and i.ops[0]['v'] == c.id and i.d['xi'] == [k // 2]:
                return E.U(E.bits(('i', i.id), 32 * (k % 2), 32), 32)
        return None

    def detect(self, E):
        """the contract of the segmentation, for every box obtained"""
        self.post = {}
        for c in self.boxcalls(E):
            W, H = self.field(E, c, 0, 8), self.field(E, c, 0, 12)
            m = [self.member(E, c, n) for n in range(4)]
            fs = []
            for x, w, s in ((m[0], m[2], W), (m[1], m[3], H)):
                if None not in (x, w, s): fs.append(s - x - w)
                for a in s.atoms() if s is not None else (): self.post.setdefault(a, []).append(Poly.const(SIDE) - s)
            x0 = self.field(E, c, 1, 0)
            if m[0] is not None and x0 is not None: fs.append(m[0] - x0)
            # known of the result only: nothing that exists before the call may be judged by it
            own = set(a for x in m if x is not None for a in x.atoms())
            for f in fs:
                for a in f.atoms() & own: self.post.setdefault(a, []).append(f)
        E.reset_memo()

    def atom_facts(self, E, a):
        return super().atom_facts(E, a) + (self.post.get(a, []) if self.post else [])


def uses(src):
    R = Result()
    m = ir.dump([src], reach=[ANCHOR + '|' + SECTION])
    # every call is judged in the outermost function it was inlined into
    fs = [f for f in m.fns if any(re.search(ANCHOR, i.dem) for i in f.calls())]
    def sites(f): return set((i.d.get('file'), i.d.get('line')) for i in f.calls() if re.search(ANCHOR, i.dem))
    tops = [f for f in fs if f.dem == 'main']
    seen = set().union(*(sites(f) for f in tops)) if tops else set()
    tops += [f for f in fs if f not in tops and not sites(f) <= seen]
    for f in tops:
        M = UseModels(); E = Engine(f, M)
        name = '%s (%s)' % (f.dem.split('(')[0], src)

        def obl(E):
            for i in M.boxcalls(E):
                W, H = M.field(E, i, 0, 8), M.field(E, i, 0, 12)
                x, y, bw, bh = M.field(E, i, 1, 0), M.field(E, i, 1, 4), M.field(E, i, 2, 0), M.field(E, i, 2, 4)
                for what, a, b in (('the bounds passed have the width of the image', bw, W), ('the bounds passed have the height of the image', bh, H)):
                    yield i, what, None if a is None or b is None else [a - b, b - a]
                yield i, 'the search starts on the first row', None if y is None else [y, -y]
                yield i, 'the search starts at a column of the image or just behind it', None if x is None or W is None else [W - x, x]
                loops = [h for h in E.fn.loops if i.bb in E.fn.loops[h]['body']]
                if loops and x is not None:
                    h = min(loops, key=lambda h: len(E.fn.loops[h]['body']))
                    for b in E.fn.loops[h]['latches']:
                        nxt = M.next(E, x, h, b)
                        yield E.fn.blocks[b][-1], 'the next search starts further right than this one', None if nxt is None else [nxt - x - 1]
            for i in E.fn.calls():
                if not re.search(SECTION, i.dem): continue
                k = 1 if i.d['pattr'] and i.d['pattr'][0].get('sret') else 0
                o = (2, 3) if re.search(r'ppocr::section\(', i.dem) else (k + 1, k + 2)
                W, H = M.field(E, i, k, 8), M.field(E, i, k, 12)
                x, y, w, h = M.field(E, i, o[0], 0), M.field(E, i, o[0], 4), M.field(E, i, o[1], 0), M.field(E, i, o[1], 4)
                yield i, 'the section cut out lies inside the image horizontally', None if None in (x, w, W) else [W - x - w]
                yield i, 'the section cut out lies inside the image vertically', None if None in (y, h, H) else [H - y - h]
        def done(E): return all(gs is not None and all(E.prove(g, (i.bb, i.idx), depth=4) for g in gs) for i, _, gs in obl(E))
        E.solve(done)
        consistent(E)
        for i, what, gs in obl(E):
            if gs is not None and all(E.prove(g, (i.bb, i.idx), depth=4) for g in gs): R.ok('%s: %s' % (i.loc(), what))
            else: R.bad('%s in %s' % (i.loc(), name), 'use', 'not guaranteed: ' + what)
        R.coverage['call_sites'] = R.coverage.get('call_sites', 0) + len(M.boxcalls(E))
        R.coverage['tools'] = R.coverage.get('tools', 0) + 1
    return R


def work(item): return contract() if item is None else uses(item)


def callers():
    libs, exes = ir.jamroot_units()
    return [src for n, src in sorted(exes.items())]


def segmentation(thorough):
    R = Result('proof')
    module()
    for r in pmap(work, [None] + callers()): R.merge(r)
    R.coverage['rule'] = ('loop invariants over make_box_character give its contract (in-bounds reads; box inside the image, at or right of the start column); '
                          'every caller, with everything leading to the call inlined, is proved to meet the precondition and to use the box within the contract')
    R.assumptions += ['image sides between 1 and %d' % SIDE, 'an Image holds width*height pixels (decided by C25)', 'callees do not write through const pointers or references']
    R.need(R.coverage.get('call_sites', 0) >= 1, 'no tool calls make_box_character')
    return R
