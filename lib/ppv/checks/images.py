"""C25: copying, cutting out, rotating, comparing, reading and writing images, proved from the class invariant."""
import re
from .. import ir
from ..absint import Engine, conv
from ..models import Models, ALGO
from ..poly import Poly, ZERO
from ..run import Result, pmap, consistent
from .features import module, region
from .segment import ConstModels, SIDE

# function, what its result must contain
ROOTS = [
    (r'^ppocr::section\(ppocr::Image const&, char\*', 'cut'),
    (r'^ppocr::Image::section\(', 'cut'),
    (r'^ppocr::Image::clone\(', 'copy'),
    (r'^ppocr::rotate90\(ppocr::Image const&, char\*', 'turn'),
    (r'^ppocr::Image::rotate90\(', 'turn'),
    (r'^ppocr::image_from_string\([^)]*\)$', 'fill'),
    (r'^ppocr::operator==\(ppocr::Image const&, ppocr::Image const&', None),
    (r'^ppocr::operator<<\(std::ostream&, ppocr::Image const&', None),
    (r'^ppocr::loader2::read_img\(', None),
    (r'^ppocr::loader2::write_img\(', None),
]


class ImageModels(ConstModels):
    def __init__(self, side): super().__init__(side=side, minside=1 if side else 0, image_params=False); self.src = self.dst = None

    def setup(self, E):
        super().setup(E)
        g = lambda n, o: E.U(('m', ('init', (('arg', n), o, 4))), 32)
        self.out = None; self.idx = self.bnd = None; raw = []
        for n, p in enumerate(E.fn.params):
            di = p.get('di') or ''
            if p['sret']: self.out = ('arg', n)
            elif re.search(r'ppocr::Image ?[&*]$', di):
                if 'const' in di: self.add_image(E, ('arg', n)); self.src = self.src or ('arg', n)
                else: self.out = ('arg', n)
            elif re.search(r'ppocr::Index ?&$', di): self.idx = (g(n, 0), g(n, 4))
            elif re.search(r'ppocr::Bounds ?&$', di): self.bnd = (g(n, 0), g(n, 4))
            elif re.search(r'char ?\*$', di): raw.append((n, 'const' in di))
        if self.side:
            for x in (self.idx or ()): E.entry_facts += [Poly.const(self.side) - x]
            for x in (self.bnd or ()): E.entry_facts += [Poly.const(self.side) - x]
        if self.src is not None:
            W, H = self.images[(self.src, 0)]
            if self.idx and self.bnd: E.entry_facts += [W - self.idx[0] - self.bnd[0], H - self.idx[1] - self.bnd[1]]
        for n, const in raw:
            w, h = self.bnd if self.bnd else self.images[(self.src, 0)]
            E.region_size[('arg', n)] = w * h
            if not const: self.dst = ('arg', n)


def nest(E, bb):
    """headers of the loops around bb, outermost first"""
    return sorted((h for h, L in E.fn.loops.items() if bb in L['body']), key=lambda h: -len(E.fn.loops[h]['body']))


def writes(E, dst):
    """(inst, destination offset, source pointer, length) of everything written to region dst"""
    for i in E.fn.insts():
        if i.op == 'store':
            p = E.P(conv(i.ops[1]))
            if p and p[0] == dst:
                v = E.find(conv(i.ops[0]))
                ld = E.fn.inst[v[1]] if v[0] == 'i' else None
                q = E.P(conv(ld.ops[0])) if ld is not None and ld.op == 'load' and ld.d['sz'] == 1 else None
                yield i, p[1], q, Poly.const(i.d['sz'])
        elif i.op in ('call', 'invoke'):
            c = i.callee or ''; m = ALGO.search(i.dem)
            if re.match(r'llvm\.mem(cpy|move)', c):
                p, q = E.P(conv(i.ops[0])), E.P(conv(i.ops[1]))
                if p and p[0] == dst: yield i, p[1], q, E.U(conv(i.ops[2]))
            elif m and m.group(1) in ('copy', 'move') and len(i.ops) == 3:
                p, q, o = (E.P(conv(x)) for x in i.ops)
                if o and o[0] == dst: yield i, o[1], q and p and p, (q[1] - p[1]) if p and q and p[0] == q[0] else None
            elif m and m.group(1) == 'copy_n':
                q, o = E.P(conv(i.ops[0])), E.P(conv(i.ops[2]))
                if o and o[0] == dst: yield i, o[1], q, E.U(conv(i.ops[1]))
            else:
                for o in i.ops:
                    if o.get('t') == 'ptr':
                        p = E.P(conv(o))
                        if p and p[0] == dst and 'operator delete' not in i.dem: yield i, p[1], None, None


def eq(E, a, b, at): return E.prove(a - b, at, depth=5) and E.prove(b - a, at, depth=5)


def whole(E, h, bb, n):
    """every way out of loop h (other than by an exception) is taken after exactly n rounds of block bb"""
    L = E.fn.loops[h]; K = Poly.atom(E.atom(('K', h)))
    if not all(E.fn.dominates(bb, b) for b in L['latches']): return False
    if bb != h and False: return False
    good = False
    for p in L['body']:
        t = E.fn.blocks[p][-1]
        for s in t.d.get('succ', []) if t.op in ('br', 'switch', 'invoke') else []:
            if s in L['body']: continue
            if t.op == 'invoke' and s == t.d['succ'][1]: continue
            done = E.fn.dominates(bb, p) and p != h or (p == h == bb)
            r = K + 1 if done else K
            ine, dis = E.block_facts(p); ei, ed = E.edge_facts(p, s)
            g = [r - n, n - r]
            if not all(E._prove(x, list(ine) + list(ei), list(dis) + list(ed), 5, False, p) for x in g): return False
            good = True
    return good


def shape(E, M, what, dst):
    """does the region dst receive exactly the pixels it must?  None or the reason why this is not established"""
    ws = list(writes(E, dst))
    if len(ws) != 1: return '%d writes to the result' % len(ws)
    i, D, q, n = ws[0]
    if q is None or n is None: return 'what is written at %s is not a pixel of the source' % i.loc()
    at = (i.bb, i.idx); hs = nest(E, i.bb)
    S = q[1]
    if what == 'fill':
        w, h = M.bnd
        if not hs: return None if eq(E, D, ZERO, at) and eq(E, S, ZERO, at) and eq(E, n, w * h, at) else 'the range copied is not the whole source'
        return 'loop' if not (len(hs) == 1 and eq(E, D, S, at) and whole(E, hs[0], i.bb, w * h) and eq(E, D, Poly.atom(E.atom(('K', hs[0]))), at)) else None
    W, H = M.images[(M.src, 0)]
    if q[0][0] != 'pix': return 'the source at %s is not the image' % i.loc()
    K = [Poly.atom(E.atom(('K', h))) for h in hs]
    if what in ('cut', 'copy'):
        x0, y0 = M.idx if what == 'cut' else (ZERO, ZERO)
        w, h = M.bnd if what == 'cut' else (W, H)
        if not hs:
            if what == 'copy' and eq(E, D, ZERO, at) and eq(E, S, ZERO, at) and eq(E, n, W * H, at): return None
            return 'a single range is not the whole section'
        if len(hs) == 1 and what == 'copy' and eq(E, n, Poly.const(1), at) and eq(E, D, K[0], at) and eq(E, S, K[0], at) and whole(E, hs[0], i.bb, W * H): return None
        if len(hs) == 1:
            if not eq(E, n, w, at): return 'a row of the section is not copied over its whole width'
            for r, inv in ((K[0], False), (h - 1 - K[0], True)):
                if eq(E, D, r * w, at) and eq(E, S, (y0 + r) * W + x0, at):
                    return None if whole(E, hs[0], i.bb, h) else 'not every row of the section is copied'
            return 'row r of the section does not come from row y + r, column x of the image'
        if len(hs) == 2 and eq(E, n, Poly.const(1), at):
            for r, c, a, b in ((K[0], K[1], h, w), (K[1], K[0], w, h)):
                if eq(E, D, r * w + c, at) and eq(E, S, (y0 + r) * W + x0 + c, at):
                    return None if whole(E, hs[0], inner_of(E, hs, i), a) and whole(E, hs[1], i.bb, b) else 'not every pixel of the section is copied'
            return 'pixel (c, r) of the section does not come from pixel (x + c, y + r) of the image'
        return 'unexpected loops around the copy'
    if what == 'turn':
        if len(hs) != 2 or not eq(E, n, Poly.const(1), at): return 'unexpected loops around the copy'
        for r, c, a, b in ((K[0], K[1], W, H), (K[1], K[0], H, W), (W - 1 - K[0], K[1], W, H)):
            if eq(E, D, r * H + c, at) and eq(E, S, c * W + (W - 1 - r), at):
                return None if whole(E, hs[0], inner_of(E, hs, i), a) and whole(E, hs[1], i.bb, b) else 'not every pixel is turned'
        return 'pixel (c, r) of the result does not come from pixel (width - 1 - r, c) of the image'


def inner_of(E, hs, i):
    """the block of the outer loop that stands for one complete run of the inner one"""
    return hs[1]


def result(E, M, t):
    """(data pointer, width, height) of the image delivered at return t"""
    rd = lambda off, sz, ty: E._read((M.out, off, sz), t.bb, t.idx, ty)
    d, w, h = rd(0, 8, 'ptr'), rd(8, 4, 'i32'), rd(12, 4, 'i32')
    return d, w, h


def outcomes(E, M, t):
    """the images delivered at return t, one per way of getting there: (instruction to reason at, data, width, height)"""
    todo = [(t.bb, t.idx)]; seen = set()
    while todo:
        bb, idx = todo.pop()
        if bb in seen: continue
        seen.add(bb)
        u = E.fn.blocks[bb][min(idx, len(E.fn.blocks[bb]) - 1)]
        v = [E.find(E._read((M.out, off, sz), bb, idx, ty)) for off, sz, ty in ((0, 8, 'ptr'), (8, 4, 'i32'), (12, 4, 'i32'))]
        at = set(x[1] for x in v if x[0] == 'mphi')
        if at and bb not in E.fn.loops:
            if at <= {bb} : todo += [(p, len(E.fn.blocks[p])) for p in E.fn.pred[bb]]; continue
            if len(E.fn.pred[bb]) == 1: todo += [(p, len(E.fn.blocks[p])) for p in E.fn.pred[bb]]; continue
        yield (u,) + tuple(v)


def one(k):
    pat, what = ROOTS[k]
    R = Result()
    fs = [f for f in module().find(pat) if 'operator()' not in f.dem]
    if len(fs) != 1: raise ir.AnalysisBroken('image operation %s not found' % pat)
    f = fs[0]
    M = ImageModels(None if 'read_img' in pat or 'write_img' in pat else SIDE)
    E = Engine(f, M)
    name = f.dem.split('(')[0]

    def rets():
        for bb in f.reach:
            t = f.blocks[bb][-1]
            if t.op == 'ret': yield t

    def delivered(E):
        """(return, what, goals or None) for the image handed out"""
        if M.out is None: return
        for t, d, w, h in (x for t in rets() for x in outcomes(E, M, t)):
            if ('m', ('init', (M.out, 0, 8))) == d: continue         # not assigned on this path
            p = E.P(d)
            s = M.size_of(E, p[0]) if p else None
            wp, hp = E.U(w, 32), E.U(h, 32)
            yield t, 'the image delivered owns width * height pixels', None if s is None else [p[1], -p[1], s - wp * hp]
            if what in ('cut', 'fill'): ww, hh = M.bnd
            elif what == 'copy': ww, hh = M.images[(M.src, 0)]
            elif what == 'turn': hh, ww = M.images[(M.src, 0)]
            else: continue
            yield t, 'its width and height are the ones asked for', [wp - ww, ww - wp, hp - hh, hh - hp]

    def dst(E):
        if M.dst: return M.dst
        for t in rets():
            p = E.P(result(E, M, t)[0])
            if p: return p[0]

    def done(E):
        return M.discharged(E) and all(gs is not None and all(E.prove(g, (t.bb, t.idx), depth=5) for g in gs) for t, _, gs in delivered(E)) \
            and (what is None or shape(E, M, what, dst(E)) is None)
    E.solve(done)
    consistent(E)
    for o in M.obligations(E):
        i, w, base, off, ln, s, wr = o
        if M.holds(E, o): R.ok('%s of %s at %s: 0 <= %s and offset + length <= %s' % (w, region(E, base), i.loc(), E.show(off)[:80], E.show(s)[:60]))
        else: R.bad('%s in %s' % (i.loc(), name), 'in-bounds', '%s of %s not within its extent: offset %s, extent %s' % (w, region(E, base), E.show(off)[:160], E.show(s)[:80]))
    for i, w, base in M.skipped:
        if base is None or base[0] not in ('arg', 'mem', 'ret', 'global', 'g'): 
            if not stream(E, i): R.bad('%s in %s' % (i.loc(), name), 'in-bounds', '%s through an address that cannot be tied to any buffer' % w)
    for t, w, gs in delivered(E):
        if gs is not None and all(E.prove(g, (t.bb, t.idx), depth=5) for g in gs): R.ok('%s: %s' % (name, w))
        else: R.bad(name, 'invariant', 'not guaranteed: ' + w)
    if what:
        b = dst(E)
        if b is None: raise ir.AnalysisBroken('the pixels %s delivers cannot be found' % name)
        r = shape(E, M, what, b)
        if r is None: R.ok('%s: every pixel of the result is the pixel it must be' % name)
        else: R.bad(name, 'content', 'the result is not exactly the pixels asked for: ' + r)
    R.coverage['functions'] = 1; R.coverage['function_names'] = [name]; R.coverage['loops'] = len(f.loops); R.coverage['invariants'] = sum(len(x) for x in E.inv.values())
    return R


def stream(E, i):
    """access to the internals of a stream (its virtual base offset)"""
    o = i.ops[0] if i.op == 'load' else i.ops[1] if i.op == 'store' else None
    seen = 0
    while o is not None and o['k'] == 'i' and seen < 6:
        j = E.fn.inst[o['v']]; seen += 1
        if j.op == 'getelementptr' and j.d['gep']['coff'] == -24: return True
        if j.op in ('getelementptr', 'load'): o = j.ops[0]; continue
        return j.op in ('call', 'invoke') and bool(re.search(r'std::(basic_)?[io]?stream', j.dem))
    if o is not None and o['k'] == 'a': return bool(re.search(r'stream', E.fn.params[o['v']].get('di') or ''))
    return False


def operations(thorough):
    R = Result('proof')
    module()
    for r in pmap(one, range(len(ROOTS))): R.merge(r)
    R.coverage['rule'] = ('from the class invariant (an image owns width*height pixels): every access in bounds, every image delivered satisfies the invariant and has the '
                          'dimensions asked for, and the single copying statement maps destination offset to source offset as specified, in every round of loops whose trip counts are proved')
    R.assumptions += ['image sides up to %d (sections inside the image, as C04 proves of their callers)' % SIDE, 'std algorithms touch exactly the ranges passed to them']
    return R
