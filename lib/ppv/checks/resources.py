"""C03: whoever acquires memory or a file gives it back exactly once, on every way out, exceptions included."""
import os, re
from .. import ir, typestate as ts
from ..absint import Engine, conv
from ..poly import Poly
from ..run import Result, consistent
from .features import module
from .segment import ConstModels, SIDE

DRIVER = os.path.join(ir.VERIF, 'drivers', 'lifetimes.cpp')
_life = None


def lives():
    global _life
    if _life is None:
        libs, exes = ir.jamroot_units()
        _life = ir.dump(libs + [DRIVER], roots=['^(life|shared|part)_'])
    return _life


def follow(R, f, name):
    for i, k in ts.acquisitions(f):
        F = ts.Flow(f, i, k)
        for loc, what in F.run(): R.bad('%s in %s' % (loc, name), 'release', what)
        if not F.bad: R.ok('%s: the %s acquired at %s; %d states, %d releases, %d ways out' % (name, ts.NAMES[k], i.loc(), F.paths, F.seen_rel, len(F.ends)))
        c = R.coverage
        c['acquisitions'] = c.get('acquisitions', 0) + 1; c['states'] = c.get('states', 0) + F.paths
        c['ways_out'] = c.get('ways_out', 0) + len(F.ends)
        u = sum(1 for e in F.ends if e[1] == 'escaped')
        if u: c['ways_out_not_decided'] = c.get('ways_out_not_decided', 0) + u


def release(thorough):
    R = Result('proof')
    m = module()
    for f in m.fns:
        if ts.acquisitions(f): follow(R, f, f.dem.split('(')[0] if '(anonymous' not in f.dem else f.dem[:80]); R.coverage['functions'] = R.coverage.get('functions', 0) + 1
    R.need(any('image_from_file' in f.dem and any(k == 'fd' for _, k in ts.acquisitions(f)) for f in m.fns), 'image_from_file no longer opens a file')
    n = 0
    for f in lives().fns:
        if not re.match('life_|shared_', f.dem): continue
        n += 1; follow(R, f, f.dem.split('(')[0].replace('life_', 'lifetime of ').replace('shared_', 'shared context used '))
    R.need(n >= 10, 'the lifetimes are not instantiated')
    R.coverage['lifetimes'] = n
    R.coverage['rule'] = ('typestate none/held/released/escaped of each acquisition (open, new, new[], malloc family), followed through every path of the '
                          'normalised IR with its exception edges; tests of null pointers and flags are decided from the values tracked on the path')
    R.assumptions += ['calls to C functions do not throw', 'a callee that receives a raw pointer borrows it', 'operator new never returns null']
    return R


class ContextModels(ConstModels):
    """an ImageContext whose earlier uses are unknown: data_ points to capacity_sz_ pixels, img_ (twice over) fits in them"""
    def __init__(self, slots, image): super().__init__(side=SIDE, minside=1, image_params=False); self.slots = slots; self.image = image

    def setup(self, E):
        super().setup(E)
        data, cap = self.slots; o = ('arg', 0)
        g = lambda n, off: E.U(('m', ('init', (('arg', n), off, 4))), 32)
        if cap is not None: self.bufs[(o, data)] = (cap, 1)
        for n, p in enumerate(E.fn.params):
            if re.search(r'ppocr::Bounds ?&$', p.get('di') or ''):
                self.bnd = (g(n, 0), g(n, 4))
                E.entry_facts += [Poly.const(SIDE) - x for x in self.bnd] + [x - 1 for x in self.bnd]
        if self.image is not None:
            w, h = g(0, self.image + 8), g(0, self.image + 12); self.wh = (w, h)
            E.entry_facts += [Poly.const(SIDE) - x for x in (w, h)] + [x - 1 for x in (w, h)]
            E.fwd[('m', ('init', (o, self.image, 8)))] = ('m', ('init', (o, data, 8)))
            if cap is not None: E.entry_facts.append(E.U(('m', ('init', (o, cap, 8))), 64) - w * h * 2)
            E.reset_memo()


def ways(E, vals, bb, idx, lim=6):
    """the values on each way of getting to (bb, idx): merges are undone one by one; yields (facts, values)"""
    vals = [E.find(v) for v in vals]
    vals = [E.load_value(E.fn.inst[v[1]]) if v[0] == 'i' and E.fn.inst[v[1]].op == 'load' else v for v in vals]
    ph = [E.phi_block(v) for v in vals if E.is_phi(v)]
    ph = [b for b in ph if b not in E.fn.loops and b in E.fn.domset.get(bb, ()) or b == bb]
    if not ph or not lim:
        ine, dis = E.block_facts(bb); yield (list(ine), list(dis), bb), vals; return
    b = max(ph, key=lambda x: len(E.fn.domset[x]))
    for p in E.fn.pred[b]:
        nv = [E.find(E.phi_incoming(v)[p]) if E.is_phi(v) and E.phi_block(v) == b else v for v in vals]
        ei, ed = E.edge_facts(p, b)
        for (ine, dis, at), w in ways(E, nv, p, len(E.fn.blocks[p]), lim - 1): yield (ine + list(ei), dis + list(ed), at), w


def own(E, M, p, n):
    """goals: pointer value p designates n bytes of a live buffer"""
    q = E.P(p)
    s = M.size_of(E, q[0]) if q else None
    return None if s is None else [q[1], s - q[1] - n]


def settle(R, E, i, name, what, vals, goals):
    """goals(vals) must hold on each way to instruction i"""
    n = 0
    for (ine, dis, at), w in ways(E, vals, i.bb, i.idx):
        n += 1
        gs = goals(w)
        if gs is None or not all(E._prove(g, ine, dis, 5, False, at) for g in gs): R.bad('%s in %s' % (i.loc(), name), 'capacity', 'not guaranteed: ' + what); return
    R.ok('%s: %s (%d ways)' % (name, what, n))


def slots_of(f):
    """offsets of the owning pointer and of the capacity in the context"""
    def off(o):
        c = 0
        while o['k'] == 'i' and f.inst[o['v']].op == 'getelementptr' and not f.inst[o['v']].d['gep']['var']: c += f.inst[o['v']].d['gep']['coff']; o = f.inst[o['v']].ops[0]
        return c if o['k'] == 'a' and o['v'] == 0 else None
    data, cap = set(), set()
    for i in f.insts():
        if i.op != 'store' or i.d['sz'] != 8 or off(i.ops[1]) is None: continue
        v = i.ops[0]
        if v['k'] == 'i' and ts.kind(f.inst[v['v']], ts.ACQ) == 'new[]': data.add(off(i.ops[1]))
        elif v.get('t') == 'i64' and (v['k'] != 'c' or True): cap.add(off(i.ops[1]))
    if len(data) != 1: raise ir.AnalysisBroken('the buffer of the shared context cannot be identified')
    return data.pop(), (cap.pop() if len(cap) == 1 else None)


def always(R, f, name, what, before, after):
    """every way to an `after` call passes a `before` call"""
    pos = {}
    for i in f.calls():
        if re.search(before, i.dem): pos.setdefault(i.bb, []).append(i.idx)
    for i in f.calls():
        if not re.search(after, i.dem): continue
        seen = {i.bb}; st = [] if any(x < i.idx for x in pos.get(i.bb, [])) else [i.bb]; bad = False
        while st:
            b = st.pop()
            bad |= b == 0
            for p in f.pred[b]:
                if p not in seen and p in f.reach:
                    seen.add(p)
                    if p not in pos: st.append(p)
        if bad: R.bad('%s in %s' % (i.loc(), name), 'content', 'there is a way on which ' + what + ' is left out: older pixels may be handed out')
        else: R.ok('%s: %s is done on every way' % (name, what))


def borrowed(R, slots):
    data, cap = slots; wh = lambda w: E.U(w[0], 32) * E.U(w[1], 32)
    fs = {f.dem.split('(')[0]: f for f in ir.dump(ir.jamroot_units()[0] + [DRIVER], roots=['^part_'], noinline=[r'^ppocr::rotate90\(']).fns}
    f = fs['part_img']; M = ContextModels(slots, None); E = Engine(f, M); E.solve(lambda E: True); consistent(E)
    always(R, f, 'ImageContext::img', 'filling the image', r'^fill\(', r'^look\(')
    w, h = M.bnd; rd = lambda off, sz, t, i: E._read((('arg', 0), off, sz), i.bb, i.idx, t)
    n = 0
    for i in f.calls():
        if i.dem.startswith('fill('):
            n += 1; settle(R, E, i, 'ImageContext::img', 'the pixels of the image fit in the buffer they are written to', [conv(i.ops[0])], lambda v: own(E, M, v[0], w * h))
        if i.dem.startswith('look('):
            n += 1
            p = E.P(conv(i.ops[0]))
            if p is None or p[0] != ('arg', 0) or not p[1].is_const(): raise ir.AnalysisBroken('the image handed out is not a member of the context')
            img = int(p[1].cval())
            settle(R, E, i, 'ImageContext::img', 'the image handed out has the size asked for', [rd(img + 8, 4, 'i32', i), rd(img + 12, 4, 'i32', i)], lambda v: [E.U(v[0], 32) - w, w - E.U(v[0], 32), E.U(v[1], 32) - h, h - E.U(v[1], 32)])
            def same(v):
                a, b = E.P(v[0]), E.P(v[1])
                return None if a is None or b is None or a[0] != b[0] else [a[1] - b[1], b[1] - a[1]] + (own(E, M, v[0], w * h * 2) or [Poly.const(-1)])
            settle(R, E, i, 'ImageContext::img', 'the image handed out views the start of the owned buffer, which has room for the image and its rotation', [rd(img, 8, 'ptr', i), rd(data, 8, 'ptr', i)], same)
            if cap is not None:
                def inv(v):
                    a = own(E, M, v[0], E.U(v[1], 64))
                    return None if a is None else a + [E.U(v[1], 64) - w * h * 2]
                settle(R, E, i, 'ImageContext::img', 'the recorded capacity is really owned and covers the image and its rotation', [rd(data, 8, 'ptr', i), rd(cap, 8, 'i64', i)], inv)
    R.need(n >= 2, 'ImageContext::img is not instantiated')
    for i in f.calls():
        # an allocation or a maker that throws leaves a context that can be used again
        if cap is None or not (ts.kind(i, ts.ACQ) or i.dem.startswith('fill(')): continue
        settle(R, E, i, 'ImageContext::img', 'the recorded capacity is really owned if %s throws' % i.dem.split('(')[0], [rd(data, 8, 'ptr', i), rd(cap, 8, 'i64', i)], lambda v: own(E, M, v[0], E.U(v[1], 64)))
    f = fs['part_img90']; M = ContextModels(slots, img); E = Engine(f, M); E.solve(lambda E: True); consistent(E)
    always(R, f, 'ImageContext::img90', 'the rotation', r'ppocr::rotate90\(', r'^look\(')
    w, h = M.wh; n = 0; rd = lambda off, sz, t, i: E._read((('arg', 0), off, sz), i.bb, i.idx, t); dst = None
    for i in f.calls():
        if re.search(r'ppocr::rotate90\(', i.dem):
            n += 1; dst = conv(i.ops[1])
            s = E.P(conv(i.ops[0]))
            if s is not None and s[0] == ('arg', 0) and s[1].is_const() and s[1].cval() == img: R.ok('ImageContext::img90 rotates the current image')
            else: R.bad('%s in ImageContext::img90' % i.loc(), 'content', 'what is rotated is not the current image of the context')
            def beyond(v):
                q = E.P(v[0]); a = own(E, M, v[0], w * h)
                return None if a is None or q[0] != ('buf', ('arg', 0), data) else a + [q[1] - w * h]
            settle(R, E, i, 'ImageContext::img90', 'the rotated pixels are written behind the image, inside the buffer', [dst], beyond)
        if i.dem.startswith('look('):
            n += 1; p = E.P(conv(i.ops[0]))
            if p is None or p[0] != ('arg', 0) or not p[1].is_const() or dst is None: raise ir.AnalysisBroken('the rotated image is not a member of the context')
            r = int(p[1].cval())
            settle(R, E, i, 'ImageContext::img90', 'the rotated image has the sides swapped', [rd(r + 8, 4, 'i32', i), rd(r + 12, 4, 'i32', i)], lambda v: [E.U(v[0], 32) - h, h - E.U(v[0], 32), E.U(v[1], 32) - w, w - E.U(v[1], 32)])
            def eq(v):
                a, b = E.P(v[0]), E.P(dst)
                return None if a is None or b is None or a[0] != b[0] else [a[1] - b[1], b[1] - a[1]]
            settle(R, E, i, 'ImageContext::img90', 'the rotated image views the rotated pixels', [rd(r, 8, 'ptr', i)], eq)
            def kept(v):
                a = E.P(v[0])
                return None if a is None or a[0] != ('buf', ('arg', 0), data) else [a[1], -a[1], E.U(v[1], 32) - w, w - E.U(v[1], 32), E.U(v[2], 32) - h, h - E.U(v[2], 32)]
            settle(R, E, i, 'ImageContext::img90', 'the current image is left as it was', [rd(img, 8, 'ptr', i), rd(img + 8, 4, 'i32', i), rd(img + 12, 4, 'i32', i)], kept)
    R.need(n >= 2, 'ImageContext::img90 is not instantiated')


def shared(thorough):
    R = Result('proof')
    n = 0; slots = None
    for f in lives().fns:
        if f.dem.startswith('shared_'): n += 1; follow(R, f, 'a shared context used %s' % {'shared_once': 'once', 'shared_again': 'again and again'}.get(f.dem.split('(')[0], ''))
        if f.dem.startswith('part_img('): slots = slots_of(f)
    R.need(n >= 2 and slots, 'the shared image context is not instantiated')
    borrowed(R, slots)
    R.coverage['rule'] = ('typestate of the shared buffer over repeated uses and every exception edge (the views never release it); then, from the class invariant of the context, '
                          'every way through img() and img90() is proved to hand out views inside the buffer and to re-establish the invariant')
    R.assumptions += ['image sides between 1 and %d' % SIDE, 'the maker writes width*height pixels and does not touch the context itself']
    return R
