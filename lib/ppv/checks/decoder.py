"""C01/C02: the image decoder, proved by the invariant prover with ghost cursors."""
from .. import ir
from ..absint import Engine
from ..decode import FillModels
from ..run import Result, pmap, consistent
from .features import module, region

ROOT = r'^ppocr::image_from_file\('


def decoder():
    fs = [f for f in module().find(ROOT)]
    if not fs: raise ir.AnalysisBroken('no image_from_file function found')
    return fs


def analyse(f):
    M = FillModels(); E = Engine(f, M)
    E.solve(lambda E: M.discharged(E) and all(E.prove(g, (i.bb, i.idx), depth=5) for i, w, gs in M.fill_obligations(E) for g in gs))
    return M, E


def mem_one(k):
    f = decoder()[k]; R = Result()
    M, E = analyse(f)
    consistent(E)
    name = f.dem.split('(')[0]
    for o in M.obligations(E):
        i, what, base, off, ln, s, wr = o
        r = 'file data' if (base, 'f') in M.ghosts else 'pixels' if (base, 'w') in M.ghosts else region(E, base)
        R.coverage['accesses_to_' + r.replace(' ', '_')] = R.coverage.get('accesses_to_' + r.replace(' ', '_'), 0) + 1
        if M.holds(E, o): R.ok('%s of %s at %s: 0 <= %s and offset + length <= %s' % (what, r, i.loc(), E.show(off)[:80], E.show(s)[:60]))
        else: R.bad('%s in %s' % (i.loc(), name), 'in-bounds', '%s of %s not within its extent: offset %s, extent %s' % (what, r, E.show(off)[:160], E.show(s)[:80]))
    for i, what, base in M.skipped:
        if base is None: R.bad('%s in %s' % (i.loc(), name), 'in-bounds', '%s through an address that cannot be tied to any buffer' % what)
        else: R.coverage['accesses_outside_buffers_not_in_scope'] = R.coverage.get('accesses_outside_buffers_not_in_scope', 0) + 1
    for i, what, gs in M.fill_obligations(E):
        if 'store' in what: continue
        if all(E.prove(g, (i.bb, i.idx), depth=5) for g in gs): R.ok('%s at %s' % (what, i.loc()))
        else: R.bad('%s in %s' % (i.loc(), name), 'delivered', 'not guaranteed: ' + what)
    R.coverage['functions'] = 1; R.coverage['loops'] = len(f.loops); R.coverage['invariants'] = sum(len(x) for x in E.inv.values())
    return R


def memory(thorough):
    R = Result('proof')
    for r in pmap(mem_one, range(len(decoder()))): R.merge(r)
    R.need(R.coverage.get('accesses_to_file_data', 0) >= 5, 'hardly any access to the file data found')
    R.need(R.coverage.get('accesses_to_pixels', 0) >= 1, 'no access to the pixel array found')
    R.coverage['rule'] = ('relational loop invariants over the normalised SSA of the decoder with every helper inlined; each load, store, read() and '
                          'from_chars range lies inside its allocation, and each byte looked at lies before the ghost cursor of bytes delivered by read()')
    R.assumptions += ['read() returns -1 or a count not above the one asked for', 'from_chars stays within the range passed to it', 'operator new returns that many bytes or throws']
    return R


def full_one(k):
    f = decoder()[k]; R = Result()
    M, E = analyse(f)
    consistent(E)
    name = f.dem.split('(')[0]
    for i, what, gs in M.fill_obligations(E):
        if 'store' not in what: continue
        if all(E.prove(g, (i.bb, i.idx), depth=5) for g in gs): R.ok('%s at %s' % (what, i.loc()))
        else: R.bad('%s in %s' % (i.loc(), name), 'sequential', 'a pixel store does not continue where the previous one stopped')
    wb = [b for b, k in M.ghosts if k == 'w']; fb = [b for b, k in M.ghosts if k == 'f']
    if len(wb) != 1: raise ir.AnalysisBroken('%d pixel arrays found in the decoder' % len(wb))
    if len(fb) != 1: raise ir.AnalysisBroken('%d file buffers found in the decoder' % len(fb))
    for bb in f.reach:
        t = f.blocks[bb][-1]
        if t.op != 'ret': continue
        R.coverage['returns'] = R.coverage.get('returns', 0) + 1
        at = (bb, t.idx)
        w = M.before(E, wb[0], 'w', t); s = M.size_of(E, wb[0])
        if E.prove(w - s, at, depth=6) and E.prove(s - w, at, depth=6): R.ok('at the return: pixels written = pixels allocated (%s)' % E.show(s)[:80])
        else: R.bad(name, 'complete', 'a normal return is reachable on which not every pixel was written exactly once')
        a = M.before(E, fb[0], 'f', t); r = M.before(E, fb[0], 'r', t)
        if E.prove(a - r, at, depth=6) and E.prove(r - a, at, depth=6): R.ok('at the return: the last byte looked at is the last byte of the file')
        else: R.bad(name, 'consumed', 'a normal return is reachable on which bytes of the file were left unread')
        for g in (w - s - 1, a - r - 1):
            if E.prove(g, at, depth=2): raise ir.AnalysisBroken('contradictory facts at the return')
    R.coverage['functions'] = 1; R.coverage['loops'] = len(f.loops); R.coverage['invariants'] = sum(len(x) for x in E.inv.values())
    return R


def complete(thorough):
    R = Result('proof')
    for r in pmap(full_one, range(len(decoder()))): R.merge(r)
    R.need(R.coverage.get('returns', 0) >= 1, 'the decoder never returns')
    R.coverage['rule'] = ('ghost cursors: w advances by one with each pixel store and each store must hit it, r follows the bytes looked at, f counts bytes '
                          'delivered by read(); at every normal return w = size of the pixel array and r = f')
    R.assumptions += ['read() returns -1 or a count not above the one asked for', 'a premature end of file is reported by read() returning 0']
    return R
