"""C05/C06: every access and every division of the feature extractors, proved by the invariant prover."""
import os, re
from .. import ir
from ..absint import Engine, conv
from ..models import Models
from ..work import WorkModels
from ..run import Result, pmap

SIDE = 1024
_cache = {}


def module():
    if 'm' not in _cache:
        libs, exes = ir.jamroot_units()
        ir.ensure_lp()
        _cache['m'] = ir.dump(libs)
    return _cache['m']


def extractors():
    m = module()
    fs = [f for f in m.find(r'^ppocr::strategies::\w+::load\(') if 'operator()' not in f.dem]
    if len(fs) < 10: raise ir.AnalysisBroken('only %d feature extractors (strategies::*::load) found' % len(fs))
    # slowest first
    return sorted(fs, key=lambda f: -len(list(f.insts())))


def solve(f, M):
    E = Engine(f, M); E.solve()
    if hasattr(M, 'content'): M.content(E)
    return E


def uses_buffers(f):
    return any(i.op == 'getelementptr' and ('Buffer' in i.d['gep'].get('sty', '') or 'ZoneInfo' in i.d['gep'].get('sty', '')) for i in f.insts())


def mem_one(k):
    f = extractors()[k]
    R = Result()
    M = WorkModels(side=SIDE, minside=1) if uses_buffers(f) else Models(side=SIDE, minside=1)
    E = solve(f, M)
    kinds = {}
    for o in M.obligations(E):
        i, what, base, off, ln, s, wr = o
        name = region(E, base)
        kinds[name] = kinds.get(name, 0) + 1
        if M.holds(E, o): R.ok('%s of %s at %s: 0 <= %s and offset + length <= %s' % (what, name, i.loc(), E.show(off)[:80], E.show(s)[:60]))
        else: R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'in-bounds', '%s of %s not within its extent: offset %s, extent %s' % (what, name, E.show(off)[:160], E.show(s)[:80]))
    for i, what, base in M.skipped:
        if base is None:
            R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'in-bounds', '%s through an address that cannot be tied to any buffer' % what)
        elif base[0] in ('ret', 'mem', 'arg', 'global', 'g'): R.coverage['container_storage_accesses_not_in_scope'] = R.coverage.get('container_storage_accesses_not_in_scope', 0) + 1
        else:
            R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'in-bounds', '%s of a buffer of unknown extent (%s)' % (what, base[0]))
    if hasattr(M, 'work'):
        for i, what, gs in list(M.work_obligations(E)) + list(M.field_obligations(E)):
            if gs is not None and all(E.prove(g, (i.bb, i.idx), depth=6) for g in gs): R.ok('%s at %s' % (what, i.loc()))
            else: R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'work-buffer', '%s is not guaranteed' % what)
    R.coverage['functions'] = 1
    R.coverage['loops'] = len(f.loops)
    R.coverage['invariants'] = sum(len(x) for x in E.inv.values())
    R.coverage['function_names'] = [f.dem.split('(')[0]]
    for n, c in kinds.items(): R.coverage['accesses_to_' + n.replace(' ', '_')] = c
    return R


def region(E, base):
    k = base[0]
    if k == 'pix': return 'image pixels'
    if k in ('buf', 'phib', 'new'): return 'work buffer'
    if k == 'al': return 'local object'
    if k == 'arg': return 'object passed in'
    return k


def memory(thorough):
    fs = extractors()
    R = Result('proof')
    for r in pmap(mem_one, range(len(fs))): R.merge(r)
    R.need(R.coverage.get('accesses_to_image_pixels', 0) >= 15, 'hardly any pixel access found')
    R.coverage['rule'] = ('relational loop invariants (polynomial bounds, inductive, checked edge by edge) over the normalised SSA of every '
                          'strategies::*::load with its context computation inlined; each load, store and range algorithm must lie inside its region')
    R.assumptions += ['image sides between 1 and %d' % SIDE, 'an Image holds width*height pixels (decided by C25)',
                      'std algorithms touch exactly the ranges passed to them', 'no iterator into std containers is bounded here']
    return R


def div_sites(f):
    """[(inst, divisor poly or None when constant, proved)]"""
    M = Models(side=SIDE, minside=1); M.divisors = True
    E = Engine(f, M); ds = []
    for i in f.insts():
        if i.op in ('udiv', 'sdiv', 'urem', 'srem'):
            d = conv(i.ops[1])
            if d[0] != 'c': ds.append((i, d))
    def done(E):
        return all(E.prove((E.U(d) if i.op[0] == 'u' else E.S(d)) - 1, (i.bb, i.idx)) or data_sum(E, d) for i, d in ds)
    E.solve(done)
    out = []
    for i in f.insts():
        if i.op not in ('udiv', 'sdiv', 'urem', 'srem'): continue
        d = conv(i.ops[1])
        if d[0] == 'c': out.append((i, None, d[2] != 0, False)); continue
        k = E.U(d) if i.op[0] == 'u' else E.S(d)
        ok = E.prove(k - 1, (i.bb, i.idx)) or E.prove(k - 1, (i.bb, i.idx), depth=7)
        out.append((i, E.show(k), ok, not ok and data_sum(E, d)))
    return out


def data_sum(E, d):
    """the divisor is a total of values loaded from a work buffer: its value depends on the data, not on the sizes"""
    seen = set(); st = [d]; add = load = False
    while st:
        v = E.find(st.pop())
        if v in seen or v[0] != 'i': continue
        seen.add(v); i = E.fn.inst[v[1]]
        if i.op in ('phi', 'select', 'add'):
            add |= i.op == 'add'
            st += [conv(x[0]) for x in i.ops] if i.op == 'phi' else [conv(x) for x in i.ops if x.get('t') != 'i1']
        elif i.op == 'load':
            p = E.P(conv(i.ops[0]))
            load |= p is not None and p[0][0] in ('phib', 'buf', 'new')
        elif i.op not in ('zext', 'sext', 'trunc'): return False
    return add and load


def div_one(k):
    f = extractors()[k]
    R = Result(); peeled = None
    for i, k, ok, data in div_sites(f):
        if k is None: R.coverage['constant_divisors'] = R.coverage.get('constant_divisors', 0) + 1
        else: R.coverage['computed_divisors'] = R.coverage.get('computed_divisors', 0) + 1
        if ok: R.ok(k and 'divisor at %s: %s >= 1' % (i.loc(), k[:100])); continue
        if data:
            R.coverage['data_dependent_divisors_not_decided'] = R.coverage.get('data_dependent_divisors_not_decided', 0) + 1; continue
        if peeled is None:
            g = [g for g in ir.dump(ir.jamroot_units()[0], **ir.PEEL).find(r'^ppocr::strategies::') if g.name == f.name][0]
            peeled = div_sites(g)
        same = [x for x in peeled if x[0].loc() == i.loc()]
        if same and all(x[2] for x in same): R.ok('divisor at %s: %s >= 1 (first iteration analysed separately)' % (i.loc(), (k or '')[:100]))
        else: R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'divisor', 'divisor %s may be zero' % (k or '0')[:160])
    R.coverage['functions'] = 1
    return R


DRIVER = os.path.join(ir.VERIF, 'drivers', 'compare.cpp')
COMPARE = r'^(cmp|dst)_|^ppocr::strategies::\w+::relationship_type::\w+\(|^ppocr::loader2::read_img\('


def guarded(f, site):
    """'ok' when tests or constants on the way to the division exclude a divisor of zero, 'bad' when none looks at it, 'unknown' otherwise"""
    def strip(o):
        while o['k'] == 'i' and f.inst[o['v']].op in ('zext', 'sext', 'freeze'): o = f.inst[o['v']].ops[0]
        return o

    def eq(a, b, d=0):
        a, b = strip(a), strip(b)
        if a['k'] != b['k']: return False
        if a['k'] != 'i': return a.get('v') == b.get('v')
        if a['v'] == b['v']: return True
        i, j = f.inst[a['v']], f.inst[b['v']]
        if d > 8 or i.op != j.op or i.op in ('phi', 'alloca'): return False
        if i.op in ('call', 'invoke'):
            if i.callee != j.callee or not i.dem or not (i.d.get('ro') or all(x.get('t') != 'ptr' or ir.keeps(i, k) for k, x in enumerate(i.ops))): return False
        if i.op == 'getelementptr' and i.d['gep'] != j.d['gep']: return False
        x, y = list(ir.operands(i)), list(ir.operands(j))
        if len(x) != len(y): return False
        return all(eq(u, v, d + 1) for u, v in zip(x, y)) or i.op in ('add', 'mul') and eq(x[0], y[1], d + 1) and eq(x[1], y[0], d + 1)

    def part(x, d, k=0):
        """d is zero only if x is (sums of shares do not wrap around)"""
        if eq(x, d): return True
        d = strip(d)
        return k < 4 and d['k'] == 'i' and f.inst[d['v']].op in ('add', 'or') and any(part(x, o, k + 1) for o in f.inst[d['v']].ops)

    const = lambda o: int(o['v']) if o['k'] == 'c' and 'w' in o else None

    def member(o):
        """(last name of a pure call, its object)"""
        o = strip(o)
        if o['k'] != 'i': return None, None
        i = f.inst[o['v']]
        if i.op not in ('call', 'invoke') or not i.ops: return None, None
        m = re.search(r'::(size|empty|length)\(\) const', i.dem or '')
        return (m.group(1), i.ops[0]) if m else (None, None)

    def says(c, truth, d, depth=0):
        """the condition having this truth excludes d == 0"""
        if c['k'] != 'i' or depth > 8: return False
        i = f.inst[c['v']]
        if i.op == 'xor' and const(i.ops[1]) is not None: return says(i.ops[0], not truth, d, depth + 1)
        if i.op == 'and' and truth or i.op == 'or' and not truth: return any(says(o, truth, d, depth + 1) for o in i.ops)
        if i.op == 'select':
            if truth and const(i.ops[2]) == 0: return says(i.ops[0], True, d, depth + 1) or says(i.ops[1], True, d, depth + 1)
            if not truth and const(i.ops[1]) not in (None, 0): return says(i.ops[0], False, d, depth + 1) or says(i.ops[2], False, d, depth + 1)
            return False
        if i.op == 'phi':
            # a short-circuit: every way in which it has this truth
            vs = [(v, p) for v, p in i.ops if const(v) is None or bool(const(v) & 1) == truth]
            return bool(vs) and all(const(v) is None and says(v, truth, d, depth + 1) or at(p, d, i.bb, depth + 1) for v, p in vs)
        if i.op == 'icmp':
            a, b = i.ops; pr = i.d['pred']
            if not truth: pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[pr]
            for x, y, q in ((a, b, pr), (b, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr))):
                if part(x, d):
                    k = const(y)
                    if q == 'ugt' or q == 'ne' and k == 0 or q in ('uge', 'sge') and k is not None and 1 <= k < 1 << 31 or q == 'sgt' and k is not None and 0 <= k < 1 << 31 or q == 'eq' and k not in (None, 0): return True
            return False
        n, o = member(c)
        if n == 'empty' and not truth:
            m, q = member(d)
            return m in ('size', 'length') and eq(o, q)
        return False

    def at(b, d, to=None, depth=0):
        """the divisor is not zero when block b (on its way to `to`) is run"""
        if depth > 8: return False
        t = f.blocks[b][-1]
        if to is not None and t.op == 'br' and len(t.d['succ']) == 2 and t.d['succ'][0] != t.d['succ'][1] and to in t.d['succ'] and says(t.d['cond'], t.d['succ'][0] == to, d, depth + 1): return True
        for a in f.domset[b]:
            t = f.blocks[a][-1]
            if t.op != 'br' or len(t.d['succ']) != 2 or t.d['succ'][0] == t.d['succ'][1]: continue
            for k, s in enumerate(t.d['succ']):
                if s != a and s in f.domset[b] and len(f.pred[s]) == 1 and says(t.d['cond'], k == 0, d, depth + 1): return True
        return len(f.pred[b]) > 1 and b not in f.loops and all(at(p, d, b, depth + 2) for p in f.pred[b])

    def equals(b, d):
        """values the tests before block b show to be equal to d"""
        for a in f.domset[b]:
            t = f.blocks[a][-1]
            if t.op != 'br' or len(t.d['succ']) != 2 or t.d['succ'][0] == t.d['succ'][1] or t.d['cond']['k'] != 'i': continue
            c = f.inst[t.d['cond']['v']]
            if c.op != 'icmp' or c.d['pred'] not in ('eq', 'ne'): continue
            s = t.d['succ'][0 if c.d['pred'] == 'eq' else 1]
            if s in f.domset[b] and len(f.pred[s]) == 1:
                for x, y in (c.ops, c.ops[::-1]):
                    if eq(x, d): yield y

    def value(d, bb, depth=0):
        d = strip(d)
        if d['k'] == 'c': return 'ok' if const(d) != 0 else 'bad'
        if at(bb, d) or any(at(bb, y) for y in equals(bb, d)): return 'ok'
        if d['k'] != 'i' or depth > 8: return 'bad'
        i = f.inst[d['v']]
        if i.op == 'add' and const(i.ops[1]) not in (None, 0) and i.ops[0]['k'] == 'i' and f.inst[i.ops[0]['v']].op == 'zext': return 'ok'
        if i.op == 'or': return 'ok' if 'ok' in [value(o, bb, depth + 1) for o in i.ops] else 'unknown'
        if i.op == 'mul': return 'unknown' if [value(o, bb, depth + 1) for o in i.ops] == ['ok', 'ok'] else 'bad'
        if i.op in ('phi', 'select'):
            vs = [value(v, p, depth + 1) if not at(p, v, i.bb) else 'ok' for v, p in i.ops] if i.op == 'phi' else [value(v, bb, depth + 1) for v in i.ops[1:]]
            return 'ok' if set(vs) == {'ok'} else 'unknown'
        if i.op == 'load':
            a = i.ops[0]
            return 'unknown' if a['k'] == 'i' and f.inst[a['v']].op in ('phi', 'select') else 'bad'
        return 'bad'

    return value(site.ops[1], site.bb)


def comparisons(R):
    """what divides while features are compared or images are read"""
    n = 0
    for f in module().find(COMPARE) + ir.dump(ir.jamroot_units()[0] + [DRIVER], roots=['^(cmp|dst)_']).find(COMPARE):
        n += 1
        for i in f.insts():
            if i.op not in ('udiv', 'sdiv', 'urem', 'srem'): continue
            v = guarded(f, i)
            if v == 'ok': R.ok('divisor at %s in %s is not zero behind the tests before it' % (i.loc(), f.dem.split('(')[0][-60:]))
            elif v == 'bad': R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0]), 'divisor', 'the divisor may be zero: no test before it excludes that')
            else: R.coverage['comparison_divisors_not_decided'] = R.coverage.get('comparison_divisors_not_decided', 0) + 1
    R.coverage['comparisons_and_readers'] = n
    R.need(n >= 24, 'the comparisons of features were not found')


def divisors(thorough):
    fs = extractors()
    R = Result('proof')
    for r in pmap(div_one, range(len(fs))): R.merge(r)
    comparisons(R)
    R.need(R.coverage.get('computed_divisors', 0) >= 10, 'hardly any computed divisor found')
    R.coverage['rule'] = 'every udiv/sdiv/urem/srem in the inlined SSA of every feature extractor has a divisor proved >= 1 on every path reaching it'
    R.assumptions += ['image sides between 1 and %d' % SIDE]
    return R
