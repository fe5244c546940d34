"""A finite abstract domain for code that looks at single bytes: every bit of a value is a Boolean function of one byte
(a set of byte values), 0, 1 or unknown; the state also holds, per byte, the set of values it may have."""
ALL = (1 << 256) - 1
TOP = ('?',)


def const(w, v): return tuple((None, ALL if v >> j & 1 else 0) for j in range(w))


def byte(k): return tuple((k, sum(1 << b for b in range(256) if b >> j & 1)) for j in range(8))


def fn(k, w, table):
    return tuple(norm((k, sum(1 << b for b in range(256) if table[b] >> j & 1))) for j in range(w))


def norm(x): return (None, x[1]) if x != TOP and x[1] in (0, ALL) else x


def value(v):
    """int if constant"""
    r = 0
    for j, x in enumerate(v):
        if x == TOP or x[1] not in (0, ALL): return None
        r |= (x[1] & 1) << j
    return r


def deps(v): return set('?' if x == TOP else x[0] for x in v) - {None}


def table(v):
    """(k, [256 ints]) of a value that depends on one byte only"""
    d = deps(v)
    if len(d) != 1 or '?' in d: return None
    return d.pop(), [sum(1 << j for j, x in enumerate(v) if x[1] >> b & 1) for b in range(256)]


def restrict(v, sets):
    """use what is known about the bytes"""
    r = []
    for x in v:
        if x != TOP and x[0] is not None:
            s = sets.get(x[0], ALL)
            if x[1] & s == s: x = (None, ALL)
            elif not x[1] & s: x = (None, 0)
        r.append(x)
    return tuple(r)


def bit2(op, x, y):
    for a, b in ((x, y), (y, x)):
        if a != TOP and a[1] == 0 and a[0] is None:
            return {'and': (None, 0), 'or': b, 'xor': b}[op]
        if a != TOP and a[1] == ALL and a[0] is None:
            if op == 'xor': return TOP if b == TOP else norm((b[0], ALL & ~b[1]))
            return {'and': b, 'or': (None, ALL)}[op]
    if x == TOP or y == TOP or x[0] != y[0]: return TOP
    return norm((x[0], {'and': x[1] & y[1], 'or': x[1] | y[1], 'xor': x[1] ^ y[1]}[op]))


PY = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
      'shl': lambda a, b: a << b if b < 64 else 0, 'lshr': lambda a, b: a >> b, 'udiv': lambda a, b: a // b if b else 0, 'urem': lambda a, b: a % b if b else 0}


def sgn(w, v): return v - (1 << w) if v >> (w - 1) & 1 else v


CMP = {'eq': lambda a, b, w: a == b, 'ne': lambda a, b, w: a != b, 'ult': lambda a, b, w: a < b, 'ule': lambda a, b, w: a <= b, 'ugt': lambda a, b, w: a > b, 'uge': lambda a, b, w: a >= b,
       'slt': lambda a, b, w: sgn(w, a) < sgn(w, b), 'sle': lambda a, b, w: sgn(w, a) <= sgn(w, b), 'sgt': lambda a, b, w: sgn(w, a) > sgn(w, b), 'sge': lambda a, b, w: sgn(w, a) >= sgn(w, b)}


def binop(op, x, y):
    w = len(x); m = (1 << w) - 1
    a, b = value(x), value(y)
    if a is not None and b is not None and op in PY: return const(w, PY[op](a, b) & m)
    tx, ty = table(x), table(y)
    if op in PY and (tx or a is not None) and (ty or b is not None) and (not tx or not ty or tx[0] == ty[0]):
        k = (tx or ty)[0]; tx = tx[1] if tx else [a] * 256; ty = ty[1] if ty else [b] * 256
        return fn(k, w, [PY[op](p, q) & m for p, q in zip(tx, ty)])
    if op == 'mul':
        if a is not None: x, y, b = y, x, a
        if b is not None and b and b & (b - 1) == 0: op, y, b = 'shl', const(w, b.bit_length() - 1), b.bit_length() - 1
    if op == 'shl' and b is not None and b < w: return ((None, 0),) * b + x[:w - b]
    if op == 'lshr' and b is not None and b < w: return x[b:] + ((None, 0),) * b
    if op == 'add' and all((None, 0) in (p, q) for p, q in zip(x, y)): op = 'or'
    if op in ('and', 'or', 'xor'): return tuple(bit2(op, p, q) for p, q in zip(x, y))
    return (TOP,) * w


def cmp(pred, x, y):
    a, b = value(x), value(y); w = len(x)
    if a is not None and b is not None: return const(1, int(CMP[pred](a, b, w)))
    tx, ty = table(x), table(y)
    if (tx or a is not None) and (ty or b is not None) and (not tx or not ty or tx[0] == ty[0]):
        k = (tx or ty)[0]; tx = tx[1] if tx else [a] * 256; ty = ty[1] if ty else [b] * 256
        return fn(k, 1, [int(CMP[pred](p, q, w)) for p, q in zip(tx, ty)])
    if pred in ('eq', 'ne') and any(p != TOP and q != TOP and p[0] is None and q[0] is None and p[1] != q[1] for p, q in zip(x, y)): return const(1, int(pred == 'ne'))
    return (TOP,)


def resize(op, v, w):
    if op == 'trunc': return v[:w]
    if op == 'sext': return v + (v[-1],) * (w - len(v))
    return v + ((None, 0),) * (w - len(v))


class TooMany(Exception): pass


def explore(f, args, mem0, limit=4000):
    """partitioned abstract interpretation: yields ('load', inst, k, state) for each read of byte k of the source and
    ('ret', inst, state); values are bit tuples, ('src', k) or ('mem', cell); memory cells as in mem0"""
    out = []; seen = set()
    W = [(0, None, {}, dict(mem0), {})]       # block, from, env, mem, byte sets
    def ev(o, env):
        k = o['k']
        if k == 'i': return env.get(o['v'])
        if k == 'a': return args.get(o['v'])
        if k == 'c' and 'w' in o: return const(o['w'], int(o['v']) & ((1 << o['w']) - 1))
        return None
    while W:
        b, fr, env, mem, sets = W.pop()
        key = (b, fr, tuple(sorted(env.items(), key=lambda x: x[0])), tuple(sorted(mem.items(), key=str)), tuple(sorted(sets.items())))
        if key in seen: continue
        seen.add(key)
        if len(seen) > limit: raise TooMany(f.dem)
        W0 = (env, mem); env = dict(env); mem = dict(mem)
        def put(i, v): env[i.id] = restrict(v, sets) if v is not None and v[:1] not in (('src',), ('mem',)) else v
        ph = {}
        for i in f.blocks[b]:
            if i.op != 'phi': break
            for x, p in i.ops:
                if p == fr: ph[i.id] = ev(x, env)
        env.update(ph)
        start = len(out); again = None
        def parts(v):
            """the byte sets under which a value is constant"""
            tb = table(restrict(v, sets)) if v and v[0] not in ('src', 'mem') else None
            if tb is None: return None
            k, tv = tb; m = sets.get(k, ALL); by = {}
            for x in range(256):
                if m >> x & 1: by[tv[x]] = by.get(tv[x], 0) | 1 << x
            return [dict(sets) | {k: s} for s in by.values()] if 1 < len(by) <= 16 else None
        for i in f.blocks[b]:
            op = i.op; w = int(i.t[1:]) if i.t[:1] == 'i' and i.t[1:].isdigit() else None
            if op == 'phi': continue
            if op == 'load':
                p = ev(i.ops[0], env)
                if p and p[0] == 'mem': env[i.id] = mem.get((p[1], i.d['sz']))
                elif p and p[0] == 'src':
                    out.append(('load', i, p[1], dict(sets), i.d['sz']))
                    env[i.id] = restrict(byte(p[1]), sets) if i.d['sz'] == 1 else None
                else:
                    env[i.id] = None; out.append(('load', i, None, dict(sets), i.d['sz']))
            elif op == 'store':
                p = ev(i.ops[1], env)
                if p and p[0] == 'mem': mem[(p[1], i.d['sz'])] = ev(i.ops[0], env)
                else: out.append(('store', i, None, dict(sets), i.d['sz']))
            elif op == 'getelementptr':
                p = ev(i.ops[0], env); g = i.d['gep']; c = g['coff']
                for o, s in g['var']:
                    v = ev(o, env)
                    if v is not None and v[0] not in ('src', 'mem') and value(v) is None: again = again or parts(v)
                    v = value(v) if v is not None and v[0] not in ('src', 'mem') else None
                    if v is None: p = None; break
                    c += sgn(o['t'] == 'i32' and 32 or 64, v) * s
                env[i.id] = None if p is None else ('src', p[1] + c) if p[0] == 'src' else ('mem', (p[1][0], p[1][1] + c))
            elif op == 'alloca': env[i.id] = ('mem', (('al', i.id), 0))
            elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                v = ev(i.ops[0], env)
                env[i.id] = v if v is None or v[0] in ('src', 'mem') or op in ('freeze', 'bitcast') else resize(op, v, w)
            elif op == 'icmp' or op in PY:
                x, y = ev(i.ops[0], env), ev(i.ops[1], env)
                if x and y and x[0] == y[0] == 'src': v = const(1, int(CMP[i.d['pred']](x[1], y[1], 64))) if op == 'icmp' else None
                elif x is None or y is None or x[0] in ('src', 'mem') or y[0] in ('src', 'mem'): v = (TOP,) * (w or 1)
                else: v = cmp(i.d['pred'], x, y) if op == 'icmp' else binop(op, x, y)
                put(i, v)
            elif op == 'select':
                c = ev(i.ops[0], env); x, y = ev(i.ops[1], env), ev(i.ops[2], env)
                c = value(c) if c else None
                if c is not None: env[i.id] = x if c else y
                elif x == y: env[i.id] = x
                elif x and y and 'src' not in (x[0], y[0]) and 'mem' not in (x[0], y[0]):
                    c = ev(i.ops[0], env)[0]
                    put(i, tuple(bit2('or', bit2('and', c, p), bit2('and', bit2('xor', c, (None, ALL)), q)) for p, q in zip(x, y)))
                else: env[i.id] = None; again = again or parts(ev(i.ops[0], env))
            elif op in ('call', 'invoke'):
                if not (i.callee or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')): out.append(('call', i, None, dict(sets), 0))
                env[i.id] = None
            elif op == 'ret': out.append(('ret', i, dict(mem), dict(sets), 0))
            elif op not in ('br', 'switch', 'unreachable'): env[i.id] = (TOP,) * w if w else None
            t = i
            if again: break
        if again:
            # an address depends on a byte: taken apart by the value of that byte
            del out[start:]
            W += [(b, fr, {k: restrict(v, s2) if v is not None and v[0] not in ('src', 'mem') else v for k, v in W0[0].items()}, {k: restrict(v, s2) if v is not None and v[0] not in ('src', 'mem') else v for k, v in W0[1].items()}, s2) for s2 in again]
            continue
        # successors
        def go(s, sets2):
            if all(v for v in sets2.values()):
                live = {k: v if v is None or v[0] in ('src', 'mem') else restrict(v, sets2) for k, v in env.items()}
                m2 = {k: v if v is None or v[0] in ('src', 'mem') else restrict(v, sets2) for k, v in mem.items()}
                W.append((s, b, live, m2, sets2))
        def split(v, test, s):
            """take the edge to s when test(value) holds"""
            c = value(v) if v else None
            if c is not None:
                if test(c): go(s, sets)
                return
            tb = table(v) if v else None
            if tb is None: go(s, sets); return
            k, tv = tb; m = sum(1 << x for x in range(256) if test(tv[x])) & sets.get(k, ALL)
            if m: go(s, dict(sets, **{}) | {k: m})
        if t.op == 'br' and len(t.d['succ']) == 2:
            v = ev(t.d['cond'], env); v = v if v and v[0] not in ('src', 'mem') else None
            split(v, lambda x: x & 1, t.d['succ'][0]); split(v, lambda x: not x & 1, t.d['succ'][1])
        elif t.op == 'switch':
            v = ev(t.d['cond'], env); w = len(v) if v else 32
            vals = [int(o['v']) & ((1 << w) - 1) for o in t.ops[1:] if o['k'] == 'c']
            split(v, lambda x: x not in vals, t.d['succ'][0])
            for c, s in zip(vals, t.d['succ'][1:]): split(v, lambda x, c=c: x == c, s)
        else:
            for s in f.succ[b]: go(s, sets)
    return out
