"""C21: nothing is remembered between calls, and what is passed as const stays as it was."""
import re
from .. import ir
from ..run import Result, pmap

HIDDEN = re.compile(r'^_?_?(strtok|rand|srand|random|srandom|drand48|lrand48|setlocale|putenv|setenv|unsetenv|localtime|gmtime|ctime|asctime|getenv|time|clock|gettimeofday|tmpnam|mktemp)$')
CHRONO = re.compile(r'std::(random_device|chrono::[a-z_:0-9]*clock[a-z_:0-9]*::now|locale::global|rand|time|clock|getenv)')
INNER = re.compile(r'>::(operator\[\]|at|front|back|data)\(.*\) const$')      # elements of a const container


def const_param(p):
    """const T& or const T* where the const binds to T"""
    d = p.get('di') or ''
    return p.get('t') == 'ptr' and not p.get('sret') and not p.get('byval') and d.startswith('const ') and d.endswith(('&', '*')) and not d.endswith(('&&', '**', '*&', '*const&'))


def derived(f, start):
    """values that point into the object of the given operand keys"""
    D = set(start); ch = True
    while ch:
        ch = False
        for i in f.insts():
            if ('i', i.id) in D: continue
            if i.op in ('getelementptr', 'bitcast', 'freeze'): src = [i.ops[0]]
            elif i.op == 'phi': src = [e[0] for e in i.ops]
            elif i.op == 'select': src = i.ops[1:]
            elif i.op in ('call', 'invoke') and i.ops and INNER.search(i.dem): src = [i.ops[0]]
            else: continue
            if any((o['k'], o.get('v')) in D for o in src): D.add(('i', i.id)); ch = True
    return D


def writes(f, D):
    """(inst, how) for everything that may write through D"""
    inD = lambda o: (o['k'], o.get('v')) in D
    for i in f.insts():
        if i.op == 'store' and inD(i.ops[1]): yield i, 'a store'
        elif i.op in ('atomicrmw', 'cmpxchg') and inD(i.ops[0]): yield i, 'an atomic update'
        elif i.op in ('call', 'invoke'):
            c = i.callee or ''
            if re.match(r'llvm\.mem(set|cpy|move)', c):
                if inD(i.ops[0]): yield i, 'a block write'
            elif c in ('read', 'fread', 'memset', 'memcpy', 'memmove', 'strcpy'):
                k = {'read': 1}.get(c, 0)
                if inD(i.ops[k]): yield i, 'a block write'
            elif re.match(r'llvm\.', c): pass
            elif i.d.get('ro') or i.d.get('rn'): pass
            elif c:
                ps, const = ir.params(i.dem)
                if ps is None: continue
                n = len(i.ops); j0 = n - len(ps); g = f.mod.byname.get(c)
                for k, o in enumerate(i.ops):
                    if o.get('t') != 'ptr' or not inD(o): continue
                    at = i.d['pattr'][k] if k < len(i.d.get('pattr', [])) else {}
                    if at.get('ro') or at.get('byval') or ir.keeps(i, k): continue
                    if g is not None and k < len(g.params) and g.params[k].get('di'):
                        if const_param(g.params[k]) or not re.search(r'[&*]$', g.params[k]['di']): continue
                    elif j0 > 2 and any(re.search(r'\bconst ?[&*]$', ps[j]) for j in range(max(0, k - j0), min(k + 1, len(ps)))): continue
                    j = k - j0
                    if 0 <= j and j < len(ps) and not re.search(r'[&*]$', ps[j]): continue     # an iterator or other handle, by value
                    yield i, 'the call of %s, which takes it as non-const' % re.sub(r'<.*>', '<>', i.dem.split('(')[0])[-60:]


def unit(item):
    rels, label = item
    R = Result(); m = ir.dump(rels, no_repo_inline=True)
    for g in m.globals:
        if g['decl'] or g['const']: continue
        if re.match(r'_ZGV|_ZStL8__ioinit|__dso_handle|llvm\.', g['n']): continue
        if (g.get('di') or '').startswith('const '): R.ok('%s is set up once and const' % g.get('name')); continue
        R.bad('%s:%s (%s)' % ((g.get('file') or '?').replace(ir.REPO + '/', ''), g.get('line'), g.get('name') or g['n']), 'state', 'a variable of static or thread duration can be written: what is computed may depend on earlier calls or on other threads')
    n = 0
    for f in m.fns:
        n += 1; name = re.sub(r'<.*>', '<>', f.dem.split('(')[0])[-80:]
        for i in f.calls():
            if HIDDEN.match(i.callee or '') or CHRONO.search(i.dem):
                if f.dem == 'main' and 'chrono' in i.dem: R.ok('main measures time (%s)' % i.loc()); continue
                R.bad('%s in %s' % (i.loc(), name), 'state', 'the result may depend on %s' % (i.dem or i.callee).split('(')[0])
        for k, p in enumerate(f.params):
            if not const_param(p): continue
            bad = False
            for i, how in writes(f, derived(f, [('a', k)])):
                bad = True
                R.bad('%s in %s' % (i.loc(), name), 'const', '%s writes to %s, which was passed as const' % (how, p.get('n') or 'an argument'))
            if not bad: R.ok('%s leaves its const argument %s as it was' % (name, p.get('n')))
    R.coverage['functions'] = n
    # the pixels behind a const image
    m = ir.dump(rels)
    for f in m.fns:
        for k, p in enumerate(f.params):
            if not re.match(r'^const ppocr::Image[&*]$', p.get('di') or ''): continue
            own = derived(f, [('a', k)]); px = [('i', i.id) for i in f.insts() if i.op == 'load' and i.t == 'ptr' and (i.ops[0]['k'], i.ops[0].get('v')) in own]
            for i, how in writes(f, derived(f, px)):
                if how.startswith('the call'): continue
                R.bad('%s in %s' % (i.loc(), f.dem.split('(')[0][-60:]), 'const', '%s changes the pixels of a const image' % how)
            R.ok()
    return R


def stateless(thorough):
    R = Result('proof')
    libs, exes = ir.jamroot_units()
    for r in pmap(unit, [(libs, 'library')] + [([s], n) for n, s in sorted(exes.items())]): R.merge(r)
    R.need(R.coverage.get('functions', 0) > 500, 'hardly any function found')
    R.coverage['rule'] = 'no writable variable of static or thread duration, no call of a C function with hidden state or of a clock; per function, nothing writes through a const reference, const pointer or const this, nor the pixels behind a const image'
    R.assumptions += ['the standard library does not write through its own const references']
    return R
