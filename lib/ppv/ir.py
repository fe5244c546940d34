"""Build normalised SSA of /repo's current sources and load it.

compile (clang -O1 without LLVM passes, -g) -> llvm-link -> irdump (inline repository code and trivial
library accessors, SROA, jump threading) -> JSON -> Python objects."""
import hashlib, json, os, re, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('PPV_REPO', '/repo')
BUILD = os.environ.get('PPV_BUILD', os.path.join(VERIF, '_build'))
CLANG = 'clang++-18'
CXXFLAGS = ['-std=c++17', '-fno-rtti', '-DNDEBUG', '-I' + os.path.join(REPO, 'src'),
            '-DIMAGE_PATH="./tests/images/"', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c']


class AnalysisBroken(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in ('src', 'main', 'includes'):
            for d, dirs, files in sorted(os.walk(os.path.join(REPO, root))):
                dirs.sort()
                for f in sorted(files):
                    if re.search(r'\.(cpp|hpp|h|hh|ipp|cc|tpp|inl)$', f):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _tree = h.hexdigest()
    return _tree


def ensure_tool(name='irdump'):
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    out = os.path.join(BUILD, name + '-' + sha(open(src, 'rb').read()))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    libs = ['-L/usr/lib/llvm-18/lib', '-lLLVM-18'] if name == 'irdump' else \
        ['-L/usr/lib/llvm-18/lib', '-lclang-cpp', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib']
    run([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp] + libs)
    os.replace(tmp, out)
    return out


def ensure_lp():
    src = os.path.join(VERIF, 'tools', 'lp.cpp')
    out = os.path.join(BUILD, 'lp-' + sha(open(src, 'rb').read()) + '.so')
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        run([CLANG, '-O3', '-march=x86-64-v3' if 'avx2' in open('/proc/cpuinfo').read() else '-O3', '-std=c++17', '-shared', '-fPIC', src, '-o', tmp])
        os.replace(tmp, out)
    return out


def jamroot_units():
    """(library sources, executable -> main source) as Jamroot declares them."""
    text = open(os.path.join(REPO, 'Jamroot')).read()
    m = re.search(r'^create_ppocr_rule\s*\n((?:\s+\S+\.cpp\s*\n)+)', text, re.M)
    libs = re.findall(r'(\S+\.cpp)', m.group(1)) if m else []
    exes = dict(re.findall(r'^exe\s+(\S+)\s*:\s*\n?\s*(main/\S+\.cpp)', text, re.M))
    if len(libs) < 20 or len(exes) < 6:
        raise AnalysisBroken('Jamroot no longer lists the expected units (%d library, %d executables)' % (len(libs), len(exes)))
    return libs, exes


def bitcode(rel):
    src = os.path.join(REPO, rel)
    if not os.path.exists(src):
        raise AnalysisBroken('source vanished: ' + rel)
    d = os.path.join(BUILD, 'bc'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, sha(tree_hash(), rel, open(src, 'rb').read(), ' '.join(CXXFLAGS)) + '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        run([CLANG] + CXXFLAGS + [src, '-o', tmp])
        os.replace(tmp, out)
    return out


def link(rels, internal=False):
    rels = list(dict.fromkeys(rels))
    d = os.path.join(BUILD, 'bc'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'L' + sha(tree_hash(), *rels, *[open(r, 'rb').read() for r in rels if r.startswith('/')]) + '.bc')
    if not os.path.exists(out):
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(bitcode, rels))
        tmp = out + '.%d.tmp' % os.getpid()
        run(['/usr/lib/llvm-18/bin/llvm-link'] + bcs + ['-o', tmp])
        os.replace(tmp, out)
    return out

STD_INLINE = (r'(^| )std::(unique_ptr<|make_unique<|_MakeUniq|__uniq_ptr_impl|__uniq_ptr_data|get<|tuple<|_Tuple_impl|_Head_base|__get_helper|max<|min<|'
              r'move<|forward<|exchange<|__exchange|swap<|addressof|__addressof|default_delete|reference_wrapper<|'
              r'move_if_noexcept|__niter_base|as_const|array<[^()]*::|__array_traits|pair<[^()]*>::pair|initializer_list<)')
PASSES = ('function(sroa,early-cse<memssa>,instsimplify,jump-threading,sroa,early-cse<memssa>,instsimplify,adce,'
          'jump-threading,early-cse<memssa>,adce,loop-simplify)')
# the same program with the first iteration of every loop split off
PEEL = dict(passes=PASSES[:-1] + ',loop(loop-rotate),loop-simplify,lcssa)', extra=('--peel', 'sroa,early-cse<memssa>,instsimplify,adce,loop-simplify'))


def dump(rels, inline=(STD_INLINE,), noinline=(), roots=(), passes=PASSES, no_repo_inline=False, extra=(), reach=()):
    bc = link(rels)
    tool = ensure_tool()
    d = os.path.join(BUILD, 'json'); os.makedirs(d, exist_ok=True)
    extra = tuple(extra) + tuple(y for x in reach for y in ('--reach', x))
    out = os.path.join(d, sha(bc, tool, repr(inline), repr(noinline), repr(roots), passes, str(no_repo_inline), REPO, repr(extra)) + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [tool, bc, '-o', tmp] + list(extra) + [ '--repo', REPO + '/', '--passes', passes]
        for x in inline: cmd += ['--inline', x]
        for x in noinline: cmd += ['--noinline', x]
        for x in roots: cmd += ['--root', x]
        if no_repo_inline: cmd += ['--no-repo-inline']
        run(cmd)
        os.replace(tmp, out)
    return Module(json.load(open(out)))


class Inst:
    __slots__ = ('id', 'op', 't', 'ops', 'd', 'bb', 'idx', 'fn')

    def __init__(self, d, bb, idx, fn):
        self.id = d['id']; self.op = d['op']; self.t = d['t']; self.ops = d['ops']; self.d = d
        self.bb = bb; self.idx = idx; self.fn = fn

    @property
    def callee(self): return self.d.get('callee')

    @property
    def dem(self): return self.d.get('dem') or ''

    def loc(self):
        """innermost /repo location of the instruction, walking the inline chain outwards"""
        c = [(self.d.get('file') or '', self.d.get('line') or 0, self.d.get('in') or '')]
        for e in self.d.get('inl', []):
            c.append((e.get('file') or '', e.get('line') or 0, e.get('in') or ''))
        for f, l, n in c:
            if f.startswith(REPO + '/') and l:
                return '%s:%d (%s)' % (f[len(REPO) + 1:], l, n)
        # fall back to neighbours
        return '%s:%s' % (c[0][0].replace(REPO + '/', ''), c[0][1])

    def __repr__(self): return '<%%%d %s %s>' % (self.id, self.op, self.loc())


ELEM = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
        'long': 8, 'unsigned long': 8, 'double': 8, 'long long': 8, 'unsigned long long': 8}


def elem_size(dem, default=None):
    """element size of the first iterator of an instantiated algorithm whose iterators are pointers"""
    m = re.search(r'std::[a-z_]+<((?:[a-z]+ ?)+?)( const)?\*', dem)
    return ELEM.get(m.group(1).strip().removesuffix(' const'), default) if m else default


def fills_to_memset(d):
    """std::fill(_n) of a plain array with zero is a memset"""
    calls = [(b, k) for b, insts in enumerate(d['blocks']) for k, i in enumerate(insts)
             if i['op'] in ('call', 'invoke') and re.search(r'(^|[ &*])std::fill(_n)?<', i.get('dem') or '') and len(i['ops']) >= 3]
    if not calls: return
    users = {}; top = 0; byid = {}
    for insts in d['blocks']:
        for i in insts:
            top = max(top, i['id']); byid[i['id']] = i
            for o in (x[0] if isinstance(x, list) else x for x in i['ops']):
                if isinstance(o, dict) and o.get('k') == 'i': users.setdefault(o['v'], []).append(i)
    def zero(o):
        if o['k'] != 'i' or byid[o['v']]['op'] != 'alloca': return False
        for j in users.get(o['v'], []):
            if j['op'] == 'store' and j['ops'][1].get('v') == o['v'] and j['ops'][0].get('k') == 'c' and int(j['ops'][0]['v']) == 0: continue
            if j['op'] in ('call', 'invoke') and re.search(r'(^|[ &*])std::fill(_n)?<|^llvm\.(lifetime|dbg)', j.get('dem') or ''): continue
            return False
        return True
    for b, k in sorted(calls, reverse=True):
        i = d['blocks'][b][k]; sz = elem_size(i['dem'])
        if sz is None or not zero(i['ops'][2]) or users.get(i['id']): continue
        base = {x: i[x] for x in ('file', 'line', 'in', 'inl') if x in i}
        new = []
        def emit(op, t, ops, **kw):
            nonlocal top
            top += 1; new.append(dict(base, id=top, op=op, t=t, ops=ops, **kw)); return {'k': 'i', 't': t, 'v': top}
        const = lambda v, w: {'k': 'c', 't': 'i%d' % w, 'v': str(v), 'w': w}
        if 'fill_n' in i['dem']:
            n = i['ops'][1]
            if n.get('t') != 'i64': continue
            if sz > 1: n = emit('mul', 'i64', [n, const(sz, 64)])
        else:
            x, y = (emit('ptrtoint', 'i64', [o]) for o in (i['ops'][1], i['ops'][0])); n = emit("sub", "i64", [x, y])
        emit('call', 'void', [i['ops'][0], const(0, 8), n, const(0, 1)], callee='llvm.memset.p0.i64', dem='llvm.memset.p0.i64', cdef=False, crepo=False, intr=True, noret=False, nothrow=True,
             pattr=[{'deref': 0}] * 4, rn=False, ro=False)
        if i['op'] == 'invoke':
            ok, bad = i['succ'][:2]
            if ok != bad:
                for j in d['blocks'][bad]:
                    if j['op'] == 'phi': j['ops'] = [e for e in j['ops'] if e[1] != b]
            new.append(dict(base, id=top + 1, op='br', t='void', ops=[{'k': 'bb', 't': 'label', 'v': ok}], succ=[ok])); top += 1
        d['blocks'][b][k:k + 1] = new


class Function:
    def __init__(self, d, mod):
        fills_to_memset(d)
        self.d = d; self.mod = mod; self.name = d['name']; self.dem = d['dem']; self.params = d['params']
        self.file = d.get('file', ''); self.line = d.get('line', 0)
        self.blocks = []; self.inst = {}
        for b, insts in enumerate(d['blocks']):
            L = [Inst(i, b, k, self) for k, i in enumerate(insts)]
            self.blocks.append(L)
            for i in L: self.inst[i.id] = i
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]; dead = False
        for b in range(n):
            t = self.blocks[b][-1]
            self.succ[b] = list(dict.fromkeys(t.d.get('succ', [])))
            c = t.d.get('cond')
            if t.op == 'br' and c and c.get('k') == 'c' and len(t.d['succ']) == 2:
                self.succ[b] = [t.d['succ'][0 if int(c['v']) & 1 else 1]]; dead = True
        self.reach = self._reach()
        self.pred = [[] for _ in range(n)]
        for b in self.reach:
            for s in self.succ[b]: self.pred[s].append(b)
        if dead:
            for b in self.reach:
                for i in self.blocks[b]:
                    if i.op == 'phi': i.ops = [e for e in i.ops if e[1] in self.pred[b]]
        self._dom(); self._loops()
        self.uses = None

    def _reach(self):
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen: seen.add(s); st.append(s)
        return seen

    def _dom(self):
        order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]; self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}; self.rponum = num
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        self.domset = {}
        for b in rpo:
            self.domset[b] = {b} | (self.domset[idom[b]] if b != 0 else set())

    def dominates(self, a, b): return a in self.domset.get(b, ())

    def dom_inst(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb: return a.idx < b.idx
        return self.dominates(a.bb, b.bb)

    def _loops(self):
        self.loops = {}  # header -> dict
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, dict(latches=[], body={s}))
                    L['latches'].append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L['body']: continue
                        L['body'].add(x); st.extend(self.pred[x])
        self.irreducible = []
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rponum[s] <= self.rponum[b] and not self.dominates(s, b): self.irreducible.append((b, s))
        self.loopof = {}
        for b in self.rpo:
            best = None
            for h, L in self.loops.items():
                if b in L['body'] and (best is None or len(L['body']) < len(self.loops[best]['body'])): best = h
            self.loopof[b] = best

    def insts(self):
        for b in self.rpo:
            for i in self.blocks[b]: yield i

    def calls(self):
        for i in self.insts():
            if i.op in ('call', 'invoke'): yield i

    def build_uses(self):
        if self.uses is not None: return self.uses
        u = {}
        for i in self.insts():
            for o in operands(i):
                if o.get('k') == 'i': u.setdefault(o['v'], []).append(i)
        self.uses = u
        return u


def operands(i):
    """value operands of an instruction (phi: incoming values)"""
    if i.op == 'phi':
        return [e[0] for e in i.ops]
    r = list(i.ops)
    if 'gep' in i.d:
        r += [v for v, _ in i.d['gep']['var']]
    if 'cond' in i.d and i.op in ('br', 'switch'): r.append(i.d['cond'])
    return r


class Module:
    def __init__(self, d):
        self.structs = d['structs']; self.globals = d['globals']
        self.fns = [Function(f, self) for f in d['functions']]
        self.byname = {f.name: f for f in self.fns}

    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.fns if r.search(f.dem)]


def params(dem):
    """top-level parameter types of a demangled function, and whether it is a const member"""
    s = dem; const = False
    m = re.search(r'\)( const)?(?: &+)?(?: \[[^\]]*\])?$', s)
    if not m: return None, False
    const = bool(m.group(1)); s = s[:m.start()]
    d = 0; k = len(s) - 1; out = []; cur = ''
    while k >= 0:
        c = s[k]
        if c in ')>]}': d += 1
        elif c in '(<[{':
            if d == 0 and c == '(': break
            d -= 1
        if c == ',' and d == 0: out.append(cur[::-1].strip()); cur = ''
        else: cur += c
        k -= 1
    if cur.strip(): out.append(cur[::-1].strip())
    return out[::-1], const


def keeps(i, k):
    """the callee of call i does not write through its k-th operand: it is passed by const reference, const pointer or as const this"""
    ps, const = params(i.dem)
    if ps is None: return False
    n = len(i.ops); sret = any(a.get('sret') for a in i.d.get('pattr', []))
    j = k - (n - len(ps))
    if n - len(ps) in (0, 1, 2) and j >= 0 and re.search(r'\bconst ?[&*]$', ps[j]): return True
    return j == -1 and const and n - len(ps) == 1 + sret


STDSIZE = [(re.compile(r'^std::(vector|__shared_ptr|function)<'), 24), (re.compile(r'^std::(__cxx11::)?basic_string<'), 32), (re.compile(r'^std::(map|set|multimap|multiset)<'), 48)]


def this_size(i):
    """size of the object a member function of a standard container works on (its first operand that is not the return slot)"""
    for r, n in STDSIZE:
        if r.search(i.dem) and '>::' in i.dem: return n
    return None
