"""C08: what a writer puts into a file, the reader of the same type takes out again: same order, same separators, same places."""
import re
from .. import ir, stream
from ..run import Result

WR = re.compile(r'operator ?<<(<.*>)?\(std::ostream&, .* const&\)$'); RD = re.compile(r'operator ?>>(<.*>)?\(std::istream&, .*&\)$')


def subject(d):
    ps, _ = ir.params(d)
    if not ps or len(ps) != 2: return None
    return re.sub(r'( const)?&$', '', ps[1].strip())


def functions(mod):
    w, r = {}, {}
    for f in mod.fns:
        d = f.dem
        if 'ppocr' not in d or '::operator()' in d: continue
        m = re.search(r'ppocr::loader2::(write|read)_img\(std::.stream&, ppocr::Image( const)?&\)$', d)
        if m: (w if m.group(1) == 'write' else r)['ppocr::Image'] = f; continue
        T = subject(d)
        if T is None: continue
        if WR.search(d) and len(f.params) == 2: w[T] = f
        elif RD.search(d) and len(f.params) == 2: r[T] = f
    return w, r


FOLLOWED = set()


def walk(mod, f, loose=False):
    w = stream.Walk(mod); w.loose = loose; w.run(f, [('S',), ('P', 1)]); FOLLOWED.update(x for x in w.fns if 'ppocr' in x); return w


def leaves(mod, name, off=0):
    """(offset, type) of the scalars and library objects of a struct"""
    L = mod.structs.get(name)
    if L is None: return None
    out = []
    for o, t in L:
        m = re.match(r'%"?((?:struct|class)\.[^"]+)"?$', t)
        if m and 'ppocr' in m.group(1) and m.group(1) in mod.structs:
            s = leaves(mod, m.group(1), off + o)
            out += s if s is not None else [(off + o, t)]
        elif re.match(r'\[\d+ x i8\]$', t): pass
        else: out.append((off + o, t))
    return out


def structname(mod, T):
    for k in ('struct.' + T, 'class.' + T):
        if k in mod.structs: return k
    return None


def base_of(a):
    b, o = stream.split(a); return b, o


# the type of the elements of a container type (the object a file of it consists of)
ELEM = {'ppocr::loader2::Views': 'ppocr::loader2::View', 'ppocr::loader2::Glyphs': 'ppocr::loader2::Glyph', 'ppocr::spell::Dictionary': 'ppocr::container::flat_trie<unsigned int>::node_type'}


def written(w):
    out = set()

    def go(ev):
        for e in ev:
            if e[0] == 'LOOP': stream.places(e[2], out); go(e[3])
            elif e[0] == 'IF': go(e[2]); go(e[3])
            else:
                for x in e[1:]: stream.places(x, out)
    go(w.ev); return out


def covered(mod, T, w):
    """fields of T (or of its elements) that the writer never looks at"""
    miss = []; n = 0
    P = written(w)
    todo = []
    s = structname(mod, T)
    if T in ELEM:
        cs = {stream.strip(e[2])[1] for e in w.ev if e[0] == 'LOOP' and e[2][0] == 'size'}
        for c in cs:
            s = structname(mod, ELEM[T])
            us = {a[2] for a, _ in ((base_of(p)[0], 0) for p, _ in P) if a[0] == 'el' and a[1] == c}
            for u in us: todo.append((('el', c, u), s))
        if not todo: return None, 0
    elif s: todo.append((('P', 1), s))
    for b, s in todo:
        L = leaves(mod, s)
        if L is None: return None, 0
        for o, t in L:
            n += 1
            if not any(base_of(p)[0] == b and base_of(p)[1] <= o < base_of(p)[1] + k for p, k in P): miss.append('%s at offset %d' % (s.split('.', 1)[1], o))
    return miss, n


def shorttype(T):
    if 'DefaultDatas<' in T: return 'DefaultDatas of %d strategies' % T.count('loader2::Strategy<')
    return T


def judge(R, where, T, wm, wf, rm, rf, eof, w=None, r=None, atleast1=False, loose=False):
    try: judged(R, where, T, wm, wf, rm, rf, eof, w, r, atleast1, loose); R.coverage['pairs'] = R.coverage.get('pairs', []) + ['%s (%s)' % (shorttype(T), where)]
    except stream.ByValue as e: R.bad('%s:%s' % (wf.file, wf.line), 'what is written is all that is there', '%s (%s): %s' % (shorttype(T), where, e))
    except stream.Undecided as e: R.coverage['not decided'] = R.coverage.get('not decided', []) + ['%s (%s): %s' % (shorttype(T), where, e)]


def judged(R, where, T, wm, wf, rm, rf, eof, w, r, atleast1, loose):
    w = w or walk(wm, wf); r = r or walk(rm, rf, loose)
    M = stream.Match(w, r, atleast1); M.loose = loose
    loc = rf.loc() if hasattr(rf, 'loc') else '%s:%s' % (rf.file, rf.line)
    name = shorttype(T)
    try:
        if loose: M.width = {}; res = [('order of %s' % name, None)]; ends = M.seq(w.ev, r.ev, (), False)
        else: res = M.check(eof=eof)
    except stream.Wrong as e:
        R.bad(loc, 'a reader takes off what the writer put on', '%s (%s): %s' % (name, where, e)); return
    for what, fault in res:
        if fault is None: R.ok('%s: %s' % (name, what))
        elif isinstance(fault, tuple): R.assumptions.append('%s: a test of the reader that is not decided: %s' % (name, what)) if '%s: a test of the reader that is not decided: %s' % (name, what) not in R.assumptions else None
        else: R.bad(loc, 'a reader takes off what the writer put on', '%s (%s): %s' % (name, where, fault))
    if loose: return
    miss, n = covered(wm, T, w)
    if miss is None: miss = []
    if 'DefaultDatas<' in T:
        K = T.count('loader2::Strategy<'); cs = set()

        def go(ev):
            for e in ev:
                if e[0] == 'LOOP':
                    if e[2][0] == 'size': cs.add(e[2][1])
                    go(e[3])
        go(w.ev); top = {e[2][1] for e in w.ev if e[0] == 'LOOP' and e[2][0] == 'size'}
        n = K
        if len(top) < K: miss.append('%d of %d feature tables' % (K - len(top), K))
    for m in miss: R.bad('%s:%s' % (wf.file, wf.line), 'every field is written', '%s: %s is never written' % (name, m))
    R.ok(n=n - len(miss))


def dump(units):
    # what returns a reference to an array must stay a call of its container
    return ir.dump(units, no_repo_inline=True, noinline=(r'std::vector<.*>::(emplace_back|push_back|back|front|at|operator\[\])(<.*>)?\(',))


def formats(tier):
    R = Result('proof', 'static analysis: writers and readers are reduced to their sequences of stream operations (loops to one generic turn), which are walked side by side')
    libs, exes = ir.jamroot_units()
    lib = dump(libs)
    W, D = functions(lib)
    pairs = sorted(set(W) & set(D))
    R.need(len(pairs) >= 7, 'writer and reader pairs found in the library: %s' % pairs)
    eofs = set()
    units = []
    for e in sorted(exes):
        if e not in ('write_datas', 'extract_text6', 'extract_text8', 'ocr2_extract_text'): continue
        units.append((e, dump([exes[e]] + libs)))
    for e, m in units:
        for f in m.fns:
            g = re.search(r'(?:load_from_file|read_file)<(.*)>\(', f.dem)
            if g: eofs.add(first_targ(g.group(1)))
    for T in pairs:
        judge(R, 'library', T, lib, W[T], lib, D[T], T in eofs)
    we = {}; rd = {}
    for e, m in units:
        w, r = functions(m)
        for T in w:
            if 'DefaultDatas<' in T: we[T] = (e, m, w[T])
        for T in r:
            if 'DefaultDatas<' in T: rd.setdefault(T, []).append((e, m, r[T]))
    R.need(we and rd, 'the writer and the readers of the feature tables')
    for T, (e, m, wf) in we.items():
        R.need(T in rd, 'a reader for the feature tables written by %s' % e)
        try: w = walk(m, wf)
        except (stream.ByValue, stream.Undecided): w = None
        for e2, m2, rf in rd[T]: judge(R, '%s -> %s' % (e, e2), T, m, wf, m2, rf, True, w=w)
    for T in rd:
        if T not in we: R.bad('%s:%s' % (rd[T][0][2].file, rd[T][0][2].line), 'a reader takes off what the writer put on', 'feature tables of other strategies than those that are written are read')
    # the reader of words and fonts takes the same file as the one of glyphs
    G = [T for T in D if T == 'ppocr::ocr2::Glyphs']
    R.need(G and 'ppocr::loader2::Glyphs' in W, 'the reader ocr2::Glyphs')
    judge(R, 'file of loader2::Glyphs', 'ppocr::ocr2::Glyphs', lib, W['ppocr::loader2::Glyphs'], lib, D[G[0]], False, loose=True)
    R.need(len(R.coverage.get('pairs', ())) >= 5 or R.violations, 'pairs of writer and reader that can be followed')
    for x in R.coverage.get('not decided', ()): print('NOT-DECIDED property=C08 ' + x)
    R.coverage['functions followed'] = len(FOLLOWED); R.coverage['functions'] = sorted(FOLLOWED)[:60]
    R.assumptions += ['words and font names contain no whitespace and are not empty', 'no pixel is a line feed', 'a container has less than 2^32 elements; the feature tables of one object have the same number of rows', 'the object read into is as a default constructor leaves it']
    return R


def first_targ(s):
    d = 0
    for k, ch in enumerate(s):
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        elif ch == ',' and d == 0: return s[:k].strip()
    return s.strip()
