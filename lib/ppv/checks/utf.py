"""C23: decoding UTF-8 stays inside the string, loses no byte and always moves on."""
import os, re
from .. import ir, bits
from ..absint import Engine, conv
from ..models import Models
from ..run import Result, pmap, consistent

DRIVER = os.path.join(ir.VERIF, 'drivers', 'utf.cpp')
STEP = r'^ppocr::utf::UTF8[A-Za-z]*Iterator::operator\+\+\('
BOTH = (STEP, r'^ppocr::utf::UTF8[A-Za-z]*Iterator::UTF8')
NUL = 1
def rng(a, b): return sum(1 << x for x in range(a, b + 1))
# well-formed sequences: set of values of each byte
FORMS = [[rng(0x01, 0x7F)], [rng(0xC2, 0xDF), rng(0x80, 0xBF)], [rng(0xE0, 0xEF), rng(0x80, 0xBF), rng(0x80, 0xBF)], [rng(0xF0, 0xF4), rng(0x80, 0xBF), rng(0x80, 0xBF), rng(0x80, 0xBF)]]


def bytes_of(n):
    r = ()
    for k in reversed(range(n)): r += bits.byte(k)
    return r + ((None, 0),) * (32 - len(r))


def code_of(n):
    if n == 1: return bytes_of(1)
    r = ()
    for k in reversed(range(1, n)): r += bits.byte(k)[:6]
    r += bits.byte(0)[:7 - n]
    return r + ((None, 0),) * (32 - len(r))


def agree(v, want, sets):
    for x, y in zip(bits.restrict(v, sets), bits.restrict(want, sets)):
        if x == bits.TOP or y == bits.TOP: return False
        s = sets.get(x[0] if x[0] is not None else y[0], bits.ALL)
        if x[0] is not None and y[0] is not None and x[0] != y[0]: return False
        if (x[1] ^ y[1]) & s: return False
    return True


def decode(R, f, want, name):
    cell = ('arg', 0)
    start = {((cell, 0), 8): ('src', 0)} if len(f.params) == 1 else {}
    try: ev = bits.explore(f, {0: ('mem', (cell, 0)), 1: ('src', 0)}, start)
    except bits.TooMany: raise ir.AnalysisBroken('too many abstract states in ' + name)
    rets = 0; covered = [0] * len(FORMS); cut = {}
    for kind, i, x, sets, sz in ev:
        where = '%s in %s' % (i.loc(), name)
        nz = lambda n: all(not sets.get(k, bits.ALL) & NUL for k in range(n))
        if kind == 'load':
            if x is not None and x >= 0 and sz == 1 and nz(x): R.ok('%s: byte %d read at %s only after %d non-zero bytes' % (name, x, i.loc(), x))
            else: R.bad(where, 'overrun', 'a byte may be read that lies behind the end of the string')
        elif kind == 'call': raise ir.AnalysisBroken('call of %s in the decoder' % i.dem[:60])
        elif kind == 'store': R.bad(where, 'overrun', 'the decoder writes to something else than itself')
        elif kind == 'ret':
            rets += 1
            pos = x.get(((cell, 0), 8)); v = x.get(((cell, 8), 4))
            if pos is None or pos[0] != 'src' or v is None: R.bad(where, 'unknown', 'what the decoder stores cannot be identified'); continue
            tb = bits.table(bits.restrict(v, sets)); live = dict(sets)
            if tb: live[tb[0]] = sets.get(tb[0], bits.ALL) & sum(1 << b for b in range(256) if tb[1][b])
            dead = bits.value(bits.restrict(v, sets)) == 0
            if dead or pos[1] >= 1 and all(not live.get(k, bits.ALL) & NUL for k in range(pos[1])): R.ok('%s: after a character of %d bytes the position is not behind the end' % (name, pos[1]))
            else: R.bad(where, 'overrun', 'a character is delivered but the position is now behind the end of the string, or has not moved')
            if not dead and want is bytes_of and pos[1] >= 1:
                if agree(v, bytes_of(min(pos[1], 4)), live): R.ok('%s: what is delivered is exactly the %d bytes passed' % (name, pos[1]))
                else: R.bad(where, 'lost', 'what is delivered is not exactly the bytes passed: a byte is lost, changed or delivered twice')
            for n, form in enumerate(FORMS):
                s2 = {k: sets.get(k, bits.ALL) & (form[k] if k < len(form) else bits.ALL) for k in set(sets) | set(range(len(form)))}
                if all(s2.values()): covered[n] = 1
                if not all(s2.values()): pass
                elif pos[1] == len(form) and agree(v, want(len(form)), s2): R.ok('%s: a well-formed character of %d bytes is delivered whole' % (name, len(form)))
                else: R.bad(where, 'lost', 'a well-formed character of %d bytes is not delivered whole' % len(form))
                if n == 0: continue
                for j in range(1, len(form)):
                    s3 = dict(sets); s3[0] = s3.get(0, bits.ALL) & form[0]; s3[j] = s3.get(j, bits.ALL) & NUL
                    for k in range(1, j): s3[k] = s3.get(k, bits.ALL) & ~NUL
                    if not all(s3.values()): continue
                    cut[(n, j)] = 1
                    if bits.value(bits.restrict(v, s3)) == 0: R.ok('%s: a character of %d bytes cut off after %d ends the text' % (name, len(form), j))
                    else: R.bad(where, 'cut', 'a character of %d bytes cut off after %d is delivered as if it were a character' % (len(form), j))
    R.need(R.violations or len(cut) == 6 and rets and all(covered), 'the decoder %s was not followed to its end' % name)


class StepModels(Models): pass


def clients(f, name):
    """each step of an iterator is taken only when its current character is not the end"""
    R = Result()
    M = Models(); E = Engine(f, M)
    steps = [i for i in f.calls() if re.search(STEP, i.dem)]
    E.solve(lambda E: True); consistent(E)
    for i in steps:
        p = E.P(conv(i.ops[0]))
        if p is None or not p[1].is_const(): R.bad('%s in %s' % (i.loc(), name), 'unknown', 'the iterator cannot be identified'); continue
        v = E._read((p[0], int(p[1].cval()) + 8, 4), i.bb, i.idx, 'i32')
        if E.prove(E.U(v, 32) - 1, (i.bb, i.idx), depth=4): R.ok('%s: the step at %s is taken from a character' % (name, i.loc()))
        else: R.bad('%s in %s' % (i.loc(), name), 'step', 'the iterator may be moved on although it already stands on the end of the string')
    return R


def outer(item):
    units, label = item
    m = ir.dump(units, noinline=list(BOTH), reach=list(BOTH))
    R = Result(); seen = set()
    for f in m.fns:
        if any(re.search(x, f.dem) for x in BOTH): continue
        for i in f.calls():
            if not re.search(STEP, i.dem): continue
            seen.add((i.d.get('file'), i.d.get('line')))
        if any(re.search(STEP, i.dem) for i in f.calls()): R.merge(clients(f, f.dem.split('(')[0][-70:] + label))
    R.coverage['client_sites'] = len(seen)
    return R


def decoding(thorough):
    R = Result('proof')
    m = ir.dump([DRIVER], roots=['^utf_'])
    fs = {f.dem.split('(')[0]: f for f in m.fns}
    R.need(len(fs) == 4, 'the decoders are not instantiated')
    for n, f in sorted(fs.items()): decode(R, f, bytes_of if 'bytes' in n else code_of, ('the first step of ' if 'first' in n else '') + ('UTF8Iterator' if 'bytes' in n else 'UTF8toUnicodeIterator'))
    libs, exes = ir.jamroot_units()
    for r in pmap(outer, [(libs, '')]): R.merge(r)
    R.need(R.coverage.get('client_sites', 0) >= 2, 'no use of the decoders found')
    R.coverage['rule'] = 'trace-partitioned abstract interpretation of the decoders over byte-value sets (every combination of byte values); each use is proved to step only from a non-zero character'
    R.assumptions += ['strings given to a decoder end with a zero byte (std::string::data)']
    return R
