"""Common driver of every check: run the rule, write evidence, print the outcome."""
import json, os, sys, time, traceback, importlib, argparse
sys.setrecursionlimit(20000)
from . import ir

EVID = os.environ.get('PPV_EVIDENCE', os.path.join(ir.VERIF, 'evidence'))
KNOWN = os.path.join(ir.VERIF, 'known-findings.txt')


class Result:
    """violations: list of dict(where=, rule=, what=[, path=]); coverage: dict of measured counts"""
    def __init__(self, level='proof', technique=''):
        self.level = level; self.violations = []; self.coverage = {}; self.assumptions = []
        self.obligations = 0; self.discharged = 0; self.samples = []

    def ok(self, what=None, n=1):
        self.obligations += n; self.discharged += n
        if what and len(self.samples) < 12: self.samples.append(what)

    def bad(self, where, rule, what, **kw):
        self.obligations += 1
        v = dict(where=where, rule=rule, what=what); v.update(kw)
        if v not in self.violations: self.violations.append(v)

    def need(self, cond, msg):
        """an anchor of the rule vanished: neither pass nor violation"""
        if not cond: raise ir.AnalysisBroken(msg)

    def merge(self, o):
        self.obligations += o.obligations; self.discharged += o.discharged
        for v in o.violations:
            if v not in self.violations: self.violations.append(v)
        for s in o.samples:
            if len(self.samples) < 12: self.samples.append(s)
        for k, x in o.coverage.items():
            if isinstance(x, int): self.coverage[k] = self.coverage.get(k, 0) + x
            elif isinstance(x, list): self.coverage.setdefault(k, []); self.coverage[k] += [y for y in x if y not in self.coverage[k]]
            else: self.coverage[k] = x
        for a in o.assumptions:
            if a not in self.assumptions: self.assumptions.append(a)


def known():
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> where=<regex> what=<text>
                d = dict(p.split('=', 1) for p in l[9:].split(' | '))
                r.append(d)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args()
    from .checks import REGISTRY
    tier = 'thorough' if a.thorough else 'quick'
    t = time.time()
    try:
        mod, fn = REGISTRY[a.property]
        f = getattr(importlib.import_module('ppv.checks.' + mod), fn)
        r = f(a.thorough)
        if not r.obligations: raise ir.AnalysisBroken('the rule found nothing to decide')
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, e)); return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % a.property); return 2
    import re
    kn = [k for k in known() if k['property'] == a.property]
    new, old = [], []
    for v in r.violations:
        k = next((k for k in kn if re.search(k['where'], v['where']) and re.search(k.get('match', ''), v['what'])), None)
        (old if k else new).append((v, k))
    cov = dict(r.coverage)
    cov.update(obligations=r.obligations, discharged=r.discharged, samples=r.samples or cov.get('samples', []))
    if r.level == 'proof':
        cov.setdefault('checker_cmd', 'python3-vt /verif/check.py %s%s' % (a.property, ' --thorough' if a.thorough else ''))
        cov.setdefault('trusted_base', ['clang 18 front end (source to IR)', 'tools/irdump.cpp (normalisation of the IR)', 'the transfer functions in lib/ppv'])
    elif r.level == 'other':
        cov.setdefault('explanation', 'static rule over the current source')
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=a.property, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=r.level, coverage=cov,
              wall_s=round(time.time() - t, 2), assumptions=r.assumptions,
              violations=len(new))
    json.dump(ev, open(os.path.join(EVID, a.property + '.json'), 'w'), indent=1)
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k.get('text', v['what'])))
    if new:
        rp = os.path.join(EVID, a.property + '.violation.json')
        json.dump([v for v, _ in new], open(rp, 'w'), indent=1, default=str)
        for v, _ in new[:10]:
            print('%s: [%s] %s' % (v['where'], v['rule'], v['what']))
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    print('%s holds: %d obligations, %d discharged, %.1fs' % (a.property, r.obligations, r.discharged, time.time() - t))
    return 0


def pmap(fn, items, workers=None):
    """run fn over items in parallel processes (fork); an AnalysisBroken in one propagates"""
    import multiprocessing as mp
    n = workers or min(8, len(items), os.cpu_count() or 4)
    if n <= 1: return [fn(x) for x in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(n) as p:
        return p.map(fn, items, chunksize=1)


def consistent(E, blocks=None):
    """guard of the prover itself: the facts of no live loop header or return may be contradictory"""
    from .poly import LP, Poly
    F = E.fn
    bl = blocks if blocks is not None else [b for b in F.rpo if b in F.loops or F.blocks[b][-1].op == 'ret']
    for b in bl:
        ine, dis = E.block_facts(b)
        sub, ine, dis = E.eliminate(ine, dis)
        if any(f.is_const() and f.cval() < 0 for f in ine) or LP([E.norm(f) for f in ine]).entails(Poly.const(-1)):
            raise ir.AnalysisBroken('contradictory facts at %s in %s' % (F.blocks[b][0].loc(), F.dem.split('(')[0]))
