"""Integer polynomials over interned atoms, and entailment of polynomial inequalities
(Handelman products + a rational certificate found with an LP and re-checked exactly)."""
from fractions import Fraction
import math, warnings
import numpy as np
import ctypes

_lib = None


def _simplex(A, b, c, phase1only):
    """min c.x, A x = b, x>=0 -> (status, x)"""
    global _lib
    if _lib is None:
        from . import ir
        _lib = ctypes.CDLL(ir.ensure_lp())
        _lib.ppv_lp.restype = ctypes.c_int
    m, n = A.shape
    x = np.zeros(n)
    dp = ctypes.POINTER(ctypes.c_double)
    st = _lib.ppv_lp(m, n, A.ctypes.data_as(dp), b.ctypes.data_as(dp), c.ctypes.data_as(dp), x.ctypes.data_as(dp), 1 if phase1only else 0)
    return st, x


class Poly:
    __slots__ = ('c', '_h', '_at')

    def __init__(self, c=None):
        self.c = {m: v for m, v in (c or {}).items() if v != 0}
        self._h = None; self._at = None

    @staticmethod
    def const(v): return Poly({(): v})

    @staticmethod
    def atom(a): return Poly({(a,): 1})

    def __add__(self, o):
        if isinstance(o, (int, Fraction)): o = Poly({(): o})
        r = dict(self.c)
        for m, v in o.c.items(): r[m] = r.get(m, 0) + v
        return Poly(r)

    def __neg__(self): return Poly({m: -v for m, v in self.c.items()})

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)): o = Poly({(): o})
        return self + (-o)

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)): return Poly({m: v * o for m, v in self.c.items()})
        r = {}
        for m, v in self.c.items():
            for n, w in o.c.items():
                k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + v * w
        return Poly(r)

    def __eq__(self, o): return isinstance(o, Poly) and self.c == o.c

    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.c.items()))
        return self._h

    def is_const(self): return all(m == () for m in self.c)

    def cval(self): return self.c.get((), 0)

    def atoms(self):
        if self._at is None:
            s = set()
            for m in self.c: s.update(m)
            self._at = frozenset(s)
        return self._at

    def degree(self): return max((len(m) for m in self.c), default=0)

    def subst(self, sub):
        """sub: atom -> Poly"""
        if not (self.atoms() & set(sub)): return self
        r = Poly()
        for m, v in self.c.items():
            t = Poly({(): v})
            rest = []
            for a in m:
                if a in sub: t = t * sub[a]
                else: rest.append(a)
            if rest: t = t * Poly({tuple(sorted(rest)): 1})
            r = r + t
        return r

    def common_atoms(self):
        """atoms dividing every monomial"""
        ms = list(self.c)
        if not ms or () in self.c: return []
        out = []
        first = list(ms[0])
        for a in set(first):
            if all(a in m for m in ms): out.append(a)
        return out

    def divide_atom(self, a):
        r = {}
        for m, v in self.c.items():
            l = list(m); l.remove(a); r[tuple(l)] = v
        return Poly(r)

    def show(self, names):
        if not self.c: return '0'
        s = []
        for m, v in sorted(self.c.items(), key=lambda x: (len(x[0]), x[0])):
            t = '*'.join(names(a) for a in m)
            s.append(('%s*%s' % (v, t) if v != 1 else t) if t else str(v))
        return ' + '.join(s)


ZERO = Poly(); ONE = Poly.const(1)


class LP:
    """system of facts p>=0 (ints); decides goal>=0."""
    big = None
    stats = dict(lp=0, cert=0, badcert=0)

    def __init__(self, facts, maxprod=700, goalmons=(), noprod=False):
        self.plain = None
        # dedupe
        self.facts = list(dict.fromkeys(f for f in facts if not f.is_const() or f.cval() < 0))
        need = set()
        for f in self.facts:
            for m in f.c:
                if len(m) >= 2: need.add(m)
        for m in goalmons:
            if len(m) >= 2: need.add(m)
        self.cols = list(self.facts)
        if need and not noprod:
            # close degree-3 needs over degree-2 factors
            pair = set(m for m in need if len(m) == 2)
            tri = set(m for m in need if len(m) >= 3)
            nl = set(a for m in need for a in m)
            if LP.big is not None and (LP.big, LP.big) in pair:
                # ranges given in terms of 2^31: their products with it are needed too
                pair |= set((x, LP.big) if x <= LP.big else (LP.big, x) for x in nl)
            lin = [f for f in self.facts if f.degree() == 1 and f.atoms() & nl]
            # the lower bound of 2^31 enters products in a weaker form that keeps the coefficients small
            lin = [Poly.atom(LP.big) - 16 if f.atoms() == {LP.big} and f.c.get((LP.big,)) == 1 else f for f in lin]
            quad = [f for f in self.facts if f.degree() == 2]
            prods = []
            # bridges: x <= z <= y gives x*w <= z*w <= y*w, although z*w occurs nowhere
            allin = [f for f in self.facts if f.degree() == 1 and 2 <= len(f.atoms()) <= 3]
            partner = {}
            for m in pair:
                partner.setdefault(m[0], set()).add(m[1]); partner.setdefault(m[1], set()).add(m[0])
            near = {}
            for f in allin:
                at = f.atoms()
                for z in at:
                    for x in at:
                        if x != z and x in partner and z != LP.big and x != LP.big: near.setdefault(z, set()).add(x)
            bridged = set()
            for z, xs in near.items():
                if len(xs) < 2: continue
                for w in set().union(*(partner[x] for x in xs)):
                    if w == LP.big: continue
                    m = (z, w) if z <= w else (w, z)
                    if m not in pair and sum(1 for x in xs if w in partner[x]) >= 2: bridged.add(m)
            if bridged and len(bridged) <= 6:
                pair |= bridged; nl |= set(a for m in bridged for a in m)
                lin = [f for f in self.facts if f.degree() == 1 and f.atoms() & nl]
                lin = [Poly.atom(LP.big) - 16 if f.atoms() == {LP.big} and f.c.get((LP.big,)) == 1 else f for f in lin]
            # also allow pairs touching a subset of triples
            for t in tri:
                for i in range(len(t)):
                    pair.add(tuple(sorted(t[:i] + t[i + 1:])))
            def ok2(f, g):
                fa = f.atoms(); ga = g.atoms()
                for a in fa:
                    for b in ga:
                        if ((a, b) if a <= b else (b, a)) not in pair: return False
                return True
            for i in range(len(lin)):
                for j in range(i, len(lin)):
                    if ok2(lin[i], lin[j]):
                        if abs(lin[i].cval() * lin[j].cval()) > 1e13: continue
                        prods.append(lin[i] * lin[j])
                        if len(prods) > maxprod: break
                if len(prods) > maxprod: break
            if tri:
                q2 = quad + [p for p in prods]
                for f in lin:
                    for q in q2:
                        p = f * q
                        if all(len(m) < 3 or m in tri for m in p.c):
                            prods.append(p)
                            if len(prods) > 3 * maxprod: break
            seen = set(self.cols)
            for p in prods:
                if p not in seen: seen.add(p); self.cols.append(p)
        self.mons = {}
        for f in self.cols:
            for m in f.c:
                if m and m not in self.mons: self.mons[m] = len(self.mons)
        n = len(self.cols); k = len(self.mons)
        self.const = np.zeros(n)
        self.A = np.zeros((k, n))
        for j, f in enumerate(self.cols):
            for m, v in f.c.items():
                if m == (): self.const[j] = float(v)
                else: self.A[self.mons[m], j] = float(v)

    def _solve(self, goal, maximize_slack=True):
        """find lambda>=0 with goal = sum lambda*cols + slack, slack>=0. returns exact slack or None"""
        if goal.is_const() and goal.cval() >= 0: return True
        if not self.cols: return None
        for m in goal.c:
            if m and m not in self.mons: return None
        b = np.zeros(len(self.mons))
        for m, v in goal.c.items():
            if m: b[self.mons[m]] = float(v)
        g0 = float(goal.cval())
        LP.stats['lp'] += 1
        k, n = self.A.shape
        # maximise the slack g0 - const.lam subject to A lam = b
        st, x = _simplex(self.A, b, self.const, False)
        if st == 0:
            # the certificate is re-checked exactly, the threshold may be generous
            if float(np.dot(self.const, x)) > g0 + 1e-6 + 1e-8 * float(np.dot(np.abs(self.const), x)): return None
            return self._check(goal, x)
        if st == 1: return None
        # unbounded: the facts are contradictory; find one certificate
        M = np.zeros((k + 1, n + 1)); M[:k, :n] = self.A; M[k, :n] = self.const; M[k, n] = 1.0
        st, x = _simplex(M, np.append(b, g0), np.zeros(n + 1), True)
        if st != 0: return None
        return self._check(goal, x[:n], True)

    def _check(self, goal, x, crow=False):
        sup = [j for j in range(len(x)) if x[j] > 1e-8]
        lam = {j: Fraction(float(x[j])).limit_denominator(4096) for j in sup}
        if self._verify(goal, lam):
            LP.stats['cert'] += 1; return True
        lam = self._exact(goal, sup, crow)
        if lam is not None and self._verify(goal, lam):
            LP.stats['cert'] += 1; return True
        LP.stats['badcert'] += 1
        return None

    def _verify(self, goal, lam):
        r = dict(goal.c)
        for j, l in lam.items():
            if l < 0: return False
            for m, v in self.cols[j].c.items():
                r[m] = r.get(m, 0) - l * v
        for m, v in r.items():
            if m != () and v != 0: return False
        return r.get((), 0) >= 0

    def _exact(self, goal, sup, crow=False):
        rows = sorted(set(m for j in sup for m in self.cols[j].c if m) | set(m for m in goal.c if m))
        if crow: rows.append(())
        M = [[Fraction(self.cols[j].c.get(m, 0)) for j in sup] + [Fraction(goal.c.get(m, 0))] for m in rows]
        n = len(sup); piv = []; r = 0
        for c in range(n):
            p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
            if p is None: continue
            M[r], M[p] = M[p], M[r]
            iv = M[r][c]; M[r] = [v / iv for v in M[r]]
            for i in range(len(M)):
                if i != r and M[i][c] != 0:
                    f = M[i][c]; M[i] = [a - f * b for a, b in zip(M[i], M[r])]
            piv.append(c); r += 1
        for i in range(r, len(M)):
            if M[i][n] != 0: return None
        lam = {sup[c]: Fraction(0) for c in range(n)}
        for i, c in enumerate(piv): lam[sup[c]] = M[i][n]
        return lam

    def entails(self, goal):
        if len(self.cols) > len(self.facts):
            # the facts alone, nonlinear monomials read as unknowns: cheaper and numerically tamer than with the products
            if self.plain is None: self.plain = LP(self.facts, noprod=True)
            if self.plain._solve(goal) is True: return True
        return self._solve(goal) is True

    def upper(self, e):
        """least integer-checked upper bound of e: returns Fraction or None (exact, certified)"""
        if not self.cols: return None
        for m in e.c:
            if m and m not in self.mons: return None
        b = np.zeros(len(self.mons))
        for m, v in e.c.items():
            if m: b[self.mons[m]] = -float(v)
        # mu - e = sum lam*cols  -> minimise mu = sum lam*const (+ e0)
        LP.stats['lp'] += 1
        st, x = _simplex(self.A, b, self.const, False)
        if st != 0: return None
        sup = [j for j in range(len(x)) if x[j] > 1e-8]
        lam = self._exact(Poly({m: -v for m, v in e.c.items() if m}), sup)
        if lam is None or any(l < 0 for l in lam.values()): return None
        mu = sum(l * self.cols[j].c.get((), 0) for j, l in lam.items())
        return Fraction(mu) + e.cval()
