"""Entailment of linear inequalities over the rationals (convex polyhedra domain).

Constraints are polynomials over atoms, read as linear forms over their monomials.
feasible(cons): cons = list of (poly dict, strict) meaning poly <= 0 (or < 0).
Exact two-phase simplex with Bland's rule on Fractions; no solver involved.
"""
from fractions import Fraction as F
from .terms import *
from . import terms as tm

_CACHE = {}
_MONO = {}      # monomial -> variable number
_MATOMS = []    # variable number -> atoms of the monomial
_ROWS = {}      # boolean term -> rows


def _var(m):
    j = _MONO.get(m)
    if j is None:
        j = len(_MATOMS)
        _MONO[m] = j
        _MATOMS.append(frozenset(at for at, e in m))
    return j


def row(p, strict):
    """poly <= 0 (or < 0) as an integer row ((var, coef)...), bound, strict:  sum coef*var <= bound"""
    from math import gcd
    den = 1
    for c in p.values():
        d = c.denominator
        den = den * d // gcd(den, d)
    v = []
    b = 0
    for m, c in p.items():
        if m:
            v.append((_var(m), int(c * den)))
        else:
            b = -int(c * den)
    v.sort()
    return tuple(v), b, strict


def feasible(cons):
    key = frozenset(cons)
    r = _CACHE.get(key)
    if r is None:
        r = _feasible(key)
        _CACHE[key] = r
    return r


def _feasible(cons):
    from math import gcd
    sys_ = _reduce([(dict(v), b, s) for v, b, s in sorted(cons)])
    if sys_ is None:
        return False
    while True:
        cnt = {}
        for v, b, s in sys_:
            for j, c in v.items():
                e = cnt.get(j)
                if e is None:
                    e = cnt[j] = [0, 0]
                e[0 if c > 0 else 1] += 1
        if not cnt:
            return True
        # choose the variable with the least product
        j = min(cnt, key=lambda j: (cnt[j][0] * cnt[j][1] - cnt[j][0] - cnt[j][1], j))
        pos, neg_, new = [], [], []
        for r in sys_:
            c = r[0].get(j)
            if c is None:
                new.append(r)
            elif c > 0:
                pos.append(r)
            else:
                neg_.append(r)
        if len(pos) * len(neg_) > 1200:
            return True  # give up: treated as feasible (no entailment claimed)
        for v1, b1, s1 in pos:
            a1 = v1[j]
            for v2, b2, s2 in neg_:
                a2 = -v2[j]
                g = gcd(a1, a2)
                m1, m2 = a2 // g, a1 // g
                v = {}
                for k, c in v1.items():
                    if k != j:
                        v[k] = c * m1
                for k, c in v2.items():
                    if k != j:
                        c2 = v.get(k, 0) + c * m2
                        if c2:
                            v[k] = c2
                        else:
                            v.pop(k, None)
                new.append((v, b1 * m1 + b2 * m2, s1 or s2))
        sys_ = _reduce(new)
        if sys_ is None:
            return False
        if len(sys_) > 900:
            return True


def _reduce(sys_):
    from math import gcd
    best = {}
    for v, b, s in sys_:
        if not v:
            if b < 0 or (s and b <= 0):
                return None
            continue
        g = 0
        for c in v.values():
            g = gcd(g, c)
        k = tuple(sorted((i, c // g) for i, c in v.items())) if g != 1 else tuple(sorted(v.items()))
        o = best.get(k)
        # compare b/g with o
        if o is None or b * o[1] < o[0] * g or (b * o[1] == o[0] * g and s and not o[2]):
            best[k] = (b, g, s)
    out = []
    for k, (b, g, s) in best.items():
        d = gcd(b, g)
        b, g = b // d, g // d
        out.append(({i: c * g for i, c in k} if g != 1 else dict(k), b, s))
    return out


def cons_of(fact):
    """linear constraints of a boolean term assumed true (or [])"""
    r = _ROWS.get(fact)
    if r is None:
        r = _ROWS[fact] = _cons_of(fact)
    return r


def _cons_of(fact):
    if fact.op == "lt0":
        return (row(to_poly(fact.a[0]), True),)
    if fact.op == "le0":
        return (row(to_poly(fact.a[0]), False),)
    if fact.op == "eq0":
        p = to_poly(fact.a[0])
        return (row(p, False), row({m: -c for m, c in p.items()}, False))
    if fact.op == "and":
        out = ()
        for x in fact.a:
            out += cons_of(x)
        return out
    return ()


_FATOMS = {}


def fact_atoms(fact):
    r = _FATOMS.get(fact)
    if r is None:
        r = frozenset(atoms_of_cons(cons_of(fact)))
        # bounds of the drawn and rounded numbers link them to the atoms of their arguments
        for at in list(r):
            if at.op in ("rnd", "max", "int", "floor", "ceil", "round", "abs"):
                r = r | inner_atoms(at)
        _FATOMS[fact] = r
    return r


_INNER = {}


def inner_atoms(at):
    r = _INNER.get(at)
    if r is None:
        s = set()
        args = at.a[2] if at.op == "rnd" else at.a
        for x in args:
            if isinstance(x, T):
                for m in to_poly(x):
                    for q, e in m:
                        s.add(q)
                        if q.op in ("rnd", "max", "int", "floor", "ceil", "round", "abs"):
                            s |= inner_atoms(q)
        r = _INNER[at] = frozenset(s)
    return r


def atoms_of_cons(cons):
    s = set()
    for v, b, st in cons:
        for j, c in v:
            s |= _MATOMS[j]
    return s


def _le(x, y):
    """x <= y as a constraint"""
    return row(p_add(to_poly(x), to_poly(y), F(-1)), False)


def _lt(x, y):
    return row(p_add(to_poly(x), to_poly(y), F(-1)), True)


_MEMO = {}
_EXTRA = {}
_AXM = {}


def mask_len(m):
    """length of an elementwise condition, from the ranges it is made of"""
    for x in subterms(m):
        if x.op == "range" and x.a[2] is ONE:
            return sub(x.a[1], x.a[0])
        if x.op in ("zeros", "full"):
            return x.a[0]
    return None


class Facts:
    """entailment with axioms of the atoms; depth-limited"""

    def __init__(self, facts, axioms=None):
        self.facts = list(facts)
        self.extra_axioms = axioms  # callable atom -> list of facts (boolean terms)
        self.depth = 0
        k = (axioms, tuple(self.facts))
        c = _MEMO.get(k)
        if c is None:
            if len(_MEMO) > 3000:
                _MEMO.clear()
            c = _MEMO[k] = ({}, {})
        self.signs, self.known = c

    # ---- saturation: constraints relevant to a set of atoms
    def constraints(self, atoms, skip=()):
        cons = []
        todo = list(atoms)
        seen = set()
        used = set()
        fc = [(f, cons_of(f)) for f in self.facts]
        fc = [(cs, fact_atoms(f)) for f, cs in fc if cs]
        while todo:
            at = todo.pop()
            if at in seen:
                continue
            seen.add(at)
            for c in self.axioms(at):
                cons.append(c)
                for q in atoms_of_cons([c]):
                    if q not in seen:
                        todo.append(q)
            for i, (cs, fa) in enumerate(fc):
                if i in used:
                    continue
                if at in fa:
                    used.add(i)
                    cons += cs
                    for q in fa:
                        if q not in seen:
                            todo.append(q)
        return cons, seen

    def axioms(self, at):
        r = _AXM.get(at)
        if r is None:
            r = self._axioms(at)
            if at.op not in ("int", "floor", "ceil", "round", "rnd"):
                _AXM[at] = r
        out = list(r)
        if self.extra_axioms:
            k = (self.extra_axioms, at)
            r = _EXTRA.get(k)
            if r is None:
                r = []
                for f in self.extra_axioms(at):
                    r += cons_of(f)
                _EXTRA[k] = r
            out += r
        return out

    def _axioms(self, at):
        out = []
        op = at.op
        if op == "max":
            for x in at.a:
                out.append(_le(x, at))
        elif op in ("int", "floor", "ceil", "round"):
            x = at.a[0]
            if op == "floor":
                out += [_le(at, x), _lt(sub(x, ONE), at)]
            elif op == "ceil":
                out += [_le(x, at), _lt(at, add(x, ONE))]
            elif op == "round":
                h = const(F(1, 2))
                out += [_le(sub(x, h), at), _le(at, add(x, h))]
            else:
                out += [_lt(sub(x, ONE), at), _lt(at, add(x, ONE))]
                s = self.sign(x)
                if s == 1:
                    out += [_le(at, x), _le(ZERO, at)]
                elif s == -1:
                    out += [_le(x, at), _le(at, ZERO)]
            # monotone: f(x) between f(bounds) when x is a single bounded draw
            b = self.bounds(x)
            if b:
                lo, hi = b
                out += [_le(rounder(op, lo), at), _le(at, rounder(op, hi))]
        elif op == "rnd":
            b = self.bounds(at)
            if b:
                out += [_le(b[0], at), _le(at, b[1])]
        elif op == "len":
            out.append(_le(ZERO, at))
            if at.a[0].op == "nonzero":
                n = mask_len(at.a[0].a[0])
                if n is not None:
                    out.append(_le(at, n))
        elif op in ("amax", "amin") and at.a[0].op == "nonzero":
            # an index of a mask
            out.append(_le(ZERO, at))
            n = mask_len(at.a[0].a[0])
            if n is not None:
                out.append(_le(at, sub(n, ONE)))
        elif op == "abs":
            out += [_le(ZERO, at), _le(at.a[0], at), _le(neg(at.a[0]), at)]
        elif op == "ind":
            out += [_le(ZERO, at), _le(at, ONE)]
        elif op == "sum" and at.a[2].op == "ind":
            # how many of the n cases
            out += [_le(ZERO, at), _le(at, at.a[1])]
        elif op == "bv":
            out.append(_le(ZERO, at))
        return out

    def bounds(self, x):
        """(lo, hi) terms if x is a uniform/randint draw with decided order of bounds"""
        if x.op == "rnd" and x.a[0] in ("uniform", "randint"):
            lo, hi = x.a[2]
            if x.a[0] == "randint":
                return lo, hi
            d = sub(hi, lo)
            s = self.sign(d)
            if s == 1:
                return lo, hi
            if s == -1:
                return hi, lo
        return None

    def sign(self, x):
        if is_num(x):
            return 1 if F(x.a[1]) >= 0 else -1
        r = self.signs.get(x)
        if r is not None:
            return r
        if self.depth > 3:
            return 0
        self.depth += 1
        # while it is being decided, nothing is known
        self.signs[x] = 0
        try:
            r = 1 if self.entails(le(ZERO, x)) else (-1 if self.entails(le(x, ZERO)) else 0)
        finally:
            self.depth -= 1
            del self.signs[x]
        if r or self.depth == 0:
            self.signs[x] = r
        return r

    # ---- queries
    def entails(self, c):
        """True if the facts imply the boolean term c"""
        if c is TRUE:
            return True
        r = self.known.get(c)
        if r is None:
            r = self._entails(c)
            if r or self.depth == 0:
                self.known[c] = r
        return r

    def _entails(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return not self.consistent()
        if c in self.facts:
            return True
        for f in self.facts:
            if f.op == "and" and c in f.a:
                return True
        if c.op == "and":
            return all(self.entails(x) for x in c.a)
        if c.op == "or":
            if any(self.entails(x) for x in c.a):
                return True
            # not all disjuncts can be false
            return not self._sat([not_(x) for x in c.a])
        if c.op == "eq0":
            p = c.a[0]
            return self.entails(le(p, ZERO)) and self.entails(le(ZERO, p))
        if c.op == "not" and c.a[0].op == "eq0":
            p = c.a[0].a[0]
            return self.entails(lt(p, ZERO)) or self.entails(lt(ZERO, p)) or not self._sat([c.a[0]])
        if c.op in ("lt0", "le0"):
            return not self._sat([not_(c)])
        # disjunctive facts: unit propagation
        for f in self.facts:
            if f.op == "or" and c in f.a:
                others = [x for x in f.a if x is not c]
                if all(not_(x) in self.facts for x in others):
                    return True
        return False

    def consistent(self):
        for f in self.facts:
            if f is FALSE or not_(f) in self.facts:
                return False
        # one value equal to two texts
        known = {}
        for f in self.facts:
            if f.op == "eq" and len(f.a) == 2:
                for x, y in (f.a, f.a[::-1]):
                    if is_str(x) and y.op != "c" and known.setdefault(y, x) is not x:
                        return False
        return self._sat([])

    def consistent_max(self):
        """consistency with the maxima split into cases"""
        allc = []
        for f in self.facts:
            allc += cons_of(f)
        cons, seen = self.constraints(atoms_of_cons(allc))
        disj = [mk("or", *[le(at, x) for x in at.a]) for at in seen if at.op == "max"]
        return self._case(cons, disj[:7], [])

    def _sat(self, extra):
        lits = []
        disj = []
        for f in list(extra):
            if f.op == "and":
                for x in f.a:
                    (disj if x.op == "or" else lits).append(x)
            elif f.op == "or":
                disj.append(f)
            elif f is FALSE:
                return False
            else:
                lits.append(f)
        for x in lits:
            if x.op not in ("lt0", "le0", "eq0") and (not_(x) in self.facts):
                return False
        base = []
        for f in lits:
            base += cons_of(f)
        atoms = atoms_of_cons(base)
        for f in disj:
            for x in f.a:
                atoms |= atoms_of_cons(cons_of(x))
        if not atoms and not disj:
            if not extra:
                allc = []
                for f in self.facts:
                    allc += cons_of(f)
                atoms = atoms_of_cons(allc)
                cons, _ = self.constraints(atoms)
                return feasible(cons)
            return True
        cons, seen = self.constraints(atoms)
        # relevant disjunctions among the facts, and defining disjunctions of max atoms and inequations
        for f in self.facts:
            if f.op == "or":
                cs = [cons_of(x) for x in f.a]
                if all(cs) and any(fact_atoms(x) & seen for x in f.a):
                    disj.append(f)
            elif f.op == "not" and f.a[0].op == "eq0":
                p = f.a[0].a[0]
                if any(at in seen for m in to_poly(p) for at, e in m):
                    disj.append(mk("or", lt(p, ZERO), lt(ZERO, p)))
        for f in lits:
            if f.op == "not" and f.a[0].op == "eq0":
                p = f.a[0].a[0]
                disj.append(mk("or", lt(p, ZERO), lt(ZERO, p)))
        for at in list(seen):
            if at.op == "max" and len(disj) < 7:
                disj.append(mk("or", *[le(at, x) for x in at.a]))
        return self._case(base + cons, disj[:7], lits)

    def _case(self, cons, disj, lits):
        if not feasible(cons):
            return False
        if not disj:
            return True
        d, rest = disj[0], disj[1:]
        for x in d.a:
            if x is TRUE:
                if self._case(cons, rest, lits):
                    return True
                continue
            if not_(x) in lits or x is FALSE:
                continue
            cs = cons_of(x)
            if self._case(cons + list(cs), rest, lits + [x]):
                return True
        return False
