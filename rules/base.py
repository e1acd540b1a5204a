"""Common machinery of the rules: scenarios, obligations, equality of values up to the drawn numbers."""
import itertools
import os
import re
import signal
import sys
import time
import traceback

from pyabs import interp as ip
from pyabs import models
from pyabs import terms as tm
from pyabs.interp import Interp, Repo, St, Unsupported, AnchorMissing, flatten
from pyabs.lp import Facts
from pyabs.terms import *

CHECKS = {}

CACHES = ("lru_cache", "cache", "cached_property", "memoize", "cachedmethod")


def stale_results(c):
    """a function the property depends on keeps its result although what it reads can change"""
    import ast
    writes = set()
    for m in c.repo.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name != "__init__":
                writes |= {y.attr for y in ast.walk(f) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
    for m in c.repo.modules.values():
        todo = [(x, "") for x in m.tree.body]
        while todo:
            x, cls = todo.pop()
            if isinstance(x, ast.ClassDef):
                todo += [(y, x.name) for y in x.body]
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) or not x.args.args:
                continue
            if (f"{cls}.{x.name}" if cls else f"{m.name}.{x.name}") not in c.analysed:
                continue
            for d in x.decorator_list:
                d = d.func if isinstance(d, ast.Call) else d
                n = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
                if n not in CACHES or not cls:
                    continue
                first = x.args.args[0].arg
                reads = sorted({y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == first
                                and isinstance(y.ctx, ast.Load)})
                where = f"{os.path.relpath(m.path, c.root)}:{cls}.{x.name}:{x.lineno}"
                if any(a in writes or not a.startswith("_") for a in reads):
                    c.bad("no-stale-results", where, f"{n} keeps the result of {x.name}, computed from {reads}, when these change")
                elif reads:
                    c.undec("no-stale-results", where, f"{n} keeps the result of {x.name}")

# what the constructor parameters are in the domain of the properties
APP_INT = ("number func_time func_cycle num_windows fixed_cycle random_var_1 random_var_2 random_var_3 pref_index wd_we_type "
           "current_duty_cycle_id t_11 t_12 t_21 t_22 t_31 t_32 continuous_duty_cycle").split()
APP_NUM = ("time_fraction_random_variability occasional_use thermal_p_var random_var_w r_c1 r_c2 r_c3 p_11 p_12 p_21 p_22 p_31 "
           "p_32").split()
APP_PAIR = "window_1 window_2 window_3 cw11 cw12 cw21 cw22 cw31 cw32".split()


def default_types():
    ip.SCEN_FIELD_TY.clear()
    ip.EXTRA_FIELD_TY.clear()
    S = ip.SCEN_FIELD_TY
    for k in APP_INT:
        S[("Appliance", k)] = "int"
    for k in APP_NUM:
        S[("Appliance", k)] = "num"
    for k in APP_PAIR:
        S[("Appliance", k)] = "pair"
    for k in ("num_users", "user_preference", "rand_daily_pref"):
        S[("User", k)] = "int"
    S[("Appliance", "daily_use")] = "nd"
    S[("Appliance", "power")] = "nd"
    for k in ("random_cycle1", "random_cycle2", "random_cycle3"):
        S[("Appliance", k)] = "nd"
    S[("Appliance", "name")] = "str"
    S[("User", "user_name")] = "str"
    S[("User", "load")] = "nd"


class Missing(Exception):
    """an entry point named by the property does not exist (any more)"""


class Ctx:
    def __init__(self, pid, root, tier):
        self.pid, self.root, self.tier = pid, root, tier
        self.repo = Repo(root)
        self.oks = []
        self.bads = []
        self.undecs = []
        self.missing = []
        self.rules = []
        self.consulted = set()
        self.analysed = {}
        self.outcomes = 0
        self.clip = self.extra = 0
        self.samples = []
        self.t0 = time.time()
        self.total = 0
        self.cur = ""

    # ------------------------------------------------------------ running the interpreter
    def interp(self, stubs=None, limit=120, **kw):
        I = Interp(self.repo, stubs=stubs, **kw)
        I.deadline = time.time() + limit
        for c in ("UseCase", "User", "Appliance", "Plot"):
            I.find_class(c)
        tm.types_changed()
        self.I = I
        return I

    def run(self, I, qual, st, args, kwargs=None, setter=False):
        try:
            outs = I.run(qual, st, args, kwargs, setter=setter)
        except AnchorMissing as e:
            raise Missing(str(e))
        self.analysed[qual] = self.analysed.get(qual, 0) + len(outs)
        for q, n in I.called.items():
            self.analysed.setdefault(q, 0)
        self.consulted |= I.consulted
        self.outcomes += len(outs)
        self.clip = max(self.clip, I.clip)
        return outs

    def sized(self, *fns):
        """run the obligations over collections of a few objects; when a constant in the code exceeds their number (a slice,
        a minimum, a comparison of a length), also over collections larger than that constant"""
        for fn in fns:
            self.clip = 0
            fn(self)
            if self.clip:
                self.extra = self.clip + 1
                fn(self)
                self.extra = 0

    def steps(self, I, st, seq, keep_events=False):
        """normal outcomes of calling the given entry points (qual, args, kwargs[, setter]) one after the other"""
        states = [st]
        for q in seq:
            nxt = []
            for s in states:
                for o in self.run(I, q[0], s, list(q[1]), dict(q[2]), setter=len(q) > 3 and q[3]):
                    if o.ctrl and o.ctrl[0] == "return":
                        o.ctrl = None
                        o.env = {}
                        if not keep_events:
                            o.events = []
                        nxt.append(o)
            states = nxt
        return states

    def get(self, I, s, qual, obj):
        """value of a property of an object in a state (None if not determined)"""
        s2 = s.copy()
        s2.ctrl = None
        outs = self.run(I, qual, s2, [obj])
        vs = {I.snap(o, o.ctrl[1]) if o.ctrl and o.ctrl[0] == "return" else None for o in outs}
        return vs.pop() if len(vs) == 1 else None

    def where(self, I, qual, node=None):
        f = I.get_func(qual) if qual else None
        fi = I.funcs.get(f) if f is not None else None
        if fi is None:
            return qual
        path = os.path.relpath(fi.mod.path, self.root)
        return f"{path}:{qual}:{getattr(node, 'lineno', None) or fi.node.lineno}"

    # ------------------------------------------------------------ recording
    def only(self, *names):
        """with c.only(..): of the obligations of a shared analysis, those which this property states"""
        return Only(self, names)

    def ok(self, rule, construct=""):
        self.oks.append((rule, construct))

    def bad(self, rule, construct, detail):
        for b in self.bads:
            if b[0] == rule and b[1] == construct:
                return
        self.bads.append((rule, construct, str(detail)[:3000]))

    def undec(self, rule, construct, why):
        self.undecs.append((rule, construct, str(why)[:600]))

    def check(self, cond, rule, construct, detail=""):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail)
        return cond

    def judge(self, res, rule, construct, detail=""):
        """res True / False / None (not decided)"""
        if res is True:
            self.ok(rule, construct)
        elif res is None:
            self.undec(rule, construct, detail)
        else:
            self.bad(rule, construct, detail)
        return res

    def ob(self, rule, construct=""):
        return Scope(self, rule, construct)

    # ------------------------------------------------------------ verdicts on terms
    def same(self, I, st, got, want, rule, construct, extra=()):
        """obligation: got equals want in every state described by st (and extra)"""
        F = Facts(list(st.facts) + list(extra), I.axiom_hook)
        got = I.snap(st, got)
        if eqv(F, got, want):
            self.ok(rule, construct)
            return True
        if weak(got, want) or st_weak(st):
            self.undec(rule, construct, f"got {show(got)[:250]}")
            return None
        self.bad(rule, construct, f"is {show(got)[:700]} but should be {show(want)[:700]}")
        return False

    def holds(self, I, st, cond, rule, construct, extra=()):
        F = Facts(list(st.facts) + list(extra), I.axiom_hook)
        if cond is TRUE or F.entails(cond):
            self.ok(rule, construct)
            return True
        if weak(cond):
            self.undec(rule, construct, f"{show(cond)[:300]}")
            return None
        self.bad(rule, construct, f"not ensured: {show(cond)[:600]}")
        return False


class Only:
    def __init__(self, c, names):
        self.c, self.names = c, names

    def __enter__(self):
        self.n = len(self.c.oks), len(self.c.bads), len(self.c.undecs)

    def __exit__(self, *a):
        for lst, n in zip((self.c.oks, self.c.bads, self.c.undecs), self.n):
            lst[n:] = [x for x in lst[n:] if x[0].startswith(self.names)]
        return False


# seconds for an obligation and for the whole check: an analysis which does not end gives up instead of never answering
OB_LIMIT, TOTAL_LIMIT = 120, 700


def arm(seconds):
    def give_up(sig, frame):
        raise Unsupported("time limit of the analysis reached")
    signal.signal(signal.SIGALRM, give_up)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5 if seconds else 0)


class Scope:
    def __init__(self, ctx, rule, construct):
        self.c, self.rule, self.con = ctx, rule, construct

    def __enter__(self):
        self.c.cur = self.rule
        left = TOTAL_LIMIT - (time.time() - self.c.t0)
        if left <= 0:
            raise Unsupported("time limit of the check reached")
        arm(min(left, TOTAL_LIMIT if self.rule == "analysis" else OB_LIMIT))
        return self

    def __exit__(self, et, e, tb):
        arm(0 if self.rule == "analysis" else max(TOTAL_LIMIT - (time.time() - self.c.t0), 1))
        if et is None:
            return False
        if issubclass(et, Missing) or issubclass(et, AnchorMissing):
            self.c.missing.append(f"{self.rule}: {e}")
            return True
        if issubclass(et, Unsupported):
            self.c.undec(self.rule, self.con, f"analysis gave up: {e}")
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        last = traceback.extract_tb(tb)[-1]
        self.c.undec(self.rule, self.con, f"analyser error {et.__name__}: {e} at {os.path.basename(last.filename)}:{last.lineno}")
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return True


WEAK = {"loopout", "fold", "famout", "rec", "opaque", "havoc", "lv", "mut", "maybe", "unordered", "loc", "bin", "listins", "listpop",
        "listrem", "setattr", "setitem", "empty", "nonzero", "argwhere"}


_MODELLED = {}


def calls(t):
    return {s.a[0] for s in subterms(t) if s.op == "call"}


def weak(got, *wants):
    """does the value contain parts the analysis did not interpret (and the specification does not mention)?"""
    if not isinstance(got, T):
        return True
    allowed = set()
    ac = set()
    for w in wants:
        for s in subterms(w):
            allowed.add(s.op)
            if s.op == "call":
                ac.add(s.a[0])
    for s in subterms(got):
        if s.op in WEAK and s.op not in allowed:
            return True
        if s.op == "call" and s.a[0] not in ac and not changing_call(s):
            return True
    return False


# functions of an array which are known to give other values or another order
CHANGING_CALLS = {"numpy.roll", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.unique", "numpy.cumsum", ".cumsum", "numpy.median", ".clip"}
ROUNDING_CALLS = {"numpy.round", "numpy.around", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.fix", ".round"}


def call_args(s):
    """terms which a 'call' term is applied to"""
    out = []
    todo = list(s.a[1:])
    while todo:
        x = todo.pop(0)
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            todo = list(x) + todo
    return out


def changing_call(s):
    if s.a[0] in CHANGING_CALLS:
        return True
    if s.a[0] not in ROUNDING_CALLS:
        return False
    xs = call_args(s)
    return bool(xs) and (models.arrayish(xs[0]) or tm.ty(xs[0]) in ("nd", "seq"))


def clipped(t):
    """a part, with constant bounds, of a list of unknown length is taken"""
    for x in subterms(t):
        if x.op == "at" and len(x.a) > 1 and isinstance(x.a[1], T) and x.a[1].op == "slice" and str(tm.ty(x.a[0])).startswith("list:"):
            lo, hi = x.a[1].a[0], x.a[1].a[1]
            if (is_num(lo) and lo is not ZERO) or is_num(hi):
                return True
    return False


def st_weak(st):
    return any(s.op in WEAK for f in st.facts for s in subterms(f))


# ---------------------------------------------------------------- equality
def cond_atoms(t):
    """conditions under which a value is selected"""
    out = []
    for s in subterms(t):
        if s.op == "ite":
            out.append(s.a[0])
        elif s.op == "ind":
            out.append(s.a[0])
    return out


def eqv(F, a, b, depth=0):
    """are a and b equal in every state satisfying the facts?"""
    if a is b:
        return True
    if depth > 8:
        return False
    if a.op == "c" and b.op == "c":
        if is_num(a) and is_num(b):
            return a.a[1] == b.a[1]
        return False
    if a.op == "ite" or b.op == "ite":
        c = a.a[0] if a.op == "ite" else b.a[0]
        return all(_branch(F, s, a, b, depth) for s in ((c, True), (c, False)))
    if numeric_like(a) and numeric_like(b):
        if num_eq(F, a, b, depth):
            return True
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("poly", "rnd", "ref", "sym", "bv"):
        if a.op in ("and", "or", "max"):
            return len(a.a) == len(b.a) and all(any(eqv(F, x, y, depth + 1) for y in b.a) for x in a.a) and all(
                any(eqv(F, x, y, depth + 1) for x in a.a) for y in b.a)
        return all(_eqpart(F, x, y, depth + 1) for x, y in zip(a.a, b.a))
    if tm.ty(a) == "bool" and tm.ty(b) == "bool" or a.op in BOOLS and b.op in BOOLS:
        if logic_equal(F, a, b):
            return True
    # case split on a condition inside
    cs = [c for c in cond_atoms(a) + cond_atoms(b) if not F.entails(c) and not F.entails(not_(c))]
    cs = [c for c in cs if not c.bv]
    if cs and depth < 5:
        c = cs[0]
        return all(_branch(F, s, a, b, depth) for s in ((c, True), (c, False)))
    return False


BOOLS = ("not", "and", "or", "lt0", "le0", "eq0", "eq", "isnone", "truth", "in", "isinst", "isna")


def logic_equal(F, a, b):
    """equivalence of two conditions"""
    def imp(x, y):
        G = Facts(F.facts + flat_and(x), F.extra_axioms)
        if not G.consistent():
            return True
        if x.op == "or":
            return all(imp(z, y) for z in x.a)
        if y.op == "and":
            return all(imp(x, z) for z in y.a)
        return G.entails(y)
    return imp(a, b) and imp(b, a)


_SAT = {}


def sat(facts, hook=None, depth=0):
    """are the facts consistent, with their disjunctions split"""
    key = (frozenset(facts), hook, depth > 10)
    if key not in _SAT:
        _SAT[key] = _sat_split(list(facts), hook, depth)
    return _SAT[key]


def _sat_split(facts, hook, depth):
    lits, ors = [], []
    for f in facts:
        for x in flat_and(f):
            if x is FALSE:
                return False
            if x is TRUE:
                continue
            (ors if x.op == "or" else lits).append(x)
    ls = set(lits)
    rest = []
    for o in ors:
        if any(x in ls for x in o.a):
            continue
        left = [x for x in o.a if not_(x) not in ls]
        if not left:
            return False
        if len(left) == 1:
            return sat(lits + [left[0]] + [p for p in ors if p is not o], hook, depth)
        rest.append((o, left))
    F = Facts(lits, hook)
    if not F.consistent():
        return False
    for x in lits:
        if x.op == "not" and x.a[0].op == "eq0" and F.entails(x.a[0]):
            return False
    if not rest or depth > 10:
        return F.consistent_max()
    # those which speak of the same quantities as others first
    marks = {}
    for o, _ in rest:
        marks[o] = {t for t in subterms(o) if t.op in ("sym", "attr", "at")}
    cnt = {}
    for m in marks.values():
        for t in m:
            cnt[t] = cnt.get(t, 0) + 1
    best = None
    for o, left in sorted(rest, key=lambda r: -sum(cnt[t] - 1 for t in marks[r[0]])):
        alive = [x for x in left if Facts(lits + flat_and(x), hook).consistent()]
        if best is None or len(alive) < len(best[1]):
            best = (o, alive)
        if len(alive) < 2:
            break
    o, left = best
    others = [p for p, _ in rest if p is not o]
    return any(sat(lits + [x] + others, hook, depth + 1) for x in left)


def proves(facts, goal, hook=None):
    """do the facts imply the goal (disjunctions split)"""
    if goal.op == "and":
        return all(proves(facts, g, hook) for g in goal.a)
    neg_ = [not_(x) for x in goal.a] if goal.op == "or" else [not_(goal)]
    return not sat(list(facts) + neg_, hook)


def flat_and(x):
    if x.op == "and":
        out = []
        for y in x.a:
            out += flat_and(y)
        return out
    return [x]


def _eqpart(F, x, y, depth):
    if isinstance(x, T) and isinstance(y, T):
        return eqv(F, x, y, depth)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eqpart(F, p, q, depth) for p, q in zip(x, y))
    return x == y


def _branch(F, cb, a, b, depth):
    c, v = cb
    lit = c if v else not_(c)
    G = Facts(F.facts + [lit], F.extra_axioms)
    if not G.consistent():
        return True
    m = {c: const(v), not_(c): const(not v)}
    return eqv(G, res_ite(a, m), res_ite(b, m), depth + 1)


def res_ite(t, m):
    return subst(t, m)


def numeric_like(t):
    return t.op in ("poly", "max", "ind", "abs", "sum", "mod", "pow", "mean", "len", "int", "floor", "ceil", "round", "fdiv", "rnd", "bv", "asum",
                    "at", "attr", "sym", "full", "zeros", "diff", "range", "store", "put") or is_num(t) or tm.ty(t) in ("int", "num", "float")


def num_eq(F, a, b, depth):
    d = sub(a, b)
    if d is ZERO:
        return True
    if F.entails(eq(a, b)):
        return True
    # congruence: replace nonlinear parts of a by equal parts of b
    sa, sb = atoms_of(a), atoms_of(b)
    m = {}
    for x in sa - sb:
        if x.op in ("c", "sym", "bv"):
            continue
        for y in sb - sa:
            if y.op == x.op and y not in m.values() and x.op not in ("sym", "rnd", "bv") and eqv(F, x, y, depth + 1):
                m[x] = y
                break
    if m:
        a2 = subst(a, m)
        if a2 is b or F.entails(eq(a2, b)):
            return True
    return False


def atoms_of(t):
    return {at for mo in to_poly(t) for at, e in mo}


# ---------------------------------------------------------------- draws
_HOLE = itertools.count(10 ** 6)


def draw(kind, *args):
    """a number drawn by the random generator, in a specification"""
    return mk("rnd", kind, next(_HOLE), tuple(args), ())


def rnds(t, pred=None):
    return sorted({s for s in subterms(t) if s.op == "rnd"}, key=lambda s: s.a[1])


def is_hole(r):
    return r.a[1] >= 10 ** 6


def eq_draws(F, got, want, fixed=None):
    """got equals want for some one-to-one correspondence of the drawn numbers; returns the correspondence or None"""
    fixed = dict(fixed or {})
    holes = [h for h in rnds(want) if is_hole(h)]
    holes = [h for h in holes if h not in fixed]
    cands = [r for r in rnds(got) if not is_hole(r)]
    if len(cands) < len(holes) and len(rnds(mk("tuple", *F.facts))) <= 6:
        # a drawn number which this path has tested need not occur in the result
        cands += [r for r in rnds(mk("tuple", *F.facts)) if not is_hole(r) and r not in cands]
    # inner draws first
    holes.sort(key=lambda h: len(rnds(mk("tuple", *h.a[2]))))

    def go(i, m):
        if i == len(holes):
            w = deep(want, m)
            return m if eqv(F, got, w) else None
        h = holes[i]
        for r in cands:
            if r in m.values() or r.a[0] != h.a[0] or len(r.a[2]) != len(h.a[2]):
                continue
            ok = all(eqv(F, x, deep(y, m)) for x, y in zip(r.a[2], h.a[2]))
            if not ok and h.a[0] == "uniform":
                # the ends of a uniform draw may be given in any order
                ok = all(eqv(F, x, deep(y, m)) for x, y in zip(r.a[2], h.a[2][::-1]))
            if ok:
                m2 = dict(m)
                m2[h] = r
                x = go(i + 1, m2)
                if x is not None:
                    return x
        return None
    return go(0, fixed)


def deep(t, m):
    """substitute holes, also inside the arguments of other draws"""
    return subst(t, m) if m else t


def hole_closure(m):
    return m


# ---------------------------------------------------------------- exceptions
def become(st, s):
    for n in s.__slots__:
        setattr(st, n, getattr(s, n))


def raised(I, s):
    """name of the exception of an outcome, or None"""
    return s.ctrl[1] if s.ctrl and s.ctrl[0] == "raise" else None


def is_exc(I, s, name):
    r = raised(I, s)
    if r is None:
        return False
    return r == name or name in I.exc_mro(r)


def ret(s):
    return s.ctrl[1] if s.ctrl and s.ctrl[0] == "return" else None


def split_ret(I, outs):
    """outcomes whose result depends on a condition as one outcome per case"""
    done = []
    todo = list(outs)[::-1]
    while todo:
        s = todo.pop()
        v = ret(s)
        if isinstance(v, T) and v.op == "ite" and len(todo) + len(done) < 200:
            for c, x in ((not_(v.a[0]), v.a[2]), (v.a[0], v.a[1])):
                t = s.copy()
                t.assume(c)
                t.ctrl = ("return", x) + tuple(s.ctrl[2:])
                if I.consistent(t):
                    todo.append(t)
        else:
            done.append(s)
    return done


def rule(pid, floor, title, technique, note):
    def deco(f):
        CHECKS[pid] = dict(fn=f, floor=floor, title=title, technique=technique, note=note)
        return f
    return deco


def fact_text(st, n=6):
    return "; ".join(show(f)[:120] for f in st.facts[:n])


def fld(st, obj, name):
    return st.fields.get((obj, name))
