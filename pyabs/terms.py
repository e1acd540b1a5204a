"""Hash-consed value-number terms with a polynomial normal form.

Every abstract value is an immutable T.  Two expressions which are equal by the
algebra below get the same object, whatever statements computed them.
"""
from fractions import Fraction as F
import hashlib

_POOL = {}
EMPTY = frozenset()


class T:
    __slots__ = ("op", "a", "k", "bv", "h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def _dig(x):
    if isinstance(x, T):
        return x.k
    if isinstance(x, tuple):
        return "(" + ",".join(_dig(y) for y in x) + ")"
    return type(x).__name__ + ":" + repr(x)


def _bvs(x):
    if isinstance(x, T):
        return x.bv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            b = _bvs(y)
            if b:
                r = r | b
        return r
    return EMPTY


def _hs(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        return max((_hs(y) for y in x), default=0)
    return 0


BINDERS = ("sum", "for", "forall", "fordict", "fold")


def mk(op, *a):
    key = (op, a)
    t = _POOL.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.k = hashlib.md5((op + _dig(a)).encode()).hexdigest()[:16]
        t.bv = frozenset([a[0]]) if op == "bv" else _bvs(a)
        t.h = _hs(a) + (1 if op in BINDERS else 0)
        _POOL[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if v is None:
        return NONE
    if isinstance(v, int):
        return mk("c", "i", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("c", "x", repr(v))
        return mk("c", "f", F(repr(v)))
    if isinstance(v, F):
        return mk("c", "i", int(v)) if v.denominator == 1 else mk("c", "f", v)
    if isinstance(v, str):
        return mk("c", "s", v)
    if isinstance(v, bytes):
        return mk("c", "y", v)
    if v is Ellipsis:
        return mk("c", "e", "...")
    if isinstance(v, tuple):
        return mk("tuple", *[const(x) for x in v])
    raise TypeError(v)


TRUE = mk("c", "b", True)
FALSE = mk("c", "b", False)
NONE = mk("c", "N", None)
ZERO = mk("c", "i", 0)
ONE = mk("c", "i", 1)
NAN = mk("c", "x", "nan")


def is_const(t):
    return t.op == "c"


def is_num(t):
    return t.op == "c" and t.a[0] in ("i", "f")


def is_str(t):
    return t.op == "c" and t.a[0] == "s"


def pyval(t):
    return t.a[1]


def sym(name, ty="unk"):
    return mk("sym", name, ty)


# ---------------------------------------------------------------- types
INT_OPS = {"len", "int", "floor", "ceil", "round", "fdiv"}
NUM_OPS = {"poly", "max", "ind", "abs", "sum", "mod", "pow", "mean"} | INT_OPS


_TYM = {}
TY_IMPL = None


def ty(t):
    """type of a term (memoised; reset by types_changed)"""
    r = _TYM.get(t)
    if r is None:
        r = _TYM[t] = TY_IMPL(t)
    return r


def types_changed():
    _TYM.clear()


def set_ty(f):
    global TY_IMPL
    TY_IMPL = f
    _TYM.clear()


def base_ty(t):
    """'int','num','str','bool','none','seq','tuple','nd','obj:Cls','unk'"""
    op = t.op
    if op == "c":
        return {"i": "int", "f": "float", "s": "str", "b": "bool", "N": "none", "x": "float"}.get(t.a[0], "unk")
    if op == "sym":
        return t.a[1]
    if op in INT_OPS:
        return "int"
    if op == "poly":
        return "int" if is_int_poly(t) else "num"
    if op == "max":
        return "int" if all(ty(x) == "int" for x in t.a) else "num"
    if op == "bv":
        return "int"
    if op == "ind":
        return "int"
    if op == "sum":
        return "int" if ty(t.a[2]) == "int" else "num"
    if op == "rnd":
        return {"randint": "int", "getrandbits": "int"}.get(t.a[0], "num" if t.a[0] in ("uniform", "gauss") else "unk")
    if op in ("amax", "amin") and t.a[0].op == "nonzero":
        return "int"
    if op in NUM_OPS:
        return "num"
    if op in ("lt0", "le0", "eq0", "eq", "not", "and", "or", "isnone", "truth", "in", "isinst", "isna"):
        return "bool"
    if op in ("strcat", "fmt"):
        return "str"
    if op in ("tuple",):
        return "tuple"
    if op in ("seq", "for", "range", "vec", "list", "when"):
        return "seq"
    if op in ("zeros", "full", "store", "put", "resize"):
        return "nd"
    if op == "ite":
        a, b = ty(t.a[1]), ty(t.a[2])
        if a == b:
            return a
        if {a, b} <= {"int", "num", "float"}:
            return "num"
        return "unk"
    if op == "at":
        # an element of a symbolic sequence, or a part of it
        if len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == "slice":
            b = ty(t.a[0])
            return b if isinstance(b, str) and (b.startswith("list:") or b in ("nd", "str", "seq", "tuple") or b.startswith("ext:pandas.DatetimeIndex")) else "unk"
        et = elem_ty(t.a[0])
        if et:
            return et
    if op == "attr":
        return FIELD_TY(t)
    return "unk"


TY_IMPL = base_ty


def _no_field(t):
    return "unk"


FIELD_TY = _no_field


def set_field_ty(f):
    global FIELD_TY
    FIELD_TY = f


def elem_ty(s):
    t = ty(s)
    if isinstance(t, str) and t.startswith("list:"):
        return t[5:]
    if s.op == "range":
        return "int"
    return None


def numeric(t):
    return ty(t) in ("int", "num", "float", "bool", "nd")


def is_int_poly(t):
    for mono, co in t.a[0]:
        if co.denominator != 1:
            return False
        for at, e in mono:
            if e < 0 or ty(at) not in ("int", "bool"):
                return False
    return True


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "c":
        if t.a[0] in ("i", "f"):
            v = F(t.a[1])
            return {(): v} if v else {}
        if t.a[0] == "b":
            return {(): F(1)} if t.a[1] else {}
        return {((t, 1),): F(1)}
    if t.op in ("lt0", "le0", "eq0", "not", "and", "or", "eq", "isnone", "truth", "in", "isna", "isinst"):
        return to_poly(ind(t))
    if t.op == "zeros":
        return {}
    return {((t, 1),): F(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (_dig(mc[0]))))
    return mk("poly", items)


def p_add(x, y, cy=F(1)):
    r = dict(x)
    for m, c in y.items():
        r[m] = r.get(m, F(0)) + c * cy
    return {m: c for m, c in r.items() if c}


def _mono_mul(m1, m2):
    d = {}
    for at, e in m1:
        d[at] = d.get(at, 0) + e
    for at, e in m2:
        d[at] = d.get(at, 0) + e
    out = []
    for at, e in d.items():
        if at.op == "ind" and e > 1:
            e = 1
        if e:
            out.append((at, e))
    return tuple(sorted(out, key=lambda x: x[0].k))


def p_mul(x, y):
    r = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = _mono_mul(m1, m2)
            if len(m) > 1:
                m = _mono_simp(m)
                if m is None:
                    continue
            r[m] = r.get(m, F(0)) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _mono_simp(m):
    """max(x, 0) under a condition which decides the sign of x: None if the product is zero"""
    ms = [at for at, e in m if at.op == "max" and len(at.a) == 2 and ZERO in at.a]
    if not ms:
        return m
    drop = set()
    for at, e in m:
        if at.op != "ind" or at.a[0].op not in ("le0", "lt0"):
            continue
        p = to_poly(at.a[0].a[0])
        for y in ms:
            x = to_poly(y.a[0] if y.a[1] is ZERO else y.a[1])
            for sg in (-1, 1):
                d = p_add(p, x, F(sg))
                if not any(d) and d.get((), F(0)) >= 0:
                    if sg < 0:
                        return None
                    drop.add(at)
    return tuple(q for q in m if q[0] not in drop) if drop else m


def lift(f, x, y):
    """distribute a numeric operation over ite / seq-free values"""
    return None


def add(x, y):
    if x.op == "zeros" and y.op == "zeros":
        return x
    if x.op == "full" and (y.op == "full" or is_num(y)):
        if y.op == "full":
            return mk("full", x.a[0], add(x.a[1], y.a[1]))
        return mk("full", x.a[0], add(x.a[1], y))
    return from_poly(p_add(to_poly(x), to_poly(y)))


def sub(x, y):
    return from_poly(p_add(to_poly(x), to_poly(y), F(-1)))


def neg(x):
    return from_poly({m: -c for m, c in to_poly(x).items()})


def mul(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == "full" and q.op not in ("full", "zeros"):
            return mk("full", p.a[0], mul(p.a[1], q))
        if p.op == "full" and q.op == "full":
            return mk("full", p.a[0], mul(p.a[1], q.a[1]))
        if p.op == "zeros":
            return p
    # distribute over concatenation of scalars: (a ++ b) * c
    for p, q in ((x, y), (y, x)):
        if p.op == "concat" and ty(q) in ("int", "num", "float", "unk") and q.op not in ("concat", "full", "zeros"):
            return mk("concat", *[mul(s, q) for s in p.a])
    return from_poly(p_mul(to_poly(x), to_poly(y)))


def div(x, y):
    if x.op == "full":
        return mk("full", x.a[0], div(x.a[1], y))
    py = to_poly(y)
    if not py:
        return mk("div0", x)
    if len(py) == 1:
        (m, c), = py.items()
        inv = {tuple((at, -e) for at, e in m): 1 / c}
        return from_poly(p_mul(to_poly(x), inv))
    # normalise the leading coefficient of the divisor
    items = sorted(py.items(), key=lambda mc: _dig(mc[0]))
    lc = items[0][1]
    at = from_poly({m: c / lc for m, c in items})
    return from_poly(p_mul(to_poly(x), {((at, -1),): 1 / lc}))


def _multiples(x, y):
    """(q, r) with x = q y + r for an integer y: the terms whose coefficients are multiples of y are taken out"""
    if not (is_num(y) and F(y.a[1]).denominator == 1 and F(y.a[1]) > 1) or x.op != "poly":
        return None
    m = F(y.a[1])
    q, r = ZERO, ZERO
    for mono, co in x.a[0]:
        one = from_poly({mono: F(1)})
        if mono and all(e > 0 and ty(at) in ("int", "bool") for at, e in mono) and (F(co) / m).denominator == 1:
            q = add(q, mul(const(F(co) / m), one))
        else:
            r = add(r, mul(const(F(co)), one))
    return None if q is ZERO else (q, r)


def floordiv(x, y):
    d = _multiples(x, y)
    if d:
        return add(d[0], floordiv(d[1], y))
    if is_num(x) and is_num(y) and F(y.a[1]) != 0:
        return const(F(F(x.a[1]) // F(y.a[1])))
    return mk("fdiv", x, y)


def mod(x, y):
    d = _multiples(x, y)
    if d:
        return mod(d[1], y)
    if is_num(x) and is_num(y) and F(y.a[1]) != 0:
        return const(F(F(x.a[1]) % F(y.a[1])))
    return mk("mod", x, y)


def power(x, y):
    if is_num(y) and F(y.a[1]).denominator == 1 and 0 <= F(y.a[1]) <= 8:
        r = ONE
        for _ in range(int(F(y.a[1]))):
            r = mul(r, x)
        return r
    return mk("pow", x, y)


def linear_parts(t):
    """dict mono->coef; () is the constant"""
    return to_poly(t)


# ---------------------------------------------------------------- booleans
def _scale(p, signed=True):
    """scale to a canonical leading coefficient (positive factor if signed)"""
    items = [(m, c) for m, c in p.items() if m]
    if not items:
        return p
    items.sort(key=lambda mc: _dig(mc[0]))
    lc = items[0][1]
    # use integers when all atoms are integers so that strictness can be normalised
    from math import gcd
    den = 1
    for m, c in p.items():
        if m:
            den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for m, c in p.items():
        if m:
            num = gcd(num, abs(int(c * den)))
    f = F(den, num)
    if not signed and lc < 0:
        f = -f
    return {m: c * f for m, c in p.items()}


def _lin_is_int(p):
    for m, c in p.items():
        if m and c.denominator != 1:
            return False
        for at, e in m:
            if e < 0 or ty(at) not in ("int", "bool"):
                return False
    return True


def _cmp0(strict, p):
    if not any(m for m in p):
        v = p.get((), F(0))
        return const(v < 0 if strict else v <= 0)
    p = _scale(p)
    t = _text_len(p)
    if t is not None:
        # the length of a text: compared with 0 it tells whether the text is empty
        co, c0 = t
        if co[1] == -1 and (strict and c0 == 0 or not strict and 0 < c0 <= 1):
            return not_(eq(co[0], const("")))
        if co[1] == 1 and (not strict and c0 == 0 or strict and -1 <= c0 < 0):
            return eq(co[0], const(""))
    if _lin_is_int(p):
        c0 = p.get((), F(0))
        if strict:
            # sum + c0 < 0  <=> sum + floor(c0)+1 <= 0
            import math
            c0 = F(math.floor(c0) + 1)
        else:
            import math
            c0 = F(math.ceil(c0))
        p = {m: c for m, c in p.items() if m}
        if c0:
            p[()] = c0
        return mk("le0", from_poly(p))
    return mk("lt0" if strict else "le0", from_poly(p))


def lt(x, y):
    if is_str(x) and is_str(y):
        return const(x.a[1] < y.a[1])
    return _cmp0(True, p_add(to_poly(x), to_poly(y), F(-1)))


def le(x, y):
    if is_str(x) and is_str(y):
        return const(x.a[1] <= y.a[1])
    return _cmp0(False, p_add(to_poly(x), to_poly(y), F(-1)))


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == "c" and y.op == "c":
        if x.a[0] in "ifb" and y.a[0] in "ifb":
            return const(F(x.a[1]) == F(y.a[1]))
        return const(x.a[0] == y.a[0] and x.a[1] == y.a[1])
    if x.op == "c":
        x, y = y, x
    if y.op == "c" and y.a[0] == "N":
        return isnone(x)
    if x.op == "ite":
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == "ite":
        return ite(y.a[0], eq(y.a[1], x), eq(y.a[2], x))
    if x.op in ("tuple", "vec") and y.op in ("tuple", "vec"):
        if len(x.a) != len(y.a):
            return FALSE
        return and_(*[eq(p, q) for p, q in zip(x.a, y.a)])
    for p, q in ((x, y), (y, x)):
        # a text in which something is replaced is the same if and only if there is nothing to replace
        if p.op == "call" and p.a[0] == ".replace" and p.a[1] is q:
            d = dict(p.a[2])
            o, n = d.get("old"), d.get("new")
            if set(d) == {"old", "new"} and o.op == "c" and n.op == "c" and o.a[0] == n.a[0] == "s" and o.a[1] and o.a[1] not in n.a[1] and n.a[1] not in o.a[1]:
                return not_(mk("in", o, q))
    tx, ty_ = ty(x), ty(y)
    nums = ("int", "num", "float", "bool")
    if ty_ == "bool" and y.op == "c" and tx == "bool":
        return x if y.a[1] else not_(x)
    if (tx in nums or x.op == "poly") and (ty_ in nums or ty_ == "unk" or y.op == "poly") or (
            ty_ in nums and tx == "unk"):
        return eq0(p_add(to_poly(x), to_poly(y), F(-1)))
    kinds = {"str": "s", "none": "n", "int": "#", "num": "#", "float": "#", "bool": "#", "tuple": "t"}
    if tx in kinds and ty_ in kinds and kinds[tx] != kinds[ty_]:
        return FALSE
    if tx.startswith("obj:") and y.op == "c":
        return FALSE
    a, b = sorted((x, y), key=lambda t: t.k)
    return mk("eq", a, b)


def _text_len(p):
    """((text, coefficient of its length), constant) of a polynomial which only contains the length of one text"""
    ms = [m for m in p if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        t = ms[0][0][0]
        if t.op == "len" and ty(t.a[0]) == "str":
            return (t.a[0], p[ms[0]]), p.get((), F(0))
    return None


def eq0(p):
    if not any(m for m in p):
        return const(p.get((), F(0)) == 0)
    p = _scale(p, signed=False)
    t = _text_len(p)
    if t is not None and t[1] == 0:
        return eq(t[0][0], const(""))
    if _lin_is_int(p) and p.get((), F(0)).denominator != 1:
        return FALSE
    return mk("eq0", from_poly(p))


def isnone(x):
    if x.op == "c":
        return const(x.a[0] == "N")
    if x.op == "ite":
        return ite(x.a[0], isnone(x.a[1]), isnone(x.a[2]))
    t = ty(x)
    if x.op == "sym" and (t == "unk" or t.startswith("opt")):
        return mk("isnone", x)
    if t != "unk" and not t.startswith("opt"):
        return FALSE
    if x.op in ("ref", "func", "cls", "module", "mod", "rnd", "store", "put", "concat", "slice", "ext", "bound", "vec", "seq",
                "for", "strcat"):
        return FALSE
    return mk("isnone", x)


_NOT = {}


def not_(x):
    r = _NOT.get(x)
    if r is None:
        r = _NOT[x] = _not(x)
    return r


def _not(x):
    if x.op == "c":
        return const(not truth_const(x))
    if x.op == "not":
        return x.a[0]
    if x.op == "lt0":
        return _cmp0(False, {m: -c for m, c in to_poly(x.a[0]).items()})
    if x.op == "le0":
        return _cmp0(True, {m: -c for m, c in to_poly(x.a[0]).items()})
    if x.op == "and":
        return or_(*[not_(y) for y in x.a])
    if x.op == "or":
        return and_(*[not_(y) for y in x.a])
    if x.op == "ite":
        return ite(x.a[0], not_(x.a[1]), not_(x.a[2]))
    return mk("not", x)


def truth_const(x):
    if x.op == "c":
        if x.a[0] in ("i", "f", "s", "b", "y"):
            return bool(x.a[1])
        if x.a[0] == "N":
            return False
    return True


def and_(*xs):
    out = []
    for x in xs:
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    s = []
    for x in out:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in s:
            continue
        if not_(x) in s:
            return FALSE
        s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s, key=lambda t: t.k))


def or_(*xs):
    out = []
    for x in xs:
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    s = []
    for x in out:
        if x is TRUE:
            return TRUE
        if x is FALSE or x in s:
            continue
        if not_(x) in s:
            return TRUE
        s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    # absorption  a or (not a and b)  ->  a or b ;  a or (a and b) -> a
    ch = True
    while ch:
        ch = False
        for i, x in enumerate(s):
            if x.op == "and":
                parts = list(x.a)
                keep = [q for q in parts if not_(q) not in s]
                if any(q in s for q in parts):
                    s.pop(i)
                    ch = True
                    break
                if len(keep) < len(parts):
                    s[i] = and_(*keep)
                    return or_(*s)
    # (a and b) or (not a and b) -> b
    for i in range(len(s)):
        for j in range(i + 1, len(s)):
            A = set(s[i].a if s[i].op == "and" else [s[i]])
            B = set(s[j].a if s[j].op == "and" else [s[j]])
            d1, d2 = A - B, B - A
            if len(d1) == 1 and len(d2) == 1:
                u, = d1
                v, = d2
                if not_(u) is v:
                    rest = [q for n, q in enumerate(s) if n not in (i, j)]
                    return or_(*rest, and_(*(A & B)))
    return mk("or", *sorted(s, key=lambda t: t.k)) if len(s) > 1 else s[0]


def ind(c):
    """indicator of a boolean, canonical polarity"""
    if c.op == "c":
        return ONE if truth_const(c) else ZERO
    n = not_(c)
    if c.op == "not" or (n.op != "not" and n.k < c.k):
        return from_poly({(): F(1), ((mk("ind", n), 1),): F(-1)})
    return mk("ind", c)


def _size(t):
    return len(t.a[0]) if t.op == "poly" else 1


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    n = not_(c)
    if n.op != "not" and n.k < c.k:
        c, a, b = n, b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if ty(a) == "bool" and ty(b) == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    num = ("int", "num", "float")
    na, nb = ty(a), ty(b)
    if c.op in ("lt0", "le0") and na != "str" and nb != "str":
        # ite(a-b <= 0, a, b) is a min, etc. (integer normalisation may shift the constant by one)
        p = to_poly(c.a[0])
        d = to_poly(sub(a, b))
        for sgn, res in ((1, "min"), (-1, "max")):
            q = _scale({m: v * sgn for m, v in d.items()}) if any(d) else None
            if q is None:
                continue
            diff = p_add(p, q, F(-1))
            if not diff or (c.op == "le0" and _lin_is_int(q) and diff == {(): F(1)}):
                return mn(a, b) if res == "min" else mx(a, b)
    if na in num and nb in num or (a.op == "poly" and nb in num + ("unk",)) or (b.op == "poly" and na in num + ("unk",)):
        if _size(a) + _size(b) <= 24:
            i = ind(c)
            return add(mul(i, a), mul(sub(ONE, i), b))
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- min max etc.
def mx(*xs):
    out = []
    for x in xs:
        out.extend(x.a if x.op == "max" else [x])
    cs = [x for x in out if is_num(x)]
    rest = []
    for x in out:
        if not is_num(x) and x not in rest:
            rest.append(x)
    if cs:
        m = max(cs, key=lambda t: F(t.a[1]))
        if not rest:
            return m
        rest.append(m)
    # drop arguments which are dominated by a constant offset
    keep = []
    for x in rest:
        dom = False
        for y in rest:
            if x is not y:
                d = to_poly(sub(y, x))
                if not any(m for m in d) and d.get((), F(0)) > 0:
                    dom = True
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk("max", *sorted(keep, key=lambda t: t.k))


def mn(*xs):
    return neg(mx(*[neg(x) for x in xs]))


def absv(x):
    if is_num(x):
        return const(abs(F(x.a[1])))
    n = neg(x)
    return mk("abs", x if x.k < n.k else n)


def rounder(op, x):
    import math
    if is_num(x):
        v = F(x.a[1])
        return const({"int": int, "floor": math.floor, "ceil": math.ceil, "round": round}[op](v))
    if ty(x) in ("int", "bool"):
        return x
    if op in ("floor", "ceil", "round") and x.op == "poly" and op != "round":
        # integer offset can be taken out
        p = dict(to_poly(x))
        c0 = p.get((), F(0))
        if c0 and c0.denominator == 1 and any(m for m in p):
            del p[()]
            return add(mk(op, from_poly(p)), const(c0))
    return mk(op, x)


# ---------------------------------------------------------------- strings
def strcat(*xs):
    out = []
    for x in xs:
        parts = x.a if x.op == "strcat" else (x,)
        for q in parts:
            if is_str(q) and q.a[1] == "":
                continue
            if out and is_str(out[-1]) and is_str(q):
                out[-1] = const(out[-1].a[1] + q.a[1])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", *out)


# ---------------------------------------------------------------- traversal
def children(t):
    def walk(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                yield from walk(y)
    for x in t.a:
        yield from walk(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for c in children(t):
        yield from subterms(c, seen)


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


REBUILD = {}


def subst(t, m, memo=None):
    """substitute terms; rebuild through the smart constructors"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "sym", "bv", "ref", "func", "cls", "module", "ext", "b"):
        return t

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if t.op == "poly":
        r = {}
        acc = ZERO
        changed = False
        for mono, co in t.a[0]:
            term = const(co)
            for at, e in mono:
                na = subst(at, m, memo)
                if na is not at:
                    changed = True
                for _ in range(abs(e)):
                    term = mul(term, na) if e > 0 else div(term, na)
            acc = add(acc, term)
        res = acc if changed else t
    else:
        na = tuple(go(x) for x in t.a)
        if all(p is q or p == q for p, q in zip(na, t.a)):
            res = t
        else:
            res = rebuild(t.op, na)
    memo[t] = res
    return res


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


REBUILD.update({
    "lt0": lambda x: _cmp0(True, to_poly(x)),
    "le0": lambda x: _cmp0(False, to_poly(x)),
    "eq0": lambda x: eq0(to_poly(x)),
    "eq": eq, "not": not_, "and": and_, "or": or_, "isnone": isnone, "ind": ind, "ite": ite,
    "max": mx, "abs": absv, "strcat": strcat, "mod": mod, "fdiv": floordiv, "pow": power,
    "int": lambda x: rounder("int", x), "round": lambda x: rounder("round", x),
    "floor": lambda x: rounder("floor", x), "ceil": lambda x: rounder("ceil", x),
})


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 9:
        return "..."
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1) if isinstance(x, T) else ("(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    if op == "c":
        if a[0] == "f":
            return str(float(a[1]))
        return repr(a[1]) if a[0] != "x" else a[1]
    if op == "sym":
        return a[0]
    if op == "poly":
        out = []
        for mono, co in a[0]:
            ms = "*".join(s(at) + ("^%d" % e if e != 1 else "") for at, e in mono)
            if not ms:
                out.append(str(co))
            elif co == 1:
                out.append(ms)
            elif co == -1:
                out.append("-" + ms)
            else:
                out.append(f"{co}*{ms}")
        return "(" + " + ".join(out) + ")"
    if op == "lt0":
        return f"[{s(a[0])} < 0]"
    if op == "le0":
        return f"[{s(a[0])} <= 0]"
    if op == "eq0":
        return f"[{s(a[0])} == 0]"
    if op == "eq":
        return f"[{s(a[0])} == {s(a[1])}]"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op in ("at", "item"):
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "bv":
        return f"i{a[0]}"
    if op == "b":
        return f"b{a[0]}"
    if op == "ref":
        return f"&{a[0]}"
    if op == "rnd":
        return f"rnd.{a[0]}#{a[1]}({', '.join(s(x) for x in a[2])})"
    return f"{op}({', '.join(s(x) for x in a)})"
