"""Models of the Python builtins and of the library functions the repository uses.

A library function without a model stays an uninterpreted function of its arguments
(one term 'call'), with an event in the effect log unless it is known to be pure.
"""
import ast
import re
from .terms import *
from .lp import Facts
from . import terms as tm
from fractions import Fraction as F

ROW = None      # partition of the columns of an input row, see load rules

EXT = {}
METH = {}
SIG = {}
PURE_PREFIX = ("numpy.", "math.", "builtins.", "itertools.", "functools.", "operator.", "copy.", "datetime.", "json.",
               "collections.", "string.", "re.", "typing.", "importlib.util.find_spec")
PURE_EXT = {"os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "os.path.split", "os.path.splitext",
            "os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.normpath", "os.path.realpath", "os.listdir",
            "os.getcwd", "os.fspath", "multiprocessing.cpu_count", "time.time", "time.perf_counter", "os.cpu_count",
            "os.path.relpath", "os.path.expanduser", "os.sep", "pandas.DataFrame", "pandas.Series", "pandas.concat",
            "pandas.date_range", "pandas.Period", "pandas.Timedelta", "pandas.to_datetime", "pandas.isna", "pandas.isnull",
            "pandas.notna", "pandas.DataFrame.from_records", "pandas.DatetimeIndex", "pandas.Timestamp", "pandas.read_json",
            "pandas.read_csv", "pandas.read_excel", "pandas.unique", "pathlib.Path", "openpyxl.load_workbook",
            "openpyxl.worksheet.cell_range.CellRange", "pandas.Index", "pandas.DataFrame.from_dict", "pandas.merge",
            "pandas.to_numeric", "pandas.Timestamp.today", "importlib.util.spec_from_file_location",
            "importlib.util.module_from_spec", "textwrap.dedent", "io.StringIO"}
STR_M = {".replace", ".strip", ".lstrip", ".rstrip", ".lower", ".upper", ".join", ".format", ".title", ".removesuffix",
         ".removeprefix", ".to_string", ".capitalize", ".isoformat", ".strftime", ".zfill"}
BOOL_M = {".endswith", ".startswith", ".isdigit", ".equals", "os.path.exists", "os.path.isdir", "os.path.isfile",
          ".isnumeric", ".isalpha", ".is_file", ".is_dir", ".isspace", ".isidentifier"}
PURE_M = {"unique", "fillna", "isin", "to_dict", "to_list", "tolist", "copy", "resample", "mean", "sum", "max", "min", "head",
          "tail", "equals", "items", "sort_values", "to_frame", "to_string", "ravel", "squeeze", "reshape", "weekday", "map",
          "to_json", "cumsum", "groupby", "dropna", "astype", "rename", "drop", "reset_index", "any", "all", "flatten",
          "keys", "values", "iterrows", "itertuples", "get_group", "first", "cell", "total_seconds", "date", "days",
          "strftime", "isoformat", "weekday", "isoweekday", "nunique", "transpose", "std", "var", "median", "idxmax",
          "idxmin", "argmax", "argmin", "abs", "round", "sort_index", "set_index", "query", "eq", "ne", "lt", "le", "gt", "ge",
          "div", "mul", "sub", "add", "apply", "agg", "aggregate", "iteritems", "to_numpy", "notna", "isna", "isnull",
          "notnull", "between", "drop_duplicates", "count", "readlines", "read", "readline", "split", "rsplit", "splitlines",
          "partition", "rpartition", "union", "intersection", "difference", "nonzero", "repeat", "take", "tile", "pct_change",
          "diff", "join", "index", "find", "rank", "asfreq", "reindex", "to_period", "to_timestamp", "normalize", "where",
          "mask", "clip", "combine_first", "loc", "iloc", "encode", "decode", "rdiv", "truediv", "squeeze", "as_posix",
          "resolve", "exists", "is_file", "is_dir", "swapaxes", "dot", "prod", "nlargest", "__len__", "get_loc", "stack",
          "unstack", "pivot", "melt", "explode", "isocalendar", "timetuple", "toordinal", "get_loc", "get_level_values"}
PURE_M |= {m[1:] for m in STR_M | BOOL_M if m.startswith(".")}
M_SIG = {"resample": ("rule",), "fillna": ("value",), "to_dict": ("orient", "into"), "sort_values": ("by", "axis", "ascending"),
         "head": ("n",), "mean": ("axis",), "sum": ("axis",), "max": ("axis",), "min": ("axis",), "to_csv": ("path_or_buf", "sep"),
         "to_excel": ("excel_writer", "sheet_name"), "to_frame": ("name",), "to_json": ("path_or_buf", "orient"),
         "isin": ("values",), "copy": ("deep",), "cell": ("row", "column"), "drop": ("labels", "axis"), "astype": ("dtype",),
         "replace": ("old", "new", "count"), "split": ("sep", "maxsplit"), "strip": ("chars",), "endswith": ("suffix",),
         "startswith": ("prefix",), "join": ("iterable",), "equals": ("other",), "rsplit": ("sep", "maxsplit"),
         "add_argument": None}
DEFAULTS = {("sort_values", "axis"): ZERO, ("sort_values", "ascending"): TRUE, ("to_excel", "sheet_name"): const("Sheet1"),
            ("to_csv", "sep"): const(","), ("sum", "axis"): NONE, ("mean", "axis"): NONE, ("copy", "deep"): TRUE,
            ("drop", "axis"): ZERO}
DROPKW = {"numpy.zeros": {"order"}, "numpy.ones": {"order"}, "numpy.array": {"copy"},
          "numpy.asarray": {"copy"}, "numpy.arange": {"dtype"}}

from .interp import interp_ty as _base_ty


def _ty(t):
    if t.op == "call":
        n = t.a[0]
        if n in STR_M:
            return "str"
        if n in BOOL_M:
            return "bool"
        if n in ("os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "builtins.input", "json.dumps",
                 "os.path.realpath", "os.path.normpath", "os.getcwd", "builtins.repr"):
            return "str"
        if n in ("pandas.DataFrame", "pandas.DataFrame.from_records", "pandas.concat", "pandas.read_csv", "pandas.read_excel",
                 "pandas.DataFrame.from_dict"):
            return "ext:pandas.DataFrame"
        if n in ("profile", "aggregated", "single"):
            return "nd"
        if n in ("pandas.date_range", "pandas.DatetimeIndex"):
            return "ext:pandas.DatetimeIndex"
        if n in ("datetime.datetime.fromisoformat", "datetime.datetime.today", "datetime.datetime.now", "datetime.datetime", "datetime.datetime.strptime"):
            return "ext:datetime.datetime"
        if n in ("pandas.Timestamp", "pandas.to_datetime"):
            return "ext:pandas.Timestamp"
        if n in ("pandas.Series",):
            return "ext:pandas.Series"
        if n in ("numpy.isnan", "pandas.isna", "pandas.isnull"):
            return "bool"
        if n == "multiprocessing.cpu_count":
            return "int"
        if n in ("os.listdir", ".readlines", ".split", ".tolist", ".to_list", ".splitlines", ".rsplit"):
            return "seq"
        if n in (".weekday", ".weeks"):
            return "int"
        if n == ".copy" and isinstance(t.a[1], T):
            return tm.ty(t.a[1])
    if t.op in ("has", "forall", "exists"):
        return "bool"
    if t.op in ("amax", "amin") and t.a[0].op == "nonzero":
        return "int"
    if t.op in ("amax", "asum", "mean1", "amin"):
        return "num"
    if t.op == "fmt":
        return "str"
    if t.op in ("rows", "flatten", "concat", "stores", "zeros2", "rowsum", "nonzero", "aeq", "alt", "ale", "diff", "reshape"):
        return "nd"
    if t.op in ("sorted", "keys", "values", "list", "map"):
        return "seq"
    if t.op == "maxfold":
        return "num"
    if t.op == "at" and t.a[0].op in ("diff",):
        return "num"
    if t.op == "at":
        b = t.a[0]
        if b.op in ("attr", "lv", "sym") and tm.ty(b) == "pair":
            return "int"
        if b.op == "nonzero":
            return "int"
    if t.op == "item":
        return "unk"
    return _base_ty(t)


tm.set_ty(_ty)


def sig(name, s):
    SIG[name] = s.split()


def ext(names, s=None):
    def deco(f):
        for n in names.split():
            EXT[n] = f
            if s is not None:
                SIG[n] = s.split()
        return f
    return deco


def norm_args(name, args, kwargs):
    """positional -> keyword by the signature table; returns dict or None"""
    s = SIG.get(name)
    d = {}
    for i, a in enumerate(args):
        if s is None:
            d[str(i)] = a
        elif i < len(s):
            d[s[i]] = a
        else:
            d[str(i)] = a
    for k, v in kwargs.items():
        d[k] = v
    for k in DROPKW.get(name, ()):
        d.pop(k, None)
    return d


def ext_attr(dotted):
    if dotted in ("numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan", "pandas.NA"):
        return NAN
    if dotted in ("numpy.inf", "math.inf", "numpy.Inf"):
        return const(float("inf"))
    if dotted == "math.pi":
        return const(F("3.141592653589793"))
    if dotted in ("os.path.sep", "os.sep"):
        return mk("ext", "os.sep")
    return mk("ext", dotted)


ND = ("zeros", "zeros2", "full", "store", "stores", "put", "concat", "vec", "range", "rows", "diff", "flatten", "rowsum",
      "nonzero", "aeq", "alt", "ale", "reshape")


def arrayish(v, d=0):
    if v.op in ("zeros", "zeros2", "full", "store", "stores", "put", "concat", "diff", "rows", "nonzero", "range", "flatten", "resize"):
        return True
    if ty(v) == "nd":
        return True
    if d > 4:
        return False
    if v.op == "poly":
        return any(arrayish(at, d + 1) for m, c in v.a[0] for at, e in m)
    if v.op == "sum":
        return arrayish(v.a[2], d + 1)
    if v.op == "vec":
        return False
    if v.op == "c:invert":
        return True
    if v.op == "c" or v.op == "sym":
        return False
    if v.op == "at" and v.a[0].op in ("call", "attr", "setitem") and ty(v.a[0]).startswith("ext:pandas"):
        return True
    t = ty(v)
    return t.startswith("ext:pandas")


def as_vec(I, st, v):
    """concrete elements of an array-like value or None"""
    d = I.deref(st, v)
    if d.op in ("vec", "tuple"):
        return list(d.a)
    s = I.seq_of(st, v)
    if s is not None and d.op in ("ref", "seq"):
        return I.concrete(s)
    return None


def call_term(name, recv, d, st=None, I=None):
    snap = (lambda x: I.snap(st, x)) if I is not None else (lambda x: x)
    return mk("call", name, recv if recv is not None else NONE,
              tuple((k, fsnap(I, st, v)) for k, v in sorted(d.items())))


def fsnap(I, st, v):
    v = I.snap(st, v)
    if v.op == "func":
        fi = I.funcs.get(v)
        if fi is not None and fi.qual != "<lambda>":
            return mk("fn", fi.qual)
    return v


# ------------------------------------------------------------------ attributes
def value_attr(I, st, base, b, name, node):
    if b.op == "slice":
        i = {"start": 0, "stop": 1, "step": 2}.get(name)
        if i is not None:
            return [(st, b.a[i])]
    if name == "size" and (b.op in ND or ty(b) in ("nd", "seq") or b.op == "poly"):
        return [(st, I.len_of(st, b))]
    if name == "shape":
        if b.op == "zeros2":
            return [(st, mk("tuple", *b.a))]
        if b.op in ("zeros", "full", "vec", "range", "concat"):
            return [(st, mk("tuple", I.len_of(st, b)))]
        return [(st, mk("shape", I.snap(st, b)))]
    if name == "ndim" and b.op in ("zeros", "full", "vec", "range"):
        return [(st, ONE)]
    if b.op == "func" and name == "__name__":
        return [(st, const(I.funcs[b].qual.split(".")[-1]))]
    if b.op == "range" and name in ("start", "stop", "step"):
        return [(st, b.a[("start", "stop", "step").index(name)])]
    if name == "T" and b.op in ("vec", "range", "full", "zeros"):
        return [(st, b)]
    if name == "__dict__":
        return [(st, mk("objdict", base))]
    v = st.fields.get((base, name))
    if v is not None:
        return [(st, v)]
    if b.op in ("setattr",) :
        t = b
        while t.op in ("setattr", "setitem"):
            if t.op == "setattr" and t.a[1] == name:
                return [(st, t.a[2])]
            t = t.a[0]
    if b.op == "ite":
        a1 = value_attr(I, st, b.a[1], b.a[1], name, node) or [(st, mk("attr", b.a[1], name))]
        a2 = value_attr(I, st, b.a[2], b.a[2], name, node) or [(st, mk("attr", b.a[2], name))]
        return [(st, ite(b.a[0], a1[0][1], a2[0][1]))]
    return None


def on_set_attr(I, st, base, name, val, node):
    b = base
    if b.op == "ref":
        return
    cur = st.cells.get(b, b)
    st.cells[b] = mk("setattr", cur, name, I.snap(st, val))
    st.fields.pop((base, name), None)


# ------------------------------------------------------------------ arithmetic
def strip_values(v):
    if v.op == "attr" and v.a[1] in ("values",):
        return v.a[0]
    if v.op == "call" and v.a[0] == ".to_numpy":
        return v.a[1]
    return v


def arith(I, st, op, x, y):
    if x.op == "ref" or y.op == "ref":
        x, y = I.snap(st, x), I.snap(st, y)
    if x.op == "c:invert" or y.op == "c:invert":
        return mk("ar" + op, x, y)
    if op == "+" and (ty(x) == "str" or ty(y) == "str"):
        return strcat(x, y)
    if x.op == "vec" or y.op == "vec":
        f = {"+": add, "-": sub, "*": mul, "/": div}[op]
        if x.op == "vec" and y.op == "vec" and len(x.a) == len(y.a):
            return mk("vec", *[f(p, q) for p, q in zip(x.a, y.a)])
        if x.op == "vec" and not arrayish(y):
            return mk("vec", *[f(p, y) for p in x.a])
        if y.op == "vec" and not arrayish(x):
            return mk("vec", *[f(x, q) for q in y.a])
    if op == "+" and (x.op == "concat" or x.op == "strcat") and ty(y) == "str":
        return strcat(x, y)
    if op in "+-" and x.op == "rows":
        pass
    if op == "+":
        return add(x, y)
    if op == "-":
        return sub(x, y)
    if op == "*":
        return mul(x, y)
    xs, ys = strip_values(x), strip_values(y)
    if (xs is not x or ys is not y) and False:
        x, y = xs, ys
    return div(x, y)


# ------------------------------------------------------------------ containers
def contains_rest(I, st, h, a):
    for k, v, g in h.data:
        if k is a and g is TRUE:
            return TRUE
    e = [and_(eq(k, a), g) for k, v, g in h.data]
    return or_(mk("in", a, h.rest), *e)


def contains_opaque(I, st, a, yd):
    if yd.op == "rowdict" and ROW is not None and is_str(a):
        return const(a.a[1] in ROW["present"] or a.a[1] in ROW["empty"])
    if yd.op == "keys":
        return contains_opaque(I, st, a, yd.a[0])
    if yd.op == "objdict" and is_str(a):
        return has_attr(I, st, yd.a[0], a.a[1])
    return None


def nonneg(I, st, t):
    return I.decide(st, le(ZERO, t)) is True


def beyond(I, st, b, i):
    """is the index certainly outside the value"""
    if not is_num(i) or i.a[1] != int(i.a[1]):
        return False
    n = int(i.a[1])
    if b.op in ("vec", "tuple"):
        return not -len(b.a) <= n < len(b.a)
    if b.op == "range" and b.a[2] is ONE and n >= -1:
        return I.decide(st, le(sub(b.a[1], b.a[0]), const(n if n >= 0 else 0))) is True
    return False


def get_item(I, st, base, idx, node):
    i = I.snap(st, idx)
    if base is NONE:
        return [(I.raise_(st, "TypeError", (), node), NONE)]
    if base.op in ("ref", "range", "vec"):
        h = st.heap.get(base) if base.op == "ref" else None
        if base.op != "ref" or h is not None and h.kind == "nd":
            if beyond(I, st, h.data if h is not None else base, i):
                return [(I.raise_(st, "IndexError", (), node), NONE)]
    if base.op == "ref":
        h = st.heap.get(base)
        if h is not None and h.kind == "dict" and base in I.dd:
            out = []
            for s, d in I.call(st, I.dd[base], [], {}, node):
                r = METH[("dict", "setdefault")](I, s, base, [i, d], {}, node) if s.ctrl is None else [(s, d)]
                out += r if isinstance(r, list) else [(s, r)]
            return out
        if h is not None and h.kind == "dict":
            return dict_get(I, st, base, h, i, node)
        if h is not None and h.kind in ("list", "set"):
            return [seq_get(I, st, base, h.data, i, node)]
        if h is not None and h.kind == "nd":
            return [(st, nd_get(I, st, h.data, i))]
        return [(st, mk("at", base, i))]
    b = I.deref(st, base)
    if b.op == "ref":
        return get_item(I, st, b, idx, node)
    if b.op == "attr" and b.a[1] in ("loc", "iloc", "at", "iat"):
        df = I.deref(st, b.a[0])
        return [(st, mk("loc", b.a[1], I.snap(st, df), i))]
    if b.op == "rowdict":
        return row_get(I, st, b, i, None, node)
    if b.op == "objdict" and is_str(i):
        return I.get_attr(st, b.a[0], i.a[1], node)
    if b.op == "c" and b.a[0] == "s":
        return [(st, str_get(b, i))]
    if b.op == "tuple":
        return [seq_get(I, st, base, mk("seq", *[mk("lit", x) for x in b.a]), i, node)]
    if b.op == "ite":
        r1 = get_item(I, st, b.a[1], idx, node)
        r2 = get_item(I, st, b.a[2], idx, node)
        if len(r1) == 1 and len(r2) == 1 and r1[0][0] is st and r2[0][0] is st:
            return [(st, ite(b.a[0], r1[0][1], r2[0][1]))]
    return [(st, nd_get(I, st, b, i))]


def str_get(b, i):
    if is_num(i):
        try:
            return const(b.a[1][int(i.a[1])])
        except IndexError:
            return mk("at", b, i)
    if i.op == "slice" and all(x is NONE or is_num(x) for x in i.a):
        s = slice(*[None if x is NONE else int(x.a[1]) for x in i.a])
        return const(b.a[1][s])
    return mk("at", b, i)


def item(I, st, S, i):
    if S.op in ("tuple", "vec") and is_num(i) and -len(S.a) <= i.a[1] < len(S.a):
        return S.a[int(i.a[1])]
    if S.op == "ref":
        r = get_item(I, st, S, i, None)
        return r[0][1]
    return nd_get(I, st, S, i)


def rowdict_of(S):
    """element of a list of row dictionaries, or of iterrows"""
    if S.op == "call" and S.a[0] == ".to_dict":
        return True
    return False


def row_key(i):
    """index of the row of a matrix which [i] stands for, or None"""
    if i.op == "tuple" and len(i.a) == 2 and i.a[1].op == "slice" and all(x is NONE for x in i.a[1].a):
        i = i.a[0]
    return i if i.op not in ("slice", "tuple") and (ty(i) == "int" or is_num(i)) else None


def matrix(b):
    while b.op == "store" and row_key(b.a[1]) is not None:
        b = b.a[0]
    return b.op == "zeros2"


def row_get2(b, i):
    """row i of a matrix of zeros into which whole rows were stored"""
    k = row_key(i)
    while k is not None and b.op == "store":
        j = row_key(b.a[1])
        if j is None:
            return None
        e = eq(j, k)
        if e is TRUE:
            return b.a[2]
        if e is not FALSE:
            return None
        b = b.a[0]
    return mk("zeros", b.a[1]) if k is not None and b.op == "zeros2" else None


def nd_get(I, st, b, i):
    """b[i] for an immutable view"""
    if b.op in ("zeros2", "store") and matrix(b):
        r = row_get2(b, i)
        if r is not None:
            return r
    if b.op in ("vec", "tuple"):
        if is_num(i) and -len(b.a) <= i.a[1] < len(b.a):
            return b.a[int(i.a[1])]
        if i.op == "slice" and all(x is NONE or is_num(x) for x in i.a):
            s = slice(*[None if x is NONE else int(x.a[1]) for x in i.a])
            return mk(b.op, *b.a[s])
        return mk("at", b, i)
    if b.op == "seq":
        s, v = seq_get(I, st, None, b, i, None)
        return v
    if ROW is not None and rowdict_of(b):
        return mk("rowdict", b, i)
    if ROW is not None and b.op == "call" and b.a[0] == ".iterrows":
        return mk("tuple", mk("at", mk("attr", b.a[1], "index"), i), mk("rowdict", b, i))
    if b.op == "call" and b.a[0] == ".items" and ty(b.a[1]).startswith("ext:pandas"):
        c = mk("at", mk("attr", b.a[1], "columns"), i)
        return mk("tuple", c, mk("at", b.a[1], c))
    if b.op == "enumerate":
        return mk("tuple", add(b.a[1], i), item(I, st, I.deref(st, b.a[0]), i))
    if b.op == "zip":
        return mk("tuple", *[item(I, st, I.deref(st, x), i) for x in b.a])
    if b.op == "range" and b.a[2] is ONE:
        lo, hi, _ = b.a
        if i.op == "slice" and i.a[2] in (NONE, ONE):
            s, e, _ = i.a
            nlo, nhi = lo, hi
            if s is not NONE:
                if nonneg(I, st, s):
                    nlo = mn(add(lo, s), hi) if I.decide(st, le(add(lo, s), hi)) is not True else add(lo, s)
                elif I.decide(st, lt(s, ZERO)) is True:
                    nlo = mx(lo, add(hi, s))
                else:
                    return mk("at", b, i)
            if e is not NONE:
                if nonneg(I, st, e):
                    nhi = add(lo, e) if I.decide(st, le(add(lo, e), hi)) is True else mn(hi, add(lo, e))
                elif I.decide(st, lt(e, ZERO)) is True:
                    nhi = add(hi, e)
                else:
                    return mk("at", b, i)
            return mk("range", nlo, nhi, ONE)
        if i.op != "slice" and ty(i) in ("int",):
            if is_num(i):
                return add(lo, i) if i.a[1] >= 0 else add(hi, i)
            if nonneg(I, st, i):
                return add(lo, i)
            if I.decide(st, lt(i, ZERO)) is True:
                return add(hi, i)
    if b.op == "diff":
        if is_num(i) and i.a[1] >= 0:
            x = b.a[0]
            return sub(nd_get(I, st, x, add(i, ONE)), nd_get(I, st, x, i))
        if is_num(i) and ty(b.a[0]) == "pair":
            x = b.a[0]
            return sub(nd_get(I, st, x, ONE), nd_get(I, st, x, ZERO))
    if ty(b) == "pair" and is_num(i) and i.a[1] < 0:
        return mk("at", b, const(2 + int(i.a[1])))
    if b.op == "full" and i.op != "slice" and ty(i) == "int":
        return b.a[1]
    if b.op == "zeros" and i.op != "slice" and ty(i) == "int":
        return ZERO
    if b.op == "shape" and is_num(i) and i.a[1] == 0:
        return I.len_of(st, b.a[0])
    if b.op == "poly" and i.op != "slice":
        # elementwise expression over known vectors
        if any(at.op in ("range", "vec", "full", "diff", "nonzero") for m, c in b.a[0] for at, e in m):
            r = ZERO
            for m, c in b.a[0]:
                t = const(c)
                for at, e in m:
                    v = nd_get(I, st, at, i) if (at.op in ND or arrayish(at)) else at
                    for _ in range(abs(e)):
                        t = mul(t, v) if e > 0 else div(t, v)
                r = add(r, t)
            return r
    if b.op == "concat" and is_num(i) and i.a[1] == 0 and False:
        pass
    if b.op == "keys" and ROW is None:
        pass
    return mk("at", b, i)


def clipped(I, n, k):
    """a constant bound k reaches the end of a sequence of n items: longer sequences behave differently"""
    k = abs(int(k))
    if n <= k <= 400:
        I.clip = max(I.clip, k)


def seq_get(I, st, base, seq, i, node):
    items = I.concrete(seq)
    if i.op == "slice" and items is not None:
        for x in i.a[:2]:
            if is_num(x):
                clipped(I, len(items), x.a[1])
    if i.op == "slice":
        if items is not None and all(x is NONE or is_num(x) for x in i.a):
            s = slice(*[None if x is NONE else int(x.a[1]) for x in i.a])
            if base is not None and I.deref(st, base).op == "tuple":
                return (st, mk("tuple", *items[s]))
            return (st, I.new_list(st, items[s]))
        if i.a[0] is NONE and i.a[1] is NONE and i.a[2] in (NONE, ONE):
            return (st, I.alloc(st, "list", seq))
        if i.a[0] is NONE and i.a[1] is NONE and is_num(i.a[2]) and i.a[2].a[1] == -1:
            r = backward_segs(seq.a)
            if r is not None:
                return (st, I.alloc(st, "list", r))
        return (st, mk("at", I.snap_seq(st, seq), i))
    if is_num(i):
        n = int(i.a[1])
        if items is not None:
            if -len(items) <= n < len(items):
                return (st, items[n])
            return (I.raise_(st, "IndexError", (), node), NONE)
        if n >= 0 and all(x.op == "lit" for x in seq.a[:n + 1]) and len(seq.a) > n:
            return (st, seq.a[n].a[0])
        if n < 0 and len(seq.a) >= -n and all(x.op == "lit" for x in seq.a[n:]):
            return (st, seq.a[n].a[0])
    if (seq, i) in I.idx_elem:
        return (st, I.idx_elem[(seq, i)])
    if len(seq.a) == 1 and seq.a[0].op == "star":
        return (st, nd_get(I, st, seq.a[0].a[0], i))
    if len(seq.a) == 1 and seq.a[0].op == "for" and len(seq.a[0].a[2].a) == 1 and seq.a[0].a[2].a[0].op == "lit":
        if nonneg(I, st, i):
            lvl, n, body = seq.a[0].a
            return (st, subst(body.a[0].a[0], {mk("b", lvl): i}))
    return (st, mk("at", I.snap_seq(st, seq), i))


def dict_get(I, st, ref, h, k, node, default=None):
    """[(state, value)] for d[k] (default None: KeyError)"""
    out = []
    cands = []
    for kk, v, g in h.data:
        e = and_(eq(kk, k), g)
        if kk.op == "fordict":
            e = None
        if e is FALSE:
            continue
        cands.append((kk, v, g, e))
    if len(cands) == 1 and cands[0][3] is TRUE:
        return [(st, cands[0][1])]
    if any(c[3] is None for c in cands):
        return [(st, mk("at", I.snap(st, ref), k))]
    exact = [c for c in cands if c[0] is k]
    if exact:
        cands = exact
    s = st
    for kk, v, g, e in cands:
        d = I.decide(s, e)
        if d is True:
            out.append((s, v))
            return out
        if d is False:
            continue
        s1 = s.copy()
        s1.assume(e)
        out.append((s1, v))
        s.assume(not_(e))
    if h.rest is not None:
        v = mk("at", h.rest, k)
        if h.rest.op in ("lv", "loopout"):
            v = mk("at", h.rest, k)
        out.append((s, v if default is None else mk("getdef", h.rest, k, I.snap(s, default))))
        return out
    if default is not None:
        out.append((s, default))
    else:
        out.append((I.raise_(s, "KeyError", (k,), node), NONE))
    return out


def row_get(I, st, b, k, default, node):
    if ROW is not None and is_str(k):
        n = k.a[1]
        if n in ROW["present"] or n in ROW["empty"]:
            return [(st, mk("cell", b, n))]
        if default is not None:
            return [(st, default)]
        return [(I.raise_(st, "KeyError", (k,), node), NONE)]
    return [(st, mk("at", b, k))]


def isna(I, st, v):
    v = I.snap(st, v)
    if v is NAN or v is NONE:
        return TRUE
    if v.op == "cell" and ROW is not None:
        return const(v.a[1] in ROW["empty"])
    if v.op == "c" or v.op == "vec":
        return FALSE
    if v.op == "ite":
        return ite(v.a[0], isna(I, st, v.a[1]), isna(I, st, v.a[2]))
    return mk("isna", v)


def set_item(I, st, base, idx, val, node):
    i = I.snap(st, idx)
    if base.op == "ref":
        h = st.heap.get(base)
        if h is not None and h.kind == "dict":
            I.dict_set(st, base, i, val)
            return [st]
        if h is not None and h.kind in ("list",):
            items = I.concrete(h.data)
            if items is not None and is_num(i) and -len(items) <= i.a[1] < len(items):
                n = int(i.a[1])
                items[n] = val
                st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items]))
                I.event(st, "listset", "set", recv=base, args={"index": i, "value": val}, node=node)
                return [st]
            if i.op == "slice" and all(x is NONE for x in i.a):
                q = I.seq_of(st, val)
                st.heap[base] = HObj_("list", q)
                return [st]
            if i.op == "slice" and items is not None and all(x is NONE or is_num(x) for x in i.a) and i.a[2] in (NONE, ONE):
                q = I.seq_of(st, val)
                new = I.concrete(q) if q is not None else None
                if new is not None:
                    items[slice(*[None if x is NONE else int(x.a[1]) for x in i.a])] = new
                    st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items]))
                    return [st]
            st.heap[base] = HObj_("list", mk("seq", mk("star", mk("store", I.snap_seq(st, h.data), i, I.snap(st, val)))))
            I.event(st, "listset", "set", recv=base, args={"index": i, "value": val}, node=node)
            return [st]
        if h is not None and h.kind == "nd":
            v = norm_store_val(I, st, i, I.snap(st, val))
            i = norm_index(i)
            v = narrowed(I, base, v)
            nd = mk("store", h.data, i, v)
            if h.data.op == "vec" and is_num(i) and -len(h.data.a) <= i.a[1] < len(h.data.a):
                l = list(h.data.a)
                l[int(i.a[1])] = v
                nd = mk("vec", *l)
            st.heap[base] = HObj_("nd", nd)
            I.event(st, "ndwrite", "set", recv=base, args={"index": i, "value": v}, node=node)
            return [st]
    b = base
    if b.op == "objdict" and is_str(i):
        return I.set_attr(st, b.a[0], i.a[1], val, node)
    if b.op == "attr" and b.a[1] in ("loc", "iloc", "at", "iat"):
        tgt = b.a[0]
        kind = b.a[1]
    else:
        tgt = b
        kind = ""
    v = norm_store_val(I, st, i, I.snap(st, val))
    i = norm_index(i)
    I.event(st, "setitem", kind, recv=tgt, args={"index": i, "value": v}, node=node)
    if tgt.op == "lv" and ty(tgt) == "nd" or tgt.op in ND:
        cur = st.cells.get(tgt, tgt)
        st.cells[tgt] = mk("store", cur, i, v)
        return [st]
    cur = st.cells.get(tgt, tgt)
    st.cells[tgt] = mk("setitem", cur, kind, i, v)
    return [st]


def norm_index(i):
    if i.op == "range" and i.a[2] is ONE:
        return mk("slice", i.a[0], i.a[1], NONE)
    if i.op == "slice" and i.a[2] is ONE:
        return mk("slice", i.a[0], i.a[1], NONE)
    if i.op == "tuple":
        full = mk("slice", NONE, NONE, NONE)
        if len(i.a) == 2 and i.a[1] is full:
            return i.a[0]
    return i


def norm_store_val(I, st, i, v):
    """scalar broadcast: x[a:b] = full(b-a, v)  is  x[a:b] = v"""
    if i.op in ("slice",) and i.a[2] in (NONE, ONE) and i.a[0] is not NONE and i.a[1] is not NONE:
        n = sub(i.a[1], i.a[0])
    elif i.op == "range" and i.a[2] is ONE:
        n = sub(i.a[1], i.a[0])
    else:
        return v
    if v.op == "full" and (v.a[0] is n or v.a[0] is mx(ZERO, n) or I.len_of(st, mk("range", *( (i.a[0], i.a[1], ONE)))) is v.a[0]):
        return v.a[1]
    return v


def HObj_(k, d, rest=None):
    from .interp import HObj
    return HObj(k, d, rest)


# ------------------------------------------------------------------ calls
def call_ext(I, st, name, args, kwargs, node):
    name = canon(name)
    d = norm_args(name, args, kwargs)
    stub = I.stubs.get("ext:" + name)
    if stub is not None:
        r = stub(I, st, d, node)
        if r is not None:
            return r
    f = EXT.get(name)
    if f is not None:
        into = d.pop("out", None) if name in INTO else None
        r = f(I, st, d, node)
        if r is not None:
            r = r if isinstance(r, list) else [(st, r)]
            return r if into is None or into is NONE else [(s, written(I, s, into, v, node)) for s, v in r]
    if "." in name and name.split(".")[0] == "builtins" and name.count(".") == 2:
        # str.isdigit(x), list.append(x, y)
        m = name.split(".")[2]
        if "0" in d:
            return call_method(I, st, args[0], m, list(args[1:]), kwargs, node)
    if name.startswith("builtins.__build_class__"):
        raise I.err("dynamic class", node)
    return opaque(I, st, name, d, node)


INTO = {"numpy." + x for x in ("add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "fmax", "fmin", "clip")}


def written(I, s, into, v, node):
    """numpy.add(a, b, out=array): the result is written into the array"""
    if s.ctrl:
        return v
    if not (into.op == "ref" and s.heap.get(into) is not None and s.heap[into].kind == "nd"):
        raise I.err("out= of something else than a known array", node)
    s.heap[into] = HObj_("nd", narrowed(I, into, I.snap(s, v)))
    I.event(s, "ndwrite", "aug", recv=into, args={"value": v}, node=node)
    return into


CANON = {"random.normalvariate": "random.gauss", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
         "numpy.absolute": "numpy.abs", "pandas.isnull": "pandas.isna", "numpy.average": "numpy.mean",
         "numpy.flatnonzero": "numpy.flatnonzero", "pathlib.PurePath": "pathlib.Path",
         "numpy.asarray": "numpy.array", "numpy.row_stack": "numpy.vstack"}


def canon(n):
    return CANON.get(n, n)


def may_raise(name):
    if name in ("json.loads", "builtins.open"):
        return {"json.loads": "JSONDecodeError", "builtins.open": "OSError"}[name]
    return None


def opaque(I, st, name, d, node, event=None):
    """uninterpreted library function"""
    res = call_term(name, None, d, st, I)
    pure = name in PURE_EXT or name.startswith(PURE_PREFIX)
    out = []
    if I.try_depth:
        hs = I.try_handlers[-1]
        x = may_raise(name)
        if x is not None or (not hs or "Exception" in hs or "BaseException" in hs or name.startswith(("pandas.", "numpy."))):
            s2 = st.copy()
            s2.ctrl = ("raise", x or "?ext", (), node, I.stack[-1].qual if I.stack else "")
            out.append((s2, NONE))
    if not pure:
        if name in ("builtins.open",) or name.startswith(("os.", "shutil.", "subprocess.")):
            pass
        res = mk("call", res.a[0], res.a[1], res.a[2])
    I.event(st, "call", name, args={k: v for k, v in d.items()}, res=res, node=node, extra="pure" if pure else None)
    if pure:
        # keep the log small: pure calls are only recorded as terms
        e = st.events.pop()
        st.ireads = st.ireads | {(mk("ext", "call"), name)}
        I.purecalls.append(e)
    out.append((st, res))
    return out


def opaque_call(I, st, kind, args, kwargs, node):
    d = {str(i): a for i, a in enumerate(args)}
    d.update(kwargs)
    res = call_term("?" + kind, None, d, st, I)
    I.event(st, "call", "?" + kind, args=d, res=res, node=node)
    return [(st, res)]


def call_method(I, st, base, name, args, kwargs, node):
    if base.op == "ref":
        h = st.heap.get(base)
        if h is not None:
            f = METH.get((h.kind, name)) or (METH.get(("list", name)) if h.kind == "set" else None)
            if f is not None:
                r = f(I, st, base, list(args), dict(kwargs), node)
                if r is not None:
                    return r if isinstance(r, list) else [(st, r)]
            if h.kind in ("list", "set", "dict") and name in STRONLY:
                return [(I.raise_(st, "AttributeError", (const(name),), node), NONE)]
            if h.kind in ("list", "set", "dict") and name in MUTATORS:
                raise I.err(f"method {name} of a {h.kind}", node)
    b = I.deref(st, base)
    if b is NONE and not name.startswith("__"):
        return [(I.raise_(st, "AttributeError", (const(name),), node), NONE)]
    stub = I.stubs.get("m:" + name)
    if stub is not None:
        r = stub(I, st, base, list(args), dict(kwargs), node)
        if r is not None:
            return r
    if name == "__getattribute__" and len(args) == 1 and is_str(args[0]):
        return I.get_attr(st, base, args[0].a[1], node)
    if name == "__setattr__" and len(args) == 2 and is_str(args[0]):
        return [(s, NONE) for s in I.set_attr(st, base, args[0].a[1], args[1], node)]
    if b.op == "rowdict" and name == "get":
        return row_get(I, st, b, args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE), node)
    if b.op == "rowdict" and name in ("items", "keys", "values") and ROW is not None:
        ks = sorted(ROW["present"] | ROW["empty"])
        vals = [mk("cell", b, k) for k in ks]
        return [(st, I.new_list(st, {"items": [mk("tuple", const(k), v) for k, v in zip(ks, vals)], "keys": [const(k) for k in ks],
                                    "values": vals}[name]))]
    if b.op == "rowdict" and name in ("to_dict", "copy"):
        return [(st, b)]
    if is_str(b) or ty(b) == "str":
        r = str_method(I, st, b, name, args, kwargs, node)
        if r is not None:
            return [(st, r)]
    if b.op in ND or ty(b) == "nd" or (b.op in ("poly", "sum", "seq") and name in ARRM) or (
            b.op in ("sum", "max", "sym", "at", "attr", "call", "loc", "ite", "nonzero") and name in ("reshape", "squeeze", "ravel", "flatten")):
        r = nd_method(I, st, base, b, name, args, kwargs, node)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
    if b.op == "tuple" and name in ("index", "count") and is_const(args[0]) and all(is_const(x) for x in b.a):
        l = list(b.a)
        if name == "count":
            return [(st, const(l.count(args[0])))]
        if args[0] in l:
            return [(st, const(l.index(args[0])))]
    if b.op == "ite":
        out = []
        for s, t in I.split(st, b.a[0]):
            out += call_method(I, s, b.a[1] if t else b.a[2], name, args, kwargs, node)
        return out
    if I.cls_of(st, base):
        out = []
        for s, f in I.get_attr(st, base, name, node):
            if s.ctrl is not None:
                out.append((s, NONE))
            elif f.op in ("bound", "func"):
                out += I.call(s, f, args, kwargs, node)
            else:
                out += opaque_method(I, s, base, I.deref(s, base), name, args, kwargs, node)
        return out
    if b.op == "cls" or b.op == "module":
        out = []
        for s, f in I.get_attr(st, b, name, node):
            out += I.call(s, f, args, kwargs, node)
        return out
    if b.op == "ext":
        return call_ext(I, st, b.a[0] + "." + name, args, kwargs, node)
    return opaque_method(I, st, base, b, name, args, kwargs, node)


POOL = ("imap", "imap_unordered", "map", "starmap", "map_async", "starmap_async", "apply_async", "apply")
STRONLY = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "startswith", "endswith", "partition", "rpartition", "isdigit",
           "isnumeric", "title", "capitalize", "casefold", "splitlines", "zfill"}     # methods of texts which no container has
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
            "discard", "__setitem__", "__delitem__"}


def opaque_method(I, st, base, b, name, args, kwargs, node):
    snapb = I.snap(st, b)
    if name in POOL and is_pool(snapb):
        return pool_map(I, st, snapb, name, args, kwargs, node)
    if name == "get" and snapb.op == "call" and snapb.a[0] == "multiprocessing.async":
        return [(st, snapb.a[2][0][1])]
    d = {}
    s = M_SIG.get(name)
    for i, a in enumerate(args):
        d[s[i] if s and i < len(s) else str(i)] = a
    d.update(kwargs)
    d = {k: v for k, v in d.items() if DEFAULTS.get((name, k)) is None or DEFAULTS[(name, k)] is not v}
    if snapb.op == "rows" or snapb.op == "seq":
        pass
    inplace = d.get("inplace")
    recv = snapb
    if name in ("weekday",) and snapb.op == "call" and snapb.a[0] == ".date":
        recv = snapb.a[1]
    if name in ("to_list",):
        name = "tolist"
    if name in ("iteritems",):
        name = "items"
    if name == "isnull":
        name = "isna"
    if name == "isoweekday":
        return [(st, add(ONE, call_term(".weekday", recv, {}, st, I)))]
    if name == "toordinal" and not d:
        # day 1 was a Monday
        return [(st, add(add(ONE, call_term(".weekday", recv, {}, st, I)), mul(const(7), call_term(".weeks", recv, {}, st, I))))]
    if name == "set_axis" and inplace is not TRUE and ("labels" in d or "0" in d):
        lab = d.get("labels", d.get("0"))
        ax = I.deref(st, d.get("axis", d.get("1", ZERO)))
        ax = {"0": "index", "index": "index", "rows": "index", "1": "columns", "columns": "columns"}.get(str(ax.a[1]) if ax.op == "c" else "")
        if ax:
            return [(st, mk("setattr", call_term(".copy", recv, {}, st, I), ax, I.snap(st, lab)))]
    res = call_term("." + name, recv, {k: v for k, v in d.items() if k != "inplace"}, st, I)
    pure = name in PURE_M and (inplace is None or inplace is FALSE)
    out = []
    if I.try_depth:
        hs = I.try_handlers[-1]
        if not hs or "Exception" in hs or "BaseException" in hs:
            s2 = st.copy()
            s2.ctrl = ("raise", "?ext", (), node, I.stack[-1].qual if I.stack else "")
            out.append((s2, NONE))
    if pure:
        from .interp import Ev
        I.purecalls.append(Ev("mcall", name, recv, d, res, (), node, I.stack[-1].qual if I.stack else "", st.loops))
    else:
        I.event(st, "mcall", name, recv=recv, args=d, res=res, node=node, extra=base)
        if inplace is TRUE:
            st.cells[base] = res
            out.append((st, NONE))
            return out
        if name in MUTATORS:
            cur = st.cells.get(base, base)
            st.cells[base] = mk("mut", name, cur, tuple((k, fsnap(I, st, v)) for k, v in sorted(d.items())))
            if name in ("append", "extend", "insert", "sort", "reverse", "clear", "update", "remove"):
                out.append((st, NONE))
                return out
    out.append((st, res))
    return out


def is_pool(t):
    return t.op == "call" and t.a[0].split(".")[-1] in ("Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor")


def pool_map(I, st, pool, name, args, kwargs, node):
    """a pool applies a function to each task; results in the order of the tasks (except imap_unordered)"""
    I.event(st, "pool", name, recv=pool, args=dict({str(i): a for i, a in enumerate(args)}, **kwargs), node=node)
    if name.startswith("apply"):
        a = args[1] if len(args) > 1 else kwargs.get("args", mk("tuple"))
        items = I.concrete(I.seq_of(st, a)) or []
        I.event(st, "poolbegin", name, args={"order": TRUE}, node=node)
        r = I.call(st, args[0], list(items), {}, node)
        for s, v in r:
            I.event(s, "poolend", name, node=node)
        if name == "apply_async":
            return [(s, mk("call", "multiprocessing.async", NONE, (("v", v),))) for s, v in r]
        return r
    f, seq = args[0], args[1] if len(args) > 1 else kwargs.get("iterable")
    star = name.startswith("starmap")
    ordered = name != "imap_unordered"
    I.event(st, "poolbegin", name, args={"order": const(ordered)}, node=node)
    r = map_seq(I, st, f, seq, node, star=star)
    for s, v in r:
        I.event(s, "poolend", name, node=node)
    if not ordered:
        r = [(s, mk("unordered", I.snap(s, v))) for s, v in r]
    return r


def map_seq(I, st, f, seq, node, star=False):
    outer = dict(st.env)
    st.env["%f"] = f
    st.env["%seq"] = seq
    call = ast.Call(func=ast.Name(id="%f", ctx=ast.Load()),
                    args=[ast.Starred(value=ast.Name(id="%x", ctx=ast.Load()), ctx=ast.Load()) if star else ast.Name(id="%x", ctx=ast.Load())],
                    keywords=[])
    comp = ast.ListComp(elt=call, generators=[ast.comprehension(target=ast.Name(id="%x", ctx=ast.Store()),
                                                               iter=ast.Name(id="%seq", ctx=ast.Load()), ifs=[], is_async=0)])
    return run_synth(I, st, comp, outer, node)


def filter_seq(I, st, f, seq, node):
    outer = dict(st.env)
    st.env["%f"] = f
    st.env["%seq"] = seq
    cond = ast.Call(func=ast.Name(id="%f", ctx=ast.Load()), args=[ast.Name(id="%x", ctx=ast.Load())], keywords=[])
    comp = ast.ListComp(elt=ast.Name(id="%x", ctx=ast.Load()), generators=[ast.comprehension(
        target=ast.Name(id="%x", ctx=ast.Store()), iter=ast.Name(id="%seq", ctx=ast.Load()), ifs=[cond], is_async=0)])
    return run_synth(I, st, comp, outer, node)


def run_synth(I, st, comp, outer, node):
    line = getattr(node, "lineno", 0)
    for x in ast.walk(comp):
        x.lineno = line
        x.col_offset = 0
        x.end_lineno = line
        x.end_col_offset = 0
    res = []
    for s, v in I.ev(comp, st):
        env = dict(outer)
        s.env = env
        res.append((s, v))
    return res


# ------------------------------------------------------------------ strings
def str_method(I, st, b, name, args, kwargs, node):
    a = [I.snap(st, x) for x in args]
    if name == "join" and a:
        items = as_vec(I, st, args[0])
        if items is not None and is_str(b):
            parts = []
            for n, x in enumerate(items):
                if n:
                    parts.append(b)
                parts.append(x)
            return strcat(*parts)
        return mk("call", ".join", b, (("iterable", a[0]),))
    if name == "format" and is_str(b):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(b.a[1]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                elif field in kwargs:
                    v = I.snap(st, kwargs[field])
                else:
                    return mk("call", ".format", b, tuple((str(i), x) for i, x in enumerate(a)))
                parts.append(I.fmt(st, v, spec or None))
            return strcat(*parts)
        except (IndexError, ValueError):
            return None
    if is_str(b) and all(is_const(x) and x.a[0] in "sib" for x in a) and not kwargs and name in (
            "replace", "strip", "lstrip", "rstrip", "lower", "upper", "split", "rsplit", "endswith", "startswith", "title",
            "capitalize", "isdigit", "count", "find", "index", "removesuffix", "removeprefix", "zfill", "splitlines"):
        try:
            r = getattr(b.a[1], name)(*[x.a[1] for x in a])
        except Exception:
            return None
        if isinstance(r, list):
            return I.new_list(st, [const(x) for x in r])
        return const(r)
    if name in ("endswith", "startswith") and a and a[0].op in ("tuple",):
        return or_(*[str_method(I, st, b, name, [x], {}, node) for x in a[0].a])
    if b.op == "strcat" and name in ("endswith", "startswith") and is_str(a[0]):
        q = b.a[-1] if name == "endswith" else b.a[0]
        if is_str(q):
            if len(q.a[1]) >= len(a[0].a[1]):
                return const(getattr(q.a[1], name)(a[0].a[1]))
    if "." + name in STR_M or "." + name in BOOL_M or name in ("split", "rsplit", "encode", "splitlines"):
        s = M_SIG.get(name) or ()
        d = {s[i] if i < len(s) else str(i): x for i, x in enumerate(a)}
        d.update({k: I.snap(st, v) for k, v in kwargs.items()})
        if name in ("lower", "upper") and b.op == "call" and b.a[0] == "." + name:
            return b
        return mk("call", "." + name, b, tuple(sorted(d.items())))
    return None


# ------------------------------------------------------------------ arrays
ARRM = {"sum", "mean", "max", "min", "any", "all", "reshape", "squeeze", "ravel", "flatten", "tolist", "copy", "astype",
        "nonzero", "repeat", "cumsum", "fill", "put", "argmax", "item", "transpose", "round", "std", "dot", "clip", "take", "sort"}


def nd_method(I, st, base, b, name, args, kwargs, node):
    ax = kwargs.get("axis", args[0] if args and name in ("sum", "mean", "max", "min", "any", "all") else None)
    v = I.snap(st, b)
    if name == "sum":
        return asum(I, st, v, ax)
    if name == "mean":
        return amean(v, ax)
    if name in ("max", "min"):
        return amaxmin(I, st, v, name)
    if name in ("any", "all"):
        return aanyall(I, st, v, name)
    if name == "reshape":
        od = kwargs.get("order")
        if od is not None and I.snap(st, od) is not const("C"):
            return new_nd(I, st, mk("call", "reordered", v, I.snap(st, od)))
        sh = mk("tuple", *args) if len(args) != 1 else args[0]
        sh = I.snap(st, sh)
        if sh.op == "c" and sh.a[1] == -1:
            return new_nd(I, st, flatten(v))
        return new_nd(I, st, mk("reshape", v, sh))
    if name in ("squeeze", "ravel", "flatten"):
        od = kwargs.get("order", args[0] if args and name != "squeeze" else None)
        if od is not None and I.snap(st, od) is not const("C"):
            return new_nd(I, st, mk("call", "reordered", v, I.snap(st, od)))
        return new_nd(I, st, flatten(v) if name != "squeeze" else squeeze(v))
    if name == "tolist":
        return I.alloc(st, "list", I.seq_of(st, v)) if v.op in ("vec", "range") else mk("call", ".tolist", v, ())
    if name == "copy":
        return narrow(I, new_nd(I, st, v), I.narrow.get(base))
    if name == "astype":
        a = args[0] if args else kwargs.get("dtype")
        return new_nd(I, st, mk("astype", v, I.snap(st, a)) if v.op not in ("vec", "range") else v)
    if name == "nonzero":
        return mk("tuple", mk("nonzero", v))
    if name == "transpose":
        return transposed(v)
    if name == "item" and not args and v.op == "diff":
        return nd_get(I, st, v, ZERO)
    if name == "item" and not args and v.op == "vec" and len(v.a) == 1:
        return v.a[0]
    if name == "fill":
        if base.op == "ref":
            st.heap[base] = HObj_("nd", mk("full", I.len_of(st, v), narrowed(I, base, I.snap(st, args[0]))))
            I.event(st, "ndwrite", "fill", recv=base, args={"index": mk("slice", NONE, NONE, NONE), "value": args[0]}, node=node)
            return NONE
    if name == "put":
        return nput(I, st, base, args[0], args[1], node)
    if name == "repeat" and v.op in ("vec",) and len(v.a) == 1:
        return mk("full", I.snap(st, args[0]), v.a[0])
    return None


def new_nd(I, st, data):
    return I.alloc(st, "nd", data)


# arrays which cannot hold every number: a value stored in one is converted to its element type
KINDS = {"int": "int", "bool": "bool", "f": "f32", "e": "f32", "?": "bool", "b": "bool"}


def dtype_kind(I, st, d):
    """element type of a new array: None (any number) or 'int' | 'bool' | 'f32'"""
    t = d.get("dtype")
    if t is None:
        return None
    t = I.deref(st, t)
    if t.op == "ext":
        n = t.a[0].split(".")[-1].rstrip("_")
    elif is_str(t):
        n = t.a[1].lstrip("<>=|")
    else:
        return None
    if n in ("int8", "uint8", "i1", "u1", "byte", "ubyte", "b1", "b", "B"):
        return "bool" if n in ("b1",) or n == "b" and not is_str(t) else "i8"
    if n in KINDS:
        return KINDS[n]
    if re.fullmatch(r"u?int(p|c|\d+)?|[iu]\d?|long|short|byte", n):
        return "int"
    if n in ("float32", "float16", "single", "half", "f4", "f2"):
        return "f32"
    return None


def narrow(I, ref, kind):
    if kind is not None and ref.op == "ref":
        I.narrow[ref] = kind
    return ref


def narrowed(I, ref, v, kind=None):
    kind = kind or I.narrow.get(ref)
    if kind is None or not isinstance(v, T):
        return v
    if v.op in ("zeros", "zeros2", "range", "nonzero"):
        return v
    if v.op in ("vec", "concat"):
        return mk(v.op, *[narrowed(I, ref, x, kind) for x in v.a])
    if v.op == "full":
        return mk("full", v.a[0], narrowed(I, ref, v.a[1], kind))
    if v.op == "ite":
        return ite(v.a[0], narrowed(I, ref, v.a[1], kind), narrowed(I, ref, v.a[2], kind))
    if kind == "f32":
        return v if is_num(v) and F(float(v.a[1])).denominator < 1024 or ty(v) in ("int", "bool") or v is NAN else mk("f32", v)
    if kind == "i8":
        # eight bits: larger numbers wrap around
        return v if v is NAN or is_num(v) and 0 <= v.a[1] <= 127 and v.a[1] == int(v.a[1]) else mk("wrap8", v)
    if kind == "bool":
        if is_num(v):
            return const(int(v.a[1] != 0))
        return v if ty(v) == "bool" else mk("ind", mk("truth", v))
    return v if v is NAN or ty(v) in ("seq", "nd", "tuple") and False else rounder("int", v)


def two_dim(v):
    while v.op in ("store", "put", "stores"):
        v = v.a[0]
    return v.op in ("zeros2", "rows")


def transposed(v):
    return mk("attr", v, "T") if two_dim(v) else v


def flatten(v):
    if v.op == "reshape":
        return flatten(v.a[0])
    if v.op == "flatten":
        return v
    if v.op in ("zeros", "full", "vec", "range", "concat", "nonzero"):
        return v
    if v.op == "argwhere":
        return mk("nonzero", v.a[0])
    return mk("flatten", v)


def squeeze(v):
    if v.op == "reshape":
        # (1, n) -> (n,)
        sh = v.a[1]
        if sh.op == "tuple" and len(sh.a) == 2 and ONE in sh.a and not two_dim(v.a[0]):
            return flatten(v.a[0])
        if sh.op == "tuple" and len(sh.a) == 1 or sh.op != "tuple":
            return flatten(v.a[0])
    if v.op in ("zeros", "range", "nonzero", "flatten", "concat"):
        return v
    return mk("squeeze", v)


def asum(I, st, v, ax=None):
    if ax is NONE:
        ax = None
    if v.op == "rows" and ax is not None and is_num(ax) and ax.a[1] in (0,):
        r = ZERO
        for x in v.a:
            r = add(r, seg_sum(I, st, x))
        return r
    if ax is not None and is_num(ax) and ax.a[1] == 0:
        r = sum_of_rows(I, st, v)
        if r is not None:
            return r
    if v.op in ("vec", "tuple"):
        r = ZERO
        for x in v.a:
            r = add(r, x)
        return r
    if v.op == "diff" and ty(v.a[0]) == "pair":
        return nd_get(I, st, v, ZERO)
    if v.op == "full":
        return mul(v.a[0], v.a[1])
    if v.op == "zeros":
        return ZERO
    return mk("asum", v, ax if ax is not None else NONE)


def sum_of_rows(I, st, v):
    """the sum over the rows of a table of zeros whose rows have been written one by one"""
    done, r = set(), ZERO
    while v.op == "store":
        k, row = v.a[1], v.a[2]
        if not is_num(k) or k.a[1] < 0:
            return None
        if k not in done:
            done.add(k)
            r = add(r, row)
        v = v.a[0]
    if v.op == "stores" and not done and v.a[0].op == "zeros2" and v.a[1].op == "for":
        lvl, n, body = v.a[1].a
        b = mk("b", lvl)
        if not (body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit"):
            return None
        p = body.a[0].a[0]
        if not (p.op == "tuple" and len(p.a) == 2 and p.a[0] is b):
            return None
        bvt = mk("bv", I.fresh())
        return I.close_sum(n, bvt, subst(p.a[1], {b: bvt}))
    if v.op != "zeros2":
        return None
    return r if done else mk("zeros", v.a[1])


def seg_sum(I, st, x, depth=0):
    """sum of the elements of a segment"""
    if depth > 10:
        return mk("asum", mk("seq", x), ZERO)
    if x.op == "lit":
        return x.a[0]
    if x.op == "star":
        return mk("asum", x.a[0], ZERO)
    if x.op == "when":
        r = ZERO
        for y in x.a[1].a:
            r = add(r, seg_sum(I, st, y, depth + 1))
        return mul(ind(x.a[0]), r)
    if x.op == "for":
        lvl, n, body = x.a
        bvt = mk("bv", I.fresh())
        r = ZERO
        for y in body.a:
            r = add(r, seg_sum(I, st, subst(y, {mk("b", lvl): bvt}), depth + 1))
        return I.close_sum(n, bvt, r)
    return x


def amean(v, ax=None):
    if v.op == "vec" and v.a:
        r = ZERO
        for x in v.a:
            r = add(r, x)
        return div(r, const(len(v.a)))
    if ax is None or ax is NONE:
        return mk("mean", v)
    return mk("mean", v, ax)


def amaxmin(I, st, v, name):
    if v.op == "tuple" and len(v.a) == 1:
        v = v.a[0]
    if v.op in ("vec", "tuple") and v.a:
        return mx(*v.a) if name == "max" else mn(*v.a)
    if name == "max" and v.op == "seq" and first_numbers(st, v):
        return sub(I.len_of(st, v), ONE)
    return mk("a" + name, v)


def first_numbers(st, v):
    """are these the numbers 0, 1, … up to the last one which satisfies a condition that only becomes false as they grow?"""
    if len(v.a) != 1 or v.a[0].op != "for":
        return False
    lvl, _, body = v.a[0].a
    b = mk("b", lvl)
    if not (body.op == "seq" and len(body.a) == 1 and body.a[0].op == "when"):
        return False
    cond, inner = body.a[0].a
    if not (inner.op == "seq" and len(inner.a) == 1 and inner.a[0] is mk("lit", b)) or cond.op not in ("le0", "lt0"):
        return False
    slope = None
    for mono, co in to_poly(cond.a[0]).items():
        if any(at is b or b in subterms(at) for at, e in mono):
            rest = [(at, e) for at, e in mono if at is not b]
            if slope is not None or dict(mono).get(b) != 1 or co <= 0 or any(b in subterms(at) for at, e in rest):
                return False
            slope = rest
    if slope is None:
        return False
    F_ = Facts(list(st.facts))
    return all(F_.entails(lt(ZERO, at)) for at, e in slope)




def aanyall(I, st, v, name):
    if v.op in ("vec", "tuple"):
        cs = [I.truth(st, x) for x in v.a]
        return or_(*cs) if name == "any" else and_(*cs)
    if v.op == "seq":
        return quant(I, st, v, name)
    return mk("truth", mk("a" + name, v))


def quant(I, st, seq, name):
    """any/all over segments"""
    out = []
    for x in seq.a:
        if x.op == "lit":
            out.append(I.truth(st, x.a[0]))
        elif x.op == "for":
            lvl, n, body = x.a
            inner = quant(I, st, body, name)
            c = inner if name == "all" else not_(inner)
            q = mk("forall", lvl, n, c)
            if is_num(n) and n.a[1] == 0:
                q = TRUE
            out.append(q if name == "all" else not_(q))
        elif x.op == "when":
            inner = quant(I, st, x.a[1], name)
            out.append(or_(not_(x.a[0]), inner) if name == "all" else and_(x.a[0], inner))
        else:
            out.append(mk("truth", mk("a" + name, x.a[0])))
    return and_(*out) if name == "all" else or_(*out)


def nput(I, st, a, idx, val, node):
    i = norm_index(I.snap(st, idx))
    v = I.snap(st, val)
    v = norm_store_val(I, st, i, v)
    scalar = v.op not in ("concat", "full", "vec", "store", "range") and not arrayish(v)
    if a.op == "ref" and a in st.heap and st.heap[a].kind == "nd":
        v = narrowed(I, a, v)
        st.heap[a] = HObj_("nd", mk("put", st.heap[a].data, i, v))
        I.event(st, "ndwrite", "put", recv=a, args={"index": i, "value": v}, node=node)
    else:
        cur = st.cells.get(a, a)
        st.cells[a] = mk("put", cur, i, v)
        I.event(st, "ndwrite", "put", recv=a, args={"index": i, "value": v}, node=node)
    return NONE


# ------------------------------------------------------------------ list / dict / nd methods of heap objects
def meth(kind, name):
    def deco(f):
        METH[(kind, name)] = f
        return f
    return deco


@meth("list", "append")
@meth("list", "add")
def _append(I, st, base, args, kwargs, node):
    h = st.heap[base]
    st.heap[base] = HObj_(h.kind, mk("seq", *(h.data.a + (mk("lit", args[0]),))))
    return NONE


@meth("list", "extend")
def _extend(I, st, base, args, kwargs, node):
    h = st.heap[base]
    q = I.seq_of(st, args[0])
    if q is None:
        raise I.err("extend", node)
    st.heap[base] = HObj_(h.kind, mk("seq", *(h.data.a + q.a)))
    return NONE


@meth("list", "insert")
def _insert(I, st, base, args, kwargs, node):
    h = st.heap[base]
    items = I.concrete(h.data)
    i = I.deref(st, args[0])
    I.event(st, "listop", "insert", recv=base, args={"index": i, "value": args[1]}, node=node)
    if items is not None and is_num(i):
        items.insert(int(i.a[1]), args[1])
        st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items]))
    elif is_num(i) and i.a[1] == 0:
        st.heap[base] = HObj_("list", mk("seq", mk("lit", args[1]), *h.data.a))
    else:
        st.heap[base] = HObj_("list", mk("seq", mk("star", mk("listins", I.snap_seq(st, h.data), i, I.snap(st, args[1])))))
    return NONE


@meth("list", "pop")
def _pop(I, st, base, args, kwargs, node):
    h = st.heap[base]
    items = I.concrete(h.data)
    i = I.deref(st, args[0]) if args else const(-1)
    I.event(st, "listop", "pop", recv=base, args={"index": i}, node=node)
    if items is not None and is_num(i):
        n = int(i.a[1])
        if not -len(items) <= n < len(items):
            return [(I.raise_(st, "IndexError", (), node), NONE)]
        v = items.pop(n)
        st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items]))
        return v
    v = mk("at", I.snap_seq(st, h.data), i)
    st.heap[base] = HObj_("list", mk("seq", mk("star", mk("listpop", I.snap_seq(st, h.data), i))))
    return v


@meth("list", "sort")
def _sort(I, st, base, args, kwargs, node):
    h = st.heap[base]
    r = sort_seq(I, st, h.data, kwargs.get("key"), kwargs.get("reverse"), node)
    st.heap[base] = HObj_("list", r)
    return NONE


@meth("list", "reverse")
def _reverse(I, st, base, args, kwargs, node):
    h = st.heap[base]
    items = I.concrete(h.data)
    if items is not None:
        st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items[::-1]]))
    else:
        segs = backward_segs(h.data.a)
        st.heap[base] = HObj_("list", segs if segs is not None else mk("seq", mk("star", mk("reversed", I.snap_seq(st, h.data)))))
    return NONE


def backward_segs(segs):
    """the segments in reverse order of their elements, or None"""
    out = []
    for x in segs[::-1]:
        if x.op == "lit":
            out.append(x)
        elif x.op == "for" and x.a[2].op == "seq" and all(y.op == "lit" for y in x.a[2].a):
            lvl, n, body = x.a
            b = mk("b", lvl)
            out.append(mk("for", lvl, n, subst(mk("seq", *body.a[::-1]), {b: sub(sub(n, ONE), b)})))
        else:
            return None
    return mk("seq", *out)


@meth("list", "clear")
def _clear(I, st, base, args, kwargs, node):
    st.heap[base] = HObj_(st.heap[base].kind, mk("seq"))
    return NONE


@meth("list", "copy")
def _copy(I, st, base, args, kwargs, node):
    return I.alloc(st, st.heap[base].kind, st.heap[base].data)


@meth("list", "remove")
def _remove(I, st, base, args, kwargs, node):
    h = st.heap[base]
    items = I.concrete(h.data)
    if items is not None and args[0] in items:
        items.remove(args[0])
        st.heap[base] = HObj_("list", mk("seq", *[mk("lit", x) for x in items]))
    else:
        st.heap[base] = HObj_("list", mk("seq", mk("star", mk("listrem", I.snap_seq(st, h.data), I.snap(st, args[0])))))
    I.event(st, "listop", "remove", recv=base, args={"value": args[0]}, node=node)
    return NONE


@meth("list", "index")
def _index(I, st, base, args, kwargs, node):
    items = I.concrete(st.heap[base].data)
    if items is not None and args[0] in items and all(is_const(x) or x is args[0] for x in items[:items.index(args[0]) + 1]):
        return const(items.index(args[0]))
    return mk("index", I.snap(st, base), I.snap(st, args[0]))


@meth("list", "count")
def _count(I, st, base, args, kwargs, node):
    items = I.concrete(st.heap[base].data)
    if items is not None and all(is_const(x) for x in items + list(args)):
        return const(items.count(args[0]))
    return mk("count", I.snap(st, base), I.snap(st, args[0]))


@meth("dict", "get")
def _dget(I, st, base, args, kwargs, node):
    dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
    return dict_get(I, st, base, st.heap[base], I.snap(st, args[0]), node, default=dflt)


@meth("dict", "pop")
def _dpop(I, st, base, args, kwargs, node):
    k = I.snap(st, args[0])
    dflt = args[1] if len(args) > 1 else None
    out = []
    for s, v in dict_get(I, st, base, st.heap[base], k, node, default=dflt):
        if s.ctrl is None:
            h = s.heap[base]
            s.heap[base] = HObj_("dict", tuple((kk, vv, g) for kk, vv, g in h.data if kk is not k),
                                 h.rest if h.rest is None else mk("dropkey", h.rest, k))
        out.append((s, v))
    return out


@meth("dict", "update")
def _dupd(I, st, base, args, kwargs, node):
    for a in args:
        h = st.heap.get(a)
        if h is not None and h.kind == "dict" and h.rest is None:
            for k, v, g in h.data:
                I.dict_set(st, base, k, v, g)
            continue
        items = I.concrete(I.seq_of(st, a)) if h is not None else None
        if items is None:
            raise I.err("dict.update with an unknown mapping", node)
        for it in items:
            I.dict_set(st, base, it.a[0], it.a[1])
    for k, v in kwargs.items():
        I.dict_set(st, base, const(k), v)
    return NONE


@meth("dict", "setdefault")
def _dsd(I, st, base, args, kwargs, node):
    k = I.snap(st, args[0])
    d = args[1] if len(args) > 1 else NONE
    h = st.heap[base]
    if h.rest is None and all(eq(kk, k) in (TRUE, FALSE) for kk, _, _ in h.data):
        for kk, v, g in h.data:
            if kk is k and g is TRUE:
                return v
        I.dict_set(st, base, k, d)
        return d
    # group-by: the list of this key
    I.event(st, "group", "setdefault", recv=base, args={"key": k, "default": d}, node=node)
    c = contains_rest(I, st, h, k) if h.rest is not None else or_(*[and_(eq(kk, k), g) for kk, _, g in h.data])
    out = []
    for s, b in I.split(st, c):
        if b:
            out += dict_get(I, s, base, s.heap[base], k, node)
        else:
            I.dict_set(s, base, k, d)
            out.append((s, d))
    return out


def settle(I, st, base):
    """states in which it is known which keys of a dict are the same key (entries stored under keys which may be equal overwrite each other)"""
    h = st.heap.get(base)
    if h is None or h.kind != "dict" or h.rest is not None or len(h.data) > 6:
        return [st]
    ks = [k for k, _, g in h.data if g is TRUE and k.op in ("attr", "at", "sym")]
    if len(ks) != len(h.data):
        return [st]
    for j, k in enumerate(ks):
        for i in range(j):
            e = eq(ks[i], k)
            d = I.decide(st, e)
            if d is False:
                continue
            out = []
            if d is not True:
                s = st.copy()
                s.assume(not_(e))
                out += settle(I, s, base)
                st.assume(e)
            data = list(h.data)
            data[i] = (ks[i], data[j][1], TRUE)
            del data[j]
            st.heap[base] = HObj_("dict", tuple(data), None)
            return out + settle(I, st, base)
    return [st]


def settled(f):
    def g(I, st, base, args, kwargs, node):
        out = []
        for s in settle(I, st, base):
            r = f(I, s, base, args, kwargs, node)
            out += r if isinstance(r, list) else [(s, r)]
        return out
    return g


@meth("dict", "items")
@settled
def _ditems(I, st, base, args, kwargs, node):
    h = st.heap[base]
    if h.rest is None:
        if all(g is TRUE for _, _, g in h.data) and not any(k.op == "fordict" for k, _, _ in h.data):
            return I.new_list(st, [mk("tuple", k, v) for k, v, g in h.data])
        return mk("dictitems", base)
    return mk("dictitems", h.rest)


@meth("dict", "keys")
@settled
def _dkeys(I, st, base, args, kwargs, node):
    q = I.seq_of(st, base)
    return I.alloc(st, "list", q)


@meth("dict", "values")
@settled
def _dvalues(I, st, base, args, kwargs, node):
    h = st.heap[base]
    if h.rest is None and all(g is TRUE for _, _, g in h.data) and not any(k.op == "fordict" for k, _, _ in h.data):
        return I.new_list(st, [v for k, v, g in h.data])
    return mk("values", I.snap(st, base))


@meth("dict", "copy")
def _dcopy(I, st, base, args, kwargs, node):
    h = st.heap[base]
    return I.alloc(st, "dict", h.data, h.rest)


@meth("dict", "clear")
def _dclear(I, st, base, args, kwargs, node):
    st.heap[base] = HObj_("dict", ())
    return NONE


def sort_seq(I, st, seq, key, rev, node):
    items = I.concrete(seq)
    if items is not None and key is None and rev in (None, FALSE):
        if all(is_num(x) for x in items) or all(is_str(x) for x in items):
            return mk("seq", *[mk("lit", x) for x in sorted(items, key=lambda t: t.a[1])])
        if len(items) == 2:
            return mk("seq", mk("lit", mn(*items)), mk("lit", mx(*items)))
        if len(items) < 2:
            return seq
    kt = NONE
    if key is not None and key is not NONE:
        r = I.call(st.copy(), key, [sym("%k", "str")], {}, node)
        live = [v for s, v in r if s.ctrl is None]
        kt = I.snap(r[0][0], live[0]) if len(live) == 1 else mk("key?", I.fresh_t())
    rv = ONE if rev is TRUE else ZERO
    return mk("seq", mk("star", mk("sorted", I.snap_seq(st, seq), kt, rv)))


# ------------------------------------------------------------------ builtins
@ext("builtins.len", "obj")
def _len(I, st, d, node):
    v = I.deref(st, d["obj"])
    if v.op == "rowdict" and ROW is not None:
        return const(len(ROW["present"]) + len(ROW["empty"]))
    return I.len_of(st, d["obj"])


@ext("builtins.range")
def _range(I, st, d, node):
    a = [I.deref(st, d[str(i)]) for i in range(len(d))]
    a = [rounder("int", x) if is_num(x) else x for x in a]
    if len(a) == 1:
        return mk("range", ZERO, a[0], ONE)
    if len(a) == 2:
        return mk("range", a[0], a[1], ONE)
    return mk("range", *a)


@ext("numpy.arange")
def _arange(I, st, d, node):
    if "start" in d or "stop" in d or "step" in d:
        pos = [I.deref(st, d[k]) for k in sorted(k for k in d if k.isdigit())]
        a = [ZERO, NONE, ONE]
        if len(pos) == 1 and "stop" not in d:
            a[1] = pos[0]
        else:
            for i, x in enumerate(pos):
                a[i] = x
        for i, k in enumerate(("start", "stop", "step")):
            if k in d:
                a[i] = I.deref(st, d[k])
        return new_nd(I, st, mk("range", *a))
    r = _range(I, st, d, node)
    return r


@ext("builtins.enumerate", "iterable start")
def _enum(I, st, d, node):
    return mk("enumerate", d["iterable"], I.deref(st, d.get("start", ZERO)))


@ext("builtins.zip")
def _zip(I, st, d, node):
    d.pop("strict", None)
    return mk("zip", *[d[str(i)] for i in range(len(d))])


@ext("builtins.reversed", "x")
def _rev(I, st, d, node):
    items = as_vec(I, st, d["x"])
    if items is not None:
        return I.new_list(st, items[::-1])
    return mk("reversed", d["x"])


PYT = {"str": "str", "int": "int", "float": "float", "bool": "bool", "list": "list", "tuple": "tuple", "dict": "dict", "set": "set"}


def isinst1(I, st, v, c):
    """boolean term: v is an instance of class c"""
    cn = c.a[0] if c.op in ("cls", "ext") else None
    if cn is None:
        return mk("isinst", I.snap(st, v), I.snap(st, c))
    cn = cn.replace("builtins.", "")
    cn = {"datetime.date": "datetime.date", "typing.List": "list", "numbers.Number": "number"}.get(cn, cn)
    d = I.deref(st, v)
    t = ty(d)
    if v.op == "ref" and v in st.heap:
        k = st.heap[v].kind
        t = {"list": "list", "dict": "dict", "set": "set", "nd": "nd"}.get(k, t)
    if t.startswith("obj:"):
        return const(cn in I.exc_mro(t[4:]) or cn == "object")
    if t.startswith("list:"):
        t = "list"
    if t.startswith("ext:"):
        if t[4:] == cn or t[4:].split(".")[-1] == cn.split(".")[-1]:
            return TRUE
        return FALSE
    if d.op == "ite":
        return ite(d.a[0], isinst1(I, st, d.a[1], c), isinst1(I, st, d.a[2], c))
    if d.op in ("func", "bound"):
        return FALSE
    if cn == "float" and t == "num":
        return mk("isinst", d, mk("ext", "float"))
    if cn == "int" and t == "num":
        return mk("isinst", d, mk("ext", "int"))
    if cn in ("number", "numbers.Number", "numbers.Real") and t in ("num", "int", "float", "bool"):
        return TRUE
    if cn == "int" and t == "bool":
        return TRUE
    if cn in ("object",):
        return TRUE
    if t in ("int", "num", "float", "str", "bool", "none", "tuple", "list", "dict", "set", "nd", "slice", "pair"):
        if t == cn:
            return TRUE
        if cn in ("numpy.ndarray",):
            return const(t == "nd")
        return FALSE
    if t == "seq":
        return const(cn in ("list", "typing.Iterable", "collections.abc.Iterable", "collections.abc.Sequence")) if v.op == "ref" else mk("isinst", d, mk("ext", cn))
    return mk("isinst", I.snap(st, d), mk("ext", cn))


@ext("builtins.isinstance", "x cls")
def _isinstance(I, st, d, node):
    c = I.deref(st, d["cls"])
    items = as_vec(I, st, c) if c.op in ("tuple", "ref") else None
    if c.op == "bitor":
        items = list(c.a)
    if items is not None:
        r = []
        for x in items:
            r.append(isinst1(I, st, d["x"], x))
        return or_(*r)
    return isinst1(I, st, d["x"], c)


def has_attr(I, st, base, name):
    c = I.cls_of(st, base)
    if c:
        name = I.mangle(name) if False else name
        if I.read_field(st, base, name) is not None:
            return TRUE
        if (base, name) in st.absent:
            return FALSE
        k, f = I.lookup_method(c, name)
        if k:
            return TRUE
        if base.op == "ref":
            return FALSE
        if (base, name) in I.present:
            return TRUE
        if I.open_attrs:
            return mk("has", base, const(name))
        if name in I.instance_fields(c):
            return TRUE
        return mk("has", base, const(name))
    return mk("has", I.snap(st, base), const(name))


@ext("builtins.hasattr", "obj name")
def _hasattr(I, st, d, node):
    n = I.deref(st, d["name"])
    if is_str(n):
        return has_attr(I, st, d["obj"], n.a[1])
    return mk("has", I.snap(st, d["obj"]), n)


@ext("builtins.getattr", "obj name default")
def _getattr(I, st, d, node):
    n = I.deref(st, d["name"])
    b = d["obj"]
    if is_str(n):
        if "default" in d:
            c = has_attr(I, st, b, n.a[1])
            out = []
            for s, t in I.split(st, c):
                out += I.get_attr(s, b, n.a[1], node) if t else [(s, d["default"])]
            return out
        if not I.cls_of(st, b) and b.op not in ("module", "ext", "cls"):
            r = value_attr(I, st, b, I.deref(st, b), n.a[1], node)
            return r if r is not None else mk("boundm", b, n.a[1])
        return I.get_attr(st, b, n.a[1], node)
    if n.op == "ite":
        out = []
        for s, t in I.split(st, n.a[0]):
            out += _getattr(I, s, dict(d, name=n.a[1] if t else n.a[2]), node)
        return out
    r = numbered_attr(I, st, d, b, n, node)
    if r is not None:
        return r
    return mk("dynattr", I.snap(st, b), I.snap(st, n))


def numbered_attr(I, st, d, b, n, node):
    """getattr(x, f"name{k}") of a number k: one case for each attribute with such a name"""
    c = I.cls_of(st, b)
    if not c or n.op != "strcat" or len(n.a) != 2 or not is_str(n.a[0]) or n.a[1].op != "fmt" or len(n.a[1].a) != 1:
        return None
    k = n.a[1].a[0]
    if ty(k) not in ("int", "num", "unk"):
        return None
    pre = n.a[0].a[1]
    ks = sorted({int(x[len(pre):]) for x in I.instance_fields(c) if x.startswith(pre) and x[len(pre):].isdigit() and str(int(x[len(pre):])) == x[len(pre):]})
    if not ks:
        return None
    out = []
    s = st
    for j in ks:
        e = eq(k, const(j))
        r = I.decide(s, e)
        if r is False:
            continue
        s1 = s.copy()
        if r is None:
            s1.assume(e)
        out += I.get_attr(s1, b, pre + str(j), node)
        if r is True:
            return out
        s.assume(not_(e))
    if not I.consistent(s):
        return out
    out.append((s, mk("dynattr", I.snap(s, b), I.snap(s, n))))
    return out


@ext("builtins.setattr", "obj name value")
def _setattr(I, st, d, node):
    n = I.deref(st, d["name"])
    if is_str(n):
        return [(s, NONE) for s in I.set_attr(st, d["obj"], n.a[1], d["value"], node)]
    raise I.err("setattr with an unknown name", node)


@ext("builtins.delattr", "obj name")
def _delattr(I, st, d, node):
    raise I.err("delattr", node)


@ext("builtins.int", "x base")
def _int(I, st, d, node):
    if not d:
        return ZERO
    v = I.deref(st, d["x"])
    if is_str(v):
        try:
            return const(int(v.a[1]))
        except ValueError:
            return [(I.raise_(st, "ValueError", (), node), NONE)]
    if v.op == "truth" or ty(v) == "bool":
        return ind(I.truth(st, v))
    return rounder("int", v)


@ext("builtins.float", "x")
def _float(I, st, d, node):
    if not d:
        return ZERO
    v = I.deref(st, d["x"])
    if ty(v) in ("int", "num", "float") or v.op == "poly":
        return v
    if is_str(v):
        try:
            return const(float(v.a[1]))
        except ValueError:
            return [(I.raise_(st, "ValueError", (), node), NONE)]
    return mk("call", "builtins.float", NONE, (("x", I.snap(st, v)),))


@ext("builtins.bool", "x")
def _bool(I, st, d, node):
    return I.truth(st, d["x"]) if d else FALSE


@ext("builtins.str", "x")
def _str(I, st, d, node):
    if not d:
        return const("")
    v = d["x"]
    c = I.cls_of(st, v)
    return I.fmt(st, v)


@ext("builtins.repr", "x")
def _repr(I, st, d, node):
    return mk("call", "builtins.repr", NONE, (("x", I.snap(st, d["x"])),))


@ext("builtins.round numpy.round math.round numpy.rint", "x n")
def _round(I, st, d, node):
    v = I.deref(st, d["x"])
    n = d.get("n", d.get("decimals", d.get("ndigits")))
    if n is None or n is NONE or n is ZERO:
        return rounder("round", v)
    return mk("roundn", v, I.snap(st, n))


@ext("math.ceil numpy.ceil", "x")
def _ceil(I, st, d, node):
    return rounder("ceil", I.deref(st, d["x"]))


@ext("math.floor numpy.floor", "x")
def _floor(I, st, d, node):
    return rounder("floor", I.deref(st, d["x"]))


@ext("math.trunc numpy.trunc numpy.fix", "x")
def _trunc(I, st, d, node):
    return rounder("int", I.deref(st, d["x"]))


@ext("math.fabs builtins.abs numpy.abs numpy.fabs", "x")
def _abs(I, st, d, node):
    return absv(I.deref(st, d["x"]))


@ext("math.sqrt numpy.sqrt", "x")
def _sqrt(I, st, d, node):
    return mk("pow", I.deref(st, d["x"]), const(F(1, 2)))


def _minmax(name):
    def f(I, st, d, node):
        key = d.pop("key", None)
        dflt = d.pop("default", None)
        a = [d[str(i)] for i in range(len(d))]
        if key is not None and key is not NONE:
            return mk("call", "builtins." + name, NONE, tuple([("key", NONE)] + [(str(i), I.snap(st, x)) for i, x in enumerate(a)]))
        if len(a) == 1:
            items = as_vec(I, st, a[0])
            if items is None:
                v = I.snap(st, a[0])
                if dflt is not None:
                    return mk("call", "builtins." + name, NONE, (("default", I.snap(st, dflt)), ("x", v)))
                return amaxmin(I, st, v, name)
            if not items:
                return dflt if dflt is not None else [(I.raise_(st, "ValueError", (), node), NONE)]
            a = items
        a = [I.deref(st, x) for x in a]
        if all(is_num(x) for x in a):
            clipped(I, min(x.a[1] for x in a), max(x.a[1] for x in a))
        return mx(*a) if name == "max" else mn(*a)
    return f


EXT["builtins.max"] = _minmax("max")
EXT["builtins.min"] = _minmax("min")


@ext("numpy.maximum numpy.fmax", "a b")
def _npmaximum(I, st, d, node):
    a, b = I.deref(st, d["a"]), I.deref(st, d["b"])
    return mx(a, b) if not (arrayish(a) or arrayish(b)) else mk("emax", *sorted((a, b), key=lambda t: t.k))


@ext("numpy.minimum numpy.fmin", "a b")
def _npminimum(I, st, d, node):
    a, b = I.deref(st, d["a"]), I.deref(st, d["b"])
    return mn(a, b) if not (arrayish(a) or arrayish(b)) else mk("emin", *sorted((a, b), key=lambda t: t.k))


@ext("numpy.clip", "a a_min a_max")
def _clip(I, st, d, node):
    a, lo, hi = I.deref(st, d["a"]), I.deref(st, d.get("a_min", NONE)), I.deref(st, d.get("a_max", NONE))
    f = lambda x: (lambda y: y if hi is NONE else mn(hi, y))(x if lo is NONE else mx(lo, x))
    items = as_vec(I, st, d["a"])
    if items is not None:
        return new_nd(I, st, mk("vec", *[f(x) for x in items]))
    if arrayish(a):
        return mk("clip", a, lo, hi)
    return f(a)


@ext("numpy.max numpy.min", "a axis")
def _npmax(I, st, d, node):
    return None


def _npmm(name):
    def f(I, st, d, node):
        v = I.snap(st, d["a"])
        r = amaxmin(I, st, v, name)
        if I.try_depth and r.op in ("amax", "amin") and any("ValueError" == x or x in ("Exception", "BaseException") for x in I.try_handlers[-1]):
            arr = r.a[0]
            empty = eq(I.len_of(st, arr), ZERO)
            out = []
            dec = I.decide(st, empty)
            if dec is not False:
                s2 = st.copy()
                s2.assume(empty)
                s2.ctrl = ("raise", "ValueError", (), node, I.stack[-1].qual if I.stack else "")
                out.append((s2, NONE))
            if dec is not True:
                st.assume(not_(empty))
                out.append((st, r))
            return out
        return r
    return f


EXT["numpy.max"] = _npmm("max")
EXT["numpy.min"] = _npmm("min")
SIG["numpy.max"] = SIG["numpy.min"] = ["a", "axis"]


@ext("builtins.sum", "iterable start")
def _sum(I, st, d, node):
    r = I.deref(st, d.get("start", ZERO))
    if r.op == "ref" and st.heap[r].kind == "list":
        outer = dict(st.env)
        st.env["%seq"], st.env["%start"] = d["iterable"], r
        comp = ast.parse("[y for y in START] + [y for x in SEQ for y in x]", mode="eval").body
        for x in ast.walk(comp):
            if isinstance(x, ast.Name):
                x.id = {"SEQ": "%seq", "START": "%start", "x": "%x", "y": "%y"}[x.id]
        return run_synth(I, st, comp, outer, node)
    q = I.seq_of(st, d["iterable"])
    if q is None:
        return mk("asum", I.snap(st, d["iterable"]), ZERO)
    for x in q.a:
        if x.op == "star" and ty(x.a[0]) not in ("nd",):
            # the elements, whatever they are
            bvt = mk("bv", I.fresh())
            r = add(r, I.close_sum(I.len_of(st, x.a[0]), bvt, item(I, st, x.a[0], bvt)))
            continue
        r = add(r, seg_sum(I, st, I._snap_seg(st, x)))
    return r


@ext("builtins.any", "iterable")
def _any(I, st, d, node):
    q = I.seq_of(st, d["iterable"])
    return quant(I, st, q, "any")


@ext("builtins.all", "iterable")
def _all(I, st, d, node):
    q = I.seq_of(st, d["iterable"])
    return quant(I, st, q, "all")


@ext("builtins.sorted", "iterable key reverse")
def _sorted(I, st, d, node):
    q = I.seq_of(st, d["iterable"])
    return I.alloc(st, "list", sort_seq(I, st, q, d.get("key"), d.get("reverse"), node))


@ext("builtins.list", "x")
def _list(I, st, d, node):
    if not d:
        return I.new_list(st, [])
    v = I.deref(st, d["x"])
    if v.op in ("enumerate", "zip", "reversed", "dictitems"):
        return map_seq(I, st, IDENT(I), d["x"], node)
    q = I.seq_of(st, d["x"])
    return I.alloc(st, "list", q)


def IDENT(I):
    if getattr(I, "_ident", None) is None:
        from .interp import FuncInfo
        e = ast.parse("lambda x: x", mode="eval").body
        m = next(iter(I.repo.modules.values()))
        I._ident = I.func_value(FuncInfo(e, m, None, "<identity>", env={}))
    return I._ident


@ext("builtins.tuple", "x")
def _tuple(I, st, d, node):
    if not d:
        return mk("tuple")
    items = as_vec(I, st, d["x"])
    if items is not None:
        return mk("tuple", *items)
    v = I.deref(st, d["x"])
    if v.op in ("enumerate", "zip", "reversed", "dictitems"):
        r = map_seq(I, st, IDENT(I), d["x"], node)
        out = []
        for s, x in r:
            its = as_vec(I, s, x)
            out.append((s, mk("tuple", *its) if its is not None else I.snap(s, x)))
        return out
    return I.snap(st, d["x"])


@ext("builtins.set builtins.frozenset", "x")
def _set(I, st, d, node):
    if not d:
        return I.alloc(st, "set", mk("seq"))
    items = as_vec(I, st, d["x"])
    if items is not None and all(is_const(x) for x in items):
        u = []
        for x in items:
            if x not in u:
                u.append(x)
        return I.alloc(st, "set", mk("seq", *[mk("lit", x) for x in u]))
    return mk("set", I.snap(st, d["x"]))


@ext("builtins.dict")
def _dict(I, st, d, node):
    r = I.alloc(st, "dict", ())
    if "0" in d:
        a = d.pop("0")
        h = st.heap.get(a)
        if h is not None and h.kind == "dict":
            st.heap[r] = HObj_("dict", h.data, h.rest)
        else:
            va = I.deref(st, a)
            if va.op == "rowdict" and ROW is not None:
                return va
            if va.op in ("zip", "enumerate", "dictitems"):
                outs = map_seq(I, st, IDENT(I), a, node)
                if len(outs) == 1:
                    st, a = outs[0]
                    r = I.alloc(st, "dict", ())
            items = as_vec(I, st, a)
            if items is None:
                return mk("call", "builtins.dict", NONE, (("0", I.snap(st, a)),))
            for it in items:
                p = as_vec(I, st, it)
                I.dict_set(st, r, p[0], p[1])
    for k, v in d.items():
        I.dict_set(st, r, const(k), v)
    return [(st, r)]


@ext("builtins.slice")
def _slice(I, st, d, node):
    a = [I.deref(st, d[str(i)]) for i in range(len(d))]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a.append(NONE)
    return mk("slice", *a)


@ext("builtins.map", "f seq")
def _map(I, st, d, node):
    return map_seq(I, st, d["f"], d["seq"], node)


@ext("builtins.filter", "f seq")
def _filter(I, st, d, node):
    if d["f"] is NONE:
        return None
    items = as_vec(I, st, d["seq"])
    if items is None and d["f"].op == "ext":
        return mk("call", "builtins.filter", NONE, (("f", d["f"]), ("seq", I.snap(st, d["seq"]))))
    return filter_seq(I, st, d["f"], d["seq"], node)


@ext("builtins.print")
def _print(I, st, d, node):
    I.event(st, "print", "print", args=d, node=node)
    return NONE


@ext("warnings.warn", "message category stacklevel")
def _warn(I, st, d, node):
    I.event(st, "warn", "warn", args=d, node=node)
    return NONE


@ext("warnings.simplefilter warnings.filterwarnings")
def _wf(I, st, d, node):
    return NONE


@ext("builtins.input", "prompt")
def _input(I, st, d, node):
    r = mk("sym", f"input#{I.fresh()}", "str")
    I.event(st, "input", "input", args=d, res=r, node=node)
    return r


@ext("builtins.type", "x")
def _type(I, st, d, node):
    c = I.cls_of(st, d["x"])
    if c:
        return mk("cls", c)
    return mk("typeof", I.snap(st, d["x"]))


@ext("builtins.vars", "x")
def _vars(I, st, d, node):
    if I.cls_of(st, d["x"]):
        return mk("objdict", d["x"])
    return mk("call", "builtins.vars", NONE, (("x", I.snap(st, d["x"])),))


@ext("builtins.iter", "x")
def _iter(I, st, d, node):
    return d["x"]


@ext("builtins.next", "it default")
def _next(I, st, d, node):
    q = I.seq_of(st, d["it"])
    h = st.heap.get(d["it"])
    if q is not None and h is not None and h.kind == "list":
        # first element of a generator
        return first_of(I, st, q, d.get("default"), node)
    return None


def first_of(I, st, q, dflt, node):
    out = []
    s = st
    for k, seg in enumerate(q.a):
        if seg.op == "lit":
            out.append((s, seg.a[0]))
            return out
        if seg.op == "when" and len(seg.a[1].a) == 1 and seg.a[1].a[0].op == "lit":
            rs = I.split(s, seg.a[0])
            nxt = None
            for s2, b in rs:
                if b:
                    out.append((s2, seg.a[1].a[0].a[0]))
                else:
                    nxt = s2
            if nxt is None:
                return out
            s = nxt
            continue
        if seg.op == "for":
            # first index which satisfies the condition of the body
            lvl, n, body = seg.a
            if len(body.a) == 1:
                b0 = body.a[0]
                i = mk("bv", I.fresh())
                cond, val = TRUE, None
                if b0.op == "when" and len(b0.a[1].a) == 1 and b0.a[1].a[0].op == "lit":
                    cond, val = subst(b0.a[0], {mk("b", lvl): i}), subst(b0.a[1].a[0].a[0], {mk("b", lvl): i})
                elif b0.op == "lit":
                    val = subst(b0.a[0], {mk("b", lvl): i})
                    i2 = ZERO
                    val = subst(val, {i: ZERO})
                    s1, s2 = s.copy(), s
                    s1.assume(lt(ZERO, n))
                    s2.assume(le(n, ZERO))
                    out.append((s1, val))
                    s = s2
                    continue
                if val is not None:
                    s1, s2 = s.copy(), s
                    s1.assume(le(ZERO, i))
                    s1.assume(lt(i, n))
                    s1.assume(cond)
                    out.append((s1, val))
                    s2.assume(I.close("forall", n, i, not_(cond)))
                    s = s2
                    continue
        out.append((s, mk("next", I.snap_seq(s, q))))
        return out
    if dflt is not None:
        out.append((s, dflt))
    else:
        out.append((I.raise_(s, "StopIteration", (), node), NONE))
    return out


@ext("functools.partial")
def _partial(I, st, d, node):
    n = sum(1 for k in d if k.isdigit())
    return mk("partial", d["0"], tuple(d[str(i)] for i in range(1, n)), tuple((k, v) for k, v in d.items() if not k.isdigit()))


@ext("itertools.chain")
def _chain(I, st, d, node):
    segs = []
    for i in range(len(d)):
        q = I.seq_of(st, d[str(i)])
        segs += list(q.a)
    return I.alloc(st, "list", mk("seq", *segs))


@ext("itertools.chain.from_iterable", "x")
def _chainf(I, st, d, node):
    outer = dict(st.env)
    st.env["%seq"] = d["x"]
    comp = ast.parse("[y for x in SEQ for y in x]", mode="eval").body
    for x in ast.walk(comp):
        if isinstance(x, ast.Name):
            x.id = {"SEQ": "%seq", "x": "%x", "y": "%y"}[x.id]
    return run_synth(I, st, comp, outer, node)


@ext("itertools.islice")
def _islice(I, st, d, node):
    a = [I.deref(st, d[str(i)]) for i in range(len(d))]
    items = as_vec(I, st, a[0]) if a else None
    if items is None or len(a) < 2 or not all(x is NONE or is_num(x) for x in a[1:]):
        return mk("call", "itertools.islice", NONE, tuple((str(i), I.snap(st, x)) for i, x in enumerate(a)))
    b = [None if x is NONE else int(x.a[1]) for x in a[1:]]
    b = [None, b[0], None] if len(b) == 1 else (b + [None])[:3]
    for k in b[:2]:
        if k is not None:
            clipped(I, len(items), k)
    return I.new_list(st, list(items)[slice(*b)])


@ext("itertools.product")
def _product(I, st, d, node):
    outer = dict(st.env)
    n = len([k for k in d if k.isdigit()])
    if "repeat" in d:
        return None
    gens = []
    for i in range(n):
        st.env[f"%s{i}"] = d[str(i)]
    src = "[(" + ",".join(f"x{i}" for i in range(n)) + ",) " + " ".join(f"for x{i} in s{i}" for i in range(n)) + "]"
    comp = ast.parse(src, mode="eval").body
    for x in ast.walk(comp):
        if isinstance(x, ast.Name):
            x.id = "%" + x.id
    return run_synth(I, st, comp, outer, node)


@ext("collections.defaultdict", "factory")
def _ddict(I, st, d, node):
    if [k for k in d if k != "factory"]:
        return None
    r = I.new_dict(st, [])
    if d.get("factory", NONE) is not NONE:
        I.dd[r] = d["factory"]
    return r


@ext("copy.copy copy.deepcopy", "x")
def _copycopy(I, st, d, node):
    v = d["x"]
    h = st.heap.get(v)
    if h is not None and h.kind in ("list", "dict", "nd", "set"):
        return I.alloc(st, h.kind, h.data, h.rest)
    return mk("call", ".copy", I.snap(st, v), ())


# ------------------------------------------------------------------ random
def _rnd(kind, names):
    def f(I, st, d, node):
        args = tuple(I.snap(st, d[n]) for n in names if n in d)
        r = mk("rnd", kind, I.fresh(), args, tuple(st.loops))
        I.event(st, "rnd", kind, args=d, res=r, node=node)
        return r
    return f


EXT["random.uniform"] = _rnd("uniform", ("a", "b"))
SIG["random.uniform"] = ["a", "b"]
EXT["random.randint"] = _rnd("randint", ("a", "b"))
SIG["random.randint"] = ["a", "b"]
EXT["random.gauss"] = _rnd("gauss", ("mu", "sigma"))
SIG["random.gauss"] = ["mu", "sigma"]
EXT["random.getrandbits"] = _rnd("getrandbits", ("k",))
SIG["random.getrandbits"] = ["k"]
EXT["random.sample"] = _rnd("sample", ("population", "k"))
SIG["random.sample"] = ["population", "k"]


@ext("random.random")
def _rrandom(I, st, d, node):
    r = mk("rnd", "uniform", I.fresh(), (ZERO, ONE), tuple(st.loops))
    I.event(st, "rnd", "uniform", args={"a": ZERO, "b": ONE}, res=r, node=node)
    return r


@ext("random.randrange")
def _randrange(I, st, d, node):
    a = [I.snap(st, d[str(i)]) for i in range(len(d))] if all(k.isdigit() for k in d) else None
    if a is None or len(a) == 3:
        return None
    lo, hi = (ZERO, a[0]) if len(a) == 1 else a
    r = mk("rnd", "randint", I.fresh(), (lo, sub(hi, ONE)), tuple(st.loops))
    I.event(st, "rnd", "randint", args={"a": lo, "b": sub(hi, ONE)}, res=r, node=node)
    return r


@ext("random.choice", "seq")
def _choice(I, st, d, node):
    items = as_vec(I, st, d["seq"])
    v = mk("vec", *[I.snap(st, x) for x in items]) if items is not None else I.snap(st, d["seq"])
    n = I.len_of(st, d["seq"])
    r = mk("rnd", "choice", I.fresh(), (v,), tuple(st.loops))
    I.event(st, "rnd", "choice", args={"seq": d["seq"], "n": n}, res=r, node=node)
    if items is None:
        j = mk("rnd", "randint", r.a[1], (ZERO, sub(n, ONE)), tuple(st.loops))
        return item(I, st, v, j) if v.op != "seq" else mk("at", v, j)
    return r


@ext("random.seed", "a")
def _seed(I, st, d, node):
    I.event(st, "seed", "seed", args=d, node=node)
    return NONE


# ------------------------------------------------------------------ numpy
@ext("numpy.zeros", "shape dtype")
def _zeros(I, st, d, node):
    r = zeros(I, st, d)
    return narrow(I, r, dtype_kind(I, st, d))


def zeros(I, st, d):
    s = I.deref(st, d["shape"])
    if s.op == "ref" or s.op in ("tuple", "vec"):
        it = as_vec(I, st, s)
        if len(it) == 1:
            return new_nd(I, st, mk("zeros", it[0]))
        return new_nd(I, st, mk("zeros2", *it))
    return new_nd(I, st, mk("zeros", s))


@ext("numpy.zeros_like", "a dtype")
def _zl(I, st, d, node):
    v = I.snap(st, d["a"])
    k = dtype_kind(I, st, d) if "dtype" in d else I.narrow.get(d["a"])
    return narrow(I, new_nd(I, st, mk("zeros", I.len_of(st, v))), k)


@ext("numpy.ones", "shape dtype")
def _ones(I, st, d, node):
    s = I.deref(st, d["shape"])
    return narrow(I, new_nd(I, st, mk("full", scalar_len(I, st, s), ONE)), dtype_kind(I, st, d))


@ext("numpy.full", "shape fill_value dtype")
def _full(I, st, d, node):
    s = I.snap(st, d["shape"])
    v = I.snap(st, d["fill_value"])
    k = dtype_kind(I, st, d)
    if "dtype" not in d and isinstance(node, ast.Call):
        fv = node.args[1] if len(node.args) > 1 else next((w.value for w in node.keywords if w.arg == "fill_value"), None)
        if isinstance(fv, ast.Constant):               # numpy takes the element type from a constant
            k = {int: "int", bool: "bool"}.get(type(fv.value))
    if v.op == "c" and v.a[0] == "f" and v.a[1] == 0:
        return new_nd(I, st, mk("zeros", scalar_len(I, st, s)))
    return narrow(I, new_nd(I, st, mk("full", scalar_len(I, st, s), narrowed(I, None, v, k))), k)


def scalar_len(I, st, s):
    if s.op == "diff":
        return nd_get(I, st, s, ZERO)
    if s.op in ("tuple", "vec") and len(s.a) == 1:
        return s.a[0]
    if s.op == "ref":
        it = as_vec(I, st, s)
        if it is not None and len(it) == 1:
            return it[0]
    if s.op == "max" and any(x.op == "diff" for x in s.a):
        return mx(*[scalar_len(I, st, x) for x in s.a])
    return s


@ext("numpy.empty", "shape dtype")
def _empty(I, st, d, node):
    return narrow(I, new_nd(I, st, mk("empty", I.fresh_t(), I.snap(st, d["shape"]))), dtype_kind(I, st, d))


@ext("numpy.array", "object dtype")
def _array(I, st, d, node):
    v = d["object"]
    items = as_vec(I, st, v)
    k = dtype_kind(I, st, d)
    if items is not None:
        items = [narrowed(I, None, I.snap(st, x), k) for x in items]
        if items and all(arrayish(x) for x in items):
            return narrow(I, new_nd(I, st, mk("rows", *items)), k)
        return narrow(I, new_nd(I, st, mk("vec", *items)), k)
    s = I.snap(st, v)
    return narrow(I, new_nd(I, st, s), k)


@ext("numpy.diff", "a n")
def _diff(I, st, d, node):
    items = as_vec(I, st, d["a"])
    if items is not None:
        return new_nd(I, st, mk("vec", *[sub(q, p) for p, q in zip(items, items[1:])]))
    v = I.snap(st, d["a"])
    return mk("diff", v)


@ext("numpy.sum", "a axis")
def _npsum(I, st, d, node):
    items = as_vec(I, st, d["a"])
    ax = d.get("axis")
    v = I.snap(st, d["a"])
    if v.op == "seq" or (items is not None and ax is ZERO):
        q = I.seq_of(st, d["a"])
        if ax is not None:
            r = ZERO
            for x in q.a:
                r = add(r, seg_sum(I, st, I._snap_seg(st, x)))
            return r
    return asum(I, st, v, ax)


@ext("numpy.mean", "a axis")
def _npmean(I, st, d, node):
    return amean(I.snap(st, d["a"]), d.get("axis"))


@ext("numpy.transpose", "a")
def _tr(I, st, d, node):
    v = I.deref(st, d["a"])
    w = I.snap(st, v)
    return transposed(w) if two_dim(w) else v


@ext("numpy.argwhere", "a")
def _argwhere(I, st, d, node):
    return mk("argwhere", I.snap(st, d["a"]))


@ext("numpy.where")
def _where(I, st, d, node):
    if len(d) == 1:
        return mk("tuple", mk("nonzero", I.snap(st, list(d.values())[0])))
    a = [I.snap(st, d[str(i)]) for i in range(3)]
    if ty(a[0]) == "bool" and not arrayish(a[0]):
        return ite(a[0], a[1], a[2])
    return mk("ewhere", *a)


@ext("numpy.nonzero", "a")
def _nonzero(I, st, d, node):
    return mk("tuple", mk("nonzero", I.snap(st, d["a"])))


@ext("numpy.flatnonzero", "a")
def _flatnz(I, st, d, node):
    return mk("nonzero", I.snap(st, d["a"]))


@ext("numpy.ravel", "a order")
def _ravel(I, st, d, node):
    if "order" in d and d["order"] is not const("C"):
        return mk("call", "reordered", I.snap(st, d["a"]), I.snap(st, d["order"]))
    return flatten(I.snap(st, d["a"]))


@ext("numpy.squeeze", "a")
def _sq(I, st, d, node):
    return squeeze(I.snap(st, d["a"]))


@ext("numpy.reshape", "a newshape order")
def _reshape(I, st, d, node):
    return nd_method(I, st, d["a"], I.snap(st, d["a"]), "reshape", [d.get("newshape", d.get("shape"))], {"order": d["order"]} if "order" in d else {}, node)


@ext("numpy.put", "a ind v")
def _put(I, st, d, node):
    return nput(I, st, d["a"], d["ind"], d["v"], node)


@ext("numpy.resize", "a new_shape")
def _resize(I, st, d, node):
    n = I.snap(st, d["new_shape"])
    if n.op == "tuple" and len(n.a) == 1:
        n = n.a[0]
    if n.op == "tuple":
        return None
    return mk("resize", I.snap(st, d["a"]), n)


@ext("numpy.concatenate numpy.hstack", "arrays axis")
def _concat(I, st, d, node):
    q = I.seq_of(st, d["arrays"])
    items = I.concrete(q)
    if items is None:
        if len(q.a) == 1 and q.a[0].op == "star":
            return mk("concat", mk("star", q.a[0].a[0]))
        return new_nd(I, st, mk("concat", *[I.snap(st, x.a[0]) if x.op == "lit" else I._snap_seg(st, x) for x in q.a]))
    return new_nd(I, st, concat([I.snap(st, x) for x in items]))


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out += list(p.a)
        elif p.op == "vec" and not p.a:
            continue
        elif out and p.op == "full" and out[-1].op == "full" and p.a[1] is out[-1].a[1]:
            out[-1] = mk("full", add(out[-1].a[0], p.a[0]), p.a[1])
        else:
            out.append(p)
    if out and all(p.op == "vec" for p in out):
        return mk("vec", *[x for p in out for x in p.a])
    if not out:
        return mk("vec")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


@ext("numpy.append", "arr values axis")
def _npappend(I, st, d, node):
    a = I.snap(st, d["arr"])
    v = I.snap(st, d["values"])
    if a.op == "vec":
        if v.op == "vec":
            return new_nd(I, st, mk("vec", *(a.a + v.a)))
        if not arrayish(v) and (ty(v) in ("int", "num", "float", "bool", "str") ):
            return new_nd(I, st, mk("vec", *(a.a + (v,))))
    if a.op == "concat" or a.op == "lv" or a.op == "vec":
        p = [v] if v.op == "vec" or arrayish(v) or ty(v) not in ("int", "num", "float", "bool", "str") else [mk("vec", v)]
        if a.op == "vec" and not a.a:
            return mk("concat", *p) if False else new_nd(I, st, mk("concat", mk("vec"), *p) if False else concat([a] + p))
        return new_nd(I, st, mk("concat", *((a.a if a.op == "concat" else (a,)) + tuple(p))))
    if a.op == "full" and v.op == "full":
        return new_nd(I, st, concat([a, v]))
    return new_nd(I, st, mk("concat", a, v))


@ext("numpy.vstack numpy.stack", "tup")
def _vstack(I, st, d, node):
    q = I.seq_of(st, d["tup"])
    out = []
    for x in q.a:
        if x.op == "lit":
            v = I.snap(st, x.a[0])
            if v.op == "rows":
                out += list(v.a)
            elif v.op == "lv" and ty(v) == "nd":
                out.append(v)
            else:
                out.append(v)
        else:
            out.append(I._snap_seg(st, x))
    return new_nd(I, st, mk("rows", *out))


@ext("numpy.isnan pandas.isna", "x")
def _isnan(I, st, d, node):
    x = I.deref(st, d["x"])
    l = as_vec(I, st, d["x"]) if x.op in ("vec", "tuple", "seq") or x.op == "ref" else None
    if l is not None:
        return new_nd(I, st, mk("vec", *[isna(I, st, y) for y in l]))
    return isna(I, st, d["x"])


@ext("pandas.notna pandas.notnull", "x")
def _notna(I, st, d, node):
    return not_(isna(I, st, d["x"]))


@ext("math.isnan", "x")
def _misnan(I, st, d, node):
    return isna(I, st, d["x"])


@ext("builtins.object", "")
def _object(I, st, d, node):
    return mk("sentinel", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))


@ext("numpy.array_equal", "a1 a2")
def _aeq(I, st, d, node):
    a, b = I.snap(st, d["a1"]), I.snap(st, d["a2"])
    if a is b:
        return TRUE
    if a.op == "sentinel" or b.op == "sentinel":
        return FALSE
    return mk("truth", mk("array_equal", *sorted((a, b), key=lambda t: t.k)))


@ext("numpy.all", "a axis")
def _npall(I, st, d, node):
    return aanyall(I, st, I.snap(st, d["a"]), "all")


@ext("numpy.any", "a axis")
def _npany(I, st, d, node):
    return aanyall(I, st, I.snap(st, d["a"]), "any")


@ext("numpy.size numpy.alen", "a")
def _npsize(I, st, d, node):
    return I.len_of(st, d["a"])


@ext("numpy.add", "a b")
def _npadd(I, st, d, node):
    return arith(I, st, "+", I.deref(st, d["a"]), I.deref(st, d["b"]))


@ext("numpy.multiply", "a b")
def _npmul(I, st, d, node):
    return arith(I, st, "*", I.deref(st, d["a"]), I.deref(st, d["b"]))


@ext("numpy.subtract", "a b")
def _npsub(I, st, d, node):
    return arith(I, st, "-", I.deref(st, d["a"]), I.deref(st, d["b"]))


@ext("numpy.divide numpy.true_divide", "a b")
def _npdiv(I, st, d, node):
    return arith(I, st, "/", I.deref(st, d["a"]), I.deref(st, d["b"]))


@ext("numpy.repeat", "a repeats")
def _nprepeat(I, st, d, node):
    v = I.snap(st, d["a"])
    if ty(v) in ("int", "num", "float") or v.op in ("attr", "sym"):
        return new_nd(I, st, mk("full", I.snap(st, d["repeats"]), v))
    vals, reps = as_vec(I, st, d["a"]), as_vec(I, st, d["repeats"])
    if vals is not None and reps is not None and len(vals) == len(reps):
        return new_nd(I, st, concat([mk("full", I.snap(st, n), I.snap(st, x)) for x, n in zip(vals, reps)]))
    if vals is not None and ty(I.snap(st, d["repeats"])) in ("int", "num"):
        return new_nd(I, st, concat([mk("full", I.snap(st, d["repeats"]), I.snap(st, x)) for x in vals]))
    return None


for _n in ("numpy.intc", "numpy.int32", "numpy.int64", "numpy.float64", "numpy.int_"):
    def _cast(I, st, d, node, _n=_n):
        v = I.deref(st, d["0"])
        return rounder("int", v) if "int" in _n else v
    EXT[_n] = _cast


# ------------------------------------------------------------------ durations
@ext("pandas.Timedelta", "value unit")
def _td(I, st, d, node):
    v = I.deref(st, d.get("value", NONE))
    u = I.deref(st, d.get("unit", NONE))
    units = {"d": 1440, "D": 1440, "day": 1440, "days": 1440, "h": 60, "H": 60, "hour": 60, "hours": 60, "m": 1, "min": 1,
             "T": 1, "minute": 1, "minutes": 1, "s": F(1, 60), "sec": F(1, 60), "second": F(1, 60), "seconds": F(1, 60)}
    if is_num(v) and is_str(u) and u.a[1] in units:
        return mul(v, const(F(units[u.a[1]])))
    if is_str(v):
        import re
        m = re.fullmatch(r"\s*(\d+)\s*([A-Za-z]+)\s*", v.a[1])
        if m and m.group(2) in units:
            return const(F(int(m.group(1))) * F(units[m.group(2)]))
    if "value" not in d and d:
        return _dtd(I, st, d, node)
    return None


@ext("datetime.timedelta", "days seconds microseconds milliseconds minutes hours weeks")
def _dtd(I, st, d, node):
    f = {"days": 1440, "hours": 60, "minutes": 1, "seconds": F(1, 60), "weeks": 10080}
    r = ZERO
    for k, v in d.items():
        if k not in f:
            return None
        r = add(r, mul(I.deref(st, v), const(F(f[k]))))
    return r


SIG.update({
    "pandas.date_range": ["start", "end", "periods", "freq"], "pandas.concat": ["objs", "axis"],
    "pandas.DataFrame": ["data", "index", "columns"], "pandas.Series": ["data", "index"],
    "pandas.DataFrame.from_records": ["data"], "pandas.read_csv": ["filepath_or_buffer", "sep"],
    "pandas.read_excel": ["io", "sheet_name"], "pandas.read_json": ["path_or_buf"], "builtins.open": ["file", "mode"],
    "datetime.date": ["year", "month", "day"], "datetime.datetime": ["year", "month", "day"],
    "shutil.copyfile": ["src", "dst"], "shutil.copy": ["src", "dst"], "shutil.copy2": ["src", "dst"],
    "json.loads": ["s"], "json.dumps": ["obj"], "subprocess.run": ["args"], "subprocess.call": ["args"],
    "subprocess.check_call": ["args"], "subprocess.Popen": ["args"], "pandas.Period": ["value", "freq"],
    "calendar.monthrange": ["year", "month"], "os.mkdir": ["path", "mode"], "os.makedirs": ["name", "mode", "exist_ok"],
    "importlib.util.spec_from_file_location": ["name", "location"], "openpyxl.load_workbook": ["filename"],
    "openpyxl.worksheet.cell_range.CellRange": ["range_string"], "os.path.exists": ["path"], "os.path.isdir": ["path"],
    "os.listdir": ["path"], "os.path.dirname": ["p"], "os.path.abspath": ["path"],
    "plotly.express.line": ["data_frame"], "plotly.express.area": ["data_frame"],
})


@ext("os.path.join")
def _join(I, st, d, node):
    parts = []
    for i in range(len(d)):
        v = I.snap(st, d[str(i)])
        if v.op == "call" and v.a[0] == "os.path.join":
            parts += [x for _, x in v.a[2]]
        else:
            parts.append(v)
    return mk("call", "os.path.join", NONE, tuple((f"{i:02d}", x) for i, x in enumerate(parts)))


@ext("os.path.basename", "p")
def _basename(I, st, d, node):
    v = I.snap(st, d["p"])
    return mk("at", mk("call", "os.path.split", NONE, (("0", v),)), const(-1))


@ext("tqdm.tqdm", "iterable")
def _tqdm(I, st, d, node):
    if "iterable" in d:
        return d["iterable"]
    return None


@ext("os.path.isfile", "path")
def _isfile(I, st, d, node):
    return mk("call", "os.path.isfile", NONE, (("path", I.snap(st, d["path"])),))
