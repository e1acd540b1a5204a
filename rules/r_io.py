"""C24-C28: saving, loading, power inputs"""
from .r_init import *
from .r_define import CTOR, CYC

WINS = ["window_1", "window_2", "window_3"]
CWS = [n for k in (1, 2, 3) for n in CYC[k][5:]]
SCALARS = [n for n in CTOR if n != "power"] + ["random_var_w"] + [n for k in (1, 2, 3) for n in CYC[k][:5]]
USERCOLS = ["user_name", "num_users", "user_preference"]
TABLE = sym("table", "ext:pandas.DataFrame")
FN = sym("fn", "str")


# ------------------------------------------------------------------ C24
def row_dict(v):
    """the columns of a table with one row: {name: (value, guard)}; None if not determined"""
    ds = {x for x in subterms(v) if x.op == "dict"}
    if v.op == "call" and v.a[0] in ("pandas.DataFrame.from_records", "pandas.DataFrame", "pandas.DataFrame.from_dict", "pandas.json_normalize") and len(ds) == 1:
        d = ds.pop()
        if isinstance(d.a[0], tuple) and (len(d.a) == 1 or d.a[1] is NONE):
            return {key(k): (x, g) for k, x, g in d.a[0]}
    return None


def key(k):
    return k.a[1] if isinstance(k, T) and is_str(k) else k


def saved_rows(c, I, where):
    """(state, columns) of each way of exporting an appliance"""
    out = []
    for s in c.run(I, "Appliance.save", St(), [APP]):
        if raised(I, s):
            c.judge(None if st_weak(s) else False, "export-succeeds", where, f"raises {raised(I, s)}")
            continue
        v = I.snap(s, ret(s))
        row = row_dict(v)
        if row is None:
            c.undec("every-parameter-exported", where, f"the exported table is {show(v)[:200]}")
            continue
        out.append((s, row))
    return out


def strip_wrap(v):
    """without conversions which keep the value"""
    while v.op == "vec" and len(v.a) == 1:
        v = v.a[0]
    return v


def o_row(c):
    con = "Appliance.save"
    with c.ob("every-parameter-exported", con):
        I = c.interp()
        where = c.where(I, con)
        for s, row in saved_rows(c, I, where):
            want = {n: mk("attr", mk("attr", APP, "user"), n) for n in USERCOLS}
            want.update({n: mk("attr", APP, n) for n in SCALARS})
            for n in WINS + CWS:
                want[n + "_start"] = mk("at", mk("attr", APP, n), ZERO)
                want[n + "_end"] = mk("at", mk("attr", APP, n), ONE)
            for n, w in want.items():
                if n not in row:
                    c.bad("every-parameter-exported", where, f"no column {n}")
                    continue
                v, g = row[n]
                v = strip_wrap(I.snap(s, v) if isinstance(v, T) else const(v))
                if v is mk("at", w.a[0], const(-1)) and n.endswith("_end"):
                    v = w
                c.judge((v is w and g in (True, TRUE)) or (None if weak(v) else False), "column-holds-its-parameter", where, f"column {n} holds {show(v)[:120]}")
            c.check("power" in row, "every-parameter-exported", where, "no column power")


def s_saved(I, st, env, node):
    return [(st, mk("call", "saved", env["self"]))]


def table_rows(v):
    """the exported appliances in the order of the rows of a concatenation, None if not determined"""
    if v.op == "call" and v.a[0] == "saved":
        return [v.a[1]]
    if v.op in ("vec", "tuple"):
        out = []
        for x in v.a:
            r = table_rows(x)
            if r is None:
                return None
            out += r
        return out
    if v.op == "seq":
        out = []
        for x in v.a:
            if x.op != "lit":
                return None
            r = table_rows(x.a[0])
            if r is None:
                return None
            out += r
        return out
    if v.op == "call" and v.a[0] == "pandas.concat":
        d = dict(v.a[2])
        if d.get("axis", ZERO) not in (ZERO, const("index"), const("rows")):
            return None
        return table_rows(d.get("objs", d.get(0, v)) if d.get("objs", d.get(0, v)) is not v else sym("?", "nd"))
    if v.op == "call" and v.a[0] in (".reset_index",):
        return table_rows(v.a[1])
    return None


REORDER = {".sort_values", ".drop_duplicates", ".sample", ".head", ".tail", ".nlargest", ".dropna", ".groupby"}


def shuffled(v):
    """the rows are sorted or filtered on the way"""
    return any(x.op in ("sorted", "reversed") or x.op == "call" and x.a[0] in REORDER | REWRITE for x in subterms(v))


REWRITE = {".round", "numpy.round", ".abs", ".clip", ".interpolate", ".ffill", ".bfill", ".shift", ".cumsum", ".diff", ".rank"}


def rows_verdict(v, want):
    rows = table_rows(v)
    return rows == want if rows is not None else False if shuffled(v) else None


def o_table(c):
    us = [sym(f"u{i + 1}", "obj:User") for i in range(2 + c.extra)]
    apps = [[sym(f"a1{i + 1}", "obj:Appliance") for i in range(2 + c.extra)]] + [[sym(f"a{i + 2}1", "obj:Appliance")] for i in range(1 + c.extra)]
    want = [a for x in apps for a in x]

    def world(I):
        st = St()
        st.fields[(UC, "users")] = I.new_list(st, us)
        for u, x in zip(us, apps):
            st.fields[(u, "App_list")] = I.new_list(st, x)
            for a in x:
                st.fields[(a, "user")] = u
        st.fields[(UC, "appliances")] = I.new_list(st, want)
        return st

    for con in ("UseCase.save", "UseCase.export_to_dataframe"):
        with c.ob("one-row-per-appliance-in-order", con):
            I = c.interp({"Appliance.save": s_saved})
            where = c.where(I, con)
            n = 0
            for s in c.run(I, con, world(I), [UC]):
                if raised(I, s):
                    continue  # the case of a user without appliances
                n += 1
                v = I.snap(s, ret(s))
                c.judge(rows_verdict(v, want), "one-row-per-appliance-in-order", where, f"rows {show(v)[:300]}")
            if not n:
                c.undec("one-row-per-appliance-in-order", where, "no normal outcome")
    for con in ("User.save", "User.export_to_dataframe"):
        with c.ob("one-row-per-appliance-in-order", con):
            I = c.interp({"Appliance.save": s_saved})
            where = c.where(I, con)
            n = 0
            for s in c.run(I, con, world(I), [us[0]]):
                if raised(I, s):
                    continue
                n += 1
                v = I.snap(s, ret(s))
                c.judge(rows_verdict(v, apps[0]), "one-row-per-appliance-in-order", where, f"rows {show(v)[:300]}")
            if not n:
                c.undec("one-row-per-appliance-in-order", where, "no normal outcome")
    con = "Appliance.export_to_dataframe"
    with c.ob("exported-table-is-the-saved-one", con):
        I = c.interp({"Appliance.save": s_saved})
        where = c.where(I, con)
        for s in c.run(I, con, world(I), [want[0]]):
            v = I.snap(s, ret(s)) if not raised(I, s) else NONE
            c.judge(rows_verdict(v, want[:1]), "exported-table-is-the-saved-one", where, f"returns {show(v)[:200]}")
    for con, who, rows in (("UseCase.save", UC, want), ("User.save", us[0], apps[0])):
        o_saved_file(c, con, who, rows, world)


def o_saved_file(c, con, who, want, world):
    with c.ob("saved-file-holds-the-table", con):
        I = c.interp({"Appliance.save": s_saved})
        where = c.where(I, con)
        for s in c.run(I, con, world(I), [who], {"filename": FN}):
            if raised(I, s):
                continue
            ev = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name in ("to_excel",)]
            other = [e for e in flat_events(s.events) if e.kind == "mcall" and e not in ev]
            if not ev:
                c.judge(None if other else False, "saved-file-holds-the-table", where, "nothing is written to the file")
                continue
            c.check(len(ev) == 1, "saved-file-holds-the-table", where, f"{len(ev)} tables are written")
            e = ev[0]
            c.judge(rows_verdict(I.snap(s, e.recv), want) if isinstance(e.recv, T) else None, "saved-file-holds-the-table", where, f"writes {show(e.recv)[:200] if isinstance(e.recv, T) else e.recv}")
            fn = e.args.get("excel_writer", NONE)
            fn = I.snap(s, fn) if isinstance(fn, T) else fn
            c.judge(fn is mk("strcat", FN, const(".xlsx")) or (None if weak(fn) else False), "saved-to-the-given-name", where, f"written to {show(fn)[:100]}")
            if con == "UseCase.save":
                c.judge(e.args.get("index") is FALSE or (None if e.args.get("index") is not None and e.args.get("index").op not in ("c", "true") else False), "no-index-column", where,
                        "the index of the table is written as a column")
            c.check(e.args.get("header", TRUE) is TRUE, "header-written", where, "the column names are not written")
            for k in ("float_format", "columns"):
                v = e.args.get(k, NONE)
                c.judge(v is NONE or (None if weak(v) else False), "saved-file-holds-the-table", where, f"written with {k}={show(v)[:80]}")


@rule("C24", 20, "Saving exports every parameter of every appliance", "abstract interpretation of the export; columns of the exported row compared one by one to the parameters",
      "pandas.concat keeps the order of its parts and to_excel writes the table (trusted); two users with two and one appliances.")
def c24(c):
    o_row(c)
    with c.only("whole-series-exported", "power-exported"):
        o_power_export(c)
    c.sized(o_table)


# ------------------------------------------------------------------ C27
POWER = mk("attr", APP, "power")


def all_equal(l, p):
    """does the literal state that all the values of p are equal: True / False (not all equal) / None unknown / 'bad' (something else about p)"""
    if l.op == "not":
        r = all_equal(l.a[0], p)
        return (not r) if r in (True, False) else r
    if l.op in ("truth", "b2i"):
        return all_equal(l.a[0], p)
    if p not in subterms(l):
        return None
    at = lambda i: mk("at", p, const(i))
    d = mk("diff", p)
    if l.op in ("aany", "any") and l.a[0] is d:
        return False
    if l.op in ("all", "alltrue", "aall"):
        x = l.a[0]
        while x.op == "truth":
            x = x.a[0]
        for i in (0, -1):
            for f in (eq(p, at(i)), eq(sub(p, at(i)), ZERO), mk("aeq", p, at(i)), mk("aeq", at(i), p)):
                if x is f:
                    return True
        for f in (eq(d, ZERO), mk("aeq", d, ZERO), mk("aeq", ZERO, d)):
            if x is f:
                return True
    for nm in ("numpy.unique", "unique"):
        for u in [x for x in subterms(l) if x.op in ("call", "unique", "set") and p in x.a or x.op == "call" and x.a[0] in (nm, ".unique", ".nunique")]:
            for ln in (mk("len", u), u if u.op == "call" and u.a[0] == ".nunique" else mk("len", u)):
                r = over_values(l, ln, [const(k) for k in range(1, 8)])
                if r is not None:
                    return r
    mx, mn = mk("amax", p), mk("amin", p)
    if l is eq(mx, mn):
        return True
    if l is lt(mn, mx):
        return False
    if mx in subterms(l) and mn in subterms(l):
        r = over_values(l, mx, [add(mn, div(const(k), const(2))) for k in range(0, 8)])
        if r is not None:
            return r
    if l.op in ("aany", "any") and any(x in subterms(l) for i in (0, -1) for x in (mk("aeq", p, at(i)), mk("aeq", at(i), p), eq(p, at(i)))) and p in subterms(l):
        x = l.a[0]
        while x.op == "truth":
            x = x.a[0]
        if any(x in (mk("aeq", p, at(i)), mk("aeq", at(i), p), eq(p, at(i))) for i in (0, -1)):
            return "bad"
    ops = {x.op for x in subterms(l)}
    cs = {x.a[0] for x in subterms(l) if x.op == "call"}
    if cs & {"numpy.allclose", "numpy.isclose", "math.isclose"}:
        return "bad"
    ptp = [x for x in subterms(l) if x.op == "call" and x.a[0] in ("numpy.ptp", ".ptp") and p in x.a]
    for x in ptp:
        if l is eq(x, ZERO) or l is le(x, ZERO):
            return True
        if l is lt(ZERO, x):
            return False
    spread = [x for x in subterms(l) if x.op in ("std", "var", "call") and (x.op != "call" or x.a[0] in ("numpy.std", "numpy.var", ".std", ".var", "numpy.ptp", ".ptp")) and p in subterms(x)]
    if spread and not any(l is eq(x, ZERO) or l is lt(ZERO, x) or l is le(x, ZERO) for x in spread):
        return "bad"
    # sum of absolute differences
    for x in [x for x in subterms(l) if x.op == "call" and x.a[0] in (".sum", "numpy.sum") or x.op in ("sum", "asum")]:
        inner = [y for y in x.a if isinstance(y, T)] + [y for z in x.a if isinstance(z, tuple) for y in z if isinstance(y, T)]
        if any(y.op in ("abs", "aabs") and y.a[0] in (d, mul(const(-1), d)) for y in inner):
            if l is eq(x, ZERO) or l is le(x, ZERO):
                return True
            if l is lt(ZERO, x):
                return False
    signed = [x for x in subterms(l) if x.op in ("aany", "any", "all", "aall", "alltrue")]
    for x in signed:
        y = x.a[0]
        while y.op in ("truth", "not"):
            y = y.a[0]
        if y in (lt(ZERO, d), lt(d, ZERO), le(ZERO, d), le(d, ZERO), mk("alt", ZERO, d), mk("alt", d, ZERO), mk("ale", ZERO, d), mk("ale", d, ZERO)):
            return "bad"
    # sums of differences, first against last value
    if l.op in ("eq0", "eq", "le0", "le", "lt0", "lt") or l.op not in ("all", "any", "aany", "alltrue"):
        s = [x for x in subterms(l) if x.op in ("sum", "asum") and d in subterms(x)]
        if s and "abs" not in ops and "aabs" not in ops:
            return "bad"
        if s and l is eq(s[0], ZERO):
            return True
        rest = [x for x in set(subterms(l)) if p in x.a and x is not p]
        if rest and all(x.op == "at" for x in rest):
            return "bad"
    if l.op in ("aany", "any") and d in subterms(l):
        x = l.a[0]
        if x.op == "truth":
            x = x.a[0]
        if x is not d and x is not not_(eq(d, ZERO)):
            return "bad" if x.op in ("le", "lt", "le0", "lt0", "not") and not any(y.op in ("abs", "aabs") for y in subterms(x)) else None
        return False
    return None


def o_power_export(c):
    con = "Appliance.save"
    with c.ob("single-value-iff-constant", con):
        I = c.interp()
        where = c.where(I, con)
        for s, row in saved_rows(c, I, where):
            if "power" not in row:
                c.bad("power-exported", where, "no column power")
                continue
            v = I.snap(s, row["power"][0])
            cases = [(list(s.facts), v)]
            flat = []
            while cases:
                fs, x = cases.pop()
                if x.op == "ite":
                    cases += [(fs + [x.a[0]], x.a[1]), (fs + [not_(x.a[0])], x.a[2])]
                else:
                    flat.append((fs, x))
            for fs, x in flat:
                lits = [l for f in fs for l in (f.a if f.op == "and" else (f,))]
                know = {all_equal(l, POWER) for l in lits} - {None}
                kind = None
                if x.op == "at" and x.a[0] is POWER and x.a[1].op == "c" or x in (mk("amax", POWER), mk("amin", POWER)):
                    kind = "single"
                elif x is POWER or x.op == "call" and x.a[0] in (".tolist", "list") and POWER in x.a or x.op == "tolist" or whole_series(x):
                    kind = "series"
                if kind is None:
                    c.judge(None if weak(x) and not rewritten(x) else False, "whole-series-exported", where, f"the power is exported as {show(x)[:200]}")
                    continue
                c.ok("whole-series-exported", where)
                text = "; ".join(show(l)[:100] for l in lits if POWER in subterms(l))
                if kind == "single":
                    c.judge(True if True in know else False if ("bad" in know or False in know or not lits) else None, "single-value-only-if-constant", where,
                            f"exported as a single value under [{text}]")
                else:
                    c.judge(True if False in know else False if ("bad" in know or True in know) else None, "series-only-if-not-constant", where, f"exported as a series under [{text}]")


def over_values(l, x, values):
    """does l hold for the first of the values only (True), for all but the first one (False), or for another selection ("bad")"""
    got = [subst(l, {x: v}) for v in values]
    if any(g not in (TRUE, FALSE) for g in got):
        return None
    got = [g is TRUE for g in got]
    if got[0] and not any(got[1:]):
        return True
    if not got[0] and all(got[1:]):
        return False
    return "bad"


def whole_series(x):
    """an element-wise copy of the power series"""
    if x.op == "seq" and len(x.a) == 1 and x.a[0].op == "for":
        lvl, n, body = x.a[0].a
        return n is mk("len", POWER) and body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit" and strip_num(body.a[0].a[0]) is mk("at", POWER, mk("b", lvl))
    if x.op == "call" and x.a[0] in ("json.dumps", "str"):
        return any(whole_series(y) or y is POWER or y.op == "call" and y.a[0] == ".tolist" and POWER in y.a for y in subterms(x) if y is not x)
    return False


def strip_num(x):
    while True:
        if x.op in ("float", "tofloat"):
            x = x.a[0]
        elif x.op == "call" and x.a[0] == "builtins.float" and len(x.a) > 2 and len(x.a[2]) == 1 and isinstance(x.a[2][0][1], T):
            x = x.a[2][0][1]
        else:
            return x


CHANGING = {".astype", ".round", "numpy.round", "numpy.unique", ".sort", "sorted", "numpy.sort", "round", "int", "set", ".unique", ".mean", "numpy.mean"}


def rewritten(x):
    return any(y.op == "call" and y.a[0] in CHANGING for y in subterms(x)) or any(y.op in ("slice", "mean", "round", "int") for y in subterms(x))


@rule("C27", 1, "A power series is exported entirely unless it is constant", "abstract interpretation of the export; the path condition of each form classified as all-values-equal or its negation",
      "Recognised tests of equality of all values: any(diff), all(== first), number of distinct values, min against max, sum of absolute differences.")
def c27(c):
    o_power_export(c)


# ------------------------------------------------------------------ C25, C26
COLS = [n for n in SCALARS if n not in ()] + ["power"] + [f"{n}_{e}" for n in WINS + CWS for e in ("start", "end")]
TARGET = {n: (n,) for n in SCALARS + ["power"]}
TARGET.update({n: (n + "_start", n + "_end") for n in WINS + CWS})
DEF0 = {n: 0 for n in ["random_var_w"] + [n for k in (1, 2, 3) for n in CYC[k][:5]]}


def s_table(I, st, env, node):
    return [(st, TABLE)]


def s_add_app(I, st, env, node):
    args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
    kw = args.get("kwargs", NONE)
    a = mk("call", "obj:Appliance", env["self"], kw)
    I.event(st, "mcall", "add_appliance", recv=env["self"], args=args, res=a, node=node)
    for o, L in _app_list(I, st, env["self"]):
        models.METH[("list", "append")](I, o, L, [a], {}, node)
    return [(st, a)]


def _app_list(I, st, u):
    L = st.fields.get((u, "App_list"))
    return [(st, L)] if L is not None else []


class Load:
    """loading a table whose rows have the given columns filled, empty, or absent"""

    def __init__(self, c, present, empty, scen=False, **kw):
        self.c = c
        self.present, self.empty = set(present) | set(USERCOLS), set(empty)
        models.ROW = {"present": self.present, "empty": self.empty}
        stubs = {"ramp.core.utils.read_input_file": s_table, "User.add_appliance": s_add_app}
        if scen:
            self.S = Scen(c, **kw)
            self.I = self.S.I
            self.I.stubs.update(stubs)
        else:
            self.I = c.interp(dict(stubs, **{"Appliance.check_power_values": s_check, "UseCase.calc_peak_time_range": s_peak}))
            self.I.concrete_rec = True

    def run(self):
        I = self.I
        st = St()
        u0, a0 = sym("u0", "obj:User"), sym("a0", "obj:Appliance")
        st.fields[(u0, "App_list")] = I.new_list(st, [a0])
        st.fields[(a0, "user")] = u0
        self.u0, self.a0 = u0, a0
        outs = []
        for b in self.c.steps(I, st, [("UseCase.__init__", [UC], {"users": I.new_list(st, [u0])})]):
            outs += self.c.run(I, "UseCase.load", b, [UC, FN])
        return outs


def fact_cells(facts):
    return {x.a[1] for f in facts for x in subterms(f) if x.op == "cell" and len(x.a) > 1}


def judge_row(c, I, s, e, L, where, tag):
    """the arguments given to add_appliance for one row"""
    kw = e.args.get("kwargs", NONE)
    pos = e.args.get("args", mk("tuple"))
    if kw.op == "lv" or any(x.op == "lv" for x in subterms(kw)):
        c.bad("parameters-of-one-row-only", where, f"({tag}) the parameters of a row include those of the rows before it")
        return
    if kw.op != "dict" or not isinstance(kw.a[0], tuple) or (pos.op == "tuple" and pos.a):
        c.undec("cell-restored", where, f"({tag}) appliance created with {show(kw)[:150]}")
        return
    c.ok("parameters-of-one-row-only", where)
    got = {key(k): (v, g) for k, v, g in kw.a[0]}
    rows = {x.a[0] for x in subterms(kw) if x.op == "cell"}
    if len(rows) > 1:
        c.bad("parameters-of-one-row-only", where, f"({tag}) cells of several rows in one appliance")
        return
    row = rows.pop() if rows else None
    for n, cols in TARGET.items():
        full = all(x in L.present for x in cols)
        if full:
            if n not in got:
                c.bad("cell-restored", where, f"({tag}) {n} is not given although its cells are filled")
                continue
            v, g = got[n]
            cells = [mk("cell", row, x) if row is not None else None for x in cols]
            w = cells[0] if len(cols) == 1 else mk("vec", *cells) if row is not None else None
            ok = v is w
            if not ok and len(cols) == 2 and row is not None:
                el = v.a if v.op in ("vec", "tuple") else ()
                ok = len(el) == 2 and all(unconv(x) is y for x, y in zip(el, cells))
            if not ok and len(cols) == 1:
                ok = unconv(v) is w
            if g not in (True, TRUE):
                c.judge(None, "cell-restored", where, f"({tag}) {n} is given under {g}")
                continue
            c.judge(ok or (None if weak_cell(v) else False), "cell-restored", where, f"({tag}) {n} is given {short(v)}")
        elif n in got:
            v, g = got[n]
            gave = [x.a[1] for x in subterms(v) if x.op == "cell"]
            ok = not gave and is_default(n, v)
            c.judge(ok or (None if weak_cell(v) and not gave else False), "empty-cell-leaves-the-default", where, f"({tag}) {n} is given {short(v)} although {' and '.join(cols)} is not filled")
        else:
            c.ok("empty-cell-leaves-the-default", where)
    for n in got:
        if n not in TARGET:
            c.judge(False, "cell-restored", where, f"({tag}) {n} is not a parameter")
    # dropped cells: a condition on the value of a cell decides whether it is given
    return fact_cells(e.facts)


def short(v):
    return "/".join(str(x.a[1]) for x in subterms(v) if x.op == "cell")[:80] or show(v)[:80]


def unconv(x):
    """without conversions to numbers, which keep whole minutes"""
    while x.op in ("int", "float", "trunc", "tofloat") and isinstance(x.a[0], T):
        x = x.a[0]
    return x


def weak_cell(v):
    return any(x.op in WEAK or x.op == "call" for x in subterms(v) if x.op != "loc" and not (x.op == "call" and x.a[0] in (".to_dict", ".unique", ".isin", ".fillna"))) and \
        not any(x.op == "cell" for x in subterms(v))


def is_default(n, v):
    from .r_define import CTOR_DEFAULT
    if n in DEF0:
        return v is ZERO or v is const(0.0)
    d = CTOR_DEFAULT.get(n, 0 if n == "power" else None)
    if d is not None:
        return v is const(d)
    return v is NONE


def o_cells(c):
    con = "UseCase.load"
    cols = COLS
    parts = [("all filled", cols, []), ("all empty", [], cols), ("all absent", [], []), ("every other column filled", cols[::2], cols[1::2]), ("the others filled", cols[1::2], cols[::2]),
             ("starts of windows filled", [x for x in cols if not x.endswith("_end")], [x for x in cols if x.endswith("_end")]),
             ("ends of windows filled", [x for x in cols if not x.endswith("_start")], [x for x in cols if x.endswith("_start")])]
    groups = cols if c.tier == "thorough" else []
    parts += [(f"only {x} filled", [x], [y for y in cols if y != x]) for x in groups]
    parts += [(f"only {x} absent", [y for y in cols if y != x], []) for x in groups]
    for tag, pres, emp in parts:
        with c.ob("cell-restored", con):
            L = Load(c, pres, emp)
            I = L.I
            where = c.where(I, con)
            outs = [s for s in L.run() if not raised(I, s)]
            if not outs:
                c.undec("cell-restored", where, f"({tag}) no normal outcome")
            for s in outs:
                evs = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name == "add_appliance"]
                if not evs:
                    c.judge(None if st_weak(s) and not s.events else False, "cell-restored", where, f"({tag}) no appliance is added")
                dep = set()
                given = []
                for e in evs:
                    dep |= judge_row(c, I, s, e, L, where, tag) or set()
                    given.append({key(k) for k, v, g in e.args["kwargs"].a[0]} if e.args.get("kwargs", NONE).op == "dict" and isinstance(e.args["kwargs"].a[0], tuple) else set())
                if len(evs) > 1 and dep:
                    for n in set.union(*given) - set.intersection(*given):
                        d = [x for x in TARGET.get(n, ()) if x in dep]
                        c.judge(False if d and n not in DEF0 else None if d else True, "cell-restored", where, f"({tag}) whether {n} is given depends on the value of {d}")
                u = final(I, s, UC, "users")
                old = [x for x in subterms(u) if x is L.u0]
                c.judge((u.op in ("seq", "vec") and bool(old) and first_is(u, L.u0)) or (None if weak(u, sym("x", "nd")) and not u.op == "seq" else False), "existing-users-kept", where,
                        f"({tag}) users become {show(u)[:150]}")
            ex = [s for s in L.run() if raised(I, s) and raised(I, s) not in ("ValueError",)] if False else []


def first_is(t, x):
    if t.op == "vec":
        return bool(t.a) and t.a[0] is x
    return t.op == "seq" and bool(t.a) and t.a[0].op == "lit" and t.a[0].a[0] is x


@rule("C25", 20, "Loading restores every exported parameter", "abstract interpretation of loading for partitions of the columns into filled, empty and absent ones; arguments of add_appliance compared to the cells",
      "pandas.isna/numpy.isnan are true exactly for empty cells; User.add_appliance itself is decided by C29. Thorough: each column filled, empty or absent on its own.")
def c25(c):
    o_cells(c)
    o_empty_cells(c)
    from . import r_define
    r_define.o_single_cycle(c)


def o_empty_cells(c):
    """the reader itself keeps the cells of the file"""
    con = "ramp.core.utils.read_input_file"
    with c.ob("cells-read", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, St(), [FN]):
            if raised(I, s):
                continue
            v = I.snap(s, ret(s))
            vals = [x for x in subterms(v) if x.op == "attr" and x.a[1] == "values"] + [x for x in subterms(v) if x.op == "call" and x.a[0] in (".iter_rows", "pandas.read_excel")]
            c.judge(bool(vals) or None, "cells-read", where, f"the table is {show(v)[:150]}")
            for x in subterms(v):
                if x.op != "at" or x.a[1].op not in ("c", "at", "slice"):
                    continue
                base, ix = x.a
                if ix.op == "at" and attr_of(ix.a[0], "sheetnames") and is_const(ix.a[1]):
                    c.check(ix.a[1] is ZERO, "first-sheet-read", where, f"the appliances are read from sheet number {show(ix.a[1])}")
                if ix.op == "slice" and attr_of(base, "values") and base.a[0].op == "at":
                    # the rows after the headers, in order
                    lo, hi, st = ix.a
                    c.judge(True if lo is ONE and hi is NONE and st in (NONE, ONE) else False if all(is_const(y) for y in ix.a) else None, "all-rows-read", where, f"rows {show(ix)} of the sheet")
                if is_const(ix) and ix.a[0] == "i" and base.op == "at" and base.a[1].op == "at" and attr_of(base.a[1].a[0], "sheetnames"):
                    c.check(ix is ONE, "headers-of-the-first-row", where, f"row {show(ix)} of the sheet gives the column names")
            for e in flat_events(s.events):
                if e.kind == "setitem":
                    ix = e.args.get("index")
                    nm = ix.a[-1] if ix is not None and ix.op == "tuple" and ix.a else ix
                    if nm is not None and is_str(nm):
                        c.check(nm.a[1] in ("power", "p_series") or nm.a[1] not in COLS + USERCOLS, "cells-read", where, f"the column {nm.a[1]} of the file is overwritten")


UNAME = mk("attr", TABLE, "user_name")


def user_sel(t, name):
    """conditions on which rows are selected in a value: True if exactly those of the user"""
    conds = [x.a[-1] for x in subterms(t) if x.op == "loc" and len(x.a) == 3 and x.a[1] is TABLE]
    conds += [x.a[1] for x in subterms(t) if x.op == "at" and x.a[0] is TABLE and not is_str(x.a[1]) and x.a[1].op != "vec"]
    if not conds:
        return None
    want = (eq(UNAME, name), mk("aeq", *sorted((UNAME, name), key=lambda t: t.k)), eq(mk("at", TABLE, const("user_name")), name))
    res = [True if k in want else False if UNAME in subterms(k) or not weak(k, mk("loc", ZERO)) else None for k in set(conds)]
    return False if False in res else None if None in res else True


def ucalls(t, name):
    return [x for x in subterms(t) if x.op == "call" and x.a[0] == name]


def o_users(c):
    con = "UseCase.load"
    with c.ob("one-user-per-name", con):
        L = Load(c, COLS, [])
        I = L.I
        where = c.where(I, con)
        outs = L.run()
        for s in outs:
            r = raised(I, s)
            if r:
                continue
            u = final(I, s, UC, "users")
            fors = [x for x in u.a if x.op == "for"] if u.op == "seq" else []
            if len(fors) != 1:
                c.judge(None if weak(u) else False, "one-user-per-name", where, f"users become {show(u)[:200]}")
                continue
            lvl, n, body = fors[0].a
            src = n.a[0] if n.op == "len" else None
            ok = src is not None and (src in (mk("call", ".unique", UNAME, ()), mk("call", ".drop_duplicates", UNAME, ())) or src.op == "call" and src.a[0] in ("numpy.unique", "dict.fromkeys") and UNAME in subterms(src))
            if src is not None and not ok:
                # every row rather than every name?
                ok = False if src in (UNAME, TABLE, mk("attr", UNAME, "values")) or renamed(src) else None
            c.judge(ok, "one-user-per-name", where, f"one user for each of {show(n)[:150]}")
            if not ok:
                continue
            refs = [x.a[0] for x in body.a if x.op == "lit"] if body.op == "seq" else []
            if len(refs) != 1:
                c.judge(None if weak(body) else False, "one-user-per-name", where, f"adds {show(body)[:150]} for each name")
                continue
            ev = {e.name: e.args.get("value") for e in flat_events(s.events) if e.kind == "set" and e.recv is refs[0]}
            nm = I.snap(s, ev.get("user_name", NONE))
            c.judge((nm.op == "at" and nm.a[0] is src) or (None if weak(nm, src) else False), "name-of-its-rows", where, f"a user is named {show(nm)[:120]}")
            num = I.snap(s, ev.get("num_users", NONE))
            pref = I.snap(s, ev.get("user_preference", NONE))
            judge_column(c, num, "num_users", nm, where)
            judge_column(c, pref, "user_preference", nm, where)
            fills = ucalls(pref, ".fillna")
            filled = any(dict(x.a[2]).get("value", dict(x.a[2]).get(0)) in (ZERO, const(0.0)) for x in fills if len(x.a) > 2)
            c.judge(filled or (None if weak_beyond(pref) else False), "empty-preference-is-0", where, f"user_preference is {show(pref)[:200]}")
            # the rows of the user
            evs = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name == "add_appliance"]
            for e in evs:
                kw = e.args.get("kwargs", NONE)
                rows = {x.a[0] for x in subterms(kw) if x.op == "cell"}
                c.judge(e.recv is refs[0] or (None if e.recv.op != "ref" else False), "appliance-added-to-its-user", where, f"an appliance is added to {show(e.recv)[:80]}")
                for row in rows:
                    c.judge(user_sel(row, nm), "rows-of-the-user", where, f"the rows of a user are {show(row)[-300:]}")
            # rejections
            for col, val in (("num_users", num), ("user_preference", pref)):
                us = [x for x in ucalls(val, ".unique")]
                if not us:
                    c.undec("contradictions-rejected", where, f"{col} is {show(val)[:150]}")
                    continue
                drop = sorted({x.a[0] for x in subterms(us[0].a[1]) if x.op == "call" and x.a[0] in DROPPING} |
                              {"a slice" for x in subterms(us[0].a[1]) if x.op in ("at", "loc") and any(
                                  y.op == "slice" and any(z is not NONE for z in y.a) for y in x.a[1:] if isinstance(y, T))})
                c.judge(False if drop else True, "every-row-of-the-user-considered", where, f"{col}: the distinct values are those after {', '.join(drop)}: {show(us[0])[:200]}")
                one = eq(mk("len", us[0]), ONE)
                rel = relax(us[0])
                # on the accepted path the number of distinct values is one
                bodies = [f for f in s.facts if f.op == "forall"]
                acc = any(in_forall(f, rel) for f in bodies)
                rej = [o for o in outs if raised(I, o) == "ValueError" and any(rel(x) for f in o.facts for x in subterms(f))]
                c.judge(acc or (None if not bodies and not rej else False), "contradictions-rejected", where, f"rows of a user with different {col} are accepted")
        for s in outs:
            r = raised(I, s)
            if r:
                c.judge(r == "ValueError" or None, "contradictions-rejected", where, f"raises {r}")


def renamed(src):
    """the names of the users are changed before they are told apart"""
    return any(x.op == "call" and x.a[0] in (".strip", ".lower", ".upper", ".title", ".capitalize", ".casefold", ".lstrip", ".rstrip", ".swapcase")
               and UNAME in subterms(x) for x in subterms(src))


def relax(u):
    """recognises eq(len(unique), 1) whatever the index of the user in it"""
    want = show_full(u)

    def test(x):
        return x.op == "len" and show_full(x.a[0]) == want
    return test


def show_full(t):
    """structure of a term without the names of loop indexes, nor the order of operands which commute"""
    def go(x):
        if isinstance(x, T):
            if x.op in ("b", "bv"):
                return "#"
            if x.op == "c":
                return repr(x.a)
            if x.op == "poly":
                it = [(sorted((go(at), str(e)) for at, e in m), c) for m, c in x.a[0]]
                return "poly" + min(str(sorted((m, str(c * sg)) for m, c in it)) for sg in (1, -1))
            ch = [go(y) for y in x.a]
            if x.op in ("eq", "and", "or", "max", "min"):
                ch.sort()
            return x.op + "(" + ",".join(ch) + ")"
        if isinstance(x, tuple):
            return "[" + ",".join(go(y) for y in x) + "]"
        return repr(x)
    return go(t)


def in_forall(f, rel):
    """a for-all fact with a conjunct len(unique) == 1"""
    body = f.a[-1]
    lits = body.a if body.op == "and" else (body,)
    for l in lits:
        hit = [x for x in subterms(l) if x.op == "len" and rel(x)]
        if hit and any(l is eq(x, ONE) for x in hit):
            return True
    if body.op == "or":
        return all(any(any(y is eq(x, ONE) for x in subterms(y) if x.op == "len" and rel(x)) for y in (d.a if d.op == "and" else (d,))) for d in body.a)
    return False


def weak_beyond(v):
    return any(x.op == "call" and x.a[0] not in (".unique", ".fillna", "numpy.unique") for x in subterms(v)) or any(x.op == "ite" for x in subterms(v))


# what leaves out rows or replaces their values by those of others
DROPPING = {".dropna", ".ffill", ".bfill", ".pad", ".backfill", ".interpolate", ".head", ".tail", ".sample", ".round", ".mode", ".clip", ".abs", ".nlargest",
            ".nsmallest", ".shift", ".rank", ".cummax", ".cummin"}


def judge_column(c, v, col, nm, where):
    src = [x for x in subterms(v) if x.op == "attr" and x.a[1] == col]
    src += [x for x in subterms(v) if x.op == "at" and x.a[1] is const(col)]
    if not src:
        others = [x for x in subterms(v) if x.op == "attr" and x.a[1] in USERCOLS]
        c.judge(False if others or not weak(v) else None, "user-gets-the-values-of-its-rows", where, f"{col} is {show(v)[:150]}")
        return
    c.judge(user_sel(src[0], nm), "user-gets-the-values-of-its-rows", where, f"{col} is {show(v)[:200]}")


def o_list_of_appliances(c):
    con = "UseCase.load"
    with c.ob("appliances-of-all-users", con):
        L = Load(c, ["name"], [])
        I = L.I
        where = c.where(I, con)
        for s in L.run():
            if raised(I, s):
                continue
            ap = final(I, s, UC, "appliances")
            ok = False
            if ap.op == "seq" and len(ap.a) >= 2 and first_is(ap, L.a0):
                x = ap.a[-1]
                ok = any(y.op == "call" and y.a[0] == "obj:Appliance" for y in subterms(x))
            if not ok and ap.op == "seq":
                # a nested list per user
                ok = False
            c.judge(ok or (None if weak(ap, mk("call", "obj:Appliance"), mk("call", ".unique"), mk("call", ".to_dict"), mk("call", ".isin"), mk("loc", ZERO), mk("call", ".fillna")) else False), "appliances-of-all-users", where,
                    f"appliances of the use case: {show(ap)[:200]}")


@rule("C26", 3, "Loading groups the rows by user and rejects contradictions", "abstract interpretation of loading with a symbolic table; selection conditions and path conditions compared",
      "pandas unique/fillna/boolean selection (trusted).")
def c26(c):
    o_users(c)
    o_list_of_appliances(c)


def o_load_into_initialised(c, peak=False, power=False):
    con = "UseCase.load"
    with c.ob("loading-into-an-initialised-use-case", con):
        L = Load(c, ["name", "power"], [], scen=True)
        S, I = L.S, L.I
        where = c.where(I, con)
        n = 0
        for b in S.build(D0, D1):
            before = S.view(b)
            for s in S.call(b, {}, con, args=[FN]):
                if raised(I, s):
                    continue
                n += 1
                if peak:
                    fresh_peak(c, S, s, before["peak_time_range"], PE0, where, "load into an initialised use case")
                if power:
                    ap = final(I, s, UC, "appliances")
                    covered = set()
                    order = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name in ("add_appliance", "check_power_values")]
                    last_add = max([i for i, e in enumerate(order) if e.name == "add_appliance"], default=-1)
                    nd = S.view(s).get("num_days")
                    chk = [e for i, e in enumerate(order) if e.name == "check_power_values"]
                    new = [e for i, e in enumerate(order) if e.name == "check_power_values" and any(x.op == "call" and x.a[0] == "obj:Appliance" for x in subterms(I.snap(s, e.recv)))]
                    late = [e for i, e in enumerate(order) if e.name == "check_power_values" and i > last_add]
                    # a part of a list: the appliances in front of it or behind it are not compared
                    part = lambda e: any(x.op == "at" and x.a[1].op == "slice" and any(is_num(y) and y is not ZERO for y in x.a[1].a[:2])
                                         or x.op == "last" and any(y.op == "call" and y.a[0] in (".unique", "pandas.unique", ".groupby") for y in subterms(x))
                                         for x in subterms(I.snap(s, e.recv)))
                    new = [e for e in new if not part(e)]
                    late = [e for e in late if not part(e)]
                    ok = bool(new) and (bool(late) or any(e in new for e in chk))
                    c.judge(ok or (None if chk and late and not new and any(weak(I.snap(s, e.recv)) for e in late) else False), "loaded-power-checked", where,
                            "the power values of the loaded appliances are not compared to the number of days")
                    for e in chk:
                        v = [x for k, x in e.args.items()]
                        good = len(v) == 1 and (v[0] is nd or nd is not None and Facts(list(e.facts)).entails(eq(v[0], nd)))
                        c.judge(good or (None if nd is None or not v or weak(v[0], nd) else False), "loaded-power-checked", where, f"compared to {[show(x)[:80] for x in v]}")
        if not n:
            c.undec("loading-into-an-initialised-use-case", where, "no normal outcome")


# ------------------------------------------------------------------ C28
def o_ctor_power(c):
    con = "Appliance.__init__"
    p = sym("p", "float")
    cases = [("number", sym("p", "float")), ("whole number", sym("p", "int")), ("DataFrame", sym("p", "ext:pandas.DataFrame")), ("json text", sym("p", "str")), ("nothing", NONE), ("list", "list"),
             ("array", "nd")]
    for nm, v in cases:
        with c.ob("power-input", con):
            I = c.interp()
            st = St()
            st.fields[(SELF_U, "usecase")] = NONE
            where = c.where(I, con)
            val = I.new_list(st, [ONE]) if v == "list" else models.new_nd(I, st, sym("arr", "nd")) if v == "nd" else v
            for s in c.run(I, con, st, [APP, SELF_U], {"power": val}):
                r = raised(I, s)
                if nm in ("nothing", "list", "array"):
                    c.judge(r == "ValueError" or (None if st_weak(s) else False), "other-types-refused", where, f"{nm} as power: {r or 'accepted'}")
                    continue
                if r:
                    c.judge(None if st_weak(s) else False, "power-accepted", where, f"{nm} as power raises {r}")
                    continue
                got = final(I, s, APP, "power")
                if nm.endswith("number"):
                    c.judge((got.op == "full" and got.a[1] is v) or (None if weak(got) else False), "number-is-constant", where, f"{nm} as power becomes {show(got)[:120]}")
                else:
                    ok = series_of(got, v, nm)
                    if ok is None and respelt(got):
                        ok = False
                    c.judge(ok if ok is not None else None if weak(got, mk("call", "pandas.read_json")) else False, "values-column-used", where, f"{nm} as power becomes {show(got)[:150]}")


RESPELT = {".drop_duplicates", ".sort_index", ".sort_values", ".mean", ".sum", ".max", ".min", ".median", ".round", "numpy.round", "numpy.sort", ".unique",
           "numpy.unique", ".dropna", ".fillna", ".interpolate", ".cumsum", ".diff", ".head", ".tail", ".clip", ".abs", "numpy.flip", ".shift", ".rolling"}


def respelt(t):
    """values of the column are dropped, reordered or replaced"""
    return any(x.op == "call" and x.a[0] in RESPELT for x in subterms(t)) or t.op == "at" and t.a[1].op == "slice" and any(is_num(y) for y in t.a[1].a[:3] if y is not ONE and y is not ZERO)


def series_of(t, v, nm):
    """is t the first column of the DataFrame v, or the last column of the table in the json text v"""
    full = mk("slice", NONE, NONE, NONE)
    base = v if nm == "DataFrame" else None
    col = ZERO if nm == "DataFrame" else const(-1)
    if t.op == "call" and t.a[0] in (".to_numpy", "numpy.array", "numpy.asarray", ".flatten", ".ravel"):
        inner = [x for x in t.a[1:] if isinstance(x, T)]
        return series_of(inner[0], v, nm) if inner else None
    if t.op == "attr" and t.a[1] == "values":
        return series_of(t.a[0], v, nm)
    if t.op not in ("at", "loc"):
        return None
    src, ix = (t.a[0], t.a[1]) if t.op == "at" else (t.a[1], t.a[2])
    if src.op == "attr" and src.a[1] == "values":
        src = src.a[0]
    elif src.op == "call" and src.a[0] == ".to_numpy":
        src = src.a[1]
    if ix.op == "at" and ix.a[0].op == "attr" and ix.a[0].a[1] == "columns" and ix.a[0].a[0] is src:
        # the column with the label of the first / last one
        ix = mk("tuple", full, ix.a[1])
    if ix.op != "tuple" or len(ix.a) != 2:
        return None
    if nm == "DataFrame":
        if src is not v:
            return None
    else:
        if not (src.op == "call" and src.a[0] == "pandas.read_json" and v in subterms(src)):
            return None
    if not ix.a[1].op == "c":
        return None
    return ix.a[0].op == "slice" and all(x is NONE for x in ix.a[0].a) and ix.a[1] is col


def attr_of(t, name):
    return t.op == "attr" and t.a[1] == name


def o_reader(c):
    con = "ramp.core.utils.read_input_file"
    with c.ob("power-series-validated", con):
        I = c.interp()
        where = c.where(I, con)
        outs = c.run(I, con, St(), [FN])
        sizes = lambda t: {x for x in subterms(t) if is_size(x)}
        rej = {"rows": False, "columns": False, "json": False, "text": False}
        for s in outs:
            r = raised(I, s)
            if r:
                c.judge("ValueError" in I.exc_mro(r) or (None if r == "Exception" or st_weak(s) and r not in ("TypeError", "KeyError", "IndexError") else False), "invalid-power-refused-with-ValueError", where, f"raises {r}")
        writes = []
        for s in outs:
            if raised(I, s):
                continue
            for e in flat_events(s.events):
                ix = e.args.get("index")
                if e.kind in ("setitem", "set") and ix is not None and ix.op == "tuple" and len(ix.a) == 2 and ix.a[1] is const("power"):
                    writes.append((s, e))
        if not writes:
            c.undec("power-series-validated", where, "no power series is stored")
        seen = set()
        for s, e in writes:
            for extra, v in branches(I.snap(s, e.args["value"])):
                F = list(e.facts) + extra
                seen.add(judge_series(c, I, s, outs, F, v, where))
        for k in ("1", "2", "text"):
            c.judge(k in seen or (None if None in seen or not writes else False), "power-series-read", where, f"a power series given as {'json text' if k == 'text' else 'a range of ' + k + ' column(s)'} is not stored")


def branches(v):
    if v.op == "ite":
        return [([v.a[0]] + f, x) for f, x in branches(v.a[1])] + [([not_(v.a[0])] + f, x) for f, x in branches(v.a[2])]
    return [([], v)]


def is_size(x, what=None):
    """cr.size['rows'] and the like"""
    return x.op == "at" and attr_of(x.a[0], "size") and is_str(x.a[1]) and (what is None or x.a[1].a[1] == what)


def size_terms(ts, what):
    out = set()
    for t in ts:
        for x in subterms(t):
            if is_size(x, what):
                out.add(x)
            if x.op == "len" and attr_of(x.a[0], {"rows": "rows", "columns": "cols"}[what]):
                out.add(x)
    return out


def judge_size(c, I, s, outs, F, what, want, where, rule_):
    """what the path says about the number of rows or columns"""
    ts = size_terms(F, what)
    F = list(F) + [le(ONE, t) for t in ts]          # a range of cells is not empty
    fx = Facts(F, I.axiom_hook)
    if any(fx.entails(eq(t, const(want))) for t in ts):
        c.ok(rule_, where)
        return
    if ts:
        # the path speaks about the size without fixing it
        t = next(iter(ts))
        if not sat(list(F) + [le(t, const(want - 1))]) and not sat(list(F) + [le(const(want + 1), t)]):
            c.ok(rule_, where)
            return
        other = [k for k in (want - 1, want + 1, want - 2, want + 2, 0) if k >= 1 and sat(list(F) + [eq(t, const(k))])]
        c.judge(False if other else None, rule_, where, f"a range of {other[:3]} {what} is accepted")
        return
    later = [o for o in outs if raised(I, o) == "ValueError" and size_terms(o.facts, what)]
    c.judge(None if later else False, rule_, where, f"a range of any number of {what} is accepted")


def judge_series(c, I, s, outs, F, v, where):
    cells = {x for x in subterms(v) if x.op == "attr" and x.a[1] in ("cells", "cols", "rows") and "CellRange" in show(x.a[0])[:200]}
    text = [x for x in subterms(v) if x.op == "call" and x.a[0] == "json.loads"]
    if cells:
        judge_size(c, I, s, outs, F, "rows", 366, where, "range-has-366-rows")
        return judge_range(c, I, s, outs, F, v, cells, where)
    if power_cell(v):
        loads = [x for f in F for x in subterms(f) if x.op == "call" and x.a[0] == "json.loads"]
        lens = {x for f in F for x in subterms(f) if x.op == "len" and x.a[0].op == "call" and x.a[0].a[0] == "json.loads"}
        fx = Facts(list(F), I.axiom_hook)
        if any(fx.entails(eq(x, const(366))) for x in lens):
            c.ok("text-has-366-values", where)
        elif lens:
            x = next(iter(lens))
            other = [k for k in (365, 367, 364, 0, 1) if sat(list(F) + [eq(x, const(k))])]
            c.judge(False if other else None, "text-has-366-values", where, f"json text with {other[:3]} values is accepted")
        else:
            # a refusal by anything other than the type of the decoded value?
            later = [o for o in outs if raised(I, o) == "ValueError" and any(len_like(f) for f in o.facts)]
            c.judge(None if later else False, "text-has-366-values", where, "json text of any length is accepted")
        arr = any(f.op == "isinst" or any(y.op == "isinst" for y in subterms(f)) for f in F if any(x.op == "call" and x.a[0] == "json.loads" for x in subterms(f)))
        if loads:
            c.judge(True if arr else False, "text-is-an-array", where, "json text which is not an array is accepted")
        return "text"
    c.judge(False if changed(v, text) else None if weak(v) else False, "power-series-read", where, f"the power becomes {show(v)[:200]}")
    return None


CHANGING = {"sorted", "builtins.sorted", "reversed", "builtins.reversed", "set", "builtins.set", "numpy.sort", "numpy.unique", "numpy.abs", "numpy.round",
            "numpy.flip", "numpy.clip", "numpy.cumsum", "numpy.diff", ".sort_values", ".sort_index", ".drop_duplicates", ".dropna", ".fillna", ".round",
            ".abs", ".cumsum", ".clip", ".diff", ".shift", ".interpolate", ".ffill", ".bfill", ".unique", ".head", ".tail", ".sample"}


def changed(v, core):
    """values of the core go through a function which reorders, drops or replaces some"""
    return any((x.op in ("sorted", "reversed") or x.op == "call" and x.a[0] in CHANGING) and any(y in core for y in subterms(x)) for x in subterms(v))


def len_like(f):
    """a condition on the decoded text which may speak about the number of its values"""
    for x in subterms(f):
        if x.op in ("not", "truth", "isinst", "and", "or", "ext") or x.op == "call" and x.a[0] == "json.loads":
            continue
        if any(y.op == "call" and y.a[0] == "json.loads" for y in subterms(x)) and x.op not in ("exc",):
            return True
    return False


def power_cell(v):
    """the text of the power cell of the row itself"""
    while v.op == "call" and v.a[0] in (".strip", "str"):
        v = v.a[1]
    return v.op in ("at", "cell") and "power" in show(v, ) or v.op == "at" and any(is_str(x) and x.a[1] == "power" for x in subterms(v))


def seq_elem(t):
    """(length, element, index) of a list built element by element"""
    if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "for":
        lvl, n, body = t.a[0].a
        if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit":
            return n, body.a[0].a[0], mk("b", lvl)
    return None


def is_cell_value(t, at):
    """wb[sheet].cell(row=at[0], column=at[1]).value"""
    if not attr_of(t, "value"):
        return None
    k = t.a[0]
    if not (k.op == "call" and k.a[0] == ".cell"):
        return None
    d = {}
    for x in k.a[2:]:
        if isinstance(x, tuple):
            d.update(dict(x))
    r, q = d.get("row", d.get(0)), d.get("column", d.get(1))
    if r is None or q is None:
        return None
    sheet = k.a[1]
    return r is mk("at", at, ZERO) and q is mk("at", at, ONE), sheet


def judge_range(c, I, s, outs, F, v, cells, where):
    src = {x.a[1] for x in cells}
    cr = {x.a[0] for x in cells}
    if len(cr) != 1:
        c.undec("range-values", where, "several ranges")
        return None
    one = [x for x in subterms(v) if seq_elem(x)]
    sheet = None
    res = None
    if src == {"cells"}:
        res = "1"
        judge_size(c, I, s, outs, F, "columns", 1, where, "range-has-at-most-two-columns")
        ok = None
        for x in one:
            n, el, b = seq_elem(x)
            arr = n.a[0] if n.op == "len" else None
            if arr in cells:
                r = is_cell_value(el, mk("at", arr, b))
                if r:
                    ok, sheet = r
                if not ok and (is_cell_value(el, mk("at", arr, sub(sub(n, ONE), b))) or (0,))[0]:
                    ok = False      # last value first
        if v.op == "call" and v.a[0] != "json.dumps":
            ok = ok and None
        if changed(v, cells):
            ok = False
        c.judge(ok, "range-values-in-order", where, f"one column range becomes {show(v)[:200]}")
    elif src in ({"cols"}, {"rows"}):
        res = "2"
        judge_size(c, I, s, outs, F, "columns", 2, where, "range-has-at-most-two-columns")
        transposed = sum(1 for x in subterms(v) if attr_of(x, "T") or x.op == "call" and x.a[0] in (".transpose", "numpy.transpose"))
        ok = None
        for x in one:
            n, el, b = seq_elem(x)
            arr = n.a[0] if n.op == "len" else None
            if arr in cells:
                inner = seq_elem(el)
                if inner:
                    n2, el2, b2 = inner
                    back, back2 = mk("at", arr, sub(sub(n, ONE), b)), sub(sub(n2, ONE), b2)
                    if any((is_cell_value(el2, mk("at", x_, y_)) or (0,))[0] for x_, y_ in ((back, b2), (back, back2), (mk("at", arr, b), back2))):
                        ok = False      # last column or last value first
                        continue
                    r = is_cell_value(el2, mk("at", mk("at", arr, b), b2))
                    if r and n2 is mk("len", mk("at", arr, b)):
                        ok, sheet = r
        if ok is False:
            c.bad("range-values-in-order", where, f"two columns range becomes {show(v)[:200]}")
            return res
        want = 1 if src == {"cols"} else 0
        orient = [dict(x.a[2]).get("orient") for x in subterms(v) if x.op == "call" and x.a[0] == ".to_json" and len(x.a) > 2]
        if ok:
            if transposed % 2 != want:
                ok = False
            elif orient and orient[0] is not const("values"):
                ok = False if orient[0] is None or is_str(orient[0]) else None
        if changed(v, cells):
            ok = False
        c.judge(ok, "range-values-in-order", where, f"two columns range becomes {show(v)[:200]}")
    else:
        c.undec("range-values-in-order", where, show(v)[:200])
        return None
    if sheet is not None:
        sp = [x for x in subterms(sheet) if x.op == "at" and x.a[0].op == "call" and x.a[0].a[0] in (".split", ".partition", ".rsplit")]
        rp = [x for x in subterms(next(iter(cr))) if x.op == "at" and x.a[0].op == "call" and x.a[0].a[0] in (".split", ".partition", ".rsplit")]
        quoted = any(x.op in ("call", "truth", "cmp") and const("'") in subterms(x) or is_str(x) and "'" in str(x.a[1]) for x in subterms(sheet))
        bare = sheet.op == "at" and sheet.a[1].op == "at" and sheet.a[1].a[0].op == "call" and sheet.a[1].a[0].a[0] in (".split", ".partition", ".rsplit")
        c.judge(True if quoted else False if bare else None, "quoted-sheet-name", where, f"a sheet named between quotes is looked up as {show(sheet)[:120]}")
        c.judge(True if sp and rp and sp[0].a[1] is ZERO and rp[0].a[1] in (ONE, const(-1), const(2)) else None, "range-of-the-named-sheet", where, f"cells of {show(sheet)[:120]}")
    return res


@rule("C28", 3, "Power inputs are validated and read from the values column", "abstract interpretation of the reader and the constructor; path conditions at each stored series compared to the required sizes (polyhedra facts)",
      "openpyxl CellRange.size/cells/cols/rows and pandas DataFrame/T/to_json/read_json as documented (trusted).")
def c28(c):
    o_ctor_power(c)
    o_reader(c)
