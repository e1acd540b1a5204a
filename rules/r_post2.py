"""C45: the operations of Plot which select, show and export its data do so with exactly the data asked for"""
from .r_post import *
from . import r_post as rp

PATH, SEP, NROWS, ROWS, COLS = sym("path", "str"), sym("sep", "str"), sym("n", "int"), sym("rows"), sym("cols")
K1, K2 = sym("k1", "str"), sym("k2", "str")
COL, MPL, PLY = rp.COL, rp.MPL, rp.PLY
ALL = ("all",)


def whole(k):
    return k.op == "slice" and all(x is NONE or x is None for x in k.a)


def head_of(k):
    """number of first rows selected by a slice"""
    if k.op == "slice" and k.a[0] in (NONE, ZERO, None) and k.a[2] in (NONE, ONE, None):
        return k.a[1]
    return None


def pair(k):
    if k.op in ("tuple", "vec") and len(k.a) == 2 and k.op == "tuple":
        return k.a
    return k, None


def add(base, rows, cols):
    """selection of a selection"""
    if base is None:
        return None
    r, q = base
    if rows != ALL:
        if r != ALL:
            return None
        r = rows
    if cols != ALL:
        if q != ALL:
            return None
        q = cols
    return r, q


def selection(t):
    """(rows, columns) selected from the data of the Plot, None if the term is something else"""
    if t is DF:
        return ALL, ALL
    if t.op == "at":
        b = selection(t.a[0])
        k = t.a[1]
        if k.op == "slice":
            if whole(k):
                return b
            return add(b, ("head", head_of(k)) if head_of(k) is not None else ("pos", k), ALL)
        return b if all_columns(k) else add(b, ALL, ("label", k))
    if t.op == "loc" and len(t.a) == 3:
        kind = "label" if t.a[0] == "loc" else "pos" if t.a[0] == "iloc" else None
        b = selection(t.a[1])
        if kind is None:
            return None
        rows, cols = pair(t.a[2])
        out = []
        for k in (rows, cols):
            if k is None or whole(k) or kind == "label" and (all_columns(k) or k is mk("attr", DF, "index")):
                out.append(ALL)
            elif kind == "pos" and head_of(k) is not None and not out:
                out.append(("head", head_of(k)))
            else:
                out.append((kind, k))
        return add(b, *out)
    if t.op == "call" and isinstance(t.a[1], T):
        d = dict((str(k), v) for k, v in t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        if t.a[0] == ".copy":
            return selection(t.a[1])
        if t.a[0] == ".head":
            return add(selection(t.a[1]), ("head", d.get("n", d.get("0", const(5)))), ALL)
        if t.a[0] == ".tail":
            return add(selection(t.a[1]), ("tail", d.get("n", d.get("0", const(5)))), ALL)
        if t.a[0] == ".to_frame":
            b = selection(t.a[1])
            if b and b[1] != ALL and b[1][0] in ("label", "pos") and b[1][1].op not in ("vec", "slice") and set(d) <= {"name", "0"} and \
                    all(v is b[1][1] for v in d.values()):
                return b[0], (b[1][0], mk("vec", b[1][1]))
            return None
        if t.a[0] == ".__getitem__" and d:
            return selection(mk("at", t.a[1], list(d.values())[0]))
        if t.a[0] in (".filter", ".reindex") and "items" in d or t.a[0] == ".reindex" and "columns" in d:
            return None
    return None


def all_columns(k):
    while k.op == "call" and k.a[0] in (".tolist", ".to_list", ".copy") and isinstance(k.a[1], T):
        k = k.a[1]
    return k is mk("attr", DF, "columns")


ALTER = {".round", ".dropna", ".fillna", ".sort_index", ".sort_values", ".abs", ".clip", ".drop_duplicates", ".describe", ".resample", ".cumsum", ".diff",
         ".mean", ".sum", ".tail", ".transpose", ".interpolate", ".drop"}


def altered(t):
    """is the table a recognised alteration of the data (and not the data)"""
    if t.op == "call" and t.a[0] == ".reset_index" and isinstance(t.a[1], T) and dict(t.a[2]).get("drop") is TRUE:
        return selection(t.a[1]) is not None
    return selection(t) is not None or t.op == "call" and t.a[0] in ALTER and isinstance(t.a[1], T) and (selection(t.a[1]) is not None or altered(t.a[1])) or \
        t.op == "attr" and t.a[1] == "T" and selection(t.a[0]) is not None


def one_col(sel):
    """a single column, as series or as frame"""
    if sel is None or sel[1] == ALL:
        return sel
    k = sel[1][1]
    return sel[0], (sel[1][0], k.a[0] if k.op == "vec" and len(k.a) == 1 else k)


def recognised(t):
    return selection(t) is not None


def o_select(c):
    state, names = with_data(c)
    keys = lambda I, st: I.new_list(st, [K1, K2])
    vec2 = mk("vec", K1, K2)
    cases = [
        ("__getitem__", "one name", lambda I, st: ([COL], {}), (ALL, ("label", mk("vec", COL)))),
        ("__getitem__", "several names", lambda I, st: ([keys(I, st)], {}), (ALL, ("label", vec2))),
        ("loc", "rows and columns", lambda I, st: ([ROWS, COLS], {}), (("label", ROWS), ("label", COLS))),
        ("loc", "rows only", lambda I, st: ([ROWS], {}), (("label", ROWS), ALL)),
        ("loc", "columns only", lambda I, st: ([], {"columns": COLS}), (ALL, ("label", COLS))),
        ("loc", "list of columns", lambda I, st: ([], {"columns": keys(I, st)}), (ALL, ("label", vec2))),
        ("loc", "nothing", lambda I, st: ([], {}), (ALL, ALL)),
        ("iloc", "rows and columns", lambda I, st: ([ROWS, COLS], {}), (("pos", ROWS), ("pos", COLS))),
        ("iloc", "rows only", lambda I, st: ([ROWS], {}), (("pos", ROWS), ALL)),
        ("iloc", "columns only", lambda I, st: ([], {"columns": COLS}), (ALL, ("pos", COLS))),
        ("iloc", "nothing", lambda I, st: ([], {}), (ALL, ALL)),
        ("head", "first rows", lambda I, st: ([NROWS], {}), (("head", NROWS), ALL)),
    ]
    for m, what, mkargs, want in cases:
        con = "Plot." + m
        with c.ob("exactly-the-selection", con):
            I = c.interp()
            where = c.where(I, con)
            st = state()
            args, kw = mkargs(I, st)
            n = 0
            for s in c.run(I, con, st, [PLOT] + args, kw):
                r = raised(I, s)
                if r:
                    # refusing what pandas does not give as a valid DataFrame is C39
                    if not s.facts and not st_weak(s):
                        c.bad("exactly-the-selection", where, f"{what}: raises {r}")
                    continue
                n += 1
                v = ret(s)
                t = frame_of(I, s, v, names)
                if t is None:
                    v = I.snap(s, v)
                    c.judge(None if weak(v) else False, "selection-is-a-plot", where, f"{what}: returns {show(v)[:100]}")
                    continue
                c.check(v is not PLOT, "selection-is-a-plot", where, f"{what}: returns the object itself")
                got = selection(t)
                c.judge(got == want or (False if altered(t) else None), "exactly-the-selection", where, f"{what}: {show(t)[:150]}")
            if not n:
                c.undec("exactly-the-selection", where, f"{what}: no normal outcome")


def o_views(c):
    state, names = with_data(c)
    cols, index = mk("attr", DF, "columns"), mk("attr", DF, "index")
    for m, want in (("columns", cols), ("index", index), ("freq", mk("attr", index, "freq")), ("DataFrame", DF)):
        con = "Plot." + m
        with c.ob("views-of-the-data", con):
            I = c.interp()
            where = c.where(I, con)
            for s in c.run(I, con, state(), [PLOT]):
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "views-of-the-data", where, f"raises {raised(I, s)}")
                    continue
                t = I.snap(s, ret(s))
                if m == "columns":
                    while t.op == "call" and t.a[0] in (".tolist", ".to_list", ".copy", "list") and isinstance(t.a[1], T):
                        t = t.a[1]
                    while t.op == "call" and t.a[0] == "list" and t.a[1] is None:
                        t = list(dict(t.a[2]).values())[0]
                    if t.op in ("list", "tolist") and len(t.a) == 1:
                        t = t.a[0]
                    if t.op == "attr" and t.a[1] in ("values", "array"):
                        t = t.a[0]
                    if t is DF or t.op == "call" and t.a[0] == ".keys" and t.a[1] is DF:
                        t = cols
                c.judge(t is want or (False if t.op in ("attr", "vec", "c", "at") and selection(t) != (ALL, ALL) or t.op in ("sorted", "set", "reversed") or t.op == "call" and t.a[0] in ("sorted", "set", "reversed") else None),
                        "views-of-the-data", where, f"{m} is {show(t)[:100]}")
    con = "Plot.columns"
    with c.ob("columns-renamed", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, state(), [PLOT, COLS], setter=True):
            if raised(I, s):
                c.judge(None if st_weak(s) else False, "columns-renamed", where, f"raises {raised(I, s)}")
                continue
            t = frame_of(I, s, PLOT, names)
            ok = t is not None and t.op == "setattr" and t.a[1] == "columns" and t.a[0] is DF and t.a[2] is COLS
            if t is DF or t is None:
                ev = [e for e in flat_events(s.events) if e.kind == "setattr" and e.name == "columns"]
                ok = any(I.snap(s, e.args["value"]) is COLS for e in ev) if ev else False
            if not ok and t is not None and t.op == "setattr" and t.a[1] == "columns" and t.a[2] is COLS and strip_copy(t.a[0]) is DF:
                ok = True
            if not ok and t is not None and t.op == "call" and t.a[0] in (".set_axis", ".rename"):
                ok = None
            c.judge(ok, "columns-renamed", where, f"data: {show(t)[:100] if t is not None else None}")


def o_tables(c):
    """to_csv and to_excel write all the data with their index, to the given path"""
    state, names = with_data(c)
    for m, args, sep in (("to_csv", [PATH, SEP], SEP), ("to_csv", [PATH], const(",")), ("to_excel", [PATH], None)):
        con = "Plot." + m
        with c.ob("whole-table-written", con):
            I = c.interp()
            where = c.where(I, con)
            for s in c.run(I, con, state(), [PLOT] + args):
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "whole-table-written", where, f"raises {raised(I, s)}")
                    continue
                ws = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name in ("to_csv", "to_excel", "to_json", "to_pickle", "to_parquet")]
                if not ws:
                    other = [e for e in flat_events(s.events) if e.kind in ("call", "mcall")]
                    c.judge(None if other or st_weak(s) else False, "whole-table-written", where, "nothing is written")
                    continue
                c.check(len(ws) == 1, "whole-table-written", where, f"{len(ws)} tables are written")
                e = ws[0]
                recv = e.extra if isinstance(e.extra, T) else e.recv
                a = {k: I.snap(s, v) for k, v in e.args.items() if isinstance(v, T)}
                c.check(e.name == m, "whole-table-written", where, f"written with {e.name}")
                sel = selection(I.snap(s, recv))
                c.judge(sel == (ALL, ALL) or (False if altered(I.snap(s, recv)) else None), "whole-table-written", where, f"writes {show(recv)[:100]}")
                for k in ("index", "header"):
                    v = a.pop(k, TRUE)
                    c.judge(v is TRUE or (False if v is FALSE else None), "index-and-columns-written", where, f"{k}={show(v)[:40]}")
                p = a.pop("path_or_buf", a.pop("excel_writer", a.pop("0", None)))
                if p is not None and p.op == "call" and p.a[0] == "pandas.ExcelWriter":
                    d = dict((str(k), v) for k, v in p.a[2])
                    p = d.get("path", d.get("0"))
                    md = d.get("mode", d.get("2"))
                    c.check(md is None or md is const("w"), "whole-table-written", where, f"mode {show(md)[:20] if md is not None else ''}")
                if p is None and e.res is not None and any(x.kind in ("call", "mcall") and x is not e for x in flat_events(s.events)):
                    c.judge(None, "written-to-the-given-path", where, "the text of the table is written by other means")
                else:
                    c.judge(p is PATH or (None if p is not None and PATH in subterms(p) and weak(p) else False), "written-to-the-given-path", where, f"to {show(p)[:80] if p is not None else 'nowhere'}")
                if sep is not None:
                    g = a.pop("sep", a.pop("1", const(",")))
                    c.judge(g is sep or (None if weak(g) else False), "given-separator", where, f"separator {show(g)[:40]}")
                md = a.pop("mode", const("w"))
                c.check(md is const("w"), "whole-table-written", where, f"mode {show(md)[:20]}")
                for k in ("float_format", "columns", "decimal", "na_rep", "startrow", "startcol"):
                    v = a.pop(k, NONE)
                    c.judge(v is NONE or (v is const(".") if k == "decimal" else v is ZERO if k.startswith("start") else v is const("") if k == "na_rep" else False), "whole-table-written", where, f"{k}={show(v)[:40]}")


def o_drawn(c):
    """line and area plots show the data of the chosen columns, all by default, with the engine asked for"""
    state, names = with_data(c)
    for m in ("line", "area"):
        for eng in (MPL, PLY, const("Matplotlib"), const("Plotly")):
            for what, key, want in (("all columns", None, (ALL, ALL)), ("one column", COL, (ALL, ("label", COL))), ("several columns", "keys", (ALL, ("label", mk("vec", K1, K2))))):
                con = "Plot." + m
                with c.ob("chosen-columns-drawn", con):
                    I = c.interp()
                    where = c.where(I, con)
                    st = state()
                    st.assume(not_(eq(COL, const(""))))
                    kw = {"engine": eng}
                    if key is not None:
                        kw["columns"] = I.new_list(st, [K1, K2]) if key == "keys" else key
                    for s in c.run(I, con, st, [PLOT], kw):
                        if raised(I, s):
                            c.judge(None if st_weak(s) else False, "chosen-columns-drawn", where, f"{what}, {show(eng)}: raises {raised(I, s)}")
                            continue
                        dr = kinds(I, s)
                        if len(dr) != 1:
                            c.judge(None if dr or st_weak(s) or any(e.kind in ("call", "mcall") for e in flat_events(s.events)) else False, "chosen-columns-drawn", where, f"{what}, {show(eng)}: {len(dr)} plots")
                            continue
                        lib, kind, t = dr[0]
                        got = one_col(selection(t))
                        c.judge(got == want or (False if altered(t) else None), "chosen-columns-drawn", where, f"{what}, {show(eng)}: draws {show(t)[:120]}")
                        c.judge(kind == m or (None if kind is None else False), "kind-of-plot", where, f"{what}, {show(eng)}: draws a plot of kind {kind}")
                        c.check(lib == ("plotly" if "plotly" in show(eng).lower() else "matplotlib"), "engine-asked-for", where, f"{what}, {show(eng)}: drawn with {lib}")
    for m, args in (("line", []), ("area", []), ("shadow", []), ("load_duration_curve", [COL])):
        con = "Plot." + m
        with c.ob("other-engines-refused", con):
            I = c.interp()
            where = c.where(I, con)
            for s in c.run(I, con, state(), [PLOT] + args, {"engine": const("bokeh")}):
                c.judge(is_exc(I, s, "ValueError") or (None if st_weak(s) else False), "other-engines-refused", where, f"engine 'bokeh': {raised(I, s) or 'accepted'}")


    eng = sym("engine", "str")
    con = "Plot.line"
    with c.ob("other-engines-refused", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, state(), [PLOT], {"engine": eng}):
            if raised(I, s):
                continue
            low = [x for f in s.facts for x in subterms(f) if x is not eng and eng in subterms(x) and x.op == "call" and x.a[0] in (".lower", ".casefold", ".upper")
                   or x.op in ("lower", "upper", "strlower")]
            names_ = [const(n) for n in ("matplotlib", "plotly", "MATPLOTLIB", "PLOTLY")]
            free = [x for x in low or [eng] if sat(list(s.facts) + [not_(eq(x, n)) for n in names_])]
            c.judge(len(free) < len(low or [eng]) or (None if not low else False), "other-engines-refused", where, f"another engine is accepted: {fact_text(s)[:120]}")


def kinds(I, s):
    """(library, kind, data) of the plots drawn as a whole"""
    out = []
    for e in flat_events(s.events):
        a = {k: I.snap(s, v) for k, v in e.args.items() if isinstance(v, T)} if e.args else {}
        if e.kind == "call" and e.name in ("plotly.express.line", "plotly.express.area"):
            out.append(("plotly", e.name.rsplit(".", 1)[1], a.get("data_frame", a.get("0", NONE))))
        elif e.kind == "mcall" and e.name == "plot":
            recv = e.extra if isinstance(e.extra, T) else e.recv
            k = a.get("kind", const("line"))
            out.append(("matplotlib", k.a[1] if k.op == "c" else None, I.snap(s, recv)))
        elif e.kind == "mcall" and e.name in ("line", "area"):
            recv = e.extra if isinstance(e.extra, T) else e.recv
            if isinstance(recv, T) and recv.op == "attr" and recv.a[1] == "plot":
                out.append(("matplotlib", e.name, I.snap(s, recv.a[0])))
    return out


@rule("C45", 20, "Plot selects, shows and exports exactly the data asked for", "abstract interpretation of every selecting, drawing and exporting operation of Plot; the selected rows and columns compared in a canonical form, "
      "the arguments of the pandas and plotting calls compared", "pandas selection, to_csv, to_excel and the plotting functions behave as documented (trusted).")
def c45(c):
    o_select(c)
    o_views(c)
    o_tables(c)
    o_drawn(c)
