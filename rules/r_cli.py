"""C34, C35: the command line"""
import ast

from .r_post import *
from . import calen

NSP = sym("ns", "obj:Namespace")
MAIN = "ramp.cli.main"
FLAGS = {"-i": "fname_path", "-o": "ofname_path", "-n": "num_days", "-y": "years", "--start-date": "date_start", "--end-date": "date_end", "--ext": "extension", "-p": "parallel"}
YEAR_EXT = sym("ext", "str")
PARA = sym("parallel")


def options(c, module="ramp.cli"):
    """flag -> {keyword: syntax} of the options defined in the module of the command line, read from its syntax tree"""
    out = {}
    mod = c.repo.modules.get(module)
    tree = getattr(mod, "tree", None)
    if tree is None:
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            kw = {k.arg: k.value for k in n.keywords if k.arg}
            for f in names:
                out[f] = dict(kw, __names=names, __line=n.lineno)
    return out


def dest_of(o, flag):
    if flag in o:
        d = o[flag].get("dest")
        if isinstance(d, ast.Constant):
            return d.value
        if d is None:
            long = [x for x in o[flag]["__names"] if x.startswith("--")]
            return (long or o[flag]["__names"])[0].lstrip("-").replace("-", "_")
    return FLAGS[flag]


def run_main(c, vals, o, extra=None):
    """outcomes of main for the given values of the options"""
    def start(st, I):
        v = {dest_of(o, f): (I.new_list(st, x) if isinstance(x, list) else x) for f, x in vals.items()}
        for k, x in v.items():
            st.fields[(NSP, k)] = x
        st.fields[(NSP, "__dict__")] = I.new_dict(st, [(const(k), x) for k, x in v.items()])
        return v

    st = St()

    def parse(I, st, base, args, kw, node):
        return [(st, NSP)]

    def vars_(I, st, d, node):
        return [(st, I.new_dict(st, [(const(k), st.fields[(NSP, k)]) for k in order]))]

    def run(I, st, env, node):
        a = {k: I.snap(st, v) for k, v in env.items()}
        r = mk("call", "profiles", a.get("fname", NONE))
        I.event(st, "call", "run", args=a, res=r, node=node)
        return [(st, r)]

    stubs = {"m:parse_args": parse, "ext:builtins.vars": vars_, "ramp.ramp_run.run_usecase": run}
    stubs.update(extra or {})
    I = c.interp(stubs)
    order = list(start(st, I))
    return I, list(c.run(I, MAIN, st, []))


def values(nf=1, n=None, o=None, ds=None, de=None, ys=None):
    L = lambda p, k, t: NONE if k is None else [sym(f"{p}{i}", t) for i in range(k)]
    return {"-i": L("f", nf, "str"), "-o": L("o", o, "str"), "-n": L("n", n, "int"), "-y": L("y", ys, "int"), "--start-date": ds or NONE, "--end-date": de or NONE,
            "--ext": YEAR_EXT, "-p": PARA}


def date_parts(t):
    """(year, month, day) of a date"""
    if t.op == "call" and t.a[0] in ("datetime.date", "datetime.datetime", "pandas.Timestamp"):
        d = dict(t.a[2])
        if {"year", "month", "day"} <= set(d):
            if all(d[k] is ZERO for k in d if k not in ("year", "month", "day")):
                return d["year"], d["month"], d["day"]
        return None
    if t.op == "call" and t.a[0] in (".date",) and isinstance(t.a[1], T):
        return date_parts(t.a[1])
    if t.op == "call" and t.a[0] == ".replace" and isinstance(t.a[1], T):
        d = dict(t.a[2])
        if set(d) <= {"year", "month", "day"}:
            return tuple(d.get(k, mk("attr", t.a[1], k)) for k in ("year", "month", "day"))
    if t.op == "call" and t.a[0] in ("datetime.date.fromisoformat",):
        x = next(iter(dict(t.a[2]).values()), None)
        if x is not None and x.op == "strcat" and len(x.a) == 2 and x.a[0].op == "fmt" and is_str(x.a[1]):
            m = re.fullmatch(r"-(\d\d)-(\d\d)", x.a[1].a[1])
            if m:
                return x.a[0].a[0], const(int(m[1])), const(int(m[2]))
    return None


def same_date(got, want):
    """want: a term, NONE or (year, month, day)"""
    if isinstance(want, T):
        if got is want:
            return True
        p = date_parts(got)
        if want is NONE or got is NONE or p is not None or not weak(got):
            return False if p != tuple(mk("attr", want, k) for k in ("year", "month", "day")) else True
        return None
    p = date_parts(got)
    if p is not None:
        return all(a is b for a, b in zip(p, want)) or (None if any(weak(x) for x in p) else False)
    return None if weak(got, mk("call", "datetime.date")) and got is not NONE else False


DS, DE = sym("date_start", "obj:date"), sym("date_end", "obj:date")


def yr(x):
    return mk("attr", x, "year")


def o_options(c, o):
    con = MAIN
    with c.ob("options", con):
        I = c.interp()
        where = c.where(I, con)
        for f in ("-i", "-o", "-n", "-y"):
            if f not in o:
                c.undec("options", where, f"option {f} not found")
                continue
            na = o[f].get("nargs")
            ok = isinstance(na, ast.Constant) and na.value in ("+", "*")
            c.judge(ok or (None if na is not None and not isinstance(na, ast.Constant) else False), "options", where, f"{f} does not take a list of values")
        for f in ("-n", "-y"):
            if f in o:
                ty_ = o[f].get("type")
                c.judge(isinstance(ty_, ast.Name) and ty_.id == "int" or (False if ty_ is None or isinstance(ty_, ast.Name) and ty_.id in ("str", "float") else None), "options", where, f"{f} are not integers")
        for f in ("-i", "-o", "-n", "-y", "--start-date", "--end-date"):
            if f in o:
                d = o[f].get("default")
                c.judge(d is None or isinstance(d, ast.Constant) and d.value is None or (None if not isinstance(d, (ast.Constant, ast.List, ast.Tuple)) else False), "options", where, f"{f} has a default")


def o_default(c, o, flag, want, rule, const_=None):
    """the default (and the value of the bare flag) of an option"""
    with c.ob(rule, MAIN):
        where = c.where(c.interp({}), MAIN)
        if flag not in o:
            c.undec(rule, where, f"option {flag} not found")
            return
        a = o[flag].get("action")
        act = a.value if isinstance(a, ast.Constant) else None
        d = o[flag].get("default")
        got = d.value if isinstance(d, ast.Constant) else None if d is None and not act else {"store_true": False, "store_false": True}.get(act) if d is None else Ellipsis
        if want is False:
            ok = got is not Ellipsis and not got
        else:
            ok = got == want
        c.judge(ok or (None if got is Ellipsis else False), rule, where, f"the default of {flag} is {got!r}")
        if const_ is not None:
            k = o[flag].get("const")
            got = k.value if isinstance(k, ast.Constant) else {"store_true": True, "store_false": False}.get(act) if k is None else Ellipsis
            c.judge(got is const_ or (None if got is Ellipsis else False), rule, where, f"{flag} stands for {got!r}")


def runs_of(s):
    return [e for e in flat_events(s.events) if e.kind == "call" and e.name == "run"]


def run_paths(evs, most=64):
    """(conditions, simulations) of every way through the events"""
    paths = [((), ())]
    for e in evs:
        if e.kind == "if":
            g = e.args["cond"]
            subs = [((g,) + p, r) for p, r in run_paths(e.sub[0])] + [((not_(g),) + p, r) for p, r in run_paths(e.sub[1])]
        elif e.kind in ("loop", "loopexit"):
            subs = run_paths(e.sub)
        elif e.kind == "call" and e.name == "run":
            subs = [((), (e,))]
        else:
            continue
        if all(not r for _, r in subs):
            continue
        paths = [(p + q, r + z) for p, r in paths for q, z in subs]
        if len(paths) > most:
            break
    return paths


def not_dir(s):
    """paths of the special mode 'one file per month' are left out"""
    for l in lits_of(s):
        if l.op == "truth" and l.a[0].op == "call" and "isdir" in str(l.a[0].a[0]) or l.op == "truth" and l.a[0].op == "call" and l.a[0].a[0] in (".is_dir",):
            return False
    return True


def o_dates(c, o):
    con = MAIN
    scen = []
    for n in (None, 1):
        for ds, de in ((NONE, NONE), (DS, NONE), (NONE, DE), (DS, DE)):
            if n:
                want = (ds, de)
            else:
                want = (ds if ds is not NONE else NONE if de is NONE else (yr(DE), ONE, ONE), de if de is not NONE else NONE if ds is NONE else (yr(DS), const(12), const(31)))
            scen.append((f"{'-n, ' if n else ''}{'start' if ds is DS else ''} {'end' if de is DE else ''} date", values(2, n, None, ds, de), want))
    for k in (1, 2, 3):
        y = [sym(f"y{i}", "int") for i in range(k)]
        scen.append((f"{k} years", values(2, None, None, ys=k), ((y[0], ONE, ONE), (y[-1], const(12), const(31)))))
    for nm, vals, want in scen:
        with c.ob("dates-completed", con):
            I, outs = run_main(c, vals, o)
            where = c.where(I, con)
            n = 0
            for s in outs:
                if not not_dir(s):
                    continue
                r = raised(I, s)
                if r:
                    c.judge(None if st_weak(s) and lits_of(s) else False, "dates-completed", where, f"({nm}) raises {r} under {fact_text(s)}")
                    continue
                for e in runs_of(s):
                    n += 1
                    for k, w in (("date_start", want[0]), ("date_end", want[1])):
                        g = e.args.get(k, NONE)
                        c.judge(same_date(g, w), "dates-completed", where, f"({nm}) {k} is {show(g)[:150]}")
            if not n:
                c.judge(None, "dates-completed", where, f"({nm}) no simulation")


def o_exclusive(c, o):
    con = MAIN
    for k in (1, 2):
        for n in (None, 1):
            for ds, de in ((DS, NONE), (NONE, DE), (DS, DE)):
                with c.ob("years-exclude-dates", con):
                    I, outs = run_main(c, values(1, n, None, ds, de, k), o)
                    where = c.where(I, con)
                    nm = f"{k} years with{' start' if ds is DS else ''}{' end' if de is DE else ''} date"
                    for s in outs:
                        r = raised(I, s)
                        c.judge(is_exc(I, s, "ValueError") if r else False, "years-exclude-dates", where, f"({nm}) {r or 'accepted'}")
                        c.check(not runs_of(s), "refused-before-any-simulation", where, f"({nm}) simulated before the error")


def o_pairing(c, o, tier):
    con = MAIN
    top = 4 if tier == "thorough" else 3
    for nf in range(1, top + 1):
        for n in [None] + list(range(1, top + 1)):
            for of in [None] + list(range(1, top + 1)):
                ok = (n in (None, 1, nf)) and of in (None, nf)
                with c.ob("values-belong-to-files", con):
                    I, outs = run_main(c, values(nf, n, of), o)
                    where = c.where(I, con)
                    nm = f"{nf} files, {n or 'no'} numbers of days, {of or 'no'} outputs"
                    for s in outs:
                        r = raised(I, s)
                        R = runs_of(s)
                        if not ok:
                            c.judge(is_exc(I, s, "ValueError") if r else False, "numbers-must-match", where, f"({nm}) {r or 'accepted'}")
                            c.check(not R, "refused-before-any-simulation", where, f"({nm}) simulated before the error")
                            continue
                        if r:
                            c.judge(None if st_weak(s) else False, "numbers-must-match", where, f"({nm}) raises {r}")
                            continue
                        c.ok("numbers-must-match", where)
                        if len(R) != nf:
                            c.judge(False if not any(e.loops for e in R) else None, "values-belong-to-files", where, f"({nm}) {len(R)} simulations")
                            continue
                        for i, e in enumerate(R):
                            want = {"fname": sym(f"f{i}", "str"), "num_days": NONE if n is None else sym("n0" if n == 1 else f"n{i}", "int"), "ofname": NONE if of is None else sym(f"o{i}", "str"),
                                    "parallel": PARA, "plot": TRUE}
                            for k, w in want.items():
                                g = e.args.get(k, NONE)
                                c.judge(g is w or (None if weak(g) else False), "values-belong-to-files", where, f"({nm}) {k} of run {i} is {show(g)[:80]}")


def o_nothing(c, o):
    con = MAIN
    with c.ob("no-input-no-simulation", con):
        I, outs = run_main(c, values(None), o)
        where = c.where(I, con)
        for s in outs:
            c.check(not runs_of(s), "no-input-no-simulation", where, "simulated without input file")


@rule("C34", 100, "Command line dates, years and days are completed consistently", "abstract interpretation of main for every combination of given and missing options; arguments of each simulation compared in normal form",
      "argparse stores the values of an option under its destination (trusted); numbers of values up to 3 (thorough: 4).")
def c34(c):
    o = options(c)
    o_options(c, o)
    o_dates(c, o)
    o_exclusive(c, o)
    o_pairing(c, o, c.tier)
    o_nothing(c, o)


# ------------------------------------------------------------------ C35
F0, Y0, O0 = sym("f0", "str"), sym("y0", "int"), sym("o0", "str")


def isdir_lit(s):
    for l in lits_of(s):
        neg = l.op == "not"
        x = l.a[0] if neg else l
        while x.op in ("truth", "b2i"):
            x = x.a[0]
        if x.op == "call" and (x.a[0] in ("os.path.isdir", ".is_dir")) and F0 in subterms(x):
            return not neg
        if x.op == "call" and x.a[0] in ("os.path.isfile", ".is_file") and F0 in subterms(x):
            return neg
    return None


def is_listing(t):
    return t.op == "call" and t.a[0] in ("os.listdir", "os.scandir", "glob.glob", ".glob", ".iterdir")


def listing_len(s):
    """terms 'number of input files found' which occur in the conditions of the path"""
    out = []
    for l in lits_of(s):
        for x in subterms(l):
            if x.op == "len" and any(is_listing(y) for y in subterms(x)) and x not in out:
                out.append(x)
    return out


def digits_of(t, k):
    """is t the number made of the digits of (the last part of) k? True / False / None"""
    if t.op not in ("int", "call"):
        return None if weak(t) else False
    if t.op == "call" and t.a[0] not in ("int", "builtins.int"):
        return None
    x = t.a[0] if t.op == "int" else t.a[-1][0][1] if isinstance(t.a[-1], tuple) and t.a[-1] else None
    if x is None:
        return None
    if x.op == "call" and x.a[0] == ".join":
        src = next((v for z in x.a if isinstance(z, tuple) for _, v in z), None)
        if src is None:
            return None
        sel = [y for y in subterms(src) if y.op == "ext" and "isdigit" in y.a[0] or y.op == "call" and y.a[0] in (".isdigit", ".isnumeric", ".isdecimal")]
        if not sel:
            return None
        if src.op == "call" and src.a[0] == "builtins.filter":
            base = dict(src.a[2]).get("seq")
        else:
            ats = {y.a[0] for y in subterms(src) if y.op == "at" and y.a[1].op in ("b", "%i", "draw")}
            base = ats.pop() if len(ats) == 1 else None
        return None if base is None else base
    return None


def o_months(c, o):
    con = MAIN
    for of in (O0, NONE):
        with c.ob("one-file-per-month", con):
            vals = values(1, None, None, ys=1)
            vals["-o"] = [O0] if of is O0 else NONE
            I, outs = run_main(c, vals, o)
            where = c.where(I, con)
            nm = "output folder given" if of is O0 else "no output folder"
            good = 0
            for s in outs:
                d = isdir_lit(s)
                r = raised(I, s)
                if d is False:
                    continue
                R = runs_of(s)
                lens = listing_len(s)
                if d is None:
                    c.judge(None, "one-file-per-month", where, f"({nm}) outcome not depending on the input being a directory")
                    continue
                if r:
                    c.check(not R, "refused-before-any-simulation", where, f"({nm}) simulated before the error")
                    c.judge(is_exc(I, s, "ValueError") or (False if any(is_exc(I, s, x) for x in ("NameError", "UnboundLocalError")) else None), "exactly-12-files", where, f"({nm}) raises {r}")
                    if not lens:
                        c.judge(None, "exactly-12-files", where, f"({nm}) raises {r} under {fact_text(s)}")
                    for x in lens[:1]:
                        c.judge(excludes(s, x, 12), "12-files-not-refused", where, f"({nm}) {r} under {fact_text(s)}")
                    continue
                good += 1
                paths = run_paths(s.events)
                if not R or any(len(rs) != 1 or not rs[0].loops for _, rs in paths):
                    c.judge(None if R else False, "each-month-simulated", where, f"({nm}) {len(R)} simulations")
                    continue
                for k, (guard, rs) in enumerate(paths):
                    judge_month_run(c, I, s, rs[0], where, nm, of, guard, not k)
            if not good:
                c.judge(None, "each-month-simulated", where, f"({nm}) never simulated")


def excludes(s, x, k):
    """do the conditions of the path exclude that x is k? True / False / None"""
    t = sub(x, const(k))
    for l in lits_of(s):
        if l.op == "not" and l.a[0].op == "eq0" and l.a[0].a[0] in (t, neg(t)):
            return True
    s2 = s.copy() if hasattr(s, "copy") else s.fork()
    s2.assume(mk("eq0", t))
    if s2.dead if hasattr(s2, "dead") else False:
        return True
    try:
        return bool(Facts(s2.facts).infeasible()) if hasattr(Facts, "infeasible") else None
    except Exception:
        return None


def entails_eq(s, x, k):
    t = sub(x, const(k))
    for l in lits_of(s):
        if l.op == "eq0" and l.a[0] in (t, neg(t)):
            return True
        if l.op in ("eq", "aeq") and x in l.a and const(k) in l.a:
            return True
    return None


def neg(t):
    return mul(const(-1), t)


def ordered(L, elem):
    """(verdict, text): is the list of input files ordered by the number in their names?"""
    if L.op in ("reversed", "slice"):
        return False, "reversed or cut"
    if L.op != "sorted":
        if L.op in ("seq", "vec") or is_listing(L):
            return False, "not sorted"
        return None, show(L)[:100]
    src, key = L.a[0], L.a[1] if len(L.a) > 1 else NONE
    rev = L.a[2] if len(L.a) > 2 else FALSE
    if rev not in (FALSE, ZERO, NONE, 0, False, None):
        return (False if rev in (TRUE, ONE, 1, True) else None), "in decreasing order"
    if key in (NONE, None):
        return False, "sorted as text"
    ks = [x for x in subterms(key) if x.op in ("%k", "key", "param") or x.op == "sym" and x.a[0].startswith("%")]
    base = digits_of(key, None)
    part = key.a[0] if key.op == "int" and isinstance(key.a[0], T) else key.a[-1][0][1] if key.op == "call" and key.a[0] in ("int", "builtins.int") and isinstance(key.a[-1], tuple) and key.a[-1] else None
    if part is not None and part.op in ("at", "slice") and isinstance(digits_of(mk("int", part.a[0]), None), T):
        return False, f"sorted by {show(key)[:150]}"
    if base is True or base is False or base is None:
        if base is None and key.op == "int":
            return None, show(key)[:100]
        if base is None and key.op == "call" and key.a[0] in ("int", "builtins.int"):
            return None, show(key)[:100]
        if key.op in ("mod", "floordiv", "idiv") and isinstance(digits_of(key.a[0], None), T):
            return False, f"sorted by {show(key)[:150]}"
        if any(x.op == "call" and x.a[0].startswith("re.") or x.op in ("int",) for x in subterms(key)):
            return None, show(key)[:100]
        return False, f"sorted by {show(key)[:100]}"
    names_only = joined(src)
    whole = base in ks
    last = base.op == "at" and base.a[0].op == "call" and base.a[0].a[0] in ("os.path.split", ".split", ".rsplit") and base.a[1] is const(-1)
    stem = base.op in ("at", "attr") and not whole and any(k in subterms(base) for k in ks)
    if whole:
        return (True, "") if names_only is False else (False, "sorted by the digits of the whole path") if names_only is True else (None, "")
    if last:
        return True, ""
    if base.op == "call" and base.a[0] == "os.path.dirname" or base.op == "at" and base.a[0].op == "call" and base.a[0].a[0] == "os.path.split" and base.a[1] is ZERO:
        return False, "sorted by the digits of their directory"
    if stem and any(x.op == "call" and x.a[0] in ("os.path.split",) or x.op == "attr" and x.a[1] in ("name", "stem") for x in subterms(base)):
        inner = [x for x in subterms(base) if x.op == "at" and x.a[0].op == "call" and x.a[0].a[0] == "os.path.split"]
        if inner and all(x.a[1] is ZERO for x in inner):
            return False, f"sorted by the digits of {show(base)[:100]}"
        return True, ""
    return None, show(base)[:100]


def joined(src):
    """are the sorted texts whole paths?"""
    for x in subterms(src):
        if x.op == "call" and x.a[0] in ("os.path.join", "glob.glob"):
            return True
        if x.op == "strcat" and F0 in subterms(x):
            return True
    if any(is_listing(x) and x.a[0] == "os.listdir" for x in subterms(src)):
        return False
    return None


def with_extension(L):
    """are only the files with the extension counted?"""
    if any(is_listing(x) and "glob" in x.a[0] for x in subterms(L)):
        return True if YEAR_EXT in subterms(L) else None
    for x in subterms(L):
        if x.op == "call" and x.a[0] == ".endswith" and YEAR_EXT in subterms(x):
            neg_ = any(y.op == "not" and x in subterms(y) for y in subterms(L))
            return not neg_ or None
    for x in subterms(L):
        # somewhere in the name is not at its end
        if x.op == "in" and x.a[0] is YEAR_EXT and not any(y.op == "call" and y.a[0] in ("os.path.splitext", ".split", ".rsplit", ".partition", ".rpartition") for y in subterms(x.a[1])):
            return False
        if x.op == "call" and x.a[0] in (".find", ".count", ".index") and x.a[1] is not YEAR_EXT and YEAR_EXT in subterms(x):
            return False
    return True if YEAR_EXT in subterms(L) else False


def judge_month_run(c, I, s, e, where, nm, of, guard=(), first=True):
    fn = e.args.get("fname", NONE)
    ats = [x for x in subterms(fn) if x.op == "at" and any(is_listing(y) for y in subterms(x.a[0]))]
    ats = [x for x in ats if not any(x is not y and x in subterms(y) for y in ats)] or ats
    if not ats:
        c.judge(None if weak(fn, mk("call", "os.path.join")) else False, "each-month-simulated", where, f"({nm}) simulates {show(fn)[:150]}")
        return
    top = ats[0]
    L, i = top.a
    full = joined(L)
    paths = [top] if full is not False else []
    if full is not True:
        paths.append(mk("call", "os.path.join", NONE, (("00", F0), ("01", top))))
    c.judge(fn in paths or (None if L in subterms(fn) and (fn is not top or full is None) else False), "each-month-simulated", where, f"({nm}) simulates {show(fn)[:150]}")
    v, text = ordered(L, top)
    c.judge(v, "ordered-by-number", where, f"({nm}) the input files are {text}")
    c.judge(with_extension(L), "files-with-the-extension", where, f"({nm}) {show(L)[:150]}")
    lens = listing_len(s)
    ok = any(entails_eq(s, x, 12) for x in lens)
    c.judge(True if ok else (False if not lens or not st_opaque(lens, s) else None), "exactly-12-files", where, f"({nm}) simulated under {fact_text(s)}")
    # month
    ds, de = date_parts(e.args.get("date_start", NONE)), e.args.get("date_end", NONE)
    m = add(i, ONE)
    g = e.args.get("date_start", NONE)
    if ds is None:
        c.judge(None if weak(g, mk("call", "datetime.date")) and g is not NONE else False, "first-day-of-the-month", where, f"({nm}) starts {show(g)[:150]}")
    else:
        c.judge(ds == (Y0, m, ONE) or (None if any(weak(x, i) for x in ds) else False), "first-day-of-the-month", where, f"({nm}) starts {show(g)[:200]}")
    c.judge(last_day(de, m, ds, i, guard), "last-day-of-the-month", where, f"({nm}) ends {show(de)[:250]}")
    n = e.args.get("num_days", NONE)
    c.judge(n is NONE or (None if weak(n) else False), "whole-month", where, f"({nm}) number of days {show(n)[:60]}")
    c.judge(e.args.get("parallel") is PARA or (None if weak(e.args.get("parallel", NONE)) else False), "given-mode", where, f"({nm}) parallel is {show(e.args.get('parallel', NONE))[:60]}")
    c.judge(e.args.get("plot") is FALSE or (None if weak(e.args.get("plot", NONE)) else False), "profiles-of-the-month-returned", where, f"({nm}) plot is {show(e.args.get('plot', NONE))[:60]}")
    if first:
        judge_year(c, I, s, (L, fn, i), where, nm, of)


def st_opaque(lens, s):
    return any(x.op == "call" and not is_listing(x) and x.a[0] not in (".endswith", "os.path.join", ".join", "builtins.filter", "os.path.split") for l in lens for x in subterms(l))


def last_day(t, m, ds, i, guard=()):
    """decided by the calendar where the term (and the condition under which it is used) only depends on the year and on the month"""
    months = [{i: calen.F(k)} for k in range(12)]
    v, _ = calen.same_for_all_years(t, lambda y, e: calen.minutes(y, e[i] + 1, calen.calendar.monthrange(y, int(e[i]) + 1)[1]), Y0, months, guard)
    return v if v is not None else last_day_form(t, m, ds)


def last_day_form(t, m, ds):
    p = date_parts(t)
    if p is None:
        if t is NONE or is_num(t):
            return False
        # first day of the next month minus one day is no month for December
        return None
    y, mm, d = p
    if y is not Y0 or mm is not m:
        return None if weak(y) or weak(mm, m) else False
    if is_num(d):
        return False
    if d.op == "at" and d.a[0].op in ("vec", "tuple", "seq") and all(is_num(x) or x.op == "lit" for x in d.a[0].a):
        return False  # a table without leap years
    if d.op == "attr" and d.a[1] in ("days_in_month", "daysinmonth") and d.a[0].op == "call" and d.a[0].a[0] in ("pandas.Period", "pandas.Timestamp"):
        x = dict(d.a[0].a[2])
        v = x.get("value", x.get("ts_input", x.get("0")))
        if v is not None:
            q = date_parts(v)
            if q is not None:
                return True if q[0] is Y0 and q[1] is m else False if not weak(q[0]) and not weak(q[1], m) else None
        if {"year", "month"} <= set(x):
            return x["year"] is Y0 and x["month"] is m or None
        return None
    if d.op == "at" and d.a[0].op == "call" and d.a[0].a[0] == "calendar.monthrange":
        x = dict(d.a[0].a[2])
        vs = [x[k] for k in sorted(x)]
        if d.a[1] not in (ONE, const(-1)):
            return False
        if "year" in x:
            return x["year"] is Y0 and x.get("month") is m or (None if weak(x["year"]) or weak(x.get("month", NONE), m) else False)
        return vs == [Y0, m] or (None if any(weak(v, m) for v in vs) else False)
    if not weak(d, m):
        return False
    return None


def year_stamp(t):
    """text after the year of a moment of the year y0"""
    if t.op == "strcat" and t.a and t.a[0].op == "fmt" and t.a[0].a[0] is Y0 and len(t.a) == 2 and is_str(t.a[1]):
        return t.a[1].a[1]
    p = date_parts(t)
    if p and p[0] is Y0 and is_num(p[1]) and is_num(p[2]):
        return f"-{show(p[1])}-{show(p[2])}"
    if t.op == "call" and t.a[0] in ("datetime.datetime", "pandas.Timestamp"):
        d = dict(t.a[2])
        if d.get("year") is Y0 and all(is_num(v) for k, v in d.items() if k != "year"):
            return f"-{show(d['month'])}-{show(d['day'])} {show(d.get('hour', ZERO))}:{show(d.get('minute', ZERO))}"
        v = next(iter(d.values()), None)
        return year_stamp(v) if v is not None else None
    return None


def judge_year(c, I, s, L, where, nm, of):
    ws = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name == "to_csv"]
    frames = []
    for e in ws:
        t = I.snap(s, e.recv)
        p = e.args.get("path_or_buf", NONE)
        frames.append((e, t, I.snap(s, p) if isinstance(p, T) else NONE))
    if not frames:
        c.judge(False, "year-written", where, f"({nm}) nothing is written")
        return
    mins = [(e, t, p) for e, t, p in frames if not any(x.op == "call" and x.a[0] == ".resample" for x in subterms(t))]
    hours = [(e, t, p) for e, t, p in frames if any(x.op == "call" and x.a[0] == ".resample" for x in subterms(t))]
    c.judge(len(mins) == 1 or (False if not mins else None), "minute-resolution-written", where, f"({nm}) {len(mins)} files at minute resolution")
    c.judge(len(hours) >= 1 or False, "hourly-resolution-written", where, f"({nm}) {len(hours)} files at hourly resolution")
    for e, t, p in frames:
        judge_folder(c, p, where, nm, of)
    for e, t, p in mins:
        judge_minutes(c, t, L, where, nm)
    frame = mins[0][1] if mins else None
    if hours:
        judge_hours(c, [t for _, t, _ in hours], frame, where, nm)
    # created if missing
    made = [x for x in flat_events(s.events) if x.kind == "call" and x.name in ("os.mkdir", "os.makedirs") or x.kind == "mcall" and x.name == "mkdir"]
    missing = any(l.op == "not" and l.a[0].op == "truth" and l.a[0].a[0].op == "call" and l.a[0].a[0].a[0] in ("os.path.exists", "os.path.isdir") and F0 not in subterms(l) for l in lits_of(s))
    present = any(l.op == "truth" and l.a[0].op == "call" and l.a[0].a[0] in ("os.path.exists", "os.path.isdir") and F0 not in subterms(l) for l in lits_of(s))
    if missing:
        c.check(bool(made), "folder-created", where, f"({nm}) a missing output folder is not created")
        for x in made:
            d = next((v for v in x.args.values() if isinstance(v, T)), NONE)
            if of is O0:
                c.judge(d is O0 or (None if O0 in subterms(d) else False), "folder-created", where, f"({nm}) creates {show(d)[:100]}")
    elif present:
        c.check(not made or all(truthy(x.args.get("exist_ok")) for x in made), "folder-created", where, f"({nm}) an existing output folder is created again")
    elif not made:
        c.judge(False if of is O0 else None, "folder-created", where, f"({nm}) a missing output folder is not created")
    else:
        c.judge(True if all(truthy(x.args.get("exist_ok")) for x in made) else None, "folder-created", where, f"({nm}) the folder is created without looking whether it exists")


def truthy(v):
    return v is TRUE


def judge_folder(c, p, where, nm, of):
    if p is NONE or not isinstance(p, T):
        c.bad("written-to-the-output-folder", where, f"({nm}) no path")
        return
    first = None
    if p.op == "call" and p.a[0] == "os.path.join":
        d = dict(p.a[2])
        ks = sorted(d)
        first = d[ks[0]]
        for k in ks[1:]:
            c.judge(is_str(d[k]) and not d[k].a[1].startswith("/") or (False if F0 in subterms(d[k]) or is_str(d[k]) else None), "written-to-the-output-folder", where, f"({nm}) written to {show(p)[:150]}")
    if of is O0:
        c.judge(first is O0 or (None if O0 in subterms(p) else False), "written-to-the-output-folder", where, f"({nm}) written to {show(p)[:150]}")
    else:
        cur = first is not None and (first in (mk("ext", "os.path.curdir"), mk("ext", "os.curdir"), const(".")) or any(x.op == "ext" and "curdir" in x.a[0] or x.op == "call" and x.a[0] in ("os.getcwd", "pathlib.Path.cwd") or x is const(".") for x in subterms(first)))
        c.judge(cur or (True if is_str(p) and "/" not in p.a[1] else False if F0 in subterms(p) or any(x.op == "sym" and x.a[0] == "ramp.cli" for x in subterms(p)) else None), "written-to-the-output-folder", where, f"({nm}) written to {show(p)[:150]}")


def judge_minutes(c, t, L, where, nm):
    d = dict(t.a[2]) if t.op == "call" and t.a[0] in ("pandas.DataFrame", "pandas.Series") else None
    if d is None:
        c.judge(None if weak(t, mk("call", "pandas.DataFrame")) or t.op != "call" else False, "series-of-the-year", where, f"({nm}) writes {show(t)[:150]}")
        return
    data, ix = d.get("data", d.get("0", NONE)), d.get("index", NONE)
    c.judge(year_data(data, L), "months-in-order", where, f"({nm}) holds {show(data)[:250]}")
    x = dict(ix.a[2]) if ix.op == "call" and ix.a[0] == "pandas.date_range" else None
    if x is None:
        c.judge(None if ix is not NONE and weak(ix) else False, "every-minute-of-the-year", where, f"({nm}) index {show(ix)[:150]}")
        return
    a, b, f = x.get("start"), x.get("end"), x.get("freq")
    sa, sb = year_stamp(a) if a is not None else None, year_stamp(b) if b is not None else None
    ca, cb = moment(a, lambda y, e: calen.minutes(y, 1, 1)), moment(b, lambda y, e: calen.minutes(y, 12, 31, 23, 59))
    if sa is None and ca is not None:
        c.check(ca, "every-minute-of-the-year", where, f"({nm}) index from {show(a)[:150]}")
    elif sa is None:
        c.undec("every-minute-of-the-year", where, f"({nm}) index {show(ix)[:200]}")
    else:
        c.check(re.fullmatch(r"-0?1-0?1(\s+0?0:0?0(:00)?)?", sa) is not None, "every-minute-of-the-year", where, f"({nm}) index from y{sa}")
    kept = {k: x[k] for k in ("closed", "inclusive") if x.get(k, NONE) is not NONE}
    half = set(kept.values()) == {const("left")}
    if half:
        # up to the first moment of the next year, without it
        cb = moment(b, lambda y, e: calen.minutes(y + 1, 1, 1))
    if b is not None:
        if cb is not None:
            c.check(cb, "every-minute-of-the-year", where, f"({nm}) index up to {show(b)[:150]}")
        elif sb is None or half:
            c.judge(None if half or weak(b) else False, "every-minute-of-the-year", where, f"({nm}) index up to {show(b)[:150]}")
        else:
            c.check(re.fullmatch(r"-12-31[\sT]+23:59(:\d+)?", sb) is not None, "every-minute-of-the-year", where, f"({nm}) index up to y{sb}")
    elif "periods" not in x:
        c.bad("every-minute-of-the-year", where, f"({nm}) index {show(ix)[:150]}")
    else:
        per = x["periods"]
        n = moment(per, lambda y, e: 1440 * (366 if calen.calendar.isleap(y) else 365))
        c.judge(False if is_num(per) else n, "every-minute-of-the-year", where, f"({nm}) {show(per)[:100]} moments")
    c.judge(f is not None and is_str(f) and f.a[1] in ("min", "T", "1min", "1T", "60s", "60S", "1 min") or (None if f is not None and not is_str(f) else False), "every-minute-of-the-year", where, f"({nm}) index at {show(f) if f is not None else 'daily'} resolution")
    c.judge(not kept or half or set(kept.values()) == {const("both")} or None, "every-minute-of-the-year", where, f"({nm}) index {show(ix)[:150]}")


def moment(t, want):
    """is it this moment (or number) in every year? True / False / None"""
    return calen.same_for_all_years(t, want, Y0)[0] if isinstance(t, T) and Y0 in subterms(t) else None


def year_data(v, L):
    L, fn, i = L
    v = unwrap(v)
    if v.op == "call" and v.a[0] in ("numpy.hstack", "numpy.concatenate", "numpy.ravel"):
        return None
    if v.op in ("flatten", "reshape"):
        v = unwrap(v.a[0])
    if v.op == "concat" and len(v.a) == 1 and v.a[0].op == "for":
        lvl, n, body = v.a[0].a
        el = mk("call", "profiles", subst(fn, {i: mk("b", lvl)}))
        if body.op == "seq" and len(body.a) == 1:
            x = body.a[0].a[0]
            while x.op in ("flatten", "reshape", "squeeze") or x.op == "call" and x.a[0] in (".flatten", ".ravel", "numpy.ravel", ".squeeze"):
                x = x.a[0] if x.op != "call" else x.a[1]
                if not isinstance(x, T):
                    return None
            if x.op == "call" and x.a[0] == "reordered" or x.op == "attr" and x.a[1] == "T":
                # minutes first, days second
                return False if x.op == "attr" or x.a[2] is const("F") else None
            if x.op == "call" and x.a[0] == "profiles":
                return n is mk("len", L) and x is el or (False if not weak(n, L) else None)
            return None if weak(x, el) else False
        return None
    if v.op in ("reversed", "slice", "sorted"):
        return False
    return False if not weak(v, mk("call", "profiles")) and v.op not in ("concat", "seq") else None


AGG = {"mean": ".mean", "max": ".max", "min": ".min"}


def judge_hours(c, ts, frame, where, nm):
    got = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "setitem" and len(x.a) >= 4 and is_str(x.a[2]) and x.a[2].a[1] in AGG:
                got.setdefault(x.a[2].a[1], x.a[3])
            elif x.op == "dict" and isinstance(x.a[0], tuple):
                for e in x.a[0]:
                    if isinstance(e, tuple) and is_str(e[0]) and e[0].a[1] in AGG and isinstance(e[1], T):
                        got.setdefault(e[0].a[1], e[1])
    aggs = [x for t in ts for x in subterms(t) if x.op == "call" and x.a[0] in (".agg", ".aggregate", ".apply", ".ohlc")]
    rs = [x for t in ts for x in subterms(t) if x.op == "call" and x.a[0] == ".resample"]
    for x in rs:
        f = next((v for k, v in x.a[2] if k in ("rule", "0")), NONE)
        c.judge(is_str(f) and f.a[1] in ("h", "H", "1h", "1H", "60min", "60T") or (None if not is_str(f) else False), "hourly", where, f"({nm}) resampled at {show(f)}")
        base = x.a[1]
        while base.op == "at" or base.op == "call" and base.a[0] == ".copy":
            base = base.a[0] if base.op == "at" else base.a[1]
        c.judge(base is frame or None if frame is not None else None, "hourly-of-the-year", where, f"({nm}) resamples {show(base)[:100]}")
    if aggs:
        names = {x.a[1] for t in aggs for x in subterms(t) if is_str(x)}
        c.judge({"mean", "max", "min"} <= names or None, "mean-max-min", where, f"({nm}) {show(aggs[0])[:150]}")
        return
    for k, f in AGG.items():
        v = got.get(k)
        if v is None:
            heads = {x.a[0] for t in ts for x in subterms(t) if x.op == "call" and x.a[0] in AGG.values()}
            c.judge(False if f not in heads else None, "mean-max-min", where, f"({nm}) no hourly {k}")
            continue
        while v.op == "at" or v.op == "attr":
            v = v.a[0]
        c.judge(v.op == "call" and v.a[0] == f and v.a[1] in rs or (False if v.op == "call" and v.a[0] in set(AGG.values()) | {".median", ".sum", ".first", ".last", ".std"} else None), "mean-max-min", where, f"({nm}) {k} is {show(v)[:100]}")


@rule("C35", 12, "One input file per month: each month is simulated with its own file", "abstract interpretation of main in the monthly mode, for every content of the directory; ordering key, dates of each simulation and written tables compared in normal form",
      "pandas date_range, resample and to_csv behave as documented; the profiles of a month have one value per minute (C02).")
def c35(c):
    o = options(c)
    o_default(c, o, "--ext", "xlsx", "xlsx-by-default")
    o_months(c, o)
