"""C36, C38-C41, C43: running an input file, post-processing and Plot"""
from .r_io import *

PF = sym("fname", "str")
PLOT = sym("plot", "obj:Plot")
DF = sym("df", "ext:pandas.DataFrame")
UCS = sym("uc", "obj:UseCase")


def log_stub(name, res=NONE):
    """records the call and its arguments, nothing else"""
    def f(I, st, env, node):
        I.event(st, "call", name, args={k: I.snap(st, v) for k, v in env.items()}, res=res, node=node)
        return [(st, res)]
    return f


def called(s, name):
    return [e for e in flat_events(s.events) if e.kind == "call" and e.name == name]


def same_or(c, v, want, rule_, where, detail, *allowed):
    """v is want; a value with uninterpreted parts is undecided"""
    return c.judge(v is want or (None if v is None or weak(v, want, *allowed) else False), rule_, where, detail)


# ------------------------------------------------------------------ C36
RUNNERS = {"subprocess.run", "subprocess.check_call", "subprocess.call", "subprocess.Popen", "subprocess.check_output", "os.system", "os.popen", "runpy.run_path", "os.execv",
           "builtins.exec", "builtins.eval", "os.spawnv", "os.startfile"}


def suffix_lits(s, suf):
    """what the path says about the file name ending with a suffix: True / False / None"""
    for f in s.facts:
        for l in flat_and(f):
            neg = l.op == "not"
            x = l.a[0] if neg else l
            while x.op in ("truth", "b2i"):
                x = x.a[0]
            if x.op == "call" and x.a[0] == ".endswith" and x.a[1] is PF and const(suf) in [y for z in x.a[2] for y in z if isinstance(y, T)]:
                return not neg
            if x.op in ("eq", "aeq") and const(suf) in x.a:
                o = [y for y in x.a if y is not const(suf)][0]
                if PF in subterms(o) and (o.op in ("slice", "at") or any(y.op == "call" and "splitext" in str(y.a[0]) or y.op == "attr" and y.a[1] == "suffix" for y in subterms(o))):
                    return not neg
    return None


def wrong_type_test(s):
    """the path depends on the file name only through constant texts it contains or ends with"""
    lits = []
    for f in s.facts:
        for l in flat_and(f):
            x = l
            while x.op in ("not", "truth", "b2i"):
                x = x.a[0]
            if PF in subterms(x):
                lits.append(x)
    if any(x.op == "call" and x.a[0] in ("os.path.exists", "os.path.isfile") for x in lits):
        lits = [x for x in lits if not (x.op == "call" and x.a[0] in ("os.path.exists", "os.path.isfile"))]
    return all((x.op == "call" and x.a[0] in (".endswith", ".startswith") and x.a[1] is PF) or (x.op == "in" and is_str(x.a[0]) and x.a[1] is PF) for x in lits)


def exists_lit(s):
    for f in s.facts:
        for l in flat_and(f):
            neg = l.op == "not"
            x = l.a[0] if neg else l
            while x.op in ("truth", "b2i"):
                x = x.a[0]
            if x.op == "call" and x.a[0] in ("os.path.exists", "os.path.isfile", ".exists", ".is_file") and PF in subterms(x):
                return not neg
    return None


def o_run_usecase(c):
    con = "ramp.ramp_run.run_usecase"
    A = {k: sym(k) for k in "ofname num_days date_start date_end parallel".split()}
    PR = sym("profiles", "nd")
    stubs = {"UseCase": log_stub("UseCase", UCS), "UseCase.initialize": log_stub("init"), "UseCase.load": log_stub("load"),
             "UseCase.generate_daily_load_profiles": log_stub("gen", PR), "ramp.post_process.post_process.old_post_process": log_stub("post")}
    for plot in (TRUE, FALSE):
        with c.ob("run-by-type", con):
            I = c.interp(stubs)
            where = c.where(I, con)
            seen = set()
            for s in c.run(I, con, St(), [PF], dict(A, plot=plot)):
                r = raised(I, s)
                x, p, ex = suffix_lits(s, ".xlsx"), suffix_lits(s, ".py"), exists_lit(s)
                sims = called(s, "gen") + called(s, "load") + called(s, "UseCase")
                runs = [e for e in flat_events(s.events) if e.kind == "call" and e.name in RUNNERS]
                kind = "xlsx" if x is True else "py" if p is True else "other" if x is False and p is False else None
                seen.add(kind)
                if kind is None:
                    wrong = wrong_type_test(s)
                    acts = bool(sims or runs) if not (sims and runs) else True
                    c.judge(False if wrong and acts else None,"run-by-type", where, f"a file is {'simulated' if sims else 'executed' if runs else 'refused'} under: {fact_text(s)}")
                    continue
                if kind == "xlsx":
                    c.check(not runs, "code-not-run", where, f"an .xlsx file is executed by {[e.name for e in runs]}")
                    if r:
                        c.judge(None if st_weak(s) else False, "xlsx-simulated", where, f"raises {r}")
                        continue
                    simulate_verdict(c, I, s, A, PR, plot, where)
                elif kind == "py":
                    c.check(not sims, "run-by-type", where, "a .py file is loaded as a table")
                    if r:
                        if ex is True and any(x.op == "attr" and x.a[1] == "returncode" for f in s.facts for x in subterms(f)):
                            continue  # the failure of the program
                        c.judge(is_exc(I, s, "FileNotFoundError") and ex is False or (None if ex is None else False), "missing-file-refused", where, f"raises {r} for a file which {'exists' if ex else 'does not exist'}")
                        continue
                    if ex is not True:
                        c.judge(None if ex is None and any(e.name == "runpy.run_path" for e in runs) else False, "missing-file-refused", where, "a .py file which does not exist is accepted")
                        continue
                    c.judge(len(runs) == 1, "py-executed-once", where, f"executed by {[e.name for e in runs]}")
                    for e in runs:
                        run_verdict(c, I, s, e, where)
                else:
                    c.check(not runs and not sims, "run-by-type", where, "a file of another type is run")
                    c.judge(is_exc(I, s, "TypeError") if r else False, "other-types-refused", where, f"a file of another type: {r or 'accepted'}")
            for k in ("xlsx", "py", "other"):
                c.judge(k in seen or (None if None in seen else False), "run-by-type", where, f"no path for {k} files")


def simulate_verdict(c, I, s, A, PR, plot, where):
    new, ini, load, gen, post = (called(s, n) for n in ("UseCase", "init", "load", "gen", "post"))
    if len(new) != 1 or len(load) != 1 or len(gen) != 1 or len(ini) > 1:
        c.judge(False, "xlsx-simulated", where, f"{len(new)} use cases, {len(load)} loads, {len(gen)} simulations")
        return
    c.ok("xlsx-simulated", where)
    order = [e.name for e in flat_events(s.events) if e.kind == "call" and e.name in ("UseCase", "init", "load", "gen", "post")]
    c.check(order.index("load") < order.index("gen") and ("init" not in order or order.index("init") < order.index("gen")), "loaded-before-simulated", where, f"order {order}")
    n = new[0].args
    for k, w in (("date_start", A["date_start"]), ("date_end", A["date_end"]), ("parallel_processing", A["parallel"])):
        later = [e for e in flat_events(s.events) if e.kind == "set" and e.recv is UCS]
        c.judge(n.get(k) is w or (None if later or weak(n.get(k, NONE)) else False), "given-dates-days-and-mode", where, f"{k} of the use case is {show(n.get(k, NONE))[:80]}")
    nd = ini[0].args.get("num_days", NONE) if ini else NONE
    other = gen[0].args.get("days", NONE) is not NONE or any(e.kind == "set" and e.recv is UCS for e in flat_events(s.events))
    c.judge(nd is A["num_days"] or (None if other or weak(nd) else False), "given-dates-days-and-mode", where, f"number of days of the use case is {show(nd)[:80]}")
    c.judge(load[0].args.get("filename") is PF, "given-file-loaded", where, f"loads {show(load[0].args.get('filename', NONE))[:80]}")
    c.check(gen[0].args.get("cases", NONE) is NONE, "given-file-loaded", where, "several cases are simulated")
    flat = gen[0].args.get("flat")
    if plot is TRUE:
        if len(post) != 1:
            direct = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name.startswith("to_")]
            c.judge(None if direct else False, "profiles-exported", where, f"{len(post)} exports of the profiles")
            return
        a = post[0].args
        c.judge(a.get("Profiles_list") is PR and flat is FALSE or (None if a.get("Profiles_list") is not PR and weak(a.get("Profiles_list", NONE)) else False), "profiles-exported", where,
                f"exports {show(a.get('Profiles_list', NONE))[:80]} of flat={show(flat)}")
        c.judge(a.get("fname") is PF and a.get("ofname") is A["ofname"] or (None if weak(a.get("fname", NONE)) or weak(a.get("ofname", NONE)) else False), "exported-to-its-path", where,
                f"input name {show(a.get('fname', NONE))[:60]}, output name {show(a.get('ofname', NONE))[:60]}")
    else:
        v = I.snap(s, ret(s))
        part = v.op in ("at", "slice", "loc") or weak(v) is False
        c.judge(v is PR and flat is FALSE or (None if v is not PR and PR in subterms(v) and not part else False), "profiles-returned", where, f"returns {show(v)[:80]} of flat={show(flat)}")


def run_verdict(c, I, s, e, where):
    d = {k: (I.snap(s, v) if isinstance(v, T) else v) for k, v in e.args.items()}
    a = d.get("args", d.get("0", NONE))
    if e.name not in ("subprocess.run", "subprocess.check_call", "subprocess.call"):
        c.judge(None if e.name in ("runpy.run_path", "subprocess.Popen", "subprocess.check_output") else False, "executed-by-the-running-interpreter", where, f"executed by {e.name}")
        return
    items = list(a.a) if a.op in ("vec", "tuple") else None
    if a.op == "seq" and all(x.op == "lit" for x in a.a):
        items = [x.a[0] for x in a.a]
    exe = mk("ext", "sys.executable")
    ok = None if items is None else (len(items) == 2 and items[0] is exe and (items[1] is PF or items[1].op == "call" and items[1].a[0] in ("os.path.abspath", "os.path.normpath") and PF in subterms(items[1])))
    if ok is False and items and items[0] is exe and PF in items:
        ok = None if len(items) > 2 and any(is_str(x) and x.a[1].startswith("-") for x in items) else False
    if items is None and (is_str(a) or a.op in ("strcat", "fmt") or a is PF):
        ok = False
    c.judge(ok, "executed-by-the-running-interpreter", where, f"executes {show(a)[:120]}")
    c.check(d.get("shell", FALSE) is FALSE, "no-shell", where, "a shell is used")
    if e.name == "subprocess.run":
        chk = d.get("check", FALSE)
        used = any(x.op == "attr" and x.a[1] == "returncode" or x.op == "call" and x.a[0] == ".check_returncode" for f in s.facts for x in subterms(f)) or any(
            e2.kind == "mcall" and e2.name == "check_returncode" for e2 in flat_events(s.events))
        # it depends on the file name whether a failure is noticed
        depends = all(x.op in ("not", "truth", "and", "or", "c", "in", "eq", "strcat") or x is PF or x.op == "call" and x.a[0] in (".startswith", ".endswith") and PF in subterms(x)
                      for x in subterms(chk)) and sat(list(s.facts) + [not_(chk)])
        c.judge(chk is TRUE or used or (None if chk.op not in ("c", "true", "false") and not depends else False), "failure-is-an-error", where, "a failing .py file is not an error")
    elif e.name == "subprocess.call":
        used = any(e.res is not None and e.res in subterms(f) for f in s.facts)
        c.judge(None if used else False, "failure-is-an-error", where, "a failing .py file is not an error")
    else:
        c.ok("failure-is-an-error", where)


P_LIST = sym("P", "list")


def series_ok(v, src, I):
    """is v the concatenation of all the profiles of the list, in order"""
    v = unwrap(v)
    if v.op == "concat":
        segs = [x for x in v.a if not (x.op in ("vec", "seq") and not x.a)]
        if len(segs) == 1:
            x = segs[0]
            if x.op == "star":
                return True if unwrap(x.a[0]) is src else None
            if x.op == "for":
                lvl, n, body = x.a
                el = mk("at", src, mk("b", lvl))
                if n is mk("len", src) and body.op == "seq" and len(body.a) == 1:
                    y = body.a[0]
                    z = y.a[0]
                    if y.op == "star":
                        z = unwrap(z)
                        if z is el:
                            return True
                        return False if not weak(z) else None
                return False if not weak(n) else None
        return None if any(x.op not in ("for", "star", "lit") for x in segs) else False
    if v.op in ("flatten", "ravel") and unwrap(v.a[0]) is src:
        return True
    if v.op == "reshape" and unwrap(v.a[0]) is src:
        return True if flat_shape(v, src) else None
    if v.op == "call" and v.a[0] in ("numpy.concatenate", "numpy.hstack", "numpy.ravel", ".ravel", ".flatten"):
        args = [x for x in v.a[1:2] if isinstance(x, T)] + [y for z in v.a[2:] for y in [q[1] for q in z] if isinstance(y, T)]
        if any(unwrap(x) is src for x in args):
            return True
        return None
    return False if not weak(v) or rewritten(v) or any(y.op == "call" and y.a[0] in (".resample", ".head", ".cumsum", ".dropna", ".drop_duplicates") for y in subterms(v)) else None


def flat_shape(v, src):
    shape = v.a[1:]
    return any(x is const(-1) for x in shape) or any(isinstance(x, T) and const(-1) in subterms(x) for x in shape)


def unwrap(v):
    while v.op == "call" and v.a[0] in ("numpy.array", "numpy.asarray", ".copy", "builtins.list", ".to_numpy", "numpy.copy") or v.op in ("nparray", "tolist"):
        x = [y for y in v.a if isinstance(y, T)]
        if not x:
            x = [y for z in v.a if isinstance(z, tuple) for _, y in z if isinstance(y, T)]
        if not x:
            return v
        v = x[0]
    return v


def o_exported(c, content, path):
    """what is written to the output file, and where"""
    con = "ramp.post_process.post_process.old_post_process"
    of = sym("ofname", "str")
    for given in (of, NONE):
        with c.ob("results-written", con):
            I = c.interp()
            where = c.where(I, con)
            n = 0
            for s in c.run(I, con, St(), [P_LIST, PF, given]):
                r = raised(I, s)
                if r:
                    c.judge(None if st_weak(s) else False, "results-written", where, f"raises {r}")
                    continue
                n += 1
                ws = [e for e in flat_events(s.events) if (e.kind == "mcall" and e.name in ("to_csv", "tofile")) or (e.kind == "call" and e.name in ("numpy.savetxt", "builtins.open", "numpy.save"))]
                if len(ws) != 1:
                    c.judge(False if not ws else None, "results-written", where, f"{len(ws)} files are written")
                    continue
                e = ws[0]
                if e.name != "to_csv":
                    c.undec("results-written", where, f"written by {e.name}")
                    continue
                md = e.args.get("mode")
                md = I.snap(s, md) if isinstance(md, T) else const("w")
                leaves = [md] if md.op != "ite" else [x for x in md.a[1:]]
                c.judge(not any(is_str(x) and x.a[1][:1] in ("a", "r", "x") for x in leaves), "results-replace-older-ones", where, f"the file is opened with mode {show(md)[:80]}")
                p = e.args.get("path_or_buf", NONE)
                p = I.snap(s, p) if isinstance(p, T) else NONE
                if path:
                    if given is of:
                        keep = {"os.path.abspath", "os.path.normpath", "os.path.expanduser", "os.fspath", "pathlib.Path", "builtins.str", "str"}
                        around = {x.a[0] for x in subterms(p) if x.op == "call"}
                        c.judge(p is of or (None if of in subterms(p) and around <= keep else False), "given-output-path-used", where, f"written to {show(p)[:150]}")
                    else:
                        consts = {x.a[1] for x in subterms(p) if is_str(x)}
                        named = has_name(p)
                        res = any("results" in x for x in consts)
                        c.judge(True if named and res else None if p.op == "sym" else False, "default-output-path", where, f"written to {show(p)[:200]}")
                        whole_name(c, p, where)
                if content:
                    t = I.snap(s, e.recv)
                    d = dict(t.a[2]) if t.op == "call" and t.a[0] in ("pandas.DataFrame", "pandas.Series") else None
                    fmt_ = {k: I.snap(s, v) for k, v in e.args.items() if k in ("float_format", "columns", "chunksize", "decimal", "index", "header") and isinstance(v, T)}
                    c.judge(False if fmt_.get("float_format", NONE) is not NONE and not weak(fmt_["float_format"]) else None if any(fmt_.get(k, NONE) is not NONE and weak(fmt_[k]) for k in fmt_) else True,
                            "file-holds-the-series", where, f"values are written as {show(fmt_.get('float_format', NONE))[:60]}")
                    if d is None:
                        c.judge(False if not weak(t, mk("call", ".to_frame")) or rewritten(t) or "call(.resample" in show(t) else None, "file-holds-the-series", where, f"writes {show(t)[:150]}")
                        continue
                    v = d.get("data", d.get(0, NONE))
                    c.judge(series_ok(v, P_LIST, I), "file-holds-the-series", where, f"writes {show(v)[:200]}")
            if not n:
                c.undec("results-written", where, "no normal outcome")


def has_name(p):
    """the value depends on the last part of the input file name"""
    if p is PF:
        return True
    if p.op == "call" and p.a[0] == "os.path.dirname":
        return False
    if p.op == "at" and p.a[0].op == "call" and p.a[0].a[0] == "os.path.split" and p.a[1] is ZERO:
        return False

    def parts(x):
        for y in x:
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                yield from parts(y)
    return any(has_name(x) for x in parts(p.a))


def whole_name(c, p, where):
    """the name of the input file is not cut in the default path: two input files of one folder with different names get different paths"""
    cut = []
    for x in subterms(p):
        if x.op == "at" and x.a[0].op == "call" and x.a[0].a[0] in (".split", ".rsplit", ".partition", ".rpartition") and PF in subterms(x):
            sep = [y for z in x.a[0].a[2:] for _, y in z]
            if const("/") in sep or const("\\") in sep or any(y.op == "ext" for y in sep):
                continue
            cut.append(x)
        if x.op == "slice" and PF in subterms(x) or x.op == "at" and x.a[0] is PF:
            cut.append(x)
    if not cut:
        c.ok("default-path-holds-the-whole-name", where)
        return
    for x in cut:
        # up to the last dot is the name without its type, anything else loses a part of the name
        h = x.a[0]
        last = h.op == "call" and h.a[0] in (".rsplit", ".rpartition") and x.a[1] is ZERO
        c.judge(True if last else None if x.op == "slice" else False, "default-path-holds-the-whole-name", where, f"the name is cut: {show(x)[:150]}")


@rule("C36", 8, "Each input file is run according to its type and exported to its own path", "abstract interpretation of run_usecase and of the export; effects (simulation, process, file) of each path compared",
      "endswith on the file name decides its type; subprocess.run with check raises if the program fails (trusted).")
def c36(c):
    o_run_usecase(c)
    o_exported(c, True, True)
    from .r_cli import o_default, options
    o_default(c, options(c), "-p", False, "serial-unless-asked", True)


# ------------------------------------------------------------------ C40
def o_formatting(c):
    con = "ramp.post_process.post_process.Profile_formatting"
    cases = [("any number of profiles", None), ("three profiles", [sym(f"p{i}", "nd") for i in range(3)]), ("one profile", [sym("p0", "nd")])]
    for nm, items in cases:
        with c.ob("views-of-profiles", con):
            I = c.interp()
            where = c.where(I, con)
            st = St()
            src = P_LIST if items is None else I.new_list(st, items)
            outs = c.run(I, con, st, [src])
            for s in outs:
                r = raised(I, s)
                if r:
                    c.judge(None if st_weak(s) else False, "views-of-profiles", where, f"({nm}) raises {r}")
                    continue
                v = I.snap(s, ret(s))
                if v.op != "tuple" or len(v.a) != 3:
                    c.judge(None if weak(v) else False, "views-of-profiles", where, f"({nm}) returns {show(v)[:150]}")
                    continue
                avg, kw, ser = v.a
                judge_avg(c, avg, items, where, nm)
                judge_kw(c, kw, items, where, nm)
                if items is None:
                    c.judge(series_ok(ser, P_LIST, I), "series-in-order", where, f"({nm}) series is {show(ser)[:200]}")
                else:
                    x = unwrap(ser)
                    ok = None
                    if x.op == "concat":
                        parts = [unwrap(y.a[0]) if y.op == "star" else unwrap(y) for y in x.a if not (y.op in ("vec", "seq") and not y.a)]
                        ok = parts == items or (None if any(weak(y) for y in parts) else False)
                    elif len(items) == 1 and x is items[0]:
                        ok = True
                    elif not weak(x):
                        ok = None if x.op in ("flatten", "reshape") else False
                    c.judge(ok, "series-in-order", where, f"({nm}) series is {show(ser)[:200]}")


def judge_avg(c, avg, items, where, nm):
    n = mk("len", P_LIST) if items is None else const(len(items))
    if items is None:
        total = [x for x in subterms(avg) if x.op == "sum"]
        want = None
        for x in total:
            if len(x.a) == 3 and x.a[1] is n and x.a[2] is mk("at", P_LIST, mk("b", x.a[0])):
                want = div(x, n)
        if avg.op in ("mean", "mean1") or avg.op == "call" and avg.a[0] in ("numpy.mean", ".mean"):
            ok = mean_of(avg, P_LIST)
        else:
            ok = want is not None and avg is want or (None if weak(avg) else False)
        c.judge(ok, "average-is-sum-over-number", where, f"({nm}) average is {show(avg)[:200]}")
        return
    want = ZERO
    for p in items:
        want = add(want, p)
    want = div(want, n)
    if avg is want:
        ok = True
    elif avg.op in ("mean", "mean1", "call"):
        ok = None
    else:
        ok = None if weak(avg) else False
    c.judge(ok, "average-is-sum-over-number", where, f"({nm}) average is {show(avg)[:200]}")


def mean_of(t, src):
    args = [unwrap(x) for x in t.a if isinstance(x, T)] + [unwrap(y) for z in t.a if isinstance(z, tuple) for k, y in z if isinstance(y, T)]
    d = {k: y for z in t.a if isinstance(z, tuple) for k, y in z}
    if src in args and (d.get("axis") is ZERO or len(t.a) > 1 and t.a[-1] is ZERO):
        return True
    return None if weak(t) else False


def judge_kw(c, kw, items, where, nm):
    th = const(1000)
    if items is None:
        ok = None
        x = unwrap(kw)
        if x.op == "seq" and len(x.a) == 1 and x.a[0].op == "for":
            lvl, n, body = x.a[0].a
            el = mk("at", P_LIST, mk("b", lvl))
            if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit":
                ok = n is mk("len", P_LIST) and body.a[0].a[0] is div(el, th) or (None if weak(body.a[0].a[0]) or weak(n) else False)
        elif not weak(x):
            ok = False
            if x is div(P_LIST, th):
                ok = None
    else:
        x = unwrap(kw)
        parts = list(x.a) if x.op in ("vec", "tuple") else [y.a[0] for y in x.a] if x.op == "seq" and all(y.op == "lit" for y in x.a) else None
        want = [div(p, th) for p in items]
        ok = None if parts is None else parts == want or (None if any(weak(y) for y in parts) else False)
    c.judge(ok, "kw-profiles", where, f"({nm}) kW profiles are {show(kw)[:200]}")


@rule("C40", 6, "Average, kW and series views of the profiles", "abstract interpretation of the formatting and of the export; returned values compared in normal form, for any number of profiles",
      "real arithmetic instead of floating point; pandas.DataFrame(series) holds the series (trusted).")
def c40(c):
    o_formatting(c)
    o_exported(c, True, False)


# ------------------------------------------------------------------ C38
COL, RULE, FREQ, CONV = sym("column", "str"), sym("rule", "str"), sym("freq", "str"), sym("conversion", "num")
MPL, PLY = const("matplotlib"), const("plotly")
ANYK = sym("key")
OPS = {
    "resample": [([FREQ, RULE], {}), ([FREQ, RULE], {"conversion": CONV, "inplace": FALSE})],
    "line": [([], {"engine": e, **k}) for e in (MPL, PLY) for k in ({}, {"columns": COL}, {"columns": ANYK})],
    "area": [([], {"engine": e, **k}) for e in (MPL, PLY) for k in ({}, {"columns": COL}, {"columns": ANYK})],
    "shadow": [([], {"engine": e, **k}) for e in (MPL, PLY) for k in ({}, {"columns": COL}, {"main_column": COL, "average": FALSE}, {"main_column": COL, "average": FALSE, "columns": ANYK})],
    "load_duration_curve": [([COL], {"engine": e}) for e in (MPL, PLY)],
    "error": [([sym("base_column", "str"), sym("validated", "str")], {})],
    "peak": [([], {})], "freq": [([], {})], "columns": [([], {})], "index": [([], {})], "DataFrame": [([], {})],
    "__repr__": [([], {})], "__str__": [([], {})],
    "__getitem__": [([COL], {}), ([ANYK], {})],
    "loc": [([], {}), ([ANYK, COL], {})], "iloc": [([], {}), ([ANYK, sym("j", "int")], {})],
    "head": [([sym("n", "int")], {})], "plot": [([], {})], "to_excel": [([sym("path", "str")], {})], "to_csv": [([sym("path", "str")], {})],
    "mean": [([], {})], "sum": [([], {})], "copy": [([], {})],
}
INPLACE = {"insert", "pop", "update", "sort", "fill", "put", "itemset", "partition", "resize", "popitem", "setflags", "clear"}
OUTFUN = {"numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.random.shuffle", "random.shuffle", "numpy.fill_diagonal"}


def same_object(t):
    while t.op in ("setattr", "setitem"):
        t = t.a[0]
    return t is DF


def shares(t):
    """may the object share its data with the data of the Plot: True / False / None (maybe)"""
    if t is DF:
        return True
    if t.op in ("setattr", "setitem"):
        return shares(t.a[0])
    if t.op == "at":
        r = shares(t.a[0])
        k = t.a[1]
        if r is False or k.op in ("vec", "seq", "tuple"):
            return False
        if k.op == "at" and k.a[0] is mk("attr", DF, "columns"):
            return r  # one column
        return r if is_str(k) or ty(k) == "str" else None if r is None or k.op in ("sym", "at") else r
    if t.op == "loc":
        return shares(t.a[1]) if len(t.a) > 2 and isinstance(t.a[1], T) else None
    if t.op == "attr" and t.a[1] in ("values", "T", "loc", "iloc", "at", "iat", "array"):
        return shares(t.a[0])
    if t.op == "call" and t.a[0] in (".copy",) and isinstance(t.a[1], T) and shares(t.a[1]):
        d = dict(t.a[2]) if len(t.a) > 2 else {}
        return d.get("deep", d.get("0", d.get(0))) is FALSE
    if t.op == "call" and t.a[0] in (".to_numpy", ".squeeze", ".ravel", ".view", ".head", ".tail", ".items", ".get", ".xs", "numpy.asarray", "numpy.ravel"):
        args = [x for x in t.a if isinstance(x, T)] + [y for z in t.a if isinstance(z, tuple) for _, y in z if isinstance(y, T)]
        rs = [shares(x) for x in args]
        return None if any(r is not False for r in rs) else False
    if t.op == "ite":
        rs = {shares(t.a[1]), shares(t.a[2])}
        return rs.pop() if len(rs) == 1 else None if None in rs else True
    return False


def writes(I, s):
    """(event, verdict) for every effect of a path which may change the data of the Plot"""
    for e in flat_events(s.events):
        recv = e.extra if isinstance(e.extra, T) and e.kind in ("setattr", "mcall") else e.recv
        if e.kind == "set":
            if e.recv is PLOT:
                v = e.args.get("value")
                if v is not DF:
                    yield e, True, f"{e.name} of the object is replaced"
            continue
        if not isinstance(recv, T):
            if e.kind == "call":
                out = [v for k, v in e.args.items() if k == "out"]
                if e.name in OUTFUN:
                    out += list(e.args.values())[:1]
                for o in out:
                    if isinstance(o, T) and shares(I.snap(s, o)) is not False:
                        yield e, shares(I.snap(s, o)), f"{e.name} writes into the data"
            continue
        if e.kind == "setattr":
            if same_object(recv):
                yield e, True, f"{e.name} of the data is replaced"
        elif e.kind in ("setitem", "aug", "ndwrite", "del"):
            r = shares(recv)
            if r is not False:
                yield e, r, "values of the data are replaced"
        elif e.kind == "mcall" and (e.name in INPLACE or e.args.get("inplace") is TRUE):
            r = shares(recv)
            if r is not False:
                yield e, r, f"{e.name} changes the data in place"
        for k, v in e.args.items() if e.kind == "mcall" else ():
            if k == "out" and isinstance(v, T) and shares(v) is not False:
                yield e, shares(v), f"{e.name} writes into the data"


def plot_state(I):
    st = St()
    for n in ("df",):
        st.fields[(PLOT, n)] = DF
    return st


def data_field(c):
    """the attribute which holds the data of a Plot, found from its constructor"""
    I = c.interp()
    x = sym("x", "ext:pandas.DataFrame")
    names = set()
    for s in c.run(I, "Plot.__init__", St(), [PLOT, x]):
        if not raised(I, s):
            names |= {e.name for e in flat_events(s.events) if e.kind == "set" and e.recv is PLOT and I.snap(s, e.args["value"]) is x}
    return names


def with_data(c):
    names = data_field(c) or {"df"}

    def state():
        st = St()
        for n in names:
            st.fields[(PLOT, n)] = DF
        return st
    return state, names


def frame_of(I, s, v, names):
    """the data of a Plot returned by a path"""
    for n in names:
        x = s.fields.get((v, n))
        if x is not None:
            return I.snap(s, x)
    return None


def o_unmodified(c):
    state, names = with_data(c)
    known = 0
    for m, variants in OPS.items():
        con = "Plot." + m
        for args, kw in variants:
            with Optional(c, con), c.ob("data-not-modified", con):
                I = c.interp()
                where = c.where(I, con)
                for s in c.run(I, con, state(), [PLOT] + args, kw):
                    hit = False
                    for e, r, text in writes(I, s):
                        hit = True
                        c.judge(False if r is True else None, "data-not-modified", f"{where.rsplit(':', 1)[0]}:{e.line}", text)
                    if not hit:
                        c.ok("data-not-modified", where)


class Optional:
    """an operation which does not exist (any more) has no obligation"""
    def __init__(self, c, con):
        self.c, self.n = c, len(c.missing)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        del self.c.missing[self.n:]
        return False


def strip_copy(t):
    m = {x: x.a[1] for x in subterms(t) if x.op == "call" and x.a[0] == ".copy" and isinstance(x.a[1], T) and x.a[1] is DF}
    return subst(t, m) if m else t


def resampled(t):
    """(table, frequency, rule) of a resampling"""
    if t.op == "call" and t.a[0] == "?callable":
        d = dict(t.a[2])
        f = d.get("0", d.get(0))
        if f is not None and f.op == "dynattr" and len(d) == 1:
            x, r = f.a[0], f.a[1]
        else:
            return None
    elif t.op == "call" and t.a[0] in (".agg", ".aggregate", ".apply") and isinstance(t.a[1], T):
        d = dict(t.a[2])
        if len(d) != 1:
            return None
        x, r = t.a[1], next(iter(d.values()))
    else:
        return None
    if not (x.op == "call" and x.a[0] == ".resample"):
        return None
    d = dict(x.a[2])
    if len(d) != 1:
        return None
    return x.a[1], next(iter(d.values())), r


def arith(t):
    """table methods for arithmetic as operators"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.a[0] in (".div", ".truediv", ".divide", ".mul", ".multiply") and isinstance(x.a[1], T) and len(x.a) > 2 and len(x.a[2]) == 1:
            y = x.a[2][0][1]
            m[x] = div(x.a[1], y) if "div" in x.a[0] else mul(x.a[1], y)
    return subst(t, m) if m else t


def judge_resampled(c, t, where, L=()):
    one = [l for l in L if l.op in ("eq", "aeq") and CONV in l.a and ONE in l.a or l.op == "eq0" and l.a[0] in (sub(CONV, ONE), sub(ONE, CONV))]
    t = arith(strip_copy(t))
    if one:
        # the path on which the factor is 1
        t = arith(subst(t, {CONV: ONE}))
        r = resampled(t)
        return c.judge(r is not None and r[0] is DF and r[1] is FREQ and r[2] is RULE or None, "resampled-data", where, f"is {show(t)[:200]} for a factor of 1")
    need = [n for n, x in (("the data", DF), ("the frequency", FREQ), ("the rule", RULE), ("the conversion factor", CONV)) if x not in subterms(t)]
    if need:
        return c.judge(False, "resampled-data", where, f"{', '.join(need)} not used: {show(t)[:150]}")
    r = resampled(t)
    if r is None:
        inner = [resampled(x) for x in subterms(t) if resampled(x)]
        if t.op == "call" and t.a[0] in (".dropna", ".fillna", ".round", ".head", ".tail", ".interpolate", ".ffill", ".bfill", ".clip", ".abs", ".sort_index", ".shift") and inner:
            return c.judge(False, "resampled-data", where, f"the resampled data are altered: {show(t)[:200]}")
        odd = [x for x in subterms(t) if x.op == "call" and x.a[0] == ".resample" and any(k in ("label", "closed", "origin", "offset", "kind", "convention", "on", "level")
               and v.op == "c" and v is not NONE and (k, v) not in (("origin", const("start_day")), ("convention", const("start"))) for k, v in x.a[2])]
        if odd:
            return c.judge(False, "resampled-data", where, f"resampled with other options: {show(odd[0])[:200]}")
        if inner and not any(x.op == "call" and x.a[0] not in ("?callable", ".resample", ".agg", ".aggregate", ".apply") for x in subterms(t)):
            # conversion after the rule: the same only for rules which are proportional to the data
            x, f, ru = inner[0]
            return c.judge(False, "resampled-data", where, f"is {show(t)[:200]}")
        return c.judge(None, "resampled-data", where, f"is {show(t)[:200]}")
    x, f, ru = r
    return c.judge((x is div(DF, CONV) and f is FREQ and ru is RULE) or (None if weak(x) else False), "resampled-data", where, f"rule {show(ru)} at {show(f)} of {show(x)[:120]}")


def o_resample(c):
    con = "Plot.resample"
    state, names = with_data(c)
    for inplace in (TRUE, FALSE):
        with c.ob("resampled-data", con):
            I = c.interp()
            where = c.where(I, con)
            n = 0
            for s in c.run(I, con, state(), [PLOT, FREQ, RULE], {"conversion": CONV, "inplace": inplace}):
                if raised(I, s):
                    continue
                n += 1
                v = ret(s)
                if inplace is TRUE:
                    c.judge(I.snap(s, v) is NONE or (None if weak(I.snap(s, v)) else False), "inplace-returns-nothing", where, f"returns {show(I.snap(s, v))[:100]}")
                    t = frame_of(I, s, PLOT, names)
                    if t is DF:
                        c.bad("inplace-stores-the-result", where, "the data of the object are unchanged")
                        continue
                    judge_resampled(c, t, where, lits_of(s))
                else:
                    t = frame_of(I, s, v, names)
                    if t is None:
                        c.judge(None if weak(I.snap(s, v)) else False, "resampled-plot-returned", where, f"returns {show(I.snap(s, v))[:100]}")
                        continue
                    c.check(v is not PLOT, "resampled-plot-returned", where, "returns the object itself")
                    judge_resampled(c, t, where, lits_of(s))
            if not n:
                c.undec("resampled-data", where, "no normal outcome")


def o_copy(c):
    con = "Plot.copy"
    state, names = with_data(c)
    with c.ob("copy-shares-nothing", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, state(), [PLOT]):
            if raised(I, s):
                continue
            v = ret(s)
            if v is PLOT:
                c.bad("copy-shares-nothing", where, "returns the object itself")
                continue
            t = frame_of(I, s, v, names)
            if t is None:
                c.judge(None, "copy-shares-nothing", where, f"returns {show(I.snap(s, v))[:100]}")
                continue
            sh = shares(t)
            c.judge(False if sh is True else None if sh is None else strip_copy(t) is DF or None, "copy-shares-nothing", where, f"data of the copy: {show(t)[:120]}")


@rule("C38", 15, "Plot operations do not modify the data they are called on", "effect analysis of every operation of Plot: writes into objects which may share the data; returned values compared in normal form",
      "pandas operations without inplace and plotting libraries do not modify their operands (trusted).")
def c38(c):
    o_unmodified(c)
    o_resample(c)
    o_copy(c)


# ------------------------------------------------------------------ C39
XDF = sym("x", "ext:pandas.DataFrame")
XX = sym("x")
IX = sym("index")


def is_df(x):
    return mk("isinst", x, mk("ext", "pandas.DataFrame"))


def has_dti(x):
    return mk("isinst", x, mk("ext", "pandas.DatetimeIndex"))


def lits_of(s):
    return [l for f in s.facts for l in flat_and(f)]


def judge_accept(c, I, s, x, ix, where, what, extra=()):
    """verdict on one outcome of storing x (with index ix) as data: accepted only if valid, refused only if not"""
    r = raised(I, s)
    L = lits_of(s)
    conds = [has_dti(ix if ix is not None else mk("attr", x, "index"))] + list(extra)
    if ty(x) != "ext:pandas.DataFrame":
        conds.append(is_df(x))
    own = [f for f in L if f.op in ("isinst", "not") or f.op == "truth"]
    if r is None:
        for k in conds:
            ok = k in L or any(equiv_check(l, k) for l in L)
            vague = any(l.op == "truth" and "call" in show(l) for l in L)
            c.judge(ok or (None if vague else False), "only-valid-data-accepted", where, f"{what} is accepted without {show(k)[:100]}")
    else:
        c.judge(is_exc(I, s, "ValueError") or (None if st_weak(s) else False), "refused-with-ValueError", where, f"{what} raises {r}")
        # the refusal has a reason
        def reason(l):
            if l.op == "or":
                return all(reason(d) or of_copy(d) for d in l.a)
            return any(l is not_(k) or equiv_check(l, not_(k)) for k in conds)

        def of_copy(l):
            if l.op == "or":
                return all(of_copy(d) for d in l.a)
            return l.op == "not" and l.a[0].op == "isinst" and l.a[0].a[0] is not x and x in subterms(l.a[0].a[0])
        neg = any(map(reason, L))
        if any(map(of_copy, L)):
            return r
        c.judge(neg or (None if any(x in subterms(l) and l.op not in ("isnone",) and l not in conds for l in L) else False), "valid-data-not-refused", where, f"{what} is refused under {fact_text(s)}")
    return r


def equiv_check(l, k):
    """other ways to write the same condition"""
    neg = k.op == "not"
    if neg != (l.op == "not"):
        return False
    a, b = (l.a[0], k.a[0]) if neg else (l, k)
    if a is b:
        return True
    while a.op == "truth":
        a = a.a[0]
    while b.op == "truth":
        b = b.a[0]
    if b.op == "isinst" and a.op == "isinst" and a.a[1] is b.a[1]:
        return peel(a.a[0]) is peel(b.a[0])
    if b.op == "equals" and a.op == "call" and a.a[0] == ".equals" and isinstance(a.a[1], T):
        o = next(iter(dict(a.a[2]).values()), None)
        return {a.a[1], o} == set(b.a)
    if b.op == "isinst" and a.op in ("eq", "is") and any(x.op == "call" and x.a[0] in ("builtins.type", "type") for x in a.a):
        return b.a[0] in subterms(a)
    return False


def peel(t):
    """the table itself, without a copy or a new index"""
    while t.op in ("setattr", "setitem") or t.op == "call" and t.a[0] == ".copy":
        t = t.a[0] if t.op != "call" else t.a[1]
    return t


def o_only_valid(c):
    state, names = with_data(c)
    cases = []
    for x in (XX, XDF):
        for ix in (None, IX):
            if x is XX and ix is not None:
                continue
            cases.append(("Plot.__init__", [PLOT, x] + ([ix] if ix is not None else []), False, x, ix, St))
        cases.append(("Plot.DataFrame", [PLOT, x], True, x, None, state))
    for con, args, setter, x, ix, mkstate in cases:
        with c.ob("only-valid-data-accepted", con):
            I = c.interp()
            where = c.where(I, con)
            n = 0
            what = ("anything" if x is XX else "a DataFrame") + (" with an index" if ix is not None else "") + (" assigned" if setter else " given to the constructor")
            st0 = mkstate()
            st0.assume(not_(mk("isnone", IX)))
            for s in c.run(I, con, st0, args, setter=setter):
                r = judge_accept(c, I, s, x, ix, where, what)
                sets = [e for e in flat_events(s.events) if e.kind == "set" and e.recv is PLOT]
                if r:
                    if setter:
                        c.check(not sets, "data-unchanged-when-refused", where, f"{[e.name for e in sets]} changed although refused")
                else:
                    n += 1
                    t = frame_of(I, s, PLOT, names)
                    c.judge(t is not None and peel(t) is x or (None if t is not None and weak(t) else False), "given-data-held", where, f"holds {show(t)[:100] if t is not None else None}")
                    if ix is not None and t is not None:
                        got = t.a[2] if t.op == "setattr" and t.a[1] == "index" else None
                        if t.op == "call" and t.a[0] == ".set_axis":
                            got = None
                        c.judge(got is ix or (None if got is None and weak(t) and IX in subterms(t) else False), "index-replaced", where, f"holds {show(t)[:120]}")
                for e in flat_events(s.events):
                    recv = e.extra if isinstance(e.extra, T) and e.kind in ("setattr", "mcall") else e.recv
                    if isinstance(recv, T) and e.kind in ("setattr", "setitem", "aug") and base_obj(recv) is x or e.kind == "mcall" and e.args.get("inplace") is TRUE and base_obj(recv) is x:
                        c.bad("data-of-the-caller-unchanged", f"{where.rsplit(':', 1)[0]}:{e.line}", f"{e.kind} {e.name} of the DataFrame given by the caller")
            if n:
                c.ok("data-of-the-caller-unchanged", where)
            else:
                c.judge(None, "only-valid-data-accepted", where, f"{what} is never accepted")


def base_obj(t):
    while t.op in ("setattr", "setitem"):
        t = t.a[0]
    return t


def o_add_column(c):
    con = "Plot.add_column"
    state, names = with_data(c)
    other = sym("other", "obj:Plot")
    ODF = sym("odf", "ext:pandas.DataFrame")
    for nm, x, given in (("a DataFrame", XDF, XDF), ("a Plot", ODF, other), ("anything else", XX, XX)):
        with c.ob("column-needs-equal-index", con):
            I = c.interp()
            where = c.where(I, con)
            st = state()
            for n in names:
                st.fields[(other, n)] = ODF
            good = 0
            same = mk("equals", mk("attr", DF, "index"), mk("attr", x, "index"))
            for s in c.run(I, con, st, [PLOT, given]):
                if nm == "anything else" and any(l.op == "isinst" and l.a[1].op in ("ext", "cls") and "Plot" in show(l.a[1]) for l in lits_of(s)):
                    continue  # a Plot
                r = judge_accept(c, I, s, x, None, where, nm, extra=[same])
                ws = list(writes(I, s))
                if r:
                    c.check(not ws, "data-unchanged-when-refused", where, f"{[t for _, _, t in ws][:2]} although refused")
                    continue
                good += 1
                its = [e for e, rr, t in ws if e.kind == "setitem" and same_object(e.recv)]
                other_ = [e for e, rr, t in ws if e.kind != "setitem" or not same_object(e.recv)]
                if len(its) == 1 and not other_:
                    e = its[0]
                    i, v = I.snap(s, e.args["index"]), I.snap(s, e.args["value"])
                    if i.op == "at" and strip_cols(i.a[0], x) and e.loops:
                        c.judge(models.strip_values(v) is mk("at", x, i) or None, "columns-added", where, f"[{show(i)[:80]}] = {show(v)[:80]}")
                        continue
                    c.judge((i is mk("attr", x, "columns") and models.strip_values(v) is x) or (None if weak(i) or weak(v) else False), "columns-added", where, f"[{show(i)[:80]}] = {show(v)[:80]}")
                elif not ws:
                    c.judge(False, "columns-added", where, "nothing is added")
                else:
                    c.judge(None, "columns-added", where, f"{[t for _, _, t in ws][:3]}")
            if not good:
                c.judge(None, "columns-added", where, f"{nm} is never accepted")


def strip_cols(t, x):
    while t.op == "call" and t.a[0] in (".tolist", ".to_list", "builtins.list") and isinstance(t.a[1], T):
        t = t.a[1]
    return t is mk("attr", x, "columns") or t is x


def o_from_file(c):
    con = "Plot.from_file"
    f, sep, sheet = sym("fname", "str"), sym("sep", "str"), sym("sheet")
    state, names = with_data(c)
    cls = mk("cls", "Plot")
    with c.ob("plot-from-file", con):
        I = c.interp()
        where = c.where(I, con)
        kinds = set()
        for s in c.run(I, con, St(), [cls, PF], {"sep": sep, "sheet_name": sheet, "index": IX}):
            x, p = suffix_lits(s, ".xlsx"), suffix_lits(s, ".csv")
            r = raised(I, s)
            if p is True or x is True:
                kind = "csv" if p is True else "xlsx"
                if r:
                    continue  # not a time series
                t = frame_of(I, s, ret(s), names)
                if t is None:
                    c.judge(None if weak(I.snap(s, ret(s))) else False, "plot-from-file", where, f"returns {show(I.snap(s, ret(s)))[:100]}")
                    continue
                kinds.add(kind)
                src = peel(t)
                want = "pandas.read_csv" if kind == "csv" else "pandas.read_excel"
                if not (src.op == "call" and src.a[0] == want):
                    c.judge(None if weak(src, mk("call", "pandas.read_csv"), mk("call", "pandas.read_excel")) else False, "plot-from-file", where, f".{kind} read as {show(src)[:120]}")
                    continue
                d = dict(src.a[2])
                if kind == "csv":
                    c.judge(d.get("filepath_or_buffer", d.get(0)) is PF, "plot-from-file", where, f"reads {show(src)[:100]}")
                    c.judge(d.get("sep", d.get("delimiter")) is sep, "given-separator", where, f"reads {show(src)[:160]}")
                    c.judge(d.get("parse_dates") in (TRUE,) or (None if d.get("parse_dates") not in (None, FALSE) else False), "dates-parsed", where, f"reads {show(src)[:160]}")
                else:
                    c.judge(d.get("io", d.get(0)) is PF, "plot-from-file", where, f"reads {show(src)[:100]}")
                    c.judge(d.get("sheet_name") is sheet, "given-sheet", where, f"reads {show(src)[:160]}")
                ic = d.get("index_col")
                c.judge(ic is ZERO or (None if ic is not None and (ic.op == "vec" or not is_num(ic)) else False), "first-column-is-the-index", where, f"index_col={show(ic) if ic is not None else None}")
                hd = d.get("header")
                c.judge(hd is None or hd is ZERO or (is_str(hd) and hd.a[1] == "infer") or (None if not is_num(hd) and hd is not NONE else False), "first-row-is-the-header", where, f"header={show(hd) if hd is not None else None}")
                got = t.a[2] if t.op == "setattr" and t.a[1] == "index" else None
                c.judge(got is IX or any(l.op == "isnone" and l.a[0] is IX for l in lits_of(s)) or (None if weak(t) and IX in subterms(t) else False), "index-replaced", where, f"holds {show(t)[:120]}")
            elif p is False and x is False:
                kinds.add("other")
                c.judge(is_exc(I, s, "ValueError") if r else False, "other-files-refused", where, f"another file: {r or 'accepted'}")
            else:
                kinds.add(None)
                c.judge(None if r or not wrong_type_test(s) else False, "plot-from-file", where, f"type of the file not decided: {fact_text(s)}")
        for k in ("csv", "xlsx", "other"):
            c.judge(k in kinds or (None if None in kinds else False), "plot-from-file", where, f"no path for {k} files")


@rule("C39", 12, "Plot only holds dataframes with a datetime index", "abstract interpretation of the constructor, the assignment and the addition of columns: path conditions of acceptance and refusal, effects before refusal",
      "isinstance decides the type; pandas Index.equals decides equality of indexes (trusted).")
def c39(c):
    o_only_valid(c)
    o_add_column(c)
    o_from_file(c)


# ------------------------------------------------------------------ C41
BASE, VALI = sym("base_column", "str"), sym("validated_data", "str")


def plain(t):
    """arrays of values as the series they come from, table methods as operators"""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op == "attr" and x.a[1] == "values":
                m[x] = x.a[0]
            elif x.op == "call" and x.a[0] in (".to_numpy", ".copy", "numpy.asarray", "numpy.array", ".astype") and len([y for y in x.a if isinstance(y, T)]) == 1:
                m[x] = x.a[1]
            elif x.op == "call" and x.a[0] in (".sub", ".subtract", ".add") and isinstance(x.a[1], T) and len(x.a[2]) == 1:
                m[x] = sub(x.a[1], x.a[2][0][1]) if ".sub" in x.a[0] else add(x.a[1], x.a[2][0][1])
        t2 = arith(subst(t, m) if m else t)
        if t2 is t:
            return t
        t = t2
    return t


def o_error(c):
    con = "Plot.error"
    state, names = with_data(c)
    b, v = mk("at", DF, BASE), mk("at", DF, VALI)
    want = mul(const(100), div(sub(b, v), v))
    with c.ob("relative-error", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, state(), [PLOT, BASE, VALI]):
            r = raised(I, s)
            if r:
                c.judge(None if st_weak(s) else False, "relative-error", where, f"raises {r}")
                continue
            t = plain(I.snap(s, ret(s)))
            fills = [x for x in subterms(t) if x.op == "call" and x.a[0] == ".fillna"]
            inner = t
            for x in fills:
                fv = dict(x.a[2]).get("value", dict(x.a[2]).get("0", dict(x.a[2]).get(0)))
                if fv is not ZERO and fv is not const(0.0):
                    c.judge(None if fv is None or not is_num(fv) else False, "zero-where-undefined", where, f"{show(x)[:150]}")
                inner = subst(inner, {x: x.a[1]})
            inner = arith(inner)
            for x in subterms(inner):
                # infinite errors are numbers
                if x.op == "call" and x.a[0] == ".replace" and any(y.op == "inf" or y.op == "ext" and y.a[0].lower() in ("numpy.inf", "math.inf") or "inf" == show(y) for y in subterms(x)):
                    c.bad("zero-where-undefined", where, f"infinite errors are replaced: {show(x)[:150]}")
            known = not weak(inner)
            c.judge(inner is want or (False if known or any(x.op == "call" and x.a[0] in (".mean", ".sum", ".max", ".abs", "builtins.abs", "numpy.abs", ".round") for x in subterms(inner)) or any(x.op in ("abs", "round", "max") for x in subterms(inner)) else None),
                    "relative-error", where, f"is {show(t)[:200]}")
            # only a factor around the filled values
            outer = len(fills) == 1 and (t is fills[0] or t.op == "poly" and len(t.a) == 1)
            c.judge(outer or (False if not fills and known else None), "zero-where-undefined", where, f"is {show(t)[:200]}")


def rowwise(t, fun):
    """is t the row-wise mean / sum of all the columns of the data"""
    t = strip_series(t)
    if t.op == "call" and t.a[0] == "." + fun and isinstance(t.a[1], T):
        d = dict(t.a[2])
        ax = d.get("axis", d.get("0", d.get(0)))
        whole = strip_copy(t.a[1]) is DF
        if strip_copy(t.a[1]) is mk("attr", DF, "T") and (ax is None or ax is ZERO):
            return True if len(d) <= 1 else None
        if not whole:
            return False if not weak(t.a[1], mk("call", ".copy")) or t.a[1].op in ("at", "loc") else None
        if set(d) - {"axis", "0", 0}:
            extra = {k: v for k, v in d.items() if k not in ("axis", "0", 0)}
            if extra.get("skipna") is FALSE or "min_count" in extra:
                return False
            return None if not all(k in ("skipna",) for k in extra) else ax in (ONE, const("columns"))
        return ax is ONE or ax is not None and ax is const("columns") or (None if ax is not None and not is_num(ax) and not is_str(ax) else False)
    t2 = plain(t)
    if t2.op == "poly" and fun == "mean":
        return None
    known = {".mean", ".sum", ".median", ".max", ".min", ".std", ".prod", ".cumsum", ".count", ".mode", ".first", ".last"}
    return False if t.op == "call" and t.a[0] in known else None


def strip_series(t):
    while True:
        if t.op == "call" and t.a[0] in (".to_frame", ".copy", ".to_numpy", ".squeeze", ".ravel", "pandas.DataFrame", "numpy.ravel", ".flatten", "pandas.Series"):
            x = [y for y in t.a[1:] if isinstance(y, T)]
            if not x:
                d = dict(t.a[2])
                x = [d.get("data", d.get("0", d.get(0)))]
            if x[0] is None:
                return t
            t = x[0]
        elif t.op == "dict" and len(t.a[0]) == 1 and t.a[0][0][0] is not None and isinstance(t.a[0][0], tuple) and len(t.a[0][0]) == 3 and isinstance(t.a[0][0][1], T):
            t = t.a[0][0][1]
        elif t.op == "flatten" or t.op == "attr" and t.a[1] == "values":
            t = t.a[0]
        elif t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] in (".to_frame", "pandas.DataFrame") and (is_str(t.a[1]) or t.a[1].op in ("vec", "seq")):
            t = t.a[0]
        elif t.op == "at" and t.a[1].op == "vec" and len(t.a[1].a) == 1:
            t = mk("at", t.a[0], t.a[1].a[0])
        elif t.op == "setattr":
            t = t.a[0]
        else:
            return t


def o_rowwise(c):
    state, names = with_data(c)
    for fun in ("mean", "sum"):
        con = "Plot." + fun
        with c.ob("all-columns", con):
            I = c.interp()
            where = c.where(I, con)
            n = 0
            for s in c.run(I, con, state(), [PLOT]):
                if raised(I, s):
                    continue
                n += 1
                v = ret(s)
                t = frame_of(I, s, v, names)
                if t is None:
                    c.judge(None if weak(I.snap(s, v)) else False, "row-wise-" + fun, where, f"returns {show(I.snap(s, v))[:100]}")
                    continue
                c.judge(rowwise(t, fun), "row-wise-" + fun, where, f"holds {show(t)[:200]}")
            if not n:
                c.undec("row-wise-" + fun, where, "no normal outcome")


def o_peak(c):
    con = "Plot.peak"
    state, names = with_data(c)
    with c.ob("all-maxima", con):
        I = c.interp()
        where = c.where(I, con)
        for s in c.run(I, con, state(), [PLOT]):
            r = raised(I, s)
            if r:
                c.judge(None if st_weak(s) else False, "all-maxima", where, f"raises {r}")
                continue
            t = I.snap(s, ret(s))
            e = t.a[0] if t.op == "dict" and t.a[1] in (None, NONE) else ()
            if len(e) == 1 and isinstance(e[0], tuple):
                e = e[0]
            else:
                e = ()
            if not e or not isinstance(e[0], T) or e[0].op != "fordict":
                c.judge(None, "every-column-has-its-peak", where, f"is {show(t)[:200]}")
                continue
            lvl, n, kv = e[0].a[:3]
            cols = mk("attr", DF, "columns")
            key = mk("at", cols, mk("b", lvl))
            n = strip_k(n)
            c.judge(n in (mk("len", DF), mk("len", cols), mk("len", mk("call", ".items", DF, ()))) or (False if n.op == "len" and n.a[0].op in ("slice", "at") and DF in subterms(n) or not weak(n) and DF not in subterms(n) else None), "every-column-has-its-peak", where, f"for {show(n)[:100]} columns")
            c.judge(kv.op == "kv" and strip_k(kv.a[0]) is key and kv.a[2] is TRUE or (None if kv.op != "kv" or kv.a[2] is not TRUE or weak(kv.a[0]) else False), "every-column-has-its-peak", where, f"{show(kv)[:200]}")
            if kv.op != "kv":
                continue
            val = strip_copy(kv.a[1])
            k2 = strip_k(kv.a[0])
            ser = mk("at", DF, k2)
            val = subst(val, {kv.a[0]: k2}) if k2 is not kv.a[0] else val
            mx = [mk("call", ".max", ser, ()), mk("call", "numpy.max", None, (("0", ser),))]
            ok = None
            cond = None
            if val.op == "loc" and len(val.a) > 2:
                base_, cond = val.a[1], val.a[2]
            elif val.op in ("at", "filter"):
                base_, cond = val.a[0], val.a[1]
            if cond is not None:
                while cond.op in ("vec", "tuple", "seq", "lit") and len(cond.a) == 1:
                    cond = cond.a[0]
                if base_ is ser:
                    ok = peak_cond(cond, ser)
                    if ok is not True and cond.op not in ("eq", "aeq") and any(y.op == "call" and y.a[0] in (".idxmax", ".argmax", "numpy.argmax") for y in subterms(cond)):
                        ok = False
                elif not weak(base_):
                    ok = False
            elif any(x.op == "call" and x.a[0] in (".head", ".tail", ".idxmax", ".nlargest", ".max", ".argmax", "numpy.argmax", ".sort_values") for x in subterms(val)):
                all_ = any(x.op == "call" and x.a[0] == ".nlargest" and dict(x.a[2]).get("keep") is const("all") for x in subterms(val))
                ok = None if all_ else False
                if val.op == "at" and val.a[0] is ser:
                    ok = False
            elif not weak(val):
                ok = False
            c.judge(ok, "all-maxima", where, f"peak is {show(val)[:200]}")


def strip_k(k):
    """iterating over a table, its columns or a list of them yields the same labels"""
    m = {}
    for x in subterms(k):
        if x.op == "call" and x.a[0] in (".tolist", ".to_list", "builtins.list") and isinstance(x.a[1], T) and x.a[1] is mk("attr", DF, "columns"):
            m[x] = x.a[1]
    return subst(k, m) if m else k


def peak_cond(cond, ser):
    x = cond
    if x.op == "call" and x.a[0] in (".eq", ".ge") and x.a[1] is ser:
        o = next(iter(dict(x.a[2]).values()), None)
        x = mk("eq", ser, o) if o is not None else x
    if x.op == "call" and x.a[0] == ".isin":
        return None
    lit = lambda y: y.op == "call" and y.a[0] in (".max", "numpy.max", "numpy.amax", "builtins.max") and DF in subterms(y) or y.op == "max" and DF in subterms(y)
    if x.op in ("eq", "ge", "le", "gt", "lt", "aeq", "age", "ale", "acmp", "ne", "ane"):
        mxs = [y for y in subterms(x) if lit(y)]
        if not mxs:
            return False if not weak(x) or any(y.op == "call" and y.a[0] in (".min", ".mean", ".median", ".quantile") for y in subterms(x)) else None
        if x.op in ("eq", "aeq"):
            o = [y for y in x.a if isinstance(y, T) and not lit(y)]
            if len(o) == 1 and o[0] is ser and set(x.a) - {ser} and all(lit(y) for y in x.a if y is not ser):
                whole = [y for y in x.a if lit(y)][0]
                inner = whole.a[1] if isinstance(whole.a[1], T) else next((v for _, v in whole.a[2]), None)
                got = strip_copy(plain(inner)) if inner is not None else None
                return True if got is ser else None if got is None or any(y.op == "call" and not lit(y) for y in subterms(got)) else False
            return False if not any(y.op == "call" and not lit(y) for y in subterms(x)) else None
        if x.op in ("ne", "ane", "gt", "lt"):
            return False
        return None
    # a threshold which is not the maximum
    other = [y for y in subterms(x) if y.op == "call" and y.a[0] in (".quantile", ".mean", ".median", ".min", "numpy.quantile", "numpy.percentile", "numpy.mean", "numpy.median")]
    top = (ONE, const(1.0), const(100))
    if other and not any(lit(y) for y in subterms(x)) and not any(y in top for z in other for y in call_args(z)):
        return False
    if x.op == "le0":
        for y in subterms(x):
            if lit(y) and x.a[0] is sub(y, ser):
                # at least the maximum of ...
                inner = y.a[1] if isinstance(y.a[1], T) else next((v for _, v in y.a[2]), None) if y.op == "call" else None
                got = strip_copy(plain(inner)) if inner is not None else None
                if got is ser:
                    return True
                if got is not None and got.op in ("loc", "slice", "at", "filter") and ser in subterms(got):
                    return False
    if x.op in ("lt0", "le0") or not weak(x):
        return False if any(lit(y) for y in subterms(x)) and x.op != "call" and not threshold(x, ser, lit) else None
    return None


def threshold(x, ser, lit):
    """vals >= max (or max <= vals), the same as equality"""
    p = x.a[0] if x.a and isinstance(x.a[0], T) else None
    m = [y for y in subterms(x) if lit(y)]
    return p is not None and any(p in (sub(ser, y), sub(y, ser)) for y in m)


def o_duration(c):
    con = "Plot.load_duration_curve"
    state, names = with_data(c)
    for eng in (MPL, PLY):
        with c.ob("duration-curve", con):
            I = c.interp()
            where = c.where(I, con)
            for s in c.run(I, con, state(), [PLOT, COL], {"engine": eng}):
                r = raised(I, s)
                if r:
                    c.judge(None if st_weak(s) else False, "duration-curve", where, f"raises {r}")
                    continue
                drawn = plotted(I, s)
                if len(drawn) != 1:
                    c.judge(None if drawn else False, "duration-curve", where, f"{len(drawn)} curves")
                    continue
                x, y = drawn[0]
                judge_duration(c, x, y, where)


def plotted(I, s):
    """(x, y) of the curves drawn outside loops; x None: the index of y"""
    out = []
    for e in flat_events(s.events):
        if getattr(e, "loops", ()):
            continue
        a = {k: I.snap(s, v) for k, v in e.args.items() if isinstance(v, T)} if e.args else {}
        recv = e.extra if isinstance(e.extra, T) and e.kind == "mcall" else e.recv
        if e.kind == "mcall" and e.name == "plot":
            recv = I.snap(s, recv) if isinstance(recv, T) else recv
            if DF in subterms(recv):
                out.append((a.get("x"), recv))
            elif "1" in a:
                out.append((a.get("0"), a["1"]))
            elif "0" in a:
                out.append((None, a["0"]))
        elif e.kind == "call" and e.name in ("plotly.express.line", "plotly.express.area", "matplotlib.pyplot.plot", "plotly.graph_objects.Scatter", "plotly.graph_objs.Scatter"):
            d = a.get("data_frame", a.get("y", a.get("1", a.get("0"))))
            if d is not None:
                out.append((a.get("x", a.get("0") if "1" in a else None), d))
    return out


def frame_parts(t):
    """(values, index) of a table or series made of one column, or None"""
    if t.op != "call" or t.a[0] not in ("pandas.DataFrame", "pandas.Series"):
        return None
    d = dict(t.a[2])
    v, ix = d.get("data", d.get("0")), d.get("index", d.get("1"))
    if v is None:
        return None
    if v.op == "dict" and isinstance(v.a[0], tuple) and len(v.a[0]) == 1 and isinstance(v.a[0][0], tuple) and v.a[1] in (None, NONE):
        v = v.a[0][0][1]
        if not isinstance(v, T):
            return None
    return v, ix


BARE = (".to_numpy", ".tolist", ".to_list", "numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple")


def bare(t):
    """(term, True if only the values without their labels are kept)"""
    out = False
    while True:
        if t.op == "attr" and t.a[1] in ("values", "array") or t.op in ("list", "tolist", "nparray", "flatten"):
            t, out = t.a[0], True
        elif t.op == "call" and t.a[0] in BARE:
            x = t.a[1] if isinstance(t.a[1], T) and t.a[1] is not NONE else next((v for z in t.a if isinstance(z, tuple) for _, v in z if isinstance(v, T)), None)
            if x is None:
                return t, out
            t, out = x, True
        else:
            return t, out


def one_column(t):
    """the values of the chosen column alone"""
    t = strip_k(strip_series(bare(t)[0]))
    return t is mk("at", DF, COL) or t is mk("at", DF, mk("vec", COL)) and None


def decreasing(t):
    """(verdict, labels kept) for the values of the chosen column in decreasing order"""
    t, cut = bare(t)
    if t.op == "call" and t.a[0] == ".sort_values":
        d = dict(t.a[2])
        asc = d.get("ascending")
        src = strip_k(strip_series(t.a[1]))
        right = src is mk("at", DF, COL)
        ok = (right and asc is FALSE) or (None if (not right and (weak(src) or src is DF)) or (asc is not None and asc not in (TRUE, FALSE)) else False)
        by = d.get("by")
        if ok and by is not None and by is not COL and not (by.op in ("vec", "seq") and COL in subterms(by)):
            ok = None if weak(by) else False
        return ok, not cut
    if t.op == "sorted" or t.op == "call" and t.a[0] == "numpy.sort":
        src = t.a[0] if t.op == "sorted" else next(iter(dict(t.a[2]).values()), NONE)
        rev = t.a[2] if t.op == "sorted" and len(t.a) > 2 else FALSE
        key = t.a[1] if t.op == "sorted" and len(t.a) > 1 else NONE
        if not isinstance(src, T) or key not in (NONE, None):
            return None, False
        one = one_column(src)
        if one is not True:
            return (False if one is False and DF in subterms(src) and any(x.op == "call" and x.a[0] in LOSING or x.op == "set" for x in subterms(src)) else None), False
        return (True if rev in (TRUE, ONE, 1, True) else False if rev in (FALSE, ZERO, NONE, None, 0, False) else None), False
    rv = reversed_of(t)
    if rv is not None:
        inner = bare(rv)[0]
        if inner.op == "call" and inner.a[0] == ".sort_values":
            d = dict(inner.a[2])
            if d.get("ascending", TRUE) is TRUE and one_column(inner.a[1]):
                return True, not cut and inner is rv
            return (False if d.get("ascending") is FALSE else None), not cut
        v, _ = decreasing(inner)
        if v is False and (inner.op == "call" and inner.a[0] == "numpy.sort" or inner.op == "sorted"):
            src = inner.a[0] if inner.op == "sorted" else next(iter(dict(inner.a[2]).values()), NONE)
            return one_column(src) or None, False
        return (False if v is True else None), False
    if t.op == "call" and t.a[0] in LOSING and DF in subterms(t):
        return False, not cut
    if not weak(t, mk("call", ".to_frame"), mk("call", ".copy")):
        return False, not cut
    return None, not cut


LOSING = (".drop_duplicates", ".sample", ".round", ".clip", ".abs", ".cumsum", ".diff", ".unique", "numpy.unique", "builtins.set", "set", ".dropna", ".head", ".tail", ".nlargest")


def reversed_of(t):
    if t.op == "reversed":
        return t.a[0]
    if t.op == "slice" and t.a[1:] == (NONE, NONE, const(-1)):
        return t.a[0]
    if t.op == "at" and t.a[1].op == "slice" and t.a[1].a == (NONE, NONE, const(-1)):
        return t.a[0]
    if t.op == "loc" and len(t.a) > 2 and isinstance(t.a[2], T) and t.a[2].op == "slice" and t.a[2].a == (NONE, NONE, const(-1)):
        return t.a[1]
    if t.op == "call" and t.a[0] in ("numpy.flip", "numpy.flipud"):
        return next(iter(dict(t.a[2]).values()), None)
    return None


def judge_duration(c, x, y, where):
    t = y
    idx = None
    renumbered = False
    for _ in range(20):
        fp = frame_parts(t)
        if t.op == "setattr":
            if t.a[1] == "index" and idx is None:
                idx = t.a[2]
            t = t.a[0]
        elif t.op == "call" and t.a[0] in (".set_axis", ".reset_index", ".to_frame", ".copy"):
            d = dict(t.a[2])
            if t.a[0] == ".set_axis" and idx is None:
                idx = d.get("labels", d.get("0", d.get(0)))
            if t.a[0] == ".reset_index" and idx is None:
                renumbered = True
                c.judge(False if x is None else None, "ranks-from-1", where, f"{show(y)[:150]}")
            t = t.a[1]
        elif fp is not None:
            v, ix = fp
            kept = decreasing(v)[1]
            if idx is None and ix is not None and ix is not NONE:
                idx = ix
                if kept:
                    # values with labels are looked up by the labels of the new index
                    c.judge(False if decreasing(v)[0] is True else None, "sorted-decreasing", where, f"the values of {show(v)[:150]} are looked up by the ranks")
            elif idx is None and (not kept or bare(v)[1]):
                idx = const("0, 1, 2, …")
            t = v
        else:
            break
    if x is not None:
        idx = x
    ok, _ = decreasing(t)
    c.judge(ok, "sorted-decreasing", where, f"curve of {show(t)[:200]}")
    if idx is None:
        if ok and not renumbered:
            c.bad("ranks-from-1", where, "the curve is drawn against the time index")
        return
    c.judge(ranks(idx, t), "ranks-from-1", where, f"against {show(idx)[:200]}")


def ranks(idx, t):
    if is_str(idx):
        return False
    if idx.op == "poly":
        # the numbers 0, 1, 2, … of a renumbered table, plus one
        b = [z for z in subterms(idx) if z.op == "attr" and z.a[1] == "index" and z.a[0].op == "call" and z.a[0].a[0] == ".reset_index"]
        if len(b) == 1:
            return idx is add(b[0], ONE)
        return None
    if idx.op == "attr" and idx.a[1] == "index" and idx.a[0].op == "call" and idx.a[0].a[0] == ".reset_index":
        return False
    if idx.op == "seq" and len(idx.a) == 1 and idx.a[0].op == "for":
        lvl, n, body = idx.a[0].a
        if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit":
            e = body.a[0].a[0]
            start = e is add(mk("b", lvl), ONE)
            size = n.op == "len" and (n.a[0] is t or n.a[0] is mk("attr", t, "index") or DF in subterms(n.a[0]))
            return (start and size) or (False if not weak(e) and (size or not weak(n, t)) else None)
    if idx.op in ("range", "arange") or idx.op == "call" and idx.a[0] in ("numpy.arange", "pandas.RangeIndex", "builtins.range"):
        d = dict(idx.a[2]) if idx.op == "call" and len(idx.a) > 2 and isinstance(idx.a[2], tuple) else None
        if d is not None:
            parts = [d.get(k, d.get(str(i), NONE)) for i, k in enumerate(("start", "stop", "step"))]
            if parts[1] is NONE:
                parts = [ZERO, parts[0], parts[2]]
        else:
            parts = [x for x in idx.a if isinstance(x, T)]
            if len(parts) == 1:
                parts = [ZERO] + parts
        if any(not isinstance(z, T) for z in parts) or len(parts) > 2 and parts[2] not in (NONE, ONE):
            return None
        lens = [z for z in parts[1:2] if any(w.op == "len" for w in subterms(z))]
        if len(parts) >= 2 and parts[0] is ONE and len(lens) == 1:
            ln = [w for w in subterms(lens[0]) if w.op == "len"]
            if lens[0] is add(ln[0], ONE):
                return True
            return False if lens[0] is ln[0] else None
        return False if parts[0] is ZERO else None
    if reversed_of(idx) is not None and ranks(reversed_of(idx), t) is True:
        return False
    if not weak(idx, t):
        return False
    return None


def o_shadow(c):
    con = "Plot.shadow"
    state, names = with_data(c)
    for eng in (MPL, PLY):
        for main in (NONE, COL):
            for avg in (TRUE, FALSE):
                with c.ob("main-column-or-average", con):
                    I = c.interp()
                    where = c.where(I, con)
                    must = (main is NONE) == (avg is FALSE)
                    what = f"main column {'given' if main is COL else 'not given'}, average {'requested' if avg is TRUE else 'not requested'}"
                    n = 0
                    for s in c.run(I, con, state(), [PLOT], {"engine": eng, "main_column": main, "average": avg}):
                        r = raised(I, s)
                        if must:
                            c.judge(is_exc(I, s, "ValueError") or (None if st_weak(s) else False), "main-column-or-average", where, f"{what}: {r or 'accepted'}")
                            continue
                        if r:
                            if not lits_of(s) and not st_weak(s):
                                c.bad("main-column-or-average", where, f"{what}: refused with {r}")
                            elif all(d.op != "not" or d.a[0].op != "isinst" for l in lits_of(s) for d in (l.a if l.op == "or" else (l,))):
                                c.judge(None, "main-column-or-average", where, f"{what}: {r} under {fact_text(s)}")
                            continue
                        n += 1
                        dr = [strip_series(y) for x, y in plotted(I, s)]
                        if main is COL:
                            want = mk("at", DF, COL)
                            ok = [subst_copy(y) is want for y in dr]
                            res = any(ok) or (None if not dr or any(weak(subst_copy(y)) for y in dr) and not dr_known(dr) else False)
                        else:
                            oks = [rowwise(y, "mean") for y in dr]
                            res = True if True in oks else None if None in oks[:1] or not oks else False
                        c.judge(res, "main-curve", where, f"{what}: draws {[show(y)[:80] for y in dr][:3]}")
                    if not must:
                        c.judge(n > 0 or None, "main-column-or-average", where, f"{what}: never accepted")


def o_shadow_columns(c):
    """the shadow curves: the columns asked for, given by name or as a list of names"""
    con = "Plot.shadow"
    state, names = with_data(c)
    for eng in (MPL, PLY):
        for form in ("name", "list"):
            with c.ob("shadow-columns", con):
                I = c.interp()
                where = c.where(I, con)
                st = state()
                cols = COL if form == "name" else I.new_list(st, [COL, sym("column2", "str")])
                what = "a single column" if form == "name" else "a list of columns"
                n = 0
                for s in c.run(I, con, st, [PLOT], {"engine": eng, "columns": cols}):
                    r = raised(I, s)
                    if r:
                        if form == "list" and not st_weak(s) and (not lits_of(s) or r in ("AttributeError", "TypeError") and all(l.op == "isinst" for l in lits_of(s))):
                            c.bad("shadow-columns", where, f"{what}: refused with {r}")
                        continue
                    n += 1
                    dr = [strip_series(y) for x, y in plotted(I, s)]
                    sel = [x for y in dr for x in subterms(y) if x.op == "at" and strip_copy(x.a[0]) is DF]
                    if eng is PLY and not sel:
                        continue        # one trace per column
                    want = I.snap(s, cols)
                    ok = any(x.a[1] is want or x.a[1] is cols or want in x.a[1:] for x in sel)
                    al = any(f.op in ("eq", "truth") and any(y.op == "call" and y.a[0] == ".lower" for y in subterms(f)) for f in s.facts)
                    c.judge(True if ok or al else None if not sel or st_weak(s) else False, "shadow-columns", where, f"{what}: draws {[show(y)[:80] for y in dr][:4]}")
                if form == "list":
                    c.judge(n > 0 or None, "shadow-columns", where, f"{what}: never accepted")


def subst_copy(t):
    return strip_copy(t)


def dr_known(dr):
    return all(y.op in ("at", "call") for y in dr) and rowwise(dr[0], "mean") is not None


@rule("C41", 8, "Comparison tools of Plot", "abstract interpretation of error, mean, sum, peak, load_duration_curve and shadow; returned and drawn values compared in normal form, path conditions of refusal",
      "real arithmetic; pandas alignment, fillna, sort_values and max behave as documented (trusted).")
def c41(c):
    o_error(c)
    o_rowwise(c)
    o_peak(c)
    o_duration(c)
    o_shadow(c)
    o_shadow_columns(c)


# ------------------------------------------------------------------ C43
DTI = sym("datetimeindex")
DAYS = sym("days", "list")


def table_entries(t):
    """[(label, data, index)] of the columns of a table, or None; False if it is not made of columns"""
    if t.op != "call":
        return None
    d = dict(t.a[2])
    if t.a[0] == "pandas.concat":
        objs, ax, keys = d.get("objs", d.get("0")), d.get("axis"), d.get("keys")
        if ax is None or ax is ZERO or is_str(ax) and ax.a[1] == "index":
            return False
        if ax is not ONE and ax is not const("columns") or set(d) - {"objs", "axis", "keys", "0"}:
            return None
        common = None
    elif t.a[0] in ("pandas.DataFrame", "pandas.DataFrame.from_dict"):
        objs, keys, common = d.get("data", d.get("0")), d.get("columns"), d.get("index")
        if set(d) - {"data", "0", "index"}:
            return None
        keys = None
    else:
        return None
    if objs is None:
        return None
    if objs.op == "dict" and objs.a[1] in (None, NONE):
        out = []
        for e in objs.a[0]:
            if not isinstance(e, tuple) or e[0].op == "fordict" or e[2] is not TRUE:
                return fordict_entries(objs, common) if len(objs.a[0]) == 1 else None
            out.append((e[0], e[1]))
    elif keys is not None and objs.op in ("vec", "seq", "tuple") and keys.op in ("vec", "seq", "tuple"):
        lits = lambda x: list(x.a) if x.op != "seq" else [y.a[0] for y in x.a] if all(y.op == "lit" for y in x.a) else None
        o, k = lits(objs), lits(keys)
        if o is None or k is None or len(o) != len(k):
            return None
        out = list(zip(k, o))
    else:
        return None
    res = []
    for k, v in out:
        x = column(v, common)
        if x is None:
            return None
        res.append((k,) + x)
    return res


def column(v, common):
    if v.op == "call" and v.a[0] in ("pandas.Series", "pandas.DataFrame"):
        d = dict(v.a[2])
        data = d.get("data", d.get("0"))
        if data is None:
            return None
        return data, d.get("index", NONE)
    if common is not None:
        return v, common
    return None


def fordict_entries(objs, common):
    e = objs.a[0][0]
    if not isinstance(e[0], T) or e[0].op != "fordict":
        return None
    lvl, n, kv = e[0].a[:3]
    if kv.op != "kv" or kv.a[2] is not TRUE:
        return None
    x = column(kv.a[1], common)
    return None if x is None else [(kv.a[0],) + x]


def flat_of(data, sims):
    """the simulation whose flattened profile the data are"""
    for e in sims:
        fl = e.args.get("flat")
        if data is e.res and fl is TRUE:
            return e
        if fl is FALSE or fl is TRUE:
            x = data
            while x.op in ("flatten", "reshape", "squeeze") or x.op == "call" and x.a[0] in (".flatten", ".ravel", ".squeeze", ".reshape", "numpy.ravel", "numpy.concatenate", "numpy.array", "numpy.asarray"):
                y = x.a[0] if x.op != "call" else next((z for z in x.a[1:] if isinstance(z, T)), None)
                if y is None:
                    y = next((q for z in x.a if isinstance(z, tuple) for _, q in z if isinstance(q, T)), None)
                if y is None:
                    break
                x = y
            if x is e.res and x is not data:
                return e
    return None


RESHAPED = {"numpy.sort", "builtins.sorted", "numpy.cumsum", "numpy.roll", "numpy.flip", "numpy.round", "numpy.mean", "numpy.maximum", "numpy.minimum", "numpy.transpose", ".cumsum", ".round", ".mean", ".sort"}


def o_cases(c):
    con = "UseCase.generate_daily_load_profiles"
    for nm in ("one case", "two cases", "three cases", "any cases"):
        with c.ob("one-run-per-case", con):
            n = [0]

            def sim(I, st, env, node):
                n[0] += 1
                v = mk("call", "simulated", const(n[0]))
                a = {k: I.snap(st, x) for k, x in env.items()}
                a.setdefault("flat", TRUE)
                I.event(st, "call", "simulate", args=a, res=v, node=node)
                return [(st, v)]
            I = c.interp({"UseCase.datetimeindex": log_stub("dti", DTI), "UseCase.generate_daily_load_profiles_parallel": sim, "UseCase.initialize": log_stub("init")})
            I.recursion[con] = sim
            where = c.where(I, con)
            st = St()
            k = {"one case": 1, "two cases": 2, "three cases": 3}.get(nm)
            els = [sym(f"case_{i}", "str") for i in range(k or 0)]
            cs = I.new_list(st, els) if k else sym("cases", "list")
            got = 0
            runs = c.run(I, con, st.copy(), [UCS], {"cases": cs, "days": DAYS})
            runs += c.run(I, con, st, [UCS], {"cases": cs, "days": DAYS, "flat": FALSE})     # flat is about simulations without cases
            for s in runs:
                r = raised(I, s)
                L = lits_of(s)
                if r:
                    iss = any(l.op == "not" and l.a[0].op == "isinst" for l in L)
                    if not iss:
                        c.judge(None if st_weak(s) or any(l.op == "isnone" for l in L) else False, "one-run-per-case", where, f"({nm}) raises {r} under {fact_text(s)}")
                    continue
                got += 1
                evs = list(flat_events(s.events))
                sims = [e for e in evs if e.kind == "call" and e.name == "simulate"]
                for j, e in enumerate(evs):
                    if e.kind in ("call", "seed") and e.name in ("seed", "random.seed", "numpy.random.seed", "random.setstate", "numpy.random.set_state") and (
                            getattr(e, "loops", ()) or any(q.kind == "call" and q.name == "simulate" for q in evs[:j])) and not any(
                            x in els or x.op in ("at", "b", "draw") for v in e.args.values() if isinstance(v, T) for x in subterms(v)) and any(
                            v is not NONE for v in e.args.values()):
                        c.bad("independent-runs", f"{where.rsplit(':', 1)[0]}:{e.line}", f"{e.name} makes the runs of the cases depend on each other")
                v = ret(s)
                fr = frame_of(I, s, v, {"df"} | data_field(c))
                if fr is None:
                    c.judge(None if weak(I.snap(s, v)) and not (I.snap(s, v).op == "call" and I.snap(s, v).a[0] in ("pandas.concat", "pandas.DataFrame", "simulated")) else False, "plot-returned", where, f"({nm}) returns {show(I.snap(s, v))[:120]}")
                    continue
                c.ok("plot-returned", where)
                if fr.op == "setattr" and fr.a[1] == "index":
                    es = table_entries(fr.a[0])
                    es = es and [(x, y, fr.a[2]) for x, y, _ in es]
                else:
                    es = table_entries(fr)
                if es is False:
                    c.bad("one-column-per-case", where, f"({nm}) {show(fr)[:200]}")
                    continue
                if es is None:
                    c.undec("one-column-per-case", where, f"({nm}) {show(fr)[:200]}")
                    continue
                c.judge(len(es) == (k or 1) or (None if not k else False), "one-column-per-case", where, f"({nm}) {len(es)} columns")
                used = []
                for i, (lab, data, ix) in enumerate(es):
                    el = els[i] if k and i < k else None
                    if el is None:
                        ats = [x for x in subterms(lab) if x.op == "at" and x.a[0] is cs]
                        c.judge(bool(ats) or (None if weak(lab) or cs in subterms(lab) else False), "labelled-after-its-case", where, f"({nm}) label {show(lab)[:100]}")
                    else:
                        c.judge(el in subterms(lab) or (None if weak(lab) else False), "labelled-after-its-case", where, f"({nm}) column {i} labelled {show(lab)[:100]}")
                    e = flat_of(data, sims)
                    if e is None:
                        wrong = any(x.op == "call" and x.a[0] == "simulated" for x in subterms(data)) and not weak(data, mk("call", "simulated")) or any(data is q.res for q in sims) or any(
                            x.op == "call" and x.a[0] in RESHAPED for x in subterms(data))
                        c.judge(False if wrong else None, "own-run-flattened", where, f"({nm}) column {i} holds {show(data)[:120]}")
                    else:
                        c.ok("own-run-flattened", where)
                        used.append(e)
                        if k is None:
                            c.judge(bool(e.loops) or (None if not k else False) if e.loops else False, "one-run-per-case", where, f"({nm}) the same run is used for every case")
                        dd = e.args.get("days", NONE)
                        moved = any(q.kind == "set" and q.recv is UCS for q in evs)
                        c.judge(dd is DAYS or (None if moved or weak(dd) else False), "given-days-simulated", where, f"({nm}) days {show(dd)[:60]}")
                        cc = e.args.get("cases", NONE)
                        c.judge(cc is NONE or None, "given-days-simulated", where, f"({nm}) cases {show(cc)[:60]}")
                    c.judge(ix is DTI or (None if weak(ix) else False), "against-the-datetime-index", where, f"({nm}) column {i} against {show(ix)[:80]}")
                if k and len(used) == k:
                    c.check(len({id(e) for e in used}) == k and len({id(e.res) for e in used}) == k, "one-run-per-case", where, f"({nm}) {len({id(e.res) for e in used})} runs for {k} cases")
            if not got:
                c.judge(None, "plot-returned", where, f"({nm}) never returns")


@rule("C43", 3, "Several cases are independent runs of the same use case", "abstract interpretation of the generation with a list of cases; a simulation without cases is a cut point returning a new value per call",
      "each simulation without cases is new (random draws; its contract is C01-C20); pandas.Series, concat and DataFrame hold what they are given (trusted).")
def c43(c):
    o_cases(c)
