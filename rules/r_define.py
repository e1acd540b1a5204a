"""C29-C32: definition of appliances and users, registration, equality"""
from .r_day2 import *

CTOR = ("number power num_windows func_time time_fraction_random_variability func_cycle fixed fixed_cycle continuous_duty_cycle occasional_use flat "
        "thermal_p_var pref_index wd_we_type name").split()
CTOR_DEFAULT = dict(number=1, num_windows=1, func_time=0, time_fraction_random_variability=0, func_cycle=1, fixed="no", fixed_cycle=0, continuous_duty_cycle=1,
                    occasional_use=1, flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, name="")
WINS = ("window_1", "window_2", "window_3", "random_var_w")
CYC = {k: [f"p_{k}1", f"t_{k}1", f"p_{k}2", f"t_{k}2", f"r_c{k}", f"cw{k}1", f"cw{k}2"] for k in (1, 2, 3)}
LEGACY = ("number power num_windows func_time time_fraction_random_variability func_cycle fixed fixed_cycle occasional_use flat thermal_P_var pref_index "
          "wd_we_type name").split()
STRS = ("fixed", "flat", "name")
ALLP = CTOR + list(WINS) + CYC[1] + CYC[2] + CYC[3]


def psym(n, pre="given_"):
    if n.startswith("window") or n.startswith("cw"):
        return sym(pre + n, "pair")
    if n in STRS:
        return sym(pre + n, "str")
    if n == "power" or n == "random_var_w" or n.startswith(("p_", "r_c")) or n in ("occasional_use", "thermal_p_var", "thermal_P_var", "time_fraction_random_variability"):
        return sym(pre + n, "float")
    return sym(pre + n, "int")


def same_pair(I, s, got, want):
    """a window stored as given (or as an array of the same two numbers)"""
    if got is want or got is None:
        return got is want
    if got.op in ("vec", "tuple", "rows", "seq") and len(got.a) == 2 and all(isinstance(x, T) for x in got.a):
        F = Facts(s.facts)
        return eqv(F, got.a[0], mk("at", want, ZERO)) and eqv(F, got.a[1], mk("at", want, ONE))
    return got.op in ("arr", "nd", "asarray") and got.a and got.a[0] is want


def o_specific(c, which=(1, 2, 3)):
    for k in which:
        for given in (True, False):
            for q in (f"Appliance.specific_cycle_{k}", "Appliance.specific_cycle"):
                with c.ob("cycle-parameters-stored", q):
                    I = c.interp()
                    st = St()
                    names = CYC[k] if given else CYC[k][:5]
                    kw = {n: psym(n) for n in names}
                    # the numbers of minutes and their parts are not negative
                    for n in names:
                        if n.startswith("t_"):
                            st.assume(le(ZERO, kw[n]))
                    outs = c.run(I, q, st, [APP] + ([const(k)] if q.endswith("specific_cycle") else []), kw)
                    where = c.where(I, q)
                    for s in outs:
                        if raised(I, s):
                            c.judge(None if st_weak(s) else False, "cycle-parameters-stored", where, f"raises {raised(I, s)}")
                            continue
                        stored(c, I, s, APP, kw, "cycle-parameters-stored", where)
                        if not given:
                            for n in CYC[k][5:]:
                                v = final(I, s, APP, n)
                                c.judge(v is a_(n) or (None if weak(v) else False), "cycle-windows-kept", where, f"{n} becomes {show(v)[:100]} although it is not given")
                        other = [n for (o, n) in s.fields if o is APP and any(n in CYC[j] for j in (1, 2, 3) if j != k)]
                        c.check(not other, "other-cycles-untouched", where, f"also changes {other}")


def stored(c, I, s, app, want, rule_, where, skip=()):
    F = Facts(s.facts)
    for n, w in want.items():
        if n in skip:
            continue
        v = final(I, s, app, n)
        if n == "power":
            ok = v.op == "full" and eqv(F, v.a[1], w)
        elif n.startswith(("window", "cw")):
            ok = same_pair(I, s, v, w)
        else:
            ok = v is w or eqv(F, v, w)
        if ok:
            c.ok(rule_, where)
        else:
            c.judge(None if weak(v, w) and v.op not in ("sym", "c", "vec", "attr") else False, rule_, where, f"{n} is {show(v)[:150]}, not the given {show(w)[:80]}")


def o_ctor(c):
    con = "Appliance.__init__"
    for names in (CTOR, ["number", "power"], []):
        for positional in (False, True):
            with c.ob("constructor-parameters-stored", con):
                I = c.interp()
                st = St()
                kw = {n: psym(n) for n in names}
                args = [APP, SELF_U] + (list(kw.values()) if positional else [])
                outs = c.run(I, con, st, args, {} if positional else kw)
                where = c.where(I, con)
                for s in outs:
                    if raised(I, s):
                        c.judge(None if st_weak(s) else False, "constructor-parameters-stored", where, f"raises {raised(I, s)}")
                        continue
                    want = dict(kw)
                    for n, d in CTOR_DEFAULT.items():
                        want.setdefault(n, const(d))
                    want["user"] = SELF_U
                    stored(c, I, s, APP, want, "constructor-parameters-stored", where)
                    z = mk("vec", ZERO, ZERO)
                    for k in (1, 2, 3):
                        for n in CYC[k]:
                            v = final(I, s, APP, n)
                            d = z if n.startswith("cw") else ZERO
                            c.judge(v is d or (None if weak(v) else False), "duty-cycles-empty-by-default", where, f"{n} is initially {show(v)[:100]}")
                        v = final(I, s, APP, f"window_{k}")
                        c.judge(v is z or (None if weak(v) else False), "windows-empty-by-default", where, f"window_{k} is initially {show(v)[:100]}")
                        v = final(I, s, APP, f"random_var_{k}")
                        c.judge(v is ZERO or (None if weak(v) else False), "windows-empty-by-default", where, f"random_var_{k} is initially {show(v)[:100]}")
                    v = final(I, s, APP, "daily_use")
                    c.judge(v.op == "zeros" or (None if weak(v) else False), "profile-zero-by-default", where, show(v)[:100])


SUBSETS = [("everything", ALLP), ("constructor only", CTOR), ("window_1", ["number", "func_time", "power", "window_1"]),
           ("windows and first cycle", ["number", "power", "num_windows", "window_1", "window_2", "random_var_w", "fixed_cycle"] + CYC[1]),
           ("third cycle only", ["power"] + CYC[3]), ("parts of the second cycle", ["power", "p_21", "t_22", "cw22"]), ("random_var_w only", ["power", "random_var_w"])]


def o_one_call(c):
    con = "User.add_appliance"
    for nm, names in SUBSETS:
        with c.ob("one-call-definition", con):
            one_call(c, con, nm, names, {})
    o_single_cycle(c)
    for k in (1, 2, 3):
        for n in CYC[k]:
            with c.ob("one-call-definition", con):
                one_call(c, con, f"{n} only", ["power", n], {})
    for n in (1, 3, len(CTOR)):
        with c.ob("positional-arguments", con):
            one_call(c, con, f"{n} positional", CTOR[:n], {}, n)
    with c.ob("positional-arguments", con):
        one_call(c, con, "positional and keywords", CTOR[:4] + ["window_1"] + CYC[1], {}, 4)


def o_single_cycle(c):
    """an appliance with a single duty cycle, with and without windows of that cycle of its own"""
    con = "User.add_appliance"
    base = ["number", "power", "num_windows", "window_1", "window_2", "fixed_cycle"]
    for nm, names in (("one duty cycle with its windows", base + CYC[1]), ("one duty cycle with its first window", base + ["cw11", "p_11"]),
                      ("one duty cycle with its second window", base + ["cw12", "t_11"]),
                      ("one duty cycle", base + [n for n in CYC[1] if not n.startswith("cw")]),
                      ("one duty cycle, three windows", base + ["window_3"] + [n for n in CYC[1] if not n.startswith("cw")])):
        with c.ob("one-call-definition", con):
            one_call(c, con, nm, names, {"fixed_cycle": 1})


def one_call(c, con, nm, names, extra, npos=0):
    I = c.interp({"Appliance.__eq__": s_same})
    st = St()
    st.fields[(SELF_U, "App_list")] = I.new_list(st, [])
    st.fields[(SELF_U, "usecase")] = NONE
    kw = {n: psym(n) for n in names}
    if "num_windows" in kw:
        kw["num_windows"] = const(3 if "window_3" in names else 2 if "window_2" in names else 1)
    if "fixed_cycle" in kw:
        kw["fixed_cycle"] = const(extra.get("fixed_cycle", 2))
    if "func_time" in kw:
        st.assume(le(ONE, kw["func_time"]))
    if "name" in kw:
        st.assume(not_(eq(kw["name"], const(""))))
    for n, v in kw.items():
        if n.startswith("t_"):
            st.assume(le(ZERO, v))
    pos = [kw.pop(n) for n in names[:npos]]
    outs = c.run(I, con, st, [SELF_U] + pos, kw)
    kw = dict(zip(names[:npos], pos), **kw)
    where = c.where(I, con)
    rule_ = "one-call-definition" if not npos else "positional-arguments"
    n_ok = 0
    for s in outs:
        r = raised(I, s)
        if r == "InvalidWindow":
            continue
        if r:
            c.judge(None if st_weak(s) else False, rule_, where, f"({nm}) raises {r}")
            continue
        app = ret(s)
        if app is None or app.op not in ("ref", "sym"):
            c.judge(None if app is not None and weak(app) else False, "returns-the-appliance", where, f"({nm}) returns {show(app)[:80] if app else None}")
            continue
        n_ok += 1
        want = dict(kw)
        for n, d in CTOR_DEFAULT.items():
            want.setdefault(n, const(d))
        for k in (1, 2, 3):
            some = any(n in kw for n in CYC[k])
            for n in CYC[k]:
                if n not in want:
                    want[n] = mk("vec", ZERO, ZERO) if n.startswith("cw") else ZERO
        for w in WINS[:3]:
            if w not in want and (w != "window_1" or not any(x in kw for x in WINS)):
                want[w] = mk("vec", ZERO, ZERO)
        want.setdefault("random_var_w", ZERO)
        if kw.get("fixed_cycle") is ONE:
            # the windows of use are those of the only duty cycle unless others are given
            for n, w in (("cw11", "window_1"), ("cw12", "window_2")):
                if n not in kw and w in want:
                    want[n] = want[w]
        if "name" not in kw:
            want["name"] = const("appliance_1")
        want["user"] = SELF_U
        stored(c, I, s, app, want, rule_, f"{where} ({nm})", skip=("power",) if "power" not in kw else ())
        al = I.snap(s, s.fields[(SELF_U, "App_list")])
        c.judge(al.op == "vec" and len(al.a) == 1 and al.a[0] is app or (None if weak(al) else False), "added-to-the-user", f"{where} ({nm})", f"appliances of the user: {show(al)[:100]}")
    if not n_ok:
        c.undec(rule_, where, f"({nm}) no normal outcome")


def s_same(I, st, env, node):
    return [(st, mk("call", "same", *[v for v in env.values()]))]


def o_legacy(c):
    con = "User.Appliance"
    with c.ob("legacy-arguments", con):
        for npos, names in ((0, LEGACY), (len(LEGACY), LEGACY), (0, ["func_time"]), (3, LEGACY[:4])):
            I = c.interp({"Appliance.__eq__": s_same})
            st = St()
            st.fields[(SELF_U, "App_list")] = I.new_list(st, [])
            st.fields[(SELF_U, "usecase")] = NONE
            kw = {n: psym(n) for n in names}
            st.assume(le(ONE, kw["func_time"]))
            outs = c.run(I, con, st, [SELF_U] + (list(kw.values()) if npos else []), {} if npos else kw)
            where = c.where(I, con)
            n_ok = 0
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "legacy-arguments", where, f"raises {raised(I, s)}")
                    continue
                app = ret(s)
                if app is None or app.op not in ("ref", "sym"):
                    c.judge(None if app is not None and weak(app) else False, "legacy-arguments", where, f"returns {show(app)[:80] if app else None}")
                    continue
                n_ok += 1
                want = {("thermal_p_var" if n == "thermal_P_var" else n): v for n, v in kw.items()}
                for n, d in CTOR_DEFAULT.items():
                    want.setdefault(n, const(d))
                name = want.pop("name")
                want["continuous_duty_cycle"] = ONE
                stored(c, I, s, app, want, "legacy-arguments", where)
                v = final(I, s, app, "name")
                ok = v is name or v is ite(eq(name, const("")), const("appliance_1"), name) or v is const("appliance_1") and not sat(list(s.facts) + [not_(eq(name, const("")))])
                c.judge(ok or (None if weak(v) else False), "legacy-arguments", where, f"name is {show(v)[:80]}")
            if not n_ok:
                c.undec("legacy-arguments", where, "no normal outcome")


@rule("C29", 30, "One-call and step-by-step definitions agree", "abstract interpretation with one symbol per argument; final value of every field compared to its argument",
      "Arguments of the documented types.")
def c29(c):
    o_ctor(c)
    o_one_call(c)
    o_legacy(c)
    o_cycle_behaviour(c)
    o_specific(c)


def o_cycle_behaviour(c):
    con = "Appliance.cycle_behaviour"
    if c.interp({}).get_func(con) is None:
        return
    W = [f"cw{k}{j}" for k in (1, 2, 3) for j in (1, 2)]
    for names in (W, W[:2], W[2:5], []):
        for positional in (False, True) if names and names[0] == W[0] else (False,):
            with c.ob("cycle-windows-stored", con):
                I = c.interp()
                st = St()
                kw = {n: psym(n) for n in names}
                outs = c.run(I, con, st, [APP] + (list(kw.values()) if positional else []), {} if positional else kw)
                where = c.where(I, con)
                for s in outs:
                    if raised(I, s):
                        c.judge(None if st_weak(s) else False, "cycle-windows-stored", where, f"raises {raised(I, s)}")
                        continue
                    stored(c, I, s, APP, kw, "cycle-windows-stored", where)
                    for n in W:
                        if n not in kw:
                            v = final(I, s, APP, n)
                            c.judge(v is mk("vec", ZERO, ZERO) or v is a_(n) or (None if weak(v) else False), "cycle-windows-stored", where, f"{n} becomes {show(v)[:100]} although it is not given")


# ------------------------------------------------------------------ C30 windows
def o_windows(c):
    con = "Appliance.windows"
    for nw in (1, 2, 3):
        for given in ((), (1,), (2,), (1, 2), (1, 3), (2, 3), (1, 2, 3)):
            with c.ob("window-declaration", con):
                windows_case(c, con, nw, given)


def windows_case(c, con, nw, given):
    I = c.interp({"Appliance.__eq__": s_same})
    st = St()
    st.fields[(APP, "num_windows")] = const(nw)
    st.fields[(APP, "user")] = SELF_U
    st.fields[(SELF_U, "App_list")] = I.new_list(st, [])
    kw = {f"window_{k}": sym(f"given_w{k}", "pair") for k in given}
    rv = sym("rvw", "float")
    kw["random_var_w"] = rv
    for k in given:
        st.assume(le(ZERO, mk("at", kw[f"window_{k}"], ZERO)))
        st.assume(le(mk("at", kw[f"window_{k}"], ZERO), mk("at", kw[f"window_{k}"], ONE)))
    outs = c.run(I, con, st, [APP], kw)
    where = c.where(I, con)
    pos = lambda k: (mk("at", kw[f"window_{k}"], ZERO), mk("at", kw[f"window_{k}"], ONE)) if k in given else (
        (ZERO, const(1440)) if k == 1 else (mk("at", a_(f"window_{k}"), ZERO), mk("at", a_(f"window_{k}"), ONE)))
    length = lambda k: sub(pos(k)[1], pos(k)[0])
    missing = (nw >= 2 and 2 not in given) or (nw >= 3 and 3 not in given)
    total = ZERO
    for k in range(1, nw + 1):
        total = add(total, length(k))
    ft = a_("func_time")
    tag = f"{where}"
    case = f"num_windows {nw}, windows {given} given"
    for s in outs:
        r = raised(I, s)
        al = I.snap(s, s.fields[(SELF_U, "App_list")])
        wk = st_weak(s)
        if r:
            c.judge(r == "InvalidWindow" or (None if wk else False), "refused-with-InvalidWindow", tag, f"raises {r} ({case})")
            c.judge(al.op == "vec" and not al.a or (None if weak(al) else False), "refused-appliance-not-added", tag, f"the refused appliance is added to the user ({case})")
            if not missing:
                c.judge(not sat(list(s.facts) + [le(ft, total)]) or (None if wk else False), "refused-only-if-inconsistent", tag,
                        f"refused although the windows are long enough ({case}): {fact_text(s)[-300:]}")
            else:
                c.ok("missing-window-refused", tag)
            continue
        if missing:
            c.judge(None if wk else False, "missing-window-refused", tag, f"accepted with {case}")
            continue
        c.judge(not sat(list(s.facts) + [lt(total, ft)]) or (None if wk else False), "too-short-windows-refused", tag,
                f"accepted although the declared windows are shorter than func_time ({case})")
        F = Facts(s.facts)
        for k in (1, 2, 3):
            v = final(I, s, APP, f"window_{k}")
            if k in given:
                ok = same_pair(I, s, v, kw[f"window_{k}"])
            elif k == 1:
                ok = v.op in ("vec", "tuple") and len(v.a) == 2 and v.a[0] is ZERO and v.a[1] is const(1440)
            else:
                ok = v is a_(f"window_{k}")
            c.judge(ok or (None if weak(v) else False), "windows-stored", tag, f"window_{k} is {show(v)[:120]} ({case})")
            v = final(I, s, APP, f"random_var_{k}")
            want = mk_int(mul(rv, length(k)))
            if want is None:
                continue
            c.judge(eqv(F, v, want) or (None if weak(v, want) else False), "window-variability", tag, f"random_var_{k} is {show(v)[:150]} ({case})")
        if 1 not in given:
            c.check(any(e.kind == "warn" for e in flat_events(s.events)), "default-window-warned", tag, f"no warning that the whole day is used ({case})")
        v = final(I, s, APP, "random_var_w")
        c.judge(v is rv or (None if weak(v) else False), "window-variability", tag, f"random_var_w is {show(v)[:100]}")
        c.judge(al.op == "vec" and len(al.a) == 1 and al.a[0] is APP or (None if weak(al) else False), "added-to-the-user", tag, f"appliances of the user: {show(al)[:100]} ({case})")


def mk_int(x):
    return rounder("int", x)


@rule("C30", 40, "Inconsistent windows are refused", "path-sensitive abstract interpretation over all declarations of windows; acceptance condition proved / refuted per path by polyhedra facts",
      "Windows are pairs of integers with start <= end; num_windows 1, 2 or 3.")
def c30(c):
    o_windows(c)


# ------------------------------------------------------------------ C31 equality
EQ_SCALAR = [n for n in CTOR if n != "power"] + ["random_var_w"] + [n for k in (1, 2, 3) for n in CYC[k][:5]]
EQ_ARRAY = ["power", "window_1", "window_2", "window_3"] + [n for k in (1, 2, 3) for n in CYC[k][5:]]
OTHER = sym("other", "obj:Appliance")


def o_eq(c):
    con = "Appliance.__eq__"
    with c.ob("equality", con):
        I = c.interp()
        st = St()
        outs = c.run(I, con, st, [APP, OTHER])
        where = c.where(I, con)
        for s in outs:
            r = raised(I, s)
            if r:
                c.judge(None if st_weak(s) else False, "comparison-never-fails", where, f"raises {r}")
                continue
            v = I.snap(s, ret(s))
            if v is NONE:
                c.judge(None if st_weak(s) else False, "equal-iff-all-parameters-equal", where, "returns nothing")
                continue
            lits = conj(v) if v is not FALSE and v is not TRUE else []
            facts = [l for f in s.facts for l in conj(f)]
            if v is FALSE or v is TRUE:
                lits = [l for l in facts] if v is TRUE else []
            else:
                lits = list(lits) + facts
            if v is FALSE:
                # some fact must be a difference of required attributes
                diffs = set()
                for f in s.facts:
                    for l in disj(f):
                        nm, how = attr_cmp(not_(l))
                        if nm:
                            diffs.add(nm)
                extra = diffs - set(EQ_SCALAR) - set(EQ_ARRAY)
                c.judge(bool(diffs) and not extra or (None if not diffs and st_weak(s) else False), "equal-only-parameters-compared", where,
                        f"unequal because of {sorted(extra) or 'nothing'}")
                continue
            seen, odd = {}, []
            for l in lits:
                nm, how = attr_cmp(l)
                if nm:
                    seen.setdefault(nm, set()).add(how)
                elif l is not TRUE:
                    odd.append(l)
            if any(l is FALSE or (l.op == "not" and attr_cmp(l.a[0])[0]) for l in odd) or v.op == "or" and all(attr_cmp(x)[0] for x in v.a):
                c.bad("equal-iff-all-parameters-equal", where, f"result is {show(v)[:200]}")
                continue
            atoms = {x: attr_cmp(x)[0] for l in odd for x in subterms(l) if attr_cmp(x)[0]}
            for n in EQ_SCALAR + EQ_ARRAY:
                if n in seen:
                    c.check(not (n in EQ_ARRAY and seen[n] == {"eq"}), "comparison-never-fails", where, f"{n} is compared element by element, which fails for different lengths")
                    c.ok("every-parameter-compared", where)
                    continue
                # the other conditions if this is the only difference
                left = [subst(l, {x: const(m != n) for x, m in atoms.items()}) for l in odd]
                if n in atoms.values() and any(l is FALSE for l in left):
                    c.ok("every-parameter-compared", where)
                    continue
                how = lossy(n, odd)
                if odd and all(l is TRUE for l in left):
                    how = how or "not counted"
                c.judge(False if how or not odd else None, "every-parameter-compared", where, f"appliances which differ in {n} are equal"
                        + (f" ({how})" if how else f" (other conditions: {[show(x)[:120] for x in odd[:2]]})" if odd else ""))
            if odd and all(subst(l, {x: TRUE for x in atoms}) is TRUE for l in odd):
                odd = []
            extra = [n for n in seen if n not in EQ_SCALAR and n not in EQ_ARRAY]
            c.check(not extra, "equal-only-parameters-compared", where, f"equality depends on {extra}")
            for l in list(odd):
                if escapes(l) or disguised(l):
                    c.bad("equal-iff-all-parameters-equal", where, f"{'not needed to be equal in some cases' if escapes(l) else 'not compared as they are'}: {show(l)[:200]}")
                    odd.remove(l)
            if odd:
                c.judge(None, "equal-iff-all-parameters-equal", where, f"other conditions: {[show(x)[:80] for x in odd[:4]]}")


def o_eq_missing(c):
    """a parameter that only one of the appliances has makes them different, one that both lack does not"""
    con = "Appliance.__eq__"
    with c.ob("missing-parameters", con):
        I = c.interp()
        where = c.where(I, con)
        for n in EQ_SCALAR + EQ_ARRAY:
            for who in ((APP,), (OTHER,), (APP, OTHER)):
                st = St()
                st.absent = frozenset((o, n) for o in who)
                for s in c.run(I, con, st, [APP, OTHER]):
                    r = raised(I, s)
                    if r:
                        c.judge(None if st_weak(s) else False, "comparison-never-fails", where, f"raises {r} if {n} is missing in {'both' if len(who) == 2 else 'one'}")
                        continue
                    v = I.snap(s, ret(s))
                    if len(who) == 1:
                        ok = v is FALSE or Facts(list(s.facts), I.axiom_hook).entails(not_(v))
                        c.judge(True if ok else (None if [x for x in subterms(v) if x.op in WEAK] else False), "missing-in-one-differs", where,
                                f"appliances of which only one has {n} can be equal")
                    else:
                        if v is FALSE and not s.facts:
                            c.bad("missing-in-both-is-equal", where, f"appliances which both lack {n} differ")
                        else:
                            c.ok("missing-in-both-is-equal", where)


def conj(t):
    while t.op == "truth" and t.a[0].op in ("and", "truth", "all"):
        t = t.a[0]
    if t.op == "and":
        return [y for x in t.a for y in conj(x)]
    return [t]


def disj(t):
    if t.op == "or":
        return [y for x in t.a for y in disj(x)]
    if t.op == "not" and t.a[0].op == "and":
        return [y for x in t.a[0].a for y in disj(not_(x))]
    return [t]


def escapes(l):
    """a parameter need not be equal when a condition on one of the appliances alone holds"""
    if l.op != "or":
        return False
    same = [x for x in l.a if attr_cmp(x)[0]]
    rest = [x for x in l.a if not attr_cmp(x)[0]]
    for x in rest:
        roots = {y.a[0] for y in subterms(x) if y.op == "attr" and y.a[0] in (APP, OTHER)}
        plain = not any(y.op in WEAK or y.op in ("call", "hasattr", "is") for y in subterms(x))
        if same and len(roots) == 1 and plain and sat([x, not_(same[0])]):
            return True
    return False


LOSSY = {"numpy.allclose", "numpy.isclose", "math.isclose", "numpy.shape", "numpy.size", "numpy.ndim", "numpy.mean", "numpy.sum", "numpy.max", "numpy.min",
         "builtins.type"}


def lossy(n, lits):
    """the parameter only takes part through something which does not determine it (its length, an approximate comparison …)"""
    of = [x for l in lits for x in subterms(l) if x.op == "attr" and x.a[0] in (APP, OTHER) and x.a[1] == n]
    if not of:
        return None
    found = set()

    def inside(t, f):
        if t.op == "call" and t.a[0] in LOSSY:
            f = t.a[0]
        elif t.op in ("len", "asum", "amax", "amin", "mean"):
            f = t.op
        if t in of:
            found.add(f)
            return
        for x in t.a:
            args(x, f)

    def args(x, f):
        if isinstance(x, tm.T):
            inside(x, f)
        elif isinstance(x, tuple):
            for y in x:
                args(y, f)
    for l in lits:
        inside(l, None)
    if None in found or not found:
        return None
    return f"only compared through {sorted(found)}"


def disguised(l):
    """both values of a parameter go through a conversion before the comparison"""
    while l.op == "truth":
        l = l.a[0]
    if l.op != "array_equal" or len(l.a) != 2:
        return False

    def kind(x):
        fs = []
        while True:
            if x.op == "astype" and x.a[1].op == "ext" and x.a[1].a[0] in ("builtins.str", "builtins.int", "builtins.bool", "numpy.str_", "numpy.int_", "numpy.bool_"):
                fs.append(x.a[1].a[0])
                x = x.a[0]
            elif x.op == "call" and x.a[0] in ROUNDING_CALLS | {".astype"}:
                g = call_args(x)
                if x.a[0] == ".astype" and not any(y.op == "ext" and y.a[0] in ("builtins.str", "builtins.int", "builtins.bool") for y in g[1:]):
                    return None
                fs.append(x.a[0])
                x = [y for y in g if y is not NONE][0]
            elif x.op == "call" and x.a[0] in ("numpy.asarray", "numpy.array"):
                x = [y for y in call_args(x) if y is not NONE][0]
            else:
                return (x.a, fs) if x.op == "attr" and fs else None
    a, b = kind(l.a[0]), kind(l.a[1])
    return bool(a and b and a[0][1] == b[0][1] and a[1] == b[1])


def attr_cmp(l):
    """(attribute, how) if the literal states that an attribute is the same in both appliances"""
    if l.op == "truth":
        l = l.a[0]
    if l.op == "array_equal" and len(l.a) == 2:
        x, y = l.a
        how = "array_equal"
    else:
        at = [x for x in set(subterms(l)) if x.op == "attr" and x.a[0] in (APP, OTHER)]
        if len(at) != 2 or at[0].a[1] != at[1].a[1] or at[0].a[0] is at[1].a[0]:
            return None, None
        x, y = at
        forms = [eq(x, y), eq(y, x), eq(sub(x, y), ZERO), mk("aeq", x, y), mk("aeq", y, x)]
        if l in forms:
            how = "eq"
        elif l.op in ("all", "alltrue") and l.a[0] in forms:
            how = "eq"
        else:
            return None, None
    if x.op == "attr" and y.op == "attr" and x.a[1] == y.a[1] and {x.a[0], y.a[0]} == {APP, OTHER}:
        return x.a[1], how
    return None, None


@rule("C31", 25, "Equality of appliances", "abstract interpretation; the result as a conjunction of comparisons is compared to the list of all parameters",
      "numpy.array_equal never raises and is False for different lengths (trusted); hasattr/getattr evaluated on both, one or none of the appliances having the parameter.")
def c31(c):
    o_eq(c)
    o_eq_missing(c)


# ------------------------------------------------------------------ C44 equality of users
def same_lit(x, y):
    return mk("truth", mk("call", "same", x, y))


def o_user_eq(c):
    con = "User.__eq__"
    other = sym("other", "obj:User")
    for na, nb in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 0), (1, 2), (2, 1), (2, 0)):
        with c.ob("equality-of-users", con):
            I = c.interp({"Appliance.__eq__": lambda I, st, env, node: [(st, same_lit(*env.values()))]})
            where = c.where(I, con)
            A, B = [app_(f"a{i}") for i in range(na)], [app_(f"b{i}") for i in range(nb)]
            st = St()
            st.fields[(SELF_U, "App_list")] = I.new_list(st, A)
            st.fields[(other, "App_list")] = I.new_list(st, B)
            need = []
            for n, t in (("user_name", "str"), ("num_users", "int"), ("user_preference", "int")):
                x, y = sym("self_" + n, t), sym("other_" + n, t)
                st.fields[(SELF_U, n)], st.fields[(other, n)] = x, y
                need.append((n.replace("_", "-") + "-compared", eq(x, y)))
            if na != nb:
                need.append(("number-of-appliances-compared", FALSE))
            else:
                for x, y in zip(A, B):
                    need.append(("appliances-compared", same_lit(x, y)))
            what = f"users with {na} and {nb} appliances"
            for s in c.run(I, con, st, [SELF_U, other]):
                r = raised(I, s)
                if r:
                    c.judge(None if st_weak(s) else False, "comparison-never-fails", where, f"{what}: raises {r}")
                    continue
                v = I.snap(s, ret(s))
                # same(b, a) is same(a, b)
                flip = {mk("call", "same", y, x): mk("call", "same", x, y) for x in A for y in B}
                v = subst(v, flip)
                facts = [subst(f, flip) for f in s.facts]
                v = v if v.op in ("truth", "not", "and", "or") or v in (TRUE, FALSE) else mk("truth", v)
                wk = [x for f in facts + [v] for x in subterms(f) if x.op in WEAK or x.op == "call" and x.a[0] != "same"]
                if not sat(facts):
                    continue
                for rule_, l in need:
                    diff = sat(facts + [v, not_(l)])
                    c.judge(not diff or (None if wk else False), rule_, where, f"{what}: the result can be True although {'they have not the same number of appliances' if l is FALSE else 'not ' + show(l)}")
                if na == nb:
                    alike = sat(facts + [not_(v)] + [l for _, l in need])
                    c.judge(not alike or (None if wk else False), "equal-users-are-equal", where, f"{what}: the result can be False although all is equal")


@rule("C44", 3, "Equality of users", "abstract interpretation of the comparison for users with up to two appliances, equality of appliances being an uninterpreted predicate; the result compared to the conjunction required",
      "a comparison of texts or numbers is symmetric; equality of appliances is C31.")
def c44(c):
    o_user_eq(c)


# ------------------------------------------------------------------ C32 registration
def app_(n):
    return sym(n, "obj:Appliance")


def own_name(x):
    """the name given to an appliance, a text"""
    return sym("name_of_" + show(x), "str")


def already(c):
    """the appliances already registered"""
    return [app_(f"a{i + 1}") for i in range(2 + c.extra)]


def reg_case(c, rule_, args, extra_names=()):
    con = "User.add_appliance"
    I = c.interp({"Appliance.__eq__": s_same})
    st = St()
    st.fields[(SELF_U, "App_list")] = I.new_list(st, already(c))
    for x in args:
        if ty(x) == "obj:Appliance":
            st.fields[(x, "name")] = own_name(x)
    return I, c.run(I, con, st, [SELF_U] + args), c.where(I, con)


def same_in(facts, x, others):
    """does the outcome state that x is equal to one of the others / different from all of them (True / False / None)"""
    lit = [mk("truth", mk("call", "same", *p)) for o in others for p in ((o, x), (x, o))]
    for f in facts:
        ds = disj(f)
        if all(d in lit for d in ds):
            return True
    neg = set()
    for f in facts:
        for d in conj(f):
            if d.op == "not":
                for e in disj(d.a[0]):
                    neg.add(e)
    if all(any(mk("truth", mk("call", "same", *p)) in neg for p in ((o, x), (x, o))) for o in others):
        return False
    return None


def o_register_app(c):
    con = "User.add_appliance"
    n1, n2 = map(app_, ("new", "new2"))
    for args in ([n1], [n1, n2]):
        with c.ob("appliances-registered", con):
            I, outs, where = reg_case(c, "appliances-registered", args)
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "appliances-registered", where, f"raises {raised(I, s)} for an appliance")
                    continue
                al = I.snap(s, s.fields[(SELF_U, "App_list")])
                if al.op != "vec":
                    c.judge(None if weak(al) else False, "appliances-registered", where, show(al)[:200])
                    continue
                cur = already(c)
                und = False
                for x in args:
                    e = same_in(s.facts, x, cur)
                    present = x in al.a
                    if e is None:
                        e = None
                        und = True
                        c.judge(None if st_weak(s) or rest_weak(s) else False, "equal-appliance-registered-once", where,
                                f"{show(x)} is {'registered' if present else 'not registered'} without comparing it to all the registered ones ({fact_text(s)[-200:]})")
                    elif present:
                        c.check(e is False, "equal-appliance-registered-once", where, f"{show(x)} is registered although it equals one already registered")
                    else:
                        c.check(e is True, "appliances-registered", where, f"{show(x)} is not registered although it differs from the registered ones")
                    if present:
                        nm = final(I, s, x, "name")
                        own = own_name(x)
                        want = f"appliance_{len(cur) + 1}"
                        if nm.op == "ite" and nm.a[0] is eq(own, const("")):
                            c.judge(nm.a[1] is const(want) or (None if weak(nm.a[1]) else False), "named-after-its-position", where,
                                    f"the unnamed appliance number {len(cur) + 1} is called {show(nm.a[1])[:60]}")
                            c.judge(nm.a[2] is own or (None if weak(nm.a[2]) else False), "given-name-kept", where, f"name becomes {show(nm.a[2])[:60]}")
                        elif not sat(list(s.facts) + [not_(eq(own, const("")))]):
                            c.judge(nm is const(want) or (None if weak(nm) and nm.op not in ("attr", "c") else False), "named-after-its-position", where,
                                    f"the unnamed appliance number {len(cur) + 1} is called {show(nm)[:60]}")
                        elif not sat(list(s.facts) + [eq(own, const(""))]):
                            c.judge(nm is own or (None if weak(nm) and nm.op not in ("attr", "c") else False), "given-name-kept", where, f"name becomes {show(nm)[:60]}")
                        else:
                            c.judge(None if st_weak(s) else False, "named-after-its-position", where, f"name {show(nm)[:60]} whether or not it had a name")
                        cur.append(x)
                c.judge(list(al.a) == cur, "order-of-appliances", where, f"order {show(al)[:150]}")
    for bad in (sym("something", "float"), sym("a_user", "obj:User"), NONE, sym("text", "str")):
        for args in ([n1, bad], [n1, bad, n2]):
            with c.ob("only-appliances-registered", con):
                I, outs, where = reg_case(c, "only-appliances-registered", args)
                for s in outs:
                    r = raised(I, s)
                    c.judge(r == "TypeError" or (None if st_weak(s) else False), "only-appliances-registered", where, f"adding {show(bad)} as instance: {r or 'no error'}")
                    al = I.snap(s, s.fields[(SELF_U, "App_list")])
                    c.judge(al.op == "vec" and bad not in al.a or (None if weak(al) else False), "not-registered-when-refused", where, show(al)[:150])


def o_register_made(c):
    """an appliance made by add_appliance from its parameters is registered like one given as instance"""
    con = "User.add_appliance"
    for named in (True, False):
        with c.ob("made-appliance-registered", con):
            I = c.interp({"Appliance.__eq__": s_same})
            st = St()
            old = already(c)
            st.fields[(SELF_U, "App_list")] = I.new_list(st, old)
            st.fields[(SELF_U, "usecase")] = NONE
            kw = {"power": psym("power")}
            if named:
                kw["name"] = psym("name")
                st.assume(not_(eq(kw["name"], const(""))))
            outs = c.run(I, con, st, [SELF_U], kw)
            where = c.where(I, con)
            n = 0
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "made-appliance-registered", where, f"raises {raised(I, s)}")
                    continue
                x = ret(s)
                al = I.snap(s, s.fields[(SELF_U, "App_list")])
                if al.op != "vec" or x is None or x.op not in ("ref", "sym"):
                    c.judge(None if weak(al) or x is None or weak(x) else False, "made-appliance-registered", where, f"returns {show(x)[:80] if x else None}, list {show(al)[:150]}")
                    continue
                n += 1
                e = same_in(s.facts, x, old)
                there = any(y is x for y in al.a[len(old):])
                if e is None:
                    c.judge(None if st_weak(s) or rest_weak(s) else False, "equal-appliance-registered-once", where,
                            f"the appliance made is {'registered' if there else 'not registered'} without comparing it to all the registered ones")
                else:
                    c.check(there is not e, "equal-appliance-registered-once", where,
                            f"the appliance made is {'' if there else 'not '}registered although it {'equals one' if e else 'differs from all'} already registered")
                c.judge(list(al.a) == old + ([x] if there else []) or (None if weak(al) else False), "order-of-appliances", where, f"order {show(al)[:150]}")
                if there:
                    nm = final(I, s, x, "name")
                    want = kw["name"] if named else const(f"appliance_{len(old) + 1}")
                    c.judge(nm is want or (None if weak(nm) and nm.op not in ("attr", "c", "sym") else False), "named-after-its-position", where,
                            f"the appliance number {len(old) + 1} is called {show(nm)[:60]}")
            if not n:
                c.undec("made-appliance-registered", where, "no normal outcome")


def rest_weak(s):
    return any(weak(f, mk("truth", mk("call", "same", APP, APP)), mk("call", "same", APP, APP)) for f in s.facts)


def o_register_user(c):
    con = "UseCase.add_user"
    n1, n2 = (sym(n, "obj:User") for n in ("new", "new2"))
    old = [sym(f"u{i + 1}", "obj:User") for i in range(2 + c.extra)]
    more = [sym(f"more{i + 1}", "obj:User") for i in range(c.extra)]
    UCS = sym("self", "obj:UseCase")
    bads = [sym("something", "float"), NONE, sym("an_app", "obj:Appliance"), sym("text", "str")]
    cases = [("user", lambda I, st: n1, [n1], None), ("list", lambda I, st: I.new_list(st, [n1, n2] + more), [n1, n2] + more, None), ("empty list", lambda I, st: I.new_list(st, []), [], None)]
    for b in bads:
        cases.append((show(b), lambda I, st, b=b: b, None, b))
        cases.append((f"list with {show(b)}", lambda I, st, b=b: I.new_list(st, [n1, b, n2]), None, b))
    for nm, mkarg, want, bad in cases:
        with c.ob("users-registered" if want is not None else "only-users-registered", con):
            I = c.interp()
            I.concrete_rec = True
            st = St()
            st.fields[(UCS, "users")] = I.new_list(st, old)
            outs = c.run(I, con, st, [UCS, mkarg(I, st)])
            where = c.where(I, con)
            for s in outs:
                r = raised(I, s)
                us = I.snap(s, s.fields[(UCS, "users")])
                if want is None:
                    c.judge(r == "InvalidType" or (None if st_weak(s) else False), "only-users-registered", where, f"adding {nm}: {r or 'no error'}")
                    c.judge(us.op == "vec" and bad not in us.a or (None if weak(us) else False), "not-registered-when-refused", where, f"adding {nm}: users {show(us)[:100]}")
                    continue
                if r:
                    c.judge(None if st_weak(s) else False, "users-registered", where, f"adding {nm} raises {r}")
                    continue
                c.judge(us.op == "vec" and list(us.a) == old + want or (None if weak(us) else False), "users-registered", where, f"adding {nm}: users {show(us)[:150]}")
                for u in want:
                    v = final(I, s, u, "usecase")
                    c.judge(v is UCS or (None if weak(v) and v.op != "attr" else False), "user-knows-its-usecase", where, f"usecase of an added user is {show(v)[:80]}")
    con = "UseCase.__init__"
    for nm, mkarg, want in (("list", lambda I, st: I.new_list(st, [n1, n2] + more), [n1, n2] + more), ("user", lambda I, st: n1, [n1]), ("none", lambda I, st: NONE, [])):
        with c.ob("users-registered", con):
            I = c.interp()
            I.concrete_rec = True
            st = St()
            outs = c.run(I, con, st, [UCS], {"users": mkarg(I, st)})
            where = c.where(I, con)
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "users-registered", where, f"raises {raised(I, s)}")
                    continue
                us = final(I, s, UCS, "users")
                c.judge(us.op == "vec" and list(us.a) == want or (None if weak(us) else False), "users-registered", where, f"users {show(us)[:150]}")
                for u in want:
                    v = final(I, s, u, "usecase")
                    c.judge(v is UCS or (None if weak(v) and v.op != "attr" else False), "user-knows-its-usecase", where, f"usecase is {show(v)[:80]}")


@rule("C32", 20, "Registration of users and appliances", "abstract interpretation over concrete lists of symbolic objects; equality as an uninterpreted predicate",
      "list membership tests call __eq__ (trusted).")
def c32(c):
    c.sized(o_register_app)
    c.sized(o_register_made)
    c.sized(o_register_user)
