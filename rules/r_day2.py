"""C02, C03, C07-C12: the parts of a day of an appliance"""
import ast
from .r_day import *
from . import day


def final(I, s, obj, name):
    v = s.fields.get((obj, name))
    return I.snap(s, attr(obj, name) if v is None else v)


def mcalls(s, name):
    return [e for e in flat_events(s.events) if e.kind == "mcall" and e.name == name]


def draws_of(terms):
    out = []
    for t in terms:
        for r in rnds(t):
            if r not in out:
                out.append(r)
    return out


def a_(n):
    return attr(APP, n)


# ------------------------------------------------------------------ C02 flat
def o_flat(c):
    with c.ob("flat-profile", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c, windows=None, facts=[eq(a_("flat"), const("yes")), le(ONE, a_("number"))])
        where = c.where(I, "Appliance.generate_load_profile")
        want = mul(a_("number"), POWER)
        used = 0
        for s in outs:
            if raised(I, s):
                continue
            ev = [e.name for e in flat_events(s.events) if e.kind == "mcall" and e.name in ("rand_switch_on_window", "update_daily_use")]
            if not ev and not mcalls(s, "calc_rand_window"):
                continue
            used += 1
            c.check(not ev, "no-event-for-flat", where, f"a flat appliance goes through {ev}")
            v = final(I, s, APP, "daily_use")
            base, ws = peel_stores(v)
            F = Facts(s.facts)
            if base.op != "zeros":
                c.judge(None if weak(v) else False, "flat-profile", where, f"profile {show(v)[:300]}")
                continue
            left = {1, 2, 3}
            for idx, val in ws:
                if idx.op != "slice" or idx.a[2] not in (NONE, ONE):
                    c.undec("flat-profile", where, f"writes at {show(idx)[:200]}")
                    left.clear()
                    continue
                hit = [k for k in RA if eqv(F, idx.a[0], RA[k]) and eqv(F, idx.a[1], RB[k])]
                left -= set(hit)
                if not hit and not F.entails(le(idx.a[1], idx.a[0])):
                    c.judge(None if weak(idx) else False, "flat-window", where, f"writes at {show(idx)[:200]}, not a window of the day")
                x = val.a[1] if val.op == "full" else val
                c.judge(eqv(F, x, want) or (None if weak(x, want) else False), "flat-power", where,
                        f"draws {show(x)[:300]} instead of {show(want)}")
            for k in left:
                c.judge(F.entails(le(RB[k], RA[k])) or (None if weak(v) else False), "flat-window", where,
                        f"nothing is drawn in window {k} of the day ({show(v)[:200]})")
            c.ok("flat-profile", where)
        if not used:
            c.undec("flat-profile", where, "no outcome of a day of use")


@rule("C02", 6, "Flat appliances follow their windows exactly", "abstract interpretation of the flat path; store-chain normal form compared per window",
      "Any windows of the day (possibly empty); power series indexed by the day.")
def c02(c):
    o_flat(c)
    o_window(c)
    o_variability(c)
    o_power_arg(c)


# ------------------------------------------------------------------ C03 total time of use
def o_time(c):
    con = "Appliance.rand_total_time_of_use"
    with c.ob("time-of-use", con):
        I = c.interp()
        st = St()
        for k in RA:
            win_facts(st, k)
        fc, ft, v = a_("func_cycle"), a_("func_time"), a_("time_fraction_random_variability")
        st.assume(le(ZERO, fc))
        st.assume(le(ZERO, ft))
        args = {f"rand_window_{k}": I.new_list(st, [RA[k], RB[k]]) for k in RA}
        outs = c.run(I, con, st, [APP], args)
        where = c.where(I, con)
        total = add(*[sub(RB[k], RA[k]) for k in RA]) if False else add(add(sub(RB[1], RA[1]), sub(RB[2], RA[2])), sub(RB[3], RA[3]))
        cap = rounder("int", mul(const_frac(99, 100), total))
        u = draw("uniform", sub(ONE, v), add(ONE, v))
        spec = rounder("round", draw("uniform", ft, rounder("int", mul(ft, u))))
        n = 0
        for s in outs:
            F = Facts(s.facts)
            if raised(I, s):
                c.check(is_exc(I, s, "ValueError"), "error-kind", where, f"raises {raised(I, s)}")
                c.judge(F.entails(lt(cap, fc)) or (None if st_weak(s) else False), "error-only-if-no-room", where,
                        f"raises although func_cycle minutes fit in the windows: {fact_text(s, 20)}")
                continue
            n += 1
            r = I.snap(s, ret(s))
            if not isinstance(r, T) or r is NONE:
                c.bad("time-of-use", where, "returns nothing")
                continue
            wk = weak(r, mk("tuple", cap, spec)) or st_weak(s)
            bad = None if wk else False
            c.judge(F.entails(le(fc, r)) or bad, "at-least-func_cycle", where, f"returns {show(r)[:200]} with {fact_text(s, 20)[-300:]}")
            c.judge(F.entails(le(r, cap)) or bad, "at-most-99%-of-the-windows", where, f"returns {show(r)[:200]}")
            c.judge(tm.ty(r) == "int" or bad, "integer", where, show(r)[:200])
            # the draw
            S = None
            allr = draws_of([r] + list(s.facts))
            for x in allr:
                cand = rounder("round", x)
                m = eq_draws(F, cand, spec)
                if m is not None:
                    S = cand
                    break
            if S is None:
                if allr:
                    c.judge(bad, "drawn-between-func_time-and-its-variation", where, f"draws {[show(x)[:200] for x in allr[-2:]]}")
                else:
                    c.undec("drawn-between-func_time-and-its-variation", where, "no draw on this path")
                continue
            c.ok("drawn-between-func_time-and-its-variation", where)
            for extra, want, name in (([le(fc, S), le(S, cap)], S, "the drawn value when no bound applies"),
                                      ([lt(S, fc)], fc, "func_cycle when the draw is smaller"),
                                      ([lt(cap, S), le(fc, S)], cap, "99% of the windows when the draw is larger")):
                G = Facts(list(s.facts) + extra)
                if not G.consistent():
                    continue
                c.judge(eqv(G, r, want) or bad, "value-of-time-of-use", where, f"returns {show(r)[:200]}, should be {name}")
        if not n:
            c.undec("time-of-use", where, "no normal outcome")


def const_frac(a, b):
    from fractions import Fraction
    return const(Fraction(a, b))


def o_time_args(c):
    """generate_load_profile gives it the three windows of the day"""
    with c.ob("windows-passed", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        seen = set()
        for s in outs:
            for e in mcalls(s, "rand_total_time_of_use"):
                got = []
                for k in (1, 2, 3):
                    w = e.args.get(f"rand_window_{k}")
                    p = models.as_vec(I, s, w) if w is not None else None
                    got.append(tuple(p) if p else None)
                key = tuple(got)
                if key in seen:
                    continue
                seen.add(key)
                if None in got:
                    c.undec("windows-passed", where, show(e.args.get("rand_window_1", NONE))[:200])
                    continue
                want = {(RA[k], RB[k]) for k in RA}
                c.check(set(got) == want and len(got) == 3, "windows-passed", where,
                        f"time of use bounded with windows {[[show(y) for y in x] for x in got]}")
        if not seen:
            c.undec("windows-passed", where, "rand_total_time_of_use is not called")


@rule("C03", 6, "Daily time of use is bounded", "abstract interpretation with polyhedra facts; each outcome compared to min(max(draw, func_cycle), int(0.99*total))",
      "Any windows of the day inside 0..1440, func_cycle and func_time >= 0.")
def c03(c):
    o_time(c)
    o_time_args(c)


# ------------------------------------------------------------------ C07, C08 coincidence
CAL = {k: sym(k, "num") for k in ("mu_peak", "s_peak", "op_factor")}


def symbolic_calibration(c):
    """replace the values of the calibration parameters by symbols"""
    m = c.repo.modules.get("ramp.core.constants")
    if m is None:
        return False
    fn = next((x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef) and x.name == "switch_on_parameters"), None)
    if fn is None:
        raise Missing("ramp.core.constants.switch_on_parameters")
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1:
            t, v = x.targets[0], x.value
            if isinstance(t, ast.Name) and t.id in CAL and isinstance(v, ast.Constant):
                v.value = CAL[t.id]
                n += 1
            elif isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                for tt, vv in zip(t.elts, v.elts):
                    if isinstance(tt, ast.Name) and tt.id in CAL and isinstance(vv, ast.Constant):
                        vv.value = CAL[tt.id]
                        n += 1
    if n < 3:
        for x in ast.walk(fn):
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and len(x.value.elts) == 3 and all(
                    isinstance(y, ast.Constant) for y in x.value.elts):
                for y, k in zip(x.value.elts, CAL):
                    y.value = CAL[k]
                n = 3
    return n >= 3


def coinc_outcomes(c, peak, facts=()):
    I = c.interp()
    st = St()
    st.assume(le(ONE, a_("number")))
    for f in facts:
        st.assume(f)
    outs = c.run(I, "Appliance.calc_coincident_switch_on", st, [APP], {"inside_peak_window": const(peak)})
    return I, outs, c.where(I, "Appliance.calc_coincident_switch_on")


def o_coinc_bounds(c):
    n = a_("number")
    for peak in (True, False):
        for fixed in ("no", "yes"):
            with c.ob("coincidence-bounds", "Appliance.calc_coincident_switch_on"):
                I, outs, where = coinc_outcomes(c, peak, [eq(a_("fixed"), const(fixed))])
                for s in outs:
                    if raised(I, s):
                        c.judge(None if st_weak(s) else False, "no-error", where, f"raises {raised(I, s)}: {fact_text(s)}")
                        continue
                    r = I.snap(s, ret(s))
                    F = Facts(s.facts, I.axiom_hook)
                    wk = [t for t in subterms(r) if t.op in WEAK - {"nonzero", "argwhere"} or t.op == "call"]
                    bad = None if wk else False
                    if fixed == "yes":
                        c.judge(eqv(F, r, n) or bad, "fixed-means-all", where, f"a fixed appliance switches on {show(r)[:200]} units")
                        continue
                    c.judge(F.entails(le(ONE, r)) or bad, "at-least-one", where, f"{show(r)[:300]} ({'on' if peak else 'off'}-peak)")
                    c.judge(F.entails(le(r, n)) or bad, "at-most-all", where, f"{show(r)[:300]} ({'on' if peak else 'off'}-peak)")
                    c.judge(tm.ty(r) == "int" or bad, "integer", where, f"{show(r)[:300]} ({'on' if peak else 'off'}-peak)")


@rule("C07", 6, "Coincidence is between 1 and the number of appliances", "abstract interpretation with bounds of the drawn and counted values",
      "n >= 1 units; any calibration values.")
def c07(c):
    symbolic_calibration(c)
    o_coinc_bounds(c)
    o_coincidence_used(c)


def o_laws(c):
    n = a_("number")
    mu, sp, op = CAL["mu_peak"], CAL["s_peak"], CAL["op_factor"]
    with c.ob("on-peak-law", "Appliance.calc_coincident_switch_on"):
        I, outs, where = coinc_outcomes(c, True, [eq(a_("fixed"), const("no"))])
        want = draw("gauss", mul(n, mu), mul(mul(n, mu), sp))
        for s in outs:
            if raised(I, s):
                continue
            r = I.snap(s, ret(s))
            F = Facts(s.facts)
            rs = draws_of([r] + list(s.facts))
            g = None
            for x in rs:
                if x.a[0] in ("gauss", "normalvariate"):
                    y = mk("rnd", "gauss", x.a[1], x.a[2], x.a[3]) if x.a[0] != "gauss" else x
                    if eq_draws(F, y, want) is not None:
                        g = x
            if g is None:
                c.judge(None if not rs and weak(r) else False, "on-peak-law", where, f"on-peak coincidence drawn as {[show(x)[:200] for x in rs] or show(r)[:200]}")
                continue
            c.ok("on-peak-law", where)
            cg = rounder("ceil", g)
            G = Facts(list(s.facts) + [le(ONE, cg), le(cg, n)])
            if G.consistent():
                c.judge(eqv(G, r, cg) or (None if weak(r) else False), "on-peak-rounded-up", where, f"returns {show(r)[:300]} instead of the draw rounded up")
    with c.ob("off-peak-law", "Appliance.calc_coincident_switch_on"):
        I, outs, where = coinc_outcomes(c, False, [eq(a_("fixed"), const("no"))])
        want = draw("uniform", ZERO, mul(sub(n, op), mk_inv(n)))
        found = 0
        for s in outs:
            if raised(I, s):
                continue
            r = I.snap(s, ret(s))
            F = Facts(s.facts)
            rs = draws_of([r] + list(s.facts))
            p = None
            for x in rs:
                if eq_draws(F, x, want) is not None:
                    p = x
            if p is None:
                c.judge(None if not rs and weak(r) else False, "off-peak-law", where, f"off-peak probability drawn as {[show(x)[:200] for x in rs] or show(r)[:200]}")
                continue
            c.ok("off-peak-law", where)
            arr = mul(mk_inv(n), mk("range", ZERO, n, ONE))
            mask = mk("ale", arr, p)
            nz = mk("nonzero", mask)
            forms = [add(mk("amax", nz), ONE), mk("len", nz), mk("sum_", mask), mk("asum", mask), add(rounder("int", mul(p, n)), ONE),
                     add(rounder("floor", mul(p, n)), ONE)]
            # … counted one by one: n minus those which are above the drawn probability
            counts = [x for t in [r] + list(s.facts) for x in subterms(t) if x.op == "sum" and x.a[1] is n and x.a[2].op == "ind"]
            above = [x for x in counts if (lambda b: x.a[2] is mk("ind", lt(p, mul(mk_inv(n), b))))(mk("b", x.a[0]))]
            within = [x for x in counts if (lambda b: x.a[2] is mk("ind", le(mul(mk_inv(n), b), p)))(mk("b", x.a[0]))]
            forms += [sub(n, x) for x in above] + within
            empty = eq(mk("len", nz), ZERO)
            if F.entails(empty) or any(F.entails(eq(x, n)) for x in above) or any(F.entails(eq(x, ZERO)) for x in within):
                c.judge(eqv(F, r, ONE) or None, "off-peak-count", where, show(r)[:200])
                continue
            if any(eqv(F, r, x) for x in forms):
                found += 1
                c.ok("off-peak-count", where)
                continue
            known = all(t.op in ("c", "rnd", "attr", "sym", "amax", "nonzero", "ale", "alt", "range", "poly", "len", "int", "floor", "ceil", "vec", "asum", "max", "round")
                        for t in subterms(r))
            c.judge(False if known else None, "off-peak-count", where,
                    f"returns {show(r)[:300]} instead of the number of values of 0/n..(n-1)/n up to the drawn probability")
        if not found:
            c.undec("off-peak-count", where, "no counting outcome")


def mk_inv(x):
    return div(ONE, x)


def o_within_peak(c):
    """within_peak_time_window(a, b, p, q) <=> [a, b] and [p, q] share a minute"""
    a, b, p, q = (sym(x, "int") for x in ("first_minute", "last_minute", "peak_first", "peak_last"))
    o_overlap(c, "ramp.core.utils.within_peak_time_window", lambda I, st: [a, b, p, q], a, b, p, q)


def o_within_window(c):
    a, b, p, q = (sym(x, "int") for x in ("first_minute", "last_minute", "w_start", "w_end"))
    o_overlap(c, "ramp.core.utils.range_within_window", lambda I, st: [a, b, models.new_nd(I, st, mk("vec", p, q))], a, b, p, q)


def o_overlap(c, qual, args, a, b, p, q):
    fn = qual.rsplit(".", 1)[1]
    with c.ob(fn, qual):
        I = c.interp()
        try:
            I.get_func(qual)
        except Exception:
            # a private helper: its callers are judged with its body inlined
            return
        st = St()
        st.assume(le(a, b))
        st.assume(le(p, q))
        over = and_(le(a, q), le(p, b))
        try:
            outs = c.run(I, qual, st, args(I, st))
        except Missing:
            return
        where = c.where(I, qual)
        for s in outs:
            if raised(I, s):
                c.bad(fn, where, f"raises {raised(I, s)}")
                continue
            r = models.truth(I, s, ret(s)) if hasattr(models, "truth") else I.snap(s, ret(s))
            F = Facts(s.facts)
            for val in (True, False):
                lit = r if val else not_(r)
                if r is const(True) or r is const(False):
                    if (r is const(True)) != val:
                        continue
                    lit = TRUE
                G = Facts(list(s.facts) + ([lit] if lit is not TRUE else []))
                if not G.consistent():
                    continue
                good = proves(G.facts, over if val else not_(over))
                c.judge(good or (None if weak(r) else False), fn, where,
                        f"answers {val} for minutes [{show(a)}, {show(b)}] and [{show(p)}, {show(q)}] with {fact_text(s)}")


def o_peak_flag(c):
    """each event is classified by the minutes which are recorded"""
    with c.ob("classified-by-its-minutes", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        L = Loop(I)
        if L.info is None:
            c.undec("classified-by-its-minutes", where, "no switch-on loop")
            return
        lastp = sub(P1, ONE)
        for kind, o, evs in L.paths():
            co = [e for e in evs if e.kind == "mcall" and e.name == "calc_coincident_switch_on"]
            up = [e for e in evs if e.kind == "mcall" and e.name == "update_daily_use"]
            for u in up:
                ix = u.args.get("indexes")
                mine = [e for e in co if e.res is u.args.get("coincidence")]
                if not mine:
                    c.judge(None if weak(u.args.get("coincidence", NONE)) else False, "coincidence-of-the-event", where,
                            f"event recorded with {show(u.args.get('coincidence', NONE))[:200]}")
                    continue
                fl = mine[0].args.get("inside_peak_window")
                if ix is None or ix.op != "range" or fl is None:
                    c.undec("classified-by-its-minutes", where, show(ix or NONE)[:100])
                    continue
                over = and_(le(ix.a[0], lastp), le(P0, sub(ix.a[1], ONE)))
                F = Facts(o.facts)
                if fl is const(True):
                    good = proves(o.facts, over)
                elif fl is const(False):
                    good = proves(o.facts, not_(over))
                else:
                    t = fl.a[0] if fl.op == "truth" else fl
                    good = logic_equal(F, t, over)
                c.judge(good or (None if weak(fl) else False), "classified-by-its-minutes", where,
                        f"event at {show(ix)[:200]} counts as on-peak: {show(fl)[:200]} with peak {show(PEAK)} ({fact_text(o, 30)[-400:]})")


def o_coincidence_used(c):
    """the coincidence given to update_daily_use is that drawn for the event"""
    with c.ob("coincidence-of-the-event", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        L = Loop(I)
        if L.info is None:
            c.undec("coincidence-of-the-event", where, "no switch-on loop")
            return
        for kind, o, evs in L.paths():
            res = [e.res for e in evs if e.kind == "mcall" and e.name == "calc_coincident_switch_on"]
            for u in evs:
                if u.kind == "mcall" and u.name == "update_daily_use":
                    g = u.args.get("coincidence")
                    c.judge(g in res or (None if g is None or weak(g) else False), "coincidence-of-the-event", where, f"records with {g}")
                    pw = u.args.get("power")
                    c.judge(pw is POWER or (None if pw is None or weak(pw) else False), "power-of-the-day-passed", where, f"records with power {pw}")


@rule("C08", 6, "On-peak and off-peak laws", "abstract interpretation with symbolic calibration parameters; draws compared argument by argument; overlap by polyhedra facts",
      "n >= 1; non-empty event and peak range.")
def c08(c):
    if not symbolic_calibration(c):
        c.undec("calibration-roles", "switch_on_parameters", "the values of the calibration parameters are not found by name")
        for k in CAL:
            CAL[k] = const_frac(1, 2)
    o_laws(c)
    with c.only("at-least-one", "at-most-all", "fixed-means-all", "no-error"):
        o_coinc_bounds(c)
    o_within_peak(c)
    o_peak_flag(c)
    from . import r_usecase
    with c.only("task-arguments (general): peak"):
        r_usecase.o_sim_args(c, False)
        r_usecase.o_sim_args(c, True)


# ------------------------------------------------------------------ C09 power of an event
def resized_to(F, t, n):
    """(t with the arrays repeated over n elements replaced by the arrays, whether there are any)"""
    m = {x: x.a[0] for x in subterms(t) if x.op == "resize" and eqv(F, x.a[1], n)}
    return subst(t, m), bool(m)


def o_event_power(c):
    v = a_("thermal_p_var")
    with c.ob("event-power", "Appliance.update_daily_use"):
        for k, I, outs, where in update_outcomes(c):
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "no-error", where, f"raises {raised(I, s)}")
                    continue
                t = final(I, s, APP, "daily_use")
                base, ws = peel_stores(t)
                if base is not a_("daily_use"):
                    c.judge(None if weak(t) else False, "event-power", where, f"profile becomes {show(t)[:300]}")
                    continue
                if len(ws) != 1:
                    c.judge(None if weak(t) else False, "event-power", where, f"{len(ws)} writes for an event: {show(t)[:300]}")
                    continue
                idx, val = ws[0]
                F = Facts(s.facts)
                ok = None
                if idx.op in ("slice", "range"):
                    ok = eqv(F, idx.a[0], E0) and eqv(F, idx.a[1], E1) and idx.a[2] in (NONE, ONE)
                c.judge(ok, "event-minutes-written", where, f"an event at [ev0, ev1) writes at {show(idx)[:200]}")
                if k == 0:
                    want = mul(mul(COINC, POWER), draw("uniform", sub(ONE, v), add(ONE, v)))
                    x = val.a[1] if val.op == "full" else val
                    good = eq_draws(F, x, want) is not None
                    c.judge(good or (None if weak(x) else False), "event-power", where, f"draws {show(x)[:300]} instead of {show(want)[:200]}")
                else:
                    want = mul(a_(f"random_cycle{k}"), COINC)
                    val, resized = resized_to(F, val, sub(E1, E0))
                    good = eqv(F, val, want)
                    if good and t.op == "store" and not resized:
                        good = False        # only np.put repeats the cycle over the event, an assignment fails
                    c.judge(good or (None if weak(val) else False), "event-duty-cycle", where, f"draws {show(val)[:300]} instead of {show(want)[:200]}")


SELF_U = sym("self", "obj:User")
SINGLE_TASK = "ramp.core.core.single_appliance_daily_load_profile"


def s_gen_event(I, st, env, node):
    """stub of Appliance.generate_load_profile"""
    args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
    u = st.fields.get((attr(env["self"], "user"), "rand_daily_pref"))
    I.event(st, "mcall", "generate_load_profile", recv=I.snap(st, env["self"]), args=args, node=node)
    st.fields[(env["self"], "daily_use")] = mk("call", "profile", env["self"], *[args.get(k, NONE) for k in ("prof_i", "peak_time_range", "day_type", "power")])
    return [(st, NONE)]


def o_power_arg(c):
    """the power of the day is the value of the power series at the index of the day"""
    with c.ob("power-of-the-day", "User.generate_single_load_profile"):
        I = c.interp({"Appliance.generate_load_profile": s_gen_event})
        st = St()
        pk = mk("range", P0, P1, ONE)
        outs = c.run(I, "User.generate_single_load_profile", st, [SELF_U], {"prof_i": DAY, "peak_time_range": pk, "day_type": DTYPE})
        where = c.where(I, "User.generate_single_load_profile")
        n = 0
        for s in outs:
            for e in mcalls(s, "generate_load_profile"):
                n += 1
                p = e.args.get("power")
                want = mk("at", mk("attr", e.recv, "power"), DAY)
                c.judge(p is want or (None if p is None or weak(p) else False), "power-of-the-day", where, f"power given is {p}")
                c.judge(e.args.get("prof_i") is DAY or None if weak(e.args.get("prof_i", NONE)) else e.args.get("prof_i") is DAY, "day-index-passed", where, f"day {e.args.get('prof_i')}")
        if not n:
            c.undec("power-of-the-day", where, "no appliance is simulated")
    from . import r_usecase
    r_usecase.o_parallel_args(c)
    with c.only("task-arguments (general): power"):
        r_usecase.o_sim_args(c, False)
        r_usecase.o_sim_args(c, True)


@rule("C09", 8, "Power of a switch-on event", "abstract interpretation of the single write of an event; polynomial normal form with draw correspondence",
      "np.put semantics (values repeated from their start) trusted.")
def c09(c):
    o_event_power(c)
    o_power_arg(c)
    o_coincidence_used(c)
    o_put_inside(c)


# ------------------------------------------------------------------ C10 choice of the duty cycle
CW = {(k, j): (sym(f"cw{k}{j}_0", "int"), sym(f"cw{k}{j}_1", "int")) for k in (1, 2, 3) for j in (1, 2)}


def o_cycle_choice(c, cont):
    con = "Appliance.rand_switch_on_window"
    with c.ob("duty-cycle-choice", con):
        spots_type()
        I = c.interp(limit=300)
        I.axiom_hook = spots_axiom
        st = St()
        fc = a_("func_cycle")
        for f in (le(ZERO, fc), le(fc, RANDT), le(ONE, RANDT), le(ONE, a_("fixed_cycle"))):
            st.assume(f)
        st.assume(eq(a_("continuous_duty_cycle"), const(cont)))
        for (k, j), (x, y) in CW.items():
            st.assume(le(x, y))
            st.fields[(APP, f"cw{k}{j}")] = models.new_nd(I, st, mk("vec", x, y))
        for k in (1, 2, 3):
            st.assume(le(ONE, mk("len", a_(f"random_cycle{k}"))))
        I.merge_tests = True
        outs = c.run(I, con, st, [APP], {"rand_time": RANDT})
        where = c.where(I, con)
        seen = set()
        rec = 0
        for s in outs:
            if raised(I, s):
                continue
            r = I.snap(s, ret(s))
            if r is NONE:
                # no event at all although one was drawn (draws of summarised loops are inside a "loop" event)
                starts = [e for e in flat_events(s.events) if e.kind == "rnd" and not e.loops]
                if starts and not any(e.kind == "rnd" and e.loops for e in flat_events(s.events)):
                    c.bad("drawn-again-in-the-same-conditions", where, f"no event is used nor drawn again after one was drawn, with {fact_text(s, 40)[-300:]}")
                continue
            if r.op == "rec":
                rec += 1
                F = Facts(s.facts, I.axiom_hook)
                warned = [e for e in flat_events(s.events) if e.kind == "warn" or e.name in ("warnings.warn", "print")]
                c.judge(bool(warned), "warned-if-outside", where, "an event outside all duty cycle windows is dropped silently")
                args = [x for x in r.a[2] if isinstance(x, T)] if len(r.a) > 2 and isinstance(r.a[2], tuple) else [x for y in r.a if isinstance(y, tuple) for x in y if isinstance(x, T)]
                c.judge(RANDT in args or (None if any(weak(x, RANDT) for x in args) else False), "drawn-again-in-the-same-conditions", where, f"drawn again as {show(r)[:200]}")
                for kj, w in CW.items():
                    c.judge(not over_any(F, s, None, [kj], possible=True), "drawn-again-only-if-outside", where,
                            f"another event is drawn although the event may overlap cw{kj[0]}{kj[1]}: {fact_text(s, 40)[-300:]}")
                continue
            if r.op != "range":
                c.judge(None if weak(r) or r.op == "call" else False, "duty-cycle-choice", where, show(r)[:200])
                continue
            pk = {x: sym(f"pick{i}", "int") for i, x in enumerate(sorted({x for t in [r] + list(s.facts) for x in subterms(t)
                                                                 if x.op == "at" and x.a[0].op in ("seq", "vec", "concat")}, key=str))}
            facts = [subst(f, pk) for f in s.facts]
            facts = [f for f in facts if f.op != "forall" and not any(x.op == "sum" for x in subterms(f))]
            r = subst(r, pk)
            F = Facts(facts, I.axiom_hook)
            F.hook = I.axiom_hook
            k = final(I, s, APP, "current_duty_cycle_id")
            if not is_num(k):
                c.judge(None if weak(k) else False, "duty-cycle-choice", where, f"duty cycle {show(k)[:200]}")
                continue
            k = int(k.a[1])
            if k not in (1, 2, 3):
                c.bad("duty-cycle-choice", where, f"duty cycle {k}")
                continue
            seen.add(k)
            size = sub(r.a[1], r.a[0])
            # size of the event as drawn
            cands = [size] + [x for x in {t for f in facts for t in subterms(f)} if x.op == "int" and rnds(x)] + [RANDT]
            cands += [x for x in {t for f in facts for t in subterms(f)} if x.op == "max"] + [neg(x) for x in {t for f in facts for t in subterms(f)} if x.op == "max"]
            good = False
            cands = list(dict.fromkeys(cands))
            for z in cands:
                ev = (r.a[0], sub(add(r.a[0], z), ONE))
                if over_any(F, s, ev, [(k, 1), (k, 2)]) and not any(over_any(F, s, ev, [(q, 1), (q, 2)], possible=True) for q in range(1, k)):
                    good = True
                    break
            c.judge(good or (None if weak(r) else False),
                    "duty-cycle-choice", where, f"duty cycle {k} is chosen for the event {show(r)[:150]} with {fact_text(s, 40)[-500:]}")
            ln = mk("len", a_(f"random_cycle{k}"))
            if cont == 0:
                c.judge(proves(facts, le(size, ln), I.axiom_hook) or (None if weak(size, mk("tuple", ln, *cands[1:])) else False), "cut-to-the-duty-cycle", where,
                        f"event of {show(size)[:200]} minutes with a duty cycle of {show(ln)} minutes")
                if eqv(F, size, ln):
                    c.judge(any(proves(facts, le(ln, z), I.axiom_hook) for z in cands[1:]) or (None if weak(size) else False), "cut-only-if-longer", where,
                            f"event of {show(size)[:200]} minutes although no longer event was drawn")
            else:
                c.judge(ln not in set(subterms(size)), "not-cut-when-continuous", where, f"event cut to {show(size)[:200]} although continuous_duty_cycle is 1")
        for k in (1, 2, 3):
            c.judge(k in seen or None, "duty-cycle-used", where, f"duty cycle {k} is never chosen")
        if not rec:
            c.undec("drawn-again-in-the-same-conditions", where, "no outcome which draws another event")


def over_any(F, s, ev, kjs, possible=False):
    """does the event overlap one of the windows: certainly (default) / possibly"""
    conds = []
    evs = [ev] if ev else []
    if ev is None:
        # event of a discarded draw: find its bounds in the facts (comparisons with the bounds of the window)
        return _touches(F, s, kjs[0])
    a, b = ev
    conds = [and_(le(a, CW[kj][1]), le(CW[kj][0], b)) for kj in kjs]
    if possible:
        return any(sat(F.facts + [x], F.hook) for x in conds)
    return proves(F.facts, or_(*conds), F.hook)


def _touches(F, s, kj):
    """True if the facts do not force the windows kj to be missed: there must be a fact on it which excludes it"""
    x, y = CW[kj]
    hit = [f for f in s.facts if x in set(subterms(f)) or y in set(subterms(f))]
    hit = [f for f in hit if not (f.op == "le0" and set(t for t in subterms(f) if t.op == "sym") == {x, y})]
    return not hit


@rule("C10", 15, "Duty cycle of an event", "path-sensitive abstract interpretation; overlap with each window decided by polyhedra facts",
      "Any free ranges, any ordered duty cycle windows; continuous_duty_cycle 0 or 1.")
def c10(c):
    o_within_window(c)
    o_cycle_choice(c, 1)
    o_cycle_choice(c, 0)
    from . import r_define
    r_define.o_single_cycle(c)


# ------------------------------------------------------------------ C11 composition of the duty cycles
def seg(k, j, pf):
    return mk("full", rounder("int", mul(a_(f"t_{k}{j}"), draw("uniform", sub(ONE, a_(f"r_c{k}")), add(ONE, a_(f"r_c{k}"))))), mul(a_(f"p_{k}{j}"), pf))


def pfac():
    v = a_("thermal_p_var")
    return draw("uniform", sub(ONE, v), add(ONE, v))


def cyc(k, swapped=False, pf=None):
    p1, p2 = pf or (pfac(), pfac())
    x, y = seg(k, 1, p1), seg(k, 2, p2)
    return mk("concat", y, x) if swapped else mk("concat", x, y)


def o_compose(c):
    con = "Appliance.assign_random_cycles"
    for fc in (1, 2, 3, 4):
        with c.ob("duty-cycle-composition", con):
            I = c.interp()
            st = St()
            st.assume(eq(a_("fixed_cycle"), const(fc)) if fc < 4 else le(const(3), a_("fixed_cycle")))
            outs = c.run(I, con, st, [APP])
            where = c.where(I, con)
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "no-error", where, f"raises {raised(I, s)}")
                    continue
                F = Facts(s.facts)
                got = {k: final(I, s, APP, f"random_cycle{k}") for k in (1, 2, 3)}
                for k in (1, 2, 3):
                    g = got[k]
                    if (APP, f"random_cycle{k}") not in s.fields:
                        c.bad("cycle-of-the-day-set", where, f"random_cycle{k} keeps its previous value with fixed_cycle {fc}")
                        continue
                    if fc >= 3:
                        good = False
                        if g.op == "rnd" and g.a[0] == "choice" and len(g.a[2]) == 1 and g.a[2][0].op == "vec" and len(g.a[2][0].a) == 2:
                            opts = g.a[2][0].a
                            for o2 in (opts, opts[::-1]):
                                pf = (pfac(), pfac())
                                m = eq_draws(F, o2[0], cyc(k, False, pf))
                                if m is None:
                                    continue
                                m2 = eq_draws(F, o2[1], cyc(k, True, pf))
                                if m2 is not None:
                                    good = True
                        elif g.op == "concat":
                            # the order is chosen before: one outcome per order
                            good = eq_draws(F, g, cyc(k)) is not None or eq_draws(F, g, cyc(k, True)) is not None
                            if good and not choice_facts(s):
                                good = False
                        c.judge(good or (None if weak(g) else False), "cycle-in-either-order", where, f"fixed_cycle {fc}: random_cycle{k} is {show(g)[:400]}")
                    else:
                        src = k if k <= fc else 1
                        # cycles not declared are not used: cycle 3 with fixed_cycle 2 is free
                        if fc == 2 and k == 3:
                            continue
                        good = eq_draws(F, g, cyc(src)) is not None
                        c.judge(good or (None if weak(g) else False), "cycle-composition", where, f"fixed_cycle {fc}: random_cycle{k} is {show(g)[:400]}")
                if fc == 1:
                    c.judge(got[1] is got[2] and got[1] is got[3] or (None if weak(got[1]) else False), "single-cycle", where,
                            "the three cycles are not the first one")


def choice_facts(s):
    return any(r for f in s.facts for r in rnds(f))


def o_cycles_called(c):
    """the cycles of the day are drawn before the events, once"""
    with c.ob("cycles-drawn-each-day", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        L = Loop(I)
        if L.info is None:
            c.undec("cycles-drawn-each-day", where, "no switch-on loop")
            return
        b = L.info["base"]
        n = len([e for e in flat_events(b.events) if e.kind == "mcall" and e.name == "assign_random_cycles"])
        c.check(n >= 1, "cycles-drawn-each-day", where, "the duty cycles of the day are not drawn before the events")


@rule("C11", 9, "Composition of the duty cycles", "abstract interpretation; terms compared up to a correspondence of the drawn numbers",
      "fixed_cycle 1, 2, 3 and more.")
def c11(c):
    o_compose(c)
    o_cycles_called(c)
    o_cycle_params(c)


def o_cycle_params(c):
    from . import r_define
    r_define.o_specific(c)


# ------------------------------------------------------------------ C12 days of use
def skip_alternatives(U):
    pref, rdp = a_("pref_index"), mk("attr", a_("user"), "rand_daily_pref")
    wd = a_("wd_we_type")
    alts = [[not_(eq(pref, ZERO)), not_(eq(rdp, pref))], [not_(eq(wd, const(2))), not_(eq(wd, DTYPE))], [eq(a_("func_time"), ZERO)]]
    if U is not None:
        alts.append([lt(a_("occasional_use"), U)])
    return alts


def o_gate(c):
    con = "Appliance.generate_load_profile"
    with c.ob("days-of-use", con):
        I, outs = gen_outcomes(c)
        where = c.where(I, con)
        n = [0, 0]
        for s in outs:
            sim = bool(mcalls(s, "rand_total_time_of_use") or mcalls(s, "calc_rand_window"))
            us = [r for r in draws_of(s.facts) if r.a[0] in ("uniform", "random") and (not r.a[2] or (r.a[2][0] is ZERO and r.a[2][1] is ONE))]
            others = [r for r in draws_of(s.facts) if r not in us]
            U = us[0] if us else None
            alts = skip_alternatives(U)
            wk = st_weak(s)
            if not sim and not raised(I, s):
                v = final(I, s, APP, "daily_use")
                if v.op == "zeros":
                    c.ok("unused-day-is-zero", where)
                else:
                    c.judge(None if weak(v) and v.op != "attr" else False, "unused-day-is-zero", where, f"profile of an unused day: {show(v)[:200]}")
                n[0] += 1
                neg_ = []
                # not skipped: one literal of each alternative fails
                for combo in itertools.product(*[[not_(x) for x in alt] for alt in alts]):
                    c.judge(not sat(list(s.facts) + list(combo)) or (None if wk else False), "skipped-only-if-not-allowed", where,
                            f"a day is skipped although {'; '.join(show(x)[:80] for x in combo)} ({fact_text(s, 20)[-400:]})")
            elif sim:
                n[1] += 1
                if U is None:
                    c.judge(None if weak(mk("tuple", *s.facts)) else False, "occasional-use-drawn", where, "no uniform draw in [0, 1] decides on the use of the day")
                for alt in alts:
                    c.judge(not sat(list(s.facts) + alt) or (None if wk else False), "used-only-if-allowed", where,
                            f"a day is simulated although {'; '.join(show(x)[:80] for x in alt)}")
        if not n[0] or not n[1]:
            c.undec("days-of-use", where, "no outcome with / without simulation")


def o_daily_pref(c):
    """preference drawn once per single user and day, before its appliances are simulated"""
    con = "User.generate_single_load_profile"
    with c.ob("daily-preference", con):
        seen = []

        def stub(I, st, env, node):
            u = st.fields.get((SELF_U, "rand_daily_pref"))
            seen.append((I.snap(st, u) if u is not None else None, list(st.facts)))
            return s_gen_event(I, st, env, node)
        I = c.interp({"Appliance.generate_load_profile": stub})
        st = St()
        up = mk("attr", SELF_U, "user_preference")
        st.assume(le(ZERO, up))
        c.run(I, con, st, [SELF_U], {"prof_i": DAY, "peak_time_range": PEAK, "day_type": DTYPE})
        where = c.where(I, con)
        pref_values(c, seen, up, where, "daily-preference")


def pref_values(c, seen, up, where, name):
    if not seen:
        c.undec(name, where, "no appliance is simulated")
    for v, facts in seen:
        F = Facts(facts)
        if v is None:
            c.bad(name, where, "the preference of the day is not drawn before the appliances are simulated")
            continue
        for zero in (True, False):
            lit = eq(up, ZERO) if zero else le(ONE, up)
            G = Facts(facts + [lit])
            if not G.consistent():
                continue
            m = {eq(up, ZERO): const(zero), not_(eq(up, ZERO)): const(not zero), truth_(up): const(not zero)}
            x = subst(v, m)
            if zero:
                good = eqv(G, x, ZERO)
            else:
                good = x.op == "rnd" and eq_draws(G, x, draw("randint", ONE, up)) is not None
            c.judge(good or (None if weak(x) else False), name, where, f"preference is {show(x)[:200]} with user_preference {'0' if zero else '>= 1'}")


def truth_(x):
    return mk("truth", x)


@rule("C12", 12, "Days of use", "path-sensitive abstract interpretation of the gate; both implications refuted/proved per path by polyhedra facts",
      "Integer preferences and day types.")
def c12(c):
    o_gate(c)
    o_daily_pref(c)
    from . import r_usecase
    r_usecase.o_day_type(c)
    with c.only("task-arguments (general): day type"):
        r_usecase.o_sim_args(c, False)
        r_usecase.o_sim_args(c, True)
