"""C01-C08: one day of one appliance"""
from .day import *
from . import day


# ------------------------------------------------------------------ contracts of the parts
STATE = {"daily_use", "free_spots", "random_cycle1", "random_cycle2", "random_cycle3", "current_duty_cycle_id"}
USTATE = {"rand_daily_pref", "load"}
# what users and appliances are declared with (a simulation must leave it alone)
CONFIG_FIELDS = set(APP_INT + APP_NUM + APP_PAIR) - STATE | {
    "user", "power", "name", "fixed", "flat", "fixed_cycle1", "fixed_cycle2", "fixed_cycle3", "usecase", "user_name", "num_users",
    "user_preference", "App_list", "users", "appliances", "random_seed", "parallel_processing"}


def o_window(c):
    """calc_rand_window: bounds of the randomised window, for every rank"""
    for k in (1, 2, 3):
        con = f"Appliance.calc_rand_window(window_idx={k})"
        with c.ob("window-bounds", con):
            I = c.interp()
            st = St()
            w0, w1, v = sym("w0", "int"), sym("w1", "int"), sym("v", "int")
            for j in (1, 2, 3):
                # only the window and variability of rank k are the right ones
                a, b, x = (w0, w1, v) if j == k else (sym(f"other{j}_0", "int"), sym(f"other{j}_1", "int"), sym(f"otherv{j}", "int"))
                st.fields[(APP, f"window_{j}")] = models.new_nd(I, st, mk("vec", a, b))
                st.fields[(APP, f"random_var_{j}")] = x
            dom = [le(ZERO, w0), le(w0, w1), le(w1, const(1440)), le(ZERO, v), le(v, sub(w1, w0))]
            for f in dom:
                st.assume(f)
            outs = c.run(I, "Appliance.calc_rand_window", st, [APP], {"window_idx": const(k)})
            where = c.where(I, "Appliance.calc_rand_window")
            for s in outs:
                if raised(I, s):
                    c.bad("window-no-error", where, f"raises {raised(I, s)} for a declared window")
                    continue
                p = models.as_vec(I, s, ret(s))
                if p is None or len(p) != 2:
                    c.undec("window-bounds", where, f"returns {show(I.snap(s, ret(s)))[:200]}")
                    continue
                r0, r1 = I.snap(s, p[0]), I.snap(s, p[1])
                for name, cond in (("start not before 0", le(ZERO, r0)), ("end not after 1440", le(r1, const(1440))),
                                   ("start not after end", le(r0, r1)),
                                   ("start shifted by at most the variability", and_(le(sub(w0, v), r0), or_(le(r0, add(w0, v)), le(r0, ZERO)))),
                                   ("end shifted by at most the variability",
                                    and_(or_(le(sub(w1, v), r1), le(const(1440), r1)), le(r1, add(w1, v))))):
                    c.holds(I, s, cond, "window-bounds: " + name, where)
                G = Facts(s.facts, I.axiom_hook)
                for d in {x for r in (r0, r1) for x in subterms(r) if x.op == "rnd" and x.a[0] == "randint" and len(x.a[2]) == 2}:
                    lo, hi = d.a[2]
                    c.judge(G.entails(le(lo, hi)) or (None if weak(lo, hi) else False), "window-no-error", where, f"draws an integer between {show(lo)[:100]} and {show(hi)[:100]}, which fails if there is none")
                # shifted independently: two draws
                d0, d1 = set(rnds(r0)), set(rnds(r1))
                if not weak(mk("tuple", r0, r1)):
                    F = Facts(s.facts)
                    clipped = F.entails(eq(r0, ZERO)) or F.entails(eq(r1, const(1440)))
                    if not clipped:
                        c.check(len(d0 | d1) >= 2 and d0 and d1, "window-independent", where,
                                f"start {show(r0)[:150]} and end {show(r1)[:150]} are not two separate draws")


def o_variability(c):
    """windows(): random_var_k = int(random_var_w * length of window k)"""
    with c.ob("variability", "Appliance.windows"):
        I = c.interp({"User._add_appliance_instance": lambda I, st, env, n: [(st, NONE)]})
        st = St()
        w = {}
        for j in (1, 2, 3):
            a, b = sym(f"w{j}_0", "int"), sym(f"w{j}_1", "int")
            w[j] = (a, b)
            for f in (le(ZERO, a), le(a, b), le(b, const(1440))):
                st.assume(f)
        rvw = sym("random_var_w", "num")
        st.assume(le(ZERO, rvw))
        st.assume(le(rvw, ONE))
        n = mk("attr", APP, "num_windows")
        st.assume(le(ONE, n))
        st.assume(le(n, const(3)))
        args = {f"window_{j}": models.new_nd(I, st, mk("vec", *w[j])) for j in w}
        args["random_var_w"] = rvw
        outs = c.run(I, "Appliance.windows", st, [APP], args)
        where = c.where(I, "Appliance.windows")
        good = 0
        for s in outs:
            if raised(I, s):
                continue
            good += 1
            for j in (1, 2, 3):
                got = s.fields.get((APP, f"random_var_{j}"))
                if got is None:
                    c.bad("variability", where, f"random_var_{j} is not set")
                    continue
                p = s.fields.get((APP, f"window_{j}"))
                pv = models.as_vec(I, s, p) if p is not None else None
                if pv is None or len(pv) != 2:
                    c.undec("variability", where, f"window_{j} is {p}")
                    continue
                c.same(I, s, got, rounder("int", mul(rvw, sub(I.snap(s, pv[1]), I.snap(s, pv[0])))), "variability", where)
        if not good:
            c.undec("variability", where, "no normal outcome")


def gen_outcomes(c, windows="nonempty", facts=(), stubs=None):
    I = c.interp(stubs or day.stubs())
    st = St()
    st.assume(lt(P0, P1))
    if windows == "nonempty":
        for k in (1, 2, 3):
            st.assume(lt(RA[k], RB[k]))
    for f in facts:
        st.assume(f)
    outs = run_gen(c, I, st)
    return I, outs


def peel_stores(t):
    """(innermost value, [(index, value)...])"""
    out = []
    while t.op in ("store", "put"):
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, out[::-1]


def o_gen_inside(c):
    """generate_load_profile itself only writes inside the windows of the day and passes on minutes of the drawn events"""
    with c.ob("writes-inside-windows", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        for s in outs:
            if raised(I, s):
                continue
            du = s.fields.get((APP, "daily_use"))
            if du is None:
                c.bad("profile-reset", where, "an outcome leaves the profile of the previous day")
                continue
            v = I.snap(s, du)
            base, ws = peel_stores(v)
            if base.op != "zeros":
                if weak(v) or base.op not in ("full", "attr", "poly"):
                    c.undec("writes-inside-windows", where, show(v)[:200])
                else:
                    c.bad("profile-reset", where, f"the profile of a day starts from {show(base)[:100]} instead of zeros")
                continue
            c.check(base.a[0] is const(1440), "profile-length", where, f"profile of {show(base.a[0])} minutes")
            F = Facts(s.facts)
            for idx, val in ws:
                if idx.op == "slice" and (idx.a[2] is NONE or idx.a[2] is ONE):
                    a, b = idx.a[0], idx.a[1]
                    inside = any(F.entails(le(RA[k], a)) and F.entails(le(b, RB[k])) for k in RA)
                    if inside:
                        c.ok("writes-inside-windows", where)
                    elif weak(idx):
                        c.undec("writes-inside-windows", where, show(idx)[:200])
                    else:
                        c.bad("writes-inside-windows", where, f"writes the profile at {show(idx)[:200]}")
                else:
                    c.undec("writes-inside-windows", where, f"index {show(idx)[:200]}")
        event_paths(c, I, where, minutes_only=True)
        win_calls(c, I, outs, where)


def win_calls(c, I, outs, where):
    """the windows of the day are those of rank 1, 2, 3 with the default clipping"""
    for s in outs:
        for e in s.events:
            if e.kind == "mcall" and e.name == "calc_rand_window":
                lim = models.as_vec(I, s, e.args["window_range_limits"]) if "window_range_limits" in e.args else None
                if "window_range_limits" in e.args:
                    if lim is None:
                        c.undec("window-clipped-to-the-day", where, "limits")
                    else:
                        c.check(len(lim) == 2 and lim[0] is ZERO and lim[1] is const(1440), "window-clipped-to-the-day", where,
                                f"windows clipped to {[show(x) for x in lim]}")


# ------------------------------------------------------------------ the switch-on loop
class Loop:
    """the while loop of generate_load_profile which draws the switch-on events"""

    def __init__(self, I):
        self.I = I
        self.info = None
        self.cut = set()
        for n, w in I.whiles.items():
            if any(e.kind == "mcall" and e.name == "rand_switch_on_window" for o in w["cont"] + w["exits"] for e in o.events[w["nev"]:]):
                self.info = w

    def paths(self):
        w = self.info
        for kind in ("cont", "exits", "done"):
            for o in w[kind]:
                yield kind, o, [e for e in flat_events(o.events[w["nev"]:])]

    def accumulator(self):
        """(minutes so far as a term at the head of the loop, start value ok)"""
        w, I = self.info, self.I
        res = []
        for loc, lv in w["lvs"].items():
            if loc[0] == "heap":
                continue
            ok = True
            sign = 0
            for o in w["cont"]:
                size = ZERO
                for e in flat_events(o.events[w["nev"]:]):
                    if e.kind == "mcall" and e.name == "rand_switch_on_window" and e.res is not NONE and e.res.op == "range":
                        size = add(size, sub(e.res.a[1], e.res.a[0]))
                new = I.loc_get(o, loc)
                if new is None:
                    ok = False
                    break
                d = sub(I.snap(o, new), lv)
                if d is size and size is not ZERO:
                    sg = 1
                elif d is neg(size) and size is not ZERO:
                    sg = -1
                else:
                    sg = self.counts_recorded(o, w, loc, lv, d, size)
                    if not sg:
                        ok = False
                        break
                if sign not in (0, sg):
                    ok = False
                    break
                sign = sg
            if ok and sign:
                b = I.loc_get(w["base"], loc)
                if b is None:
                    continue
                b = I.snap(w["base"], b)
                res.append(sub(lv, b) if sign == 1 else sub(b, lv))
        return res


    def counts_recorded(self, o, w, loc, lv, d, size):
        """the counter grows (1) or falls (-1) by the recorded minutes of the event: all of it, or as much as there is time left"""
        I = self.I
        b = I.loc_get(w["base"], loc)
        if b is None or size is ZERO:
            return 0
        b = I.snap(w["base"], b)
        for sg in (1, -1):
            T = sub(lv, b) if sg == 1 else sub(b, lv)
            F = Facts(list(o.facts) + [le(ZERO, T), le(T, RANDT)])
            if F.consistent() and F.entails(eq(d if sg == 1 else neg(d), mn(size, sub(RANDT, T)))):
                self.cut.add(loc)
                return sg
        return 0


def flat_events(evs):
    for e in evs:
        if e.kind in ("if",):
            for b in e.sub:
                yield from flat_events(b)
        elif e.kind in ("loop", "loopexit"):
            yield from flat_events(e.sub)
        else:
            yield e


def event_paths(c, I, where, minutes_only=False):
    """obligations on each iteration of the switch-on loop"""
    L = Loop(I)
    if L.info is None:
        c.undec("switch-on-loop", where, "no loop which draws switch-on events")
        return
    T = None
    if not minutes_only:
        acc = L.accumulator()
        if not acc:
            # no variable counts the minutes: is the loop still bounded by them?
            c.undec("minutes-counted", where, "no variable of the loop counts the minutes of the events")
            diagnose_accumulator(c, I, L, where)
            return
        T = acc[0]
    for kind, o, evs in L.paths():
        draws = [e for e in evs if e.kind == "mcall" and e.name == "rand_switch_on_window"]
        ups = [e for e in evs if e.kind == "mcall" and e.name == "update_daily_use"]
        facts = list(o.facts)
        if T is not None:
            facts += [le(ZERO, T), le(T, RANDT)]
        F = Facts(facts)
        if not F.consistent():
            continue
        if len(draws) > 1:
            c.undec("one-event-at-a-time", where, "several events drawn in an iteration")
            continue
        ev = draws[0].res if draws else None
        for u in ups:
            ix = u.args["indexes"]
            if ev is None or ev is NONE:
                if kind == "done" and ev is None:
                    c.undec("event-minutes", where, "event recorded after the loop")
                else:
                    c.bad("event-minutes", where, f"records {show(ix)[:150]} without a drawn event")
                continue
            if ix.op != "range" or ix.a[2] is not ONE:
                c.undec("event-minutes", where, show(ix)[:200]) if weak(ix) or ix.op != "call" else c.bad("event-minutes", where, show(ix)[:200])
                continue
            inside = F.entails(le(ev.a[0], ix.a[0])) and F.entails(le(ix.a[1], ev.a[1]))
            c.judge(inside or (None if weak(ix) else False), "event-minutes", where,
                    f"records minutes {show(ix)[:200]} of an event {show(ev)[:100]}")
        if minutes_only:
            continue
        if draws:
            rt = draws[0].args.get("rand_time")
            c.judge(rt is not None and F.entails(le(rt, RANDT)), "time-of-use-passed", where, f"event drawn for {rt} minutes")
            c.judge(not F.entails(eq(RANDT, ZERO)), "no-event-without-time-of-use", where, "an event is drawn although the time of use is 0")
        if ev is None or ev is NONE:
            c.check(not ups, "no-event-no-record", where, "records minutes although no event was drawn")
            if kind == "cont":
                c.bad("stops-without-event", where, "goes on although no event can be drawn any more") if ev is NONE else \
                    c.undec("stops-without-event", where, "iteration without event")
            elif ev is None:
                # left by the guard of the loop
                c.judge(F.entails(or_(eq(RANDT, ZERO), le(RANDT, T))), "stops-only-when-full", where,
                        "the loop ends although the drawn time of use is not reached: " + fact_text(o))
            else:
                c.ok("stops-without-event", where)
            continue
        size = sub(ev.a[1], ev.a[0])
        if kind == "cont":
            c.check(len(ups) == 1, "event-recorded-once", where, f"event recorded {len(ups)} times")
            if L.cut:
                # the counter counts the recorded minutes: an event may be shortened to the time left, which ends the loop
                rec = mn(size, sub(RANDT, T))
                for u in ups:
                    ix = u.args["indexes"]
                    if ix.op == "range":
                        c.judge(F.entails(eq(ix.a[0], ev.a[0])), "last-event-shortened-at-its-end", where, f"records {show(ix)[:150]} of {show(ev)[:100]}")
                        c.judge(F.entails(eq(sub(ix.a[1], ix.a[0]), rec)), "whole-event-recorded", where,
                                f"records {show(sub(ix.a[1], ix.a[0]))[:150]} minutes instead of {show(rec)[:150]}")
                c.judge(F.entails(lt(T, RANDT)) or None, "never-exceeds-time-of-use", where, "an event is drawn although no time is left")
                continue
            for u in ups:
                ix = u.args["indexes"]
                if ix.op == "range":
                    c.judge(F.entails(eq(ix.a[0], ev.a[0])) and F.entails(eq(ix.a[1], ev.a[1])), "whole-event-recorded", where,
                            f"records {show(ix)[:150]} of {show(ev)[:100]}")
            c.judge(F.entails(le(add(T, size), RANDT)), "never-exceeds-time-of-use", where,
                    "goes on after an event which exceeds the drawn time of use")
        else:
            # last event
            c.judge(F.entails(le(RANDT, add(T, size))), "stops-only-when-full", where,
                    "stops although the drawn time of use is not reached: " + fact_text(o))
            if not ups:
                c.judge(F.entails(le(RANDT, T)), "last-event-shortened", where, "the last event is dropped although there is time left")
            else:
                c.check(len(ups) == 1, "event-recorded-once", where, f"event recorded {len(ups)} times")
                ix = ups[0].args["indexes"]
                if ix.op == "range":
                    c.judge(F.entails(eq(ix.a[0], ev.a[0])), "last-event-shortened-at-its-end", where,
                            f"records {show(ix)[:150]} of {show(ev)[:100]}")
                    c.judge(F.entails(eq(sub(ix.a[1], ix.a[0]), sub(RANDT, T))), "last-event-shortened", where,
                            f"records {show(sub(ix.a[1], ix.a[0]))[:150]} minutes instead of {show(sub(RANDT, T))[:150]}")


def diagnose_accumulator(c, I, L, where):
    """a counter exists but does not add the size of each event"""
    w = L.info
    ints = [(loc, lv) for loc, lv in w["lvs"].items() if loc[0] != "heap" and tm.ty(lv) in ("int", "num")]
    # guard which depends on RANDT and one counter only
    for loc, lv in ints:
        deltas = []
        for o in w["cont"]:
            new = I.loc_get(o, loc)
            if new is None or weak(subst(I.snap(o, new), {lv: ZERO})):
                return
            deltas.append(sub(I.snap(o, new), lv))
        if deltas and len(ints) == 1:
            c.bad("minutes-counted", where, f"{loc[1]} grows by {[show(d)[:80] for d in deltas[:3]]} instead of the duration of the event")
    if not ints:
        c.bad("minutes-counted", where, "no counter of the minutes of the events drawn so far")


def o_init_spots(c):
    """free ranges at the beginning of the day: exactly the non empty windows"""
    for bits in itertools.product((True, False), repeat=3):
        with c.ob("initial-free-ranges", "Appliance.generate_load_profile"):
            fs = [lt(RA[k], RB[k]) if b else eq(RA[k], RB[k]) for k, b in zip((1, 2, 3), bits)]
            I, outs = gen_outcomes(c, windows=None, facts=fs)
            where = c.where(I, "Appliance.generate_load_profile")
            L = Loop(I)
            if L.info is None:
                c.undec("initial-free-ranges", where, "no switch-on loop")
                continue
            b = L.info["base"]
            v = b.fields.get((APP, "free_spots"))
            if v is None:
                c.bad("initial-free-ranges", where, "the free ranges of the previous day are kept")
                continue
            items = models.as_vec(I, b, v)
            if items is None:
                c.undec("initial-free-ranges", where, show(I.snap(b, v))[:200])
                continue
            F = Facts(b.facts)
            got = []
            for x in items:
                x = I.snap(b, x)
                if x.op != "slice":
                    got = None
                    break
                got.append(x)
            if got is None:
                c.undec("initial-free-ranges", where, show(I.snap(b, v))[:200])
                continue
            want = [k for k, bb in zip((1, 2, 3), bits) if bb]
            left = list(want)
            extra = []
            for x in got:
                if F.entails(le(x.a[1], x.a[0])):
                    # an empty range
                    extra.append(x)
                    continue
                hit = [k for k in left if F.entails(eq(x.a[0], RA[k])) and F.entails(eq(x.a[1], RB[k]))]
                if hit:
                    left.remove(hit[0])
                else:
                    extra.append(x)
            c.check(not left and not extra, "initial-free-ranges", where,
                    f"free ranges are {[show(x) for x in got]} instead of windows {want} of the day")


# ------------------------------------------------------------------ rand_switch_on_window
def o_switch(c, cycles=False):
    with c.ob("event-in-free-range", "Appliance.rand_switch_on_window"):
        spots_type()
        # which duty cycle an event falls in is decided by C10: any answer here
        I = c.interp({"ramp.core.utils.range_within_window": lambda I, st, env, n: [(st, mk("truth", sym(f"within{I.fresh()}", "bool")))]})
        I.axiom_hook = spots_axiom
        st = St()
        fc = mk("attr", APP, "func_cycle")
        dom = [le(ZERO, fc), le(fc, RANDT), le(ONE, RANDT)]
        if not cycles:
            dom.append(eq(mk("attr", APP, "fixed_cycle"), ZERO))
        for f in dom:
            st.assume(f)
        I.merge_at = 3 * I.merge_at
        outs = c.run(I, "Appliance.rand_switch_on_window", st, [APP], {"rand_time": RANDT})
        where = c.where(I, "Appliance.rand_switch_on_window")
        need = mx(fc, ONE)
        n_ev = 0
        for s in outs:
            v = ret(s)
            sv = I.snap(s, v) if isinstance(v, T) else NONE
            k = sym("anyspot", "int")
            cases, picks = skolem_cases(I, s, [sv], idx=[])
            if cases is None:
                c.undec("event-in-free-range", where, "the start of the event is not understood")
                continue
            if raised(I, s):
                if cases:
                    c.judge(None if st_weak(s) else False, "no-error", where, f"raises {raised(I, s)} although a range is free: {fact_text(s)}")
                else:
                    c.ok("no-error", where)
                continue
            if sv is NONE:
                # no event: no range is long enough
                fs = list(s.facts) + [le(ZERO, k), lt(k, mk("len", FS)), le(need, sub(sstop(k), sstart(k)))]
                fs = flatten_or(instantiate(fs, [k], I.axiom_hook), I.axiom_hook)
                F = Facts(fs, I.axiom_hook)
                if FALSE in fs or not F.consistent():
                    c.ok("none-only-if-no-room", where)
                else:
                    c.judge(None if st_weak(s) else False, "none-only-if-no-room", where,
                            "no event although a free range has room for func_cycle minutes: " + fact_text(s))
                continue
            if sv.op == "rec":
                c.ok("event-in-free-range: drawn again", where)
                continue
            if sv.op != "range":
                c.judge(None if weak(sv) or sv.op in ("call", "ite") else False, "event-is-a-run-of-minutes", where, show(sv)[:200])
                continue
            n_ev += 1
            c.check(sv.a[2] is ONE, "event-is-a-run-of-minutes", where, show(sv)[:200])
            for facts, m, ix in cases:
                F = Facts(facts, I.axiom_hook)
                a, b = subst(sv.a[0], m), subst(sv.a[1], m)
                inside = any(F.entails(le(sstart(i), a)) and F.entails(le(b, sstop(i))) for i in ix)
                c.judge(inside or (None if weak(sv, mk("tuple", *picks)) else False), "event-in-free-range", where,
                        f"event {show(mk('range', a, b, ONE))[:300]} is in none of the free ranges")
                size = sub(b, a)
                shortened = cycles and any(s2.op == "len" and s2.a[0].op == "attr" for s2 in subterms(size))
                if not shortened:
                    c.judge(F.entails(le(need, size)) or (None if weak(size) else False), "lasts-func_cycle", where,
                            f"event of {show(size)[:200]} minutes")
                else:
                    c.judge(F.entails(le(size, RANDT)) or (None if weak(size) else False), "not-longer-than-time-of-use", where, show(size)[:200])
                if not shortened:
                    c.judge(F.entails(le(size, RANDT)) or (None if weak(size) else False), "not-longer-than-time-of-use", where,
                            f"event of {show(size)[:200]} minutes")
            for p in picks:
                start_set(c, I, s, p, need, where)
        if not n_ev:
            c.undec("event-in-free-range", where, "no outcome with an event")


def start_set(c, I, s, p, need, where):
    """the list the start is drawn from holds every possible start, and each of its elements can be drawn"""
    L, j = p.a
    if not (j.op == "rnd" and j.a[0] == "randint"):
        c.undec("every-start-can-be-drawn", where, show(j)[:100])
        return
    lo, hi = j.a[2]
    n = I.len_of(s, L)
    F = Facts(s.facts, I.axiom_hook)
    c.judge((eqv(F, lo, ZERO) and eqv(F, hi, sub(n, ONE))) or (None if weak(mk("tuple", lo, hi, n)) else False), "every-start-can-be-drawn", where,
            f"index drawn from {show(lo)[:100]} to {show(hi)[:200]}, list of {show(n)[:200]}")
    k, x = sym("anyspot", "int"), sym("anystart", "int")
    base = [le(ZERO, k), lt(k, mk("len", FS)), le(sstart(k), x), le(x, sub(sstop(k), need))]
    dom = [f for f in s.facts if f.op in ("le0", "lt0", "eq0") and not any(t.op in ("at", "rnd", "sum") for t in subterms(f))]
    segs = L.a if L.op == "seq" else (mk("star", L),)
    ok = False
    for seg in segs:
        if seg.op != "for":
            continue
        lvl, n, body = seg.a
        if n is not mk("len", FS):
            continue
        body = subst(body, {mk("b", lvl): k})
        for f, i in pick_alternatives(body, x) or []:
            if not i and Facts(base + dom, I.axiom_hook).entails(and_(*f)):
                ok = True
    c.judge(ok or (None if not any(seg.op == "for" for seg in segs) else False), "every-start-can-be-drawn", where,
            f"not every start of a free range is in the list {show(L)[:300]}")


# ------------------------------------------------------------------ update of the free ranges
def o_free_update(c):
    """minutes of the event withdrawn, all others kept, for an event inside one of several disjoint ranges"""
    for n, pos, one in ((1, 0, False), (3, 0, False), (3, 1, False), (3, 2, False), (1, 0, True), (2, 1, True)):
        with c.ob("free-ranges-updated", "Appliance.update_available_time_for_switch_on_events"):
            I = c.interp()
            st = St()
            a = [sym(f"s{i}", "int") for i in range(n)]
            b = [sym(f"e{i}", "int") for i in range(n)]
            e0 = sym("ev0", "int")
            e1 = add(e0, ONE) if one else sym("ev1", "int")
            st.assume(le(ZERO, a[0]))
            for i in range(n):
                st.assume(lt(a[i], b[i]))
                st.assume(le(b[i], const(1440)))
                if i:
                    st.assume(le(b[i - 1], a[i]))
            st.assume(lt(e0, e1))
            st.assume(le(a[pos], e0))
            st.assume(le(e1, b[pos]))
            st.fields[(APP, "free_spots")] = I.new_list(st, [mk("slice", x, y, NONE) for x, y in zip(a, b)])
            ev = models.new_nd(I, st, mk("range", e0, e1, ONE))
            outs = c.run(I, "Appliance.update_available_time_for_switch_on_events", st, [APP], {"indexes": ev})
            where = c.where(I, "Appliance.update_available_time_for_switch_on_events")
            m = sym("minute", "int")
            for s in outs:
                if raised(I, s):
                    c.bad("free-ranges-updated", where, f"raises {raised(I, s)}")
                    continue
                items = models.as_vec(I, s, s.fields.get((APP, "free_spots")))
                if items is None or any(I.snap(s, x).op != "slice" for x in items):
                    c.undec("free-ranges-updated", where, show(I.snap(s, s.fields.get((APP, "free_spots"))))[:200])
                    continue
                items = [I.snap(s, x) for x in items]
                F = Facts(s.facts)
                isin = or_(*[and_(le(x.a[0], m), lt(m, x.a[1])) for x in items]) if items else FALSE
                inev = [le(e0, m), lt(m, e1)]
                G = Facts(s.facts + inev)
                c.judge(not G.consistent() or all(_refuted(G, x, m) for x in items), "event-minutes-withdrawn", where,
                        f"after the event [{e0}, {e1}) the free ranges are {[show(x) for x in items]}")
                for i in range(n):
                    # minutes of range i outside of the event stay free
                    for side in ([le(a[i], m), lt(m, b[i]), lt(m, e0)], [le(a[i], m), lt(m, b[i]), le(e1, m)]):
                        G = Facts(s.facts + side)
                        c.judge(not G.consistent() or G.entails(isin), "other-minutes-stay-free", where,
                                f"after an event [ev0, ev1) in [s{pos}, e{pos}) the free ranges are {[show(x) for x in items]} ({fact_text(s, 20)})")
                # nothing new becomes free
                G = Facts(s.facts + [or_(*[and_(le(x.a[0], m), lt(m, x.a[1])) for x in items])] if items else [FALSE])
                was = or_(*[and_(le(x, m), lt(m, y)) for x, y in zip(a, b)])
                good = all(not Facts(s.facts + [le(x.a[0], m), lt(m, x.a[1])]).consistent() or
                           Facts(s.facts + [le(x.a[0], m), lt(m, x.a[1])]).entails(was) for x in items)
                c.judge(good, "nothing-else-becomes-free", where, f"free ranges become {[show(x) for x in items]}")


def _refuted(G, x, m):
    return not Facts(G.facts + [le(x.a[0], m), lt(m, x.a[1])]).consistent()


def o_update_calls(c):
    """update_daily_use withdraws exactly the recorded minutes"""
    with c.ob("recorded-minutes-withdrawn", "Appliance.update_daily_use"):
        def s_avail(I, st, env, node):
            I.event(st, "mcall", "update_available", recv=env["self"], args={k: I.snap(st, v) for k, v in env.items()}, node=node)
            return [(st, NONE)]
        for st, I, outs, where in update_outcomes(c, {"Appliance.update_available_time_for_switch_on_events": s_avail}):
            for s in outs:
                if raised(I, s):
                    c.bad("no-error", where, f"raises {raised(I, s)}")
                    continue
                evs = [e for e in flat_events(s.events) if e.kind == "mcall" and e.name == "update_available"]
                good = len(evs) == 1 and evs[0].args.get("indexes") is EVENT
                c.judge(good, "recorded-minutes-withdrawn", where,
                        f"free ranges updated {len(evs)} times, with {[show(e.args.get('indexes', NONE))[:80] for e in evs]}: {fact_text(s)}")


E0, E1 = sym("ev0", "int"), sym("ev1", "int")
EVENT = mk("range", E0, E1, ONE)
COINC = sym("coincidence", "int")


def update_outcomes(c, stubs=None, fixed=(0, 1, 2, 3)):
    for k in (0, 1, 2, 3):
        I = c.interp(stubs or {"Appliance.update_available_time_for_switch_on_events": lambda I, st, env, n: [(st, NONE)]})
        st = St()
        fcy = mk("attr", APP, "fixed_cycle")
        cur = mk("attr", APP, "current_duty_cycle_id")
        if k == 0:
            st.assume(eq(fcy, ZERO))
        else:
            st.assume(le(ONE, fcy))
            st.assume(le(fcy, const(3)))
            st.assume(eq(cur, const(k)))
        for f in (le(ZERO, E0), lt(E0, E1), le(E1, const(1440)), le(ONE, COINC)):
            st.assume(f)
        args = {"coincidence": COINC, "power": POWER, "indexes": models.new_nd(I, st, EVENT)}
        st.fields[(APP, "daily_use")] = models.new_nd(I, st, mk("attr", APP, "daily_use"))
        outs = c.run(I, "Appliance.update_daily_use", st, [APP], args)
        where = c.where(I, "Appliance.update_daily_use")
        yield k, I, outs, where


def o_put_inside(c):
    with c.ob("event-writes-its-minutes", "Appliance.update_daily_use"):
        for k, I, outs, where in update_outcomes(c):
            for s in outs:
                if raised(I, s):
                    continue
                v = I.snap(s, s.fields.get((APP, "daily_use"), mk("attr", APP, "daily_use")))
                base, ws = peel_stores(v)
                if base is not mk("attr", APP, "daily_use"):
                    c.judge(None if weak(v) else False, "event-writes-its-minutes", where, f"profile becomes {show(v)[:200]}")
                    continue
                F = Facts(s.facts)
                for idx, val in ws:
                    if idx.op == "range":
                        r = idx.a[2] is ONE and F.entails(le(E0, idx.a[0])) and F.entails(le(idx.a[1], E1))
                    elif idx.op == "slice":
                        r = idx.a[2] in (NONE, ONE) and F.entails(le(E0, idx.a[0])) and F.entails(le(idx.a[1], E1))
                    else:
                        r = None
                    c.judge(r, "event-writes-its-minutes", where, f"an event at [ev0, ev1) writes {show(idx)[:200]}")


def o_window_pure(c):
    """calc_rand_window leaves the declared windows and its default limits unchanged"""
    con = "Appliance.calc_rand_window"
    with c.ob("configuration-unchanged", con):
        for k in (1, 2, 3):
            I = c.interp()
            st = St()
            refs = {}
            for j in (1, 2, 3):
                refs[j] = models.new_nd(I, st, mk("vec", sym(f"w{j}_0", "int"), sym(f"w{j}_1", "int")))
                st.fields[(APP, f"window_{j}")] = refs[j]
                st.fields[(APP, f"random_var_{j}")] = sym(f"rv{j}", "int")
            lim = I.new_list(st, [ZERO, const(1440)])
            before = {j: I.snap(st, r) for j, r in refs.items()}
            f0 = dict(st.fields)
            outs = c.run(I, con, st, [APP], {"window_idx": const(k), "window_range_limits": lim})
            where = c.where(I, con)
            for s in outs:
                for j in refs:
                    c.check(I.snap(s, refs[j]) is before[j], "configuration-unchanged", where, f"window {j} is modified")
                p = models.as_vec(I, s, lim)
                c.check(p is not None and p[0] is ZERO and p[1] is const(1440), "default-limits-unchanged", where, "the default limits are modified in place")
                new = sorted(k[1] for k in s.fields if k not in f0 and k[0] is APP and k[1] in CONFIG_FIELDS)
                c.check(all(s.fields.get(q) is v for q, v in f0.items()) and not new, "configuration-unchanged", where,
                        f"drawing a window changes the configuration {new}")


# ------------------------------------------------------------------ rules
@rule("C01", 60, "Power only inside the windows", "abstract interpretation of the randomisation and of all writes to the profile (interval/polyhedra facts)",
      "Windows with 0 <= start <= end <= 1440 and random_var_w in [0, 1]; numpy/random models trusted.")
def c01(c):
    o_window(c)
    o_variability(c)
    o_gen_inside(c)
    o_put_inside(c)
    with c.only("event-", "no-error"):
        o_switch(c)
        o_switch(c, cycles=True)
    o_init_spots(c)
    with c.only("free-ranges-updated", "nothing-else-becomes-free"):
        o_free_update(c)
    with c.only("default-limits-unchanged", "configuration-unchanged"):
        o_window_pure(c)


@rule("C04", 10, "Switch-on events fill the time of use", "inductive loop invariant over every path of the switch-on loop (abstract interpretation)",
      "Contracts of rand_switch_on_window (C05), rand_total_time_of_use (C03), update_daily_use (C09) are used at their calls.")
def c04(c):
    with c.ob("switch-on-loop", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        event_paths(c, I, c.where(I, "Appliance.generate_load_profile"))


@rule("C05", 15, "An event fits in a free range", "abstract interpretation with skolemised list elements and polyhedra facts",
      "Any list of non-empty free ranges; func_cycle <= time of use (C03).")
def c05(c):
    o_switch(c)
    o_switch(c, cycles=True)
    with c.ob("switch-on-loop", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        where = c.where(I, "Appliance.generate_load_profile")
        L = Loop(I)
        if L.info is None:
            c.undec("time-of-use-passed", where, "no loop")
        else:
            for kind, o, evs in L.paths():
                for e in evs:
                    if e.kind == "mcall" and e.name == "rand_switch_on_window":
                        c.judge(Facts(o.facts).entails(le(e.args.get("rand_time", ZERO), RANDT)), "time-of-use-passed", where,
                                f"event drawn for {e.args.get('rand_time')}")
    o_init_spots(c)
    o_free_update(c)


@rule("C06", 14, "Minutes of an event are withdrawn from the free time", "set semantics of the free ranges per symbolic minute, by polyhedra facts",
      "Up to three pairwise disjoint free ranges around the event (the ranges before and after stand for any number).")
def c06(c):
    o_free_update(c)
    o_update_calls(c)
    o_init_spots(c)
    o_gen_recorded(c)
    # the minutes of an event are free when it is placed: two events of a day never share one
    with c.only("event-"):
        o_switch(c)
        o_switch(c, cycles=True)


def o_gen_recorded(c):
    """events are recorded through update_daily_use only"""
    with c.ob("event-minutes", "Appliance.generate_load_profile"):
        I, outs = gen_outcomes(c)
        event_paths(c, I, c.where(I, "Appliance.generate_load_profile"), minutes_only=True)
