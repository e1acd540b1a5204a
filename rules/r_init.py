"""C19, C21-C23: initialisation of use cases"""
from .r_day2 import *

UC = sym("self", "obj:UseCase")
D0, D1 = sym("date0", "ext:datetime.datetime"), sym("date1", "ext:datetime.datetime")
E0, E1 = sym("newdate0", "ext:datetime.datetime"), sym("newdate1", "ext:datetime.datetime")
NDAYS, NEWN = sym("n", "int"), sym("n2", "int")
PE0, PE1 = sym("pe0", "float"), sym("pe1", "float")
U1, A1 = sym("u1", "obj:User"), sym("a1", "obj:Appliance")


PEAKS = {}


def s_peak(I, st, env, node):
    """a newly calculated peak time range of the users and the enlargement of that moment"""
    v = env.get("peak_enlarge", NONE)
    if v is NONE:
        v = cur_peak_enlarge(I, st)
    us = I.snap(st, st.fields.get((UC, "users"), mk("attr", UC, "users")))
    apps = tuple((show(u), I.snap(st, st.fields.get((u, "App_list"), mk("attr", u, "App_list")))) for u in us.a) if us.op == "vec" else ()
    res = sym(f"peakrange{I.fresh()}", "nd")
    PEAKS[res] = (v, us, mk("tuple", *[a[1] for a in apps]))
    I.event(st, "mcall", "calc_peak_time_range", recv=UC, args={"peak_enlarge": v}, res=res, node=node)
    return [(st, models.new_nd(I, st, res))]


def cur_peak_enlarge(I, st):
    for o in I.run("UseCase.peak_enlarge", st.copy(), [UC]):
        return I.snap(o, o.ctrl[1])
    return NONE


def s_check(I, st, env, node):
    args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
    I.event(st, "mcall", "check_power_values", recv=env["self"], args=args, node=node)
    return [(st, NONE)]


# ------------------------------------------------------------------ calendar values
BAD = (None, None, None, None)


def is_c(t):
    return t.op == "c"


def dr(t):
    """(start, end, periods, freq) of a pandas.date_range"""
    if t.op == "call" and t.a[0] == "pandas.date_range":
        d = dict(t.a[2])
        g = [d.get(k, d.get(i, NONE)) for i, k in enumerate(("start", "end", "periods", "freq"))]
        for k in ("inclusive", "closed"):
            if d.get(k, NONE) not in (NONE, const("both")):
                return BAD if is_c(d[k]) else None
            d.pop(k, None)
        extra = set(d) - {"start", "end", "periods", "freq", "name", 0, 1, 2, 3}
        return None if extra else tuple(g)
    return None


DAILY = {NONE} | {const(x) for x in ("D", "1D", "d", "1d", "24h", "24H", "1440min", "1440T", "86400s", "86400S")}
MINUTELY = {const("min"), const("1min"), const("T"), const("1T")}


def day_list(t):
    """(start or None, end or None, n or None) of a list of days"""
    r = dr(t)
    if r is not None and r is not BAD and r[3] not in DAILY:
        leaves, todo = [], [r[3]]
        while todo:
            x = todo.pop()
            todo += x.a[1:] if x.op == "ite" else []
            leaves += [x] if x.op != "ite" else []
        r = BAD if any(is_str(x) and x not in DAILY for x in leaves) else None
    if r is None:
        return None
    if r is BAD:
        return BAD[:3]
    s, e, n, _ = r
    s, e, n = (None if x is NONE else x for x in (s, e, n))
    return s, e, n


def days_are(t, start, end, n):
    """does the list of days t have two of the given start, end, number"""
    g = day_list(t)
    if g is None:
        if t.op == "at" and t.a[1].op == "slice" and day_list(t.a[0]) is not None:
            lo, hi, step = t.a[1].a
            s, e, k = day_list(t.a[0])
            if lo not in (NONE, ZERO) and is_num(lo) or step not in (NONE, ONE):
                return False
            if k is None and hi is n and n is not None:
                return False            # as many as there are between the dates if these are fewer
        return None
    s, e, k = g
    full = lambda x: x is not None
    if (s, e, k).count(None) != 1:
        return False
    # complete the expectation
    if n is not None and start is not None:
        end2 = add(start, mul(const(1440), sub(n, ONE)))
        return (s is start or s is None) and (e is None or eqv(Facts([]), e, end2)) and (k is None or eqv(Facts([]), k, n))
    if n is not None and end is not None:
        start2 = sub(end, mul(const(1440), sub(n, ONE)))
        return (e is end or e is None) and (s is None or eqv(Facts([]), s, start2)) and (k is None or eqv(Facts([]), k, n))
    return s is start and e is end and k is None


def first_last(t):
    """first and last day of a list of days"""
    g = day_list(t)
    first, last = mk("at", t, ZERO), mk("at", t, const(-1))
    alt = [(first, last)]
    if g and g.count(None) == 1:
        s, e, n = g
        f2 = s if s is not None else sub(e, mul(const(1440), sub(n, ONE)))
        l2 = e if e is not None else add(s, mul(const(1440), sub(n, ONE)))
        alt = [(x, y) for x in (first, f2) for y in (last, l2)]
    return alt


def minute_index_ok(ix, days, nd):
    if ix.op == "at" and ix.a[1].op == "slice" and ix.a[1].a[2] in (NONE, ONE):
        inner = minute_index_ok(ix.a[0], days, nd)
        a, b = ix.a[1].a[:2]
        if inner is not True:
            return inner
        F = Facts([le(ONE, nd), le(ONE, mk("len", days))])
        whole = [mul(const(1440), k) for k in (nd, mk("len", days))]
        if a in (NONE, ZERO) and (b is NONE or any(F.entails(le(k, b)) for k in whole)):
            return True
        short = b is not NONE and any(F.entails(lt(b, k)) for k in whole)
        return False if short or is_num(a) and a is not ZERO else None
    r = dr(ix)
    if r is None or r is BAD:
        return r and False
    s, e, n, f = r
    if f not in MINUTELY:
        return False if f.op == "c" or f is NONE else None
    for first, last in first_last(days):
        if s is not NONE and not eqv(Facts([]), s, first):
            continue
        if e is not NONE and not eqv(Facts([]), e, add(last, const(1439))):
            continue
        if n is not NONE and not any(eqv(Facts([]), n, mul(const(1440), k)) for k in (nd, mk("len", days))):
            continue
        if (s, e, n).count(NONE) == 1:
            return True
    return False


def today_ok(t):
    """midnight of the day of the run"""
    if t.op == "call" and t.a[0] in ("datetime.datetime", "pandas.Timestamp", "datetime.date"):
        d = dict(t.a[2])
        g = [d.get(k, d.get(i)) for i, k in enumerate(("year", "month", "day"))]
        if None in g:
            return None
        if any(x is None or x.op != "attr" for x in g):
            return None
        src = {x.a[0] for x in g}
        if len(src) != 1 or [x.a[1] for x in g] != ["year", "month", "day"]:
            return False
        more = set(d) - {"year", "month", "day", 0, 1, 2}
        return is_now(src.pop()) and not more
    if t.op == "call" and t.a[0] in ("datetime.date.today",):
        return True
    if t.op == "call" and t.a[0] in (".normalize", ".date", ".floor") and is_now(t.a[1]):
        return True
    if t.op == "call" and t.a[0] == "datetime.datetime.combine":
        d = dict(t.a[2])
        day, time = d.get("date", d.get("0")), d.get("time", d.get("1"))
        if day is None or time is None:
            return None
        if time.op == "call" and time.a[0] == "datetime.time":
            if any(x is not ZERO for x in dict(time.a[2]).values()):
                return False
        elif not (time.op == "ext" and time.a[0] == "datetime.time.min"):
            return None
        return True if is_now(day) or day.op == "call" and day.a[0] == ".date" and is_now(day.a[1]) else None
    if is_now(t):
        return False
    return None


def is_now(t):
    return t.op == "call" and t.a[0] in ("datetime.datetime.today", "datetime.datetime.now", "pandas.Timestamp.today", "pandas.Timestamp.now", "datetime.date.today")


# ------------------------------------------------------------------ scenarios
class Scen:
    """a use case built by the code itself: constructor arguments, then calls"""

    def __init__(self, c, stub_check=True):
        st = {"UseCase.calc_peak_time_range": s_peak}
        if stub_check:
            st["Appliance.check_power_values"] = s_check
        self.c = c
        self.I = c.interp(st)
        self.I.concrete_rec = True
        self.st = St()
        for v in (NDAYS, NEWN):
            self.st.assume(le(ONE, v))
        for v in (PE0, PE1):
            self.st.assume(le(ZERO, v))

    def build(self, start, end, steps=(), users=True):
        I, st = self.I, self.st
        st.fields[(U1, "App_list")] = I.new_list(st, [A1])
        st.fields[(A1, "user")] = U1
        kw = {"users": I.new_list(st, [U1]), "peak_enlarge": PE0}
        if users is None:
            del kw["users"]
        elif not users:
            kw["users"] = I.new_list(st, [])
        if start is not None:
            kw["date_start"] = start
        if end is not None:
            kw["date_end"] = end
        seq = [("UseCase.__init__", [UC], kw)] + list(steps)
        return self.c.steps(I, st, seq)

    def call(self, s, kw, qual="UseCase.initialize", setter=False, args=()):
        t = s.copy()
        t.events = []
        return self.c.run(self.I, qual, t, [UC] + list(args), kw, setter=setter)

    def view(self, s):
        """what a user of the use case sees"""
        I = self.I
        t = s.copy()
        t.ctrl = None
        out = {"days": final(I, t, UC, "days"), "peak_time_range": final(I, t, UC, "peak_time_range")}
        out["is_initialized"] = self.c.get(I, t, "UseCase.is_initialized", UC)
        if out["is_initialized"] is TRUE:
            out["num_days"] = self.c.get(I, t, "UseCase.num_days", UC)
            out["datetimeindex"] = self.c.get(I, t, "UseCase.datetimeindex", UC)
        out["peak_enlarge"] = self.c.get(I, t, "UseCase.peak_enlarge", UC)
        return out


def judge_days(c, S, s, where, start, end, n, tag):
    v = S.view(s)
    I = S.I
    days, nd, ix = v["days"], v.get("num_days"), v.get("datetimeindex")
    if v["is_initialized"] is not TRUE:
        c.judge(None if v["is_initialized"] is None else False, "initialised", where, f"({tag}) the use case is not initialised")
        return
    if start == "today":
        g = day_list(days)
        ok = None
        if g is not None:
            ok = today_ok(g[0]) if g[0] is not None else None
            if ok is False or ok:
                ok = ok and g[1] is None and g[2] is not None and eqv(Facts(s.facts), g[2], n)
    else:
        ok = days_are(days, start, end, n)
    c.judge(ok, "simulated-days", where, f"({tag}) days are {show(days)[:300]}")
    ok = nd is not None and (nd is mk("len", days) or Facts(s.facts).entails(eq(nd, mk("len", days))))
    if not ok and nd is not None:
        g = day_list(days)
        ok = g is not None and g[2] is not None and eqv(Facts(s.facts), nd, g[2])
    c.judge(ok or (None if nd is None or days.op != "call" else False), "number-of-days-is-their-count", where, f"({tag}) num_days is {show(nd)[:150] if nd else None} for {show(days)[:200]}")
    c.judge(minute_index_ok(ix, days, nd) if ix is not None and nd is not None else None, "one-index-entry-per-minute", where, f"({tag}) index is {show(ix)[:300] if ix else None}")


def o_days(c):
    con = "UseCase.initialize"
    for start, end, n in ((D0, D1, None), (D0, None, NDAYS), (None, D1, NDAYS), (None, None, NDAYS)):
        with c.ob("simulated-days", con):
            S = Scen(c)
            base = S.build(start, end)
            tag = f"{'start date, ' if start else ''}{'end date, ' if end else ''}{'number of days' if n is not None else ''}"
            where = c.where(S.I, con)
            outs = []
            for b in base:
                if start is not None and end is not None:
                    b.ctrl = ("return", NONE)
                    outs.append(b)
                else:
                    c.check(S.view(b)["is_initialized"] is not TRUE, "not-initialised-without-days", where, f"({tag}) initialised before the number of days is known")
                    outs += S.call(b, {"num_days": n})
            normal(c, S, outs, where, tag, lambda s: judge_days(c, S, s, where, start if start is not None or end is not None else "today", end, n, tag))
    # both dates and a different number of days
    with c.ob("simulated-days", con):
        S = Scen(c)
        where = c.where(S.I, con)
        for b in S.build(D0, None, [("UseCase.date_end", [UC, D1], {}, True)]):
            def look(s):
                L = [x for f in s.facts for x in subterms(f) if x.op == "len" and dr(x.a[0])]
                F = Facts(s.facts)
                same = any(F.entails(eq(x, NDAYS)) for x in L)
                judge_days(c, S, s, where, D0, D1 if same else None, None if same else NDAYS, "both dates and a number of days")
            normal(c, S, S.call(b, {"num_days": NDAYS}), where, "both dates and a number of days", look)
    # prompted number of days
    with c.ob("simulated-days", con):
        S = Scen(c)
        where = c.where(S.I, con)
        for b in S.build(D0, None):
            def look(s):
                nd = S.view(s).get("num_days")
                ev = [e for e in flat_events(s.events) if e.kind == "input"]
                c.check(len(ev) == 1, "days-asked-for", where, f"the number of days is asked {len(ev)} times")
                if nd is not None:
                    judge_days(c, S, s, where, D0, None, nd, "number of days asked for")
            normal(c, S, S.call(b, {}), where, "number of days asked for", look)


def o_after_peak(c):
    """a peak time range calculated before the initialisation does not stand for one"""
    con = "UseCase.initialize"
    for start, end in ((D0, None), (None, None)):
        with c.ob("simulated-days", con):
            S = Scen(c)
            tag = "number of days, peak_enlarge assigned before"
            where = c.where(S.I, con)
            outs = []
            for b in S.build(start, end, [("UseCase.peak_enlarge", [UC, PE1], {}, True)]):
                c.check(S.view(b)["is_initialized"] is not TRUE, "not-initialised-without-days", where, f"({tag}) initialised before the number of days is known")
                outs += S.call(b, {"num_days": NDAYS})
            normal(c, S, outs, where, tag, lambda s: judge_days(c, S, s, where, start or "today", end, NDAYS, tag))


TEXT = sym("text", "str")


def date_of_text(t):
    if t.op == "call":
        a = call_args(t)
        if t.a[0] in ("datetime.datetime.fromisoformat", "pandas.Timestamp", "pandas.to_datetime", "datetime.fromisoformat") and [x for x in a if x is not NONE] == [TEXT]:
            return True
        if t.a[0].endswith("strptime") and TEXT in a:
            f = [x for x in a if is_str(x)]
            return False if f and not f[0].a[1].startswith("%Y-%m-%d") else None
        if t.a[0] == ".replace" and any(date_of_text(x) for x in a):
            return False
    if TEXT not in subterms(t):
        return False
    if t.op in ("poly", "add") and any(date_of_text(x) for x in subterms(t) if x.op == "call"):
        return False
    return None


def o_dates_assigned(c):
    """an assigned date, as a date or as text, replaces that date and only that one"""
    for con, other in (("UseCase.date_start", "UseCase.date_end"), ("UseCase.date_end", "UseCase.date_start")):
        for old, rest in ((None, None), (D0, None), (None, D1), (D0, D1)):
            for new in (E0, TEXT):
                with c.ob("assigned-date", con):
                    S = Scen(c)
                    I = S.I
                    where = c.where(I, con)
                    kw = (old, rest) if con.endswith("start") else (rest, old)
                    for b in S.build(*kw):
                        t = b.copy()
                        t.ctrl, t.events = None, []
                        before = c.get(I, t, other, UC)
                        for s in c.run(I, con, t, [UC, new], {}, setter=True):
                            if raised(I, s):
                                c.judge(None if st_weak(s) else False, "assigned-date", where, f"raises {raised(I, s)}")
                                continue
                            s.ctrl = None
                            got = c.get(I, s, con, UC)
                            ok = None if got is None else got is new or (None if weak(got) else False) if new is E0 else date_of_text(got)
                            c.judge(ok, "assigned-date", where, f"{con[8:]} is {show(got)[:150] if got is not None else None} after {show(new)} has been assigned")
                            after = c.get(I, s, other, UC)
                            c.judge(None if after is None else after is before, "assigned-date-only", where, f"{other[8:]} becomes {show(after)[:100] if after is not None else None}")


    for con, kw in (("UseCase.date_start", (TEXT, None)), ("UseCase.date_end", (None, TEXT))):
        with c.ob("assigned-date", con):
            S = Scen(c)
            where = c.where(S.I, "UseCase.__init__")
            for b in S.build(*kw):
                b.ctrl = None
                got = c.get(S.I, b, con, UC)
                c.judge(None if got is None else date_of_text(got), "assigned-date", where, f"{con[8:]} given as text is {show(got)[:150] if got is not None else None}")


def normal(c, S, outs, where, tag, fn):
    n = 0
    for s in outs:
        r = raised(S.I, s)
        if r:
            c.judge(None if st_weak(s) else False, "initialises", where, f"({tag}) raises {r}")
            continue
        n += 1
        fn(s)
    if not n:
        c.undec("initialises", where, f"({tag}) no normal outcome")


@rule("C21", 8, "Simulated days", "abstract interpretation of the initialisation; calendar terms compared in a normal form of pandas.date_range",
      "Dates are at midnight, end date not before the start date; n >= 1; pandas.date_range semantics trusted.")
def c21(c):
    o_days(c)
    o_after_peak(c)
    o_dates_assigned(c)


# ------------------------------------------------------------------ C22
VIEW = ("days", "num_days", "datetimeindex", "peak_time_range")


def o_frozen(c):
    """without force an initialised use case keeps its days"""
    con = "UseCase.initialize"
    for start, end, n in ((D0, D1, None), (D0, None, NDAYS), (None, D1, NDAYS), (None, None, NDAYS)):
        for kw in ({}, {"num_days": NEWN}, {"peak_enlarge": PE1}, {"num_days": NEWN, "peak_enlarge": PE1}, {"force": FALSE}):
            with c.ob("unchanged-unless-forced", con):
                S = Scen(c)
                where = c.where(S.I, con)
                steps = [] if start is not None and end is not None else [("UseCase.initialize", [UC], {"num_days": n})]
                for b in S.build(start, end, steps):
                    before = S.view(b)
                    c.check(before["is_initialized"] is TRUE, "initialised", where, "a use case with both dates, or initialised, is not initialised")
                    for s in S.call(b, kw):
                        r = raised(S.I, s)
                        if r:
                            c.judge(None if st_weak(s) else False, "unchanged-unless-forced", where, f"raises {r}")
                            continue
                        after = S.view(s)
                        for k in VIEW:
                            c.judge(after.get(k) is before.get(k) and after.get(k) is not None or (None if after.get(k) is None else False), "unchanged-unless-forced", where,
                                    f"{k} changes when initialize({', '.join(kw)}) is called on an initialised use case")


def o_forced(c):
    con = "UseCase.initialize"
    for start, end, n in ((D0, D1, None), (D0, None, NDAYS), (None, D1, NDAYS), (None, None, NDAYS)):
        for change in ("nothing", "dates", "number", "both dates given"):
            with c.ob("forced-recalculation", con):
                S = Scen(c)
                where = c.where(S.I, con)
                steps = [] if start is not None and end is not None else [("UseCase.initialize", [UC], {"num_days": n})]
                s1, e1, n1 = start, end, n
                if change == "dates":
                    if start is not None:
                        steps.append(("UseCase.date_start", [UC, E0], {}, True))
                        s1 = E0
                    if end is not None:
                        steps.append(("UseCase.date_end", [UC, E1], {}, True))
                        e1 = E1
                    if start is None and end is None:
                        continue
                elif change == "both dates given":
                    if start is not None and end is not None:
                        continue
                    steps += [("UseCase.date_start", [UC, E0], {}, True), ("UseCase.date_end", [UC, E1], {}, True)]
                    s1, e1, n1 = E0, E1, None
                kw = {"force": TRUE}
                if change == "number":
                    kw["num_days"] = NEWN
                    n1 = NEWN
                    if start is not None and end is not None:
                        continue
                tag = f"forced, {change} changed"
                for b in S.build(start, end, steps):
                    before = S.view(b)

                    def look(s):
                        st0 = "today" if s1 is None and e1 is None else s1
                        judge_days(c, S, s, where, st0, e1, n1, tag)
                        v = S.view(s)
                        p = v["peak_time_range"]
                        c.judge(p is not before["peak_time_range"] and is_peak(p) or (None if weak(p) else False), "forced-recalculation", where,
                                f"({tag}) the peak time range is not recalculated")
                    normal(c, S, S.call(b, kw), where, tag, look)


def is_peak(p):
    return p in PEAKS


def o_properties(c):
    for q in ("UseCase.num_days", "UseCase.datetimeindex"):
        for start, n in ((D0, True), (None, True)):
            with c.ob("properties-initialise", q):
                S = Scen(c)
                where = c.where(S.I, q)
                for b in S.build(start, None):
                    t = b.copy()
                    t.events = []
                    for s in c.run(S.I, q, t, [UC]):
                        if raised(S.I, s):
                            c.judge(None if st_weak(s) else False, "properties-initialise", where, f"raises {raised(S.I, s)}")
                            continue
                        v = S.view(s)
                        got = S.I.snap(s, ret(s))
                        want = v.get("num_days" if q.endswith("num_days") else "datetimeindex")
                        c.judge(v["is_initialized"] is TRUE or (None if v["is_initialized"] is None else False), "properties-initialise", where, "the use case is not initialised by reading it")
                        c.judge(got is want and got is not NONE or (None if want is None else False), "properties-initialise", where, f"gives {show(got)[:150]}")
        with c.ob("properties-initialise", q):
            S = Scen(c)
            where = c.where(S.I, q)
            for b in S.build(D0, D1):
                before = S.view(b)
                t = b.copy()
                t.events = []
                for s in c.run(S.I, q, t, [UC]):
                    if raised(S.I, s):
                        c.judge(None if st_weak(s) else False, "properties-initialise", where, f"raises {raised(S.I, s)}")
                        continue
                    after = S.view(s)
                    for k in VIEW:
                        c.check(after.get(k) is before.get(k), "reading-changes-nothing", where, f"reading it changes {k} of an initialised use case")
    # the list of days given by hand, as generate_daily_load_profiles(days=...) does
    q = "UseCase.num_days"
    with c.ob("properties-initialise", q):
        S = Scen(c)
        where = c.where(S.I, q)
        for b in S.build(None, None):
            t = b.copy()
            t.ctrl, t.events = None, []
            t.fields[(UC, "days")] = sym("days", "ext:pandas.DatetimeIndex")
            for s in c.run(S.I, q, t, [UC]):
                if raised(S.I, s):
                    c.judge(None if st_weak(s) else False, "properties-initialise", where, f"raises {raised(S.I, s)}")
                    continue
                c.judge(S.I.snap(s, ret(s)) is not NONE, "properties-initialise", where, "there is no number of days although the list of days is given")
    # with both dates, whether there are users already or not
    con = "UseCase.__init__"
    for users in (True, None, False):
        with c.ob("initialised", con):
            S = Scen(c)
            where = c.where(S.I, con)
            for b in S.build(D0, D1, users=users):
                v = S.view(b)
                ini = v["is_initialized"]
                what = "with users" if users else "without users" if users is None else "with an empty list of users"
                c.judge(ini is TRUE or (False if ini is FALSE else None), "initialised", where, f"created with both dates, {what}: not initialised")
    # dates may be given as text
    with c.ob("dates-as-text", con):
        S = Scen(c)
        where = c.where(S.I, con)
        for b in S.build(const("2021-03-01"), const("2021-03-05")):
            v = S.view(b)
            c.judge(v["is_initialized"] is TRUE or None, "initialised", where, "created with both dates and not initialised")
            g = day_list(v["days"])
            ok = None
            if g and g[0] is not None and g[1] is not None:
                ok = all(any(y is const(w) for y in subterms(x)) for x, w in zip(g, ("2021-03-01", "2021-03-05")))
            c.judge(ok, "simulated-days", where, f"days are {show(v['days'])[:200]}")


@rule("C22", 20, "An initialised use case changes its days only when forced", "abstract interpretation of histories of calls; observable state before and after compared",
      "Histories of the constructor, date setters and one or two initialisations.")
def c22(c):
    o_frozen(c)
    o_forced(c)
    o_properties(c)
    o_after_peak(c)
    o_dates_assigned(c)


# ------------------------------------------------------------------ C19
def fresh_peak(c, S, s, before, want_pe, where, tag, users=None):
    v = S.view(s)
    p = v["peak_time_range"]
    if not is_peak(p) or p is before:
        c.judge(None if weak(p) and p is not before else False, "peak-range-recalculated", where, f"({tag}) the stored peak time range is {show(p)[:120]}")
        return
    c.ok("peak-range-recalculated", where)
    pe_, us, ap = PEAKS[p]
    c.judge(pe_ is want_pe or (None if weak(pe_) else False), "peak-range-with-the-current-peak-enlarge", where, f"({tag}) calculated with {show(pe_)[:80]}, peak_enlarge is {show(want_pe)}")
    c.judge(v["peak_enlarge"] is want_pe or (None if v["peak_enlarge"] is None else False), "peak-enlarge-stored", where, f"({tag}) stored peak_enlarge is {v['peak_enlarge']}")
    now = final(S.I, s, UC, "users")
    c.judge(us is now or (None if weak(us) else False), "peak-range-of-all-users", where, f"({tag}) calculated for the users {show(us)[:100]} of {show(now)[:100]}")
    if us is now and us.op == "vec":
        al = mk("tuple", *[final(S.I, s, u, "App_list") for u in us.a])
        c.judge(al is ap or (None if weak(al, ap) else False), "peak-range-of-all-appliances", where, f"({tag}) calculated for the appliances {show(ap)[:100]} of {show(al)[:100]}")


def o_peak_fresh(c):
    con = "UseCase.initialize"
    for start, end, n in ((D0, D1, None), (D0, None, NDAYS), (None, D1, NDAYS), (None, None, NDAYS)):
        for again in (False, True):
            for pe in (None, PE1):
                with c.ob("peak-range-recalculated", con):
                    S = Scen(c)
                    where = c.where(S.I, con)
                    both = start is not None and end is not None
                    if both and not again:
                        for b in S.build(start, end):
                            fresh_peak(c, S, b, None, PE0, where, "created with both dates")
                        continue
                    steps = [("UseCase.initialize", [UC], {"num_days": n})] if again and not both else []
                    for b in S.build(start, end, steps):
                        before = S.view(b)["peak_time_range"]
                        kw = {"force": TRUE} if again else {"num_days": n}
                        if pe is not None:
                            kw["peak_enlarge"] = pe
                        normal(c, S, S.call(b, kw), where, "initialize", lambda s: fresh_peak(c, S, s, before, pe or PE0, where, f"initialize({', '.join(kw)})"))
    con = "UseCase.peak_enlarge"
    for nm, val, exc in (("valid", PE1, None), ("zero", const(0.0), None), ("negative", "neg", "ValueError"), ("integer", sym("k", "int"), "TypeError"), ("text", sym("txt", "str"), "TypeError"),
                         ("none", NONE, "TypeError")):
        for init in (True, False):
            with c.ob("peak-enlarge-setter", con):
                S = Scen(c)
                where = c.where(S.I, con)
                v = val
                if val == "neg":
                    v = sym("negative", "float")
                    S.st.assume(lt(v, ZERO))
                for b in S.build(D0, D1 if init else None):
                    before = S.view(b)
                    for s in S.call(b, {}, con, setter=True, args=[v]):
                        r = raised(S.I, s)
                        after = S.view(s)
                        if exc:
                            c.judge(r == exc or (None if st_weak(s) else False), "invalid-peak-enlarge-refused", where, f"{nm} value: {r or 'accepted'}")
                            for k in ("peak_enlarge", "peak_time_range"):
                                c.judge(after[k] is before[k] or (None if after[k] is None else False), "refused-value-changes-nothing", where, f"{k} changes although the {nm} value is refused")
                        elif r:
                            c.judge(None if st_weak(s) else False, "valid-peak-enlarge-accepted", where, f"{nm} value raises {r}")
                        else:
                            fresh_peak(c, S, s, before["peak_time_range"], v, where, f"{nm} value assigned")


def o_load_peak(c):
    from . import r_io
    r_io.o_load_into_initialised(c, peak=True)


@rule("C19", 15, "The peak time range is kept up to date", "abstract interpretation of histories of calls; the calculated range as an uninterpreted value of the enlargement and users of that moment",
      "calc_peak_time_range itself is decided by C18.")
def c19(c):
    o_peak_fresh(c)
    o_load_peak(c)


# ------------------------------------------------------------------ C23
POW = sym("given_power", "float")
SER = sym("given_series", "ext:pandas.DataFrame")


def o_power(c):
    """every appliance has enough power values when the use case is initialised"""
    con = "UseCase.initialize"
    for hist in ("first", "forced", "dates", "added", "added then forced"):
        with c.ob("power-covers-the-days", con):
            S = Scen(c, stub_check=False)
            I, st = S.I, S.st
            where = c.where(I, con)
            # the first user owns two appliances or more, the others one each
            n1, n2 = 2 + c.extra, 1 + c.extra
            kinds = (["constant"] * 2 + ["series"] * c.extra) + (["series"] + ["constant"] * c.extra)
            apps = [sym(f"a{i + 1}", "obj:Appliance") for i in range(n1 + n2)]
            users = [sym(f"u{i + 1}", "obj:User") for i in range(1 + n2)]
            owned = [apps[:n1]] + [[a] for a in apps[n1:]]
            for u in users:
                st.fields[(u, "usecase")] = NONE
            s0 = c.steps(I, st, [("Appliance.__init__", [a, u], {"power": POW if k == "constant" else SER})
                                 for u, x in zip(users, owned) for a, k in [(a, kinds[apps.index(a)]) for a in x]])
            n_ok = 0
            for s in s0:
                for u, x in zip(users, owned):
                    s.fields[(u, "App_list")] = I.new_list(s, x)
                kw = {"users": I.new_list(s, users), "peak_enlarge": PE0}
                call = {"num_days": NDAYS}
                if hist == "dates":
                    kw.update(date_start=D0, date_end=D1)
                seq = [("UseCase.__init__", [UC], kw)]
                if hist.endswith("forced"):
                    seq.append(("UseCase.initialize", [UC], {"num_days": NDAYS}))
                    call = {"num_days": NEWN, "force": TRUE}
                if hist == "dates":
                    before = {a: (final(I, s, a, "power")) for a in apps}
                    outs = [(o, before) for o in c.run(I, "UseCase.__init__", s, [UC], kw)]
                elif hist.startswith("added"):
                    # users and appliances which the use case gets after it was created (or initialised)
                    outs = []
                    I.concrete_rec = True
                    s.fields[(users[0], "App_list")] = I.new_list(s, owned[0][:1])
                    kw["users"] = I.new_list(s, users[:1])
                    for b in c.steps(I, s, seq):
                        b.fields[(users[0], "App_list")] = I.new_list(b, owned[0])
                        for t in c.steps(I, b, [("UseCase.add_user", [UC, u], {}) for u in users[1:]]):
                            before = {a: final(I, t, a, "power") for a in apps}
                            outs += [(o, before) for o in S.call(t, call)]
                else:
                    outs = []
                    for b in c.steps(I, s, seq):
                        before = {a: final(I, b, a, "power") for a in apps}
                        outs += [(o, before) for o in S.call(b, call)]
                for o, before in outs:
                    n_ok += judge_power(c, I, S, o, apps, kinds, before, where, hist)
            if not n_ok:
                c.undec("power-covers-the-days", where, "no normal outcome")


def o_added_later(c):
    """a constant power given when the use case is initialised already, or without a use case"""
    con = "Appliance.__init__"
    for hist in ("initialised", "without use case"):
        with c.ob("added-power-covers-the-days", con):
            S = Scen(c, stub_check=False)
            I, st = S.I, S.st
            where = c.where(I, con)
            user, a, b = sym("u1", "obj:User"), sym("a1", "obj:Appliance"), sym("a2", "obj:Appliance")
            st.fields[(user, "usecase")] = NONE
            n_ok = 0
            for s in c.steps(I, st, [("Appliance.__init__", [a, user], {"power": POW})]):
                s.fields[(user, "App_list")] = I.new_list(s, [a])
                outs = [s]
                if hist == "initialised":
                    outs = []
                    for t in c.steps(I, s, [("UseCase.__init__", [UC], {"users": I.new_list(s, [user]), "peak_enlarge": PE0})]):
                        outs += [o for o in S.call(t, {"num_days": NDAYS}) if not raised(I, o)]
                for o in outs:
                    o.ctrl = None
                    for e in c.steps(I, o, [("Appliance.__init__", [b, user], {"power": POW})]):
                        F = Facts(e.facts)
                        n_ok += 1
                        p = final(I, e, b, "power")
                        n = NDAYS if hist == "initialised" else const(366)
                        c.judge(F.entails(le(n, plen(p))) or (None if weak(p) and p.op != "full" else False), "added-power-covers-the-days", where,
                                f"({hist}) a constant power has {show(plen(p))[:120]} values for {show(n)} days")
                        c.judge(p.op == "full" and eqv(F, p.a[1], POW) or (None if weak(p) and p.op != "full" else False), "added-power-constant", where,
                                f"({hist}) the constant power is {show(p)[:120]}")
            if not n_ok:
                c.undec("added-power-covers-the-days", where, "no normal outcome")


def plen(p):
    if p.op in ("full", "zeros"):
        return p.a[0]
    if p.op == "concat":
        r = ZERO
        for x in p.a:
            r = add(r, plen(x))
        return r
    if p.op in ("resize", "prefix"):
        return p.a[1]
    return mk("len", p)


def varies(p):
    """a line between different values"""
    if p.op == "call" and p.a[0] == "numpy.linspace":
        a = call_args(p)
        return len(a) > 1 and a[0] is not a[1]
    return False


def judge_power(c, I, S, o, apps, kinds, before, where, hist):
    r = raised(I, o)
    F = Facts(o.facts)
    ser = before[apps[kinds.index("series")]]
    if r:
        c.judge(r == "ValueError" or (None if st_weak(o) else False), "short-series-refused", where, f"({hist}) raises {r}")
        if r == "ValueError":
            n = NEWN if hist.endswith("forced") else NDAYS
            if hist == "dates":
                return 0
            c.judge(not sat(list(o.facts) + [le(n, plen(ser))]) or (None if st_weak(o) else False), "long-enough-series-accepted", where,
                    f"({hist}) refused although the series has enough values ({fact_text(o)[-200:]})")
        return 0
    v = S.view(o)
    nd = v.get("num_days")
    if nd is None:
        c.undec("power-covers-the-days", where, "number of days not known")
        return 0
    for a, nm in zip(apps, kinds):
        p = final(I, o, a, "power")
        ok = F.entails(le(nd, plen(p)))
        c.judge(ok or (None if weak(p) and p.op != "full" else False), "power-covers-the-days", where, f"({hist}, {nm} power) {show(plen(p))[:120]} values for {show(nd)[:100]} days")
        if nm == "series":
            c.judge(p is before[a] or (None if weak(p) else False), "series-unchanged", where, f"({hist}) the power series becomes {show(p)[:120]}")
        else:
            ok = p.op == "full" and eqv(F, p.a[1], POW)
            c.judge(ok or (None if weak(p) and p.op != "full" and not varies(p) else False), "constant-extended-with-its-value", where, f"({hist}) the constant power becomes {show(p)[:150]}")
            if p is not before[a] and p.op == "full" and not eqv(F, plen(p), plen(before[a])):
                c.check(any(e.kind == "warn" for e in flat_events(o.events)), "extension-warned", where, f"({hist}) a power is extended without a warning")
    return 1


def o_check_power(c):
    """contract of the check of one appliance"""
    con = "Appliance.check_power_values"
    for nm, pw in (("constant", POW), ("series", SER)):
        with c.ob("power-covers-the-days", con):
            I = c.interp()
            st = St()
            st.assume(le(ONE, NDAYS))
            st.fields[(SELF_U, "usecase")] = NONE
            for s in c.steps(I, st, [("Appliance.__init__", [APP, SELF_U], {"power": pw})]):
                before = final(I, s, APP, "power")
                s.fields[(SELF_U, "usecase")] = UC
                where = c.where(I, con)
                for o in c.run(I, con, s, [APP, NDAYS]):
                    r = raised(I, o)
                    F = Facts(o.facts)
                    if r:
                        c.judge(nm == "series" and r == "ValueError" or (None if st_weak(o) else False), "short-series-refused", where, f"{nm} power raises {r}")
                        c.judge(not sat(list(o.facts) + [le(NDAYS, plen(before))]) or (None if st_weak(o) else False), "long-enough-series-accepted", where, "refused although it has enough values")
                        continue
                    p = final(I, o, APP, "power")
                    c.judge(F.entails(le(NDAYS, plen(p))) or (None if weak(p) and p.op != "full" else False), "power-covers-the-days", where, f"({nm}) {show(plen(p))[:120]} values for n days")
                    if not sat(list(o.facts) + [lt(plen(before), NDAYS)]):
                        c.judge(p is before or (None if weak(p) else False), "long-enough-series-unchanged", where, f"({nm}) power becomes {show(p)[:120]}")
                    if nm == "constant":
                        c.judge(p.op == "full" and eqv(F, p.a[1], POW) or (None if weak(p) and p.op != "full" else False), "constant-extended-with-its-value", where, show(p)[:150])
                        if p is not before:
                            c.check(any(e.kind == "warn" for e in flat_events(o.events)), "extension-warned", where, "a power is extended without a warning")


@rule("C23", 12, "Power series cover the simulated days", "abstract interpretation of histories; lengths compared by polyhedra facts",
      "Power given as a number or a DataFrame; n >= 1.")
def c23(c):
    c.sized(o_power)
    o_added_later(c)
    o_check_power(c)
    from . import r_io
    r_io.o_load_into_initialised(c, power=True)
