"""C13-C20: use case level simulation"""
import ast
from .r_day2 import *
from . import day
from . import calen

UC = sym("self", "obj:UseCase")
ND = sym("num_days", "int")
TASK = SINGLE_TASK


def s_daytype(I, st, env, node):
    a = [I.snap(st, v) for v in env.values()]
    return [(st, mk("call", "day_type", *a))]


def s_profile(I, st, env, node):
    """Appliance.generate_load_profile: a fresh profile at each call"""
    app = I.snap(st, env["self"])
    args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
    user = I.snap(st, st.fields.get((env["self"], "user"), mk("attr", app, "user")))
    pref = I.snap(st, st.fields.get((user, "rand_daily_pref"), mk("attr", user, "rand_daily_pref")))
    k = I.fresh()
    v = mk("call", "profile", app, args.get("prof_i", NONE), args.get("peak_time_range", NONE), args.get("day_type", NONE),
           args.get("power", NONE), pref, const(k))
    I.event(st, "mcall", "generate_load_profile", recv=app, args=dict(args, pref=pref), res=v, node=node)
    from pyabs import models as m
    st.fields[(env["self"], "daily_use")] = m.new_nd(I, st, v)
    return [(st, NONE)]


def initialised(c, I, st, num_days, days, parallel):
    """make the use case of st an initialised one: built by the constructor and initialize of the code itself"""
    saved = dict(I.stubs)
    I.stubs["UseCase.calc_peak_time_range"] = lambda I2, s, env, node: [(s, models.new_nd(I2, s, PEAK))]
    st.assume(le(ONE, num_days))
    ss = c.steps(I, st, [("UseCase.__init__", [UC], {"parallel_processing": const(parallel)}), ("UseCase.initialize", [UC], {"num_days": num_days})])
    I.stubs.clear()
    I.stubs.update(saved)
    if len(ss) != 1:
        raise Unsupported(f"{len(ss)} outcomes of the initialisation of an empty use case")
    s = ss[0]
    s.ireads = frozenset()
    s.fields[(UC, "days")] = days
    become(st, s)


def world(c, I, st, days, shape, parallel):
    """a use case with concrete lists of days, users and appliances; everything else symbolic"""
    initialised(c, I, st, const(days), NONE, parallel)
    D = [sym(f"day{i}", "ext:pandas.Timestamp") for i in range(days)]
    st.fields[(UC, "days")] = I.new_list(st, D)
    us, apps = [], []
    for i, (nu, na) in enumerate(shape):
        u = sym(f"user{i}", "obj:User")
        us.append(u)
        st.fields[(u, "num_users")] = const(nu)
        ap = [sym(f"app{i}{j}", "obj:Appliance") for j in range(na)]
        for a in ap:
            st.fields[(a, "user")] = u
        apps.append(ap)
        st.fields[(u, "usecase")] = UC
        st.fields[(u, "App_list")] = I.new_list(st, ap)
        if i % 2:
            st.fields[(u, "user_preference")] = ZERO
        else:
            p = sym(f"user_preference{i}", "int")
            st.fields[(u, "user_preference")] = p
            st.assume(le(ONE, p))
    st.fields[(UC, "users")] = I.new_list(st, us)
    return D, us, apps


SHAPES = [(2, ((2, 2), (1, 1))), (1, ((1, 1), (2, 1))), (2, ((1, 0), (3, 1))), (1, ((0, 1),)), (2, ()), (3, ((1, 1), (1, 0), (1, 2)))]


def shapes(c):
    if c.extra:
        return [(1, ((1, 1),) * (2 + c.extra)), (1, ((1, 1 + c.extra), (1, 1))), (1, ((2 + c.extra, 1),))]
    return SHAPES


def world_run(c, days, shape, parallel, flat, con="UseCase.generate_daily_load_profiles"):
    I = c.interp({"ramp.core.utils.get_day_type": s_daytype, "Appliance.generate_load_profile": s_profile})
    st = St()
    w = world(c, I, st, days, shape, parallel)
    outs = c.run(I, con, st, [UC], {} if flat is None else {"flat": const(flat)})
    return I, outs, w


def rows_of(v, days):
    """{row index: value} of a matrix built by storing rows"""
    base, ws = peel_stores(v)
    if base.op == "zeros2":
        rows = {d: ZERO for d in range(days)}
        if base.a[0] is not const(days) or base.a[1] is not const(1440):
            return None
    elif base.op == "rows" or base.op == "vec":
        if len(base.a) != days:
            return None
        rows = dict(enumerate(base.a))
    else:
        return None
    for i, x in ws:
        if i.op == "tuple" and len(i.a) == 2 and i.a[1].op == "slice":
            i = i.a[0]
        if not is_num(i):
            return None
        rows[int(i.a[1])] = x
    return rows


def terms_sum(x):
    """{profile term: coefficient} of a sum of profiles, or None"""
    if x is ZERO or x.op == "zeros" or (x.op == "full" and x.a[1] is ZERO):
        return {}
    out = {}
    for mono, co in to_poly(x).items() if isinstance(to_poly(x), dict) else to_poly(x):
        if len(mono) != 1 or mono[0][1] != 1:
            if not mono and co == 0:
                continue
            return None
        t = mono[0][0]
        if t.op in ("zeros",):
            continue
        out[t] = co
    return out


def altered(x):
    """the profiles go through a function which is known to change values or to drop some, and nothing else is unknown"""
    un = [y for y in subterms(x) if y.op in WEAK or y.op == "call" and y.a[0] not in ("profile", "day_type", ".sum", "numpy.sum") and not changing_call(y)]
    return not un and any(y.op == "call" and changing_call(y) for y in subterms(x))


def o_rows(c, parallel):
    """each row of the profiles is the sum of one new profile per appliance of each single user"""
    con = "UseCase.generate_daily_load_profiles" + ("_parallel" if parallel else "")
    tag = "parallel" if parallel else "serial"
    for days, shape in shapes(c):
        with c.ob(f"row-is-the-sum-of-all ({tag})", con):
            I, outs, (D, us, apps) = world_run(c, days, shape, parallel, False)
            where = c.where(I, con) if True else con
            for s in outs:
                rule = f"row-is-the-sum-of-all ({tag})"
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, rule, where, f"raises {raised(I, s)} with users (num_users, appliances) = {shape}")
                    continue
                v = I.snap(s, ret(s))
                rows = rows_of(v, days)
                if rows is None:
                    c.judge(None if weak(v) or v.op in ("call", "reshape", "stores") else False, rule, where, f"profiles are {show(v)[:300]}")
                    continue
                for d in range(days):
                    ts = terms_sum(rows[d])
                    if ts is None or any(t.op != "call" or t.a[0] != "profile" for t in ts):
                        wk = weak(rows[d], *[t for t in subterms(rows[d]) if t.op == "call" and t.a[0] == "profile"]) if ts is None else any(
                            t.op in WEAK or t.op == "call" and t.a[0] not in ("profile", "day_type") for t in ts)
                        wk = wk and not altered(rows[d])
                        c.judge(None if wk else False, rule, where, f"row {d} is {show(rows[d])[:300]}")
                        continue
                    check_row(c, rule, where, d, D, us, apps, shape, ts, tag)
                if not parallel:
                    for i, (nu, na) in enumerate(shape):
                        for app in apps[i][:na if nu and days else 0]:
                            v = final(I, s, app, "daily_use")
                            own = v.op == "call" and v.a[0] == "profile" and v.a[1] is app
                            c.judge(own or (None if weak(v, *[t for t in subterms(v) if t.op == "call" and t.a[0] == "profile"]) else False),
                                    "appliance-keeps-its-own-profile", where, f"daily_use of {show(app)} is {show(v)[:200]}")


def check_row(c, rule, where, d, D, us, apps, shape, ts, tag):
    count = {}
    for t, co in ts.items():
        _, app, di, pk, dt, pw, pref, uid = t.a
        c.check(co == 1, f"counted-once ({tag})", where, f"the profile of {show(app)} counts {co} times on day {d}")
        c.check(di is const(d), f"day-index ({tag})", where, f"day {d} is simulated with day index {show(di)[:100]}")
        c.judge(pk is PEAK or (None if weak(pk) else False), f"peak-range ({tag})", where, f"day {d} simulated with peak range {show(pk)[:100]}")
        if dt is not mk("call", "day_type", D[d]):
            c.judge(None if weak(dt, mk("call", "day_type", D[d])) else False, f"day-type ({tag})", where, f"day {d} simulated with day type {show(dt)[:100]}")
        else:
            c.ok(f"day-type ({tag})", where)
        want = mk("at", mk("attr", app, "power"), const(d))
        c.judge(pw is want or (None if weak(pw) else False), f"power-of-the-day ({tag})", where, f"day {d} simulated with power {show(pw)[:100]}")
        count.setdefault(app, []).append(pref)
    for i, (nu, na) in enumerate(shape):
        prefs = []
        for j in range(na):
            got = count.get(apps[i][j], [])
            c.check(len(got) == nu, rule, where, f"an appliance of a user with num_users {nu} is simulated {len(got)} times on day {d}")
            prefs.append(sorted(map(str, got)))
            if i % 2:
                c.judge(all(p is ZERO for p in got) or (None if any(weak(p) for p in got) else False), f"daily-preference ({tag})", where,
                        f"preference of a user without preference is {got}")
            else:
                P = sym(f"user_preference{i}", "int")
                ok = all(p.op == "rnd" and p.a[0] == "randint" and p.a[2] == (ONE, P) for p in got)
                c.judge(ok or (None if any(weak(p) for p in got) else False), f"daily-preference ({tag})", where, f"preferences of day {d}: {[show(p)[:100] for p in got]}")
                c.check(len(set(got)) == len(got), f"one-preference-per-single-user ({tag})", where,
                        "single users of the same user share one draw of the preference")
        c.check(all(p == prefs[0] for p in prefs), f"preference-shared-by-appliances ({tag})", where,
                "the appliances of a single user are simulated with different preferences on the same day")


def o_flat_output(c, parallel):
    """the flattened output lists the rows one after the other"""
    flat_output(c, parallel, "UseCase.generate_daily_load_profiles")
    if parallel and c.interp({}).get_func("UseCase.generate_daily_load_profiles_parallel") is not None:
        flat_output(c, parallel, "UseCase.generate_daily_load_profiles_parallel")


def flat_output(c, parallel, entry):
    con = "UseCase.generate_daily_load_profiles" + ("_parallel" if parallel else "")
    tag = "parallel" if parallel else "serial"
    for flat in (True, None):
      with c.ob(f"flattened ({tag})", con):
        I, outs, w = world_run(c, 2, ((2, 2), (1, 1)), parallel, flat, entry)
        where = c.where(I, con)
        for s in outs:
            if raised(I, s):
                continue
            v = I.snap(s, ret(s))
            rule = f"flattened ({tag})"
            rows, verdict = flat_rows(v, 2)
            if rows is None:
                c.judge(verdict, rule, where, show(v)[:200])
                continue
            D, us, apps = w
            for d in range(2):
                ts = terms_sum(rows[d])
                if ts is None or any(t.op != "call" or t.a[0] != "profile" for t in ts):
                    c.judge(False if altered(rows[d]) else None, rule, where, f"part {d} is {show(rows[d])[:200]}")
                    continue
                check_row(c, rule, where, d, D, us, apps, ((2, 2), (1, 1)), ts, tag)
                c.ok(rule, where)


REORDERING = {"numpy.sort", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.roll", "reordered", "numpy.partition", "numpy.rot90"}


def flat_rows(v, days):
    """the rows which the flattened value lists, or (None, verdict)"""
    if v.op == "concat":
        return (dict(enumerate(v.a)), True) if len(v.a) == days else (None, None if weak(v) else False)
    x, seen = v, False
    while x.op in ("flatten", "ravel", "reshape", "squeeze", "copy"):
        seen = seen or x.op != "squeeze"
        x = x.a[0]
    rows = rows_of(x, days)
    if rows is not None and seen:
        sh = shape_of(v, days)
        if sh is not None and sh != (days * 1440,):
            return None, False
        return rows, True
    for y in subterms(v):
        if y.op == "call" and y.a[0] in REORDERING or y.op == "attr" and y.a[1] == "T":
            return None, False
        if y.op == "at" and len(y.a) > 1 and isinstance(y.a[1], T) and y.a[1].op == "slice" and models.two_dim(strip_flat(y.a[0])):
            lo, hi, step = y.a[1].a
            if is_num(lo) and lo is not ZERO or is_num(hi) or is_num(step) and step is not ONE:
                return None, False
    return None, None


def shape_of(v, days):
    """dimensions of a value made from the table of the days, None if unknown, () if its numbers of values differ"""
    if v.op in ("flatten", "ravel"):
        return (days * 1440,)
    if v.op == "copy":
        return shape_of(v.a[0], days)
    if v.op == "squeeze":
        sh = shape_of(v.a[0], days)
        return sh and tuple(n for n in sh if n != 1)
    if v.op == "reshape":
        sh = v.a[1].a if v.a[1].op == "tuple" else v.a[1:2]
        if not all(isinstance(n, T) and is_num(n) for n in sh):
            return None
        sh = [int(n.a[1]) for n in sh]
        k = 1
        for n in sh:
            k *= n if n != -1 else 1
        if -1 in sh:
            if k <= 0 or days * 1440 % k:
                return ()
            sh = [n if n != -1 else days * 1440 // k for n in sh]
        elif k != days * 1440:
            return ()
        return tuple(sh)
    return (days, 1440) if rows_of(v, days) is not None else None


def strip_flat(x):
    while x.op in ("flatten", "ravel", "reshape", "squeeze"):
        x = x.a[0]
    return x


def o_general(c):
    """any number of days, users and appliances (serial)"""
    with c.ob("sum-over-everything (general)", "UseCase.generate_daily_load_profiles"):
        def s_agg(I, st, env, node):
            args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
            v = mk("call", "aggregated", I.snap(st, env["self"]), *[args.get(k, NONE) for k in ("prof_i", "peak_time_range", "day_type")])
            I.event(st, "mcall", "generate_aggregated_load_profile", recv=I.snap(st, env["self"]), args=args, res=v, node=node)
            st.fields[(env["self"], "load")] = v
            return [(st, v)]
        I = c.interp({"ramp.core.utils.get_day_type": s_daytype, "User.generate_aggregated_load_profile": s_agg})
        st = St()
        days = sym("days", "ext:pandas.DatetimeIndex")
        initialised(c, I, st, ND, days, False)
        st.fields.pop((UC, "users"), None)
        st.assume(eq(mk("len", days), ND))
        st.assume(le(ONE, ND))
        outs = c.run(I, "UseCase.generate_daily_load_profiles", st, [UC], {"flat": FALSE})
        where = c.where(I, "UseCase.generate_daily_load_profiles")
        users = mk("attr", UC, "users")
        for s in outs:
            if raised(I, s):
                c.judge(None if st_weak(s) else False, "sum-over-everything (general)", where, f"raises {raised(I, s)}")
                continue
            v = I.snap(s, ret(s))
            ok = None
            if v.op == "stores" and v.a[0].op == "zeros2" and len(v.a) == 2 and v.a[1].op == "for":
                lvl, n, body = v.a[1].a
                F = Facts(s.facts)
                b = mk("b", lvl)
                if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit" and body.a[0].a[0].op == "tuple" and len(body.a[0].a[0].a) == 2:
                    ix, val = body.a[0].a[0].a
                    ok = (F.entails(eq(n, ND)) and ix is b and row_sum_ok(val, users, days, b)) or (None if weak(val, mk("call", "aggregated"), mk("call", "day_type")) else False)
            r = v.a[0] if v.op == "rows" and len(v.a) == 1 else v
            if r.op == "seq" and len(r.a) == 1:
                r = r.a[0].a[0] if r.a[0].op == "star" else r.a[0]
            if r.op == "for" and r.a[2].op == "seq" and len(r.a[2].a) == 1 and r.a[2].a[0].op == "lit":
                # the rows listed in the order of the days
                lvl, n, body = r.a
                val = body.a[0].a[0]
                ok = Facts(s.facts).entails(eq(n, ND)) and row_sum_ok(val, users, days, mk("b", lvl)) or (
                    None if weak(val, mk("call", "aggregated"), mk("call", "day_type")) else False)
            c.judge(ok, "sum-over-everything (general)", where, show(v)[:400])
    with c.ob("sum-over-everything (general)", "User.generate_aggregated_load_profile"):
        def s_single(I, st, env, node):
            args = {k: I.snap(st, v) for k, v in env.items() if k != "self"}
            v = mk("call", "single", I.snap(st, env["self"]), *([args.get(k, NONE) for k in ("prof_i", "peak_time_range", "day_type")] + list(loop_vars(st))))
            return [(st, v)]
        I = c.interp({"User.generate_single_load_profile": s_single})
        st = St()
        nu = mk("attr", SELF_U, "num_users")
        st.assume(le(ZERO, nu))
        outs = c.run(I, "User.generate_aggregated_load_profile", st, [SELF_U], {"prof_i": DAY, "peak_time_range": PEAK, "day_type": DTYPE})
        where = c.where(I, "User.generate_aggregated_load_profile")
        for s in outs:
            if raised(I, s):
                c.bad("sum-over-everything (general)", where, f"raises {raised(I, s)}")
                continue
            for nm, v in (("result", I.snap(s, ret(s))), ("load", final(I, s, SELF_U, "load"))):
                x = v
                while x.op == "poly" and any(t.op == "zeros" for t in atoms_of(x)):
                    x = subst(x, {t: ZERO for t in atoms_of(x) if t.op == "zeros"})
                ok = x.op == "sum" and eqv(Facts(s.facts), x.a[1], nu) or x.op == "sum" and eqv(Facts(s.facts), x.a[1], mx(ZERO, nu))
                if ok:
                    b = x.a[2]
                    ok = b.op == "call" and b.a[0] == "single" and b.a[1] is SELF_U and b.a[2] is DAY and b.a[3] is PEAK and b.a[4] is DTYPE and len(b.a) == 6
                c.judge(ok or (None if weak(v, mk("call", "single")) else False), "sum-over-everything (general)", where, f"{nm} is {show(v)[:300]}")
    with c.ob("sum-over-everything (general)", "User.generate_single_load_profile"):
        I = c.interp({"Appliance.generate_load_profile": s_gen_event})
        st = St()
        outs = c.run(I, "User.generate_single_load_profile", st, [SELF_U], {"prof_i": DAY, "peak_time_range": PEAK, "day_type": DTYPE})
        where = c.where(I, "User.generate_single_load_profile")
        al = mk("attr", SELF_U, "App_list")
        for s in outs:
            if raised(I, s):
                c.bad("sum-over-everything (general)", where, f"raises {raised(I, s)}")
                continue
            v = I.snap(s, ret(s))
            x = subst(v, {t: ZERO for t in atoms_of(v) if t.op == "zeros"}) if v.op == "poly" else v
            ok = False
            if x.op == "sum" and x.a[1] is mk("len", al):
                app = mk("at", al, mk("b", x.a[0]))
                ok = x.a[2] is mk("call", "profile", app, DAY, PEAK, DTYPE, mk("at", mk("attr", app, "power"), DAY))
            c.judge(ok or (None if weak(v, mk("call", "profile")) else False), "sum-over-everything (general)", where, show(v)[:300])


def loop_vars(st):
    return [x for x in st.loops]


def row_sum_ok(val, users, days, b):
    x = subst(val, {t: ZERO for t in atoms_of(val) if t.op == "zeros"}) if val.op == "poly" else val
    if x.op != "sum" or x.a[1] is not mk("len", users):
        return False
    u = mk("at", users, mk("b", x.a[0]))
    return x.a[2] is mk("call", "aggregated", u, b, PEAK, mk("call", "day_type", mk("at", days, b)))


@rule("C15", 40, "The profile of the use case is the sum of all its appliances",
      "abstract interpretation with symbolic profiles: general reductions over days/users/appliances, plus exact sums for lists of small length",
      "General: any lists (loop summaries). Exact rows: use cases of up to 3 days, 3 users, 3 single users, 2 appliances, values symbolic.")
def c15(c):
    o_general(c)
    o_sim_args(c, False)
    c.sized(lambda c: o_rows(c, False))
    o_flat_output(c, False)


@rule("C16", 40, "Parallel processing simulates the same units of work", "abstract interpretation of the task list and of the task function through a sequential model of the pool",
      "Rows for use cases of up to 3 days, 3 users, 3 single users, 2 appliances, values symbolic; argument obligations for any lists.")
def c16(c):
    c.sized(lambda c: o_rows(c, True))
    o_flat_output(c, True)
    o_parallel_general(c)


def o_parallel_general(c):
    """arguments of the tasks, for lists of any length"""
    o_sim_args(c, True)


def o_sim_args(c, par):
    """what each simulation of an appliance is given, for lists of any length, from the use case down to the appliance"""
    con = "UseCase.generate_daily_load_profiles" + ("_parallel" if par else "")
    with c.ob("task-arguments (general)", con):
        I = c.interp({"ramp.core.utils.get_day_type": s_daytype, "Appliance.generate_load_profile": s_profile})
        st = St()
        days = sym("days", "ext:pandas.DatetimeIndex")
        initialised(c, I, st, ND, days, par)
        st.fields.pop((UC, "users"), None)
        st.assume(eq(mk("len", days), ND))
        st.assume(le(ONE, ND))
        outs = c.run(I, "UseCase.generate_daily_load_profiles", st, [UC], {"flat": FALSE})
        where = c.where(I, con)
        n = 0
        for s in outs:
            for e in mcalls(s, "generate_load_profile"):
                n += 1
                di = e.args.get("prof_i")
                dt = e.args.get("day_type")
                pk = e.args.get("peak_time_range")
                pw = e.args.get("power")
                if None in (di, dt, pk, pw):
                    c.undec("task-arguments (general)", where, "arguments of a simulation not understood")
                    continue
                c.judge(pk is PEAK or (None if weak(pk) else False), "task-arguments (general): peak range", where, f"peak range {show(pk)[:200]}")
                wdt = mk("call", "day_type", mk("at", days, di))
                c.judge(dt is wdt or (None if weak(dt, wdt) else False), "task-arguments (general): day type", where, f"day {show(di)[:80]} simulated with type {show(dt)[:200]}")
                # the index of the power is the day itself (not a part or a multiple of it)
                wpw = mk("at", mk("attr", e.recv, "power"), di)
                plain = di.op in ("b", "sym", "lv", "bv")
                c.judge((plain and pw is wpw) or (None if weak(pw, wpw) or weak(di) or not plain and not par and pw is wpw and not day_changed(di) else False),
                        "task-arguments (general): power", where, f"day {show(di)[:100]} with power {show(pw)[:200]}")
                ok = e.recv.op == "at" and e.recv.a[0].op == "attr" and e.recv.a[0].a[1] == "App_list"
                ok = ok and e.recv.a[0].a[0].op == "at" and e.recv.a[0].a[0].a[0] is mk("attr", UC, "users")
                c.judge(ok or (False if clipped(e.recv) else None), "task-arguments (general): appliance", where, f"simulates {show(e.recv)[:100]}")
        if not n:
            c.undec("task-arguments (general)", where, "no simulation of an appliance found in the tasks")


def day_changed(di):
    """the index of the day is computed from the loop variable by other than a lookup"""
    return di.op in ("mod", "fdiv", "div", "poly", "max", "int", "round", "abs")


def o_parallel_args(c):
    with c.ob("power-of-the-day-parallel", TASK):
        c.sized(lambda c: o_rows(c, True))


def o_day_type(c):
    c.sized(lambda c: o_rows(c, False))
    c.sized(lambda c: o_rows(c, True))


# ------------------------------------------------------------------ C13 calendar
DAYNAMES = ("mon", "tue", "wed", "thu", "fri", "sat", "sun")


def o_weekend(c):
    con = "ramp.core.utils.get_day_type"
    for kind, ty_ in (("date", "ext:datetime.date"), ("text", "str")):
        with c.ob("weekend", con):
            I = c.interp()
            st = St()
            d = sym("day", ty_)
            outs = c.run(I, con, st, [d])
            where = c.where(I, con)
            wds = set()
            for s in outs:
                for t in list(s.facts) + [I.snap(s, ret(s))] if not raised(I, s) else s.facts:
                    for x in subterms(t):
                        if x.op == "call" and x.a[0] in (".weekday", ".isoweekday") or x.op == "attr" and x.a[1] in ("dayofweek", "day_of_week", "weekday"):
                            wds.add(x)
            if len(wds) != 1:
                c.undec("weekend", where, f"the day of the week is not read once: {[show(x)[:80] for x in wds]}")
                continue
            w = wds.pop()
            off = 1 if w.a[0] == ".isoweekday" else 0
            src = w.a[1] if w.op == "call" else w.a[0]
            if kind == "date":
                c.judge(src is d or (None if weak(src) and src.op != "call" else None), "weekend", where, f"weekday of {show(src)[:100]}")
            else:
                ok = src is not d and any(x is d for x in subterms(src))
                fmts = [y.a[1] for x in subterms(src) if x.op == "call" and isinstance(x.a[0], str) and x.a[0].split(".")[-1] == "strptime" for y in subterms(x) if is_str(y) and "%" in y.a[1]]
                bad = fmts and not any("%Y-%m-%d" in f or "%F" in f or "%Y%m%d" in f for f in fmts)
                c.judge(False if bad else ok or None, "weekend", where, f"weekday of {show(src)[:100]}")
            for k in range(7):
                n = 0
                for s in outs:
                    if not sat(list(s.facts) + [eq(w, const(k + off))]):
                        continue
                    n += 1
                    if raised(I, s):
                        c.bad("weekend", where, f"raises {raised(I, s)}")
                        continue
                    r = I.snap(s, ret(s))
                    F = Facts(list(s.facts) + [eq(w, const(k + off))])
                    want = ONE if k >= 5 else ZERO
                    good = eqv(F, r, want) or eqv(F, subst(r, {w: const(k + off)}), want)
                    if not good and tm.ty(r) == "bool":
                        good = F.entails(r) if k >= 5 else F.entails(not_(r))
                    c.judge(good or (None if weak(subst(r, {w: ZERO})) else False), "weekend", where, f"type of {DAYNAMES[k]} is {show(r)[:100]}")
                if not n:
                    c.undec("weekend", where, f"no outcome for {DAYNAMES[k]}")
        with c.ob("weekend", con):
            o_asked_twice(c, con, ty_)


SAME_DAY = ("builtins.str", "builtins.repr", ".isoformat", ".date", ".toordinal", ".strip")


def o_asked_twice(c, con, ty_):
    """the answer for a date does not depend on the dates asked before (values kept by the module)"""
    I = c.interp()
    where = c.where(I, con)
    d1, d2 = sym("day_before", ty_), sym("day", ty_)
    fresh = [(I.snap(o, ret(o)), o.facts) for o in c.run(I, con, St(), [d2]) if not raised(I, o)]
    for s in c.run(I, con, St(), [d1]):
        if raised(I, s):
            continue
        s.ctrl = None
        s.env = {}
        for o in c.run(I, con, s, [d2]):
            if raised(I, o):
                c.judge(None if st_weak(o) else False, "weekend: asked again", where, f"raises {raised(I, o)} at the second date")
                continue
            r, fs = I.snap(o, ret(o)), list(o.facts)
            if any(same_day(f, d1, d2) for f in fs):
                r, fs = subst(r, {d1: d2}), [subst(f, {d1: d2}) for f in fs]
            ok = True
            for v, gs in fresh:
                F = Facts(fs + list(gs))
                if F.consistent() and not eqv(F, r, v):
                    known = [v] + list(gs)
                    ok = None if weak(r, *known) or any(weak(f, *known) and any(x is d1 for x in subterms(f)) for f in fs
                                                        if not any(x.op == "at" and x.a[1].op == "slice" for x in subterms(f) if len(x.a) > 1 and isinstance(x.a[1], T))) else False
            c.judge(ok, "weekend: asked again", where, f"a date is of type {show(r)[:100]} after another date was asked ({fact_text(o)[:200]})")


def same_day(f, d1, d2):
    """the fact says that the two dates are the same"""
    def strip(x):
        while x.op == "call" and x.a[0] in SAME_DAY or x.op in ("fmt", "str") and len(x.a) == 1:
            ys = [x.a[0]] if x.op != "call" else [y for z in x.a[1:] for y in (z if isinstance(z, tuple) else (z,)) if isinstance(y, T)]
            if len(ys) != 1:
                return x
            x = ys[0]
        return x
    return f.op == "eq" and {strip(x) for x in f.a} == {d1, d2}


def o_pattern(c):
    con = "ramp.core.utils.yearly_pattern"
    with c.ob("yearly-pattern", con):
        I = c.interp()
        outs = c.run(I, con, St(), [], {"year": NONE})
        where = c.where(I, con)
        for s in outs:
            if raised(I, s):
                c.bad("yearly-pattern", where, f"raises {raised(I, s)}")
                continue
            v = I.snap(s, ret(s))
            items = pattern_values(I, s, v)
            if items is None:
                c.undec("yearly-pattern", where, show(v)[:300])
                continue
            c.check(len(items) == 365, "default-year-has-365-days", where, f"{len(items)} days")
            want = [1 if i % 7 in (5, 6) else 0 for i in range(365)]
            diff = [i for i, (x, y) in enumerate(zip(items, want)) if x != y]
            c.check(not diff, "default-year-starts-on-a-monday", where, f"days {diff[:5]} have the wrong type")
    with c.ob("yearly-pattern", con):
        I = c.interp({"ramp.core.utils.get_day_type": s_daytype})
        y = sym("year", "int")
        outs = c.run(I, con, St(), [], {"year": y})
        where = c.where(I, con)
        for s in outs:
            if raised(I, s):
                c.bad("yearly-pattern", where, f"raises {raised(I, s)}")
                continue
            v = I.snap(s, ret(s))
            rng = [x for x in subterms(v) if x.op == "call" and x.a[0] == "pandas.date_range"]
            if not rng and days_one_by_one(c, v, y, where):
                continue
            if len(set(rng)) != 1:
                c.undec("yearly-pattern", where, show(v)[:300])
                continue
            r = rng[0]
            kw = dict(r.a[2]) if len(r.a) > 2 and isinstance(r.a[2], tuple) else {}
            pos = list(r.a[1].a) if isinstance(r.a[1], T) and r.a[1].op == "tuple" else []
            start, end, freq = kw.get("start"), kw.get("end"), kw.get("freq")
            c.judge(date_is(start, y, 1, 1), "from-january-1st", where, f"starts at {show(start)[:100] if start else None}")
            if end is None and start is not None and kw.get("periods") is not None:
                n = kw["periods"]
                c.judge(False if is_num(n) else None, "to-december-31st", where, f"has {show(n)[:60]} days whatever the year")
            else:
                c.judge(date_is(end, y, 12, 31), "to-december-31st", where, f"ends at {show(end)[:100] if end else None}")
            c.judge(freq is None or freq is const("D") or (None if not is_str(freq) else False), "one-entry-per-day", where, f"frequency {freq}")
            dts = [x for x in subterms(v) if x.op == "call" and x.a[0] == "day_type"]
            ok = None
            if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "for":
                lvl, n, body = v.a[0].a
                b = mk("b", lvl)
                ok = n is mk("len", r) and body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit" and body.a[0].a[0] is mk("call", "day_type", mk("at", r, b))
                ok = ok or (None if weak(body, mk("call", "day_type")) else False)
            maps = [x for x in subterms(v) if x.op == "call" and x.a[0] == ".map" and len(x.a) > 2 and x.a[1] is r]
            if ok is None and len(set(maps)) == 1 and len(maps[0].a[2]) == 1:
                f = maps[0].a[2][0][1]
                shell = v
                while shell is not maps[0] and shell.op == "call" and shell.a[0] in (".tolist", "list", ".to_list") and isinstance(shell.a[1], T):
                    shell = shell.a[1]
                if shell is maps[0] and f.op == "fn":
                    ok = f.a[0] == "ramp.core.utils.get_day_type"
            c.judge(ok, "type-of-each-day", where, show(v)[:300])


def days_one_by_one(c, v, y, where):
    """the pattern of a year is the list of the types of first + b days, b = 0, …: decided by the calendar"""
    while v.op == "list" and len(v.a) == 1 or v.op == "call" and v.a[0] in (".tolist", ".to_list") and isinstance(v.a[1], T):
        v = v.a[0] if v.op == "list" else v.a[1]
    if v.op != "seq" or len(v.a) != 1 or v.a[0].op != "for":
        return False
    lvl, n, body = v.a[0].a
    if body.op != "seq" or len(body.a) != 1 or body.a[0].op != "lit":
        return False
    b, e = mk("b", lvl), body.a[0].a[0]
    if e.op != "call" or e.a[0] != "day_type":
        return False
    d = e.a[1] if len(e.a) > 1 and isinstance(e.a[1], T) else None
    if d is None:
        return False
    leap = calen.calendar.isleap
    ok, text = calen.same_for_all_years(n, lambda k, env: 366 if leap(k) else 365, y)
    c.judge(ok, "one-entry-per-day", where, f"{show(n)[:150]} days, wrong {text}")
    # the date of entry b for every b of one cycle
    days = [{b: calen.F(k)} for k in (range(1) if sub(d, subst(d, {b: ZERO})) is mul(const(1440), b) else range(366))]
    ok, text = calen.same_for_all_years(d, lambda k, env: calen.minutes(k, 1, 1) + 1440 * env[b], y, days)
    c.judge(ok, "type-of-each-day", where, f"entry {show(b)} is the type of {show(d)[:150]}, wrong {text}")
    return True


def is_str(t):
    return t.op == "c" and t.a[0] == "s"


def date_is(t, y, m, d):
    """is the term the date of year y, month m, day d (text or date object)"""
    if t is None:
        return None
    if t.op == "strcat":
        parts = []
        for x in t.a:
            if is_str(x):
                parts.append(x.a[1])
            elif (x.op == "fmt" and x.a[0] is y) or x is y:
                parts.append("<Y>")
            else:
                return None
        s = "".join(parts)
        if not s.startswith("<Y>"):
            return None
        rest = s[3:].lstrip("-/")
        try:
            mm, dd = [int(z) for z in rest.replace("/", "-").split("-")][:2]
        except ValueError:
            return None
        return (mm, dd) == (m, d)
    if t.op == "call" and t.a[0] in ("datetime.datetime", "datetime.date", "pandas.Timestamp", "numpy.datetime64"):
        kw = dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        try:
            g = [kw.get(k, kw.get(str(i))) for i, k in enumerate(("year", "month", "day"))]
        except Exception:
            return None
        if None in g:
            return None
        return g[0] is y and g[1] is const(m) and g[2] is const(d)
    return None


def pattern_values(I, s, v):
    """365 numbers of a store chain with constant strided slices, or an explicit list"""
    while v.op in ("list",) and len(v.a) == 1 or v.op == "call" and v.a[0] in (".tolist", ".to_list") and isinstance(v.a[1], T):
        v = v.a[0] if v.op == "list" else v.a[1]
    base, ws = peel_stores(v)
    if base.op == "zeros" and is_num(base.a[0]):
        arr = [0] * int(base.a[0].a[1])
    elif base.op == "full" and is_num(base.a[0]) and is_num(base.a[1]):
        arr = [base.a[1].a[1]] * int(base.a[0].a[1])
    elif base.op in ("vec", "seq"):
        arr = []
        for x in base.a:
            x = x.a[0] if x.op == "lit" else x
            if not is_num(x):
                return None
            arr.append(x.a[1])
    else:
        return None
    for ix, val in ws:
        if not is_num(val):
            return None
        if ix.op == "slice":
            p = [None if z is NONE else (int(z.a[1]) if is_num(z) else "?") for z in ix.a]
            if "?" in p:
                return None
            for i in range(*slice(*p).indices(len(arr))):
                arr[i] = val.a[1]
        elif is_num(ix):
            arr[int(ix.a[1])] = val.a[1]
        else:
            return None
    return arr


@rule("C13", 14, "Weekend days are exactly Saturdays and Sundays", "abstract interpretation per day of the week (exhaustive over the 7 values); strided stores evaluated on constants",
      "datetime.weekday and pandas.date_range trusted.")
def c13(c):
    o_weekend(c)
    o_pattern(c)
    # each day is simulated with the type of its own date
    with c.only("day-type", "task-arguments (general): day type"):
        o_sim_args(c, False)
        o_sim_args(c, True)
        o_rows(c, False)
        o_rows(c, True)


# ------------------------------------------------------------------ C14 independence of days
def scratch(c, runs, where):
    """attributes which are neither configuration nor known state of the day: a value of a previous call must not be used.
    runs: (name of the entry point, state)"""
    own = set(CONFIG_FIELDS) | STATE | USTATE
    w, r = set(), set()
    for q, s in runs:
        ws = {n for (o, n) in s.fields if o is APP and n not in own and not n.startswith("new_")}
        rs = {n for (o, n) in s.ireads if o is APP and n not in own}
        for t in s.cells:
            ws |= {x.a[1] for x in subterms(t) if x.op == "attr" and x.a[0] is APP and x.a[1] not in own}
        w |= {(q, n) for n in ws}
        r |= {(q, n) for n in rs}
    for q, n in sorted(w):
        if (q, n) in r:
            c.bad("no-hidden-memory", where, f"{q} uses the {n} left by the call before")
        elif any(n == m for _, m in r):
            c.undec("no-hidden-memory", where, f"{n} is handed from one function to another")
    if not w:
        c.ok("no-hidden-memory", where)


def o_fresh_state(c):
    """state of the day of an appliance is written before it is read, on every path"""
    con = "Appliance.generate_load_profile"
    base = day.stubs()
    missing = []
    runs = []

    def need(names, name):
        f0 = base["Appliance." + name]

        def f(I, st, env, node):
            for n in names:
                if (env["self"], n) not in st.fields:
                    missing.append((name, n))
            return f0(I, st, env, node)
        return f
    stubs = dict(base)
    stubs["Appliance.rand_switch_on_window"] = need(["free_spots"], "rand_switch_on_window")
    stubs["Appliance.update_daily_use"] = need(["daily_use", "free_spots"], "update_daily_use")
    with c.ob("state-of-the-day-fresh", con):
        I, outs = gen_outcomes(c, stubs=stubs)
        where = c.where(I, con)
        for part, n in sorted(set(missing)):
            c.bad("state-of-the-day-fresh", where, f"{part} is reached with the {n} of the previous day")
        if not missing:
            c.ok("state-of-the-day-fresh", where)
        for s in outs:
            bad = [n for (o, n) in s.ireads if o is APP and n in STATE]
            c.check(not bad, "no-read-of-the-previous-day", where, f"reads {bad} of the previous day")
            if not raised(I, s):
                c.check((APP, "daily_use") in s.fields, "profile-reset", where, "the profile of the previous day is kept")
            allowed_writes(c, I, s, where)
            runs.append((where, s))
    with c.ob("state-of-the-day-fresh", "Appliance.assign_random_cycles"):
        for fc in (1, 2, 3):
            I = c.interp()
            st = St()
            st.assume(eq(a_("fixed_cycle"), const(fc)))
            outs = c.run(I, "Appliance.assign_random_cycles", st, [APP])
            where = c.where(I, "Appliance.assign_random_cycles")
            for s in outs:
                for k in (1, 2, 3):
                    c.check((APP, f"random_cycle{k}") in s.fields, "cycles-fresh", where, f"random_cycle{k} is that of the previous day (fixed_cycle {fc})")
                bad = [n for (o, n) in s.ireads if o is APP and n in STATE]
                c.check(not bad, "no-read-of-the-previous-day", where, f"reads {bad} of the previous day")
                allowed_writes(c, I, s, where)
                runs.append((where, s))
    with c.ob("state-of-the-day-fresh", "Appliance.rand_switch_on_window"):
        spots_type()
        I = c.interp({"ramp.core.utils.range_within_window": lambda I, st, env, n: [(st, mk("truth", sym(f"within{I.fresh()}", "bool")))]})
        I.axiom_hook = spots_axiom
        st = St()
        for f in (le(ONE, a_("fixed_cycle")), le(ZERO, a_("func_cycle")), le(a_("func_cycle"), RANDT), le(ONE, RANDT)):
            st.assume(f)
        outs = c.run(I, "Appliance.rand_switch_on_window", st, [APP], {"rand_time": RANDT})
        where = c.where(I, "Appliance.rand_switch_on_window")
        for s in outs:
            r = I.snap(s, ret(s)) if ret(s) is not None else NONE
            if not raised(I, s) and r.op == "range":
                c.check((APP, "current_duty_cycle_id") in s.fields, "duty-cycle-selected-anew", where, "the duty cycle selected for the previous event is used")
            bad = [n for (o, n) in s.ireads if o is APP and n == "current_duty_cycle_id"]
            c.check(not bad, "no-read-of-the-previous-event", where, f"reads {bad} of the previous event")
            allowed_writes(c, I, s, where)
            runs.append((where, s))
    for qual, mk_args in (("Appliance.rand_total_time_of_use", lambda I, st: ([APP], {f"rand_window_{k}": I.new_list(st, [RA[k], RB[k]]) for k in RA})),
                          ("Appliance.calc_coincident_switch_on", lambda I, st: ([APP], {"inside_peak_window": TRUE}))):
        with c.ob("state-of-the-day-fresh", qual):
            I = c.interp()
            st = St()
            a, k = mk_args(I, st)
            outs = c.run(I, qual, st, a, k)
            where = c.where(I, qual)
            for s in outs:
                bad = [n for (o, n) in s.ireads if o is APP and n in STATE]
                c.check(not bad, "no-read-of-the-previous-day", where, f"reads {bad}")
                allowed_writes(c, I, s, where)
                runs.append((where, s))
    with c.ob("configuration-unchanged", "Appliance.update_daily_use"):
        for k, I, outs, where in update_outcomes(c):
            for s in outs:
                allowed_writes(c, I, s, where)
                runs.append((where, s))
    for k in (1, 2, 3):
        with c.ob("no-hidden-memory", "Appliance.calc_rand_window"):
            I = c.interp()
            st = St()
            for f in (le(ZERO, sym("w0", "int")), le(sym("w0", "int"), sym("w1", "int")), le(sym("w1", "int"), const(1440))):
                st.assume(f)
            st.fields[(APP, f"window_{k}")] = models.new_nd(I, st, mk("vec", sym("w0", "int"), sym("w1", "int")))
            runs += [(c.where(I, "Appliance.calc_rand_window"), s)
                     for s in c.run(I, "Appliance.calc_rand_window", st, [APP], {"window_idx": const(k)})]
    scratch(c, runs, "ramp/core/core.py:Appliance")


def allowed_writes(c, I, s, where):
    """only the state of the day is written"""
    for (o, n) in s.fields:
        if o is APP and n in CONFIG_FIELDS:
            v = s.fields[(o, n)]
            if I.snap(s, v) is attr(APP, n):
                continue
            c.bad("configuration-unchanged", where, f"the simulation changes {n} of the appliance")
            return
    for t in s.cells:
        for x in subterms(t):
            if x.op == "attr" and x.a[0] is APP and x.a[1] in CONFIG_FIELDS and x.a[1] != "user":
                c.bad("configuration-unchanged", where, f"the simulation modifies {show(t)[:80]} in place")
                return
    c.ok("configuration-unchanged", where)


SIM_ROOTS = ["UseCase.generate_daily_load_profiles", "UseCase.generate_daily_load_profiles_parallel", "User.generate_aggregated_load_profile",
             "User.generate_single_load_profile", "Appliance.generate_load_profile"]


def sim_functions(c):
    """functions of the package reachable (by name) from the simulation"""
    defs = {}
    for m in c.repo.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs.setdefault(x.name, []).append((m, x))
    todo = ["generate_daily_load_profiles", "generate_daily_load_profiles_parallel", "generate_aggregated_load_profile",
            "generate_single_load_profile", "generate_load_profile", "single_appliance_daily_load_profile", "calc_peak_time_range"]
    seen = set()
    out = []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m, x in defs.get(n, []):
            if not m.name.startswith("ramp.core"):
                continue
            out.append((m, x))
            for y in ast.walk(x):
                if isinstance(y, ast.Call):
                    f = y.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if nm:
                        todo.append(nm)
                    for a in list(y.args) + [k.value for k in y.keywords]:
                        if isinstance(a, ast.Name):
                            todo.append(a.id)
                elif isinstance(y, ast.Attribute):
                    todo.append(y.attr)
    return out


RANDOM_NAMES = {"random", "randint", "uniform", "gauss", "normalvariate", "choice", "choices", "shuffle", "sample", "getrandbits", "betavariate",
                "triangular", "randrange", "expovariate"}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def o_no_memory(c):
    """no function of the simulation keeps values between calls outside of the objects (caches, globals, mutable defaults)"""
    with c.ob("no-hidden-memory", "ramp.core"):
        fs = sim_functions(c)
        drawing = set()
        for m, x in fs:
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in RANDOM_NAMES and dotted(y.func.value) in ("random", "np.random", "numpy.random")
                   for y in ast.walk(x)):
                drawing.add(x.name)
        changed = True
        while changed:
            changed = False
            for m, x in fs:
                if x.name in drawing:
                    continue
                for y in ast.walk(x):
                    if isinstance(y, ast.Call):
                        n = y.func.id if isinstance(y.func, ast.Name) else getattr(y.func, "attr", None)
                        if n in drawing:
                            drawing.add(x.name)
                            changed = True
                            break
        for m, x in fs:
            where = f"{os.path.relpath(m.path, c.root)}:{x.name}:{x.lineno}"
            c.ok("no-hidden-memory", where)
            for d in x.decorator_list:
                n = dotted(d.func if isinstance(d, ast.Call) else d) or ""
                if n.split(".")[-1] in ("lru_cache", "cache", "cached_property", "memoize") and (x.name in drawing or reads_self(x)):
                    c.bad("no-hidden-memory", where, f"{n} keeps the result of {x.name} from one call to the next")
            if x.name in drawing or reads_self(x):
                for nme in sorted(module_containers(m)):
                    local = any(isinstance(y, ast.Name) and y.id == nme and isinstance(y.ctx, ast.Store) for y in ast.walk(x)) or \
                        any(a.arg == nme for a in x.args.args + x.args.kwonlyargs)
                    if not local and modifies(x, nme) and consults(x, nme):
                        c.bad("no-hidden-memory", where, f"{x.name} keeps values in {nme} from one call to the next")
            for y in ast.walk(x):
                if isinstance(y, (ast.Global, ast.Nonlocal)) and isinstance(y, ast.Global):
                    c.bad("no-hidden-memory", where, f"writes the global variables {y.names}")
                tgt = []
                if isinstance(y, ast.Assign):
                    tgt = y.targets
                elif isinstance(y, ast.AugAssign):
                    tgt = [y.target]
                for t in tgt:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in c.repo.classes:
                        c.bad("no-hidden-memory", where, f"writes {t.value.id}.{t.attr}, shared by all objects")
            # mutable default values which are modified
            args = x.args
            names = [a.arg for a in args.args][len(args.args) - len(args.defaults):]
            for nme, dv in list(zip(names, args.defaults)) + [(a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
                mut = isinstance(dv, (ast.List, ast.Dict, ast.Set)) or isinstance(dv, ast.Call)
                if x.name == "calc_rand_window":
                    continue        # decided by o_window_pure
                rebound = any(isinstance(y, ast.Name) and y.id == nme and isinstance(y.ctx, ast.Store) for y in ast.walk(x))
                if mut and modifies(x, nme):
                    (c.undec if rebound else c.bad)("no-hidden-memory", where, f"modifies the default value of its parameter {nme}")


def module_containers(m):
    """names of the module bound to an empty container at its top level"""
    out = set()
    for y in m.tree.body:
        v = getattr(y, "value", None)
        ts = y.targets if isinstance(y, ast.Assign) else [y.target] if isinstance(y, ast.AnnAssign) else []
        if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Call)):
            if isinstance(v, ast.Call) and dotted(v.func) not in ("dict", "list", "set", "collections.defaultdict", "defaultdict", "OrderedDict", "weakref.WeakKeyDictionary"):
                continue
            out |= {t.id for t in ts if isinstance(t, ast.Name)}
    return out


def consults(fn, name):
    """a value of the container is read"""
    for y in ast.walk(fn):
        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == name and isinstance(y.ctx, ast.Load):
            return True
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == name and y.func.attr in ("get", "setdefault", "pop"):
            return True
    return False


def reads_self(x):
    return any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" for y in ast.walk(x))


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "add", "setdefault"}


def modifies(fn, name):
    for y in ast.walk(fn):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == name and y.func.attr in MUTATORS:
            return True
        if isinstance(y, (ast.Assign, ast.AugAssign)):
            for t in (y.targets if isinstance(y, ast.Assign) else [y.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                    return True
    return False


def o_config_world(c):
    """running a whole use case leaves users and appliances unchanged but for the state of the day"""
    for par in (False, True):
        with c.ob("configuration-unchanged", "UseCase.generate_daily_load_profiles"):
            I = c.interp({"ramp.core.utils.get_day_type": s_daytype, "Appliance.generate_load_profile": s_profile})
            st = St()
            D, us, apps = world(c, I, st, 2, ((2, 2), (1, 1)), par)
            before = {k: I.snap(st, v) for k, v in st.fields.items()}
            outs = c.run(I, "UseCase.generate_daily_load_profiles", st, [UC], {"flat": FALSE})
            where = c.where(I, "UseCase.generate_daily_load_profiles")
            for s in outs:
                if raised(I, s):
                    continue
                for (o, n), v in s.fields.items():
                    if n in STATE or n in USTATE or (o, n) not in before and n in ("daily_profiles",):
                        continue
                    if (o, n) in before:
                        same_ = I.snap(s, v) is before[(o, n)]
                        c.check(same_, "configuration-unchanged", where, f"the simulation changes {n} of {show(o)}")
                    elif (o in us or any(o in a for a in apps)) and not n.startswith("_"):
                        c.bad("configuration-unchanged", where, f"the simulation sets {n} of {show(o)}")
                for t in s.cells:
                    c.bad("configuration-unchanged", where, f"the simulation modifies {show(t)[:80]} in place") if t.op == "attr" and t.a[1] not in STATE | USTATE else None


@rule("C14", 40, "Days are independent", "read-before-write analysis of the state of the day over all paths; effect analysis of the simulation; lint for hidden memory (caches, globals, mutable defaults)",
      "State of the day: daily_use, free_spots, random_cycle1-3, current_duty_cycle_id, rand_daily_pref, load.")
def c14(c):
    o_fresh_state(c)
    o_window_pure(c)
    o_no_memory(c)
    o_config_world(c)
    c.sized(lambda c: o_rows(c, False))
    c.sized(lambda c: o_rows(c, True))
    o_general(c)


# ------------------------------------------------------------------ C17 seeds
def o_seed_first(c):
    con = "UseCase.__init__"
    for seed in (sym("random_seed", "int"), ZERO, const(7)):
        with c.ob("seeded-before-any-draw", con):
            def s_peak(I, st, env, node):
                I.event(st, "rnd", "peak", node=node)
                return [(st, models.new_nd(I, st, PEAK))]
            I = c.interp({"UseCase.calc_peak_time_range": s_peak})
            st = St()
            st.fields = {}
            outs = c.run(I, con, st, [UC], {"random_seed": seed, "date_start": const("2020-01-01"), "date_end": const("2020-01-03")})
            where = c.where(I, con)
            for s in outs:
                if raised(I, s):
                    continue
                seeded = False
                for e in flat_events(s.events):
                    if e.kind == "seed":
                        a = e.args.get("a", e.args.get("0"))
                        if a is seed:
                            seeded = True
                        else:
                            c.judge(None if a is not None and weak(a) else False, "seeded-with-the-given-seed", where, f"seeded with {a}")
                    elif e.kind == "rnd" and not seeded:
                        c.bad("seeded-before-any-draw", where, f"draws ({e.name}) before the generator is seeded")
                c.check(seeded, "seeded-with-the-given-seed", where, f"random_seed {show(seed)} does not seed the generator")


BAD_RANDOM = ("numpy.random", "np.random", "secrets", "os.urandom", "uuid", "random.SystemRandom", "random.Random", "random.seed")


def o_sources(c):
    """only the random module is used, and it is not reseeded"""
    with c.ob("single-source-of-randomness", "ramp.core"):
        n = 0
        for m in c.repo.modules.values():
            if not m.name.startswith("ramp.core"):
                continue
            alias = {}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(x, ast.ImportFrom) and x.module:
                    for a in x.names:
                        alias[a.asname or a.name] = x.module + "." + a.name
            encl = {}
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for y in ast.walk(f):
                        encl[y] = f
            for x in ast.walk(m.tree):
                if not isinstance(x, ast.Call):
                    continue
                d = dotted(x.func)
                if not d:
                    continue
                h, _, t = d.partition(".")
                full = alias.get(h, h) + ("." + t if t else "")
                f = encl.get(x)
                where = f"{os.path.relpath(m.path, c.root)}:{f.name if f else '<module>'}:{x.lineno}"
                if full.startswith("numpy.random") or full.split(".")[0] in ("secrets", "uuid") or full in ("os.urandom", "random.SystemRandom", "random.Random"):
                    c.bad("single-source-of-randomness", where, f"draws from {full} instead of the seeded generator")
                elif full.startswith("random."):
                    n += 1
                    c.ok("single-source-of-randomness", where)
        if n < 5:
            c.undec("single-source-of-randomness", "ramp.core", f"only {n} uses of the random module")


def o_reseed(c):
    """seeding events of a whole serial simulation: none (the constructor seeds once)"""
    with c.ob("not-reseeded", "UseCase.generate_daily_load_profiles"):
        I, outs, w = world_run(c, 2, ((2, 2), (1, 1)), False, True)
        where = c.where(I, "UseCase.generate_daily_load_profiles")
        for s in outs:
            ev = [e for e in flat_events(s.events) if e.kind == "seed"]
            bad = []
            for e in ev:
                a = e.args.get("a", e.args.get("0"))
                if a is not mk("attr", UC, "random_seed"):
                    bad.append(a)
            c.check(not bad, "not-reseeded", where, f"the generator is seeded again with {bad} during the simulation")


def undrawn(t):
    """only functions of libraries which do not draw from the generator of Python are called in it"""
    for x in subterms(t):
        if x.op == "call" and (not isinstance(x.a[0], str) or x.a[0].startswith(".") or "." not in x.a[0] or "random" in x.a[0] or x.a[0].startswith("ramp.")):
            return False
        if x.op in WEAK:
            return False
    return True


VOLATILE = ("os.getpid", "os.getppid", "os.urandom", "builtins.id", "time.", "datetime.datetime.now", "datetime.datetime.today",
            "datetime.datetime.utcnow", "uuid.", "secrets.", "threading.", "multiprocessing.current_process", "builtins.object")


def volatile(t):
    out = {x.a[0] for x in subterms(t) if x.op == "call" and isinstance(x.a[0], str) and x.a[0].startswith(VOLATILE)}
    for x in subterms(t):
        # the hash of a text (or of an object) differs from one run of Python to the next
        if x.op == "call" and x.a[0] == "builtins.hash" and any(tm.ty(y) == "str" or tm.ty(y).startswith("obj:") for w in call_args(x) for y in ([w] + list(w.a) if w.op in ("tuple", "vec") else [w])
                                                                if isinstance(y, T)):
            out.add("builtins.hash")
    return sorted(out)


def o_task_seeds(c):
    con = "UseCase.generate_daily_load_profiles_parallel"
    for days, shape in shapes(c)[:3]:
        with c.ob("task-seeded", con):
            I, outs, w = world_run(c, days, shape, True, False)
            where = c.where(I, con)
            for s in outs:
                if raised(I, s):
                    continue
                last, used, inside, order = None, [], False, True
                parent = set()
                for e in flat_events(s.events):
                    if e.kind == "poolbegin":
                        inside = True
                        if e.args.get("order") is FALSE:
                            order = False
                        last = None
                    elif e.kind == "poolend":
                        inside = False
                    elif e.kind == "seed" and inside:
                        last = e.args.get("a", e.args.get("0"))
                    elif e.kind == "rnd" and not inside:
                        parent.add(e.res)
                    elif e.kind == "rnd" and inside and last is None:
                        c.bad("task-seeded", where, f"a task draws ({e.name}) before it is seeded")
                    elif e.kind == "mcall" and e.name == "generate_load_profile":
                        if last is None:
                            c.bad("task-seeded", where, "a task simulates an appliance without being seeded from the generator of the use case")
                            continue
                        rs = rnds(last)
                        if volatile(last):
                            c.bad("task-seed-drawn", where, f"the seed of a task depends on {volatile(last)}, which differs from run to run")
                            continue
                        if not rs:
                            c.judge(None if weak(last) and not undrawn(last) else False, "task-seed-drawn", where, f"the tasks are seeded with {show(last)[:100]}, not drawn from the generator")
                            continue
                        c.check(last not in used, "task-seeds-differ", where, "several tasks are seeded with the same value")
                        c.ok("task-seed-drawn", where)
                        used.append(last)
                        last = None
                if not order:
                    f = c.repo.modules["ramp.core.core"].tree if "ramp.core.core" in c.repo.modules else None
                    sorts = [y for y in ast.walk(f) if isinstance(y, ast.Call) and (dotted(y.func) or "").split(".")[-1] in ("sorted", "sort", "fsum")
                             and not (dotted(y.func) or "").startswith("rand_window")] if f is not None else []
                    c.judge(None if sorts else False,
                            "order-of-completion", where, "results are combined in the order in which the tasks complete")
                else:
                    c.ok("order-of-completion", where)


@rule("C17", 15, "A random seed determines the results", "event-order analysis of seeding and draws on all paths; lint of every source of randomness of ramp.core",
      "The generator is Python's random module; multiprocessing.Pool.imap returns results in task order (trusted).")
def c17(c):
    o_seed_first(c)
    o_sources(c)
    o_reseed(c)
    o_task_seeds(c)


# ------------------------------------------------------------------ C18 peak time range
def s_maxprofile(I, st, env, node):
    return [(st, mk("call", "maximum_profile", I.snap(st, env["self"])))]


def peak_spec(users, pe):
    W = mk("nonzero", None) if False else None


def o_peak(c):
    con = "UseCase.calc_peak_time_range"
    for given in (False, True):
        with c.ob("peak-time-range", con):
            I = c.interp({"User.maximum_profile": s_maxprofile})
            st = St()
            pe = sym("stored_peak_enlarge", "float")
            st = c.steps(I, st, [("UseCase.__init__", [UC], {"peak_enlarge": pe})])[0]
            st.fields.pop((UC, "users"), None)
            kw = {}
            if given:
                pe = sym("new_peak_enlarge", "float")
                kw = {"peak_enlarge": pe}
            st.assume(le(ZERO, pe))
            outs = c.run(I, con, st, [UC], kw)
            where = c.where(I, con)
            users = mk("attr", UC, "users")
            u = sym("u", "int")
            n = 0
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, "peak-time-range", where, f"raises {raised(I, s)}")
                    continue
                n += 1
                v = I.snap(s, ret(s))
                if v.op != "range":
                    c.judge(None if weak(v, mk("tuple", mk("nonzero", ZERO))) else False, "consecutive-minutes", where, f"returns {show(v)[:300]}")
                    continue
                c.check(v.a[2] is ONE, "consecutive-minutes", where, show(v)[:200])
                F = Facts(s.facts)
                c.judge(F.entails(lt(v.a[0], v.a[1])) or (None if weak(v, mk("nonzero", ZERO)) else False), "never-empty", where, f"range {show(v)[:300]}")
                mid = mul(add(v.a[0], v.a[1]), const_frac(1, 2))
                e = mul(sub(v.a[1], v.a[0]), const_frac(1, 2))
                tot, W = find_window(v, users)
                if W is None:
                    # positions squeezed to a scalar when there is only one of them
                    scalar = any(x.op == "at" and x.a[0].op in ("squeeze", "call") and (x.a[0].op == "squeeze" or x.a[0].a[0] in (".squeeze", "numpy.squeeze")) and any(
                        y.op in ("argwhere", "nonzero", "flatnonzero") or y.op == "call" and "argwhere" in str(y.a[0]) for y in subterms(x.a[0])) for x in subterms(v))
                    c.judge(False if scalar else None, "peak-window", where, ("a peak window of a single minute is not a sequence: " if scalar else "") + show(v)[:300])
                    continue
                mean = mk("mean", W)
                ok = None
                if tot is not None:
                    top = mk("amax", tot)
                    forms = (mk("aeq", tot, top), mk("aeq", top, tot), eq(tot, top), eq(top, tot), eq(sub(tot, top), ZERO))
                    ok = W.a[0] in forms or (None if weak(W.a[0], forms[0]) else False)
                elif any(x.op == "amin" or x.op == "call" and x.a[0] in (".min", "numpy.min", ".mean", "numpy.mean", "numpy.median") for x in subterms(W.a[0])) and not any(
                        x.op in ("amax", "emax", "max") or x.op == "call" and "max" in str(x.a[0]).replace("maximum_profile", "") for x in subterms(W.a[0])):
                    ok = False      # not where the maximum is
                elif any(x.op in ("round", "int", "floor", "ceil") and any(y.op == "call" and y.a[0] == "maximum_profile" for y in subterms(x)) for x in subterms(W.a[0])):
                    ok = False
                elif any((x.op == "amax" or x.op == "call" and x.a[0] in (".max", "numpy.max", "numpy.nanmax")) and any(
                        y.op == "at" and y.a[1].op == "slice" and any(z not in (NONE, ZERO, ONE) for z in y.a[1].a) for y in subterms(x))
                        for x in subterms(W.a[0])):
                    ok = False      # the largest value of a part of the day
                elif clipped(W) or any(x.op == "fold" and any(y.op == "emax" and any(z.op == "lv" for z in y.a if isinstance(z, T)) for y in subterms(x)) for x in subterms(W)):
                    ok = False  # part of the users, or the largest profile instead of the sum
                c.judge(ok, "peak-window", where, f"peak window {show(W)[:300]}")
                pt = rounder("round", draw("gauss", rounder("round", mean), mul(const_frac(1, 3), sub(mk("at", W, const(-1)), mk("at", W, ZERO)))))
                m = eq_draws(F, norm_draws(mid), pt)
                other = {"numpy.median", "numpy.percentile", "numpy.quantile", "numpy.nanmedian", "statistics.median", "statistics.mode", "numpy.random.choice"} & calls(mid)
                c.judge(m is not None or (None if weak(mid, pt) and not other else False), "peak-time", where, f"peak time is {show(mid)[:500]}")
                if m is None:
                    continue
                g = draw("gauss", norm_draws(mid), mul(pe, norm_draws(mid)))
                en = mx(ONE, rounder("round", mk("abs", sub(norm_draws(mid), g))))
                en2 = mx(ONE, rounder("round", mk("abs", sub(g, norm_draws(mid)))))
                ne = norm_draws(e)
                m2 = eq_draws(F, ne, en) or eq_draws(F, ne, en2)
                c.judge(m2 is not None or (None if weak(e, en) else False), "enlargement", where, f"half width is {show(e)[:500]}")
            if not n:
                c.undec("peak-time-range", where, "no normal outcome")


def norm_draws(t):
    return t


def find_window(v, users):
    """(summed maximum profile, peak window) used in the value"""
    W = None
    for x in subterms(v):
        if x.op == "nonzero":
            W = x
    if W is None:
        return None, None
    tot = None
    for x in subterms(W):
        if x.op == "amax":
            tot = x.a[0]
    if tot is None:
        return None, W
    t2 = subst(tot, {t: ZERO for t in atoms_of(tot) if t.op == "zeros"}) if tot.op == "poly" else tot
    if t2.op == "sum" and t2.a[1] is mk("len", users) and t2.a[2] is mk("call", "maximum_profile", mk("at", users, mk("b", t2.a[0]))):
        return tot, W
    return None, W


@rule("C18", 7, "The peak time range", "abstract interpretation; normal form compared to the formula up to draw correspondence; non-emptiness by polyhedra facts",
      "peak_enlarge >= 0; at least one user or none.")
def c18(c):
    o_peak(c)
    o_maxprofile(c)
    o_default_peak(c)


def o_default_peak(c):
    """a user simulated without peak time range uses that of its use case, calculated when there is none"""
    con = "User.generate_single_load_profile"
    rule_ = "peak-time-range-by-default"
    app = sym("app0", "obj:Appliance")
    for case in ("stored", "stored before the initialisation", "not calculated", "no use case"):
        with c.ob(rule_, con):
            def s_peak(I, st, env, node):
                us = I.snap(st, st.fields.get((env["self"], "users"), NONE))
                return [(st, models.new_nd(I, st, mk("call", "peak_of", us)))]
            I = c.interp({"Appliance.generate_load_profile": s_gen_event, "UseCase.calc_peak_time_range": s_peak, "ext:random.seed": lambda I2, s2, d, n: [(s2, NONE)]})
            I.concrete_rec = True
            st = St()
            if case != "no use case":
                if "before" in case:
                    become(st, c.steps(I, st, [("UseCase.__init__", [UC], {})])[0])
                else:
                    initialised(c, I, st, ND, sym("days", "ext:pandas.DatetimeIndex"), False)
                I.stubs["UseCase.calc_peak_time_range"] = s_peak
                st.fields[(UC, "users")] = I.new_list(st, [SELF_U, sym("other_user", "obj:User")])
                st.fields[(UC, "peak_time_range")] = models.new_nd(I, st, PEAK) if case.startswith("stored") else NONE
                st.fields[(SELF_U, "usecase")] = UC
            else:
                st.fields[(SELF_U, "usecase")] = NONE
            st.fields[(SELF_U, "App_list")] = I.new_list(st, [app])
            outs = c.run(I, con, st, [SELF_U], {"prof_i": DAY, "day_type": DTYPE})
            where = c.where(I, con)
            want = PEAK if case.startswith("stored") else mk("call", "peak_of", mk("vec", *[u for u in ([SELF_U] if case == "no use case" else [SELF_U, sym("other_user", "obj:User")])]))
            for s in outs:
                if raised(I, s):
                    c.judge(None if st_weak(s) else False, rule_, where, f"({case}) raises {raised(I, s)}")
                    continue
                got = [t.a[3] for t in subterms(I.snap(s, ret(s))) if t.op == "call" and t.a[0] == "profile"]
                for g in got or [NONE]:
                    c.judge(g is want or (None if weak(g, want) and not (g.op == "call" and g.a[0] == "peak_of") else False), rule_, where, f"({case}) simulated with the peak time range {show(g)[:150]}, not {show(want)[:100]}")


# ------------------------------------------------------------------ C20 maximum profile
WSYM = {k: (sym(f"dw{k}_0", "int"), sym(f"dw{k}_1", "int")) for k in (1, 2, 3)}


def o_maxprofile(c):
    con = "Appliance.maximum_profile"
    with c.ob("maximum-profile", con):
        I = c.interp()
        st = St()
        for k, (x, y) in WSYM.items():
            st.fields[(APP, f"window_{k}")] = models.new_nd(I, st, mk("vec", x, y))
            for f in (le(ZERO, x), le(x, y), le(y, const(1440))):
                st.assume(f)
        outs = c.run(I, con, st, [APP])
        where = c.where(I, con)
        for s in outs:
            if raised(I, s):
                c.judge(None if st_weak(s) else False, "maximum-profile", where, f"raises {raised(I, s)}")
                continue
            bad = [n for (o, n) in s.ireads if o is APP and n in STATE]
            c.check(not bad, "independent-of-simulations", where, f"depends on {bad}, which the simulation changes")
            c.check(not [1 for (o, n) in s.fields if o is APP and n in CONFIG_FIELDS | STATE and I.snap(s, s.fields[(o, n)]) is not I.snap(st, st.fields.get((o, n), attr(APP, n)))]
                    and not [t for t in s.cells if any(x.op == "attr" and x.a[1] in CONFIG_FIELDS | STATE for x in subterms(t))], "no-side-effect", where, "calculating it changes the appliance")
            v = I.snap(s, ret(s))
            scale = mul(a_("number"), mk("mean", a_("power")))
            got = elementwise_windows(v)
            if got is None:
                c.judge(None if weak(v, mk("mean", ZERO)) or bad or v.op == "ewhere" else False, "maximum-profile", where, show(v)[:300])
                continue
            F = Facts(s.facts)
            base, ws, co = got
            want = {k for k in WSYM}
            for ix, val in ws:
                hit = [k for k, (x, y) in WSYM.items() if ix.op == "slice" and eqv(F, ix.a[0], x) and eqv(F, ix.a[1], y)]
                if not hit:
                    c.judge(None if weak(ix) or ix.op != "slice" else False, "maximum-profile", where, f"non zero at {show(ix)[:200]}")
                    continue
                want -= set(hit)
                x = val.a[1] if val.op == "full" else val
                c.judge(eqv(F, mul(co, x), scale) or (None if weak(mul(co, x), scale) else False), "maximum-profile", where, f"value {show(mul(co, x))[:200]} in window {hit}")
            c.check(not want, "maximum-profile", where, f"windows {sorted(want)} are not counted")
    con = "User.maximum_profile"
    with c.ob("maximum-profile", con):
        I = c.interp({"Appliance.maximum_profile": s_maxprofile})
        st = St()
        outs = c.run(I, con, st, [SELF_U])
        where = c.where(I, con)
        al = mk("attr", SELF_U, "App_list")
        for s in outs:
            if raised(I, s):
                c.judge(None if st_weak(s) else False, "maximum-profile", where, f"raises {raised(I, s)}")
                continue
            v = I.snap(s, ret(s))
            x = subst(v, {t: ZERO for t in atoms_of(v) if t.op == "zeros"}) if v.op == "poly" else v
            ok = False
            for t in subterms(x):
                if t.op == "sum" and t.a[1] is mk("len", al):
                    body = t.a[2]
                    app = mk("at", al, mk("b", t.a[0]))
                    nu = mk("attr", SELF_U, "num_users")
                    cl = mk("call", "maximum_profile", app)
                    if body is cl and x is mul(t, nu) or x is t and body is mul(cl, nu):
                        ok = True
            other = any(t.op == "call" and t.a[0] in OTHER_AGGREGATES and any(y.op == "call" and y.a[0] == "maximum_profile" for y in subterms(t)) for t in subterms(v))
            c.judge(ok or (None if not other and weak(v, mk("call", "maximum_profile")) else False), "maximum-profile", where, show(v)[:300])


OTHER_AGGREGATES = {"numpy.maximum.reduce", "numpy.fmax.reduce", "numpy.max", "numpy.mean", "numpy.median", "numpy.min", "numpy.minimum.reduce",
                    "numpy.prod", "numpy.multiply.reduce", "numpy.percentile", "numpy.quantile", "statistics.mean", "numpy.nanmax"}


def elementwise_windows(v):
    """coefficient * (zeros with constant slices)"""
    if v.op == "ewhere" and len(v.a) == 3 and v.a[2] in (ZERO, const(0.0), FALSE):
        # a mask of the windows, then the value where it is set
        m = v.a[0]
        while m.op in ("astype",) or m.op == "ne0":
            m = m.a[0]
        got = elementwise_windows(m)
        if got and got[2] is ONE and all(x in (TRUE, ONE) or x.op == "full" and x.a[1] in (TRUE, ONE) for _, x in got[1]) and not contains(v.a[1], lambda y: y.op in ("store", "put", "zeros")):
            return got[0], [(ix, v.a[1]) for ix, _ in got[1]], ONE
        return None
    if v.op in ("store", "put"):
        base, ws = peel_stores(v)
        return (base, ws, ONE) if base.op == "zeros" else None
    if v.op == "poly":
        ms = to_poly(v)
        ms = list(ms.items()) if isinstance(ms, dict) else list(ms)
        if len(ms) != 1:
            return None
        mono, co = ms[0]
        arr = [a for a, e in mono if a.op in ("store", "put") and e == 1]
        if len(arr) != 1:
            return None
        base, ws = peel_stores(arr[0])
        if base.op != "zeros":
            return None
        rest = const(co)
        for a, e in mono:
            if a is not arr[0]:
                rest = mul(rest, tm.power(a, const(e)))
        return base, ws, rest
    return None


@rule("C20", 3, "Maximum profile of appliances and users", "abstract interpretation: store chains over the declared windows; state-of-the-day reads excluded",
      "Declared windows inside 0..1440; any lists of appliances.")
def c20(c):
    o_maxprofile(c)
