"""Scenario of one day of one appliance: Appliance.generate_load_profile with its public parts cut at their contracts."""
from .base import *

APP = sym("self", "obj:Appliance")
DAY = sym("prof_i", "int")
P0 = sym("peak0", "int")
P1 = sym("peak1", "int")
PEAK = mk("range", P0, P1, ONE)
DTYPE = sym("day_type", "int")
POWER = mk("at", mk("attr", APP, "power"), DAY)
RA = {k: sym(f"ra{k}", "int") for k in (1, 2, 3)}
RB = {k: sym(f"rb{k}", "int") for k in (1, 2, 3)}
RANDT = sym("rand_time", "int")


def attr(o, n):
    return mk("attr", o, n)


def win_facts(st, k):
    st.assume(le(ZERO, RA[k]))
    st.assume(le(RA[k], RB[k]))
    st.assume(le(RB[k], const(1440)))


def s_window(I, st, env, node):
    k = I.snap(st, env.get("window_idx", ONE))
    I.event(st, "mcall", "calc_rand_window", recv=env["self"], args=dict(env), node=node)
    if not (is_num(k) and k.a[1] in RA):
        return [(st, mk("call", "calc_rand_window", k, I.fresh_t()))]
    k = int(k.a[1])
    win_facts(st, k)
    return [(st, I.new_list(st, [RA[k], RB[k]]))]


def s_randt(I, st, env, node):
    I.event(st, "mcall", "rand_total_time_of_use", recv=env["self"],
            args={k: I.snap(st, v) for k, v in env.items()}, res=RANDT, node=node)
    st.assume(le(ZERO, RANDT))
    return [(st, RANDT)]


def s_cycles(I, st, env, node):
    I.event(st, "mcall", "assign_random_cycles", recv=env["self"], args=dict(env), node=node)
    for k in (1, 2, 3):
        st.fields[(env["self"], f"random_cycle{k}")] = mk("attr", env["self"], f"new_random_cycle{k}")
    return [(st, NONE)]


def s_switch(I, st, env, node):
    u = I.fresh()
    r = mk("call", "rand_switch_on_window", env["self"], u)
    none = st.copy()
    I.event(none, "mcall", "rand_switch_on_window", recv=env["self"], args=dict(env), res=NONE, node=node)
    size = sym(f"size{u}", "int")
    start = sym(f"start{u}", "int")
    ev = mk("range", start, add(start, size), ONE)
    st.assume(le(ONE, size))
    st.assume(le(ZERO, start))
    I.event(st, "mcall", "rand_switch_on_window", recv=env["self"], args=dict(env), res=ev, node=node)
    from pyabs import models
    return [(st, models.new_nd(I, st, ev)), (none, NONE)]


def s_coinc(I, st, env, node):
    u = I.fresh()
    r = sym(f"coincidence{u}", "int")
    I.event(st, "mcall", "calc_coincident_switch_on", recv=env["self"],
            args={k: I.snap(st, v) for k, v in env.items()}, res=r, node=node)
    st.assume(le(ONE, r))
    return [(st, r)]


def s_update(I, st, env, node):
    I.event(st, "mcall", "update_daily_use", recv=env["self"],
            args={k: I.snap(st, v) for k, v in env.items()}, node=node)
    return [(st, NONE)]


def stubs():
    return {"Appliance.calc_rand_window": s_window, "Appliance.rand_total_time_of_use": s_randt,
            "Appliance.assign_random_cycles": s_cycles, "Appliance.rand_switch_on_window": s_switch,
            "Appliance.calc_coincident_switch_on": s_coinc, "Appliance.update_daily_use": s_update}


def gen_state(peak=True):
    st = St()
    return st


def run_gen(ctx, I, st):
    return ctx.run(I, "Appliance.generate_load_profile", st, [APP], {"prof_i": DAY, "peak_time_range": PEAK, "day_type": DTYPE, "power": POWER})


# ---------------------------------------------------------------- elements drawn from a list
FS = mk("attr", APP, "free_spots")


def spot(i):
    return mk("at", FS, i)


def sstart(i):
    return mk("attr", spot(i), "start")


def sstop(i):
    return mk("attr", spot(i), "stop")


def spots_type():
    ip.SCEN_FIELD_TY[("Appliance", "free_spots")] = "list:slice"
    tm.types_changed()


def spots_axiom(at):
    """every free range is a non empty range of minutes of the day"""
    if at.op == "attr" and at.a[1] in ("start", "stop") and at.a[0].op == "at" and at.a[0].a[0] is FS:
        s = at.a[0]
        a, b = mk("attr", s, "start"), mk("attr", s, "stop")
        return [le(ZERO, a), lt(a, b), le(b, const(1440))]
    return []


_SK = itertools.count(1)


def pick_alternatives(seg_or_seq, X, bound=None):
    """alternatives (facts, skolem indices) describing that X is an element of the sequence"""
    t = seg_or_seq
    if t.op in ("seq",):
        out = []
        for s in t.a:
            out += pick_alternatives(s, X)
        return out
    if t.op == "vec":
        return [([mk_eq(X, x)], []) for x in t.a]
    if t.op == "concat":
        out = []
        for s in t.a:
            out += pick_alternatives(mk("star", s), X)
        return out
    if t.op == "lit":
        return [([mk_eq(X, t.a[0])], [])]
    if t.op == "when":
        return [([t.a[0]] + f, i) for f, i in pick_alternatives(t.a[1], X)]
    if t.op == "for":
        lvl, n, body = t.a
        if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "lit":
            # the elements are the numbers from a bound on
            B = mk("b", lvl)
            rest = to_poly(body.a[0].a[0])
            co = rest.pop(((B, 1),), 0)
            rest = from_poly(rest)
            if co == 1 and not contains(rest, lambda q: q is B):
                return [([le(ZERO, sub(X, rest)), lt(sub(X, rest), n)], [])]
        b = sym(f"sk{next(_SK)}", "int")
        body = subst(body, {mk("b", lvl): b})
        return [([le(ZERO, b), lt(b, n)] + f, [b] + i) for f, i in pick_alternatives(body, X)]
    if t.op == "star":
        return pick_alternatives(t.a[0], X)
    if t.op == "range":
        a, b, s = t.a
        if s is ONE:
            return [([le(a, X), lt(X, b)], [])]
    return None


def mk_eq(x, y):
    return eq(x, y)


def instantiate(facts, idx, hook=None):
    """the facts, with the universal ones instantiated at the given indices"""
    out = []
    for f in facts:
        if f.op == "forall":
            lvl, n, body = f.a
            for i in idx:
                out.append(or_(lt(i, ZERO), le(n, i), subst(body, {mk("b", lvl): i})))
        else:
            out.append(f)
    # a sum of non negative terms is at least each of its terms
    for f in list(out):
        for s in subterms(f):
            if s.op == "sum":
                lvl, n, body = s.a
                for i in idx:
                    bi = subst(body, {mk("b", lvl): i})
                    G = Facts([x for x in out if x.op in ("le0", "lt0", "eq0") and x is not f])
                    m = {}
                    for q in subterms(bi):
                        if q.op == "ind":
                            if G.entails(q.a[0]):
                                m[q] = ONE
                            elif G.entails(not_(q.a[0])):
                                m[q] = ZERO
                    bi = subst(bi, m)
                    out.append(or_(lt(bi, ZERO), lt(i, ZERO), le(n, i), le(bi, s)))
    # the same for a combination of sums over one range, when its terms are known not to be negative
    for f in list(out):
        if f.op not in ("le0", "lt0", "eq0"):
            continue
        by = {}
        monos = list(to_poly(f.a[0]).items())
        for mono, co in monos:
            at = [x for x, e in mono if e == 1 and x.op == "sum"]
            if len(at) == 1:
                by.setdefault(at[0].a[1], []).append((mul(const(co), _prod(mono, at[0])), at[0]))
        for n, parts in by.items():
            if len(parts) < 2:
                continue
            # a term that does not depend on the index was summed up to a multiple of the length
            flat = [mul(const(co), _prod(mono, n)) for mono, co in monos if (n, 1) in mono and not any(x.op == "sum" for x, e in mono)]

            def term(i):
                return _addall([mul(co, subst(t.a[2], {mk("b", t.a[0]): i})) for co, t in parts] + flat)
            total = _addall([mul(co, t) for co, t in parts] + [mul(co, n) for co in flat])
            j = sym("anyterm", "int")
            base = [x for x in out if x.op in ("le0", "lt0", "eq0") and x is not f] + [le(ZERO, j), lt(j, n)]
            tj = term(j)
            if not decided_nonneg(base, tj, hook):
                continue
            for i in idx:
                ti = _settle(term(i), base, hook)
                out.append(or_(lt(i, ZERO), le(n, i), le(ti, total)))
    return out


def _prod(mono, but):
    r = ONE
    for x, e in mono:
        if x is not but:
            for _ in range(e):
                r = mul(r, x)
    return r


def _settle(t, facts, hook):
    """t with the conditions decided by the facts resolved"""
    F = Facts(facts, hook)
    m = {}
    for q in subterms(t):
        if q.op == "ind":
            if F.entails(q.a[0]):
                m[q] = ONE
            elif F.entails(not_(q.a[0])):
                m[q] = ZERO
    return subst(t, m)


def _addall(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def decided_nonneg(base, t, hook):
    """t >= 0 on all cases of the conditions in it"""
    inds = [q for q in subterms(t) if q.op == "ind"][:4]
    if not inds:
        return Facts(base, hook).entails(le(ZERO, t))
    q = inds[0]
    for c, v in ((q.a[0], ONE), (not_(q.a[0]), ZERO)):
        if not decided_nonneg(base + [c], subst(t, {q: v}), hook) and Facts(base + [c], hook).consistent():
            return False
    return True


def flatten_or(facts, hook):
    """resolve disjunctions whose other disjuncts are refuted"""
    out = []
    todo = list(facts)
    for _ in range(3):
        nxt = []
        for f in todo:
            if f.op == "and":
                out += flat_and(f)
            elif f.op == "or":
                F = Facts(out + [x for x in todo if x.op not in ("or", "forall")], hook)
                left = [x for x in f.a if not F.entails(not_(x))]
                if len(left) == 1:
                    out += flat_and(left[0])
                elif not left:
                    out.append(FALSE)
                else:
                    nxt.append(or_(*left))
            else:
                out.append(f)
        todo = nxt
    return out + todo


def skolem_cases(I, st, terms, idx=()):
    """states of an outcome with each element drawn from a list replaced by an arbitrary element of it:
    yields (facts, mapping, indices, picks) or None if a list is not understood"""
    picks = []
    for t in list(terms) + list(st.facts):
        for s in subterms(t):
            if s.op == "at" and s.a[1].op == "rnd" and s.a[0].op in ("seq", "vec", "concat", "range") and s not in picks and not s.bv:
                picks.append(s)
    cases = [(list(st.facts), {}, list(idx))]
    for n, p in enumerate(picks):
        X = sym(f"pick{next(_SK)}", "int")
        new = []
        for facts, m, ix in cases:
            L = subst(p.a[0], m)
            alts = pick_alternatives(L, X)
            if alts is None:
                return None, picks
            for f, i in alts:
                m2 = dict(m)
                m2[p] = X
                new.append((facts + f, m2, ix + i))
        cases = new
    out = []
    for facts, m, ix in cases:
        fs = [subst(f, m) for f in facts]
        more = list(ix)
        for f in fs:
            for s in subterms(f):
                if s.op == "at" and s.a[0] is FS and s.a[1].op in ("bv", "sym", "c") and s.a[1] not in more:
                    more.append(s.a[1])
        fs = flatten_or(instantiate(fs, more), I.axiom_hook)
        F = Facts(fs, I.axiom_hook)
        if FALSE in fs or not F.consistent():
            continue
        out.append((fs, m, more))
    return out, picks
