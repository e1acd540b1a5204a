"""Exact evaluation of closed calendar terms.

A term which depends on the year and on the month only is a function on (year, month); the Gregorian calendar repeats
every 400 years, so two such terms are equal for all years exactly if they are equal for the 400 years of one cycle.
Dates are numbers of minutes, as in the arithmetic of the interpreter."""
import calendar
import datetime
from fractions import Fraction as F

from pyabs.terms import T, is_num, is_const

DAY = 1440
CYCLE = range(2001, 2401)
DATES = ("datetime.date", "datetime.datetime", "pandas.Timestamp")


class Unknown(Exception):
    pass


class Fails(Exception):
    """the evaluated expression raises"""


def minutes(y, m, d, h=0, mi=0):
    if any(F(x).denominator != 1 for x in (y, m, d)):
        raise Fails()
    try:
        return F(datetime.date(int(y), int(m), int(d)).toordinal() * DAY + h * 60 + mi)
    except ValueError:
        raise Fails()


def as_date(v):
    if isinstance(v, bool) or v < DAY:
        raise Unknown()
    return datetime.date.fromordinal(int(v // DAY))


def call_args(t):
    return dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}


def ev(t, env):
    if not isinstance(t, T):
        raise Unknown()
    if t in env:
        return env[t]
    op = t.op
    if is_num(t):
        return F(t.a[1])
    if op == "c" and t.a[0] == "b":
        return t.a[1]
    if op == "poly":
        r = F(0)
        for mono, co in t.a[0]:
            x = F(co)
            for at, e in mono:
                v = F(ev(at, env))
                if e < 0 and v == 0:
                    raise Fails()
                x *= v ** e
            r += x
        return r
    if op in ("mod", "fdiv"):
        x, y = F(ev(t.a[0], env)), F(ev(t.a[1], env))
        if y == 0:
            raise Fails()
        return x % y if op == "mod" else F(x // y)
    if op == "max":
        return max(ev(x, env) for x in t.a)
    if op == "abs":
        return abs(ev(t.a[0], env))
    if op == "ind":
        return F(1 if ev(t.a[0], env) else 0)
    if op in ("int", "floor"):
        v = F(ev(t.a[0], env))
        return F(int(v)) if op == "int" else F(v // 1)
    if op in ("lt0", "le0", "eq0"):
        v = ev(t.a[0], env)
        return v < 0 if op == "lt0" else v <= 0 if op == "le0" else v == 0
    if op == "eq":
        return ev(t.a[0], env) == ev(t.a[1], env)
    if op == "not":
        return not ev(t.a[0], env)
    if op in ("and", "or"):
        r = op == "and"
        for x in t.a:
            if bool(ev(x, env)) != r:
                return not r
        return r
    if op == "ite":
        return ev(t.a[1] if ev(t.a[0], env) else t.a[2], env)
    if op == "in" and t.a[1].op in ("vec", "tuple", "set"):
        v = ev(t.a[0], env)
        return any(v == ev(x, env) for x in t.a[1].a)
    if op == "in" and t.a[1].op == "seq" and all(x.op == "lit" for x in t.a[1].a):
        v = ev(t.a[0], env)
        return any(v == ev(x.a[0], env) for x in t.a[1].a)
    if op == "at" and t.a[0].op in ("vec", "tuple", "seq"):
        xs = [x.a[0] if x.op == "lit" else x for x in t.a[0].a]
        if any(x.op in ("for", "many", "star") for x in t.a[0].a):
            raise Unknown()
        i = ev(t.a[1], env)
        if not -len(xs) <= i < len(xs):
            raise Fails()
        return ev(xs[int(i)], env)
    if op == "at" and t.a[0].op == "call" and t.a[0].a[0] == "calendar.monthrange":
        d = call_args(t.a[0])
        y, m = (d.get("year", d.get("0")), d.get("month", d.get("1")))
        if y is None or m is None:
            y, m = [d[k] for k in sorted(d)]
        y, m = ev(y, env), ev(m, env)
        if not 1 <= m <= 12 or F(y).denominator != 1 or F(m).denominator != 1:
            raise Fails()
        r = calendar.monthrange(int(y), int(m))
        i = int(ev(t.a[1], env))
        if not -2 <= i < 2:
            raise Fails()
        return F(r[i])
    if op == "attr":
        if t.a[1] in ("days_in_month", "daysinmonth") and t.a[0].op == "call" and t.a[0].a[0] in ("pandas.Period", "pandas.Timestamp"):
            d = call_args(t.a[0])
            v = d.get("value", d.get("ts_input", d.get("0")))
            if {"year", "month"} <= set(d):
                x = minutes(ev(d["year"], env), ev(d["month"], env), 1)
            elif v is not None:
                x = ev(v, env)
            else:
                raise Unknown()
            x = as_date(x)
            return F(calendar.monthrange(x.year, x.month)[1])
        v = ev(t.a[0], env)
        if t.a[1] == "days" and abs(v) < 400 * DAY:
            return F(v // DAY)
        if t.a[1] in ("year", "month", "day"):
            return F(getattr(as_date(v), t.a[1]))
        if t.a[1] in ("dayofyear", "day_of_year"):
            return F(as_date(v).timetuple().tm_yday)
        if t.a[1] in ("is_leap_year",):
            return calendar.isleap(as_date(v).year)
        if t.a[1] in ("days_in_month", "daysinmonth"):
            x = as_date(v)
            return F(calendar.monthrange(x.year, x.month)[1])
        raise Unknown()
    if op == "call":
        f = t.a[0]
        d = call_args(t)
        if f in DATES and {"year", "month", "day"} <= set(d) and set(d) <= {"year", "month", "day", "hour", "minute", "second", "microsecond"}:
            if any(ev(d[k], env) for k in ("second", "microsecond") if k in d):
                raise Unknown()
            return minutes(*[ev(d[k], env) for k in ("year", "month", "day")], *[ev(d[k], env) for k in ("hour", "minute") if k in d])
        if f == "calendar.isleap":
            return calendar.isleap(int(ev(next(iter(d.values())), env)))
        if f == ".weekday":
            return F(as_date(ev(t.a[1], env)).weekday())
        if f == ".weeks":
            return F((as_date(ev(t.a[1], env)).toordinal() - 1) // 7)
        if f == ".date":
            return F(ev(t.a[1], env) // DAY * DAY)
        if f == ".replace" and set(d) <= {"year", "month", "day"}:
            x = as_date(ev(t.a[1], env))
            return minutes(*[ev(d[k], env) if k in d else getattr(x, k) for k in ("year", "month", "day")])
        if f in ("builtins.int", "int") and len(d) == 1:
            return F(int(ev(next(iter(d.values())), env)))
    raise Unknown()


def val(t, env):
    """value, "raises" or None"""
    try:
        return ev(t, env)
    except Fails:
        return "raises"
    except Unknown:
        return None


def same_for_all_years(t, want, year, others=({},), guard=()):
    """is the term equal to want(year, env) for every year and every one of the other assignments which satisfy the guard?
    (verdict, text)"""
    for y in CYCLE:
        for env in others:
            e = dict(env)
            e[year] = F(y)
            gs = [val(g, e) for g in guard]
            if any(g is False for g in gs):
                continue
            v = val(t, e)
            if v is None or any(g is not True for g in gs):
                return None, ""
            w = want(y, env)
            if v != w:
                return False, f"in the year {y}"
    return True, ""
