"""C33: conversion of legacy input files; C37: nothing evaluates texts of the user; C42: bundled examples"""
import ast

from .r_cli import *

CONV_FUN = "ramp.ramp_convert_old_input_files.convert_old_user_input_file"
LINES = [sym(f"line{i}", "str") for i in range(3)]
OUT, SUFFIX = sym("output_path", "str"), sym("suffix", "str")
NEWIMP = "from ramp.core.core import"


def lit_state(s, want):
    """is the condition (a predicate on terms) assumed true / false on the path, or unknown"""
    for l in lits_of(s):
        ng = l.op == "not"
        x = l.a[0] if ng else l
        while x.op in ("truth", "b2i"):
            x = x.a[0]
        if want(x):
            return not ng
    return None


def legacy(s, l):
    """does the path assume that the line holds a legacy import"""
    out = []
    for f in s.facts:
        for x in flat_and(f):
            ng = x.op == "not"
            y = x.a[0] if ng else x
            if y.op == "in" and y.a[1] is l and is_str(y.a[0]):
                out.append((y.a[0].a[1], not ng))
            elif y.op in ("truth",) and y.a[0].op == "call" and y.a[0].a[0] in (".startswith", ".find") and y.a[0].a[1] is l:
                out.append((None, None))
    return out


def markers(s):
    """constant texts which are compared with whole lines, or looked for in the file: {text: assumed present}"""
    out, seen = {}, {}
    for f in s.facts:
        for x in flat_and(f):
            ng = x.op == "not"
            y = x.a[0] if ng else x
            opts = list(y.a) if y.op == "or" else [y]
            for z in opts:
                if z.op in ("eq", "aeq") and any(l in z.a for l in LINES):
                    t = [q for q in z.a if is_str(q)]
                    if t:
                        m = (t[0].a[1], "line")
                        out[m] = not ng or out.get(m, False)
                        seen.setdefault(m, set()).update(l for l in LINES if l in z.a)
                elif z.op == "in" and is_str(z.a[0]) and z.a[0].a[1].lstrip().startswith("#"):
                    m = (z.a[0].a[1], "part")
                    out[m] = not ng or out.get(m, False)
                    seen.setdefault(m, set()).update(l for l in LINES if l in subterms(z.a[1]))
                    if not any(l in subterms(z.a[1]) for l in LINES):
                        seen[m] |= set(LINES)
    return out, seen


def file_ops(I, s):
    """(mode, path, kind, value, event) of what is written to files, in order"""
    out = []
    for e in flat_events(s.events):
        if e.kind == "mcall" and e.name in ("write", "writelines", "truncate", "write_text", "seek"):
            r = I.snap(s, e.recv) if isinstance(e.recv, T) else None
            mode, path = None, None
            if r is not None and r.op == "call" and r.a[0] == "builtins.open":
                d = dict(r.a[2])
                mode, path = d.get("mode", const("r")), d.get("file")
            v = I.snap(s, e.args.get("0", NONE)) if isinstance(e.args.get("0", NONE), T) else NONE
            out.append((mode.a[1] if mode is not None and is_str(mode) else None, path, e.name, v, e))
    return out


def text_lines(kind, v):
    """lines written, or None"""
    if kind == "writelines":
        if v.op in ("vec", "tuple"):
            return list(v.a)
        if v.op == "seq" and all(x.op == "lit" for x in v.a):
            return [x.a[0] for x in v.a]
        return None
    if v.op == "strcat":
        return list(v.a)
    if v.op == "call" and v.a[0] == ".join":
        x = dict(v.a[2]).get("iterable")
        if v.a[1] is const("") and x is not None:
            return text_lines("writelines", x)
    return None


ALTERS = (".strip", ".rstrip", ".lstrip", ".lower", ".upper", ".title", ".expandtabs", ".capitalize", ".swapcase", ".zfill")


def replaced_ok(v, l, pat):
    """is v the line l with its legacy import replaced: True / False / None"""
    if v.op == "call" and v.a[0] == ".replace" and v.a[1] is l:
        d = dict(v.a[2])
        o, n = d.get("old"), d.get("new")
        if o is not None and n is not None and is_str(o) and is_str(n):
            if "count" in d:
                return None
            if o.a[1] == pat and n.a[1] == pat.replace("from core import", NEWIMP):
                return True
            if o.a[1].strip() == "from core import" and n.a[1].strip() == NEWIMP and o.a[1] == n.a[1].replace(NEWIMP, "from core import"):
                return True
            return None if NEWIMP in n.a[1] and "core" in o.a[1] and o.a[1] in pat and o.a[1] != pat and "from core import" not in o.a[1] else False
        return None
    if any(x.op == "call" and x.a[0] in ALTERS and l in subterms(x) and not (x.a[0] == ".rstrip" and any(is_str(y) for y in call_args(x))) for x in subterms(v)):
        return False
    if v is l:
        return False
    return None if weak(v) and not is_str(v) else False


def convert(c, out, suffix, keep, files="lines"):
    def readlines(I, st, b, a, k, node):
        return [(st, I.new_list(st, PAD[0] + LINES + PAD[1]))]

    def read(I, st, b, a, k, node):
        return [(st, sym("text", "str"))]

    I = c.interp({"m:readlines": readlines, "UseCase": log_stub("UseCase", UCS), "UseCase.save": log_stub("save"), "UseCase.export_to_dataframe": log_stub("export")})
    kw = {"output_path": out, "suffix": suffix, "keep_names": keep}
    return I, list(c.run(I, CONV_FUN, St(), [PF], kw))


# further lines in front of LINES and behind them, needed where a constant of the code bounds the lines looked at
PAD = [[], []]


def o_convert_sized(c):
    c.clip = 0
    o_convert(c, None)
    n = c.clip
    if n:
        other = [const(f"x{i} = {i}\n") for i in range(n + 1)]
        for pad in ([other, []], [[], other]):
            PAD[:] = pad
            try:
                o_convert(c, None)
            finally:
                PAD[:] = [[], []]


def o_convert(c, which):
    con = CONV_FUN
    for out in (OUT, NONE):
        for keep in (TRUE, FALSE):
            with c.ob("conversion", con):
                I, outs = convert(c, out, SUFFIX, keep)
                where = c.where(I, con)
                nm = f"names {'kept' if keep is TRUE else 'not kept'}, output folder {'given' if out is OUT else 'not given'}"
                good = 0
                for s in outs:
                    r = raised(I, s)
                    if r:
                        c.judge(None if st_weak(s) else False, "conversion", where, f"({nm}) raises {r} under {fact_text(s)}")
                        continue
                    good += 1
                    judge_rewrite(c, I, s, keep, where, nm)
                    judge_export(c, I, s, out, where, nm)
                if not good:
                    c.judge(None, "conversion", where, f"({nm}) never returns")


def judge_rewrite(c, I, s, keep, where, nm):
    ops = file_ops(I, s)
    evs = flat_events(s.events)
    evs = list(evs)
    runs = [i for i, e in enumerate(evs) if e.kind == "mcall" and e.name in ("exec_module", "load_module") or e.kind == "call" and e.name in ("importlib.import_module", "runpy.run_path", "builtins.__import__", "builtins.exec")]
    leg = [legacy(s, l) for l in LINES]
    unknown = any(not x for x in leg)
    pats = {p for x in leg for p, v in x if p}
    has = [any(v for p, v in x) for x in leg]
    for p in pats:
        c.check(p not in NEWIMP and not (p in NEWIMP), "conversion-is-idempotent", where, f"({nm}) the new import is again taken for a legacy one ({p!r})")
    content, handle = None, None
    appended = []
    for mode, path, kind, v, e in ops:
        if path is not PF:
            c.judge(None if path is None or weak(path) else False, "only-the-input-file-is-written", where, f"({nm}) {kind} to {show(path)[:80] if path is not None else '?'}")
            continue
        if runs:
            c.check(evs.index(e) < runs[0], "rewritten-before-it-is-run", where, f"({nm}) the file is written after it was run")
        if mode in ("w", "wt", "w+", "wt+", "r+"):
            if appended:
                c.bad("naming-code-kept", where, f"({nm}) the naming code is overwritten")
            new = text_lines(kind, v)
            if new is None and kind == "write" and (is_str(v) or any(l in subterms(v) for l in LINES)):
                new = [v]
            if new is None:
                if v.op in ("sorted", "reversed") or v.op == "call" and v.a[0] in ("builtins.sorted", "builtins.reversed", "builtins.set"):
                    c.bad("other-lines-unchanged", where, f"({nm}) the lines are put in another order")
                    return
                c.undec("other-lines-unchanged", where, f"({nm}) writes {show(v)[:150]}")
                return
            content = content + new if content is not None and e.recv is handle else new
            handle = e.recv
        elif mode in ("a", "at", "a+"):
            appended.append(v)
        else:
            c.undec("other-lines-unchanged", where, f"({nm}) {kind} with mode {mode}")
    # lines
    if content is not None and (PAD[0] or PAD[1]):
        n, m = len(PAD[0]), len(content) - len(PAD[1])
        if content[:n] != PAD[0] or content[m:] != PAD[1]:
            c.judge(None if any(weak(x) for x in content[:n] + content[m:]) else False, "other-lines-unchanged", where, f"({nm}) lines without an import change")
            return
        content = content[n:m]
    if content is None:
        if unknown and not pats:
            c.judge(False if PAD[0] or PAD[1] else None, "legacy-import-replaced", where, f"({nm}) legacy imports are not looked for in all the lines")
        else:
            c.check(not any(has), "legacy-import-replaced", where, f"({nm}) a legacy import is left in the file")
    else:
        extra = content[len(LINES):]
        if len(content) < len(LINES):
            c.bad("other-lines-unchanged", where, f"({nm}) {len(content)} of {len(LINES)} lines are written")
            return
        for l, v, x, h in zip(LINES, content, leg, has):
            p = next((q for q, t in x if t and q is not None), None)
            if v is l:
                c.check(not h, "legacy-import-replaced", where, f"({nm}) a legacy import is left in the file")
            elif h:
                c.judge(replaced_ok(v, l, p), "legacy-import-replaced", where, f"({nm}) the legacy import becomes {show(v)[:150]}")
            elif x:
                # no legacy import in this line: only a replacement of the same text, which changes nothing
                if any(q is None for q, t in x):
                    c.undec("other-lines-unchanged", where, f"({nm}) a line recognised by something else becomes {show(v)[:150]}")
                    continue
                o = dict(v.a[2]).get("old") if v.op == "call" and v.a[0] == ".replace" and v.a[1] is l else None
                c.judge((o is not None and is_str(o) and any(o.a[1] == q or q in o.a[1] for q, t in x)) or (None if weak(v) and o is None and l in subterms(v) and v.a[0] not in ALTERS else False), "other-lines-unchanged", where, f"({nm}) another line becomes {show(v)[:150]}")
            else:
                c.judge(replaced_ok(v, l, "from core import"), "legacy-import-replaced", where, f"({nm}) a line becomes {show(v)[:150]}")
        appended = extra + appended
    # naming code
    mk_, looked = markers(s)
    if keep is FALSE:
        c.check(not appended, "naming-code-only-on-demand", where, f"({nm}) the naming code is added")
        return
    if any(mk_.values()):
        c.check(not appended, "conversion-is-idempotent", where, f"({nm}) the naming code is added again")
        return
    if not appended:
        c.judge(False if mk_ or not lits_of(s) else None, "naming-code-added", where, f"({nm}) the naming code is not added under {fact_text(s)}")
        return
    if not mk_:
        opaque = any(l.op == "truth" or l.op == "in" and not (is_str(l.a[0]) and l.a[1] in LINES) for l in lits_of(s))
        c.judge(None if opaque else False, "conversion-is-idempotent", where, f"({nm}) the naming code is added without looking for it")
        return
    c.check(len(appended) == 1, "naming-code-added", where, f"({nm}) {len(appended)} texts are appended")
    v = appended[0]
    if not is_str(v):
        c.judge(None if weak(v) or v.op == "strcat" else False, "naming-code-added", where, f"({nm}) appends {show(v)[:100]}")
        return
    text = v.a[1]
    for (m, kind), present in mk_.items():
        ok = m in text.splitlines(True) if kind == "line" else m in text
        c.check(ok, "conversion-is-idempotent", where, f"({nm}) the naming code does not contain the {'line' if kind == 'line' else 'text'} it is recognised by ({m!r})")
        c.check(looked[(m, kind)] >= set(LINES), "conversion-is-idempotent", where, f"({nm}) the naming code is only looked for in some of the lines")
    c.check(text.startswith("\n"), "naming-code-on-its-own-lines", where, f"({nm}) the naming code continues the last line of the file")
    judge_code(c, text, where, nm)


def judge_code(c, text, where, nm):
    """the added code gives each appliance the name of its variable (read from its syntax tree)"""
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        c.bad("naming-code-valid", where, f"({nm}) {e}")
        return
    apps = [sym("named_app0", "obj:Appliance"), sym("named_app1", "obj:Appliance")]
    us = sym("some_user", "obj:User")
    want = [("A_1", apps[0]), ("U", us), ("B_2", apps[1])]
    name = "ramp._added_naming_code"
    src = "def code():\n" + "".join("    " + l for l in text.splitlines(True)) + "\n    pass\n"

    def scope(I, st, d, node):
        return [(st, I.new_dict(st, [(const(k), v) for k, v in want]))]
    stubs = {"ext:builtins.locals": scope, "ext:builtins.globals": scope, "ext:builtins.vars": scope}
    from pyabs.interp import Module
    try:
        I = c.interp(stubs)
        I.repo.modules[name] = Module(name, "added code", src)
        outs = list(I.run(name + ".code", St(), []))
    except Exception as e:
        c.undec("naming-code-names-the-appliances", where, f"({nm}) {type(e).__name__} {e}"[:200])
        return
    finally:
        I.repo.modules.pop(name, None)
    for s in outs:
        if raised(I, s):
            c.judge(None if st_weak(s) else False, "naming-code-names-the-appliances", where, f"({nm}) the added code raises {raised(I, s)} under {fact_text(s)}")
            continue
        for k, v in want:
            if v is us:
                continue
            g = s.fields.get((v, "name"))
            fam = any(n == "name" for n in getattr(s, "families", {}) or ())
            c.judge(g is const(k) or (None if g is not None and weak(g) or fam else False), "naming-code-names-the-appliances", where,
                    f"({nm}) the appliance of the variable {k} " + (f"is named {show(g)[:80]}" if g is not None else "keeps its name") + f" under {fact_text(s)}")


def judge_export(c, I, s, out, where, nm):
    evs = list(flat_events(s.events))
    uc, sv = called(s, "UseCase"), called(s, "save")
    bad = [e for e in evs if e.kind == "call" and e.name in ("importlib.import_module", "builtins.__import__")]
    for e in bad:
        c.bad("users-of-that-very-file", f"{where.rsplit(':', 1)[0]}:{e.line}", f"({nm}) the file is imported by its name: another module of this name may be taken")
    if len(sv) != 1 or len(uc) != 1:
        wrote = any(e.kind == "mcall" and e.name == "to_excel" for e in evs)
        c.judge(None if wrote else False, "exported", where, f"({nm}) {len(sv)} exports of {len(uc)} use cases")
        return
    us = uc[0].args.get("users", NONE)
    specs = [x for x in subterms(us) if x.op == "call" and x.a[0] in ("importlib.util.spec_from_file_location", "importlib.machinery.SourceFileLoader")]
    rp = [x for x in subterms(us) if x.op == "call" and x.a[0] == "runpy.run_path"]
    if specs or rp:
        for x in specs + rp:
            d = dict(x.a[2])
            loc = d.get("location", d.get("path", d.get("path_name", d.get("1", d.get("0")))))
            c.judge(loc is PF or (None if loc is not None and PF in subterms(loc) and loc.op == "call" and loc.a[0] in ("os.path.abspath", "os.path.realpath") else False), "users-of-that-very-file", where, f"({nm}) runs {show(loc)[:100] if loc is not None else None}")
        ul = us.op == "attr" and us.a[1] == "User_list" or us.op == "at" and us.a[1] is const("User_list")
        c.judge(ul or (None if weak(us) and us.op not in ("slice", "getslice", "sorted", "reversed") and not is_slice(us) and not (us.op == "attr") else False), "all-users-exported", where, f"({nm}) exports {show(us)[:100]}")
        if specs:
            ran = [e for e in evs if e.kind == "mcall" and e.name in ("exec_module", "load_module")]
            c.judge(bool(ran) or None, "users-of-that-very-file", where, f"({nm}) the file is not run")
    elif not bad:
        c.judge(None if weak(us) else False, "users-of-that-very-file", where, f"({nm}) exports {show(us)[:100]}")
    p = sv[0].args.get("filename", NONE)
    judge_outname(c, p, out, where, nm)


def is_slice(t):
    """part of another value (not the whole of it)"""
    return t.op == "slice" or t.op in ("at", "getitem") and len(t.a) > 1 and isinstance(t.a[1], T) and (t.a[1].op == "slice" or is_num(t.a[1]))


def judge_outname(c, p, out, where, nm):
    folder = OUT if out is OUT else None
    if p.op == "call" and p.a[0] == "os.path.join":
        d = dict(p.a[2])
        ks = sorted(d)
        parts = [d[k] for k in ks]
        f, rest = parts[0], parts[1:]
    elif p.op == "strcat":
        seps = [i for i, x in enumerate(p.a) if is_str(x) and x.a[1].startswith("/") or x.op == "ext" and x.a[0] in ("os.sep", "os.path.sep")]
        if not seps or seps[0] != 1:
            c.judge(None if weak(p) else False, "given-output-folder", where, f"({nm}) exported to {show(p)[:150]}")
            return
        f, rest = p.a[0], [mk("strcat", *p.a[2:])] if len(p.a) > 3 else [p.a[2]] if len(p.a) == 3 else [p]
    elif p is PF or p.op in ("slice", "at") or p.op == "call" and p.a[0] == ".replace":
        c.judge(False if out is OUT and OUT not in subterms(p) else None, "given-output-folder", where, f"({nm}) exported to {show(p)[:150]}")
        return
    else:
        c.judge(False if out is OUT and OUT not in subterms(p) else None, "given-output-folder", where, f"({nm}) exported to {show(p)[:150]}")
        return
    if out is OUT:
        c.judge(f is OUT or (None if OUT in subterms(f) and f.op == "call" and f.a[0] in ("os.path.abspath", "os.path.expanduser", "os.path.normpath") else False), "given-output-folder", where, f"({nm}) exported to {show(p)[:150]}")
    else:
        base = f
        while base.op == "call" and base.a[0] in ("os.path.abspath", "os.path.realpath", "os.path.normpath"):
            base = next((v for _, v in base.a[2]), base.a[1])
        own = is_dirname(base)
        c.judge(own or (None if weak(base) and base.op != "ext" and PF in subterms(base) and base is not PF else False), "folder-of-the-input-file-by-default", where, f"({nm}) exported to {show(p)[:150]}")
    if len(rest) != 1:
        c.judge(None if not any(is_str(x) for x in rest) else False, "name-of-the-input-file", where, f"({nm}) exported to {show(p)[:150]}")
        return
    r = rest[0]
    if r.op == "strcat":
        r = mk("strcat", *[x.a[0] if x.op == "fmt" and len(x.a) == 1 or x.op == "tostr" else x for x in r.a])
    if SUFFIX not in subterms(r):
        c.judge(False, "suffix-appended", where, f"({nm}) exported as {show(r)[:150]}")
        return
    stem = None
    if r.op == "strcat" and len(r.a) == 2 and r.a[1] is SUFFIX:
        stem = r.a[0]
    elif r.op == "poly":
        parts = [x for x in subterms(r) if x is SUFFIX]
        others = [m for m in r.a if True]
        rest_ = sub(r, SUFFIX)
        stem = rest_ if SUFFIX not in subterms(rest_) else None
    elif r.op == "strcat" and len(r.a) == 2 and r.a[0] is SUFFIX:
        c.bad("suffix-appended", where, f"({nm}) exported as {show(r)[:150]}")
        return
    elif r.op == "strcat" and len(r.a) == 3 and r.a[1] is SUFFIX and is_str(r.a[2]):
        # the export adds the type
        c.bad("suffix-appended", where, f"({nm}) exported as {show(r)[:150]}")
        return
    if stem is None:
        rep = [x for x in subterms(r) if x.op == "call" and x.a[0] == ".replace" and const(".py") in [v for _, v in x.a[2]]]
        c.judge(False if rep and SUFFIX in subterms(rep[0]) else None, "name-without-type", where, f"({nm}) exported as {show(r)[:150]}")
        return
    c.judge(is_stem(stem), "name-without-type", where, f"({nm}) exported as {show(stem)[:150]}")


def is_dirname(t):
    if t.op == "call" and t.a[0] == "os.path.dirname":
        x = next((v for _, v in t.a[2]), None)
        while x is not None and x.op == "call" and x.a[0] in ("os.path.abspath", "os.path.realpath"):
            x = next((v for _, v in x.a[2]), None)
        return x is PF
    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] == "os.path.split" and t.a[1] is ZERO:
        return PF in subterms(t)
    if t.op == "attr" and t.a[1] == "parent":
        return PF in subterms(t) or None
    return False


def is_basename(t):
    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] in ("os.path.split", ".split", ".rsplit") and t.a[1] in (const(-1), ONE):
        if t.a[1] is ONE and t.a[0].a[0] == ".split":
            return None
        sep = [v for z in t.a[0].a[2:] for _, v in z]
        if t.a[0].a[0] != "os.path.split" and not any(v.op == "ext" and v.a[0] in ("os.sep", "os.path.sep") or v is const("/") for v in sep):
            return False
        return PF in (t.a[0].a[1], *sep)
    if t.op == "attr" and t.a[1] == "name":
        return PF in subterms(t) or None
    return None


def is_stem(t):
    """the name of the input file without its type: True / False / None"""
    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] == "os.path.splitext":
        if t.a[1] is not ZERO:
            return False
        x = next((v for _, v in t.a[0].a[2]), None)
        if x is PF:
            return False  # with its folder
        return is_basename(x) if x is not None else None
    if t.op == "attr" and t.a[1] == "stem":
        return PF in subterms(t) or None
    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] in (".rsplit", ".rpartition") and t.a[1] is ZERO and const(".") in [v for z in t.a[0].a[2:] for _, v in z]:
        b = t.a[0].a[1]
        return is_basename(b) if isinstance(b, T) else None
    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] in (".split", ".partition") and t.a[1] is ZERO and (const(".") in [v for z in t.a[0].a[2:] for _, v in z] or const(".py") in [v for z in t.a[0].a[2:] for _, v in z]):
        return False
    if t.op == "slice" and const(-3) in t.a:
        return is_basename(t.a[0]) or None
    if t.op == "call" and t.a[0] == ".removesuffix":
        return is_basename(t.a[1])
    if t.op == "call" and t.a[0] == ".replace":
        return False  # every occurrence
    if t.op == "call" and t.a[0] in (".strip", ".rstrip"):
        return False
    if is_basename(t) is True or t is PF:
        return False
    return None


def o_conv_options(c):
    """the options of the converter, read from the syntax tree of its module"""
    con = "ramp.ramp_convert_old_input_files.cli"
    with c.ob("options", con):
        where = c.where(c.interp({}), con)
        o = options(c, "ramp.ramp_convert_old_input_files")
        if "-i" in o:
            na = o["-i"].get("nargs")
            c.judge(isinstance(na, ast.Constant) and na.value in ("+", "*") or (None if na is not None and not isinstance(na, ast.Constant) else False), "options", where, "-i does not take a list of files")
        for f, want in (("-i", None), ("-o", None), ("--suffix", "")):
            if f in o:
                d = o[f].get("default")
                c.judge((d is None and want is None) or isinstance(d, ast.Constant) and d.value == want or (None if d is not None and not isinstance(d, ast.Constant) else False), "options", where,
                        f"{f} has the default {ast.unparse(d) if d is not None else None}")
                ty_ = o[f].get("type")
                c.judge(ty_ is None or isinstance(ty_, ast.Name) and ty_.id == "str" or (False if isinstance(ty_, ast.Name) and ty_.id in ("int", "float", "bool") else None), "options", where,
                        f"{f} is not a text")


def o_conv_cli(c):
    con = "ramp.ramp_convert_old_input_files.cli"
    args = {"fname_path": [sym("f0", "str"), sym("f1", "str")], "output_path": OUT, "suffix": SUFFIX}
    with c.ob("every-file-converted", con):
        st = St()

        def parse(I, st, base, a, kw, node):
            return [(st, NSP)]

        def vars_(I, st, d, node):
            return [(st, st.fields[(NSP, "__dict__")])]
        I = c.interp({"m:parse_args": parse, "ext:builtins.vars": vars_, CONV_FUN: log_stub("convert")})
        v = {k: I.new_list(st, x) if isinstance(x, list) else x for k, x in args.items()}
        for k, x in v.items():
            st.fields[(NSP, k)] = x
        st.fields[(NSP, "__dict__")] = I.new_dict(st, [(const(k), x) for k, x in v.items()])
        where = c.where(I, con)
        for s in c.run(I, con, st, []):
            r = raised(I, s)
            if r:
                c.judge(None if st_weak(s) else False, "every-file-converted", where, f"raises {r}")
                continue
            R = called(s, "convert")
            if len(R) != 2:
                c.judge(False if len(R) < 2 and not any(e.loops for e in R) else None, "every-file-converted", where, f"{len(R)} conversions of 2 files")
                continue
            for i, e in enumerate(R):
                for k, w in (("fname_path", args["fname_path"][i]), ("output_path", OUT), ("suffix", SUFFIX)):
                    g = e.args.get(k, NONE)
                    c.judge(g is w or (None if weak(g) else False), "every-file-converted", where, f"{k} of conversion {i} is {show(g)[:80]}")
                g = e.args.get("keep_names", TRUE)
                c.judge(g is TRUE or (None if weak(g) else False), "names-kept-by-default", where, f"keep_names is {show(g)[:60]}")


@rule("C33", 40, "Conversion of legacy input files is idempotent and keeps the names", "abstract interpretation of the conversion for a file of three arbitrary lines: what is written to the file on each path, which file is run, where the users are exported",
      "files of three lines (each line is treated alike); importlib runs the file at the given location; UseCase.save is checked by C24-C27.")
def c33(c):
    o_convert_sized(c)
    o_conv_options(c)
    o_conv_cli(c)


# ---------------------------------------------------------------- C42
EXF = "ramp.example.examples"
DEST = sym("destination", "str")
COPY = {"shutil.copyfile", "shutil.copy", "shutil.copy2", "shutil.copyfileobj", "shutil.move", "os.rename", "os.replace", "os.link", "os.symlink"}
READ = {"pandas.read_csv": "filepath_or_buffer", "pandas.read_excel": "io", "pandas.read_table": "filepath_or_buffer", "builtins.open": "file", "numpy.loadtxt": "fname", "numpy.genfromtxt": "fname", "pandas.read_json": "path_or_buf"}
DATA_EXT = (".csv", ".xlsx", ".xls", ".txt", ".json", ".npy", ".dat", ".tsv")


def static_path(c, t):
    """the text a path term denotes, with the files of the package at their place in the tree (None if unknown)"""
    t_ = t
    if not isinstance(t, T):
        return None
    if is_str(t):
        return t.a[1]
    if t is DEST:
        return "\0DEST"
    if t.op == "sym" and str(t.a[0]).startswith("__file__("):
        m = c.repo.modules.get(str(t.a[0])[9:-1])
        return m.path if m is not None else None
    if t.op == "ext" and t.a[0] in ("os.sep", "os.path.sep"):
        return "/"
    if t.op in ("fmt", "tostr") and t.a and isinstance(t.a[0], T):
        return static_path(c, t.a[0])
    if t.op == "strcat":
        ps = [static_path(c, x) for x in t.a]
        return None if None in ps else "".join(ps)
    if t.op == "attr" and t.a[1] == "parent":
        x = static_path(c, t.a[0])
        return os.path.dirname(x) if x else None
    if t.op == "attr" and t.a[1] == "name":
        x = static_path(c, t.a[0])
        return os.path.basename(x) if x else None
    if t.op == "call":
        args = [v for _, v in sorted(t.a[2], key=lambda kv: str(kv[0]))] if len(t.a) > 2 else []
        ps = [static_path(c, x) for x in args]
        if t.a[0] in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser", "pathlib.Path", "builtins.str", "os.fspath") and len(ps) == 1:
            return ps[0]
        if None in ps:
            return None
        if t.a[0] == "os.path.join":
            return os.path.join(*ps) if ps else None
        if t.a[0] == "os.path.dirname" and ps:
            return os.path.dirname(ps[0])
        if t.a[0] == "os.path.basename" and ps:
            return os.path.basename(ps[0])
        if t.a[0] == "pathlib.Path" and ps:
            return os.path.join(*ps)
        if t.a[0] in (".resolve", ".absolute", ".joinpath"):
            b = static_path(c, t.a[1])
            return None if b is None else os.path.join(b, *ps) if t.a[0] == ".joinpath" else b
    if t.op in ("div", "truediv", "aop") or t.op == "/":
        xs = [static_path(c, x) for x in t.a if isinstance(x, T)]
        return os.path.join(*xs) if len(xs) == 2 and None not in xs else None
    return None


def ev_arg(e, *names):
    for n in names:
        if n in e.args:
            return e.args[n]
    return None


def rel(c, p):
    return os.path.relpath(p, c.root) if p else p


def copied_for_sure(evs):
    """copies which are made on every path"""
    out = []
    for e in evs:
        if e.kind == "if":
            bs = [copied_for_sure(b) for b in e.sub]
            out += [x for x in bs[0] if all(any(y.args == x.args for y in b) for b in bs[1:])]
        elif e.kind in ("loop", "loopexit"):
            out += copied_for_sure(e.sub)
        elif e.kind == "call" and e.name in COPY:
            out.append(e)
    return out


def example_reads(c, modname):
    """outcomes of the definitions of an example: [(state, [(path term, line)])]"""
    from pyabs.interp import FuncInfo

    def mkobj(cl):
        def f(I, st, d, node):
            return [(st, sym(f"{cl}@{getattr(node, 'lineno', 0)}", "obj:" + cl))]
        return f

    def nop(I, st, d, node):
        return [(st, NONE)]
    reads = []

    def reader(name):
        def f(I, st, d, node):
            p = d.get(READ[name], d.get("0"))
            reads.append((name, p, getattr(node, "lineno", 0)))
            return [(st, sym(f"data@{getattr(node, 'lineno', 0)}", "ext:pandas.DataFrame"))]
        return f

    def bundled(I, st, d, node):
        reads.append(("load_data", next(iter(d.values()), NONE), getattr(node, "lineno", 0)))
        return [(st, sym("bundled", "ext:pandas.DataFrame"))]
    stubs = {"User": mkobj("User"), "User.add_appliance": mkobj("Appliance"), "User.Appliance": mkobj("Appliance"), "Appliance": mkobj("Appliance"),
             EXF + ".load_data": bundled}
    stubs.update({f"Appliance.{k}": nop for k in ("windows", "cycle_behaviour", "specific_cycle", "specific_cycle_1", "specific_cycle_2", "specific_cycle_3")})
    stubs.update({"ext:" + k: reader(k) for k in READ})
    I = c.interp(stubs)
    m = c.repo.modules[modname]
    st = St()
    st.env = {"__name__": const(m.name), "__file__": sym(f"__file__({modname})", "str")}
    keep, stack = m.globals, I.stack
    m.globals = st.env
    I.stack = [FuncInfo(m.tree, m, None, f"<module {modname}>")]
    try:
        outs = list(I.exec_block(m.tree.body, st))
    finally:
        I.stack, m.globals = stack, keep
    c.analysed[f"<module {modname}>"] = len(outs)
    c.outcomes += len(outs)
    return outs, reads


def o_examples(c):
    con = EXF + ".download_example"
    folder = os.path.join(c.root, "ramp", "example")
    present = sorted(f for f in os.listdir(folder) if os.path.isfile(os.path.join(folder, f)))
    inputs = [f for f in present if re.fullmatch(r"input_file_\w+\.py", f)]
    needed = {f: "an example input file" for f in inputs}
    for f in inputs:
        mod = "ramp.example." + f[:-3]
        with c.ob("examples-read-their-own-folder", mod):
            outs, reads = example_reads(c, mod)
            where = f"ramp/example/{f}"
            for s in outs:
                c.judge(not raised(c.I, s) or (None if st_weak(s) else False), "examples-define-users", where, f"raises {raised(c.I, s)}")
                if not raised(c.I, s):
                    ul = c.I.snap(s, s.env.get("User_list", NONE))
                    n = len(ul.a) if ul.op == "vec" else 1 if ul.op == "seq" and ul.a else 0 if ul.op == "seq" or ul is NONE else None
                    c.judge(None if n is None else n > 0, "examples-define-users", where, f"User_list is {show(ul)[:100]}")
            for name, p, line in reads:
                w = f"{where}:{line}"
                if name == "load_data":
                    c.ok("examples-read-their-own-folder", w)
                    continue
                x = static_path(c, p)
                if x is None:
                    c.undec("examples-read-their-own-folder", w, f"reads {show(p)[:150]}")
                    continue
                c.check(os.path.isabs(x) and os.path.dirname(x) == os.path.join(folder), "examples-read-their-own-folder", f"{where}:{x}", f"line {line} reads {x!r} relative to the current folder or elsewhere")
                c.check(os.path.exists(os.path.join(folder, os.path.basename(x))), "data-files-exist", w, f"{os.path.basename(x)} does not exist")
                needed[os.path.basename(x)] = f"read by {f}"
    # data files which are mentioned anywhere in the examples
    for f in inputs:
        for n in ast.walk(c.repo.modules["ramp.example." + f[:-3]].tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith(DATA_EXT) and os.path.basename(n.value) in present:
                needed.setdefault(os.path.basename(n.value), f"mentioned in {f}")
    with c.ob("every-example-file-copied", con):
        def listing(I, st, d, node):
            p = static_path(c, next(iter(d.values()), NONE))
            if p is None or not os.path.isdir(p):
                return None
            return [(st, I.new_list(st, [const(x) for x in sorted(os.listdir(p)) if x != "__pycache__"]))]
        log = {}

        def copier(name):
            def f(I, st, d, node):
                I.event(st, "call", name, args=dict(d), node=node)
                return [(st, NONE)]
            return f
        I = c.interp({"ext:os.listdir": listing, **{"ext:" + k: copier(k) for k in COPY}})
        where = c.where(I, con)
        for s in c.run(I, con, St(), [DEST]):
            r = raised(I, s)
            if r:
                c.judge(None if st_weak(s) or lits_of(s) else False, "every-example-file-copied", where, f"raises {r} under {fact_text(s)}")
                continue
            got, opaque = {}, False
            for e in flat_events(s.events):
                if e.kind == "mcall" and e.name in ("write", "write_text", "write_bytes") or e.kind == "call" and e.name in ("shutil.copytree", "distutils.dir_util.copy_tree"):
                    opaque = True
                if e.kind != "call" or e.name not in COPY:
                    continue
                if e.loops:
                    opaque = True
                    continue
                if e.name in ("shutil.move", "os.rename", "os.replace"):
                    c.bad("package-files-stay", f"{where.rsplit(':', 1)[0]}:{e.line}", "the files of the package are moved away")
                src, dst = static_path(c, I.snap(s, ev_arg(e, "src", "0"))), static_path(c, I.snap(s, ev_arg(e, "dst", "1")))
                w = f"{where.rsplit(':', 1)[0]}:{e.line}"
                if src is None or dst is None:
                    opaque = True
                    c.undec("copied-under-the-same-name", w, f"copies {show(I.snap(s, ev_arg(e, 'src', '0')))[:100]}")
                    continue
                c.check(os.path.isfile(src), "copied-files-exist", w, f"{rel(c, src)} does not exist")
                name = os.path.basename(src)
                full = dst if os.path.basename(dst) not in ("", "\0DEST") else os.path.join(dst, name) if e.name != "shutil.copyfile" else dst
                c.check(os.path.normpath(full) == os.path.join("\0DEST", name), "copied-under-the-same-name", w, f"{rel(c, src)} is copied to {dst.replace(chr(0) + 'DEST', '<destination>')}")
                got[name] = src
            sure = copied_for_sure(s.events)
            got = {k: v for k, v in got.items() if k in {os.path.basename(static_path(c, I.snap(s, ev_arg(e, "src", "0"))) or "") for e in sure}}
            for f, why in needed.items():
                c.judge(f in got or (None if opaque else False), "every-example-file-copied", where, f"{f} ({why}) is not copied under {fact_text(s)}")
                if f in got:
                    c.check(os.path.dirname(os.path.normpath(got[f])) == folder, "every-example-file-copied", where, f"{f} is taken from {rel(c, got[f])}")
    con = EXF + ".load_data"
    with c.ob("data-sets-exist", con):
        def reader(I, st, d, node):
            I.event(st, "call", "read", args=dict(d), node=node)
            return [(st, sym("data", "ext:pandas.DataFrame"))]
        stubs = {"ext:" + k: reader for k in READ if k != "builtins.open"}
        I = c.interp(stubs)
        where = c.where(I, con)
        # which names are there
        keys = set()
        for s in c.run(I, con, St(), [sym("example", "str")]):
            for f in s.facts:
                for x in subterms(f):
                    if is_str(x):
                        keys.add(x.a[1])
        mod = c.repo.modules[EXF]
        av = mod.globals.get("available_data")
        if av is not None:
            v = I.snap(mod.state, av)
            keys |= {x.a[1] for x in subterms(v) if is_str(x) and not x.a[1].endswith(DATA_EXT)}
        c.judge(bool(keys) or None, "data-sets-exist", where, "no data set is known")
        for k in sorted(keys) + ["\0other", ""]:
            I = c.interp(stubs)
            for s in c.run(I, con, St(), [const(k)]):
                r = raised(I, s)
                R = called(s, "read")
                if k in keys and av is not None and k in {x.a[1] for x in subterms(v) if is_str(x)}:
                    if r:
                        c.judge(None if st_weak(s) or lits_of(s) else False, "data-sets-exist", where, f"load_data({k!r}) raises {r}")
                        continue
                    if len(R) != 1:
                        c.judge(None, "data-sets-exist", where, f"load_data({k!r}) reads {len(R)} files")
                        continue
                    p = static_path(c, I.snap(s, ev_arg(R[0], *set(READ.values()), "0")))
                    c.judge(None if p is None else os.path.isabs(p) and os.path.isfile(p), "data-sets-exist", where, f"load_data({k!r}) reads {rel(c, p)}, which does not exist")
                    c.judge(s.ctrl[1] is sym("data", "ext:pandas.DataFrame") or (None if weak(I.snap(s, s.ctrl[1])) or "data" in show(I.snap(s, s.ctrl[1])) else False), "data-set-returned", where,
                            f"load_data({k!r}) returns {show(I.snap(s, s.ctrl[1]))[:100]}")
                elif k not in keys:
                    c.judge(r == "ValueError" or (None if st_weak(s) or lits_of(s) else False), "unknown-data-set-refused", where, f"load_data of an unknown data set {('raises ' + r) if r else 'returns'}")


@rule("C42", 12, "Bundled examples are complete", "abstract interpretation of download_example, load_data and of the definitions of every bundled example; the paths they name are resolved "
      "against the files of the tree",
      "The files of the tree are those that are installed.")
def c42(c):
    o_examples(c)
