#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] : decide one property from the current source of the repository"""
import importlib
import json
import os
import pkgutil
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT", HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
sys.dont_write_bytecode = True


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" | ")[0].split() if "=" in x)
                if d.get("property") == pid:
                    out.append((d.get("rule"), d.get("construct"), line.split(" | ", 1)[-1]))
    return out


def main():
    import rules
    from rules import base
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    root = os.environ.get("VERIF_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for m in pkgutil.iter_modules(rules.__path__):
        if m.name.startswith("r_"):
            importlib.import_module("rules." + m.name)
    info = base.CHECKS[pid]
    base.default_types()
    t0 = time.time()
    ctx = base.Ctx(pid, root, tier)
    with ctx.ob("analysis"):
        info["fn"](ctx)
        base.stale_results(ctx)
    wall = time.time() - t0
    known = load_known(pid)
    viol, kf = [], []
    for b in ctx.bads:
        hit = [k for k in known if k[0] == b[0] and k[1] in b[1]]
        (kf if hit else viol).append(b)
    os.makedirs(os.path.join(OUT, "out"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rulec = {}
    for r, c in ctx.oks:
        rulec[r] = rulec.get(r, 0) + 1
    total = len(ctx.oks) + len(ctx.bads) + len(ctx.undecs)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation (value numbering with polynomial normal form, polyhedra facts, loop summaries) of "
                           "the functions listed, from their source, for all inputs described by the rules; every obligation below is a "
                           "statement on all paths of these functions. " + info["note"],
            "obligations": total, "discharged": len(ctx.oks), "violated": len(ctx.bads), "undecided": len(ctx.undecs),
            "obligations_by_rule": rulec, "functions_analysed": sorted(ctx.analysed), "modules_consulted": sorted(ctx.consulted),
            "outcomes_examined": ctx.outcomes, "files_parsed": len(ctx.repo.files),
            "undecided_obligations": [list(u) for u in ctx.undecs[:20]], "missing": ctx.missing,
            "known_findings": [list(k) for k in kf], "violations": [list(v) for v in viol],
        },
        "wall_s": round(wall, 3),
    }
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in ctx.undecs:
        print(f"UNDECIDED property={pid} rule={u[0]} at={u[1]}: {u[2]}")
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} rule={k[0]} {k[1]}: {k[2][:300]}")
    for n, v in enumerate(viol):
        rp = os.path.join(OUT, "out", f"{pid}-{n}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "rule": v[0], "construct": v[1], "detail": v[2]}, f, indent=1)
        print(f"  {v[1]}: rule {v[0]}: {v[2][:1200]}")
        print(f"VIOLATION property={pid} replay={rp}")
    print(f"{pid}: {len(ctx.oks)}/{total} obligations discharged, {len(ctx.undecs)} undecided, {len(viol)} violations, "
          f"{ctx.outcomes} outcomes of {len(ctx.analysed)} functions, {wall:.1f}s")
    if viol:
        return 1
    if ctx.missing:
        print(f"ERROR property={pid}: entry point vanished: {'; '.join(ctx.missing)}")
        return 2
    if len(ctx.oks) < info["floor"]:
        print(f"ERROR property={pid}: only {len(ctx.oks)} obligations decided, at least {info['floor']} expected")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
