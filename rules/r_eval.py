"""C37: no text of the user is interpreted by a shell or an evaluator (who may call what, over the whole package)"""
import ast
import os

from .base import *

CONVERTER = "convert_old_user_input_file"
EVAL = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.execfile", "pandas.eval", "numexpr.evaluate", "code.interact", "code.InteractiveInterpreter",
        "ast.parse", "timeit.timeit", "sympy.sympify", "cProfile.run", "pdb.run"}
EVAL.discard("ast.parse")
SHELL = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "pty.spawn", "commands.getoutput", "posix.system", "popen2.popen2", "os.startfile", "asyncio.create_subprocess_shell"}
PROCESS = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
EXECV = {f"os.{p}{s}" for p in ("exec", "spawn") for s in ("l", "le", "lp", "lpe", "v", "ve", "vp", "vpe")} | {"os.posix_spawn", "os.posix_spawnp"}
UNPICKLE = {"pickle.load", "pickle.loads", "pickle.Unpickler", "cPickle.load", "cPickle.loads", "marshal.load", "marshal.loads", "shelve.open", "dill.load", "dill.loads", "cloudpickle.load",
            "cloudpickle.loads", "joblib.load", "pandas.read_pickle", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "jsonpickle.decode"}
IMPORT = {"importlib.import_module", "builtins.__import__", "importlib.__import__", "runpy.run_path", "runpy.run_module", "imp.load_source", "imp.load_module",
          "importlib.util.spec_from_file_location", "importlib.util.module_from_spec", "importlib.machinery.SourceFileLoader", "importlib.util.spec_from_loader"}
NAMESPACES = {"builtins", "os", "subprocess", "importlib", "runpy", "pickle"}
SINKS = EVAL | SHELL | PROCESS | EXECV | UNPICKLE | IMPORT
METHODS = {"eval": "eval", "query": "eval", "exec_module": "import", "load_module": "import", "runcode": "eval", "runsource": "eval"}


class Mod:
    """names of a module resolved to what they were imported as"""

    def __init__(self, m):
        self.m, self.names = m, {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.names[a.asname] = a.name
                    else:
                        self.names[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    if a.name != "*":
                        self.names[a.asname or a.name] = n.module + "." + a.name
        self.bound = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.bound.add(n.id)
            elif isinstance(n, ast.arg):
                self.bound.add(n.arg)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.bound.add(n.name)
        # aliases: run = subprocess.run
        for _ in range(3):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    q = self.path(n.value)
                    if q and q in SINKS | NAMESPACES:
                        self.names.setdefault(n.targets[0].id, q)

    def path(self, e):
        """dotted name an expression denotes, or None"""
        if isinstance(e, ast.Name):
            if e.id in self.names:
                return self.names[e.id]
            if e.id in self.bound:
                return None
            return "builtins." + e.id
        if isinstance(e, ast.Attribute):
            b = self.path(e.value)
            if b is None:
                return None
            if b == "builtins.__builtins__":
                b = "builtins"
            return b + "." + e.attr
        if isinstance(e, ast.Call) and self.path(e.func) in ("builtins.getattr",) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            b = self.path(e.args[0])
            return f"{b}.{e.args[1].value}" if b else None
        if isinstance(e, ast.Call) and self.path(e.func) in ("builtins.__import__", "importlib.import_module") and e.args and isinstance(e.args[0], ast.Constant):
            return str(e.args[0].value)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            b = e.value
            if self.path(b) == "builtins.__builtins__" or isinstance(b, ast.Attribute) and b.attr == "__dict__" and self.path(b.value) in NAMESPACES:
                base = "builtins" if self.path(b) == "builtins.__builtins__" else self.path(b.value)
                return f"{base}.{e.slice.value}"
        return None


def functions(m):
    """(qualified name, node, class) of every function, and the module itself with the code outside of functions"""
    out = [("<module>", m.tree, None)]

    def walk(body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + n.name, n, cls))
                walk(n.body, prefix + n.name + ".", None)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, prefix + n.name + ".", n.name)
            else:
                for f in ("body", "orelse", "finalbody"):
                    walk(getattr(n, f, None) or [], prefix, cls)
                for h in getattr(n, "handlers", None) or []:
                    walk(h.body, prefix, cls)
    walk(m.tree.body, "", None)
    return out


def own(node):
    """nodes of a function without those of the functions defined in it (decorators and defaults belong outside)"""
    todo = list(node.body) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)) else [node]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            continue
        yield n
        if isinstance(n, ast.ClassDef):
            todo += n.body + n.decorator_list + n.bases
        else:
            todo += list(ast.iter_child_nodes(n))


def local_defs(fn, name):
    """expressions assigned to a local name of a function"""
    out = []
    for n in own(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    out.append(None)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.target.id == name:
            out.append(n.value if isinstance(n, ast.AnnAssign) else None)
        elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            out.append(("each", n.iter))
        elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
            out.append(None)
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = fn.args
        if name in [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs] or a.vararg and a.vararg.arg == name or a.kwarg and a.kwarg.arg == name:
            out.append(("param", None))
    return out


def fixed(mod, fn, e, depth=0):
    """is the expression built from texts of the program only (constants, counters)"""
    if depth > 6 or e is None:
        return False
    if isinstance(e, tuple):
        kind, it = e
        if kind != "each":
            return False
        if isinstance(it, ast.Call) and mod.path(it.func) in ("builtins.range", "builtins.enumerate", "builtins.zip", "builtins.sorted"):
            return mod.path(it.func) == "builtins.range" or all(fixed(mod, fn, a, depth + 1) for a in it.args)
        return fixed(mod, fn, it, depth + 1)
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return all(fixed(mod, fn, x, depth + 1) for x in e.elts)
    if isinstance(e, ast.JoinedStr):
        return all(fixed(mod, fn, x.value, depth + 1) for x in e.values if isinstance(x, ast.FormattedValue))
    if isinstance(e, ast.BinOp):
        return fixed(mod, fn, e.left, depth + 1) and fixed(mod, fn, e.right, depth + 1)
    if isinstance(e, ast.IfExp):
        return fixed(mod, fn, e.body, depth + 1) and fixed(mod, fn, e.orelse, depth + 1)
    if isinstance(e, ast.Call) and mod.path(e.func) == "builtins.str":
        return all(fixed(mod, fn, a, depth + 1) for a in e.args)
    if isinstance(e, ast.Name):
        ds = local_defs(fn, e.id)
        if not ds and fn is not mod.m.tree:
            ds = local_defs(mod.m.tree, e.id)
        return bool(ds) and all(fixed(mod, fn, d, depth + 1) for d in ds)
    return False


def resolve(mod, fn, e, depth=0):
    """definition of a local name, if there is only one"""
    while isinstance(e, ast.Name) and depth < 5:
        ds = local_defs(fn, e.id) or (local_defs(mod.m.tree, e.id) if fn is not mod.m.tree else [])
        if len(ds) != 1 or ds[0] is None or isinstance(ds[0], tuple):
            return e
        e, depth = ds[0], depth + 1
    return e


TEXTS = (".format", ".join", ".replace", ".strip")


def is_text(mod, fn, e):
    """is the expression one text (a command line) and not a list"""
    e = resolve(mod, fn, e)
    if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str):
        return True
    if isinstance(e, ast.BinOp):
        return is_text(mod, fn, e.left) or is_text(mod, fn, e.right)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "join", "replace", "strip") and mod.path(e.func) not in ("os.path.join", "shlex.join") or mod.path(e.func) in ("builtins.str", "shlex.join", "os.path.join"):
            return True
    return False


def split_text(mod, fn, e):
    """is the list made by splitting a text which contains what the user gave"""
    e = resolve(mod, fn, e)
    if isinstance(e, ast.Call):
        if mod.path(e.func) == "shlex.split" and e.args:
            a = resolve(mod, fn, e.args[0])
            quoted = any(isinstance(x, ast.Call) and mod.path(x.func) == "shlex.quote" for x in ast.walk(a))
            return not quoted and not fixed(mod, fn, e.args[0])
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("split", "rsplit") and is_text(mod, fn, e.func.value):
            return not fixed(mod, fn, e.func.value)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return split_text(mod, fn, e.left) or split_text(mod, fn, e.right)
    return False


def argv(mod, fn, e):
    """elements of an argument list, or None"""
    e = resolve(mod, fn, e)
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                y = argv(mod, fn, x.value)
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = argv(mod, fn, e.left), argv(mod, fn, e.right)
        return None if a is None or b is None else a + b
    return None


def judge_process(c, mod, fn, call, q, where):
    kw = {k.arg: k.value for k in call.keywords}
    if any(k is None for k in kw):
        star = kw.pop(None)
        star = resolve(mod, fn, star)
        if isinstance(star, ast.Dict):
            for k, v in zip(star.keys, star.values):
                if isinstance(k, ast.Constant):
                    kw[k.value] = v
        else:
            c.undec("no-shell", where, "options of the process are not constant")
    sh = kw.get("shell")
    if sh is not None:
        sh = resolve(mod, fn, sh)
        if not (isinstance(sh, ast.Constant) and not sh.value):
            c.judge(False if isinstance(sh, ast.Constant) else None, "no-shell", where, f"{q} runs a shell")
            return
    cmd = call.args[0] if call.args else kw.get("args")
    if cmd is None:
        c.undec("no-shell", where, "no command")
        return
    if is_text(mod, fn, cmd) and not fixed(mod, fn, cmd):
        c.bad("argument-list", where, f"{q} is given one command text: {ast.unparse(cmd)[:100]}")
        return
    if split_text(mod, fn, cmd):
        c.bad("argument-list", where, f"{q} is given a split text: {ast.unparse(resolve(mod, fn, cmd))[:100]}")
        return
    av = argv(mod, fn, cmd)
    if av is None:
        if fixed(mod, fn, cmd):
            c.ok("argument-list", where)
        else:
            c.undec("argument-list", where, ast.unparse(cmd)[:100])
        return
    c.ok("argument-list", where)
    if not av:
        return
    if "executable" in kw and not is_interp(mod, fn, kw["executable"]):
        c.bad("current-interpreter", where, f"runs {ast.unparse(kw['executable'])[:60]}")
    prog = av[0]
    if is_interp(mod, fn, prog):
        c.ok("current-interpreter", where)
    elif fixed(mod, fn, prog):
        p = resolve(mod, fn, prog)
        v = str(p.value) if isinstance(p, ast.Constant) else ""
        base = os.path.basename(v)
        if base in ("sh", "bash", "dash", "zsh", "cmd", "cmd.exe", "powershell", "env"):
            c.bad("no-shell", where, f"runs {v}")
        elif base.startswith("python") and not all(fixed(mod, fn, x) for x in av):
            c.bad("current-interpreter", where, f"runs {v} instead of the current interpreter")
        else:
            c.judge(True if all(fixed(mod, fn, x) for x in av) else None, "current-interpreter", where, f"runs {v}")
        return
    else:
        c.judge(False if isinstance(resolve(mod, fn, prog), ast.Name) or user_text(mod, fn, prog) else None, "current-interpreter", where, f"runs {ast.unparse(prog)[:60]}")
        return
    for i, x in enumerate(av[1:], 1):
        y = resolve(mod, fn, x)
        if isinstance(y, ast.Constant) and y.value in ("-c",) and not all(fixed(mod, fn, z) for z in av[i + 1:i + 2]):
            c.bad("no-evaluation", where, "the interpreter evaluates a text (-c)")
        elif isinstance(y, ast.Constant) and y.value == "-m" and not all(fixed(mod, fn, z) for z in av[i + 1:i + 2]):
            c.bad("file-itself-is-run", where, "runs a module by name (-m) instead of the given file")


def user_text(mod, fn, e):
    ds = local_defs(fn, e.id) if isinstance(e, ast.Name) else []
    return any(isinstance(d, tuple) and d[0] == "param" for d in ds)


def is_interp(mod, fn, e):
    e = resolve(mod, fn, e)
    return mod.path(e) == "sys.executable"


def callers_of(mods):
    """names of the functions which mention a name"""
    out = {}
    for mod in mods.values():
        for q, node, cls in functions(mod.m):
            for n in own(node):
                nm = n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) else n.attr if isinstance(n, ast.Attribute) else None
                if nm:
                    tgt = mod.names.get(nm, nm).split(".")[-1] if isinstance(n, ast.Name) else nm
                    out.setdefault(tgt, set()).add((mod.m.name, q))
    return out


def only_from_converter(callers, modname, q, seen=()):
    """is the function part of the converter: reached from nothing else"""
    last = q.split(".")[-1]
    if last == CONVERTER:
        return True
    if q == "<module>" or last in seen:
        return last in seen
    cs = {(m, x) for m, x in callers.get(last, ()) if not (m == modname and x == q)}
    # nested functions belong to the enclosing one
    if "." in q and q.rsplit(".", 1)[0].split(".")[-1] == CONVERTER:
        return True
    if not cs:
        return False
    return all(only_from_converter(callers, m, x, seen + (last,)) for m, x in cs)


def from_command_line(callers, q, seen=()):
    last = q.split(".")[-1]
    if last in seen:
        return False
    return True


@rule("C37", 30, "User-supplied text never reaches a shell or an evaluator", "who-may-call analysis over the syntax trees of the whole package: every reference to an evaluator, a shell, a process, "
      "an unpickler or a dynamic import, with the names resolved through imports and aliases, and the shape of the command of each process",
      "Third-party libraries do not evaluate what they are given to parse (read_csv, read_excel, argparse, json).")
def c37(c):
    mods = {n: Mod(m) for n, m in c.repo.modules.items()}
    callers = callers_of(mods)
    seen_conv = seen_run = 0
    for name, mod in sorted(mods.items()):
        path = os.path.relpath(mod.m.path, c.root)
        c.consulted.add(name)
        for q, fn, cls in functions(mod.m):
            con = f"{path}:{q}"
            c.analysed[f"{name}.{q}"] = 1
            before = len(c.bads)
            nodes = list(own(fn))
            funcs = {id(n.func): n for n in nodes if isinstance(n, ast.Call)}
            inner = {id(n.value) for n in nodes if isinstance(n, ast.Attribute)}
            for n in nodes:
                where = f"{con}:{getattr(n, 'lineno', 0)}"
                if isinstance(n, ast.Call) and mod.path(n.func) == "builtins.getattr" and len(n.args) >= 2 and mod.path(n.args[0]) in NAMESPACES and not fixed(mod, fn, n.args[1]):
                    c.bad("no-evaluation", where, f"function of {mod.path(n.args[0])} chosen by a text: {ast.unparse(n)[:80]}")
                if not isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                    continue
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    continue
                if isinstance(n, ast.Attribute) and n.attr in METHODS and id(n) in funcs and mod.path(n) is None:
                    call = funcs[id(n)]
                    arg = call.args[0] if call.args else next((k.value for k in call.keywords), None)
                    if METHODS[n.attr] == "eval":
                        if arg is not None and not fixed(mod, fn, arg):
                            c.judge(False if is_text(mod, fn, arg) or user_text(mod, fn, arg) or n.attr == "eval" else None, "no-evaluation", where, f"{ast.unparse(call)[:80]} evaluates a text")
                        continue
                    if only_from_converter(callers, name, q):
                        seen_conv += 1
                        c.ok("only-the-converter-imports-files", where)
                    else:
                        c.bad("only-the-converter-imports-files", where, f"{ast.unparse(call)[:80]} outside of the conversion")
                    continue
                p = mod.path(n)
                if p is None or p not in SINKS:
                    continue
                call = funcs.get(id(n))
                if isinstance(n, ast.Call) and call is None:
                    # a resolved getattr(...)/import_module("x") used as a value
                    pass
                if p in EVAL:
                    arg = call.args[0] if call is not None and call.args else None
                    if arg is not None and fixed(mod, fn, arg):
                        c.ok("no-evaluation", where)
                    else:
                        c.bad("no-evaluation", where, f"{p} " + (f"evaluates {ast.unparse(arg)[:80]}" if arg is not None else "is passed on"))
                elif p in SHELL:
                    arg = call.args[0] if call is not None and call.args else None
                    if arg is not None and fixed(mod, fn, arg):
                        c.ok("no-shell", where)
                    else:
                        c.bad("no-shell", where, f"{p} " + (f"is given {ast.unparse(arg)[:80]}" if arg is not None else "is passed on"))
                elif p in PROCESS:
                    if call is None:
                        if id(n) in inner:
                            continue
                        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name):
                            asg = [x for x in nodes if isinstance(x, ast.Assign) and x.value is n]
                            if not asg:
                                c.undec("argument-list", where, f"{p} is passed on")
                        continue
                    seen_run += 1
                    judge_process(c, mod, fn, call, p, where)
                elif p in EXECV:
                    c.undec("argument-list", where, f"{p}")
                elif p in UNPICKLE:
                    safe = call is not None and any(k.arg == "Loader" and "Safe" in ast.unparse(k.value) for k in call.keywords)
                    c.check(safe, "no-evaluation", where, f"{p} runs code of the data it reads")
                elif p in IMPORT:
                    arg = call.args[0] if call is not None and call.args else None
                    if arg is not None and fixed(mod, fn, arg) and p not in ("runpy.run_path", "imp.load_source"):
                        c.ok("only-the-converter-imports-files", where)
                    elif only_from_converter(callers, name, q):
                        seen_conv += 1
                        c.ok("only-the-converter-imports-files", where)
                    else:
                        c.bad("only-the-converter-imports-files", where, f"{p} outside of the conversion")
            # loading numpy archives with pickled objects
            for n in nodes:
                if isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg == "allow_pickle" and isinstance(k.value, ast.Constant) and k.value.value:
                            c.bad("no-evaluation", f"{con}:{n.lineno}", f"{ast.unparse(n)[:80]} runs code of the data it reads")
            if len(c.bads) == before:
                c.ok("function-without-other-evaluation", con)
    c.samples.append(f"{len(mods)} modules, {seen_run} started processes, {seen_conv} places of the conversion which import a file")
