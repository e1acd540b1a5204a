"""Abstract interpreter over the Python syntax tree of the repository.

The abstract domain is a disjunction of states; a state maps locals, object fields,
containers to value-number terms, carries path facts (decided through the convex
polyhedra in lp.py) and a log of effects.  Functions of the repository are inlined,
library functions are modelled in models.py or stay uninterpreted.  Loops over unknown
collections are summarised: loop-carried locations are widened to fresh symbols until
stable, then reductions (sums, concatenations, maps, last value) are recognised.
Nothing of the repository is imported or executed.
"""
import ast
import builtins
import os
import time as _time
from .terms import *
from . import terms as tm
from .lp import Facts


class Unsupported(Exception):
    def __init__(self, msg, node=None, fn=None):
        line = getattr(node, "lineno", "?")
        super().__init__(f"{msg} (line {line}{', in ' + fn if fn else ''})")


class Ev:
    """one effect"""
    __slots__ = ("kind", "name", "recv", "args", "res", "facts", "node", "fn", "loops", "sub", "extra")

    def __init__(self, kind, name, recv=None, args=None, res=None, facts=(), node=None, fn="", loops=(), sub=None,
                 extra=None):
        self.kind, self.name, self.recv, self.args = kind, name, recv, args or {}
        self.res, self.facts, self.node, self.fn, self.loops, self.sub = res, facts, node, fn, loops, sub
        self.extra = extra

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def __repr__(self):
        if self.kind in ("loop", "while", "if"):
            return f"<{self.kind} {self.name} {self.sub}>"
        return f"<{self.kind} {self.name} {dict(self.args)}>"


class HObj:
    __slots__ = ("kind", "data", "rest")

    def __init__(self, kind, data, rest=None):
        self.kind, self.data, self.rest = kind, data, rest

    def same(self, o):
        return self.kind == o.kind and self.rest is o.rest and (
            self.data is o.data if isinstance(self.data, T) else self.data == o.data)


class St:
    __slots__ = ("env", "heap", "fields", "cells", "facts", "events", "ctrl", "loops", "ireads", "absent", "fams")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.fields = {}
        self.cells = {}
        self.facts = []
        self.events = []
        self.ctrl = None
        self.loops = ()
        self.ireads = frozenset()
        self.absent = frozenset()
        # fields written for every element of a collection: (base pattern, name) -> (variables, value)
        self.fams = {}

    def copy(self):
        n = St()
        n.env = dict(self.env)
        n.heap = dict(self.heap)
        n.fields = dict(self.fields)
        n.cells = dict(self.cells)
        n.facts = list(self.facts)
        n.events = list(self.events)
        n.ctrl = self.ctrl
        n.loops = self.loops
        n.ireads = self.ireads
        n.absent = self.absent
        n.fams = dict(self.fams)
        return n

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            for x in c.a:
                self.assume(x)
            return
        if c not in self.facts:
            self.facts.append(c)


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.src = src
        self.tree = ast.parse(src, path)
        self.globals = None
        self.state = None


class FuncInfo:
    __slots__ = ("node", "mod", "cls", "qual", "env", "kind", "fid")

    def __init__(self, node, mod, cls, qual, env=None, kind="plain"):
        self.node, self.mod, self.cls, self.qual, self.env, self.kind = node, mod, cls, qual, env, kind


class ClassInfo:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.attrs = {}


class Repo:
    """parsed modules of /repo/ramp and a class table"""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.files = []
        for d, dn, fn in os.walk(os.path.join(root, "ramp")):
            dn[:] = sorted(x for x in dn if x not in ("__pycache__", "test"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    with open(p, encoding="utf-8") as fp:
                        src = fp.read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        self.modules[rel] = Module(rel, p, src)
                    self.files.append(os.path.relpath(p, root))


def same_object(a, b):
    """one of the two is an object() made by the program: nothing else is identical to it"""
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.a[0], same_object(x.a[1], y), same_object(x.a[2], y))
    return FALSE


BUILTIN_CLASSES = {"str", "int", "float", "bool", "list", "tuple", "dict", "set", "frozenset", "slice", "bytes", "object", "type", "complex"}
EXC_BASE = {}
for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        EXC_BASE[_n] = [c.__name__ for c in _o.__mro__]
EXC_BASE["JSONDecodeError"] = ["JSONDecodeError"] + EXC_BASE["ValueError"]

FIELD_TYPES = {
    ("UseCase", "users"): "list:obj:User", ("UseCase", "appliances"): "list:obj:Appliance",
    ("User", "App_list"): "list:obj:Appliance", ("User", "usecase"): "obj:UseCase",
    ("Appliance", "user"): "obj:User", ("Plot", "df"): "ext:pandas.DataFrame",
    ("Plot", "DataFrame"): "ext:pandas.DataFrame",
}


def cls_of_ty(t):
    return t[4:] if t.startswith("obj:") else None


def field_ty(t):
    """type of an attr term"""
    base, name = t.a[0], t.a[1]
    c = cls_of_ty(ty(base))
    if c:
        extra = EXTRA_FIELD_TY.get((base, name))
        if extra:
            return extra
        return FIELD_TYPES.get((c, name), SCEN_FIELD_TY.get((c, name), "unk"))
    if name in ("start", "stop") and ty(base) == "slice":
        return "int"
    if name in ("size",):
        return "int"
    return "unk"


EXTRA_FIELD_TY = {}
SCEN_FIELD_TY = {}
tm.set_field_ty(field_ty)



def _ty(t):
    if t.op == "lv":
        return t.a[2]
    if t.op == "ref":
        return t.a[1] if len(t.a) > 1 else "unk"
    if t.op == "at" and t.a[0].op == "attr" and not (len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == "slice"):
        et = tm.elem_ty(t.a[0])
        if et:
            return et
    if t.op == "slice":
        return "slice"
    if t.op == "typed":
        return t.a[1]
    return tm.base_ty(t)


interp_ty = _ty
tm.set_ty(_ty)


class Interp:
    MAXSTEPS = 400000

    def __init__(self, repo, stubs=None, merge_at=48, inline_depth=14):
        self.clip = 0
        from . import models
        tm.types_changed()
        self.repo = repo
        self.stubs = dict(stubs or {})
        self.uid = 0
        self.funcs = {}
        self.merge_at = merge_at
        self.stack = []
        self.models = models
        self.steps = 0
        self.loops_info = {}
        self.consulted = set()
        self.axiom_hook = None
        self.recursion = {}
        self.narrow = {}
        self.dd = {}
        self.unroll_syms = {}
        self.try_depth = 0
        self.called = {}
        for m in list(repo.modules.values()):
            m.globals = None
        repo.classes.clear()
        self.inited = set()
        self.purecalls = []
        self.present = set()
        self.open_attrs = False
        self.try_handlers = []
        self.deadline = None
        self.late_heap = {}
        self.mod_heap = {}
        self.len_src, self.idx_elem = {}, {}
        self.whiles = {}

    # ------------------------------------------------------------ basics
    def fresh(self):
        self.uid += 1
        return self.uid

    def fresh_t(self):
        return const(self.fresh())

    def where(self, node=None):
        return f"{self.stack[-1].qual if self.stack else '<module>'}:{getattr(node, 'lineno', '?')}"

    def err(self, msg, node=None):
        return Unsupported(msg, node, self.stack[-1].qual if self.stack else None)

    def facts(self, st):
        return Facts(st.facts, self.axiom_hook)

    def decide(self, st, c):
        if c.op == "c":
            return tm.truth_const(c)
        if c in st.facts:
            return True
        n = not_(c)
        if n in st.facts:
            return False
        if c.op == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(st, x) for x in c.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif c.op == "or":
            rs = [self.decide(st, x) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == "eq":
            # x == const against known x == other const
            x, y = c.a
            for f in st.facts:
                if f.op == "eq" and (f.a[0] in (x, y) or f.a[1] in (x, y)):
                    common = [q for q in f.a if q in (x, y)]
                    if len(common) == 1:
                        o1 = [q for q in f.a if q is not common[0]]
                        o2 = [q for q in c.a if q is not common[0]]
                        if o1 and o2 and o1[0].op == "c" and o2[0].op == "c" and o1[0] is not o2[0]:
                            return False
        if self.deadline and _time.time() > self.deadline:
            raise self.err("time budget of the analysis exceeded")
        F_ = self.facts(st)
        if F_.entails(c):
            return True
        if F_.entails(n):
            return False
        return None

    def truth(self, st, v):
        """boolean term of a value"""
        v0 = v
        v = self.deref(st, v)
        if v.op == "c":
            return const(tm.truth_const(v))
        if v.op == "rowdict" and self.models.ROW is not None:
            return const(bool(self.models.ROW["present"]))
        if v.op in ("not", "and", "or", "lt0", "le0", "eq0", "eq", "isnone", "truth", "in", "isinst", "isna"):
            return v
        if v0.op == "ref":
            h = st.heap.get(v0)
            if h is not None and h.kind in ("list", "set"):
                n = self.seq_len(st, h.data)
                return not_(eq(n, ZERO))
            if h is not None and h.kind == "dict":
                if h.rest is None:
                    return or_(*[g for k, v_, g in h.data]) if h.data else FALSE
                return mk("truth", h.rest)
            if h is not None and h.kind == "obj":
                return TRUE
        if v.op in ("tuple", "vec"):
            return const(len(v.a) > 0)
        if v.op in ("seq", "range"):
            return not_(eq(self.seq_len(st, v), ZERO))
        t = ty(v)
        if t in ("int", "num", "float"):
            return not_(tm.eq0(to_poly(v)))
        if t == "str":
            return not_(eq(v, const("")))
        if t == "bool":
            return mk("truth", v) if v.op != "sym" else mk("truth", v)
        if v.op == "ite":
            return ite(v.a[0], self.truth(st, v.a[1]), self.truth(st, v.a[2]))
        if t.startswith("obj:") or t.startswith("ext:") or v.op in ("func", "cls", "module", "ext", "bound"):
            return TRUE
        if v.op == "strcat" and any(is_str(x) for x in v.a):
            return TRUE
        return mk("truth", v)

    def deref(self, st, v):
        if v.op == "ref":
            h = st.heap.get(v)
            if h is not None and h.kind == "nd":
                return st.cells.get(h.data, h.data) if False else h.data
            return v
        return st.cells.get(v, v)

    def snap(self, st, v):
        """immutable view of a value, containers replaced by their content"""
        if v.op == "ref":
            h = st.heap.get(v)
            if h is None:
                return v
            if h.kind == "nd":
                return self.snap(st, h.data) if h.data.op != "ref" else h.data
            if h.kind in ("list", "set"):
                return self.snap_seq(st, h.data)
            if h.kind == "dict":
                return mk("dict", tuple((k, self.snap(st, x), g) for k, x, g in h.data), h.rest if h.rest is not None else NONE)
            return v
        if v in st.cells:
            return st.cells[v]
        if v.op in ("tuple", "vec"):
            return mk(v.op, *[self.snap(st, x) for x in v.a])
        if v.op == "seq":
            return self.snap_seq(st, v)
        return v

    def snap_seq(self, st, s):
        if all(x.op == "lit" for x in s.a):
            return mk("vec", *[self.snap(st, x.a[0]) for x in s.a])
        if len(s.a) == 1 and s.a[0].op == "star":
            return s.a[0].a[0]
        return mk("seq", *[mk("lit", self.snap(st, x.a[0])) if x.op == "lit" else self._snap_seg(st, x) for x in s.a])

    def _snap_seg(self, st, seg):
        # replace references inside the segment by their content
        m = {}
        for t in subterms(seg):
            if t.op == "ref" and t in st.heap and st.heap[t].kind in ("nd", "list", "dict", "set"):
                m[t] = self.snap(st, t)
        return subst(seg, m) if m else seg

    def alloc(self, st, kind, data, rest=None, t=None):
        r = mk("ref", self.fresh(), t or {"list": "seq", "dict": "dict", "nd": "nd", "set": "seq"}.get(kind, "unk"))
        st.heap[r] = HObj(kind, data, rest)
        return r

    def new_list(self, st, items):
        return self.alloc(st, "list", mk("seq", *[mk("lit", x) for x in items]))

    def new_dict(self, st, items):
        return self.alloc(st, "dict", tuple((k, v, TRUE) for k, v in items))

    # ------------------------------------------------------------ sequences
    def seq_of(self, st, v):
        """content of a sequence value as a 'seq' term, or None"""
        v = self.deref(st, v)
        if v.op == "ref":
            h = st.heap.get(v)
            if h is None:
                return None
            if h.kind in ("list", "set"):
                return h.data
            if h.kind == "dict" and h.rest is None:
                return mk("seq", *[mk("lit", k) if g is TRUE else mk("when", g, mk("seq", mk("lit", k))) for k, _, g in h.data])
            if h.kind == "dict":
                return mk("seq", mk("star", mk("keys", h.rest)))
            return None
        if v.op in ("tuple", "vec"):
            return mk("seq", *[mk("lit", x) for x in v.a])
        if v.op == "seq":
            return v
        if v.op == "range":
            a, b, s = v.a
            if all(is_num(x) for x in v.a):
                n = len(range(a.a[1], b.a[1], s.a[1]))
                if n <= 400:
                    return mk("seq", *[mk("lit", const(x)) for x in range(a.a[1], b.a[1], s.a[1])])
            return mk("seq", mk("star", v))
        if is_str(v):
            return mk("seq", *[mk("lit", const(x)) for x in v.a[1]])
        if v.op == "c":
            return None
        if v.op == "concat":
            segs = []
            for x in v.a:
                s = self.seq_of(st, x)
                segs.extend(s.a if s is not None else (mk("star", x),))
            return mk("seq", *segs)
        return mk("seq", mk("star", v))

    def concrete(self, seq):
        if seq is not None and all(x.op == "lit" for x in seq.a):
            return [x.a[0] for x in seq.a]
        return None

    def seg_len(self, st, seg):
        if seg.op == "lit":
            return ONE
        if seg.op == "star":
            return self.len_of(st, seg.a[0])
        if seg.op == "when":
            return mul(ind(seg.a[0]), self.seq_len(st, seg.a[1]))
        if seg.op == "for":
            lvl, n, body = seg.a
            inner = self.seq_len(st, body)
            return self.close_sum(n, mk("b", lvl), inner)
        raise Unsupported("length of " + seg.op)

    def seq_len(self, st, seq):
        if seq.op != "seq":
            return self.len_of(st, seq)
        r = ZERO
        for s in seq.a:
            r = add(r, self.seg_len(st, s))
        return r

    def len_of(self, st, v):
        v = self.deref(st, v)
        if v.op == "ref":
            h = st.heap.get(v)
            if h.kind in ("list", "set"):
                r = self.seq_len(st, h.data)
                if h.kind == "list" and len(h.data.a) > 1:
                    self.len_src[r] = h.data
                return r
            if h.kind == "dict" and h.rest is None:
                r = ZERO
                for k, x, g in h.data:
                    r = add(r, ind(g))
                return r
            return mk("len", v)
        if v.op in ("tuple", "vec"):
            return const(len(v.a))
        if v.op == "seq":
            return self.seq_len(st, v)
        if is_str(v):
            return const(len(v.a[1]))
        if v.op == "range" and v.a[2] is ONE:
            d = sub(v.a[1], v.a[0])
            if is_num(d):
                return d if d.a[1] > 0 else ZERO
            dd = self.decide(st, le(ZERO, d)) if st is not None else None
            if dd is True:
                return d
            if dd is False:
                return ZERO
            return mx(ZERO, d)
        if v.op == "zeros" or v.op == "full":
            return v.a[0]
        if v.op == "concat":
            r = ZERO
            for x in v.a:
                r = add(r, self.len_of(st, x))
            return r
        if v.op in ("store", "put"):
            return self.len_of(st, v.a[0])
        if v.op == "poly":
            # length of an elementwise expression: that of an operand known to be an array
            for mono, co in v.a[0]:
                for at, e in mono:
                    if at.op in ("full", "concat", "range", "store", "put"):
                        return self.len_of(st, at)
        if v.op in ("prefix", "resize"):
            return v.a[1]
        if v.op == "enumerate":
            return self.len_of(st, v.a[0])
        if v.op == "at" and v.a[0].op == "sym" and ty(v.a[0]).startswith("list:pair"):
            return const(2)
        return mk("len", v)

    # closing binders -------------------------------------------------
    def close(self, op, n, bvt, body):
        lvl = max(n.h, body.h) + 1
        b = mk("b", lvl)
        return mk(op, lvl, n, subst(body, {bvt: b}))

    def close_sum(self, n, bvt, body):
        """sum over i in [0,n) of body, linear normal form"""
        if bvt.op == "bv":
            indep = lambda t: bvt.a[0] not in t.bv
        else:
            indep = lambda t: not contains(t, lambda s: s is bvt)
        if is_num(n) and n.a[1] == 0:
            return ZERO
        p = to_poly(body)
        acc = {}
        for mono, co in p.items():
            outs = [(at, e) for at, e in mono if indep(at)]
            ins = [(at, e) for at, e in mono if not indep(at)]
            f = from_poly({tuple(outs): co})
            if not ins:
                acc = p_add(acc, to_poly(mul(f, n)))
            else:
                inner = from_poly({tuple(ins): F(1)})
                acc = p_add(acc, to_poly(mul(f, self.close("sum", n, bvt, inner))))
        return from_poly(acc)

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        m = self.repo.modules.get(name)
        if m is None:
            return None
        if m.globals is not None:
            return m
        self.consulted.add(name)
        m.globals = {"__name__": const(name), "__file__": sym(f"__file__({name})", "str")}
        st = St()
        st.env = m.globals
        save = self.stack
        self.stack = [FuncInfo(m.tree, m, None, f"<module {name}>")]
        try:
            outs = self.exec_block(m.tree.body, st)
        finally:
            self.stack = save
        outs = [o for o in outs if o.ctrl is None] or [st]
        fin = outs[0]
        m.globals.update(fin.env)
        m.state = fin
        for r, h in fin.heap.items():
            self.mod_heap.setdefault(r, (h, fin))
        return m

    def adopt(self, st, v):
        """a value of a module: its containers become part of the state"""
        if isinstance(v, T) and self.mod_heap:
            todo = [v]
            while todo:
                x = todo.pop()
                for r in subterms(x) if isinstance(x, T) else ():
                    if r.op == "ref" and r not in st.heap and r in self.mod_heap:
                        h, fin = self.mod_heap[r]
                        st.heap[r] = HObj(h.kind, h.data, h.rest)
                        if isinstance(h.data, T):
                            todo.append(h.data)
                            if h.data in fin.cells and h.data not in st.cells:
                                st.cells[h.data] = fin.cells[h.data]
                        else:
                            for k, y, g in h.data:
                                todo += [k, y]
        return v

    def class_info(self, name):
        return self.repo.classes.get(name)

    def find_class(self, name):
        c = self.repo.classes.get(name)
        if c is None:
            for mn, m in self.repo.modules.items():
                for n in m.tree.body:
                    if isinstance(n, ast.ClassDef) and n.name == name:
                        self.load_module(mn)
                        return self.repo.classes.get(name)
        return c

    def exc_mro(self, name):
        if name in EXC_BASE:
            return EXC_BASE[name]
        c = self.find_class(name)
        if c is not None:
            out = [name]
            for b in c.bases:
                out += self.exc_mro(b)
            return out
        return [name, "Exception"]

    def lookup_method(self, cname, attr):
        c = self.find_class(cname)
        if c is None:
            return None, None
        for table, kind in ((c.methods, "method"), (c.props, "prop"), (c.attrs, "attr")):
            if attr in table:
                return kind, table[attr]
        for b in c.bases:
            k, f = self.lookup_method(b, attr)
            if k:
                return k, f
        return None, None

    def lookup_setter(self, cname, attr):
        c = self.find_class(cname)
        if c is None:
            return None
        return c.setters.get(attr)

    def func_value(self, fi):
        i = self.fresh()
        fi.fid = i
        t = mk("func", i, fi.qual)
        self.funcs[t] = fi
        return t

    def instance_fields(self, cname):
        """attribute names assigned on self in __init__ and in the methods it calls on self"""
        c = self.find_class(cname)
        out = set()
        if c is None:
            return out
        if not hasattr(c, "inst_fields"):
            defs = {n.name: n for n in c.node.body if isinstance(n, ast.FunctionDef)}
            todo, done = ["__init__"], set()
            while todo:
                name = todo.pop()
                n = defs.get(name)
                if n is None or name in done or not n.args.args:
                    continue
                done.add(name)
                me = {n.args.args[0].arg}
                loops = {}
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in me:
                        me |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                    if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Tuple, ast.List)):
                        loops[x.target.id] = [e.value for e in x.iter.elts if isinstance(e, ast.Constant)]
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in me:
                        if isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
                    if isinstance(x, ast.Call):
                        f = x.func
                        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in me and f.attr in defs:
                            if defs[f.attr].name not in ("windows", "cycle_behaviour", "specific_cycle"):
                                todo.append(f.attr)
                        if isinstance(f, ast.Name) and f.id == "setattr" and len(x.args) == 3 and isinstance(x.args[0], ast.Name) and x.args[0].id in me:
                            k = x.args[1]
                            if isinstance(k, ast.Constant):
                                out.add(k.value)
                            elif isinstance(k, ast.Name):
                                out.update(loops.get(k.id, ()))
            c.inst_fields = out
        return c.inst_fields

    # ------------------------------------------------------------ calls of repo functions
    def get_func(self, qual):
        """'Appliance.windows' or 'ramp.core.utils.duty_cycle' -> (func term)"""
        if "." in qual and qual.split(".")[0] in ("ramp",):
            mod, _, fn = qual.rpartition(".")
            m = self.load_module(mod)
            if m is None or fn not in m.globals:
                return None
            v = m.globals[fn]
            return v
        cn, _, fn = qual.partition(".")
        c = self.find_class(cn)
        if c is None:
            return None
        for tb in (c.methods, c.props):
            if fn in tb:
                return tb[fn]
        if fn in c.setters:
            return c.setters[fn]
        return None

    def run(self, qual, st, args=(), kwargs=None, setter=False):
        """entry point of a rule: outcomes (states with ctrl 'return'/'raise'), the value in ctrl[1]"""
        f = self.get_func(qual)
        if setter:
            cn, _, fn = qual.partition(".")
            f = self.find_class(cn).setters.get(fn)
        if f is None:
            raise AnchorMissing(qual)
        fi = self.funcs.get(f)
        if fi is None:
            raise AnchorMissing(qual + " is not a function")
        outs = self.call_repo(fi, list(args), dict(kwargs or {}), st, None, entry=True)
        res = []
        for s, v in outs:
            if s.ctrl is None:
                s.ctrl = ("return", v)
            res.append(s)
        return [s for s in res if self.consistent(s)]

    def consistent(self, s):
        return self.facts(s).consistent()

    def bind_args(self, fi, args, kwargs, st, node):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *args[len(names):])
            else:
                return None, f"too many arguments for {fi.qual}"
        elif a.vararg:
            env[a.vararg.arg] = mk("tuple")
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kwargs)
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    return None, f"duplicate argument {k} for {fi.qual}"
                env[k] = v
            elif a.kwarg:
                extra.append((const(k), v))
            else:
                return None, f"unexpected argument {k} for {fi.qual}"
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, extra)
        defaults = list(a.defaults)
        dn = names[len(names) - len(defaults):]
        for n, d in zip(dn, defaults):
            if n not in env:
                env[n] = self.default_value(fi, d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(fi, d, st)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                return None, f"missing argument {n} for {fi.qual}"
        return env, None

    def default_value(self, fi, d, st):
        s = st.copy()
        s.env = {}
        save = self.stack
        self.stack = [fi]
        try:
            r = self.ev(d, s)
        finally:
            self.stack = save
        st.heap.update({k: v for k, v in r[0][0].heap.items() if k not in st.heap})
        return r[0][1]

    def call_repo(self, fi, args, kwargs, st, node, selfv=None, entry=False):
        if selfv is not None:
            args = [selfv] + list(args)
        env, msg = self.bind_args(fi, args, kwargs, st, node)
        if env is None:
            return [(self.raise_(st, "TypeError", (const(msg),), node), NONE)]
        self.called[fi.qual] = self.called.get(fi.qual, 0) + 1
        self.consulted.add(fi.mod.name)
        stub = self.stubs.get(fi.qual) if not entry else None
        if stub is not None:
            r = stub(self, st, env, node)
            if r is not None:
                return r
        if any(x.node is fi.node for x in self.stack):
            # recursion: result by induction, opaque
            n = sum(1 for x in self.stack if x.node is fi.node)
            rec = self.recursion.get(fi.qual)
            if rec is not None:
                return rec(self, st, env, node)
            if n > 6:
                raise self.err("recursion " + fi.qual, node)
            if not self.allow_rec(fi, list(args) + [env[k] for k in kwargs if k in env], st):
                u = self.fresh()
                res = mk("rec", fi.qual, u, tuple(self.snap(st, v) for v in env.values()))
                self.event(st, "rec", fi.qual, args=env, res=res, node=node)
                return [(st, res)]
        if len(self.stack) > 60:
            raise self.err("call depth", node)
        caller_env = st.env
        pre = st.copy() if self.merge_tests else None
        st.env = dict(fi.env) if fi.env else {}
        st.env.update(env)
        self.stack = self.stack + [fi]
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = []
                for s, v in self.ev(fi.node.body, st):
                    outs.append((s, v))
            else:
                outs = []
                for s in self.exec_block(fi.node.body, st):
                    if s.ctrl is None:
                        outs.append((s, NONE))
                    elif s.ctrl[0] == "return":
                        v = s.ctrl[1]
                        s.ctrl = None
                        outs.append((s, v))
                    else:
                        outs.append((s, NONE))
        finally:
            self.stack = self.stack[:-1]
        res = []
        for s, v in outs:
            s.env = dict(caller_env) if len(outs) > 1 else caller_env
            res.append((s, v))
        if self.merge_tests and len(res) > 1 and not entry:
            res = self.one_test(pre, res)
        if len(res) > self.merge_at and not entry:
            res = self.merge_pairs(res)
        return res

    merge_tests = False

    def one_test(self, pre, res):
        """outcomes of a function without effect which returns a truth value, as one outcome"""
        n = len(pre.facts)
        for s, v in res:
            if s.ctrl is not None or not (v in (TRUE, FALSE) or v.op in ("not", "and", "or", "lt0", "le0", "eq0", "eq", "isnone", "in")):
                return res
            if s.facts[:n] != pre.facts or len(s.events) != len(pre.events) or s.fields != pre.fields or s.cells != pre.cells:
                return res
            if any(s.heap.get(k) is not h for k, h in pre.heap.items()):
                return res
        s, _ = res[0]
        v = or_(*[and_(*(x.facts[n:] + [y])) for x, y in res])
        s.facts = list(pre.facts)
        return [(s, v)]

    def allow_rec(self, fi, args, st):
        # recursion on concrete containers (add_user on list elements) is followed
        return all(a.op in ("ref", "tuple", "c", "sym") for a in args) and any(
            a.op in ("tuple", "ref", "sym", "c") for a in args[1:2]) and self.concrete_rec

    concrete_rec = False

    def raise_(self, st, exc, args, node):
        st.ctrl = ("raise", exc, tuple(args), node, self.stack[-1].qual if self.stack else "")
        return st

    def event(self, st, kind, name, recv=None, args=None, res=None, node=None, sub=None, extra=None):
        e = Ev(kind, name, recv, args, res, tuple(st.facts), node, self.stack[-1].qual if self.stack else "", st.loops, sub, extra)
        st.events.append(e)
        return e

    # ------------------------------------------------------------ attributes
    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__") and self.stack:
            c = self.stack[-1].cls
            if c:
                return f"_{c.lstrip('_')}{name}"
        return name

    def cls_of(self, st, v):
        t = ty(v)
        if t.startswith("obj:"):
            return t[4:]
        return None

    def get_attr(self, st, base, name, node):
        """list of (st, value)"""
        if base.op == "module":
            m = self.load_module(base.a[0])
            if name in m.globals:
                return [(st, self.adopt(st, m.globals[name]))]
            sub_ = base.a[0] + "." + name
            if sub_ in self.repo.modules:
                return [(st, mk("module", sub_))]
            raise self.err(f"module attribute {base.a[0]}.{name}", node)
        if base.op == "ext":
            return [(st, self.models.ext_attr(base.a[0] + "." + name))]
        if base.op == "cls":
            k, f = self.lookup_method(base.a[0], name)
            if k == "method":
                fi = self.funcs[f]
                if fi.kind == "classmethod":
                    return [(st, mk("bound", base, f))]
                return [(st, f)]
            if k == "attr":
                return [(st, f)]
            if name == "__name__":
                return [(st, const(base.a[0]))]
            raise self.err(f"class attribute {base.a[0]}.{name}", node)
        cname = self.cls_of(st, base)
        if base.op == "ite" and not cname:
            out = []
            for s, b in self.split(st, base.a[0]):
                out += self.get_attr(s, base.a[1] if b else base.a[2], name, node)
            return out
        if cname:
            name = self.mangle(name)
            v = self.read_field(st, base, name)
            if v is not None:
                return [(st, v)]
            if (base, name) in st.absent:
                return [(self.raise_(st, "AttributeError", (const(name),), node), NONE)]
            k, f = self.lookup_method(cname, name)
            if k == "prop":
                fi = self.funcs[f]
                return self.call_repo(fi, [], {}, st, node, selfv=base)
            if k == "method":
                fi = self.funcs[f]
                if fi.kind == "staticmethod":
                    return [(st, f)]
                return [(st, mk("bound", mk("cls", cname) if fi.kind == "classmethod" else base, f))]
            if k == "attr":
                return [(st, f)]
            if base.op == "ref" and not name.startswith("__"):
                # object created during the analysis: the attribute does not exist
                if self.is_exc(cname):
                    return [(st, mk("attr", base, name))]
                if name in self.all_fields(cname) and base in getattr(self, "lazy_refs", ()):
                    pass
                else:
                    return [(self.raise_(st, "AttributeError", (const(name),), node), NONE)]
            st.ireads = st.ireads | {(base, name)}
            if name == "user" and base.op == "at" and base.a[0].op == "attr" and base.a[0].a[1] == "App_list":
                return [(st, base.a[0].a[0])]
            return [(st, mk("attr", base, name))]
        b = self.deref(st, base)
        r = self.models.value_attr(self, st, base, b, name, node)
        if r is not None:
            return r
        return [(st, mk("attr", b if b.op != "ref" else base, name))]

    def is_exc(self, cname):
        return "BaseException" in self.exc_mro(cname)

    def all_fields(self, cname):
        c = self.find_class(cname)
        out = set()
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
        return out

    def read_field(self, st, base, name):
        v = st.fields.get((base, name))
        if v is None and st.fams:
            for (pat, nm), (vs, val) in reversed(list(st.fams.items())):
                if nm == name:
                    b = {}
                    if match(pat, base, vs, b):
                        return subst(val, b)
        return v

    def add_family(self, st, pat, name, vs, val):
        st.fams.pop((pat, name), None)
        st.fams[(pat, name)] = (vs, val)
        for k in list(st.fields):
            if k[1] == name and match(pat, k[0], vs, {}):
                del st.fields[k]

    def set_attr(self, st, base, name, val, node):
        cname = self.cls_of(st, base)
        if cname:
            name = self.mangle(name)
            f = self.lookup_setter(cname, name)
            if f is not None:
                return [s for s, _ in self.call_repo(self.funcs[f], [val], {}, st, node, selfv=base)]
            k, pf = self.lookup_method(cname, name)
            if k == "prop":
                return [self.raise_(st, "AttributeError", (const(name),), node)]
            st.fields[(base, name)] = val
            self.event(st, "set", name, recv=base, args={"value": val}, res=val, node=node)
            if (base, name) in st.absent:
                st.absent = st.absent - {(base, name)}
            return [st]
        self.event(st, "setattr", name, recv=self.snap(st, base), args={"value": self.snap(st, val)}, res=val, node=node, extra=base)
        st.fields[(base, name)] = val
        self.models.on_set_attr(self, st, base, name, val, node)
        return [st]

    def split(self, st, c):
        """fork on a boolean term: [(state, bool)]"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        st.assume(c)
        s2.assume(not_(c))
        out = []
        if c.op == "or" or self.consistent_quick(st):
            out.append((st, True))
        out.append((s2, False))
        return out

    def consistent_quick(self, st):
        return True

    def branch(self, st, c):
        """[(state, bool)] with disjunctions split along their members"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        if c.op == "and":
            # negation of a conjunction is a disjunction: keep it as one fact
            pass
        s2 = st.copy()
        st.assume(c)
        s2.assume(not_(c))
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ expressions
    def bind(self, pairs, f):
        out = []
        for s, v in pairs:
            if s.ctrl is not None:
                out.append((s, NONE))
            else:
                out.extend(f(s, v))
        return out

    def ev_many(self, exprs, st):
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if s.ctrl is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise self.err("analysis budget exceeded", e)
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise self.err("expression " + type(e).__name__, e)
        return m(e, st)

    def ev_Constant(self, e, st):
        if isinstance(e.value, T):
            return [(st, e.value)]
        return [(st, const(e.value))]

    def ev_Name(self, e, st):
        n = e.id
        if n in st.env:
            return [(st, st.env[n])]
        fi = self.stack[-1]
        g = fi.mod.globals
        if g is not None and n in g:
            return [(st, self.adopt(st, g[n]))]
        if hasattr(builtins, n):
            if n in EXC_BASE:
                return [(st, mk("cls", n))]
            return [(st, mk("ext", "builtins." + n))]
        return [(self.raise_(st, "NameError", (const(n),), e), NONE)]

    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, b: self.get_attr(s, b, e.attr, e))

    def ev_Tuple(self, e, st):
        return self.ev_seq_items(e, st, lambda s, segs: mk("tuple", *[x.a[0] for x in segs]) if all(
            x.op == "lit" for x in segs) else mk("seq", *segs))

    def ev_seq_items(self, e, st, build):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.ev_many(exprs, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            segs = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    q = self.seq_of(s, v)
                    if q is None:
                        raise self.err("starred value", e)
                    segs.extend(q.a)
                else:
                    segs.append(mk("lit", v))
            out.append((s, build(s, segs)))
        return out

    def ev_List(self, e, st):
        return self.ev_seq_items(e, st, lambda s, segs: self.alloc(s, "list", mk("seq", *segs)))

    def ev_Set(self, e, st):
        return self.ev_seq_items(e, st, lambda s, segs: self.alloc(s, "set", mk("seq", *segs)))

    def ev_Dict(self, e, st):
        out = []
        keys = [k for k in e.keys if k is not None]
        for s, vs in self.ev_many(keys + e.values, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            ks, vals = vs[:len(keys)], vs[len(keys):]
            it = iter(ks)
            r = self.alloc(s, "dict", ())
            for k, v in zip(e.keys, vals):
                if k is None:
                    h = s.heap.get(v)
                    if h is None or h.kind != "dict":
                        raise self.err("dict unpacking", e)
                    for kk, vv, g in h.data:
                        self.dict_set(s, r, kk, vv, g)
                    if h.rest is not None:
                        raise self.err("dict unpacking of unknown", e)
                else:
                    self.dict_set(s, r, next(it), v)
            out.append((s, r))
        return out

    def dict_set(self, st, r, k, v, guard=TRUE):
        h = st.heap[r]
        k = self.snap(st, k)
        data = []
        done = False
        for kk, vv, g in h.data:
            if kk is k:
                nv = v if guard is TRUE else ite(guard, v, vv)
                data.append((kk, nv, or_(g, guard)))
                done = True
            else:
                data.append((kk, vv, g))
        if not done:
            if k.op != "c" and any(not self.distinct(kk, k) for kk, _, _ in h.data):
                # may overwrite an existing entry: keep both, in order
                pass
            data.append((k, v, guard))
        st.heap[r] = HObj("dict", tuple(data), h.rest)

    def distinct(self, a, b):
        return a.op == "c" and b.op == "c" and a is not b

    def ev_JoinedStr(self, e, st):
        parts = []
        exprs = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        out = []
        for s, vs in self.ev_many(exprs, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            it = iter(vs)
            parts = []
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    spec = None
                    if x.format_spec is not None:
                        spec = "".join(p.value for p in x.format_spec.values if isinstance(p, ast.Constant))
                    parts.append(self.fmt(s, next(it), spec))
                else:
                    parts.append(const(x.value))
            out.append((s, strcat(*parts)))
        return out

    def fmt(self, st, v, spec=None):
        v = self.snap(st, v)
        if spec in (None, "", "s", "d"):
            if is_str(v) or ty(v) == "str":
                return v
            if v.op == "c" and v.a[0] in ("i", "b", "N"):
                return const(str(v.a[1]))
            if is_num(v):
                return const(repr(float(v.a[1])))
            return mk("fmt", v)
        return mk("fmt", v, spec)

    def ev_BinOp(self, e, st):
        out = []
        for s, vs in self.ev_many([e.left, e.right], st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            out.extend(self.binop(s, e.op, vs[0], vs[1], e))
        return out

    def is_listy(self, st, v):
        if v.op == "ref":
            h = st.heap.get(v)
            return h is not None and h.kind in ("list",)
        if v.op in ("seq",):
            return True
        t = ty(v)
        return t in ("seq", "list") or t.startswith("list:")

    def binop(self, st, op, x, y, node):
        o = type(op).__name__
        if o == "Add":
            if self.is_listy(st, x) and self.is_listy(st, y):
                a, b = self.seq_of(st, x), self.seq_of(st, y)
                return [(st, self.alloc(st, "list", mk("seq", *(a.a + b.a))))]
            if x.op == "tuple" and y.op == "tuple":
                return [(st, mk("tuple", *(x.a + y.a)))]
            dx, dy = self.deref(st, x), self.deref(st, y)
            if "str" in (ty(dx), ty(dy)):
                return [(st, strcat(dx, dy))]
            return [(st, self.models.arith(self, st, "+", dx, dy))]
        if o == "Mult":
            for p, q in ((x, y), (y, x)):
                if self.is_listy(st, p) and p.op == "ref" or p.op == "tuple":
                    sq = self.seq_of(st, p)
                    if is_num(q):
                        n = max(0, int(q.a[1]))
                        if n <= 200:
                            return [(st, self.alloc(st, "list", mk("seq", *(sq.a * n))) if p.op == "ref" else mk("tuple", *(p.a * n)))]
                    if ty(self.deref(st, q)) in ("int",):
                        bvt = mk("bv", self.fresh())
                        return [(st, self.alloc(st, "list", mk("seq", self.close("for", self.deref(st, q), bvt, sq))))]
            dx, dy = self.deref(st, x), self.deref(st, y)
            if is_str(dx) and is_num(dy):
                return [(st, const(dx.a[1] * int(dy.a[1])))]
            return [(st, self.models.arith(self, st, "*", dx, dy))]
        dx, dy = self.deref(st, x), self.deref(st, y)
        if o == "Sub":
            if x.op == "ref" and st.heap.get(x) is not None and st.heap[x].kind == "set":
                return [(st, mk("setdiff", self.snap(st, x), self.snap(st, y)))]
            return [(st, self.models.arith(self, st, "-", dx, dy))]
        if o == "Div":
            return [(st, self.models.arith(self, st, "/", dx, dy))]
        if o == "FloorDiv":
            return [(st, floordiv(dx, dy))]
        if o == "Mod":
            if is_str(dx):
                return [(st, self.pct_format(st, dx, y))]
            return [(st, mod(dx, dy))]
        if o == "Pow":
            return [(st, power(dx, dy))]
        if o in ("BitOr", "BitAnd"):
            a, b = dx, dy
            if ty(a) == "bool" and ty(b) == "bool":
                return [(st, or_(a, b) if o == "BitOr" else and_(a, b))]
            return [(st, mk("bitor" if o == "BitOr" else "bitand", *sorted((a, b), key=lambda t: t.k)))]
        return [(st, mk("bin" + o, dx, dy))]

    def pct_format(self, st, f, y):
        import re
        items = list(y.a) if y.op == "tuple" else [y]
        parts = []
        for q in re.split(r"(%[sdi%])", f.a[1]):
            if q == "%%":
                parts.append(const("%"))
            elif re.fullmatch(r"%[sdi]", q):
                if not items:
                    return mk("strfmt", f, self.snap(st, y))
                parts.append(self.fmt(st, items.pop(0)))
            elif "%" in q:
                return mk("strfmt", f, self.snap(st, y))
            else:
                parts.append(const(q))
        return strcat(*parts)

    def ev_UnaryOp(self, e, st):
        def f(s, v):
            o = type(e.op).__name__
            if o == "Not":
                return [(s, not_(self.truth(s, v)))]
            v = self.deref(s, v)
            if o == "USub":
                return [(s, self.models.arith(self, s, "*", const(-1), v))]
            if o == "UAdd":
                return [(s, v)]
            if o == "Invert":
                if ty(v) == "bool":
                    return [(s, not_(v))]
                if v.op == "c:invert":
                    return [(s, v.a[0])]
                return [(s, mk("c:invert", v))]
        return self.bind(self.ev(e.operand, st), f)

    def pure_eval(self, e, st, assume=None):
        """value of e in st if evaluating it has no effect and does not fork, else None"""
        s = st.copy()
        if assume is not None:
            s.assume(assume)
        ne, nh = len(s.events), len(s.heap)
        save = (self.uid, self.steps)
        r = self.ev(e, s)
        if len(r) == 1 and r[0][0].ctrl is None:
            s2, v = r[0]
            if len(s2.events) == ne and s2.fields == s.fields and all(
                    st.heap.get(k) is h or k not in st.heap for k, h in s2.heap.items()):
                if len(s2.facts) == len(s.facts):
                    return s2, v
        self.uid = save[0] if False else self.uid
        return None

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def step(s, i):
            out = []
            for s1, v in self.ev(e.values[i], s):
                if s1.ctrl is not None:
                    out.append((s1, NONE))
                    continue
                if i == len(e.values) - 1:
                    out.append((s1, v))
                    continue
                c = self.truth(s1, v)
                d = self.decide(s1, c)
                if d is not None:
                    if d == isand:
                        out.extend(step(s1, i + 1))
                    else:
                        out.append((s1, v if v.op != "c" and ty(v) != "bool" else (v if v.op == "c" else const(d))))
                    continue
                # try without forking
                s2, s3 = s1.copy(), s1.copy()
                s2.assume(c if isand else not_(c))
                s3.assume(not_(c) if isand else c)
                rest = step(s2, i + 1)
                if len(rest) == 1 and rest[0][0].ctrl is None and self.no_effect(s1, rest[0][0], extra_fact=1):
                    s4, w = rest[0]
                    cw = self.truth(s4, w)
                    if self.boolish(v) and self.boolish(w):
                        res = and_(c, cw) if isand else or_(c, cw)
                    else:
                        res = ite(c, w, v) if isand else ite(c, v, w)
                    s1.heap.update({k: h for k, h in s4.heap.items() if k not in s1.heap})
                    s1.ireads = s1.ireads | s4.ireads
                    out.append((s1, res))
                    continue
                out.append((s3, v if not self.boolish(v) else (FALSE if isand else TRUE)))
                out.extend(rest)
            return out
        return step(st, 0)

    def boolish(self, v):
        return ty(v) == "bool"

    def no_effect(self, s, s2, extra_fact=0):
        if len(s2.events) != len(s.events) or s2.ctrl is not None:
            return False
        if len(s2.fields) != len(s.fields) or any(s.fields.get(k) is not v for k, v in s2.fields.items()):
            return False
        for k, h in s.heap.items():
            if s2.heap.get(k) is not h:
                return False
        if any(s.env.get(k) is not v for k, v in s2.env.items()):
            return False
        return True

    def ev_Compare(self, e, st):
        out = []
        for s, vs in self.ev_many([e.left] + e.comparators, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            pend = [(s, [])]
            sides = [e.left] + e.comparators
            for x, y in zip(sides, sides[1:]):
                for x, y in ((x, y), (y, x)):
                    counts = isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" or isinstance(x, ast.Name) and isinstance(y, ast.Constant)
                    if counts:
                        n, k = vs[sides.index(x)], vs[sides.index(y)]
                        if is_num(n) and is_num(k) and n.a[1] < k.a[1] <= 400:
                            self.clip = max(self.clip, int(k.a[1]))
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, acc in pend:
                    if s1.ctrl is not None:
                        nxt.append((s1, acc))
                        continue
                    for s2, v in self.compare(s1, op, vs[i], vs[i + 1], e):
                        nxt.append((s2, acc + [v]))
                pend = nxt
            for s1, acc in pend:
                if s1.ctrl is not None:
                    out.append((s1, NONE))
                else:
                    out.append((s1, and_(*acc) if len(acc) > 1 else acc[0]))
        return out

    def np_bool(self, e):
        """does the expression yield a numpy bool, which is neither the object True nor the object False"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("all", "any"):
            return True
        if not isinstance(e, ast.Name) or not self.stack:
            return False

        def binds(n):
            return any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(n))

        def search(body):
            for i, x in enumerate(body):
                if any(y is e for y in ast.walk(x)):
                    for f in ("body", "orelse", "finalbody"):
                        sub = getattr(x, f, None)
                        if isinstance(sub, list) and any(y is e for z in sub for y in ast.walk(z)):
                            r = search(sub)
                            if r is not None:
                                return r
                            if isinstance(x, (ast.For, ast.While)) and binds(x):
                                return False
                    for z in reversed(body[:i]):
                        if isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) and z.targets[0].id == e.id:
                            return isinstance(z.value, ast.Call) and self.np_bool(z.value)
                        if binds(z):
                            return False
                    return None
            return None
        body = getattr(self.stack[-1].node, "body", None)
        return isinstance(body, list) and search(body) is True

    def compare(self, st, op, x, y, node):
        o = type(op).__name__
        if o in ("Eq", "NotEq"):
            c = self.cls_of(st, x)
            if c and y is not x:
                k, f = self.lookup_method(c, "__eq__")
                if k == "method":
                    r = self.call_repo(self.funcs[f], [y], {}, st, node, selfv=x)
                    return [(s, v if o == "Eq" else not_(self.truth(s, v))) for s, v in r]
            a, b = self.snap(st, x), self.snap(st, y)
            if self.arrayish(a) or self.arrayish(b):
                v = mk("aeq", *sorted((a, b), key=lambda t: t.k))
                return [(st, v if o == "Eq" else mk("c:invert", v))]
            v = eq(a, b)
            return [(st, v if o == "Eq" else not_(v))]
        if o in ("Is", "IsNot"):
            a, b = self.deref(st, x), self.deref(st, y)
            if isinstance(node, ast.Compare) and len(node.ops) == 1 and (
                    b in (TRUE, FALSE) and isinstance(node.comparators[0], ast.Constant) and self.np_bool(node.left)
                    or a in (TRUE, FALSE) and isinstance(node.left, ast.Constant) and self.np_bool(node.comparators[0])):
                v = FALSE
            elif b is NONE or a is NONE:
                v = isnone(a if b is NONE else b)
            elif a is b:
                v = TRUE
            elif a.op == "sentinel" or b.op == "sentinel":
                v = same_object(a, b)
            elif b in (TRUE, FALSE) or a in (TRUE, FALSE):
                z, w = (a, b) if b in (TRUE, FALSE) else (b, a)
                if z.op == "c":
                    v = FALSE
                elif ty(z) == "bool":
                    bz = self.truth(st, z)
                    v = bz if w is TRUE else not_(bz)
                elif z.op == "ite":
                    def isw(t):
                        if t.op == "ite":
                            return ite(t.a[0], isw(t.a[1]), isw(t.a[2]))
                        return const(t is w) if t.op == "c" else (self.truth(st, t) if ty(t) == "bool" and w is TRUE else mk("is", t, w))
                    v = isw(z)
                elif ty(z) in ("int", "num", "float", "str", "seq", "nd", "none", "tuple"):
                    v = FALSE
                else:
                    v = mk("is", z, w)
            elif a.op == "c" and b.op == "c":
                v = const(a is b)
            else:
                v = mk("is", *sorted((a, b), key=lambda t: t.k))
            return [(st, v if o == "Is" else not_(v))]
        if o in ("In", "NotIn"):
            r = self.contains_(st, x, y, node)
            return [(s, v if o == "In" else not_(self.truth(s, v))) for s, v in r]
        a, b = self.snap(st, x), self.snap(st, y)
        if self.arrayish(a) or self.arrayish(b):
            f = {"Lt": ("alt", a, b), "LtE": ("ale", a, b), "Gt": ("alt", b, a), "GtE": ("ale", b, a)}[o]
            return [(st, mk(*f))]
        v = {"Lt": lambda: lt(a, b), "LtE": lambda: le(a, b), "Gt": lambda: lt(b, a), "GtE": lambda: le(b, a)}[o]()
        return [(st, v)]

    def arrayish(self, v):
        return self.models.arrayish(v)

    def contains_(self, st, x, y, node):
        a = self.snap(st, x)
        yd = self.deref(st, y)
        if is_str(a) and is_str(yd):
            return [(st, const(a.a[1] in yd.a[1]))]
        if yd.op == "ref":
            h = st.heap[yd]
            if h.kind == "dict":
                if h.rest is None:
                    cs = []
                    for k, v, g in h.data:
                        e_ = eq(k, a)
                        cs.append(and_(e_, g))
                    return [(st, or_(*cs) if cs else FALSE)]
                r = self.models.contains_rest(self, st, h, a)
                return [(st, r)]
            seq = h.data
        elif yd.op in ("tuple", "vec", "range", "seq"):
            seq = self.seq_of(st, yd)
        else:
            r = self.models.contains_opaque(self, st, a, yd)
            if r is not None:
                return [(st, r)]
            return [(st, mk("in", a, yd))]
        items = self.concrete(seq)
        if items is not None:
            # objects compare through __eq__
            if self.cls_of(st, x) and items:
                res = [(st, FALSE)]
                for it in items:
                    nxt = []
                    for s, acc in res:
                        if it is x:
                            nxt.append((s, TRUE))
                            continue
                        for s2, v in self.compare(s, ast.Eq(), it, x, node):
                            nxt.append((s2, or_(acc, self.truth(s2, v))))
                    res = nxt
                return res
            return [(st, or_(*[eq(self.snap(st, i), a) for i in items]) if items else FALSE)]
        return [(st, mk("in", a, self.snap(st, yd) if yd.op == "ref" else self.snap_seq(st, seq)))]

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            b = self.truth(s, c)
            d = self.decide(s, b)
            if d is not None:
                out.extend(self.ev(e.body if d else e.orelse, s))
                continue
            s1, s2 = s.copy(), s.copy()
            s1.assume(b)
            s2.assume(not_(b))
            r1, r2 = self.ev(e.body, s1), self.ev(e.orelse, s2)
            if len(r1) == 1 and len(r2) == 1 and self.no_effect(s, r1[0][0]) and self.no_effect(s, r2[0][0]) \
                    and self.ite_mode(r1[0][1], r2[0][1]):
                for q in (r1[0][0], r2[0][0]):
                    s.heap.update({k: h for k, h in q.heap.items() if k not in s.heap})
                    s.ireads = s.ireads | q.ireads
                out.append((s, ite(b, r1[0][1], r2[0][1])))
            else:
                out.extend(r1)
                out.extend(r2)
        return out

    split_ifexp = True

    def ite_mode(self, a, b):
        return not self.split_ifexp

    def ev_Lambda(self, e, st):
        fi = FuncInfo(e, self.stack[-1].mod, self.stack[-1].cls, "<lambda>", env=dict(st.env))
        return [(st, self.func_value(fi))]

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            exprs = [e.value] + [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            out = []
            for s, vs in self.ev_many(exprs, st):
                if s.ctrl is not None:
                    out.append((s, NONE))
                    continue
                it = iter(vs[1:])
                sl = mk("slice", *[self.deref(s, next(it)) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)])
                out.extend(self.get_item(s, vs[0], sl, e))
            return out
        out = []
        for s, vs in self.ev_many([e.value, e.slice], st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            out.extend(self.get_item(s, vs[0], vs[1], e))
        return out

    def ev_Slice(self, e, st):
        out = []
        exprs = [x for x in (e.lower, e.upper, e.step) if x is not None]
        for s, vs in self.ev_many(exprs, st):
            it = iter(vs)
            out.append((s, mk("slice", *[self.deref(s, next(it)) if x is not None else NONE for x in (e.lower, e.upper, e.step)])))
        return out

    def get_item(self, st, base, idx, node):
        return self.models.get_item(self, st, base, idx, node)

    def ev_Starred(self, e, st):
        raise self.err("starred expression", e)

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if s.ctrl is None:
                s.env[e.target.id] = v
            out.append((s, v))
        return out

    # comprehensions --------------------------------------------------
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ev_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        """desugar to a loop that appends"""
        name = f"%comp{self.fresh()}"
        outer = dict(st.env)
        acc = self.alloc(st, "dict" if kind == "dict" else ("list" if kind == "list" else "set"), () if kind == "dict" else mk("seq"))
        st.env[name] = acc
        if kind == "dict":
            body = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[e.elt], keywords=[]))
        node = body
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                node = ast.If(test=c, body=[node], orelse=[])
            node = ast.For(target=g.target, iter=g.iter, body=[node], orelse=[], type_comment=None)
        ast.copy_location(node, e)
        for x in ast.walk(node):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, e)
        outs = []
        for s in self.exec_stmt(node, st):
            env = dict(outer)
            if s.ctrl is None:
                r = s.env.get(name, acc)
                s.env = env
                outs.append((s, r))
            else:
                s.env = env
                outs.append((s, NONE))
        return outs

    # calls -------------------------------------------------------------
    def ev_Call(self, e, st):
        out = []
        # super() and a few forms that need the syntax
        pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = [k.value for k in e.keywords]
        for s, f in self.ev_callee(e.func, st):
            if s.ctrl is not None:
                out.append((s, NONE))
                continue
            for s2, vs in self.ev_many(pos + kws, s):
                if s2.ctrl is not None:
                    out.append((s2, NONE))
                    continue
                args = []
                ok = True
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        it = self.concrete(self.seq_of(s2, v))
                        if it is None:
                            ok = False
                            args.append(mk("starred", self.snap(s2, v)))
                        else:
                            args.extend(it)
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        h = s2.heap.get(v)
                        if h is None or h.kind != "dict":
                            kwargs["**"] = self.snap(s2, v)
                            continue
                        if h.rest is not None:
                            kwargs["**"] = h.rest
                        for kk, vv, g in h.data:
                            if not is_str(kk):
                                raise self.err("keyword name", e)
                            if g is not TRUE:
                                d = self.decide(s2, g)
                                if d is False:
                                    continue
                                if d is None:
                                    vv = mk("maybe", g, self.snap(s2, vv))
                            kwargs[kk.a[1]] = vv
                    else:
                        kwargs[k.arg] = v
                out.extend(self.call(s2, f, args, kwargs, e))
        return out

    def ev_callee(self, f, st):
        if isinstance(f, ast.Attribute):
            return self.bind(self.ev(f.value, st), lambda s, b: self.callee_attr(s, b, f.attr, f))
        return self.ev(f, st)

    def callee_attr(self, st, base, name, node):
        if base.op in ("module", "ext", "cls"):
            return self.get_attr(st, base, name, node)
        cname = self.cls_of(st, base)
        if cname:
            return self.get_attr(st, base, name, node)
        return [(st, mk("boundm", base, name))]

    def call(self, st, f, args, kwargs, node):
        if f.op == "func":
            return self.call_repo(self.funcs[f], args, kwargs, st, node)
        if f.op == "bound":
            return self.call_repo(self.funcs[f.a[1]], args, kwargs, st, node, selfv=f.a[0])
        if f.op == "cls":
            return self.construct(st, f.a[0], args, kwargs, node)
        if f.op == "ext":
            return self.models.call_ext(self, st, f.a[0], args, kwargs, node)
        if f.op == "boundm":
            return self.models.call_method(self, st, f.a[0], f.a[1], args, kwargs, node)
        if f.op == "attr":
            return self.models.call_method(self, st, f.a[0], f.a[1], args, kwargs, node)
        if f.op == "ite":
            out = []
            for s, b in self.split(st, f.a[0]):
                out.extend(self.call(s, f.a[1] if b else f.a[2], args, kwargs, node))
            return out
        if f.op == "partial":
            return self.call(st, f.a[0], list(f.a[1]) + list(args), dict({k: v for k, v in f.a[2]}, **kwargs), node)
        # opaque callable
        return self.models.opaque_call(self, st, "callable", [f] + list(args), kwargs, node)

    def construct(self, st, cname, args, kwargs, node):
        stub = self.stubs.get(cname)
        c = self.find_class(cname)
        if c is None or self.is_exc(cname):
            r = mk("ref", self.fresh(), "obj:" + cname)
            st.heap[r] = HObj("obj", cname)
            st.fields[(r, "args")] = mk("tuple", *[self.snap(st, a) for a in args])
            return [(st, r)]
        if stub is not None:
            fi = self.funcs.get(c.methods.get("__init__")) if "__init__" in c.methods else None
            env = {}
            if fi is not None:
                env, msg = self.bind_args(fi, [NONE] + list(args), kwargs, st, node)
                if env is None:
                    return [(self.raise_(st, "TypeError", (const(msg),), node), NONE)]
            r = stub(self, st, env, node)
            if r is not None:
                return r
        r = mk("ref", self.fresh(), "obj:" + cname)
        st.heap[r] = HObj("obj", cname)
        if "__init__" in c.methods:
            outs = self.call_repo(self.funcs[c.methods["__init__"]], args, kwargs, st, node, selfv=r)
            return [(s, r) for s, _ in outs]
        return [(st, r)]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        states = [st]
        for n in stmts:
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                else:
                    nxt.extend(self.exec_stmt(n, s))
            states = nxt
            live = [s for s in states if s.ctrl is None]
            if len(live) > self.merge_at:
                rest = [s for s in states if s.ctrl is not None]
                states = self.merge_list(live) + rest
            if not any(s.ctrl is None for s in states):
                break
        return states

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise self.err("analysis budget exceeded", n)
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise self.err("statement " + type(n).__name__, n)
        return m(n, st)

    def ex_Pass(self, n, st):
        return [st]

    def ex_Global(self, n, st):
        return [st]

    ex_Nonlocal = ex_Global

    def ex_Expr(self, n, st):
        return [s for s, _ in self.ev(n.value, st)]

    def ex_Return(self, n, st):
        if n.value is None:
            st.ctrl = ("return", NONE, n)
            return [st]
        out = []
        for s, v in self.ev(n.value, st):
            if s.ctrl is None:
                s.ctrl = ("return", v, n)
            out.append(s)
        return out

    def ex_Break(self, n, st):
        st.ctrl = ("break",)
        return [st]

    def ex_Continue(self, n, st):
        st.ctrl = ("continue",)
        return [st]

    def own_list(self, st, name):
        """is the name bound to a list which nothing else refers to"""
        r = st.env.get(name)
        h = st.heap.get(r) if r is not None and r.op == "ref" else None
        if h is None or h.kind != "list" or r in self.mod_heap:
            return False
        fn = self.stack[-1].node
        if isinstance(fn, ast.FunctionDef):
            a = fn.args
            if name in [x.arg for x in a.args + a.posonlyargs + a.kwonlyargs] or a.vararg is not None and a.vararg.arg == name:
                return False
        elif not isinstance(fn, ast.Module):
            return False

        def holds(v):
            return v is r or isinstance(v, T) and v.op in ("tuple", "vec", "seq", "ite", "lit", "struct") and any(x is r for x in subterms(v))
        if sum(holds(v) for v in st.env.values()) != 1 or any(holds(v) for v in st.fields.values()):
            return False
        for q, g in st.heap.items():
            if q is r:
                continue
            if isinstance(g.data, T):
                if any(x is r for x in subterms(g.data)):
                    return False
            elif any(holds(y) for z in g.data for y in (z if isinstance(z, tuple) else (z,))):
                return False
        return True

    def ex_Assign(self, n, st):
        out = []
        v = n.value
        if (len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add)
                and isinstance(v.left, ast.Name) and v.left.id == n.targets[0].id and self.own_list(st, v.left.id)):
            # nobody can tell the new list from the old one extended
            return self.ex_AugAssign(ast.copy_location(ast.AugAssign(target=n.targets[0], op=v.op, value=v.right), n), st)
        for s, v in self.ev(n.value, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            states = [s]
            for t in n.targets:
                nxt = []
                for q in states:
                    nxt.extend(self.assign(t, v, q, n) if q.ctrl is None else [q])
                states = nxt
            out.extend(states)
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.ev(n.value, st):
            out.extend(self.assign(n.target, v, s, n) if s.ctrl is None else [s])
        return out

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if self.stack and self.stack[-1].node.__class__ is ast.Module and self.stack[-1].mod.globals is not None:
                self.stack[-1].mod.globals[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.set_attr(s, b, t.attr, v, t) if s.ctrl is None else [s])
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, vs in self.ev_many([t.value], st):
                    for s2, sl in self.ev_Slice(t.slice, s):
                        out.extend(self.models.set_item(self, s2, vs[0], sl, v, t) if s2.ctrl is None else [s2])
                return out
            for s, vs in self.ev_many([t.value, t.slice], st):
                out.extend(self.models.set_item(self, s, vs[0], vs[1], v, t) if s.ctrl is None else [s])
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, len(t.elts), node, t.elts)
            states = [st]
            for x, val in zip(t.elts, vals):
                nxt = []
                for s in states:
                    tgt = x.value if isinstance(x, ast.Starred) else x
                    nxt.extend(self.assign(tgt, val, s, node))
                states = nxt
            return states
        raise self.err("assignment target", node)

    def unpack(self, st, v, n, node, elts=()):
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        seq = self.seq_of(st, v)
        items = self.concrete(seq) if seq is not None else None
        if items is not None:
            if stars:
                i = stars[0]
                k = len(items) - (n - 1)
                return items[:i] + [self.new_list(st, items[i:i + k])] + items[i + k:]
            if len(items) != n:
                raise self.err(f"unpacking {len(items)} values in {n}", node)
            return items
        if stars:
            raise self.err("starred unpacking of unknown", node)
        d = self.deref(st, v)
        return [self.models.item(self, st, d, const(i)) for i in range(n)]

    def ex_AugAssign(self, n, st):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            loads = [ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)]
            for s, vs in self.ev_many(loads + [n.value], st):
                if s.ctrl is not None:
                    out.append(s)
                    continue
                for s2, v in self.aug(s, n.op, vs[0], vs[1], n):
                    s2.env[t.id] = v
                    out.append(s2)
            return out
        if isinstance(t, ast.Attribute):
            for s, vs in self.ev_many([t.value, n.value], st):
                if s.ctrl is not None:
                    out.append(s)
                    continue
                for s1, old in self.get_attr(s, vs[0], t.attr, t):
                    for s2, v in self.aug(s1, n.op, old, vs[1], n):
                        out.extend(self.set_attr(s2, vs[0], t.attr, v, t))
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                for s, vs in self.ev_many([t.value, n.value], st):
                    for s1, sl in self.ev_Slice(t.slice, s):
                        for s2, old in self.get_item(s1, vs[0], sl, t):
                            for s3, v in self.aug(s2, n.op, old, vs[1], n):
                                out.extend(self.models.set_item(self, s3, vs[0], sl, v, t))
                return out
            for s, vs in self.ev_many([t.value, t.slice, n.value], st):
                if s.ctrl is not None:
                    out.append(s)
                    continue
                for s1, old in self.get_item(s, vs[0], vs[1], t):
                    if s1.ctrl is not None:
                        out.append(s1)
                        continue
                    for s2, v in self.aug(s1, n.op, old, vs[2], n):
                        out.extend(self.models.set_item(self, s2, vs[0], vs[1], v, t))
            return out
        raise self.err("augmented assignment", n)

    def aug(self, st, op, old, v, node):
        if isinstance(op, ast.Add) and old.op == "ref" and st.heap.get(old) is not None and st.heap[old].kind == "list":
            q = self.seq_of(st, v)
            if q is None:
                raise self.err("list +=", node)
            st.heap[old] = HObj("list", mk("seq", *(st.heap[old].data.a + q.a)))
            return [(st, old)]
        r = self.binop(st, op, old, v, node)
        if old.op == "ref" and st.heap.get(old) is not None and st.heap[old].kind == "nd":
            # numpy in-place arithmetic keeps the identity of the array
            res = []
            for s, x in r:
                s.heap[old] = HObj("nd", self.models.narrowed(self, old, x))
                self.event(s, "ndwrite", "aug", recv=old, args={"value": x}, node=node)
                res.append((s, old))
            return res
        if old.op in ("sym", "call", "loc", "at", "attr", "setattr", "setitem") and is_table(old):
            for s, _ in r:
                self.event(s, "aug", "inplace", recv=old, args={"value": v}, node=node)
        return r

    def ex_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.ev_many([t.value, t.slice], s):
                        r = self.models.call_method(self, s2, vs[0], "pop", [vs[1]], {}, n)
                        nxt.extend(x for x, _ in r)
                else:
                    raise self.err("del", n)
            states = nxt
        return states

    def ex_If(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            c = self.truth(s, v)
            for s2, b in self.branch(s, c):
                out.extend(self.exec_block(n.body if b else n.orelse, s2))
        live = [s for s in out if s.ctrl is None]
        if len(live) > 1 and (len(live) > self.merge_at or self.merge_at <= 1):
            out = self.merge_list(live) + [s for s in out if s.ctrl is not None]
        return out

    def ex_Raise(self, n, st):
        if n.exc is None:
            return [self.raise_(st, "reraise", (), n)]
        out = []
        for s, v in self.ev(n.exc, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            if v.op == "cls":
                out.append(self.raise_(s, v.a[0], (), n))
            elif v.op == "ref" and ty(v).startswith("obj:"):
                a = s.fields.get((v, "args"), mk("tuple"))
                out.append(self.raise_(s, ty(v)[4:], a.a, n))
            elif v.op == "ext":
                out.append(self.raise_(s, v.a[0].split(".")[-1], (), n))
            else:
                out.append(self.raise_(s, "Exception", (v,), n))
        return out

    def ex_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                if b:
                    out.append(s2)
                else:
                    out.append(self.raise_(s2, "AssertionError", (), n))
        return out

    def ex_Try(self, n, st):
        self.try_depth += 1
        names = []
        for h in n.handlers:
            names.append(self.handler_names(h, st))
        self.try_handlers = getattr(self, "try_handlers", []) + [[x for ns in names for x in ns]]
        try:
            body = self.exec_block(n.body, st)
        finally:
            self.try_depth -= 1
            self.try_handlers = self.try_handlers[:-1]
        out = []
        for s in body:
            if s.ctrl is not None and s.ctrl[0] == "raise":
                handled = False
                mro = self.exc_mro(s.ctrl[1]) if s.ctrl[1] != "?ext" else None
                for h, ns in zip(n.handlers, names):
                    if mro is None or not ns or any(x in mro for x in ns) or "BaseException" in ns or (s.ctrl[1] == "?ext"):
                        exc = s.ctrl
                        s.ctrl = None
                        if h.name:
                            s.env[h.name] = mk("exc", exc[1], self.fresh())
                        r = self.exec_block(h.body, s)
                        for q in r:
                            if q.ctrl is not None and q.ctrl[0] == "raise" and q.ctrl[1] == "reraise":
                                q.ctrl = exc
                        out.extend(r)
                        handled = True
                        break
                if not handled:
                    out.append(s)
            elif s.ctrl is None and n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append(s)
        if n.finalbody:
            res = []
            for s in out:
                ctrl = s.ctrl
                s.ctrl = None
                for q in self.exec_block(n.finalbody, s):
                    if q.ctrl is None:
                        q.ctrl = ctrl
                    res.append(q)
            out = res
        return out

    def handler_names(self, h, st):
        if h.type is None:
            return []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            if isinstance(t, ast.Attribute):
                out.append(t.attr)
            elif isinstance(t, ast.Name):
                out.append(t.id)
            else:
                raise self.err("except clause", h)
        return out

    def ex_With(self, n, st):
        states = [st]
        for it in n.items:
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                    continue
                for s2, v in self.ev(it.context_expr, s):
                    if s2.ctrl is None and it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, s2, n))
                    else:
                        nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            out.extend(self.exec_block(n.body, s) if s.ctrl is None else [s])
        return out

    def ex_Import(self, n, st):
        for a in n.names:
            tgt = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            v = mk("module", full) if full in self.repo.modules else self.models.ext_attr(full)
            st.env[tgt] = v
        return [st]

    def ex_ImportFrom(self, n, st):
        mod = n.module or ""
        if n.level:
            base = self.stack[-1].mod.name.split(".")
            is_pkg = self.stack[-1].mod.path.endswith("__init__.py")
            base = base[: len(base) - n.level + (1 if is_pkg else 0)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in n.names:
            tgt = a.asname or a.name
            if mod in self.repo.modules:
                m = self.load_module(mod)
                if m.globals is not None and a.name in m.globals:
                    st.env[tgt] = self.adopt(st, m.globals[a.name])
                elif mod + "." + a.name in self.repo.modules:
                    st.env[tgt] = mk("module", mod + "." + a.name)
                else:
                    return [self.raise_(st, "ImportError", (const(a.name),), n)]
            else:
                st.env[tgt] = self.models.ext_attr(mod + "." + a.name)
        return [st]

    def ex_FunctionDef(self, n, st):
        fi0 = self.stack[-1] if self.stack else None
        nested = fi0 is not None and not isinstance(fi0.node, ast.Module)
        qual = (fi0.qual + "." + n.name) if nested else f"{fi0.mod.name}.{n.name}"
        fi = FuncInfo(n, fi0.mod, fi0.cls if nested else None, qual, env=dict(st.env) if nested else None)
        v = self.func_value(fi)
        if nested:
            fi.env[n.name] = v
        for d in n.decorator_list:
            # decorators of plain functions are applied when they are functions of the repository
            r = self.ev(d, st)
            if len(r) == 1 and r[0][1].op == "func":
                rr = self.call(r[0][0], r[0][1], [v], {}, d)
                v = rr[0][1]
        st.env[n.name] = v
        if not nested and fi0.mod.globals is not None:
            fi0.mod.globals[n.name] = v
        return [st]

    def ex_ClassDef(self, n, st):
        fi0 = self.stack[-1]
        bases = []
        for b in n.bases:
            if isinstance(b, ast.Name):
                bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                bases.append(b.attr)
        ci = ClassInfo(n.name, fi0.mod, n, bases)
        self.repo.classes[n.name] = ci
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                kind = "plain"
                prop = setter = False
                for d in x.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        prop = True
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        setter = True
                    elif isinstance(d, ast.Attribute) and d.attr == "cached_property" or isinstance(d, ast.Name) and d.id == "cached_property":
                        prop = True
                        kind = "cached"
                    elif isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                        kind = d.id
                fi = FuncInfo(x, fi0.mod, n.name, f"{n.name}.{x.name}" + (".setter" if setter else ""), kind=kind)
                v = self.func_value(fi)
                if setter:
                    ci.setters[x.name] = v
                elif prop:
                    ci.props[x.name] = v
                else:
                    ci.methods[x.name] = v
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = self.ev(x.value, st)[0][1]
        st.env[n.name] = mk("cls", n.name)
        if fi0.mod.globals is not None:
            fi0.mod.globals[n.name] = mk("cls", n.name)
        return [st]

    # ------------------------------------------------------------ merging
    def merge_list(self, states):
        if len(states) <= 1:
            return states
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return [acc]

    def merge_pairs(self, pairs):
        live = [(s, v) for s, v in pairs if s.ctrl is None]
        rest = [(s, v) for s, v in pairs if s.ctrl is not None]
        if len(live) > 1:
            for s, v in live:
                s.env["%ret"] = v
            m = self.merge_list([s for s, _ in live])[0]
            v = m.env.pop("%ret")
            live = [(m, v)]
        return live + rest

    def merge2(self, a, b):
        """join of two states; differing values become ite terms on the distinguishing facts"""
        fa, fb = list(a.facts), list(b.facts)
        common = [f for f in fa if f in fb]
        da = [f for f in fa if f not in common]
        db = [f for f in fb if f not in common]
        ca, cb = and_(*da), and_(*db)
        # a condition which separates the two
        c = None
        for f in da:
            if not_(f) in db:
                c = f
                break
        if c is None:
            c = ca if ca is not TRUE else not_(cb)
        r = St()
        r.facts = common
        o = or_(ca, cb)
        if o is not TRUE:
            r.facts.append(o)
        r.loops = a.loops
        r.ireads = a.ireads | b.ireads
        r.absent = a.absent & b.absent
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k), b.env.get(k)
            if va is None or vb is None:
                r.env[k] = va if va is not None else vb
                continue
            r.env[k] = self.merge_val(r, a, b, c, va, vb)
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            va, vb = self.read_field(a, *k), self.read_field(b, *k)
            if va is None:
                va = mk("attr", k[0], k[1]) if k[0].op != "ref" else vb
            if vb is None:
                vb = mk("attr", k[0], k[1]) if k[0].op != "ref" else va
            r.fields[k] = self.merge_val(r, a, b, c, va, vb)
        if a.fams == b.fams:
            r.fams = dict(a.fams)
        else:
            for k in list(a.fams) + [k for k in b.fams if k not in a.fams]:
                fa_, fb_ = a.fams.get(k), b.fams.get(k)
                vs = (fa_ or fb_)[0]
                va = fa_[1] if fa_ else mk("attr", k[0], k[1])
                vb = fb_[1] if fb_ else mk("attr", k[0], k[1])
                r.fams[k] = (vs, va if va is vb else ite(c, va, vb))
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            ha, hb = a.heap.get(k), b.heap.get(k)
            if ha is None or hb is None or ha is hb or ha.same(hb):
                r.heap[k] = ha if ha is not None else hb
                continue
            r.heap[k] = self.merge_heap(r, a, b, c, ha, hb)
        for k in set(a.cells) | set(b.cells):
            va, vb = a.cells.get(k, k), b.cells.get(k, k)
            r.cells[k] = va if va is vb else ite(c, va, vb)
        i = 0
        while i < len(a.events) and i < len(b.events) and a.events[i] is b.events[i]:
            i += 1
        r.events = a.events[:i]
        ra, rb = a.events[i:], b.events[i:]
        if ra or rb:
            r.events.append(Ev("if", "if", args={"cond": c}, facts=tuple(common), sub=(ra, rb), loops=a.loops))
        r.ctrl = a.ctrl
        return r

    def merge_val(self, r, a, b, c, va, vb):
        if va is vb:
            return va
        # both references to fresh containers: merge by content
        ha = a.heap.get(va) if va.op == "ref" else None
        hb = b.heap.get(vb) if vb.op == "ref" else None
        if ha is not None and hb is not None and ha.kind == hb.kind and ha.kind in ("list", "nd", "dict"):
            if va not in b.heap or vb not in a.heap:
                h = self.merge_heap(r, a, b, c, ha, hb)
                n = mk("ref", self.fresh(), ty(va))
                r.heap[n] = h
                return n
        if ha is not None and ha.kind == "nd" and hb is None and vb.op not in ("c",):
            va = ha.data
        if hb is not None and hb.kind == "nd" and ha is None and va.op not in ("c",):
            vb = hb.data
        return ite(c, va, vb)

    def merge_heap(self, r, a, b, c, ha, hb):
        if ha.kind == "list" and hb.kind == "list" or ha.kind == "set" and hb.kind == "set":
            x, y = ha.data.a, hb.data.a
            i = 0
            while i < len(x) and i < len(y) and x[i] is y[i]:
                i += 1
            j = 0
            while j < len(x) - i and j < len(y) - i and x[-1 - j] is y[-1 - j]:
                j += 1
            mx_, my = x[i:len(x) - j], y[i:len(y) - j]
            if len(mx_) == len(my) and all(p.op == "lit" and q.op == "lit" for p, q in zip(mx_, my)):
                mid = [mk("lit", ite(c, p.a[0], q.a[0])) for p, q in zip(mx_, my)]
            else:
                mid = []
                if mx_:
                    mid.append(mk("when", c, mk("seq", *mx_)))
                if my:
                    mid.append(mk("when", not_(c), mk("seq", *my)))
            return HObj(ha.kind, mk("seq", *(list(x[:i]) + mid + list(x[len(x) - j:]))))
        if ha.kind == "dict" and hb.kind == "dict" and ha.rest is hb.rest:
            out = []
            kb = {k: (v, g) for k, v, g in hb.data}
            seen = set()
            for k, v, g in ha.data:
                if k in kb:
                    v2, g2 = kb[k]
                    out.append((k, self.merge_val(r, a, b, c, v, v2), or_(and_(c, g), and_(not_(c), g2))))
                else:
                    out.append((k, v, and_(c, g)))
                seen.add(k)
            for k, v, g in hb.data:
                if k not in seen:
                    out.append((k, v, and_(not_(c), g)))
            return HObj("dict", tuple(out), ha.rest)
        if ha.kind == "nd" and hb.kind == "nd":
            return HObj("nd", ite(c, ha.data, hb.data))
        return HObj("nd", ite(c, ha.data if isinstance(ha.data, T) else NONE, hb.data if isinstance(hb.data, T) else NONE))

    # ------------------------------------------------------------ loops
    def ex_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            out.extend(self.for_iter(n, s, it))
        return out

    def for_iter(self, n, st, it):
        """iterate over a value: unroll literal parts, summarise symbolic parts"""
        states, brk, esc = self.run_plan(n, st, self.iter_plan(st, it, n))
        if n.orelse:
            nxt = []
            for s in states:
                nxt.extend(self.exec_block(n.orelse, s))
            states = nxt
        return states + brk + esc

    def run_plan(self, n, st, plan):
        states = [st]
        brk, esc = [], []
        for item in plan:
            nxt = []
            for s in states:
                if item[0] == "one":
                    g = item[2]
                    if g is not TRUE:
                        for s2, b in self.branch(s, g):
                            if b:
                                nxt.extend(self.loop_body_once(n, s2, item[1](s2), brk, esc))
                            else:
                                nxt.append(s2)
                    else:
                        nxt.extend(self.loop_body_once(n, s, item[1](s), brk, esc))
                else:
                    seg = item[3] if len(item) > 3 else None
                    if seg is not None and seg.op == "for" and not (len(seg.a[2].a) == 1 and seg.a[2].a[0].op == "lit"):
                        # a flattened collection is iterated as the nested loops that built it
                        lvl, ln, body = seg.a

                        def nested(s1, i, lvl=lvl, body=body):
                            sub_ = subst(body, {mk("b", lvl): i})
                            st2, b2, e2 = self.run_plan(n, s1, self.seq_plan(s1, sub_))
                            for o in b2:
                                o.ctrl = ("break",)
                            return st2 + b2 + e2
                        c, b_, e_ = self.sym_loop(n, s, ln, None, nested)
                    elif seg is not None and seg.op == "when":
                        for s2, b in self.branch(s, seg.a[0]):
                            if b:
                                c, b_, e_ = self.run_plan(n, s2, self.seq_plan(s2, seg.a[1]))
                                nxt.extend(c)
                                brk.extend(b_)
                                esc.extend(e_)
                            else:
                                nxt.append(s2)
                        continue
                    else:
                        c, b_, e_ = self.sym_loop(n, s, item[1], item[2])
                    nxt.extend(c)
                    brk.extend(b_)
                    esc.extend(e_)
            states = nxt
            if len(states) > self.merge_at:
                states = self.merge_list(states)
        return states, brk, esc

    def loop_body_once(self, n, s, val, brk, esc):
        out = []
        for s1 in self.assign(n.target, val, s, n):
            if s1.ctrl is not None:
                esc.append(s1)
                continue
            for s2 in self.exec_block(n.body, s1):
                if s2.ctrl is None or s2.ctrl[0] == "continue":
                    s2.ctrl = None
                    out.append(s2)
                elif s2.ctrl[0] == "break":
                    s2.ctrl = None
                    brk.append(s2)
                else:
                    esc.append(s2)
        return out

    def iter_plan(self, st, it, n):
        """list of ('one', value_fn, guard) or ('sym', length, elem_fn(idx)->value, facts_fn)"""
        v = self.deref(st, it)
        ops = {"enumerate": 1, "zip": 1, "reversed": 1}
        if v.op == "enumerate":
            inner = self.iter_plan(st, v.a[0], n)
            start = v.a[1]
            out = []
            off = start
            for p in inner:
                if p[0] == "one":
                    out.append(("one", (lambda s, p=p, off=off: mk("tuple", off, p[1](s))), p[2]))
                    off = add(off, ind(p[2]))
                else:
                    out.append(("sym", p[1], (lambda s, i, p=p, off=off: (lambda r: (mk("tuple", add(off, i), r[0]), r[1]))(p[2](s, i)))))
                    off = add(off, p[1])
            return out
        if v.op == "zip":
            plans = [self.iter_plan(st, x, n) for x in v.a]
            if all(all(p[0] == "one" and p[2] is TRUE for p in pl) for pl in plans):
                m = min(len(pl) for pl in plans)
                return [("one", (lambda s, i=i: mk("tuple", *[pl[i][1](s) for pl in plans])), TRUE) for i in range(m)]
            syms = [pl for pl in plans if len(pl) == 1 and pl[0][0] == "sym"]
            if len(syms) == len(plans):
                ns = [pl[0][1] for pl in plans]
                length = ns[0] if all(x is ns[0] for x in ns) else mn(*ns)

                def el(s, i):
                    vals, fs = [], []
                    for pl in plans:
                        a, f = pl[0][2](s, i)
                        vals.append(a)
                        fs += f
                    return mk("tuple", *vals), fs
                return [("sym", length, el)]
            # a concrete sequence against an unknown one: unroll, guarded by its length
            conc = [pl for pl in plans if all(p[0] == "one" and p[2] is TRUE for p in pl)]
            if conc:
                m = min(len(pl) for pl in conc)
                out = []
                for i in range(m):
                    g = TRUE
                    for pl in plans:
                        if pl in conc:
                            continue
                        if len(pl) != 1:
                            raise self.err("zip", n)
                        g = and_(g, lt(const(i), pl[0][1]))

                    def val(s, i=i):
                        vs = []
                        for pl in plans:
                            vs.append(pl[i][1](s) if pl in conc else pl[0][2](s, const(i))[0])
                        return mk("tuple", *vs)
                    out.append(("one", val, g))
                return out
            raise self.err("zip of unknown sequences", n)
        if v.op == "reversed":
            inner = self.iter_plan(st, v.a[0], n)
            if all(p[0] == "one" for p in inner):
                return inner[::-1]
            if len(inner) == 1:
                p = inner[0]
                return [("sym", p[1], lambda s, i: p[2](s, sub(sub(p[1], ONE), i)))]
            raise self.err("reversed", n)
        if v.op == "dictitems":
            h = st.heap.get(v.a[0])
            if h is not None and h.rest is None:
                return [("one", (lambda s, k=k: mk("tuple", k, [vv for kk, vv, _ in s.heap[v.a[0]].data if kk is k][0])), g) for k, _, g in h.data]
        if v.op == "range" and v.a[0] is ZERO and v.a[2] is ONE and v.a[1] in self.len_src:
            out = self.index_plan(st, self.len_src[v.a[1]])
            if out is not None:
                return out
        seq = self.seq_of(st, it)
        if seq is None:
            raise self.err("iteration over " + v.op, n)
        return self.seq_plan(st, seq)

    def index_plan(self, st, seq):
        """the indices of a list, segment by segment (a partition of the range of its length)"""
        if not all(x.op in ("lit", "star") or x.op == "for" and len(x.a[2].a) == 1 and x.a[2].a[0].op == "lit" for x in seq.a):
            return None
        out, off = [], ZERO
        for p in self.seq_plan(st, seq):
            if p[0] == "one":
                self.idx_elem[(seq, off)] = p[1](st)
                out.append(("one", (lambda s, off=off: off), TRUE))
                off = add(off, ONE)
            else:
                def el(s, i, p=p, off=off):
                    x, fs = p[2](s, i)
                    self.idx_elem[(seq, add(off, i))] = x
                    return add(off, i), fs
                out.append(("sym", p[1], el))
                off = add(off, p[1])
        return out

    def seq_plan(self, st, seq):
        out = []
        for seg in seq.a:
            if seg.op == "lit":
                out.append(("one", (lambda s, x=seg.a[0]: x), TRUE))
            elif seg.op == "when" and all(x.op == "lit" for x in seg.a[1].a):
                for x in seg.a[1].a:
                    out.append(("one", (lambda s, x=x: x.a[0]), seg.a[0]))
            else:
                ln = self.seg_len(st, seg)
                out.append(("sym", ln, lambda s, i, seg=seg: self.seg_elem(s, seg, i), seg))
        return out

    def seg_elem(self, st, seg, i):
        """element i of a symbolic segment, with facts about it"""
        if seg.op == "star":
            S = seg.a[0]
            if S.op == "range":
                a, b, stp = S.a
                v = add(a, mul(i, stp))
                return v, ([lt(v, b)] if stp is ONE else [])
            return self.models.item(self, st, S, i), []
        if seg.op == "for":
            lvl, n, body = seg.a
            if len(body.a) == 1 and body.a[0].op == "lit":
                b = mk("b", lvl)
                return subst(body.a[0].a[0], {b: i}), []
        return mk("at", mk("seq", seg), i), []

    def changed_locs(self, before, after, bound):
        out = set()
        for k, v in after.env.items():
            if k in bound:
                continue
            o = before.env.get(k)
            if o is None or o is not v:
                out.add(("env", k))
        for k, v in after.fields.items():
            if before.fields.get(k) is not v:
                if k[0].op == "ref" and k[0] not in before.heap:
                    continue
                out.add(("field", k))
        for k, v in after.fams.items():
            o = before.fams.get(k)
            if o is None or o[1] is not v[1]:
                out.add(("fam", (k, v[0])))
        for k, h in after.heap.items():
            b = before.heap.get(k)
            if b is not None and not b.same(h):
                out.add(("heap", k))
        for k, v in after.cells.items():
            if before.cells.get(k, k) is not v:
                out.add(("cell", k))
        return out

    def loc_get(self, st, loc):
        kind, k = loc
        if kind == "env":
            return st.env.get(k)
        if kind == "field":
            v = self.read_field(st, k[0], k[1])
            return v if v is not None else mk("attr", k[0], k[1])
        if kind == "heap":
            return st.heap[k]
        if kind == "fam":
            f = st.fams.get(k[0])
            return f[1] if f else mk("attr", k[0][0], k[0][1])
        if kind == "cell":
            return st.cells.get(k, k)

    def havoc(self, st, locs, u):
        """replace loop-carried locations by fresh symbols; returns {loc: symbol}"""
        syms = {}
        for loc in sorted(locs, key=lambda l: (l[0], str(l[1]))):
            kind, k = loc
            old = self.loc_get(st, loc)
            if kind == "fam":
                lv = mk("lv", f"fam:{k[0][1]}:{k[0][0].k}", u, "unk", k[1])
                st.fams.pop(k[0], None)
                st.fams[k[0]] = (k[1], lv)
                for fk in list(st.fields):
                    if fk[1] == k[0][1] and match(k[0][0], fk[0], k[1], {}):
                        del st.fields[fk]
                syms[loc] = lv
                continue
            nm = f"{kind}:{k if kind == 'env' else (k[1] + ':' + k[0].k if kind == 'field' else k.a[0])}"
            if kind == "heap":
                if old.kind in ("list", "set"):
                    lv = mk("lv", nm, u, "seq")
                    st.heap[k] = HObj(old.kind, mk("seq", mk("star", lv)))
                elif old.kind == "dict":
                    lv = mk("lv", nm, u, "dict")
                    st.heap[k] = HObj("dict", (), lv)
                elif old.kind == "nd":
                    lv = mk("lv", nm, u, "nd")
                    st.heap[k] = HObj("nd", lv)
                else:
                    lv = mk("lv", nm, u, "unk")
                syms[loc] = lv
                continue
            if kind == "env" and old is None:
                continue
            t = self.lv_type(st, loc, old)
            if old is not None and old.op == "ref" and old in st.heap and st.heap[old].kind == "nd":
                lv = mk("lv", nm, u, "nd")
                syms[loc] = lv
                if kind == "env":
                    st.env[k] = lv
                elif kind == "field":
                    # arrays held in a field keep being arrays with unknown content
                    st.fields[k] = lv
                continue
            lv = mk("lv", nm, u, t)
            syms[loc] = lv
            if kind == "env":
                st.env[k] = lv
            elif kind == "field":
                st.fields[k] = lv
            else:
                st.cells[k] = lv
        return syms

    def lv_type(self, st, loc, old):
        t = ty(old)
        h = self.lv_hint.get(loc) if hasattr(self, "lv_hint") and self.lv_hint else None
        if h is not None and h != t:
            if {h, t} <= {"int", "num", "float"}:
                return "num"
            if {h, t} <= {"int", "num", "float", "nd"}:
                return "nd"
            return "unk"
        if t in ("float",):
            return "num"
        return t

    def sym_loop(self, n, st, length, elem, runner=None):
        """summarise a for loop over a symbolic segment.
        returns (normal exits, break exits, escaping (return/raise) exits)"""
        u = self.fresh()
        bvt = mk("bv", u)
        d0 = self.decide(st, lt(ZERO, length))
        if d0 is False:
            return [st], [], []
        bound = set()
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                bound.add(x.id)
        base = st.copy()

        uid0 = self.uid

        def run(locs):
            self.uid = uid0
            s = base.copy()
            lvs = self.havoc(s, locs, u)
            s.loops = s.loops + (bvt,)
            s.assume(le(ZERO, bvt))
            s.assume(lt(bvt, length))
            nev = len(s.events)
            head = s.copy()
            outs = []
            if runner is not None:
                outs = runner(s, bvt)
            else:
                val, fs = elem(s, bvt)
                for f in fs:
                    s.assume(f)
                for s1 in self.assign(n.target, val, s, n):
                    outs.extend(self.exec_block(n.body, s1) if s1.ctrl is None else [s1])
            outs = [o for o in outs if self.consistent(o)]
            return head, lvs, outs, nev

        locs = set()
        self.lv_hint = {}
        for rnd in range(7):
            head, lvs, outs, nev = run(locs)
            cont = [o for o in outs if o.ctrl is None or o.ctrl[0] == "continue"]
            new = set()
            for o in cont:
                new |= self.changed_locs(head, o, bound)
            types_ok = True
            for o in cont:
                for loc in new | locs:
                    nv = self.loc_get(o, loc) if loc[0] != "heap" else None
                    if nv is not None and loc in lvs:
                        t1, t2 = ty(lvs[loc]), ty(nv)
                        if t1 != t2 and t1 != "unk" and not (t1 == "num" and t2 in ("int", "float")) and not (t1 == "nd"):
                            self.lv_hint[loc] = t2
                            types_ok = False
            if new <= locs and types_ok:
                break
            if new <= locs and rnd > 4:
                break
            locs |= new
        else:
            raise self.err("loop summary does not stabilise", n)
        for o in cont:
            o.ctrl = None
        exits = []
        # ------ exit after all iterations
        ex = base.copy()
        if cont:
            m = self.merge_list([c.copy() for c in cont])[0] if len(cont) > 1 else cont[0]
            body_events = m.events[nev:]
            # objects allocated in the body stay visible for the rules
            for k, h in m.heap.items():
                if k not in ex.heap:
                    ex.heap[k] = h
            for k, v in m.fields.items():
                if k[0].op == "ref" and k[0] not in base.heap:
                    ex.fields[k] = v
            finals = {}
            for loc in locs:
                finals[loc] = self.reduce_loc(loc, base, lvs.get(loc), m, length, bvt, u, lvs)
            ex.heap.update(self.late_heap)
            for loc, fv in finals.items():
                kind, k = loc
                if kind == "env":
                    if fv is not None:
                        ex.env[k] = fv
                elif kind == "field":
                    if bvt.a[0] in k[0].bv:
                        continue
                    ex.fields[k] = fv
                elif kind == "fam":
                    if bvt.a[0] not in k[0][0].bv:
                        self.add_family(ex, k[0][0], k[0][1], k[1], fv)
                elif kind == "heap":
                    ex.heap[k] = fv
                else:
                    ex.cells[k] = fv
            # fields written for each element
            for loc in locs:
                kind, k = loc
                pat, nm, vs = (k[0], k[1], ()) if kind == "field" else ((k[0][0], k[0][1], k[1]) if kind == "fam" else (None, None, None))
                if pat is None or bvt.a[0] not in pat.bv:
                    continue
                new_ = self.loc_get(m, loc)
                if new_ is lvs.get(loc):
                    continue
                if loc in lvs:
                    new_ = subst(new_, {lvs[loc]: mk("attr", pat, nm)})
                if m.heap.get(new_) is not None and m.heap[new_].kind == "nd":
                    new_ = m.heap[new_].data
                fv_ = mk("sym", f"fam{len(vs)}", "int")
                if contains(new_, lambda t: t.op == "lv" and t.a[1] == u):
                    new_ = mk("famout", nm, u, vs + (bvt,))
                new_ = self.snap(m, new_)
                self.add_family(ex, subst(pat, {bvt: fv_}), nm, vs + (fv_,), subst(new_, {bvt: fv_}))
            ex.ireads = ex.ireads | m.ireads
            if body_events:
                ex.events.append(Ev("loop", "for", args={"n": length, "bv": bvt}, facts=tuple(base.facts), node=n,
                                    fn=self.stack[-1].qual, loops=base.loops, sub=body_events, extra=elem))
            # facts that hold of every iteration that went on
            if len(outs) != len(cont):
                common = None
                pf = []
                for c_ in cont:
                    d = [f for f in c_.facts if f not in head.facts and u in f.bv and not contains(f, lambda t: t.op == "lv" and t.a[1] == u)]
                    pf.append(and_(*d))
                o = or_(*pf)
                if o is not TRUE:
                    ex.assume(self.close("forall", length, bvt, o))
            exits.append(ex)
        else:
            # no iteration goes on: the loop is left in the first iteration, or does not run
            if d0 is not True:
                ex.assume(le(length, ZERO))
                exits.append(ex)
        brk, esc = [], []
        for o in outs:
            if o.ctrl is None:
                continue
            if o.ctrl[0] in ("break",):
                o.ctrl = None
                brk.append(self.leave(o, base, locs, nev, n, bvt, length))
            elif o.ctrl[0] in ("return", "raise"):
                esc.append(self.leave(o, base, locs, nev, n, bvt, length))
        return exits, brk, esc

    def leave(self, o, base, locs, nev, n, bvt, length):
        o.loops = base.loops
        if nev < len(o.events):
            pre, body = o.events[:nev], o.events[nev:]
            o.events = pre + [Ev("loopexit", "for", args={"n": length, "bv": bvt}, facts=tuple(base.facts), node=n,
                                 fn=self.stack[-1].qual, loops=base.loops, sub=body)]
        return o

    def reduce_loc(self, loc, base, lv, m, length, bvt, u, lvs):
        """value of a location after the loop"""
        kind, k = loc
        alllv = set(lvs.values())
        uses_lv = lambda t: contains(t, lambda s: s.op == "lv" and s.a[1] == u)
        if kind == "heap":
            old, new = base.heap[k], m.heap[k]
            if old.kind in ("list", "set"):
                segs = new.data.a
                if segs and segs[0].op == "star" and segs[0].a[0] is lv:
                    rest = self.freeze_new(m, base, mk("seq", *segs[1:]), bvt)
                    if not uses_lv(rest):
                        return HObj(old.kind, mk("seq", *(old.data.a + self.flat_for(length, bvt, rest))))
                if old.kind == "list" and len(segs) > 1 and segs[-1].op == "star" and segs[-1].a[0] is lv:
                    rest = self.freeze_new(m, base, mk("seq", *segs[:-1]), bvt)
                    if not uses_lv(rest):
                        return HObj(old.kind, mk("seq", *(self.backwards(length, bvt, rest) + old.data.a)))
                # conditional append merged as when
                return HObj(old.kind, mk("seq", mk("star", mk("loopout", f"list", u, k.a[0]))))
            if old.kind == "dict":
                if new.rest is lv and old.rest is None:
                    ok = all(not uses_lv(v) and not uses_lv(g) and not uses_lv(kk) for kk, v, g in new.data)
                    if ok:
                        out = list(old.data)
                        for kk, v, g in new.data:
                            if bvt.a[0] in kk.bv:
                                out.append((self.close("fordict", length, bvt, mk("kv", kk, v, g)), mk("entry",), TRUE))
                            else:
                                out.append((kk, mk("last", length, self.close("for", length, bvt, mk("seq", mk("lit", v)))), g))
                        return HObj("dict", tuple(out), None)
                return HObj("dict", (), mk("loopout", "dict", u, k.a[0]))
            if old.kind == "nd":
                return HObj("nd", self.reduce_val(old.data, lv, new.data, length, bvt, u, uses_lv, f"nd{k.a[0]}"))
            return new
        old, new = self.loc_get(base, loc), self.loc_get(m, loc)
        if lv is None:
            # unbound before the loop: last value
            return mk("last", length, self.close("for", length, bvt, mk("seq", mk("lit", self.snap(m, new))))) if not uses_lv(new) else mk("loopout", str(k), u)
        oldd = self.deref(base, old)
        newd = self.deref(m, new)
        if new.op == "ref" and m.heap.get(new) is not None and m.heap[new].kind == "list" and old.op == "ref" and base.heap[old].kind == "list":
            segs = m.heap[new].data.a
            if segs and segs[0].op == "star" and segs[0].a[0] is lv and not uses_lv(mk("seq", *segs[1:])):
                r = mk("ref", self.fresh(), "seq")
                h = HObj("list", mk("seq", *(base.heap[old].data.a + self.flat_for(length, bvt, mk("seq", *segs[1:])))))
                m.heap[r] = h
                base.heap[r] = h
                self._pending = (r, h)
                return self._reg(base, r, h)
            if len(segs) > 1 and segs[-1].op == "star" and segs[-1].a[0] is lv and not uses_lv(mk("seq", *segs[:-1])):
                r = mk("ref", self.fresh(), "seq")
                h = HObj("list", mk("seq", *(self.backwards(length, bvt, mk("seq", *segs[:-1])) + base.heap[old].data.a)))
                m.heap[r] = h
                base.heap[r] = h
                self._pending = (r, h)
                return self._reg(base, r, h)
            return mk("loopout", str(k), u)
        return self.reduce_val(oldd, lv, newd, length, bvt, u, uses_lv, str(k))

    def freeze_new(self, m, base, t, bvt):
        """containers created by the iteration, whose content depends on it, replaced by that content"""
        sub_ = {}
        for x in subterms(t):
            if x.op == "ref" and x not in base.heap and x in m.heap and m.heap[x].kind in ("nd", "list", "dict", "set"):
                v = self.snap(m, x)
                if bvt.a[0] in v.bv:
                    sub_[x] = v
        return subst(t, sub_) if sub_ else t

    def _reg(self, base, r, h):
        # exits are copies of base taken earlier; containers are registered through a side table
        self.late_heap[r] = h
        return r

    def backwards(self, length, bvt, bodyseq):
        """segments of a list to which each iteration adds at the front"""
        return self.flat_for(length, bvt, subst(bodyseq, {bvt: sub(sub(length, ONE), bvt)}))

    def flat_for(self, length, bvt, bodyseq):
        """segments for 'for i < n: body', with simplifications"""
        if not bodyseq.a:
            return ()
        # [S[i] for i < len S]  ==  S
        if len(bodyseq.a) == 1 and bodyseq.a[0].op == "lit":
            x = bodyseq.a[0].a[0]
            if x.op == "at" and x.a[1] is bvt and bvt.a[0] not in x.a[0].bv and mk("len", x.a[0]) is length:
                return (mk("star", x.a[0]),)
        return (self.close("for", length, bvt, bodyseq),)

    def reduce_val(self, old, lv, new, length, bvt, u, uses_lv, name):
        if new is lv:
            return old
        if not uses_lv(new):
            if bvt.a[0] not in new.bv:
                # same value at each iteration (if there is one)
                if is_num(length) and length.a[1] > 0:
                    return new
                return ite(lt(ZERO, length), new, old)
            return mk("last", length, self.close("for", length, bvt, mk("seq", mk("lit", new))), old)
        if new.op in ("rows",):
            if new.a and new.a[0] is lv and not any(uses_lv(x) for x in new.a[1:]):
                base_rows = old.a if old.op == "rows" else (old,)
                return mk("rows", *base_rows, self.close("for", length, bvt, mk("seq", *[mk("lit", x) for x in new.a[1:]])))
        if new.op == "concat":
            if new.a[0] is lv and not any(uses_lv(x) for x in new.a[1:]):
                segs = []
                return mk("concat", *((old.a if old.op == "concat" else (old,)) + (self.close("for", length, bvt, mk("seq", *[mk("star", x) for x in new.a[1:]])),)))
        if new.op == "strcat" and new.a[0] is lv and not any(uses_lv(x) for x in new.a[1:]):
            return strcat(old, self.close("for", length, bvt, mk("seq", *[mk("lit", x) for x in new.a[1:]])))
        if new.op == "store" and new.a[0] is lv and not any(uses_lv(x) for x in new.a[1:]):
            return mk("stores", old, self.close("for", length, bvt, mk("seq", mk("lit", mk("tuple", new.a[1], new.a[2])))))
        if new.op == "store" and new.a[0] is lv and not uses_lv(new.a[1]):
            # a cell which is read only where it is written
            i = new.a[1]
            k = self.models.row_key(i)
            here = [t for t in {at for mo in to_poly(new.a[2]) for at, e in mo} if t.op == "at" and t.a[0] is lv and (t.a[1] is i or self.models.row_key(t.a[1]) is k is not None)]
            if here and k is not None:
                was = self.models.row_get2(old, k) if self.models.matrix(old) else None
                was = mk("at", old, k) if was is None else was
                p = to_poly(k)
                if bvt.a[0] not in k.bv:
                    rest = sub(new.a[2], here[0]) if len(here) == 1 else lv
                    if not uses_lv(rest):
                        return mk("store", old, i, add(was, self.close_sum(length, bvt, rest)))
                elif p.get(((bvt, 1),)) in (1, -1) and not any(bvt.a[0] in t.bv for mo in p for t, e in mo if t is not bvt) and not any(
                        any(t is bvt for t, e in mo) and mo != ((bvt, 1),) for mo in p):
                    val = subst(new.a[2], {t: was for t in here})
                    if not uses_lv(val):
                        return mk("stores", old, self.close("for", length, bvt, mk("seq", mk("lit", mk("tuple", i, val)))))
        if new.op == "max" and lv in new.a and not any(uses_lv(x) for x in new.a if x is not lv):
            rest = [x for x in new.a if x is not lv]
            return mk("maxfold", old, self.close("for", length, bvt, mk("seq", *[mk("lit", x) for x in rest])))
        if new.op == "ite" and uses_lv(new):
            # conditional update of an opaque location
            pass
        p = to_poly(new)
        key = ((lv, 1),)
        if p.get(key) == 1:
            rest = from_poly({mo: c for mo, c in p.items() if mo != key})
            if not uses_lv(rest):
                return add(old, self.close_sum(length, bvt, rest))
        return mk("fold", u, name, old, mk("lit", new))

    def counted(self, n):
        """a while loop which counts: (counter, bound expression, inclusive, equivalent for loop)"""
        if hasattr(n, "_counted"):
            return n._counted
        n._counted = None
        t = n.test
        if n.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(n.body) < 2:
            return None
        i, op, e = t.left, type(t.ops[0]).__name__, t.comparators[0]
        last = n.body[-1]

        def one(x):
            return isinstance(x, ast.Constant) and type(x.value) is int and x.value == 1
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.op, ast.Add) and one(last.value):
            cnt = last.target.id
        elif (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp)
              and isinstance(last.value.op, ast.Add) and (one(last.value.right) and isinstance(last.value.left, ast.Name) and last.value.left.id == last.targets[0].id
                                                          or one(last.value.left) and isinstance(last.value.right, ast.Name) and last.value.right.id == last.targets[0].id)):
            cnt = last.targets[0].id
        else:
            return None
        if not (isinstance(i, ast.Name) and i.id == cnt):
            i, e = e, i
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if not (isinstance(i, ast.Name) and i.id == cnt) or op not in ("Lt", "LtE"):
            return None
        stored = {x.id for s in n.body[:-1] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if cnt in stored or any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(e)):
            return None

        def ctl(stmts):
            out = set()
            for s in stmts:
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(s, (ast.Break, ast.Continue)):
                    out.add(type(s).__name__)
                for f in ("body", "orelse", "finalbody"):
                    out |= ctl(getattr(s, f, None) or [])
                for h in getattr(s, "handlers", None) or []:
                    out |= ctl(h.body)
            return out
        c = ctl(n.body)
        if "Continue" in c:
            return None
        if "Break" in c:
            inside = {id(x) for x in ast.walk(n)}
            if any(isinstance(x, ast.Name) and x.id == cnt and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.stack[-1].node)):
                return None
        f = ast.For(target=ast.copy_location(ast.Name(id=cnt, ctx=ast.Store()), n), iter=e, body=n.body[:-1], orelse=[], type_comment=None)
        n._counted = (cnt, e, op == "LtE", ast.copy_location(f, n))
        return n._counted

    def ex_counted(self, n, st):
        cnt, e, incl, f = self.counted(n)
        lo = st.env.get(cnt)
        if lo is None or ty(lo) not in ("int",):
            return None
        r = self.pure_eval(e, st)
        if r is None or ty(r[1]) != "int":
            return None
        hi = add(r[1], ONE) if incl else r[1]
        rng = self.call(st, mk("ext", "builtins.range"), [lo, hi], {}, n)
        if len(rng) != 1 or rng[0][0].ctrl is not None:
            return None
        st, it = rng[0]
        states, brk, esc = self.run_plan(f, st, self.iter_plan(st, it, f))
        for s in states:
            r2 = self.pure_eval(e, s)
            if r2 is None or r2[1] is not r[1]:
                return None
            up = self.decide(s, le(lo, hi))
            s.env[cnt] = hi if up is True else lo if up is False else mx(lo, hi)
        return states + brk + esc

    def ex_While(self, n, st):
        if self.counted(n) is not None:
            save = st.copy()
            heap = {k: HObj(h.kind, h.data, h.rest) for k, h in st.heap.items()}
            r = self.ex_counted(n, st)
            if r is not None:
                return r
            st = save
            st.heap = heap
        u = self.fresh()
        base = st.copy()

        uid0 = self.uid

        def run(locs):
            self.uid = uid0
            s = base.copy()
            lvs = self.havoc(s, locs, u)
            s.loops = s.loops + (mk("sym", f"while{u}", "int"),)
            for inv in self.while_invs(s, base, lvs, n):
                s.assume(inv)
            nev = len(s.events)
            head = s.copy()
            outs, done = [], []
            for s1, v in self.ev(n.test, s):
                if s1.ctrl is not None:
                    outs.append(s1)
                    continue
                for s2, b in self.branch(s1, self.truth(s1, v)):
                    if b:
                        outs.extend(self.exec_block(n.body, s2))
                    else:
                        done.append(s2)
            outs = [o for o in outs if self.consistent(o)]
            done = [o for o in done if self.consistent(o)]
            return head, lvs, outs, done, nev
        # first iteration exactly, to know the entry state of the guard
        locs = set()
        self.lv_hint = {}
        self.cur_invs = []
        for rnd in range(8):
            head, lvs, outs, done, nev = run(locs)
            cont = [o for o in outs if o.ctrl is None or o.ctrl[0] == "continue"]
            new = set()
            types_ok = True
            for o in cont:
                new |= self.changed_locs(head, o, set())
            for o in cont:
                for loc in new | locs:
                    nv = self.loc_get(o, loc) if loc[0] != "heap" else None
                    if nv is not None and loc in lvs:
                        t1, t2 = ty(lvs[loc]), ty(nv)
                        if t1 != t2 and t1 != "unk" and not (t1 == "num" and t2 in ("int", "float")) and t1 != "nd":
                            self.lv_hint[loc] = t2
                            types_ok = False
            if new <= locs and (types_ok or rnd > 4):
                break
            locs |= new
        else:
            raise self.err("loop summary does not stabilise", n)
        out = []
        for o in cont:
            o.ctrl = None
        info = {"lvs": lvs, "head": head, "base": base, "nev": nev, "cont": [o.copy() for o in cont], "done": [o.copy() for o in done],
                "exits": [o.copy() for o in outs if o.ctrl is not None], "node": n, "fn": self.stack[-1].qual}
        self.whiles[n] = info
        # iterations that go on, as one event
        bodies = [o.events[nev:] for o in cont]
        ev = Ev("while", "while", args={"u": const(u)}, facts=tuple(base.facts), node=n, fn=self.stack[-1].qual,
                loops=base.loops, sub=bodies, extra={"lvs": lvs, "head": head, "cont": cont, "base": base})
        for o in done:
            o.events = base.events + [ev] + o.events[nev:]
            o.loops = base.loops
            o.ctrl = None
            if n.orelse:
                out.extend(self.exec_block(n.orelse, o))
            else:
                out.append(o)
        for o in outs:
            if o.ctrl is None:
                continue
            last = o.events[nev:]
            o.events = base.events + [ev] + ([Ev("loopexit", "while", args={"u": const(u)}, facts=tuple(base.facts),
                                                  node=n, fn=self.stack[-1].qual, loops=base.loops, sub=last)] if last else [])
            o.loops = base.loops
            if o.ctrl[0] == "break":
                o.ctrl = None
            out.append(o)
        return out

    def while_invs(self, s, base, lvs, n):
        return []


def match(pat, t, vs, b):
    """structural match of t against pat with variables vs, bindings in b"""
    if pat in vs:
        if pat in b:
            return b[pat] is t
        b[pat] = t
        return True
    if pat is t:
        return True
    if pat.op != t.op or len(pat.a) != len(t.a):
        return False

    def m(x, y):
        if isinstance(x, T):
            return isinstance(y, T) and match(x, y, vs, b)
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(m(p, q) for p, q in zip(x, y))
        return x == y
    return all(m(x, y) for x, y in zip(pat.a, t.a))


def is_table(t):
    """a pandas object or a part of one (augmented assignments modify it in place)"""
    while True:
        if tm.ty(t).startswith("ext:pandas"):
            return True
        if t.op == "loc" and len(t.a) == 3 and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op in ("at", "setattr", "setitem") or t.op == "attr" and t.a[1] in ("values", "loc", "iloc", "T"):
            t = t.a[0]
        else:
            return False


class AnchorMissing(Exception):
    pass


def flatten(events, guards=(), loops=()):
    """all simple events with the guards and loops around them"""
    for e in events:
        if e.kind == "if":
            c = e.args["cond"]
            yield from flatten(e.sub[0], guards + (c,), loops)
            yield from flatten(e.sub[1], guards + (not_(c),), loops)
        elif e.kind in ("loop", "loopexit"):
            yield from flatten(e.sub, guards, loops + (e,))
        elif e.kind == "while":
            for b in e.sub:
                yield from flatten(b, guards, loops + (e,))
        else:
            yield e, guards, loops
