"""Path-sensitive abstract interpretation of Python functions.

Every path of a function is summarised as (facts that hold on it, values of variables and heap after it, trace of
effects, outcome).  Values are terms (sa.terms), references into an abstract heap, tuples and functions.  Calls into
the package are inlined, calls outside it are modelled (sa.models) or kept as opaque terms; loops over ranges of
unknown length are summarised once (accumulations become sums/products/sequences, anything else becomes an unknown),
never iterated.  No code of the analysed package is executed and no constraint solver is used.
"""
import ast
from fractions import Fraction

from . import terms as tm
from .frontend import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, import_bindings
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T, add, band, bnot, bor, const, div, eq, ite, le, lt, mk, mul, neg, power, sub

MAX_PATHS = 3000
UNROLL = 16


DEBUG_LOOPS = False


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "&%d" % self.id


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Fn:
    __slots__ = ("fi", "env")

    def __init__(self, fi, env=None):
        self.fi, self.env = fi, env

    def __eq__(self, o):
        return isinstance(o, Fn) and o.fi is self.fi and o.env is self.env

    def __hash__(self):
        return hash(("fn", id(self.fi), id(self.env)))

    def __repr__(self):
        return "Fn(%s)" % self.fi.qual


class Bound:
    __slots__ = ("recv", "fi")

    def __init__(self, recv, fi):
        self.recv, self.fi = recv, fi

    def __eq__(self, o):
        return isinstance(o, Bound) and o.recv == self.recv and o.fi is self.fi

    def __hash__(self):
        return hash(("bound", self.recv, id(self.fi)))

    def __repr__(self):
        return "Bound(%r,%s)" % (self.recv, self.fi.qual)


class Cls:
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(("cls", id(self.ci)))

    def __repr__(self):
        return "Cls(%s)" % self.ci.name


class Lib:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(("lib", self.name))

    def __repr__(self):
        return "Lib(%s)" % self.name


class Mod:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return hash(("mod", id(self.m)))


class Meth:
    """method of a value that is not a package object (array, list, unknown object)"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, Meth) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(("meth", self.recv, self.name))

    def __repr__(self):
        return "Meth(%r.%s)" % (self.recv, self.name)


class Iter:
    """lazy iterable: n symbolic elements elem(bv) under guard, or a concrete tuple of values"""
    __slots__ = ("lo", "hi", "elem", "items", "guard")

    def __init__(self, items=None, lo=None, hi=None, elem=None, guard=None):
        self.items, self.lo, self.hi, self.elem, self.guard = items, lo, hi, elem, guard


class Obj:
    """immutable heap object"""
    __slots__ = ("kind", "cls", "attrs", "content", "origin", "view")

    def __init__(self, kind, cls=None, attrs=None, content=None, origin="fresh", view=None):
        self.kind, self.cls, self.attrs, self.content, self.origin, self.view = kind, cls, attrs, content, origin, view

    def but(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.content, self.origin, self.view)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.cls == o.cls and self.attrs == o.attrs
                             and self.content == o.content and self.view == o.view)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.same(o)

    def __hash__(self):
        return hash(self.kind)


class Ev:
    """an observable effect on a path"""
    __slots__ = ("kind", "d", "loc")

    def __init__(self, kind, loc, **d):
        self.kind, self.loc, self.d = kind, loc, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s(%s)@%s" % (self.kind, ", ".join("%s=%r" % kv for kv in self.d.items()), self.loc)

    def same(self, o):
        return self is o or (self.kind == o.kind and self.loc == o.loc and self.d == o.d)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.same(o)

    def __hash__(self):
        return hash((self.kind, self.loc))


_LOCALS = {}


def local_names(node):
    """names a function body assigns (not its parameters, nested functions' names or comprehension variables)"""
    out, glob, todo = set(), set(), list(node.body) if isinstance(getattr(node, "body", None), list) else []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update(a.asname or a.name.split(".")[0] for a in n.names)
        todo += list(ast.iter_child_nodes(n))
    return out - glob


class Env:
    """static context of a frame"""
    __slots__ = ("fid", "fi", "module", "cls", "parent", "recv")

    def __init__(self, fid, fi, module, cls, parent, recv):
        self.fid, self.fi, self.module, self.cls, self.parent, self.recv = fid, fi, module, cls, parent, recv


class State:
    __slots__ = ("frames", "heap", "cont", "tattr", "facts", "bounds", "events", "ctl", "order")

    def __init__(self):
        self.frames, self.heap, self.cont, self.tattr = {}, {}, {}, {}
        self.facts, self.bounds, self.events, self.ctl, self.order = {}, {}, (), None, ()

    def clone(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap, s.cont, s.tattr = dict(self.heap), dict(self.cont), dict(self.tattr)
        s.facts, s.bounds = dict(self.facts), dict(self.bounds)
        s.events, s.ctl, s.order = self.events, self.ctl, self.order
        return s

    def sig_equal(self, o):
        return (self.ctl == o.ctl and self.frames == o.frames and self.heap == o.heap and self.cont == o.cont
                and self.tattr == o.tattr and self.events == o.events)

    # ---------------------------------------------------------- facts
    @staticmethod
    def _split(p):
        d = tm.as_poly(p)
        c = d.pop((), Fraction(0))
        return tm.from_poly(d), c

    def decide(self, c):
        """TRUE/FALSE truth of a boolean term under the facts, or None"""
        if c.op in ("const", "num"):
            ok, v = tm.py_const(c)
            return bool(v) if ok else None
        r = self.facts.get(c)
        if r is not None:
            return r
        n = bnot(c)
        r = self.facts.get(n)
        if r is not None:
            return not r
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if c.op == "or":
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if c.op in ("lt0", "le0", "eq0"):
            v, k = self._split(c.args[0])
            if c.op == "eq0":
                lo, hi = self.lower(v), self.upper(v)
                if lo and hi and lo[0] == hi[0] == -k and not lo[1] and not hi[1]:
                    return True
                if hi and (hi[0] < -k or (hi[0] == -k and hi[1])):
                    return False
                if lo and (lo[0] > -k or (lo[0] == -k and lo[1])):
                    return False
                return None
            hi, lo = self.upper(v), self.lower(v)
            if c.op == "lt0":  # v < -k
                if hi and (hi[0] < -k or (hi[0] == -k and hi[1])):
                    return True
                if lo and lo[0] >= -k:
                    return False
            else:  # v <= -k
                if hi and hi[0] <= -k:
                    return True
                if lo and (lo[0] > -k or (lo[0] == -k and lo[1])):
                    return False
        return None

    def upper(self, v):
        r = self.bounds.get(v)
        q = intrinsic_upper(v)
        if r is None or (q is not None and q[0] < r[0]):
            return q
        return r

    def lower(self, v):
        r = self.upper(neg(v))
        return None if r is None else (-r[0], r[1])

    def _bound(self, v, u, strict):
        k, mon = tm._monic(v)
        # v = k * mon <= u
        if k < 0:
            mon = neg(mon)
        u = u / abs(k)
        old = self.bounds.get(mon)
        if old is None or u < old[0] or (u == old[0] and strict and not old[1]):
            self.bounds[mon] = (u, strict)

    def assume(self, c, val=True):
        """adds a fact; False if it contradicts the known ones"""
        if not val:
            c = bnot(c)
        r = self.decide(c)
        if r is not None:
            return r
        if c.op == "and":
            return all(self.assume(x, True) for x in c.args)
        self.facts[c] = True
        self.order = self.order + (c,)
        if c.op in ("lt0", "le0"):
            v, k = self._split(c.args[0])
            self._bound(v, -k, c.op == "lt0")
        elif c.op == "eq0":
            v, k = self._split(c.args[0])
            self._bound(v, -k, False)
            self._bound(neg(v), k, False)
        elif c.op == "or":
            live = [x for x in c.args if self.decide(x) is not False]
            if len(live) == 1:
                return self.assume(live[0], True)
        return True


INT_ATTRS = {"dim", "num_pts", "num_evals", "pending_evals", "max_evals", "batch_size", "dim_tail", "ndim", "size",
             "num_eval_outstanding", "order", "degree", "ev_id"}
BOOL_ATTRS = {"accepted", "is_done", "is_completed", "is_killed", "is_cancelled", "is_pending", "is_running",
              "asynchronous", "use_restarts", "terminate", "converged", "updated"}
ARR1_ATTRS = {"lb", "ub", "int_var", "cont_var"}
ARR2_ATTRS = {"X", "_X", "fX", "_fX", "Xpend"}
NONNEG = {"len", "dim1"}


def attr_kind(name):
    if name in INT_ATTRS:
        return "int"
    if name in BOOL_ATTRS:
        return "bool"
    if name in ARR1_ATTRS:
        return "arr1"
    if name in ARR2_ATTRS:
        return "arr2"
    if name == "value":
        return "num"
    return "unk"


def kind_of(t):
    """coarse static kind of a term: int, num, bool, str, none, arr, arr1, arr2, list, tuple, obj, unk"""
    op = t.op
    if op == "num":
        return "int" if t.args[0].denominator == 1 else "num"
    if op == "const":
        if len(t.args) == 2:
            return "num"
        v = t.args[0]
        return "bool" if isinstance(v, bool) else "none" if v is None else "str" if isinstance(v, str) else "unk"
    if op == "sym":
        return t.args[1] if len(t.args) > 1 else "unk"
    if op == "lv":
        return t.args[2]
    if op == "attr":
        return attr_kind(t.args[1])
    if op in ("mod", "floordiv"):
        ks = [kind_of(a) for a in t.args]
        k = bcast_kind(ks)
        if k is not None:
            return k
        return "int" if all(k in ("int", "bool") for k in ks) else "num" if all(k in ("int", "num", "bool") for k in ks) else "unk"
    if op in ("len", "dim1", "bv", "ndim", "size"):
        return "int"
    if op in ("lt0", "le0", "eq0", "lt", "le", "eq", "not", "and", "or"):
        for x in (t.args if op in ("and", "or", "not", "eq", "lt", "le") else _atoms(t.args[0])):
            k = kind_of(x)
            if k.startswith("arr"):
                return bcast_kind([kind_of(y) for y in (t.args if op in ("and", "or", "not", "eq", "lt", "le") else _atoms(t.args[0]))])
        return "bool"
    if op in ("is", "isinst", "exists", "in", "truthy", "hasattr", "callable"):
        return "bool"
    if op == "poly" or op == "psum":
        ks = [kind_of(a) for m in tm.as_poly(t) for a, _ in m] if op == "poly" else [kind_of(t.args[0])]
        k = bcast_kind(ks)
        if k is not None:
            return k
        if all(k in ("int", "bool") for k in ks) and op == "poly" and all(
                c.denominator == 1 and all(e > 0 and e.denominator == 1 for _, e in m) for m, c in t.args[0]):
            return "int"
        return "num" if all(k in ("int", "num", "bool") for k in ks) else "unk"
    if op == "pow":
        ks = [kind_of(a) for a in t.args]
        return bcast_kind(ks) or "num"
    if op == "cpow":
        return "num"
    if op == "fn":
        ks = [kind_of(a) for a in t.args[1:]]
        k = bcast_kind(ks)
        if k is not None:
            return k
        if t.args[0] in ("maximum", "minimum") and all(k == "int" for k in ks):
            return "int"
        if t.args[0] in ("int", "floor", "ceil", "rint") and all(k in ("int", "num") for k in ks):
            return "int"
        return "num" if all(k in ("int", "num", "bool") for k in ks) else "unk"
    if op == "red":
        if t.args[2] is NONE:
            if t.args[3] is TRUE:
                return "arr"
            return "int" if t.args[0] in ("argmin", "argmax") else "num" if t.args[0] not in ("all", "any") else "bool"
        if t.args[3] is TRUE:
            return "arr2"
        return "arr1" if kind_of(t.args[1]) == "arr2" else "arr"
    if op in ("setitem", "forset", "swaps"):
        k = kind_of(t.args[0])
        return k if k in ("arr1", "arr2") else "arr"
    if op in ("full", "empty"):
        sh = t.args[0]
        if sh.op == "tuple":
            return {1: "arr1", 2: "arr2"}.get(len(sh.args), "arr")
        return "arr1" if kind_of(sh) in ("int", "num") else "arr"
    if op in ("rows", "cols", "at2d", "cdist", "eye", "col", "bcast", "colvec", "filldiag", "outer", "expand1"):
        return "arr2"
    if op in ("ravel", "arange", "linspace", "nonzero", "cat", "fill"):
        return "arr1"
    if op == "tr":
        return kind_of(t.args[0])
    if op == "asarr":
        l = t.args[0]
        if l.op == "list" and l.args:
            ks = [kind_of(x.args[0]) if x.op == "item" else kind_of(x.args[2]) if x.op == "each" and isinstance(x.args[2], T) else "unk" for x in l.args]
            if all(k in ("int", "num", "bool") for k in ks):
                return "arr1"
            if all(k == "arr1" for k in ks):
                return "arr2"
        return "arr"
    if op == "rng":
        from . import models
        sh = models.rng_shape(t)
        if sh is None:
            return "arr"
        if len(sh) == 0:
            return "int" if t.args[0] == "randint" else "num"
        return {1: "arr1", 2: "arr2"}.get(len(sh), "arr")
    if op in ("delete", "dot", "where", "reshape", "unview", "shuffled", "intersect", "vstack", "hstack", "squeeze", "repeat", "tile", "lhs"):
        if op == "delete":
            k = kind_of(t.args[0])
            return k if k in ("arr1", "arr2") else "arr"
        return "arr"
    if op in ("np_array_equal", "arreq"):
        return "bool"
    if op.startswith("np_"):
        return "arr" if op in ("np_triu", "np_tril", "np_argsort", "np_lexsort", "np_sort", "np_cumsum", "np_unique", "np_setdiff1d") else "unk"
    if op == "rank":
        return "int"
    if op in ("norm", "pi", "const_e"):
        return "num"
    if op == "list":
        return "list"
    if op in ("tuple", "shape"):
        return "tuple"
    if op in ("strcat", "str", "fmt"):
        return "str"
    if op == "path":
        return "bool" if t.args[0] in ("isfile", "exists", "isdir") else "str"
    if op in ("Sum", "Prod"):
        return "num"
    if op == "ite":
        a, b = kind_of(t.args[1]), kind_of(t.args[2])
        return a if a == b else "num" if {a, b} <= {"int", "num", "bool"} else "arr" if a.startswith("arr") and b.startswith("arr") else "unk"
    if op in ("obj", "fun", "bound", "cls", "lib"):
        return "obj"
    if op == "getitem":
        b = kind_of(t.args[0])
        i = t.args[1]
        if b == "arr1":
            if kind_of(i) in ("int", "num"):
                return "num"
            return "arr1" if i.op == "slice" or kind_of(i) in ("arr1", "arr") else "arr"
        if b == "arr2":
            if i.op == "tuple" and len(i.args) == 2:
                ks = ["s" if x.op == "slice" else "i" if kind_of(x) in ("int", "num") else "a" for x in i.args]
                if ks == ["i", "i"]:
                    return "num"
                if "s" in ks:
                    return "arr1" if "i" in ks else "arr2"
                if "a" in ks:
                    return "arr1" if kind_of(i.args[ks.index("a")]) == "arr1" else "arr"
                return "arr"
            if kind_of(i) in ("int", "num"):
                return "arr1"
            if i.op == "slice":
                return "arr2"
            if kind_of(i) == "arr1":
                return "arr2"
            return "arr"
        if b == "arr":
            return "unk" if kind_of(i) == "int" or i.op == "tuple" else "arr"
        return "unk"
    return "unk"


def bcast_kind(ks):
    """array kind of an elementwise combination, or None if there is no array operand"""
    for k in ("unk", "list"):
        if k in ks:
            return "arr2" if "arr2" in ks else "arr" if any(x.startswith("arr") for x in ks) else "unk"
    if "arr2" in ks:
        return "arr2"
    if "arr" in ks:
        return "arr"
    return "arr1" if "arr1" in ks else None


def _atoms(p):
    return [a for m, _ in tm.as_poly(p).items() for a, _ in m]


def is_int(t):
    return kind_of(t) == "int"


def intrinsic_upper(v):
    """upper bound known from the kind of a term: lengths are non-negative"""
    d = tm.as_poly(v)
    tot = Fraction(0)
    for m, c in d.items():
        if m == ():
            tot += c
            continue
        if c < 0 and all(a.op in NONNEG and e > 0 for a, e in m):
            continue
        return None
    return (tot, False)


# integers: a < b  is  a + 1 <= b
_lt, _le, _eq = tm.lt, tm.le, tm.eq


def lt_(a, b):
    r = _lt(a, b)
    if r.op == "lt0" and kind_of(r.args[0]) == "int":
        return mk("le0", tm._norm_rel(add(r.args[0], ONE)))
    return r


def le_(a, b):
    r = _le(a, b)
    return r


def eq_(a, b):
    r = _eq(a, b)
    if r.op == "eq0" and r.args[0].op in NONNEG:
        return mk("le0", r.args[0])
    return r


_bnot = tm.bnot


def bnot_int(a):
    if a.op == "le0" and kind_of(a.args[0]) == "int":
        p = neg(a.args[0])
        return mk("le0", tm._norm_rel(add(p, ONE)))
    if a.op == "lt0" and kind_of(a.args[0]) == "int":
        return mk("le0", tm._norm_rel(neg(a.args[0])))
    return _bnot(a)


tm.lt = lt = lt_
tm.eq = eq = eq_
tm.bnot = bnot = bnot_int


class LoopInfo:
    """transition of a summarised loop: values of the carried keys before, as symbols, and after one iteration"""

    def __init__(self, loopid, fi, node, bv, pre, base, iters, keys, base_order, sub_bv, outcomes, raw_bv=None, guard=None):
        self.raw_bv, self.guard, self.outcomes = raw_bv, guard, outcomes
        self.loopid, self.fi, self.node, self.bv, self.pre, self.base, self.iters = loopid, fi, node, bv, pre, base, iters
        self.keys, self.base_order, self.sub_bv = keys, base_order, sub_bv


class LC(tuple):
    """list content: segments ('item', value) | ('rest', T) | ('each', bv, guard T, value)"""
    __slots__ = ()


class Interp:
    def __init__(self, project, opaque=(), kinds=None, max_depth=24):
        from . import models
        self.p = project
        self.models = models
        self.opaque = set(opaque)  # qualified names (or bare names) of package functions kept opaque
        self.nref = 0
        self.nframe = 0
        self.nuniq = 0
        self.level = 0
        self.active = []        # bound variables of the summarised loops being interpreted
        self.impure = set()     # opaque functions whose result differs from call to call
        self.probes = {}        # opaque function -> extra named terms recorded with its call (given interpreter, arguments, state)
        self.stack = []
        self.loops = {}
        self.max_depth = max_depth
        self.try_depth = 0
        self.kinds = kinds or {}  # (class name, attr) -> kind for unknown attributes
        self.unsup = []  # constructs the analysis gave up on
        self.visited = set()
        self.npaths = 0
        self.cur_loc = None

    # -------------------------------------------------------------- helpers
    def uniq(self):
        self.nuniq += 1
        return self.nuniq

    def new(self, st, obj):
        self.nref += 1
        st.heap[self.nref] = obj
        return Ref(self.nref)

    def new_arr(self, st, content, origin="fresh", view=None):
        return self.new(st, Obj("arr", content=content, origin=origin, view=view))

    def new_list(self, st, segs, origin="fresh"):
        return self.new(st, Obj("list", content=LC(segs), origin=origin))

    def loc(self, env, node):
        return (env.module.rel, getattr(node, "lineno", 0), (env.cls.name + "." if env.cls else "") + env.fi.name)

    def emit(self, st, kind, env, node, **d):
        st.events = st.events + (Ev(kind, self.loc(env, node), **d),)

    def branch(self, st, cond):
        """[(state, bool)] for a boolean term"""
        r = st.decide(cond)
        if r is not None:
            return [(st, r)]
        out = []
        # a condition on a field of a list element is part of the event order: the field may be written before and after
        rd = tm.contains(cond, lambda x: x.op == "attr" and x.args[0].op == "getitem")
        s1 = st.clone()
        if s1.assume(cond, True):
            if rd:
                s1.events = s1.events + (Ev("assume", ("", 0, ""), fact=cond, value=True),)
            out.append((s1, True))
        s2 = st.clone()
        if s2.assume(cond, False):
            if rd:
                s2.events = s2.events + (Ev("assume", ("", 0, ""), fact=cond, value=False),)
            out.append((s2, False))
        return out

    # -------------------------------------------------------------- terms of values
    def cur(self, t, st):
        """current content of an address-like term"""
        if not st.cont:
            return t
        c = st.cont.get(t)
        if c is not None:
            return self.lc_term(c, st) if isinstance(c, LC) else c
        if t.op == "getitem" and isinstance(t.args[0], T):
            if kind_of(t.args[0]) == "list":
                return t  # an element keeps its identity when the list changes
            b = self.cur(t.args[0], st)
            if b is not t.args[0]:
                return self.models.getitem(b, t.args[1])
        return t

    def lc_term(self, lc, st):
        segs = []
        for s in lc:
            if s[0] == "item":
                segs.append(mk("item", self.term(s[1], st)))
            elif s[0] == "rest":
                segs.append(mk("rest", s[1]))
            else:
                segs.append(mk("each", s[1], s[2], self.term(s[3], st)))
        if len(segs) == 1 and segs[0].op == "rest":
            return segs[0].args[0]
        return mk("list", *segs)

    def content(self, v, st):
        return self.term(v, st)

    def term(self, v, st):
        if isinstance(v, T):
            return self.cur(v, st)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "arr":
                if o.view is not None:
                    base, op, args = o.view
                    return self.models.view_content(op, self.term(base, st), args)
                return o.content
            if o.kind == "list":
                return self.lc_term(o.content, st)
            if o.kind == "dict" and isinstance(o.content, T):
                return o.content
            if o.kind == "dict":
                return mk("dict", *[mk("kv", k, self.term(x, st)) for k, x in o.content])
            return mk("obj", v.id, o.cls.name if isinstance(o.cls, ClassInfo) else str(o.cls))
        if isinstance(v, Tup):
            return mk("tuple", *[self.term(x, st) for x in v.items])
        if isinstance(v, Fn):
            return mk("fun", v.fi.qual)
        if isinstance(v, Bound):
            return mk("bound", self.term(v.recv, st), v.fi.qual)
        if isinstance(v, Cls):
            return mk("cls", v.ci.qual)
        if isinstance(v, Lib):
            return mk("lib", v.name)
        if isinstance(v, Mod):
            return mk("lib", v.m.name)
        if isinstance(v, Meth):
            return mk("meth", self.term(v.recv, st), v.name)
        if isinstance(v, Iter):
            return self.iter_term(v, st)
        return mk("opaque_value", str(v))

    def iter_term(self, it, st):
        if it.items is not None:
            return mk("list", *[mk("item", self.term(x, st)) for x in it.items])
        bv = mk("bv", self.level, it.lo, it.hi)
        return mk("list", mk("each", bv, it.guard(bv) if it.guard else TRUE, self.term(it.elem(bv), st)))

    def kind(self, v, st):
        if isinstance(v, T):
            return kind_of(v) if kind_of(v) != "unk" else kind_of(self.cur(v, st))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "arr":
                k = kind_of(self.term(v, st))
                return k if k in ("arr1", "arr2") else "arr" if k not in ("num", "int", "bool") else k
            return o.kind
        if isinstance(v, Tup):
            return "tuple"
        return "obj"

    def as_list(self, v, st):
        """LC content of a list value or None"""
        if isinstance(v, Ref):
            o = st.heap[v.id]
            return o.content if o.kind == "list" else None
        if isinstance(v, T):
            c = st.cont.get(v)
            if isinstance(c, LC):
                return c
            if c is None and kind_of(v) == "list":
                if v.op == "list":
                    return None
                return LC([("rest", v)])
        return None

    def set_list(self, v, lc, st):
        if isinstance(v, Ref):
            st.heap[v.id] = st.heap[v.id].but(content=LC(lc))
        else:
            st.cont[v] = LC(lc)

    def root(self, v, st):
        """(root address value, path) of a possibly viewed array value"""
        seen = 0
        while seen < 20:
            seen += 1
            if isinstance(v, Ref):
                o = st.heap[v.id]
                if o.view is not None:
                    v = o.view[0]
                    continue
                return v
            if isinstance(v, T) and v.op == "getitem" and isinstance(v.args[0], T):
                v = v.args[0]
                continue
            return v
        return v

    def mutate(self, v, new, st, env, node, how="store"):
        """v's storage now holds `new` (in place)"""
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.view is not None:
                base, op, args = o.view
                bc = self.term(base, st)
                if op == "getitem":
                    self.mutate(base, self.models.setitem(bc, args[0], new), st, env, node, how)
                elif op == "id":
                    self.mutate(base, new, st, env, node, how)
                else:
                    self.mutate(base, mk("unview", op, bc, new), st, env, node, how)
                return
            st.heap[v.id] = o.but(content=new)
            self.emit(st, "mutate", env, node, root=v, origin=o.origin, how=how, new=new)
        elif isinstance(v, T):
            if v.op == "getitem" and isinstance(v.args[0], T) and v not in st.cont and kind_of(v.args[0]) != "list":
                bc = self.cur(v.args[0], st)
                self.mutate(v.args[0], self.models.setitem(bc, v.args[1], new), st, env, node, how)
                return
            st.cont[v] = new
            self.emit(st, "mutate", env, node, root=v, origin="sym", how=how, new=new)

    def store_value(self, v, st):
        """what a variable or attribute holds: computed arrays get an identity"""
        if isinstance(v, T):
            if v.op in ("sym", "attr", "const", "num", "lv", "bv", "getitem", "len", "dim1", "lastitem", "tuple", "firstitem"):
                return v
            k = kind_of(v)
            if k in ("int", "num", "bool", "str", "none", "tuple", "obj", "list"):
                return v
            return self.new_arr(st, v)
        return v

    # -------------------------------------------------------------- truth
    def truth(self, v, st):
        """boolean term for the truth of a value"""
        lc = self.as_list(v, st) if isinstance(v, (Ref, T)) else None
        if lc is not None:
            return lt(ZERO, self.list_len(lc))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "dict":
                return const(bool(o.content))
            if o.kind == "obj":
                return TRUE
            v = self.term(v, st)
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, T):
            t = self.cur(v, st)
            if t.op in ("num", "const"):
                ok, x = tm.py_const(t)
                return const(bool(x)) if ok else mk("truthy", t)
            k = kind_of(t)
            if k == "bool" or t.op in ("red",) and t.args[0] in ("all", "any"):
                return t
            if t.op in ("lt0", "le0", "eq0", "eq", "not", "and", "or", "lt", "le"):
                return t
            if k in ("int", "num"):
                return bnot(eq(t, ZERO))
            if t.op == "list":
                return lt(ZERO, self.models.length(t))
            if k == "obj":
                return TRUE
            return mk("truthy", t)
        return TRUE

    def list_len(self, lc):
        n = ZERO
        for s in lc:
            if s[0] == "item":
                n = add(n, ONE)
            elif s[0] == "rest":
                n = add(n, self.models.length(s[1]))
            else:
                n = add(n, self.models.mksum(s[1], s[2], ONE))
        return n

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, env):
        """[(state, value)]; states with st.ctl set carry an exception and value None"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsup.append((type(e).__name__, self.loc(env, e)))
            return [(st, mk("opaque", type(e).__name__, self.uniq()))]
        return m(e, st, env)

    def ev1(self, e, st, env, f):
        out = []
        for s, v in self.ev(e, st, env):
            if s.ctl:
                out.append((s, None))
            else:
                out.extend(f(s, v))
        return out

    def evs(self, es, st, env):
        """[(state, [values])] evaluating left to right"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                if s.ctl:
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, env):
                        if s2.ctl:
                            nxt.append((s2, vs))
                            continue
                        items = self.concrete(v, s2)
                        if items is None:
                            nxt.append((s2, vs + [mk("starred", self.term(v, s2))]))
                        else:
                            nxt.append((s2, vs + list(items)))
                    continue
                for s2, v in self.ev(e, s, env):
                    nxt.append((s2, vs + [v] if not s2.ctl else vs))
            acc = nxt
        return acc

    def e_Constant(self, e, st, env):
        return [(st, const(e.value))]

    def e_JoinedStr(self, e, st, env):
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        out = []
        for s, vs in self.evs(parts, st, env):
            if s.ctl:
                out.append((s, None))
                continue
            ts, i = [], 0
            for x in e.values:
                if isinstance(x, ast.Constant):
                    ts.append(const(x.value))
                else:
                    ts.append(self.models.to_str(self.term(vs[i], s)))
                    i += 1
            out.append((s, self.models.strcat(*ts)))
        return out

    def e_Name(self, e, st, env):
        return [(st, self.lookup(e.id, st, env, e))]

    def lookup(self, name, st, env, node=None):
        en = env
        while en is not None:
            fr = st.frames.get(en.fid)
            if fr is not None and name in fr:
                return fr[name]
            en = en.parent
        r = self.p.resolve(env.module, name)
        if r is None or self.is_local(name, env):
            v = self.models.builtin(self, name) if r is None and not self.is_local(name, env) else mk("unbound", name)
            if isinstance(v, T) and v.op == "unbound" and node is not None:
                self.emit(st, "unbound", env, node, name=name)
            return v
        return self.static_value(r, st)

    def is_local(self, name, env):
        """is the name a local variable of the function (assigned somewhere in it)?"""
        en = env
        while en is not None:
            fi = en.fi
            loc = _LOCALS.get(fi.node)
            if loc is None:
                loc = _LOCALS[fi.node] = local_names(fi.node)
            if name in loc:
                return True
            en = en.parent
        return False

    def static_value(self, r, st):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, ClassInfo):
            return Cls(r)
        if r[0] == "const":
            return self.const_expr(r[1], r[2], st)
        if r[0] == "lib":
            return self.models.lib_value(r[1])
        if r[0] == "modref":
            return Mod(r[1])
        return mk("opaque", str(r))

    def const_expr(self, node, module, st):
        fi = FuncInfo(ast.parse("def _m(): pass").body[0], module)
        env = Env(-1, fi, module, None, None, None)
        rs = self.ev(node, st, env)
        return rs[0][1] if rs and rs[0][1] is not None else mk("opaque", "const")

    def e_Attribute(self, e, st, env):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            recv, cls = env.recv, env.cls
            en = env
            while en is not None and en.cls is None:
                en = en.parent
            if en is not None:
                recv, cls = en.recv, en.cls
            dyn = self.class_of(recv, st) or cls
            fi = self.p.find_method(dyn, e.attr, after=cls)
            if fi is None:
                return [(st, Meth(mk("super"), e.attr))]
            return [(st, Bound(recv, fi))]
        return self.ev1(e.value, st, env, lambda s, v: self.getattr(v, e.attr, s, env, e))

    def class_of(self, v, st):
        if isinstance(v, Ref):
            c = st.heap[v.id].cls
            return c if isinstance(c, ClassInfo) else None
        return None

    def getattr(self, v, name, st, env, node):
        if isinstance(v, Mod):
            r = self.p.resolve(v.m, name)
            return [(st, self.static_value(r, st) if r is not None else Lib(v.m.name + "." + name))]
        if isinstance(v, Lib):
            return [(st, self.models.lib_value(v.name + "." + name))]
        if isinstance(v, T) and v.op == "file" and name == "name":
            return [(st, v.args[0])]
        if isinstance(v, Cls):
            fi = self.p.find_method(v.ci, name)
            if fi is not None:
                return [(st, Fn(fi))]
            for c in self.p.mro(v.ci):
                if name in c.consts:
                    return [(st, self.const_expr(c.consts[name], c.module, st))]
            return [(st, mk("attr", mk("cls", v.ci.qual), name))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "obj":
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                if isinstance(o.cls, ClassInfo):
                    fi = self.p.find_method(o.cls, name)
                    if fi is not None:
                        if fi.kind == "property":
                            return self.call_fi(fi, [v], {}, st, env, node, recv=v)
                        return [(st, Bound(v, fi))]
                    for c in self.p.mro(o.cls):
                        if name in c.consts:
                            return [(st, self.const_expr(c.consts[name], c.module, st))]
                    if o.origin == "fresh":
                        self.emit(st, "missing_attr", env, node, cls=o.cls.name, name=name)
                        return [(st, mk("attr", mk("obj", v.id, o.cls.name), name))]
                    k = self.kinds.get((o.cls.name, name)) or attr_kind(name)
                    return [(st, mk("sym", o.origin + "." + name, k))]
                r = self.models.obj_attr(self, v, o, name, st, env, node)
                if r is not None:
                    return r
                return [(st, Meth(v, name))]
            return self.models.value_attr(self, v, name, st, env, node)
        if isinstance(v, T):
            if (v, name) in st.tattr:
                return [(st, st.tattr[(v, name)])]
            return self.models.value_attr(self, v, name, st, env, node)
        if isinstance(v, Tup):
            return [(st, Meth(v, name))]
        if isinstance(v, (Fn, Bound)):
            if name in ("__name__", "__qualname__"):
                return [(st, const(v.fi.name))]
            return [(st, mk("attr", self.term(v, st), name))]
        return [(st, Meth(v, name))]

    def e_Subscript(self, e, st, env):
        def f(s, v):
            return self.ev1(e.slice, s, env, lambda s2, i: self.subscript(v, i, s2, env, e))
        return self.ev1(e.value, st, env, f)

    def e_Slice(self, e, st, env):
        es = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        out = []
        for s, vs in self.evs(es, st, env):
            if s.ctl:
                out.append((s, None))
            else:
                lo, hi, step = [self.term(v, s) for v in vs]
                if lo is NONE and (step is NONE or step is ONE):
                    lo = ZERO
                if step is ONE:
                    step = NONE
                out.append((s, mk("slice", lo, hi, step)))
        return out

    e_Index = lambda self, e, st, env: self.ev(e.value, st, env)

    def subscript(self, v, i, st, env, node):
        if isinstance(v, Tup):
            t = self.term(i, st)
            ok, n = tm.py_const(t)
            if ok and isinstance(n, int) and -len(v.items) <= n < len(v.items):
                return [(st, v.items[n])]
            if t.op == "slice":
                lo, hi = tm.py_const(t.args[0]), tm.py_const(t.args[1])
                if lo[0] and hi[0] and t.args[2] is NONE:
                    return [(st, Tup(v.items[lo[1]:hi[1]]))]
            return [(st, mk("getitem", self.term(v, st), t))]
        lc = self.as_list(v, st) if isinstance(v, (Ref, T)) else None
        if lc is not None:
            t = self.term(i, st)
            ok, n = tm.py_const(t)
            if ok and isinstance(n, int) and not isinstance(n, bool):
                if n >= 0 and len(lc) > n and all(s[0] == "item" for s in lc[: n + 1]):
                    return [(st, lc[n][1])]
                if n < 0 and len(lc) >= -n and all(s[0] == "item" for s in lc[n:]):
                    return [(st, lc[n][1])]
            # element whose value is known on every index of a comprehension-built list
            if len(lc) == 1 and lc[0][0] == "each" and lc[0][2] is TRUE and isinstance(lc[0][3], T):
                bv = lc[0][1]
                if kind_of(t) == "int":
                    return [(st, tm.subst(lc[0][3], {bv: add(t, bv.args[1])}))]
            if isinstance(v, T) and len(lc) == 1 and lc[0][0] == "rest":
                return [(st, self.models.getitem(lc[0][1], t))]
            return [(st, self.models.getitem(self.lc_term(lc, st), t))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "dict":
                k = self.term(i, st)
                for kk, x in o.content:
                    if kk is k:
                        return [(st, x)]
                return [(st, mk("getitem", self.term(v, st), k))]
            if o.kind == "arr":
                t = self.term(i, st)
                if self.models.is_basic_index(t):
                    r = self.models.getitem(self.term(v, st), t)
                    if kind_of(r) in ("num", "int", "bool", "str"):
                        return [(st, r)]
                    return [(st, self.new_arr(st, None, origin="view", view=(v, "getitem", (self.models.norm_index(t),))))]
                return [(st, self.new_arr(st, self.models.getitem(self.term(v, st), t)))]
            return [(st, mk("getitem", self.term(v, st), self.term(i, st)))]
        if isinstance(v, T):
            t = self.term(i, st)
            c = self.cur(v, st)
            if c is v:
                r = self.models.getitem(v, t)
                if not self.models.is_basic_index(t) and kind_of(r) not in ("num", "int"):
                    return [(st, self.new_arr(st, r))]
                return [(st, r)]
            if self.models.is_basic_index(t):
                return [(st, mk("getitem", v, self.models.norm_index(t)))]
            return [(st, self.new_arr(st, self.models.getitem(c, t)))]
        return [(st, mk("getitem", self.term(v, st), self.term(i, st)))]

    def e_Tuple(self, e, st, env):
        return [(s, Tup(vs) if not s.ctl else None) for s, vs in self.evs(e.elts, st, env)]

    def e_List(self, e, st, env):
        out = []
        for s, vs in self.evs(e.elts, st, env):
            out.append((s, None) if s.ctl else (s, self.new_list(s, [("item", v) for v in vs])))
        return out

    def e_Set(self, e, st, env):
        return [(s, mk("set", *[self.term(v, s) for v in vs]) if not s.ctl else None) for s, vs in self.evs(e.elts, st, env)]

    def e_Dict(self, e, st, env):
        ks = [k for k in e.keys if k is not None]
        if len(ks) != len(e.keys):
            return [(st, mk("opaque", "dict", self.uniq()))]
        out = []
        for s, vs in self.evs(list(e.keys) + list(e.values), st, env):
            if s.ctl:
                out.append((s, None))
                continue
            n = len(ks)
            out.append((s, self.new(s, Obj("dict", content=tuple((self.term(k, s), v) for k, v in zip(vs[:n], vs[n:]))))))
        return out

    def e_Lambda(self, e, st, env):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                               decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        fi = FuncInfo(node, env.module, None, "function", env.fi)
        return [(st, Fn(fi, env))]

    def e_NamedExpr(self, e, st, env):
        def f(s, v):
            self.assign(e.target, v, s, env, e)
            return [(s, v)]
        return self.ev1(e.value, st, env, f)

    def e_Starred(self, e, st, env):
        return self.ev(e.value, st, env)

    def e_UnaryOp(self, e, st, env):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, bnot(self.truth(v, s)))]
            t = self.term(v, s)
            if isinstance(e.op, ast.USub):
                return [(s, neg(t))]
            if isinstance(e.op, ast.UAdd):
                return [(s, t)]
            if isinstance(e.op, ast.Invert):
                return [(s, bnot(t))]
            return [(s, mk("opaque", "unary", t))]
        return self.ev1(e.operand, st, env, f)

    def e_BoolOp(self, e, st, env):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            if i == len(e.values) - 1:
                return self.ev(e.values[i], s, env)

            def f(s2, v):
                out = []
                for s3, b in self.branch(s2, self.truth(v, s2)):
                    if b == is_and:
                        out.extend(go(i + 1, s3))
                    else:
                        tv = self.term(v, s3) if isinstance(v, T) else v
                        out.append((s3, const(b) if isinstance(v, T) and kind_of(tv) == "bool" and tv.op not in ("sym", "attr") else v))
                return out
            return self.ev1(e.values[i], s, env, f)
        return go(0, st)

    def e_IfExp(self, e, st, env):
        def f(s, v):
            out = []
            for s2, b in self.branch(s, self.truth(v, s)):
                out.extend(self.ev(e.body if b else e.orelse, s2, env))
            return out
        return self.ev1(e.test, st, env, f)

    def e_Compare(self, e, st, env):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, env):
            if s.ctl:
                out.append((s, None))
                continue
            cs = [self.compare(op, vs[i], vs[i + 1], s) for i, op in enumerate(e.ops)]
            out.append((s, band(*cs)))
        return out

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return r if n == "Is" else bnot(r)
        if n in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if n == "In" else bnot(r)
        ta, tb = self.term(a, st), self.term(b, st)
        if n in ("Eq", "NotEq"):
            if ta is NONE or tb is NONE:
                r = self.is_same(a, b, st)
            elif isinstance(a, (Ref,)) and isinstance(b, Ref) and a == b:
                r = TRUE
            else:
                r = eq(ta, tb)
                if r is FALSE and (ta.op in ("obj", "fun", "bound", "cls") or tb.op in ("obj", "fun", "bound", "cls")) and ta is not tb:
                    r = FALSE
            return r if n == "Eq" else bnot(r)
        if n == "Lt":
            return lt(ta, tb)
        if n == "LtE":
            return le(ta, tb)
        if n == "Gt":
            return lt(tb, ta)
        return le(tb, ta)

    def is_same(self, a, b, st):
        ta, tb = self.term(a, st), self.term(b, st)
        if ta is NONE and tb is NONE:
            return TRUE
        if ta is NONE or tb is NONE:
            x, v = (tb, b) if ta is NONE else (ta, a)
            if not isinstance(v, T) and not (isinstance(v, Ref) and st.heap[v.id].kind == "arr"):
                return FALSE
            if x.op == "attr" and x.args[1] == "value":
                return mk("is", x, NONE)  # records of evaluations that never finished have no value
            if kind_of(x) in ("int", "num", "bool", "arr", "arr1", "arr2", "list", "str", "tuple", "obj"):
                return FALSE
            if x.op in ("num",) or (x.op == "const"):
                return FALSE
            if x.op in ("poly", "fn"):
                return FALSE
            return mk("is", x, NONE)
        for x, y in ((ta, tb), (tb, ta)):
            if x is TRUE:
                if y.op == "const":
                    return const(y is TRUE)
                return y if kind_of(y) == "bool" else mk("is", y, TRUE)
            if x is FALSE:
                if y.op == "const":
                    return const(y is FALSE)
                return bnot(y) if kind_of(y) == "bool" else mk("is", y, FALSE)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return const(a.id == b.id)
        if ta is tb:
            return TRUE
        return mk("is", ta, tb)

    def contains(self, a, b, st):
        items = self.concrete(b, st)
        ta = self.term(a, st)
        if items is not None:
            r = FALSE
            for x in items:
                r = bor(r, eq(ta, self.term(x, st)) if not (isinstance(a, Bound) and isinstance(x, Bound)) else const(a == x))
            return r
        tb = self.term(b, st)
        if tb.op == "set":
            return bor(*[eq(ta, x) for x in tb.args])
        return mk("in", ta, tb)

    def concrete(self, v, st):
        """tuple of values when the elements of a sequence are all known"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Iter):
            return v.items
        if isinstance(v, (Ref, T)):
            lc = self.as_list(v, st)
            if lc is not None:
                return tuple(s[1] for s in lc) if all(s[0] == "item" for s in lc) else None
            t = self.term(v, st)
            if t.op in ("tuple", "set"):
                return t.args
            if t.op == "list" and all(x.op == "item" for x in t.args):
                return tuple(x.args[0] for x in t.args)
        return None

    def e_BinOp(self, e, st, env):
        out = []
        for s, vs in self.evs([e.left, e.right], st, env):
            out.append((s, None) if s.ctl else (s, self.binop(type(e.op).__name__, vs[0], vs[1], s)))
        return out

    def binop(self, op, a, b, st):
        la = self.as_list(a, st) if isinstance(a, (Ref, T)) else None
        lb = self.as_list(b, st) if isinstance(b, (Ref, T)) else None
        if op == "Add" and la is not None and lb is not None:
            return self.new_list(st, tuple(la) + tuple(lb))
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        ta, tb = self.term(a, st), self.term(b, st)
        if op == "Mult" and (la is not None or lb is not None):
            lc, n = (la, tb) if la is not None else (lb, ta)
            ok, k = tm.py_const(n)
            if ok and isinstance(k, int) and k <= 16:
                return self.new_list(st, tuple(lc) * k)
            if len(lc) == 1 and lc[0][0] == "item":
                return self.new_list(st, [("each", mk("bv", self.level, ZERO, n), TRUE, lc[0][1])])
            return mk("listmul", self.lc_term(lc, st), n)
        return self.models.arith(op, ta, tb)

    def e_Call(self, e, st, env):
        # super().__init__ etc. handled by e_Attribute
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [(st, mk("super"))]

        def f(s, fv):
            out = []
            names = [k.arg for k in e.keywords]
            for s2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], s, env):
                if s2.ctl:
                    out.append((s2, None))
                    continue
                # starred arguments may have expanded
                nk = len(names)
                args, kws = (vs[: len(vs) - nk], vs[len(vs) - nk:]) if nk else (vs, [])
                kwargs = {}
                for n, v in zip(names, kws):
                    if n is None:  # **dict
                        if isinstance(v, Ref) and s2.heap[v.id].kind == "dict":
                            for k, x in s2.heap[v.id].content:
                                kwargs[str(tm.py_const(k)[1])] = x
                        else:
                            kwargs["**"] = v
                    else:
                        kwargs[n] = v
                out.extend(self.call(fv, args, kwargs, s2, env, e))
            return out
        return self.ev1(e.func, st, env, f)

    def comp(self, e, st, env, elt):
        """list-like comprehension -> [(state, LC)]"""
        if len(e.generators) != 1:
            self.unsup.append(("nested comprehension", self.loc(env, e)))
            return self.comp_nested(e, st, env, elt)
        g = e.generators[0]

        def f(s, v):
            it = self.iterate(v, s, env, e)
            if it is None:
                return [(s, LC([("rest", mk("opaque", "comp", self.uniq()))]))]
            self.nframe += 1
            fid = self.nframe
            env2 = Env(fid, env.fi, env.module, env.cls, env, env.recv)
            if it.items is not None and len(it.items) <= UNROLL:
                acc = [(s, ())]
                for x in it.items:
                    nxt = []
                    for s1, segs in acc:
                        if s1.ctl:
                            nxt.append((s1, segs))
                            continue
                        s1.frames[fid] = {}
                        self.assign(g.target, x, s1, env2, e)
                        for s2, gv in self.guards(g.ifs, s1, env2):
                            if s2.ctl or not gv:
                                nxt.append((s2, segs))
                                continue
                            for s3, v3 in self.ev(elt, s2, env2):
                                nxt.append((s3, segs + (("item", self.store_value(v3, s3)),) if not s3.ctl else segs))
                    acc = nxt
                out = []
                for s1, segs in acc:
                    s1.frames.pop(fid, None)
                    out.append((s1, LC(segs) if not s1.ctl else None))
                return out
            lo, hi = (it.lo, it.hi) if it.items is None else (ZERO, const(len(it.items)))
            bv = self.new_bv(s, lo, hi)
            self.level += 1
            self.active.append(bv)
            try:
                s1 = s.clone()
                s1.frames[fid] = {}
                base = len(s1.order)
                s1.assume(le(lo, bv))
                s1.assume(lt(bv, hi))
                base = len(s1.order)
                self.assign(g.target, it.elem(bv) if it.items is None else mk("getitem", self.term(v, s), bv), s1, env2, e)
                segs, raises = [], []
                ig = it.guard(bv) if it.guard else TRUE
                for s2, gv in self.guards(g.ifs, s1, env2):
                    if s2.ctl:
                        raises.append(s2)
                        continue
                    if not gv:
                        continue
                    for s3, v3 in self.ev(elt, s2, env2):
                        if s3.ctl:
                            raises.append(s3)
                            continue
                        guard = band(ig, *s3.order[base:])
                        t3 = self.term(v3, s3)
                        if not isinstance(v3, (Ref, T)) or t3.op == "obj":
                            t3 = v3 if isinstance(v3, (Tup, Fn, Bound)) else t3
                        segs.append((guard, t3, s3))
            finally:
                self.level -= 1
                self.active.pop()
            out = []
            for r in raises:
                r.frames.pop(fid, None)
                out.append((r, None))
            if not segs:
                out.append((s, LC(())))
                return out
            s4 = segs[0][2] if len(segs) == 1 else s
            evs = tuple(s4.events[len(s.events):])
            s5 = s.clone()
            if len(segs) == 1:
                # keep heap allocated while evaluating the element
                s5.heap = dict(s4.heap)
                if evs:
                    s5.events = s.events + (Ev("loop", self.loc(env, e), bv=bv, alts=((segs[0][0], evs),)),)
            lc = LC([("each", bv, g_, t_) for g_, t_, _ in segs]) if len(segs) == 1 else self.merge_each(bv, segs)
            out.append((s5, lc))
            return out
        return self.ev1(g.iter, st, env, f)

    def merge_each(self, bv, segs):
        if all(isinstance(t, T) for _, t, _ in segs):
            gs = [g for g, _, _ in segs]
            v = segs[-1][1]
            for g, t, _ in reversed(segs[:-1]):
                v = ite(g, t, v)
            return LC([("each", bv, bor(*gs), v)])
        return LC([("rest", mk("opaque", "comp", self.uniq()))])

    def comp_nested(self, e, st, env, elt):
        return [(st, LC([("rest", mk("opaque", "comp", self.uniq()))]))]

    def guards(self, ifs, st, env):
        acc = [(st, True)]
        for c in ifs:
            nxt = []
            for s, ok in acc:
                if s.ctl or not ok:
                    nxt.append((s, ok))
                    continue
                for s2, v in self.ev(c, s, env):
                    if s2.ctl:
                        nxt.append((s2, False))
                        continue
                    nxt.extend(self.branch(s2, self.truth(v, s2)))
            acc = nxt
        return acc

    def e_ListComp(self, e, st, env):
        return [(s, self.new_list(s, lc) if not s.ctl else None) for s, lc in self.comp(e, st, env, e.elt)]

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, env):
        return [(s, mk("setcomp", self.lc_term(lc, s)) if not s.ctl else None) for s, lc in self.comp(e, st, env, e.elt)]

    def e_DictComp(self, e, st, env):
        return [(st, mk("opaque", "dictcomp", self.uniq()))]

    # -------------------------------------------------------------- iteration
    def iterate(self, v, st, env, node):
        if isinstance(v, Iter):
            return v
        if isinstance(v, Meth):
            v = mk("attr", self.term(v.recv, st), v.name)
        items = self.concrete(v, st)
        if items is not None and len(items) <= UNROLL:
            return Iter(items=items)
        if isinstance(v, (Ref, T)):
            lc = self.as_list(v, st)
            if lc is not None:
                if len(lc) == 1 and lc[0][0] == "each":
                    _, bv0, g, x = lc[0]
                    tx = x
                    if isinstance(tx, T):
                        return Iter(lo=bv0.args[1], hi=bv0.args[2], elem=lambda b: tm.subst(tx, {bv0: b}),
                                    guard=(lambda b: tm.subst(g, {bv0: b})) if g is not TRUE else None)
                    return Iter(lo=bv0.args[1], hi=bv0.args[2], elem=lambda b: x, guard=(lambda b: tm.subst(g, {bv0: b})) if g is not TRUE else None)
                if len(lc) == 1 and lc[0][0] == "rest":
                    r = lc[0][1]
                    return Iter(lo=ZERO, hi=self.models.length(r), elem=lambda b: self.models.getitem(r, b))
                t = self.lc_term(lc, st)
                return Iter(lo=ZERO, hi=self.list_len(lc), elem=lambda b: mk("getitem", t, b))
            if isinstance(v, Ref) and st.heap[v.id].kind in ("obj", "dict"):
                return None
            t = self.term(v, st)
            if t.op == "range":
                return self.models.range_iter(t)
            if isinstance(v, Ref):
                return Iter(lo=ZERO, hi=self.models.length(t), elem=lambda b: self.models.getitem(t, b))
            if self.cur(v, st) is v:
                return Iter(lo=ZERO, hi=self.models.length(t), elem=lambda b: self.models.getitem(v, b))
            return Iter(lo=ZERO, hi=self.models.length(t), elem=lambda b: self.models.getitem(t, b))
        if isinstance(v, Tup):
            t = self.term(v, st)
            return Iter(items=v.items)
        return None

    # -------------------------------------------------------------- calls
    def call(self, fv, args, kwargs, st, env, node):
        if isinstance(fv, Fn):
            return self.call_fi(fv.fi, args, kwargs, st, env, node, closure=fv.env)
        if isinstance(fv, Bound):
            return self.call_fi(fv.fi, [fv.recv] + list(args), kwargs, st, env, node, recv=fv.recv)
        if isinstance(fv, Cls):
            return self.construct(fv.ci, args, kwargs, st, env, node)
        if isinstance(fv, Lib):
            return self.models.lib_call(self, fv.name, args, kwargs, st, env, node)
        if isinstance(fv, Meth):
            return self.models.method_call(self, fv.recv, fv.name, args, kwargs, st, env, node)
        if isinstance(fv, T) and fv.op == "attr" and fv.args[0].op != "cls":
            return self.models.method_call(self, fv.args[0], fv.args[1], args, kwargs, st, env, node)
        t = self.term(fv, st)
        if isinstance(fv, Ref):
            ci = self.class_of(fv, st)
            if ci is not None:
                fi = self.p.find_method(ci, "__call__")
                if fi is not None:
                    return self.call_fi(fi, [fv] + list(args), kwargs, st, env, node, recv=fv)
        ta = tuple(self.term(a, st) for a in args)
        tk = tuple(sorted((k, self.term(v, st)) for k, v in kwargs.items()))
        self.emit(st, "vcall", env, node, fn=t, args=tuple(args), kwargs=tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), targs=ta)
        r = mk("vcall", t, ta, tk, *([self.draw_id()] if t.op == "sym" and t.args[0] in self.impure else []))
        return self.opaque_result(r, st, env, node)

    def opaque_result(self, r, st, env, node, maybe_exc=True):
        out = [(st, r)]
        if self.try_depth and maybe_exc:
            s2 = st.clone()
            s2.ctl = ("raise", "<external>", self.loc(env, node))
            out.append((s2, None))
        return out

    def construct(self, ci, args, kwargs, st, env, node):
        if ci.qual in self.opaque or ci.name in self.opaque:
            self.emit(st, "construct", env, node, cls=ci.name, args=tuple(args), kwargs=tuple(sorted(kwargs.items(), key=lambda kv: kv[0])))
            init = self.p.find_method(ci, "__init__")
            bound = self.bind_opaque(init, [mk("self_")] + list(args), kwargs, st) if init else {}
            bound.pop("self", None)
            return [(st, mk("new", ci.name, tuple(sorted((k, self.term(v, st)) for k, v in bound.items()))))]
        r = self.new(st, Obj("obj", cls=ci, attrs={}, origin="fresh"))
        init = self.p.find_method(ci, "__init__")
        if init is None:
            ext = self.p.ext_bases(ci)
            return [(st, r)]
        out = []
        for s, v in self.call_fi(init, [r] + list(args), kwargs, st, env, node, recv=r):
            out.append((s, r if not s.ctl else None))
        return out

    def bind(self, fi, args, kwargs, st, closure):
        """parameter -> value, or None if the arguments do not fit the signature"""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out, rest = {}, []
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return None
        if a.vararg:
            out[a.vararg.arg] = Tup(rest)
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                if k in out:
                    return None
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = self.new(st, Obj("dict", content=tuple((const(k), v) for k, v in sorted(extra.items(), key=lambda kv: kv[0]))))
        elif extra:
            return None
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in pos + kwo:
            if n not in out:
                if n not in defs:
                    return None
                d = defs[n]
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)) and not isinstance(d, ast.Tuple):
                    env = closure or Env(-1, fi, fi.module, fi.cls, None, None)
                    rs = self.ev(d, st, env)
                    out[n] = rs[0][1]
                else:
                    env = closure or Env(-1, fi, fi.module, fi.cls, None, None)
                    out[n] = self.ev(d, st, env)[0][1]
        return out

    def bind_opaque(self, fi, args, kwargs, st):
        b = self.bind(fi, args, kwargs, st, None)
        if b is None:
            b = {"arg%d" % i: v for i, v in enumerate(args)}
            b.update(kwargs)
        return b

    def is_opaque(self, fi):
        return fi.qual in self.opaque or fi.name in self.opaque or (fi.cls and fi.cls.name + "." + fi.name in self.opaque)

    def call_fi(self, fi, args, kwargs, st, env, node, recv=None, closure=None):
        if fi.kind == "staticmethod" and recv is not None and args and args[0] == recv:
            args = args[1:]
        if self.is_opaque(fi) or len(self.stack) >= self.max_depth or self.stack.count(fi) >= 2 or (fi in self.stack and fi.cls is not None and len(self.stack) > 6 and self.stack.count(fi) >= 1):
            b = self.bind_opaque(fi, args, kwargs, st)
            items = tuple(sorted(((k, v) for k, v in b.items()), key=lambda kv: kv[0]))
            ta = tuple((k, self.term(v, st)) for k, v in items)
            self.emit(st, "pcall", env, node, fn=fi.qual, name=fi.name, args=items, targs=ta)
            if fi.name in self.probes:
                ta += tuple(self.probes[fi.name](self, b, st, env, node))
            return self.opaque_result(mk("pcall", fi.qual, ta, self.pcall_version(fi, st)), st, env, node)
        b = self.bind(fi, args, kwargs, st, closure)
        if b is None:
            self.emit(st, "badcall", env, node, fn=fi.qual)
            s = st
            s.ctl = ("raise", "TypeError", self.loc(env, node))
            return [(s, None)]
        self.nframe += 1
        fid = self.nframe
        env2 = Env(fid, fi, fi.module, fi.cls, closure, recv if recv is not None else (closure.recv if closure else None))
        if fi.cls is not None and recv is None and args and fi.kind in ("method", "property", "setter"):
            env2.recv = args[0]
        self.visited.add(fi.qual)
        st.frames[fid] = b
        self.stack.append(fi)
        try:
            outs = self.block(fi.node.body, [st], env2)
        finally:
            self.stack.pop()
        res = []
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node))
        for s in outs:
            v = NONE
            if s.ctl:
                if s.ctl[0] == "return":
                    v = s.ctl[1]
                    s.ctl = None
                elif s.ctl[0] == "raise":
                    v = None
                else:
                    s.ctl = None
            if not self.escapes(v, fid, s):
                s.frames.pop(fid, None)
            if is_gen:
                v = mk("opaque", "generator", fi.qual)
            res.append((s, v))
        return self.join_results(res)

    def draw_id(self):
        """identity of one draw of a random number (or impure call): the occurrence and the iterations it happens in"""
        u = self.uniq()
        return mk("draw", u, *self.active) if self.active else u

    def pcall_version(self, fi, st):
        return self.draw_id() if fi.name in self.impure or fi.qual in self.impure else 0

    def escapes(self, v, fid, st):
        """does a closure over the frame escape (returned or stored)?"""
        def has(x):
            if isinstance(x, Fn):
                e = x.env
                while e is not None:
                    if e.fid == fid:
                        return True
                    e = e.parent
                return False
            if isinstance(x, Tup):
                return any(has(y) for y in x.items)
            return False
        if has(v):
            return True
        for o in st.heap.values():
            if o.attrs and any(has(x) for x in o.attrs.values()):
                return True
        for ev in st.events:
            if any(has(x) for x in ev.d.values()):
                return True
        return False

    def join_results(self, res):
        if len(res) <= 1:
            return res
        out = []
        for s, v in res:
            for i, (s2, v2) in enumerate(out):
                if v2 == v and s2.sig_equal(s):
                    self.meet_facts(s2, s)
                    break
            else:
                out.append((s, v))
        return out

    @staticmethod
    def meet_facts(a, b):
        """facts of the join of two otherwise equal states (into a)"""
        keep = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        fa = [x for x in a.order if x not in keep]
        fb = [x for x in b.order if x not in keep]
        a.facts = keep
        a.order = tuple(x for x in a.order if x in keep)
        if fa and fb and len(fa) + len(fb) <= 24:
            d = bor(band(*fa), band(*fb))
            if d is not TRUE and d not in a.facts:
                a.facts[d] = True
                a.order = a.order + (d,)
        nb = {}
        for k, v in a.bounds.items():
            w = b.bounds.get(k)
            if w is not None:
                nb[k] = max(v, w, key=lambda x: (x[0], not x[1]))
        a.bounds = nb

    def join(self, states):
        if len(states) <= 1:
            return states
        out = []
        for s in states:
            for s2 in out:
                if s2.sig_equal(s):
                    self.meet_facts(s2, s)
                    break
            else:
                out.append(s)
        if len(out) > MAX_PATHS:
            raise Unsupported("more than %d paths" % MAX_PATHS)
        return out

    # -------------------------------------------------------------- statements
    def block(self, body, states, env):
        for stmt in body:
            nxt = []
            for s in states:
                if s.ctl:
                    nxt.append(s)
                else:
                    nxt.extend(self.stmt(stmt, s, env))
            states = self.join(nxt) if isinstance(stmt, (ast.If, ast.For, ast.While, ast.Try, ast.Expr, ast.Assign, ast.With)) and len(nxt) > 1 else nxt
            if len(states) > MAX_PATHS:
                raise Unsupported("more than %d paths" % MAX_PATHS)
        return states

    def stmt(self, n, st, env):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unsup.append((type(n).__name__, self.loc(env, n)))
            return [st]
        return m(n, st, env)

    def s_Expr(self, n, st, env):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, _ in self.ev(n.value, st, env)]

    def s_Pass(self, n, st, env):
        return [st]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, env):
        for k, b in import_bindings(n, env.module).items():
            r = self.p.resolve_import(b)
            st.frames.setdefault(env.fid, {})[k] = self.static_value(r, st)
        if self.try_depth:
            s2 = st.clone()
            s2.ctl = ("raise", "ImportError", self.loc(env, n))
            return [st, s2]
        return [st]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, env):
        fi = FuncInfo(n, env.module, None, "function", env.fi)
        st.frames.setdefault(env.fid, {})[n.name] = Fn(fi, env)
        return [st]

    def s_ClassDef(self, n, st, env):
        ci = ClassInfo(n, env.module)
        st.frames.setdefault(env.fid, {})[n.name] = Cls(ci)
        return [st]

    def s_Return(self, n, st, env):
        if n.value is None:
            st.ctl = ("return", NONE)
            return [st]
        out = []
        for s, v in self.ev(n.value, st, env):
            if not s.ctl:
                s.ctl = ("return", self.store_value(v, s))
            out.append(s)
        return out

    def s_Raise(self, n, st, env):
        if n.exc is None:
            st.ctl = ("raise", "<reraise>", self.loc(env, n))
            return [st]
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "Exception"
        if isinstance(n.exc, ast.Name):
            v = self.lookup(name, st, env)
            if isinstance(v, T) and v.op == "exc":
                name = v.args[0]
        st.ctl = ("raise", name, self.loc(env, n))
        return [st]

    def s_Assert(self, n, st, env):
        out = []
        for s, v in self.ev(n.test, st, env):
            if s.ctl:
                out.append(s)
                continue
            for s2, b in self.branch(s, self.truth(v, s)):
                if not b:
                    s2.ctl = ("raise", "AssertionError", self.loc(env, n))
                out.append(s2)
        return out

    def s_If(self, n, st, env):
        out = []
        for s, v in self.ev(n.test, st, env):
            if s.ctl:
                out.append(s)
                continue
            for s2, b in self.branch(s, self.truth(v, s)):
                out.extend(self.block(n.body if b else n.orelse, [s2], env))
        return out

    def s_Delete(self, n, st, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames.get(env.fid, {}).pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for s, v in self.ev(t.value, st, env):
                    for s2, i in self.ev(t.slice, s, env):
                        lc = self.as_list(v, s2)
                        ti = self.term(i, s2)
                        if lc is not None:
                            self.models.list_del(self, v, lc, ti, s2, env, n)
                        else:
                            self.mutate(v, mk("delitem", self.term(v, s2), ti), s2, env, n)
                        return [s2]
            elif isinstance(t, ast.Attribute):
                for s, v in self.ev(t.value, st, env):
                    self.emit(s, "delattr", env, n, name=t.attr)
        return [st]

    def s_With(self, n, st, env):
        states = [st]
        opened = []
        for item in n.items:
            nxt = []
            for s in states:
                if s.ctl:
                    nxt.append(s)
                    continue
                for s2, v in self.ev(item.context_expr, s, env):
                    if not s2.ctl and item.optional_vars is not None:
                        self.assign(item.optional_vars, v, s2, env, n)
                    if not s2.ctl:
                        opened.append(v)
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            if s.ctl:
                out.append(s)
                continue
            for s2 in self.block(n.body, [s], env):
                for v in opened[:len(n.items)]:
                    self.emit(s2, "exit", env, n, ctx=v)
                out.append(s2)
        return out

    def s_Try(self, n, st, env):
        self.try_depth += 1 if n.handlers else 0
        try:
            outs = self.block(n.body, [st], env)
        finally:
            self.try_depth -= 1 if n.handlers else 0
        res = []
        for s in outs:
            if s.ctl and s.ctl[0] == "raise" and n.handlers:
                res.extend(self.handle(n.handlers, s, env))
            elif not s.ctl and n.orelse:
                res.extend(self.block(n.orelse, [s], env))
            else:
                res.append(s)
        if n.finalbody:
            fin = []
            for s in res:
                c = s.ctl
                s.ctl = None
                for s2 in self.block(n.finalbody, [s], env):
                    if not s2.ctl:
                        s2.ctl = c
                    fin.append(s2)
            res = fin
        return res

    def handle(self, handlers, s, env):
        exc = s.ctl[1]
        out = []
        cur = s
        for h in handlers:
            names = []
            if h.type is not None:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?")
            catch_all = h.type is None or any(x in ("Exception", "BaseException") for x in names)
            match = catch_all or exc in names or self.models.exc_subclass(exc, names)
            maybe = exc == "<external>" and not catch_all
            if match or maybe:
                s2 = cur.clone() if maybe else cur
                s2.ctl = None
                if h.name:
                    s2.frames.setdefault(env.fid, {})[h.name] = mk("exc", exc if not maybe else names[0])
                for s3 in self.block(h.body, [s2], env):
                    if s3.ctl and s3.ctl[0] == "raise" and s3.ctl[1] == "<reraise>":
                        s3.ctl = ("raise", exc, s3.ctl[2])
                    out.append(s3)
                if match:
                    return out
        out.append(cur)
        return out

    def s_Break(self, n, st, env):
        st.ctl = ("break",)
        return [st]

    def s_Continue(self, n, st, env):
        st.ctl = ("continue",)
        return [st]

    # ---- assignment
    def s_Assign(self, n, st, env):
        out = []
        for s, v in self.ev(n.value, st, env):
            if not s.ctl:
                v = self.store_value(v, s)
                for t in n.targets:
                    self.assign(t, v, s, env, n)
            out.append(s)
        return out

    def s_AnnAssign(self, n, st, env):
        if n.value is None:
            return [st]
        out = []
        for s, v in self.ev(n.value, st, env):
            if not s.ctl:
                self.assign(n.target, self.store_value(v, s), s, env, n)
            out.append(s)
        return out

    def assign(self, t, v, st, env, node):
        """single-path assignment (targets are evaluated on one path: the first)"""
        if isinstance(t, ast.Name):
            fid = env.fid
            # nonlocal declarations
            if self.is_nonlocal(env, t.id):
                en = env.parent
                while en is not None:
                    if t.id in st.frames.get(en.fid, {}):
                        fid = en.fid
                        break
                    en = en.parent
            st.frames.setdefault(fid, {})[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete(v, st)
            names = t.elts
            star = [i for i, x in enumerate(names) if isinstance(x, ast.Starred)]
            if items is not None and len(items) == len(names) and not star:
                for x, y in zip(names, items):
                    self.assign(x, y, st, env, node)
            else:
                tv = self.term(v, st)
                for i, x in enumerate(names):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, mk("opaque", "star", self.uniq()), st, env, node)
                    else:
                        self.assign(x, self.models.getitem(tv, const(i)), st, env, node)
        elif isinstance(t, ast.Attribute):
            rs = self.ev(t.value, st, env)
            s, o = rs[0]
            if len(rs) > 1 or s is not st:
                if s is not st:
                    self.copy_into(st, s)
            self.setattr(o, t.attr, v, st, env, node)
        elif isinstance(t, ast.Subscript):
            rs = self.ev(t.value, st, env)
            s, o = rs[0]
            if s is not st:
                self.copy_into(st, s)
            ri = self.ev(t.slice, st, env)
            s, i = ri[0]
            if s is not st:
                self.copy_into(st, s)
            self.setitem(o, i, v, st, env, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, env, node)

    def is_nonlocal(self, env, name):
        cached = getattr(env.fi, "_nonlocals", None)
        if cached is None:
            cached = {x for d in ast.walk(env.fi.node) if isinstance(d, ast.Nonlocal) for x in d.names}
            env.fi._nonlocals = cached
        return name in cached

    @staticmethod
    def copy_into(dst, src):
        for k in State.__slots__:
            setattr(dst, k, getattr(src, k))

    def setattr(self, o, name, v, st, env, node):
        if isinstance(o, Ref):
            ob = st.heap[o.id]
            if ob.kind == "obj":
                if isinstance(ob.cls, ClassInfo):
                    fi = self.p.find_method(ob.cls, name, setter=True)
                    if fi is not None:
                        rs = self.call_fi(fi, [o, v], {}, st, env, node, recv=o)
                        ok = [s for s, _ in rs if not s.ctl] or [rs[0][0]]
                        if ok[0] is not st:
                            self.copy_into(st, ok[0])
                        return
                a = dict(ob.attrs)
                a[name] = v
                st.heap[o.id] = ob.but(attrs=a)
                self.emit(st, "setattr", env, node, obj=o, name=name, value=v)
                return
        if isinstance(o, T):
            st.tattr[(o, name)] = v
            self.emit(st, "tsetattr", env, node, obj=o, name=name, value=v)
            return
        self.emit(st, "setattr_other", env, node, obj=self.term(o, st), name=name)

    def setitem(self, o, i, v, st, env, node):
        if isinstance(o, Ref) and st.heap[o.id].kind == "dict" and isinstance(st.heap[o.id].content, tuple):
            k = self.term(i, st)
            ob = st.heap[o.id]
            c = tuple((kk, vv) for kk, vv in ob.content if kk is not k) + ((k, v),)
            st.heap[o.id] = ob.but(content=c)
            return
        lc = self.as_list(o, st) if isinstance(o, (Ref, T)) else None
        if lc is not None:
            ok, n = tm.py_const(self.term(i, st))
            if ok and isinstance(n, int) and 0 <= n < len(lc) and all(s[0] == "item" for s in lc[: n + 1]):
                self.set_list(o, lc[:n] + (("item", v),) + lc[n + 1:], st)
            else:
                t = self.models.setitem(self.lc_term(lc, st), self.term(i, st), self.term(v, st))
                self.set_list(o, [("rest", t)], st)
            self.emit(st, "mutate", env, node, root=o, origin="list", how="setitem", new=self.term(o, st))
            return
        if isinstance(o, (Ref, T)) and not (isinstance(o, Ref) and st.heap[o.id].kind == "obj"):
            new = self.models.setitem(self.term(o, st), self.term(i, st), self.term(v, st))
            self.mutate(o, new, st, env, node, "setitem")
            return
        self.emit(st, "setitem_other", env, node, obj=self.term(o, st))

    def s_AugAssign(self, n, st, env):
        import copy as _c
        load = _c.copy(n.target)
        load.ctx = ast.Load()
        out = []
        for s, vs in self.evs([load, n.value], st, env):
            if s.ctl:
                out.append(s)
                continue
            a, b = vs
            op = type(n.op).__name__
            la = self.as_list(a, s) if isinstance(a, (Ref, T)) else None
            if la is not None and op == "Add":
                lb = self.as_list(b, s)
                if lb is None:
                    items = self.concrete(b, s)
                    lb = LC(("item", x) for x in items) if items is not None else LC([("rest", self.term(b, s))])
                self.set_list(a, tuple(la) + tuple(lb), s)
                self.emit(s, "mutate", env, n, root=a, origin="list", how="extend", new=self.term(a, s))
                out.append(s)
                continue
            r = self.binop(op, a, b, s)
            k = self.kind(a, s)
            if isinstance(n.target, ast.Subscript):
                self.assign(n.target, r if isinstance(r, T) else self.term(r, s), s, env, n)
            elif k in ("arr", "arr1", "arr2") and isinstance(a, (Ref, T)) and not isinstance(r, Ref):
                self.mutate(a, r, s, env, n, "aug")
            else:
                if k == "unk" and isinstance(a, T):
                    self.emit(s, "maybe_mutate", env, n, root=self.root(a, s))
                self.assign(n.target, self.store_value(r, s), s, env, n)
            out.append(s)
        return out

    # ---- loops
    def s_For(self, n, st, env):
        out = []
        for s, v in self.ev(n.iter, st, env):
            if s.ctl:
                out.append(s)
                continue
            it = self.iterate(v, s, env, n)
            if it is None:
                self.unsup.append(("iteration", self.loc(env, n)))
                it = Iter(lo=ZERO, hi=mk("opaque_len", self.uniq()), elem=lambda b: mk("elem", self.term(v, s), b))
            if it.items is None and it.guard is None:
                ok1, lo = tm.py_const(it.lo)
                ok2, hi = tm.py_const(it.hi)
                if ok1 and ok2 and isinstance(lo, int) and isinstance(hi, int) and hi - lo <= UNROLL:
                    it = Iter(items=tuple(it.elem(const(i)) for i in range(lo, hi)))
            if it.items is not None:
                states = [s]
                done = []
                for x in it.items:
                    nxt = []
                    for s1 in states:
                        self.assign(n.target, x, s1, env, n)
                        for s2 in self.block(n.body, [s1], env):
                            if s2.ctl and s2.ctl[0] == "continue":
                                s2.ctl = None
                            if s2.ctl and s2.ctl[0] == "break":
                                s2.ctl = None
                                done.append(s2)
                            elif s2.ctl:
                                done.append(s2)
                            else:
                                nxt.append(s2)
                    states = self.join(nxt)
                for s1 in states:
                    out.extend(self.block(n.orelse, [s1], env) if n.orelse else [s1])
                out.extend(done)
                continue
            out.extend(self.summarise(n, s, env, it, None))
        return self.join(out)

    def s_While(self, n, st, env):
        # bounded unrolling is not attempted: one abstract iteration
        return self.join(self.summarise(n, st, env, None, n.test))

    def loop_keys(self, st):
        """name -> value of everything a loop body may change"""
        d = {}
        for fid, fr in st.frames.items():
            for k, v in fr.items():
                d[("var", fid, k)] = v
        for rid, o in st.heap.items():
            if o.kind == "obj":
                for k, v in o.attrs.items():
                    d[("attr", rid, k)] = v
            elif o.view is None:
                d[("obj", rid)] = o.content
        for t, c in st.cont.items():
            d[("cont", t)] = c
        for k, c in st.tattr.items():
            d[("tattr",) + k] = c
        return d

    def get_key(self, st, key):
        if key[0] == "var":
            return st.frames.get(key[1], {}).get(key[2])
        if key[0] == "attr":
            o = st.heap.get(key[1])
            if o is None:
                return None
            if key[2] in o.attrs:
                return o.attrs[key[2]]
            if isinstance(o.cls, ClassInfo) and o.origin != "fresh":
                return mk("sym", o.origin + "." + key[2], self.kinds.get((o.cls.name, key[2])) or attr_kind(key[2]))
            return None
        if key[0] == "obj":
            o = st.heap.get(key[1])
            return None if o is None else o.content
        if key[0] == "cont":
            return st.cont.get(key[1], key[1])
        if key[0] == "tattr":
            return st.tattr.get((key[1], key[2]))

    def put_key(self, st, key, v):
        if key[0] == "var":
            st.frames.setdefault(key[1], {})[key[2]] = v
        elif key[0] == "attr":
            o = st.heap[key[1]]
            a = dict(o.attrs)
            a[key[2]] = v
            st.heap[key[1]] = o.but(attrs=a)
        elif key[0] == "obj":
            st.heap[key[1]] = st.heap[key[1]].but(content=v)
        elif key[0] == "cont":
            st.cont[key[1]] = v
        elif key[0] == "tattr":
            if v is None:
                st.tattr.pop((key[1], key[2]), None)
            else:
                st.tattr[(key[1], key[2])] = v

    def key_name(self, key):
        return ".".join(str(x) for x in key if not isinstance(x, T)) + ("" if key[0] != "cont" else tm.show(key[1]))

    def run_iter(self, n, st, env, it, test, bv):
        """states after one abstract iteration, plus states leaving through the test"""
        st = st.clone()
        exits = []
        if test is not None:
            entered = []
            for s, v in self.ev(test, st, env):
                if s.ctl:
                    exits.append(s)
                    continue
                for s2, b in self.branch(s, self.truth(v, s)):
                    if b:
                        entered.append(s2)
                    else:
                        exits.append(s2)
        else:
            st.assume(le(it.lo, bv))
            st.assume(lt(bv, it.hi))
            if it.guard is not None:
                st.assume(it.guard(bv))
            self.assign(n.target, it.elem(bv), st, env, n)
            entered = [st]
        return [s.clone() for s in entered], exits, [x for s in entered for x in self.block(n.body, [s], env)]

    def new_bv(self, st, lo, hi):
        """a bound variable that no live condition mentions (an iteration left early keeps its own variable)"""
        lv = self.level
        while True:
            bv = mk("bv", lv, lo, hi)
            if not any(tm.contains_t(f, bv) for f in st.order) and not any(tm.contains_t(k[0], bv) for k in st.tattr):
                return bv
            lv += 10

    def summarise(self, n, st, env, it, test):
        bv = self.new_bv(st, it.lo, it.hi) if it is not None else mk("bv", self.level, ZERO, mk("iters", self.uniq()))
        loopid = "%s:%d" % (env.fi.qual, self.uniq())
        pre = self.loop_keys(st)
        targets = set()
        if it is not None:
            targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        self.level += 1
        self.active.append(bv)
        sn = len(self.unsup)
        try:
            changed = set()
            base = st
            u0 = self.nuniq
            for _round in range(6):
                self.nuniq = u0
                entered, exits, outs = self.run_iter(n, base, env, it, test, bv)
                new = set()
                for s in outs + exits:
                    if s.ctl and s.ctl[0] in ("raise",):
                        continue
                    post = self.loop_keys(s)
                    for k, v in post.items():
                        if k[0] == "var" and k[1] == env.fid and k[2] in targets:
                            continue
                        if k[0] in ("obj", "attr") and k[1] not in st.heap:
                            continue
                        if k[0] == "var" and k[1] not in st.frames:
                            continue
                        if k[0] == "tattr" and bv.op == "bv" and self.other_bv(k[1], bv):
                            continue  # element picked by a search loop: each iteration has its own
                        if k[0] == "tattr" and isinstance(k[1], T) and k[1].op in ("elem", "getitem") and k[1].args[-1] is bv and not tm.contains_t(k[1].args[0], bv):
                            continue  # attribute of the element this iteration stands for
                        old = self.get_key(base, k)
                        if old != v and k not in changed:
                            new.add(k)
                        elif k not in pre and k not in changed and k[0] in ("cont", "tattr", "attr"):
                            new.add(k)
                if not new:
                    break
                if DEBUG_LOOPS:
                    print("round", _round, env.fi.qual, [(self.key_name(k), self.get_key(base, k), [self.get_key(s, k) for s in outs[:3]]) for k in sorted(new, key=repr)])
                changed |= new
                base = st.clone()
                for k in sorted(changed, key=repr):
                    old = self.get_key(st, k)
                    self.put_key(base, k, self.havoc(old, loopid, k, base))
            else:
                raise Unsupported("loop summary did not stabilise in " + env.fi.qual)
        finally:
            self.level -= 1
            self.active.pop()
        iter_states = [s for s in outs if s.ctl is None or s.ctl[0] == "continue"]
        leave = []
        nb = len(st.events)

        def partial(s, kind):
            s.events = st.events + (Ev("loop", self.loc(env, n), bv=bv, alts=alts, partial=True),) + s.events[nb:]
            return s
        base_order = entered[0].order if entered else base.order
        iter_guard = it.guard(bv) if it is not None and it.guard is not None else TRUE

        def new_facts(s):
            known = set(base_order)
            return band(*([iter_guard] + [f for f in s.order if f not in known]))
        alts = tuple((new_facts(s), tuple(s.events[nb:])) for s in iter_states if s.events[nb:])
        # how one iteration may end, before the states that leave the loop run on
        outcomes = [("iter" if s.ctl is None or s.ctl[0] == "continue" else s.ctl[0], s.clone()) for s in outs] + \
            [("exit" if s.ctl is None else s.ctl[0], s.clone()) for s in exits]
        for s in outs:
            if s.ctl and s.ctl[0] == "break":
                s.ctl = None
                leave.append(partial(s, "break"))
            elif s.ctl and s.ctl[0] in ("return", "raise"):
                leave.append(partial(s, s.ctl[0]))
        for s in exits:
            if s.ctl:
                leave.append(partial(s, "raise"))
        # ---- normal exit
        normal = st.clone()
        counter = None
        if test is not None:
            counter = self.find_counter(changed, iter_states, base, st, exits)
        sub_bv = {}
        if counter is not None:
            ck, lvt, start, hi = counter
            nbv = self.new_bv(st, start, hi)
            sub_bv = {lvt: nbv, bv: sub(nbv, start)}
            bv_eff = nbv
        else:
            bv_eff = bv if it is not None else None
        self.loops[loopid] = LoopInfo(loopid, env.fi, n, bv_eff, st, base, iter_states, sorted(changed, key=repr), base_order, sub_bv, outcomes,
                                      raw_bv=bv, guard=iter_guard)
        closed = self.induction(changed, iter_states, base, st, bv_eff) if bv_eff is not None and iter_guard is TRUE else {}
        for k, (lvt_, cform, fin) in closed.items():
            if counter is None or k != counter[0]:
                sub_bv[lvt_] = cform
        for k in sorted(changed, key=repr):
            before = self.get_key(st, k)
            if k[0] == "tattr":
                # written to some elements: later reads are not resolved through the old value
                normal.tattr.pop((k[1], k[2]), None)
                continue
            if counter is not None and k == counter[0]:
                after = fn_max(counter[2], counter[3])
            elif k in closed:
                after = closed[k][2]
            else:
                after = self.solve(k, before, base, iter_states, new_facts, bv_eff, loopid, changed, sub_bv, n)
            self.put_key(normal, k, after)
        for tname in targets:
            normal.frames.setdefault(env.fid, {})[tname] = mk("lastbv", bv, tname)
        # loop-local variables stay visible
        for s in iter_states[:1]:
            for k, v in s.frames.get(env.fid, {}).items():
                if k not in normal.frames.get(env.fid, {}):
                    normal.frames[env.fid][k] = mk("phi", loopid, k, self.kind(v, s))
        if alts:
            a2 = alts
            normal.events = st.events + (Ev("loop", self.loc(env, n), bv=bv_eff if bv_eff is not None else bv, alts=a2, partial=False),)
        # objects allocated inside the loop may be referenced by sequence segments
        for s in iter_states:
            for rid, o in s.heap.items():
                normal.heap.setdefault(rid, o)
        # counters have their closed form also where the loop is left early
        if closed and bv is not None and bv_eff is bv:
            m = {lvt: cf for lvt, cf, fin in closed.values()}
            for s in leave:
                self.sub_state(s, m, nb)
        # iterations that left the loop early did not happen on the normal exit
        early = False
        if bv_eff is not None:
            for s in leave:
                if s.events and s.events[nb:] and s.events[nb].kind == "loop" and s.events[nb].d.get("partial") in (True,):
                    g = band(*[f for f in s.order if f not in set(base_order)])
                    if sub_bv:
                        g = tm.subst(g, sub_bv)
                    if not tm.contains(g, lambda x: x.op in ("lv", "phi", "iters", "lastbv")) and not self.other_bv(g, bv_eff):
                        ex = self.models.mkexists(bv_eff, g)
                        normal.assume(bnot(ex))
                        if tm.contains(g, lambda x: x.op == "attr" and x.args[0].op == "getitem"):
                            normal.events = normal.events + (Ev("assume", ("", 0, ""), fact=ex, value=False),)
                    else:
                        early = True
        elif leave:
            early = True
        if early and any(tag in ("break", "return") for tag, _ in outcomes):
            normal.assume(mk("done", loopid))
        res = []
        infinite = isinstance(test, ast.Constant) and bool(test.value)
        if not infinite:
            if test is not None and counter is None:
                for s, v in self.ev(test, normal, env):
                    if s.ctl:
                        res.append(s)
                        continue
                    for s2, b in self.branch(s, self.truth(v, s)):
                        if not b:
                            res.append(s2)
            else:
                res.append(normal)
        if n.orelse:
            res = [x for s in res for x in (self.block(n.orelse, [s], env) if not s.ctl else [s])]
        return res + leave

    def havoc(self, old, loopid, key, st):
        name = self.key_name(key)
        if isinstance(old, LC):
            return LC([("rest", mk("lv", loopid, name, "list"))])
        if isinstance(old, Ref):
            o = st.heap[old.id]
            if o.kind == "arr":
                return self.new_arr(st, mk("lv", loopid, name, self.kind(old, st)), origin="lv")
            if o.kind == "list":
                return self.new_list(st, [("rest", mk("lv", loopid, name, "list"))], origin="lv")
            return mk("lv", loopid, name, "unk")
        if isinstance(old, Tup):
            return mk("lv", loopid, name, "tuple")
        if isinstance(old, T):
            return mk("lv", loopid, name, kind_of(old) if kind_of(old) != "none" else "unk")
        return mk("lv", loopid, name, "unk")

    @staticmethod
    def other_bv(g, bv):
        """a bound variable of a nested loop occurs free"""
        return tm.contains(g, lambda x: x.op == "bv" and x is not bv and isinstance(x.args[0], int) and x.args[0] < 50 and x.args[0] > bv.args[0])

    def induction(self, changed, iters, base, st, bv):
        """variables stepped by a constant on every path: key -> (lv term, closed form in bv, final value)"""
        out = {}
        if not iters:
            return out
        for k in changed:
            lvv = self.get_key(base, k)
            b = self.get_key(st, k)
            if not isinstance(lvv, T) or lvv.op != "lv" or not isinstance(b, T) or kind_of(b) not in ("int", "num"):
                continue
            vs = [self.get_key(s, k) for s in iters]
            if not all(isinstance(v, T) for v in vs) or not all(v is vs[0] for v in vs):
                continue
            v = vs[0]
            m = sub(bv, bv.args[1])
            n = sub(bv.args[2], bv.args[1])
            step = sub(v, lvv) if v.op not in ("mod",) else None
            if step is not None and tm.is_num(step):
                out[k] = (lvv, add(b, mul(step, m)), add(b, mul(step, n)))
            elif v.op == "mod":
                step = sub(v.args[0], lvv)
                L = v.args[1]
                if tm.is_num(step) and not tm.contains(L, lambda x: x.op in ("lv", "bv")):
                    f = lambda i: mk("mod", add(b, mul(step, i)), L)
                    out[k] = (lvv, ite(eq(m, ZERO), b, f(m)), ite(le(n, ZERO), b, f(n)))
        return out

    def has_lv(self, t, loopid):
        return tm.contains(t, lambda x: x.op == "lv" and x.args[0] == loopid)

    def find_counter(self, changed, iter_states, base, st, exits):
        """while-loop with a unit counter: (key, lv term, start, limit)"""
        if not iter_states:
            return None
        for k in changed:
            lvv = self.get_key(base, k)
            if not isinstance(lvv, T) or lvv.op != "lv":
                continue
            b = self.get_key(st, k)
            if not isinstance(b, T):
                continue
            if not all(self.get_key(s, k) is add(lvv, ONE) for s in iter_states):
                continue
            # exit condition: not (lv < hi)
            for s in exits:
                if s.ctl:
                    continue
                new = [f for f in s.order if f not in base.order]
                if len(new) == 1 and new[0].op in ("le0", "lt0"):
                    p = new[0].args[0]  # hi - lv <= 0  (lv >= hi)
                    d = tm.as_poly(p)
                    c = d.get(((lvv, Fraction(1)),))
                    if c == -1:
                        hi = add(p, lvv)
                        if new[0].op == "lt0":
                            hi = add(hi, ONE)
                        if not tm.contains(hi, lambda x: x.op == "lv" and x.args[0] == lvv.args[0]):
                            return (k, lvv, b, hi)
        return None

    def solve(self, key, before, base, iters, new_facts, bv, loopid, changed, sub_bv, n):
        name = self.key_name(key)
        lvv = self.get_key(base, key)
        phi_kind = lvv.args[2] if isinstance(lvv, T) and lvv.op == "lv" else "unk"
        phi = mk("phi", loopid, name, phi_kind)

        def s_(t):
            return tm.subst(t, sub_bv) if sub_bv else t
        vals = [self.get_key(s, key) for s in iters]
        if not iters:
            return before
        # list contents
        if any(isinstance(v, LC) for v in vals + [lvv, before]):
            def as_lc(v):
                return LC([("rest", v)]) if isinstance(v, T) else v
            lvv, before, vals = as_lc(lvv), as_lc(before), [as_lc(v) for v in vals]
        if isinstance(lvv, LC) or isinstance(before, LC):
            segs_all = []
            ok = bv is not None
            for s, v in zip(iters, vals):
                if not isinstance(v, LC) or not v or not isinstance(lvv, LC) or v[0] != lvv[0]:
                    ok = False
                    break
                segs_all.append((s_(new_facts(s)), v[1:], s))
            if ok:
                out = list(before)
                nonempty = [x for x in segs_all if x[1]]
                if len(nonempty) <= 1:
                    for g, segs, s in nonempty:
                        if self.has_lv(g, loopid):
                            ok = False
                        for sg in segs:
                            if sg[0] == "item":
                                out.append(("each", bv, g, self.sub_val(sg[1], s_, s)))
                            elif sg[0] == "each":
                                out.append(("each", bv, g, mk("nested", self.lc_term(LC([sg]), s))))
                            else:
                                ok = False
                    if ok:
                        return LC(out)
                else:
                    # several paths appending one item each
                    if all(len(x[1]) == 1 and x[1][0][0] == "item" for x in nonempty):
                        same = all(x[1][0][1] == nonempty[0][1][0][1] for x in nonempty)
                        tot = bor(*[g for g, _, _ in segs_all])
                        guards = bor(*[g for g, _, _ in nonempty])
                        if len(nonempty) == len(segs_all):
                            guards = TRUE
                        ts = [(g, self.term(x[0][1], s)) for g, x, s in nonempty]
                        v = ts[-1][1]
                        for g, t in reversed(ts[:-1]):
                            v = ite(g, t, v)
                        if same:
                            return LC(out + [("each", bv, guards, self.sub_val(nonempty[0][1][0][1], s_, nonempty[0][2]))])
                        if not self.has_lv(v, loopid) and not self.has_lv(guards, loopid):
                            return LC(out + [("each", bv, guards, s_(v))])
            return LC([("rest", mk("phi", loopid, name, "list"))])
        wrap = None
        lt_ = self.term(lvv, base) if lvv is not None else None
        if isinstance(lvv, Ref):
            if base.heap[lvv.id].kind == "list":
                return mk("phi", loopid, name, "list")
        if lt_ is None:
            return phi
        ts = []
        for s, v in zip(iters, vals):
            if v is None:
                return phi
            ts.append(s_(self.term(v, s)))
        gs = [s_(new_facts(s)) for s in iters]
        bt = None
        if before is not None and not isinstance(before, LC):
            bt = before if isinstance(before, T) else None
            if isinstance(before, Ref):
                bt = self.term(before, base) if base.heap[before.id].kind == "arr" else None
                if bt is not None and key[0] == "var":
                    # identity of the array is lost after rebinding in a loop; its content is what matters
                    bt = self.term(before, base)
        if all(t is lt_ for t in ts):
            return before
        if bv is None or bt is None:
            return phi
        total = None
        if any(self.has_lv(g, loopid) for g in gs):
            gs_ok = False
        else:
            gs_ok = True
        # accumulation: lv + e
        es = [sub(t, lt_) if t.op not in ("rows", "setitem", "tuple", "const", "list", "ite") else None for t in ts]
        if gs_ok and all(e is not None and not self.has_lv(e, loopid) for e in es):
            total = bt
            if all(e is es[0] for e in es):
                return add(bt, self.models.mksum(bv, TRUE, es[0]))
            for g, e in zip(gs, es):
                if e is not ZERO:
                    total = add(total, self.models.mksum(bv, g, e))
            return total
        # product
        if len(ts) == 1 and ts[0].op == "poly":
            q = div(ts[0], lt_)
            if not self.has_lv(q, loopid):
                return mul(bt, self.models.mkprod(bv, q))
        # rows appended
        if gs_ok and all(t is lt_ or (t.op == "rows" and t.args[0] is lt_ and not any(self.has_lv(x, loopid) for x in t.args[1:])) for t in ts):
            grown = [(g, t) for g, t in zip(gs, ts) if t is not lt_]
            if grown and all(t is grown[0][1] for _, t in grown):
                g = bor(*[g for g, _ in grown]) if len(grown) < len(ts) else TRUE
                return self.models.rows(bt, *[mk("each", bv, g, x) for x in grown[0][1].args[1:]])
        # sequence of transpositions
        if gs_ok and len(ts) == 1 and ts[0].op == "setitem" and ts[0].args[0].op == "setitem" and ts[0].args[0].args[0] is lt_:
            j, vj = ts[0].args[1:]
            i, vi = ts[0].args[0].args[1:]
            el = lambda k: self.models.getitem(lt_, k)
            if vi is el(j) and vj is el(i) and not self.has_lv(i, loopid) and not self.has_lv(j, loopid):
                return mk("swaps", bt, bv, i, j)
        # column stores
        if gs_ok and len(ts) == 1:
            r = self.models.column_update(ts[0], lt_, bt, bv, gs[0])
            if r is not None and not self.has_lv(r, loopid):
                return r
        # element-wise stores
        if gs_ok:
            chains = []
            for t in ts:
                ch = []
                u = t
                while u.op == "setitem":
                    ch.append((u.args[1], u.args[2]))
                    u = u.args[0]
                chains.append((u, ch[::-1]))
            if all(u is lt_ for u, _ in chains):
                ch0 = chains[0][1]
                if all(len(ch) == len(ch0) and all(a[0] is b[0] for a, b in zip(ch, ch0)) for _, ch in chains):
                    r = bt
                    for j in range(len(ch0)):
                        v = chains[-1][1][j][1]
                        for g, (_, ch) in list(zip(gs, chains))[:-1][::-1]:
                            v = ite(g, ch[j][1], v)
                        idx = ch0[j][0]
                        v = self.models.resolve_lv_elem(v, lt_, idx, bt)
                        if self.has_lv(v, loopid) or self.has_lv(idx, loopid):
                            return phi
                        r = self.models.forset(r, bv, TRUE, idx, v)
                    return r
                if sum(1 for _, ch in chains if ch) == 1:
                    for g, (_, ch) in zip(gs, chains):
                        if ch:
                            r = bt
                            for idx, v in ch:
                                v = self.models.resolve_lv_elem(v, lt_, idx, bt)
                                if self.has_lv(v, loopid) or self.has_lv(idx, loopid):
                                    return phi
                                r = self.models.forset(r, bv, g, idx, v)
                            return r
        # flag idiom: some paths set it to a value independent of the iteration, others keep it
        if gs_ok:
            setters = [(g, t) for g, t in zip(gs, ts) if t is not lt_]
            if setters and all(t is setters[0][1] for _, t in setters) and not self.has_lv(setters[0][1], loopid) \
                    and not tm.contains_t(setters[0][1], bv):
                g = bor(*[g for g, _ in setters]) if len(setters) < len(ts) else TRUE
                return ite(self.models.mkexists(bv, g), setters[0][1], bt)
            if all(not self.has_lv(t, loopid) for t in ts) and len(ts) == 1:
                last = tm.subst(ts[0], {bv: sub(bv.args[2], ONE)})
                return ite(lt(bv.args[1], bv.args[2]), last, bt)
        # running extremum
        if len(set(ts)) == 1 and ts[0].op == "fn" and ts[0].args[0] in ("maximum", "minimum") and lt_ in ts[0].args[1:]:
            rest = [x for x in ts[0].args[1:] if x is not lt_]
            if not any(self.has_lv(x, loopid) for x in rest):
                r = tm.fn(ts[0].args[0], *rest)
                return tm.fn(ts[0].args[0], bt, mk("redeach", ts[0].args[0], bv, TRUE, r))
        return phi

    def sub_any(self, v, m):
        if isinstance(v, T):
            return tm.subst(v, m)
        if isinstance(v, Tup):
            return Tup([self.sub_any(x, m) for x in v.items])
        if isinstance(v, LC):
            return LC([tuple(self.sub_any(x, m) for x in sg) for sg in v])
        if isinstance(v, Ev):
            return Ev(v.kind, v.loc, **{k: self.sub_any(x, m) for k, x in v.d.items()})
        if isinstance(v, tuple):
            return tuple(self.sub_any(x, m) for x in v)
        if isinstance(v, list):
            return [self.sub_any(x, m) for x in v]
        if isinstance(v, dict):
            return {k: self.sub_any(x, m) for k, x in v.items()}
        return v

    def sub_state(self, s, m, nb):
        """replace terms everywhere in a state (events from number nb on)"""
        f = lambda v: self.sub_any(v, m)
        s.frames = {k: {n: f(v) for n, v in d.items()} for k, d in s.frames.items()}
        s.heap = {k: o.but(attrs=f(o.attrs) if o.attrs is not None else None, content=f(o.content), view=f(o.view)) for k, o in s.heap.items()}
        s.cont = {f(k): f(v) for k, v in s.cont.items()}
        s.tattr = {f(k): f(v) for k, v in s.tattr.items()}
        s.facts = {f(k): v for k, v in s.facts.items()}
        s.order = tuple(f(c) for c in s.order)
        s.bounds = {f(k): v for k, v in s.bounds.items()}
        s.events = s.events[:nb] + tuple(f(e) for e in s.events[nb:])
        s.ctl = f(s.ctl) if s.ctl else s.ctl

    def sub_val(self, v, s_, s):
        if isinstance(v, T):
            return s_(v)
        if isinstance(v, Ref) and s.heap[v.id].kind == "arr":
            o = s.heap[v.id]
            s.heap[v.id] = o.but(content=s_(self.term(v, s)), view=None) if o.view is None else o
            return v
        return v


def fn_max(a, b):
    return tm.fn("maximum", a, b)
