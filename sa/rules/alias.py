"""M07: no function writes into arrays it was given, and what a surrogate or strategy keeps is not aliased to them.

Every in-place write event of every interpreted path is resolved, through views, aliases and attributes, to the storage it
changes; storage belonging to a parameter (or to an attribute that the constructor aliased to a parameter) is the caller's."""
import ast
from .common import *
from ..frontend import ClassInfo
from ..interp import Tup as TupV
from .strat import models, where as swhere, pathdesc

SCALARS = {"dim", "num_pts", "num_cand", "sampling_radius", "dtol", "prob_perturb", "kappa", "eta", "max_evals", "batch_size", "asynchronous", "use_restarts", "ei_tol", "lcb_target", "radius",
           "iterations", "order", "degree", "p_cross", "p_mutation", "tournament_size", "npts", "num_individuals", "ngenerations", "sigma", "fname", "criterion", "n_restarts_optimizer", "index",
           "maxp", "P"}
OWNERS = ("Surrogate", "Kernel", "Tail", "OptimizationProblem", "ExperimentalDesign")


def base_param(t):
    """the parameter a term's storage belongs to: (name, path of attributes) or None"""
    path = []
    while isinstance(t, T):
        if t.op == "sym":
            return t.args[0], tuple(reversed(path))
        if t.op == "attr":
            path.append(str(t.args[1]))
            t = t.args[0]
        elif t.op in ("getitem", "dim1", "lastitem", "firstitem") and isinstance(t.args[0], T):
            t = t.args[0]
        else:
            return None
    return None


def root(I, v, st):
    """the storage a value shows, as far as the state still knows it"""
    for _ in range(20):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None or o.view is None:
                return v
            v = o.view[0]
        elif isinstance(v, T) and v.op == "getitem" and isinstance(v.args[0], T):
            v = v.args[0]
        else:
            return v
    return v


def owner(I, st, v, params):
    """parameter whose storage v is, as 'name' or 'name.attr', or None"""
    for _ in range(20):
        v = root(I, v, st)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return None
            if o.origin in params:
                return o.origin
            return None
        if isinstance(v, T):
            b = base_param(v)
            if b and b[0].split(".")[0] in params:
                return ".".join((b[0],) + b[1])
        return None
    return None


def effects(events):
    for e in walk(events):
        if e.kind == "mutate":
            yield e, e.d["root"]
        elif e.kind in ("setitem_other",):
            yield e, e.d["obj"]


def scan(rep, who, w, q, params, shared=()):
    """refute writes into parameters (or attributes aliased to them) on one path"""
    bad = 0
    for e, rt in effects(q.events):
        o = owner(q.I, q.st, rt, params) or (e.d.get("origin") if e.d.get("origin") in params else None)
        if o is not None:
            rep.refute("%s never writes into %s" % (who, o), "%s:%s %s" % e.loc if isinstance(e.loc, tuple) else w, "in-place %s on a path with %s" % (e.d.get("how", "store"), [tm.show(f)[:80] for f in q.facts][:4]))
            bad += 1
            continue
        r = root(q.I, rt, q.st)
        b = base_param(r) if isinstance(r, T) else None
        if b and b[0] in shared:
            rep.refute("%s never writes into %s, which the constructor took from the caller" % (who, b[0]), "%s:%s %s" % e.loc, "in-place %s" % e.d.get("how", "store"))
            bad += 1
        g = q.st.heap[r.id].origin if isinstance(r, Ref) and r.id in q.st.heap else e.d.get("origin")
        if g in shared:
            rep.refute("%s never writes into %s, which the constructor took from the caller" % (who, g), "%s:%s %s" % e.loc, "in-place %s" % e.d.get("how", "store"))
            bad += 1
    return bad


def arg(n, kind, scal):
    if n in scal:
        return S(n, "num")
    return S(n, kind)


def shared_attrs(p, ci):
    """attributes that the constructor makes the very object the caller passed: {attr: param}"""
    fi = p.find_method(ci, "__init__")
    if fi is None:
        return {}
    I = Interp(p)
    out = {}
    ps = fi.params[1:]
    for q in construct(I, ci, {n: S(n, "unk") for n in ps}):
        if q.raised or not isinstance(q.v, Ref):
            continue
        for a, v in q.st.heap[q.v.id].attrs.items():
            o = owner(I, q.st, v, set(ps))
            if o is not None:
                out[a] = o
    return out


def rule_M07(p, rep, tier, seed):
    rep.rule = ("every in-place write on every interpreted path is resolved through views and aliases to the storage it changes; none belongs to a parameter or to an attribute the constructor "
                "took from the caller; data kept by surrogates and strategies after add_points and record callbacks does not belong to an argument")
    fns = [v for m in p.modules.values() for v in m.names.values() if isinstance(v, FuncInfo)]
    for fi in sorted(fns, key=lambda f: f.qual):
        if fi.name in ("nd_add", "round_vars"):
            continue  # these update their arguments on purpose; their callers are checked
        run(p, rep, fi, None, ())
    for ci in sorted(p.classes(), key=lambda c: c.qual):
        if p.is_abstract(ci) or p.is_sub(ci, "SurrogateBaseStrategy"):
            continue
        shared = {}
        with rep.guard("constructor of " + ci.name, ci.module.rel):
            shared = shared_attrs(p, ci)
        names = []
        for c in p.mro(ci):
            names += [k for k in c.methods if k not in names]
        for k in names:
            run(p, rep, p.find_method(ci, k), ci, {"self." + a for a in shared})
    keeps(p, rep)
    strategies(p, rep)


def run(p, rep, fi, ci, shared):
    w = loc(fi)
    who = (ci.name + "." if ci else "") + fi.name
    if fi.kind in ("classmethod",):
        return
    rep.unit(fi)
    for kind in ("arr2", "arr1"):
        with rep.guard("%s: writes resolved" % who, w):
            I = Interp(p)
            if ci is not None and fi.name == "__init__":
                ps = fi.params[1:]
                paths = construct(I, ci, {n: arg(n, kind if n not in OBJ else "unk", SCALARS) for n in ps})
            elif ci is not None:
                st = State()
                me = symobj(I, st, ci, "self")
                skip = 0 if fi.kind == "staticmethod" else 1
                ps = fi.params[skip:]
                paths = call(I, fi, ([me] if skip else []) + [arg(n, kind if n not in OBJ else "unk", SCALARS) for n in ps], st=st, recv=me)
            else:
                ps = fi.params
                paths = call(I, fi, [arg(n, kind if n not in OBJ else "unk", SCALARS) for n in ps])
            bad = 0
            for q in paths:
                bad += scan(rep, who, w, q, set(ps), shared)
            if not bad:
                rep.proven("%s writes into nothing it was given (%s)" % (who, kind), w, "%d paths" % len(paths))


OBJ = {"opt_prob", "surrogate", "function", "fun", "kernel", "tail", "gp", "model", "output_transformation", "controller", "record", "proposal", "exp_design", "self", "generator", "start", "xbest",
       "int_var", "lb", "ub", "subset", "bounds"}


def keeps(p, rep):
    """after add_points nothing the surrogate keeps is the caller's array"""
    for ci in sorted(p.subclasses("Surrogate"), key=lambda c: c.name):
        if p.is_abstract(ci):
            continue
        fi = p.find_method(ci, "add_points")
        if fi is None:
            raise AnalysisBroken("%s has no add_points" % ci.name)
        w = loc(fi)
        for kind in ("arr2", "arr1"):
            for fresh in (False, True):
                with rep.guard("%s keeps its own copies" % ci.name, w):
                    I = Interp(p)
                    st = State()
                    me = symobj(I, st, ci, "self")
                    if fresh:
                        # right after a reset
                        r = p.find_method(ci, "reset")
                        sts = [x.st for x in call(I, r, [me], st=st, recv=me) if not x.raised]
                    else:
                        sts = [st]
                    a = fi.params[1:]
                    for s in sts:
                        for q in call(I, fi, [me] + [S(n, kind) for n in a], st=s, recv=me):
                            if q.raised:
                                continue
                            for k, v in q.st.heap[me.id].attrs.items():
                                o = owner(I, q.st, v, set(a))
                                if o is not None:
                                    rep.refute("%s.%s is not the caller's array" % (ci.name, k), w, "after add_points it is %s itself, on the path %s" % (o, [tm.show(f)[:60] for f in q.facts]))
                            rep.proven("%s keeps its own copies" % ci.name, w)


DATA = ("X", "fX", "_X", "_fX", "Xpend", "batch_queue", "evals", "centers", "F_ranked")


def strategies(p, rep):
    for m in models(p):
        nm = m.ci.name
        rep.unit(m.ci.qual)
        for s in m.steps + m.answers + m.updates:
            with rep.guard("%s %s writes resolved" % (nm, s.what), swhere(s)):
                st, I = s.st, s.I
                given = {"x", "fx"}
                for e, rt in effects(s.path.events):
                    r = root(I, rt, st)
                    b = base_param(r) if isinstance(r, T) else None
                    if b and (b[0] in given or b[0].endswith((".opt_prob", ".surrogate", ".exp_design")) and b[1]):
                        rep.refute("%s never writes into %s" % (nm, ".".join((b[0],) + b[1])), "%s:%s %s" % e.loc, "in-place %s on the path %s" % (e.d.get("how"), pathdesc(s)))
                # what the strategy keeps
                for a, v in st.heap[s.me.id].attrs.items():
                    for o in kept(I, st, v, given):
                        rep.refute("%s.%s is not an array of the evaluation request" % (nm, a), swhere(s), "keeps %s itself on the path %s" % (o, pathdesc(s)))
                rep.proven("%s %s keeps its own copies" % (nm, s.what), swhere(s))
        constructor(p, rep, m)


def kept(I, st, v, given, depth=0):
    """names of given arrays that a kept value is, or holds as an element"""
    o = owner(I, st, v, given)
    if o is not None:
        yield o
    lc = I.as_list(v, st) if isinstance(v, (Ref, T)) else None
    if lc is not None and depth < 3:
        for seg in lc:
            if seg[0] == "item":
                yield from kept(I, st, seg[1], given, depth + 1)
    if isinstance(v, Ref) and st.heap[v.id].kind == "obj" and st.heap[v.id].origin == "fresh" and depth < 2:
        for a, x in (st.heap[v.id].attrs or {}).items():
            yield from kept(I, st, x, given, depth + 1)


def constructor(p, rep, m):
    nm = m.ci.name
    from .strat import constructors
    for c in constructors(m):
        with rep.guard("%s constructor keeps copies" % nm, swhere(c)):
            st, I = c.st, c.I
            for e, rt in effects(c.path.events):
                o = owner(I, st, rt, {"extra_points", "extra_vals", "weights", "opt_prob", "exp_design", "surrogate"})
                if o:
                    rep.refute("%s constructor never writes into %s" % (nm, o), "%s:%s %s" % e.loc, "in-place %s" % e.d.get("how"))
            for a in DATA:
                v = st.heap[c.me.id].attrs.get(a)
                if v is None:
                    continue
                for o in kept(I, st, v, {"extra_points", "extra_vals"}):
                    rep.refute("%s.%s is not an array of the user" % (nm, a), swhere(c), "the constructor keeps %s itself" % o)
            rep.proven("%s constructor keeps its own copies" % nm, swhere(c))
