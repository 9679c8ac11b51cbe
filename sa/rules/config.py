"""K01: invalid configurations are rejected; K02: every argument takes effect."""
import random
import numpy as np
from .common import *
from . import strat
from ..interp import NONE
from ..valuate import ObjV

PROB, DESIGN, SURR, GP = ("OptimizationProblem", "object"), ("ExperimentalDesign", "object"), ("Surrogate", "RBFInterpolant", "object"), ("Surrogate", "GPRegressor", "object")


# ------------------------------------------------------------------ K01: problems
def good_problem(r, d=None):
    d = d or r.choice([1, 2, 3, 4])
    lb = np.array([float(r.randint(-4, 1)) for _ in range(d)])
    ub = lb + np.array([float(r.randint(1, 5)) for _ in range(d)])
    iv = sorted(r.sample(range(d), r.randint(0, d)))
    cv = [i for i in range(d) if i not in iv]
    return dict(dim=d, lb=lb, ub=ub, int_var=np.array(iv, int), cont_var=np.array(cv, int), kinds=PROB)


def split(r, d, nint):
    iv = sorted(r.sample(range(d), nint))
    return iv, [i for i in range(d) if i not in iv]


def ints(v):
    return np.array(v, dtype=int)


def problems(r):
    """(label, valid, problem) with one defect each"""
    out = []

    def bad(label, d=None, **kw):
        pr = good_problem(r, d)
        pr.update(kw)
        out.append((label, False, pr))
    for _ in range(3):
        out.append(("a valid problem", True, good_problem(r)))
    for nint in (0, 3):
        iv, cv = split(r, 3, nint)
        pr = good_problem(r, 3)
        pr.update(int_var=ints(iv), cont_var=ints(cv))
        out.append(("a valid problem with %s variables only" % ("integer" if nint else "continuous"), True, pr))
    bad("an object that is no optimization problem", kinds=("object",))
    for v in (0, -2, 2.0, None):
        d = 2
        pr = good_problem(r, d)
        if v == 0:
            pr = dict(dim=0, lb=np.array([]), ub=np.array([]), int_var=ints([]), cont_var=ints([]), kinds=PROB)
        else:
            pr["dim"] = v
        out.append(("dimension %r" % (v,), False, pr))
    for k in ("lb", "ub"):
        pr = good_problem(r)
        pr[k] = list(pr[k])
        out.append(("%s given as a list" % k, False, pr))
        for lab, f in (("too short", lambda x: x[:-1]), ("too long", lambda x: np.append(x, x[-1]))):
            pr = good_problem(r, r.choice([2, 3]))
            pr[k] = f(pr[k])
            out.append(("%s %s" % (k, lab), False, pr))
    pr = good_problem(r, 2)
    pr["lb"], pr["ub"] = pr["lb"][:1], pr["ub"][:1]
    out.append(("both bounds too short", False, pr))
    pr = good_problem(r, 2)
    pr["lb"], pr["ub"] = np.append(pr["lb"], -1.0), np.append(pr["ub"], 1.0)
    out.append(("both bounds too long", False, pr))
    for lab, f in (("equal bounds", lambda l, u: (l, l)), ("crossed bounds", lambda l, u: (u, l))):
        for i in (0, -1):
            pr = good_problem(r, 3)
            pr["lb"][i], pr["ub"][i] = f(pr["lb"][i], pr["ub"][i])
            out.append(("%s in the %s coordinate" % (lab, "last" if i else "first"), False, pr))
    d = 4
    for k, o in (("int_var", "cont_var"), ("cont_var", "int_var")):
        nint = 2
        iv, cv = split(r, d, nint)
        base = good_problem(r, d)
        base.update({"int_var": ints(iv), "cont_var": ints(cv)})

        def put(label, **kw):
            pr = dict(base, **kw)
            out.append((label, False, pr))
        put("%s given as a list" % k, **{k: [int(x) for x in base[k]]})
        for v, lab in ((d, "an index equal to the dimension"), (-1, "a negative index")):
            for pos in (0, 1):
                a = base[k].copy()
                a[pos] = v
                put("%s with %s" % (k, lab), **{k: a})
        put("a variable in neither index set", **{k: base[k][:1]})
        put("a variable in both index sets", **{k: ints(list(base[k]) + [int(base[o][0])])})
        put("a variable in both index sets and one in neither", **{k: ints([int(base[k][0]), int(base[o][0])])})
        put("an index repeated in %s" % k, **{k: ints(list(base[k]) + [int(base[k][0])])})
        put("an index repeated in %s and a variable in neither set" % k, **{k: ints([int(base[k][0])] * 2)})
    return out


def set_problem(V, name, pr):
    for k, v in pr.items():
        if k != "kinds":
            V.hints["%s.%s" % (name, k)] = v
    V.hints[name] = ObjV(name, kinds=pr["kinds"])


def decide(V, qs, finished):
    """'raise' / 'accept' of a constructor or check at a valuation; raises Unknown"""
    r, q = value_at(V, qs, result=lambda V, q: None)
    if r is RAISE:
        return "raise"
    return finished(V, q)


def no_more(V, q):
    return "accept"


def alive(V, q):
    """the constructor ran to its end: everything it stored has a value"""
    o = q.st.heap[q.v.id]
    for a, v in o.attrs.items():
        try:
            V.ev(q.I.term(v, q.st))
        except Bad as e:
            raise Unknown("%s has no value: %s" % (a, e))
        except Unknown:
            pass
    return "accept"


class Stat(dict):
    def add(self, key, where, ok, got, show):
        st = self.setdefault(key, [where, 0, 0, None])
        if got is None:
            st[2] += 1
        else:
            st[1] += 1
            if got != ok:
                st[3] = st[3] or show

    def report(self, rep, what):
        for (who, label, valid), (where, n, unk, bad) in self.items():
            key = "%s %s %s" % (who, "accepts" if valid else "rejects", label)
            if bad:
                rep.refute(key, where, bad)
            elif n:
                rep.proven(key, where, "%d valuations%s" % (n, ", %d undetermined" % unk if unk else ""))
            else:
                rep.unknown(key, where, "undetermined")


def rule_K01(p, rep, tier, seed):
    rep.rule = ("valuations of the guards of every raising path of the problem check and of the strategies' constructors: invalid configurations satisfy a raising path, valid ones satisfy none; "
                "the configurations change one thing at a time, at the boundary of what is allowed")
    n = 6 if tier == "quick" else 18
    stat = Stat()
    # ---- the problem check
    fi = p.func("check_opt_prob")
    rep.unit(fi)
    I = Interp(p)
    qs = call(I, fi, [S("prob", "obj")], {})
    for k in range(n):
        r = random.Random(seed * 100 + k)
        for label, ok, pr in problems(r):
            V = Valuation(seed * 1000 + k, dim=max(1, len(pr["lb"])))
            set_problem(V, "prob", pr)
            try:
                got = decide(V, qs, no_more)
            except (Unknown, Bad) as e:
                got = None
            stat.add(("check_opt_prob", label, ok), loc(fi), "accept" if ok else "raise", got,
                     "%s is %s: %s" % (label, "refused" if ok else "accepted", show_problem(pr)))
    # ---- strategies
    for m in strat.models(p):
        strategy_configs(p, rep, m, stat, n, seed)
    random_configs(p, rep, stat, n, seed)
    stat.report(rep, "")


def show_problem(pr):
    return ", ".join("%s=%s" % (k, sv(v)) for k, v in pr.items() if k != "kinds")


def configurations(m, r):
    """(label, valid, arguments) of a strategy"""
    gp = m.ci.name in ("EIStrategy", "LCBStrategy")
    params = set(m.p.find_method(m.ci, "__init__").params)

    def base(**kw):
        c = dict(max_evals=r.randint(20, 60), num_pts=r.randint(5, 10), asynchronous=True, batch_size=None, problem=good_problem(r, r.choice([2, 3, 4])),
                 problem_kinds=PROB, design_kinds=DESIGN, surrogate_kinds=GP if gp else SURR, ncenters=r.randint(4, 8), weights=None, num_cand=None)
        if not set(kw) & {"asynchronous", "batch_size"} and r.random() < .5:
            kw = dict(kw, asynchronous=False, batch_size=r.randint(1, 3))
        c.update(kw)
        return c
    yield "an asynchronous configuration", True, base(asynchronous=True)
    yield "a synchronous configuration", True, base(asynchronous=False, batch_size=r.randint(1, 4))
    yield "an asynchronous configuration with a batch size", True, base(batch_size=3)
    k = r.randint(5, 12)
    yield "a budget equal to the initial design", True, base(max_evals=k, num_pts=k)
    yield "a budget smaller than the initial design", False, base(max_evals=k - 1, num_pts=k)
    yield "a budget of zero", False, base(max_evals=0)
    yield "a negative budget", False, base(max_evals=-4)
    yield "a budget that is not an integer", False, base(max_evals=float(k) + 10, num_pts=k)
    yield "a fractional budget", False, base(max_evals=k + 10.5, num_pts=k)
    yield "synchronous mode without a batch size", False, base(asynchronous=False)
    yield "an object that is no optimization problem", False, base(problem_kinds=("object",))
    yield "an object that is no experimental design", False, base(design_kinds=("object",))
    yield "an object that is no surrogate", False, base(surrogate_kinds=("object",))
    pr = good_problem(r, 3)
    pr["lb"][1] = pr["ub"][1]
    yield "a problem with equal bounds", False, base(problem=pr)
    pr = good_problem(r, 3)
    pr["int_var"], pr["cont_var"] = ints([0]), ints([1])
    yield "a problem with an unclassified variable", False, base(problem=pr)
    if gp:
        yield "a surrogate that is no Gaussian process", False, base(surrogate_kinds=SURR)
    if "ncenters" in params:
        yield "fewer centers than four", False, base(ncenters=3)
        yield "a number of centers that is not an integer", False, base(ncenters=5.0)
        c = r.randint(4, 8)
        yield "four centers", True, base(ncenters=4)
        yield "a batch as large as the number of centers", True, base(ncenters=c, batch_size=c, asynchronous=False)
        yield "a batch larger than the number of centers", False, base(ncenters=c, batch_size=c + 1, asynchronous=False)
    if "weights" in params:
        for lab, ok, w in (("merit weights on the ends of [0,1]", True, [0.0, 0.5, 1.0]), ("an array of merit weights", True, np.array([0.2, 0.9])),
                           ("a negative merit weight", False, [0.5, -0.1]), ("a merit weight above one", False, [0.2, 1.1]), ("a first merit weight above one", False, [1.5, 0.3]),
                           ("an array with a negative merit weight", False, np.array([-0.2, 0.9]))):
            yield lab, ok, base(weights=w)


def valuation(conf, s):
    V = Valuation(s, dim=conf["problem"]["dim"])
    set_problem(V, "opt_prob", dict(conf["problem"], kinds=conf["problem_kinds"]))
    V.lb, V.ub, V.iv, V.cv = (conf["problem"][x] for x in ("lb", "ub", "int_var", "cont_var"))
    V.hints.update({"exp_design": ObjV("exp_design", kinds=conf["design_kinds"]), "exp_design.num_pts": conf["num_pts"], "exp_design.dim": V.dim,
                    "surrogate": ObjV("surrogate", kinds=conf["surrogate_kinds"]), "surrogate.dim": V.dim})
    for k in ("max_evals", "asynchronous", "batch_size", "ncenters", "weights", "num_cand"):
        v = conf[k]
        V.hints[k] = (lambda V, v=v: v) if v is None else v
    for k in ("extra_points", "extra_vals", "ei_tol", "dtol", "lcb_tol"):
        V.hints[k] = lambda V: None
    # arguments that no check may depend on
    V.hints.update({"use_restarts": s % 2 == 0, "kappa": (2.0, 0.0, 1.5)[s % 3]})
    if s % 3 != 1:
        for k, v in (("ei_tol", 0.01), ("dtol", 0.1), ("lcb_tol", 0.5)):
            V.hints[k] = v
    if s % 3 == 2:
        x, fx = V.points(2), np.array([[1.5], [np.nan]])
        V.hints["extra_points"], V.hints["extra_vals"] = (lambda V: x), (lambda V: fx)
        V.hints["num_cand"] = 7

    def uf(V, t, args):
        if t.op == "mcall" and t.args[1] == "generate_points":
            return V.points(conf["num_pts"])
        return None
    V.uf = uf
    return V


def strategy_configs(p, rep, m, stat, n, seed):
    init = p.find_method(m.ci, "__init__")
    rep.unit(init)
    kinds = {"asynchronous": "bool", "use_restarts": "bool", "kappa": "num", "opt_prob": "obj", "exp_design": "obj", "surrogate": "obj"}
    I = Interp(p, opaque=tuple(x for x in m.opaque if x != "check_opt_prob"))
    qs = construct(I, m.ci, {a: S(a, kinds.get(a, "unk")) for a in init.params[1:]})
    rep.unit(*I.visited)
    for k in range(n):
        r = random.Random(seed * 100 + k)
        for label, ok, conf in configurations(m, r):
            V = valuation(conf, seed * 1000 + k)
            try:
                got = decide(V, qs, alive)
            except (Unknown, Bad) as e:
                got = None
                stat.why = str(e)
            shown = {a: b for a, b in conf.items() if a != "problem"}
            stat.add((m.ci.name, label, ok), loc(init), "accept" if ok else "raise", got, "%s is %s: %s, %s" % (label, "refused" if ok else "accepted", sv(shown), show_problem(conf["problem"])))


def random_configs(p, rep, stat, n, seed):
    ci = p.cls("RandomStrategy")
    init = p.find_method(ci, "__init__")
    rep.unit(init)
    I = Interp(p, opaque=("rput", "put", "get", "empty", "propose_eval"))
    qs = construct(I, ci, dict(max_evals=S("max_evals"), opt_prob=S("opt_prob", "obj")))
    for k in range(n):
        r = random.Random(seed * 100 + k)
        pr2 = good_problem(r, 2)
        pr2["ub"][0] = pr2["lb"][0] - 1
        for label, ok, mx, pr, kinds in (("a positive budget", True, 1, good_problem(r), PROB), ("a budget of several", True, 7, good_problem(r), PROB), ("a budget of zero", False, 0, good_problem(r), PROB),
                                         ("a negative budget", False, -1, good_problem(r), PROB), ("a budget that is not an integer", False, 4.0, good_problem(r), PROB),
                                         ("an object that is no optimization problem", False, 3, good_problem(r), ("object",)), ("a problem with crossed bounds", False, 3, pr2, PROB)):
            V = Valuation(seed * 1000 + k, dim=pr["dim"])
            set_problem(V, "opt_prob", dict(pr, kinds=kinds))
            V.hints["max_evals"] = mx
            try:
                got = decide(V, qs, no_more)
            except (Unknown, Bad):
                got = None
            stat.add((ci.name, label, ok), loc(init), "accept" if ok else "raise", got, "%s is %s: max_evals=%r, %s" % (label, "refused" if ok else "accepted", mx, show_problem(pr)))


# ------------------------------------------------------------------ K02: constructors
STRATEGY_STATE = ("max_evals", "opt_prob", "exp_design", "surrogate", "asynchronous", "batch_size", "extra_points", "extra_vals", "use_restarts", "weights", "num_cand",
                  "ei_tol", "dtol", "kappa", "lcb_tol", "ncenters")
REGRESSOR = ("GaussianProcessRegressor", "sklearn.gaussian_process.GaussianProcessRegressor")


def zero(V, lo, hi):
    """a number, now and then zero, tiny or large"""
    return (0.0, round(V.rnd.uniform(lo, hi), 3), 1e-9, round(V.rnd.uniform(lo, hi), 3), 1e3 * hi)[V.seed % 5]


def cyc(*values, by=1):
    """one of the values, in turn"""
    return lambda V: values[V.seed // by % len(values)]


GIVEN = {  # values of the arguments when they are given
    "max_evals": cyc(47, 6, 1000, 53, 100000), "opt_prob": lambda V: ObjV("opt_prob", kinds=PROB), "exp_design": lambda V: ObjV("exp_design", kinds=DESIGN),
    "surrogate": lambda V: ObjV("surrogate", kinds=SURR + GP), "asynchronous": lambda V: V.seed % 2 == 0, "batch_size": lambda V: V.seed // 2 % 5 + 1,
    "extra_points": lambda V: V.points(2), "extra_vals": lambda V: np.array([[1.5], [np.nan]]), "use_restarts": lambda V: V.seed % 3 == 0,
    "weights": lambda V: [[0.15, round(V.rnd.uniform(.2, .9), 3)], [1.0], [.9, 0.0, .3, .9, 1.0]][V.seed % 3], "num_cand": cyc(7, 1241, 1, 250000), "ei_tol": lambda V: zero(V, .1, 1),
    "dtol": lambda V: zero(V, .1, 1), "kappa": lambda V: zero(V, 3, 5), "lcb_tol": lambda V: zero(V, .1, 1),
    "ncenters": cyc(5, 8, 64),
    "dim": lambda V: V.dim, "lb": lambda V: V.lb.copy(), "ub": lambda V: V.ub.copy(), "int_var": lambda V: V.iv.copy(), "output_transformation": lambda V: ObjV("transform"),
    "kernel": lambda V: ObjV("kernel", kinds=("Kernel", "object")), "tail": lambda V: ObjV("tail", kinds=("Tail", "object")), "eta": lambda V: zero(V, .1, 1),
    "gp": lambda V: ObjV("gp", kinds=REGRESSOR), "n_restarts_optimizer": cyc(3, 0, 1, 9, 200), "degree": cyc(3, 1, 5, 2, 12),
    "num_pts": cyc(6, 3, 14, 2, 500), "iterations": cyc(20, 1, 1500, 999, 100000), "criterion": lambda V: None,
    "function": lambda V: ObjV("function"), "pop_size": cyc(6, 7, 2, 13, 1001), "num_gen": cyc(4, 1, 0, 9, 2000), "start": lambda V: V.rnd.choice(["LHD", "Random"]),
    "controller": lambda V: ObjV("controller"), "fname": lambda V: "str:some.file",
}
BOOL = {"asynchronous": "bool", "use_restarts": "bool"}


def norm_dtol(V, a):
    return 1e-3 * np.linalg.norm(V.ub - V.lb)


def named(cls):
    def f(V, a):
        return lambda got: isinstance(got, ObjV) and got.name.startswith("new:") and str(getattr(got, "cls", "")).split(".")[-1] == cls
    return f


def ident(V, a):
    return lambda got: isinstance(got, ObjV) and got.name.startswith("fun:") and got.name.endswith("identity")


STRAT_DEFAULT = {"asynchronous": lambda V, a: True, "batch_size": lambda V, a: None, "extra_points": lambda V, a: None, "extra_vals": lambda V, a: None, "use_restarts": lambda V, a: True}
SURR_DEFAULT = {"output_transformation": ident}
# class -> {argument: (attribute, value when omitted, map of the given value)}
CONSTRUCTORS = {}
for _c, _extra in (("SRBFStrategy", {"weights": lambda V, a: [.3, .5, .8, .95], "num_cand": lambda V, a: 100 * V.dim}),
                   ("DYCORSStrategy", {"weights": lambda V, a: [.3, .5, .8, .95], "num_cand": lambda V, a: 100 * V.dim}),
                   ("EIStrategy", {"ei_tol": lambda V, a: None, "dtol": norm_dtol}), ("LCBStrategy", {"lcb_tol": lambda V, a: None, "dtol": norm_dtol, "kappa": lambda V, a: 2.0}),
                   ("SOPStrategy", {"ncenters": lambda V, a: 4, "num_cand": lambda V, a: 100 * V.dim})):
    CONSTRUCTORS[_c] = {a: (a, None) for a in ("max_evals", "opt_prob", "exp_design", "surrogate")}
    CONSTRUCTORS[_c].update({a: (a, d) for a, d in list(STRAT_DEFAULT.items()) + list(_extra.items())})
for _c, _extra in (("RBFInterpolant", {"kernel": named("CubicKernel"), "tail": named("LinearTail"), "eta": lambda V, a: 1e-6}), ("GPRegressor", {}), ("PolyRegressor", {}), ("MARSInterpolant", {})):
    CONSTRUCTORS[_c] = {a: (a, None) for a in ("dim", "lb", "ub")}
    CONSTRUCTORS[_c].update({a: (a, d) for a, d in list(SURR_DEFAULT.items()) + list(_extra.items())})
CONSTRUCTORS["RandomStrategy"] = {a: (a, None) for a in ("max_evals", "opt_prob")}
CONSTRUCTORS["LatinHypercube"] = CONSTRUCTORS["SymmetricLatinHypercube"] = {"dim": ("dim", None), "num_pts": ("num_pts", None), "iterations": ("iterations", lambda V, a: 1000)}
CONSTRUCTORS["TwoFactorial"] = {"dim": ("dim", None)}
CONSTRUCTORS["CheckpointController"] = {"controller": ("controller", None), "fname": ("fname", lambda V, a: "checkpoint.pysot")}
CONSTRUCTORS["GeneticAlgorithm"] = {"function": ("function", None), "dim": ("nvariables", None), "lb": ("lower_boundary", None), "ub": ("upper_boundary", None),
                                    "int_var": ("integer_variables", lambda V, a: []), "pop_size": ("nindividuals", lambda V, a: 100, lambda v: v + v % 2),
                                    "num_gen": ("ngenerations", lambda V, a: 100), "start": ("start", lambda V, a: "SLHD")}
CONSTRUCTORS["GPRegressor"]["gp"] = ("model", "any")
# library constructors an argument is handed to: class -> argument: (attribute, library class, position, keyword, value when omitted)
LIBRARY = {"GPRegressor": {"n_restarts_optimizer": ("GaussianProcessRegressor", None, "n_restarts_optimizer", 5)},
           "PolyRegressor": {"degree": ("PolynomialFeatures", 0, "degree", 2)}}
NONE_OK = {"extra_points", "extra_vals"}


def arg_values(names, s):
    V = Valuation(s, dim=2 + s % 2)
    pr = good_problem(random.Random(s), V.dim)
    set_problem(V, "opt_prob", pr)
    V.lb, V.ub, V.iv, V.cv = pr["lb"], pr["ub"], pr["int_var"], pr["cont_var"]
    vals = {}
    for n in names:
        if n in GIVEN:
            vals[n] = GIVEN[n](V)
            V.hints[n] = (lambda V, v=vals[n]: v)
    V.hints.update({"exp_design.num_pts": 6, "exp_design.dim": V.dim, "surrogate.dim": V.dim, "kernel.order": 2, "tail.degree": 1, "tail.dim": V.dim, "tail.dim_tail": V.dim + 1})

    def uf(V, t, args):
        if t.op == "mcall" and t.args[1] == "generate_points":
            return V.points(6)
        return None
    V.uf = uf
    return V, vals


def same_val(a, b):
    if callable(b):
        return b(a)
    if a is None or b is None:
        return a is b
    if isinstance(b, (list, tuple)) and len(b) == 0 or isinstance(b, np.ndarray) and b.size == 0:
        return np.size(a) == 0
    if isinstance(a, str) or isinstance(b, str):
        strip = lambda x: x[4:] if isinstance(x, str) and x.startswith("str:") else x
        return strip(a) == strip(b)
    if isinstance(a, ObjV) or isinstance(b, ObjV):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == bool(b)
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def libcalls(t, name, out=None):
    """calls of a library class inside a term"""
    out = [] if out is None else out
    if isinstance(t, tuple):
        for x in t:
            libcalls(x, name, out)
    elif isinstance(t, T):
        if str(t.op).startswith("lib_") and str(t.op).split(".")[-1] == name:
            out.append(t)
        for x in t.args:
            libcalls(x, name, out)
    return out


def new_object(q, v):
    """an object of the package the constructor made"""
    if isinstance(v, Ref):
        o = q.st.heap.get(v.id)
        if o is not None and o.kind == "obj" and hasattr(o.cls, "name"):
            n = ObjV("new:%s" % o.cls.name)
            n.cls = o.cls.name
            return n
    return None


def constructor_args(p, rep, cname, n, seed):
    try:
        ci = p.cls(cname)
    except AnalysisBroken:
        raise
    init = p.find_method(ci, "__init__")
    rep.unit(init)
    spec = CONSTRUCTORS[cname]
    params = [a for a in init.params[1:]]
    optional = [a for a in spec if spec[a][1] is not None] + [a for a in LIBRARY.get(cname, {})]
    for a in list(spec) + list(LIBRARY.get(cname, {})):
        if a not in params and a not in [x for x in init.all_names()]:
            rep.refute("%s takes %s" % (cname, a), loc(init), "the constructor has no argument %s" % a)
            return
    opaque = ("rput", "put", "get", "empty", "propose_eval", "check_opt_prob") if cname == "RandomStrategy" else ("round_vars", "check_opt_prob")
    stat = {}
    for omit in [()] + [(a,) for a in optional] + ([("gp", "n_restarts_optimizer")] if cname == "GPRegressor" else []) + ([tuple(optional)] if len(optional) > 1 else []):
        if "extra_points" in omit and "extra_vals" not in omit:
            omit = omit + ("extra_vals",)
        I = Interp(p, opaque=opaque)
        given = [a for a in params if a not in omit]
        kw = {a: S(a, BOOL.get(a, "int" if a in ("dim", "num_pts", "pop_size", "num_gen", "degree", "iterations", "n_restarts_optimizer", "max_evals") else "unk")) for a in given}
        qs = [q for q in construct(I, ci, kw)]
        rep.unit(*I.visited)
        for k in range(n):
            V, vals = arg_values(given, seed * 1000 + k)
            if "batch_size" in omit and "asynchronous" in vals:
                vals["asynchronous"] = True
                V.hints["asynchronous"] = True
            if cname in ("LCBStrategy", "EIStrategy") and "surrogate" in vals:
                vals["surrogate"] = ObjV("surrogate", kinds=GP)
                V.hints["surrogate"] = vals["surrogate"]
            try:
                r, q = value_at(V, qs, result=lambda V, q: None)
            except (Bad, Unknown) as e:
                stat.setdefault(("?", omit), [0, None, ""])[2] = str(e)
                continue
            if r is RAISE:
                continue
            o = q.st.heap[q.v.id]
            for a, row in spec.items():
                at, default = row[0], row[1]
                if default == "any" and a in omit:
                    continue
                key = ("%s %s" % (cname, "applies its default for %s" % a if a in omit else "keeps its argument %s" % a), None)
                st = stat.setdefault(key, [0, None, ""])
                if at not in o.attrs:
                    st[2] = "no attribute %s" % at
                    continue
                want = default(V, vals) if a in omit else (row[2](vals[a]) if len(row) > 2 else vals[a])
                try:
                    got = new_object(q, o.attrs[at]) or V.ev(q.I.term(o.attrs[at], q.st))
                except (Bad, Unknown) as e:
                    t = q.I.term(o.attrs[at], q.st)
                    if a not in omit and str(t.op).startswith("lib_") and isinstance(vals[a], ObjV):
                        st[1] = st[1] or "%s is a new %s when %s is given" % (at, str(t.op)[4:], a)
                    st[2] = "%s: %s" % (at, e)
                    continue
                st[0] += 1
                if not same_val(got, want):
                    st[1] = st[1] or "%s is %s when %s is %s%s" % (at, sv(got), a, "omitted" if a in omit else "given as " + sv(vals[a]), "; specified " + sv(want) if not callable(want) else "")
            for a, (lib, pos, kwd, default) in LIBRARY.get(cname, {}).items():
                if a == "n_restarts_optimizer" and "gp" in given:
                    continue
                key = ("%s %s" % (cname, "applies its default for %s" % a if a in omit else "hands %s to %s" % (a, lib)), None)
                st = stat.setdefault(key, [0, None, ""])
                cs = [c for v in o.attrs.values() for c in libcalls(q.I.term(v, q.st), lib)]
                if len(set(cs)) != 1:
                    st[2] = "no call of %s" % lib
                    continue
                c = cs[0]
                t = dict(c.args[1]).get(kwd) if len(c.args) > 1 else None
                if t is None and pos is not None and len(c.args[0]) > pos:
                    t = c.args[0][pos]
                if t is None:
                    got = {"degree": 2, "n_restarts_optimizer": 0}[kwd]
                else:
                    try:
                        got = V.ev(t)
                    except (Bad, Unknown) as e:
                        st[2] = str(e)
                        continue
                st[0] += 1
                want = default if a in omit else vals[a]
                if not same_val(got, want):
                    st[1] = st[1] or "%s gets %s = %s when %s is %s" % (lib, kwd, sv(got), a, "omitted" if a in omit else "given as " + sv(vals[a]))
    for (key, _), (got, bad, why) in stat.items():
        if key == "?":
            if not got and not any(v[0] for v in stat.values()):
                rep.unknown("%s constructor" % cname, loc(init), why)
            continue
        if bad:
            rep.refute(key, loc(init), bad)
        elif got:
            rep.proven(key, loc(init), "%d valuations" % got)
        else:
            rep.unknown(key, loc(init), why)


def rule_K02(p, rep, tier, seed):
    rep.rule = ("constructors compared, argument by argument, with the attribute each argument sets and the documented default; configuration attributes unchanged by every transition; "
                "arguments of every search call of every strategy compared with the configuration; every argument of the public functions occurs in their summary")
    n = 10 if tier == "quick" else 30
    for cname in CONSTRUCTORS:
        constructor_args(p, rep, cname, n, seed)
    for m in strat.models(p):
        frozen_config(rep, m)
        search_config(p, rep, m, seed)
    used_arguments(p, rep)
    defaults(p, rep)


def frozen_config(rep, m):
    rep.unit(*m.I.visited)
    init = m.p.find_method(m.ci, "__init__")
    for a in STRATEGY_STATE:
        if a not in init.params or not strat.has(m, a):
            continue
        key = "%s never changes %s" % (m.ci.name, a)
        n = 0
        for s in m.steps + m.answers + m.updates + strat.resume_steps(m):
            if s.result in ("raise", "other"):
                continue
            n += 1
            got, want = s.value(a), s.before(a)
            if got is want or (isinstance(got, T) and got is want):
                continue
            t = s.after(a)
            if t is want:
                continue
            try:
                diff = compare(t, want)[0]
            except Exception:
                diff = None
            if t.op in ("num", "const", "none") or diff == DIFFERENT:
                rep.refute(key, strat.where(s), "%s becomes %s" % (a, tm.show(t)[:120]))
            else:
                rep.unknown(key, strat.where(s), tm.show(t)[:120])
            break
        else:
            rep.proven(key, loc(init), "%d transitions" % n)


# argument of a search -> (attributes read, reference)
def eps_default(attr):
    def f(V, s):
        tol = V.ev(s.before(attr))
        if tol is None:
            fx = V.ev(s.before("fX"))
            return 1e-6 * (np.max(fx) - np.min(fx))
        return tol
    return f


def target(V, s):
    return np.min(V.ev(s.before("fX"))) - eps_default("lcb_tol")(V, s)


CONFIG = {"opt_prob": None, "surrogate": None, "num_cand": None, "kappa": None, "ei_tol": eps_default("ei_tol"), "lcb_target": target, "sampling_radius": None}
NEEDS = {"lcb_target": "lcb_tol"}


def search_config(p, rep, m, seed):
    init = m.p.find_method(m.ci, "__init__")
    done = set()
    for s in m.steps:
        for e, depth in strat.search_calls(s):
            if e.name not in ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga"):
                continue
            callee = p.func(e.name)
            for a, ref in CONFIG.items():
                attr = NEEDS.get(a, a)
                if a not in callee.params or not strat.has(m, attr) or (a == "sampling_radius" and m.ci.name == "SOPStrategy"):
                    continue
                key = "%s searches with its %s" % (m.ci.name, attr)
                got = strat.arg(s.I, s.st, e, None, a)
                if got is None:
                    rep.refute(key, strat.where(s), "%s is called without %s" % (e.name, a))
                    continue
                befo = s.before(attr)
                if ref is None and (got is befo or got is s.after(attr)):
                    if (key, 1) not in done:
                        done.add((key, 1))
                        rep.proven(key, strat.where(s), tm.show(got)[:100])
                    continue
                if (key, got) in done:
                    continue
                done.add((key, got))

                def mkval(k, attr=attr):
                    V = Valuation(k)
                    b = V.size("X", 2, 4)
                    V.hints.update({"X": V.points(b), "fX": V.np.uniform(-2, 2, (b, 1)), "_X": V.points(2), "_fX": V.np.uniform(-2, 2, (2, 1)), "num_cand": V.rnd.randint(5, 50),
                                    "kappa": round(V.rnd.uniform(.5, 4), 3), "dtol": round(V.rnd.uniform(.01, 1), 3), "sampling_radius": round(V.rnd.uniform(.01, .2), 4), "num_evals": b,
                                    "opt_prob": ObjV("opt_prob"), "surrogate": ObjV("surrogate")})
                    pts = V.points(6)
                    V.uf = lambda V, t, args: ("<None>", pts)[V.seed // 2 % 2] if t.op == "pcall" else None
                    for x in ("ei_tol", "lcb_tol"):
                        v = V.rnd.choice([round(V.rnd.uniform(.01, 1), 3), 0.0, None])
                        V.hints[x] = lambda V, v=v: v
                    return V
                if isinstance(got, T) and got.op in ("num", "const"):
                    rep.refute(key, strat.where(s), "%s gets the constant %s for %s" % (e.name, tm.show(got), a))
                    continue
                strat.state_cmp(rep, key, s, got, (lambda V, ref=ref, s=s: ref(V, s)) if ref else (lambda V, befo=befo: V.ev(befo)), mkval, [befo], n=12, seed=seed, eqf=same_val)


FUNCTIONS = ("to_unit_box", "from_unit_box", "unit_rescale", "round_vars", "nd_add", "nd_front", "nd_sorting", "check_radius_rule", "domination", "candidate_dycors", "candidate_srbf", "candidate_uniform",
             "weighted_distance_merit", "ei_merit", "lcb_merit", "median_capping")


UNUSED = {("weighted_distance_merit", "fX"), ("lcb_merit", "fX")}  # accepted for the common signature only


def reads(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, (tuple, list)):
        for x in t:
            reads(x, out, seen)
    elif isinstance(t, T):
        if id(t) in seen:
            return out
        seen.add(id(t))
        if t.op == "sym":
            out.add(str(t.args[0]))
        for x in t.args:
            reads(x, out, seen)
    return out


def event_terms(I, st, e):
    for v in e.d.values():
        for x in (v if isinstance(v, (tuple, list)) else (v,)):
            for y in (x if isinstance(x, (tuple, list)) else (x,)):
                if isinstance(y, T):
                    yield y
                else:
                    try:
                        yield I.term(y, st)
                    except Exception:
                        pass


def used_arguments(p, rep):
    """every argument of a public function occurs in its summary"""
    for name in FUNCTIONS:
        fi, qs, a, I = summary(p, name)
        rep.unit(fi)
        out, full = set(), True
        for q in qs:
            reads(list(q.facts), out)
            if q.v is not None and not q.raised:
                try:
                    reads(q.term(), out)
                except Exception:
                    full = False
            for e in walk(q.events):
                for t in event_terms(q.I, q.st, e):
                    reads(t, out)
        # loops carry what their transitions read
        for l in I.loops.values():
            for x in vars(l).values():
                try:
                    reads(x if isinstance(x, (T, tuple, list)) else list(x.values()) if isinstance(x, dict) else (), out)
                except Exception:
                    full = False
        for n in fi.params:
            if (name, n) in UNUSED:
                continue
            ok = n in out
            rep.check("%s uses its argument %s" % (name, n), loc(fi), True if ok else (False if full and not nested_use(fi, n) else None), "the result, the effects and the path conditions do not depend on %s" % n)


def nested_use(fi, n):
    import ast
    return any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(fi.node) if not isinstance(x, ast.arg))


DEFAULTS = {"candidate_dycors": {"Xpend": None, "sampling_radius": 0.2, "subset": None, "dtol": 1e-3, "num_cand": None, "xbest": None},
            "candidate_srbf": {"Xpend": None, "sampling_radius": 0.2, "subset": None, "dtol": 1e-3, "num_cand": None},
            "candidate_uniform": {"Xpend": None, "subset": None, "dtol": 1e-3, "num_cand": None},
            "weighted_distance_merit": {"Xpend": None, "dtol": 1e-3}, "ei_ga": {"Xpend": None, "dtol": 1e-3, "ei_tol": 1e-6},
            "lcb_ga": {"Xpend": None, "kappa": 2.0, "dtol": 1e-3, "lcb_target": None}, "ei_merit": {"XX": None, "dtol": 0}, "lcb_merit": {"XX": None, "dtol": 0, "kappa": 2.0},
            "check_radius_rule": {"d_thresh": 1.0}}


def defaults(p, rep):
    """the default values of the public functions' signatures"""
    import ast
    for name, spec in DEFAULTS.items():
        fi = p.func(name)
        ar = fi.node.args
        pos = ar.posonlyargs + ar.args
        have = dict(zip([x.arg for x in pos][len(pos) - len(ar.defaults):], ar.defaults))
        have.update({x.arg: d for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None})
        for a, want in spec.items():
            key = "%s default of %s" % (name, a)
            if a not in have:
                rep.refute(key, loc(fi), "%s is not optional" % a)
                continue
            try:
                I = Interp(p)
                got = eval_default(have[a])
            except ValueError:
                rep.unknown(key, loc(fi), "default is %s" % ast.unparse(have[a]))
                continue
            if got is None or want is None:
                rep.check(key, loc(fi), got is want if got is None else None, "default is %r, documented %r" % (got, want))
            else:
                rep.check(key, loc(fi), same_val(got, want), "default is %r, documented %r" % (got, want))


def eval_default(node):
    import ast
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -eval_default(node.operand)
    if isinstance(node, ast.BinOp):
        l, r = eval_default(node.left), eval_default(node.right)
        if isinstance(node.op, ast.Mult):
            return l * r
        if isinstance(node.op, ast.Div):
            return l / r
        if isinstance(node.op, ast.Pow):
            return l ** r
        if isinstance(node.op, ast.Add):
            return l + r
        if isinstance(node.op, ast.Sub):
            return l - r
    if isinstance(node, ast.Constant):
        return node.value
    raise ValueError
