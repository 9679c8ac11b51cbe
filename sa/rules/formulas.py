"""U01, A01, M06, U03: functions whose specification is a formula."""
import numpy as np
from .common import *
from .strat import flatten
from ..valuate import ObjV
from scipy.spatial.distance import cdist
from scipy.stats import norm

BOX = {"lb": "arr1", "ub": "arr1", "int_var": "arr1"}


def V_of(t):
    return lambda V: V.ev(t)


def arr_hint(shape_fn, lo=-3.0, hi=3.0):
    return lambda V: np.round(V.np.uniform(lo, hi, shape_fn(V)), 4)


def mk_val(**hints):
    def f(s):
        V = Valuation(s, hints=dict(hints))
        return V
    return f


def rescale(v):
    mx, mn = np.max(v), np.min(v)
    return np.ones(v.shape) if mx == mn else (v - mn) / (mx - mn)


def spread(V, n):
    # up to 1.2 beyond the bounds
    far = np.minimum(1.2, V.ub - V.lb)
    return V.lb - far + np.round(V.np.uniform(0, 1, (n, V.dim)), 4) * (V.ub - V.lb + 2 * far)


def rule_U01(p, rep, tier, seed):
    rep.rule = "normal forms of the box maps, rounding and rescaling equal their definitions; composition of the maps is the identity"
    n = 24 if tier == "quick" else 120
    two = mk_val(x=lambda V: spread(V, V.size("x", 1, 4)))
    one = mk_val(x=lambda V: spread(V, 1)[0])
    forms = {}
    for name, spec in (("to_unit_box", lambda x, V: (x - V.lb) / (V.ub - V.lb)), ("from_unit_box", lambda x, V: V.lb + (V.ub - V.lb) * x)):
        for kind, mkv in (("arr2", two), ("arr1", one)):
            fi, qs, a, I = summary(p, name, dict(BOX, x=kind))
            rep.unit(fi)
            X = a[fi.params[0]]
            mk1 = mkv if fi.params[0] == "x" else mk_val(**{fi.params[0]: mkv(0).hints["x"]})
            with rep.guard("%s formula (%s)" % (name, kind), loc(fi)):
                piecewise(rep, "%s formula (%s)" % (name, kind), loc(fi), qs, lambda V, spec=spec, X=X: spec(V.ev(X), V), mk1, n, seed)
            forms[name, kind] = (fi, qs, a)
    # inverse: substitute one normal form into the other
    for kind in ("arr2", "arr1"):
        f1, q1, a1 = forms["to_unit_box", kind]
        f2, q2, a2 = forms["from_unit_box", kind]
        if len(q1) == 1 and len(q2) == 1 and q1[0].v is not None and q2[0].v is not None:
            comp = tm.subst(q2[0].term(), {a2[f2.params[0]]: q1[0].term()})
            x = a1[f1.params[0]]
            got, why = compare(comp, x, n=n, seed=seed, mkval=two if kind == "arr2" else one)
            rep.add("round trip (%s)" % kind, loc(f1), {"equal": "proven", "different": "refuted"}.get(got, "unknown"),
                    "from_unit_box(to_unit_box(x)) = %s" % tm.show(comp))
    # ---- rounding
    fi, qs, a, I = summary(p, "round_vars", dict(BOX, x="arr2"))
    rep.unit(fi)

    def rv(V):
        x = V.ev(a[fi.params[0]]).copy()
        for i in V.iv:
            x[:, i] = np.clip(np.rint(x[:, i]), np.ceil(V.lb[i]), np.floor(V.ub[i]))
        return x
    with rep.guard("round_vars", loc(fi)):
        piecewise(rep, "round_vars", loc(fi), qs, rv, two, n * 2, seed)
    # ---- rescaling
    fi, qs, a, I = summary(p, "unit_rescale", {"x": "arr1"})
    rep.unit(fi)
    X = a[fi.params[0]]

    def gen(V):
        k = 1 + V.rnd.randrange(5)
        v = np.round(V.np.uniform(-3, 3, k), 3)
        if V.rnd.random() < .2:
            return v * 10.0 ** -V.rnd.choice([5, 9, 13])  # nearly, but not exactly, constant
        return np.full(k, v[0]) if V.rnd.random() < .25 else v
    with rep.guard("unit_rescale", loc(fi)):
        piecewise(rep, "unit_rescale", loc(fi), qs, lambda V: rescale(V.ev(X)), mk_val(**{fi.params[0]: gen}), n, seed)
    fi, qs, a, I = summary(p, "unit_rescale", {"x": "arr2"})
    X2 = a[fi.params[0]]

    def gen2(V):
        v = gen(V)
        return v.reshape(-1, 1)
    with rep.guard("unit_rescale (matrix)", loc(fi)):
        piecewise(rep, "unit_rescale (matrix)", loc(fi), qs, lambda V: rescale(V.ev(X2)), mk_val(**{fi.params[0]: gen2}), n, seed)


# ------------------------------------------------------------------ M06
def rule_M06(p, rep, tier, seed):
    rep.rule = "kernel/tail normal forms equal the documented formulas; deriv is the derivative of eval; order, degree and dim_tail match; wrong dimension raises"
    eps = np.finfo(float).eps
    n = 20 if tier == "quick" else 100
    specs = {
        "CubicKernel": (lambda r: r ** 3, lambda r: 3 * r ** 2, 2),
        "LinearKernel": (lambda r: r + 0.0, lambda r: np.ones(r.shape), 1),
        "TPSKernel": (lambda r: np.maximum(r, eps) ** 2 * np.log(np.maximum(r, eps)), lambda r: np.maximum(r, eps) * (1 + 2 * np.log(np.maximum(r, eps))), 2),
    }
    for ci in sorted(p.subclasses("Kernel"), key=lambda c: c.name):
        if p.is_abstract(ci):
            continue
        if ci.name not in specs:
            rep.unknown("kernel " + ci.name, ci.qual, "no documented formula known")
            continue
        ev_, dv_, order = specs[ci.name]
        I = Interp(p)
        for q in construct(I, ci, {}):
            if q.v is None or q.raised:
                rep.refute("kernel %s construct" % ci.name, ci.qual, "constructor raises")
                continue
            for m, spec in (("eval", ev_), ("deriv", dv_)):
                fi = p.find_method(ci, m)
                rep.unit(fi)
                d = S("dists", "arr2")

                def gen(V):
                    r = np.round(V.np.uniform(0.05, 4, (V.size("r", 1, 3), V.size("c", 1, 3))), 4)
                    if V.seed % 3 == 0:
                        r[0, 0] = 0.0
                    return r
                with rep.guard("kernel %s.%s" % (ci.name, m), loc(fi)):
                    qs = call(I, fi, [q.v, d], st=q.st, recv=q.v)
                    piecewise(rep, "kernel %s.%s" % (ci.name, m), loc(fi), qs, lambda V, spec=spec: spec(V.ev(d)), mk_val(dists=gen), n, seed,
                              eq=lambda a, b: same(a, b, 1e-7) or (np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), b, rtol=1e-7, atol=1e-12)))
            o = q.st.heap[q.v.id].attrs.get("order")
            ok, val = tm.py_const(I.term(o, q.st)) if o is not None else (False, None)
            rep.check("kernel %s.order" % ci.name, ci.qual, val == order if ok else None, "order is %s, conditionally positive definite of order %d" % (val, order))
    tails = {"ConstantTail": 0, "LinearTail": 1}
    for ci in sorted(p.subclasses("Tail"), key=lambda c: c.name):
        if p.is_abstract(ci):
            continue
        if ci.name not in tails:
            rep.unknown("tail " + ci.name, ci.qual, "no documented basis known")
            continue
        deg = tails[ci.name]
        I = Interp(p)
        dim = S("dim", "int")
        for q in construct(I, ci, {"dim": dim}):
            if q.v is None or q.raised:
                continue
            at = q.st.heap[q.v.id].attrs
            for a, spec in (("degree", lambda V: deg), ("dim", lambda V: V.dim), ("dim_tail", lambda V: 1 if deg == 0 else 1 + V.dim)):
                v = at.get(a)
                if v is None:
                    rep.refute("tail %s.%s" % (ci.name, a), ci.qual, "never set")
                    continue
                t = I.term(v, q.st)
                with rep.guard("tail %s.%s" % (ci.name, a), ci.qual):
                    bad = None
                    for s in range(12):
                        V = Valuation(s)
                        if not same(V.ev(t), spec(V)):
                            bad = "%s = %s for dim = %d" % (a, V.ev(t), V.dim)
                    rep.check("tail %s.%s" % (ci.name, a), ci.qual, bad is None, bad or "")
            for kind in ("arr2", "arr1"):
                for m in ("eval", "deriv"):
                    fi = p.find_method(ci, m)
                    rep.unit(fi)
                    X = S("x0", kind)

                    def gen(V, m=m, kind=kind):
                        w = V.dim + V.seed % 3
                        if V.seed % 3 == 2 and V.dim > 1:
                            w = V.dim - 1
                        rows = 1 if m == "deriv" or kind == "arr1" else V.size("rows", 1, 3)
                        r = np.round(V.np.uniform(-2, 2, (rows, w)), 4)
                        return r if kind == "arr2" else r[0]

                    def spec(V, m=m):
                        x = np.atleast_2d(V.ev(X))
                        if x.shape[1] != V.dim:
                            return RAISE
                        if m == "eval":
                            return np.ones((len(x), 1)) if deg == 0 else np.hstack((np.ones((len(x), 1)), x))
                        z = np.zeros((V.dim, 1))
                        return z if deg == 0 else np.hstack((z, np.eye(V.dim)))
                    key = "tail %s.%s (%s)" % (ci.name, m, kind)
                    with rep.guard(key, loc(fi)):
                        qs = call(I, fi, [q.v, X], st=q.st, recv=q.v)
                        piecewise(rep, key, loc(fi), qs, spec, mk_val(x0=gen, dim=lambda V: V.dim), n * 2, seed)


# ------------------------------------------------------------------ A01 merits
def merit_vals(seed0):
    V = Valuation(seed0)
    return V


def rule_A01(p, rep, tier, seed):
    rep.rule = "EI, LCB and weighted merit normal forms equal their definitions; the selection loop minimises the merit and updates distances and values"
    n = 24 if tier == "quick" else 120
    K = {"X": "arr2", "fX": "arr2", "XX": "arr2", "dtol": "num", "kappa": "num", "surrogate": "obj"}

    def mkv(s):
        V = Valuation(s)
        k = V.size("cand", 1, 5)
        V.hints.update({"X": lambda V: V.points(k), "XX": lambda V: V.points(V.size("XX", 1, 4))})
        if V.many:
            V.sizes["XX"] = 230
            cand, old = V.points(k), V.ub + V.points(230) - V.lb + 4
            old[:k] = cand + 1e-3 * (V.ub - V.lb)  # the nearest point is among the oldest
            V.hints.update({"X": lambda V: cand.copy(), "XX": lambda V: old.copy()})
        V.sscale = {2: 1e-5, 4: 1e4}.get(s % 5, 1)
        if s % 5 == 3 or s % 4 == 1:  # some of the points are known much better than others
            V.sscale = lambda k: 10.0 ** V.np.uniform(-7, 1, (k, 1))
        V.hints.update({
            "fX": lambda V: np.round(V.np.uniform(-2, 2, (V.size("XX", 1, 4), 1)), 4),
            "dtol": lambda V: V.rnd.choice([0.0, -1.0, 0.3, 1.0, 3.0] if not V.many else [0.3, 1.0]), "kappa": lambda V: V.rnd.choice([0.0, 1.0, 2.0, 0.5])})
        return V
    for name in ("ei_merit", "lcb_merit"):
        fi, qs, a, I = summary(p, name, K)
        rep.unit(fi)

        def spec(V, name=name, a=a):
            X = V.ev(a["X"])
            mu, sig = V.ev(mk_pred(a["surrogate"], "predict", a["X"])), V.ev(mk_pred(a["surrogate"], "predict_std", a["X"]))
            fX, dtol = V.ev(a["fX"]), V.ev(a["dtol"])
            if name == "ei_merit":
                g = (np.min(fX) - mu) / sig
                r = sig * (g * norm.cdf(g) + norm.pdf(g))
            else:
                r = mu - V.ev(a["kappa"]) * sig
            if dtol > 0:
                d = np.min(cdist(X, V.ev(a["XX"])), axis=1, keepdims=True)
                r = np.where(d < dtol, 0.0 if name == "ei_merit" else np.inf, r)
            return r
        with rep.guard(name, loc(fi)):
            piecewise(rep, name, loc(fi), qs, spec, mkv, n, seed)
    from .search import rule_selection
    rule_selection(p, rep, seed, 40 if tier == "quick" else 200)


def mk_pred(recv, name, X):
    return tm.mk("mcall", recv, name, (X,), ())


# ------------------------------------------------------------------ M09 output transformations
def rule_M09(p, rep, tier, seed):
    rep.rule = "normal forms of the output transformations equal their definitions, on columns and vectors of any length; the input array is not written"
    n = 30 if tier == "quick" else 150
    specs = {"identity": lambda x: x, "median_capping": lambda x: np.minimum(x, np.median(x))}
    for name, spec in specs.items():
        for kind in ("arr2", "arr1"):
            fi, qs, a, I = summary(p, name, {"x": kind})
            rep.unit(fi)
            X = a[fi.params[0]]

            def gen(V, kind=kind):
                k = 1 + V.rnd.randrange(7) if not V.many else 200 + V.seed % 2
                v = np.round(V.np.uniform(-3, 3, k), 3)
                if V.rnd.random() < .5:
                    v = V.np.randint(-2, 3, k).astype(float)  # ties
                if V.rnd.random() < .2:
                    v = v * 1e6
                if V.seed % 5 == 4:
                    v[V.rnd.randrange(k)] = np.inf
                return v.reshape(-1, 1) if kind == "arr2" else v
            key = "%s (%s)" % (name, "column" if kind == "arr2" else "vector")
            with rep.guard(key, loc(fi)):
                piecewise(rep, key, loc(fi), qs, lambda V, spec=spec, X=X: spec(V.ev(X)), mk_val(**{fi.params[0]: gen}), n, seed)
            bad = [e for q in qs for e, d in flatten(q.st.events) if e.kind == "mutate" and isinstance(e.d.get("root"), T) and e.d["root"] is X]
            rep.check("%s keeps its input (%s)" % (name, kind), loc(fi), not bad, "writes its argument at %s" % (bad[0].loc if bad else ""))


# ------------------------------------------------------------------ V01 progress plot
def rule_V01(p, rep, tier, seed):
    rep.rule = "the series handed to the plot on every path are the values of the finished evaluations in order and their running minimum; the limits contain them"
    n = 12 if tier == "quick" else 60
    fi, qs, a, I = summary(p, "progress_plot", {"controller": "obj", "title": "str", "interactive": "bool"})
    rep.unit(fi)
    ctl = a[fi.params[0]]

    def world(k):
        V = Valuation(seed * 100 + k)
        V.interp = I
        m = 1 + V.rnd.randrange(6) if not V.many else 1200
        vals = [round(V.rnd.uniform(-3, 3), 3) if V.rnd.random() < .6 else float(V.rnd.randrange(-1, 2)) for _ in range(m)]
        if k % 3 == 0:
            vals = [abs(v) + 1 for v in vals]
        big = {2: 1e12, 3: 1e-6}.get(k % 5, 1)
        vals = [v * (big if V.rnd.random() < .6 else 1) for v in vals]
        for i in V.rnd.sample(range(m), V.rnd.randrange(m) if k % 2 else 0):
            vals[i] = None
        if all(v is None for v in vals):
            vals[0] = .5
        c = V.ev(ctl)
        recs = [ObjV("rec%d" % i) for i in range(m)]
        V.ufs[("attr", c.name, "fevals")] = recs
        for r, v in zip(recs, vals):
            V.ufs[("attr", r.name, "value")] = v
            for s in ("is_completed", "is_done", "is_killed", "is_cancelled", "is_pending", "is_running", "status"):
                V.ufs[("attr", r.name, s)] = {"is_completed": v is not None, "is_done": True, "is_killed": v is None, "status": "killed" if v is None else "completed"}.get(s, False)
        return V, vals

    shown = False
    for q in qs:
        if q.raised:
            continue
        calls = [e for e, d in flatten(q.st.events) if e.kind == "libcall" and e.d["name"].endswith(".plot") and len(e.d["args"]) >= 2]
        lims = [e for e, d in flatten(q.st.events) if e.kind == "libcall" and e.d["name"].endswith(".ylim")]
        if not calls:
            continue
        shown = True
        pts, cnt = None, 0
        with rep.guard("progress plot", loc(fi)):
            try:
                for k in range(n):
                    V, vals = world(k)
                    feasible = True
                    for f in q.facts:
                        if tm.contains_t(ctl, f):
                            feasible = feasible and V.truth(f)
                    if not feasible:
                        continue
                    done = [v for v in vals if v is not None]
                    best = list(np.minimum.accumulate(done))
                    got = []
                    for e in calls:
                        x, y = (V.ev(I.term(t, q.st)) for t in e.d["args"][:2])
                        got.append((list(np.ravel(x)), list(np.ravel(y))))
                    for lab, want in (("values", done), ("best value so far", best)):
                        if not any(len(y) == len(want) and same(np.array(y, float), np.array(want, float)) for x, y in got):
                            pts = "the %s %s of evaluations %s is not plotted, but %s" % (lab, want, vals, [y for x, y in got])
                        elif not any(same(np.array(y, float), np.array(want, float)) and len(x) == len(y) and np.all(np.diff(x) > 0) for x, y in got if len(y) == len(want)):
                            pts = "the %s are plotted at %s" % (lab, [x for x, y in got])
                    for e in lims:
                        if len(e.d["args"]) == 2:
                            lo, hi = (float(V.ev(I.term(t, q.st))) for t in e.d["args"])
                            if lo > min(done) + 1e-9 * (1e-6 + abs(min(done))) or hi < max(done) - 1e-9 * (1e-6 + abs(max(done))):
                                pts = pts or "values %s outside the plotted range [%s, %s]" % (done, lo, hi)
                    cnt += 1
                    if pts:
                        break
            except (Unknown, Bad) as ex:
                if not pts:
                    rep.unknown("progress plot", loc(fi), str(ex))
                    continue
            if pts:
                rep.refute("progress plot", loc(fi), pts)
            elif cnt >= 3:
                rep.proven("progress plot", loc(fi), "agrees on %d histories" % cnt)
    if not shown:
        rep.unknown("progress plot", loc(fi), "no plotted series found")
