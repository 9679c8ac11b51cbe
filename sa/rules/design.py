"""Experimental designs: shape, selection among trials, the Latin and symmetric structure, corners; domain of the mapped points."""
import numpy as np
from scipy.spatial.distance import cdist
from .common import *
from .search import outside, snap
from ..interp import NONE

DK = {"lb": "arr1", "ub": "arr1", "int_var": "arr1"}
DESIGNS = ("LatinHypercube", "SymmetricLatinHypercube", "TwoFactorial")
CASES = ((), ("int_var",), ("lb",), ("ub",), ("lb", "ub", "int_var"))


def design_paths(p, name, omit, opaque=True):
    ci = p.cls(name)
    gp = p.find_method(ci, "generate_points")
    gen = [m for c in p.mro(ci) for nm, m in c.methods.items() if nm not in ("generate_points", "__init__") and len(m.params) == 1]
    I = Interp(p, opaque=tuple(m.qual for m in gen) if opaque else ())
    I.impure = {m.qual for m in gen}
    init = p.find_method(ci, "__init__")
    kw = {k: S(k, "int") for k in ("dim", "num_pts", "iterations") if k in init.params}
    out = []
    for q in construct(I, ci, kw):
        if q.raised or q.v is None:
            out.append(q)
            continue
        a = {n: NONE if n in omit else S(n, DK[n]) for n in gp.params[1:]}
        for r in call(I, gp, [q.v], a, st=q.st, recv=q.v):
            r.np_ = q.st.heap[q.v.id].attrs.get("num_pts") if isinstance(q.v, Ref) else None
            r.dm = q.st.heap[q.v.id].attrs.get("dim") if isinstance(q.v, Ref) else None
            out.append(r)
    return I, ci, gp, out


def trial(V, n, d):
    """one design in the unit cube, good or bad"""
    kind = V.rnd.choice(["ok", "ok", "ok", "line", "twice", "coarse"])
    x = np.array([V.np.permutation(n) for _ in range(d)]).T / max(n - 1, 1)
    if kind == "line":
        x = np.repeat(x[:, :1], d, axis=1)
    elif kind == "twice" and n > 1:
        x[-1] = x[0]
    elif kind == "coarse":
        x = np.round(x * 2) / 2
    return np.array(x, float)


def des_vals(dim=None):
    def mkv(s):
        V = Valuation(s, dim=dim)
        V.trials, V.seeds = {}, []
        if s % 5 == 2:  # a tiny box
            V.lb, V.ub, V.iv, V.cv = V.lb * 1e-4, V.ub * 1e-4, V.iv[:0], np.arange(V.dim)
        V.hints.update({"dim": lambda V: V.dim, "num_pts": lambda V: V.rnd.randrange(2, 8), "iterations": (lambda V: 1203) if s % 40 == 17 else lambda V: V.rnd.choice([1, 2, 3, 4, 17]),
                        "lb": lambda V: V.lb.copy(), "ub": lambda V: V.ub.copy(), "int_var": lambda V: V.iv.copy()})

        def one(key, n, d):
            if key not in V.trials:
                V.trials[key] = trial(V, int(n), int(d))
            return V.trials[key].copy()

        def lhs(n, samples=None, criterion=None, iterations=None, random_state=None, correlation_matrix=None):
            if samples is None:
                samples = n
            if isinstance(random_state, (int, np.integer)):
                V.seeds.append(int(random_state))
            return one((V.ctx, random_state), samples, n)
        V.libs["pyDOE2.lhs"] = lhs

        def uf(V, t, args):
            if t.op == "pcall" and (isinstance(args[-1], int) or isinstance(args[-1], tuple) and args[-1] and args[-1][0] == "draw"):
                return one(("pcall", args[-1]), V.ev(S("num_pts", "int")), V.dim)
            return None
        V.uf = uf
        return V
    return mkv


def mapped(V, X, omit):
    if "lb" in omit or "ub" in omit:
        return X
    X = V.lb + X * (V.ub - V.lb)
    if "int_var" not in omit and len(V.iv):
        X = X.copy()
        X[:, V.iv] = np.clip(np.rint(X[:, V.iv]), np.ceil(V.lb[V.iv]), np.floor(V.ub[V.iv]))
    return X


def score(X):
    d = cdist(X, X)
    np.fill_diagonal(d, np.inf)
    return d.min()


def sample_designs(p, name, omit, seed, n, opaque=True):
    """(V, paths, outcome, path) for valuations of one design; outcome None with a reason when undetermined"""
    I, ci, gp, qs = design_paths(p, name, omit, opaque)
    for k in range(n):
        V = des_vals(1 + k % 6 if name == "TwoFactorial" else None)(seed * 1000 + k)
        try:
            r, q = value_at(V, qs)
            yield V, gp, r, q, ""
        except (Unknown, Bad) as e:
            yield V, gp, None, None, "%s: %s" % (type(e).__name__, e)


def corners(d):
    import itertools
    return np.array(list(itertools.product([0, 1], repeat=d)), float)


def rule_D01(p, rep, tier, seed):
    rep.rule = ("generated designs, over arbitrary draws: announced number and dimension, unit cube or mapped and rounded domain, the best-spread full-rank trial, "
                "no coinciding points, an error when no trial qualifies; every corner; refusal of 15 dimensions")
    n = 40 if tier == "quick" else 200
    for name in DESIGNS:
        for omit in CASES:
            lab = "%s%s" % (name, " without " + ", ".join(omit) if omit else "")
            got, bad, why, errs, where = 0, None, "", 0, ""
            more = fewer = equal = False
            fails, counts, alike, few = 0, {}, 0, None
            for V, gp, r, q, w in sample_designs(p, name, omit, seed, n if name != "TwoFactorial" else n // 2):
                rep.unit(gp)
                where = loc(gp)
                if r is None:
                    why = w
                    fails += w.startswith("Bad")
                    continue
                if name == "TwoFactorial":
                    want, ok = [mapped(V, corners(V.dim), omit)], True
                else:
                    if len(V.trials) != V.ev(S("iterations", "int")):
                        why = "%d trials seen for %s iterations" % (len(V.trials), V.ev(S("iterations", "int")))
                        counts.setdefault(V.ev(S("iterations", "int")), set()).add(len(V.trials))
                        more = more or len(V.trials) > V.ev(S("iterations", "int"))
                        fewer = fewer or (r is not RAISE and 0 < len(V.trials) < V.ev(S("iterations", "int")))
                        continue
                    equal = True
                    alike += V.ev(S("iterations", "int")) > 2 and len(V.seeds) > 2 and len(set(V.seeds)) == 1
                    if len(V.seeds) > 1000 and len(set(V.seeds)) < len(V.seeds) / 4:
                        few = "%d trials use %d different seeds: the others repeat a design" % (len(V.seeds), len(set(V.seeds)))
                    c = [mapped(V, x, omit) for x in V.trials.values()]
                    good = [x for x in c if np.linalg.matrix_rank(x) == V.dim and score(x) > 0]
                    best = max([score(x) for x in good], default=0)
                    if any(0 < abs(score(x) - best) < 1e-9 * np.max(V.ub - V.lb) for x in good):
                        continue
                    want, ok = [x for x in good if score(x) == best], bool(good)
                got += 1
                if (r is RAISE) == ok:
                    bad = bad or ("raises although a valid design was generated" if ok else "returns a design although every trial is rank deficient or has coinciding points: %s" % sv(r[1]))
                    continue
                if r is RAISE:
                    errs += 1
                    continue
                X = np.asarray(r[1], float)
                if not any(X.shape == x.shape and (np.allclose(X, x, atol=1e-8 * np.max(V.ub - V.lb)) or name == "TwoFactorial" and np.allclose(np.array(sorted(map(tuple, X))), np.array(sorted(map(tuple, x))))) for x in want):
                    if X.shape != want[0].shape:
                        bad = bad or "design of shape %s instead of %s" % (X.shape, want[0].shape)
                    else:
                        bad = bad or "returns %s, the best full-rank trial is %s" % (sv(X), sv(want[0]))
            if name != "TwoFactorial":
                key = "%s: number of trials" % lab
                if alike > 2:
                    rep.refute(key, where, "every trial uses the same seed: all of them are one design")
                elif few:
                    rep.refute(key, where, few)
                elif fewer and r is not RAISE or more and not equal and len(counts) > 2 and len(set().union(*counts.values())) == 1:
                    bad = bad or why
                    rep.refute(key, where, why)
                elif equal and not counts:
                    rep.proven(key, where, "%d designs" % got)
                else:
                    rep.unknown(key, where, why)
            if not got and not counts and fails > 10:
                bad = bad or "no design: " + why
            if bad:
                rep.refute(lab, where, bad)
            elif got >= n // 3 and not fewer:
                rep.proven(lab, where, "%d designs, %d refused" % (got, errs))
            else:
                rep.unknown(lab, where, why)
    # ---- announced size
    for name in DESIGNS:
        ci = p.cls(name)
        init = p.find_method(ci, "__init__")
        rep.unit(init)
        kw = {k: S(k, "int") for k in ("dim", "num_pts", "iterations") if k in init.params}
        I = Interp(p)
        qs = construct(I, ci, kw)
        for attr, ref in (("dim", lambda V: V.ev(S("dim", "int"))), ("num_pts", (lambda V: 2 ** V.ev(S("dim", "int"))) if name == "TwoFactorial" else (lambda V: V.ev(S("num_pts", "int"))))):
            def spec(V, ref=ref, name=name):
                if name == "TwoFactorial" and V.ev(S("dim", "int")) >= 15:
                    return RAISE
                return ref(V)

            def mkv(k):
                V = Valuation(k, dim=[1, 2, 3, 10, 13, 14, 15, 16, 20][k % 9])
                V.hints.update({"num_pts": lambda V: V.rnd.randrange(1, 40), "iterations": lambda V: V.rnd.randrange(1, 9)})
                return V
            key = "%s announces its %s" % (name, "dimension" if attr == "dim" else "number of points")
            with rep.guard(key, loc(init)):
                piecewise(rep, key, loc(init), qs, spec, mkv, 30, seed, result=lambda V, q, attr=attr: V.ev(q.I.term(q.attr(q.v, attr), q.st)))


def rule_D02(p, rep, tier, seed):
    rep.rule = "symmetric design (over its own random draws): every coordinate takes each level once, and mirroring in the center permutes the points; Latin design: the library generator is asked for the right design and a trial it made is returned whole"
    n = 40 if tier == "quick" else 200
    # ---- structure of the symmetric design
    name = "SymmetricLatinHypercube"
    got, bad, why, where, tried = 0, None, "", "", {}
    for V, gp, r, q, w in sample_designs(p, name, ("lb", "ub", "int_var"), seed + 3, 3 * n, opaque=False):
        where = loc(gp)
        if r is None:
            why = w
            continue
        t = tried.setdefault(V.ev(S("num_pts", "int")), [0, 0])
        t[r is RAISE] += V.ev(S("num_pts", "int")) >= 4 and V.dim <= 2
        if r is RAISE:
            continue
        X, m = np.asarray(r[1], float), V.ev(S("num_pts", "int"))
        got += 1
        if X.shape != (m, V.dim):
            bad = bad or "design of shape %s instead of %s" % (X.shape, (m, V.dim))
            continue
        for j in range(V.dim):
            if not np.allclose(np.sort(X[:, j]), np.arange(m) / (m - 1)):
                bad = bad or "coordinate %d takes the values %s, not one point per level (%d points)" % (j, sv(np.sort(X[:, j])), m)
        if bad is None:
            a, b = sorted(map(tuple, np.round(X, 7))), sorted(map(tuple, np.round(1 - X, 7)))
            if not np.allclose(a, b):
                bad = "the design %s is not symmetric about the center" % sv(X)
    for m, (fine, refused) in sorted(tried.items()):
        if refused >= 4 and not fine:
            bad = bad or "no design of %d points is ever valid" % m
    lab = "symmetric Latin structure"
    if bad:
        rep.refute(lab, where, bad)
    elif got >= n // 3:
        rep.proven(lab, where, "%d designs" % got)
    else:
        rep.unknown(lab, where, why)
    # ---- Latin hypercube: the generator is asked for the right design
    ci = p.cls("LatinHypercube")
    gp = p.find_method(ci, "generate_points")
    asked = []
    got, bad, why = 0, None, ""
    for k in range(12):
        V = des_vals()(seed * 77 + k)
        old = V.libs["pyDOE2.lhs"]

        def lhs(n, samples=None, *a, V=V, old=old, **kw):
            asked.append((n, samples, V.dim, V.ev(S("num_pts", "int")), kw.get("random_state", a[2] if len(a) > 2 else None)))
            return old(n, samples)
        V.libs["pyDOE2.lhs"] = lhs
        I, ci, gp, qs = design_paths(p, "LatinHypercube", ("lb", "ub", "int_var"))
        try:
            value_at(V, qs)
        except (Unknown, Bad) as e:
            why = str(e)
    for d, m, dim, npts, rs in asked:
        if (d, m) != (dim, npts):
            bad = "asks the generator for %s points in dimension %s, not %s in dimension %s" % (m, d, npts, dim)
    lab = "Latin hypercube generator"
    if bad:
        rep.refute(lab, loc(gp), bad)
    elif asked:
        rep.proven(lab, loc(gp), "%d calls" % len(asked))
    else:
        rep.unknown(lab, loc(gp), why or "no call of the library generator seen")
    # ---- and one of its designs is returned as it is
    got, bad, why = 0, None, ""
    I, ci, gp, qs = design_paths(p, "LatinHypercube", ("lb", "ub", "int_var"))
    rep.unit(*I.visited)
    for k in range(n):
        V = des_vals()(seed * 99 + k)
        made = {}

        def lhs(a, samples=None, criterion=None, iterations=None, random_state=None, correlation_matrix=None, V=V, made=made):
            m = a if samples is None else samples
            x = np.array([V.np.permutation(int(m)) for _ in range(int(a))]).T
            return made.setdefault((V.ctx, random_state), (x + V.np.uniform(0, 1, x.shape)) / m).copy()
        V.libs["pyDOE2.lhs"] = lhs
        try:
            r, q = value_at(V, qs)
        except (Unknown, Bad) as e:
            why = str(e)
            continue
        if r is None or r is RAISE or not made:
            continue
        got += 1
        X, m = np.asarray(r[1], float), V.ev(S("num_pts", "int"))
        cells = np.floor(X * m) if X.shape == (m, V.dim) else None
        if cells is None or any(sorted(c) != list(range(m)) for c in cells.T):
            bad = bad or "%s does not have one point per interval in each coordinate" % sv(X)
    lab = "Latin hypercube structure"
    if bad:
        rep.refute(lab, loc(gp), bad)
    elif got >= n // 3:
        rep.proven(lab, loc(gp), "%d designs" % got)
    else:
        rep.unknown(lab, loc(gp), why or "no design seen")
