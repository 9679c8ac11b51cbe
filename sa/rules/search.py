"""Rules about code whose meaning is a loop: candidate selection, genetic algorithm, Pareto ranking, designs.

The loops are summarised by the interpreter to their transition relation (values carried from one iteration to the next as
terms).  A valuation iterates that relation, so results of different loop shapes are compared as functions.
"""
import hashlib
import numpy as np
from scipy.spatial.distance import cdist
from .common import *
from .formulas import mk_val, rescale
from ..interp import const, NONE
from ..report import Report


def row_value(V, *rows):
    """an arbitrary function of a point: pseudo-random, the same for the same point"""
    h = hashlib.sha256((repr(V.seed) + repr([(np.round(np.asarray(r, float), 7) + 0.0).tolist() for r in rows])).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2.0 ** 48 * 6 - 3


def scale_of(V):
    """the scale of the objective: usual, tiny or huge"""
    return {3: 1e-8, 5: 1e6}.get(V.seed % 7, 1.0)


# ------------------------------------------------------------------ U03
def dominates(a, b):
    return bool(np.all(a < b))


def front(F, idx):
    return [i for i in idx if not any(dominates(F[:, j], F[:, i]) for j in idx)]


def ranks(F, nmax):
    n = F.shape[1]
    r = np.full(n, np.inf)
    left, k, cnt = list(range(n)), 1, 0
    while cnt < nmax and left:
        f = front(F, left)
        r[f] = k
        cnt += len(f)
        left = [i for i in left if i not in f]
        k += 1
    return r


def rule_U03(p, rep, tier, seed):
    rep.rule = "domination, partition, ranking and radius rule summaries equal their definitions; loops by their transition relation"
    n = 120 if tier == "quick" else 480

    def mkF(V):
        m, k = V.size("M", 1, 3) if not V.many else 2, V.size("N", 1, 9 if V.seed % 3 else 6)
        if V.many:  # many points, many fronts
            k = V.sizes["N"] = 14 + V.rnd.randrange(4)
            F = V.np.randint(0, k, (m, k)).astype(float)
            if V.seed % 2:
                F[1] = F[0] + V.np.randint(0, 2, k)
            return F * scale_of(V)
        F = V.np.randint(0, 4, (m, k)).astype(float)
        if V.seed % 3 == 2 and k > 2 and m > 1:  # a front of several vectors and a last vector dominated by some of them, or dominating some
            F = V.np.randint(0, 3, (m, k)).astype(float)
            F[0, :] = V.np.permutation(k) % 5
            F[1, :] = 4 - F[0, :] + (V.np.uniform(size=k) < .2)
            F[:, -1] += V.rnd.choice([-1, 1, 2])
        F = F * scale_of(V)
        if V.seed % 7 == 5:  # failed evaluations
            F[V.rnd.randrange(m), V.rnd.randrange(k)] = np.inf
        return F
    # ---- domination
    fi, qs, a, I = summary(p, "domination", {"fA": "arr1", "fB": "arr1"})
    rep.unit(fi)
    A, B = (a[x] for x in fi.params[:2])
    g = lambda V: V.np.randint(0, 3, V.size("M", 1, 3)).astype(float) * scale_of(V)
    with rep.guard("domination", loc(fi)):
        piecewise(rep, "domination", loc(fi), qs, lambda V: dominates(V.ev(A), V.ev(B)), mk_val(**{x: g for x in fi.params[:2]}), n * 2, seed,
                  eq=lambda x, y: bool(x) == bool(y))
    # ---- adding the last vector to a partition
    fi, qs, a, I = summary(p, "nd_add", {"F": "arr2", "df_index": "list", "ndf_index": "list"})
    rep.unit(fi)

    def part(V):
        F = V.ev(a["F"])
        nd = front(F, range(F.shape[1] - 1))
        d = [i for i in range(F.shape[1] - 1) if i not in nd]
        V.rnd.shuffle(nd), V.rnd.shuffle(d)
        return nd, d

    def hint_nd(V):
        if not hasattr(V, "part"):
            V.part = part(V)
        return list(V.part[0])

    def hint_d(V):
        if not hasattr(V, "part"):
            V.part = part(V)
        return list(V.part[1])

    def both(F):
        nd = front(F, range(F.shape[1]))
        return nd, [i for i in range(F.shape[1]) if i not in nd]

    def eq_part(got, want):
        try:
            return len(got) == 2 and all(sorted(float(x) for x in g) == sorted(map(float, w)) for g, w in zip(got, want))
        except TypeError:
            return False
    with rep.guard("nd_add", loc(fi)):
        piecewise(rep, "nd_add", loc(fi), qs, lambda V: both(V.ev(a["F"])), mk_val(F=mkF, ndf_index=hint_nd, df_index=hint_d), n, seed, eq=eq_part)
    # ---- splitting a set
    fi, qs, a2, I = summary(p, "nd_front", {"F": "arr2"})
    rep.unit(fi)
    with rep.guard("nd_front", loc(fi)):
        piecewise(rep, "nd_front", loc(fi), qs, lambda V: both(V.ev(a2["F"])), mk_val(F=mkF), n, seed, eq=eq_part)
    # ---- ranking
    fi, qs, a3, I = summary(p, "nd_sorting", {"F": "arr2", "nmax": "int"})
    rep.unit(fi)
    with rep.guard("nd_sorting", loc(fi)):
        piecewise(rep, "nd_sorting", loc(fi), qs, lambda V: ranks(V.ev(a3["F"]), V.ev(a3["nmax"])),
                  mk_val(F=mkF, nmax=lambda V: V.rnd.randrange(0, 8) if not V.many else V.rnd.choice([20, 100])), n, seed)
    # ---- radius rule
    fi, qs, a4, I = summary(p, "check_radius_rule", {"X": "arr1", "X_c": "arr2", "sigma": "num", "dim": "int", "nc": "int", "d_thresh": "num"})
    rep.unit(fi)

    def centers(V):
        m = V.size("nc", 0, 4) + V.rnd.randrange(2)
        c = np.zeros((m, V.dim + 5))
        c[:, :V.dim] = V.np.uniform(0, 1.5, (m, V.dim))
        c[:, V.dim:] = V.np.uniform(0, 3, (m, 5))
        c[:, V.dim + 4] = V.np.randint(0, 7 if V.seed % 2 else 3, m)
        if V.seed % 4 == 1:
            c[:, :V.dim] *= .1
        if V.seed % 4 == 0:  # exactly at the limiting distance
            c[:, :V.dim] = 0
            c[:, V.dim + 4] = 0
        if small(V):
            c[:, :V.dim] *= 1e-5
        return c

    def small(V):
        return V.seed % 12 in (3, 9)

    def exact(V, name, usual):
        if small(V) and name == "sigma":
            return 1e-5 * usual
        return usual if V.seed % 4 else {"sigma": V.rnd.choice([.5, 1.0]), "d_thresh": 1.0}[name]

    def query(V):
        if V.seed % 4:
            return np.round(V.np.uniform(0, 1.5, V.dim) * (.1 if V.seed % 4 == 1 else 1), 4) * (1e-5 if small(V) else 1)
        x = np.zeros(V.dim)
        x[0] = V.rnd.choice([.5, 1.0])
        return x

    def radius(V):
        x, c, s, k, th = (V.ev(a4[z]) for z in ("X", "X_c", "sigma", "nc", "d_thresh"))
        for i in range(k):
            if np.linalg.norm(x - c[i, :V.dim]) < s * 0.5 ** c[i, V.dim + 4] * th / np.sqrt(len(x)):
                return 0
        return 1
    with rep.guard("radius rule", loc(fi)):
        piecewise(rep, "radius rule", loc(fi), qs, radius, mk_val(
            X=query, X_c=centers, nc=lambda V: V.size("nc", 0, 4), sigma=lambda V: exact(V, "sigma", V.rnd.choice([.2, .5, 1.0, 1.7])),
            d_thresh=lambda V: exact(V, "d_thresh", V.rnd.choice([1.0, .5, 1.3]))), n * 2, seed)
    for d, want in ((a4, True),):
        fi = p.func("check_radius_rule")
        dflt = {x.arg: y for x, y in zip(fi.node.args.args[len(fi.node.args.args) - len(fi.node.args.defaults):], fi.node.args.defaults)}
        if "d_thresh" in dflt:
            v = getattr(dflt["d_thresh"], "value", None)
            rep.check("radius rule default", loc(fi), v == 1 if v is not None else None, "default of d_thresh is %r, documented 1" % v)


# ------------------------------------------------------------------ selection loop of the weighted merit
WD = {"num_pts": "int", "surrogate": "obj", "X": "arr2", "fX": "arr2", "cand": "arr2", "Xpend": "arr2", "dtol": "num", "weights": "arr1"}


def wd_vals(none, uniform=False):
    def mkv(s):
        V = Valuation(s)
        if V.many:
            V.sizes.update({"X": 230, "Xp": 230})
        w0 = V.rnd.choice([0.0, 1.0, .3, .5, .95, .8]) if uniform else None
        V.pscale = {3: 1e-5, 5: 1e6}.get(s % 7, 1)
        k = V.size("cand", 2, 12)
        V.hints.update({
            "cand": lambda V: V.points(k), "X": lambda V: V.points(V.size("X", 1, 4)), "fX": lambda V: np.round(V.np.uniform(-2, 2, (V.size("X", 1, 4), 1)), 4),
            "Xpend": lambda V: V.points(V.size("Xp", 0, 3)), "dtol": lambda V: V.rnd.choice([0.0, 1e-3, 1e-3, .3, .8]),
            "num_pts": lambda V: V.rnd.randrange(1, 6) if not V.many else 12,
            "weights": lambda V: np.array([V.rnd.choice([0.0, 1.0, .3, .5, .95, .8]) if w0 is None else w0 for _ in range(6 if not V.many else 13)])})
        if s % 6 == 5 and not V.many:  # each candidate lies at exactly the tolerance from some point
            Y = np.floor(V.np.uniform(-20, 20, (k, V.dim)))
            dt = V.rnd.choice([.25, .5, 1.0])
            Z = Y.copy()
            Z[np.arange(k), V.np.randint(0, V.dim, k)] += dt
            V.hints.update({"cand": Y, "X": Z, "fX": np.round(V.np.uniform(-2, 2, (k, 1)), 4), "Xpend": lambda V: 1e3 + V.points(V.size("Xp", 0, 3)), "dtol": dt})
        return V
    return mkv


def weight_of_point(p, rep, seed, n):
    """the selection agrees with its definition whatever the weights, and not only when all weights are equal"""
    gen, equal = Report(rep.pid), Report(rep.pid)
    rule_selection(p, gen, seed, n)
    rule_selection(p, equal, seed, n, True)
    for o, e in zip(gen.obs, equal.obs):
        v = o["verdict"] if o["verdict"] != "refuted" or e["verdict"] == "proven" else "unknown"
        rep.add(o["obligation"] + ": point i is selected with weight i", o["where"], v, o["detail"])


def rule_selection(p, rep, seed, n, uniform=False):
    fi = p.func("weighted_distance_merit")
    rep.unit(fi)
    for none in (False, True):
        fi, qs, a, I = summary(p, "weighted_distance_merit", WD, args={"Xpend": NONE} if none else None)

        def spec(V):
            cand, X, dtol, k, w = (V.ev(a[z]) for z in ("cand", "X", "dtol", "num_pts", "weights"))
            XX = X if none else np.vstack((X, V.ev(a["Xpend"])))
            v = rescale(V.ev(tm.mk("mcall", a["surrogate"], "predict", (a["cand"],), ())))
            d = np.min(cdist(cand, XX), axis=1, keepdims=True)
            out, taken = [], []
            for i in range(k):
                m = w[i] * v + (1 - w[i]) * (1 - rescale(d))
                m[d < dtol] = np.inf
                m[taken] = np.inf
                s = np.sort(m.ravel())
                if not np.isfinite(s[0]) or (len(s) > 1 and s[1] - s[0] < 1e-6):
                    raise Bad("no admissible candidate, or a tie")
                j = int(np.argmin(m))
                taken.append(j)
                out.append(cand[j])
                d = np.minimum(d, cdist(cand, cand[j:j + 1]))
            return np.array(out)
        key = "selection loop" + (" (nothing pending)" if none else "")
        with rep.guard(key, loc(fi)):
            piecewise(rep, key, loc(fi), qs, spec, wd_vals(none, uniform), n, seed)


def outside(V, pts, tol=1e-9):
    """what is wrong with points that should lie in the domain, integer where required"""
    pts = np.atleast_2d(np.asarray(pts, float))
    if pts.shape[1] != V.dim:
        return "%d coordinates for dimension %d" % (pts.shape[1], V.dim)
    if not np.all(np.isfinite(pts)):
        return "a coordinate that is not a number"
    if np.any(pts < V.lb - tol) or np.any(pts > V.ub + tol):
        return "a coordinate outside the bounds"
    if len(V.iv) and np.any(np.abs(pts[:, V.iv] - np.rint(pts[:, V.iv])) > tol):
        return "a fractional integer coordinate"
    return None


# ------------------------------------------------------------------ U02
def ga_vals(kind):
    def mkv(s):
        V = Valuation(s)

        def f(V, t, args):
            if t.op == "vcall" and len(args) > 1 and isinstance(args[1], np.ndarray):
                pop = np.array(args[1], float)
                vals = np.array([row_value(V, r) for r in pop]) * scale_of(V)
                V.pops.append((pop, vals))
                return vals.reshape(-1, 1) if V.seed % 2 else vals
            return None
        V.pops = []
        V.uf = f
        V.strict_start = None

        def start(V):
            nn = V.ev(V.popsym)
            nn += nn % 2
            V.mode = V.rnd.choice(["ok", "ok", "rows", "cols", "low", "high"])
            x = V.lb + V.np.uniform(0, 1, (nn, V.dim)) * (V.ub - V.lb)
            x[:, V.iv] = np.clip(np.rint(x[:, V.iv]), np.ceil(V.lb[V.iv]), np.floor(V.ub[V.iv])) if V.rnd.random() < .5 else x[:, V.iv]
            if V.mode == "rows":
                x = x[:-1] if V.rnd.random() < .5 else np.vstack((x, x[:1]))
            elif V.mode == "cols":
                x = np.hstack((x, x[:, :1]))
            elif V.mode == "low":
                i, j = V.rnd.randrange(nn), V.rnd.randrange(V.dim)
                x[i, j] = V.lb[j] - .5
            elif V.mode == "high":
                i, j = V.rnd.randrange(nn), V.rnd.randrange(V.dim)
                x[i, j] = V.ub[j] + .5
            return x
        V.hints.update({"pop_size": lambda V: V.rnd.randrange(2, 6), "num_gen": lambda V: V.rnd.randrange(0, 4), "start": start,
                        "int_var": lambda V: V.iv.copy(), "dim": lambda V: V.dim})
        return V
    return mkv


def ga_paths(p, start, opaque=()):
    ci = p.cls("GeneticAlgorithm")
    init, opt = p.find_method(ci, "__init__"), p.find_method(ci, "optimize")
    I = Interp(p, opaque=opaque)
    a = dict(function=S("function", "obj"), dim=S("dim", "int"), lb=S("lb", "arr1"), ub=S("ub", "arr1"), int_var=S("int_var", "arr1"),
             pop_size=S("pop_size", "int"), num_gen=S("num_gen", "int"), start=start)
    out = []
    for q in construct(I, ci, a):
        if q.raised or q.v is None:
            out.append(q)
            continue
        out += call(I, opt, [q.v], st=q.st, recv=q.v)
    return I, ci, init, opt, a, out


STARTS = ("array", "SLHD", "LHD", "Random", "something else")


def ga_start(s):
    return S("start", "arr2") if s == "array" else const(s)


def sample_ga(p, tier, seed, starts=STARTS):
    """evaluate the optimisation summary: yields (start, V, valid start, outcome, path); outcome RAISE / ('val', v) / reason"""
    n = 18 if tier == "quick" else 80
    for s in starts:
        I, ci, init, opt, a, qs = ga_paths(p, ga_start(s), opaque=("SymmetricLatinHypercube", "LatinHypercube"))
        mkv = ga_vals(s)
        for k in range(4 * n if s == "array" else n):
            V = mkv(seed * 1000 + k)
            V.popsym = a["pop_size"]
            V.desgen = s
            V.extreme = .4 if k % 3 == 1 else 0
            old = V.uf

            def uf(V, t, args, old=old):
                r = old(V, t, args)
                if r is None and t.op == "mcall" and t.args[1] == "generate_points" and getattr(args[0], "kw", None):
                    kw = args[0].kw
                    return np.round(V.np.uniform(0, 1, (int(kw["num_pts"]), int(kw["dim"]))), 4)
                return r
            V.uf = uf
            try:
                r, q = value_at(V, qs)
            except (Unknown, Bad) as e:
                yield s, V, None, "undetermined: %s" % e, None, opt
                continue
            ok = s in ("SLHD", "LHD", "Random") or (s == "array" and getattr(V, "mode", "ok") == "ok")
            yield s, V, ok, r, q, opt


def rule_U02(p, rep, tier, seed):
    rep.rule = "the optimisation loop, iterated by its transition relation over arbitrary objectives and draws, returns an evaluated point, its value, and the minimum over all generations; invalid starts are rejected"
    done, bad, gens = {}, {}, {}
    for s, V, ok, r, q, opt in sample_ga(p, tier, seed):
        rep.unit(opt)
        d = done.setdefault(s, [0, ""])
        if ok is None:
            d[1] = r
            continue
        where = loc(opt)
        if (r is RAISE) == bool(ok):
            bad[s] = "%s initial population (%s) is %s" % ("valid" if ok else "invalid", getattr(V, "mode", s), "rejected" if ok else "accepted")
            continue
        d[0] += 1
        if not ok:
            continue
        v = r[1]
        if not (isinstance(v, (tuple, list)) and len(v) == 2):
            bad[s] = "returns %s, not a point and its value" % sv(v)
            continue
        x, f = np.ravel(np.asarray(v[0], float)), float(np.ravel(np.asarray(v[1], float))[0])
        if not V.pops:
            d[1] = "no evaluation seen"
            d[0] -= 1
            continue
        if x.shape != (V.dim,):
            bad[s] = "the point returned has shape %s" % (np.shape(v[0]),)
            continue
        rows = [(pr, pv) for pop, vals in V.pops for pr, pv in zip(pop, vals)]
        best = min(pv for _, pv in rows)
        here = [pv for pr, pv in rows if same(pr, x)]
        if not here:
            bad[s] = "returns a point that was never evaluated: %s" % sv(x)
        elif not any(abs(f - h) <= 1e-9 * abs(h) for h in here):
            bad[s] = "value %s returned with a point whose value is %s" % (f, here[0])
        elif f > best + 1e-9 * abs(best):
            bad[s] = "returns value %s although %s was evaluated" % (f, best)
        elif outside(V, x[None, :]):
            bad[s] = "returns a point with %s" % outside(V, x[None, :])
        else:
            gens.setdefault(s, []).append((len(V.pops), V.ev(S("num_gen", "int")) + 1))
    for s, g in gens.items():
        # equal populations are one application of the objective: a single smaller count proves nothing
        if any(x > y for x, y in g) or (len(g) > 5 and all(x < y for x, y in g)):
            bad.setdefault(s, "evaluates %s populations for %s generations" % ([x for x, _ in g][:6], [y - 1 for _, y in g][:6]))
    for s, (n, why) in done.items():
        key = "genetic algorithm, start %s" % s
        if s in bad:
            rep.refute(key, loc(opt), bad[s])
        elif n >= 6:
            rep.proven(key, loc(opt), "%d valuations of objective, draws, sizes and integer sets" % n)
        else:
            rep.unknown(key, loc(opt), why)


# ------------------------------------------------------------------ candidate searches
CK = {"num_pts": "int", "X": "arr2", "fX": "arr2", "Xpend": "arr2", "dtol": "num", "weights": "arr1", "surrogate": "obj", "sampling_radius": "num",
      "num_cand": "int", "subset": "arr1", "prob_perturb": "num", "opt_prob": "obj", "xbest": "arr1"}
SEARCHES = ("candidate_srbf", "candidate_dycors", "candidate_uniform")


def snap(V, x):
    x = np.array(x, float)
    x[..., V.iv] = np.clip(np.rint(x[..., V.iv]), np.ceil(V.lb[V.iv]), np.floor(V.ub[V.iv]))
    return x


def cand_vals(prob=None, ncand=12, edge=False):
    def mkv(s, dim=None):
        V = Valuation(s, dim=dim or (3 if prob is not None and s % 2 else None))
        if prob is not None:
            V.iv, V.cv = V.iv[:0], np.arange(V.dim)
        k = V.size("X", 1, 4)

        def point(V):
            x = V.points(1)[0]
            if V.seed % 3 == 0:  # on the boundary
                j = V.rnd.randrange(V.dim)
                x[j] = V.rnd.choice([V.lb[j], V.ub[j]])
            return snap(V, x)
        V.hints.update({
            "X": lambda V: np.array([point(V) for _ in range(k)]), "fX": lambda V: np.round(V.np.uniform(-2, 2, (k, 1)), 4), "xbest": point,
            "Xpend": lambda V: V.points(V.size("Xp", 0, 3)), "dtol": lambda V: V.rnd.choice([1e-3, .3]), "num_pts": lambda V: V.rnd.randrange(1, 4),
            "weights": lambda V: np.round(V.np.uniform(0, 1, 4), 3), "sampling_radius": lambda V: V.rnd.choice([.2, .05, .5, .01]),
            "num_cand": lambda V: ncand, "subset": lambda V: np.array((list if V.seed % 2 else sorted)(V.rnd.sample(range(V.dim), V.rnd.randrange(1, V.dim + 1)))),
            "prob_perturb": lambda V: V.rnd.choice([.2, .5, .8]) if prob is None else prob})
        return V
    return mkv


def find_calls(t, name):
    """opaque calls of a package function in a term"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x.op == "pcall" and str(x.args[0]).endswith("." + name) and x not in out:
                out.append(x)
            for y in x.args:
                go(y)
    go(t)
    return out


def candidate_cases(p, name):
    """(label, paths, args, given arguments) of a candidate search with the optional arguments given and omitted"""
    fi = p.func(name)
    opt = [x for x in ("subset", "num_cand", "xbest", "Xpend") if x in fi.all_params()] if hasattr(fi, "all_params") and callable(fi.all_params) else [x for x in ("subset", "num_cand", "xbest", "Xpend") if x in fi.params]
    for omit in [()] + [(x,) for x in opt] + [tuple(opt)]:
        _, qs, a, I = summary(p, name, CK, opaque=("weighted_distance_merit",), args={x: NONE for x in omit})
        yield "%s%s" % (name, " without " + ", ".join(omit) if omit else ""), fi, qs, a, omit


def columns_drawn(V, kind):
    """random draws of a kind as columns: (parameters at each entry, values)"""
    out = []
    for nm, kw, v in V.draws:
        if nm != kind or np.ndim(v) not in (1, 2):
            continue
        v = np.asarray(v, float)
        pars = {k: np.broadcast_to(np.asarray(x, float), v.shape) for k, x in kw.items() if k != "size" and x is not None and np.ndim(x) <= v.ndim and (np.ndim(x) == 0 or np.broadcast(np.zeros(v.shape), np.zeros(np.shape(x))).shape == v.shape)}
        if v.ndim == 1:
            out.append((pars, v))
        else:
            for j in range(v.shape[1]):
                out.append(({k: x[:, j] for k, x in pars.items()}, v[:, j]))
    return out


def same_column(V, col, old, i, v):
    """the changed entries of a column are the drawn values, in order (rounded to the integers in the domain where required)"""
    w = np.clip(np.rint(v), np.ceil(V.lb[i]), np.floor(V.ub[i])) if i in V.iv else v
    if len(w) == len(col):
        return np.allclose(col, w)
    # drawn for a selection of the candidates: the drawn values appear in order among the entries
    k = 0
    for c in col:
        if k < len(w) and abs(c - w[k]) < 1e-9:
            k += 1
        elif abs(c - old) > 1e-9:
            return False
    return k == len(w)


def judge_candidates(V, name, a, omit, cand, want_n):
    """(property, what is wrong) of a candidate set, or None"""
    X, fX = V.ev(S("X", "arr2")), V.ev(S("fX", "arr2"))
    xb = V.ev(a["xbest"]) if "xbest" in a and "xbest" not in omit else X[np.argmin(fX)]
    sub = np.arange(V.dim) if "subset" in omit else V.ev(a["subset"])
    if np.ndim(cand) != 2 or cand.shape[1] != V.dim:
        return "A03", "candidates have shape %s" % (np.shape(cand),)
    if len(cand) != want_n:
        return "A03", "%d candidates instead of %d" % (len(cand), want_n)
    o = outside(V, cand)
    if o:
        return "S10", "a candidate has %s" % o
    for i in range(V.dim):
        if i not in sub and np.any(np.abs(cand[:, i] - xb[i]) > 1e-9):
            return "A03", "coordinate %d is not in the subset %s but changed from %s" % (i, list(sub), xb[i])
    kind = "uniform" if name == "candidate_uniform" else "truncnorm.rvs"
    cols = columns_drawn(V, kind)
    for i in sub:
        col = cand[:, i]
        if name != "candidate_dycors" and i not in V.iv and len(col) and np.any(np.abs(col - xb[i]) < 1e-12):
            return "A03", "coordinate %d of the subset is not perturbed in every candidate" % i
        hits = [(pars, v) for pars, v in cols if same_column(V, col, xb[i], i, v)]
        if kind == "uniform":
            if not hits and i in V.iv:
                ints = [(pars, v) for pars, v in columns_drawn(V, "randint") if same_column(V, col, xb[i], i, v) and len(v)]
                ends = [(pars["low"][0], pars["high"][0] - 1) for pars, v in ints if "low" in pars and "high" in pars]
                if ints and len(ends) == len(ints) and not any(np.allclose(e, (np.ceil(V.lb[i]), np.floor(V.ub[i]))) for e in ends):
                    return "A03", "integer coordinate %d is drawn from %s to %s, not from its full range %s to %s" % (i, ends[0][0], ends[0][1], V.lb[i], V.ub[i])
            if not hits:
                continue
            ok = any(all(np.allclose(pars.get(k, np.nan), w) for k, w in (("low", V.lb[i]), ("high", V.ub[i]))) for pars, v in hits)
            if not ok:
                return "A03", "coordinate %d is drawn from [%s, %s], not from its full range" % (i, hits[0][0].get("low"), hits[0][0].get("high"))
            continue
        r = V.ev(a["sampling_radius"])
        sd = r * (V.ub[i] - V.lb[i])
        if i in V.iv:
            sd = max(sd, 1.0)
        if len(col) and not hits and any(len(v) == len(col) and len(v) for _, v in cols):
            continue
        if np.all(np.abs(col - xb[i]) < 1e-9):
            continue  # nothing shows which perturbation belongs to the coordinate
        hits = [(pars, v) for pars, v in hits if len(v)]
        if hits and not any(np.allclose(pars.get("loc", np.nan), xb[i]) for pars, v in hits):
            return "A03", "perturbations of coordinate %d are centered at %s, not at %s" % (i, hits[0][0].get("loc"), xb[i])
        if hits and not any(np.allclose(pars.get("loc", np.nan), xb[i]) and np.allclose(pars.get("scale", np.nan), sd) for pars, v in hits):
            return "A03", "perturbations of coordinate %d have standard deviation %s, not %s" % (i, hits[0][0].get("scale"), sd)
    return None


def sample_candidates(p, seed, n, prob=None, ncand=12):
    for name in SEARCHES:
        for lab, fi, qs, a, omit in candidate_cases(p, name):
            mkv = cand_vals(prob, ncand)
            for k in range(n + ("num_cand" in omit)):
                V = mkv(seed * 1000 + k, None if k < n else 60)
                try:
                    r, q = value_at(V, qs, result=lambda V, q: None)
                    if r is RAISE:
                        yield name, lab, fi, V, a, omit, "raises", None
                        continue
                    calls = find_calls(q.term(), "weighted_distance_merit")
                    if len(calls) != 1:
                        yield name, lab, fi, V, a, omit, "call of the selection not recognised", None
                        continue
                    kw = dict(calls[0].args[1])
                    yield name, lab, fi, V, a, omit, None, (kw, V.ev(kw["cand"]))
                except (Bad, Unknown) as e:
                    yield name, lab, fi, V, a, omit, "%s: %s" % (type(e).__name__, e), None


def rule_A03(p, rep, tier, seed):
    rep.rule = "the candidate set handed to the selection, on arbitrary draws: unchanged outside the subset, drawn around the center with the documented spread, selection probability and number"
    n = 16 if tier == "quick" else 60
    stat, moved = {}, {}
    ends = {}  # (search, kind of coordinate, end of the range) -> [log probability that no candidate lies there, seen, function]
    for name, lab, fi, V, a, omit, why, res in sample_candidates(p, seed, n):
        rep.unit(fi)
        st = stat.setdefault((lab, loc(fi)), [0, None, "", 0])
        if res is None:
            st[2] = why
            if why.startswith("Bad") and "index" in why:
                st[3] += 1
            continue
        kw, cand = res
        b = judge_candidates(V, name, a, omit, cand, 100 * V.dim if "num_cand" in omit else V.ev(a["num_cand"]))
        st[0] += 1
        if b and b[0] == "A03" and st[1] is None:
            st[1] = b[1]
        if name == "candidate_uniform" and not b:
            for i in np.arange(V.dim) if "subset" in omit else V.ev(a["subset"]):
                w = V.ub[i] - V.lb[i]
                for end, at in (("upper", np.floor(V.ub[i]) if i in V.iv else V.ub[i]), ("lower", np.ceil(V.lb[i]) if i in V.iv else V.lb[i])):
                    e = ends.setdefault((name, "an integer" if i in V.iv else "a continuous", end), [0.0, 0, fi])
                    e[0] += len(cand) * np.log1p(-min(.5 / max(w, .5) if i in V.iv else .05, .9))
                    e[1] += int(np.sum(np.abs(cand[:, i] - at) <= (1e-9 if i in V.iv else .05 * w)))
    for (name, kind, end), (lp, seen, fi) in ends.items():
        key = "%s range %s coordinate %s end" % (name, kind, end)
        if seen:
            rep.proven(key, loc(fi), "%d candidates" % seen)
        elif lp < -25:
            rep.refute(key, loc(fi), "no candidate reaches the %s end of the range of %s coordinate" % (end, kind.split()[1]))
        else:
            rep.unknown(key, loc(fi), "too few candidates")
    for (lab, w), (k, bad, why, err) in stat.items():
        if err >= 2 and not bad:
            bad = "no candidates for a valid subset: %s" % why
        if bad:
            rep.refute("%s candidates" % lab, w, bad)
        elif k >= 5:
            rep.proven("%s candidates" % lab, w, "%d candidate sets" % k)
        else:
            rep.unknown("%s candidates" % lab, w, why)
    # ---- selection probability of the coordinates
    for prob in (0.0, 1.0, .35):
        tot = hit = exp = var = allp = aexp = avar = 0
        bad, k, why, fi0 = None, 0, "", None
        for name, lab, fi, V, a, omit, why, res in sample_candidates(p, seed + 7, n if prob in (0.0, 1.0) else 3 * n, prob, 30):
            if name != "candidate_dycors" or set(omit) - {"subset"}:
                continue
            fi0 = fi
            if res is None:
                continue
            cand = res[1]
            sub = np.arange(V.dim) if "subset" in omit else V.ev(a["subset"])
            if set(sub) & set(V.iv) or cand.ndim != 2 or cand.shape[1] != V.dim:
                continue
            xb = V.ev(a["xbest"]) if "xbest" in a and "xbest" not in omit else V.ev(a["X"])[np.argmin(V.ev(a["fX"]))]
            ch = np.abs(cand[:, sub] - xb[sub]) > 1e-12
            k += 1
            if not np.all(ch.any(axis=1)):
                bad = bad or "a candidate has no perturbed coordinate (probability %s, subset %s)" % (prob, list(sub))
            m = len(sub)
            if prob == 0.0 and np.any(ch.sum(axis=1) > 1):
                bad = bad or "a candidate has %d perturbed coordinates for probability 0" % ch.sum(axis=1).max()
            if prob == 1.0 and not ch.all():
                bad = bad or "a coordinate of the subset is not perturbed for probability 1"
            if prob < 1 and m > 1:
                e = prob + (1 - prob) ** m / m
                j = ch.sum(axis=0)
                if len(ch) >= 30 and np.any(j == 0) and (1 - e) ** len(ch) < 1e-5:
                    bad = bad or "coordinate %d of the subset is never perturbed" % sub[int(np.argmin(j))]
            if 0 < prob < 1 and m > 1:
                allp += int(ch.all(axis=1).sum())
                aexp += prob ** m * len(ch)
                avar += prob ** m * (1 - prob ** m) * len(ch)
                tot += ch.size
                hit += int(ch.sum())
                exp += e * ch.size
                var += e * (1 - e) * ch.size
        if fi0 is None:
            rep.unknown("coordinate probability %s" % prob, "", "search not recognised")
            continue
        if not bad and tot and abs(hit - exp) > 7 * var ** .5 + 2:
            bad = "coordinates are perturbed with frequency %.3f instead of %.3f" % (hit / tot, exp / tot)
        if not bad and tot and abs(allp - aexp) > 7 * avar ** .5 + 2:
            bad = "%d candidates have all coordinates of the subset perturbed, %.1f expected of independent choices" % (allp, aexp)
        if bad:
            rep.refute("coordinate probability %s" % prob, loc(fi0), bad)
        elif k >= 5:
            rep.proven("coordinate probability %s" % prob, loc(fi0), "%d candidate sets, %d coordinates" % (k, tot))
        else:
            rep.unknown("coordinate probability %s" % prob, loc(fi0), why)


# ------------------------------------------------------------------ A02
GK = {"num_pts": "int", "X": "arr2", "fX": "arr2", "Xpend": "arr2", "dtol": "num", "surrogate": "obj", "opt_prob": "obj", "kappa": "num",
      "ei_tol": "num", "lcb_target": "num"}


def merged(I, rs, st):
    """one term for the outcomes of a call (paths distinguished by the facts they add)"""
    rs = [(s, v) for s, v in rs if v is not None]
    if not rs:
        return tm.mk("opaque", "raises", I.uniq())
    out = I.term(rs[-1][1], rs[-1][0])
    for s, v in reversed(rs[:-1]):
        new = [f for f in s.order if f not in st.facts]
        out = tm.mk("ite", tm.band(*new), I.term(v, s), out)
    return out


def acquisition(p, name, omit):
    """summary of a genetic acquisition search: the optimiser opaque, its objective evaluated at arbitrary points at every call"""
    fi = p.func(name)
    I = Interp(p, opaque=("GeneticAlgorithm.optimize", "ei_merit", "lcb_merit"))
    I.impure = {"optimize"}
    Y = S("probeY", "arr2")

    def probe(I, b, st, env, node):
        o = b.get("self")
        attrs = dict(st.heap[o.id].attrs) if isinstance(o, Ref) and o.id in st.heap and st.heap[o.id].attrs else {}
        f = attrs.get("function")
        if f is None:
            return [("probe", tm.mk("opaque", "no objective", I.uniq()))]
        s0 = st.clone()
        rs = I.call(f, [Y], {}, s0.clone(), env, node)
        out = [("probe", merged(I, rs, s0))]
        for k in ("nvariables", "lower_boundary", "upper_boundary", "integer_variables", "start"):
            if attrs.get(k) is not None:
                out.append((k, I.term(attrs[k], st)))
        return out
    I.probes = {"optimize": probe}
    a = {n: S(n, GK.get(n, "unk")) for n in fi.params}
    a.update({x: NONE for x in omit if x in a})
    return fi, I, call(I, fi, [], a), a


def acq_vals(name):
    def mkv(s):
        V = Valuation(s)
        k = V.size("X", 1, 4)
        V.hints.update({
            "X": lambda V: V.points(k), "fX": lambda V: np.round(V.np.uniform(-2, 2, (k, 1)), 4), "Xpend": lambda V: V.points(V.size("Xp", 0, 3)),
            "dtol": lambda V: V.rnd.choice([1e-3, .3]), "num_pts": lambda V: V.rnd.randrange(1, 4), "kappa": lambda V: V.rnd.choice([2.0, .5]),
            "ei_tol": lambda V: V.target, "lcb_target": lambda V: V.target,
            "probeY": lambda V: V.points(3) + V.np.uniform(-.2, .2, (3, V.dim))})
        V.calls = {}
        V.target = V.rnd.choice([1e-6, .05, .2, 1.0] if name == "ei_ga" else [-1.0, 0.0, .7, 0.0])
        V.exact = s % 10 == 7  # the values found are equal to the tolerance or target
        V.close = s % 5 == 2  # the values found are close to the tolerance or target

        def it(args):
            d = args[-1]
            return d[2:] if isinstance(d, tuple) and d and d[0] == "draw" else (d,)

        def x_at(V, i):
            x = V.lb + np.array([(row_value(V, [i, j]) + 3) / 6 for j in range(V.dim)]) * (V.ub - V.lb)
            return snap(V, x)

        def f_at(V, i):
            if V.close:
                d = row_value(V, [i, 99]) * V.rnd0 * 1e-3 if not V.exact else 0.0
                return -(max(V.target + d, 0.0)) if name == "ei_ga" else V.target + d
            if name == "ei_ga":
                return float(np.round(-abs(row_value(V, [i, 99])) * V.rnd0, 4))
            return float(np.round(row_value(V, [i, 99]) * V.rnd0, 4))
        V.rnd0 = V.rnd.choice([.01, .1, 1.0])
        V.x_at, V.f_at = x_at, f_at

        def uf(V, t, args):
            if t.op != "pcall":
                return None
            nm = str(t.args[0]).split(".")[-1]
            kw = dict(zip(args[:-1:2], args[1:-1:2])) if len(args) % 2 else None
            if nm == "optimize" and kw is not None:
                i = it(args)
                n = i[-1] if i and isinstance(i[-1], (int, np.integer)) else None
                if n is None:
                    raise Unknown("call of the optimiser outside a loop over the points")
                V.calls[int(n)] = kw
                return (x_at(V, int(n)), f_at(V, int(n)))
            if nm in ("ei_merit", "lcb_merit") and kw is not None:
                return merit_value(V, nm, kw)
            return None
        V.uf = uf
        return V
    return mkv


def merit_value(V, nm, kw):
    """the acquisition of its arguments (arbitrary predictions that depend on the surrogate and the point)"""
    Y = np.asarray(kw["X"], float)
    mu = np.array([[row_value(V, r, [1])] for r in Y])
    sig = np.array([[abs(row_value(V, r, [2])) + .1] for r in Y])
    fX = np.asarray(kw["fX"], float)
    if nm == "ei_merit":
        from scipy.stats import norm
        g = (np.min(fX) - mu) / sig
        r = sig * (g * norm.cdf(g) + norm.pdf(g))
    else:
        r = mu - kw.get("kappa", 2.0) * sig
    if kw.get("dtol", 0) > 0:
        d = np.min(cdist(Y, np.asarray(kw["XX"], float)), axis=1, keepdims=True)
        r = np.where(d < kw["dtol"], 0.0 if nm == "ei_merit" else np.inf, r)
    if getattr(kw.get("surrogate"), "name", None) != "surrogate":
        r = r + 1.0
    return r


def rule_A02(p, rep, tier, seed):
    rep.rule = ("in every acquisition the candidates within the tolerance of evaluated, pending or chosen points get the worst merit; acquisition searches stop exactly "
                "when the best value misses the tolerance or target; the searches and strategies hand on their own data")
    n = 20 if tier == "quick" else 80
    masks(p, rep, seed, 24 if tier == "quick" else 120)
    # ---- selection never takes an inadmissible candidate while an admissible one exists
    fi0 = p.func("weighted_distance_merit")
    rep.unit(fi0)
    for none in (False, True):
        fi, qs, a, I = summary(p, "weighted_distance_merit", WD, args={"Xpend": NONE} if none else None)
        got, bad, why = 0, None, ""
        for k in range(3 * n):
            V = wd_vals(none)(seed * 1000 + k)
            try:
                r, q = value_at(V, qs)
                if r is RAISE:
                    continue
                pts = np.atleast_2d(np.asarray(r[1], float))
                cand, X, dtol, m = (V.ev(a[z]) for z in ("cand", "X", "dtol", "num_pts"))
                XX = X if none else np.vstack((X, V.ev(a["Xpend"])))
            except (Bad, Unknown) as e:
                why = str(e)
                continue
            got += 1
            for i in range(min(m, len(pts))):
                old = np.vstack((XX, pts[:i]))
                adm = np.min(cdist(cand, old), axis=1) >= max(dtol, 1e-12)
                d = np.min(cdist(pts[i:i + 1], old))
                if adm.any() and d < dtol - 1e-12 and bad is None:
                    bad = "point %d is chosen %.4g from %s although %d candidates keep the distance %.4g" % (
                        i, d, "an evaluated, pending or chosen point", int(adm.sum()), dtol)
        key = "selection keeps the distance" + (" (nothing pending)" if none else "")
        if bad:
            rep.refute(key, loc(fi0), bad)
        elif got >= n // 2:
            rep.proven(key, loc(fi0), "%d selections" % got)
        else:
            rep.unknown(key, loc(fi0), why)
    # ---- candidate searches hand on their data
    stat = {}
    for name, lab, fi, V, a, omit, why, res in sample_candidates(p, seed, max(6, n // 2)):
        rep.unit(fi)
        st = stat.setdefault((lab, loc(fi)), [0, None, ""])
        if res is None:
            st[2] = why
            continue
        kw, cand = res
        st[0] += 1
        for k, want in (("X", a["X"]), ("Xpend", a.get("Xpend")), ("dtol", a.get("dtol"))):
            if want is None:
                continue
            if k not in kw:
                st[1] = st[1] or "%s is not handed to the selection" % k
                continue
            try:
                g, w = V.ev(kw[k]), V.ev(want)
            except (Bad, Unknown) as e:
                st[2] = str(e)
                continue
            if k == "Xpend" and (g is None or w is None or np.size(g) == 0 or np.size(w) == 0):
                ok = (g is None or np.size(g) == 0) and (w is None or np.size(w) == 0)
            else:
                ok = same(g, w)
            if not ok:
                st[1] = st[1] or "the selection gets %s = %s instead of %s" % (k, sv(g), sv(w))
    for (lab, w), (k, bad, why) in stat.items():
        if bad:
            rep.refute("%s hands on its data" % lab, w, bad)
        elif k >= 3:
            rep.proven("%s hands on its data" % lab, w, "%d valuations" % k)
        else:
            rep.unknown("%s hands on its data" % lab, w, why)
    for name, tol in (("ei_ga", "ei_tol"), ("lcb_ga", "lcb_target")):
        for omit in ((), ("Xpend",)) + ((("lcb_target",),) if name == "lcb_ga" else ()):
            acquisition_search(p, rep, name, tol, omit, n, seed)
    strategy_data(p, rep, seed)


def acquisition_search(p, rep, name, tol, omit, n, seed, prop="A02"):
    fi, I, qs, a = acquisition(p, name, omit)
    rep.unit(fi)
    lab = name + (" without " + ", ".join(omit) if omit else "")
    bad, why, got, probed, gave = None, "", 0, 0, 0
    mkv = acq_vals(name)
    for k in range(3 * n):
        V = mkv(seed * 1000 + k)
        try:
            r, q = value_at(V, qs)
            if r is RAISE:
                continue
            N, X = V.ev(a["num_pts"]), V.ev(a["X"])
            Xp = np.zeros((0, V.dim)) if "Xpend" in omit else V.ev(a["Xpend"])
            T_ = None if tol in omit else V.ev(a[tol])
            V.probeY = V.ev(S("probeY", "arr2"))
        except (Bad, Unknown) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        got += 1
        fs = [V.f_at(V, i) for i in range(N)]
        stop = [i for i, f in enumerate(fs) if (-f < T_ if name == "ei_ga" else T_ is not None and f > T_)]
        if not V.exact and any(T_ is not None and abs(abs(f) - abs(T_)) < 1e-9 for f in fs):
            continue
        v = r[1]
        if (v is None) != bool(stop):
            bad = bad or "%s although the best value %s %s the %s %s" % (
                "gives up" if v is None else "returns points", [round(f, 4) for f in fs], "misses" if stop else "reaches", tol, T_)
            continue
        gave += v is None
        if v is not None:
            pts = np.atleast_2d(np.asarray(v, float))
            want = np.array([V.x_at(V, i) for i in range(N)])
            if pts.shape != want.shape or not same(pts, want):
                bad = bad or "returns %s, not the %d optimisers found: %s" % (sv(pts), N, sv(want))
        XX = np.vstack((X, Xp))
        for i, kw in sorted(V.calls.items()):
            if i > (stop[0] if stop else N):
                continue
            if isinstance(kw.get("probe"), str) or kw.get("probe") is None:
                why = "objective not evaluated"
                continue
            old = np.vstack([XX] + [V.x_at(V, j)[None, :] for j in range(i)])
            Y = snap(V, V.probeY)
            Y[:, V.iv] = np.clip(Y[:, V.iv], V.lb[V.iv], V.ub[V.iv])
            m = merit_value(V, "ei_merit" if name == "ei_ga" else "lcb_merit",
                            {"X": Y, "fX": V.ev(a["fX"]), "XX": old, "dtol": V.ev(a["dtol"]), "surrogate": V.ev(a["surrogate"]),
                             **({"kappa": V.ev(a["kappa"])} if "kappa" in a else {})})
            if name == "ei_ga":
                m = -m
            probed += 1
            if not same(np.ravel(kw["probe"]), np.ravel(m), 1e-7):
                bad = bad or "the objective of search %d at %s is %s, the acquisition is %s" % (i + 1, sv(Y), sv(np.ravel(kw["probe"])), sv(np.ravel(m)))
    if bad:
        rep.refute("%s search" % lab, loc(fi), bad)
    elif got >= n and probed >= n // 2:
        rep.proven("%s search" % lab, loc(fi), "%d searches, %d objectives, %d given up" % (got, probed, gave))
    else:
        rep.unknown("%s search" % lab, loc(fi), why or "objective not recognised")


def masks(p, rep, seed, n):
    K = {"X": "arr2", "fX": "arr2", "XX": "arr2", "dtol": "num", "kappa": "num", "surrogate": "obj"}
    for name in ("ei_merit", "lcb_merit"):
        fi, qs, a, I = summary(p, name, K)
        rep.unit(fi)
        got, bad, why = 0, None, ""

        def mkv(k, a=a):
            V = Valuation(seed * 1000 + k)
            m = V.size("cand", 1, 5)
            if V.many:
                V.sizes["XX"] = 230
            if k % 5 == 3:
                c = V.sizes["XX"] = V.size("cand")
                Y = np.floor(V.np.uniform(-8, 8, (c, V.dim)))
                dt = V.rnd.choice([.25, .5, 2.0])
                Z = Y.copy()
                Z[0, V.rnd.randrange(V.dim)] += dt
                Z[1:] += 64
                V.hints.update({"X": Y, "XX": Z, "fX": np.round(V.np.uniform(-2, 2, (c, 1)), 4), "dtol": dt, "kappa": lambda V: V.rnd.choice([0.0, 1.0, 2.0])})
                return V
            V.hints.update({"X": lambda V: V.points(m), "XX": lambda V: V.points(V.size("XX", 1, 4)) if not V.many else np.vstack((V.ev(a["X"]) + 1e-3 * (V.ub - V.lb), V.ub + V.points(230 - m) - V.lb + 4)), "fX": lambda V: np.round(V.np.uniform(-2, 2, (V.size("XX", 1, 4), 1)), 4),
                            "dtol": lambda V: V.rnd.choice([0.3, 1.0, 3.0]), "kappa": lambda V: V.rnd.choice([0.0, 1.0, 2.0])})
            return V
        for k in range(n):
            V = mkv(k)
            edge = k % 5 == 3  # a candidate lies at exactly the tolerance from the closest point
            try:
                r, q = value_at(V, qs)
                if r is RAISE:
                    continue
                v = np.ravel(np.asarray(r[1], float))
                d = np.min(cdist(V.ev(a["X"]), V.ev(a["XX"])), axis=1)
                dt = V.ev(a["dtol"])
                if edge:  # the same question with a smaller tolerance
                    V2 = mkv(k)
                    V2.hints["dtol"] = dt / 2
                    r2, q2 = value_at(V2, qs)
                    v2 = np.ravel(np.asarray(r2[1], float))
            except (Bad, Unknown) as e:
                why = str(e)
                continue
            if len(v) != len(d):
                continue
            got += 1
            worst = 0.0 if name == "ei_merit" else np.inf
            near = d < dt - 1e-9
            if np.any(v[near] != worst):
                bad = bad or "a candidate at distance %.4g < %.4g has merit %s" % (d[near][0], dt, v[near][v[near] != worst][0])
            far = d > dt + 1e-9
            if edge and np.any((d == dt) & (v == worst) & (v2 != worst)):
                bad = bad or "a candidate at distance %.4g, not closer than %.4g, has merit %s" % (dt, dt, worst)
            if name == "lcb_merit" and np.any(np.isinf(v[far])):
                bad = bad or "a candidate at distance %.4g >= %.4g has the worst merit" % (d[far][0], dt)
        key = "%s masks close candidates" % name
        if bad:
            rep.refute(key, loc(fi), bad)
        elif got >= n // 2:
            rep.proven(key, loc(fi), "%d valuations" % got)
        else:
            rep.unknown(key, loc(fi), why)


DATA = {"X": ("_X",), "fX": ("_fX",), "Xpend": ("Xpend",), "dtol": ("dtol",)}


def feeds(I, t, names, seen=None):
    """does the value depend on an earlier result of one of the functions (through the values loops carry)?"""
    seen = set() if seen is None else seen
    for x in tm.subterms(t):
        if x.op == "pcall" and str(x.args[0]).split(".")[-1] in names:
            return True
        if x.op in ("lv", "phi") and x not in seen:
            seen.add(x)
            loop = I.loops.get(x.args[0])
            if loop is None:
                continue
            for tag, s in loop.outcomes:
                for k in loop.keys:
                    if I.key_name(k) != x.args[1]:
                        continue
                    v = I.get_key(s, k)
                    if v is None:
                        continue
                    try:
                        v = v if isinstance(v, T) else I.lc_term(v, s) if type(v).__name__ == "LC" else I.term(v, s)
                    except Exception:
                        return None
                    r = feeds(I, v, names, seen)
                    if r or r is None:
                        return r
    return False


def strategy_data(p, rep, seed):
    from . import strat
    for m in strat.models(p):
        n, done = 0, set()
        for s in m.steps:
            for e, depth in strat.search_calls(s):
                if e.name not in SEARCHES + ("ei_ga", "lcb_ga"):
                    continue
                n += 1
                lab = "%s %s" % (m.ci.name, e.name)
                for nm, attrs in DATA.items():
                    got = strat.arg(s.I, s.st, e, None, nm)
                    if got is None or not any(strat.has(m, x) for x in attrs):
                        continue
                    if nm == "dtol" and "dtol" not in {x for x in p.find_method(m.ci, "__init__").params}:
                        continue
                    want = s.before(attrs[0])
                    key = "%s gets %s" % (lab, {"X": "the points of the run", "fX": "the values of the run", "Xpend": "the pending points", "dtol": "the tolerance"}[nm])
                    if (key, got, want) in done:
                        continue
                    done.add((key, got, want))
                    if got is want:
                        rep.proven(key, strat.where(s), tm.show(got)[:100])
                        continue
                    if depth and nm == "Xpend":
                        ok = tm.contains_t(got, want)
                        rep.check(key, strat.where(s), True if ok else None, tm.show(got)[:200])
                        continue

                    def mkval(k):
                        V = Valuation(k)
                        a, b = V.size("_X", 1, 4), V.size("X", 1, 4)
                        V.hints.update({"_X": V.points(a), "X": V.points(a + b), "_fX": V.np.uniform(-2, 2, (a, 1)), "fX": V.np.uniform(-2, 2, (a + b, 1)),
                                        "Xpend": V.points(V.size("Xp", 0, 3)), "dtol": round(V.rnd.uniform(.001, .5), 4), "num_evals": a + b, "batch_size": V.rnd.randrange(1, 5)})
                        pts = V.points(6)
                        V.uf = lambda V, t, args: ("<None>", pts)[V.seed % 2] if t.op == "pcall" and str(t.args[0]).split(".")[-1] in SEARCHES + ("ei_ga", "lcb_ga") else None
                        return V
                    eqf = None
                    if nm == "Xpend":
                        def eqf(a, b):
                            return (a is None or np.size(a) == 0) if np.size(b) == 0 else strat.same_rows(a, b)
                    strat.state_cmp(rep, key, s, got, lambda V, want=want: V.ev(want), mkval, [], n=8, seed=seed, eqf=eqf)
                if depth:
                    deps = [feeds(s.I, t, SEARCHES + ("ei_ga", "lcb_ga")) for t in [strat.arg(s.I, s.st, e, None, x) for x in ("X", "Xpend")] if t is not None]
                    key = ("fellow", lab, tuple(deps))
                    if key not in done:
                        done.add(key)
                        rep.check("%s keeps the distance to the points of its batch" % lab, strat.where(s), True if True in deps else (None if None in deps else False),
                                  "the evaluated and pending points handed to the searches of one batch do not depend on the points already chosen for it")
        if strat.has(m, "evals", "centers"):
            from .adaptive import sop_batches
            worlds, why = sop_batches(m, seed, 10)
            key, bad = "%s: every search of a batch sees all points chosen before" % m.ci.name, None
            for W, s, log in worlds:
                for i, (kw, pt) in enumerate(log):
                    want = [np.ravel(x) for x in [*W.V.hints["Xpend"], *(p for _, p in log[:i])]]
                    seen = [*(kw.get("Xpend") if kw.get("Xpend") is not None else ()), *kw["X"]]
                    miss = [x for x in want if not any(same(np.ravel(y), x) for y in seen)]
                    if miss:
                        bad = bad or (s, "the search for point %d does not see %s, of the pending points %s and the points %s chosen before" % (i + 1, sv(miss[0]), sv(W.V.hints["Xpend"]), sv([p.ravel() for _, p in log[:i]])))
            if bad:
                rep.refute(key, strat.where(bad[0]), bad[1])
            elif len(worlds) >= 3:
                rep.proven(key, m.ci.qual, "%d batches of 4 points" % len(worlds))
            else:
                rep.unknown(key, m.ci.qual, why)
        if not n:
            if m.ci.name != "RandomStrategy":
                rep.unknown("%s search" % m.ci.name, m.ci.qual, "no search call recognised")


def perturbation(d, done, n0, budget):
    """the documented perturbation probability after `done` completed and pending evaluations"""
    low = min(1.0, 1.0 / d)
    p = min(20.0 / d, 1.0) * (1.0 - np.log(done - n0 + 1.0) / np.log(budget - n0))
    return max(p, low)


def reads(t):
    return {str(x.args[0]) for x in tm.subterms(t) if x.op == "sym"}


def rule_A04(p, rep, tier, seed):
    from . import strat
    rep.rule = "prob_perturb == max(min(20/d,1)(1 - ln(n-n0+1)/ln(N-n0)), min(1,1/d)) at every call of the dynamic coordinate search"
    found = 0
    for m in strat.models(p):
        rep.unit(*m.I.visited)
        cons = strat.constructors(m)
        done = set()
        strat.has(m)
        for s in m.steps:
            for e, depth in strat.search_calls(s):
                if e.name not in SEARCHES or "prob_perturb" not in p.func(e.name).params:
                    continue
                found += 1
                key = "%s %s gets the documented perturbation probability" % (m.ci.name, e.name)
                got = strat.arg(s.I, s.st, e, None, "prob_perturb")
                if got is None:
                    if ("none", key) not in done:
                        done.add(("none", key))
                        rep.refute(key, strat.where(s), "%s is called without a perturbation probability" % e.name)
                    continue
                if got in done:
                    continue
                done.add(got)
                # attributes only constructors set (the remembered design size, ...) hold what construction gave them
                fixed = {}
                for a in sorted(m._attrs):
                    b = s.before(a)
                    if a in ("max_evals", "X", "Xpend", "opt_prob", "num_evals", "pending_evals", "batch_queue") or not tm.contains_t(got, b):
                        continue
                    ts = {c.after(a) for c in cons}
                    if len(ts) == 1 and all(x.after(a) is x.before(a) for x in m.steps):
                        fixed[a] = next(iter(ts))

                def mkval(k, fixed=fixed):
                    V = Valuation(k)
                    d = V.dim if k % 3 else V.rnd.choice([1, 25, 40, 90])
                    n0 = V.rnd.randint(2, 6)
                    n, q = n0 + V.rnd.randint(0, 4), V.rnd.randint(0, 3)
                    N = n + q + V.rnd.choice([2, 2, 6, 30])
                    V.hints.update({"X": V.np.uniform(0, 1, (n, d)), "Xpend": V.np.uniform(0, 1, (q, d)), "_X": V.np.uniform(0, 1, (V.rnd.randint(1, n0), d)), "num_evals": n, "pending_evals": q, "max_evals": N, "dim": d,
                                    "batch_queue": [], "exp_design.num_pts": n0, "num_pts": V.rnd.randint(1, 3), "centers": [], "evals": []})
                    V.A04 = (d, n + q, n0, N)
                    for a, t in fixed.items():
                        if a == "extra_points":
                            V.hints[a] = V.np.uniform(0, 1, (V.rnd.randint(1, 3), d)) if k % 2 else None
                        elif not any(x.op == "sym" and x.args[0].split(".")[-1] == a for x in tm.subterms(t)):
                            V.hints[a] = lambda V, t=t: V.ev(t)
                    return V
                known = {"X", "Xpend", "_X", "num_evals", "pending_evals", "max_evals", "dim", "opt_prob", "batch_queue", "num_pts", "exp_design"} | set(fixed)
                fs = [f for f in s.path.facts if {x.split(".")[1] if "." in x else x for x in reads(f)} <= known and not any(x.op in ("lv", "phi", "done", "bv") for x in tm.subterms(f))]
                ok, detail = strat._state_cmp(s, (got,), lambda V: perturbation(*V.A04), mkval, fs, 30, seed, lambda a, b: same(a, b))
                if ok is False and not {x.split(".")[1] if "." in x else x for x in reads(got)} <= known:
                    ok, detail = None, "depends on %s: %s" % (sorted(reads(got)), detail)
                rep.check(key, strat.where(s), ok, detail)
    if not found:
        rep.unknown("perturbation probability", "", "no strategy calls a search with a perturbation probability")
