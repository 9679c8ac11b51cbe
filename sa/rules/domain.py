"""S10: every point produced lies in the domain and is integer where required."""
import numpy as np
from .common import *
from . import strat, search, design
from .search import outside, snap
from ..interp import NONE
from ..valuate import ObjV


def verdict(rep, key, where, got, bad, why, need=5, detail="valuations"):
    if bad:
        rep.refute(key, where, bad)
    elif got >= need:
        rep.proven(key, where, "%d %s" % (got, detail))
    else:
        rep.unknown(key, where, why)


def rule_S10(p, rep, tier, seed):
    rep.rule = ("points produced from points of the domain, arbitrary draws and arbitrary surrogate values lie in the domain and are integer where required: candidate sets and selections, "
                "genetic populations and results, acquisition searches, mapped designs, queues and proposals of the strategies")
    n = 16 if tier == "quick" else 60
    # ---- candidate searches
    stat = {}
    for name, lab, fi, V, a, omit, why, res in search.sample_candidates(p, seed + 11, n):
        rep.unit(fi)
        st = stat.setdefault((lab, loc(fi)), [0, None, ""])
        if res is None:
            st[2] = why
            continue
        cand = np.asarray(res[1], float)
        if cand.ndim != 2 or cand.shape[1] != V.dim:
            continue
        st[0] += 1
        o = outside(V, cand)
        if o:
            st[1] = st[1] or "a candidate has %s (best point %s, bounds %s %s, integer %s)" % (
                o, sv(V.ev(a["xbest"]) if "xbest" in a and "xbest" not in omit else V.ev(a["X"])[np.argmin(V.ev(a["fX"]))]), V.lb, V.ub, list(V.iv))
    for (lab, w), (k, bad, why) in stat.items():
        verdict(rep, "%s candidates" % lab, w, k, bad, why)
    # ---- the selection returns candidates
    fi, qs, a, I = summary(p, "weighted_distance_merit", search.WD)
    rep.unit(fi)
    got, bad, why = 0, None, ""
    for k in range(2 * n):
        V = search.wd_vals(False)(seed * 1000 + k)
        try:
            r, q = value_at(V, qs)
            if r is RAISE:
                continue
            pts, cand = np.atleast_2d(np.asarray(r[1], float)), V.ev(a["cand"])
        except (Bad, Unknown) as e:
            why = str(e)
            continue
        got += 1
        for x in pts:
            if cand.shape[1] != len(x) or not np.any(np.all(np.abs(cand - x) < 1e-9, axis=1)):
                bad = bad or "returns %s, which is not a candidate" % sv(x)
    verdict(rep, "selection returns candidates", loc(fi), got, bad, why)
    # ---- genetic algorithm
    stat = {}
    for s, V, ok, r, q, opt in search.sample_ga(p, tier, seed + 5, starts=[x for x in search.STARTS if x != "something else"]):
        rep.unit(opt)
        st = stat.setdefault((s, loc(opt)), [0, None, ""])
        if ok is None:
            st[2] = r
            continue
        if not ok or r is RAISE:
            continue
        st[0] += 1
        for pop, vals in V.pops:
            o = outside(V, pop)
            if o:
                st[1] = st[1] or "an individual is evaluated with %s" % o
        v = r[1]
        if isinstance(v, (tuple, list)) and len(v) == 2 and np.size(v[0]) == V.dim:
            o = outside(V, np.ravel(v[0])[None, :])
            if o:
                st[1] = st[1] or "the point returned has %s" % o
    for (s, w), (k, bad, why) in stat.items():
        verdict(rep, "genetic algorithm, start %s" % s, w, k, bad, why)
    # ---- acquisition searches
    ci = p.cls("GeneticAlgorithm")
    I0 = Interp(p)
    ref = [q for q in construct(I0, ci, dict(function=S("function", "obj"), dim=S("dim", "int"), lb=S("lb", "arr1"), ub=S("ub", "arr1"), int_var=S("int_var", "arr1"))) if not q.raised]
    for name in ("ei_ga", "lcb_ga"):
        fi, I, qs, a = search.acquisition(p, name, ())
        rep.unit(fi)
        got, bad, why = 0, None, ""
        for k in range(2 * n):
            V = search.acq_vals(name)(seed * 1000 + k)
            try:
                r, q = value_at(V, qs)
                if r is RAISE:
                    continue
                if r[1] is not None:
                    pts = np.atleast_2d(np.asarray(r[1], float))
                    o = outside(V, pts)
                    if o:
                        bad = bad or "returns a point with %s although the optimiser found points of the domain" % o
            except (Bad, Unknown) as e:
                why = str(e)
                continue
            for i, kw in V.calls.items():
                V2 = Valuation(V.seed)
                V2.lb, V2.ub, V2.iv, V2.dim = V.lb, V.ub, V.iv, V.dim
                for attr in ("nvariables", "lower_boundary", "upper_boundary", "integer_variables"):
                    if attr not in kw:
                        continue
                    for q0 in ref:
                        t = q0.attr(q0.v, attr)
                        try:
                            if value_at(V2, [q0], result=lambda V, q: None) is None:
                                continue
                            want = V2.ev(q0.I.term(t, q0.st))
                        except (Bad, Unknown):
                            continue
                        got += 1
                        if not (np.size(want) == 0 and np.size(kw[attr]) == 0 or same(kw[attr], want)):
                            bad = bad or "the optimiser works with %s = %s, the problem has %s" % (attr, sv(kw[attr]), sv(want))
        verdict(rep, "%s domain" % name, loc(fi), got, bad, why)
    # ---- designs
    for name in design.DESIGNS:
        for omit in ((), ("int_var",)):
            got, bad, why, where = 0, None, "", ""
            for V, gp, r, q, w in design.sample_designs(p, name, omit, seed + 2, 2 * n):
                rep.unit(gp)
                where = loc(gp)
                if r is None or r is RAISE:
                    why = w
                    continue
                got += 1
                iv = V.iv
                if omit:
                    V.iv = np.array([], int)
                o = outside(V, r[1])
                V.iv = iv
                if o:
                    bad = bad or "a point of the mapped design has %s" % o
            verdict(rep, "%s mapped%s" % (name, " without " + omit[0] if omit else ""), where, got, bad, why)
    # ---- strategies
    for m in strat.models(p):
        strategy_points(p, rep, m, n, seed)
    random_points(p, rep, n, seed)


def in_domain(k):
    """a strategy state whose points all lie in the domain"""
    V = Valuation(k)

    def pt(m):
        x = np.array(V.points(m), float)
        for bound in (V.lb, V.ub):  # some coordinates lie on the boundary
            x = np.where(V.np.rand(*x.shape) < .2, bound, x)
        return snap(V, x)
    a, b = V.size("_X", 2, 5), V.size("X", 0, 3)
    V.hints.update({
        "_X": pt(a), "X": pt(a + b), "_fX": V.np.uniform(-2, 2, (a, 1)), "fX": V.np.uniform(-2, 2, (a + b, 1)), "Xpend": pt(V.size("Xp", 0, 3)),
        "x": lambda V: pt(1)[0], "params": (pt(1)[0],), "args": (pt(1)[0],), "batch_queue": [x for x in pt(V.size("q", 0, 3))], "extra_points": pt(V.size("ex", 0, 3)), "batch_size": V.rnd.randrange(1, 4),
        "num_cand": 9, "dtol": .01, "ei_tol": .1, "lcb_tol": .1, "lcb_target": .1, "kappa": 2.0, "weights": [.3, .5], "next_weight": 0, "sampling_radius": .2,
        "num_pts": V.rnd.randrange(2, 5), "num_exp": 2, "max_evals": 60, "num_evals": a, "xc": pt(1)[0],
        "new_point": "<None>", "new_index": "<None>", "index": 0, "sigma": .2, "ntabu": 0, "nfail": 0, "rank": 1, "ncenters": 4,
        "fx": lambda V: V.np.uniform(-2, 2),
        "centers": [ObjV("c%d" % i) for i in range(4)], "evals": [ObjV("e%d" % i) for i in range(a)]})
    V.hints["new_point"] = lambda V: pt(1)[0] if V.rnd.random() < .5 else None
    V.hints["new_index"] = lambda V: V.rnd.randrange(a) if V.rnd.random() < .5 else None
    V.hints["extra_vals"] = lambda V: np.where(V.np.rand(V.size("ex", 0, 3), 1) < .5, np.nan, .7)

    def lazy(V, t, kw):
        if str(t.args[0]).split(".")[-1] in search.SEARCHES + ("ei_ga", "lcb_ga"):
            if kw.get("xbest") not in (None, NONE):
                x = np.ravel(V.ev(kw["xbest"]))
                o = outside(V, x[None, :])
                if o and not V.note:
                    V.note = "hands a search the center %s, which has %s" % (sv(x), o)
            return pt(int(V.ev(kw["num_pts"])) if "num_pts" in kw else 1)
        return None
    V.lazy, V.note = lazy, ""

    def uf(V, t, args):
        if t.op == "pcall" and str(t.args[0]).endswith("nd_sorting"):
            return V.np.randint(1, 4, np.shape(args["F"])[1] if isinstance(args, dict) else max(np.shape(x)[-1] for x in args[1:] if np.ndim(x) == 2))
        if t.op == "pcall" and str(t.args[0]).endswith("check_radius_rule"):
            return V.np.randint(0, 2)
        if t.op == "mcall" and t.args[1] == "generate_points":
            return pt(V.ev(S("num_pts", "int")) if True else 1)
        return None
    V.uf = uf
    return V


def strategy_points(p, rep, m, n, seed):
    groups = [("%s queue after %s" % (m.ci.name, strat.name(s) if s in m.answers + m.updates else "propose_action -> %s" % s.result if s in m.steps else "construction"), s)
              for s in m.steps + m.answers + m.updates + strat.constructors(m) if s.result not in ("raise", "other")]
    stat = {}
    for key, s in groups:
        st = stat.setdefault(key, [0, None, "", strat.where(s)])
        if strat.calls(s, "generate_points"):
            ok, why = strat.design_args(s)
            if ok is False:
                st[1] = st[1] or "the design is not mapped to the problem's domain: " + why
            elif ok is None:
                bad = design_domain(s, n, seed)
                st[1] = st[1] or bad and "the design is not mapped to the problem's domain: " + bad
                st[2] = why
        q = strat.qdelta(s) if strat.has(m, "batch_queue") else None
        if q is None:
            st[2] = "queue not understood"
            continue
        terms = [(a, "queues") for a in q.added]
        if s in m.steps and s.result == "eval" and s.x is not None:
            terms.append((("item", strat.xterm(s)), "proposes"))
        if not terms:
            st[0] += 1
            continue
        memo = (m.ci.name, tuple(repr(t) for t, _ in terms))
        if memo in stat:
            k0, b0, w0 = stat[memo][:3]
        else:
            k0, b0, w0 = check_terms(s, terms, n // 2, seed)
            stat[memo] = [k0, b0, w0, None]
        st[0] += 1 if k0 else 0
        st[1] = st[1] or b0
        st[2] = st[2] or (w0 if not k0 else "")
    for key, v in stat.items():
        if isinstance(key, tuple):
            continue
        got, bad, why, w = v
        if bad:
            rep.refute(key, w, bad)
        elif why:
            rep.unknown(key, w, why)
        elif got:
            rep.proven(key, w, "%d transitions" % got)
        else:
            rep.unknown(key, w, "no transition")


def check_terms(s, terms, n, seed):
    got, bad, why = 0, None, ""
    for k in range(n):
        V = in_domain(seed * 1000 + k)
        V.interp = s.path.I
        vals = []
        try:
            for a, verb in terms:
                if a[0] == "item":
                    vals.append((verb, V.ev(a[1])))
                else:
                    vals += [(verb, x) for x in V.ev(mk("list", mk("each", a[1], a[2], a[3])))]
        except (Bad, Unknown) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        got += 1
        if V.note and not refuted_by_facts(V, s, terms):
            bad = bad or V.note
        for verb, x in vals:
            try:
                x = np.ravel(np.asarray(x, float))
            except (TypeError, ValueError):
                why = "not a point: %s" % sv(x)
                got -= 1
                break
            o = outside(V, x[None, :])
            if o:
                if refuted_by_facts(V, s, terms):
                    break
                bad = bad or "%s %s, a point with %s (bounds %s %s, integer %s)" % (verb, sv(x), o, V.lb, V.ub, list(V.iv))
    return got, bad, why


def leaves(t, out=None):
    """the symbols and attributes a term reads"""
    out = set() if out is None else out
    if isinstance(t, tuple):
        for x in t:
            leaves(x, out)
    elif isinstance(t, T):
        if t.op in ("sym", "attr"):
            out.add(tm.show(t))
        else:
            for x in t.args:
                leaves(x, out)
    return out


def refuted_by_facts(V, s, terms):
    """is a path fact that bears on the terms false in this valuation?"""
    seen = set()
    for a, _ in terms:
        leaves(tuple(x for x in a[1:]), seen)
    facts = [(f, leaves(f)) for f in s.path.facts if not free_bvs(f)]
    grown = True
    while grown:
        grown = False
        for f, ls in facts:
            if ls & seen and not ls <= seen:
                seen |= ls
                grown = True
    for f, ls in facts:
        if not ls & seen:
            continue
        try:
            if not V.truth(f):
                return True
        except (Bad, Unknown):
            pass
    return False


def design_domain(s, n, seed):
    """do the arguments of generate_points differ from the problem's domain in some valuation?"""
    gens = strat.calls(s, "generate_points")
    if len(gens) != 1:
        return None
    for k in range(n):
        V = in_domain(seed * 1000 + k)
        V.interp = s.path.I
        for i, (key, want) in enumerate((("lb", V.lb), ("ub", V.ub), ("int_var", V.iv))):
            t = strat.arg(s.I, s.st, gens[0][0], i, key)
            if t is None or t is NONE:
                return "generate_points gets no %s" % key
            try:
                v = V.ev(t)
            except (Bad, Unknown):
                continue
            if np.shape(np.ravel(v)) != np.shape(want) or not np.allclose(np.ravel(np.asarray(v, float)), want):
                return "generate_points gets %s for %s, the problem has %s" % (sv(v), key, sv(want))
    return None


def random_points(p, rep, n, seed):
    ci = p.cls("RandomStrategy")
    init = p.find_method(ci, "__init__")
    rep.unit(init)
    I = Interp(p, opaque=("check_opt_prob", "rput", "put", "get", "empty", "propose_eval"))
    qs = construct(I, ci, dict(zip(init.params[1:], (S("max_evals", "int"), S("opt_prob", "obj")))))
    got, bad, why = 0, None, ""

    def evs(events, V):
        for e in events:
            if e.kind == "loop":
                bv = e.d.get("bv")
                for i in (V.over(bv) if bv is not None else [0]):
                    V.bvs[bv] = i
                    V.ctx = ((None, i),)
                    for g, es in e.d.get("alts", ()):
                        if V.truth(g):
                            yield from evs(es, V)
            elif e.kind in ("mcall", "pcall") and e.name == "propose_eval":
                yield e
    for q in qs:
        if q.raised or q.v is None:
            continue
        for k in range(n):
            V = Valuation(seed * 1000 + k)
            V.hints["max_evals"] = V.rnd.randrange(1, 4)
            V.interp = q.I
            pts = []
            try:
                for e in evs(q.events, V):
                    args = [v for nm, v in e.d["targs"] if nm != "self"] if e.kind == "pcall" else list(e.d["targs"])
                    for x in args[:1]:
                        x = V.ev(x)
                        pts.append(x[0] if isinstance(x, tuple) and len(x) == 1 else x)
            except (Bad, Unknown) as e:
                why = str(e)
                continue
            if not pts:
                why = "no proposals seen"
                continue
            got += 1
            for x in pts:
                o = outside(V, np.ravel(np.asarray(x, float))[None, :])
                if o:
                    bad = bad or "proposes a point with %s: %s" % (o, sv(x))
    verdict(rep, "RandomStrategy points", loc(init), got, bad, why)
