"""S11, S13: the adaptive state of the stochastic RBF strategies and of SOP, compared with its specified transition."""
import itertools
import math
import numpy as np
from .common import *
from . import strat
from .strat import models, where, name, pathdesc, facts, L, all_steps, constructors, has, understood, arg, flatten, calls
from ..terms import T, mk, const, le, lt, eq, add, sub, band, bor, bnot, TRUE, FALSE, ONE, ZERO, NONE
from ..interp import Interp, State, Ref, Ev
from ..valuate import Valuation, same, Bad, Unknown, ObjV, isarr


class Cover:
    """every path of a reply against one reference transition, on valuations drawn from the reachable states

    A valuation selects the paths whose condition it satisfies; on each of them the post-state terms must have the
    values the reference gives.  A condition that cannot be interpreted makes the path undecided."""

    def __init__(self, steps, terms, spec, mkval, n=1200, eqf=None, want=3, pre=None):
        self.steps = steps
        self.hit = {id(s): 0 for s in steps}
        self.bad = {}
        self.soft = {}
        eqf = eqf or (lambda a, b: same(a, b))
        for k in range(n):
            if all(h >= want or id(s) in self.bad for s, h in ((s, self.hit[id(s)]) for s in steps)):
                break
            V = mkval(k)
            cache = {}
            ref = None
            for s in steps:
                if id(s) in self.bad or self.hit[id(s)] >= max(want, 12):
                    continue
                try:
                    for f, v in (pre(s, V) if pre else ()):
                        V.syms[f] = v
                except KeyError:
                    continue
                unk, skip = None, False
                for f in s.path.facts:
                    if f not in cache:
                        try:
                            cache[f] = V.truth(f)
                        except Bad:
                            cache[f] = False
                        except Unknown as e:
                            cache[f] = "?" + str(e)
                    if cache[f] is False:
                        skip = True
                        break
                    if cache[f] is not True:
                        unk = cache[f]
                if skip:
                    continue
                if unk is not None:
                    self.soft[id(s)] = "a condition of the path cannot be interpreted: " + unk[1:200]
                    continue
                try:
                    want_v = spec(V, s)
                    got = tuple(V.ev(t) for t in terms(s))
                except Unknown as e:
                    self.soft[id(s)] = "not interpretable: %s" % e
                    continue
                except Bad as e:
                    self.soft[id(s)] = "no value: %s" % e
                    continue
                self.hit[id(s)] += 1
                if want_v is None:
                    continue
                if not all(eqf(a, b) for a, b in zip(got, want_v)):
                    self.bad[id(s)] = (V, got, want_v)

    def verdict(self, s):
        if id(s) in self.bad:
            V, got, want = self.bad[id(s)]
            return False, got, want, V
        if id(s) in self.soft:
            return None, self.soft[id(s)], None, None
        if self.hit[id(s)] == 0:
            return None, "no reachable valuation satisfies the path", None, None
        return True, self.hit[id(s)], None, None


RADIUS = ("sampling_radius", "status", "failcount", "_fbest")


def radius_state(sync):
    def f(k):
        V = Valuation(k * 7919 + 13)
        r = V.rnd
        ft = r.choice([1, 2, 3, 4])
        mft = 4 * ft
        rmin = 0.2 * 0.5 ** 6
        rad = r.choice([0.2, 0.1, 0.05, 0.15, 0.2 * 0.5 ** 5, 0.2 * 0.5 ** 5 * 1.3, 0.2 * 0.5 ** 4])
        fbest = r.choice([math.inf, round(r.uniform(-3, 3), 3), round(r.uniform(-3, 3), 3)])
        nq = r.randrange(0, 3) if sync else r.choice([0, 0, 0, 1])
        base = 0.0 if math.isinf(fbest) else fbest
        off = lambda: r.choice([r.uniform(-2, 0), r.uniform(0, 2), -5e-4 * abs(base), -2e-3 * abs(base), 0.0])
        V.hints.update({
            "failtol": ft, "maxfailtol": mft, "succtol": 3, "status": r.choice(list(range(-ft + 1, 3))), "failcount": r.choice([0, r.randrange(mft), mft - 1]),
            "sampling_radius": rad, "sampling_radius_min": rmin, "sampling_radius_max": 0.2, "_fbest": fbest, "fbest": fbest,
            "record_queue": [ObjV("q%d" % i) for i in range(nq)], "fx": base + off(), "converged": False,
            "asynchronous": not sync, "pending_evals": r.choice([1, 1, 2, 3]), "batch_queue": r.choice([[], [], [ObjV("b")]])})
        for i in range(nq):
            V.hints["q%d.value" % i] = base + off()
        nx = r.randrange(2, 7)
        last = r.randrange(nx)
        for a, v in (("ev_id", r.randrange(nx)), ("ev_last", last), ("ev_restart", r.randrange(last + 1)), ("ev_next", nx)):
            V.hints.setdefault(a, v)
        V.nq = nq
        return V
    return f


def radius_spec(V):
    """one step of the stochastic RBF radius control"""
    h = V.hints
    vals = [h["q%d.value" % i] for i in range(V.nq)] + [h["fx"]]
    new, fb, st, fc, rad, conv = min(vals), h["_fbest"], h["status"], h["failcount"], h["sampling_radius"], False
    if math.isinf(fb) or new < fb - 1e-3 * abs(fb):
        fb, st, fc = new, max(1, st + 1), 0
    else:
        st, fc = min(-1, st - 1), fc + 1
    if st <= -h["failtol"]:
        st, rad = 0, rad / 2
    elif st >= 3:
        st, rad = 0, min(2 * rad, 0.2)
    if fc >= h["maxfailtol"] or rad <= h["sampling_radius_min"]:
        conv = True
    return rad, st, fc, fb, conv


def rule_S11(p, rep, tier, seed):
    rep.rule = ("every path of a completed adaptive evaluation either leaves radius, counters and best value alone or is one specified success/failure "
                "step on the values collected since the last step; post-state terms compared with the reference step on valuations covering all paths")
    found = False
    for m in models(p):
        if not has(m, *RADIUS):
            continue
        found = True
        rep.unit(*m.I.visited)
        understood(rep, m, "S11")
        ph = strat.phases_of(m)
        for key in m.kinds_of_proposal:
            comp = [u for u in m.updates if u.phase == key and u.what == "completed" and u.result == "ok"]
            acc = [a for a in m.answers if a.phase == key and a.what == "accepted" and a.result == "ok"]
            radius_steps(rep, m, key, comp, acc, seed)
        # nothing but a completed evaluation or a restart moves the radius
        for s in all_steps(m):
            if s.result == "raise" or s.what == "completed" or strat.is_restart(s):
                continue
            for a in RADIUS:
                t = s.after(a)
                if t is s.before(a):
                    rep.proven("%s keeps %s" % (name(s), a), where(s))
                else:
                    ok, why = L.entails(facts(s), eq(t, s.before(a)))
                    rep.check("%s keeps %s" % (name(s), a), where(s), ok if ok is True else (False if not s.what == "propose_action" else None), "%s becomes %s %s" % (a, tm.show(t)[:120], pathdesc(s)))
        for s in constructors(m):
            radius_limits(rep, m, s)
    if not found:
        rep.unknown("radius control", "", "no strategy with a sampling radius, counters and best value recognised by name")


def radius_limits(rep, m, s):
    want = {"succtol": 3, "sampling_radius": 0.2, "sampling_radius_max": 0.2, "status": 0, "failcount": 0, "_fbest": math.inf, "converged": False}
    for a, w in want.items():
        if not has(m, a):
            continue
        try:
            v = Valuation(3).ev(s.after(a))
            rep.check("%s starts with %s" % (m.ci.name, a), where(s), same(v, w), "%s = %s" % (a, sv(v)))
        except (Bad, Unknown) as e:
            rep.unknown("%s starts with %s" % (m.ci.name, a), where(s), e)
    if has(m, "sampling_radius_min"):
        try:
            v = Valuation(3).ev(s.after("sampling_radius_min"))
            rep.check("%s minimum radius below the initial one" % m.ci.name, where(s), bool(0 < v < 0.2), "sampling_radius_min = %s" % sv(v))
        except (Bad, Unknown) as e:
            rep.unknown("%s minimum radius" % m.ci.name, where(s), e)
    if has(m, "failtol", "maxfailtol"):
        key = "%s tolerates max(d, 4) failures per batch size, at most four times that in total" % m.ci.name
        n = 0
        for k in range(120):
            V = Valuation(k, dim=(1, 2, 3, 4, 5, 6, 30, 9, 10, 120)[k % 10])
            V.hints.update({"dim": V.dim, "batch_size": 1 + k // 10 % 6, "asynchronous": V.rnd.random() < .5})
            V.hints["opt_prob.dim"] = V.dim
            try:
                if not all(agrees(V, f) for f in s.path.facts):
                    continue
                ft, mft = V.ev(s.after("failtol")), V.ev(s.after("maxfailtol"))
            except (Bad, Unknown) as e:
                rep.unknown(key, where(s), e)
                break
            b = 1 if V.hints["asynchronous"] else V.hints["batch_size"]
            w = max(math.ceil(V.dim / b), math.ceil(4 / b))
            n += 1
            if not (same(ft, w) and same(mft, 4 * w)):
                rep.refute(key, where(s), "failtol = %s, maxfailtol = %s for dimension %d, %s" % (sv(ft), sv(mft), V.dim, "asynchronous" if V.hints["asynchronous"] else "batches of %d" % b))
                break
        else:
            if n >= 8:
                rep.proven(key, where(s))


def agrees(V, f):
    """interpretable conditions hold"""
    try:
        return V.truth(f)
    except (Bad, Unknown):
        return True


def radius_steps(rep, m, key, comp, acc, seed):
    if not comp:
        return
    attrs = ("sampling_radius", "status", "failcount", "_fbest", "converged")
    idle, active = [], []
    for u in comp:
        (active if any(u.after(a) is not u.before(a) for a in attrs) else idle).append(u)
    lab = "%s completed (%s)" % (m.ci.name, strat.phase_name(key))
    rq = has(m, "record_queue")
    if not active:
        # the initial phase: the radius does not react (its record is not compared with anything)
        if "adapt" in strat.phase_name(key):
            rep.check("%s adjusts the radius" % lab, where(comp[0]), False if acc else None, "no path of a completed adaptive evaluation changes radius, counters or best value")
        for u in comp:
            rep.proven("%s leaves the radius alone" % lab, where(u))
        return
    if not rq:
        rep.unknown("%s step" % lab, where(active[0]), "the queue of processed records is not found by name")
        return
    for sync in (False, True):
        mode = "synchronous" if sync else "asynchronous"
        us = [u for u in active if L.entails(list(u.path.facts) + [u.before("asynchronous") if not sync else bnot(u.before("asynchronous"))], FALSE)[0] is not True]
        mkv0 = radius_state(sync)

        def mkv(k, us=us):
            V = mkv0(k)
            for u in us:
                V.hints["obj#%s.value" % u.rec.id] = V.hints["fx"]
            return V
        C = Cover(us, lambda s: tuple(s.after(a) for a in attrs) + (s.after("record_queue"),), lambda V, s: radius_spec(V) + ([],), mkv, n=2500 if len(us) > 10 else 1200)
        for u in us:
            ok, got, want, V = C.verdict(u)
            det = ""
            if ok is False:
                det = "(radius, status, failures, best, converged, queue) becomes %s, specified %s for %s %s" % (sv(got), sv(want), {k: V.hints[k] for k in ("sampling_radius", "status", "failcount", "_fbest", "failtol", "fx")}, pathdesc(u))
            elif ok is None:
                det = str(got) + " " + pathdesc(u)
                if got == "no reachable valuation satisfies the path":
                    continue
            rep.check("%s %s radius step" % (lab, mode), where(u), ok, det)
            if sync:
                g = band(le(strat.length(u.before("batch_queue")), ZERO), eq(sub(u.before("pending_evals"), ONE), ZERO))
                ok, why = L.entails(facts(u) + [bnot(u.before("asynchronous"))], g)
                rep.check("%s synchronous step waits for the whole batch" % lab, where(u), ok, strat.counter(ok, why, u))
    # a completed evaluation accepted since the last step is counted
    M = strat.Markers(m, strat.marker_attrs(m, key))
    stale(rep, m, M, lab, active, acc)
    for u in idle:
        tf = strat.tag_facts(u, M)
        for a in acc:
            base = [eq(mk("sym", "tag." + k, "int"), t) for k, t in a.tags.items() if any(tm.contains_t(f, mk("sym", "tag." + k, "int")) for f in tf)]
            cs = base + M.facts("self1") + M.facts("self2") + [eq(m.sym("self2", x), a.after(x)) for x in M.attrs]
            fresh = M.lg.sat(cs + tf)
            if fresh is None:
                rep.proven("%s skips only evaluations from before the last step" % lab, where(u))
                continue
            # fresh but not processed: must be a synchronous batch that is not complete, and the record is kept
            g = bor(lt(ZERO, strat.length(u.before("batch_queue"))), bnot(eq(sub(u.before("pending_evals"), ONE), ZERO)))
            ok, why = L.entails(facts(u), band(bnot(u.before("asynchronous")), g))
            if ok is not True:
                # contradiction between the marker conditions and the rest is possible only through tags
                rep.check("%s every evaluation of the current step is counted" % lab, where(u), ok, "skipped although accepted since the last step: " + strat.counter(ok, why, u))
                continue
            rep.proven("%s every evaluation of the current step is counted" % lab, where(u))
            mkv0 = radius_state(True)

            def mkv(k, u=u):
                V = mkv0(k)
                V.hints["obj#%s.value" % u.rec.id] = V.hints["fx"]
                return V
            C = Cover([u], lambda s: (s.after("record_queue"),), lambda V, s: (V.hints["record_queue"] + [ObjV("obj#%s" % s.rec.id)],), mkv, n=300)
            ok, got, want, V = C.verdict(u)
            rep.check("%s keeps the record for the step of its batch" % lab, where(u), ok, "queue %s, specified %s %s" % (got, want, pathdesc(u)) if ok is not True else "")


def stale(rep, m, M, lab, active, acc):
    """an evaluation accepted before the radius last changed takes no part in a later step"""
    changes = {}
    for r in active:
        t = r.after("sampling_radius")
        if t is r.before("sampling_radius") or t.op in ("ite", "phi", "lv") or r.after("_fbest").op in ("ite", "phi"):
            continue
        post = tuple(sorted((x, r.after(x)) for x in M.attrs))
        changes.setdefault(tuple(t for _, t in post), r)
    for r in all_steps(m):
        if r.result != "raise" and strat.is_restart(r):
            post = tuple(sorted((x, r.after(x)) for x in M.attrs))
            changes.setdefault(("restart",) + tuple(t for _, t in post), r)
    if not changes:
        rep.unknown("%s counts only evaluations accepted after the last change of the radius" % lab, where(active[0]), "no transition that certainly changes the radius")
        return
    trusted = all(M.mono[x] for x in M.attrs)
    seen = {}
    for u in active:
        tf = strat.tag_facts(u, M)
        for a in acc:
            tags = [eq(mk("sym", "tag." + k, "int"), t) for k, t in a.tags.items() if any(tm.contains_t(f, mk("sym", "tag." + k, "int")) for f in tf)]
            for r in changes.values():
                key = (tuple(tf), tuple(tags), tuple(r.after(x) for x in M.attrs))
                if key not in seen:
                    ren = {m.sym(r.pre, x): m.sym("self3", x) for x in M.attrs}
                    cs = tags + M.facts("self1") + M.facts("self2") + M.facts("self3")
                    for x in M.attrs:
                        if M.mono[x]:
                            cs += [le(a.after(x), m.sym("self3", x)), le(tm.subst(r.after(x), ren), m.sym("self2", x))]
                    seen[key] = M.lg.sat(cs + tf)
                w = seen[key]
                what = "a restart began" if strat.is_restart(r) else "the radius changed"
                rep.check("%s counts only evaluations accepted after the last change of the radius" % lab, where(u), True if w is None else (False if trusted else None),
                          "" if w is None else "possible although %s after it was accepted: %s %s" % (what, strat.show_val_logic(w), pathdesc(u)))


# ------------------------------------------------------------------ S13
def record_methods(p):
    """method -> ({field: term over SELF.field and parameters}, params) for straight-line methods of helper records"""
    out = {}
    for c in p.classes():
        if c.module.name.split(".")[-1] != "sop_strategy":
            continue
        for nm, fi in c.methods.items():
            if nm.startswith("__"):
                continue
            out.setdefault(nm, []).append((c, fi))
    return out


def rec_summary(p, c, fi):
    I = Interp(p)
    st = State()
    me = symobj(I, st, c, "rec")
    args = [S(x, "num") for x in fi.params[1:]]
    try:
        qs = [q for q in call(I, fi, [me] + args, st=st, recv=me)]
    except Exception:
        return None
    return I, me, qs


class SopWorld:
    """one valuation of a SOP strategy: archive records, centers, bookkeeping"""

    def __init__(self, k, sync):
        V = self.V = Valuation(k * 6007 + 5)
        r = V.rnd
        self.sync = sync
        n = self.n = r.randint(2, 5)
        nc = self.nc = r.randint(1, 4)
        self.pts = V.points(n + nc + 2)
        self.sr = 0.2
        self.recs = ["e%d" % i for i in range(n)]
        self.cens = ["c%d" % i for i in range(nc)]
        V.hints.update({"evals": [ObjV(e) for e in self.recs], "centers": [ObjV(c) for c in self.cens], "num_evals": n, "sampling_radius": self.sr,
                        "asynchronous": not sync, "ncenters": 4, "num_exp": 1, "max_evals": 50,
                        "pending_evals": r.choice([1, 1, 2]), "batch_queue": r.choice([[], [], [ObjV("b")]]), "fx": round(r.uniform(-3, 3), 3)})
        for i, e in enumerate(self.recs):
            tabu = r.choice([0, 0, 1, 4, 5])
            self.F(e, nfail=r.choice([0, 1, 2, 3, 3]), ntabu=tabu, sigma=r.choice([.2, .1, .05]), x=self.pts[i], fx=round(r.uniform(-3, 3), 3), rank=r.choice([1, 1, 2, 3]))
        finished = r.random() < .5
        for j, c in enumerate(self.cens):
            idx = r.randrange(n)
            done = finished and r.random() < .5
            self.F(c, index=idx, xc=self.pts[idx], new_point=self.pts[n + j], new_index=r.randrange(n) if done else None)
        own = r.randrange(nc + 1) if r.random() < .3 else r.randrange(nc)
        cand = [j for j in range(nc) if self.V.ufs[("attr", self.cens[j], "new_index")] is None]
        self.own = own if own in cand else None
        V.hints["x"] = self.pts[n + own] if own in cand else self.pts[n + nc + 1]
        for j, c in enumerate(self.cens):
            if j not in cand and r.random() < .5:
                self.F(c, new_point=V.hints["x"])  # the same point was also generated by a center that is finished
        V.hints["Xpend"] = np.vstack([V.hints["x"]] + list(V.points(V.hints["pending_evals"] - 1)))
        V.hints["ev_id"], V.hints["ev_last"], V.hints["ev_restart"], V.hints["ev_next"] = 4, 1, 0, 5
        self.ranks = [r.choice([1, 1, 2, 3]) for _ in range(n + 1)]
        self.sorted_arg = None
        V.uf = self.uf

    def uf(self, V, t, args):
        if t.op == "pcall" and str(t.args[0]).endswith("nd_sorting"):
            self.sorted_arg = [a for a in args if isarr(a) and a.ndim == 2]
            return np.array(self.ranks, float)
        return None

    def objectives(self):
        """function values and (negated) distances to the nearest other evaluated point in the unit cube"""
        x = np.array([self.get(e, "x") for e in self.recs], float)
        u = (x - self.V.lb) / (self.V.ub - self.V.lb)
        d = np.linalg.norm(u[:, None, :] - u[None, :, :], axis=2)
        np.fill_diagonal(d, np.inf)
        return np.array([[float(self.get(e, "fx")) for e in self.recs], -d.min(axis=1)])

    FIELDS = {"_nfail": "nfail", "_ntabu": "ntabu", "_sigma": "sigma", "_new_point": "new_point", "_new_index": "new_index"}

    def F(self, obj, **kw):
        for k, v in kw.items():
            self.V.ufs[("attr", obj, k)] = v
            for a, b in self.FIELDS.items():
                if b == k:
                    self.V.ufs[("attr", obj, a)] = v
        self.V.memo.clear()

    def get(self, obj, k):
        return self.V.ufs.get(("attr", obj, self.FIELDS.get(k, k)))

    def state(self):
        return [tuple(self.get(e, k) for k in ("nfail", "ntabu", "sigma")) for e in self.recs] + [self.get(c, "new_index") for c in self.cens]

    def set(self, obj, k, v):
        self.F(obj, **{self.FIELDS.get(k, k): v})


class NoEffect(Exception):
    pass


class Infeasible(Exception):
    pass


def replay(W, s, events, summ, newrec):
    """apply the summarised effects to the world"""
    V = W.V
    for e in events:
        if e.kind == "loop":
            bv = e.d.get("bv")
            alts = e.d.get("alts", ())
            if not any(relevant(es, summ, W) for g, es in alts):
                continue
            if bv is None or e.d.get("partial") is True:
                raise NoEffect("effects in a loop that is left early")
            old = V.bvs.get(bv)
            for i in V.over(bv):
                V.bvs[bv] = i
                todo = [es for g, es in alts if V.truth(g)]
                for es in todo:
                    replay(W, s, es, summ, newrec)
            if old is None:
                V.bvs.pop(bv, None)
            else:
                V.bvs[bv] = old
        elif e.kind == "assume":
            if V.truth(e.d["fact"]) != e.d["value"]:
                raise Infeasible()
        elif e.kind == "tsetattr":
            o = V.ev(e.d["obj"])
            v = e.d["value"]
            if e.d["name"] == "rank":
                W.F(name_of(o), rank=V.ev(v if isinstance(v, T) else s.I.term(v, s.st)))
                continue
            W.set(name_of(o), e.d["name"], V.ev(v if isinstance(v, T) else s.I.term(v, s.st)))
        elif e.kind == "mcall" and e.name in summ:
            o = V.ev(e.d["rterm"])
            if not isinstance(o, ObjV) or o.name not in W.recs + W.cens:
                continue
            c, fi = summ[e.name][0]
            I, me, qs = summ[e.name][1]
            ups = None
            obj = name_of(o)
            for q in qs:
                env = dict(zip(fi.params[1:], [V.ev(a) for a in e.d["targs"]]))
                ok = True
                vals = {}
                for f in q.facts:
                    ok = ok and bool(field_ev(W, obj, env, f))
                if not ok:
                    continue
                ups = {a: field_ev(W, obj, env, I.term(v, q.st)) for a, v in q.st.heap[me.id].attrs.items()}
                break
            if ups is None:
                raise NoEffect("method %s has no applicable path" % e.name)
            for a, v in ups.items():
                W.set(obj, a, v)
        elif e.kind == "setattr":
            o = e.d["obj"]
            if getattr(W, "archive", None) is not None and isinstance(o, Ref) and o.id == s.me.id and e.d["name"] == "F_ranked":
                v = e.d["value"]
                W.archive = V.ev(v if isinstance(v, T) else s.I.term(v, s.st))
            if newrec and isinstance(o, Ref) and "obj#%s" % o.id in newrec:
                v = e.d["value"]
                W.set("obj#%s" % o.id, e.d["name"], V.ev(v if isinstance(v, T) else s.I.term(v, s.st)))


def relevant(es, summ, W=None):
    for e in es:
        if e.kind == "tsetattr" or e.kind == "mcall" and e.name in summ:
            return True
        if e.kind == "loop" and any(relevant(x, summ, W) for g, x in e.d.get("alts", ())):
            return True
    return False


def name_of(o):
    if not isinstance(o, ObjV):
        raise NoEffect("object expected")
    return o.name


def field_ev(W, obj, env, t):
    V2 = Valuation(1)
    V2.hints = dict(env)
    sub_ = {}
    for x in tm.subterms(t):
        if x.op == "sym" and x.args[0].startswith("rec."):
            sub_[x] = W.get(obj, x.args[0][4:])
    for x, v in sub_.items():
        V2.syms[x] = v
    return V2.ev(t)


def sop_reference(W, processed):
    """specified archive and centers after a completed adaptive evaluation"""
    recs = [dict(nfail=W.get(e, "nfail"), ntabu=W.get(e, "ntabu"), sigma=W.get(e, "sigma")) for e in W.recs] + [dict(nfail=0, ntabu=0, sigma=W.sr)]
    cens = [dict(index=W.get(c, "index"), new_index=W.get(c, "new_index")) for c in W.cens]
    own = W.own
    if own is not None:
        cens[own]["new_index"] = W.n
    if processed:
        ind = ([] if own is None else [own]) if not W.sync else [i for i, c in enumerate(cens) if c["new_index"] is not None]
        for i in ind:
            if W.ranks[cens[i]["new_index"]] != 1:
                r = recs[cens[i]["index"]]
                r["nfail"] += 1
                r["sigma"] /= 2
        for r in recs:
            if r["ntabu"] > 0:
                if r["ntabu"] < 5:
                    r["ntabu"] += 1
                else:
                    r.update(nfail=0, ntabu=0, sigma=W.sr)
        for i in ind:
            r = recs[cens[i]["index"]]
            if r["nfail"] > 3:
                r.update(nfail=0, ntabu=1, sigma=W.sr)
    return [(r["nfail"], r["ntabu"], r["sigma"]) for r in recs] + [c["new_index"] for c in cens]


def rule_S13(p, rep, tier, seed):
    rep.rule = ("effects of a completed SOP evaluation on archive records and centers (summaries of loops and record methods, replayed over an abstract heap) equal the "
                "specified memory update; generation uses a free center's own point and radius and credits that center; other replies leave busy centers alone")
    found = False
    for m in models(p):
        if not (has(m, "evals", "centers") and has(m, "ncenters")):
            continue
        found = True
        rep.unit(*m.I.visited)
        understood(rep, m, "S13")
        summ = memory_summaries(p, m)
        late = False
        for key in m.kinds_of_proposal:
            comp = [u for u in m.updates if u.phase == key and u.what == "completed" and u.result == "ok"]
            if "adapt" in strat.phase_name(key):
                sop_memory(rep, m, key, comp, summ)
        for u in m.updates + m.answers:
            if u.result != "ok" or u.what == "completed":
                continue
            bad = [e for e, d in flatten(u.st.events) if e.kind == "mcall" and e.name in summ and any(a in ("_nfail", "_ntabu", "_sigma") for q in summ[e.name][1][2] for a in q.st.heap[summ[e.name][1][1].id].attrs)]
            if bad and u.what in ("killed", "cancelled") and L.entails(facts(u), bnot(u.before("asynchronous")))[0] is True and L.entails(facts(u), eq(u.after("pending_evals"), ZERO))[0] is True:
                late = True  # the batch ends with the aborted evaluation
                rep.unknown("%s leaves the center memory alone" % name(u), where(u), "calls %s at the end of a batch" % [e.name for e in bad])
                continue
            rep.check("%s leaves the center memory alone" % name(u), where(u), not bad, "calls %s" % [e.name for e in bad])
        sop_generation(rep, m, summ)
        sop_release(rep, m, summ)
        if not late:
            sop_unfinished(rep, m, summ)
    if not found:
        rep.unknown("SOP", "", "no strategy with an archive and centers recognised by name")


def sop_world(k, sync, new):
    W = SopWorld(k, sync)
    W.recs = W.recs + ["obj#%s" % new]
    W.F(W.recs[-1], nfail=0, ntabu=0, sigma=W.sr, x=W.V.hints["x"], fx=W.V.hints["fx"], rank=math.inf)
    return W


def sop_memory(rep, m, key, comp, summ):
    lab = "%s completed (%s)" % (m.ci.name, strat.phase_name(key))
    stat = {id(u): [0, None, None] for u in comp}
    for k in range(200):
        if all(v[0] >= 6 or v[1] is not None or v[2] is not None for v in stat.values()):
            break
        for sync in (False, True):
            for u in comp:
                st = stat[id(u)]
                if st[1] is not None or st[2] is not None:
                    continue
                new = list(heap_new(u, "evals"))
                if len(new) != 1:
                    st[2] = "not a record of this run" if not new and not relevant(u.st.events, summ) else "the archive does not get one new record"
                    continue
                V = sop_world(k, sync, new[0]).V
                fb = sorted({b for f in u.path.facts for b in free_bvs(f)}, key=lambda b: b.id)
                try:
                    doms = [list(V.over(b)) for b in fb]
                except (Bad, Unknown) as e:
                    st[2] = str(e)
                    continue
                for asg in itertools.product(*doms):
                    W = sop_world(k, sync, new[0])
                    V = W.V
                    for b, i in zip(fb, asg):
                        V.bvs[b] = i
                    r = sop_try(V, u)
                    if isinstance(r, str):
                        st[2] = r
                        break
                    if not r:
                        continue
                    h = V.hints
                    proc = (not sync) or (not h["batch_queue"] and h["pending_evals"] == 1)
                    W.recs = W.recs[:-1]
                    want = sop_reference(W, proc)
                    W.recs = W.recs + ["obj#%s" % new[0]]
                    try:
                        replay(W, u, u.st.events, summ, W.recs[-1:])
                        got = W.state()
                    except Infeasible:
                        continue
                    except (NoEffect, Unknown, Bad) as e:
                        st[2] = str(e)
                        break
                    st[0] += 1
                    sa = W.sorted_arg
                    if proc and sa and len(sa) == 1 and sa[0].shape[0] == 2 and not same(sa[0], W.objectives()):
                        st[1] = "fronts are those of the objectives %s, specified (values and negated distances) %s; %s" % (sa[0].tolist(), W.objectives().tolist(), pathdesc(u))
                    elif not all(same(a, b) if not isinstance(a, tuple) else all(same(x, y) for x, y in zip(a, b)) for a, b in zip(got, want)) or len(got) != len(want):
                        st[1] = "records (failures, tabu, radius) and centers become %s, specified %s; ranks %s, own center %s, %s %s" % (
                            got, want, W.ranks, W.own, "synchronous" if sync else "asynchronous", pathdesc(u))
                    break
    for u in comp:
        n, bad, unk = stat[id(u)]
        if unk == "not a record of this run":
            continue
        rep.check("%s updates the memory as specified" % lab, where(u), False if bad else (None if unk or n == 0 else True), bad or unk or "agrees on %d abstract states" % n)


def memory_events(events, mem):
    """the effects on the memory of the archive records"""
    out = []
    for e in events:
        if e.kind == "loop":
            alts = tuple((g, memory_events(es, mem)) for g, es in e.d.get("alts", ()))
            if any(es for g, es in alts):
                out.append(Ev(e.kind, e.loc, **dict(e.d, alts=alts)))
        elif e.kind == "mcall" and e.name in mem or e.kind == "tsetattr" and e.d["name"] in ("_nfail", "_ntabu", "_sigma", "rank"):
            out.append(e)
    return out


LATER = ("setitem", "forset", "red", "phi", "done", "full", "lv")


def sop_unfinished(rep, m, summ):
    """a synchronous batch that ended with an aborted evaluation: the completed ones count before the next batch is made"""
    gen = m.p.find_method(m.ci, "generate_evals")
    lab = "%s batch that ends with an aborted evaluation" % m.ci.name
    mem = {n for n, (c, q) in summ.items() if any(a in ("_nfail", "_ntabu", "_sigma") for x in q[2] for a in x.st.heap[q[1].id].attrs)}
    try:
        steps = [s for s in m.single("generate_evals", [S("num_pts", "int")]) if not s.path.raised]
    except Exception as e:
        rep.unknown(lab, loc(gen), "%s: %s" % (type(e).__name__, e))
        return
    got, bad, why = 0, None, ""
    for k in range(120):
        if got >= 12 or bad:
            break
        for s in steps:
            W = SopWorld(k, True)
            done = [c for c in W.cens if W.get(c, "new_index") is not None]
            if not done or len(done) == len(W.cens) and len(W.cens) == 4:
                break
            n, V, W.ranks = W.n, W.V, W.ranks[:W.n]
            W.own = None
            old = n - min(n - 1, len(done))
            V.hints.update(F_ranked=V.np.uniform(0, 1, (old, V.dim + 5)), num_pts=4, Xpend=np.empty((0, V.dim)), pending_evals=0, batch_queue=[], converged=False)
            try:
                if not all(V.truth(f) for f in s.path.facts if not tm.contains(f, lambda x: x.op in LATER)):
                    continue
                recs = [tuple(W.get(e, a) for a in ("nfail", "ntabu", "sigma")) for e in W.recs]
                want = sop_reference(W, True)[:n]
                replay(W, s, memory_events(s.st.events, mem), summ, [])
                have = W.state()[:n]
            except Infeasible:
                continue
            except (NoEffect, Unknown, Bad) as e:
                why = "%s: %s" % (type(e).__name__, e)
                continue
            got += 1
            if not all(same(x, y) for a, b in zip(have, want) for x, y in zip(a, b)):
                bad = "records (failures, tabu, radius) %s become %s before the next batch, specified %s; finished centers of %s, ranks of their points %s %s" % (
                    recs, have, want, [W.get(c, "index") for c in done], [W.ranks[W.get(c, "new_index")] for c in done], pathdesc(s))
            break
    if bad:
        rep.refute(lab, loc(gen), bad[:1500])
    elif got >= 5:
        rep.proven(lab, loc(gen), "agrees on %d abstract states" % got)
    else:
        rep.unknown(lab, loc(gen), why)


MEMORY = ("nfail", "ntabu", "sigma", "_nfail", "_ntabu", "_sigma", "new_index", "_new_index", "rank")


def sop_try(V, u):
    V.interp = u.path.I
    V.loop_memo.clear()
    for f in u.path.facts:
        if tm.contains(f, lambda x: x.op == "attr" and x.args[1] in MEMORY):
            continue  # decided in event order by replay
        try:
            if not V.truth(f):
                return False
        except Bad:
            return False
        except Unknown as e:
            return "condition not interpretable: %s" % e
    return True


def heap_new(u, attr):
    lc = u.queue(attr)
    out = []
    for sg in lc or ():
        if sg[0] == "item" and isinstance(sg[1], Ref):
            out.append(sg[1].id)
    return out


def sop_generation(rep, m, summ):
    n = 0
    for s in m.steps:
        if s.result in ("raise", "other"):
            continue
        lab = "%s generation" % m.ci.name
        evs = list(guarded(s.st.events))
        gen = [(i, e) for i, (g, e) in enumerate(evs) if e.kind == "pcall" and e.name == "candidate_dycors"]
        sets = [(i, g, e) for i, (g, e) in enumerate(evs) if e.kind == "tsetattr" and e.d["name"] in ("new_point", "_new_point")]
        for i, e in gen:
            n += 1
            xb = arg(s.I, s.st, e, None, "xbest")
            sr = arg(s.I, s.st, e, None, "sampling_radius")
            nxt = [(g, x) for j, g, x in sets if j > i]
            if not nxt or xb is None or sr is None:
                rep.unknown("%s credits a center" % lab, where(s), "no assignment of the new point to a center found")
                continue
            g0, e0 = nxt[0]
            cen = e0.d["obj"]
            if cen.op == "getitem" and isinstance(cen.args[1], T) and sub(cen.args[1], s.I.models.length(cen.args[0])) in (ZERO,):
                continue  # beyond the end of the list
            want = mk("attr", cen, "xc")
            ok = xb is want
            if not ok and not (xb.op == "attr" and xb.args[1] == "xc"):
                ok = None
            rep.check("%s searches around the center it credits" % lab, where(s), ok, "xbest=%s, credited center %s" % (tm.show(xb)[-160:], tm.show(cen)[-160:]))
            ix = mk("attr", cen, "index")
            ok = sr.op == "attr" and sr.args[1] in ("sigma", "_sigma") and sr.args[0].op == "getitem" and sr.args[0].args[1] is ix
            if not ok and not (sr.op == "attr" and sr.args[1] in ("sigma", "_sigma")):
                ok = False if sr is s.before("sampling_radius") else None
            rep.check("%s uses the radius of the center" % lab, where(s), ok if ok else (ok if ok is None else False), "sampling_radius=%s" % tm.show(sr)[-200:])
            sop_same_point(rep, lab, s, e, e0)
            free = mk("is", mk("attr", cen, "new_point"), NONE)
            fs = list(s.path.facts)
            for f in g0:
                fs += list(f.args) if f.op == "and" else [f]
            if free in fs:
                rep.proven("%s uses a free center" % lab, where(s))
            elif bnot(free) in fs:
                rep.refute("%s uses a free center" % lab, where(s), "the center's point is still under way: %s" % pathdesc(s))
            else:
                ix = cen.args[1] if cen.op == "getitem" else None
                plain = ix is not None and all(x.op in ("num", "add", "mul", "poly", "bv", "len", "attr", "sym", "mod") for x in tm.subterms(ix) if not tm.contains_t(cen.args[0], x))
                look = [f for f in fs if tm.contains(f, lambda x: x.op == "attr" and x.args[1] in ("new_point", "_new_point", "new_index", "_new_index"))]
                ni = mk("is", mk("attr", cen, "new_index"), NONE)
                busy = [{free: FALSE, ni: TRUE}, {free: FALSE, ni: FALSE}]
                hold = [all(tm.subst(f, sb) is TRUE for f in look) for sb in busy]
                if plain and any(hold):
                    rep.refute("%s uses a free center" % lab, where(s), "the path also takes a center whose point is under way (index %s, conditions %s)" % (
                        tm.show(ix)[:120], [tm.show(f)[-120:] for f in look]))
                else:
                    rep.unknown("%s uses a free center" % lab, where(s), "how the center is found is not understood")
    if not n:
        rep.unknown("%s generation" % m.ci.name, m.ci.qual, "no search call found")
    key, bad, got = "%s searches around a free center with its own radius" % m.ci.name, None, 0
    worlds, why = sop_batches(m, 31, 12, 2)
    for W, s, log in worlds:
        kw = log[0][0]
        got += 1
        pairs = [(W.get(c, "xc"), W.get("e%d" % W.get(c, "index"), "sigma")) for c in W.free]
        if not any(same(kw.get("xbest"), x) and same(kw.get("sampling_radius"), g) for x, g in pairs):
            bad = bad or (s, "searches around %s with radius %s; the free centers and radii are %s, those of all centers %s" % (sv(kw.get("xbest")), sv(kw.get("sampling_radius")), sv(pairs),
                     sv([(W.get(c, "xc"), W.get("e%d" % W.get(c, "index"), "sigma")) for c in W.cens])))
    if bad:
        rep.refute(key, where(bad[0]), bad[1])
    elif got >= 3:
        rep.proven(key, m.ci.qual, "%d generations" % got)
    else:
        rep.unknown(key, m.ci.qual, why)
    sop_kept(rep, m)
    # only finished centers leave the list
    for s in m.steps:
        if s.result in ("raise", "other"):
            continue
        for e, d in flatten(s.st.events):
            if e.kind == "mutate" and e.d.get("root") is s.before("centers") and e.d.get("how") in ("pop", "remove", "del", "delitem", "clear"):
                v = e.d.get("value")
                t = v if isinstance(v, T) else None
                ok = None
                if t is not None:
                    for x in tm.subterms(t):
                        if x.op == "each":
                            g = x.args[1]
                            ni = [y for y in tm.subterms(g) if y.op == "attr" and y.args[1] in ("new_index", "_new_index")]
                            if ni:
                                pos = mk("is", ni[0], NONE)
                                ok = L.entails([g], bnot(pos))[0]
                            else:
                                ok = False if not tm.contains(g, lambda y: y.op in ("lv", "phi", "opaque")) and g is not TRUE else None
                rep.check("%s removes only finished centers" % m.ci.name, where(s), ok, "removes %s" % (tm.show(t)[-200:] if t is not None else v))


def sop_kept(rep, m):
    """the old centers that stay in the list when new ones are chosen are those whose point is under way"""
    done = {}
    for s in m.steps:
        if s.result in ("raise", "other"):
            continue
        t = s.after("centers")
        old = s.before("centers")
        if t is old:
            continue
        spine = [t]  # the list itself, and what it consists of
        for x in spine:
            if x.op in ("list", "rest"):
                spine += [a for a in x.args if isinstance(a, T)]
        for x in spine:
            if x.op not in ("phi", "list", "each") or x in done or not tm.contains_t(x, old) and not (x.op == "phi" and str(x.args[1]).endswith(".centers")):
                continue
            n, bad, unk = 0, None, None
            for k in range(300, 324):
                W = SopWorld(k, True)
                W.V.interp = s.I
                for c in W.cens:
                    W.set(c, "new_index", 0 if W.V.rnd.random() < .5 else None)
                want = [c for c in W.cens if W.get(c, "new_index") is None]
                try:
                    got = W.V.ev(x)
                except Bad as e:
                    if x.op == "phi" and len(want) < len(W.cens):
                        bad = "%s, with finished centers %s of %d" % (e, [j for j, c in enumerate(W.cens) if c not in want], W.nc)
                    else:
                        unk = str(e)
                    break
                except Unknown as e:
                    unk = str(e)
                    break
                if not isinstance(got, list) or not all(isinstance(o, ObjV) and name_of(o) in W.cens for o in got):
                    unk = "not a list of old centers"
                    break
                n += 1
                if sorted(name_of(o) for o in got) != sorted(want):
                    bad = "keeps centers %s of %d, those with their point under way are %s" % (sorted(name_of(o) for o in got), W.nc, want)
                    break
            done[x] = None
            if unk is None:
                rep.check("%s keeps exactly the centers whose point is under way" % m.ci.name, where(s), not bad, bad or "agrees on %d abstract states" % n)


def sop_same_point(rep, lab, s, call, credit):
    """the point remembered by the center is the point that is queued for evaluation"""
    def term(e):
        v = e.d["value"]
        return v if isinstance(v, T) else s.I.term(v, s.st)
    evs = [e for g, e in guarded(s.st.events)]
    at = evs.index(credit)
    queued = [e for e in evs[at:] if e.kind == "mutate" and e.d.get("root") is s.before("batch_queue") and e.d.get("how") in ("append", "insert")]
    v = term(credit)
    def plain(t):
        return t.op == "pcall" or t.op not in ("phi", "lv", "bv", "opaque", "each") and all(plain(a) for a in t.args if isinstance(a, T))
    queued = [term(q) for q in queued]
    if not queued or not tm.contains(v, lambda x: x.op == "pcall") or not all(plain(x) for x in queued + [v]):
        return
    verdict, det = None, "not interpretable"
    for k in range(3):
        V = Valuation(9000 + k)
        V.interp = s.I
        pt = V.points(1) + 1 / 7e4
        V.lazy = lambda V, t, kw, pt=pt: pt if str(t.args[0]).endswith("candidate_dycors") else None
        try:
            got = np.ravel(V.ev(v))
            ok = any(same(got, np.ravel(V.ev(q)), 1e-12) for q in queued)
        except (Unknown, Bad):
            return
        if not ok:
            verdict, det = False, "the center remembers %s, which is not among the queued points" % got
            break
        verdict = True
    rep.check("%s remembers the queued point" % lab, where(s), verdict, det)


def sop_release(rep, m, summ):
    """a reply forgets a center's new point only when it is finished or no longer queued or pending"""
    for u in m.updates + m.answers + strat.resume_steps(m) + m.steps:
        if u.result == "raise":
            continue
        for g, e in guarded(u.st.events):
            clear = e.kind == "mcall" and e.name in summ and any(
                a in ("_new_point", "new_point") and v is NONE for q in summ[e.name][1][2] for a, v in q.st.heap[summ[e.name][1][1].id].attrs.items())
            clear = clear or e.kind == "tsetattr" and e.d["name"] in ("new_point", "_new_point") and e.d["value"] is NONE
            if not clear:
                continue
            if u.what == "completed":
                rep.unknown("%s forgets a point" % name(u), where(u), "")
                continue
            cen = e.d["rterm"] if e.kind == "mcall" else e.d["obj"]
            npt = mk("attr", cen, "new_point")
            inq = [x for f in g for x in tm.subterms(f) if x.op in ("exists", "in") and tm.contains_t(x, npt)]
            pend = u.after("Xpend")
            ok = True if inq else (False if not any(tm.contains(f, lambda y: y.op in ("opaque", "phi", "lv", "view", "pcall", "mcall")) for f in g) else None)
            rep.check("%s forgets only points that are not under way" % name(u), where(u), ok, "guards %s" % [tm.show(f)[:120] for f in g])
    for u in m.updates + m.answers:
        if u.what in ("rejected", "killed", "cancelled") and u.result == "ok" and "adapt" in strat.phase_name(u.phase):
            sop_lost(rep, m, u, summ)
    back = [u for u in strat.resume_steps(m) if u.result == "ok"]
    got = [sop_resume(u, summ) for u in back]
    lab = "%s.resume makes the centers of lost evaluations available" % m.ci.name
    for u, (n, bad, unk) in zip(back, got):
        if bad:
            rep.refute(lab, where(u), bad)
    if not any(g[1] for g in got):
        n = sum(g[0] for g in got)
        unk = [g[2] for g in got if g[2]]
        rep.check(lab, where(back[0]) if back else m.ci.qual, None if unk or not n else True, unk[0] if unk else "agrees on %d abstract states" % n)


def sop_resume(u, summ):
    """nothing is pending after a resume: only centers with their point in the queue stay busy"""
    n = 0
    for k in range(60):
        W = SopWorld(k, bool(k % 2))
        V, r = W.V, W.V.rnd
        queue, pend, keep = [], [], []
        for j in range(W.nc):
            if W.get(W.cens[j], "new_index") is not None:
                continue
            how = r.choice(["queue", "pend", "pend", "none"])
            if how == "none":
                W.set(W.cens[j], "new_point", None)
                continue
            if how == "queue":
                keep.append(j)
            (queue if how == "queue" else pend).append(W.get(W.cens[j], "new_point"))
        V.hints.update(Xpend=np.array(pend).reshape(len(pend), V.dim), batch_queue=[q.copy() for q in queue], pending_evals=len(pend), phase=2)
        V.memo.clear()
        res = sop_try(V, u)
        if isinstance(res, str):
            return n, None, res
        if not res:
            continue
        try:
            replay(W, u, u.st.events, summ, None)
            still = [j for j, c in enumerate(W.cens) if W.get(c, "new_point") is not None and W.get(c, "new_index") is None]
        except Infeasible:
            continue
        except (NoEffect, Unknown, Bad) as e:
            return n, None, str(e)
        n += 1
        if sorted(still) != sorted(keep):
            return n, "centers %s have their point queued (%d pending points are lost), but %s stay busy; %s" % (keep, len(pend), still, pathdesc(u)), None
    return n, None, None


def sop_lost(rep, m, u, summ):
    """after a lost evaluation its center is available again, centers whose point is still queued or pending are not"""
    n, bad, unk = 0, None, None
    for k in range(120):
        if n >= 8 or bad or unk:
            break
        W = SopWorld(k, bool(k % 2))
        V, r = W.V, W.V.rnd
        free = [j for j, c in enumerate(W.cens) if W.get(c, "new_index") is None]
        if not free:
            continue
        own = r.choice(free)
        x = W.get(W.cens[own], "new_point")
        queue, pend, keep = [], [], []
        for j in range(W.nc):
            if j == own or W.get(W.cens[j], "new_index") is not None:
                continue
            how = r.choice(["queue", "pend", "pend", "none"])
            if how == "none":
                W.set(W.cens[j], "new_point", None)
                continue
            keep.append(j)
            (queue if how == "queue" else pend).append(W.get(W.cens[j], "new_point"))
        pend.insert(r.randint(0, len(pend)), x)
        V.hints.update(x=x, Xpend=np.array(pend).reshape(len(pend), V.dim), batch_queue=[q.copy() for q in queue], pending_evals=len(pend))
        V.memo.clear()
        res = sop_try(V, u)
        if isinstance(res, str):
            unk = res
            break
        if not res:
            continue
        try:
            after = [V.ev(u.after(a)) for a in ("batch_queue", "Xpend")]
            active = [np.ravel(q) for a in after for q in a]
            if any(same(q, x) for q in active):
                keep.append(own)
            replay(W, u, u.st.events, summ, None)
            still = [j for j, c in enumerate(W.cens) if W.get(c, "new_point") is not None and W.get(c, "new_index") is None]
        except Infeasible:
            continue
        except (NoEffect, Unknown, Bad) as e:
            unk = str(e)
            break
        n += 1
        if own in still and own not in keep:
            bad = "center %d stays busy although the evaluation of its point is lost (queue %d, pending %d before the reply); %s" % (own, len(queue), len(pend), pathdesc(u))
        elif sorted(still) != sorted(keep):
            bad = "centers %s have their point under way, but %s are busy afterwards; %s" % (keep, still, pathdesc(u))
    rep.check("%s makes the center available again" % name(u), where(u), False if bad else (None if unk or not n else True), bad or unk or "agrees on %d abstract states" % n)


def guarded(events, g=()):
    for e in events:
        if e.kind == "loop":
            for x, es in e.d.get("alts", ()):
                yield from guarded(es, g + ((x,) if isinstance(x, T) else ()))
        else:
            yield g, e


# ------------------------------------------------------------------ S14: which points become centers
def radius_rule(X, X_c, sigma, dim, nc, d_thresh=1.0):
    for i in range(int(nc)):
        if np.linalg.norm(np.ravel(X) - X_c[i, :dim]) < sigma * .5 ** X_c[i, dim + 4] * d_thresh / np.sqrt(len(np.ravel(X))):
            return 0
    return 1


class CenterWorld:
    """archive records with distinct points and values, and centers of which some are finished"""

    def __init__(self, k, n=None, first=False, late=0, seen=False):
        """late: so many points of the initial design were completed after the last ranking; seen: the archive before them"""
        from .search import ranks
        V = self.V = Valuation(k * 7919 + 11)
        r = V.rnd
        n = self.n = n or r.choice([4, 5, 6, 8, 12])
        self.nc = r.choice([4, 4, 5, 6])
        self.n0 = r.randint(2, n)
        self.N = n + r.choice([1, 6, 30])
        self.sr = r.choice([.2, .2, .5])
        self.unit = np.round(V.np.uniform(0, 1, (n, V.dim)), 3)
        if k % 3 == 1:
            self.unit[: n // 2] = np.round(.5 + V.np.uniform(-.08, .08, (n // 2, V.dim)), 4)  # a cluster
        if k % 4 == 3 and n >= 6:  # a point far away with a poor value is on the front as well
            self.unit[0] = 0
        self.x = V.lb + (V.ub - V.lb) * self.unit
        self.fx = [float(v) for v in V.np.permutation(n)] if k % 2 else [round(r.uniform(-5, 5), 4) for _ in range(n)]
        self.tabu = [0 if first else r.choice([0, 0, 0, 1, 3, 4, 5]) for _ in range(n)]
        self.nfail = [0 if first else r.choice([0, 0, 1, 2, 3]) for _ in range(n)]
        for i in range(n - late, n):
            self.tabu[i] = self.nfail[i] = 0
        nold = 0 if first else r.choice([0, 1, 2, 3, self.nc])
        self.cens = ["c%d" % i for i in range(nold)]
        self.index = [r.randrange(n - late) for _ in range(nold)]
        if nold and k % 5 == 0:
            self.index[0] = int(np.argmin(self.fx[:n - late]))
        self.busy = [r.random() < .4 for _ in range(nold)]
        V.hints.update({"evals": [ObjV("e%d" % i) for i in range(n - late * seen)], "centers": [ObjV(c) for c in self.cens], "num_evals": n - late * seen, "sampling_radius": self.sr,
                        "ncenters": self.nc, "num_exp": self.n0, "max_evals": self.N, "num_pts": 1, "asynchronous": True, "converged": False})
        for i in range(n):
            self.F("e%d" % i, nfail=self.nfail[i], ntabu=self.tabu[i], sigma=.1, x=self.x[i], fx=self.fx[i], rank=np.inf)
        for j, c in enumerate(self.cens):
            self.F(c, index=self.index[j], xc=self.x[self.index[j]], new_point=None if self.busy[j] and r.random() < .3 else self.x[self.index[j]] + .01, new_index=None if self.busy[j] else r.randrange(n))
        d = np.linalg.norm(self.unit[:, None, :] - self.unit[None, :, :], axis=2)
        np.fill_diagonal(d, np.inf)
        self.obj = np.array([self.fx, -d.min(axis=1)])
        self.rank = ranks(self.obj, 100)
        self.sorted_arg = None
        V.uf = self.uf

    F = SopWorld.F
    FIELDS = SopWorld.FIELDS
    get = SopWorld.get
    set = SopWorld.set

    def uf(self, V, t, args):
        if t.op != "pcall":
            return None
        names = [a[0] for a in t.args[1]]
        kw = dict(zip(names, [a for a in args if not isinstance(a, str)]))
        if str(t.args[0]).endswith("nd_sorting") and len(kw) == 2:
            from .search import ranks
            F = [v for v in kw.values() if isarr(v) and v.ndim == 2]
            m = [v for v in kw.values() if not isarr(v)]
            if len(F) == 1 and len(m) == 1:
                return ranks(F[0], m[0])
        if str(t.args[0]).endswith("check_radius_rule") and set(kw) <= {"X", "X_c", "sigma", "dim", "nc", "d_thresh"}:
            return radius_rule(**kw)
        return None

    def want(self):
        tabu = list(self.tabu)
        keep = [j for j, b in enumerate(self.busy) if b]
        for j in keep:
            tabu[self.index[j]] = 2
        order = list(np.lexsort((self.fx, self.rank, tabu)))
        best = int(np.argmin(self.fx))
        if tabu[best] != 2:
            order.remove(best)
            order.insert(0, best)
        count = self.nc - len(keep)
        picks = []
        th = 1.0 - float(self.n - self.n0) / float(self.N - self.n0)
        for i in order:
            if len(picks) >= count:
                break
            if not picks or all(np.linalg.norm(self.unit[i] - self.unit[q]) >= self.sr * .5 ** self.nfail[q] * th / np.sqrt(self.V.dim) for q in picks):
                picks.append(i)
        q = len(picks)
        while len(picks) < count:
            picks.append(picks[len(picks) % q])
        return [self.cens[j] for j in keep], [int(i) for i in picks]

    def margin(self):
        """no decision of the radius rule hangs on rounding"""
        th = 1.0 - float(self.n - self.n0) / float(self.N - self.n0)
        d = np.linalg.norm(self.unit[:, None, :] - self.unit[None, :, :], axis=2)
        np.fill_diagonal(d, 9)
        lim = self.sr * .5 ** np.array(self.nfail) * th / np.sqrt(self.V.dim)
        return d.min() > 1e-6 and np.all(np.abs(d - lim) > 1e-6)


def rule_S14(p, rep, tier, seed):
    rep.rule = ("the list of centers after the selection (loops by their transition relations, ranking and radius rule by their definitions) equals the specified list: "
                "busy centers stay, the best point and then points by tabu status, front and value under the radius rule, repeated when the archive is exhausted")
    found = False
    n = 40 if tier == "quick" else 200

    def big(k):
        return 110 if k == 7 else None
    for m in models(p):
        if not (has(m, "evals", "centers") and has(m, "ncenters", "F_ranked", "num_exp")):
            continue
        found = True
        gen = m.p.find_method(m.ci, "generate_evals")
        lab = "%s chooses its centers" % m.ci.name
        try:
            steps = [s for s in m.single("generate_evals", [S("num_pts", "int")]) if not s.path.raised]
        except Exception as e:
            rep.unknown(lab, loc(gen), "%s: %s" % (type(e).__name__, e))
            continue
        rep.unit(*m.I.visited)
        F0 = steps[0].before("F_ranked") if steps else None
        none = mk("is", F0, NONE) if F0 is not None else None
        new = [s for s in steps if none is not None and none in s.path.facts]
        old = [s for s in steps if none is None or none not in s.path.facts]
        for kind, group in (("first generation", new or steps), ("later generation", old), ("generation after a late point of the initial design", old if new and unranked(m) else [])):
            if not group:
                continue
            got, bad, why = 0, None, ""
            for k in range(3 * n):
                if got >= n or bad:
                    break
                late = 1 + (k % 4 == 3) if "late point" in kind else 0
                W = CenterWorld(seed * 1000 + k, n=big(k), first=kind.startswith("first") and k % 3 == 0, late=late)
                if not W.margin():
                    continue
                try:
                    if not kind.startswith("first") and new:
                        W0 = CenterWorld(seed * 1000 + k, n=big(k), late=late, seen=True)
                        W0.busy, W0.cens = [], []
                        F = ranked_archive(W0, new)
                        if F is None:
                            continue
                        W = CenterWorld(seed * 1000 + k, n=big(k), late=late)
                        W.V.hints["F_ranked"] = F
                    else:
                        W.V.hints["F_ranked"] = None
                    s = path_of(W, group)
                    if s is None:
                        continue
                    keep, picks = centers_of(W, s)
                except (Unknown, Bad) as e:
                    why = "%s: %s" % (type(e).__name__, e)
                    continue
                got += 1
                want = W.want()
                if (keep, [q[0] for q in picks]) != want:
                    bad = "keeps %s and adds the archive positions %s, specified %s and %s; values %s, fronts %s, tabu %s, busy %s" % (
                        keep, [q[0] for q in picks], want[0], want[1], W.fx, list(W.rank), W.tabu, [W.index[j] for j, b in enumerate(W.busy) if b])
                elif any(not same(q[1], W.x[q[0]]) for q in picks):
                    bad = "centers at %s with positions %s in the archive %s" % ([q[1] for q in picks], [q[0] for q in picks], W.x.tolist())
                elif any(q[2] for q in picks):
                    bad = "a new center starts as busy or finished"
            if bad:
                rep.refute("%s (%s)" % (lab, kind), loc(gen), bad[:1500])
            elif got >= 5:
                rep.proven("%s (%s)" % (lab, kind), loc(gen), "agrees on %d archives" % got)
            else:
                rep.unknown("%s (%s)" % (lab, kind), loc(gen), "undetermined: %s" % why)
        if old:
            archive_memory(rep, m, lab, old, seed, n // 2)
    if not found:
        rep.unknown("SOP", "", "no strategy with an archive and centers recognised by name")


def unranked(m):
    """do points of the initial design completed in the adaptive phase leave the ranked archive as it was"""
    us = [u for u in m.updates if "init" in strat.phase_name(u.phase) and u.what == "completed" and u.result == "ok"]
    return bool(us) and all(u.after("F_ranked") is u.before("F_ranked") for u in us)


def memory_summaries(p, m):
    summ = {}
    for nm, cs in record_methods(p).items():
        if len(cs) == 1 and len(cs[0][1].params) <= 2 and not m.p.is_sub(cs[0][0], "SurrogateBaseStrategy"):
            q = rec_summary(p, *cs[0])
            if q is not None and q[2]:
                summ[nm] = (cs[0], q)
    return summ


def archive_memory(rep, m, lab, old, seed, n):
    """the archive a completed evaluation leaves behind leads to the selection its records demand"""
    summ = memory_summaries(m.p, m)
    for key in m.kinds_of_proposal:
        if "adapt" not in strat.phase_name(key):
            continue
        comp = [u for u in m.updates if u.phase == key and u.what == "completed" and u.result == "ok" and len(list(heap_new(u, "evals"))) == 1]
        got, bad, why, at = 0, None, "", None
        for k in range(4 * n):
            if got >= n or bad:
                break
            W = None
            for u in comp:
                W = processed_world(seed * 1000 + k + 500, u, bool(k % 2))
                if W is None:
                    break
                W.V.bvs.clear()
                res = centered(W.V, u)
                if isinstance(res, str):
                    why = res
                if res is not True:
                    continue
                try:
                    W.archive = ()
                    replay(W, u, u.st.events, summ, W.recs[-1:])
                except Infeasible:
                    continue
                except (NoEffect, Unknown, Bad) as e:
                    why = "%s: %s" % (type(e).__name__, e)
                    continue
                break
            else:
                W = None
            if W is None:
                continue
            if not isarr(W.archive):
                why = "the archive is not stored"
                continue
            W2 = CenterWorld(seed * 1000 + k + 500)
            for i in range(W.n):
                st = {a: W.get(W.recs[i], a) for a in ("nfail", "ntabu", "sigma")}
                W2.F("e%d" % i, **st)
                W2.nfail[i], W2.tabu[i] = st["nfail"], st["ntabu"]
            for j, c in enumerate(W.cens):
                ni = W.get(c, "new_index")
                W2.F(c, new_index=ni, new_point=W.get(c, "new_point"))
                W2.busy[j] = ni is None
            if not W2.margin() or 2 in [t for i, t in enumerate(W2.tabu) if i == int(np.argmin(W2.fx))]:
                continue
            W2.V.hints["F_ranked"] = W.archive
            try:
                s = path_of(W2, old)
                if s is None:
                    continue
                keep, picks = centers_of(W2, s)
            except (Unknown, Bad) as e:
                why = "%s: %s" % (type(e).__name__, e)
                continue
            got += 1
            want = W2.want()
            if (keep, [q[0] for q in picks]) != want:
                at = u
                bad = "after an evaluation is processed the next selection keeps %s and adds %s, specified %s and %s; values %s, fronts %s, failures %s, tabu %s" % (
                    keep, [q[0] for q in picks], want[0], want[1], W2.fx, list(W2.rank), W2.nfail, W2.tabu)
        w = where(at or comp[0]) if comp else m.ci.qual
        if bad:
            rep.refute("%s (after %s)" % (lab, strat.phase_name(key)), w, bad[:1500])
        elif got >= 5:
            rep.proven("%s (after %s)" % (lab, strat.phase_name(key)), w, "agrees on %d archives" % got)
        else:
            rep.unknown("%s (after %s)" % (lab, strat.phase_name(key)), w, "undetermined: %s" % why)


def processed_world(k, u, sync):
    """an archive whose last record is the one made for the completed evaluation of a busy center's point"""
    W = CenterWorld(k)
    last = W.n - 1
    if not W.margin() or not any(W.busy) or last in W.index:
        return None
    V = W.V
    V.hints.update({"evals": [ObjV("e%d" % i) for i in range(last)], "num_evals": last, "x": W.x[last], "fx": W.fx[last], "asynchronous": not sync,
                    "pending_evals": 1, "batch_queue": [], "ev_id": 4, "ev_last": 1, "ev_restart": 0, "ev_next": 5, "Xpend": W.x[last:].copy()})
    for c in W.cens:
        W.F(c, new_point=V.points(1)[0])
    W.F(W.cens[W.busy.index(True)], new_point=W.x[last])
    new = list(heap_new(u, "evals"))[0]
    W.F("obj#%s" % new, nfail=0, ntabu=0, sigma=W.sr, x=W.x[last], fx=W.fx[last], rank=np.inf)
    W.recs = ["e%d" % i for i in range(last)] + ["obj#%s" % new]
    return W


def centered(V, u):
    """do the facts of the path hold (facts about the memory are decided in event order by replay)"""
    V.memo.clear()
    fb = sorted({b for f in u.path.facts for b in free_bvs(f)}, key=lambda b: b.id)
    try:
        doms = [list(V.over(b)) for b in fb]
    except (Bad, Unknown) as e:
        return str(e)
    for asg in itertools.product(*doms):
        for b, i in zip(fb, asg):
            V.bvs[b] = i
        r = sop_try(V, u)
        if r:
            return r
    return False


def sop_batches(m, seed, n, num_pts=4):
    """generations of several points, when every center was kept and some have no point under way:
    [(world, arguments and result of the search of each round)], reason for missing ones"""
    out, why = [], ""
    try:
        steps = [s for s in m.single("generate_evals", [S("num_pts", "int")]) if not s.path.raised]
    except Exception as e:
        return [], "%s: %s" % (type(e).__name__, e)
    none = mk("is", steps[0].before("F_ranked"), NONE) if steps else None
    new, old = [s for s in steps if none in s.path.facts], [s for s in steps if none not in s.path.facts]
    for k in range(n):
        try:
            W = CenterWorld(seed * 1000 + k)
            W.busy, W.cens = [], []
            F = ranked_archive(W, new) if new else None
            W = CenterWorld(seed * 1000 + k)
            V, r = W.V, W.V.rnd
            W.cens = ["c%d" % i for i in range(W.nc)]
            for i in range(W.n):
                W.F("e%d" % i, sigma=.1 + .01 * i)
            free = {r.randrange(W.nc)} | {j for j in range(W.nc) if r.random() < .5}
            for j, c in enumerate(W.cens):
                i = r.randrange(W.n)
                W.F(c, index=i, xc=W.x[i], new_index=None, new_point=None if j in free else W.x[i] + .01)
            f = np.array(W.fx)[:, None]
            V.hints.update(F_ranked=F, num_pts=num_pts, centers=[ObjV(c) for c in W.cens], Xpend=V.points(r.randint(0, 2)), num_cand=9, dtol=.01,
                           X=W.x, fX=f, _X=W.x, _fX=f)
            W.free, W.log = [W.cens[j] for j in sorted(free)], {}

            def search(V, t, args, W=W):  # each search finds another point
                if str(t.args[0]).split(".")[-1] == "candidate_dycors":
                    W.log[V.ctx] = ({k: V.ev(v) if isinstance(v, T) else v for k, v in args.items()}, V.points(1))
                    return W.log[V.ctx][1]
            V.lazy = search
            s = path_of(W, old)
            if s is None:
                continue
            for sg in s.queue("batch_queue") or ():
                if sg[0] == "item":
                    V.ev(s.I.term(sg[1], s.st))
                elif sg[0] == "each":
                    V.each(sg[1], sg[2], s.I.term(sg[3], s.st))
        except (Unknown, Bad) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        log = [W.log[c] for c in sorted(W.log, key=lambda c: [i for _, i in c])]
        if len(log) == num_pts and len({tuple(l for l, _ in c) for c in W.log}) == 1:
            out.append((W, s, log))
        else:
            why = "%d searches for %d points" % (len(log), num_pts)
    return out, why


def path_of(W, steps):
    V = W.V
    for s in steps:
        V.interp = s.path.I
        V.loop_memo.clear()
        V.memo.clear()
        V.bvs.clear()
        if all(V.truth(f) for f in s.path.facts):
            return s
    return None


def ranked_archive(W, steps):
    """the ranked archive as the strategy itself builds it from the records"""
    W.V.hints["centers"] = []
    W.V.hints["F_ranked"] = None
    s = path_of(W, steps)
    if s is None:
        return None
    return W.V.ev(s.after("F_ranked"))


def centers_of(W, s):
    V = W.V
    keep, picks = [], []
    segs = s.queue("centers")
    if segs is None:
        raise Unknown("list of centers")
    for sg in segs:
        if sg[0] == "rest":
            vs = V.seq(sg[1])
            if any(not isinstance(v, ObjV) for v in vs):
                raise Unknown("centers")
            keep += [v.name for v in vs]
            continue
        v = sg[1] if sg[0] == "item" else sg[3]
        t = v if isinstance(v, T) else None
        if isinstance(v, Ref):
            at = s.st.heap[v.id].attrs
        elif t is not None and t.op == "obj":
            at = s.st.heap[t.args[0]].attrs
        else:
            raise Unknown("how centers are built")
        vals = {}
        for a in ("index", "xc"):
            if a not in at:
                raise Unknown("center without %s" % a)
            x = s.I.term(at[a], s.st)
            vals[a] = [V.ev(x)] if sg[0] == "item" else V.each(sg[1], sg[2], x)
        fresh = all(at.get(a, NONE) is NONE for a in ("_new_index", "new_index"))
        if any(w.startswith("c") is False for w in keep):
            raise Unknown("centers")
        picks += [(int(i), x, not fresh) for i, x in zip(vals["index"], vals["xc"])]
    return keep, picks
