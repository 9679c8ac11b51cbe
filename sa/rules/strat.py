"""S01-S09, S12: transition summaries of the strategies checked against accounting, queueing and restart rules.

Every reply the controller can give (propose, accept/reject, the five record states, resume) is summarised as a set of
transitions over an arbitrary pre-state; each obligation is about a single transition, so it holds for every history.
"""
import math

import numpy as np
from .common import *
from ..terms import T, mk, const, le, lt, eq, add, sub, band, bor, bnot, TRUE, FALSE, ONE, ZERO, NONE
from ..interp import LC
from ..models import KNOWN_LENGTHS
from ..logic import Logic, show as show_val_logic
from ..smodel import Model, concrete_strategies, SEARCHES, STATUSES
from ..valuate import Valuation, same, Bad, Unknown

ROWS = {"candidate_srbf": "num_pts", "candidate_dycors": "num_pts", "candidate_uniform": "num_pts", "ei_ga": "num_pts", "lcb_ga": "num_pts"}


class SizeLogic(Logic):
    """entailment that knows how many points a search returns, and that supports no verdict on the size of another opaque result"""

    def entails(self, facts, goal):
        facts = list(facts)
        known, opaque = {}, set()
        for f in facts + [goal]:
            for t in tm.subterms(f):
                if t.op in ("len", "dim0") and isinstance(t.args[0], T) and t.args[0].op == "pcall":
                    c = t.args[0]
                    a = dict(c.args[1]) if len(c.args) > 1 and isinstance(c.args[1], tuple) else {}
                    n = a.get(ROWS.get(str(c.args[0]).split(".")[-1]))
                    if isinstance(n, T):
                        known[t] = n
                    else:
                        opaque.add(t)
        ok, why = Logic.entails(self, facts + [le(ZERO, n) for n in known.values()] + [eq0(t, n) for t, n in known.items()], goal)
        if ok is False and opaque and isinstance(why, dict) and any(t in opaque for t in why):
            return None, "size of the result of %s" % next(iter(opaque)).args[0].args[0]
        return ok, why


def eq0(a, b):
    return eq(sub(a, b), ZERO) if a.op != "ite" and b.op != "ite" else mk("eq0", sub(a, b))


L = SizeLogic()
_MODELS = {}


def models(p):
    if p not in _MODELS:
        cs = concrete_strategies(p)
        if not cs:
            raise AnalysisBroken("no concrete subclass of SurrogateBaseStrategy")
        ms = [Model(p, c).explore() for c in sorted(cs, key=lambda c: c.name)]
        for m in ms:
            # paths whose condition contradicts itself or the invariants are no behaviour
            for a in ("steps", "answers", "updates"):
                setattr(m, a, [s for s in getattr(m, a) if not infeasible(s)])
        _MODELS[p] = ms
    return _MODELS[p]


def infeasible(s):
    return L.entails(list(s.path.facts) + inv(s.model, s.pre, s.what not in ("propose_action", "resume", "constructor")), FALSE)[0] is True


def all_steps(m):
    for s in m.steps + m.answers + m.updates + resume_steps(m):
        yield s


def resume_steps(m):
    if not hasattr(m, "_resume"):
        m._resume = m.single("resume")
        for s in m._resume:
            s.result = "raise" if s.path.raised else "ok"
    return m._resume


def constructors(m):
    """constructor summaries of the strategy: steps over parameters"""
    if not hasattr(m, "_ctor"):
        from ..smodel import Step
        init = m.p.find_method(m.ci, "__init__")
        pk = {"max_evals": "int", "batch_size": "int", "asynchronous": "bool", "use_restarts": "bool", "ncenters": "int", "kappa": "num",
              "opt_prob": "obj", "exp_design": "obj", "surrogate": "obj"}
        m._ctor_args = {n: S(n, pk.get(n, "unk")) for n in init.params[1:]}
        I = Interp(m.p, opaque=m.opaque)
        m._ctor = []
        for q in construct(I, m.ci, m._ctor_args):
            if q.raised or q.v is None:
                continue
            s = Step(m, q, q.v, "new", "constructor")
            s.result = "ok"
            m._ctor.append(s)
    return m._ctor


def has(m, *attrs):
    if not hasattr(m, "_attrs"):
        cs = constructors(m)
        m._attrs = set.intersection(*[s.written() for s in cs]) if cs else set()
    return all(a in m._attrs for a in attrs)


def inv(m, pre, outstanding=False):
    """facts every reachable state satisfies; each is itself an obligation of S01/S02"""
    num, pend, mx = (m.sym(pre, a) for a in ("num_evals", "pending_evals", "max_evals"))
    fs = [le(ZERO, num), le(ONE if outstanding else ZERO, pend), le(add(num, pend), mx), le(ONE, mx), le(ONE, m.sym(pre, "batch_size"))]
    if has(m, "Xpend"):
        fs.append(eq(length(m.sym(pre, "Xpend")), pend))
    return fs


_PENDLEN = {}


def pending_length(t):
    """the length of a list made from the pending points, when it is the old length plus a constant in every state (x is pending where it is removed)"""
    if t not in _PENDLEN:
        _PENDLEN[t] = None
        xs = {u for u in tm.subterms(t) if u.op == "sym" and str(u.args[0]).endswith(".Xpend")}
        if t.op == "rows" and len(t.args) == 2 and t.args[0] in xs and itemterm(t.args[1]):
            _PENDLEN[t] = add(mk("len", t.args[0]), ONE)  # elements of the queue are points
        elif len(xs) == 1 and t.args[0] is next(iter(xs)):
            x = t.args[0]
            ds = set()
            try:
                for seed in range(40):
                    V = state_val(t.op == "delete")(seed)
                    ds.add(len(np.asarray(V.ev(t))) - len(V.hpend))
                    if len(ds) > 1:
                        break
            except (Bad, Unknown):
                ds = set()
            if len(ds) == 1:
                _PENDLEN[t] = add(mk("len", x), const(ds.pop()))
    return _PENDLEN[t]


KNOWN_LENGTHS.append(pending_length)


def events_ordered(sym):
    nx, rs, la = (sym(a) for a in ("ev_next", "ev_restart", "ev_last"))
    return [le(ONE, nx), le(ZERO, rs), le(rs, la), lt(la, nx)]


def event_inv(m, pre):
    """order of the event indices, where it is inductive: 0 <= ev_restart <= ev_last < ev_next"""
    if not hasattr(m, "_evinv"):
        m._evinv = False
        if has(m, "ev_next", "ev_restart", "ev_last"):
            ok = all(L.entails(list(s.path.facts), g)[0] is True for s in constructors(m) for g in events_ordered(s.after))
            m._evinv = ok and all(L.entails(list(s.path.facts) + events_ordered(s.before), g)[0] is True
                                  for s in all_steps(m) if s.result != "raise" for g in events_ordered(s.after))
    return events_ordered(lambda a: m.sym(pre, a)) if m._evinv else []


def facts(step):
    m = step.model
    return list(step.path.facts) + inv(m, step.pre, step.what not in ("propose_action", "resume", "constructor")) + event_inv(m, step.pre)


def phase_name(key):
    return "/".join(k.rsplit(".", 1)[-1] for k in key)


def name(step, i=None):
    m = step.model
    ph = getattr(step, "phase", None)
    return "%s %s%s" % (m.ci.name, step.what, " (%s)" % phase_name(ph) if ph else "")


def where(step):
    m = step.model
    ph = getattr(step, "phase", None)
    fi = m.method("propose_action")
    if ph:
        for f in (step.model.kinds_of_proposal[ph].cbs or []):
            g = getattr(f, "fi", None)
            if g is not None:
                fi = g
    elif step.what == "resume":
        fi = m.method("resume")
    elif step.what == "constructor":
        fi = m.method("__init__")
    return loc(fi)


def pathdesc(step):
    return "path [" + "; ".join(tm.show(f)[:70] for f in step.path.facts)[:500] + "]"


def understood(rep, m, pid):
    """protocol obligations without which nothing can be concluded about the replies"""
    ok = True
    for s in m.steps:
        if s.result == "other":
            rep.unknown("%s propose result" % m.ci.name, where(s), "a path returns something that is not understood as a proposal")
            ok = False
        if s.result == "eval" and s.cbs is None:
            rep.unknown("%s proposal callbacks" % m.ci.name, where(s), "callbacks of the proposal are not known")
            ok = False
    if not any(s.result == "eval" for s in m.steps):
        raise AnalysisBroken("%s never proposes an evaluation" % m.ci.name)
    return ok


# ------------------------------------------------------------------ value comparison of post-states
_CMP = {}


def connected(fs, terms):
    """facts sharing a symbol with the terms (transitively)"""
    def syms(t):
        return frozenset(x for x in tm.subterms(t) if x.op == "sym")
    cur = set()
    for t in terms:
        cur |= syms(t)
    fs = [(f, syms(f)) for f in fs]
    out, changed = [], True
    while changed:
        changed = False
        for f, s in fs:
            if f not in out and s & cur:
                out.append(f)
                cur |= s
                changed = True
    return out


def direct(fs, terms):
    cur = set()
    for t in terms:
        cur |= {x for x in tm.subterms(t) if x.op == "sym"}
    return [f for f in fs if any(x.op == "sym" and x in cur for x in tm.subterms(f))]


def state_cmp(rep, key, step, got, spec, mkval, roles, n=30, seed=1, eqf=None, subst=None):
    """the post-state content `got` of a transition equals spec(V), for pre-states satisfying the transition's facts"""
    gots = got if isinstance(got, tuple) else (got,)
    facts_ = [tm.subst(f, subst) for f in step.path.facts] if subst else step.path.facts
    fs = direct(facts_, list(gots) + list(roles))
    memo_key = (gots, tuple(fs), key, step.model.ci.name)
    r = _CMP.get(memo_key)
    if r is None:
        r = _state_cmp(step, gots, spec, mkval, fs, n, seed, eqf or (lambda a, b: same(a, b, 1e-12)))
        _CMP[memo_key] = r
    ok, detail = r
    rep.check(key, where(step), ok, detail if ok is True else detail + " " + pathdesc(step))
    return ok


def _state_cmp(step, gots, spec, mkval, fs, n, seed, eqf):
    got_n, why, soft = 0, "", None
    for k in range(n * 12):
        V = mkval(seed * 1000 + k)
        unk = None
        skip = False
        for f in fs:
            try:
                if not V.truth(f):
                    skip = True
                    break
            except Bad:
                skip = True
                break
            except Unknown as e:
                unk = str(e)
        if skip:
            continue
        try:
            want = spec(V)
        except (Bad, Unknown) as e:
            return None, "reference has no value: %s" % e
        try:
            vals = tuple(V.ev(g) for g in gots)
        except Unknown as e:
            return None, "not interpretable: %s" % e
        except Bad as e:
            if unk:
                return None, "condition not interpretable: " + unk
            return False, "operation fails (%s) for %s" % (e, show_val(V))
        v = vals if len(vals) > 1 else vals[0]
        if not eqf(v, want):
            if unk:
                return None, "differs, but a condition is not interpretable: " + unk
            return False, "becomes %s, specified %s for %s; normal form %s" % (sv(v), sv(want), show_val(V), tm.show(gots[0])[:200])
        got_n += 1
        if got_n >= n:
            break
    if got_n < 2:
        return None, "no pre-state satisfies the path"
    return True, "agrees with the specified update on %d separating valuations: %s" % (got_n, tm.show(gots[0])[:160])


def rowset(a):
    a = np.asarray(a, float)
    if a.ndim != 2:
        return None
    return sorted(map(tuple, np.round(a, 9).tolist()))


def same_rows(a, b):
    x, y = rowset(a), rowset(b)
    return x is not None and y is not None and len(x) == len(y) and np.allclose(np.array(x).ravel(), np.array(y).ravel(), rtol=1e-13, atol=1e-13)


SPECIAL = (math.inf, -3.25e35, math.nan, -math.inf, 7.5e31, 1e-300, 0.0)  # values an objective may return


def state_val(member=True):
    """valuation of a strategy state: pending points contain x (twice sometimes)"""
    def f(s):
        V = Valuation(s)
        k = V.size("nX", 0, 3)
        x = V.points(1)[0]
        pend = list(V.points(V.size("npend", 0, 3)))
        for i in range(len(pend)):  # other points may agree with x in some coordinates, or nearly in all
            how = V.rnd.random()
            if how < .3 and V.dim > 1:
                j = V.rnd.randrange(V.dim)
                pend[i][j] = x[j]
            elif how < .45:
                pend[i] = x + V.rnd.choice([1e-9, -1e-9, 1e-6])
        if not member and V.rnd.random() < .3:  # an equal point is outstanding already
            pend.insert(V.rnd.randrange(len(pend) + 1), x)
        if member:
            pend.insert(V.rnd.randrange(len(pend) + 1), x)
            if V.rnd.random() < .4:
                pend.insert(V.rnd.randrange(len(pend) + 1), x)
        pend = np.array(pend).reshape(-1, V.dim)
        V.hints.update({
            "x": x, "Xpend": pend, "pending_evals": len(pend), "X": V.points(k), "fX": np.round(V.np.uniform(-2, 2, (k, 1)), 4),
            "_X": V.points(V.size("n_X", 0, 3)), "_fX": lambda V: np.round(V.np.uniform(-2, 2, (V.size("n_X", 0, 3), 1)), 4),
            "fx": V.np.uniform(-2, 2) if s % 3 else SPECIAL[s // 3 % len(SPECIAL)], "num_evals": V.rnd.randrange(4), "ev_id": V.rnd.randrange(4)})
        nxt = V.rnd.choice([1, 2, 3, 5])  # 0 <= ev_restart <= ev_last < ev_next in every reachable state
        last = V.rnd.randrange(nxt)
        V.hints.update(ev_next=nxt, ev_last=last, ev_restart=V.rnd.choice([0, last, V.rnd.randrange(last + 1)]))
        V.hx, V.hpend = x, pend
        return V
    return f


# ------------------------------------------------------------------ the queue
class QDelta:
    """how a transition changes the queue: before minus popped plus added"""

    def __init__(self, popped, added):
        self.popped, self.added = popped, added


def qdelta(step, attr="batch_queue"):
    v = step.value(attr)
    lc = step.I.as_list(v, step.st)
    if lc is None:
        return None
    base = step.before(attr)
    popped, added = [], []
    seen_base = [0]

    def expand(t):
        if t is base:
            seen_base[0] += 1
            return True
        if t.op == "delitem":
            popped.append(mk("getitem", t.args[0], t.args[1]))
            popped_of.append((t.args[0], t.args[1]))
            return expand(t.args[0])
        if t.op == "butlast":
            popped.append(mk("lastitem", t.args[0]))
            popped_of.append((t.args[0], const(-1)))
            return expand(t.args[0])
        if t.op == "list":
            return all(seg(s) for s in t.args)
        return False

    def seg(s):
        if s.op == "rest":
            return expand(s.args[0])
        if s.op == "item":
            added.append(("item", s.args[0]))
            return True
        if s.op == "each":
            added.append(("each", s.args[0], s.args[1], s.args[2]))
            return True
        return False
    popped_of = []
    for sg in lc:
        if sg[0] == "rest":
            if not expand(sg[1]):
                return None
        elif sg[0] == "item":
            added.append(("item", step.I.term(sg[1], step.st)))
        elif sg[0] == "each":
            added.append(("each", sg[1], sg[2], step.I.term(sg[3], step.st)))
        else:
            return None
    q = QDelta(popped, added)
    q.popped_of = popped_of
    q.base = seen_base[0]
    return q


def itemterm(t):
    """forms of 'one element of a list'"""
    return t.op in ("getitem", "lastitem", "firstitem")


def xterm(step):
    return step.I.term(step.x, step.st)


# ------------------------------------------------------------------ S01
def rule_S01(p, rep, tier, seed):
    rep.rule = "num_evals + pending_evals <= max_evals is inductive: every transition summary preserves it (linear facts of the path entail the post-condition)"
    rep.assumptions.append("the invariant is assumed for the pre-state of each transition and proven for the constructor")
    for m in models(p):
        rep.unit(*m.I.visited) if m.I.visited else None
        if not has(m, "num_evals", "pending_evals", "max_evals"):
            rep.unknown("%s counters" % m.ci.name, m.ci.qual, "counters not found by name")
            continue
        understood(rep, m, "S01")
        for s in constructors(m):
            g = band(eq(s.after("num_evals"), ZERO), eq(s.after("pending_evals"), ZERO), eq(s.after("max_evals"), m._ctor_args.get("max_evals", s.after("max_evals"))))
            ok, why = L.entails([], g)
            rep.check("%s initial counters and budget" % m.ci.name, where(s), ok, "" if ok else "starts with num_evals=%s pending_evals=%s max_evals=%s" % tuple(tm.show(s.after(a)) for a in ("num_evals", "pending_evals", "max_evals")))
        for s in all_steps(m):
            if s.result == "raise":
                continue
            num, pend, mx = s.after("num_evals"), s.after("pending_evals"), s.after("max_evals")
            goal = le(add(num, pend), mx)
            if mx is not s.before("max_evals"):
                r, why = L.entails(facts(s), eq(mx, s.before("max_evals")))
                rep.check("%s budget unchanged" % name(s), where(s), r, "max_evals becomes %s %s" % (tm.show(mx), pathdesc(s)))
            ok, why = L.entails(facts(s), goal)
            rep.check("%s keeps completed + outstanding within the budget" % name(s) + (" -> %s" % s.result if s.what == "propose_action" else ""), where(s), ok,
                      "num+pend+%s" % tm.show(sub(add(num, pend), add(s.before("num_evals"), s.before("pending_evals")))) if ok else "counter-state %s %s" % (show_val_logic(why) if isinstance(why, dict) else why, pathdesc(s)))
    random_strategy(p, rep)


def random_strategy(p, rep):
    ci = p.cls("RandomStrategy")
    if ci is None:
        raise AnalysisBroken("RandomStrategy not found")
    I = Interp(p, opaque=("round_vars", "check_opt_prob", "rput", "put", "get", "empty", "propose_eval"))
    mx, op = S("max_evals", "int"), S("opt_prob", "obj")
    init = p.find_method(ci, "__init__")
    names = init.params[1:]
    for q in construct(I, ci, dict(zip(names, (mx, op)))):
        if q.raised or q.v is None:
            continue
        rep.unit(init)
        total, bad = ZERO, None
        for e in q.events:
            for cnt, ev in counted(e):
                if ev.kind in ("mcall", "pcall") and ev.name in ("rput", "put"):
                    total = add(total, cnt) if cnt is not None else None
                    if total is None:
                        break
            if total is None:
                break
        if total is None or total is ZERO:
            rep.unknown("RandomStrategy queue", loc(init), "number of queued proposals not determined")
            continue
        ok, why = L.entails(list(q.facts) + [le(ONE, mx)], eq(total, mx))
        rep.check("RandomStrategy queues exactly max_evals proposals", loc(init), ok, "queued: %s" % tm.show(total))


def counted(e, mult=ONE):
    """(count term or None, event) for events inside summarised loops"""
    if e.kind != "loop":
        yield mult, e
        return
    bv = e.d.get("bv")
    for g, evs in e.d.get("alts", ()):
        for x in evs:
            if bv is None or mult is None or getattr(e, "partial", False):
                c = None
            elif isinstance(g, T) and g is TRUE or g is None:
                c = tm.mul(mult, mk("Sum", bv, TRUE, ONE))
            elif isinstance(g, T):
                c = tm.mul(mult, mk("Sum", bv, g, ONE))
            else:
                c = None
            yield from counted(x, c)


# ------------------------------------------------------------------ S02
REPLY_DELTA = {"accepted": 0, "rejected": -1, "pending": 0, "running": 0, "completed": -1, "killed": -1, "cancelled": -1}


def remove_one(M, x):
    M = np.asarray(M, float)
    for i in range(len(M)):
        if np.array_equal(M[i], x):
            return np.delete(M, i, axis=0)
    return M


def protocol(rep, m):
    """every eval proposal must hear about its answer, every accepted one about its end"""
    for s in m.steps:
        if s.result == "eval" and s.cbs is not None:
            rep.check("%s eval proposal has a callback" % m.ci.name, where(s), bool(s.cbs), "a proposal is returned without a callback %s" % pathdesc(s))
    for key in m.kinds_of_proposal:
        for a in m.answers:
            if a.phase == key and a.what == "accepted" and a.result == "ok":
                cb = getattr(a, "rcbs", None)
                if cb is None:
                    rep.unknown("%s record callback" % name(a), where(a), "callbacks of the record are not known")
                else:
                    rep.check("%s registers for the end of the evaluation" % name(a), where(a), bool(cb), "record gets no callback %s" % pathdesc(a))


def rule_S02(p, rep, tier, seed):
    rep.rule = "per transition: change of pending_evals and of the pending-point list equals the one of the reply (rows compared as multisets by random interpretation)"
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "pending_evals", "Xpend"):
            rep.unknown("%s pending data" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S02")
        protocol(rep, m)
        for s in constructors(m):
            r, why = L.entails([], eq(s.after("pending_evals"), ZERO))
            rep.check("%s starts with nothing pending" % m.ci.name, where(s), r)
            state_cmp(rep, "%s starts with no pending points" % m.ci.name, s, s.after("Xpend"), lambda V: 0, state_val(), [], eqf=lambda a, b: len(np.asarray(a)) == 0, seed=seed)
        for s in all_steps(m):
            if s.result == "raise" or s.what == "resume":
                continue
            d = sub(s.after("pending_evals"), s.before("pending_evals"))
            if s.what == "propose_action":
                want = 1 if s.result == "eval" else 0
            else:
                want = REPLY_DELTA[s.what]
            lab = name(s) + (" -> %s" % s.result if s.what == "propose_action" else "")
            r, why = L.entails(facts(s), eq(d, const(want)))
            rep.check("%s changes the pending count by %d" % (lab, want), where(s), r, "changes by %s %s" % (tm.show(d), pathdesc(s)) if not r else "")
            after, before = s.after("Xpend"), s.before("Xpend")
            if want == 0:
                if after is before:
                    rep.proven("%s keeps the pending points" % lab, where(s))
                    continue
                state_cmp(rep, "%s keeps the pending points" % lab, s, after, lambda V: V.hpend, state_val(), [before], eqf=same_rows, seed=seed)
            elif want == 1:
                xs = S("x", "arr1")
                x = xterm(s) if s.x is not None else None
                if x is None:
                    rep.unknown("%s adds its point" % lab, where(s), "proposed point unknown")
                    continue
                t = tm.subst(after, {x: xs})
                state_cmp(rep, "%s adds its point to the pending points" % lab, s, t, lambda V: np.vstack((V.hpend, V.hx)), state_val(False), [], eqf=same_rows, seed=seed, subst={x: xs})
            else:
                state_cmp(rep, "%s removes its point once" % lab, s, after, lambda V: remove_one(V.hpend, V.hx), state_val(), [before], eqf=same_rows, seed=seed)


# ------------------------------------------------------------------ S03
def rule_S03(p, rep, tier, seed):
    rep.rule = "per transition: X, fX, num_evals and fevals change exactly as specified for the record status"
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "X", "fX", "num_evals", "fevals"):
            rep.unknown("%s history" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S03")
        protocol(rep, m)
        for s in all_steps(m):
            if s.result == "raise":
                continue
            X, fX = s.after("X"), s.after("fX")
            lab = name(s) + (" -> %s" % s.result if s.what == "propose_action" else "")
            if is_restart(s) and X is not s.before("X"):
                # a restart may add known extra points only while the history is empty (S09)
                r, why = L.entails(facts(s), le(length(s.before("X")), ZERO))
                if r is True:
                    continue
            dn = sub(s.after("num_evals"), s.before("num_evals"))
            want = 1 if s.what == "completed" else 0
            r, why = L.entails(facts(s), eq(dn, const(want)))
            rep.check("%s changes the completion count by %d" % (lab, want), where(s), r, "" if r else "changes by %s %s" % (tm.show(dn), pathdesc(s)))
            if s.what == "completed":
                state_cmp(rep, "%s appends its point" % lab, s, X, lambda V: np.vstack((V.ev(m_sym(s, "X")), V.hx)), state_val(), [], seed=seed)
                state_cmp(rep, "%s appends its value" % lab, s, fX, lambda V: np.vstack((V.ev(m_sym(s, "fX")), [[V.ev(s.fx)]])), state_val(), [], seed=seed)
                added = list_added(s, "fevals")
                if added is None:
                    rep.unknown("%s adds the record" % lab, where(s), "list not understood")
                else:
                    rep.check("%s adds the record once" % lab, where(s), len(added) == 1 and added[0] == s.rec, "added %r %s" % (added, pathdesc(s)) if added != [s.rec] else "")
            else:
                for a, t in (("X", X), ("fX", fX)):
                    if t is s.before(a):
                        rep.proven("%s keeps %s" % (lab, a), where(s))
                    else:
                        state_cmp(rep, "%s keeps %s" % (lab, a), s, t, lambda V, a=a: V.ev(m_sym(s, a)), state_val(), [], seed=seed)
                if s.what not in ("killed", "cancelled"):
                    added = list_added(s, "fevals")
                    if added is None:
                        rep.unknown("%s leaves the list of evaluations" % lab, where(s), "list not understood")
                    else:
                        rep.check("%s leaves the list of evaluations" % lab, where(s), not added, "added %r" % (added,))


def length(t):
    return mk("len", t)


def m_sym(s, a):
    return s.before(a)


def list_added(s, attr):
    """values appended to a list attribute, or None"""
    v = s.value(attr)
    lc = s.I.as_list(v, s.st)
    if lc is None:
        return None
    segs = list(lc)
    if not segs or segs[0] != ("rest", s.before(attr)):
        return None if segs else None
    out = []
    for sg in segs[1:]:
        if sg[0] != "item":
            return None
        out.append(sg[1])
    return out


# ------------------------------------------------------------------ events
def flatten(events, depth=0):
    for e in events:
        if e.kind == "loop":
            for g, evs in e.d.get("alts", ()):
                for x, d in flatten(evs, depth + 1):
                    yield x, d
        else:
            yield e, depth


def calls(step, *names):
    """(event, loop depth) of calls by method/function name"""
    return [(e, d) for e, d in flatten(step.st.events) if e.kind in ("mcall", "pcall") and e.name in names]


def arg(I, st, e, i, nm):
    """argument of a call event, by position or name, with its value at the call"""
    if e.kind == "pcall":
        for k, v in e.d.get("targs", ()) or e.args:
            if k == nm:
                return v if isinstance(v, T) else I.term(v, st)
        return None
    if "targs" in e.d and "tkw" in e.d:
        for k, v in e.d["tkw"]:
            if k == nm:
                return v
        return e.d["targs"][i] if i is not None and i < len(e.d["targs"]) else None
    for k, v in e.kwargs:
        if k == nm:
            return I.term(v, st)
    if i is not None and i < len(e.args):
        return I.term(e.args[i], st)
    return None


def is_restart(s):
    return s.what == "propose_action" and any(e.kind == "mcall" and (isinstance(e.recv, T) or isinstance(e.recv, Ref)) and s.I.term(e.recv, s.st) in (s.before("surrogate"), s.after("surrogate"))
                                              for e, d in calls(s, "reset"))


# ------------------------------------------------------------------ S04
def marker_attrs(m, key):
    """integer attributes compared with what acceptance stored in the record"""
    out = set()
    for u in m.updates:
        if u.phase != key or u.what != "completed":
            continue
        for f in u.path.facts:
            ss = [x for x in tm.subterms(f) if x.op == "sym"]
            if any(x.args[0].startswith("tag.") for x in ss):
                out |= {x.args[0].split(".", 1)[1] for x in ss if x.args[0].startswith("self2.") and x.args[1] in ("int", "num", "bool")}
    # closure: attributes their new values are computed from
    changed = True
    while changed:
        changed = False
        for s in all_steps(m):
            for a in list(out):
                t = s.after(a)
                if t is s.before(a):
                    continue
                for x in tm.subterms(t):
                    if x.op == "sym" and x.args[0].startswith(s.pre + ".") and x.args[1] in ("int", "num") and x.args[0].count(".") == 1:
                        b = x.args[0].split(".", 1)[1]
                        if b not in out:
                            out.add(b)
                            changed = True
    for a in m.answers:
        if a.phase == key and a.what == "accepted":
            for t in a.tags.values():
                for x in tm.subterms(t):
                    if x.op == "sym" and x.args[0].startswith("self1.") and x.args[0].count(".") == 1 and x.args[1] in ("int", "num", "bool"):
                        out.add(x.args[0].split(".", 1)[1])
    return {a for a in out if a in m.kinds}


class Markers:
    """inductive relations between the event markers of a strategy"""

    def __init__(self, m, attrs):
        self.m, self.attrs = m, sorted(attrs)
        lg = Logic(int_dom=(0, 1, 2, 3, 4, 5))
        self.lg = lg
        steps = [s for s in all_steps(m) if s.result != "raise"]
        self.mono, self.restart_only = {}, {}
        cand = [(a, b, strict) for a in self.attrs for b in self.attrs if a != b for strict in (True, False)]
        for s in constructors(m):
            cand = [c for c in cand if lg.entails([], self.rel(s.after, c))[0] is True]
        # Houdini: drop candidates some transition does not preserve
        changed = True
        while changed:
            changed = False
            for s in steps:
                pre = [self.rel(s.before, c) for c in cand]
                fs = [f for f in direct(s.path.facts, [s.before(a) for a in self.attrs])]
                for c in list(cand):
                    if s.after(c[0]) is s.before(c[0]) and s.after(c[1]) is s.before(c[1]):
                        continue
                    if lg.entails(fs + pre, self.rel(s.after, c))[0] is not True:
                        cand.remove(c)
                        changed = True
        self.inv = cand
        for a in self.attrs:
            mono, ro = True, True
            for s in steps:
                if s.after(a) is s.before(a):
                    continue
                if not is_restart(s):
                    ro = False
                pre = [self.rel(s.before, c) for c in cand]
                fs = [f for f in direct(s.path.facts, [s.before(b) for b in self.attrs])]
                if lg.entails(fs + pre, le(s.before(a), s.after(a)))[0] is not True:
                    mono = False
            self.mono[a], self.restart_only[a] = mono, ro

    def rel(self, val, c):
        a, b, strict = c
        return lt(val(a), val(b)) if strict else le(val(a), val(b))

    def facts(self, pre):
        return [self.rel(lambda a: self.m.sym(pre, a), c) for c in self.inv]


def tag_facts(step, M):
    syms = {M.m.sym("self2", a) for a in M.attrs}
    out = []
    for f in step.path.facts:
        ss = {x for x in tm.subterms(f) if x.op == "sym"}
        if any(x.args[0].startswith("tag.") for x in ss) or (ss and ss <= syms):
            out.append(f)
    return out


def rule_S04(p, rep, tier, seed):
    rep.rule = ("acceptance tags and restart markers are related by inductive order invariants; under 'accepted after the last restart' every "
                "completion path must add the point to model and run data once, under 'accepted before' none may")
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "_X", "_fX"):
            rep.unknown("%s run data" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S04")
        protocol(rep, m)
        # effects of each reply on the model and the run data
        for s in m.answers + m.updates + resume_steps(m):
            if s.result == "raise":
                continue
            adds = calls(s, "add_points")
            lab = name(s)
            if s.what != "completed":
                rep.check("%s adds nothing to the surrogate" % lab, where(s), not adds and not calls(s, "reset"), "calls %s %s" % ([e.name for e, d in adds + calls(s, "reset")], pathdesc(s)))
                for a in ("_X", "_fX"):
                    t = s.after(a)
                    if t is s.before(a):
                        rep.proven("%s keeps %s" % (lab, a), where(s))
                    else:
                        state_cmp(rep, "%s keeps %s" % (lab, a), s, t, lambda V, a=a, s=s: V.ev(s.before(a)), state_val(), [], seed=seed)
                continue
            if len(adds) == 1 and adds[0][1] == 0:
                e = adds[0][0]
                xa, fa = arg(s.I, s.st, e, 0, "xx"), arg(s.I, s.st, e, 1, "fx")
                recv = s.I.term(e.recv, s.st) if e.kind == "mcall" else None
                if xa is not None and fa is not None:
                    state_cmp(rep, "%s gives the model its point and value" % lab, s, (xa, fa), lambda V, s=s: (V.hx, V.ev(s.fx)), state_val(), [], seed=seed,
                              eqf=lambda a, b: same(np.ravel(a[0]), np.ravel(b[0]), 1e-12) and same(np.ravel(a[1]), np.ravel(b[1]), 1e-12))
                rep.check("%s adds to its own surrogate" % lab, where(s), None if recv is None else recv is s.before("surrogate"), "receiver %s" % (recv,))
            elif adds:
                rep.check("%s adds its point once" % lab, where(s), False if all(d == 0 for e, d in adds) else None, "%d calls of add_points %s" % (len(adds), pathdesc(s)))
            for a, row in (("_X", lambda V, s: V.hx), ("_fX", lambda V, s: np.array([V.ev(s.fx)]))):
                t = s.after(a)
                if adds:
                    state_cmp(rep, "%s of this run appends to %s" % (lab, a), s, t, lambda V, a=a, s=s, row=row: np.vstack((V.ev(s.before(a)), row(V, s))), state_val(), [], seed=seed)
                elif t is s.before(a):
                    rep.proven("%s not of this run keeps %s" % (lab, a), where(s))
                else:
                    state_cmp(rep, "%s not of this run keeps %s" % (lab, a), s, t, lambda V, a=a, s=s: V.ev(s.before(a)), state_val(), [], seed=seed)
        freshness(rep, m)


def freshness(rep, m):
    restarts = [s for s in m.steps if is_restart(s) and s.result == "eval"]
    attrs = set()
    for key in m.kinds_of_proposal:
        attrs |= marker_attrs(m, key)
    M = Markers(m, attrs)
    lg = Logic(int_dom=(0, 1, 2, 3, 4, 5, 6))
    rep.stats.setdefault("marker_relations", {})[m.ci.name] = ["%s %s %s" % (a, "<" if st else "<=", b) for a, b, st in M.inv]
    trusted = all(M.mono[a] for a in M.attrs)
    for key in m.kinds_of_proposal:
        acc = [a for a in m.answers if a.phase == key and a.what == "accepted" and a.result == "ok"]
        comp = [u for u in m.updates if u.phase == key and u.what == "completed" and u.result == "ok"]
        for u in [u for u in m.updates if u.phase == key and u.what in ("pending", "running") and u.result == "ok"]:
            for k in u.accept.tags:
                v = u.st.heap[u.rec.id].attrs.get(k)
                if any(tm.contains_t(f, mk("sym", "tag." + k, "int")) for c in comp for f in c.path.facts):
                    rep.check("%s keeps what acceptance recorded" % name(u), where(u), isinstance(v, T) and v.op == "sym" and v.args[0] == "tag." + k, "record.%s becomes %s" % (k, v))
        cache = {}
        for u in comp:
            adds = bool(calls(u, "add_points"))
            tf = tag_facts(u, M)
            ck = (adds, tuple(tf))
            if ck not in cache:
                cache[ck] = scenario(m, M, lg, acc, restarts, tf, adds, trusted)
            for (lab, ok, why) in cache[ck]:
                rep.check("%s %s" % (name(u), lab), where(u), ok, why + ((" " + pathdesc(u)) if ok is not True else ""))


def first_of_run(m, lg, a, restarts, cs):
    """a history restart - acceptance - completion, one directly after the other, in which cs holds"""
    for r in restarts:
        if tuple(m.fn_key(f) for f in r.cbs or ()) != a.phase:
            continue
        attrs = sorted({x.args[0].split(".")[1] for t in list(cs) + [a.after(b) for b in m._attrs] if isinstance(t, T) for x in tm.subterms(t)
                        if x.op == "sym" and x.args[0].split(".")[0] in ("self1", "self2") and x.args[0].count(".") == 1} & set(m._attrs))
        one = {m.sym("self1", x): r.after(x) for x in attrs}
        two = {m.sym("self2", x): tm.subst(a.after(x), one) for x in attrs}
        got = [tm.subst(tm.subst(c, two), one) for c in cs]
        nx, pend = r.before("ev_next"), r.before("pending_evals")
        pre = events_ordered(r.before) + [le(ZERO, pend), lt(pend, nx), bor(eq(pend, ZERO), r.before("asynchronous"))]
        if any(x.op == "sym" and not x.args[0].startswith((r.pre + ".", "tag.")) for c in got for x in tm.subterms(c)):
            continue
        h = lg.sat(got + pre)
        if h is not None:
            return h
    return None


def scenario(m, M, lg, acc, restarts, tf, adds, trusted):
    out = []
    for a in acc:
        tags = [eq(mk("sym", "tag." + k, "int"), t) for k, t in a.tags.items() if any(tm.contains_t(f, mk("sym", "tag." + k, "int")) for f in tf)]
        base = tags + M.facts("self1") + M.facts("self2")
        if not adds:
            cs = list(base)
            for x in M.attrs:
                if M.restart_only[x]:
                    cs.append(eq(m.sym("self2", x), a.after(x)))
                elif M.mono[x]:
                    cs.append(le(a.after(x), m.sym("self2", x)))
            w = lg.sat(cs + tf)
            if w is not None and not trusted:
                h = first_of_run(m, lg, a, restarts, tags + tf)
                if h is not None:
                    out.append(("of an evaluation of the current run enters the model", False, "left out although it is the first one of a new run: %s" % show_val_logic(h)))
                    continue
            out.append(("of an evaluation of the current run enters the model", True if w is None else (False if trusted else None),
                        "" if w is None else "possible although accepted after the last restart: %s" % show_val_logic(w)))
        else:
            if not restarts:
                out.append(("of an evaluation of an earlier run stays out of the model", None, "no restart transition found"))
            for r in restarts:
                cs = base + M.facts("self")
                for x in M.attrs:
                    if M.mono[x]:
                        cs.append(le(a.after(x), m.sym("self", x)))
                        cs.append(le(r.after(x), m.sym("self2", x)))
                w = lg.sat(cs + tf + direct(r.path.facts, [m.sym("self", x) for x in M.attrs]))
                out.append(("of an evaluation of an earlier run stays out of the model", True if w is None else (False if trusted else None),
                            "" if w is None else "possible although a restart happened after it was accepted: %s" % show_val_logic(w)))
    return out


# ------------------------------------------------------------------ S05
def phases_of(m):
    """proposal kind -> 'initial' / 'adaptive' classes, from the phase the strategy is in when it proposes"""
    out = {}
    for s in m.steps:
        if s.result != "eval" or s.cbs is None:
            continue
        key = tuple(m.fn_key(f) for f in s.cbs)
        ph = s.after("phase")
        r1 = L.entails(facts(s), eq(ph, ONE))[0]
        r2 = L.entails(facts(s), bnot(eq(ph, ONE)))[0]
        out.setdefault(key, set()).add("initial" if r1 is True else "adaptive" if r2 is True else "?")
    return out


def unphased(fs):
    """drop what the proposing state knew: the reply is made in another state"""
    return fs


def is_x(s, t):
    """is the queued value the evaluation's own point?"""
    x = s.x if isinstance(s.x, T) else s.I.term(s.x, s.st)
    if t is x:
        return True
    try:
        for k in range(6):
            V = state_val()(k)
            if not same(np.ravel(V.ev(t)), V.hx):
                return False
    except (Bad, Unknown):
        return None
    return True


def rule_S05(p, rep, tier, seed):
    rep.rule = "per transition: queue-after plus popped equals queue-before plus added, and what is added is exactly what the reply requires"
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "batch_queue", "asynchronous", "phase"):
            rep.unknown("%s queue" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S05")
        protocol(rep, m)
        cls = phases_of(m)
        for s in m.answers + m.updates:
            if s.result == "raise":
                continue
            lab = name(s)
            q = qdelta(s)
            if q is None:
                rep.unknown("%s queue effect" % lab, where(s), "queue operation not understood: %s" % (s.I.as_list(s.value("batch_queue"), s.st),))
                continue
            for c in sorted(cls.get(s.phase, {"?"})):
                if c == "?":
                    rep.unknown("%s kind of proposal" % lab, where(s), "phase of the proposal not determined")
                    continue
                back = None
                if c == "initial":
                    back = s.what in ("rejected", "killed", "cancelled")
                elif s.what == "rejected":
                    sync = L.entails(facts(s), bnot(s.before("asynchronous")))[0]
                    asyn = L.entails(facts(s), s.before("asynchronous"))[0]
                    if sync is True and asyn is True:
                        continue
                    if sync is True:
                        back = True
                    elif asyn is True:
                        back = False
                    else:
                        # one path for both modes: wrong in one of them
                        r = q.base == 1 and not q.popped
                        rep.check("%s %s depends on the mode" % (c, lab), where(s), False if r else None, "the queue gets %d points in both modes %s" % (len(q.added), pathdesc(s)))
                        continue
                else:
                    back = False
                intact = q.base == 1 and not q.popped
                if not back:
                    rep.check("%s %s leaves the queue" % (c, lab), where(s), intact and not q.added, "added %s popped %s %s" % (show_added(q.added), len(q.popped), pathdesc(s)))
                else:
                    ok = intact and len(q.added) == 1 and q.added[0][0] == "item"
                    if ok:
                        ok = is_x(s, q.added[0][1])
                    elif any(a[0] != "item" for a in q.added):
                        ok = None
                    rep.check("%s %s puts its point back once" % (c, lab), where(s), ok, "queue gets %s popped %s %s" % (show_added(q.added), len(q.popped), pathdesc(s)))
                    if c == "initial" and ok and len(set().union(*cls.values())) > 1:
                        keep = L.entails(facts(s), eq(s.after("phase"), ONE))[0]
                        if keep is False and not taken_adaptive(m, cls):
                            keep = None
                        rep.check("%s %s keeps its point in the initial design" % (c, lab), where(s), keep,
                                  "the strategy may be in the adaptive phase already: the queued point is then proposed as an adaptive one, which is not put back when it is lost again %s" % pathdesc(s))
        for s in m.steps:
            if s.result == "raise":
                continue
            conserve(rep, m, s)


def taken_adaptive(m, cls):
    """a point waiting in the queue may be proposed as an adaptive one"""
    for s in m.steps:
        if s.result == "eval" and s.cbs is not None and cls.get(tuple(m.fn_key(f) for f in s.cbs)) == {"adaptive"}:
            q = qdelta(s)
            if q is not None and q.base == 1 and q.popped and not q.added and L.entails(facts(s), eq(s.before("phase"), ONE))[0] is False:
                return True
    return False


def show_added(ad):
    return "[" + ", ".join(a[0] + " " + tm.show(a[-1])[:80] for a in ad) + "]"


def conserve(rep, m, s):
    """proposing takes exactly the proposed point out of the queue"""
    lab = "%s propose_action -> %s" % (m.ci.name, s.result)
    q = qdelta(s)
    if q is None:
        rep.unknown("%s takes its point from the queue" % lab, where(s), "queue operation not understood")
        return
    if s.result != "eval":
        rep.check("%s removes nothing from the queue" % lab, where(s), q.base == 1 and not q.popped, "popped %s %s" % ([tm.show(t)[:80] for t in q.popped], pathdesc(s)))
        return
    x = xterm(s) if s.x is not None else None
    if x is None:
        rep.unknown("%s takes its point from the queue" % lab, where(s), "proposed point unknown")
        return
    y = x
    if y.op == "firstitem":
        y = mk("getitem", y.args[0], ZERO)
    if q.popped:
        ok = len(q.popped) == 1 and q.base == 1 and (q.popped[0] is x or q.popped[0] is y)
        if not ok and len(q.popped) == 1 and q.base == 1 and tm.contains_t(x, q.popped[0]):
            xs = S("x", "arr1")
            t = tm.subst(x, {q.popped[0]: xs})
            ok = None
            try:
                ok = all(same(np.ravel(V.ev(t)), V.hx) for V in (state_val()(k) for k in range(6)))
            except (Bad, Unknown):
                pass
        rep.check("%s takes its point from the queue" % lab, where(s), ok, "takes out %s, proposes %s %s" % ([tm.show(t)[-80:] for t in q.popped], tm.show(x)[-120:], pathdesc(s)) if not ok else "")
    else:
        from_queue = tm.contains_t(x, s.before("batch_queue"))
        rep.check("%s takes its point from the queue" % lab, where(s), q.base == 1 and not from_queue, "proposes %s but leaves it queued %s" % (tm.show(x)[:120], pathdesc(s)))


# ------------------------------------------------------------------ S06
def rule_S06(p, rep, tier, seed):
    rep.rule = ("facts of every terminating path entail 'nothing outstanding and (budget spent or converged without restarts)', facts of every path that "
                "proposes nothing entail 'something is outstanding', facts of every proposing path exclude 'converged without restarts'")
    rep.assumptions.append("S01/S02: the outstanding counter is exact and completed + outstanding never exceeds the budget")
    for m in models(p):
        rep.unit(*m.I.visited)
        need = ("num_evals", "pending_evals", "max_evals", "converged", "use_restarts")
        if not has(m, *need):
            rep.unknown("%s termination state" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S06")
        latch = latch_invariant(rep, m)
        for s in m.steps:
            if s.result in ("raise", "other"):
                continue
            num, pend, mx = (s.before(a) for a in ("num_evals", "pending_evals", "max_evals"))
            done = bor(le(mx, num), band(s.after("converged"), bnot(s.before("use_restarts"))))
            fs = facts(s) + latch(s)
            lab = "%s propose_action -> %s" % (m.ci.name, s.result)
            if s.result == "terminate":
                for what, g in (("only when nothing is outstanding", eq(pend, ZERO)), ("only when the budget is spent or it has converged for good", done)):
                    ok, why = L.entails(fs, g)
                    rep.check("%s %s" % (lab, what), where(s), ok, counter(ok, why, s))
            elif s.result is NONE or s.result == "None" or s.result is None:
                if phi_none(s):
                    rep.unknown("%s something is outstanding" % lab, where(s), "result of the proposal not determined")
                    continue
                ok, why = L.entails(fs, le(ONE, pend))
                rep.check("%s only while something is outstanding" % lab, where(s), ok, counter(ok, why, s))
            elif s.result == "eval":
                conv = s.after("converged")
                # converged at any point before the proposal, unless a restart cleared it
                ok, why = L.entails(fs, bnot(band(s.before("converged"), bnot(s.before("use_restarts")))))
                rep.check("%s never after convergence without restarts" % lab, where(s), ok, counter(ok, why, s))
                ok, why = L.entails(fs, bnot(band(conv, bnot(s.before("use_restarts")))))
                rep.check("%s never when this step converged without restarts" % lab, where(s), ok, counter(ok, why, s))
        if m.ci is models(p)[0].ci:
            random_reply(p, rep)


def phi_none(s):
    return False


def counter(ok, why, s):
    if ok is True:
        return ""
    return "counter-state %s %s" % (show_val_logic(why) if isinstance(why, dict) else why, pathdesc(s))


def latch_invariant(rep, m):
    """is the termination flag only ever set when the run is really over?  returns step -> facts"""
    if "terminate" not in m.kinds:
        return lambda s: []

    def I_of(val, before):
        return bor(bnot(val("terminate")), band(eq(val("pending_evals"), ZERO), le(val("max_evals"), val("num_evals"))),
                   band(val("converged"), bnot(val("use_restarts"))))
    ok_all = True
    resets = False
    for s in m.answers + m.updates:
        if s.result != "raise" and s.after("terminate") is not s.before("terminate"):
            r, _ = L.entails(facts(s), bnot(s.after("terminate")))
            resets = resets or r is not False
    for s in list(all_steps(m)) + constructors(m):
        if s.result == "raise":
            continue
        if all(s.after(a) is s.before(a) for a in ("terminate", "pending_evals", "num_evals", "max_evals", "converged", "use_restarts")):
            continue
        pre = [] if s.what == "constructor" else facts(s) + [I_of(s.before, s)]
        ok, why = L.entails(pre, I_of(s.after, s))
        key = "%s keeps 'terminate is set only when the run is over'" % (name(s) + (" -> %s" % s.result if s.what == "propose_action" else ""))
        if ok is True:
            rep.proven(key, where(s))
            continue
        ok_all = False
        sets = s.after("terminate") is not s.before("terminate")
        rep.check(key, where(s), False if ok is False and sets and not resets else None, counter(ok, why, s))
    if ok_all:
        return lambda s: [I_of(s.before, s)]
    return lambda s: [I_of(s.before, s)] if ok_all is None else [bor(bnot(s.before("terminate")), TRUE), I_of(s.before, s)]


def random_reply(p, rep):
    ci = p.cls("RandomStrategy")
    if ci is None:
        return
    I = Interp(p, opaque=("round_vars", "check_opt_prob"))
    fi = p.find_method(ci, "propose_action")
    st = State()
    me = symobj(I, st, ci)
    rep.unit(fi)
    for q in call(I, fi, [me], st=st, recv=me):
        if q.raised:
            continue
        kind = None
        if isinstance(q.v, Ref):
            a = q.st.heap[q.v.id].attrs.get("action") if q.st.heap[q.v.id].attrs else None
            ok, v = tm.py_const(I.term(a, q.st)) if a is not None else (False, None)
            kind = v if ok else "queued"
        out = [t for f in q.facts for t in tm.subterms(f) if t.op == "attr" and "outstanding" in str(t.args[-1]) or (t.op == "sym" and str(t.args[0]).endswith("num_eval_outstanding"))]
        emp = [t for f in q.facts for t in tm.subterms(f) if t.op == "mcall" and t.args[1] == "empty"]
        if kind == "terminate":
            g = band(*([eq(o, ZERO) for o in out[:1]] + [mk("truthy", e) for e in emp[:1]])) if out and emp else None
            if g is None:
                rep.check("RandomStrategy terminates only when nothing is queued or outstanding", loc(fi), False if not out else None, "path %s" % [tm.show(f) for f in q.facts])
                continue
            ok, why = L.entails(list(q.facts), g)
            rep.check("RandomStrategy terminates only when nothing is queued or outstanding", loc(fi), ok, "path %s" % [tm.show(f) for f in q.facts])
        elif q.v is NONE or q.v is None:
            ok = L.entails(list(q.facts) + [le(ZERO, out[0])], le(ONE, out[0]))[0] if out else False
            rep.check("RandomStrategy waits only while something is outstanding", loc(fi), ok, "path %s" % [tm.show(f) for f in q.facts])


# ------------------------------------------------------------------ S07 / S08
RUN_LOCAL = ("sampling_radius", "status", "failcount", "_fbest", "converged", "phase")
GLOBAL = ("X", "fX", "fevals", "num_evals", "accepted_count", "rejected_count")


def touched_converged(s):
    for e, d in flatten(s.st.events):
        if e.kind == "setattr" and e.name == "converged" and e.obj == s.me:
            v = e.value
            if isinstance(v, T) and tm.py_const(v) == (True, True):
                return True
    return False


def restart_due(s):
    """True/False/None: does the path handle a converged run?"""
    if touched_converged(s):
        return True
    if L.entails(facts(s), s.before("converged"))[0] is True:
        return True
    if L.entails(facts(s), bnot(s.before("converged")))[0] is True:
        return False
    return None


def added_count(q):
    """number of queue entries a transition adds, as a term"""
    n = ZERO
    for a in q.added:
        if a[0] == "item":
            n = add(n, ONE)
        else:
            n = add(n, mk("Sum", a[1], a[2], ONE))
    return n


def design_rows(s, q):
    """does the transition queue every row of one generated design, unconditionally?  (True/False/None, detail)"""
    gens = calls(s, "generate_points")
    if len(gens) != 1 or gens[0][1] != 0:
        return (False if not gens else None), "%d calls of generate_points" % len(gens)
    e = gens[0][0]
    blocks = [a for a in q.added if a[0] == "each" and any(t.op == "mcall" and t.args[1] == "generate_points" for t in tm.subterms(a[3]))]
    if not blocks:
        its = [a for a in q.added if tm.contains(a[-1], lambda t: t.op == "mcall" and t.args[1] == "generate_points")]
        return (False if not q.added else None), "no row of the design is queued" if not its else "rows of the design: %s" % show_added(its)
    if len(blocks) != 1:
        return None, "%d blocks of design rows" % len(blocks)
    _, bv, g, v = blocks[0]
    if g is not TRUE:
        return None, "conditional rows"
    recv = s.I.term(e.recv, s.st)

    def mkval(k):
        V = Valuation(k)
        V.hints["num_pts"] = 1 + V.rnd.randrange(4) if k else 150
        return V
    lst = mk("list", mk("each", bv, g, v))
    design = [t for t in tm.subterms(v) if t.op == "mcall" and t.args[1] == "generate_points"][0]
    taken = []
    if not q.popped and s.result == "eval" and s.x is not None and tm.contains_t(xterm(s), design):
        taken = [xterm(s)]  # queued and proposed at once
    try:
        for k in range(8):
            V = mkval(k)
            D = np.asarray(V.ev(design), float)
            if k % 2 and len(D) > 1:
                D[-1] = D[0]  # points of a design may coincide
            got = list(V.ev(lst)) + [V.ev(t) for t in taken]
            rows = [np.ravel(x) for x in got]
            if sorted(map(tuple, np.round(D, 8))) != sorted(tuple(np.round(np.asarray(r, float), 8)) for r in rows):
                return False, "queues %s of the design %s" % (sv(got), sv(D))
    except (Unknown, Bad) as ex:
        return None, "rows not interpretable: %s" % ex
    return True, "each of the num_pts rows once"


def design_args(s):
    """is the design generated for the problem's own bounds and integer variables?"""
    gens = calls(s, "generate_points")
    if len(gens) != 1:
        return None, "no single design"
    e = gens[0][0]
    prob = s.value("opt_prob")
    pt = s.I.term(prob, s.st)
    out = []
    for i, (k, a) in enumerate((("lb", "lb"), ("ub", "ub"), ("int_var", "int_var"))):
        t = arg(s.I, s.st, e, i, k)
        if t is None or t is NONE:
            return False, "generate_points gets no %s" % k
        if tm.show(t) == "%s.%s" % (tm.show(pt), a):
            continue
        if t.op in ("sym", "attr"):
            return False, "generate_points gets %s for %s" % (tm.show(t), k)
        return None, "generate_points gets %s for %s" % (tm.show(t)[:80], k)
    return True, ""


PLAIN = ("X", "fX", "_X", "_fX", "Xpend", "num_evals", "pending_evals", "max_evals", "converged", "use_restarts", "asynchronous", "batch_queue", "phase", "extra_points",
         "extra_vals", "batch_size", "terminate", "ev_restart", "ev_next", "ev_last", "accepted_count", "rejected_count", "fevals", "num_pts", "exp_design", "init_pending")


def later_run(s):
    """may this restart take place when something was evaluated before?  (True, state) | (False, None) | (None, reason)"""
    nx = s.before("ev_next")
    fs = facts(s) + [le(ONE, length(s.before("X"))), le(ONE, nx), lt(s.before("ev_restart"), nx), le(ZERO, s.before("ev_restart")), le(s.before("ev_restart"), s.before("ev_last")),
                     lt(s.before("ev_last"), nx), eq(length(s.before("X")), length(s.before("fX")))]
    ok, why = L.entails(fs, FALSE)
    if ok is True:
        return False, None
    if ok is None:
        return None, why
    ep = s.before("extra_points")
    for f in s.path.facts:
        for t in tm.subterms(f):
            if t.op == "sym" and str(t.args[0]).startswith(s.pre + ".") and str(t.args[0]).split(".")[1] not in PLAIN:
                if not tm.contains(f, lambda u: u.op in ("pcall", "mcall", "vcall")):
                    return None, "depends on %s" % t.args[0]
    return True, None


def rule_S07(p, rep, tier, seed):
    rep.rule = "post-states of the restart transitions: run data empty, surrogate reset, full design queued, run-local state equal to the constructor's, global state equal to the pre-state; transitions that must restart do"
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "converged", "phase", "_X", "_fX", "batch_queue"):
            rep.unknown("%s run state" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S07")
        ctor = constructors(m)
        found = False
        for s in m.steps:
            if s.result != "eval":
                if s.result not in ("raise", "other") and is_restart(s):
                    rep.unknown("%s restart without proposal" % m.ci.name, where(s), pathdesc(s))
                continue
            due = restart_due(s)
            rst = is_restart(s)
            lab = "%s restart" % m.ci.name
            if due is True and not rst:
                rep.refute("%s happens when a converged run goes on" % lab, where(s), "an evaluation is proposed after convergence without emptying the surrogate %s" % pathdesc(s))
            elif due is False and rst:
                rep.refute("%s happens only after convergence" % lab, where(s), "surrogate reset on a path that has not converged %s" % pathdesc(s))
            elif due is None:
                rep.unknown("%s exactly after convergence" % lab, where(s), pathdesc(s))
            if not rst:
                if due is False:
                    for a in ("_X", "_fX"):
                        rep.check("%s propose_action without restart keeps %s" % (m.ci.name, a), where(s), True if s.after(a) is s.before(a) else None, tm.show(s.after(a))[:150])
                continue
            found = True
            first = L.entails(facts(s), le(length(s.before("X")), ZERO))[0] is True
            resets = [e for e, d in calls(s, "reset") if e.kind == "mcall" and s.I.term(e.recv, s.st) is s.before("surrogate")]
            rep.check("%s empties the surrogate" % lab, where(s), bool(resets) or None, "")
            late = [e.name for e, d in calls(s, "add_points")]
            if not first:
                ok = not late
                if late:
                    lt_, w = later_run(s)
                    ok = False if lt_ is True else None
                    if lt_ is False:
                        continue
                rep.check("%s leaves the surrogate empty" % lab, where(s), ok, "add_points is called %s" % pathdesc(s))
                for a in ("_X", "_fX"):
                    state_cmp(rep, "%s empties %s" % (lab, a), s, s.after(a), lambda V: 0, state_val(), [s.before("X")], eqf=lambda x, w: np.ndim(x) == 2 and len(x) == 0, seed=seed)
            q = qdelta(s)
            if q is None:
                rep.unknown("%s queues a new design" % lab, where(s), "queue not understood")
            else:
                ok, why = design_rows(s, q)
                rep.check("%s queues a complete new design" % lab, where(s), ok, why + (pathdesc(s) if ok is not True else ""))
                rep.check("%s keeps what was queued" % lab, where(s), True if q.base == 1 else None, "")
            for a in RUN_LOCAL:
                if a not in m.kinds:
                    continue
                if not ctor:
                    rep.unknown("%s resets %s" % (lab, a), where(s), "no constructor summary")
                    continue
                got = s.after(a)
                inits = {c.after(a) for c in ctor}
                if len(inits) != 1:  # a run without extra points is what a restart must look like
                    plain = [c for c in ctor if any(f.op == "is" and f.args[0].op == "sym" and f.args[0].args[0] == "extra_points" and f.args[1] is tm.NONE for f in c.path.facts)]
                    inits = {c.after(a) for c in plain} or inits
                if len(inits) != 1:
                    rep.unknown("%s resets %s" % (lab, a), where(s), "initial value differs between constructor paths")
                    continue
                init = next(iter(inits))
                if got is init:
                    rep.proven("%s resets %s to %s" % (lab, a, tm.show(init)), where(s))
                elif got is s.before(a):
                    writers = [u for u in m.updates + m.answers + m.steps if u is not s and u.result != "raise" and u.after(a) is not u.before(a) and not is_restart(u)]
                    if writers:
                        rep.refute("%s resets %s" % (lab, a), where(s), "%s keeps the value of the finished run (constructor sets %s) %s" % (a, tm.show(init), pathdesc(s)))
                    else:
                        rep.proven("%s: %s never changes" % (lab, a), where(s))
                else:
                    ok, w = L.entails(facts(s), eq(got, init)) if tm.is_const(init) else (None, None)
                    if tm.is_const(init) and not tm.is_const(got) and ok is not True:
                        state_cmp(rep, "%s resets %s" % (lab, a), s, got, lambda V, init=init: V.ev(init), state_val(), [s.before("X")], seed=seed)
                        continue
                    rep.check("%s resets %s" % (lab, a), where(s), False if tm.is_const(got) and tm.is_const(init) else (True if ok is True else None), "%s becomes %s, initially %s %s" % (a, tm.show(got), tm.show(init), pathdesc(s)))
            for a in GLOBAL:
                if a not in m.kinds:
                    continue
                t = s.after(a)
                if t is s.before(a):
                    rep.proven("%s keeps %s" % (lab, a), where(s))
                    continue
                if first and a in ("X", "fX"):
                    continue
                if a in ("num_evals", "accepted_count", "rejected_count"):
                    ok, w = L.entails(facts(s), eq(t, s.before(a)))
                    rep.check("%s keeps %s" % (lab, a), where(s), ok, "%s becomes %s %s" % (a, tm.show(t), pathdesc(s)))
                elif a == "fevals":
                    ad = list_added(s, a)
                    rep.check("%s keeps %s" % (lab, a), where(s), (True if ad == [] else False if tm.is_const(t) or t.op == "list" else None), "%s becomes %s %s" % (a, tm.show(t)[:100], pathdesc(s)))
                else:
                    state_cmp(rep, "%s keeps %s" % (lab, a), s, t, lambda V, a=a, s=s: V.ev(s.before(a)), state_val(), [s.before("X")], seed=seed)
            d = sub(s.after("pending_evals"), s.before("pending_evals"))
            ok, w = L.entails(facts(s), eq(d, ONE))
            rep.check("%s keeps the outstanding evaluations" % lab, where(s), ok, "pending_evals changes by %s" % tm.show(d))
            mp = {xterm(s): S("x", "arr1")} if s.x is not None else {}
            t = tm.subst(s.after("Xpend"), mp) if mp else s.after("Xpend")
            state_cmp(rep, "%s keeps the pending points" % lab, s, t, lambda V: np.vstack((V.hpend, V.hx)), state_val(False), [], eqf=same_rows, seed=seed, subst=mp)
        if not found:
            rep.unknown("%s restart" % m.ci.name, m.ci.qual, "no restart transition recognised")


def search_calls(s):
    return [(e, d) for e, d in flatten(s.st.events) if e.kind == "pcall" and e.name in SEARCHES and e.name not in ("nd_sorting", "check_radius_rule", "round_vars", "check_opt_prob")]


def rule_S08(p, rep, tier, seed):
    rep.rule = "paths that generate points or restart: facts entail (asynchronous or nothing outstanding); the number of points added to the queue equals 1 (asynchronous) or batch_size (synchronous)"
    for m in models(p):
        rep.unit(*m.I.visited)
        if not has(m, "asynchronous", "batch_size", "pending_evals", "batch_queue"):
            rep.unknown("%s batch state" % m.ci.name, m.ci.qual, "not found by name")
            continue
        understood(rep, m, "S08")
        quiet = converged_quiet(rep, m)
        n_gen = 0
        for s in m.steps:
            if s.result in ("raise", "other"):
                continue
            asy, pend = s.before("asynchronous"), s.before("pending_evals")
            gen = search_calls(s)
            lab = "%s propose_action -> %s" % (m.ci.name, s.result)
            if is_restart(s):
                ok, why = L.entails(facts(s), bor(asy, eq(pend, ZERO)))
                rep.check("%s synchronous restart waits for the whole batch" % lab, where(s), ok, counter(ok, why, s))
                ok, why = L.entails(facts(s) + quiet(s), bor(asy, le(length(s.before("batch_queue")), ZERO)))
                rep.check("%s synchronous restart finds the queue empty" % lab, where(s), True if ok is True else None, counter(ok, why, s))
            if not gen:
                continue
            n_gen += 1
            ok, why = L.entails(facts(s), bor(asy, eq(pend, ZERO)))
            rep.check("%s synchronous generation waits for the whole batch" % lab, where(s), ok, counter(ok, why, s))
            ok, why = L.entails(facts(s), le(length(s.before("batch_queue")), ZERO))
            ok2, why2 = L.entails(facts(s), bor(asy, le(length(s.before("batch_queue")), ZERO)))
            rep.check("%s generation only with an empty queue" % lab, where(s), ok2 if ok2 is not True else (True if ok is True else None), counter(ok2, why2, s))
            q = qdelta(s)
            conv = touched_converged(s)
            if q is None:
                rep.unknown("%s batch size" % lab, where(s), "queue not understood")
                continue
            net = added_count(q)
            if s.result == "eval" and not q.popped and not is_restart(s):
                net = add(net, ONE)  # generated and taken at once
            if conv:
                if is_restart(s):
                    gens = [a for a in q.added if not tm.contains(a[-1], lambda t: (t.op == "mcall" and t.args[1] == "generate_points") or t is s.before("extra_points"))]
                    rep.check("%s convergence adds no points" % lab, where(s), True if not gens else None, show_added(gens))
                else:
                    rep.check("%s convergence adds no points" % lab, where(s), not q.added, show_added(q.added) + pathdesc(s))
                continue
            want = tm.ite(asy, ONE, s.before("batch_size"))
            ok, why = L.entails(facts(s), eq0(net, want))
            rep.check("%s generates exactly the requested number" % lab, where(s), ok, ("adds %s points " % tm.show(net)) + counter(ok, why, s))
            for e, d in gen:
                if d:
                    continue
                n = arg(s.I, s.st, e, None, "num_pts")
                if n is None:
                    continue
                ok, why = L.entails(facts(s), eq0(n, want)) if e.name in ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga") else (True, None)
                rep.check("%s asks the search for that number" % lab, where(s), ok, "num_pts=%s %s" % (tm.show(n), counter(ok, why, s)))
        # a batch is generated as soon as nothing is outstanding and queued
        if not n_gen:
            rep.unknown("%s generation" % m.ci.name, m.ci.qual, "no call of a search function recognised")


def converged_quiet(rep, m):
    """synchronous mode: convergence is only declared when nothing is outstanding and nothing is queued"""
    def I_of(s, val, qlen):
        return bor(bnot(val("converged")), s.before("asynchronous"), band(eq(val("pending_evals"), ZERO), le(qlen, ZERO)))
    good = True
    for s in m.updates + m.answers:
        if s.result == "raise" or not (touched_converged(s) or s.after("converged") is not s.before("converged")):
            continue
        q = qdelta(s)
        if q is None:
            good = False
            continue
        qlen = add(sub(length(s.before("batch_queue")), const(len(q.popped))), added_count(q))
        ok, why = L.entails(facts(s) + [bnot(s.before("converged"))], I_of(s, s.after, qlen))
        rep.check("%s declares synchronous convergence only after the whole batch" % name(s), where(s), ok if ok is not False else (False if touched_converged(s) else None), counter(ok, why, s))
        good = good and ok is True
    if good:
        return lambda s: [bor(bnot(s.before("converged")), s.before("asynchronous"), band(eq(s.before("pending_evals"), ZERO), le(length(s.before("batch_queue")), ZERO)))]
    return lambda s: []


# ------------------------------------------------------------------ S09
def rule_S09(p, rep, tier, seed):
    rep.rule = "constructor summary: the queue is the generated design plus the extra points without a finite value; the others enter history, run data and surrogate with their value"

    def mkval(k):
        V = Valuation(k)
        n = V.rnd.randrange(0, 4) if not V.many else 25
        ep = V.points(n).reshape(n, V.dim)
        if n > 1 and V.rnd.random() < .3:
            ep[-1] = ep[0]
        ev = np.round(V.np.uniform(-2, 2, (n, 1)), 4)
        for i in range(n):
            r = V.rnd.random()
            if r < .25:
                ev[i, 0] = np.inf if V.seed % 4 < 2 else -np.inf
            elif r < .5:
                ev[i, 0] = np.nan
        V.hints.update({"extra_points": ep, "extra_vals": ev, "num_pts": 1 + V.rnd.randrange(3) if not V.many else 130, "dim": V.dim})
        V.ep, V.evv = ep, ev
        return V
    for m in models(p):
        rep.unit(*m.I.visited)
        ctor = constructors(m)
        if not ctor:
            rep.unknown("%s constructor" % m.ci.name, m.ci.qual, "no summary")
            continue
        A = m._ctor_args
        if has(m, "X", "fX", "_X", "batch_queue", "extra_points", "extra_vals", "ev_restart", "ev_next", "ev_last"):
            for s in m.steps:
                if s.result == "raise" or not is_restart(s):
                    continue
                ep, q = s.before("extra_points"), qdelta(s)
                used = [a for a in ("X", "fX", "_X", "_fX") if tm.contains_t(s.after(a), ep)] + ["batch_queue" for a in (q.added if q else ()) if tm.contains_t(a[-1], ep)]
                used += ["the surrogate" for e, d in calls(s, "add_points") if any(tm.contains_t(s.I.term(x, s.st), ep) for x in list(e.args))]
                key = "%s restart leaves the extra points out" % m.ci.name
                if not used:
                    rep.proven(key, where(s))
                    continue
                ok, w = later_run(s)
                rep.check(key, where(s), {True: False, False: True, None: None}[ok], "extra points enter %s in a later run %s%s" % (", ".join(sorted(set(used))), w or "", pathdesc(s)))
        for s in ctor:
            lab = "%s constructor" % m.ci.name
            q = qdelta(s) if False else None
            lc = s.I.as_list(s.value("batch_queue"), s.st)
            ok, why = design_args(s)
            rep.check("%s design is generated for the problem's bounds and integer variables" % lab, where(s), ok, why)
            gens = [t for a in (lc or []) for t in tm.subterms(s.I.term(a[-1], s.st)) if t.op == "mcall" and t.args[1] == "generate_points"]
            ep, ev = A.get("extra_points"), A.get("extra_vals")
            if ep is None or ev is None or lc is None:
                rep.unknown("%s queue" % lab, where(s), "not understood")
                continue
            has_ep = L.entails(list(s.path.facts), bnot(mk("is", ep, NONE)))[0] is True
            no_ep = L.entails(list(s.path.facts), mk("is", ep, NONE))[0] is True
            no_ev = L.entails(list(s.path.facts), mk("is", ev, NONE))[0] is True
            nd = len(calls(s, "generate_points"))
            rep.check("%s generates one design" % lab, where(s), nd == 1, "%d calls" % nd)
            if not gens:
                rep.refute("%s queues the design" % lab, where(s), "no row of the design is queued %s" % pathdesc(s))
                continue
            D = gens[0]

            # the three cases of extra points
            for case in ("none", "unknown", "given"):
                def mkv(k, case=case):
                    V = mkval(k)
                    if case == "none":
                        V.hints.update({"extra_points": None, "extra_vals": None})
                    elif case == "unknown":
                        V.hints["extra_vals"] = None
                    return V

                def known(V, case=case):
                    if case != "given":
                        return []
                    return [i for i in range(len(V.ep)) if np.all(np.isfinite(V.evv[i]))]

                def spec_q(V, case=case):
                    d = V.ev(D)
                    if isinstance(d, np.ndarray) and len(d) > 1 and V.seed % 2:
                        d[-1] = d[0]  # points of a design may coincide
                    d = [r for r in np.asarray(d, float)]
                    if case == "none":
                        return d
                    kn = known(V)
                    return d + [V.ep[i] for i in range(len(V.ep)) if i not in kn]

                def eqq(a, b):
                    if not isinstance(a, (list, tuple)):
                        return False
                    a = sorted(tuple(np.ravel(x).astype(float)) for x in a)
                    b = sorted(tuple(np.ravel(x).astype(float)) for x in b)
                    return len(a) == len(b) and all(same(np.array(x), np.array(y), 1e-12) for x, y in zip(a, b))
                key = "%s, extra points %s: " % (lab, {"none": "absent", "unknown": "without values", "given": "with values"}[case])
                ctor_cmp(rep, key + "queue holds the design and the unknown points once", s, mkv, s.after("batch_queue"), spec_q, eqq, seed)
                for a, src in (("X", "p"), ("_X", "p"), ("fX", "v"), ("_fX", "v")):
                    def spec_h(V, src=src, known=known):
                        kn = known(V)
                        if src == "p":
                            return np.array([V.ep[i] for i in kn]).reshape(-1, V.dim)
                        return np.array([V.evv[i] for i in kn]).reshape(-1, 1)
                    ctor_cmp(rep, key + "%s holds the known %s" % (a, "points" if src == "p" else "values"), s, mkv, s.after(a), spec_h,
                             lambda a, b: np.ndim(a) == 2 and len(a) == len(b) and (len(b) == 0 or same(a, b)), seed)
                ctor_adds(rep, key + "the surrogate gets the known points with their values", s, mkv, known, seed)


def ctor_cmp(rep, key, s, mkv, t, spec, eqf, seed, n=8):
    got, why = 0, ""
    for k in range(n * 6):
        V = mkv(seed * 100 + k)
        r, w = usable(V, s.path.facts)
        if not r:
            continue
        try:
            want = spec(V)
            v = V.ev(t)
        except (Unknown, Bad) as e:
            rep.unknown(key, where(s), "not interpretable: %s" % e)
            return
        if not eqf(v, want):
            rep.refute(key, where(s), "is %s, specified %s for %s" % (sv(v), sv(want), show_val(V)))
            return
        got += 1
        if got >= n:
            break
    if got >= 2:
        rep.proven(key, where(s), tm.show(t)[:200])
    # otherwise this case does not take this path


def usable(V, fs):
    """do the interpretable facts hold?"""
    for f in fs:
        try:
            if not V.truth(f):
                if any(x.op in ("isinst",) or (x.op == "mcall") for x in tm.subterms(f)):
                    continue
                if not any(x.op == "sym" and x.args[0].startswith("extra_") for x in tm.subterms(f)):
                    continue
                return False, tm.show(f)
        except (Unknown, Bad):
            continue
    return True, ""


def ctor_adds(rep, key, s, mkv, known, seed):
    """add_points events of the constructor, with their loop guards"""
    evs = []

    def walk_(events, ctx):
        for e in events:
            if e.kind == "loop":
                for g, es in e.d.get("alts", ()):
                    walk_(es, ctx + [(e.d.get("bv"), g, getattr(e, "partial", False))])
            elif e.kind == "mcall" and e.name == "add_points":
                evs.append((e, ctx))
    walk_(s.st.events, [])
    n = 0
    for k in range(40):
        V = mkv(seed * 100 + k)
        if not usable(V, s.path.facts)[0]:
            continue
        try:
            got = []
            for e, ctx in evs:
                x, f = arg(s.I, s.st, e, 0, "xx"), arg(s.I, s.st, e, 1, "fx")
                if any(c[2] or c[0] is None for c in ctx):
                    rep.unknown(key, where(s), "loop with early exit")
                    return
                got += expand(V, ctx, x, f)
            kn = known(V)
            want = [(V.ep[i], V.evv[i]) for i in kn]
        except (Unknown, Bad) as ex:
            rep.unknown(key, where(s), "not interpretable: %s" % ex)
            return
        fz = lambda L: sorted((tuple(np.round(np.ravel(a).astype(float), 8)), tuple(np.round(np.ravel(b).astype(float), 8))) for a, b in L)
        if fz(got) != fz(want):
            rep.refute(key, where(s), "adds %s, specified %s for %s %s" % (sv(got), sv(want), show_val(V), pathdesc(s)))
            return
        n += 1
    if n >= 2:
        rep.proven(key, where(s))


def expand(V, ctx, x, f):
    if not ctx:
        a, b = V.ev(x), V.ev(f)
        if np.ndim(a) == 2:
            b = np.atleast_1d(np.asarray(b, float)).reshape(len(a), -1)
            return [(a[i], b[i]) for i in range(len(a))]
        return [(a, b)]
    (bv, g, _), rest = ctx[0], ctx[1:]
    out = []
    for k in V.over(bv):
        V.bvs[bv] = k
        V.memo.clear()
        if g is None or g is TRUE or V.truth(g):
            out += expand(V, rest, x, f)
    V.bvs.pop(bv, None)
    V.memo.clear()
    return out


# ------------------------------------------------------------------ S12
def rule_S12(p, rep, tier, seed):
    rep.rule = "the weights handed to the candidate search are weights[(next+i) mod len] for i < num_pts, the position advances by num_pts modulo the length, and nothing else moves it"
    for m in models(p):
        if not has(m, "weights", "next_weight"):
            continue
        rep.unit(*m.I.visited)
        understood(rep, m, "S12")
        n = 0
        for s in m.steps:
            gen = [(e, d) for e, d in search_calls(s) if arg(s.I, s.st, e, None, "weights") is not None]
            if s.result in ("raise", "other"):
                continue
            lab = "%s propose_action -> %s" % (m.ci.name, s.result)
            if not gen:
                moved(rep, lab, s)
                continue

            def mkval(k):
                V = Valuation(k)
                nw = 1 + V.rnd.randrange(14)
                w = [round(x, 3) for x in V.np.uniform(0, 1, nw)]
                if V.seed % 2:
                    w = np.array(w)
                V.hints.update({"weights": w, "next_weight": V.rnd.randrange(nw), "batch_size": 1 + V.rnd.randrange(6), "dim": V.dim})
                return V
            for e, d in gen:
                n += 1
                W = arg(s.I, s.st, e, None, "weights")
                N = arg(s.I, s.st, e, None, "num_pts")
                nxt = s.after("next_weight")

                def spec(V, N=N, s=s):
                    w, i, k = V.ev(s.before("weights")), V.ev(s.before("next_weight")), V.ev(N)
                    return [w[(i + j) % len(w)] for j in range(k)], (i + k) % len(w)
                state_cmp(rep, "%s hands out the next weights" % lab, s, (W, nxt), spec, mkval, [], n=16, seed=seed,
                          eqf=lambda a, b: same(list(a[0]), list(b[0])) and same(a[1], b[1]))
        for s in m.answers + m.updates + resume_steps(m):
            if s.result != "raise":
                moved(rep, name(s), s)
        for s in constructors(m):
            ok, w = L.entails([], eq(s.after("next_weight"), ZERO))
            rep.check("%s starts with the first weight" % m.ci.name, where(s), ok)
        if not n:
            rep.unknown("%s weights" % m.ci.name, m.ci.qual, "no search call with weights recognised")
    from .search import weight_of_point
    with rep.guard("selection loop", ""):
        weight_of_point(p, rep, seed, 40 if tier == "quick" else 200)


def moved(rep, lab, s):
    t = s.after("next_weight")
    if t is s.before("next_weight"):
        rep.proven("%s keeps the weight position" % lab, where(s))
    else:
        ok, why = L.entails(facts(s), eq(t, s.before("next_weight")))
        rep.check("%s keeps the weight position" % lab, where(s), ok, "next_weight becomes %s %s" % (tm.show(t), pathdesc(s)))


# ------------------------------------------------------------------ S15
DOCUMENTED = {"SRBFStrategy": ("candidate_srbf",), "DYCORSStrategy": ("candidate_dycors",), "SOPStrategy": ("candidate_dycors",), "EIStrategy": ("ei_ga",), "LCBStrategy": ("lcb_ga",)}


def rule_S15(p, rep, tier, seed):
    rep.rule = ("every search call of a transition that generates points: the documented search, the strategy's own surrogate, weights of one (prediction only) in SOP, "
                "the current sampling radius in the stochastic RBF strategies, the configured kappa in LCB")
    found = False
    for m in models(p):
        want = DOCUMENTED.get(m.ci.name)
        if want is None:
            continue
        rep.unit(*m.I.visited)
        n = 0
        done = set()
        for s in m.steps:
            if s.result in ("raise", "other"):
                continue
            for e, depth in search_calls(s):
                n += 1
                lab = m.ci.name
                args = {k: arg(s.I, s.st, e, None, k) for k in ("surrogate", "weights", "sampling_radius", "kappa")}
                key = (e.name, tuple(args.values()), tuple(direct(s.path.facts, [a for a in args.values() if a is not None])))
                if key in done:
                    continue
                done.add(key)
                rep.check("%s uses the documented search" % lab, where(s), e.name in want, "%s instead of %s" % (e.name, want[0]))
                own(rep, "%s searches its own surrogate" % lab, s, args["surrogate"], "surrogate")
                if lab == "SOPStrategy":
                    W = args["weights"]
                    if W is None:
                        rep.unknown("%s selects by the prediction alone" % lab, where(s), "no weights argument")
                    else:
                        state_cmp(rep, "%s selects by the prediction alone" % lab, s, W, lambda V: [1.0], state_val(), [], n=24, seed=seed, eqf=ones)
                elif "weights" in p.func(e.name).params:
                    own(rep, "%s searches with its current sampling radius" % lab, s, args["sampling_radius"], "sampling_radius")
                if lab == "LCBStrategy" and args["kappa"] is not None:
                    own(rep, "%s uses the configured kappa" % lab, s, args["kappa"], "kappa")
        found = found or n
    if not found:
        rep.unknown("documented searches", "", "no search call recognised")


def ones(got, want):
    g = np.ravel(np.asarray(got, float))
    return len(g) > 0 and bool(np.all(np.abs(g - 1.0) < 1e-12))


def own(rep, key, s, got, attr):
    """the argument is the strategy's attribute"""
    if got is None:
        rep.unknown(key, where(s), "no argument %s" % attr)
    elif got is s.before(attr) or got is s.after(attr):
        rep.proven(key, where(s))
    else:
        ok, why = L.entails(facts(s), eq(got, s.before(attr)))
        if ok is True:
            rep.proven(key, where(s))
        elif attr == "surrogate" or {x.args[0].split(".")[-1] for x in tm.subterms(got) if x.op == "sym"} - {attr, attr + "_max", attr + "_min", "asynchronous", "batch_size", "dim", "phase"}:
            rep.unknown(key, where(s), "%s = %s" % (attr, tm.show(got)[:160]))
        else:
            def mkval(k):
                V = state_val()(k)
                V.hints.update({attr: V.rnd.choice([.2, .1, .05, .0125]), attr + "_max": .2, attr + "_min": .2 * .5 ** 6} if attr != "kappa" else {attr: V.rnd.choice([0.0, 2.0, .5, 3.0])})
                V.hints.update(dtol=.01, num_cand=9, lcb_target=None if k % 2 else .1, batch_size=V.rnd.choice([1, 2, 4, 6]))
                return V
            # what the search returned does not restrict what it was asked with
            fs = direct([f for f in s.path.facts if not tm.contains(f, lambda x: x.op == "pcall")], [got])
            ok, detail = _state_cmp(s, (got,), lambda V: V.ev(s.before(attr)), mkval, fs, 20, 1, lambda a, b: same(a, b, 1e-12))
            rep.check(key, where(s), ok, detail if ok is True else detail + " " + pathdesc(s))
