"""Symbolic summaries of the optimisation strategies: what each reply of the controller does to the strategy.

For a concrete strategy class the model is derived from the code alone:
  propose     paths of propose_action; every Proposal("eval", x) they return carries the callbacks it was given
  answer      for each such callback, the paths for an accepted and for a rejected proposal
  update      for each callback an accepted proposal hangs on its record, the paths for each of the five statuses
  resume      paths of resume
Between those steps the strategy is an arbitrary one again (all attributes fresh symbols), so the summaries hold after
every history.
"""
from . import terms as tm
from .terms import T, mk, const, NONE, TRUE, FALSE, ZERO, ONE
from .frontend import AnalysisBroken, ClassInfo
from .interp import Interp, State, Env, Ref, Obj, Bound, Fn, Tup, LC, kind_of, Unsupported
from .drive import S, Path, call, symobj, construct

STATUSES = ("pending", "running", "completed", "killed", "cancelled")
SEARCHES = ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga", "nd_sorting", "check_radius_rule", "round_vars", "check_opt_prob")

BASE_KINDS = {
    "extra_points": "unk", "extra_vals": "unk", "batch_size": "int", "asynchronous": "bool", "max_evals": "int",
    "use_restarts": "bool", "ei_tol": "unk", "lcb_target": "unk",
}


def concrete_strategies(p):
    return [c for c in p.subclasses("SurrogateBaseStrategy") if not p.is_abstract(c)]


def infer_kinds(p, ci):
    """kinds of the instance attributes, from the constructor"""
    kinds = {}
    I = Interp(p, opaque=SEARCHES)
    init = p.find_method(ci, "__init__")
    pk = {"max_evals": "int", "batch_size": "int", "asynchronous": "bool", "use_restarts": "bool", "num_cand": "unk",
          "ncenters": "int", "kappa": "num", "dtol": "unk", "ei_tol": "unk", "lcb_target": "unk", "weights": "unk",
          "extra_points": "unk", "extra_vals": "unk", "opt_prob": "obj", "exp_design": "obj", "surrogate": "obj"}
    args = {n: S(n, pk.get(n, "unk")) for n in init.params[1:]}
    seen = {}
    for q in construct(I, ci, args):
        if q.v is None or q.raised:
            continue
        for a, v in q.st.heap[q.v.id].attrs.items():
            seen.setdefault(a, set()).add(I.kind(v, q.st))
    for a, ks in seen.items():
        if len(ks) == 1:
            k = next(iter(ks))
            if k not in ("none", "unk"):
                kinds[a] = k
        elif ks <= {"int", "num"}:
            kinds[a] = "num"
    kinds.update(BASE_KINDS)
    return kinds, I


class Step:
    """a path of one reply: pre-state names, post-state, effects"""

    def __init__(self, model, path, me, pre, what, **kw):
        self.model, self.path, self.me, self.pre, self.what = model, path, me, pre, what
        self.I, self.st = path.I, path.st
        self.__dict__.update(kw)

    def before(self, attr):
        return self.model.sym(self.pre, attr)

    def value(self, attr):
        """value (not content) held by the attribute afterwards"""
        o = self.st.heap[self.me.id]
        return o.attrs.get(attr, self.before(attr))

    def after(self, attr):
        """content of the attribute afterwards, as a term"""
        return self.I.term(self.value(attr), self.st)

    def queue(self, attr="batch_queue"):
        v = self.value(attr)
        lc = self.I.as_list(v, self.st)
        return lc

    def events(self, *kinds):
        return [e for e in flat(self.st.events) if not kinds or e.kind in kinds]

    def written(self):
        """attributes of the strategy assigned on this path"""
        return set(self.st.heap[self.me.id].attrs)

    def where(self):
        return self.what


def flat(events):
    for e in events:
        yield e


class Model:
    def __init__(self, p, ci, opaque=SEARCHES):
        self.p, self.ci = p, ci
        self.kinds, _ = infer_kinds(p, ci)
        self.opaque = tuple(opaque)
        self.I = Interp(p, opaque=self.opaque, kinds={(ci.name, a): k for a, k in self.kinds.items()})
        self.prop_cls = p.module("poap.strategy").names["Proposal"] if p.module("poap.strategy") else None
        self.rec_cls = p.module("poap.strategy").names["EvalRecord"]
        self.proposals = []   # (step, proposal Ref)
        self.answers = []
        self.updates = []

    def kind(self, attr):
        from .interp import attr_kind
        return self.kinds.get(attr) or attr_kind(attr)

    def sym(self, pre, attr):
        return mk("sym", pre + "." + attr, self.kind(attr))

    def fresh(self, st, me, pre):
        """the same strategy after an arbitrary history"""
        st = st.clone()
        if me is None:
            me = symobj(self.I, st, self.ci, pre)
        else:
            st.heap[me.id] = Obj("obj", cls=self.ci, attrs={}, origin=pre)
        st.events, st.order, st.facts, st.bounds, st.ctl = (), (), {}, {}, None
        st.cont, st.tattr = {}, {}
        return st, me

    def method(self, name):
        fi = self.p.find_method(self.ci, name)
        if fi is None:
            raise AnalysisBroken("%s has no method %s" % (self.ci.name, name))
        return fi

    def run(self, fi, args, st, me):
        return call(self.I, fi, args, st=st, recv=me)

    def propose(self, pre="self", setup=None):
        st, me = self.fresh(State(), None, pre)
        if setup:
            setup(st, me)
        return [Step(self, q, me, pre, "propose_action") for q in self.run(self.method("propose_action"), [me], st, me)]

    def proposal_of(self, step):
        """the eval proposal a path returns: Ref or None; 'other' for anything not understood"""
        v = step.path.v
        if v is None:
            return None
        if isinstance(v, Ref):
            o = step.st.heap[v.id]
            if o.kind == "obj" and o.cls is self.prop_cls:
                return v
        if v is NONE:
            return NONE
        return "other"

    def action(self, step, ref):
        v = step.st.heap[ref.id].attrs.get("action")
        t = step.I.term(v, step.st)
        ok, x = tm.py_const(t)
        return x if ok else None

    def point(self, step, ref):
        v = step.st.heap[ref.id].attrs.get("args")
        if isinstance(v, Tup) and len(v.items) == 1:
            return v.items[0]
        return None

    def callbacks(self, st, ref):
        o = st.heap[ref.id]
        v = o.attrs.get("callbacks")
        lc = self.I.as_list(v, st) if v is not None else None
        if lc is None or not all(s[0] == "item" for s in lc):
            return None
        return [s[1] for s in lc]

    def invoke(self, fn, args, st):
        env = Env(0, self.method("propose_action"), self.ci.module, self.ci, None, None)
        return [Path(self.I, s, v) for s, v in self.I.call(fn, list(args), {}, st, env, None)]

    # ------------------------------------------------------------------ protocol
    def fn_name(self, fn):
        if isinstance(fn, Bound):
            return fn.fi.name
        if isinstance(fn, Fn):
            return fn.fi.name
        return str(fn)

    def explore(self):
        """run the whole protocol"""
        self.steps = []
        for st in self.propose():
            self.steps.append(st)
            st.proposal = None
            r = self.proposal_of(st)
            st.result = "raise" if st.path.raised else r
            if isinstance(r, Ref):
                act = self.action(st, r)
                st.result = act or "other"
                if act == "eval":
                    st.proposal = r
                    st.x = self.point(st, r)
                    st.cbs = self.callbacks(st.st, r)
        seen = {}
        for st in self.steps:
            if st.proposal is None or st.cbs is None:
                continue
            key = tuple(self.fn_key(f) for f in st.cbs)
            if key not in seen:
                seen[key] = st
        self.kinds_of_proposal = seen
        for key, st in seen.items():
            self.explore_answers(key, st)
        return self

    def fn_key(self, f):
        if isinstance(f, Bound):
            return f.fi.qual
        if isinstance(f, Fn):
            return f.fi.qual
        return repr(f)

    def explore_answers(self, key, st):
        for accepted in (True, False):
            s, me = self.fresh(st.st, st.me, "self1")
            o = s.heap[st.proposal.id]
            a = dict(o.attrs)
            a["accepted"] = const(accepted)
            x = a["args"].items[0]
            xs = mk("sym", "x", "arr1")
            # the point keeps its identity but is an arbitrary vector now
            a["args"] = Tup([xs])
            s.heap[st.proposal.id] = o.but(attrs=a)
            rec = None
            if accepted:
                env = Env(0, self.method("propose_action"), self.ci.module, self.ci, None, None)
                (s, rec), = self.I.construct(self.rec_cls, [Tup([xs])], {"status": const("pending")}, s, env, None)
                s.events = ()
                base_attrs = dict(s.heap[rec.id].attrs)
                o = s.heap[st.proposal.id]
                a = dict(o.attrs)
                a["record"] = rec
                s.heap[st.proposal.id] = o.but(attrs=a)
            paths = [Path(self.I, s, None)]
            for f in st.cbs:
                nxt = []
                for q in paths:
                    if q.st.ctl:
                        nxt.append(q)
                    else:
                        nxt.extend(self.invoke(f, [st.proposal], q.st))
                paths = nxt
            for q in paths:
                stp = Step(self, q, me, "self1", "accepted" if accepted else "rejected", phase=key, x=xs, rec=rec, proposal=st.proposal)
                stp.result = "raise" if q.raised else "ok"
                stp.tags = {}
                if accepted:
                    for k, v in q.st.heap[rec.id].attrs.items():
                        if isinstance(v, T) and base_attrs.get(k) is not v:
                            stp.tags[k] = v
                self.answers.append(stp)
        acc = [a for a in self.answers if a.phase == key and a.what == "accepted" and a.result == "ok"]
        done = {}
        for a in acc:
            cbs = self.callbacks(a.st, a.rec)
            a.rcbs = cbs
            k = None if cbs is None else tuple(self.fn_key(f) for f in cbs)
            if k is None or k in done:
                continue
            done[k] = a
            self.explore_updates(key, a)

    def explore_updates(self, key, a, facts=(), label=None):
        for status in STATUSES:
            s, me = self.fresh(a.st, a.me, "self2")
            o = s.heap[a.rec.id]
            at = dict(o.attrs)
            sa = [k for k, v in at.items() if isinstance(v, T) and tm.py_const(v) == (True, "pending")]
            for k in sa:
                at[k] = const(status)
            fx = mk("sym", "fx", "num")
            if "value" in at or True:
                at["value"] = fx
            for k, v in a.tags.items():
                kd = kind_of(v)
                at[k] = mk("sym", "tag." + k, kd if kd in ("int", "bool") else "int" if kd == "num" else "unk")
            s.heap[a.rec.id] = o.but(attrs=at)
            paths = [Path(self.I, s, None)]
            for f in a.rcbs:
                nxt = []
                for q in paths:
                    nxt.extend([q] if q.st.ctl else self.invoke(f, [a.rec], q.st))
                paths = nxt
            for q in paths:
                stp = Step(self, q, me, "self2", status, phase=key, x=a.x, fx=fx, rec=a.rec)
                stp.result = "raise" if q.raised else "ok"
                stp.accept = a
                self.updates.append(stp)

    def single(self, name, args=(), pre="self"):
        st, me = self.fresh(State(), None, pre)
        return [Step(self, q, me, pre, name) for q in self.run(self.method(name), [me] + list(args), st, me)]
