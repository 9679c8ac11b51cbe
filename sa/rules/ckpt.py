"""C01-C03: saving, checkpointing and resuming.

C01 orders the file effects of every path of every save method.  C02 composes the summaries of the controller's
constructor, POAP's new_feval, the acceptance and the status updates over the list of record callbacks, whose state after
one intermediate update is shown to be a fixed point.  C03 orders the effects of the controller's resume and compares the
strategy's resume step with the specified one."""
import ast
import os
import numpy as np
from .common import *
from ..terms import FALSE, TRUE, NONE, const
from ..interp import Bound, Fn, Env, Meth
from ..logic import *
from . import strat
from ..terms import eq, lt, ZERO, bor
from ..valuate import ObjV, Valuation, Unknown, Bad
from .strat import models, resume_steps, constructors, facts, pathdesc, state_cmp, where as swhere, L

WRITE = ("w", "a", "x", "+")
TEMPDIR = "/tmp/of/the/system"
FNAMES = ("run/cp.pysot", "cp.pysot", "/data/x.y/cp", "./a/../cp.pysot", "/cp")
ATOMIC = ("os.rename", "os.replace", "shutil.move")


# ------------------------------------------------------------------ C01
class Unk(Exception):
    pass


def pathval(t, env):
    """the string a path term denotes"""
    if t.op == "sym":
        if t in env:
            return env[t]
        raise Unk(tm.show(t))
    ok, v = tm.py_const(t)
    if ok:
        return v
    if t.op == "strcat":
        return "".join(str(pathval(a, env)) for a in t.args)
    if t.op == "path":
        op, xs = t.args[0], [pathval(a, env) for a in t.args[1:]]
        if op in ("dirname", "basename", "join", "abspath", "normpath"):
            return getattr(os.path, op)(*xs)
        if op in ("realpath", "expanduser"):
            return os.path.abspath(*xs)
        if op == "tempdir":
            return TEMPDIR
        if op == "fresh":
            return "%sfresh%d%s" % (xs[0], xs[2], xs[1])
        if op == "root":
            return os.path.splitext(*xs)[0]
        if op == "ext":
            return os.path.splitext(*xs)[1]
        if op in ("isfile", "exists", "isdir"):
            raise Unk(op)
    if t.op == "getitem" and t.args[0].op == "tuple":
        pass
    if t.op in ("fmt", "str"):
        try:
            return fmtval(t, env)
        except (ValueError, IndexError, TypeError, AttributeError):
            pass
    raise Unk(tm.show(t)[:80])


def fmtval(t, env):
    if t.op == "str":
        return str(pathval(t.args[0], env))
    parts = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
    if isinstance(parts[0], str) or (isinstance(parts[0], tm.T) and tm.py_const(parts[0])[0] and "{" in str(tm.py_const(parts[0])[1])):
        f = parts[0] if isinstance(parts[0], str) else tm.py_const(parts[0])[1]
        xs = [pathval(a, env) for a in parts[1:] if isinstance(a, tm.T)]
        if "{" in f:
            return f.format(*xs)
        return f % tuple(xs)
    return "".join(str(pathval(a, env)) if isinstance(a, tm.T) else str(a) for a in parts)


def holds(t, env):
    """truth of a condition on a path (None: not known, such as whether a file exists)"""
    if t.op == "not":
        r = holds(t.args[0], env)
        return None if r is None else not r
    if t.op in ("and", "or"):
        rs = [holds(a, env) for a in t.args]
        stop = t.op == "or"
        return stop if stop in rs else None if None in rs else not stop
    try:
        if t.op == "truthy":
            return bool(pathval(t.args[0], env))
        if t.op == "eq" and len(t.args) == 2:
            return pathval(t.args[0], env) == pathval(t.args[1], env)
        ok, v = tm.py_const(t)
        return bool(v) if ok else None
    except (Unk, TypeError, ValueError, AttributeError):
        return None


def at(t, envs):
    """values of the path term for all file names, or None"""
    try:
        return [os.path.normpath(pathval(t, e)) for e in envs]
    except (Unk, TypeError, ValueError, AttributeError):
        return None


def file_path(f):
    return f.args[0] if f.op == "file" else None


def rule_C01(p, rep, tier, seed):
    rep.rule = ("every path of save: open a different file of the same directory for writing, dump the strategy into it, close it, then rename it to the checkpoint; "
                "no path opens the checkpoint for writing, removes, truncates or copies over it")
    base = p.cls("SurrogateBaseStrategy")
    if p.find_method(base, "save") is None:
        raise AnalysisBroken("SurrogateBaseStrategy has no method save")
    pickling(p, rep)
    done = set()
    for ci in sorted(p.subclasses("SurrogateBaseStrategy"), key=lambda c: c.name):
        if p.is_abstract(ci):
            continue
        fi = p.find_method(ci, "save")
        key = fi.qual
        rep.unit(fi)
        w = loc(fi)
        if len(fi.params) < 2:
            raise AnalysisBroken("save takes no file name")
        I = Interp(p)
        st = State()
        me = symobj(I, st, ci, "self")
        fn = S(fi.params[1], "str")
        paths = call(I, fi, [me, fn], st=st, recv=me)
        rep.unit(*I.visited)
        envs = [{fn: f} for f in FNAMES]
        target = [os.path.normpath(f) for f in FNAMES]
        with rep.guard("save of " + ci.name, w):
            for q in paths:
                save_path(rep, ci.name, w, q, me, envs, target)


def save_path(rep, nm, w, q, me, envs, target):
    names = [i for i in range(len(envs)) if not any(holds(f, envs[i]) is False for f in q.facts)]
    if not names:
        return
    fnames, envs, target = ([x[i] for i in names] for x in (FNAMES, envs, target))
    opened, dumped, closed = {}, {}, set()
    kept, removed = {}, []  # files that may still hold what an interrupted save left
    replaced = False
    unknown = ""
    changed = {}
    for e in walk(q.events):
        if e.kind == "setattr" and isinstance(e.d.get("obj"), Ref) and e.d["obj"].id == me.id:
            v = e.d["value"] if isinstance(e.d["value"], tm.T) else q.I.term(e.d["value"], q.st)
            if v.op == "sym" and v.args[0] == "self." + e.d["name"]:
                changed.pop(e.d["name"], None)
            else:
                changed[e.d["name"]] = v
        if e.kind == "dump" and changed:
            a, v = sorted(changed.items())[0]
            rep.check("%s.save writes the state unchanged" % nm, w, False if tm.py_const(v)[0] or v is NONE else None, "%s is %s when the strategy is dumped" % (a, tm.show(v)[:100]))
        if e.kind == "open":
            ok, mode = tm.py_const(e.d["mode"])
            if not ok:
                unknown = "mode of open " + tm.show(e.d["mode"])
                continue
            if not any(c in mode for c in WRITE):
                continue
            v = at(e.d["path"], envs)
            if v is None:
                unknown = "path " + tm.show(e.d["path"])
                continue
            hit = [f for f, x, t in zip(fnames, v, target) if os.path.abspath(x) == os.path.abspath(t)]
            if hit:
                rep.refute("%s.save never opens the checkpoint for writing" % nm, w, "opens %s (mode %s) when saving to %s" % (tm.show(e.d["path"]), mode, hit[0]))
                return
            far = [(f, x) for f, x, t in zip(fnames, v, target) if os.path.dirname(os.path.abspath(x)) != os.path.dirname(os.path.abspath(t))]
            rep.check("%s.save writes in the directory of the checkpoint" % nm, w, not far, "writes %s when saving to %s" % (far[0][1], far[0][0]) if far else "")
            opened[e.d["file"]] = v
            gone = any(x.op == "path" and x.args[0] in ("exists", "isfile") for f in q.facts for x in tm.subterms(f))
            if not any(c in mode for c in "wx") and not gone and [os.path.abspath(x) for x in v] not in removed:
                kept[e.d["file"]] = "%s is opened with mode %s" % (tm.show(e.d["path"]), mode)
        elif e.kind == "dump":
            obj = e.d["obj"]
            whole = isinstance(obj, Ref) and obj.id == me.id
            t = q.I.term(obj, q.st)
            rep.check("%s.save writes the whole strategy" % nm, w, True if whole else (None if not isinstance(t, tm.T) or t.op in ("opaque", "pcall") else False), "dumps %s" % tm.show(t)[:200])
            f = e.d["file"]
            if f in closed:
                rep.refute("%s.save dumps before closing" % nm, w, "dumps to a closed file")
            dumped[f] = True
        elif e.kind == "mcall" and e.name == "write" and e.d["rterm"].op == "file":
            a = e.d["targs"][0] if e.d["targs"] else None
            if a is not None and a.op == "dumps":
                dumped[e.d["rterm"]] = True
                rep.check("%s.save writes the whole strategy" % nm, w, True if a.args[0] == q.I.term(me, q.st) else None, tm.show(a)[:200])
            else:
                unknown = "writes " + (tm.show(a)[:80] if a is not None else "?")
                dumped[e.d["rterm"]] = True
        elif e.kind == "mcall" and e.name == "truncate":
            kept.pop(e.d["rterm"], None)
        elif e.kind == "exit":
            closed.add(e.d["ctx"])
        elif e.kind == "mcall" and e.name == "close":
            closed.add(e.d["rterm"])
        elif e.kind == "fs":
            op, args = e.d["op"], e.d["args"]
            vs = [at(a, envs) for a in args[:2]]
            if any(v is None for v in vs):
                unknown = "%s(%s)" % (op, ", ".join(tm.show(a)[:60] for a in args))
                continue
            on = lambda v: any(os.path.abspath(x) == os.path.abspath(t) for x, t in zip(v, target))
            if op in ATOMIC:
                src, dst = vs
                if on(src) and not on(dst):
                    rep.refute("%s.save never removes the checkpoint" % nm, w, "%s moves the checkpoint away" % op)
                    return
                if on(dst):
                    fs = [f for f, v in opened.items() if [os.path.abspath(x) for x in v] == [os.path.abspath(x) for x in src]]
                    key = "%s.save replaces the checkpoint by a complete file" % nm
                    if not fs:
                        rep.check(key, w, None if unknown else False, "%s replaces the checkpoint by %s, which was not written here" % (op, src[0]))
                        return
                    f = fs[-1]
                    if not dumped.get(f):
                        rep.check(key, w, None if unknown else False, "%s replaces the checkpoint before the strategy was dumped" % op)
                        return
                    if f not in closed:
                        rep.check(key, w, None if unknown else False, "%s replaces the checkpoint before the temporary file is closed" % op)
                        return
                    if f in kept:
                        rep.check("%s.save starts from an empty temporary file" % nm, w, None if unknown or opaque(q) else False, kept[f] + ", after an interrupted save the checkpoint begins with what that left")
                        return
                    rep.proven(key, w)
                    replaced = True
            elif op in ("os.remove", "os.unlink", "os.truncate") and not on(vs[0]):
                removed.append([os.path.abspath(x) for x in vs[0]])
            elif op in ("os.remove", "os.unlink", "os.truncate", "shutil.rmtree", "os.rmdir") and on(vs[0]):
                rep.refute("%s.save never removes the checkpoint" % nm, w, "%s on the checkpoint" % op)
                return
            elif op.startswith("shutil.copy") and on(vs[1]):
                rep.refute("%s.save replaces the checkpoint atomically" % nm, w, "%s overwrites the checkpoint in place" % op)
                return
            elif op.startswith("shutil.copy") and not on(vs[1]):
                pass
    if q.raised:
        rep.proven("%s.save: a failing path leaves the checkpoint" % nm, w)
    elif not replaced:
        rep.check("%s.save replaces the checkpoint on every path" % nm, w, None if unknown or opaque(q) else False, unknown or "a path ends without replacing the checkpoint")


# ------------------------------------------------------------------ pickling hooks
HOOKS = ("__getstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__")


def reads_attr(p, a):
    """places of the package that read an attribute of that name"""
    return [fi for fi in p.functions() for x in ast.walk(fi.node) if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) and fi.node.name not in HOOKS + ("__setstate__",)]


def own_state(e, self_, names):
    """whether an expression is the object's attribute dictionary (a copy of it): None when it is not"""
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute):
        return e.attr == "__dict__" and isinstance(e.value, ast.Name) and e.value.id == self_
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "vars" and e.args:
            return isinstance(e.args[0], ast.Name) and e.args[0].id == self_
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not e.args:
            return own_state(f.value, self_, names)
        if (isinstance(f, ast.Name) and f.id in ("dict", "copy", "deepcopy") or isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy")) and len(e.args) == 1 and not e.keywords:
            return own_state(e.args[0], self_, names)
        if isinstance(f, ast.Attribute) and f.attr == "__getstate__" and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return True
    if isinstance(e, ast.Dict) and len(e.keys) == 1 and e.keys[0] is None:
        return own_state(e.values[0], self_, names)
    return False


def mentions(e, a, self_):
    """whether an expression may carry the value of the attribute (or any part of the state that is not known)"""
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and x.attr == a:
            return True
        if isinstance(x, ast.Constant) and x.value == a:
            return True
    return False


def lost_state(fi):
    """(attribute, what happens to it, node) for attributes that a __getstate__ drops or replaces, or a reason why it is not understood"""
    self_ = fi.params[0] if fi.params else "self"
    names, out = set(), []

    def key(e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None

    def stmt(s, sure):
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            if isinstance(t, ast.Name):
                if own_state(s.value, self_, names):
                    names.add(t.id)
                else:
                    names.discard(t.id)
                return
            if isinstance(t, ast.Subscript) and own_state(t.value, self_, names):
                k = key(t.slice)
                if k is not None and not mentions(s.value, k, self_):
                    out.append((k, "replaced by %s" % ast.unparse(s.value)[:60], s))
                return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and own_state(t.value, self_, names) and key(t.slice):
                    out.append((key(t.slice), "dropped", s))
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            f = s.value.func
            if own_state(f.value, self_, names) and f.attr == "pop" and s.value.args and key(s.value.args[0]):
                out.append((key(s.value.args[0]), "dropped", s))
            elif own_state(f.value, self_, names) and f.attr == "clear":
                out.append(("every attribute", "dropped", s))
            return
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Tuple, ast.List)) and all(key(x) for x in s.iter.elts):
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and own_state(x.func.value, self_, names) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == s.target.id:
                        out.extend((key(k), "dropped", s) for k in s.iter.elts)
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Del, ast.Store)) and own_state(x.value, self_, names) and isinstance(x.slice, ast.Name) and x.slice.id == s.target.id:
                        out.extend((key(k), "dropped or replaced", s) for k in s.iter.elts)
            return
        for b in ("body", "orelse", "finalbody"):
            for x in getattr(s, b, ()):
                stmt(x, False)
    for s in fi.node.body:
        stmt(s, True)
    return out


def pickling(p, rep):
    """no class of the package drops or replaces part of its state when it is saved"""
    n = 0
    for ci in sorted(p.classes(), key=lambda c: c.qual):
        if ci.module.name.startswith("spec"):
            continue
        n += 1
        for h in HOOKS:
            fi = ci.methods.get(h)
            if fi is None:
                continue
            rep.unit(fi)
            lost = lost_state(fi) if h == "__getstate__" else None
            back = p.find_method(ci, "__setstate__")
            key = "saving a %s keeps its whole state" % ci.name
            bad = None
            for a, how, node in lost or ():
                rebuilt = back is not None and any(isinstance(x, ast.Constant) and x.value == a or isinstance(x, ast.Attribute) and x.attr == a or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                                                   and isinstance(x.func.value, ast.Name) and x.func.value.id == back.params[0] for x in ast.walk(back.node))
                if not rebuilt and (a == "every attribute" or reads_attr(p, a)):
                    bad = "%s is %s at line %d and not restored" % (a, how, node.lineno)
                    break
            rep.check(key, loc(fi), False if bad else None, bad or "%s is not interpreted further" % h)
    rep.check("objects are saved as they are", "", True, "%d classes, those with pickling hooks listed separately" % n)


def opaque(q):
    return any(e.kind in ("pcall", "opaque") for e in walk(q.events))


# ------------------------------------------------------------------ C02
MARK = "strategy_callback"


def setup(p):
    ci = p.cls("CheckpointController")
    init = p.find_method(ci, "__init__")
    if init is None or len(init.params) < 3:
        raise AnalysisBroken("CheckpointController constructor has changed")
    mod = p.module("poap.controller")
    if mod is None or "Controller" not in mod.names:
        raise AnalysisBroken("POAP controllers not found")
    I = Interp(p)
    pc = mod.names["Controller"]
    env = Env(0, init, ci.module, ci, None, None)
    (s, ctl), = I.construct(pc, [], {}, State(), env, None)
    o = s.heap[ctl.id]
    s.heap[ctl.id] = o.but(attrs=dict(o.attrs, strategy=S("strategy", "obj")))
    s.events = ()
    fn = S("fname", "str")
    out = [q for q in construct(I, ci, {init.params[1]: ctl, init.params[2]: fn}, st=s) if not q.raised]
    return ci, I, env, ctl, fn, out


def items(I, st, ref, name):
    v = st.heap[ref.id].attrs.get(name)
    lc = I.as_list(v, st) if v is not None else None
    if lc is None or any(x[0] != "item" for x in lc):
        return None
    return [x[1] for x in lc]


def cb_key(f):
    if isinstance(f, Bound):
        return f.fi.qual
    if isinstance(f, Fn):
        return f.fi.qual
    return repr(f)


class Run:
    """one abstract execution: state, and where the strategy recorded the evaluation"""

    def __init__(self, st, log=()):
        self.st, self.log = st, log

    def saves(self):
        return [k for k in self.log if k[0] == "save"]


def save_events(I, st, n0):
    """save calls among the events after the first n0"""
    out = []
    for e in walk(st.events[n0:]):
        if e.kind == "mcall" and e.name == "save":
            out.append(("save", e.d["rterm"], e.d["targs"]))
    return out


def deliver(I, env, run, rec, status):
    """one update of the record: the callbacks of the live list run in order"""
    st = run.st.clone()
    o = st.heap[rec.id]
    a = dict(o.attrs)
    for k, v in list(a.items()):
        okc, c = tm.py_const(v) if isinstance(v, tm.T) else (False, None)
        if okc and c in ("pending", "running", "completed", "killed", "cancelled"):
            a[k] = const(status)
    if status == "completed":
        a["value"] = S("fx", "num")
    st.heap[rec.id] = o.but(attrs=a)
    runs, i = [Run(st, run.log)], 0
    while True:
        nxt, more = [], False
        for r in runs:
            cbs = items(I, r.st, rec, "callbacks")
            if cbs is None:
                raise Unk("callbacks of the record are not a known list")
            if i >= len(cbs) or r.st.ctl:
                nxt.append(r)
                continue
            more = True
            f = cbs[i]
            if isinstance(f, Bound) and f.recv == MARK:
                nxt.append(Run(r.st, r.log + (("recorded", status),)))
                continue
            n0 = len(r.st.events)
            for s2, v in I.call(f, [rec], {}, r.st, env, None):
                nxt.append(Run(s2, r.log + tuple(save_events(I, s2, n0))))
        runs = nxt
        if len(runs) > 64:
            raise Unk("too many paths")
        if not more:
            return runs
        i += 1
        if i > 30:
            raise Unk("callback list keeps growing")


def rule_C02(p, rep, tier, seed):
    rep.rule = ("constructor -> new_feval -> acceptance (the strategy adds its callback) -> updates: every final status reaches strategy.save(fname) after the strategy's callback, "
                "intermediate ones never; termination callbacks save; run raises before running when the file exists")
    ci, I, env, ctl, fn, ctors = setup(p)
    w = ci.qual
    fi = p.find_method(ci, "__init__")
    rep.unit(fi)
    if not ctors:
        rep.refute("controller can be constructed", loc(fi), "no path of the constructor succeeds")
        return
    for q in ctors:
        me = q.v
        tcb = items(I, q.st, ctl, "term_callbacks")
        with rep.guard("termination saves", loc(fi)):
            if tcb is None:
                rep.unknown("termination saves", loc(fi), "termination callbacks not understood")
            else:
                st = q.st.clone()
                st.events = ()
                runs = [st]
                for f in tcb:
                    runs = [s2 for s in runs for s2, _ in I.call(f, [], {}, s, env, None)]
                for s in runs:
                    ev = save_events(I, s, 0)
                    rep.check("the end of the run saves", loc(fi), bool(ev) if not s.ctl else False, "termination callbacks %s do not save the strategy" % [cb_key(f) for f in tcb])
                    saved_where(rep, loc(fi), ev, fn)
        with rep.guard("updates save", loc(fi)):
            nf = p.find_method(p.module("poap.controller").names["Controller"], "new_feval")
            st = q.st.clone()
            st.events = ()
            for s, rec in [(x.st, x.v) for x in call(I, nf, [ctl, S("params", "tuple")], st=st, recv=ctl)]:
                if not isinstance(rec, Ref):
                    rep.unknown("updates save", loc(fi), "record of POAP not understood")
                    continue
                early = save_events(I, s, 0)
                rep.check("a new evaluation does not save", loc(fi), not early, "saves before anything is known about the evaluation")
                add = p.find_method(s.heap[rec.id].cls, "add_callback")
                own = Bound(MARK, p.find_method(p.cls("SurrogateBaseStrategy"), "save"))
                for s2 in [x.st for x in call(I, add, [rec, own], st=s, recv=rec)]:
                    s2 = s2.clone()
                    s2.events = ()
                    histories(rep, loc(fi), I, env, Run(s2), rec, fn)
    rep.unit(*I.visited)
    # run refuses an existing checkpoint
    starts(p, rep, ci)


def histories(rep, w, I, env, run, rec, fn):
    """no, one or more intermediate updates, then each final status"""
    state = lambda r: tuple(cb_key(f) for f in items(I, r.st, rec, "callbacks") or [None])
    level = [("", run)]
    seen = {state(run)}
    start = list(level)
    for k in range(4):
        nxt = []
        for h, r in level:
            for status in ("running", "pending") if k == 0 else ("running",):
                for r2 in deliver(I, env, Run(r.st, ()), rec, status):
                    if r2.st.ctl:
                        rep.unknown("updates %s" % status, w, "a callback raises")
                        continue
                    rep.check("an intermediate update (%s) does not save" % status, w, not r2.saves(), "saves on status %s%s" % (status, " after " + h if h else ""))
                    if state(r2) not in seen:
                        seen.add(state(r2))
                        nxt.append(((h + ", " if h else "") + status, r2))
        start += nxt
        level = nxt
        if not level:
            break
    else:
        rep.unknown("callback lists reach a fixed point", w, "keeps changing after %d updates" % k)
    for h, r in start:
        for status in ("completed", "killed", "cancelled"):
            key = "an evaluation that is %s%s is saved after the strategy recorded it" % (status, " (after %s)" % h if h else "")
            for r2 in deliver(I, env, Run(r.st, ()), rec, status):
                if r2.st.ctl:
                    rep.check(key, w, False if r2.st.ctl[0] == "raise" else None, "a callback raises")
                    continue
                log = [x[0] for x in r2.log]
                if "recorded" not in log:
                    rep.unknown(key, w, "strategy callback not delivered")
                    continue
                after = log[log.index("recorded") + 1:]
                rep.check(key, w, "save" in after, "callbacks run as %s" % ([x[0] for x in r2.log] or "nothing") + ": no save after the strategy's own callback")
                saved_where(rep, w, [x for x in r2.log if x[0] == "save"], fn)


def saved_where(rep, w, evs, fn):
    for e in evs:
        ok = None if not e[2] else True if e[2][0] == fn else False if fn not in tm.subterms(e[2][0]) else same_file(e[2][0])
        rep.check("saves go to the checkpoint file", w, ok, "saves to %s" % (tm.show(e[2][0]) if e[2] else "?"))
        rep.check("saves the strategy of the controller", w, True if e[1] == S("strategy", "obj") else None, tm.show(e[1]))


def method_paths(p, ci, name, extra=()):
    fi = p.find_method(ci, name)
    if fi is None:
        raise AnalysisBroken("%s has no method %s" % (ci.name, name))
    I = Interp(p)
    st = State()
    me = symobj(I, st, ci, "self")
    return fi, I, me, call(I, fi, [me] + list(extra), st=st, recv=me)


def same_file(t):
    """does the path term denote the file whose name it is computed from? None: not known"""
    names = {x for x in tm.subterms(t) if x.op == "sym"}
    if len(names) != 1:
        return None
    got = at(t, [{x: f for x in names} for f in FNAMES])
    return None if got is None else [os.path.abspath(g) for g in got] == [os.path.abspath(f) for f in FNAMES]


def file_guard(q):
    """does the path know that the checkpoint exists / is missing?"""
    has = None
    for f in q.facts:
        neg = f.op == "not"
        g = f.args[0] if neg else f
        if g.op == "truthy":
            g = g.args[0]
        if g.op == "path" and g.args[0] in ("isfile", "exists") and len(g.args) > 1 and isinstance(g.args[1], tm.T):
            if same_file(g.args[1]) is False:
                has = "other" if has is None else has
            else:
                has = not neg
    return has


def starts(p, rep, ci):
    fi, I, me, paths = method_paths(p, ci, "run")
    rep.unit(fi)
    w = loc(fi)
    runs = lambda q: [e for e in walk(q.events) if e.kind == "mcall" and e.name == "run"]
    for q in paths:
        g = file_guard(q)
        if g is True:
            rep.check("a fresh run refuses an existing checkpoint", w, q.raised and not runs(q), "runs although the checkpoint file exists")
        elif g is False:
            rep.check("a fresh run without checkpoint runs", w, bool(runs(q)) and not q.raised, "does not run the controller")
        elif runs(q):
            rep.check("a fresh run refuses an existing checkpoint", w, None if opaque(q) or q.facts and g != "other" else False, "runs the controller without looking for an existing checkpoint file")
        if runs(q) and not q.raised:
            t = q.term()
            r = [e for e in walk(q.events) if e.kind == "mcall" and e.name == "run"]
            rep.check("a run returns the result of the controller", w, True if t is not None and t.op == "mcall" and t.args[1] == "run" else False if t is NONE else None, "returns %s" % (tm.show(t) if t is not None else None))


# ------------------------------------------------------------------ C03
def rule_C03(p, rep, tier, seed):
    rep.rule = ("resume: missing file raises; load -> controller.strategy -> its evaluations -> strategy.resume() -> controller.run(), in that order; the strategy's resume step "
                "empties the pending points, requeues each one exactly once in the initial phase, unblocks termination and keeps everything else")
    ci = p.cls("CheckpointController")
    fi, I, me, paths = method_paths(p, ci, "resume")
    rep.unit(fi)
    w = loc(fi)
    live = 0
    for q in paths:
        g = file_guard(q)
        evs = list(walk(q.events))
        if g == "other" and not q.raised:
            rep.refute("resuming without a checkpoint fails", w, "looks for another file")
        if g is False:
            rep.check("resuming without a checkpoint fails", w, q.raised, "continues without a checkpoint file")
            continue
        if q.raised:
            if g is True and not any(e.kind == "load" for e in evs):
                rep.refute("resuming loads an existing checkpoint", w, "raises although the file exists")
            continue
        live += 1
        resume_path(rep, w, q, me, evs)
    if not live:
        rep.refute("resuming loads an existing checkpoint", w, "no path resumes")
    rep.unit(*I.visited)
    for m in models(p):
        strategy_resume(rep, m, seed)


def resume_path(rep, w, q, me, evs):
    order = {}
    loaded = None
    for i, e in enumerate(evs):
        if e.kind == "open":
            ok, mode = tm.py_const(e.d["mode"])
            if ok and any(c in mode for c in WRITE):
                rep.refute("resuming only reads the checkpoint", w, "opens %s with mode %s" % (tm.show(e.d["path"]), mode))
            rep.check("resuming reads the checkpoint file", w, same_file(e.d["path"]), "opens %s" % tm.show(e.d["path"]))
        if e.kind == "load":
            loaded = mk("loaded", e.d["file"])
            order.setdefault("load", i)
        if e.kind in ("setattr", "tsetattr", "setattr_other"):
            if e.d["name"] == "strategy":
                order["install"] = i
            if e.d["name"] == "fevals":
                order["fevals"] = i
        if e.kind == "mcall" and e.name == "resume":
            order["resume"] = i
            order["resumed"] = e.d["rterm"]
        if e.kind == "mcall" and e.name == "run":
            order["run"] = i
    need = [("load", "the checkpoint is loaded"), ("install", "the loaded strategy is given to the controller"), ("fevals", "the controller gets the evaluations of the strategy"),
            ("resume", "the strategy's resume step is called"), ("run", "the run continues")]
    for k, what in need:
        if k not in order:
            rep.check("resume: " + what, w, None if opaque(q) else False, "does not happen on the path %s" % [tm.show(f)[:60] for f in q.facts])
            return
        rep.proven("resume: " + what, w)
    rep.check("resume: the resume step comes before the run", w, order["resume"] < order["run"], "runs before the resume step")
    rep.check("resume: strategy and evaluations are installed before the run", w, order["install"] < order["run"] and order["fevals"] < order["run"], "runs first")
    rep.check("resume: the resume step is that of the loaded strategy", w, order["load"] < order["resume"] and resumed_loaded(q, order, loaded), "resumes %s" % tm.show(order["resumed"]))
    t = q.term()
    rep.check("resume: returns the result of the run", w, True if t is not None and t.op == "mcall" and t.args[1] == "run" else False if t is NONE else None, tm.show(t) if t is not None else "")
    ctl = None
    strategy, fevals, alias = installed(q, me)
    if strategy is not None:
        rep.check("resume: the installed strategy is the loaded one", w, True if strategy == loaded else None, tm.show(strategy))
    if fevals is not None:
        src = tm.contains(fevals, lambda x: x == loaded) or tm.contains(fevals, lambda x: x.op in ("sym", "attr") and "fevals" in x.args)
        empty = fevals.op == "list" and not fevals.args
        rep.check("resume: the controller's evaluations are those of the strategy", w, True if src else False if empty else None, "becomes %s" % tm.show(fevals)[:150])
        kept = all_evaluations(q, fevals) if src else None
        if kept is False:
            rep.refute("resume: the controller gets every evaluation", w, "becomes %s" % tm.show(fevals)[:300])
        elif kept:
            rep.proven("resume: the controller gets every evaluation", w)
        if alias:
            rep.refute("resume: the controller's evaluations are a copy", w, "the controller shares the list of the strategy, so each new evaluation enters it twice")


def all_evaluations(q, t):
    """does the list hold every evaluation of the strategy, whatever became of it"""
    for x in tm.subterms(t):
        if x.op == "attr" and x.args[1] == "fevals" or x.op == "sym" and x.args[0].endswith("fevals"):
            t = tm.subst(t, {x: S("fevals", "list")})
            break
    n = 0
    for k in range(12):
        V = Valuation(4000 + k)
        V.interp = q.I
        recs = ["r%d" % i for i in range(4)]
        V.hints["fevals"] = [ObjV(r) for r in recs]
        for r in recs:
            V.ufs[("attr", r, "status")] = st = V.rnd.choice(["pending", "running", "completed", "killed", "cancelled"])
            for s in ("running", "completed", "killed", "cancelled", "pending"):
                V.ufs[("attr", r, "is_" + s)] = st == s
            V.ufs[("attr", r, "is_done")] = st in ("completed", "killed", "cancelled")
            V.ufs[("attr", r, "value")] = round(V.rnd.uniform(-2, 2), 3) if st == "completed" else None
        try:
            got = V.ev(t)
            if [o.name for o in got] != recs:
                return False
        except (Unknown, Bad, TypeError, AttributeError):
            return None
        n += 1
    return True if n else None


def resumed_loaded(q, order, loaded):
    r = order["resumed"]
    if r == loaded or tm.contains(r, lambda x: x == loaded):
        return True
    return True if order["install"] < order["resume"] else None


def installed(q, me):
    """(term of controller.strategy, term of controller.fevals, shared with the strategy?) at the end of the path"""
    st, I = q.st, q.I
    strat_t = fev = None
    alias = False
    for (base, name), v in list(getattr(st, "tattr", {}).items()):
        if name == "strategy":
            strat_t = I.term(v, st)
        if name == "fevals":
            if isinstance(v, Meth):
                fev, alias = mk("attr", I.term(v.recv, st), v.name), True
            else:
                fev = I.term(v, st)
                alias = isinstance(v, tm.T) and v.op in ("attr", "sym")
    return strat_t, fev, alias


def strategy_resume(rep, m, seed):
    nm = m.ci.name
    steps = resume_steps(m)
    init = {c.after("phase") for c in constructors(m)}
    init = next(iter(init)) if len(init) == 1 else None
    for s in steps:
        w = swhere(s)
        if s.result == "raise":
            rep.refute("%s resume succeeds" % nm, w, "raises %s" % pathdesc(s))
            continue
        r, why = L.entails(facts(s), eq(s.after("pending_evals"), ZERO))
        rep.check("%s resume forgets outstanding evaluations" % nm, w, r, "pending_evals becomes %s" % tm.show(s.after("pending_evals")))
        state_cmp(rep, "%s resume empties the pending points" % nm, s, s.after("Xpend"), lambda V: 0, strat.state_val(), [s.before("X")], eqf=lambda a, b: np.ndim(a) == 2 and len(a) == 0, seed=seed)
        if init is not None:
            def mkval(k, init=init):
                V = strat.state_val()(k)
                queue = [x for x in V.points(V.size("queue", 0, 3))]
                for x in V.hpend:  # points of a design may coincide, or nearly so
                    if V.rnd.random() < .3:
                        queue.insert(V.rnd.randrange(len(queue) + 1), x + V.rnd.choice([0, 0, 1e-7]))
                V.hints["batch_queue"] = lambda V: [x.copy() for x in queue]
                V.hints["phase"] = lambda V: V.rnd.choice([V.ev(init), 2])
                return V

            def spec(V, s=s, init=init):
                q = [np.ravel(x) for x in V.ev(s.before("batch_queue"))]
                if V.ev(s.before("phase")) == V.ev(init):
                    q = q + [np.ravel(x) for x in V.hpend]
                return q
            state_cmp(rep, "%s resume requeues the outstanding points of the initial phase" % nm, s, s.after("batch_queue"), spec, mkval, [s.before("phase"), s.before("Xpend")], eqf=same_queue, seed=seed, n=14)
        for a in ("X", "fX", "_X", "_fX", "fevals", "num_evals", "accepted_count", "rejected_count", "max_evals", "surrogate", "opt_prob", "exp_design", "sampling_radius",
                  "status", "failcount", "_fbest", "phase", "converged", "ev_last", "ev_next", "next_weight", "record_queue"):
            if a not in m.kinds and a not in s.written():
                continue
            t, b = s.after(a), s.before(a)
            if t is b:
                rep.proven("%s resume keeps %s" % (nm, a), w)
            elif a in ("fevals", "record_queue"):
                rep.check("%s resume keeps %s" % (nm, a), w, False if t.op == "list" and not t.args else None, "becomes %s" % tm.show(t)[:100])
            elif tm.is_const(t):
                r, why = L.entails(facts(s), eq(t, b))
                rep.check("%s resume keeps %s" % (nm, a), w, r, "becomes %s" % tm.show(t))
            else:
                state_cmp(rep, "%s resume keeps %s" % (nm, a), s, t, lambda V, a=a, s=s: V.ev(s.before(a)), strat.state_val(), [b], seed=seed)
        touched = [e.name for e in walk(s.st.events) if e.kind == "mcall" and e.name in ("reset", "add_points") and s.I.term(e.recv, s.st) is s.before("surrogate")]
        rep.check("%s resume keeps the surrogate" % nm, w, not touched, "calls %s of the surrogate" % touched)
        if "terminate" in m.kinds:
            t = s.after("terminate")
            if t is FALSE:
                rep.proven("%s resume lets the unspent budget be used" % nm, w)
            elif t is s.before("terminate") or t is TRUE:
                stuck = [x for x in m.steps if x.result == "terminate" and stays(m, x)]
                rep.check("%s resume lets the unspent budget be used" % nm, w, not stuck, "a termination decided before the snapshot stays in force although budget is left")
            else:
                left = [lt(s.before("num_evals"), s.before("max_evals"))] + going_on(m, s)
                r, why = L.entails(facts(s) + left + [t], FALSE)
                if r is False and not any(x.result == "terminate" and stays(m, x) for x in m.steps):
                    r = None
                rep.check("%s resume lets the unspent budget be used" % nm, w, r, "with budget left terminate becomes %s, true for %s" % (tm.show(t), why))


def going_on(m, s):
    """convergence does not end the run"""
    c = mk("not", s.before("converged"))
    return [bor(c, s.before("use_restarts")) if strat.has(m, "use_restarts") else c]


def stays(m, x):
    """can this terminating path be taken with budget left, a run that goes on and nothing but an old decision?"""
    fs = [f for f in x.path.facts] + [x.before("terminate"), lt(x.before("num_evals"), x.before("max_evals"))] + going_on(m, x)
    r, w = L.entails(fs, FALSE)
    return r is False


def same_queue(a, b):
    a = sorted(tuple(np.round(np.ravel(np.asarray(x, float)), 9)) for x in a)
    b = sorted(tuple(np.round(np.ravel(np.asarray(x, float)), 9)) for x in b)
    return a == b
