"""Helpers shared by the rules."""
import os
import numpy as np
from .. import terms as tm, report
from ..terms import T, mk
from ..frontend import ModuleInfo, FuncInfo, AnalysisBroken
from ..interp import Interp, State, Ref, Tup
from ..drive import S, Path, call, construct, symobj
from ..valuate import free_bvs, BINDERS, Valuation, compare, same, DIFFERENT, EQUAL, Bad, Fails, Unknown

RAISE = ("raise",)


def loc(fi):
    return "%s:%d %s" % (fi.module.rel, fi.node.lineno, fi.qual.split(".", 1)[-1])


def spec_module(p, name):
    path = os.path.join(report.ROOT, "spec", name + ".py")
    m = ModuleInfo("spec." + name, path, "spec/%s.py" % name, False)
    p.lib_modules["spec." + name] = m
    return m


_LV = {}


def lvs_in(t):
    """loop variables in a term"""
    if not isinstance(t, (T, tuple)):
        return frozenset()
    if isinstance(t, T):
        r = _LV.get(t)
        if r is None:
            r = frozenset([t]) if t.op == "lv" else frozenset().union(*[lvs_in(a) for a in t.args])
            _LV[t] = r
        return r
    return frozenset().union(*[lvs_in(a) for a in t])


def holds(V, facts):
    """do the facts hold (existentially in free bound variables)?  Leaves the witness in V.bvs; None when undecidable"""
    free = sorted({b for f in facts for b in free_bvs(f)}, key=lambda b: b.args[0] if isinstance(b.args[0], int) else 0)
    unk = []
    if free:  # facts about nothing but the arguments first: they may rule the path out
        for f in facts:
            if not free_bvs(f):
                try:
                    if not V.truth(f):
                        return False, ""
                except Bad:
                    return False, ""
                except Unknown:
                    pass
    if V.interp is not None:
        # the iteration in which a loop is left is determined by running its transition relation
        left = {l.args[0] for f in facts for l in lvs_in(f)}
        if left:
            gone = {l.raw_bv for l in V.interp.loops.values() if l.loopid in left}
            free = [b for b in free if b not in gone]

    def go(i):
        if i == len(free):
            ok = True
            for f in facts:
                try:
                    if not V.truth(f):
                        return False
                except Bad:
                    return False
                except Unknown as e:
                    unk.append(str(e))
                    ok = None
            return ok
        b = free[i]
        any_unk = False
        try:
            rng = V.over(b)
        except (Bad, Unknown) as e:
            unk.append(str(e))
            return None
        for k in rng:
            V.bvs[b] = k
            r = go(i + 1)
            if r is True:
                return True
            any_unk = any_unk or r is None
        V.bvs.pop(b, None)
        return None if any_unk else False
    return go(0), (unk[0] if unk else "")


def value_at(V, paths, result=None):
    """value of a piecewise summary at a valuation: ('val', v) / RAISE; raises Unknown when the path is not determined"""
    paths = sorted(paths, key=lambda q: 0 if any(free_bvs(f) for f in q.facts) else 1)
    V.interp = paths[0].I if paths else None
    for q in paths:
        V.bvs.clear()
        V.memo.clear()
        r, why = holds(V, q.facts)
        if r is None:
            raise Unknown(why)
        if r:
            if q.raised:
                return RAISE, q
            return ("val", (result or (lambda V, q: V.ev(q.term())))(V, q)), q
    raise Unknown("no path matches")


def piecewise(rep, key, where, paths, spec, mkval, n=24, seed=1, tol=1e-7, result=None, eq=None):
    """Compare a summary with a reference function of the valuation (spec(V) -> value or RAISE) by random interpretation."""
    got = 0
    why = ""
    fn_eq = eq or (lambda a, b: same(a, b, tol))
    for k in range(n * 3):
        V = mkval(seed * 1000 + k)
        try:
            want = spec(V)
        except (Bad, Unknown) as e:
            why = str(e)
            continue
        try:
            r, q = value_at(V, paths, result)
        except Unknown as e:
            why = str(e)
            continue
        except Fails as e:
            if want is RAISE:
                got += 1
                continue
            rep.refute(key, where, "raises (%s) where a result is specified; %s" % (e, show_val(V)))
            return False
        except Bad as e:
            why = "no value: %s" % e
            continue
        if want is RAISE or r is RAISE:
            if (want is RAISE) != (r is RAISE):
                rep.refute(key, where, "%s where %s is specified; %s" % ("raises" if r is RAISE else "returns", "an error" if want is RAISE else "a result", show_val(V)))
                return False
        elif not fn_eq(r[1], want):
            rep.refute(key, where, "summary %s gives %s, specified %s at %s" % (short(q), sv(r[1]), sv(want), show_val(V)))
            return False
        got += 1
        if got >= n:
            break
    if got < max(3, n // 4):
        rep.unknown(key, where, "undetermined: " + why)
        return None
    rep.proven(key, where, "agrees with the reference on %d separating valuations" % got)
    return True


def sv(v):
    return str(v).replace("\n", " ")[:160]


def show_val(V):
    return "{" + ", ".join("%s=%s" % (k.args[0], sv(v)) for k, v in list(V.syms.items())[:8]) + "}"


def short(q):
    try:
        return tm.show(q.term())[:300]
    except Exception:
        return "?"


def summary(p, name, kinds=None, opaque=(), args=None):
    """(function, paths, args, interp) of a public function on symbolic arguments"""
    fi = p.func(name)
    kinds = kinds or {}
    I = Interp(p, opaque=tuple(opaque))
    a = {n: S(n, kinds.get(n, "unk")) for n in fi.params}
    if args:
        a.update(args)
    return fi, call(I, fi, [], a), a, I


def walk(events):
    for e in events:
        if e.kind == "loop":
            for g, evs in e.d.get("alts", ()):
                yield from walk(evs)
        else:
            yield e
