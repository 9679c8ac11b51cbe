"""B01, B02: benchmark problems."""
import os
import numpy as np
from .. import terms as tm, report
from ..frontend import ModuleInfo, FuncInfo
from ..interp import Interp
from ..drive import S, call, construct
from ..valuate import Valuation, compare, DIFFERENT, EQUAL, Bad, Unknown


def spec_module(p, name):
    path = os.path.join(report.ROOT, "spec", name + ".py")
    m = ModuleInfo("spec." + name, path, "spec/%s.py" % name, False)
    p.lib_modules["spec." + name] = m
    return m


def problems(p):
    return [c for c in sorted(p.subclasses("OptimizationProblem"), key=lambda c: c.name) if not p.is_abstract(c)]


def loc(fi):
    return "%s:%d %s" % (fi.module.rel, fi.node.lineno, fi.qual.split(".", 1)[-1])


def instances(p, ci):
    """(interp, constructor path, instance, dimension) for the constructor paths that succeed"""
    I = Interp(p)
    init = p.find_method(ci, "__init__")
    kw = {"dim": S("dim", "int")} if init and "dim" in init.params else {}
    out = []
    for q in construct(I, ci, kw):
        if q.v is None or q.raised:
            continue
        d = q.st.heap[q.v.id].attrs.get("dim")
        out.append((I, q, I.term(d, q.st) if d is not None else None))
    return out, I


def rule_B02(p, rep, tier, seed):
    rep.rule = "normal form of eval(x) = normal form of the published formula"
    spec = spec_module(p, "benchmarks")
    for ci in problems(p):
        ev = p.find_method(ci, "eval")
        sf = spec.names.get(ci.name)
        if not isinstance(sf, FuncInfo):
            rep.unknown("formula " + ci.name, loc(ev), "no reference formula for this class")
            continue
        rep.unit(ev)
        with rep.guard("formula " + ci.name, loc(ev)):
            insts, I0 = instances(p, ci)
            x = S("x", "arr1")
            for I, q, dim in insts:
                okd, dv = tm.py_const(dim) if dim is not None else (False, None)
                n = tm.const(dv) if okd else tm.mk("len", x)
                st = q.st.clone()
                st.assume(tm.eq(tm.mk("len", x), dim)) if dim is not None else None
                rets = [r for r in call(I, ev, [q.v, x], st=st, recv=q.v) if not r.raised]
                Is = Interp(p)
                ref = [r.term() for r in call(Is, sf, [x, n])][0]
                if not rets:
                    rep.refute("formula " + ci.name, loc(ev), "no path of eval returns a value")
                for r in rets:
                    t = r.term()

                    def mkval(s, dv=dv, dim=dim, at=q.st.heap[q.v.id].attrs, I=I, st=q.st):
                        d = dv if okd else (2, 3, 12, 4, 5, 1, 17, 2)[s % 8]
                        V = Valuation(s, dim=d)
                        V.hints["dim"] = d
                        lo, hi = (0.1, 3.0) if ci.name == "Michalewicz" else (-2.0, 2.0)
                        x = np.round(V.np.uniform(lo, hi, d) * [1.0, 1.0, 0.3, 2.0][s % 4], 4)
                        if s % 3:  # anywhere in the problem's own domain
                            try:
                                lb, ub = (np.asarray(V.ev(I.term(at[a], st)), float) for a in ("lb", "ub"))
                            except (Bad, Unknown, KeyError):
                                pass
                            else:
                                x = lb + (ub - lb) * np.round(V.np.uniform(0, 1, d), 4)
                                edge = V.np.uniform(0, 1, d)
                                if s % 3 == 2:
                                    x = np.where(edge < .25, lb, np.where(edge > .75, ub, x))
                        V.memo.clear()
                        V.hints["x"] = x
                        return V
                    t2 = tm.subst(t, {dim: n}) if dim is not None else t
                    got, why = compare(t2, ref, n=24 if tier == "quick" else 120, seed=seed, mkval=mkval, tol=1e-6, pre=[f for f in r.facts if _usable(f)])
                    if got == EQUAL:
                        rep.proven("formula " + ci.name, loc(ev), "normal forms " + ("identical" if t2 is ref else "equivalent"))
                    elif got == DIFFERENT:
                        V, a, b = why
                        rep.refute("formula " + ci.name, loc(ev), "computes %s; at x=%s it is %s, published formula %s" % (
                            tm.show(t2)[:300], V.hints["x"].tolist(), a, b))
                    else:
                        rep.unknown("formula " + ci.name, loc(ev), why)


def _usable(f):
    return not tm.contains(f, lambda y: y.op in ("isinstance", "phi", "lv"))


def writes_to(path, names):
    """events on the path (loops included) that modify the content of one of the named parameters"""
    out = []

    def go(events):
        for e in events:
            if e.kind == "loop":
                for _, evs in e.d.get("alts", ()):
                    go(evs)
            elif e.kind == "mutate":
                r = e.d.get("root")
                if isinstance(r, tm.T) and r.op == "sym" and r.args[0] in names:
                    out.append(e)
                elif not isinstance(r, tm.T) and hasattr(r, "id"):
                    o = path.st.heap.get(r.id) if hasattr(path.st.heap, "get") else None
                    if o is not None and getattr(o, "origin", None) in names:
                        out.append(e)
            elif e.kind in ("setattr_other", "setitem_other"):
                r = e.d.get("obj")
                if isinstance(r, tm.T) and r.op == "sym" and r.args[0] in names:
                    out.append(e)
    go(path.events)
    return out


def rule_B01(p, rep, tier, seed):
    rep.rule = ("constructor: dim, bounds of that length with lb<ub, int_var/cont_var a partition of range(dim), minimizer within bounds; "
                "eval: every path with len(x) != dim raises, some path with len(x) = dim returns, x is not written")
    for ci in problems(p):
        ev = p.find_method(ci, "eval")
        init = p.find_method(ci, "__init__")
        rep.unit(ev, init)
        w, wi = loc(ev), loc(init)
        with rep.guard("declares " + ci.name, wi):
            insts, I = instances(p, ci)
            if not insts:
                rep.refute("declares " + ci.name, wi, "no constructor path succeeds")
            for I, q, dim in insts:
                describe(rep, ci, wi, I, q, dim, seed)
        with rep.guard("input check " + ci.name, w):
            insts, I = instances(p, ci)
            for I, q, dim in insts:
                x = S("x", "arr1")
                wrong = q.st.clone()
                n = tm.mk("len", x)
                wrong.assume(tm.bnot(tm.eq(n, dim)))
                paths = call(I, ev, [q.v, x], st=wrong, recv=q.v)
                esc = [r for r in paths if not r.raised]
                if not esc:
                    rep.proven("input check " + ci.name, w, "all %d paths with the wrong length raise" % len(paths))
                else:
                    d = feasible_wrong(esc, dim, n, seed)
                    rep.add("input check " + ci.name, w, report.REFUTED if d else report.UNKNOWN,
                            "a point of the wrong length is evaluated: path %s%s" % ([tm.show(f) for f in esc[0].facts], d or ""))
                right = q.st.clone()
                right.assume(tm.eq(n, dim))
                paths = call(I, ev, [q.v, x], st=right, recv=q.v)
                rep.check("accepts " + ci.name, w, True if any(not r.raised for r in paths) else False if paths and not I.unsup else None,
                          "a point of the declared length")
        with rep.guard("purity " + ci.name, w):
            insts, I = instances(p, ci)
            for I, q, dim in insts:
                x = S("x", "arr1")
                paths = call(I, ev, [q.v, x], st=q.st, recv=q.v)
                ws = [e for r in paths for e in writes_to(r, {"x"})]
                rep.check("purity " + ci.name, w, not ws, "the point is modified at %s" % (ws[0].loc,) if ws else "no write reaches the point")


def feasible_wrong(paths, dim, n, seed):
    """a dimension and a length with which one of the paths is taken"""
    ok, dv = tm.py_const(dim)
    for r in paths:
        for s in range(40):
            V = Valuation(seed * 100 + s, dim=2)
            d = dv if ok else 1 + s % 4
            V.hints["dim"] = d
            V.hints["x"] = V.np.uniform(0.1, 2, (1 + (s // 4) % 7,))
            try:
                if all(V.truth(f) for f in r.facts):
                    return "; dim=%s, len(x)=%d" % (d, len(V.hints["x"]))
            except (Bad, Unknown):
                break
    return None


def describe(rep, ci, w, I, q, dim, seed):
    at = q.st.heap[q.v.id].attrs

    def val(V, a):
        if a not in at or at[a] is None:
            raise Unknown("no attribute " + a)
        return V.ev(I.term(at[a], q.st))

    ok, dv = tm.py_const(dim) if dim is not None else (False, None)
    for a in ("dim", "lb", "ub", "int_var", "cont_var"):
        if a not in at:
            rep.refute("declares %s.%s" % (ci.name, a), w, "the constructor never sets it")
            return
    bad, unk, good = {}, {}, {}
    for d in ([dv] if ok else [1, 2, 3, 5, 8]):
        V = Valuation(seed, dim=max(1, int(d)))
        V.hints["dim"] = d
        try:
            if not all(V.truth(f) for f in q.facts):
                continue
            D = val(V, "dim")
        except (Bad, Unknown) as e:
            unk["dim"] = str(e)
            continue

        def tst(name, f):
            try:
                r = f()
            except Unknown as e:
                unk[name] = str(e)
            except Bad as e:
                unk[name] = str(e)
            else:
                if r is True:
                    good[name] = 1
                else:
                    bad[name] = "dimension %s: %s" % (D, r)
        arr = lambda a: np.asarray(val(V, a), dtype=float)
        tst("bounds length", lambda: True if arr("lb").shape == (D,) and arr("ub").shape == (D,) else "lb has shape %s, ub %s" % (arr("lb").shape, arr("ub").shape))
        tst("bounds order", lambda: True if np.all(arr("lb") < arr("ub")) else "lb=%s ub=%s" % (arr("lb"), arr("ub")))

        def part():
            iv, cv = arr("int_var"), arr("cont_var")
            al = sorted(list(iv) + list(cv))
            return True if al == list(range(D)) else "int_var=%s cont_var=%s" % (iv.tolist(), cv.tolist())
        tst("index sets", part)
        if isinstance(dim, tm.T):
            tst("dimension", lambda: True if D == d else "dim=%s" % D)
        if "minimum" in at:
            def mini():
                m = arr("minimum")
                m2 = m if m.ndim == 2 else m.reshape(1, -1)
                if m2.shape[1] != D:
                    return "minimizer has shape %s" % (m.shape,)
                return True if np.all(m2 >= arr("lb") - 1e-9) and np.all(m2 <= arr("ub") + 1e-9) else "minimizer %s outside [%s, %s]" % (m.tolist(), arr("lb").tolist(), arr("ub").tolist())
            tst("minimizer", mini)
    for n in sorted(set(good) | set(bad) | set(unk)):
        k = "declares %s %s" % (ci.name, n)
        if n in bad:
            rep.refute(k, w, bad[n])
        elif n in unk:
            rep.unknown(k, w, unk[n])
        else:
            rep.proven(k, w)
