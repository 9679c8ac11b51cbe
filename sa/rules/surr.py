"""M01-M05: surrogate models.

Every method of every surrogate is summarised over an arbitrary object.  The summaries are composed along the protocol
construct / reset / add_points / predict, and the terms of each post-state and result are compared with the specified
ones by random interpretation: kernels, tails, output transformations and the wrapped regressors stay uninterpreted
functions, only linear algebra has its mathematical meaning."""
import hashlib
import numpy as np
from .common import *
from ..terms import FALSE, TRUE, NONE
from ..valuate import ObjV, freeze
from scipy.spatial.distance import cdist

ARGK = {"dim": "int", "lb": "arr1", "ub": "arr1", "output_transformation": "unk", "kernel": "obj", "tail": "obj", "eta": "num", "gp": "obj",
        "degree": "int", "n_restarts_optimizer": "int"}
PUBLIC = {"X": "arr2", "_X": "arr2", "fX": "arr2", "num_pts": "int", "dim": "int", "lb": "arr1", "ub": "arr1", "updated": "bool", "eta": "num",
          "kernel": "obj", "tail": "obj", "output_transformation": "obj"}


class SV(Valuation):
    """valuation whose object attributes are given"""

    def make(self, name, kind):
        if name.startswith("self."):
            a = name[5:]
            if a in self.attrs:
                v = self.attrs[a]
                if isinstance(v, Exception):
                    raise v
                return v
            raise Unknown("attribute %s is not set by the constructor" % a)
        return super().make(name, kind)

    def o_hasattr(self, t, a, name):
        if a.op == "obj":
            return tm.py_const(name)[1] in self.attrs
        return super().o_hasattr(t, a, name)


def surrogates(p):
    return [c for c in sorted(p.subclasses("Surrogate"), key=lambda c: c.name) if not p.is_abstract(c)]


class Model:
    """summaries of one surrogate class"""

    def __init__(self, p, ci):
        self.p, self.ci = p, ci
        self.init = p.find_method(ci, "__init__")
        I = Interp(p)
        self.ctor_args = {n: S(n, ARGK.get(n, "unk")) for n in self.init.params[1:]}
        self.ctor = [q for q in construct(I, ci, dict(self.ctor_args))]
        kinds = {}
        for q in self.ctor:
            if q.v is None or q.raised:
                continue
            for a, v in q.st.heap[q.v.id].attrs.items():
                k = I.kind(v, q.st)
                t = I.term(v, q.st)
                if t.op.startswith("lib_") and "numpy" not in t.op and not t.op.startswith("lib_scipy"):
                    k = "obj"
                if k != "none":
                    kinds.setdefault(a, set()).add(k)
        self.kinds = {(c.name, a): next(iter(ks)) for c in p.mro(ci) for a, ks in kinds.items() if len(ks) == 1}
        # attributes that start as None keep the kind the other methods give them
        for _ in range(2):
            for m in ("predict", "reset"):
                fi = p.find_method(ci, m)
                I2 = Interp(p, kinds=self.kinds)
                st = State()
                me = symobj(I2, st, ci, "self")
                args = [me] + ([S("xx", "arr2")] if len(fi.params) > 1 else [])
                for q in call(I2, fi, args, st=st, recv=me):
                    for a, v in q.st.heap[me.id].attrs.items():
                        k = I2.kind(v, q.st)
                        if k not in ("none", "unk", "arr") and (ci.name, a) not in self.kinds:
                            for c in p.mro(ci):
                                self.kinds[(c.name, a)] = k
        self.cache = {}
        self.units = set(I.visited)

    def summary(self, m, kinds):
        key = (m, tuple(kinds))
        if key not in self.cache:
            fi = self.p.find_method(self.ci, m)
            if fi is None:
                self.cache[key] = None
            else:
                I = Interp(self.p, kinds=self.kinds)
                st = State()
                me = symobj(I, st, self.ci, "self")
                a = [S(n, k) for n, k in zip(fi.params[1:], kinds)]
                qs = call(I, fi, [me] + a, st=st, recv=me)
                self.units |= I.visited
                self.cache[key] = (fi, I, me, a, qs)
        return self.cache[key]

    @property
    def is_rbf(self):
        return "kernel" in self.ctor_args and "tail" in self.ctor_args

    def where(self, m):
        fi = self.p.find_method(self.ci, m)
        return loc(fi) if fi else self.ci.qual


def rnd_of(*key):
    h = hashlib.md5(repr(key).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))


class World:
    """one interpretation of the uninterpreted parts, and the attribute values reached along a protocol history"""

    def __init__(self, m, seed):
        self.m, self.seed = m, seed
        V = Valuation(seed)
        self.d, self.lb, self.ub = V.dim, V.lb, V.ub
        r = np.random.RandomState(seed + 7)
        self.r = r
        self.a, self.b = r.uniform(.5, 2, 2)
        self.Q = np.eye(self.d) + .3 * r.uniform(-1, 1, (self.d, self.d))
        self.nt = self.d + 1
        self.eta = float(r.choice([0.0, 0.1, 0.5, 60.0]))
        self.fit = 0
        self.attrs = {}
        self.N = self.nt + 2 + r.randint(0, 3) + (30 if V.many else 0)
        out = (0, 1) if seed % 4 else (-.3, 1.3)  # points given by the user may lie outside the box
        self.X = self.lb + np.round(r.uniform(*out, (self.N, self.d)), 4) * (self.ub - self.lb)
        self.f = np.round(r.uniform(-3, 3, (self.N, 1)), 4)
        self.fs = 1.0 if m.is_rbf else {2: 1e-4, 4: 1e4}.get(seed % 5, 1.0)  # magnitude of the transformed values

        self.flat = not m.is_rbf and seed % 5 == 3  # the objective may be constant
        if self.flat:
            self.f[:] = -1.0

    # meanings
    def phi(self, D):
        D = np.asarray(D, float)
        return self.a * D ** 3 - self.b * D

    def dphi(self, D):
        D = np.asarray(D, float)
        return 3 * self.a * D ** 2 - self.b

    def tail(self, X):
        X = np.atleast_2d(X)
        return np.hstack((np.ones((len(X), 1)), X @ self.Q))

    def dtail(self, x):
        return np.hstack((np.zeros((self.d, 1)), self.Q))

    def T(self, f):
        f = np.array(f, float)
        return self.fs * (f * np.abs(f) + 1.0)

    def unit(self, X):
        return (np.asarray(X, float) - self.lb) / (self.ub - self.lb)

    def raw(self, Z, what):
        """output of the wrapped regressor"""
        Z = np.atleast_2d(np.asarray(Z, float))
        return np.array([rnd_of(self.seed, self.fit, what, freeze(np.round(z, 9))).uniform(.2, 2) for z in Z])

    def uf(self, V, t, args):
        if t.op == "mcall":
            o, n = args[0], t.args[1]
            nm = o.name if isinstance(o, ObjV) else ""
            if nm == "kernel" and n in ("eval", "deriv") and len(args) > 1:
                return (self.phi if n == "eval" else self.dphi)(args[1])
            if nm == "tail" and n in ("eval", "deriv") and len(args) > 1:
                return (self.tail if n == "eval" else self.dtail)(args[1])
            if nm.startswith("model"):
                if n == "predict" and len(args) > 1:
                    p = self.raw(args[1], "mean")
                    kw = {k: x.args[0] if isinstance(x, T) and x.op == "const" else x for k, x in (t.args[3] if len(t.args) > 3 else ())}
                    if nm.endswith("2d"):
                        p = p.reshape(-1, 1)
                    if kw.get("return_std"):
                        return (p, self.raw(args[1], "std"))
                    if kw.get("return_cov"):
                        raise Unknown("covariance")
                    return p
                if n == "predict_deriv" and len(args) > 1:
                    Z = np.atleast_2d(args[1])
                    g = np.array([rnd_of(self.seed, self.fit, "deriv", freeze(np.round(z, 9))).uniform(.2, 2, self.d) for z in Z])
                    return g[:, :, None] if getattr(self, "deriv3", False) else g
                if n == "fit":
                    return "<None>"
            raise Unknown("method %s of %s" % (n, nm or type(o).__name__))
        if t.op == "vcall" and isinstance(args[0], ObjV) and args[0].name == "transform":
            return self.T(args[1])
        return None

    def val(self, **hints):
        V = SV(self.seed, dim=self.d, hints=dict(hints), uf=self.uf)
        V.attrs = self.attrs
        for k, v in (("dim_tail", self.nt), ("degree", 1), ("order", 2)):
            V.hints.setdefault("tail." + k if k != "order" else "kernel.order", v)
        V.hints.setdefault("tail.dim", self.d)
        V.ufs[("attr", "tail", "dim")] = self.d
        V.ufs[("attr", "tail", "dim_tail")] = self.nt
        V.ufs[("attr", "tail", "degree")] = 1
        V.ufs[("attr", "kernel", "order")] = 2
        return V

    def store(self, q, I, ref, V, keep=True):
        out = dict(self.attrs) if keep else {}
        for a, v in q.st.heap[ref.id].attrs.items():
            t = I.term(v, q.st)
            try:
                out[a] = V.ev(t)
                if isinstance(out[a], ObjV) and a in ("kernel", "tail"):
                    out[a] = ObjV(a)
            except (Unknown, Bad) as e:
                out[a] = e
        return out

    def branches(self, paths, V):
        """paths that can be taken (exceptions inside a library call make several possible)"""
        out = []
        for q in paths:
            V.bvs.clear()
            V.memo.clear()
            r, why = holds(V, q.facts)
            if r is None:
                raise Unknown(why)
            if r:
                out.append(q)
        return out

    def construct(self):
        m = self.m
        V = self.val(lb=self.lb, ub=self.ub, dim=self.d, eta=self.eta, kernel=ObjV("kernel"), tail=ObjV("tail"),
                     output_transformation=ObjV("transform"), gp=ObjV("model"), degree=2, n_restarts_optimizer=5)
        V.uf_isinstance = True
        res = []
        for q in m.ctor:
            ok = True
            for f in q.facts:
                v = self.ctor_fact(V, f)
                if v is None:
                    raise Unknown("constructor condition %s" % tm.show(f)[:120])
                ok = ok and v
            if ok:
                res.append(q)
        live = [q for q in res if not q.raised and q.v is not None]
        if not live:
            raise Unknown("no constructor path")
        q = live[0]
        self.attrs = self.store(q, q.I, q.v, V, keep=False)
        for a, v in list(self.attrs.items()):
            if isinstance(v, Exception):
                t = q.I.term(q.st.heap[q.v.id].attrs[a], q.st)
                if t.op.startswith("lib_") or t.op in ("obj", "mcall", "lib", "opaque"):
                    nm = "model"
                    if tm.contains(t, lambda x: "Ridge" in x.op or "LinearRegression" in x.op):
                        nm = "model2d"
                    self.attrs[a] = ObjV(nm)
        return q

    @staticmethod
    def ctor_fact(V, f):
        f = tm.subst(f, {x: TRUE for x in tm.subterms(f) if x.op in ("isinst", "isinstance")})
        try:
            return V.truth(f)
        except (Unknown, Bad):
            return None

    def run(self, meth, kinds, vals):
        """[(path, result or RAISE, attrs, V)]"""
        s = self.m.summary(meth, kinds)
        if s is None:
            raise Unknown("no method " + meth)
        fi, I, me, a, qs = s
        V = self.val(**{x.args[0]: v for x, v in zip(a, vals)})
        out = []
        for q in self.branches(qs, V):
            V.memo.clear()
            if q.raised:
                out.append((q, RAISE, self.store(q, I, me, V), V))
            else:
                try:
                    r = V.ev(q.term())
                except (Unknown, Bad) as e:
                    r = e
                out.append((q, r, self.store(q, I, me, V), V))
        return out

    # ------------------------------------------------ specified model of the RBF
    def coef(self, n, **var):
        X = var.get("data", self.unit)(self.X[:n])
        F = var.get("T", self.T)(self.f[:n])
        F = F[::-1] if var.get("rev") else F
        eta = var.get("eta", self.eta)
        P = self.tail(X)
        A = np.block([[np.zeros((self.nt, self.nt)), P.T], [P, self.phi(cdist(X, X)) + eta * np.eye(n)]])
        return np.linalg.solve(A, np.vstack((np.zeros((self.nt, 1)), F)))

    def rbf(self, xx, n, **var):
        c = self.coef(n, **var)
        q = var.get("query", self.unit)(np.atleast_2d(xx))
        X = var.get("data", self.unit)(self.X[:n])
        return self.phi(cdist(q, X)) @ c[self.nt:] + self.tail(q) @ c[:self.nt]

    def rbf_deriv(self, xx, n, **var):
        c = self.coef(n)
        out = []
        X = self.unit(self.X[:n])
        for x in var.get("query", self.unit)(np.atleast_2d(xx)):
            r = np.maximum(np.linalg.norm(x - X, axis=1), np.finfo(float).eps)
            g = (self.dtail(x) @ c[:self.nt]).ravel() + np.sum((x - X) / r[:, None] * (self.dphi(r)[:, None] * c[self.nt:]), axis=0)
            out.append(g / (self.ub - self.lb) if not var.get("unit") else g)
        return np.array(out)


def close(a, b, tol=1e-5):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol * (1 + np.max(np.abs(b), initial=0))))


class Tally:
    """verdicts per (property, obligation)"""

    def __init__(self):
        self.ok, self.bad, self.unk, self.wh = {}, {}, {}, {}

    def rec(self, prop, key, where, good, detail=""):
        k = (prop, key)
        self.wh[k] = where
        if good is True:
            self.ok[k] = self.ok.get(k, 0) + 1
        elif good is False:
            self.bad.setdefault(k, detail)
        else:
            self.unk.setdefault(k, detail)

    def report(self, rep, prop):
        for k in sorted(set(self.ok) | set(self.bad) | set(self.unk)):
            if k[0] != prop:
                continue
            w = self.wh[k]
            if k in self.bad:
                rep.refute(k[1], w, self.bad[k])
            elif k in self.unk and k not in self.ok:
                rep.unknown(k[1], w, self.unk[k])
            else:
                rep.proven(k[1], w, "%d valuations" % self.ok.get(k, 0))


_CACHE = {}


def analysis(p, tier, seed):
    key = id(p)
    if key in _CACHE:
        return _CACHE[key]
    T = Tally()
    models = [Model(p, ci) for ci in surrogates(p)]
    if not models:
        raise AnalysisBroken("no surrogate class found")
    n = 10 if tier == "quick" else 60
    for m in models:
        structure(T, m)
        for k in range(n):
            try:
                protocol(T, m, seed * 977 + k * 13 + 1, k)
            except (Unknown, Bad) as e:
                T.rec("M01", "%s protocol" % m.ci.name, m.ci.qual, None, str(e))
                T.rec("M02", "%s protocol" % m.ci.name, m.ci.qual, None, str(e))
        try:
            corner_cases(T, m, seed, n)
            same_question(T, m, seed, n)
            coinciding(T, m, seed, n)
        except (Unknown, Bad) as e:
            T.rec("M01", "%s protocol" % m.ci.name, m.ci.qual, None, str(e))
        if m.is_rbf:
            rbf_options(T, m)
            interpolates(T, m, seed, n)
        elif p.find_method(m.ci, "predict_deriv"):
            wrapped_deriv(T, m, seed, n)
    # a model wrong from the start says nothing about extending it
    for prop, key in [k for k in T.bad if k[0] == "M08" and "interpolates" not in k[1]]:
        lab = key.split(":")[0]
        if any(k[1] == lab + " fresh" for k in T.bad) or not any(k[1] == lab + " fresh" for k in T.ok):
            T.unk.setdefault((prop, key), T.bad.pop((prop, key)))
    _CACHE[key] = (T, models)
    return _CACHE[key]


def interpolates(T, m, seed, n):
    """without regularization the fit reproduces the (transformed) values, whether built at once or in steps"""
    for k in range(n):
        W = World(m, seed * 331 + k * 17 + 5)
        W.eta = 0.0
        try:
            W.construct()
            k0 = W.nt + 1
            for lo, hi in ([(0, k0), (k0, W.N)] if k % 2 and k0 < W.N else [(0, W.N)]):
                if not add(T, m, W, lo, hi, "arr2", "arr2"):
                    return
                xx = W.X[:hi]
                out = W.run("predict", ["arr2"], [xx.copy()])
                if not out or any(r is RAISE or isinstance(r, Exception) for q, r, A, V in out):
                    break
                want = W.T(W.f[:hi]).reshape(-1)
                if not close(np.asarray(W.rbf(xx, hi), float).reshape(-1), want, 1e-4):
                    break  # too close to singular to tell
                for q, r, A, V in out:
                    g = np.asarray(r, float).reshape(-1)
                    T.rec("M08", "%s predict: interpolates the data when built %s" % (m.ci.name, "in steps" if lo else "at once"), m.where("predict"), close(g, want, 1e-4),
                          "predicts %s at the %d points added, whose values are %s" % (sv(g), hi, sv(want)))
                W.attrs = out[0][2]
        except (Unknown, Bad) as e:
            T.rec("M08", "%s interpolates the data" % m.ci.name, m.ci.qual, None, str(e))


def wrapped_deriv(T, m, seed, n):
    """the derivative of a wrapped regressor is taken at the scaled query and returned in original coordinates"""
    key = "%s predict_deriv: original coordinates" % m.ci.name
    res, shapes, why = {}, {}, ""
    for k in range(n):
        nq = 1 + k % 3 if k % 5 != 2 else 14
        for three in (False, True):
            W = World(m, seed * 419 + k * 23 + 3)
            W.deriv3 = three
            try:
                W.construct()
                if not add(T, m, W, 0, W.N, "arr2", "arr2"):
                    return
                x = W.lb + np.round(W.r.uniform(0, 1, (nq, W.d)), 4) * (W.ub - W.lb)
                want = np.array([rnd_of(W.seed, W.fit, "deriv", freeze(np.round(z, 9))).uniform(.2, 2, W.d) for z in W.unit(x)]) / (W.ub - W.lb)
                vec = nq == 1 and k % 2 == 1
                for q, r, A, V in W.run("predict_deriv", ["arr1" if vec else "arr2"], [x[0].copy() if vec else x.copy()]):
                    if r is RAISE or isinstance(r, Unknown):
                        why = "no value: %s" % (r,)
                        continue
                    if isinstance(r, Exception):
                        why = "no value: %s" % (r,)
                        shapes.setdefault(k, []).append((False, why, (nq, W.d)))
                        continue
                    shapes.setdefault(k, []).append((np.shape(r) == want.shape, "shape %s for %s" % (np.shape(r), "a vector" if vec else "%d points" % nq), want.shape))
                    if np.squeeze(r).shape == np.squeeze(want).shape:
                        res.setdefault(k, []).append((close(np.ravel(np.asarray(r, float)), want.ravel()), sv(r), sv(want)))
            except (Unknown, Bad) as e:
                why = str(e)
    w = m.where("predict_deriv")
    if not res and not shapes and why.startswith("no value: ('raise'"):
        return  # not offered
    wrong = [v for v in shapes.values() if not any(g for g, a, b in v)]
    T.rec("M03", "%s predict_deriv: one row per query" % m.ci.name, w, False if wrong else True if len(shapes) > 4 else None,
          "%s, specified %s" % wrong[0][0][1:] if wrong else why)
    bad = [v for v in res.values() if not any(g for g, a, b in v)]
    if bad:
        T.rec("M04", key, w, False, "returns %s, specified %s" % bad[0][0][1:])
    else:
        T.rec("M04", key, w, True if len(res) > 4 else None, why)


def is_(T, prop, key, where, got, want, tol=1e-5):
    if isinstance(got, Exception):
        T.rec(prop, key, where, False if isinstance(got, Bad) else None, "no value: %s" % got)
    else:
        T.rec(prop, key, where, close(got, want, tol), "is %s, specified %s" % (sv(got), sv(want)))


def protocol(T, m, seed, k):
    W = World(m, seed)
    nm = m.ci.name
    W.construct()
    wi = loc(m.init)
    A = W.attrs
    d = W.d
    empty(T, nm + " constructed", wi, A, d)
    W.X = W.X
    k0 = W.nt + (k % 2)
    # first block of points, then (sometimes) the rest one by one or at once, queries in between
    steps = [(0, k0), (k0, W.N)] if k % 3 else [(0, k0), (k0, k0 + 1), (k0 + 1, W.N)]
    if k % 4 == 0:
        steps = [(0, W.N)]
    if k % 5 == 4:  # earlier data that is reset
        nj = steps[0][1] if k % 2 else k0 + 1
        junk = W.lb + np.round(W.r.uniform(0, 1, (nj, d)), 4) * (W.ub - W.lb)
        keep = W.X, W.f
        W.X, W.f = junk, np.round(W.r.uniform(-3, 3, (nj, 1)), 4)
        add(T, m, W, 0, len(junk), "arr2", "arr2")
        query(T, m, W, len(junk), "predict", "arr2", 2, "fresh")
        if k % 10 == 4:  # not fitted again before the reset
            more = W.lb + np.round(W.r.uniform(0, 1, (1, d)), 4) * (W.ub - W.lb)
            W.X, W.f = np.vstack((W.X, more)), np.vstack((W.f, np.round(W.r.uniform(-3, 3, (1, 1)), 4)))
            add(T, m, W, nj, nj + 1, "arr2", "arr2")
        out = W.run("reset", [], [])
        if len(out) != 1 or out[0][1] is RAISE:
            T.rec("M02", nm + " reset", m.where("reset"), False, "reset raises")
            return
        W.attrs = out[0][2]
        empty(T, nm + " reset", m.where("reset"), W.attrs, d)
        W.X, W.f = keep
        W.wiped = True
    for j, (lo, hi) in enumerate([s for s in steps if s[0] < s[1]]):
        kx, kf = ("arr1", ["arr1", "num"][k % 2]) if hi - lo == 1 else ("arr2", ["arr2", "arr1"][(k + j) % 2])
        if not add(T, m, W, lo, hi, kx, kf):
            return
        stale = "after more points" if j else ("after a reset" if getattr(W, "wiped", False) else "fresh")
        nq = [1, 2, 3][(k + j) % 3] if k % 5 != 2 else 14
        deriv = W.m.is_rbf and (k + j) % 3 == 0
        if deriv and k % 2 == 0:
            nq = 14
        # the first query refits, the second uses the fitted model
        for rnd in range(2):
            kind = "arr1" if (k + j + rnd) % 4 == 1 else "arr2"
            what = "predict_deriv" if deriv and rnd == 0 else "predict"
            if not deriv and rnd == 0 and m.p.find_method(m.ci, "predict_std") and k % 2:
                what = "predict_std"
            again = k % 2 == 1
            if again and kind == "arr2" and getattr(W, "asked", None) is not None:
                nq = len(W.asked)
            if not query(T, m, W, hi, what, kind, nq if kind == "arr2" else 1, stale if rnd == 0 else "fitted", again):
                return


def corner_cases(T, m, seed, n):
    """no points are added, a single point is added"""
    for k in range(n):
        W = World(m, seed * 521 + k * 29 + 9)
        W.construct()
        first = 1 if k % 2 and not m.is_rbf else W.nt + 1
        if k % 4 < 2:
            if not (add(T, m, W, 0, first, "arr2", "arr2") and add(T, m, W, first, first, "arr2", "arr2")):
                return
        elif not (add(T, m, W, 0, 0, "arr2", "arr2") and add(T, m, W, 0, first, "arr2", "arr2")):
            return
        for stage in ("fresh", "fitted"):
            if not query(T, m, W, first, "predict", "arr2", 2, stage):
                return


def coinciding(T, m, seed, n):
    """points that coincide, or nearly do, in one call and across calls: all of them are data"""
    for k in range(4 if n <= 10 else 16):
        W = World(m, seed * 757 + k * 37 + 11)
        W.construct()
        a = W.X[:max(3, len(W.X) - 1)]
        eps = (0.0, 1e-12, 1e-7, 0.0)[k % 4]
        W.X = np.vstack((a, a[::-1] + eps))
        W.f = np.round(W.r.uniform(-3, 3, (len(W.X), 1)), 4)
        if k % 2:
            W.f[len(a):] = W.f[:len(a)][::-1]
        cut = 1 + k % 3 if k % 3 else len(W.X)
        for lo, hi in ((0, cut), (cut, len(W.X))):
            if lo < hi and not add(T, m, W, lo, hi, "arr2", "arr2"):
                return


def same_question(T, m, seed, n):
    """the same points are asked for with different data of the same size, and with more data"""
    whats = [x for x in ("predict", "predict_std") if m.p.find_method(m.ci, x) and not (m.p.find_method(m.ci, x).cls or m.ci).name == "Surrogate"]
    for k in range(3 if n <= 10 else 12):
        for what in whats:
            W = World(m, seed * 653 + k * 31 + 7)
            W.construct()
            first = max(W.nt, 1) + (1, 0, 2 * W.nt)[k % 3]
            if len(W.X) < first + 1:
                W.X = W.lb + np.round(W.r.uniform(0, 1, (first + 1, W.d)), 4) * (W.ub - W.lb)
                W.f = np.round(W.r.uniform(-3, 3, (first + 1, 1)), 4)
            keep = W.X, W.f
            W.X = W.lb + np.round(W.r.uniform(0, 1, (first, W.d)), 4) * (W.ub - W.lb)
            W.f = np.round(W.r.uniform(-3, 3, (first, 1)), 4)
            if not (add(T, m, W, 0, first, "arr2", "arr2") and query(T, m, W, first, what, "arr2", 2, "fresh")):
                return
            out = W.run("reset", [], [])
            if len(out) != 1 or out[0][1] is RAISE:
                return
            W.attrs = out[0][2]
            W.X, W.f = keep
            if not (add(T, m, W, 0, first, "arr2", "arr2") and query(T, m, W, first, what, "arr2", 2, "after a reset", True)):
                return
            if not (add(T, m, W, first, first + 1, "arr2", "arr2") and query(T, m, W, first + 1, what, "arr2", 2, "after more points", True)):
                return


def empty(T, what, w, A, d):
    for a, want in (("X", np.empty((0, d))), ("_X", np.empty((0, d))), ("fX", np.empty((0, 1))), ("num_pts", 0)):
        if a not in A:
            T.rec("M02", "%s: %s is empty" % (what, a), w, None if a == "_X" else False, "%s is not set" % a)
            continue
        is_(T, "M02", "%s: %s is empty" % (what, a), w, A[a], want)
    u = A.get("updated")
    T.rec("M01", "%s: marked not fitted" % what, w, None if isinstance(u, Exception) or u is None else not bool(u), "updated is %s" % (u,))


def add(T, m, W, lo, hi, kx, kf):
    xs, fs = W.X[lo:hi], W.f[lo:hi]
    vx = xs[0] if kx == "arr1" else xs
    vf = {"arr2": fs, "arr1": fs.ravel(), "num": float(fs[0, 0]) if len(fs) else 0.0}[kf]
    w = m.where("add_points")
    nm = m.ci.name
    out = W.run("add_points", [kx, kf], [vx.copy(), vf if kf == "num" else vf.copy()])
    if len(out) != 1:
        T.rec("M02", nm + " add_points", w, None, "%d possible paths" % len(out))
        return False
    q, r, A, V = out[0]
    if r is RAISE:
        T.rec("M02", nm + " add_points", w, False, "valid points (%s, values %s) are refused" % (np.shape(vx), np.shape(vf)))
        return False
    is_(T, "M02", nm + " add_points: points appended in order", w, A["X"], W.X[:hi], 1e-12)
    is_(T, "M02", nm + " add_points: values appended in order", w, A["fX"], W.f[:hi], 1e-12)
    is_(T, "M02", nm + " add_points: count", w, A["num_pts"], hi)
    if "_X" in A:
        good = close(A["_X"], W.unit(W.X[:hi])) if not isinstance(A["_X"], Exception) else None
        prop = "M02"
        if good is False and np.shape(A["_X"]) == (hi, W.d):
            prop = "M04"  # right points, wrong scaling
        T.rec(prop, nm + " add_points: scaled copy", w, good, "scaled points are %s, specified %s" % (sv(A["_X"]), sv(W.unit(W.X[:hi]))))
        if good:
            T.rec("M04", nm + " add_points: scaled copy", w, True)
    u = A.get("updated")
    T.rec("M01", nm + " add_points: invalidates the fit", w, None if isinstance(u, Exception) else not bool(u), "updated is still %s" % (u,))
    changed = sorted(a for a in A if a not in ("X", "_X", "fX", "num_pts", "updated") and a in W.attrs and not isinstance(A[a], Exception)
                     and not isinstance(W.attrs[a], Exception) and freeze(A[a]) != freeze(W.attrs[a]))
    fits = [e for e in walk(q.events) if e.kind == "mcall" and e.name == "fit"]
    T.rec("M01", nm + " add_points: does not fit", w, not fits if not changed else None if not fits else False, "changes %s, fits %s" % (changed, bool(fits)))
    W.attrs = A
    return True


def query(T, m, W, n, what, kind, nq, stage, again=False):
    nm = m.ci.name
    w = m.where(what)
    xx = W.lb + np.round(W.r.uniform(-.1, 1.1, (nq, W.d)), 4) * (W.ub - W.lb)
    old = getattr(W, "asked", None)
    if again and old is not None and len(old) >= nq:
        xx = old[:nq].copy()
    W.asked = xx
    if what == "predict_deriv" and not again:
        for i in range(nq):  # at a point, or close to it
            u = W.r.randint(4)
            if u < 2:
                xx[i] = W.X[W.r.randint(n)] + (1e-5 * W.r.uniform(.5, 1, W.d) * (W.ub - W.lb) if u else 0)
    v = xx[0] if kind == "arr1" else xx
    was = W.attrs.get("updated")
    out = W.run(what, [kind], [v.copy()])
    if not out:
        T.rec("M01", "%s %s %s" % (nm, what, stage), w, None, "no path applies")
        return False
    lab = "%s %s" % (nm, what)
    nxt = None
    if all(r is RAISE or isinstance(r, Bad) for q, r, A, V in out) or any(isinstance(r, Bad) and not numerical(r) for q, r, A, V in out):
        why = next((str(r) for q, r, A, V in out if isinstance(r, Bad) and not numerical(r)), "the computation fails")
        for prop in ("M05", "M01") if stage in ("after a reset", "after more points") and m.is_rbf else ("M01",):
            T.rec(prop, "%s %s" % (lab, stage), w, False, "no prediction for %d points added: %s" % (n, why))
        if stage == "after more points" and m.is_rbf:
            T.rec("M08", grown(lab), w, False, "no prediction for %d points added in steps: %s" % (n, why))
        return False
    for q, r, A, V in out:
        if r is RAISE:
            # only a failing library call may raise here; a raise whatever the data is a defect of another property
            T.rec("M01", "%s %s" % (lab, stage), w, None if len(out) > 1 else False, "raises for valid queries")
            continue
        if isinstance(r, Exception):
            T.rec("M03", "%s: one row per query" % lab, w, None, "no value: %s" % r)
            T.rec("M01", "%s %s" % (lab, stage), w, None, "no value: %s" % r)
            continue
        want_shape = (nq, W.d if what == "predict_deriv" else 1)
        T.rec("M03", "%s: one row per query" % lab, w, np.shape(r) == want_shape,
              "shape %s for %s, specified %s" % (np.shape(r), "a vector" if kind == "arr1" else "%d points" % nq, want_shape))
        ok = values(T, m, W, n, what, xx, q, np.asarray(r, float).reshape(-1) if np.size(r) == np.prod(want_shape) else r, was, A, V, stage, lab, w)
        u = A.get("updated")
        T.rec("M01", "%s: the fit is valid afterwards" % lab, w, None if isinstance(u, Exception) else True if u else None, "updated is %s" % (u,))
        for a in ("X", "fX", "num_pts", "_X"):
            if a in A and a in W.attrs and not isinstance(A[a], Exception) and not isinstance(W.attrs[a], Exception):
                T.rec("M02", "%s: keeps %s" % (lab, a), w, freeze(A[a]) == freeze(W.attrs[a]), "%s changes to %s" % (a, sv(A[a])))
        if nxt is None or ok:
            nxt = A
    if nxt is None:
        return False
    W.attrs = nxt
    return True


def values(T, m, W, n, what, xx, q, r, was, A, V, stage, lab, w):
    flat = lambda a: np.asarray(a, float).reshape(-1)
    if m.is_rbf:
        spec = W.rbf if what == "predict" else W.rbf_deriv
        want = flat(spec(xx, n))
        good = close(r, want, 1e-4)
        key = "%s %s" % (lab, stage)
        for prop in ("M01", "M02", "M04", "M05"):
            if good:
                T.rec(prop, key, w, True)
        if stage == "after more points" and (good or "M05" in blame_rbf(W, what, xx, n, r, stage)):
            T.rec("M08", grown(lab), w, good, "computes %s at %s with %d points added in steps, adding them at once gives %s" % (sv(r), sv(xx), n, sv(want)))
        if not good:
            for prop in blame_rbf(W, what, xx, n, r, stage):
                T.rec(prop, key, w, False, "computes %s at %s with %d points added, specified %s" % (sv(r), sv(xx), n, sv(want)))
        return good
    # wrapped regressor: what was it fitted to, before it is asked
    evs = list(walk(q.events))
    fits = [i for i, e in enumerate(evs) if e.kind == "mcall" and e.name == "fit" and isin_model(e, V)]
    asks = [i for i, e in enumerate(evs) if e.kind == "mcall" and e.name in ("predict", "predict_deriv") and isin_model(e, V)]
    key = "%s %s" % (lab, stage)
    if not asks:
        T.rec("M01", key, w, None, "the wrapped regressor is not asked")
        return True
    if not bool(was):
        if not fits or fits[0] > asks[0]:
            T.rec("M01", key, w, False, "the regressor is asked without having been fitted to the current points")
            return False
        T.rec("M01", key, w, True)
        e = evs[fits[-1]]
        ta = e.d["targs"]
        try:
            X, y = V.ev(ta[0]), V.ev(ta[1])
        except (Unknown, Bad, IndexError) as x:
            T.rec("M02", key + ": fit data", w, None, str(x))
            return True
        y = np.asarray(y, float)
        rowsok = np.shape(X) == (n, W.d) and y.size == n
        T.rec("M01", lab + ": fitted to all points", w, rowsok, "fitted to %s points and %s values of %d" % (np.shape(X), np.shape(y), n))
        if not rowsok:
            return False
        T.rec("M04", lab + ": fitted on the unit box", w, close(X, W.unit(W.X[:n])), "fitted to %s, specified %s" % (sv(X), sv(W.unit(W.X[:n]))))
        F = W.T(W.f[:n])
        if W.flat and np.ptp(F) == 0:
            W.scale = ("constant", 0.0)
            return constant(T, W, lab, w, y, r)
        if n == 1 and not close(y.ravel() / W.fs, F.ravel() / W.fs):
            W.scale = ("single", float(F[0, 0]))
            return lone(T, W, key, lab, w, what, xx, r)
        s, c = affine(flat(y), flat(F), W.fs)
        T.rec("M02", lab + ": each point is fitted to its own transformed value", w, s is not None, "values %s for %s" % (sv(y.ravel()), sv(F.ravel())))
        if s is None:
            return False
        W.scale = (s, c)
    else:
        T.rec("M01", key, w, True)
    s, c = getattr(W, "scale", (1.0, 0.0))
    if s == "single":
        return lone(T, W, key, lab, w, what, xx, r)
    if s == "constant":
        return constant(T, W, lab, w, [0.0], r)
    e = evs[asks[-1]]
    try:
        Z = V.ev(e.d["targs"][0])
    except (Unknown, Bad, IndexError) as x:
        T.rec("M04", lab + ": scaled queries", w, None, str(x))
        return True
    T.rec("M04", lab + ": scaled queries", w, close(np.atleast_2d(Z), W.unit(xx)), "asked at %s, specified %s" % (sv(Z), sv(W.unit(xx))))
    if what == "predict":
        want = c + s * W.raw(W.unit(xx), "mean")
    elif what == "predict_std":
        want = abs(s) * W.raw(W.unit(xx), "std")
    else:
        return True
    T.rec("M04", lab + ": scaling of the values is undone", w, close(np.asarray(r, float) / W.fs, want / W.fs), "returns %s, specified %s (fitted values are (f - %s) / %s)" % (sv(r), sv(want), c, s))
    return True


def constant(T, W, lab, w, y, r):
    """equal transformed values are fitted and predicted by numbers"""
    y = np.asarray(y, float).ravel()
    good = bool(np.all(np.isfinite(y)) and np.ptp(y) == 0)
    T.rec("M02", lab + ": equal values are fitted to equal numbers", w, good, "values %s for constant data" % sv(y))
    r = np.asarray(r, float)
    T.rec("M04", lab + ": constant data give finite predictions", w, bool(np.all(np.isfinite(r))), "returns %s for constant data" % sv(r))
    return good


def lone(T, W, key, lab, w, what, xx, r):
    """a model of one point with normalized values: predictions are spread around its transformed value"""
    if what == "predict" and len(xx) == 2:
        raw = W.raw(W.unit(xx), "mean")
        sc = (r[1] - r[0]) / (raw[1] - raw[0])
        c = r[0] - sc * raw[0]
        T.rec("M02", lab + ": each point is fitted to its own transformed value", w, close([c / W.fs], [W.scale[1] / W.fs], 1e-4), "a single value %s is predicted around %s" % (W.scale[1], c))
    return True


def numerical(e):
    """failures that depend on the numbers only, which an exception handler may deal with"""
    return any(w in str(e) for w in ("potrf", "ingular", "positive definite", "getrf", "LinAlg", "infs or NaNs"))


def isin_model(e, V):
    try:
        o = V.ev(e.d["rterm"])
    except (Unknown, Bad):
        return False
    return isinstance(o, ObjV) and o.name.startswith("model")


def grown(lab):
    return lab + ": an extended model equals the model built at once"


def affine(y, F, unit=1.0):
    """(s, c) with F = s*y + c, or (None, None)"""
    F = F / unit
    if len(y) < 2 or np.ptp(y) < 1e-12:
        return (1.0, 0.0) if close(y / unit, F) else (None, None)
    A = np.vstack((y, np.ones(len(y)))).T
    sol = np.linalg.lstsq(A, F, rcond=None)[0]
    if not close(A @ sol, F) or sol[0] <= 0:
        return None, None
    return float(sol[0]) * unit, float(sol[1]) * unit


def blame_rbf(W, what, xx, n, r, stage):
    """which guarantee a wrong prediction breaks"""
    ident = lambda x: np.asarray(x, float)
    spec = W.rbf if what == "predict" else W.rbf_deriv
    twice = lambda x: W.unit(W.unit(x))
    clip = lambda x: np.clip(W.unit(x), 0, 1)
    var = [("M04", dict(query=ident)), ("M04", dict(query=twice)), ("M04", dict(query=clip)), ("M04", dict(unit=True))]
    if what == "predict":
        var += [("M04", dict(data=ident, query=ident)), ("M02", dict(T=ident)), ("M02", dict(rev=True)), ("M05", dict(eta=0.0))]
        var += [("M01", dict(k=j)) for j in range(W.nt, n)]
    for prop, v in var:
        try:
            if "k" in v:
                ok = close(r, np.asarray(spec(xx, v["k"])).reshape(-1), 1e-4)
            else:
                ok = close(r, np.asarray(spec(xx, n, **v)).reshape(-1), 1e-4)
        except Exception:
            ok = False
        if ok:
            return (prop,)
    if stage in ("after more points", "after a reset"):
        return ("M01", "M05")
    return ("M04",) if what == "predict_deriv" else ("M05",)


DATA = ("X", "_X", "fX")


def structure(T, m):
    """typestate of the fit mark over every method, and what the output transformation may touch"""
    p = m.p
    seen = set()
    s = m.summary("predict", ["arr2"])
    wrapped = s is not None and any(e.kind == "mcall" and e.name == "fit" for q in s[4] for e in walk(q.events))
    for c in p.mro(m.ci):
        for name, fi in c.methods.items():
            if name in seen or name == "__init__":
                continue
            seen.add(name)
            kinds = ["arr2" if n in ("xx", "x", "X", "fx", "fX") else "unk" for n in fi.params[1:]]
            key = "%s.%s" % (m.ci.name, name)
            try:
                fi, I, me, a, qs = m.summary(name, kinds)
            except Exception as e:
                if isinstance(e, AnalysisBroken):
                    raise
                T.rec("M01", key + ": marks the model fitted only after fitting", loc(fi), None, "not summarised: %s" % e)
                continue
            for q in qs:
                if q.raised:
                    continue
                u = q.attr(me, "updated")
                ut = I.term(u, q.st) if u is not None else None
                evs = list(walk(q.events))
                sets = [e for e in evs if e.kind == "setattr" and e.name == "updated" and e.d["obj"] == me]
                if sets and ut is TRUE:
                    fits = any(e.kind == "mcall" and e.name == "fit" for e in evs) or (not wrapped and any(e.kind == "setattr" and e.d["obj"] == me and e.name != "updated" for e in evs))
                    T.rec("M01", key + ": marks the model fitted only after fitting", loc(fi), True if fits or opaque_path(evs) else False, "sets updated without fitting")
                for e in evs:
                    if e.kind != "vcall":
                        continue
                    fn = e.d["fn"]
                    if not (isinstance(fn, tm.T) and fn.args and fn.args[0] == "self.output_transformation"):
                        continue
                    for x in e.d["args"]:
                        r = I.root(x, q.st)
                        bad = isinstance(r, tm.T) and r.op == "sym" and r.args[0] in ["self." + d for d in DATA]
                        T.rec("M02", key + ": the transformation gets a copy", loc(fi), not bad, "the output transformation is handed the stored array %s itself" % (tm.show(r) if bad else ""))
    # mismatched blocks are refused
    fi, I, me, a, qs = m.summary("add_points", ["arr2", "arr2"])
    for k in range(8):
        V = World(m, 31 + k).val()
        d, n = V.dim, 3 + k % 3
        r = V.np
        for what, sx, sf in (("fewer values than points", (n, d), (n - 1, 1)), ("more values than points", (n, d), (n + 1, 1)), ("two values per point", (n, d), (2 * n, 1)), ("points of another dimension", (n, d + 1), (n, 1)), ("points of a lower dimension", (n, d - 1), (n, 1))):
            if sx[1] == 0:
                continue
            W = World(m, 31 + k)
            W.attrs = {"dim": d, "lb": W.lb, "ub": W.ub, "X": W.X[:2], "_X": W.unit(W.X[:2]), "fX": W.f[:2], "num_pts": 2, "updated": False}
            key = "%s add_points: refuses %s" % (m.ci.name, what)
            try:
                V2 = W.val(**{fi.params[1]: r.uniform(0, 1, sx), fi.params[2]: r.uniform(0, 1, sf)})
                got = W.branches(qs, V2)
            except (Unknown, Bad) as e:
                T.rec("M02", key, loc(fi), None, str(e))
                continue
            if not got:
                T.rec("M02", key, loc(fi), True)  # an operation itself fails on such shapes
                continue
            q = got[0]
            if q.raised:
                T.rec("M02", key, loc(fi), True)
                continue
            # accepted: is the stored state well formed (a library error would show as a missing value)?
            A = W.store(q, I, me, V2)
            broken = [x for x in DATA if isinstance(A.get(x), Bad)]
            T.rec("M02", key, loc(fi), True if broken else False, "%d points of %d coordinates with %d values are accepted in dimension %d" % (sx[0], sx[1], sf[0], d))


def opaque_path(evs):
    return any(e.kind in ("pcall", "setattr_dynamic") for e in evs)


def rbf_options(T, m):
    """defaults and refusals of the RBF constructor"""
    p, ci, init = m.p, m.ci, m.init
    w = loc(init)
    isi = lambda x: x.op in ("isinst", "isinstance")
    # omitted kernel / tail
    for omit in (("kernel",), ("tail",), ("kernel", "tail")):
        for how in ("omitted", "None"):
            I = Interp(p)
            args = {n: S(n, ARGK.get(n, "unk")) for n in init.params[1:] if not (how == "omitted" and n in omit)}
            if how == "None":
                args.update({n: NONE for n in omit})
            qs = [q for q in construct(I, ci, args) if not q.raised]
            m.units |= I.visited
            key = "default for %s %s" % (" and ".join(omit), how)
            if not qs:
                T.rec("M05", key, w, False, "no path of the constructor accepts it")
            for q in qs:
                at = q.st.heap[q.v.id].attrs
                for n in ("kernel", "tail"):
                    v = at.get(n)
                    if v is None:
                        T.rec("M05", key, w, None, "attribute %s is not used" % n)
                        continue
                    if n in omit:
                        o = q.st.heap.get(v.id) if isinstance(v, Ref) else None
                        cn = o.cls.name if o is not None and getattr(o, "cls", None) is not None else None
                        want = {"kernel": "CubicKernel", "tail": "LinearTail"}[n]
                        T.rec("M05", key + ": " + n, w, None if cn is None and not (isinstance(v, tm.T) and v is NONE) else cn == want, "uses %s, documented %s" % (cn or tm.show(q.term(v)), want))
                        if n == "tail" and cn == want:
                            dt = o.attrs.get("dim")
                            T.rec("M05", key + ": dimension of the tail", w, None if dt is None else q.term(dt) == args["dim"], "the default tail has dimension %s" % (tm.show(q.term(dt)) if dt is not None else "?"))
                    else:
                        T.rec("M05", key + ": given " + n, w, q.term(v) == args[n] if not isinstance(v, Ref) else False, "the given %s is replaced by %s" % (n, tm.show(q.term(v)) if not isinstance(v, Ref) else q.st.heap[v.id].cls.name))
                if "eta" in at:
                    T.rec("M05", key + ": eta", w, q.term(at["eta"]) == args.get("eta"), "eta is %s" % tm.show(q.term(at["eta"])))
    # refused combinations
    kinds = {}
    for order in (1, 2, 3):
        for degree in (0, 1, 2):
            for dd in (0, 1, -1):
                for bad in ((), ("kernel",), ("tail",)):
                    if bad and (dd or order != 2 or degree != 1):
                        continue
                    W = World(m, 5 + order * 9 + degree * 3 + dd)
                    V = W.val(lb=W.lb, ub=W.ub, dim=W.d, eta=.1, kernel=ObjV("kernel"), tail=ObjV("tail"), output_transformation=ObjV("transform"))
                    V.ufs[("attr", "tail", "dim")] = W.d + dd
                    V.hints["tail.dim"] = W.d + dd
                    V.ufs[("attr", "tail", "degree")] = degree
                    V.hints["tail.degree"] = degree
                    V.ufs[("attr", "kernel", "order")] = order
                    V.hints["kernel.order"] = order
                    live = []
                    und = None
                    for q in m.ctor:
                        ok = True
                        for f in q.facts:
                            f = tm.subst(f, {x: FALSE if any(tm.contains(x, lambda y: y.op == "sym" and y.args[0] == b) for b in bad) else TRUE for x in tm.subterms(f) if isi(x)})
                            try:
                                ok = ok and V.truth(f)
                            except (Unknown, Bad) as e:
                                und = str(e)
                                ok = False
                                break
                        if ok:
                            live.append(q)
                    refuse = bool(bad) or order - 1 > degree or dd != 0
                    what = "wrong kind of %s" % bad[0] if bad else "kernel order and tail degree do not fit" if order - 1 > degree else "tail of another dimension" if dd else "fitting kernel and tail"
                    key = ("refuses " if refuse else "accepts ") + what
                    if not live:
                        T.rec("M05", key, w, None, und or "no path applies")
                    else:
                        got = all(q.raised for q in live)
                        T.rec("M05", key, w, got == refuse, "%s kernel order %d with tail degree %d, tail dimension %d for dimension %d%s" % ("refuses" if got else "accepts", order, degree, W.d + dd, W.d, " (%s of the wrong kind)" % bad[0] if bad else ""))


def make(prop):
    def rule(p, rep, tier, seed):
        T, models = analysis(p, tier, seed)
        for m in models:
            rep.unit(*m.units)
        T.report(rep, prop)
        if not rep.obs:
            rep.unknown("surrogate histories", "", "no history of a surrogate could be interpreted")
    return rule


rule_M01, rule_M02, rule_M03, rule_M04, rule_M05 = [make("M0%d" % i) for i in range(1, 6)]
rule_M08 = make("M08")
