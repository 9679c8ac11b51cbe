"""Separating valuations for value terms (random interpretation in the sense of Gulwani and Necula).

Two value terms computed by the analysis from the source are first compared by their normal forms.  When the normal
forms differ, this module decides whether they denote different functions: the terms (not the program) are given random
values for their symbols, with uninterpreted functions for calls the analysis keeps opaque.  A term with an operation
that has no meaning here (an unknown, a summarised loop, ...) raises Unknown and supports no verdict.
"""
import math
import random
import ast
import numpy as np
from . import terms as tm
from .terms import T

np.seterr(all="ignore")  # terms are evaluated at arbitrary points


class Unknown(Exception):
    pass


class Bad(Exception):
    """the term has no value under this valuation (index out of range, empty reduction, shape error)"""


class Fails(Bad):
    """the operation certainly raises an exception in the program"""


class LoopRun:
    """values carried by a loop: before the last iteration begun, and after the loop; how it ended"""

    def __init__(self):
        self.how, self.before, self.after, self.bv = "exit", {}, {}, None


class ObjV:
    __slots__ = ("name", "cls", "kw", "kinds")

    def __init__(self, name, kinds=None):
        self.name = name
        self.kinds = kinds

    def __eq__(self, o):
        return isinstance(o, ObjV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<%s>" % self.name


class SliceV:
    def __init__(self, lo, hi, step):
        self.s = slice(lo, hi, step)


class EachV(list):
    pass


def freeze(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objarr", v.shape, tuple(freeze(x) for x in v.ravel()))
        if v.dtype == bool:
            return ("barr", v.shape, v.tobytes())
        f = np.round(v.astype(float), 8) + 0.0
        return ("arr", v.shape, f.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        return ("n", round(f, 8) + 0.0 if math.isfinite(f) else repr(f))
    if isinstance(v, SliceV):
        return ("slice", freeze(v.s.start), freeze(v.s.stop), freeze(v.s.step))
    return (type(v).__name__, v)


def same(a, b, tol=1e-7):
    """observational equality of two values"""
    if isinstance(a, SliceV) or isinstance(b, SliceV):
        return freeze(a) == freeze(b)
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, ObjV)) or isinstance(b, (str, ObjV)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        a = toarr(a)
    if isinstance(b, (list, tuple)):
        b = toarr(b)
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            return freeze(a) == freeze(b)
        if x.shape != y.shape:
            return False
        x, y = x.astype(float), y.astype(float)
        with np.errstate(all="ignore"):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.isfinite(x) & np.isfinite(y)) & (np.abs(x - y) <= tol * (1 + np.abs(x) + np.abs(y)))
        return bool(np.all(ok))
    except (TypeError, ValueError):
        return freeze(a) == freeze(b)


def toarr(v):
    try:
        return np.asarray(v, dtype=float)
    except (TypeError, ValueError):
        raise Unknown("array of objects")


def isarr(v):
    return isinstance(v, np.ndarray)


UF_SHAPES = {}


def _scalar(v):
    return isinstance(v, (int, float, bool, np.integer, np.floating, np.bool_))


def _library():
    import scipy.linalg as sl
    d = {}
    for n in ("solve_triangular", "lu_factor", "lu_solve", "lu", "cholesky", "solve", "inv", "cho_factor", "cho_solve", "lstsq"):
        d["scipy.linalg." + n] = getattr(sl, n)
    for n in ("inv", "solve", "cholesky", "norm", "matrix_rank", "lstsq"):
        d["numpy.linalg." + n] = getattr(np.linalg, n)
    for n in ("tril", "triu", "diag", "argsort", "sort", "lexsort", "cumsum", "cumprod", "unique", "setdiff1d", "union1d", "isin", "diff", "flip",
              "flipud", "fliplr", "take", "roll", "searchsorted", "linspace", "argwhere", "count_nonzero", "isclose", "identity", "percentile", "quantile",
              "std", "var", "mean", "sum", "min", "max", "prod", "median", "average", "all", "any", "argmin", "argmax", "ptp", "ravel", "reshape",
              "clip", "round", "around", "nanmin", "nanmax", "nansum", "nanmean", "nanargmin", "nanargmax", "concatenate", "stack", "expand_dims",
              "squeeze", "atleast_2d", "atleast_1d", "repeat", "tile", "array_equal", "allclose", "isnan", "isinf", "isfinite", "floor", "ceil", "rint",
              "intersect1d", "setxor1d", "in1d", "delete", "append", "insert", "full", "zeros_like", "ones_like", "full_like", "broadcast_to", "bincount",
              "nonzero", "flatnonzero", "compress", "select", "choose", "partition", "argpartition", "interp", "digitize", "outer", "dot", "matmul", "inner",
              "kron", "trace", "square", "power", "sign", "hypot", "swapaxes", "moveaxis", "transpose", "column_stack", "vstack", "hstack", "dstack",
              "ediff1d", "nan_to_num", "extract", "unravel_index", "ravel_multi_index", "triu_indices", "tril_indices", "diag_indices", "meshgrid",
              "arange", "zeros", "ones", "eye", "where", "array", "asarray", "abs", "absolute", "sqrt", "exp", "log", "logical_and", "logical_or", "logical_not",
              "greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "fmax", "fmin", "trunc", "fix", "mod", "remainder", "split", "array_split"):
        if hasattr(np, n):
            d["numpy." + n] = getattr(np, n)
    for n in ("minimum", "maximum", "add", "multiply"):
        for k in ("accumulate", "reduce", "outer"):
            d["numpy.%s.%s" % (n, k)] = getattr(getattr(np, n), k)
    import itertools
    d["itertools.product"] = lambda *a, **k: [tuple(x) for x in itertools.product(*[list(y) for y in a], **k)]
    return d


LIBRARY = _library()


class Valuation:
    """One assignment of values to symbols; values are made on demand."""

    def __init__(self, seed, dim=None, hints=None, uf=None, strict=True):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.np = np.random.RandomState(self.rnd.randrange(2 ** 31))
        self.dim = dim if dim is not None else self.rnd.choice([1, 2, 2, 3])
        self.many = seed % 11 == 8  # collections are large
        if dim is None and seed % 11 == 4:
            self.dim = 24
        self.hints = hints or {}
        self.uf = uf
        self.syms = {}
        self.ufs = {}
        self.bvs = {}
        self.memo = {}
        self.sizes = {}
        self.touched_uf = set()
        self.interp = None      # owner of the loop summaries mentioned in the terms
        self.lvs = {}           # carried values of the iteration being evaluated
        self.ctx = ()           # iterations being evaluated
        self.loop_memo = {}
        self.imemo = {}
        self.draws = []
        self.extreme = 0        # how often a uniform draw lies at the end of its range
        self.lazy = None  # meaning of package functions whose arguments need no value
        self.libs = {}  # meanings of library functions for this valuation
        self.fuel = 40000 if self.many or self.dim > 4 else 4000
        lb = np.round(self.np.uniform(-4, 1, self.dim), 3)
        ub = np.round(lb + self.np.uniform(1.5, 6, self.dim), 3)
        nint = self.rnd.randrange(0, self.dim + 1) if self.dim > 1 else self.rnd.randrange(0, 2)
        iv = sorted(self.rnd.sample(range(self.dim), nint))
        for i in iv:
            lb[i], ub[i] = math.floor(lb[i]), math.ceil(ub[i])
        if seed % 7 == 2:  # bounds of integer variables need not be integers
            off = random.Random(seed)
            for i in iv:
                lb[i], ub[i] = lb[i] - off.choice([0, .3, .5, .4]), ub[i] + off.choice([0, .3, .5, .4])
        if seed % 7 in (2, 4) and iv:  # integer variables may be of one sign
            by = random.Random(seed + 1).choice([0, -7, -7, 7])
            for i in iv:
                lb[i], ub[i] = lb[i] + by, ub[i] + by
        if self.rnd.random() < .3:  # some continuous coordinates have a small or a large range
            for i in range(self.dim):
                if i not in iv:
                    f = self.rnd.choice([1.0, 1e-4, 1e3])
                    lb[i], ub[i] = lb[i] * f, ub[i] * f
        self.lb, self.ub, self.iv = lb, ub, np.array(iv, dtype=int)
        self.cv = np.array([i for i in range(self.dim) if i not in iv], dtype=int)

    # ------------------------------------------------------------ symbols
    def size(self, key, lo=0, hi=4):
        if key not in self.sizes:
            self.sizes[key] = self.rnd.randint(lo, hi) if not self.many or hi < 3 else self.rnd.randint(11 * hi, 15 * hi)
        return self.sizes[key]

    def points(self, n):
        return self.lb + self.np.uniform(0, 1, (n, self.dim)) * (self.ub - self.lb)

    def make(self, name, kind):
        """a value for a symbol or an attribute of an object"""
        last = name.rsplit(".", 1)[-1]
        pre = name[: -len(last)]
        for h in (name, last):
            if h in self.hints:
                r = self.hints[h]
                return r(self) if callable(r) else r
        if last == "dim":
            return self.dim
        if last == "num_pts":
            return self.size("num_pts", 1, 4)
        if last in ("lb", "xlow"):
            return self.lb.copy()
        if last in ("ub", "xup"):
            return self.ub.copy()
        if last in ("int_var", "integer"):
            return self.iv.copy()
        if last in ("cont_var",):
            return self.cv.copy()
        if last in ("X", "_X", "XX"):
            return self.points(self.size(pre + "_" if last[0] == "_" else pre, 1, 4))
        if last in ("fX", "_fX"):
            return np.round(self.np.uniform(-3, 3, (self.size(pre + "_" if last[0] == "_" else pre, 1, 4), 1)), 4)
        if last == "extra_points" and kind == "unk":
            n = self.size("extra", -1, 3)
            return None if n < 0 else self.points(max(n, 1))
        if last == "extra_vals" and kind == "unk":
            n = self.size("extra", -1, 3)
            if n < 0 or self.rnd.random() < .3:
                return None
            v = np.round(self.np.uniform(-2, 2, (max(n, 1), 1)), 4)
            v[self.np.uniform(0, 1, v.shape) < .4] = self.rnd.choice([np.inf, np.nan, -np.inf])
            return v
        if last == "Xpend":
            return self.points(self.size(name))
        if kind == "int":
            return self.rnd.choice([0, 1, 1, 2, 2, 3, 4, 5])
        if kind == "bool":
            return self.rnd.random() < .5
        if kind in ("num",):
            return round(self.rnd.uniform(-3, 3), 3) if self.rnd.random() < .8 else float(self.rnd.choice([-1, 0, 1]))
        if kind == "arr1":
            return np.round(self.np.uniform(-3, 3, self.dim), 4)
        if kind == "arr2":
            return np.round(self.np.uniform(-3, 3, (self.size(name, 1, 4), self.dim)), 4)
        if kind == "str":
            return "str:" + name
        if kind == "obj":
            return ObjV(name)
        if kind == "list":
            return [ObjV("%s[%d]" % (name, i)) for i in range(self.size(name, 0, 4))]
        if kind == "none":
            return None
        raise Unknown("symbol %s of kind %s" % (name, kind))

    def sym(self, t):
        if t not in self.syms:
            self.syms[t] = self.make(str(t.args[0]), t.args[1] if len(t.args) > 1 else "unk")
        return self.syms[t]

    def bind(self, t, v):
        self.syms[t] = v
        self.memo.clear()
        self.imemo.clear()
        self.loop_memo.clear()

    # ------------------------------------------------------------ evaluation
    def ev(self, t):
        if not isinstance(t, T):
            return t
        fb = free_bvs(t)
        inl = _in_loop(t)
        key = ik = None
        if not inl:
            if not fb:
                key = t
            else:
                try:
                    key = (t,) + tuple([self.bvs[b] for b in sorted(fb, key=_order)])
                except KeyError:
                    key = None
        elif not self.ctx and not _free_bv(t):
            key = t
        if key is not None:
            r = self.memo.get(key, _NO)
            if r is not _NO:
                if isinstance(r, Exception):
                    raise r
                return r
        elif self.ctx and len(t.args) > 1:
            ik = (t, self.ctx, tuple(self.bvs.items()))
            if ik in self.imemo:
                r = self.imemo[ik]
                if isinstance(r, Exception):
                    raise r
                return r
        try:
            r = self.ev1(t)
        except (IndexError, ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
            r = Bad("%s: %s" % (t.op, e))
        except (Unknown, Bad) as e:
            r = e
        if key is not None:
            self.memo[key] = r
        elif ik is not None:
            self.imemo[ik] = r
        if isinstance(r, Exception):
            raise r
        return r

    def truth(self, t):
        v = self.ev(t)
        if isarr(v):
            if v.size != 1:
                raise Bad("truth of an array")
            v = v.ravel()[0]
        if isinstance(v, ObjV):
            return True
        return bool(v)

    def over(self, bv):
        """values of a bound variable"""
        lo, hi = self.ev(bv.args[1]), self.ev(bv.args[2])
        return range(int(lo), int(hi))

    def each(self, bv, guard, body):
        out = []
        old = self.bvs.get(bv)
        try:
            for i in self.over(bv):
                self.bvs[bv] = i
                if self.truth(guard):
                    out.append(self.ev(body))
        finally:
            if old is None:
                self.bvs.pop(bv, None)
            else:
                self.bvs[bv] = old
        return out

    def uninterp(self, key, t, args, kind):
        """value of an uninterpreted application, the same for the same arguments"""
        k = (key,) + tuple(freeze(a) for a in args)
        if k not in self.ufs:
            v = None
            if self.uf is not None:
                v = self.uf(self, t, args)
            if v is None:
                v = self.uf_default(t, args, kind)
            self.ufs[k] = v
        self.touched_uf.add(key)
        r = self.ufs[k]
        return None if isinstance(r, str) and r == "<None>" else r

    def shaped(self, shape):
        return np.round(self.np.uniform(-2, 2, shape), 5)

    def uf_default(self, t, args, kind):
        if t.op == "mcall":
            a = [x for x in args[1:] if isarr(x)]
            name = t.args[1]
            if name in ("predict", "predict_std") and a:
                n = len(a[0]) if a[0].ndim == 2 else 1
                r = self.shaped((n, 1))
                if name == "predict_std":
                    c = getattr(self, "sscale", 1)
                    return (np.abs(r) + 0.05) * (c(len(r)) if callable(c) else c)
                k = getattr(self, "pscale", 1)  # almost constant, or huge
                return 1 + r * k if k < 1 else r * k
            if name == "predict_deriv" and a:
                n = len(a[0]) if a[0].ndim == 2 else 1
                return self.shaped((n, self.dim))
            if name == "generate_points":
                h = self.hints.get("num_pts")
                return self.points(h if isinstance(h, int) else self.size("num_pts", 1, 4))
        if t.op == "vcall":
            a = [x for x in args[1:] if isarr(x)]
            if a:
                return self.shaped(a[0].shape)
        if kind == "num":
            return round(self.rnd.uniform(-2, 2), 4)
        if kind == "int":
            return self.rnd.randint(0, 4)
        if kind == "bool":
            return self.rnd.random() < .5
        if kind == "arr1":
            return self.shaped(self.dim)
        if kind == "str":
            return "s%d" % self.rnd.randrange(10 ** 6)
        raise Unknown("uninterpreted %s" % (t.op,))

    def kwargs(self, ks):
        return {k: self.ev(v) for k, v in (kv if not isinstance(kv, T) else kv.args for kv in ks)}

    def ev1(self, t):
        f = getattr(self, "o_" + t.op, None)
        if f is None:
            if t.op.startswith(("lib_", "np_")):
                return self.library(t)
            raise Unknown("operation %s" % t.op)
        return f(t, *t.args)

    def library(self, t):
        """meaning of a pure library function"""
        name = t.op[4:] if t.op.startswith("lib_") else "numpy." + t.op[3:]
        f = self.libs.get(name) or LIBRARY.get(name)
        if f is None:
            raise Unknown("operation %s" % t.op)
        if t.op.startswith("lib_"):
            args = [self.ev(x) for x in t.args[0]]
            kw = self.kwargs(t.args[1]) if len(t.args) > 1 else {}
        else:
            args, kw = [], {}
            for x in t.args:
                if isinstance(x, tuple):
                    kw.update(self.kwargs(x))
                else:
                    args.append(self.ev(x))
        for a in list(args) + list(kw.values()):
            if isinstance(a, ObjV):
                raise Unknown("operation %s on an object" % t.op)
        try:
            return f(*args, **kw)
        except np.linalg.LinAlgError as e:
            raise Bad("%s: %s" % (name, e))
        except TypeError as e:
            raise Unknown("%s: %s" % (name, e))

    # ---- constants and arithmetic
    def o_num(self, t, f):
        return int(f) if f.denominator == 1 else float(f)

    def o_const(self, t, *a):
        ok, v = tm.py_const(t)
        if not ok:
            raise Unknown("constant")
        return v

    def o_const_e(self, t):
        return math.e

    def o_pi(self, t):
        return math.pi

    def o_cpow(self, t, c):
        return float(c)

    def o_sym(self, t, *a):
        return self.sym(t)

    def o_lv(self, t, loopid, name, *k):
        d = self.lvs.get(loopid)
        if d is None:
            d = self.loop_exit(loopid).before
        if name not in d:
            raise Unknown("loop variable %s" % name)
        return d[name]()

    def loop_exit(self, loopid):
        """the iteration in which the loop is left early (by break, return or an exception)"""
        I = self.interp
        loop = I.loops.get(loopid) if I is not None else None
        if loop is None:
            raise Unknown("loop variable")
        r = self.run_loop(loop)
        if r.how not in ("break", "return", "raise"):
            raise Bad("the loop is not left early")
        return r

    def o_phi(self, t, loopid, name, *k):
        I = self.interp
        loop = I.loops.get(loopid) if I is not None else None
        if loop is None:
            raise Unknown("operation phi")
        r = self.run_loop(loop)
        if r.how in ("break", "return", "raise"):
            raise Bad("the loop is left early")
        if name not in r.after:
            raise Unknown("value of %s after the loop" % name)
        return r.after[name]()

    def o_done(self, t, loopid):
        """the loop ran to its end"""
        loop = self.interp.loops.get(loopid) if self.interp is not None else None
        if loop is None:
            raise Unknown("whether a loop runs to its end")
        return self.run_loop(loop).how not in ("break", "return", "raise")

    def o_listremove(self, t, a, x):
        v, x = self.seq(a), self.ev(x)
        for i, y in enumerate(v):
            if same(x, y):
                return v[:i] + v[i + 1:]
        raise Fails("remove: the element is not in the list")

    def run_loop(self, loop):
        """value of the carried keys after the loop: the transition summary is iterated on this valuation"""
        mk_ = (loop.loopid, self.ctx, tuple(sorted((b.id, v) for b, v in self.bvs.items())))
        if mk_ in self.loop_memo:
            r = self.loop_memo[mk_]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self.run_loop1(loop)
        except (Unknown, Bad) as e:
            self.loop_memo[mk_] = e
            raise
        self.loop_memo[mk_] = r
        return r

    def _reader(self, loop, st, key):
        """evaluate the value of a key in a state once, now (a failed evaluation matters only when it is read)"""
        I = self.interp
        try:
            v = I.get_key(st, key)
            if v is None:
                r = Unknown("no value")
            else:
                r = self.ev(v if isinstance(v, T) else I.lc_term(v, st) if type(v).__name__ == "LC" else I.term(v, st))
        except (Unknown, Bad) as e:
            r = e
        except Exception as e:
            r = Unknown("%s: %s" % (type(e).__name__, e))

        def read():
            if isinstance(r, Exception):
                raise r
            return r
        return read

    def run_loop1(self, loop):
        I = self.interp
        keys = [k for k in loop.keys if k[0] in ("var", "attr", "obj", "cont")]
        names = {I.key_name(k): k for k in keys}
        cur = {n: self._reader(loop, loop.pre, k) for n, k in names.items()}
        old_lv, old_ctx, old_bv = self.lvs.get(loop.loopid), self.ctx, self.bvs.get(loop.raw_bv)
        forloop = loop.raw_bv is not None and not tm.contains(loop.raw_bv.args[2], lambda x: x.op == "iters")
        known = set(loop.base.order)
        facts = [(tag, s, [f for f in s.order if f not in known]) for tag, s in loop.outcomes]
        fid = self._fid(loop)
        local = loop.pre.frames.get(fid, {})
        res = LoopRun()
        try:
            rng = iter(self.over(loop.raw_bv)) if forloop else None
            k = 0
            while True:
                if forloop:
                    i = next(rng, None)
                    if i is None:
                        break
                    self.bvs[loop.raw_bv] = res.bv = i
                elif loop.raw_bv is not None:
                    self.bvs[loop.raw_bv] = k
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unknown("loop runs too long")
                self.lvs[loop.loopid] = res.before = cur
                self.ctx = old_ctx + ((loop.loopid, k),)
                k += 1
                if loop.guard is not None and loop.guard is not tm.TRUE and not self.truth(loop.guard):
                    continue
                self.failed = None
                hit = [(tag, s) for tag, s, fs in facts if self._all(fs)]
                if not hit and self.failed is not None:
                    raise Bad("an operation of the loop fails: %s" % self.failed)
                if len(hit) != 1:
                    raise Unknown("%d paths match an iteration" % len(hit))
                res.how, s = hit[0]
                nxt = {n: self._reader(loop, s, key) for n, key in names.items()}
                for v in s.frames.get(fid, {}):
                    if v not in local and v not in nxt:
                        nxt[v] = self._reader(loop, s, ("var", fid, v))
                cur = nxt
                if res.how != "iter":
                    break
        finally:
            self.ctx = old_ctx
            if old_lv is None:
                self.lvs.pop(loop.loopid, None)
            else:
                self.lvs[loop.loopid] = old_lv
            if old_bv is None:
                self.bvs.pop(loop.raw_bv, None)
            else:
                self.bvs[loop.raw_bv] = old_bv
        res.after = cur
        return res

    def _fid(self, loop):
        for k in loop.keys:
            if k[0] == "var":
                return k[1]
        return None

    def _all(self, fs):
        for f in fs:
            try:
                if not self.truth(f):
                    return False
            except Bad as e:
                self.failed = e
                return False
        return True

    def o_bv(self, t, *a):
        if t not in self.bvs:
            I = self.interp
            loops = [l for l in I.loops.values() if l.raw_bv is t and any(tag in ("break", "return", "raise") for tag, _ in l.outcomes)] if I is not None else []
            if len({id(l.node) for l in loops}) != 1:
                raise Unknown("free bound variable")
            return self.any_exit(loops)
        return self.bvs[t]

    def any_exit(self, loops):
        """a loop that was analysed in several states: the iteration in which it is left, when they agree"""
        got, why = [], None
        for l in loops:
            try:
                got.append(self.loop_exit(l.loopid).bv)
            except (Unknown, Bad) as e:
                why = e
        if not got:
            raise why
        if any(not same(g, got[0]) for g in got):
            raise Unknown("free bound variable")
        return got[0]

    def num(self, v):
        if isinstance(v, (list, tuple)):
            return toarr(v)
        if v is None or isinstance(v, (str, ObjV)):
            raise Bad("arithmetic on %r" % (v,))
        return v

    def o_poly(self, t, items, summands=None):
        tot = 0
        for m, c in items:
            p = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                x = self.num(self.ev(a))
                if e == 1:
                    p = p * x
                elif e.denominator == 1 and e > 0:
                    p = p * x ** int(e)
                else:
                    x = np.asarray(x, dtype=float) if isarr(x) else np.float64(x)
                    p = p * (x ** float(e) if e.denominator != 1 or e < 0 else x ** int(e))
            tot = tot + p
            if summands is not None:
                summands.append(p)
        return tot

    def o_psum(self, t, p):
        return self.ev(p)

    def o_pow(self, t, a, b):
        x = self.num(self.ev(a))
        y = self.num(self.ev(b))
        return np.power(np.asarray(x, dtype=float), y) if isarr(x) or isarr(y) else float(np.float64(x) ** y)

    def o_mod(self, t, a, b):
        return np.mod(self.num(self.ev(a)), self.num(self.ev(b)))

    def o_floordiv(self, t, a, b):
        return np.floor_divide(self.num(self.ev(a)), self.num(self.ev(b)))

    FN1 = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "log": np.log, "log2": np.log2, "log10": np.log10,
           "abs": np.abs, "isfinite": np.isfinite, "isinf": np.isinf, "isnan": np.isnan, "round": np.round, "rint": np.rint,
           "floor": np.floor, "ceil": np.ceil, "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "arctan": np.arctan,
           "arcsin": np.arcsin, "arccos": np.arccos, "log1p": np.log1p, "expm1": np.expm1, "sign": np.sign, "trunc": np.trunc,
           "float32": lambda v: np.asarray(np.asarray(v, dtype=np.float32), dtype=float)}

    def o_fn(self, t, name, *xs):
        vs = [self.num(self.ev(x)) for x in xs]
        if name in ("maximum", "minimum"):
            f = np.maximum if name == "maximum" else np.minimum
            r = vs[0]
            for v in vs[1:]:
                r = f(r, v)
            return r
        if name == "normcdf":
            from scipy.stats import norm
            return norm.cdf(*vs)
        if name == "normpdf":
            from scipy.stats import norm
            return norm.pdf(*vs)
        if name in self.FN1 and len(vs) == 1:
            v = vs[0]
            r = self.FN1[name](np.asarray(v, dtype=float) if isarr(v) else float(v))
            return r if isarr(v) else (bool(r) if name.startswith("is") else float(r))
        if name == "int":
            v = vs[0]
            if not np.all(np.isfinite(np.asarray(v, dtype=float))):
                raise Fails("a value that is not finite has no integer")
            return np.trunc(np.asarray(v, dtype=float)).astype(int) if isarr(v) else int(v)
        if name == "norm":
            return np.linalg.norm(vs[0], axis=None if xs[1] is tm.NONE else self.ev(xs[1]))
        if name == "clip":
            return np.clip(*vs)
        raise Unknown("function %s" % name)

    def o_clip(self, t, *xs):
        return np.clip(*[self.num(self.ev(x)) for x in xs])

    def o_norm(self, t, x, *r):
        v = self.num(self.ev(x))
        if r and r[0] is not tm.NONE:
            return np.linalg.norm(v, axis=self.ev(r[0]))
        return float(np.linalg.norm(v))

    def cmp(self, v):
        return v if isarr(v) else bool(v)

    def o_lt0(self, t, p):
        v = self.num(self.ev(p))
        if np.any(np.isnan(v)):
            a, b = self.sides(p, v)
            return self.cmp(a < b)
        return self.cmp(v < 0)

    def o_le0(self, t, p):
        v = self.num(self.ev(p))
        if np.any(np.isnan(v)):
            a, b = self.sides(p, v)
            return self.cmp(a <= b)
        return self.cmp(v <= 0)

    def sides(self, p, v):
        """a comparison of infinite quantities, as a comparison of the positive with the negative summands"""
        if not isinstance(p, T) or p.op != "poly":
            return v, 0
        parts = []
        self.o_poly(p, *p.args, summands=parts)
        pos, neg = np.zeros(np.shape(v)), np.zeros(np.shape(v))
        for x in parts:
            x = np.broadcast_to(np.asarray(x, float), np.shape(v))
            pos = pos + np.where(x < 0, 0, x)
            neg = neg + np.where(x < 0, -x, 0)
        return pos, neg

    def o_eq0(self, t, p):
        parts = []
        v = self.o_poly(p, *p.args, summands=parts) if isinstance(p, T) and p.op == "poly" else self.num(self.ev(p))
        tol = 1e-15 if len(parts) < 2 else np.minimum(1e-12, 1e-12 * sum(np.abs(x) for x in parts))  # rounding of the normal form
        return self.cmp(np.abs(v) <= tol)

    def o_lt(self, t, a, b):
        return self.cmp(self.num(self.ev(a)) < self.num(self.ev(b)))

    def o_le(self, t, a, b):
        return self.cmp(self.num(self.ev(a)) <= self.num(self.ev(b)))

    def o_eq(self, t, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, (str, ObjV)) or isinstance(y, (str, ObjV)) or x is None or y is None:
            return x == y if not (isarr(x) or isarr(y)) else False
        if isinstance(x, list) and isinstance(y, list):
            return same(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and a.op in ("tuple", "shape") and b.op in ("tuple", "shape"):
            return x == y if all(isinstance(v, (int, float, str, bool, np.number)) for v in x + y) else same(list(x), list(y))
        return self.cmp(self.num(x) == self.num(y))

    def o_arreq(self, t, a, b):
        x, y = self.ev(a), self.ev(b)
        if x is None or y is None:
            return False
        return bool(np.array_equal(np.asarray(x), np.asarray(y)))

    def o_is(self, t, a, b):
        x, y = self.ev(a), self.ev(b)
        if x is None or y is None:
            return x is y
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        if isinstance(x, ObjV) and isinstance(y, ObjV):
            return x == y
        raise Unknown("identity")

    def o_not(self, t, a):
        v = self.ev(a)
        if isarr(v):
            return np.logical_not(v)
        if isinstance(v, ObjV):
            return False
        return not v

    def _log(self, xs, f, unit):
        # short circuit on scalars (the order of the operands of a normal form is not the program's)
        acc = unit
        bad = None
        for x in xs:
            try:
                v = self.ev(x)
            except (Bad, Unknown) as e:
                bad = bad or e
                continue
            if isarr(v) and v.size > 1 or isarr(acc):
                acc = f(acc, v)
            else:
                b = bool(v.ravel()[0]) if isarr(v) and v.size == 1 else (True if isinstance(v, ObjV) else bool(v))
                acc = (acc and b) if unit else (acc or b)
                if not isarr(acc) and bool(acc) != unit:
                    return bool(acc)
        if bad is not None:
            raise bad
        return acc

    def o_and(self, t, *xs):
        return self._log(xs, np.logical_and, True)

    def o_or(self, t, *xs):
        return self._log(xs, np.logical_or, False)

    def o_ite(self, t, c, a, b):
        v = self.ev(c)
        if isarr(v) and v.size != 1:
            x, y = self.ev(a), self.ev(b)
            if isarr(x) and v.ndim == 1 and x.shape == (int(v.sum()),) and x.shape != v.shape and np.shape(y) == v.shape:
                r = np.array(y, float)  # selected positions receive the values in order
                r[v] = x
                return r
            return np.where(v, x, y)
        v = v.ravel()[0] if isarr(v) else v
        return self.ev(a) if v else self.ev(b)

    def o_where(self, t, c, a, b):
        return np.where(self.ev(c), self.ev(a), self.ev(b))

    # ---- binders
    def o_Sum(self, t, bv, g, x):
        r = 0
        for v in self.each(bv, g, x):
            r = r + v
        return r

    def o_Prod(self, t, bv, x):
        r = 1
        for v in self.each(bv, tm.TRUE, x):
            r = r * v
        return r

    def o_exists(self, t, bv, g):
        return len(self.each(bv, g, tm.ZERO)) > 0

    def o_redeach(self, t, name, bv, g, x):
        vs = self.each(bv, g, x)
        if not vs:
            raise Bad("empty reduction")
        if name in ("min", "max"):
            return (min if name == "min" else max)(vs)
        if name in ("argmin", "argmax"):
            return int((np.argmin if name == "argmin" else np.argmax)(vs))
        raise Unknown("redeach " + name)

    # ---- sequences
    def o_list(self, t, *segs):
        out = []
        for s in segs:
            if s.op == "item":
                out.append(self.ev(s.args[0]))
            elif s.op == "rest":
                out.extend(self.seq(s.args[0]))
            elif s.op == "each":
                out.extend(self.each(*s.args))
            elif s.op == "nested":
                raise Unknown("nested")
            else:
                out.extend(self.seq(s))
        return out

    def seq(self, t):
        v = self.ev(t)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isarr(v):
            return list(v)
        raise Unknown("sequence of %r" % (v,))

    def o_tuple(self, t, *xs):
        return tuple(self.ev(x) for x in xs)

    def o_asarr(self, t, a):
        v = self.ev(a)
        if isinstance(v, (list, tuple)) and any(isinstance(x, ObjV) or x is None for x in v):
            raise Unknown("array of objects")
        return np.asarray(v, dtype=None if not (isinstance(v, (list, tuple)) and not v) else float)

    def o_len(self, t, a):
        v = self.ev(a)
        if isinstance(v, (list, tuple, str)):
            return len(v)
        if isarr(v):
            return len(v)
        raise (Bad if v is None or _scalar(v) else Unknown)("len of %r" % (v,))

    def o_dim1(self, t, a):
        return self.ev(a).shape[1]

    def o_shape(self, t, a):
        return tuple(int(x) for x in np.shape(self.ev(a)))

    def o_ndim(self, t, a):
        return int(np.ndim(self.ev(a)))

    def o_size(self, t, a):
        return int(np.size(self.ev(a)))

    def o_lastitem(self, t, a):
        return self.seq(a)[-1]

    def o_butlast(self, t, a):
        v = self.seq(a)
        if not v:
            raise Fails("pop from an empty list")
        return v[:-1]

    def o_firstitem(self, t, a):
        return self.seq(a)[0]

    def o_butfirst(self, t, a):
        v = self.seq(a)
        if not v:
            raise Fails("pop from an empty list")
        return v[1:]

    def o_delitem(self, t, a, i):
        v = self.ev(a)
        if isarr(v):
            raise Unknown("delitem of array")
        v = list(v)
        i = self.index(i)
        del v[i]
        return v

    def index(self, i):
        if i is tm.NONE:
            return None
        if i.op == "slice":
            lo, hi, st = (self.ev(x) for x in i.args)
            return slice(*[None if x is None else int(x) for x in (lo, hi, st)])
        if i.op == "tuple":
            return tuple(self.index(x) for x in i.args)
        v = self.ev(i)
        if isinstance(v, list):
            v = np.asarray(v, dtype=int if not v else None)
        if isarr(v) and v.dtype.kind == "f":
            v = v.astype(int)
        if isinstance(v, float) and v == int(v):
            v = int(v)
        return v

    def o_slice(self, t, *a):
        return SliceV(*[self.ev(x) for x in a])

    def o_getitem(self, t, a, i):
        v = self.ev(a)
        if isinstance(v, ObjV):
            k = self.ev(i)
            return self.make("%s[%s]" % (v.name, k), "obj")
        ix = self.index(i)
        if isinstance(v, (list, tuple)):
            if isinstance(ix, np.ndarray) or isinstance(ix, tuple):
                v = np.asarray(v)
            else:
                return v[ix]
        r = v[ix]
        return r if isarr(r) else (r.item() if hasattr(r, "item") else r)

    def o_unview(self, t, op, base, new):
        """an array after its view (a reshaped or transposed form) was overwritten"""
        b, v = np.asarray(self.ev(base)), np.asarray(self.ev(new))
        if op == "tr":
            v = v.T
        elif op not in ("at2d", "ravel", "squeeze", "reshape", "col", "colvec", "expand0"):
            raise Unknown("view " + str(op))
        if v.size != b.size:
            raise Unknown("view of another size")
        return v.reshape(b.shape)

    def o_reversed(self, t, a):
        return list(reversed(self.seq(a)))

    def o_rounddec(self, t, a, d):
        v = np.round(np.asarray(self.ev(a), float), int(self.ev(d)))
        return v if v.ndim else float(v)

    def o_rank(self, t, a, *r):
        v = np.asarray(self.ev(a), float)
        if r and not all(x is tm.mk("none") for x in r):
            raise Unknown("rank with a tolerance")
        return int(np.linalg.matrix_rank(v))

    def o_filldiag(self, t, a, x):
        v = np.array(self.ev(a), float)
        if v.ndim != 2:
            raise Bad("diagonal of an array that is not a matrix")
        np.fill_diagonal(v, self.ev(x))
        return v

    def o_setitem(self, t, a, i, x):
        v = self.ev(a)
        if isinstance(v, list):
            v = list(v)
            v[self.index(i)] = self.ev(x)
            return v
        if not isarr(v):
            raise Unknown("setitem")
        x = self.ev(x)
        if x is None:
            raise Unknown("None stored")
        v = v.astype(float) if v.dtype.kind in "ib" and not isinstance(x, (bool, np.bool_)) else v.copy()
        v[self.index(i)] = x
        return v

    def o_swaps(self, t, base, bv, i, j):
        v = np.array(self.ev(base))
        old = self.bvs.get(bv)
        try:
            for k in self.over(bv):
                self.bvs[bv] = k
                a, b = int(self.ev(i)), int(self.ev(j))
                v[a], v[b] = v[b], v[a]
        finally:
            if old is None:
                self.bvs.pop(bv, None)
            else:
                self.bvs[bv] = old
        return v

    def o_forset(self, t, base, bv, g, i, x):
        v = self.ev(base)
        lst = isinstance(v, list)
        v = list(v) if lst else v.astype(float)
        old = self.bvs.get(bv)
        try:
            for k in self.over(bv):
                self.bvs[bv] = k
                if self.truth(g):
                    v[self.index(i)] = self.ev(x)
        finally:
            if old is None:
                self.bvs.pop(bv, None)
            else:
                self.bvs[bv] = old
        return v

    def o_delete(self, t, a, i, axis=None):
        v = self.ev(a)
        ix = self.index(i)
        ax = None if axis is None or axis is tm.NONE else self.ev(axis)
        if isinstance(ix, np.ndarray) and ix.dtype == bool:
            pass
        return np.delete(v, ix, ax)

    def o_nonzero(self, t, a):
        v = np.asarray(self.ev(a))
        return np.nonzero(v.ravel() if v.ndim != 1 else v)[0]

    def o_wherenz(self, t, a):
        v = np.asarray(self.ev(a))
        if v.ndim != 1:
            raise Unknown("positions in a matrix")
        return np.nonzero(v)[0]

    def o_truthy(self, t, a):
        v = self.ev(a)
        if v is None:
            return False
        if isinstance(v, ObjV):
            return True
        if isarr(v):
            if v.size == 1:
                return bool(v.ravel()[0])
            raise Bad("the truth value of an array of %d elements" % v.size)
        if isinstance(v, (list, tuple, dict, str)):
            return len(v) > 0
        return bool(v)

    def o_hasattr(self, t, a, name):
        """whether objects of a class of the package have an attribute"""
        v = self.ev(a)
        p = getattr(self.interp, "p", None)
        n = tm.py_const(name)[1] if isinstance(name, T) else name
        kinds = getattr(v, "kinds", None) if isinstance(v, ObjV) else None
        if p is None or kinds is None:
            raise Unknown("attributes of an arbitrary object")
        own = [c for c in p.classes() if c.name in kinds and not p.is_abstract(c)]
        if not own or any(p.ext_bases(b) for c in own for b in p.mro(c) if [x for x in p.ext_bases(b) if str(x).split(".")[-1] not in ("object", "ABC")]):
            raise Unknown("attributes of an arbitrary object")
        for c in own:
            for b in p.mro(c):
                if n in b.methods or n in b.consts or any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store) for x in ast.walk(b.node)):
                    return True
        return False

    def o_isinst(self, t, a, name):
        v = self.ev(a)
        if isinstance(v, ObjV):
            k = getattr(v, "kinds", None)
            if k is None:
                raise Unknown("class of an arbitrary object")
            return name in k
        if isinstance(v, (bool, np.bool_)):
            return name in ("bool", "int")
        if isinstance(v, (int, np.integer)):
            return name in ("int", "Integral", "Number", "Real") if isinstance(v, int) else name in ("integer", "Integral", "Number", "Real")
        if isinstance(v, (float, np.floating)):
            return name in ("float", "Real", "Number")
        for ty, ns in ((str, ("str",)), (np.ndarray, ("ndarray",)), (list, ("list",)), (tuple, ("tuple",)), (dict, ("dict",))):
            if isinstance(v, ty):
                return name in ns
        return False

    def o_new(self, t, cls, kws):
        kw = {k: self.ev(v) for k, v in kws}
        o = ObjV("new:%s%r" % (cls, tuple((k, freeze(v)) for k, v in sorted(kw.items()))))
        o.cls, o.kw = cls, kw
        return o

    def o_intersect(self, t, a, b):
        return np.intersect1d(self.ev(a), self.ev(b))

    def o_arange(self, t, lo, hi, step):
        return np.arange(self.ev(lo), self.ev(hi), self.ev(step))

    o_range = lambda self, t, lo, hi, *st: list(range(int(self.ev(lo)), int(self.ev(hi)), *[int(self.ev(s)) for s in st]))

    def o_full(self, t, sh, v):
        s = self.ev(sh)
        s = tuple(int(x) for x in s) if isinstance(s, tuple) else int(s)
        x = self.ev(v)
        return np.full(s, x)

    def o_empty(self, t, sh):
        s = self.ev(sh)
        s = tuple(int(x) for x in s) if isinstance(s, tuple) else (int(s),)
        if 0 in s:
            return np.empty(s)
        return np.full(s, np.nan)

    def o_fill(self, t, n, v):
        return np.full(int(self.ev(n)), self.ev(v))

    def o_eye(self, t, n):
        return np.eye(int(self.ev(n)))

    def o_bcast(self, t, n, x):
        return np.tile(np.asarray(self.ev(x)), (int(self.ev(n)), 1))

    def o_at2d(self, t, a):
        return np.atleast_2d(self.ev(a))

    def o_ravel(self, t, a):
        return np.ravel(self.ev(a))

    def o_reshape(self, t, a, sh):
        v, n = np.asarray(self.ev(a)), self.ev(sh)
        try:
            return np.reshape(v, tuple(int(x) for x in n) if np.ndim(n) else int(n))
        except (ValueError, TypeError):
            raise Bad("an array of shape %s is reshaped to %s" % (v.shape, n))

    def o_tr(self, t, a):
        return np.transpose(self.ev(a))

    def o_col(self, t, a):
        return np.asarray(self.ev(a)).reshape(-1, 1) if np.ndim(self.ev(a)) < 2 else self.ev(a)

    def o_colvec(self, t, a):
        v = np.asarray(self.ev(a))
        return v.reshape(-1, 1)

    def o_expand1(self, t, a):
        return np.expand_dims(self.ev(a), 1)

    def o_squeeze(self, t, a):
        return np.squeeze(self.ev(a))

    def o_rows(self, t, *xs):
        out = []
        for x in xs:
            if x.op == "each":
                out.extend(np.atleast_2d(v) for v in self.each(*x.args))
            else:
                v = self.ev(x)
                if isinstance(v, list):
                    v = toarr(v)
                out.append(np.atleast_2d(v))
        out = [o for o in out]
        w = {o.shape[1] for o in out if o.size}
        if not out:
            return np.empty((0, self.dim))
        if len(w) > 1:
            raise Bad("rows of different width")
        keep = [o for o in out if o.size] or out[:1]
        return np.vstack(keep)

    def o_cols(self, t, *xs):
        vs = [np.asarray(self.ev(x)) for x in xs]
        return np.hstack(vs)

    def o_dot(self, t, a, b):
        return np.dot(self.ev(a), self.ev(b))

    def o_outer(self, t, a, b):
        return np.outer(self.ev(a), self.ev(b))

    def o_cdist(self, t, a, b, *r):
        from scipy.spatial.distance import cdist
        return cdist(np.atleast_2d(self.ev(a)), np.atleast_2d(self.ev(b)))

    def o_copy(self, t, a):
        return self.ev(a)

    def o_red(self, t, name, x, axis, keep):
        v = self.ev(x)
        if isinstance(v, (list, tuple)):
            v = np.asarray(v)
        ax = self.ev(axis)
        kd = bool(self.ev(keep))
        if not isarr(v):
            v = np.asarray(v)
        f = {"min": np.min, "max": np.max, "sum": np.sum, "mean": np.mean, "all": np.all, "any": np.any, "argmin": np.argmin,
             "argmax": np.argmax, "std": np.std, "var": np.var, "prod": np.prod, "argsort": None, "median": np.median, "ptp": np.ptp,
             "cumsum": None, "sort": None}.get(name, 0)
        if f == 0:
            raise Unknown("reduction " + name)
        if name in ("argsort", "sort", "cumsum"):
            return getattr(np, name)(v, axis=-1 if ax is None else ax)
        if ax is not None and v.ndim <= ax:
            raise Bad("axis")
        kw = {"axis": ax}
        if kd and name not in ("argmin", "argmax"):
            kw["keepdims"] = True
        r = f(v, **kw)
        if isarr(r):
            return r
        return bool(r) if name in ("all", "any") else (int(r) if name.startswith("arg") else float(r) if r.dtype.kind == "f" else int(r))

    # ---- objects and opaque calls
    def o_attr(self, t, a, name):
        v = self.ev(a)
        if not isinstance(v, ObjV):
            raise Unknown("attribute of %r" % (v,))
        if v.name == "finfo" and name == "eps":
            return float(np.finfo(float).eps)
        key = ("attr", v.name, name)
        if key not in self.ufs:
            from .interp import kind_of
            self.ufs[key] = self.make(v.name + "." + name, kind_of(t))
        return self.ufs[key]

    def o_obj(self, t, i, *r):
        return ObjV("obj#%s" % i)

    def o_fun(self, t, n):
        return ObjV("fun:%s" % n)

    def o_np_finfo(self, t, *a):
        return ObjV("finfo")

    def o_lib(self, t, n):
        return ObjV("lib:%s" % n)

    def o_bound(self, t, a, n):
        return ObjV("bound:%s:%s" % (a.id, n))

    def _call(self, t, key, args):
        from .interp import kind_of
        return self.uninterp(key, t, args, kind_of(t))

    def _flat(self, x, out):
        if isinstance(x, tuple):
            for y in x:
                self._flat(y, out)
        else:
            out.append(self.ev(x) if isinstance(x, T) else x)
        return out

    def o_cat(self, t, *xs):
        return np.concatenate([np.ravel(np.asarray(self.num(self.ev(x)))) for x in xs])

    def o_mcall(self, t, recv, name, *rest):
        return self._call(t, ("mcall", name), self._flat((recv,) + tuple(rest), []))

    def o_pcall(self, t, name, *rest):
        if self.lazy is not None:
            key = (t, self.ctx, tuple(sorted((b.id, v) for b, v in self.bvs.items())))
            if key not in self.ufs:
                self.ufs[key] = self.lazy(self, t, dict(rest[0]) if rest and isinstance(rest[0], tuple) else {})
            if self.ufs[key] is not None:
                return self.ufs[key]
        return self._call(t, ("pcall", name), self._flat(tuple(rest), []))

    def o_vcall(self, t, f, *rest):
        return self._call(t, ("vcall",), self._flat((f,) + tuple(rest), []))

    def o_draw(self, t, u, *bvs):
        return ("draw", u) + tuple(self.ev(b) for b in bvs)

    def draw_key(self, kind, t):
        """identity of one random draw: the call and the iteration it happens in"""
        u = t.args[-1]
        if not isinstance(u, T):
            return (kind, u)
        if u.op == "draw":
            return (kind, u.args[0]) + tuple(self.ev(b) for b in u.args[1:])
        return (kind, u.id, self.ctx, tuple(sorted((b.id, v) for b, v in self.bvs.items())))

    def o_rng(self, t, name, *rest):
        from .models import rng_shape
        key = self.draw_key("rng", t)
        if key in self.ufs:
            return self.ufs[key]
        kw = {k: self.ev(v) for k, v in rest[1]} if len(rest) > 1 else {}
        pos = [self.ev(x) for x in rest[0]] if rest else []
        if name in ("permutation", "choice"):
            a = pos[0] if pos else kw.get("a", kw.get("x"))
            a = np.arange(int(a)) if _scalar(a) else np.asarray(a)
            if name == "permutation":
                v = self.np.permutation(a)
            else:
                size = pos[1] if len(pos) > 1 else kw.get("size")
                v = self.np.choice(a, size, pos[2] if len(pos) > 2 else kw.get("replace", True))
            self.ufs[key] = v
            return v
        sh = rng_shape(t)
        if sh is None:
            size = kw.get("size")
            if size is None:
                shape = np.broadcast(*[np.asarray(v) for n, v in kw.items() if n != "size"]).shape if kw else ()
            else:
                shape = tuple(int(x) for x in np.ravel(size))
        else:
            shape = tuple(int(self.ev(x)) for x in sh)
        if name == "uniform":
            v = self.np.uniform(kw.get("low", 0), kw.get("high", 1), shape)
            if self.extreme:
                lo, hi = np.broadcast_to(kw.get("low", 0), shape), np.broadcast_to(kw.get("high", 1), shape)
                u = self.np.uniform(0, 1, shape)
                v = np.where(u < self.extreme / 2, lo, np.where(u > 1 - self.extreme / 2, hi - 1e-9 * (hi - lo), v))
        elif name == "normal":
            v = self.np.normal(kw.get("loc", 0), np.abs(kw.get("scale", 1)), shape)
        elif name == "randint":
            v = self.np.randint(kw.get("low", 0), kw.get("high"), shape)
        elif name == "truncnorm.rvs":
            lo, hi, c, sc = (np.asarray(kw.get(n), float) for n in ("a", "b", "loc", "scale"))
            v = c + sc * (lo + self.np.uniform(0, 1, shape) * (hi - lo))
            if not np.all(np.isfinite(v)):
                raise Bad("truncnorm")
        else:
            raise Unknown("rng " + name)
        if shape == ():
            v = v.item() if hasattr(v, "item") else v
        self.ufs[key] = v
        self.draws.append((name, kw, v))
        return v

    def o_shuffled(self, t, a, u):
        key = self.draw_key("shuffled", t)
        if key not in self.ufs:
            v = np.asarray(self.ev(a))
            self.ufs[key] = self.np.permutation(len(v))
        return np.asarray(self.ev(a))[self.ufs[key]]


_FREE = {}
_INLOOP = {}


def _in_loop(t):
    """may the value differ from one loop iteration to the next"""
    r = _INLOOP.get(t)
    if r is None:
        r = tm.contains(t, lambda x: x.op in ("lv", "phi", "done", "rng", "empty", "shuffled", "opaque"))
        _INLOOP[t] = r
    return r


_NO = object()


def _order(b):
    return b.id


_FB = {}
# position of the bound variable among the arguments of a binder
BINDERS = {"Sum": 0, "Prod": 0, "exists": 0, "redeach": 1, "each": 0, "forset": 1, "swaps": 1}


def free_bvs(t):
    """bound variables not bound inside the term"""
    if isinstance(t, tuple):
        out = frozenset()
        for x in t:
            out |= free_bvs(x)
        return out
    if not isinstance(t, T):
        return frozenset()
    r = _FB.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset([t])
        for a in t.args:
            r |= free_bvs(a)
    else:
        r = frozenset()
        for a in t.args:
            r |= free_bvs(a)
        if t.op in BINDERS and len(t.args) > BINDERS[t.op]:
            r -= {t.args[BINDERS[t.op]]}
    _FB[t] = r
    return r


def _free_bv(t):
    """does the term contain any bound variable (then its value is not cached)"""
    r = _FREE.get(t)
    if r is None:
        r = tm.contains(t, lambda x: x.op == "bv")
        _FREE[t] = r
    return r


# ------------------------------------------------------------------ comparison
EQUAL, DIFFERENT, UNKNOWN = "equal", "different", "unknown"


def compare(a, b, n=24, seed=1, mkval=None, pre=(), tol=1e-7, require=3):
    """Compare two terms: EQUAL (same normal form, or no valuation separates them), DIFFERENT (with a valuation), UNKNOWN."""
    if a is b:
        return EQUAL, None
    got = 0
    why = None
    bad = 0
    tries = 0
    k = 0
    while got < n and tries < 12 * n:
        tries += 1
        k += 1
        V = mkval(seed * 1000 + k) if mkval else Valuation(seed * 1000 + k)
        try:
            if not all(V.truth(p) for p in pre):
                continue
        except Bad:
            continue
        except Unknown as e:
            return UNKNOWN, str(e)
        try:
            y = V.ev(b)
        except Bad:
            bad += 1
            continue
        except Unknown as e:
            return UNKNOWN, str(e)
        try:
            x = V.ev(a)
        except Bad as e:
            return DIFFERENT, (V, e, y)
        except Unknown as e:
            return UNKNOWN, str(e)
        got += 1
        if not same(x, y, tol):
            return DIFFERENT, (V, x, y)
    if got < require:
        return UNKNOWN, "no valuation satisfies the path"
    return EQUAL, None
