"""Models of builtins, numpy, scipy, poap-independent library calls, lists and files used by the interpreter.

A model says which value-term a call denotes, what it mutates and whether the result is a fresh object or a view.
Anything not modelled becomes an opaque term, on which no rule ever bases a violation.
"""
import ast
import builtins as _bi

from . import terms as tm
from .terms import FALSE, INF, NAN, NINF, NONE, ONE, TRUE, ZERO, T, add, const, mk, mul, neg, sub


def I_():
    from . import interp
    return interp


def kind_of(t):
    return I_().kind_of(t)


FULL = mk("slice", ZERO, NONE, NONE)
ARR = ("arr", "arr1", "arr2")


# ------------------------------------------------------------------ indices
def norm_index(t):
    if t.op == "slice":
        lo, hi, step = t.args
        if lo is NONE and (step is NONE or (tm.is_num(step) and tm.num_val(step) > 0)):
            lo = ZERO
        return mk("slice", lo, hi, step)
    if t.op == "tuple":
        xs = [norm_index(x) for x in t.args]
        while len(xs) > 1 and xs[-1] is FULL:
            xs.pop()
        if len(xs) > 1 and xs[-1].op == "const" and xs[-1].args[0] is Ellipsis:
            xs.pop()
        return xs[0] if len(xs) == 1 else mk("tuple", *xs)
    return t


def is_basic_index(t):
    if t.op == "slice" or t is NONE or (t.op == "const" and t.args[0] is Ellipsis):
        return True
    if t.op == "tuple":
        return all(is_basic_index(x) for x in t.args)
    return kind_of(t) in ("int", "num", "str")


def _is_int(t):
    return kind_of(t) in ("int", "num")


def const_int(t):
    ok, v = tm.py_const(t)
    return v if ok and isinstance(v, int) and not isinstance(v, bool) else None


def getitem(t, idx):
    idx = norm_index(idx)
    if idx is FULL:
        return t
    n = const_int(idx)
    op = t.op
    if op == "asarr" and idx.op == "tuple":
        r = t
        for x in idx.args:
            if const_int(x) is None:
                r = None
                break
            r = getitem(r, x)
        if r is not None:
            return r
    if op in ("tuple", "set") and n is not None and -len(t.args) <= n < len(t.args):
        return t.args[n]
    if op == "asarr":
        r = getitem(t.args[0], idx)
        if r.op == "list":
            return mk("asarr", r)
        if not (r.op == "getitem" and r.args[0] is t.args[0]):
            return r
        return mk("getitem", t, idx)
    if op == "list":
        segs = t.args
        if n is not None:
            if n >= 0 and len(segs) > n and all(s.op == "item" for s in segs[: n + 1]):
                return segs[n].args[0]
            if n < 0 and len(segs) >= -n and all(s.op == "item" for s in segs[n:]):
                return segs[n].args[0]
        if len(segs) == 1 and segs[0].op == "each" and segs[0].args[1] is TRUE and _is_int(idx):
            bv = segs[0].args[0]
            if n is None or n >= 0:
                return tm.subst(segs[0].args[2], {bv: add(idx, bv.args[1])})
    if op == "shape":
        if n == 0:
            return length(t.args[0])
        if n == 1:
            return dim1(t.args[0])
    if op == "dict":
        for kv in t.args:
            if kv.args[0] is idx:
                return kv.args[1]
    if op == "setitem":
        b, i, v = t.args
        if i is idx:
            return v
        if disjoint(i, idx):
            return getitem(b, idx)
    if op == "forset":
        b, bv, g, i, v = t.args
        if g is TRUE and _is_int(idx) and i.op == "poly" or i is bv:
            d = sub(i, bv)
            if not tm.contains_t(d, bv) and g is TRUE and _is_int(idx):
                return tm.subst(v, {bv: sub(idx, d)})
        if idx.op == "tuple" and i.op == "tuple" and len(idx.args) == len(i.args) and g is TRUE:
            m = {}
            if all((x is y and not tm.contains_t(x, bv)) or (y is bv and _is_int(x)) for x, y in zip(idx.args, i.args)):
                for x, y in zip(idx.args, i.args):
                    if y is bv:
                        m[bv] = x
                return tm.subst(v, m)
    if op == "bcast":
        if _is_int(idx):
            return t.args[1]
        if idx.op == "tuple" and len(idx.args) == 2 and _is_int(idx.args[0]) and _is_int(idx.args[1]):
            return elem(t.args[1], idx.args[1])
    if op == "full":
        sh = t.args[0]
        nd = len(sh.args) if sh.op == "tuple" else 1
        if (nd == 1 and _is_int(idx)) or (idx.op == "tuple" and len(idx.args) == nd and all(_is_int(x) for x in idx.args)):
            return t.args[1]
    if op == "at2d" and n == 0:
        return t.args[0] if kind_of(t.args[0]) != "arr2" else mk("getitem", t.args[0], ZERO)
    if op == "tr" and idx.op == "tuple" and len(idx.args) == 2 and all(is_basic_index(x) for x in idx.args):
        return getitem(t.args[0], mk("tuple", idx.args[1], idx.args[0]))
    if op == "arange" and _is_int(idx) and (n is None or n >= 0):
        return add(t.args[0], mul(idx, t.args[2]))
    if op == "getitem" and t.args[1].op == "slice" and kind_of(t.args[0]) in ("arr1",):
        lo, hi, step = t.args[1].args
        if _is_int(idx) and step is NONE and (n is None or n >= 0) and not _neg(lo):
            return getitem(t.args[0], add(lo, idx))
    if op == "getitem" and kind_of(t.args[0]) == "arr2" and _is_int(t.args[1]) and idx.op != "tuple" and is_basic_index(idx) and idx is not NONE:
        return getitem(t.args[0], mk("tuple", t.args[1], idx))
    if op in ("poly", "fn", "lt0", "le0", "ite") and _is_int(idx) and kind_of(t) == "arr1" and (n is None or n >= 0):
        r = elem(t, idx)
        if r is not None:
            return r
    if op in ("poly", "fn", "lt0", "le0", "ite", "eq0", "not", "and", "or", "psum", "pow") and idx.op == "tuple" and len(idx.args) == 2 and kind_of(t) == "arr2" \
            and all(_is_int(x) and const_int(x) is not None and const_int(x) >= 0 or x.op in ("bv", "poly") and _is_int(x) for x in idx.args):
        r = elem(t, idx)
        if r is not None:
            return r
    if idx is NONE:
        return at2d(t)
    if idx.op == "tuple" and len(idx.args) == 2 and idx.args[0] is FULL and idx.args[1] is NONE:
        return mk("col", t)
    # normalised negative index on something whose length is known
    if n is not None and n < 0 and kind_of(t) == "arr1" and t.op in ("sym", "attr", "getitem"):
        return mk("getitem", t, add(length(t), idx))
    return mk("getitem", t, idx)


def _neg(t):
    return tm.is_num(t) and tm.num_val(t) < 0


def disjoint(i, j):
    a, b = const_int(i), const_int(j)
    if a is not None and b is not None:
        return a != b and a >= 0 and b >= 0
    if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
        return any(disjoint(x, y) for x, y in zip(i.args, j.args))
    if kind_of(i) == "int" and kind_of(j) == "int":
        d = sub(i, j)
        return tm.is_num(d) and tm.num_val(d) != 0
    return False


def setitem(t, idx, v):
    idx = norm_index(idx)
    if idx is FULL:
        if kind_of(v) in ("num", "int"):
            return mk("fill", length(t), v)
        return v
    if t.op == "setitem" and t.args[1] is idx:
        t = t.args[0]
    return mk("setitem", t, idx, v)


def forset(base, bv, guard, idx, v):
    # whole-array fill by index: every row/element is v(bv)
    return mk("forset", base, bv, guard, idx, v)


def column_update(t, lv, before, bv, guard):
    """an iteration that only rewrites one column (chosen by the iteration) of the array: the loop rewrites those columns"""
    if t.op != "setitem" or t.args[1].op != "tuple" or len(t.args[1].args) != 2:
        return None
    c = t.args[1].args[1]
    if not _is_int(c) or not tm.contains_t(c, bv) or tm.contains_t(c, lv):
        return None
    key = mk("tuple", FULL, c)
    col0 = mk("getitem", before, key)

    def fix(x):
        """an expression over the array, with every read of the column replaced"""
        def f(y):
            if y.op == "getitem" and y.args[1] is key:
                if y.args[0] is lv:
                    return col0
                if y.args[0].op == "setitem":
                    return colof(y.args[0])
            if y is lv:
                raise _NoCol()
            return None
        return tm.rebuild(x, f)

    def colof(y):
        if y is lv:
            return col0
        if y.op != "setitem" or y.args[1].op != "tuple" or len(y.args[1].args) != 2 or y.args[1].args[1] is not c:
            raise _NoCol()
        b = colof(y.args[0])
        sel, v = y.args[1].args[0], fix(y.args[2])
        if sel is FULL:
            return v
        if sel.op in ("wherenz", "nonzero"):
            return tm.ite(fix(sel.args[0]), v, b)
        if sel.op in ("lt0", "le0", "eq0", "not", "and", "or"):
            return tm.ite(fix(sel), v, b)
        raise _NoCol()

    try:
        v = colof(t)
    except _NoCol:
        return None
    return forset(before, bv, guard, key, v)


class _NoCol(Exception):
    pass


def resolve_lv_elem(v, lv, idx, before):
    """element idx of the loop-carried array still has its value from before the loop when idx is this iteration's"""
    return tm.rebuild(v, lambda x: getitem(before, idx) if x.op == "getitem" and x.args[0] is lv and x.args[1] is idx else None)


def view_content(op, c, args):
    if op == "getitem":
        return getitem(c, args[0])
    if op == "id":
        return c
    if op == "at2d":
        return at2d(c)
    if op == "ravel":
        return ravel(c)
    if op == "tr":
        return tr(c)
    if op == "col":
        return col(c)
    return mk(op, c, *args)


def at2d(c):
    k = kind_of(c)
    if k == "arr2" or c.op in ("at2d", "rows"):
        return c
    return mk("at2d", c)


def ravel(c):
    if c.op in ("at2d", "ravel", "col"):
        return ravel(c.args[0])
    if kind_of(c) == "arr1":
        return c
    if c.op == "rows" and len(c.args) == 1 and kind_of(c.args[0]) == "arr1":
        return c.args[0]
    return mk("ravel", c)


def tr(c):
    if c.op == "tr":
        return c.args[0]
    if kind_of(c) == "arr1":
        return c
    if c.op == "at2d":
        return mk("col", c.args[0])
    if c.op == "col":
        return mk("at2d", c.args[0])
    return mk("tr", c)


def col(c):
    if kind_of(c) == "arr2":
        return mk("expand1", c)
    return mk("col", c)


# ------------------------------------------------------------------ shapes
def is_zero(t):
    return tm.is_num(t) and tm.num_val(t) == 0


KNOWN_LENGTHS = []  # rules that know the length of a list from an invariant of the program


def known_length(t):
    for f in KNOWN_LENGTHS:
        n = f(t)
        if n is not None:
            return n
    return mk("len", t)


def length(t):
    op = t.op
    if op in ("tuple", "set"):
        return const(len(t.args))
    if op == "const" and isinstance(t.args[0], str):
        return const(len(t.args[0]))
    if op == "list":
        n = ZERO
        for s in t.args:
            if s.op == "item":
                n = add(n, ONE)
            elif s.op == "each":
                n = add(n, mksum(s.args[0], s.args[1], ONE))
            else:
                n = add(n, length(s.args[0]))
        return n
    if op in ("butlast", "butfirst"):
        return sub(length(t.args[0]), ONE)
    if op == "asarr":
        return length(t.args[0])
    if op == "range":
        return sub(t.args[1], t.args[0])
    if op == "arange" and t.args[2] is ONE:
        return sub(t.args[1], t.args[0])
    if op in ("full", "empty"):
        sh = t.args[0]
        return sh.args[0] if sh.op == "tuple" else sh
    if op in ("bcast", "fill"):
        return t.args[0]
    if op == "rng":
        sh = rng_shape(t)
        if sh is not None and len(sh) >= 1:
            return sh[0]
    if op in ("setitem", "forset", "swaps", "unview"):
        return length(t.args[0 if op != "unview" else 1])
    if op == "at2d" and kind_of(t.args[0]) == "arr1":
        return ONE
    if op == "col":
        return length(t.args[0])
    if op == "cdist":
        return length(t.args[0])
    if op == "nested" or op == "rest":
        return length(t.args[0])
    if op == "eye":
        return t.args[0]
    if op == "rows":
        n = ZERO
        for a in t.args:
            if a.op == "each":
                n = add(n, mksum(a.args[0], a.args[1], ONE))
                continue
            k = kind_of(a)
            if k == "arr2":
                n = add(n, length(a))
            elif k in ("arr1", "num", "int"):
                n = add(n, ONE)
            else:
                return known_length(t)
        return n
    if op == "delete":
        return known_length(t)
    if op in ("poly", "fn", "lt0", "le0", "eq0", "not"):
        for a in tm.subterms(t):
            pass
        base = vbase(t)
        if base is not None and base is not t:
            return length(base)
    if op == "ite":
        a, b = length(t.args[1]), length(t.args[2])
        if a is b:
            return a
    if op == "red" and t.args[2] is ONE:
        return length(t.args[1])
    if op == "getitem" and t.args[1].op == "slice":
        lo, hi, step = t.args[1].args
        if step is NONE and not _neg(lo):
            if hi is NONE:
                return sub(length(t.args[0]), lo)
            if _neg(hi):
                return sub(add(length(t.args[0]), hi), lo)
            if hi.op == "num" and lo is ZERO:
                n = length(t.args[0])
                return n if n.op == "num" and n.args[0] <= hi.args[0] else hi if n.op == "num" else tm.ite(tm.le(hi, n), hi, n)
            return sub(hi, lo)
    if op == "getitem" and t.args[1].op == "tuple" and t.args[1].args[0] is FULL and len(t.args[1].args) == 2:
        return length(t.args[0])
    return mk("len", t)


def vbase(t):
    """an array operand that determines the length of an elementwise term"""
    best = None
    if t.op in ("poly", "psum"):
        xs = [a for m in tm.as_poly(t if t.op == "poly" else t.args[0]) for a, _ in m]
    elif t.op == "fn":
        xs = [a for a in t.args[1:]]
    elif t.op in ("lt0", "le0", "eq0", "not"):
        xs = [t.args[0]]
    elif t.op == "pow":
        xs = list(t.args)
    else:
        return t
    order = ("arr2", "arr1", "arr", "unk")
    for k in order:
        for x in xs:
            if isinstance(x, T) and kind_of(x) == k:
                b = vbase(x)
                if b is not None:
                    if best is None:
                        best = b
                    # prefer simple bases
                    if b.op in ("sym", "attr"):
                        return b
        if best is not None:
            return best
    return None


def dim1(t):
    op = t.op
    if op in ("full", "empty"):
        sh = t.args[0]
        if sh.op == "tuple" and len(sh.args) > 1:
            return sh.args[1]
    if op == "rng":
        sh = rng_shape(t)
        if sh is not None and len(sh) > 1:
            return sh[1]
    if op in ("setitem", "forset"):
        return dim1(t.args[0])
    if op == "at2d" and kind_of(t.args[0]) == "arr1":
        return length(t.args[0])
    if op == "bcast":
        return length(t.args[1])
    if op == "col":
        return ONE
    if op == "rows":
        return dim1(t.args[0]) if kind_of(t.args[0]) == "arr2" else mk("dim1", t)
    if op == "getitem" and t.args[1].op == "slice":
        return dim1(t.args[0])
    if op == "cdist":
        return length(t.args[1])
    return mk("dim1", t)


def rows(*args):
    out = []
    for a in args:
        if a.op == "rows":
            out.extend(a.args)
            continue
        if a.op == "at2d":
            a = a.args[0]
        if a.op == "list" and a.args and all(s.op == "item" for s in a.args):
            out.extend(at2d_strip(s.args[0]) for s in a.args)
            continue
        if a.op == "asarr" and a.args[0].op == "list" and all(s.op == "item" for s in a.args[0].args):
            out.extend(at2d_strip(s.args[0]) for s in a.args[0].args)
            continue
        if a.op in ("full", "empty"):
            sh = a.args[0]
            n0 = sh.args[0] if sh.op == "tuple" else None
            if n0 is not None and is_zero(n0) and len(args) > 1:
                continue
        if a.op == "col" and kind_of(a.args[0]) in ("num", "int"):
            a = a.args[0]
        out.append(a)
    return mk("rows", *out)


def at2d_strip(a):
    return a.args[0] if a.op == "at2d" else a


def cols(*args):
    out = []
    for a in args:
        if a.op == "cols":
            out.extend(a.args)
        else:
            out.append(a)
    return mk("cols", *out)


# ------------------------------------------------------------------ elementwise access
def elem(t, i):
    """element i of a one-dimensional elementwise term, or None"""
    k = kind_of(t)
    if k in ("num", "int", "bool") or t.op in ("num",):
        return t
    if t.op == "poly":
        tot = ZERO
        for m, c in t.args[0]:
            p = const(c)
            for a, e in m:
                x = elem(a, i)
                if x is None:
                    return None
                p = mul(p, tm.powq(x, e))
            tot = add(tot, p)
        return tot
    if t.op == "psum":
        return elem(t.args[0], i)
    if t.op == "cpow":
        return t
    if t.op == "pow":
        a, b = elem(t.args[0], i), elem(t.args[1], i)
        return None if a is None or b is None else tm.power(a, b)
    if t.op == "fn":
        xs = [elem(a, i) for a in t.args[1:]]
        return None if any(x is None for x in xs) else tm.fn(t.args[0], *xs)
    if t.op in ("lt0", "le0", "eq0"):
        x = elem(t.args[0], i)
        if x is None:
            return None
        return {"lt0": tm.lt, "le0": tm.le, "eq0": tm.eq}[t.op](x, ZERO)
    if t.op == "not":
        x = elem(t.args[0], i)
        return None if x is None else tm.bnot(x)
    if t.op in ("and", "or"):
        xs = [elem(a, i) for a in t.args]
        return None if any(x is None for x in xs) else (tm.band if t.op == "and" else tm.bor)(*xs)
    if t.op == "ite":
        c = elem(t.args[0], i) if kind_of(t.args[0]) in ARR else t.args[0]
        a, b = elem(t.args[1], i), elem(t.args[2], i)
        return None if c is None or a is None or b is None else tm.ite(c, a, b)
    if t.op == "fill":
        return t.args[1]
    if k == "unk":
        return None
    if i.op == "tuple":
        if k == "arr2":
            return getitem(t, i)
        if k == "arr1":  # broadcast along the rows
            return elem(t, i.args[1]) if len(i.args) == 2 else None
        return None
    if k == "arr2":
        return None
    return getitem(t, i)


# ------------------------------------------------------------------ binders
def height(t):
    h = 0
    for x in tm.subterms(t):
        if x.op in ("Sum", "Prod", "exists", "redeach"):
            b = x.args[0] if x.op != "redeach" else x.args[1]
            h = max(h, b.args[0] if isinstance(b.args[0], int) else 0)
    return h


def rebind(bv, *ts):
    """fresh canonical bound variable starting at 0 for the given bodies"""
    n = sub(bv.args[2], bv.args[1])
    h = 1 + max([height(t) for t in ts] + [100])
    nb = mk("bv", h, ZERO, n)
    return nb, [tm.subst(t, {bv: add(nb, bv.args[1])}) for t in ts]


def mksum(bv, guard, body):
    if body is ZERO or guard is FALSE:
        return ZERO
    nb, (guard, body) = rebind(bv, guard, body)
    n = nb.args[2]
    nn = const_int(n)
    if nn is not None and nn <= 0:
        return ZERO
    if guard is not TRUE:
        # constant guards do not depend on the index
        if not tm.contains_t(guard, nb):
            return tm.ite(guard, mksum(nb, TRUE, body), ZERO)
    if nn is not None and nn <= 24 and guard is TRUE:
        tot = ZERO
        for k in range(nn):
            tot = add(tot, tm.subst(body, {nb: const(k)}))
        return tot
    tot = ZERO
    if body in (INF, NINF, NAN):
        return mk("Sum", nb, guard, body)
    for m, c in tm.as_poly(body).items():
        ins = tuple((a, e) for a, e in m if tm.contains_t(a, nb))
        outs = tuple((a, e) for a, e in m if not tm.contains_t(a, nb))
        coef = tm.from_poly({outs: c})
        inner = tm.from_poly({ins: 1})
        if inner is ONE and guard is TRUE:
            tot = add(tot, mul(coef, n))
        else:
            tot = add(tot, mul(coef, mk("Sum", nb, guard, inner)))
    return tot


def mkprod(bv, q):
    nb, (q,) = rebind(bv, q)
    nn = const_int(nb.args[2])
    if nn is not None and nn <= 24:
        r = ONE
        for k in range(nn):
            r = mul(r, tm.subst(q, {nb: const(k)}))
        return r
    if not tm.contains_t(q, nb):
        return tm.power(q, nb.args[2])
    return mk("Prod", nb, q)


def mkexists(bv, guard):
    if guard is FALSE:
        return FALSE
    nb, (guard,) = rebind(bv, guard)
    nn = const_int(nb.args[2])
    if nn is not None and nn <= 24:
        return tm.bor(*[tm.subst(guard, {nb: const(k)}) for k in range(nn)])
    if guard is TRUE:
        return tm.lt(ZERO, nb.args[2])
    if not tm.contains_t(guard, nb):
        return tm.band(guard, tm.lt(ZERO, nb.args[2]))
    return mk("exists", nb, guard)


def redeach(name, bv, guard, v):
    nb, (guard, v) = rebind(bv, guard, v)
    return mk("redeach", name, nb, guard, v)


tm._RENORM.update({
    "Sum": lambda b, g, x: mksum(b, g, x) if isinstance(b, T) and b.op == "bv" else mk("Sum", b, g, x),
    "Prod": lambda b, x: mkprod(b, x) if b.op == "bv" else mk("Prod", b, x),
    "exists": lambda b, g: mkexists(b, g) if b.op == "bv" else mk("exists", b, g),
    "getitem": lambda a, i: getitem(a, i),
    "setitem": lambda a, i, v: setitem(a, i, v),
    "rows": lambda *a: rows(*a),
    "ravel": lambda a: ravel(a),
    "at2d": lambda a: at2d(a),
    "tr": lambda a: tr(a),
    "len": lambda a: length(a),
    "dim1": lambda a: dim1(a),
    "red": lambda *a: red(*a),
    "cpow": lambda c: mk("cpow", c),
})


# ------------------------------------------------------------------ reductions
def red(name, x, axis, keep):
    k = kind_of(x)
    if x.op == "asarr":
        segs = x.args[0].args if x.args[0].op == "list" else ()
        if axis is NONE and segs and all(s.op == "item" for s in segs) and all(kind_of(s.args[0]) in ("num", "int", "bool") for s in segs):
            r = redlist(name, [s.args[0] for s in segs])
            if r is not None:
                return r
        if axis is NONE and len(segs) == 1 and segs[0].op == "each":
            r = redseg(name, segs[0])
            if r is not None:
                return r
    if axis is ZERO and k == "arr1" and keep is FALSE:
        axis = NONE
    if name in ("sum", "prod", "mean", "dotsum") and axis is NONE and keep is FALSE and k == "arr1":
        n = length(x)
        bv = mk("bv", 99, ZERO, n)
        e = elem(x, bv)
        if e is not None:
            if name == "prod":
                return mkprod(bv, e)
            s = mksum(bv, TRUE, e)
            return s if name == "sum" else tm.div(s, n)
    if k in ("num", "int", "bool") and name in ("sum", "min", "max", "mean", "prod") and axis is NONE:
        return x
    if name in ("all", "any") and axis is NONE:
        if k in ("bool",):
            return x
    if x.op == "full" and name in ("min", "max", "mean") and axis is NONE:
        return x.args[1]
    if axis is not NONE and keep is FALSE and name in ("min", "max", "sum", "mean", "any", "all", "argmin", "argmax") and const_int(axis) == -1:
        axis = ONE if k == "arr2" else axis
    # min(-x) = -max(x); min(c*x) = c*min(x) for positive constants
    if name in ("min", "max") and x.op == "poly":
        d = tm.as_poly(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c < 0:
                other = "max" if name == "min" else "min"
                return tm.scale(red(other, tm.from_poly({m: 1}), axis, keep), c)
            if c != 1:
                return tm.scale(red(name, tm.from_poly({m: 1}), axis, keep), c)
    if name in ("argmin", "argmax") and x.op == "poly":
        d = tm.as_poly(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c < 0:
                return mk("red", "argmax" if name == "argmin" else "argmin", tm.from_poly({m: 1}), axis, keep)
            if c != 1:
                return mk("red", name, tm.from_poly({m: 1}), axis, keep)
    if name == "all" and axis is NONE and x.op == "not":
        return tm.bnot(mk("red", "any", x.args[0], axis, keep))
    return mk("red", name, x, axis, keep)


def redlist(name, xs):
    if name == "sum":
        r = ZERO
        for x in xs:
            r = add(r, x)
        return r
    if name == "prod":
        r = ONE
        for x in xs:
            r = mul(r, x)
        return r
    if name in ("min", "max") and xs:
        return tm.fn("minimum" if name == "min" else "maximum", *xs) if len(xs) > 1 else xs[0]
    if name == "all":
        return tm.band(*xs)
    if name == "any":
        return tm.bor(*xs)
    if name == "mean":
        return tm.div(redlist("sum", xs), const(len(xs)))
    return None


def redseg(name, seg):
    bv, g, v = seg.args
    if name == "sum":
        return mksum(bv, g, v)
    if name == "prod" and g is TRUE:
        return mkprod(bv, v)
    if name == "all":
        return tm.bnot(mkexists(bv, tm.band(g, tm.bnot(v))))
    if name == "any":
        return mkexists(bv, tm.band(g, v))
    if name == "mean":
        return tm.div(mksum(bv, g, v), mksum(bv, g, ONE))
    if name in ("min", "max"):
        return redeach(name, bv, g, v)
    return None


def norm_(x, axis=NONE):
    if kind_of(x) == "arr1" and axis is NONE:
        return tm.powq(red("sum", tm.powq(x, 2), NONE, FALSE), I_().Fraction(1, 2))
    return mk("fn", "norm", x, axis) if axis is not NONE else mk("norm", x if not tm._lead_neg(x) else neg(x))


# ------------------------------------------------------------------ arithmetic
def arith(op, a, b):
    if op == "Add":
        ka, kb = kind_of(a), kind_of(b)
        if ka == "str" or kb == "str":
            return strcat(a, b)
        if a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if x.op == "full" and x.args[1] is ONE:
                sh = x.args[0]
                if sh.op == "tuple" and len(sh.args) == 2 and kind_of(y) in ("arr1", "arr", "unk"):
                    return mk("bcast", sh.args[0], ravel(y) if y.op == "at2d" else y)
                if kind_of(y) in ("num", "int") or y in (INF, NINF, NAN):
                    return mk("full", sh, y)
        return mul(a, b)
    if op == "Div":
        return tm.div(a, b)
    if op == "Pow":
        return tm.power(a, b)
    if op == "FloorDiv":
        x, y = const_int(a), const_int(b)
        if x is not None and y:
            return const(x // y)
        return mk("floordiv", a, b)
    if op == "Mod":
        if kind_of(a) == "str":
            return mk("fmt", a, b)
        x, y = const_int(a), const_int(b)
        if x is not None and y:
            return const(x % y)
        return mk("mod", a, b)
    if op == "MatMult":
        return dot(a, b)
    if op == "BitAnd":
        return tm.band(a, b)
    if op == "BitOr":
        return tm.bor(a, b)
    if op == "BitXor":
        return mk("xor", a, b)
    return mk("binop", op, a, b)


def dot(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("num", "int") or kb in ("num", "int"):
        return mul(a, b)
    if ka == "arr1" and kb == "arr1":
        return red("sum", mul(a, b), NONE, FALSE)
    # pull scalar coefficients out
    ca = cb = 1
    da, db = tm.as_poly(a), tm.as_poly(b)
    if len(da) == 1:
        (m, ca), = da.items()
        a = tm.from_poly({m: 1})
    if len(db) == 1:
        (m, cb), = db.items()
        b = tm.from_poly({m: 1})
    return tm.scale(mk("dot", a, b), I_().Fraction(ca) * I_().Fraction(cb))


def to_str(t):
    if kind_of(t) == "str":
        return t
    ok, v = tm.py_const(t)
    if ok:
        return const(str(v))
    return mk("str", t)


def strcat(*ts):
    out = []
    for t in ts:
        xs = t.args if t.op == "strcat" else (t,)
        for x in xs:
            if x.op == "const" and isinstance(x.args[0], str):
                if x.args[0] == "":
                    continue
                if out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                    out[-1] = const(out[-1].args[0] + x.args[0])
                    continue
            out.append(x)
    if not out:
        return const("")
    return out[0] if len(out) == 1 else mk("strcat", *out)


def range_iter(t):
    I = I_()
    lo, hi, step = t.args
    if step is ONE:
        return I.Iter(lo=lo, hi=hi, elem=lambda b: b)
    s = const_int(step)
    if s == -1:  # hi < i <= lo
        return I.Iter(lo=ZERO, hi=sub(lo, hi), elem=lambda b: sub(lo, b))
    return I.Iter(lo=ZERO, hi=mk("rangelen", lo, hi, step), elem=lambda b: add(lo, mul(b, step)))


# ------------------------------------------------------------------ names
ALIAS = {
    "np": "numpy", "numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "numpy.float_": "numpy.float64",
}

CONSTS = {
    "numpy.pi": mk("pi"), "math.pi": mk("pi"), "numpy.inf": INF, "math.inf": INF, "numpy.nan": NAN, "math.nan": NAN,
    "numpy.e": mk("const_e"), "math.e": mk("const_e"), "numpy.newaxis": NONE, "scipy.pi": mk("pi"), "numpy.NINF": NINF,
}


def lib_value(dotted):
    if dotted in CONSTS:
        return CONSTS[dotted]
    return I_().Lib(ALIAS.get(dotted, dotted))


def builtin(interp, name):
    if hasattr(_bi, name):
        return I_().Lib("builtins." + name)
    if name in ("__name__", "__file__"):
        return mk("sym", name, "str")
    return mk("unbound", name)


def exc_subclass(exc, names):
    e = getattr(_bi, exc, None)
    for n in names:
        c = getattr(_bi, n, None)
        if isinstance(e, type) and isinstance(c, type) and issubclass(e, c):
            return True
        if n == "LinAlgError" and exc == "LinAlgError":
            return True
    return False


# ------------------------------------------------------------------ attributes
ND_DATA = ("shape", "T", "size", "ndim", "flat", "dtype")


def obj_attr(interp, v, o, name, st, env, node):
    return None


def value_attr(interp, v, name, st, env, node):
    I = I_()
    if isinstance(v, I.Ref) or (isinstance(v, T) and kind_of(v) not in ("obj",)):
        t = interp.term(v, st)
        if name == "shape":
            k = kind_of(t)
            if k == "arr1":
                return [(st, I.Tup([length(t)]))]
            if k == "arr2":
                return [(st, I.Tup([length(t), dim1(t)]))]
            return [(st, mk("shape", t))]
        if name == "T":
            return [(st, view(interp, v, "tr", (), st))]
        if name == "size":
            return [(st, length(t) if kind_of(t) == "arr1" else mk("size", t))]
        if name == "ndim":
            k = kind_of(t)
            return [(st, const(1) if k == "arr1" else const(2) if k == "arr2" else mk("ndim", t))]
        if isinstance(v, I.Ref):
            return [(st, I.Meth(v, name))]
    if isinstance(v, I.Ref):
        return [(st, I.Meth(v, name))]
    if name == "__class__":
        return [(st, mk("attr", v, name))]
    if v.op == "new":
        for k, x in v.args[1]:
            if k == name:
                return [(st, x)]
    return [(st, mk("attr", v, name))]


def view(interp, v, op, args, st):
    """the result of a library function that may share memory with v"""
    I = I_()
    if isinstance(v, I.Ref) and st.heap[v.id].kind == "arr":
        return interp.new_arr(st, None, origin="view", view=(v, op, args))
    if isinstance(v, T) and v.op in ("sym", "attr", "getitem", "lv", "lastitem", "firstitem"):
        k = kind_of(v)
        if k in ("list", "tuple"):
            return interp.new_arr(st, view_content(op, asarr(interp.term(v, st)), args))
        return interp.new_arr(st, None, origin="view", view=(v, op, args))
    t = interp.term(v, st)
    return interp.new_arr(st, view_content(op, asarr(t), args))


def asarr(t):
    if t.op in ("list", "tuple"):
        if t.op == "tuple":
            t = mk("list", *[mk("item", x) for x in t.args])
        segs = []
        for s in t.args:
            if s.op == "item" and s.args[0].op in ("list", "tuple"):
                segs.append(mk("item", asarr(s.args[0])))
            else:
                segs.append(s)
        return mk("asarr", mk("list", *segs))
    return t


# ------------------------------------------------------------------ calls
LIBS = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIBS[n] = f
        return f
    return deco


DEBUG_IGNORED = False


class Call:
    __slots__ = ("I", "name", "_args", "_kw", "st", "env", "node", "used")

    def __init__(self, I, name, args, kw, st, env, node):
        self.I, self.name, self._args, self._kw, self.st, self.env, self.node = I, name, list(args), dict(kw), st, env, node
        self.used = set()

    @property
    def args(self):
        self.used.add("*")
        return self._args

    @property
    def kw(self):
        self.used.add("**")
        return self._kw

    def val(self, i, name=None, default=None):
        self.used.update((i, name))
        if i is not None and i < len(self._args):
            return self._args[i]
        if name is not None and name in self._kw:
            return self._kw[name]
        return default

    def ignored(self):
        """arguments given that the model of the function does not look at"""
        out = [k for k in self._kw if k not in self.used and "**" not in self.used and k not in NEUTRAL]
        if "*" not in self.used:
            out += [i for i in range(len(self._args)) if i not in self.used]
        return out

    def t(self, i, name=None, default=None):
        v = self.val(i, name)
        if v is None:
            return default
        return self.I.term(v, self.st)

    def arr(self, i, name=None):
        v = self.t(i, name)
        return None if v is None else asarr(v)

    def emit(self, kind, **d):
        self.I.emit(self.st, kind, self.env, self.node, **d)

    def terms(self):
        return tuple(self.I.term(a, self.st) for a in self.args)

    def kterms(self):
        return tuple(sorted((k, self.I.term(v, self.st)) for k, v in self.kw.items()))


# keywords that do not change the value of the modelled functions
NEUTRAL = {"out", "dtype", "copy", "order", "casting", "subok", "check_finite", "overwrite_a", "overwrite_b", "like"}


REORDER = ("ravel", "reshape", "flatten")
REDUCE = ("min", "max", "sum", "mean", "std", "var", "prod", "all", "any", "argmin", "argmax", "ptp")


def natural(c):
    """the elements are taken row by row"""
    o = c._kw.get("order")
    return o is None or isinstance(o, T) and tm.py_const(o) in ((True, "C"), (True, "A"), (True, "K"))


NARROW = ("float32", "float16", "half", "single", "f4", "f2", "f")


def narrowed(I, st, t, d):
    """the elements after conversion to a type of lower precision"""
    if d is None:
        return t
    x = I.term(d, st)
    ok, s = tm.py_const(x)
    n = s if ok and isinstance(s, str) else d.name if isinstance(d, I_().Lib) else ""
    return tm.fn("float32", t) if n.rsplit(".", 1)[-1] in NARROW else t


def opaque_call(c, kind="libcall"):
    c.emit(kind, name=c.name, args=tuple(c.args), kwargs=tuple(sorted(c.kw.items(), key=lambda kv: kv[0])))
    return mk("lib_" + c.name, c.terms(), c.kterms())


PURE = {"builtins.isinstance", "builtins.len", "builtins.range", "builtins.print", "builtins.enumerate", "builtins.zip",
        "builtins.super", "logging.getLogger", "builtins.list", "builtins.tuple", "builtins.hasattr"}


def lib_call(interp, name, args, kwargs, st, env, node):
    name = ALIAS.get(name, name)
    c = Call(interp, name, args, kwargs, st, env, node)
    f = LIBS.get(name)
    if f is None:
        if name.startswith("numpy.random.") or (name.startswith("scipy.stats.") and name.endswith(".rvs")):
            f = rng_call
        elif name.startswith(("logging.", "warnings.")):
            f = lambda c: mk("logger") if c.name.endswith("getLogger") else mk("ctx", c.name)
        elif name.startswith("builtins.") and isinstance(getattr(_bi, name[9:], None), type) and issubclass(getattr(_bi, name[9:]), BaseException):
            f = lambda c: mk("exc", c.name[9:])
        else:
            f = opaque_call
    out = kwargs.get("out")
    r = f(c)
    if f is not opaque_call and name.startswith(("numpy.", "scipy.")) and (c.ignored() or name[6:] in REORDER and not natural(c)):
        if DEBUG_IGNORED:
            print("IGNORED", name, c.ignored(), interp.loc(env, node))
        if isinstance(r, T):
            r = opaque_call(c)
        elif isinstance(r, I_().Ref) and r.id in st.heap:
            r = interp.new_arr(st, opaque_call(c))
    if out is not None and isinstance(r, T) and name.startswith("numpy."):
        interp.mutate(out, r, st, env, node, "out=")
        r = out
    res = r if isinstance(r, list) else [(st, r)]
    if interp.try_depth and name not in PURE:
        extra = []
        for s, v in res:
            if not s.ctl:
                s2 = s.clone()
                s2.ctl = ("raise", "<external>", interp.loc(env, node))
                extra.append((s2, None))
        res = res + extra
    return res


# ---- arrays
@lib("numpy.copy", "numpy.ndarray.copy")
def _copy(c):
    return fresh(c, c.t(0, "a"))


def fresh(c, t):
    t = asarr(t)
    if kind_of(t) in ("int", "num", "bool") and not isinstance(c.args[0] if c.args else None, I_().Ref):
        return t
    return c.I.new_arr(c.st, t)


@lib("numpy.array")
def _array(c):
    cp = c.val(None, "copy")
    if cp is not None and c.I.term(cp, c.st) is not TRUE:
        return _asarray(c)
    nd = c.val(None, "ndmin")
    t = asarr(c.t(0, "object"))
    if nd is not None and const_int(c.I.term(nd, c.st)) == 2:
        t = at2d(t)
    return c.I.new_arr(c.st, narrowed(c.I, c.st, t, c.val(1, "dtype")))


@lib("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray")
def _asarray(c):
    v = c.val(0, "a")
    t = asarr(c.t(0, "a"))
    if narrowed(c.I, c.st, t, c.val(1, "dtype")) is not t:
        return c.I.new_arr(c.st, narrowed(c.I, c.st, t, c.val(1, "dtype")))
    return view(c.I, v, "id", (), c.st)


@lib("numpy.atleast_2d")
def _at2d(c):
    return view(c.I, c.val(0), "at2d", (), c.st)


@lib("numpy.ravel")
def _ravel(c):
    return view(c.I, c.val(0, "a"), "ravel", (), c.st)


@lib("numpy.transpose")
def _transpose(c):
    return view(c.I, c.val(0, "a"), "tr", (), c.st)


@lib("numpy.squeeze")
def _squeeze(c):
    return view(c.I, c.val(0, "a"), "squeeze", (), c.st)


@lib("numpy.expand_dims")
def _expand(c):
    ax = const_int(c.t(1, "axis"))
    if ax == 0:
        return view(c.I, c.val(0, "a"), "at2d" if kind_of(c.t(0, "a")) != "arr2" else "expand0", (), c.st)
    if ax in (1, -1):
        return view(c.I, c.val(0, "a"), "col", (), c.st)
    return opaque_call(c)


@lib("numpy.reshape")
def _reshape(c):
    sh = c.t(1, "newshape") if c.val(1, "newshape") is not None else c.t(None, "shape")
    return reshape(c, c.val(0, "a"), sh)


def reshape(c, v, sh):
    def one(x):
        return const_int(x) == 1

    def minus(x):
        return const_int(x) == -1
    if sh.op == "list":
        sh = mk("tuple", *[s.args[0] for s in sh.args if s.op == "item"])
    if sh.op == "tuple" and len(sh.args) == 2:
        a, b = sh.args
        t = c.I.term(v, c.st)
        if one(a) and kind_of(t) in ("arr1", "unk"):
            return view(c.I, v, "at2d", (), c.st)
        if one(b) and minus(a):
            return view(c.I, v, "colvec", (), c.st)
    if minus(sh) or (sh.op == "tuple" and len(sh.args) == 1 and minus(sh.args[0])):
        return view(c.I, v, "ravel", (), c.st)
    return view(c.I, v, "reshape", (sh,), c.st)


def shape_term(c, i, name):
    t = c.t(i, name)
    if t is None:
        return None
    if t.op == "list":
        return mk("tuple", *[s.args[0] for s in t.args if s.op == "item"])
    if t.op == "asarr":
        return mk("tuple", *[s.args[0] for s in t.args[0].args if s.op == "item"])
    if t.op == "shape":
        return mk("tuple", length(t.args[0]), dim1(t.args[0])) if kind_of(t.args[0]) == "arr2" else t
    return t


@lib("numpy.zeros")
def _zeros(c):
    return c.I.new_arr(c.st, mk("full", shape_term(c, 0, "shape"), ZERO))


@lib("numpy.ones")
def _ones(c):
    return c.I.new_arr(c.st, mk("full", shape_term(c, 0, "shape"), ONE))


@lib("numpy.empty")
def _empty(c):
    sh = shape_term(c, 0, "shape")
    n0 = sh.args[0] if sh.op == "tuple" else sh
    return c.I.new_arr(c.st, mk("full", sh, ZERO) if is_zero(n0) else mk("empty", sh, c.I.uniq()))


@lib("numpy.full")
def _full(c):
    v = c.t(1, "fill_value")
    sh = shape_term(c, 0, "shape")
    if kind_of(v) in ("arr1", "arr") and sh.op == "tuple" and len(sh.args) == 2:
        return c.I.new_arr(c.st, mk("bcast", sh.args[0], v))
    return c.I.new_arr(c.st, mk("full", sh, v))


def _like(val):
    def f(c):
        t = c.t(0, "a")
        k = kind_of(t)
        sh = length(t) if k == "arr1" else mk("tuple", length(t), dim1(t)) if k == "arr2" else mk("shape", t)
        v = val if val is not None else c.t(1, "fill_value")
        return c.I.new_arr(c.st, mk("full", sh, v))
    return f


LIBS["numpy.zeros_like"] = _like(ZERO)
LIBS["numpy.ones_like"] = _like(ONE)
LIBS["numpy.full_like"] = _like(None)


@lib("numpy.empty_like")
def _empty_like(c):
    return c.I.new_arr(c.st, mk("empty", mk("shape", c.t(0)), c.I.uniq()))


@lib("numpy.eye", "numpy.identity")
def _eye(c):
    return c.I.new_arr(c.st, mk("eye", c.t(0)))


@lib("numpy.arange")
def _arange(c):
    ts = [t for t in c.terms()]
    if "start" in c.kw or "stop" in c.kw:
        return opaque_call(c)
    if len(ts) == 1:
        ts = [ZERO, ts[0], ONE]
    elif len(ts) == 2:
        ts = [ts[0], ts[1], ONE]
    return c.I.new_arr(c.st, mk("arange", *ts))


@lib("numpy.vstack", "numpy.row_stack")
def _vstack(c):
    xs = c.I.concrete(c.val(0, "tup"), c.st)
    if xs is None:
        t = c.t(0, "tup")
        if t.op == "list":
            return c.I.new_arr(c.st, rows_list(t))
        return c.I.new_arr(c.st, mk("vstack", t))
    return c.I.new_arr(c.st, rows(*[strip_copy(asarr(c.I.term(x, c.st))) for x in xs]))


def rows_list(t):
    out = []
    for s in t.args:
        out.append(s.args[0] if s.op == "item" else s)
    return rows(*out)


def strip_copy(t):
    return t


@lib("numpy.hstack", "numpy.column_stack", "numpy.c_")
def _hstack(c):
    xs = c.I.concrete(c.val(0, "tup"), c.st)
    if xs is None:
        return c.I.new_arr(c.st, mk("hstack", c.t(0, "tup")))
    ts = [asarr(c.I.term(x, c.st)) for x in xs]
    if c.name == "numpy.hstack" and all(kind_of(t) in ("arr1", "num", "int") for t in ts):
        return c.I.new_arr(c.st, mk("cat", *ts))
    return c.I.new_arr(c.st, cols(*ts))


@lib("numpy.concatenate")
def _concatenate(c):
    ax = c.t(1, "axis", ZERO)
    xs = c.I.concrete(c.val(0), c.st)
    if xs is None:
        return c.I.new_arr(c.st, mk("concat", c.t(0), ax))
    ts = [asarr(c.I.term(x, c.st)) for x in xs]
    if all(kind_of(t) == "arr1" for t in ts):
        return c.I.new_arr(c.st, mk("cat", *ts))
    if const_int(ax) == 0:
        return c.I.new_arr(c.st, rows(*ts))
    if const_int(ax) in (1, -1):
        return c.I.new_arr(c.st, cols(*ts))
    return c.I.new_arr(c.st, mk("concat", mk("tuple", *ts), ax))


@lib("numpy.append")
def _append(c):
    ax = c.t(2, "axis", NONE)
    if const_int(ax) == 0:
        return c.I.new_arr(c.st, rows(c.arr(0, "arr"), c.arr(1, "values")))
    if const_int(ax) == 1:
        return c.I.new_arr(c.st, cols(c.arr(0, "arr"), c.arr(1, "values")))
    return c.I.new_arr(c.st, mk("cat", ravel(c.arr(0, "arr")), ravel(c.arr(1, "values"))))


@lib("numpy.tile")
def _tile(c):
    t, r = c.arr(0, "A"), c.t(1, "reps")
    if r.op == "tuple" and len(r.args) == 2 and const_int(r.args[1]) == 1:
        return c.I.new_arr(c.st, mk("bcast", r.args[0], ravel(t) if t.op == "at2d" else t))
    return c.I.new_arr(c.st, mk("tile", t, r))


@lib("numpy.repeat")
def _repeat(c):
    t, n, ax = c.arr(0, "a"), c.t(1, "repeats"), c.t(2, "axis", NONE)
    if t.op == "at2d" and const_int(ax) == 0:
        return c.I.new_arr(c.st, mk("bcast", n, t.args[0]))
    return c.I.new_arr(c.st, mk("repeat", t, n, ax))


@lib("numpy.broadcast_to")
def _bto(c):
    t, sh = c.arr(0, "array"), shape_term(c, 1, "shape")
    if sh.op == "tuple" and len(sh.args) == 2 and kind_of(t) in ("arr1", "unk", "arr"):
        return mk("bcast", sh.args[0], t)
    return mk("broadcast", t, sh)


@lib("numpy.delete")
def _delete(c):
    return c.I.new_arr(c.st, mk("delete", c.arr(0, "arr"), c.t(1, "obj"), c.t(2, "axis", NONE)))


@lib("numpy.where")
def _where(c):
    cond = c.t(0, "condition")
    if len(c.args) + len(c.kw) == 1:
        return I_().Tup([mk("nonzero", cond)]) if kind_of(cond) == "arr1" else mk("wherenz", cond)
    a, b = c.arr(1, "x"), c.arr(2, "y")
    return c.I.new_arr(c.st, tm.ite(cond, a, b))


@lib("numpy.nonzero")
def _nonzero(c):
    cond = c.arr(0, "a")
    return I_().Tup([mk("nonzero", cond)]) if kind_of(cond) == "arr1" else mk("wherenz", cond)


@lib("numpy.flatnonzero")
def _flatnonzero(c):
    return mk("nonzero", c.arr(0, "a"))


@lib("numpy.fill_diagonal")
def _filldiag(c):
    v = c.val(0, "a")
    c.I.mutate(v, mk("filldiag", c.t(0, "a"), c.t(1, "val")), c.st, c.env, c.node, "fill_diagonal")
    return NONE


@lib("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask")
def _inplace(c):
    v = c.val(0)
    new = c.t(1) if c.name == "numpy.copyto" and len(c.args) == 2 and not c.kw else mk("inplace_" + c.name, *c.terms())
    c.I.mutate(v, new, c.st, c.env, c.node, c.name)
    return NONE


@lib("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot")
def _dot(c):
    return dot(c.arr(0), c.arr(1))


@lib("numpy.outer")
def _outer(c):
    return mk("outer", c.arr(0), c.arr(1))


@lib("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(c):
    if c.val(1, "ord") is not None and c.t(1, "ord") is not NONE and const_int(c.t(1, "ord")) != 2:
        return mk("normord", c.arr(0, "x"), c.t(1, "ord"), c.t(2, "axis", NONE))
    return norm_(c.arr(0, "x"), c.t(2, "axis", NONE))


@lib("scipy.spatial.distance.cdist")
def _cdist(c):
    m = c.t(2, "metric")
    a, b = c.arr(0, "XA"), c.arr(1, "XB")
    if m is None or m is const("euclidean"):
        return c.I.new_arr(c.st, mk("cdist", a, b))
    if m is const("sqeuclidean"):
        return c.I.new_arr(c.st, tm.powq(mk("cdist", a, b), 2))
    return c.I.new_arr(c.st, mk("cdist_" + tm.show(m), a, b))


@lib("scipy.spatial.distance.euclidean")
def _euclid(c):
    return norm_(sub(c.arr(0, "u"), c.arr(1, "v")))


@lib("scipy.stats.norm.cdf")
def _cdf(c):
    if len(c.args) > 1 or c.kw:
        return opaque_call(c)
    return tm.fn("normcdf", c.arr(0, "x"))


@lib("scipy.special.ndtr")
def _ndtr(c):
    return tm.fn("normcdf", c.arr(0, "x"))


@lib("scipy.stats.norm.pdf")
def _pdf(c):
    if len(c.args) > 1 or c.kw:
        return opaque_call(c)
    return tm.fn("normpdf", c.arr(0, "x"))


@lib("numpy.intersect1d")
def _intersect(c):
    a, b = c.arr(0, "ar1"), c.arr(1, "ar2")
    if a.id > b.id:
        a, b = b, a
    return mk("intersect", a, b)


for _n in ("setdiff1d", "union1d", "isin", "in1d", "unique", "lexsort", "argsort", "sort", "triu", "tril", "cumsum", "cumprod",
           "array_equal", "allclose", "array_str", "array2string", "finfo", "linspace", "meshgrid", "diff", "diag", "outer", "cov",
           "percentile", "quantile", "histogram", "searchsorted", "digitize", "take", "roll", "flip", "flipud", "fliplr", "argwhere",
           "count_nonzero", "nan_to_num", "polyfit", "polyval", "indices", "split", "isclose", "array_equiv", "ndim_"):
    def _mk(n):
        def f(c):
            ts = [asarr(t) for t in c.terms()]
            return mk("np_" + n, *(tuple(ts) + (c.kterms(),) if c.kw else tuple(ts)))
        return f
    LIBS["numpy." + _n] = _mk(_n)


@lib("numpy.array_equal")
def _array_equal(c):
    a, b = c.arr(0), c.arr(1)
    return TRUE if a is b else mk("arreq", *sorted((a, b), key=lambda x: x.id))


@lib("numpy.shape")
def _shape(c):
    return value_attr(c.I, c.val(0), "shape", c.st, c.env, c.node)[0][1]


@lib("numpy.ndim")
def _ndim(c):
    t = c.t(0)
    k = kind_of(t)
    return ZERO if k in ("num", "int") else ONE if k == "arr1" else const(2) if k == "arr2" else mk("ndim", t)


@lib("numpy.size")
def _size(c):
    t = c.t(0)
    return length(t) if kind_of(t) == "arr1" else mk("size", t)


@lib("numpy.isscalar")
def _isscalar(c):
    return mk("isscalar", c.t(0))


def _ufunc(name):
    def f(c):
        return tm.fn(name, *[asarr(t) for t in c.terms()])
    return f


for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "exp", "log", "log2", "log10", "log1p", "expm1",
           "sqrt", "floor", "ceil", "sign", "isfinite", "isnan", "isinf", "square", "trunc"):
    LIBS["numpy." + _n] = _ufunc(_n)
    LIBS["math." + _n] = _ufunc(_n)
for _n in ("abs", "absolute", "fabs"):
    LIBS["numpy." + _n] = _ufunc("abs")
LIBS["math.fabs"] = LIBS["builtins.abs"] = _ufunc("abs")
LIBS["math.erf"] = LIBS["scipy.special.erf"] = _ufunc("erf")


@lib("numpy.maximum", "numpy.fmax")
def _maximum(c):
    return tm.fn("maximum", c.arr(0), c.arr(1))


@lib("numpy.minimum", "numpy.fmin")
def _minimum(c):
    return tm.fn("minimum", c.arr(0), c.arr(1))


@lib("numpy.clip")
def _clip(c):
    return clip(c.arr(0, "a"), c.t(1, "a_min"), c.t(2, "a_max"))


def clip(x, lo, hi):
    if lo is not None and lo is not NONE:
        x = tm.fn("maximum", x, lo)
    if hi is not None and hi is not NONE:
        x = tm.fn("minimum", x, hi)
    return x


@lib("numpy.round", "numpy.around", "numpy.rint", "numpy.round_")
def _round(c):
    d = c.t(1, "decimals")
    if d is not None and not is_zero(d):
        return mk("rounddec", c.arr(0, "a"), d)
    return tm.fn("rint", c.arr(0, "a"))


@lib("builtins.round")
def _bround(c):
    return tm.fn("rint", c.t(0)) if len(c.args) == 1 else mk("rounddec", c.t(0), c.t(1))


def _binop(op):
    return lambda c: arith(op, c.arr(0), c.arr(1))


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"),
               ("float_power", "Pow"), ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
    LIBS["numpy." + _n] = _binop(_o)
LIBS["math.pow"] = LIBS["builtins.pow"] = _binop("Pow")
LIBS["numpy.negative"] = lambda c: neg(c.arr(0))
LIBS["numpy.reciprocal"] = lambda c: tm.powq(c.arr(0), -1)
LIBS["numpy.less"] = lambda c: tm.lt(c.arr(0), c.arr(1))
LIBS["numpy.less_equal"] = lambda c: tm.le(c.arr(0), c.arr(1))
LIBS["numpy.greater"] = lambda c: tm.lt(c.arr(1), c.arr(0))
LIBS["numpy.greater_equal"] = lambda c: tm.le(c.arr(1), c.arr(0))
LIBS["numpy.equal"] = lambda c: tm.eq(c.arr(0), c.arr(1))
LIBS["numpy.not_equal"] = lambda c: tm.bnot(tm.eq(c.arr(0), c.arr(1)))
LIBS["numpy.logical_and"] = lambda c: tm.band(c.arr(0), c.arr(1))
LIBS["numpy.logical_or"] = lambda c: tm.bor(c.arr(0), c.arr(1))
LIBS["numpy.logical_not"] = lambda c: tm.bnot(c.arr(0))


def _red(name):
    def f(c):
        ax = c.t(1, "axis", NONE)
        keep = c.t(None, "keepdims", FALSE)
        x = c.arr(0, "a")
        if x.op == "list" or kind_of(x) == "list":
            x = asarr(x)
        r = red(name, x, ax, keep)
        if ax is not NONE and kind_of(r) in ARR:
            return c.I.new_arr(c.st, r)
        return r
    return f


for _n in ("min", "max", "sum", "mean", "std", "var", "median", "prod", "all", "any", "argmin", "argmax", "ptp", "nanmin", "nanmax",
           "nanargmin", "nanargmax", "nansum"):
    LIBS["numpy." + _n] = _red(_n)


@lib("numpy.linalg.matrix_rank")
def _mrank(c):
    if len(c.args) > 1 or c.kw:
        return mk("lib_numpy.linalg.matrix_rank", c.terms(), c.kterms())
    return mk("rank", c.arr(0))


# ---- randomness
def rng_shape(t):
    """shape of an rng draw as a tuple of terms, or None"""
    name, args, kw = t.args[0], t.args[1], dict(t.args[2])
    size = kw.get("size")
    if name in ("rand", "randn", "random_sample_"):
        return tuple(args)
    if name in ("random", "random_sample", "ranf", "sample", "standard_normal"):
        size = size or (args[0] if args else None)
    elif name in ("uniform", "normal", "randint"):
        size = size or (args[2] if len(args) > 2 else None)
    elif name == "truncnorm.rvs":
        size = size or (args[4] if len(args) > 4 else None)
    elif name in ("permutation", "choice"):
        return None
    if size is None:
        if name in ("uniform", "normal"):
            return None
        return ()
    if size.op == "tuple":
        return tuple(size.args)
    if kind_of(size) in ("int", "num", "unk"):
        return (size,)
    return None


def rng_call(c):
    short = c.name.split("numpy.random.")[-1] if c.name.startswith("numpy.random.") else c.name.split("scipy.stats.")[-1]
    if short in ("shuffle",):
        c.emit("rng", name=short, args=c.terms(), kwargs=c.kterms(), full=c.name)
        c.I.mutate(c.val(0), mk("shuffled", c.t(0), c.I.draw_id()), c.st, c.env, c.node, "shuffle")
        return NONE
    c.emit("rng", name=short, args=c.terms(), kwargs=c.kterms(), full=c.name)
    if short in ("seed", "set_state"):
        return NONE
    args, kw = c.terms(), dict(c.kterms())
    if short == "truncnorm.rvs":
        names = ("a", "b", "loc", "scale", "size")
        for n, a in zip(names, args):
            kw[n] = a
        args = ()
        kw.setdefault("loc", ZERO)
        kw.setdefault("scale", ONE)
    elif short == "uniform":
        for n, a in zip(("low", "high", "size"), args):
            kw[n] = a
        args = ()
        kw.setdefault("low", ZERO)
        kw.setdefault("high", ONE)
    elif short in ("rand", "random", "random_sample", "ranf", "sample"):
        size = mk("tuple", *args) if short == "rand" and args else kw.get("size") or (args[0] if args else None)
        if size is not None and size.op == "tuple" and len(size.args) == 1:
            size = size.args[0]
        short, args = "uniform", ()
        kw = {"low": ZERO, "high": ONE}
        if size is not None:
            kw["size"] = size
    elif short in ("randn", "standard_normal", "normal"):
        if short == "randn":
            size = mk("tuple", *args) if args else None
            kw = {}
        elif short == "normal":
            for n, a in zip(("loc", "scale", "size"), args):
                kw[n] = a
            size = kw.pop("size", None)
        else:
            size = kw.pop("size", None) or (args[0] if args else None)
        if size is not None and size.op == "tuple" and len(size.args) == 1:
            size = size.args[0]
        kw.setdefault("loc", ZERO)
        kw.setdefault("scale", ONE)
        if size is not None:
            kw["size"] = size
        short, args = "normal", ()
    elif short in ("randint", "random_integers"):
        for n, a in zip(("low", "high", "size"), args):
            kw[n] = a
        if short == "randint" and ("high" not in kw or kw["high"] is NONE) and "low" in kw:
            kw["high"], kw["low"] = kw["low"], ZERO
        args = ()
    t = mk("rng", short, args, tuple(sorted(kw.items())), c.I.draw_id())
    sh = rng_shape(t)
    if sh == ():
        return t
    return c.I.new_arr(c.st, t)


# ---- builtins
@lib("builtins.len")
def _len(c):
    v = c.val(0)
    I = I_()
    if isinstance(v, I.Tup):
        return const(len(v.items))
    lc = c.I.as_list(v, c.st) if isinstance(v, (I.Ref, T)) else None
    if lc is not None:
        return c.I.list_len(lc)
    if isinstance(v, I.Ref) and c.st.heap[v.id].kind == "dict":
        return const(len(c.st.heap[v.id].content))
    if isinstance(v, I.Ref) and c.st.heap[v.id].kind == "obj":
        ci = c.I.class_of(v, c.st)
        fi = c.I.p.find_method(ci, "__len__") if ci else None
        if fi:
            return c.I.call_fi(fi, [v], {}, c.st, c.env, c.node, recv=v)
    return length(c.t(0))


@lib("builtins.range")
def _range(c):
    ts = c.terms()
    if len(ts) == 1:
        lo, hi, step = ZERO, ts[0], ONE
    else:
        lo, hi, step = ts[0], ts[1], ts[2] if len(ts) > 2 else ONE
    a, b, s = const_int(lo), const_int(hi), const_int(step)
    if a is not None and b is not None and s and len(range(a, b, s)) <= 16:
        return I_().Tup([const(i) for i in range(a, b, s)])
    return mk("range", lo, hi, step)


@lib("builtins.enumerate")
def _enumerate(c):
    I = I_()
    it = c.I.iterate(c.val(0), c.st, c.env, c.node)
    start = c.t(1, "start", ZERO)
    if it is None:
        return mk("enumerate", c.t(0))
    if it.items is not None:
        return I.Tup([I.Tup([add(start, const(i)), x]) for i, x in enumerate(it.items)])
    return I.Iter(lo=it.lo, hi=it.hi, elem=lambda b: I.Tup([add(sub(b, it.lo), start), it.elem(b)]), guard=it.guard)


@lib("builtins.zip")
def _zip(c):
    I = I_()
    its = [c.I.iterate(v, c.st, c.env, c.node) for v in c.args]
    if any(it is None for it in its):
        return mk("zip", c.terms())
    if all(it.items is not None for it in its):
        n = min(len(it.items) for it in its)
        return I.Tup([I.Tup([it.items[i] for it in its]) for i in range(n)])
    sym = [it for it in its if it.items is None]
    if len(sym) == len(its) and all(it.guard is None for it in its):
        hi = sub(sym[0].hi, sym[0].lo)
        return I.Iter(lo=ZERO, hi=hi, elem=lambda b: I.Tup([it.elem(add(b, it.lo)) for it in its]))
    return mk("zip", c.terms())


@lib("builtins.reversed")
def _reversed(c):
    I = I_()
    it = c.I.iterate(c.val(0), c.st, c.env, c.node)
    if it is None:
        return mk("reversed", c.t(0))
    if it.items is not None:
        return I.Tup(tuple(reversed(it.items)))
    if it.guard is not None:
        return mk("reversed", c.t(0))
    return I.Iter(lo=it.lo, hi=it.hi, elem=lambda b: it.elem(sub(sub(add(it.lo, it.hi), ONE), b)))


@lib("builtins.sorted")
def _sorted(c):
    return mk("sorted", c.t(0), c.kterms())


def _pyred(name):
    def f(c):
        I = I_()
        key = c.kw.get("key")
        if key is not None:
            return mk("pyred", name, c.terms(), c.kterms())
        if len(c.args) > 1 and name in ("min", "max"):
            return redlist(name, [c.I.term(a, c.st) for a in c.args])
        v = c.val(0)
        xs = c.I.concrete(v, c.st)
        start = c.t(1, "start", ZERO) if name == "sum" else None
        if xs is not None:
            if name in ("all", "any"):
                ts = [c.I.truth(x, c.st) for x in xs]
            else:
                ts = [c.I.term(x, c.st) for x in xs]
            r = redlist(name, ts)
            if r is not None:
                return add(start, r) if start is not None else r
        t = c.I.term(v, c.st)
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each":
            seg = t.args[0]
            if name in ("all", "any") and not isinstance(seg.args[2], T):
                return mk("red", name, t, NONE, FALSE)
            r = redseg(name, seg)
            if r is not None:
                return add(start, r) if start is not None else r
        if t.op == "range" and name == "sum" and t.args[2] is ONE:
            bv = mk("bv", 99, t.args[0], t.args[1])
            return mksum(bv, TRUE, bv)
        r = red(name, asarr(t), NONE, FALSE)
        if "default" in c.kw:
            return mk("pyred", name, (r,), c.kterms())
        return add(start, r) if start is not None else r
    return f


for _n in ("min", "max", "sum", "all", "any"):
    LIBS["builtins." + _n] = _pyred(_n)


@lib("builtins.int")
def _int(c):
    if not c.args:
        return ZERO
    t = c.t(0)
    if kind_of(t) in ("int", "bool"):
        return t
    ok, v = tm.py_const(t)
    if ok and isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
        return const(int(v))
    if t.op == "fn" and t.args[0] in ("floor", "ceil", "rint"):
        return t
    return tm.fn("int", t)


@lib("numpy.float32", "numpy.float16", "numpy.single", "numpy.half")
def _float32(c):
    return tm.fn("float32", c.t(0)) if c.args else ZERO


@lib("builtins.float", "numpy.float64", "numpy.double")
def _float(c):
    t = c.t(0) if c.args else ZERO
    if t.op == "const" and isinstance(t.args[0], str):
        s = t.args[0].strip().lower()
        return INF if s in ("inf", "infinity") else NINF if s == "-inf" else NAN if s == "nan" else mk("opaque", "float", t)
    return t


@lib("builtins.bool", "numpy.bool_")
def _bool(c):
    return c.I.truth(c.val(0), c.st) if c.args else FALSE


@lib("builtins.str", "builtins.repr", "builtins.format")
def _str(c):
    return to_str(c.t(0)) if c.args else const("")


@lib("builtins.list", "collections.deque")
def _list(c):
    I = I_()
    if not c.args:
        return c.I.new_list(c.st, ())
    v = c.val(0)
    xs = c.I.concrete(v, c.st)
    if xs is not None:
        return c.I.new_list(c.st, [("item", x) for x in xs])
    lc = c.I.as_list(v, c.st) if isinstance(v, (I.Ref, T)) else None
    if lc is not None:
        return c.I.new_list(c.st, lc)
    it = c.I.iterate(v, c.st, c.env, c.node)
    if it is not None and it.items is None:
        bv = mk("bv", c.I.level, it.lo, it.hi)
        return c.I.new_list(c.st, [("each", bv, it.guard(bv) if it.guard else TRUE, it.elem(bv))])
    return c.I.new_list(c.st, [("rest", c.t(0))])


@lib("builtins.tuple")
def _tuple(c):
    if not c.args:
        return I_().Tup(())
    xs = c.I.concrete(c.val(0), c.st)
    return I_().Tup(xs) if xs is not None else mk("totuple", c.t(0))


@lib("builtins.set", "builtins.frozenset")
def _set(c):
    if not c.args:
        return mk("set")
    xs = c.I.concrete(c.val(0), c.st)
    return mk("set", *[c.I.term(x, c.st) for x in xs]) if xs is not None else mk("toset", c.t(0))


@lib("builtins.dict")
def _dict(c):
    I = I_()
    if c.args:
        v = c.val(0)
        if isinstance(v, I.Ref) and c.st.heap[v.id].kind == "dict":
            base = c.st.heap[v.id].content
        else:
            return opaque_call(c)
    else:
        base = ()
    return c.I.new(c.st, I.Obj("dict", content=base + tuple((const(k), v) for k, v in sorted(c.kw.items(), key=lambda kv: kv[0]))))


@lib("builtins.map")
def _map(c):
    I = I_()
    f = c.val(0)
    if len(c.args) != 2:
        return mk("map", c.terms())
    it = c.I.iterate(c.val(1), c.st, c.env, c.node)
    if it is None or it.items is None:
        if it is not None and it.guard is None:
            bv = mk("bv", c.I.level, it.lo, it.hi)
            c.I.level += 1
            try:
                rs = c.I.call(f, [it.elem(bv)], {}, c.st.clone(), c.env, c.node)
            finally:
                c.I.level -= 1
            rs = [(s, v) for s, v in rs if not s.ctl]
            if len(rs) == 1 and isinstance(rs[0][1], T):
                t = rs[0][1]
                return I.Iter(lo=it.lo, hi=it.hi, elem=lambda b: tm.subst(t, {bv: b}))
        return mk("map", c.terms())
    acc = [(c.st, [])]
    for x in it.items:
        nxt = []
        for s, vs in acc:
            for s2, v in c.I.call(f, [x], {}, s, c.env, c.node):
                nxt.append((s2, vs + [v]))
        acc = nxt
    return [(s, I.Tup(vs) if not s.ctl else None) for s, vs in acc]


@lib("builtins.isinstance")
def _isinstance(c):
    I = I_()
    v, cl = c.val(0), c.val(1)
    cls = c.I.concrete(cl, c.st) if isinstance(cl, (I.Tup, I.Ref)) else (cl,)
    if cls is None:
        cls = (cl,)
    r = FALSE
    for k in cls:
        r = tm.bor(r, isinst(c, v, k))
    return r


_PYT = {"builtins.int": "int", "builtins.float": "float", "builtins.str": "str", "builtins.list": "list", "builtins.tuple": "tuple",
        "builtins.bool": "bool", "builtins.dict": "dict", "numpy.ndarray": "ndarray"}


def isinst(c, v, k):
    I = I_()
    name = k.ci.name if isinstance(k, I.Cls) else _PYT.get(k.name, k.name) if isinstance(k, I.Lib) else tm.show(c.I.term(k, c.st))
    if isinstance(v, I.Ref):
        o = c.st.heap[v.id]
        if o.kind == "obj" and isinstance(o.cls, I.ClassInfo):
            if isinstance(k, I.Cls):
                return const(any(x is k.ci for x in c.I.p.mro(o.cls)))
            return const(isinstance(k, I.Lib) and k.name in c.I.p.ext_bases(o.cls))
        if o.kind == "list":
            return const(name == "list")
        if o.kind == "dict":
            return const(name == "dict")
        if o.kind == "arr":
            if o.view is None or name != "ndarray":
                return const(name == "ndarray")
    if isinstance(v, I.Tup):
        return const(name == "tuple")
    if isinstance(v, (I.Fn, I.Bound, I.Cls)):
        return const(False) if name in ("int", "float", "str", "list", "ndarray") else mk("isinst", c.I.term(v, c.st), name)
    t = c.I.term(v, c.st)
    if t is NONE:
        return FALSE
    if t.op == "const" and isinstance(t.args[0], str) and len(t.args) == 1:
        return const(name == "str")
    if t.op == "const" and isinstance(t.args[0], bool):
        return const(name in ("bool", "int"))
    if t.op == "num" and name in ("str", "list", "tuple", "dict", "ndarray"):
        return FALSE
    return mk("isinst", t, name)


def has_attr(c, v, n):
    """whether an object has an attribute, as a condition"""
    I = I_()
    if isinstance(v, I.Ref) and c.st.heap[v.id].kind == "obj":
        o = c.st.heap[v.id]
        if n in o.attrs:
            return TRUE
        if isinstance(o.cls, I.ClassInfo):
            if c.I.p.find_method(o.cls, str(n)) or any(n in k.consts for k in c.I.p.mro(o.cls)):
                return TRUE
            if o.origin == "fresh" and all(str(b).split(".")[-1] in ("object", "ABC") for k in c.I.p.mro(o.cls) for b in c.I.p.ext_bases(k)):
                return FALSE
    return mk("hasattr", c.I.term(v, c.st), const(n))


@lib("builtins.hasattr")
def _hasattr(c):
    return has_attr(c, c.val(0), tm.py_const(c.t(1))[1])


@lib("builtins.getattr")
def _getattr(c):
    ok, n = tm.py_const(c.t(1))
    if ok and isinstance(n, str):
        v = c.val(0)
        if c.val(2) is None:
            return c.I.getattr(v, n, c.st, c.env, c.node)
        d = c.val(2)
        out = []
        for s, b in c.I.branch(c.st, has_attr(c, v, n)):
            out.extend(c.I.getattr(v, n, s, c.env, c.node) if b else [(s, d)])
        return out
    return opaque_call(c)


@lib("builtins.setattr")
def _setattr(c):
    ok, n = tm.py_const(c.t(1))
    if ok and isinstance(n, str):
        c.I.setattr(c.val(0), n, c.val(2), c.st, c.env, c.node)
        return NONE
    c.emit("setattr_dynamic", obj=c.t(0))
    return NONE


@lib("builtins.callable")
def _callable(c):
    I = I_()
    v = c.val(0)
    return TRUE if isinstance(v, (I.Fn, I.Bound, I.Cls, I.Lib, I.Meth)) else mk("callable", c.t(0))


@lib("builtins.print", "builtins.super")
def _noop(c):
    return NONE


@lib("builtins.id", "builtins.hash", "builtins.type")
def _ident(c):
    return mk(c.name, c.t(0))


@lib("builtins.slice")
def _slice(c):
    ts = c.terms()
    if len(ts) == 1:
        return mk("slice", ZERO, ts[0], NONE)
    return mk("slice", ts[0], ts[1], ts[2] if len(ts) > 2 else NONE)


@lib("builtins.iter")
def _iter(c):
    return c.val(0)


@lib("builtins.divmod")
def _divmod(c):
    return I_().Tup([arith("FloorDiv", c.t(0), c.t(1)), arith("Mod", c.t(0), c.t(1))])


# ---- copy, files
@lib("copy.copy", "copy.deepcopy")
def _pycopy(c):
    I = I_()
    v = c.val(0)
    if isinstance(v, (I.Ref, T)):
        lc = c.I.as_list(v, c.st)
        if lc is not None:
            return c.I.new_list(c.st, lc)
        if isinstance(v, I.Ref):
            o = c.st.heap[v.id]
            if o.kind == "arr":
                return c.I.new_arr(c.st, c.I.term(v, c.st))
            if o.kind == "obj":
                return c.I.new(c.st, o.but(attrs=dict(o.attrs)))
            if o.kind == "dict":
                return c.I.new(c.st, o.but())
        t = c.I.term(v, c.st)
        k = kind_of(t)
        if k in ARR or k == "unk":
            return c.I.new_arr(c.st, t)
        return t
    if isinstance(v, I.Meth):
        return c.I.new_arr(c.st, mk("attr", c.I.term(v.recv, c.st), v.name))
    return v


@lib("builtins.open", "io.open", "os.fdopen")
def _open(c):
    mode = c.t(1, "mode", const("r"))
    path = c.t(0, "file")
    if path.op == "fd":
        path = path.args[0]
    f = mk("file", path, mode, c.I.uniq())
    c.emit("open", path=path, mode=mode, file=f)
    return f


@lib("tempfile.gettempdir")
def _gettempdir(c):
    return mk("path", "tempdir")


def fresh_path(c, suffix, prefix, where):
    """a new file of a directory (of the system's one without it)"""
    where = mk("path", "tempdir") if where is NONE else where
    txt = lambda x, d: const(d) if x is NONE else x
    return mk("path", "join", where, mk("path", "fresh", txt(prefix, "tmp"), txt(suffix, ""), const(c.I.uniq())))


@lib("tempfile.mkstemp")
def _mkstemp(c):
    path = fresh_path(c, c.t(0, "suffix", NONE), c.t(1, "prefix", NONE), c.t(2, "dir", NONE))
    fd = mk("fd", path)
    return I_().Tup([fd, path])


@lib("tempfile.NamedTemporaryFile")
def _named_temp(c):
    mode = c.t(0, "mode", const("w+b"))
    path = fresh_path(c, c.t(4, "suffix", NONE), c.t(5, "prefix", NONE), c.t(6, "dir", NONE))
    f = mk("file", path, mode, c.I.uniq())
    c.emit("open", path=path, mode=mode, file=f)
    return f


FS = ("os.rename", "os.replace", "os.remove", "os.unlink", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2",
      "os.truncate", "os.rmdir", "shutil.rmtree", "os.makedirs", "os.mkdir", "os.link", "os.symlink")


def _fs(c):
    c.emit("fs", op=c.name, args=c.terms())
    return NONE


for _n in FS:
    LIBS[_n] = _fs


@lib("dill.dump", "pickle.dump", "cloudpickle.dump")
def _dump(c):
    c.emit("dump", obj=c.val(0, "obj"), file=c.t(1, "file"))
    return NONE


@lib("dill.dumps", "pickle.dumps")
def _dumps(c):
    return mk("dumps", c.t(0, "obj"))


@lib("dill.load", "pickle.load")
def _load(c):
    c.emit("load", file=c.t(0, "file"))
    return mk("loaded", c.t(0, "file"))


@lib("os.fsync")
def _fsync(c):
    c.emit("fsync", args=c.terms())
    return NONE


@lib("os.path.join")
def _join(c):
    ts = c.terms()
    if len(ts) == 2 and ts[0].op == "path" and ts[1].op == "path" and ts[0].args[0] == "dirname" and ts[1].args[0] == "basename" and ts[0].args[1] is ts[1].args[1]:
        return ts[0].args[1]
    return mk("path", "join", *ts)


@lib("os.path.split")
def _split(c):
    p = c.t(0)
    return I_().Tup([mk("path", "dirname", p), mk("path", "basename", p)])


@lib("os.path.splitext")
def _splitext(c):
    p = c.t(0)
    return I_().Tup([mk("path", "root", p), mk("path", "ext", p)])


for _n in ("dirname", "basename", "isfile", "exists", "abspath", "realpath", "isdir", "expanduser", "normpath"):
    def _mkp(n):
        def f(c):
            c.emit("path", op=n, args=c.terms())
            return mk("path", n, *c.terms())
        return f
    LIBS["os.path." + _n] = _mkp(_n)


# ------------------------------------------------------------------ methods
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "popleft", "appendleft"}
ND_METH = {"copy", "ravel", "flatten", "transpose", "reshape", "min", "max", "sum", "mean", "std", "var", "prod", "all", "any", "argmin",
           "argmax", "astype", "tolist", "dot", "round", "clip", "squeeze", "fill", "sort", "item", "nonzero", "cumsum", "repeat", "view",
           "argsort", "ptp", "take", "resize", "partition", "put", "swapaxes", "trace", "conj", "searchsorted"}


def method_call(interp, recv, name, args, kwargs, st, env, node):
    I = I_()
    c = Call(interp, name, args, kwargs, st, env, node)
    res = _method(interp, recv, name, c)
    if not isinstance(res, list):
        res = [(st, res)]
    if interp.try_depth:
        extra = []
        for s, v in res:
            if not s.ctl:
                s2 = s.clone()
                s2.ctl = ("raise", "<external>", interp.loc(env, node))
                extra.append((s2, None))
        res = res + extra
    return res


def _method(interp, recv, name, c):
    I = I_()
    st = c.st
    if isinstance(recv, T) and recv.op in ("logger", "ctx"):
        return NONE
    if isinstance(recv, I.Tup):
        if name == "index":
            return mk("index", interp.term(recv, st), c.t(0))
        if name == "count":
            return mk("count", interp.term(recv, st), c.t(0))
    if isinstance(recv, I.Ref) and st.heap[recv.id].kind == "dict":
        return dict_method(interp, recv, name, c)
    lc = interp.as_list(recv, st) if isinstance(recv, (I.Ref, T)) else None
    if lc is None and isinstance(recv, T) and name in ("append", "extend", "insert", "popleft", "appendleft", "remove", "clear", "pop") \
            and kind_of(interp.term(recv, st)) in ("unk", "list") and recv.op in ("sym", "attr", "lv", "getitem", "vcall", "pcall"):
        cur = interp.cur(recv, st)
        lc = I.LC([("rest", cur)])
    if lc is not None:
        r = list_method(interp, recv, lc, name, c)
        if r is not None:
            return r
    t = interp.term(recv, st) if isinstance(recv, (I.Ref, T, I.Tup)) else None
    if t is not None and kind_of(t) == "str":
        if name == "join":
            xs = interp.concrete(c.val(0), st)
            if xs is not None:
                sep, out = t, []
                for i, x in enumerate(xs):
                    if i:
                        out.append(sep)
                    out.append(interp.term(x, st))
                return strcat(*out)
        if name == "format":
            ok, s = tm.py_const(t)
            if ok:
                r = format_term(s, [interp.term(a, st) for a in c.args], {k: interp.term(v, st) for k, v in c.kw.items()})
                if r is not None:
                    return r
            return mk("fmt", t, c.terms(), c.kterms())
        return mk("strmeth", name, t, c.terms())
    is_arr = isinstance(recv, I.Ref) and st.heap[recv.id].kind == "arr"
    if t is not None and (is_arr or kind_of(t) in ARR + ("unk", "num", "int", "bool")) and name in ND_METH:
        d = Call(interp, name, c._args, c._kw, st, c.env, c.node)
        r = nd_method(interp, recv, t, name, d)
        if r is not None:
            if d.ignored() or name in REORDER and not natural(d):
                ar = c.terms()
                if name == "reshape" and len(ar) > 1:
                    ar = (mk("tuple", *ar),)
                r = mk("lib_numpy." + {"flatten": "ravel"}.get(name, name), (t,) + ar, c.kterms())
                return interp.new_arr(st, r) if kind_of(t) in ARR + ("unk",) and name not in REDUCE else r
            return r
    rt = interp.term(recv, st) if t is None else t
    c.emit("mcall", recv=recv, rterm=rt, name=name, args=tuple(c.args), kwargs=tuple(sorted(c.kw.items(), key=lambda kv: kv[0])),
           targs=c.terms(), tkw=c.kterms())
    return mk("mcall", rt, name, c.terms(), c.kterms())


def format_term(s, args, kw):
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if spec or conv or any(ch in field for ch in ".["):
                return None
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kw[field]
            out.append(to_str(v))
    except (IndexError, KeyError, ValueError):
        return None
    return strcat(*out)


def dict_method(interp, recv, name, c):
    st = c.st
    o = st.heap[recv.id]
    I = I_()
    if name in ("get", "pop", "setdefault"):
        k = c.t(0)
        for kk, v in o.content:
            if kk is k:
                if name == "pop":
                    st.heap[recv.id] = o.but(content=tuple(x for x in o.content if x[0] is not k))
                return v
        if name == "setdefault":
            st.heap[recv.id] = o.but(content=o.content + ((k, c.val(1, default=NONE)),))
        return c.val(1, default=NONE)
    if name == "items":
        return I.Tup([I.Tup([k, v]) for k, v in o.content])
    if name == "keys":
        return I.Tup([k for k, v in o.content])
    if name == "values":
        return I.Tup([v for k, v in o.content])
    if name == "copy":
        return interp.new(st, o.but())
    if name == "update":
        v = c.val(0)
        add_ = ()
        if isinstance(v, I.Ref) and st.heap[v.id].kind == "dict":
            add_ = st.heap[v.id].content
        add_ = tuple(add_) + tuple((const(k), x) for k, x in c.kw.items())
        ks = [k for k, _ in add_]
        st.heap[recv.id] = o.but(content=tuple(x for x in o.content if x[0] not in ks) + add_)
        return NONE
    return mk("dictmeth", name, interp.term(recv, st), c.terms())


def list_method(interp, recv, lc, name, c):
    I = I_()
    st = c.st
    v0 = c.val(0)

    def put(new, how, **d):
        interp.set_list(recv, new, st)
        origin = st.heap[recv.id].origin if isinstance(recv, I.Ref) else "sym"
        c.emit("mutate", root=recv, origin=origin, how=how, **d)
    if name == "append":
        v = interp.store_value(v0, st)
        put(tuple(lc) + (("item", v),), "append", value=v)
        return NONE
    if name == "appendleft" or (name == "insert" and const_int(c.t(0)) == 0):
        v = interp.store_value(v0 if name == "appendleft" else c.val(1), st)
        put((("item", v),) + tuple(lc), "insert", value=v)
        return NONE
    if name == "insert":
        put([("rest", mk("listinsert", interp.lc_term(lc, st), c.t(0), c.t(1)))], "insert", value=c.val(1))
        return NONE
    if name == "extend":
        if isinstance(v0, (I.Ref, T)) and interp.as_list(v0, st) is not None:
            segs = tuple(interp.as_list(v0, st))
        else:
            xs = interp.concrete(v0, st)
            if xs is not None:
                segs = tuple(("item", x) for x in xs)
            else:
                it = interp.iterate(v0, st, c.env, c.node)
                if it is not None and it.items is None:
                    bv = mk("bv", interp.level, it.lo, it.hi)
                    segs = (("each", bv, it.guard(bv) if it.guard else TRUE, it.elem(bv)),)
                else:
                    segs = (("rest", interp.term(v0, st)),)
        put(tuple(lc) + segs, "extend")
        return NONE
    if name in ("pop", "popleft"):
        i = -1 if name == "pop" and not c.args else 0 if name == "popleft" else const_int(c.t(0))
        segs = list(lc)
        if i == -1 and segs:
            s = segs[-1]
            if s[0] == "item":
                put(segs[:-1], "pop", value=s[1])
                return s[1]
            if s[0] == "rest":
                v = mk("lastitem", s[1])
                put(segs[:-1] + [("rest", mk("butlast", s[1]))], "pop", value=v)
                return v
            if s[0] == "each" and s[2] is TRUE and isinstance(s[3], T):
                bv = s[1]
                hi = sub(bv.args[2], ONE)
                v = tm.subst(s[3], {bv: hi})
                nb = mk("bv", bv.args[0], bv.args[1], hi)
                put(segs[:-1] + [("each", nb, TRUE, tm.subst(s[3], {bv: nb}))], "pop", value=v)
                return v
        if i == 0 and segs:
            s = segs[0]
            if s[0] == "item":
                put(segs[1:], "pop", value=s[1])
                return s[1]
            if s[0] == "rest" and len(segs) == 1:
                v = mk("firstitem", s[1])
                put([("rest", mk("butfirst", s[1]))], "pop", value=v)
                return v
        t = interp.lc_term(lc, st)
        idx = c.t(0) if c.args else const(-1)
        v = mk("getitem", t, idx)
        put([("rest", mk("delitem", t, idx))], "pop", value=v)
        return v
    if name == "remove":
        t = c.t(0)
        segs = list(lc)
        for k, s in enumerate(segs):
            if s[0] != "item":
                break
            if interp.term(s[1], st) is t:
                put(segs[:k] + segs[k + 1:], "remove")
                return NONE
            if tm.eq(interp.term(s[1], st), t) is not FALSE:
                break
        if segs and all(s[0] == "item" for s in segs[-1:]) and interp.term(segs[-1][1], st) is t:
            # the last element is the one just appended
            put(segs[:-1], "remove")
            return NONE
        put([("rest", mk("listremove", interp.lc_term(lc, st), t))], "remove")
        return NONE
    if name == "clear":
        put((), "clear")
        return NONE
    if name in ("reverse", "sort"):
        put([("rest", mk("list" + name, interp.lc_term(lc, st)))], name)
        return NONE
    if name == "copy":
        return interp.new_list(st, lc)
    if name in ("index", "count"):
        return mk(name, interp.lc_term(lc, st), c.t(0))
    return None


def list_del(interp, v, lc, idx, st, env, node):
    n = const_int(idx)
    segs = list(lc)
    if idx is FULL or norm_index(idx) is FULL:
        new = ()
    elif n is not None and n >= 0 and len(segs) > n and all(s[0] == "item" for s in segs[: n + 1]):
        new = segs[:n] + segs[n + 1:]
    elif n == -1 and segs and segs[-1][0] == "item":
        new = segs[:-1]
    else:
        new = [("rest", mk("delitem", interp.lc_term(lc, st), idx))]
    interp.set_list(v, new, st)
    interp.emit(st, "mutate", env, node, root=v, origin="list", how="del")


def nd_method(interp, recv, t, name, c):
    st = c.st
    I = I_()
    if name == "copy" or name == "flatten":
        t2 = ravel(t) if name == "flatten" else t
        if kind_of(t2) == "list" or t.op in ("list",):
            return None
        return interp.new_arr(st, t2)
    if name == "astype":
        d = c.val(0, "dtype")
        if isinstance(d, I.Lib) and d.name in ("builtins.int", "numpy.int64", "numpy.int32", "numpy.int_"):
            return interp.new_arr(st, t if t.op == "fn" and t.args[0] in ("rint", "floor", "ceil") else tm.fn("int", t))
        return interp.new_arr(st, narrowed(interp, st, t, d))
    if name == "ravel":
        return view(interp, recv, "ravel", (), st)
    if name == "squeeze":
        return view(interp, recv, "squeeze", (), st)
    if name == "view":
        return view(interp, recv, "id", (), st)
    if name == "transpose":
        return view(interp, recv, "tr", (), st)
    if name == "reshape":
        sh = c.t(0) if len(c.args) == 1 else mk("tuple", *c.terms())
        return reshape(c, recv, sh)
    if name in ("min", "max", "sum", "mean", "std", "var", "prod", "all", "any", "argmin", "argmax", "ptp"):
        ax = c.t(0, "axis", NONE)
        r = red(name, t, ax, c.t(None, "keepdims", FALSE))
        return interp.new_arr(st, r) if ax is not NONE and kind_of(r) in ARR else r
    if name == "dot":
        return dot(t, c.arr(0))
    if name == "round":
        d = c.t(0, "decimals")
        return tm.fn("rint", t) if d is None or is_zero(d) else mk("rounddec", t, d)
    if name == "clip":
        return clip(t, c.t(0, "min"), c.t(1, "max"))
    if name == "fill":
        interp.mutate(recv, mk("fill", length(t), c.t(0)), st, c.env, c.node, "fill")
        return NONE
    if name in ("sort", "resize", "partition", "put"):
        interp.mutate(recv, mk("inplace_" + name, t, c.terms()), st, c.env, c.node, name)
        return NONE
    if name == "item":
        return t if not c.args else getitem(t, c.t(0))
    if name == "tolist":
        return mk("tolist", t)
    if name == "nonzero":
        return I.Tup([mk("nonzero", t)]) if kind_of(t) == "arr1" else mk("wherenz", t)
    return None
