"""Value-number terms with an arithmetic normal form.

A term is an interned node (op, args).  Arithmetic is kept as a polynomial with rational coefficients over
non-arithmetic atoms (exponents may be negative or fractional), so that algebraically equal expressions get the
same node.  Nothing here evaluates program code: terms only name values.
"""
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, float)) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_TABLE)
        t._h = hash(key)
        _TABLE[key] = t
    return t


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis or isinstance(v, complex):
        return mk("const", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr(v), "float")
        return mk("num", Fraction(repr(v)))
    if isinstance(v, (int, Fraction)):
        return mk("num", Fraction(v))
    return mk("const", repr(v), type(v).__name__)


INF = const(float("inf"))
NINF = const(float("-inf"))
NAN = const(float("nan"))
NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_num(t):
    return isinstance(t, T) and t.op == "num"


def num_val(t):
    return t.args[0] if is_num(t) else None


def is_const(t):
    return isinstance(t, T) and t.op in ("num", "const")


def py_const(t):
    """(ok, value) for constants."""
    if not isinstance(t, T):
        return False, None
    if t.op == "num":
        f = t.args[0]
        return True, int(f) if f.denominator == 1 else float(f)
    if t.op == "const":
        if len(t.args) == 2:
            return (True, float(t.args[0])) if t.args[1] == "float" else (False, None)
        return True, t.args[0]
    return False, None


# ------------------------------------------------------------------ polynomials
def as_poly(t):
    """dict: monomial -> Fraction; monomial = tuple of (atom, exponent)."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const" and t.args[0] is True:
        return {(): Fraction(1)}
    if t.op == "const" and t.args[0] is False:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items)


def add(a, b):
    if a in (INF, NINF, NAN) or b in (INF, NINF, NAN):
        if is_num(b):
            return a
        if is_num(a):
            return b
    da = as_poly(a)
    for m, c in as_poly(b).items():
        da[m] = da.get(m, 0) + c
    return from_poly(da)


def scale(a, k):
    if a is INF or a is NINF:
        return a if k > 0 else (NINF if a is INF else INF)
    return from_poly({m: c * k for m, c in as_poly(a).items()})


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "psum" and e.denominator == 1 and e > 0:
            p = a.args[0]
            for _ in range(int(e)):
                extra = p if extra is None else mul(extra, p)
            continue
        out.append((a, e))
    return tuple(sorted(out, key=lambda ae: ae[0].id)), extra


def mul(a, b):
    if a in (INF, NINF) and is_num(b):
        return a if num_val(b) > 0 else neg(a)
    if b in (INF, NINF) and is_num(a):
        return b if num_val(a) > 0 else neg(b)
    da, db = as_poly(a), as_poly(b)
    if len(da) > 1 or len(db) > 1:  # cancel common inverse sums before expanding
        for x, y in ((a, b), (b, a)):
            r = _cancel(x, y)
            if r is not None:
                return r
    out = {}
    rest = None
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m, extra = _mul_mono(m1, m2)
            if extra is None:
                out[m] = out.get(m, 0) + c1 * c2
            else:
                t = mul(from_poly({m: c1 * c2}), extra)
                rest = t if rest is None else add(rest, t)
    r = from_poly(out)
    return r if rest is None else add(r, rest)


def _cancel(x, y):
    """x is a sum; y is a single monomial holding an inverse power of the same sum."""
    dx, dy = as_poly(x), as_poly(y)
    if len(dx) < 2 or len(dy) != 1:
        return None
    k, mon = _monic(x)
    (m, c), = dy.items()
    for a, e in m:
        if a.op == "psum" and e < 0 and a.args[0] is mon:
            m2 = tuple((b, f) for b, f in m if b is not a)
            t = from_poly({m2: c * k})
            return mul(t, powq(mon, e + 1)) if e + 1 != 0 else t
    return None


def _monic(p):
    """(leading coefficient, monic polynomial term)"""
    d = as_poly(p)
    # the constant monomial is never the leading one unless it is the only one
    nonc = [m for m in d if m != ()]
    lead = min(nonc, key=lambda m: tuple((a.id, e) for a, e in m)) if nonc else ()
    k = d[lead]
    return k, from_poly({m: c / k for m, c in d.items()})


def _cpow(c, q):
    """constant to a rational power: exact Fraction or None"""
    if q.denominator == 1:
        return c ** int(q) if (c != 0 or q > 0) else None
    if c > 0:
        n, d = c.numerator, c.denominator
        import math

        def root(v, k):
            r = round(v ** (1.0 / k))
            for s in (r - 1, r, r + 1):
                if s >= 0 and s ** k == v:
                    return s
            return None

        rn, rd = root(n, q.denominator), root(d, q.denominator)
        if rn is not None and rd is not None and rd != 0:
            return Fraction(rn, rd) ** q.numerator
    return None


def powq(a, q):
    """a ** q for a rational constant q"""
    q = Fraction(q)
    if q == 1:
        return a
    if q == 0:
        return ONE
    if a is INF:
        return INF if q > 0 else ZERO
    d = as_poly(a)
    if not d:
        return ZERO if q > 0 else INF
    if len(d) == 1:
        (m, c), = d.items()
        ck = _cpow(c, q)
        if ck is None:
            if c == 1:
                ck = Fraction(1)
        coeff_atom = None
        if ck is None:
            coeff_atom = mk("cpow", c)
            ck = Fraction(1)
        out = []
        for at, e in m:
            ne = e * q
            if at.op == "psum" and ne.denominator == 1 and ne > 0:
                out.append((at, ne))
                continue
            if q.denominator != 1 and e.denominator == 1 and int(e) % 2 == 0:
                at = absv(at)
                if at.op == "poly":
                    return mk("pow", a, const(q))
            out.append((at, ne))
        if coeff_atom is not None:
            out.append((coeff_atom, q))
        m2, extra = _mul_mono(tuple(out), ())
        t = from_poly({m2: ck})
        return t if extra is None else mul(t, extra)
    if q.denominator == 1 and 0 < q <= 4 and len(d) <= 8:
        r = a
        for _ in range(int(q) - 1):
            r = mul(r, a)
        return r
    k, mon = _monic(a)
    ck = _cpow(k, q)
    if ck is None:
        k, mon, ck = Fraction(1), a, Fraction(1)
    at = mk("psum", mon)
    return from_poly({((at, q),): ck})


def div(a, b):
    if a is b and not is_num(a):
        return ONE
    if is_num(b) and num_val(b) == 0:
        return mk("divzero", a)
    if b in (INF, NINF):
        return ZERO
    ka, ma = _monic(a) if as_poly(a) else (Fraction(0), None)
    if ma is not None and not is_num(b):
        kb, mb = _monic(b)
        if ma is mb:
            return const(ka / kb)
    return mul(a, powq(b, -1))


def power(a, e):
    ok, v = py_const(e)
    if ok and isinstance(v, (int, float)) and not isinstance(v, bool) and is_num(e):
        return powq(a, num_val(e))
    # symbolic exponent
    base, ex, inv = a, e, False
    if is_num(base) and 0 < num_val(base) < 1 and num_val(base).numerator == 1:
        base, inv = const(1 / num_val(base)), not inv
    if not is_const(ex):
        k, _ = _monic(ex)
        if k < 0:
            ex, inv = neg(ex), not inv
    if is_num(base) and num_val(base) == 1:
        return ONE
    at = mk("pow", base, ex)
    return from_poly({((at, Fraction(-1 if inv else 1)),): Fraction(1)})


def _lead_neg(a):
    if is_num(a):
        return num_val(a) < 0
    if not as_poly(a):
        return False
    k, _ = _monic(a)
    return k < 0


def absv(a):
    if is_num(a):
        return const(abs(num_val(a)))
    if a.op == "fn" and a.args[0] == "abs":
        return a
    d = as_poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c < 0 or c != 1:
            return scale(absv(from_poly({m: Fraction(1)})), abs(c))
        if all(e.denominator == 1 and int(e) % 2 == 0 for _, e in m):
            return a
    elif _lead_neg(a):
        a = neg(a)
    return mk("fn", "abs", a)


_ODD = {"sin", "tan", "arcsin", "arctan", "sinh", "tanh"}
_EVEN = {"cos", "cosh"}


def fn(name, *args):
    a = args[0]
    if name == "sqrt":
        return powq(a, Fraction(1, 2))
    if name in ("abs", "fabs", "absolute"):
        return absv(a)
    if name == "square":
        return powq(a, 2)
    if name == "exp" and is_num(a) and num_val(a) == 0:
        return ONE
    if name == "exp" and len(args) == 1 and a is ONE:
        return mk("const_e")
    if name == "log" and is_num(a) and num_val(a) == 1:
        return ZERO
    if name in _ODD and len(args) == 1 and _lead_neg(a):
        return neg(fn(name, neg(a)))
    if name in _EVEN and len(args) == 1 and _lead_neg(a):
        a = neg(a)
        return mk("fn", name, a)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        name = {"fmax": "maximum", "fmin": "minimum"}.get(name, name)
        flat = []
        for x in args:
            flat.extend(x.args[1:] if x.op == "fn" and x.args[0] == name else [x])
        flat = sorted(set(flat), key=lambda x: x.id)
        nums = [x for x in flat if is_num(x)]
        if len(nums) > 1:
            pick = max(nums, key=num_val) if name == "maximum" else min(nums, key=num_val)
            flat = [x for x in flat if not is_num(x)] + [pick]
        if len(flat) == 1:
            return flat[0]
        return mk("fn", name, *flat)
    return mk("fn", name, *args)


# ------------------------------------------------------------------ booleans
def _norm_rel(p):
    """scale by positive factor so that equal half-spaces coincide"""
    if is_num(p) or p in (INF, NINF, NAN):
        return p
    k, mon = _monic(p)
    return mon if k > 0 else neg(mon)


def lt(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if b is INF and not is_const(a):
        return mk("lt", a, b)
    if a is NINF and not is_const(b):
        return mk("lt", a, b)
    if a in (INF, NINF) or b in (INF, NINF):
        ok1, v1 = py_const(a)
        ok2, v2 = py_const(b)
        if ok1 and ok2:
            return const(v1 < v2)
        return mk("lt", a, b)
    p = sub(a, b)
    if is_num(p):
        return const(num_val(p) < 0)
    return mk("lt0", _norm_rel(p))


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a in (INF, NINF) or b in (INF, NINF):
        ok1, v1 = py_const(a)
        ok2, v2 = py_const(b)
        if ok1 and ok2:
            return const(v1 <= v2)
        return mk("le", a, b)
    p = sub(a, b)
    if is_num(p):
        return const(num_val(p) <= 0)
    return mk("le0", _norm_rel(p))


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        ok1, v1 = py_const(a)
        ok2, v2 = py_const(b)
        if ok1 and ok2:
            return const(v1 == v2)
        return FALSE
    arith = ("num", "poly")
    if (a.op in arith or b.op in arith) and a.op != "const" and b.op != "const" \
            and a.op not in ("tuple", "list") and b.op not in ("tuple", "list"):
        p = sub(a, b)
        if is_num(p):
            return const(num_val(p) == 0)
        _, mon = _monic(p)
        return mk("eq0", mon)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def bnot(a):
    if a.op == "const":
        ok, v = py_const(a)
        return const(not v)
    if a.op == "num":
        return const(num_val(a) == 0)
    if a.op == "not":
        return a.args[0]
    if a.op == "lt0":
        return mk("le0", _norm_rel(neg(a.args[0])))
    if a.op == "le0":
        return mk("lt0", _norm_rel(neg(a.args[0])))
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    if a.op == "red" and a.args[0] == "all":
        return mk("red", "any", bnot(a.args[1]), *a.args[2:])
    if a.op == "red" and a.args[0] == "any":
        return mk("red", "all", bnot(a.args[1]), *a.args[2:])
    return mk("not", a)


def _flat(op, xs):
    out = []
    for x in xs:
        out.extend(x.args if x.op == op else [x])
    return out


def band(*xs):
    xs = _flat("and", xs)
    if any(x is FALSE for x in xs):
        return FALSE
    xs = sorted({x for x in xs if x is not TRUE}, key=lambda x: x.id)
    for x in xs:
        if bnot(x) in xs:
            return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else mk("and", *xs)


def bor(*xs):
    xs = _flat("or", xs)
    if any(x is TRUE for x in xs):
        return TRUE
    xs = sorted({x for x in xs if x is not FALSE}, key=lambda x: x.id)
    for x in xs:
        if bnot(x) in xs:
            return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else mk("or", *xs)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    # max/min idioms
    if c.op in ("lt0", "le0") and a.op not in ("const", "tuple") and b.op not in ("const", "tuple"):
        p = c.args[0]
        d = sub(a, b)
        if not is_num(d):
            nd = _norm_rel(d)
            if nd is p:  # a < b ? a : b
                return fn("minimum", a, b)
            if nd is _norm_rel(neg(p)):
                return fn("maximum", a, b)
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def contains_t(t, u):
    return any(x is u for x in subterms(t))


def _same_arg(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_same_arg(x, y) for x, y in zip(a, b))
    return not isinstance(a, (T, tuple)) and type(a) is type(b) and a == b



def rebuild(t, f, memo=None):
    """Bottom-up rewriting: f(term)->term or None (None: rebuild from the rewritten arguments)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            if x.args:
                na = tuple(go(y) for y in x.args)
                r = x if all(_same_arg(a, b) for a, b in zip(na, x.args)) else renorm(x.op, na)
            else:
                r = x
        memo[x] = r
        return r

    return go(t)


def renorm(op, args):
    if op == "poly":
        acc = {}
        for m, c in args[0]:
            p = const(c)
            for a, e in m:
                p = mul(p, powq(a, e))
            if p.op == "const":  # infinities
                tot = ZERO
                for m2, c2 in args[0]:
                    q = const(c2)
                    for a, e in m2:
                        q = mul(q, powq(a, e))
                    tot = add(tot, q)
                return tot
            for k, v in as_poly(p).items():
                acc[k] = acc.get(k, 0) + v
        return from_poly(acc)
    if op == "psum":
        return args[0] if len(as_poly(args[0])) <= 1 else mk("psum", args[0])
    if op == "fn":
        return fn(*args)
    if op == "pow":
        return power(*args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "le0":
        return le(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return bnot(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "ite":
        return ite(*args)
    if op in _RENORM:
        return _RENORM[op](*args)
    return mk(op, *args)


_RENORM = {}  # filled by models


def subst(t, mapping):
    return rebuild(t, lambda x: mapping.get(x))


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth > 12:
        return "..."
    d = depth + 1
    if t.op == "num":
        f = t.args[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if t.op == "const":
        return t.args[0] if len(t.args) == 2 else repr(t.args[0])
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "poly":
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                s = show(a, d)
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            if c == 1 and fs:
                out.append("*".join(fs))
            elif c == -1 and fs:
                out.append("-" + "*".join(fs))
            else:
                cs = str(c) if c.denominator == 1 else repr(float(c))
                out.append("*".join([cs] + fs))
        return "(" + " + ".join(out) + ")"
    if t.op == "psum":
        return show(t.args[0], d)
    if t.op == "lt0":
        return "%s < 0" % show(t.args[0], d)
    if t.op == "le0":
        return "%s <= 0" % show(t.args[0], d)
    if t.op == "eq0":
        return "%s == 0" % show(t.args[0], d)
    if t.op == "eq":
        return "%s == %s" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "attr":
        return "%s.%s" % (show(t.args[0], d), t.args[1])
    if t.op == "getitem":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, d) for x in t.args[1:]))
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.args))
