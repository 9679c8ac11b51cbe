"""K03-K05: randomness, shared state and name/attribute/signature consistency, by name resolution and flow-insensitive
dataflow over every module, and by the unbound-name, missing-attribute and bad-call events of the abstract interpreter."""
import ast
import builtins
import symtable
from .common import *
from ..frontend import ClassInfo, import_bindings
from .. import ext

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


# ------------------------------------------------------------------ scopes and resolution
class Scope:
    """a function (or module / class body) with its imports, assignments and parent"""

    def __init__(self, node, module, cls=None, parent=None, name=""):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = name or getattr(node, "name", "<module>" if isinstance(node, ast.Module) else "<lambda>")
        self.qual = (parent.qual + "." if parent and not isinstance(parent.node, ast.Module) else module.name + ".") + self.name
        self.params = {}
        self.assigned = {}  # name -> list of value expressions (None: unknown)
        self.imports = {}
        self.globals = set()
        self.nonlocals = set()
        if isinstance(node, FUNCS):
            a = node.args
            pos = a.posonlyargs + a.args
            for x, d in zip(pos, [None] * (len(pos) - len(a.defaults)) + list(a.defaults)):
                self.params[x.arg] = d
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                self.params[x.arg] = d
            for x in (a.vararg, a.kwarg):
                if x:
                    self.params[x.arg] = None
        self.own = list(own_nodes(node))
        for n in self.own:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self.bind(n.target, None)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.bind(n.target, None)
            elif isinstance(n, ast.comprehension):
                self.bind(n.target, None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.assigned.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_bindings(n, module))
            elif isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not node:
                self.assigned.setdefault(n.name, []).append(n)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.assigned.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                w = v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None
                self.bind(e, w)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None)

    def self_name(self):
        """name of the receiver, seen from here"""
        s = self
        while s is not None:
            if isinstance(s.node, FUNCS) and s.parent is not None and isinstance(s.parent.node, ast.ClassDef):
                static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in s.node.decorator_list)
                ps = list(s.params)
                return ps[0] if ps and not static else None
            s = s.parent
        return None

    def method(self):
        s = self
        while s is not None:
            if isinstance(s.node, FUNCS) and s.parent is not None and isinstance(s.parent.node, ast.ClassDef):
                return s
            s = s.parent
        return None

    def where(self, n=None):
        return "%s:%d %s" % (self.module.rel, getattr(n, "lineno", getattr(self.node, "lineno", 1)), self.qual.split(".", 1)[-1])


def own_nodes(node):
    """nodes of a scope without those of nested functions and classes"""
    todo = [node]
    first = True
    while todo:
        n = todo.pop()
        if not first and isinstance(n, FUNCS + (ast.ClassDef,)):
            yield n
            # defaults and decorators belong to the enclosing scope
            if isinstance(n, FUNCS):
                todo += [d for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]]
            if not isinstance(n, ast.Lambda):
                todo += n.decorator_list
            if isinstance(n, ast.ClassDef):
                todo += n.bases + [k.value for k in n.keywords]
            continue
        if not first:
            yield n
        if first and isinstance(n, FUNCS):
            kids = n.body if isinstance(n.body, list) else [n.body]
        elif first and isinstance(n, ast.ClassDef):
            kids = n.body
        else:
            kids = list(ast.iter_child_nodes(n))
        first = False
        todo += list(reversed(kids))


class Prog:
    def __init__(self, p):
        self.p = p
        self.scopes = []
        self.by_class = {}
        for m in p.modules.values():
            self.scan(m.tree, m, None, None)
        self.attr_vals = {}   # (class qual, attr) -> [(value expr, scope)]
        for s in self.scopes:
            me = s.self_name()
            if me is None or s.cls is None:
                continue
            for n in s.own:
                for t, v in targets(n):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        self.attr_vals.setdefault((s.cls.qual, t.attr), []).append((v, s, n))

    def scan(self, node, m, cls, parent):
        s = Scope(node, m, cls, parent)
        self.scopes.append(s)
        for n in s.own:
            if isinstance(n, ast.ClassDef):
                ci = m.names.get(n.name) if parent is None else None
                if not isinstance(ci, ClassInfo) or ci.node is not n:
                    ci = ClassInfo(n, m)
                self.scan(n, m, ci, s)
            elif isinstance(n, FUNCS):
                self.scan(n, m, s.cls, s)

    def functions(self):
        return [s for s in self.scopes if isinstance(s.node, FUNCS)]

    def lookup(self, s, name):
        """('local', scope) | ('param', scope) | ('import', binding) | module-level resolution | ('builtin', name) | None"""
        q = s
        while q is not None and not isinstance(q.node, ast.Module):
            if not (isinstance(q.node, ast.ClassDef) and q is not s):
                if name in q.globals:
                    break
                if name in q.imports:
                    return ("import", q.imports[name])
                if name in q.assigned:
                    return ("local", q)
                if name in q.params:
                    return ("param", q)
            q = q.parent
        r = self.p.resolve(s.module, name)
        if r is not None:
            return ("top", r)
        if hasattr(builtins, name):
            return ("builtin", name)
        return None

    def dotted(self, s, e, depth=0):
        """dotted name of an external object an expression denotes, a FuncInfo/ClassInfo of the package, or None"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            r = self.lookup(s, e.id)
            if r is None:
                return None
            k, v = r
            if k == "import":
                return self.import_target(v)
            if k == "builtin":
                return "builtins." + v
            if k == "top":
                if isinstance(v, tuple) and v[0] == "lib":
                    return v[1]
                if isinstance(v, tuple) and v[0] == "const":
                    mod = [q for q in self.scopes if isinstance(q.node, ast.Module) and q.module is v[2]]
                    return self.dotted(mod[0], v[1], depth + 1) if mod and isinstance(v[1], (ast.Name, ast.Attribute)) else None
                if isinstance(v, tuple) and v[0] == "modref":
                    return v[1]
                return v
            if k == "local":
                vs = v.assigned[e.id]
                if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                    return self.dotted(v, vs[0], depth + 1)
                if len(vs) == 1 and isinstance(vs[0], ast.Call):
                    d = self.dotted(v, vs[0].func, depth + 1)
                    if d == "builtins.getattr":
                        return self.dotted(v, vs[0], depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(s, e.value, depth + 1)
            if isinstance(b, str):
                return b + "." + e.attr
            if isinstance(b, ModuleInfo):
                r = self.p.resolve(b, e.attr)
                if isinstance(r, tuple) and r[0] == "lib":
                    return r[1]
                if isinstance(r, tuple) and r[0] == "modref":
                    return r[1]
                return r if not isinstance(r, tuple) else None
            if isinstance(b, ClassInfo):
                return self.p.find_method(b, e.attr)
            return None
        if isinstance(e, ast.Call):
            d = self.dotted(s, e.func, depth + 1)
            if d == "builtins.getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                b = self.dotted(s, e.args[0], depth + 1)
                return b + "." + str(e.args[1].value) if isinstance(b, str) else None
            if d == "importlib.import_module" or d == "builtins.__import__":
                if e.args and isinstance(e.args[0], ast.Constant):
                    return str(e.args[0].value)
        return None

    def import_target(self, b):
        r = self.p.resolve_import(b)
        if isinstance(r, tuple) and r[0] == "lib":
            return r[1]
        if isinstance(r, tuple) and r[0] == "modref":
            return r[1]
        if isinstance(r, tuple):
            return None
        return r


def targets(n):
    if isinstance(n, ast.Assign):
        for t in n.targets:
            yield from flat(t, n.value)
    elif isinstance(n, ast.AnnAssign):
        if n.value is not None:
            yield from flat(n.target, n.value)
    elif isinstance(n, ast.AugAssign):
        yield n.target, None
    elif isinstance(n, (ast.For, ast.comprehension)):
        yield from flat(n.target, None)
    elif isinstance(n, (ast.With,)):
        for i in n.items:
            if i.optional_vars is not None:
                yield from flat(i.optional_vars, i.context_expr)
    elif isinstance(n, ast.NamedExpr):
        yield n.target, n.value


def flat(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        for i, e in enumerate(t.elts):
            yield from flat(e, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None)
    elif isinstance(t, ast.Starred):
        yield from flat(t.value, None)
    else:
        yield t, v


_PROG = {}


def prog(p):
    if p not in _PROG:
        _PROG[p] = Prog(p)
    return _PROG[p]


def parents(s):
    """node -> parent within the scope"""
    out = {}
    for n in [s.node] + s.own:
        for k in ast.iter_child_nodes(n):
            out[k] = n
    return out


# ------------------------------------------------------------------ K03
GLOBAL_RNG = {"rand", "randn", "randint", "random", "random_sample", "ranf", "sample", "uniform", "normal", "standard_normal", "choice", "shuffle", "permutation", "beta", "binomial",
              "exponential", "gamma", "poisson", "lognormal", "multivariate_normal", "random_integers", "bytes", "triangular", "standard_t", "chisquare", "dirichlet", "geometric",
              "gumbel", "laplace", "logistic", "weibull", "vonmises", "pareto", "power", "rayleigh", "wald", "zipf", "multinomial", "hypergeometric", "f", "logseries",
              "negative_binomial", "noncentral_chisquare", "noncentral_f", "standard_cauchy", "standard_exponential", "standard_gamma"}
RESEED = {"seed": "reseeds", "set_state": "replaces the state of"}
OWN_RNG = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937",
           "numpy.random.Philox", "numpy.random.SFC64", "numpy.random.PCG64DXSM", "random.Random", "random.SystemRandom", "numpy.random.mtrand.RandomState"}
OS_RNG = ("os.urandom", "os.getrandom", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.getpid", "os.getppid", "threading.get_ident", "threading.get_native_id", "random.SystemRandom",
          "multiprocessing.current_process", "os.times", "os.getloadavg")
TIME = ("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "time.clock", "time.localtime", "time.gmtime",
        "time.ctime", "time.strftime", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "timeit.default_timer", "time.thread_time")
SELF_SEEDED = {"pyDOE2.lhs": 4, "pyDOE.lhs": None, "scipy.stats.qmc.LatinHypercube": None, "scipy.stats.qmc.Sobol": None, "scipy.stats.qmc.Halton": None, "scipy.stats.qmc.PoissonDisk": None,
               "pyDOE2.doe_lhs.lhs": 4, "scipy.stats.qmc.MultinomialQMC": None}
SEED_KW = ("random_state", "seed", "rng")
ORDERED_SINKS = ("list", "tuple", "enumerate", "next", "iter", "zip", "map")


def seed_source(P, s, e, depth=0):
    """where the value of a seed expression comes from: 'global' (drawn from or being NumPy's global state), 'none', 'fixed', 'own', None"""
    if e is None or depth > 6:
        return None
    if isinstance(e, ast.Constant):
        return "none" if e.value is None else "fixed"
    if isinstance(e, ast.UnaryOp):
        return seed_source(P, s, e.operand, depth + 1)
    if isinstance(e, ast.Call):
        d = P.dotted(s, e.func)
        if isinstance(d, str):
            if d.startswith("numpy.random.") and d.split(".")[-1] in GLOBAL_RNG and d.count(".") == 2:
                return "global"
            if d in OWN_RNG:
                a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg in ("seed", "random_state")), None)
                r = seed_source(P, s, a, depth + 1) if a is not None else "own"
                return {"none": "own"}.get(r, r)
            if d.startswith(("builtins.", "numpy.")):
                rs = [seed_source(P, s, a, depth + 1) for a in e.args]
                return join_src(rs)
            if d in TIME or d.startswith(OS_RNG):
                return "own"
        if isinstance(e.func, ast.Attribute):
            return seed_source(P, s, e.func.value, depth + 1)
        return None
    if isinstance(e, (ast.Attribute, ast.Name)):
        d = P.dotted(s, e)
        if d in ("numpy.random", "numpy.random.mtrand._rand", "numpy.random.mtrand"):
            return "global"
    if isinstance(e, ast.Name):
        r = P.lookup(s, e.id)
        if r and r[0] == "local":
            return join_src([seed_source(P, r[1], v, depth + 1) for v in r[1].assigned[e.id]])
        if r and r[0] == "param":
            d = r[1].params.get(e.id)
            if d is None:  # a quantity of the problem is no source of randomness, a generator handed in by the caller is the caller's choice
                return None if any(w in e.id.lower() for w in ("seed", "rand", "rng", "gen", "state", "bit")) or e.id in ("self", "cls") else "fixed"
            return seed_source(P, r[1], d, depth + 1)
        return None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        r = P.lookup(s, e.value.id)
        o = r[1] if r and r[0] == "param" else s  # the method whose instance it is, also from a function nested in it
        if o.cls is None or e.value.id != o.self_name():
            return None
        vs = [x for c in P.p.mro(o.cls) for x in P.attr_vals.get((c.qual, e.attr), [])]
        return join_src([seed_source(P, q, v, depth + 1) for v, q, _ in vs]) if vs else None
    if isinstance(e, ast.BinOp):
        return join_src([seed_source(P, s, e.left, depth + 1), seed_source(P, s, e.right, depth + 1)])
    if isinstance(e, ast.Subscript):
        return seed_source(P, s, e.value, depth + 1)
    if isinstance(e, ast.IfExp):
        rs = [seed_source(P, s, e.body, depth + 1), seed_source(P, s, e.orelse, depth + 1)]
        return "fixed" if "fixed" in rs else join_src(rs)
    return None


def join_src(rs):
    if not rs:
        return None
    if "own" in rs:
        return "own"
    if "global" in rs:
        return "global"
    if all(r == "fixed" for r in rs):
        return "fixed"
    if all(r in ("none",) for r in rs):
        return "none"
    if all(r in ("none", "fixed") for r in rs):
        return "fixed"
    return None


def only_logged(P, s, n, par, depth=0):
    """does the value of the expression only reach log or print calls?"""
    q = par.get(n)
    while isinstance(q, (ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue, ast.Tuple, ast.keyword)):
        n, q = q, par.get(q)
    if isinstance(q, ast.Expr):
        return True
    if isinstance(q, ast.Call) and n is not q.func:
        d = P.dotted(s, q.func)
        if isinstance(d, str) and d in ("builtins.print",):
            return True
        if isinstance(q.func, ast.Attribute) and q.func.attr in ("debug", "info", "warning", "error", "exception", "log", "critical"):
            return True
        if isinstance(q.func, ast.Attribute) and q.func.attr == "format" or isinstance(d, str) and d in ("builtins.str", "builtins.round", "builtins.repr"):
            return only_logged(P, s, q, par, depth + 1)
        return False
    if isinstance(q, ast.Attribute) and isinstance(par.get(q), ast.Call):
        return only_logged(P, s, par[q], par, depth + 1)
    if isinstance(q, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and depth < 4:
        ts = [t for t, _ in targets(q)]
        for t in ts:
            if isinstance(t, ast.Name):
                for m in s.own:
                    if isinstance(m, ast.Name) and m.id == t.id and isinstance(m.ctx, ast.Load) and not only_logged(P, s, m, par, depth + 1):
                        return False
            elif isinstance(t, ast.Attribute):
                for s2 in P.scopes:
                    for m in s2.own:
                        if isinstance(m, ast.Attribute) and m.attr == t.attr and isinstance(m.ctx, ast.Load) and not only_logged(P, s2, m, parents(s2), depth + 1):
                            return False
            else:
                return False
        return True
    return False


def is_set(P, s, e, depth=0):
    """is the expression certainly a set?"""
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        d = P.dotted(s, e.func)
        if d in ("builtins.set", "builtins.frozenset"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
            return is_set(P, s, e.func.value, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(P, s, e.left, depth + 1) or is_set(P, s, e.right, depth + 1) and isinstance(e.op, ast.BitXor)
    if isinstance(e, ast.Name) and depth < 4:
        r = P.lookup(s, e.id)
        if r and r[0] == "local":
            vs = r[1].assigned[e.id]
            return bool(vs) and all(v is not None and not isinstance(v, (ast.FunctionDef, ast.ClassDef)) and is_set(P, r[1], v, depth + 1) for v in vs)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and s.cls is not None and e.value.id == s.self_name() and depth < 4:
        vs = [x for c in P.p.mro(s.cls) for x in P.attr_vals.get((c.qual, e.attr), [])]
        return bool(vs) and all(v is not None and is_set(P, q, v, depth + 1) for v, q, _ in vs)
    return False


def rule_K03(p, rep, tier, seed):
    rep.rule = ("every call is resolved: random draws only through numpy.random's global functions or library functions drawing from them; no seed/state change, own generator, "
                "OS entropy, clock, identity or hash value, and no order-dependent use of a set")
    P = prog(p)
    draws = 0
    for s in P.scopes:
        rep.unit(s.qual)
        par = None
        for n in s.own:
            if isinstance(n, ast.Call):
                d = P.dotted(s, n.func)
                w = s.where(n)
                if isinstance(d, str):
                    par = par or parents(s)
                    if random_call(P, rep, s, n, d, w, par):
                        draws += 1
                for k in n.keywords:
                    if k.arg in SEED_KW and not (isinstance(d, str) and d in OWN_RNG):
                        r = seed_source(P, s, k.value)
                        key = "%s: the generator given to a call is NumPy's global one" % s.qual
                        rep.check(key, w, True if r in ("global", "none") else False if r in ("fixed", "own") else None, "%s=%s is %s" % (k.arg, ast.unparse(k.value), {"fixed": "a fixed seed", "own": "a separate generator"}.get(r, "unknown")))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and not isinstance((par or {}).get(n), ast.Call):
                d = P.dotted(s, n)
                if isinstance(d, str) and (d in OWN_RNG or d.startswith("random.") or d.startswith("secrets.")):
                    par = par or parents(s)
                    if not isinstance(par.get(n), (ast.Attribute, ast.Call)) and not in_isinstance(par, n):
                        rep.check("%s: uses only NumPy's global generator" % s.qual, s.where(n), None, d)
            for t, v in targets(n):
                if isinstance(t, ast.Attribute) and t.attr == "random_state":
                    r = seed_source(P, s, v)
                    rep.check("%s: the generator given to an object is NumPy's global one" % s.qual, s.where(n), True if r in ("global", "none") else False if r in ("fixed", "own") else None, ast.unparse(t))
            unordered(P, rep, s, n)
        if isinstance(s.node, FUNCS):
            rep.proven("%s: calls resolved" % s.qual, s.where())
    if not draws:
        raise AnalysisBroken("no random draw found in the package")


def in_isinstance(par, n):
    q = par.get(n)
    while isinstance(q, ast.Tuple):
        q = par.get(q)
    return isinstance(q, ast.Call)


def random_call(P, rep, s, n, d, w, par):
    last = d.split(".")[-1]
    if d.startswith("numpy.random."):
        if last in RESEED and d.count(".") == 2:
            rep.refute("%s: never changes the global random state" % s.qual, w, "%s %s NumPy's global generator" % (d, RESEED[last]))
            return True
        if d in OWN_RNG:
            r = seed_source(P, s, n)
            rep.check("%s: uses only NumPy's global generator" % s.qual, w, True if r == "global" else False if r in ("own", "fixed") else None, "%s creates a generator of its own" % d)
            return True
        if last in GLOBAL_RNG:
            rep.proven("%s: %s draws from the global generator" % (s.qual, last), w)
            return True
    if d.startswith("random.") or d.startswith("secrets."):
        rep.refute("%s: uses only NumPy's global generator" % s.qual, w, "%s bypasses NumPy's global generator" % d)
        return True
    if d in OS_RNG or d.startswith(tuple(x for x in OS_RNG if x.endswith("."))):
        rep.check("%s: depends on no process identity or system entropy" % s.qual, w, True if only_logged(P, s, n, par) else False, d)
    if d in TIME:
        rep.check("%s: depends on no clock" % s.qual, w, True if only_logged(P, s, n, par) else False, d + " influences the computation")
    if d in ("builtins.id", "builtins.hash") and s.name not in ("__hash__", "__eq__"):
        q = par.get(n)
        rep.check("%s: depends on no object identity or hash" % s.qual, w, True if isinstance(q, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq)) for o in q.ops) or only_logged(P, s, n, par) else False,
                  "the value of %s differs between runs" % d.split(".")[1])
    if d in SELF_SEEDED:
        i = SELF_SEEDED[d]
        kw = next((k.value for k in n.keywords if k.arg in SEED_KW), n.args[i] if i is not None and len(n.args) > i else None)
        star = any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args)
        r = seed_source(P, s, kw) if kw is not None else "none"
        key = "%s: %s draws from NumPy's global generator" % (s.qual, last)
        if kw is None and star:
            rep.unknown(key, w, "arguments not resolved")
        else:
            rep.check(key, w, True if r == "global" else False if r in ("none", "own", "fixed") else None, "%s is given %s" % (d, {"none": "no seed, so it draws from a fresh generator", "fixed": "a fixed seed", "own": "a separate generator"}.get(r, "?")))
        return True
    if d in ("os.listdir", "glob.glob", "os.scandir", "glob.iglob"):
        q = par.get(n)
        rep.check("%s: no order of unordered collections" % s.qual, w, True if isinstance(q, ast.Call) and P.dotted(s, q.func) in ("builtins.sorted", "builtins.len", "builtins.set") else None, d)
    return False


def unordered(P, rep, s, n):
    key = "%s: no order of unordered collections" % s.qual
    if isinstance(n, ast.Call):
        d = P.dotted(s, n.func)
        if isinstance(d, str) and n.args and is_set(P, s, n.args[0]):
            last = d.split(".")[-1]
            if d.startswith("builtins.") and last in ORDERED_SINKS:
                par = parents(s)
                q = par.get(n)
                if isinstance(q, ast.Call) and P.dotted(s, q.func) in ("builtins.sorted", "builtins.set", "builtins.len", "builtins.sum", "builtins.min", "builtins.max", "numpy.sort", "numpy.unique"):
                    return
                if last in ("list", "tuple") and sorted_later(P, s, n, par):
                    return
                rep.refute(key, s.where(n), "%s(%s) depends on the order of a set" % (last, ast.unparse(n.args[0])[:60]))
            elif d.startswith("numpy.") and last in ("array", "asarray", "fromiter"):
                rep.refute(key, s.where(n), "%s over a set" % d)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and is_set(P, s, n.func.value):
            rep.refute(key, s.where(n), "takes an arbitrary element of %s" % ast.unparse(n.func.value))
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and any(is_set(P, s, g.iter) for g in n.generators):
        par = parents(s)
        q = par.get(n)
        if isinstance(q, ast.Call) and P.dotted(s, q.func) in ("builtins.sorted", "builtins.set", "builtins.len", "builtins.sum", "builtins.min", "builtins.max", "builtins.any", "builtins.all"):
            return
        rep.check(key, s.where(n), False if isinstance(n, ast.ListComp) and not sorted_later(P, s, n, par) else None, "a list in the order of a set")
    if isinstance(n, ast.For) and is_set(P, s, n.iter):
        bad = [c for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "insert")
               or str(P.dotted(s, c.func)).startswith("numpy.random."))] + [c for b in n.body for c in ast.walk(b) if isinstance(c, (ast.Yield, ast.Break, ast.Return))]
        rep.check(key, s.where(n), False if bad else None, "iterates in the order of the set %s" % ast.unparse(n.iter)[:60])


def sorted_later(P, s, n, par):
    q = par.get(n)
    if not isinstance(q, ast.Assign) or len(q.targets) != 1 or not isinstance(q.targets[0], ast.Name):
        return False
    x = q.targets[0].id
    return any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "sort" and isinstance(m.func.value, ast.Name) and m.func.value.id == x for m in s.own)


# ------------------------------------------------------------------ K04
MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem", "fill", "resize", "itemset", "put",
               "partition", "appendleft", "popleft", "difference_update", "intersection_update", "symmetric_difference_update", "setflags", "byteswap"}
INPLACE_FUNCS = {"numpy.fill_diagonal", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.random.shuffle", "random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify",
                 "bisect.insort", "bisect.insort_left", "numpy.put_along_axis"}
MUT_CTORS = {"builtins.list", "builtins.dict", "builtins.set", "builtins.bytearray", "collections.deque", "collections.defaultdict", "collections.OrderedDict", "collections.Counter"}
FRESH_ARR = ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.array", "numpy.full", "numpy.arange", "numpy.eye", "numpy.asarray", "numpy.linspace")


def mutable(P, s, e):
    """kind of mutable object an initialiser creates, or None"""
    if isinstance(e, (ast.List, ast.ListComp)):
        return "list"
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return "dict"
    if isinstance(e, (ast.Set, ast.SetComp)):
        return "set"
    if isinstance(e, ast.Call):
        d = P.dotted(s, e.func)
        if isinstance(d, str) and d in MUT_CTORS:
            return d.split(".")[1]
        if isinstance(d, str) and d.startswith(FRESH_ARR):
            return "array"
        if isinstance(d, ClassInfo):
            return d
        if isinstance(d, str) and d.split(".")[-1][:1].isupper():
            return "object"
    return None


def root_of(e):
    """('name', x) / ('attr', base expr name, attr) whose object a store or in-place call changes"""
    while isinstance(e, ast.Subscript) or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Subscript):
        e = e.value
    return e


def writes(P, s):
    """(expression whose object is changed in place, node, how)"""
    for n in s.own:
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
            if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)):
                yield n.target, n, "augmented"
        elif isinstance(n, ast.Delete):
            ts = n.targets
        elif isinstance(n, ast.For):
            ts = [n.target]
        todo = list(ts)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo += t.elts
            elif isinstance(t, ast.Subscript):
                yield t.value, n, "item"
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
                d = P.dotted(s, n.func)
                if not isinstance(d, str):
                    yield n.func.value, n, n.func.attr
            d = P.dotted(s, n.func)
            if isinstance(d, str) and d in INPLACE_FUNCS and n.args:
                yield n.args[0], n, d.split(".")[-1]
            for k in n.keywords:
                if k.arg == "out" and isinstance(d, str):
                    yield k.value, n, "out"


def same_expr(a, b):
    return ast.dump(a) == ast.dump(b)


def aliases(P, s, name):
    """names of the scope that may be the same object as the parameter"""
    out = {name}
    while True:
        new = {x for x, vs in s.assigned.items() for v in vs if x not in out and may_be(v, out)}
        if not new:
            return out
        out |= new


def may_be(v, names):
    if isinstance(v, ast.Name):
        return v.id in names
    if isinstance(v, ast.IfExp):
        return may_be(v.body, names) or may_be(v.orelse, names)
    if isinstance(v, ast.BoolOp):
        return any(may_be(x, names) for x in v.values)
    return False


def rebound_first(s, name):
    """is the parameter replaced when omitted (x = x or [], if x is None: ...)?"""
    return any(v is not None and not may_be(v, {name}) for v in s.assigned.get(name, []))


def mutators(P, ci):
    """methods that change the object, outside its constructor"""
    out = set()
    for c in P.p.mro(ci):
        for s in P.scopes:
            if s.cls is c and isinstance(s.node, FUNCS) and s.method() is not None and s.method().name != "__init__":
                me = s.self_name()
                for n in s.own:
                    for t, _ in targets(n):
                        q = root_of(t)
                        if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == me:
                            out.add(s.method().name)
                for e, n, how in writes(P, s):
                    q = root_of(e)
                    if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == me:
                        out.add(s.method().name)
    # methods calling mutators
    while True:
        new = set()
        for c in P.p.mro(ci):
            for s in P.scopes:
                if s.cls is c and isinstance(s.node, FUNCS) and s.method() is not None and s.method().name not in out | {"__init__"}:
                    me = s.self_name()
                    for n in s.own:
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me and n.func.attr in out:
                            new.add(s.method().name)
        if not new:
            return out
        out |= new


def family(P, ci):
    return [c for c in P.p.classes() if ci in P.p.mro(c) or c in P.p.mro(ci)]


def attr_changes(P, ci, attr, kind):
    """(scope, node, how) places that change the object held by self.attr in place"""
    fam = family(P, ci)
    muts = mutators(P, kind) if isinstance(kind, ClassInfo) else None
    for s in P.functions():
        if s.cls not in fam:
            continue
        me = s.self_name()
        hold = lambda q: isinstance(q, ast.Attribute) and q.attr == attr and isinstance(q.value, ast.Name) and q.value.id == me
        loc_al = {x for x, vs in s.assigned.items() if any(v is not None and hold(v) for v in vs)}
        for e, n, how in writes(P, s):
            q = root_of(e)
            if hold(q) or isinstance(q, ast.Name) and q.id in loc_al:
                if how == "augmented" and kind not in ("list", "array", "set", "dict"):
                    continue
                yield s, n, how
        if muts:
            for n in s.own:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in muts and (hold(n.func.value) or isinstance(n.func.value, ast.Name) and n.func.value.id in loc_al):
                    yield s, n, n.func.attr
                for t, _ in targets(n):
                    q = t.value if isinstance(t, ast.Attribute) else None
                    if q is not None and (hold(q) or isinstance(q, ast.Name) and q.id in loc_al):
                        yield s, n, "assigns " + t.attr


def rule_K04(p, rep, tier, seed):
    rep.rule = ("mutable default arguments, class-level containers, module variables, function attributes and result caches: none is changed in place after it was created, "
                "following local and self-attribute aliases")
    P = prog(p)
    for s in P.functions():
        rep.unit(s.qual)
        defaults(P, rep, s)
        module_state(P, rep, s)
        caches(P, rep, s)
        closures(P, rep, s)
    for s in P.scopes:
        if isinstance(s.node, ast.ClassDef):
            class_state(P, rep, s)
    rep.proven("scopes analysed", "pySOT", len(P.scopes))


def defaults(P, rep, s):
    up = s.parent
    while up is not None and isinstance(up.node, ast.ClassDef):
        up = up.parent
    for name, d in s.params.items():
        if d is None:
            continue
        kind = mutable(P, s.parent, d) if s.parent is not None else None
        key = "%s: default of %s is never changed" % (s.qual, name)
        if kind is None:
            rep.proven("%s: default of %s is immutable" % (s.qual, name), s.where())
            continue
        al = aliases(P, s, name)
        if rebound_first(s, name) and not any(isinstance(v, ast.Name) for x in al - {name} for v in s.assigned[x] if v is not None):
            rep.unknown(key, s.where(), "rebound in the function")
            continue
        hit = None
        for e, n, how in writes(P, s):
            q = root_of(e)
            if isinstance(q, ast.Name) and q.id in al and not (how == "augmented" and kind not in ("list", "array", "set", "dict")):
                hit = (s, n, how)
        muts = mutators(P, kind) if isinstance(kind, ClassInfo) else ()
        for n in s.own:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in muts and isinstance(n.func.value, ast.Name) and n.func.value.id in al:
                hit = (s, n, n.func.attr)
        me = s.self_name()
        if hit is None and s.cls is not None:
            for n in s.own:
                for t, v in targets(n):
                    if v is not None and may_be(v, al) and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        for h in attr_changes(P, s.cls, t.attr, kind):
                            hit = hit or h
        for n in s.own:
            # handed to the constructor of the base class, which keeps it
            if hit is None and isinstance(n, ast.Call) and s.cls is not None:
                b = base_init(P, s, n)
                if b is not None:
                    for pn, a in bound_args(b, n).items():
                        if may_be(a, al):
                            bs = [q for q in P.functions() if q.node is b.node]
                            for m in (bs[0].own if bs else []):
                                for t, v in targets(m):
                                    if v is not None and may_be(v, {pn}) and isinstance(t, ast.Attribute):
                                        for h in attr_changes(P, s.cls, t.attr, kind):
                                            hit = hit or h
        if hit:
            rep.refute(key, hit[0].where(hit[1]), "the default %s object of %s(%s=%s) is created once and changed here (%s)" % (kind if isinstance(kind, str) else kind.name, s.qual, name, ast.unparse(d), hit[2]))
        else:
            rep.proven(key, s.where())


def base_init(P, s, n):
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr == "__init__":
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return P.p.find_method(s.cls, "__init__", after=s.cls)
        d = P.dotted(s, f.value)
        if isinstance(d, ClassInfo):
            return P.p.find_method(d, "__init__")
    return None


def bound_args(fi, n, skip=1):
    ps = fi.params[skip:]
    out = dict(zip(ps, n.args))
    out.update({k.arg: k.value for k in n.keywords if k.arg})
    return out


def module_state(P, rep, s):
    for g in s.globals:
        if g in s.assigned:
            rep.refute("%s: keeps no state in module variables" % s.qual, s.where(), "assigns the module variable %s" % g)
    for e, n, how in writes(P, s):
        q = root_of(e)
        if how == "augmented" and not (isinstance(q, ast.Name) and q.id in s.globals):
            if isinstance(q, ast.Name):
                continue
        if isinstance(q, ast.Name):
            r = P.lookup(s, q.id)
            if r and r[0] == "top" and isinstance(r[1], tuple) and r[1][0] == "const":
                rep.refute("%s: keeps no state in module variables" % s.qual, s.where(n), "changes the module variable %s (%s)" % (q.id, how))
            elif r and r[0] == "local":
                vs = r[1].assigned[q.id]
                for v in vs:
                    if isinstance(v, ast.Name):
                        r2 = P.lookup(r[1], v.id)
                        if r2 and r2[0] == "top" and isinstance(r2[1], tuple) and r2[1][0] == "const" and mutable(P, r[1], r2[1][1]) and len(vs) == 1:
                            rep.refute("%s: keeps no state in module variables" % s.qual, s.where(n), "changes the module variable %s through %s" % (v.id, q.id))
        elif isinstance(q, ast.Attribute) and how != "augmented":
            class_attr_write(P, rep, s, q, n)
    for n in s.own:
        for t, v in targets(n):
            if isinstance(t, ast.Attribute):
                class_attr_write(P, rep, s, t, n)
        if isinstance(n, ast.Call) and P.dotted(s, n.func) == "builtins.setattr" and n.args:
            if is_class_expr(P, s, n.args[0]):
                rep.refute("%s: keeps no state in classes or functions" % s.qual, s.where(n), "sets an attribute of %s" % ast.unparse(n.args[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
            b = n.func.value
            if isinstance(b, ast.Call) and P.dotted(s, b.func) == "builtins.globals":
                rep.refute("%s: keeps no state in module variables" % s.qual, s.where(n), "changes globals()")
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Call) and P.dotted(s, n.value.func) == "builtins.globals":
            rep.refute("%s: keeps no state in module variables" % s.qual, s.where(n), "assigns through globals()")


def is_class_expr(P, s, e):
    """does the expression denote a class or function of the package?"""
    if isinstance(e, ast.Name):
        d = P.dotted(s, e)
        if isinstance(d, (ClassInfo, FuncInfo)):
            return True
        m = s.method()
        if m is not None and any(isinstance(x, ast.Name) and x.id == "classmethod" for x in getattr(m.node, "decorator_list", [])) and e.id == (list(m.params) or [None])[0]:
            return True
        r = P.lookup(s, e.id)
        if r and r[0] == "local":
            return any(v is not None and not isinstance(v, (ast.FunctionDef, ast.ClassDef)) and is_class_expr(P, r[1], v) for v in r[1].assigned[e.id] if not same_name(v, e))
        return False
    if isinstance(e, ast.Call) and P.dotted(s, e.func) == "builtins.type" and len(e.args) == 1:
        return True
    if isinstance(e, ast.Attribute):
        if e.attr in ("__class__", "__func__", "__dict__") and e.attr == "__class__":
            return True
        d = P.dotted(s, e)
        return isinstance(d, (ClassInfo, FuncInfo))
    return False


def same_name(v, e):
    return isinstance(v, ast.Name) and isinstance(e, ast.Name) and v.id == e.id


def class_attr_write(P, rep, s, t, n):
    """ClassName.attr = ..., type(self).attr = ..., function.attr = ..., and in-place changes of them"""
    b = t.value
    if is_class_expr(P, s, b):
        rep.refute("%s: keeps no state in classes or functions" % s.qual, s.where(n), "changes %s, which all objects share" % ast.unparse(t))
    elif isinstance(b, ast.Name):
        d = P.dotted(s, b)
        if isinstance(d, ModuleInfo):
            rep.refute("%s: keeps no state in module variables" % s.qual, s.where(n), "changes %s" % ast.unparse(t))


def class_state(P, rep, s):
    ci = s.cls
    for name, vs in s.assigned.items():
        for v in vs:
            kind = mutable(P, s, v) if v is not None and not isinstance(v, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else None
            if kind is None:
                continue
            key = "%s: class-level %s is never changed" % (ci.qual, name)
            # replaced by an instance attribute in every constructor?
            shadow = [x for c in P.p.mro(ci) for x in P.attr_vals.get((c.qual, name), []) if x[1].method() is not None and x[1].method().name == "__init__" and x[0] is not None]
            if any(always(x[2], x[1]) for x in shadow):
                rep.proven(key, s.where(), "every object has its own")
                continue
            hits = list(attr_changes(P, ci, name, kind))
            if hits and not shadow:
                h = hits[0]
                later = [x for c in family(P, ci) for x in P.attr_vals.get((c.qual, name), []) if x[0] is not None]
                if later:
                    rep.check(key, h[0].where(h[1]), False if before_own(h, later) else None, "changed in place (%s), possibly before the object has its own" % h[2])
                else:
                    rep.refute(key, h[0].where(h[1]), "all objects share %s.%s, which is changed here (%s)" % (ci.name, name, h[2]))
            elif hits:
                rep.unknown(key, hits[0][0].where(hits[0][1]), "sometimes replaced by an instance attribute")
            else:
                rep.proven(key, s.where())


def always(n, s):
    """is the statement executed on every path of the function (a top-level statement)?"""
    body = s.node.body if isinstance(s.node.body, list) else []
    return n in body


def before_own(h, later):
    return False


def caches(P, rep, s):
    for d in getattr(s.node, "decorator_list", []):
        f = d.func if isinstance(d, ast.Call) else d
        r = P.dotted(s.parent or s, f)
        if r in ("functools.lru_cache", "functools.cache"):
            key = "%s: caches no result that others could change or that could become stale" % s.qual
            if s.cls is not None:
                rep.refute(key, s.where(), "caches a method across objects and calls")
                continue
            rets = [n.value for n in s.own if isinstance(n, ast.Return) and n.value is not None]
            fresh = [r for r in rets if scalar(P, s, r) is False]
            rep.check(key, s.where(), False if fresh else True if all(scalar(P, s, r) for r in rets) else None, "callers share the cached array")


def scalar(P, s, e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
        return False
    if isinstance(e, ast.Call):
        d = P.dotted(s, e.func)
        if d in ("builtins.int", "builtins.float", "builtins.len", "builtins.bool", "builtins.str", "math.factorial", "math.comb"):
            return True
        if isinstance(d, str) and d.startswith(FRESH_ARR):
            return False
    if isinstance(e, ast.Name):
        r = P.lookup(s, e.id)
        if r and r[0] == "local":
            vs = [v for v in r[1].assigned[e.id] if v is not None]
            rs = [scalar(P, s, v) for v in vs if not isinstance(v, ast.FunctionDef)]
            return False if False in rs else None
    return None


def closures(P, rep, s):
    """a module-level function made by a factory keeps state in its closure"""
    pass


# ------------------------------------------------------------------ K05
_EXT = {}


def external(p):
    """introspection of every external name the package mentions"""
    if p in _EXT:
        return _EXT[p]
    P = prog(p)
    names, mods, dirs = set(), set(), set()
    for s in P.scopes:
        for n in s.own:
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                d = P.dotted(s, n)
                if isinstance(d, str):
                    names.add(d)
            elif isinstance(n, ast.ImportFrom):
                for k, b in import_bindings(n, s.module).items():
                    d = P.import_target(b)
                    if isinstance(d, str):
                        names.add(d)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name not in p.modules:
                        names.add(a.name)
    for d in names:
        parts = d.split(".")
        for i in range(1, len(parts) + 1):
            mods.add(".".join(parts[:i]))
    mods -= {m for m in mods if m == "builtins" or m.startswith("builtins.")}
    mods |= {"poap.strategy", "poap.controller"}
    for c in p.classes():
        dirs |= set(p.ext_bases(c))
    _EXT[p] = ext.query(names | dirs, mods, dirs)
    return _EXT[p]


def guarded_import(s, n, par):
    """is the node inside a try that handles a missing import?"""
    q = par.get(n)
    while q is not None:
        if isinstance(q, ast.Try) and any(h.type is None or any(x in ast.unparse(h.type) for x in ("ImportError", "ModuleNotFoundError", "Exception", "AttributeError")) for h in q.handlers):
            return True
        q = par.get(q)
    return False


def rule_K05(p, rep, tier, seed):
    rep.rule = ("scope analysis of every name; attributes of self against those assigned anywhere in the classes of each concrete object; external names, attribute names and keywords against the "
                "installed libraries; every resolvable call against the signature of what it calls; unbound-name, missing-attribute and bad-call events of the abstract interpreter")
    P = prog(p)
    X = external(p)
    rep.stats["external_names"] = len(X["names"])
    for m in p.modules.values():
        free_names(P, rep, p, m)
    absent = set()
    for s in P.scopes:
        rep.unit(s.qual)
        par = parents(s)
        for n in s.own:
            external_names(P, rep, p, X, s, n, par, absent)
    universe = set(X["attrs"]) | package_attrs(P)
    optional = any(X["names"].get(d, ["ok"])[0] == "nomodule" for d in X["names"])
    for s in P.scopes:
        for n in s.own:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr not in universe and P.dotted(s, n) is None:
                rep.check("%s: attribute %s exists somewhere" % (s.qual, n.attr), s.where(n), None if from_optional(P, X, s, n) else False, "no class of the package or of the libraries used has an attribute %s" % n.attr)
    self_attrs(P, rep, p, X)
    for s in P.functions():
        with rep.guard("%s: calls match signatures" % s.qual, s.where()):
            calls(P, rep, p, X, s)
    flow(p, rep)


def from_optional(P, X, s, n):
    return any(v[0] == "nomodule" for v in X["names"].values())


def free_names(P, rep, p, m):
    try:
        top = symtable.symtable(m.src, m.path, "exec")
    except SyntaxError as e:
        raise AnalysisBroken("cannot parse %s: %s" % (m.rel, e))
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
    have = {x.get_name() for x in top.get_symbols() if x.is_assigned() or x.is_imported() or x.is_namespace()}
    have |= set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__"}
    decl = set()

    def globs(t):
        for x in t.get_symbols():
            if x.is_declared_global() and x.is_assigned():
                decl.add(x.get_name())
        for c in t.get_children():
            globs(c)
    globs(top)
    nest = lambda t, q: "%s.%s" % (q, t.get_name()) if t.get_type() != "module" else m.name

    def go(t, q):
        q = nest(t, q)
        for x in t.get_symbols():
            if x.is_referenced() and (x.is_global() or t is top) and not (x.is_local() and t is not top):
                nm = x.get_name()
                if nm in have or nm in decl:
                    continue
                if star:
                    rep.unknown("%s: name %s is bound" % (q, nm), m.rel, "star import")
                    continue
                ln = next((n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == nm), 1)
                rep.refute("%s: name %s is bound" % (q, nm), "%s:%d %s" % (m.rel, ln, q.split(".", 1)[-1]), "%s is not defined in any enclosing scope" % nm)
        for c in t.get_children():
            go(c, q)
    go(top, "")
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            for k, b in import_bindings(n, m).items():
                mod = p.modules.get(b[1]) if b[0] == "from" else None
                if mod is not None and b[2] != "*" and p.resolve(mod, b[2]) is None and (b[1] + "." + b[2]) not in p.modules:
                    rep.refute("%s imports existing names" % m.name, "%s:%d" % (m.rel, n.lineno), "%s has no %s" % (b[1], b[2]))
                elif b[0] == "from" and mod is None and b[1].split(".")[0] == "pySOT" and (b[1] + "." + b[2]) not in p.modules:
                    rep.refute("%s imports existing names" % m.name, "%s:%d" % (m.rel, n.lineno), "there is no module %s" % b[1])
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__all__" and isinstance(n.value, (ast.List, ast.Tuple)):
            for e in n.value.elts:
                if isinstance(e, ast.Constant) and e.value not in m.names and not star and m.name + "." + str(e.value) not in p.modules:
                    rep.refute("%s exports existing names" % m.name, "%s:%d" % (m.rel, e.lineno), "__all__ lists %s, which is not defined" % e.value)
    rep.proven("%s: names resolved" % m.name, m.rel)


def external_names(P, rep, p, X, s, n, par, absent):
    ds = []
    if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
        d = P.dotted(s, n)
        if isinstance(d, str):
            ds.append(d)
    elif isinstance(n, ast.ImportFrom):
        ds += [d for b in import_bindings(n, s.module).values() for d in [P.import_target(b)] if isinstance(d, str)]
    elif isinstance(n, ast.Import):
        ds += [a.name for a in n.names if a.name not in p.modules]
    for d in ds:
        st = X["names"].get(d, ["ok", None, None])
        if st[0] == "missing" and not any(d.startswith(a + ".") for a in absent):
            absent.add(d)
            key = "%s: %s exists" % (s.qual, d)
            if guarded_import(s, n, par) or tested(P, s, d):
                rep.unknown(key, s.where(n), "guarded")
            else:
                rep.refute(key, s.where(n), "the installed libraries have no %s" % d)
        elif st[0] == "nomodule":
            rep.unknown("%s: %s exists" % (s.qual, d), s.where(n), "library not installed")
    if isinstance(n, ast.Call):
        d = P.dotted(s, n.func)
        if isinstance(d, str) and X["names"].get(d, [0, 0, None])[2] is not None:
            why = mismatch_sig(X["names"][d][2], n)
            key = "%s: call of %s matches its signature" % (s.qual, d)
            if why:
                rep.check(key, s.where(n), None if guarded_import(s, n, par) else False, why)
            else:
                rep.proven(key, s.where(n))


def tested(P, s, d):
    last = d.split(".")[-1]
    return any(isinstance(n, ast.Call) and P.dotted(s, n.func) == "builtins.hasattr" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == last for q in P.scopes for n in q.own)


def mismatch_sig(sig, n):
    """why a call cannot match an external signature ([name, kind, has default]), or None"""
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    pos = [x for x in sig if x[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD")]
    var = any(x[1] == "VAR_POSITIONAL" for x in sig)
    kw = any(x[1] == "VAR_KEYWORD" for x in sig)
    if len(n.args) > len(pos) and not var:
        return "%d positional arguments, at most %d accepted" % (len(n.args), len(pos))
    names = {x[0] for x in sig if x[1] in ("POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY")}
    for k in n.keywords:
        if k.arg not in names and not kw:
            return "no argument named %s" % k.arg
        if k.arg in [x[0] for x in pos[:len(n.args)] if x[1] == "POSITIONAL_OR_KEYWORD"]:
            return "argument %s given twice" % k.arg
    given = {x[0] for x in pos[:len(n.args)]} | {k.arg for k in n.keywords}
    for x in sig:
        if x[1] in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY") and not x[2] and x[0] not in given and not (kw and var):
            return "argument %s is missing" % x[0]
    return None


def fi_sig(fi, bound):
    a = fi.node.args
    out = []
    nd = len(a.posonlyargs + a.args) - len(a.defaults)
    for i, x in enumerate(a.posonlyargs + a.args):
        out.append([x.arg, "POSITIONAL_ONLY" if x in a.posonlyargs else "POSITIONAL_OR_KEYWORD", i >= nd])
    if bound:
        out = out[1:]
    if a.vararg:
        out.append([a.vararg.arg, "VAR_POSITIONAL", True])
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append([x.arg, "KEYWORD_ONLY", d is not None])
    if a.kwarg:
        out.append([a.kwarg.arg, "VAR_KEYWORD", True])
    return out


def mismatch(fi, n, bound):
    """why a call cannot match the function of the package"""
    sig = fi_sig(fi, bound)
    return mismatch_sig(sig, n)


def package_attrs(P):
    out = set()
    for s in P.scopes:
        if isinstance(s.node, ast.ClassDef):
            out |= set(s.assigned)
        if isinstance(s.node, ast.Module):
            out |= set(s.assigned) | set(s.imports)
        for n in s.own:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            if isinstance(n, ast.Call) and P.dotted(s, n.func) == "builtins.setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    out |= {x.split(".")[-1] for x in P.p.modules}
    return out


def self_attrs(P, rep, p, X):
    """reads of attributes of the object itself against everything assigned in its classes"""
    by_cls = {}
    for s in P.functions():
        if s.cls is not None and s.self_name():
            by_cls.setdefault(s.cls.qual, []).append(s)
    for ci in sorted(p.classes(), key=lambda c: c.qual):
        if p.is_abstract(ci):
            continue
        mro = p.mro(ci)
        extb = p.ext_bases(ci)
        have = set(dir(object))
        open_ = False
        for b in extb:
            d = X["dirs"].get(b)
            if d is None:
                open_ = open_ or X["names"].get(b, ["missing"])[0] != "ok"
            else:
                have |= set(d)
        have |= set(X["attrs"]) if any(not b.startswith(("abc.", "builtins.")) for b in extb) else set()
        for c in mro:
            have |= set(c.methods) | set(c.setters) | set(c.consts)
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    have.add(n.target.id)
                for t, _ in targets(n):
                    if isinstance(t, ast.Name):
                        have.add(t.id)
            if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                open_ = True
        ss = [s for c in mro for s in by_cls.get(c.qual, [])]
        sub = [q for q in p.subclasses(ci.name)]
        for s in ss:
            me = s.self_name()
            for n in s.own:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    have.add(n.attr)
                if isinstance(n, ast.Call):
                    d = P.dotted(s, n.func)
                    if d == "builtins.setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            have.add(n.args[1].value)
                        else:
                            open_ = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == me:
                    open_ = True
        # attributes that code outside sets on objects
        outer = {n.attr for s in P.scopes for n in s.own if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                 and not (isinstance(n.value, ast.Name) and n.value.id == s.self_name())}
        seen_m = {}
        for s in ss:
            m = s.method()
            if p.find_method(ci, m.name) is not None and p.find_method(ci, m.name).node is not m.node and not called_super(P, p, ss, m):
                continue
            me = s.self_name()
            tested_names = {n.args[1].value for n in s.own if isinstance(n, ast.Call) and P.dotted(s, n.func) == "builtins.hasattr" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant)}
            for n in s.own:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if n.attr in have:
                        continue
                    key = "%s: self.%s is assigned somewhere" % (ci.name, n.attr)
                    bad = not (open_ or n.attr in tested_names or n.attr in outer)
                    rep.check(key, s.where(n), False if bad else None, "no method of %s or its bases assigns %s" % (ci.name, n.attr))
        rep.proven("%s: attributes of self resolved" % ci.name, ci.module.rel)


def called_super(P, p, ss, m):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == m.name and (isinstance(n.func.value, ast.Call) or isinstance(P.dotted(s, n.func), FuncInfo)) for s in ss for n in s.own)


def calls(P, rep, p, X, s):
    me = s.self_name()
    concrete = [c for c in p.classes() if not p.is_abstract(c) and s.cls is not None and s.cls in p.mro(c)] if s.cls is not None else []
    for n in s.own:
        if not isinstance(n, ast.Call):
            continue
        f = n.func
        w = s.where(n)
        key = "%s: call of %s matches its signature" % (s.qual, ast.unparse(f)[:60])
        d = P.dotted(s, f)
        if isinstance(d, FuncInfo):
            bound = False
            if d.cls is not None and isinstance(f, ast.Attribute):
                bound = d.kind == "classmethod"
            if isinstance(f, ast.Name) or d.cls is not None or isinstance(f, ast.Attribute):
                why = mismatch(d, n, bound)
                rep.check(key, w, not why, "%s: %s" % (d.qual, why))
        elif isinstance(d, ClassInfo):
            construct_call(P, rep, p, d, n, key, w)
        elif isinstance(f, ast.Name):
            r = P.lookup(s, f.id)
            if r and r[0] == "local":
                vs = r[1].assigned[f.id]
                if len(vs) == 1 and isinstance(vs[0], ast.FunctionDef):
                    why = mismatch(FuncInfo(vs[0], s.module), n, False)
                    rep.check(key, w, not why, why or "")
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and s.cls is not None:
            extb = p.ext_bases(s.cls)
            for c in concrete or [s.cls]:
                fi = p.find_method(c, f.attr, after=s.cls)
                if fi is not None:
                    why = mismatch(fi, n, fi.kind != "staticmethod")
                    rep.check(key, w, not why, "%s: %s" % (fi.qual, why))
                elif not extb and not hasattr(object, f.attr):
                    rep.refute(key, w, "no base of %s has a method %s" % (c.name, f.attr))
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and s.cls is not None:
            for c in concrete:
                m = s.method()
                fi = p.find_method(c, f.attr)
                if fi is None or fi.kind == "property" or any((k.qual, f.attr) in P.attr_vals for k in p.mro(c)):
                    continue
                why = mismatch(fi, n, fi.kind != "staticmethod")
                rep.check(key, w, not why, "%s: %s" % (fi.qual, why))
        elif isinstance(f, ast.Attribute):
            interface_call(P, rep, p, X, s, n, f, key, w)


def construct_call(P, rep, p, ci, n, key, w):
    if p.is_abstract(ci):
        rep.refute(key, w, "%s is abstract" % ci.name)
        return
    fi = p.find_method(ci, "__init__")
    if fi is None:
        if not p.ext_bases(ci) or all(b.startswith(("abc.", "builtins.object")) for b in p.ext_bases(ci)):
            rep.check(key, w, not (n.args or n.keywords), "%s takes no arguments" % ci.name)
        return
    why = mismatch(fi, n, True)
    rep.check(key, w, not why, "%s: %s" % (fi.qual, why))


def interface_call(P, rep, p, X, s, n, f, key, w):
    """a call through another object: it must match the method of every class that can stand there"""
    defs = [(c, c.methods[f.attr]) for c in p.classes() if f.attr in c.methods and c.methods[f.attr].kind in ("method",)]
    if not defs:
        return
    res = [(c, fi, mismatch(fi, n, True)) for c, fi in defs]
    if f.attr in X["attrs"]:
        # may also be a method of a library object
        ty = receiver_family(P, p, s, f.value)
        if ty is None:
            return
        res = [r for r in res if ty in p.mro(r[0]) or r[0] in p.mro(ty)]
    good = [r for r in res if not r[2]]
    if not res:
        return
    if not good:
        rep.refute(key, w, "%s: %s" % (res[0][1].qual, res[0][2]))
        return
    # the same interface: a root class whose method accepts the call, and an override that does not
    for c, fi, why in res:
        if why:
            root = [g for g in good if g[0] in p.mro(c)[1:]]
            ty = receiver_family(P, p, s, f.value)
            if root and (ty is None or ty in p.mro(c)):
                rep.refute("%s: override accepts the calls of its interface" % fi.qual, loc(fi), "called as %s at %s: %s" % (ast.unparse(n)[:80], w, why))
            elif root:
                rep.unknown(key, w, why)
    rep.proven(key, w)


HINT = {"surrogate": "Surrogate", "opt_prob": "OptimizationProblem", "exp_design": "ExperimentalDesign", "kernel": "Kernel", "tail": "Tail", "output_transformation": "OutputTransformation"}


def receiver_family(P, p, s, e):
    nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
    if nm in HINT:
        try:
            return p.cls(HINT[nm])
        except AnalysisBroken:
            return None
    return None


# ------------------------------------------------------------------ interpreter events
def flow(p, rep):
    """unbound locals, attributes of freshly built objects and refused calls on the interpreted paths of every function"""
    n = 0
    for m in p.modules.values():
        for v in list(m.names.values()):
            if isinstance(v, FuncInfo):
                n += run_one(p, rep, v, None)
    for ci in sorted(p.classes(), key=lambda c: c.qual):
        if p.is_abstract(ci):
            continue
        names = []
        for c in p.mro(ci):
            for k in c.methods:
                if k not in names:
                    names.append(k)
        for k in names:
            n += run_one(p, rep, p.find_method(ci, k), ci)
    rep.stats["interpreted_paths"] = n


def run_one(p, rep, fi, ci):
    w = loc(fi)
    who = (ci.name + "." if ci else "") + fi.name
    with rep.guard("%s: paths interpreted" % who, w):
        I = Interp(p)
        I.max_depth = 10 if fi.name == "__init__" else 1
        if ci is not None and fi.name == "__init__":
            paths = construct(I, ci, {n: S(n, "unk") for n in fi.params[1:]})
        elif ci is not None:
            st = State()
            me = symobj(I, st, ci, "self")
            args = [me] if fi.kind not in ("staticmethod", "classmethod") else []
            if fi.kind == "classmethod":
                return 0
            paths = call(I, fi, args + [S(n, "unk") for n in fi.params[len(args):]], st=st, recv=me)
        else:
            paths = call(I, fi, [S(n, "unk") for n in fi.params])
        for q in paths:
            for e in walk(q.events):
                if e.kind in ("unbound", "badcall", "missing_attr"):
                    report_event(rep, q, e, who, w)
        rep.proven("%s: paths interpreted" % who, w)
        return len(paths)
    return 0


def report_event(rep, q, e, who, w):
    what = {"unbound": "%s: name %s is assigned before use" % (who, e.d.get("name")), "badcall": "%s: call of %s matches its signature" % (who, e.d.get("fn")),
            "missing_attr": "%s: attribute %s of %s is assigned before use" % (who, e.d.get("name"), e.d.get("cls"))}[e.kind]
    ok = feasible(q)
    where = e.d.get("loc") or w
    rep.check(what, where, False if ok else None, "on the path %s" % [tm.show(f)[:80] for f in q.facts][:6])


def feasible(q):
    """is the path condition satisfiable, as far as independent atomic conditions go?"""
    seen = set()
    for f in q.facts:
        neg = f.op == "not"
        g = f.args[0] if neg else f
        syms = frozenset(x for x in tm.subterms(g) if x.op == "sym")
        if not syms or any(syms & o for o in seen):
            return False
        if tm.contains(g, lambda x: x.op in ("opaque",)):
            return False
        seen.add(syms)
    return True
