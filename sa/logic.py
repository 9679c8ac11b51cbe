"""Entailment over scalar facts in a finite abstract domain.

Facts are boolean combinations of linear relations over scalar atoms (counters, lengths, markers) and of opaque
conditions.  Counters range over a small interval, which is complete for the difference constraints the strategies
use; opaque conditions are free.  `entails` gives True (no counter-valuation), a counter-valuation, or None when an
atom the goal depends on cannot be interpreted.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T

INT_DOM = (0, 1, 2, 3, 4)


class Opaque(Exception):
    pass


BOOL = {"not", "and", "or", "lt0", "le0", "eq0"}


def is_bool(t):
    return t.op in BOOL or (t.op == "const" and isinstance(t.args[0], bool)) or (t.op == "sym" and t.args[1] == "bool") or t.op in ("is", "isinstance", "isfinite", "isinf", "isnan", "in", "exists", "cmp")


def scalar(t):
    return t.op in ("num", "poly", "len", "dim0", "dim1", "size", "Sum") or (t.op == "sym" and t.args[1] in ("int", "num", "bool"))


class Logic:
    """dom: name suffix -> values; opaque boolean atoms are free"""

    def __init__(self, dom=None, int_dom=INT_DOM):
        self.dom = dict(dom or {})
        self.int_dom = self.ints = int_dom
        self.wider = ()

    # ------------------------------------------------------------ atoms
    def atoms(self, t, out, want="bool"):
        if t.op == "num" or t.op == "const":
            return
        if t.op in ("not", "and", "or"):
            for a in t.args:
                self.atoms(a, out, "bool")
            return
        if t.op == "ite":
            self.atoms(t.args[0], out, "bool")
            self.atoms(t.args[1], out, want)
            self.atoms(t.args[2], out, want)
            return
        if t.op in ("lt0", "le0", "eq0"):
            self.atoms(t.args[0], out, "num")
            return
        if t.op == "poly":
            for m, c in t.args[0]:
                for a, e in m:
                    self.atoms(a, out, "num")
            return
        if t.op == "mod" or (t.op == "fn" and t.args[0] in ("maximum", "minimum")) or t.op in ("abs",):
            for a in t.args:
                if isinstance(a, T):
                    self.atoms(a, out, "num")
            return
        if t.op == "eq" and scalar(t.args[0]) and scalar(t.args[1]):
            for a in t.args:
                self.atoms(a, out, "num")
            return
        if t.op == "Sum" and t.args[1] is tm.TRUE and not tm.contains_t(t.args[2], t.args[0]):
            b = t.args[0]
            for a in b.args[1:]:
                if isinstance(a, T):
                    self.atoms(a, out, "num")
            self.atoms(t.args[2], out, "num")
            return
        out[t] = want

    def constants(self, t, out):
        for x in tm.subterms(t):
            if x.op == "poly":
                for m, c in x.args[0]:
                    if not m and c.denominator == 1 and abs(c) > max(self.int_dom):
                        out.add(abs(int(c)))
            elif x.op == "num" and x.args[0].denominator == 1 and max(self.int_dom) < abs(x.args[0]) < 10 ** 6:
                out.add(abs(int(x.args[0])))

    def values(self, t, want):
        if want == "bool" and (t.op != "sym" or t.args[1] != "int"):
            return (False, True)
        if t.op == "sym":
            n = t.args[0].split(".")[-1]
            if n in self.dom:
                return self.dom[n] + self.wider
            k = t.args[1]
            if k == "bool":
                return (False, True)
            if k == "int":
                return self.ints
            if k in ("num", "unk", "float"):
                return (-1, 0, Fraction(1, 2), 1, 2)
            return self.ints
        if t.op in ("len", "dim0", "dim1", "size"):
            return (0, 1, 2, 3) + self.wider
        return (-1, 0, 1, 2)

    # ------------------------------------------------------------ evaluation (three-valued under partial assignment)
    def num(self, t, A):
        if t.op == "num":
            return t.args[0]
        if t.op == "const":
            ok, v = tm.py_const(t)
            if ok and isinstance(v, (bool, int, float)):
                return v
            raise Opaque(t)
        if t.op == "poly":
            s = Fraction(0)
            for m, c in t.args[0]:
                p = c
                for a, e in m:
                    v = self.num(a, A)
                    if v is None:
                        return None
                    if e != 1:
                        if v == 0 and e < 0:
                            return None
                        v = v ** (int(e) if e.denominator == 1 else float(e))
                    p = p * v
                s += p
            return s
        if t.op == "fn" and t.args[0] in ("maximum", "minimum"):
            vs = [self.num(a, A) for a in t.args[1:]]
            if None in vs:
                return None
            return max(vs) if t.args[0] == "maximum" else min(vs)
        if t.op == "mod":
            a, b = self.num(t.args[0], A), self.num(t.args[1], A)
            return None if a is None or not b else a % b
        if t.op == "abs":
            a = self.num(t.args[0], A)
            return None if a is None else abs(a)
        if t.op == "ite":
            c = self.truth(t.args[0], A)
            if c is None:
                return None
            return self.num(t.args[1] if c else t.args[2], A)
        if t.op == "Sum" and t.args[1] is tm.TRUE and not tm.contains_t(t.args[2], t.args[0]):
            b = t.args[0]
            lo, hi = [x if isinstance(x, T) else tm.const(x) for x in b.args[1:3]]
            lo, hi, v = self.num(lo, A), self.num(hi, A), self.num(t.args[2], A)
            if None in (lo, hi, v):
                return None
            return max(hi - lo, 0) * v
        v = A.get(t)
        return v

    def truth(self, t, A):
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "num":
            return t.args[0] != 0
        if t.op == "not":
            r = self.truth(t.args[0], A)
            return None if r is None else not r
        if t.op == "and":
            u = False
            for a in t.args:
                r = self.truth(a, A)
                if r is False:
                    return False
                u = u or r is None
            return None if u else True
        if t.op == "or":
            u = False
            for a in t.args:
                r = self.truth(a, A)
                if r is True:
                    return True
                u = u or r is None
            return None if u else False
        if t.op in ("lt0", "le0", "eq0"):
            v = self.num(t.args[0], A)
            if v is None:
                return None
            return v < 0 if t.op == "lt0" else v <= 0 if t.op == "le0" else v == 0
        if t.op == "eq" and scalar(t.args[0]) and scalar(t.args[1]):
            a, b = self.num(t.args[0], A), self.num(t.args[1], A)
            return None if a is None or b is None else a == b
        if t.op == "ite":
            c = self.truth(t.args[0], A)
            return None if c is None else self.truth(t.args[1] if c else t.args[2], A)
        v = A.get(t)
        return None if v is None else bool(v)

    # ------------------------------------------------------------ search
    def solve(self, facts, budget=400000):
        """a valuation of the atoms satisfying all facts, or None"""
        fs = []
        big = set()
        for f in facts:
            at = {}
            self.atoms(f, at)
            fs.append((f, at))
            self.constants(f, big)
        # the interval is widened around the constants of the facts
        self.ints = self.int_dom
        self.wider = tuple(w for c in sorted(big) for w in (c - 1, c, c + 1))
        if big:
            self.ints = tuple(sorted(set(self.int_dom) | {w for c in big for w in (c - 1, c, c + 1)}))
        allat = {}
        for f, at in fs:
            for a, w in at.items():
                if a not in allat or w == "num":
                    allat[a] = w
        # most constrained first: order by appearance in small facts
        order = []
        for f, at in sorted(fs, key=lambda x: len(x[1])):
            for a in sorted(at, key=lambda a: a.id):
                if a not in order:
                    order.append(a)
        watch = {a: [f for f, at in fs if a in at] for a in order}
        A = {}
        self.nodes = 0
        for f, at in fs:
            if not at and self.truth(f, A) is False:
                return None

        def go(i):
            if i == len(order):
                return True
            a = order[i]
            for v in self.values(a, allat[a]):
                self.nodes += 1
                if self.nodes > budget:
                    raise Opaque("search too large")
                A[a] = v
                if all(self.truth(f, A) is not False for f in watch[a]):
                    if go(i + 1):
                        return True
            A.pop(a, None)
            return False
        return dict(A) if go(0) else None

    def relevant(self, facts, goal):
        """facts connected to the goal through shared atoms"""
        g = {}
        self.atoms(goal, g)
        cur = set(g)
        fs = []
        for f in facts:
            at = {}
            self.atoms(f, at)
            fs.append((f, set(at)))
        used, changed = [], True
        while changed:
            changed = False
            for f, at in fs:
                if f not in used and at & cur:
                    used.append(f)
                    cur |= at
                    changed = True
        return used

    def entails(self, facts, goal):
        """(True, None) | (False, counter-valuation) | (None, reason)"""
        try:
            rel = self.relevant(facts, goal)
            r = self.solve(rel + [tm.bnot(goal)])
        except Opaque as e:
            return None, str(e)
        if r is None:
            return True, None
        # the path itself may be impossible for reasons unrelated to the goal
        rest = [f for f in facts if f not in rel]
        while rest:
            comp = self.relevant(rest, rest[0])
            if rest[0] not in comp:
                comp = comp + [rest[0]]
            try:
                if self.solve(comp) is None:
                    return True, None
            except Opaque:
                pass
            rest = [f for f in rest if f not in comp]
        return False, r

    def sat(self, facts):
        try:
            return self.solve(list(facts))
        except Opaque:
            return None


def show(A):
    return "{" + ", ".join("%s=%s" % (tm.show(k)[:50], v) for k, v in list(A.items())[:12]) + "}"
