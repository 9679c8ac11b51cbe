"""Drivers: summarise functions and methods of the package on symbolic inputs."""
from . import terms as tm
from .frontend import ClassInfo, AnalysisBroken
from .interp import Interp, State, Env, Ref, Obj, attr_kind


def S(name, kind="unk"):
    return tm.mk("sym", name, kind)


class Path:
    """one path of a summary: facts, effects, result"""

    def __init__(self, I, st, v):
        self.I, self.st, self.v = I, st, v

    @property
    def facts(self):
        return self.st.order

    @property
    def events(self):
        return self.st.events

    @property
    def raised(self):
        return bool(self.st.ctl and self.st.ctl[0] == "raise")

    def term(self, v=None):
        v = self.v if v is None else v
        return self.I.term(v, self.st) if v is not None else None

    def attr(self, ref, name):
        return self.st.heap[ref.id].attrs.get(name)


def call(I, fi, args, kwargs=None, st=None, recv=None):
    st = st.clone() if st is not None else State()
    env = Env(0, fi, fi.module, fi.cls, None, recv)
    return [Path(I, s, v) for s, v in I.call_fi(fi, list(args), dict(kwargs or {}), st, env, fi.node, recv=recv)]


def symobj(I, st, ci, name="self"):
    return I.new(st, Obj("obj", cls=ci, attrs={}, origin=name))


def construct(I, ci, kwargs, st=None):
    st = st.clone() if st is not None else State()
    init = I.p.find_method(ci, "__init__")
    env = Env(0, init, ci.module, ci, None, None) if init else Env(0, None, ci.module, ci, None, None)
    return [Path(I, s, v) for s, v in I.construct(ci, [], kwargs, st, env, init.node if init else None)]
