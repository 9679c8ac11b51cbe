"""Facts about the installed external libraries: which dotted names exist, their call signatures, and the attribute names of
their classes.  Obtained by introspecting the libraries (never the code under analysis) in the environment pySOT runs in."""
import json
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
SCRIPT = r'''
import sys, json, importlib, inspect, ast, textwrap, builtins
req = json.load(sys.stdin)
import warnings; warnings.simplefilter("ignore")
def load(dotted):
    """(found, object): longest importable module prefix, then attributes"""
    parts = dotted.split(".")
    if parts[0] == "builtins" or hasattr(builtins, parts[0]) and len(parts) == 1:
        o = builtins
        for q in parts[1:] if parts[0] == "builtins" else parts:
            if not hasattr(o, q): return "missing", None
            o = getattr(o, q)
        return "ok", o
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return "nomodule", None
    for i in range(1, len(parts)):
        if hasattr(o, parts[i]):
            o = getattr(o, parts[i]); continue
        try:
            o = importlib.import_module(".".join(parts[:i + 1]))
        except Exception:
            return "missing", None
    return "ok", o
def sig(o):
    try:
        s = inspect.signature(o)
    except Exception:
        return None
    return [[p.name, p.kind.name, p.default is not inspect.Parameter.empty] for p in s.parameters.values()]
names = {}
for d in req["names"]:
    st, o = load(d)
    kind = "module" if inspect.ismodule(o) else "class" if inspect.isclass(o) else "callable" if callable(o) else "value"
    names[d] = [st, kind if st == "ok" else None, sig(o) if st == "ok" and callable(o) else None]
attrs = set()
def cls_attrs(c):
    attrs.update(dir(c))
    for k in inspect.getmro(c):
        try:
            t = ast.parse(textwrap.dedent(inspect.getsource(k)))
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                attrs.add(n.value)
import numpy as np, io
for o in (1, 1.0, 1j, "", b"", [], {}, set(), frozenset(), (), slice(1), range(1), np.zeros(1), np.float64(1), np.int64(1), np.bool_(1), np.dtype(float),
          np.finfo(float), np.iinfo(int), np.matrix([[1]]), io.BytesIO(), io.StringIO(), (lambda: 0), type, object(), iter([]), Exception(), np.errstate(), Ellipsis, property()):
    attrs.update(dir(o))
attrs.update(dir(io.BufferedWriter)); attrs.update(dir(io.TextIOWrapper)); attrs.update(dir(OSError))
import types
attrs.update(dir(types.ModuleType)); attrs.update(dir(types.MethodType)); attrs.update(dir(types.GeneratorType))
for m in req["modules"]:
    st, o = load(m)
    if st != "ok": continue
    if inspect.isclass(o): cls_attrs(o); continue
    if not inspect.ismodule(o): 
        attrs.update(dir(o)); continue
    for n in dir(o):
        try: v = getattr(o, n)
        except Exception: continue
        if inspect.isclass(v): 
            if getattr(v, "__module__", "").split(".")[0] == m.split(".")[0]: cls_attrs(v)
try:
    import scipy.stats, scipy.optimize, scipy.spatial
    attrs.update(dir(scipy.stats.truncnorm)); attrs.update(dir(scipy.stats.norm(0, 1)))
    cls_attrs(scipy.optimize.OptimizeResult); attrs.update(["x", "fun", "jac", "nit", "success", "message"])
except Exception: pass
dirs = {}
for d in req["dirs"]:
    st, o = load(d)
    dirs[d] = sorted(dir(o)) if st == "ok" else None
json.dump({"names": names, "attrs": sorted(attrs), "dirs": dirs}, sys.stdout)
'''


def query(names, modules, dirs=()):
    py = PY if os.path.exists(PY) else sys.executable
    req = json.dumps({"names": sorted(names), "modules": sorted(modules), "dirs": sorted(dirs)})
    r = subprocess.run([py, "-I", "-c", SCRIPT], input=req, capture_output=True, text=True, timeout=300, cwd="/")
    if r.returncode:
        raise RuntimeError("library introspection failed: " + r.stderr[-500:])
    return json.loads(r.stdout)
