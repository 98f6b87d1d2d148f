"""
Module state of the code under test.

Every explored path must start from the state a fresh interpreter would have: memoised results, module-level
dictionaries and attributes of module-level objects written on one path would otherwise leak into the next one.
`snapshot` is taken once after import, `restore` runs before every path and every replay.
"""
import sys
import types

_snap = None
_plain = (dict, list, set)


def _mods():
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == "torchimage" or n.startswith("torchimage."))]


def _owned(o):
    m = getattr(type(o), "__module__", "")
    return isinstance(m, str) and m.split(".")[0] == "torchimage"


def _copy(v):
    return v.copy() if type(v) in _plain else v


def _funcs(ns):
    for v in list(ns.values()):
        f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else (v.fget if isinstance(v, property) else v)
        if f is not None and (isinstance(f, types.FunctionType) or hasattr(f, "cache_clear")):
            yield f


def snapshot():
    global _snap
    _snap = []
    seen = set()

    def containers(d, depth=0):
        """shallow copies of plain containers reachable through plain containers"""
        if id(d) in seen or depth > 4 or type(d) not in _plain:
            return
        seen.add(id(d))
        _snap.append((d, d.copy()))
        for v in (d.values() if isinstance(d, dict) else d):
            containers(v, depth + 1)

    def function(f):
        if id(f) in seen:
            return
        seen.add(id(f))
        w = getattr(f, "__wrapped__", None)
        if isinstance(w, types.FunctionType):
            function(w)
        if isinstance(f, types.FunctionType):
            _snap.append((f.__dict__, dict(f.__dict__)))
            for v in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                containers(v)
            for c in f.__closure__ or ():
                try:
                    containers(c.cell_contents)
                except ValueError:
                    pass

    for m in _mods():
        ns = vars(m)
        _snap.append((ns, dict(ns)))
        for f in _funcs(ns):
            if getattr(f, "__module__", None) == m.__name__:
                function(f)
        for k, v in list(ns.items()):
            if k.startswith("__"):
                continue
            containers(v)
            if isinstance(v, type) and v.__module__ == m.__name__:
                for f in _funcs(vars(v)):
                    function(f)
                for a in list(vars(v).values()):
                    containers(a)
                _snap.append((v, {a: b for a, b in vars(v).items() if not a.startswith("__")}))
            elif _owned(v) and hasattr(v, "__dict__") and id(v) not in seen:
                seen.add(id(v))
                _snap.append((v.__dict__, dict(v.__dict__)))
                for a in list(v.__dict__.values()):
                    containers(a)


def restore():
    if _snap is None:
        return
    for o, c in _snap:
        if isinstance(o, type):
            for k in [k for k in vars(o) if not k.startswith("__") and k not in c]:
                delattr(o, k)
            for k, v in c.items():
                if vars(o).get(k) is not v:
                    setattr(o, k, v)
        elif isinstance(o, dict):
            if o.keys() != c.keys() or any(o[k] is not v for k, v in c.items()):
                for k in [k for k in o if k not in c]:
                    del o[k]
                o.update(c)
        elif isinstance(o, list):
            o[:] = c
        elif isinstance(o, set):
            o.clear()
            o.update(c)
    for m in _mods():
        for f in _funcs(vars(m)):
            if hasattr(f, "cache_clear"):
                f.cache_clear()
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                for f in _funcs(vars(v)):
                    if hasattr(f, "cache_clear"):
                        f.cache_clear()
