"""Values of constant globals, from their IR initialisers."""
import re


def value(p, name, unit=None):
    """nested lists of numbers, or None"""
    g = p.globalinit(name, unit)
    if g is None:
        return None
    u = next(x for x in p.units.values() if x.globals.get(name) is g)
    return conv(g.get("init"), u.types[g["t"]] if isinstance(g.get("t"), int) else g.get("t"))


def dims(t):
    m = re.match(r"^\[(\d+) x (.*)\]$", t)
    return [int(m.group(1))] + dims(m.group(2)) if m else []


def conv(o, t):
    d = dims(t)
    if isinstance(o, dict) and o.get("k") in ("z", "zero", "zeroinit", "null"):
        return zeros(d)
    v = raw(o)
    if v == 0 and d:
        return zeros(d)
    return v if not d else fill(v, d)


def fill(v, d):
    if not d:
        return v
    if v == 0 or v is None:
        return zeros(d)
    return [fill(x, d[1:]) for x in v]


def zeros(d):
    return [zeros(d[1:]) for _ in range(d[0])] if d else 0


def raw(o):
    if isinstance(o, (int, float)):
        return o
    if isinstance(o, list):
        return [raw(x) for x in o]
    if isinstance(o, dict):
        k = o.get("k")
        if k == "c" or k == "fp":
            return o.get("v")
        if "e" in o:
            return [raw(x) for x in o["e"]]
        if "v" in o:
            return raw(o["v"])
        if k in ("z", "zero", "zeroinit"):
            return 0
    return None
