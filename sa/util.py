"""Shared helpers of the rules."""
from .ir import walk, strip_targs
from .sym import Frame, Sym, fmt, subterms
from .engine import collect, guard_conds, flat_and, Loop


def has_const(t):
    return t[0] in ("const", "lit") and isinstance(t[-1], int) and not isinstance(t[-1], bool)


def loop_range(loop, sym):
    """('idx', var, lo, hi, step) or ('range', container) or None, normalised."""
    s, fr = loop.node, loop.frame
    if s["k"] == "rfor":
        return ("range", sym.norm(s["r"], fr))
    if s["k"] != "for":
        return None
    init, c, inc = s.get("init"), s.get("c"), s.get("inc")
    if not init or not c or not inc:
        return None
    if init["k"] == "decl" and len(init["v"]) >= 1:
        v = init["v"][0]["d"]
        lo = sym.norm(init["v"][0]["init"], fr) if init["v"][0].get("init") else None
    elif init["k"] == "asg" and init["a"]["k"] == "ref":
        v = init["a"]["d"]
        lo = sym.norm(init["b"], fr)
    else:
        return None
    cn = sym.cond(c, fr)
    if cn[0] == "bin" and cn[1] in ("<", "<=") and cn[2][0] == "bin" and cn[2][1] == "+" and cn[2][2][0] == "lit":
        cn = cn[:2] + (("bin", "+", cn[2][3], cn[2][2]), cn[3])
    hi = None
    if cn[0] == "bin" and cn[1] == "<" and cn[2][0] == "var" and cn[2][1] == v:
        hi = cn[3]
    elif cn[0] == "bin" and cn[1] in ("<", "<=") and cn[2][0] == "bin" and cn[2][1] in ("+", "-") and cn[2][2][0] == "var" \
            and cn[2][2][1] == v and cn[2][3][0] == "lit":
        k = cn[2][3][1] - (1 if cn[1] == "<=" else 0)
        hi = ("bin", "-" if cn[2][1] == "+" else "+", cn[3], ("lit", k))
    elif cn[0] == "bin" and cn[1] == "<=" and cn[2][0] == "var" and cn[2][1] == v:
        hi = ("bin", "+", cn[3], ("lit", 1))
    elif cn[0] == "un" and cn[1] == "!" and cn[2][0] == "bin" and cn[2][1] == "==":
        a, b = cn[2][2:4]
        if a[0] == "var" and a[1] == v:
            hi = b
        elif b[0] == "var" and b[1] == v:
            hi = a
    step = None
    if inc["k"] == "un" and inc["op"] == "++":
        step = ("lit", 1)
    elif inc["k"] == "asg" and inc["op"] == "+=":
        step = sym.norm(inc["b"], fr)
    elif inc["k"] == "call" and inc.get("op") == "++":
        step = ("lit", 1)
    if hi is None or step is None:
        return None
    return ("idx", v, lo, hi, step)


def one_per_pattern(fns, limit=2):
    """At most 'limit' instances of each template pattern."""
    seen = {}
    out = []
    for f in sorted(fns, key=lambda f: (f.loc[0] or "", f.loc[1], f.u)):
        k = f.get("pat") or (f.loc, f.n)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= limit:
            out.append(f)
    return out


def guard_loops(ev):
    return [g for g in ev.guards if isinstance(g, Loop)]


def mentions(node, pred):
    return any(pred(n) for n in walk(node))
