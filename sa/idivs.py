"""Floor-division helpers (common/idiv.hpp): case analysis on the sign of the
numerator and of the remainder; the denominator is positive."""
from .flow import poly, poly_eq, padd
from .sym import Frame, Sym, fmt, subterms, mk_bin, mk_cond


def case_eval(t, a, b, aneg, rem):
    """Rewrite t under a<0 (aneg) and the sign of a % b (rem in -1, 0, 1)."""
    ev = lambda y: case_eval(y, a, b, aneg, rem)
    r = ("bin", "%", a, b)
    if t == r:
        return ("lit", 0) if rem == 0 else t
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "cast":
        return ev(t[2])
    if t[0] == "cond":
        c = ev(t[1])
        if c[0] == "lit":
            return ev(t[2] if c[1] else t[3])
        return ("cond", c, ev(t[2]), ev(t[3]))
    if t[0] == "un" and t[1] == "!":
        c = ev(t[2])
        return ("lit", not c[1]) if c[0] == "lit" else ("un", "!", c)
    if t[0] == "un":
        x = ev(t[2])
        if t[1] == "-" and x[0] == "lit" and type(x[1]) is int:
            return ("lit", -x[1])
        return (t[0], t[1], x)
    if t[0] == "bin" and len(t) == 4:
        x, y = ev(t[2]), ev(t[3])
        sg = sign(x, a, r, aneg, rem), sign(y, a, r, aneg, rem)
        if t[1] in ("<", "<="):
            if y == ("lit", 0) and sg[0] is not None:
                return ("lit", sg[0] < 0 if t[1] == "<" else sg[0] <= 0)
            if x == ("lit", 0) and sg[1] is not None:
                return ("lit", 0 < sg[1] if t[1] == "<" else 0 <= sg[1])
        if t[1] == "==" and ("lit", 0) in (x, y):
            s = sg[0] if y == ("lit", 0) else sg[1]
            if s is not None and (s in (-1, 0) or rem != 0 or s == 1):
                return ("lit", s == 0)
        if t[1] == ">>" and y[0] == "lit" and y[1] in (63, 31) and sg[0] is not None:
            return ("lit", -1 if sg[0] < 0 else 0)
        if t[1] == ">>" and y[0] != "lit" and sg[0] is not None and fmt(y).find("sizeof") >= 0:
            return ("lit", -1 if sg[0] < 0 else 0)
        if t[1] in ("&&", "||") and x[0] == "lit" and y[0] == "lit":
            return ("lit", bool(x[1] and y[1]) if t[1] == "&&" else bool(x[1] or y[1]))
        if x[0] == "lit" and isinstance(x[1], bool) and t[1] in "+-*":
            x = ("lit", int(x[1]))
        if y[0] == "lit" and isinstance(y[1], bool) and t[1] in "+-*":
            y = ("lit", int(y[1]))
        return mk_bin(t[1], x, y)
    return t


def sign(t, a, r, aneg, rem):
    if t == a:
        return -1 if aneg else (None if rem is None else 1)  # a >= 0: treated as non-negative
    if t == r:
        return rem
    if t[0] == "lit" and type(t[1]) is int:
        return (t[1] > 0) - (t[1] < 0)
    return None


def canon_div(t):
    """Polynomial over atoms where (p)/b is an atom keyed by the polynomial p; (x - x%b)/b stays as is."""
    from .flow import padd
    if t[0] == "bin" and t[1] == "/":
        p, q = poly(t[2]), poly(t[3])
        return {(("quot", tuple(sorted(p.items(), key=repr)), tuple(sorted(q.items(), key=repr))),): 1}
    if t[0] == "bin" and t[1] in "+-" and len(t) == 4:
        return padd(canon_div(t[2]), canon_div(t[3]), 1 if t[1] == "+" else -1)
    if t[0] == "bin" and t[1] == "*" and len(t) == 4:
        from .flow import pmul
        return pmul(canon_div(t[2]), canon_div(t[3]))
    return poly(t)


CASES = [("a >= 0, divisible", False, 0), ("a >= 0, not divisible", False, 1), ("a < 0, divisible", True, 0), ("a < 0, not divisible", True, -1)]


def ok_idiv(t, a, b):
    """None if t is floor(a/b) for b > 0; else the failing case."""
    one = ("lit", 1)
    adj = mk_bin("-", a, mk_bin("-", b, one))
    for name, neg, rem in CASES:
        v = case_eval(t, a, b, neg, rem)
        q = ("bin", "/", a, b)
        if not neg:
            good = [q]
        elif rem == 0:
            good = [q, ("bin", "/", adj, b)]
        else:
            good = [("bin", "/", adj, b), mk_bin("-", q, one)]
        if rem == 0:
            pass
        # a - a%b over b is a/b truncated.
        tr = ("bin", "/", mk_bin("-", a, ("bin", "%", a, b)), b)
        if q in good:
            good.append(tr)
        if not any(canon_div(v) == canon_div(g) for g in good):
            return name, v
    return None


def ok_imod(t, a, b):
    r = ("bin", "%", a, b)
    for name, neg, rem in CASES:
        v = case_eval(t, a, b, neg, rem)
        # (r + b) % b  with 0 <= r: r;  with r < 0: r + b.
        if v[0] == "bin" and v[1] == "%" and v[3] == b:
            p = poly(v[2])
            rr = poly(r) if rem else {}
            if p == padd(rr, poly(b)):
                v = ("lit", 0) if rem == 0 else (r if rem > 0 else mk_bin("+", r, b))
        want = ("lit", 0) if rem == 0 else (r if rem > 0 else mk_bin("+", r, b))
        if not poly_eq(v, want):
            return name, v
    return None


def check_helpers(P, rep, rule):
    """Verify idiv_flr, imod_flr and what is built on them, in every instance."""
    done = set()
    S0 = Sym(P)
    deps = {"yask::ceil_idiv_flr", "yask::round_up_flr", "yask::round_down_flr", "yask::idiv_flr", "yask::imod_flr"}
    for nm in sorted(deps):
        fs = P.named(nm)
        fs = [f for f in fs if not f.dep and f.params and f.params[0].get("t") in ("long", "int", "const long", "const int")] or [f for f in fs if not f.dep]
        for f in fs[:3]:
            if len(f.params) != 2:
                continue
            a = ("parm", 0, f.params[0]["n"])
            b = ("parm", 1, f.params[1]["n"])
            sym = Sym(P, keep=deps - ({nm} if nm in ("yask::idiv_flr", "yask::imod_flr") else set()))
            if nm in ("yask::idiv_flr", "yask::imod_flr"):
                sym = Sym(P)
            from .flow import Flow
            F = Flow(P, keep=sym.keep, opaque=sym.keep)
            F.run(f)
            if len(F.rets) != 1:
                t = None
                v = sym.simple_value(f)
                if v is not None:
                    t = sym.norm_val(v, Frame(f))
            else:
                t = F.rets[0][0]
            if t is None:
                rep.skip(rule, f.where(), "%s: more than one way out" % f.n)
                continue
            call = lambda n, x, y: ("call", "yask::" + n, None, x, y)
            one = ("lit", 1)
            if nm == "yask::idiv_flr":
                if any(y[0] == "call" for y in subterms(t)):
                    rep.skip(rule, f.where(), fmt(t))
                    continue
                why = ok_idiv(t, a, b)
            elif nm == "yask::imod_flr":
                if any(y[0] == "call" for y in subterms(t)):
                    # a - idiv_flr(a, b) * b is the definition.
                    if poly_eq(t, mk_bin("-", a, mk_bin("*", call("idiv_flr", a, b), b))):
                        why = None
                    else:
                        rep.skip(rule, f.where(), fmt(t))
                        continue
                else:
                    why = ok_imod(t, a, b)
            else:
                t = canon_calls(t)
                ap1 = canon_calls(mk_bin("-", mk_bin("+", a, b), one))
                forms = {
                    "yask::ceil_idiv_flr": [call("idiv_flr", ap1, b), mk_bin("+", call("idiv_flr", canon_calls(mk_bin("-", a, one)), b), one)],
                    "yask::round_up_flr": [mk_bin("*", call("ceil_idiv_flr", a, b), b), mk_bin("*", call("idiv_flr", ap1, b), b),
                                           call("round_down_flr", ap1, b)],
                    "yask::round_down_flr": [mk_bin("*", call("idiv_flr", a, b), b), mk_bin("-", a, call("imod_flr", a, b))],
                }[nm]
                why = None
                if not any(poly_eq(t, canon_calls(g)) for g in forms):
                    why = ("all a", t)
            if why:
                rep.bad(rule, nm, f.where(), "%s(a, b) does not round toward negative infinity for %s: it yields %s" % (nm, why[0], fmt(why[1])[:150]))
            else:
                rep.ok(rule, f.where(), f.n)


def canon_calls(t):
    """Arguments of helper calls as canonical polynomials."""
    from .flow import unpoly
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "call":
        return t[:3] + tuple(atomise(canon_calls(y)) for y in t[3:])
    if isinstance(t[0], str):
        return tuple(canon_calls(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in t)
    return t


def atomise(t):
    from .flow import unpoly
    if t[0] in ("lit", "parm", "var", "phi", "fld", "idx", "poly"):
        return t
    p = poly(t)
    if p is None:
        return t
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return unpoly(p)
