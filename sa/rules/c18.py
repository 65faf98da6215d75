"""C18: element-wise, scalar, reducing and comparing operations on Tuple and Indices."""
import re
from ..facts import load_kernel, load_compiler
from ..ir import strip_targs
from ..sym import fmt, subterms, mk_not
from ..flow import Flow

TECHNIQUE = "value-flow summaries of every loop of the tuple and index-vector methods, compared with the operation each method is named for"
WHAT = ("all element-wise, scalar and reducing methods, comparisons, lookups and value setters of Tuple<int>, Tuple<idx_t>, Scalar and Indices, "
        "including the helpers and function objects they instantiate")
ASSUMPTIONS = ["pool pointers of dimension names are equal exactly when the names are (they come from one name pool, and names are compared as well)",
               "std::min and std::max return the smaller and larger argument"]
MIN = {"element": 20, "reduce": 8, "compare": 10, "access": 8}

OPS = {"add": "+", "sub": "-", "mul": "*", "mult": "*", "div": "/", "min": "min", "max": "max", "neg": "neg", "abs": "abs"}
RED = {"sum": "+", "product": "*", "min": "min", "max": "max"}
SHOW = {"neg": "negation", "abs": "absolute value", "min": "minimum", "max": "maximum"}


def unphi(t):
    while t[0] == "phi":
        t = t[2]
    return t


def last(n):
    return strip_targs(str(n)).rsplit("::", 1)[-1]


def elem(t):
    """(what, base, index) of one element: what in _val, _namep, _idxs."""
    t = unphi(t) if t[0] == "phi" and isinstance(t[2], tuple) and t[2] and t[2][0] in ("fld", "idx") else t
    if t[0] == "idx" and unphi(t[1])[0] == "fld" and last(unphi(t[1])[1]) == "_idxs":
        return "_idxs", unphi(t[1])[2], t[2]
    if t[0] == "fld" and last(t[1]) in ("_val", "_namep"):
        b = unphi(t[2]) if t[2][0] == "phi" else t[2]
        if b[0] == "idx":
            q = unphi(b[1])
            if q[0] == "fld" and last(q[1]) == "_q":
                return last(t[1]), q[2], b[2]
        if b[0] == "var":
            return last(t[1]), None, b
    return None


def key_of(ix, base=None):
    """Position or name an element is selected by."""
    if ix[0] == "call" and last(ix[1]) == "lookup_posn" and len(ix) >= 4:
        if base is not None and ix[2] is not None and unphi(ix[2]) != unphi(base):
            return ("other", ix)
        e = elem(ix[3])
        if e and e[0] == "_namep":
            return ("name", e[2])
        return ("name", ix[3])
    if ix[0] == "var":
        return ("name", ix)
    return ("pos", ix)


def op_of(t, a, b):
    """Operation of a term over symbols a and b -> (op, exchanged) or None."""
    if t[0] == "bin" and t[1] in ("+", "*", "-", "/"):
        if t[2:] == (a, b):
            return t[1], False
        if t[2:] == (b, a):
            return t[1], t[1] in ("-", "/")
    if t[0] == "un" and t[1] == "-" and t[2] == a:
        return "neg", False
    if t[0] == "bin" and t[1] == "*" and a in t[2:] and ("lit", -1) in t[2:]:
        return "neg", False
    if t[0] in ("call", "bin") and last(t[1]) in ("min", "max") and set(t[2:]) - {None} == {a, b}:
        return last(t[1]), False
    if t[0] in ("min", "max") and set(t[1:]) == {a, b}:
        return t[0], False
    if t[0] == "call" and last(t[1]) in ("llabs", "abs", "labs", "fabs") and t[3:] == (a,):
        return "abs", False
    if t[0] == "cond":
        c = t[1]
        if c[0] == "bin" and c[1] in ("<", "<=") and set(c[2:]) == {a, b} and set(t[2:]) == {a, b}:
            return ("min" if t[2] == c[2] else "max"), False
    if t in (a, b):
        return "copy", False
    return None


def index_loop(LL, ix):
    """Is every element visited by index symbol ix?  True / message / None."""
    if LL.range is not None:
        r = unphi(LL.range)
        return True if r[0] == "fld" and last(r[1]) == "_q" or r[0] == "parm" else None
    ph = [y for y in subterms(ix) if y[0] == "phi" and y in LL.syms.values()]
    if len(ph) != 1:
        return None
    i = ph[0]
    key = [k for k, v in LL.syms.items() if v == i][0]
    e, x, c = LL.entry[key], LL.exit[key], LL.cond
    if x not in (("bin", "+", ("lit", 1), i), ("bin", "+", i, ("lit", 1))):
        if x[0] == "bin" and x[1] == "+" and i in x[2:] and any(y[0] == "lit" and y[1] not in (1, -1) for y in x[2:]):
            return "it advances by %s" % fmt(x)
        return None
    if e[0] == "lit" and e[1] != 0:
        return "it starts at %s" % fmt(e)
    if e != ("lit", 0):
        return None
    if c is None or c[0] != "bin":
        return None
    if c[1] == "<" and c[2] == i:
        n = c[3]
    elif c[1] == "<=" and c[2] == ("bin", "+", ("lit", 1), i):
        n = c[3]
    elif c[1] == "<=" and c[2] == i:
        n = c[3]
        if bound(n):
            return "it runs one element too far"
        return None
    elif c[1] == "<" and c[2] in (("bin", "+", ("lit", 1), i), ("bin", "+", i, ("lit", 1))):
        return "it leaves out the last element" if bound(c[3]) else None
    else:
        return None
    if bound(n):
        return True
    if n[0] == "bin" and n[1] == "-" and bound(n[2]) and n[3][0] == "lit" or n[0] == "bin" and n[1] == "+" and ("lit", -1) in n[2:] and any(bound(y) for y in n[2:]):
        return "it leaves out the last element"
    if n[0] == "parm":
        return True
    if n[0] == "call" and last(n[1]) == "min" and all(bound(y) or y[0] == "parm" for y in n[3:]):
        return True
    return None


def bound(n):
    n = unphi(n)
    if n[0] == "fld" and last(n[1]) == "_ndims":
        return True
    if n[0] == "const" and last(n[1]) == "max_idxs":
        return True
    if n[0] == "call" and last(n[1]) == "size":
        return True
    if n[0] == "cond":
        return all(bound(y) or y[0] == "parm" for y in n[2:])
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    return tuple(subst(y, m) if isinstance(y, tuple) else y for y in t)


def methods(P):
    for f in sorted(P.fns.values(), key=lambda f: f.u):
        if f.dep or f.body is None or not f.cls:
            continue
        c = strip_targs(f.cls)
        if c in ("yask::Tuple", "yask::Indices", "yask::Scalar"):
            yield f, c.rsplit("::", 1)[-1]


def check(rep, tier):
    rep.rule("element", "an element-wise method stores, for each component, the operation of its name applied to the corresponding components in order")
    rep.rule("complete", "every component takes part")
    rep.rule("result", "the result is a new object that starts as a copy of the left operand, and the operands are left unchanged")
    rep.rule("reduce", "a reduction combines every component by the operation of its name, starting from that operation's neutral value")
    rep.rule("compare", "a comparison decides by the relation of its name, component by component in order")
    rep.rule("derived", "a derived comparison is the stated combination of equality and less-than")
    rep.rule("access", "a component accessor returns the component asked for")
    rep.rule("copy", "values are copied between corresponding components")
    for P in (load_kernel(), load_compiler()):
        for fn, c in methods(P):
            key = "%s::%s(%s)" % (c, fn.short, ",".join(re.sub(r"\bconst |yask::| &|<\w+>|std::", "", p["t"]) for p in fn.params))
            m = re.match(r"(add|sub|mul|mult|div|min|max|neg|abs)_(elements|const)$", fn.short)
            if m and c != "Scalar":
                elementwise(rep, P, fn, c, key, OPS[m.group(1)], m.group(1) in ("neg", "abs"))
            elif fn.short in RED and not fn.params and c != "Scalar":
                reduction(rep, P, fn, c, key, RED[fn.short])
            elif fn.short in ("operator==", "operator<", "operator>") and len(fn.params) == 1:
                comparison(rep, P, fn, c, key)
            elif fn.short in ("operator!=", "operator<=", "operator>=") and len(fn.params) == 1:
                derived(rep, P, fn, c, key)
            elif fn.short in ("combine_elements", "map_elements"):
                result(rep, P, fn, key)
            elif fn.short in ("get_val", "lookup", "operator[]", "get_dim_name", "set_val") and c in ("Tuple", "Indices"):
                access(rep, P, fn, c, key)
            elif fn.short == "lookup_posn":
                posn(rep, P, fn, key)
            elif fn.short == "are_dims_same":
                dims_same(rep, P, fn, key)
            elif fn.short in ("set_vals", "get_vals", "set_from_array", "set_from_vec", "set_from_tuple", "set_tuple_vals", "set_from_init_list", "set_from_const",
                              "set_vals_same", "make_tuple", "make_union_with", "remove_dim") and c in ("Tuple", "Indices"):
                copying(rep, P, fn, c, key)


def elem_stores(F):
    """(loop, key, value, guards) of component stores; only from the innermost loop."""
    out = []
    for LL in F.loops:
        for k, v, g in LL.stores:
            if k[0] == "idx" and F.objinit.get(unphi(k[1])) == ("this",):
                out.append((LL, ("fld", "_val", ("idx", ("fld", "_q", unphi(k[1])), k[2])), v, g))
            elif elem(k) and elem(k)[0] in ("_val", "_idxs") and not any((k, v, g) in L2.stores for L2 in LL.inner):
                out.append((LL, k, v, g))
    return out


def elementwise(rep, P, fn, c, key, op, unary):
    F = Flow(P)
    F.run(fn)
    where = fn.where()
    scalar = not unary and "Tuple" not in fn.params[0]["t"] and "Indices" not in fn.params[0]["t"]
    st = elem_stores(F)
    if not st:
        rep.skip("element", where, "%s: no component store found" % key)
        return
    flags = [p["n"] for p in fn.params[1:] if p["t"] == "bool"]
    for LL, k, v, g in st:
        tw, tb, ti = elem(k)
        if tb == ("this",) or tb is not None and tb[0] == "parm":
            rep.bad("result", key, where, "%s changes its operand" % key)
            continue
        # the elements read.
        A = B = None
        akey = bkey = None
        for y in subterms(v):
            e = elem(y)
            if not e or e[0] == "_namep":
                continue
            base = e[1]
            if base is None or base == ("this",) or base == tb:
                # a range variable over this tuple, this, or the not-yet-updated copy.
                if base is None and LL.range is not None and unphi(LL.range) != ("fld", unphi(LL.range)[1], ("this",)):
                    B, bkey = y, key_of(e[2], base)
                    continue
                if base == tb and F.objinit.get(tb) not in (("this",), None):
                    continue
                A, akey = y, key_of(e[2], base)
            elif base[0] == "parm":
                B, bkey = y, key_of(e[2], base)
        if scalar:
            ps = [y for y in subterms(v) if y[0] == "parm"]
            B = ps[0] if ps else None
        if A is None or B is None and not unary:
            rep.skip("element", where, "%s: stores %s" % (key, fmt(v)[:80]))
            continue
        m = {A: ("A",)}
        if B is not None:
            m[B] = ("B",)
        r = op_of(subst(v, m), ("A",), ("B",))
        if r is None:
            rep.skip("element", where, "%s: stores %s" % (key, fmt(v)[:80]))
        elif r[0] != op:
            rep.bad("element", key, where, "%s applies %s to the components" % (key, SHOW.get(r[0], r[0])))
        elif r[1]:
            rep.bad("element", key + ":order", where, "%s exchanges its operands" % key)
        else:
            rep.ok("element", where, key)
        # correspondence.
        tkey = key_of(ti, tb)
        loose = any(x[0] == "un" and x[1] == "!" and x[2][0] == "parm" and x[2][-1] in flags for x in g)
        if B is not None and not scalar:
            if loose and bkey[0] in ("pos", "other"):
                rep.bad("element", key + ":pair", where, "%s pairs components by position although the dimensions may differ" % key)
            elif not same_key(akey, bkey):
                if akey[0] == bkey[0] == "pos":
                    rep.bad("element", key + ":pair", where, "%s combines component %s with component %s" % (key, fmt(akey[1]), fmt(bkey[1])))
                else:
                    rep.skip("element", where, "%s: pairing of %s and %s" % (key, akey, bkey))
            if loose:
                # a missing component must be left out.
                if not any(any(y[0] == "call" and last(y[1]) == "lookup_posn" for y in subterms(x)) for x in g):
                    rep.skip("element", where, key + ": absent components")
        if not same_key(akey, tkey):
            if akey[0] == tkey[0] == "pos" or tkey[0] == "pos" and tkey[1][0] == "lit":
                rep.bad("element", key + ":target", where, "%s stores the result of component %s in component %s" % (key, fmt(akey[1]), fmt(tkey[1])))
            else:
                rep.skip("element", where, "%s: target" % key)
        full = index_loop(LL, ti)
        if full is True:
            rep.ok("complete", where, key)
        elif full:
            rep.bad("complete", key, where, "the loop of %s does not visit every component: %s" % (key, full))
        else:
            rep.skip("complete", where, key)
    for LL in F.loops:
        for v, g, e, s in LL.rets:
            if s["k"] in ("break", "ret") and s["k"] == "break":
                rep.bad("complete", key, where, "%s stops before every component was visited" % key)
    result(rep, P, fn, key, F)


def same_key(a, b):
    if a == b:
        return True
    return False


def result(rep, P, fn, key, F=None):
    if F is None:
        F = Flow(P)
        F.run(fn)
    own = [LL for LL in F.loops if LL.frame is not None and getattr(LL.frame, "fn", None) is fn]
    for v, g, e, s in F.rets:
        u = unphi(v)
        if u == ("this",):
            rep.bad("result", key, fn.where(), "%s returns its unmodified operand" % key)
        elif u[0] == "var":
            init = F.objinit.get(u)
            stores = {elem(k)[1] for _, k, _, _ in elem_stores(F)}
            if init == ("this",):
                if stores and u not in stores:
                    rep.bad("result", key, fn.where(), "%s returns an object it did not store the results in" % key)
                else:
                    rep.ok("result", fn.where(), key)
            else:
                rep.skip("result", fn.where(), "%s starts from %s" % (key, fmt(init) if init else "?"))
        elif u[0] == "call" and last(u[1]) in ("combine_elements", "map_elements"):
            if u[2] == ("this",):
                rep.ok("result", fn.where(), key)
            else:
                rep.skip("result", fn.where(), "%s returns %s" % (key, fmt(u)[:60]))


def reduction(rep, P, fn, c, key, op):
    F = Flow(P)
    F.run(fn)
    where = fn.where()
    done = over = False
    for LL in F.loops:
        for k, sy in LL.syms.items():
            x = LL.exit[k]
            es = [y for y in subterms(x) if elem(y) and elem(y)[0] in ("_val", "_idxs")]
            if not es or sy not in list(subterms(x)):
                if es and k[0] == "var" and x == es[0] and LL.range is not None and x != LL.entry[k]:
                    over = True
                continue
            A = es[0]
            v = subst(x, {A: ("A",), sy: ("R",)})
            entry = LL.entry[k]
            first = None
            if v[0] == "cond" and ("R",) not in list(subterms(v[1])) and ("A",) in v[2:]:
                first = v[1]
                body, pick = (v[2], "else") if v[3] == ("A",) else (v[3], "then")
            else:
                body = v
            r = op_of(body, ("R",), ("A",))
            if r is None:
                rep.skip("reduce", where, "%s: accumulates %s" % (key, fmt(x)[:80]))
                done = True
                continue
            done = True
            if r[0] != op:
                rep.bad("reduce", key, where, "%s combines the components by %s" % (key, SHOW.get(r[0], r[0])))
                continue
            if first is not None:
                ok = first_iteration(LL, first)
                if ok is None:
                    rep.skip("reduce", where, "%s: first component" % key)
                elif ok != (pick == "then"):
                    rep.bad("reduce", key + ":first", where, "%s does not start from the first component" % key)
                else:
                    rep.ok("reduce", where, key)
            else:
                ident = {"+": 0, "*": 1}.get(op)
                if entry[0] != "lit":
                    rep.skip("reduce", where, "%s starts from %s" % (key, fmt(entry)[:60]))
                elif ident is None or entry[1] != ident:
                    rep.bad("reduce", key + ":init", where, "%s starts from %s" % (key, fmt(entry)))
                else:
                    rep.ok("reduce", where, key)
            # the empty case.
            want = {"*": 1}.get(op, 0)
            empty = entry
            for rv, g, e, s in F.rets:
                if rv[0] == "cond" and rv[1][0] == "call" and last(rv[1][1]) == "size":
                    empty = rv[3]
                elif rv[0] == "cond":
                    empty = None
                if any("size" in fmt(z) for z in g):
                    empty = None
            if empty is not None and empty[0] == "lit":
                if empty[1] != want:
                    rep.bad("reduce", key + ":empty", where, "%s of no components is %s instead of %d" % (key, empty[1], want))
                else:
                    rep.ok("reduce", where, key + " of no components")
            full = index_loop(LL, elem(A)[2])
            if full is True:
                rep.ok("complete", where, key)
            elif full:
                rep.bad("complete", key, where, "the loop of %s does not visit every component: %s" % (key, full))
            else:
                rep.skip("complete", where, key)
    if not done and over:
        rep.bad("reduce", key, where, "%s keeps only the last component" % key)
    elif not done:
        rep.skip("reduce", where, "%s: no accumulator found" % key)


def first_iteration(LL, c):
    """Truth of c in the first iteration."""
    m = {}
    for k, sy in LL.syms.items():
        m[sy] = LL.entry[k]
    t = subst(c, m)
    if t[0] == "lit":
        return bool(t[1])
    if t[0] == "un" and t[1] == "!" and t[2][0] == "lit":
        return not t[2][1]
    if t[0] == "bin" and t[2][0] == t[3][0] == "lit":
        a, b = t[2][1], t[3][1]
        return {"==": a == b, "<": a < b, "<=": a <= b}.get(t[1])
    return None


# ---- comparisons

def quantity(x, y):
    """x of this, y of the parameter: the compared quantity, else None."""
    def norm(t):
        if t[0] == "parm":
            return ("this",)
        if t[0] == "phi":
            return ("phi", 0, unphi(t))
        return tuple(norm(z) if isinstance(z, tuple) else z for z in t)
    if norm(x) != norm(y):
        return None
    xp = any(z[0] == "parm" for z in subterms(x))
    yp = any(z[0] == "parm" for z in subterms(y))
    if xp == yp:
        return None
    return norm(x), xp


def qname(q):
    e = elem(q)
    if e:
        return {"_namep": "name", "_val": "value", "_idxs": "value"}[e[0]]
    if q[0] == "fld":
        return {"_ndims": "size", "_val": "value", "_namep": "name"}.get(last(q[1]))
    if q[0] == "call" and last(q[1]) == "size":
        return "size"
    return None


def ev(t, rel, unknown):
    """Evaluate a condition; rel: name -> '<' '=' '>' (this against rhs)."""
    if t[0] == "lit":
        return bool(t[1])
    if t[0] == "un" and t[1] == "!":
        v = ev(t[2], rel, unknown)
        return None if v is None else not v
    if t[0] == "bin" and t[1] in ("&&", "||"):
        a, b = ev(t[2], rel, unknown), ev(t[3], rel, unknown)
        if t[1] == "&&":
            return False if False in (a, b) else (None if None in (a, b) else True)
        return True if True in (a, b) else (None if None in (a, b) else False)
    if t[0] == "cond":
        c = ev(t[1], rel, unknown)
        return None if c is None else ev(t[2] if c else t[3], rel, unknown)
    if t[0] == "bin" and t[1] in ("<", "<=", "==", "!="):
        q = quantity(t[2], t[3])
        if q:
            n = qname(q[0])
            r = rel.get(n)
            if r is None:
                unknown.add(n or fmt(t))
                return None
            if q[1]:
                r = {"<": ">", ">": "<", "=": "="}[r]
            return {"<": r == "<", "<=": r != ">", "==": r == "=", "!=": r != "="}[t[1]]
    if t[0] == "call" and last(t[1]) == "are_dims_same":
        strict = len(t) > 4 and t[4] in (("lit", True), ("lit", 1))
        if not strict:
            unknown.add("dims in any order")
            return rel.get("size") == "="
        return rel.get("size") == "=" and rel.get("name") == "="
    unknown.add(fmt(t)[:60])
    return None


def comparison(rep, P, fn, c, key):
    F = Flow(P)
    F.run(fn)
    where = fn.where()
    op = fn.short[len("operator"):]
    if fn.short == "operator>" and c == "Tuple" or c == "Scalar" and op == ">":
        derived(rep, P, fn, c, key)
        return
    names = {"Scalar": ["value", "name"], "Indices": ["size", "value"], "Tuple": ["size", "value", "name"]}[c]
    expect_end = op == "=="
    loopconds = {LL.cond for LL in F.loops if LL.cond is not None}
    for LL in F.loops:
        if LL.range is not None:
            continue
        rets = [r for r in F.rets if r in LL.rets]
        if not rets:
            continue
        ixs = [elem(y)[2] for r in rets for g in r[1] for y in subterms(g) if elem(y)]
        full = index_loop(LL, ixs[0]) if ixs else None
        if full is True:
            rep.ok("complete", where, key)
        elif full:
            rep.bad("complete", key, where, "the loop of %s does not visit every component: %s" % (key, full))
        else:
            rep.skip("complete", where, key)

    where_ = []

    def outcome(rel):
        unk = set()
        for v, g, e, s in F.rets:
            live = True
            for x in g:
                if x in loopconds:
                    continue
                b = ev(x, rel, unk)
                if b is None:
                    return None, unk
                if not b:
                    live = False
                    break
            if live:
                b = ev(v, rel, unk)
                where_.append(any((v, g, e, s) in LL.rets for LL in F.loops))
                return b, unk
        return None, unk
    bad = skipped = False
    import itertools
    for vals in itertools.product("<=>", repeat=len(names)):
        rel = dict(zip(names, vals))
        got, unk = outcome(rel)
        if "dims in any order" in unk and got is not None:
            rep.bad("compare", key + ":order", where, "%s ignores the order of the dimensions" % key)
            bad = True
            break
        if got is None:
            skipped = True
            rep.skip("compare", where, "%s: %s" % (key, ", ".join(sorted(map(str, unk)))[:100]))
            break
        if op == "==":
            want = all(x == "=" for x in vals)
        else:
            d = [x for x in vals if x != "="]
            want = bool(d) and d[0] == op
            order = [n for n, x in zip(names, vals) if x != "="]
        first = [n for n, x in zip(names, vals) if x != "="][:1]
        if c != "Scalar" and F.loops and where_[-1] != (first in (["value"], ["name"])) and \
                not (op == "==" and (rel.get("name", "=") != "=" or sum(x != "=" for x in vals) > 1)):
            bad = True
            rep.bad("compare", key + ":rest", where, "%s %s" % (key,
                    "decides by a later component although an earlier one differs" if first else "does not look at every component"))
            break
        if got != want:
            bad = True
            rep.bad("compare", key, where, "%s yields %s when %s" % (key, str(got).lower(),
                    " and ".join("the %s %s that of the right operand" % (n, {"<": "is below", "=": "equals", ">": "is above"}[x]) for n, x in rel.items())))
            break
    if not bad and not skipped:
        rep.ok("compare", where, key)


def derived(rep, P, fn, c, key):
    F = Flow(P)
    F.run(fn)
    op = fn.short[len("operator"):]

    def val(t, r):
        if t[0] == "un" and t[1] == "!":
            v = val(t[2], r)
            return None if v is None else not v
        if t[0] == "bin" and t[1] in ("&&", "||"):
            a, b = val(t[2], r), val(t[3], r)
            if None in (a, b):
                return None
            return a and b if t[1] == "&&" else a or b
        if t[0] == "lit":
            return bool(t[1])
        if t[0] == "call":
            m = re.search(r"operator(==|<=|>=|!=|<|>)$", str(t[1]))
            if m:
                sw = t[2] is not None and t[2][0] == "parm"
                r2 = {"<": ">", ">": "<", "=": "="}[r] if sw else r
                return {"==": r2 == "=", "<": r2 == "<", ">": r2 == ">", "<=": r2 != ">", ">=": r2 != "<", "!=": r2 != "="}[m.group(1)]
        return None
    if not F.rets or len(F.rets) != 1:
        rep.skip("derived", fn.where(), key)
        return
    for r in "<=>":
        v = val(F.rets[0][0], r)
        want = {"==": r == "=", "<": r == "<", ">": r == ">", "<=": r != ">", ">=": r != "<", "!=": r != "="}[op]
        if v is None:
            rep.skip("derived", fn.where(), "%s returns %s" % (key, fmt(F.rets[0][0])[:80]))
            return
        if v != want:
            rep.bad("derived", key, fn.where(), "%s is %s when the left operand %s the right one" % (
                key, str(v).lower(), {"<": "is below", "=": "equals", ">": "is above"}[r]))
            return
    rep.ok("derived", fn.where(), key)


# ---- access and copying

def access(rep, P, fn, c, key):
    F = Flow(P)
    F.run(fn)
    if fn.short == "set_val":
        terms = [(k, v) for k, v in F.st.env.items() if elem(k)]
        if len(terms) != 1:
            rep.skip("access", fn.where(), key)
            return
        if terms[0][1] != ("parm",) + tuple(terms[0][1][1:]) or terms[0][1][-1] != fn.params[1]["n"]:
            rep.skip("access", fn.where(), "%s stores %s" % (key, fmt(terms[0][1])[:60]))
            return
        ts = [terms[0][0]]
    else:
        ts = []
        for v, g, e, s in F.rets:
            st = [v]
            while st:
                y = st.pop()
                if y[0] == "cond":
                    st += [y[2], y[3]]
                elif y[0] != "lit":
                    ts.append(y)
    for t in ts:
        e = elem(t)
        if not e:
            rep.skip("access", fn.where(), "%s gives %s" % (key, fmt(t)[:60]))
            continue
        want = "_namep" if fn.short == "get_dim_name" else ("_idxs" if c == "Indices" else "_val")
        ix = e[2]
        good = ix[0] == "parm" and ix[-1] == fn.params[0]["n"]
        good = good or ix[0] == "call" and last(ix[1]) == "lookup_posn" and ix[2] == ("this",) and ix[3][0] == "parm" and ix[3][-1] == fn.params[0]["n"]
        if e[1] is not None and e[1] != ("this",):
            rep.skip("access", fn.where(), key)
        elif e[0] != want:
            rep.bad("access", key, fn.where(), "%s gives %s" % (key, fmt(t)[:60]))
        elif not good:
            if any(y[0] == "parm" for y in subterms(ix)) or ix[0] == "lit":
                rep.bad("access", key, fn.where(), "%s gives component %s" % (key, fmt(ix)[:60]))
            else:
                rep.skip("access", fn.where(), key)
        else:
            rep.ok("access", fn.where(), key)


def posn(rep, P, fn, key):
    F = Flow(P)
    F.run(fn)
    for v, g, e, s in F.rets:
        if v == ("lit", -1):
            rep.ok("access", fn.where(), key + " absent")
            continue
        hit = None
        for x in g:
            if x[0] == "bin" and x[1] == "==":
                for y in x[2:]:
                    el = elem(y)
                    if el and el[0] == "_namep":
                        hit = el[2]
        if hit is None:
            if v[0] == "lit" and len(F.rets) and v[1] >= 0:
                rep.bad("access", key, fn.where(), "a dimension that does not exist is given position %s" % v[1])
            else:
                rep.skip("access", fn.where(), key)
        elif hit == v:
            rep.ok("access", fn.where(), key)
        elif v[0] == "phi" or v[0] == "bin":
            rep.bad("access", key, fn.where(), "the position returned is not that of the matching name")
        else:
            rep.skip("access", fn.where(), key)
    for LL in F.loops:
        ixs = [r[0] for r in LL.rets if r[0][0] == "phi"]
        if ixs:
            full = index_loop(LL, ixs[0])
            if full is True:
                rep.ok("complete", fn.where(), key)
            elif full:
                rep.bad("complete", key, fn.where(), "the loop of %s does not visit every component: %s" % (key, full))
            else:
                rep.skip("complete", fn.where(), key)


def dims_same(rep, P, fn, key):
    F = Flow(P)
    F.run(fn)
    where = fn.where()
    flag = fn.params[1]["n"] if len(fn.params) > 1 else None
    for v, g, e, s in F.rets:
        inl = any((v, g, e, s) in LL.rets for LL in F.loops)
        neg = [x for x in g if x[0] == "un" and x[1] == "!"]
        if inl:
            by_order = any(x[0] == "parm" and x[-1] == flag for x in g)
            if v != ("lit", False) and v != ("lit", 0):
                rep.bad("compare", key, where, "%s succeeds as soon as one dimension matches" % key)
                continue
            hit = [x for x in neg if any(elem(y) and elem(y)[0] == "_namep" for y in subterms(x))]
            if not hit:
                rep.skip("compare", where, key)
                continue
            t = hit[-1][2]
            if by_order:
                q = quantity(t[2], t[3]) if t[0] == "bin" and t[1] == "==" else None
                if q and qname(q[0]) == "name":
                    rep.ok("compare", where, key + " same order")
                elif t[0] == "bin" and t[1] == "==":
                    rep.bad("compare", key, where, "%s compares names at different positions" % key)
                else:
                    rep.skip("compare", where, key)
            else:
                lk = [y for y in subterms(t) if y[0] == "call" and last(y[1]) == "lookup_posn"]
                if lk and lk[0][2] is not None and lk[0][2][0] == "parm":
                    rep.ok("compare", where, key + " any order")
                elif lk:
                    rep.bad("compare", key, where, "%s looks its own names up in itself" % key)
                else:
                    rep.skip("compare", where, key)
    sz = [r for r in F.rets if r[0] in (("lit", False), ("lit", 0)) and any("size" in fmt(x) for x in r[1][:1])]
    if not sz:
        rep.skip("compare", where, key + ": sizes")


def copying(rep, P, fn, c, key):
    F = Flow(P, opaque={"yask::Tuple::add_dim_back"})
    F.run(fn)
    if c == "Tuple" and fn.short in ("set_vals", "make_union_with", "remove_dim"):
        adding(rep, P, fn, F, key)
    where = fn.where()
    start = [p["n"] for p in fn.params if p["n"] == "start"]
    # stores to components (or to a result vector) from components or arrays.
    for LL in F.loops:
        for k, v, g in LL.stores:
            if any((k, v, g) in L2.stores for L2 in LL.inner):
                continue
            ek = elem(k)
            if not ek and not (k[0] == "idx" and unphi(k[1])[0] == "var"):
                continue
            ti = ek[2] if ek else k[2]
            if fn.short in ("set_vals_same", "set_from_const"):
                if v[0] == "parm" and v[-1] == fn.params[0]["n"]:
                    rep.ok("copy", where, key)
                else:
                    rep.skip("copy", where, key)
                full = index_loop(LL, ti)
                if full not in (True, None):
                    rep.bad("complete", key, where, "the loop of %s does not visit every component: %s" % (key, full))
                elif full is None:
                    rep.skip("complete", where, key)
                else:
                    rep.ok("complete", where, key)
                continue
            ev_ = elem(v)
            if ev_ and ev_[0] != "_namep":
                si = ev_[2]
            elif v[0] == "idx":
                si = v[2]
            elif v[0] == "var":
                si = v
            else:
                rep.skip("copy", where, "%s stores %s" % (key, fmt(v)[:60]))
                continue
            tk, sk = key_of(ti), key_of(si)
            if tk[0] == "name" and sk[0] == "pos":
                # names[i] <-> values[i]
                nm = tk[1]
                ok = nm[0] == "idx" and nm[2] == sk[1] or nm[0] not in ("idx",) and any(y == sk[1] for y in subterms(nm)) or \
                    nm == sk[1] or nm[0] == "idx" and nm[2] == sk[1]
                if ok:
                    rep.ok("copy", where, key)
                elif nm[0] == "idx":
                    rep.bad("copy", key, where, "%s gives the dimension named by entry %s the value of component %s" % (key, fmt(nm[2]), fmt(sk[1])))
                else:
                    rep.skip("copy", where, "%s: target %s" % (key, fmt(ti)[:60]))
                continue
            if LL.range is not None and v == LL.var and tk[0] == "pos":
                r = counted(LL, tk[1], start)
                if r is True:
                    rep.ok("copy", where, key)
                elif r:
                    rep.bad("copy", key + ":start", where, "%s %s" % (key, r))
                else:
                    rep.skip("copy", where, "%s: %s" % (key, fmt(ti)[:60]))
                continue
            if tk == sk:
                rep.ok("copy", where, key)
                if start and tk[0] == "pos" and fn.short in ("get_vals", "set_vals"):
                    rep.bad("copy", key + ":start", where, "%s ignores its starting position" % key)
            elif tk[0] == sk[0] == "pos" and start and shifted(tk[1], sk[1], start[0], fn.short):
                rep.ok("copy", where, key)
            elif tk[0] == sk[0] == "pos" and not any(y[0] == "un" for y in subterms(tk[1])):
                rep.bad("copy", key, where, "%s copies component %s to component %s" % (key, fmt(sk[1]), fmt(tk[1])))
            else:
                rep.skip("copy", where, "%s: %s to %s" % (key, fmt(si)[:40], fmt(ti)[:40]))
                continue
            full = index_loop(LL, ti) if tk[0] == "pos" else None
            if full not in (True, None):
                rep.bad("complete", key, where, "the loop of %s does not visit every component: %s" % (key, full))
            elif full:
                rep.ok("complete", where, key)
    if c == "Indices" and fn.short in ("set_from_array", "set_from_vec", "set_from_tuple", "set_from_init_list"):
        nd = [v for k, v in F.st.env.items() if k[0] == "fld" and last(k[1]) == "_ndims" and k[2] == ("this",)]
        if not nd:
            rep.bad("copy", key + ":size", where, "%s does not set the number of components" % key)
        else:
            rep.ok("copy", where, key + " size")


def shifted(t, s, start, which):
    """target/source differ by the starting position on the documented side."""
    x, y = (s, t) if which == "get_vals" else (t, s)
    return x[0] == "bin" and x[1] == "+" and y in x[2:] and any(z[0] == "parm" and z[-1] == start for z in x[2:])


def counted(LL, t, start):
    """Target index of a range-for: counter from 0, plus the starting position when there is one."""
    ph = [y for y in subterms(t) if y[0] == "phi" and y in LL.syms.values()]
    if len(ph) != 1:
        return None
    i = ph[0]
    k = [k for k, v in LL.syms.items() if v == i][0]
    if LL.exit[k] not in (("bin", "+", ("lit", 1), i), ("bin", "+", i, ("lit", 1))):
        return None
    hasp = any(y[0] == "parm" and y[-1] in start for y in subterms(t)) or any(y[0] == "parm" and y[-1] in start for y in subterms(LL.entry[k]))
    if start and not hasp:
        return "ignores its starting position"
    e = LL.entry[k]
    if t == i:
        return True if (e == ("lit", 0) or start and e[0] == "parm") else None
    if t[0] == "bin" and t[1] == "+" and i in t[2:] and hasp and e == ("lit", 0):
        return True
    return None


def found_guard(x):
    """+1: under 'the dimension exists', -1: under 'it does not', 0: neither."""
    sg = 1
    while x[0] == "un" and x[1] == "!":
        sg, x = -sg, x[2]
    if x[0] == "bin" and x[1] in ("<", "<="):
        lk = [y[0] == "call" and last(y[1]) == "lookup_posn" for y in x[2:]]
        if lk == [False, True]:
            return sg
        if lk == [True, False]:
            return -sg
    if x[0] == "cond" and any(y[0] == "call" and last(y[1]) == "lookup_posn" for y in subterms(x[1])) and x[3] == ("lit", 0):
        return sg
    return 0


def adding(rep, P, fn, F, key):
    where = fn.where()
    seen = set()
    tup = fn.params and "Tuple" in fn.params[0]["t"]
    if fn.short == "set_vals" and not tup:
        return
    flag = [p["n"] for p in fn.params if p["t"] == "bool"]
    adds = [c for c in F.calls + [c for L in F.loops for c in L.calls] if any(t.short == "add_dim_back" for t in P.targets(c[0]))]
    for node, fr, args, g in adds:
        sig = (repr(args), repr(g))
        if sig in seen:
            continue
        seen.add(sig)
        el = [elem(a) for a in args]
        if len(args) == 2 and all(el):
            if [e[0] for e in el] != ["_namep", "_val"] or el[0][2] != el[1][2]:
                rep.bad("copy", key + ":add", where, "%s adds a dimension with another dimension's value" % key)
                continue
        fg = [found_guard(x) for x in g]
        if fn.short == "remove_dim":
            eq = [x for x in g if x[0] == "bin" and x[1] == "==" or x[0] == "un" and x[1] == "!" and x[2][0] == "bin" and x[2][1] == "=="]
            if not eq:
                rep.skip("copy", where, key)
            elif eq[-1][0] == "bin":
                rep.bad("copy", key + ":which", where, "%s keeps only the dimension to be removed" % key)
            else:
                rep.ok("copy", where, key)
        elif 1 in fg:
            rep.bad("copy", key + ":which", where, "%s adds a dimension when it exists already" % key)
        elif fn.short == "make_union_with" and -1 not in fg:
            rep.bad("copy", key + ":which", where, "%s overwrites the values of existing dimensions" % key)
        elif fn.short == "set_vals" and flag and not any(y == flag[0] for x in g for z in subterms(x) if z[0] == "parm" for y in z[-1:]):
            rep.bad("copy", key + ":which", where, "%s adds missing dimensions unasked" % key)
        else:
            rep.ok("copy", where, key)
    if fn.short == "set_vals":
        st = [(k, v, g) for LL in F.loops for k, v, g in LL.stores if elem(k) and elem(k)[0] == "_val"]
        if not st:
            rep.bad("copy", key + ":set", where, "%s never updates an existing dimension" % key)
        for k, v, g in st:
            if -1 in [found_guard(x) for x in g]:
                rep.bad("copy", key + ":set", where, "%s updates only dimensions that do not exist" % key)
