"""C16: storage layouts are bijective mixed-radix maps with exact inverses."""
import os, re
from .. import facts
from ..facts import load_kernel, AnalysisBroken
from ..ir import walk, strip_targs, Program
from ..sym import Frame, Sym, fmt, mk_not
from ..engine import collect, guard_conds, flat_and
from ..flow import Flow, poly, pmul, padd, lin_eval, contains

WHAT = ("every generated layout class and layout macro up to 6 dimensions, the choice of layout class per var shape, and the "
        "mixed-radix conversion and enumeration loops of index vectors and tuples")
TECHNIQUE = "polynomial normal forms of the generated layout functions and symbolic recurrences of the conversion loops, from the clang AST"
LEVEL = "other"
LEVEL_NOTE = "algebraic identity per layout class; the argument covers all sizes and indices"
ASSUMPTIONS = ["sizes are positive and their product fits in idx_t"]
MIN = {"layout": 60, "unlayout": 60, "macro": 60, "choice": 6, "radix-loop": 3}
NMAX = 6


def perm_of(p, ja, sa, n):
    """The storage order of a layout polynomial, or an explanation of why there is none."""
    left = dict(p)
    for m, c in p.items():
        if c != 1:
            return None, "coefficient %d" % c
    if len(p) != n:
        return None, "%d terms for %d dimensions" % (len(p), n)
    byj = {}
    for m in p:
        js = [ja(a) for a in m if ja(a) is not None]
        ss = [sa(a) for a in m if sa(a) is not None]
        if len(js) != 1 or len(js) + len(ss) != len(m):
            return None, "term %s" % " * ".join(map(fmt, m))
        if js[0] in byj:
            return None, "index %d used twice" % js[0]
        if len(set(ss)) != len(ss):
            return None, "a size is used twice in one term"
        byj[js[0]] = set(ss)
    if set(byj) != set(range(n)):
        return None, "indices %s used" % sorted(byj)
    order = sorted(byj, key=lambda j: -len(byj[j]))
    for i, j in enumerate(order):
        if byj[j] != set(order[i + 1:]):
            return None, "index %d is scaled by sizes {%s}, must be the sizes of all dimensions stored inside it {%s}" % (
                j, ",".join(map(str, sorted(byj[j]))), ",".join(map(str, sorted(order[i + 1:]))))
    return order, None


def digit(t, isx, sa):
    """(quotient size-set, modulus index or None) of an unlayout digit  (x / q) % m, or None."""
    mod = None
    if t[0] == "bin" and t[1] == "%":
        mod = sa(t[3])
        if mod is None:
            return None
        t = t[2]
    q = []
    while t[0] == "bin" and t[1] == "/":
        p = poly(t[3])
        if p is None or len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1:
            return None
        for a in m:
            if sa(a) is None:
                return None
            q.append(sa(a))
        t = t[2]
    if not isx(t):
        return None
    return sorted(q), mod


def check_un(digs, order, n):
    for i, j in enumerate(order):
        if j not in digs:
            return "index %d is not set" % j
        d = digs[j]
        if d is None:
            return "index %d is not a quotient/remainder of the offset" % j
        q, m = d
        want = sorted(order[i + 1:])
        if q != want:
            return "index %d divides by sizes {%s}, must be {%s}" % (j, ",".join(map(str, q)), ",".join(map(str, want)))
        if m is None and i > 0:
            return "index %d is not reduced modulo its own size" % j
        if m is not None and m != j:
            return "index %d is reduced modulo the size of dimension %d" % (j, m)
    return None


def idxlit(t, base):
    if t[0] == "idx" and t[2][0] == "lit" and base(t[1]):
        return t[2][1]
    return None


def check_classes(P, rep, rule_pre=""):
    sym = Sym(P)
    cl = {}
    for f in P.fns.values():
        if f.cls and f.short in ("layout", "unlayout") and re.search(r"::Layout_(\d+)$", f.cls):
            cl.setdefault(f.cls, {})[f.short] = f
    for c, fs in sorted(cl.items()):
        name = c.rsplit("_", 1)[1]
        want = [int(x) - 1 for x in name]
        n = len(want)
        if set(want) != set(range(n)):
            continue
        if "layout" not in fs or "unlayout" not in fs:
            rep.bad("layout", c, c, "%s lacks layout() or unlayout()" % c)
            continue
        f = fs["layout"]
        isj = lambda b: b[0] == "fld" and b[2][0] == "parm"
        iss = lambda b: b[0] == "fld" and b[2][0] == "fld" and b[2][2] == ("this",)
        ja = lambda a: idxlit(a, isj)
        sa = lambda a: idxlit(a, iss)
        v = sym.simple_value(f)
        if not v or v[0] != "e":
            rep.skip("layout", f.where(), "not a single expression")
            continue
        p = poly(sym.norm(v[1], Frame(f)))
        order, why = perm_of(p, ja, sa, n)
        if order is None:
            rep.bad("layout", c, f.where(), "%s::layout() is not one-to-one onto 0..product-1: %s" % (c, why))
            continue
        if order != want:
            rep.bad("layout", c, f.where(), "%s::layout() stores dimensions in order %s" % (c, order))
            continue
        rep.ok("layout", f.where(), "%s order %s" % (c, order))
        g = fs["unlayout"]
        F = Flow(P)
        F.run(g)
        digs = {}
        ret = None
        for val, gd, env, node in F.rets:
            ret = val
            for k, t in env.items():
                if k[0] == "idx" and k[2][0] == "lit" and k[1][0] == "fld" and k[1][2] == val:
                    digs[k[2][1]] = digit(t, lambda x: x[0] == "parm", sa)
        if len(F.rets) != 1:
            rep.skip("unlayout", g.where(), "several returns")
            continue
        why = check_un(digs, order, n)
        if why:
            rep.bad("unlayout", c, g.where(), "%s::unlayout() does not invert layout(): %s" % (c, why))
        else:
            rep.ok("unlayout", g.where(), c)
        gs = [x for x in P.fns.values() if x.cls == c and x.short == "get_num_sizes"]
        for x in gs:
            v = sym.simple_value(x)
            t = sym.norm(v[1], Frame(x)) if v else None
            if t != ("lit", n):
                rep.bad("layout", c + "-ndims", x.where(), "%s::get_num_sizes() is not %d" % (c, n))


def gen(rep):
    """Layout classes and macros for 1..NMAX dimensions, parsed through a wrapper."""
    d = os.path.join(facts.scratch(), "c16")
    os.makedirs(d, exist_ok=True)
    pl = os.path.join(facts.REPO, "utils/bin/gen_layouts.pl")
    for o, name in (("-m", "m.hpp"), ("-d", "d.hpp")):
        r = facts.run(["bash", "-c", "perl %s %s %d > %s" % (pl, o, NMAX, os.path.join(d, name))])
        if r.returncode:
            raise AnalysisBroken("gen_layouts.pl fails: " + r.stdout[-500:])
    src = os.path.join(d, "w.cpp")
    macros = re.findall(r"^#define ((?:UN)?LAYOUT_(\d+))\(([^)]*)\)", open(os.path.join(d, "m.hpp")).read(), re.M)
    with open(src, "w") as f:
        f.write('#include "m.hpp"\ntypedef long idx_t;\n#define ALWAYS_INLINE inline\n')
        f.write("""namespace yask { class Indices { idx_t _idxs[%d]; int n; public: Indices(int){} Indices(idx_t v, int){}
  idx_t& operator[](int i) { return _idxs[i]; } const idx_t& operator[](int i) const { return _idxs[i]; }
  void set_num_dims(int) {} };
class Layout { protected: Indices _sizes; Layout(int n, const Indices& s) : _sizes(s) {} public: Layout(int n) : _sizes(0, n) {} };
""" % (NMAX + 1))
        f.write('#include "d.hpp"\n}\n')
        for m, p, args in macros:
            a = [x.strip() for x in args.split(",")]
            if m.startswith("UN"):
                f.write("void f_%s(%s) { %s(%s); }\n" % (m, ", ".join(("idx_t& " if x[0] == "j" else "idx_t ") + x for x in a), m, ", ".join(a)))
            else:
                f.write("idx_t f_%s(%s) { return %s(%s); }\n" % (m, ", ".join("idx_t " + x for x in a), m, ", ".join(a)))
    outs = facts.extract("c16x", [src], list(facts.CLANG) + ["-I" + d], [d])
    P = Program(outs, gen=d)
    check_classes(P, rep)
    sym = Sym(P)
    names = {}
    for f in P.fns.values():
        if f.n.startswith("f_LAYOUT_") or f.n.startswith("f_UNLAYOUT_"):
            names[f.n] = f
    for nm, f in sorted(names.items()):
        if not nm.startswith("f_LAYOUT_"):
            continue
        dg = nm.rsplit("_", 1)[1]
        want = [int(x) - 1 for x in dg]
        n = len(want)
        pn = lambda a, ch: int(a[2][1:]) - 1 if a[0] == "parm" and a[2][0] == ch and a[2][1:].isdigit() else None
        pv = lambda a, ch: int(a[2][1:]) - 1 if a[0] in ("parm", "var") and a[2][0] == ch and a[2][1:].isdigit() else None
        v = sym.simple_value(f)
        order, why = perm_of(poly(sym.norm(v[1], Frame(f))), lambda a: pn(a, "j"), lambda a: pn(a, "d"), n)
        if order is not None and order != want:
            why, order = "stores dimensions in order %s" % order, None
        if order is None:
            rep.bad("macro", "LAYOUT_" + dg, "gen_layouts.pl -m", "macro LAYOUT_%s: %s" % (dg, why))
            continue
        rep.ok("macro", "gen_layouts.pl -m", "LAYOUT_" + dg)
        g = names.get("f_UNLAYOUT_" + dg)
        if g is None:
            rep.bad("macro", "UNLAYOUT_" + dg, "gen_layouts.pl -m", "no UNLAYOUT_%s" % dg)
            continue
        F = Flow(P)
        F.run(g)
        digs = {}
        for k, t in F.st.env.items():
            j = pv(k, "j")
            if j is not None:
                digs[j] = digit(t, lambda x: x[0] == "parm" and x[2] == "ai", lambda a: pn(a, "d"))
        why = check_un(digs, order, n)
        if why:
            rep.bad("macro", "UNLAYOUT_" + dg, "gen_layouts.pl -m", "macro UNLAYOUT_%s does not invert LAYOUT_%s: %s" % (dg, dg, why))
        else:
            rep.ok("macro", "gen_layouts.pl -m", "UNLAYOUT_" + dg)


def traversal(L, sizes_n):
    """Directions in which the index variable of loop L runs over 0..n-1, for both dimension orders."""
    res = {}
    first = None
    for k, t in L.entry.items():
        for y in [t] + list(L.exit.get(k, ())):
            pass
    return res


def conds_in(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "cond":
            out.add(t[1])
        for y in t:
            if isinstance(y, tuple):
                conds_in(y, out)


def index_var(L, F, isn):
    """(key, {first_inner value: (first, step)}) for the loop variable that covers all n dims, else None / message."""
    for k, e in L.entry.items():
        x = L.exit[k]
        phi = L.syms[k]
        if k[0] != "var" or not contains(L.cond or (), phi):
            continue
        cs = set()
        conds_in(e, cs)
        conds_in(x, cs)
        conds_in(L.cond, cs)
        cs = [c for c in cs if c[0] in ("fld", "parm", "var")]
        if len(cs) > 1:
            return None, "several conditions"
        res = {}
        for val in ((True, False) if cs else (None,)):
            a = {cs[0]: val} if cs else {}
            e1, x1, c1 = lin_eval(e, a), lin_eval(x, a), lin_eval(L.cond, a)
            step = padd(poly(x1), poly(phi), -1)
            if step not in ({(): 1}, {(): -1}):
                return None, "step is not +-1"
            step = step[()]
            p0 = poly(e1)
            n = {}
            nterm = [m for m in p0 if m]
            # bound.
            neq = None
            if c1[0] == "un" and c1[1] == "!" and c1[2][0] == "bin" and c1[2][1] == "==":
                o = [y for y in c1[2][2:] if y != phi]
                neq = poly(o[0]) if len(o) == 1 else None
            elif c1[0] == "bin" and c1[1] == "<" and c1[2] == phi and step == 1:
                neq = poly(c1[3])
            elif c1[0] == "bin" and c1[1] == "<=" and c1[3] == phi and step == -1:
                neq = padd(poly(c1[2]), {(): 1}, -1)
            elif c1[0] == "bin" and c1[1] == "<" and c1[3] == phi and step == -1:
                neq = poly(c1[2])
            if neq is None:
                return None, "loop bound not understood"
            lo, hi = (p0, neq) if step == 1 else (padd(neq, {(): 1}), padd(p0, {(): 1}))
            bad = None
            if lo != {}:
                bad = "starts at dimension %s" % show(lo)
            ms = list(hi.items())
            if len(ms) != 1 or ms[0][1] != 1 or len(ms[0][0]) != 1 or not isn(ms[0][0][0]):
                bad = bad or "runs up to %s" % show(hi)
            res[val] = (step, bad)
        return (k, cs[0] if cs else None, res), None
    return None, "no index variable"


def show(p):
    if not p:
        return "0"
    return " + ".join(("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(map(fmt, m))) for m, c in p.items())


def radix_loops(P, rep):
    todo = [("yask::Indices::unlayout", "un"), ("yask::Tuple::unlayout", "un"), ("yask::Tuple::layout", "lay")]
    isn = lambda a: (a[0] == "fld" and a[1].endswith("_ndims")) or (a[0] == "call" and a[1].endswith("::size")) or \
        (a[0] == "call" and a[1].endswith("get_num_dims"))
    for name, kind in todo:
        fns = P.named(name)
        if not fns:
            raise AnalysisBroken(name + " not found")
        f = [x for x in fns if x.body][0]
        F = Flow(P)
        F.run(f)
        if len(F.loops) != 1 or F.loops[0].cond is None:
            rep.skip("radix-loop", f.where(), "%s: not a single counted loop" % name)
            continue
        L = F.loops[0]
        iv, why = index_var(L, F, isn)
        if iv is None:
            rep.skip("radix-loop", f.where(), "%s: %s" % (name, why))
            continue
        k, c, dirs = iv
        phi = L.syms[k]
        bad = [b for _, b in dirs.values() if b]
        if len(dirs) == 2:
            if dirs[True][0] != 1 or dirs[False][0] != -1:
                bad.append("first-inner order does not start with the first dimension")
        if bad:
            rep.bad("radix-loop", name, f.where(), "%s: %s" % (name, bad[0]))
            continue

        def size_at(t):
            while t[0] == "cast" or (t[0] == "ctor" and len(t) == 3):
                t = t[2]
            if t[0] == "fld" and t[1].endswith("Scalar::_val"):
                t = t[2]
            if t[0] == "cond" and t[3] == ("lit", 0):
                return size_at(t[2])
            if t[0] == "idx" and t[2] == phi and contains(t[1], ("this",)):
                return "size"
            if t[0] == "idx" and contains(t[1], ("parm", 0, "offsets")):
                return "off"
            if t[0] == "fld" and contains(t, ("parm", 0, "offsets")):
                return "off"
            return None
        # the radix: a variable starting at 1 that is multiplied by the current size.
        radix = rem = None
        for q, e in L.entry.items():
            if q == k:
                continue
            p = poly(L.exit[q])
            ph = L.syms[q]
            if e == ("lit", 1) and p is not None and len(p) == 1:
                (m, cf), = p.items()
                if cf == 1 and len(m) == 2 and ph in m:
                    o = [y for y in m if y != ph]
                    if len(o) == 1 and size_at(o[0]) == "size":
                        radix = q
            x = L.exit[q]
            if x[0] == "bin" and x[1] == "/" and x[2] == ph and size_at(x[3]) == "size":
                rem = q
        if kind == "un":
            st = [(a, b) for a, b, g in L.stores if a[0] in ("idx", "fld") and contains(a, phi)]
            if not st:
                rep.skip("radix-loop", f.where(), "%s: no per-dimension result" % name)
                continue
            a, t = st[-1]
            while t[0] == "cast" or (t[0] == "ctor" and len(t) == 3):
                t = t[2]
            ok = False
            if t[0] == "bin" and t[1] == "%" and size_at(t[3]) == "size":
                u = t[2]
                if radix and u[0] == "bin" and u[1] == "/" and u[2][0] == "parm" and u[3] == L.syms[radix]:
                    ok = True
                if rem and u == L.syms[rem]:
                    ok = True
            if ok:
                rep.ok("radix-loop", f.where(), "%s: digit = offset / radix %% size, radix *= size" % name)
            else:
                rep.bad("radix-loop", name, f.where(), "%s: component %s is set to %s with radix %s; must be (offset / product of the sizes inside) %% size" % (
                    name, fmt(a), fmt(t), "updated by the size" if radix else "not multiplied by each size in turn"))
        else:
            ok = False
            for q, e in L.entry.items():
                if q in (k, radix) or e != ("lit", 0):
                    continue
                for x in flatten_cond(L.exit[q]):
                    p = padd(poly(x) or {}, {(L.syms[q],): 1}, -1)
                    if not p:
                        continue
                    if radix and len(p) == 1:
                        (m, cf), = p.items()
                        o = [y for y in m if y != L.syms[radix]]
                        if cf == 1 and len(m) == 2 and len(o) == 1:
                            leaves = flatten_cond(o[0])
                            if all(size_at(y) == "off" or y == ("lit", 0) for y in leaves):
                                ok = True
                                continue
                    ok = False
                    break
                if ok:
                    break
            if ok:
                rep.ok("radix-loop", f.where(), "%s: idx += offset * radix, radix *= size" % name)
            else:
                rep.bad("radix-loop", name, f.where(), "%s: does not add offset * (product of the sizes of the dimensions inside) per dimension" % name)


def flatten_cond(t):
    if t[0] == "cond":
        return flatten_cond(t[2]) + flatten_cond(t[3])
    return [t]


def choice(P, rep):
    """Each creation of a var selects the layout with as many dims as the var has."""
    sym = Sym(P)
    n0 = 0
    for f in P.real_fns():
        if not f.n.startswith("yask::"):
            continue
        hit = [n for n in f.nodes() if n["k"] == "call" and re.search(r"(make|allocate)_shared$", n.get("n") or "") and "YkElemVar<" in str(n.get("t"))]
        if not hit:
            continue
        for e in collect(P, f, sym, enter=lambda t, x: False):
            n = e.node
            if n not in hit:
                continue
            m = re.search(r"Layout_(\w+), (true|false)>", n["t"])
            if not m:
                continue
            lay, wrap = m.group(1), m.group(2) == "true"
            nd = 0 if lay == "0d" else len(lay)
            cs = flat_and(guard_conds(e))
            num = [c for c in cs if c[0] == "bin" and c[1] == "==" and any(y[0] == "lit" for y in c[2:])]
            if nd == 0:
                num0 = [c for c in cs if c[0] == "un" and c[1] == "!" and "size" in fmt(c)]
                if num0:
                    rep.ok("choice", P.at(n), "0-D")
                    continue
            vals = [y[1] for c in num for y in c[2:] if y[0] == "lit"]
            flag = [c for c in cs if c[0] in ("var", "parm")]
            nflag = [c[2] for c in cs if c[0] == "un" and c[1] == "!" and c[2][0] in ("var", "parm")]
            key = "%s/%s" % (lay, wrap)
            if nd not in vals or any(v != nd for v in vals):
                rep.bad("choice", key, P.at(n), "layout %s (%d dims) is chosen for a var with %s dims" % (lay, nd, vals or "an unchecked number of"))
            elif (wrap and not flag) or (not wrap and flag):
                rep.bad("choice", key, P.at(n), "step-index wrapping is %s although the step dimension is %s" % (wrap, "not known to be used" if wrap else "used"))
            elif list(lay) != sorted(lay):
                rep.bad("choice", key, P.at(n), "layout %s does not keep the declared dimension order" % lay)
            else:
                rep.ok("choice", P.at(n), "Layout_%s wrap=%s" % (lay, wrap))
            a = [sym.norm(y, e.frame) for y in n["a"]]


def enumerate_order(P, rep):
    """Sequential enumeration agrees with unlayout: next_index increments the inner dim and carries outwards."""
    for name in ("yask::Indices::next_index", "yask::Tuple::next_index"):
        fns = [x for x in P.named(name) if x.body]
        if not fns:
            continue
        f = fns[0]
        F = Flow(P)
        F.run(f)
        if len(F.loops) != 1:
            rep.skip("enumerate", f.where(), "no single carry loop")
            continue
        L = F.loops[0]
        # the carry position and its direction.
        pos = None
        for k, e in L.entry.items():
            cs = set()
            conds_in(e, cs)
            if k[0] == "var" and cs:
                pos = (k, e, cs.pop())
        if pos is None:
            rep.skip("enumerate", f.where(), "carry position not understood")
            continue
        k, e, c = pos
        phi = L.syms[k]
        ok = []
        for val, start0, step in ((True, True, 1), (False, False, -1)):
            e1 = poly(lin_eval(e, {c: val}))
            x1 = padd(poly(lin_eval(L.exit[k], {c: val})), {(phi,): 1}, -1)
            good_start = (e1 == {}) if start0 else (e1 is not None and e1.get(()) == -1 and len(e1) == 2)
            ok.append(good_start and x1 == {(): step})
        zero = [(a, b, g) for a, b, g in L.stores if b == ("lit", 0) and contains(a, phi)]
        carry = []
        for a, b, g in L.stores:
            if a[0] in ("idx", "fld") and contains(a, phi) and b != ("lit", 0):
                carry.append((a, b))
        good = all(ok) and zero and carry
        for a, b in carry:
            d = padd(poly(b) or {}, {(a,): 1}, -1)
            if d != {(): 1}:
                good = False
        # zero only when the index reached the size of the same dim.
        for a, b, g in zero:
            if not any(y[0] == "bin" and y[1] in ("<=",) and y[3] == a for y in flat_and(list(g))):
                good = False
        if good:
            rep.ok("enumerate", f.where(), name)
        else:
            rep.bad("enumerate", name, f.where(), "%s: does not advance to the next index tuple (increment inner dim; on reaching its size reset it and carry 1 into the next dim)" % name)


def check(rep, tier):
    rep.rule("layout", "layout() is sum over dims of index * product of the sizes of the dims stored inside it, in the order given by the class name (hence a bijection onto 0..product-1)")
    rep.rule("unlayout", "unlayout() sets every index to (offset / the same product) % own size")
    rep.rule("macro", "the preprocessor form of every layout satisfies the same two rules")
    rep.rule("choice", "a var of n dims gets an n-dim layout in declared order, with step wrapping exactly if it uses the step dim")
    rep.rule("radix-loop", "conversion loops keep radix = product of the sizes already passed and use it before updating it, over all dims in the selected order")
    rep.rule("enumerate", "sequential enumeration advances exactly one position in the same order")
    P = load_kernel()
    check_classes(P, rep)
    gen(rep)
    choice(P, rep)
    radix_loops(P, rep)
    enumerate_order(P, rep)
