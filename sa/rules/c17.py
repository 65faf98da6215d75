"""C17: generated scan loops visit every tile exactly once."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from .. import facts, idivs
from ..facts import AnalysisBroken
from ..ir import walk, strip_targs, Program
from ..sym import fmt, mk_bin, subterms, mk_cond
from ..flow import Flow, poly, pmul, padd, contains, unpoly

WHAT = ("the loop nests emitted for every loop specification of the kernel Makefile and for a set of further specifications "
        "(1-4 dims, flattened, nested, two-level, serpentine, square-wave, tiled, OpenMP, with and without alignment)")
TECHNIQUE = "symbolic per-iteration index terms of the generated loops from the clang AST, matched against mixed-radix bijection and range-partition schemes"
LEVEL = "other"
LEVEL_NOTE = "algebraic identity per loop nest, covering all bounds, strides and alignments"
ASSUMPTIONS = ["strides, alignments and tile sizes are positive and begin <= end in every dimension",
               "manual-scheduling loops (not used by any build) are not decided"]
MIN = {"indices": 40, "range": 80, "idiv": 5}
KEEP = ("yask::ceil_idiv_flr", "yask::round_down_flr", "yask::round_up_flr", "yask::idiv_flr", "yask::imod_flr", "yask::div_equally_cumu_size_n")
FIELDS = ("begin", "end", "stride", "align", "align_ofs", "tile_size")


def specs():
    out = []
    for al in ("", "-no-align"):
        for n in (1, 2, 3, 4):
            ds = ",".join(str(i) for i in range(1, n + 1))
            for mods in ("", "nested", "omp", "omp nested", "serpentine", "square_wave", "square_wave serpentine", "tiled", "omp tiled"):
                if n == 1 and mods not in ("", "omp"):
                    continue
                if n == 4 and mods not in ("", "nested", "serpentine"):
                    continue
                out.append(("%s %s" % (mods, al), al, "%s loop(%s) { }" % (mods, ds)))
        out.append(("two-level " + al, al, "loop(1) { nested loop(2,3) { } }"))
        out.append(("two-level omp serpentine " + al, al, "omp loop(1) { serpentine loop(2,3) { } }"))
        out.append(("two-level serpentine 1+1 " + al, al, "loop(1) { serpentine loop(2) { } }"))
        out.append(("three-level " + al, al, "omp loop(1,2) { loop(3) { loop(4) { } } }"))
        out.append(("order " + al, al, "loop(3,1,2) { }"))
        out.append(("order nested " + al, al, "nested loop(2,3,1) { }"))
    return out


def unit(t):
    """Canonical form with polynomial arithmetic nodes."""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    if t[0] == "cast":
        return unit(t[2])
    if t[0] == "poly":
        return t
    if t[0] == "bin" and t[1] in ("+", "-", "*") and len(t) == 4 or (t[0] == "un" and t[1] == "-"):
        t2 = tuple(unit(y) if isinstance(y, tuple) else y for y in t)
        p = P2(t2)
        return pack(p)
    if t[0] == "bin" and t[1] in ("min", "max"):
        a, b = unit(t[2]), unit(t[3])
        return ("bin", t[1]) + tuple(sorted((a, b), key=repr))
    if t[0] in ("call",):
        return t[:2] + (None,) + tuple(unit(y) for y in t[3:])
    r = tuple(unit(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in t)
    if r[0] == "bin" and r[1] in ("&", "|", "^", "==", "&&", "||"):
        r = r[:2] + tuple(sorted(r[2:], key=repr))
    return r


def P2(t):
    """poly() that also opens packed polynomials."""
    if t[0] == "poly":
        return {m: c for m, c in t[1:]}
    if t[0] == "bin" and t[1] in ("+", "-", "*") and len(t) == 4:
        a, b = P2(t[2]), P2(t[3])
        return pmul(a, b) if t[1] == "*" else padd(a, b, 1 if t[1] == "+" else -1)
    if t[0] == "un" and t[1] == "-":
        return padd({}, P2(t[2]), -1)
    return poly(t)


def pack(p):
    if not p:
        return ("lit", 0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ("lit", c)
        if c == 1 and len(m) == 1:
            return m[0]
    return unpoly(p)


def B(op, a, b):
    return unit(("bin", op, a, b))


class Nest:
    def __init__(self, dims, inp, align):
        self.dims, self.align = dims, align
        self.v = {(f, d): ("idx", ("fld", f, inp), ("lit", d)) for f in FIELDS for d in dims}

    def abegins(self, d):
        """Accepted forms of the first tile boundary."""
        b, ao, a, s = (self.v[(f, d)] for f in ("begin", "align_ofs", "align", "stride"))
        if not self.align:
            return [b]
        aa = unit(mk_bin("min", a, s))
        rel = B("-", b, ao)
        return [B("+", ("call", "yask::round_down_flr", None, rel, aa), ao),
                B("-", b, ("call", "yask::imod_flr", None, rel, aa)),
                B("+", B("*", ("call", "yask::idiv_flr", None, rel, aa), aa), ao)]


def check_nest(rep, P, fn, dims, align, mods, tag, omp):
    F = Flow(P, keep=KEEP, opaque=KEEP)
    F.run(fn)
    bodies = [c for c in F.calls if strip_targs(c[0].get("n") or "") == "body"]
    where = "gen_loops.pl '%s'" % tag
    key = re.sub(r"\s+", "_", tag)
    if len(bodies) != 1:
        rep.bad("indices", key, where, "the loop body appears %d times" % len(bodies))
        return
    node, fr, args, guards = bodies[0]
    loops = [l for l in F.loops if any(c[0] is node for c in l.calls)]
    n = len(dims)
    inp = ("parm", 0, fn.params[0]["n"])
    # the input struct field names are printed qualified.
    def strip(t):
        if isinstance(t, tuple):
            if t and t[0] == "fld":
                return ("fld", t[1].rsplit("::", 1)[-1], strip(t[2]))
            return tuple(strip(y) for y in t)
        return t
    start = {d: unit(strip(args[3 * i])) for i, d in enumerate(dims)}
    stop = {d: unit(strip(args[3 * i + 1])) for i, d in enumerate(dims)}
    index = {d: unit(strip(args[3 * i + 2])) for i, d in enumerate(dims)}
    N = Nest(dims, inp, align)
    # 1. ranges.
    count = {}
    for d in dims:
        I = index[d]
        b, e, s = N.v[("begin", d)], N.v[("end", d)], N.v[("stride", d)]
        ok = False
        why = None
        for ab in N.abegins(d):
            lo = B("+", ab, B("*", I, s))
            hi = B("+", ab, B("*", B("+", I, ("lit", 1)), s))
            wst = unit(mk_bin("max", lo, b)) if align else lo
            wsp = unit(mk_bin("min", hi, e))
            if start[d] in (wst, unit(mk_bin("max", lo, b))) and stop[d] in (wsp,):
                ok = True
                count[d] = [("call", "yask::ceil_idiv_flr", None, B("-", e, ab), s),
                            ("call", "yask::idiv_flr", None, B("-", B("+", B("-", e, ab), s), ("lit", 1)), s)]
        if not ok:
            rep.bad("range", "%s:%s" % (key, d), where, "dimension %d: tile i must cover [first boundary + i*stride, first boundary + (i+1)*stride) clipped to [begin, end); emitted start = %s, stop = %s" % (
                d, show(start[d]), show(stop[d])))
        else:
            rep.ok("range", where, "dim %d" % d)
    if len(count) < n:
        return
    # 2. index tuples.
    phis = {}     # phi term -> count term (upper bound)
    for l in loops:
        its = [q for q, p in l.syms.items() if l.entry.get(q) == ("lit", 0) and unit(l.exit[q]) == B("+", p, ("lit", 1))]
        bad = True
        for q in its:
            p = l.syms[q]
            c = unit(strip(l.cond))
            if c[0] == "bin" and c[1] == "<" and c[2] == p:
                phis[p] = c[3]
                bad = False
            elif c[0] == "un" and c[1] == "!" and c[2][0] == "bin" and c[2][1] == "==" and p in c[2][2:4]:
                phis[p] = c[2][3] if c[2][2] == p else c[2][2]
                bad = False
        if bad:
            if "manual" in tag:
                rep.skip("indices", where, "manual scheduling")
                return
            rep.bad("indices", key, where, "a loop does not run from 0 in steps of 1 up to a bound (condition %s)" % fmt(l.cond)[:120])
            return
    why = bijective(dims, index, count, phis, mods, N)
    if why:
        rep.bad("indices", key, where, why)
    else:
        rep.ok("indices", where, "dims %s over %d loop(s)" % (dims, len(loops)))
    # 3. privacy of the body indices in parallel loops.
    if omp:
        ref = node.get("a") and node["a"][0]
        shared = False
        for nd in fn.nodes():
            if nd["k"] == "decl":
                for v in nd["v"]:
                    if "ScanIndices" in (v.get("t") or "") and v.get("ref"):
                        shared = True
        if shared:
            rep.bad("private", key, where, "the body indices of a parallel loop alias the shared loop indices")
        else:
            rep.ok("private", where)


def bijective(dims, index, count, phis, mods, N):
    """None if (loop counters) -> (index tuple) is one-to-one onto the product of [0, N_d)."""
    if "tiled" in mods:
        return tiled(dims, index, count, phis, N)
    base = {}
    X = dict(index)
    if "square_wave" in mods and len(dims) >= 2:
        w = unsquare(dims, X, count)
        if w:
            return w
    done = []
    for d in dims:
        t = X[d]
        if t[0] == "cond":
            c, a, b = t[1:4]
            rev = lambda x: [B("-", B("-", n, x), ("lit", 1)) for n in count[d]]
            if a in rev(b):
                x = b
            elif b in rev(a):
                x = a
            else:
                return "index of dimension %d is neither a loop digit nor its reversal: %s" % (d, show(t))
            if b == x and b in rev(a):
                pass
            # the condition may only depend on outer dims.
            cc = c
            for o in done:
                cc = subst(cc, index[o], ("lit", 0))
                cc = subst(cc, base[o], ("lit", 0))
            if any(contains(cc, p) for p in phis):
                return "the reversal of dimension %d depends on something other than an enclosing index: %s" % (d, show(c))
            t = x
        base[d] = t
        done.append(d)
    # digits.
    used = {}
    for d in dims:
        t = base[d]
        m = None
        q = {(): 1}
        if t in phis:
            used.setdefault(t, []).append((d, q, m))
            continue
        if t[0] == "bin" and t[1] == "%":
            m = t[3]
            t = t[2]
        while t[0] == "bin" and t[1] == "/":
            q = pmul(q, P2(t[3]))
            t = t[2]
        if t not in phis:
            return "index of dimension %d is not derived from a loop counter: %s" % (d, show(base[d]))
        used.setdefault(t, []).append((d, q, m))
    if set(used) != set(phis):
        return "a loop counter selects no index"
    for p, l in used.items():
        l.sort(key=lambda x: len(next(iter(x[1]))) if x[1] else 0)
        # each count variant.
        for variant in range(2):
            prod = {(): 1}
            why = None
            for d, q, m in l:
                if q != prod:
                    why = "dimension %d divides the counter by %s, must be %s" % (d, show(pack(q)), show(pack(prod)))
                    break
                if m is not None and m != count[d][variant]:
                    why = "dimension %d is taken modulo %s, must be its own count %s" % (d, show(m), show(count[d][variant]))
                    break
                if m is None and d != l[-1][0]:
                    why = "dimension %d is not reduced modulo its count" % d
                    break
                prod = pmul(prod, P2(count[d][variant]))
            if why is None and P2(phis[p]) != prod:
                why = "the loop runs %s times, must be %s" % (show(phis[p]), show(pack(prod)))
            if why is None:
                break
        if why:
            return why
    return None


def unsquare(dims, X, count):
    a, b = dims[-2], dims[-1]
    na, nb = count[a], count[b]
    ta, tb = X[a], X[b]
    if ta[0] != "cond":
        return "square-wave: outer index of the pair is not conditional: %s" % show(ta)
    G, P, Q = ta[1:4]            # Q: original digit of a
    # reversal of b under every-other.
    revc = None
    t = tb
    x0 = None
    for n in nb:
        if t[0] == "cond" and t[2] == B("-", B("-", n, t[3]), ("lit", 1)):
            revc = t[1]
            t = t[3]
            break
    if revc is not None:
        want = [("bin", "==", ("lit", 2), y) for y in (B2("&", ta, 2), B2("&", ta, 2, True))] + \
               [B2("&", ta, 2), B2("&", ta, 2, True)]
        if revc not in [unit(w) for w in want]:
            return "square-wave: direction is reversed under %s, must be bit 1 of the outer index" % show(revc)
    if t[0] != "cond" or t[1] != G:
        return "square-wave: inner index is not adjusted under the same condition as the outer one"
    Qb = t[3]
    good = []
    for n in nb:
        for m in na:
            x2 = B("+", Qb, B("*", n, ("bin",) + ("&",) + tuple(sorted((Q, ("lit", 1)), key=repr))))
            lsb = mk_bin("^", mk_bin("&", x2, ("lit", 1)), ("bin", ">>", mk_bin("&", x2, ("lit", 2)), ("lit", 1)))
            for mask in (("lit", -2), ("un", "~", ("lit", 1))):
                good.append((("bin", "/", x2, ("lit", 2)), mk_bin("|", mk_bin("&", Q, mask), lsb)))
                good.append((("bin", ">>", x2, ("lit", 1)), mk_bin("|", mk_bin("&", Q, mask), lsb)))
    if (t[2], P) not in [tuple(map(unit, g)) for g in good]:
        return "square-wave: pair (outer, inner) maps to (%s, %s), which is not the expected pairing" % (show(P), show(t[2]))
    gs = [unit(mk_bin("&&", ("bin", "<", ("lit", 1), n), ("bin", "<", ("bin", "/", Q, ("lit", 2)), ("bin", "/", m, ("lit", 2))))) for n in nb for m in na]
    if G not in gs:
        return "square-wave: applied under %s" % show(G)
    X[a], X[b] = Q, Qb
    return None


def B2(op, t, k, swap=False):
    a, b = t, ("lit", k)
    return ("bin", op, b, a) if swap else ("bin", op, a, b)


def tiled(dims, index, count, phis, N):
    if len(phis) != 1:
        return "tiled: more than one loop counter"
    (L, bound), = phis.items()
    for v in range(2):
        cn = {d: count[d][v] for d in dims}
        prod = ("lit", 1)
        for d in dims:
            prod = B("*", prod, cn[d])
        if unit(bound) != prod:
            why = "tiled: the loop runs %s times, must be %s" % (show(bound), show(prod))
            continue
        full, nt, lt, tile = {}, {}, {}, {}
        prev = L
        why = None
        for i, d in enumerate(dims):
            full[d] = unit(mk_bin("min", ("call", "yask::ceil_idiv_flr", None, N.v[("tile_size", d)], N.v[("stride", d)]), cn[d]))
            nt[d] = unit(mk_cond(full[d], ("bin", "/", cn[d], full[d]), ("lit", 0)))
            tg = full[d]
            for o in dims[:i]:
                tg = B("*", tg, lt[o])
            for o in dims[i + 1:]:
                tg = B("*", tg, cn[o])
            tile[d] = unit(mk_cond(tg, ("bin", "/", prev, tg), ("lit", 0)))
            prev = ("bin", "%", prev, tg)
            lt[d] = unit(mk_cond(("bin", "<=", nt[d], tile[d]), B("-", cn[d], B("*", nt[d], full[d])), full[d]))
        for i, d in enumerate(dims):
            t = prev
            inner = ("lit", 1)
            for o in dims[i + 1:]:
                inner = B("*", inner, lt[o])
            if dims[i + 1:]:
                t = ("bin", "/", t, inner)
            if i > 0:
                t = ("bin", "%", t, lt[d])
            want = B("+", B("*", full[d], tile[d]), unit(t))
            if index[d] != want:
                why = "tiled: index of dimension %d is %s, must be full tile size * tile number + offset within the tile" % (d, show(index[d]))
        if why is None:
            return None
    return why


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(y, a, b) if isinstance(y, tuple) else y for y in t)
    return t


def show(t):
    def f(t):
        if not isinstance(t, tuple):
            return str(t)
        if t and t[0] == "poly":
            out = []
            for m, c in t[1:]:
                s = "*".join(f(a) for a in m)
                out.append(("%d*" % c if c != 1 and m else ("%d" % c if not m else "")) + s)
            return "(" + " + ".join(out) + ")"
        if t and t[0] == "bin" and t[1] not in ("min", "max"):
            return "(" + (" %s " % t[1]).join(f(y) for y in t[2:]) + ")"
        if t and t[0] in ("bin", "call"):
            return t[1].rsplit("::", 1)[-1] + "(" + ", ".join(f(y) for y in t[2:] if y is not None) + ")"
        if t and t[0] == "cond":
            return "(%s ? %s : %s)" % tuple(f(y) for y in t[1:4])
        if t and t[0] == "idx":
            return f(t[1]) + "[" + f(t[2]) + "]"
        if t and t[0] == "fld":
            return t[1]
        return fmt(t)
    s = f(t)
    return s if len(s) < 260 else s[:257] + "..."


def check(rep, tier):
    rep.rule("idiv", "the rounding helpers used by the loops round toward negative infinity (case split on signs)")
    rep.rule("range", "in each dimension tile i covers [b + i*stride, b + (i+1)*stride) clipped to [begin, end), where b is begin, or begin aligned down by less than a stride")
    rep.rule("indices", "the loop counters map one-to-one onto the product of the per-dimension tile counts, each count being ceil((end - b) / stride)")
    rep.rule("private", "a parallel loop gives each iteration its own copy of the body indices")
    d = os.path.join(facts.scratch(), "c17")
    os.makedirs(d, exist_ok=True)
    gl = os.path.join(facts.REPO, "utils/bin/gen_loops.pl")
    jobs = []
    # specifications of the build.
    gen = os.path.join(facts.scratch(), "c17gen")
    facts.make_gen(gen)
    for h in facts.LOOP_HDRS:
        p = os.path.join(gen, h)
        txt = open(p).read()
        m = re.search(r"pseudo-code:\s*\*\s*\n?\s*\*?\s*(.*?)\s*\*\s*\*/", txt, re.S)
        code = re.sub(r"\s*\*\s*", " ", m.group(1)) if m else ""
        pre = re.search(r"^#ifdef (\w+?)USE_LOOP_PART_0", txt, re.M)
        if not m or not pre:
            raise AnalysisBroken("cannot recognise generated loop header " + h)
        jobs.append((h[5:-10].replace("_loops", "") + ": " + code.strip(), p, pre.group(1), code, "_ALIGN_OFS(1)" in txt or "align_ofs" in txt and "aligned_begin" in txt))
    todo = []
    for i, (tag, al, code) in enumerate(specs()):
        p = os.path.join(d, "l%d.hpp" % i)
        pre = "z%d_" % i
        todo.append(["perl", gl, "-output", p, "-prefix", pre] + ([al] if al else []) + ["-omp", "omp parallel for", code])
        jobs.append((tag.strip() + ": " + code.strip(), p, pre.upper(), code, not al))
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(todo, ex.map(lambda c: facts.run(c, cwd=d), todo)):
            if r.returncode or not os.path.exists(c[3]):
                raise AnalysisBroken("gen_loops.pl fails on %s: %s" % (c[-1], r.stdout[-400:]))
    src = os.path.join(d, "w.cpp")
    with open(src, "w") as f:
        f.write('#include "idiv.hpp"\n#include <algorithm>\ntypedef long idx_t;\nnamespace yask { idx_t div_equally_cumu_size_n(idx_t,idx_t,idx_t); }\n')
        f.write("#define YCAT_(a,b) a##b\n#undef YCAT\n#define YCAT(a,b) YCAT_(a,b)\nextern \"C\" int omp_get_num_threads(); extern \"C\" int omp_get_thread_num();\n")
        f.write("struct ScanIndices { explicit ScanIndices(bool); %s };\nvoid body(...);\n" % " ".join("idx_t %s[8];" % x for x in FIELDS + ("start", "stop", "index")))
        f.write("template long yask::idiv_flr<long>(long,long); template long yask::ceil_idiv_flr<long>(long,long); template long yask::imod_flr<long>(long,long);"
                "template long yask::round_up_flr<long>(long,long); template long yask::round_down_flr<long>(long,long);\n")
        for i, (tag, p, pre, code, al) in enumerate(jobs):
            nl = len(re.findall(r"\bloop\s*\(", code))
            dims = loop_dims(code)
            f.write("void f%d(ScanIndices& in) {\n#define %sLOOP_INDICES in\n#define %sBODY_INDICES out\n" % (i, pre, pre))
            for k in range(nl):
                f.write("#define %sUSE_LOOP_PART_%d\n#include \"%s\"\n" % (pre, k, p))
            f.write("body(%s);\n" % ", ".join("out.start[%d], out.stop[%d], out.index[%d]" % (x, x, x) for x in dims))
            f.write("#define %sUSE_LOOP_PART_%d\n#include \"%s\"\n}\n" % (pre, nl, p))
    outs = facts.extract("c17x", [src], list(facts.CLANG) + ["-fopenmp", "-I" + os.path.join(facts.REPO, "src/common"), "-I" + d], [d, gen, os.path.join(facts.REPO, "src/common")])
    P = Program(outs, gen=d)
    idivs.check_helpers(P, rep, "idiv")
    for i, (tag, p, pre, code, al) in enumerate(jobs):
        fn = P.named("f%d" % i)
        if not fn:
            raise AnalysisBroken("no function for " + tag)
        check_nest(rep, P, fn[0], loop_dims(code), al, code, tag, "omp" in code[:code.rindex("loop")].split("{")[-1])


def loop_dims(code):
    out = []
    for m in re.finditer(r"loop\s*\(([^)]*)\)", code):
        for x in m.group(1).split(","):
            x = x.strip()
            if x:
                out.append(int(x))
    return out
