"""C01: reductions deliver exactly the requested quantity."""
from ..facts import load_kernel, AnalysisBroken
from ..ir import walk, strip_targs
from ..sym import Frame, Sym, fmt, mk_not
from ..engine import collect, guard_conds, flat_and, Loop
from ..util import loop_range, guard_loops, one_per_pattern

WHAT = ("the reduction-result class (getters, identities), every write to its accumulators in every function, "
        "per-thread join and mask propagation, all layout instantiations")
ASSUMPTIONS = ["the slice visitor calls the per-element functor once per selected element (not decided here)"]
QUANT = {
    "get_sum": ("yk_sum_reduction", "+", "sum"),
    "get_sum_squares": ("yk_sum_squares_reduction", "+", "sum of squares"),
    "get_product": ("yk_product_reduction", "*", "product"),
    "get_max": ("yk_max_reduction", "max", "maximum"),
    "get_min": ("yk_min_reduction", "min", "minimum"),
}
MIN = {"getter": 5, "identity": 5, "update": 5, "join": 5, "mask": 2}
BIG = 1.797e308


def ev3(c, bit, isset, maskok):
    """Three-valued truth of cond c when 'bit' of the request mask is set/clear."""
    if c[0] == "lit" and isinstance(c[1], bool):
        return c[1]
    if c[0] == "un" and c[1] == "!":
        v = ev3(c[2], bit, isset, maskok)
        return None if v is None else not v
    if c[0] == "bin" and c[1] in ("&&", "||"):
        vs = [ev3(y, bit, isset, maskok) for y in c[2:]]
        if c[1] == "&&":
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if c[0] == "bin" and c[1] == "&":
        k = None
        for y in c[2:]:
            if y[0] in ("const", "lit") and isinstance(y[-1], int):
                k = y[-1]
            elif not maskok(y):
                return None
        if k is None:
            return None
        if isset:
            return True if k & bit else None
        return False if (k & bit) and not (k & ~bit) else None
    if maskok(c):
        return True if isset else None
    return None


def check(rep, tier):
    P = load_kernel()
    sym = Sym(P)
    rep.rule("getter", "each getter returns its own accumulator iff its bit of the request mask is set, else throws")
    rep.rule("identity", "each accumulator starts at the identity of its operation")
    rep.rule("update", "each write of an accumulator folds the element value (squared for sum of squares) with the accumulator's own operation, under no condition stronger than its own mask bit")
    rep.rule("join", "per-thread results are folded into the same accumulator with the same operation, for all threads")
    rep.rule("mask", "the request mask stored in every result object is the caller's mask")
    # constants.
    bits = {}
    for d, g in P.globals.items():
        if g["n"].startswith("yk_") and g["n"].endswith("_reduction") and g.get("init"):
            v = g["init"]
            while v["k"] == "cast":
                v = v["e"]
            if v["k"] == "lit":
                bits[g["n"]] = v["v"]
    # enclosing API class: value by use.
    apis = [c for n, cs in P.cls_by_name.items() if n.endswith("::yk_reduction_result") for c in cs]
    if not apis:
        raise AnalysisBroken("reduction-result API class not found")
    impl = set()
    for c in apis:
        impl |= P.cls_closure(c["u"]) - {c["u"]}
    if not impl:
        raise AnalysisBroken("no implementation of the reduction-result API")
    fields = {}
    for cu in impl:
        cname = P.classes[cu]["n"] if cu in P.classes else cu
        maskf = None
        for f in P.fns.values():
            if f.cu == cu and f.short == "get_reduction_mask":
                v = sym.simple_value(f)
                if v and v[0] == "e":
                    n = sym.norm(v[1], Frame(f))
                    if n[0] == "fld":
                        maskf = n[1]
        if not maskf:
            rep.bad("mask", "get_reduction_mask", cname, "get_reduction_mask() does not return a member")
            continue
        mok = lambda y: y[0] == "fld" and y[1] == maskf
        for g, (cname_, op, what) in QUANT.items():
            fs = [f for f in P.fns.values() if f.cu == cu and f.short == g]
            if not fs:
                raise AnalysisBroken("getter %s not found" % g)
            f = fs[0]
            bit = bits.get(cname_)
            evs = collect(P, f, sym)
            rets = [e for e in evs if e.node["k"] == "ret"]
            thr = [e for e in evs if e.node["k"] == "throw"]
            if bit is None:
                for e in evs:
                    if e.node["k"] == "ref" and e.node["n"].endswith("::" + cname_) and "cv" in e.node:
                        bit = e.node["cv"]
            if bit is None:
                raise AnalysisBroken("mask constant %s not found" % cname_)
            bits[cname_] = bit
            good = True
            rv = set()
            for e in rets:
                cs = guard_conds(e)
                off = [ev3(c, bit, False, mok) for c in cs]
                # a conditional return value splits further.
                for cond, val in split_val(sym.norm(e.node["e"], e.frame)):
                    on = [ev3(c, bit, True, mok) for c in cs + cond]
                    if False in on:
                        continue
                    rv.add(val)
                if False not in off:
                    good = False
                    rep.bad("getter", g, P.at(e.node), "%s(): returns a value although the %s was not requested (guard: %s)" % (g, what, " && ".join(map(fmt, cs)) or "none"))
            for e in thr:
                on = [ev3(c, bit, True, mok) for c in guard_conds(e)]
                if False not in on:
                    good = False
                    rep.bad("getter", g, P.at(e.node), "%s(): may throw although the %s was requested (guard: %s)" % (g, what, " && ".join(map(fmt, guard_conds(e))) or "none"))
            if len(rv) != 1 or list(rv)[0][0] != "fld":
                good = False
                rep.bad("getter", g, f.where(), "%s(): does not return exactly one accumulator (%s)" % (g, ", ".join(map(fmt, rv))))
            else:
                fld = list(rv)[0][1]
                if fld in fields and fields[fld][0] != g:
                    good = False
                    rep.bad("getter", g, f.where(), "%s() and %s() return the same accumulator %s" % (fields[fld][0], g, fld))
                else:
                    fields[fld] = (g, bit, op, what)
            if not thr:
                good = False
                rep.bad("getter", g, f.where(), "%s(): never throws" % g)
            if good:
                rep.ok("getter", f.where(), "%s -> %s" % (g, fld))
        # identities.
        rec = P.classes.get(cu)
        ctors = [f for f in P.fns.values() if f.cu == cu and f.get("isctor") and not f.get("copy") and not f.get("move")]
        for fl in rec["fields"]:
            q = fields.get(strip_targs(fl["f"]))
            if not q:
                continue
            inits = []
            for c in ctors:
                for i in c.get("ci", ()):
                    if i.get("f") and strip_targs(i["f"]) == strip_targs(fl["f"]) and i.get("wr"):
                        inits.append(i["e"])
            if not inits:
                inits = [fl.get("init")]
            for i in inits:
                if i is None:
                    rep.bad("identity", q[0], P.at(fl), "accumulator %s is not initialised" % fl["n"])
                elif identity_ok(q[2], i, sym.norm(i, Frame(list(P.fns.values())[0])), fl["t"]):
                    rep.ok("identity", P.at(fl), fl["n"])
                else:
                    rep.bad("identity", q[0], P.at(fl), "accumulator %s of the %s starts at %s, which is not the identity of '%s'" % (
                        fl["n"], q[3], fmt(sym.norm(i, Frame(list(P.fns.values())[0]))), q[2]))
    if rep.viol:
        # field map may be wrong; the remaining rules would only echo it.
        if len(fields) < 5:
            return
    F = set(fields)
    maskfs = set()
    # writers.
    writers = []
    for f in P.real_fns():
        if f.dep or f.get("implicit"):
            continue
        if f.get("isctor") and f.cu in impl:
            continue
        for n in f.nodes():
            if n["k"] == "mem" and strip_targs(n["f"]) in F:
                if f.cu in impl and f.short in QUANT:
                    continue
                writers.append(f)
                break

    def touches(t, call):
        for a in call.get("a") or []:
            if a is None:
                continue
            for n in walk(a):
                if n["k"] == "mem" and strip_targs(n["f"]) in F:
                    return True
                # whole result objects handed on.
                ty = n.get("t")
                if isinstance(ty, str) and any(strip_targs(P.classes[c]["n"]) in ty for c in impl if c in P.classes):
                    return True
        if call.get("obj") is not None:
            return t.cu in impl
        return False

    # a helper that only writes through its parameters is judged at its callers.
    done_upd, done_join = {}, {}
    for f in one_per_pattern(writers, 3 if tier == "quick" else 100):
        evs = collect(P, f, sym, enter=touches)
        samples = {}
        for e in evs:
            n = e.node
            if n["k"] != "asg":
                continue
            lv = sym.norm(n["a"], e.frame)
            if lv[0] != "fld" or lv[1] not in F:
                continue
            g, bit, op, what = fields[lv[1]]
            fold = fold_of(n, lv, e, sym)
            if fold is None:
                rep.bad("update", "%s:%s" % (f.short, lv[1]), P.at(n), "%s: the %s accumulator is overwritten by %s instead of being folded with '%s'" % (
                    f.n, what, fmt(sym.norm(n["b"], e.frame)), op))
                continue
            fop, delta, guards = fold
            cs = flat_and(guards)
            if fop != op:
                rep.bad("update", "%s:%s" % (f.short, lv[1]), P.at(n), "%s: the %s accumulator is folded with '%s' instead of '%s'" % (f.n, what, fop, op))
                continue
            isjoin = delta[0] == "fld" and delta[1] in F
            mk = lambda y: True
            weak = [c for c in cs if ev3(c, bit, True, mk) is not True]
            if weak:
                rep.bad("update", "%s:%s" % (f.short, lv[1]), P.at(n), "%s: folding into the %s depends on (%s), which a request for it does not imply" % (f.n, what, " && ".join(map(fmt, weak))))
                continue
            if isjoin:
                if delta[1] != lv[1]:
                    rep.bad("join", lv[1], P.at(n), "%s: the %s of one thread (%s) is joined into %s" % (f.n, fields[delta[1]][3], delta[1], lv[1]))
                    continue
                if delta[2] == lv[2]:
                    rep.bad("join", lv[1], P.at(n), "%s: accumulator joined with itself" % f.n)
                    continue
                bad = join_cover(e, evs, sym)
                if bad:
                    rep.bad("join", lv[1] + ":range", P.at(n), "%s: %s" % (f.n, bad))
                    continue
                rep.ok("join", P.at(n), lv[1])
                done_join[lv[1]] = 1
            else:
                s = delta
                if g == "get_sum_squares":
                    if s[0] == "bin" and s[1] == "*" and s[2] == s[3]:
                        s = s[2]
                    elif s[0] == "call" and s[1] in ("std::pow", "pow") and s[4] in (("lit", 2), ("lit", 2.0)):
                        s = s[3]
                    else:
                        rep.bad("update", "%s:%s" % (f.short, lv[1]), P.at(n), "%s: the sum of squares adds %s, not a square" % (f.n, fmt(s)))
                        continue
                if any(t[0] == "cast" and t[1] not in ("double", "long double") for t in iter_terms(s)):
                    rep.bad("update", "%s:%s" % (f.short, lv[1]), P.at(n), "%s: the element value is narrowed before folding (%s)" % (f.n, fmt(s)))
                    continue
                samples.setdefault(s, []).append((lv[1], n))
                rep.ok("update", P.at(n), lv[1])
                done_upd[lv[1]] = 1
        if len(samples) > 1:
            base = max(samples, key=lambda s: len(samples[s]))
            for s, l in samples.items():
                if s != base:
                    for fl, n in l:
                        rep.bad("update", "%s:%s" % (f.short, fl), P.at(n), "%s: the %s folds %s while the other quantities fold %s" % (f.n, fields[fl][3], fmt(s), fmt(base)))
    for fl, q in fields.items():
        if done_upd and fl not in done_upd:
            rep.bad("update", "missing:" + fl, fl, "no element value is ever folded into the %s" % q[3])
        if done_join and fl not in done_join:
            rep.bad("join", "missing:" + fl, fl, "per-thread results of the %s are never joined" % q[3])
    # mask propagation.
    maskf = set()
    for cu in impl:
        for f in P.fns.values():
            if f.cu == cu and f.short == "get_reduction_mask":
                v = sym.simple_value(f)
                if v:
                    maskf.add(sym.norm_val(v, Frame(f))[1])
    for f in one_per_pattern([f for f in P.real_fns() if not f.dep and not f.get("implicit")], 1):
        if not any(n["k"] == "mem" and strip_targs(n["f"]) in maskf for n in f.nodes()):
            continue
        for e in collect(P, f, sym, enter=touches):
            n = e.node
            if n["k"] == "asg":
                lv = sym.norm(n["a"], e.frame)
                if lv[0] == "fld" and lv[1] in maskf:
                    r = sym.norm(n["b"], e.frame)
                    if n["op"] == "=" and (r[0] == "parm" or (r[0] == "fld" and r[1] in maskf)):
                        rep.ok("mask", P.at(n), f.n)
                    else:
                        rep.bad("mask", f.short, P.at(n), "%s: the stored request mask is %s, not the caller's" % (f.n, fmt(r)))


def iter_terms(t):
    from ..sym import subterms
    return subterms(t)


def split_val(v):
    if v[0] == "cond":
        return [([v[1]] + c, x) for c, x in split_val(v[2])] + [([mk_not(v[1])] + c, x) for c, x in split_val(v[3])]
    return [([], v)]


def identity_ok(op, node, n, ftype):
    if op in ("+", "*"):
        want = 0 if op == "+" else 1
        while n[0] in ("cast", "init") and len(n) >= 2:
            n = n[-1]
        return n[0] == "lit" and not isinstance(n[1], str) and float(n[1]) == want
    neg = False
    while node["k"] in ("cast", "un", "init"):
        if node["k"] == "un":
            if node["op"] == "-":
                neg = not neg
            node = node["e"]
        elif node["k"] == "init":
            if len(node["a"]) != 1:
                return False
            node = node["a"][0]
        else:
            node = node["e"]
    if node["k"] == "lit":
        v = float(node["v"]) * (-1 if neg else 1)
        return v <= -BIG if op == "max" else v >= BIG
    if node["k"] == "call":
        if node.get("t") not in ("double", "long double"):
            return False
        nm = node["n"].rsplit("::", 1)[-1]
        if op == "max":
            return (nm == "lowest" and not neg) or (nm in ("max", "infinity") and neg)
        return (nm in ("max", "infinity") and not neg) or (nm == "lowest" and neg)
    return False


def fold_of(n, lv, e, sym):
    """(operation, delta, remaining guards) of an accumulator write."""
    gs = guard_conds(e)
    r = sym.norm(n["b"], e.frame)
    op = n["op"]
    if op in ("+=", "*="):
        return op[0], r, gs
    if op == "-=" or op == "/=":
        return None
    if op != "=":
        return None
    if r[0] == "cond":
        # mask-selected fold: c ? fold : self
        c, a, b = r[1:4]
        if b == lv:
            r, gs = a, gs + [c]
        elif a == lv:
            r, gs = b, gs + [mk_not(c)]
    if r[0] == "bin" and r[1] in ("+", "*", "min", "max") and lv in r[2:4]:
        d = r[3] if r[2] == lv else r[2]
        return r[1], d, gs
    if r[0] == "call" and r[1] in ("fmax", "fmin", "std::fmax", "std::fmin") and lv in r[3:]:
        d = r[4] if r[3] == lv else r[3]
        return r[1][-3:], d, gs
    # if (x < acc) acc = x;
    rest, kind = [], None
    for c in flat_and(gs):
        if c[0] == "bin" and c[1] in ("<", "<="):
            if c[2] == r and c[3] == lv:
                kind = "min"
                continue
            if c[2] == lv and c[3] == r:
                kind = "max"
                continue
        rest.append(c)
    if kind:
        return kind, r, rest
    return None


def join_cover(e, evs, sym):
    """The join loop must run over all per-thread results."""
    ls = guard_loops(e)
    if not ls:
        return "the join is not in a loop over the per-thread results"
    r = loop_range(ls[-1], sym)
    if r is None:
        return None
    if r[0] == "range":
        return None
    _, v, lo, hi, step = r
    if lo != ("lit", 0) or step != ("lit", 1):
        return "the join loop starts at %s in steps of %s" % (fmt(lo) if lo else "?", fmt(step))
    sizes = set()
    for x in evs:
        n = x.node
        if n["k"] == "call" and n["n"].endswith("::resize") and n.get("a"):
            sizes.add(sym.norm(n["a"][0], x.frame))
        if n["k"] == "ctor" and strip_targs(n["n"]) == "std::vector" and n.get("a"):
            sizes.add(sym.norm(n["a"][0], x.frame))
    if hi[0] == "call" and hi[1].endswith("::size"):
        return None
    if sizes and hi not in sizes:
        return "the join loop ends at %s but there are %s results" % (fmt(hi), " / ".join(map(fmt, sizes)))
    return None
