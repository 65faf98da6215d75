"""C22: expression copies are deep; expression equality compares everything."""
from ..facts import load_compiler, AnalysisBroken
from ..ir import walk, strip_targs
from ..sym import always_throws, Frame, Sym, fmt, subterms
from ..engine import collect, guard_conds, flat_and, Loop
from ..flow import Flow
from ..util import loop_range
from .c23 import child_fields, kind_of, breaks_out

TECHNIQUE = "value-flow analysis of copy constructors, clone() and is_same(): field coverage by three-valued evaluation of the returned condition"
WHAT = ("is_same() of every expression class for every field it has, copy construction and clone() of every expression class for every "
        "sub-expression field, and the comparison string of var points")
ASSUMPTIONS = ["var names are unique within a solution (checked elsewhere at run time)", "the pairing of sin and cos is not part of an expression's identity"]
MIN = {"same": 20, "clone": 15, "copy": 8}
EXEMPT = {"_paired"}


def agree(a):
    """Value of a comparison when its operands agree."""
    return not (a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("compare", "strcmp"))


class Eval:
    """Three-valued evaluation of a condition: atoms are looked up in asg, then in default()."""

    def __init__(self, flow, asg, default):
        self.flow, self.asg, self.default = flow, asg, default
        self.seen = 0
        self.exits = {}
        for L in flow.loops:
            for k, p in L.syms.items():
                self.exits[p[1]] = (L, k, p)

    def ev(self, t, sub=None, depth=0):
        if depth > 40:
            return None
        if t in self.asg:
            return self.asg[t]
        if sub and t in sub:
            return self.ev(sub[t], None, depth + 1)
        k = t[0]
        if k == "lit":
            return bool(t[1]) if not isinstance(t[1], str) else None
        if k == "un" and t[1] == "!":
            v = self.ev(t[2], sub, depth + 1)
            return None if v is None else not v
        if k == "bin" and t[1] in ("&&", "||"):
            vs = [self.ev(y, sub, depth + 1) for y in t[2:]]
            if t[1] == "&&":
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if k == "cond":
            c = self.ev(t[1], sub, depth + 1)
            if c is None:
                a, b = self.ev(t[2], sub, depth + 1), self.ev(t[3], sub, depth + 1)
                return a if a == b else None
            return self.ev(t[2] if c else t[3], sub, depth + 1)
        if k == "loopout" and t[1] in self.exits:
            # one iteration of the loop.
            L, key, p = self.exits[t[1]]
            m = {q: L.entry[kk] for kk, q in L.syms.items()}
            # a conditional break leaves the values at the break.
            for v, g, env, s in L.rets:
                if s["k"] == "break":
                    gs = [self.ev(x, m, depth + 1) for x in g]
                    if all(x is True for x in gs):
                        return self.ev(env.get(key, key), m, depth + 1)
            return self.ev(L.exit[key], m, depth + 1)
        return self.default(t)

    def result(self):
        for v, g, env, s in self.flow.rets:
            gs = [self.ev(x) for x in g]
            if False in gs:
                continue
            if None in gs:
                # undecided: fine only if every later outcome agrees.
                return None
            return self.ev(v)
        return None


def own_and_base_fields(P, u):
    out = {}
    st = [u]
    while st:
        c = P.classes.get(st.pop())
        if not c:
            continue
        for f in c.get("fields", ()):
            out.setdefault(f["n"], f)
        st += [b.get("u") for b in c["bases"] if b.get("u")]
    return out


def atoms_of(t, out):
    if t[0] == "un" and t[1] == "!":
        return atoms_of(t[2], out)
    if t[0] == "bin" and t[1] in ("&&", "||") or t[0] == "cond":
        for y in t[(2 if t[0] == "bin" else 1):]:
            atoms_of(y, out)
        return
    out.add(t)


def side(t):
    """Does t mention a field of this / of the other expression? {field: {'this','other'}}"""
    r = {}
    for y in subterms(t):
        if y[0] == "fld":
            b = y[2]
            n = y[1].rsplit("::", 1)[-1]
            if b == ("this",):
                r.setdefault(n, set()).add("this")
            elif any(z[0] == "parm" for z in subterms(b)) and not any(z[0] == "fld" for z in subterms(b)):
                r.setdefault(n, set()).add("other")
    return r


def check(rep, tier):
    P = load_compiler()
    rep.rule("same", "is_same() is false whenever one field (operator, constant, name, operand, index, condition) differs, true when all agree")
    rep.rule("type", "is_same() tells apart nodes of classes that derive from each other but have different operands")
    rep.rule("null", "the null-tolerant comparison treats null as equal to null only")
    rep.rule("copy", "the copy constructor clones every sub-expression and copies every other field")
    rep.rule("clone", "clone() returns a new node of the object's own class, copy-constructed from it")
    rep.rule("str", "the string by which var points are compared holds the var name and every index, and is renewed whenever one changes")
    kids, exprs = child_fields(P)
    classes = [P.classes[u] for u in sorted(exprs) if u in P.classes]
    for c in classes:
        k = strip_targs(c["n"]).rsplit("::", 1)[-1]
        ms = [f for f in P.fns.values() if f.cu == c["u"]]
        for f in ms:
            if f.dep:
                continue
            if f.short == "is_same" and f.params and kind_of(f.params[0]["t"]) == "Expr" and "shared_ptr" not in f.params[0]["t"]:
                same(rep, P, f, c, kids, exprs)
            elif f.short in ("clone", "clone_var_point"):
                clone(rep, P, f, c, k, kids)
            elif f.short == "make_pair" and k == "FuncExpr":
                pass
        copyctor(rep, P, c, k, kids, ms)
    for f in P.named("yask::are_exprs_same"):
        null_same(rep, P, f)
    var_points(rep, P)


def same(rep, P, f, c, kids, exprs):
    F = Flow(P)
    F.keep_dyn = True
    F.run(f)
    k = strip_targs(c["n"]).rsplit("::", 1)[-1]
    if k == "VarPoint":
        need = {"_def_str"}
    else:
        need = {n for n in own_and_base_fields(P, c["u"]) if n not in EXEMPT}
    atoms = set()
    for v, g, env, s in F.rets:
        atoms_of(v, atoms)
        for x in g:
            atoms_of(x, atoms)
    for L in F.loops:
        for v in list(L.exit.values()) + [x for r in L.rets for x in r[1]]:
            atoms_of(v, atoms)
        for r in L.rets:
            for v in r[2].values():
                atoms_of(v, atoms)
    per = {}
    for a in atoms:
        for n, sd in side(a).items():
            if sd == {"this", "other"} and "dyn" != a[0]:
                per.setdefault(n, set()).add(a)
    w = f.where()
    for a in sorted(atoms, key=repr):
        if a[0] == "bin" and a[1] == "==" or a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("is_same", "are_exprs_same", "compare"):
            s = side(a)
            one = {n for n in s if s[n] == {"this"}} & need
            two = {n for n in s if s[n] == {"other"}} & need
            if one and two and not any(s[n] == {"this", "other"} for n in s):
                rep.bad("same", "%s-%s-cross" % (short(c["n"]), "-".join(sorted(one))), w, "%s::is_same() compares %s with %s" % (
                    k, ", ".join(sorted(one)), ", ".join(sorted(two))))
    alla = set().union(*per.values()) if per else set()

    def default(t):
        if t in alla:
            return agree(t)
        if t[0] in ("dyn", "fld", "parm", "ctor", "idx", "elem"):
            return True
        if t[0] == "bin" and t[1] in ("<", "<="):
            return True     # loops run at least once
        if t[0] == "bin" and t[1] == "==" and ("typeid",) in t[2:]:
            return True
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("count", "contains"):
            return False
        return None
    w = f.where()
    e = Eval(F, {}, default).result()
    if e is False and not any(L.inner for L in F.loops):
        rep.bad("same", "%s-equal" % c["n"][:60], w, "%s::is_same() is false although all fields agree" % k)
    else:
        rep.ok("same", w, "%s: true when all fields agree" % k)
    for n in sorted(need):
        at = per.get(n)
        key = "%s-%s" % (short(c["n"]), n)
        if not at:
            ment = any(x[0] == "fld" and x[1].endswith("::" + n) for a in atoms for x in subterms(a))
            if ment:
                rep.skip("same", w, "comparison of %s not in a recognised form" % n)
            else:
                rep.bad("same", key, w, "%s::is_same() ignores %s: expressions that differ only there compare as the same" % (k, n))
            continue
        for a in sorted(at, key=repr):
            r = Eval(F, {a: not agree(a)}, default).result()
            if r is True:
                rep.bad("same", key, w, "%s::is_same() can be true although %s is false" % (k, fmt(a)))
            elif r is None:
                rep.skip("same", w, "effect of %s not decided" % fmt(a)[:80])
            else:
                rep.ok("same", w, "%s: %s" % (k, fmt(a)[:100]))
            ints = [y for y in a[2:] if y[0] == "cast"] if a[0] == "bin" and a[1] == "==" else []
            if ints:
                rep.bad("same", key + "-cast", w, "%s::is_same() compares %s only after a conversion" % (k, n))
        vec = any(n in kids.get(cn, {}) and kids[cn][n] for cn in kids if cn == k)
        if vec:
            size = [a for a in at if a[0] == "bin" and a[1] == "==" and all(y[0] == "call" and y[1].endswith("::size") for y in a[2:])]
            ends = [a for a in at if a[0] == "call" and a[1] in ("std::equal", "std::is_permutation")]
            if not size and not ends:
                rep.bad("same", key + "-size", w, "%s::is_same() does not compare the numbers of operands" % k)
            else:
                rep.ok("same", w, "%s: number of operands" % k)
            for L in F.loops:
                for ky, ph in L.syms.items():
                    if not any(y == ph for a in at for x in subterms(a) if x[0] == "idx" for y in subterms(x[2])):
                        continue
                    lc = L.cond
                    if lc is None or lc[0] != "bin" or lc[1] != "<" or lc[2] != ph:
                        rep.skip("same", w, "loop over operands not in a recognised form")
                    elif L.entry[ky] != ("lit", 0) or not (lc[3][0] == "call" and lc[3][1].endswith("::size")):
                        rep.bad("same", key + "-range", w, "%s::is_same() compares operands %s to %s only" % (k, fmt(L.entry[ky]), fmt(lc[3])))
        # corresponding operands: element i with element i (unless commutative).
        for a in at:
            if k != "CommutativeExpr" and a[0] == "call" and a[1].endswith("is_same"):
                ix = [y[2] for y in subterms(a) if y[0] == "idx"]
                if len(ix) == 2 and ix[0] != ix[1]:
                    rep.bad("same", key + "-index", w, "operand %s is compared with operand %s" % (fmt(ix[0]), fmt(ix[1])))
    # classes below this one with more operands.
    more = []
    for u in P.cls_closure(c["u"]):
        sc = P.classes.get(u)
        if sc is None or u == c["u"]:
            continue
        extra = set(kids.get(strip_targs(sc["n"]).rsplit("::", 1)[-1], ())) - set(kids.get(k, ()))
        if extra:
            more.append(sc)
    if more:
        ty = [a for a in atoms if a[0] == "bin" and a[1] == "==" and ("typeid",) in a[2:]]
        if ty and all(Eval(F, {a: False}, default).result() is False for a in ty):
            rep.ok("type", w, k)
        elif any(m.rsplit("::", 1)[-1] in ("get_lhs", "_get_lhs") for a in atoms for m in [x[1] for x in subterms(a) if x[0] == "call"]) or \
                any(x[0] == "dyn" and strip_targs(x[1]) != "yask::" + k for a in atoms for x in subterms(a)):
            rep.skip("type", w, "type comparison not in a recognised form")
        else:
            rep.bad("type", k, w, "%s::is_same() accepts any %s, so a %s with the same right side compares as the same" % (
                k, k, strip_targs(more[0]["n"]).rsplit("::", 1)[-1]))


def short(n):
    return n.replace("yask::", "").replace("std::shared_ptr", "").replace(" ", "")[:40]


def is_clone(v, src):
    return v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("clone", "clone_var_point") and v[2] == src


def copyctor(rep, P, c, k, kids, ms):
    if k == "VarPoint":
        return      # clone_var_point() replaces the indices of the member-wise copy
    own = {f["n"]: f for f in c.get("fields", ())}
    childs = [n for n in own if n in kids.get(k, {}) and n not in EXEMPT]
    cc = [f for f in ms if f.get("isctor") and f.get("copy") and f.body is not None and not f.dep]
    if not cc:
        if any(not f.dep for f in ms) and childs and k != "VarPoint":
            nm = strip_targs(c["n"])
            if any(f.get("isctor") and f.get("copy") for f in P.fns.values() if f.cls and strip_targs(f.cls) == nm):
                return
            rep.bad("copy", short(c["n"]), "%s:%d" % (P.rel(c["l"][0]), c["l"][1]), "%s is copied member by member: the copy shares its sub-expressions" % k)
        return
    for f in cc:
        F = Flow(P)
        F.keep_dyn = True
        F.run(f)
        src = ("parm", 0, f.params[0]["n"])
        pushes = []
        sym = Sym(P)
        for e in collect(P, f, sym, enter=lambda t, x: t.cu in (c["u"],) or not t.cls):
            n = e.node
            if n["k"] == "call" and strip_targs(n.get("n") or "").rsplit("::", 1)[-1] in ("push_back", "emplace_back", "append_op") and n.get("obj") is not None:
                pushes.append((sym.norm(n["obj"], e.frame), sym.norm(n["a"][0], e.frame), e))
            elif n["k"] == "asg" and n["op"] == "=":
                pushes.append((("el", sym.norm(n["a"], e.frame)), sym.norm(n["b"], e.frame), e))
            elif n["k"] == "call" and n.get("op") == "=" and n.get("obj") is not None:
                pushes.append((("el", sym.norm(n["obj"], e.frame)), sym.norm(n["a"][0], e.frame), e))
        # base initialiser arguments by parameter of the base constructor.
        baseargs = []
        for i in f.get("ci", ()):
            if i.get("base") and i.get("e") and i["e"]["k"] == "ctor":
                baseargs += [F.norm(a, Frame(f)) for a in i["e"].get("a") or []]
        inherited = {n for n in kids.get(k, {}) if n not in own and n not in EXEMPT}
        for n in sorted(childs):
            cls = c["n"]
            s = ("fld", strip_targs(cls) + "::" + n, src)
            key = "%s-%s" % (short(c["n"]), n)
            vec = kids[k][n]
            if vec:
                good = bad = shared = None
                for o, v, e in pushes:
                    if o[0] == "fld" and o[1].endswith("::" + n) and o[2] == ("this",):
                        el = v
                        cl = el[0] == "call" and el[1].endswith("clone")
                        x = el[2] if cl else el
                        loops = [l for l in e.guards if isinstance(l, Loop)]
                        whole = x is not None and x[0] in ("elem", "idx") and x[1] == s and len(loops) == 1 and not guard_conds(e) and not breaks_out(loops[0])
                        r = loop_range(loops[0], sym) if loops else None
                        if r and r[0] == "idx" and (r[2] != ("lit", 0) or not (r[3][0] == "call" and r[3][1].endswith("size"))):
                            whole = False
                        if cl and whole:
                            good = e
                        else:
                            bad = (v, e)
                    elif o[0] == "el" and o[1][0] in ("idx", "elem") and o[1][1][0] == "fld" and o[1][1][1].endswith("::" + n):
                        if v[0] == "call" and v[1].endswith("clone"):
                            good = e
                    elif o[0] == "el" and o[1][0] == "fld" and o[1][1].endswith("::" + n) and o[1][2] == ("this",) and v == s:
                        shared = e
                if good and not bad:
                    rep.ok("copy", f.where(), "%s.%s" % (k, n))
                elif bad:
                    rep.bad("copy", key, P.at(bad[1].node), "%s's copy constructor adds %s to %s: %s" % (
                        k, fmt(bad[0]), n, "operands are shared or incomplete"))
                else:
                    v = F.st.env.get(("fld", strip_targs(cls) + "::" + n, ("this",)))
                    if v == s or shared:
                        rep.bad("copy", key, f.where(), "%s's copy constructor copies the pointers in %s: the copy shares its operands" % (k, n))
                    elif v is None:
                        rep.bad("copy", key, f.where(), "%s's copy constructor does not copy %s" % (k, n))
                    else:
                        rep.skip("copy", f.where(), "copy of %s not in a recognised form" % n)
                continue
            v = F.st.env.get(("fld", strip_targs(cls) + "::" + n, ("this",)))
            if v is None:
                # through a delegating or base constructor.
                v = next((a for a in baseargs if any(y == s for y in subterms(a))), None)
            verdict(rep, f, k, n, key, v, s)
        for n in sorted(inherited):
            # handed to the base-class constructor: whole object or clone of the member.
            if any(a == src or (a[0] == "cast" and a[2] == src) for a in baseargs):
                rep.ok("copy", f.where(), "%s.%s (base copy)" % (k, n))
                continue
            cand = [a for a in baseargs if any(y[0] == "fld" and y[1].endswith("::" + n) for y in subterms(a))]
            if cand:
                s = [y for y in subterms(cand[0]) if y[0] == "fld" and y[1].endswith("::" + n)][0]
                verdict(rep, f, k, n, "%s-%s" % (short(c["n"]), n), cand[0], s)
            elif f.get("ci") is not None and any(i.get("base") for i in f.get("ci", ())) and baseargs:
                rep.bad("copy", "%s-%s" % (short(c["n"]), n), f.where(), "%s's copy constructor does not hand %s to its base class" % (k, n))
        # plain fields.
        for n, fd in own.items():
            if n in childs or n in EXEMPT or n in kids.get(k, {}):
                continue
            s = ("fld", strip_targs(c["n"]) + "::" + n, src)
            v = F.st.env.get(("fld", strip_targs(c["n"]) + "::" + n, ("this",)))
            if v is None and any(i.get("deleg") for i in f.get("ci", ())):
                continue
            if v == s or (v is not None and any(y == s for y in subterms(v))):
                rep.ok("copy", f.where(), "%s.%s" % (k, n))
            else:
                rep.bad("copy", "%s-%s" % (short(c["n"]), n), f.where(), "%s's copy constructor sets %s to %s" % (k, n, fmt(v) if v else "nothing"))
        inh = {n for n in own_and_base_fields(P, c["u"]) if n not in own and n not in kids.get(k, {}) and n not in EXEMPT}
        for n in inh:
            if baseargs and not any(a == src or (a[0] == "cast" and a[2] == src) or any(y[0] == "fld" and y[1].endswith("::" + n) for y in subterms(a)) for a in baseargs):
                rep.bad("copy", "%s-%s" % (short(c["n"]), n), f.where(), "%s's copy constructor does not hand %s to its base class" % (k, n))


def verdict(rep, f, k, n, key, v, s):
    """v must be a clone of s (or null where s is null)."""
    def good(t):
        while t[0] in ("ctor", "init") and len(t) == (3 if t[0] == "ctor" else 2):
            t = t[-1]
        if is_clone(t, s):
            return True
        if t[0] == "cond":
            alts = []
            null = t[1]
            pol = True
            while null[0] == "un" and null[1] == "!":
                null, pol = null[2], not pol
            a, b = (t[2], t[3]) if pol else (t[3], t[2])
            while b[0] in ("ctor", "init") and len(b) == (3 if b[0] == "ctor" else 2):
                b = b[-1]
            return null == s and good(a) and (b == ("lit", 0) or b == ("ctor", "std::shared_ptr") or b == s)
        return False
    if v is None:
        rep.bad("copy", key, f.where(), "%s's copy constructor does not copy %s" % (k, n))
    elif good(v):
        rep.ok("copy", f.where(), "%s.%s" % (k, n))
    elif v == s or (v[0] in ("fld", "cond") and not any(y[0] == "call" and y[1].rsplit("::", 1)[-1].startswith("clone") for y in subterms(v))):
        rep.bad("copy", key, f.where(), "%s's copy constructor sets %s to %s: the copy shares it with the original" % (k, n, fmt(v)))
    elif any(y[0] == "call" and y[1].rsplit("::", 1)[-1].startswith("clone") for y in subterms(v)):
        rep.bad("copy", key, f.where(), "%s's copy constructor sets %s to %s" % (k, n, fmt(v)))
    else:
        rep.skip("copy", f.where(), "copy of %s not in a recognised form: %s" % (n, fmt(v)[:80]))


def clone(rep, P, f, c, k, kids):
    F = Flow(P)
    F.run(f)
    vals = []
    for v, g, env, s in F.rets:
        vals.append(v)
    if not vals:
        return
    for v in vals:
        key = "%s-%s" % (short(c["n"]), f.short)
        while v[0] == "ctor" and v[1].endswith("shared_ptr") and len(v) == 3:
            v = v[2]
        if v[0] == "call" and v[1].endswith("::clone_var_point") and v[2] == ("this",):
            rep.ok("clone", f.where(), k)
            continue
        if v[0] == "call" and v[1].startswith("std::make_shared<"):
            t = v[1][len("std::make_shared<"):-1]
            if strip_targs(t) == strip_targs(c["n"]) and v[3:] == (("this",),):
                rep.ok("clone", f.where(), k)
            else:
                rep.bad("clone", key, f.where(), "%s::%s() makes %s" % (k, f.short, fmt(v)))
        elif v[0] == "new":
            if strip_targs(v[1]).rsplit("::", 1)[-1].rstrip(" *") == k and v[2:] == (("this",),):
                rep.ok("clone", f.where(), k)
            else:
                rep.bad("clone", key, f.where(), "%s::%s() makes %s" % (k, f.short, fmt(v)))
        elif v[0] == "call" and v[1].rsplit("::", 1)[-1] == "clone" and v[2] is not None:
            rep.bad("clone", key, f.where(), "%s::%s() returns a clone of %s" % (k, f.short, fmt(v[2])))
        elif v == ("this",) or (v[0] == "call" and v[1].endswith("shared_from_this")):
            rep.bad("clone", key, f.where(), "%s::%s() returns the object itself" % (k, f.short))
        elif v[0] in ("var", "phi", "loopout"):
            ini = F.objinit.get(v) or None
            rep.skip("clone", f.where(), "clone held in a variable") if k != "VarPoint" else None
        else:
            rep.skip("clone", f.where(), "not in a recognised form: " + fmt(v)[:80])
    if f.short == "clone_var_point":
        # the arguments of the copy are cloned one by one, or by the copy constructor.
        sym = Sym(P)
        ok = False
        for e in collect(P, f, sym, enter=lambda t, x: t.cu == c["u"]):
            n = e.node
            lv = v = None
            if n["k"] == "asg" and n["op"] == "=":
                lv, v = n["a"], n["b"]
            elif n["k"] == "call" and n.get("op") == "=" and n.get("obj") is not None:
                lv, v = n["obj"], n["a"][0]
            if lv is None:
                continue
            a, b = sym.norm(lv, e.frame), sym.norm(v, e.frame)
            loops = [l for l in e.guards if isinstance(l, Loop)]
            if a[0] in ("elem", "idx", "var") and b[0] == "call" and b[1].endswith("::clone") and len(loops) == 1 and not breaks_out(loops[0]) and not guard_conds(e):
                r = loop_range(loops[0], sym)
                if r and r[0] == "idx" and (r[2] != ("lit", 0) or not (r[3][0] == "call" and r[3][1].endswith("size"))):
                    continue
                ok = True
        cc = any(g.get("isctor") and g.get("copy") and g.body is not None for g in P.fns.values() if g.cu == c["u"])
        if ok or cc:
            rep.ok("clone", f.where(), "VarPoint arguments")
        else:
            rep.bad("clone", "VarPoint-args", f.where(), "the index expressions of a cloned var point are those of the original")


def null_same(rep, P, f):
    if f.body is None or len(f.params) != 2:
        return
    F = Flow(P)
    F.run(f)
    p = [("parm", i, f.params[i]["n"]) for i in range(2)]

    def strip(t):
        while t[0] == "ctor" and len(t) == 3:
            t = t[2]
        return t
    for na in (0, 1):
        for nb in (0, 1):
            for s in (True, False):
                def default(t):
                    u = strip(t)
                    if u == p[0]:
                        return not na
                    if u == p[1]:
                        return not nb
                    if t[0] == "bin" and t[1] == "==" and len(t) == 4:
                        x = {strip(t[2]), strip(t[3])}
                        if x == {p[0], p[1]}:
                            return True if na and nb else (False if na != nb else None)
                    if t[0] == "call" and t[1].endswith("is_same"):
                        return s
                    return None
                want = True if na and nb else (False if na or nb else s)
                r = Eval(F, {}, default).result()
                key = "%d%d%d-%s" % (na, nb, s, "-".join("ptr" if "shared" in q["t"] else "raw" for q in f.params))
                if r is None:
                    rep.skip("null", f.where(), "not decided")
                elif r != want:
                    rep.bad("null", key, f.where(), "comparing %s and %s gives %s" % ("null" if na else "an expression", "null" if nb else "an expression", r))
                else:
                    rep.ok("null", f.where(), key)


def gkey(g):
    return ("loop", id(g.node)) if isinstance(g, Loop) else g


def var_points(rep, P):
    cu = P.cls_by_name["yask::VarPoint"][0]["u"]
    DS = "yask::VarPoint::_def_str"
    parts = {"yask::VarPoint::_args", "yask::VarPoint::_var"}
    n = 0
    for f in P.fns.values():
        if f.cu != cu or f.dep or f.body is None or f.short in ("clone_var_point", "_update_str"):
            continue
        if f.get("isctor") and f.get("copy"):
            continue
        sym = Sym(P)
        mods, upds = [], []
        for e in collect(P, f, sym, enter=lambda t, x: t.cu == cu):
            x = e.node
            lv = None
            if x["k"] == "asg":
                lv = x["a"]
            elif x["k"] == "call" and x.get("obj") is not None and not x.get("cst") and (x.get("op") == "=" or not P.targets(x)) and x.get("op") not in ("[]", "->", "*"):
                lv = x["obj"]
            elif x["k"] == "ctorinit":
                if x.get("f") and strip_targs(x["f"]) in parts:
                    mods.append(e)
                continue
            if lv is None:
                continue
            t = sym.norm(lv, e.frame)
            flds = {y[1] for y in subterms(t) if y[0] == "fld" and y[2] == ("this",)}
            if DS in flds:
                upds.append(e)
            elif flds & parts and x["k"] == "asg" or (flds & parts and x.get("op") == "="):
                if t[0] in ("idx", "elem", "fld"):
                    mods.append(e)
        late = None
        thrown = {(sym.cond(x["c"], Frame(f)), False) for x in f.nodes() if x["k"] == "if" and always_throws(x["t"])}
        for m in mods:
            gm = [gkey(g) for g in m.guards]
            if not any(u.seq > m.seq and all(gkey(g) in gm or g in thrown for g in u.guards) for u in upds):
                late = m
        if mods:
            n += 1
            if late is None:
                rep.ok("str", f.where(), f.short)
            else:
                rep.bad("str", f.short, P.at(late.node), "VarPoint::%s() changes the indices but not the string by which points are compared" % f.short)
    # contents.
    for f in P.methods_of("yask::VarPoint"):
        if f.short == "_make_str":
            F = Flow(P, keep={"yask::VarPoint::make_arg_str"})
            F.run(f)
            for v, g, env, s in F.rets:
                txt = list(subterms(v))
                name = any(y[0] in ("fld", "call") and (y[1].endswith("_name") or y[1].endswith("get_var_name")) for y in txt)
                args = any(y[0] == "call" and y[1].endswith("make_arg_str") for y in txt)
                if name and args:
                    rep.ok("str", f.where(), "name and indices")
                elif any(y[0] in ("phi", "loopout", "var") for y in txt):
                    rep.skip("str", f.where(), "string not in closed form")
                else:
                    rep.bad("str", "content", f.where(), "the comparison string lacks %s" % ("the indices" if name else "the var name"))
        if f.short == "make_arg_str" and len(f.params) == 1:
            sym = Sym(P)
            ok = False
            for e in collect(P, f, sym, enter=lambda t, x: False):
                x = e.node
                if x["k"] == "call" and (x.get("n") or "").endswith("::make_str"):
                    o = sym.norm(x["obj"], e.frame)
                    loops = [g for g in e.guards if isinstance(g, Loop)]
                    if o[0] in ("elem", "idx") and o[1] == ("fld", "yask::VarPoint::_args", ("this",)) and len(loops) == 1 and not guard_conds(e) and not breaks_out(loops[0]):
                        r = loop_range(loops[0], sym)
                        if r is None or r[0] == "range" or (r[2] == ("lit", 0) and r[3][0] == "call"):
                            ok = True
            if ok:
                rep.ok("str", f.where(), "all indices")
            else:
                rep.bad("str", "args", f.where(), "make_arg_str() does not render every index")
