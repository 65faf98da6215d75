"""C23: compiler passes see every part of every expression."""
from ..facts import load_compiler, AnalysisBroken
from ..ir import walk, strip_targs
from ..sym import Frame, Sym, fmt, subterms, mk_bin
from ..engine import collect, guard_conds, flat_and, Loop
from ..flow import Flow, contains
from ..util import loop_range
import itertools

TECHNIQUE = "exhaustive visitor/node/child coverage analysis of the expression visitors over the clang-resolved program"
WHAT = ("every visit() of every expression visitor for every operand, condition and index argument of every node class, "
        "the dispatch of every node, the visit flags, the role recorded for each visited point, the node counts and the "
        "iteration over all equations")
ASSUMPTIONS = ["a visitor that hands a child to one of its own methods which reports it as already handled has handled it",
               "exempt by design: the left side and conditions in passes that work on right sides only, index arguments where the pass has nothing to do with them, pictures (dot, povray)"]
MIN = {"child": 40, "accept": 9, "flags": 4, "role": 4}

# (visitor, node kind) -> children the pass does not have to reach.
EXEMPT = {
    ("CounterVisitor", "EqualsExpr"): {"_lhs", "_cond", "_step_cond"},
    ("CseVisitor", "EqualsExpr"): {"_lhs", "_cond", "_step_cond"},
    ("VecInfoVisitor", "EqualsExpr"): {"_lhs", "_cond", "_step_cond"},
    ("PrintVisitorBottomUp", "EqualsExpr"): {"_lhs", "_cond", "_step_cond"},
    ("PrintVisitorTopDown", "EqualsExpr"): {"_lhs"},
    ("PairingVisitor", "FuncExpr"): {"_ops"},
    ("OffsetVisitor", "VarPoint"): {"_args"},
    ("ExprReorderVisitor", "CommutativeExpr"): {"_ops"},
    ("PointVisitor", "VarPoint"): {"_args"},
    ("CounterVisitor", "VarPoint"): {"_args"},
    ("VecInfoVisitor", "VarPoint"): {"_args"},
}
PICTURES = {"POVRayPrintVisitor", "DOTPrintVisitor", "SimpleDOTPrintVisitor"}
ROLES = {"_lhs": ("_lhs_pts", "_lhs_vars"), "_rhs": ("_rhs_pts", "_rhs_vars"), "_cond": ("_cond_pts",), "_step_cond": ("_step_cond_pts",)}


def kind_of(t):
    return strip_targs(t).replace("const ", "").rstrip("*& ").rsplit("::", 1)[-1]


def child_fields(P):
    """Node class -> fields holding sub-expressions (from their types)."""
    root = P.cls_by_name["yask::Expr"][0]
    cls = P.cls_closure(root["u"])
    names = {strip_targs(P.classes[u]["n"]) for u in cls if u in P.classes}
    out = {}
    for u in cls:
        c = P.classes.get(u)
        if not c:
            continue
        k = strip_targs(c["n"]).rsplit("::", 1)[-1]
        for f in c.get("fields", ()):
            t = f.get("t") or ""
            if "std::shared_ptr<" in t:
                inner = t[t.find("std::shared_ptr<") + 16:].split(">")[0].split("<")[0]
                if inner in names:
                    out.setdefault(k, {})[f["n"]] = "vector" in t
    for u in cls:
        c = P.classes.get(u)
        if c:
            k = strip_targs(c["n"]).rsplit("::", 1)[-1]
            st = list(c["bases"])
            while st:
                b = st.pop()
                bc = P.classes.get(b.get("u"))
                if bc:
                    bk = strip_targs(bc["n"]).rsplit("::", 1)[-1]
                    for f, v in out.get(bk, {}).items():
                        out.setdefault(k, {}).setdefault(f, v)
                    st += bc["bases"]
    return out, cls


def is_child(t, field, vec, parm):
    """Is t the child 'field' of the visited node (an element of it, for a list)?"""
    if t[0] in ("elem", "idx") and vec:
        t = t[1]
    elif vec:
        return False
    return t[0] == "fld" and t[1].endswith("::" + field) and parm(t[2])


def breaks_out(loop):
    """The loop body may leave the loop early."""
    def go(s):
        if s is None:
            return False
        k = s["k"]
        if k == "seq":
            return any(go(y) for y in s["s"])
        if k == "break":
            return True
        if k == "ret":
            return True
        if k == "if":
            return go(s["t"]) or go(s.get("e"))
        if k in ("for", "while", "do", "rfor"):
            return any(n["k"] == "ret" for n in walk(s))
        if k == "switch":
            return any(n["k"] == "ret" for n in walk(s))
        return False
    return go(loop.node["b"])


def tautology(dnf):
    """Is the disjunction of conjunctions of literals (atom, polarity) always true?"""
    if any(not c for c in dnf):
        return True
    atoms = sorted({a for c in dnf for a, _ in c}, key=repr)
    if not dnf or len(atoms) > 10:
        return False
    for vals in itertools.product((False, True), repeat=len(atoms)):
        m = dict(zip(atoms, vals))
        if not any(all(m[a] == p for a, p in c) for c in dnf):
            return False
    return True


def check(rep, tier):
    P = load_compiler()
    rep.rule("child", "visiting a node hands every operand, condition and index argument of it to the visitor, under no condition on the node's own contents")
    rep.rule("accept", "every node class dispatches to the visit() overload of its own kind")
    rep.rule("flags", "a visitor that relies on the default traversal of equations and var points switches the optional parts on")
    rep.rule("role", "the dependence pass records each point under the part of the equation in which it occurs")
    rep.rule("count", "the counting pass counts each kind of node once, with its operations, reads and writes")
    rep.rule("all", "visiting a collection of equations visits each of them")
    kids, exprs = child_fields(P)
    if "EqualsExpr" not in kids or "VarPoint" not in kids:
        raise AnalysisBroken("expression classes not found")
    base = P.cls_by_name["yask::ExprVisitor"][0]
    VC = P.cls_closure(base["u"])
    # ---- children.
    seen_base = set()
    for u in sorted(VC):
        if u not in P.classes:
            continue
        V = P.classes[u]["n"].rsplit("::", 1)[-1]
        for f in P.methods_of(P.classes[u]["n"]):
            if f.short != "visit" or not f.params:
                continue
            N = kind_of(f.params[0]["t"])
            if V == "ExprVisitor":
                seen_base.add(N)
            if V in PICTURES or (N == "VarPoint" and "Print" in V):
                continue
            need = set(kids.get(N, ())) - EXEMPT.get((V, N), set())
            if need:
                check_visit(rep, P, f, V, N, {k: kids[N][k] for k in need}, VC)
    for k in kids:
        if k in ("UnaryExpr", "BinaryExpr", "CommutativeExpr", "FuncExpr", "EqualsExpr", "VarPoint") and k not in seen_base:
            rep.bad("child", "default-" + k, "src/compiler/lib/Visitor.hpp", "no default traversal for " + k)
    # ---- dispatch.
    for f in P.fns.values():
        if f.short == "accept" and f.cu in exprs and not f.dep and not f.get("isconst") and f.params and kind_of(f.params[0]["t"]) == "ExprVisitor":
            cls = strip_targs(f.cls).rsplit("::", 1)[-1]
            if cls == "Expr":
                continue
            F = Flow(P)
            F.run(f)
            ok = False
            for v, g, env, s in F.rets:
                if v[0] == "call" and v[1] == "yask::ExprVisitor::visit" and v[2] and v[2][0] == "parm" and v[3] == ("this",) and not g:
                    ok = True
            for n, fr, a, g in F.calls:
                if (n.get("n") or "").endswith("ExprVisitor::visit"):
                    t = P.methodname.get(n.get("fn"))
                    fn = P.fns.get(n.get("fn"))
                    if fn is not None and kind_of(fn.params[0]["t"]) != cls:
                        ok = False
            if ok and len(F.rets) == 1:
                rep.ok("accept", f.where(), cls)
            else:
                rep.bad("accept", cls, f.where(), "%s::accept() does not simply dispatch to visit(%s)" % (cls, cls))
    # ---- flags.
    for V in ("SetVecVisitor", "FindIndicesVisitor", "SetLoopVisitor", "OffsetVisitor", "CppPreLoopPrintVisitor"):
        ctors = [f for f in P.methods_of("yask::" + V) if f.get("isctor") and not f.get("copy") and f.body is not None]
        for f in ctors:
            F = Flow(P)
            F.run(f)
            miss = []
            for fl in ("_visit_equals_lhs", "_visit_var_point_args", "_visit_conds"):
                v = F.st.env.get(("fld", "yask::ExprVisitor::" + fl, ("this",)))
                if v is None or v not in (("lit", True), ("lit", 1)):
                    miss.append(fl)
            if miss:
                rep.bad("flags", V, f.where(), "%s leaves %s off: those parts of an equation are not traversed" % (V, ", ".join(miss)))
            else:
                rep.ok("flags", f.where(), V)
    for f in P.fns.values():
        if f.cu in VC and not f.get("isctor"):
            for n in f.nodes():
                if n["k"] == "asg" and n["a"]["k"] == "mem" and n["a"]["f"].rsplit("::", 1)[-1] in ("_visit_equals_lhs", "_visit_var_point_args", "_visit_conds"):
                    F = Sym(P)
                    if F.norm(n["b"], Frame(f)) not in (("lit", True),):
                        rep.bad("flags", f.n, P.at(n), "a visit flag is changed after construction")
    roles(rep, P, VC)
    counts(rep, P)
    collections(rep, P)


def check_visit(rep, P, f, V, N, need, VC):
    sym = Sym(P)
    visitname = "::visit"

    def enter(t, call):
        if t.n.endswith("::accept"):
            return False
        if t.n.endswith(visitname):
            return not call.get("virt") or bool(call.get("nonvirt")) or t.cls == "yask::ExprVisitor"
        return t.cu in VC or not t.cls
    evs = collect(P, f, sym, enter=enter)
    p0 = f.params[0]

    def parm(t):
        return t[0] == "parm" and t[2] == p0["n"] or t == ("parm", 0, p0["n"])
    for fld, vec in sorted(need.items()):
        dnf = []
        why = []
        loopy = None
        for e in evs:
            n = e.node
            if n["k"] != "call" or strip_targs(n.get("n") or "").rsplit("::", 1)[-1] != "accept":
                continue
            if n.get("obj") is not None:
                o = sym.norm(n["obj"], e.frame)
                args = [sym.norm(a, e.frame) for a in n.get("a") or []]
                # the whole node may be handed to another visitor instead.
                whole = parm(o) and args and args[0] != ("this",)
                if not is_child(o, fld, vec, parm) and not whole:
                    continue
            else:
                continue
            loops = [g for g in e.guards if isinstance(g, Loop)]
            bad = None
            for l in loops:
                r = loop_range(l, sym) if l.kind in ("for", "rfor") else None
                if l.kind == "rfor":
                    if vec and breaks_out(l) and r and contains(o, r[1]):
                        bad = "the loop over the operands can stop early"
                elif l.kind == "for" and vec and N not in ("CommutativeExpr",):
                    if r is None:
                        continue
                    if contains(o, ("var",)) or any(t[0] == "var" and t[1] == r[1] for t in subterms(o)):
                        if r[2] != ("lit", 0) or r[4] != ("lit", 1):
                            bad = "the loop over the operands does not start at the first or skips some"
                        elif not (r[3][0] == "call" and r[3][1].endswith("::size")):
                            bad = "the loop over the operands ends at %s" % fmt(r[3])
                        elif breaks_out(l) and V != "SetLoopVisitor":
                            bad = "the loop over the operands can stop early"
                elif l.kind == "for" and vec and r is not None and any(t[0] == "var" and t[1] == r[1] for t in subterms(o)):
                    if r[2] != ("lit", 0) or not (r[3][0] == "call" and r[3][1].endswith("::size")):
                        bad = "the loop over the operands does not cover all of them"
            if bad:
                loopy = bad
                continue
            lits = []
            for c in flat_and(guard_conds(e)):
                lit = classify(c, fld, vec, parm, o, N)
                if lit is not None:
                    lits.append(lit)
            dnf.append(lits)
        where = f.where()
        key = "%s-%s-%s" % (V, f.params[0]["t"].replace("yask::", "").replace(" ", "")[:40], fld)
        if not dnf:
            rep.bad("child", key, where, "%s visiting a %s never reaches its %s%s" % (V, N, fld.strip("_"), ": " + loopy if loopy else ""))
        elif tautology(dnf):
            rep.ok("child", where, "%s / %s / %s" % (V, N, fld.strip("_")))
        else:
            rep.bad("child", key, where, "%s visiting a %s reaches its %s only if %s" % (
                V, N, fld.strip("_"), " or ".join(" and ".join(("" if p else "not ") + fmt(a) for a, p in c) for c in dnf)))


def classify(c, fld, vec, parm, child, N):
    """None if the condition does not depend on the contents of the node, else a literal."""
    pol = True
    while c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    # null check of the child itself.
    if c == child:
        return None if pol else (c, pol)
    if c[0] in ("dispatch", "case", "catch"):
        return None
    dep = False
    for t in subterms(c):
        if t[0] == "fld" and parm(t[2]):
            dep = True
        if t[0] == "call" and t[2] is not None and parm(t[2]):
            dep = True
        if t[0] == "dyn":
            dep = True
    if not dep:
        return None
    # bookkeeping of the visitor about this very child or the node.
    if c[0] == "call" and c[2] is not None and c[2] == ("this",):
        return None if not pol else (c, pol)
    for t in subterms(c):
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("count", "find") and t[2] is not None and not any(parm(y) for y in subterms(t[2])):
            return None
    return (c, pol)


def roles(rep, P, VC):
    fe = fv = None
    for f in P.methods_of("yask::PointVisitor"):
        if f.short == "visit":
            k = kind_of(f.params[0]["t"])
            if k == "EqualsExpr":
                fe = f
            elif k == "VarPoint":
                fv = f
    if fe is None or fv is None:
        raise AnalysisBroken("PointVisitor not found")
    got = {}
    st = ("fld", "yask::PointVisitor::_state", ("this",))
    eqf = ("fld", "yask::PointVisitor::_eq", ("this",))

    def hook(F, x, fr):
        if (x.get("n") or "").endswith("::accept"):
            o = F.norm(x["obj"], fr)
            if o[0] == "fld" and o[2][0] == "parm":
                got[o[1].rsplit("::", 1)[-1]] = (F.st.env.get(st), F.st.env.get(eqf), P.at(x))
    F = Flow(P)
    F.hook = hook
    F.run(fe)
    # what is recorded under each state.
    recs = records(fv, P)       # (set field, what, guards, eq used)
    for fld, sets in ROLES.items():
        v = got.get(fld)
        if v is None or v[0] is None:
            rep.bad("role", fld, fe.where(), "the %s of an equation is not visited in a state of its own" % fld.strip("_"))
            continue
        state, eq, at = v
        bad = []
        if eq is None or eq[0] != "parm":
            bad.append("the current equation is not recorded")
        active = set()
        for s, what, g, e in recs:
            c = [holds(y, st, state) for y in flat_and(g)]
            if all(x is True for x in c):
                active.add(s)
                exp = ("parm",) if s.endswith("_pts") else ("fld",)
                if s.endswith("_pts") and what[0] != "parm" or s.endswith("_vars") and what[0] not in ("fld", "call"):
                    bad.append("%s receives %s" % (s, fmt(what)))
                if e != eqf:
                    bad.append("%s is filed under %s" % (s, fmt(e)))
        want = set(sets) | {"_all_pts"}
        if active != want:
            bad.append("points of the %s are recorded in %s, expected %s" % (fld.strip("_"), sorted(active), sorted(want)))
        if bad:
            rep.bad("role", fld, at, "; ".join(bad))
        else:
            rep.ok("role", at, "%s -> %s" % (fld.strip("_"), ", ".join(sorted(active))))
    # getters.
    for f in P.methods_of("yask::PointVisitor"):
        w = {"get_output_vars": "_lhs_vars", "get_input_vars": "_rhs_vars", "get_output_pts": "_lhs_pts", "get_input_pts": "_rhs_pts",
             "get_cond_pts": "_cond_pts", "get_step_cond_pts": "_step_cond_pts", "get_all_pts": "_all_pts"}.get(f.short)
        if w:
            F = Flow(P)
            F.run(f)
            vs = [v for v, g, e, s in F.rets]
            if len(vs) == 1 and vs[0] == ("fld", "yask::PointVisitor::" + w, ("this",)):
                rep.ok("role", f.where(), f.short)
            else:
                rep.bad("role", f.short, f.where(), "%s() does not return %s" % (f.short, w))


def records(fv, P):
    """Assignments map[eq] = value and insertions into map[eq], with their guards."""
    sym = Sym(P)
    out = []
    for e in collect(P, fv, sym, enter=lambda t, x: t.cls == "yask::PointVisitor"):
        n = e.node
        lv = v = None
        if n["k"] == "asg" and n["op"] == "=":
            lv, v = n["a"], n["b"]
        elif n["k"] == "call" and strip_targs(n.get("n") or "").rsplit("::", 1)[-1] in ("insert", "emplace") and n.get("obj") is not None:
            lv, v = n["obj"], n["a"][0]
        if lv is not None:
            a = sym.norm(lv, e.frame)
            if a[0] == "idx" and a[1][0] == "fld":
                gs = []
                for c in guard_conds(e):
                    if c[0] == "case":
                        cs = [l[2] for l in c[2]]
                        if None in cs:
                            cs = []
                        o = ("lit", False)
                        for y in cs:
                            o = mk_bin("||", o, ("bin", "==", c[1], y))
                        gs.append(o)
                    else:
                        gs.append(c)
                out.append((a[1][1].rsplit("::", 1)[-1], sym.norm(v, e.frame), tuple(gs), a[2]))
    return out


def holds(c, var, val):
    if c[0] == "un" and c[1] == "!":
        v = holds(c[2], var, val)
        return None if v is None else not v
    if c[0] == "bin" and c[1] == "==":
        a, b = c[2], c[3]
        if b == var:
            a, b = b, a
        if a == var and b[0] in ("const", "lit") and val[0] in ("const", "lit"):
            return b[-1] == val[-1]
    if c[0] == "bin" and c[1] in ("&&", "||"):
        vs = [holds(y, var, val) for y in c[2:]]
        if c[1] == "&&":
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if c[0] == "lit" and isinstance(c[1], bool):
        return c[1]
    return None


def counts(rep, P):
    one = ("lit", 1)
    want = {
        "ConstExpr": {"_num_nodes": one}, "CodeExpr": {"_num_nodes": one},
        "VarPoint": {"_num_nodes": one, "_num_reads": one},
        "UnaryExpr": {"_num_nodes": one}, "BinaryExpr": {"_num_nodes": one},
        "CommutativeExpr": {"_num_nodes": one}, "FuncExpr": {"_num_nodes": one, "_num_ops": one},
        "EqualsExpr": {"_num_writes": one},
    }
    for f in P.methods_of("yask::CounterVisitor"):
        if f.short != "visit":
            continue
        N = kind_of(f.params[0]["t"])
        if N not in want:
            continue
        w = dict(want[N])
        t = f.params[0]["t"]
        if N in ("UnaryExpr", "BinaryExpr") and "BoolExpr" not in t:
            w["_num_ops"] = one
        F = Flow(P, keep={"yask::TrackingVisitor::already_visited"}, opaque={"yask::TrackingVisitor::already_visited"},
                 enter=lambda t: t.short != "accept")
        F.run(f)
        env = F.rets[-1][2] if F.rets else F.st.env
        got = {}
        for k, v in env.items():
            if k[0] == "fld" and k[1].startswith("yask::CounterVisitor::_num_"):
                m = k[1].rsplit("::", 1)[-1]
                if v[0] == "bin" and v[1] == "+" and k in v[2:]:
                    got[m] = v[3] if v[2] == k else v[2]
                else:
                    got[m] = v
        if "_num_paired" in got:
            del got["_num_paired"]
        if N == "CommutativeExpr":
            o = got.pop("_num_ops", None)
            txt = fmt(o) if o else "nothing"
            size = ("call", "std::vector::size", ("fld", "yask::CommutativeExpr::_ops", ("parm", 0, f.params[0]["n"])))
            exp = ("bin", "-", size, one)
            alt = [exp, ("bin", "+", size, ("lit", -1))]
            # total over the entry value may be re-associated.
            if o not in alt and not (o is not None and "size()" in txt and "1" in txt):
                rep.bad("count", "CommutativeExpr-ops", f.where(), "an n-operand operation counts as %s operations" % txt)
        if got == w:
            rep.ok("count", f.where(), N)
        elif set(got) == set(w) and any(v[0] in ("cond", "phi", "loopout") for v in got.values()):
            rep.skip("count", f.where(), "counts not in closed form")
        else:
            rep.bad("count", t.replace("yask::", "")[:40].replace(" ", ""), f.where(), "visiting a %s adds %s, expected %s" % (
                N, {k: fmt(v) for k, v in got.items()}, {k: fmt(v) for k, v in w.items()}))


def collections(rep, P):
    n = 0
    for f in P.fns.values():
        if f.short != "visit_eqs" or f.dep:
            continue
        sym = Sym(P)
        ok = None
        for e in collect(P, f, sym, enter=lambda t, x: False):
            x = e.node
            if x["k"] == "call" and (x.get("n") or "").rsplit("::", 1)[-1] in ("accept", "visit_eqs"):
                o = sym.norm(x["obj"], e.frame)
                loops = [g for g in e.guards if isinstance(g, Loop)]
                conds = guard_conds(e)
                a = [sym.norm(y, e.frame) for y in x.get("a") or []]
                good = len(loops) == 1 and not conds and a and a[0][0] == "parm"
                if good and loops[0].kind == "rfor":
                    good = o[0] == "elem" and not breaks_out(loops[0])
                elif good:
                    r = loop_range(loops[0], sym)
                    good = r is not None and r[0] == "idx" and r[2] == ("lit", 0) and not breaks_out(loops[0]) or r is None
                ok = good if ok is None else (ok or good)
        if ok:
            rep.ok("all", f.where(), f.n)
        else:
            rep.bad("all", f.n, f.where(), "%s() does not visit every equation" % f.n)
