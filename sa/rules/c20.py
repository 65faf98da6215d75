"""C20: all overloads of an API call have the same effect."""
import re
from .. import facts
from ..ir import walk, strip_targs
from ..flow import Flow, poly_eq
from ..sym import fmt

WHAT = "every forwarding overload, alias and adapter of the kernel, compiler and common API classes"
TECHNIQUE = "symbolic summaries of forwarding functions: callee identity, argument permutation, constant consistency among siblings and result propagation"
LEVEL = "other"
LEVEL_NOTE = "exact for forwarders (one call to the same operation); overloads that contain an implementation of their own are the target of the forwarding, not compared"
ASSUMPTIONS = ["conversion constructors of standard containers and index vectors preserve element values and order (index vectors: property C18)"]
MIN = {"forward": 50, "argv": 3}

# Node factory: creation rules are property C21.  YkVarBase: internal, reached through the API classes.
SKIP = ("yask::yc_node_factory", "yask::YkVarBase")
REORDER = ("reverse", "sort", "stable_sort", "rotate", "swap", "pop_back", "erase", "resize", "clear", "shuffle", "unique", "iter_swap", "swap_ranges", "partial_sort")
API = re.compile(r"^yask::(YkVarImpl|YkElemVar|YkVecVar|YkVarBase|StencilContext|KernelEnv|yk_\w+|yc_\w+|Solution|Var|command_line_parser)$")
CONV = ("Indices", "vector", "basic_string", "shared_ptr", "allocator", "initializer_list", "VarIndices")


def canon(name):
    """Name of the operation behind an API or internal method name."""
    s = name.lstrip("_")
    if s in ("operator()", "operator[]"):
        return "new_var_point"
    s = s.replace("grid", "var")
    s = re.sub(r"_void$", "", s)
    s = s.replace("vecs_in_slice", "elements_in_slice").replace("numa_preferred", "numa_pref")
    s = re.sub(r"rank_alloc_index$", "local_index", s)
    s = re.sub(r"^new_(first|last)_domain_index$", r"\1_domain_index", s)
    return s


# Operations that share one internal implementation with a selecting argument.
SHARED = {"new_fixed_size_var": "new_var", "new_scratch_var": "new_var"}


def check(rep, tier):
    rep.rule("forward", "a forwarding overload calls the same operation exactly once, unconditionally, passing each of its own arguments unchanged and in order, and returns the result")
    rep.rule("const", "overloads of one operation pass the same constants for the parameters they do not expose")
    rep.rule("argv", "the (argc, argv) and string forms pass exactly the words after the program name, in order")
    rep.rule("variadic", "the optional-argument form passes its arguments in order up to the first missing one")
    for tag, P in (("kernel", facts.load_kernel()), ("compiler", facts.load_compiler())):
        Chk(rep, P, tag).run()


class Chk:
    def __init__(self, rep, P, tag):
        self.rep, self.P, self.tag = rep, P, tag
        self.consts = {}

    def run(self):
        P = self.P
        fns = {}
        for f in P.real_fns():
            if f.cls and f.body and not f.get("isctor") and not f.get("implicit") and API.match(strip_targs(f.cls)):
                fns.setdefault((f.where(), strip_targs(f.n)), f)
        # Public operation names: anything declared in an API header.
        self.ops = set()
        for c in P.classes.values():
            if re.match(r"^yask::(yk|yc)_\w+$|^yask::command_line_parser$", c["n"]):
                for m in c["methods"]:
                    self.ops.add(canon(m["n"].rsplit("::", 1)[-1]))
        self.byname = {}
        for f in fns.values():
            self.byname.setdefault(strip_targs(f.n), []).append(f)
        for f in sorted(fns.values(), key=lambda x: x.where()):
            self.one(f)
        self.check_consts()

    def is_main(self, n):
        """A call that could be the forwarded operation."""
        nm = n.get("n") or ""
        if not nm.startswith("yask::") or not n.get("a") and (self.f.params or canon(short(n)) != canon(self.f.short)):
            return False
        cls = strip_targs(nm).rsplit("::", 1)[0]
        return bool(API.match(cls))

    def one(self, f):
        rep, P = self.rep, self.P
        self.f = f
        if strip_targs(f.cls) in SKIP:
            return
        calls = [n for n in f.nodes() if n["k"] == "call"]
        main = [n for n in calls if self.is_main(n)]
        if not main or len(list(f.nodes())) > 160:
            return
        cf = canon(f.short)
        same = [n for n in main if canon(short(n)) in (cf, SHARED.get(cf)) and not self.impl_helper(f, n)]
        if not same:
            # An alternative form of an overloaded operation that calls a different operation.
            main = [m for m in main if strip_targs(m["n"]).rsplit("::", 1)[0] in P.cls_family(f.cu)]
            if self.alt_form(f) and len(main) == 1 and canon(short(main[0])) in self.ops:
                rep.bad("forward", self.key(f) + ":op", f.where(), "%s calls %s instead of another form of %s" % (sig(f), short(main[0]), cf))
            return
        if len(same) > 1 and len({P.at(n) for n in same}) > 1:
            rep.skip("forward", f.where(), "several calls of the operation")
            return
        n = same[0]
        if n.get("fn") == f.u:
            rep.bad("forward", self.key(f) + ":self", f.where(), "%s calls itself" % sig(f))
            return
        F = Flow(P, keep=tuple({x.get("n") for x in main}))
        F.run(f)
        rec = [c for c in F.calls if c[0] is n]
        if not rec:
            rep.skip("forward", f.where(), "call not summarised")
            return
        node, frame, args, guards = rec[0][:4]
        w = f.where()
        # A guard is acceptable only where the other way out throws.
        if [g for g in guards if not trivially_true(g)] and any(r[3]["k"] == "ret" for r in F.rets if not self.same_call(r[0], n)):
            rep.bad("forward", self.key(f) + ":cond", w, "%s performs the operation only if %s" % (sig(f), " and ".join(fmt(g)[:80] for g in guards)))
            return
        vals = [self.norm(F, a) for a in args]
        if any(p["t"].replace(" ", "") in ("char**",) for p in f.params):
            self.argv(f, F, n, vals)
            return
        nulls = [p for p in f.params if "yc_number_ptr_arg" in p["t"] or "yc_number_any_arg" in p["t"]]
        if len(f.params) > 1 and len(nulls) == len(f.params):
            self.variadic(f, F, n)
            return
        seq, extra = [], []
        T = self.P.fns.get(n.get("fn"))
        for j, v in enumerate(vals):
            i = parm_of(v)
            if i is not None:
                seq.append(i)
            elif v[0] in ("lit", "const", "null", "str") or fmt(v) in ("0", "shared_ptr(0)", "none"):
                extra.append((j, fmt(v)))
            elif v[0] == "call" and v[1].endswith("set_args"):
                i = parm_of(self.norm(F, v[3]))
                if i is None:
                    rep.bad("forward", self.key(f) + ":arg%d" % j, w, "%s tokenises %s" % (sig(f), fmt(v[3])))
                    return
                seq.append(i)
            elif has_parm(v) and arithmetic(v):
                rep.bad("forward", self.key(f) + ":arg%d" % j, w, "%s passes %s instead of its argument unchanged" % (sig(f), fmt(v)[:120]))
                return
            elif v[0] in ("phi", "mod", "loopout", "ret") and any(m["k"] == "call" and short(m) in REORDER for m in f.nodes()):
                rep.bad("forward", self.key(f) + ":arg%d" % j, w, "%s passes a reordered or shortened copy of its argument" % sig(f))
                return
            else:
                rep.skip("forward", w, "argument %d is %s" % (j, fmt(v)[:100]))
                return
        need = [i for i in range(len(f.params))]
        dup_ok = len(vals) > len(f.params)
        uniq = [x for k, x in enumerate(seq) if not (dup_ok and k and seq[k - 1] == x)]
        if uniq != need:
            names = [f.params[i]["n"] for i in seq]
            rep.bad("forward", self.key(f) + ":args", w, "%s passes its arguments to %s as (%s)" % (sig(f), short(n), ", ".join(names) or "none"))
            return
        for r in F.rets:
            if r[3]["k"] == "ret" and r[3].get("e") is not None and not self.same_call(r[0], n):
                rep.bad("forward", self.key(f) + ":ret", w, "%s returns %s instead of the result of %s" % (sig(f), fmt(r[0])[:100], short(n)))
                return
        own = strip_targs(f.cls)
        tn = T.n if T else n.get("n") or ""
        other = [c for c in ("YkElemVar", "YkVecVar") if own in ("yask::YkElemVar", "yask::YkVecVar") and not own.endswith(c) and "yask::" + c + "<" in tn.split("slice", 1)[-1]]
        if other:
            rep.bad("forward", self.key(f) + ":type", w, "%s works on its object as a %s" % (sig(f), other[0]))
            return
        rep.ok("forward", w, "%s => %s(%s)" % (sig(f), short(n), ", ".join(fmt(v)[:30] for v in vals)))
        for j, v in extra:
            pn = T.params[j]["n"] if T and j < len(T.params) else "#%d" % j
            self.consts.setdefault((cf, strip_targs(f.cls), canon(short(n)), pn), []).append((v, f))

    def impl_helper(self, f, n):
        return False

    def alt_form(self, f):
        """Overload with a convertible argument list or an alias in an API header."""
        if f.where().startswith("include/"):
            return canon(f.short) != f.short or len(self.byname.get(strip_targs(f.n), ())) > 1
        if len(self.byname.get(strip_targs(f.n), ())) < 2:
            return False
        return any(re.search(r"initializer_list|std::vector<|char \*\*|basic_string", p["t"]) for p in f.params)

    def key(self, f):
        return "%s(%s)" % (strip_targs(f.n), ",".join(p["t"][:40] for p in f.params))

    def norm(self, F, v, d=0):
        if d > 8 or not isinstance(v, tuple) or not v:
            return v
        if v[0] == "cast":
            return self.norm(F, v[2], d + 1)
        if v[0] == "var" and v in F.objinit:
            return self.norm(F, F.objinit[v], d + 1)
        if v[0] == "var":
            for i, p in enumerate(self.f.params):
                if v[1] == p["d"] or v[1] == "%s@%s" % (p["n"], p["d"]):
                    return ("parm", i, p["n"])
        if v[0] == "un" and v[1] in ("&", "*", "addr"):
            return self.norm(F, v[2], d + 1)
        if v[0] == "dyn":
            return self.norm(F, v[2], d + 1)
        if v[0] == "ctor" and any(v[1].endswith(c) for c in CONV):
            a = [x for x in v[2:] if not (isinstance(x, tuple) and x[0] == "ctor" and x[1].endswith("allocator"))]
            if len(a) == 1:
                return self.norm(F, a[0], d + 1)
            if len(a) == 2:
                b, e = (self.norm(F, x, d + 1) for x in a)
                if b[0] == e[0] == "call" and b[1].endswith("begin") and e[1].endswith("end") and b[2] == e[2]:
                    return self.norm(F, b[2], d + 1)
                if has_parm(b) and has_parm(e):
                    return ("bin", "..", b, e)
        if v[0] == "init" and len(v) == 2:
            return self.norm(F, v[1], d + 1)
        if v[0] == "call" and v[1] in ("std::move", "std::forward", "std::dynamic_pointer_cast", "std::static_pointer_cast") and len(v) >= 4:
            return self.norm(F, v[3], d + 1)
        if v[0] == "call" and v[1].endswith("::get") and v[2] is not None and "shared_ptr" in v[1]:
            return self.norm(F, v[2], d + 1)
        return v

    def same_call(self, v, n):
        while isinstance(v, tuple) and v and (v[0] in ("cast", "dyn") or v[0] == "ctor" and ("shared_ptr" in v[1] or "basic_string" in v[1] or "vector" in v[1])):
            v = v[2]
        return isinstance(v, tuple) and v and v[0] == "call" and strip_targs(v[1]) == strip_targs(n.get("n", ""))

    def argv(self, f, F, n, vals):
        """for i in 1..argc-1: push_back(argv[i]); forward."""
        rep, w = self.rep, f.where()
        pc = ("parm", 0, f.params[0]["n"])
        pv = ("parm", 1, f.params[1]["n"])
        loops = [L for L in F.loops if any(short(c[0]) in ("push_back", "emplace_back") for c in L.calls)]
        ran = self.counted(loops[0], pc) if len(loops) == 1 else None
        if ran is None:
            # Range construction: vector(argv + 1, argv + argc).
            for v in vals:
                t = fmt(v)
                if "argv" in t and "argc" in t:
                    ok = re.search(r"\(argv \+ 1\)|\(1 \+ argv\)", t) and re.search(r"\(argc \+ argv\)|\(argv \+ argc\)", t)
                    (rep.ok("argv", w, t[:100]) if ok else rep.bad("argv", self.key(f), w, "%s passes %s" % (sig(f), t[:120])))
                    return
            rep.skip("argv", w, "unrecognised conversion of argv")
            return
        L = loops[0]
        c = [c for c in L.calls if short(c[0]) in ("push_back", "emplace_back")]
        a = self.norm(F, c[0][2][0])
        ix, lo, hi = ran
        if len(c) != 1 or a != ("idx", pv, ix) or lo != ("lit", 1) or not poly_eq(hi, pc) or [g for g in c[0][3] if "argc" not in fmt(g)]:
            rep.bad("argv", self.key(f), w, "%s passes %s for i in [%s, %s)" % (sig(f), fmt(a)[:60], fmt(lo), fmt(hi)))
        elif any(r[3]["k"] == "ret" and not self.same_call(r[0], n) for r in F.rets):
            rep.bad("argv", self.key(f) + ":ret", w, "%s does not return the result of %s" % (sig(f), short(n)))
        else:
            bad = [v for v in vals if isinstance(v, tuple) and v[0] == "idx" and v[1] == pv and v[2] != ("lit", 0)]
            if bad:
                rep.bad("argv", self.key(f) + ":name", w, "program name is %s" % fmt(bad[0]))
            else:
                rep.ok("argv", w, "argv[1..argc) => %s" % short(n))

    def counted(self, L, pc):
        """(index, first, end) of a counted loop over the words."""
        c = L.cond
        if not (isinstance(c, tuple) and c[0] == "bin" and c[1] in ("<", "<=", "!=")):
            return None
        for k, s in L.syms.items():
            if s == c[2]:
                e = L.exit[k] and poly_eq(("bin", "+", s, ("lit", 1)), L.exit[k])
                if not e or L.entry[k][0] != "lit":
                    return None
                return s, L.entry[k], (("bin", "+", c[3], ("lit", 1)) if c[1] == "<=" else c[3])
        return None

    def variadic(self, f, F, n):
        rep, w = self.rep, f.where()
        seq = []
        for m in f.nodes():
            if m["k"] == "call" and short(m) in ("push_back", "emplace_back"):
                x = [y for y in walk(m["a"][0]) if y["k"] == "ref" and y.get("dk") == "parm"]
                seq.append(x[0]["n"] if len(x) == 1 else "?")
        want = [p["n"] for p in f.params]
        guards = {}
        for m in f.nodes():
            if m["k"] == "if":
                g = [y["n"] for y in walk(m["c"]) if y["k"] == "ref" and y.get("dk") == "parm"]
                for y in walk(m["t"]):
                    if y["k"] == "call" and short(y) in ("push_back", "emplace_back"):
                        for z in walk(y["a"][0]):
                            if z["k"] == "ref" and z.get("dk") == "parm":
                                guards.setdefault(z["n"], []).extend(g)
        if not seq:
            rep.skip("variadic", w, "no element-wise construction")
        elif seq != want:
            rep.bad("variadic", self.key(f), w, "%s collects its arguments as (%s)" % (sig(f), ", ".join(seq)))
        elif any(p not in guards.get(p, ()) for p in want):
            rep.bad("variadic", self.key(f) + ":guard", w, "%s adds an argument under a test of another one" % sig(f))
        else:
            rep.ok("variadic", w, ", ".join(seq))

    def check_consts(self):
        rep = self.rep
        for (cf, cls, tgt, pn), l in sorted(self.consts.items()):
            vals = {v for v, _ in l}
            if pn == "on_device":
                for v, f in l:
                    if v not in ("False", "0"):
                        rep.bad("const", self.key(f) + ":" + pn, f.where(), "%s passes %s = %s; host overloads work on the host" % (sig(f), pn, v))
                    else:
                        rep.ok("const", f.where(), "%s=%s" % (pn, v))
                continue
            if pn == "is_scratch":
                for v, f in l:
                    if (v in ("True", "1")) != ("scratch" in cf):
                        rep.bad("const", self.key(f) + ":" + pn, f.where(), "%s passes %s = %s" % (sig(f), pn, v))
                    else:
                        rep.ok("const", f.where(), "%s=%s" % (pn, v))
                continue
            if len(vals) > 1:
                for v, f in l:
                    rep.bad("const", "%s:%s:%s" % (cf, pn, f.params[-1]["t"][:30]), f.where(), "forms of %s pass different constants for %s: %s" % (cf, pn, ", ".join(sorted(vals))))
            else:
                for v, f in l:
                    rep.ok("const", f.where(), "%s=%s" % (pn, v))


def short(n):
    s = strip_targs(n.get("n") or "")
    return s.rsplit("::", 1)[-1] if "operator" not in s else "operator" + s.rsplit("operator", 1)[-1]


def sig(f):
    return "%s(%s)" % (f.short, ", ".join(p["n"] or "_" for p in f.params))


def parm_of(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == "parm" else None


def has_parm(v):
    if isinstance(v, tuple):
        return bool(v) and (v[0] == "parm" or any(has_parm(x) for x in v[1:]))
    return False


def arithmetic(v):
    return isinstance(v, tuple) and v[0] in ("bin", "un", "cond", "idx", "cat")


def trivially_true(g):
    return g == ("lit", True) or "dyn" in str(g)
