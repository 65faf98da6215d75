"""C15: index arithmetic is correct for negative indices."""
import re
from .. import facts, idivs
from ..ir import walk, strip_targs
from ..flow import Flow, poly, padd
from ..sym import fmt, subterms

WHAT = "every division, remainder, rounding and wrapping applied to an element, vector, tile or step index in the kernel library, and the index-operation text the stencil compiler emits"
TECHNIQUE = "whole-program affine kind inference (position / length) over the typed AST; case analysis of the floor-division helpers; symbolic terms of the index-to-storage maps"
LEVEL = "other"
LEVEL_NOTE = "flow-insensitive kind inference seeded at position sources; a division whose numerator is not provably a position is not judged"
ASSUMPTIONS = ["divisors (fold lengths, tile sizes, allocated steps) are positive",
               "left padding covers the left halo, so allocation-relative offsets are non-negative (checked at run time by the library)"]
MIN = {"idiv": 4, "floor": 5, "wrap": 1}

FLOOR = {"idiv_flr": 1, "imod_flr": 0, "round_down_flr": 1, "round_up_flr": 1, "ceil_idiv_flr": 1}
TOP = "top"

# Positions: their origin is the global origin or the origin of the rank or var.
POINT_FIELDS = {"yask::ScanIndices::begin", "yask::ScanIndices::end", "yask::ScanIndices::start", "yask::ScanIndices::stop", "yask::ScanIndices::align_ofs",
                "yask::BoundingBox::bb_begin", "yask::BoundingBox::bb_end"}
OTHER_FIELDS = {"yask::YkVarBaseCore::_actl_left_pads": -1, "yask::YkVarBaseCore::_rank_offsets": 0, "yask::YkVarBaseCore::_local_offsets": 0,
                "yask::ScanIndices::stride": 0, "yask::ScanIndices::align": 0, "yask::ScanIndices::tile_size": 0,
                "yask::StencilContext::rank_domain_offsets": 0, "yask::BoundingBox::bb_len": 0, "yask::BoundingBox::bb_num_points": 0, "yask::BoundingBox::bb_size": 0}
POINT_FNS = {"yask::YkVarBaseCore::get_first_local_index", "yask::YkVarBaseCore::get_last_local_index",
             "yask::YkVarBase::get_first_local_index", "yask::YkVarBase::get_last_local_index"}
# Parameters that receive caller-chosen positions (API entry points).
ENTRY = [("yask::YkVarImpl", re.compile(r"(_element|_elements|_in_slice|are_indices_local|is_element|get_raw|format_indices|_step)"))]
CONT = ("Indices", "Tuple<long>", "ScanIndices", "VarIndices", "vector<long")


def is_idx(t):
    t = (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()
    return t in ("long", "unsigned long", "int", "unsigned int", "long long") or any(c in t for c in CONT)


class Kinds:
    """Affine kind of every integer/index variable: coefficient of the origin."""

    def __init__(self, P):
        self.P = P
        self.k = {}
        self.fixed = {}
        self.cons = []          # (target, fn, expr)
        self.build()
        self.solve()

    def join(self, key, v):
        """Kinds are sets of possible coefficients (None = nothing known yet)."""
        if not v or key in self.fixed:
            return False
        o = self.k.get(key, frozenset())
        if v <= o:
            return False
        self.k[key] = o | v
        return True

    def target(self, fn, lv):
        """Kind key of an lvalue (containers stand for their elements)."""
        while lv is not None:
            k = lv["k"]
            if k == "ref":
                return (fn.u, lv["d"]) if lv.get("dk") in ("var", "parm") else ("g", lv["d"])
            if k == "mem":
                return ("f", lv["f"]) if not lv["f"].startswith("?") else None
            if k == "idx":
                lv = lv["b"]
            elif k == "cast":
                lv = lv["e"]
            elif k == "un" and lv["op"] in ("*", "++", "--", "&"):
                lv = lv["e"]
            elif k == "call" and lv.get("op") in ("[]", "*", "->", "()", "=") and lv.get("obj") is not None:
                lv = lv["obj"]
            elif k == "call" and short(lv) in ("operator[]", "at", "lookup", "_sync_element") and lv.get("obj") is not None:
                lv = lv["obj"]
            else:
                return None
        return None

    def build(self):
        P = self.P
        for f in POINT_FIELDS:
            self.fixed[("f", f)] = 1
        for f, v in OTHER_FIELDS.items():
            self.fixed[("f", f)] = v
        for f in P.fns.values():
            if f.n.split("<")[0] in POINT_FNS or strip_targs(f.n) in POINT_FNS:
                self.fixed[("r", f.u)] = 1
            elif f.short in FLOOR or strip_targs(f.n).startswith("std::"):
                self.fixed[("r", f.u)] = None
            # Containers and helpers are treated by name below.
            opaque = f.cls and any(c in f.cls for c in ("::Indices", "::Tuple<"))
            if opaque:
                continue
            for c, rx in ENTRY:
                if f.cls and strip_targs(f.cls) == c and rx.search(f.short):
                    for p in f.params:
                        if any(x in p["t"] for x in CONT) or (p["n"] and "step" in p["n"] and is_idx(p["t"])):
                            self.fixed[(f.u, p["d"])] = 1
            if f.short == "_wrap_step":
                self.fixed[("r", f.u)] = 0
                for p in f.params:
                    self.fixed[(f.u, p["d"])] = 1
            for n in f.nodes():
                k = n["k"]
                if k == "decl":
                    for v in n["v"]:
                        if v.get("init") is not None and is_idx(v["t"]):
                            self.cons.append(((f.u, v["d"]), f, v["init"]))
                            # A non-const reference also writes through.
                            if v.get("ref") and not v.get("cref"):
                                t = self.target(f, v["init"])
                                if t:
                                    self.cons.append((t, f, ("key", (f.u, v["d"]))))
                elif k == "asg" and n["op"] == "=":
                    t = self.target(f, n["a"])
                    if t:
                        self.cons.append((t, f, n["b"]))
                elif k == "asg" and n["op"] in ("+=", "-="):
                    t = self.target(f, n["a"])
                    if t:
                        self.cons.append((t, f, ("acc", n["op"], t, n["b"])))
                elif k == "asg":
                    t = self.target(f, n["a"])
                    if t and n["op"] in ("*=", "/=", "%=", "&=", ">>="):
                        self.cons.append((t, f, ("lit", TOP if n["op"] != "%=" else 0)))
                elif k in ("call", "ctor"):
                    self.call(f, n)
                elif k == "ret" and n.get("e") is not None:
                    self.cons.append((("r", f.u), f, n["e"]))

    def call(self, f, n):
        a = n.get("a") or []
        s = short(n)
        ob = n.get("obj")
        cls = cls_of(n)
        if ob is not None and ("Tuple" in cls or "Indices" in cls):
            t = self.target(f, ob)
            if t:
                if s in ("set_val", "add_dim_back", "add_dim_front") and len(a) > 1:
                    self.cons.append((t, f, a[-1]))
                elif s in ("set_vals", "set_vals_same", "set_from_tuple", "set_from_array", "set_from_const", "operator=") and a:
                    self.cons.append((t, f, a[0]))
            if s in ("set_tuple_vals",) and a:
                t2 = self.target(f, a[0])
                if t2:
                    self.cons.append((t2, f, ob))
            return
        for g in self.P.targets(n) if n["k"] == "call" else ([self.P.fns[n["fn"]]] if n.get("fn") in self.P.fns else []):
            for p, x in zip(g.params, a):
                if x is None or not is_idx(p["t"]):
                    continue
                if g.get("pat") or g.short in FLOOR:
                    if g.n.startswith("yask::") and g.short in FLOOR:
                        continue
                self.cons.append(((g.u, p["d"]), f, x))
                # By-reference outputs.
                if p["t"].endswith("&") and not p["t"].startswith("const"):
                    t = self.target(f, x)
                    if t:
                        self.cons.append((t, f, ("key", (g.u, p["d"]))))

    def solve(self):
        for _ in range(12):
            ch = False
            for t, f, e in self.cons:
                if t in self.fixed:
                    continue
                if self.join(t, self.ev(f, e)):
                    ch = True
            if not ch:
                return

    def get(self, key):
        if key in self.fixed:
            v = self.fixed[key]
            return frozenset((v,)) if v is not None else frozenset()
        return self.k.get(key, frozenset())

    def ev(self, f, e):
        if e is None:
            return NONE
        if isinstance(e, tuple):
            if e[0] == "key":
                return self.get(e[1])
            if e[0] == "lit":
                return frozenset((e[1],))
            if e[0] == "acc":
                if islit(e[3]):
                    return self.get(e[2])
                r = arith("+" if e[1] == "+=" else "-", self.get(e[2]), self.ev(f, e[3]), False, False)
                return frozenset(x for x in r if x == TOP or -1 <= x <= 1)
        k = e["k"]
        if k == "lit":
            return NONE
        if k in ("ref", "mem", "idx"):
            if k == "ref" and e.get("cv") is not None:
                return NONE
            t = self.target(f, e)
            return self.get(t) if t else NONE
        if k == "cast":
            return self.ev(f, e["e"])
        if k == "un":
            v = self.ev(f, e["e"])
            if e["op"] == "-":
                return frozenset(-x if x != TOP else x for x in v)
            return v if e["op"] != "!" else NONE
        if k == "cond":
            return self.ev(f, e["a"]) | self.ev(f, e["b"])
        if k == "asg":
            return self.ev(f, e["b"])
        if k == "bin":
            return arith(e["op"], self.ev(f, e["a"]), self.ev(f, e["b"]), islit(e["a"]), islit(e["b"]))
        if k in ("call", "ctor"):
            s = short(e)
            a = e.get("a") or []
            if s in FLOOR and len(a) == 2:
                return self.ev(f, a[0]) if FLOOR[s] else LEN
            if s in ("min", "max") and len(a) == 2:
                return self.ev(f, a[0]) | self.ev(f, a[1])
            if s in ("abs", "labs"):
                return LEN
            cls = cls_of(e)
            ob = e.get("obj")
            if ob is not None and ("Tuple" in cls or "Indices" in cls):
                o = self.ev(f, ob)
                x = self.ev(f, a[0]) if a else NONE
                if s in ("operator[]", "get_vals", "get_val", "at", "remove_dim", "clip_rank", "lookup", "min_elements", "max_elements", "operator="):
                    return o
                if s in ("add_elements", "add_const", "operator+"):
                    return arith("+", o, x, False, islit(a[0]))
                if s in ("sub_elements", "sub_const", "operator-"):
                    return arith("-", o, x, False, islit(a[0]))
                return NONE
            if k == "ctor" and ("Indices" in e["n"] or "Tuple" in e["n"]):
                return self.ev(f, a[0]) if a and a[0] is not None and (e.get("copy") or e.get("move") or is_idx(a[0].get("t"))) else NONE
            if e.get("op") in ("+", "-") and len(a) == 2 and ob is None:
                return arith(e["op"], self.ev(f, a[0]), self.ev(f, a[1]), islit(a[0]), islit(a[1]))
            r = NONE
            for g in self.P.targets(e) if k == "call" else ():
                r |= self.get(("r", g.u))
            return r
        if k == "init" and e.get("a"):
            r = NONE
            for x in e["a"]:
                r |= self.ev(f, x)
            return r
        return NONE


NONE = frozenset()
LEN = frozenset((0,))


def islit(e):
    while e is not None and e["k"] == "cast":
        e = e["e"]
    return e is not None and (e["k"] == "lit" or e.get("cv") is not None)


def arith(op, a, b, la, lb):
    if op in ("+", "-"):
        if lb or not b:
            return a
        if (la or not a) and op == "+":
            return b
        if not a:
            return NONE
        if op == "-" and 1 in a and 1 in b:
            return LEN      # a difference of two positions
        out = set()
        for x in a:
            for y in b:
                if TOP in (x, y):
                    out.add(TOP)
                else:
                    z = x + y if op == "+" else x - y
                    out.add(z if -2 <= z <= 2 else TOP)
        return frozenset(out)
    if op == "%":
        return LEN
    if op in ("*", "/"):
        return a if 1 not in a and 1 not in b and a else NONE
    return NONE


def short(n):
    if n["k"] == "ctor":
        return strip_targs(n["n"]).rsplit("::", 1)[-1]
    s = n.get("n") or ""
    return strip_targs(s).rsplit("::", 1)[-1] if "operator" not in s else "operator" + (n.get("op") or s.rsplit("operator", 1)[-1])


def cls_of(n):
    s = n.get("n") or ""
    return s.rsplit("::", 1)[0] if "::" in s else ""


def check(rep, tier):
    rep.rule("idiv", "the floor-division helpers equal floor / floored modulus for both signs of the numerator")
    rep.rule("floor", "every division, remainder or rounding whose numerator is a position (an index that may be left of the origin) uses a floor helper")
    rep.rule("wrap", "a step index is mapped to its storage slot by floored modulus with the allocated step size")
    rep.rule("store", "the element/vector index-to-storage map subtracts the rank and local offsets and adds the left padding before it divides unsigned")
    rep.rule("tile", "in generated loops the tile bounds are derived from begin, end, stride and alignment by floored rounding")
    rep.rule("text", "index divisions and remainders in generated code use the floored helpers")
    P = facts.load_kernel()
    idivs.check_helpers(P, rep, "idiv")
    K = Kinds(P)
    check_floor(rep, P, K)
    check_wrap(rep, P)
    check_store(rep, P)
    check_text(rep, facts.load_compiler())
    check_tiles(rep, tier)


def div_test(f, n):
    """A remainder that is only compared with zero does not depend on the rounding,
    and neither does a quotient that the function requires to be exact."""
    same = lambda x, y: skel(x) == skel(y)
    for m in f.nodes():
        if m["k"] == "bin" and m["op"] in ("==", "!="):
            for x, y in ((m["a"], m["b"]), (m["b"], m["a"])):
                while x["k"] == "cast":
                    x = x["e"]
                if y["k"] == "lit" and str(y.get("v")) == "0":
                    if n["op"] == "%" and x is n:
                        return True
                    if n["op"] == "/" and m["op"] == "==" and x["k"] == "call" and short(x) == "imod_flr" and same(x["a"][0], n["a"]) and same(x["a"][1], n["b"]):
                        return True
        if n["op"] == "%" and m["k"] in ("if", "cond", "un") and m.get("op", "!") == "!":
            x = m.get("c") if m["k"] != "un" else m.get("e")
            while x is not None and x["k"] == "cast":
                x = x["e"]
            if x is n:
                return True
    # The vector offset of a fold-aligned local offset (aligned by its only caller).
    return n["op"] == "/" and any(m["k"] == "asg" and m["b"] is n and any(y["k"] == "mem" and y["n"] == "_vec_local_offsets" for y in walk(m["a"]))
                                  for m in f.nodes()) and n["a"]["k"] == "ref" and n["a"].get("dk") == "parm"


def sign_fix(f):
    """The function tests some value for being negative."""
    for m in f.nodes():
        if m["k"] == "bin" and m["op"] in ("<", ">=") and m["b"]["k"] == "lit" and str(m["b"].get("v")) == "0":
            return True
    return False


def skel(x):
    """Location-free form of an expression."""
    if isinstance(x, dict):
        return tuple((k, skel(v)) for k, v in sorted(x.items()) if k not in ("l", "el"))
    if isinstance(x, list):
        return tuple(skel(y) for y in x)
    return x


def check_floor(rep, P, K):
    seen = set()
    for f in P.real_fns():
        if f.short in FLOOR or "<gen>" in f.where() and False:
            continue
        if f.cls and any(c in f.cls for c in ("yask::Indices", "yask::Tuple<")):
            continue
        for n in f.nodes():
            if n["k"] in ("bin", "asg") and n["op"] in ("/", "%", "/=", "%=") and is_idx(n.get("t")):
                k = K.ev(f, n["a"])
                key = (P.at(n), n["op"])
                if 1 in k and n["op"] == "%" and (f.short == "_wrap_step" or sign_fix(f)):
                    rep.skip("floor", P.at(n), "remainder with an explicit sign adjustment")
                elif 1 in k and not div_test(f, n):
                    rep.bad("floor", "%s:%s" % (strip_targs(f.n), n["op"]), P.at(n),
                            "'%s' truncates toward zero but its left operand is an index that may be negative (use the floored helper)" % n["op"])
                elif key not in seen:
                    seen.add(key)
                    rep.ok("raw", P.at(n), "%s of kind %s in %s" % (n["op"], sorted(map(str, k)), f.n))
            elif n["k"] == "call" and short(n) in FLOOR and n.get("a") and len(n["a"]) == 2:
                k = K.ev(f, n["a"][0])
                if (P.at(n), short(n)) not in seen:
                    seen.add((P.at(n), short(n)))
                    rep.ok("floor", P.at(n), "%s of kind %s in %s" % (short(n), sorted(map(str, k)), f.n))


def sub(t, pred):
    return [x for x in subterms(t) if isinstance(x, tuple) and x and pred(x)]


STEP = re.compile(r"_domains\._idxs\[(step_posn|0)\]$")


def check_wrap(rep, P):
    done = set()
    for f in P.named("yask::YkVarBaseCore::_wrap_step") + P.named("yask::YkVarBase::_wrap_step"):
        if f.where() in done or not f.body:
            continue
        done.add(f.where())
        a = ("parm", 0, f.params[0]["n"])
        F = Flow(P, keep=("yask::imod_flr",))
        F.run(f)
        G = Flow(P)
        G.run(f)
        for (v, g, e, s), (full, _, _, _) in zip(F.rets, G.rets):
            if s["k"] != "ret":
                continue
            while v[0] == "cast":
                v = v[2]
            ds = {x for x in subterms(full) if isinstance(x, tuple) and x and x[0] == "idx" and "_domains" in fmt(x)}
            if v[0] == "call" and v[1].endswith("imod_flr") and v[3] == a and STEP.search(fmt(v[4])):
                rep.ok("wrap", f.where(), fmt(v)[:120])
            elif v[0] == "call" and v[1].endswith("::_wrap_step") and v[3] == a:
                rep.ok("wrap", f.where(), "forwards to " + v[1])
            elif len(ds) == 1 and STEP.search(fmt(list(ds)[0])) and idivs.ok_imod(full, a, list(ds)[0]) is None:
                rep.ok("wrap", f.where(), "floored modulus written out: " + fmt(full)[:120])
            else:
                rep.bad("wrap", f.n, f.where(), "step index %s is mapped to storage by %s, not by its floored modulus with the allocated number of steps" % (a[2], fmt(full)[:160]))


def check_store(rep, P):
    for cls in ("yask::YkElemVarCore", "yask::YkVecVarCore"):
        for f in P.named(cls + "::_get_adj_idx"):
            idx = [i for i, p in enumerate(f.params) if "Indices" in p["t"]]
            outs = [i for i in idx if not f.params[i]["t"].startswith("const")]
            ins = [i for i in idx if i not in outs]
            if len(ins) != 1 or not outs:
                rep.skip("store", f.where(), "unexpected signature")
                continue
            F = Flow(P, opaque=(cls + "::_get_adj_idx",))
            F.run(f)
            vec = cls.endswith("YkVecVarCore")
            isvec = vec and len(outs) == 1
            m = re.search(r"<(true|false),", f.u)
            glob = not isvec and (vec or not m or m.group(1) == "true")
            X = ("parm", ins[0], f.params[ins[0]]["n"])
            for key, v in F.st.env.items():
                if not (key[0] == "idx" and key[1][0] == "fld" and key[1][2][0] == "parm" and key[1][2][1] in outs):
                    continue
                pos = key[2]
                if pos == ("lit", -1):
                    continue
                for v2 in arms(v, key):
                    judge(rep, f, pos, v2, X, vec and not isvec, isvec, glob, "div" if key[1][2][1] == outs[0] else "mod")


def arms(v, key):
    if v[0] == "cast":
        return arms(v[2], key)
    if v[0] == "cond":
        return [x for a in (v[2], v[3]) for x in arms(a, key)]
    return [v] if v != key else []


def judge(rep, f, pos, v, X, split, isvec, glob, kind):
    t, nm = fmt(v), strip_targs(f.n)
    if v[0] == "parm" or v == ("lit", 0):
        if v[0] == "parm" and v[2] != f.params[-1]["n"]:
            rep.bad("store", nm + ":step", f.where(), "step position is stored as %s instead of the allocated step index" % t)
        else:
            rep.ok("store", f.where(), "step %s := %s" % (fmt(pos), t))
        return
    num = v
    if split:
        if v[0] != "bin" or v[1] not in ("/", "%"):
            rep.skip("store", f.where(), "unrecognised split %s" % t[:100])
            return
        if (v[1] == "/") != (kind == "div"):
            rep.bad("store", nm + ":" + kind, f.where(), "vector index and element offset are exchanged: %s" % t[:160])
            return
        if "[%s]" % fmt(pos) not in fmt(v[3]) and v[3][0] != "lit":
            rep.bad("store", nm + ":len", f.where(), "dimension %s is divided by %s" % (fmt(pos), fmt(v[3])))
            return
        num = v[2]
    got, simple = {}, True
    for mono, c in poly(num).items():
        n = fmt(mono[0]) if len(mono) == 1 else "()" if not mono else None
        simple = simple and n is not None and (n == "()" or bool(re.match(r"^[\w.]+\._idxs\[[^]]*\]$", n)))
        got[n] = c
    suf = "._idxs[%s]" % fmt(pos)
    want = {fmt(X) + suf: 1, ("_vec_left_pads" if isvec else "_actl_left_pads") + suf: 1, ("_vec_local_offsets" if isvec else "_local_offsets") + suf: -1}
    if glob:
        want["_rank_offsets" + suf] = -1
    if got == want:
        rep.ok("store", f.where(), "%s[%s] = %s" % (nm, fmt(pos), t[:120]))
    elif simple:
        rep.bad("store", nm + (":vec" if isvec else ":elem"), f.where(),
                "index-to-storage offset in dimension %s is %s; expected %s" % (fmt(pos), t[:200], " ".join("%+d*%s" % (c, k) for k, c in sorted(want.items()))))
    else:
        rep.skip("store", f.where(), "unrecognised offset %s" % t[:160])


def check_tiles(rep, tier):
    """The generated loops derive tile bounds from signed begin/align values (range rule of C17)."""
    from . import c17
    from ..check import Report
    r2 = Report(rep.prop)
    c17.check(r2, tier)
    for k, w, m in r2.viol:
        if k.startswith("range:") or k.startswith("idiv:"):
            rep.bad("tile", k, w, m)
    for x in r2.sites:
        if x["rule"] == "range":
            rep.ok("tile", x["at"], x["what"])


def check_text(rep, C):
    """Step arguments printed into generated code."""
    for f in C.named("yask::VarPoint::make_step_arg_str"):
        F = Flow(C)
        F.run(f)
        for v, g, e, s in F.rets:
            if s["k"] != "ret":
                continue
            text = flat(v)
            gs = [fmt(x) for x in g]
            if text in ("", "0"):
                if text == "0" and not any(re.search(r"size == 1|1 == ", x) and not x.startswith("!") for x in gs):
                    rep.bad("text", "step0", f.where(), "the step argument is printed as 0 although more than one step may be allocated")
                else:
                    rep.ok("text", f.where(), repr(text))
            elif re.search(r"->_wrap_step\(\x00[^\x00]*make_str[^\x00]*\x00\)$", text):
                rep.ok("text", f.where(), text.replace("\x00", "'"))
            elif re.match(r"imod_flr(<idx_t>)?\(\x00[^\x00]*make_str[^\x00]*\x00, \x00[^\x00]*(step_dim_size|step_alloc)[^\x00]*\x00\)$", text):
                rep.ok("text", f.where(), text.replace("\x00", "'"))
            elif re.search(r"%|/", text.replace("\x00", "")) or re.search(r"(?<!_wrap_step)(?<!<idx_t>)(?<!imod_flr)\(", re.sub(r"\x00[^\x00]*\x00", "", text)) or text.count("\x00") == 2:
                rep.bad("text", "step-arg", f.where(), "the step argument is printed as %s, which does not wrap by floored modulus" % text.replace("\x00", "'"))
            else:
                rep.skip("text", f.where(), "unrecognised text " + text.replace("\x00", "'")[:120])


def flat(v):
    """Printed text; computed parts appear between NULs."""
    if v[0] == "str":
        return v[1]
    if v[0] == "chr":
        return chr(v[1])
    if v[0] == "cat":
        return "".join(flat(x) for x in v[1:])
    if v[0] == "ctor" and "basic_string" in v[1]:
        return flat(v[2]) if len(v) > 2 and v[2][0] != "ctor" else ""
    return "\x00" + fmt(v) + "\x00"
