"""C10: the auto-tuner varies, applies and restores the right shapes, and nothing else."""
from .. import facts
from ..ir import walk
from ..tstate import TS, Explode, St, pstr, rawtext, short

TECHNIQUE = "path-sensitive abstract interpretation of the auto-tuner over the typed syntax tree (target pointer as an abstract shape), and an effect analysis of the settings it can write"
LEVEL = "other"
LEVEL_NOTE = ("The functions of the auto-tuner are interpreted for every target shape; on every path the pairing of name, target and enclosing shape, the shapes stored, "
              "the order of adjusting, and the values restored are compared with what the property requires. Transitive writes to settings are enumerated.")
WHAT = "AutoTuner, its state, and the auto-tuner functions of the solution."
ASSUMPTIONS = ["Exceptions thrown from inside a tuning run are not judged."]
MIN = {"target": 5, "apply": 5, "adjust": 5, "restore": 2, "clear": 10, "search": 4, "effect": 6}

HIER = ["_rank_sizes", "_mega_block_sizes", "_block_sizes", "_micro_block_sizes", "_nano_block_sizes", "_pico_block_sizes"]
SHAPES = HIER[1:]
CODE = {s: 101 + i for i, s in enumerate(HIER)}
NAME = {v: k for k, v in CODE.items()}
DERIVED = ("_bind_posn",)
MUT = ("clear", "push_back", "insert", "erase", "resize", "assign", "pop_back", "swap", "reset")


def bodies(P, name):
    return sorted((f for f in P.named(name) if f.body and not f.dep), key=lambda f: f.where())


def strip(x):
    while x is not None and x["k"] in ("cast", "defarg"):
        x = x["e"]
    return x


def parts(x):
    """(target, value) of an assignment, built in or overloaded."""
    if x["k"] == "asg" and x["op"] == "=":
        return x["a"], x["b"]
    if x["k"] == "call" and x.get("op") == "=":
        a = x.get("a") or []
        if x.get("obj") is not None and a:
            return x["obj"], a[0]
        if len(a) == 2:
            return a[0], a[1]
    return None


def deref(x):
    """The expression a unary * is applied to."""
    x = strip(x)
    if x["k"] == "un" and x["op"] == "*":
        return x["e"]
    if x["k"] == "call" and x.get("op") == "*":
        return x.get("obj") or (x.get("a") or [None])[0]
    return None


def field(x):
    x = strip(x)
    return short(x["n"]) if x["k"] == "mem" or x["k"] == "ref" and "::" in x["n"] else None


def is_zero(x):
    x = strip(x)
    try:
        return float(str(x.get("v", x.get("cv"))).strip("'")) == 0
    except ValueError:
        return False


def zero_text(v):
    try:
        return float(str(v).strip("'\"")) == 0
    except ValueError:
        return False


class At(TS):
    """Keeps the sequence of what happened (without repetitions) in the state."""
    CALLS = ("adjust_settings", "apply_best", "next_target", "init", "set_debug_output", "update_tb_info", "alloc_scratch_data", "run_solution",
             "reset_auto_tuner", "clear_timers", "clear", "eval", "check_sizes")
    tracked = frozenset(("targetp",))

    def __init__(self, P, f):
        super().__init__(P)
        self.f = f
        self.where = {}
        self.inits = {v["d"]: v["init"] for n in f.nodes() if n["k"] == "decl" for v in n["v"] if v.get("init") is not None}

    def interesting(self, x):
        return parts(x) is not None or short(x.get("n")) in self.CALLS and ("AutoTuner" in x["n"] or "KernelSettings" in x["n"] or "StencilContext" in x["n"]
                                                                          or "YaskTimer" in x["n"] or "KernelStateBase" in x["n"] or "ContextLinker" in x["n"])

    def want_inline(self, f):
        return f.loc[0].rsplit("/", 1)[-1].startswith("auto_tuner.") and short(f.n) not in self.CALLS

    def fld(self, x, fr):
        """The field an expression stands for, references and parameters resolved."""
        p = self.path(strip(x), fr)
        return p[2] if p is not None and p[0] == "." else field(x)

    def node_event(self, n):
        return n["k"] == "asg"

    def value(self, x, fr, st):
        y = strip(x)
        if y["k"] == "un" and y["op"] == "&":
            n = self.fld(y["e"], fr)
            if n in CODE:
                return CODE[n]
        if y["k"] == "ref" and y["d"] in self.inits:
            p = self.path(y, fr)
            i = strip(self.inits[y["d"]])
            if (p is None or st.get(p) is None) and i["k"] == "un" and i["op"] == "&" and field(i["e"]) in CODE:
                return CODE[field(i["e"])]
        return super().value(x, fr, st)

    def log(self, st, ev, x):
        l = st.get("log") or ()
        self.where.setdefault(ev, self.P.at(x))
        if l and l[-1] == ev or len(l) > 60:
            return st
        return st.set("log", l + (ev,))

    def what(self, x, fr, st):
        """Readable value."""
        y = strip(x)
        while y["k"] == "ctor" and len([a for a in y.get("a") or [] if a is not None]) == 1:
            y = strip(y["a"][0])
        d = deref(y)
        if d is not None and field(d) == "targetp":
            return "*targetp"
        p = self.path(y, fr)
        if y["k"] == "ref" and y["d"] in self.inits and (p is None or p[0] == "v"):
            v = st.get(("is", y["d"]))
            if v is not None:
                return v
            return "local:" + y["n"]
        t = pstr(p) if p is not None else rawtext(y)
        return t

    def decl(self, v, fr, st):
        out = super().decl(v, fr, st)
        i = v.get("init")
        if i is not None and not (v.get("t") or "").rstrip().endswith(("*", "&")):
            y = strip(i)
            while y["k"] == "ctor" and len([a for a in y.get("a") or [] if a is not None]) == 1:
                y = strip(y["a"][0])
            w = self.what(i, fr, st)
            if self.path(y, fr) is not None and not w.startswith(("*", "saved ")):
                w = "saved " + w
            out = [q.set(("is", v["d"]), w if y["k"] != "call" or self.path(y, fr) is not None else rawtext(y)) for q in out]
        return out

    def base(self, x, fr):
        p = self.path(x, fr)
        return pstr(p) if p is not None else rawtext(x)

    def assign(self, x, v, fr, st):
        st, v = super().assign(x, v, fr, st)
        return self.stored(x, v, fr, st), v

    def stored(self, x, v, fr, st):
        pr = parts(x)
        if pr is None:
            return st
        l, r = pr
        d = deref(l)
        if d is not None and field(d) == "targetp":
            return self.log(st, ("deref", self.what(r, fr, st)), x)
        n = self.fld(l, fr)
        if n is None:
            y = strip(l)
            if y["k"] == "ref":
                return st.set(("is", y["d"]), None)
            return st
        p = self.path(strip(l), fr)
        b = pstr(p[1]) if p is not None and p[0] == "." else self.base(strip(l)["b"], fr) if strip(l).get("b") is not None else ""
        if n in ("targetp", "outerp"):
            return self.log(st, ("ptr", n, self.value(r, fr, st)), x)
        return self.log(st, ("store", "act" if b.endswith(("_settings", "_actl_opts")) else "req" if b.endswith("_req_opts") else b, n, self.what(r, fr, st)), x)

    def fork(self, x, fr, st):
        y = strip(x)
        if y["k"] in ("ref", "mem"):
            v = self.value(y, fr, st)
            if isinstance(v, int):
                return [(st, bool(v))]
        if y["k"] == "call" and y.get("op") == "==" or y["k"] == "bin" and y["op"] == "==":
            ops = ([y["obj"]] if y.get("obj") is not None else []) + (y.get("a") or []) if y["k"] == "call" else [y["a"], y["b"]]
            for o in ops:
                n = field(o)
                if n and n.endswith("_str"):
                    return [(self.log(st, ("name", n), x), True), (st, False)]
        if y["k"] == "bin" and y["op"] in (">", "<", "!=", "<=", ">=", "=="):
            a, b, op = y["a"], y["b"], y["op"]
            if is_zero(a):
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if is_zero(b) and field(a) == "best_rate" and op in (">", "!=", "<=", "=="):
                good = op in (">", "!=")
                return [(st.set("rated", True), good), (st, not good)]
        return super().fork(x, fr, st)

    def on_call(self, x, fr, st):
        if x["k"] != "call":
            return None
        pr = parts(x)
        if pr is not None:
            p = self.path(pr[0], fr)
            st = self.kill(st, p) if p is not None and deref(pr[0]) is None else st
            return [(self.stored(x, None, fr, st), None)]
        n = short(x["n"])
        a = x.get("a") or []
        cls = x["n"].rsplit("::", 2)[-2]
        if n == "clear" and cls == "YaskTimer":
            return [(self.log(st, ("timer.clear", self.base(x["obj"], fr)), x), None)]
        v = tuple(self.value(y, fr, st) if self.value(y, fr, st) is not None else self.what(y, fr, st) for y in a)
        st = self.log(st, (cls + "." + n,) + v, x)
        if n == "next_target":
            return [(st, True), (st, False)]
        return [(st, None)]


class C10:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.dn = set()

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.dn:
            self.dn.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def bad(self, rule, key, w, msg):
        if (rule, key) not in self.dn:
            self.dn.add((rule, key))
            self.rep.bad(rule, key, w, msg)

    def ends(self, f, targetp=None):
        t = At(self.P, f)
        st = St()
        if targetp is not None:
            st = st.set((".", ("this",), "targetp"), targetp)
        o = t.run(f, st)
        return t, [(s, None) for s in o.fall] + list(o.ret)

    def run(self):
        rep = self.rep
        rep.rule("target", "each target name selects its own shape, limited by the next larger one, from a cleared state")
        rep.rule("apply", "the best result goes to the shape that was varied, effective and requested, and settings are adjusted to it")
        rep.rule("adjust", "the other shapes are set back to what was requested, own to own, and everything derived is updated")
        rep.rule("restore", "other settings and the debug output are put back on every return")
        rep.rule("clear", "a search starts from cleared state")
        rep.rule("search", "every trial is measured on its own and every search ends by applying its best result")
        rep.rule("effect", "no other setting can be written")
        for nm, fn in (("next_target", self.target), ("apply_best", self.apply), ("adjust_settings", self.adjust), ("clear", self.clear), ("eval", self.eval)):
            fs = bodies(self.P, "yask::AutoTuner::" + nm)
            if not fs:
                rep.skip("target", "auto_tuner.cpp", "no function " + nm)
            for f in fs:
                try:
                    fn(f)
                except Explode as e:
                    rep.skip("search", f.where(), "too many paths in %s" % nm)
        self.state()
        self.solution()
        self.effects()

    # --
    def target(self, f):
        seen = {}
        for p0 in (0, CODE["_block_sizes"]):
            t, ends = self.ends(f, p0)
            for st, v in ends:
                log = st.get("log") or ()
                names = [e[1] for e in log if e[0] == "name"]
                tp = [e[2] for e in log if e[0] == "ptr" and e[1] == "targetp"]
                op = [e[2] for e in log if e[0] == "ptr" and e[1] == "outerp"]
                if v is False or v == 0:
                    if not tp or tp[-1] != 0:
                        self.bad("target", "end", f.where(), "next_target can report that there is no target without clearing the target")
                    else:
                        self.ok("target", f.where(), "no more targets")
                    continue
                if not names:
                    self.bad("target", "none", f.where(), "next_target can report a target without having selected one")
                    continue
                nm = names[-1]
                want = nm[:-4] + "_sizes"
                w = t.where.get(("name", nm), f.where())
                got = NAME.get(tp[-1]) if tp else None
                out = NAME.get(op[-1]) if op else None
                if want not in SHAPES:
                    self.rep.skip("target", w, "target name %s" % nm)
                    continue
                if got != want:
                    self.bad("target", nm, w, "the target named by %s varies %s" % (nm, got or "nothing"))
                elif out != HIER[HIER.index(want) - 1]:
                    self.bad("target", nm + ":outer", w, "%s is limited by %s instead of %s" % (want, out or "nothing", HIER[HIER.index(want) - 1]))
                else:
                    seen[want] = w
                    self.ok("target", w, "%s: %s within %s" % (nm, got, out))
                ix = [i for i, e in enumerate(log) if e[0] == "AutoTunerState.init"]
                if not ix or log[ix[-1]][-1] not in (False, 0):
                    self.bad("target", "init", f.where(), "next_target does not start the new target from a cleared state without warm-up" if not ix else
                             "next_target clears the state with %s" % (log[ix[-1]],))
                    continue
                cs = [i for i, e in enumerate(log) if e[0] == "store" and e[2] == "center_sizes"]
                tl = max(i for i, e in enumerate(log) if e[0] == "ptr" and e[1] == "targetp") if tp else -1
                if not cs or cs[-1] < ix[-1] or cs[-1] < tl or log[cs[-1]][3] != "*targetp":
                    self.bad("target", "center", f.where(), "the search does not start at the current size of the target")
                ad = [i for i, e in enumerate(log) if e[0] == "AutoTuner.adjust_settings"]
                if not ad or ad[-1] < tl:
                    self.bad("target", "adjust", f.where(), "settings are not adjusted for the first trial of a target")
        for s in SHAPES:
            if s not in seen and not any(k == ("target", s[:-6] + "_str") or k == ("target", s[:-6] + "_str:outer") for k in self.dn):
                self.bad("target", "missing:" + s, f.where(), "%s can be requested but is not tuned" % s)

    def apply(self, f):
        for s in SHAPES:
            t, ends = self.ends(f, CODE[s])
            did = False
            good = True
            for st, v in ends:
                log = st.get("log") or ()
                ac = [e for e in log if e[0] in ("deref", "store", "AutoTuner.adjust_settings")]
                if not ac:
                    if v not in (False, 0):
                        self.bad("apply", "result", f.where(), "apply_best can report success without applying anything")
                    continue
                did = True
                de = [e for e in ac if e[0] == "deref"]
                w = t.where.get(de[0], f.where()) if de else f.where()
                if not st.get("rated"):
                    self.bad("apply", "guard", w, "a size is applied without checking that there is a best result")
                    good = False
                if not de or not all(e[1].endswith("best_sizes") for e in de):
                    self.bad("apply", "value", w, "the size applied is %s" % (de[-1][1] if de else "not stored"))
                    good = False
                rq = [e for e in ac if e[0] == "store" and e[1] == "req"]
                for e in rq:
                    if e[2] != s or not (e[3] == "*targetp" or e[3].endswith(("best_sizes", "_settings." + s, "_actl_opts." + s))):
                        self.bad("apply", "req:" + s, t.where[e], "the best size of %s is stored in the requested %s from %s" % (s, e[2], e[3]))
                        good = False
                if not any(e[2] == s for e in rq):
                    self.bad("apply", "req:" + s, f.where(), "the best size of %s is not stored as requested size" % s)
                    good = False
                elif log.index(rq[-1]) < log.index(de[-1]) if de and rq and rq[-1][3] == "*targetp" else False:
                    self.bad("apply", "early:" + s, t.where[rq[-1]], "the requested %s is stored before the best size" % s)
                    good = False
                for e in ac:
                    if e[0] == "store" and e[1] == "act" and not (e[2] == s and e[3].endswith("best_sizes")):
                        self.bad("apply", "act:" + e[2], t.where[e], "applying the best size of %s stores %s in %s" % (s, e[3], e[2]))
                        good = False
                if ac[-1][0] != "AutoTuner.adjust_settings":
                    self.bad("apply", "adjust", f.where(), "settings are not adjusted to the best size")
                    good = False
            if did and good:
                self.ok("apply", f.where(), "best size of %s" % s)
            elif not did:
                self.bad("apply", "never:" + s, f.where(), "the best size of %s is never applied" % s)
        t, ends = self.ends(f, 0)
        for st, v in ends:
            if any(e[0] in ("deref", "store") for e in st.get("log") or ()):
                self.bad("apply", "null", f.where(), "a size is applied without a target")

    def adjust(self, f):
        for s in SHAPES:
            t, ends = self.ends(f, CODE[s])
            good = True
            for st, v in ends:
                log = st.get("log") or ()
                sto = {}
                for i, e in enumerate(log):
                    if e[0] == "store" and e[1] in ("act", "req"):
                        sto.setdefault((e[1], e[2]), []).append((i, e))
                ka = [i for i, e in enumerate(log) if e[0] == "KernelSettings.adjust_settings"]
                kt = [i for i, e in enumerate(log) if e[0] == "StencilContext.update_tb_info"]
                ks = [i for i, e in enumerate(log) if e[0] == "StencilContext.alloc_scratch_data"]
                if not (ka and kt and ks and ka[-1] < kt[-1] < ks[-1]):
                    self.bad("adjust", "order", f.where(), "after changing sizes the settings, the temporal-blocking data and the scratch data are not updated in this order")
                    good = False
                for x in SHAPES:
                    es = sto.get(("act", x), [])
                    if x == s:
                        if es:
                            self.bad("adjust", "target:" + s, t.where[es[-1][1]], "the size being tried for %s is overwritten" % s)
                            good = False
                        continue
                    if not es:
                        self.bad("adjust", "keep:" + x, f.where(), "%s is not set back to its requested size" % x)
                        good = False
                    elif not es[-1][1][3].endswith("_req_opts." + x):
                        self.bad("adjust", "from:" + x, t.where[es[-1][1]], "%s is set back to %s" % (x, es[-1][1][3]))
                        good = False
                    elif ka and es[-1][0] > ka[-1]:
                        self.bad("adjust", "late:" + x, t.where[es[-1][1]], "%s is set back after the settings were adjusted" % x)
                        good = False
                for (who, x), es in sto.items():
                    if who == "req" or x not in SHAPES:
                        self.bad("adjust", "other:" + x, t.where[es[-1][1]], "%s %s is changed" % ("requested" if who == "req" else "effective", x))
                        good = False
                # debug output
                so = [e for e in log if e[0].endswith(".set_debug_output")]
                if so and "get_debug_output" not in str(so[-1][1]):
                    self.bad("restore", "debug", t.where[so[-1]], "the debug output is left as %s" % (so[-1][1],))
                elif so:
                    self.ok("restore", t.where[so[-1]], "debug output")
            if good and ends:
                self.ok("adjust", f.where(), "all but %s" % s)

    def clear(self, f):
        t, ends = self.ends(f)
        md = f.params[0]["n"]
        need = {"done": None, "timer": None, "steps_done": None, "targetp": None, "outerp": None, "targeti": None, "state": None}
        for st, v in ends:
            log = st.get("log") or ()
            pos = {}
            val = {}
            for i, e in enumerate(log):
                if e[0] == "timer.clear" and e[1].endswith("timer"):
                    pos["timer"] = i
                elif e[0] == "store" and e[2] in need:
                    pos[e[2]], val[e[2]] = i, e[3]
                elif e[0] == "ptr":
                    pos[e[1]], val[e[1]] = i, e[2]
                elif e[0] == "AutoTunerState.init":
                    pos["state"], val["state"] = i, e[-1]
            ab = [i for i, e in enumerate(log) if e[0] == "AutoTuner.apply_best"]
            for k in need:
                if k not in pos:
                    self.bad("clear", k, f.where(), "clear() does not always reset %s" % ("the search state" if k == "state" else k))
                elif k == "done" and val[k] != md or k in ("steps_done", "targeti") and not zero_text(val[k]) or k in ("targetp", "outerp") and val[k] != 0 or k == "state" and val[k] not in (True, 1):
                    self.bad("clear", k + ":value", f.where(), "clear() sets %s to %s" % (k, val[k]))
                else:
                    self.ok("clear", f.where(), "clear(): " + k)
            if not ab:
                self.bad("clear", "best", f.where(), "clear() drops the results of a search without applying them")
            elif any(pos.get(k, 99) < ab[-1] for k in ("targetp", "state")):
                self.bad("clear", "best", f.where(), "clear() drops the results of a search before applying them")
            else:
                self.ok("clear", f.where(), "clear(): the best result is applied first")

    def state(self):
        P = self.P
        for f in bodies(P, "yask::AutoTuner::AutoTunerState::init"):
            fl = []
            for u, c in P.classes.items():
                if c["n"] == "yask::AutoTuner::AutoTunerState":
                    fl = [short(x["f"]) for x in c["fields"]]
            got = {}
            cond = {id(y) for n in f.nodes() if n["k"] in ("if", "for", "while", "rfor") for y in walk(n)}
            for n in f.nodes():
                if id(n) in cond:
                    continue
                pr = parts(n) if n["k"] in ("asg", "call") else None
                if pr is not None and field(pr[0]):
                    b = strip(pr[1])
                    while b["k"] == "asg":
                        b = strip(b["b"])
                    got[field(pr[0])] = b
                elif n["k"] == "call" and n.get("obj") is not None and field(n["obj"]) and short(n["n"]) in ("clear", "set_vals_same"):
                    got[field(n["obj"])] = n if short(n["n"]) == "clear" else strip(n["a"][0])
            ps = [p["n"] for p in f.params]
            for x in fl:
                b = got.get(x)
                if b is None:
                    self.bad("clear", "state:" + x, f.where(), "the search state %s is not reset" % x)
                    continue
                t = rawtext(b)
                zero = b["k"] == "call" or str(b.get("v", b.get("cv"))) in ("0", "0.0", "False")
                if x == "radius":
                    good = t.endswith("max_radius")
                elif x == "in_warmup":
                    good = t == ps[-1]
                else:
                    good = zero
                if good:
                    self.ok("clear", P.at(b), "state: " + x)
                else:
                    self.bad("clear", "state:" + x, P.at(b), "the search state %s is reset to %s" % (x, t))

    def eval(self, f):
        P = self.P
        t = Ev(P, f)
        o = t.run(f)
        w = f.where()
        for st in o.fall + [s for s, _ in o.ret]:
            if st.get("trial"):
                self.bad("search", "unadjusted", st["trial"], "a size is tried without adjusting the settings to it")
            if not st.get("tclr") or not st.get("sclr"):
                self.bad("search", "interval", w, "eval() can return without clearing its timer and step count")
        for key, where, msg in t.errs:
            self.bad("search", key, where, msg)
        for k, where in sorted(t.good):
            self.ok("search", where, k)

    # --
    def solution(self):
        P = self.P
        for f in bodies(P, "yask::StencilContext::reset_auto_tuner"):
            cs = [n for n in f.nodes() if n["k"] == "call" and n["n"] == "yask::AutoTuner::clear"]
            if len(cs) == 1 and rawtext(strip(cs[0]["a"][0])) == "!" + f.params[0]["n"]:
                self.ok("clear", P.at(cs[0]), "reset_auto_tuner")
            else:
                self.bad("clear", "reset", f.where(), "reset_auto_tuner marks the tuner done if %s" % (rawtext(cs[0]["a"][0]) if cs else "nothing"))
        for f in bodies(P, "yask::AutoTuner::AutoTuner"):
            cs = [n for n in f.nodes() if n["k"] == "call" and n["n"] == "yask::AutoTuner::clear"]
            for n in cs:
                x = strip(n["a"][0])
                if "_do_auto_tune" in rawtext(x):
                    if x["k"] == "un" and x["op"] == "!":
                        self.ok("clear", P.at(n), "new tuner")
                    else:
                        self.bad("clear", "new", P.at(n), "the tuner of a new solution is marked done if it is to be used (%s)" % rawtext(x))
        for f in bodies(P, "yask::StencilContext::is_auto_tuner_enabled"):
            r = [rawtext(strip(n["e"])) for n in f.nodes() if n["k"] == "ret"]
            if r and all(x.startswith("!") and ("is_done" in x or x.endswith(".done")) for x in r):
                self.ok("clear", f.where(), "is_auto_tuner_enabled")
            elif r and all("is_done" in x or x.endswith(".done") for x in r):
                self.bad("clear", "enabled", f.where(), "is_auto_tuner_enabled returns %s" % r[0])
        for f in bodies(P, "yask::StencilContext::run_auto_tuner_now"):
            t, ends = self.ends(f)
            for st, v in ends:
                log = st.get("log") or ()
                runs = [i for i, e in enumerate(log) if e[0] == "StencilContext.run_solution"]
                res = [(i, e) for i, e in enumerate(log) if e[0] == "StencilContext.reset_auto_tuner"]
                clr = [i for i, e in enumerate(log) if e[0] == "StencilContext.clear_timers"]
                if not runs:
                    continue
                if not res or res[0][0] > runs[0] or res[-1][1][1] not in (True, 1) or res[-1][0] > runs[0]:
                    self.bad("search", "reset", f.where(), "run_auto_tuner_now does not enable and reset the tuner before its first run")
                else:
                    self.ok("search", f.where(), "reset before the first run")
                if not clr or clr[-1] < runs[-1]:
                    self.bad("search", "times", f.where(), "the times of the tuning runs are left in the statistics of the solution")
                else:
                    self.ok("search", f.where(), "statistics cleared afterwards")
                sto = {}
                for i, e in enumerate(log):
                    if e[0] == "store" and e[1] in ("act", "req"):
                        sto.setdefault((e[1], e[2]), []).append((i, e))
                for (who, x), es in sto.items():
                    last = es[-1]
                    good = last[1][3].startswith("saved ") and last[1][3].endswith("." + x) and last[0] > runs[-1]
                    # the saved value was read before the first store
                    if good:
                        self.ok("restore", t.where[last[1]], x)
                    else:
                        self.bad("restore", x, t.where[last[1]], "run_auto_tuner_now leaves %s set to %s" % (x, last[1][3]) if last[0] > runs[-1] else
                                 "run_auto_tuner_now does not put %s back" % x)
                so = [e for e in log if e[0].endswith(".set_debug_output")]
                if so and "get_debug_output" not in str(so[-1][1]):
                    self.bad("restore", "run:debug", t.where[so[-1]], "the debug output is left as %s" % (so[-1][1],))
            # what is saved is saved before it is changed
            first = {}
            for n in f.nodes():
                pr = parts(n) if n["k"] in ("asg", "call") else None
                if pr is not None and field(pr[0]) and "opts" in rawtext(strip(pr[0]).get("b")):
                    first.setdefault(field(pr[0]), n["l"][-1] if isinstance(n["l"], (list, tuple)) else n["l"])
                if n["k"] == "decl":
                    for v in n["v"]:
                        if v.get("init") is not None and field(v["init"]) in first:
                            if not (v.get("t") or "").endswith(("&", "*")):
                                self.bad("restore", "late:" + field(v["init"]), P.at(n), "%s is saved after it was changed" % field(v["init"]))

    def effects(self):
        P = self.P
        roots = [f for f in P.fns.values() if f.body and not f.dep and f.cls == "yask::AutoTuner"] if hasattr(P, "fns") else []
        if not roots:
            roots = [f for n in ("eval", "clear", "next_target", "apply_best", "adjust_settings", "print_settings", "check_sizes") for f in bodies(P, "yask::AutoTuner::" + n)]
        seen, work, w = set(), list(roots), {}
        while work:
            g = work.pop()
            if g.u in seen:
                continue
            seen.add(g.u)
            for n in g.nodes():
                l = None
                if n["k"] == "asg":
                    l = n["a"]
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    l = n["e"]
                elif n["k"] == "call" and n.get("obj") is not None and not n.get("cst") and (short(n["n"]).startswith(("set_", "operator=", "emplace", "add_", "operator+=", "operator-=")) or short(n["n"]) in MUT):
                    l = n["obj"]
                while l is not None:
                    if l["k"] == "mem" and (l.get("f") or "").startswith("yask::KernelSettings::"):
                        w.setdefault(short(l["f"]), []).append((g.short, P.at(n)))
                    l = l.get("b") if l["k"] in ("mem", "idx") else l.get("e") if l["k"] in ("cast", "un") else l.get("obj") if l["k"] == "call" else None
                if n["k"] in ("call", "ctor"):
                    work += [t for t in P.targets(n) if t.body]
        for x, v in sorted(w.items()):
            if x in SHAPES or x in DERIVED:
                self.ok("effect", v[0][1], "%s written in %s" % (x, ", ".join(sorted({a for a, _ in v}))))
            else:
                # reading through a non-const operator is not a write: only assignments count there
                self.bad("effect", x, v[0][1], "tuning can change %s (in %s)" % (x, ", ".join(sorted({a for a, _ in v}))))


class Ev(At):
    """The search itself: trial pending / measured / applied."""
    CALLS = At.CALLS

    def __init__(self, P, f):
        super().__init__(P, f)
        self.errs, self.good = [], set()

    def log(self, st, ev, x):
        w = self.P.at(x)
        k = ev[0]
        if k == "deref":
            for nm in ("csteps", "ctime"):
                if not st.get(("z", nm)):
                    self.errs.append(("carry:" + nm, w, "a new size is tried with the %s of the previous trial" % ("steps" if nm == "csteps" else "time")))
            self.good.add(("new trial", w))
            return st.set("trial", w).set("applied", None)
        if k == "AutoTuner.adjust_settings":
            return st.set("trial", None)
        if k == "AutoTuner.apply_best":
            return st.set("applied", True).set("trial", None)
        if k == "ptr" and ev[1] == "targetp":
            return st.set("applied", True if ev[2] == 0 else None)
        if k == "AutoTuner.next_target":
            if not st.get("applied"):
                self.errs.append(("next", w, "the next target is started without applying the best result of this one"))
            else:
                self.good.add(("best applied before the next target", w))
            return st
        if k == "AutoTuner.clear":
            if ev[1] not in (True, 1):
                self.errs.append(("end", w, "the search ends without being marked done"))
            else:
                self.good.add(("search ends", w))
            return st
        if k == "timer.clear":
            return st.set("tclr", True)
        if k == "store":
            n, v = ev[2], ev[3]
            if n == "steps_done":
                return st.set("sclr", True if zero_text(v) else None)
            if n in ("csteps", "ctime"):
                return st.set(("z", n), True if zero_text(v) else None)
            if n == "best_sizes":
                if v != "*targetp":
                    self.errs.append(("best", w, "the best size is taken from %s" % v))
                else:
                    self.good.add(("best size", w))
            elif n == "best_rate":
                return st.set("rate", v)
            elif n == "center_sizes":
                if not v.endswith("best_sizes"):
                    self.errs.append(("center", w, "the search continues from %s" % v))
                else:
                    self.good.add(("continues from the best", w))
        return st

    def fork(self, x, fr, st):
        return [(st, True), (st, False)] if super_value(self, x, fr, st) is None else [(st, bool(super_value(self, x, fr, st)))]


def super_value(t, x, fr, st):
    return t.value(x, fr, st)


def check(rep, tier):
    P = facts.load_kernel()
    C10(rep, P).run()
