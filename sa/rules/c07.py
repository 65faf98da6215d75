"""C07: the life cycle of a run: preparation is checked first, hooks frame the run, stages are recorded and exchanged."""
from .. import facts
from ..ir import walk
from ..tstate import TS, Explode, St, pstr, rawtext, short

TECHNIQUE = "typestate analysis (prepared -> hooks -> exchange -> evaluate -> record -> exchange) over the typed syntax tree, path-sensitive and interprocedural"
LEVEL = "other"
LEVEL_NOTE = ("Abstract states (is the solution known to be prepared, which hooks ran, what has been evaluated, recorded or exchanged) are pushed "
              "along every path of prepare_solution, run_solution and run_ref; an event in a state that the life cycle does not allow is reported.")
WHAT = ("run_solution, run_ref, run_auto_tuner_now, prepare_solution, the hook registration and calling functions, and the step ranges the runs go through "
        "(by cases on the direction and on the order of the next step and the end).")
ASSUMPTIONS = ["Bodies of user hooks are unknown; what the preparation steps and the evaluation of a stage compute is outside this check.",
               "Loops over stages and mega-blocks are taken to run any number of times."]
MIN = {"prepared": 3, "hooks": 8, "order": 8, "steps": 4}

FLAGS = frozenset(("do_mpi_interior", "do_mpi_left", "do_mpi_right"))


def bodies(P, name):
    return sorted((f for f in P.named(name) if f.body and not f.dep), key=lambda f: f.where())


class Run(TS):
    tracked = FLAGS
    EV = ("call_2idx_hooks", "call_hooks", "calc_mega_block", "calc_in_domain", "exchange_halos", "update_var_info", "set_all_neighbor_vars_dirty",
          "eval_auto_tuner", "copy_vars_to_device", "alloc_scratch_data", "reset_auto_tuner", "clear_timers", "run_solution")

    def __init__(self, P, c, kind, prep):
        super().__init__(P)
        self.c, self.kind, self.prep = c, kind, prep

    def interesting(self, x):
        n = short(x.get("n"))
        return n in self.EV or n in ("start", "stop") and "YaskTimer" in x["n"]

    def on_call(self, x, fr, st):
        n = short(x["n"])
        c, w, K = self.c, self.P.at(x), self.kind
        args = x.get("a") or []
        a = [self.text(y, fr) for y in args]
        if n == "update_var_info" and len(a) < 4:
            return [(st, None)]
        if K != "run_ref":
            if st.get(self.prep) is not True:
                c.fail("prepared", "%s:%s" % (K, n), w, "%s can reach this call of %s without having found the solution to be prepared" % (K, n))
            else:
                c.ok("prepared", w, "%s: %s only in a prepared solution" % (K, n))
        if n in ("start", "stop"):
            return None
        if n in ("call_2idx_hooks", "call_hooks"):
            which = "before" if "before" in a[0] else "after" if "after" in a[0] else "?"
            if K == "run_solution":
                want = "_%s_run_solution_hooks" % which
                ok = a[0] == want
                if not ok:
                    c.fail("hooks", "run:which", w, "run_solution calls the hooks in %s" % a[0])
                elif [y for y in a[1:3]] != c.run_parms:
                    c.fail("hooks", "run:args", w, "run_solution passes (%s) to the %s-run hooks" % (", ".join(a[1:]), which))
                elif which == "before" and (st.get("hb") or st.get("work")):
                    c.fail("hooks", "run:before", w, "the before-run hooks can be called %s" % ("twice" if st.get("hb") else "after %s" % st["work"]))
                elif which == "after" and (st.get("ha") or not st.get("hb")):
                    c.fail("hooks", "run:after", w, "the after-run hooks can be called %s" % ("twice" if st.get("ha") else "without the before-run hooks"))
                else:
                    c.ok("hooks", w, "%s-run hooks" % which)
                if which == "after":
                    self.settled(st, w, "the after-run hooks are called")
                return [(st.set("h" + which[0], True), None)]
            return [(st, None)]
        if K == "run_solution" and n != "call_2idx_hooks":
            if not st.get("hb"):
                c.fail("hooks", "run:first", w, "run_solution can reach %s before the before-run hooks were called" % n)
            if st.get("ha"):
                c.fail("hooks", "run:last", w, "run_solution can reach %s after the after-run hooks were called" % n)
        st = st.set("work", n) if not st.get("work") else st
        if n == "exchange_halos":
            if st.get("p"):
                c.fail("order", K + ":record", w, "%s can exchange halos before recording what was evaluated at %s" % (K, st["p"]))
            else:
                c.ok("order", w, "%s: exchange" % K)
            return [(st.set("ex", True).set("u", None), None)]
        if n in ("calc_mega_block", "calc_in_domain"):
            if not st.get("ex"):
                c.fail("order", K + ":first", w, "%s can evaluate before the initial halo exchange" % K)
            elif st.get("u"):
                c.fail("order", K + ":exchange", w, "%s can evaluate again without a halo exchange after what was recorded at %s" % (K, st["u"]))
            else:
                c.ok("order", w, "%s: evaluation after the exchange" % K)
            return [(st.set("p", w), None)]
        if n == "update_var_info":
            if "StagePtr" in (args[0].get("t") or "") or "Part" not in x["n"]:
                return [(st.set("p", None).set("u", w), None)]
            return [(st, None)]
        if n == "eval_auto_tuner":
            if K == "run_solution":
                self.settled(st, w, "the auto-tuner is called")
            return [(st, None)]
        return [(st, None)]

    def settled(self, st, w, what):
        if st.get("p"):
            self.c.fail("order", self.kind + ":unrecorded", w, "%s while the outputs evaluated at %s have not been recorded" % (what, st["p"]))
        elif st.get("u"):
            self.c.fail("order", self.kind + ":unexchanged", w, "%s while the outputs recorded at %s have not been exchanged" % (what, st["u"]))
        else:
            self.c.ok("order", w, "%s: nothing pending when %s" % (self.kind, what))


class Prep(TS):
    MAYTHROW = ("alloc_var_data", "alloc_scratch_data", "alloc_mpi_data", "setup_rank", "adjust_settings", "find_bounding_boxes", "set_core", "init_work_stats")
    tracked = frozenset(("bb_valid",))

    def __init__(self, P, c, prep):
        super().__init__(P)
        self.c, self.prep = c, prep

    def interesting(self, x):
        return short(x.get("n")) in ("call_hooks",) + self.MAYTHROW

    def want_inline(self, f):
        return f.short not in self.MAYTHROW and len(f.body["s"] if f.body["k"] == "seq" else ()) < 3

    def on_call(self, x, fr, st):
        n = short(x["n"])
        c, w = self.c, self.P.at(x)
        if n == "call_hooks":
            a = self.text(x["a"][0], fr)
            if a == "_before_prepare_solution_hooks":
                if st.get("hb") or st.get("work"):
                    c.fail("hooks", "prepare:before", w, "the before-prepare hooks can be called %s" % ("twice" if st.get("hb") else "after " + st["work"]))
                else:
                    c.ok("hooks", w, "before-prepare hooks come first")
                return [(st.set("hb", True), None)]
            if a == "_after_prepare_solution_hooks":
                need = [m for m in ("setup_rank", "adjust_settings", "find_bounding_boxes", "alloc_var_data", "alloc_scratch_data", "alloc_mpi_data") if m not in (st.get("done") or ())]
                if st.get("ha") or not st.get("hb"):
                    c.fail("hooks", "prepare:after", w, "the after-prepare hooks can be called %s" % ("twice" if st.get("ha") else "without the before-prepare hooks"))
                elif need:
                    c.fail("hooks", "prepare:early", w, "the after-prepare hooks can be called before %s" % need[0])
                else:
                    c.ok("hooks", w, "after-prepare hooks come last")
                return [(st.set("ha", True), None)]
            c.fail("hooks", "prepare:which", w, "prepare_solution calls the hooks in %s" % a)
            return [(st, None)]
        if not st.get("hb"):
            c.fail("hooks", "prepare:first", w, "prepare_solution can reach %s before the before-prepare hooks were called" % n)
        if st.get("ha"):
            c.fail("hooks", "prepare:last", w, "prepare_solution can reach %s after the after-prepare hooks were called" % n)
        st = st.set("work", n).set("done", tuple(sorted(set(st.get("done") or ()) | {n})))
        if n == "find_bounding_boxes":
            st = st.set(self.prep, True)
        if n in ("alloc_var_data", "alloc_scratch_data", "alloc_mpi_data"):
            self.cur.thr.append(st.set("by", n))
        return [(st, None)]


class C07:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.okd = set()
        self.run_parms = []

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.okd:
            self.okd.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def fail(self, rule, key, w, msg):
        self.rep.bad(rule, key, w, msg)

    def run(self):
        rep, P = self.rep, self.P
        rep.rule("prepared", "run_solution and run_auto_tuner_now do nothing before having found the solution to be prepared, and a failed preparation does not leave it prepared")
        rep.rule("hooks", "before-hooks are the first, after-hooks the last action; each set is called once, in full, with the step indices of the run; each registration adds to its own set")
        rep.rule("order", "initial exchange, then for each stage: evaluate, record the outputs, exchange, before the next evaluation and before the after-hooks")
        rep.rule("steps", "a run goes through exactly the requested steps: from the first, by the stride of its direction, and never past the last")
        fs = bodies(P, "yask::StencilContext::is_prepared")
        prep = None
        for f in fs:
            for n in f.nodes():
                if n["k"] == "ret":
                    from ..tstate import Fr
                    t = TS(P)
                    prep = t.path(n["e"], Fr(f, ("this",), None))
        if prep is None:
            rep.skip("prepared", fs[0].where() if fs else "?", "form of is_prepared")
            prep = ("?",)
        roots = [("run_solution", "yask::StencilContext::run_solution"), ("run_ref", "yask::StencilContext::run_ref"),
                 ("run_auto_tuner_now", "yask::StencilContext::run_auto_tuner_now")]
        for kind, name in roots:
            for f in bodies(P, name):
                if kind != "run_auto_tuner_now" and len(f.params) < 2:
                    continue
                self.run_parms = [p["n"] for p in f.params[:2]]
                t = Run(P, self, kind, prep)
                if kind == "run_auto_tuner_now":
                    t.EV = tuple(t.EV)
                    t.want_inline = lambda g: False
                try:
                    o = t.run(f)
                except Explode as e:
                    rep.skip("order", f.where(), "too many states (%s)" % e)
                    continue
                outs = list(o.fall) + [s for s, _ in o.ret]
                if kind != "run_auto_tuner_now":
                    for s in outs:
                        t.settled(s, f.where(), "%s returns" % kind)
                if kind == "run_solution":
                    for s in outs:
                        if not s.get("ha"):
                            rep.bad("hooks", "run:return", f.where(), "run_solution can return without having called the %s-run hooks" % ("after" if s.get("hb") else "before"))
                    for s in o.thr:
                        if s.get(prep) is not False and not s.get("hb"):
                            rep.bad("prepared", "refuse", f.where(), "run_solution can refuse to run a solution that is prepared")
                    if any(s.get(prep) is False for s in outs):
                        rep.bad("prepared", "return", f.where(), "run_solution can return normally from an unprepared solution")
                    else:
                        self.ok("prepared", f.where(), "run_solution throws if not prepared")
                if kind != "run_auto_tuner_now":
                    self.steps(f, kind)
        for f in bodies(P, "yask::StencilContext::prepare_solution"):
            t = Prep(P, self, prep)
            o = t.run(f)
            for s in list(o.fall) + [s for s, _ in o.ret]:
                if not s.get("ha"):
                    rep.bad("hooks", "prepare:return", f.where(), "prepare_solution can return without having called the after-prepare hooks")
            for s in o.thr:
                if s.get(prep) is True and s.get("by"):
                    rep.bad("prepared", "failed:" + s["by"], f.where(), "the solution stays prepared if %s throws in prepare_solution" % s["by"])
                elif s.get("by"):
                    self.ok("prepared", f.where(), "not prepared if %s fails" % s["by"])
        self.hooks()

    # -- hooks
    def hooks(self):
        rep, P = self.rep, self.P
        for nm, k in (("call_hooks", 0), ("call_2idx_hooks", 2)):
            for f in bodies(P, "yask::StencilContext::" + nm):
                pn = [p["n"] for p in f.params]
                loops = [n for n in walk(f.body) if n["k"] in ("rfor", "for", "while")]
                calls = []
                for n in walk(f.body):
                    if n["k"] == "call" and (n.get("op") == "()" or short(n.get("n")) == "operator()"):
                        calls.append(n)
                if len(loops) != 1 or loops[0]["k"] != "rfor" or len(calls) != 1:
                    rep.skip("hooks", f.where(), "form of %s" % nm)
                    continue
                lp = loops[0]
                a = [rawtext(y) for y in calls[0]["a"]]
                a = a[-k:] if k else []
                inner = [n["k"] for n in walk(lp["b"]) if n["k"] in ("break", "continue", "ret", "if", "throw")]
                if rawtext(lp["r"]) != pn[0]:
                    rep.bad("hooks", nm + ":set", P.at(lp), "%s goes through %s" % (nm, rawtext(lp["r"])))
                elif inner:
                    cond = [n for n in walk(lp["b"]) if n["k"] == "if"]
                    if inner == ["if"] and rawtext(cond[0]["c"]).find(lp["v"]["n"]) >= 0 and cond[0].get("e") is None:
                        self.ok("hooks", f.where(), "%s calls every callable hook" % nm)
                    else:
                        rep.bad("hooks", nm + ":skip", P.at(lp), "%s can leave out hooks" % nm)
                elif k and a != pn[1:3]:
                    rep.bad("hooks", nm + ":args", P.at(calls[0]), "%s passes (%s)" % (nm, ", ".join(a)))
                else:
                    self.ok("hooks", f.where(), "%s calls every hook once" % nm)
        for nm in ("before_prepare_solution", "after_prepare_solution", "before_run_solution", "after_run_solution"):
            for f in bodies(P, "yask::StencilContext::call_" + nm):
                ps = [n for n in f.nodes() if n["k"] == "call" and short(n.get("n")) in ("push_back", "emplace_back", "insert") and n.get("obj") is not None]
                if len(ps) != 1:
                    rep.skip("hooks", f.where(), "form of call_%s" % nm)
                    continue
                o, a = rawtext(ps[0]["obj"]), rawtext(ps[0]["a"][-1])
                if not o.endswith("_%s_hooks" % nm) or short(ps[0]["n"]) == "insert":
                    rep.bad("hooks", "register:" + nm, P.at(ps[0]), "call_%s adds to %s (%s)" % (nm, o, short(ps[0]["n"])))
                elif f.params[0]["n"] not in a:
                    rep.bad("hooks", "register:" + nm, P.at(ps[0]), "call_%s registers %s" % (nm, a))
                else:
                    self.ok("hooks", f.where(), "call_%s" % nm)

    # -- steps
    def steps(self, f, kind):
        """The ranges of steps, by cases on the direction and on the order of the next step and the end."""
        rep, P = self.rep, self.P
        st = {"start": [], "stop": []}
        for n in f.nodes():
            if n["k"] == "asg" and n["op"] == "=" and n["a"]["k"] in ("call", "idx"):
                t = rawtext(n["a"])
                for q in ("start", "stop"):
                    if "." + q + "." in t or "." + q + "[" in t:
                        ix = n["a"]["a"][-1] if n["a"]["k"] == "call" else n["a"]["i"]
                        if rawtext(ix) in ("step_posn", "0") or ix.get("cv") is not None and str(ix["cv"]) == "0":
                            st[q].append(n)
        if not st["start"] or not st["stop"]:
            rep.skip("steps", f.where(), "%s: stores of the step range not found" % kind)
            return
        loop = None
        for n in f.nodes():
            if n["k"] in ("for", "while") and any(y is st["start"][0] for y in walk(n["b"])):
                loop = n if loop is None or any(y is n for y in walk(loop["b"])) else loop
        # innermost loop containing the stores
        E = Order(f, loop, [p["n"] for p in f.params[:2]])
        w = P.at(st["start"][0])
        for d in (1, -1):
            try:
                E.dir = d
                s0, e0 = E.ev(st["start"][0]["b"]), None
                good = E.is_start(s0)
            except Unknown as e:
                rep.skip("steps", w, "%s: %s" % (kind, e))
                continue
            if not good:
                rep.bad("steps", kind + ":start", w, "%s %s: the first step of an iteration is %s" % (kind, "forward" if d > 0 else "backward", show(s0)))
            else:
                self.ok("steps", w, "%s %s: iterations start at first + index * stride" % (kind, "forward" if d > 0 else "backward"))
            for o in (-1, 0, 1):
                # o: sign of d * (next - end)
                E.ord = o
                try:
                    e0 = E.ev(st["stop"][0]["b"])
                except Unknown as e:
                    rep.skip("steps", w, "%s: %s" % (kind, e))
                    continue
                nxt, end = E.nxt(), E.end()
                want = end if o > 0 else nxt
                if e0 == want or o == 0 and e0 in (nxt, end):
                    self.ok("steps", w, "%s %s: iterations stop at the earlier of next and end (%d)" % (kind, "forward" if d > 0 else "backward", o))
                else:
                    rep.bad("steps", kind + ":stop", P.at(st["stop"][0]), "%s %s: an iteration stops at %s instead of %s" %
                            (kind, "forward" if d > 0 else "backward", show(e0), show(want)))
            self.count(f, kind, loop, E, d)

    def count(self, f, kind, loop, E, d):
        rep, P = self.rep, self.P
        if loop is None or loop["k"] != "for":
            rep.skip("steps", f.where(), "%s: form of the step loop" % kind)
            return
        i, c = loop.get("init"), loop.get("c")
        while c is not None and c["k"] == "cast":
            c = c["e"]
        if i is None or i["k"] != "decl" or c is None or c["k"] != "bin" or rawtext(c["a"]) != i["v"][0]["n"]:
            rep.skip("steps", P.at(loop), "%s: form of the step loop" % kind)
            return
        E.ord = None
        try:
            i0 = E.ev(i["v"][0]["init"])
            n = E.ev(c["b"])
        except Unknown as e:
            rep.skip("steps", P.at(loop), "%s: %s" % (kind, e))
            return
        want = E.count()
        if i0 != {} or c["op"] not in ("<", "!=") or n not in want:
            rep.bad("steps", kind + ":count", P.at(loop), "%s %s: the loop over steps runs from %s while index %s %s" %
                    (kind, "forward" if d > 0 else "backward", show(i0), c["op"], show(n)))
        else:
            self.ok("steps", P.at(loop), "%s %s: number of iterations" % (kind, "forward" if d > 0 else "backward"))


class Unknown(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def show(p):
    if isinstance(p, tuple):
        return "%s(%s)" % (p[0], ", ".join(show(x) for x in p[1:]))
    if not p:
        return "0"
    return " + ".join(("" if c == 1 and m else str(c) + ("*" if m else "")) + "*".join(m) for m, c in sorted(p.items())).replace("+ -1*", "- ").replace("+ -", "- ")


class Order:
    """Polynomials over first, last, index and the stride size W >= 1, with the direction fixed and the order of next and end assumed."""

    def __init__(self, f, loop, parms):
        self.f, self.parms = f, parms
        self.defs = {}
        asg = {}
        for n in f.nodes():
            if n["k"] == "decl":
                for v in n["v"]:
                    if v.get("init") is not None:
                        self.defs[v["d"]] = v["init"]
            elif n["k"] == "asg" and n["a"]["k"] == "ref":
                asg[n["a"]["d"]] = True
            elif n["k"] == "un" and n["op"] in ("++", "--") and n["e"]["k"] == "ref":
                asg[n["e"]["d"]] = True
        for d in asg:
            self.defs.pop(d, None)
        self.idx = None
        if loop is not None and loop["k"] == "for" and loop.get("init") is not None and loop["init"]["k"] == "decl":
            self.idx = loop["init"]["v"][0]["d"]
            self.defs.pop(self.idx, None)
        self.dir, self.ord = 1, None
        self.strided = False

    def W(self):
        return {("W",): 1} if self.strided else {(): 1}

    def end(self):
        return padd({("last",): 1}, {(): self.dir})

    def start(self):
        return padd({("first",): 1}, pmul({("i",): self.dir}, self.W()))

    def is_start(self, p):
        if p == self.start():
            return True
        if not self.strided:
            self.strided = True
            if p == self.start():
                return True
            self.strided = False
        return False

    def nxt(self):
        return padd(self.start(), self.W(), self.dir)

    def count(self):
        D = padd(pmul({("last",): 1, ("first",): -1}, {(): self.dir}), {(): 1})
        if not self.strided:
            return [D, ("ceil", D, {(): 1})]
        return [("div", padd(padd(D, self.W()), {(): -1}), self.W())]

    def sign(self, p):
        """Sign of a polynomial under the assumptions (None if not known)."""
        if not p:
            return 0
        if set(p) == {()}:
            return 1 if p[()] > 0 else -1
        if self.ord is not None:
            d = padd(self.nxt(), self.end(), -1)
            if p == d:
                return self.ord * self.dir
            if p == {m: -c for m, c in d.items()}:
                return -self.ord * self.dir
        # d * (last - first) >= 0, W >= 1, i >= 0
        z = padd({("last",): 1}, {("first",): -1})
        rest, k = None, p.get(("last",), 0)
        if k:
            rest = padd(p, z, -k)
            s = 1 if k * self.dir > 0 else -1
            if not rest:
                return "ge" if s > 0 else "le"
            r = self.sign(rest)
            if r == s:
                return s
            # of opposite sign: judged for runs longer than that
            return "ge" if s > 0 else "le"
        cs = {1 if c > 0 else -1 for m, c in p.items()}
        if len(cs) == 1 and all(set(m) <= {"W", "i"} for m in p):
            s = cs.pop()
            if all("i" not in m for m in p):
                return s
            return "ge" if s > 0 else "le"
        return None

    def cmp(self, op, a, b):
        s = self.sign(padd(a, b, -1))
        if s is None:
            raise Unknown("cannot compare %s and %s" % (show(a), show(b)))
        T = {">": (s == 1, s in (0, -1, "le")), ">=": (s in (0, 1, "ge"), s == -1), "<": (s == -1, s in (0, 1, "ge")), "<=": (s in (0, -1, "le"), s == 1)}
        if op in ("==", "!="):
            if s == 0:
                return op == "=="
            if s in (1, -1):
                return op == "!="
            raise Unknown("cannot compare")
        y, n = T[op]
        if y:
            return True
        if n:
            return False
        raise Unknown("cannot compare %s and %s" % (show(a), show(b)))

    def cond(self, x):
        while x["k"] == "cast":
            x = x["e"]
        if x["k"] == "un" and x["op"] == "!":
            return not self.cond(x["e"])
        if x["k"] == "ref" and x.get("d") in self.defs:
            return self.cond(self.defs[x["d"]])
        if x["k"] == "bin":
            if x["op"] == "&&":
                return self.cond(x["a"]) and self.cond(x["b"])
            if x["op"] == "||":
                return self.cond(x["a"]) or self.cond(x["b"])
            # direction of the run
            t = {rawtext(x["a"]), rawtext(x["b"])}
            if t == set(self.parms):
                fwd = {"<=": rawtext(x["a"]) == self.parms[0], ">=": rawtext(x["a"]) == self.parms[1]}.get(x["op"])
                if fwd is True:
                    return self.dir > 0
                bwd = {"<": rawtext(x["a"]) == self.parms[1], ">": rawtext(x["a"]) == self.parms[0]}.get(x["op"])
                if bwd is True:
                    return self.dir < 0
                raise Unknown("direction of equal steps")
            return self.cmp(x["op"], self.ev(x["a"]), self.ev(x["b"]))
        raise Unknown("condition %s" % rawtext(x)[:60])

    def ev(self, x):
        if x is None:
            raise Unknown("?")
        k = x["k"]
        if k in ("cast", "defarg"):
            return self.ev(x["e"])
        if k == "ctor" and len([a for a in x.get("a") or [] if a is not None]) == 1:
            return self.ev(x["a"][0])
        if k == "lit" and not isinstance(x["v"], str):
            return {(): int(x["v"])} if x["v"] else {}
        if x.get("cv") is not None and str(x["cv"]).lstrip("-").isdigit():
            return {(): int(x["cv"])} if int(x["cv"]) else {}
        if k == "ref":
            if x["d"] == self.idx:
                return {("i",): 1}
            if x.get("n") in self.parms and x.get("dk") == "parm":
                return {("first" if x["n"] == self.parms[0] else "last",): 1}
            if x["d"] in self.defs:
                return self.ev(self.defs[x["d"]])
            raise Unknown("variable %s" % x["n"])
        if k == "un" and x["op"] in ("-", "+"):
            return padd({}, self.ev(x["e"]), -1 if x["op"] == "-" else 1)
        if k == "cond":
            return self.ev(x["a"] if self.cond(x["c"]) else x["b"])
        if k == "bin":
            if x["op"] == "/":
                return ("div", self.ev(x["a"]), self.ev(x["b"]))
            a, b = self.ev(x["a"]), self.ev(x["b"])
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unknown("arithmetic on a quotient")
            if x["op"] == "+":
                return padd(a, b)
            if x["op"] == "-":
                return padd(a, b, -1)
            if x["op"] == "*":
                return pmul(a, b)
        if k == "call":
            n = short(x.get("n"))
            a = x.get("a") or []
            if n in ("max", "min") and len(a) == 2:
                ts = [rawtext(y) for y in a]
                if n == "max" and any("wf_steps" in t for t in ts) and any(y.get("cv") is not None and str(y["cv"]) == "1" or rawtext(y) in ("1", ".idx_t(1)") or self.one(y) for y in a):
                    return {("W",): 1}
                p, q = self.ev(a[0]), self.ev(a[1])
                big = self.cmp(">=", p, q) if self.ord != 0 else True
                return (p if big else q) if n == "max" else (q if big else p)
            if n == "abs" and len(a) == 1:
                p = self.ev(a[0])
                s = self.sign(p)
                if s in (1, 0, "ge"):
                    return p
                if s in (-1, "le"):
                    return padd({}, p, -1)
                raise Unknown("sign of %s" % show(p))
        if k == "mem" and "wf_steps" in rawtext(x):
            return {("wf",): 1}
        raise Unknown("expression %s" % rawtext(x)[:60])

    def one(self, y):
        try:
            return self.ev(y) == {(): 1}
        except Unknown:
            return False


def check(rep, tier):
    P = facts.load_kernel()
    C07(rep, P).run()
