"""C11: performance accounting: timers are balanced, clearing clears everything, statistics are filled from their own quantities."""
from .. import facts
from ..ir import walk, strip_targs
from ..tstate import TS, Explode, Fr, mentions, pstr, rawtext, short

TECHNIQUE = "typestate analysis of every timer (stopped/running) over the typed syntax tree, with a transitive effect analysis of calls, and field-completeness queries"
LEVEL = "other"
LEVEL_NOTE = ("For every function that starts or stops a timer, all paths are followed; a path that returns with a timer running, stops one that is not "
              "running, starts one that is, or calls something that (transitively) starts or clears a running one is reported.")
WHAT = ("All functions of the kernel library that start, stop or clear timers; YaskTimer itself; clear_timers, Stats::clear, get_stats and the counting of steps.")
ASSUMPTIONS = ["Ways out by exception are not judged: the next start of a timer discards the interrupted interval.",
               "Timers are identified by access path within a function and by class and field across calls."]
MIN = {"balance": 8, "nested": 3, "clear": 3, "stats": 10, "steps": 4, "timer": 3}


def bodies(P, name):
    return sorted((f for f in P.named(name) if f.body and not f.dep), key=lambda f: f.where())


def is_timer(x):
    return x["k"] == "call" and "YaskTimer::" in (x.get("n") or "") and short(x["n"]) in ("start", "stop", "clear") and x.get("obj") is not None


def timer_id(x):
    """(class, field) of the timer of a call, or None for a local one."""
    o = x["obj"]
    while o["k"] in ("cast", "un"):
        o = o["e"]
    if o["k"] == "mem":
        return strip_targs(o.get("f") or o["n"])
    if o["k"] == "ref" and o.get("dk") in ("var", "slocal"):
        return None
    return rawtext(o)


class Bal(TS):
    def __init__(self, P, c):
        super().__init__(P)
        self.c = c

    def interesting(self, x):
        if is_timer(x):
            return True
        ts = self.P.targets(x)
        return any(t.u in self.c.eff for t in ts)

    def want_inline(self, f):
        return f.u in self.c.wrappers

    coarse = False              # conditions are not remembered: fewer states, more paths

    def keep(self, ty, p, v):
        return not self.coarse and super().keep(ty, p, v)

    def fork(self, x, fr, st):
        return [(st, True), (st, False)] if self.coarse else super().fork(x, fr, st)

    def on_call(self, x, fr, st):
        c, w = self.c, self.P.at(x)
        if not is_timer(x):
            ts = [t for t in self.P.targets(x) if t.u in c.eff]
            if any(t.u in c.wrappers for t in ts):
                return None
            run = {v[1]: (k, v) for k, v in st.items() if isinstance(k, tuple) and k[0] == "run" and v[1] is not None}
            for t in ts:
                hit = sorted(set(run) & c.eff[t.u])
                if hit:
                    self.hits.append((hit[0], w, t.short, run[hit[0]][1][0]))
                    break
            else:
                if run:
                    self.calls.append((w, ts[0].short if ts else "?"))
            return [(st, None)]
        p = self.path(x["obj"], fr)
        if p is None:
            p = ("t", self.text(x["obj"], fr))
        n = short(x["n"])
        k = ("run", p)
        nm = pstr(p) if p[0] != "t" else p[1]
        on = st.get(k)
        if n == "start":
            if on:
                self.err.append(("double", w, "%s is started here while running since %s" % (nm, on[0]), nm))
            return [(st.set(k, (w, timer_id(x))), None)]
        if n == "stop":
            if not on and self.strict:
                self.err.append(("unstarted", w, "%s is stopped here on a path that did not start it" % nm, nm))
            return [(st.set(k, None), None)]
        if on:
            self.err.append(("cleared", w, "%s is cleared here while running since %s" % (nm, on[0]), nm))
        return [(st, None)]


class C11:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.okd = set()

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.okd:
            self.okd.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def run(self):
        rep, P = self.rep, self.P
        rep.rule("balance", "on every path to a return, a timer that was started has been stopped, and a timer is stopped only after it was started")
        rep.rule("nested", "a call made while a timer runs does not start or clear the same timer")
        rep.rule("clear", "clear_timers clears every timer and step count of the solution and its stages; clear() of statistics and timers clears every field")
        rep.rule("stats", "every recorded quantity of the statistics is computed from the quantity it is named for, and each query returns its own")
        rep.rule("steps", "every run adds the number of steps it did to the solution, its stages and the tuner")
        rep.rule("timer", "stopping adds the time since the start, in seconds and nanoseconds, to the elapsed time")
        self.effects()
        self.balance()
        self.clear()
        self.stats()
        self.steps()
        self.timer()

    def effects(self):
        """Timers started or cleared by each function, directly or through calls."""
        P = self.P
        direct, calls = {}, {}
        for f in P.real_fns():
            if f.body is None or f.dep or (f.cls or "").endswith("YaskTimer"):
                continue
            d, cs = set(), set()
            for n in f.nodes():
                if n["k"] in ("call", "ctor"):
                    if is_timer(n):
                        if short(n["n"]) in ("start", "clear"):
                            i = timer_id(n)
                            d.add(i or "local:" + f.u)
                        else:
                            d.add("stop:" + str(timer_id(n)))
                        continue
                    for t in P.targets(n):
                        if t.body is not None:
                            cs.add(t.u)
            direct[f.u], calls[f.u] = d, cs
        eff = {u: set(d) for u, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for u in eff:
                for v in calls[u]:
                    if v in eff and not eff[v] <= eff[u]:
                        eff[u] |= eff[v]
                        ch = True
        self.eff = {u: {i for i in e if i and not i.startswith(("local:", "stop:"))} for u, e in eff.items() if e}
        self.direct = direct
        self.wrappers = set()
        for f in P.real_fns():
            d = direct.get(f.u)
            if not d:
                continue
            b = [s for s in f.body["s"] if s["k"] != "nop"] if f.body["k"] == "seq" else []
            if 0 < len(b) <= 2 and all(is_timer(strip(s)) for s in b) and not any(timer_id(strip(s)) is None for s in b):
                ks = [short(strip(s)["n"]) for s in b]
                if "clear" not in ks and ("start" in ks) != ("stop" in ks):
                    self.wrappers.add(f.u)
        self.callers = {}
        for u, cs in calls.items():
            for v in cs:
                self.callers.setdefault(v, set()).add(u)

    def balance(self):
        rep, P = self.rep, self.P
        seen = set()
        for f in sorted(P.real_fns(), key=lambda f: f.where()):
            if f.body is None or f.dep or f.u not in self.direct or f.u in seen:
                continue
            own = self.direct[f.u]
            wr = [n for n in f.nodes() if n["k"] == "call" and not is_timer(n) and any(t.u in self.wrappers for t in P.targets(n))]
            if not own and not wr:
                continue
            seen.add(f.u)
            if f.u in self.wrappers:
                if not self.callers.get(f.u):
                    rep.bad("balance", "wrapper:" + f.short, f.where(), "%s is never called" % f.n)
                continue
            o = None
            for coarse in (True, False):
                t = Bal(P, self)
                t.err, t.hits, t.calls, t.strict, t.coarse = [], [], [], True, coarse
                try:
                    o = t.run(f)
                except Explode as e:
                    o = None
                    continue
                if not t.err and not t.hits and not any(isinstance(k, tuple) and k[0] == "run" for s in list(o.fall) + [s for s, _ in o.ret] for k in s):
                    break
            if o is None:
                rep.skip("balance", f.where(), "too many states")
                continue
            name = f.n.replace("yask::", "")
            for kind, w, msg, nm in t.err:
                rep.bad("balance", "%s:%s:%s" % (f.short, kind, nm), w, "%s: %s" % (name, msg))
            bad = False
            for s in list(o.fall) + [s for s, _ in o.ret]:
                for k, v in s.items():
                    if isinstance(k, tuple) and k[0] == "run":
                        if v[1] is None and k[1][0] == "v":
                            # a local timer left running does no harm unless its elapsed time is used: it is, or it would not exist
                            pass
                        bad = True
                        rep.bad("balance", "%s:running:%s" % (f.short, pstr(k[1]) if k[1][0] != "t" else k[1][1]), v[0],
                                "%s can return with %s, started here, still running" % (name, pstr(k[1]) if k[1][0] != "t" else k[1][1]))
            if not bad and not t.err:
                self.ok("balance", f.where(), name)
            for i, w, g, since in t.hits:
                rep.bad("nested", "%s:%s:%s" % (f.short, g, i.rsplit("::", 1)[-1]), w, "%s calls %s, which starts or clears %s, while it is running since %s" %
                        (name, g, i.replace("yask::", ""), since))
            if not t.hits:
                for w, g in sorted(set(t.calls)):
                    self.ok("nested", w, "%s calls %s" % (name, g))

    # -- clearing
    def fields(self, cls):
        for u, c in self.P.classes.items():
            if c["n"] == cls:
                return c["fields"]
        return []

    def cleared(self, f, how):
        """{(path text): node} of what f clears unconditionally."""
        out = {}
        P = self.P
        t = TS(P)

        def visit(s, fr, cond, loops):
            k = s["k"]
            if k == "seq":
                for y in s["s"]:
                    if y["k"] in ("if",) and any(n["k"] in ("ret", "throw", "break", "continue") for n in walk(y)):
                        visit(y, fr, cond, loops)
                        cond = True
                        continue
                    visit(y, fr, cond, loops)
                return
            if k == "rfor":
                r = s["r"]
                while r["k"] in ("cast", "defarg") or r["k"] == "ctor" and len(r.get("a") or []) == 1 and r["a"][0] is not None and r["a"][0]["k"] in ("init", "cast", "ctor"):
                    r = r["e"] if r["k"] in ("cast", "defarg") else r["a"][0]
                els = r.get("a") if r["k"] == "init" else None
                ps = [t.path(y, fr) for y in els] if els else [None]
                if all(p is not None for p in ps):
                    for p in ps:
                        fr.bind[s["v"]["d"]] = p
                        visit(s["b"], fr, cond, loops)
                    fr.bind.pop(s["v"]["d"], None)
                    return
                visit(s["b"], fr, cond, loops + [(s["v"]["n"], rawtext(s["r"]))])
                return
            if k == "if":
                for b in (s.get("t"), s.get("e")):
                    if b is not None:
                        visit(b, fr, True, loops)
                return
            if k in ("for", "while", "do"):
                visit(s["b"], fr, cond, loops + [("?", rawtext(s.get("c")) if s.get("c") is not None else "")])
                return
            if k == "omp":
                visit(s["b"], fr, cond, loops)
                return
            for n in walk(s):
                if n["k"] == "call" and n.get("obj") is not None and short(n.get("n")) == "clear" and not n.get("a"):
                    p = t.path(n["obj"], fr)
                    if p is not None:
                        out.setdefault(pstr(p), []).append((cond, tuple(loops), n))
                elif n["k"] == "asg" and n["op"] == "=":
                    b = n["b"]
                    zero = None
                    while b["k"] in ("cast", "asg"):
                        b = b["e"] if b["k"] == "cast" else b["b"]
                    zero = b["k"] == "lit" and b["v"] in (0, 0.0, False, "0", "0.0") or str(b.get("cv")) == "0" or b["k"] == "lit" and str(b["v"]).rstrip("0.") == "" and str(b["v"]).startswith("0")
                    p = t.path(n["a"], fr)
                    if p is not None:
                        out.setdefault(pstr(p), []).append((cond or not zero, tuple(loops), n))
                elif n["k"] == "call":
                    for g in P.targets(n):
                        if g.body is not None and not g.dep and g.u != f.u and len(list(g.nodes())) < 300 and (short(g.n).startswith(("clear", "reset", "init", "_clear"))):
                            fr2 = t.enter(g, n, fr)
                            visit(g.body, fr2, cond, loops)
        visit(f.body, Fr(f, ("this",), None), False, [])
        return out

    def clear(self):
        rep, P = self.rep, self.P
        for f in bodies(P, "yask::StencilContext::clear_timers"):
            got = self.cleared(f, "clear")
            for fl in self.fields("yask::StencilContext"):
                nm = strip_targs(fl["f"]).rsplit("::", 1)[-1]
                if not (fl["t"] or "").replace("yask::", "").startswith("YaskTimer") and nm != "steps_done":
                    continue
                g = got.get(nm)
                if g is None:
                    rep.bad("clear", "context:" + nm, f.where(), "clear_timers does not clear %s" % nm)
                elif all(c or l for c, l, n in g):
                    rep.bad("clear", "context:" + nm, P.at(g[0][2]), "clear_timers does not always clear %s, or not to zero" % nm)
                else:
                    self.ok("clear", P.at(g[0][2]), "clear_timers: " + nm)
            for fl in self.fields("yask::Stage"):
                nm = strip_targs(fl["f"]).rsplit("::", 1)[-1]
                if not (fl["t"] or "").replace("yask::", "").startswith("YaskTimer") and nm != "steps_done":
                    continue
                g = [(c, l, n) for p, v in got.items() if p.endswith("." + nm) for c, l, n in v]
                good = [n for c, l, n in g if not c and any("st_stages" in r for _, r in l)]
                loopy = [n for c, l, n in g if not c and l and not any("st_stages" in r for _, r in l)]
                if good:
                    self.ok("clear", P.at(good[0]), "clear_timers: %s of every stage" % nm)
                elif loopy:
                    rep.skip("clear", P.at(loopy[0]), "form of the loop over stages")
                else:
                    rep.bad("clear", "stage:" + nm, f.where(), "clear_timers does not clear %s of every stage" % nm)
        for cls in ("yask::Stats", "yask::YaskTimer"):
            for f in bodies(P, cls + "::clear"):
                got = self.cleared(f, "zero")
                for fl in self.fields(cls):
                    nm = strip_targs(fl["f"]).rsplit("::", 1)[-1]
                    parts = [nm] if "timespec" not in (fl["t"] or "").lower() else [nm + ".tv_sec", nm + ".tv_nsec"]
                    for p in parts:
                        g = got.get(p) or (got.get(nm) if got.get(nm) else None)
                        if not g:
                            rep.bad("clear", "%s:%s" % (cls.rsplit("::", 1)[-1], p), f.where(), "%s::clear does not clear %s" % (cls, p))
                        elif all(c or l for c, l, n in g):
                            rep.bad("clear", "%s:%s" % (cls.rsplit("::", 1)[-1], p), P.at(g[0][2]), "%s::clear does not always set %s to zero" % (cls, p))
                        else:
                            self.ok("clear", P.at(g[0][2]), "%s::clear: %s" % (cls, p))

    # -- statistics
    STAT = {"npts": ("tot_domain_pts",), "nsteps": ("steps_done",), "nreads": ("tot_reads_per_step", ".nreads"), "nwrites": ("tot_writes_per_step", ".nwrites"),
            "nfpops": ("tot_fpops_per_step", ".nfpops"), "run_time": ("run_time", ".timer."), "halo_time": ("halo_time",),
            "reads_ps": (".nreads", "tot_reads_per_step"), "writes_ps": (".nwrites", "tot_writes_per_step"), "flops": (".nfpops", "tot_fpops_per_step"),
            "pts_ps": ("tot_domain_pts", ".npts")}
    FAM = [("reads",), ("writes",), ("fpops",)]
    QUERY = {"get_num_elements": "npts", "get_num_steps_done": "nsteps", "get_num_writes_done": "nwrites", "get_est_fp_ops_done": "nfpops", "get_elapsed_secs": "run_time"}

    def stats(self):
        rep, P = self.rep, self.P
        for g, fld in sorted(self.QUERY.items()):
            for f in bodies(P, "yask::Stats::" + g):
                rs = [n for n in f.nodes() if n["k"] == "ret"]
                t = [TS(P).text(n["e"], Fr(f, ("this",), None)) for n in rs]
                if t == [fld]:
                    self.ok("stats", f.where(), g)
                else:
                    rep.bad("stats", "query:" + g, f.where(), "%s returns %s instead of %s" % (g, "/".join(t), fld))
        for f in bodies(P, "yask::StencilContext::get_stats"):
            defs = {}
            for n in f.nodes():
                if n["k"] == "decl":
                    for v in n["v"]:
                        defs.setdefault(v["d"], []).append(v["init"]) if v.get("init") is not None else None
                elif n["k"] == "asg" and n["a"]["k"] == "ref":
                    defs.setdefault(n["a"]["d"], []).append(n["b"])

            def leaves(x, seen=()):
                """Access-path texts that an expression is computed from."""
                out = set()
                k = x["k"]
                if k == "ref":
                    if x["d"] in seen:
                        return out
                    if x["d"] in defs and scalar(defs[x["d"]]):
                        for e in defs[x["d"]]:
                            out |= leaves(e, seen + (x["d"],))
                        return out
                    return {x["n"]}
                if k == "mem":
                    return {rawtext(x)}
                if k == "call":
                    if x.get("obj") is not None and x.get("op") not in ("->", "*"):
                        out.add(rawtext(x["obj"]) + ".")
                    for a in x.get("a") or []:
                        if a is not None:
                            out |= leaves(a, seen)
                    return out
                from ..ir import children
                for y in children(x):
                    if isinstance(y, dict):
                        out |= leaves(y, seen)
                return out

            def scalar(es):
                return all(not (e.get("t") or "").rstrip().endswith(("*", "&")) and "ptr" not in (e.get("t") or "") for e in es)
            got = {}
            for n in f.nodes():
                if n["k"] == "asg" and n["a"]["k"] == "mem" and (n["a"]["b"] is not None and n["a"].get("b") is not None and self.is_stats(n["a"]["b"])):
                    fld = short(n["a"]["n"])
                    if fld not in self.STAT:
                        continue
                    base = rawtext(n["a"].get("b"))
                    b = n["b"]
                    while b["k"] == "cast":
                        b = b["e"]
                    if b["k"] == "lit" and n["op"] == "=":
                        continue
                    ls = leaves(n["b"])
                    txt = " ".join(sorted(ls))
                    own = self.STAT[fld]
                    got.setdefault(fld, []).append(n)
                    if not any(o in l or l.endswith(o) or o.strip(".") == l.strip(".") for o in own for l in ls):
                        rep.bad("stats", "%s:%s" % (base.strip("."), fld), P.at(n), "%s of the statistics is computed from %s" % (fld, txt[:120]))
                        continue
                    other = [l for l in ls for fam in (("reads", "writes", "fpops")) if fam in l and fam not in "".join(own)]
                    if other:
                        rep.bad("stats", "%s:%s" % (base.strip("."), fld), P.at(n), "%s of the statistics is computed from %s" % (fld, ", ".join(sorted(set(other)))))
                        continue
                    if fld.endswith("_ps") or fld == "flops":
                        # a rate: divided by a time
                        x = n["b"]
                        while x["k"] == "cast":
                            x = x["e"]
                        if x["k"] == "bin" and x["op"] == "/":
                            ds = " ".join(sorted(leaves(x["b"])))
                            if "time" not in ds:
                                rep.bad("stats", "%s:%s" % (base.strip("."), fld), P.at(n), "%s is divided by %s" % (fld, ds[:80]))
                                continue
                    if fld in ("nreads", "nwrites", "nfpops") and n["op"] == "=" and "steps_done" not in txt and ".nsteps" not in txt:
                        rep.bad("stats", "%s:%s" % (base.strip("."), fld), P.at(n), "%s is not in proportion to the steps done (%s)" % (fld, txt[:80]))
                        continue
                    if fld == "run_time":
                        bad = [l for l in ls if "ext_time" in l and False]
                    self.ok("stats", P.at(n), "%s.%s" % (base.strip("."), fld))
            for fld in self.STAT:
                if fld not in got and fld != "halo_time":
                    rep.bad("stats", "missing:" + fld, f.where(), "get_stats does not fill in %s" % fld)
            # cleared afterwards, and nothing read after that
            t = After(P)
            o = t.run(f)
            outs = list(o.fall) + [s for s, _ in o.ret]
            if any(not s.get("clr") for s in outs):
                rep.bad("clear", "get_stats", f.where(), "get_stats can return without clearing the timers")
            elif t.late:
                rep.bad("clear", "get_stats:early", t.late[0], "get_stats reads a timer after clearing it")
            else:
                self.ok("clear", f.where(), "get_stats clears the timers after reading them")

    def is_stats(self, b):
        t = b.get("t") or ""
        while b["k"] in ("cast",):
            b = b["e"]
            t += " " + (b.get("t") or "")
        if b["k"] == "call":
            o = b.get("obj") or (b.get("a") or [None])[0]
            t += " " + ((o or {}).get("t") or "") + " " + (b.get("t") or "")
        if b["k"] == "ref":
            t += " " + (b.get("t") or "")
        return "Stats" in t

    # -- steps
    def steps(self):
        rep, P = self.rep, self.P
        for f in bodies(P, "yask::Stage::add_steps"):
            a = [n for n in f.nodes() if n["k"] == "asg"]
            good = len(a) == 1 and (a[0]["op"] == "+=" and rawtext(a[0]["b"]) == f.params[0]["n"] or
                                    a[0]["op"] == "=" and sorted(rawtext(a[0]["b"]).strip("()").replace("this.", "").split("+")) == sorted([f.params[0]["n"], "steps_done"]))
            if good and short(a[0]["a"].get("n") or "") == "steps_done":
                self.ok("steps", f.where(), "Stage::add_steps")
            else:
                rep.bad("steps", "stage", f.where(), "Stage::add_steps does not add its argument to the steps done")
        for kind in ("run_solution", "run_ref"):
            for f in bodies(P, "yask::StencilContext::" + kind):
                if len(f.params) < 2:
                    continue
                t = Steps(P)
                t.calc = "calc_mega_block" if kind == "run_solution" else "calc_in_domain"
                o = t.run(f)
                outs = list(o.fall) + [s for s, _ in o.ret]
                defs = {}
                for n in f.nodes():
                    if n["k"] == "decl":
                        for v in n["v"]:
                            if v.get("init") is not None:
                                defs[v["n"]] = v["init"]
                want = {"steps_done"} if kind == "run_ref" else {"steps_done", "_at.steps_done", "stage"}
                amounts = {}
                for k, w, txt, node in t.adds:
                    amounts.setdefault(k, []).append((w, txt, node))
                for k in sorted(want):
                    if k not in amounts:
                        rep.bad("steps", "%s:%s" % (kind, k), f.where(), "%s does not count the steps done in %s" % (kind, k))
                if set(want) <= set(amounts):
                    for k, vs in sorted(amounts.items()):
                        for w, txt, node in vs:
                            x = node
                            while x["k"] in ("cast",) or x["k"] == "ref" and x["n"] in defs:
                                x = x["e"] if x["k"] == "cast" else defs[x["n"]]
                            if x["k"] == "call" and short(x.get("n")) == "abs":
                                z = x["a"][0]
                                while z["k"] == "cast":
                                    z = z["e"]
                                ab = {rawtext(z["a"]), rawtext(z["b"])} if z["k"] == "bin" and z["op"] == "-" else None
                                if ab in ({"stop_t", "start_t"}, {"end_t", "begin_t"}, t.rng()):
                                    self.ok("steps", w, "%s: %s += |%s|" % (kind, k, rawtext(z)))
                                elif ab is None:
                                    rep.skip("steps", w, "amount %s" % rawtext(x))
                                else:
                                    rep.bad("steps", "%s:%s:amount" % (kind, k), w, "%s adds %s to %s" % (kind, rawtext(x), k))
                            elif x["k"] in ("lit",) or not any(mentions(full(x, defs), v) for v in ("stop_t", "end_t") + tuple(t.rng() or ())):
                                rep.bad("steps", "%s:%s:amount" % (kind, k), w, "%s adds %s to %s" % (kind, rawtext(x), k))
                            else:
                                rep.skip("steps", w, "amount %s" % rawtext(x))
                for k in sorted(want - {"stage"}):
                    if any(s.get(("pend", k)) for s in outs):
                        rep.bad("steps", "%s:%s:path" % (kind, k), f.where(), "%s can evaluate steps without counting them in %s" % (kind, k))
                for n in f.nodes():
                    if n["k"] == "call" and short(n.get("n")) == "add_steps":
                        lp = [y for y in f.nodes() if y["k"] == "rfor" and any(z is n for z in walk(y["b"]))]
                        if lp and "st_stages" in rawtext(lp[-1]["r"]) and not any(y["k"] in ("if", "break", "continue") for y in walk(lp[-1]["b"])):
                            self.ok("steps", P.at(n), "all stages")
                        elif lp:
                            rep.bad("steps", kind + ":stages", P.at(n), "the steps done are not counted in every stage")

    # -- the timer
    def timer(self):
        rep, P = self.rep, self.P
        from ..trace import Trace
        from ..flow import poly, poly_eq
        from ..sym import fmt
        for f in bodies(P, "yask::YaskTimer::stop"):
            if not f.params:
                continue
            t = Trace(P)
            t.run(f)
            ts = f.params[0]["n"]
            same = [v["n"] for n in f.nodes() if n["k"] == "decl" for v in n["v"] if v.get("init") is not None and ts in rawtext(v["init"]).replace("(", " ").replace(")", " ").split() + [rawtext(v["init"])] or v.get("init") is not None and rawtext(v["init"]).endswith("(%s)" % ts)]
            last = {}
            for e in t.log:
                if e.kind == "store":
                    last[fmt(e.key).replace("this.", "").replace("->", ".")] = e
            for fld in ("tv_sec", "tv_nsec"):
                for who, want in (("_begin", None), ("_elapsed", "sum")):
                    e = next((v for k, v in last.items() if k.endswith("%s.%s" % (who, fld)) or k == who), None)
                    if e is None:
                        rep.bad("timer", "stop:%s.%s" % (who, fld), f.where(), "stop does not set %s.%s" % (who, fld))
                        continue
                    v = fmt(e.val)
                    if e.guards:
                        rep.skip("timer", P.at(e.node) if getattr(e, "node", None) else f.where(), "conditional store")
                        continue
                    if want is None:
                        if v in ("0", "0L") or who == "_begin" and v.startswith("{0"):
                            self.ok("timer", f.where(), "stop resets _begin.%s" % fld)
                        else:
                            rep.bad("timer", "stop:_begin." + fld, f.where(), "stop sets _begin.%s to %s" % (fld, v))
                    else:
                        at = {}
                        p = poly(e.val)
                        got = {}
                        for m, c in p.items():
                            k = "*".join(sorted(fmt(x).replace("this.", "").replace("->", ".") for x in m)) if isinstance(m, tuple) else fmt(m)
                            got[k] = c
                        exp = {"_elapsed." + fld: 1, "%s.%s" % (ts, fld): 1, "_begin." + fld: -1}
                        norm = {}
                        for k, c in got.items():
                            for z in same:
                                if k == z + "." + fld:
                                    k = ts + "." + fld
                            for q in exp:
                                if k.endswith(q):
                                    norm[q] = norm.get(q, 0) + c
                                    break
                            else:
                                norm[k] = c
                        if norm == exp:
                            self.ok("timer", f.where(), "stop adds end - begin to _elapsed." + fld)
                        else:
                            rep.bad("timer", "stop:_elapsed." + fld, f.where(), "stop sets _elapsed.%s to %s" % (fld, v[:120]))
        for f in bodies(P, "yask::YaskTimer::start"):
            if not f.params:
                continue
            t = Trace(P)
            t.run(f)
            st = [e for e in t.log if e.kind == "store" and "_begin" in fmt(e.key)] + \
                 [e for e in t.log if e.kind == "call" and short(e.name) == "operator=" and e.obj is not None and "_begin" in fmt(e.obj)]
            txt = [fmt(e.val) if e.kind == "store" else fmt(e.args[0]) for e in st]
            if st and all(f.params[0]["n"] in x for x in txt) and not any(e.guards for e in st):
                self.ok("timer", f.where(), "start records the given time")
            else:
                rep.bad("timer", "start", f.where(), "start records %s" % "; ".join(txt))
        for f in bodies(P, "yask::YaskTimer::get_elapsed_secs"):
            r = [n for n in f.nodes() if n["k"] == "ret"]
            x = rawtext(r[0]["e"]) if len(r) == 1 else ""
            if "_elapsed.tv_sec" in x and "_elapsed.tv_nsec" in x and ("1e-09" in x or "1e-9" in x or "1.0E-9" in x.upper()):
                self.ok("timer", f.where(), "elapsed time in seconds and nanoseconds")
            elif "_elapsed" in x and "tv_nsec" not in x or "_begin" in x:
                rep.bad("timer", "elapsed", f.where(), "get_elapsed_secs returns %s" % x)
            else:
                rep.skip("timer", f.where(), "get_elapsed_secs: %s" % x)


def full(x, defs, n=0):
    """Text of an expression and of everything its locals were initialised with."""
    r = rawtext(x)
    if n < 6:
        for y in walk(x):
            if y["k"] == "ref" and y["n"] in defs and defs[y["n"]] is not x:
                r += " " + full(defs[y["n"]], defs, n + 1)
    return r


class After(TS):
    late = ()

    def interesting(self, x):
        n = short(x.get("n"))
        return n == "clear_timers" or n == "get_elapsed_secs" and "YaskTimer" in x["n"]

    def on_call(self, x, fr, st):
        if short(x["n"]) == "clear_timers":
            return [(st.set("clr", True), None)]
        if st.get("clr"):
            self.late = self.late + (self.P.at(x),)
        return [(st, None)]


class Steps(TS):
    def __init__(self, P):
        super().__init__(P)
        self.adds = []
        self.ends = {}

    def interesting(self, x):
        return short(x.get("n")) in (self.calc, "add_steps")

    def want_inline(self, f):
        return False

    def rng(self):
        return set(self.ends.values()) if len(self.ends) == 2 else None

    def on_call(self, x, fr, st):
        if short(x["n"]) == self.calc:
            for k in ("steps_done", "_at.steps_done"):
                st = st.set(("pend", k), True)
            return [(st, None)]
        self.adds.append(("stage", self.P.at(x), self.text(x["a"][0], fr), x["a"][0]))
        return [(st, None)]

    def on_store(self, path, val, x, fr, st):
        t = pstr(path) if path is not None else ""
        if x["k"] == "asg" and t in ("steps_done", "_at.steps_done"):
            if x["op"] == "+=":
                self.adds.append((t, self.P.at(x), self.text(x["b"], fr), x["b"]))
                return st.set(("pend", t), None)
        elif x["k"] == "asg" and "[0]" in t:
            for q in ("start", "stop"):
                if t.endswith(".%s[0]" % q):
                    self.ends[q] = rawtext(x["b"])
        return st


def strip(s):
    while s["k"] in ("cast",):
        s = s["e"]
    return s


def check(rep, tier):
    P = facts.load_kernel()
    C11(rep, P).run()
