"""C03: every change to var data is marked for a halo exchange, and the marks are cleared only by completing one."""
from .. import facts
from ..ir import walk
from ..sym import *
from ..trace import Trace, truth
from ..tstate import TS, Explode, pstr, rawtext, short

TECHNIQUE = "typestate analysis (write -> mark -> exchange -> clear) over the typed syntax tree, path-sensitive and interprocedural"
LEVEL = "other"
LEVEL_NOTE = ("Abstract states are pushed along every path of the API entry points, run_solution, run_ref and exchange_halos; "
              "a write that can reach a return or an exchange without its mark, or a mark cleared elsewhere, is reported.")
WHAT = ("API element, slice and fill functions, the mark primitives, the stencil-evaluation chain from run_solution and run_ref, "
        "the marking of neighbours' data, the selection and packing in exchange_halos and every place that clears a mark.")
ASSUMPTIONS = ["The kernel facts are those of the stand-in stencil; hooks and user code change vars only through the API.",
               "Which elements lie in a halo is decided by C01/C05; this check decides that a changed step is marked and sent."]
MIN = {"write": 6, "mark": 4, "eval": 3, "others": 3, "clear": 1, "send": 3}

SELF, OTHERS = 0, 1
VISIT = ("_visit_elements_in_slice", "_copy_vecs_in_slice")
ELEM = ("write_elem", "add_to_elem", "write_vec_norm", "store_to", "set_elems_same", "set_elems_in_seq")
MARKS = ("set_dirty", "set_dirty_all", "set_dirty_in_slice", "set_dirty_using_alloc_index")
FLAGS = frozenset(("do_mpi_interior", "do_mpi_left", "do_mpi_right"))
API = ("set_element", "add_to_element", "set_elements_in_slice", "set_elements_in_slice_same", "set_all_elements_same",
       "set_all_elements_in_seq", "set_elements_in_slice_void", "set_vecs_in_slice")
READS = ("get_element", "get_elements_in_slice", "reduce_elements_in_slice", "get_vecs_in_slice", "get_elements_in_slice_void")


def bodies(P, name):
    return sorted((f for f in P.named(name) if f.body and not f.dep), key=lambda f: f.where())


class Writes(TS):
    """State: 'w' -> what was written and not yet marked, 'm' -> marks made before."""

    def __init__(self, P, c):
        super().__init__(P)
        self.c = c
        self.wr = {}

    def interesting(self, x):
        n = short(x.get("n"))
        return n in VISIT or n in ELEM and self.on_var(x) or n in MARKS or n == "check_indices"

    def on_var(self, x):
        n = x.get("n") or ""
        return "yask::" in n

    def track_int(self, p):
        return True

    def writes(self, x):
        """Does this instance of the visitor write elements?"""
        k = x.get("fn")
        if k not in self.wr:
            seen, work, r = set(), [t for t in self.P.targets(x) if t.body is not None], False
            while work and not r:
                f = work.pop()
                if f.u in seen:
                    continue
                seen.add(f.u)
                for n in f.nodes():
                    if n["k"] == "call":
                        if short(n.get("n")) in ELEM:
                            r = True
                            break
                        work += [t for t in self.P.targets(n) if t.body is not None]
            self.wr[k] = r
        return self.wr[k]

    def on_call(self, x, fr, st):
        n = short(x["n"])
        a = [self.text(y, fr) for y in x.get("a") or []]
        where = self.P.at(x)
        if n == "check_indices":
            if len(a) > 5 and a[5] not in ("null", "0"):
                src = st.get(("clip", a[0]), a[0])
                return [(st.set(("clip", a[5].lstrip("&")), src), True), (st.set(("clip", a[5].lstrip("&")), src), False)]
            return [(st, True), (st, False)]
        if n in VISIT:
            if not self.writes(x):
                return [(st, None)]
            rng = [t for t, y in zip(a, x.get("a") or []) if y is not None and "Indices" in (y.get("t") or "")]
            w = ("slice",) + tuple(rng[:2]) + (where,)
            self.c.seen_writes.add((where, n))
            return [(self.wrote(st, w), 1), (st, 0)]
        if n in ELEM:
            self.c.seen_writes.add((where, n))
            if n.startswith("set_elems"):
                return [(self.wrote(st, ("all", where)), None)]
            inds = [t for t, y in zip(a, x.get("a") or []) if y is not None and "Indices" in (y.get("t") or "")]
            i = next((k for k, y in enumerate(x.get("a") or []) if y is not None and "Indices" in (y.get("t") or "")), None)
            step = a[i + 1] if i is not None and i + 1 < len(a) else "?"
            return [(self.wrote(st, ("elem", inds[0] if inds else "?", step, where)), None)]
        # marks
        whose, dirty = SELF, True
        args = list(x.get("a") or [])
        if n != "set_dirty_in_slice":
            whose = self.value(args[0], fr, st)
            dirty = self.value(args[1], fr, st)
        if whose != SELF or dirty is not True:
            self.c.note.add("%s: %s(%s)" % (where, n, ", ".join(a)))
            return [(st, None)]
        w = st.get("w")
        if n == "set_dirty_all":
            m = ("all",)
        elif n == "set_dirty_in_slice":
            m = ("slice", st.get(("clip", a[0]), a[0]), st.get(("clip", a[1]), a[1]))
        else:
            m = ("step", a[2])
        if w is not None and self.covers(m, w):
            return [(st.set("w", None), None)]
        if w is not None:
            st = st.set("miss", "%s marks %s" % (n, ", ".join(m[1:])))
        return [(st.set("m", (st.get("m") or ()) + (m,)), None)] if len(st.get("m") or ()) < 4 else [(st, None)]

    def wrote(self, st, w):
        if any(self.covers(m, w) for m in st.get("m") or ()):
            return st
        return st.set("w", w)

    def covers(self, m, w):
        if m[0] == "all":
            return True
        if w[0] == "slice":
            return m[0] == "slice" and m[1:3] == w[1:3]
        if w[0] == "elem":
            if m[0] == "slice":
                return m[1] == w[1] or m[2] == w[1]
            return m[0] == "step" and (m[1] == w[2] or w[1] in m[1])
        return False


class Eval(TS):
    """State: 'p' -> evaluated and not yet marked for this rank / the neighbours."""
    tracked = FLAGS

    def __init__(self, P, c, kind):
        super().__init__(P)
        self.c, self.kind = c, kind

    EV = ("calc_mega_block", "calc_in_domain", "exchange_halos", "set_all_neighbor_vars_dirty", "update_var_info")

    def interesting(self, x):
        n = short(x.get("n"))
        if n == "update_var_info":
            return len(x.get("a") or []) > 1
        return n in self.EV

    def on_store(self, path, val, x, fr, st):
        t = pstr(path) if path is not None else ""
        if x["k"] == "asg" and "[" in t and t.endswith("]"):
            for k in (".start[", ".stop["):
                if k in t and t.split(k)[1] in ("0]", "step_posn]"):
                    return st.set(("rng", k[1:-1]), self.text(x["b"], fr))
        return st

    def on_call(self, x, fr, st):
        n = short(x["n"])
        w = self.P.at(x)
        args = x.get("a") or []
        a = [self.text(y, fr) for y in args]
        if n == "set_all_neighbor_vars_dirty":
            return [(st.set("others", True), None)]
        if n == "exchange_halos":
            if not st.get("others"):
                self.c.fail("others", "first:" + self.kind, w, "%s can exchange halos before the neighbours' vars were marked as possibly changed" % self.kind)
            else:
                self.c.ok("others", w, "%s: neighbours marked before the exchange" % self.kind)
            if st.get("p"):
                self.c.fail("eval", "exchange:" + self.kind, w, "%s can exchange halos without having marked what was evaluated at %s for %s" %
                            (self.kind, st["p"][0], " and ".join(st["p"][1])))
            return [(st, None)]
        if n in ("calc_mega_block", "calc_in_domain"):
            self.c.ok("eval", w, "%s: %s" % (self.kind, n))
            need = ("the neighbours",) if n == "calc_mega_block" else ("the neighbours", "this rank")
            return [(st.set("p", (w, need)).set("pb", a[0] if n == "calc_mega_block" else None), None)]
        # update_var_info
        p = st.get("p")
        if len(args) >= 5 and "StagePtr" not in (args[0].get("t") or "") and "dirty_idx" in (args[0].get("t") or "dirty_idx") and self.value(args[0], fr, st) is not None and "Part" in x["n"]:
            who = self.value(args[0], fr, st)
            mark = self.value(args[2], fr, st)
            if p and mark is True:
                need = tuple(z for z in p[1] if z != ("this rank" if who == SELF else "the neighbours"))
                return [(st.set("p", (p[0], need) if need else None), None)]
            return [(st, None)]
        mark = self.value(args[3], fr, st)
        L, R = (self.flag(st, f) for f in ("do_mpi_left", "do_mpi_right"))
        if p is None:
            return [(st, None)]
        if mark is None:
            self.c.rep.skip("eval", w, "mark argument %s is not determined" % a[3])
        good = mark is not False or L is False and R is False
        if not good:
            return [(st, None)]
        sel = a[0]
        if sel not in ("null", "0") and st.get("pb") is not None and sel != st["pb"] and not sel.startswith("shared_ptr"):
            self.c.fail("eval", "stage:" + self.kind, w, "%s marks the outputs of stage %s after evaluating stage %s" % (self.kind, sel, st["pb"]))
        for q, i in (("start", 1), ("stop", 2)):
            t = st.get(("rng", q))
            if t is not None and t != a[i]:
                self.c.fail("eval", "steps:" + self.kind, w, "%s marks steps %s..%s instead of those evaluated (%s is %s)" % (self.kind, a[1], a[2], q, t))
        need = tuple(z for z in p[1] if z != "the neighbours")
        return [(st.set("p", (p[0], need) if need else None), None)]

    def flag(self, st, f):
        for k, v in st.items():
            if isinstance(k, tuple) and k and k[0] == "." and k[2] == f:
                return v
        return None


class Micro(TS):
    """calc_micro_block: what was evaluated is marked for this rank unless only the interior was done."""
    tracked = FLAGS

    def __init__(self, P, c):
        super().__init__(P)
        self.c = c

    def interesting(self, x):
        n = short(x.get("n"))
        return n == "calc_nano_block" or n == "update_var_info" and "Part" in x["n"]

    def on_call(self, x, fr, st):
        n = short(x["n"])
        w = self.P.at(x)
        if n == "calc_nano_block":
            self.c.ok("eval", w, "calc_micro_block: calc_nano_block")
            return [(st.set("p", w), None)]
        args = x["a"]
        if self.value(args[0], fr, st) != SELF:
            return [(st, None)]
        mark = self.value(args[2], fr, st)
        L, R = (next((v for k, v in st.items() if isinstance(k, tuple) and k and k[0] == "." and k[2] == f), None) for f in ("do_mpi_left", "do_mpi_right"))
        if mark is True or L is False and R is False:
            o = pstr(self.path(x["obj"], fr)) if x.get("obj") is not None else "this"
            if o != "this":
                self.c.fail("eval", "micro:part", w, "calc_micro_block marks the outputs of %s instead of its own" % o)
            t = self.text(args[1], fr)
            if t != st.get("t", t):
                self.c.fail("eval", "micro:step", w, "calc_micro_block marks step %s" % t)
            return [(st.set("p", None).set("done", True), None)]
        return [(st, None)]


class Halo(TS):
    tracked = FLAGS

    def __init__(self, P, c):
        super().__init__(P)
        self.c = c
        self.phase = {}         # event -> phases it happens in
        self.clears = []
        self.acts = []

    EV = ("is_dirty", "insert", "get_vecs_in_slice", "get_elements_in_slice_void", "set_vecs_in_slice", "set_elements_in_slice_void",
          "MPI_Isend", "mark_write_done") + MARKS

    def interesting(self, x):
        n = short(x.get("n"))
        return n in self.EV

    def ph(self, st):
        """(position, list of phases) of the current exchange phase."""
        for k, v in st.items():
            if isinstance(k, tuple) and k and k[0] == "list" and isinstance(v, tuple) and len(v) and all(isinstance(i, int) for i in v):
                for k2, v2 in st.items():
                    if isinstance(k2, tuple) and len(k2) == 3 and k2[0] == "v" and not isinstance(v2, bool) and isinstance(v2, int) and v2 in v:
                        return v2, v
        return None, ()

    def want_inline(self, f):
        return not f.cls or "StencilContext" in f.cls

    def on_call(self, x, fr, st):
        n = short(x["n"])
        w = self.P.at(x)
        args = x.get("a") or []
        ph, lst = self.ph(st)
        if n == "is_dirty":
            who = self.value(args[0], fr, st)
            if ph is None:
                self.phase.setdefault("select", set()).add(who)
                if who == OTHERS:
                    if st.get("od"):
                        self.c.fail("send", "select", w, "a step that may have changed in a neighbour (%s) can be left out of the exchange" % st["od"])
                    return [(st.set("od", w), True), (st.set("od", None), False)]
                return [(st, True), (st, False)]
            if who == SELF:
                return [(st.set("mine", w), True), (st, False)]
            return [(st, True), (st, False)]
        if n == "insert":
            if ph is None and st.get("od"):
                self.c.ok("send", w, "a step that may have changed is selected")
                return [(st.set("od", None), None)]
            return [(st, None)]
        if n.startswith("get_"):
            self.phase.setdefault("pack", set()).add(ph)
            return [(st.set("packed", True), None)]
        if n in ("set_vecs_in_slice", "set_elements_in_slice_void"):
            self.phase.setdefault("unpack", set()).add(ph)
            return [(st, None)]
        if n in ("MPI_Isend", "mark_write_done"):
            if st.get("mine") and not st.get("packed"):
                self.c.fail("send", "pack:" + n, w, "data that changed in this rank (%s) can be left out of what is sent" % st["mine"])
            else:
                self.c.ok("send", w, "what changed is packed before it is sent")
            return [(st.set("mine", None).set("packed", None), None)]
        # marks
        if n == "set_dirty_in_slice":
            return [(st, None)]
        if self.value(args[1], fr, st) is not True:
            flags = {f: next((v for k, v in st.items() if isinstance(k, tuple) and k and k[0] == "." and k[2] == f), None) for f in FLAGS}
            inl = any(f2 for f2 in self.frames(fr) if f2 == "lambda")
            self.clears.append((w, n, ph, lst, flags, rawtext(args[0])))
        return [(st, None)]

    def frames(self, fr):
        return ()


class C03:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.seen_writes, self.note = set(), set()
        self.okd = set()

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.okd:
            self.okd.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def fail(self, rule, key, w, msg):
        self.rep.bad(rule, key, w, msg)

    def run(self):
        self.writes()
        self.prims()
        self.evals()
        self.update()
        self.neighbors()
        self.halo()
        self.clears()

    # -- API writes
    def writes(self):
        rep = self.rep
        rep.rule("write", "on every path of an API function that writes elements, the step written is marked (this rank) before the function returns")
        for cls in ("YkVarImpl", "YkElemVar", "YkVecVar"):
            for nm in API:
                for f in bodies(self.P, "yask::%s::%s" % (cls, nm)):
                    t = Writes(self.P, self)
                    n0 = len(self.seen_writes)
                    try:
                        o = t.run(f)
                    except Explode as e:
                        rep.skip("write", f.where(), "too many states (%s)" % e)
                        continue
                    outs = list(o.fall) + [s for s, _ in o.ret]
                    bad = {s["w"][-1]: (s["w"], s.get("miss")) for s in outs if s.get("w")}
                    for w, (ev, miss) in sorted(bad.items()):
                        rep.bad("write", "%s:%s" % (cls, nm), w, "%s::%s can return with the data written here not marked for a halo exchange%s"
                                % (cls, nm, " (%s, written: %s)" % (miss, ", ".join(ev[1:-1])) if miss else ""))
                    if not bad and any(nm in ("set_all_elements_same", "set_all_elements_in_seq") or True for _ in (1,)):
                        if t.opened(f) if hasattr(t, "opened") else True:
                            self.ok("write", f.where(), "%s::%s" % (cls, nm))
        if len(self.seen_writes) < 5:
            rep.skip("write", "src/kernel/lib", "only %d writes recognised" % len(self.seen_writes))

    # -- mark primitives
    def prims(self):
        rep = self.rep
        rep.rule("mark", "the mark primitives set the flag of the wrapped step (index 0 without steps), all flags, or those of each step of the slice, "
                         "and reallocation sets all flags")
        P = self.P

        class Put:
            def __init__(self, key, val, guards):
                self.key, self.val, self.guards, self.kind = key, val, guards, "store"

        def stores(t):
            out = [Put(e.key, e.val, e.guards) for e in t.log if e.kind == "store" and "_dirty_steps" in fmt(e.key)]
            return out + [Put(e.obj, e.args[0], e.guards) for e in t.log if e.kind == "call" and short(e.name) == "operator=" and e.obj is not None
                          and e.args and "_dirty_steps" in fmt(e.obj)]
        for f in bodies(P, "yask::YkVarBase::set_dirty_using_alloc_index"):
            t = Trace(P)
            t.run(f)
            s = stores(t)
            who, val, ix = (p["n"] for p in f.params[:3])
            if not s:
                rep.skip("mark", f.where(), "form")
            elif len(s) == 1 and not s[0].guards and fmt(s[0].val) == val and fmt(s[0].key).endswith("_dirty_steps[%s][%s]" % (who, ix)):
                self.ok("mark", f.where(), "set_dirty_using_alloc_index")
            else:
                rep.bad("mark", "alloc", f.where(), "set_dirty_using_alloc_index stores %s" % "; ".join("%s in %s if %s" % (fmt(e.val), fmt(e.key), [fmt(g) for g in e.guards]) for e in s))
        idx = {}
        for nm in ("set_dirty", "is_dirty"):
            for f in bodies(P, "yask::YkVarBase::" + nm):
                pn = [p["n"] for p in f.params]
                for hs in (True, False):
                    got = set()
                    t = Trace(P, keep=("yask::YkVarBase::_wrap_step", "yask::YkVarBase::set_dirty_using_alloc_index", "yask::YkVarBase::update_valid_step", "yask::YkVarBase::resize"))
                    t.run(f)

                    def env(x):
                        return hs if x[0] == "fld" and fmt(x).endswith("_has_step_dim") else None
                    if nm == "set_dirty":
                        evs = [(e.args[0], e.args[1], e.args[2], e.guards) for i, e in t.calls_of("set_dirty_using_alloc_index")]
                        evs += [(None, e.val, e.key, e.guards) for e in stores(t) if e.key[0] == "idx"]
                    else:
                        evs = [(None, None, e.val, e.guards) for e in t.log if e.kind == "ret" and e.depth == 0]
                    for who, val, ix, gs in evs:
                        g = [truth(x, env) for x in gs]
                        if any(v is False for v in g):
                            continue
                        if nm == "set_dirty":
                            if who is not None and fmt(who) != pn[0]:
                                rep.bad("mark", nm + ":whose", f.where(), "set_dirty marks %s" % fmt(who))
                            if fmt(val) != pn[1]:
                                rep.bad("mark", nm + ":value", f.where(), "set_dirty stores %s" % fmt(val))
                            if any(v is None for v in g):
                                rep.bad("mark", nm + ":cond", f.where(), "set_dirty stores the mark only if %s" % " and ".join(fmt(x) for x, v in zip(gs, g) if v is None))
                        ixs = fmt(self.reduce(ix, env))
                        got.add("wrapped" if "_wrap_step(%s)" % pn[-1] in ixs else "zero" if ixs in ("0", "0L") or ixs.endswith("[0]") else ixs)
                    want = {"wrapped"} if hs else {"zero"}
                    if not got:
                        rep.skip("mark", f.where(), "form of %s" % nm)
                    elif got == want:
                        self.ok("mark", f.where(), "%s, %s step dimension" % (nm, "with" if hs else "without"))
                    else:
                        rep.bad("mark", "%s:index" % nm, f.where(), "%s uses flag %s of a var %s step dimension" % (nm, "/".join(sorted(got)), "with" if hs else "without"))
        for f in bodies(P, "yask::YkVarBase::set_dirty_all"):
            t = Trace(P)
            t.run(f)
            val = f.params[1]["n"]
            loops = [n for n in walk(f.body) if n["k"] == "rfor" and "_dirty_steps" in rawtext(n["r"])]
            good = None
            for n in loops:
                d = n["v"]["d"]
                asg = [y for y in walk(n["b"]) if (y["k"] == "asg" and y["op"] == "=" and y["a"]["k"] == "ref" and y["a"]["d"] == d and rawtext(y["b"]) == val)
                       or (y["k"] == "call" and y.get("op") == "=" and y.get("obj") is not None and rawtext(y["obj"]) == n["v"]["n"] and rawtext((y.get("a") or [None])[0]) == val)]
                isref = n["v"].get("ref") or "_Bit_reference" in n["v"]["t"] or n["v"]["t"].endswith("&")
                cond = any(y["k"] in ("if", "break", "continue", "ret") for y in walk(n["b"]))
                good = bool(asg) and bool(isref) and not cond
                if not good:
                    rep.bad("mark", "all", f.where(), "set_dirty_all does not set every flag%s" % ("" if isref else " (it sets a copy of type %s)" % n["v"]["t"]))
            if loops and good:
                self.ok("mark", f.where(), "set_dirty_all")
            elif not loops:
                calls = [n for n in f.nodes() if n["k"] == "call" and short(n.get("n")) in ("assign", "fill")]
                if calls:
                    c = calls[0]
                    if any(rawtext(a) == val for a in c["a"]):
                        self.ok("mark", f.where(), "set_dirty_all")
                    else:
                        rep.bad("mark", "all", f.where(), "set_dirty_all does not store its argument")
                else:
                    rep.skip("mark", f.where(), "form of set_dirty_all")
        for f in bodies(P, "yask::YkVarBase::set_dirty_in_slice"):
            t = Trace(P, keep=("yask::YkVarBase::set_dirty", "yask::YkVarBase::set_dirty_using_alloc_index"))
            t.run(f)
            a, b = f.params[0]["n"], f.params[1]["n"]
            bad = None
            seen = 0
            for first, last in ((3, 3), (3, 5), (-2, 0), (-1, -1)):
                for at in (first, last, (first + last) // 2):
                    hit = False
                    und = False
                    for i, e in t.calls_of("set_dirty"):
                        if truth(e.args[0], lambda x: None) != SELF or truth(e.args[1], lambda x: None) is not True:
                            bad = bad or "marks %s with %s" % (fmt(e.args[0]), fmt(e.args[1]))
                            continue

                        def env(x, at=at, first=first, last=last):
                            k = fmt(x)
                            if x[0] == "fld" and k.endswith("_has_step_dim"):
                                return True
                            if x[0] == "idx" and k.startswith(a + "."):
                                return first
                            if x[0] == "idx" and k.startswith(b + "."):
                                return last
                            if x[0] == "phi" or "#" in k and x[0] in ("var",):
                                return at
                            return None
                        g = [truth(x, env) for x in e.guards]
                        v = truth(e.args[2], env)
                        if v is None or None in g:
                            und = True
                        elif all(g) and v == at:
                            hit = True
                    if hit:
                        seen += 1
                    elif not und:
                        bad = bad or "step %d of %d..%d is not marked" % (at, first, last)
            init = [l for l in getattr(t, "loops", []) or []]
            if bad:
                rep.bad("mark", "slice", f.where(), "set_dirty_in_slice: %s" % bad)
            elif seen:
                self.ok("mark", f.where(), "set_dirty_in_slice, each step")
            else:
                rep.skip("mark", f.where(), "form of set_dirty_in_slice")
            # the first step of the loop
            fo = [n for n in f.nodes() if n["k"] == "for"]
            for n in fo:
                if n.get("init") is not None and n["init"]["k"] == "decl":
                    txt = rawtext(n["init"]["v"][0].get("init"))
                    if a not in txt:
                        rep.bad("mark", "slice:first", f.where(), "set_dirty_in_slice starts from %s" % txt)
                    elif "+" in txt.replace("operator+", "").replace("+step", "") and "1" in txt:
                        rep.bad("mark", "slice:first", f.where(), "set_dirty_in_slice starts from %s" % txt)
                    else:
                        self.ok("mark", f.where(), "set_dirty_in_slice, first step")
            ns = [e for i, e in t.calls_of("set_dirty_using_alloc_index")]
            g0 = [e for e in ns if any(truth(x, lambda y: False if y[0] == "fld" and fmt(y).endswith("_has_step_dim") else None) for x in e.guards) or not e.guards]
            if any(truth(e.args[1], lambda y: None) is True and truth(e.args[0], lambda y: None) == SELF for e in g0):
                self.ok("mark", f.where(), "set_dirty_in_slice, var without steps")
            elif not [e for i, e in t.calls_of("set_dirty") if not any("_has_step_dim" in fmt(g) for g in e.guards)]:
                rep.bad("mark", "slice:nostep", f.where(), "set_dirty_in_slice does not mark a var without a step dimension")
        for f in bodies(P, "yask::YkVarBase::resize"):
            for n in f.nodes():
                if n["k"] == "call" and short(n.get("n")) in ("assign", "resize") and "_dirty_steps" in rawtext(n.get("obj")):
                    v = (n.get("a") or [None])[-1]
                    if v is not None and v.get("k") == "lit" and v["v"] is True or v is not None and rawtext(v) in ("True", "true"):
                        self.ok("mark", P.at(n), "new flags are set")
                    else:
                        rep.bad("mark", "resize", P.at(n), "reallocating a var leaves its flags %s" % rawtext(v))

    def reduce(self, t, env):
        """Resolve the conditionals of a term."""
        if t[0] == "cond":
            c = truth(t[1], env)
            if c is not None:
                return self.reduce(t[2] if c else t[3], env)
        if t[0] in ("idx",):
            return (t[0], self.reduce(t[1], env), self.reduce(t[2], env))
        return t

    # -- stencil evaluation
    def evals(self):
        rep, P = self.rep, self.P
        rep.rule("eval", "what a stage or part evaluates is marked for this rank and for the neighbours before the next exchange and before the run returns")
        rep.rule("others", "run_solution, run_ref and exchange_halos() mark all neighbours' vars before their first exchange")
        for nm in ("run_solution", "run_ref"):
            for f in bodies(P, "yask::StencilContext::" + nm):
                t = Eval(P, self, nm)
                try:
                    o = t.run(f)
                except Explode as e:
                    rep.skip("eval", f.where(), "%s: %s" % (nm, e))
                    continue
                outs = list(o.fall) + [s for s, _ in o.ret]
                for s in outs:
                    if s.get("p"):
                        rep.bad("eval", "return:" + nm, s["p"][0], "%s can return without having marked what was evaluated here for %s" % (nm, " and ".join(s["p"][1])))
        for f in bodies(P, "yask::StencilContext::exchange_halos"):
            if f.params:
                continue
            t = Eval(P, self, "exchange_halos()")
            t.run(f)
        for f in bodies(P, "yask::StencilPartBase::calc_micro_block"):
            t = Micro(P, self)
            from ..tstate import St
            try:
                o = t.run(f)
            except Explode as e:
                rep.skip("eval", f.where(), "calc_micro_block: %s" % e)
                continue
            for s in list(o.fall) + [s for s, _ in o.ret]:
                if s.get("p"):
                    rep.bad("eval", "micro", s["p"], "calc_micro_block can return without having marked what was evaluated here for this rank")
        # Evaluation happens nowhere else.
        reach = {}

        def calls(f):
            return [t for n in f.nodes() if n["k"] == "call" for t in P.targets(n) if t.body is not None]
        for f in bodies(P, "yask::StencilContext::run_solution"):
            seen, work, bad = set(), [f], None
            while work:
                g = work.pop()
                if g.u in seen or g.short == "calc_micro_block":
                    continue
                seen.add(g.u)
                for n in g.nodes():
                    if n["k"] != "call":
                        continue
                    if short(n.get("n")) == "calc_nano_block":
                        bad = (P.at(n), g.short)
                    work += [t for t in P.targets(n) if t.body is not None]
            if bad:
                rep.bad("eval", "direct", bad[0], "%s evaluates a nano-block outside of calc_micro_block, which marks the outputs" % bad[1])
            else:
                self.ok("eval", f.where(), "nano-blocks are evaluated only under calc_micro_block (%d functions)" % len(seen))

    # -- update_var_info
    def update(self):
        rep, P = self.rep, self.P
        for f in bodies(P, "yask::StencilPartBase::update_var_info"):
            t = Trace(P, keep=("yask::YkVarBase::set_dirty", "yask::YkVarBase::set_dirty_all", "yask::YkVarBase::update_valid_step", "yask::StencilPartBase::get_output_step_index"))
            t.run(f)
            pn = [p["n"] for p in f.params]
            cs = t.calls_of("set_dirty", "set_dirty_all")
            if not cs:
                rep.bad("eval", "part:none", f.where(), "StencilPartBase::update_var_info marks nothing")
            for i, e in cs:
                extra = []
                for g in t.facts(i):
                    k = fmt(g)
                    if k == pn[2] or "get_output_step_index" in k or "output_var_ptrs" in k and "#" in k or k.startswith("rfor"):
                        continue
                    if "#" in k and ("begin" in k or "end" in k):
                        continue
                    extra.append(k)
                if extra:
                    rep.bad("eval", "part:cond", P.at(e.node), "the outputs of a part are marked only if %s" % " and ".join(extra)[:150])
                elif fmt(e.args[0]) != pn[0] or truth(e.args[1], lambda x: None) is not True:
                    rep.bad("eval", "part:args", P.at(e.node), "the outputs of a part are marked with (%s, %s)" % (fmt(e.args[0]), fmt(e.args[1])))
                elif e.name.endswith("set_dirty") and not self.is_out_step(e.args[2], f, t, i):
                    rep.bad("eval", "part:step", P.at(e.node), "the outputs of a part are marked at step %s instead of its output step" % fmt(e.args[2])[:80])
                else:
                    self.ok("eval", P.at(e.node), "each output var of a part is marked at the output step")
            over = [n for n in f.nodes() if n["k"] == "rfor"]
            for n in over:
                if "output_var_ptrs" not in rawtext(n["r"]):
                    rep.bad("eval", "part:vars", P.at(n), "update_var_info goes through %s instead of the output vars" % rawtext(n["r"]))
                if any(y["k"] in ("break",) for y in walk(n["b"])):
                    rep.bad("eval", "part:break", P.at(n), "update_var_info does not go through all output vars")
        for f in bodies(P, "yask::StencilContext::update_var_info"):
            if len(f.params) < 4:
                continue
            t = Trace(P, keep=("yask::StencilPartBase::update_var_info",))
            t.run(f)
            pn = [p["n"] for p in f.params]
            cs = [(i, e) for i, e in t.calls_of("update_var_info")]
            if not cs:
                rep.bad("eval", "context:none", f.where(), "StencilContext::update_var_info does not go through the parts")
            for i, e in cs:
                w = P.at(e.node)
                if len(e.args) < 5:
                    continue
                if truth(e.args[0], lambda x: None) != OTHERS:
                    rep.bad("eval", "context:whose", w, "StencilContext::update_var_info marks %s" % fmt(e.args[0]))
                elif fmt(e.args[2]) != pn[3]:
                    rep.bad("eval", "context:mark", w, "StencilContext::update_var_info passes %s as mark" % fmt(e.args[2]))
                elif self.loop_var(f, e.args[1]) is False:
                    rep.bad("eval", "context:step", w, "StencilContext::update_var_info marks step %s in every iteration" % fmt(e.args[1]))
                else:
                    self.ok("eval", w, "the parts of the stage are marked for the neighbours")
                # conditions: selection of the stage, loop conditions
                for g in e.guards:
                    k = fmt(g)
                    names = [n for n in pn if n in k]
                    if pn[0] in k:
                        v = {(s, d): truth(g, self.sel_env(pn[0], s, d)) for s in (False, True) for d in (False, True)}
                        if v[(False, True)] is False or v[(False, False)] is False or v[(True, False)] is False:
                            rep.bad("eval", "context:select", w, "the outputs of stages are left unmarked: %s" % k[:120])
                    elif pn[1] in k or pn[2] in k or "#" in k or "@" in k:
                        continue
                    else:
                        rep.bad("eval", "context:cond", w, "parts are marked only if %s" % k[:120])
            # loop over steps: from start, up to stop, by +-1
            for n in f.nodes():
                if n["k"] == "for" and n.get("init") is not None and n["init"]["k"] == "decl" and pn[2] in rawtext(n.get("c")):
                    st = rawtext(n["init"]["v"][0].get("init"))
                    c = n["c"]
                    while c["k"] == "cast":
                        c = c["e"]
                    if st != pn[1]:
                        rep.bad("eval", "context:first", P.at(n), "steps are marked from %s instead of %s" % (st, pn[1]))
                    else:
                        self.ok("eval", P.at(n), "all steps from %s" % pn[1])
            for n in f.nodes():
                if n["k"] == "break":
                    rep.bad("eval", "context:break", P.at(n), "StencilContext::update_var_info does not go through all stages, steps and parts")

    def loop_var(self, f, t):
        """Is the term the running step of the loop over steps (None: no such loop)?"""
        vs = set()
        for n in f.nodes():
            if n["k"] == "for" and n.get("init") is not None and n["init"]["k"] == "decl":
                vs |= {v["n"] for v in n["init"]["v"]}
        if not vs:
            return None
        return any(fmt(t).split("#")[0] == v or v + "#" in fmt(t) for v in vs)

    def sel_env(self, sel, isset, differs):
        def env(x):
            k = fmt(x)
            if x[0] == "bin" and x[1] in ("!=", "==") and sel in k or x[0] == "call" and "operator" in x[1] and sel in k and len(x) > 3:
                ne = "!=" in k if x[0] == "call" else x[1] == "!="
                return differs if ne else not differs
            if k == sel or x[0] == "call" and k.startswith(sel + ".operator bool") or k == sel + ".get()":
                return isset
            return None
        return env

    def is_out_step(self, t, f, tr, i):
        """Is the term the output of get_output_step_index?"""
        k = fmt(t)
        loc = None
        for n in f.nodes():
            if n["k"] == "call" and short(n.get("n")) == "get_output_step_index":
                a = n["a"][1] if len(n["a"]) > 1 else None
                if a is not None:
                    loc = rawtext(a)
                    if f.params[1]["n"] != rawtext(n["a"][0]):
                        return False
        return loc is not None and loc in k

    # -- neighbours
    def neighbors(self):
        rep, P = self.rep, self.P
        for f in bodies(P, "yask::StencilContext::set_all_neighbor_vars_dirty"):
            t = Trace(P, keep=("yask::YkVarBase::set_dirty_all",))
            t.run(f)
            cs = t.calls_of("set_dirty_all")
            good = [e for i, e in cs if truth(e.args[0], lambda x: None) == OTHERS and truth(e.args[1], lambda x: None) is True]
            rng = [rawtext(n["r"]) for n in f.nodes() if n["k"] == "rfor"]
            stops = [n for n in f.nodes() if n["k"] in ("break", "continue", "if", "ret")]
            if good and any("orig_var_ptrs" in r or "all_var_ptrs" in r for r in rng) and not stops:
                self.ok("others", f.where(), "all vars")
            elif not rng:
                rep.skip("others", f.where(), "form")
            else:
                rep.bad("others", "all", f.where(), "set_all_neighbor_vars_dirty does not mark every var of the solution for the neighbours (%s)" %
                        ("; ".join("set_dirty_all(%s)" % ", ".join(fmt(a) for a in e.args) for i, e in cs) or "no mark"))

    # -- the exchange
    def halo(self):
        rep, P = self.rep, self.P
        rep.rule("send", "every step that may have changed in a neighbour is selected, and data that changed in this rank is packed before it is sent")
        rep.rule("clear", "marks are cleared only in the exchange, in a phase after the received data was unpacked, when the interior has been done")
        for f in bodies(P, "yask::StencilContext::exchange_halos"):
            if not f.params:
                continue
            t = Halo(P, self)
            try:
                o = t.run(f)
            except Explode as e:
                rep.skip("send", f.where(), str(e))
                continue
            if SELF in t.phase.get("select", ()) and OTHERS not in t.phase["select"]:
                rep.bad("send", "select:whose", f.where(), "steps to exchange are selected without regard to what may have changed in the neighbours")
            for s in list(o.fall) + [s for s, _ in o.ret]:
                if s.get("od"):
                    rep.bad("send", "select:end", s["od"], "a step that may have changed in a neighbour can be left out of the exchange")
                    break
            un = t.phase.get("unpack", set())
            if not t.clears:
                rep.skip("clear", f.where(), "no clearing of marks found")
            for w, n, ph, lst, flags, who in t.clears:
                if ph is None or None in un or not un:
                    rep.skip("clear", w, "phase of the exchange not determined")
                    continue
                posu = [lst.index(u) for u in un if u in lst]
                if not posu:
                    rep.bad("clear", "unpack", w, "marks are cleared in an exchange that does not unpack received data")
                elif lst.index(ph) < max(posu):
                    rep.bad("clear", "order", w, "marks are cleared before the received data was unpacked")
                elif flags.get("do_mpi_interior") is False:
                    rep.bad("clear", "interior", w, "marks are cleared before the interior was evaluated")
                else:
                    self.ok("clear", w, "%s cleared after unpacking" % who)
            # the range of steps
            tr = [n for n in f.nodes() if n["k"] == "call" and short(n.get("n")) in ("get_first_valid_step_index", "get_last_valid_step_index")]
            if {short(n["n"]) for n in tr} == {"get_first_valid_step_index", "get_last_valid_step_index"}:
                self.ok("send", f.where(), "all valid steps are considered")
            else:
                rep.bad("send", "range", f.where(), "not all valid steps are considered (%s)" % ", ".join(short(n["n"]) for n in tr))
            self.step_loop(f)
            # vars considered
            rng = [n for n in f.nodes() if n["k"] == "rfor" and "var_ptrs" in rawtext(n["r"])]
            if rng and any("orig_var_ptrs" in rawtext(n["r"]) or "all_var_ptrs" in rawtext(n["r"]) for n in rng):
                self.ok("send", P.at(rng[0]), "all vars are considered")
            elif rng:
                rep.bad("send", "vars", P.at(rng[0]), "only vars in %s are exchanged" % rawtext(rng[0]["r"]))

    def step_loop(self, f):
        """The loop that selects the steps runs from the first to the last valid step."""
        P, rep = self.P, self.rep
        t = Trace(P, keep=("yask::YkVarBase::is_dirty", "yask::YkVarImpl::get_first_valid_step_index", "yask::YkVarImpl::get_last_valid_step_index", "yask::YkVarImpl::is_dim_used"))
        for n in f.nodes():
            if n["k"] != "for" or n.get("c") is None:
                continue
            if not any(y["k"] == "call" and short(y.get("n")) == "is_dirty" for y in walk(n["b"])):
                continue
            i = n.get("init")
            c = n["c"]
            while c["k"] == "cast":
                c = c["e"]
            if i is None or i["k"] != "decl" or c["k"] != "bin" or c["op"] not in ("<", "<=", "!="):
                rep.skip("send", P.at(n), "form of the step loop")
                return
            first, last = self.defs(f, i["v"][0]["init"]), self.defs(f, c["b"])
            ok1 = any(d.endswith("get_first_valid_step_index()") for d in first)
            want = "get_last_valid_step_index()"
            ok2 = any(want in d and (("+" in d and "1" in d) == (c["op"] != "<=")) and "-" not in d for d in last)
            if ok1 and ok2:
                self.ok("send", P.at(n), "steps from the first to the last valid one")
            else:
                rep.bad("send", "steps", P.at(n), "the steps considered run from %s to %s %s" % ("/".join(first), c["op"], "/".join(last)))
            return

    def defs(self, f, x):
        while x["k"] in ("cast",):
            x = x["e"]
        if x["k"] == "ref":
            out = []
            for n in f.nodes():
                if n["k"] == "decl":
                    for v in n["v"]:
                        if v["d"] == x["d"] and v.get("init") is not None:
                            out.append(rawtext(v["init"]))
                elif n["k"] == "asg" and n["a"]["k"] == "ref" and n["a"]["d"] == x["d"]:
                    out.append(rawtext(n["b"]))
            return out or [rawtext(x)]
        return [rawtext(x)]

    # -- clears anywhere else
    def clears(self):
        rep, P = self.rep, self.P
        for f in P.real_fns():
            if f.body is None or f.dep:
                continue
            for n in f.nodes():
                if n["k"] == "call" and short(n.get("n")) in ("set_dirty", "set_dirty_all", "set_dirty_using_alloc_index") and "yask::YkVarBase" in n["n"]:
                    v = n["a"][1]
                    while v["k"] == "cast":
                        v = v["e"]
                    if v["k"] == "lit" and v["v"] is True:
                        continue
                    if f.cls and f.cls.endswith("YkVarBase") and f.short in MARKS:
                        continue
                    if f.n == "yask::StencilContext::exchange_halos":
                        continue
                    callers = {g.n for g in P.real_fns() if g.body is not None and not g.dep for y in g.nodes() if y["k"] == "call" and y.get("fn") == f.u}
                    if callers and callers <= {"yask::StencilContext::exchange_halos"}:
                        continue
                    rep.bad("clear", "elsewhere:" + f.short, P.at(n), "%s clears a mark without an exchange (%s)" % (f.short, rawtext(v)))
                elif n["k"] == "mem" and short(n["n"]) == "_dirty_steps" and not (f.cls or "").endswith("YkVarBase"):
                    rep.bad("clear", "direct:" + f.short, P.at(n), "%s accesses the flags directly" % f.short)


def check(rep, tier):
    P = facts.load_kernel()
    rep.analysed(P) if hasattr(rep, "analysed") else None
    C03(rep, P).run()
