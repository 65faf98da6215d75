"""C02: host and device copies of a var stay coherent (decided on the offload variant of the kernel library)."""
import re
from .. import facts
from ..ir import walk, strip_targs, children
from ..tstate import TS, St, short, pstr, Explode

TECHNIQUE = "typestate analysis of the coherency state machine over the offload variant of the kernel library: every API access path from every coherent state, on either side, over all paths"
LEVEL = "other"
LEVEL_NOTE = ("The library is analysed as compiled with -DUSE_OFFLOAD (no unified memory), which the test machine cannot run. The transition table of the state machine is derived from its source and compared with its "
              "meaning; every element-access API is run abstractly from every state on either side; no access may meet a stale copy, no write may stay unmarked, no copy may overwrite the newer side.")
WHAT = "Class Coherency, YkVarBase::copy_data_to/from_device, all element-access functions of YkVarImpl, YkVarBase, YkElemVar and YkVecVar, stencil evaluation and comparison of solutions."
ASSUMPTIONS = ["Storage is allocated and slices are not empty (an empty slice changes nothing).",
               "Code inside an OpenMP target region uses the device copy, all other code the host copy.",
               "The offload copy routines copy what they are given.",
               "Accesses through raw storage pointers handed to the user, user hooks while a solution runs and the reference solver run_ref are not judged.",
               "Built with unified shared memory or without offload there is one copy and nothing to keep coherent."]
MIN = {"table": 20, "copy": 2, "sync": 40, "eval": 2, "all": 2}

ACC = re.compile(r"^(read_elem|write_elem|add_to_elem|read_vec_norm|write_vec_norm|write_vec_norm_masked|read_elem_local|write_elem_local)$")
PTR = re.compile(r"^(get_elem_ptr|get_elem_ptr_local|get_vec_ptr_norm|get_vec_ptr\w*|get_storage|get_raw_storage_buffer)$")
WR = re.compile(r"^(write|add_to)_")
YESFN = ("get_storage", "get_num_bytes", "get_num_elems", "get_raw_storage_buffer", "is_storage_allocated", "get_num_storage_bytes")
STATES = ("not_init", "host_mod", "dev_mod", "in_sync")


class One(int):
    pass


YES = One(1)


def nm(x):
    return short(strip_targs(x.get("n") or "")) if x is not None else ""


def coh_call(x):
    return x["k"] == "call" and "Coherency::" in strip_targs(x.get("n") or "")


def real(x):
    """Is this an element or a vector of elements?"""
    t = x.get("t")
    if t is None and x["k"] in ("idx", "un"):
        t = re.sub(r"\*[^*]*$", "", (x.get("b") or x.get("e") or {}).get("t") or "")
    t = re.sub(r"^const |[ &]+$", "", t or "").strip()
    return t in ("float", "double", "real_t", "yask::real_t") or "real_vec" in t


class Once:
    """The program with one of several instances of the same template as the target of a call."""

    def __init__(self, P):
        self.__dict__["P"] = P
        self.__dict__["memo"] = {}

    def __getattr__(self, n):
        return getattr(self.P, n)

    def targets(self, x):
        k = id(x)
        r = self.memo.get(k)
        if r is None:
            d = {}
            for t in self.P.targets(x):
                d.setdefault(t.where(), t)
            r = self.memo[k] = (x, list(d.values()))
        return r[1]


def over(s):
    """The member container a loop goes through, or None."""
    def mem(r):
        while r is not None and r["k"] in ("cast", "defarg"):
            r = r["e"]
        return short(r["n"]) if r is not None and r["k"] == "mem" else None
    if s["k"] == "rfor":
        return mem(s["r"])
    if s["k"] in ("for", "while"):
        for part in (s.get("init"), s.get("c")):
            for n in walk(part) if isinstance(part, dict) else ():
                if n["k"] == "call" and nm(n) in ("size", "begin", "cbegin") and n.get("obj") is not None and mem(n["obj"]):
                    return mem(n["obj"])
    return None


class Table(TS):
    def track_int(self, p):
        return False


class Sync(TS):
    """The copies of one var."""
    max_depth = 16

    def __init__(self, P, rep, enums):
        super().__init__(P)
        self.rep, self.enums = rep, enums
        self.err = None

    # -- events
    def interesting(self, x):
        n = nm(x)
        if coh_call(x):
            return n != "get_state"
        return bool(ACC.match(n)) or n in ("offload_copy_to_device", "offload_copy_from_device", "store_to", "load_from") or x.get("op") in ("=", "+=") and x.get("obj") is not None and real(x["obj"])

    def node_event(self, n):
        return n["k"] == "asg" and n["a"]["k"] in ("idx", "un") and real(n["a"])

    def path(self, x, fr, st=None):
        if x is not None and x["k"] == "bin" and x["op"] in ("+", "-"):
            p = self.path(x["a"], fr)
            return p if self.stored(p) else None
        return super().path(x, fr, st)

    def simple(self, x):
        if PTR.match(nm(x)) or coh_call(x):
            return None
        return super().simple(x)

    def value(self, x, fr, st):
        if x is not None and x["k"] == "call":
            if nm(x) in YESFN:
                return YES
            if coh_call(x) and nm(x) in ("need_to_update_host", "need_to_update_dev"):
                return st.get("coh") == ("dev_mod" if nm(x) == "need_to_update_host" else "host_mod")
        v = super().value(x, fr, st)
        if v is None and x is not None and x["k"] in ("ref", "cast"):
            p = self.path(x, fr)
            if isinstance(p, tuple) and p and p[0] == "()" and PTR.match(p[2]):
                return YES
        return v

    def keep(self, ty, p, v):
        return isinstance(v, One) or super().keep(ty, p, v)

    def bad(self, x, msg):
        if self.err is None:
            self.err = (x, msg)

    def stored(self, p):
        """Does the path lead into the storage of the var?"""
        while isinstance(p, tuple) and p:
            if p[0] == "()" and PTR.match(p[2]):
                return True
            if p[0] in (".", "[]", "()"):
                p = p[1]
            else:
                return False
        return False

    def access(self, x, st, write):
        dev = bool(st.get("T"))
        coh = st["coh"]
        if coh == ("host_mod" if dev else "dev_mod"):
            self.bad(x, "the %s copy is %s while only the %s copy is current" % (("device", "host")[not dev], "written" if write else "read", ("host", "device")[not dev]))
        return st.set("dw" if dev else "hw", True) if write else st

    def on_call(self, x, fr, st):
        n = nm(x)
        if x["k"] != "call":
            return None
        if coh_call(x):
            return self.transition(x, n, fr, st)
        if ACC.match(n):
            return [(self.access(x, st, bool(WR.match(n))), None)]
        if n in ("offload_copy_to_device", "offload_copy_from_device"):
            if not self.stored(self.path((x.get("a") or [None])[0], fr)):
                return [(st, None)]
            to = n.endswith("to_device")
            if st["coh"] == ("dev_mod" if to else "host_mod"):
                self.bad(x, "the %s copy is overwritten although it is the newer one" % ("device" if to else "host"))
            return [(st.set("copied", "to" if to else "from"), None)]
        if n in ("store_to", "load_from"):
            if any(self.stored(self.path(a, fr)) for a in x.get("a") or () if a is not None):
                return [(self.access(x, st, n == "store_to"), None)]
            return [(st, None)]
        if x.get("op") in ("=", "+=") and x.get("obj") is not None:
            o = x["obj"]
            p = self.path(o, fr)
            y = o
            while y["k"] == "cast":
                y = y["e"]
            if self.stored(p) and (y["k"] == "idx" or y["k"] == "un" and y["op"] == "*"):
                return [(self.access(x, st, True), None)]
            return None
        return None

    def on_store(self, p, v, x, fr, st):
        l = x.get("a") if x["k"] == "asg" else None
        while isinstance(l, dict) and l["k"] == "cast":
            l = l["e"]
        if isinstance(l, dict) and (l["k"] == "idx" or l["k"] == "un" and l["op"] == "*") and self.stored(p):
            return self.access(x, st, True)
        return st

    def transition(self, x, n, fr, st):
        coh = st["coh"]
        if n in ("need_to_update_host", "need_to_update_dev"):
            return [(st, coh == ("dev_mod" if n == "need_to_update_host" else "host_mod"))]
        if n == "_force_state":
            v = self.value(x["a"][0], fr, st)
            new = self.enums.get(v)
            if new != "not_init":
                self.bad(x, "the state is forced to %s without any copying" % (new or "something unknown"))
            return [(st.set("coh", new or coh), None)]
        if n in ("mod_host", "mod_dev") and coh == "not_init" and st.get("hw") and st.get("dw"):
            return [(st.set("coh", "host_mod" if n == "mod_host" else "dev_mod").set("hw", None).set("dw", None), None)]
        if n == "mod_host":
            if coh == "dev_mod":
                self.bad(x, "the host copy is marked modified while the device copy is newer (throws)")
            return [(st.set("coh", "host_mod").set("hw", None), None)]
        if n == "mod_dev":
            if coh == "host_mod":
                self.bad(x, "the device copy is marked modified while the host copy is newer (throws)")
            return [(st.set("coh", "dev_mod").set("dw", None), None)]
        if n == "mod_both":
            if bool(st.get("hw")) != bool(st.get("dw")):
                self.bad(x, "both copies are marked modified but only the %s copy was written" % ("host" if st.get("hw") else "device"))
            if coh in ("host_mod", "dev_mod"):
                self.bad(x, "both copies are marked modified while only one was current (throws)")
            return [(st.set("coh", "in_sync").set("hw", None).set("dw", None), None)]
        if n in ("host_copied_to_dev", "dev_copied_to_host"):
            if st.get("copied") != ("to" if n == "host_copied_to_dev" else "from"):
                self.bad(x, "the copies are marked in sync without copying")
            if coh == ("dev_mod" if n == "host_copied_to_dev" else "host_mod"):
                self.bad(x, "the copies are marked as copied although the other one is newer (throws)")
            return [(st.set("coh", "in_sync").set("copied", None), None)]
        return None

    # -- target regions, loops
    def exec1(self, s, fr, st, o):
        if s["k"] == "omp" and "target" in s["dir"] and "data" not in s["dir"] and "update" not in s["dir"]:
            from ..tstate import Out
            old = st.get("T")
            r = self.exec(s["b"], fr, st.set("T", True))
            for q in ("fall", "brk", "cont", "thr"):
                getattr(o, q).extend(z.set("T", old) for z in getattr(r, q))
            o.ret.extend((z.set("T", old), v) for z, v in r.ret)
            return
        super().exec1(s, fr, st, o)

    def decl(self, v, fr, st):
        t = v.get("t") or ""
        if "__restrict" in t:
            v = dict(v, t=t.replace("__restrict", "").rstrip())
        return super().decl(v, fr, st)

    def some(self, before, sts):
        """Of the states after something repeated, those where it happened (unless nothing happens in it)."""
        def did(s):
            return any(s.get(k) != before.get(k) for k in ("hw", "dw", "coh", "copied"))
        hit = [s for s in sts if did(s)]
        return hit or sts

    def loop(self, s, fr, st, o):
        n = len(o.fall)
        super().loop(s, fr, st, o)
        o.fall[n:] = self.some(st, o.fall[n:])

    def do_call(self, x, fr, st):
        r = super().do_call(x, fr, st)
        if any(self.lambda_of(y, fr) is not None for y in x.get("a") or ()):
            keep = {s.key() for s in self.some(st, [s for s, _ in r])}
            r = [(s, v) for s, v in r if s.key() in keep]
        return r


class Eval(TS):
    """Before stencils are evaluated, everything is on the device; before solutions are compared, on the host."""
    max_depth = 12

    def __init__(self, P, need, event, undo=(), stop=()):
        super().__init__(P)
        self.need, self.event, self.undo, self.stop = need, event, undo, stop
        self.hit, self.miss = [], []

    def interesting(self, x):
        n = nm(x)
        return n in self.event or n in self.undo or n == self.need or n == "const_" + self.need

    def on_call(self, x, fr, st):
        n = nm(x)
        if n in self.event:
            (self.hit if st.get("all") else self.miss).append(x)
            return [(st, None)]
        if n in self.undo:
            return [(st.set("all", None), None)]
        return [(st.set("one", True), None)]

    def want_inline(self, f):
        return f.short not in self.stop

    def loop(self, s, fr, st, o):
        if over(s) is not None:
            if over(s) in ("orig_var_ptrs", "all_var_ptrs"):
                b = self.exec(s["b"], fr, st.set("one", None))
                outs = b.fall + b.cont
                n = len(o.fall)
                super().loop(s, fr, st, o)
                if outs and all(q.get("one") for q in outs) and not b.brk:
                    o.fall[n:] = [q.set("all", True).set("one", None) for q in o.fall[n:]]
                return
        super().loop(s, fr, st, o)


class C02:
    def __init__(self, rep, P):
        self.rep, self.P = rep, Once(P)

    def run(self):
        rep, P = self.rep, self.P
        rep.rule("table", "the state machine has the transitions its states mean")
        rep.rule("copy", "data are copied exactly when one side is newer, towards the other, before that is recorded")
        rep.rule("sync", "an access path from a coherent state never meets a stale copy and leaves no change unmarked")
        rep.rule("eval", "all vars are made current on the device before evaluation and on the host before comparison")
        rep.rule("all", "what a stencil writes on the device is marked")
        rep.rule("place", "coherency is changed only by the functions analysed")
        self.enums = {}
        for f in P.real_fns():
            if "Coherency" in f.n:
                for n in f.nodes():
                    if n["k"] == "ref" and short(n["n"]) in STATES and n.get("cv") is not None:
                        self.enums[int(n["cv"])] = short(n["n"])
        self.table()
        self.seen = set()
        self.sync()
        self.evals()
        self.marks()
        self.places()

    # -- rule table
    def table(self):
        rep, P = self.rep, self.P
        val = {v: k for k, v in self.enums.items()}
        exp = {
            "mod_host": lambda s: None if s == "dev_mod" else "host_mod",
            "mod_dev": lambda s: None if s == "host_mod" else "dev_mod",
            "mod_both": lambda s: None if s in ("host_mod", "dev_mod") else "in_sync",
            "host_copied_to_dev": lambda s: None if s == "dev_mod" else "in_sync",
            "dev_copied_to_host": lambda s: None if s == "host_mod" else "in_sync",
        }
        sp = (".", ("this",), "_state")
        for f in P.real_fns():
            if f.body is None or not strip_targs(f.n).startswith("yask::Coherency::"):
                continue
            m = f.short
            if m not in exp and m not in ("need_to_update_host", "need_to_update_dev"):
                continue
            for s in STATES:
                if s not in val:
                    # states are numbered from 0 in the order of their declaration
                    rep.skip("table", f.where(), "number of state %s is not known" % s)
                    continue
                t = Table(P)
                o = t.run(f, St({sp: val[s]}))
                outs = [(q.get(sp), v) for q, v in o.ret] + [(q.get(sp), None) for q in o.fall]
                what = "%s in state %s" % (m, s)
                if m in exp:
                    e = exp[m](s)
                    if e is None:
                        if outs:
                            rep.bad("table", "%s:%s" % (m, s), f.where(), "%s() is accepted in state %s although the other copy is newer" % (m, s))
                        else:
                            rep.ok("table", f.where(), what + " is refused")
                    elif o.thr or not outs or any(z != val[e] for z, _ in outs):
                        rep.bad("table", "%s:%s" % (m, s), f.where(), "%s() in state %s %s instead of changing to %s" %
                                (m, s, "fails" if o.thr else "changes to %s" % ",".join(sorted({self.enums.get(z, "?") for z, _ in outs})), e))
                    else:
                        rep.ok("table", f.where(), what)
                else:
                    e = s == ("dev_mod" if m == "need_to_update_host" else "host_mod")
                    if o.thr or any(v is None for _, v in outs):
                        rep.skip("table", f.where(), what + " has no known value")
                    elif any(bool(v) != e for _, v in outs) or any(z != val[s] for z, _ in outs):
                        rep.bad("table", "%s:%s" % (m, s), f.where(), "%s() is %s in state %s" % (m, not e, s))
                    else:
                        rep.ok("table", f.where(), what)

    # -- rules copy and sync
    def sync(self):
        rep, P = self.rep, self.P
        probe = Sync(P, rep, self.enums)
        roots = []
        fam = ("YkVarImpl", "YkVarBase", "YkElemVar", "YkVecVar")
        for f in P.real_fns():
            if f.body is None:
                continue
            c = strip_targs(f.n).split("::")
            if len(c) != 3 or c[1] not in fam:
                continue
            dev = [q for q in f.params if (q.get("t") or "") == "bool" and "device" in q["n"]]
            m = f.short
            if m in ("copy_data_to_device", "copy_data_from_device"):
                roots.append((f, "copy", None))
            elif c[1] == "YkVarImpl" and self.acc(probe, f) or m.startswith("set_all_elements"):
                roots.append((f, "sync", None))
            elif dev and not m.startswith("_"):
                if self.acc(probe, f):
                    roots.append((f, "sync", dev[0]))
        one = {}
        for f, rule, dev in roots:
            one.setdefault(f.where(), (f, rule, dev))
        for f, rule, dev in one.values():
            for coh in ("host_mod", "dev_mod", "in_sync"):
                for d in ((True, False) if dev is not None else (None,)):
                    t = Sync(P, rep, self.enums)
                    st = St({"coh": coh})
                    if dev is not None:
                        st = st.set(("v", dev["d"], dev["n"]), d)
                    key = "%s:%s%s" % (strip_targs(f.n).split("::", 1)[1], coh, "" if d is None else ":device" if d else ":host")
                    what = "%s from %s%s" % (strip_targs(f.n).split("::", 1)[1], coh, "" if d is None else " on device" if d else " on host")
                    try:
                        o = t.run(f, st)
                    except Explode as e:
                        rep.skip(rule, f.where(), what + ": too many states")
                        continue
                    self.seen |= {g.u for g in t.seen_fns}
                    ends = o.fall + [q for q, _ in o.ret]
                    err = t.err
                    if err is None:
                        for q in ends:
                            if q.get("hw") or q.get("dw"):
                                err = (None, "the %s copy is written but not marked as modified" % ("host" if q.get("hw") else "device"))
                            elif q["coh"] == "not_init":
                                err = (None, "the state is left as not initialised")
                            elif m_is(f, "copy_data_to_device") and coh == "host_mod" and q["coh"] != "in_sync" or m_is(f, "copy_data_from_device") and coh == "dev_mod" and q["coh"] != "in_sync":
                                err = (None, "the copies are not in sync afterwards")
                            if err:
                                break
                    if err is not None:
                        n, msg = err
                        rep.bad(rule, key, P.at(n) if n is not None else f.where(), "%s: %s" % (what, msg))
                    else:
                        rep.ok(rule, f.where(), what)

    def acc(self, probe, f):
        """Can this function access elements?"""
        if not probe.reaches(f):
            return False
        work, seen = [f], set()
        while work:
            g = work.pop()
            if g.u in seen:
                continue
            seen.add(g.u)
            for n in g.nodes():
                if n["k"] == "call":
                    if ACC.match(nm(n)) or nm(n) in ("get_vec_ptr_norm", "get_elem_ptr"):
                        return True
                    work += [t for t in self.P.targets(n) if t.body is not None]
        return False

    # -- rule eval
    def evals(self):
        rep, P = self.rep, self.P
        calls = {}
        for f in P.real_fns():
            for n in f.nodes():
                if n["k"] == "call":
                    calls.setdefault(nm(n), set()).add(f.u)
        for need, ev, undo, what in (("copy_data_to_device", ("calc_mega_block", "exchange_halos"), ("call_2idx_hooks", "call_1ptr_hooks"), "on the device before evaluation"),
                                     ("copy_data_from_device", ("compare",), (), "on the host before comparison")):
            us = set()
            for e in ev:
                us |= calls.get(e, set())
            for u in sorted(us):
                f = P.fns[u]
                if "StencilContext" not in f.n or f.short in ("run_ref", "calc_mega_block") or f.short in ev:
                    continue
                t = Eval(P, need, ev, undo, stop=("calc_mega_block", "run_ref"))
                if f.short == "exchange_halos" or not any(nm(n) in ev for n in f.nodes() if n["k"] == "call"):
                    continue
                # a helper of functions that have copied already
                try:
                    t.run(f)
                except Explode:
                    rep.skip("eval", f.where(), f.short)
                    continue
                if t.miss and not self.covered(f, need, ev, undo):
                    rep.bad("eval", "%s:%s" % (f.short, need), P.at(t.miss[0]), "%s() is reached in %s without all vars having been made current %s" % (nm(t.miss[0]), f.short, what))
                elif t.hit or t.miss:
                    rep.ok("eval", f.where(), "%s: all vars are current %s" % (f.short, what))

    def covered(self, f, need, ev, undo):
        """Is every call of f made where the copying has been done?"""
        P = self.P
        n = 0
        for g in P.real_fns():
            if g.body is None or not any(x["k"] == "call" and f.u in {t.u for t in P.targets(x)} for x in g.nodes()):
                continue
            if g.short == "run_ref":
                continue
            t = Eval(P, need, (f.short,), undo, stop=("run_ref",))
            t.run(g)
            if t.miss:
                return False
            n += 1
        return n > 0

    # -- rule all
    def marks(self):
        """What a part writes is marked."""
        rep, P = self.rep, self.P
        for f in P.real_fns():
            if f.body is None or strip_targs(f.n) != "yask::StencilPartBase::calc_micro_block":
                continue
            t = Marks(P)
            o = t.run(f)
            ends = o.fall + [q for q, _ in o.ret]
            if not t.calcs:
                rep.skip("all", f.where(), "no evaluation found")
            elif any(q.get("w") and not q.get("m") for q in ends):
                rep.bad("all", "calc_micro_block", f.where(), "a part is evaluated on the device without its output vars being marked as modified there")
            else:
                rep.ok("all", f.where(), "calc_micro_block marks what it evaluates (%d sites)" % len(t.calcs))
        for f in P.real_fns():
            if f.body is None or strip_targs(f.n) != "yask::StencilPartBase::update_var_info":
                continue
            ps = [q for q in f.params if (q.get("t") or "") == "bool"]
            dv = [q for q in ps if "dev" in q["n"]]
            if not dv:
                rep.skip("all", f.where(), "no parameter tells whether device data was modified")
                continue
            for val in (True, False):
                t = Marked(P)
                o = t.run(f, St({("v", dv[0]["d"], dv[0]["n"]): val}))
                ok = t.body and all(q.get("one") for q in t.body) if val else not t.any
                if ok:
                    rep.ok("all", f.where(), "update_var_info %s its output vars" % ("marks all" if val else "leaves"))
                else:
                    rep.bad("all", "update_var_info:%s" % val, f.where(), "an output var is %s as modified on the device" % ("not marked" if val else "marked although it is not"))

    # -- rule place
    def places(self):
        rep, P = self.rep, self.P
        okfn = ("update_var_info", "init_values")
        for f in P.real_fns():
            if f.body is None or "Coherency::" in f.n:
                continue
            for n in f.nodes():
                if coh_call(n) and nm(n) in ("mod_host", "mod_dev", "mod_both", "host_copied_to_dev", "dev_copied_to_host", "_force_state"):
                    if f.u in self.seen or f.short in okfn:
                        rep.ok("place", P.at(n), "%s in %s" % (nm(n), f.short))
                    else:
                        rep.skip("place", P.at(n), "%s in %s, which no analysed function calls" % (nm(n), f.short))


def m_is(f, n):
    return f.short == n


class Marks(TS):
    max_depth = 6

    def __init__(self, P):
        super().__init__(P)
        self.calcs = []

    def interesting(self, x):
        return nm(x).startswith("calc_nano_block") or nm(x) == "mod_dev" or nm(x) == "get_output_step_index"

    def on_call(self, x, fr, st):
        n = nm(x)
        if n == "get_output_step_index":
            return [(st, True)]      # outputs without a step index are scratch vars
        if n == "mod_dev":
            return [(st.set("m", True), None)]
        self.calcs.append(x)
        return [(st.set("w", True), None)]

    def loop(self, s, fr, st, o):
        n = len(o.fall)
        super().loop(s, fr, st, o)
        if over(s) is not None:
            hit = [q for q in o.fall[n:] if q.get("m") != st.get("m")]
            if hit:
                o.fall[n:] = hit


class Marked(TS):
    max_depth = 4

    def __init__(self, P):
        super().__init__(P)
        self.body, self.any = [], False

    def interesting(self, x):
        return nm(x) in ("mod_dev", "get_output_step_index")

    def on_call(self, x, fr, st):
        if nm(x) == "get_output_step_index":
            return [(st, True)]
        self.any = True
        return [(st.set("one", True), None)]

    def loop(self, s, fr, st, o):
        if "output_var_ptrs" in (over(s) or ""):
            b = self.exec(s["b"], fr, st.set("one", None))
            self.body += b.fall + b.cont + [q.set("one", None) for q in b.brk]
        super().loop(s, fr, st, o)


def check(rep, tier):
    P = facts.load_kernel("N", ("-DUSE_OFFLOAD",))
    C02(rep, P).run()
