"""Program walkers built on the normaliser.

collect():  all (inlined) events below a root function together with the path
            condition guarding each (helpers and lambdas are entered).
TypeState:  interprocedural finite-automaton analysis; every structured path is
            covered, branches are correlated through conditions whose operands
            are not modified in between.
"""
from collections import namedtuple
from .ir import walk, children, strip_targs, lv_root
from .sym import (Frame, Sym, as_list, always_exits, always_leaves, always_throws, lambda_frame,
                  mk_not, truth, fmt, subterms, is_ref_type)

Event = namedtuple("Event", "node frame guards seq trail")


class Loop:
    """Guard marking a loop body."""
    __slots__ = ("kind", "node", "frame")

    def __init__(self, kind, node, frame):
        self.kind, self.node, self.frame = kind, node, frame


class Collector:
    def __init__(self, prog, sym=None, enter=None, max_depth=12, max_nodes=400000, stop=None):
        self.prog = prog
        self.sym = sym or Sym(prog)
        self.enter = enter                  # predicate(fn, call) -> inline this callee?
        self.stop = stop                    # predicate(call node): treat as opaque
        self.max_depth = max_depth
        self.budget = max_nodes
        self.events = []
        self.stack = []
        self.trail = []

    def run(self, fn, frame=None):
        frame = frame or Frame(fn)
        self.stack.append(fn.u)
        g = []
        for i in fn.get("ci", ()):
            if i.get("e"):
                self.expr(i["e"], frame, g)
                self.events.append(Event({"k": "ctorinit", "l": fn.loc, "f": i.get("f"), "e": i["e"], "i": i}, frame, tuple(g), len(self.events), tuple(self.trail)))
        self.stmt(fn.body, frame, g)
        self.stack.pop()
        return self.events

    def emit(self, node, fr, g):
        self.events.append(Event(node, fr, tuple(g), len(self.events), tuple(self.trail)))
        if len(self.events) > self.budget:
            raise RuntimeError("collector budget exceeded")

    # statements; g is a mutable list: guards of the current position.
    def stmt(self, s, fr, g):
        if s is None:
            return
        k = s["k"]
        if k == "seq":
            n0 = len(g)
            for y in s["s"]:
                self.stmt(y, fr, g)
            # guards added by early exits stay in force for what follows in the
            # enclosing sequence only if this block always is on the path: keep.
            return
        if k == "decl":
            for v in s["v"]:
                if v.get("init") is not None:
                    self.expr(v["init"], fr, g)
                self.emit({"k": "vardecl", "l": s["l"], "v": v}, fr, g)
            return
        if k == "if":
            self.stmt(s.get("init"), fr, g)
            self.stmt(s.get("cvar"), fr, g)
            self.expr(s["c"], fr, g)
            c = self.sym.cond(s["c"], fr)
            self.stmt(s["t"], fr, list(g) + [(c, True)])
            self.stmt(s.get("e"), fr, list(g) + [(c, False)])
            if always_exits(s["t"]) and not always_exits(s.get("e")):
                g.append((c, False))
            elif s.get("e") is not None and always_exits(s["e"]):
                g.append((c, True))
            return
        if k in ("for", "while", "do"):
            self.stmt(s.get("init"), fr, g)
            self.stmt(s.get("cvar"), fr, g)
            g2 = list(g) + [Loop(k, s, fr)]
            if s.get("c") is not None:
                self.expr(s["c"], fr, g2 if k != "do" else list(g))
            if k == "do":
                c = self.sym.cond(s["c"], fr)
                if c == ("lit", False):
                    self.stmt(s["b"], fr, g)   # do { } while (0)
                    return
            self.stmt(s["b"], fr, list(g2))
            if s.get("inc") is not None:
                self.expr(s["inc"], fr, g2)
            return
        if k == "rfor":
            self.expr(s["r"], fr, g)
            self.stmt(s["b"], fr, list(g) + [Loop(k, s, fr)])
            return
        if k == "switch":
            self.expr(s["c"], fr, g)
            c = self.sym.norm(s["c"], fr)
            cur = None
            labs, left = [], True
            for y in as_list(s["b"]):
                lab = []
                while y is not None and y["k"] in ("case", "default"):
                    lab.append(("case", c, self.sym.norm(y["v"], fr) if y["k"] == "case" else None))
                    y = y["s"]
                if lab:
                    labs = lab if left else labs + lab      # fall-through
                    left = False
                    cur = list(g) + [(("case", c, tuple(labs)), True)]
                if y is not None:
                    self.stmt(y, fr, cur if cur is not None else list(g))
                    left = left or always_exits(y)
            return
        if k in ("case", "default"):
            self.stmt(s["s"], fr, g)
            return
        if k == "ret":
            if s["e"] is not None:
                self.expr(s["e"], fr, g)
            self.emit(s, fr, g)
            return
        if k == "try":
            self.stmt(s["b"], fr, g)
            for h in s["h"]:
                self.stmt(h["b"], fr, list(g) + [(("catch", h["t"]), True)])
            return
        if k == "omp":
            for c in s["cl"]:
                for y in c["a"]:
                    if c["c"] in ("if", "num_threads", "device"):
                        self.expr(y, fr, g)
            self.stmt(s["b"], fr, list(g) + [Loop("omp", s, fr)])
            return
        if k in ("break", "continue", "nop", "stmt?"):
            self.emit(s, fr, g)
            return
        self.expr(s, fr, g)

    def expr(self, x, fr, g):
        if x is None:
            return
        k = x["k"]
        if k == "lambda":
            return
        if k == "bin" and x["op"] in ("&&", "||"):
            self.expr(x["a"], fr, g)
            c = self.sym.cond(x["a"], fr)
            self.expr(x["b"], fr, list(g) + [(c, x["op"] == "&&")])
            self.emit(x, fr, g)
            return
        if k == "cond":
            self.expr(x["c"], fr, g)
            c = self.sym.cond(x["c"], fr)
            self.expr(x["a"], fr, list(g) + [(c, True)])
            self.expr(x["b"], fr, list(g) + [(c, False)])
            self.emit(x, fr, g)
            return
        if k == "stmtexpr":
            self.stmt(x["s"], fr, g)
            return
        for y in children(x):
            self.expr(y, fr, g)
        self.emit(x, fr, g)
        if k == "call":
            self.call(x, fr, g)
        elif k == "ctor":
            self.lambda_args(x, fr, g)

    def lambda_args(self, x, fr, g):
        """Lambdas handed to code we do not enter: executed zero or more times."""
        for a in x.get("a") or []:
            if a is None:
                continue
            ln, lf = self.sym.resolve(a, fr)
            if ln is not None and ln["k"] == "lambda":
                self.trail.append(x)
                f2 = lambda_frame(ln, lf, [], fr)
                self.stmt(ln["b"], f2, list(g) + [Loop("lambda", x, fr)])
                self.trail.pop()

    def call(self, x, fr, g):
        if self.stop is not None and self.stop(x):
            return
        if fr.depth >= self.max_depth:
            return
        obj = x.get("obj")
        tgt = obj if (x.get("op") == "()" and obj is not None) else x.get("callee")
        if tgt is not None:
            ln, lf = self.sym.resolve(tgt, fr)
            if ln is not None and ln["k"] == "lambda":
                key = (id(ln),)
                if self.stack.count(key) > 1:
                    return
                self.stack.append(key)
                self.trail.append(x)
                self.stmt(ln["b"], lambda_frame(ln, lf, x.get("a") or [], fr), list(g))
                self.trail.pop()
                self.stack.pop()
                return
        ts = self.prog.targets(x)
        if not ts:
            self.lambda_args(x, fr, g)
            return
        entered = False
        for t in ts:
            if t.dep or t.body is None:
                continue
            if self.enter is not None and not self.enter(t, x):
                continue
            if t.u in self.stack:
                continue
            entered = True
            self.stack.append(t.u)
            self.trail.append(x)
            g2 = list(g)
            if len(ts) > 1:
                g2.append((("dispatch", t.n), True))
            f2 = self.sym.call_frame(x, t, fr)
            for i in t.get("ci", ()):
                if i.get("e"):
                    self.expr(i["e"], f2, g2)
            self.stmt(t.body, f2, g2)
            self.trail.pop()
            self.stack.pop()
        if not entered:
            self.lambda_args(x, fr, g)


def collect(prog, fn, sym=None, enter=None, stop=None, max_depth=12):
    return Collector(prog, sym, enter, max_depth, stop=stop).run(fn)


def guard_conds(ev):
    """Path conditions of an event as a list of canonical truths."""
    out = []
    for g in ev.guards:
        if isinstance(g, tuple):
            c, pol = g
            if c[0] in ("case", "catch", "dispatch"):
                out.append(c)
            else:
                out.append(c if pol else mk_not(c))
    return out


def flat_and(conds):
    out = []
    for c in conds:
        if c[0] == "bin" and c[1] == "&&":
            out += list(c[2:])
        else:
            out.append(c)
    return out


# ----------------------------------------------------------------------------
class ModRef:
    """Fields (by name) a function may modify, transitively."""

    def __init__(self, prog):
        self.prog = prog
        self.direct = {}
        self.memo = {}

    def _direct(self, fn):
        r = self.direct.get(fn.u)
        if r is not None:
            return r
        mods, calls = set(), []
        for n in fn.nodes():
            k = n["k"]
            lvs = []
            if k == "asg":
                lvs.append(n["a"])
            elif k == "un" and n["op"] in ("++", "--"):
                lvs.append(n["e"])
            elif k in ("call", "ctor"):
                a = n.get("a") or []
                for i in n.get("mr", ()):
                    if i < len(a) and a[i] is not None:
                        lvs.append(a[i])
                if n.get("obj") is not None and not n.get("cst") and not n.get("static"):
                    if not self.prog.targets(n):
                        lvs.append(n["obj"])
                calls.append(n)
            for lv in lvs:
                for m in walk(lv):
                    if m["k"] == "mem":
                        mods.add(strip_targs(m["f"]))
                        break
                    if m["k"] == "idx" or m["k"] == "cast" or m["k"] == "un" or (m["k"] == "call" and m.get("op") in ("[]", "->", "*")):
                        continue
                    if m["k"] == "call":
                        continue
                    if m["k"] == "ref":
                        break
        for i in fn.get("ci", ()):
            if i.get("f"):
                mods.add(strip_targs(i["f"]))
        r = (mods, calls)
        self.direct[fn.u] = r
        return r

    def mods(self, fn):
        if fn.u in self.memo:
            return self.memo[fn.u]
        seen, st, out = set(), [fn], set()
        while st:
            f = st.pop()
            if f.u in seen:
                continue
            seen.add(f.u)
            m, calls = self._direct(f)
            out |= m
            for c in calls:
                st.extend(self.prog.targets(c))
        self.memo[fn.u] = frozenset(out)
        return self.memo[fn.u]


class Reach:
    """Functions from which a node satisfying 'pred' is reachable."""

    def __init__(self, prog, pred):
        self.prog = prog
        callers = {}
        self.hit = set()
        st = []
        for f in prog.fns.values():
            found = False
            for n in f.nodes():
                if not found and pred(n, f):
                    found = True
                if n["k"] in ("call", "ctor"):
                    for t in prog.targets(n):
                        callers.setdefault(t.u, set()).add(f.u)
            if found:
                st.append(f.u)
        while st:
            u = st.pop()
            if u in self.hit:
                continue
            self.hit.add(u)
            st.extend(callers.get(u, ()))

    def __contains__(self, fn):
        return fn.u in self.hit


class Outcome:
    __slots__ = ("norm", "brk", "cont", "ret", "thr")

    def __init__(self):
        self.norm, self.brk, self.cont, self.ret, self.thr = {}, {}, {}, {}, {}


def merge(dst, src):
    for k, v in src.items():
        if k not in dst:
            dst[k] = v


class TypeState:
    """Path-covering automaton analysis.

    A state is (q, facts).  The client supplies
      label(node, frame) -> event label or None
      step(q, label, node, frame) -> iterable of q'    (may call self.report)
      relevant(fn) -> bool: enter the callee?
      on_decl / on_cond hooks optional.
    """
    max_states = 4000

    def __init__(self, prog, sym=None, max_depth=14, track=None, throws=True):
        self.prog = prog
        self.sym = sym or Sym(prog)
        self.modref = ModRef(prog)
        self.max_depth = max_depth
        self.stack = []
        self.memo = {}
        self.violations = {}
        self.track = track           # predicate(cond norm) -> keep as fact
        self.throws = throws         # model exceptional exits of throw expressions
        self.n_events = 0
        self.n_paths = 0
        self.entered = set()

    # -- client interface (override).
    def label(self, node, fr):
        return None

    def step(self, q, label, node, fr):
        return (q,)

    def relevant(self, fn):
        return False

    def report(self, key, msg, trace):
        if key not in self.violations:
            self.violations[key] = (msg, trace)

    # -- driver.
    def start(self, fn, q0, frame=None):
        fr = frame or Frame(fn)
        self.stack.append(fn.u)
        o = Outcome()
        st = {(q0, frozenset()): ()}
        for i in fn.get("ci", ()):
            if i.get("e"):
                st = self.expr(i["e"], fr, st, o)
        r = self.stmt(fn.body, fr, st)
        merge(r.ret, r.norm)
        merge(r.thr, o.thr)
        self.stack.pop()
        return r

    # -- statements.
    def stmt(self, s, fr, st):
        o = Outcome()
        if s is None or not st:
            o.norm = st
            return o
        k = s["k"]
        if k == "seq":
            cur = st
            for y in s["s"]:
                if y is None:
                    continue
                r = self.stmt(y, fr, cur)
                self._acc(o, r)
                cur = r.norm
                if not cur:
                    break
            o.norm = cur
            return o
        if k == "decl":
            cur = st
            for v in s["v"]:
                if v.get("init") is not None:
                    cur = self.expr(v["init"], fr, cur, o)
                cur = self.apply({"k": "vardecl", "l": s["l"], "v": v}, fr, cur)
            o.norm = cur
            return o
        if k == "if":
            cur = st
            for z in ("init", "cvar"):
                if s.get(z):
                    r = self.stmt(s[z], fr, cur)
                    self._acc(o, r)
                    cur = r.norm
            cur = self.expr(s["c"], fr, cur, o)
            tt, ff = self.split(s["c"], fr, cur)
            r1 = self.stmt(s["t"], fr, tt)
            r2 = self.stmt(s.get("e"), fr, ff)
            self._acc(o, r1)
            self._acc(o, r2)
            o.norm = dict(r1.norm)
            merge(o.norm, r2.norm)
            return o
        if k in ("for", "while", "rfor"):
            cur = st
            if s.get("init"):
                r = self.stmt(s["init"], fr, cur)
                self._acc(o, r)
                cur = r.norm
            if k == "rfor":
                cur = self.expr(s["r"], fr, cur, o)
            seen = {}
            work = cur
            exits = {}
            atleast = self.at_least_once(s, fr)
            first = True
            while work:
                new = {a: b for a, b in work.items() if a not in seen}
                merge(seen, new)
                if not new:
                    break
                if len(seen) > self.max_states:
                    raise RuntimeError("state explosion in loop")
                c = new
                if s.get("cvar"):
                    r = self.stmt(s["cvar"], fr, c)
                    self._acc(o, r)
                    c = r.norm
                if s.get("c") is not None:
                    c = self.expr(s["c"], fr, c, o)
                    tt, ff = self.split(s["c"], fr, c)
                else:
                    tt, ff = c, (c if k == "rfor" else {})
                if not (first and atleast):
                    merge(exits, ff)
                r = self.stmt(s["b"], fr, tt)
                merge(o.ret, r.ret)
                merge(o.thr, r.thr)
                merge(exits, r.brk)
                nxt = dict(r.norm)
                merge(nxt, r.cont)
                if s.get("inc") is not None:
                    nxt = self.expr(s["inc"], fr, nxt, o)
                nxt = self.drop_loop_facts(s, nxt)
                if first and atleast:
                    seen = {}
                first = False
                work = nxt
            o.norm = exits
            return o
        if k == "do":
            seen, work, exits = {}, st, {}
            c0 = self.sym.cond(s["c"], fr)
            while work:
                new = {a: b for a, b in work.items() if a not in seen}
                merge(seen, new)
                if not new:
                    break
                r = self.stmt(s["b"], fr, new)
                merge(o.ret, r.ret)
                merge(o.thr, r.thr)
                merge(exits, r.brk)
                nxt = dict(r.norm)
                merge(nxt, r.cont)
                nxt = self.expr(s["c"], fr, nxt, o)
                tt, ff = self.split(s["c"], fr, nxt)
                merge(exits, ff)
                work = tt if c0 != ("lit", False) else {}
            o.norm = exits
            return o
        if k == "switch":
            cur = self.expr(s["c"], fr, st, o)
            fall = {}
            hasdef = False
            for y in as_list(s["b"]):
                lab = False
                while y is not None and y["k"] in ("case", "default"):
                    lab = True
                    hasdef |= y["k"] == "default"
                    y = y["s"]
                if lab:
                    fall = dict(fall)
                    merge(fall, cur)
                if y is None:
                    continue
                r = self.stmt(y, fr, fall)
                merge(o.ret, r.ret)
                merge(o.thr, r.thr)
                merge(o.cont, r.cont)
                merge(o.norm, r.brk)
                fall = r.norm
            merge(o.norm, fall)
            if not hasdef:
                merge(o.norm, cur)
            return o
        if k == "ret":
            cur = st
            if s["e"] is not None:
                cur = self.expr(s["e"], fr, cur, o)
            cur = self.apply(s, fr, cur)
            merge(o.ret, cur)
            return o
        if k == "break":
            o.brk = st
            return o
        if k == "continue":
            o.cont = st
            return o
        if k == "try":
            r = self.stmt(s["b"], fr, st)
            self._acc(o, r, thr=False)
            o.norm = dict(r.norm)
            catchall = False
            for h in s["h"]:
                # An exception may come from any point of the block.
                ent = dict(r.thr)
                merge(ent, st)
                q = self.stmt(h["b"], fr, ent)
                self._acc(o, q)
                merge(o.norm, q.norm)
            merge(o.thr, r.thr if not s["h"] else {})
            return o
        if k == "omp":
            cur = st
            cur = self.apply(s, fr, cur)
            r = self.stmt(s["b"], fr, cur)
            self._acc(o, r)
            o.norm = dict(r.norm)
            return o
        if k in ("nop", "stmt?"):
            o.norm = st
            return o
        if k in ("case", "default"):
            return self.stmt(s["s"], fr, st)
        cur = self.expr(s, fr, st, o)
        o.norm = cur
        return o

    def _acc(self, o, r, thr=True):
        merge(o.brk, r.brk)
        merge(o.cont, r.cont)
        merge(o.ret, r.ret)
        if thr:
            merge(o.thr, r.thr)

    def at_least_once(self, s, fr):
        return False

    def drop_loop_facts(self, s, st):
        # The loop variable changes: forget facts about variables declared in the loop.
        ds = set()
        for n in walk(s):
            if n["k"] == "decl":
                for v in n["v"]:
                    ds.add(v["d"])
            elif n["k"] == "rfor":
                ds.add(n["v"]["d"])
        rng = None
        out = {}
        isr = s["k"] == "rfor"
        for (q, facts), tr in st.items():
            keep = []
            for c, v in facts:
                bad = False
                for t in subterms(c):
                    if t[0] == "var" and t[1] in ds:
                        bad = True
                    if isr and t[0] == "elem":
                        bad = True
                if not bad:
                    keep.append((c, v))
            out.setdefault((q, frozenset(keep)), tr)
        return out

    # -- conditions.
    def split(self, cnode, fr, st):
        c = self.sym.cond(cnode, fr)
        if c == ("lit", True):
            return st, {}
        if c == ("lit", False):
            return {}, st
        neg = False
        key = c
        if c[0] == "un" and c[1] == "!":
            key, neg = c[2], True
        tt, ff = {}, {}
        trackit = self.track is None or self.track(key)
        for (q, facts), tr in st.items():
            known = dict(facts).get(key) if trackit else None
            val = self.evalc(c, dict(facts))
            for want, dst in ((True, tt), (False, ff)):
                if val is not None and val != want:
                    continue
                nf = facts
                if trackit and known is None:
                    nf = facts | {(key, want != neg)}
                    # conjunction known true: each conjunct is true (dually for ||).
                    if c[0] == "bin" and ((c[1] == "&&" and want) or (c[1] == "||" and not want)):
                        for y in c[2:]:
                            yk, yv = (y[2], False) if (y[0] == "un" and y[1] == "!") else (y, True)
                            if c[1] == "||":
                                yv = not yv
                            if self.track is None or self.track(yk):
                                nf = nf | {(yk, yv)}
                q2 = self.on_cond(q, c, want, cnode, fr)
                if q2 is None:
                    continue
                dst.setdefault((q2, nf), tr)
        return tt, ff

    def on_cond(self, q, cond, value, node, fr):
        return q

    def evalc(self, c, facts):
        if c in facts:
            return facts[c]
        if c[0] == "lit" and isinstance(c[1], bool):
            return c[1]
        if c[0] == "un" and c[1] == "!":
            v = self.evalc(c[2], facts)
            return None if v is None else not v
        if c[0] == "bin" and c[1] in ("&&", "||"):
            vs = [self.evalc(y, facts) for y in c[2:]]
            if c[1] == "&&":
                if False in vs:
                    return False
                return True if all(v is True for v in vs) else None
            if True in vs:
                return True
            return False if all(v is False for v in vs) else None
        # mk_not() turns !(a<b) into b<=a.
        n = mk_not(c)
        if n in facts:
            return not facts[n]
        return None

    def kill(self, st, fields=(), vars=()):
        """Forget facts that mention a modified field or variable."""
        if not fields and not vars:
            return st
        out = {}
        for (q, facts), tr in st.items():
            keep = facts
            for c, v in facts:
                for t in subterms(c):
                    if (t[0] == "fld" and t[1] in fields) or (t[0] == "var" and t[1] in vars) or \
                       (t[0] == "parm" and t[2] in vars):
                        keep = keep - {(c, v)}
                        break
            out.setdefault((q, keep), tr)
        return out

    # -- expressions (evaluation order: operands first).
    def expr(self, x, fr, st, o):
        if x is None or not st:
            return st
        k = x["k"]
        if k == "lambda":
            return st
        if k == "bin" and x["op"] in ("&&", "||"):
            st = self.expr(x["a"], fr, st, o)
            tt, ff = self.split(x["a"], fr, st)
            if x["op"] == "&&":
                r = self.expr(x["b"], fr, tt, o)
                out = dict(ff)
            else:
                r = self.expr(x["b"], fr, ff, o)
                out = dict(tt)
            merge(out, r)
            return out
        if k == "cond":
            st = self.expr(x["c"], fr, st, o)
            tt, ff = self.split(x["c"], fr, st)
            out = dict(self.expr(x["a"], fr, tt, o))
            merge(out, self.expr(x["b"], fr, ff, o))
            return out
        if k == "stmtexpr":
            r = self.stmt(x["s"], fr, st)
            self._acc(o, r)
            return r.norm
        for y in children(x):
            st = self.expr(y, fr, st, o)
        if k == "throw":
            st = self.apply(x, fr, st)
            merge(o.thr, st)
            return {}
        st = self.apply(x, fr, st)
        if k == "call" and x.get("noret"):
            return {}
        if k in ("call", "ctor"):
            st = self.call(x, fr, st, o)
        elif k == "asg" or (k == "un" and x["op"] in ("++", "--")):
            st = self.kill_lv(x["a"] if k == "asg" else x["e"], fr, st)
        return st

    def kill_lv(self, lv, fr, st):
        n = self.sym.norm(lv, fr)
        while n[0] in ("idx", "cast"):
            n = n[1] if n[0] == "idx" else n[2]
        if n[0] == "fld":
            return self.kill(st, fields={n[1]})
        if n[0] == "var":
            return self.kill(st, vars={n[1]})
        if n[0] == "parm":
            return self.kill(st, vars={n[2]})
        return st

    def apply(self, x, fr, st):
        lab = self.label(x, fr)
        if lab is None:
            return st
        self.n_events += 1
        out = {}
        at = "%s (%s)" % (lab if isinstance(lab, str) else " ".join(str(y) for y in lab if isinstance(y, str)), self.prog.at(x))
        for (q, facts), tr in st.items():
            self.cur_trace = tr
            self.cur_facts = facts
            tr2 = (tr + (at,))[-14:]
            for q2 in self.step(q, lab, x, fr):
                out.setdefault((q2, facts), tr2)
        if len(out) > self.max_states:
            raise RuntimeError("state explosion")
        return out

    def call(self, x, fr, st, o):
        obj = x.get("obj")
        tgt = obj if (x.get("op") == "()" and obj is not None) else x.get("callee")
        if tgt is not None:
            ln, lf = self.sym.resolve(tgt, fr)
            if ln is not None and ln["k"] == "lambda":
                return self.enter_lambda(ln, lf, x.get("a") or [], fr, st, o)
        ts = [t for t in self.prog.targets(x) if t.body is not None]
        rel = [t for t in ts if not t.dep and self.relevant(t) and t.u not in self.stack]
        mods = set()
        for t in ts:
            if t not in rel:
                mods |= self.modref.mods(t)
        out = {}
        if rel and fr.depth < self.max_depth:
            for t in rel:
                self.entered.add(t.u)
                merge(out, self.enter(t, x, fr, st, o))
            if len(rel) < len(ts):
                merge(out, self.kill(st, fields=mods))
        else:
            out = self.kill(st, fields=mods) if mods else st
            if not ts:
                # lambda arguments of external calls: zero or more executions.
                for a in x.get("a") or []:
                    if a is None:
                        continue
                    ln, lf = self.sym.resolve(a, fr)
                    if ln is not None and ln["k"] == "lambda":
                        seen, work = dict(out), out
                        for _ in range(6):
                            nx = self.enter_lambda(ln, lf, [], fr, work, o)
                            new = {p: q for p, q in nx.items() if p not in seen}
                            merge(seen, new)
                            work = new
                            if not new:
                                break
                        out = seen
        # references passed to be modified.
        a = x.get("a") or []
        for i in x.get("mr", ()):
            if i < len(a) and a[i] is not None:
                out = self.kill_lv(a[i], fr, out)
        if not ts and obj is not None and not x.get("cst") and not x.get("static") and x.get("op") not in ("->", "*", "[]"):
            out = self.kill_lv(obj, fr, out)
        return out

    def enter_lambda(self, ln, lf, args, fr, st, o):
        key = ("lambda", id(ln))
        if self.stack.count(key) >= 1 or fr.depth >= self.max_depth:
            return st
        self.stack.append(key)
        r = self.stmt(ln["b"], lambda_frame(ln, lf, args, fr), st)
        self.stack.pop()
        merge(o.thr, r.thr)
        out = dict(r.norm)
        merge(out, r.ret)
        return out

    def enter(self, t, x, fr, st, o):
        f2 = self.sym.call_frame(x, t, fr)
        self.stack.append(t.u)
        cur = st
        for i in t.get("ci", ()):
            if i.get("e"):
                cur = self.expr(i["e"], f2, cur, o)
        r = self.stmt(t.body, f2, cur)
        self.stack.pop()
        merge(o.thr, r.thr)
        out = dict(r.norm)
        merge(out, r.ret)
        # facts about the callee's own locals are dead (keep only caller-visible ones).
        ds = set(t.locals())
        res = {}
        for (q, facts), tr in out.items():
            keep = frozenset((c, v) for c, v in facts if not any(y[0] == "var" and y[1] in ds for y in subterms(c)))
            res.setdefault((q, keep), tr)
        return res
