"""Forward value-flow over statement sequences.

Flow keeps an environment  lvalue-term -> value-term  and updates it strongly
statement by statement, so that values are expressed over the state at entry.
Branches are merged with conditional terms; loops are summarised: everything a
loop body may assign becomes an unknown of that loop ('phi', id, key)."""
from .ir import walk, children, strip_targs, lv_root
from .sym import (Sym, Frame, as_list, mk_bin, mk_cat, mk_cond, mk_not, truth, lambda_frame, subterms, nonnull, is_ref_type, fmt,
                  always_exits)


class State:
    __slots__ = ("env", "dead")

    def __init__(self, env=None):
        self.env = dict(env or {})

    def copy(self):
        return State(self.env)


class LoopInfo:
    """Summary of one loop: kind, header terms and per-iteration transfer."""

    def __init__(self):
        self.node = self.frame = None
        self.entry = {}        # key -> term before the loop (modified keys only)
        self.syms = {}         # key -> ('phi', id, key) symbol used inside the body
        self.exit = {}         # key -> term at end of one iteration, over the phi symbols
        self.cond = None       # loop condition over the phi symbols
        self.var = None        # iteration variable term (range-for element)
        self.range = None
        self.rets = []
        self.calls = []        # (node, frame, args terms, guards)
        self.stores = []       # (key, value) in order inside the body
        self.inner = []


class Flow(Sym):
    hook = None     # called as hook(flow, node, frame) at every call

    def __init__(self, prog, keep=(), max_depth=10, enter=None, opaque=()):
        super().__init__(prog, keep, max_depth)
        self.st = State()
        self.loops = []
        self.loopstack = []
        self.rets = []
        self.throws = []       # (guards, statement)
        self.calls = []
        self.guards = []
        self.enter_pred = enter
        self.opaque = set(opaque)
        self.nphi = 0
        self.objinit = {}
        self.cur = []

    # -- value lookup with the current environment.
    def resolve(self, node, fr, all_vals=True):
        for _ in range(50):
            if node is None:
                return node, fr
            k = node["k"]
            if k == "ref" and node.get("dk") in ("var", "parm", "slocal"):
                f, r = fr.find_local(node["d"])
                if r is None:
                    return node, fr
                kind, v = r
                if kind == "arg":
                    if v[0] is None:
                        return node, fr
                    if self.keyof(node, f) in self.st.env:
                        return node, fr
                    node, fr = v
                    continue
                if v["kind"] == "var" and v["v"].get("init") is not None:
                    init = v["v"]["init"]
                    n2 = init
                    while n2["k"] in ("cast",) or (n2["k"] == "ctor" and len(n2.get("a") or []) == 1 and n2["a"][0]):
                        n2 = n2["e"] if n2["k"] == "cast" else n2["a"][0]
                    k2 = ("var", node["d"], node["n"])
                    if v["v"].get("ref") or n2["k"] == "lambda" or \
                            (not v["mods"] and k2 not in self.st.env and k2 not in self.objinit):
                        node, fr = init, f
                        continue
                return node, fr
            n2, f2 = super().resolve(node, fr, False)
            if n2 is node:
                return node, fr
            node, fr = n2, f2
        return node, fr

    def keyof(self, node, fr):
        return ("var", node["d"], node["n"], fr.depth) if False else ("var", node["d"], node["n"])

    def norm(self, x, fr):
        if x is None:
            return ("none",)
        x, fr = self.resolve(x, fr)
        t = None
        if x["k"] == "ref" and x.get("dk") in ("var", "parm", "slocal"):
            kk = ("var", x["d"], x["n"])
            if kk in self.st.env:
                return self.st.env[kk]
            f, r = fr.find_local(x["d"])
            if r is not None and r[0] == "loc" and r[1]["kind"] == "rfor":
                return ("var", x["d"], x["n"])
        if x["k"] == "un" and x["op"] == "&":
            return self.lv(x["e"], fr)
        if x["k"] == "un" and x["op"] == "*":
            t = nonnull(self.norm(x["e"], fr))
            return self.st.env.get(t, t)
        if x["k"] == "asg" and x["op"] == "=":
            return self.norm(x["b"], fr)
        t = super().norm(x, fr)
        if t[0] in ("fld", "idx"):
            return self.st.env.get(t, t)
        return t

    def lv_val(self, v, fr):
        if v[0] == "e":
            return self.lv(v[1], fr)
        a, b = self.lv_val(v[2], fr), self.lv_val(v[3], fr)
        return nonnull(mk_cond(self.cond(v[1], fr), a, b))

    def lv(self, x, fr):
        """Key of an lvalue."""
        x, fr = self.resolve(x, fr)
        if x["k"] == "ref":
            if x.get("dk") in ("var", "parm", "slocal"):
                return ("var", x["d"], x["n"])
            return super().norm(x, fr)
        if x["k"] == "call" and x.get("obj") is not None and self.prog.targets(x):
            fn = self.single_target(x)
            if fn is not None:
                v = self.simple_value(fn)
                if v is not None:
                    t = self.lv_val(v, self.call_frame(x, fn, fr))
                    if t[0] in ("fld", "idx", "var", "parm"):
                        return t
        if x["k"] == "un" and x["op"] in ("*",):
            return nonnull(self.norm(x["e"], fr))
        if x["k"] == "un" and x["op"] == "&":
            return self.lv(x["e"], fr)
        if x["k"] == "null" or x["k"] == "zero":
            return ("lit", 0)
        if x["k"] == "cond":
            return nonnull(mk_cond(self.cond(x["c"], fr), self.lv(x["a"], fr), self.lv(x["b"], fr)))
        if x["k"] == "un" and x["op"] in ("++", "--") and not x.get("post"):
            return self.lv(x["e"], fr)
        if x["k"] == "asg":
            return self.lv(x["a"], fr)
        if x["k"] == "mem":
            return ("fld", strip_targs(x["f"]), self.lvbase(x["b"], fr))
        if x["k"] == "idx":
            return ("idx", self.lvbase(x["b"], fr), self.norm(x["i"], fr))
        if x["k"] == "call" and x.get("op") == "[]" and x.get("obj") is not None:
            return ("idx", self.lvbase(x["obj"], fr), self.norm(x["a"][0], fr))
        return super().norm(x, fr)

    def lvbase(self, x, fr):
        x2, f2 = self.resolve(x, fr)
        if x2["k"] in ("mem", "idx", "ref"):
            if x2["k"] == "ref" and x2.get("dk") in ("var", "parm", "slocal"):
                k = ("var", x2["d"], x2["n"])
                t = x2.get("t")
                if isinstance(t, str) and t.rstrip().endswith("*") and k in self.st.env:
                    return self.st.env[k]
                f, r = f2.find_local(x2["d"])
                if r is not None and r[0] == "loc" and r[1]["kind"] == "parm" and k not in self.st.env:
                    return super().norm(x2, f2)
                if r is None or r[0] == "loc":
                    return k
            else:
                return self.lv(x2, f2)
        return self.norm(x2, f2)

    def store(self, key, val):
        if val == key:
            self.st.env.pop(key, None)
        else:
            self.st.env[key] = val
        # stores below an updated aggregate are stale.
        for k in list(self.st.env):
            if k != key and contains(k, key) and k[0] in ("fld", "idx"):
                del self.st.env[k]
        for l in self.loopstack:
            l.stores.append((key, val, tuple(self.guards)))

    # -- execution.
    def run(self, fn, frame=None):
        fr = frame or Frame(fn)
        self.inits(fn, fr)
        self.exec(fn.body, fr)
        return self

    def inits(self, fn, fr):
        """Constructor initialisers, including those of base classes and delegated-to constructors."""
        for i in fn.get("ci", ()):
            e = i.get("e")
            if not e:
                continue
            self.ev(e, fr)
            if i.get("f"):
                self.store(("fld", strip_targs(i["f"]), ("this",)), self.norm(e, fr))
                continue
            x = e
            while x["k"] == "cast":
                x = x["e"]
            t = self.prog.fns.get(x.get("fn")) if x["k"] == "ctor" else None
            if t is not None and t.body is not None and not t.dep and fr.depth < self.max_depth:
                f2 = self.call_frame(x, t, fr)
                self.inits(t, f2)
                self.exec(t.body, f2)

    def exec(self, s, fr):
        """Returns False if control never falls out of s."""
        if s is None:
            return True
        k = s["k"]
        if k == "seq":
            return self.exec_list(s["s"], fr)
        if k == "decl":
            for v in s["v"]:
                if v.get("init") is not None:
                    self.ev(v["init"], fr)
                    if v.get("ref"):
                        continue
                    n2 = v["init"]
                    while n2["k"] == "cast":
                        n2 = n2["e"]
                    if n2["k"] == "lambda":
                        continue
                    if is_object(v, v["init"]):
                        # an object of its own: keep its identity, remember its initial value.
                        self.objinit[("var", v["d"], v["n"])] = self.norm(v["init"], fr)
                        continue
                    self.st.env[("var", v["d"], v["n"])] = self.norm(v["init"], fr)
            return True
        if k == "if":
            if s.get("init"):
                self.exec(s["init"], fr)
            if s.get("cvar"):
                self.exec(s["cvar"], fr)
            self.ev(s["c"], fr)
            c = self.cond(s["c"], fr)
            if c == ("lit", True) and c[1] is True:
                return self.exec(s["t"], fr)
            if c == ("lit", False) and c[1] is False:
                return self.exec(s.get("e"), fr)
            base = self.st
            self.st = base.copy()
            self.guards.append(c)
            f1 = self.exec(s["t"], fr)
            self.guards.pop()
            s1 = self.st
            self.st = base.copy()
            self.guards.append(mk_not(c))
            f2 = self.exec(s.get("e"), fr)
            self.guards.pop()
            s2 = self.st
            if f1 and f2:
                self.st = self.join(c, s1, s2)
                return True
            if f1 or f2:
                self.st = s1 if f1 else s2
                self.guards.append(c if f1 else mk_not(c))
                return True
            self.st = s1
            return False
        if k in ("for", "while", "do", "rfor"):
            self.loop(s, fr)
            return True
        if k == "ret":
            if s["e"] is not None:
                self.ev(s["e"], fr)
            v = self.norm(s["e"], fr) if s["e"] is not None else ("none",)
            rec = (v, tuple(self.guards), dict(self.st.env), s)
            self.rets.append(rec)
            for l in self.loopstack:
                l.rets.append(rec)
            return False
        if k in ("break", "continue"):
            for l in self.loopstack[-1:]:
                l.rets.append((("none",), tuple(self.guards), dict(self.st.env), s))
            return False
        if k == "throw":
            self.throws.append((tuple(self.guards), s))
            return False
        if k == "try":
            return self.exec(s["b"], fr)
        if k == "omp":
            return self.exec(s["b"], fr)
        if k == "switch":
            self.ev(s["c"], fr)
            groups = switch_groups(s)
            if groups is None:
                self.havoc_assigned(s["b"], fr)
                return True
            return self.exec_switch(s, groups, fr)
        if k in ("case", "default"):
            return self.exec(s["s"], fr)
        if k in ("nop", "stmt?"):
            return True
        self.ev(s, fr)
        if k == "call" and s.get("noret"):
            return False
        return True

    def exec_switch(self, s, groups, fr):
        """Cases without fall-through, as a chain of conditions."""
        ng = len(self.guards)
        outs = []
        rest = []
        dflt = None
        for labels, body in groups:
            if None in labels:
                dflt = body
                continue
            c = None
            for lb in labels:
                e = self.cond({"k": "bin", "op": "==", "a": s["c"], "b": lb, "l": s.get("l"), "t": "bool"}, fr)
                c = e if c is None else mk_bin("||", c, e)
            rest.append((c, body))
        base = self.st
        for c, body in rest + [(None, dflt)]:
            self.st = base.copy()
            n1 = len(self.guards)
            if c is not None:
                self.guards.append(c)
            f = self.exec_list(body, fr) if body else True
            del self.guards[n1:]
            if f:
                outs.append((c, self.st))
            if c is not None:
                self.guards.append(mk_not(c))
        del self.guards[ng:]
        if not outs:
            self.st = base
            return False
        st = outs[-1][1]
        for c, s1 in reversed(outs[:-1]):
            st = self.join(c, s1, st)
        self.st = st
        return True

    def exec_list(self, l, fr):
        ng = len(self.guards)
        alive = True
        for y in l:
            if y is None:
                continue
            if not self.exec(y, fr):
                alive = False
                break
        if not alive:
            del self.guards[ng:]
        return alive

    def join(self, c, a, b):
        env = {}
        for key in set(a.env) | set(b.env):
            va, vb = a.env.get(key, key), b.env.get(key, key)
            env[key] = va if va == vb else mk_cond(c, va, vb)
        return State(env)

    def assigned(self, s, fr):
        """Keys assigned below s (approximate, by a dry run)."""
        save, sl, sr, sc, sg = self.st, self.loopstack, self.rets, self.calls, self.guards
        loops = self.loops
        keys = set()
        for n in walk(s):
            k = n["k"]
            if k == "asg":
                self._addkey(keys, n["a"], fr)
            elif k == "un" and n["op"] in ("++", "--"):
                self._addkey(keys, n["e"], fr)
            elif k in ("call", "ctor"):
                a = n.get("a") or []
                for i in n.get("mr", ()):
                    if i < len(a) and a[i] is not None:
                        self._addkey(keys, a[i], fr)
                if n.get("obj") is not None and not n.get("cst") and not n.get("static") and n.get("op") not in ("[]", "->", "*"):
                    fn = self.single_target(n)
                    if fn is None or self.simple_value(fn) is None:
                        ts = self.prog.targets(n)
                        if ts and all(t.body is not None for t in ts):
                            self._addmods(keys, n["obj"], ts, fr)
                        else:
                            self._addkey(keys, n["obj"], fr)
        return keys

    def _addmods(self, keys, obj, ts, fr):
        """Fields that a called method may modify."""
        mr = self.prog.__dict__.setdefault("_modref", None)
        if mr is None:
            from .engine import ModRef
            mr = self.prog._modref = ModRef(self.prog)
        mods = set()
        for t in ts:
            mods |= mr.mods(t)
        try:
            o = self.lvbase(obj, fr)
        except Exception:
            return
        fam = set()
        for t in ts:
            if t.cu:
                fam |= self.prog.cls_family(t.cu)
        for f in mods:
            if f.rsplit("::", 1)[0] in fam:
                keys.add(("fld", f, o))
        for k in self.st.env:
            if contains(k, o) and any(y[0] == "fld" and y[1] in mods for y in subterms(k)):
                keys.add(k)

    def _addkey(self, keys, x, fr):
        try:
            k = self.lv(x, fr)
        except Exception:
            return
        keys.add(k)

    def havoc(self, keys, tag=None):
        out = {}
        for k in keys:
            self.nphi += 1
            p = ("phi", self.nphi, k)
            out[k] = p
            self.st.env[k] = p
            for e in list(self.st.env):
                if e != k and contains(e, k):
                    del self.st.env[e]
        return out

    def havoc_assigned(self, s, fr):
        self.havoc(self.assigned(s, fr))

    def loop(self, s, fr):
        L = LoopInfo()
        L.node, L.frame = s, fr
        k = s["k"]
        if s.get("init"):
            self.exec(s["init"], fr)
        if k == "do":
            c0 = Sym.cond(self, s["c"], fr)
            if c0 == ("lit", False):
                return self.exec(s["b"], fr)
        if k == "rfor":
            L.range = self.norm(s["r"], fr)
            L.var = ("var", s["v"]["d"], s["v"]["n"])
        declared = set()
        for n in walk(s["b"]):
            if n["k"] == "decl":
                for v in n["v"]:
                    declared.add(v["d"])
        keys = set()
        for part in (s["b"], s.get("inc"), s.get("c")):
            if part is not None:
                keys |= self.assigned(part, fr)
        keys = {q for q in keys if not (q[0] == "var" and q[1] in declared)}
        L.entry = {q: self.st.env.get(q, q) for q in keys}
        L.syms = self.havoc(keys)
        pre = self.st.copy()
        if s.get("c") is not None:
            self.ev(s["c"], fr)
            L.cond = self.cond(s["c"], fr)
        self.loopstack.append(L)
        ng = len(self.guards)
        if L.cond is not None:
            self.guards.append(L.cond)
        self.exec(s["b"], fr)
        if s.get("inc") is not None:
            self.ev(s["inc"], fr)
        del self.guards[ng:]
        self.loopstack.pop()
        L.exit = {q: self.st.env.get(q, q) for q in keys}
        L.env = dict(self.st.env)
        if self.loopstack:
            self.loopstack[-1].inner.append(L)
        self.loops.append(L)
        # after the loop: unknowns of the loop.
        self.st = pre
        for q, p in L.syms.items():
            self.st.env[q] = ("loopout", p[1], q)
        return True

    # -- expressions with effects.
    def ev(self, x, fr):
        if x is None:
            return
        k = x["k"]
        if k == "lambda":
            return
        if k == "bin" and x["op"] in ("&&", "||") or k == "cond":
            for y in children(x):
                if any(n["k"] in ("asg",) or (n["k"] == "un" and n["op"] in ("++", "--")) or n["k"] == "call" for n in walk(y)):
                    self.ev(y, fr)
            return
        if k == "stmtexpr":
            self.exec(x["s"], fr)
            return
        if k == "un" and x["op"] in ("++", "--"):
            key = self.lv(x["e"], fr)
            cur = self.st.env.get(key, key)
            self.store(key, mk_add(cur, 1 if x["op"] == "++" else -1))
            return
        if k == "asg":
            self.ev(x["b"], fr)
            for y in children(x["a"]):
                self.ev(y, fr)
            key = self.lv(x["a"], fr)
            v = self.norm(x["b"], fr)
            if x["op"] != "=":
                cur = self.st.env.get(key, key)
                v = mk_bin(x["op"][:-1], cur, v)
            self.store(key, v)
            return
        for y in children(x):
            self.ev(y, fr)
        if k in ("call", "ctor"):
            self.call(x, fr)

    def call(self, x, fr):
        obj = x.get("obj")
        tgt = obj if (x.get("op") == "()" and obj is not None) else x.get("callee")
        if tgt is not None:
            ln, lf = self.resolve(tgt, fr)
            if ln is not None and ln["k"] == "lambda" and fr.depth < self.max_depth:
                self.exec_call(ln["b"], lambda_frame(ln, lf, x.get("a") or [], fr))
                return
        if self.hook is not None:
            self.hook(self, x, fr)
        rec = (x, fr, tuple(self.norm(a, fr) for a in x.get("a") or [] if True), tuple(self.guards))
        self.calls.append(rec)
        for l in self.loopstack:
            l.calls.append(rec)
        ts = self.prog.targets(x)
        n = strip_targs(x.get("n") or "?")
        if len(ts) == 1 and ts[0].body is not None and not ts[0].dep and n not in self.keep and n not in self.opaque \
                and x["k"] == "call" and fr.depth < self.max_depth and self.simple_value(ts[0]) is None \
                and (self.enter_pred is None or self.enter_pred(ts[0])):
            self.exec_call(ts[0].body, self.call_frame(x, ts[0], fr))
            return
        # assignment operators of standard strings and smart pointers.
        a = x.get("a") or []
        if x["k"] == "call" and x.get("op") in ("=", "+=") and obj is not None and len(a) == 1 and not ts \
                and n.rsplit("::", 1)[0] in ("std::basic_string", "std::shared_ptr", "std::unique_ptr"):
            v = self.norm(a[0], fr)
            key = self.lv(obj, fr)
            if x["op"] == "+=":
                v = mk_cat(self.st.env.get(key, key), v)
            self.store(key, v)
            return
        # unknown effects on references.
        keys = set()
        for i in () if n in ("std::make_shared", "std::make_unique", "std::forward") else x.get("mr", ()):
            if i < len(a) and a[i] is not None:
                self._addkey(keys, a[i], fr)
        if obj is not None and not x.get("cst") and not x.get("static") and x.get("op") not in ("[]", "->", "*") and not ts:
            self._addkey(keys, obj, fr)
        if keys:
            self.havoc(keys)

    def exec_call(self, body, fr):
        nr = len(self.rets)
        ng = len(self.guards)
        self.exec(body, fr)
        r = self.rets[nr:]
        del self.rets[nr:]
        del self.guards[ng:]
        return r


SCALAR = {"int", "long", "unsigned int", "unsigned long", "bool", "double", "float", "char", "short", "size_t",
          "unsigned char", "long long", "unsigned long long"}


def switch_groups(s):
    """[(labels, statements)] of a switch without fall-through, None otherwise."""
    b = s["b"]
    if b["k"] != "seq":
        return None
    groups = []
    cur = None
    for y in b["s"]:
        if y is None:
            continue
        labels = []
        while y is not None and y["k"] in ("case", "default"):
            labels.append(y["v"] if y["k"] == "case" else None)
            y = y["s"]
        if labels:
            if cur is not None and cur[1] and not leaves(cur[1]):
                return None
            if cur is not None and not cur[1]:
                cur[0].extend(labels)
            else:
                cur = (labels, [])
                groups.append(cur)
        if cur is None:
            return None
        if y is not None:
            cur[1].append(y)
    out = []
    for labels, body in groups:
        body = [x for x in body if x["k"] != "nop"]
        if body and body[-1]["k"] == "seq":
            body = body[:-1] + [x for x in body[-1]["s"] if x is not None]
        if body and body[-1]["k"] == "break":
            body = body[:-1]
        if any(n["k"] == "break" for x in body for n in walk_no_loops(x)):
            return None
        out.append((labels, body))
    return out


def leaves(body):
    y = [x for x in body if x["k"] != "nop"]
    if not y:
        return False
    y = y[-1]
    if y["k"] == "seq":
        return leaves([x for x in y["s"] if x is not None])
    return y["k"] in ("break", "ret", "throw", "continue") or bool(y.get("noret")) or always_exits(y)


def walk_no_loops(x):
    yield x
    if x["k"] in ("for", "while", "do", "rfor", "switch", "lambda"):
        return
    for y in children(x):
        if y is not None:
            yield from walk_no_loops(y)


def is_object(v, init):
    """Class-typed variable (by value): modified through its own members."""
    t = v.get("t") or ""
    t = t.replace("const ", "").strip()
    if t.endswith("*") or t.endswith("&") or t in SCALAR:
        return False
    if t.startswith("std::shared_ptr") or t.startswith("std::basic_string") or t.startswith("std::string"):
        return False
    while init["k"] == "cast":
        init = init["e"]
    return init["k"] in ("ctor", "call", "init")


def mk_add(t, c):
    if t[0] == "lit" and type(t[1]) is int:
        return ("lit", t[1] + c)
    return mk_bin("+", t, ("lit", c)) if c >= 0 else mk_bin("-", t, ("lit", -c))


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains(y, sub) for y in t if isinstance(y, tuple))
    return False


# ---- polynomial / quotient-remainder algebra over non-negative sizes.
def poly(t, atom=None):
    """Multivariate polynomial {sorted tuple of atoms: coefficient} or None."""
    k = t[0]
    if k == "lit" and isinstance(t[1], int):
        return {(): int(t[1])} if t[1] else {}
    if k == "cast":
        return poly(t[2], atom)
    if k == "const" and isinstance(t[2], int):
        return {(): t[2]} if t[2] else {}
    if k == "bin" and t[1] in ("+", "-", "*") and len(t) == 4:
        a, b = poly(t[2], atom), poly(t[3], atom)
        if a is None or b is None:
            return None
        if t[1] == "*":
            return pmul(a, b)
        return padd(a, b, 1 if t[1] == "+" else -1)
    if k == "un" and t[1] == "-":
        a = poly(t[2], atom)
        return None if a is None else padd({}, a, -1)
    return {(t,): 1}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def poly_eq(a, b):
    pa, pb = poly(a), poly(b)
    return pa is not None and pa == pb


def lin_eval(t, asg):
    """t with conditions over the given truth assignment {term: bool} resolved."""
    if t in asg:
        return ("lit", asg[t])
    if t[0] == "cond":
        c = lin_eval(t[1], asg)
        if c[0] == "lit" and isinstance(c[1], bool):
            return lin_eval(t[2] if c[1] else t[3], asg)
        return ("cond", c, lin_eval(t[2], asg), lin_eval(t[3], asg))
    if t[0] == "un" and t[1] == "!":
        c = lin_eval(t[2], asg)
        if c[0] == "lit" and isinstance(c[1], bool):
            return ("lit", not c[1])
        return ("un", "!", c)
    if t[0] == "bin" and t[1] in ("&&", "||"):
        out = lin_eval(t[2], asg)
        for y in t[3:]:
            out = mk_bin(t[1], out, lin_eval(y, asg))
        return out
    if t[0] == "bin" and len(t) == 4:
        return mk_bin(t[1], lin_eval(t[2], asg), lin_eval(t[3], asg))
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        return tuple(lin_eval(y, asg) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in t)
    return t


def unpoly(p):
    """Canonical term of a polynomial."""
    return ("poly",) + tuple(sorted(((m, c) for m, c in p.items()), key=repr))
