"""Typestate analysis: sets of small abstract states are pushed through the structured syntax tree of a function and of
the functions it calls (those from which an event of interest can be reached).

A state maps access paths of scalars to known constants, the texts of opaque conditions to the outcome assumed for them on
this path, and the client's own keys to anything hashable.  Branches whose condition is not determined by the state are
taken both ways; loops are run to a fixed point; returns, throws, breaks and continues are followed."""
from .ir import strip_targs, walk

NOVAL = None
CAP = 6000


class Explode(Exception):
    pass


class Fr:
    __slots__ = ("fn", "bind", "this", "up", "depth", "call")

    def __init__(self, fn, this, up, call=None):
        self.fn, self.this, self.up, self.call = fn, this, up, call
        self.bind = dict(up.bind) if up is not None and fn is up.fn else {}
        self.depth = 0 if up is None else up.depth + 1


class St(dict):
    __slots__ = ("_h",)

    def with_(self, **k):
        raise TypeError

    def set(self, key, val):
        s = St(self)
        if val is None:
            s.pop(key, None)
        else:
            s[key] = val
        return s

    def key(self):
        return frozenset(self.items())


def uniq(sts):
    out, seen = [], set()
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > CAP:
        raise Explode("%d states" % len(out))
    return out


def uniqv(pairs):
    out, seen = [], set()
    for s, v in pairs:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    if len(out) > CAP:
        raise Explode("%d states" % len(out))
    return out


class Out:
    """States leaving a statement, by the way they leave it."""
    __slots__ = ("fall", "brk", "cont", "ret", "thr")

    def __init__(self):
        self.fall, self.brk, self.cont, self.ret, self.thr = [], [], [], [], []

    def take(self, o, fall=True):
        if fall:
            self.fall += o.fall
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr


def pstr(p):
    """Readable access path."""
    if not isinstance(p, tuple):
        return str(p)
    if not p:
        return ""
    if p[0] == "v":
        return p[2]
    if p[0] == "this":
        return "this"
    if p[0] == ".":
        b = pstr(p[1])
        return p[2] if b == "this" else b + "." + p[2]
    if p[0] == "[]":
        return "%s[%s]" % (pstr(p[1]), p[2])
    if p[0] == "()":
        return "%s(%s)" % (p[2] if not p[1] else pstr(p[1]) + "." + p[2], ",".join(p[3]))
    if p[0] == "g":
        return p[1]
    return str(p)


def sub(p, q):
    """Is path q equal to p or below it?"""
    while True:
        if p == q:
            return True
        if isinstance(q, tuple) and q and q[0] in (".", "[]", "()") and isinstance(q[1], tuple) and q[1]:
            q = q[1]
        else:
            return False


class TS:
    max_depth = 14

    def __init__(self, P):
        self.P = P
        self._reach = {}
        self._rel = {}
        self._cnt = {}
        self.seen_fns = set()
        self.opaque_calls = 0

    # ---- client interface
    def interesting(self, call):
        """Is this call an event?"""
        return False

    def on_call(self, x, fr, st):
        """Handle an event: list of (state, value) or None to treat it as any other call."""
        return None

    def on_store(self, path, val, x, fr, st):
        return st

    def on_ret(self, s, fr, st):
        return st

    def on_lambda_end(self, lam, st):
        return st

    def want_inline(self, f):
        return True

    def on_loop_value(self, s, fr, st):
        """Values of a range-for loop, if they are known."""
        return None

    # ---- reachability of events
    def reaches(self, f):
        r = self._reach.get(f.u)
        if r is not None:
            return r
        # Depth-first closure of everything f can call.
        order, seen, edges = [], {f.u: f}, {}
        work = [f]
        while work:
            g = work.pop()
            order.append(g)
            es = edges[g.u] = []
            if self._reach.get(g.u) is not None:
                continue
            for n in g.nodes():
                if n["k"] in ("call", "ctor"):
                    if n["k"] == "call" and self.interesting(n) or self.node_event(n):
                        self._reach[g.u] = True
                    for t in self.P.targets(n):
                        if t.body is not None:
                            es.append(t.u)
                            if t.u not in seen:
                                seen[t.u] = t
                                work.append(t)
                elif self.node_event(n) or self.tracked and self.sets_tracked(n):
                    self._reach[g.u] = True
            if self.tracked and any(short(i.get("f") or i.get("n") or "") in self.tracked for i in g.rec.get("ci", ())):
                self._reach[g.u] = True
        ch = True
        while ch:
            ch = False
            for g in order:
                if self._reach.get(g.u):
                    continue
                if any(self._reach.get(u) for u in edges[g.u]):
                    self._reach[g.u] = True
                    ch = True
        for g in order:
            self._reach.setdefault(g.u, False)
        return self._reach[f.u]

    def node_event(self, n):
        return False

    tracked = frozenset()       # fields whose assignments are followed into callees

    def sets_tracked(self, n):
        if n["k"] == "asg" and n["a"]["k"] == "mem":
            return short(n["a"]["n"]) in self.tracked
        return False

    def relevant(self, x):
        """Can evaluating x have an effect that is followed here?"""
        if x is None:
            return False
        k = id(x)
        r = self._rel.get(k)
        if r is None:
            r = False
            for n in walk(x):
                q = n["k"]
                if q in ("ret", "throw", "break", "continue", "asg") or q == "un" and n["op"] in ("++", "--") or self.node_event(n):
                    r = True
                    break
                if q == "call" and (n.get("noret") or self.interesting(n)):
                    r = True
                    break
                if q == "call" and n.get("op") == "()" and "(lambda" in ((n.get("obj") or {}).get("t") or ""):
                    r = True
                    break
                if q in ("call", "ctor"):
                    if any(t.body is not None and self.reaches(t) for t in self.P.targets(n)):
                        r = True
                        break
                    if q == "call" and short(n.get("n")) in ("push_back", "emplace_back", "clear"):
                        r = True
                        break
                if q == "ref" and n.get("dk") in ("parm", "var") and False:
                    pass
            self._rel[k] = (x, r)
            return r
        return r[1]

    # ---- paths
    def path(self, x, fr, st=None):
        """Access path of an expression, or None."""
        if x is None:
            return None
        k = x["k"]
        if k == "ref":
            if x.get("dk") in ("var", "parm", "slocal", "bind"):
                b = fr.bind.get(x["d"])
                if b is not None:
                    return b if b[0] != "lambda" else None
                return ("v", x["d"], x["n"])
            if x.get("cv") is not None:
                return None
            return ("g", x["n"])
        if k == "this":
            return fr.this
        if k == "mem":
            b = self.path(x["b"], fr) if x.get("b") is not None else None
            if x.get("b") is None:
                return ("g", x["n"])
            return None if b is None else (".", b, short(x["n"]))
        if k == "idx":
            b = self.path(x["b"], fr)
            return None if b is None else ("[]", b, self.text(x["i"], fr))
        if k == "cast":
            return self.path(x["e"], fr)
        if k == "defarg":
            return self.path(x["e"], fr)
        if k == "un" and x["op"] in ("*", "&"):
            return self.path(x["e"], fr)
        if k == "un" and x["op"] in ("++", "--"):
            return self.path(x["e"], fr)
        if k == "asg":
            return self.path(x["a"], fr)
        if k == "ctor" and len([a for a in x.get("a") or [] if a is not None]) == 1 and (x.get("copy") or x.get("move") or "shared_ptr" in x.get("n", "") or "iterator" in x.get("n", "")):
            return self.path(x["a"][0], fr)
        if k == "call":
            nm = short(x.get("n"))
            op = x.get("op")
            if op in ("*", "->"):
                return self.path(x.get("obj") or (x.get("a") or [None])[0], fr)
            if op == "[]" or nm == "at":
                o = x.get("obj")
                b = self.path(o, fr) if o is not None else None
                if b is None:
                    return None
                return ("[]", b, self.text((x.get("a") or [None])[0], fr))
            if nm in ("get", "data") and x.get("obj") is not None and not x.get("a") and not self.P.targets(x):
                return self.path(x["obj"], fr)
            if nm in ("move", "forward") and len(x.get("a") or []) == 1:
                return self.path(x["a"][0], fr)
            e = self.simple(x)
            if e is not None:
                f, ex = e
                f2 = self.enter(f, x, fr)
                return self.path(ex, f2)
            o = self.path(x["obj"], fr) if x.get("obj") is not None else ()
            if o is None:
                return None
            return ("()", o, nm, tuple(self.text(a, fr) for a in x.get("a") or []))
        return None

    def simple(self, x):
        """(function, expression) for a call of a function that only returns an expression."""
        ts = [t for t in self.P.targets(x) if t.body is not None]
        if len(ts) != 1:
            return None
        f = ts[0]
        r = self._cnt.get(("simple", f.u))
        if r is None:
            ss = [s for s in f.body["s"] if s["k"] not in ("nop",) and not is_assert(s)] if f.body["k"] == "seq" else []
            r = (f, ss[0]["e"]) if len(ss) == 1 and ss[0]["k"] == "ret" and ss[0]["e"] is not None else ()
            self._cnt[("simple", f.u)] = r
        return r or None

    def enter(self, f, x, fr):
        f2 = Fr(f, None, fr, x)
        f2.bind = {}
        o = x.get("obj") if x["k"] == "call" else None
        if o is not None:
            f2.this = self.path(o, fr) or ("?", id(x))
        elif x["k"] == "call" and f.cls and not x.get("static"):
            f2.this = fr.this
        else:
            f2.this = ("new", str(x.get("l")))
        for p, a in zip(f.params, x.get("a") or []):
            b = self.bindable(a, fr)
            if b is not None and not (b[0] != "lambda" and scalar(p["t"]) and f.locals().get(p["d"], {}).get("mods")):
                f2.bind[p["d"]] = b
        return f2

    def bindable(self, a, fr):
        n = a
        while n is not None and (n["k"] in ("cast", "defarg") or n["k"] == "ctor" and len(n.get("a") or []) == 1 and n["a"][0]):
            n = n["e"] if n["k"] in ("cast", "defarg") else n["a"][0]
        if n is not None and n["k"] == "lambda":
            return ("lambda", n, fr)
        if n is not None and n["k"] == "ref" and fr.bind.get(n.get("d"), ("",))[0] == "lambda":
            return fr.bind[n["d"]]
        return self.path(a, fr)

    def text(self, x, fr):
        """Canonical text of an expression with bindings substituted."""
        if x is None:
            return ""
        k = x["k"]
        if k in ("lit", "str", "chr"):
            return repr(x["v"])
        if x.get("cv") is not None:
            return str(x["cv"])
        if k in ("null", "zero"):
            return "null"
        if k in ("cast", "defarg"):
            return self.text(x["e"], fr)
        p = self.path(x, fr)
        if p is not None:
            return pstr(p) if p[0] != "()" else pstr(p)
        if k == "un":
            return x["op"] + "(" + self.text(x["e"], fr) + ")"
        if k in ("bin", "asg"):
            return "(" + self.text(x["a"], fr) + x["op"] + self.text(x["b"], fr) + ")"
        if k == "cond":
            return "(" + self.text(x["c"], fr) + "?" + self.text(x["a"], fr) + ":" + self.text(x["b"], fr) + ")"
        if k == "call":
            return short(x.get("n")) + "(" + ",".join(self.text(a, fr) for a in x.get("a") or []) + ")"
        if k == "ctor":
            return short(x.get("n")) + "{" + ",".join(self.text(a, fr) for a in x.get("a") or [] if a is not None) + "}"
        return k + "@" + str(x.get("l"))

    # ---- expressions
    def value(self, x, fr, st):
        """Constant value of a pure expression, or None."""
        if x is None:
            return None
        k = x["k"]
        if k == "lit":
            return x["v"]
        if x.get("cv") is not None:
            return num(x["cv"])
        if k in ("cast", "defarg"):
            v = self.value(x["e"], fr, st)
            if v is not None and x.get("t") == "bool" and not isinstance(v, (tuple, str)):
                return bool(v)
            return v
        if k in ("null", "zero"):
            return 0
        if k == "cond":
            c = self.value(x["c"], fr, st)
            if c is None:
                return None
            return self.value(x["a"] if c else x["b"], fr, st)
        if k == "un":
            if x["op"] in ("*", "&", "++", "--"):
                p = self.path(x, fr)
                return st.get(p) if p is not None else None
            v = self.value(x["e"], fr, st)
            if v is None or isinstance(v, (tuple, str)):
                return None
            return {"!": lambda: not v, "-": lambda: -v, "+": lambda: v, "~": lambda: ~v}.get(x["op"], lambda: None)()
        if k == "bin":
            op = x["op"]
            a = self.value(x["a"], fr, st)
            if op == "&&":
                if a is not None and not a:
                    return False
                b = self.value(x["b"], fr, st)
                if b is not None and not b:
                    return False
                return True if a is not None and b is not None else None
            if op == "||":
                if a:
                    return True
                b = self.value(x["b"], fr, st)
                if b:
                    return True
                return False if a is not None and b is not None else None
            b = self.value(x["b"], fr, st)
            if a is None or b is None:
                return None
            try:
                return OPS[op](a, b)
            except Exception:
                return None
        if k == "call":
            e = self.simple(x)
            if e is not None:
                return self.value(e[1], self.enter(e[0], x, fr), st)
        p = self.path(x, fr)
        if p is None:
            return None
        return st.get(p)

    def ev(self, x, fr, st):
        """Evaluate for effects and value: list of (state, value)."""
        if x is None:
            return [(st, None)]
        k = x["k"]
        if not self.relevant(x):
            return [(st, self.value(x, fr, st))]
        if k == "lambda":
            return [(st, None)]
        if k in ("cast", "defarg", "stmtexpr") and "e" in x:
            r = self.ev(x["e"], fr, st)
            if x.get("t") == "bool":
                r = [(s, bool(v) if v is not None and not isinstance(v, (tuple, str)) else v) for s, v in r]
            return r
        if k == "bin" and x["op"] in ("&&", "||") or k == "un" and x["op"] == "!" or k == "cond":
            if k == "cond":
                out = []
                for s, v in self.cond(x["c"], fr, st):
                    out += self.ev(x["a"] if v else x["b"], fr, s)
                return uniqv(out)
            return self.cond(x, fr, st)
        if k == "asg":
            out = []
            for s, v in self.ev(x["b"], fr, st):
                if self.relevant_lv(x["a"]):
                    for s2, _ in self.ev_kids(x["a"], fr, s):
                        out.append(self.assign(x, v, fr, s2))
                else:
                    out.append(self.assign(x, v, fr, s))
            return uniqv(out)
        if k == "un" and x["op"] in ("++", "--"):
            p = self.path(x["e"], fr)
            v = st.get(p)
            nv = None
            if isinstance(v, int) and not isinstance(v, bool) and self.track_int(p):
                nv = v + (1 if x["op"] == "++" else -1)
                if abs(nv) > 8:
                    nv = None
            s = self.kill(st, p).set(p, nv) if p is not None else st
            s = self.on_store(p, nv, x, fr, s)
            return [(s, v if x.get("post") else nv)]
        if k == "call":
            return self.ev_call(x, fr, st)
        if k == "ctor":
            return self.ev_call(x, fr, st)
        if self.node_event(x):
            r = self.on_call(x, fr, st)
            if r is not None:
                return r
        return self.ev_kids(x, fr, st)

    def relevant_lv(self, x):
        return self.relevant(x)

    def ev_kids(self, x, fr, st):
        from .ir import children
        cur = [st]
        for c in children(x):
            if c["k"] == "lambda" or not self.relevant(c):
                continue
            nxt = []
            for s in cur:
                nxt += [q for q, _ in self.ev(c, fr, s)]
            cur = uniq(nxt)
        return [(s, self.value(x, fr, s)) for s in cur]

    def assign(self, x, v, fr, st):
        p = self.path(x["a"], fr)
        if p is None:
            return st, v
        op = x["op"]
        if op != "=":
            old = st.get(p)
            try:
                v = OPS[op[:-1]](old, v) if old is not None and v is not None else None
            except Exception:
                v = None
            if op == "|=" and v is None and old is True:
                v = True
            if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 8:
                v = None
        s = self.kill(st, p)
        if self.keep(x["a"].get("t"), p, v):
            s = s.set(p, v)
        s = self.on_store(p, v, x, fr, s)
        return s, v

    def keep(self, ty, p, v):
        """Is this value of a scalar tracked?  Booleans and enumerators are; numbers only if the client wants them."""
        if v is None or isinstance(v, float):
            return False
        ty = (ty or "").replace("const ", "").replace("&", "").strip()
        if isinstance(v, bool) or ty == "bool":
            return True
        return ty not in NUMERIC or self.track_int(p)

    def track_int(self, p):
        return False

    def kill(self, st, p):
        """Forget what was known of the path p, what lies below it and the conditions that mention it."""
        if p is None:
            return st
        s = None
        name = pstr(p)
        for key in st:
            if isinstance(key, tuple) and key:
                if key[0] == "atom":
                    if mentions(key[1], name):
                        pass
                    else:
                        continue
                elif key[0] in ("v", ".", "[]", "()", "g", "list", "ne") and sub(p, key[1] if key[0] in ("list", "ne") else key):
                    pass
                elif key[0] in ("[]", "()") and mentions(pstr(key), name):
                    pass
                else:
                    continue
                if s is None:
                    s = St(st)
                del s[key]
        return s if s is not None else st

    def ev_call(self, x, fr, st):
        a = [y for y in (x.get("a") or [])]
        cur = [st]
        # arguments and object
        for y in ([x["obj"]] if x.get("obj") is not None else []) + ([x["callee"]] if isinstance(x.get("callee"), dict) else []) + a:
            if y is None or y["k"] == "lambda" or not self.relevant(y):
                continue
            n2 = y
            while n2["k"] == "cast" or n2["k"] == "ctor" and len(n2.get("a") or []) == 1 and n2["a"][0]:
                n2 = n2["e"] if n2["k"] == "cast" else n2["a"][0]
            if n2["k"] == "lambda":
                continue
            nxt = []
            for s in cur:
                nxt += [q for q, _ in self.ev(y, fr, s)]
            cur = uniq(nxt)
        out = []
        for s in cur:
            out += self.do_call(x, fr, s)
        return uniqv(out)

    def lambda_of(self, y, fr):
        while y is not None and (y["k"] in ("cast", "defarg") or y["k"] == "ctor" and len(y.get("a") or []) == 1 and y["a"][0]):
            y = y["e"] if y["k"] in ("cast", "defarg") else y["a"][0]
        if y is None:
            return None
        if y["k"] == "lambda":
            return y, fr
        if y["k"] == "ref":
            b = fr.bind.get(y.get("d"))
            if b is not None and b[0] == "lambda":
                return b[1], b[2]
        return None

    def do_call(self, x, fr, st):
        if x["k"] == "call" and self.interesting(x) or self.node_event(x):
            r = self.on_call(x, fr, st)
            if r is not None:
                return r
        nm = short(x.get("n"))
        if x.get("noret"):
            self.cur.thr.append(st)
            return []
        if x["k"] == "call":
            lam = self.lambda_of(x.get("obj"), fr) if x.get("op") == "()" else None
            if lam is None and isinstance(x.get("callee"), dict):
                lam = self.lambda_of(x["callee"], fr)
            if lam is not None:
                return self.run_lambda(lam[0], lam[1], st, x.get("a") or [], fr)
            if nm in ("push_back", "emplace_back", "clear") and x.get("obj") is not None:
                p = self.path(x["obj"], fr)
                if p is not None:
                    if nm == "clear":
                        return [(st.set(("list", p), ()).set(("ne", p), None), None)]
                    v = self.value(x["a"][0], fr, st) if x.get("a") else None
                    l = st.get(("list", p))
                    if l is not None:
                        return [(st.set(("list", p), l + (v,) if v is not None and len(l) < 12 else None), None)]
                return [(st, None)]
        ts = [t for t in self.P.targets(x) if t.body is not None and self.reaches(t)]
        if ts and fr.depth < self.max_depth:
            out = []
            for t in ts:
                if not self.want_inline(t):
                    out.append((st, None))
                    continue
                out += self.inline(t, x, fr, st)
            if len(ts) < len(self.P.targets(x)):
                out.append((st, None))
            return uniqv(out)
        # lambdas given to a function that is not followed: called any number of times
        lams = [l for l in (self.lambda_of(y, fr) for y in x.get("a") or []) if l is not None]
        lams = [l for l in lams if self.relevant(l[0]["b"])]
        if lams:
            states = [st]
            done = {st.key()}
            work = [st]
            while work:
                s = work.pop()
                for l in lams:
                    for q, _ in self.run_lambda(l[0], l[1], s, None, fr):
                        if q.key() not in done:
                            done.add(q.key())
                            states.append(q)
                            work.append(q)
                            if len(states) > CAP:
                                raise Explode("lambda")
            return [(s, None) for s in states]
        # what is passed by modifiable reference is not known any more
        s = st
        for i in x.get("mr") or ():
            if i < len(x.get("a") or []) and x["a"][i] is not None:
                p = self.path(x["a"][i], fr)
                if p is not None:
                    s = self.kill(s, p)
        if x["k"] == "call" and x.get("op") == "=" and x.get("obj") is not None:
            p = self.path(x["obj"], fr)
            if p is not None:
                s = self.kill(s, p)
                s = self.on_store(p, None, x, fr, s)
        return [(s, self.value(x, fr, s))]

    def run_lambda(self, lam, lfr, st, args, fr):
        f2 = Fr(lfr.fn, lfr.this, lfr)
        f2.bind = dict(lfr.bind)
        f2.depth = fr.depth + 1
        if args is not None:
            for p, a in zip(lam["p"], args):
                b = self.bindable(a, fr)
                if b is not None:
                    f2.bind[p["d"]] = b
        save = self.cur
        o = self.exec(lam["b"], f2, st)
        self.cur = save
        save.thr += o.thr
        r = [(self.on_lambda_end(lam, s), None) for s in o.fall] + [(self.on_lambda_end(lam, s), v) for s, v in o.ret]
        return uniqv([(self.drop(s, decls_in(lam["b"])), v) for s, v in r])

    def inline(self, t, x, fr, st):
        up = fr
        n = 0
        while up is not None:
            if up.fn is t:
                n += 1
            up = up.up
        if n >= 2:
            return [(st, None)]
        f2 = self.enter(t, x, fr)
        s = st
        for p, a in zip(t.params, x.get("a") or []):
            if p["d"] not in f2.bind:
                v = self.value(a, fr, st)
                if self.keep(p["t"], ("v", p["d"], p["n"]), v):
                    s = s.set(("v", p["d"], p["n"]), v)
        self.seen_fns.add(t)
        save = self.cur
        o = self.exec_fn(t, f2, s)
        self.cur = save
        save.thr += o.thr
        ds = self.fn_decls(t)
        return uniqv([(self.drop(q, ds), v) for q, v in [(q, None) for q in o.fall] + o.ret])

    def fn_decls(self, t):
        r = self._cnt.get(("decls", t.u))
        if r is None:
            r = {p["d"] for p in t.params}
            for rt in t.roots():
                r |= decls_in(rt)
            self._cnt[("decls", t.u)] = r
        return r

    def drop(self, st, ds):
        ks = [k for k in st if isinstance(k, tuple) and self.rooted(k, ds)]
        if not ks:
            return st
        s = St(st)
        for k in ks:
            del s[k]
        return s

    def rooted(self, k, ds):
        if k[0] == "atom":
            return bool(k[2] & ds)
        if k[0] in ("list", "ne"):
            k = k[1]
        while isinstance(k, tuple) and k and k[0] in (".", "[]", "()"):
            k = k[1]
        return isinstance(k, tuple) and len(k) == 3 and k[0] == "v" and k[1] in ds

    # ---- conditions
    def cond(self, x, fr, st):
        """List of (state, bool)."""
        k = x["k"]
        if k == "cast" or k == "defarg":
            return self.cond(x["e"], fr, st)
        if k == "un" and x["op"] == "!":
            return [(s, not v) for s, v in self.cond(x["e"], fr, st)]
        if k == "bin" and x["op"] in ("&&", "||"):
            out = []
            for s, v in self.cond(x["a"], fr, st):
                if v == (x["op"] == "||"):
                    out.append((s, v))
                else:
                    out += self.cond(x["b"], fr, s)
            return uniqv(out)
        out = []
        for s, v in (self.ev(x, fr, st) if self.relevant(x) else [(st, self.value(x, fr, st))]):
            if v is not None:
                out.append((s, bool(v)))
                continue
            e = self.simple(x) if k == "call" else None
            if e is not None and e[1].get("t") == "bool" and not self.relevant(x):
                out += self.cond(e[1], self.enter(e[0], x, fr), s)
                continue
            out += self.fork(x, fr, s)
        return uniqv(out)

    def fork(self, x, fr, st):
        t, roots = self.text(x, fr), self.roots(x, fr)
        key = ("atom", t, roots)
        v = st.get(key)
        if v is not None:
            return [(st, v)]
        p = self.path(x, fr)
        if p is not None and p[0] in ("v", ".") and x.get("t") == "bool":
            return [(st.set(p, True), True), (st.set(p, False), False)]
        # the same condition with == and !=, < and >=
        neg = self.neg_text(x, fr)
        if neg is not None:
            v = st.get(("atom", neg, roots))
            if v is not None:
                return [(st, not v)]
        if not self.remember(x, t, fr):
            return [(st, True), (st, False)]
        return [(st.set(key, True), True), (st.set(key, False), False)]

    def neg_text(self, x, fr):
        if x["k"] == "bin" and x["op"] in NEG:
            return "(" + self.text(x["a"], fr) + NEG[x["op"]] + self.text(x["b"], fr) + ")"
        if x["k"] == "bin" and x["op"] == "==" and self.value(x["b"], fr, St()) == 0:
            return self.text(x["a"], fr)
        return None

    def remember(self, x, t, fr):
        """Is the outcome of this condition worth keeping (is it, or one like it, tested again)?"""
        f = fr.fn
        key = ("conds", f.u)
        c = self._cnt.get(key)
        if c is None:
            c = {}
            for n in f.nodes():
                if n["k"] in ("if", "while", "for", "do", "cond") and n.get("c") is not None:
                    for y in atoms(n["c"]):
                        c[rawtext(y)] = c.get(rawtext(y), 0) + 1
            self._cnt[key] = c
        return c.get(rawtext(x), 0) >= 2

    def roots(self, x, fr):
        r = set()
        for n in walk(x):
            if n["k"] == "ref" and n.get("dk") in ("var", "parm", "slocal", "bind"):
                p = self.path(n, fr)
                while isinstance(p, tuple) and p and p[0] in (".", "[]", "()"):
                    p = p[1]
                if isinstance(p, tuple) and len(p) == 3 and p[0] == "v":
                    r.add(p[1])
        return frozenset(r)

    # ---- statements
    def exec_fn(self, f, fr, st):
        o = Out()
        sts = [st]
        for i in f.rec.get("ci", ()):
            nm = short(i.get("f") or i.get("n") or "")
            if i.get("e") and nm in self.tracked:
                p = (".", fr.this, nm)
                sts = [q.set(p, self.value(i["e"], fr, q)) for q in sts]
                continue
            if i.get("e") and self.relevant(i["e"]):
                self.cur = o
                nxt = []
                for s in sts:
                    nxt += [q for q, _ in self.ev(i["e"], fr, s)]
                sts = uniq(nxt)
        if f.body is None:
            o.fall += sts
            return o
        for s in sts:
            o.take(self.exec(f.body, fr, s))
        return o

    def run(self, f, st=None, this=("this",)):
        fr = Fr(f, this, None)
        self.cur = Out()
        self.seen_fns.add(f)
        o = self.exec_fn(f, fr, St() if st is None else st)
        o.thr += self.cur.thr
        o.fall = uniq(o.fall)
        o.thr = uniq(o.thr)
        o.ret = uniqv(o.ret)
        return o

    def exec_states(self, s, fr, sts):
        o = Out()
        for st in uniq(sts):
            o.take(self.exec(s, fr, st))
        o.fall = uniq(o.fall)
        o.brk, o.cont, o.thr, o.ret = uniq(o.brk), uniq(o.cont), uniq(o.thr), uniqv(o.ret)
        return o

    def exec(self, s, fr, st):
        o = Out()
        if s is None:
            o.fall.append(st)
            return o
        save = getattr(self, "cur", None)
        self.cur = o
        try:
            self.exec1(s, fr, st, o)
        finally:
            self.cur = save
        return o

    def exec1(self, s, fr, st, o):
        k = s["k"]
        if k == "seq":
            cur = [st]
            for y in s["s"]:
                r = self.exec_states(y, fr, cur)
                o.take(r, fall=False)
                cur = r.fall
                if not cur:
                    break
            ds = frozenset(v["d"] for y in s["s"] if y["k"] == "decl" for v in y["v"])
            o.fall += uniq([self.drop(q, ds) for q in cur]) if ds else cur
            return
        if k == "decl":
            cur = [st]
            for v in s["v"]:
                nxt = []
                for q in cur:
                    nxt += self.decl(v, fr, q)
                cur = uniq(nxt)
            o.fall += cur
            return
        if not self.relevant(s):
            o.fall.append(st)
            return
        if k == "if":
            cur = [st]
            for pre in (s.get("init"), s.get("cvar")):
                if pre is not None:
                    r = self.exec_states(pre, fr, cur)
                    o.take(r, fall=False)
                    cur = r.fall
            for q in cur:
                for q2, v in self.cond(s["c"], fr, q):
                    o.take(self.exec(s["t"] if v else s.get("e"), fr, q2))
            return
        if k in ("for", "while", "do", "rfor"):
            self.loop(s, fr, st, o)
            return
        if k == "ret":
            for q, v in (self.ev_ret(s["e"], fr, st) if s["e"] is not None else [(st, None)]):
                o.ret.append((self.on_ret(s, fr, q), v))
            return
        if k == "throw":
            o.thr.append(st)
            return
        if k == "break":
            o.brk.append(st)
            return
        if k == "continue":
            o.cont.append(st)
            return
        if k == "try":
            r = self.exec(s["b"], fr, st)
            hs = s.get("h") or []
            o.take(r) if not hs else o.take_no_thr(r) if False else None
            if hs:
                o.fall += r.fall
                o.brk += r.brk
                o.cont += r.cont
                o.ret += r.ret
                for h in hs:
                    b = h.get("b", h) if isinstance(h, dict) else h
                    for q in uniq(r.thr + [st]):
                        o.take(self.exec(b, fr, q))
            return
        if k == "omp":
            o.take(self.exec(s["b"], fr, st))
            return
        if k == "switch":
            b = s["b"]
            items = b["s"] if b["k"] == "seq" else [b]
            flat = []
            for y in items:
                while y is not None and y["k"] in ("case", "default"):
                    flat.append(("label", y["v"] if y["k"] == "case" else None))
                    y = y["s"]
                if y is not None:
                    flat.append(("st", y))
            for q, v in self.ev(s["c"], fr, st):
                labels = [i for i, (t, y) in enumerate(flat) if t == "label"]
                pick = labels
                if v is not None:
                    lv = [i for i in labels if flat[i][1] is not None and self.value(flat[i][1], fr, q) == v]
                    pick = lv or [i for i in labels if flat[i][1] is None]
                    if not pick:
                        o.fall.append(q)
                elif not any(flat[i][1] is None for i in labels):
                    o.fall.append(q)
                for i in pick:
                    cur = [q]
                    for t, y in flat[i:]:
                        if t == "st":
                            r = self.exec_states(y, fr, cur)
                            o.fall += r.brk
                            r.brk = []
                            o.take(r, fall=False)
                            cur = r.fall
                    o.fall += cur
            return
        if k in ("case", "default"):
            o.take(self.exec(s["s"], fr, st))
            return
        if k == "nop":
            o.fall.append(st)
            return
        o.fall += uniq([q for q, _ in self.ev(s, fr, st)])

    def ev_ret(self, e, fr, st):
        t = e.get("t")
        if t == "bool" and (self.relevant(e) or fr.up is not None):
            return self.cond(e, fr, st)
        return self.ev(e, fr, st)

    def decl(self, v, fr, st):
        p = ("v", v["d"], v["n"])
        st = self.kill(st, p)
        fr.bind.pop(v["d"], None)
        i = v.get("init")
        ty = v.get("t") or ""
        if i is None:
            if "vector" in ty or "list" in ty:
                st = st.set(("list", p), ())
            return [st]
        if "vector<" in ty and not v.get("ref") and i["k"] == "ctor" and not [a for a in i.get("a") or [] if a is not None and a["k"] != "defarg"]:
            return [st.set(("list", p), ())]
        n = i
        while n["k"] == "cast":
            n = n["e"]
        if n["k"] == "lambda":
            fr.bind[v["d"]] = ("lambda", n, fr)
            return [st]
        out = []
        if n["k"] == "ctor" and self.relevant(n) and not v.get("ref"):
            for t in self.P.targets(n):
                if t.body is not None and self.reaches(t):
                    f2 = self.enter(t, n, fr)
                    f2.this = p
                    sv = self.cur
                    o = self.exec_fn(t, f2, st)
                    self.cur = sv
                    sv.thr += o.thr
                    ds = self.fn_decls(t)
                    return uniq([self.drop(q, ds) for q in o.fall + [q for q, _ in o.ret]])
        if ty.replace("const ", "") == "bool" and not v.get("ref"):
            for q, val in self.cond(i, fr, st):
                out.append(q.set(p, val))
            return uniq(out)
        for q, val in self.ev(i, fr, st):
            if v.get("ref") or ty.rstrip().endswith(("*", "&")) or "shared_ptr" in ty or "iterator" in ty:
                b = self.path(i, fr)
                if b is not None and b != p:
                    fr.bind[v["d"]] = b
                    out.append(q)
                    continue
            if self.keep(ty, p, val):
                q = q.set(p, val)
            out.append(q)
        return uniq(out)

    def loop(self, s, fr, st, o):
        k = s["k"]
        heads = [st]
        if s.get("init"):
            r = self.exec(s["init"], fr, st)
            o.take(r, fall=False)
            heads = r.fall
        if k == "rfor":
            nxt = []
            for q in heads:
                nxt += [z for z, _ in self.ev(s["r"], fr, q)] if self.relevant(s["r"]) else [q]
            heads = nxt
            vp = ("v", s["v"]["d"], s["v"]["n"])
            for q in heads:
                vals = self.on_loop_value(s, fr, q)
                if vals is None:
                    rp = self.path(s["r"], fr)
                    vals = q.get(("list", rp)) if rp is not None else None
                if vals is None and s["r"]["k"] in ("init", "ctor"):
                    vs = [self.value(y, fr, q) for y in s["r"].get("a") or []]
                    vals = vs if vs and None not in vs else None
                if vals is not None:
                    cur = [q]
                    for v in vals:
                        cur = [self.kill(z, vp).set(vp, v) for z in cur]
                        r = self.exec_states(s["b"], fr, cur)
                        o.ret += r.ret
                        o.thr += r.thr
                        o.fall += r.brk
                        cur = uniq(r.fall + r.cont)
                    o.fall += [self.drop(z, {s["v"]["d"]}) for z in cur]
                else:
                    fr.bind.pop(s["v"]["d"], None)
                    ne = ("ne", rp) if rp is not None else None
                    hs = [q]
                    if ne is not None and q.get(ne):
                        # known not to be empty: there is a first iteration
                        r = self.exec_states(s["b"], fr, [self.kill(q, vp)])
                        o.ret += r.ret
                        o.thr += r.thr
                        o.fall += r.brk
                        hs = uniq(r.fall + r.cont)

                    def test(z, ne=ne):
                        z = self.kill(z, vp)
                        return [(z.set(ne, True) if ne is not None else z, True), (z, False)]
                    self.fix(s, fr, hs, o, test, None)
            return
        c = s.get("c")

        def test(z):
            return self.cond(c, fr, z) if c is not None else [(z, True)]
        if k == "do":
            first = self.exec_states(s["b"], fr, heads)
            o.ret += first.ret
            o.thr += first.thr
            o.fall += first.brk
            heads = uniq(first.fall + first.cont)
            if c is not None and self.value(c, fr, St()) in (0, False):
                o.fall += heads
                return
        self.fix(s, fr, heads, o, test, s.get("inc"))

    def fix(self, s, fr, heads, o, test, inc):
        done, work = set(), list(heads)
        while work:
            q = work.pop()
            kk = q.key()
            if kk in done:
                continue
            done.add(kk)
            if len(done) > CAP:
                raise Explode("loop")
            for z, v in test(q):
                if not v:
                    o.fall.append(z)
                    continue
                r = self.exec(s["b"], fr, z)
                o.ret += r.ret
                o.thr += r.thr
                o.fall += r.brk
                for y in uniq(r.fall + r.cont):
                    if inc is not None:
                        sv = self.cur
                        work += [w for w, _ in self.ev(inc, fr, y)]
                        self.cur = sv
                    else:
                        work.append(y)
        ds = set()
        if s.get("init") is not None and s["init"]["k"] == "decl":
            ds = {v["d"] for v in s["init"]["v"]}
        if s["k"] == "rfor":
            ds = {s["v"]["d"]}
        o.fall[:] = uniq([self.drop(z, ds) for z in o.fall])


def is_assert(s):
    return s["k"] in ("cond",) or s["k"] == "cast" and s.get("t") == "void" or s["k"] == "do"


def scalar(t):
    t = t.replace("const ", "").strip()
    return not t.endswith(("&", "*")) and (t in ("bool", "int", "long", "unsigned long", "unsigned int", "double", "float", "char"))


def decls_in(b):
    r = set()
    for n in walk(b):
        if n["k"] == "decl":
            r |= {v["d"] for v in n["v"]}
        elif n["k"] == "rfor":
            r.add(n["v"]["d"])
        elif n["k"] == "lambda":
            r |= {p["d"] for p in n["p"]}
    return r


def atoms(x):
    if x["k"] == "bin" and x["op"] in ("&&", "||"):
        yield from atoms(x["a"])
        yield from atoms(x["b"])
    elif x["k"] == "un" and x["op"] == "!":
        yield from atoms(x["e"])
    elif x["k"] == "cast":
        yield from atoms(x["e"])
    else:
        yield x


def rawtext(x):
    if x is None:
        return ""
    k = x["k"]
    if k in ("lit", "str", "chr"):
        return repr(x["v"])
    if k == "ref":
        return x["n"]
    if k == "this":
        return "this"
    if k == "mem":
        return rawtext(x.get("b")) + "." + short(x["n"])
    if k in ("cast", "defarg"):
        return rawtext(x["e"])
    if k == "un":
        return x["op"] + rawtext(x["e"])
    if k == "bin":
        op, a, b = x["op"], rawtext(x["a"]), rawtext(x["b"])
        if op in NEG and NEG[op] in ("==", "<", "<="):
            op = NEG[op]
        return "(" + a + op + b + ")"
    if k == "call" and x.get("op") in ("->", "*") and (x.get("obj") is not None or x.get("a")):
        return rawtext(x.get("obj") or x["a"][0])
    if k in ("call", "ctor"):
        return rawtext(x.get("obj")) + "." + short(x.get("n")) + "(" + ",".join(rawtext(a) for a in x.get("a") or []) + ")"
    if k == "idx":
        return rawtext(x["b"]) + "[" + rawtext(x["i"]) + "]"
    return k


def mentions(text, name):
    i = text.find(name)
    while i >= 0:
        before = text[i - 1] if i else " "
        j = i + len(name)
        after = text[j] if j < len(text) else " "
        if not (before.isalnum() or before == "_") and not (after.isalnum() or after == "_"):
            return True
        i = text.find(name, i + 1)
    return False


def num(v):
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            return v
    return v


def short(n):
    return strip_targs(n or "").rsplit("::", 1)[-1]


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
NUMERIC = {"int", "long", "unsigned long", "unsigned int", "unsigned", "short", "long long", "unsigned char", "char", "signed char",
           "unsigned long long", "idx_t", "size_t", "double", "float"}
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b,
       "!=": lambda a, b: a != b, "&": lambda a, b: int(a) & int(b), "|": lambda a, b: int(a) | int(b),
       "^": lambda a, b: int(a) ^ int(b), "%": lambda a, b: a - b * int(a / b), "/": lambda a, b: int(a / b)}
