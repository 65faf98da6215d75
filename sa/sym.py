"""Value normalisation: expressions -> canonical tuples, with local variables,
reference parameters and side-effect-free helper functions substituted, so that
renaming, helper extraction and re-association do not change the result."""
from .ir import walk, strip_targs

TRANSPARENT_CALLS = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const"}
SMART = ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr")
COMM = {"+", "*", "&", "|", "^", "==", "&&", "||"}


class Frame:
    """One (possibly inlined) activation of a function or lambda."""
    __slots__ = ("fn", "args", "this", "up", "depth", "locals", "key", "site")

    def __init__(self, fn, args=None, this=None, up=None, depth=0, site=None):
        self.fn = fn
        self.args = args or {}      # parameter decl id -> (node, frame)
        self.this = this            # (node, frame) of the object expression, or None
        self.up = up                # defining frame (for lambdas), whose locals are visible
        self.depth = depth
        self.site = site

    def find_local(self, d):
        f = self
        while f is not None:
            if d in f.args:
                return f, ("arg", f.args[d])
            L = f.fn.locals().get(d)
            if L is not None:
                # a lambda body's locals are recorded with the enclosing function.
                g = f
                while g.up is not None and g.up.fn is g.fn and d not in g.args:
                    if d in g.up.args:
                        return g.up, ("arg", g.up.args[d])
                    g = g.up
                return f, ("loc", L)
            f = f.up
        return None, None

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.up
        return out


def is_ref_type(t):
    return isinstance(t, str) and t.rstrip().endswith("&")


def is_ptr_type(t):
    return isinstance(t, str) and t.rstrip().rstrip("const").rstrip().endswith("*")


class Sym:
    keep_dyn = False    # keep run-time type tests in terms

    def __init__(self, prog, keep=(), max_depth=8, inline=True):
        self.prog = prog
        self.keep = set(keep)       # qualified names (no template args) never inlined
        self.max_depth = max_depth
        self.inline = inline
        self._simple = {}

    # ---- node resolution (follows aliases to the defining expression).
    def resolve(self, node, fr, all_vals=True):
        """Follow references to single-definition locals / bound parameters."""
        seen = 0
        while node is not None and seen < 50:
            seen += 1
            k = node["k"]
            if k == "defarg":
                node = node["e"]
                continue
            if k == "ref" and node.get("dk") in ("var", "parm", "slocal"):
                f, r = fr.find_local(node["d"])
                if r is None:
                    return node, fr
                kind, v = r
                if kind == "arg":
                    L = f.fn.locals().get(node["d"])
                    if L and any(w for _, w in L["mods"]) and not (is_ref_type(L["v"].get("t"))):
                        return node, fr
                    an, af = v
                    if an is None:
                        return node, fr
                    node, fr = an, af
                    continue
                if v["kind"] == "var" and v["v"].get("init") is not None:
                    init = v["v"]["init"]
                    if v["v"].get("ref") or (all_vals and not v["mods"]) :
                        node, fr = init, f
                        continue
                return node, fr
            if k == "cast":
                if node["ck"] in ("FloatingToIntegral",) or (self.keep_dyn and node["ck"] == "Dynamic"):
                    return node, fr
                node = node["e"]
                continue
            if k == "ctor" and len(node.get("a") or []) == 1 and (node.get("copy") or node.get("move") or node["n"].startswith("std::function")):
                node = node["a"][0]
                continue
            if k == "call" and node.get("n") in TRANSPARENT_CALLS and node.get("a"):
                node = node["a"][0]
                continue
            if k == "un" and node["op"] in ("*", "&") and node["e"]["k"] in ("this",):
                node = node["e"]
                continue
            return node, fr
        return node, fr

    # ---- inlining of simple functions.
    def call_frame(self, call, fn, fr):
        args = {}
        a = call.get("a") or []
        for i, p in enumerate(fn.params):
            if i < len(a):
                args[p["d"]] = (a[i], fr)
            elif p.get("def"):
                args[p["d"]] = (p["def"], fr)
        this = None
        if call.get("obj") is not None:
            this = (call["obj"], fr)
        return Frame(fn, args, this, None, fr.depth + 1, site=call)

    def single_target(self, call):
        ts = self.prog.targets(call)
        return ts[0] if len(ts) == 1 else None

    def simple_value(self, fn):
        """('e', ret-expr) / ('cond', c, x, y) tree if fn is a pure value function, else None."""
        if fn.u in self._simple:
            return self._simple[fn.u]
        self._simple[fn.u] = None  # recursion guard.
        v = self._val(fn.body["s"] if fn.body and fn.body["k"] == "seq" else [fn.body], fn)
        self._simple[fn.u] = v
        return v

    def _val(self, stmts, fn):
        for i, s in enumerate(stmts):
            if s is None or s["k"] == "nop":
                continue
            k = s["k"]
            if k == "decl":
                for v in s["v"]:
                    L = fn.locals().get(v["d"])
                    if v.get("static") or (L and L["mods"] and not v.get("ref")):
                        return None
                continue
            if k == "ret":
                if s["e"] is None:
                    return None
                if impure(s["e"]):
                    return None
                return ("e", s["e"])
            if k == "if":
                if s.get("init") or s.get("cvar"):
                    return None
                if always_throws(s["t"]) and s.get("e") is None:
                    continue
                t = self._val(as_list(s["t"]), fn)
                if t is None:
                    return None
                e = self._val((as_list(s["e"]) if s.get("e") else []) + stmts[i + 1:], fn)
                if e is None or impure(s["c"]):
                    return None
                return ("cond", s["c"], t, e)
            if k == "seq":
                return self._val(s["s"] + stmts[i + 1:], fn)
            if k in ("lit",):
                continue
            if noop_stmt(s):
                continue
            return None
        return None

    def norm_val(self, v, fr):
        if v[0] == "e":
            return self.norm(v[1], fr)
        return mk_cond(self.cond(v[1], fr), self.norm_val(v[2], fr), self.norm_val(v[3], fr))

    # ---- main.
    def norm(self, x, fr):
        if x is None:
            return ("none",)
        x, fr = self.resolve(x, fr)
        k = x["k"]
        N = self.norm
        if k == "lit":
            v = x["v"]
            if x.get("fl"):
                try:
                    v = float(v)
                except ValueError:
                    pass
            return ("lit", v)
        if k == "chr":
            return ("chr", x["v"])
        if k == "str":
            return ("str", x["v"])
        if k == "null":
            return ("lit", 0)
        if k == "zero":
            return ("lit", 0)
        if k == "this":
            f = fr
            while f is not None:
                if f.this is not None:
                    return N(f.this[0], f.this[1])
                f = f.up
            return ("this",)
        if k == "ref":
            dk = x.get("dk")
            if dk == "enum":
                return ("const", x["n"], x.get("cv"))
            if dk == "glob":
                if "cv" in x:
                    return ("const", x["n"], x["cv"])
                return ("glob", strip_targs(x["n"]))
            if dk == "func":
                return ("fn", strip_targs(x["n"]))
            if dk == "parm":
                f, r = fr.find_local(x["d"])
                idx = -1
                if f is not None:
                    for i, p in enumerate(f.fn.params):
                        if p["d"] == x["d"]:
                            idx = i
                return ("parm", idx if idx >= 0 else x["d"], x["n"])
            f, r = fr.find_local(x["d"])
            if r is not None and r[0] == "loc":
                L = r[1]
                if L["kind"] == "rfor" and L["node"] is not None:
                    return ("elem", N(L["node"]["r"], f))
                if L["kind"] == "bind":
                    return ("bind", x["n"], x["d"])
                if "cv" in x:
                    return ("lit", x["cv"])
            return ("var", x["d"], x["n"])
        if k == "mem":
            return ("fld", strip_targs(x["f"]), nonnull(N(x["b"], fr)))
        if k == "mfn":
            return ("fn", strip_targs(x.get("n", "?")))
        if k in ("bin", "asg"):
            if k == "asg":
                return ("asg", x["op"], N(x["a"], fr), N(x["b"], fr))
            op = x["op"]
            if op == ",":
                return N(x["b"], fr)
            if op in ("&&", "||"):
                return mk_bin(op, self.cond(x["a"], fr), self.cond(x["b"], fr))
            return mk_bin(op, N(x["a"], fr), N(x["b"], fr))
        if k == "un":
            op = x["op"]
            if op == "*":
                return nonnull(N(x["e"], fr))
            if op in ("&", "+", "__extension__"):
                return N(x["e"], fr)
            if op == "!":
                return mk_not(self.cond(x["e"], fr))
            e = N(x["e"], fr)
            if op == "-" and e[0] == "lit" and not isinstance(e[1], (bool, str)):
                return ("lit", -e[1])
            return ("un", op, e)
        if k == "cond":
            return mk_cond(self.cond(x["c"], fr), N(x["a"], fr), N(x["b"], fr))
        if k == "idx":
            return ("idx", N(x["b"], fr), N(x["i"], fr))
        if k == "cast":
            if x["ck"] == "Dynamic":
                return ("dyn", (x["t"] or "").replace("const ", "").rstrip("* &"), N(x["e"], fr))
            return ("cast", x["t"], N(x["e"], fr))
        if k == "sizeof":
            return ("lit", x["cv"]) if "cv" in x else ("sizeof", x["t"])
        if k == "init":
            return ("init",) + tuple(N(a, fr) for a in x["a"])
        if k == "ctor":
            a = x.get("a") or []
            if len(a) == 1 and (x.get("copy") or x.get("move")):
                return N(a[0], fr)
            return ("ctor", strip_targs(x["n"])) + tuple(N(y, fr) for y in a)
        if k == "new":
            i = x.get("init")
            if i is not None and i["k"] == "ctor":
                return ("new", strip_targs(x["t"])) + tuple(N(y, fr) for y in i.get("a") or [])
            return ("new", strip_targs(x["t"]))
        if k == "lambda":
            return ("lambda", x["l"], len(x["p"]))
        if k == "call":
            return self.norm_call(x, fr)
        if k == "throw":
            return ("throw",)
        if k == "defarg":
            return N(x["e"], fr)
        if k == "op":
            return ("op", x["c"]) + tuple(N(y, fr) for y in x.get("a") or [])
        return (k,)

    def norm_call(self, x, fr):
        N = self.norm
        n = strip_targs(x.get("n") or "?")
        a = x.get("a") or []
        op = x.get("op")
        obj = x.get("obj")
        if op in ("->", "*") and obj is not None and not a and n.startswith("std::"):
            return N(obj, fr)
        if n.startswith(SMART) and n.endswith("::get") and obj is not None:
            return N(obj, fr)
        if n in ("std::min", "std::max") and len(a) == 2:
            return mk_bin(n[5:], N(a[0], fr), N(a[1], fr))
        if n == "std::operator+" and len(a) == 2 and (x.get("t") or "").startswith(("std::basic_string", "std::string")):
            return mk_cat(N(a[0], fr), N(a[1], fr))
        if op is not None and not n.startswith("yask::") and op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "%"):
            xs = ([obj] if obj is not None else []) + a
            if len(xs) == 2:
                return mk_bin(op, N(xs[0], fr), N(xs[1], fr))
        if n in ("std::dynamic_pointer_cast", "std::static_pointer_cast") and a:
            if self.keep_dyn and n[5] == "d":
                t = x.get("t") or ""
                return ("dyn", t[t.find("<") + 1:t.rfind(">")].replace("const ", "").strip(), N(a[0], fr))
            return N(a[0], fr)
        if n == "std::basic_string::append" and obj is not None and len(a) == 1:
            return mk_cat(N(obj, fr), N(a[0], fr))
        if n in ("std::make_shared", "std::make_unique"):
            t = x.get("t") or ""
            return ("call", "%s<%s>" % (n, t[t.find("<") + 1:t.rfind(">")]), None) + tuple(N(y, fr) for y in a)
        if op == "[]" and obj is not None and n.startswith("std::"):
            return ("idx", N(obj, fr), N(a[0], fr))
        if n.startswith("std::") and n.endswith("::at") and obj is not None and a:
            return ("idx", N(obj, fr), N(a[0], fr))
        if n.startswith("std::") and n.rsplit("::", 1)[-1].startswith("operator ") and obj is not None and not a:
            return N(obj, fr)
        # call of a lambda held in a local or parameter.
        tgt = None
        if op == "()" and obj is not None:
            ln, lf = self.resolve(obj, fr)
            if ln is not None and ln["k"] == "lambda" and fr.depth < self.max_depth:
                v = self._val(as_list(ln["b"]), lf.fn)
                if v is not None:
                    f2 = lambda_frame(ln, lf, a, fr)
                    return self.norm_val(v, f2)
        if self.inline and n not in self.keep and fr.depth < self.max_depth:
            fn = self.single_target(x)
            if fn is not None and not fn.dep and not fn.get("isctor"):
                v = self.simple_value(fn)
                if v is not None:
                    return self.norm_val(v, self.call_frame(x, fn, fr))
        o = N(obj, fr) if obj is not None else None
        if x.get("callee") is not None:
            o = N(x["callee"], fr)
        return ("call", n, o) + tuple(N(y, fr) for y in a)

    def cond(self, x, fr):
        """Normal form of x used as a truth value."""
        return truth(self.norm(x, fr))


def lambda_frame(ln, lf, args, callfr):
    am = {}
    for i, p in enumerate(ln["p"]):
        if i < len(args):
            am[p["d"]] = (args[i], callfr)
        elif p.get("def"):
            am[p["d"]] = (p["def"], callfr)
    return Frame(lf.fn, am, None, lf, callfr.depth + 1)


def as_list(s):
    if s is None:
        return []
    return s["s"] if s["k"] == "seq" else [s]


IMPURE = {"asg", "new", "delete", "throw", "lambda"}


def impure(e):
    for n in walk(e):
        if n["k"] in ("asg", "delete", "throw"):
            return True
        if n["k"] == "un" and n["op"] in ("++", "--"):
            return True
    return False


def noop_stmt(s):
    if s["k"] == "seq":
        return all(y is None or noop_stmt(y) for y in s["s"])
    if s["k"] in ("nop", "lit"):
        return True
    if s["k"] in ("ref", "mem", "this", "str"):
        return True
    if s["k"] == "cast":
        return noop_stmt(s["e"])
    if s["k"] == "do":
        return noop_stmt(s["b"])
    if s["k"] == "if" and always_throws(s["t"]) and s.get("e") is None:
        return True
    return False


def always_throws(s):
    """Every path through s ends in a throw / noreturn call."""
    if s is None:
        return False
    k = s["k"]
    if k == "throw":
        return True
    if k == "call" and s.get("noret"):
        return True
    if k == "seq":
        return any(always_throws(y) for y in s["s"] if y is not None)
    if k == "if":
        return always_throws(s["t"]) and always_throws(s.get("e"))
    if k in ("do", "default", "case"):
        return always_throws(s.get("b") or s.get("s"))
    return False


def always_leaves(s):
    """Every path through s ends in return or throw."""
    if s is None:
        return False
    k = s["k"]
    if k in ("throw", "ret") or (k == "call" and s.get("noret")):
        return True
    if k == "seq":
        return any(always_leaves(y) for y in s["s"] if y is not None)
    if k == "if":
        return always_leaves(s["t"]) and always_leaves(s.get("e"))
    if k == "do":
        return always_leaves(s["b"])
    return False


def always_exits(s):
    """Every path through s leaves by return/throw/break/continue."""
    if s is None:
        return False
    k = s["k"]
    if k in ("throw", "ret", "break", "continue"):
        return True
    if k == "call" and s.get("noret"):
        return True
    if k == "seq":
        return any(always_exits(y) for y in s["s"] if y is not None)
    if k == "if":
        return always_exits(s["t"]) and always_exits(s.get("e"))
    if k == "do":
        return always_leaves(s["b"])
    return False


def skey(t):
    return repr(t)


def mk_bin(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    elif op == "!=":
        return mk_not(mk_bin("==", a, b))
    # Constant folding of integer arithmetic.
    if a[0] == "lit" and b[0] == "lit" and type(a[1]) is int and type(b[1]) is int:
        if op == "+":
            return ("lit", a[1] + b[1])
        if op == "-":
            return ("lit", a[1] - b[1])
        if op == "*":
            return ("lit", a[1] * b[1])
    if op in ("&&", "||"):
        xs = []
        for y in (a, b):
            if y[0] == "bin" and y[1] == op:
                xs += list(y[2:])
            else:
                xs.append(y)
        ys = []
        for y in xs:
            if y not in ys:
                ys.append(y)
        if op == "&&":
            ys = [y for y in ys if y != ("lit", True)] or [("lit", True)]
            if ("lit", False) in ys:
                return ("lit", False)
        else:
            ys = [y for y in ys if y != ("lit", False)] or [("lit", False)]
            if ("lit", True) in ys:
                return ("lit", True)
        if len(ys) == 1:
            return ys[0]
        return ("bin", op) + tuple(sorted(ys, key=skey))
    if op in COMM or op in ("min", "max"):
        if skey(b) < skey(a):
            a, b = b, a
    return ("bin", op, a, b)


def mk_cat(*xs):
    """String concatenation."""
    out = []
    for t in xs:
        while t[0] == "ctor" and t[1] == "std::basic_string" and len(t) >= 3 and (len(t) == 3 or t[3][0] in ("ctor", "none")):
            t = t[2]
        if t[0] == "chr" or (t[0] == "lit" and isinstance(t[1], str) and len(t[1]) == 1):
            t = ("str", chr(t[1]) if t[0] == "chr" and isinstance(t[1], int) else t[1])
        for y in (t[1:] if t[0] == "cat" else (t,)):
            if y[0] == "str" and out and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + y[1])
            elif y != ("str", ""):
                out.append(y)
    return ("cat",) + tuple(out)


def mk_not(c):
    if c[0] == "un" and c[1] == "!":
        return c[2]
    if c[0] == "lit" and isinstance(c[1], bool):
        return ("lit", not c[1])
    if c[0] == "bin" and c[1] == "<":
        return ("bin", "<=", c[3], c[2])
    if c[0] == "bin" and c[1] == "<=":
        return ("bin", "<", c[3], c[2])
    if c[0] == "bin" and c[1] == "&&":
        r = [mk_not(y) for y in c[2:]]
        out = r[0]
        for y in r[1:]:
            out = mk_bin("||", out, y)
        return out
    if c[0] == "bin" and c[1] == "||":
        r = [mk_not(y) for y in c[2:]]
        out = r[0]
        for y in r[1:]:
            out = mk_bin("&&", out, y)
        return out
    return ("un", "!", c)


def truth(c):
    """Canonical truth value: x != 0 -> x, (m & b) == b -> m & b, ..."""
    if c[0] == "un" and c[1] == "!":
        return mk_not(truth(c[2]))
    if c[0] == "lit" and not isinstance(c[1], (bool, str)):
        return ("lit", bool(c[1]))
    if c[0] == "const" and isinstance(c[2], int):
        return ("lit", bool(c[2]))
    if c[0] == "bin" and c[1] == "==":
        for u, v in ((c[2], c[3]), (c[3], c[2])):
            if v == ("lit", 0) or v == ("lit", False):
                return mk_not(truth(u))
            if is_bool(v, True):
                return truth(u)
            if u[0] == "bin" and u[1] == "&" and v in u[2:] and v[0] in ("const", "lit"):
                val = v[-1]
                if isinstance(val, int) and val > 0 and val & (val - 1) == 0:
                    return u
    return c


def nonnull(t):
    """Value of a dereferenced pointer: its null alternative cannot apply."""
    while t[0] == "cond":
        if t[3] == ("lit", 0):
            t = t[2]
        elif t[2] == ("lit", 0):
            t = t[3]
        else:
            break
    return t


def is_bool(t, v):
    return t[0] == "lit" and t[1] is v


def mk_cond(c, a, b):
    if is_bool(c, True):
        return a
    if is_bool(c, False):
        return b
    if a == b:
        return a
    if c[0] == "un" and c[1] == "!":
        return mk_cond(c[2], b, a)
    # min / max idioms.
    if c[0] == "bin" and c[1] in ("<", "<="):
        l, r = c[2], c[3]
        if a == l and b == r:
            return mk_bin("min", l, r)
        if a == r and b == l:
            return mk_bin("max", l, r)
    if is_bool(a, True) and is_bool(b, False):
        return c
    if is_bool(a, False) and is_bool(b, True):
        return mk_not(c)
    if is_bool(b, False):
        return mk_bin("&&", c, truth(a))
    if is_bool(a, True):
        return mk_bin("||", c, truth(b))
    return ("cond", c, a, b)


def fmt(t):
    """Readable rendering of a normal form."""
    k = t[0]
    if k == "phi":
        return fmt(t[2]) + "#%d" % t[1]
    if k == "lit":
        return str(t[1])
    if k == "str":
        return '"%s"' % t[1]
    if k == "const":
        return t[1].rsplit("::", 1)[-1]
    if k in ("glob", "fn"):
        return t[1].rsplit("::", 1)[-1]
    if k == "this":
        return "this"
    if k in ("var", "parm"):
        return t[2]
    if k == "bind":
        return t[1]
    if k == "fld":
        b = fmt(t[2])
        return (b + "." if b != "this" else "") + t[1].rsplit("::", 1)[-1]
    if k == "bin":
        if t[1] in ("min", "max"):
            return "%s(%s)" % (t[1], ", ".join(fmt(y) for y in t[2:]))
        return "(" + (" %s " % t[1]).join(fmt(y) for y in t[2:]) + ")"
    if k == "un":
        return t[1] + fmt(t[2])
    if k == "asg":
        return "%s %s %s" % (fmt(t[2]), t[1], fmt(t[3]))
    if k == "cond":
        return "(%s ? %s : %s)" % tuple(fmt(y) for y in t[1:4])
    if k == "idx":
        return "%s[%s]" % (fmt(t[1]), fmt(t[2]))
    if k == "elem":
        return "each(%s)" % fmt(t[1])
    if k == "call":
        o = fmt(t[2]) + "." if t[2] else ""
        return "%s%s(%s)" % (o, t[1].rsplit("::", 1)[-1], ", ".join(fmt(y) for y in t[3:]))
    if k in ("ctor", "new"):
        return "%s%s(%s)" % ("new " if k == "new" else "", t[1].rsplit("::", 1)[-1], ", ".join(fmt(y) for y in t[2:]))
    if k == "init":
        return "{%s}" % ", ".join(fmt(y) for y in t[1:])
    if k == "cast":
        return "(%s)%s" % (t[1], fmt(t[2]))
    if k == "dyn":
        return "(%s?)%s" % (t[1].rsplit("::", 1)[-1], fmt(t[2]))
    if k == "cat":
        return " ++ ".join(fmt(y) for y in t[1:]) or '""'
    return k


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)
