"""C24: what the stencil compiler emits depends on the solution and its options alone."""
import re
from .. import facts
from ..ir import walk, children

TECHNIQUE = "type-based query for iteration over address-ordered containers with an order-insensitivity (commutativity) analysis of the loop bodies; call-graph and effect analysis of output_solution for other sources of variation"
LEVEL = "other"
LEVEL_NOTE = ("Every loop over a container ordered by addresses or by hashes of addresses, every comparison, hash, conversion or printing of an address, every call to a source of variation, "
              "every write to static storage and every accumulation into objects that outlive an output is enumerated over the whole compiler library and judged from the typed syntax tree.")
WHAT = "All functions of the compiler library and of the common library compiled into it, and those reachable from Solution::output_solution."
ASSUMPTIONS = ["Members called on the loop's own element affect only what belongs to that element.",
               "Rewriting of expression trees (commutative recombination, CSE, pairing) is not judged for idempotence.",
               "The standard library's iteration order of containers hashed by value is taken as deterministic."]
MIN = {"order": 1, "address": 3, "source": 200, "static": 0, "again": 1}

VARY = re.compile(r"^(std::)?(time|clock|clock_gettime|gettimeofday|times|getrusage|rand|rand_r|srand|random|srandom|drand48|lrand48|getenv|secure_getenv|getpid|getppid|gettid|gethostname|uname|localtime|localtime_r|"
                  r"gmtime|ctime|asctime|strftime|tmpnam|mkstemp|mktemp|tempnam|getuid|getcwd|getlogin|sysconf|sched_getcpu|omp_get_wtime|omp_get_thread_num|pthread_self)$")
VARYX = re.compile(r"(chrono::.*::now$|random_device|mersenne_twister|linear_congruential|uniform_\w+_distribution|normal_distribution|this_thread::get_id|filesystem::(current_path|last_write_time|temp_directory_path))")
UNSTABLE = re.compile(r"^(sort|nth_element|partial_sort|make_heap|sort_heap|push_heap|lower_bound|upper_bound|min_element|max_element|stable_sort|less)$")


def bare(t):
    t = (t or "").strip()
    while True:
        n = re.sub(r"^(const|volatile)\s+|\s*(&&?|\*?const|const)$", "", t).strip()
        if n == t:
            return t
        t = n


def targs(t):
    """(template name, arguments)."""
    m = re.match(r"^([\w:]+)<(.*)>$", t)
    if not m:
        return t, []
    out, d, a = [], 0, ""
    for ch in m.group(2):
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(a.strip())
            a = ""
        else:
            a += ch
    out.append(a.strip())
    return m.group(1), out


def is_addr(t):
    t = bare(t)
    if t.endswith("*"):
        return True
    n, a = targs(t)
    if n.split("::")[-1] in ("shared_ptr", "unique_ptr", "weak_ptr", "__shared_ptr"):
        return True
    if n.split("::")[-1] in ("pair", "tuple") and a:
        return any(is_addr(x) for x in a)
    return False


def by_address(t):
    """Is this container iterated in an order that depends on addresses?"""
    n, a = targs(bare(t))
    n = n.split("::")[-1]
    if n in ("set", "map", "multiset", "multimap", "unordered_set", "unordered_map", "unordered_multiset", "unordered_multimap", "priority_queue") and a:
        if not is_addr(a[0]):
            return False
        # an explicit comparison other than std::less decides the order itself
        cmp_i = {"set": 1, "multiset": 1, "map": 2, "multimap": 2}.get(n)
        if cmp_i is not None and len(a) > cmp_i and not a[cmp_i].startswith("std::less"):
            return False
        return True
    return False


def short(n):
    return (n or "").rsplit("::", 1)[-1]


def strip(x):
    while x is not None and x["k"] in ("cast", "defarg"):
        x = x["e"]
    return x


def root(x):
    """The variable an access path starts from, going through members, calls and dereferences; None if unknown."""
    while x is not None:
        k = x["k"]
        if k in ("mem", "idx"):
            x = x.get("b")
        elif k in ("cast", "defarg", "un"):
            x = x.get("e")
        elif k == "call":
            x = x.get("obj") or (x.get("a") or [None])[0]
        elif k == "ctor" and len(x.get("a") or []) == 1:
            x = x["a"][0]
        else:
            return x
    return None


FLT = ("float", "double", "long double")


class Order:
    """Is the body of a loop over distinct elements independent of their order?"""

    def __init__(self, P, loop):
        self.P = P
        self.why = None
        self.own = set()     # locals of the body
        self.elem = set()    # variables standing for (parts of) the element
        v = loop["v"]
        self.elem.add(v.get("d"))
        for n in walk(v) if "k" in v else ():
            if n.get("d"):
                self.elem.add(n["d"])
        for b in v.get("b") or v.get("binds") or ():
            if isinstance(b, dict) and b.get("d"):
                self.elem.add(b["d"])
        self.body(loop["b"])

    def no(self, n, why):
        if self.why is None:
            self.why = (n, why)

    def body(self, b):
        for n in walk(b):
            if n["k"] == "decl":
                for v in n["v"]:
                    self.own.add(v["d"])
                    i = v.get("init")
                    if i is not None:
                        r = root(strip(i))
                        if r is not None and r["k"] == "ref" and r.get("d") in self.elem and (v.get("t") or "").rstrip().endswith(("&", "*")) or (i and r is not None and r.get("d") in self.elem):
                            self.elem.add(v["d"])
                        elif (v.get("t") or "").rstrip().endswith(("&", "*")) and (r is None or r["k"] != "ref" or r.get("d") not in self.own):
                            self.own.discard(v["d"])   # stands for something outside
            elif n["k"] == "rfor":
                r = root(strip(n["r"]))
                if n["v"].get("d"):
                    self.own.add(n["v"]["d"])
                    if r is not None and r.get("d") in self.elem:
                        self.elem.add(n["v"]["d"])
            elif n["k"] == "lambda":
                for p in n.get("p") or ():
                    self.own.add(p.get("d"))
        self.best = set()
        for n in walk(b):
            if n["k"] == "if":
                self.extreme(n)
        for n in walk(b):
            self.node(n, b)

    def mine(self, x):
        r = root(strip(x))
        return r is not None and r["k"] == "ref" and (r.get("d") in self.own or r.get("d") in self.elem)

    def const(self, x):
        x = strip(x)
        return x is not None and (x["k"] in ("lit", "null", "chr", "str") or x.get("cv") is not None or x["k"] == "ctor" and not x.get("a") or x["k"] == "un" and self.const(x["e"]))

    def keyed(self, x):
        """c[key] or c.at(key) where the key is the element."""
        x = strip(x)
        if x["k"] == "idx":
            return self.mine(x["i"])
        if x["k"] == "call" and (x.get("op") == "[]" or short(x.get("n")) == "at") and x.get("a"):
            return self.mine(x["a"][-1])
        if x["k"] == "mem" and x.get("b") is not None:
            return self.keyed(x["b"])
        return False

    def minmax(self, l, r):
        r = strip(r)
        while r is not None and r["k"] == "ctor" and len(r.get("a") or []) == 1:
            r = strip(r["a"][0])
        if r is None or r["k"] != "call" or short(r.get("n")) not in ("min", "max"):
            return False
        return any(strip(a) is not None and strip(a)["k"] == l["k"] and strip(a).get("d") == l.get("d") and strip(a).get("f") == l.get("f") for a in r["a"])

    def extreme(self, n):
        """if (x > best) best = x;"""
        c = strip(n["c"])
        if c["k"] != "bin" or c["op"] not in ("<", ">", "<=", ">="):
            return
        for y in walk(n):
            if y["k"] == "asg" and y["op"] == "=":
                if {self.show(y["a"]), self.show(y["b"])} == {self.show(c["a"]), self.show(c["b"])}:
                    self.best.add(id(y))

    def show(self, x):
        x = strip(x)
        if x is None:
            return "?"
        k = x["k"]
        if k == "ref":
            return str(x.get("d"))
        if k == "mem":
            return self.show(x.get("b")) + "." + str(x.get("f"))
        if k == "lit":
            return str(x.get("v"))
        return k + "(" + ",".join(self.show(c) for c in children(x)) + ")" + str(x.get("n")) + str(x.get("op"))

    def store(self, n, l, op, r):
        if id(n) in self.best:
            return
        l = strip(l)
        if self.mine(l) or self.keyed(l):
            return
        if op == "=" and (self.const(r) or self.minmax(l, r)):
            return
        t = bare(l.get("t"))
        if op in ("+=", "-=", "|=", "&=", "^=", "*=") and t not in FLT and "string" not in t and "<" not in t:
            return
        self.no(n, "assigns something that outlives the iteration")

    def node(self, n, b):
        k = n["k"]
        if k == "asg":
            self.store(n, n["a"], n["op"], n.get("b"))
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            l = strip(n["e"])
            if not self.mine(l) and bare(l.get("t")) in FLT:
                self.no(n, "counts in floating point")
        elif k == "ret":
            if n.get("e") is not None and not self.const(n["e"]) and not self.inlambda(n, b):
                self.no(n, "returns something that depends on which element comes first")
        elif k == "break":
            if not self.inloop(n, b) and any(m["k"] in ("asg", "call") for m in walk(b)):
                # leaving early is only order-insensitive if nothing but constants was stored
                if any(self.effect(m) for m in walk(b)):
                    self.no(n, "stops at the first element that fits")
        elif k == "delete":
            if not self.mine(n.get("e") or {"k": "?"}):
                self.no(n, "frees something that outlives the iteration")
        elif k == "call":
            self.call(n)

    def effect(self, m):
        if m["k"] == "asg":
            return not self.const(m.get("b"))
        return m["k"] == "call" and (m.get("op") in ("=", "+=", "<<") or m.get("obj") is not None and not m.get("cst") and short(m.get("n")) not in QUIET)

    def inloop(self, n, b):
        for m in walk(b):
            if m["k"] in ("for", "rfor", "while", "do", "switch") and any(y is n for y in walk(m)):
                return True
        return False

    def inlambda(self, n, b):
        for m in walk(b):
            if m["k"] == "lambda" and any(y is n for y in walk(m)):
                return True
        return False

    def call(self, n):
        op, nm = n.get("op"), short(n.get("n"))
        a = n.get("a") or []
        if op in ("=", "+=", "-=", "|=", "&=", "*="):
            o = n.get("obj") or a[0]
            r = a[-1]
            if op != "=" and ("string" in (o.get("t") or "")):
                if not self.mine(o) and not self.keyed(o):
                    self.no(n, "builds a text")
                return
            self.store(n, o, op, r)
            return
        if op == "<<" or nm in ("write", "put", "print"):
            for x in ([n["obj"]] if n.get("obj") is not None else []) + a[:1]:
                if "stream" in (x.get("t") or ""):
                    r = root(strip(x))
                    if not (r is not None and r["k"] == "ref" and r.get("d") in self.own):
                        self.no(n, "writes text")
            return
        o = n.get("obj")
        if o is not None and not n.get("cst"):
            if self.mine(o) or self.keyed(o) or nm in QUIET:
                pass
            else:
                c = targs(bare(o.get("t")))[0].split("::")[-1]
                if nm in ("insert", "emplace", "erase") and c in ("set", "map", "unordered_set", "unordered_map", "multiset", "multimap"):
                    pass          # the set that results does not depend on the order
                elif op in ("()",):
                    self.no(n, "calls a function object")
                else:
                    self.no(n, "changes %s, which outlives the iteration (%s)" % (bare(o.get("t")), nm))
        for i in n.get("mr") or ():
            if i < len(a) and a[i] is not None and not self.mine(a[i]) and op is None:
                self.no(n, "passes something that outlives the iteration to %s to be changed" % nm)


QUIET = frozenset(("begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "operator[]", "get", "operator*", "operator->", "front", "back", "data", "count", "size",
                   "operator bool", "lookup", "operator++", "operator==", "operator!=", "top", "c_str", "str"))


class C24:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.done = set()
        self.conv = []

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.done:
            self.done.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def bad(self, rule, key, w, msg):
        if (rule, key) not in self.done:
            self.done.add((rule, key))
            self.rep.bad(rule, key, w, msg)

    def fns(self):
        for f in self.P.real_fns():
            if f.body is not None and "/kernel/" not in f.loc[0] and ("/compiler/lib/" in f.loc[0] or "/common/" in f.loc[0] or "/include/" in f.loc[0]):
                yield f

    def run(self):
        rep = self.rep
        rep.rule("order", "no effect of a loop over an address-ordered container depends on the order")
        rep.rule("address", "addresses are not compared, hashed, converted to numbers or printed")
        rep.rule("source", "no time, environment, process, random or thread data is used while generating")
        rep.rule("static", "nothing is carried over in static storage")
        rep.rule("again", "what an output accumulates in objects that outlive it is reset first")
        for f in self.fns():
            for n in f.nodes():
                self.loops(f, n)
                self.addresses(f, n)
        self.ok("address", "src/compiler/lib", "%d functions searched for comparison" % sum(1 for _ in self.fns()))
        self.ok("address", "src/compiler/lib", "%d functions searched for conversion and hashing" % sum(1 for _ in self.fns()))
        self.ok("address", "src/compiler/lib", "%d functions searched for printing" % sum(1 for _ in self.fns()))
        self.reach()

    def name(self, f, n):
        return "%s:%s" % (f.short, short(n.get("n")) if n.get("n") else n["k"])

    def loops(self, f, n):
        P = self.P
        if n["k"] == "rfor" and by_address(n["r"].get("t")):
            o = Order(P, n)
            v = short((strip(n["r"]) or {}).get("n") or "") or "container"
            if o.why is None:
                self.ok("order", P.at(n), "%s: loop over %s" % (f.short, v))
            else:
                self.bad("order", "%s:%s" % (f.short, v), P.at(n), "the loop over %s (%s) visits addresses in an unpredictable order, but %s at %s" %
                         (v, bare(n["r"].get("t"))[:60], o.why[1], P.at(o.why[0])))
        if n["k"] == "for" and n.get("init") is not None:
            for m in walk(n["init"]):
                if m["k"] == "call" and short(m.get("n")) in ("begin", "cbegin", "rbegin") and m.get("obj") is not None and by_address(m["obj"].get("t")):
                    self.iter(f, n, m["obj"])
        if n["k"] == "call" and n.get("op") is None:
            nm = short(n.get("n"))
            if nm in ("for_each", "copy", "transform", "accumulate", "front", "back", "top") or nm in ("begin", "cbegin") and n.get("obj") is not None:
                obs = [n["obj"]] if n.get("obj") is not None else [m["obj"] for a in n.get("a") or [] for m in walk(a) if m["k"] == "call" and short(m.get("n")) in ("begin", "cbegin") and m.get("obj") is not None]
                for o in obs:
                    if by_address(o.get("t")) and nm not in ("begin", "cbegin"):
                        self.bad("order", "%s:%s" % (f.short, nm), P.at(n), "%s uses the elements of %s in the order of their addresses" % (nm, bare(o.get("t"))[:60]))
                    elif by_address(o.get("t")) and nm in ("begin", "cbegin") and self.first_only(f, n):
                        self.bad("order", "%s:first" % f.short, P.at(n), "the first element of %s in the order of addresses is used" % bare(o.get("t"))[:60])

    def first_only(self, f, n):
        """*c.begin() or c.begin()->"""
        for m in f.nodes():
            if m["k"] == "call" and m.get("op") in ("*", "->") and any(y is n for y in walk(m)):
                o = m.get("obj") or (m.get("a") or [None])[0]
                x = strip(o)
                while x is not None and x["k"] == "ctor" and len(x.get("a") or []) == 1:
                    x = strip(x["a"][0])
                if x is n:
                    return True
        return False

    def iter(self, f, loop, obj):
        P = self.P
        it = [v["d"] for m in walk(loop["init"]) if m["k"] == "decl" for v in m["v"]]
        fake = {"v": {"d": it[0] if it else None}, "b": loop["b"]}
        o = Order(P, fake)
        v = short((strip(obj) or {}).get("n") or "") or "container"
        if o.why is None:
            self.ok("order", P.at(loop), "%s: loop over %s" % (f.short, v))
        else:
            self.bad("order", "%s:%s" % (f.short, v), P.at(loop), "the loop over %s visits addresses in an unpredictable order, but %s at %s" % (v, o.why[1], P.at(o.why[0])))

    def addresses(self, f, n):
        P = self.P
        k = n["k"]
        if k in ("bin", "op") and n.get("op") in ("<", ">", "<=", ">="):
            cs = list(children(n))
            if len(cs) == 2 and all(is_addr(c.get("t")) for c in cs):
                self.bad("address", f.short + ":compare", P.at(n), "addresses are compared for order")
        if k == "call":
            a = n.get("a") or []
            nm = short(n.get("n"))
            op = n.get("op")
            if op in ("<", ">", "<=", ">=") and (nm.startswith("operator") and (n.get("n") or "").startswith("std::")):
                xs = ([n["obj"]] if n.get("obj") is not None else []) + a
                if xs and all(is_addr(x.get("t")) for x in xs):
                    self.bad("address", f.short + ":compare", P.at(n), "addresses are compared for order")
            if op == "<<":
                xs = ([n["obj"]] if n.get("obj") is not None else []) + a
                if len(xs) == 2 and "stream" in (xs[0].get("t") or ""):
                    x = xs[1]
                    y = x
                    while y["k"] == "cast":
                        y = y["e"]
                    for t in (bare(x.get("t")), bare(y.get("t"))):
                        if is_addr(t) and not re.match(r"^(const )?(unsigned |signed )?(char|wchar_t)( const)? ?\*$", t) and y["k"] not in ("str",) and "(" not in t:
                            self.bad("address", f.short + ":print", P.at(n), "an address (%s) is written to a stream" % t[:60])
                            break
            if (n.get("n") or "").startswith("std::hash<") and op == "()" and is_addr(targs(bare((n.get("obj") or {}).get("t")))[1][0] if targs(bare((n.get("obj") or {}).get("t")))[1] else ""):
                self.bad("address", f.short + ":hash", P.at(n), "an address is hashed")
            if UNSTABLE.match(nm) and (n.get("n") or "").startswith("std::") and a:
                ts = [x.get("t") or "" for x in a]
                if len(a) == 3 and any(self.elem_addr(t) for t in ts[:1]) and re.search(r"\b(less|greater)(<|_equal)", ts[2]):
                    self.bad("address", f.short + ":" + nm, P.at(n), "%s() orders addresses" % nm)
                if len(a) == 2 and nm not in ("lower_bound", "upper_bound") and any(self.elem_addr(t) for t in ts[:1]):
                    self.bad("address", f.short + ":" + nm, P.at(n), "%s() orders addresses" % nm)
        if k == "cast" and re.match(r"^(unsigned |signed )?(long|int|char|short|long long|uintptr_t|intptr_t|size_t|std::size_t|unsigned)( long| int)?$", bare(n.get("t"))) and is_addr((n.get("e") or {}).get("t")):
            if n.get("ck", "") not in ("PointerToBoolean",):
                self.conv.append((f, n))

    def elem_addr(self, t):
        m = re.search(r"__normal_iterator<(.*?)\s*\*,", t)
        return bool(m and is_addr(m.group(1)))

    # --
    def reach(self):
        P = self.P
        roots = P.named("yask::Solution::output_solution")
        seen = {}
        work = [f for f in roots if f.body is not None]
        while work:
            g = work.pop()
            if g.u in seen:
                continue
            seen[g.u] = g
            for n in g.nodes():
                if n["k"] in ("call", "ctor", "new"):
                    work += [t for t in P.targets(n) if t.body is not None]
                elif n["k"] == "ref" and n.get("dk") == "func" and n.get("fn"):
                    t = P.fns.get(n["fn"]) if hasattr(P, "fns") else None
                    if t is not None and t.body is not None:
                        work.append(t)
        fns = sorted(seen.values(), key=lambda f: f.where())
        for g in fns:
            hit = False
            for n in g.nodes():
                if n["k"] in ("call", "ctor") and n.get("n") and not [t for t in P.targets(n) if t.body is not None]:
                    nm = n["n"]
                    if VARY.match(nm) or VARYX.search(nm):
                        hit = True
                        self.bad("source", "%s:%s" % (g.short, short(nm)), P.at(n), "%s() is called while code is generated" % nm)
            if not hit:
                self.ok("source", g.where(), g.short)
        live = {g.u for g in self.fns() for n in g.nodes() if n["k"] in ("call", "ctor") for g in self.P.targets(n)} | set(seen)
        for f, n in self.conv:
            if f.u in seen or f.u in live and self.feeds(f, seen):
                self.bad("address", f.short + ":number", P.at(n), "an address is converted to a number")
        self.statics(fns)
        self.again(fns)

    def feeds(self, f, seen):
        """Can what this function computes get into a solution, i.e. is it called from a function that is itself used?"""
        up, work = set(), [f.u]
        callers = {}
        for g in self.fns():
            for n in g.nodes():
                if n["k"] in ("call", "ctor"):
                    for t in self.P.targets(n):
                        callers.setdefault(t.u, set()).add(g.u)
        root = set(seen)
        while work:
            u = work.pop()
            if u in up:
                continue
            up.add(u)
            work += callers.get(u, ())
        # the conversion counts if a function without callers (an API function or main) uses it, other than itself or another conversion
        conv = {g.u for g, n in self.conv}
        return bool(up & root) or any(u not in conv and not callers.get(u) for u in up) and bool(up - conv)

    def statics(self, fns):
        """Static storage written on the way."""
        P = self.P
        uses = {}
        for g in fns:
            par = {}
            for n in g.nodes():
                for c in children(n):
                    par[id(c)] = n
            for n in g.nodes():
                if n["k"] == "ref" and n.get("dk") in ("glob", "slocal") or n["k"] == "mem" and n.get("b") is None:
                    t = n.get("t") or ""
                    if t.startswith("const ") and not t.endswith("*") or "std::" in n["n"][:5]:
                        continue
                    uses.setdefault(n["n"], []).append((g, n, par))
        for v, us in sorted(uses.items()):
            wr = []
            kinds = set()
            for g, n, par in us:
                w = self.written(n, par)
                if w:
                    wr.append((g, n, w))
                kinds.add(w or "read")
            if not wr:
                self.ok("static", P.at(us[0][1]), "%s is only read" % v)
                continue
            bad = [x for x in wr if x[2] not in ("push_back", "insert", "emplace", "emplace_back")]
            sized = [1 for g, n, par in us if self.kind(n, par) in ("size", "length", "count")]
            if not bad and not sized:
                self.ok("static", P.at(wr[0][1]), "%s only grows and is only searched" % v)
            else:
                g, n, w = (bad or wr)[0]
                self.bad("static", v, P.at(n), "%s, which outlives the output, is changed while code is generated (%s)" % (v, w))

    def kind(self, n, par):
        p = par.get(id(n))
        while p is not None and p["k"] in ("cast", "mem", "idx"):
            n, p = p, par.get(id(p))
        return short(p.get("n")) if p is not None and p["k"] == "call" and p.get("obj") is n else None

    def written(self, n, par):
        p = par.get(id(n))
        c = n
        while p is not None and (p["k"] in ("cast", "idx") or p["k"] == "mem"):
            c, p = p, par.get(id(p))
        if p is None:
            return None
        if p["k"] == "asg" and p["a"] is c:
            return p["op"]
        if p["k"] == "un" and p["op"] in ("++", "--", "p++", "p--"):
            return p["op"]
        if p["k"] == "call":
            if p.get("op") in ("=", "+=", "++", "--") and (p.get("obj") is c or (p.get("a") or [None])[0] is c):
                return p["op"]
            if p.get("obj") is c and not p.get("cst") and short(p.get("n")) not in QUIET:
                return short(p.get("n"))
        return None

    KEEP = ("Solution", "CompilerSettings", "Dimensions", "Vars", "Var", "Eqs", "VarPoint", "LogicalVar")
    ACC = ("push_back", "emplace_back", "append", "push_front", "push", "operator+=")

    def again(self, fns):
        P = self.P
        get = {}   # accessor -> field
        for f in self.fns():
            b = f.body
            ss = [s for s in b["s"]] if b["k"] == "seq" else []
            if len(ss) == 1 and ss[0]["k"] == "ret" and ss[0].get("e") is not None:
                e = strip(ss[0]["e"])
                if e["k"] == "mem" and (e.get("b") or {}).get("k") == "this":
                    get[f.u] = e["f"]
        self.get = get
        self.memo = {}
        self.lib = {g.u for g in fns}
        left = {}
        for f in P.named("yask::Solution::output_solution"):
            if f.body is not None:
                for key, n, g in self.summary(f)[1]:
                    left.setdefault((key, id(n)), (key, n, g))
        for key, n, g in left.values():
            if not isinstance(key, str):
                continue
            cls, fn = key.rsplit("::", 2)[-2], short(key)
            if cls == "CompilerSettings":
                self.bad("again", "%s:%s" % (cls, fn), P.at(n), "the option %s is changed by each output" % fn)
            else:
                self.bad("again", "%s:%s" % (cls, fn), P.at(n), "%s::%s accumulates over outputs: nothing resets it before %s" % (cls, fn, g.short))

    def keep(self, fl):
        return fl is not None and (not isinstance(fl, str) or fl.rsplit("::", 2)[-2] in self.KEEP)

    def summary(self, g):
        """(what is certainly reset, what is accumulated without a reset before) by a function."""
        if g.u not in self.memo:
            self.memo[g.u] = (frozenset(), [])       # recursion
            al = {}
            for q in g.params:
                t = (q.get("t") or "").rstrip()
                if t.endswith("&") and not t.startswith("const "):
                    al[q.get("d")] = ("p", q.get("d"))
            self.memo[g.u] = self.scan(g, g.body, al, {})
        return self.memo[g.u]

    def scan(self, g, body, alias, lams):
        P, get = self.P, self.get
        alias, lams = dict(alias), dict(lams)
        skip = set()
        for n in walk(body):
            if n["k"] == "decl":
                for v in n["v"]:
                    i = v.get("init")
                    if i is None:
                        continue
                    j = strip(i)
                    while j is not None and j["k"] == "ctor" and len(j.get("a") or []) == 1:
                        j = strip(j["a"][0])
                    if j is not None and j["k"] == "lambda":
                        lams[v["d"]] = j
                        for m in walk(j):
                            if m is not j:
                                skip.add(id(m))
                    elif (v.get("ref") or (v.get("t") or "").rstrip().endswith(("&", "*"))):
                        fl = self.field(i, alias, get)
                        if fl:
                            alias[v["d"]] = fl
        reset, accs = [], []
        order = [n for n in walk(body) if id(n) not in skip]
        enc = self.enclosing(body)

        def note(what, key, n, g2, at):
            e = enc.get(id(at), ())
            if not self.keep(key):
                return
            if what == "reset":
                while e and e[-1][1] == "each":
                    e = e[:-1]
                reset.append((key, e))
            elif any(r[0] == key and tuple(r[1]) == tuple(e[:len(r[1])]) for r in reset):
                if isinstance(key, str):
                    self.ok("again", P.at(n), "%s is reset before %s accumulates it" % (short(key), g2.short))
            else:
                accs.append((key, n, g2))
        for n in self.evalorder(order, body):
            l = what = None
            if n["k"] == "asg":
                l = n["a"]
                what = self.sort(n["op"], n.get("b"), self.field(l, alias, get), alias, get)
            elif n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
                l, what = n["e"], "acc"
            elif n["k"] == "call":
                o = n.get("obj")
                a = n.get("a") or []
                nm = short(n.get("n"))
                if n.get("op") == "=" and (o is not None or a):
                    l = o if o is not None else a[0]
                    what = self.sort("=", a[-1], self.field(l, alias, get), alias, get)
                elif o is not None and (nm in ("clear", "assign") or nm == "resize" and len(a) >= 1 and self.zero(a[0]) or nm == "erase" and len(a) == 2 and self.whole(a)):
                    l, what = o, "reset"
                elif o is not None and nm == "swap" and len(a) == 1:
                    l, what = o, "reset"
                elif o is not None and (nm in self.ACC or n.get("op") == "+=") and not n.get("cst"):
                    l, what = o, "acc"
                    c = targs(bare(o.get("t")))[0].split("::")[-1]
                    if c in ("set", "map", "vector_set", "Tuple", "unordered_set", "Vars"):
                        what = None
                else:
                    lam = lams.get((strip(o) or {}).get("d")) if o is not None and n.get("op") == "()" else None
                    if lam is not None:
                        rs, ac = self.scan(g, lam["b"], alias, {k: v for k, v in lams.items() if v is not lam})
                        for key, m, g2 in ac:
                            note("acc", key, m, g2, n)
                        for key in rs:
                            note("reset", key, n, g, n)
                        continue
                    ts = [t for t in P.targets(n) if t.body is not None and t.u in self.lib]
                    if ts:
                        sums = []
                        for t in ts:
                            mp = {}
                            for i, q in enumerate(t.params):
                                if i < len(a) and a[i] is not None:
                                    mp[("p", q.get("d"))] = self.field(a[i], alias, get)
                            rs, ac = self.summary(t)
                            sums.append((frozenset(mp.get(k) if not isinstance(k, str) else k for k in rs), [(mp.get(k) if not isinstance(k, str) else k, m, g2) for k, m, g2 in ac]))
                        for rs, ac in sums:
                            for key, m, g2 in ac:
                                note("acc", key, m, g2, n)
                        for key in frozenset.intersection(*[x[0] for x in sums]):
                            note("reset", key, n, g, n)
                        continue
            fl = self.field(l, alias, get) if l is not None and what else None
            if fl:
                note(what, fl, n, g, n)
        return frozenset(k for k, e in reset if not e), accs

    def evalorder(self, order, body):
        """Nodes with operands before the operation."""
        inn = {id(n) for n in order}
        out = []

        def go(n):
            for c in children(n):
                go(c)
            if id(n) in inn:
                out.append(n)
        go(body)
        return out

    def zero(self, x):
        x = strip(x)
        return x is not None and (x.get("cv") == 0 or x.get("v") in (0, "0"))

    def whole(self, a):
        ns = []
        for x in a:
            x = strip(x)
            while x is not None and x["k"] == "ctor" and len(x.get("a") or []) == 1:
                x = strip(x["a"][0])
            ns.append(short(x.get("n")) if x is not None and x["k"] == "call" else None)
        return ns in (["begin", "end"], ["cbegin", "cend"])

    def sort(self, op, e, fl, alias, get):
        if op in ("|=", "&="):
            return None
        if op != "=":
            return "acc"
        if not self.mentions(e, fl, alias, get):
            return "reset"
        return None if self.idem(e, fl, alias, get) else "acc"

    def enclosing(self, b):
        out = {}

        def go(n, st):
            out[id(n)] = st
            if n["k"] == "if":
                go_(n.get("c"), st)
                if n.get("init") is not None and isinstance(n["init"], dict):
                    go_(n["init"], st)
                for i, key in enumerate(("a", "t", "b", "e")):
                    y = n.get(key)
                    if isinstance(y, dict) and "k" in y:
                        go(y, st + ((id(n), key),))
                return
            if n["k"] in ("for", "rfor", "while", "do", "switch", "lambda"):
                st = st + ((id(n), "each" if n["k"] in ("for", "rfor") else "loop"),)
            for c in children(n):
                go(c, st)

        def go_(n, st):
            if isinstance(n, dict) and "k" in n:
                go(n, st)
        go(b, ())
        return out

    def field(self, x, alias, get):
        x = strip(x)
        while x is not None:
            if x["k"] == "mem":
                return x.get("f") if x.get("b") is not None else None
            if x["k"] == "ref":
                return alias.get(x.get("d"))
            if x["k"] == "call":
                ts = self.P.targets(x)
                fl = {get.get(t.u) for t in ts}
                if len(fl) == 1 and None not in fl:
                    return fl.pop()
                if x.get("op") in ("[]", "*", "->") or short(x.get("n")) in ("at", "back", "front"):
                    x = strip(x.get("obj") or (x.get("a") or [None])[0])
                    continue
                return None
            if x["k"] in ("idx",):
                x = strip(x.get("b"))
                continue
            if x["k"] == "un" and x["op"] in ("*", "&"):
                x = strip(x["e"])
                continue
            return None
        return None

    def idem(self, e, fl, alias, get):
        """Is this value of a field, computed from the field, the same when computed again?  min/max, and removal of dimensions."""
        e = strip(e)
        while e is not None and e["k"] == "ctor" and len(e.get("a") or []) == 1:
            e = strip(e["a"][0])
        if e is None:
            return False
        if e["k"] == "call":
            nm = short(e.get("n"))
            if nm in ("min", "max") and not any(self.mentions(a, fl, alias, get) and self.field(a, alias, get) != fl for a in e.get("a") or ()):
                return True
            if nm.startswith(("remove", "erase", "without")) and e.get("obj") is not None and self.field(e["obj"], alias, get) == fl and not any(self.mentions(a, fl, alias, get) for a in e.get("a") or ()):
                return True
        if e["k"] == "cond":
            return all(self.field(x, alias, get) == fl or not self.mentions(x, fl, alias, get) for x in (e["a"], e["b"]))
        if e["k"] == "bin" and e["op"] in ("|", "||", "&", "&&"):
            return True
        return self.field(e, alias, get) == fl

    def mentions(self, e, fl, alias, get):
        return fl is not None and any(n["k"] in ("mem", "ref", "call") and self.field(n, alias, get) == fl for n in walk(e)) if e is not None else False


def check(rep, tier):
    P = facts.load_compiler()
    C24(rep, P).run()
