"""C13: library errors are reported as exceptions, never by ending the process."""
import re
from collections import defaultdict
from .. import facts
from ..ir import walk, children, strip_targs

WHAT = ("every call, throw, handler, destructor, parallel region and exception object of the kernel and compiler libraries, with the call graph between them "
        "(virtual calls resolved to all overriders, function objects to the lambdas passed)")
LEVEL = "other"
ASSUMPTIONS = ["assertions are a debugging aid that is compiled out of a release build",
               "inside parallel regions, looking a dimension up by a name that the library took from the same var, and resizing a scratch var whose offset alone is changed, do not throw",
               "running out of memory inside the C++ standard library, and access beyond the end of its containers, are not judged"]
MIN = {"end": 1, "type": 100, "nothrow": 40, "caught": 2, "sent": 100, "foreign": 1, "result": 3}

ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "terminate", "MPI_Abort", "raise", "kill", "pthread_exit", "pthread_kill", "longjmp", "siglongjmp",
        "__builtin_trap", "__builtin_abort", "__builtin_exit", "unexpected", "killpg", "tgkill", "thrd_exit", "execv", "execl", "execvp", "execve"}
DOC_EXIT = "yask::KernelEnv::exit"            # documented to end the process
# throw for bad names or sizes only; inside of a parallel region they are given those of the var itself
INSIDE = {"yask::YkVarBase::get_dim_posn", "yask::YkVarBase::resize"}
FOREIGN = re.compile(r"^(std::(__cxx11::)?)?(stoi|stol|stoll|stoul|stoull|stof|stod|stold|rethrow_exception|throw_with_nested|any_cast|basic_regex|basic_regex<[^ ]*>::(operator=|assign)|basic_regex::(operator=|assign))$")
# primitives that report failure by their result: name -> position of the argument that holds the result, or None for the value returned
PRIM = {"malloc": None, "calloc": None, "realloc": None, "aligned_alloc": None, "memalign": None, "valloc": None, "mmap": None,
        "numa_alloc_onnode": None, "numa_alloc_local": None, "numa_alloc": None, "fopen": None,
        "omp_target_alloc": None, "omp_target_alloc_device": None, "omp_target_alloc_shared": None, "omp_target_alloc_host": None,
        "posix_memalign": 0, "MPI_Win_allocate_shared": 4, "MPI_Init_thread": 3}


def base(n):
    return strip_targs(n).split("::")[-1] if isinstance(n, str) else ""


def nm(x):
    n = x.get("n")
    return strip_targs(n) if isinstance(n, str) else ""


def bare(t):
    t = (t or "").strip()
    for w in ("const ", "volatile ", "struct ", "class "):
        t = t.replace(w, "")
    return t.strip()


def handles(h):
    """Does this handler catch a yask_exception?"""
    t = h.get("t")
    if not isinstance(t, str) or t == "?":
        return True                       # catch (...)
    t = bare(t).rstrip("& ").replace("yask::", "")
    return t in ("yask_exception", "std::exception", "exception", "")


def foreign_handled(h):
    t = h.get("t")
    if not isinstance(t, str) or t == "?":
        return True
    t = bare(t).rstrip("& ")
    return t in ("std::exception", "exception", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::runtime_error", "std::regex_error", "")


def rec(x, try_ok=()):
    """(node, handlers of the try blocks it is in, is it in a handler) for all nodes below x."""
    st = [(x, (), False)]
    while st:
        n, hs, inh = st.pop()
        yield n, hs, inh
        if n.get("k") == "try":
            for h in n.get("h") or ():
                if h.get("b"):
                    st.append((h["b"], hs, True))
            if n.get("b"):
                st.append((n["b"], hs + tuple(n.get("h") or ()), inh))
            continue
        for c in children(n):
            st.append((c, hs, inh))


def lib(P, f):
    r = P.rel(f.loc[0])
    return r.startswith(("src/kernel/lib/", "src/compiler/lib/", "src/common/", "include/", "<gen>"))


class C13:
    def __init__(self, rep, P, tag):
        self.rep, self.P, self.tag = rep, P, tag
        self.seen = set()
        self.fns = [f for f in P.real_fns() if f.body is not None and lib(P, f)]

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.seen:
            self.seen.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def bad(self, rule, key, w, msg):
        if (rule, key, w) not in self.seen:
            self.seen.add((rule, key, w))
            self.rep.bad(rule, key, w, msg)

    # ---- call graph.
    def graph(self):
        P = self.P
        self.lam = {}                        # usr of a lambda's operator() -> lambda node
        for f in self.fns:
            for n in f.nodes():
                if n["k"] == "lambda" and n.get("fn"):
                    self.lam[n["fn"]] = n
        self.direct = defaultdict(list)      # fn usr -> throw nodes that may leave it
        self.calls = defaultdict(set)        # fn usr -> fn usrs called where an exception may leave
        self.callers = defaultdict(set)
        for f in self.fns:
            for r in f.roots():
                for n, hs, inh in rec(r):
                    if n.get("fn"):
                        for t in P.targets(n):
                            self.callers[t.u].add(f.u)
                            if not any(handles(h) for h in hs):
                                self.calls[f.u].add(t.u)
                    if n["k"] == "throw" and not any(handles(h) for h in hs):
                        self.direct[f.u].append(n)
        self.may = set(self.direct)
        ch = True
        while ch:
            ch = False
            for u, cs in self.calls.items():
                if u not in self.may and cs & self.may:
                    self.may.add(u)
                    ch = True

    def way(self, u, skip=()):
        seen, q = {u: None}, [u]
        while q:
            x = q.pop(0)
            if x in self.direct and x not in skip:
                p = []
                while x:
                    p.append(x)
                    x = seen[x]
                return [strip_targs(self.P.fns[y].n).replace("yask::", "") for y in reversed(p)]
            for c in sorted(self.calls[x]):
                if c in self.may and c not in seen and c not in skip:
                    seen[c] = x
                    q.append(c)
        return None

    # ---- rule end.
    def end(self):
        P = self.P
        okfn = {f.u for f in P.fns.values() if strip_targs(f.n) == DOC_EXIT}
        # helpers called by nothing but the documented exit
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.u not in okfn and not f.get("ov") and self.callers[f.u] and self.callers[f.u] <= okfn:
                    okfn.add(f.u)
                    ch = True
        for f in self.fns:
            n_calls = 0
            for n in f.nodes():
                if n["k"] not in ("call", "ref"):
                    continue
                nmn = n.get("n")
                b = base(nmn)
                full = strip_targs(nmn) if isinstance(nmn, str) else ""
                lib_own = n.get("fn") in P.fns
                if n["k"] == "ref":
                    continue
                n_calls += 1
                if b in ENDS and not lib_own and full in (b, "std::" + b):
                    if f.u in okfn:
                        self.ok("end", P.at(n), "%s in the documented exit" % b)
                    else:
                        self.bad("end", "%s calls %s" % (strip_targs(f.n), b), P.at(n), "this call ends the process; only %s is documented to do so" % DOC_EXIT)
                elif lib_own and any(t.u in okfn and strip_targs(t.n) == DOC_EXIT for t in P.targets(n)) and f.u not in okfn:
                    self.bad("end", "%s calls %s" % (strip_targs(f.n), full), P.at(n), "the library itself ends the process")
            if n_calls:
                self.ok("end", f.where(), strip_targs(f.n))

    # ---- rules type, sent, caught.
    def thrown(self):
        P = self.P
        for f in self.fns:
            for r in f.roots():
                for n, hs, inh in rec(r):
                    if n["k"] == "throw":
                        if n.get("e") is None:
                            if inh:
                                self.ok("type", P.at(n), "rethrow in %s" % strip_targs(f.n))
                            else:
                                self.bad("type", "%s rethrows outside of a handler" % strip_targs(f.n), P.at(n), "'throw;' without a current exception ends the process")
                            continue
                        t = bare(n.get("t"))
                        if t.replace("yask::", "") == "yask_exception":
                            self.ok("type", P.at(n), strip_targs(f.n))
                        else:
                            self.bad("type", "%s throws %s" % (strip_targs(f.n), t), P.at(n), "callers are told to expect yask_exception; this is a %s" % t)
                    elif n["k"] == "try":
                        self.handlers(f, n)
            self.objects(f)

    def handlers(self, f, n):
        P = self.P
        for h in n.get("h") or ():
            if not handles(h):
                # something foreign: has to become a yask_exception
                if not self.always(h.get("b")):
                    self.bad("caught", "%s swallows %s" % (strip_targs(f.n), h.get("t")), P.at(n), "a failure is caught and not reported")
                continue
            if self.always(h.get("b")):
                self.ok("caught", P.at(n), "%s passes it on" % strip_targs(f.n))
                continue
            # A trial: nothing but the test for circular dependences can fail in it.
            src = set()
            for m, hs, inh in rec(n["b"]):
                if m["k"] == "throw":
                    src.add(f.u)
                if m.get("fn"):
                    for t in P.targets(m):
                        if t.u in self.may:
                            src |= self.sources(t.u)
            names = {strip_targs(P.fns[u].n) for u in src}
            if names and all(re.match(r"yask::(Deps|DepGroup)::", x) for x in names):
                self.ok("caught", P.at(n), "%s tries for circular dependences" % strip_targs(f.n))
            elif not names:
                self.ok("caught", P.at(n), "nothing is thrown in the block")
            else:
                self.bad("caught", "%s swallows exceptions" % strip_targs(f.n), P.at(n), "the handler does not pass the exception on, and it may come from %s" % ", ".join(sorted(names)[:4]))

    def sources(self, u):
        seen, q, out = {u}, [u], set()
        while q:
            x = q.pop()
            if x in self.direct:
                out.add(x)
            for c in self.calls[x]:
                # texts are made for messages only; the visitors of a trial collect points
                if c in self.may and c not in seen and self.P.fns[c].short not in ("get_descr", "make_str", "make_quoted_str", "format", "accept"):
                    seen.add(c)
                    q.append(c)
        return out

    def always(self, b):
        """Does every path through b throw (or call something that always does)?"""
        if b is None:
            return False
        k = b.get("k")
        if k == "seq":
            for s in b.get("s") or b.get("b") or []:
                if isinstance(s, dict) and self.always(s):
                    return True
                if isinstance(s, dict) and any(x["k"] in ("ret", "break", "continue") for x in walk(s)):
                    return False
            return False
        if k == "throw":
            return True
        if k == "if":
            t, e = b.get("then") or b.get("t"), b.get("else") or b.get("e")
            return isinstance(t, dict) and isinstance(e, dict) and self.always(t) and self.always(e)
        if k == "do":
            return self.always(b.get("b"))
        if k == "call":
            ts = self.P.targets(b)
            return bool(ts) and all(t.body is not None and self.nested < 4 and self.deeper(t) for t in ts)
        if k == "cast":
            return self.always(b.get("e"))
        return False

    nested = 0

    def deeper(self, t):
        self.nested += 1
        try:
            return self.always(t.body)
        finally:
            self.nested -= 1

    def objects(self, f):
        """An exception object that is built is thrown (or handed out)."""
        P = self.P
        decl = {}
        used = set()
        for n in f.nodes():
            if n["k"] == "decl":
                for v in n.get("v") or n.get("d") or []:
                    if isinstance(v, dict) and bare(v.get("t")).replace("yask::", "") == "yask_exception":
                        decl[v.get("d")] = n
            if n["k"] in ("throw", "ret") and n.get("e"):
                for m in walk(n["e"]):
                    if m["k"] == "ref":
                        used.add(m.get("d"))
        for d, n in decl.items():
            if d in used:
                self.ok("sent", P.at(n), strip_targs(f.n))
            else:
                self.bad("sent", "%s builds an exception that is not thrown" % strip_targs(f.n), P.at(n), "the failure is not reported")
        # temporaries whose value is dropped
        for n in f.nodes():
            for s in n.get("s") or []:
                if isinstance(s, dict):
                    e = s
                    while e.get("k") == "cast" and isinstance(e.get("e"), dict):
                        e = e["e"]
                    if e.get("k") == "ctor" and base(e.get("n")) == "yask_exception":
                        self.bad("sent", "%s drops an exception" % strip_targs(f.n), P.at(e), "the failure is not reported")

    # ---- rule nothrow.
    def nothrow(self):
        P = self.P
        skip = {f.u for f in self.fns if strip_targs(f.n) in INSIDE}
        par = set()                       # (fn usr, index of parameter) that runs in a parallel region
        def pidx(f, d):
            for i, p in enumerate(f.params):
                if p.get("d") == d:
                    return i
            return None
        def root(e):
            while isinstance(e, dict) and e.get("k") in ("cast", "un", "op", "mem") and not e.get("k") == "lambda":
                e = e.get("e") or e.get("obj") or (e.get("a") or [None])[0]
            return e
        regions = []
        for f in self.fns:
            for n in f.nodes():
                if n["k"] == "omp" and re.search(r"parallel|task|teams|target|for|sections|single|critical", n.get("dir") or ""):
                    regions.append((f, n))
                    for m in walk(n):
                        o = m.get("obj") if m["k"] in ("op", "call") else None
                        if m["k"] == "call" and isinstance(m.get("callee"), dict):
                            o = m["callee"]
                        if (m["k"] == "op" or m["k"] == "call") and m.get("op") == "()" and o is None and m.get("a"):
                            o = m["a"][0]
                        o = root(o) if o is not None else None
                        if isinstance(o, dict) and o.get("k") == "ref":
                            i = pidx(f, o.get("d"))
                            if i is not None:
                                par.add((f.u, i))
        lams = {}
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                loc = None
                for n in f.nodes():
                    if n["k"] != "call" or not n.get("fn"):
                        continue
                    for t in P.targets(n):
                        for i, a in enumerate(n.get("a") or []):
                            if (t.u, i) not in par or not isinstance(a, dict):
                                continue
                            for m in walk(a):
                                if m["k"] == "lambda":
                                    lams[id(m)] = (f, m)
                                elif m["k"] == "ref":
                                    j = pidx(f, m.get("d"))
                                    if j is not None:
                                        if (f.u, j) not in par:
                                            par.add((f.u, j))
                                            ch = True
                                    else:
                                        v = f.locals().get(m.get("d")) if m.get("d") else None
                                        ini = (v or {}).get("decl", {}).get("init") if v else None
                                        if isinstance(ini, dict):
                                            for q in walk(ini):
                                                if q["k"] == "lambda":
                                                    lams[id(q)] = (f, q)
        for f, n in regions + sorted(lams.values(), key=lambda x: (x[0].n, x[1].get("l") or [])):
            what = "a parallel region" if n["k"] == "omp" else "a function object that runs in a parallel region"
            self.inside(f, n, what, skip)
        for f in self.fns:
            if "~" in f.short:
                self.inside(f, f.body, "a destructor", skip)
            elif f.get("nx") or f.short == "what" and f.get("ov"):
                self.inside(f, f.body, "a function declared not to throw", skip)

    def inside(self, f, n, what, skip):
        P = self.P
        where = P.at(n) if n.get("l") else f.where()
        fine = True
        body = n.get("b") if n["k"] in ("omp", "lambda") and isinstance(n.get("b"), dict) else n
        for m, hs, inh in rec(body):
            if any(handles(h) for h in hs):
                continue
            if m["k"] == "throw":
                fine = False
                self.bad("nothrow", "%s throws in %s" % (strip_targs(f.n), what), P.at(m), "an exception that leaves %s ends the process" % what)
            elif m.get("fn"):
                for t in P.targets(m):
                    if t.u in self.may and t.u not in skip:
                        w = self.way(t.u, skip)
                        if w:
                            fine = False
                            self.bad("nothrow", "%s may throw in %s, by %s" % (strip_targs(f.n), what, strip_targs(t.n)), P.at(m),
                                     "an exception that leaves %s ends the process; it is thrown by %s" % (what, " > ".join(w)))
        if fine:
            self.ok("nothrow", where, "%s in %s" % (what, strip_targs(f.n)))

    # ---- rule foreign.
    def foreign(self):
        P = self.P
        for f in self.fns:
            for r in f.roots():
                for n, hs, inh in rec(r):
                    if n["k"] not in ("call", "ctor", "op", "asg"):
                        continue
                    b = nm(n)
                    if not FOREIGN.match(b) or n.get("fn") in P.fns:
                        continue
                    a = [x for x in n.get("a") or [] if isinstance(x, dict) and x.get("k") != "defarg"]
                    if "basic_regex" in b:
                        if n.get("op") == "=" and len(a) > 1:
                            a = a[1:]
                        if not a:
                            continue
                        e = a[0]
                        while e.get("k") == "cast":
                            e = e.get("e") or {}
                        if e.get("k") == "str" or (bare(e.get("t")).find("regex") >= 0):
                            self.ok("foreign", P.at(n), "regular expression given in the source")
                            continue
                    if any(foreign_handled(h) for h in hs):
                        self.ok("foreign", P.at(n), "%s in a block whose handler reports it" % b)
                    else:
                        self.bad("foreign", "%s: %s" % (strip_targs(f.n), b), P.at(n), "%s reports a bad value by an exception that is not a yask_exception" % b)

    # ---- rule result.
    def result(self):
        P = self.P
        for f in self.fns:
            for n in f.nodes():
                if n["k"] != "call" or n.get("fn") in P.fns:
                    continue
                b = base(n.get("n"))
                if b not in PRIM or nm(n) not in (b, "std::" + b):
                    continue
                if self.tested(f, n, PRIM[b]):
                    self.ok("result", P.at(n), "%s in %s" % (b, strip_targs(f.n)))
                else:
                    self.bad("result", "%s: result of %s" % (strip_targs(f.n), b), P.at(n), "failure of %s is not tested, so it is not reported by an exception" % b)

    def tested(self, f, call, pos, depth=0):
        """Is there, in f, a branch on the result of the call one side of which throws?"""
        vs = set()
        if pos is not None:
            a = (call.get("a") or [])
            if pos >= len(a):
                return False
            vs |= {m["d"] for m in walk(a[pos]) if m["k"] == "ref" and m.get("d")}
        ch = True
        while ch:
            ch = False
            for n in f.nodes():
                tgt = src = None
                if n["k"] == "asg":
                    tgt, src = n.get("lhs") or n.get("a"), n.get("rhs") or n.get("b")
                    pairs = [(tgt, src)]
                elif n["k"] == "decl":
                    pairs = [({"k": "ref", "d": v.get("d")}, v.get("init")) for v in n.get("v") or n.get("d") or [] if isinstance(v, dict)]
                else:
                    continue
                for t, s in pairs:
                    if isinstance(t, list):
                        t = t[0] if t else None
                    if not isinstance(t, dict) or not isinstance(s, dict):
                        continue
                    if any(m is call or (m["k"] == "ref" and m.get("d") in vs) for m in walk(s)):
                        for m in walk(t):
                            if m["k"] == "ref" and m.get("d") and m["d"] not in vs:
                                vs.add(m["d"])
                                ch = True
        for n in f.nodes():
            if n["k"] in ("if", "while", "cond"):
                c = n.get("c")
                if isinstance(c, dict) and any(m is call or (m["k"] == "ref" and m.get("d") in vs) for m in walk(c)):
                    for kk, b in n.items():
                        if kk != "c" and isinstance(b, dict) and any(self.throwing(m) for m in walk(b)):
                            return True
        # returned: then every caller tests it
        if depth < 3:
            rets = [n for n in f.nodes() if n["k"] == "ret" and isinstance(n.get("e"), dict)
                    and any(m is call or (m["k"] == "ref" and m.get("d") in vs) for m in walk(n["e"]))]
            if rets:
                cs = [(g, m) for g in self.fns for m in g.nodes() if m["k"] == "call" and m.get("fn") and any(t.u == f.u for t in self.P.targets(m))]
                return bool(cs) and all(self.tested(g, m, None, depth + 1) for g, m in cs)
        return False

    def throwing(self, m):
        if m["k"] == "throw":
            return True
        return bool(m.get("fn")) and m["k"] == "call" and any(t.u in self.direct for t in self.P.targets(m))

    def run(self):
        rep = self.rep
        rep.rule("end", "the process is ended by the documented exit only")
        rep.rule("type", "what is thrown is a yask_exception, or what was caught")
        rep.rule("nothrow", "no exception can leave a parallel region, a destructor or a function declared not to throw, which would end the process")
        rep.rule("caught", "an exception that is caught is passed on; only trials for circular dependences are answered otherwise")
        rep.rule("sent", "an exception object that is built is thrown")
        rep.rule("foreign", "standard functions that report a bad value by their own exception are used on constants only, or where that is turned into a yask_exception")
        rep.rule("result", "failure of an allocation or initialisation that is reported by a result is tested and thrown")
        self.graph()
        self.end()
        self.thrown()
        self.nothrow()
        self.foreign()
        self.result()


def check(rep, tier):
    C13(rep, facts.load_kernel(), "K").run()
    C13(rep, facts.load_compiler(), "C").run()
