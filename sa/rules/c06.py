"""C06: message requests are completed and shared buffers released before their buffers are used again."""
from .. import facts
from ..ir import walk, strip_targs
from ..tstate import TS, Explode, Fr, pstr, rawtext, short

TECHNIQUE = "typestate analysis (posted -> completed -> used; permission -> access -> release) over the typed syntax tree, path-sensitive and interprocedural"
LEVEL = "other"
LEVEL_NOTE = ("Abstract states of every request and shared buffer are pushed along every path of exchange_halos, phase by phase; a buffer access without "
              "completion or permission, a permission not released exactly once, a request never completed and an unchecked message count are reported.")
WHAT = "exchange_halos, adv_halo_exchange, the lock that guards shared buffers and the buffer functions that forward to it."
ASSUMPTIONS = ["MPI behaves as specified; the processor orders the volatile accesses of the lock as x86 does.",
               "Both sides run the same code; that they agree on extents is declined as N04."]
MIN = {"access": 3, "release": 2, "complete": 2, "count": 2, "lock": 8, "match": 2}

FLAGS = frozenset(("do_mpi_interior", "do_mpi_left", "do_mpi_right"))
READ = ("set_vecs_in_slice", "set_elements_in_slice_void")      # from the buffer
WRITE = ("get_vecs_in_slice", "get_elements_in_slice_void")     # into the buffer
LOCK = ("wait_for_ok_to_read", "wait_for_ok_to_write", "mark_read_done", "mark_write_done", "set_data", "get_data")


def bodies(P, name):
    return sorted((f for f in P.named(name) if f.body and not f.dep), key=lambda f: f.where())


class Halo(TS):
    tracked = FLAGS

    def __init__(self, P, c, f):
        super().__init__(P)
        self.c, self.f = c, f
        self.posts = {}         # request -> list of (phase, facts, buffer, kind, where)
        self.done = {}          # request -> phases
        self.locks = {}         # event -> list of facts
        self.ends = []
        self.access = []
        self.sums = {}
        self.inits = {}
        asg = set()
        for n in f.nodes():
            if n["k"] == "decl":
                for v in n["v"]:
                    if v.get("init") is not None:
                        self.inits[v["d"]] = v["init"]
            elif n["k"] == "asg" and n["a"]["k"] == "ref":
                asg.add(n["a"]["d"])
            elif n["k"] == "un" and n["op"] in ("++", "--") and n["e"]["k"] == "ref":
                asg.add(n["e"]["d"])
        self.asg = asg

    def interesting(self, x):
        n = short(x.get("n"))
        return n in READ + WRITE + LOCK or n in ("MPI_Irecv", "MPI_Isend", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "MPI_Send")

    def want_inline(self, f):
        return not f.cls or "StencilContext" in f.cls

    def keytext(self, x, fr):
        y = strip(x)
        if y["k"] == "call" and short(y.get("n")) == "get_bytes" and y.get("obj") is not None:
            p = self.path(y["obj"], fr)
            return "(%s.get_bytes())" % (pstr(p) if p is not None else rawtext(y["obj"]))
        return "(%s)" % self.text(y, fr)

    def fork(self, x, fr, st):
        y = strip(x)
        if y["k"] == "bin" and y["op"] in ("==", "!=", "<", "<=", ">", ">=") and not is_zero(y["b"]):
            # a comparison with its own conversion, or with a limit, that checks a count
            a, b = strip(y["a"]), strip(y["b"])
            op = y["op"]
            n = None
            if a["k"] == "ref" and (b["k"] == "ref" and a["d"] == b.get("d") or b.get("cv") is not None or "numeric_limits" in rawtext(b) or "max()" in rawtext(b)):
                n = a
            elif b["k"] == "ref" and a.get("cv") is not None:
                n, op = b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if n is not None:
                good = op in ("==", "<", "<=")
                return [(st.set(("chk", n["d"]), True), good), (st, not good)]
        neg = False
        if y["k"] == "bin" and y["op"] in ("==", "!=", ">") and is_zero(y["b"]):
            neg = y["op"] == "=="
            y = strip(y["a"])
        key = None
        if y["k"] == "ref" and y["d"] in self.inits and y["d"] not in self.asg and not fr.bind.get(y["d"]):
            i = self.inits[y["d"]]
            t = self.keytext(i, fr)
            if y.get("t", "").replace("const ", "") != "bool" or "bufs" in t:
                key = ("atom", t, frozenset())
        elif y["k"] == "call" and short(y.get("n")) == "get_bytes":
            key = ("atom", self.keytext(y, fr), frozenset())
        if key is not None:
            if st.get(key) is not None:
                return [(st, st[key] != neg)]
            return [(st.set(key, True), not neg), (st.set(key, False), neg)]
        return super().fork(x, fr, st)

    def drop(self, st, ds):
        # what a condition was, is remembered beyond the scope of the local that held it
        for k, v in list(st.items()):
            if (isinstance(k, tuple) and len(k) == 3 and k[0] == "v" and k[1] in ds and isinstance(v, bool) and k[1] not in self.asg
                    and k[1] in self.inits and any(n["k"] == "cond" or n["k"] == "bin" and n["op"] in ("&&", "||") for n in walk(self.inits[k[1]]))):
                st = st.set(("was", k[2]), v)
        return super().drop(st, ds)

    def ph(self, st):
        for k, v in st.items():
            if isinstance(k, tuple) and k and k[0] == "list" and isinstance(v, tuple) and len(v) and all(isinstance(i, int) for i in v):
                for k2, v2 in st.items():
                    if isinstance(k2, tuple) and len(k2) == 3 and k2[0] == "v" and not isinstance(v2, bool) and isinstance(v2, int) and v2 in v:
                        return v2, v
        return None, ()

    def facts(self, st):
        r = {}
        for k, v in st.items():
            if not isinstance(v, bool) or not isinstance(k, tuple) or not k:
                continue
            if k[0] == "atom":
                r[k[1].replace("bufs[0]", "B").replace("bufs[1]", "B")] = v
            elif k[0] == "was":
                r[k[1]] = v
            elif k[0] in ("v", ".") and not (k[0] == "." and k[2] in FLAGS):
                r[pstr(k)] = v
        return r

    def deep(self, x, fr, n=0):
        """Text of an expression with single-assignment locals replaced by what they were initialised with."""
        y = strip(x)
        if y["k"] == "ref" and y["d"] in self.inits and y["d"] not in self.asg and n < 6 and not fr.bind.get(y["d"]):
            return self.deep(self.inits[y["d"]], fr, n + 1)
        if y["k"] == "cond":
            return "%s?%s:%s" % (self.text(y["c"], fr), self.deep(y["a"], fr, n + 1), self.deep(y["b"], fr, n + 1))
        return self.text(y, fr)

    def buf(self, t):
        for b in ("bufs[0]", "bufs[1]"):
            if b in t:
                return b
        return None

    def on_call(self, x, fr, st):
        n = short(x["n"])
        c, w = self.c, self.P.at(x)
        args = x.get("a") or []
        ph, lst = self.ph(st)
        if n in ("MPI_Irecv", "MPI_Isend"):
            q = self.req(args[6], fr)
            b = self.buf(self.deep(args[0], fr))
            self.posts.setdefault(q, []).append((ph, self.facts(st), b, n, w, [self.text(a, fr) for a in args], lst, self.flags(st)))
            if st.get(("live", q)):
                c.fail("complete", "%s:twice" % n, w, "%s can be posted on a request that is still in use" % n)
            # count
            A = self.text(strip(args[1]), fr)
            known = strip(args[1])["k"] == "ref" and st.get(("chk", strip(args[1])["d"]))
            if strip(args[1]).get("cv") is not None or (args[1].get("t") or "") in ("int", "const int") and strip1(args[1]).get("t") in ("int", "const int") and strip1(args[1])["k"] == "ref":
                c.ok("count", w, "%s: the count is an int" % n)
            elif known:
                c.ok("count", w, "%s: %s checked" % (n, A))
            else:
                c.fail("count", n, w, "the count of %s (%s) is converted to int without having been checked" % (n, A))
            if n == "MPI_Isend":
                st = st.set(("sent", b), True)
            return [(st.set(("live", q), True), None)]
        if n in ("MPI_Recv", "MPI_Send"):
            return [(st, None)]
        if n == "MPI_Wait":
            q = self.req(args[0], fr)
            self.done.setdefault(q, set()).add((ph, lst))
            return [(st.set(("done", q), True).set(("live", q), None), None)]
        if n == "MPI_Waitall":
            q = self.req(args[1], fr)
            self.done.setdefault(q, set()).add((ph, lst))
            return [(st.set(("done", q), True).set(("live", q), None), None)]
        if n in READ + WRITE:
            b = self.buf(self.text(args[0], fr))
            if b is None:
                b = self.buf(self.deep(args[0], fr))
            way = "r" if n in READ else "w"
            ok = st.get(("ok" + way, b))
            rel = st.get(("rel" + way, b))
            self.access.append((way, b, w, self.facts(st), ok, rel, {k[1] for k in st if isinstance(k, tuple) and k[0] in ("done", "null")}, ph, lst, self.nulls(st)))
            return [(st, None)]
        # locks
        o = self.path(x["obj"], fr) if x.get("obj") is not None else fr.this
        b = self.buf(pstr(o)) if o is not None else None
        self.locks.setdefault((n, b), []).append((self.facts(st), w, ph))
        if n.startswith("wait_for_ok_to_"):
            way = "r" if n.endswith("read") else "w"
            return [(st.set(("ok" + way, b), w), None)]
        if n in ("mark_read_done", "mark_write_done"):
            way = "r" if n == "mark_read_done" else "w"
            if not st.get(("ok" + way, b)):
                c.fail("release", "%s:unowned" % n, w, "%s is reached on a path that did not wait for the permission" % n)
            elif st.get(("rel" + way, b)):
                c.fail("release", "%s:twice" % n, w, "%s can be called twice for one permission" % n)
            elif way == "w" and not st.get(("size", b)):
                c.fail("release", "%s:size" % n, w, "the buffer is released to the reader before its size was stored")
            else:
                c.ok("release", w, n)
            return [(st.set(("rel" + way, b), True), None)]
        if n == "set_data":
            if st.get(("relw", b)):
                c.fail("release", "set_data:late", w, "the size is stored after the buffer was released to the reader")
            return [(st.set(("size", b), True), None)]
        if n == "get_data":
            if not st.get(("okr", b)):
                c.fail("access", "get_data:early", w, "the size is read before the buffer may be read")
            elif st.get(("relr", b)):
                c.fail("access", "get_data:late", w, "the size is read after the buffer was released to the writer")
            else:
                c.ok("access", w, "size read with permission")
        return [(st, self.value(x, fr, st))]

    def req(self, x, fr):
        p = self.path(x, fr)
        t = pstr(p) if p is not None else self.deep(x, fr)
        return "recv_reqs" if "recv_reqs" in t else "send_reqs" if "send_reqs" in t else t

    def nulls(self, st):
        """Requests known to be null on this path."""
        r = set()
        for k, v in st.items():
            if isinstance(k, tuple) and k and k[0] == "atom" and isinstance(v, bool):
                t = k[1]
                for q in ("recv_reqs", "send_reqs"):
                    if q in t and ("==" in t and v or "!=" in t and not v):
                        r.add(q)
        return r

    def on_store(self, path, val, x, fr, st):
        t = pstr(path) if path is not None else ""
        if x["k"] == "asg" and x["op"] == "=":
            q = "recv_reqs" if "recv_reqs[" in t else "send_reqs" if "send_reqs[" in t else None
            if q:
                if not st.get(("done", q)) and q not in self.nulls0(st, x, fr):
                    self.sums.setdefault(("drop", q), []).append((self.P.at(x), self.facts(st), self.ph(st)))
                return st.set(("null", q), True).set(("live", q), None)
        return st

    def nulls0(self, st, x, fr):
        return self.nulls(st) | {k[1] for k in st if isinstance(k, tuple) and k[0] == "null"}

    def kill(self, st, p):
        # an assignment to a request forgets what was known about it: judge the assignment first
        t = pstr(p)
        for q in ("recv_reqs", "send_reqs"):
            if q + "[" in t and q in self.nulls(st):
                st = st.set(("null", q), True)
        return super().kill(st, p)

    def flags(self, st):
        return {f: next((v for k, v in st.items() if isinstance(k, tuple) and k and k[0] == "." and k[2] == f), None) for f in FLAGS}

    def on_lambda_end(self, lam, st):
        if not any(n["k"] == "call" and self.interesting(n) for n in walk(lam["b"])):
            return st
        ph, lst = self.ph(st)
        mine = {k: v for k, v in st.items() if isinstance(k, tuple) and k and k[0] in ("live", "done", "null", "okr", "okw", "relr", "relw", "size", "sent")}
        self.ends.append((ph, lst, self.facts(st), {k: v for k, v in mine.items()}, self.nulls(st), self.flags(st)))
        for k in list(st):
            if isinstance(k, tuple) and k and (k in mine or k[0] in ("was", "chk") or k[0] == "atom" and ("bufs" in k[1] or "reqs" in k[1])):
                st = st.set(k, None)
        return st


class C06:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.okd = set()

    def ok(self, rule, w, what):
        if (rule, w, what) not in self.okd:
            self.okd.add((rule, w, what))
            self.rep.ok(rule, w, what)

    def fail(self, rule, key, w, msg):
        self.rep.bad(rule, key, w, msg)

    def run(self):
        rep, P = self.rep, self.P
        rep.rule("access", "a buffer is read only after its receive was completed or its writer allowed it, and written only after its reader allowed it")
        rep.rule("release", "each permission is released exactly once, after the access and after the size was stored, on every path")
        rep.rule("complete", "each request posted is completed in a later phase under no narrower conditions, and never dropped")
        rep.rule("count", "a message count is checked before it is converted to int")
        rep.rule("match", "sends and receives use the same tag and communicator, and the buffer that is packed or unpacked")
        rep.rule("lock", "the lock alternates between writer and reader and the buffer forwards to it")
        for f in bodies(P, "yask::StencilContext::exchange_halos"):
            if f.params:
                self.halo(f)
        self.lock()
        self.adv()

    def halo(self, f):
        rep, P = self.rep, self.P
        t = Halo(P, self, f)
        try:
            t.run(f)
        except Explode as e:
            rep.skip("access", f.where(), "too many states (%s)" % e)
            return
        posts = t.posts

        def against(facts, g):
            """Do these facts contradict every way to get there?"""
            return bool(g) and all(any(k in facts and facts[k] != v for k, v in h.items()) for h in g)
        if not posts:
            rep.skip("complete", f.where(), "no message is posted")
        G = {q: [p[1] for p in ps] for q, ps in posts.items()}
        for q, ps in sorted(posts.items()):
            w = ps[0][4]
            if q not in t.done:
                rep.bad("complete", q, w, "%s posts a request in %s that is never waited for" % (ps[0][3], q))
                continue
            cph = {ph for ph, l in t.done[q]}
            pph = {p[0] for p in ps}
            if None in cph or None in pph:
                rep.skip("complete", w, "phase of the exchange not determined")
                continue
            for ph, l in t.done[q]:
                for p in pph:
                    if p in l and l.index(ph) < l.index(p):
                        rep.bad("complete", q + ":order", w, "the request in %s is waited for in a phase before it is posted" % q)
            # every list of phases that posts also completes, unless the interior is still to be done
            for p in ps:
                if p[6] and not any(x in p[6] for x in cph) and p[7].get("do_mpi_interior") is not False:
                    rep.bad("complete", q + ":phases", p[4], "a request is posted in %s in an exchange that does not complete it although no other follows" % q)
                    break
            bad = False
            for ph, l, fs, mine, nulls, fl in t.ends:
                if ph not in cph:
                    continue
                if mine.get(("done", q)) or mine.get(("null", q)) or q in nulls or against(fs, G[q]):
                    continue
                bad = True
                rep.bad("complete", q + ":path", w, "the request posted here (%s) can be left without being waited for: %s" % (q, cond_text(fs)))
                break
            for where, fs, (ph, l) in t.sums.get(("drop", q), ()):
                if against(fs, G[q]):
                    continue
                bad = True
                rep.bad("complete", q + ":drop", where, "a request in %s is overwritten without having been completed" % q)
            if not bad:
                self.ok("complete", w, "requests in %s are completed" % q)
        # accesses
        byb = {}
        for q, ps in posts.items():
            for p in ps:
                byb.setdefault(p[2], set()).add((q, p[3]))
        relw = [x[0] for k, v in t.locks.items() if k[0] == "mark_write_done" for x in v]
        okw = [x[0] for k, v in t.locks.items() if k[0] == "wait_for_ok_to_write" for x in v]
        for way, b, w, fs, ok, rel, done, ph, lst, nulls in t.access:
            if rel:
                rep.bad("access", "late:" + way, w, "the buffer is %s after its permission was released" % ("read" if way == "r" else "written"))
                continue
            if b is None:
                rep.skip("access", w, "buffer not determined")
                continue
            if way == "r":
                qs = {q for q, k in byb.get(b, ()) if k == "MPI_Irecv"}
                if ok or qs & (done | nulls):
                    self.ok("access", w, "read after completion or permission")
                elif not qs:
                    rep.bad("match", "recv-buffer", w, "data is unpacked from a buffer (%s) that nothing is received into" % b)
                else:
                    rep.bad("access", "read", w, "the buffer can be read before its receive was completed or its writer allowed it (%s)" % cond_text(fs))
            else:
                qs = {q for q, k in byb.get(b, ()) if k == "MPI_Isend"}
                if ok or relw and against(fs, relw):
                    self.ok("access", w, "written with permission, or not shared")
                elif not relw and not okw:
                    self.ok("access", w, "not shared")
                else:
                    rep.bad("access", "write", w, "a shared buffer can be written before its reader allowed it (%s)" % cond_text(fs))
                if not qs:
                    rep.bad("match", "send-buffer", w, "data is packed into a buffer (%s) that is not sent" % b)
        # releases at the end of each neighbour's phase
        ok = {"r": True, "w": True}
        for ph, l, fs, mine, nulls, fl in t.ends:
            for way, nm in (("r", "mark_read_done"), ("w", "mark_write_done")):
                for b in ("bufs[0]", "bufs[1]", None):
                    if mine.get(("ok" + way, b)) and not mine.get(("rel" + way, b)):
                        ok[way] = False
                        rep.bad("release", nm + ":never", mine[("ok" + way, b)], "the permission obtained here can be kept: %s is not called if %s" % (nm, cond_text(fs)))
        # a message is expected: it is sent
        snd = {p[0] for ps in posts.values() for p in ps if p[3] == "MPI_Isend"}
        rcv = [p[1] for ps in posts.values() for p in ps if p[3] == "MPI_Irecv"] + [x[0] for k, v in t.locks.items() if k[0] == "wait_for_ok_to_read" for x in v]
        E = [{k: v for k, v in g.items() if "B." in k or "B[" in k} for g in rcv]
        for ph, l, fs, mine, nulls, fl in t.ends:
            if ph not in snd:
                continue
            if any(k[0] in ("sent", "relw") for k in mine) or against(fs, E):
                continue
            rep.bad("complete", "unsent", f.where(), "a neighbour can wait for a message that is not sent (%s)" % cond_text(fs))
            break
        else:
            if snd:
                self.ok("complete", f.where(), "what a neighbour waits for is sent")
        # matching
        S = [p for ps in posts.values() for p in ps if p[3] == "MPI_Isend"]
        R = [p for ps in posts.values() for p in ps if p[3] == "MPI_Irecv"]
        for what, i in (("peer", 3), ("tag", 4), ("communicator", 5)):
            a, b = {p[5][i] for p in S}, {p[5][i] for p in R}
            if S and R and a != b:
                rep.bad("match", what, S[0][4], "messages are sent with %s %s but received with %s" % (what, "/".join(sorted(a)), "/".join(sorted(b))))
            elif S and R:
                self.ok("match", S[0][4], "same " + what)

    # -- the lock
    def lock(self):
        rep, P = self.rep, self.P

        def txt(f, x):
            return TS(P).text(x, Fr(f, ("this",), None))
        for nm, want in (("is_ok_to_read", "!="), ("is_ok_to_write", "==")):
            for f in bodies(P, "yask::SimpleLock::" + nm):
                r = [strip(n["e"]) for n in f.nodes() if n["k"] == "ret"]
                if len(r) != 1 or r[0]["k"] not in ("bin", "un"):
                    rep.skip("lock", f.where(), "form of %s" % nm)
                    continue
                x, op = r[0], None
                neg = False
                while x["k"] == "un" and x["op"] == "!":
                    neg, x = not neg, strip(x["e"])
                if x["k"] == "bin" and x["op"] in ("==", "!="):
                    op = x["op"] if not neg else {"==": "!=", "!=": "=="}[x["op"]]
                    s = {counter(txt(f, x["a"])), counter(txt(f, x["b"]))}
                elif x["k"] == "bin" and x["op"] in (">", "<") and not neg:
                    a, b = counter(txt(f, x["a"])), counter(txt(f, x["b"]))
                    s = {a, b}
                    op = "!=" if (x["op"] == ">" and (a, b) == ("write", "read") or x["op"] == "<" and (a, b) == ("read", "write")) else x["op"]
                else:
                    rep.skip("lock", f.where(), "form of %s" % nm)
                    continue
                if s == {"write", "read"} and op == want:
                    self.ok("lock", f.where(), nm)
                else:
                    rep.bad("lock", nm, f.where(), "%s is %s" % (nm, rawtext(r[0])))
        for nm, cnt in (("mark_read_done", "read"), ("mark_write_done", "write")):
            for f in bodies(P, "yask::SimpleLock::" + nm):
                inc = []
                for n in f.nodes():
                    if n["k"] == "un" and n["op"] in ("++", "--"):
                        inc.append((counter(txt(f, n["e"])), n["op"] == "++"))
                    elif n["k"] == "asg":
                        b = strip(n["b"])
                        one = n["op"] == "+=" and str(b.get("v", b.get("cv"))) == "1" or n["op"] == "=" and b["k"] == "bin" and b["op"] == "+" and counter(txt(f, b["a"])) == counter(txt(f, n["a"])) and str(strip(b["b"]).get("v")) == "1"
                        inc.append((counter(txt(f, n["a"])), one))
                if inc == [(cnt, True)] and not any(n["k"] in ("if", "for", "while") and any(y["k"] in ("un", "asg") for y in walk(n)) for n in f.nodes()):
                    self.ok("lock", f.where(), nm)
                else:
                    rep.bad("lock", nm, f.where(), "%s advances %s" % (nm, ", ".join("%s%s" % (a, "" if b else " (not by one)") for a, b in inc) or "nothing"))
        for nm, ok in (("wait_for_ok_to_read", "is_ok_to_read"), ("wait_for_ok_to_write", "is_ok_to_write")):
            for f in bodies(P, "yask::SimpleLock::" + nm):
                lp = [n for n in f.nodes() if n["k"] in ("while", "do", "for")]
                if len(lp) != 1:
                    rep.bad("lock", nm, f.where(), "%s does not wait" % nm) if not lp else rep.skip("lock", f.where(), "form of %s" % nm)
                    continue
                c = strip(lp[0]["c"]) if lp[0].get("c") is not None else None
                if c is not None and c["k"] == "un" and c["op"] == "!" and short(strip(c["e"]).get("n")) == ok and not any(n["k"] in ("break", "ret") for n in walk(lp[0]["b"])):
                    self.ok("lock", f.where(), nm)
                elif c is not None and any(n["k"] == "call" for n in walk(c)):
                    rep.bad("lock", nm, f.where(), "%s waits while %s" % (nm, rawtext(c)))
                else:
                    rep.skip("lock", f.where(), "form of %s" % nm)
        for f in bodies(P, "yask::SimpleLock::init"):
            vals = {}
            for n in f.nodes():
                if n["k"] == "asg":
                    v = n["b"]
                    while v["k"] in ("asg", "cast"):
                        v = v["b"] if v["k"] == "asg" else v["e"]
                    vals[counter(txt(f, n["a"]))] = rawtext(v)
            a, b = vals.get("write"), vals.get("read")
            if a is not None and a == b:
                self.ok("lock", f.where(), "init")
            elif a is None or b is None:
                rep.bad("lock", "init", f.where(), "init does not set both counters")
            else:
                rep.bad("lock", "init", f.where(), "init sets the counters to %s and %s" % (a, b))
        for nm in ("is_ok_to_read", "is_ok_to_write") + LOCK:
            for f in bodies(P, "yask::MPIBuf::" + nm):
                cs = [n for n in f.nodes() if n["k"] == "call" and (n.get("n") or "").startswith("yask::SimpleLock::")]
                if len(cs) != 1:
                    rep.bad("lock", "buf:" + nm, f.where(), "MPIBuf::%s does not forward to the lock" % nm) if not cs else rep.skip("lock", f.where(), "form")
                    continue
                a = [rawtext(x) for x in cs[0].get("a") or []]
                if short(cs[0]["n"]) != nm or a != [p["n"] for p in f.params]:
                    rep.bad("lock", "buf:" + nm, P.at(cs[0]), "MPIBuf::%s forwards to %s(%s)" % (nm, short(cs[0]["n"]), ", ".join(a)))
                    continue
                conds = [rawtext(n["c"]) for n in f.nodes() if n["k"] in ("if", "cond") and any(y is cs[0] for y in walk(n))]
                if any("_shm_lock" not in c for c in conds):
                    rep.bad("lock", "buf:" + nm, P.at(cs[0]), "MPIBuf::%s forwards only if %s" % (nm, " and ".join(conds)))
                else:
                    self.ok("lock", f.where(), "MPIBuf::" + nm)

    # -- progress
    def adv(self):
        rep, P = self.rep, self.P
        for f in bodies(P, "yask::StencilContext::adv_halo_exchange"):
            t = TS(P)
            fr = Fr(f, ("this",), None)
            for n in f.nodes():
                if n["k"] == "decl":
                    for v in n["v"]:
                        i = v.get("init")
                        if i is not None and (v.get("ref") or (v.get("t") or "").rstrip().endswith(("*", "&"))):
                            b = t.path(i, fr)
                            if b is not None:
                                fr.bind[v["d"]] = b
            inits = {v["n"]: v["init"] for n in f.nodes() if n["k"] == "decl" for v in n["v"] if v.get("init") is not None}

            def kind(s):
                return "recv" if "recv_" in s else "send" if "send_" in s else "?"
            cur = None
            for s in flat(f.body):
                if s["k"] == "call" and short(s.get("n")) in ("MPI_Testsome", "MPI_Waitsome", "MPI_Testall", "MPI_Testany"):
                    a = [t.text(y, fr) for y in s["a"]]
                    cur = (kind(a[1]), a, s)
                    if kind(a[0]) == kind(a[1]):
                        self.ok("complete", P.at(s), "tests the %s requests" % cur[0])
                    else:
                        rep.bad("complete", "adv:size", P.at(s), "%s is given %s requests but the number of %s requests" % (short(s["n"]), kind(a[1]), kind(a[0])))
                elif s["k"] in ("asg", "call") and cur is not None and short(cur[2]["n"]) == "MPI_Testsome":
                    if s["k"] == "call" and s.get("op") != "=":
                        continue
                    l = s["a"] if s["k"] == "asg" else s.get("obj") or s["a"][0]
                    r = s["b"] if s["k"] == "asg" else s["a"][-1]
                    p = t.text(l, fr)
                    if "_stats[" not in p:
                        continue
                    ix = p.rsplit("[", 1)[1].rstrip("]")
                    rt = t.text(r, fr)
                    full = rawtext(inits[ix]) if ix in inits else ix
                    if kind(p.rsplit("[", 1)[0]) != cur[0]:
                        rep.bad("complete", "adv:stats", P.at(s), "the status of a %s is stored as that of a %s" % (cur[0], kind(p)))
                    elif "indices" not in full:
                        rep.bad("complete", "adv:index", P.at(s), "the status of a completed request is stored at index %s" % full)
                    else:
                        self.ok("complete", P.at(s), "status of the completed %s stored" % cur[0])


def flat(s):
    """Statements in textual order."""
    out = []
    for n in walk(s):
        if n["k"] in ("call", "asg"):
            out.append(n)
    return out


def counter(t):
    t = t.replace("..", ".")
    return "write" if t.endswith("_write_count.val") else "read" if t.endswith("_read_count.val") else t


def cond_text(fs):
    t = [("" if v else "not ") + k for k, v in sorted(fs.items()) if len(k) < 60 and "#" not in k][:6]
    return " and ".join(t)[:260]


def mentions(text, a):
    from ..tstate import mentions as m
    return m(text, a) if a.isidentifier() else a in text


def strip(x):
    while x is not None and x["k"] in ("cast", "defarg"):
        x = x["e"]
    return x


def strip1(x):
    return x["e"] if x["k"] == "cast" else x


def is_zero(x):
    x = strip(x)
    return x["k"] == "lit" and x["v"] in (0, "0") or str(x.get("cv")) == "0" or x["k"] in ("zero", "null")


def check(rep, tier):
    P = facts.load_kernel()
    C06(rep, P).run()
