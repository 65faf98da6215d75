"""Merged program representation: functions, classes, globals, call graph."""
import json, os, re
from collections import defaultdict

EXPR_KIDS = ("obj", "callee", "b", "i", "a", "e", "c", "s", "init", "n")


def children(x):
    """Direct child nodes (dicts with 'k') of a node, in evaluation-ish order."""
    for key, v in x.items():
        if key in ("l", "t", "k", "fn", "d", "f", "op"):
            if key != "t" or not isinstance(v, dict):
                continue
        if isinstance(v, dict):
            if "k" in v:
                yield v
            elif "init" in v and isinstance(v.get("init"), dict):
                yield v["init"]
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict):
                    if "k" in y:
                        yield y
                    else:
                        for z in ("init", "b", "e"):
                            w = y.get(z)
                            if isinstance(w, dict) and "k" in w:
                                yield w
                        if isinstance(y.get("a"), list):  # omp clause
                            for w in y["a"]:
                                if isinstance(w, dict) and "k" in w:
                                    yield w


def walk(x):
    """All nodes below (and including) x, pre-order."""
    if x is None:
        return
    st = [x]
    while st:
        n = st.pop()
        yield n
        st.extend(reversed(list(children(n))))


class Fn:
    __slots__ = ("u", "n", "rec", "loc", "end", "params", "body", "cls", "cu", "tu", "_locals", "prog")

    def __init__(self, rec, prog):
        self.rec = rec
        self.u = rec["u"]
        self.n = rec["n"]
        self.loc = rec["l"]
        self.end = rec.get("el", rec["l"])
        self.params = rec["p"]
        self.body = rec["b"]
        self.cls = rec.get("cls")
        self.cu = rec.get("cu")
        self._locals = None
        self.prog = prog

    @property
    def short(self):
        return self.n.rsplit("::", 1)[-1]

    def get(self, k, d=None):
        return self.rec.get(k, d)

    @property
    def dep(self):
        return bool(self.rec.get("dep"))

    def where(self):
        return "%s:%d" % (self.prog.rel(self.loc[0]), self.loc[1])

    def roots(self):
        """All executable trees of the function: ctor initialisers and body."""
        for i in self.rec.get("ci", ()):
            if i.get("e"):
                yield i["e"]
        if self.body:
            yield self.body

    def nodes(self):
        for r in self.roots():
            yield from walk(r)

    def __repr__(self):
        return "<%s %s>" % (self.n, self.where())

    # ---- local variable definitions.
    def locals(self):
        """decl id -> {'decl': vardecl, 'mods': [nodes], 'kind': var|parm|rfor|bind}"""
        if self._locals is None:
            self._locals = analyse_locals(self)
        return self._locals


def lv_root(x):
    """Base variable reference of an lvalue expression (or None), and whether it is the whole variable."""
    whole = True
    while x is not None:
        k = x["k"]
        if k == "ref":
            return x, whole
        if k == "mem":
            b = x["b"]
            # p->f does not modify p itself.
            bt = b.get("t") if isinstance(b, dict) else None
            if isinstance(bt, str) and bt.rstrip().endswith("*"):
                return None, False
            whole = False
            x = b
        elif k == "idx":
            bt = x["b"].get("t")
            if isinstance(bt, str) and bt.rstrip().endswith("*"):
                return None, False
            whole = False
            x = x["b"]
        elif k == "cast":
            x = x["e"]
        elif k == "un" and x["op"] in ("++", "--") and not x.get("post"):
            x = x["e"]
        elif k == "un" and x["op"] == "*":
            return None, False
        elif k == "asg":
            x = x["a"]
        elif k == "call" and x.get("op") in ("[]", "*", "->", "="):
            # user-defined subscript: modifies the object it is applied to.
            if x.get("op") in ("*", "->"):
                return None, False
            whole = False
            x = x.get("obj")
        elif k == "call" and x.get("obj") is not None:
            return None, False
        else:
            return None, False
    return None, False


def analyse_locals(fn):
    L = {}

    def add(v, kind, node=None):
        L.setdefault(v["d"], {"v": v, "kind": kind, "mods": [], "node": node, "declnode": None})

    def addparams(ps):
        for p in ps:
            add(p, "parm")

    addparams(fn.params)
    mods = []
    for n in fn.nodes():
        k = n["k"]
        if k == "decl":
            for v in n["v"]:
                add(v, "var", n)
                for b in v.get("binds", ()):
                    add(b, "bind", n)
        elif k == "rfor":
            add(n["v"], "rfor", n)
            for b in n["v"].get("binds", ()):
                add(b, "bind", n)
        elif k in ("if", "while") and n.get("cvar"):
            pass
        elif k == "lambda":
            addparams(n["p"])
        elif k == "asg":
            mods.append((n["a"], n))
        elif k == "un" and n["op"] in ("++", "--"):
            mods.append((n["e"], n))
        elif k == "un" and n["op"] == "&":
            mods.append((n["e"], n))
        elif k in ("call", "ctor"):
            a = n.get("a") or []
            for i in n.get("mr", ()):
                if i < len(a) and a[i] is not None:
                    mods.append((a[i], n))
            if n.get("obj") is not None and not n.get("cst") and not n.get("static") and not n.get("dep"):
                t = n["obj"].get("t")
                if not (isinstance(t, str) and t.rstrip().endswith("*")):
                    mods.append((n["obj"], n))
            if n.get("dep"):
                for x in a:
                    if x is not None and x["k"] == "ref" and x.get("dk") == "var":
                        mods.append((x, n))
    for lv, n in mods:
        r, whole = lv_root(lv)
        if r is not None and r["d"] in L:
            L[r["d"]]["mods"].append((n, whole))
    return L


class Program:
    def __init__(self, paths, gen=None):
        self.fns = {}
        self.classes = {}
        self.globals = {}
        self.files = set()
        self.gen = gen
        self.n_tu = len(paths)
        for p in paths:
            with open(p) as f:
                d = json.load(f)
            files = [intern_(x) for x in d["files"]]
            types = [intern_(x) for x in d["types"]]
            self.files.update(files)
            for key, table, ident in (("funcs", self.fns, "u"), ("classes", self.classes, "u"), ("globals", self.globals, "d")):
                for r in d[key]:
                    if r[ident] in table:
                        continue
                    remap(r, files, types)
                    table[r[ident]] = Fn(r, self) if key == "funcs" else r
        self._post()

    def rel(self, f):
        from .facts import REPO
        if f.startswith(REPO + "/"):
            return f[len(REPO) + 1:]
        if self.gen and f.startswith(self.gen):
            return "<gen>" + f[len(self.gen):]
        return f

    def at(self, node):
        l = node.get("l") if isinstance(node, dict) else node
        if not l or not l[0]:
            return "?"
        return "%s:%d" % (self.rel(l[0]), l[1])

    def _post(self):
        self.byname = defaultdict(list)
        for f in self.fns.values():
            self.byname[f.n].append(f)
        self.overriders = defaultdict(set)
        self.methodname = {}
        for c in self.classes.values():
            for m in c["methods"]:
                self.methodname[m["u"]] = m
                for b in m.get("ov", ()):
                    self.overriders[b].add(m["u"])
        for f in self.fns.values():
            for b in f.get("ov", ()):
                self.overriders[b].add(f.u)
        self.cls_by_name = defaultdict(list)
        self.subclasses = defaultdict(set)
        for c in self.classes.values():
            self.cls_by_name[c["n"]].append(c)
            for b in c["bases"]:
                if b.get("u"):
                    self.subclasses[b["u"]].add(c["u"])
        # Best function body for a pattern without instantiation: instantiations per pattern.
        self.insts = defaultdict(list)
        for f in self.fns.values():
            if f.get("pat") and f.get("pat") != f.u:
                self.insts[f.get("pat")].append(f)

    # ---- lookup.
    def named(self, name, inst=True):
        """Functions with qualified name 'name' (patterns dropped if instances exist).
        Names are compared without template arguments."""
        if not hasattr(self, "bystrip"):
            self.bystrip = defaultdict(list)
            for n, fs in self.byname.items():
                self.bystrip[strip_targs(n)] += fs
        r = self.bystrip.get(name) or []
        nd = [f for f in r if not f.dep]
        return nd or r

    def methods_of(self, clsname):
        r = [f for f in self.fns.values() if f.cls and strip_targs(f.cls) == clsname]
        nd = [f for f in r if not f.dep]
        return nd or r

    def all_overriders(self, u):
        seen, st = set(), [u]
        while st:
            x = st.pop()
            for y in self.overriders.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def targets(self, call):
        """Possible function bodies of a call node (class-hierarchy analysis)."""
        u = call.get("fn")
        if not u:
            return []
        out = []
        if u in self.fns:
            out.append(self.fns[u])
        if call.get("virt") and not call.get("nonvirt"):
            for o in self.all_overriders(u):
                if o in self.fns:
                    out.append(self.fns[o])
        return out

    def cls_family(self, u):
        """Names (without template arguments) of a class, its bases and its derived classes."""
        memo = self.__dict__.setdefault("_fam", {})
        if u not in memo:
            us, st = self.cls_closure(u), [u]
            us = set(us)
            while st:
                c = self.classes.get(st.pop())
                for b in (c or {}).get("bases", ()):
                    if b.get("u") and b["u"] not in us:
                        us.add(b["u"])
                        st.append(b["u"])
            memo[u] = {strip_targs(self.classes[x]["n"]) for x in us if x in self.classes}
        return memo[u]

    def cls_closure(self, u):
        seen, st = {u}, [u]
        while st:
            x = st.pop()
            for y in self.subclasses.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def real_fns(self):
        """Functions to analyse: everything but patterns that have instances."""
        for f in self.fns.values():
            if f.dep and self.insts.get(f.u):
                continue
            yield f


def strip_targs(n):
    if "<" not in n:
        return n
    if "operator" in n:
        i = n.index("operator")
        return strip_targs(n[:i]) + n[i:]
    out, d = [], 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


_int = {}


def intern_(s):
    return _int.setdefault(s, s)


def remap(x, files, types):
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            l = n.get("l")
            if type(l) is list and len(l) == 2 and type(l[0]) is int:
                n["l"] = (files[l[0]] if l[0] >= 0 else None, l[1])
            l = n.get("el")
            if type(l) is list and len(l) == 2 and type(l[0]) is int:
                n["el"] = (files[l[0]] if l[0] >= 0 else None, l[1])
            for key in ("t", "rt", "st", "ty", "base"):
                t = n.get(key)
                if type(t) is int:
                    n[key] = types[t] if t >= 0 else "?"
            for v in n.values():
                if type(v) in (dict, list):
                    st.append(v)
        else:
            for v in n:
                if type(v) in (dict, list):
                    st.append(v)
