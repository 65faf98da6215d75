"""Chronological traces of symbolic executions, and the facts that hold at an event.

A Trace is a Flow that also records, in program order, every call, store, throw and return with the guards in force.
A throw (or a return of the analysed function itself) under guards G that comes before an event with guards E means that
at the event the conjunction of those guards of G that are not in E is false.
"""
from .flow import Flow
from .sym import *
from .ir import strip_targs


class Ev:
    __slots__ = ("kind", "name", "node", "frame", "args", "guards", "obj", "key", "val", "stmt", "depth")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Trace(Flow):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []
        self.quiet = 0

    def assigned(self, s, fr):
        self.quiet += 1
        try:
            return super().assigned(s, fr)
        finally:
            self.quiet -= 1

    def add(self, **k):
        if not self.quiet:
            e = Ev(guards=tuple(self.guards), **k)
            self.log.append(e)
            return e

    def store(self, key, val):
        self.add(kind="store", key=key, val=val)
        super().store(key, val)

    def exec(self, s, fr):
        if s is not None and s["k"] == "ret" and not self.quiet:
            r = super().exec(s, fr)
            self.add(kind="ret", val=self.rets[-1][0], stmt=s, depth=fr.depth)
            return r
        if s is not None and s["k"] == "throw":
            self.add(kind="throw", stmt=s)
        return super().exec(s, fr)

    def call(self, x, fr):
        if not self.quiet:
            o = None
            if x.get("obj") is not None:
                try:
                    o = self.norm(x["obj"], fr)
                except Exception:
                    o = None
            self.add(kind="call", name=strip_targs(x.get("n") or "?"), node=x, frame=fr, obj=o,
                     args=tuple(self.norm(a, fr) for a in x.get("a") or []))
        super().call(x, fr)

    def calls_of(self, *names):
        return [(i, e) for i, e in enumerate(self.log) if e.kind == "call" and (e.name in names or e.name.rsplit("::", 1)[-1] in names)]

    def facts(self, i):
        """Terms that are true at event i."""
        e = self.log[i]
        out = list(e.guards)
        have = set(e.guards)
        for f in self.log[:i]:
            if f.kind == "throw" or (f.kind == "ret" and f.depth == 0):
                rest = [g for g in f.guards if g not in have]
                if not rest:
                    continue
                c = rest[0]
                for g in rest[1:]:
                    c = mk_bin("&&", c, g)
                out.append(mk_not(c))
        return out

    def before(self, i, j):
        """Event i is executed whenever event j is (i earlier in program order, no additional guards)."""
        return i < j and set(self.log[i].guards) <= set(self.log[j].guards)


def truth(t, env):
    """Value of a term, given env(term) -> value or None for its atoms; None where it is not determined."""
    v = env(t)
    if v is not None:
        return v
    k = t[0]
    if k == "lit":
        return t[1]
    if k == "const" and len(t) > 2:
        return t[2]
    if k == "un":
        a = truth(t[2], env)
        if a is None:
            return None
        return (not a) if t[1] == "!" else -a if t[1] == "-" else ~a if t[1] == "~" else a if t[1] == "+" else None
    if k == "cond":
        c = truth(t[1], env)
        if c is None:
            return None
        return truth(t[2] if c else t[3], env)
    if k in ("phi", "loopout") and len(t) == 3 and isinstance(t[2], tuple):
        return None
    if k == "bin":
        op = t[1]
        if op in ("&&", "||"):
            vs = [truth(x, env) for x in t[2:]]
            if op == "&&":
                if any(v is not None and not v for v in vs):
                    return False
                return None if None in vs else True
            if any(vs):
                return True
            return None if None in vs else False
        vs = [truth(x, env) for x in t[2:]]
        if None in vs:
            return None
        try:
            r = vs[0]
            for b in vs[1:]:
                r = BIN[op](r, b)
            return r
        except Exception:
            return None
    if k == "call" and t[1] in ("std::max", "std::min") and len(t) >= 4:
        vs = [truth(x, env) for x in t[-2:]]
        if None in vs:
            return None
        return (max if t[1] == "std::max" else min)(vs)
    return None


BIN = {"max": lambda a, b: max(a, b), "min": lambda a, b: min(a, b),
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b, "&": lambda a, b: int(a) & int(b), "|": lambda a, b: int(a) | int(b),
    "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "^": lambda a, b: int(a) ^ int(b)}


def conj_of(ts):
    c = ("lit", True)
    for t in ts:
        c = mk_bin("&&", c, t) if c != ("lit", True) else t
    return c
