"""C04: accesses through the API are checked against storage, index range and buffer size before an element is touched."""
import itertools
import random

from .. import facts
from ..ir import strip_targs, walk
from ..sym import *
from ..trace import Trace, truth

TECHNIQUE = "dominance of checks over accesses on symbolic path traces of the typed syntax tree"
LEVEL = "other"
LEVEL_NOTE = ("Every call of an element accessor made for an API call must be preceded, on every path, by the storage, index "
              "and buffer-size checks; the index check itself is decided by a truth table over its symbolic form.")
WHAT = ("get_element, set_element, add_to_element, are_indices_local, every instance of the slice visitor, its four callers and "
        "their API entry points, vector-slice copies, whole-var fills and the range check itself with its bounds.")
ASSUMPTIONS = ["The kernel facts are those of the stand-in stencil, whose vars instantiate every layout the API code is generic over."]
MIN = {"storage": 2, "index": 2, "check": 8, "bounds": 2, "slice": 6, "caller": 4, "local": 1, "fill": 2}

ACC = {"read_elem": 0, "write_elem": 1, "add_to_elem": 1, "get_elem_ptr": 0, "read_vec_norm": 0, "write_vec_norm": 1,
       "get_vec_ptr_norm": 0}
CHECK = "yask::YkVarBase::check_indices"
T, F_ = ("lit", True), ("lit", False)


def short(n):
    return strip_targs(n or "").rsplit("::", 1)[-1]


def is_storage(t):
    """The address of the storage of a var."""
    while t[0] == "cast":
        t = t[-1]
    return t[0] == "call" and short(t[1]) in ("get_storage", "get_raw_storage_buffer", "is_storage_allocated") \
        or t[0] == "fld" and short(t[1]) == "_elems"


def implies(fs, want):
    """Do the facts imply a term accepted by want?"""
    for t in fs:
        if truth(t, lambda x: False if want(x) else True if x in fs and x != t else None) is False:
            return True
    work = list(fs)
    while work:
        t = work.pop()
        if want(t):
            return True
        if t[0] == "bin" and t[1] == "&&":
            work += t[2:]
    return False


def eq(a, b):
    return a == b or fmt(a) == fmt(b)


def truthy(t):
    """The term tested by a boolean term that says 'non-zero'."""
    if t[0] == "un" and t[1] == "!" and t[2][0] == "un" and t[2][1] == "!":
        return truthy(t[2][2])
    if t[0] == "bin" and t[1] == "!=" and t[3] in (("lit", 0), ("lit", None)):
        return t[2]
    return t


class C04:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P

    def impl(self, name, pick=lambda f: True):
        return sorted((f for f in self.P.named(name) if f.body and not f.dep and pick(f)), key=lambda f: f.where())

    def trace(self, f, keep=(CHECK,)):
        t = Trace(self.P, keep=keep)
        t.run(f)
        return t

    def run(self):
        for nm in ("get_element", "set_element", "add_to_element"):
            for f in self.impl("yask::YkVarImpl::" + nm, lambda f: any("Indices" in p["t"] for p in f.params)):
                self.elem(f, nm)
        self.check()
        self.bounds()
        self.slice_range()
        self.visitors()
        self.callers()
        self.vecs()
        self.local()
        self.fill()

    # -- single elements
    def elem(self, f, nm):
        rep = self.rep
        t = self.trace(f)
        idxp = [p for p in f.params if "Indices" in p["t"]][0]
        strictp = [p for p in f.params if p["t"].replace("const ", "") == "bool"]
        iterm = ("parm", f.params.index(idxp), idxp["n"])
        acc = [(i, e) for i, e in enumerate(t.log) if e.kind == "call" and short(e.name) in ACC and strip_targs(e.name).startswith("yask::YkVarBase")]
        if not acc:
            rep.skip("index", f.where(), "no element access found")
            return
        for i, e in acc:
            w = self.P.at(e.node)
            fs = t.facts(i)
            if implies(fs, is_storage_fact):
                rep.ok("storage", w, "%s: %s only with storage" % (nm, short(e.name)))
            else:
                rep.bad("storage", "%s:%s" % (nm, short(e.name)), w, "%s calls %s without having checked that the var has storage" % (nm, short(e.name)))
            # The index that is used is the index that was checked.
            ixs = [a for a in e.args if fmt(a) == fmt(iterm)]
            if not ixs:
                other = [a for a in e.args if a[0] in ("parm", "var") and "ndices" in fmt(a)]
                if other:
                    rep.bad("index", "%s:%s:arg" % (nm, short(e.name)), w, "%s accesses %s instead of the indices it was given" % (nm, fmt(other[0])))
                else:
                    rep.skip("index", w, "index argument not recognised")
                continue
            ok, why = self.checked(t, i, iterm, nm, strictp)
            if ok:
                rep.ok("index", w, "%s: %s after the index check" % (nm, short(e.name)))
            else:
                rep.bad("index", "%s:%s" % (nm, short(e.name)), w, "%s calls %s %s" % (nm, short(e.name), why))
        # Without strict checking, nothing may throw for a missing storage or a bad index beyond what is documented;
        # a rejected access reports zero updates.
        if strictp:
            rets = [e for e in t.log if e.kind == "ret" and e.depth == 0]
            for e in rets:
                ups = sorted({fmt(v) for v in leaves(e.val)})
                if len(rets) > 1:
                    ups = sorted({fmt(v) for r in rets for v in leaves(r.val)})
                rep.rule("count", "an element writer returns 1 exactly when it writes and 0 otherwise")
                good = set(ups) == {"0", "1"}
                if not good and not any(x.isdigit() for x in ups):
                    rep.skip("count", f.where(), "result %s" % ups)
                elif good:
                    rep.ok("count", f.where(), "%s returns %s" % (nm, "/".join(ups)))
                else:
                    rep.bad("count", nm, f.where(), "%s returns %s" % (nm, "/".join(ups)))

    def checked(self, t, i, iterm, nm, strictp):
        seen = ""
        for j, c in t.calls_of("check_indices"):
            if j > i:
                continue
            if len(c.args) < 4 or not eq(c.args[0], iterm):
                seen = seen or "but checks %s" % fmt(c.args[0])
                continue
            strict, step = c.args[2], c.args[3]
            norm_ = c.args[4] if len(c.args) > 4 else F_
            if truth(norm_, lambda x: None):
                seen = "after normalising the indices"
                continue
            if nm != "set_element" and truth(step, lambda x: None) is not True:
                seen = "without checking the step index"
                continue
            if truth(strict, lambda x: None) is True:
                if set(c.guards) <= set(t.log[i].guards):
                    return True, ""
                seen = "after an index check that is made only if %s" % " and ".join(fmt(g)[:60] for g in c.guards)
                continue
            if truth(strict, lambda x: None) is False and strictp:
                seen = "without passing on strict_indices"
                continue
            if strictp and fmt(strict) != strictp[0]["n"]:
                seen = "with strictness %s" % fmt(strict)
                continue
            # Non-strict: the result must guard the access.
            if implies(t.facts(i), lambda g: g[0] == "call" and short(g[1]) == "check_indices" and eq(g[3], iterm)):
                return True, ""
            seen = "even if the index check fails"
        return False, seen or "without an index check"

    # -- the check itself
    def check(self):
        rep = self.rep
        rep.rule("check", "check_indices throws on a wrong number of indices, and per dimension throws iff strict and not in first..last "
                          "(unless the step index is exempt), returns false under the same condition, and clips to the nearest end")
        for f in self.impl(CHECK):
            t = self.trace(f, keep=("yask::YkVarBase::get_first_local_index", "yask::YkVarBase::get_last_local_index"))
            pn = [p["n"] for p in f.params]
            if len(pn) < 6:
                rep.skip("check", f.where(), "parameters")
                continue
            idx, strict, cstep, nrm, clip = pn[0], pn[2], pn[3], pn[4], pn[5]
            w = f.where()

            def env_of(v):
                def env(x):
                    k = fmt(x)
                    if k == strict:
                        return v["strict"]
                    if k == cstep:
                        return v["cstep"]
                    if k == nrm:
                        return v["norm"]
                    if k == clip:
                        return v.get("clip", True)
                    if x[0] == "fld" and k.endswith("_step_wrap"):
                        return v["wrap"]
                    if x[0] == "bin" and x[1] == "&" and "_step_dim_mask" in k:
                        return v["step"]
                    if x[0] == "bin" and x[1] == "&" and "_domain_dim_mask" in k:
                        return not v["step"]
                    if x[0] == "call" and short(x[1]) == "get_first_local_index":
                        return v["first"]
                    if x[0] == "call" and short(x[1]) == "get_last_local_index":
                        return v["last"]
                    if x[0] == "idx" and k.startswith(idx + "."):
                        return v["idx"]
                    if x[0] == "bin" and x[1] in ("<", "!=", "<=", ">", "==") and "_ndims" in k and "#" in k:
                        return True        # within the loop over dimensions
                    return None
                return env
            # number of indices
            nd = [e for e in t.log if e.kind == "throw" and not any("#" in fmt(g) for g in e.guards)]
            if any(len(e.guards) == 1 and ndim_mismatch(e.guards[0], idx) for e in nd):
                rep.ok("check", w, "throws if the number of indices differs")
            else:
                rep.bad("check", "ndims", w, "check_indices does not throw exactly when the number of indices differs from the number of dimensions (%s)"
                        % "; ".join(fmt(g) for e in nd for g in e.guards)[:120])
            thr = [e for e in t.log if e.kind == "throw" and any("#" in fmt(g) for g in e.guards)]
            oks = [e for e in t.log if e.kind == "store" and e.key[0] == "var" and any("#" in fmt(g) for g in e.guards) and e.val == F_]
            rets = [e for e in t.log if e.kind == "ret" and e.depth == 0]
            retn = {x for e in rets for x in names_in(e.val)}
            oks = [e for e in oks if e.key[-1] in retn]
            early = [e for e in rets if any("#" in fmt(g) for g in e.guards) and e.val == F_]
            clips = [e for e in t.log if e.kind == "store" and e.key[0] == "idx" and clip in fmt(e.key) and not any(fmt(g).startswith("(" + nrm) or fmt(g) == nrm or (nrm + " &&") in fmt(g) or ("&& " + nrm) in fmt(g) for g in e.guards)]
            base = dict(first=3, last=9, norm=False)
            und = bad = 0
            for ix, st, cs, wr, sd in itertools.product((1, 2, 3, 6, 9, 10, 12), (False, True), (False, True), (False, True), (False, True)):
                v = dict(base, idx=ix, strict=st, cstep=cs, wrap=wr, step=sd)
                env = env_of(v)
                exempt = sd and (not cs or wr)
                out = not exempt and not 3 <= ix <= 9
                gt = any_of([all_of([truth(g, env) for g in e.guards]) for e in thr])
                go = any_of([all_of([truth(g, env) for g in e.guards]) for e in oks + early])
                what = "index %d of [3,9], strict=%s, check_step=%s, wrap=%s, step dim=%s" % (ix, st, cs, wr, sd)
                if gt is None or go is None:
                    und += 1
                    continue
                if gt != (out and st):
                    bad += 1
                    rep.bad("check", "throw", w, "check_indices %s for %s" % ("throws" if gt else "does not throw", what))
                elif not (st and out) and go != out:
                    bad += 1
                    rep.bad("check", "result", w, "check_indices returns %s for %s" % (not go, what))
                elif not st:
                    # clipping
                    val = ix
                    amb = False
                    for e in clips:
                        g = all_of([truth(x, env) for x in e.guards])
                        if g is None:
                            amb = True
                        elif g:
                            val = truth(e.val, env)
                    want = min(max(ix, 3), 9) if out else ix
                    if amb or val is None:
                        und += 1
                    elif val != want:
                        bad += 1
                        rep.bad("check", "clip", w, "check_indices clips to %s instead of %s for %s" % (val, want, what))
                    else:
                        rep.ok("check", w, what)
                else:
                    rep.ok("check", w, what)
            if und:
                rep.skip("check", w, "%d cases undetermined" % und)
            # The output starts as a copy of the input.
            init = [e for e in t.log if e.kind == "store" and clip in fmt(e.key) and fmt(e.val).split(".")[0].split("[")[0] == idx]
            if init:
                rep.ok("check", w, "output indices start as a copy of the input")
            else:
                rep.bad("check", "copy", w, "check_indices does not start the output indices from the given ones")

    # -- bounds
    def bounds(self):
        rep = self.rep
        rep.rule("bounds", "the allocated range in a dimension runs from rank offset + local offset - left pad to rank offset + local "
                           "offset + domain size + right pad - 1")
        rnd = random.Random(7)
        for nm, want in (("get_first_local_index", lambda v: v["_rank_offsets"] + v["_local_offsets"] - v["_actl_left_pads"]),
                         ("get_last_local_index", lambda v: v["_rank_offsets"] + v["_local_offsets"] + v["_domains"] + v["_actl_right_pads"] - 1)):
            for f in self.impl("yask::YkVarBase::" + nm):
                t = self.trace(f)
                r = [e for e in t.log if e.kind == "ret" and e.depth == 0]
                if len(r) != 1:
                    rep.skip("bounds", f.where(), "form")
                    continue
                bad = und = False
                for _ in range(6):
                    v = {n: rnd.randrange(2, 1000) for n in ("_rank_offsets", "_local_offsets", "_actl_left_pads", "_actl_right_pads", "_domains",
                                                             "_left_halos", "_right_halos", "_allocs", "_req_left_pads", "_req_right_pads",
                                                             "_left_wf_exts", "_right_wf_exts", "_var_vec_lens")}

                    def env(x):
                        if x[0] == "idx":
                            for y in walk_fields(x):
                                if y in v:
                                    return v[y]
                        return None
                    got = truth(r[0].val, env)
                    if got is None:
                        und = True
                    elif got != want(v):
                        bad = True
                if bad:
                    rep.bad("bounds", nm, f.where(), "%s is %s" % (nm, fmt(r[0].val)[:200]))
                elif und:
                    rep.skip("bounds", f.where(), fmt(r[0].val)[:120])
                else:
                    rep.ok("bounds", f.where(), nm)

    # -- slices
    def visitors(self):
        rep = self.rep
        rep.rule("slice", "before the slice visitor touches an element it has thrown for missing storage, a null or too small buffer and "
                          "(strictly) indices out of range, and visits only the clipped range")
        fs = self.impl("yask::YkVarBase::_visit_elements_in_slice")
        seen = {}
        for f in fs:
            seen.setdefault((f.n.split("<", 1)[-1].split(",")[0] if "<" in f.n else f.n, f.params[1]["t"]), f)
        # One source body: instances of different visitors and buffer types.
        for f in list(seen.values())[:4] or fs[:4]:
            self.visitor(f)

    def slice_range(self):
        rep = self.rep
        rep.rule("range", "the range of a slice is last - first + 1, at least 0, in each dimension")
        for f in self.impl("yask::YkVarBase::get_slice_range"):
            t = self.trace(f)
            a, b = f.params[0]["n"], f.params[1]["n"]
            st = [e for e in t.log if e.kind == "store" and e.key[0] == "idx"]
            if len(st) != 1:
                rep.skip("range", f.where(), "form")
                continue
            res = None
            for x, y in ((0, 0), (3, 7), (7, 3), (-4, 2), (5, 4)):
                def env(z):
                    if z[0] == "idx":
                        return x if fmt(z).startswith(a + ".") else y if fmt(z).startswith(b + ".") else None
                got = truth(st[0].val, env)
                if got is None:
                    res = None
                    break
                elif got != max(0, y - x + 1):
                    res = "%s for %d..%d" % (got, x, y)
                elif res is None:
                    res = True
                if isinstance(res, str):
                    break
            if res is True:
                rep.ok("range", f.where(), "get_slice_range")
            elif res is None:
                rep.skip("range", f.where(), fmt(st[0].val))
            else:
                rep.bad("range", "size", f.where(), "the range of a slice is %s" % res)

    def visitor(self, f):
        rep = self.rep
        t = self.trace(f, keep=(CHECK, "yask::YkVarBase::get_slice_range"))
        pn = [p["n"] for p in f.params]
        pt = [p["t"] for p in f.params]
        inds = [n for n, ty in zip(pn, pt) if "Indices" in ty]
        bools = [n for n, ty in zip(pn, pt) if ty == "bool"]
        buf = [n for n, ty in zip(pn, pt) if "*" in ty]
        bsz = [n for n, ty in zip(pn, pt) if ty == "unsigned long"]
        acc = [(i, e) for i, e in enumerate(t.log) if e.kind == "call" and short(e.name) in ("read_elem", "write_elem") and e.obj == ("this",)]
        w = f.where()
        if len(inds) != 2 or not acc or not bools or not buf or not bsz:
            rep.skip("slice", w, "form of the visitor")
            return
        strict = bools[0]
        cks = {}
        for j, c in t.calls_of("check_indices"):
            if c.obj == ("this",) or c.obj is None:
                cks.setdefault(fmt(c.args[0]), []).append((j, c))
        outs = {}
        for k, n in enumerate(inds):
            good = None
            for j, c in cks.get(n, ()):
                if c.guards or j > acc[0][0]:
                    continue
                if fmt(c.args[2]) != strict:
                    good = good or "with strictness %s" % fmt(c.args[2])
                    continue
                if truth(c.args[3], lambda x: None) is not True:
                    good = good or "without checking the step index"
                    continue
                good = True
                if len(c.args) > 5:
                    outs[k] = fmt(c.args[5]).lstrip("&")
                break
            if good is True:
                rep.ok("slice", w, "checks %s" % n)
            else:
                rep.bad("slice", "index:%d" % k, w, "elements are visited without a check of %s%s" % (n, " " + good if good else ""))
        first = acc[0][0]
        for i, e in acc:
            fs = t.facts(i)
            aw = self.P.at(e.node)
            if implies(fs, is_storage_fact):
                rep.ok("slice", aw, "storage")
            else:
                rep.bad("slice", "storage", w, "elements are visited without having checked that the var has storage")
            if implies(fs, lambda g: fmt(truthy(g)) == buf[0]):
                rep.ok("slice", aw, "buffer not null")
            else:
                rep.bad("slice", "null", w, "elements are visited without having checked the buffer pointer")
            szf = self.size_fact(t, fs, bsz[0])
            if szf is None:
                rep.bad("slice", "size", w, "elements are visited without having checked the size of the buffer")
            else:
                rng, exact = szf
                if not exact:
                    rep.bad("slice", "size", w, "the buffer is compared with something other than the number of elements: %s" % rng)
                else:
                    rep.ok("slice", aw, "buffer size covers the range")
            break
        # The size is that of the whole clipped range, taken before the range is altered.
        thr = [(i, e) for i, e in enumerate(t.log) if e.kind == "throw" and any(bsz[0] in fmt(g) for g in e.guards)]
        prod = [(i, e) for i, e in t.calls_of("product")]
        if thr and prod:
            i = thr[0][0]
            alt = [e for e in t.log[:i] if e.kind == "store" and e.key[0] == "idx" and fmt(e.key).startswith("range")]
            if alt:
                rep.bad("slice", "altered", w, "the range is altered before the buffer size is checked against it")
            else:
                rep.ok("slice", w, "range unaltered at the size check")
        gs = [(i, e) for i, e in t.calls_of("get_slice_range")]
        if gs and len(outs) == 2:
            a = [fmt(x) for x in gs[0][1].args]
            if a[:2] == [outs[0], outs[1]]:
                rep.ok("slice", w, "range of the clipped indices")
            elif set(a[:2]) & set(inds) or a[:2] == [outs[1], outs[0]]:
                rep.bad("slice", "range", w, "the range visited is %s..%s instead of the clipped one" % (a[0], a[1]))
            else:
                rep.skip("slice", w, "range of %s" % a[:2])
        # Steps visited are the clipped ones.
        # A slice wholly outside is not visited.
        ends = [e for e in t.log[:first] if e.kind == "ret" and e.depth == 0 and e.val == ("lit", 0) and any(all(n in fmt(g) for n in inds) or sum(n in fmt(g) for n in inds + list(outs.values())) >= 2 for g in e.guards)]
        if len(outs) == 2:
            verdict = self.outside(ends, inds, outs)
            if verdict is True:
                rep.ok("slice", w, "a slice that is wholly outside is not visited")
            elif verdict is None:
                rep.skip("slice", w, "treatment of slices wholly outside")
            else:
                rep.bad("slice", "outside", w, "a non-strict slice that lies wholly outside of the var is clipped to, and touches, its nearest elements (%s)" % verdict)

    def outside(self, ends, inds, outs):
        if not ends:
            return "no test"
        und = False
        for (a, b) in ((-5, -2), (-5, 4), (2, 4), (2, 30), (12, 30), (0, 9), (9, 9), (10, 12), (-1, -1)):
            ca, cb = min(max(a, 0), 9), min(max(b, 0), 9)

            def env(x):
                if x[0] == "idx":
                    k = fmt(x)
                    for n, val in ((inds[0], a), (inds[1], b), (outs[0], ca), (outs[1], cb)):
                        if k.startswith(n + ".") or k.startswith(n + "["):
                            return val
                if x[0] == "bin" and "_ndims" in fmt(x) and "#" in fmt(x) and x[1] in ("<", "!=", "<="):
                    return True
                return None
            r = any_of([all_of([truth(g, env) for g in e.guards]) for e in ends])
            if r is None:
                und = True
                continue
            if r != (b < 0 or a > 9):
                return "[%d,%d] of [0,9] is %s" % (a, b, "skipped" if r else "visited")
        return None if und else True

    def size_fact(self, t, fs, bsz):
        """A fact that compares the buffer size with a product."""
        found = None
        work = list(fs)
        while work:
            g = work.pop()
            if g[0] == "bin" and g[1] == "&&":
                work += g[2:]
            if g[0] != "bin" or g[1] not in ("<", "<=", ">", ">=") or bsz not in fmt(g):
                continue
            a, b = g[2], g[3]
            prods = [x for x in subterms(g) if x[0] == "call" and short(x[1]) == "product"]
            if not prods:
                continue
            ok = True
            for n, s in ((5, 4), (5, 5), (5, 6), (1, 0), (1, 1)):
                def env(x):
                    if fmt(x) == bsz:
                        return s
                    if x in prods:
                        return n
                    return None
                v = truth(g, env)
                if v is None or v != (s >= n):
                    ok = False
            found = (fmt(g), ok)
            if ok:
                return found
        return found

    # -- callers of the visitor
    def callers(self):
        rep = self.rep
        rep.rule("caller", "slice calls that use a caller's buffer check strictly and pass its own size; the others pass on strict_indices")
        for nm, strictfix in (("_get_elements_in_slice", True), ("_set_elements_in_slice", True), ("_set_elements_in_slice_same", False),
                              ("_reduce_elements_in_slice", False)):
            fs = self.impl("yask::YkVarBase::" + nm)
            for f in fs[:2]:
                t = self.trace(f, keep=(CHECK, "yask::YkVarBase::_visit_elements_in_slice"))
                cs = [(i, e) for i, e in t.calls_of("_visit_elements_in_slice")]
                if not cs:
                    rep.skip("caller", f.where(), "no call of the visitor")
                    continue
                pn = {p["n"]: p["t"] for p in f.params}
                inds = [n for n, ty in pn.items() if "Indices" in ty]
                for i, e in cs:
                    a = [fmt(x) for x in e.args]
                    w = self.P.at(e.node)
                    s = truth(e.args[0], lambda x: None)
                    if strictfix:
                        if s is True:
                            rep.ok("caller", w, "%s: strict" % nm)
                        else:
                            rep.bad("caller", nm + ":strict", w, "%s does not check its indices strictly" % nm)
                        sizes = [n for n, ty in pn.items() if ty == "unsigned long"]
                        bufs = [n for n, ty in pn.items() if "*" in ty]
                        if sizes and a[2] == sizes[0]:
                            rep.ok("caller", w, "%s: passes the size of the buffer" % nm)
                        elif sizes:
                            rep.bad("caller", nm + ":size", w, "%s passes %s as the size of the caller's buffer" % (nm, a[2]))
                        if bufs and bufs[0] not in a[1]:
                            rep.bad("caller", nm + ":buf", w, "%s passes %s as buffer" % (nm, a[1]))
                    else:
                        st = [n for n, ty in pn.items() if ty == "bool"]
                        if st and a[0] == st[0]:
                            rep.ok("caller", w, "%s: passes on strict_indices" % nm)
                        else:
                            rep.bad("caller", nm + ":strict", w, "%s passes %s instead of strict_indices" % (nm, a[0]))
                    if len(inds) == 2 and a[4:6] == inds:
                        rep.ok("caller", w, "%s: own indices" % nm)
                    else:
                        rep.bad("caller", nm + ":index", w, "%s visits %s..%s instead of its own indices" % (nm, a[4], a[5]))
        # API entry points: implementation methods reached from the API class with the same arguments.
        for nm, imp in (("get_elements_in_slice", "_get_elements_in_slice"), ("set_elements_in_slice", "_set_elements_in_slice"),
                        ("set_elements_in_slice_same", "_set_elements_in_slice_same"), ("reduce_elements_in_slice", "_reduce_elements_in_slice")):
            for cls in ("YkElemVar", "YkVecVar"):
                for f in self.impl("yask::%s::%s" % (cls, nm))[:3]:
                    t = self.trace(f, keep=("yask::YkVarBase::" + imp,))
                    cs = t.calls_of(imp)
                    if not cs:
                        rep.skip("caller", f.where(), "does not reach %s" % imp)
                        continue
                    for i, e in cs:
                        a = [fmt(x) for x in e.args]
                        mine = [p["n"] for p in f.params]
                        pos = [mine.index(x) for x in a if x in mine]
                        if e.guards:
                            rep.skip("caller", f.where(), "conditional")
                        elif pos != list(range(len(mine))):
                            same = {}
                            for p in f.params:
                                same.setdefault(p["t"], []).append(p["n"])
                            if len(pos) == len(a) and sorted(pos) != pos:
                                rep.bad("caller", "%s:%s" % (nm, "order"), f.where(), "%s passes its arguments in another order: %s" % (nm, ", ".join(a)))
                            elif any(x in ("True", "False") for x in a) and len(pos) < len(mine):
                                rep.bad("caller", "%s:%s" % (nm, "const"), f.where(), "%s replaces an argument by a constant: %s" % (nm, ", ".join(a)))
                            else:
                                rep.skip("caller", f.where(), ", ".join(a)[:80])
                        else:
                            rep.ok("caller", f.where(), "%s forwards its arguments" % nm)

    # -- vector slices
    def vecs(self):
        rep = self.rep
        rep.rule("vector", "vector slices are copied only after a strict check of both ends")
        fs = self.impl("yask::YkVecVar::_copy_vecs_in_slice")
        for f in fs[:2]:
            t = self.trace(f)
            inds = [p["n"] for p in f.params if "Indices" in p["t"]]
            acc = [i for i, e in enumerate(t.log) if e.kind == "call" and short(e.name) == "get_vec_ptr_norm"]
            if not acc or len(inds) != 2:
                rep.skip("vector", f.where(), "form")
                continue
            for n in inds:
                cs = [(j, c) for j, c in t.calls_of("check_indices") if fmt(c.args[0]) == n and j < acc[0] and not c.guards]
                if any(truth(c.args[2], lambda x: None) is True and len(c.args) > 4 and truth(c.args[4], lambda x: None) is True for j, c in cs):
                    rep.ok("vector", f.where(), "checks %s" % n)
                else:
                    rep.bad("vector", "check:%d" % inds.index(n), f.where(), "vectors are copied without a strict check of %s" % n)

    def local(self):
        rep = self.rep
        rep.rule("local", "are_indices_local is true iff the var has storage and every index is in range")
        for f in self.impl("yask::YkVarImpl::are_indices_local", lambda f: any("Indices" in p["t"] for p in f.params)):
            t = self.trace(f)
            idx = f.params[0]["n"]
            rets = [e for e in t.log if e.kind == "ret" and e.depth == 0]
            cs = t.calls_of("check_indices")
            if not cs:
                rep.bad("local", "check", f.where(), "are_indices_local does not check the indices")
                continue
            for i, c in cs:
                if fmt(c.args[0]) != idx or truth(c.args[2], lambda x: None) is not False or truth(c.args[3], lambda x: None) is not True:
                    rep.bad("local", "args", f.where(), "are_indices_local checks %s with strictness %s and check_step %s" % tuple(fmt(c.args[k]) for k in (0, 2, 3)))
            und = False
            done = False
            for st, ck in itertools.product((False, True), repeat=2):
                def env(x):
                    if is_storage(x):
                        return st
                    if x[0] == "call" and short(x[1]) == "check_indices":
                        return ck
                    return None
                got = None
                for e in rets:
                    g = all_of([truth(y, env) for y in e.guards])
                    if g is None:
                        break
                    if g:
                        got = truth(e.val, env)
                        break
                if got is None:
                    und = True
                elif bool(got) != (st and ck):
                    done = True
                    rep.bad("local", "value", f.where(), "are_indices_local is %s with%s storage and indices %s" % (got, "" if st else "out", "in range" if ck else "out of range"))
            if und:
                rep.skip("local", f.where(), "value")
            elif not done:
                rep.ok("local", f.where(), "truth table")

    def fill(self):
        rep = self.rep
        rep.rule("fill", "filling a var writes only if it has storage, and only its own elements")
        for nm in ("set_elems_same", "set_elems_in_seq"):
            for f in self.impl("yask::GenericVarTyped::" + nm)[:2]:
                t = self.trace(f, keep=("yask::yask_parallel_for", "yask::GenericVarBase::get_num_elems"))
                par = t.calls_of("yask_parallel_for")
                if not par:
                    rep.skip("fill", f.where(), "no parallel loop")
                    continue
                for i, e in par[:1]:
                    inits = {v["n"]: v.get("init") for n in f.nodes() if n["k"] == "decl" for v in n["v"] if v.get("init")}
                    stv = {n for n, x in inits.items() if any(y["k"] == "call" and short(y.get("n")) == "get_storage" for y in walk(x))}
                    if not implies(t.facts(i), lambda g: is_storage_fact(g) or fmt(truthy(g)) in stv):
                        rep.bad("fill", nm + ":storage", f.where(), "%s writes without having checked for storage" % nm)
                    else:
                        rep.ok("fill", f.where(), "%s: storage" % nm)
                    a = [fmt(x) for x in e.args]
                    lv = leaves(e.args[1])
                    whole = lambda x: x[0] == "call" and short(x[1]) in ("get_num_elems", "product", "reduce")
                    if a[0] == "0" and all(whole(x) or x == ("lit", 1) for x in lv) and any(map(whole, lv)):
                        rep.ok("fill", f.where(), "%s: range" % nm)
                    elif any(x[0] == "bin" for x in lv) or a[0].lstrip("-").isdigit() and a[0] != "0" or re_arith(e.args[1]):
                        rep.bad("fill", nm + ":range", f.where(), "%s fills from %s to %s" % (nm, a[0], a[1]))
                    else:
                        rep.skip("fill", f.where(), "range %s..%s" % (a[0], a[1]))


def re_arith(t):
    return t[0] == "bin" and t[1] in "+-*/" and any(x[0] == "call" and short(x[1]) == "get_num_elems" for x in subterms(t))


def is_storage_fact(g):
    return is_storage(truthy(g))


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


def leaves(t):
    if t[0] == "cond":
        return leaves(t[2]) + leaves(t[3])
    return [t]


def names_in(t):
    return {x[-1] for x in subterms(t) if x and x[0] == "var"} | {x[2][-1] for x in subterms(t) if x and x[0] in ("loopout", "phi") and len(x) > 2 and isinstance(x[2], tuple)}


def walk_fields(t):
    for x in subterms(t):
        if x and x[0] == "fld":
            yield short(x[1])


def any_of(vs):
    if any(v for v in vs):
        return True
    return None if None in vs else False


def all_of(vs):
    if any(v is not None and not v for v in vs):
        return False
    return None if None in vs else True


def ndim_mismatch(g, idx):
    ns = [x for x in subterms(g) if x and x[0] == "fld" and short(x[1]) == "_ndims" or x and x[0] == "call" and short(x[1]) == "get_num_dims"]
    mine = [x for x in ns if fmt(x).startswith(idx + ".")]
    other = [x for x in ns if x not in mine]
    if not mine or not other:
        return False
    for a, b in ((2, 3), (3, 3), (4, 3)):
        v = truth(g, lambda x: a if x in mine else b if x in other else None)
        if v is None or bool(v) != (a != b):
            return False
    return True


def check(rep, tier):
    rep.rule("storage", "elements are accessed only if the var has storage")
    rep.rule("index", "elements are accessed only at indices that passed the index check, with the caller's strictness")
    C04(rep, facts.load_kernel()).run()
