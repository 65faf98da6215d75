"""C05: per-dimension var queries and setters."""
import itertools
from .. import facts
from ..ir import walk, strip_targs
from ..flow import Flow, poly
from ..sym import fmt

WHAT = "every per-dimension query and setter of a var in its by-name, by-position and all-dimensions forms, the dimension-kind test and the dimension masks"
TECHNIQUE = "symbolic summaries of accessors compared with the documented quantity (polynomial identity over the per-dimension arrays), and exhaustive evaluation of the kind tests"
LEVEL = "other"
LEVEL_NOTE = "exact for accessors in straight-line or single-loop form; the documented table of kinds and quantities is the oracle"
ASSUMPTIONS = ["Tuple::lookup and lookup_posn find a dimension by name (property C18)"]
MIN = {"get": 30, "set": 20, "kind": 30}

S, D, M = "step", "domain", "misc"
ANY, DOM, MSC = (S, D, M), (D,), (M,)
# Documented kinds and quantity (sum of per-dimension arrays plus a constant).
GET = {
    "get_first_misc_index": (MSC, "+_local_offsets"),
    "get_last_misc_index": (MSC, "+_local_offsets +_domains -1"),
    "get_alloc_size": (ANY, "+_allocs"),
    "get_first_local_index": (ANY, "+_rank_offsets +_local_offsets -_actl_left_pads"),
    "get_last_local_index": (ANY, "+_rank_offsets +_local_offsets +_domains +_actl_right_pads -1"),
    "get_left_pad_size": (DOM, "+_actl_left_pads"),
    "get_right_pad_size": (DOM, "+_actl_right_pads"),
    "get_left_halo_size": (DOM, "+_left_halos"),
    "get_right_halo_size": (DOM, "+_right_halos"),
    "get_left_extra_pad_size": (DOM, "+_actl_left_pads -_left_halos"),
    "get_right_extra_pad_size": (DOM, "+_actl_right_pads -_right_halos"),
    "get_rank_domain_size": (DOM, "+_domains"),
    "get_first_rank_domain_index": (DOM, "+_rank_offsets"),
    "get_last_rank_domain_index": (DOM, "+_rank_offsets +_domains -1"),
    "get_first_rank_halo_index": (DOM, "+_rank_offsets -_left_halos"),
    "get_last_rank_halo_index": (DOM, "+_rank_offsets +_domains +_right_halos -1"),
    "_get_left_wf_ext": (ANY, "+_left_wf_exts"),
    "_get_right_wf_ext": (ANY, "+_right_wf_exts"),
    "_get_soln_vec_len": (ANY, "+_soln_vec_lens"),
    "_get_var_vec_len": (ANY, "+_var_vec_lens"),
    "_get_rank_offset": (ANY, "+_rank_offsets"),
    "_get_local_offset": (ANY, "+_local_offsets"),
}
USER, DSTEP, FIXED, DMISC = "_is_user_var", "_is_dynamic_step_alloc", "_fixed_size", "_is_dynamic_misc_alloc"
# kinds as in GET, or (step, domain, misc) conditions; effect per array: set to n, or raised to n.
SET = {
    "_set_rank_offset": (ANY, {"_rank_offsets": "n"}),
    "_set_local_offset": (ANY, {"_local_offsets": "n", "_vec_local_offsets": "vec"}),
    "_set_domain_size": (ANY, {"_domains": "n"}),
    "_set_left_pad_size": (ANY, {"_actl_left_pads": "n"}),
    "_set_right_pad_size": (ANY, {"_actl_right_pads": "n"}),
    "_set_left_wf_ext": (ANY, {"_left_wf_exts": "n"}),
    "_set_right_wf_ext": (ANY, {"_right_wf_exts": "n"}),
    "_set_alloc_size": (ANY, {"_domains": "n"}),
    "update_left_min_pad_size": (DOM, {"_req_left_pads": "max"}),
    "update_right_min_pad_size": (DOM, {"_req_right_pads": "max"}),
    "update_min_pad_size": (DOM, {"_req_left_pads": "max", "_req_right_pads": "max"}),
    "update_left_extra_pad_size": (DOM, {"_req_left_epads": "max"}),
    "update_right_extra_pad_size": (DOM, {"_req_right_epads": "max"}),
    "update_extra_pad_size": (DOM, {"_req_left_epads": "max", "_req_right_epads": "max"}),
    "set_first_misc_index": ((False, False, USER), {"_local_offsets": "n", "_vec_local_offsets": "vec"}),
    "set_alloc_size": ((DSTEP, FIXED, DMISC), {"_domains": "n"}),
    "set_left_halo_size": (DOM, {"_left_halos": "n"}),
    "set_right_halo_size": (DOM, {"_right_halos": "n"}),
    "set_halo_size": (DOM, {"_left_halos": "n", "_right_halos": "n"}),
    "set_left_min_pad_size": (DOM, {"_req_left_pads": "n"}),
    "set_right_min_pad_size": (DOM, {"_req_right_pads": "n"}),
    "set_min_pad_size": (DOM, {"_req_left_pads": "n", "_req_right_pads": "n"}),
    "set_left_extra_pad_size": (DOM, {"_req_left_epads": "n"}),
    "set_right_extra_pad_size": (DOM, {"_req_right_epads": "n"}),
    "set_extra_pad_size": (DOM, {"_req_left_epads": "n", "_req_right_epads": "n"}),
}
# Arrays whose change must be followed by a size computation, not only by a copy to the device.
SIZES = ("_domains", "_req_left_pads", "_req_right_pads", "_req_left_epads", "_req_right_epads", "_left_halos", "_right_halos",
         "_actl_left_pads", "_actl_right_pads", "_left_wf_exts", "_right_wf_exts")

VAR = "yask::YkVarImpl::"
CHK = "yask::Dims::check_dim_type"
POSN = "yask::YkVarBase::get_dim_posn"
RES = "yask::YkVarBase::resize"
SYNC = "yask::YkVarBase::sync_core"
KEEP = (CHK, POSN, RES, SYNC)


def check(rep, tier):
    rep.rule("get", "each query returns exactly its documented combination of the per-dimension arrays, at the position of the named dimension, in all its forms")
    rep.rule("set", "each setter stores its argument in exactly its documented arrays, at the position of the named dimension, and then recomputes the sizes (or refreshes the device copy)")
    rep.rule("kind", "each by-name form first rejects exactly the dimension kinds its documentation excludes")
    rep.rule("reject", "the kind test throws exactly for a kind that is not allowed, and a name that is not in the var throws")
    rep.rule("mask", "each dimension of a var is recorded as exactly one of step, domain and misc, by its name")
    P = facts.load_kernel()
    rejects(rep, P)
    masks(rep, P)
    steps(rep, P)
    for name, (kinds, spec) in sorted(GET.items()):
        for f in P.named(VAR + name):
            one_get(rep, P, f, name, kinds, want_poly(spec))
        for f in P.named(VAR + name + "_vec"):
            vec_get(rep, P, f, name, kinds, want_poly(spec))
    for name, (kinds, eff) in sorted(SET.items()):
        for f in P.named(VAR + name):
            one_set(rep, P, f, name, kinds, eff)


def want_poly(spec):
    r = {}
    for w in spec.split():
        k = () if w[1:].isdigit() else (w[1:],)
        r[k] = r.get(k, 0) + (1 if w[0] == "+" else -1) * (int(w[1:]) if w[1:].isdigit() else 1)
    return r


def array_of(t):
    """(array name, index term) of an access to one per-dimension array of a var core."""
    if isinstance(t, tuple) and t and t[0] == "idx" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][1].endswith("Indices::_idxs"):
        b = t[1][2]
        if isinstance(b, tuple) and b[0] == "fld" and b[1].startswith("yask::YkVarBaseCore::"):
            return b[1].rsplit("::", 1)[1], t[2]
    return None


def quantity(v, posn):
    """Polynomial over array names, or a string saying why not."""
    why = []

    def atom(t):
        a = array_of(t)
        if a is None:
            return None
        if a[1] != posn:
            why.append("%s is read at %s" % (a[0], fmt(a[1])[:60]))
        return a[0]
    p = poly_named(v, atom)
    if why:
        return why[0]
    return p


def poly_named(t, atom):
    a = atom(t)
    if a is not None:
        return {(a,): 1}
    k = t[0]
    if k == "lit" and isinstance(t[1], int):
        return {(): int(t[1])} if t[1] else {}
    if k == "cast":
        return poly_named(t[2], atom)
    if k == "const" and isinstance(t[2], int):
        return {(): t[2]} if t[2] else {}
    if k == "un" and t[1] == "-":
        p = poly_named(t[2], atom)
        return None if p is None else {m: -c for m, c in p.items()}
    if k == "bin" and t[1] in ("+", "-", "*"):
        x, y = poly_named(t[2], atom), poly_named(t[3], atom)
        if x is None or y is None:
            return None
        r = {}
        if t[1] == "*":
            for m1, c1 in x.items():
                for m2, c2 in y.items():
                    m = tuple(sorted(m1 + m2))
                    r[m] = r.get(m, 0) + c1 * c2
        else:
            r = dict(x)
            for m, c in y.items():
                r[m] = r.get(m, 0) + (c if t[1] == "+" else -c)
        return {m: c for m, c in r.items() if c}
    return None


def show(p):
    return " ".join("%+d%s" % (c, "*" + "*".join(m) if m else "") for m, c in sorted(p.items())) or "0"


def posn_ok(t, f):
    """The position is the one named by the first parameter."""
    if f.params[0]["t"] in ("int", "yask::idx_t", "long"):
        return t == ("parm", 0, f.params[0]["n"])
    return is_lookup(t, f)


def is_lookup(t, f):
    return isinstance(t, tuple) and t[0] == "call" and (t[1] == POSN or t[1].endswith("lookup_posn")) and len(t) > 3 and t[3] == ("parm", 0, f.params[0]["n"])


def arrays(v):
    if not isinstance(v, tuple) or not v:
        return set()
    a = array_of(v)
    return {a[0]} if a else set().union(*[arrays(x) for x in v[1:]]) if len(v) > 1 else set()


def positions(v):
    out = set()
    st = [v]
    while st:
        t = st.pop()
        if isinstance(t, tuple) and t:
            a = array_of(t)
            if a:
                out.add(a[1])
            else:
                st.extend(x for x in t[1:] if isinstance(x, tuple))
    return out


def kind_args(F, f):
    """[(value per kind)] of calls of the kind test."""
    return [(a[2:5], g, a) for n, fr, a, g in F.calls if strip_targs(n.get("n") or "") == CHK and len(a) >= 5]


def flag(t):
    if isinstance(t, tuple):
        if t[0] == "lit":
            return bool(t[1])
        if t[0] == "fld":
            return t[1].rsplit("::", 1)[1]
        if t[0] == "cast":
            return flag(t[2])
        if t[0] == "bin" and t[1] == "!=" and t[3] == ("lit", 0):
            return flag(t[2])
    return fmt(t)


def kinds_of(k):
    if k and k[0] in (S, D, M):
        return tuple(x in k for x in (S, D, M))
    return tuple(k)


def check_kind(rep, F, f, name, kinds):
    want = kinds_of(kinds)
    w = f.where()
    key = "%s(dim)" % name
    ks = kind_args(F, f)
    if not ks:
        if want == (True, True, True):
            rep.ok("kind", w, "%s: all kinds" % name)
        elif F.throws:
            rep.skip("kind", w, "kind test not recognised")
        else:
            rep.bad("kind", key, w, "%s() does not reject dimensions of other kinds" % name)
        return
    for fl, g, a in ks:
        got = tuple(flag(x) for x in fl)
        if got == want and not g and a[0] == ("parm", 0, f.params[0]["n"]):
            rep.ok("kind", w, "%s: %s" % (name, "/".join(k for k, b in zip((S, D, M), got) if b)))
            return
    fl, g, a = ks[0]
    got = tuple(flag(x) for x in fl)
    if a[0] != ("parm", 0, f.params[0]["n"]):
        rep.bad("kind", key, w, "%s() tests the kind of %s" % (name, fmt(a[0])[:80]))
    elif g:
        rep.bad("kind", key, w, "%s() tests the kind of its dimension only if %s" % (name, fmt(g[0])[:80]))
    else:
        rep.bad("kind", key, w, "%s() allows (step, domain, misc) = %s, documented %s" % (name, got, want))


def one_get(rep, P, f, name, kinds, want):
    w = f.where()
    byname = "string" in f.params[0]["t"]
    key = "%s(%s)" % (name, "dim" if byname else "posn")
    F = Flow(P, keep=KEEP)
    F.run(f)
    if byname:
        check_kind(rep, F, f, name, kinds)
    rets = [r for r in F.rets if r[3]["k"] == "ret"]
    if not rets:
        rep.skip("get", w, "no return value")
        return
    for r in rets:
        if r[1] and len(rets) > 1:
            rep.skip("get", w, "conditional result")
            return
        ps = positions(r[0])
        if len(ps) != 1 or not posn_ok(list(ps)[0], f):
            other = [p for p in ps if not posn_ok(p, f)]
            # Delegation to the other form.
            d = r[0]
            if isinstance(d, tuple) and d[0] == "call" and d[1] == VAR + name and len(d) > 3 and posn_ok(d[3], f):
                rep.ok("get", w, "%s delegates" % key)
                return
            if other:
                rep.bad("get", key, w, "%s() reads position %s" % (name, fmt(other[0])[:80]))
            else:
                rep.skip("get", w, "result is %s" % fmt(r[0])[:80])
            return
        q = quantity(r[0], list(ps)[0])
        if not isinstance(q, dict):
            rep.skip("get", w, "result is %s" % fmt(r[0])[:100])
        elif q != want:
            rep.bad("get", key, w, "%s() returns %s, documented %s" % (name, show(q), show(want)))
        else:
            rep.ok("get", w, "%s = %s" % (key, show(q)))


def truth(t, kind):
    """Value of a guard when the current position is of the given kind."""
    if not isinstance(t, tuple):
        return None
    if t[0] == "lit":
        return bool(t[1])
    if t[0] == "cast":
        return truth(t[2], kind)
    if t[0] == "un" and t[1] == "!":
        v = truth(t[2], kind)
        return None if v is None else not v
    if t[0] == "bin" and t[1] in ("&&", "||"):
        vs = [truth(x, kind) for x in t[2:]]
        if t[1] == "&&":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if t[0] == "bin" and t[1] in ("!=", "==", ">") and t[3] == ("lit", 0):
        v = truth(t[2], kind)
        return v if v is None or t[1] != "==" else not v
    if t[0] == "bin" and t[1] == "&":
        for m in t[2:]:
            if isinstance(m, tuple) and m[0] == "fld" and m[1].endswith("_dim_mask"):
                return m[1].rsplit("::", 1)[1] == "_%s_dim_mask" % kind
    return None


def subst_cond(t, kind):
    while isinstance(t, tuple) and t[0] == "cond":
        v = truth(t[1], kind)
        if v is None:
            return None
        t = t[2] if v else t[3]
    return t


def vec_get(rep, P, f, name, kinds, want):
    w, key = f.where(), name + "_vec"
    F = Flow(P, keep=KEEP)
    F.run(f)
    ok = kinds_of(kinds)
    loops = [L for L in F.loops if L.stores]
    if len(loops) != 1:
        rep.skip("get", w, "%d loops" % len(loops))
        return
    L = loops[0]
    # Position counter: starts at zero, advances by one unconditionally.
    posn = count = None
    for k, s in L.syms.items():
        if k[0] != "var" or L.entry[k] != ("lit", 0):
            continue
        e = L.exit[k]
        if e in (("bin", "+", ("lit", 1), s), ("bin", "+", s, ("lit", 1))):
            posn = s
        elif isinstance(e, tuple) and e[0] == "cond":
            count = (k, s)
    if posn is None:
        for k, s in L.syms.items():
            if k[0] == "var" and L.exit[k] in (("bin", "+", ("lit", 1), s), ("bin", "+", s, ("lit", 1))):
                rep.bad("get", key, w, "%s_vec() starts at position %s" % (name, fmt(L.entry[k])))
                return
        rep.skip("get", w, "no position counter")
        return
    if isinstance(L.cond, tuple) and L.cond[0] == "bin" and L.cond[2] == posn and (L.cond[1] != "<" or not fmt(L.cond[3]).endswith(("_ndims", "get_num_dims()", ".size()"))):
        rep.bad("get", key + ":range", w, "%s_vec() visits positions while %s" % (name, fmt(L.cond)[:80]))
        return
    n = 0
    for k, v, g in L.stores:
        if not positions(v):
            continue
        n += 1
        q = quantity(v, posn)
        if isinstance(q, str):
            rep.bad("get", key, w, "%s_vec(): %s" % (name, q))
            return
        if q is None:
            rep.skip("get", w, "element is %s" % fmt(v)[:80])
            return
        if q != want:
            rep.bad("get", key, w, "%s_vec() returns %s, documented %s" % (name, show(q), show(want)))
            return
        for kind, allowed in zip((S, D, M), ok):
            vals = [truth(x, kind) for x in g if "mask" in fmt(x)]
            if None in vals:
                rep.skip("get", w, "selection is %s" % fmt(g[-1])[:80])
                return
            if all(vals) != allowed:
                rep.bad("get", key + ":kinds", w, "%s_vec() %s %s dimensions" % (name, "includes" if all(vals) else "omits", kind))
                return
        if count is not None:
            for kind, allowed in zip((S, D, M), ok):
                e = subst_cond(L.exit[count[0]], kind)
                adv = e in (("bin", "+", ("lit", 1), count[1]), ("bin", "+", count[1], ("lit", 1)))
                if e is not None and adv != allowed:
                    rep.bad("get", key + ":slot", w, "%s_vec() %s its result slot for %s dimensions" % (name, "advances" if adv else "keeps", kind))
                    return
    if not n:
        rep.skip("get", w, "no element store")
        return
    # Size of the result.
    for o, init in F.objinit.items():
        if isinstance(init, tuple) and init[0] == "ctor" and len(init) >= 4:
            cnt = {}
            st = [init[2]]
            while st:
                t = st.pop()
                if isinstance(t, tuple):
                    if t[0] == "fld" and t[1].endswith("_dims") and "_num_" in t[1]:
                        cnt[t[1].rsplit("::", 1)[1]] = 1
                    else:
                        st.extend(t[1:])
            if cnt:
                exp = {"_num_%s_dims" % k for k, a in zip((S, D, M), ok) if a}
                if set(cnt) != exp:
                    rep.bad("get", key + ":size", w, "%s_vec() returns %s elements" % (name, "+".join(sorted(cnt))))
                    return
    rep.ok("get", w, "%s = %s" % (key, show(want)))


def one_set(rep, P, f, name, kinds, eff):
    w = f.where()
    byname = "string" in f.params[0]["t"]
    key = "%s(%s)" % (name, "dim" if byname else "posn")
    snaps = []

    def hook(flow, node, fr):
        nm = strip_targs(node.get("n") or "")
        if nm in (RES, SYNC) and not flow.loopstack:
            snaps.append((nm, dict(flow.st.env), list(flow.guards)))
    F = Flow(P, keep=KEEP)
    F.hook = hook
    F.run(f)
    if byname:
        check_kind(rep, F, f, name, kinds)
    if not snaps:
        d = [c for c in F.calls if strip_targs(c[0].get("n") or "") == VAR + name and c[0].get("fn") != f.u]
        if d and posn_ok(d[0][2][0], f) and d[0][2][1:] == (("parm", 1, f.params[1]["n"]),):
            rep.ok("set", w, "%s delegates" % key)
        else:
            rep.bad("set", key + ":sync", w, "%s() neither recomputes sizes nor refreshes the device copy" % name)
        return
    env = snaps[-1][1]
    n = ("parm", 1, f.params[1]["n"])
    got = {}
    for k, v in env.items():
        a = array_of(k)
        if a and v != k:
            if not posn_ok(a[1], f):
                rep.bad("set", key + ":" + a[0], w, "%s() changes %s at position %s" % (name, a[0], fmt(a[1])[:80]))
                return
            got[a[0]] = (k, v)
    for arr in sorted(set(got) - set(eff)):
        rep.bad("set", key + ":" + arr, w, "%s() changes %s" % (name, arr))
        return
    for arr, how in sorted(eff.items()):
        if arr not in got:
            rep.bad("set", key + ":" + arr, w, "%s() does not set %s" % (name, arr))
            return
        k, v = got[arr]
        if how == "n":
            good = strip(v) == n
        elif how == "max":
            good = False if arrays(v) - {arr} else equal_fn(v, n, k, max)
        else:
            good = vec_div(v, n, k)
        if good is None:
            rep.skip("set", w, "%s := %s" % (arr, fmt(v)[:80]))
            return
        if not good:
            rep.bad("set", key + ":" + arr, w, "%s() sets %s to %s" % (name, arr, fmt(v)[:120]))
            return
    if any(a in SIZES for a in eff) and not any(s[0] == RES and not [g for g in s[2] if not bylit(g)] for s in snaps):
        rep.bad("set", key + ":resize", w, "%s() changes a size without recomputing the allocation" % name)
        return
    if any([g for g in s[2] if not bylit(g)] for s in snaps):
        rep.skip("set", w, "conditional refresh")
        return
    rep.ok("set", w, "%s: %s" % (key, ", ".join("%s:=%s" % x for x in sorted(eff.items()))))


def conj(t):
    return [y for x in t[2:] for y in conj(x)] if isinstance(t, tuple) and t[:2] == ("bin", "&&") else [t]


def bylit(g):
    return isinstance(g, tuple) and g[0] == "lit" and g[1]


def strip(v):
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[2]
    return v


def evalt(t, asg):
    """Integer value of a term under an assignment of its atoms."""
    if t in asg:
        return asg[t]
    if not isinstance(t, tuple):
        raise KeyError(t)
    k = t[0]
    if k == "lit" and isinstance(t[1], (int, bool)):
        return int(t[1])
    if k == "cast":
        return evalt(t[2], asg)
    if k == "cond":
        return evalt(t[2] if evalt(t[1], asg) else t[3], asg)
    if k == "un":
        v = evalt(t[2], asg)
        return {"-": -v, "!": int(not v), "+": v}[t[1]]
    if k == "bin":
        a, b = evalt(t[2], asg), evalt(t[3], asg)
        return int({"max": lambda: max(a, b), "min": lambda: min(a, b), "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b,
                    ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[t[1]]())
    if k == "call" and t[1] in ("std::max", "std::min") and len(t) == 5:
        return (max if t[1] == "std::max" else min)(evalt(t[3], asg), evalt(t[4], asg))
    raise KeyError(fmt(t))


def equal_fn(v, n, old, fn):
    try:
        return all(evalt(v, {n: a, old: b}) == fn(a, b) for a, b in itertools.product((-3, 0, 2, 5), (-4, 0, 3, 5)))
    except KeyError:
        return None


def vec_div(v, n, k):
    """n divided by the vector length of the same dimension."""
    def at(t):
        if isinstance(t, tuple):
            a = array_of(t)
            if a:
                return a[0] == "_var_vec_lens" and a[1] == k[2]
            return any(at(x) for x in t[1:])
        return False
    t = fmt(v)
    if strip(v) == n:
        return False
    if isinstance(v, tuple) and (v[0] == "bin" and v[1] == "/" and strip(v[2]) == n or v[0] == "call" and v[1].endswith("idiv_flr") and v[3] == n):
        return at(v)
    return at(v) and fmt(n) in t or None


def rejects(rep, P):
    for f in P.named(CHK):
        w = f.where()
        F = Flow(P, keep=("yask::Tuple::lookup",))
        F.run(f)
        names = [p["n"] for p in f.params]
        ps = [("parm", i, n) for i, n in enumerate(names)]
        if len(ps) < 5:
            rep.skip("reject", w, "signature")
            continue
        throws = [(None, t[0]) for t in F.throws]
        if not throws:
            rep.skip("reject", w, "no throws found")
            continue
        bad = None
        und = False
        for kind in (S, D, M):
            for fl in itertools.product((False, True), repeat=3):
                def val(t):
                    if t in ps[2:5]:
                        return fl[ps.index(t) - 2]
                    if t[0] == "lit":
                        return bool(t[1])
                    if t[0] == "un" and t[1] == "!":
                        v = val(t[2])
                        return None if v is None else not v
                    if t[0] == "bin" and t[1] in ("&&", "||"):
                        vs = [val(x) for x in t[2:]]
                        if t[1] == "&&":
                            return False if False in vs else (None if None in vs else True)
                        return True if True in vs else (None if None in vs else False)
                    s = fmt(t)
                    if t[0] in ("bin", "call") and "_step_dim" in s and names[0] in s:
                        v = kind == S
                        return not v if t[0] == "bin" and t[1] == "!=" or t[0] == "call" and t[1].endswith("operator!=") else v
                    if "_domain_dims" in s and "lookup" in s:
                        v = kind == D
                        return not v if t[0] == "bin" and t[1] == "==" else v
                    return None
                outs = [[val(g) for g in r[1]] for r in throws]
                if any(None in o and False not in o for o in outs):
                    und = True
                    continue
                thrown = any(all(o) for o in outs)
                want = not fl[(S, D, M).index(kind)]
                if thrown != want:
                    bad = (kind, fl, thrown)
        if und:
            rep.skip("reject", w, "condition not evaluated")
        elif bad:
            rep.bad("reject", "check_dim_type", w, "check_dim_type() %s a %s dimension with (step_ok, domain_ok, misc_ok) = %s" % (
                "rejects" if bad[2] else "accepts", bad[0], bad[1]))
        else:
            rep.ok("reject", w, "check_dim_type: 24 combinations of kind and permission")
    for f in P.named(POSN):
        w = f.where()
        F = Flow(P)
        F.run(f)
        rets = [r for r in F.rets if r[3]["k"] == "ret"]
        thr = [(None, t[0]) for t in F.throws]
        v = rets[0][0] if rets else None
        if len(rets) == 1 and isinstance(v, tuple) and v[0] == "call" and v[1].endswith("lookup_posn") and v[3] == ("parm", 0, f.params[0]["n"]):
            die = ("parm", 1, f.params[1]["n"])
            thr = [(None, [y for x in t[1] for y in conj(x)]) for t in thr]
            ok = [r for r in thr if set(r[1]) == {("bin", "<", v, ("lit", 0)), die}]
            if ok:
                rep.ok("reject", w, "get_dim_posn: unknown name throws on request")
            elif thr and all(die in r[1] for r in thr):
                rep.skip("reject", w, "throws if %s" % " and ".join(fmt(g)[:60] for g in thr[0][1]))
            else:
                rep.bad("reject", "get_dim_posn", w, "get_dim_posn() does not throw for a name that is not found")
        elif isinstance(v, tuple) and len(rets) == 1 and (v[0] == "lit" or "lookup" in fmt(v) and v[0] == "bin"):
            rep.bad("reject", "get_dim_posn", w, "get_dim_posn() returns %s" % fmt(v)[:80])
        else:
            rep.skip("reject", w, "result is %s" % fmt(v)[:80])
    # By-name forms demand that the dimension is in the var.
    for f in list(P.fns.values()):
        if f.dep or not f.body or not strip_targs(f.n).startswith(VAR) or not f.params or "string" not in f.params[0]["t"]:
            continue
        nm = f.short
        if nm not in GET and nm not in SET:
            continue
        for n in f.nodes():
            if n["k"] == "call" and strip_targs(n.get("n") or "") == POSN:
                a = n["a"][1] if len(n["a"]) > 1 else None
                while a is not None and a["k"] == "cast":
                    a = a["e"]
                if a is not None and a["k"] == "lit" and a.get("v") in (True, "true", 1):
                    rep.ok("reject", f.where(), nm)
                elif a is None or a["k"] in ("lit", "dflt") and a.get("v") in (False, "false", 0):
                    rep.bad("reject", nm + ":posn", f.where(), "%s() accepts a dimension that is not in the var" % nm)
                else:
                    rep.skip("reject", f.where(), "lookup flag")


def masks(rep, P):
    for f in P.fns.values():
        if strip_targs(f.n) != "yask::YkVarBase::YkVarBase" or f.dep or not f.body or len(f.params) < 3:
            continue
        F = Flow(P, keep=("yask::Tuple::lookup",))
        F.run(f)
        w = f.where()
        loops = [L for L in F.loops if any("_dim_mask" in fmt(k) for k, v, g in L.stores)]
        if len(loops) != 1:
            rep.skip("mask", w, "%d loops" % len(loops))
            continue
        L = loops[0]
        for kind in (S, D, M):
            for what in ("_%s_dim_mask" % kind, "_num_%s_dims" % kind):
                ks = [k for k in L.syms if isinstance(k, tuple) and k[0] == "fld" and k[1].endswith("::" + what)]
                if not ks:
                    rep.bad("mask", what, w, "%s is never set from the dimension names" % what)
                    continue
                k = ks[0]
                ph, e = L.syms[k], L.exit[k]
                res = {}
                for cur in (S, D, M):
                    t = e
                    while isinstance(t, tuple) and t[0] == "cond":
                        s = fmt(t[1])
                        v = None
                        if "_domain_dims" in s or "lookup" in s:
                            v = cur == D
                        elif "_step_dim" in s:
                            v = cur == S
                        if v is not None and (t[1][0] == "un" and t[1][1] == "!" or t[1][0] == "bin" and t[1][1] in ("!=",) and "_step_dim" in s):
                            v = not v
                        if v is None:
                            # Composite condition.
                            t = None
                            break
                        t = t[2] if v else t[3]
                    res[cur] = t
                if None in res.values():
                    rep.skip("mask", w, "%s := %s" % (what, fmt(e)[:80]))
                    continue
                changed = tuple(c for c in (S, D, M) if res[c] != ph)
                if changed != (kind,):
                    rep.bad("mask", what, w, "%s is changed for %s dimensions" % (what, "/".join(changed) or "no"))
                    continue
                v = res[kind]
                if what.startswith("_num"):
                    good = v in (("bin", "+", ph, ("lit", 1)), ("bin", "+", ("lit", 1), ph)) and L.entry[k] == ("lit", 0)
                else:
                    good = isinstance(v, tuple) and v[0] == "bin" and v[1] in ("|", "+", "^") and ph in v[2:] and L.entry[k] == ("lit", 0)
                    if good:
                        o = [x for x in v[2:] if x != ph]
                        good = bool(o) and isinstance(strip(o[0]), tuple) and strip(o[0])[0] == "bin" and strip(o[0])[1] == "<<" and strip(strip(o[0])[2]) == ("lit", 1)
                        if good and strip(strip(o[0])[3]) not in L.syms.values():
                            good = False
                if good:
                    rep.ok("mask", w, what)
                else:
                    rep.bad("mask", what, w, "%s becomes %s" % (what, fmt(v)[:100]))


def steps(rep, P):
    for name, spec in (("get_first_valid_step_index", "+_local_offsets"), ("get_last_valid_step_index", "+_local_offsets +_domains -1")):
        for f in P.named(VAR + name):
            F = Flow(P, keep=KEEP)
            F.run(f)
            w = f.where()
            rets = [r for r in F.rets if r[3]["k"] == "ret"]
            ps = positions(rets[0][0]) if len(rets) == 1 else ()
            if len(ps) != 1:
                rep.skip("get", w, "not a single position")
                continue
            p = list(ps)[0]
            if not (p[0] == "lit" and p[1] == 0 or "step_posn" in fmt(p)):
                rep.bad("get", name, w, "%s() reads position %s" % (name, fmt(p)))
                continue
            q = quantity(rets[0][0], p)
            if q == want_poly(spec):
                rep.ok("get", w, "%s = %s" % (name, show(q)))
            elif isinstance(q, dict):
                rep.bad("get", name, w, "%s() returns %s, documented %s" % (name, show(q), show(want_poly(spec))))
            else:
                rep.skip("get", w, "%s" % q)
