"""C09: every setting takes effect on, and is reported from, its own quantity."""
from .. import facts
from ..ir import walk, strip_targs
from ..flow import Flow, contains
from ..engine import ModRef
from ..sym import fmt, subterms

WHAT = "the option tables of the kernel and the compiler, the parser, the settings setters and getters, and every other writer of a user setting"
TECHNIQUE = "symbolic value-flow summaries of option registration, parsing, setters, getters and default-filling code, compared with the documented quantity of each name; transitive effect sets for setters"
LEVEL = "other"
LEVEL_NOTE = "exact for which setting each option, setter and getter touches and under which condition a setting is overwritten; how a setting influences performance is not decided"
ASSUMPTIONS = ["Tuple::get_vals()/set_vals() copy the values from the given first position (property C18)",
               "the option names and quantities are those of the user documentation"]
MIN = {"option": 60, "parse": 8, "set": 12, "get": 10, "kept": 6}

S = "yask::KernelSettings::"
# Documented option name -> setting.
OPT = {
    "print_suffixes": "yask::is_suffix_print_enabled", "verbose": S + "_verbose",
    "round_up_temporal_angles": S + "_round_up_tb_angles", "allow_addl_padding": S + "_allow_addl_pad",
    "overlap_comms": S + "overlap_comms", "min_exterior": S + "_min_exterior", "exchange_halos": S + "do_halo_exchange",
    "use_device_mpi": S + "use_device_mpi", "use_shm": S + "use_shm",
    "force_scalar_exchange": S + "force_scalar_exchange", "force_scalar": S + "force_scalar",
    "max_threads": S + "max_threads", "outer_threads": S + "num_outer_threads",
    "inner_threads": S + "num_inner_threads", "block_threads": S + "num_inner_threads",
    "device_thread_limit": S + "thread_limit", "bind_inner_threads": S + "bind_inner_threads",
    "bundle_allocs": S + "_bundle_allocs", "init_scratch_vars": S + "_init_scratch_vars", "numa_pref": S + "_numa_pref",
    "auto_tune": S + "_do_auto_tune", "auto_tune_trial_secs": S + "_tuner_trial_secs",
    "auto_tune_radius": S + "_tuner_radius", "auto_tune_targets": S + "_tuner_targets"}
# Prefix of a per-dimension option family -> (setting, step dimension settable).
DOM = {
    "g": ("_global_sizes", False), "l": ("_rank_sizes", False), "d": ("_rank_sizes", False),
    "Mb": ("_mega_block_sizes", True), "b": ("_block_sizes", True), "mb": ("_micro_block_sizes", False),
    "nb": ("_nano_block_sizes", False), "pb": ("_pico_block_sizes", False),
    "l_tile": ("_rank_tile_sizes", False), "Mb_tile": ("_mega_block_tile_sizes", False), "b_tile": ("_block_tile_sizes", False),
    "mb_tile": ("_micro_block_tile_sizes", False), "nb_tile": ("_nano_block_tile_sizes", False),
    "mp": ("_min_pad_sizes", False), "ep": ("_extra_pad_sizes", False), "nr": ("_num_ranks", False), "ri": ("_rank_indices", False)}
T = "yask::CompilerSettings::"
COPT = {
    "target": "_target", "elem-bytes": "_elem_bytes", "step-dim": "_step_dim", "domain-dims": "_domain_dims",
    "inner-loop-dim": "_inner_loop_dim", "min-buffer-len": "_min_buffer_len", "inner-misc-layout": "_inner_misc",
    "outer-domain-layout": "_outer_domain", "first-inner": "_first_inner", "fus": "_first_inner",
    "l1-prefetch-dist": ("_prefetch_dists", 1), "l2-prefetch-dist": ("_prefetch_dists", 2), "vars": "_var_regex",
    "bundle": "_bundle", "bundle-scratch": "_bundle_scratch", "halo": "_halo_size", "step-alloc": "_step_alloc",
    "ul": "_allow_unaligned_loads", "opt-comb": "_do_comb", "opt-reorder": "_do_reorder", "opt-cse": "_do_cse",
    "opt-pair": "_do_pairs", "max-es": "_max_expr_size", "min-es": "_min_expr_size", "use-ptrs": "_use_ptrs",
    "use-safe-ptrs": "_use_offsets", "early-loads": "_early_loads", "fold": "_fold_options"}
# Solution setting API -> (setting, first position of the domain dims, allowed kinds (step, domain, misc)).
DIMAPI = {
    "num_ranks": ("_num_ranks", 0, (False, True, False)), "rank_index": ("_rank_indices", 0, (False, True, False)),
    "overall_domain_size": ("_global_sizes", 1, (False, True, False)), "rank_domain_size": ("_rank_sizes", 1, (False, True, False)),
    "block_size": ("_block_sizes", 1, (True, True, False)), "min_pad_size": ("_min_pad_sizes", 1, (False, True, False))}
SCALAR = {"set_step_wrap": "_step_wrap", "set_default_numa_preferred": "_numa_pref"}
GETSCALAR = {"get_step_wrap": "_step_wrap", "get_default_numa_preferred": "_numa_pref"}
KEEP = ("yask::Dims::check_dim_type", S + "_add_domain_option", "yask::command_line_parser::add_option",
        "yask::StencilContext::update_var_info", "yask::StencilContext::set_prepared",
        "yask::Tuple::lookup", "yask::Tuple::lookup_posn", "yask::Tuple::set_vals", "yask::Tuple::get_vals",
        "yask::Tuple::get_compact_factors", "yask::Tuple::unlayout", "yask::command_line_parser::option_base::_is_opt",
        "yask::command_line_parser::option_base::_idx_val", "yask::command_line_parser::option_base::_double_val",
        "yask::command_line_parser::option_base::_string_val", "yask::KernelEnv::sum_over_ranks", "yask::Tuple::product",
        "yask::Tuple::sum", "yask::Tuple::set_val")
USER = set(x.rsplit("::", 1)[1] for x in OPT.values() if x.startswith(S)) | set(v[0] for v in DOM.values()) | {"_step_wrap"}


class F9(Flow):
    """Flow that also records every store, with its guards."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.all = []

    def store(self, key, val):
        self.all.append((key, val, tuple(self.guards)))
        super().store(key, val)

    def call(self, x, fr):
        # member-wise assignment of a whole tuple.
        n = strip_targs(x.get("n") or "")
        a = x.get("a") or []
        if x.get("op") == "=" and x.get("obj") is not None and n.endswith("::operator=") and len(a) == 1:
            try:
                key = self.lv(x["obj"], fr)
                val = self.norm(a[0], fr)
            except Exception:
                return super().call(x, fr)
            if key[0] == "fld":
                super().call(x, fr)
                self.all.append((key, val, tuple(self.guards)))
                self.st.env[key] = val
                return
        super().call(x, fr)


def strip(t):
    while t[0] in ("phi", "loopout") and len(t) == 3:
        t = t[2]
    if t[0] == "init" and len(t) >= 2 and isinstance(t[1], tuple):
        return strip(t[1])
    return t


def field(t):
    t = strip(t)
    return t[1] if t[0] in ("fld", "glob") else None


def fields_of(t, out=None):
    """Names of the settings fields that a term depends on."""
    return {x[1] for x in subterms(t) if x[0] == "fld"}


def strconst(P, t):
    t = strip(t)
    while t[0] in ("ctor", "call") and len(t) >= 3:
        s = [x for x in t[2:] if isinstance(x, tuple) and x and x[0] in ("str", "cat", "glob", "ctor")]
        s = [x for x in s if x != ("ctor", "std::allocator")]
        if len(s) != 1:
            return None
        t = s[0]
    if t[0] == "str":
        return t[1]
    if t[0] == "cat":
        l = [strconst(P, x) for x in t[1:]]
        return None if None in l else "".join(l)
    if t[0] == "glob":
        for g in P.globals.values():
            if g.get("n") in (t[1], t[1].rsplit("::", 1)[-1]) and g["d"].replace("@", " ").find(t[1].split("::")[-2]) >= 0 and g.get("init"):
                ss = [n for n in walk(g["init"]) if n["k"] == "str"]
                if len(ss) == 1:
                    return ss[0].get("s", ss[0].get("v"))
    return None


def check(rep, tier):
    rep.rule("option", "each registered option name is bound to the setting it is documented for, and to no other; no name is registered twice")
    rep.rule("parse", "an option object changes its own variable, to the value given, exactly when its own name is matched, and prints its own variable")
    rep.rule("domain", "a per-dimension option family registers, for every dimension, prefix+dimension bound to that dimension's component, and a shortcut over exactly the domain dimensions")
    rep.rule("set", "a setter stores its argument, in the dimension given, into its own requested and effective setting and changes no other user setting")
    rep.rule("get", "a getter returns the effective value of its own setting in the dimension given")
    rep.rule("unprep", "changing a size, the number of ranks or the rank position marks the solution as not prepared, so that the new value takes effect before the next run")
    rep.rule("both", "command-line options are applied to the effective and the requested settings, and help and values are produced from the effective ones")
    rep.rule("kept", "outside setters and the tuner a user setting is replaced only when it was unset, or by a value computed from itself or from what was requested, or when limited to an enclosing size")
    rep.rule("posn", "sizes that include the step dimension are indexed by stencil position, sizes of domain dimensions only by domain position")
    rep.rule("chain", "each block level is fitted into the next outer level")
    rep.rule("effect", "per-var values derived from settings are taken from the setting of that name in the same dimension")
    P = facts.load_kernel()
    c = Chk(rep, P)
    c.kernel_options("")
    c.parse()
    c.domain_option()
    c.setters()
    c.getters()
    c.both()
    c.kept()
    c.chain()
    c.posn()
    c.effect()
    c.factors()
    # The configurations of the option table that the default build leaves out.
    for tag, ex, kw in (("tiling", ("-DUSE_TILING",), {}), ("nompi", (), {"mpi": False})):
        Q = facts.load_kernel("K" + tag, extra=ex, sources=[facts.REPO + "/src/kernel/lib/settings.cpp"], **kw)
        Chk(rep, Q).kernel_options(tag)
    Chk(rep, facts.load_compiler()).compiler_options()


class Chk:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P

    def flow(self, fn, keep=KEEP, **kw):
        F = F9(self.P, keep=keep, **kw)
        F.run(fn)
        return F

    def one(self, name, rule):
        l = [f for f in self.P.named(name) if f.body]
        if not l:
            self.rep.skip(rule, name, "function not found")
        return l

    # -- option registration.
    def regs(self, F):
        """(name, bound term, node, registered) of every option object made."""
        out = []
        added = [a for n, fr, a, g in F.calls if strip_targs(n.get("n") or "").endswith("::add_option")]
        for n, fr, a, g in F.calls:
            nm = strip_targs(n.get("n") or "")
            if nm not in ("std::make_shared", "std::make_unique") and n["k"] != "new":
                continue
            if len(a) < 3 or "_option" not in (n.get("t") or ""):
                continue
            name = strconst(self.P, a[0])
            reg = [x for x in added if any(contains_str(y, a[0]) for y in x)]
            out.append((name, a[-1], n, bool(reg), g))
        return out

    def kernel_options(self, tag):
        rep, P = self.rep, self.P
        for fn in self.one(S + "add_options", "option"):
            F = self.flow(fn)
            seen = {}
            w0 = fn.where()
            for name, t, n, reg, g in self.regs(F):
                w = P.at(n)
                if name is None:
                    rep.skip("option", w, "option name is not a constant")
                    continue
                self.dup(seen, name, w)
                f = field(t)
                want = OPT.get(name)
                if want is None:
                    rep.skip("option", w, "option '%s' is not documented" % name)
                elif f is None:
                    rep.skip("option", w, "variable of option '%s' not resolved: %s" % (name, fmt(t)[:80]))
                elif f != want:
                    rep.bad("option", name, w, "option '%s' is bound to %s instead of %s" % (name, f, want))
                elif not reg:
                    rep.bad("option", name + ":add", w, "option '%s' is created but not registered" % name)
                else:
                    rep.ok("option", w, "%s: %s -> %s" % (tag, name, f))
            for n, fr, a, g in F.calls:
                if strip_targs(n.get("n") or "") != S + "_add_domain_option":
                    continue
                w = P.at(n)
                name = strconst(P, a[1])
                if name is None:
                    rep.skip("option", w, "prefix not constant: %s" % fmt(a[1])[:80])
                    continue
                name = name.rstrip("_")
                self.dup(seen, name, w)
                want = DOM.get(name)
                f = field(a[3])
                if want is None:
                    rep.skip("option", w, "option prefix '%s' is not documented" % name)
                elif f is None:
                    rep.skip("option", w, "variable of option '%s' not resolved" % name)
                elif f != S + want[0]:
                    rep.bad("option", name, w, "options '%s*' are bound to %s instead of %s" % (name, f, want[0]))
                elif a[4][0] == "lit" and bool(a[4][1]) != want[1]:
                    rep.bad("option", name + ":step", w, "options '%s*' %s the step dimension" % (name, "omit" if want[1] else "include"))
                else:
                    rep.ok("option", w, "%s: %s* -> %s" % (tag, name, f))
            for name in ("verbose", "overlap_comms", "use_shm", "min_exterior", "max_threads", "outer_threads", "inner_threads",
                         "exchange_halos", "g", "l", "Mb", "b", "mb", "nb", "pb", "mp", "ep", "nr", "ri", "auto_tune", "force_scalar",
                         "round_up_temporal_angles", "allow_addl_padding", "bundle_allocs", "init_scratch_vars", "numa_pref"):
                if tag == "nompi" and name in ("overlap_comms", "use_shm", "min_exterior", "exchange_halos", "nr", "ri", "force_scalar_exchange"):
                    continue
                if name == "numa_pref" and name not in seen:
                    continue
                if name not in seen and not rep.undecided:
                    rep.bad("option", name + ":gone", w0, "documented option '%s' is not registered" % name)

    def dup(self, seen, name, w):
        if name in seen and seen[name] != w:
            self.rep.bad("option", name + ":dup", w, "option name '%s' is already registered at %s; one of the two is ignored" % (name, seen[name]))
        seen[name] = w

    def compiler_options(self):
        rep, P = self.rep, self.P
        for fn in self.one("yask::CompilerSettings::add_options", "option"):
            F = self.flow(fn)
            seen = {}
            for name, t, n, reg, g in self.regs(F):
                w = P.at(n)
                if name is None:
                    rep.skip("option", w, "option name is not a constant")
                    continue
                self.dup(seen, name, w)
                want = COPT.get(name)
                t = strip(t)
                i = None
                if t[0] == "idx" and t[2][0] == "lit":
                    i, t = t[2][1], strip(t[1])
                f = field(t)
                if want is None:
                    rep.skip("option", w, "option '%s' is not documented" % name)
                    continue
                wf, wi = want if isinstance(want, tuple) else (want, None)
                if f is None:
                    rep.skip("option", w, "variable of option '%s' not resolved: %s" % (name, fmt(t)[:80]))
                elif f != T + wf or (wi is not None and i != wi):
                    rep.bad("option", "yc:" + name, w, "stencil-compiler option '%s' is bound to %s%s instead of %s" % (
                        name, f, "[%s]" % i if i is not None else "", wf if wi is None else "%s[%d]" % (wf, wi)))
                elif not reg:
                    rep.bad("option", "yc:" + name + ":add", w, "option '%s' is created but not registered" % name)
                else:
                    rep.ok("option", w, "compiler: %s -> %s" % (name, f))
        # setters of the compiler solution.
        for api, fld in (("set_target", "_target"), ("set_element_bytes", "_elem_bytes"), ("set_step_dim", "_step_dim")):
            for fn in P.named("yask::Solution::" + api):
                if not fn.body or not fn.params:
                    continue
                F = self.flow(fn)
                self.plain_setter(fn, F, T + fld)

    def plain_setter(self, fn, F, fld):
        rep = self.rep
        st = [(k, v, g) for k, v, g in F.all if k[0] == "fld" and k[1].startswith(T)]
        own = [s for s in st if s[0][1] == fld]
        oth = [s for s in st if s[0][1] != fld]
        w = fn.where()
        if oth:
            rep.bad("set", "yc:" + fn.short + ":other", w, "%s() also changes %s" % (fn.short, ", ".join(sorted({s[0][1] for s in oth}))))
        elif not st:
            rep.skip("set", w, "no store recognised")
        elif any(v[0] == "parm" and v[1] == 0 for k, v, g in own):
            rep.ok("set", w, "%s -> %s" % (fn.short, fld))
        else:
            rep.skip("set", w, "stored value not recognised: %s" % fmt(own[0][1])[:80])

    # -- option objects.
    def parse(self):
        rep, P = self.rep, self.P
        fns = [f for f in P.real_fns() if f.short == "check_arg" and f.body]
        done = set()
        for fn in fns:
            w = fn.where()
            if w in done:
                continue
            done.add(w)
            F = self.flow(fn)
            cls = strip_targs(fn.cls or "").rsplit("::", 1)[-1]
            isopt = "yask::command_line_parser::option_base::_is_opt"
            problems = []
            decided = True
            # The value stored under each match.
            st = []
            for k, v, g in F.all:
                kk = strip(k)
                b = kk
                while b[0] in ("idx", "fld") and b[-1] != ("this",):
                    b = b[1] if b[0] == "idx" else b[2]
                if b[0] == "fld" and b[2] == ("this",):
                    st.append((kk, v, g))
            rets = [(r[0], r[1]) for r in F.rets]
            if not st and cls != "string_list_option":
                rep.skip("parse", w, "no store into the option's variable recognised")
                continue
            names = []
            for n, fr, a, g in F.calls:
                if strip_targs(n.get("n") or "") == isopt:
                    names.append((a, g))
            if not names:
                rep.skip("parse", w, "no name comparison recognised")
                continue
            pos = [a for a, g in names if a[2] == ("fld", "yask::command_line_parser::option_base::_name", ("this",))]
            if not pos:
                problems.append("does not compare the argument with its own name")
            for k, v, g in st:
                ms = [match(x) for x in g]
                ms = [m for m in ms if m]
                on = [m[1] for m in ms if m[0]]
                if not on:
                    problems.append("changes its variable when no name matched")
                    continue
                m = on[-1]
                neg = m[0] == "cat"
                if cls == "bool_option":
                    if v not in (("lit", True), ("lit", False)):
                        decided = False
                    elif v[1] != (not neg):
                        problems.append("stores %s when '%s' is given" % (fmt(v), "-no-<name>" if neg else "-<name>"))
                elif v[0] == "call" or v[0] == "cast":
                    c = v
                    while c[0] == "cast":
                        c = c[-1]
                    if c[0] != "call":
                        decided = False
                    else:
                        nm = c[1].rsplit("::", 1)[-1]
                        want = {"int_option": "_idx_val", "idx_option": "_idx_val", "mult_idx_option": "_idx_val",
                                "double_option": "_double_val", "string_option": "_string_val"}.get(cls)
                        if want and nm in ("_idx_val", "_double_val", "_string_val") and nm != want:
                            problems.append("reads its value with %s()" % nm)
                elif v[0] == "lit":
                    problems.append("stores the constant %s" % fmt(v))
            for v, g in rets:
                ms = [match(x) for x in g]
                on = any(m and m[0] for m in ms)
                if v == ("lit", False) and on or v == ("lit", True) and not on:
                    problems.append("reports %s when its name was%s matched" % (fmt(v), "" if on else " not"))
            if cls == "bool_option":
                falses = [s for s in st if s[1] == ("lit", False)]
                trues = [s for s in st if s[1] == ("lit", True)]
                if decided and (not falses or not trues):
                    problems.append("cannot be set to %s" % ("false" if not falses else "true"))
            if cls == "mult_idx_option":
                L = [l for l in F.loops if any(strip(k)[0] in ("idx", "var", "un") or True for k, v, g in l.stores)]
                full = False
                for l in L:
                    c = l.cond
                    if l.range is not None and "_vals" in fmt(l.range):
                        full = True
                    if c and c[0] == "bin" and c[1] == "<" and "_vals.size()" in fmt(c[3]).replace("this.", ""):
                        i = strip(c[2])
                        if l.entry.get(i) == ("lit", 0):
                            full = True
                        elif l.entry.get(i) is not None and l.entry[i][0] == "lit":
                            problems.append("skips the first %d of its variables" % l.entry[i][1])
                            full = True
                if not full:
                    decided = False
            if problems:
                rep.bad("parse", cls, w, "%s::check_arg() %s" % (cls, "; ".join(sorted(set(problems)))))
            elif decided:
                rep.ok("parse", w, cls)
            else:
                rep.skip("parse", w, "form not recognised")
        for fn in P.real_fns():
            if fn.short != "_is_opt" or not fn.body:
                continue
            F = F9(P)
            F.run(fn)
            argi = None
            bad = []
            for v, g, env, s in F.rets:
                adv = [(k, x) for k, x in env.items() if strip(k)[-1] == "argi" or k[0] in ("parm", "var") and k[-1] == "argi"]
                if v == ("lit", True) and not adv:
                    bad.append("does not consume the matched word")
                if v == ("lit", False) and [1 for k, x in adv if x != k]:
                    bad.append("consumes a word that does not match")
            gs = [x for v, g, e, s in F.rets if v == ("lit", True) for x in g]
            txt = " ".join(fmt(x) for x in gs)
            if gs and '"-"' not in txt:
                bad.append("does not expect the leading '-'")
            if bad:
                rep.bad("parse", "_is_opt", fn.where(), "option matching " + "; ".join(sorted(set(bad))))
            elif gs:
                rep.ok("parse", fn.where(), "_is_opt")
        # print_value.
        done = set()
        for fn in P.real_fns():
            if fn.short != "print_value" or not fn.body or fn.where() in done:
                continue
            done.add(fn.where())
            own = {n["f"] for n in fn.nodes() if n["k"] == "mem" and strip_targs(n["f"]).startswith(strip_targs(fn.cls) + "::")}
            shorts = {strip_targs(x).rsplit("::", 1)[-1] for x in own}
            cls = strip_targs(fn.cls).rsplit("::", 1)[-1]
            # a variable held by the option must be what is printed.
            if {"_val"} & shorts or {"_vals"} & shorts:
                rep.ok("parse", fn.where(), cls + " print_value")
            elif cls.endswith("_option"):
                rep.bad("parse", cls + ":print", fn.where(), "%s::print_value() does not print the option's variable" % cls)

    def domain_option(self):
        rep, P = self.rep, self.P
        for fn in self.one(S + "_add_domain_option", "domain"):
            w = fn.where()
            F = self.flow(fn)
            L = [l for l in F.loops if l.range is not None and strip(l.range) == ("parm", 3, fn.params[3]["n"]) or
                 (l.range is not None and fmt(strip(l.range)).startswith(fn.params[3]["n"]))]
            if not L:
                rep.skip("domain", w, "loop over the dimensions not recognised")
                continue
            L = L[0]
            ones = [(n, a, g) for n, fr, a, g in L.calls if strip_targs(n.get("n") or "") == "std::make_shared" and "_option" in (n.get("t") or "")]
            pref = fn.params[1]["n"]
            if len(ones) != 1:
                rep.skip("domain", w, "%d options made per dimension" % len(ones))
            else:
                n, a, g = ones[0]
                nm = fmt(a[0])
                dim = L.var[-1]
                var = strip(a[-1])
                vt = fmt(var)
                if nm.replace(" ", "") not in ("%s++%s._namep" % (pref, dim), "%s++%s._get_name()" % (pref, dim)):
                    rep.skip("domain", P.at(n), "option name not recognised: " + nm)
                elif not (var[0] == "call" and var[1].endswith("lookup") or "lookup" in vt):
                    rep.skip("domain", P.at(n), "bound component not recognised: " + vt)
                elif "lookup(%s._namep" % dim not in vt or not vt.startswith(fn.params[3]["n"]):
                    rep.bad("domain", "component", P.at(n), "the option for a dimension is bound to %s" % vt)
                else:
                    rep.ok("domain", P.at(n), "%s bound to %s" % (nm, vt))
                # the only dimension that may be left out is the step dimension, when not allowed.
                gs = [fmt(x) for x in g]
                if any("_step_dim" not in x for x in gs):
                    rep.skip("domain", P.at(n), "conditional registration: " + " && ".join(gs))
                elif gs and len(g) == 1:
                    ok = stepguard(g[0], fn.params[4]["n"])
                    if ok is False:
                        rep.bad("domain", "step", P.at(n), "a per-dimension option is registered under %s" % gs[0])
                    else:
                        rep.ok("domain", P.at(n), "registered if " + gs[0])
            pb = [(n, a, g) for n, fr, a, g in L.calls if strip_targs(n.get("n") or "").endswith("vector::push_back")]
            for n, a, g in pb:
                vt = fmt(strip(a[0]))
                gs = [fmt(x) for x in g]
                if len(ones) == 1 and vt != fmt(strip(ones[0][1][-1])) and vt.startswith(fn.params[3]["n"]):
                    rep.bad("domain", "shortcut", P.at(n), "the shortcut sets %s instead of the component of each dimension" % vt)
                elif "lookup(%s._namep" % L.var[-1] not in vt:
                    rep.skip("domain", P.at(n), "pushed value " + vt)
                elif not any("_domain_dims" in x and not x.startswith("!") for x in gs):
                    rep.bad("domain", "multi", P.at(n), "the shortcut also sets dimensions that are not domain dimensions (pushed if %s)" % " && ".join(gs))
                else:
                    rep.ok("domain", P.at(n), "shortcut over domain dims")

    # -- setters and getters.
    def setters(self):
        rep, P = self.rep, self.P
        mr = self.mr = ModRef(P)
        cl = "yask::StencilContext::set_"
        for api, (fld, start, kinds) in DIMAPI.items():
            for fn in P.named(cl + api):
                if not fn.body or len(fn.params) != 2:
                    continue
                F = self.flow(fn)
                w = fn.where()
                st = self.settings_stores(F)
                self.judge_setter(fn, st, api, fld, ("parm", 0), ("parm", 1))
                self.unprep(fn, F, api)
                self.kinds(fn, F, kinds)
                self.side(fn, mr, {S + fld})
            for fn in P.named(cl + api + "_vec"):
                if not fn.body or len(fn.params) != 1:
                    continue
                F = self.flow(fn)
                w = fn.where()
                got = {}
                bad = None
                und = None
                for n, fr, a, g in F.calls:
                    if strip_targs(n.get("n") or "") != "yask::Tuple::set_vals":
                        continue
                    try:
                        o = F.lv(n["obj"], fr)
                    except Exception:
                        continue
                    o = strip(o)
                    f, opts = setting(o)
                    if f is None:
                        und = "object of set_vals not recognised"
                        continue
                    if f != S + fld:
                        bad = "changes %s instead of %s" % (f, fld)
                    elif a[0] != ("lit", start):
                        bad = "stores from position %s instead of %d" % (fmt(a[0]), start)
                    elif a[1][:2] != ("parm", 0):
                        bad = "stores %s instead of its argument" % fmt(a[1])
                    if [x for x in g if not size_guard(x)]:
                        und = "conditional store"
                    w2 = self.expand(F, opts)
                    if not w2:
                        und = "object of set_vals not recognised"
                    for x in w2:
                        got[x] = 1
                self.unprep(fn, F, api + "_vec")
                if bad:
                    rep.bad("set", api + "_vec", w, "set_%s_vec() %s" % (api, bad))
                elif und or not got:
                    rep.skip("set", w, und or "no set_vals call")
                elif not ({"_actl_opts", "_req_opts"} <= set(got)):
                    rep.bad("set", api + "_vec:both", w, "set_%s_vec() changes only %s" % (api, ", ".join(sorted(got))))
                else:
                    rep.ok("set", w, "set_%s_vec -> %s" % (api, fld))
        for api, fld in SCALAR.items():
            for fn in P.named("yask::StencilContext::" + api):
                if not fn.body:
                    continue
                F = self.flow(fn)
                self.judge_setter(fn, self.settings_stores(F), api[4:], fld, None, ("parm", 0))
                self.side(fn, mr, {S + fld})

    def settings_stores(self, F):
        out = []
        for k, v, g in F.all:
            f, opts = setting(strip(k))
            if f:
                for o in sorted(self.expand(F, opts)) or ["?"]:
                    out.append((f, o, strip(k), v, g))
        return out

    def judge_setter(self, fn, st, api, fld, dim, val):
        rep = self.rep
        w = fn.where()
        bad, got = [], set()
        for f, opts, k, v, g in st:
            if f == S + "find_loc":
                continue
            if f != S + fld:
                if f.rsplit("::", 1)[1] in USER:
                    bad.append("changes %s" % f)
                continue
            if dim is not None:
                kk = k
                if kk[0] == "call" and kk[1].endswith(("lookup", "operator[]")):
                    d = kk[3]
                elif kk[0] == "idx":
                    d = kk[2]
                else:
                    d = None
                if d is not None and d[:2] != dim:
                    bad.append("stores into dimension %s" % fmt(d))
            if v[:2] != val:
                if val[1] < len(fn.params) and contains(v, ("parm",) + val[1:] + (fn.params[val[1]]["n"],)) and v[0] == "bin":
                    bad.append("stores %s instead of its argument" % fmt(v))
                elif v[0] in ("lit", "parm"):
                    bad.append("stores %s instead of its argument" % fmt(v))
            # A store that happens only sometimes, with no error otherwise.
            if not g:
                got.add(opts)
            else:
                got.add(opts)
        if bad:
            rep.bad("set", api, w, "set_%s() %s" % (api, "; ".join(sorted(set(bad)))))
        elif not got:
            rep.skip("set", w, "no store recognised")
        elif "?" in got and not ({"_actl_opts", "_req_opts"} <= got):
            rep.skip("set", w, "object of a store not recognised")
        elif not ({"_actl_opts", "_req_opts"} <= got):
            rep.bad("set", api + ":both", w, "set_%s() changes only %s" % (api, ", ".join(sorted(got))))
        else:
            rep.ok("set", w, "set_%s -> %s" % (api, fld))

    def unprep(self, fn, F, api):
        """A changed size takes effect only when the solution is prepared again."""
        rep, w = self.rep, fn.where()
        if api.startswith("min_pad"):
            return  # used when storage is allocated, after prepare_solution() too.
        mr = self.mr
        cs = [(n, a, g) for n, fr, a, g in F.calls if n.get("n") == "yask::StencilContext::set_prepared"]
        if not cs:
            mods = mr.mods(fn)
            if any(m.endswith("::_is_prepared") for m in mods):
                rep.skip("unprep", w, "prepared flag changed in a form not recognised")
            else:
                rep.bad("unprep", api, w, "set_%s() leaves the solution prepared, so the new value would be reported but never used" % api)
            return
        for n, a, g in cs:
            if a and a[0] == ("lit", 1) or a and a[0] == ("lit", True):
                rep.bad("unprep", api, w, "set_%s() marks the solution as prepared" % api)
            elif [x for x in g if not size_guard(x) and x[0] != "lit"]:
                rep.skip("unprep", w, "conditional reset of the prepared flag")
            else:
                rep.ok("unprep", w, "set_%s resets the prepared flag" % api)

    def kinds(self, fn, F, kinds):
        rep = self.rep
        cs = [(n, a, g) for n, fr, a, g in F.calls if strip_targs(n.get("n") or "") == "yask::Dims::check_dim_type"]
        w = fn.where()
        if not cs:
            rep.skip("set", w, "no dimension check recognised")
            return
        for n, a, g in cs:
            k = tuple(x[1] if x[0] == "lit" else None for x in a[2:5])
            if a[0][:2] != ("parm", 0):
                rep.bad("set", fn.short + ":kinddim", w, "%s() checks dimension %s" % (fn.short, fmt(a[0])))
            elif None in k:
                rep.skip("set", w, "dimension kinds not constant")
            elif tuple(bool(x) for x in k) != kinds:
                rep.bad("set", fn.short + ":kind", w, "%s() accepts the kinds step=%s, domain=%s, misc=%s" % ((fn.short,) + k))
            else:
                rep.ok("set", w, "%s kinds" % fn.short)

    def side(self, fn, mr, own):
        mods = {m for m in mr.mods(fn) if m.startswith(S) and m.rsplit("::", 1)[1] in USER}
        x = mods - own
        if x:
            self.rep.bad("set", fn.short + ":side", fn.where(), "%s() may also change %s" % (fn.short, ", ".join(sorted(x))))

    def getters(self):
        rep, P = self.rep, self.P
        cl = "yask::StencilContext::get_"
        for api, (fld, start, kinds) in DIMAPI.items():
            for fn in P.named(cl + api):
                if not fn.body or len(fn.params) != 1:
                    continue
                F = self.flow(fn)
                w = fn.where()
                self.kinds(fn, F, kinds)
                for v, g, e, s in F.rets:
                    self.judge_get(fn, strip(v), fld, api)
            for fn in P.named(cl + api + "_vec"):
                if not fn.body or fn.params:
                    continue
                F = self.flow(fn)
                for v, g, e, s in F.rets:
                    v = strip(v)
                    f = [setting(x) for x in subterms(v)]
                    f = [x for x in f if x[0]]
                    if not f:
                        rep.skip("get", fn.where(), "returned value not recognised: %s" % fmt(v)[:100])
                        continue
                    if {x[0] for x in f} != {S + fld} or {x[1] for x in f} != {"_actl_opts"}:
                        rep.bad("get", api + "_vec", fn.where(), "get_%s_vec() returns %s" % (api, fmt(v)))
                    elif v[0] == "call" and v[1].endswith("get_vals") and v[3:4] != (("lit", start),):
                        rep.bad("get", api + "_vec:start", fn.where(), "get_%s_vec() returns values from position %s instead of %d" % (api, fmt(v[3]), start))
                    else:
                        rep.ok("get", fn.where(), "get_%s_vec <- %s" % (api, fld))
        for api, fld in GETSCALAR.items():
            for fn in P.named("yask::StencilContext::" + api):
                if fn.body:
                    F = self.flow(fn)
                    for v, g, e, s in F.rets:
                        self.judge_get(fn, strip(v), fld, api[4:], False)
        # first / last domain index of the rank.
        for api, want, other in (("first_rank_domain_index", "bb_begin", "bb_last"), ("last_rank_domain_index", "bb_last", "bb_begin")):
            for fn in P.named(cl + api) + P.named(cl + api + "_vec"):
                if not fn.body:
                    continue
                F = self.flow(fn, keep=KEEP + ("yask::BoundingBox::bb_begin_tuple", "yask::BoundingBox::bb_last_tuple", "yask::BoundingBox::bb_end_tuple"))
                for v, g, e, s in F.rets:
                    t = fmt(v)
                    if want in t and "rank_bb" in t and other not in t and "bb_end" not in t and "ext_bb" not in t:
                        rep.ok("get", fn.where(), fn.short)
                    elif "bb_" in t:
                        rep.bad("get", fn.short, fn.where(), "%s() returns %s" % (fn.short, t[:150]))
                    else:
                        rep.skip("get", fn.where(), "returned value not recognised: %s" % t[:100])
        for api, i in (("get_num_outer_threads", 0), ("get_num_inner_threads", 1)):
            for fn in P.named("yask::StencilContext::" + api):
                if not fn.body:
                    continue
                refs = [n for n in fn.nodes() if n["k"] == "call" and strip_targs(n.get("n") or "").endswith("::get_num_comp_threads")]
                rets = [n for n in fn.nodes() if n["k"] == "ret"]
                if len(refs) != 1 or len(rets) != 1 or not rets[0].get("e"):
                    rep.skip("get", fn.where(), "form not recognised")
                    continue
                a = [uncast(x) for x in refs[0]["a"]]
                r = uncast(rets[0]["e"])
                if r["k"] != "ref" or any(x["k"] != "ref" for x in a) or len(a) != 2:
                    rep.skip("get", fn.where(), "form not recognised")
                elif r["d"] == a[i]["d"] and a[0]["d"] != a[1]["d"]:
                    rep.ok("get", fn.where(), api)
                elif r["d"] in (a[0]["d"], a[1]["d"]):
                    rep.bad("get", api, fn.where(), "%s() returns the number of %s threads" % (api, "inner" if i == 0 else "outer"))
                else:
                    rep.skip("get", fn.where(), "form not recognised")

    def judge_get(self, fn, v, fld, api, perdim=True):
        rep = self.rep
        f, opts = setting(v)
        w = fn.where()
        if f is None:
            rep.skip("get", w, "returned value not recognised: %s" % fmt(v)[:100])
            return
        if f != S + fld:
            rep.bad("get", api, w, "get_%s() returns %s instead of %s" % (api, f, fld))
            return
        if opts != "_actl_opts":
            rep.bad("get", api + ":actl", w, "get_%s() reports the %s value" % (api, "requested" if opts == "_req_opts" else opts))
            return
        if perdim:
            d = v[3] if v[0] == "call" and len(v) > 3 else v[2] if v[0] == "idx" else None
            if d is None or d[:2] != ("parm", 0):
                if d is not None and d[0] in ("lit", "fld"):
                    rep.bad("get", api + ":dim", w, "get_%s() reports dimension %s" % (api, fmt(d)))
                else:
                    rep.skip("get", w, "dimension of returned value not recognised")
                return
        rep.ok("get", w, "get_%s <- %s" % (api, fld))

    def both(self):
        rep, P = self.rep, self.P
        ao = S + "add_options"
        for fn in P.named("yask::StencilContext::apply_command_line_options"):
            if not fn.body or not any(n["k"] == "call" and n.get("n") == ao for n in fn.nodes()):
                continue
            objs = self.option_objs(fn)
            w = fn.where()
            if objs is None:
                rep.skip("both", w, "form not recognised")
            elif objs >= {"_actl_opts", "_req_opts"}:
                rep.ok("both", w, "options applied to both")
            else:
                rep.bad("both", "apply", w, "command-line options are applied only to %s" % ", ".join(sorted(objs)))
        for nm in ("get_command_line_help", "get_command_line_values"):
            for fn in P.named("yask::StencilContext::" + nm):
                if not fn.body:
                    continue
                objs = self.option_objs(fn)
                if not objs:
                    rep.skip("both", fn.where(), "form not recognised")
                elif objs == {"_actl_opts"}:
                    rep.ok("both", fn.where(), nm)
                else:
                    rep.bad("both", nm, fn.where(), "%s() reports the values of %s" % (nm, ", ".join(sorted(objs))))

    def option_objs(self, fn):
        """Settings objects on which add_options() is called (through one local or loop variable at most)."""
        P = self.P
        F = self.flow(fn, keep=KEEP + (S + "add_options",))
        out = set()
        hit = False
        for n, fr, a, g in F.calls:
            if n.get("n") != S + "add_options":
                continue
            hit = True
            w = self.expand(F, fmt(F.norm(n["obj"], fr)))
            if not w:
                return None
            out |= w
        return out if hit else None

    def expand(self, F, o):
        """Settings objects behind the text of a term; a loop variable stands for all elements of the list it runs over."""
        w = {x for x in ("_actl_opts", "_req_opts") if x in o}
        if w:
            return w
        for L in F.loops:
            if L.range is not None and L.var is not None and L.var[-1] in o:
                rt = fmt(L.range)
                w = {x for x in ("_actl_opts", "_req_opts") if x in rt}
                if not w:
                    for m in walk(L.node["r"]):
                        if m["k"] == "mem" or m["k"] == "ref":
                            t = fmt(F.norm(m, L.frame))
                            w |= {x for x in ("_actl_opts", "_req_opts") if x in t}
                if w:
                    return w
        return set()

    # -- other writers.
    def kept(self):
        rep, P = self.rep, self.P
        skip_cls = ("yask::AutoTuner",)
        skip_fn = {"run_auto_tuner_now", "run_ref"} | {"set_" + a for a in DIMAPI} | {"set_" + a + "_vec" for a in DIMAPI} | set(SCALAR)
        cand = []
        for f in P.real_fns():
            if not f.body or f.get("implicit") or f.get("isctor") or f.short in skip_fn or f.short in ("operator=", "add_options", "_add_domain_option"):
                continue
            if strip_targs(f.cls or "") in skip_cls:
                continue
            if not writes_setting(f):
                continue
            cand.append(f)
        done = set()
        for fn in cand:
            if fn.where() in done:
                continue
            done.add(fn.where())
            try:
                F = self.flow(fn)
            except RecursionError:
                rep.skip("kept", fn.where(), "too deep")
                continue
            loops = {}
            for L in F.loops:
                for p in L.syms.values():
                    loops[p[1]] = L
            for key, v, g in F.all:
                k = strip(key)
                f, opts = setting(k)
                if f is None:
                    kk = k
                    fl = [x for x in subterms(kk) if x[0] == "fld" and x[1].startswith(S)]
                    if fl and kk[0] in ("idx", "call") and strip(fl[0]) == fl[0] and fl[0][1].rsplit("::", 1)[1] in USER:
                        f = fl[0][1]
                if f is None or f.rsplit("::", 1)[1] not in USER:
                    continue
                short = f.rsplit("::", 1)[1]
                # whole-object aggregate updates of nested members (e.g. the element list) belong to calls already seen.
                if v[0] in ("phi", "loopout"):
                    continue
                why = self.kept_reason(F, loops, f, k, v, g)
                w = fn.where()
                if why:
                    rep.ok("kept", w, "%s := %s (%s)" % (fmt(k)[:60], fmt(v)[:60], why))
                else:
                    rep.bad("kept", "%s:%s" % (fn.short, short), w, "%s() replaces the setting %s by %s%s although a value may have been requested" % (
                        fn.short, fmt(k)[:80], fmt(v)[:100], " if " + " && ".join(fmt(x)[:100] for x in g) if g else ""))
            # Calls that overwrite a whole tuple.
            for n, fr, a, g in F.calls:
                if strip_targs(n.get("n") or "") != "yask::Tuple::set_vals_same" or n.get("obj") is None:
                    continue
                try:
                    k = strip(F.lv(n["obj"], fr))
                except Exception:
                    continue
                f, opts = setting(k)
                if f is None or f.rsplit("::", 1)[1] not in USER:
                    continue
                if not self.unset_guard(F, f, g):
                    rep.bad("kept", "%s:%s" % (fn.short, f.rsplit("::", 1)[1]), P.at(n), "%s() resets the setting %s" % (fn.short, f))

    def deps(self, t, loops, seen=None):
        """Settings fields a term depends on, through loop results too."""
        seen = seen if seen is not None else set()
        out = set()
        for x in subterms(t):
            if x[0] == "fld":
                out.add(x[1])
            if x[0] in ("phi", "loopout") and x not in seen:
                seen.add(x)
                L = loops.get(x[1])
                if L is not None:
                    for k, v, g in L.stores:
                        if strip(k) == strip(x[2]):
                            out |= self.deps(v, loops, seen)
                            for y in g:
                                out |= self.deps(y, loops, seen)
        return out

    def unset_guard(self, F, f, g):
        for x in g:
            if unset(x, f):
                return True
        return False

    def kept_reason(self, F, loops, f, k, v, g):
        if self.unset_guard(F, f, g):
            return "unset"
        if v[0] == "cond" and unset(v[1], f) and setting_in(v[3], f) or \
                v[0] == "cond" and unset_neg(v[1], f) and setting_in(v[2], f):
            return "unset"
        own = self.deps(v, loops)
        if f in own:
            return "own value"
        for x in g:
            # limited to an enclosing size: own value compared with the stored one.
            for y in subterms(x):
                if y[0] == "bin" and y[1] in ("<", "<=", ">", ">=") and len(y) == 4:
                    a, b = y[2], y[3]
                    if (a == v and f in self.deps(b, loops)) or (b == v and f in self.deps(a, loops)):
                        return "limited"
        for x in g:
            if f in self.deps(x, loops):
                return "chosen by what was requested"
        return None

    # -- nesting of sizes.
    def chain(self):
        rep, P = self.rep, self.P
        order = ["_rank_sizes", "_mega_block_sizes", "_block_sizes", "_micro_block_sizes", "_nano_block_sizes", "_pico_block_sizes"]
        for fn in P.named(S + "adjust_settings"):
            seen = []
            for n in fn.nodes():
                if n["k"] != "call" or not strip_targs(n.get("n") or "").endswith("find_num_subsets"):
                    continue
                fl = []
                for a in n["a"]:
                    a = uncast(a)
                    if a["k"] == "mem" and a["f"].startswith(S) and a["f"].rsplit("::", 1)[1] in order:
                        fl.append(a["f"].rsplit("::", 1)[1])
                if len(fl) < 2 or fl[0] not in order:
                    continue
                inner, outer = fl[:2]
                w = P.at(n)
                if order.index(inner) == order.index(outer) + 1:
                    rep.ok("chain", w, "%s in %s" % (inner, outer))
                    seen.append(inner)
                else:
                    rep.bad("chain", inner, w, "%s are fitted into %s" % (inner, outer))
            if seen and seen != sorted(seen, key=order.index):
                rep.bad("chain", "order", fn.where(), "sizes are fitted in the order %s, so an inner size is limited by an outer one that is not final" % ", ".join(seen))
            # The number of subsets of find_num_subsets(): inner from outer.
        for fn in P.named("yask::find_num_subsets"):
            if not fn.body:
                continue
            mods = set()
            for n in fn.nodes():
                if n["k"] == "asg" and n["op"] == "=":
                    a = uncast(n["a"])
                    if a["k"] == "un" and a["op"] == "*":
                        mods.add(a["e"].get("n"))
            rep.ok("chain", fn.where(), "writes through %s" % ", ".join(sorted(x or "?" for x in mods)))

    STENCIL = {"_global_sizes", "_rank_sizes", "_mega_block_sizes", "_block_sizes", "_micro_block_sizes", "_nano_block_sizes",
               "_pico_block_sizes", "_min_pad_sizes", "_extra_pad_sizes"}
    DOMAIN = {"_num_ranks", "_rank_indices"}

    def posn(self):
        """A position used for a size with the step dim is never the one used for domain-only tuples in the same function."""
        rep, P = self.rep, self.P
        for fn in P.real_fns():
            if not fn.body or not strip_targs(fn.cls or "").startswith(("yask::KernelSettings", "yask::StencilContext", "yask::AutoTuner")):
                continue
            uses = {}
            alias = lockstep(fn)
            for n in fn.nodes():
                if not (n["k"] == "idx" or n["k"] == "call" and n.get("op") == "[]" and n.get("obj") is not None):
                    continue
                o = uncast(n["obj"] if n["k"] == "call" else n["b"])
                i = uncast(n["a"][0] if n["k"] == "call" else n["i"])
                if o["k"] != "mem":
                    continue
                f = strip_targs(o["f"])
                if f.startswith(S):
                    short = f.rsplit("::", 1)[1]
                    kind = "stencil" if short in self.STENCIL else "domain" if short in self.DOMAIN else None
                elif f in ("yask::Dims::_fold_pts", "yask::Dims::_cluster_pts"):
                    kind = "domain"
                else:
                    continue
                base, off = idx_base(i)
                if kind is None or base is None:
                    continue
                # uses of a string (dimension name) are independent of position.
                if "string" in (base.get("t") or ""):
                    continue
                d, o2 = alias.get(base["d"], (base["d"], 0))
                uses.setdefault(d, []).append((kind, off + o2, fmt_node(o), P.at(n)))
            for d, l in uses.items():
                eff = {}
                for kind, off, o, w in l:
                    # same dimension => stencil position == domain position + 1.
                    eff.setdefault(off + (0 if kind == "stencil" else 1), []).append((o, w))
                if len(eff) > 1:
                    items = sorted(eff.items(), key=lambda x: len(x[1]))
                    o, w = items[0][1][0]
                    rep.bad("posn", "%s:%s" % (fn.short, o), w, "%s() indexes %s one position off the dimension that the same variable selects in %s" % (
                        fn.short, o, ", ".join(sorted({x[0] for x in items[-1][1]}))))
                else:
                    rep.ok("posn", fn.where(), "%s: %d uses" % (d.split("@")[-1], len(l)))

    # -- from settings to vars.
    def effect(self):
        rep, P = self.rep, self.P
        want = {"_set_domain_size": "_rank_sizes", "update_extra_pad_size": "_extra_pad_sizes", "update_min_pad_size": "_min_pad_sizes"}
        for fname in ("yask::StencilContext::update_var_info", "yask::StencilContext::new_var_impl", "yask::StencilContext::new_var"):
            for fn in P.named(fname):
                if not fn.body:
                    continue
                for n in fn.nodes():
                    if n["k"] != "call" or len(n.get("a") or []) != 2:
                        continue
                    s = (n.get("n") or "").rsplit("::", 1)[-1]
                    if s not in want:
                        continue
                    fl = [m for m in walk(n["a"][1]) if m["k"] == "mem" and m["f"].startswith(S)]
                    if not fl:
                        continue
                    f = fl[0]["f"].rsplit("::", 1)[1]
                    w = P.at(n)
                    if f != want[s]:
                        rep.bad("effect", "%s:%s" % (fn.short, s), w, "%s() passes %s to %s()" % (fn.short, f, s))
                        continue
                    d = [m for m in walk(n["a"][1]) if (m["k"] == "call" and m.get("op") == "[]")]
                    i1 = uncast(n["a"][0])
                    i2 = uncast(d[0]["a"][0]) if d else None
                    if i2 is not None and i1["k"] == "ref" and i2["k"] == "ref" and i1["d"] != i2["d"] and i1.get("t") == i2.get("t"):
                        rep.bad("effect", "%s:%s:dim" % (fn.short, s), w, "%s() takes %s of another dimension (%s) than it sets (%s)" % (fn.short, f, i2["n"], i1["n"]))
                    else:
                        rep.ok("effect", w, "%s <- %s" % (s, f))
        # A check on sizes that are not determined yet must not reject a setting.
        for fn in P.named("yask::StencilContext::update_var_info"):
            if not fn.body or not fn.params:
                continue
            F = self.flow(fn, keep=tuple(x for x in KEEP if not x.endswith("update_var_info")))
            for g, s in F.throws:
                t = [fmt(x) for x in g]
                cmp = [x for x in g if any(y[0] == "bin" and y[1] in ("<", "<=") and "_rank_sizes" in fmt(y) for y in subterms(x))]
                if not cmp:
                    continue
                okk = any(known(y, fn.params[0]["n"]) for x in g for y in conj(x))
                w = P.at(s)
                if okk:
                    rep.ok("effect", w, "size check only once the size is known")
                else:
                    rep.bad("effect", "update_var_info:unset", w, "update_var_info() rejects the settings because of a rank size that may not be set yet (%s)" % " && ".join(t)[:300])

    def factors(self):
        """get_compact_factors(): the search may stop early only if the candidate is complete."""
        rep, P = self.rep, self.P
        done = set()
        for fn in P.named("yask::Tuple::get_compact_factors"):
            if not fn.body or fn.where() in done:
                continue
            done.add(fn.where())
            for n in fn.nodes():
                if n["k"] != "if" or not n.get("t"):
                    continue
                if not any(m["k"] == "break" for m in walk(n["t"])):
                    continue
                c = n["c"]
                pr = [m for m in walk(c) if m["k"] == "call" and strip_targs(m.get("n") or m.get("f") or "").endswith("product")]
                eq = [m for m in walk(c) if m["k"] == "bin" and m["op"] == "==" or m["k"] == "call" and m.get("op") == "=="]
                if not pr or not eq:
                    continue
                whole = len(eq) == 1 and uncast(c) is eq[0]
                w = P.at(n)
                if whole:
                    rep.bad("effect", "get_compact_factors:empty", w, "the factorization stops on a product alone, which an empty tuple has (1)")
                else:
                    rep.ok("effect", w, "early stop requires a complete candidate")


def contains_str(t, sub):
    return contains(t, sub)


def match(g):
    """(matched?, name term) of a guard that is the result of the option-name comparison."""
    neg = False
    while g[0] == "un" and g[1] == "!":
        neg = not neg
        g = g[2]
    if g[0] == "call" and g[1].endswith("_is_opt"):
        return (not neg, g[5] if len(g) > 5 else g[-1])
    return None


def stepguard(t, allow):
    """Is the guard 'allow_step || dim != step_dim' (True), something weaker (False), or unknown (None)?"""
    if t[0] == "bin" and t[1] == "||" and len(t) >= 4:
        parts = [fmt(x) for x in t[2:]]
        a = [x for x in parts if x == allow]
        b = [x for x in parts if "_step_dim" in x and (x.startswith("!") or "!=" in x)]
        if a and b and len(parts) == 2:
            return True
        if any(x == "!" + allow for x in parts) or any("_step_dim" in x and not x.startswith("!") and "!=" not in x for x in parts):
            return False
        return None
    s = fmt(t)
    if "_step_dim" in s and allow not in s:
        return False
    return None


def setting(t):
    """(settings field, '_actl_opts' | '_req_opts' | None) behind a term such as _state._actl_opts._block_sizes[dim]."""
    t = strip(t)
    for _ in range(8):
        if t[0] == "fld" and t[1].startswith(S):
            b = strip(t[2])
            s = fmt(b)
            o = "_actl_opts" if "_actl_opts" in s else "_req_opts" if "_req_opts" in s else s
            return t[1], o
        if t[0] == "idx":
            t = strip(t[1])
        elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("lookup", "operator[]", "get_vals", "at") and isinstance(t[2], tuple):
            t = strip(t[2])
        elif t[0] == "un" and t[1] in ("*", "&"):
            t = strip(t[2])
        elif t[0] == "fld" and t[1].startswith("yask::Tuple::"):
            t = strip(t[2])
        else:
            return None, None
    return None, None


def setting_in(t, f):
    return f in {x[1] for x in subterms(t) if x[0] == "fld"}


def conj(x):
    if x[0] == "bin" and x[1] == "&&":
        for y in x[2:]:
            yield from conj(y)
    else:
        yield x


def unset(x, f):
    """Does the guard imply that the (earlier) value of the setting is zero (or not positive)?"""
    for y in conj(x):
        if y[0] == "un" and y[1] == "!" and y[2][0] != "bin" and own_value(y[2], f):
            return True
        if y[0] == "bin" and len(y) == 4 and y[1] in ("==", "<=", "<"):
            a, b = y[2], y[3]
            if y[1] == "==" and (is_zero(a) and own_value(b, f) or is_zero(b) and own_value(a, f)):
                return True
            if y[1] == "<=" and is_zero(b) and own_value(a, f):
                return True
            if y[1] == "<" and own_value(a, f) and b in (("lit", 0), ("lit", 1)):
                return True
        if y[0] == "un" and y[1] == "!" and y[2][0] == "bin" and y[2][1] in ("<", "<=") and len(y[2]) == 4:
            a, b = y[2][2], y[2][3]
            if a in (("lit", 0),) and y[2][1] == "<" and own_value(b, f):
                return True
    return False


def unset_neg(x, f):
    if x[0] == "un" and x[1] == "!":
        return unset(x[2], f)
    return own_value(x, f)


def own_value(t, f):
    t = strip(t)
    if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("max", "sum") or t[0] == "bin" and t[1] == "max":
        return setting_in(t, f)
    if t[0] == "cond":
        return setting_in(t, f)
    return setting(t)[0] == f or setting_in(t, f)


def is_zero(t):
    return t[0] in ("lit",) and t[1] == 0


def size_guard(x):
    return ".size()" in fmt(x)


def known(y, force):
    """The condition implies that the rank size is set or is forced to be final."""
    if y[0] == "bin" and y[1] == "||":
        return all(known(z, force) for z in y[2:])
    if y[0] == "bin" and y[1] == "&&":
        return any(known(z, force) for z in y[2:])
    return fmt(y) == force or nonzero_rank(y)


def nonzero_rank(y):
    s = fmt(y)
    if len(s) > 200:
        return False
    if y[0] == "bin" and y[1] in ("<", "<=") and len(y) == 4 and y[2] in (("lit", 0), ("lit", 1)) and "_rank_sizes" in fmt(y[3]):
        return True
    if "_rank_sizes" in s and y[0] in ("call", "idx", "fld"):
        return True
    if y[0] == "un" and y[1] == "!" and y[2][0] == "bin" and y[2][1] == "==" and any(is_zero(z) for z in y[2][2:]) and "_rank_sizes" in s:
        return True
    return False


def uncast(x):
    while x is not None and (x["k"] == "cast" or x["k"] == "ctor" and len(x.get("a") or []) == 1 and x["a"][0]):
        x = x["e"] if x["k"] == "cast" else x["a"][0]
    return x


def idx_base(i):
    """(reference node, constant offset) of an index expression v, v+c, v-c."""
    if i["k"] in ("ref", "mem"):
        if i["k"] == "mem":
            return {"d": i["f"], "t": i.get("t")}, 0
        if i.get("dk") in ("var", "parm", "slocal"):
            return i, 0
    if i["k"] == "bin" and i["op"] in ("+", "-"):
        b = uncast(i["b"])
        if b["k"] == "lit" and isinstance(b.get("v"), int):
            r, o = idx_base(uncast(i["a"]))
            if r is not None:
                return r, o + (b["v"] if i["op"] == "+" else -b["v"])
    return None, 0


def lockstep(fn):
    """Variables of one for-loop that start at constants and advance together: d -> (first variable, distance)."""
    out = {}
    for n in fn.nodes():
        if n["k"] != "for" or not n.get("init") or n["init"]["k"] != "decl" or len(n["init"]["v"]) < 2 or not n.get("inc"):
            continue
        inc = {m["e"].get("d") for m in walk(n["inc"]) if m["k"] == "un" and m["op"] == "++"}
        vs = []
        for v in n["init"]["v"]:
            i = uncast(v["init"]) if v.get("init") else None
            if i is None or i["k"] != "lit" or not isinstance(i.get("v"), int) or v["d"] not in inc:
                vs = []
                break
            vs.append((v["d"], i["v"]))
        if len(vs) < 2:
            continue
        body = {m["a"].get("d") for m in walk(n["b"]) if m["k"] == "asg"}
        if any(d in body for d, c in vs):
            continue
        for d, c in vs[1:]:
            out[d] = (vs[0][0], c - vs[0][1])
    return out


def fmt_node(o):
    return strip_targs(o["f"]).rsplit("::", 1)[-1]


def writes_setting(f):
    """Does the function itself write a user setting?"""
    for n in f.nodes():
        lv = []
        if n["k"] == "asg":
            lv = [n["a"]]
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            lv = [n["e"]]
        elif n["k"] == "call" and strip_targs(n.get("n") or "") not in ("yask::Tuple::operator[]", "std::vector::at") and n.get("op") not in ("<<",):
            if n.get("obj") is not None and not n.get("cst"):
                lv.append(n["obj"])
            for i in n.get("mr", ()):
                if i < len(n.get("a") or []):
                    lv.append(n["a"][i])
        elif n["k"] == "decl":
            for v in n["v"]:
                if v.get("ref") and not v.get("cref") and v.get("init"):
                    lv.append(v["init"])
        for x in lv:
            for m in walk(x or {"k": "nop"}):
                if m["k"] == "mem" and m["f"].startswith(S) and m["f"].rsplit("::", 1)[1] in USER:
                    return True
    return False
