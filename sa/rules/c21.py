"""C21: operator written = node built = value folded = text printed."""
import re
from ..facts import load_compiler, AnalysisBroken
from ..ir import walk, strip_targs
from ..sym import fmt, subterms, mk_not
from ..flow import Flow
from ..util import loop_range

TECHNIQUE = "value-flow normalisation of every operator overload, factory, constant-folding method and printer, compared with one operator table"
WHAT = ("all operator overloads and node factories of the stencil language, the constant value and operator text of every operator class, "
        "index-offset analysis, and the top-down and bottom-up printers")
ASSUMPTIONS = ["comparisons are total when operands are exchanged (a < b written as b > a is the same operation)"]
MIN = {"operator": 60, "factory": 20, "value": 12, "print": 10, "function": 12}

# API name -> operation; operand order is that of the parameters.
NAMES = {"negate": "neg", "add": "+", "multiply": "*", "subtract": "-", "divide": "/", "mod": "%", "not": "!", "and": "&&", "or": "||",
         "equals": "==", "not_equals": "!=", "less_than": "<", "greater_than": ">", "not_less_than": ">=", "not_greater_than": "<="}
COMM = {"+", "*", "&&", "||", "==", "!="}
SWAP = {">": "<", ">=": "<="}
NEGOF = {"<": ">=", ">": "<=", "==": "!="}
TOKEN = {"neg": "-"}
CMP = {"==", "!=", "<", ">", ">=", "<="}
FUNCS1 = {"sqrt", "cbrt", "fabs", "erf", "exp", "log", "atan", "sin", "cos"}
FUNCS2 = {"pow", "max", "min"}


def canon(m):
    """Canonical form of a meaning."""
    if m is None or m[0] in ("p", "c", "x"):
        return m
    a = [canon(y) for y in m[1:]]
    if None in a:
        return None
    op = m[0]
    if op == "!" and a[0][0] in ("<", "<=", "==", "!="):
        return canon(({"<": ">=", "<=": ">", "==": "!=", "!=": "=="}[a[0][0]],) + a[0][1:])
    if op in SWAP:
        return (SWAP[op], a[1], a[0])
    if op in COMM:
        a.sort(key=repr)
    return (op,) + tuple(a)


def lit_str(t):
    """Text of a string constant."""
    if t[0] == "str":
        return t[1]
    if t[0] == "ctor" and "basic_string" in t[1]:
        for y in t[2:]:
            if y[0] == "str":
                return y[1]
        return "" if len(t) == 2 or all(y[0] == "ctor" for y in t[2:]) else None
    if t[0] == "cat" and len(t) == 2:
        return lit_str(t[1])
    return None


WRAP = ("shared_ptr", "yc_number_ptr_arg", "yc_number_any_arg", "yc_number_const_arg", "static_pointer_cast", "dynamic_pointer_cast", "move", "forward")


def args_of(t):
    """Call/constructor name, object and arguments of a term."""
    if t[0] == "call":
        return t[1], t[2], t[3:]
    if t[0] == "ctor":
        return t[1], None, t[2:]
    return None, None, ()


def strip(t):
    while True:
        n, o, a = args_of(t)
        if n is None:
            if t[0] == "dyn":
                t = t[2]
                continue
            return t
        s = strip_targs(n).rsplit("::", 1)[-1]
        if s in WRAP and a:
            t = a[0]
            continue
        if s == "get" and o is not None and not a:
            t = o
            continue
        return t


class Lang:
    def __init__(self, P):
        self.P = P
        self.ops = {}       # class short name -> (meaning over L/R or ops, token)
        self.cache = {}

    def parm(self, t, fn):
        for i, p in enumerate(fn.params):
            if t[0] == "parm" and (t[1] == i or t[1] == p.get("d") or t[-1] == p["n"]):
                return i
        return None

    def meaning(self, t, fn, flow, depth=0):
        """Meaning of an expression-node term in terms of fn's parameters."""
        if depth > 20:
            return None
        t = strip(t)
        i = self.parm(t, fn)
        if i is not None:
            return ("p", i)
        if t[0] == "lit":
            return ("c", float(t[1])) if isinstance(t[1], (int, float)) else ("x", str(t[1]))
        n, o, a = args_of(t)
        if n is None:
            return None
        s = strip_targs(n).rsplit("::", 1)[-1]
        m = re.match(r"new_(\w+)_node$", s)
        if m:
            if m.group(1) in NAMES:
                xs = [self.meaning(y, fn, flow, depth + 1) for y in a]
                return None if None in xs else (NAMES[m.group(1)],) + tuple(xs)
            if m.group(1) in ("const_number", "number"):
                return self.meaning(a[0], fn, flow, depth + 1)
            if m.group(1) == "equation":
                xs = [self.meaning(y, fn, flow, depth + 1) for y in a]
                return ("equation",) + tuple(xs[:2])
        if s == "_convert_const":
            return self.meaning(a[0], fn, flow, depth + 1)
        if "Expr" in n:
            cls = re.findall(r"(\w+Expr)\b", n)
            cls = cls[-1] if cls else None
            if cls == "ConstExpr":
                return self.meaning(a[0], fn, flow, depth + 1)
            if cls in self.ops:
                form, toks = self.ops[cls]
                ar = [self.meaning(y, fn, flow, depth + 1) for y in a]
                if not a:
                    return ("list", cls)
                if None in ar:
                    return None
                try:
                    return subst(form, ar)
                except IndexError:
                    return None
        return None


def subst(form, ar):
    if form[0] == "p":
        return ar[form[1]]
    if form[0] in ("c", "x"):
        return form
    return (form[0],) + tuple(subst(y, ar) for y in form[1:])


def show(m):
    if m is None:
        return "?"
    if m[0] == "p":
        return ("first", "second", "third", "fourth")[m[1]] + " operand"
    if m[0] in ("c", "x"):
        return str(m[1])
    if len(m) == 2:
        return "%s(%s)" % (m[0], show(m[1]))
    return "(" + (" %s " % m[0]).join(show(y) for y in m[1:]) + ")"


def child_value(t):
    """Field whose value method is called: '_lhs' / '_rhs'."""
    t = strip(t)
    n, o, a = args_of(t)
    if n and strip_targs(n).rsplit("::", 1)[-1] in ("get_num_val", "get_bool_val", "get_int_val") and o is not None:
        o = strip(o)
        if o[0] == "fld":
            return o[1].rsplit("::", 1)[-1]
    return None


def value_meaning(t, fields):
    """Meaning of a constant-folding result; fields: {'_lhs': index}."""
    while t[0] in ("cast", "conv") and len(t) >= 3:
        t = t[-1]
    c = child_value(t)
    if c is not None:
        return ("p", fields[c]) if c in fields else None
    if t[0] == "lit" and not isinstance(t[1], str):
        return ("c", float(t[1]))
    if t[0] == "un" and t[1] in ("-", "!"):
        m = value_meaning(t[2], fields)
        return None if m is None else ("neg" if t[1] == "-" else "!", m)
    if t[0] == "bin" and t[1] in ("+", "-", "*", "/", "%", "&&", "||", "==", "!=", "<", ">", "<=", ">="):
        xs = [value_meaning(y, fields) for y in t[2:]]
        if None in xs:
            return None
        if t[1] == "*" and ("c", -1.0) in xs and len(xs) == 2:
            return ("neg", xs[1] if xs[0] == ("c", -1.0) else xs[0])
        if t[1] == "-" and xs[0] == ("c", 0.0):
            return ("neg", xs[1])
        return (t[1],) + tuple(xs)
    if t[0] == "cond":
        b = {("lit", 1): True, ("lit", True): True, ("lit", 0): False, ("lit", False): False}
        if t[2] in b and t[3] in b and b[t[2]] != b[t[3]]:
            m = value_meaning(t[1], fields)
            return m if b[t[2]] else (None if m is None else ("!", m))
        return None
    n, o, a = args_of(t)
    if n:
        s = strip_targs(n).rsplit("::", 1)[-1]
        if s == "imod_flr" and len(a) == 2:
            xs = [value_meaning(y, fields) for y in a]
            return None if None in xs else ("%",) + tuple(xs)
        if s == "fmod":
            return ("fmod", ("x", "truncating"))
    return None


def has_fields(t):
    return any(child_value(y) is not None for y in subterms(t) if y[0] == "call")


def check(rep, tier):
    P = load_compiler()
    rep.rule("value", "the constant value of an operator class applies the operator whose text the class carries, to its operands in order")
    rep.rule("const", "an operator counts as constant only when every operand is constant")
    rep.rule("ctor", "the constructor stores the operands in the order given and the class's own operator text")
    rep.rule("factory", "a node factory builds the node of the operation it is named for, with operands in the order given")
    rep.rule("operator", "an overloaded operator builds the operation of its symbol with operands in the order written")
    rep.rule("merge", "operands are merged into a commutative node only from a node with the same operator, and none is lost")
    rep.rule("function", "each function of the language builds a call of the function of its own name with its arguments in order")
    rep.rule("pair", "functions are paired only when their arguments agree")
    rep.rule("index", "index factories build the kind of index they are named for, with the name given, and print as that kind")
    rep.rule("cond", "the condition operators set the condition of their own kind on the equation on their left")
    rep.rule("print", "the printed form applies the node's own operator to its operands in order, unambiguously delimited")
    rep.rule("temp", "a temporary is recorded as the value of exactly the expression printed into it")
    rep.rule("offset", "an expression's index offset is derived from its operands' offsets by its own operation")
    L = Lang(P)
    rep.rule("access", "the operand accessors return the operand they are named for")
    op_classes(rep, P, L)
    accessors(rep, P)
    factories(rep, P, L)
    operators(rep, P, L)
    merging(rep, P)
    functions(rep, P, L)
    printers(rep, P, L)
    offsets(rep, P, L)


def op_classes(rep, P, L):
    for u, c in sorted(P.classes.items()):
        k = strip_targs(c["n"]).rsplit("::", 1)[-1]
        if not c["n"].startswith("yask::") or not k.endswith("Expr"):
            continue
        ms = {f.short: f for f in P.fns.values() if f.cu == u and not f.dep}
        val = ms.get("get_num_val") or ms.get("get_bool_val")
        ost = ms.get("op_str")
        if not val or not ost:
            continue
        F = Flow(P)
        F.run(ost)
        tok = lit_str(F.rets[0][0]) if len(F.rets) == 1 else None
        if not tok:
            rep.skip("value", ost.where(), "operator text of %s is not a constant" % k)
            continue
        F = Flow(P)
        F.run(val)
        # what the ctor stores.
        fields = {}
        arity = 0
        for f in [f for f in P.fns.values() if f.cu == u and f.get("isctor") and not f.get("copy") and not f.dep and f.params]:
            C = Flow(P)
            C.run(f)
            st = {}
            text = None
            for key, v in C.st.env.items():
                if key[0] == "fld" and key[2] == ("this",):
                    n = key[1].rsplit("::", 1)[-1]
                    if n == "_op_str":
                        text = lit_str(v)
                    i = L.parm(strip(v), f)
                    if i is not None:
                        st[n] = i
            arity = len(f.params)
            if text is None:
                rep.skip("ctor", f.where(), "operator text stored by %s" % k)
            elif text != tok:
                rep.bad("ctor", k + ":text", f.where(), "the constructor of %s stores the operator text '%s' but the class's operator is '%s'" % (k, text, tok))
            else:
                rep.ok("ctor", f.where(), k)
            if "_rhs" in st:
                fields = st
        op = {"-": "neg"}.get(tok, tok) if arity == 1 else tok
        isl = any(key for LL in F.loops for key in LL.syms)
        expect = canon((op,) + tuple(("p", i) for i in range(arity)))
        if F.loops:
            m = fold_meaning(F)
            if m is None:
                rep.skip("value", val.where(), "value of %s" % k)
            elif m != op:
                rep.bad("value", k, val.where(), "the constant value of %s combines its operands by %s but its operator is '%s'" % (k, m, tok))
            else:
                rep.ok("value", val.where(), k)
            L.ops[k] = ((tok, ("p", 0), ("p", 1)), tok)
        else:
            m = value_meaning(F.rets[0][0], fields) if len(F.rets) == 1 and not F.rets[0][1] else two_way(F, fields)
            if m is None or canon(m) is None:
                rep.skip("value", val.where(), "value of %s: %s" % (k, fmt(F.rets[0][0])[:80] if F.rets else "?"))
            elif canon(m) != expect:
                rep.bad("value", k, val.where(), "the constant value of %s is %s but its operator is '%s'" % (k, show(m), tok))
            else:
                rep.ok("value", val.where(), k)
            # operand i of the node, by field.
            L.ops[k] = ((op,) + tuple(("p", i) for i in range(arity)), tok)
            if fields and ("_rhs" in fields and fields["_rhs"] != arity - 1 or arity == 2 and fields.get("_lhs", 0) != 0):
                rep.bad("ctor", k + ":order", val.where(), "the constructor of %s exchanges its operands" % k)
        # is_const_val
        ic = find_method(P, c, "is_const_val")
        if ic is not None and ms.get("get_num_val"):
            G = Flow(P)
            G.run(ic)
            const_rule(rep, k, ic, G, arity)


def two_way(F, fields):
    """if (c) return true; return false; and the like."""
    if len(F.rets) == 2 and len(F.rets[0][1]) == 1:
        from ..sym import mk_cond
        return value_meaning(mk_cond(F.rets[0][1][0], F.rets[0][0], F.rets[1][0]), fields)
    return None


def accessors(rep, P):
    for fn in sorted(P.fns.values(), key=lambda f: f.u):
        if fn.dep or fn.short not in ("get_lhs", "get_rhs", "_get_lhs", "_get_rhs") or not fn.cls or not fn.cls.startswith("yask::") or fn.body is None:
            continue
        F = Flow(P)
        F.run(fn)
        want = "_lhs" if fn.short.endswith("lhs") else "_rhs"
        key = "%s::%s" % (fn.cls.rsplit("::", 1)[-1], fn.short)
        for v, g, e, s in F.rets:
            t = strip(v)
            got = t[1].rsplit("::", 1)[-1] if t[0] == "fld" else None
            if got == want:
                rep.ok("access", fn.where(), key)
            elif got in ("_lhs", "_rhs"):
                rep.bad("access", key, fn.where(), "%s() returns the other operand" % key)
            else:
                rep.skip("access", fn.where(), "%s returns %s" % (key, fmt(v)[:60]))


def find_method(P, c, name):
    st = [c["u"]]
    while st:
        u = st.pop(0)
        for f in P.fns.values():
            if f.cu == u and f.short == name and not f.dep:
                return f
        cc = P.classes.get(u)
        if cc:
            st += [b.get("u") for b in cc["bases"] if b.get("u")]
    return None


def fold_meaning(F):
    """Operation of a fold over _ops starting from its identity, or None."""
    if len(F.rets) != 1 or len(F.loops) != 1:
        return None
    LL = F.loops[0]
    if LL.rets:
        return None
    for key, sy in LL.syms.items():
        x = LL.exit[key]
        e = LL.entry[key]
        if x[0] == "bin" and x[1] in ("+", "*", "-", "/") and has_fields_any(x):
            if sy not in x[2:]:
                return None
            o = x[3] if x[2] == sy else x[2]
            n, ob, a = args_of(strip(o))
            if not n or strip_targs(n).rsplit("::", 1)[-1] != "get_num_val":
                return None
            if x[1] in ("-", "/"):
                return "'%s'" % x[1]
            e0 = e[1] if e[0] == "lit" else None
            ident = {"+": 0, "*": 1}[x[1]]
            if e0 is None:
                return None
            if float(e0) != ident:
                return "%s starting from %s" % (x[1], e0)
            return x[1]
    return None


def has_fields_any(t):
    return any(y[0] == "call" and strip_targs(str(y[1])).rsplit("::", 1)[-1] == "get_num_val" for y in subterms(t))


def const_rule(rep, k, ic, G, arity):
    from .c22 import Eval
    if G.loops:
        # all operands: a loop that returns false for a non-const operand.
        LL = G.loops[0]
        fs = [r for r in LL.rets if r[3]["k"] == "ret"]
        early = [r for r in fs if r[0] in (("lit", 1), ("lit", True)) and any("is_const_val" in fmt(c) for c in r[1])]
        if early:
            rep.bad("const", k, ic.where(), "%s counts as constant as soon as one operand is" % k)
            return
        good = any(r[0] in (("lit", 0), ("lit", False)) and any(c[0] == "un" and c[1] == "!" and "is_const_val" in fmt(c) for c in r[1]) for r in fs) or \
            not fs and any("is_const_val" in fmt(LL.exit[key]) and LL.exit[key][0] == "bin" and LL.exit[key][1] == "&&" for key in LL.syms)
        if good:
            rep.ok("const", ic.where(), k)
        else:
            rep.skip("const", ic.where(), "form of %s" % k)
        return
    atoms = set()
    for v, g, e, s in G.rets:
        for y in subterms(v):
            if y[0] == "call" and "is_const_val" in str(y[1]):
                atoms.add(y)
        for c in g:
            for y in subterms(c):
                if y[0] == "call" and "is_const_val" in str(y[1]):
                    atoms.add(y)
    if not atoms:
        return
    if len(atoms) < arity and not any("is_const_val" not in fmt(y) and y[0] == "call" for v, g, e, st in G.rets for y in subterms(v)):
        rep.bad("const", k, ic.where(), "%s asks only %d of its %d operands whether it is constant" % (k, len(atoms), arity))
        return
    import itertools
    for bits in itertools.product((False, True), repeat=len(atoms)):
        asg = dict(zip(sorted(atoms, key=repr), bits))
        r = Eval(G, asg, lambda t: None).result()
        if r is None:
            rep.skip("const", ic.where(), "form of %s" % k)
            return
        if r != all(bits):
            rep.bad("const", k, ic.where(), "%s counts as constant although not all of its operands are (or the reverse)" % k)
            return
    rep.ok("const", ic.where(), k)


def factories(rep, P, L):
    for fn in P.methods_of("yask::yc_node_factory") if hasattr(P, "methods_of") else []:
        if fn.dep:
            continue
        m = re.match(r"new_(\w+)_node$", fn.short)
        idx = re.match(r"new_(step|domain|misc)_index$|new_(first|last)_domain_index$", fn.short)
        if not m and not idx:
            continue
        merges = []

        def hook(F, n, fr, merges=merges):
            for t in P.targets(n):
                if t.short in ("merge_expr", "append_op", "add_operand") and fr.fn.cls != "yask::CommutativeExpr":
                    merges.append(([F.norm(y, fr) for y in n.get("a") or ()], t.short))
        F = Flow(P)
        F.hook = hook
        F.run(fn)
        if idx:
            index_factory(rep, L, fn, F, (idx.group(1) or idx.group(2)).upper())
            continue
        nm = m.group(1)
        if nm == "equation":
            equation_factory(rep, P, L, fn, F)
            continue
        if nm not in NAMES:
            continue
        op = NAMES[nm]
        n = len(fn.params)
        expect = canon((op,) + tuple(("p", i) for i in range(n)))
        for v, g, e, s in F.rets:
            nulls = set()
            for c in g:
                c2 = strip(c[2]) if c[0] == "un" and c[1] == "!" else None
                if c2 is not None and L.parm(c2, fn) is not None:
                    nulls.add(L.parm(c2, fn))
            mm = L.meaning(v, fn, F)
            if nulls:
                # documented: an absent operand is left out of the operation.
                want = null_case(op, nulls)
                if mm is None:
                    rep.skip("factory", fn.where(), "case of an absent operand in new_%s_node" % nm)
                elif want is not None and canon(mm) != canon(want):
                    rep.bad("factory", nm + ":null%s" % sorted(nulls), fn.where(), "new_%s_node() with the %s absent builds %s" % (
                        nm, show(("p", min(nulls))), show(mm)))
                else:
                    rep.ok("factory", fn.where(), nm)
                continue
            if mm is not None and mm[0] == "list":
                tok = L.ops[mm[1]][1]
                got = []
                for a, _ in merges:
                    i = L.parm(strip(a[0]), fn) if a else None
                    got.append(i)
                if tok != op:
                    rep.bad("factory", nm, fn.where(), "new_%s_node() builds a node with operator '%s'" % (nm, tok))
                elif None in got:
                    rep.skip("factory", fn.where(), "operands of new_%s_node" % nm)
                elif sorted(got) != list(range(n)):
                    rep.bad("factory", nm, fn.where(), "new_%s_node() does not add each operand once to the node" % nm)
                else:
                    rep.ok("factory", fn.where(), nm)
            elif mm is None:
                rep.skip("factory", fn.where(), "new_%s_node returns %s" % (nm, fmt(v)[:80]))
            elif canon(mm) != expect:
                rep.bad("factory", nm, fn.where(), "new_%s_node() builds %s" % (nm, show(mm)))
            else:
                rep.ok("factory", fn.where(), nm)


def null_case(op, nulls):
    if len(nulls) != 1:
        return None
    i = min(nulls)
    if i == 1:
        return ("p", 0)
    return {"-": ("neg", ("p", 1)), "/": ("/", ("c", 1.0), ("p", 1))}.get(op, ("p", 1))


def index_factory(rep, L, fn, F, kind):
    for v, g, e, s in F.rets:
        t = strip(v)
        n, o, a = args_of(t)
        if not n or "IndexExpr" not in n or len(a) != 2:
            rep.skip("index", fn.where(), "%s returns %s" % (fn.short, fmt(v)[:60]))
            continue
        kd = fmt(a[1]).rsplit("::", 1)[-1]
        nm = strip(a[0])
        while nm[0] == "fld":
            nm = strip(nm[2])
        if kd != kind + "_INDEX" and kd.endswith("_INDEX"):
            rep.bad("index", fn.short, fn.where(), "%s() builds an index of kind %s" % (fn.short, kd))
        elif L.parm(nm, fn) is None:
            rep.skip("index", fn.where(), "name given to the index by %s" % fn.short)
        else:
            rep.ok("index", fn.where(), fn.short)


def equation_factory(rep, P, L, fn, F):
    for v, g, e, s in F.rets:
        n, o, a = args_of(strip(v))
        if n and "EqualsExpr" in n and len(a) >= 2:
            got = [L.parm(strip(y), fn) for y in a[:2]]
            if got == [0, 1]:
                rep.ok("factory", fn.where(), "equation")
            elif None not in got:
                rep.bad("factory", "equation", fn.where(), "new_equation_node() exchanges or repeats its sides")
            else:
                rep.skip("factory", fn.where(), "sides of new_equation_node")
    # the condition must reach the node.
    conds = [v for k, v in F.st.env.items() if k[0] == "fld" and k[1].endswith("::_cond")]
    names = set()
    for n in walk(fn.body):
        if n["k"] == "call":
            for t in P.targets(n):
                names.add(t.short)
    if conds and not any(mentions_parm(c, fn, 2, L) for c in conds):
        rep.bad("cond", "new_equation", fn.where(), "new_equation_node() does not set the condition it is given")
    elif conds:
        rep.ok("cond", fn.where(), "new_equation_node")
    elif len(fn.params) > 2 and not any(n["k"] == "ref" and n.get("d") == fn.params[2].get("d") for n in walk(fn.body)):
        rep.bad("cond", "new_equation", fn.where(), "new_equation_node() never uses the condition it is given")
    else:
        rep.skip("cond", fn.where(), "condition of new_equation_node")


def mentions_parm(t, fn, i, L):
    return any(y[0] == "parm" and L.parm(y, fn) == i for y in subterms(t))


BINOPS = {"==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&&", "||"}


def operators(rep, P, L):
    for fn in sorted(P.fns.values(), key=lambda f: f.u):
        if fn.dep or not fn.n.startswith("yask::operator") or fn.cu:
            continue
        sym = fn.n[len("yask::operator"):].strip()
        if not fn.params or not any("yc_" in p["t"] for p in fn.params) or fn.body is None:
            continue
        key = "%s(%s)" % (sym, ",".join(re.sub(r"std::shared_ptr<yask::(\w+)>|yask::", r"\1", p["t"]).replace("const ", "") for p in fn.params))
        n = len(fn.params)
        F = Flow(P)
        F.run(fn)
        if sym in ("^=", "|="):
            cond_op(rep, P, L, fn, F, sym)
            continue
        if sym == "<<":
            mm = [L.meaning(v, fn, F) for v, g, e, s in F.rets]
            for m in mm:
                if m is None or None in m:
                    rep.skip("operator", fn.where(), key)
                elif m == ("equation", ("p", 0), ("p", 1)):
                    rep.ok("operator", fn.where(), key)
                else:
                    rep.bad("operator", key, fn.where(), "EQUALS exchanges or repeats its sides")
            continue
        if sym in ("+=", "-=", "*=", "/=", "%="):
            vals = [v for k, v in F.st.env.items() if k[0] in ("var", "parm") and fn.params[0]["n"] in (k[-1], k[1])]
            vals += [v for k, v in F.st.env.items() if k[0] == "var" and k not in vals and str(k[1]) == str(fn.params[0].get("d"))]
            exp = canon((sym[0], ("p", 0), ("p", 1)))
            if not vals:
                # via a two-operand operator: lhs = lhs + rhs
                rep.skip("operator", fn.where(), key)
                continue
            m = L.meaning(vals[0], fn, F)
            judge(rep, key, fn, m, exp, sym)
            continue
        op = "neg" if sym == "-" and n == 1 else sym
        if op not in BINOPS | {"neg", "!"} or (n == 1) != (op in ("neg", "!")):
            continue
        exp = canon((op,) + tuple(("p", i) for i in range(n)))
        for v, g, e, s in F.rets:
            judge(rep, key, fn, L.meaning(v, fn, F), exp, sym)


def judge(rep, key, fn, m, exp, sym):
    c = canon(m)
    if c is None:
        rep.skip("operator", fn.where(), key)
    elif c != exp:
        rep.bad("operator", key, fn.where(), "operator %s builds %s" % (key, show(m)))
    else:
        rep.ok("operator", fn.where(), key)


def cond_op(rep, P, L, fn, F, sym):
    want = "_cond" if sym == "^=" else "_step_cond"
    got = {}
    for k, v in F.st.env.items():
        if k[0] == "fld" and k[1].rsplit("::", 1)[-1] in ("_cond", "_step_cond"):
            i = L.parm(strip(v), fn)
            b = k[2]
            got[k[1].rsplit("::", 1)[-1]] = (i, mentions_parm(b, fn, 0, L))
    if not got:
        rep.skip("cond", fn.where(), "operator%s" % sym)
    elif set(got) != {want} or got[want][0] == 0:
        rep.bad("cond", "operator" + sym, fn.where(), "the condition operator%s sets %s" % (sym, ", ".join(sorted(got))))
    elif got[want][0] is None:
        rep.skip("cond", fn.where(), "operator%s" % sym)
    else:
        rep.ok("cond", fn.where(), "operator%s" % sym)


def merging(rep, P):
    for fn in P.named("yask::CommutativeExpr::merge_expr"):
        from ..engine import collect, guard_conds, flat_and, Loop
        from ..sym import Sym
        S = Sym(P)
        S.keep_dyn = True
        evs, _ = collect_events(P, fn, S)
        found = 0
        whole = False
        flat = []
        for ev in evs:
            x = ev.node
            if x["k"] != "call" or not any(t.short in ("append_op", "push_back", "emplace_back") for t in P.targets(x)) and x.get("n") not in ("push_back", "emplace_back"):
                continue
            if not any(t.short == "append_op" for t in P.targets(x)):
                continue
            found += 1
            loops = [g for g in ev.guards if isinstance(g, Loop)]
            conds = flat_and(guard_conds(ev, S) if guard_conds.__code__.co_argcount > 1 else guard_conds(ev))
            if loops:
                flat.append((ev, conds, loops))
            else:
                whole = True
        if not found:
            rep.skip("merge", fn.where(), "no operand is appended directly")
            continue
        for ev, conds, loops in flat:
            same = any(opstr_equal(c) for c in conds)
            lr = loop_range(loops[-1], S)
            if lr and lr[0] == "idx" and lr[2] is not None and lr[2][0] == "lit" and lr[2][1] != 0:
                rep.bad("merge", "merge_expr:range", fn.where(), "merging starts at operand %s instead of the first" % lr[2][1])
            if not same:
                rep.bad("merge", "merge_expr:guard", fn.where(), "operands of another commutative node are merged without its operator being the same")
            else:
                rep.ok("merge", fn.where(), "flattening is guarded by the operator")
        if not whole:
            rep.bad("merge", "merge_expr:whole", fn.where(), "an operand that is no commutative node is dropped")
        else:
            rep.ok("merge", fn.where(), "other operands are appended whole")


def collect_events(P, fn, S):
    from ..engine import collect
    r = collect(P, fn, S, enter=lambda f, *a: False)
    return (r, None)


def opstr_equal(c):
    if c[0] == "bin" and c[1] == "==":
        ns = [y for y in subterms(c) if y[0] == "fld" and y[1].endswith("_op_str")]
        return len(ns) >= 2 and len({repr(y[2]) for y in ns}) == 2
    if c[0] == "un" and c[1] == "!" and c[2][0] == "call" and "compare" in str(c[2][1]):
        return len([y for y in subterms(c) if y[0] == "fld" and y[1].endswith("_op_str")]) >= 2
    return False


def functions(rep, P, L):
    for fn in sorted(P.fns.values(), key=lambda f: f.u):
        if fn.dep or fn.cu or not fn.n.startswith("yask::") or fn.n.count("::") != 1:
            continue
        if fn.short not in FUNCS1 | FUNCS2 or "yc_number_node" not in fn.get("ret", "yc_number_node"):
            continue
        F = Flow(P)
        lists = []

        def hook(FF, n, fr):
            pass
        F.run(fn)
        key = "%s(%s)" % (fn.short, ",".join("num" if p["t"] == "double" else "expr" for p in fn.params))
        for v, g, e, s in F.rets:
            m = func_call(L, fn, strip(v))
            if m is None:
                rep.skip("function", fn.where(), "%s: %s" % (key, fmt(v)[:100]))
            elif m[0] != fn.short:
                rep.bad("function", key, fn.where(), "%s builds a call of %s" % (key, m[0]))
            elif m[1] is None:
                rep.skip("function", fn.where(), "arguments of %s" % key)
            elif m[1] != list(range(len(fn.params))):
                rep.bad("function", key, fn.where(), "%s passes its arguments in another order" % key)
            else:
                rep.ok("function", fn.where(), key)
    for fn in P.named("yask::FuncExpr::make_pair"):
        pairing(rep, P, fn)


def func_call(L, fn, t):
    n, o, a = args_of(t)
    if not n:
        return None
    s = strip_targs(n).rsplit("::", 1)[-1]
    if s in FUNCS1 | FUNCS2 and n.startswith("yask::"):
        xs = [L.meaning(y, fn, None) for y in a]
        return s, [x[1] if x and x[0] == "p" else None for x in xs] if None not in xs else None
    if "FuncExpr" in n and len(a) >= 2:
        nm = lit_str(a[0])
        if nm is None:
            return None
        ops = []
        for y in a[1:]:
            ys = [y]
            if y[0] == "init":
                ys = list(y[1:])
            else:
                nn, oo, aa = args_of(y)
                if nn and "initializer_list" in nn:
                    ys = list(aa)
            ops += ys
        idx = [L.parm(strip(y), fn) for y in ops]
        return nm, None if None in idx or not idx else idx
    return None


def pairing(rep, P, fn):
    S = Flow(P)
    S.keep_dyn = True
    S.run(fn)
    # every path that sets the partner is guarded by agreement of all operands.
    from ..engine import collect
    calls = [n for n in walk(fn.body) if n["k"] == "call"]
    same = any(t.short in ("is_same", "are_exprs_same") for n in calls for t in P.targets(n)) or any(n.get("n") == "is_same" for n in calls)
    sets = [n for n in walk(fn.body) if n["k"] == "asg" and "_paired" in str(n.get("a", {}).get("n", "")) + str(n.get("a", {}).get("f", ""))]
    if same:
        rep.ok("pair", fn.where(), "arguments compared")
    else:
        rep.bad("pair", "make_pair", fn.where(), "functions are paired without comparing their arguments")


# ---- printers

def pieces(t):
    """Flatten a string term to alternatives: list of (conds, [piece])."""
    if t[0] == "cat":
        alts = [((), [])]
        for y in t[1:]:
            sub = pieces(y)
            alts = [(c + c2, p + p2) for c, p in alts for c2, p2 in sub]
        return alts
    if t[0] == "cond":
        return [((t[1],) + c, p) for c, p in pieces(t[2])] + [((mk_not(t[1]),) + c, p) for c, p in pieces(t[3])]
    s = lit_str(t)
    if s is not None:
        return [((), [("s", s)])]
    if t[0] == "chr":
        return [((), [("s", t[1] if isinstance(t[1], str) else chr(t[1]))])]
    if t[0] == "lit" and isinstance(t[1], int):
        return [((), [("s", str(t[1]))])]
    return [((), [("t", t)])]


def chain(t):
    """Base stream and values of a << chain."""
    vals = []
    while t[0] == "call" and strip_targs(str(t[1])).endswith("operator<<"):
        if t[2] is None:
            vals.append(t[4])
            t = t[3]
        else:
            vals.append(t[3])
            t = t[2]
    return t, vals[::-1]


def role(t, node):
    """'L','R','OP' or None for a piece."""
    n, o, a = args_of(t)
    if n and strip_targs(n).rsplit("::", 1)[-1] == "accept" and o is not None:
        f = strip(o)
        if f[0] == "fld" and f[1].rsplit("::", 1)[-1] in ("_lhs", "_rhs") and strip(f[2]) == node:
            return "L" if f[1].endswith("_lhs") else "R"
        if f[0] in ("elem", "var", "idx", "range", "item", "sub"):
            return "E"
        return "E"
    if t[0] == "fld" and t[1].endswith("::_op_str") and strip(t[2]) == node:
        return "OP"
    if t[0] == "fld" and t[1].endswith("_func_prefix"):
        return "PREFIX"
    if t[0] == "fld" and t[1].endswith("_line_suffix"):
        return "END"
    return None


def tokens(ps, node):
    out = []
    for kind, x in ps:
        if kind == "s":
            out += [c for c in re.findall(r"[A-Za-z_0-9<>:]+|\s+|[^\w\s]", x)]
        else:
            out.append(role(x, node) or ("?", fmt(x)[:50]))
    return out


def balanced(s):
    d = 0
    for c in s:
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d < 0:
                return False
    return d == 0


def printers(rep, P, L):
    for fn in sorted(P.fns.values(), key=lambda f: f.u):
        if fn.dep or fn.short != "visit" or not fn.params or not fn.cls:
            continue
        pc = fn.cls.rsplit("::", 1)[-1]
        if pc not in ("PrintVisitorTopDown", "PrintVisitorBottomUp"):
            continue
        k = kind(fn.params[0]["t"])
        if k is None:
            continue
        bottom = pc == "PrintVisitorBottomUp"
        F = Flow(P, opaque={"yask::PrintVisitorBottomUp::try_simple_print", "yask::PrintVisitorBase::make_next_temp_var"})
        F.keep_dyn = True
        temps = []

        inloop = {}

        def hook(FF, n, fr):
            if n.get("op") == "<<":
                t = FF.norm(n, fr)
                temps.append(t)
                b = chain(t)[0]
                if len(b) > 3:
                    inloop[repr(b[3:])] = bool(FF.loopstack)
        if bottom:
            F.hook = hook
        F.run(fn)
        node = ("parm", 0, fn.params[0]["n"])
        where = fn.where()
        key = "%s(%s)" % (pc, k)
        texts = []      # (conds, tokens)
        if bottom:
            top = {}
            for t in temps:
                b, vals = chain(t)
                n, o, a = args_of(b)
                if n and n.endswith("make_next_temp_var"):
                    top[repr(b)] = (b, vals, a)
            for b, vals, a in top.values():
                texts += [(c, tokens(p, node), a) for c, p in pieces(("cat",) + tuple(vals))]
        else:
            for v, g, e, s in F.rets:
                texts += [(tuple(g) + c, tokens(p, node), None) for c, p in pieces(v)]
        if k in ("BinaryNumExpr", "BinaryBoolExpr", "BinaryNum2BoolExpr"):
            binary(rep, key, where, texts, bottom, node)
        elif k in ("UnaryNumExpr", "UnaryBoolExpr", "UnaryNum2BoolExpr"):
            unary(rep, key, where, texts, bottom, k == "UnaryNumExpr")
        elif k in ("CommutativeExpr", "FuncExpr"):
            listed(rep, key, where, F, texts, bottom, k, node, temps)
        if bottom:
            for c, tk, a in texts:
                temp_key(rep, key, where, a, node, k, F, inloop.get(repr(a)))


def kind(t):
    t = t.replace("yask::", "").rstrip(" *")
    if t.startswith("BinaryExpr<UnaryExpr<NumExpr"):
        return "BinaryNumExpr"
    m = re.match(r"(Binary|Unary)Expr<(?:UnaryExpr<)?(\w+), std::shared_ptr<(\w+)>", t)
    if m:
        ret, arg = m.group(2), m.group(3)
        nm = {("NumExpr", "NumExpr"): "Num", ("BoolExpr", "BoolExpr"): "Bool", ("BoolExpr", "NumExpr"): "Num2Bool"}.get((ret, arg))
        return m.group(1) + nm + "Expr" if nm else None
    return t if t in ("CommutativeExpr", "FuncExpr") else None


def binary(rep, key, where, texts, bottom, node):
    seen = False
    for conds, tk, a in texts:
        core = [x for x in tk if x != "END" and not (isinstance(x, str) and x.isspace())]
        if "L" not in core and "R" not in core:
            # a folded constant or an earlier result.
            continue
        if any(isinstance(x, tuple) for x in core):
            rep.skip("print", where, "%s prints %s" % (key, [x for x in core if isinstance(x, tuple)][0][1]))
            continue
        ismod = any(c[0] == "dyn" and "ModExpr" in str(c[1]) for c in conds)
        rl = [x for x in core if x in ("L", "R", "OP")]
        joined = "".join(x for x in core if x not in ("L", "R", "OP"))
        seen = True
        if "imod_flr" in joined:
            i = next(i for i, x in enumerate(core) if "imod_flr" in x)
            if not ismod:
                rep.bad("print", key + ":imod", where, "operators other than modulo are printed as imod_flr()")
            elif rl != ["L", "R"] or core.index("L") < i or core[core.index("L") + 1:core.index("R")] != [","] or not balanced(core):
                rep.bad("print", key + ":mod", where, "the modulo operation is not printed as imod_flr(left, right)")
            else:
                rep.ok("print", where, key + " modulo")
            continue
        if ismod:
            rep.bad("print", key + ":mod", where, "the modulo operation is printed with the truncating operator")
            continue
        if rl != ["L", "OP", "R"]:
            rep.bad("print", key, where, "a binary operation is printed as '%s' instead of left operand, operator, right operand" % " ".join(rl))
            continue
        if set(joined) - set("()") or not balanced(core) or (not bottom and not (core[0] == "(" and core[-1] == ")" and wraps(core))):
            rep.bad("print", key + ":delim", where, "a binary operation is not delimited by one pair of parentheses: %s" % " ".join(core))
            continue
        i = tk.index("OP")
        if tk[i + 1] == "R":
            rep.bad("print", key + ":sep", where, "nothing separates the operator from the right operand")
            continue
        rep.ok("print", where, key)


def wraps(core):
    d = 0
    for i, c in enumerate(core):
        d += (c == "(") - (c == ")")
        if d == 0 and i < len(core) - 1:
            return False
    return True


def unary(rep, key, where, texts, bottom, num):
    for conds, tk, a in texts:
        core = [x for x in tk if x != "END" and not (isinstance(x, str) and x.isspace())]
        if "R" not in core:
            continue
        if any(isinstance(x, tuple) for x in core):
            rep.skip("print", where, key)
            continue
        rl = [x for x in core if x in ("L", "R", "OP")]
        if rl != ["OP", "R"] or not balanced(core):
            rep.bad("print", key, where, "a unary operation is not printed as operator, operand")
        elif num and tk[tk.index("OP") + 1] == "R":
            rep.bad("print", key + ":sep", where, "nothing separates a unary operator from an operand that may start with the same character")
        else:
            rep.ok("print", where, key)


def listed(rep, key, where, F, texts, bottom, k, node, temps):
    """Printers of nodes with an operand list."""
    # 1. accumulating string loop(s): entry, and exit = [sep if not first] ++ operand.
    done = False
    for LL in F.loops:
        if not (LL.range and fmt(LL.range).endswith("_ops")) and not any("_ops" in fmt(c) for c in [LL.cond] if c):
            continue
        for kk, sy in LL.syms.items():
            if kk[0] != "var":
                continue
            x = LL.exit[kk]
            if not any(y[0] == "call" and strip_targs(str(y[1])).endswith("::accept") for y in subterms(x)) or sy not in list(subterms(x)):
                continue
            alts = pieces(x)
            good = True
            for conds, ps in alts:
                tk = []
                for kd, y in ps:
                    if kd == "t" and y == sy:
                        tk.append("ACC")
                    else:
                        tk += tokens([(kd, y)], node)
                tk = [y for y in tk if not (isinstance(y, str) and y.isspace())]
                sep = tk[1:-1]
                first = any(first_cond(c, F, LL) for c in conds)
                want = [[","]] if k == "FuncExpr" else [["OP"]]
                if tk[:1] != ["ACC"] or tk[-1] != "E":
                    if "ACC" in tk and "E" in tk and tk.index("ACC") > tk.index("E"):
                        good = False
                        rep.bad("print", key + ":order", where, "operands are printed in reverse order")
                        break
                    good = None
                    break
                if sep == [] or sep in want:
                    continue
                good = False
                rep.bad("print", key + ":sep", where, "the operands are joined by '%s'" % " ".join(map(str, sep)))
                break
            if good and k == "CommutativeExpr" and not any(len(p) > 2 for c, p in alts):
                good = False
                rep.bad("print", key + ":sep", where, "the operands are joined without the operator")
            if good is None:
                rep.skip("print", where, key + " operand list")
            elif good:
                rep.ok("print", where, key + " operand list")
            done = True
            # the opening text
            e = LL.entry[kk]
            for conds, ps in pieces(e):
                tk = [y for y in tokens(ps, node) if not (isinstance(y, str) and y.isspace())]
                if not bottom and k == "FuncExpr":
                    if "OP" in tk and tk[-1:] == ["("]:
                        rep.ok("print", where, key + " call")
                    elif any(isinstance(y, tuple) for y in tk):
                        rep.skip("print", where, key + " call")
                    else:
                        rep.bad("print", key + ":name", where, "a function call is not printed as its own name and '('")
                elif not bottom and k == "CommutativeExpr":
                    if tk == ["("]:
                        rep.ok("print", where, key + " opening")
                    elif any(isinstance(y, tuple) for y in tk):
                        rep.skip("print", where, key)
                    else:
                        rep.bad("print", key + ":open", where, "the operand list is not opened by '('")
    # 2. bottom-up commutative: temp = lhs OP operand
    if bottom:
        for conds, tk, a in texts:
            core = [x for x in tk if x != "END" and not (isinstance(x, str) and x.isspace())]
            if k == "CommutativeExpr":
                if "OP" in core and "E" in core:
                    i = core.index("OP")
                    if len(core) == 3 and i == 1 and core[2] == "E":
                        rep.ok("print", where, key + " step")
                    elif len(core) == 3 and i == 1 and core[0] == "E":
                        rep.ok("print", where, key + " step")
                    else:
                        rep.bad("print", key + ":step", where, "a step of a commutative operation is printed as %s" % " ".join(map(str, core)))
                elif "E" in core:
                    rep.bad("print", key + ":step", where, "a step of a commutative operation is printed without its operator")
            elif k == "FuncExpr":
                if "OP" in core:
                    i = core.index("OP")
                    if core[i + 1:i + 2] == ["("] and core[-1] == ")":
                        rep.ok("print", where, key + " call")
                    else:
                        rep.bad("print", key + ":call", where, "a function call is printed as %s" % " ".join(map(str, core)))


def first_cond(c, F, LL):
    return False


def mentions_size(c):
    return any(y[0] == "call" and str(y[1]).endswith("::size") for y in subterms(c))


def temp_key(rep, key, where, a, node, k, F, inloop):
    """make_next_temp_var(res, ex, ...): ex must be the node (or null)."""
    if not a or len(a) < 2:
        return
    ex = strip(a[1])
    if ex == node and inloop and k == "CommutativeExpr":
        calls = [c for c in F.calls if any(t.short == "make_next_temp_var" for t in F.P.targets(c[0]))] if hasattr(F, "P") else []
        if any(mentions_size(g) for L in F.loops for c in L.calls if "make_next_temp_var" in str(c[0].get("n")) for g in c[3]):
            rep.skip("temp", where, key)
        else:
            rep.bad("temp", key, where, "every partial result is recorded as the value of the whole expression")
        return
    ok = ex == node or ex in (("lit", 0), ("null",)) or fmt(ex) in ("0", "nullptr")
    if ok:
        rep.ok("temp", where, key)
        return
    if ex[0] == "cond":
        # the whole node only for the last operand.
        c = ex[1]
        s = fmt(c)
        parts = {fmt(strip(ex[2])), fmt(strip(ex[3]))}
        if fmt(node) in parts and ("0" in parts or "nullptr" in parts):
            if strip(ex[2]) == node and c[0] == "bin" and c[1] in ("<", "!=") and mentions_size(c):
                rep.bad("temp", key, where, "partial results are recorded as the value of the whole expression: when %s" % fmt(c)[:60])
                return
            last = c[0] == "bin" and c[1] in ("==", "<", "<=") and any(y[0] == "call" and str(y[1]).endswith("::size") for y in subterms(c))
            if c[0] == "un":
                last = True
            if strip(ex[2]) != node and c[0] == "bin" and c[1] == "==":
                rep.bad("temp", key, where, "a partial result is recorded as the value of the whole expression")
                return
            if last:
                rep.ok("temp", where, key)
                return
        rep.skip("temp", where, key)
        return
    if ex[0] == "fld" and ex[1].endswith("_paired"):
        rep.ok("temp", where, key + " partner")
        return
    if k in ("BinaryNumExpr", "UnaryNumExpr") and ex[0] == "fld" and ex[1].rsplit("::", 1)[-1] in ("_lhs", "_rhs"):
        rep.bad("temp", key, where, "the result is recorded as the value of an operand")
        return
    rep.skip("temp", where, key)


# ---- index offsets

def offsets(rep, P, L):
    for fn in sorted(P.fns.values(), key=lambda f: f.u):
        if fn.dep or fn.short != "is_offset_from" or not fn.cls:
            continue
        k = fn.cls.rsplit("::", 1)[-1]
        F = Flow(P)
        F.run(fn)
        if k == "SubExpr" or k == "AddExpr":
            # the offset out-parameter on success.
            for v, g, e, s in F.rets:
                if v in (("lit", 0), ("lit", False)):
                    continue
                outs = [val for kk, val in e.items() if kk[0] == "var" and "offset" in str(kk) and kk[-1] == fn.params[1]["n"]]
                outs += [val for kk, val in e.items() if kk[0] == "parm" and kk[-1] == fn.params[1]["n"]]
                if not outs:
                    rep.skip("offset", fn.where(), "%s: result not found" % k)
                    continue
                r = offset_form(outs[-1], k)
                if r is None:
                    rep.skip("offset", fn.where(), "%s offset is %s" % (k, fmt(outs[-1])[:80]))
                elif r:
                    rep.ok("offset", fn.where(), k)
                else:
                    rep.bad("offset", k, fn.where(), "the offset of %s is %s" % (k, fmt(outs[-1])[:80]))
        elif k in ("MultExpr", "DivExpr", "ModExpr", "NegExpr", "ConstExpr", "FuncExpr"):
            tr = [v for v, g, e, s in F.rets if v not in (("lit", 0), ("lit", False))]
            if tr:
                rep.skip("offset", fn.where(), "%s may be an offset" % k)
            else:
                rep.ok("offset", fn.where(), k + " is never an offset")
        elif k == "IndexExpr":
            rep.ok("offset", fn.where(), k)
    for fn in P.named("yask::VarPoint::set_arg_offset"):
        arg_offset(rep, P, L, fn)


def offset_form(t, k):
    if k == "SubExpr":
        if t[0] == "bin" and t[1] == "-":
            c = any(child_value(y) == "_rhs" for y in subterms(t[3]))
            return c and not any(child_value(y) for y in subterms(t[2]))
        if t[0] == "bin" and t[1] == "+":
            if any(child_value(y) for y in subterms(t)) and not any(y[0] == "un" and y[1] == "-" for y in subterms(t)):
                return False
            return None
        return None
    if k == "AddExpr":
        if t[0] == "bin" and t[1] == "+":
            return True
        if t[0] == "bin" and t[1] == "-":
            return False
    return None


def arg_offset(rep, P, L, fn):
    built = []

    def hook(F, n, fr):
        t = F.norm(n, fr)
        nm, o, a = args_of(strip(t)) if t else (None, None, ())
        if nm and ("AddExpr" in nm or "SubExpr" in nm) and len(a) == 2:
            built.append((nm, a))
    F = Flow(P)
    F.hook = hook
    F.run(fn)
    for nm, a in built:
        cls = "AddExpr" if "AddExpr" in nm else "SubExpr"
        s = fmt(a[1])
        neg = any(y[0] == "un" and y[1] == "-" and y[2][0] != "lit" for y in subterms(a[1])) or "-1 *" in s
        if "ConstExpr" in fmt(a[0]) and cls == "SubExpr":
            rep.bad("offset", "set_arg_offset:" + cls, fn.where(), "a negative offset is subtracted in the wrong order")
        elif (cls == "SubExpr") != neg:
            rep.bad("offset", "set_arg_offset:" + cls, fn.where(), "the offset is applied with the wrong sign: %s" % s[:80])
        else:
            rep.ok("offset", fn.where(), "%s of the magnitude" % cls)
