"""contracts of what builds expressions: operators, constructors, the context they are built in (C02-C08, C20, C21)"""
from .base import *

NORMF = fn("NORMALIZED", Int, V, V)      # context, operand -> the expression it stands for
LITF = fn("LITERAL_OF", V, Str, Int)     # what the context makes of a text: expression made by the function, of the text
INSTF = fn("INSTANCE_OF", Int, Int)      # expression made of a class without arguments

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    PE = ci("ParserElement")
    seq_of = lambda c, n: seq0(fld(c, n))
    CUR0 = z3.Const("glob_whitespaces.CURRENT", Int)
    mine = lambda c, r: r == c.self.t
    def g(p, name): return p.resolve(p.global_name(prog.modules["whitespaces"], name)).t

    # ------------------------------------------------------------------ operands
    def operand(name, kinds=("element", "text", "none", "class", "other")):
        """an argument of any kind: an expression, a text, None, a class of expressions, anything else"""
        def make(p):
            for k in kinds[:-1]:
                if p.branch(z3.Const(f"p_{name}_is_{k}", Bool)): return one(p, k)
            return one(p, kinds[-1])
        def one(p, k):
            q = z3.Const("p_" + name, Int)
            if k == "element":
                p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
                v = VRef(q, PE); p.well_typed(v)
                return v
            if k == "text": return VStr(z3.Const(f"p_{name}_text", Str))
            if k == "none": return NONE
            if k == "dots": return ELLIPSIS
            if k == "class":
                p.assume(p.sub(q, PE))
                return VTag(q, PE)
            p.mark_old(q); p.assume(z3.And(q > 0, q < A0, z3.Not(p.sub(p.tag(q), PE))))
            return VRef(q, ci("object"))
        return make
    iskind = lambda v, k: {"element": isinstance(v, VRef) and v.cls is PE, "text": isinstance(v, VStr), "none": isinstance(v, VNone), "class": isinstance(v, VTag), "dots": v is ELLIPSIS,
                           "other": isinstance(v, VRef) and v.cls is not PE}[k]

    # ------------------------------------------------------------------ C20: what an operand stands for
    def lit_call(p, fnv, text):
        r = LITF(fnv, text)
        p.mark_old(r); p.assume(r < 0)
        v = VRef(r, PE); p.well_typed(v)
        return v
    def inst(p, tag):
        r = INSTF(tag)
        p.mark_old(r); p.assume(r < 0); p.assume(p.tag(r) == tag)
        v = VRef(r, PE); p.well_typed(v)
        return v
    def norm(p, ws, v):
        """contract of Whitespace.normalize at a call"""
        b = p.box(v)
        r = norm1(p, ws, v)
        p.assume(NORMF(ws, b) == p.box(r))
        return r
    def norm1(p, ws, v):
        v = p.resolve(v)
        if isinstance(v, VRef) and v.cls.issub(PE): return v
        if isinstance(v, VRef) and p.branch(p.isinst(v, PE)): return VRef(v.t, PE)
        if isinstance(v, VNone): return NONE
        if isinstance(v, VStr): return lit_call(p, p.rd("literal", ws, V), v.t)
        if isinstance(v, VTag) and v.bound.issub(PE): return inst(p, v.t)
        if isinstance(v, VClass) and v.ci.issub(PE): return inst(p, I(p.cid(v.ci.name)))
        p.raise_("MoLogsExcept")
    def norm_call(p, args, b): return norm(p, p.resolve(args[0]).t, args[1])
    def norm_ret(c, r):
        p, v = c.p, c.a["expr"]
        r = p.resolve(r)
        if iskind(v, "none"): p.oblige("nothing stands for nothing", z3.BoolVal(isinstance(r, VNone))); return
        if not isinstance(r, VRef): p.fail("gives an expression", repr(r)); return
        if iskind(v, "element"): p.oblige("an expression stands for itself", r.t == v.t)
        elif iskind(v, "text"): p.oblige("a text stands for what this context makes of it", r.t == LITF(fld(c, "literal", V), v.t))
        elif iskind(v, "class"): p.oblige("a class stands for an expression of it", p.tag(r.t) == v.t)
        else: p.fail("refuses anything else", repr(r))
    nc = Contract("whitespaces.Whitespace.normalize", ["C20", "C02", "C03", "C04", "C07"], "Whitespace", [("expr", operand("expr"))], ret=norm_ret,
                  exc=lambda c, e: c.p.oblige("refuses only what is no expression", z3.BoolVal(iskind(c.a["expr"], "other"))), call=norm_call)
    add(nc)
    def literal_of(p, obj):
        if p.con is not nc: return None
        t = p.rd("literal", obj.t, V)
        p.assume(V.is_oth(t))
        return VCallable(V.oval(t))
    reg.getattrs["Whitespace.literal"] = literal_of
    old_unknown = reg.call_unknown
    def call_unknown(p, fnv, args, kw):
        if p.con is not nc: return old_unknown(p, fnv, args, kw)
        v = p.resolve(args[0]) if len(args) == 1 and not kw else NONE
        if not isinstance(v, VStr): p.raise_("MoLogsExcept")
        return lit_call(p, V.oth(fnv.t), v.t)
    reg.call_unknown = call_unknown
    old_tag = reg.construct_tag
    def construct_tag(p, tag, args, kw):
        if p.con is nc: return inst(p, tag.t)
        return old_tag(p, tag, args, kw)
    reg.construct_tag = construct_tag
    # ------------------------------------------------------------------ C20: the context
    own = lambda c: None
    add(Contract("whitespaces.Whitespace.set_literal", ["C20"], "Whitespace", [("literal", "dyn")], writes={"id": mine, "literal": mine},
                 ret=lambda c, r: c.p.oblige("texts are read with the function given", c.p.rd("literal", c.self.t, V) == c.p.box(c.a["literal"]))))
    CANON = reg.CANON
    add(Contract("whitespaces.Whitespace.set_keyword_chars", ["C20"], "Whitespace", [("chars", "str")], writes={"id": mine, "keyword_chars": mine},
                 ret=lambda c, r: c.p.oblige("these characters belong to keywords", c.p.rd("keyword_chars", c.self.t, Str) == CANON(c.a["chars"].t))))
    rel = Contract("whitespaces.Whitespace.release", ["C20"], "Whitespace", [],
                   ret=lambda c, r: c.p.oblige("leaves the context once", c.p.seq(c.p.frame0.locals["$left"].t) == V1(V.ref(c.self.t))),
                   exc=lambda c, e: c.p.oblige("leaves the context once, if only to be refused", c.p.seq(c.p.frame0.locals["$left"].t) == V1(V.ref(c.self.t))))
    rel.ghost = lambda c, p: {"$left": p.new_list(EMPTY, elem=("dyn",))}
    add(rel)
    bk = Contract("whitespaces.Whitespace.backup", ["C19"], "Whitespace", [])
    def bk_ret(c, r):
        p = c.p; r = p.resolve(r)
        if not (isinstance(r, VRef) and r.cls.issub(ci("Backup"))): p.fail("returns a backup", repr(r)); return
        p.oblige("of this whitespace", p.rd("whitespace", r.t, Int) == c.self.t)
        p.oblige("with its cache", z3.And(p.rd("content", r.t, V) == fld(c, "content", V), p.rd("skips", r.t, Int) == fld(c, "skips")))
    bk._ret = bk_ret
    add(bk)

    # ------------------------------------------------------------------ operators
    OPS = set()
    class Made(Val):
        """what an operator made: class and operands, in order"""
        def __init__(self): self.d = {}
    def made(p): return p.frame0.locals["$made"].d
    def key(t): return z3.simplify(t).sexpr()
    def record(p, cls, items, **extra):
        r = p.alloc(ci(cls))
        made(p)[key(r.t)] = (cls, [p.box(i) for i in items], extra)
        return r
    SEQ_KINDS = ("And", "MatchFirst", "Or", "MatchAll")
    ONE_KINDS = ("NotAny", "Optional", "SkipTo", "_PendingSkip")
    def built(p, cls, args, kw):
        first = args[0] if args else kw.get("exprs", kw.get("expr"))
        rest = {}
        if cls in SEQ_KINDS:
            q, t = p.to_seq(p.resolve(first))
            k = 0
            n_ = z3.simplify(z3.Length(q))
            if not z3.is_int_value(n_): raise Unsupported("operands of unknown number")
            items = [norm(p, g(p, "CURRENT"), VDyn(z3.simplify(q[i]))) for i in range(n_.as_long())]
            if cls == "And":
                ws = args[1] if len(args) > 1 else kw.get("whitespace", NONE)
                ws = p.resolve(ws)
                rest["whitespace"] = g(p, "CURRENT") if isinstance(ws, VNone) else ws.t
            return record(p, cls, items, **rest)
        if len(args) > 1 or kw: raise Unsupported("options of " + cls)
        return record(p, cls, [norm(p, g(p, "CURRENT"), first) if cls != "_PendingSkip" else p.resolve(first)])
    for cls in SEQ_KINDS + ONE_KINDS:
        prev = reg.constructors.get(cls)
        reg.constructors[cls] = (lambda cls, prev: lambda p, ci_, args, kw: built(p, cls, args, kw) if p.con.qual in OPS else (prev(p, ci_, args, kw) if prev else None))(cls, prev)
    prevg = reg.constructors.get("SyntaxErrorGuard")
    reg.constructors["SyntaxErrorGuard"] = lambda p, ci_, args, kw: record(p, "SyntaxErrorGuard", []) if p.con.qual in OPS else (prevg(p, ci_, args, kw) if prevg else None)
    def gated(name, f):
        prev = reg.methods.get(name)
        reg.methods[name] = lambda p, recv, args, kw: f(p, recv, args, kw) if p.con.qual in OPS else (prev(p, recv, args, kw) if prev else None)
    def stream(p, recv, args, kw): return recv
    for k in ("ParserElement", "MatchFirst", "Many"): gated(k + ".streamline", stream)
    gated("ParserElement.__call__", lambda p, recv, args, kw: named(p, recv, args[0]))
    def named(p, recv, name):
        r = p.alloc(recv.cls, exact=False, tag=p.tag(recv.t))
        made(p)[key(r.t)] = ("named", [V.ref(recv.t), p.box(name)], {})
        return r
    def pair(cls): return lambda p, recv, args, kw: built(p, cls, [p.new_list(z3.Concat(V1(p.box(recv)), V1(p.box(norm(p, g(p, "CURRENT"), args[0])))))], {})
    def plus(p, recv, args, kw):
        a = p.resolve(args[0])
        if a is ELLIPSIS: return record(p, "_PendingSkip", [recv])
        return pair("And")(p, recv, [a], kw)
    gated("ParserElement.__add__", plus)
    gated("ParserElement.__or__", lambda p, recv, args, kw: pair("MatchFirst")(p, recv, args, kw))
    gated("ParserElement.__xor__", pair("Or"))
    gated("ParserElement.__and__", pair("MatchAll"))
    def minus(p, recv, args, kw):
        return record(p, "And", [recv, record(p, "SyntaxErrorGuard", []), norm(p, g(p, "CURRENT"), args[0])], whitespace=g(p, "CURRENT"))
    gated("ParserElement.__sub__", minus)
    def rev(f): return lambda p, recv, args, kw: f(p, norm(p, g(p, "CURRENT"), args[0]), [recv], kw)
    def times(p, recv, args, kw):
        a = p.resolve(args[0])
        r = p.alloc(ci("Many"))
        made(p)[key(r.t)] = ("times", [V.ref(recv.t)] + [p.box(x) for x in (a.items if isinstance(a, VTup) else [a, a])], {})
        return r
    gated("ParserElement.__mul__", times)

    def flat(p, v, kind):
        """operands of nested expressions of this kind, in order"""
        if z3.is_app(v) and v.decl().name() == "ref":
            m = made(p).get(key(v.arg(0)))
            if m is not None and m[0] == kind:
                return [x for i in m[1] for x in flat(p, i, kind)]
        return [v]
    def shape(p, v):
        if z3.is_app(v) and v.decl().name() == "ref":
            m = made(p).get(key(v.arg(0)))
            if m is not None: return m
        return None
    def operator(qual, cls, params, props, post, exc=None):
        con = Contract(qual, props, cls, params)
        OPS.add(qual)
        def ret(c, r):
            p = c.p; r = p.resolve(r)
            if not isinstance(r, VRef): p.fail("returns an expression", repr(r)); return
            post(c, r)
        con._ret = ret
        con._exc = exc
        con.ghost = lambda c, p: {"$made": Made()}
        def setup(p, c):
            q = g(p, "CURRENT")
            p.assume(z3.And(q > 0, q < A0))
        con._setup = setup
        add(con)
        return con
    N = lambda c: c.a["other"]
    def normed(c):
        """what the other operand stands for, as the contract of normalize says"""
        p, v = c.p, N(c)
        if iskind(v, "element"): return V.ref(v.t)
        if iskind(v, "text"): return V.ref(LITF(z3.Function("fld_literal", Int, V)(CUR0), v.t))
        if iskind(v, "class"): return V.ref(INSTF(v.t))
        if iskind(v, "none"): return V.none
    def is_list(kind, what, *want, ws=False):
        def post(c, r):
            p = c.p
            got = shape(p, V.ref(r.t))
            if got is None or got[0] != kind: p.fail(f"returns {what}", repr(got)); return
            items = flat(p, V.ref(r.t), kind)
            exp = [w(c) for w in want]
            if len(items) != len(exp): p.fail(f"{what} of its operands", f"{len(items)} instead of {len(exp)}"); return
            for i, (a, b) in enumerate(zip(items, exp)):
                if b is None: p.fail(f"{what}: an operand that is none", repr(N(c))); continue
                if isinstance(b, str):
                    m = shape(p, a)
                    if m is None or m[0] != b: p.fail(f"{what}: operand {i + 1} is a {b}", str(m))
                    continue
                p.oblige(f"{what}: operand {i + 1}", a == b)
            if ws: p.oblige(f"{what} in the current whitespace", got[2]["whitespace"] == CUR0)
        return post
    me = lambda c: V.ref(c.self.t)
    guard = lambda c: "SyntaxErrorGuard"
    refuses = lambda c, e: c.p.oblige("refuses only what is no expression", z3.BoolVal(iskind(N(c), "other") or iskind(N(c), "none")))
    plain = ("element", "text", "class", "other")
    dots = ("element", "text", "class", "dots", "other")
    arg = lambda kinds: [("other", operand("other", kinds))]
    def unless_dots(post, dotted):
        return lambda c, r: dotted(c, r) if N(c) is ELLIPSIS else post(c, r)
    def pending(inner=None):
        def post(c, r):
            p = c.p; m = shape(p, V.ref(r.t))
            if m is None or m[0] != "_PendingSkip": p.fail("waits for what to skip to", repr(m)); return
            x = m[1][0]
            if inner:
                mm = shape(p, x)
                if mm is None or mm[0] != inner: p.fail("or nothing", repr(mm)); return
                x = mm[1][0]
            p.oblige("after this expression", x == me(c))
        return post
    def skipped(c, r):
        p = c.p; items = flat(p, V.ref(r.t), "And")
        m = shape(p, items[0]) if len(items) == 2 else None
        s = shape(p, m[1][0]) if m is not None and m[0] == "named" else None
        if s is None or s[0] != "SkipTo": p.fail("skips to this expression, then matches it", repr(items)); return
        p.oblige("the text skipped has a name", m[1][1] == V.str(z3.StringVal("_skipped")))
        p.oblige("skips to this expression", s[1][0] == me(c))
        p.oblige("then matches it", items[1] == me(c))
    seq = lambda *w: is_list("And", "a sequence", *w, ws=True)
    first = lambda *w: is_list("MatchFirst", "a choice", *w)
    for mod, cls in (("core", "ParserElement"), ("expressions", "And")):
        operator(f"{mod}.{cls}.__add__", cls, arg(dots), ["C02", "C20", "C21"], unless_dots(seq(me, normed), pending()), refuses)
    operator("core.ParserElement.__radd__", "ParserElement", arg(("text", "class", "dots", "other")), ["C02", "C20", "C21"], unless_dots(seq(normed, me), skipped), refuses)
    operator("core.ParserElement.__sub__", "ParserElement", arg(plain), ["C02", "C20", "C21"], seq(me, guard, normed), refuses)
    operator("core.ParserElement.__rsub__", "ParserElement", arg(("text", "class", "other")), ["C02", "C20", "C21"], seq(normed, guard, me), refuses)
    for mod, cls in (("core", "ParserElement"), ("expressions", "MatchFirst")):
        operator(f"{mod}.{cls}.__or__", cls, arg(dots), ["C03", "C20", "C21"], unless_dots(first(me, normed), pending("Optional")), refuses)
        operator(f"{mod}.{cls}.__ror__", cls, arg(("text", "class", "other")), ["C03", "C20", "C21"], first(normed, me), refuses)
    longest = lambda *w: is_list("Or", "a longest choice", *w)
    operator("core.ParserElement.__xor__", "ParserElement", arg(plain), ["C04", "C20", "C21"], longest(me, normed), refuses)
    operator("core.ParserElement.__rxor__", "ParserElement", arg(("text", "class", "other")), ["C04", "C20", "C21"], longest(normed, me), refuses)
    everything = lambda *w: is_list("MatchAll", "a match in any order", *w)
    operator("core.ParserElement.__and__", "ParserElement", arg(plain), ["C06", "C20", "C21"], everything(me, normed), refuses)
    operator("core.ParserElement.__rand__", "ParserElement", arg(("text", "class", "other")), ["C06", "C20", "C21"], everything(normed, me), refuses)
    def neg(c, r):
        p = c.p; m = shape(p, V.ref(r.t))
        if m is None or m[0] != "NotAny": p.fail("returns a negative look-ahead", repr(m)); return
        p.oblige("of this expression", m[1][0] == me(c))
    operator("core.ParserElement.__invert__", "ParserElement", [], ["C07", "C21"], neg)
    def repeated(lo, hi):
        def post(c, r):
            p = c.p; m = shape(p, V.ref(r.t))
            if m is None or m[0] != "times": p.fail("repeats", repr(m)); return
            p.oblige("this expression", m[1][0] == me(c))
            p.oblige("at least as often as asked for", m[1][1] == lo(c))
            p.oblige("at most as often as asked for", m[1][2] == hi(c))
        return post
    dyn = lambda n: (lambda p: VDyn(z3.Const(n, V)))
    D = lambda n: (lambda c: z3.Const(n, V))
    count = lambda n: (lambda p: VDyn(z3.Const(n, V), ("oneof", ("none",), ("int",), ("str",))))
    operator("core.ParserElement.__rmul__", "ParserElement", [("other", count("p_count"))], ["C05", "C21"], repeated(D("p_count"), D("p_count")))
    bound = ("oneof", ("none",), ("int",), ("str",))
    for nm in ("start", "stop"): reg.types["slice." + nm] = bound
    def key_arg(p):
        if p.branch(z3.Const("p_key_is_slice", Bool)):
            q = z3.Const("p_key", Int); p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
            return VRef(q, ci("slice"), True)
        return VDyn(z3.Const("p_count", V), bound)
    FS = lambda n: z3.Function("fld_" + n, Int, V)(z3.Const("p_key", Int))
    sliced = lambda c: isinstance(c.a["key"], VRef)
    operator("core.ParserElement.__getitem__", "ParserElement", [("key", key_arg)], ["C05", "C21"],
             lambda c, r: repeated(lambda c: FS("start"), lambda c: FS("stop"))(c, r) if sliced(c) else repeated(D("p_count"), D("p_count"))(c, r))

    # ------------------------------------------------------------------ constructors
    CONS = set()
    NEWCFG = ci("Config")
    def gate_c(name, f, table):
        prev = table.get(name)
        table[name] = lambda p, *a: f(p, *a) if p.con.qual in CONS else (prev(p, *a) if prev else None)
    gate_c("ParserElement.Config", lambda p, obj: VOpaque("$Config"), reg.getattrs)
    FIELDS = z3.Const("CONFIG_FIELDS", Int)
    old_opaque = reg.call_opaque
    def call_opaque(p, fnv, args, kw):
        if fnv.what != "$Config": return old_opaque(p, fnv, args, kw)
        if kw or len(args) != 1 or not isinstance(args[0], tuple): raise Unsupported("configuration")
        q, t = p.to_seq(p.resolve(args[0][1]))
        p.oblige("a value for every field of the configuration", z3.Length(q) == z3.Length(p.seq(FIELDS)))
        new = p.alloc(NEWCFG)
        for nm in {k.split(".")[-1] for k in reg.cfg_types}:
            k = p.fresh(Int, "field")
            for h, f in p.seq_facts:
                if h.eq(q): p.assume(f(k))
            put_fresh(p, new, "cfg_" + nm, q[k], V)
        return VRef(new.t, NEWCFG, True, owner=PE)
    reg.call_opaque = call_opaque
    def opaque_attr(p, obj, name):
        if obj.what != "$Config" or name != "_fields": return None
        p.mark_old(FIELDS); p.assume(z3.And(FIELDS > 0, FIELDS < A0))
        return p.typed(FIELDS, ("list", ("str",)))
    reg.opaque_attr = opaque_attr
    def fwd(p, args, b):
        v = p.resolve(args[0])
        return VBool(p.isinst(v, ci("Forward")) if isinstance(v, VRef) else FALSE)
    reg.assumed["utils.is_forward"] = Contract("utils.is_forward", [], None, [], call=fwd, note="is this a Forward: tells classes by their names")
    gate_c("Forward.track", lambda p, recv, args, kw: NONE, reg.methods)      # contract of Forward.track: its own list
    N1 = Rec("NORMALIZED_ALL", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
             lambda c, st: [(st[0] >= z3.Length(given(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(NORMF(CUR0, given(c)[st[0]])))))], fixed=lambda c: [given(c)])
    def given(c):
        v = c.a["exprs"]
        return seq0(v.t) if isinstance(v, VRef) and v.cls.name == "list" else V1(c.p.box(v))
    item = ("oneof", ("none",), ("str",), ("ref", "ParserElement"))
    def exprs_arg(p):
        if not p.branch(z3.Const("p_exprs_is_list", Bool)): return operand("exprs", ("element",))(p)
        return exprs_list(p)
    def exprs_list(p):
        q = z3.Const("p_exprs", Int); p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
        p.assume(z3.Not(z3.Contains(seq0(q), V1(p.box(ELLIPSIS)))))
        return p.typed(q, ("list", item))
    def fresh_element(c, but=()):
        """what every constructor leaves: no actions, no names, nothing cached"""
        p, s = c.p, c.self.t
        pa = p.rd("parse_action", s, Int)
        acts = {"suppress": "_suppress_post_parse", "dict": "_dict_post_parse"}
        want = [V1(p.box(p.global_name(prog.modules["enhancement"], f))) for k, f in acts.items() if k in but]
        p.oblige("the actions it begins with, in a list of its own", z3.And(pa >= A0, p.seq(pa) == (want[0] if want else EMPTY)))
        p.oblige("no name for its results", p.box(p.getattr_(c.self, "token_name")) == V.str(z3.StringVal("")))
        p.oblige("its length not measured", p.box(p.getattr_(c.self, "min_length_cache")) == V.int(-1))
        if "token" not in but: p.oblige("not simplified", z3.Not(p.rd("streamlined", s, Bool)))
        if "name" not in but: p.oblige("no name in messages", p.rd("parser_name", s, V) == V.str(z3.StringVal("")))
        p.oblige("actions do not run during tries, nothing runs on failure", z3.And(now(c, "callDuringTry") == V.bool(FALSE), V.is_none(now(c, "fail_action"))))
    now = lambda c, n: c.p.rd("cfg_" + n, c.p.rd("parser_config", c.self.t, Int), V)
    def cons(qual, cls, params, props, post, exc=None, recs=(), but=(), **kw):
        con = Contract(qual, props, cls, params, recs=list(recs), writes={"*": mine})
        CONS.add(qual)
        con._ret = lambda c, r: (fresh_element(c, but), post(c))
        con._exc = exc
        def setup(p, c):
            q = g(p, "CURRENT")
            p.assume(z3.And(q > 0, q < A0))
        con._setup = setup
        add(con)
        return con
    cons("core.ParserElement.__init__", "ParserElement", [], ["C02", "C21"], lambda c: None)
    def its_exprs(c):
        c.p.oblige("holds what the operands stand for, in order", c.p.to_seq(c.p.getattr_(c.self, "exprs"))[0] == (N1.value(c, 0) if c.a["exprs"].cls.name == "list" else V1(NORMF(CUR0, c.p.box(c.a["exprs"])))))
    def same_alt(c):
        its_exprs(c)
        c.p.oblige("tries them in that order", c.p.rd("alternate", c.self.t, Int) == c.p.rd("exprs", c.self.t, Int))
    cons("expressions.ParseExpression.__init__", "ParseExpression", [("exprs", exprs_arg)], ["C02", "C03", "C04", "C06", "C20", "C21"], its_exprs, recs=[N1])
    cons("expressions.MatchFirst.__init__", "MatchFirst", [("exprs", exprs_arg)], ["C03", "C21"], same_alt, recs=[N1])
    cons("expressions.Or.__init__", "Or", [("exprs", exprs_arg)], ["C04", "C21"], same_alt, recs=[N1])
    def white(name):
        def post(c):
            w = c.a[name]
            given_ = V.is_ref(w.t) if isinstance(w, VDyn) else None
            c.p.oblige("in the whitespace given, or else the current one", now(c, "whitespace") == z3.If(V.is_ref(w.t), w.t, V.ref(CUR0)))
        return post
    opt_white = lambda p: VDyn(z3.Const("p_whitespace", V), ("opt", ("ref", "Whitespace")))
    cons("expressions.And.__init__", "And", [("exprs", exprs_list), ("whitespace", opt_white)], ["C02", "C20", "C21"], lambda c: (its_exprs(c), white("whitespace")(c)), recs=[N1])
    # matching in any order: how often each, as the operand says
    CF = lambda e: z3.Function("fld_parser_config", Int, Int)(e)
    CV = lambda e, n: z3.Function("fld_cfg_" + n, Int, V)(CF(e))
    def how_often(name, limit):
        def item_(c, v):
            e = V.rval(v)
            many = z3.And(V.is_ref(v), c.p.sub(CLS0(e), ci("Many")))
            return V.int(z3.If(many, limit(V.ival(CV(e, name))), I(1)))
        return Rec("HOW_OFTEN_" + name, ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
                   lambda c, st: [(st[0] >= z3.Length(given(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(item_(c, given(c)[st[0]])))))], fixed=lambda c: [given(c)])
    LO, HI = how_often("min_match", lambda t: z3.If(t < 1, t, I(1))), how_often("max_match", lambda t: t)
    def all_post(c):
        its_exprs(c)
        p = c.p
        lst = lambda n: p.seq(V.rval(now(c, n)))
        p.oblige("each at least once, unless it is a repetition that need not", lst("min_match") == LO.value(c, 0))
        p.oblige("each at most once, unless it is a repetition", lst("max_match") == HI.value(c, 0))
        p.oblige("in the current whitespace", now(c, "whitespace") == V.ref(CUR0))
    cons("expressions.MatchAll.__init__", "MatchAll", [("exprs", exprs_list)], ["C06", "C20", "C21"], all_post, recs=[N1, LO, HI])

    # ------------------------------------------------------------------ of one expression
    one = operand("expr", ("element", "text", "class"))
    only = [("expr", one)]
    stands = lambda c, n="expr": NORMF(CUR0, c.p.box(c.a[n]))
    def its_expr(c): c.p.oblige("holds what the operand stands for", c.p.box(c.p.getattr_(c.self, "expr")) == stands(c))
    for k in ("ParserElement",):
        prev_s = reg.methods.get(k + ".streamline")
        reg.methods[k + ".streamline"] = (lambda prev_s: lambda p, recv, args, kw: recv if p.con.qual in CONS else (prev_s(p, recv, args, kw) if prev_s else None))(prev_s)
    cons("enhancement.ParseEnhancement.__init__", "ParseEnhancement", only, ["C02", "C20", "C21"], its_expr)
    cons("enhancement.LookAhead.__init__", "LookAhead", only, ["C07", "C21"], its_expr)
    cons("enhancement.Group.__init__", "Group", only, ["C15", "C21"], its_expr)
    cons("enhancement.Suppress.__init__", "Suppress", [("expr", operand("expr", ("element", "class")))], ["C27", "C21"], its_expr, but=["suppress"])
    cons("enhancement.Dict.__init__", "Dict", only, ["C27", "C21"], its_expr, but=["dict"])
    cons("enhancement.OpenDict.__init__", "OpenDict", only, ["C27", "C21"], its_expr, but=["dict"])
    cons("enhancement.Combine.__init__", "Combine", [("expr", operand("expr", ("element",))), ("separator", "str")], ["C27", "C21"],
         lambda c: (its_expr(c), c.p.oblige("with the separator given", now(c, "separator") == V.str(c.separator))))
    # repetitions
    WS = lambda c: (z3.If(V.is_ref(c.a["whitespace"].t), c.a["whitespace"].t, V.ref(CUR0)) if "whitespace" in c.a else V.ref(CUR0))
    def ender(p):
        if p.branch(z3.Const("p_stop", Bool)): return operand("stop_on", ("element", "text"))(p)
        return NONE
    RXP = fn("RX_pattern", Int, Str)
    PATF = fn("PATTERN", Int, Str)
    def ends(c, v):
        p = c.p; e = now(c, "end")
        if isinstance(v, VNone): p.oblige("nothing stops it", V.is_none(e)); return
        has = z3.Length(v.t) > 0 if isinstance(v, VStr) else TRUE
        x = NORMF(V.rval(WS(c)), p.box(v))
        p.oblige("the expression given stops it", z3.Implies(has, z3.And(V.is_ref(e), RXP(V.rval(e)) == PATF(V.rval(x)))))
        p.oblige("an empty text does not", z3.Implies(z3.Not(has), V.is_none(e)))
    def bounds(lo, hi):
        def post(c):
            p = c.p
            its_expr(c)
            p.oblige("in the whitespace given, or else the current one", now(c, "whitespace") == WS(c))
            p.oblige("at least as often", now(c, "min_match") == V.int(lo(c)))
            p.oblige("at most as often", now(c, "max_match") == V.int(hi(c)))
        return post
    MAXI = z3.IntVal(__import__("sys").maxsize)
    behind = lambda c, e: c.p.oblige("refuses only to look behind more than once", c.p.sub(c.p.tag(V.rval(stands(c))), ci("PrecededBy")))
    exact = lambda p: VInt(z3.Const("p_exact", Int)) if p.branch(z3.Const("p_has_exact", Bool)) else NONE
    def many_post(c):
        e = c.a["exact"]
        bounds(lambda c: e.t if isinstance(e, VInt) else c.min_match, lambda c: e.t if isinstance(e, VInt) else c.max_match)(c)
        ends(c, c.a["stop_on"])
    stop = ("stop_on", ender)
    wsp = ("whitespace", opt_white)
    cons("enhancement.Many.__init__", "Many", [("expr", one), wsp, stop, ("min_match", "int"), ("max_match", "int"), ("exact", exact)], ["C05", "C20", "C21"], many_post, exc=behind)
    star = lambda lo: (lambda c: (bounds(lambda c: I(lo), lambda c: MAXI)(c), ends(c, c.a["stop_on"])))
    cons("enhancement.OneOrMore.__init__", "OneOrMore", [("expr", one), wsp, stop], ["C05", "C20", "C21"], star(1), exc=behind)
    cons("enhancement.ZeroOrMore.__init__", "ZeroOrMore", [("expr", one), wsp, stop], ["C05", "C20", "C21"], star(0), exc=behind)
    def opt_post(c):
        bounds(lambda c: I(0), lambda c: I(1))(c)
        p = c.p
        d = now(c, "default_value")
        v = c.a["default"]
        want = EMPTY if isinstance(v, VNone) else seq0(v.t) if isinstance(v, VRef) and v.cls.name == "list" else V1(p.box(v))
        p.oblige("the default given, as a list", p.seq(V.rval(d)) == want)
        p.oblige("nothing stops it", V.is_none(now(c, "end")))
    def skip_post(c):
        its_expr(c)
        p = c.p
        f, g_ = c.a["fail_on"], c.a["ignore"]
        p.oblige("with what must not be skipped", now(c, "fail") == NORMF(CUR0, p.box(f)))
        p.oblige("with what is ignored", now(c, "ignore") == p.box(g_))
        p.oblige("the target itself is taken when asked for", now(c, "include") == V.bool(c.include))
        p.oblige("in the whitespace given, or else the current one", now(c, "whitespace") == z3.If(V.is_ref(c.a["engine_"].t), c.a["engine_"].t, V.ref(CUR0)))
    cons("enhancement.SkipTo.__init__", "SkipTo", [("expr", one), ("include", "bool"), ("ignore", "opt:ref:ParserElement"), ("fail_on", operand("fail_on", ("none", "element", "text"))), ("engine_", opt_white)],
         ["C08", "C20", "C21"], skip_post, but=["name"])
    def default_arg(p):
        if p.branch(z3.Const("p_no_default", Bool)): return NONE
        q = z3.Const("p_default", Int); p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
        if p.branch(z3.Const("p_default_is_list", Bool)): return p.typed(q, ("list", ("dyn",)))
        return VStr(z3.Const("p_default_text", Str))
    cons("enhancement.Optional.__init__", "Optional", [("expr", one), wsp, ("default", default_arg)], ["C05", "C20", "C21"], opt_post, exc=behind)
    def back_post(c):
        its_expr(c)
        p = c.p; e = VRef(V.rval(stands(c)), PE)
        retreat, ex = now(c, "retreat"), now(c, "exact")
        one_of_ = lambda *names: z3.Or([p.sub(CLS0(e.t), ci(n)) for n in names])
        p.oblige("looks back no further than the shortest match of the expression is long, to begin with", z3.And(V.is_int(retreat), V.ival(retreat) >= 0, z3.Implies(MINLEN(e.t) >= 0, V.ival(retreat) <= MINLEN(e.t))))
        p.oblige("and only that far for the expressions which have one length (never the ends of line and text)",
                 z3.And(V.is_bool(ex), z3.Implies(ex == V.bool(TRUE), z3.Or(one_of_("Literal", "Keyword", "Char"),
                                                                              z3.And(z3.Function("CLSATTR_zero_length", Int, V)(CLS0(e.t)) == V.bool(TRUE), z3.Not(one_of_("LineEnd", "StringEnd", "Word", "CharsNotIn")))))))
    cons("enhancement.PrecededBy.__init__", "PrecededBy", only, ["C07", "C21"], back_post)
    # ------------------------------------------------------------------ terminals: what they are made of
    tok = ["token"]
    cons("tokens.Token.__init__", "Token", [], ["C09", "C21"], lambda c: None, but=tok)
    txt = [("match", "str")]
    CHARSET, OTHERS, CASELESS = fn("REGEX_RANGE", Str, Str), fn("REGEX_OTHERS", Str, Str), fn("REGEX_CASELESS", Str, Str)      # contracts of regex_range and regex_caseless
    TXTV = z3.StringVal
    def pattern(c, t, rx=None):
        """the pattern compiled is t, its dot matches line breaks"""
        r = now(c, "regex") if rx is None else rx
        c.p.oblige("its pattern is what is asked for", z3.And(V.is_ref(r), fn("RX_pattern", Int, Str)(V.rval(r)) == t))
        c.p.oblige("in which the dot matches line breaks too", fn("RX_dotall", Int, Bool)(V.rval(r)))
    def matches_text(c): c.p.oblige("matches the text given", now(c, "match") == V.str(c.match))
    def lit_post(c):
        matches_text(c)
        p = c.p; n1 = z3.Length(c.match) == 1
        p.oblige("which is not empty", z3.Length(c.match) > 0)
        one_ = p.tag(c.self.t) == I(p.cid("SingleCharLiteral"))
        p.oblige("one character is matched as such", z3.Implies(n1, one_))
        p.oblige("more are not", z3.Implies(z3.Not(n1), p.tag(c.self.t) == CLS0(c.self.t)))
    empty = lambda c, e: c.p.oblige("refuses only the empty text", z3.Length(c.match) == 0)
    cons("tokens.Literal.__init__", "Literal", txt, ["C09", "C21"], lit_post, exc=empty, but=tok)
    cons("tokens.CaselessLiteral.__init__", "CaselessLiteral", txt, ["C09", "C10", "C21"], lambda c: (matches_text(c), c.p.oblige("which is not empty", z3.Length(c.match) > 0), pattern(c, CASELESS(c.match))), exc=empty, but=tok + ["name"])
    cons("tokens.CloseMatch.__init__", "CloseMatch", txt + [("max_mismatches", "int")], ["C09", "C21"],
         lambda c: (matches_text(c), c.p.oblige("with as many mismatches as given, at most", now(c, "max_mismatches") == V.int(c.max_mismatches))), but=tok + ["name"])
    def lengths_post(c, name, chars):
        p = c.p
        lo, hi = now(c, "min_len"), now(c, "max_len")
        p.oblige("at least as long", lo == V.int(z3.If(exact_(c), c.exact, c.min)))
        p.oblige("at most as long", hi == V.int(z3.If(exact_(c), c.exact, z3.If(c.max > 0, c.max, MAXI))))
        p.oblige("of the characters given", now(c, name) == V.str(CANON(chars)))
    exact_ = lambda c: c.exact > 0
    def not_pattern(c): pattern(c, not_text(c.not_chars, z3.If(exact_(c), c.exact, c.min), z3.If(exact_(c), c.exact, z3.If(c.max > 0, c.max, MAXI))))
    def not_text(chars, lo, hi):
        ch = CANON(chars); rg = CHARSET(ch)
        digits = lambda t: fn("TEXT", V, Str)(V.int(t))
        body = z3.If(z3.Length(ch) == 1, z3.Concat(TXTV("[^"), rg, TXTV("]")), z3.Concat(TXTV("[^"), z3.SubString(rg, 1, z3.Length(rg) - 1)))
        times = z3.If(hi == MAXI, z3.If(lo == 1, TXTV("+"), z3.Concat(TXTV("{"), digits(lo), TXTV(",}"))), z3.If(z3.And(lo == 1, hi == 1), TXTV(""), z3.Concat(TXTV("{"), digits(lo), TXTV(","), digits(hi), TXTV("}"))))
        return z3.Concat(body, times)
    nn = lambda c: [("a length", c.exact >= 0)]
    wh = cons("tokens.White.__init__", "White", [("ws", "str"), ("min", "int"), ("max", "int"), ("exact", "int")], ["C09", "C21"], lambda c: lengths_post(c, "white_chars", c.ws), but=tok + ["name"],
              exc=lambda c, e: c.p.oblige("refuses only characters it has no name for", c.p.isinst(e, ci("KeyError")) if "KeyError" in prog.classes else TRUE))
    wh._pre = nn
    cn = cons("tokens.CharsNotIn.__init__", "CharsNotIn", [("not_chars", "str"), ("min", "int"), ("max", "int"), ("exact", "int")], ["C10", "C21"], lambda c: (lengths_post(c, "not_chars", c.not_chars), not_pattern(c)), but=tok + ["name"],
              exc=lambda c, e: c.p.oblige("refuses only a minimum below one", c.min < 1))
    cn._pre = nn
    kw = cons("tokens.Keyword.__init__", "Keyword", txt + [("ident_chars", "opt:str"), ("caseless", "bool")], ["C09", "C10", "C20", "C21"], None, but=tok + ["name"])
    def kw_post(c):
        matches_text(c)
        p = c.p; i = c.a["ident_chars"]
        ch = i.t if not isinstance(i, VDyn) else z3.If(V.is_none(i.t), z3.Function("fld_keyword_chars", Int, Str)(CUR0), V.sval(i.t))
        any_case = c.a["caseless"].t
        ch = CANON(z3.If(any_case, z3.Concat(fn("STR_lower", Str, Str)(ch), fn("STR_upper", Str, Str)(ch)), ch))
        p.oblige("which no keyword character may follow: those given, or else those of the current context", now(c, "ident_chars") == V.str(ch))
        pattern(c, z3.Concat(z3.If(any_case, CASELESS(c.match), fn("RE_ESCAPE", Str, Str)(c.match)), TXTV("($|(?!"), CHARSET(ch), TXTV("))")))
        p.oblige("known as caseless when it is", p.tag(c.self.t) == z3.If(any_case, I(p.cid("CaselessKeyword")), CLS0(c.self.t)))
    kw._ret = lambda c, r: (fresh_element(c, tok + ["name"]), kw_post(c))
    def kept_chars(inc, exc):
        CH = fn("CHARS", Str, SeqV)
        return z3.If(z3.Length(inc) == 0, TXTV(""), fn("JOIN", Str, SeqV, Str)(TXTV(""), fn("SORTED", SeqV, SeqV)(fn("MINUS", SeqV, SeqV, SeqV)(CH(inc), CH(exc)))))
    def char_pattern(inc, exc):
        """the pattern of one character of these, or when there are none, of any but those excluded"""
        return z3.If(z3.Length(inc) == 0, OTHERS(CANON(exc)), CHARSET(kept_chars(inc, exc)))
    def char_post(c):
        p = c.p
        inc, exc = c.a["include"].t, c.a["exclude"].t
        kept, t = kept_chars(inc, exc), char_pattern(inc, exc)
        pattern(c, z3.If(c.a["as_keyword"].t, z3.Concat(TXTV("(?:\\b"), t, TXTV("\\b)")), t))
        p.oblige("of the characters given, without those excluded", now(c, "include") == V.str(kept))
        p.oblige("it knows those excluded", now(c, "exclude") == V.str(CANON(exc)))
    chr_ = cons("tokens.Char.__init__", "Char", [("include", "str"), ("as_keyword", "bool"), ("exclude", "str")], ["C09", "C10", "C21"], char_post, but=tok + ["name"])
    def char_setup(p, c, prev=chr_._setup):
        prev(p, c)
        CH, MINUS_, J = fn("CHARS", Str, SeqV), fn("MINUS", SeqV, SeqV, SeqV), fn("JOIN", Str, SeqV, Str)
        inc, exc = CH(c.a["include"].t), CH(c.a["exclude"].t)
        p.assume(z3.And(z3.Length(inc) == z3.Length(c.a["include"].t), z3.Length(exc) == z3.Length(c.a["exclude"].t)))
        for q in (EMPTY, exc): p.assume(MINUS_(EMPTY, q) == EMPTY)
        p.assume(z3.And(fn("SORTED", SeqV, SeqV)(EMPTY) == EMPTY, J(TXTV(""), EMPTY) == TXTV("")))
    chr_._setup = char_setup
    # ------------------------------------------------------------------ C12-C14: the parser of an expression
    STREAM = fn("STREAMLINED", Int, Int)     # what streamline returns
    WOF, CHECKED = fn("WHITESPACE_OF", Int, V), fn("WHITESPACE_AGREED", V, V)
    PI = "core.Parser.__init__"
    def streamlined(p, recv, args, kw):
        r = STREAM(recv.t)
        p.mark_old(r); p.assume(z3.And(0 < r, r < A0))
        v = VRef(r, PE); p.well_typed(v)
        return v
    prev_str = reg.methods["ParserElement.streamline"]
    reg.methods["ParserElement.streamline"] = lambda p, recv, args, kw: streamlined(p, recv, args, kw) if p.con.qual == PI else prev_str(p, recv, args, kw)
    prev_ws = reg.getattrs.get("ParserElement.whitespace")
    reg.getattrs["ParserElement.whitespace"] = lambda p, obj: VDyn(WOF(obj.t)) if p.con.qual == PI else (prev_ws(p, obj) if prev_ws else None)
    def verify_ws(p, args, b):
        w = CHECKED(p.box(args[0]))
        if p.branch(p.fresh(Bool, "ambiguous")): p.raise_("MoLogsExcept")
        p.assume(z3.Or(V.is_none(w), z3.And(V.is_ref(w), 0 < V.rval(w), V.rval(w) < A0)))
        p.mark_old(V.rval(w))
        return VDyn(w, ("opt", ("ref", "Whitespace")))
    reg.assumed["core._verify_whitespace"] = Contract("core._verify_whitespace", [], None, [], call=verify_ws, note="the one whitespace the parts agree on, or none; refuses parts that do not agree")
    reg.globals["whitespaces.STANDARD_WHITESPACE"] = "ref:Whitespace"
    def enter(p, recv, args, kw):
        p.x.used_contracts.add("whitespaces.Whitespace.__enter__")
        log = p.frame0.locals["$entered"]
        p.list_append(log, VDyn(V.ref(recv.t)))
        return p.alloc(ci("Whitespace"))
    def leave(p, recv, args, kw):
        p.x.used_contracts.add("whitespaces.Whitespace.__exit__")
        log = p.frame0.locals["$entered"]
        p.list_append(log, VDyn(V.ref(-recv.t)))
        return NONE
    for nm, f in (("__enter__", enter), ("__exit__", leave)):
        prev_m = reg.methods.get("Whitespace." + nm)
        reg.methods["Whitespace." + nm] = (lambda prev_m, f: lambda p, recv, args, kw: f(p, recv, args, kw) if p.con.qual == PI else (prev_m(p, recv, args, kw) if prev_m else None))(prev_m, f)
    def parser_post(c):
        p = c.p; s = c.self.t
        el = p.getattr_(c.self, "element")
        given_ = STREAM(c.a["element"].t)
        p.oblige("its element is a group made here", z3.And(el.t >= A0, p.tag(el.t) == I(p.cid("Group"))))
        p.oblige("of what the expression simplifies to", p.box(p.getattr_(VRef(el.t, ci("Group")), "expr")) == V.ref(given_))
        p.oblige("which has no name and no actions", z3.And(p.box(p.getattr_(el, "token_name")) == V.str(z3.StringVal("")), z3.Length(p.seq(p.rd("parse_action", el.t, Int))) == 0))
        p.oblige("it is named exactly when the expression is", p.rd("named", s, Bool) == (z3.Length(z3.Function("fld_token_name", Int, Str)(given_)) > 0))
        w = CHECKED(WOF(given_))
        own_w = p.rd("whitespace", s, Int)
        p.oblige("it skips the whitespace its parts agree on, or else the current one", own_w == z3.If(V.is_none(w), CUR0, V.rval(w)))
        p.oblige("the group is made in that context, which is left again", p.seq(p.frame0.locals["$entered"].t) == z3.Concat(V1(V.ref(own_w)), V1(V.ref(-own_w))))
    pi = Contract(PI, ["C12", "C13", "C14", "C20"], "Parser", [("element", "ref:ParserElement")], writes={"*": mine})
    CONS.add(PI)
    pi._ret = lambda c, r: parser_post(c)
    pi._exc = lambda c, e: None
    def pi_setup(p, c):
        q = g(p, "CURRENT"); p.assume(z3.And(q > 0, q < A0))
    pi._setup = pi_setup
    pi.ghost = lambda c, p: {"$entered": p.new_list(EMPTY, elem=("dyn",))}
    add(pi)
    # finalize: that parser, and nothing remembered of an earlier one
    FQ = "core.ParserElement.finalize"
    prev_p = reg.constructors.get("Parser")
    def new_parser(p, ci_, args, kw):
        if p.con.qual != FQ: return prev_p(p, ci_, args, kw) if prev_p else None
        args = list(args) + [v for k, v in kw.items() if k == "element"]
        if len(args) != 1 or set(kw) - {"element"}: raise Unsupported("options of Parser")
        r = p.alloc(ci_)
        p.frame0.locals["$made"].d[key(r.t)] = ("Parser", [p.box(args[0])], {})
        p.x.used_contracts.add(PI)
        if p.branch(p.fresh(Bool, "refused")): p.raise_("MoLogsExcept")
        return r
    reg.constructors["Parser"] = new_parser
    def final_ret(c, r):
        p = c.p; r = p.resolve(r)
        m = shape(p, V.ref(r.t)) if isinstance(r, VRef) else None
        if m is None or m[0] != "Parser": p.fail("returns a parser made for this call", repr(m)); return
        p.oblige("of this expression", m[1][0] == V.ref(c.self.t))
    fc = Contract(FQ, ["C12", "C13", "C14"], "ParserElement", [], ret=final_ret, exc=lambda c, e: None, call=reg.assumed[FQ]._call)
    fc.ghost = lambda c, p: {"$made": Made()}
    del reg.assumed[FQ]
    add(fc)
    # ------------------------------------------------------------------ C13, C14: what is passed on to another method
    FINAL = fn("FINALIZED", Int, Int)
    DEL = {}
    RESULT = fn("RESULT_OF", Int, Str, SeqV, V)      # receiver, method, arguments in the order of the parameters
    def packed(p, vals):
        q = EMPTY
        for v in vals: q = z3.Concat(q, V1(p.box(v)))
        return z3.simplify(q)
    def passed(method):
        prev = reg.methods.get("Parser." + method)
        def f(p, recv, args, kw):
            if DEL.get(p.con.qual) != method: return prev(p, recv, args, kw) if prev else None
            fi = ci("Parser").lookup(method)[1]
            b = p.bind(fi, [recv] + list(args), kw)
            return VDyn(RESULT(recv.t, z3.StringVal(method), packed(p, list(b.values())[1:])))
        reg.methods["Parser." + method] = f
    def delegate(qual, cls, method, params, props, to=lambda c: c.self.t):
        DEL[qual] = method
        con = Contract(qual, props, cls, params)
        con._ret = lambda c, r: c.p.oblige(f"what {method} gives for the same text and options", c.p.box(r) == RESULT(to(c), z3.StringVal(method), packed(c.p, list(c.a.values()))))
        add(con)
    its = lambda c: FINAL(c.self.t)
    S_, M_, O_, K_ = ("string", "str"), ("max", "int"), ("overlap", "bool"), ("seps", "bool")
    for mth in ("_split", "_transformString", "_search_string", "scan_string", "transform_string", "search_string", "split"): passed(mth)
    delegate("core.Parser.split", "Parser", "_split", [S_, M_, K_], ["C14"])
    delegate("core.Parser.transform_string", "Parser", "_transformString", [S_], ["C14"])
    delegate("core.Parser.search_string", "Parser", "_search_string", [S_, M_], ["C13"])
    delegate("core.ParserElement.scan_string", "ParserElement", "scan_string", [S_, M_, O_], ["C13"], its)
    delegate("core.ParserElement.transform_string", "ParserElement", "transform_string", [S_], ["C14"], its)
    delegate("core.ParserElement.search_string", "ParserElement", "search_string", [S_, M_], ["C13"], its)
    delegate("core.ParserElement.split", "ParserElement", "split", [S_, M_, K_], ["C14"], its)
    # ------------------------------------------------------------------ C24, C21: expressions defined later
    FW = ci("Forward")
    def mine_list(c, n): return lambda c_, r: r == fld(c_, n)
    def fcopy_ret(c, r):
        p = c.p; r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns an expression", repr(r)); return
        p.oblige("returns a new forward", z3.And(r.t >= A0, p.tag(r.t) == p.tag(c.self.t)))
        r = VRef(r.t, FW)
        p.oblige("which stands for the original", z3.And(p.box(p.getattr_(r, "expr")) == V.ref(c.self.t), p.box(p.getattr_(r, "origin")) == V.ref(c.self.t)))
        p.oblige("whose actions are not run twice", z3.And(z3.Length(p.seq(p.rd("parse_action", r.t, Int))) == 0, p.rd("parse_action", r.t, Int) >= A0))
        for nm in ("parser_name", "token_name", "parser_config"): p.oblige("with the " + nm.replace("_", " ") + " of the original", p.box(p.getattr_(r, nm)) == p.box(p.getattr_(c.self, nm)))
        p.oblige("used by nothing yet", z3.And(p.rd("used_by", r.t, Int) >= A0, z3.Length(p.seq(p.rd("used_by", r.t, Int))) == 0))
        p.oblige("its length not measured", p.box(p.getattr_(r, "min_length_cache")) == V.int(-1))
    fcc = Contract("enhancement.Forward.copy", ["C21", "C24"], "Forward", [], ret=fcopy_ret)
    fcc.inline = {"core.ParserElement.copy"}
    add(fcc)
    add(Contract("enhancement.Forward.track", ["C21", "C24"], "Forward", [("expr", "ref:ParserElement")], writes={"$seq": lambda c, r: r == fld(c, "used_by")},
                 ret=lambda c, r: c.p.oblige("remembers what uses it", c.p.seq(fld(c, "used_by")) == z3.Concat(seq_of(c, "used_by"), V1(V.ref(c.a["expr"].t))))))
    def named_ret(c, r):
        p = c.p; r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns an expression", repr(r)); return
        p.oblige("a copy of this forward", z3.And(r.t >= A0, p.sub(p.tag(r.t), FW), p.box(p.getattr_(VRef(r.t, FW), "expr")) == V.ref(c.self.t)))
        p.oblige("with the name given", p.box(p.getattr_(r, "token_name")) == V.str(c.name))
    fcl = Contract("enhancement.Forward.__call__", ["C16", "C21"], "Forward", [("name", "str")], ret=named_ret)
    fcl.inline = {"enhancement.Forward.copy", "core.ParserElement.copy"}
    prev_fc = reg.methods.get("Forward.copy")
    reg.methods["Forward.copy"] = lambda p, recv, args, kw: p.call_func(VFunc(FW.lookup("copy")[1], None, recv), args, kw) if p.con is fcl else (prev_fc(p, recv, args, kw) if prev_fc else None)
    add(fcl)
    reg.builders = {"operand": operand, "iskind": iskind, "NORMF": NORMF, "STREAM": STREAM, "CUR0": CUR0, "streamlined": streamlined, "CONS": CONS, "OPS": OPS, "gate_c": gate_c, "norm": norm, "cons": cons, "pattern": pattern, "now": now, "fresh_element": fresh_element,
                    "Made": Made, "key": key, "shape": shape, "flat": flat, "operator": operator, "white": white, "char_pattern": char_pattern, "not_pattern": not_text, "one": one, "its_expr": its_expr, "stands": stands, "ender": ender}
