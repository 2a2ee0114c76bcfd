"""contracts of the constructors of the remaining terminals, and of the patterns kept by look-aheads and repetitions"""
from .base import *
from ..exec import Unsupported

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog, B = reg.prog, reg.builders
    ci = lambda n: prog.classes[n]
    S = z3.StringVal
    cons, pattern, now, char_pattern, not_text, CUR0 = B["cons"], B["pattern"], B["now"], B["char_pattern"], B["not_pattern"], B["CUR0"]
    CONS = B["CONS"]
    MAXI = 9223372036854775807
    CANON = reg.CANON
    NOWS = z3.Const("glob_whitespaces.NO_WHITESPACE", Int)
    tok = ["token", "name"]
    bare = lambda c: None
    P = ["C09", "C21"]
    # ------------------------------------------------------------------ what the patterns are made of
    WITH = set()                                           # contracts in which expressions are built to get at their patterns
    def pats(p): return p.frame0.locals["$pats"].d         # expression made here -> (how it binds, its pattern)
    def top(p):
        q = p.frame0.locals["$context"].d
        return q[-1] if q else CUR0
    class Ghost(B["Made"]):
        pass
    def ghosts(c, p):
        a, b = B["Made"](), B["Made"]()
        b.d = []
        return {"$pats": a, "$context": b}
    key = B["key"]
    def note(p, cls, prec, t):
        r = p.alloc(ci(cls))
        pats(p)[key(r.t)] = (prec, t)
        return r
    def gate(name, f, table):
        prev = table.get(name)
        table[name] = lambda p, *a: f(p, *a) if p.con.qual in WITH else (prev(p, *a) if prev else None)
    def args_of(p, cls, args, kw, names, defaults):
        b = dict(zip(names, defaults)); b.update(dict(zip(names, args))); b.update(kw)
        if set(b) - set(names): raise Unsupported("arguments of " + cls)
        return [p.resolve(b[n]) if not isinstance(b[n], str) else VStr(S(b[n])) for n in names]
    def new_char(p, ci_, args, kw):
        inc, as_kw, exc = args_of(p, "Char", args, kw, ["include", "as_keyword", "exclude"], ["", VBool(FALSE), ""])
        t = char_pattern(p.native(inc, ("str",)), p.native(exc, ("str",)))
        p.x.used_contracts.add("tokens.Char.__init__")
        return note(p, "Char", "*", z3.If(as_kw.t, z3.Concat(S("(?:\\b"), t, S("\\b)")), t))
    gate("Char", new_char, reg.constructors)
    def new_not(p, ci_, args, kw):
        ch, lo, hi, ex = args_of(p, "CharsNotIn", args, kw, ["not_chars", "min", "max", "exact"], ["", VInt(I(1)), VInt(I(0)), VInt(I(0))])
        given = ex.t > 0
        p.x.used_contracts.add("tokens.CharsNotIn.__init__")
        return note(p, "CharsNotIn", "+", not_text(p.native(ch, ("str",)), z3.If(given, ex.t, lo.t), z3.If(given, ex.t, z3.If(hi.t > 0, hi.t, MAXI))))
    gate("CharsNotIn", new_not, reg.constructors)
    ORDER = {"|": 0, "+": 1, "*": 2}
    def iso(m, need): return m[1] if ORDER[m[0]] >= ORDER[need] else z3.Concat(S("(?:"), m[1], S(")"))
    def get(p, v):
        v = p.resolve(v)
        m = pats(p).get(key(v.t)) if isinstance(v, VRef) else None
        if m is None: raise Unsupported("pattern of an expression not made here")
        return m
    d = lambda t: fn("TEXT", V, Str)(V.int(t))
    def times(lo, hi):
        return z3.If(hi == MAXI, z3.If(lo == 0, S("*"), z3.If(lo == 1, S("+"), z3.Concat(S("{"), d(lo), S(",}")))),
                     z3.If(lo == hi, z3.If(lo == 1, S(""), z3.Concat(S("{"), d(lo), S("}"))), z3.Concat(S("{"), d(lo), S(","), d(hi), S("}"))))
    def item(p, recv, args, kw):
        """expr[lo:hi]: contracts of __getitem__, __mul__ and Many.__regex__"""
        ix = args[0]
        if not hasattr(ix, "bounds"): raise Unsupported("how often")
        m = get(p, recv)
        def num(v, none):
            v = VNone() if v is None else p.resolve(v)
            if isinstance(v, VNone): return none
            return z3.If(p.int_(v) == 0, none, p.int_(v))
        lo, hi = num(ix.bounds[0], I(0)), num(ix.bounds[1], I(MAXI))
        for q in ("core.ParserElement.__getitem__", "core.ParserElement.__mul__", "enhancement.Many.__regex__"): p.x.used_contracts.add(q)
        p.oblige("as often as can be", z3.And(0 <= lo, lo <= hi))
        return note(p, "Many", "+", z3.Concat(iso(m, "*"), times(lo, hi)))
    gate("ParserElement.__getitem__", item, reg.methods)
    def plus(p, recv, args, kw):
        a, b = get(p, recv), get(p, args[0])
        for q in ("core.ParserElement.__add__", "expressions.And.__regex__"): p.x.used_contracts.add(q)
        t = z3.Concat(iso(a, "+"), iso(b, "+"))
        return note(p, "And", "+", z3.If(top(p) == NOWS, t, fn("WITH_WHITESPACE", Int, Str, Str)(top(p), t)))
    gate("ParserElement.__add__", plus, reg.methods)
    gate("ParserElement.__invert__", lambda p, recv, args, kw: note(p, "NotAny", "*", z3.Concat(S("(?!"), get(p, recv)[1], S(")"))), reg.methods)
    gate("ParserElement.__regex__", lambda p, recv, args, kw: VTup([VStr(S(get(p, recv)[0])), VStr(get(p, recv)[1])]), reg.methods)
    def enter(p, recv, args, kw):
        p.x.used_contracts.add("whitespaces.Whitespace.__enter__")
        p.frame0.locals["$context"].d.append(recv.t)
        return p.alloc(ci("Whitespace"))
    def leave(p, recv, args, kw):
        p.x.used_contracts.add("whitespaces.Whitespace.__exit__")
        q = p.frame0.locals["$context"].d
        if not q or not p.entails(q.pop() == recv.t): p.fail("leaves the context entered last", str(q))
        return NONE
    gate("Whitespace.__enter__", enter, reg.methods); gate("Whitespace.__exit__", leave, reg.methods)
    def new_white(p, ci_, args, kw):
        r = p.alloc(ci_)
        put_fresh(p, r, "white_chars", p.native(p.resolve(args[0]), ("str",)), Str)
        return r
    gate("Whitespace", new_white, reg.constructors)
    def built(con):
        WITH.add(con.qual)
        con.ghost = ghosts
        con.texts = True
        return con
    # ------------------------------------------------------------------ C09: anchors
    named = lambda c, n: c.p.oblige("known by its kind", c.p.rd("parser_name", c.self.t, V) == V.str(S(n) if n in ("NoMatch", "AnyChar") else fn("CLSNAME", Int, Str)(z3.Function("CLS", Int, Int)(c.self.t))))
    for n in ("LineStart", "StringStart", "NoMatch", "AnyChar"):
        cons(f"tokens.{n}.__init__", n, [], P, lambda c, n=n: named(c, n), but=tok)
    built(cons("tokens.LineEnd.__init__", "LineEnd", [], P, lambda c: (named(c, "LineEnd"), pattern(c, S("\\r?(\\n|$)"))), but=tok))
    cons("tokens.StringEnd.__init__", "StringEnd", [], P, lambda c: (named(c, "StringEnd"), pattern(c, S("(?:\\r?\\n)*$"))), but=tok)
    words = lambda c: c.a["word_chars"].t
    known = lambda c, w: c.p.oblige("of the characters of words", now(c, "word_chars") == V.str(CANON(w)))
    NOEX = S("")
    built(cons("tokens.WordStart.__init__", "WordStart", [("word_chars", "str")], P,
               lambda c: (known(c, words(c)), pattern(c, z3.Concat(S("(?:(?<="), not_text(words(c), I(1), I(1)), S(")|^)(?="), char_pattern(words(c), NOEX), S(")")))), but=tok))
    def end_chars(c):
        i = c.a["word_chars"]
        return i.t if not isinstance(i, VDyn) else z3.If(V.is_none(i.t), z3.Function("fld_keyword_chars", Int, Str)(CUR0), V.sval(i.t))
    built(cons("tokens.WordEnd.__init__", "WordEnd", [("word_chars", "opt:str")], P + ["C20"],
               lambda c: (known(c, end_chars(c)), pattern(c, z3.Concat(S("(?<="), char_pattern(end_chars(c), NOEX), S(")((?!"), char_pattern(end_chars(c), NOEX), S(")|$)")))), but=tok))
    # ------------------------------------------------------------------ C10: words
    def word_post(c):
        p = c.p
        ini, exc = c.a["init_chars"].t, c.a["exclude"].t
        body = c.a["body_chars"]; mx = c.a["max"]
        bnone = V.is_none(body.t) if isinstance(body, VDyn) else FALSE
        bt = V.sval(body.t) if isinstance(body, VDyn) else body.t
        mnone = V.is_none(mx.t) if isinstance(mx, VDyn) else FALSE
        mt = V.ival(mx.t) if isinstance(mx, VDyn) else mx.t
        lo = z3.If(c.exact != 0, c.exact, c.min)
        hi = z3.If(c.exact != 0, c.exact, z3.If(mnone, I(MAXI), mt))
        rest = z3.If(hi == MAXI, I(MAXI), hi - 1)
        first, more = char_pattern(ini, exc), char_pattern(bt, exc)
        t = z3.If(z3.Or(bnone, bt == ini), z3.Concat(first, times(lo, hi)), z3.If(hi == 1, first, z3.Concat(first, more, times(lo - 1, rest))))
        t = z3.If(c.a["as_keyword"].t, z3.Concat(S("\\b"), t, S("\\b")), t)
        pattern(c, t, rx=V.ref(p.rd("regex", c.self.t, Int)))
        p.oblige("it knows the least length", now(c, "min") == V.int(lo))
        p.oblige("it knows the first characters", now(c, "init_chars") == V.str(ini))
    w = built(cons("tokens.Word.__init__", "Word", [("init_chars", "str"), ("body_chars", "opt:str"), ("min", "int"), ("max", "opt:int"), ("exact", "int"), ("as_keyword", "bool"), ("exclude", "str")], ["C09", "C10", "C21"], word_post, but=["token"],
                   exc=lambda c, e: c.p.oblige("refuses only a minimum below one", z3.If(c.exact != 0, c.exact, c.min) < 1)))
    def word_pre(c):
        mx = c.a["max"]
        if not isinstance(mx, VDyn): return [("limits that can be met", mx.t >= c.min)]
        return [("limits that can be met", z3.Or(V.is_none(mx.t), z3.And(V.ival(mx.t) >= c.min, V.ival(mx.t) <= MAXI))), ("a length", z3.And(c.exact < MAXI, c.min < MAXI))]
    w._pre = word_pre
    # ------------------------------------------------------------------ patterns kept: negative look-ahead, and what stops a repetition
    ON, OK, PAT, NORMF = B["PATTERNED"], B["OK"], B["PAT"], B["NORMF"]
    RXP = fn("RX_pattern", Int, Str)
    mine = lambda c, r: r == c.self.t
    def kept(c, e):
        """its pattern decides that e does not match here, when e has one; otherwise it has none"""
        r = c.p.rd("regex", c.self.t, V)
        c.p.oblige("the pattern of not matching it, when it has one", z3.Implies(OK(e), z3.And(V.is_ref(r), RXP(V.rval(r)) == z3.Concat(S("(?!"), PAT(e), S(")")))))
        c.p.oblige("otherwise none", z3.Implies(z3.Not(OK(e)), V.is_none(r)))
    ON.add("enhancement.NotAny._set_regex")
    con = Contract("enhancement.NotAny._set_regex", ["C07"], "NotAny", [], writes={"regex": mine}, ret=lambda c, r: kept(c, z3.Function("fld_expr", Int, Int)(c.self.t)))
    con.texts = True
    add(con)
    ON.add("enhancement.NotAny.__init__")
    con = cons("enhancement.NotAny.__init__", "NotAny", [("expr", B["one"])], ["C07", "C21"], lambda c: (B["its_expr"](c), kept(c, V.rval(B["stands"](c)))))
    con.inline = set(con.inline or ()) | {"enhancement.NotAny._set_regex"}
    con.texts = True
    def stop_post(c, r):
        p = c.p
        p.oblige("returns the repetition itself", p.box(r) == V.ref(c.self.t))
        w = c.a["ender"]
        end = now(c, "end")
        was = z3.Function("fld_cfg_end", Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t))
        if isinstance(w, VNone): p.oblige("nothing new stops it", end == was); return
        ws = V.rval(z3.Function("fld_cfg_whitespace", Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t)))
        has = z3.Length(w.t) > 0 if isinstance(w, VStr) else TRUE
        e = V.rval(NORMF(ws, p.box(w)))
        p.oblige("the expression given stops it", z3.Implies(has, z3.And(V.is_ref(end), RXP(V.rval(end)) == PAT(e), OK(e))))
        p.oblige("an empty text does not", z3.Implies(z3.Not(has), end == was))
    def stop_exc(c, e):
        w = c.a["ender"]
        ws = V.rval(z3.Function("fld_cfg_whitespace", Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t)))
        c.p.oblige("refuses only what has no pattern", z3.Not(OK(V.rval(NORMF(ws, c.p.box(w))))))
    ON.add("enhancement.Many.stop_on"); CONS.add("enhancement.Many.stop_on")
    con = Contract("enhancement.Many.stop_on", ["C05", "C20"], "Many", [("ender", B["ender"])], ret=stop_post, exc=stop_exc, writes={"parser_config": mine})
    con.texts = True
    add(con)
    def no_case(c):
        c.p.oblige("matches the text given", now(c, "match") == V.str(c.match))
    LOW, UP = fn("STR_lower", Str, Str), fn("STR_upper", Str, Str)
    def ck_post(c):
        no_case(c)
        i = c.a["ident_chars"]
        ch = i.t if not isinstance(i, VDyn) else z3.If(V.is_none(i.t), z3.Function("fld_keyword_chars", Int, Str)(CUR0), V.sval(i.t))
        ch = CANON(z3.Concat(LOW(ch), UP(ch)))
        c.p.oblige("which no keyword character may follow, in either case", now(c, "ident_chars") == V.str(ch))
        pattern(c, z3.Concat(fn("REGEX_CASELESS", Str, Str)(c.match), S("($|(?!"), fn("REGEX_RANGE", Str, Str)(ch), S("))")))
    cons("tokens.CaselessKeyword.__init__", "CaselessKeyword", [("match", "str"), ("ident_chars", "opt:str")], ["C09", "C10", "C20", "C21"], ck_post, but=tok)
    # ------------------------------------------------------------------ C25: lists with separators
    DQ = "infix.delimited_list"
    SHAPES = {DQ}
    def made(p): return p.frame0.locals["$shapes"].d
    def put(p, cls, *items, **extra):
        r = p.alloc(ci(cls))
        made(p)[key(r.t)] = (cls, [p.box(i) for i in items], extra)
        return r
    def look(p, b):
        """what a value stands for: class and operands, when it was made here"""
        b = z3.simplify(b)
        return made(p).get(key(z3.simplify(V.rval(b))))
    def gate2(name, f, table):
        prev = table.get(name)
        table[name] = lambda p, *a: f(p, *a) if p.con.qual in SHAPES else (prev(p, *a) if prev else None)
    def by(cls, extra=()):
        def f(p, ci_, args, kw):
            args = list(args)
            names = ["expr"] + list(extra)
            b = dict(zip(names, args)); b.update(kw)
            if set(b) - set(names) or "expr" not in b: raise Unsupported("options of " + cls)
            p.x.used_contracts.add(f"enhancement.{cls}.__init__")
            return put(p, cls, p.resolve(b["expr"]), **{n: p.box(p.resolve(b[n])) for n in extra if n in b})
        return f
    for cls, extra in (("ZeroOrMore", ["whitespace"]), ("OneOrMore", ["whitespace"]), ("Suppress", []), ("Combine", []), ("Group", []), ("Optional", ["whitespace"])):
        gate2(cls, by(cls, extra), reg.constructors)
    def and_(p, a, b):
        p.x.used_contracts.add("core.ParserElement.__add__")
        return put(p, "And", a, b)
    gate2("ParserElement.__add__", lambda p, recv, args, kw: and_(p, recv, p.resolve(args[0])), reg.methods)
    gate2("ParserElement.__radd__", lambda p, recv, args, kw: and_(p, p.resolve(args[0]), recv), reg.methods)
    def list_post(c, r):
        p = c.p; r = p.resolve(r)
        combine = z3.simplify(c.a["combine"].t)
        m = look(p, p.box(r)) if isinstance(r, VRef) else None
        e, s = p.box(c.a["expr"]), p.box(c.a["separator"])
        def want(ok, what):
            if not ok: p.fail(what, repr(made(p))[:300])
            return ok
        joined = p.truth(c.a["combine"])
        if joined:
            if not want(m is not None and m[0] == "Combine", "all in one text"): return
            m = look(p, m[1][0])
        if not want(m is not None and m[0] == "And", "one item, then more"): return
        p.oblige("begins with an item", m[1][0] == e)
        z = look(p, m[1][1])
        if not want(z is not None and z[0] == "ZeroOrMore", "any number of more items"): return
        p.oblige("in the current whitespace", z[2].get("whitespace", V.ref(CUR0)) == V.ref(CUR0))
        m = look(p, z[1][0])
        if not want(m is not None and m[0] == "And", "each a separator and an item"): return
        p.oblige("the item after the separator", m[1][1] == e)
        sep = m[1][0]
        if not joined:
            x = look(p, sep)
            if not want(x is not None and x[0] == "Suppress", "separators are left out"): return
            sep = x[1][0]
        p.oblige("the separator given", sep == s)
    con = Contract(DQ, ["C25"], None, [("expr", B["operand"]("expr", ("element",))), ("separator", B["operand"]("separator", ("element", "text"))), ("combine", "bool")], ret=list_post)
    con.ghost = lambda c, p: {"$shapes": B["Made"]()}
    con._setup = lambda p, c: p.assume(z3.And(CUR0 > 0, CUR0 < A0))
    add(con)
    # ------------------------------------------------------------------ C26: a regular expression is the pattern given
    RQ = "regex.Regex.__init__"
    PEND, PEXP, READ = fn("PATTERN_READ_TO", Str, Int), fn("EXPRESSION_OF_PATTERN", Str, Int), fn("PATTERN_CAN_BE_READ", Str, Bool)
    def regex_post(c):
        p = c.p
        pattern(c, c.pattern, rx=V.ref(p.rd("regex", c.self.t, Int)))
        p.oblige("it knows whether all of the pattern was understood", p.rd("parsed_all", c.self.t, V) == V.bool(PEND(c.pattern) == z3.Length(c.pattern)))
        p.oblige("it holds what the pattern was read as", p.box(p.getattr_(c.self, "expr")) == V.ref(PEXP(c.pattern)))
    con = cons(RQ, "Regex", [("pattern", "str")], ["C26", "C21"], regex_post, exc=lambda c, e: c.p.oblige("refuses only a pattern it cannot read", z3.Not(READ(c.pattern))), but=["token"])
    con.texts = True
    reg.globals["regex.regex"] = "o:pattern_reader"
    prev_opq = reg.call_opaque
    def call_opaque(p, f, args, kw):
        if f.what == "pattern_reader.parse_string":
            t = p.native(p.resolve(args[0]), ("str",))
            p.oblige("reads the pattern given", t == p.ctx.pattern)
            if not p.branch(READ(t)): p.raise_("ParseException")
            return VOpaque("pattern_read")
        if f.what == "pattern_read.value":
            e = PEXP(p.ctx.pattern)
            p.mark_old(e); p.assume(z3.And(0 < e, e < A0))
            v = VRef(e, ci("ParserElement")); p.well_typed(v)
            return v
        return prev_opq(p, f, args, kw)
    reg.call_opaque = call_opaque
    prev_attr = reg.opaque_attr
    reg.opaque_attr = lambda p, obj, name: VInt(PEND(p.ctx.pattern)) if obj.what == "pattern_read" and name == "end" else prev_attr(p, obj, name)
    # ------------------------------------------------------------------ C12, C20: the whitespace an expression asks for
    WOF = fn("WHITESPACE_OF", Int, V)
    WQ = {}
    prev_wsp = reg.getattrs.get("ParserElement.whitespace")
    def part_ws(p, obj):
        if p.con.qual not in WQ: return prev_wsp(p, obj) if prev_wsp else None
        return VDyn(WOF(obj.t))
    reg.getattrs["ParserElement.whitespace"] = part_ws
    E1 = lambda c: z3.Function("fld_expr", Int, Int)(c.self.t)
    PARTS = lambda c: seq0(z3.Function("fld_exprs", Int, Int)(c.self.t))
    ALL = Rec("WHITESPACES", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
              lambda c, st: [(st[0] >= z3.Length(PARTS(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(WOF(V.rval(PARTS(c)[st[0]]))))))], fixed=lambda c: [PARTS(c)])
    cfgw = lambda c: z3.Function("fld_cfg_whitespace", Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t))
    def asks(qual, cls, post, recs=(), **kw):
        WQ[qual] = True
        con = Contract(qual, ["C12", "C20"], cls, [], ret=post, recs=list(recs), **kw)
        add(con)
    nothing = lambda c, r: c.p.oblige("asks for none", V.is_none(c.p.box(r)))
    asks("core.ParserElement.whitespace", "ParserElement", nothing)
    asks("regex.Regex.whitespace", "Regex", nothing)
    asks("enhancement.ParseEnhancement.whitespace", "ParseEnhancement", lambda c, r: c.p.oblige("asks for what its expression asks for", c.p.box(r) == WOF(E1(c))))
    for m, k in (("enhancement", "Many"), ("expressions", "And")):
        asks(f"{m}.{k}.whitespace", k, lambda c, r: c.p.oblige("asks for the whitespace it skips", c.p.box(r) == cfgw(c)))
    for k in ("Or", "MatchFirst", "MatchAll"):
        asks(f"expressions.{k}.whitespace", k, lambda c, r: c.p.oblige("asks for what its alternatives ask for, in order", c.p.to_seq(c.p.resolve(r))[0] == ALL.value(c, 0)), recs=[ALL])
    busy = lambda c: z3.Function("fld___in_whitespace", Int, Bool)(c.self.t)
    held = lambda c: V.rval(z3.Function("fld_expr", Int, V)(c.self.t))
    def fw_post(c, r):
        p = c.p
        p.oblige("asks for what it stands for asks for, unless that is being asked", c.p.box(r) == z3.If(busy(c), V.none, WOF(held(c))))
        p.oblige("ready to be asked again", p.rd("__in_whitespace", c.self.t, Bool) == busy(c))
    asks("enhancement.Forward.whitespace", "Forward", fw_post, pre=lambda c: [("it is defined", V.is_ref(z3.Function("fld_expr", Int, V)(c.self.t)))], writes={"__in_whitespace": mine})
    # ------------------------------------------------------------------ C24: an expression defined later, or now
    FQ = "enhancement.Forward.__init__"
    prev_sh = reg.methods.get("ParserElement.__lshift__")
    def define(p, recv, args, kw):
        if p.con.qual != FQ: return prev_sh(p, recv, args, kw) if prev_sh else None
        p.list_append(p.frame0.locals["$defined"], p.resolve(args[0]))
        p.x.used_contracts.add("enhancement.Forward.__lshift__")
        if p.branch(p.fresh(Bool, "refused")): p.raise_("RecursiveGrammarException")
        return recv
    reg.methods["ParserElement.__lshift__"] = define
    def new_forward(c):
        p = c.p
        e = c.a["expr"]
        has = isinstance(e, VRef) or (isinstance(e, VStr) and z3.Length(e.t) > 0)
        said = p.seq(p.frame0.locals["$defined"].t)
        x = NORMF(CUR0, p.box(e))
        p.oblige("defined as what is given, once, or not at all", said == (EMPTY if isinstance(e, VNone) else V1(V.ref(V.rval(x))) if isinstance(e, VRef) else z3.If(z3.Length(e.t) > 0, V1(V.ref(V.rval(x))), EMPTY)))
        p.oblige("used by nothing yet", z3.And(p.rd("used_by", c.self.t, Int) >= A0, z3.Length(p.seq(p.rd("used_by", c.self.t, Int))) == 0, p.rd("used_by", c.self.t, Int) != p.rd("parse_action", c.self.t, Int)))
        p.oblige("no copy of another", p.box(p.getattr_(c.self, "origin")) == V.none)
        p.oblige("its text and pattern are not being asked", z3.And(V.is_none(p.box(p.getattr_(c.self, "_str"))), V.is_none(p.box(p.getattr_(c.self, "_in_regex"))), V.is_none(p.box(p.getattr_(c.self, "_in_expecting"))), z3.Not(p.rd("__in_whitespace", c.self.t, Bool))))
    con = cons(FQ, "Forward", [("expr", B["operand"]("expr", ("none", "element", "text")))], ["C24", "C21"], new_forward, exc=lambda c, e: c.p.oblige("refuses only a definition", z3.Length(c.p.seq(c.p.frame0.locals["$defined"].t)) == 1))
    con.ghost = lambda c, p: {"$defined": p.new_list(EMPTY, elem=("dyn",))}
    # ------------------------------------------------------------------ C15: what a result is worth
    VALUE, VISIBLE = fn("VALUE_OF", Int, V), fn("VISIBLE", Int, SeqV)
    PRC = ci("ParseResults")
    reg.ifaces["ParseResults.value"] = Iface("ParseResults.value", lambda p, a: VDyn(VALUE(p.resolve(a[0]).t)), "ParseResults", "value")
    vis = lambda c: VISIBLE(c.self.t)
    def worth(c, v): return z3.If(z3.And(V.is_ref(v), c.p.sub(CLS0(V.rval(v)), PRC)), VALUE(V.rval(v)), v)
    WORTH = Rec("VALUES", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
                lambda c, st: [(st[0] >= z3.Length(vis(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(worth(c, vis(c)[st[0]])))))], fixed=lambda c: [vis(c)])
    def value_post(c, r):
        p = c.p; b = p.box(r); q = WORTH.value(c, 0)
        p.oblige("nothing where there is nothing", z3.Implies(z3.Length(q) == 0, V.is_none(b)))
        p.oblige("what is alone is itself", z3.Implies(z3.Length(q) == 1, b == q[0]))
        p.oblige("otherwise the list of all", z3.Implies(z3.Length(q) > 1, z3.And(V.is_ref(b), p.seq(V.rval(b)) == q)))
    add(Contract("results.ParseResults.value", ["C15"], "ParseResults", [], ret=value_post, recs=[WORTH]))
