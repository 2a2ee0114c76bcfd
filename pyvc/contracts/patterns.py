"""contracts of the patterns built from characters (C10): what a set of characters, and a text whatever its letter case, is compiled to"""
from .base import *
from ..exec import Cand, Unsupported

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    n_ = z3.Length
    S = z3.StringVal
    code = z3.StrToCode
    ESC = fn("ESCAPED", Str, Str)                          # the table of escapes: ESC(c) denotes c, alone and between brackets
    MEMBER, WELL = fn("BETWEEN_BRACKETS", SeqV, Int, Bool), fn("WELL_FORMED", SeqV, Bool)
    JOIN, SORTED, CHARS = fn("JOIN", Str, SeqV, Str), fn("SORTED", SeqV, SeqV), fn("CHARS", Str, SeqV)
    RANGE, OTHERS = fn("REGEX_RANGE", Str, Str), fn("REGEX_OTHERS", Str, Str)      # the pattern of these characters, of all but these
    Q = "utils.regex_range"
    CH = z3.Const("any_character", Int)                    # the character asked about: any
    sim = z3.simplify
    # ------------------------------------------------------------------ what brackets mean
    def units(q):
        """the parts of a list built by the code, leftmost first: an opaque list, and then what was appended to it"""
        d = q.decl().kind()
        if d == z3.Z3_OP_SEQ_EMPTY: return []
        if d == z3.Z3_OP_SEQ_CONCAT: return [u for x in q.children() for u in units(x)]
        return [q]
    def escaped(u):
        """the character an element of a class stands for"""
        if u.decl().kind() != z3.Z3_OP_SEQ_UNIT: return None
        x = u.arg(0)
        if x.decl().name() != "str": return None
        x = x.arg(0)
        return x.arg(0) if x.decl().name() == "ESCAPED" else None
    def lit(u, *ts): return u.decl().kind() == z3.Z3_OP_SEQ_UNIT and any(sim(u.arg(0)).eq(sim(V.str(S(t)))) for t in ts)
    def brackets(p, q):
        """(is any_character between the brackets, are the brackets well formed)"""
        us = units(q)
        if not us: return FALSE, FALSE
        if lit(us[0], "[", "[^"): m, w = FALSE, TRUE
        elif us[0].decl().kind() == z3.Z3_OP_SEQ_UNIT: return p.fresh(Bool, "malformed"), FALSE
        else: m, w = MEMBER(us[0], CH), WELL(us[0])
        k = 1
        while k < len(us):
            a = escaped(us[k])
            if a is None: return p.fresh(Bool, "malformed"), FALSE
            if k + 2 < len(us) and lit(us[k + 1], "-"):
                b = escaped(us[k + 2])
                if b is None: return p.fresh(Bool, "malformed"), FALSE
                m, w = z3.Or(m, z3.And(code(a) <= CH, CH <= code(b))), z3.And(w, code(a) <= code(b))
                k += 3
            else: m, k = z3.Or(m, CH == code(a)), k + 1
        if not us[0].eq(q): p.assume(z3.And(MEMBER(q, CH) == m, WELL(q) == w))
        return m, w
    s = lambda c: c.a["s"].t
    X = lambda c: SORTED(CHARS(s(c)))                      # its characters, each once, in order
    Y = lambda c: z3.Concat(X(c), V1(V.none))
    one = lambda x: z3.And(V.is_str(x), n_(V.sval(x)) == 1, code(V.sval(x)) >= 0)
    def ordered(p, q, n):
        p.seq_facts.append((q, lambda k: z3.And(z3.Implies(z3.And(0 <= k, k < n), one(q[k])), z3.Implies(z3.And(1 <= k, k < n), z3.And(one(q[k - 1]), code(V.sval(q[k - 1])) < code(V.sval(q[k])))))))
    AMONG = fn("AMONG_FIRST", SeqV, Int, Int, Bool)        # is it one of the first k
    def among(p, q, k): return AMONG(q, k, CH)
    def unfold(p, q, k): p.assume(z3.And(z3.Not(AMONG(q, I(0), CH)), z3.Implies(z3.And(1 <= k, k <= n_(q)), AMONG(q, k, CH) == z3.Or(AMONG(q, k - 1, CH), code(V.sval(q[k - 1])) == CH))))
    def setup(p, c):
        p.assume(z3.And(n_(X(c)) <= n_(s(c)), (n_(X(c)) == 0) == (n_(s(c)) == 0)))
        ordered(p, X(c), n_(X(c))); ordered(p, Y(c), n_(X(c)))
        p.seq_facts.append((Y(c), lambda k: z3.And(z3.Implies(k < n_(X(c)), Y(c)[k] == X(c)[k]), z3.Implies(k == n_(X(c)), Y(c)[k] == V.none))))
        p.assume(CH >= 0)
    def cands(p, mod, entry):
        out = []
        if not {"acc", "prev", "start"} <= set(entry): return out
        c = p.ctx
        first = z3.If(c.a["exclude"].t, S("[^"), S("["))
        has = lambda v: z3.And(V.is_str(v))
        def val(d, n): return d[n]["V"] if "V" in d[n] else (V.str(d[n]["str"]) if "str" in d[n] else None)
        def pos(k): return z3.If(k <= n_(X(c)), k, n_(X(c)))
        def member(p, e, cc):
            acc, k, st, pr = cc["acc"]["seq"], cc["$k"]["int"], val(cc, "start"), val(cc, "prev")
            if st is None or pr is None: return None
            m, w = brackets(p, acc)
            unfold(p, X(c), k); unfold(p, X(c), pos(k))
            pend = z3.If(V.is_str(st), z3.And(code(V.sval(st)) <= CH, CH <= code(V.sval(pr))), z3.And(V.is_str(pr), code(V.sval(pr)) == CH))
            return AMONG(X(c), pos(k), CH) == z3.Or(m, pend)
        def well(p, e, cc): return brackets(p, cc["acc"]["seq"])[1]
        def prev(p, e, cc):
            k, pr = cc["$k"]["int"], val(cc, "prev")
            p.elem_fact(X(c), k - 1); p.elem_fact(Y(c), k); p.elem_fact(X(c), k)
            return pr == z3.If(z3.Or(k <= 0, k > n_(X(c))), V.none, X(c)[k - 1])
        def started(p, e, cc):
            st, pr = val(cc, "start"), val(cc, "prev")
            return z3.Or(V.is_none(st), z3.And(V.is_str(pr), one(st), code(V.sval(st)) < code(V.sval(pr))))
        def opened(p, e, cc): return z3.And(n_(cc["acc"]["seq"]) >= 1, cc["acc"]["seq"][0] == V.str(first))
        return [Cand("previous character", prev), Cand("start of a range", started), Cand("opened", opened), Cand("well formed", well), Cand("members", member)]
    def ret(c, r):
        p = c.p
        t = p.native(r, ("str",))
        few = n_(s(c)) <= 1
        ex = c.a["exclude"].t
        p.oblige("nothing is in the empty set, everything outside of it", z3.Implies(n_(s(c)) == 0, t == z3.If(ex, S("."), S("(?!)"))))
        p.oblige("one character: itself, or anything else", z3.Implies(n_(s(c)) == 1, t == z3.If(ex, z3.Concat(S("[^"), ESC(s(c)), S("]")), ESC(s(c)))))
        if p.entails(few): return
        t = sim(t)
        if not (t.decl().name() == "JOIN" and sim(t.arg(0)).eq(S(""))): p.fail("the parts joined", str(t)[:200]); return
        us = units(t.arg(1))
        if not (us and lit(us[-1], "]")): p.fail("closed", str(us)[:200]); return
        q = us[0] if len(us) == 2 else z3.Concat(*us[:-1])
        m, w = brackets(p, q)
        unfold(p, X(c), n_(X(c)))
        p.oblige("the brackets are of the characters, or of all others", q[0] == V.str(z3.If(ex, S("[^"), S("["))))
        p.oblige("every range goes upwards", w)
        p.oblige("between the brackets are exactly the characters given", m == AMONG(X(c), n_(X(c)), CH))
    con = Contract(Q, ["C10"], None, [("s", "str"), ("exclude", "bool")], setup=setup, ret=ret, cands=cands,
                   call=lambda p, args, b: VStr((OTHERS if p.truth(p.resolve(b["exclude"])) else RANGE)(p.native(args[0], ("str",)))))
    con.texts, con.generic = True, False
    add(con)
    reg.assumed.pop(Q, None)
    reg.globals["utils._escapes"] = "o:escapes"
    prev_opq = reg.call_opaque
    def call_opaque(p, f, args, kw):
        if f.what == "escapes.get":
            a, b = p.resolve(args[0]), p.resolve(args[1])
            if isinstance(a, VStr) and isinstance(b, VStr): p.oblige("a character without an escape stands for itself", a.t == b.t); return VStr(ESC(a.t))
        return prev_opq(p, f, args, kw)
    reg.call_opaque = call_opaque

    # ------------------------------------------------------------------ whatever the letter case
    LQ = "utils.regex_caseless"
    LOW, UP, PLAIN, CASELESS = fn("STR_lower", Str, Str), fn("STR_upper", Str, Str), fn("RE_ESCAPE", Str, Str), fn("REGEX_CASELESS", Str, Str)
    given = lambda c: c.a["literal"].t
    def either(x):
        """the pattern of one character: either case of it, when they differ and are one character each"""
        l, u = LOW(x), UP(x)
        return z3.If(z3.And(l != u, n_(l) == 1, n_(u) == 1), z3.Concat(S("["), PLAIN(l), PLAIN(u), S("]")), PLAIN(x))
    EACH = Rec("EITHER_CASE", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
               lambda c, st: [(st[0] >= n_(given(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(V.str(either(z3.SubString(given(c), st[0], 1)))))))], fixed=lambda c: [given(c)])
    con = Contract(LQ, ["C10"], None, [("literal", "str")], recs=[EACH], ret=lambda c, r: c.p.oblige("each character in turn, in either case", c.p.native(r, ("str",)) == JOIN(S(""), EACH.value(c, 0))),
                   call=lambda p, args, b: VStr(CASELESS(p.native(args[0], ("str",)))))
    con.texts = True
    add(con)
    # ------------------------------------------------------------------ the order of operations
    IQ = "utils.regex_iso"
    ORDER = {"|": 0, "+": 1, "*": 2}          # alternatives bind least, what can be repeated binds most
    def one_of(name):
        def make(p):
            for o in list(ORDER)[:-1]:
                if p.branch(z3.Const("p_" + name, Str) == S(o)): return VStr(S(o))
            p.assume(z3.Const("p_" + name, Str) == S("*"))
            return VStr(S("*"))
        return make
    def iso_ret(c, r):
        p = c.p
        rank = lambda n: ORDER[sim(c.a[n].t).as_string()]
        e = c.a["expr"].t
        p.oblige("in a group exactly when it binds less than is needed", p.native(r, ("str",)) == (z3.Concat(S("(?:"), e, S(")")) if rank("curr_prec") < rank("new_prec") else e))
    con = Contract(IQ, ["C10", "C19"], None, [("curr_prec", one_of("curr")), ("expr", "str"), ("new_prec", one_of("new"))], ret=iso_ret, call=reg.assumed[IQ]._call)
    add(con)
    reg.assumed.pop(IQ, None)
    # ------------------------------------------------------------------ the patterns of expressions, from those of their parts
    PREC, PAT = fn("PRECEDENCE", Int, Str), fn("PATTERN", Int, Str)
    ISO, RXP = fn("REGEX_ISO", Str, Str, Str, Str), fn("RX_pattern", Int, Str)
    TEXT = fn("TEXT", V, Str)
    OK = fn("HAS_PATTERN", Int, Bool)                      # an expression that can be written as a pattern
    MAXI = 9223372036854775807
    ON = set()
    part_iface = reg.ifaces["ParserElement.__regex__"]
    def part(p, a, plain=part_iface._apply):
        e = p.resolve(a[0])
        if p.con.qual in ON and not p.branch(OK(e.t)): p.raise_("NotImplementedError")
        return plain(p, a)
    part_iface._apply = part
    def regex_of(qual, cls, props, want, prec, needs=lambda c: [], recs=(), refuses=lambda c: FALSE, setup=None, writes=None, also=None):
        """__regex__ gives the pattern want, which binds like prec; it has one exactly when its parts have"""
        def ret(c, r):
            p = c.p
            if not (isinstance(r, VTup) and len(r.items) == 2): p.fail("returns precedence and pattern", repr(r)); return
            p.oblige("every part has a pattern", z3.And([z3.Not(refuses(c))] + [OK(e) for e in needs(c)]))
            p.oblige("the pattern of what it matches", p.native(r.items[1], ("str",)) == want(c))
            p.oblige("it binds as said", p.native(r.items[0], ("str",)) == prec(c))
            if also: also(c)
        def exc(c, e):
            c.p.oblige("refuses only what has no pattern", z3.Or([refuses(c)] + [z3.Not(OK(x)) for x in needs(c)]))
            if also: also(c)
        con = Contract(qual, props, cls, [], recs=list(recs), ret=ret, exc=exc, writes=writes or {}, setup=setup)
        con.texts = True
        ON.add(qual)
        add(con)
    lit_ = lambda t: (lambda c: S(t))
    EXPR = lambda c: z3.Function("fld_expr", Int, Int)(c.self.t)
    P10 = ["C10"]
    around = lambda a, b: (lambda c: z3.Concat(S(a), PAT(EXPR(c)), S(b)))
    its = lambda c: [EXPR(c)]
    regex_of("enhancement.LookAhead.__regex__", "LookAhead", P10 + ["C07"], around("(?=", ")"), lit_("*"), its)
    for q, k in (("TokenConverter", "TokenConverter"), ("Combine", "Combine"), ("Suppress", "Suppress")):
        regex_of(f"enhancement.{q}.__regex__", k, P10, lambda c: PAT(EXPR(c)), lambda c: PREC(EXPR(c)), its)
    cv = lambda c, n: z3.Function("fld_cfg_" + n, Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t))
    def times(c):
        lo, hi = V.ival(cv(c, "min_match")), V.ival(cv(c, "max_match"))
        d = lambda t: TEXT(V.int(t))
        return z3.If(hi == MAXI, z3.If(lo == 0, S("*"), z3.If(lo == 1, S("+"), z3.Concat(S("{"), d(lo), S(",}")))),
                     z3.If(lo == hi, z3.If(lo == 1, S(""), z3.Concat(S("{"), d(lo), S("}"))), z3.Concat(S("{"), d(lo), S(","), d(hi), S("}"))))
    def until(c):
        e = cv(c, "end")
        return z3.If(V.is_none(e), S(""), RXP(V.rval(e)))
    regex_of("enhancement.Many.__regex__", "Many", P10, lambda c: z3.Concat(ISO(PREC(EXPR(c)), PAT(EXPR(c)), S("*")), times(c), until(c)), lit_("+"), its)
    skipped = lambda c: ISO(PREC(EXPR(c)), PAT(EXPR(c)), S("+"))
    inc = lambda c: cv(c, "include") == V.bool(TRUE)
    regex_of("enhancement.SkipTo.__regex__", "SkipTo", P10, lambda c: z3.If(inc(c), z3.Concat(S("(.*?"), skipped(c), S(")")), z3.Concat(S("(.*?)(?="), skipped(c), S(")"))), lambda c: z3.If(inc(c), S("*"), S("+")), its)
    regex_of("enhancement.PrecededBy.__regex__", "PrecededBy", P10 + ["C07"], around("(?<=", ")"), lit_("*"), its, refuses=lambda c: cv(c, "exact") != V.bool(TRUE))
    # sequences and choices
    EXPRS = lambda c: seq0(z3.Function("fld_exprs", Int, Int)(c.self.t))
    def parts_of(name, prec):
        def step(c, st):
            k, acc = st
            e = V.rval(EXPRS(c)[k])
            return [(k >= n_(EXPRS(c)), [acc, TRUE]), (z3.Not(OK(e)), [acc, FALSE]),
                    (TRUE, Next(k + 1, z3.Concat(acc, V1(V.str(ISO(PREC(e), PAT(e), S(prec)))))))]
        return Rec(name, ["int", "seq"], [SeqV, Bool], lambda c: [I(0), EMPTY], step, fixed=lambda c: [EXPRS(c)])
    ALLP, SOME = parts_of("PATTERNS", "+"), parts_of("CHOICES", "|")
    for q in ("Or", "MatchFirst"):
        regex_of(f"expressions.{q}.__regex__", q, P10, lambda c: JOIN(S("|"), SOME.value(c, 0)), lit_("|"), recs=[SOME], refuses=lambda c: z3.Not(SOME.value(c, 1)))
    WSP = lambda c: V.rval(cv(c, "whitespace"))
    WPAT = fn("WHITE_PATTERN", Str, SeqV, Str)
    NOWS = z3.Const("glob_whitespaces.NO_WHITESPACE", Int)
    def between(c):
        w = WSP(c)
        ig = z3.Function("fld_ignore_list", Int, Int)(w)
        return z3.If(z3.Function("fld__in_regex", Int, Bool)(w), ISO(S("*"), S(""), S("+")), ISO(WPREC(w), WPAT(z3.Function("fld_white_chars", Int, Str)(w), seq0(ig)), S("+")))
    WPREC = fn("WHITE_PRECEDENCE", Int, Str)
    regex_of("expressions.And.__regex__", "And", P10, lambda c: z3.If(WSP(c) == NOWS, JOIN(S(""), ALLP.value(c, 0)), JOIN(between(c), ALLP.value(c, 0))), lit_("+"), recs=[ALLP], refuses=lambda c: z3.Not(ALLP.value(c, 1)))
    # terminals: the pattern they are matched by
    cfg_rx = lambda c: RXP(V.rval(cv(c, "regex")))
    for q, k in (("Literal", "+"), ("Keyword", "+"), ("Char", "*"), ("CharsNotIn", "+"), ("LineEnd", "|"), ("WordStart", "+"), ("WordEnd", "+")):
        regex_of(f"tokens.{q}.__regex__", q, P10, cfg_rx, lit_(k))
    regex_of("tokens.Word.__regex__", "Word", P10, lambda c: RXP(z3.Function("fld_regex", Int, Int)(c.self.t)), lit_("+"))
    regex_of("tokens.AnyChar.__regex__", "AnyChar", P10, lit_("."), lit_("*"))
    regex_of("tokens.NoMatch.__regex__", "NoMatch", P10, lit_("a^"), lit_("+"))
    nrx = z3.Function("fld_regex", Int, V)
    def opt_regex(p, c):
        r = nrx(c.self.t)
        p.assume(z3.Implies(V.is_ref(r), z3.And(0 < V.rval(r), V.rval(r) < A0)))
    regex_of("enhancement.NotAny.__regex__", "NotAny", P10 + ["C07"], lambda c: RXP(V.rval(nrx(c.self.t))), lit_("*"), refuses=lambda c: V.is_none(nrx(c.self.t)), setup=opt_regex)
    regex_of("tokens.LineStart.__regex__", "LineStart", P10, lit_("(?m:^)"), lit_("*"))
    regex_of("tokens.Empty.__regex__", "Empty", P10, lit_(""), lit_("|"))
    # a regular expression is its own pattern; a forward has that of what it holds, unless it is within itself
    rx = lambda c: z3.Function("fld_regex", Int, Int)(c.self.t)
    regex_of("regex.Regex.__regex__", "Regex", P10 + ["C26"], lambda c: RXP(rx(c)), lit_("|"))
    busy, held = lambda c: z3.Function("fld__in_regex", Int, V)(c.self.t) == V.bool(TRUE), lambda c: z3.Function("fld_expr", Int, V)(c.self.t)
    own = lambda c: V.rval(held(c))
    def again(c): c.p.oblige("ready for the next time", z3.Implies(z3.Not(busy(c)), c.p.rd("_in_regex", c.self.t, V) != V.bool(TRUE)))
    regex_of("enhancement.Forward.__regex__", "Forward", P10 + ["C23"], lambda c: PAT(own(c)), lambda c: PREC(own(c)), lambda c: [own(c)],
             refuses=lambda c: z3.Or(busy(c), V.is_none(held(c))), writes={"_in_regex": lambda c, r: r == c.self.t}, also=again)
    B = reg.builders
    B["PATTERNED"], B["OK"], B["PAT"] = ON, OK, PAT
