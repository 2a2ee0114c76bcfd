"""contracts of the composite expressions (expressions.py, enhancement.py)"""
from .base import *

PR_TYPE = fn("PR_type", Int, Int)              # expression a result belongs to
AS_STRING = fn("AS_STRING", Int, Str, Str)     # ParseResults.as_string
LOC = fn("LOC", Int, Int)                      # ParseException.loc
HAS = fn("FAST_has", Int, Str, Bool)           # key of Fast.lookup
LOOK = fn("FAST_lookup", Int, Str, Int)        # list of alternatives for that key

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    ci = lambda x: prog.classes[x]
    cid = lambda x: I(prog.ids[x])

    def pr_type(p, a):
        t = PR_TYPE(p.resolve(a[0]).t)
        p.mark_old(t); p.assume(z3.And(0 < t, t < A0))
        return p.typed(t, ("ref", "ParserElement"))
    reg.ifaces["ParseResults.type"] = Iface("ParseResults.type", pr_type, "ParseResults", "type")
    reg.ifaces["ParseResults.as_string"] = Iface("ParseResults.as_string", lambda p, a: VStr(AS_STRING(p.resolve(a[0]).t, p.native(a[1], ("str",)))), "ParseResults", "as_string")
    reg.ifaces["ParseException.loc"] = Iface("ParseException.loc", lambda p, a: VInt(LOC(p.resolve(a[0]).t)), "ParseException", "loc")

    def look_get(p, recv, args, kw):
        if recv.owner != "Fast.lookup": raise Unsupported("dictionary")
        k = p.resolve(args[0])
        if not isinstance(k, VStr): p.raise_("KeyError")
        if not p.branch(HAS(recv.t, k.t)): p.raise_("KeyError")
        l = LOOK(recv.t, k.t)
        p.mark_old(l); p.assume(z3.And(l > 0, l < A0))
        return p.typed(l, ("list", ("ref", "ParserElement")))
    def look_has(p, recv, args, kw):
        if recv.owner != "Fast.lookup": raise Unsupported("dictionary")
        return VBool(HAS(recv.t, p.native(args[0], ("str",))))
    reg.getattrs["Fast.lookup"] = lambda p, obj: VRef(obj.t, ci("dict"), True, owner="Fast.lookup")
    reg.methods["dict.__getitem__"] = look_get
    reg.methods["dict.__contains__"] = look_has
    reg.types["Fast.all_keys"] = "list:str"

    # ------------------------------------------------------------------ helpers
    expr = lambda c: fld(c, "expr")
    W = lambda c: cfg(c, "whitespace", "ref")
    R1 = lambda r: V1(V.ref(r))
    exprs = lambda c: seq0(fld(c, "exprs"))
    alt = lambda c: seq0(fld(c, "alternate"))
    at = lambda q, k: V.rval(q[k])
    subcls = lambda p, tag, name: p.sub(tag, ci(name))

    # ------------------------------------------------------------------ And
    def drop(c, e, ix):
        r, en = P_res(e, c.s, ix, c.da), P_en(e, c.s, ix, c.da)
        t = PR_TYPE(r)
        cf = z3.Function("fld_parser_config", Int, Int)(t)
        return z3.And(z3.Not(PR_TRUE(r)), ix == en, subcls(c.p, CLS0(t), "Many"), V.ival(z3.Function("fld_cfg_min_match", Int, V)(cf)) == 0)
    def and_step(c, st):
        k, end, acc = st
        e = at(exprs(c), k)
        ix = z3.If(z3.Or(end == c.i, subcls(c.p, CLS0(e), "PrecededBy")), end, SK(W(c), c.s, end))
        ok = P_ok(e, c.s, ix, c.da)
        return [(k >= z3.Length(exprs(c)), [TRUE, end, acc]),
                (subcls(c.p, CLS0(e), "SyntaxErrorGuard"), Next(k + 1, end, acc)),
                (z3.Not(ok), [FALSE, None, None]),
                (drop(c, e, ix), Next(k + 1, end, acc)),
                (TRUE, Next(k + 1, P_en(e, c.s, ix, c.da), z3.Concat(acc, R1(P_res(e, c.s, ix, c.da)))))]
    AND = Rec("SEQ", ["int", "int", "seq"], [Bool, Int, SeqV], lambda c: [I(0), c.i, EMPTY], and_step, fixed=lambda c: [c.s, c.i, c.da, c.self.t])
    add(ParseImpl("expressions.And.parse_impl", "And", ["C02"], lambda c: AND.value(c, 0), lambda c: AND.value(c, 1), lambda c: c.i, lambda c: AND.value(c, 2), recs=[AND]))

    # ------------------------------------------------------------------ first of a list
    def first_rec(name, seq):
        def step(c, st):
            k, = st
            return [(k >= z3.Length(seq(c)), [FALSE, None]),
                    (P_ok(at(seq(c), k), c.s, c.i, c.da), [TRUE, at(seq(c), k)]),
                    (TRUE, Next(k + 1))]
        return Rec(name, ["int"], [Bool, Int], lambda c: [I(0)], step, fixed=lambda c: [c.s, c.i, c.da, c.self.t])
    FIRST = first_rec("FIRST", alt)
    win = lambda c: FIRST.value(c, 1)
    add(ParseImpl("expressions.MatchFirst.parse_impl", "MatchFirst", ["C03"], lambda c: FIRST.value(c, 0), lambda c: P_en(win(c), c.s, c.i, c.da),
                  lambda c: P_st(win(c), c.s, c.i, c.da), lambda c: R1(P_res(win(c), c.s, c.i, c.da)), recs=[FIRST]))

    # ------------------------------------------------------------------ Fast
    rx = lambda c: fld(c, "regex")
    lower = lambda t: z3.Function("STR_lower", Str, Str)(t)
    key = lambda c: lower(z3.SubString(c.s, c.i, RX_en(rx(c), c.s, c.i) - c.i))
    short = lambda c: z3.If(RX_ok(rx(c), c.s, c.i), seq0(LOOK(c.self.t, key(c))), EMPTY)
    fast_inv = lambda c: [("class invariant: the pattern matches keys of the lookup only", z3.Implies(RX_ok(rx(c), c.s, c.i), HAS(c.self.t, key(c))))]
    SHORT = fn("SHORT", Int, Str, Int, SeqV)
    def short_call(p, args, b):
        e, s, i = [p.resolve(a) for a in args]
        return p.new_list(SHORT(e.t, p.native(s, ("str",)), p.int_(i)), elem=("ref", "ParserElement"))
    add(Contract("expressions.Fast.get_short_list", ["C03", "C04"], "Fast", [("s", "str"), ("i", "int")],
                 pre=lambda c: [("in text", z3.And(0 <= c.i, c.i <= n(c)))] + fast_inv(c),
                 ret=lambda c, r: c.p.oblige("alternatives of the matched prefix", c.p.to_seq(r)[0] == short(c)), call=short_call))
    FF = first_rec("FASTFIRST", short)
    ffw = lambda c: FF.value(c, 1)
    add(ParseImpl("expressions.Fast.parse_impl", "Fast", ["C03"], lambda c: FF.value(c, 0), lambda c: P_en(ffw(c), c.s, c.i, c.da), None, None, type_=False,
                  extra=lambda c, r: c.p.oblige("the result of the first alternative of the shortlist that matches", r.t == P_res(ffw(c), c.s, c.i, c.da), ["C03"]), recs=[FF], pre=fast_inv))

    # ------------------------------------------------------------------ Or
    def or_inner(c, st):
        k, e, acc = st
        q = SHORT(e, c.s, c.i)
        x = at(q, k)
        return [(k >= z3.Length(q), [acc]),
                (P_ok(x, c.s, c.i, TRUE), Next(k + 1, e, z3.Concat(acc, V1(V.t2(V.int(P_en(x, c.s, c.i, TRUE)), V.ref(x)))))),
                (TRUE, Next(k + 1, e, acc))]
    ktoo = lambda p, pools, mod, entry: [[x for x in q if x in ("$k",) or "int" not in entry[x]] for q in pools]
    ORI = Rec("ORSHORT", ["int", "ref", "seq"], [SeqV], lambda c: None, or_inner, fixed=lambda c: [c.s, c.i], only=ktoo)
    def or_step(c, st):
        k, acc = st
        e = at(alt(c), k)
        return [(k >= z3.Length(alt(c)), [acc]),
                (subcls(c.p, CLS0(e), "Fast"), Next(k + 1, ORI.value(c, 0, [I(0), e, acc]))),
                (P_ok(e, c.s, c.i, TRUE), Next(k + 1, z3.Concat(acc, V1(V.t2(V.int(P_en(e, c.s, c.i, TRUE)), V.ref(e)))))),
                (TRUE, Next(k + 1, acc))]
    OR = Rec("ORMATCHES", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], or_step, fixed=lambda c: [c.s, c.i, c.self.t], only=ktoo)
    M = lambda c: OR.value(c, 0)
    def or_pre(c):
        e = z3.Int("e?")
        t, f = P_ok(e, c.s, c.i, TRUE), P_ok(e, c.s, c.i, FALSE)
        return [("actions may only veto: without them the same span matches", forall([e], z3.Implies(t, z3.And(f, P_en(e, c.s, c.i, FALSE) == P_en(e, c.s, c.i, TRUE))), patterns=[t]))]
    # MATCHES(q): every pair of q is (end, e) of an alternative e that matches here, with this end
    MATCHES = fn("MATCHES", SeqV, Bool)
    def pair_ok(x, c):
        e = V.rval(V.t2b(x))
        return z3.And(V.is_t2(x), V.is_int(V.t2a(x)), V.is_ref(V.t2b(x)), P_ok(e, c.s, c.i, TRUE), V.ival(V.t2a(x)) == P_en(e, c.s, c.i, TRUE), V.ival(V.t2a(x)) >= c.i)
    def matches_facts(p, q):
        c = p.ctx
        n_ = z3.Length(q)
        p.assume(z3.Implies(n_ == 0, MATCHES(q)))
        p.assume(z3.Implies(z3.And(MATCHES(q), n_ > 0), pair_ok(FIRSTMAX(q), c)))
        p.assume(z3.Implies(n_ == 1, FIRSTMAX(q) == q[0]))
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_SEQ_CONCAT and q.num_args() == 2 and q.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
            p.assume(z3.Implies(z3.And(MATCHES(q.arg(0)), pair_ok(q.arg(1).arg(0), c)), MATCHES(q)))
    def or_extra(c, res):
        p = c.p
        q = M(c)
        e = V.rval(V.t2b(FIRSTMAX(q)))
        p.oblige("the earliest of the alternatives that reach furthest", z3.And(tok_seq_(p, res) == R1(P_res(e, c.s, c.i, c.da)),
                 p.rd("end", res.t, Int) == V.ival(V.t2a(FIRSTMAX(q))), p.rd("start", res.t, Int) == P_st(e, c.s, c.i, c.da)), ["C04"])
    def tok_seq_(p, r): return p.seq(p.rd("tokens", r.t, Int))
    def or_cands(p, mod, entry):
        from ..exec import Cand
        out = []
        def good(p, c, nm):
            q = c[nm]["seq"]
            matches_facts(p, q)
            return MATCHES(q)
        for nm, d in entry.items():
            if "seq" in d: out.append(Cand(f"{nm} holds matches", lambda p, e, c, nm=nm: good(p, c, nm)))
        for nm, d in entry.items():
            if "V" in d and nm in mod: out.append(Cand(f"{nm} as before", lambda p, e, c, nm=nm: c[nm]["V"] == e[nm]["V"]))
        out.append(Cand("first round only", lambda p, e, c: c["$k"]["int"] == 0))
        return out
    orc = ParseImpl("expressions.Or.parse_impl", "Or", ["C04"], lambda c: z3.Length(M(c)) > 0, None, None, None, extra=or_extra, recs=[OR, ORI], pre=or_pre, cands=or_cands)
    orc.generic = False
    orc.matches = M
    add(orc)

    # ------------------------------------------------------------------ Many and friends
    mx, mn = lambda c: cfg(c, "max_match", "int"), lambda c: cfg(c, "min_match", "int")
    def many_step(c, st):
        end, count, acc = st
        ix = z3.If(count > 0, SK(W(c), c.s, end), end)
        stop = cfg(c, "end", "V")
        e = expr(c)
        en = P_en(e, c.s, ix, c.da)
        acc2 = z3.Concat(acc, R1(P_res(e, c.s, ix, c.da)))
        return [(count >= mx(c), [end, count, acc]),
                (z3.And(end >= n(c), count >= mn(c)), [end, count, acc]),
                (z3.And(V.is_ref(stop), RX_ok(V.rval(stop), c.s, ix)), [end, count, acc]),
                (z3.Not(P_ok(e, c.s, ix, c.da)), [end, count, acc]),
                (z3.And(en == P_st(e, c.s, ix, c.da), count < mn(c)), [en, mn(c), acc2]),
                (en == P_st(e, c.s, ix, c.da), [end, count, acc]),
                (TRUE, Next(en, count + 1, acc2))]
    MANY = Rec("REPEAT", ["int", "int", "seq"], [Int, Int, SeqV], lambda c: [c.i, I(0), EMPTY], many_step, fixed=lambda c: [c.s, c.da, c.self.t])
    m_end, m_count, m_acc = [lambda c, j=j: MANY.value(c, j) for j in range(3)]
    many_pre = lambda c: [("class invariant: bounds", z3.And(0 <= mn(c), mn(c) <= mx(c)))]
    m_start = lambda c: z3.If(m_count(c) > 0, F_start(V.rval(m_acc(c)[0])), c.i)
    add(ParseImpl("enhancement.Many.parse_impl", "Many", ["C05"], lambda c: m_count(c) >= mn(c), m_end, m_start, m_acc, recs=[MANY], pre=many_pre, terminates=True))
    add(ParseImpl("enhancement.ZeroOrMore.parse_impl", "ZeroOrMore", ["C05"], lambda c: TRUE, m_end, m_start, m_acc, recs=[MANY],
                  pre=lambda c: many_pre(c) + [("class invariant: no minimum", mn(c) == 0)], terminates=True))
    okx = lambda c: P_ok(expr(c), c.s, c.i, c.da)
    enx = lambda c: P_en(expr(c), c.s, c.i, c.da)
    stx = lambda c: P_st(expr(c), c.s, c.i, c.da)
    rex = lambda c: R1(P_res(expr(c), c.s, c.i, c.da))
    add(ParseImpl("enhancement.Optional.parse_impl", "Optional", ["C05"], lambda c: TRUE, lambda c: z3.If(okx(c), enx(c), c.i), lambda c: z3.If(okx(c), stx(c), c.i),
                  lambda c: z3.If(okx(c), rex(c), seq0(cfg(c, "default_value", "ref")))))

    # ------------------------------------------------------------------ SkipTo
    failx, ign = lambda c: cfg(c, "fail", "V"), lambda c: cfg(c, "ignore", "V")
    def ign_step(c, st):
        sk, b = st
        g = V.rval(ign(c))
        en = P_en(g, c.s, b, TRUE)
        return [(z3.Or(z3.Not(P_ok(g, c.s, b, TRUE)), en <= b), [sk, b]), (TRUE, Next(en, SK(W(c), c.s, en)))]
    IGN = Rec("IGNORED", ["int", "int"], [Int, Int], lambda c: None, ign_step, fixed=lambda c: [c.s, c.self.t])
    def skip_step(c, st):
        loc, = st
        b0 = SK(W(c), c.s, loc)
        has = V.is_ref(ign(c))
        sk = z3.If(has, IGN.value(c, 0, [loc, b0]), loc)
        b = z3.If(has, IGN.value(c, 1, [loc, b0]), b0)
        return [(loc > n(c), [FALSE, None, None]),
                (z3.And(V.is_ref(failx(c)), P_ok(V.rval(failx(c)), c.s, b0, TRUE)), [FALSE, None, None]),
                (P_ok(expr(c), c.s, b, FALSE), [TRUE, sk, b]),
                (TRUE, Next(b + 1))]
    SKIP = Rec("SKIPTO", ["int"], [Bool, Int, Int], lambda c: [c.i], skip_step, fixed=lambda c: [c.s, c.self.t])
    inc = lambda c: cfg(c, "include", "bool")
    tgt = lambda c: SKIP.value(c, 2)
    def skip_tokens(c):
        x = z3.SubString(c.s, c.i, SKIP.value(c, 1) - c.i)
        t = z3.If(z3.And(SKIP.value(c, 1) > c.i, z3.Length(x) > 0), V1(V.str(x)), EMPTY)
        return z3.If(inc(c), z3.Concat(t, R1(P_res(expr(c), c.s, tgt(c), c.da))), t)
    add(ParseImpl("enhancement.SkipTo.parse_impl", "SkipTo", ["C08"], lambda c: z3.And(SKIP.value(c, 0), z3.Or(z3.Not(inc(c)), P_ok(expr(c), c.s, tgt(c), c.da))),
                  lambda c: z3.If(inc(c), P_en(expr(c), c.s, tgt(c), FALSE), tgt(c)), lambda c: c.i, skip_tokens, recs=[SKIP, IGN], terminates=True))

    # ------------------------------------------------------------------ look-around
    add(ParseImpl("enhancement.LookAhead.parse_impl", "LookAhead", ["C07"], okx, lambda c: c.i, lambda c: c.i, rex, exact=True))
    okT = lambda c: P_ok(expr(c), c.s, c.i, TRUE)
    def not_pre(c):
        r = z3.Function("fld_regex", Int, V)(c.self.t)
        e = expr(c)
        return [("the pattern of a plain token decides like the token (bounded check: harness C07, C10)",
                 z3.Implies(z3.And(V.is_ref(r), subcls(c.p, CLS0(e), "Token"), z3.Length(seq0(z3.Function("fld_parse_action", Int, Int)(e))) == 0),
                            RX_ok(V.rval(r), c.s, c.i) == z3.Not(okT(c))))]
    add(ParseImpl("enhancement.NotAny.parse_impl", "NotAny", ["C07"], lambda c: z3.Not(okT(c)), lambda c: c.i, lambda c: c.i, lambda c: EMPTY, pre=not_pre))
    retreat = lambda c: cfg(c, "retreat", "int")
    # what ends a line or the text is judged on the whole text, it may take the line break
    before = lambda c: z3.If(z3.Or(subcls(c.p, CLS0(expr(c)), "LineEnd"), subcls(c.p, CLS0(expr(c)), "StringEnd")), c.s, z3.SubString(c.s, 0, c.i))
    def prec_step(c, st):
        k, = st
        off = retreat(c) + k
        at_ = c.i - off
        return [(off > c.i, [FALSE, None]),
                (z3.And(P_ok(expr(c), before(c), at_, TRUE), P_en(expr(c), before(c), at_, TRUE) == c.i), [TRUE, P_res(expr(c), before(c), at_, TRUE)]),
                (TRUE, Next(k + 1))]
    PREC = Rec("LOOKBEHIND", ["int"], [Bool, Int], lambda c: [I(0)], prec_step, fixed=lambda c: [c.s, c.i, c.self.t])
    ex = lambda c: cfg(c, "exact", "bool")
    pl = lambda c: c.i - retreat(c)
    add(ParseImpl("enhancement.PrecededBy.parse_impl", "PrecededBy", ["C07"],
                  lambda c: z3.If(ex(c), z3.And(pl(c) >= 0, P_ok(expr(c), c.s, pl(c), TRUE), P_en(expr(c), c.s, pl(c), TRUE) == c.i), PREC.value(c, 0)),
                  lambda c: c.i, lambda c: c.i, lambda c: R1(z3.If(ex(c), P_res(expr(c), c.s, pl(c), TRUE), PREC.value(c, 1))), recs=[PREC],
                  pre=lambda c: [("class invariant: the distance back is not negative", retreat(c) >= 0)]))

    # ------------------------------------------------------------------ wrappers
    add(ParseImpl("enhancement.ParseEnhancement.parse_impl", "ParseEnhancement", ["C27"], okx, enx, stx, rex))
    fw = lambda c: V.rval(z3.Function("fld_expr", Int, V)(c.self.t))
    add(ParseImpl("enhancement.Forward.parse_impl", "Forward", ["C24"], lambda c: P_ok(fw(c), c.s, c.i, c.da), lambda c: P_en(fw(c), c.s, c.i, c.da),
                  lambda c: P_st(fw(c), c.s, c.i, c.da), lambda c: R1(P_res(fw(c), c.s, c.i, c.da)),
                  pre=lambda c: [("the declaration has been defined", V.is_ref(z3.Function("fld_expr", Int, V)(c.self.t)))]))
    add(ParseImpl("enhancement.Combine.parse_impl", "Combine", ["C27"], lambda c: P_ok(expr(c), c.s, c.i, c.da), lambda c: P_en(expr(c), c.s, c.i, c.da), lambda c: c.i,
                  lambda c: V1(V.str(AS_STRING(P_res(expr(c), c.s, c.i, c.da), cfg(c, "separator", "str"))))))
