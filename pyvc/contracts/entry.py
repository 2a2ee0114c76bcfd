"""contracts of the entry points: parsing (C12), scanning and searching (C13), splitting and transforming (C14)"""
from .base import *
from ..exec import T
from .structure import AS_STRING

END_ok = fn("ONLY_LINE_BREAKS", Str, Int, Bool)      # nothing but line breaks from here to the end (pattern of StringEnd)
BEST = fn("BEST_CAUSE", Int, Int)                    # ParseException.best_cause
PARSE_ok = fn("PARSE_ok", Int, Str, Bool, Bool)      # Parser._parseString succeeds
PARSE_val = fn("PARSE_val", Int, Str, Bool, V)
STRINGS = fn("AS_STRING_LIST", Int, SeqV)            # ParseResults._asStringList
FINAL = fn("FINALIZED", Int, Int)                    # ParserElement.finalize

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    def assume(c): reg.assumed[c.qual] = c
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    ci = lambda x: prog.classes[x]
    E = lambda c: fld(c, "element")
    W = lambda c: fld(c, "whitespace")
    TT = TRUE

    # StringEnd(): behaves as its parse_impl contract (tokens.StringEnd.parse_impl, C09), no actions
    def string_end(p, ci_, args, kw):
        r = p.alloc(ci_, exact=False, tag=p.fresh(Int, "tag"))
        s, i = z3.String("s?"), z3.Int("i?")
        ok, en = P_ok(r.t, s, i, TRUE), P_en(r.t, s, i, TRUE)
        p.assume(z3.ForAll([s, i], ok == z3.Or(i >= z3.Length(s), END_ok(s, i)), patterns=[ok]))
        return VRef(r.t, ci("StringEnd"))
    reg.constructors["StringEnd"] = string_end
    def best(p, a):
        e = p.resolve(a[0]).t
        b = BEST(e)
        p.mark_old(b); p.assume(p.sub(p.tag(b), ci("ParseException")))
        return VRef(b, ci("ParseException"))
    reg.methods["ParseException.best_cause"] = lambda p, recv, args, kw: best(p, [recv]) if not p.con.qual.startswith("exceptions.") else None
    reg.ifaces["ParseException.best_cause"] = Iface("ParseException.best_cause", best, "ParseException", "best_cause")

    # ------------------------------------------------------------------ C12
    start = lambda c: SK(W(c), c.s, I(0))
    res = lambda c: P_res(E(c), c.s, start(c), TT)
    end = lambda c: SK(W(c), c.s, P_en(E(c), c.s, start(c), TT))
    ok = lambda c: z3.And(P_ok(E(c), c.s, start(c), TT), z3.Or(z3.Not(c.all), end(c) >= n(c), END_ok(c.s, end(c))))
    toks = lambda r: seq0(z3.Function("fld_tokens", Int, Int)(r))
    val = lambda c: z3.If(fld(c, "named", Bool), V.ref(res(c)), toks(res(c))[0])
    group = lambda c: [("class invariant: the element of a parser is a Group, whose results hold one token (contract of ParseEnhancement.parse_impl)",
                        z3.Implies(P_ok(E(c), c.s, start(c), TT), z3.Length(toks(res(c))) >= 1))]
    def ps_ret(c, r):
        c.p.oblige("succeeds only where the grammar matches after the leading whitespace, and nothing else is left when everything is asked for", ok(c))
        c.p.oblige("returns the match: itself when it is named, otherwise its only token", c.p.box(r) == val(c))
    def ps_exc(c, e):
        p = c.p
        p.oblige("raises only the parse failure", p.isinst(e, ci("ParseException")))
        p.oblige("fails only when the grammar does not match there or something else is left", z3.Not(ok(c)))
    def ps_call(p, args, b):
        self_, s, a = [p.resolve(x) for x in args]
        a_ = p.bool_(a)
        if p.branch(PARSE_ok(self_.t, s.t, a_)): return VDyn(PARSE_val(self_.t, s.t, a_))
        parse_failure(p, s.t)
    strp = [("s", "str"), ("all", "bool")]
    add(Contract("core.Parser._parseString", ["C12"], "Parser", strp, pre=group, ret=ps_ret, exc=ps_exc, call=ps_call))
    pok = lambda c: PARSE_ok(c.self.t, c.s, c.all)
    def pr_ret(c, r):
        c.p.oblige("succeeds only when _parseString does, for the same text and demand", pok(c))
        c.p.oblige("returns what it returns", c.p.box(r) == PARSE_val(c.self.t, c.s, c.all))
    def pr_exc(c, e):
        c.p.oblige("raises only the parse failure", c.p.isinst(e, ci("ParseException")))
        c.p.oblige("fails only when _parseString does", z3.Not(pok(c)))
    add(Contract("core.Parser.parse", ["C12"], "Parser", strp, ret=pr_ret, exc=pr_exc))
    # ParserElement.parse / matches: the Parser of the expression
    def final(p, args, b):
        f = FINAL(p.resolve(args[0]).t)
        p.mark_old(f); p.assume(z3.And(0 < f, f < A0, p.tag(f) == I(p.cid("Parser"))))
        return VRef(f, ci("Parser"), True)
    assume(Contract("core.ParserElement.finalize", [], "ParserElement", [], call=final, note="Parser(self): streamlines (C22) and wraps in a Group"))
    eok = lambda c: PARSE_ok(FINAL(c.self.t), c.s, c.all)
    def pe_ret(c, r):
        c.p.oblige("succeeds only when its parser does, for the same text and demand", eok(c))
        c.p.oblige("returns what its parser returns", c.p.box(r) == PARSE_val(FINAL(c.self.t), c.s, c.all))
    def pe_exc(c, e):
        c.p.oblige("raises only the parse failure", c.p.isinst(e, ci("ParseException")))
        c.p.oblige("fails only when its parser does", z3.Not(eok(c)))
    pec = Contract("core.ParserElement.parse", ["C12"], "ParserElement", strp, ret=pe_ret, exc=pe_exc,
                   call=lambda p, args, b: ps_call(p, [final(p, args, b)] + list(args[1:]), b))
    add(pec)
    def m_ret(c, r):
        c.p.oblige("true exactly when the parse succeeds", c.p.bool_(r) == eok(c))
    add(Contract("core.ParserElement.matches", ["C12"], "ParserElement", strp, ret=m_ret))

    # ------------------------------------------------------------------ C13: scanning
    # (result, start, end) of every match, in order
    triple = lambda c, st: V.t3(V.ref(P_res(E(c), c.s, st, TT)), V.int(P_st(E(c), c.s, st, TT)), V.int(P_en(E(c), c.s, st, TT)))
    def scan_step(c, st):
        end, count, acc = st
        at = SK(W(c), c.s, end)
        ts, te = P_st(E(c), c.s, at, TT), P_en(E(c), c.s, at, TT)
        return [(z3.Or(end > n(c), count >= c.max), [acc]),
                (z3.Not(P_ok(E(c), c.s, at, TT)), Next(at + 1, count, acc)),
                (z3.Or(c.overlap, te <= ts), Next(ts + 1, count + 1, z3.Concat(acc, V1(triple(c, at))))),
                (TRUE, Next(te, count + 1, z3.Concat(acc, V1(triple(c, at)))))]
    scan_fixed = lambda c: [c.s, c.max, c.overlap, c.self.t]
    SCAN = Rec("SCAN", ["int", "int", "seq"], [SeqV], lambda c: [I(0), I(0), EMPTY], scan_step, fixed=scan_fixed)
    SCANNED = z3.Function("SCAN_0", Str, Int, Bool, Int, Int, Int, SeqV, SeqV)
    scanned = lambda s, mx, ov, self_: SCANNED(s, mx, ov, self_, I(0), I(0), EMPTY)
    # IN_ORDER(q,s,overlap): every span lies inside the text and, without overlap, none begins before the one before it ended
    IN_ORDER = fn("IN_ORDER", SeqV, Str, Bool, Bool)
    tst_, ten_ = lambda x: V.ival(V.t3b(x)), lambda x: V.ival(V.t3c(x))
    def good_at(q, k, s, ov):
        x, y = q[k], q[k - 1]
        return z3.And(V.is_t3(x), V.is_ref(V.t3a(x)), V.is_int(V.t3b(x)), V.is_int(V.t3c(x)), 0 <= tst_(x), tst_(x) <= ten_(x), ten_(x) <= z3.Length(s),
                      F_start(V.rval(V.t3a(x))) == tst_(x), F_end(V.rval(V.t3a(x))) == ten_(x), V.rval(V.t3a(x)) < 0,
                      z3.Implies(k > 0, z3.And(tst_(y) < z3.If(ten_(x) > tst_(x), ten_(x), tst_(x) + 1), z3.If(ov, tst_(y) < tst_(x), ten_(y) <= tst_(x)))))
    def order_facts(p, q, s, ov):
        """introduction rules of IN_ORDER for the shapes that occur"""
        p.assume(z3.Implies(z3.Length(q) == 0, IN_ORDER(q, s, ov)))
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_SEQ_CONCAT and q.num_args() == 2 and q.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
            k = z3.Length(q.arg(0))
            x = q.arg(1).arg(0); y = q.arg(0)[k - 1]
            g = good_at(q, k, s, ov)
            p.assume(z3.And(q[k] == x, z3.Implies(k > 0, q[k - 1] == y), z3.Length(q) == k + 1))
            p.assume(z3.Implies(z3.And(IN_ORDER(q.arg(0), s, ov), g), IN_ORDER(q, s, ov)))
    def scan_cands(p, mod, entry):
        from ..exec import Cand
        out = []
        if "$yield" not in entry: return out
        def order(p, e, c):
            q = c["$yield"]["seq"]
            order_facts(p, q, p.ctx.s, p.ctx.overlap)
            return IN_ORDER(q, p.ctx.s, p.ctx.overlap)
        out.append(Cand("matches in order", order))
        for w in [x for x, d in entry.items() if "int" in d and x in mod]:
            def lim(p, e, c, w=w):
                q = c["$yield"]["seq"]; k = z3.Length(q); x = q[k - 1]
                return z3.Implies(k > 0, z3.And(tst_(x) < c[w]["int"], z3.Implies(z3.Not(p.ctx.overlap), ten_(x) <= c[w]["int"])))
            out.append(Cand(f"last match before {w}", lim))
            out.append(Cand(f"count {w}", lambda p, e, c, w=w: z3.Length(c["$yield"]["seq"]) == c[w]["int"]))
            out.append(Cand(f"count at most", lambda p, e, c, w=w: z3.Or(z3.Length(c["$yield"]["seq"]) == 0, z3.Length(c["$yield"]["seq"]) <= p.ctx.max)))
        return out
    def scan_ret(c, r):
        p = c.p
        q = p.to_seq(r)[0]
        order_facts(p, q, c.s, c.overlap)
        p.oblige("the matches of the reference scan, in order, each once", q == SCAN.value(c, 0))
        p.oblige("in text order, inside the text, none overlapping unless asked for", IN_ORDER(q, c.s, c.overlap), ["C13", "C14"])
        p.oblige("no more than asked for", z3.Or(z3.Length(q) == 0, z3.Length(q) <= c.max))
    triples = ("tup", ("ref", "ParseResults"), ("int",), ("int",))
    def scan_call(p, args, b):
        self_, s, mx, ov = [p.resolve(x) for x in args]
        q = scanned(s.t, p.int_(mx), p.bool_(ov), self_.t)
        # in order (proved of _scan_string); class invariant: the element of a parser is a Group, whose results hold one token (ParseEnhancement.parse_impl, C27)
        p.seq_facts.append((q, lambda k: z3.And(good_at(q, k, s.t, p.bool_(ov)), z3.Length(toks(V.rval(V.t3a(q[k])))) == 1)))
        p.elem_fact(q, I(0)); p.elem_fact(q, z3.Length(q) - 1)
        return p.new_list(q, elem=triples)
    scanp = [("s", "str"), ("max", "int"), ("overlap", "bool")]
    add(Contract("core.Parser._scan_string", ["C13", "C14"], "Parser", scanp, ret=scan_ret, recs=[SCAN], cands=scan_cands, terminates=True, call=scan_call))
    def many_of(p, ci_, args, kw):
        if not p.con.qual.startswith("core.Parser."): return None
        return p.alloc(ci_)
    reg.constructors["ZeroOrMore"] = many_of       # only names the expression a search result belongs to

    def each(name, seq, item, keep=None):
        """the list of item(k), for the k of seq"""
        def step(c, st):
            k, acc = st
            out = [(k >= z3.Length(seq(c)), [acc])]
            if keep is not None: out.append((z3.Not(keep(c, k)), Next(k + 1, acc)))
            return out + [(TRUE, Next(k + 1, z3.Concat(acc, V1(item(c, k)))))]
        return Rec(name, ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], step, fixed=lambda c: [seq(c)])
    one = lambda v: toks(V.rval(V.t3a(v)))[0]
    sq = lambda c: scanned(c.s, c.max, c.overlap, c.self.t)
    SHOWN = each("SHOWN", sq, lambda c, k: V.t3(one(sq(c)[k]), V.t3b(sq(c)[k]), V.t3c(sq(c)[k])))
    add(Contract("core.Parser.scan_string", ["C13"], "Parser", scanp, recs=[SHOWN],
                 ret=lambda c, r: c.p.oblige("the token and span of each match scanned, in order", c.p.to_seq(r)[0] == SHOWN.value(c, 0))))
    fq = lambda c: scanned(c.s, c.max, FALSE, c.self.t)
    FOUND = each("FOUND", fq, lambda c, k: V.t3a(fq(c)[k]))
    def search_ret(c, r):
        p = c.p; r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns a parse result", repr(r)); return
        q = fq(c); m = z3.Length(q)
        p.oblige("its tokens are the matches scanned, in order", p.seq(p.rd("tokens", r.t, Int)) == FOUND.value(c, 0))
        p.oblige("its span is that from the first match to the last", z3.Implies(m > 0, z3.And(p.rd("start", r.t, Int) == tst_(q[0]), p.rd("end", r.t, Int) == ten_(q[m - 1]))))
    searchp = [("s", "str"), ("max", "int")]
    def ends_cands(p, mod, entry):
        from ..exec import Cand
        out = []
        def f(nm, which):
            def form(p, e, c):
                a, k, q = c[nm]["seq"], c["$k"]["int"], fq(p.ctx)
                if which == 0: return z3.Length(a) == k
                x = I(0) if which == 1 else k - 1
                return z3.Implies(k > 0, a[x] == V.t3a(q[x]))
            return form
        for nm, d in entry.items():
            if "seq" in d:
                for w in range(3): out.append(Cand(f"{nm} {['length', 'first', 'last'][w]}", f(nm, w)))
        return out
    add(Contract("core.Parser._search_string", ["C13"], "Parser", searchp, recs=[FOUND], ret=search_ret, cands=ends_cands))

    # ------------------------------------------------------------------ C14: splitting and transforming
    def split_step(c, st):
        k, last, acc = st
        q = fq(c); x = q[k]
        piece = z3.Concat(acc, V1(V.str(z3.SubString(c.s, last, tst_(x) - last))))
        return [(k >= z3.Length(q), [z3.Concat(acc, V1(V.str(z3.SubString(c.s, last, n(c) - last))))]),
                (c.sep, Next(k + 1, ten_(x), z3.Concat(piece, V1(one(x))))),
                (TRUE, Next(k + 1, ten_(x), piece))]
    SPLIT = Rec("SPLIT", ["int", "int", "seq"], [SeqV], lambda c: [I(0), I(0), EMPTY], split_step, fixed=lambda c: [c.s, c.sep, fq(c)])
    add(Contract("core.Parser._split", ["C14"], "Parser", [("s", "str"), ("max", "int"), ("sep", "bool")], recs=[SPLIT],
                 ret=lambda c, r: c.p.oblige("the text before, between and after the matches, in order, with the tokens of the matches when asked for", c.p.to_seq(r)[0] == SPLIT.value(c, 0))))

    # transforming: the text of a result is that of its strings, of a list that of its items, of anything else its own; an empty or false one is dropped
    MAPT, JOIN = z3.Function("MAP_text", SeqV, SeqV), z3.Function("JOIN", Str, SeqV, Str)
    NOSEP = z3.StringVal("")
    tq = lambda c: scanned(c.s, I(9223372036854775807), FALSE, c.self.t)
    TRUTH = z3.Function("TRUTH", V, Bool)
    def truthy(x):
        return z3.If(V.is_none(x), FALSE, z3.If(V.is_bool(x), V.bval(x), z3.If(V.is_int(x), V.ival(x) != 0, z3.If(V.is_str(x), z3.Length(V.sval(x)) > 0, z3.If(V.is_ref(x), TRUTH(x), TRUE)))))
    def shown(c, x):
        r = V.rval(x)
        return z3.If(z3.And(V.is_ref(x), c.p.sub(CLS0(r), ci("ParseResults"))), V.str(JOIN(NOSEP, MAPT(STRINGS(r)))),
                     z3.If(z3.And(V.is_ref(x), c.p.sub(CLS0(r), ci("list"))), V.str(JOIN(NOSEP, MAPT(seq0(r)))), x))
    reg.ifaces["ParseResults._asStringList"] = Iface("ParseResults._asStringList", lambda p, a: p.new_list(STRINGS(p.resolve(a[0]).t), elem=("dyn",)), "ParseResults", "_asStringList")
    def trans_step(c, st):
        k, last, acc = st
        q = tq(c); x = q[k]
        piece = z3.Concat(acc, V1(V.str(z3.SubString(c.s, last, tst_(x) - last))))
        return [(k >= z3.Length(q), [z3.Concat(acc, V1(V.str(z3.SubString(c.s, last, n(c) - last))))]),
                (truthy(one(x)), Next(k + 1, ten_(x), z3.Concat(piece, V1(shown(c, one(x)))))),
                (TRUE, Next(k + 1, ten_(x), piece))]
    TRANS = Rec("TRANSFORMED", ["int", "int", "seq"], [SeqV], lambda c: [I(0), I(0), EMPTY], trans_step, fixed=lambda c: [c.s, tq(c)])
    def value_or_state(c): return TRANS.value(c, 0)
    KEPT = each("NOT_EMPTY", value_or_state, lambda c, k: value_or_state(c)[k], keep=lambda c, k: truthy(value_or_state(c)[k]))
    def trans_ret(c, r):
        r = c.p.resolve(r)
        if not isinstance(r, VStr): c.p.fail("returns a text", repr(r)); return
        c.p.oblige("the text between the matches in place, each match replaced by the text of its tokens", r.t == JOIN(NOSEP, MAPT(KEPT.value(c, 0))))
    add(Contract("core.Parser._transformString", ["C14"], "Parser", [("s", "str")], recs=[TRANS, KEPT], ret=trans_ret))
