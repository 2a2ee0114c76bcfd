"""contracts of the terminal expressions (tokens.py, regex.py)"""
from .base import *

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    n = lambda c: z3.Length(c.s)
    atom = lambda c: V1(V.str(cfg(c, "match", "str")))
    text = lambda c, e: V1(V.str(z3.SubString(c.s, c.i, e - c.i)))
    rxc = lambda c: cfg(c, "regex", "ref")
    P9 = ["C09"]
    add(ParseImpl("tokens.Empty.parse_impl", "Empty", P9, lambda c: TRUE, lambda c: c.i, lambda c: c.i, lambda c: EMPTY))
    add(ParseImpl("core.ParserElement.parse_impl", "ParserElement", P9, lambda c: TRUE, lambda c: c.i, lambda c: c.i, lambda c: EMPTY))
    add(ParseImpl("tokens.NoMatch.parse_impl", "NoMatch", P9, lambda c: FALSE, None))
    add(ParseImpl("tokens.AnyChar.parse_impl", "AnyChar", P9, lambda c: c.i < n(c), lambda c: c.i + 1, lambda c: c.i, lambda c: text(c, c.i + 1)))
    lit = lambda c: cfg(c, "match", "str")
    at = lambda c: z3.SubString(c.s, c.i, z3.Length(lit(c))) == lit(c)
    add(ParseImpl("tokens.Literal.parse_impl", "Literal", P9, at, lambda c: c.i + z3.Length(lit(c)), lambda c: c.i, atom,
                  pre=lambda c: [("class invariant: the literal is not empty", z3.Length(lit(c)) > 0)]))
    add(ParseImpl("tokens.SingleCharLiteral.parse_impl", "SingleCharLiteral", P9, at, lambda c: c.i + 1, lambda c: c.i, atom,
                  pre=lambda c: [("class invariant: one character", z3.Length(lit(c)) == 1)]))
    ok = lambda c: RX_ok(rxc(c), c.s, c.i)
    en = lambda c: RX_en(rxc(c), c.s, c.i)
    for q, k in (("Keyword", "Keyword"), ("CaselessLiteral", "CaselessLiteral")):
        add(ParseImpl(f"tokens.{q}.parse_impl", k, P9, ok, en, lambda c: c.i, atom))
    for q in ("Char", "CharsNotIn"):
        add(ParseImpl(f"tokens.{q}.parse_impl", q, P9 + ["C10"], ok, en, lambda c: c.i, lambda c: text(c, en(c))))
    wok = lambda c: RX_ok(fld(c, "regex"), c.s, c.i)
    wen = lambda c: RX_en(fld(c, "regex"), c.s, c.i)
    add(ParseImpl("tokens.Word.parse_impl", "Word", P9 + ["C10"], wok, wen, lambda c: c.i, lambda c: text(c, wen(c))))
    for q in ("WordStart", "WordEnd"):
        add(ParseImpl(f"tokens.{q}.parse_impl", q, P9, ok, lambda c: c.i, lambda c: c.i, lambda c: EMPTY))
    add(ParseImpl("tokens.LineEnd.parse_impl", "LineEnd", P9, ok, en, lambda c: c.i, lambda c: V1(V.str(z3.StringVal("\n")))))
    add(ParseImpl("tokens.StringStart.parse_impl", "StringStart", P9, lambda c: c.i == 0, lambda c: c.i, lambda c: c.i, lambda c: EMPTY))
    add(ParseImpl("tokens.StringEnd.parse_impl", "StringEnd", P9, lambda c: z3.Or(c.i == n(c), ok(c)),
                  lambda c: z3.If(c.i == n(c), c.i, en(c)), lambda c: c.i, lambda c: EMPTY))
    add(ParseImpl("tokens.LineStart.parse_impl", "LineStart", P9,
                  lambda c: z3.Or(c.i == 0, z3.SubString(c.s, c.i - 1, 1) == z3.StringVal("\n")), lambda c: c.i, lambda c: c.i, lambda c: EMPTY))
    # white space: greedy run
    wc = lambda c: cfg(c, "white_chars", "str")
    inw = lambda c, k: z3.Contains(wc(c), z3.SubString(c.s, k, 1))
    lim = lambda c: z3.If(c.i + cfg(c, "max_len", "int") < n(c), c.i + cfg(c, "max_len", "int"), n(c))
    run = Rec("RUN", ["int"], [Int], lambda c: [c.i + 1],
              lambda c, st: [(z3.And(st[0] < lim(c), inw(c, st[0])), Next(st[0] + 1)), (TRUE, [st[0]])], fixed=lambda c: [c.s, c.i, c.self.t])
    add(ParseImpl("tokens.White.parse_impl", "White", P9,
                  lambda c: z3.And(c.i < n(c), inw(c, c.i), run.value(c, 0) - c.i >= cfg(c, "min_len", "int")),
                  lambda c: run.value(c, 0), lambda c: c.i, lambda c: text(c, run.value(c, 0)), recs=[run], terminates=True,
                  pre=lambda c: [("class invariant: at least one character is allowed", cfg(c, "max_len", "int") >= 1)]))
    # close match: the positions that differ, up to the limit
    mt = lambda c: cfg(c, "match", "str")
    lim_ = lambda c: cfg(c, "max_mismatches", "int")
    def diff(c, st):
        k, acc = st
        here = z3.SubString(c.s, c.i + k, 1) != z3.SubString(mt(c), k, 1)
        acc2 = z3.Concat(acc, V1(V.int(k)))
        return [(k >= z3.Length(mt(c)), [TRUE, acc]),
                (z3.And(here, z3.Length(acc2) > lim_(c)), [FALSE, None]),
                (here, Next(k + 1, acc2)), (TRUE, Next(k + 1, acc))]
    DIFF = Rec("DIFFER", ["int", "seq"], [Bool, SeqV], lambda c: [I(0), EMPTY], diff, fixed=lambda c: [c.s, c.i, c.self.t])
    def close_extra(c, res):
        p = c.p
        log = p.seq(p.frame0.locals["$set"].t)
        me = V.ref(res.t)
        p.oblige("names the text compared with, and the positions that differ", z3.And(z3.Length(log) == 2, log[0] == V.t3(me, V.str(z3.StringVal("original")), V.str(mt(c))),
                 V.is_t3(log[1]), V.t3a(log[1]) == me, V.t3b(log[1]) == V.str(z3.StringVal("mismatches")), V.is_ref(V.t3c(log[1])), p.seq(V.rval(V.t3c(log[1]))) == DIFF.value(c, 1)), P9)
    cm = ParseImpl("tokens.CloseMatch.parse_impl", "CloseMatch", P9, lambda c: z3.And(c.i + z3.Length(mt(c)) <= n(c), DIFF.value(c, 0)), lambda c: c.i + z3.Length(mt(c)), lambda c: c.i,
                   lambda c: text(c, c.i + z3.Length(mt(c))), recs=[DIFF], extra=close_extra,
                   pre=lambda c: [("class invariant: the limit is not negative", lim_(c) >= 0)])
    cm.ghost = lambda c, p: {"$set": p.new_list(EMPTY, elem=("dyn",))}
    add(cm)
    # regular expressions: what the engine says
    rok = lambda c: RX_ok(fld(c, "regex"), c.s, c.i)
    ren = lambda c: RX_en(fld(c, "regex"), c.s, c.i)
    add(ParseImpl("regex.Regex.parse_impl", "Regex", ["C26"], rok, ren, lambda c: c.i, lambda c: text(c, ren(c))))
