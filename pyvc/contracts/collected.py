"""contracts of the failures an attempt collects (C18): a second contract on the parse_impl methods, about failures alone"""
from .base import *
from ..registry import parse_failure
from ..exec import PyRaise
SHORT = fn("SHORT", Int, Str, Int, SeqV)

P_fail = fn("P_fail", Int, Str, Int, Bool, Int)      # the failure of an attempt that does not match

def install(reg):
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    FAILS = lambda r: seq0(z3.Function("fld_failures", Int, Int)(r))
    subcls = lambda p, tag, name: p.sub(tag, ci(name))
    at = lambda q, k: V.rval(q[k])
    exprs = lambda c: seq0(fld(c, "exprs"))
    alt = lambda c: seq0(fld(c, "alternate"))
    expr = lambda c: fld(c, "expr")
    W = lambda c: cfg(c, "whitespace", "ref")
    E1 = lambda c, e, ix, da=None: V1(V.ref(P_fail(e, c.s, ix, c.da if da is None else da)))
    cat = z3.Concat

    def failed(p, e, s, i, d):
        """the failure raised by an attempt: the same for the same attempt"""
        x = P_fail(e, s, i, d)
        p.assume(x < 0); p.mark_old(x)
        p.assume(p.sub(p.tag(x), ci("ParseException")))
        raise PyRaise(VRef(x, ci("ParseException")))
    reg.failed = failed

    class Collects(Contract):
        """known(c): the failures an attempt collects; the result is given exactly these, a failure names these as its causes"""
        def __init__(self, target, cls, known, when=None, ok=None, single=False, **kw):
            super().__init__(target + " (failures)", ["C18"], cls, [("s", "str"), ("i", "int"), ("da", "bool")], **kw)
            self.fn, self.known, self.when, self.single, self.frame_props, self.at_calls = target, known, when, single, [], False
            self.generic, self.collected, self.props = True, True, ["C18"]
        def pre(self, c): return [("in text", z3.And(0 <= c.i, c.i <= n_(c.s)))] + (self._pre(c) if self._pre else [])
        def on_return(self, c, res):
            p = c.p; res = p.resolve(res)
            if not (isinstance(res, VRef) and res.cls.issub(ci("ParseResults"))): p.fail("returns a parse result", repr(res)); return
            f = p.seq(p.rd("failures", res.t, Int))
            p.oblige("a match keeps the failures met on the way", f == self.known(c))
        def on_raise(self, c, exc):
            p = c.p
            if not p.entails(p.isinst(exc, ci("ParseException"))): return       # C01: only parse failures are raised
            cv = p.rd("unsorted_cause", exc.t, V)
            given = z3.If(V.is_none(cv), EMPTY, z3.If(z3.And(V.is_ref(cv), p.sub(p.tag(V.rval(cv)), ci("list"))), p.seq(V.rval(cv)), V1(cv)))
            q = self.known(c)
            w = z3.Or(given == q, z3.And(q == V1(V.ref(exc.t))))
            p.oblige("a failure is caused by the failures met on the way", z3.Implies(self.when(c), w) if self.when else w)
    def add(c): reg.contracts[c.qual] = c

    # ------------------------------------------------------------------ sequences
    def drop(c, r, en, ix):
        t = z3.Function("PR_type", Int, Int)(r)
        cf = z3.Function("fld_parser_config", Int, Int)(t)
        return z3.And(z3.Not(PR_TRUE(r)), ix == en, subcls(c.p, CLS0(t), "Many"), V.ival(z3.Function("fld_cfg_min_match", Int, V)(cf)) == 0)
    def and_step(c, st):
        k, end, fl = st
        e = at(exprs(c), k)
        ix = z3.If(z3.Or(end == c.i, subcls(c.p, CLS0(e), "PrecededBy")), end, SK(W(c), c.s, end))
        r, en = P_res(e, c.s, ix, c.da), P_en(e, c.s, ix, c.da)
        more = cat(fl, FAILS(r))
        return [(k >= n_(exprs(c)), [fl]),
                (subcls(c.p, CLS0(e), "SyntaxErrorGuard"), Next(k + 1, end, fl)),
                (z3.Not(P_ok(e, c.s, ix, c.da)), [cat(fl, E1(c, e, ix))]),
                (drop(c, r, en, ix), Next(k + 1, end, more)),
                (TRUE, Next(k + 1, en, more))]
    ANDF = Rec("SEQ_FAILURES", ["int", "int", "seq"], [SeqV], lambda c: [I(0), c.i, EMPTY], and_step, fixed=lambda c: [c.s, c.i, c.da, c.self.t])
    add(Collects("expressions.And.parse_impl", "And", lambda c: ANDF.value(c, 0), recs=[ANDF]))

    # ------------------------------------------------------------------ the first alternative that matches
    def first_rec(name, seq):
        def step(c, st):
            k, fl = st
            e = at(seq(c), k)
            return [(k >= n_(seq(c)), [fl]),
                    (P_ok(e, c.s, c.i, c.da), [cat(fl, FAILS(P_res(e, c.s, c.i, c.da)))]),
                    (TRUE, Next(k + 1, cat(fl, E1(c, e, c.i))))]
        return Rec(name, ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], step, fixed=lambda c: [c.s, c.i, c.da, c.self.t])
    FIRSTF = first_rec("FIRST_FAILURES", alt)
    add(Collects("expressions.MatchFirst.parse_impl", "MatchFirst", lambda c: FIRSTF.value(c, 0), recs=[FIRSTF]))

    # ------------------------------------------------------------------ one piece
    def one(c, da=None):
        d = c.da if da is None else da
        e = expr(c)
        return z3.If(P_ok(e, c.s, c.i, d), FAILS(P_res(e, c.s, c.i, d)), E1(c, e, c.i, d))
    for q, cls in (("enhancement.ParseEnhancement.parse_impl", "ParseEnhancement"), ("enhancement.LookAhead.parse_impl", "LookAhead"),
                   ("enhancement.Optional.parse_impl", "Optional"), ("enhancement.Combine.parse_impl", "Combine")):
        add(Collects(q, cls, one))
    fw = lambda c: V.rval(z3.Function("fld_expr", Int, V)(c.self.t))
    add(Collects("enhancement.Forward.parse_impl", "Forward", lambda c: z3.If(P_ok(fw(c), c.s, c.i, c.da), FAILS(P_res(fw(c), c.s, c.i, c.da)), E1(c, fw(c), c.i)),
                 pre=lambda c: [("the declaration has been defined", V.is_ref(z3.Function("fld_expr", Int, V)(c.self.t)))]))

    # ------------------------------------------------------------------ repetitions
    mx, mn = lambda c: cfg(c, "max_match", "int"), lambda c: cfg(c, "min_match", "int")
    def many_step(c, st):
        end, count, fl = st
        ix = z3.If(count > 0, SK(W(c), c.s, end), end)
        stop = cfg(c, "end", "V")
        e = expr(c)
        en = P_en(e, c.s, ix, c.da)
        more = cat(fl, FAILS(P_res(e, c.s, ix, c.da)))
        return [(count >= mx(c), [count, fl, FALSE]),
                (z3.And(end >= n_(c.s), count >= mn(c)), [count, fl, FALSE]),
                (z3.And(V.is_ref(stop), RX_ok(V.rval(stop), c.s, ix)), [count, fl, TRUE]),
                (z3.Not(P_ok(e, c.s, ix, c.da)), [count, cat(fl, E1(c, e, ix)), FALSE]),
                (z3.And(en == P_st(e, c.s, ix, c.da), count < mn(c)), [mn(c), more, FALSE]),
                (en == P_st(e, c.s, ix, c.da), [count, fl, FALSE]),
                (TRUE, Next(en, count + 1, more))]
    MANYF = Rec("REPEAT_FAILURES", ["int", "int", "seq"], [Int, SeqV, Bool], lambda c: [c.i, I(0), EMPTY], many_step, fixed=lambda c: [c.s, c.da, c.self.t])
    add(Collects("enhancement.Many.parse_impl", "Many", lambda c: MANYF.value(c, 1), recs=[MANYF], when=lambda c: z3.Not(MANYF.value(c, 2)),
                 pre=lambda c: [("class invariant: bounds", z3.And(0 <= mn(c), mn(c) <= mx(c)))]))

    # ------------------------------------------------------------------ the shortlist of a fast choice
    rx = lambda c: fld(c, "regex")
    lower = lambda t: z3.Function("STR_lower", Str, Str)(t)
    key = lambda c: lower(z3.SubString(c.s, c.i, RX_en(rx(c), c.s, c.i) - c.i))
    short = lambda c: z3.If(RX_ok(rx(c), c.s, c.i), seq0(z3.Function("FAST_lookup", Int, Str, Int)(c.self.t, key(c))), EMPTY)
    FASTF = first_rec("FASTFIRST_FAILURES", short)
    add(Collects("expressions.Fast.parse_impl", "Fast", lambda c: FASTF.value(c, 0), recs=[FASTF],
                 pre=lambda c: [("class invariant: the pattern matches keys of the lookup only", z3.Implies(RX_ok(rx(c), c.s, c.i), z3.Function("FAST_has", Int, Str, Bool)(c.self.t, key(c))))]))

    # ------------------------------------------------------------------ the longest of the alternatives
    def or_inner(c, st):
        k, e, fl = st
        q = SHORT(e, c.s, c.i)
        x = at(q, k)
        return [(k >= n_(q), [fl]),
                (P_ok(x, c.s, c.i, TRUE), Next(k + 1, e, fl)),
                (TRUE, Next(k + 1, e, cat(fl, E1(c, x, c.i, TRUE))))]
    ktoo = lambda p, pools, mod, entry: [[x for x in q if x in ("$k",) or "int" not in entry[x]] for q in pools]
    ORIF = Rec("ORSHORT_FAILURES", ["int", "ref", "seq"], [SeqV], lambda c: None, or_inner, fixed=lambda c: [c.s, c.i], only=ktoo)
    def or_step(c, st):
        k, fl = st
        e = at(alt(c), k)
        return [(k >= n_(alt(c)), [fl]),
                (subcls(c.p, CLS0(e), "Fast"), Next(k + 1, ORIF.value(c, 0, [I(0), e, fl]))),
                (P_ok(e, c.s, c.i, TRUE), Next(k + 1, fl)),
                (TRUE, Next(k + 1, cat(fl, E1(c, e, c.i, TRUE))))]
    ORF = Rec("OR_FAILURES", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], or_step, fixed=lambda c: [c.s, c.i, c.self.t], only=ktoo)
    first = reg.contracts["expressions.Or.parse_impl"]
    M = lambda c: first.matches(c)
    def or_known(c):
        e = V.rval(V.t2b(FIRSTMAX(M(c))))
        return z3.If(n_(M(c)) > 0, cat(ORF.value(c, 0), FAILS(P_res(e, c.s, c.i, c.da))), ORF.value(c, 0))
    def or_cands(p, mod, entry):
        from ..exec import Cand
        return first._cands(p, mod, entry) + [Cand(f"{nm}: the same list", lambda p, e, c, nm=nm: c[nm]["seq"] == e[nm]["seq"]) for nm, d in entry.items() if "seq" in d]
    orc = Collects("expressions.Or.parse_impl", "Or", or_known, recs=first.recs + [ORF, ORIF], pre=first._pre, cands=or_cands)
    orc.generic = False
    add(orc)
