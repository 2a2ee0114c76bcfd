"""contract of _verify_whitespace (C12, C20): the one whitespace the parts of a grammar agree on"""
from .base import *

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    Q = "core._verify_whitespace"
    CHECKED, CHECK_ok = fn("WHITESPACE_AGREED", V, V), fn("WHITESPACE_IS_AGREED", V, Bool)
    RXP = fn("RX_pattern", Int, Str)
    of = lambda f, srt=Int: z3.Function("fld_" + f, Int, srt)
    ID = of("id")
    def legal(p, x, deep=True):
        """none, a whitespace, or (of an expression with alternatives) a list"""
        kinds = [ci("Whitespace")] + ([ci("list")] if deep else [])
        return z3.Or(V.is_none(x), z3.And(V.is_ref(x), 0 < V.rval(x), V.rval(x) < A0, z3.Or([p.sub(CLS0(V.rval(x)), k) for k in kinds])))
    made = lambda v: z3.Implies(z3.Not(V.is_none(v)), z3.And(V.is_ref(of("regex", V)(V.rval(v))), V.rval(of("regex", V)(V.rval(v))) > 0))       # class invariant: the pattern is compiled by the constructor
    def call(p, args, b):
        x = p.box(args[0]); w = CHECKED(x)
        if not p.branch(CHECK_ok(x)): p.raise_("MoLogsExcept")
        p.assume(z3.And(legal(p, w, False), made(w)))
        p.mark_old(V.rval(w))
        return NONE if p.branch(V.is_none(w)) else VRef(V.rval(w), ci("Whitespace"))
    x = lambda c: c.a["whi"].t
    given = lambda c: seq0(V.rval(x(c)))
    counts = lambda v: z3.And(z3.Not(V.is_none(v)), n_(RXP(V.rval(of("regex", V)(V.rval(v))))) > 0)
    def step(c, st):
        k, acc = st
        e = given(c)[k]
        return [(k >= n_(given(c)), [acc, TRUE]), (z3.Not(CHECK_ok(e)), [acc, FALSE]),
                (counts(CHECKED(e)), Next(k + 1, z3.Concat(acc, V1(CHECKED(e))))), (TRUE, Next(k + 1, acc))]
    KEPT = Rec("WHITESPACES_THAT_COUNT", ["int", "seq"], [SeqV, Bool], lambda c: [I(0), EMPTY], step, fixed=lambda c: [given(c)])
    F = lambda c: KEPT.value(c, 0)
    rest = lambda c: z3.SubSeq(F(c), I(1), n_(F(c)) - 1)
    SAME = Rec("SAME_ID", ["int"], [Bool], lambda c: [I(0)],
               lambda c, st: [(st[0] >= n_(rest(c)), [TRUE]), (ID(V.rval(rest(c)[st[0]])) != ID(V.rval(F(c)[0])), [FALSE]), (TRUE, Next(st[0] + 1))], fixed=lambda c: [rest(c), F(c)[0]])
    is_list = lambda c: z3.And(V.is_ref(x(c)), c.p.sub(CLS0(V.rval(x(c))), ci("list")))
    def setup(p, c):
        p.assume(legal(p, x(c)))
        p.mark_old(V.rval(x(c)))
        p.assume(z3.Implies(is_list(c), z3.Not(p.sub(CLS0(V.rval(x(c))), ci("Whitespace")))))
        s = given(c)
        p.seq_facts.append((s, lambda k: z3.Implies(z3.And(is_list(c), 0 <= k, k < n_(s)), legal(p, s[k]))))
    def ret(c, r):
        p = c.p; b = p.box(r)
        p.oblige("no whitespace is asked for where none is named", z3.Implies(V.is_none(x(c)), V.is_none(b)))
        p.oblige("one whitespace is itself", z3.Implies(z3.Not(z3.Or(V.is_none(x(c)), is_list(c))), b == x(c)))
        p.oblige("every part of a list is agreed", z3.Implies(is_list(c), KEPT.value(c, 1)))
        p.oblige("none when no part skips anything, otherwise that of the first that does", z3.Implies(is_list(c), b == z3.If(n_(F(c)) == 0, V.none, F(c)[0])))
        p.oblige("which all others have too", z3.Implies(z3.And(is_list(c), n_(F(c)) > 0), SAME.value(c, 0)))
    def exc(c, e):
        c.p.oblige("refuses only parts that are refused or have another whitespace", z3.And(is_list(c), z3.Or(z3.Not(KEPT.value(c, 1)), z3.And(n_(F(c)) > 0, z3.Not(SAME.value(c, 0))))))
    con = Contract(Q, ["C12", "C20"], None, [("whi", "dyn")], setup=setup, ret=ret, exc=exc, recs=[KEPT, SAME], call=call)
    reg.assumed.pop(Q, None)
    add(con)
