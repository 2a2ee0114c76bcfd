"""contracts of check_recursion (C24): which grammars are refused when a forward is defined.
REC(e, seen): e.check_recursion(seen) refuses, seen being the expressions on the way to e that have consumed nothing.  Each class is shown
to refuse exactly when one of the parts that can be reached without consuming text does."""
from .base import *
from ..exec import Cand

REC = fn("RECURSES", Int, SeqV, Bool)
MREP = fn("MIN_LENGTH_REPORTED", Int, Int)     # what e.min_length() returns while nothing is being defined

def install(reg):
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    ON = set()
    exprs = lambda c: seq0(fld(c, "exprs"))
    at = lambda q, k: V.rval(q[k])
    seen0 = lambda c: seq0(c.a["seen"].t)
    more = lambda c: z3.Concat(seen0(c), V1(V.ref(c.self.t)))

    def check(p, a):
        e, seen = p.resolve(a[0]), p.resolve(a[1])
        if p.branch(REC(e.t, p.to_seq(seen)[0])): p.raise_("RecursiveGrammarException")
        return NONE
    reg.ifaces["ParserElement.check_recursion"] = Iface("ParserElement.check_recursion", check, "ParserElement", "check_recursion")
    prev = reg.ifaces["ParserElement.min_length"]._apply
    def minlen(p, a):
        if p.con.qual not in ON: return prev(p, a)
        e = p.resolve(a[0])
        p.assume(MREP(e.t) >= 0)
        return VInt(MREP(e.t))
    reg.ifaces["ParserElement.min_length"]._apply = minlen

    def con(qual, cls, recs, when, extra=None):
        def ret(c, r): c.p.oblige("accepts only what does not come back to itself", z3.Not(when(c)))
        def exc(c, e):
            p = c.p
            p.oblige("refuses with the error for that", p.isinst(e, ci("RecursiveGrammarException")))
            p.oblige("refuses only what comes back to itself", when(c))
        k = Contract(qual, ["C24"], cls, [("seen", "list:ref:ParserElement")], ret=ret, exc=exc, recs=recs, frame_props=["C24"])
        ON.add(qual)
        reg.contracts[qual] = k
    def and_step(c, st):
        k, = st
        e = at(exprs(c), k)
        return [(k >= z3.Length(exprs(c)), [FALSE]), (REC(e, more(c)), [TRUE]), (MREP(e) != 0, [FALSE]), (TRUE, Next(k + 1))]
    def any_step(c, st):
        k, = st
        return [(k >= z3.Length(exprs(c)), [FALSE]), (REC(at(exprs(c), k), more(c)), [TRUE]), (TRUE, Next(k + 1))]
    rec = lambda name, step: Rec(name, ["int"], [Bool], lambda c: [I(0)], step, fixed=lambda c: [c.self.t, more(c)])
    A = rec("RECAND", and_step)
    con("expressions.And.check_recursion", "And", [A], lambda c: A.value(c, 0))
    for cls in ("Or", "MatchFirst", "MatchAll"):
        R = rec("RECANY", any_step)
        con(f"expressions.{cls}.check_recursion", cls, [R], lambda c, R=R: R.value(c, 0))
    inside = lambda c: z3.Contains(seen0(c), V1(V.ref(c.self.t)))
    con("enhancement.ParseEnhancement.check_recursion", "ParseEnhancement", [], lambda c: z3.Or(inside(c), REC(fld(c, "expr"), more(c))))
    fexpr = lambda c: fld(c, "expr", V)
    con("enhancement.Forward.check_recursion", "Forward", [], lambda c: z3.Or(inside(c), z3.And(z3.Not(V.is_none(fexpr(c))), REC(V.rval(fexpr(c)), more(c)))))
    con("core.ParserElement.check_recursion", "ParserElement", [], lambda c: FALSE)
    # ------------------------------------------------------------------ C24, C21: what a forward is defined as
    B = reg.builders
    operand, iskind, NORM, STREAM, CUR0 = B["operand"], B["iskind"], B["NORMF"], B["STREAM"], B["CUR0"]
    FW, PE = ci("Forward"), ci("ParserElement")
    LQ = "enhancement.Forward.__lshift__"
    DEFS = {LQ}
    prev_st = reg.methods["ParserElement.streamline"]
    reg.methods["ParserElement.streamline"] = lambda p, recv, args, kw: B["streamlined"](p, recv, args, kw) if p.con.qual in DEFS else prev_st(p, recv, args, kw)
    F0 = lambda n, srt=V: z3.Function("fld_" + n, Int, srt)
    def follow_step(c, st):
        """a defined forward that has no name and no action of its own stands for its definition"""
        x, = st
        f = V.rval(x)
        through = z3.And(V.is_ref(x), c.p.sub(CLS0(f), FW), z3.Not(V.is_none(F0("expr")(f))), F0("token_name", Str)(f) == z3.StringVal(""), z3.Length(seq0(F0("parse_action", Int)(f))) == 0)
        return [(z3.Not(through), [x]), (TRUE, Next(F0("expr")(f)))]
    FOLLOW = Rec("STANDS_FOR", ["V"], [V], lambda c: [c.p.box(c.a["other"])], follow_step)
    DEFINED = fn("DEFINED_AS", Int, V, V)     # what the definition of another forward returns
    again = lambda c: z3.And(z3.Not(V.is_none(F0("origin")(c.self.t))), F0("expr")(c.self.t) == F0("origin")(c.self.t))
    def other_definition(p, recv, args, kw):
        return VDyn(DEFINED(recv.t, p.box(args[0])))
    prev_l = reg.methods.get("ParserElement.__lshift__")
    reg.methods["ParserElement.__lshift__"] = lambda p, recv, args, kw: other_definition(p, recv, args, kw) if p.con.qual in DEFS else (prev_l(p, recv, args, kw) if prev_l else None)
    def ls_ret(c, r):
        p = c.p
        p.oblige("a copy made before the original was defined defines the original", z3.Implies(again(c), p.box(r) == DEFINED(V.rval(F0("origin")(c.self.t)), p.box(c.a["other"]))))
        own = lambda t: z3.Implies(z3.Not(again(c)), t)
        p.oblige("returns the forward", own(p.box(r) == V.ref(c.self.t)))
        x = FOLLOW.value(c, 0)
        p.oblige("is defined as what the operand stands for, simplified", own(p.box(p.getattr_(c.self, "expr")) == V.ref(STREAM(V.rval(NORM(CUR0, x))))))
        p.oblige("is accepted only when it does not come back to itself", own(z3.Not(REC(c.self.t, EMPTY))))
    def ls_exc(c, e):
        p = c.p
        refused = p.isinst(e, ci("RecursiveGrammarException"))
        v = c.a["other"]
        p.oblige("refuses what comes back to itself, or is no expression", z3.Or(z3.And(refused, REC(c.self.t, EMPTY)), z3.BoolVal(iskind(v, "other") or iskind(v, "none"))))
    lc = Contract(LQ, ["C24", "C21"], "Forward", [("other", operand("other", ("element", "text", "other")))], ret=ls_ret, exc=ls_exc, recs=[FOLLOW],
                  writes={"expr": lambda c, r: r == c.self.t, "_str": lambda c, r: r == c.self.t}, frame_props=["C21"])
    lc.ref_values = True
    def ls_cands(p, mod, entry):
        isx = lambda p, v: z3.And(V.is_ref(v), p.sub(p.tag(V.rval(v)), PE))
        ws = [w for w, d in entry.items() if "V" in d and w in mod]
        return [Cand(f"{w} is an expression when it was", lambda p, e, c, w=w: z3.Implies(isx(p, e[w]["V"]), isx(p, c[w]["V"])) if "V" in c[w] else None) for w in ws] + [
                Cand(f"{w} unchanged when it was none", lambda p, e, c, w=w: z3.Implies(z3.Not(isx(p, e[w]["V"])), c[w]["V"] == e[w]["V"]) if "V" in c[w] else None) for w in ws]
    lc._cands = ls_cands
    def ls_setup(p, c):
        q = z3.Const("glob_whitespaces.CURRENT", Int)
        p.assume(z3.And(q > 0, q < A0))
        o = F0("origin")(c.self.t)      # class invariant: Forward.copy sets it to a forward, nothing else does
        p.assume(z3.Or(V.is_none(o), z3.And(V.is_ref(o), c.p.sub(CLS0(V.rval(o)), FW))))
    lc._setup = ls_setup
    reg.contracts[LQ] = lc
