"""contracts of the actions that replace what was matched (C14, C26), of names deleted (C17), of actions of a forward (C11)"""
from .base import *
from .structure import PR_TYPE
from .results import LOOKUP, TEXT, VALUE

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    action = [("tokens", "ref:ParseResults"), ("index", "int"), ("string", "str")]
    # ------------------------------------------------------------------ C14: a replacement with variables
    Q = "core.ParserElement.replace_with.replacer"
    def parts_closure(p, c):
        q = z3.Const("p_parts", Int)
        p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
        s = seq0(q)
        c.parts = s
        def fact(k):
            """class invariant of what regex_parameters.split gives: texts and results that hold a name alternate"""
            x = s[k]
            v = VALUE(V.rval(x))
            return z3.And(z3.Implies(z3.And(0 <= k, k < n_(s), k % 2 == 0), V.is_str(x)),
                          z3.Implies(z3.And(0 <= k, k < n_(s), k % 2 == 1), z3.And(V.is_ref(x), p.sub(CLS0(V.rval(x)), ci("ParseResults")), V.is_str(v), n_(V.sval(v)) > 0)))
        p.seq_facts.append((s, fact))
        return {"parts": p.typed(q, ("list", ("dyn",)))}
    def shown(c, x):
        found = LOOKUP(c.a["tokens"].t, V.sval(VALUE(V.rval(x))))
        return z3.If(V.is_str(found), V.sval(found), TEXT(found))
    def step(c, st):
        k, acc = st
        x = c.parts[k]
        return [(k >= n_(c.parts), [acc]), (k % 2 == 0, Next(k + 1, z3.Concat(acc, V1(x)))),
                (TRUE, Next(k + 1, z3.Concat(acc, V1(V.str(shown(c, x))))))]
    REPL = Rec("REPLACED", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], step, fixed=lambda c: [c.parts, c.a["tokens"].t])
    prev_v = reg.methods.get("ParseResults.value")
    reg.methods["ParseResults.value"] = lambda p, recv, args, kw: VDyn(VALUE(recv.t)) if p.con.qual == Q else (prev_v(p, recv, args, kw) if prev_v else None)
    JOIN = z3.Function("JOIN", Str, SeqV, Str)
    add(Contract(Q, ["C14"], None, [("tokens", "ref:ParseResults")], closure=parts_closure, recs=[REPL],
                 ret=lambda c, r: c.p.oblige("its texts as they are and the tokens under its names, in order", c.p.native(r, ("str",)) == JOIN(z3.StringVal(""), REPL.value(c, 0)))))
    # ------------------------------------------------------------------ C26: substitution by the match it was made for
    SUBF = fn("SUBSTITUTED", Int, Int, Str, Int, V)
    rx = lambda c: z3.Function("fld_regex", Int, Int)(PR_TYPE(c.a["tokens"].t))
    def sub_pre(c):
        t = PR_TYPE(c.a["tokens"].t)
        return [("the tokens are of a regular expression that matched here", z3.And(c.p.sub(CLS0(t), ci("Regex")), RX_ok(rx(c), c.string, c.index), 0 <= c.index))]
    add(Contract("regex.Regex.sub.pa", ["C26"], None, action, closure=lambda p, c: {"replacement": VStr(z3.Const("replacement", Str))}, pre=sub_pre,
                 ret=lambda c, r: c.p.oblige("the replacement, expanded with the groups of this match", c.p.native(r, ("str",)) == z3.Function("RX_expand", Int, Str, Int, Str, Str)(rx(c), c.string, c.index, c.closure["replacement"].t))))
    PF = "regex.Regex.sub.pf"
    prev = reg.call_unknown
    def call_unknown(p, fnv, args, kw):
        if p.con.qual != PF: return prev(p, fnv, args, kw)
        m = p.resolve(args[0]) if len(args) == 1 and not kw else NONE
        if not isinstance(m, VMatch): p.fail("the function is given a match", repr(m)); return NONE
        return VDyn(SUBF(fnv.t, m.rx.t, m.s, m.i))
    reg.call_unknown = call_unknown
    add(Contract(PF, ["C26"], None, action, closure=lambda p, c: {"replacement": VCallable(z3.Const("replacement", Int))}, pre=sub_pre,
                 ret=lambda c, r: c.p.oblige("what the function makes of this match", c.p.box(r) == SUBF(c.closure["replacement"].t, rx(c), c.string, c.index))))
    # ------------------------------------------------------------------ C17: deleting a name
    def del_ret(c, r):
        p = c.p
        p.oblige("only names are deleted", z3.BoolVal(isinstance(p.resolve(c.a["key"]), VStr)))
        none = p.resolve(p.global_name(prog.modules["results"], "NO_RESULTS")).t
        p.oblige("erases what is under the name", p.seq(p.frame0.locals["$set"].t) == V1(V.t3(V.ref(c.self.t), c.p.box(c.a["key"]), V.ref(none))))
    dc = Contract("results.ParseResults.__delitem__", ["C17"], "ParseResults", [("key", ("oneof", ("str",), ("int",)))], ret=del_ret,
                  exc=lambda c, e: c.p.oblige("refuses positions, results of missing names and empty names", z3.Or(z3.BoolVal(not isinstance(c.p.resolve(c.a["key"]), VStr)),
                      c.self.t == c.p.resolve(c.p.global_name(prog.modules["results"], "NO_RESULTS")).t, c.p.box(c.a["key"]) == V.str(z3.StringVal("")))))
    dc.ghost = lambda c, p: {"$set": p.new_list(EMPTY, elem=("dyn",))}
    add(dc)
    # ------------------------------------------------------------------ C11: actions of a forward
    WRAP = z3.Function("WRAPPED", Int, Int)
    acts = lambda c: seq0(fld(c, "parse_action"))
    def fw_ret(c, r):
        p = c.p
        p.oblige("returns the forward", p.box(r) == V.ref(c.self.t))
        p.oblige("which has the action after those it had", p.seq(fld(c, "parse_action")) == z3.Concat(acts(c), V1(V.oth(WRAP(c.a["action"].t)))))
    add(Contract("enhancement.Forward.add_parse_action", ["C11"], "Forward", [("action", lambda p: VCallable(z3.Const("p_action", Int)))], ret=fw_ret,
                 writes={"$seq": lambda c, r: r == fld(c, "parse_action")}))
