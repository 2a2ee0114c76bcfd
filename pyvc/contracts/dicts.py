"""contract of the action of Dict (C27): the names it adds"""
from .base import *
from ..registry import arg
from .results import VISIBLE, TEXT

TRUTH = fn("TRUTH", V, Bool)                       # the truth of an object whose class is not known yet
ANN = fn("ENTRY", Str, Int, Int, SeqV, Int)       # Annotation(name, start, end, values)

def install(reg):
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    Q = "enhancement._dict_post_parse"
    here = lambda p: p.con.qual == Q
    ispr = lambda p, v: z3.And(V.is_ref(v), p.sub(CLS0(V.rval(v)), ci("ParseResults")))
    def entries(p, r):
        q = VISIBLE(r)
        def fact(k):
            v = q[k]
            return z3.Implies(z3.And(0 <= k, k < n_(q)), z3.Or(V.is_str(v), z3.And(ispr(p, v), V.rval(v) < 0, TRUTH(v) == PR_TRUE(V.rval(v)))))
        p.seq_facts.append((q, fact))
    prev_iter = reg.ifaces["ParseResults.__iter__"]._apply
    def iter_(p, a):
        if here(p): entries(p, p.resolve(a[0]).t)
        return prev_iter(p, a)
    reg.ifaces["ParseResults.__iter__"]._apply = iter_
    prev_c = reg.constructors.get("Annotation")
    def annotation(p, ci_, args, kw):
        if not here(p): return prev_c(p, ci_, args, kw)
        p.x.used_contracts.add("results.Annotation.__init__")
        a = [arg(args, kw, i, x) for i, x in enumerate(["name", "start", "end", "value"])]
        nm = p.native(a[0], ("str",))
        if p.branch(n_(nm) == 0):
            p.unnamed = True
            p.raise_("MoLogsExcept")
        return VDyn(V.oth(ANN(nm, p.int_(a[1]), p.int_(a[2]), p.to_seq(a[3])[0])))
    reg.constructors["Annotation"] = annotation
    own = lambda c: seq0(z3.Function("fld_tokens", Int, Int)(c.a["tokens"].t))
    name = lambda v: z3.If(V.is_str(v), V.sval(v), TEXT(v))
    def entry_step(c, st):
        k, av, acc = st
        a = V.rval(av)
        t = VISIBLE(a)[k]
        r = V.rval(t)
        q = VISIBLE(r)
        put = lambda nm, s, e, vs: Next(k + 1, av, z3.Concat(acc, V1(V.oth(ANN(nm, s, e, vs)))))
        return [(k >= n_(VISIBLE(a)), [acc]),
                (z3.And(V.is_str(t), n_(V.sval(t)) == 0), Next(k + 1, av, acc)),
                (V.is_str(t), put(V.sval(t), F_start(a), F_end(a), EMPTY)),
                (z3.Or(z3.Not(TRUTH(t)), n_(q) == 0), Next(k + 1, av, acc)),
                (TRUE, put(name(q[0]), F_start(r), F_end(r), z3.SubSeq(q, 1, n_(q) - 1)))]
    IN = Rec("ENTRIES_OF", ["int", "V", "seq"], [SeqV], lambda c: None, entry_step, fixed=lambda c: [c.a["tokens"].t])
    def step(c, st):
        k, acc = st
        return [(k >= n_(own(c)), [acc]), (TRUE, Next(k + 1, IN.value(c, 0, [I(0), own(c)[k], acc])))]
    OUT = Rec("ENTRIES", ["int", "seq"], [SeqV], lambda c: [I(0), own(c)], step, fixed=lambda c: [c.a["tokens"].t])
    def setup(p, c):
        q = own(c)
        p.seq_facts.append((q, lambda k: z3.Implies(z3.And(0 <= k, k < n_(q)), z3.And(ispr(p, q[k]), V.rval(q[k]) < 0))))
    def ret(c, r):
        p = c.p
        p.oblige("the tokens themselves", p.box(r) == V.ref(c.a["tokens"].t))
        p.oblige("followed by one named result for each entry that shows something: its first item names the rest", p.seq(p.rd("tokens", c.a["tokens"].t, Int)) == OUT.value(c, 0))
    reg.contracts[Q] = Contract(Q, ["C27"], None, [("tokens", "ref:ParseResults"), ("loc", "int"), ("string", "str")], setup=setup, ret=ret,
                                exc=lambda c, e: c.p.oblige("refuses only an entry whose name is the empty text", z3.BoolVal(getattr(c.p, "unnamed", False))), recs=[OUT, IN],
                                writes={"$seq": lambda c, r: r == z3.Function("fld_tokens", Int, Int)(c.a["tokens"].t)})
