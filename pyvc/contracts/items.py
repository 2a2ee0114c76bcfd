"""contracts of the named items of a result: items, keys, values (C16)"""
from .base import *
from ..exec import Cand, Unsupported
from .structure import PR_TYPE
from .results import VISIBLE

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    toks = lambda r: seq0(z3.Function("fld_tokens", Int, Int)(r))
    own = lambda c: toks(c.self.t)
    ref = V.rval
    NAME = lambda r: z3.Function("fld_token_name", Int, Str)(z3.Function("fld__type", Int, Int)(r))
    ITEMS, OWN = fn("ITEMS", Int, SeqV), fn("OWN_ITEMS", Int, SeqV)      # names and what is found under them: of a result, and of its own tokens
    GROUPED = fn("GROUPED_BY_NAME", SeqV, SeqV)                         # each name once, in the order they first occur, with all values under it in order
    BOXED, HELD = fn("BOXED", SeqV, V), fn("HELD_BY", V, Int)
    Q = "results.ParseResults.items"
    def isa(p, x, cls): return z3.And(V.is_ref(x), p.sub(CLS0(ref(x)), ci(cls)))
    is_pr = lambda p, x: isa(p, x, "ParseResults")
    typed_as = lambda p, x, cls: p.sub(CLS0(PR_TYPE(ref(x))), ci(cls))
    forward = lambda p, x: p.sub(CLS0(ref(x)), ci("ForwardResults"))
    good = lambda x: z3.And(V.is_t2(x), V.is_str(V.t2a(x)), BOXED(seq0(HELD(x))) == V.t2b(x), HELD(x) > 0, HELD(x) < A0)
    def pairs(p, q):
        """iterating over the named items q"""
        def at(i):
            x = q[i]
            p.assume(z3.Implies(z3.And(0 <= i, i < n_(q)), good(x)))
            h = HELD(x); p.mark_old(h)
            return VTup([VStr(V.sval(V.t2a(x))), p.typed(h, ("list", ("dyn",)))])
        it = VIter(n_(q), at)
        it.whole = (q, ("dyn",))
        return it
    # ------------------------------------------------------------------ what is collected in the dictionary
    ALL = fn("AND_ALL", SeqV, Int, SeqV, SeqV)        # acc and the entries of q from position k on
    def all_(c, q, k, acc):
        return ALL(q, k, acc), [z3.Implies(k >= n_(q), ALL(q, k, acc) == acc), z3.Implies(z3.And(0 <= k, k < n_(q)), ALL(q, k, acc) == ALL(q, k + 1, z3.Concat(acc, V1(q[k]))))]
    def fold_cands(p, mod, entry):
        out = []
        for nm, d in entry.items():
            if "seq" not in d: continue
            def form(p, e, c, nm=nm):
                q, k, acc = e["$it"]["it"], c["$k"]["int"], c[nm]["seq"]
                for g in all_(p.ctx, q, I(0), e[nm]["seq"])[1]: p.assume(g)
                for g in all_(p.ctx, q, k, acc)[1]: p.assume(g)
                return all_(p.ctx, q, I(0), e[nm]["seq"])[0] == all_(p.ctx, q, k, acc)[0]
            out.append(Cand(f"fold {nm}", form))
        return out
    def step(c, st):
        k, acc = st
        p = c.p
        x = own(c)[k]
        return [(k >= n_(own(c)), [acc]),
                (z3.Or(z3.Not(is_pr(p, x)), typed_as(p, x, "Suppress")), Next(k + 1, acc)),
                (n_(NAME(ref(x))) > 0, Next(k + 1, z3.Concat(acc, V1(V.t2(V.str(NAME(ref(x))), BOXED(V1(x))))))),
                (z3.And(typed_as(p, x, "Group"), z3.Not(forward(p, x))), Next(k + 1, acc)),
                (TRUE, Next(k + 1, ALL(OWN(ref(x)), I(0), acc)))]
    NAMED = Rec("NAMED_TOKENS", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], step, fixed=lambda c: [own(c)])
    def collect(p, args, b):
        d, k, v = p.resolve(args[0]), p.resolve(args[1]), p.resolve(args[2])
        if p.con.qual != Q: raise Unsupported("results.add")
        if not (isinstance(d, VDict) and not d.d and isinstance(k, VStr)): p.fail("collected under a name", repr((d, k))); return NONE
        if isinstance(v, VTup): q = p.to_seq(v)[0]
        elif isinstance(v, VRef) and v.cls.name == "list": q = p.seq(v.t)
        else: p.fail("a list is collected", repr(v)); return NONE
        p.list_append(p.frame0.locals["$log"], VDyn(V.t2(V.str(k.t), BOXED(q))))
        return NONE
    reg.assumed["results.add"] = Contract("results.add", [], None, [], call=collect, note="adds the values to those under the name, in a dictionary that keeps the order of its names")
    def dict_method(p, recv, name, args, kw):
        if p.con.qual == Q and name == "items" and not recv.d:
            return p.new_list(GROUPED(p.seq(p.frame0.locals["$log"].t)), elem=("dyn",))
        return None
    reg.dict_method = dict_method
    seq_of = lambda p, r: p.to_seq(r)[0]
    con = Contract(Q, ["C16"], "ParseResults", [], recs=[NAMED], cands=fold_cands,
                   ret=lambda c, r: c.p.oblige("the named tokens of the open scope, the values under each name together", seq_of(c.p, r) == GROUPED(NAMED.value(c, 0))),
                   call=lambda p, args, b: pairs(p, OWN(p.resolve(args[0]).t)))
    con.ghost = lambda c, p: {"$log": p.new_list(EMPTY, elem=("dyn",))}
    add(con)
    reg.ifaces["ParseResults.items"] = Iface("ParseResults.items", lambda p, a: pairs(p, ITEMS(p.resolve(a[0]).t)), "ParseResults", "items")
    # ------------------------------------------------------------------ keys and values: those of the items
    mine = lambda c: ITEMS(c.self.t)
    def part(name, item):
        return Rec(name, ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
                   lambda c, st: [(st[0] >= n_(mine(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(item(mine(c)[st[0]])))))], fixed=lambda c: [mine(c)])
    KEYS, VALUES = part("THEIR_NAMES", lambda x: V.t2a(x)), part("THEIR_VALUES", lambda x: V.ref(HELD(x)))
    add(Contract("results.ParseResults.keys", ["C16"], "ParseResults", [], recs=[KEYS], ret=lambda c, r: c.p.oblige("the names of the items, in order", seq_of(c.p, r) == KEYS.value(c, 0))))
    add(Contract("results.ParseResults.values", ["C16"], "ParseResults", [], recs=[VALUES], ret=lambda c, r: c.p.oblige("the values of the items, in order", seq_of(c.p, r) == VALUES.value(c, 0))))
    # ------------------------------------------------------------------ a forward: the names of its tokens, and those of what it holds that are not among them
    FQ = "results.ForwardResults.items"
    def on_yield(p, v):
        if p.con.qual != FQ: return v
        v = p.resolve(v)
        if not (isinstance(v, VTup) and len(v.items) == 2): p.fail("gives pairs", repr(v)); return v
        k, l = p.resolve(v.items[0]), p.resolve(v.items[1])
        if isinstance(l, VTup): q = p.to_seq(l)[0]
        elif isinstance(l, VRef) and l.cls.name == "list": q = p.seq(l.t)
        else: p.fail("gives a list with each name", repr(l)); return v
        return VDyn(V.t2(p.box(k), BOXED(q)))
    reg.on_yield = on_yield
    held = lambda c: ref(own(c)[0])
    def first_step(c, st):
        k, seen, acc = st
        x = own(c)[k]; nm = V.str(NAME(ref(x)))
        new = z3.And(n_(NAME(ref(x))) > 0, z3.Not(z3.Contains(seen, V1(nm))))
        return [(k >= n_(own(c)), [seen, acc]), (new, Next(k + 1, z3.Concat(seen, V1(nm)), z3.Concat(acc, V1(V.t2(nm, BOXED(V1(x))))))), (TRUE, Next(k + 1, seen, acc))]
    TOP = Rec("NAMES_OF_FORWARD", ["int", "seq", "seq"], [SeqV, SeqV], lambda c: [I(0), EMPTY, EMPTY], first_step, fixed=lambda c: [own(c)])
    inner = lambda c: ITEMS(held(c))
    def rest_step(c, st):
        k, acc = st
        x = inner(c)[k]
        return [(k >= n_(inner(c)), [acc]), (z3.Contains(TOP.value(c, 0), V1(V.t2a(x))), Next(k + 1, acc)), (TRUE, Next(k + 1, z3.Concat(acc, V1(x))))]
    REST = Rec("NAMES_BEHIND_FORWARD", ["int", "seq"], [SeqV], lambda c: [I(0), TOP.value(c, 1)], rest_step, fixed=lambda c: [inner(c), TOP.value(c, 0)])
    def fsetup(p, c):
        s = own(c)
        p.assume(n_(s) >= 1)
        p.seq_facts.append((s, lambda k: z3.Implies(z3.And(0 <= k, k < n_(s)), is_pr(p, s[k]))))       # class invariant of ForwardResults: what is held, and annotations added to it
        p.elem_fact(s, I(0))
    add(Contract(FQ, ["C16"], "ForwardResults", [], setup=fsetup, recs=[TOP, REST],
                 ret=lambda c, r: c.p.oblige("its own names, each once, and then those of what it holds that it does not have itself", seq_of(c.p, r) == REST.value(c, 0))))
