"""contracts of expecting (C03, C04): the texts a match can start with.  A dictionary of expectations is the sequence of its keys.
For every expression class: when something is expected at all, a match that consumes something starts with one of the texts expected, whatever
its letter case.  KEYS_EXPECTED(e) is what expecting() of a child gives (interface contract); the text and the position are arbitrary but fixed."""
import ast
from .base import *
from ..exec import Cand, Unsupported
from .lengths import MINLEN

ANYHIT, HITS = fn("EXPECTED_HERE", SeqV, Bool), fn("EXPECTED_AMONG_FIRST", SeqV, Int, Bool)
LP = fn("TEXT_STARTS_WITH", V, Bool)               # the text at the position starts with it, whatever the letter case
UP = fn("FOUND_OR_UNKNOWN", SeqV, Int, Bool)       # one of the first k expressions expects what is there, or expects nothing known
KEYS = fn("KEYS_EXPECTED", Int, SeqV)
PROPS = ["C03", "C04"]

def units(q):
    d = q.decl().kind()
    if d == z3.Z3_OP_SEQ_EMPTY: return []
    if d == z3.Z3_OP_SEQ_CONCAT: return [u for x in q.children() for u in units(x)]
    return [q]

def hit(p, q):
    us = units(q)
    m = z3.Or([LP(u.arg(0)) if u.decl().kind() == z3.Z3_OP_SEQ_UNIT else ANYHIT(u) for u in us]) if us else FALSE
    if not (len(us) == 1 and us[0].eq(q) and us[0].decl().kind() != z3.Z3_OP_SEQ_UNIT): p.assume(ANYHIT(q) == m)
    return m

def install(reg):
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    n_ = z3.Length
    ci = lambda x: prog.classes[x]
    at = lambda q, k: V.rval(q[k])
    exprs = lambda c: seq0(fld(c, "exprs"))
    expr = lambda c: fld(c, "expr")
    fw = lambda c: V.rval(z3.Function("fld_expr", Int, V)(c.self.t))
    w, winner = z3.Const("which", Int), z3.Const("winner", Int)
    some = lambda e: n_(KEYS(e)) > 0

    def iface(p, a):
        e = p.resolve(a[0])
        return p.new_list(KEYS(e.t), elem=("str",))
    reg.ifaces["ParserElement.expecting"] = Iface("ParserElement.expecting", iface, "ParserElement", "expecting")

    def fact(c, e, ix):
        """a match of e at ix is inside the text, no shorter than its minimum; one at the position starts with what e expects"""
        st, en, x = P_st(e, c.s, ix, c.da), P_en(e, c.s, ix, c.da), P_res(e, c.s, ix, c.da)
        ok = P_ok(e, c.s, ix, c.da)
        return z3.And(0 <= MINLEN(e), z3.Implies(ok, z3.And(ix <= st, st <= en, en <= n(c), en - st >= MINLEN(e), F_start(x) == st, F_end(x) == en)),
                      z3.Implies(z3.And(ok, ix == c.i, en > c.i, some(e)), ANYHIT(KEYS(e))))

    def unfold(q, k):
        return z3.And(z3.Not(UP(q, I(0))), UP(q, k + 1) == z3.Or(UP(q, k), z3.Not(some(at(q, k))), ANYHIT(KEYS(at(q, k)))))

    def induction(c, rec, name, inv, post, facts):
        p = c.p
        p.oblige(f"{name}: holds at the start", inv(rec.init(c)))
        st = [p.fresh(Rec.SORTS[k], "st") for k in rec.state]
        hyp, rest = z3.And(inv(st), *facts(st)), TRUE
        for cond, nxt in rec._step(c, st):
            g = z3.And(hyp, rest, cond)
            if isinstance(nxt, Next): p.oblige(f"{name}: kept by a step", z3.Implies(g, inv(nxt.state)))
            else: p.oblige(f"{name}: follows at the end", z3.Implies(g, post([v if v is not None else p.fresh(s, "any") for v, s in zip(nxt, rec.result_sorts)])))
            rest = z3.And(rest, z3.Not(cond))
        p.assume(post([rec.value(c, j) for j in range(len(rec.result_sorts))]))

    def lemma_and(c, rec):
        """a sequence that consumes something starts with what one of the elements read expects (or with what one of them does not tell)"""
        p, q, W = c.p, exprs(c), cfg(c, "whitespace", "ref")
        broke = getattr(p, "broke_at", None)
        K1 = broke + 1 if broke is not None else n_(q)
        at_start = lambda end: end == c.i
        def facts(st):
            k, end, acc = st
            e = at(q, k)
            out = [unfold(q, k), end <= SK(W, c.s, end), SK(W, c.s, end) <= n(c), z3.Implies(c.p.sub(CLS0(e), ci("SyntaxErrorGuard")), MINLEN(e) == 0)]
            if broke is not None: out.append(z3.Implies(k == broke, MINLEN(e) > 0))
            return out + [fact(c, e, ix) for ix in (end, SK(W, c.s, end))]
        def inv(st):
            k, end, acc = st
            far = UP(q, K1) if broke is not None else z3.Or(at_start(end), UP(q, K1))
            return z3.And(0 <= k, k <= n_(q), c.i <= end, end <= n(c), z3.If(k < K1, z3.Or(at_start(end), UP(q, k)), far))
        if broke is not None: p.oblige("it stops behind an element that must consume something", z3.And(0 <= broke, broke < n_(q), MINLEN(at(q, broke)) > 0))
        p.assume(z3.Not(UP(q, I(0))))
        induction(c, rec, "what a sequence starts with", inv, lambda v: z3.Implies(z3.And(v[0], v[1] > c.i), UP(q, K1)), facts)
    def lemma_many(c, rec):
        W, e = cfg(c, "whitespace", "ref"), expr(c)
        inv = lambda st: z3.And(c.i <= st[0], st[0] <= n(c), st[1] >= 0, (st[1] == 0) == (st[0] == c.i), z3.Or(st[0] == c.i, z3.Not(some(e)), ANYHIT(KEYS(e))))
        facts = lambda st: [st[0] <= SK(W, c.s, st[0]), SK(W, c.s, st[0]) <= n(c)] + [fact(c, e, ix) for ix in (st[0], SK(W, c.s, st[0]))]
        induction(c, rec, "what a repetition starts with", inv, lambda v: z3.And(v[0] >= c.i, z3.Or(v[0] == c.i, z3.Not(some(e)), ANYHIT(KEYS(e)))), facts)
    def lemma_first(c, rec):
        alt, q = seq0(fld(c, "alternate")), exprs(c)
        # contract of faster(): what it makes of the alternatives is made of them
        one = lambda a: z3.Implies(z3.And(P_ok(a, c.s, c.i, c.da), P_en(a, c.s, c.i, c.da) > c.i, z3.Implies(z3.And(0 <= w, w < n_(q)), some(at(q, w)))), z3.And(0 <= w, w < n_(q), ANYHIT(KEYS(at(q, w)))))
        ok = lambda a: z3.And(P_ok(a, c.s, c.i, c.da), one(a))
        induction(c, rec, "the match of a choice is that of an alternative", lambda st: st[0] >= 0, lambda v: z3.Implies(v[0], ok(v[1])), lambda st: [one(at(alt, st[0]))])

    def cands(p, mod, entry):
        c0 = p.ctx
        out = []
        lists = [m for m, d in entry.items() if "seq" in d]
        def members(p, e, c, nm):
            q, k = e["$it"]["it"], c["$k"]["int"]
            p.assume(z3.And(z3.Not(HITS(q, I(0))), HITS(q, k + 1) == z3.Or(HITS(q, k), LP(q[k])), ANYHIT(q) == HITS(q, n_(q))))
            return hit(p, c[nm]["seq"]) == z3.Or(hit(p, e[nm]["seq"]), HITS(q, k))
        def upto(p, e, c, nm):
            q, k = e["$it"]["it"], c["$k"]["int"]
            if c0.self is None or not q.eq(exprs(c0)): raise KeyError
            p.assume(unfold(q, k))
            return hit(p, c[nm]["seq"]) == UP(q, k)
        def own(p, e, c, nm):
            q = e["$it"]["it"]
            p.elem_fact(q, w)
            return z3.Implies(z3.And(0 <= w, c["$k"]["int"] > w, LP(q[w])), hit(p, c[nm]["seq"]))
        def taken(p, e, c, nm):
            q, k = e["$it"]["it"], c["$k"]["int"]
            if c0.self is None or not q.eq(exprs(c0)): raise KeyError
            return z3.Implies(z3.And(0 <= w, k > w, ANYHIT(KEYS(at(q, w)))), hit(p, c[nm]["seq"]))
        def told(p, e, c):
            q, k = e["$it"]["it"], c["$k"]["int"]
            if c0.self is None or not q.eq(exprs(c0)): raise KeyError
            return z3.Implies(z3.And(0 <= w, k > w), some(at(q, w)))
        if "$it" in entry:
            out.append(Cand("the alternatives so far tell what they expect", told))
            for nm in lists:
                out += [Cand(f"{nm}: what it had and the keys so far", lambda p, e, c, nm=nm: members(p, e, c, nm)), Cand(f"{nm}: what the elements so far expect", lambda p, e, c, nm=nm: upto(p, e, c, nm)),
                        Cand(f"{nm}: holds the key", lambda p, e, c, nm=nm: own(p, e, c, nm)), Cand(f"{nm}: holds the keys of the alternative", lambda p, e, c, nm=nm: taken(p, e, c, nm))]
        return out

    # class invariants of terminals matched by a pattern (bounded checks: harness C09, C10): what the pattern matches starts with the literal whatever
    # its case, or with one of the first characters
    def starts_with_match(c, ok): return z3.Implies(ok, LP(V.str(cfg(c, "match", "str"))))
    def starts_with_one_of(c, chars, ok):
        here = V.str(z3.SubString(chars, w, 1))
        return z3.And(0 <= w, z3.Implies(z3.And(ok, n_(chars) > 0), z3.And(w < n_(chars), LP(here))))

    skip = {"Regex", "MatchAll", "ParserElement", "ParseExpression", "ParseEnhancement", "Token", "_PendingSkip"}
    base = ci("ParserElement")
    def mro_func(cls, name):
        for k in cls.mro:
            v = k.attrs.get(name)
            if v is not None and hasattr(v, "qual"): return v
        return None

    def add(name, cls, f, spec):
        ints = {x.name for x in cls.mro}
        def setup(p, c):
            s, i, da = z3.Const("x_s", Str), z3.Const("x_i", Int), z3.Const("x_da", Bool)
            for k, v in (("s", s), ("i", i), ("da", da)): object.__setattr__(c, k, v)
            p.broke_at = None
            for r in spec.recs: r.setup(c)
        def span(c):
            if name == "Or": return P_ok(winner, c.s, c.i, c.da), P_en(winner, c.s, c.i, c.da)
            if spec.end is None: return spec.ok(c), None
            return spec.ok(c), spec.end(c)
        def pre(c):
            p = c.p
            out = [("in text", z3.And(0 <= c.i, c.i <= n(c)))]
            if spec._pre is not None: out += spec._pre(c)
            ok, en = span(c)
            if ints & {"Keyword", "CaselessLiteral"}: out.append(("class invariant: the pattern matches the literal, whatever its case", starts_with_match(c, ok)))
            elif "Literal" in ints: out.append(("the text there is the literal", starts_with_match(c, ok)))
            if name == "Word": out.append(("class invariant: the pattern starts with one of the first characters", starts_with_one_of(c, cfg(c, "init_chars", "str"), ok)))
            if name == "Char": out.append(("class invariant: the pattern matches one of the characters", starts_with_one_of(c, cfg(c, "include", "str"), ok)))
            if "ParseEnhancement" in ints: out.append(("its expression meets the interface contract", fact(c, expr(c), c.i)))
            if name == "Forward": out.append(("what it is defined as meets the interface contract", fact(c, fw(c), c.i)))
            if name == "Or":
                q = exprs(c)
                out.append(("the result is that of an alternative (C04)", z3.And(0 <= w, w < n_(q), winner == at(q, w), fact(c, winner, c.i))))
            return out
        def ret(c, res):
            p = c.p
            r = p.resolve(res)
            if not (isinstance(r, VRef) and r.cls.name == "list"): p.fail("gives a dictionary", f"returns {res!r}"); return
            if "And" in ints and spec.recs: lemma_and(c, spec.recs[0])
            if "Many" in ints and spec.recs: lemma_many(c, spec.recs[0])
            if "MatchFirst" in ints: lemma_first(c, spec.recs[0])
            ok, en = span(c)
            q = p.seq(r.t)
            h = hit(p, q)
            if en is None: p.oblige("nothing matches", z3.Or(z3.Not(ok), TRUE)); return
            p.oblige("a match starts with one of the texts expected", z3.Implies(z3.And(n_(q) > 0, ok, en > c.i), h))
        con = Contract(f"{f.qual} (as {name})", PROPS, name, [], exact=True, pre=pre, ret=ret, setup=setup, writes={"_in_expecting": lambda c, r: r == c.self.t}, cands=cands)
        con.fn = f.qual
        con.frame_props = PROPS
        con.dicts = True
        reg.contracts[con.qual] = con

    for name, cls in list(prog.classes.items()):
        if name in skip or base not in cls.mro: continue
        f, pi = mro_func(cls, "expecting"), mro_func(cls, "parse_impl")
        if f is None or pi is None or reg.contracts.get(pi.qual) is None: continue
        add(name, cls, f, reg.contracts[pi.qual])

    # ------------------------------------------------------------------ what an alternative can start with, if anything is known
    def adds(qual, **kw):
        con = Contract(qual, PROPS, kw.pop("cls", None), kw.pop("params"), **kw)
        con.dicts = True
        con.frame_props = PROPS
        reg.contracts[qual] = con
        return con
    def ghost_text(p, c):
        for k, v in (("s", z3.Const("x_s", Str)), ("i", z3.Const("x_i", Int)), ("da", z3.Const("x_da", Bool))): object.__setattr__(c, k, v)
    who = lambda c: c.p.resolve(c.a["expr"]).t
    def prefix_ret(c, res):
        p, r = c.p, c.p.resolve(res)
        if not (isinstance(r, VRef) and r.cls.name == "list"): p.fail("gives a dictionary", f"returns {res!r}"); return
        q = p.seq(r.t)
        h = hit(p, q)
        e = who(c)
        p.oblige("when it gives anything, every match starts with it", z3.Implies(z3.And(n_(q) > 0, P_ok(e, c.s, c.i, c.da)), h))
    OWNER = fn("OWNER_OF_PREFIXES", Int, Int)
    def prefixes_of(p, args, b):
        e = p.resolve(args[0])
        d = p.new_list(p.fresh(SeqV, "prefixes"), elem=("str",))
        p.assume(OWNER(d.t) == e.t)
        return d
    adds("expressions._prefixes", params=[("expr", "ref:ParserElement")], setup=lambda p, c: ghost_text(p, c), cands=cands, call=prefixes_of,
         pre=lambda c: [("its expression meets the interface contract", z3.And(0 <= c.i, c.i <= n(c), fact(c, who(c), c.i)))], ret=prefix_ret)

    # ------------------------------------------------------------------ faster: every alternative, once, in order, some of them in a group
    F = "expressions.faster"
    FLAT, FLAT1, OWNERS = fn("ALTERNATIVES_OF", SeqV, SeqV), fn("ALTERNATIVES_OF_ONE", V, SeqV), fn("OWNERS", SeqV, SeqV)
    def settle(p, q):
        """without the cases that are decided"""
        d = q.decl().kind()
        if d == z3.Z3_OP_SEQ_CONCAT:
            r = [settle(p, x) for x in q.children()]
            return z3.Concat(*r) if any(not a.eq(b) for a, b in zip(r, q.children())) else q
        if d != z3.Z3_OP_ITE: return q
        if p.entails(q.arg(0)): return settle(p, q.arg(1))
        if p.entails(z3.Not(q.arg(0))): return settle(p, q.arg(2))
        return q
    def fold(p, f, one, q):
        if q.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(q.arg(0), fold(p, f, one, q.arg(1)), fold(p, f, one, q.arg(2)))
            p.assume(f(q) == r)
            return r
        us = [u for v in units(q) for u in ([v] if v.decl().kind() != z3.Z3_OP_ITE else [fold_ite(p, f, one, v)])]
        parts = [one(u.arg(0)) if u.decl().kind() == z3.Z3_OP_SEQ_UNIT else f(u) for u in us]
        r = EMPTY if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)
        if not (len(us) == 1 and us[0].eq(q) and q.decl().kind() != z3.Z3_OP_SEQ_UNIT): p.assume(f(q) == r)
        return r
    def fold_ite(p, f, one, v):
        fold(p, f, one, v)
        return v
    flat = lambda p, q: fold(p, FLAT, FLAT1, q)
    owners = lambda p, q: fold(p, OWNERS, lambda x: V1(V.ref(OWNER(V.rval(x)))), q)
    made = reg.constructors.get("Fast")
    def make_fast(p, ci_, args, kw):
        if p.con.qual != F: return made(p, ci_, args, kw) if made else None
        r = p.resolve(args[0])
        if not p.branch(p.fresh(Bool, "useful")): p.raise_("Exception")
        f = p.alloc(ci("Fast"))
        p.assume(FLAT1(V.ref(f.t)) == owners(p, p.seq(r.t)))
        return f
    reg.constructors["Fast"] = make_fast
    def fcands(p, mod, entry):
        out = []
        if "$it" not in entry: return out
        lists = [m for m, d in entry.items() if "seq" in d and m != "exprs"]
        bools = [m for m, d in entry.items() if "bool" in d]
        def split(p, e, c, alt, acc, b):
            q, k = e["$it"]["it"], c["$k"]["int"]
            p.prefix_facts(q, k)
            p.assume(z3.Implies(k < n_(q), FLAT1(q[k]) == V1(q[k])))
            return z3.Concat(flat(p, settle(p, c[alt]["seq"])), z3.If(c[b]["bool"], owners(p, settle(p, c[acc]["seq"])), EMPTY)) == z3.SubSeq(q, 0, k)
        for x in range(len(lists)):
            for y in range(x):
                out.append(Cand(f"{lists[x]} is not {lists[y]}", lambda p, e, c, x=lists[x], y=lists[y]: c[x]["ref"] != c[y]["ref"]))
        # which list is which: the dictionaries are those given to the group, the result is what is returned
        node = prog.func(F).node
        grouped = {a.id for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "Fast" for a in x.args if isinstance(a, ast.Name)}
        returned = {x.value.id for x in ast.walk(node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
        for acc in [m for m in lists if m in grouped] or lists:
            for alt in [m for m in lists if m in returned and m != acc] or lists:
                if alt == acc: continue
                for b in bools: out.append(Cand(f"{alt} and, while {b}, {acc}", lambda p, e, c, x=alt, y=acc, z=b: split(p, e, c, x, y, z)))
            for alt in [m for m in lists if m not in returned and m not in grouped] or lists:
                if alt == acc: continue
                out.append(Cand(f"{alt} are the owners of {acc}", lambda p, e, c, a=alt, b=acc: z3.And(settle(p, c[a]["seq"]) == owners(p, settle(p, c[b]["seq"])), flat(p, settle(p, c[a]["seq"])) == settle(p, c[a]["seq"]))))
        return out
    def fsetup(p, c):
        object.__setattr__(c, "given", p.seq(p.resolve(c.a["exprs"]).t))
        p.assume(z3.Implies(n_(c.given) == 1, FLAT(c.given) == c.given))
    def fret(c, res):
        p = c.p
        q, _ = p.to_seq(res)
        p.prefix_facts(c.given, n_(c.given))
        p.oblige("all alternatives, each once, in their order", flat(p, q) == c.given)
    adds(F, params=[("exprs", "list:ref:ParserElement")], setup=fsetup, cands=fcands, ret=fret, call=reg.assumed["expressions.faster"]._call).generic = False
