"""contracts of min_length (C24): for every expression class, no match of it is shorter than what min_length returns.
MINLEN(e) is the length of the shortest match of e (of its _parse): a function of e alone.  min_length of a child returns something in
0..MINLEN(child) (interface contract); each class is shown to meet it, given the contract of its own parse_impl."""
from .base import *
from ..exec import Cand

MINLEN = fn("MINLEN", Int, Int)
SUMMIN = fn("SUMMIN", SeqV, Int, Int)      # sum of MINLEN over the first k
MINMIN = fn("MINMIN", SeqV, Int, Int)      # least MINLEN of the first k

def install(reg):
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    ci = lambda x: prog.classes[x]
    at = lambda q, k: V.rval(q[k])
    exprs = lambda c: seq0(fld(c, "exprs"))

    def iface(p, a):
        e = p.resolve(a[0])
        r = p.fresh(Int, "minlen")
        p.assume(z3.And(0 <= r, r <= MINLEN(e.t)))
        return VInt(r)
    reg.ifaces["ParserElement.min_length"] = Iface("ParserElement.min_length", iface, "ParserElement", "min_length")

    def fact(c, e, ix, da):
        """a match of e is inside the text and no shorter than MINLEN(e)"""
        st, en, x = P_st(e, c.s, ix, da), P_en(e, c.s, ix, da), P_res(e, c.s, ix, da)
        return z3.And(0 <= MINLEN(e), z3.Implies(P_ok(e, c.s, ix, da), z3.And(ix <= st, st <= en, en <= n(c), en - st >= MINLEN(e), F_start(x) == st, F_end(x) == en)))

    def unfold(q, k):
        return z3.And(SUMMIN(q, I(0)) == 0, SUMMIN(q, k + 1) == SUMMIN(q, k) + MINLEN(at(q, k)), MINMIN(q, I(1)) == MINLEN(at(q, I(0))),
                      z3.Implies(k >= 1, MINMIN(q, k + 1) == z3.If(MINLEN(at(q, k)) < MINMIN(q, k), MINLEN(at(q, k)), MINMIN(q, k))))

    def induction(c, rec, name, inv, post, facts):
        """inv holds at the start of rec and is kept by its steps, post follows when it ends: then post holds of its value"""
        p = c.p
        p.oblige(f"{name}: holds at the start", inv(rec.init(c)))
        st = [p.fresh(Rec.SORTS[k], "st") for k in rec.state]
        hyp = z3.And(inv(st), *facts(st))
        rest = TRUE
        for cond, nxt in rec._step(c, st):
            g = z3.And(hyp, rest, cond)
            if isinstance(nxt, Next): p.oblige(f"{name}: kept by a step", z3.Implies(g, inv(nxt.state)))
            else: p.oblige(f"{name}: follows at the end", z3.Implies(g, post([v if v is not None else p.fresh(s, "any") for v, s in zip(nxt, rec.result_sorts)])))
            rest = z3.And(rest, z3.Not(cond))
        p.assume(post([rec.value(c, j) for j in range(len(rec.result_sorts))]))

    # ---- what is needed of each kind of parse_impl
    def lemma_and(c, rec):
        q, W = exprs(c), cfg(c, "whitespace", "ref")
        def facts(st):
            k, end, acc = st
            e = at(q, k)
            out = [unfold(q, k), end <= SK(W, c.s, end), SK(W, c.s, end) <= n(c), z3.Implies(c.p.sub(CLS0(e), ci("SyntaxErrorGuard")), MINLEN(e) == 0)]
            return out + [fact(c, e, ix, c.da) for ix in (end, SK(W, c.s, end))]
        inv = lambda st: z3.And(0 <= st[0], st[0] <= z3.Length(q), c.i <= st[1], st[1] <= n(c), st[1] - c.i >= SUMMIN(q, st[0]))
        c.p.assume(SUMMIN(q, I(0)) == 0)
        induction(c, rec, "a sequence is no shorter than the sum of its elements", inv, lambda v: z3.Implies(v[0], v[1] - c.i >= SUMMIN(q, z3.Length(q))), facts)
    def lemma_many(c, rec):
        W, e = cfg(c, "whitespace", "ref"), fld(c, "expr")
        good = lambda end, acc: z3.And(z3.Length(acc) > 0, end - F_start(V.rval(acc[0])) >= MINLEN(e))
        inv = lambda st: z3.And(c.i <= st[0], st[0] <= n(c), st[1] >= 0, z3.Implies(st[1] == 0, z3.Length(st[2]) == 0), z3.Implies(st[1] > 0, good(st[0], st[2])))
        facts = lambda st: [st[0] <= SK(W, c.s, st[0]), SK(W, c.s, st[0]) <= n(c)] + [fact(c, e, ix, c.da) for ix in (st[0], SK(W, c.s, st[0]))]
        induction(c, rec, "a repetition that matched is no shorter than one match", inv, lambda v: z3.Implies(v[1] > 0, good(v[0], v[2])), facts)
    def lemma_first(c, rec):
        alt = seq0(fld(c, "alternate"))
        q = exprs(c)
        ok = lambda w: z3.And(P_ok(w, c.s, c.i, c.da), P_en(w, c.s, c.i, c.da) - P_st(w, c.s, c.i, c.da) >= MINLEN(w), MINLEN(w) >= MINMIN(q, z3.Length(q)))
        # assumed: what faster() makes of the alternatives is made of them (bounded check: harness C03)
        facts = lambda st: [fact(c, at(alt, st[0]), c.i, c.da), MINLEN(at(alt, st[0])) >= MINMIN(q, z3.Length(q))]
        induction(c, rec, "the match of a choice is that of an alternative", lambda st: st[0] >= 0, lambda v: z3.Implies(v[0], ok(v[1])), facts)

    def seq_cands(p, mod, entry):
        q = exprs(p.ctx)
        out = []
        def sums(p, e, c, w):
            p.assume(unfold(q, c["$k"]["int"]))
            return c[w]["int"] <= SUMMIN(q, c["$k"]["int"])
        def mins(p, e, c, w):
            k = c["$k"]["int"]
            p.assume(unfold(q, k))
            return z3.Implies(k > 0, c[w]["int"] <= MINMIN(q, k))
        for w, d in entry.items():
            if "int" not in d or w == "$k" or w not in mod: continue
            out += [Cand(f"{w}<=SUMMIN", lambda p, e, c, w=w: sums(p, e, c, w)), Cand(f"{w}<=MINMIN", lambda p, e, c, w=w: mins(p, e, c, w)), Cand(f"{w}>=0", lambda p, e, c, w=w: c[w]["int"] >= 0)]
        if "$r" in entry and "$set" in entry:
            out.append(Cand("$set iff some", lambda p, e, c: c["$set"]["bool"] == (c["$k"]["int"] > 0)))
        return out

    skip = {"Regex", "MatchAll", "ParserElement", "ParseExpression", "ParseEnhancement", "Token", "_PendingSkip"}
    pattern = {      # class invariant of terminals that are matched by a pattern (bounded checks: harness C09, C10, C24)
        "Keyword": lambda c: (cfg(c, "regex", "ref"), z3.Length(cfg(c, "match", "str"))), "CaselessKeyword": lambda c: (cfg(c, "regex", "ref"), z3.Length(cfg(c, "match", "str"))),
        "CaselessLiteral": lambda c: (cfg(c, "regex", "ref"), z3.Length(cfg(c, "match", "str"))), "Word": lambda c: (fld(c, "regex"), cfg(c, "min", "int")),
        "Char": lambda c: (cfg(c, "regex", "ref"), I(1)), "CharsNotIn": lambda c: (cfg(c, "regex", "ref"), cfg(c, "min_len", "int")),
    }
    base = ci("ParserElement")
    def mro_func(cls, name):
        for k in cls.mro:
            v = k.attrs.get(name)
            if v is not None and hasattr(v, "qual"): return v
        return None
    for name, cls in list(prog.classes.items()):
        if name in skip or base not in cls.mro: continue
        f = mro_func(cls, "min_length")
        pi = mro_func(cls, "parse_impl")
        if f is None or pi is None: continue
        spec = reg.contracts.get(pi.qual)
        add_length(reg, name, cls, f, spec, pattern.get(name), {"And": lemma_and, "Many": lemma_many, "MatchFirst": lemma_first}, seq_cands, fact, MINMIN, exprs)

def add_length(reg, name, cls, f, spec, pat, lemmas, cands, fact, MINMIN, exprs):
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    ints = {x.name for x in cls.mro}
    def setup(p, c):
        s, i, da = z3.Const("m_s", Str), z3.Const("m_i", Int), z3.Const("m_da", Bool)
        c.a_ghost = {"s": s, "i": i, "da": da}
        object.__setattr__(c, "s", s); object.__setattr__(c, "i", i); object.__setattr__(c, "da", da)
        if spec is not None:
            for r in spec.recs: r.setup(c)
    expr = lambda c: fld(c, "expr")
    fw = lambda c: V.rval(z3.Function("fld_expr", Int, V)(c.self.t))
    winner = z3.Const("winner", Int)
    def span(c):
        """(matches, length of the match) of this expression at i, by the contract of its parse_impl"""
        if name == "Or":       # contract of Or.parse_impl: the result of one of the alternatives (C04)
            return P_ok(winner, c.s, c.i, c.da), P_en(winner, c.s, c.i, c.da) - P_st(winner, c.s, c.i, c.da)
        if spec is None or spec.end is None:
            ln = z3.Const("len_of_match", Int)
            c.p.assume(ln >= 0)
            return (spec.ok(c) if spec is not None else z3.Const("matches", Bool)), ln
        st = spec.start(c) if spec.start is not None else c.i
        return spec.ok(c), spec.end(c) - st
    def pre(c):
        p = c.p
        out = [("in text", z3.And(0 <= c.i, c.i <= n(c)))]
        if spec is not None and spec._pre is not None: out += spec._pre(c)
        if pat is not None:
            r, m = pat(c)
            out.append(("class invariant: the pattern matches no less than the minimum asked for", z3.And(m >= 0, z3.Implies(RX_ok(r, c.s, c.i), RX_en(r, c.s, c.i) - c.i >= m))))
        if name == "Optional": out.append(("class invariant: no minimum", cfg(c, "min_match", "int") == 0))
        if name in ("Word", "CharsNotIn"): out.append(("class invariant: the minimum is not negative", cfg(c, "min" if name == "Word" else "min_len", "int") >= 0))
        if "ParseEnhancement" in ints: out.append(("its expression meets the interface contract", z3.And(fact(c, expr(c), c.i, c.da), fact(c, expr(c), c.i, TRUE))))
        if name == "Forward": out.append(("what it is defined as meets the interface contract", fact(c, fw(c), c.i, c.da)))
        if name == "Or":
            q = exprs(c)
            out.append(("the result is that of an alternative (C04)", z3.And(fact(c, winner, c.i, c.da), MINLEN(winner) >= MINMIN(q, z3.Length(q)))))
        cache = z3.Function("fld_min_length_cache", Int, V)(c.self.t)
        ok, ln = span(c)
        out.append(("the match is inside the text (C01)", z3.Implies(ok, ln >= 0)))
        if not (ints & {"And", "Many", "MatchFirst"}):
            out.append(("what it remembers is a lower bound", z3.And(V.is_int(cache), z3.Implies(ok, ln >= V.ival(cache)))))
        else: out.append(("what it remembers is a number", V.is_int(cache)))
        return out
    def ret(c, res):
        p = c.p
        r = p.resolve(res)
        if not isinstance(r, VInt): p.fail("returns a number", f"returns {res!r}"); return
        old = z3.Function("fld_min_length_cache", Int, V)(c.self.t)
        hyp = TRUE
        for k, l in lemmas.items():
            if k in ints and spec is not None and spec.recs:
                l(c, spec.recs[0])
        ok, ln = span(c)
        p.assume(z3.Implies(z3.And(ok, V.is_int(old)), ln >= V.ival(old)))      # class invariant of the remembered value
        p.oblige("no match is shorter", z3.Implies(ok, ln >= r.t))
        p.oblige("not negative", r.t >= 0)
        now = p.rd("min_length_cache", c.self.t, V)
        p.oblige("what it remembers is a lower bound", z3.And(V.is_int(now), z3.Implies(ok, ln >= V.ival(now))))
    con = Contract(f"{f.qual} (as {name})", ["C24"], name, [], exact=True, pre=pre, ret=ret, setup=setup, writes={"min_length_cache": lambda c, r: r == c.self.t}, cands=cands if "ParseExpression" in ints else None)
    con.fn = f.qual
    con.frame_props = ["C24"]
    con.generic = False
    reg.contracts[con.qual] = con
