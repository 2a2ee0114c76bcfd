"""contracts of streamline (C22): what an expression simplifies to means the same.

MEAN(e) is what e matches: texts, positions, spans, visible tokens.  The meaning of a composed expression is a function of its class,
its own fields and the meanings of its parts (WHOLE, of a fold over the parts); what expressions without name and action mean is given by
the laws assumed below, which are those the statement of C22 lists: sequences and choices nest, duplicates and empties do not matter,
one part alone means itself.  A part simplified means the same: the contract proved here, for the parts."""
from .base import *
from ..registry import arg
from ..exec import Cand

MEAN = fn("MEANING", Int, V)
STREAM = fn("STREAMLINED", Int, Int)
ANNOT = fn("ANNOTATED", Int, SeqV, Str, V, Bool)      # class, actions, token name, parser name
WHOLE = fn("WHOLE", Int, SeqV, Str, V, Int, V, V)     # class, actions, token name, parser name, configuration, what the parts mean
PART = fn("PART", Int, Int, V, V, V)                  # class, configuration, what the parts before mean, the meaning of the next part
NIL = V.str(z3.StringVal("nothing"))
M_EMPTY, M_NOMATCH = V.str(z3.StringVal("matches the empty text")), V.str(z3.StringVal("never matches"))

def install(reg):
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    PE = ci("ParserElement")
    ON = set()
    on = lambda p: p.con.qual in ON
    FOLD = fn("PARTS", Int, Int, V, SeqV, V)          # the fold of PART over a list of expressions
    def fold(p, k, cf, acc, q):
        """FOLD, carried through the construction of the list"""
        d = q.decl().kind()
        if d == z3.Z3_OP_SEQ_EMPTY: return acc
        if d == z3.Z3_OP_SEQ_UNIT: return PART(k, cf, acc, MEAN(V.rval(q.arg(0))))
        if d == z3.Z3_OP_SEQ_CONCAT:
            for x in q.children(): acc = fold(p, k, cf, acc, x)
            return acc
        if d == z3.Z3_OP_ITE: return z3.If(q.arg(0), fold(p, k, cf, acc, q.arg(1)), fold(p, k, cf, acc, q.arg(2)))
        if d == z3.Z3_OP_UNINTERPRETED and q.decl().name() == "fld_$seq" and q.arg(0).decl().name() == "fld_exprs":
            f = q.arg(0).arg(0)
            p.assume(z3.Implies(p.con.nests(p, p.ctx, f), PART(k, cf, acc, MEAN(f)) == FOLD(k, cf, acc, q)))
        if acc.eq(NIL):
            p.assume(z3.Implies(n_(q) == 0, FOLD(k, cf, acc, q) == NIL))
            p.assume(z3.Implies(n_(q) == 1, FOLD(k, cf, acc, q) == PART(k, cf, NIL, MEAN(V.rval(q[0])))))
        return FOLD(k, cf, acc, q)
    F = lambda n, srt=Int: z3.Function("fld_" + n, Int, srt)
    def fields(p, r, old):
        if old: cl, cf, rest = CLS0(r), F("parser_config")(r), (seq0(F("parse_action")(r)), F("token_name", Str)(r), F("parser_name", V)(r))
        else: cl, cf, rest = p.tag(r), p.rd("parser_config", r, Int), (p.seq(p.rd("parse_action", r, Int)), p.rd("token_name", r, Str), p.rd("parser_name", r, V))
        if p.con.bounded_by_parts:     # the bounds of a match-all are those of its elements: what is its own is the whitespace
            cf = V.rval(wsp(cf) if old else p.rd("cfg_whitespace", cf, V))
        return (cl, *rest, cf)
    annot = lambda f: ANNOT(*f[:4])
    wsp = lambda cf: z3.Function("fld_cfg_whitespace", Int, V)(cf)

    def streamline(p, recv, args, kw):
        r = STREAM(recv.t)
        p.mark_old(r); p.assume(z3.And(0 < r, r < A0, MEAN(r) == MEAN(recv.t)))
        v = VRef(r, PE); p.well_typed(v)
        p.con.given(p, r)
        return v
    prev_st = reg.methods["ParserElement.streamline"]
    reg.methods["ParserElement.streamline"] = lambda p, recv, args, kw: streamline(p, recv, args, kw) if on(p) else prev_st(p, recv, args, kw)
    prev_an = reg.methods.get("ParserElement.is_annotated")
    reg.methods["ParserElement.is_annotated"] = lambda p, recv, args, kw: VBool(annot(fields(p, recv.t, False))) if on(p) else (prev_an(p, recv, args, kw) if prev_an else None)
    prev_cp = reg.methods.get("ParserElement.copy")
    reg.methods["ParserElement.copy"] = lambda p, recv, args, kw: p.call_func(VFunc(recv.cls.lookup("copy")[1], None, recv), args, kw) if on(p) else (prev_cp(p, recv, args, kw) if prev_cp else None)
    INLINE = {"core.ParserElement.copy", "expressions.ParseExpression.copy", "enhancement.ParseEnhancement.copy", "expressions.MatchFirst.copy", "expressions.Or.copy", "enhancement.NotAny.copy", "expressions.ParseExpression.streamline", "enhancement.ParseEnhancement.streamline"}
    for nm in ("Empty", "NoMatch"):
        def made(p, ci_, args, kw, prev=reg.constructors.get(nm)):
            if not on(p): return prev(p, ci_, args, kw) if prev else None
            r = p.alloc(ci_)
            nm_ = args[0] if args else kw.get("name", NONE)
            put_fresh(p, r, "parser_name", p.box(nm_), V)
            put_fresh(p, r, "token_name", z3.StringVal(""), Str)
            put_fresh(p, r, "parse_action", p.new_list(EMPTY, elem=("fn",)).t, Int)
            return r
        reg.constructors[nm] = made
    # ------------------------------------------------------------------ laws
    def mean_old(p, c):
        """the meaning of the expression simplified"""
        f = fields(p, c.self.t, True)
        return WHOLE(*f, p.con.parts(c))
    def mean_of(p, c, r):
        if isinstance(r, VRef) and r.exact and r.cls.name in ("Empty", "NoMatch") and not p.entails(r.t < A0):
            return M_EMPTY if r.cls.name == "Empty" else M_NOMATCH
        if not r.cls.issub(c.self.cls) or not (p.entails(r.t >= A0) and p.entails(p.tag(r.t) == p.tag(c.self.t))): return MEAN(r.t)
        f = fields(p, r.t, False)
        return WHOLE(*f, p.con.parts_now(p, c, r))
    class Simplifies(Contract):
        def __init__(self, qual, cls, parts, parts_now, law, exact=False, recs=(), nests=None, given=None, more=None, bounded_by_parts=False, mine={}, **kw):
            super().__init__(qual, ["C22"], cls, [], exact=exact, recs=list(recs), frame_props=["C22"], writes={"streamlined": lambda c, r: r == c.self.t, "alternate": lambda c, r: r == c.self.t, **mine}, **kw)
            self.parts, self.parts_now, self.law, self.inline = parts, parts_now, law, INLINE - {qual}
            self.bounded_by_parts, self.more, self.nests, self.given = bounded_by_parts, more, nests or (lambda p, c, f: FALSE), given or (lambda p, f: None)
            ON.add(qual)
        def on_return(self, c, r):
            p = c.p; r = p.resolve(r)
            if not isinstance(r, VRef): p.fail("returns an expression", repr(r)); return
            p.assume(MEAN(c.self.t) == mean_old(p, c))
            p.result = r
            self.law(p, c)
            m = mean_of(p, c, r)
            p.oblige("what it returns means the same", m == MEAN(c.self.t))
            if self.more: self.more(p, c, r)
    # ------------------------------------------------------------------ sequences
    exprs = lambda c: seq0(fld(c, "exprs"))
    kc = lambda c: (CLS0(c.self.t), fields(c.p, c.self.t, True)[4])
    def and_step(c, st):
        k, acc = st
        q = exprs(c)
        return [(k >= n_(q), [acc]), (TRUE, Next(k + 1, PART(*kc(c), acc, MEAN(V.rval(q[k])))))]
    PARTS = Rec("PARTS_OF", ["int", "V"], [V], lambda c: [I(0), NIL], and_step, fixed=lambda c: [c.self.t])
    parts = lambda c: PARTS.value(c, 0)
    def parts_now(p, c, r):
        return fold(p, *kc(c), NIL, p.to_seq(p.getattr_(r, "exprs"))[0])
    def seq_cands(rec, again=False):
        def cands(p, mod, entry):
            out = []
            for n in [n for n, d in entry.items() if "seq" in d and "$k" in entry]:
                def form(p, e, c, n=n):
                    fx = rec.fixed(p.ctx)
                    at = lambda d: (d["$k"]["int"], fold(p, *kc(p.ctx), NIL, d[n]["seq"]))
                    return z3.And([f(*fx, *at(e)) == f(*fx, *at(c)) for f in rec.funcs])
                def unf(p, c, n=n):
                    if n not in c or "seq" not in c[n]: return
                    k, q = c["$k"]["int"], c[n]["seq"]
                    m = fold(p, *kc(p.ctx), NIL, q)
                    for g in rec.unfold(p.ctx, [k, m]): p.assume(g)
                    if again:       # an alternative that is there already changes nothing
                        e = V.rval(exprs(p.ctx)[k])
                        p.assume(z3.Implies(z3.Contains(q, V1(V.ref(STREAM(e)))), PART(*kc(p.ctx), m, MEAN(e)) == m))
                out.append(Cand(f"{n} and the parts left mean what the parts mean", form, unf))
            return out
        return cands
    def and_law(p, c):
        f = fields(p, c.self.t, True); q = exprs(c)
        plain = z3.Not(annot(f))
        one = PART(*kc(c), NIL, MEAN(V.rval(q[0])))
        p.assume(z3.Implies(z3.And(plain, n_(q) == 0), WHOLE(*f, NIL) == M_EMPTY))
        p.assume(z3.Implies(z3.And(plain, n_(q) == 1), WHOLE(*f, one) == MEAN(V.rval(q[0]))))
        for st in ([I(0), NIL], [I(1), one]):
            for g in PARTS.unfold(c, st): p.assume(g)
        p.assume(FOLD(*kc(c), NIL, q) == parts(c))
    sub = lambda p, r, n: p.sub(CLS0(r), ci(n))
    fexprs = lambda f: seq0(F("exprs")(f))
    def and_nests(p, c, f):
        """a sequence without name or action, of the same whitespace, not beginning with a look-behind"""
        q = fexprs(f)
        return z3.And(sub(p, f, "And"), z3.Not(annot(fields(p, f, True))), wsp(F("parser_config")(f)) == wsp(fld(c, "parser_config")),
                      z3.Not(sub(p, V.rval(q[0]), "PrecededBy")))
    def and_given(p, f):
        # postcondition of And.streamline: without name or action it has parts
        p.assume(z3.Implies(z3.And(sub(p, f, "And"), z3.Not(annot(fields(p, f, True)))), n_(fexprs(f)) > 0))
    con = Simplifies("expressions.And.streamline", "And", parts, parts_now, and_law, exact=True, recs=[PARTS], nests=and_nests, given=and_given)
    con._cands = seq_cands(PARTS)
    def and_setup(p, c):
        q = exprs(c)
        def fact(k):
            e = V.rval(q[k]); x = fexprs(e)
            return z3.Implies(z3.And(0 <= k, k < n_(q), sub(p, e, "ParseExpression"), n_(x) > 0), z3.Not(sub(p, V.rval(x[n_(x) - 1]), "_PendingSkip")))
        p.seq_facts.append((q, fact))       # a skip that still waits for its target is resolved where it is used (bounded)
    con._setup = and_setup
    reg.contracts[con.qual] = con
    # ------------------------------------------------------------------ choices
    FASTER = fn("FASTER", SeqV, Int)
    prev_fa = reg.assumed.get("expressions.faster")
    def faster(p, args, b):
        if not on(p): return prev_fa._call(p, args, b)
        r = FASTER(p.to_seq(args[0])[0])
        p.mark_old(r); p.assume(z3.And(0 < r, r < A0))
        return p.typed(r, ("list", ("ref", "ParserElement")))
    reg.assumed["expressions.faster"] = Contract("expressions.faster", [], None, [("exprs", "list:ref:ParserElement")], call=faster, note="alternatives that together match what the given ones match, quicker (C03, C04: bounded)")
    def choice_law(p, c):
        f = fields(p, c.self.t, True); q = exprs(c)
        plain = z3.Not(annot(f))
        p.assume(z3.Implies(plain, WHOLE(*f, NIL) == M_NOMATCH))
        r = p.resolve(p.result)
        one = PART(*kc(c), NIL, MEAN(r.t))
        p.assume(z3.Implies(plain, WHOLE(*f, one) == MEAN(r.t)))
        for g in PARTS.unfold(c, [I(0), NIL]): p.assume(g)
        fold(p, *kc(c), NIL, q)
        p.assume(FOLD(*kc(c), NIL, q) == parts(c))
    def choice_more(p, c, r):
        mine = r.t.eq(c.self.t)
        if mine and p.entails(F("streamlined", Bool)(c.self.t)): return        # already done
        if not r.cls.issub(ci("ParseExpression")) and not r.cls is PE: return
        if not mine and not (p.entails(r.t >= A0) and p.entails(p.tag(r.t) == p.tag(c.self.t))): return
        p.oblige("it tries what faster() makes of its alternatives", p.rd("alternate", r.t, Int) == FASTER(p.to_seq(p.getattr_(r, "exprs"))[0]))
    def choice(cls, more=choice_more, again=True, writes=(), **kw):
        nests = lambda p, c, f: z3.And(sub(p, f, cls), z3.Not(annot(fields(p, f, True))))
        given = lambda p, f: p.assume(z3.Implies(z3.And(sub(p, f, cls), z3.Not(annot(fields(p, f, True)))), n_(fexprs(f)) > 0))
        con = Simplifies(f"expressions.{cls}.streamline", cls, parts, parts_now, kw.pop("law", choice_law), exact=True, recs=[PARTS], nests=nests, given=given, more=more, **kw)
        con._cands = seq_cands(PARTS, again)
        con._exc = lambda c, e: c.p.oblige("refuses only what comes back to itself", c.p.isinst(e, ci("RecursiveGrammarException")))
        reg.contracts[con.qual] = con
    for cls in ("Or", "MatchFirst"): choice(cls)
    def all_law(p, c):
        f = fields(p, c.self.t, True)
        p.assume(z3.Implies(z3.Not(annot(f)), WHOLE(*f, NIL) == M_EMPTY))
        for g in PARTS.unfold(c, [I(0), NIL]): p.assume(g)
        p.assume(FOLD(*kc(c), NIL, exprs(c)) == parts(c))
    def keeps_actions(p, mod, entry):
        out = []
        for n in [n for n, d in entry.items() if "ref" in d and n != "self"]:
            form = lambda p, e, c, n=n: p.seq(p.rd("parse_action", c[n]["ref"], Int)) == seq0(fld(p.ctx, "parse_action"))
            out.append(Cand(f"{n} has the actions of the original", form))
        return out
    choice("MatchAll", None, False, law=all_law, bounded_by_parts=True, mine={"parser_config": lambda c, r: r == c.self.t})
    con = reg.contracts["expressions.MatchAll.streamline"]
    parts_cands = con._cands
    con._cands = lambda p, mod, entry: parts_cands(p, mod, entry) + keeps_actions(p, mod, entry)
    # ------------------------------------------------------------------ repetitions and other wrappers
    INNER = fn("INNER", V, V)                          # of the part of a wrapper
    expr = lambda c: fld(c, "expr")
    inner = lambda c: INNER(MEAN(expr(c)))
    inner_now = lambda p, c, r: INNER(MEAN(V.rval(p.box(p.getattr_(r, "expr")))))
    def known(p, f):
        """what the tokens mean"""
        fs = fields(p, f, True)
        p.assume(z3.Implies(sub(p, f, "NoMatch"), MEAN(f) == M_NOMATCH))
        p.assume(z3.Implies(z3.And(sub(p, f, "Empty"), z3.Not(annot(fs))), MEAN(f) == M_EMPTY))
    def wrapper_law(p, c):
        f = fields(p, c.self.t, True)
        p.assume(z3.Implies(z3.Not(annot(f)), WHOLE(*f, INNER(M_EMPTY)) == M_EMPTY))
    con = Simplifies("enhancement.ParseEnhancement.streamline", "ParseEnhancement", inner, inner_now, wrapper_law, given=known)
    reg.contracts[con.qual] = con
    lo, hi = (lambda c: cfg(c, "min_match", "int")), (lambda c: cfg(c, "max_match", "int"))
    def many_law(p, c):
        f = fields(p, c.self.t, True); plain = z3.Not(annot(f))
        wrapper_law(p, c)
        p.assume(z3.Implies(z3.And(plain, lo(c) == 0, hi(c) == 0), WHOLE(*f, inner(c)) == M_EMPTY))
        p.assume(z3.Implies(z3.And(plain, lo(c) == 1, hi(c) == 1, V.is_none(cfg(c, "end", "V"))), WHOLE(*f, inner(c)) == MEAN(expr(c))))
    con = Simplifies("enhancement.Many.streamline", "Many", inner, inner_now, many_law, given=known)
    reg.contracts[con.qual] = con
    def not_law(p, c):
        f = fields(p, c.self.t, True); plain = z3.Not(annot(f))
        known(p, expr(c))
        # whatever its name and actions: never matches
        p.assume(WHOLE(*f, INNER(M_EMPTY)) == M_NOMATCH)
        p.assume(z3.Implies(plain, WHOLE(*f, INNER(M_NOMATCH)) == M_EMPTY))
    con = Simplifies("enhancement.NotAny.streamline", "NotAny", inner, inner_now, not_law, given=known, exact=True)
    reg.contracts[con.qual] = con
    con = Simplifies("enhancement.Combine.streamline", "Combine", inner, inner_now, wrapper_law, given=known, exact=True)
    con._setup = lambda p, c: p.assume(STREAM(expr(c)) == expr(c))     # class invariant: the constructor simplifies its part, and nothing else sets it
    reg.contracts[con.qual] = con
    con = Simplifies("regex.Regex.streamline", "Regex", lambda c: V.ref(fld(c, "regex")), lambda p, c, r: p.box(p.getattr_(r, "regex")), lambda p, c: None, exact=True)
    con.inline = con.inline | {"regex.Regex.copy"}
    reg.contracts[con.qual] = con
    def forward_more(p, c, r):
        p.oblige("returns the forward", r.t == c.self.t)
        x0, x1 = F("expr", V)(c.self.t), p.box(p.getattr_(c.self, "expr"))
        p.oblige("its definition means the same", z3.Or(x1 == x0, z3.And(V.is_ref(x0), V.is_ref(x1), MEAN(V.rval(x1)) == MEAN(V.rval(x0)))))
    con = Simplifies("enhancement.Forward.streamline", "Forward", lambda c: INNER(F("expr", V)(c.self.t)), lambda p, c, r: INNER(p.box(p.getattr_(r, "expr"))), lambda p, c: None, more=forward_more, mine={"expr": lambda c, r: r == c.self.t})
    con._exc = lambda c, e: c.p.oblige("refuses only what comes back to itself", c.p.isinst(e, ci("RecursiveGrammarException")))
    reg.contracts[con.qual] = con
    for q, cls in (("core.ParserElement.streamline", "ParserElement"), ("tokens.Empty.streamline", "Empty")):
        con = Simplifies(q, cls, lambda c: NIL, lambda p, c, r: NIL, lambda p, c: None, more=lambda p, c, r: p.oblige("returns the expression", r.t == c.self.t))
        reg.contracts[con.qual] = con
    # ------------------------------------------------------------------ which expressions have a name or an action of their own
    acts = lambda c: seq0(fld(c, "parse_action"))
    def own_step(c, st):
        k, = st
        return [(k >= n_(acts(c)), [FALSE]), (acts(c)[k] != c.p.box(VFunc(prog.func("enhancement._suppress_post_parse"))), [TRUE]), (TRUE, Next(k + 1))]
    OWN = Rec("HAS_OWN_ACTION", ["int"], [Bool], lambda c: [I(0)], own_step, fixed=lambda c: [c.self.t])
    def ann_ret(c, r):
        p = c.p
        t = p.truth(r)
        p.oblige("true of what has an action other than suppressing, or a name", z3.BoolVal(bool(t)) == z3.Or(OWN.value(c, 0), n_(F("token_name", Str)(c.self.t)) > 0, z3.And(V.is_str(F("parser_name", V)(c.self.t)), n_(V.sval(F("parser_name", V)(c.self.t))) > 0)))
    con = Contract("core.ParserElement.is_annotated", ["C22"], "ParserElement", [], ret=ann_ret, recs=[OWN], frame_props=["C22"])
    reg.contracts[con.qual] = con
    def always(c, r): c.p.oblige("always true: what it holds stays together", z3.BoolVal(c.p.truth(r) is True))
    reg.contracts["enhancement.Group.is_annotated"] = Contract("enhancement.Group.is_annotated", ["C22"], "Group", [], ret=always, frame_props=["C22"])
    def empty_ret(c, r):
        t = c.p.truth(r)
        c.p.oblige("true of what has an action or a name for its tokens", z3.BoolVal(bool(t)) == z3.Or(n_(acts(c)) > 0, n_(F("token_name", Str)(c.self.t)) > 0))
    reg.contracts["tokens.Empty.is_annotated"] = Contract("tokens.Empty.is_annotated", ["C22"], "Empty", [], ret=empty_ret, frame_props=["C22"])
