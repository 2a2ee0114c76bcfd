"""contracts of whitespace: skipping (C19) and contexts (C20)"""
from .base import *

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    n_ = z3.Length
    ci = lambda x: prog.classes[x]
    RXF = z3.Function("fld_regex", Int, Int)
    # ------------------------------------------------------------------ C19: skip
    W = lambda c: c.self.t
    seq_of = lambda c, name: seq0(fld(c, name))
    idle = lambda c: z3.And(n_(seq_of(c, "ignore_list")) == 0, n_(fld(c, "white_chars", Str)) == 0)
    rx = lambda c: V.rval(fld(c, "regex", V))
    def real(c, s, j): return z3.If(RX_ok(rx(c), s, j), RX_en(rx(c), s, j), j)
    want = lambda c: z3.If(z3.Or(idle(c), c.i >= n_(c.s)), c.i, real(c, c.s, c.i))
    content, skips = lambda c: fld(c, "content", V), lambda c: seq_of(c, "skips")
    known = lambda c, v, s, j: z3.And(V.is_int(v), z3.Or(V.ival(v) == -1, V.ival(v) == real(c, s, j)))
    def setup(p, c):
        p.assume(V.is_ref(fld(c, "regex", V)))      # set by the constructor (contract of set_whitespace)
        q = skips(c)
        s0 = V.sval(content(c))
        # class invariant of the cache: one entry for each position of the text, unknown (-1) or where skipping from there leads
        p.assume(z3.Implies(V.is_str(content(c)), n_(q) == n_(s0)))
        p.seq_facts.append((q, lambda k: z3.Implies(V.is_str(content(c)), known(c, q[k], s0, k))))
    def post(c):
        """the invariant holds of the cache as it is now"""
        p = c.p
        now = p.rd("content", c.self.t, V)
        q = p.seq(p.rd("skips", c.self.t, Int))
        p.oblige("the cache is of this text, one entry for each position", z3.Implies(V.is_str(now), n_(q) == n_(V.sval(now))))
        j = p.fresh(Int, "j")
        p.assume(z3.And(0 <= j, j < n_(q)))
        p.elem_fact(q, j)
        p.oblige("every entry of the cache is unknown or where skipping leads", z3.Implies(V.is_str(now), known(c, q[j], V.sval(now), j)))
    def ret(c, r):
        c.p.oblige("goes on to where the longest run of whitespace and ignored text ends", c.p.int_(r) == want(c))
        post(c)
    mine = lambda c, r: r == c.self.t
    add(Contract("whitespaces.Whitespace.skip", ["C19"], "Whitespace", [("s", "str"), ("i", "int")], setup=setup,
                 pre=lambda c: [("not before the text", c.i >= 0)], ret=ret,
                 writes={"content": mine, "skips": mine, "$seq": lambda c, r: r == fld(c, "skips")}))

    # ------------------------------------------------------------------ C20: contexts
    reg.globals["utils.alphanums"] = "str"
    reg.globals["whitespaces.DebugActions"] = "o:DebugActions"
    def empty(p, ci_, args, kw):
        p.x.used_contracts.add("tokens.Empty.__init__")
        return p.alloc(ci_)
    reg.constructors["Empty"] = empty
    JOIN, SORTED, CHARS = fn("JOIN", Str, SeqV, Str), fn("SORTED", SeqV, SeqV), fn("CHARS", Str, SeqV)
    CANON = lambda t: JOIN(z3.StringVal(""), SORTED(CHARS(t)))       # the characters of a string, sorted, each once (models of set, sorted and join)
    reg.CANON = CANON
    def chars(p, t):
        p.assume(CANON(CANON(t)) == CANON(t))
        return CANON(t)
    KEPT = [("id", Int), ("literal", V), ("keyword_chars", Str), ("debug_actions", V), ("all_exceptions", V), ("regex", V), ("expr", V)]
    # ------------------------------------------------------------------ C19: the pattern
    RANGE = fn("REGEX_RANGE", Str, Str)
    ISO = fn("REGEX_ISO", Str, Str, Str, Str)
    PREC, PAT = fn("PRECEDENCE", Int, Str), fn("PATTERN", Int, Str)
    WPAT = fn("WHITE_PATTERN", Str, SeqV, Str)        # pattern of the longest run of these characters and these ignored expressions
    RXP = fn("RX_pattern", Int, Str)
    S = z3.StringVal
    strs = lambda p, args: [p.native(a, ("str",)) for a in args]
    def assumed(q, f): reg.assumed[q] = Contract(q, [], None, [], call=f, note="pattern built from characters; compared with the re module by the bounded check of C10")
    assumed("utils.regex_range", lambda p, args, b: VStr(RANGE(strs(p, args[:1])[0])))
    assumed("utils.regex_iso", lambda p, args, b: VStr(ISO(*strs(p, args[:3]))))
    reg.ifaces["ParserElement.__regex__"] = Iface("ParserElement.__regex__", lambda p, a: VTup([VStr(PREC(p.resolve(a[0]).t)), VStr(PAT(p.resolve(a[0]).t))]), "And", "__regex__")
    def pattern_call(p, a, b=None):
        w = p.resolve(a[0])
        if p.branch(p.rd("_in_regex", w.t, Bool)): return VTup([VStr(S("*")), VStr(S(""))])
        t = WPAT(p.rd("white_chars", w.t, Str), p.seq(p.rd("ignore_list", w.t, Int)))
        prec = fn("WHITE_PRECEDENCE", Int, Str)(w.t)
        p.assume(z3.Or(prec == S("*"), prec == S("+")))
        return VTup([VStr(prec), VStr(t)])
    reg.ifaces["Whitespace.__regex__"] = Iface("Whitespace.__regex__", pattern_call, "Whitespace", "__regex__")
    IGN = Rec("IGNORED_PATTERNS", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY],
              lambda c, st: [(st[0] >= n_(seq_of(c, "ignore_list")), [st[1]]),
                             (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(V.str(ISO(PREC(V.rval(seq_of(c, "ignore_list")[st[0]])), PAT(V.rval(seq_of(c, "ignore_list")[st[0]])), S("|")))))))],
              fixed=lambda c: [seq_of(c, "ignore_list")])
    def pattern_ret(c, r):
        p = c.p
        if not (isinstance(r, VTup) and len(r.items) == 2): p.fail("returns precedence and pattern", repr(r)); return
        got, prec = p.native(r.items[1], ("str",)), p.native(r.items[0], ("str",))
        wc, ig = fld(c, "white_chars", Str), seq_of(c, "ignore_list")
        inside = fld(c, "_in_regex", Bool)
        white = z3.If(n_(wc) == 0, S(""), z3.Concat(RANGE(wc), S("*")))
        many = z3.Concat(S("(?:"), white, S("(?:"), fn("JOIN", Str, SeqV, Str)(S("|"), IGN.value(c, 0)), S("))*"), white)
        p.oblige("any number of the whitespace characters, alone or before, between and after any of the ignored expressions", z3.Implies(z3.Not(inside), got == z3.If(n_(ig) == 0, white, many)))
        p.oblige("it binds at least like a sequence", z3.Or(prec == S("*"), prec == S("+")))
        p.oblige("nothing inside its own pattern", z3.Implies(inside, got == S("")))
        p.oblige("ready for the next time", p.rd("_in_regex", c.self.t, Bool) == inside)
    pc = Contract("whitespaces.Whitespace.__regex__", ["C19"], "Whitespace", [], recs=[IGN], ret=pattern_ret, writes={"_in_regex": mine})
    add(pc)
    def fresh_cache(c, chars_, ign):
        p, s = c.p, c.self.t
        p.oblige("the cache is emptied", V.is_none(p.rd("content", s, V)))
        r = p.rd("regex", s, V)
        p.oblige("the pattern is compiled anew", z3.And(V.is_ref(r), RXP(V.rval(r)) == WPAT(chars_, ign)))
    nolonger = lambda p, c: p.assume(z3.Not(fld(c, "_in_regex", Bool)))       # class invariant: set only while the pattern is built (contract of __regex__)
    def sw_ret(c, r):
        p = c.p
        ch = CANON(c.a["chars"].t)
        p.oblige("these characters are whitespace", p.rd("white_chars", c.self.t, Str) == ch)
        fresh_cache(c, ch, seq_of(c, "ignore_list"))
    ids = {"id": mine, "white_chars": mine, "content": mine, "expr": mine, "regex": mine, "_in_regex": mine}
    add(Contract("whitespaces.Whitespace.set_whitespace", ["C19"], "Whitespace", [("chars", "str")], setup=nolonger, ret=sw_ret, writes=ids))
    def copied(c, r, me):
        """what a copy holds: everything of the original, its own lists and cache"""
        p = c.p
        old = lambda n, srt=Int: z3.Function("fld_" + n, Int, srt)(me)
        for f, srt in KEPT: p.oblige("a copy keeps " + f, p.rd(f, r, srt) == old(f, srt))
        p.oblige("a copy keeps white_chars", p.rd("white_chars", r, Str) == old("white_chars", Str))
        ig = p.rd("ignore_list", r, Int)
        p.oblige("a copy keeps what is ignored, in a list of its own", z3.And(p.seq(ig) == seq0(old("ignore_list")), ig >= A0))
        p.oblige("a copy begins with an empty cache", V.is_none(p.rd("content", r, V)))
        p.oblige("a copy knows where it comes from", p.rd("parent", r, V) == V.ref(me))
        cp = p.rd("copies", r, Int)
        p.oblige("a copy has no copies", z3.And(n_(p.seq(cp)) == 0, cp >= A0))
    def copy_ret(c, r):
        r = c.p.resolve(r)
        if not isinstance(r, VRef): c.p.fail("returns a whitespace", repr(r)); return
        c.p.oblige("a new whitespace", z3.And(r.t >= A0, c.p.sub(c.p.tag(r.t), ci("Whitespace"))))
        copied(c, r.t, c.self.t)
    def canon_inv(p, c): p.assume(fld(c, "white_chars", Str) == chars(p, fld(c, "white_chars", Str)))
    add(Contract("whitespaces.Whitespace.copy", ["C20", "C19"], "Whitespace", [], setup=canon_inv, ret=copy_ret))

    def made_ret(c, r):
        p, s = c.p, c.self.t
        ch = CANON(c.a["white"].t)
        p.oblige("these characters are whitespace", p.rd("white_chars", s, Str) == ch)
        ig, cp = p.rd("ignore_list", s, Int), p.rd("copies", s, Int)
        p.oblige("nothing is ignored, in a list of its own", z3.And(ig >= A0, n_(p.seq(ig)) == 0))
        fresh_cache(c, ch, EMPTY)
        p.oblige("it has no copies and is a copy of nothing", z3.And(cp >= A0, cp != ig, n_(p.seq(cp)) == 0, V.is_none(p.rd("parent", s, V))))
        p.oblige("letters, digits, _ and $ are keyword characters", p.rd("keyword_chars", s, Str) == z3.Concat(p.native(p.global_name(prog.modules["utils"], "alphanums"), ("str",)), S("_$")))
        lit = p.resolve(p.getattr_(c.self, "literal"))
        p.oblige("texts stand for literals", p.box(lit) == p.box(p.global_name(prog.modules["whitespaces"], "Literal")))
        p.oblige("its pattern is not being built", z3.Not(p.rd("_in_regex", s, Bool)))
    add(Contract("whitespaces.Whitespace.__init__", ["C19", "C20"], "Whitespace", [("white", "str")], ret=made_ret, writes={"*": mine}))

    # ------------------------------------------------------------------ C20: entering and leaving
    def g(p, name): return p.resolve(p.global_name(prog.modules["whitespaces"], name)).t
    CUR0, STACK0 = z3.Const("glob_whitespaces.CURRENT", Int), z3.Const("glob_whitespaces.whitespace_stack", Int)
    stack = lambda p: p.seq(g(p, "whitespace_stack"))
    def own_lists(p, c):
        canon_inv(p, c)
        g(p, "whitespace_stack"); g(p, "CURRENT")
        p.assume(z3.And(STACK0 != fld(c, "copies"), STACK0 != fld(c, "ignore_list"), fld(c, "copies") != fld(c, "ignore_list"), fld(c, "skips") != fld(c, "copies")))     # lists made by the constructor, held by nothing else
    def enter_ret(c, r):
        p = c.p
        r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns the context", repr(r)); return
        cur = g(p, "CURRENT")
        p.oblige("the new context is current", cur == r.t)
        p.oblige("it is new", z3.And(r.t >= A0, p.sub(p.tag(r.t), ci("Whitespace"))))
        copied(c, r.t, c.self.t)
        p.oblige("what was current is on the stack", stack(p) == z3.Concat(seq0(STACK0), V1(V.ref(CUR0))))
        p.oblige("it is the last copy of the context entered", p.seq(p.rd("copies", c.self.t, Int)) == z3.Concat(seq_of(c, "copies"), V1(V.ref(r.t))))
    lists = {"$seq": lambda c, r: z3.Or(r == fld(c, "copies"), r == STACK0)}
    add(Contract("whitespaces.Whitespace.__enter__", ["C20"], "Whitespace", [], setup=own_lists, ret=enter_ret, writes=lists, global_writes=["whitespaces.CURRENT"]))
    PAR = lambda c: fld(c, "parent", V)
    CP = lambda ref: seq0(z3.Function("fld_copies", Int, Int)(ref))
    last_is = lambda q, x: z3.And(n_(q) > 0, q[n_(q) - 1] == V.ref(x))
    TOP = lambda: seq0(STACK0)
    def exit_setup(p, c):
        own_lists(p, c)
        a, b = TOP(), CP(c.self.t)
        x = a[n_(a) - 1]
        p.assume(z3.Implies(n_(a) > 0, z3.And(V.is_ref(x), V.rval(x) > 0, V.rval(x) < A0)))
        # what is entered and not left is on the stack (contract of __enter__)
        p.assume(z3.Implies(last_is(b, CUR0), n_(a) > 0))
    def exit_log(c, p): return {"$left": p.new_list(EMPTY, elem=("dyn",))}
    def exit_call(p, args, b):
        """leaving the context a copy was made from: whatever it does there"""
        log = p.frame0.locals.get("$left")
        if log is None: raise Unsupported("__exit__")
        p.list_append(log, VDyn(V.ref(p.resolve(args[0]).t)))
        if p.branch(p.fresh(Bool, "refused")): p.raise_("MoLogsExcept")
        return NONE
    mine_last = lambda c: last_is(CP(c.self.t), CUR0)
    def exit_ret(c, r):
        p = c.p
        log = p.seq(p.frame0.locals["$left"].t)
        own, par = mine_last(c), z3.And(z3.Not(mine_last(c)), V.is_ref(PAR(c)))
        q = CP(c.self.t)
        p.oblige("only a context that was entered can be left", z3.Or(own, par))
        p.oblige("what was current before is current again", z3.Implies(own, V.ref(g(p, "CURRENT")) == TOP()[n_(TOP()) - 1]))
        p.oblige("it is off the stack", z3.Implies(own, stack(p) == z3.SubSeq(TOP(), 0, n_(TOP()) - 1)))
        p.oblige("and no longer a copy of this one", z3.Implies(own, p.seq(fld(c, "copies")) == z3.SubSeq(q, 0, n_(q) - 1)))
        p.oblige("nothing else is left", z3.Implies(own, n_(log) == 0))
        p.oblige("a copy leaves the context it was made from, once", z3.Implies(par, z3.And(log == V1(PAR(c)), V.is_none(p.rd("parent", c.self.t, V)))))
    def exit_exc(c, e):
        c.p.oblige("refuses only what was not entered last", z3.Not(mine_last(c)))
    ex = Contract("whitespaces.Whitespace.__exit__", ["C20"], "Whitespace", [("exc_type", "dyn"), ("exc_val", "dyn"), ("exc_tb", "dyn")], setup=exit_setup, ret=exit_ret, exc=exit_exc,
                  writes={**lists, "parent": mine}, global_writes=["whitespaces.CURRENT"], call=exit_call)
    ex.ghost = exit_log
    add(ex)
    # ------------------------------------------------------------------ C20: a backup of the cache
    add(Contract("whitespaces.Backup.__init__", ["C19"], "Backup", [("whitespace", "ref:Whitespace")], writes={"whitespace": mine, "content": mine, "skips": mine},
                 ret=lambda c, r: c.p.oblige("keeps the cache of the whitespace", z3.And(c.p.rd("whitespace", c.self.t, Int) == c.a["whitespace"].t,
                    c.p.rd("content", c.self.t, V) == z3.Function("fld_content", Int, V)(c.a["whitespace"].t), c.p.rd("skips", c.self.t, Int) == z3.Function("fld_skips", Int, Int)(c.a["whitespace"].t)))))
    wsp = lambda c: fld(c, "whitespace")
    theirs = lambda c, r: r == wsp(c)
    add(Contract("whitespaces.Backup.__exit__", ["C19"], "Backup", [("exc_type", "dyn"), ("exc_val", "dyn"), ("exc_tb", "dyn")], writes={"content": theirs, "skips": theirs},
                 ret=lambda c, r: (c.p.oblige("puts the cache back", z3.And(c.p.rd("content", wsp(c), V) == fld(c, "content", V), c.p.rd("skips", wsp(c), Int) == fld(c, "skips"))),
                                   c.p.oblige("lets errors pass", z3.BoolVal(isinstance(r, VNone))))))
    # ------------------------------------------------------------------ C19: ignoring
    SUP = fn("SUPPRESSED", Int, Int)
    def suppress(p, a):
        r = SUP(p.resolve(a[0]).t)
        p.mark_old(r); p.assume(z3.And(0 < r, r < A0))
        return VRef(r, ci("ParserElement"))
    reg.ifaces["ParserElement.suppress"] = Iface("ParserElement.suppress", suppress, "ParserElement", "suppress")
    extra = z3.Const("p_ignore_exprs", SeqV)
    ADD = Rec("IGNORING", ["int", "seq"], [SeqV], lambda c: [I(0), seq_of(c, "ignore_list")],
              lambda c, st: [(st[0] >= n_(extra), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(V.ref(SUP(V.rval(extra[st[0]])))))))], fixed=lambda c: [extra])
    def ignore_ret(c, r):
        p = c.p
        ign = p.seq(p.rd("ignore_list", c.self.t, Int))
        p.oblige("the expressions are ignored too, without results", ign == ADD.value(c, 0))
        more = n_(extra) > 0
        now = p.rd("regex", c.self.t, V)
        p.oblige("the cache is emptied", z3.Implies(more, V.is_none(p.rd("content", c.self.t, V))))
        p.oblige("the pattern is compiled anew", z3.Implies(more, z3.And(V.is_ref(now), RXP(V.rval(now)) == WPAT(fld(c, "white_chars", Str), ign))))
        p.oblige("returns itself", p.resolve(r).t == c.self.t)
    def anew(p, mod, entry):
        from ..exec import Cand
        me = p.ctx.self.t
        def pat(p, e, c):
            r = p.rd("regex", me, V); k = c["$k"]["int"]
            return z3.Implies(k > 0, z3.And(V.is_ref(r), RXP(V.rval(r)) == WPAT(p.rd("white_chars", me, Str), p.seq(p.rd("ignore_list", me, Int)))))
        return [Cand("cache empty", lambda p, e, c: z3.Implies(c["$k"]["int"] > 0, V.is_none(p.rd("content", me, V)))), Cand("pattern of now", pat),
                Cand("ready", lambda p, e, c: z3.Not(p.rd("_in_regex", me, Bool)))]
    ai = (Contract("whitespaces.Whitespace.add_ignore", ["C19", "C20"], "Whitespace", [], recs=[ADD], cands=anew, setup=lambda p, c: (nolonger(p, c), canon_inv(p, c)), ret=ignore_ret,
                 writes={**ids, "$seq": lambda c, r: r == fld(c, "ignore_list")}, vararg=lambda p, c: p.new_list(extra, elem=("ref", "ParserElement"), cls="tuple")))
    ai.ghost = lambda c, p: {"$ignore": p.typed(fld(c, "ignore_list"), ("list", ("ref", "ParserElement")))}
    add(ai)
