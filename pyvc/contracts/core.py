"""contracts of the driver: actions (core.ParserElement._parse, utils.wrap_parse_action), entry points, scanning, debugging"""
from .base import *
from ..exec import T

def add_log(c, p):
    return {"$log": p.new_list(EMPTY, elem=("dyn",))}

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    def assume(c): reg.assumed[c.qual] = c
    prog = reg.prog
    n = lambda c: z3.Length(c.s)
    ci = lambda x: prog.classes[x]

    # ------------------------------------------------------------------ C11: every action once, in order, on the result of the one before
    acts = lambda c: seq0(fld(c, "parse_action"))
    def act_step(c, st):
        k, r, log = st
        f = V.oval(acts(c)[k])
        a = F_start(r)
        kind = ACT_kind(f, r, a, c.s)
        x = ACT_res(f, r, a, c.s)
        log2 = z3.Concat(log, V1(V.t2(V.oth(f), V.ref(r))))
        return [(k >= z3.Length(acts(c)), [I(0), r, log]),
                (kind != 0, [kind, None, log2]),
                (F_end(x) < F_end(r), [I(3), None, log2]),
                (TRUE, Next(k + 1, x, log2))]
    pir = lambda c: PI_res(c.self.t, c.s, c.i, c.da)
    pok = lambda c: PI_ok(c.self.t, c.s, c.i, c.da)
    runs = lambda c: z3.Or(c.da, cfg(c, "callDuringTry", "bool"))
    def parse_contract(qual, props, cls="ParserElement", params=(), **kw):
        ACTS = Rec("ACTIONS", ["int", "ref", "seq"], [Int, Int, SeqV], lambda c: [I(0), pir(c), EMPTY], act_step, fixed=lambda c: [c.s, c.i, c.da, c.self.t])
        kind = lambda c: z3.If(runs(c), ACTS.value(c, 0), I(0))
        def log(p): return p.seq(p.frame0.locals["$log"].t)
        def ret(c, res):
            p = c.p; res = p.resolve(res)
            if not isinstance(res, VRef): p.fail("returns a parse result", f"returns {res!r}", props); return
            p.oblige("succeeds only where the expression matches and no action refuses", z3.And(pok(c), kind(c) == 0), props)
            p.oblige("returns the result of the last action, or the match when there is none", res.t == z3.If(runs(c), ACTS.value(c, 1), pir(c)), props)
            p.oblige("runs each action once, in order, on what the one before returned", log(p) == z3.If(runs(c), ACTS.value(c, 2), EMPTY), props)
        def exc(c, e):
            p = c.p
            pe = p.isinst(e, ci("ParseException"))
            if len(e.cls.mro) and p.entails(p.isinst(e, ci("ParseException"))) and p.entails(z3.Not(pok(c))):
                e = VRef(e.t, ci("ParseException"))
                p.oblige("the failure names this expression, this position and this text", z3.And(p.rd("expr", e.t, Int) == c.self.t, p.rd("start", e.t, Int) == c.i, p.rd("string", e.t, Str) == c.s), props)
            p.oblige("fails only where the expression does not match, or an action refuses or breaks the rules", z3.Or(z3.Not(pok(c)), kind(c) != 0), props)
            p.oblige("a parse failure means no match or a refusing action", z3.Implies(pe, z3.Or(z3.Not(pok(c)), kind(c) == 1)), props)
            p.oblige("another error comes from an action", z3.Implies(z3.Not(pe), z3.And(pok(c), z3.Or(kind(c) == 2, kind(c) == 3))), props)
            p.oblige("no action runs after the one that refused", log(p) == z3.If(z3.And(pok(c), runs(c)), ACTS.value(c, 2), EMPTY), props)
        con = Contract(qual, props, cls, list(params) + [("s", "str"), ("i", "int"), ("da", "bool")], pre=lambda c: [("in text", z3.And(0 <= c.i, c.i <= n(c)))], ret=ret, exc=exc, recs=[ACTS], **kw)
        con.ghost = add_log
        con.generic = False
        return con
    add(parse_contract("core.ParserElement._parse", ["C11", "C18"]))

    # ------------------------------------------------------------------ C28: debugging changes nothing: the same contract
    printed = lambda p, args, b: NONE
    for q in ("debug._try", "debug.match", "debug.fail"):      # print; assumed to return (the bounded harness runs them)
        assume(Contract(q, [], None, [], call=printed, note="trusted: prints"))
    reg.globals["debug.DEBUGGER"] = "opt:ref:Debugger"
    def dbg_self(p, c): c.self = c.a["self_"]; p.well_typed(c.self)
    def dbg_closure(p, c):
        d = z3.Const("debugger", Int); p.mark_old(d); p.assume(z3.And(0 < d, d < A0))
        return {"debugger": VRef(d, ci("Debugger"))}
    add(parse_contract("debug._debug_parse.debug_parse", ["C28"], None, params=[("self_", "ref:ParserElement")], setup=dbg_self, closure=dbg_closure,
                       writes={"parse_count": True, "max_stack_depth": True}))

    # Debugger.__enter__/__exit__: what enter replaced, exit puts back
    PARSE = "class:ParserElement._parse"
    def parse_attr(p, obj): return p.globals.setdefault(PARSE, VDyn(z3.Const("glob_ParserElement._parse", V)))
    reg.class_attrs["ParserElement._parse"] = parse_attr
    reg.class_attrs_rw.add("ParserElement._parse")
    old_parse = z3.Const("glob_ParserElement._parse", V)
    old_dbg = z3.Const("glob_debug.DEBUGGER", V)
    def glob(p, key):
        r = prog.resolve(prog.modules[key.split(".")[0]], key.split(".")[1])
        return p.global_const(key, r)
    PREV, WAS = z3.Function("fld_previous_parse", Int, Int), z3.Function("fld_was_debugging", Int, Int)
    kept = lambda c, f: seq0(f(c.self.t))
    def own_stacks(p, c):
        a, b = PREV(c.self.t), WAS(c.self.t)
        p.assume(z3.And(a != b, 0 < a, a < A0, 0 < b, b < A0))                 # lists made by the constructor, held by nothing else
        p.assume(z3.Length(seq0(a)) == z3.Length(seq0(b)))                      # one of each for each time entered (contracts of __enter__, __exit__)
    def init_ret(c, res):
        p, s = c.p, c.self.t
        a, b = p.rd("previous_parse", s, Int), p.rd("was_debugging", s, Int)
        p.oblige("not entered yet", z3.And(a >= A0, b >= A0, a != b, z3.Length(p.seq(a)) == 0, z3.Length(p.seq(b)) == 0))
        p.oblige("prints unless silent", p.rd("silent", s, Bool) == p.bool_(p.resolve(c.a["silent"])))
    add(Contract("debug.Debugger.__init__", ["C28"], "Debugger", [("silent", "bool")], ret=init_ret, writes={"*": lambda c, r: r == c.self.t}))
    def enter_ret(c, res):
        p = c.p
        p.oblige("remembers the parse function in place", p.seq(PREV(c.self.t)) == z3.Concat(kept(c, PREV), V1(old_parse)))
        p.oblige("remembers the debugger in place", p.seq(WAS(c.self.t)) == z3.Concat(kept(c, WAS), V1(old_dbg)))
        now = parse_attr(p, None)
        good = isinstance(now, VFunc) and now.fi.qual == "debug._debug_parse.debug_parse" and now.frame is not None
        d = now.frame.holder("debugger") if good else None
        d = d.locals["debugger"] if d is not None else None
        if not (good and isinstance(p.resolve(d), VRef)): p.fail("installs the debugging parse function of this debugger", f"{now!r}")
        else: p.oblige("installs the debugging parse function of this debugger", p.resolve(d).t == c.self.t)
        p.oblige("is the debugger now", p.box(glob(p, "debug.DEBUGGER")) == V.ref(c.self.t))
        r = p.resolve(res)
        p.oblige("returns itself", r.t == c.self.t if isinstance(r, VRef) else FALSE)
    dbgw = {"$seq": lambda c, r: z3.Or(r == PREV(c.self.t), r == WAS(c.self.t))}
    add(Contract("debug.Debugger.__enter__", ["C28"], "Debugger", [], setup=own_stacks, ret=enter_ret, writes=dbgw, global_writes=["debug.DEBUGGER"]))
    def exit_ret(c, res):
        p = c.p
        last = lambda f: kept(c, f)[z3.Length(kept(c, f)) - 1]
        rest = lambda f: z3.SubSeq(kept(c, f), 0, z3.Length(kept(c, f)) - 1)
        p.oblige("puts back the parse function of the last time it was entered", p.box(parse_attr(p, None)) == last(PREV))
        p.oblige("puts back the debugger of then", p.box(glob(p, "debug.DEBUGGER")) == last(WAS))
        p.oblige("and forgets them", z3.And(p.seq(PREV(c.self.t)) == rest(PREV), p.seq(WAS(c.self.t)) == rest(WAS)))
        p.oblige("lets errors pass", z3.BoolVal(isinstance(res, VNone)))
    entered = lambda c: [("entered and not left", z3.Length(kept(c, PREV)) > 0)]
    add(Contract("debug.Debugger.__exit__", ["C28"], "Debugger", [("t", "dyn"), ("v", "dyn"), ("b", "dyn")], setup=own_stacks, pre=entered, ret=exit_ret, writes=dbgw, global_writes=["debug.DEBUGGER"]))
