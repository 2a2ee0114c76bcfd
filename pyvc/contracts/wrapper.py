"""contract of the wrapper of the entry points (C12-C14): reset what actions keep, then parse, all under the lock"""
from .base import *
from ..exec import PyRaise, Unsupported

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    Q = "core.entrypoint.output"
    PROPS = ["C12", "C13", "C14"]
    GAVE, GAVE_ok, RESET_ok = fn("GAVE", Int, SeqV, V), fn("GAVE_ok", Int, SeqV, Bool), fn("RESET_ok", V, Bool)
    TAKEN, LEFT = V.str(z3.StringVal("the lock is taken")), V.str(z3.StringVal("the lock is left"))
    FAILED = V.str(z3.StringVal("a reset action failed"))
    OPTION = z3.Const("p_option", V)
    def note(p, x): p.list_append(p.frame0.locals["$log"], VDyn(x))
    def lock(p, mgr, taken):
        if p.con.qual == Q: note(p, TAKEN if taken else LEFT)
    reg.lock_event = lock
    prev = reg.call_unknown
    def call_unknown(p, f, args, kw):
        if p.con.qual != Q: return prev(p, f, args, kw)
        c = p.ctx
        note(p, V.oth(f.t))
        if f.t.eq(c.func):
            ok = list(kw) == ["option"] and isinstance(kw["option"], VDyn) and kw["option"].t.eq(OPTION) and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "*" and args[0][1].t.eq(c.vararg.t)
            if not ok: p.fail("what was given is passed on as it is", repr((args, kw)))
            got = p.seq(c.vararg.t)
            if not p.branch(GAVE_ok(f.t, got)):
                e = p.alloc(ci("BaseException"), exact=False, tag=p.fresh(Int, "etag"))
                c.raised = e.t
                raise PyRaise(e)
            return VDyn(GAVE(f.t, got))
        if args or kw: p.fail("a reset action is given nothing", repr((args, kw)))
        if not p.branch(RESET_ok(V.oth(f.t))):
            note(p, FAILED)
            e = p.alloc(ci("Exception"), exact=False, tag=p.fresh(Int, "etag"))
            p.assume(p.sub(p.tag(e.t), ci("Exception")))
            raise PyRaise(VRef(e.t, ci("Exception")))
        return NONE
    reg.call_unknown = call_unknown
    def closure(p, c):
        c.func = z3.Const("func", Int); c.raised = None
        return {"func": VCallable(c.func)}
    def given(p, c):
        q = z3.Const("p_given", Int)
        p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
        return p.typed(q, ("list", ("dyn",)))
    resets = lambda c: seq0(c.p.resolve(c.p.global_name(prog.modules["core"], "_reset_actions")).t)
    RUN = Rec("RESETS_RUN", ["int", "seq"], [SeqV], lambda c: [I(0), V1(TAKEN)],
              lambda c, st: [(st[0] >= n_(resets(c)), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(resets(c)[st[0]]))))], fixed=lambda c: [resets(c)])
    log = lambda c: c.p.seq(c.p.frame0.locals["$log"].t)
    def pre(c):
        s = resets(c)
        c.p.seq_facts.append((s, lambda k: z3.Implies(z3.And(0 <= k, k < n_(s)), z3.And(V.is_oth(s[k]), V.oval(s[k]) != c.func))))
        return []
    def ret(c, r):
        p = c.p
        s = p.seq(c.vararg.t)
        p.oblige("under the lock: every reset action, in the order they were added, and then the function, once", log(c) == z3.Concat(RUN.value(c, 0), V1(V.oth(c.func)), V1(LEFT)))
        p.oblige("gives what the function gave for what was passed", z3.And(GAVE_ok(c.func, s), p.box(r) == GAVE(c.func, s)))
    def exc(c, e):
        p = c.p
        s = p.seq(c.vararg.t)
        q = log(c)
        p.oblige("the lock is left", z3.And(n_(q) > 1, q[0] == TAKEN, q[n_(q) - 1] == LEFT))
        if c.raised is not None:
            p.oblige("the error of the function is passed on, after every reset action has run", z3.And(e.t == c.raised, z3.Not(GAVE_ok(c.func, s)), q == z3.Concat(RUN.value(c, 0), V1(V.oth(c.func)), V1(LEFT))))
        else:
            p.oblige("otherwise a reset action failed, which was the last thing done", z3.And(n_(q) > 3, q[n_(q) - 2] == FAILED))
    con = Contract(Q, PROPS, None, [], closure=closure, vararg=given, kwarg=lambda p, c: VDict({"option": VDyn(OPTION)}), pre=pre, ret=ret, exc=exc, recs=[RUN], terminates=True)
    con.ghost = lambda c, p: {"$log": p.new_list(EMPTY, elem=("dyn",))}
    add(con)
    # ------------------------------------------------------------------ C12: the text of a file
    PF = "core.ParserElement.parse_file"
    CONTENT = fn("CONTENT", Str, Str)             # what a file of that name holds
    HELD = z3.Const("p_held", Str)                # what an open file still holds
    def source(p):
        return VOpaque("an open file") if p.branch(z3.Const("p_is_open", Bool)) else VStr(z3.Const("p_name", Str))
    prev_op = reg.call_opaque
    def call_opaque(p, f, args, kw):
        if p.con.qual != PF: return prev_op(p, f, args, kw)
        if f.what == "an open file.read" and not args and not kw: return VStr(HELD)
        if f.what.startswith("file:") and f.what.endswith(".read") and not args and not kw:
            p.oblige("is read while it is open", z3.BoolVal(p.opened == ["open"]))
            return VStr(CONTENT(z3.Const("p_name", Str)))
        raise Unsupported(f"call of {f!r}")
    reg.call_opaque = call_opaque
    prev_lock = reg.lock_event
    def event(p, mgr, taken):
        if p.con.qual == PF and isinstance(mgr, VOpaque) and mgr.what.startswith("file:"):
            p.opened.append("open") if taken else p.opened.append("closed")
            if taken: p.opened[:] = ["open"]
        else: prev_lock(p, mgr, taken)
    reg.lock_event = event
    def opening(p, args, kw):
        mode = p.resolve(args[1] if len(args) > 1 else kw.get("mode", VStr(z3.StringVal("r"))))
        name = p.resolve(args[0]) if args else p.resolve(kw.get("file", NONE))
        if not isinstance(name, VStr): p.raise_("TypeError")
        p.oblige("the file of that name is opened for reading text", z3.And(name.t == z3.Const("p_name", Str), z3.BoolVal(isinstance(mode, VStr) and z3.is_string_value(mode.t) and set(mode.t.as_string()) == {"r"} or isinstance(mode, VStr) and mode.t.as_string() in ("rt", "tr")), z3.BoolVal(not set(kw) - {"file", "mode"})))
        if not p.branch(z3.Const("p_exists", Bool)): p.raise_("OSError")
        return VOpaque("file:name")
    reg.open_file = opening
    PARSE_ok, PARSE_val, FINAL = fn("PARSE_ok", Int, Str, Bool, Bool), fn("PARSE_val", Int, Str, Bool, V), fn("FINALIZED", Int, Int)
    def contents(c): return HELD if isinstance(c.p.resolve(c.a["file_or_filename"]), VOpaque) else CONTENT(z3.Const("p_name", Str))
    def closed(c):
        c.p.oblige("a file opened here is closed", z3.BoolVal(c.p.opened != ["open"]))
    def pf_ret(c, r):
        p = c.p; f = FINAL(c.self.t)
        closed(c)
        p.oblige("gives what parsing the contents gives", z3.And(PARSE_ok(f, contents(c), c.parse_all), p.box(r) == PARSE_val(f, contents(c), c.parse_all)))
    def pf_exc(c, e):
        p = c.p; f = FINAL(c.self.t)
        closed(c)
        named = not isinstance(p.resolve(c.a["file_or_filename"]), VOpaque)
        missing = z3.And(z3.BoolVal(named), z3.Not(z3.Const("p_exists", Bool)))
        p.oblige("fails only when the contents do not parse, or there is no such file", z3.If(missing, p.isinst(e, ci("OSError")), z3.And(z3.Not(PARSE_ok(f, contents(c), c.parse_all)), p.isinst(e, ci("ParseException")))))
    pf = Contract(PF, ["C12"], "ParserElement", [("file_or_filename", source), ("parse_all", "bool")], setup=lambda p, c: setattr(p, "opened", []), ret=pf_ret, exc=pf_exc)
    add(pf)
