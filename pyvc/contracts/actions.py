"""contracts of what wraps the functions of a user: actions and conditions (C11), and of what builds expressions from others (C21)"""
from .base import *
from ..exec import T

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    n_ = z3.Length
    ci = lambda x: prog.classes[x]
    # ------------------------------------------------------------------ C11: what an action returns
    # a function of the user, called with the first `num` of result, position and text: 0 returns, 1 raises a parse failure, 2 another error
    USER_kind = fn("USER_kind", Int, Int, Int, Int, Str, Int)
    USER_val = fn("USER_val", Int, Int, Int, Int, Str, V)
    def user(p, f, args, kw):
        a = [p.resolve(q) for q in args]
        c = p.ctx
        tok, i, s = c.a["token"].t, c.a["index"].t, c.a["string"].t
        want = [("the result", lambda v: isinstance(v, VRef) and v.t.eq(tok)), ("the position", lambda v: isinstance(v, VInt) and p.entails(v.t == i)), ("the text", lambda v: isinstance(v, VStr) and p.entails(v.t == s))]
        for v, (what, good) in zip(a, want):
            if not good(v): p.fail(f"gives the function {what}", repr(v))
        if len(a) > 3: p.fail("gives the function at most three arguments", repr(a))
        num = I(len(a))
        p.oblige("gives the function as many arguments as it takes", num == c.closure["num_args"].t)
        p.frame0.locals["$calls"] = VInt(p.frame0.locals["$calls"].t + 1)
        k = USER_kind(f.t, num, tok, i, s)
        p.assume(z3.And(0 <= k, k <= 2))
        if p.branch(k == 0):
            v = USER_val(f.t, num, tok, i, s)
            r = V.rval(v)
            p.assume(z3.Implies(is_ref(v), z3.And(r > 0, r < A0)))
            p.assume(z3.Not(z3.Or(V.is_t2(v), V.is_t3(v))))      # a tuple returned is a reference like any other
            fl, tk = (z3.Function("fld_" + x, Int, Int) for x in ("failures", "tokens"))
            for x in (r, tok):      # the lists of a result are its own (constructors of results make or are given their own)
                for y in (r, tok): p.assume(z3.Implies(z3.And(is_ref(v), p.sub(p.tag(r), ci("ParseResults"))), fl(x) != tk(y)))
            return VDyn(v)
        e = p.alloc(p.prog.classes["BaseException"], exact=False, tag=p.fresh(Int, "etag"))
        if p.branch(k == 1):
            p.assume(p.sub(p.tag(e.t), ci("ParseException")))
            raise PyRaise(VRef(e.t, ci("ParseException")))
        p.assume(z3.And(z3.Not(p.sub(p.tag(e.t), ci("ParseException"))), p.sub(p.tag(e.t), ci("Exception"))))
        raise PyRaise(e)
    def closure(p, c):
        na = z3.Const("num_args", Int)
        p.assume(z3.And(0 <= na, na <= 3))
        k = 0
        while k < 3 and not p.branch(na == k): k += 1
        if k == 3: p.assume(na == 3)
        p.user_call = user
        return {"func": VCallable(z3.Const("func", Int)), "num_args": VInt(I(k)), "func_name": VStr(z3.Const("func_name", Str))}
    num = lambda c: c.closure["num_args"].t
    args = lambda c: (c.closure["func"].t, num(c), c.token, c.index, c.string)
    kind, val = lambda c: USER_kind(*args(c)), lambda c: USER_val(*args(c))
    ispr = lambda c, v: z3.And(V.is_ref(v), c.p.sub(c.p.tag(V.rval(v)), ci("ParseResults")))
    islist = lambda c, v: z3.Or(z3.And(V.is_ref(v), z3.Or(c.p.sub(c.p.tag(V.rval(v)), ci("list")), c.p.sub(c.p.tag(V.rval(v)), ci("tuple")))))
    outside = lambda c: z3.And(ispr(c, val(c)), z3.Or(F_start(V.rval(val(c))) < F_start(c.token), F_end(c.token) < F_end(V.rval(val(c)))))
    tokens0 = lambda r: seq0(z3.Function("fld_tokens", Int, Int)(r))
    failures0 = lambda r: seq0(z3.Function("fld_failures", Int, Int)(r))
    def wrap_ret(c, res):
        p = c.p; r = p.resolve(res); v = val(c)
        p.oblige("calls the function once", p.frame0.locals["$calls"].t == 1)
        if not (isinstance(r, VRef) and r.cls.issub(ci("ParseResults"))): p.fail("returns a parse result", repr(r)); return
        p.oblige("returns only when the function did, and what it returned is within the match", z3.And(kind(c) == 0, z3.Not(outside(c))))
        t = p.seq(p.rd("tokens", r.t, Int)); f = p.seq(p.rd("failures", r.t, Int))
        over = z3.And(p.rd("start", r.t, Int) == F_start(c.token), p.rd("end", r.t, Int) == F_end(c.token), p.rd("_type", r.t, Int) == TYPE(c))
        p.oblige("nothing returned keeps the result", z3.Implies(V.is_none(v), r.t == c.token))
        p.oblige("a result returned is used as it is", z3.Implies(ispr(c, v), z3.And(r.t == V.rval(v), t == tokens0(V.rval(v)))))
        p.oblige("a list returned replaces the tokens over the same span", z3.Implies(islist(c, v), z3.And(over, t == seq0(V.rval(v)))))
        p.oblige("a value returned replaces the tokens over the same span", z3.Implies(z3.Not(z3.Or(V.is_none(v), ispr(c, v), islist(c, v))), z3.And(over, t == V1(v))))
        p.oblige("the failures met stay with the result", z3.Implies(z3.And(ispr(c, v), V.rval(v) != c.token), f == z3.Concat(failures0(V.rval(v)), failures0(c.token))))
        p.oblige("the failures met stay with a new result", z3.Implies(z3.Not(z3.Or(V.is_none(v), ispr(c, v))), f == failures0(c.token)))
    PR_TYPE = z3.Function("PR_type", Int, Int)
    TYPE = lambda c: PR_TYPE(c.token)
    def wrap_exc(c, e):
        p = c.p
        pe = p.isinst(e, ci("ParseException"))
        p.oblige("calls the function once", p.frame0.locals["$calls"].t == 1)
        p.oblige("fails only when the function failed or returned what reaches outside the match", z3.Or(kind(c) != 0, outside(c)))
        p.oblige("a parse failure of the function stays one, and any other error is none", pe == (kind(c) == 1))
    def wrap_writes(c, r):
        v = val(c)
        return z3.And(ispr(c, v), r == z3.Function("fld_failures", Int, Int)(V.rval(v)))
    con = Contract("utils.wrap_parse_action.wrapper", ["C11"], None, [("token", "ref:ParseResults"), ("index", "int"), ("string", "str")], closure=closure,
                   ret=wrap_ret, exc=wrap_exc, writes={"$seq": wrap_writes})
    con.ghost = lambda c, p: {"$calls": VInt(I(0))}
    add(con)
    reg.call_unknown = lambda p, f, args, kw: p.user_call(p, f, args, kw) if getattr(p, "user_call", None) else call_action(p, f, args)
    # ------------------------------------------------------------------ C11: conditions
    cargs = lambda c: (c.closure["fn"].t, c.token, c.index, c.string)
    ckind, cres = lambda c: ACT_kind(*cargs(c)), lambda c: ACT_res(*cargs(c))
    def holds(c):
        """what the condition gave is true: the first token of its result"""
        p = c.p
        t = tokens0(cres(c))
        if not p.branch(ckind(c) == 0): return FALSE
        return z3.BoolVal(p.branch(n_(t) > 0) and bool(p.truth(VDyn(t[0]))))
    def cond_closure(p, c):
        return {"fn": VCallable(z3.Const("fn", Int)), "message": VDyn(z3.Const("message", V)), "fatal": VBool(z3.Const("fatal", Bool))}
    def cond_ret(c, r):
        p = c.p; r = p.resolve(r)
        p.oblige("passes only what the condition holds of", holds(c))
        if isinstance(r, VRef): p.oblige("keeps the result", r.t == c.token)
        else: p.fail("keeps the result", repr(r))
    def cond_exc(c, e):
        p = c.p
        pe = p.isinst(e, ci("ParseException"))
        p.oblige("fails only where the condition does not hold, or fails itself", z3.Or(ckind(c) != 0, z3.Not(holds(c))))
        p.oblige("is a parse failure unless it is fatal or the condition raised another error", pe == z3.Or(ckind(c) == 1, z3.And(ckind(c) == 0, z3.Not(c.closure["fatal"].t))))
        if p.entails(ckind(c) == 0) and p.entails(pe):
            e = VRef(e.t, ci("ParseException"))
            p.oblige("the failure names the expression, the position and the text", z3.And(p.rd("expr", e.t, Int) == TYPE(c), p.rd("start", e.t, Int) == c.index, p.rd("string", e.t, Str) == c.string))
    con = Contract("core.ParserElement.add_condition.make_cond.cond", ["C11"], None, [("token", "ref:ParseResults"), ("index", "int"), ("string", "str")], closure=cond_closure, ret=cond_ret, exc=cond_exc)
    add(con)
    # ------------------------------------------------------------------ C21: what is built from an expression leaves the expression alone
    SORTF = {"parser_name": V, "token_name": Str, "parser_config": Int, "exprs": Int, "alternate": Int, "expr": Int, "regex": V, "parsed_all": V}
    CMAP = {"MatchFirst": ["exprs", "alternate"], "Or": ["exprs", "alternate"], "NotAny": ["expr", "regex"], "ParseExpression": ["exprs"], "ParseEnhancement": ["expr"], "ParserElement": [], "Word": ["regex"], "Regex": ["expr", "regex", "parsed_all"], "LookBehind": []}
    def field_term(p, name, obj, r):
        ft = p.x.reg.types
        return p.box(p.getattr_(VRef(r, obj.cls, obj.exact), name))
    def same_fields(p, c, r, names, old=None):
        s = c.self
        for nm in names:
            if nm in ("exprs", "alternate"):
                p.oblige(f"the copy has the {nm} of the original", p.to_seq(p.getattr_(r, nm))[0] == seq0(fld(c, nm)))
                continue
            p.oblige(f"the copy has the {nm.replace('_', ' ')} of the original", p.box(p.getattr_(r, nm)) == p.box(p.getattr_(s, nm)))
    def fresh_copy(c, r):
        p = c.p; r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns an expression", repr(r)); return None
        p.oblige("returns a new expression", r.t >= A0)
        p.oblige("of the same class", p.tag(r.t) == p.tag(c.self.t))
        return VRef(r.t, c.self.cls)
    pa = lambda p, r: p.seq(p.rd("parse_action", r.t, Int))
    pa0 = lambda c: seq0(fld(c, "parse_action"))
    BASE = ["parser_name", "token_name", "parser_config"]
    def copy_post(cls):
        def ret(c, r):
            p = c.p; r = fresh_copy(c, r)
            if r is None: return
            same_fields(p, c, r, BASE + CMAP[cls])
            p.oblige("the copy has a list of actions of its own", z3.And(p.rd("parse_action", r.t, Int) >= A0, p.rd("parse_action", r.t, Int) != fld(c, "parse_action")))
            p.oblige("with the actions of the original", pa(p, r) == pa0(c))
            m = p.box(p.getattr_(r, "min_length_cache"))
            p.oblige("the copy works out its minimum length anew, or keeps it", z3.Or(m == V.int(-1), m == p.box(p.getattr_(c.self, "min_length_cache"))))
        return ret
    for cls, mod in (("ParserElement", "core"), ("ParseExpression", "expressions"), ("MatchFirst", "expressions"), ("Or", "expressions"), ("ParseEnhancement", "enhancement"), ("NotAny", "enhancement"), ("Word", "tokens"), ("Regex", "regex")):
        con = Contract(f"{mod}.{cls}.copy", ["C21"], cls, [], ret=copy_post(cls))
        con.inline = {"core.ParserElement.copy", "expressions.ParseExpression.copy", "enhancement.ParseEnhancement.copy", "tokens.Token.copy"}
        add(con)
    # ------------------------------------------------------------------ what copies are made into
    isfwd = lambda p, r: p.sub(p.tag(r), ci("Forward"))
    def copied_actions(p, s): return z3.If(isfwd(p, s), EMPTY, p.seq(p.rd("parse_action", s, Int)))
    def copy_call(p, a):
        s = p.resolve(a[0])
        r = p.alloc(s.cls, exact=False, tag=p.tag(s.t))
        for nm, srt in (("parser_name", V), ("token_name", Str), ("parser_config", Int)): put_fresh(p, r, nm, p.rd(nm, s.t, srt), srt)
        l = p.new_list(copied_actions(p, s.t), elem=("fn",))
        put_fresh(p, r, "parse_action", l.t, Int)
        if p.ctx.self is not None and s.t.eq(p.ctx.self.t): p.frame0.locals["$copy"], p.frame0.locals["$actions"] = VTup([r, VBox(dict(p.heap))]), l
        return VRef(r.t, s.cls)
    class VBox(Val):
        def __init__(self, v): self.v = v
    reg.ifaces["ParserElement.copy"] = Iface("ParserElement.copy", copy_call, "ParserElement", "copy", except_=("Whitespace",))
    def set_config(p, args, b):
        s = p.resolve(args[0])
        old = p.rd("parser_config", s.t, Int)
        new = p.alloc(ci("Config") if "Config" in prog.classes else ci("object"))
        kw = b.get("map") if isinstance(b, dict) else None
        given = {k: v for k, v in (kw.d.items() if isinstance(kw, VDict) else [])}
        names = {k.split(".")[-1] for k in reg.cfg_types}
        for nm in names: put_fresh(p, new, "cfg_" + nm, p.box(given[nm]) if nm in given else p.rd("cfg_" + nm, old, V), V)
        p.wr("parser_config", s.t, new.t, Int)
        return NONE
    reg.assumed["core.ParserElement.set_config"] = Contract("core.ParserElement.set_config", [], "ParserElement", [], call=set_config, note="a configuration with the named fields replaced (namedtuple of the class); run by the bounded checks")
    CALLABLE = fn("CALLABLE", Int, Bool)
    WRAP, COND = fn("WRAPPED", Int, Int), fn("CONDITION", Int, V, Bool, Int)
    def wrap_call(p, args, b):
        f = p.resolve(args[0])
        if p.con.qual.endswith(".__truediv__") and not p.branch(CALLABLE(V.oval(p.box(f)))): p.raise_("TypeError")
        return VCallable(WRAP(V.oval(p.box(f))))
    reg.assumed["utils.wrap_parse_action"] = Contract("utils.wrap_parse_action", [], None, [], call=wrap_call, note="wrapper around this function (contract of utils.wrap_parse_action.wrapper), called with as many arguments as the function takes; run by the bounded check of C11")
    def made_cond(p, f, message, fatal): return VCallable(COND(V.oval(p.box(f)), p.box(message), p.bool_(fatal)))
    def changes(c, r, allowed):
        """nothing of the new expression differs from the copy, but the fields named"""
        p = c.p
        got = p.frame0.locals.get("$copy")
        r = p.resolve(r)
        if got is None or not (isinstance(r, VRef) and r.t.eq(got.items[0].t)): p.fail("returns a copy of the expression", repr(r)); return None
        then = got.items[1].v
        for f, h in p.heap.items():
            if f in allowed or f.startswith("$") or f.startswith("cfg_"): continue
            if f in then and then[f] is h: continue
            now = heap_read(h, r.t, p.is_old)
            before = heap_read(then[f], r.t, p.is_old) if f in then else z3.Function("fld_" + f, Int, now.sort())(r.t)
            p.oblige(f"the new expression has the {f} of the copy", now == before)
        return VRef(r.t, c.self.cls)
    base_actions = lambda c: z3.If(isfwd(c.p, c.self.t), EMPTY, pa0(c))
    def derived(name, params, allowed, ret, props=("C21",), **kw):
        def post(c, r):
            r = changes(c, r, allowed)
            if r is not None: ret(c, r)
        con = Contract("core.ParserElement." + name, list(props), "ParserElement", params, ret=post, **kw)
        con.ghost = lambda c, p: {"$self": c.self}
        add(con)
        return con
    derived("set_token_name", [("name", "str")], ["token_name"], lambda c, r: (c.p.oblige("has the name given", c.p.native(c.p.getattr_(r, "token_name"), ("str",)) == c.name),
                                                                             c.p.oblige("and the actions of the original", pa(c.p, r) == base_actions(c))))
    derived("clear_parse_action", [], ["parse_action"], lambda c, r: c.p.oblige("has no actions", pa(c.p, r) == EMPTY), props=("C21", "C11"))
    fns = lambda c: c.vararg.t
    def fns_arg(p, c):
        q = z3.Const("p_fns", Int)
        p.mark_old(q); p.assume(z3.And(q > 0, q < A0))
        return p.typed(q, ("list", ("fn",)))
    def mapped(name, item, start=lambda c: EMPTY):
        return Rec(name, ["int", "seq"], [SeqV], lambda c: [I(0), start(c)],
                   lambda c, st: [(st[0] >= n_(seq0(fns(c))), [st[1]]), (TRUE, Next(st[0] + 1, z3.Concat(st[1], V1(item(c, seq0(fns(c))[st[0]])))))], fixed=lambda c: [seq0(fns(c))])
    WR = mapped("ALL_WRAPPED", lambda c, v: V.oth(WRAP(V.oval(v))))
    def wr_setup(p, c): pass
    cfg_try = lambda c: cfg(c, "callDuringTry", "bool")
    now_try = lambda p, r: V.bval(p.rd("cfg_callDuringTry", p.rd("parser_config", r.t, Int), V))
    trying = lambda c: c.kwonly["callDuringTry"].t
    def add_ret(c, r):
        p = c.p
        p.assume(z3.Function("MAP_wrap_parse_action", SeqV, SeqV)(seq0(fns(c))) == WR.value(c, 0))      # map: the function on each, in order
        p.oblige("has the actions of the original and then those given, in order", pa(p, r) == z3.Concat(base_actions(c), WR.value(c, 0)))
        p.oblige("runs them during tries when the original does or when asked to", now_try(p, r) == z3.Or(cfg_try(c), trying(c)))
    try_arg = lambda p, c: {"callDuringTry": VBool(z3.Const("p_callDuringTry", Bool))}
    derived("add_parse_action", [], ["parse_action", "parser_config"], add_ret, props=("C21", "C11"), vararg=fns_arg, kwonly=try_arg, recs=[WR])
    derived("__truediv__", [("func", lambda p: VCallable(z3.Const("p_func", Int)))], ["parse_action"],
            lambda c, r: truediv_ret(c, r), props=("C21", "C11"))
    def truediv_ret(c, r):
        q, p, f = pa(c.p, r), c.p, V.oth(WRAP(c.a["func"].t))
        p.oblige("has the actions of the original and then the one given", z3.Implies(CALLABLE(c.a["func"].t), q == z3.Concat(base_actions(c), V1(f))))
        m = n_(base_actions(c))
        p.oblige("has the actions of the original and then one that gives the constant", z3.And(n_(q) == m + 1, z3.SubSeq(q, 0, m) == base_actions(c)))
    # conditions
    def make_closure(p, c): return {"message": VDyn(z3.Const("message", V)), "fatal": VBool(z3.Const("fatal", Bool))}
    def make_ret(c, r):
        p = c.p
        ok = isinstance(r, VFunc) and r.fi.qual == "core.ParserElement.add_condition.make_cond.cond" and r.frame is not None
        if not ok: p.fail("returns a condition on a result", repr(r)); return
        for nm, v in (("fn", c.a["fn"]), ("message", c.closure["message"]), ("fatal", c.closure["fatal"])):
            h = r.frame.holder(nm)
            p.oblige(f"whose {nm} is the one given", p.box(h.locals[nm]) == p.box(v) if h is not None else FALSE)
    def make_call(p, args, b):
        f = b["fn"]
        loc = lambda nm: p.frame0.locals[nm]
        return VCallable(COND(V.oval(p.box(f)), p.box(loc("message")), p.bool_(loc("fatal"))))
    add(Contract("core.ParserElement.add_condition.make_cond", ["C11"], None, [("fn", lambda p: VCallable(z3.Const("p_fn", Int)))], closure=make_closure, ret=make_ret, call=make_call))
    CD = mapped("ALL_CONDITIONS", lambda c, v: V.oth(COND(WRAP(V.oval(v)), c.p.box(c.kwonly["message"]), c.kwonly["fatal"].t)), start=lambda c: base_actions(c))
    def cond_add(c, r):
        p = c.p
        p.oblige("has the actions of the original and then the conditions given, in order", pa(p, r) == CD.value(c, 0))
        p.oblige("checks them during tries when the original runs its actions then or when asked to", now_try(p, r) == z3.Or(cfg_try(c), trying(c)))
    derived("add_condition", [], ["parse_action", "parser_config"], cond_add, props=("C21", "C11"), vararg=fns_arg, recs=[CD],
            kwonly=lambda p, c: {"callDuringTry": VBool(z3.Const("p_callDuringTry", Bool)), "message": VDyn(z3.Const("p_message", V)), "fatal": VBool(z3.Const("p_fatal", Bool))})
    def call_ret(c, r):
        p = c.p; r_ = p.resolve(r)
        if p.branch(n_(c.name) == 0): p.oblige("no name leaves it as it is", r_.t == c.self.t if isinstance(r_, VRef) else FALSE); return
        r_ = changes(c, r, ["token_name"])
        if r_ is None: return
        p.oblige("has the name given", p.native(p.getattr_(r_, "token_name"), ("str",)) == c.name)
        p.oblige("and the actions of the original", pa(p, r_) == base_actions(c))
    con = Contract("core.ParserElement.__call__", ["C21"], "ParserElement", [("name", "str")], ret=call_ret)
    con.ghost = lambda c, p: {"$self": c.self}
    add(con)
    # ------------------------------------------------------------------ C05: how often, as written with *
    MADE = lambda p: p.frame0.locals.get("$many")
    old_many = reg.constructors.get("Many")
    def many(p, ci_, args, kw):
        if p.con.qual != "core.ParserElement.__mul__": return old_many(p, ci_, args, kw) if old_many else None
        r = p.alloc(ci_)
        p.frame0.locals["$many"] = VTup([r, args[0] if args else kw["expr"], arg(args, kw, 3, "min_match"), arg(args, kw, 4, "max_match")])
        return r
    reg.constructors["Many"] = many
    old_stream = reg.methods.get("Many.streamline")
    reg.methods["Many.streamline"] = lambda p, recv, args, kw: recv if p.con.qual == "core.ParserElement.__mul__" else (old_stream(p, recv, args, kw) if old_stream else None)
    MAXI = z3.IntVal(__import__("sys").maxsize)
    def times(p):
        a, b = z3.Const("p_low", V), z3.Const("p_high", V)
        p.lo, p.hi = a, b
        kinds = lambda v: z3.Or(V.is_none(v), V.is_int(v), V.is_str(v))
        p.assume(z3.And(kinds(a), kinds(b)))
        if p.branch(z3.Const("p_plain", Bool)):
            p.assume(a == b)
            return VDyn(a)
        return VTup([VDyn(a), VDyn(b)])
    absent = lambda v: z3.Or(V.is_none(v), v == V.int(0), v == V.str(z3.StringVal("")))
    low = lambda p: z3.If(absent(p.lo), I(0), V.ival(p.lo))
    bad = lambda p: z3.Or(z3.And(z3.Not(absent(p.lo)), z3.Or(z3.Not(V.is_int(p.lo)), V.ival(p.lo) < 0)),
                          z3.And(z3.Not(absent(p.hi)), z3.Or(z3.Not(V.is_int(p.hi)), V.ival(p.hi) < low(p))))
    def mul_ret(c, r):
        p = c.p; r = p.resolve(r); m = MADE(p)
        if m is None or not isinstance(r, VRef) or not r.t.eq(m.items[0].t): p.fail("returns a repetition", repr(r)); return
        p.oblige("accepts only whole numbers in order", z3.Not(bad(p)))
        p.oblige("repeats this expression", p.box(m.items[1]) == V.ref(c.self.t))
        p.oblige("at least as often as asked for", p.int_(m.items[2]) == low(p))
        p.oblige("at most as often as asked for, without end when nothing or none is asked for", p.int_(m.items[3]) == z3.If(absent(p.hi), p.maxint() if hasattr(p, "maxint") else MAXI, V.ival(p.hi)))
    add(Contract("core.ParserElement.__mul__", ["C05", "C21"], "ParserElement", [("other", times)], ret=mul_ret,
                 exc=lambda c, e: c.p.oblige("refuses only what is not whole numbers in order", bad(c.p))))
    # ------------------------------------------------------------------ C27: suppressing, naming the entries of a dictionary
    action = [("tokens", "ref:ParseResults"), ("start", "int"), ("string", "str")]
    def suppress_ret(c, res):
        p = c.p; r = p.resolve(res); t = c.a["tokens"].t
        if not (isinstance(r, VRef) and r.cls.issub(ci("ParseResults"))): p.fail("returns a parse result", repr(r)); return
        rd = lambda f: p.rd(f, r.t, Int)
        p.oblige("drops every token", n_(p.seq(rd("tokens"))) == 0)
        p.oblige("over the same span, of the same expression", z3.And(rd("start") == F_start(t), rd("end") == F_end(t), rd("_type") == PR_TYPE(t)))
        p.oblige("keeps the failures met", p.seq(rd("failures")) == failures0(t))
    add(Contract("enhancement._suppress_post_parse", ["C27"], None, action, ret=suppress_ret, pre=lambda c: [("a span", F_end(c.a["tokens"].t) >= 0)]))
