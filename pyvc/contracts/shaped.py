"""contracts of what is made around an expression by name: suppress, naming of compounds, pending skips, copies of results, prefixes that differ"""
from .base import *
from ..exec import Unsupported

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog, B = reg.prog, reg.builders
    ci = lambda n: prog.classes[n]
    Made, key, CUR0 = B["Made"], B["key"], B["CUR0"]
    SHAPES = set()
    def made(p): return p.frame0.locals["$around"].d
    def put(p, cls, items, **extra):
        r = p.alloc(ci(cls)); made(p)[key(r.t)] = (cls, items, extra); return r
    def look(p, b): return made(p).get(key(z3.simplify(V.rval(z3.simplify(b)))))
    def gate(name, f, table):
        prev = table.get(name)
        table[name] = lambda p, *a: f(p, *a) if p.con.qual in SHAPES else (prev(p, *a) if prev else None)
    def shaped(qual, props, cls, params, ret, **kw):
        SHAPES.add(qual)
        con = Contract(qual, props, cls, params, ret=ret, **kw)
        con.ghost = lambda c, p: {"$around": Made()}
        con._setup = lambda p, c: p.assume(z3.And(CUR0 > 0, CUR0 < A0))
        add(con)
        return con
    # ------------------------------------------------------------------ C27: suppress
    def one_arg(cls):
        def f(p, ci_, args, kw):
            b = dict(zip(["expr"], args)); b.update(kw)
            if set(b) != {"expr"}: raise Unsupported("options of " + cls)
            p.x.used_contracts.add(f"enhancement.{cls}.__init__")
            return put(p, cls, [p.box(p.resolve(b["expr"]))])
        return f
    for cls in ("Suppress", "SkipTo"): gate(cls, one_arg(cls), reg.constructors)
    def acted(p, recv, args, kw):
        p.x.used_contracts.add("core.ParserElement.__truediv__")
        r = p.alloc(ci("ParserElement"), exact=False)
        f = p.resolve(args[0])
        made(p)[key(r.t)] = ("acted", [p.box(recv)], {"f": f})
        return r
    gate("ParserElement.__truediv__", acted, reg.methods)
    def hidden(c, r):
        p = c.p; r = p.resolve(r)
        m = look(p, p.box(r)) if isinstance(r, VRef) else None
        if m is None: p.fail("returns something that hides this expression", repr(r)); return
        p.oblige("which is this one", m[1][0] == V.ref(c.self.t))
        if m[0] == "acted":
            f = m[2]["f"]
            if not (isinstance(f, VFunc) and f.fi.qual.endswith("._suppress_post_parse")): p.fail("by the action that leaves no tokens", repr(f))
        elif m[0] != "Suppress": p.fail("hides it", m[0])
    shaped("core.ParserElement.suppress", ["C27"], "ParserElement", [], hidden)
    def suppressed(c, r):
        p = c.p; r = p.resolve(r)
        m = look(p, p.box(r)) if isinstance(r, VRef) else None
        p.oblige("returns a Suppress made for it", z3.BoolVal(m is not None and m[0] == "Suppress"))
        if m: p.oblige("of this expression", m[1][0] == V.ref(c.self.t))
    for cls in ("Forward", "Group"): shaped(f"enhancement.{cls}.suppress", ["C27"], cls, [], suppressed)
    shaped("enhancement.Suppress.suppress", ["C27"], "Suppress", [], lambda c, r: c.p.oblige("is hidden already", c.p.box(r) == V.ref(c.self.t)))
    # ------------------------------------------------------------------ C08: ... before another expression
    def plus(p, recv, args, kw):
        p.x.used_contracts.add("core.ParserElement.__add__")
        return put(p, "And", [p.box(recv), p.box(p.resolve(args[0]))])
    gate("ParserElement.__add__", plus, reg.methods)
    def named(p, recv, args, kw):
        m = look(p, p.box(recv))
        p.x.used_contracts.add("core.ParserElement.__call__")
        r = put(p, m[0] if m else "ParserElement", m[1] if m else [p.box(recv)], name=p.native(p.resolve(args[0]), ("str",)))
        return r
    gate("ParserElement.__call__", named, reg.methods)
    reg.types["_PendingSkip.anchor"] = "ref:ParserElement"
    def skip_ret(c, r):
        p = c.p; r = p.resolve(r)
        other = c.a["other"]
        anchor = p.box(p.getattr_(c.self, "anchor"))
        m = look(p, p.box(r)) if isinstance(r, VRef) else None
        if m is None or m[0] != "And": p.fail("returns a sequence", repr(m)); return
        pending = isinstance(other, VRef) and p.branch(p.sub(p.tag(other.t), ci("_PendingSkip")))
        if pending:
            p.oblige("what was before, then the other skip", z3.And(m[1][0] == anchor, m[1][1] == p.box(other))); return
        p.oblige("ends with the other expression", m[1][1] == p.box(other))
        m = look(p, m[1][0])
        if m is None or m[0] != "And": p.fail("after a skip", repr(m)); return
        p.oblige("begins with what was before", m[1][0] == anchor)
        s = look(p, m[1][1])
        if s is None or s[0] != "SkipTo": p.fail("skips", repr(s)); return
        p.oblige("to the other expression", s[1][0] == p.box(other))
        p.oblige("and names what was skipped", s[2].get("name", z3.StringVal("")) == z3.StringVal("_skipped"))
    shaped("core._PendingSkip.__add__", ["C08"], "_PendingSkip", [("other", B["operand"]("other", ("element", "text")))], skip_ret)
    # ------------------------------------------------------------------ C03: how many characters tell two prefixes apart
    LEN = z3.Length
    CH = fn("CHARS", Str, SeqV)                            # the characters of a text
    chars = lambda c: (CH(c.a["a"].t), CH(c.a["b"].t))
    def begin(q, k): return z3.SubSeq(q, 0, k)
    def step(q, k): return z3.Implies(z3.And(0 <= k, k < LEN(q)), begin(q, k + 1) == z3.Concat(begin(q, k), z3.Unit(q[k])))
    def same_so_far(p, n):
        a, b = chars(p.ctx)
        return z3.And(n >= 1, n - 1 <= LEN(a), n - 1 <= LEN(b), begin(a, n - 1) == begin(b, n - 1))
    def dist_ret(c, r):
        p = c.p; n = p.int_(p.resolve(r)); a, b = chars(c)
        p.oblige("at least one character, all before the last are the same", same_so_far(p, n))
        p.oblige("the last one differs, or one of the prefixes has none there", z3.Or(n - 1 == LEN(a), n - 1 == LEN(b), a[n - 1] != b[n - 1]))
    from ..exec import Cand
    def dist_cands(p, mod, entry):
        out = []
        for nm, d in entry.items():
            if "int" not in d or nm == "$k": continue
            def unf(p, c, nm=nm):
                k = c[nm]["int"] - 1
                for q, t in zip(chars(p.ctx), (p.ctx.a["a"].t, p.ctx.a["b"].t)):
                    p.assume(z3.And(step(q, k), LEN(q) == LEN(t), z3.Implies(z3.And(0 <= k, k < LEN(t)), q[k] == V.str(p.char(t, k)))))
            out.append(Cand(f"{nm}: the same so far", lambda p, e, c, nm=nm: same_so_far(p, c[nm]["int"]), unf))
            for w in (0, 1): out.append(Cand(f"{nm}: counts", lambda p, e, c, nm=nm, w=w: c[nm]["int"] == c["$k"]["int"] + w))
        return out
    add(Contract("expressions._distinct", ["C03"], None, [("a", "str"), ("b", "str")], ret=dist_ret, cands=dist_cands,
                 pre=lambda c: [("two prefixes", c.a["a"].t != c.a["b"].t)]))
    # ------------------------------------------------------------------ C17, C21: a copy of a result
    def copied(c, r):
        p = c.p; r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns a result", repr(r)); return
        p.oblige("a new one", r.t >= A0)
        toks = p.rd("tokens", r.t, Int)
        p.oblige("with the same tokens in a list of its own", z3.And(toks >= A0, p.seq(toks) == seq0(fld(c, "tokens"))))
        for nm in ("start", "end"): p.oblige(f"the {nm} of the original", p.box(p.getattr_(r, nm)) == p.box(p.getattr_(c.self, nm)))
    add(Contract("results.ParseResults.__copy__", ["C17", "C21"], "ParseResults", [], ret=copied))
    # ------------------------------------------------------------------ C16, C21: naming repetitions and compounds
    base = reg.contracts["core.ParserElement.__call__"]
    NAME_ = z3.Function("fld_token_name", Int, Str)
    def clash(c, e):
        x = z3.Function("fld_expr", Int, Int)(c.self.t)
        c.p.oblige("refuses only the name its expression has already", z3.And(z3.Length(c.name) > 0, NAME_(x) == c.name))
    for mod, cls, exc in (("enhancement", "Many", clash), ("expressions", "ParseExpression", None)):
        con = Contract(f"{mod}.{cls}.__call__", ["C16", "C21"], cls, [("name", "str")], ret=base._ret, **({"exc": exc} if exc else {}))
        con.ghost = lambda c, p: {"$self": c.self}
        con.inline = {"core.ParserElement.__call__", "core.ParserElement.set_token_name"}
        add(con)
    # ------------------------------------------------------------------ C16: what is put under a name
    AQ = "results.add"
    HAS, UNDER = z3.Const("HAS_THE_NAME", Bool), z3.Const("UNDER_THE_NAME", Int)
    prev_opq = reg.call_opaque
    def call_opaque(p, f, args, kw):
        if f.what != "grouping.get" or p.con.qual != AQ: return prev_opq(p, f, args, kw)
        if len(args) != 1 or kw: raise Unsupported("get with a default")
        p.oblige("looks under the name", p.native(p.resolve(args[0]), ("str",)) == p.ctx.a["key"].t)
        if not p.branch(HAS): return NONE
        return p.typed(UNDER, ("list", ("dyn",)))
    reg.call_opaque = call_opaque
    def put_under(p, obj, ix, v):
        if p.con.qual != AQ or obj.what != "grouping": return False
        p.oblige("puts under the name", p.native(p.resolve(ix), ("str",)) == p.ctx.a["key"].t)
        v = p.resolve(v)
        if "put" in made(p): p.fail("puts one list under it", "two")
        made(p)["put"] = v
        return True
    reg.opaque_setitem = put_under
    plain = lambda c: z3.Function("IS_A_LIST", V, Bool)(seq0(c.a["value"].t)[0])
    def add_ret(c, r):
        p = c.p; q = seq0(c.a["value"].t)
        now = made(p).get("put")
        if now is None:
            p.oblige("nothing is put only where there is a list already, which grows by the values in order", z3.And(HAS, p.seq(UNDER) == z3.Concat(seq0(UNDER), q)))
        elif isinstance(now, VRef) and now.cls.name == "list":
            p.oblige("a list is put only where there was none, or keeps what there was; with the values in order", p.seq(now.t) == z3.Concat(z3.If(HAS, seq0(UNDER), EMPTY), q))
        else: p.fail("a list is put under the name", repr(now))
    def add_setup(p, c):
        p.mark_old(UNDER); p.assume(z3.And(0 < UNDER, UNDER < A0, UNDER != c.a["value"].t))
    SHAPES.add(AQ)
    con = Contract(AQ, ["C16"], None, [("obj", "dyn"), ("key", "str"), ("value", "list:dyn")], ret=add_ret, setup=add_setup, call=reg.assumed.pop(AQ)._call,
                   exc=lambda c, e: c.p.oblige("refuses only lists of lists", z3.Length(seq0(c.a["value"].t)) > 0), writes={"$seq": lambda c, r: r == UNDER})
    con.ghost = lambda c, p: {"$around": Made(), next(iter(p.frame0.locals)): VOpaque("grouping")}
    add(con)
    # ------------------------------------------------------------------ C18: what a failure says
    MQ = "exceptions.ParseException.message"
    TX, QUOTE, LOC = fn("TEXT", V, Str), fn("QUOTED", V, Str), fn("LOC", Int, Int)
    S = z3.StringVal
    def quote_call(p, args, b): return VStr(QUOTE(p.box(p.resolve(args[0]))))
    reg.assumed["utils.quote"] = Contract("utils.quote", [], None, [], call=quote_call, note="the text in quotes (json)")
    def says(c, r):
        p = c.p; s = c.self.t; t = p.native(r, ("str",))
        txt, x, msg = fld(c, "string", Str), V.ref(fld(c, "expr", Int)), p.getattr_(c.self, "_msg")
        loc = LOC(s); L = z3.Length
        given = p.truth(msg); given = given if isinstance(given, bool) else p.branch(given)
        what = z3.Concat(p.native(p.resolve(msg), ("str",)), S(" ("), TX(x), S(")")) if given else z3.Concat(S("Expecting "), TX(x))
        found = S(", found end of text") if p.branch(loc >= L(txt)) else z3.Concat(S(", found "), QUOTE(V.str(z3.SubString(txt, loc, 10))))
        at_ = z3.Concat(S(" (at char "), TX(V.int(loc)), S("), (line:"), TX(V.int(p.int_(p.getattr_(c.self, "lineno")))), S(", col:"), TX(V.int(p.int_(p.getattr_(c.self, "column")))), S(")"))
        p.oblige("begins with what was expected and what was found instead", z3.PrefixOf(z3.Concat(what, found), t))
        p.oblige("ends with the position, line and column", z3.SuffixOf(at_, t))
    con = Contract(MQ, ["C18"], "ParseException", [], ret=says, setup=reg.contracts["exceptions.ParseException.loc"]._setup,
                   pre=lambda c: [("the failure is in its text", z3.And(0 <= LOC(c.self.t), LOC(c.self.t) <= z3.Length(fld(c, "string", Str))))])
    con.texts = True
    add(con)
