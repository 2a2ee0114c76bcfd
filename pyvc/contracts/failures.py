"""contracts of reported failures (C18)"""
from .base import *
from ..exec import Cand
from .structure import LOC
from .entry import BEST

FIND = z3.Function("FIND", Str, Str, Int, Int, Int)
RFIND = z3.Function("RFIND", Str, Str, Int, Int, Int)
COUNT = z3.Function("COUNT", Str, Str, Int, Int, Int)
SORTCMP = z3.Function("SORTCMP", SeqV, SeqV)
SIGN = fn("CAUSE_ORDER", V, V, Int)           # sign of compare_causes
UPTO = fn("NONE_FURTHER_THAN", SeqV, Int, Bool)   # every failure of the list is at this position or before
NL = z3.StringVal("\n")

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    n_ = z3.Length
    ci = lambda x: prog.classes[x]
    # ------------------------------------------------------------------ positions in a text
    at = lambda s, j: z3.SubString(s, j, 1)
    def line_pre(c): return [("a position of the text", z3.And(0 <= c.loc, c.loc <= n_(c.string)))]
    def begins(c, b):
        """b is where the line of this position begins"""
        p = c.p
        j = p.fresh(Int, "j")
        return [("begins at or before the position", z3.And(0 <= b, b <= c.loc)),
                ("begins the text or follows a line break", z3.Or(b == 0, at(c.string, b - 1) == NL)),
                ("no line break between the beginning of the line and the position", z3.Implies(z3.And(b <= j, j < c.loc), at(c.string, j) != NL))]
    posp = [("loc", "int"), ("string", "str")]
    start_of = lambda s, i: RFIND(s, NL, I(0), i) + 1
    def end_of(s, i): return z3.If(FIND(s, NL, i, n_(s)) < 0, n_(s), FIND(s, NL, i, n_(s)))
    def where(p, s, i):
        """what a line is: from behind the last line break before the position to the first at or behind it"""
        STR_RFIND(p, s, NL, I(0), i); STR_FIND(p, s, NL, i, n_(s))
    def col_ret(c, r):
        p = c.p; r = p.int_(r)
        for what, t in begins(c, c.loc - r + 1): p.oblige("column: the line it counts in " + what if not what.startswith("no") else "column: " + what, t)
    add(Contract("utils.col", ["C18"], None, posp, pre=line_pre, ret=col_ret, setup=lambda p, c: where(p, c.string, c.loc),
                 call=lambda p, args, b: (where(p, p.resolve(args[1]).t, p.int_(args[0])), VInt(p.int_(args[0]) - RFIND(p.resolve(args[1]).t, NL, I(0), p.int_(args[0]))))[1]))
    add(Contract("utils.lineno", ["C18"], None, posp, pre=line_pre,
                 ret=lambda c, r: c.p.oblige("one more than the line breaks before the position", c.p.int_(r) == COUNT(c.string, NL, I(0), c.loc) + 1),
                 call=lambda p, args, b: VInt(COUNT(p.resolve(args[1]).t, NL, I(0), p.int_(args[0])) + 1)))
    def text_of(s, i): return z3.SubString(s, start_of(s, i), end_of(s, i) - start_of(s, i))
    add(Contract("utils.line", ["C18"], None, posp, pre=line_pre, setup=lambda p, c: where(p, c.string, c.loc),
                 ret=lambda c, r: c.p.oblige("the text between the line breaks around the position", c.p.native(r, ("str",)) == text_of(c.string, c.loc)),
                 call=lambda p, args, b: VStr(text_of(p.resolve(args[1]).t, p.int_(args[0])))))

    # ------------------------------------------------------------------ the order of causes
    pe = lambda p, v: z3.And(V.is_ref(v), p.sub(p.tag(V.rval(v)), ci("ParseException")))
    nonempty = lambda v: z3.And(V.is_str(v), n_(V.sval(v)) > 0)
    named = lambda p, e: nonempty(z3.Function("fld_parser_name", Int, V)(z3.Function("fld_expr", Int, Int)(e)))
    msg = lambda e: nonempty(z3.Function("fld__msg", Int, V)(e))
    def order(p, a, b):
        """-1, 0 or 1: a before b, alike, a after b.  Failures that are not of parsing first, then the furthest, then the named, then those with a message"""
        ea, eb = V.rval(a), V.rval(b)
        key = [(LOC(ea), LOC(eb))]
        t = I(0)
        def first(x, y, rest): return z3.If(z3.And(x, z3.Not(y)), I(-1), z3.If(z3.And(y, z3.Not(x)), I(1), rest))
        inner = z3.If(LOC(ea) > LOC(eb), I(-1), z3.If(LOC(ea) < LOC(eb), I(1),
                  first(named(p, ea), named(p, eb), z3.If(z3.Or(named(p, ea), named(p, eb)), I(0), first(msg(ea), msg(eb), I(0))))))
        return z3.If(pe(p, a), z3.If(pe(p, b), inner, I(1)), z3.If(pe(p, b), I(-1), I(0)))
    exc_param = lambda nm: (lambda p: dyn(p, "p_" + nm))
    def dyn(p, nm):
        v = z3.Const(nm, V)
        p.assume(z3.And(V.is_ref(v), V.rval(v) > 0, V.rval(v) < A0))
        p.assume(z3.Or(pe(p, v), p.sub(p.tag(V.rval(v)), ci("Exception"))) if "Exception" in prog.classes else TRUE)
        return p.typed(v, ("dyn",))
    def cmp_ret(c, r):
        p = c.p; r = p.int_(r)
        a, b = p.box(c.a["a"]), p.box(c.a["b"])
        p.oblige("orders by position, name and message alone", z3.If(r < 0, I(-1), z3.If(r > 0, I(1), I(0))) == order(p, a, b))
    add(Contract("exceptions.compare_causes", ["C18"], None, [("a", exc_param("a")), ("b", exc_param("b"))], ret=cmp_ret,
                 call=lambda p, args, b: VInt(order(p, p.box(args[0]), p.box(args[1])))))
    # ------------------------------------------------------------------ the causes of a failure
    UC = lambda e: z3.Function("fld_unsorted_cause", Int, V)(e)
    def is_list(p, v): return z3.And(V.is_ref(v), p.sub(p.tag(V.rval(v)), ci("list")))
    def given(p, e): return z3.If(V.is_none(UC(e)), EMPTY, z3.If(is_list(p, UC(e)), seq0(V.rval(UC(e))), V1(UC(e))))
    causes_of = lambda p, e: SORTCMP(given(p, e))
    def further(p, a, b):
        """what the order says of positions"""
        return z3.Implies(z3.And(pe(p, a), pe(p, b)), LOC(V.rval(a)) >= LOC(V.rval(b)))
    def sorted_facts(p, q, m, full=False):
        """sorting keeps the elements and puts one first that is not after any other (compare_causes orders by a key, so it is transitive)"""
        IDX = z3.Function("FIRST_OF_SORTED", SeqV, Int)
        p.assume(n_(m) == n_(q))
        k = IDX(q)
        p.assume(z3.Implies(n_(q) > 0, z3.And(0 <= k, k < n_(q), m[0] == q[k])))
        p.seq_facts.append((m, lambda j: z3.And(order(p, m[0], m[j]) <= 0 if full else further(p, m[0], m[j]), fine(p, m[j]))))
        p.seq_facts.append((q, lambda j: z3.And(order(p, m[0], q[j]) <= 0 if full else further(p, m[0], q[j]), fine(p, q[j]))))
        p.elem_fact(q, k); p.elem_fact(q, I(0)); p.elem_fact(m, I(0))
    def fine(p, v): return z3.And(V.is_ref(v), V.rval(v) > 0, V.rval(v) < A0)
    def sort_cmp(p, args, kw):
        f = kw.get("cmp") or args[1]
        if not (isinstance(f, VFunc) and f.fi.qual == "exceptions.compare_causes"): raise Unsupported("sort under another order")
        p.x.used_contracts.add("exceptions.compare_causes")
        q, t = p.to_seq(args[0])
        p.x.trusted.add("mo_future.sort_using_cmp")
        m = SORTCMP(q)
        sorted_facts(p, q, m, True)
        return p.new_list(m, elem=t or ("dyn",))
    reg.sort_cmp = sort_cmp
    def sort_ret(c, r):
        p = c.p
        q = seq0(c.causes); m = p.to_seq(r)[0]
        p.oblige("all the failures given, in the order of compare_causes", m == SORTCMP(q))
        j = p.fresh(Int, "j")
        p.assume(z3.And(0 <= j, j < n_(m))); p.elem_fact(m, j)
        p.oblige("the first is not after any other", order(p, m[0], m[j]) <= 0)
    def sort_call(p, args, b):
        q, t = p.to_seq(args[0])
        m = SORTCMP(q)
        sorted_facts(p, q, m)
        return p.new_list(m, elem=t or ("dyn",))
    add(Contract("exceptions.sort_causes", ["C18"], None, [("causes", "list:dyn")], setup=lambda p, c: p.seq_facts.append((seq0(c.causes), lambda k: fine(p, seq0(c.causes)[k]))),
                 ret=sort_ret, call=sort_call))
    # class invariant: the causes cached are those given, sorted
    def cached(p, e):
        v = p.rd("_causes", e, V)
        return z3.Implies(z3.Not(V.is_none(v)), p.seq(V.rval(v)) == causes_of(p, e))
    def caused(p, c):
        """what causes a failure: nothing, a failure, or a list of them; all of parsing or none"""
        e = c.self.t
        p.assume(z3.Implies(z3.And(z3.Not(V.is_none(UC(e))), z3.Not(is_list(p, UC(e)))), z3.And(fine(p, UC(e)), z3.Not(z3.Or([p.sub(p.tag(V.rval(UC(e))), ci(x)) for x in ("tuple", "set")])))))
        r = V.rval(UC(e))
        p.assume(z3.Implies(V.is_ref(UC(e)), z3.And(z3.Not(z3.Function("IS_NULL", Int, Bool)(r)), z3.Function("IS_MANY", Int, Bool)(r) == is_list(p, UC(e)), z3.Function("ITEMS", Int, SeqV)(r) == seq0(r))))
        q = given(p, e)
        v = p.rd("_causes", e, V)
        p.assume(z3.And(z3.Or(V.is_none(v), z3.And(is_list(p, v), V.rval(v) < A0, V.rval(v) > 0)), cached(p, e)))
        m = causes_of(p, e)
        sorted_facts(p, q, m)
        # class invariant: all causes are failures of parsing of the same text, or none is; sorting keeps that
        same = lambda q: p.seq_facts.append((q, lambda k: z3.And(fine(p, q[k]), pe(p, q[k]) == pe(p, q[0]), z3.Implies(pe(p, q[k]), txt_of(V.rval(q[k])) == txt_of(e)))))
        same(q); same(m)
        p.elem_fact(m, I(0))
    txt_of = lambda e: z3.Function("fld_string", Int, Str)(e)
    SELF = lambda c, r: r == c.self.t
    def causes_ret(c, r):
        p = c.p
        p.oblige("the causes given, sorted", p.to_seq(r)[0] == causes_of(p, c.self.t))
        p.oblige("the cached causes are those given, sorted", cached(p, c.self.t))
    def causes_call(p, args):
        e = p.resolve(args[0])
        q = causes_of(p, e.t)
        sorted_facts(p, given(p, e.t), q)
        return p.new_list(q, elem=("dyn",))
    add(Contract("exceptions.ParseException.causes", ["C18"], "ParseException", [], setup=caused, ret=causes_ret, writes={"_causes": SELF}))
    reg.ifaces["ParseException.causes"] = Iface("ParseException.causes", lambda p, a: causes_call(p, a), "ParseException", "causes")
    def loc_def(p, e):
        """where a failure is: where the first of its causes is, if that is one of parsing"""
        q = causes_of(p, e)
        return z3.If(z3.And(n_(q) > 0, pe(p, q[0])), LOC(V.rval(q[0])), z3.Function("fld_start", Int, Int)(e))
    def loc_ret(c, r):
        p, r = c.p, c.p.int_(r)
        e = c.self.t
        p.oblige("where the first cause is, or where it was itself raised", r == loc_def(p, e))
        q = given(p, e)
        j = p.fresh(Int, "j")
        p.assume(z3.And(0 <= j, j < n_(q))); p.elem_fact(q, j)
        p.oblige("no cause is further", z3.Implies(pe(p, q[j]), LOC(V.rval(q[j])) <= r))
        p.oblige("it is the position of a cause", z3.Implies(z3.And(n_(q) > 0, pe(p, q[0])), z3.Exists([k_], z3.And(0 <= k_, k_ < n_(q), r == LOC(V.rval(q[k_]))))))
    k_ = z3.Int("k?")
    add(Contract("exceptions.ParseException.loc", ["C18"], "ParseException", [], setup=caused, ret=loc_ret))

    # ------------------------------------------------------------------ what is reported
    def position(name, ret): add(Contract("exceptions.ParseException." + name, ["C18"], "ParseException", [], pre=lambda c: [("the failure is in its text", z3.And(0 <= LOC(c.self.t), LOC(c.self.t) <= n_(fld(c, "string", Str))))], ret=ret))
    txt = lambda c: fld(c, "string", Str)
    lo = lambda c: LOC(c.self.t)
    position("line", lambda c, r: c.p.oblige("the line of its position", c.p.native(r, ("str",)) == text_of(txt(c), lo(c))))
    position("lineno", lambda c, r: c.p.oblige("the number of the line of its position", c.p.int_(r) == COUNT(txt(c), NL, I(0), lo(c)) + 1))
    for nm in ("col", "column"): position(nm, lambda c, r: c.p.oblige("the column of its position", c.p.int_(r) == lo(c) - start_of(txt(c), lo(c)) + 1))
    def near(p, v, x): return z3.And(V.is_ref(v), V.rval(v) > 0, V.rval(v) < A0, p.sub(p.tag(V.rval(v)), ci("ParseException")), LOC(V.rval(v)) <= x, txt_of(V.rval(v)) == txt_of(p.ctx.self.t))
    def upto(p, q, x):
        """UPTO(q, x), with its definition unfolded at this list: all elements are near"""
        if q.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            *init, last = q.children()
            if last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                rest = init[0] if len(init) == 1 else z3.Concat(*init)
                p.assume(UPTO(q, x) == z3.And(UPTO(rest, x), near(p, last.arg(0), x)))
        if q.eq(EMPTY): p.assume(UPTO(q, x))
        return UPTO(q, x)
    def upto_at(p, q, x, k): p.assume(z3.Implies(z3.And(UPTO(q, x), 0 <= k, k < n_(q)), near(p, q[k], x)))
    def best_facts(p, e):
        b = BEST(e)
        return z3.And(p.sub(p.tag(b), ci("ParseException")), b > 0, b < A0, LOC(b) == LOC(e), txt_of(b) == txt_of(e))
    def best_iface(p, a):
        e = p.resolve(a[0]).t
        b = BEST(e)
        p.mark_old(b); p.assume(best_facts(p, e))
        return VRef(b, ci("ParseException"))
    old_best = reg.ifaces["ParseException.best_cause"]._apply
    reg.ifaces["ParseException.best_cause"]._apply = lambda p, a: best_iface(p, a) if p.con.qual.startswith("exceptions.") else old_best(p, a)
    def best_setup(p, c):
        caused(p, c)
        x = LOC(c.self.t)
        p.assume(LOC(c.self.t) == loc_def(p, c.self.t))     # contract of loc
        q = causes_of(p, c.self.t)
        p.assume(z3.Implies(z3.And(n_(q) > 0, pe(p, q[0])), best_facts(p, V.rval(q[0]))))
    def best_cands(p, mod, entry):
        out = []
        q = lambda p: causes_of(p, p.ctx.self.t)
        x = lambda p: LOC(p.ctx.self.t)
        for nm, d in entry.items():
            if "seq" not in d: continue
            out.append(Cand(f"{nm}: none further", lambda p, e, c, nm=nm: upto(p, c[nm]["seq"], x(p))))
            out.append(Cand(f"{nm}: begins with the first", lambda p, e, c, nm=nm: z3.Implies(z3.And(c["$k"]["int"] > 0, pe(p, q(p)[0])), z3.And(n_(c[nm]["seq"]) > 0, c[nm]["seq"][0] == V.ref(BEST(V.rval(q(p)[0]))), LOC(BEST(V.rval(q(p)[0]))) == x(p)))))
            out.append(Cand(f"{nm}: stays empty", lambda p, e, c, nm=nm: z3.Implies(z3.Not(pe(p, q(p)[0])), n_(c[nm]["seq"]) == 0)))
        return out
    def best_ret(c, r):
        p = c.p; r = p.resolve(r)
        if not (isinstance(r, VRef) and r.cls.issub(ci("ParseException"))): p.fail("a failure of parsing", repr(r)); return
        loc = LOC(r.t)
        if not p.entails(z3.Or(r.t == c.self.t, z3.And(r.t > 0, r.t < A0))):
            e = r.t      # made here: its position is that of the contract of loc
            cv = p.rd("unsorted_cause", e, V)
            q = p.seq(V.rval(cv))
            sorted_facts(p, q, SORTCMP(q))
            upto_at(p, q, LOC(c.self.t), z3.Function("FIRST_OF_SORTED", SeqV, Int)(q)); upto_at(p, q, LOC(c.self.t), I(0))
            p.oblige("it is caused by failures", z3.And(is_list(p, cv), n_(q) > 0))
            p.oblige("it is about the same text", p.rd("string", e, Str) == txt_of(c.self.t))
            loc = z3.If(pe(p, SORTCMP(q)[0]), LOC(V.rval(SORTCMP(q)[0])), p.rd("start", e, Int))
        p.oblige("what is reported is at the furthest position any cause reached", loc == LOC(c.self.t))
    add(Contract("exceptions.ParseException.best_cause", ["C18"], "ParseException", [], setup=best_setup, ret=best_ret, cands=best_cands))
    # a result keeps a failure that no other it was given lies further than
    ini = reg.contracts["results.ParseResults.__init__"]
    given_seq = lambda c: seq0(c.a["failures"].t)
    def ini_setup(p, c): p.seq_facts.append((given_seq(c), lambda k: z3.And(fine(p, given_seq(c)[k]), pe(p, given_seq(c)[k]))))
    def ini_ret(c, r, old=ini._ret):
        old(c, r)
        p = c.p
        q, kept = given_seq(c), p.seq(p.rd("failures", c.self.t, Int))
        j = p.fresh(Int, "j")
        p.assume(z3.And(0 <= j, j < n_(q))); p.elem_fact(q, j)
        small = kept == q
        first = z3.And(n_(kept) > 0, LOC(V.rval(kept[0])) >= LOC(V.rval(q[j])))
        p.oblige("keeps all failures given, or begins with one that no other is further than", z3.Or(small, first), ["C18"])
    def ini_cands(p, mod, entry):
        q = lambda p: SORTCMP(given_seq(p.ctx))
        return [Cand(f"{nm}: begins with the first", lambda p, e, c, nm=nm: z3.If(c["$k"]["int"] > 0, z3.And(n_(c[nm]["seq"]) > 0, c[nm]["seq"][0] == q(p)[0]), n_(c[nm]["seq"]) == 0))
                for nm, d in entry.items() if "seq" in d]
    ini._setup, ini._ret, ini._cands, ini.props = ini_setup, ini_ret, ini_cands, ["C15", "C18"]
    def first_of(p, ci_, args, kw): return p.alloc(ci_)      # only names what was expected
    reg.constructors["MatchFirst"] = lambda p, ci_, args, kw: first_of(p, ci_, args, kw) if p.con.qual.startswith("exceptions.") else None
    reg.methods["MatchFirst.streamline"] = lambda p, recv, args, kw: recv if p.con.qual.startswith("exceptions.") else None
    STRIP = z3.Function("STR_strip", Str, Str)
    def mark_ret(c, r):
        l, k = text_of(txt(c), lo(c)), lo(c) - start_of(txt(c), lo(c))
        m = c.marker_string
        c.p.oblige("the line of its position with the mark before the column of its position", c.p.native(r, ("str",)) == STRIP(z3.If(n_(m) > 0, z3.Concat(z3.SubString(l, 0, k), m, z3.SubString(l, k, n_(l) - k)), l)))
    add(Contract("exceptions.ParseException.mark_inputline", ["C18"], "ParseException", [("marker_string", "str")],
                 pre=lambda c: [("the failure is in its text", z3.And(0 <= lo(c), lo(c) <= n_(txt(c))))],
                 setup=lambda p, c: where(p, txt(c), lo(c)), ret=mark_ret))
    def line_of(p, a):
        e = p.resolve(a[0]).t; s = p.rd("string", e, Str)
        where(p, s, LOC(e))
        return VStr(text_of(s, LOC(e)))
    reg.ifaces["ParseException.line"] = Iface("ParseException.line", line_of, "ParseException", "line")
    for nm in ("col", "column"): reg.ifaces["ParseException." + nm] = Iface("ParseException." + nm, lambda p, a: VInt(LOC(p.resolve(a[0]).t) - start_of(p.rd("string", p.resolve(a[0]).t, Str), LOC(p.resolve(a[0]).t)) + 1), "ParseException", nm)
    reg.ifaces["ParseException.lineno"] = Iface("ParseException.lineno", lambda p, a: VInt(COUNT(p.rd("string", p.resolve(a[0]).t, Str), NL, I(0), LOC(p.resolve(a[0]).t)) + 1), "ParseException", "lineno")
    def init_ret(c, r):
        p, e = c.p, c.self.t
        p.oblige("holds what failed, where, and in what text", z3.And(p.rd("expr", e, Int) == c.a["expr"].t, p.rd("start", e, Int) == c.a["start"].t, p.rd("string", e, Str) == c.a["string"].t))
        p.oblige("holds what caused it and its message, and no causes worked out yet", z3.And(p.rd("unsorted_cause", e, V) == p.box(c.a["cause"]), p.rd("_msg", e, V) == V.str(c.a["msg"].t), V.is_none(p.rd("_causes", e, V))))
    add(Contract("exceptions.ParseException.__init__", ["C18", "C11"], "ParseException", [("expr", "ref:ParserElement"), ("start", "int"), ("string", "str"), ("msg", "str"), ("cause", "dyn")],
                 ret=init_ret, writes={f: SELF for f in ("expr", "start", "string", "unsorted_cause", "_msg", "_causes")}))
