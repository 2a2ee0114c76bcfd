"""contracts of parse results: what is visible (C15), names (C16), setting names (C17)"""
from .base import *
from .structure import PR_TYPE
from .entry import STRINGS

VISIBLE = fn("VISIBLE", Int, SeqV)          # what iterating a result gives
TRUTHFUL = fn("TRUTHFUL", Int, Bool)        # its truth value
NAMED = fn("NAMED", Int, Str, SeqV)         # values found under a name in the open scope of a result
FLAT = fn("FLATTEN", V, SeqV)
NESTED = fn("NESTED", V, SeqV)              # as_list
LOOKUP = fn("LOOKUP", Int, Str, V)          # result[name]
TEXT = fn("TEXT", V, Str)
VALUE = fn("VALUE", Int, V)

def install(reg):
    def add(c): reg.contracts[c.qual] = c
    prog = reg.prog
    ci = lambda x: prog.classes[x]
    n_ = z3.Length
    toks = lambda r: seq0(z3.Function("fld_tokens", Int, Int)(r))
    own = lambda c: toks(c.self.t)
    ttype = z3.Function("fld__type", Int, Int)
    NAME = lambda r: z3.Function("fld_token_name", Int, Str)(ttype(r))
    has_name = lambda r: n_(NAME(r)) > 0
    ref = V.rval
    def isa(c, x, cls): return z3.And(V.is_ref(x), c.p.sub(CLS0(ref(x)), ci(cls)))
    is_pr = lambda c, x: isa(c, x, "ParseResults")
    forward = lambda c, x: c.p.sub(CLS0(ref(x)), ci("ForwardResults"))
    group = lambda c, x: c.p.sub(CLS0(PR_TYPE(ref(x))), ci("Group"))
    def walk(name, seq, cases, fixed=(), constant=False):
        """fold over a sequence: cases(c, x) -> [(condition, what x adds)]"""
        def step(c, st):
            k, acc = st
            x = seq(c)[k]
            out = [(k >= n_(seq(c)), [acc])]
            for cond, more in cases(c, x):
                out.append((cond, Next(k + 1, acc if more is None else z3.Concat(acc, more))))
            return out
        return Rec(name, ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], step, fixed=lambda c: [seq(c)] + [f(c) for f in fixed], constant=constant)
    def result_inv(c):
        """class invariant of ForwardResults: the first token is a result"""
        s = c.self.t
        inner = own(c)[0]
        c.p.assume(z3.Implies(c.p.sub(CLS0(s), ci("ForwardResults")), z3.And(n_(own(c)) >= 1, is_pr(c, inner))))
    reg.field_inv["end"] = (lambda p, o: o.cls.issub(ci("ParseResults")) and p.con.qual != "results.ParseResults.__init__", lambda t: t != -1, "the end of a result is not -1")
    def dyn_list(p, q): return p.new_list(q, elem=("dyn",))
    def seq_of(p, r): return p.to_seq(r)[0]

    # ------------------------------------------------------------------ type
    def type_ret(want):
        def ret(c, r):
            r = c.p.resolve(r)
            if not isinstance(r, VRef): c.p.fail("returns an expression", repr(r)); return
            c.p.oblige("the expression the result belongs to", r.t == want(c))
        return ret
    add(Contract("results.ParseResults.type", ["C15", "C16"], "ParseResults", [], ret=type_ret(lambda c: ttype(c.self.t))))
    add(Contract("results.ForwardResults.type", ["C15", "C16"], "ForwardResults", [], setup=lambda p, c: result_inv(c), ret=type_ret(lambda c: PR_TYPE(ref(own(c)[0])))))

    # ------------------------------------------------------------------ C15: iteration, length, truth
    vis_cases = lambda c, x: [
        (isa(c, x, "Annotation"), None),
        (z3.Or(z3.Not(is_pr(c, x)), group(c, x)), V1(x)),
        (TRUE, VISIBLE(ref(x)))]
    VIS = walk("VIS", own, vis_cases)
    NOVIS = walk("VIS", own, vis_cases, constant=True)
    reg.ifaces["ParseResults.__iter__"] = Iface("ParseResults.__iter__", lambda p, a: dyn_list(p, VISIBLE(p.resolve(a[0]).t)), "ParseResults", "__iter__")
    add(Contract("results.ParseResults.__iter__", ["C15"], "ParseResults", [], recs=[VIS],
                 ret=lambda c, r: c.p.oblige("the plain values and groups of the tokens, in order, ungrouped results opened, annotations left out", seq_of(c.p, r) == VIS.value(c, 0))))
    add(Contract("results.ForwardResults.__iter__", ["C15"], "ForwardResults", [], setup=lambda p, c: result_inv(c),
                 ret=lambda c, r: c.p.oblige("the items of what the forward holds", seq_of(c.p, r) == VISIBLE(ref(own(c)[0])))))
    vis = lambda c: VISIBLE(c.self.t)
    for f in ("__len__", "length"):
        add(Contract("results.ParseResults." + f, ["C15"], "ParseResults", [], ret=lambda c, r: c.p.oblige("the number of visible items", c.p.int_(r) == n_(vis(c)))))
    # truth: a false result shows nothing
    def truth(p, a):
        r = p.resolve(a[0]).t
        p.assume(z3.Implies(z3.Not(PR_TRUE(r)), n_(VISIBLE(r)) == 0))
        return VBool(PR_TRUE(r))
    reg.ifaces["ParseResults.__bool__"] = Iface("ParseResults.__bool__", truth, "ParseResults", "__bool__")
    def bool_ret(c, r):
        c.p.oblige("a false result has no visible item", z3.Implies(z3.Not(c.p.bool_(r)), n_(VIS.value(c, 0)) == 0))
    add(Contract("results.ParseResults.__bool__", ["C15"], "ParseResults", [], recs=[VIS, NOVIS], ret=bool_ret))
    def fbool_ret(c, r):
        c.p.oblige("a false result has no visible item", z3.Implies(z3.Not(c.p.bool_(r)), n_(VISIBLE(ref(own(c)[0]))) == 0))
    add(Contract("results.ForwardResults.__bool__", ["C15"], "ForwardResults", [], setup=lambda p, c: result_inv(c), ret=fbool_ret))

    # strings
    STRS = walk("STRS", lambda c: vis(c), lambda c, x: [(is_pr(c, x), STRINGS(ref(x))), (V.is_str(x), V1(x)), (TRUE, V1(V.str(TEXT(x))))])
    add(Contract("results.ParseResults._asStringList", ["C15", "C14"], "ParseResults", [], recs=[STRS],
                 ret=lambda c, r: c.p.oblige("the text of each visible item, in order, results opened", seq_of(c.p, r) == STRS.value(c, 0))))

    # ------------------------------------------------------------------ C16: names
    FL = walk("FLATTEN_TOKENS", lambda c: toks(ref(c.tok)), lambda c, x: [(TRUE, FLAT(x))])
    def flat_ret(c, r):
        x = c.tok
        want = z3.If(z3.Or(z3.Not(is_pr(c, x)), group(c, x), has_name(ref(x))), V1(x), FL.value(c, 0))
        c.p.oblige("the plain values, groups and named results, ungrouped unnamed results opened", seq_of(c.p, r) == want)
    add(Contract("results._flatten", ["C16"], None, [("token", "dyn")], recs=[FL], setup=lambda p, c: setattr(c, "tok", c.a["token"].t), ret=flat_ret,
                 call=lambda p, args, b: dyn_list(p, FLAT(p.box(args[0])))))
    def fold_cands(REC, F):
        """loops that add F(token) for each token of what they iterate over"""
        def cands(p, mod, entry):
            from ..exec import Cand
            out = []
            for nm, d in entry.items():
                if "seq" not in d: continue
                def at(p, e, c, nm=nm): return e["$it"]["it"], c["$k"]["int"], c[nm]["seq"]
                def form(p, e, c, nm=nm):
                    q, k, acc = at(p, e, c)
                    for g in REC(p.ctx, q, I(0), e[nm]["seq"])[1]: p.assume(g)
                    for g in REC(p.ctx, q, k, acc)[1]: p.assume(g)
                    return REC(p.ctx, q, I(0), e[nm]["seq"])[0] == REC(p.ctx, q, k, acc)[0]
                out.append(Cand(f"fold {nm}", form))
            return out
        return cands
    FLATS = fn("FLATTEN_ALL", SeqV, Int, SeqV, SeqV)      # acc and the flattened tokens from position k
    def flats(c, q, k, acc):
        return FLATS(q, k, acc), [z3.Implies(k >= n_(q), FLATS(q, k, acc) == acc), z3.Implies(z3.And(0 <= k, k < n_(q)), FLATS(q, k, acc) == FLATS(q, k + 1, z3.Concat(acc, FLAT(q[k]))))]
    def named_step(c, st):
        k, acc = st
        x = own(c)[k]
        name = c.item
        inner = toks(ref(x))
        return [(k >= n_(own(c)), [acc]),
                (z3.Not(is_pr(c, x)), Next(k + 1, acc)),
                (z3.And(NAME(ref(x)) == name, group(c, x)), Next(k + 1, z3.Concat(acc, V1(x)))),
                (NAME(ref(x)) == name, Next(k + 1, FLATS(inner, I(0), acc))),
                (z3.Or(has_name(ref(x)), z3.And(group(c, x), z3.Not(forward(c, x)))), Next(k + 1, acc)),
                (TRUE, Next(k + 1, z3.Concat(acc, NAMED(ref(x), name))))]
    NM = Rec("OPEN_NAMED", ["int", "seq"], [SeqV], lambda c: [I(0), EMPTY], named_step, fixed=lambda c: [own(c), c.item])
    add(Contract("results.ParseResults._get_item_by_name", ["C16"], "ParseResults", [("name", "str")], recs=[NM], setup=lambda p, c: setattr(c, "item", c.a["name"].t),
                 cands=fold_cands(flats, FLAT),
                 ret=lambda c, r: c.p.oblige("every value under the name in the open scope, in order", seq_of(c.p, r) == NM.value(c, 0)),
                 call=lambda p, args, b: dyn_list(p, NAMED(p.resolve(args[0]).t, p.native(args[1], ("str",))))))
    def glob(p, name): return p.resolve(p.global_name(prog.modules["results"], name)).t
    def getitem(p, a):
        r, k = p.resolve(a[0]), p.resolve(a[1])
        if isinstance(k, VStr): return VDyn(LOOKUP(r.t, k.t))
        if isinstance(k, (VInt, VBool)):
            i, q = p.int_(k), VISIBLE(r.t)
            i = z3.If(i < 0, i + n_(q), i)
            if p.branch(z3.And(0 <= i, i < n_(q))): return VDyn(q[i])
            return NONE
        if isinstance(k, VOpaque) and k.what == "slice": return dyn_list(p, SLICED(VISIBLE(r.t)))
        raise Unsupported("slice of a result")
    reg.ifaces["ParseResults.__getitem__"] = Iface("ParseResults.__getitem__", getitem, "ParseResults", "__getitem__")
    def own_found(c, r, name):
        """what ParseResults.__getitem__ returns for a name: conditions on the value r"""
        p = c.p
        q = NAMED(c.self.t, name)
        b = p.box(r)
        pr = ref(b)
        made = z3.And(V.is_ref(b), p.sub(p.tag(pr), ci("ParseResults")), p.seq(p.rd("tokens", pr, Int)) == q, p.rd("_type", pr, Int) == glob(p, "NO_PARSER"))
        return z3.If(n_(q) == 0, b == V.ref(glob(p, "NO_RESULTS")), z3.If(n_(q) == 1, b == q[0], made))
    def get_ret(c, r):
        p = c.p
        k = p.resolve(c.a["item"])
        if isinstance(k, VOpaque):
            p.oblige("the slice of the visible items", seq_of(p, r) == SLICED(vis(c)), ["C15"])
        elif isinstance(k, VStr):
            p.oblige("the only value under the name, all of them when there are several, NO_RESULTS when there is none", own_found(c, r, k.t), ["C16"])
        else:
            i = k.t; m = n_(vis(c))
            i = z3.If(i < 0, i + m, i)
            p.oblige("the visible item at that position", z3.Implies(z3.And(0 <= i, i < m), p.box(r) == vis(c)[i]), ["C15"])
            p.oblige("nothing outside", z3.Implies(z3.Not(z3.And(0 <= i, i < m)), p.box(r) == V.none), ["C15"])
    SLICED = fn("SLICED", SeqV, SeqV)
    def key(p):
        """a name, a position or a slice"""
        if p.branch(z3.Const("p_item_is_slice", Bool)): return VOpaque("slice")
        return VStr(z3.Const("p_item_name", Str)) if p.branch(z3.Const("p_item_is_name", Bool)) else VInt(z3.Const("p_item_at", Int))
    def index_cands(p, mod, entry):
        from ..exec import Cand
        return [Cand(f"{nm} not reached", lambda p, e, c, nm=nm: z3.Or(c[nm]["int"] < 0, c[nm]["int"] >= c["$k"]["int"])) for nm, d in entry.items() if "int" in d and nm != "$k"]
    add(Contract("results.ParseResults.__getitem__", ["C15", "C16"], "ParseResults", [("item", key)], ret=get_ret, cands=index_cands,
                 call=lambda p, args, b: own_get(p, args)))
    def own_get(p, args):
        r, k = p.resolve(args[0]), p.resolve(args[1])
        if not isinstance(k, VStr): return getitem(p, args)
        q = NAMED(r.t, k.t)
        if p.branch(n_(q) == 0): return p.global_name(prog.modules["results"], "NO_RESULTS")
        if p.branch(n_(q) == 1): return VDyn(q[0])
        return reg.construct(p, ci("ParseResults"), [p.global_name(prog.modules["results"], "NO_PARSER"), N(-1), N(0), dyn_list(p, q), p.new_list(EMPTY)], {})
    def fget_ret(c, r):
        p = c.p
        k = p.resolve(c.a["item"])
        inner = ref(own(c)[0])
        if isinstance(k, VOpaque):
            p.oblige("the slice of what the held result shows", seq_of(p, r) == SLICED(VISIBLE(inner)), ["C15"])
        elif isinstance(k, VStr):
            found = z3.And(NAME(inner) != k.t, LOOKUP(inner, k.t) != V.ref(glob(p, "NO_RESULTS")))
            p.oblige("what the held result has under the name, otherwise what it holds under its own", z3.If(found, p.box(r) == LOOKUP(inner, k.t), own_found(c, r, k.t)), ["C16"])
        else:
            q = VISIBLE(inner); i = k.t; m = n_(q)
            i = z3.If(i < 0, i + m, i)
            p.oblige("the visible item at that position of what it holds", z3.If(z3.And(0 <= i, i < m), p.box(r) == q[i], p.box(r) == V.none), ["C15"])
    add(Contract("results.ForwardResults.__getitem__", ["C15", "C16"], "ForwardResults", [("item", key)], setup=lambda p, c: result_inv(c), ret=fget_ret))

    # ------------------------------------------------------------------ as_list
    NT = walk("NESTED_TOKENS", lambda c: toks(ref(c.tok)), lambda c, x: [(TRUE, NESTED(x))])
    def nested_ret(c, r):
        p, x = c.p, c.tok
        q = seq_of(p, r)
        inner = p.seq(ref(q[0]))
        p.oblige("annotations show nothing", z3.Implies(isa(c, x, "Annotation"), n_(q) == 0))
        p.oblige("plain values show as they are", z3.Implies(z3.Not(is_pr(c, x)), q == V1(x)))
        shown = z3.And(is_pr(c, x), z3.Not(isa(c, x, "Annotation")))
        grp = z3.And(group(c, x), z3.Not(forward(c, x)))
        p.oblige("a group shows as one list", z3.Implies(z3.And(shown, grp), z3.And(n_(q) == 1, V.is_ref(q[0]), p.sub(p.tag(ref(q[0])), ci("list")), inner == NT.value(c, 0))))
        p.oblige("other results show what their tokens show, in order", z3.Implies(z3.And(shown, z3.Not(grp)), q == NT.value(c, 0)))
    q = "results.ParseResults.as_list.internal"
    def setup_nested(p, c): c.tok = p.box(c.a["obj"])
    nested = Contract(q, ["C15"], None, [("obj", "dyn"), ("depth", "int")], recs=[NT], setup=setup_nested, ret=nested_ret,
                      closure=lambda p, c: {"internal": VFunc(prog.func(q))}, call=lambda p, args, b: dyn_list(p, NESTED(p.box(args[0]))))
    add(nested)
    add(Contract("results.ParseResults.as_list", ["C15"], "ParseResults", [], ret=lambda c, r: c.p.oblige("the nested lists of its tokens", seq_of(c.p, r) == NESTED(V.ref(c.self.t)))))

    # ------------------------------------------------------------------ construction
    def init_ret(c, r):
        p, s = c.p, c.self.t
        p.oblige("an end of -1 is refused", c.a["end"].t != -1)
        for f, srt in (("_type", Int), ("start", Int), ("end", Int), ("tokens", Int)):
            p.oblige("keeps " + f, p.rd(f, s, srt) == c.a[f if f != "_type" else "result_type"].t)
    mine = lambda c, r: r == c.self.t
    add(Contract("results.ParseResults.__init__", ["C15"], "ParseResults",
                 [("result_type", "ref:ParserElement"), ("start", "int"), ("end", "int"), ("tokens", "list:dyn"), ("failures", "list:ref:ParseException")],
                 ret=init_ret, exc=lambda c, e: c.p.oblige("fails only for an end of -1", c.a["end"].t == -1), at_calls=False,
                 writes={f: mine for f in ("_type", "start", "end", "tokens", "timing", "failures")}))

    # ------------------------------------------------------------------ C17: setting and erasing names
    RENEWED = fn("RENEWED", Int, V, Int)      # the result that takes the place of a named one, given its new value
    MADE = fn("ANNOTATION", Str, Int, Int, SeqV, Int)
    TOKEN_LIST = fn("TOKEN_LIST", V, SeqV)
    ERASED = fn("ERASED", Int, Str, V)
    glob_ref = lambda p, name: V.ref(glob(p, name))
    def renew(p, args, b):
        x, v = p.resolve(args[0]), p.box(args[1])
        r = RENEWED(x.t, v)
        p.assume(r < 0); p.mark_old(r)
        return VRef(r, ci("ParseResults"))
    def renew_ret(c, r):
        p = c.p
        r = p.resolve(r)
        if not isinstance(r, VRef): p.fail("returns a result", repr(r)); return
        x, v = c.a["token"].t, p.box(c.a["value"])
        none = v == glob_ref(p, "NO_RESULTS")
        q = p.seq(p.rd("tokens", r.t, Int))
        tp = p.rd("_type", r.t, Int)
        p.oblige("erasing leaves an empty result without a name", z3.Implies(none, z3.And(n_(q) == 0, tp == glob(p, "NO_PARSER"))))
        annot = p.sub(CLS0(x), ci("Annotation"))
        p.oblige("the new result holds the new value", z3.Implies(z3.Not(none), q == TOKEN_LIST(v)))
        nm = z3.Function("fld_token_name", Int, Str)
        p.oblige("under the same name", z3.Implies(z3.Not(none), p.rd("token_name", tp, Str) == NAME(x)))
        p.oblige("an annotation stays one", z3.Implies(z3.And(z3.Not(none), annot), p.sub(p.tag(r.t), ci("Annotation"))))
        p.oblige("of the same expression", z3.Implies(z3.And(z3.Not(none), z3.Not(annot)), z3.And(tp == ttype(x), z3.Not(p.sub(p.tag(r.t), ci("Annotation"))))))
        p.oblige("in the same place", z3.Implies(z3.Not(none), z3.And(p.rd("start", r.t, Int) == F_start(x), p.rd("end", r.t, Int) == F_end(x))))
    def token_list(p, args, b):
        return dyn_list(p, TOKEN_LIST(p.box(args[0])))
    reg.contracts["results._renew"] = Contract("results._renew", ["C17"], None, [("token", "ref:ParseResults"), ("value", "dyn")], ret=renew_ret, call=renew,
        setup=lambda p, c: p.assume(z3.Implies(p.sub(CLS0(c.a["token"].t), ci("Annotation")), has_name(c.a["token"].t))))     # class invariant of Annotation: contract of Annotation.__init__
    def tl_ret(c, r):
        p, x = c.p, p_box(c, "value")
        q = seq_of(c.p, r)
        c.p.oblige("the tokens of a result", z3.Implies(is_pr(c, x), q == toks(ref(x))))
    p_box = lambda c, nme: c.p.box(c.a[nme])
    add(Contract("results._token_list", ["C17"], None, [("value", "dyn")], ret=tl_ret, call=token_list))
    log_init = lambda c, p: {"$erased": p.new_list(EMPTY, elem=("dyn",))}
    def erase_call(p, args, b):
        log = p.frame0.locals.get("$erased")
        if log is None: raise Unsupported("_erase")
        p.list_append(log, VDyn(V.t2(V.ref(p.resolve(args[0]).t), V.str(p.native(args[1], ("str",))))))
        return NONE
    open_ = lambda c, x: z3.And(z3.Not(has_name(ref(x))), z3.Or(z3.Not(group(c, x)), forward(c, x)))
    def erase_step(c, st):
        k, acc, log = st
        x = own(c)[k]
        return [(k >= n_(own(c)), [acc, log]),
                (z3.And(is_pr(c, x), NAME(ref(x)) == c.item), Next(k + 1, z3.Concat(acc, V1(V.ref(RENEWED(ref(x), glob_ref(c.p, "NO_RESULTS"))))), log)),
                (z3.And(is_pr(c, x), open_(c, x)), Next(k + 1, z3.Concat(acc, V1(x)), z3.Concat(log, V1(V.t2(x, V.str(c.item)))))),
                (TRUE, Next(k + 1, z3.Concat(acc, V1(x)), log))]
    only = lambda self_, pools, mod, entry: [[n for n in pools[0] if n == "$k"], [n for n in pools[1] if n == "$done"], [n for n in pools[2] if n == "$erased"]] + pools[3:]
    def rec_only(p, pools, mod, entry):
        return [[n for n in q if n in w] if w else q for q, w in zip(pools, (("$k",), ("$done",), ("$erased",), None))]
    ER = Rec("ERASING", ["int", "seq", "seq"], [SeqV, SeqV], lambda c: [I(0), EMPTY, EMPTY], erase_step, fixed=lambda c: [own(c), c.item], only=rec_only)
    def erase_ret(c, r):
        p = c.p
        p.oblige("results under the name are replaced by empty ones, the others stay", p.seq(fld(c, "tokens")) == ER.value(c, 0))
        p.oblige("the same is done to every open result among the tokens", p.seq(p.frame0.locals["$erased"].t) == ER.value(c, 1))
    own_tokens = {"$seq": lambda c, r: z3.Or(r == fld(c, "tokens"), FALSE)}
    er = Contract("results.ParseResults._erase", ["C17"], "ParseResults", [("k", "str")], recs=[ER], setup=lambda p, c: setattr(c, "item", c.a["k"].t),
                 ret=erase_ret, writes=own_tokens, call=erase_call)
    er.ghost = log_init
    add(er)
    def annotation(p, ci_, args, kw):
        """contract of Annotation.__init__"""
        if p.con.qual == "results.Annotation.__init__": return None
        p.x.used_contracts.add("results.Annotation.__init__")
        name = p.native(args[0], ("str",))
        if not p.branch(n_(name) > 0): p.raise_("MoLogsExcept")
        toks_ = p.resolve(args[3])
        if not (isinstance(toks_, VRef) and toks_.cls.name == "list"): p.raise_("MoLogsExcept")
        e = p.alloc(ci("Empty"))
        put_fresh(p, e, "token_name", name, Str)
        return new_result(p, ci_, [e, args[1], args[2], toks_, p.new_list(EMPTY)], {})
    reg.constructors["Annotation"] = annotation
    def first_value(c):
        v = c.value
        return z3.If(V.is_none(v), glob_ref(c.p, "NO_RESULTS"), v)
    def set_step(c, st):
        k, acc, log, w = st
        x = own(c)[k]
        none = glob_ref(c.p, "NO_RESULTS")
        return [(k >= n_(own(c)), [acc, log, w]),
                (z3.And(is_pr(c, x), NAME(ref(x)) == c.item), Next(k + 1, z3.Concat(acc, V1(V.ref(RENEWED(ref(x), w)))), log, none)),
                (z3.And(is_pr(c, x), open_(c, x)), Next(k + 1, z3.Concat(acc, V1(x)), z3.Concat(log, V1(V.t2(x, V.str(c.item)))), w)),
                (TRUE, Next(k + 1, z3.Concat(acc, V1(x)), log, w))]
    SET = Rec("SETTING", ["int", "seq", "seq", "V"], [SeqV, SeqV, V], lambda c: [I(0), EMPTY, EMPTY, first_value(c)], set_step, fixed=lambda c: [own(c), c.item], only=rec_only)
    def set_setup(p, c):
        c.value = p.box(c.a["v"])
        k = p.resolve(c.a["k"])
        c.item = k.t if isinstance(k, VStr) else z3.StringVal("")
    refused = lambda c: z3.Or(z3.BoolVal(not isinstance(c.p.resolve(c.a["k"]), VStr)), c.self.t == glob(c.p, "NO_RESULTS"))
    def set_ret(c, r):
        p = c.p
        p.oblige("not for positions, nor in the result of a missing name", z3.Not(refused(c)))
        if not isinstance(p.resolve(c.a["k"]), VStr): return
        q = p.seq(fld(c, "tokens"))
        want, w = SET.value(c, 0), SET.value(c, 2)
        new = w != glob_ref(p, "NO_RESULTS")
        p.oblige("the first result under the name takes the value, the others are emptied, all other tokens stay", z3.Implies(z3.Not(new), q == want))
        p.oblige("the name is erased from every open result among the tokens", p.seq(p.frame0.locals["$erased"].t) == SET.value(c, 1))
        if p.entails(new):
            m = n_(want)
            x = q[m]; r_ = ref(x)
            p.oblige("a name that was not there is added at the end", z3.And(n_(q) == m + 1, z3.SubSeq(q, 0, m) == want, V.is_ref(x)))
            p.oblige("as an annotation", p.sub(p.tag(r_), ci("Annotation")))
            p.oblige("with the name", p.rd("token_name", p.rd("_type", r_, Int), Str) == c.item)
            p.oblige("with the value", p.seq(p.rd("tokens", r_, Int)) == TOKEN_LIST(w))
        else: p.oblige("either replaced or added", z3.Not(new))
    st_ = Contract("results.ParseResults.__setitem__", ["C17"], "ParseResults", [("k", key), ("v", "dyn")], recs=[SET], setup=set_setup, ret=set_ret,
                   exc=lambda c, e: c.p.oblige("refuses only positions, results of missing names, an empty name or a value without a place", z3.Or(refused(c), n_(c.item) == 0)),
                   writes=own_tokens, call=lambda p, args, b: set_call(p, args))
    st_.ghost = log_init
    st_.ref_values = True
    add(st_)
    def set_call(p, args):
        log = p.frame0.locals.get("$set")
        if log is None: raise Unsupported("result[name] = value")
        r, k = p.resolve(args[0]), p.resolve(args[1])
        if not isinstance(k, VStr) or p.branch(r.t == glob(p, "NO_RESULTS")): p.raise_("MoLogsExcept")
        if p.branch(n_(k.t) == 0) and p.branch(p.fresh(Bool, "refused")): p.raise_("MoLogsExcept")
        p.list_append(log, VDyn(V.t3(V.ref(r.t), V.str(k.t), p.box(args[2]))))
        return NONE
    reg.ifaces["ParseResults.__setitem__"] = Iface("ParseResults.__setitem__", set_call, "ParseResults", "__setitem__")
    def fset_setup(p, c):
        result_inv(c); set_setup(p, c)
    def fset_ret(c, r):
        p = c.p
        if not isinstance(p.resolve(c.a["k"]), VStr): p.fail("not for positions", ""); return
        log = p.seq(p.frame0.locals["$set"].t)
        inner, k = own(c)[0], c.item
        one = lambda who, v: V1(V.t3(who, V.str(k), v))
        me = V.ref(c.self.t)
        plain = z3.And(NAME(ref(inner)) == z3.StringVal(""), n_(own(c)) == 1)
        there = z3.And(NAME(ref(inner)) != k, LOOKUP(ref(inner), k) != V.ref(glob(p, "NO_RESULTS")))
        p.oblige("what it holds takes the value when it has the name, or when there is nothing else", z3.Implies(plain, log == one(inner, c.value)))
        p.oblige("a name of what it holds is set there and erased beside it", z3.Implies(z3.And(z3.Not(plain), there), log == z3.Concat(one(inner, c.value), one(me, V.ref(glob(p, "NO_RESULTS"))))))
        p.oblige("any other name is set beside it", z3.Implies(z3.And(z3.Not(plain), z3.Not(there)), log == one(me, c.value)))
    fs = Contract("results.ForwardResults.__setitem__", ["C17"], "ForwardResults", [("k", key), ("v", "dyn")], setup=fset_setup, ret=fset_ret,
                  exc=lambda c, e: c.p.oblige("refuses only positions, results of missing names and empty names", z3.Or(refused(c), own(c)[0] == V.ref(glob(c.p, "NO_RESULTS")), n_(c.item) == 0)))
    fs.ghost = lambda c, p: {"$set": p.new_list(EMPTY, elem=("dyn",))}
    add(fs)

    # ------------------------------------------------------------------ C16: get, in
    HAS_NAME = fn("CONTAINS", Int, Str, Bool)
    def found(c, name): return LOOKUP(c.self.t, name)
    def something(p, x):
        """what mo_dots.exists says of a value found under a name"""
        r = ref(x)
        sub = lambda n: z3.And(V.is_ref(x), p.sub(CLS0(r), ci(n)))
        empty = z3.Or(V.is_none(x), z3.And(V.is_str(x), n_(V.sval(x)) == 0), z3.And(is_pr_(p, x), z3.Not(PR_TRUE(r))),
                      z3.And(z3.Or(sub("list"), sub("tuple"), sub("set")), n_(seq0(r)) == 0))
        known = z3.Or(z3.Not(V.is_ref(x)), is_pr_(p, x), sub("list"), sub("tuple"), sub("set"))
        return known, z3.Not(empty)
    def is_pr_(p, x): return z3.And(V.is_ref(x), p.sub(CLS0(ref(x)), ci("ParseResults")))
    reg.ifaces["ParseResults.__contains__"] = Iface("ParseResults.__contains__", lambda p, a: VBool(HAS_NAME(p.resolve(a[0]).t, p.native(a[1], ("str",)))), "ParseResults", "__contains__")
    def contains_ret(c, r):
        known, there = something(c.p, found(c, c.a["item"].t))     # of values of other kinds (objects made by actions): not known
        c.p.oblige("whether there is something under the name", z3.Implies(known, c.p.bool_(r) == there))
    add(Contract("results.ParseResults.__contains__", ["C16"], "ParseResults", [("item", "str")],
                 ret=contains_ret))
    def get_ret2(c, r):
        k = c.a["key"].t
        c.p.oblige("what is found under the name, the default when there is nothing", c.p.box(r) == z3.If(HAS_NAME(c.self.t, k), found(c, k), c.p.box(c.a["default_value"])))
    add(Contract("results.ParseResults.get", ["C16"], "ParseResults", [("key", "str"), ("default_value", "dyn")], ret=get_ret2))
    add(Contract("results.ParseResults.name", ["C16"], "ParseResults", [], ret=lambda c, r: c.p.oblige("the name of its expression", c.p.native(r, ("str",)) == NAME(c.self.t))))
    MAPT, JOIN = z3.Function("MAP_text", SeqV, SeqV), z3.Function("JOIN", Str, SeqV, Str)
    add(Contract("results.ParseResults.as_string", ["C15", "C14"], "ParseResults", [("sep", "str")],
                 ret=lambda c, r: c.p.oblige("the texts of the visible items, joined", c.p.native(r, ("str",)) == JOIN(c.a["sep"].t, STRINGS(c.self.t)))))
