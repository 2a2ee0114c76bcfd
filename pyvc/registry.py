"""Contract objects, the registry of types, interface contracts and trusted models."""
import ast, collections
import z3
from .smt import *
from .values import *
from .exec import T, tsort, tst, sel, is_none, is_ref, is_oth, Cand, Frame
from .frontend import FuncInfo

# ------------------------------------------------------------------ field views used in specifications
F_start = z3.Function("fld_start", Int, Int)
F_end = z3.Function("fld_end", Int, Int)

def F(name, sort): return z3.Function("fld_" + name, Int, sort)

PR_TRUE = fn("PR_truth", Int, Bool)          # truth value of a parse result (sequence view)
ACT_kind = fn("ACT_kind", Int, Int, Int, Str, Int)   # parse action(fn,result,start,string): 0 returns, 1 parse failure, 2 other error
ACT_res = fn("ACT_res", Int, Int, Int, Str, Int)


class Ctx:
    def __init__(self, p):
        self.p, self.self, self.a = p, None, collections.OrderedDict()
        self.closure, self.vararg, self.kwarg, self.kwonly = {}, None, None, {}
    def t(self, name): return self.a[name].t
    def __getattr__(self, n):
        if n in self.__dict__.get("a", {}): return self.a[n].t
        raise AttributeError(n)


class Rec:
    """tail-recursive specification: funcs(fixed, state) unfolded step by step.
    state: list of sort kinds; step(ctx, state) -> (cond_done, [results when done], next_cases)
    where next_cases = [(cond, next_state)] or results"""
    inv = None
    def __init__(self, name, state, result_sorts, init, step, fixed=None, inv=None, only=None, constant=False):
        self.only, self.constant = only, constant     # constant: sequences in the state stay empty
        self.name, self.state = name, state
        self.result_sorts = result_sorts
        self._init, self._step, self._fixed = init, step, fixed or (lambda c: [])
        self.inv = inv
        self._funcs = None
        self.base = name
    SORTS = {"int": Int, "bool": Bool, "str": Str, "seq": SeqV, "ref": Int, "V": V}
    def fixed(self, c): return self._fixed(c)
    @property
    def funcs(self): return self._funcs
    def setup(self, c):
        fs = [x.sort() for x in self.fixed(c)] + [self.SORTS[s] for s in self.state]
        self._funcs = [z3.Function(f"{self.name}_{i}", *fs, r) for i, r in enumerate(self.result_sorts)]
    def init(self, c): return self._init(c)
    def value(self, c, i, state=None):
        return self._funcs[i](*self.fixed(c), *(state if state is not None else self.init(c)))
    def unfold(self, c, st):
        """equations at state st"""
        cases = self._step(c, st)
        out = []
        rest = z3.BoolVal(True)
        for cond, nxt in cases:
            g = z3.And(rest, cond)
            if isinstance(nxt, Next):
                out += [z3.Implies(g, f(*self.fixed(c), *st) == f(*self.fixed(c), *nxt.state)) for f in self._funcs]
            else:
                out += [z3.Implies(g, f(*self.fixed(c), *st) == v) for f, v in zip(self._funcs, nxt) if v is not None]
            rest = z3.And(rest, z3.Not(cond))
        return out

class Next:
    def __init__(self, *state): self.state = list(state)

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Contract:
    at_calls = True
    fn = None             # function under this contract, when it is not named by qual (one contract for each receiver class)
    ghost = None
    generic = True        # try the generic candidate invariants
    dicts = False         # dictionaries are the sequences of their keys
    texts = False         # expressions within f-strings are evaluated
    inline = frozenset()
    terminates = False
    term_props = None
    check_types = False
    str_names = ()
    ref_values = False    # references in local variables may be the state of a specification function
    def __init__(self, qual, props, cls=None, params=(), exact=False, pre=None, ret=None, exc=None, writes=None, recs=(),
                 closure=None, call=None, inline=(), frame_props=None, terminates=False, at_calls=True, cands=None, measures=None, global_writes=(), vararg=None, kwonly=None, note="", kwarg=None, setup=None, term_props=None):
        self.qual, self.props, self.cls, self.params, self.exact = qual, list(props), cls, list(params), exact
        self._pre, self._ret, self._exc, self._writes = pre, ret, exc, writes or {}
        self.recs = list(recs)
        self._closure, self._call = closure, call
        self.inline = set(inline)
        self.frame_props = frame_props or list(props)
        self.terminates = terminates
        self.at_calls = at_calls and call is not None
        self._cands, self._measures = cands, measures
        self.global_writes = set(global_writes)
        self._vararg, self._kwonly, self._kwarg = vararg, kwonly, kwarg
        self.note = note
        self._setup = setup
        if term_props: self.term_props = term_props
    def all_props(self): return self.props
    def every_prop(self): return set(self.props) | set(self.frame_props or ()) | set(self.term_props or ())
    def param_value(self, p, name, t):
        if callable(t): return t(p)
        tt = T(t)
        srt = tsort(tt)
        c = z3.Const("p_" + name, srt)
        if srt == Int and tt[0] != "int":
            p.mark_old(c); p.assume(z3.And(c > 0, c < A0))
        elif srt == V:
            p.assume(z3.Implies(is_ref(c), V.rval(c) < A0))
        return p.typed(c, tt)
    def make_ctx(self, p):
        c = Ctx(p)
        if self.cls:
            ci = p.prog.classes[self.cls]
            s = z3.Const("self", Int)
            p.mark_old(s); p.assume(z3.And(s > 0, s < A0))
            c.self = VRef(s, ci, self.exact)
            if self.exact: p.assume(p.tag(s) == I(p.cid(self.cls)))
            else: p.well_typed(c.self)
        for n, t in self.params: c.a[n] = self.param_value(p, n, t)
        if self._closure: c.closure = self._closure(p, c)
        if self._vararg: c.vararg = self._vararg(p, c)
        if self._kwarg: c.kwarg = self._kwarg(p, c)
        if self._kwonly: c.kwonly = self._kwonly(p, c)
        if self._setup: self._setup(p, c)
        for r in self.recs: r.setup(c)
        for r in self.recs:
            if r.init(c) is not None:
                for f in r.unfold(c, r.init(c)): p.assume(f)
        return c
    def pre(self, c): return self._pre(c) if self._pre else []
    def on_return(self, c, res):
        if self._ret is None: c.p.fail("never-returns", "the function must not return here")
        else: self._ret(c, res)
    def on_raise(self, c, exc):
        if self._exc is None: c.p.oblige("no-exception", FALSE)
        else: self._exc(c, exc)
    def may_write(self, p, field, ref):
        w = self._writes.get(field, self._writes.get("*"))
        if w is None: return False
        if w is True: return True
        return w(p.ctx, ref)
    def may_write_global(self, p, key): return key in self.global_writes
    def cands(self, p, mod, entry): return self._cands(p, mod, entry) if self._cands else []
    def measures(self, p): return self._measures(p) if self._measures else []
    def str_terms(self, p): return [v.t for v in p.ctx.a.values() if isinstance(v, VStr)]
    def apply(self, p, fi, b):
        return self._call(p, list(b.values()), b)


class Iface:
    def __init__(self, key, apply, sig_class, sig_name, except_=(), trusted=None):
        self.key, self._apply, self.sig_class, self.sig_name, self.except_ = key, apply, sig_class, sig_name, set(except_)
    def signature(self, p):
        return p.prog.classes[self.sig_class].attrs[self.sig_name]
    def apply(self, p, fi, b): return self._apply(p, list(b.values()))


class Registry:
    def __init__(self, prog):
        self.prog = prog
        self.types, self.cfg_types, self.globals, self.contracts, self.ifaces = {}, {}, {}, {}, {}
        self.assumed = {}      # functions whose contract is used but not checked (reported)
        self.watch_globals = set()
        self.class_attrs, self.class_attrs_rw = {}, set()
        self.none_string = z3.StringVal("$None")
        self.methods, self.constructors, self.getattrs = {}, {}, {}
        self.list_fields = {}
    # --- hooks
    def getattr(self, p, obj, name):
        for c in obj.cls.mro:
            f = self.getattrs.get(f"{c.name}.{name}")
            if f: return f(p, obj)
        return None
    def method(self, p, recv, name, args, kw):
        if isinstance(recv, VRef):
            for c in recv.cls.mro:
                f = self.methods.get(f"{c.name}.{name}")
                if f: return f(p, recv, args, kw)
        if isinstance(recv, VDict): return self.dict_method(p, recv, name, args, kw)
        return None
    def on_yield(self, p, v): return v
    def dict_method(self, p, recv, name, args, kw): return None
    def construct(self, p, ci, args, kw):
        f = self.constructors.get(ci.name)
        return f(p, ci, args, kw) if f else None
    def construct_tag(self, p, tag, args, kw):
        if tag.bound.issub(self.prog.classes["ParserElement"]):
            r = p.alloc(tag.bound, exact=False, tag=tag.t)
            return r
        raise Unsupported("construct from class value")
    def contract_for(self, qual): return self.contracts.get(qual) or self.assumed.get(qual)
    def parse_relevant(self, field):
        """could a parse depend on this field of an object that existed before the call?"""
        owners = [k.split(".")[0] for k in self.types if k.split(".")[1] == field]
        return not owners or any(o not in ("Debugger", "ParseException", "Backup", "Parser") for o in owners)
    def iface(self, key): return self.ifaces.get(key)
    def call_unknown(self, p, fn, args, kw):
        return call_action(p, fn, args)
    def lock_event(self, p, mgr, taken): pass
    def open_file(self, p, args, kw): raise Unsupported("opening a file")
    def opaque_attr(self, p, obj, name): return None
    def opaque_setitem(self, p, obj, ix, v): return False
    def call_opaque(self, p, fn, args, kw): return VOpaque(fn.what + "()")
    field_inv = {}      # field -> what is true of its value in every object (class invariant, established by the constructor)
    def after_read(self, p, obj, name, t, ft):
        f = self.field_inv.get(name)
        if f is not None and f[0](p, obj): p.assume(f[1](t))
    def note_list_field(self, p, name, v): 
        t = p.elem_type(v)
    def map_(self, p, f, it):
        if isinstance(f, VBI) and f.name.split(".")[-1] in ("text", "str"):
            q = p.fresh(SeqV, "mapped"); p.assume(z3.Length(q) == it.n)
            return p.new_list(q, elem=("str",))
        if isinstance(f, VClass) and f.ci.name == "str":
            q, t = p.to_seq(it)
            if t == ("str",): return p.new_list(q, elem=("str",))
            m = z3.Function("MAP_text", SeqV, SeqV)(q)
            p.assume(z3.Length(m) == z3.Length(q))
            return p.new_list(m, elem=("str",))
        if isinstance(f, VFunc):
            q, t = p.to_seq(it)
            m = z3.Function("MAP_" + f.fi.name, SeqV, SeqV)(q)
            p.assume(z3.Length(m) == z3.Length(q))
            return p.new_list(m, elem=("dyn",))
        raise Unsupported(f"map of {f!r}")
    def sorted_(self, p, args, kw):
        q, t = p.to_seq(args[0])
        key = kw.get("key"); rev = kw.get("reverse")
        if key is None and rev is None:
            a = p.resolve(args[0])
            if isinstance(a, VRef) and a.cls.name == "set":      # each element once
                m = z3.Function("SORTED", SeqV, SeqV)(q); p.assume(z3.And(z3.Length(m) <= z3.Length(q), (z3.Length(m) == 0) == (z3.Length(q) == 0)))
            else:
                m = z3.Function("SORTED_LIST", SeqV, SeqV)(q); p.assume(z3.Length(m) == z3.Length(q))
            return p.new_list(m, elem=t or ("dyn",))
        raise Unsupported("sorted")
    def sort_cmp(self, p, args, kw):
        """stable sort under a comparison function of the code: trusted library function"""
        q, t = p.to_seq(args[0])
        m = z3.Function("SORTCMP", SeqV, SeqV)(q)
        p.x.trusted.add("mo_future.sort_using_cmp")
        sort_facts(p, q, m, None)
        return p.new_list(m, elem=t or ("dyn",))
    def sort_list(self, p, lst, args, kw):
        """list.sort(key=itemgetter(0), reverse=True) over pairs: trusted: stable descending sort"""
        key = kw.get("key"); rev = kw.get("reverse")
        if isinstance(key, VBI) and key.name.startswith("itemgetter:0") and isinstance(rev, VBool) and z3.is_true(rev.t):
            q = p.seq(lst.t)
            m = p.fresh(SeqV, "sorted")
            sort_facts(p, q, m, lambda v: V.ival(V.t2a(v)))
            p.set_seq(lst.t, m)
            return
        raise Unsupported("list.sort with this key")
    def str_search(self, p, name, s, sub, lo, hi):
        n = z3.Length(s)
        if name == "rfind": return VInt(STR_RFIND(p, s, sub, clamp(lo, n), clamp(hi, n)))
        if name == "count": return VInt(STR_COUNT(p, s, sub, clamp(lo, n), clamp(hi, n)))
        if name == "find": return VInt(STR_FIND(p, s, sub, clamp(lo, n), clamp(hi, n)))
        raise Unsupported("str." + name)
    def exists_(self, p, v):
        if isinstance(v, VRef) and v.cls.issub(self.prog.classes["ParseResults"]):
            return VBool(p.entails(TRUE) and PR_TRUE(v.t) if False else p.bool_(p.call_method(v, "__bool__", [], {})))
        return B(True)

def STR_RFIND(p, s, sub, lo, hi):
    """trusted model of str.rfind on a one-character pattern: the greatest index in [lo,hi) holding it, or -1"""
    r = z3.Function("RFIND", Str, Str, Int, Int, Int)(s, sub, lo, hi)
    j = z3.Int("j?")
    p.assume(z3.And(r >= -1, z3.Implies(r >= 0, z3.And(lo <= r, r < hi, z3.SubString(s, r, 1) == sub))))
    p.assume(forall([j], z3.Implies(z3.And(lo <= j, j < hi, j > r), z3.SubString(s, j, 1) != sub), patterns=[z3.SubString(s, j, 1)]))
    return r

def STR_FIND(p, s, sub, lo, hi):
    """trusted model of str.find on a one-character pattern: the least index in [lo,hi) holding it, or -1"""
    r = z3.Function("FIND", Str, Str, Int, Int, Int)(s, sub, lo, hi)
    j = z3.Int("j?")
    p.assume(z3.And(r >= -1, z3.Implies(r >= 0, z3.And(lo <= r, r < hi, z3.SubString(s, r, 1) == sub))))
    p.assume(forall([j], z3.Implies(z3.And(lo <= j, j < hi, z3.Or(r < 0, j < r)), z3.SubString(s, j, 1) != sub), patterns=[z3.SubString(s, j, 1)]))
    return r

def STR_COUNT(p, s, sub, lo, hi):
    r = z3.Function("COUNT", Str, Str, Int, Int, Int)(s, sub, lo, hi)
    p.assume(r >= 0)
    return r

FIRSTMAX = fn("FIRSTMAX", SeqV, V)     # of a list of pairs: the earliest of those with the greatest first component
PAIRS = fn("PAIRS", SeqV, Bool)

def sort_facts(p, q, m, key):
    """m is a stable permutation of q, descending in key: so its first element is FIRSTMAX(q)"""
    p.assume(z3.Length(m) == z3.Length(q))
    if key is not None: p.assume(z3.Implies(z3.Length(q) > 0, m[0] == FIRSTMAX(q)))

def call_action(p, fn, args):
    """a wrapped parse action: (result, start, string) -> result | ParseException | other error"""
    a = [p.resolve(q) if not isinstance(q, tuple) else q for q in args]
    if len(a) == 3 and isinstance(a[0], VRef) and isinstance(a[1], VInt) and isinstance(a[2], VStr):
        r, s, st = a[0].t, a[1].t, a[2].t
        k = ACT_kind(fn.t, r, s, st)
        p.assume(z3.And(0 <= k, k <= 2))
        p.wrote_result_check()
        log = p.frame0.locals.get("$log")
        if log is not None: p.list_append(log, VDyn(V.t2(V.oth(fn.t), V.ref(r))))
        if p.branch(k == 0):
            x = ACT_res(fn.t, r, s, st)
            p.assume(x < 0); p.mark_old(x)
            return result_ref(p, x)
        e = p.alloc(p.prog.classes["BaseException"], exact=False, tag=p.fresh(Int, "etag"))
        if p.branch(k == 1):
            p.assume(p.sub(p.tag(e.t), p.prog.classes["ParseException"]))
            raise PyRaise(VRef(e.t, p.prog.classes["ParseException"]))
        p.assume(z3.Not(p.sub(p.tag(e.t), p.prog.classes["ParseException"])))
        raise PyRaise(e)
    return VOpaque("result of an external callable")

def result_ref(p, x):
    r = VRef(x, p.prog.classes["ParseResults"])
    p.well_typed(r)
    return r

def parse_failure(p, s=None):
    e = p.alloc(p.prog.classes["ParseException"], exact=False, tag=p.fresh(Int, "etag"))
    p.assume(p.sub(p.tag(e.t), p.prog.classes["ParseException"]))
    if s is not None:
        st = p.rd("start", e.t, Int)
    raise PyRaise(e)

def iface_parse(p, args):
    e, s, i, da = args
    e, s, i, da = p.resolve(e), p.resolve(s), p.resolve(i), p.resolve(da)
    if not isinstance(e, VRef) or not isinstance(s, VStr): p.raise_("AttributeError")
    it = p.int_(i); d = p.bool_(da)
    n = z3.Length(s.t)
    p.oblige("calls _parse within the text", z3.And(0 <= it, it <= n), ["C01"] if "C01" in p.con.props else None)
    p.wrote_result_check()
    if p.branch(P_ok(e.t, s.t, it, d)):
        x = P_res(e.t, s.t, it, d)
        p.assume(z3.And(x < 0, it <= P_st(e.t, s.t, it, d), P_st(e.t, s.t, it, d) <= P_en(e.t, s.t, it, d), P_en(e.t, s.t, it, d) <= n,
                        F_start(x) == P_st(e.t, s.t, it, d), F_end(x) == P_en(e.t, s.t, it, d)))
        p.mark_old(x)
        return result_ref(p, x)
    if getattr(p.con, "collected", False): p.x.reg.failed(p, e.t, s.t, it, d)
    parse_failure(p, s.t)

def iface_parse_impl(p, args):
    e, s, i, da = args
    e, s, i, da = p.resolve(e), p.resolve(s), p.resolve(i), p.resolve(da)
    it = p.int_(i); d = p.bool_(da); n = z3.Length(s.t)
    p.oblige("calls parse_impl within the text", z3.And(0 <= it, it <= n), ["C01"] if "C01" in p.con.props else None)
    p.wrote_result_check()
    if p.branch(PI_ok(e.t, s.t, it, d)):
        x = PI_res(e.t, s.t, it, d)
        p.assume(z3.And(x < 0, it <= F_start(x), F_start(x) <= F_end(x), F_end(x) <= n))
        p.mark_old(x)
        return result_ref(p, x)
    parse_failure(p, s.t)

def iface_skip(p, args):
    w, s, i = [p.resolve(a) for a in args]
    if not isinstance(s, VStr): p.raise_("TypeError")
    it = p.int_(i); n = z3.Length(s.t)
    p.oblige("calls skip within the text", z3.And(0 <= it, it <= n), ["C01"] if "C01" in p.con.props else None)
    k = SK(w.t, s.t, it)
    p.assume(z3.And(it <= k, k <= n))
    return VInt(k)

# ------------------------------------------------------------------ constructors
def arg(args, kw, i, name, default=None):
    if len(args) > i: return args[i]
    if name in kw: return kw[name]
    if default is not None: return default
    return None

def new_result(p, ci, args, kw):
    """ParseResults(type, start, end, tokens, failures): contract of __init__"""
    a = [arg(args, kw, i, n) for i, n in enumerate(["result_type", "start", "end", "tokens", "failures"])]
    if any(x is None for x in a): p.raise_("TypeError")
    p.x.used_contracts.add("results.ParseResults.__init__")
    end = p.int_(a[2])
    if p.branch(end == -1): p.raise_("MoLogsExcept")
    r = p.alloc(ci)
    put = lambda field, val, sort: put_fresh(p, r, field, val, sort)
    put("_type", p.native(a[0], ("ref", "ParserElement")) if not isinstance(p.resolve(a[0]), VOpaque) else I(0), Int)
    put("start", p.int_(a[1]), Int)
    put("end", end, Int)
    toks = p.resolve(a[3])
    if isinstance(toks, VTup):      # a tuple
        s, t = p.to_seq(toks); toks = p.new_list(s, elem=("dyn",))
    if isinstance(toks, VIter): toks = p.materialize(toks)
    if not isinstance(toks, VRef): p.raise_("TypeError")
    put("tokens", toks.t, Int)
    f = p.resolve(a[4])
    if isinstance(f, VTup): f = p.new_list(p.to_seq(f)[0], elem=("dyn",))
    if not isinstance(f, VRef): p.raise_("TypeError")
    put("failures", f.t, Int)
    return r

def put_fresh(p, r, field, val, sort):
    """initialise a field of an object just allocated"""
    h = p.harr(field, sort)
    p.heap[field] = h.store(r.t, val)
    for (info, lf, b, o) in p.active_loops:
        if field not in info.cut:
            info.cut.add(field)
            raise Restart()

def new_exception(p, ci, args, kw):
    """ParseException(expr, start, string, msg, cause): contract of __init__ (exceptions.ParseException.__init__)"""
    p.x.used_contracts.add("exceptions.ParseException.__init__")
    r = p.alloc(ci)
    vals = [arg(args, kw, i, n) for i, n in enumerate(["expr", "start", "string", "msg", "cause"])]
    if any(v is None for v in vals[:3]): p.raise_("TypeError")
    if not isinstance(p.resolve(vals[2]), VStr): p.raise_("MoLogsExcept")
    ex = p.resolve(vals[0])
    if isinstance(ex, VRef): put_fresh(p, r, "expr", ex.t, Int)
    st = p.resolve(vals[1])
    if isinstance(st, VInt): put_fresh(p, r, "start", st.t, Int)
    put_fresh(p, r, "string", p.resolve(vals[2]).t, Str)
    if vals[4] is not None: put_fresh(p, r, "unsorted_cause", p.box(vals[4]), V)
    else: put_fresh(p, r, "unsorted_cause", V.none, V)
    put_fresh(p, r, "_causes", V.none, V)
    return r

# ------------------------------------------------------------------ parse_impl contracts
def tok_seq(p, r):
    t = p.rd("tokens", r.t, Int)
    return p.seq(t)

class ParseImpl(Contract):
    """contract of a parse_impl method.  ok/start/end/tokens: specification terms over the call context"""
    def __init__(self, qual, cls, props, ok, end, start=None, tokens=None, type_=True, extra=None, **kwargs):
        params = [("s", "str"), ("i", "int"), ("da", "bool")]
        super().__init__(qual, ["C01"] + list(props), cls, params, frame_props=["C21"], **kwargs)
        self.main = list(props)
        self.props = ["C01"] + [q for q in props if q != "C01"] + ["C21"]
        self.ok, self.end, self.start, self.tokens, self.type_, self.extra = ok, end, start, tokens, type_, extra
        self.frame_props = ["C21"]
        self.term_props = [q for q in props]
    def pre(self, c):
        out = [("in text", z3.And(0 <= c.i, c.i <= z3.Length(c.s)))]
        return out + (self._pre(c) if self._pre else [])
    def on_return(self, c, res):
        p = c.p
        res = p.resolve(res)
        m = self.main
        if not (isinstance(res, VRef) and res.cls.issub(p.prog.classes["ParseResults"])):
            p.fail("returns a parse result", f"returns {res!r}", ["C01"] + m); return
        p.oblige("succeeds only when specified", self.ok(c), m)
        st, en = p.rd("start", res.t, Int), p.rd("end", res.t, Int)
        if self.end is not None: p.oblige("ends where specified", en == self.end(c), m)
        if self.start is not None: p.oblige("starts where specified", st == self.start(c), m)
        p.oblige("span inside the text", z3.And(c.i <= st, st <= en, en <= z3.Length(c.s)), ["C01"])
        if self.tokens is not None:
            p.oblige("tokens as specified", tok_seq(p, res) == self.tokens(c), m)
        if self.type_:
            p.oblige("result belongs to the expression", p.rd("_type", res.t, Int) == c.self.t, m)
        if self.extra: self.extra(c, res)
    def on_raise(self, c, exc):
        p = c.p
        p.oblige("raises only the parse failure", p.isinst(exc, p.prog.classes["ParseException"]), ["C01"] + self.main)
        p.oblige("fails only when specified", z3.Not(self.ok(c)), self.main)
    def cands(self, p, mod, entry):
        out = []
        i = p.ctx.i
        seqs = [n for n, d in entry.items() if "seq" in d and (n in mod or True)]
        ints = [n for n, d in entry.items() if "int" in d and n in mod]
        def add(d, f): out.append(Cand(d, f))
        first = lambda c, n: F_start(V.rval(c[n]["seq"][0]))
        last = lambda c, n: F_end(V.rval(c[n]["seq"][z3.Length(c[n]["seq"]) - 1]))
        n_ = lambda c, n: z3.Length(c[n]["seq"])
        for n in seqs if self.generic else ():
            add(f"first({n})>=i", lambda p, e, c, n=n: z3.Implies(n_(c, n) > 0, first(c, n) >= i))
            add(f"last({n})<=len", lambda p, e, c, n=n: z3.Implies(n_(c, n) > 0, last(c, n) <= z3.Length(p.ctx.s)))
            for w in ints:
                if w == "$k": continue
                add(f"first({n})<={w}", lambda p, e, c, n=n, w=w: z3.Implies(n_(c, n) > 0, first(c, n) <= c[w]["int"]))
                add(f"last({n})=={w}", lambda p, e, c, n=n, w=w: z3.Implies(n_(c, n) > 0, last(c, n) == c[w]["int"]))
                add(f"{w} entry if {n} empty", lambda p, e, c, n=n, w=w: z3.Implies(n_(c, n) == 0, c[w]["int"] == e[w]["int"]))
        if self._cands: out += self._cands(p, mod, entry)
        return out

def cfg(c, name, kind):
    """configuration value of self before the call"""
    v = z3.Function("fld_cfg_" + name, Int, V)(z3.Function("fld_parser_config", Int, Int)(c.self.t))
    return {"int": V.ival, "str": V.sval, "bool": V.bval, "ref": V.rval, "V": lambda x: x}[kind](v)

def fld(c, name, sort=Int):
    """field of self before the call"""
    return z3.Function("fld_" + name, Int, sort)(c.self.t)

def seq0(ref): return z3.Function("fld_$seq", Int, SeqV)(ref)
def V1(v): return unit(v)
