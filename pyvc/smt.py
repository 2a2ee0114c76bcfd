"""Sorts, boxed values, heap layers."""
import z3

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("bool", ("bval", z3.BoolSort()))
_V.declare("int", ("ival", z3.IntSort()))
_V.declare("str", ("sval", z3.StringSort()))
_V.declare("ref", ("rval", z3.IntSort()))
_V.declare("oth", ("oval", z3.IntSort()))
_V.declare("t2", ("t2a", _V), ("t2b", _V))
_V.declare("t3", ("t3a", _V), ("t3b", _V), ("t3c", _V))
V = _V.create()
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SeqV = z3.SeqSort(V)
A0 = 1000000           # refs >= A0: allocated by the function under verification
EMPTY = z3.Empty(SeqV)

def I(n): return z3.IntVal(n)
def unit(v): return z3.Unit(v)
def fn(name, *sorts): return z3.Function(name, *sorts)

# --- logical symbols of the parsing interface -------------------------------
P_ok = fn("P_ok", Int, Str, Int, Bool, Bool)       # expr matches string at i (actions on/off)
P_res = fn("P_res", Int, Str, Int, Bool, Int)      # the result object (identified up to equality)
P_st = fn("P_start", Int, Str, Int, Bool, Int)
P_en = fn("P_end", Int, Str, Int, Bool, Int)
PI_ok = fn("PI_ok", Int, Str, Int, Bool, Bool)     # parse_impl (before actions)
PI_res = fn("PI_res", Int, Str, Int, Bool, Int)
SK = fn("SK", Int, Str, Int, Int)                  # whitespace skip
RX_ok = fn("RX_ok", Int, Str, Int, Bool)           # compiled regex matches at
RX_en = fn("RX_end", Int, Str, Int, Int)
MINLEN = fn("MINLEN", Int, Int)
CLS0 = fn("CLS", Int, Int)

def sort_of(t):
    k = t[0]
    return {"int": Int, "bool": Bool, "str": Str}.get(k) or (V if k in ("opt", "dyn", "any") else Int)

class HArr:
    """a field of the heap as layers: base | store | cut(alloc limit)"""
    __slots__ = ("kind", "a", "b", "c", "d")
    def __init__(self, kind, a=None, b=None, c=None, d=None):
        self.kind, self.a, self.b, self.c, self.d = kind, a, b, c, d
    @staticmethod
    def base(f): return HArr("base", f)
    def store(self, ref, val): return HArr("store", self, ref, val)
    def cut(self, limit, f): return HArr("cut", self, limit, f)
    def replace(self, f): return HArr("base", f)

def same(a, b): return a.eq(b)

def split_off(r):
    if z3.is_int_value(r): return None, r.as_long()
    if z3.is_add(r) and r.num_args() == 2 and z3.is_int_value(r.arg(1)): return r.arg(0), r.arg(1).as_long()
    if z3.is_add(r) and r.num_args() == 2 and z3.is_int_value(r.arg(0)): return r.arg(1), r.arg(0).as_long()
    return r, 0

AL_PRED = {}      # allocation base -> (earlier base or None, offset): base >= earlier base + offset

def cname(t):
    """name of a constant, nothing for any other term"""
    return t.decl().name() if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""

def before(ba, ca, bb):
    """reference ba+ca was allocated before allocation base bb"""
    n = cname(bb)
    while n in AL_PRED:
        pb, po = AL_PRED[n]
        if pb is None: return ba is None and ca < po
        if ba is not None and ba.eq(pb): return ca < po
        n = cname(pb)
    return False

def after(limit, base):
    """allocation base >= limit"""
    bl, cl = split_off(limit)
    n = cname(base)
    while n in AL_PRED:
        pb, po = AL_PRED[n]
        if pb is None: return bl is None and cl <= po
        if bl is not None and bl.eq(pb): return cl <= po
        n = cname(pb)
    return False

def distinct(a, b, is_old=None):
    ba, ca = split_off(a); bb, cb = split_off(b)
    if ba is None and bb is None: return ca != cb
    if ba is not None and bb is not None and ba.eq(bb): return ca != cb
    if bb is not None and cname(bb).startswith("al!") and cb >= 0 and before(ba, ca, bb): return True
    if ba is not None and cname(ba).startswith("al!") and ca >= 0 and before(bb, cb, ba): return True
    if is_old is not None:
        if ba is None and ca >= A0 and is_old(b): return True
        if bb is None and cb >= A0 and is_old(a): return True
        if ba is not None and cname(ba).startswith("al!") and ca >= 0 and is_old(b): return True
        if bb is not None and cname(bb).startswith("al!") and cb >= 0 and is_old(a): return True
    return False

def heap_read(h, r, is_old=None):
    if h.kind == "base": return h.a(r)
    if h.kind == "store":
        if h.b.eq(r): return h.c
        if distinct(h.b, r, is_old): return heap_read(h.a, r, is_old)
        return z3.If(r == h.b, h.c, heap_read(h.a, r, is_old))
    if h.kind == "cut":
        if z3.is_int_value(r) and z3.is_int_value(h.b):
            return heap_read(h.a, r, is_old) if r.as_long() < h.b.as_long() else h.c(r)
        if is_old is not None and is_old(r): return heap_read(h.a, r, is_old)
        br, cr = split_off(r); bl, cl = split_off(h.b)
        if br is not None and bl is not None and br.eq(bl): return heap_read(h.a, r, is_old) if cr < cl else h.c(r)
        if bl is not None and cname(bl).startswith("al!") and cl >= 0 and before(br, cr, bl): return heap_read(h.a, r, is_old)
        if br is not None and cname(br).startswith("al!") and cr >= 0 and after(h.b, br): return h.c(r)
        return z3.If(r < h.b, heap_read(h.a, r, is_old), h.c(r))
    raise Exception(h.kind)

def py_index(i, n):
    """normalised index (may be out of range)"""
    return z3.If(i < 0, i + n, i)

def clamp(i, n):
    i2 = z3.If(i < 0, i + n, i)
    return z3.If(i2 < 0, I(0), z3.If(i2 > n, n, i2))

def slice_bounds(lo, hi, n):
    a = I(0) if lo is None else clamp(lo, n)
    b = n if hi is None else clamp(hi, n)
    return a, b

def sub(s, a, b):
    """s[a:b] for 0<=a, b<=len"""
    return z3.SubSeq(s, a, z3.If(b > a, b - a, I(0))) if s.sort() != Str else z3.SubString(s, a, z3.If(b > a, b - a, I(0)))


_bad = {}
def bad_pattern(t):
    k = t.get_id()
    if z3.is_quantifier(t): return True
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return True
        return any(bad_pattern(c) for c in t.children())
    return False

def forall(vs, body, patterns=()):
    ps = [q for q in patterns if z3.is_pattern(q) or not bad_pattern(q)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


# ------------------------------------------------------------------ simplification that keeps nth(seq, k) intact
_keep = {}
def unexpand(t):
    k = t.get_id()
    if k in _keep: return _keep[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        d = t.decl()
        a, b = (t.arg(1), t.arg(2)) if d.kind() == z3.Z3_OP_ITE else (None, None)
        if a is not None and z3.is_app(a) and z3.is_app(b) and {a.decl().name(), b.decl().name()} == {"seq.nth_i", "seq.nth_u"} and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
            r = unexpand(a.arg(0))[unexpand(a.arg(1))]
        else:
            ch = t.children()
            n2 = [unexpand(c) for c in ch]
            if any(not a.eq(b) for a, b in zip(ch, n2)):
                try: r = d(*n2)
                except z3.Z3Exception: r = z3.substitute(t, *[(a, b) for a, b in zip(ch, n2)])
    _keep[k] = (t, r)
    return r

def simp(t): return unexpand(z3.simplify(t))

OLD_SEQS = {"fld_$seq", "SHORT", "SCAN_0", "VISIBLE", "NAMED", "FLATTEN", "NESTED"}
def old_value(t):
    """t denotes a value stored in the heap before the call"""
    if not z3.is_app(t): return False
    d = t.decl(); n = d.name()
    if t.num_args() == 1 and n in ("rval", "t2a", "t2b", "t3a", "t3b", "t3c"): return old_value(t.arg(0))
    if n == "seq.nth": return old_value(t.arg(0))
    if n in OLD_SEQS: return True
    return n.startswith("fld_") and t.num_args() >= 1


_hq = {}
def has_quant(t):
    k = t.get_id()
    if k in _hq: return _hq[k][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    _hq[k] = (t, r)
    return r
