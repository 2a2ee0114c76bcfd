"""Symbolic Python values."""
import z3
from .smt import *

class Val: pass

class VNone(Val):
    def __repr__(self): return "None"
class VBool(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Bool({self.t})"
class VInt(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Int({self.t})"
class VStr(Val):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Str({self.t})"
class VRef(Val):
    """object reference, never None.  cls: static upper bound; elem: element type of lists"""
    def __init__(self, t, cls, exact=False, elem=None, owner=None, site=None):
        self.t, self.cls, self.exact, self.elem, self.owner, self.site = t, cls, exact, elem, owner, site
    def __repr__(self): return f"Ref({self.t}:{self.cls.name}{'!' if self.exact else ''})"
class VDyn(Val):
    def __init__(self, t, hint=None): self.t, self.hint = t, hint
    def __repr__(self): return f"Dyn({self.t}:{self.hint})"
class VTup(Val):
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return f"Tup{tuple(self.items)}"
class VFunc(Val):
    def __init__(self, fi, frame=None, self_=None): self.fi, self.frame, self.self_ = fi, frame, self_
    def __repr__(self): return f"Func({self.fi.qual})"
class VClass(Val):
    def __init__(self, ci): self.ci = ci
    def __repr__(self): return f"Class({self.ci.name})"
class VTag(Val):
    """class of an object, not known statically; bound: static upper bound"""
    def __init__(self, t, bound): self.t, self.bound = t, bound
class VMod(Val):
    def __init__(self, name): self.name = name
class VBI(Val):
    def __init__(self, name, self_=None): self.name, self.self_ = name, self_
    def __repr__(self): return f"BI({self.name})"
class VIter(Val):
    def __init__(self, n, at, srcs=()): self.n, self.at, self.srcs = n, at, list(srcs)
class VDict(Val):
    def __init__(self, d): self.d = d
class VMatch(Val):
    def __init__(self, rx, s, i): self.rx, self.s, self.i = rx, s, i
class VCallable(Val):
    """unknown callable (parse action, reset action ...): t is its identity"""
    def __init__(self, t, kind="action"): self.t, self.kind = t, kind
class VSuper(Val):
    def __init__(self, self_, after): self.self_, self.after = self_, after
class VOpaque(Val):
    def __init__(self, what): self.what = what
    def __repr__(self): return f"Opaque({self.what})"
class VMaybeUnbound(Val):
    def __init__(self, flag, val): self.flag, self.val = flag, val

NONE = VNone()
ELLIPSIS = VOpaque("Ellipsis")
def B(x): return VBool(z3.BoolVal(x))
def N(x): return VInt(z3.IntVal(x))
def S(x): return VStr(z3.StringVal(x))


class PyRaise(Exception):
    def __init__(self, exc): self.exc = exc
class Return_(Exception):
    def __init__(self, val): self.val = val
class Break_(Exception): pass
class Continue_(Exception): pass
class PathEnd(Exception): pass
class Unsupported(Exception): pass
class Restart(Exception): pass
