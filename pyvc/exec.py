"""Symbolic execution of the real function bodies -> verification conditions.

A function is executed again for every path (re-execution with a decision
prefix).  Loops are cut: candidate invariants (generic ones, plus equalities
between the tail-recursive specification functions of the contract at loop entry
and at the current state, over every choice of locals) are pruned to an
inductive set, then used.  Calls to functions under contract use the contract.
"""
import ast, itertools, os, time, hashlib
import z3
from .smt import *
from .values import *
from . import frontend
from .frontend import FuncInfo, ClassInfo

RL = 1500               # z3 resource units per nominal millisecond
FEAS_MS, ENT_MS = 300, 1000

# ---------------------------------------------------------------- types
def T(s):
    """'int' 'list:ref:X' 'opt:ref:X' 'tup(int,ref:X)'"""
    if isinstance(s, tuple): return s
    s = s.strip()
    if s.startswith("list:"): return ("list", T(s[5:]))
    if s.startswith("opt:"): return ("opt", T(s[4:]))
    if s.startswith("ref:"): return ("ref", s[4:])
    if s.startswith("exact:"): return ("exact", s[6:])
    if s.startswith("cfg:"): return ("cfg", s[4:])
    if s == "list": return ("list", ("dyn",))
    if s.startswith("tup("):
        depth, cur, out = 0, "", []
        for ch in s[4:-1]:
            if ch == "," and depth == 0: out.append(cur); cur = ""; continue
            depth += ch == "("; depth -= ch == ")"
            cur += ch
        out.append(cur)
        return ("tup",) + tuple(T(x) for x in out)
    return (s,)

def tsort(t):
    k = t[0]
    if k == "int": return Int
    if k == "bool": return Bool
    if k == "str": return Str
    if k in ("ref", "exact", "list", "cfg"): return Int
    return V

is_none, is_bool, is_int, is_str, is_ref, is_oth, is_t2, is_t3 = (V.is_none, V.is_bool, V.is_int, V.is_str, V.is_ref, V.is_oth, V.is_t2, V.is_t3)

def sel(f, t):
    """selector with eager simplification on constructors"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.num_args():
        for c in range(V.num_constructors()):
            if t.decl().eq(V.constructor(c)):
                for j in range(t.num_args()):
                    if V.accessor(c, j).eq(f): return t.arg(j)
    return f(t)

def tst(f, t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return simp(f(t))
    return f(t)

class Frame:
    def __init__(self, fi, module, parent=None, cls=None):
        self.fi, self.module, self.parent, self.cls = fi, module, parent, cls
        self.locals = {}
        self.globals_ = set()
        self.nonlocals = set()
        self.gen = None
        self.is_comp = False
        self.self_ = None
    def holder(self, name):
        f = self
        while f is not None:
            if name in f.locals: return f
            f = f.parent
        return None

class LoopInfo:
    def __init__(self):
        self.cands = None
        self.writes = {}     # field -> True | {sexpr: term}
        self.cut = set()
        self.allocs = False
        self.profile = {}
        self.measures = None
        self.gwrites = set()
        self.unbound_end = set()

DEBUG = os.environ.get("PYVC_DEBUG")

class Cand:
    __slots__ = ("desc", "form", "live", "rec")
    def __init__(self, desc, form, rec=None): self.desc, self.form, self.live, self.rec = desc, form, True, rec

class Obl:
    def __init__(self, name, props, status, detail="", model=None, secs=0.0, line=None):
        self.name, self.props, self.status, self.detail, self.model, self.secs, self.line = name, props, status, detail, model, secs, line

_assigned_cache = {}
def assigned(nodes):
    key = tuple(id(n) for n in nodes)
    if key in _assigned_cache: return _assigned_cache[key][1]
    out = set()
    def tgt(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef): out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)): tgt(n.target)
        elif isinstance(n, ast.For): tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add(a.asname or a.name)
        for c in ast.iter_child_nodes(n): walk(c)
    for n in nodes: walk(n)
    _assigned_cache[key] = (list(nodes), out)      # keeps the nodes: their ids must not be reused
    return out

_desugar = {}

class Verifier:
    """verification of one function against one contract"""
    def __init__(self, prog, registry, contract, budget=100.0):
        self.prog, self.reg, self.con = prog, registry, contract
        self.loops = {}
        self.site_elem = {}
        self.obls = []
        self.houdini = True
        self.changed = False
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.trusted = set()
        self.used_contracts = set()
        self.inlined = set()
        self.oth = {}
        self.oth_ids = {}
        self.budget = budget
        self.t0 = time.time()
        self.mode_ms = 8000
        self.frame_writes = []
        self.exits = 0

    # -- registry of static values boxed into V.oth
    def oth_id(self, key, val):
        if key not in self.oth_ids:
            n = len(self.oth_ids) + 1
            self.oth_ids[key] = n; self.oth[n] = val
        else: self.oth[self.oth_ids[key]] = val
        return self.oth_ids[key]

    def loop(self, key):
        if key not in self.loops: self.loops[key] = LoopInfo()
        return self.loops[key]

    def run(self):
        fi = self.prog.func(self.con.fn or self.con.qual)
        name = self.con.qual
        if fi is None:
            self.obls.append(Obl(f"{name}:exists", self.con.all_props(), "missing", "function under contract no longer exists"))
            return self.obls
        self.fi = fi
        try:
            rounds = 0
            while True:
                rounds += 1
                if rounds > 60: raise Unsupported("invariant search did not converge")
                self.changed = False
                self.obls = []
                self.exits = 0
                try:
                    self._dfs()
                except Restart:
                    self._tick()
                    continue
                if self.changed: continue
                if self.houdini and self.loops:
                    self.houdini = False
                    continue
                if self.houdini:      # no loops: obligations were skipped
                    self.houdini = False
                    continue
                break
            self.obls.append(Obl(f"{name}:some exit is reachable", self.con.all_props(), "ok" if self.exits else "failed", "" if self.exits else "every way out contradicts the assumptions"))
            if not self.obls:
                self.obls.append(Obl(f"{name}:non-vacuous", self.con.all_props(), "failed", "no obligation was generated"))
        except Unsupported as e:
            self.obls = [o for o in self.obls if o.status != "ok"]
            self.obls.append(Obl(f"{name}:in-subset", self.con.all_props(), "unsupported", str(e)))
        except z3.Z3Exception as e:
            self.obls.append(Obl(f"{name}:in-subset", self.con.all_props(), "unsupported", "z3: " + str(e)[:300]))
        except RecursionError as e:
            self.obls.append(Obl(f"{name}:in-subset", self.con.all_props(), "unsupported", "recursion depth"))
        return self.obls

    def _tick(self):
        if time.time() - self.t0 > self.budget: raise Unsupported("time budget for this function used up")

    def _dfs(self):
        work = [[]]
        n = 0
        while work:
            self._tick()
            prefix = work.pop()
            p = Path(self, prefix)
            n += 1
            if n > 3000: raise Unsupported("too many paths")
            try:
                p.start()
            except PathEnd:
                pass
            for d in p.pending: work.append(d)
        self.paths = n


class Path:
    def __init__(self, x, prefix):
        self.x, self.prog, self.con = x, x.prog, x.con
        self.prefix = prefix
        self.inplace, self.done_now = [], None     # lists whose elements are replaced while they are iterated
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.qsolver = None
        self.solver.set("timeout", 60000)      # safety net; the limit that counts is the (deterministic) resource limit
        self.pc = []
        self.heap = {}
        self.globals = {}
        self.alloc_base, self.alloc_off = None, A0
        self.fresh_n = 0
        self.old_terms = set()
        self.sub_facts = {}
        self.active_loops = []
        self.callstack = []
        self.line = None
        self.res_seen = set()
        self.strlits = set()
        self.changed_result = False
        self.seq_facts = []          # (sequence term, index -> formula that holds for an index in range)

    # ------------------------------------------------------------ solver
    def assume(self, f):
        if z3.is_true(f): return
        self.pc.append(f)
        if has_quant(f):
            if self.qsolver is None:
                self.qsolver = z3.Solver(); self.qsolver.set("timeout", 60000)
                for g in self.pc[:-1]: self.qsolver.add(g)
        else: self.solver.add(f)          # the quantifier-free part
        if self.qsolver is not None: self.qsolver.add(f)

    def check(self, f, ms, quick=False):
        """satisfiability of the path condition with f; quick: without the quantified facts (may answer sat too often)"""
        if self.qsolver is not None and not quick:
            r, m = self.check1(self.solver, f, min(ms, ENT_MS)) if not has_quant(f) else (None, None)
            if r == z3.unsat: return r, m
            return self.check1(self.qsolver, f, ms)
        return self.check1(self.solver, f, ms)

    def check1(self, solver, f, ms):
        self.x.queries += 1
        t = time.time()
        solver.push()
        solver.set("rlimit", ms * RL)
        solver.add(f)
        r = solver.check()
        m = None
        if r == z3.sat:
            try: m = solver.model()
            except z3.Z3Exception: m = None
        solver.pop()
        self.x.solver_time += time.time() - t
        return r, m

    def entails(self, f, ms=None):
        f = simp(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f): return True
        r, m = self.check(z3.Not(f), ms or ENT_MS)
        if r == z3.unknown and ms is None: r = self.fresh_check(z3.Not(f), ENT_MS * 2)
        return r == z3.unsat

    def fresh_check(self, f, ms, seed=7):
        """the same question to a solver without history"""
        t = time.time(); self.x.queries += 1
        s = z3.Solver(); s.set("rlimit", ms * RL); s.set("timeout", 60000); s.set("random_seed", seed)
        for q in self.pc: s.add(q)
        s.add(f)
        r = s.check()
        self.x.solver_time += time.time() - t
        return r

    def feasible(self, f):
        r, _ = self.check(f, FEAS_MS, quick=True)
        return r != z3.unsat

    def trace(self): return ''.join('T' if d is True else 'F' if d is False else str(d) for d in self.decisions)

    def branch(self, cond, why=""):
        c = simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond)) if ft else True
            if ft and ff:
                d = True
                self.pending.append(self.decisions + [False])
            else:
                d = ft
        self.decisions.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, conds):
        """index of the case taken; conds exhaustive"""
        for i, c in enumerate(conds[:-1]):
            if self.branch(c): return i
        return len(conds) - 1

    def oblige(self, name, f, props=None, assume=True, ms=None):
        props = props if props is not None else self.con.all_props()
        full = f"{self.con.qual}:{name}"
        if self.x.houdini:
            if assume: self.assume(f)
            return
        t = time.time()
        s = simp(f) if not z3.is_quantifier(f) else f
        if z3.is_true(s):
            self.x.obls.append(Obl(full, props, "ok", "by simplification"))
            return
        r, m = self.check(z3.Not(f), ms or self.x.mode_ms)
        if r == z3.unknown:
            # once more with a fresh solver
            s2 = z3.Solver(); s2.set("rlimit", (ms or self.x.mode_ms) * RL * 3); s2.set("random_seed", 7)
            for q in self.pc: s2.add(q)
            s2.add(z3.Not(f)); r = s2.check()
            if r == z3.sat:
                m = s2.model()
        st = {"unsat": "ok", "sat": "refuted"}.get(str(r), "unknown")
        self.x.obls.append(Obl(full, props, st, "" if st == "ok" else self.describe(f, m), self.model_values(m) if m is not None else None, time.time() - t, self.line))
        if assume: self.assume(f)

    def fail(self, name, detail, props=None):
        if self.x.houdini: return
        r, m = self.check(z3.BoolVal(True), self.x.mode_ms)
        if r == z3.unsat: return
        self.x.obls.append(Obl(f"{self.con.qual}:{name}", props if props is not None else self.con.all_props(), "refuted", detail, self.model_values(m) if m is not None else None, 0.0, self.line))

    def describe(self, f, m):
        return "cannot show " + str(simp(f) if not z3.is_quantifier(f) else f)[:1500]

    def model_values(self, m):
        out = {}
        if m is None: return None
        for d in m.decls():
            n = d.name()
            if d.arity() == 0 and not n.startswith("z3"):
                out[n] = str(m[d])[:200]
            elif len(out) < 40:
                out[n] = str(m[d])[:300]
        return out

    # ------------------------------------------------------------ fresh
    def fresh(self, sort, hint="x"):
        self.fresh_n += 1
        return z3.Const(f"{hint}!{self.fresh_n}", sort)

    def fresh_fn(self, hint, *sorts):
        self.fresh_n += 1
        return z3.Function(f"{hint}!{self.fresh_n}", *sorts)

    def is_old(self, t): return t.get_id() in self.old_terms or old_value(t)
    def mark_old(self, t): self.old_terms.add(t.get_id()); self._keep = getattr(self, "_keep", []); self._keep.append(t)

    # ------------------------------------------------------------ classes
    def cid(self, name): return self.prog.ids[name]

    def tag(self, ref):
        h = self.heap.get("$cls")
        if h is None:
            h = self.heap["$cls"] = HArr.base(CLS0)
        return simp(heap_read(h, ref, self.is_old))

    def sub(self, tag, ci):
        """Bool: class tag is a subclass of ci"""
        if ci.name == "object": return z3.BoolVal(True)
        if z3.is_int_value(tag):
            n = tag.as_long()
            for c in self.prog.classes.values():
                if self.prog.ids[c.name] == n: return z3.BoolVal(c.issub(ci))
            return z3.BoolVal(False)
        if z3.is_app(tag) and tag.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(tag.arg(0), self.sub(tag.arg(1), ci), self.sub(tag.arg(2), ci))
        key = tag.get_id()
        known = self.sub_facts.setdefault(key, {})
        self.sub_facts.setdefault("$keep", []).append(tag)
        if ci.name not in known:
            b = z3.Function("SUB_" + ci.name, Int, Bool)(tag)
            for other, ob in list(known.items()):
                oc = self.prog.classes[other]
                if ci.issub(oc): self.assume(z3.Implies(b, ob))
                elif oc.issub(ci): self.assume(z3.Implies(ob, b))
                elif not set(ci.all_subs()) & set(oc.all_subs()): self.assume(z3.Not(z3.And(b, ob)))
            # an exact known tag
            known[ci.name] = b
        return known[ci.name]

    def isinst(self, v, ci):
        if isinstance(v, VMaybeUnbound): raise Unsupported("maybe unbound")
        if isinstance(v, VDyn): v = self.resolve(v)
        n = ci.name
        if isinstance(v, VOpaque) and v.what == "slice": return z3.BoolVal(n in ("slice", "object"))
        if isinstance(v, VRef):
            if v.cls.issub(ci): return z3.BoolVal(True)
            if v.exact: return z3.BoolVal(False)
            if not set(v.cls.all_subs()) & set(ci.all_subs()): return z3.BoolVal(False)
            return self.sub(self.tag(v.t), ci)
        k = {VInt: "int", VStr: "str", VBool: "bool", VTup: "tuple", VDict: "dict"}.get(type(v))
        if k == "bool" and n == "int": return z3.BoolVal(True)
        if isinstance(v, VClass): return z3.BoolVal(n in ("type", "object"))
        return z3.BoolVal(k == n or n == "object")

    def narrow(self, name_frame, name, ci):
        """after isinstance(name, ci) was true"""
        h = name_frame.holder(name)
        if h is None: return
        v = h.locals[name]
        if isinstance(v, VRef) and not v.exact and ci.issub(v.cls) and ci is not v.cls:
            h.locals[name] = VRef(v.t, ci, False, v.elem, v.owner, v.site)

    # ------------------------------------------------------------ heap
    def ftype(self, cls, name):
        for c in cls.mro:
            t = self.x.reg.types.get(f"{c.name}.{name}")
            if t is not None: return T(t)
        return None

    def harr(self, field, sort):
        h = self.heap.get(field)
        if h is None:
            h = self.heap[field] = HArr.base(z3.Function("fld_" + field, Int, sort))
        return h

    def rd(self, field, ref, sort):
        t = heap_read(self.harr(field, sort), ref, self.is_old)
        t = simp(t)
        return t

    def wr(self, field, ref, val, sort):
        h = self.harr(field, sort)
        inv = self.x.reg.field_inv.get(field)
        if inv is not None and not self.con.qual.endswith(".__init__"): self.oblige(f"class invariant: {inv[2]}", inv[1](val))
        self.heap[field] = h.store(ref, val)
        self.note_write(field, ref)

    def note_write(self, field, ref):
        for (info, limit_fresh, base, off) in self.active_loops:
            if self.is_fresh_since(ref, base, off):
                if field not in info.cut:
                    info.cut.add(field); raise Restart()
            elif info.writes.get(field) is not True:
                d = info.writes.setdefault(field, {})
                key = ref.sexpr()
                if self.stable(ref, limit_fresh):
                    if key not in d:
                        d[key] = ref; raise Restart()
                else:
                    # through a variable of the loop: what it referred to before the loop, or something made in it
                    e0 = [r for r in info.entry_refs if r is not None]
                    known = [r for r in e0 if self.entails(z3.Or(ref == r, ref >= info.limit_alloc))]
                    if known:
                        new = False
                        if field not in info.cut: info.cut.add(field); new = True
                        if known[0].sexpr() not in d: d[known[0].sexpr()] = known[0]; new = True
                        if new: raise Restart()
                        continue
                    info.writes[field] = True; raise Restart()
        if not self.active_loops or True:
            self.check_frame(field, ref)

    def check_frame(self, field, ref):
        b, o = split_off(ref)
        if b is None and (o >= A0): return
        if b is not None and cname(b).startswith("al!"): return
        if self.x.reg.parse_relevant(field): self.changed_result = True
        allowed = self.con.may_write(self, field, ref)
        if allowed is True: return
        f = z3.Or(ref >= A0, ref < 0)
        if allowed is not False and allowed is not None: f = z3.Or(f, allowed)
        self.oblige(f"frame({field})", f, self.con.frame_props, assume=False)

    def is_fresh_since(self, ref, base, off):
        b, o = split_off(ref)
        if b is not None and cname(b).startswith("al!"):
            if base is None: return True
            if b.eq(base): return o >= off
            return int(cname(b)[3:]) > int(cname(base)[3:])
        if b is None and o >= A0:
            return base is None and o >= off
        return False

    def stable(self, term, limit):
        todo = [term]; seen = set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                n = t.decl().name()
                if "!" in n:
                    try:
                        if int(n.rsplit("!", 1)[1]) > limit: return False
                    except ValueError: pass
                todo.extend(t.children())
        return True

    def alloc(self, ci, exact=True, tag=None, elem=None, site=None):
        r = I(self.alloc_off) if self.alloc_base is None else simp(self.alloc_base + self.alloc_off)
        self.alloc_off += 1
        for (info, lf, base, off) in self.active_loops:
            if not info.allocs: info.allocs = True; raise Restart()
        h = self.heap.get("$cls") or HArr.base(CLS0)
        self.heap["$cls"] = h.store(r, I(self.cid(ci.name)) if tag is None else tag)
        for (info, lf, base, off) in self.active_loops:
            if "$cls" not in info.cut: info.cut.add("$cls"); raise Restart()
        return VRef(r, ci, exact, elem, None, site)

    # list contents
    def seq(self, ref): return self.rd("$seq", ref, SeqV)
    def set_seq(self, ref, s): self.wr("$seq", ref, s, SeqV)

    def new_list(self, seqterm, elem=None, site=None, cls="list"):
        r = self.alloc(self.prog.classes[cls], elem=elem, site=site)
        self.heap["$seq"] = self.harr("$seq", SeqV).store(r.t, seqterm)
        for (info, lf, base, off) in self.active_loops:
            if "$seq" not in info.cut: info.cut.add("$seq"); raise Restart()
        return r

    def elem_type(self, lst):
        if lst.elem is not None: return lst.elem
        if lst.site is not None: return self.x.site_elem.get(lst.site)
        return ("dyn",)

    def push_type(self, lst, v):
        if lst.site is not None:
            t = self.type_of(v)
            self.join_site(lst.site, t)

    def join_site(self, site, t):
        old = self.x.site_elem.get(site)
        new = t if old is None else self.tjoin(old, t)
        if new != old:
            self.x.site_elem[site] = new
            if old is not None: raise Restart()

    def type_of(self, v):
        if isinstance(v, VInt): return ("int",)
        if isinstance(v, VBool): return ("bool",)
        if isinstance(v, VStr): return ("str",)
        if isinstance(v, VNone): return ("none",)
        if isinstance(v, VRef):
            if v.cls.name == "list":
                return ("list", self.elem_type(v) or ("dyn",))
            if v.cls.name == "Config" and v.owner: return ("cfg", v.owner.name)
            return ("ref", v.cls.name)
        if isinstance(v, VTup): return ("tup",) + tuple(self.type_of(i) for i in v.items)
        if isinstance(v, VDyn): return v.hint or ("dyn",)
        if isinstance(v, VCallable): return ("fn",)
        if isinstance(v, (VFunc, VBI)): return ("fn",)
        return ("dyn",)

    def tjoin(self, a, b):
        if a == b: return a
        if a is None: return b
        if b is None: return a
        if a[0] == "ref" and b[0] == "ref":
            ca, cb = self.prog.classes[a[1]], self.prog.classes[b[1]]
            for c in ca.mro:
                if cb.issub(c):
                    return ("dyn",) if c.name == "object" else ("ref", c.name)
        if a[0] == "list" and b[0] == "list": return ("list", self.tjoin(a[1], b[1]))
        if a[0] == "tup" and b[0] == "tup" and len(a) == len(b):
            return ("tup",) + tuple(self.tjoin(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "none" or b[0] == "none":
            o = b if a[0] == "none" else a
            return o if o[0] in ("opt", "dyn") else ("opt", o)
        if a[0] == "opt": return ("opt", self.tjoin(a[1], b)) if b[0] != "opt" else ("opt", self.tjoin(a[1], b[1]))
        if b[0] == "opt": return self.tjoin(b, a)
        return ("dyn",)

    # ------------------------------------------------------------ box/unbox
    def box(self, v):
        if isinstance(v, VNone): return V.none
        if isinstance(v, VBool): return V.bool(v.t)
        if isinstance(v, VInt): return V.int(v.t)
        if isinstance(v, VStr): return V.str(v.t)
        if isinstance(v, VRef): return V.ref(v.t)
        if isinstance(v, VDyn): return v.t
        if isinstance(v, VTup):
            if len(v.items) == 2: return V.t2(self.box(v.items[0]), self.box(v.items[1]))
            if len(v.items) == 3: return V.t3(*[self.box(i) for i in v.items])
            key = ("tup", tuple(self.box(i).sexpr() for i in v.items))
            return V.oth(I(-self.x.oth_id(key, v)))
        if isinstance(v, VCallable): return V.oth(v.t)
        if isinstance(v, VFunc):
            key = ("fn", v.fi.qual, id(v.fi.node), v.self_.t.sexpr() if isinstance(v.self_, VRef) else None)
            # closures capture values: identity is the definition site plus the captured terms
            if v.frame is not None:
                key = key + (tuple(sorted((n, repr(q)) for n, q in self.captured(v))),)
            return V.oth(I(-self.x.oth_id(key, v)))
        if isinstance(v, VClass): return V.oth(I(-self.x.oth_id(("class", v.ci.name), v)))
        if isinstance(v, (VBI, VMod, VOpaque)): return V.oth(I(-self.x.oth_id(("bi", repr(v)), v)))
        if isinstance(v, VTag): return V.oth(v.t)
        if isinstance(v, VDict):
            return V.oth(I(-self.x.oth_id(("dict", id(v)), v)))
        if isinstance(v, VMatch): return V.oth(I(-self.x.oth_id(("match", repr((v.rx.t, v.s, v.i))), v)))
        if isinstance(v, VIter):
            return V.ref(self.materialize(v).t)
        raise Unsupported(f"cannot store {v!r}")

    def captured(self, v):
        names = {n.id for n in ast.walk(v.fi.node) if isinstance(n, ast.Name)}
        out = []
        f = v.frame
        while f is not None:
            for n, q in f.locals.items():
                if n in names and not isinstance(q, VFunc): out.append((n, q))
            f = f.parent
        return out

    def typed(self, term, t):
        """value of natural or V sort known (assumed) to be of type t"""
        k = t[0]
        nat = term.sort() != V
        if k == "int":
            if not nat: self.assume(tst(is_int, term))
            return VInt(term if nat else sel(V.ival, term))
        if k == "bool":
            if not nat: self.assume(tst(is_bool, term))
            return VBool(term if nat else sel(V.bval, term))
        if k == "str":
            if not nat: self.assume(tst(is_str, term))
            return VStr(term if nat else sel(V.sval, term))
        if k == "none": return NONE
        if k in ("ref", "exact"):
            if not nat: self.assume(tst(is_ref, term))
            r = term if nat else sel(V.rval, term)
            if not nat: self.not_fresh(r)
            ci = self.prog.classes[t[1]]
            v = VRef(r, ci, k == "exact")
            self.well_typed(v)
            return v
        if k == "cfg":
            if not nat: self.assume(tst(is_ref, term))
            r = term if nat else sel(V.rval, term)
            return VRef(r, self.prog.classes["Config"], True, owner=self.prog.classes[t[1]])
        if k == "list":
            if not nat: self.assume(tst(is_ref, term))
            r = term if nat else sel(V.rval, term)
            v = VRef(r, self.prog.classes["list"], True, elem=t[1])
            self.well_typed(v)
            return v
        if k == "tup":
            n = len(t) - 1
            self.assume(tst(is_t2 if n == 2 else is_t3, term))
            ss = (V.t2a, V.t2b) if n == 2 else (V.t3a, V.t3b, V.t3c)
            return VTup([self.typed(sel(s, term), q) for s, q in zip(ss, t[1:])])
        if k == "fn":
            if nat: return VCallable(term)
            self.assume(tst(is_oth, term))
            o = sel(V.oval, term)
            if z3.is_int_value(o) and -o.as_long() in self.x.oth: return self.x.oth[-o.as_long()]
            return VCallable(o)
        return VDyn(term, t)

    def well_typed(self, v):
        key = ("wt", v.t.get_id(), v.cls.name)
        if key in self.res_seen: return
        self.res_seen.add(key); self.sub_facts.setdefault("$keep", []).append(v.t)
        if z3.is_int_value(v.t): return
        if v.cls.name == "list":
            return
        self.assume(self.sub(self.tag(v.t), v.cls))

    def resolve(self, v, want=None):
        """VDyn -> concrete kind of value (may fork)"""
        if isinstance(v, VMaybeUnbound):
            if self.branch(v.flag): return self.resolve(v.val, want)
            self.raise_("UnboundLocalError")
        if not isinstance(v, VDyn): return v
        t = v.t
        h = v.hint
        if h and h[0] == "opt":
            if self.branch(tst(is_none, t)): return NONE
            r = self.typed(t, h[1])
            return self.resolve(r, want) if isinstance(r, VDyn) else r
        if h and h[0] not in ("dyn", "oneof"):
            return self.typed(t, h)
        kinds = [("none", is_none), ("bool", is_bool), ("int", is_int), ("str", is_str), ("ref", is_ref), ("t2", is_t2), ("t3", is_t3), ("oth", is_oth)]
        if h and h[0] == "oneof":
            names = {"none": "none", "bool": "bool", "int": "int", "str": "str"}
            opts = []
            for alt in h[1:]:
                f = {"none": is_none, "bool": is_bool, "int": is_int, "str": is_str, "fn": is_oth, "tup": is_t2}.get(alt[0], is_ref)
                opts.append((alt, f))
            self.assume(z3.Or([tst(f, t) for _, f in opts]))
            for alt, f in opts[:-1]:
                if self.branch(tst(f, t)): return self.typed(t, alt)
            return self.typed(t, opts[-1][0])
        if want:
            kinds = [k for k in kinds if k[0] == want] + [k for k in kinds if k[0] != want]
        for i, (k, f) in enumerate(kinds):
            if i == len(kinds) - 1 or self.branch(tst(f, t)):
                if k == "none": return NONE
                if k == "bool": return VBool(sel(V.bval, t))
                if k == "int": return VInt(sel(V.ival, t))
                if k == "str": return VStr(sel(V.sval, t))
                if k == "ref":
                    r = sel(V.rval, t)
                    self.not_fresh(r)
                    return VRef(r, self.prog.classes["object"])
                if k == "t2": return VTup([VDyn(sel(V.t2a, t)), VDyn(sel(V.t2b, t))])
                if k == "t3": return VTup([VDyn(sel(V.t3a, t)), VDyn(sel(V.t3b, t)), VDyn(sel(V.t3c, t))])
                return self.typed(t, ("fn",))
        raise PathEnd()

    # ------------------------------------------------------------ exceptions
    def wrote_result_check(self):
        """results are identified by (expression, text, position): sound only while no such result was changed"""
        if self.changed_result: raise Unsupported("a parse result is changed before another parse call")

    def raise_(self, cname, msg=None):
        e = self.alloc(self.prog.classes[cname])
        raise PyRaise(e)

    # ------------------------------------------------------------ start
    def start(self):
        con = self.con
        fi = self.x.fi
        c = con.make_ctx(self)
        self.ctx = c
        frame = Frame(fi, fi.module, None, fi.cls)
        outer = getattr(fi, "outer", None)
        if outer is not None:
            of = Frame(outer, outer.module, None, outer.cls)
            of.locals.update(c.closure)
            frame.parent = of
        a = fi.node.args
        names = [q.arg for q in a.posonlyargs + a.args]
        if fi.cls is not None and fi.kind != "static" and outer is None:
            self.bind_param(frame, names[0], c.self)
            frame.self_ = c.self
            names = names[1:]
        vals = [c.a[n] for n in c.a]
        for i, n in enumerate(names):
            # parameters are matched by position: renaming them is harmless
            if i < len(vals): frame.locals[n] = vals[i]
            else: frame.locals[n] = self.default_of(fi, n)
        if a.vararg: frame.locals[a.vararg.arg] = c.vararg if c.vararg is not None else VTup([])
        if a.kwarg: frame.locals[a.kwarg.arg] = c.kwarg if c.kwarg is not None else VDict({})
        for q in a.kwonlyargs:
            frame.locals[q.arg] = c.kwonly.get(q.arg) or self.default_of(fi, q.arg)
        self.frame0 = frame
        if con.ghost is not None: frame.locals.update(con.ghost(c, self))
        for nme, f in con.pre(c): self.assume(f)
        if not self.x.houdini and not getattr(self.x, "_cover", False):
            self.x._cover = True
            r, m = self.check(z3.BoolVal(True), 5000)
            self.x.obls.append(Obl(f"{con.qual}:precondition-satisfiable", con.all_props(), "refuted" if r == z3.unsat else "ok", "" if r != z3.unsat else "the precondition is contradictory"))
        self.pre_heap = dict(self.heap)
        res = None
        try:
            if fi.is_gen:
                frame.gen = self.new_list(EMPTY, site=("gen", fi.qual))
            try:
                self.block(fi.node.body, frame)
                res = NONE
            except Return_ as r:
                res = r.val
            if fi.is_gen: res = frame.gen
        except PyRaise as e:
            self.cover()
            con.on_raise(c, e.exc)
            return
        except (Break_, Continue_):
            raise Unsupported("break outside loop")
        self.cover()
        con.on_return(c, res)

    def cover(self):
        """at least one way out of the function must not contradict the assumptions made on the way"""
        if self.x.houdini or self.x.exits: return
        if self.check(z3.BoolVal(True), 3000)[0] != z3.unsat: self.x.exits += 1

    def bind_param(self, frame, name, val): frame.locals[name] = val

    def default_of(self, fi, name):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        ds = dict(zip([q.arg for q in pos][len(pos) - len(a.defaults):], a.defaults))
        ds.update({q.arg: d for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if name not in ds: raise Unsupported(f"no value for parameter {name}")
        f = Frame(fi, fi.module, None, fi.cls)
        return self.ev(ds[name], f)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts: self.stmt(s, fr)

    def stmt(self, s, fr):
        self.line = getattr(s, "lineno", self.line)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__} line {self.line}")
        m(s, fr)

    def st_Pass(self, s, fr): pass
    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)
    def st_Return(self, s, fr):
        raise Return_(self.ev(s.value, fr) if s.value is not None else NONE)
    def st_Break(self, s, fr): raise Break_()
    def st_Continue(self, s, fr): raise Continue_()
    def st_Global(self, s, fr): fr.globals_.update(s.names)
    def st_Nonlocal(self, s, fr): fr.nonlocals.update(s.names)
    def st_Import(self, s, fr):
        for a in s.names: fr.locals[a.asname or a.name] = VMod(a.name)
    def st_ImportFrom(self, s, fr):
        for a in s.names:
            m = (s.module or "").split(".")[-1]
            mod = self.prog.modules.get(m)
            if mod is None:
                fr.locals[a.asname or a.name] = VBI(a.name); continue
            fr.locals[a.asname or a.name] = self.global_name(mod, a.name)
    def st_FunctionDef(self, s, fr):
        fi = FuncInfo(s, fr.module, fr.cls, "func")
        fi.qual = (fr.fi.qual if fr.fi else "?") + "." + s.name
        fi.nested = True
        fr.locals[s.name] = VFunc(fi, fr)
    def st_ClassDef(self, s, fr): raise Unsupported("local class")
    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): self.raise_("AssertionError")
    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            new = self.aug(cur, s.op, self.ev(s.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattr_(obj, t.attr, fr)
            new = self.aug(cur, s.op, self.ev(s.value, fr))
            self.setattr_(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr); ix = self.index_val(t.slice, fr)
            cur = self.getitem(obj, ix)
            new = self.aug(cur, s.op, self.ev(s.value, fr))
            self.setitem(obj, ix, new)
        else: raise Unsupported("augassign")
    def aug(self, cur, op, val):
        cur = self.resolve(cur)
        if isinstance(cur, VRef) and cur.cls.name == "list" and isinstance(op, ast.Add):
            self.list_extend(cur, val)
            return cur
        return self.binop(cur, op, val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.set_global(fr.module, t.id, v); return
            if t.id in fr.nonlocals:
                h = fr.parent.holder(t.id)
                h.locals[t.id] = v; return
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index_val(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        else: raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        v = self.resolve(v)
        if any(isinstance(e, ast.Starred) for e in elts): raise Unsupported("starred unpack")
        if isinstance(v, VTup):
            if len(v.items) != len(elts): self.raise_("ValueError")
            for e, i in zip(elts, v.items): self.assign(e, i, fr)
            return
        if isinstance(v, VIter): v = self.materialize(v)
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple"):
            sq = self.seq(v.t)
            if not self.branch(z3.Length(sq) == len(elts)): self.raise_("ValueError")
            et = self.elem_type(v) or ("dyn",)
            for i, e in enumerate(elts): self.assign(e, self.typed(sq[i], et), fr)
            return
        raise Unsupported(f"unpack {v!r}")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.resolve(self.ev(t.value, fr))
                if isinstance(obj, VRef) and obj.cls.name == "list" and not isinstance(t.slice, ast.Slice):
                    i = self.int_(self.ev(t.slice, fr))
                    sq = self.seq(obj.t); n = z3.Length(sq)
                    i = simp(py_index(i, n))
                    if not self.branch(z3.And(0 <= i, i < n)): self.raise_("IndexError")
                    self.set_seq(obj.t, z3.Concat(sub(sq, I(0), i), sub(sq, i + 1, n)))
                elif isinstance(obj, VRef):
                    self.call_method(obj, "__delitem__", [self.ev(t.slice, fr)], {})
                else: raise Unsupported("del")
            else: raise Unsupported("del")

    def st_If(self, s, fr):
        if self.cond(s.test, fr): self.block(s.body, fr)
        else: self.block(s.orelse, fr)

    def st_Raise(self, s, fr):
        if s.exc is None:
            e = fr
            while e is not None and not getattr(e, "handling", None): e = e.parent
            if e is None: raise Unsupported("bare raise")
            raise PyRaise(e.handling[-1])
        v = self.resolve(self.ev(s.exc, fr))
        if isinstance(v, VClass): v = self.construct(v.ci, [], {})
        if s.cause is not None: self.ev(s.cause, fr)
        if not isinstance(v, VRef): self.raise_("TypeError")
        raise PyRaise(v)

    def exc_match(self, typ, e, fr):
        """Bool formula: exception e is caught by handler type expression"""
        if typ is None: return z3.BoolVal(True)
        if isinstance(typ, ast.Tuple):
            return z3.Or([self.exc_match(t, e, fr) for t in typ.elts])
        c = self.ev(typ, fr)
        if not isinstance(c, VClass): raise Unsupported("except type")
        return self.isinst(e, c.ci)

    def st_Try(self, s, fr):
        pending = None
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if self.branch(self.exc_match(h.type, e.exc, fr)):
                        if h.name:
                            exc = e.exc
                            c = self.ev(h.type, fr) if not isinstance(h.type, ast.Tuple) else None
                            if isinstance(c, VClass) and c.ci.issub(exc.cls) and not exc.exact: exc = VRef(exc.t, c.ci)
                            fr.locals[h.name] = exc
                        if not hasattr(fr, "handling"): fr.handling = []
                        fr.handling.append(e.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, Return_, Break_, Continue_) as e:
            if not s.finalbody: raise
            pending = e
        if s.finalbody: self.block(s.finalbody, fr)
        if pending is not None: raise pending

    def st_With(self, s, fr):
        def go(items):
            if not items:
                self.block(s.body, fr); return
            it = items[0]
            mgr = self.resolve(self.ev(it.context_expr, fr))
            if isinstance(mgr, VOpaque):     # a lock
                self.x.reg.lock_event(self, mgr, True)
                if it.optional_vars is not None: self.assign(it.optional_vars, mgr, fr)
                try:
                    go(items[1:])
                except (PyRaise, Return_, Break_, Continue_):
                    self.x.reg.lock_event(self, mgr, False)
                    raise
                self.x.reg.lock_event(self, mgr, False)
                return
            v = self.call_method(mgr, "__enter__", [], {})
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
            try:
                go(items[1:])
            except PyRaise as e:
                r = self.call_method(mgr, "__exit__", [VTag(self.tag(e.exc.t), e.exc.cls), e.exc, VOpaque("traceback")], {})
                if self.truth(r): return
                raise
            except (Return_, Break_, Continue_):
                self.call_method(mgr, "__exit__", [NONE, NONE, NONE], {})
                raise
            self.call_method(mgr, "__exit__", [NONE, NONE, NONE], {})
        go(s.items)

    # ------------------------------------------------------------ loops
    def st_While(self, s, fr):
        self.loop_cut(s, fr, s.body, s.orelse, test=s.test)

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_loop(s, fr, it, s.target, s.body, s.orelse)

    def for_loop(self, node, fr, it, target, body, orelse):
        it = self.to_iter(it)
        if isinstance(it, VTup):
            self.unrolled(it.items, fr, target, body, orelse); return
        n = simp(it.n)
        if z3.is_int_value(n) and n.as_long() <= 4:
            self.unrolled([it.at(I(j)) for j in range(n.as_long())], fr, target, body, orelse); return
        self.loop_cut(node, fr, body, orelse, it=it, target=target)

    def unrolled(self, items, fr, target, body, orelse):
        for v in items:
            self.assign(target, v, fr)
            try: self.block(body, fr)
            except Break_: return
            except Continue_: continue
        self.block(orelse, fr)

    def snap(self, fr, k):
        """terms of the visible locals: name -> {kind: term}"""
        out = {}
        f = fr
        while f is not None:
            for n, v in f.locals.items():
                if n in out: continue
                d = {}
                if isinstance(v, VMaybeUnbound): v = v.val
                if isinstance(v, VInt): d["int"] = v.t
                elif isinstance(v, VBool): d["bool"] = v.t
                elif isinstance(v, VStr): d["str"] = v.t
                elif isinstance(v, VRef):
                    d["ref"] = v.t
                    if self.con.ref_values: d["V"] = V.ref(v.t)
                    if v.cls.name in ("list", "set"): d["seq"] = self.seq(v.t)
                elif isinstance(v, VDyn): d["V"] = v.t
                elif isinstance(v, VNone): d["V"] = V.none
                elif isinstance(v, VTup) and len(v.items) == 2:
                    try: d["V"] = self.box(v)
                    except Unsupported: pass
                if self.con.ref_values and "V" not in d and isinstance(v, (VStr, VTag, VInt, VBool)): d["V"] = self.box(v)
                if d: out[n] = d
            if f.gen is not None and "$yield" not in out:
                out["$yield"] = {"seq": self.seq(f.gen.t), "ref": f.gen.t}
            if not f.is_comp and f.parent is None: break
            f = f.parent
        if k is not None: out["$k"] = {"int": k}
        if self.done_now is not None: out["$done"] = {"seq": self.done_now}
        return out

    def loop_cut(self, node, fr, body, orelse, it=None, target=None, test=None):
        x = self.x
        key = (id(node), tuple(self.callstack))
        info = x.loop(key)
        mod = assigned(body)
        if target is not None: mod = mod | assigned([ast.Assign([target], ast.Constant(None))])
        # closures that rebind outer variables
        mod = {m for m in mod if m not in fr.globals_}
        holders = {m: (fr if m not in fr.nonlocals else fr.parent.holder(m)) for m in mod}
        k0 = I(0) if it is not None else None
        k0 = I(0)
        entry_vals = {m: holders[m].locals.get(m) for m in mod}
        # type profile of modified variables
        for m in sorted(mod):
            v = entry_vals[m]
            self.profile_join(info, m, ("unbound",) if v is None else self.ptype(v))
        outer_done = self.done_now
        w = info.writes.get("$seq")
        written = {t.sexpr() for t in w.values()} if isinstance(w, dict) else ()
        replaced = it is not None and any(r.t.sexpr() in written for r in it.srcs)
        if replaced and not getattr(info, "inplace", False): info.inplace, info.cands = True, None
        self.done_now = EMPTY if replaced else None
        entry = self.snap(fr, k0)
        if getattr(it, "whole", None) is not None: entry["$it"] = {"it": it.whole[0]}
        it_snap = [(r, self.seq(r.t)) for r in (it.srcs if it else [])]
        info.limit_alloc = I(self.alloc_off) if self.alloc_base is None else simp(self.alloc_base + self.alloc_off)
        if info.cands is None:
            info.cands = self.gen_cands(node, fr, mod, entry, it, info)
        for c in info.cands:
            if not c.live: continue
            try:
                f = self.cand_form(c, entry, entry)
            except KeyError:
                c.live = False; continue
            if f is None: c.live = False; continue
            if not self.entails(f):
                c.live = False; x.changed = True
                if DEBUG is not None and DEBUG in c.desc: print("  dead at entry", c.desc, "line", node.lineno)
        # ---- havoc
        base0, off0 = self.alloc_base, self.alloc_off
        limit = self.fresh_n
        info.entry_refs = [v.t for v in entry_vals.values() if isinstance(v, VRef)]
        limit_alloc = info.limit_alloc = I(off0) if base0 is None else simp(base0 + off0)
        for field in sorted(info.writes):
            w = info.writes[field]
            h = self.heap.get(field)
            if h is None: continue
            srt = self.field_sort(h)
            if w is True:
                self.heap[field] = HArr.base(self.fresh_fn("hv_" + field, Int, srt))
            else:
                for sx in sorted(w):
                    self.heap[field] = self.heap[field].store(w[sx], self.fresh(srt, "hv_" + field))
        for field in sorted(info.cut):
            h = self.heap.get(field)
            if h is None: continue
            srt = self.field_sort(h)
            self.heap[field] = self.heap[field].cut(limit_alloc, self.fresh_fn("hc_" + field, Int, srt))
        for g in sorted(info.gwrites): self.havoc_global(g)
        if info.allocs:
            self.fresh_n += 1
            nb = z3.Const(f"al!{self.fresh_n}", Int)
            self.assume(nb >= limit_alloc)
            AL_PRED[cname(nb)] = (base0, off0)
            self.alloc_base, self.alloc_off = nb, 0
        for m in sorted(mod):
            t = info.profile[m]
            holders[m].locals[m] = self.havoc_val(m, t, entry_vals[m])
            if holders[m].locals[m] is None: del holders[m].locals[m]
        if self.con.dicts:
            # a name for the contents of each list (the contents stay what they are)
            for m, v in sorted(fr.locals.items()):
                if isinstance(v, VRef) and v.cls.name == "list":
                    q = self.fresh(SeqV, "of_" + m)
                    self.assume(q == self.seq(v.t))
                    self.heap["$seq"] = self.heap["$seq"].store(v.t, q) if "$seq" in self.heap else self.harr("$seq", SeqV).store(v.t, q)
        k = self.fresh(Int, "k")
        self.assume(k >= 0)
        if it is not None: self.assume(k <= it.n)
        # a list whose elements are replaced while it is iterated: those already seen, then the rest as it was
        inplace = None
        for r, s0 in it_snap:
            if r.t.sexpr() in written:
                if len(it_snap) > 1 or not simp(it.n).eq(simp(z3.Length(s0))): raise Unsupported("list changed while iterated")
                A = self.fresh(SeqV, "done")
                self.assume(z3.Length(A) == k)
                inplace = (r, s0, A, z3.Concat(A, z3.SubSeq(s0, k, z3.Length(s0) - k)))
                self.heap["$seq"] = self.heap["$seq"].store(r.t, inplace[3])
                inplace = (r, s0, A, self.seq(r.t))
                self.done_now = A
                self.assume(z3.Implies(k == z3.Length(s0), inplace[3] == A))
                self.assume(z3.Implies(k < z3.Length(s0), z3.SubSeq(s0, k, z3.Length(s0) - k) == z3.Concat(unit(s0[k]), z3.SubSeq(s0, k + 1, z3.Length(s0) - k - 1))))
        self.inplace.append(None if inplace is None else [inplace[0].t, inplace[3], k, inplace[1], inplace[2]])
        inplace_depth = len(self.inplace)
        cur = self.snap(fr, k)
        for m in sorted(mod):
            v = holders[m].locals.get(m)
            if isinstance(v, VMaybeUnbound) and m not in info.unbound_end and entry_vals[m] is None: self.assume(v.flag == (k > 0))
        for c in info.cands:
            if c.live:
                f = self.cand_form(c, entry, cur)
                if f is not None: self.assume(f)
                else: c.live = False; x.changed = True
        for c in info.cands:
            if c.live and c.rec is not None: c.rec(self, cur)
        # ---- guard
        self.active_loops.append((info, limit, self.alloc_base, self.alloc_off))
        depth = len(self.active_loops)
        gw = (info, set())
        try:
            if it is not None:
                enter = self.branch(k < it.n)
            else:
                enter = self.cond(test, fr)
            if not enter:
                if inplace is not None: self.heap["$seq"] = self.heap["$seq"].store(inplace[0].t, inplace[2])
                self.leave(info, fr, k, depth)
                del self.inplace[inplace_depth - 1:]
                self.done_now = outer_done
                self.block(orelse, fr)
                return
            head = self.snap(fr, k)
            if it is not None:
                self.assign(target, it.at(k), fr)
            if test is not None and info.measures is None:
                info.measures = self.gen_measures(fr, mod, head)
            meas = []
            if test is not None:
                for mm in info.measures:
                    if mm.live:
                        try: m0 = mm.form(self, head)
                        except KeyError: m0 = None
                        if m0 is None or not self.entails(m0 >= 0): mm.live = False; x.changed = True; continue
                        meas.append((mm, m0))
            try:
                try:
                    self.block(body, fr)
                except Continue_:
                    pass
            except Break_:
                self.done_now = None
                self.leave(info, fr, k + 1, depth, broke=True, kk=k)
                del self.inplace[inplace_depth - 1:]
                self.done_now = outer_done
                return
            # ---- end of body: invariant must be kept
            for m in sorted(mod):
                v = holders[m].locals.get(m)
                if (v is None or isinstance(v, VMaybeUnbound)) and m not in info.unbound_end:
                    info.unbound_end.add(m); raise Restart()
                self.profile_join(info, m, ("unbound",) if v is None else self.ptype(v))
            k2 = k + 1
            if inplace is not None:
                r, s0, A, whole = inplace
                now = self.seq(r.t)
                st = self.inplace[inplace_depth - 1]
                if now.eq(whole): A2 = z3.Concat(A, unit(s0[k]))
                elif now.eq(st[1]): A2 = st[4]
                else: raise Unsupported("list changed while iterated")
                self.assume(z3.Length(A2) == k2)
                self.done_now = A2
            nxt = self.snap(fr, k2)
            for c in info.cands:
                if not c.live: continue
                try: f = self.cand_form(c, entry, nxt)
                except KeyError: f = None
                if f is None or not self.entails(f):
                    c.live = False; x.changed = True
                    if DEBUG is not None and DEBUG in c.desc: print("  dead after body", c.desc, "line", node.lineno, self.trace(), f if os.environ.get("PYVC_FORM") else "")
            for r, s0 in it_snap:
                if inplace is None and not self.entails(self.seq(r.t) == s0): raise Unsupported("list changed while iterated")
            for mm, m0 in meas:
                if not mm.live: continue
                try: m1 = mm.form(self, nxt)
                except KeyError: m1 = None
                if m1 is None or not self.entails(m1 < m0): mm.live = False; x.changed = True
            if test is not None and not x.houdini and not x.changed and self.con.terminates:
                ok = any(mm.live for mm in info.measures)
                x.obls.append(Obl(f"{self.con.qual}:loop-terminates", self.con.term_props or self.con.all_props(), "ok" if ok else "unknown", "" if ok else f"no decreasing measure for the loop at line {node.lineno}", None, 0.0, node.lineno))
            raise PathEnd()
        finally:
            while len(self.active_loops) >= depth: self.active_loops.pop()

    def leave(self, info, fr, k, depth, broke=False, kk=None):
        self.broke_at = kk if broke else None
        while len(self.active_loops) >= depth: self.active_loops.pop()
        cur = self.snap(fr, k)
        for c in info.cands:
            if c.live and c.rec is not None: c.rec(self, cur)
        if kk is not None:
            cur = self.snap(fr, kk)
            for c in info.cands:
                if c.live and c.rec is not None: c.rec(self, cur)

    def field_sort(self, h):
        while True:
            if h.kind == "base": return h.a.range()
            h = h.a

    def ptype(self, v):
        """profile type of a local"""
        if isinstance(v, VMaybeUnbound): return ("maybe", self.ptype(v.val))
        if isinstance(v, VRef) and v.site is not None: return ("lref", v.site)
        if isinstance(v, VMatch): return ("match",)
        if isinstance(v, (VFunc, VClass, VMod, VBI, VDict, VOpaque, VTag, VIter)): return ("static", repr(v))
        return self.type_of(v)

    def profile_join(self, info, m, t):
        old = info.profile.get(m)
        if old is None:
            info.profile[m] = t; return
        if old == t: return
        new = self.pjoin(old, t)
        if new != old:
            info.profile[m] = new
            raise Restart()

    def pjoin(self, a, b):
        if a == b: return a
        if a[0] == "unbound": return b if b[0] == "maybe" else ("maybe", b)
        if b[0] == "unbound": return self.pjoin(b, a)
        if a[0] == "maybe" or b[0] == "maybe":
            x = a[1] if a[0] == "maybe" else a
            y = b[1] if b[0] == "maybe" else b
            return ("maybe", self.pjoin(x, y))
        if a[0] == "lref" and b[0] == "lref": return ("listof", tuple(sorted(map(str, {a[1], b[1]}))))
        if a[0] in ("lref", "listof") and b[0] in ("lref", "listof", "list"): return ("list", ("dyn",))
        if a[0] == "list" and b[0] == "lref": return ("list", ("dyn",))
        if a[0] in ("static", "match") or b[0] in ("static", "match"): return ("dead",)
        if a[0] == "dead" or b[0] == "dead": return ("dead",)
        if a[0] == "lref": a = ("list", ("dyn",))
        if b[0] == "lref": b = ("list", ("dyn",))
        return self.tjoin(a, b)

    def exists_now(self, r):
        """an object made before this point"""
        self.assume(r < (I(self.alloc_off) if self.alloc_base is None else self.alloc_base + self.alloc_off))

    def havoc_val(self, name, t, entry):
        k = t[0]
        if k == "unbound": return None
        if k == "maybe":
            v = self.havoc_val(name, t[1], None)
            if v is None: return None
            return VMaybeUnbound(self.fresh(Bool, "bound"), v)
        if k == "int": return VInt(self.fresh(Int, "h_" + name))
        if k == "bool": return VBool(self.fresh(Bool, "h_" + name))
        if k == "str": return VStr(self.fresh(Str, "h_" + name))
        if k == "none": return NONE
        if k == "lref":
            r = self.fresh(Int, "h_" + name)
            self.exists_now(r)
            return VRef(r, self.prog.classes["list"], True, site=t[1])
        if k == "listof":
            r = self.fresh(Int, "h_" + name)
            self.exists_now(r)
            return VRef(r, self.prog.classes["list"], True, elem=("dyn",))
        if k in ("ref", "list", "cfg"):
            r = self.fresh(Int, "h_" + name)
            if k == "list": self.exists_now(r)
            return self.typed(r, t)
        if k == "static":
            if entry is not None and repr(entry) == t[1]: return entry
            return VOpaque("dead variable " + name)
        if k in ("dead", "match"): return VOpaque("dead variable " + name)
        if k == "tup":
            return VTup([self.havoc_val(name, q, None) for q in t[1:]])
        return VDyn(self.fresh(V, "h_" + name), t if k in ("opt", "fn") else None)

    def gen_cands(self, node, fr, mod, entry, it, info):
        out = []
        ints = [n for n, d in entry.items() if "int" in d]
        seqs = [n for n, d in entry.items() if "seq" in d]
        strs = [n for n, d in entry.items() if "str" in d]
        bools = [n for n, d in entry.items() if "bool" in d]
        refs = [n for n, d in entry.items() if "ref" in d]
        G = lambda d, n, k: d[n][k]
        def add(desc, f): out.append(Cand(desc, f))
        if not self.con.generic: ints, strs, bools, refs, seqs, entry0, entry = [], [], [], [], [], entry, {}
        else: entry0 = entry
        for n in ints:
            if n == "$k" or n not in mod: continue
            add(f"{n}==entry", lambda p, e, c, n=n: c[n]["int"] == e[n]["int"])
            add(f"{n}>=entry", lambda p, e, c, n=n: c[n]["int"] >= e[n]["int"])
            add(f"{n}<=entry", lambda p, e, c, n=n: c[n]["int"] <= e[n]["int"])
            add(f"{n}==entry+k", lambda p, e, c, n=n: c[n]["int"] == e[n]["int"] + c["$k"]["int"])
            add(f"{n}>=0", lambda p, e, c, n=n: c[n]["int"] >= 0)
            for s in strs + [("$ctx", s) for s in self.con.str_terms(self)]:
                if isinstance(s, tuple):
                    add(f"{n}<=len(ctx)", lambda p, e, c, n=n, s=s[1]: c[n]["int"] <= z3.Length(s))
                    add(f"{n}<=len(ctx)+1", lambda p, e, c, n=n, s=s[1]: c[n]["int"] <= z3.Length(s) + 1)
                elif s not in mod:
                    add(f"{n}<=len({s})", lambda p, e, c, n=n, s=s: c[n]["int"] <= z3.Length(c[s]["str"]))
                    add(f"{n}<=len({s})+1", lambda p, e, c, n=n, s=s: c[n]["int"] <= z3.Length(c[s]["str"]) + 1)
            for w in ints:
                if w == n: continue
                add(f"{n}<{w}", lambda p, e, c, n=n, w=w: c[n]["int"] < c[w]["int"])
                add(f"{n}<={w}", lambda p, e, c, n=n, w=w: c[n]["int"] <= c[w]["int"])
                add(f"{n}=={w}", lambda p, e, c, n=n, w=w: c[n]["int"] == c[w]["int"])
                add(f"{n}>={w}", lambda p, e, c, n=n, w=w: c[n]["int"] >= c[w]["int"])
        for n in bools:
            if n in mod: add(f"{n}==entry", lambda p, e, c, n=n: c[n]["bool"] == e[n]["bool"])
        for n in strs:
            if n in mod: add(f"{n}==entry", lambda p, e, c, n=n: c[n]["str"] == e[n]["str"])
        for n in refs:
            if n in mod: add(f"{n} is entry", lambda p, e, c, n=n: c[n]["ref"] == e[n]["ref"])
        for n, d in entry.items():
            if "V" in d and n in mod: add(f"{n} same", lambda p, e, c, n=n: c[n]["V"] == e[n]["V"] if "V" in c[n] else None)
        for n in seqs:
            add(f"{n} unchanged", lambda p, e, c, n=n: c[n]["seq"] == e[n]["seq"])
            add(f"len({n})==entry+k", lambda p, e, c, n=n: z3.Length(c[n]["seq"]) == z3.Length(e[n]["seq"]) + c["$k"]["int"])
            add(f"len({n})<=entry+k", lambda p, e, c, n=n: z3.Length(c[n]["seq"]) <= z3.Length(e[n]["seq"]) + c["$k"]["int"])
            for w in ints:
                add(f"len({n})=={w}", lambda p, e, c, n=n, w=w: z3.Length(c[n]["seq"]) == c[w]["int"])
            for w in seqs:
                if w != n: add(f"len({n})==len({w})", lambda p, e, c, n=n, w=w: z3.Length(c[n]["seq"]) == z3.Length(c[w]["seq"]))
        entry = entry0
        for n, d in entry0.items():
            if n in mod and "ref" in d and "seq" in d:
                out.append(Cand(f"{n} as before or made here", lambda p, e, c, n=n: z3.Or(c[n]["ref"] == e[n]["ref"], c[n]["ref"] >= info.limit_alloc)))
        for f in self.con.cands(self, mod, entry): out.append(f)
        # a loop that copies what it iterates over
        if it is not None and getattr(it, "whole", None) is not None and len(node.body) == 1:
            for n in [n for n, d in entry0.items() if "seq" in d]:
                def copied(p, e, c, n=n):
                    k, q = c["$k"]["int"], e["$it"]["it"]
                    p.prefix_facts(q, k)
                    return c[n]["seq"] == z3.Concat(e[n]["seq"], z3.SubSeq(q, 0, k))
                out.append(Cand(f"{n} copies", copied))
        # specification functions
        for rec in self.con.recs:
            pools = []
            for srt in rec.state:
                pools.append([n for n, d in entry.items() if srt in d])
            n = 0
            if rec.only is not None: pools = rec.only(self, pools, mod, entry)
            ini = rec.init(self.ctx)
            if rec.constant:
                pools = [[("=", EMPTY)] if srt == "seq" else pool for pool, srt in zip(pools, rec.state)]
                for combo in itertools.product(*pools):
                    if any(isinstance(m, str) and (m in mod or m == "$k") for m in combo): out.append(self.rec_cand(rec, combo))
                continue
            if ini is not None:
                pools = [[n for n in pool if n == "$k" or self.start_ok(entry[n][srt], t)] for pool, srt, t in zip(pools, rec.state, ini)]
            for combo in itertools.product(*pools):
                if len(set(combo)) != len(combo): continue
                if not any(m in mod or m in ("$k", "$yield") or "seq" in entry.get(m, ()) for m in combo): continue
                n += 1
                if n > 600: break
                out.append(self.rec_cand(rec, combo))
        return out

    def prefix_facts(self, q, k):
        """SubSeq(q,0,k) at the start, after one more element, at the end"""
        j = k - 1
        self.assume(z3.Implies(k == 0, z3.SubSeq(q, 0, k) == EMPTY))
        self.assume(z3.Implies(k == z3.Length(q), z3.SubSeq(q, 0, k) == q))
        self.assume(z3.Implies(z3.And(0 <= j, j < z3.Length(q)), z3.SubSeq(q, 0, k) == z3.Concat(z3.SubSeq(q, 0, simp(j)), unit(q[simp(j)]))))

    def start_ok(self, a, b):
        return self.entails(a == b, 1000)

    def rec_cand(self, rec, combo):
        def form(p, e, c):
            get = lambda d, n, s: n[1] if isinstance(n, tuple) else d[n][s]
            se = [get(e, n, s) for n, s in zip(combo, rec.state)]
            sc = [get(c, n, s) for n, s in zip(combo, rec.state)]
            fixed = rec.fixed(p.ctx)
            fs = [f(*fixed, *se) == f(*fixed, *sc) for f in rec.funcs]
            if rec.inv is not None:
                fs += rec.inv(p.ctx, se, sc)
            return z3.And(fs)
        def unf(p, c):
            try: sc = [n[1] if isinstance(n, tuple) else c[n][s] for n, s in zip(combo, rec.state)]
            except KeyError: return
            for g in rec.unfold(p.ctx, sc): p.assume(g)
        return Cand(f"{rec.name}({','.join(map(str, combo))})", form, unf)

    def cand_form(self, c, entry, now):
        # None: a variable has no such value (a different kind of value, or none) at this place
        try: return c.form(self, entry, now)
        except KeyError: return None
    def gen_measures(self, fr, mod, head):
        out = []
        strs = self.con.str_terms(self)
        for n, d in head.items():
            if "int" in d and n in mod:
                out.append(Cand(f"{n}", lambda p, c, n=n: c[n]["int"]))
                for s in strs:
                    out.append(Cand(f"len+1-{n}", lambda p, c, n=n, s=s: z3.Length(s) + 1 - c[n]["int"]))
                for w, dw in head.items():
                    if w != n and "int" in dw and w not in mod:
                        out.append(Cand(f"{w}-{n}", lambda p, c, n=n, w=w: c[w]["int"] - c[n]["int"]))
                for w, dw in head.items():
                    if "seq" in dw: out.append(Cand(f"len({w})-{n}", lambda p, c, n=n, w=w: z3.Length(c[w]["seq"]) - c[n]["int"]))
            if "seq" in d:
                out.append(Cand(f"len({n})", lambda p, c, n=n: z3.Length(c[n]["seq"])))
        for f in self.con.measures(self): out.append(f)
        return out

    # ------------------------------------------------------------ iteration
    def to_iter(self, v):
        v = self.resolve(v)
        if isinstance(v, (VTup, VIter)): return v
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set"):
            s = self.seq(v.t)
            et = self.elem_type(v)
            r = VIter(z3.Length(s), lambda k, s=s, v=v: self.typed(self.elem_fact(s, k), self.elem_type(v) or ("dyn",)), [v])
            r.whole = (s, et)
            return r
        if isinstance(v, VStr):
            r = VIter(z3.Length(v.t), lambda k, v=v: VStr(self.char(v.t, k)))
            q = z3.Function("CHARS", Str, SeqV)(v.t)
            self.assume(z3.Length(q) == z3.Length(v.t))
            self.seq_facts.append((q, lambda k, q=q, v=v: q[k] == V.str(z3.SubString(v.t, k, 1))))
            r.whole = (q, ("str",))
            return r
        if isinstance(v, VRef) and v.cls.name == "object" and self.entails(z3.Function("IS_MANY", Int, Bool)(v.t)):
            # mo_dots.is_many: it can be iterated over; its items are not known
            q = z3.Function("ITEMS", Int, SeqV)(v.t)
            r = VIter(z3.Length(q), lambda k, q=q: self.typed(q[k], ("dyn",)), [])
            r.whole = (q, ("dyn",))
            return r
        if isinstance(v, VDict):
            return VTup([S(k) for k in v.d])
        if isinstance(v, VRef):
            return self.to_iter(self.call_method(v, "__iter__", [], {}))
        if isinstance(v, (VNone, VInt, VBool, VCallable)): self.raise_("TypeError")
        raise Unsupported(f"iterate {v!r}")

    def char(self, t, k):
        """character k of a string; of a slice of a string it is that of the string"""
        r = z3.SubString(t, k, 1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and "?" not in k.sexpr():
            base, lo, ln = t.arg(0), t.arg(1), t.arg(2)
            self.assume(z3.Implies(z3.And(0 <= lo, 0 <= k, k < ln, lo + ln <= z3.Length(base)), r == z3.SubString(base, lo + k, 1)))
        return r

    def elem_fact(self, s, k):
        for q, f in self.seq_facts:
            if q.eq(s) and "?" not in k.sexpr(): self.assume(z3.Implies(z3.And(0 <= k, k < z3.Length(s)), f(k)))
        # elements of a part of a sequence there are facts about
        for t in (s.children()[1:] if s.decl().kind() == z3.Z3_OP_ITE else [s]):
            if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and any(q.eq(t.arg(0)) for q, f in self.seq_facts) and "?" not in k.sexpr():
                q, a = t.arg(0), t.arg(1)
                j = simp(a + k)
                self.assume(z3.Implies(z3.And(0 <= k, k < z3.Length(t), 0 <= a), t[k] == q[j]))
                self.elem_fact(q, j)
        return s[k]

    def to_seq(self, v):
        """contents of an iterable as a Seq term, with element type"""
        v = self.resolve(v)
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set"):
            return self.seq(v.t), self.elem_type(v)
        if isinstance(v, VTup):
            s = EMPTY; t = None
            for i in v.items:
                s = z3.Concat(s, unit(self.box(i))) if not s.eq(EMPTY) else unit(self.box(i))
                t = self.tjoin(t, self.type_of(i))
            return s, t
        it = self.to_iter(v)
        if isinstance(it, VTup): return self.to_seq(it)
        if isinstance(it, VRef): return self.to_seq(it)
        if getattr(it, "whole", None) is not None: return it.whole
        q = self.fresh(SeqV, "seq")
        self.assume(z3.Length(q) == z3.If(it.n > 0, it.n, 0))
        j = z3.Int("j?")
        probe = self.fresh(Int, "j")
        n0 = len(self.pc)
        try:
            sample = it.at(j)
            body = self.box(sample)
            self.assume(forall([j], z3.Implies(z3.And(0 <= j, j < it.n), q[j] == body), patterns=[q[j]]))
            et = self.type_of(sample)
        except Unsupported:
            et = ("dyn",)
        return q, et

    def materialize(self, v):
        s, t = self.to_seq(v)
        return self.new_list(s, elem=t or ("dyn",))

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if v is None: return NONE
        if v is True or v is False: return B(v)
        if isinstance(v, int): return N(v)
        if isinstance(v, str): return S(v)
        if v is Ellipsis: return ELLIPSIS
        raise Unsupported(f"constant {v!r}")

    def ev_Name(self, e, fr):
        n = e.id
        if n not in fr.globals_:
            h = fr.holder(n)
            if h is not None:
                v = h.locals[n]
                if isinstance(v, VMaybeUnbound):
                    if self.branch(v.flag):
                        h.locals[n] = v.val; return v.val
                    self.raise_("UnboundLocalError")
                return v
            if fr.fi is not None and n in assigned(fr.fi.node.body if isinstance(fr.fi.node.body, list) else []) and not fr.is_comp and n not in fr.nonlocals:
                self.raise_("UnboundLocalError")
        return self.global_name(fr.module, n)

    def global_name(self, module, n):
        g = self.x.reg.globals.get(f"{module.short}.{n}")
        r = self.prog.resolve(module, n)
        if r is not None and r[0] == "const":
            key = f"{r[2].short}.{r[3]}"
            return self.global_const(key, r)
        if r is None:
            if n in BUILTINS: return VBI(n)
            if n in self.prog.classes: return VClass(self.prog.classes[n])
            if n == "Ellipsis": return ELLIPSIS
            raise Unsupported(f"name {n}")
        if r[0] == "class": return VClass(r[1])
        if r[0] == "func": return VFunc(r[1])
        if r[0] == "module": return VMod(r[1])
        if r[0] == "extern":
            short = r[1].split(".")[-1]
            if n in ("text",): return VClass(self.prog.classes["str"])
            return VBI("x:" + r[1]) if ("x:" + r[1]) in BUILTINS or short not in BUILTINS else VBI(short)
        raise Unsupported(f"name {n} -> {r[0]}")

    def global_const(self, key, r):
        if key in self.globals: return self.globals[key]
        g = self.x.reg.globals.get(key)
        if g is not None:
            v = self.make_global(key, g)
            self.globals[key] = v
            return v
        # evaluate literal constants
        f = Frame(None, r[2], None, None)
        val = r[1]
        if isinstance(val, (ast.Constant, ast.Tuple, ast.UnaryOp, ast.BinOp, ast.Name, ast.Dict, ast.JoinedStr)):
            v = self.ev(val, f)
            self.globals[key] = v
            return v
        raise Unsupported(f"module variable {key}")

    def make_global(self, key, g):
        if g == "maxint":
            return N(9223372036854775807)
        if g[0:2] == "o:": return VOpaque(g[2:])
        if g == "emptytuple": return VTup([])
        if g[0:3] == "bi:": return VBI(g[3:])
        t = T(g)
        srt = tsort(t)
        c = z3.Const("glob_" + key, srt)
        if srt == Int and t[0] != "int":
            self.mark_old(c); self.assume(z3.And(c > 0, c < A0))
        v = self.typed(c, t)
        return v

    def havoc_global(self, key):
        g = self.x.reg.globals[key]; t = T(g); srt = tsort(t)
        self.globals[key] = self.typed(self.fresh(srt, "hg"), t)

    def set_global(self, module, n, v):
        r = self.prog.resolve(module, n)
        key = f"{r[2].short}.{r[3]}" if r and r[0] == "const" else f"{module.short}.{n}"
        for (info, lf, b, o) in self.active_loops:
            if key not in info.gwrites: info.gwrites.add(key); raise Restart()
        self.globals[key] = v
        if key in self.x.reg.watch_globals and not self.con.may_write_global(self, key):
            self.oblige(f"frame(global {key})", z3.BoolVal(False), self.con.frame_props, assume=False)

    def ev_Tuple(self, e, fr):
        items = []
        for q in e.elts:
            if isinstance(q, ast.Starred): raise Unsupported("starred tuple")
            items.append(self.ev(q, fr))
        return VTup(items)

    def site(self, e): return (self.x.con.qual, getattr(e, "lineno", 0), getattr(e, "col_offset", 0), tuple(self.callstack))

    def ev_List(self, e, fr):
        site = self.site(e)
        s = EMPTY
        ts = []
        for q in e.elts:
            if isinstance(q, ast.Starred):
                t, et = self.to_seq(self.ev(q.value, fr))
                ts.append(et or ("dyn",))
                s = t if s.eq(EMPTY) else z3.Concat(s, t)
            else:
                v = self.ev(q, fr)
                ts.append(self.type_of(v))
                u = unit(self.box(v))
                s = u if s.eq(EMPTY) else z3.Concat(s, u)
        r = self.new_list(s, site=site)
        for t in ts: self.join_site(site, t)
        return r

    def ev_Set(self, e, fr):
        r = self.ev_List(e, fr); return r

    def dict_comp(self, e, fr):
        """a dictionary from pairs: the sequence of its keys"""
        def inner(elt):
            k, v = (elt.elts[0], elt.elts[1]) if isinstance(elt, ast.Tuple) else (elt, e.value)
            return [ast.Expr(v), ast.Expr(ast.Call(ast.Attribute(ast.Name("$acc", ast.Load()), "append", ast.Load()), [k], []))]
        elt = e.key if isinstance(e, ast.DictComp) else e.elt
        holder = ast.copy_location(ast.GeneratorExp(elt, e.generators), e) if isinstance(e, ast.DictComp) else e
        node = _desugar.get(("dictkeys", id(e)))
        if node is None:
            _desugar[("dictkeys", id(e))] = node = (holder, e)
        node, cf = self.comp(node[0], fr, inner, "dict")
        lst = self.new_list(EMPTY, elem=("str",))
        cf.locals["$acc"] = lst
        self.stmt(node, cf)
        return lst

    def ev_Dict(self, e, fr):
        if self.con.dicts:
            lst = self.new_list(EMPTY, elem=("str",))
            for k, v in zip(e.keys, e.values):
                if k is None: raise Unsupported("dict splat")
                kk = self.resolve(self.ev(k, fr)); self.ev(v, fr)
                self.list_append(lst, kk)
            return lst
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.resolve(self.ev(v, fr))
                if not isinstance(vv, VDict): raise Unsupported("dict splat")
                d.update(vv.d)
            else:
                kk = self.ev(k, fr)
                d[self.static_key(kk)] = self.ev(v, fr)
        return VDict(d)

    def static_key(self, v):
        if isinstance(v, VStr):
            t = simp(v.t)
            if z3.is_string_value(t): return t.as_string()
        if isinstance(v, VInt):
            t = simp(v.t)
            if z3.is_int_value(t): return t.as_long()
        raise Unsupported("dictionary with symbolic key")

    def ev_JoinedStr(self, e, fr):
        parts = []
        for q in e.values:
            if isinstance(q, ast.Constant): parts.append(z3.StringVal(q.value)); continue
            h = fr.holder(q.value.id) if isinstance(q.value, ast.Name) else None
            v = h.locals[q.value.id] if h is not None else None
            if v is None and self.con.texts: v = self.resolve(self.ev(q.value, fr))
            plain = q.format_spec is None and q.conversion == -1
            if self.con.texts and plain and isinstance(v, (VInt, VBool, VRef, VDyn)) and not isinstance(v, VStr):
                b = self.box(v)
                v = VStr(z3.If(V.is_str(b), V.sval(b), z3.Function("TEXT", V, Str)(b)) if isinstance(v, VDyn) else z3.Function("TEXT", V, Str)(b))
            if not isinstance(v, VStr) or not plain: return VStr(self.fresh(Str, "fstr"))
            parts.append(v.t)
        return VStr(parts[0] if len(parts) == 1 else z3.Concat(parts)) if parts else S("")
    def ev_FormattedValue(self, e, fr): return VStr(self.fresh(Str, "fstr"))
    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v
    def ev_Lambda(self, e, fr):
        node = _desugar.get(("lam", id(e)))
        if node is None:
            node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
            _desugar[("lam", id(e))] = node
            node._keep = e
        fi = FuncInfo(node, fr.module, fr.cls, "func")
        fi.qual = (fr.fi.qual if fr.fi else "?") + ".<lambda>"
        fi.nested = True
        return VFunc(fi, fr)
    def ev_Starred(self, e, fr): raise Unsupported("starred")
    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        g = fr
        self.list_append(g.gen, self.x.reg.on_yield(self, v))
        return NONE
    def ev_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.list_extend(fr.gen, v)
        return NONE
    def ev_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.cond(e.test, fr) else self.ev(e.orelse, fr)

    def cond(self, e, fr):
        """truth of an expression as a path decision, with isinstance narrowing"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for q in e.values:
                    if not self.cond(q, fr): return False
                return True
            for q in e.values:
                if self.cond(q, fr): return True
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            v = self.resolve(self.ev(e.args[0], fr))
            if isinstance(e.args[0], ast.Name):
                h = fr.holder(e.args[0].id)
                if h is not None and isinstance(h.locals[e.args[0].id], VDyn): h.locals[e.args[0].id] = v
            c = self.resolve(self.ev(e.args[1], fr))
            cs = c.items if isinstance(c, VTup) else [c]
            for q in cs:
                if self.never(q): continue
                if isinstance(q, VBI) and q.name == "type":
                    if isinstance(v, (VTag, VClass)): return True
                    continue
                k = self.abc_case(q, v)
                if k is not None:
                    if k: return True
                    continue
                ci = self.class_of(q)
                if self.branch(self.isinst(v, ci)):
                    if isinstance(e.args[0], ast.Name): self.narrow(fr, e.args[0].id, ci)
                    return True
            return False
        v = self.ev(e, fr)
        if isinstance(e, ast.Name):
            h = fr.holder(e.id)
            if isinstance(v, VDyn):
                v = self.resolve(v)
                if h is not None: h.locals[e.id] = v
        return self.truth(v)

    def abc_case(self, q, v):
        """is a value of a kind known here a generator, or something to iterate over?"""
        if not isinstance(q, VBI): return None
        n = q.name.split(".")[-1]
        if n not in ("generator_types", "Iterable"): return None
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set", "dict"): return n == "Iterable"
        if isinstance(v, (VTup, VDict)): return n == "Iterable"
        if isinstance(v, VStr): return n == "Iterable"
        if isinstance(v, VIter): return True
        if isinstance(v, (VNone, VInt, VBool, VTag, VClass)): return False
        if isinstance(v, VRef) and v.cls.issub(self.prog.classes["ParserElement"]): return False
        return None

    def never(self, q):
        # placeholders of names still to be imported: none once the package is
        return isinstance(q, VBI) and q.name == "x:mo_imports.Expecting"
    def class_of(self, q):
        if isinstance(q, VClass): return q.ci
        if isinstance(q, VBI):
            n = {"list": "list", "tuple": "tuple", "dict": "dict", "str": "str", "text": "str", "int": "int", "bool": "bool", "object": "object", "set": "set", "float": "float", "slice": "slice"}.get(q.name.split(".")[-1].replace("x:", ""))
            if n: return self.prog.classes[n]
        raise Unsupported(f"class {q!r}")

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, VNone): return False
        if isinstance(v, VBool): return self.branch(v.t)
        if isinstance(v, VInt): return self.branch(v.t != 0)
        if isinstance(v, VStr): return self.branch(z3.Length(v.t) > 0)
        if isinstance(v, VTup): return len(v.items) > 0
        if isinstance(v, VDict): return len(v.d) > 0
        if isinstance(v, VRef):
            if v.cls.name in ("list", "tuple", "set"): return self.branch(z3.Length(self.seq(v.t)) > 0)
            if v.cls.name == "object":
                return self.branch(z3.Function("TRUTH", V, Bool)(self.box(v)))
            c, a = v.cls.lookup("__bool__")
            if a is not None: return self.truth(self.call_method(v, "__bool__", [], {}))
            c, a = v.cls.lookup("__len__")
            if a is not None: return self.truth(VBool(self.int_(self.call_method(v, "__len__", [], {})) > 0))
            return True
        if isinstance(v, VMatch): return True
        if isinstance(v, VOpaque): return self.branch(self.fresh(Bool, "opq"))
        return True

    def ev_BoolOp(self, e, fr):
        last = None
        for i, q in enumerate(e.values):
            if i == len(e.values) - 1: return self.ev(q, fr)
            v = self.ev(q, fr)
            if isinstance(v, VDyn): v = self.resolve(v)
            # keep pure booleans symbolic
            if isinstance(v, VBool) and all(self.pure_bool(w, fr) for w in e.values[i + 1:]):
                rest = [self.ev(w, fr) for w in e.values[i + 1:]]
                if all(isinstance(w, VBool) for w in rest):
                    ts = [v.t] + [w.t for w in rest]
                    return VBool(z3.And(ts) if isinstance(e.op, ast.And) else z3.Or(ts))
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return v
            if isinstance(e.op, ast.Or) and t: return v
        return last

    def pure_bool(self, e, fr):
        """comparison of plain locals: cannot raise"""
        if isinstance(e, ast.Compare):
            return all(isinstance(q, (ast.Name, ast.Constant)) and (not isinstance(q, ast.Name) or isinstance((fr.holder(q.id).locals[q.id] if fr.holder(q.id) else None), (VInt, VBool))) for q in [e.left] + e.comparators)
        if isinstance(e, ast.Name):
            h = fr.holder(e.id); return h is not None and isinstance(h.locals[e.id], VBool)
        return False

    def ev_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            v = self.resolve(self.ev(e.operand, fr))
            if isinstance(v, VBool): return VBool(z3.Not(v.t))
            return B(not self.truth(v))
        v = self.resolve(self.ev(e.operand, fr))
        if isinstance(e.op, ast.USub): return VInt(-self.int_(v))
        if isinstance(e.op, ast.Invert) and isinstance(v, VRef): return self.call_method(v, "__invert__", [], {})
        raise Unsupported("unary")

    def int_(self, v):
        v = self.resolve(v, "int")
        if isinstance(v, VInt): return v.t
        if isinstance(v, VBool): return z3.If(v.t, I(1), I(0))
        self.raise_("TypeError")

    def ev_BinOp(self, e, fr):
        return self.binop(self.ev(e.left, fr), e.op, self.ev(e.right, fr))

    def binop(self, a, op, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, VBool): a = VInt(z3.If(a.t, I(1), I(0)))
        if isinstance(b, VBool): b = VInt(z3.If(b.t, I(1), I(0)))
        if isinstance(a, VInt) and isinstance(b, VInt):
            if isinstance(op, ast.Add): return VInt(simp(a.t + b.t))
            if isinstance(op, ast.Sub): return VInt(simp(a.t - b.t))
            if isinstance(op, ast.Mult): return VInt(simp(a.t * b.t))
            if isinstance(op, ast.FloorDiv): return VInt(a.t / b.t)
            if isinstance(op, ast.Mod): return VInt(a.t % b.t)
        if isinstance(a, VStr) and isinstance(b, VStr) and isinstance(op, ast.Add):
            return VStr(z3.Concat(a.t, b.t))
        if isinstance(a, VStr) and isinstance(op, ast.Mod):
            if z3.is_string_value(a.t) and isinstance(b, VStr) and a.t.as_string().count("%") == 1 and "%s" in a.t.as_string():
                x, y = a.t.as_string().split("%s")
                parts = [q for q in (x, y) if q]
                return VStr(z3.Concat(*([z3.StringVal(x)] if x else []), b.t, *([z3.StringVal(y)] if y else [])) if parts else b.t)
            return VStr(self.fresh(Str, "fmt"))
        if isinstance(a, VRef) and isinstance(b, VRef) and isinstance(op, ast.Sub) and a.cls.name == b.cls.name == "set":
            q, r = self.seq(a.t), self.seq(b.t)
            m = z3.Function("MINUS", SeqV, SeqV, SeqV)(q, r)
            self.assume(z3.And(z3.Length(m) <= z3.Length(q), z3.Implies(z3.Length(r) == 0, m == q)))
            return self.new_list(m, elem=self.elem_type(a) or ("dyn",), cls="set")
        if isinstance(a, VStr) and isinstance(b, VInt) and isinstance(op, ast.Mult): return VStr(self.fresh(Str, "rep"))
        if isinstance(a, VTup) and isinstance(b, VTup) and isinstance(op, ast.Add): return VTup(a.items + b.items)
        if isinstance(op, ast.Add):
            la = isinstance(a, VRef) and a.cls.name in ("list", "tuple"); lb = isinstance(b, VRef) and b.cls.name in ("list", "tuple")
            if (la or isinstance(a, VTup)) and (lb or isinstance(b, VTup)):
                (sa, ta), (sb, tb) = self.to_seq(a), self.to_seq(b)
                return self.new_list(z3.Concat(sa, sb), elem=self.tjoin(ta or tb or ("dyn",), tb or ta or ("dyn",)), cls="list" if la and a.cls.name == "list" else "tuple")
        if isinstance(op, ast.Mult) and isinstance(a, VRef) and a.cls.name == "list" and isinstance(b, VInt):
            s = self.seq(a.t)
            et = self.elem_type(a)
            n = simp(b.t)
            if self.entails(z3.Length(s) == 1):
                q = self.fresh(SeqV, "rep")
                self.assume(z3.Length(q) == z3.If(n > 0, n, 0))
                self.seq_facts.append((q, lambda k, q=q, s=s: q[k] == s[0]))
                return self.new_list(q, elem=et)
            raise Unsupported("list repetition")
        if isinstance(a, VRef) and a.cls.name not in ("list", "tuple", "object"):
            mname = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitXor: "__xor__", ast.BitAnd: "__and__", ast.Div: "__truediv__", ast.LShift: "__lshift__"}.get(type(op))
            if mname and a.cls.lookup(mname)[1] is not None: return self.call_method(a, mname, [b], {})
            if mname and not a.exact:
                for sub in sorted((q for q in a.cls.all_subs() if mname in q.attrs), key=lambda q: len(q.mro)):
                    if self.branch(self.isinst(a, sub)): return self.call_method(VRef(a.t, sub), mname, [b], {})
        if isinstance(b, VRef) and b.cls.name not in ("list", "tuple", "object") and isinstance(a, (VStr, VOpaque)):
            mname = {ast.Add: "__radd__", ast.BitOr: "__ror__", ast.Sub: "__rsub__", ast.BitXor: "__rxor__", ast.BitAnd: "__rand__", ast.Mult: "__rmul__"}.get(type(op))
            if mname and b.cls.lookup(mname)[1] is not None: return self.call_method(b, mname, [a], {})
        if isinstance(a, VOpaque) or isinstance(b, VOpaque): return VOpaque("arith")
        self.raise_("TypeError")

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            f = self.compare(left, op, right)
            if len(e.ops) == 1: return VBool(f)
            res = f if res is None else z3.And(res, f)
            left = right
        return VBool(res)

    def compare(self, a, op, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.identical(a, b)
            return f if isinstance(op, ast.Is) else z3.Not(f)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            f = self.equal(a, b)
            return f if isinstance(op, ast.Eq) else z3.Not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(b, a)
            return f if isinstance(op, ast.In) else z3.Not(f)
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, VStr) and isinstance(b, VStr):
            lt, le = (a.t < b.t), (a.t <= b.t)
            return {ast.Lt: lt, ast.LtE: le, ast.Gt: z3.Not(le), ast.GtE: z3.Not(lt)}[type(op)]
        if isinstance(a, VOpaque) or isinstance(b, VOpaque): return self.fresh(Bool, "opq")
        x, y = self.int_(a), self.int_(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def identical(self, a, b):
        if isinstance(a, VMaybeUnbound): a = self.resolve(a)
        if isinstance(b, VMaybeUnbound): b = self.resolve(b)
        if isinstance(a, VNone) and isinstance(b, VDyn): a, b = b, a
        if isinstance(a, VDyn) and isinstance(b, VNone): return tst(is_none, a.t)
        if isinstance(a, VDyn) or isinstance(b, VDyn):
            a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, VNone) or isinstance(b, VNone): return z3.BoolVal(isinstance(a, VNone) and isinstance(b, VNone))
        if isinstance(a, VRef) and isinstance(b, VRef):
            if distinct(a.t, b.t, self.is_old): return z3.BoolVal(False)
            return a.t == b.t
        if isinstance(a, VStr) and isinstance(b, VStr):
            f = self.fresh(Bool, "same_str")
            self.assume(z3.Implies(f, a.t == b.t))
            return f
        if isinstance(a, VBool) and isinstance(b, VBool): return a.t == b.t
        if isinstance(a, VInt) and isinstance(b, VInt): return a.t == b.t
        if isinstance(a, VOpaque) and isinstance(b, VOpaque): return z3.BoolVal(a.what == b.what)
        if isinstance(a, VClass) and isinstance(b, VClass): return z3.BoolVal(a.ci is b.ci)
        if isinstance(a, (VTag, VClass)) and isinstance(b, (VTag, VClass)):
            ta = a.t if isinstance(a, VTag) else I(self.cid(a.ci.name))
            tb = b.t if isinstance(b, VTag) else I(self.cid(b.ci.name))
            return ta == tb
        if isinstance(a, (VCallable, VFunc, VBI)) and isinstance(b, (VCallable, VFunc, VBI)):
            return self.box(a) == self.box(b)
        if type(a) != type(b): return z3.BoolVal(False)
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def equal(self, a, b):
        if isinstance(a, VDyn) and isinstance(b, VDyn) and not a.hint and not b.hint:
            return a.t == b.t      # boxed values: refs compare by identity
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, VNone) or isinstance(b, VNone):
            o = b if isinstance(a, VNone) else a
            if isinstance(o, VRef) and o.cls.lookup("__eq__")[1] is not None and o.cls.issub(self.prog.classes["ParseResults"]):
                return self.bool_(self.call_method(o, "__eq__", [NONE], {}))
            return z3.BoolVal(isinstance(a, VNone) and isinstance(b, VNone))
        if isinstance(a, VBool) and isinstance(b, VInt): a = VInt(z3.If(a.t, I(1), I(0)))
        if isinstance(b, VBool) and isinstance(a, VInt): b = VInt(z3.If(b.t, I(1), I(0)))
        for k in (VInt, VStr, VBool):
            if isinstance(a, k) and isinstance(b, k): return a.t == b.t
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return z3.And([self.equal(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.cls.name == "list" and b.cls.name == "list":
                return self.seq(a.t) == self.seq(b.t)
            if a.cls.name == "ParserElement" or a.cls.issub(self.prog.classes["ParserElement"]):
                return self.identical(a, b)
            if a.cls.issub(self.prog.classes["ParseResults"]): return self.bool_(self.call_method(a, "__eq__", [b], {}))
            return self.identical(a, b)
        if isinstance(a, VRef) and a.cls.issub(self.prog.classes["ParseResults"]): return self.bool_(self.call_method(a, "__eq__", [b], {}))
        if isinstance(a, VDict) and isinstance(b, VDict) and not a.d and not b.d: return z3.BoolVal(True)
        if isinstance(a, (VOpaque,)) or isinstance(b, (VOpaque,)):
            if type(a) == type(b): return z3.BoolVal(a.what == b.what) if a is ELLIPSIS else self.fresh(Bool, "opq")
            return z3.BoolVal(False) if (a is ELLIPSIS or b is ELLIPSIS) else self.fresh(Bool, "opq")
        if isinstance(a, (VClass, VTag, VCallable, VFunc, VBI)) and isinstance(b, (VClass, VTag, VCallable, VFunc, VBI)): return self.identical(a, b)
        return z3.BoolVal(False)

    def bool_(self, v):
        v = self.resolve(v)
        if isinstance(v, VBool): return v.t
        return z3.BoolVal(self.truth(v))

    def contains(self, cont, v):
        cont = self.resolve(cont)
        if isinstance(cont, VStr):
            v = self.resolve(v)
            if not isinstance(v, VStr): self.raise_("TypeError")
            return z3.Contains(cont.t, v.t)
        if isinstance(cont, VTup): return z3.Or([self.equal(i, v) for i in cont.items]) if cont.items else z3.BoolVal(False)
        if isinstance(cont, VDict):
            return z3.Or([z3.BoolVal(False)] + [self.equal(S(k) if isinstance(k, str) else N(k), v) for k in cont.d])
        if isinstance(cont, VRef) and cont.cls.name in ("list", "tuple", "set"):
            b = self.box(v)
            return z3.Contains(self.seq(cont.t), unit(b))
        if isinstance(cont, VRef): return self.bool_(self.call_method(cont, "__contains__", [v], {}))
        if isinstance(cont, VIter): return self.contains(self.materialize(cont), v)
        if isinstance(cont, VOpaque): return self.fresh(Bool, "opq")
        raise Unsupported("in")

    # subscripts
    def index_val(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return ("slice", *[self.ev(q, fr) if q is not None else None for q in (sl.lower, sl.upper, sl.step)])
        return self.ev(sl, fr)

    def ev_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index_val(e.slice, fr))

    def getitem(self, obj, ix):
        obj = self.resolve(obj)
        if isinstance(obj, VOpaque): return VOpaque("item")
        if isinstance(ix, VOpaque) and ix.what == "slice" and isinstance(obj, VRef) and obj.cls.name in ("list", "tuple"):
            # a slice that was given: Python's selection of the positions is an uninterpreted function of the sequence
            return self.new_list(z3.Function("SLICED", SeqV, SeqV)(self.seq(obj.t)), elem=self.elem_type(obj) or ("dyn",), cls=obj.cls.name)
        if isinstance(ix, tuple) and ix[0] == "slice":
            lo, hi, step = ix[1:]
            if step is not None:
                st = simp(self.int_(step))
                if z3.is_int_value(st) and st.as_long() == -1 and lo is None and hi is None:
                    return self.reverse_of(obj)
                raise Unsupported("slice step")
            lo, hi = (q if q is None else self.resolve(q) for q in (lo, hi))
            lo_ = None if lo is None or isinstance(lo, VNone) else self.int_(lo)
            hi_ = None if hi is None or isinstance(hi, VNone) else self.int_(hi)
            if isinstance(obj, VStr):
                n = z3.Length(obj.t)
                if lo_ is None and hi_ is None: return obj
                l0, h0 = I(0) if lo_ is None else lo_, n if hi_ is None else hi_
                if self.entails(z3.And(0 <= l0, l0 <= h0, h0 <= n)): return VStr(z3.SubString(obj.t, l0, simp(h0 - l0)))
                a, b = slice_bounds(lo_, hi_, n)
                return VStr(z3.SubString(obj.t, a, z3.If(b > a, b - a, I(0))))
            if isinstance(obj, VTup):
                a = 0 if lo_ is None else simp(lo_).as_long(); b = len(obj.items) if hi_ is None else simp(hi_).as_long()
                return VTup(obj.items[a:b])
            if isinstance(obj, VRef) and obj.cls.name in ("list", "tuple"):
                s = self.seq(obj.t); n = z3.Length(s)
                if lo_ is None and hi_ is None:
                    return self.new_list(s, elem=self.elem_type(obj) or ("dyn",), cls=obj.cls.name)
                l0, h0 = I(0) if lo_ is None else lo_, n if hi_ is None else hi_
                if self.entails(z3.And(0 <= l0, l0 <= h0, h0 <= n)):
                    return self.new_list(z3.SubSeq(s, l0, h0 - l0), elem=self.elem_type(obj) or ("dyn",), cls=obj.cls.name)
                a, b = slice_bounds(lo_, hi_, n)
                return self.new_list(z3.SubSeq(s, a, z3.If(b > a, b - a, I(0))), elem=self.elem_type(obj) or ("dyn",), cls=obj.cls.name)
            if isinstance(obj, VRef):
                sl = VOpaque("slice"); sl.bounds = (lo, hi)
                return self.call_method(obj, "__getitem__", [sl], {})
            raise Unsupported("slice")
        if isinstance(obj, VStr):
            i = self.int_(ix); n = z3.Length(obj.t)
            i = simp(py_index(i, n))
            if not self.branch(z3.And(0 <= i, i < n)): self.raise_("IndexError")
            return VStr(self.char(obj.t, i))
        if isinstance(obj, VTup):
            i = simp(self.int_(ix))
            if z3.is_int_value(i):
                j = i.as_long()
                if -len(obj.items) <= j < len(obj.items): return obj.items[j]
                self.raise_("IndexError")
            for j in range(len(obj.items)):
                if self.branch(i == j): return obj.items[j]
            self.raise_("IndexError")
        if isinstance(obj, VDict):
            return self.dict_get(obj, ix)
        if isinstance(obj, VMatch):
            return VStr(self.match_text(obj))
        if isinstance(obj, VRef) and obj.cls.name in ("list", "tuple"):
            i = self.int_(ix); s = self.seq(obj.t); n = z3.Length(s)
            i = simp(py_index(i, n))
            if not self.branch(z3.And(0 <= i, i < n)): self.raise_("IndexError")
            self.elem_fact(s, i)
            return self.typed(simp(s[i]), self.elem_type(obj) or ("dyn",))
        if isinstance(obj, VIter):
            return self.getitem(self.materialize(obj), ix)
        if isinstance(obj, VRef): return self.call_method(obj, "__getitem__", [ix], {})
        self.raise_("TypeError")

    def dict_get(self, d, ix):
        v = self.resolve(ix)
        if isinstance(v, VStr) and not z3.is_string_value(simp(v.t)) and d.d and all(isinstance(k, str) and isinstance(x, VStr) for k, x in d.d.items()):
            ks = [(v.t == z3.StringVal(k), x.t) for k, x in d.d.items()]
            if not self.branch(z3.Or([k for k, _ in ks])): self.raise_("KeyError")
            r = self.fresh(Str, "entry")
            for k, x in ks: self.assume(z3.Implies(k, r == x))
            return VStr(r)
        k = self.static_key(v)
        if k in d.d: return d.d[k]
        self.raise_("KeyError")

    def setitem(self, obj, ix, v):
        obj = self.resolve(obj)
        if isinstance(obj, VOpaque) and self.x.reg.opaque_setitem(self, obj, ix, v): return
        if isinstance(obj, VRef) and obj.cls.name == "list" and isinstance(ix, tuple):
            lo, hi, step = ix[1:]
            if step is not None: raise Unsupported("slice step")
            s = self.seq(obj.t); n = z3.Length(s)
            a, b = slice_bounds(None if lo is None else self.int_(lo), None if hi is None else self.int_(hi), n)
            b = z3.If(b > a, b, a)
            q, qt = self.to_seq(v)
            if qt is not None and obj.site is not None: self.join_site(obj.site, qt)
            self.set_seq(obj.t, z3.Concat(z3.SubSeq(s, I(0), a), q, z3.SubSeq(s, b, n - b)))
            return
        if self.con.dicts and isinstance(obj, VRef) and obj.cls.name == "list" and isinstance(self.resolve(ix), VStr):
            self.list_append(obj, self.resolve(ix)); return
        if isinstance(obj, VRef) and obj.cls.name == "list":
            i = self.int_(ix); s = self.seq(obj.t); n = z3.Length(s)
            i = simp(py_index(i, n))
            if not self.branch(z3.And(0 <= i, i < n)): self.raise_("IndexError")
            self.push_type(obj, v)
            b = unit(self.box(v))
            st = self.inplace[-1] if self.inplace else None
            if st is not None and st[0].eq(obj.t) and s.eq(st[1]) and self.entails(i == st[2]):
                k, s0 = st[2], st[3]
                A = st[4] if z3.is_const(st[4]) else st[4].arg(0)
                st[4] = z3.Concat(A, b)
                st[1] = z3.Concat(A, b, z3.SubSeq(s0, k + 1, z3.Length(s0) - k - 1))
                self.assume(z3.Length(st[1]) == z3.Length(s0))
                self.set_seq(obj.t, st[1])
                st[1] = self.seq(obj.t)
                return
            q = self.fresh(SeqV, "upd")
            self.assume(q == z3.Concat(z3.SubSeq(s, I(0), i), b, z3.SubSeq(s, i + 1, n - i - 1)))
            self.assume(z3.Length(q) == n); self.assume(q[i] == self.box(v))
            def rest(k, q=q, s=s, i=i):
                self.elem_fact(s, k)
                return z3.Implies(k != i, q[k] == s[k])
            self.seq_facts.append((q, rest))
            self.set_seq(obj.t, q)
            return
        if isinstance(obj, VDict):
            if any(True for _ in self.active_loops): raise Unsupported("dictionary built in a loop")
            obj.d[self.static_key(self.resolve(ix))] = v; return
        if isinstance(obj, VRef):
            self.call_method(obj, "__setitem__", [ix if not isinstance(ix, tuple) else VOpaque("slice"), v], {}); return
        raise Unsupported("item assignment")

    def reverse_of(self, obj):
        if isinstance(obj, VTup): return VTup(obj.items[::-1])
        if isinstance(obj, VRef) and obj.cls.name == "list":
            s = self.seq(obj.t); n = z3.Length(s)
            q = self.fresh(SeqV, "rev")
            self.assume(z3.Length(q) == n)
            j = z3.Int("j?")
            self.assume(forall([j], z3.Implies(z3.And(0 <= j, j < n), q[j] == s[n - 1 - j]), patterns=[q[j]]))
            return self.new_list(q, elem=self.elem_type(obj) or ("dyn",))
        if isinstance(obj, VIter): return self.reverse_of(self.materialize(obj))
        raise Unsupported("reverse")

    # comprehensions: desugared to loops over a fresh list
    def ev_ListComp(self, e, fr): return self.comp(e, fr)
    def ev_GeneratorExp(self, e, fr): return self.comp(e, fr)
    def ev_SetComp(self, e, fr): return self.comp(e, fr)
    def ev_DictComp(self, e, fr):
        if self.con.dicts: return self.dict_comp(e, fr)
        d = VDict({})
        cf = Frame(fr.fi, fr.module, fr, fr.cls); cf.is_comp = True; cf.self_ = fr.self_
        def go(i):
            if i == len(e.generators):
                d.d[self.static_key(self.resolve(self.ev(e.key, cf)))] = self.ev(e.value, cf); return
            g = e.generators[i]
            it = self.to_iter(self.ev(g.iter, cf))
            if not isinstance(it, VTup): raise Unsupported("dictionary comprehension over symbolic collection")
            for v in it.items:
                self.assign(g.target, v, cf)
                if all(self.cond(q, cf) for q in g.ifs): go(i + 1)
        go(0)
        return d

    def comp(self, e, fr, inner=None, key="list"):
        """inner(elt_expr_ast) -> statements executed per element; default: append to fresh list"""
        node = _desugar.get((key, id(e)))
        if node is None:
            if key == "list":
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("$acc", ast.Load()), "append", ast.Load()), [e.elt], []))]
            else: body = inner(e.elt)
            for g in reversed(e.generators):
                for q in reversed(g.ifs): body = [ast.If(q, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            node = body[0]
            ast.fix_missing_locations(ast.copy_location(node, e))
            for q in ast.walk(node):
                if not hasattr(q, "lineno"): q.lineno = e.lineno; q.col_offset = e.col_offset
            node._keep = e
            _desugar[(key, id(e))] = node
        cf = Frame(fr.fi, fr.module, fr, fr.cls); cf.is_comp = True; cf.self_ = fr.self_
        cf.globals_ = fr.globals_
        if key == "list":
            lst = self.new_list(EMPTY, site=self.site(e) + ("comp",))
            cf.locals["$acc"] = lst
            try: self.stmt(node, cf)
            except Break_: pass
            return lst
        return node, cf

    def any_all(self, e, fr, is_any):
        ret = lambda b: [ast.If(b, [ast.Assign([ast.Name("$r", ast.Store())], ast.Constant(is_any)), ast.Break()], [])]
        def inner(elt): return ret(elt if is_any else ast.UnaryOp(ast.Not(), elt))
        if len(e.generators) > 1: raise Unsupported("nested any/all")
        node, cf = self.comp(e, fr, inner, "any" if is_any else "all")
        cf.locals["$r"] = B(not is_any)
        self.stmt(node, cf)
        return cf.locals["$r"]

    def sum_(self, e, fr):
        def inner(elt): return [ast.AugAssign(ast.Name("$r", ast.Store()), ast.Add(), elt)]
        node, cf = self.comp(e, fr, inner, "sum")
        cf.locals["$r"] = N(0)
        self.stmt(node, cf)
        return cf.locals["$r"]

    def minmax(self, e, fr, is_min, default=None):
        def inner(elt):
            t = ast.Name("$e", ast.Load()); r = ast.Name("$r", ast.Load())
            return [ast.Assign([ast.Name("$e", ast.Store())], elt),
                    ast.If(ast.UnaryOp(ast.Not(), ast.Name("$set", ast.Load())),
                           [ast.Assign([ast.Name("$r", ast.Store())], t), ast.Assign([ast.Name("$set", ast.Store())], ast.Constant(True))],
                           [ast.If(ast.Compare(t, [ast.Lt() if is_min else ast.Gt()], [r]), [ast.Assign([ast.Name("$r", ast.Store())], t)], [])])]
        node, cf = self.comp(e, fr, inner, "min" if is_min else "max")
        cf.locals["$r"] = N(0); cf.locals["$set"] = B(False)
        self.stmt(node, cf)
        if not self.truth(cf.locals["$set"]):
            if default is not None: return default
            self.raise_("ValueError")
        return cf.locals["$r"]

    def first_(self, e, fr):
        def inner(elt): return [ast.Assign([ast.Name("$r", ast.Store())], elt), ast.Break()]
        if len(e.generators) > 1: raise Unsupported("nested first")
        node, cf = self.comp(e, fr, inner, "first")
        cf.locals["$r"] = NONE
        self.stmt(node, cf)
        return cf.locals["$r"]

    # ------------------------------------------------------------ attributes
    def ev_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), e.attr, fr)

    def getattr_(self, obj, name, fr=None):
        obj = self.resolve(obj)
        if isinstance(obj, VStr) and name == "__class__": return VClass(self.prog.classes["str"])
        if isinstance(obj, VRef):
            ov = self.x.reg.getattr(self, obj, name)
            if ov is not None: return ov
            if name == "__class__":
                if obj.exact: return VClass(obj.cls)
                return VTag(self.tag(obj.t), obj.cls)
            if obj.cls.name == "Config":
                return self.read_cfg(obj, name)
            ft = self.ftype(obj.cls, name)
            if ft is not None: return self.read_field(obj, name, ft)
            if obj.cls.name in ("list", "tuple", "dict", "set", "RegexObj", "object"):
                if obj.cls.name == "RegexObj" and name == "pattern": return VStr(z3.Function("RX_pattern", Int, Str)(obj.t))
                if obj.cls.name == "object":
                    return self.attr_of_unknown(obj, name)
                return VBI("$m:" + name, obj)
            c, a = obj.cls.lookup(name)
            if a is None:
                # an operation every subclass has, under an interface contract
                if any(self.x.reg.iface(f"{k.name}.{name}") for k in obj.cls.mro): return VBI("$m:" + name, obj)
                # maybe in a subclass
                subs = [s for s in obj.cls.all_subs() if name in s.attrs or self.ftype(s, name) is not None]
                if subs and not obj.exact:
                    for s in sorted(subs, key=lambda q: len(q.mro)):
                        if self.branch(self.isinst(obj, s)):
                            return self.getattr_(VRef(obj.t, s), name, fr)
                self.raise_("AttributeError")
            if isinstance(a, FuncInfo):
                if a.kind == "property": return self.call_method(obj, name, [], {}, prop=True)
                return VBI("$m:" + name, obj)
            if isinstance(a, tuple) and a[0] == "class": return VClass(a[1])
            if isinstance(a, tuple) and a[0] == "const":
                return self.class_const(obj, name, c, a)
            raise Unsupported(f"attribute {name}")
        if isinstance(obj, VClass):
            ft = self.x.reg.class_attrs.get(f"{obj.ci.name}.{name}")
            if ft is not None: return ft(self, obj)
            if name == "__name__": return S(obj.ci.name)
            c, a = obj.ci.lookup(name)
            if isinstance(a, FuncInfo): return VFunc(a)
            if isinstance(a, tuple) and a[0] == "class": return VClass(a[1])
            if isinstance(a, tuple) and a[0] == "const":
                return self.ev(a[1], Frame(None, c.module, None, c))
            if name == "__new__": return VBI("object.__new__")
            return VOpaque(f"{obj.ci.name}.{name}")
        if isinstance(obj, VTag):
            if name == "__name__": return VStr(z3.Function("CLSNAME", Int, Str)(obj.t))
            if name == "__new__": return VBI("object.__new__")
            c, a = obj.bound.lookup(name)
            if isinstance(a, tuple) and a[0] == "const":
                return self.tag_const(obj, name)
            return VOpaque("class attribute " + name)
        if isinstance(obj, VMod):
            m = self.prog.modules.get(obj.name)
            if m is not None: return self.global_name(m, name)
            return VBI(f"x:{obj.name}.{name}")
        if isinstance(obj, VSuper):
            c0 = obj.after
            mro = obj.self_.cls.mro
            mro = mro[mro.index(c0) + 1:] if c0 in mro else c0.mro[1:]
            for c in mro:
                if name in c.attrs and isinstance(c.attrs[name], FuncInfo):
                    return VFunc(c.attrs[name], None, obj.self_)
            return VBI("object." + name, obj.self_)
        if isinstance(obj, VNone): self.raise_("AttributeError")
        if isinstance(obj, (VStr, VTup, VDict, VIter, VMatch)): return VBI("$m:" + name, obj)
        if isinstance(obj, VOpaque):
            ov = self.x.reg.opaque_attr(self, obj, name)
            return ov if ov is not None else VOpaque(obj.what + "." + name)
        if isinstance(obj, VBI) and obj.name.split(".")[-1].replace("x:", "") == "Log": return VBI(name)
        if isinstance(obj, VBI) and obj.name in ("x:re", "x:sys", "x:json"): return VBI(f"{obj.name}.{name}")
        if isinstance(obj, (VFunc, VCallable, VBI)):
            if name in ("__name__",): return VStr(self.fresh(Str, "fname"))
            if name == "__new__" and isinstance(obj, VBI) and obj.name.split(".")[-1] == "object": return VBI("__new__")
            return VOpaque("function attribute " + name)
        if isinstance(obj, (VInt, VBool)): self.raise_("AttributeError")
        raise Unsupported(f"attribute {name} of {obj!r}")

    def attr_of_unknown(self, obj, name):
        """attribute of an object of unknown class: fork over the classes that have it"""
        cands = [c for c in self.prog.classes.values() if c.module.short != "builtins" and (self.x.reg.types.get(f"{c.name}.{name}") is not None or name in c.attrs)]
        roots = [c for c in cands if not any(b in cands for b in c.mro[1:])]
        for c in roots:
            if self.branch(self.sub(self.tag(obj.t), c)):
                return self.getattr_(VRef(obj.t, c), name)
        self.raise_("AttributeError")

    def class_const(self, obj, name, c, a):
        vals = set()
        for s in ([obj.cls] if obj.exact else obj.cls.all_subs()):
            sc, sa = s.lookup(name)
            vals.add(ast.dump(sa[1]) if isinstance(sa, tuple) and sa[0] == "const" else "?")
        if len(vals) == 1: return self.ev(a[1], Frame(None, c.module, None, c))
        return self.tag_const(VTag(self.tag(obj.t), obj.cls), name)

    def tag_const(self, tag, name):
        return VDyn(z3.Function("CLSATTR_" + name, Int, V)(tag.t), ("bool",) if name == "zero_length" else None)

    def read_field(self, obj, name, ft):
        srt = tsort(ft)
        t = self.rd(name, obj.t, srt)
        v = self.typed(t, ft)
        if ft[0] in ("ref", "exact", "list", "cfg"): self.pre_state(t)
        self.after_read(obj, name, t, ft)
        return v

    def not_fresh(self, r):
        """what an object that existed before the call held then existed too"""
        if old_value(r) and r.get_id() not in self.old_terms:
            self.mark_old(r); self.assume(r < A0)

    def pre_state(self, t):
        """a reference read from the initial heap is not fresh"""
        if t.sort() == Int and z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith("fld_"):
            if t.get_id() not in self.old_terms:
                self.mark_old(t); self.assume(t < A0)

    def after_read(self, obj, name, t, ft):
        self.x.reg.after_read(self, obj, name, t, ft)

    def read_cfg(self, obj, name):
        if name in ("_fields", "_asdict", "_replace", "__class__"):
            return VOpaque("config." + name)
        owner = obj.owner or self.prog.classes["ParserElement"]
        ft = None
        for c in owner.mro:
            s = self.x.reg.cfg_types.get(f"{c.name}.{name}")
            if s is not None: ft = T(s); break
        if ft is None:
            s = self.x.reg.cfg_types.get(name)
            ft = T(s) if s else None
        if ft is None: self.raise_("AttributeError")
        t = self.rd("cfg_" + name, obj.t, V)
        if ft[0] in ("ref", "list", "cfg", "exact"):
            r = sel(V.rval, t)
            if z3.is_app(t) and t.decl().name().startswith("fld_") and r.get_id() not in self.old_terms:
                self.mark_old(r); self.assume(r < A0)
        elif ft[0] == "opt" and z3.is_app(t) and t.decl().name().startswith("fld_"):
            self.assume(z3.Implies(is_ref(t), V.rval(t) < A0))
        v = self.typed(t, ft)
        if isinstance(v, (VInt, VStr, VBool)): v.t = simp(v.t)
        self.x.reg.after_read(self, obj, name, t, ft)
        return v

    def setattr_(self, obj, name, v):
        obj = self.resolve(obj)
        if isinstance(obj, VRef):
            if name == "__class__":
                if isinstance(v, VClass):
                    h = self.heap.get("$cls") or HArr.base(CLS0)
                    self.heap["$cls"] = h.store(obj.t, I(self.cid(v.ci.name)))
                    self.note_write("$cls", obj.t)
                    return
                raise Unsupported("__class__ assignment")
            ft = self.ftype(obj.cls, name)
            if ft is None:
                subs = [s for s in obj.cls.all_subs() if self.ftype(s, name) is not None]
                if subs: ft = self.ftype(subs[0], name)
            if ft is None:
                if obj.cls.name == "object": raise Unsupported("attribute of unknown object")
                # not part of any contract: only the frame matters
                self.note_write(name, obj.t)
                return
            srt = tsort(ft)
            if ft[0] == "list" and isinstance(v, VDict) and not v.d: v = self.new_list(EMPTY)      # an empty dictionary: empty until replaced
            if srt == V: t = self.box(v)
            else: t = self.native(v, ft)
            if self.con.check_types and ft[0] in ("ref", "list"):
                pass
            self.wr(name, obj.t, t, srt)
            if ft[0] == "list" and isinstance(v, VRef): self.x.reg.note_list_field(self, name, v)
            return
        if isinstance(obj, (VFunc, VCallable, VBI, VOpaque)): return   # function attributes (names)
        if isinstance(obj, VClass):
            key = f"{obj.ci.name}.{name}"
            if key in self.x.reg.class_attrs_rw:
                self.globals["class:" + key] = v
                return
        raise Unsupported(f"set attribute {name} of {obj!r}")

    def native(self, v, ft):
        v = self.resolve(v)
        k = ft[0]
        if k == "int": return self.int_(v)
        if k == "bool": return self.bool_(v)
        if k == "str":
            if isinstance(v, VStr): return v.t
            if isinstance(v, VNone): return self.x.reg.none_string
        if k in ("ref", "exact", "list", "cfg"):
            if isinstance(v, VRef): return v.t
            if isinstance(v, VNone): return I(0)
            if isinstance(v, VTup):
                s, t = self.to_seq(v)
                return self.new_list(s, elem=t or ("dyn",), cls="tuple").t
            if isinstance(v, VIter): return self.materialize(v).t
        raise Unsupported(f"value {v!r} for field of type {ft}")

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, fr):
        self.line = e.lineno if hasattr(e, "lineno") else self.line
        # special forms on generator arguments
        if isinstance(e.func, ast.Name) and len(e.args) >= 1 and (isinstance(e.args[0], ast.GeneratorExp) or isinstance(e.args[0], ast.ListComp) and e.func.id in ("min", "max", "sum")) and fr.holder(e.func.id) is None:
            n = e.func.id
            if n == "any": return self.any_all(e.args[0], fr, True)
            if n == "all": return self.any_all(e.args[0], fr, False)
            if n == "sum" and len(e.args) == 1: return self.sum_(e.args[0], fr)
            if n in ("min", "max") and len(e.args) == 1 and all(k.arg == "default" for k in e.keywords):
                return self.minmax(e.args[0], fr, n == "min", self.ev(e.keywords[0].value, fr) if e.keywords else None)
            if n == "first": return self.first_(e.args[0], fr)
            if n in ("OrderedDict", "dict") and self.con.dicts and len(e.args) == 1 and isinstance(e.args[0].elt, ast.Tuple) and len(e.args[0].elt.elts) == 2: return self.dict_comp(e.args[0], fr)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and fr.holder("super") is None:
            f = fr
            while f.self_ is None and f.parent is not None: f = f.parent
            if e.args:
                c = self.ev(e.args[0], fr); s = self.ev(e.args[1], fr)
                return VSuper(s, c.ci)
            return VSuper(f.self_, f.cls)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.ev(a.value, fr))
                if isinstance(v, VTup): args.extend(v.items)
                else: args.append(("*", v))
            else: args.append(self.ev(a, fr))
        kwargs = {}
        for kwd in e.keywords:
            if kwd.arg is None:
                v = self.resolve(self.ev(kwd.value, fr))
                if isinstance(v, VDict): kwargs.update(v.d)
                else: kwargs["**"] = v
            else: kwargs[kwd.arg] = self.ev(kwd.value, fr)
        self.callstack.append(id(e))
        try:
            return self.call(fn, args, kwargs, fr)
        finally:
            self.callstack.pop()

    def call(self, fn, args, kwargs, fr=None):
        fn = self.resolve(fn)
        if isinstance(fn, VFunc): return self.call_func(fn, args, kwargs)
        if isinstance(fn, VBI):
            if fn.name.startswith("$m:"): return self.call_method(fn.self_, fn.name[3:], args, kwargs)
            return self.builtin(fn, args, kwargs, fr)
        if isinstance(fn, VClass): return self.construct(fn.ci, args, kwargs)
        if isinstance(fn, VCallable): return self.x.reg.call_unknown(self, fn, args, kwargs)
        if isinstance(fn, VTag): return self.x.reg.construct_tag(self, fn, args, kwargs)
        if isinstance(fn, VRef) and fn.cls.lookup("__call__")[1] is not None: return self.call_method(fn, "__call__", args, kwargs)
        if isinstance(fn, VOpaque): return self.x.reg.call_opaque(self, fn, args, kwargs)
        if isinstance(fn, VNone): self.raise_("TypeError")
        raise Unsupported(f"call of {fn!r}")

    def bind(self, fi, args, kwargs):
        """-> ordered dict of parameter values"""
        a = fi.node.args
        names = [q.arg for q in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        star = None
        if args and isinstance(args[-1], tuple) and args[-1][0] == "*":
            star = args.pop()[1]
            if not a.vararg: 
                raise Unsupported("call with * of unknown length")
        for n, v in zip(names, args): out[n] = v
        extra = args[len(names):]
        if extra and not a.vararg: self.raise_("TypeError")
        kw = dict(kwargs)
        for n in names:
            if n in kw:
                if n in out: self.raise_("TypeError")
                out[n] = kw.pop(n)
        for q in a.kwonlyargs:
            if q.arg in kw: out[q.arg] = kw.pop(q.arg)
        if kw and not a.kwarg: self.raise_("TypeError")
        ds = set(names[len(names) - len(a.defaults):]) | {q.arg for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for n in names + [q.arg for q in a.kwonlyargs]:
            if n not in out:
                if n not in ds: self.raise_("TypeError")
                out[n] = self.default_of(fi, n)
        if a.vararg:
            out[a.vararg.arg] = star if star is not None and not extra else VTup(extra)
        if a.kwarg: out[a.kwarg.arg] = VDict(kw)
        return out

    def call_func(self, vf, args, kwargs):
        fi = vf.fi
        if vf.self_ is not None: args = [vf.self_] + list(args)
        con = self.x.reg.contract_for(fi.qual)
        if con is not None and con.at_calls and not (fi.qual in self.con.inline):
            b = self.bind(fi, args, kwargs)
            self.x.used_contracts.add(fi.qual)
            return con.apply(self, fi, b)
        return self.inline(vf, args, kwargs)

    def inline(self, vf, args, kwargs):
        fi = vf.fi
        depth = sum(1 for q in self.callstack if q == ("in", fi.qual))
        if depth >= 1 or len(self.callstack) > 60: raise Unsupported(f"recursive call of {fi.qual} without contract")
        decs = [d for d in getattr(fi, "decorators", []) if d not in ("property", "classmethod")]
        if any(d not in ("entrypoint",) for d in decs): raise Unsupported(f"decorator on {fi.qual}")
        b = self.bind(fi, args, kwargs)
        self.x.inlined.add(fi.qual)
        fr = Frame(fi, fi.module, vf.frame, fi.cls)
        fr.locals.update(b)
        if fi.cls is not None and not getattr(fi, "nested", False):
            a = fi.node.args
            n0 = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            if n0: fr.self_ = b[n0]
        if fi.is_gen: fr.gen = self.new_list(EMPTY, site=("gen", fi.qual, tuple(self.callstack)))
        self.callstack.append(("in", fi.qual))
        line = self.line
        try:
            self.block(fi.node.body, fr)
            r = NONE
        except Return_ as e:
            r = e.val
        finally:
            self.callstack.pop()
            self.line = line
        return fr.gen if fi.is_gen else r

    def call_method(self, recv, name, args, kwargs, prop=False):
        recv = self.resolve(recv)
        if isinstance(recv, VRef) and recv.cls.name == "object" and not recv.exact:
            for cn in ("ParseResults", "ParserElement", "ParseException"):
                if self.entails(self.isinst(recv, self.prog.classes[cn])):
                    recv = VRef(recv.t, self.prog.classes[cn]); break
        if isinstance(recv, VNone): self.raise_("AttributeError")
        ov = self.x.reg.method(self, recv, name, args, kwargs)
        if ov is not None: return ov
        if isinstance(recv, VRef) and recv.cls.name not in ("list", "tuple", "set", "dict", "RegexObj", "Config"):
            # interface contract of the method, unless the class is known exactly
            if not recv.exact:
                for c in recv.cls.mro:
                    ic = self.x.reg.iface(f"{c.name}.{name}")
                    if ic is not None and not (recv.cls.name in ic.except_):
                        fi = ic.signature(self)
                        b = self.bind(fi, [recv] + list(args), kwargs)
                        self.x.used_contracts.add(ic.key)
                        return ic.apply(self, fi, b)
            c, a = recv.cls.lookup(name)
            if not recv.exact:
                impls = {}
                for s in recv.cls.all_subs():
                    sc, sa = s.lookup(name)
                    if sa is not None and s.module.short != "builtins": impls.setdefault(sc, sa)
                if len(impls) > 1:
                    order = sorted([q for q in impls if q is not c], key=lambda q: -len(q.mro))
                    if len(order) > 5: raise Unsupported(f"virtual call of {name} on {recv.cls.name} without interface contract")
                    for q in order:
                        if self.branch(self.isinst(recv, q)):
                            if any(self.x.reg.iface(f"{m.name}.{name}") is not None for m in q.mro): return self.call_method(VRef(recv.t, q, False), name, args, kwargs)
                            return self.call_func(VFunc(impls[q], None, VRef(recv.t, q, False)), args, kwargs)
            if a is None:
                ft = self.ftype(recv.cls, name)
                if ft is not None: return self.call(self.read_field(recv, name, ft), args, kwargs)
                self.raise_("AttributeError")
            if isinstance(a, FuncInfo):
                if a.kind == "classmethod": return self.call_func(VFunc(a, None, VClass(recv.cls)), args, kwargs)
                return self.call_func(VFunc(a, None, recv), args, kwargs)
            if isinstance(a, tuple) and a[0] == "class": return self.construct(a[1], args, kwargs)
            raise Unsupported(f"call of class attribute {name}")
        return self.builtin_method(recv, name, args, kwargs)

    def construct(self, ci, args, kwargs):
        ov = self.x.reg.construct(self, ci, args, kwargs)
        if ov is not None: return ov
        if ci.module.short == "builtins":
            if ci.issub(self.prog.classes["BaseException"]):
                return self.alloc(ci)
            return self.builtin(VBI(ci.name), args, kwargs, None)
        r = self.alloc(ci)
        c, init = ci.lookup("__init__")
        if isinstance(init, FuncInfo):
            self.call_func(VFunc(init, None, r), args, kwargs)
            # __init__ may change the class of self
            t = self.tag(r.t)
            if z3.is_int_value(t) and t.as_long() != self.cid(ci.name):
                for q in self.prog.classes.values():
                    if self.prog.ids[q.name] == t.as_long(): r = VRef(r.t, q, True)
        elif args or kwargs:
            if not ci.issub(self.prog.classes["BaseException"]): self.raise_("TypeError")
        return r

    # list helpers
    def list_append(self, lst, v):
        t = self.type_of(v)
        if t is not None and t[0] == "opt" and isinstance(v, VDyn) and self.entails(z3.Not(V.is_none(v.t))): v = self.resolve(v)
        self.push_type(lst, v)
        s = self.seq(lst.t)
        u = unit(self.box(v))
        self.set_seq(lst.t, u if s.eq(EMPTY) else z3.Concat(s, u))

    def list_extend(self, lst, v):
        q, t = self.to_seq(v)
        if lst.site is not None and t is not None: self.join_site(lst.site, t)
        s = self.seq(lst.t)
        if q.eq(EMPTY): return
        self.set_seq(lst.t, q if s.eq(EMPTY) else z3.Concat(s, q))

    def match_text(self, m):
        en = RX_en(m.rx.t, m.s, m.i)
        return z3.SubString(m.s, m.i, en - m.i)

    def builtin(self, fn, args, kwargs, fr):
        f = getattr(self, "bi_" + fn.name.replace("x:", "x_").replace(".", "_"), None)
        if f is None:
            f = getattr(self, "bi_" + fn.name.split(".")[-1].replace("x:", ""), None)
        if f is None: raise Unsupported(f"external function {fn.name}")
        self.x.trusted.add(fn.name)
        return f(fn, args, kwargs)

    def bi_len(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VStr): return VInt(z3.Length(v.t))
        if isinstance(v, VTup): return N(len(v.items))
        if isinstance(v, VDict): return N(len(v.d))
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set"): return VInt(simp(z3.Length(self.seq(v.t))))
        if isinstance(v, VRef) and v.cls.lookup("__len__")[1] is not None: return self.call_method(v, "__len__", [], {})
        if isinstance(v, VIter): return VInt(v.n)
        self.raise_("TypeError")

    def bi_isinstance(self, fn, args, kw):
        v = self.resolve(args[0])
        c = self.resolve(args[1])
        cs = c.items if isinstance(c, VTup) else [c]
        if any(isinstance(q, VBI) and q.name == "type" for q in cs):
            if isinstance(v, (VTag, VClass)): return B(True)
            cs = [q for q in cs if not (isinstance(q, VBI) and q.name == "type")]
        if any(self.abc_case(q, v) for q in cs): return B(True)
        cs = [q for q in cs if self.abc_case(q, v) is None]
        cs = [q for q in cs if not self.never(q)]
        if not cs: return B(False)
        return VBool(z3.Or([self.isinst(v, self.class_of(q)) for q in cs]))

    def bi_issubclass(self, fn, args, kw):
        a, b = args[0], self.class_of(args[1])
        if isinstance(a, VClass): return B(a.ci.issub(b))
        if isinstance(a, VTag): return VBool(self.sub(a.t, b))
        raise Unsupported("issubclass")

    def bi_type(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VRef): return VClass(v.cls) if v.exact else VTag(self.tag(v.t), v.cls)
        return VOpaque("type")

    def bi_min(self, fn, args, kw): return self._mm(args, True)
    def bi_max(self, fn, args, kw): return self._mm(args, False)
    def _mm(self, args, is_min):
        if len(args) == 1: 
            v = self.to_iter(args[0])
            if isinstance(v, VTup): args = v.items
            else: raise Unsupported("min/max of a collection")
        r = self.int_(args[0])
        for a in args[1:]:
            t = self.int_(a)
            r = z3.If(t < r, t, r) if is_min else z3.If(t > r, t, r)
        return VInt(r)

    def bi_list(self, fn, args, kw):
        if not args: return self.new_list(EMPTY, site=("list()", tuple(self.callstack)))
        s, t = self.to_seq(args[0])
        return self.new_list(s, elem=t or ("dyn",))
    def bi_tuple(self, fn, args, kw):
        if not args: return VTup([])
        v = self.resolve(args[0])
        if isinstance(v, VTup): return v
        s, t = self.to_seq(v)
        return self.new_list(s, elem=t or ("dyn",), cls="tuple")
    def bi_set(self, fn, args, kw):
        if not args: return self.new_list(EMPTY, site=("set()", tuple(self.callstack)), cls="set")
        v = self.resolve(args[0])
        s, t = self.to_seq(v)
        # a set is only used through membership: same elements
        return self.new_list(s, elem=t or ("dyn",), cls="set")
    def bi_dict(self, fn, args, kw):
        d = VDict({})
        if args:
            v = self.resolve(args[0])
            if isinstance(v, VDict): d.d.update(v.d)
            else: raise Unsupported("dict()")
        d.d.update(kw)
        return d
    def bi_OrderedDict(self, fn, args, kw):
        if self.con.dicts and not args: return self.new_list(EMPTY, elem=("str",))
        if not args: return VDict({})
        raise Unsupported("OrderedDict(...)")
    def bi_str(self, fn, args, kw):
        if not args: return S("")
        v = self.resolve(args[0])
        if isinstance(v, VStr): return v
        if isinstance(v, VRef) and (v.exact or v.cls.name != "object"): return VStr(self.fresh(Str, "str"))
        try: return VStr(z3.Function("TEXT", V, Str)(self.box(v)))
        except Unsupported: return VStr(self.fresh(Str, "str"))
    bi_text = bi_str
    bi_repr = bi_str
    def bi_int(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, (VInt,)): return v
        if isinstance(v, VBool): return VInt(self.int_(v))
        raise Unsupported("int()")
    def bi_bool(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VBool): return v
        return B(self.truth(v))
    def bi_id(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VRef): return VInt(v.t)
        return VInt(self.fresh(Int, "id"))
    def bi_print(self, fn, args, kw): return NONE
    def bi_hasattr(self, fn, args, kw): return VBool(self.fresh(Bool, "hasattr"))
    def bi_getattr(self, fn, args, kw): return VOpaque("getattr")
    def bi_iter(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VRef) and v.cls.name not in ("list", "tuple", "set"): return self.call_method(v, "__iter__", [], {})
        return v
    def bi_range(self, fn, args, kw):
        a = [self.int_(q) for q in args]
        lo, hi = (I(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3: raise Unsupported("range step")
        n = simp(z3.If(hi > lo, hi - lo, I(0)))
        return VIter(n, lambda k: VInt(simp(lo + k)))
    def bi_enumerate(self, fn, args, kw):
        st = kw.get("start") or (args[1] if len(args) > 1 else N(0))
        it = self.to_iter(args[0])
        s0 = self.int_(st)
        if isinstance(it, VTup): return VTup([VTup([VInt(simp(s0 + i)), v]) for i, v in enumerate(it.items)])
        return VIter(it.n, lambda k: VTup([VInt(simp(s0 + k)), it.at(k)]), it.srcs)
    def bi_zip(self, fn, args, kw):
        its = [self.to_iter(a) for a in args]
        if all(isinstance(i, VTup) for i in its): return VTup([VTup(list(t)) for t in zip(*[i.items for i in its])])
        its = [self.to_iter(self.materialize(i)) if isinstance(i, VTup) else i for i in its]
        n = its[0].n
        for i in its[1:]:
            if not i.n.eq(n): n = z3.If(i.n < n, i.n, n)
        return VIter(simp(n), lambda k: VTup([i.at(k) for i in its]), [s for i in its for s in i.srcs])
    def bi_map(self, fn, args, kw):
        f = args[0]
        it = self.to_iter(args[1])
        if isinstance(it, VTup): return VTup([self.call(f, [v], {}) for v in it.items])
        return self.x.reg.map_(self, f, it)
    def bi_reversed(self, fn, args, kw): return self.reverse_of(self.resolve(args[0]))
    def bi_sorted(self, fn, args, kw): return self.x.reg.sorted_(self, args, kw)
    def bi_next(self, fn, args, kw): raise Unsupported("next()")
    def bi_ord(self, fn, args, kw):
        v = self.resolve(args[0])
        if not isinstance(v, VStr): self.raise_("TypeError")
        return VInt(z3.StrToCode(v.t))
    def bi_chr(self, fn, args, kw): return VStr(z3.StrFromCode(self.int_(args[0])))
    def bi_callable(self, fn, args, kw): return VBool(self.fresh(Bool, "callable"))
    def bi_object(self, fn, args, kw): return self.alloc(self.prog.classes["object"])
    def bi_object___new__(self, fn, args, kw):
        c = args[0]
        if isinstance(c, VClass): return self.alloc(c.ci)
        if isinstance(c, VTag):
            r = self.alloc(c.bound, exact=False, tag=c.t)
            return r
        raise Unsupported("__new__")
    bi___new__ = bi_object___new__
    def bi_is_text(self, fn, args, kw):
        v = self.resolve(args[0]); return B(isinstance(v, VStr))
    def bi_is_null(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VRef) and v.cls.name == "object": return VBool(z3.Function("IS_NULL", Int, Bool)(v.t))
        return B(isinstance(v, VNone))
    def bi_is_many(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, (VTup, VIter)): return B(True)
        if isinstance(v, VRef):
            if v.cls.name in ("list", "tuple", "set"): return B(True)
            if v.cls.name == "object": return VBool(z3.Function("IS_MANY", Int, Bool)(v.t))
            return VBool(self.isinst(v, self.prog.classes["ParseResults"]))
        return B(False)
    def bi_exists(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VNone): return B(False)
        if isinstance(v, VStr): return VBool(z3.Length(v.t) > 0)
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set"): return VBool(z3.Length(self.seq(v.t)) > 0)
        if isinstance(v, VRef) and v.cls.name == "object":
            pr = self.prog.classes["ParseResults"]
            if self.branch(self.isinst(v, pr)): return self.x.reg.exists_(self, VRef(v.t, pr))
            if self.branch(z3.Or([self.isinst(v, self.prog.classes[q]) for q in ("list", "tuple", "set")])): return VBool(z3.Length(self.seq(v.t)) > 0)
            return VBool(z3.Function("EXISTS", Int, Bool)(v.t))
        return self.x.reg.exists_(self, v)
    def bi_Null(self, fn, args, kw): return NONE
    def bi_first(self, fn, args, kw):
        it = self.to_iter(args[0])
        if isinstance(it, VTup): return it.items[0] if it.items else NONE
        if self.branch(it.n > 0): return it.at(I(0))
        return NONE
    def bi_enlist(self, fn, args, kw):
        v = self.resolve(args[0])
        if isinstance(v, VNone): return self.new_list(EMPTY, elem=("dyn",))
        if isinstance(v, VRef) and v.cls.name in ("list", "tuple", "set") or isinstance(v, VIter): return self.materialize(v) if isinstance(v, VIter) else v
        if isinstance(v, VTup): return self.new_list(z3.Concat([unit(self.box(i)) for i in v.items]) if len(v.items) > 1 else unit(self.box(v.items[0])) if v.items else EMPTY, elem=("dyn",))
        if isinstance(v, (VStr, VInt, VBool)): return self.new_list(unit(self.box(v)), elem=("dyn",))
        raise Unsupported("enlist")
    def bi_itemgetter(self, fn, args, kw): return VBI("itemgetter:" + str(self.static_key(args[0])))
    def bi_x_re_compile(self, fn, args, kw):
        r = self.alloc(self.prog.classes["RegexObj"])
        a = self.resolve(args[0])
        if isinstance(a, VStr): self.assume(z3.Function("RX_pattern", Int, Str)(r.t) == a.t)
        flags = [self.resolve(q) for q in list(args[1:]) + list(kw.values())]
        self.assume(z3.Function("RX_dotall", Int, Bool)(r.t) == (len(flags) == 1 and isinstance(flags[0], VBI) and flags[0].name.endswith("re.DOTALL")))
        return r
    def bi_x_re_escape(self, fn, args, kw):
        return VStr(z3.Function("RE_ESCAPE", Str, Str)(self.resolve(args[0]).t))
    def bi_x_json_dumps(self, fn, args, kw): return VStr(self.fresh(Str, "json"))
    def bi_x_sys__getframe(self, fn, args, kw): return VOpaque("frame")
    def bi_sort_using_cmp(self, fn, args, kw): return self.x.reg.sort_cmp(self, args, kw)
    def bi___new__(self, fn, args, kw):
        c = self.resolve(args[0])
        if isinstance(c, VTag): return self.alloc(c.bound, exact=False, tag=c.t)
        if isinstance(c, VClass): return self.alloc(c.ci)
        raise Unsupported("__new__ of something else")
    def bi_NotImplemented(self, fn, args, kw): self.raise_("TypeError")      # not callable
    def bi_open(self, fn, args, kw): return self.x.reg.open_file(self, args, kw)
    def bi_error(self, fn, args, kw): self.raise_("MoLogsExcept")
    def bi_warning(self, fn, args, kw): return NONE
    def bi_note(self, fn, args, kw): return NONE
    def bi_warn(self, fn, args, kw): return NONE
    def bi_register(self, fn, args, kw): return NONE
    def bi_object___init__(self, fn, args, kw): return NONE

    def builtin_method(self, recv, name, args, kw):
        self.x.trusted.add(f"{type(recv).__name__[1:].lower() if not isinstance(recv, VRef) else recv.cls.name}.{name}")
        if isinstance(recv, VStr): return self.str_method(recv, name, args, kw)
        if isinstance(recv, VMatch):
            if name == "end": return VInt(RX_en(recv.rx.t, recv.s, recv.i))
            if name == "start": return VInt(recv.i)
            if name == "group": 
                if not args or (isinstance(args[0], VInt) and z3.is_int_value(simp(args[0].t)) and simp(args[0].t).as_long() == 0):
                    return VStr(self.match_text(recv))
                return VDyn(self.fresh(V, "group"), ("opt", ("str",)))
            if name == "__getitem__": return VStr(self.match_text(recv))
            if name == "span": return VTup([VInt(recv.i), VInt(RX_en(recv.rx.t, recv.s, recv.i))])
            if name == "expand" and len(args) == 1: return VStr(z3.Function("RX_expand", Int, Str, Int, Str, Str)(recv.rx.t, recv.s, recv.i, self.native(self.resolve(args[0]), ("str",))))
            raise Unsupported("match." + name)
        if isinstance(recv, VDict):
            if name == "items": return VTup([VTup([S(k) if isinstance(k, str) else N(k), v]) for k, v in recv.d.items()])
            if name == "keys": return VTup([S(k) for k in recv.d])
            if name == "values": return VTup(list(recv.d.values()))
            if name == "get":
                k = self.static_key(self.resolve(args[0]))
                return recv.d.get(k, args[1] if len(args) > 1 else NONE)
            if name in ("update", "setdefault", "pop"):
                if self.active_loops: raise Unsupported("dictionary changed in a loop")
                if name == "update":
                    for a in args: recv.d.update(self.resolve(a).d)
                    recv.d.update(kw); return NONE
                k = self.static_key(self.resolve(args[0]))
                if name == "setdefault": return recv.d.setdefault(k, args[1])
                return recv.d.pop(k, args[1] if len(args) > 1 else NONE)
            raise Unsupported("dict." + name)
        if isinstance(recv, VIter): recv = self.materialize(recv)
        if isinstance(recv, VTup):
            if name == "index" or name == "count": raise Unsupported("tuple." + name)
            raise Unsupported("tuple." + name)
        if isinstance(recv, VRef) and recv.cls.name == "RegexObj": return self.regex_method(recv, name, args, kw)
        if isinstance(recv, VRef) and recv.cls.name in ("list", "tuple", "set"): return self.list_method(recv, name, args, kw)
        if isinstance(recv, VRef) and recv.cls.name == "Config":
            f = self.read_cfg(recv, name)
            return self.call(f, args, kw)
        if isinstance(recv, VOpaque): return self.x.reg.call_opaque(self, VOpaque(recv.what + "." + name), args, kw)
        if isinstance(recv, (VInt, VBool)): self.raise_("AttributeError")
        raise Unsupported(f"method {name} of {recv!r}")

    def regex_method(self, recv, name, args, kw):
        if name in ("match", "search", "fullmatch"):
            s = self.resolve(args[0])
            if not isinstance(s, VStr): self.raise_("TypeError")
            i = self.int_(args[1]) if len(args) > 1 else I(0)
            i = simp(i)
            if name == "match":
                if self.branch(RX_ok(recv.t, s.t, i)):
                    en = RX_en(recv.t, s.t, i)
                    n = z3.Length(s.t)
                    cl = z3.If(i < 0, I(0), z3.If(i > n, n, i))
                    self.assume(z3.And(cl <= en, en <= n))
                    return VMatch(recv, s.t, i)
                return NONE
            ok = z3.Function("RX_" + name, Int, Str, Int, Bool)(recv.t, s.t, i)
            if self.branch(ok): return VOpaque("match")
            return NONE
        if name == "pattern": return VStr(self.fresh(Str, "pattern"))
        if name == "sub": return VStr(self.fresh(Str, "sub"))
        raise Unsupported("regex." + name)

    def list_method(self, recv, name, args, kw):
        t = recv.t
        if self.con.dicts:
            if name == "keys": return recv
            if name == "values": return self.new_list(self.fresh(SeqV, "values"), elem=("dyn",))
            if name == "items":
                q = self.seq(t)
                r = VIter(z3.Length(q), lambda k, q=q: VTup([self.typed(self.elem_fact(q, k), ("str",)), VOpaque("alternatives")]), [recv])
                r.whole = (q, ("str",))
                return r
            if name == "setdefault": self.list_append(recv, self.resolve(args[0])); return VOpaque("alternatives")
        if name in ("append", "add"): self.list_append(recv, args[0]); return NONE
        if name in ("extend", "update"): self.list_extend(recv, args[0]); return NONE
        s = self.seq(t); n = z3.Length(s)
        if name == "pop":
            if args:
                i = simp(py_index(self.int_(args[0]), n))
            else: i = n - 1
            if not self.branch(z3.And(n > 0, 0 <= i, i < n)): self.raise_("IndexError")
            v = s[i]
            if args: self.set_seq(t, z3.Concat(z3.SubSeq(s, I(0), i), z3.SubSeq(s, i + 1, n - i - 1)))
            else: self.set_seq(t, self.drop_last(s))
            return self.typed(simp(v), self.elem_type(recv) or ("dyn",))
        if name == "insert":
            i = self.int_(args[0]); i = clamp(i, n)
            self.push_type(recv, args[1])
            self.set_seq(t, z3.Concat(z3.SubSeq(s, I(0), i), unit(self.box(args[1])), z3.SubSeq(s, i, n - i)))
            return NONE
        if name == "clear": self.set_seq(t, EMPTY); return NONE
        if name == "copy": return self.new_list(s, elem=self.elem_type(recv) or ("dyn",))
        if name == "sort":
            self.x.reg.sort_list(self, recv, args, kw); return NONE
        if name == "reverse":
            r = self.reverse_of(recv); self.set_seq(t, self.seq(r.t)); return NONE
        if name == "index":
            b = self.box(args[0])
            i = z3.IndexOf(s, unit(b), I(0))
            if not self.branch(i >= 0): self.raise_("ValueError")
            return VInt(i)
        raise Unsupported("list." + name)

    def drop_last(self, s):
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            last = s.arg(s.num_args() - 1)
            if z3.is_app(last) and last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                rest = [s.arg(i) for i in range(s.num_args() - 1)]
                return rest[0] if len(rest) == 1 else z3.Concat(*rest)
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT: return EMPTY
        return z3.SubSeq(s, I(0), z3.Length(s) - 1)

    def str_method(self, recv, name, args, kw):
        if not hasattr(str, name): self.raise_("AttributeError")
        s = recv.t; n = z3.Length(s)
        a = [self.resolve(q) if not isinstance(q, tuple) else q for q in args]
        if name == "startswith":
            m = a[0]
            if not isinstance(m, VStr): raise Unsupported("startswith")
            if len(a) == 1: return VBool(z3.PrefixOf(m.t, s))
            i = self.int_(a[1])
            i = z3.If(i < 0, z3.If(i + n < 0, I(0), i + n), i)
            # "".startswith beyond the end is False
            return VBool(z3.And(i <= n, z3.SubString(s, i, z3.Length(m.t)) == m.t))
        if name == "endswith": return VBool(z3.SuffixOf(a[0].t, s))
        if name == "join":
            items = self.resolve(args[0])
            if isinstance(items, VTup) and z3.is_string_value(s):      # definition of join for a list written out
                parts = [self.resolve(q) for q in items.items]
                if parts and all(isinstance(q, VStr) for q in parts):
                    seq = [x for q in parts for x in ([s] if s.as_string() else []) + [q.t]][1 if s.as_string() else 0:]
                    return VStr(seq[0] if len(seq) == 1 else z3.Concat(*seq))
            q, t = self.to_seq(args[0])
            return VStr(z3.Function("JOIN", Str, SeqV, Str)(s, q))
        if name in ("rfind", "find", "count"):
            lo = self.int_(a[1]) if len(a) > 1 else I(0)
            hi = self.int_(a[2]) if len(a) > 2 else n
            return self.x.reg.str_search(self, name, s, a[0].t, simp(lo), simp(hi))
        if name in ("lower", "upper", "strip", "rstrip", "lstrip", "format", "replace", "title", "expandtabs"):
            f = z3.Function("STR_" + name, Str, *( [Str] * len([q for q in a if isinstance(q, VStr)]) ), Str)
            return VStr(f(s, *[q.t for q in a if isinstance(q, VStr)]))
        if name == "isascii": return VBool(z3.Function("STR_isascii", Str, Bool)(s))
        if name in ("split", "splitlines"):
            q = self.fresh(SeqV, "split")
            return self.new_list(q, elem=("str",))
        raise Unsupported("str." + name)


BUILTINS = {"open", "len", "isinstance", "issubclass", "type", "min", "max", "sum", "any", "all", "list", "tuple", "dict", "set", "zip", "enumerate", "range",
            "iter", "next", "map", "sorted", "str", "text", "repr", "int", "bool", "id", "getattr", "hasattr", "print", "super", "ord", "chr", "object",
            "reversed", "is_text", "is_null", "is_many", "exists", "first", "OrderedDict", "itemgetter", "callable", "sort_using_cmp", "abs", "float",
            "frozenset", "slice", "filter", "open", "NotImplemented", "globals"}
