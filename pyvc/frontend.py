"""Front end: reads the real sources, builds class table and name resolution.

Nothing is rewritten: functions are handed to the executor as the ast nodes the
Python parser produced from /repo.  Dropped by extraction: comments, docstrings,
decorators other than @property/@entrypoint/@classmethod (reported), type
annotations.
"""
import ast, os, hashlib

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "mo_parsing"

class FuncInfo:
    def __init__(self, node, module, cls=None, kind="method"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name
        self.qual = f"{module.short}.{cls.name + '.' if cls else ''}{node.name}"
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
    def __repr__(self): return f"<fn {self.qual}>"

def walk_own(fn):
    """nodes of fn, not of nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)
            elif isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                yield c

class ClassInfo:
    def __init__(self, name, module, node=None, bases=()):
        self.name, self.module, self.node = name, module, node
        self.base_nodes = bases
        self.bases = []
        self.attrs = {}      # name -> FuncInfo | ('const', expr) 
        self.props = {}      # property name -> FuncInfo
        self.subs = []
    @property
    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro:
                if c not in out: out.append(c)
        return out
    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs: return c, c.attrs[name]
        return None, None
    def issub(self, other): return other in self.mro
    def all_subs(self):
        out = [self]
        for s in self.subs:
            for x in s.all_subs():
                if x not in out: out.append(x)
        return out
    def __repr__(self): return f"<class {self.name}>"

class ModuleInfo:
    def __init__(self, short, path):
        self.short, self.path = short, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.names = {}   # name -> ('class',ci)|('func',fi)|('const',expr)|('import',mod,name)|('extern',dotted)|('module',short)|('expect',name)
        self.stars = []

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "AttributeError": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "UnboundLocalError": "Exception",
    "StopIteration": "Exception", "MoLogsExcept": "Exception", "OSError": "Exception", "RecursionError": "RuntimeError",
    "AssertionError": "Exception",
}

class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        d = os.path.join(repo, PKG)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and f != "__init__.py":
                m = ModuleInfo(f[:-3], os.path.join(d, f))
                self.modules[m.short] = m
        bm = type("M", (), {"short": "builtins", "names": {}, "stars": []})()
        self.builtins = bm
        for n in ["object", "list", "tuple", "dict", "str", "int", "bool", "set", "RegexObj", "Config", "Callable", "MatchObj", "Namespace", "float", "slice"]:
            self.classes[n] = ClassInfo(n, bm)
        for n, b in BUILTIN_EXC.items():
            c = ClassInfo(n, bm)
            c.bases = [self.classes[b]] if b else [self.classes["object"]]
            if b: self.classes[b].subs.append(c)
            self.classes[n] = c
        for m in self.modules.values(): self._scan(m)
        for c in list(self.classes.values()):
            for b in c.base_nodes:
                r = self.resolve_expr_class(b, c.module)
                if r:
                    c.bases.append(r); r.subs.append(c)
            if not c.bases and c.name != "object": c.bases.append(self.classes["object"])
            for b in c.bases:
                if c not in b.subs: b.subs.append(c)
        self.ids = {c.name: i + 1 for i, c in enumerate(self.classes.values())}

    def _scan(self, m):
        def body(stmts):
            for n in stmts:
                if isinstance(n, ast.FunctionDef):
                    m.names[n.name] = ("func", FuncInfo(n, m, None, "func"))
                elif isinstance(n, ast.ClassDef):
                    m.names[n.name] = ("class", self._class(n, m))
                elif isinstance(n, ast.Assign):
                    for t in n.targets: self._assign(m, t, n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    m.names[n.target.id] = ("const", n.value)
                elif isinstance(n, ast.ImportFrom):
                    mod = n.module or ""
                    for a in n.names:
                        if mod == PKG: m.names[a.asname or a.name] = ("module", a.name) if a.name in self.modules or os.path.exists(os.path.join(self.repo, PKG, a.name + ".py")) else ("import", "__init__", a.name)
                        elif mod.startswith(PKG + "."):
                            if a.name == "*": m.stars.append(mod.split(".", 1)[1])
                            else: m.names[a.asname or a.name] = ("import", mod.split(".", 1)[1], a.name)
                        else: m.names[a.asname or a.name] = ("extern", f"{mod}.{a.name}")
                elif isinstance(n, ast.Import):
                    for a in n.names: m.names[a.asname or a.name] = ("extern", a.name)
                elif isinstance(n, ast.Try):
                    body(n.body)
                    # `from mo_logs import Log` with local fall back: the installed library is used
                elif isinstance(n, ast.With): body(n.body)
                elif isinstance(n, ast.If): body(n.body)
        body(m.tree.body)

    def _assign(self, m, t, v):
        if isinstance(t, ast.Tuple):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "expect":
                for e in t.elts: m.names[e.id] = ("expect", e.id)
            return
        if isinstance(t, ast.Name):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("expect",):
                m.names[t.id] = ("expect", t.id)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "delay_import":
                m.names[t.id] = ("expect", t.id)
            else:
                m.names[t.id] = ("const", v)

    def _class(self, n, m):
        c = ClassInfo(n.name, m, n, n.bases)
        if n.name not in self.classes or m.short != "utils": self.classes.setdefault(n.name, c)
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                decs = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "?") for d in s.decorator_list]
                kind = "property" if "property" in decs else ("setter" if "setter" in decs else ("classmethod" if "classmethod" in decs else "method"))
                fi = FuncInfo(s, m, c, kind)
                fi.decorators = decs
                if kind == "setter": continue
                c.attrs[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in c.attrs: c.attrs[t.id] = c.attrs[s.value.id]
                        else: c.attrs[t.id] = ("const", s.value)
            elif isinstance(s, ast.ClassDef):
                ci = self._class(s, m)
                c.attrs[s.name] = ("class", ci)
        return c

    def resolve_expr_class(self, b, module):
        if isinstance(b, ast.Name):
            r = self.resolve(module, b.id)
            if r and r[0] == "class": return r[1]
            return self.classes.get(b.id)
        return None

    def resolve(self, module, name, seen=()):
        if name in module.names:
            r = module.names[name]
            if r[0] == "import":
                if r[1] == "__init__" or r[1] not in self.modules: return self._anywhere(r[2])
                if (r[1], r[2]) in seen: return None
                if r[2] in self.modules[r[1]].names or self.modules[r[1]].stars:
                    x = self.resolve(self.modules[r[1]], r[2], seen + ((r[1], r[2]),))
                    if x: return x
                return self._anywhere(r[2])
            if r[0] == "expect": return self._anywhere(r[1], exclude=module)
            if r[0] == "const": return ("const", r[1], module, name)
            return r
        for s in module.stars:
            x = self.resolve(self.modules[s], name, seen)
            if x: return x
        if name in BUILTIN_EXC: return ("class", self.classes[name])
        return None

    def _anywhere(self, name, exclude=None):
        if name == "regex_parameters": name = "parameters"
        for m in self.modules.values():
            r = m.names.get(name)
            if r and r[0] in ("class", "func"): return r
        for m in self.modules.values():
            r = m.names.get(name)
            if r and r[0] == "const": return ("const", r[1], m, name)
        return None

    def func(self, qual):
        """'enhancement.Many.parse_impl' or 'utils.col' or 'utils.wrap_parse_action.<wrapper>'"""
        parts = qual.split(".")
        m = self.modules.get(parts[0])
        if not m: return None
        r = m.names.get(parts[1])
        if not r: return None
        if r[0] == "func":
            f = r[1]
            for p in parts[2:]:
                inner = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n.name == p and n is not f.node]
                if not inner: return None
                nf = FuncInfo(inner[0], m, None, "func"); nf.qual = f.qual + "." + p; nf.outer = f
                f = nf
            return f
        if r[0] == "class":
            c = r[1]
            a = c.attrs.get(parts[2]) if len(parts) > 2 else None
            if isinstance(a, tuple) and a[0] == "class": 
                c = a[1]; a = c.attrs.get(parts[3]); parts = parts[1:]
            if not isinstance(a, FuncInfo): return None
            f = a
            for p in parts[3:]:
                inner = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n.name == p and n is not f.node]
                if not inner: return None
                nf = FuncInfo(inner[0], m, f.cls, "func"); nf.qual = f.qual + "." + p; nf.outer = f
                f = nf
            return f
        return None
