"""
development tool: which small changes of the source survive the repository's tests?
  mutate.py tests OUT.jsonl WORKERS FILE...   survivors of the stable tests (one JSON line each)
"""
import ast, json, os, shutil, subprocess, sys, random
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
SRC = "/repo"
SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
def mutants(path):
    src = open(path).read(); tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    def rep(n, new, why):
        x, y = span(n)
        out.append((n.lineno, why, (b[:x] + new.encode() + b[y:]).decode()))
    seg = lambda n: b[span(n)[0]:span(n)[1]].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)): continue
        for n in ast.walk(fn):
            if n in doc: continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in SWAP.get(type(n.ops[0]), []):
                    rep(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", f"compare {o}")
            elif isinstance(n, ast.BoolOp):
                for k in range(len(n.values)):
                    o = " and " if isinstance(n.op, ast.And) else " or "
                    vs = [seg(v) for i, v in enumerate(n.values) if i != k]
                    rep(n, "(" + o.join(vs) + ")", f"drop operand {k}")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, "(" + seg(n.operand) + ")", "drop not")
            elif isinstance(n, ast.Constant) and type(n.value) is bool: rep(n, repr(not n.value), "flip bool")
            elif isinstance(n, ast.Constant) and type(n.value) is int: rep(n, repr(n.value + 1), "const + 1")
            elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub):
                rep(n, f"{seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)}", "swap + -")
                rep(n, f"{seg(n.left)}", "drop right operand")
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                rep(n.test, "True", "test true"); rep(n.test, "False", "test false")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) : rep(n, "pass", "drop statement")
            elif isinstance(n, ast.Raise): rep(n, "pass", "drop raise")
            elif isinstance(n, ast.Break): rep(n, "continue", "break to continue")
            elif isinstance(n, ast.Continue): rep(n, "break", "continue to break"); rep(n, "pass", "drop continue")
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        c = [seg(a) for a in n.args] + [(f"{q.arg}={seg(q.value)}" if q.arg else "**" + seg(q.value)) for q in n.keywords if q is not k]
                        rep(n, f"{seg(n.func)}({', '.join(c)})", f"drop keyword {k.arg}")
                if len(n.args) >= 2 and not n.keywords:
                    c = [seg(a) for a in n.args]; c[0], c[1] = c[1], c[0]
                    rep(n, f"{seg(n.func)}({', '.join(c)})", "swap arguments")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                if n.slice.lower is not None: rep(n, f"{seg(n.value)}[:{seg(n.slice.upper) if n.slice.upper else ''}]", "drop lower")
                if n.slice.upper is not None: rep(n, f"{seg(n.value)}[{seg(n.slice.lower) if n.slice.lower else ''}:]", "drop upper")
    seen, res = set(), []
    for ln, why, t in out:
        if t in seen or t == src: continue
        seen.add(t)
        try: compile(t, path, "exec")
        except SyntaxError: continue
        res.append((ln, why, t))
    return res
def main():
    out, workers, files = sys.argv[2], int(sys.argv[3]), sys.argv[4:]
    q = Queue()
    for w in range(workers):
        d = f"/tmp/w/mu/{w}"
        if os.path.exists(d): shutil.rmtree(d)
        shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        q.put(d)
    todo = [(f, ln, why, t) for f in files for ln, why, t in mutants(f"{SRC}/mo_parsing/{f}")]
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    fo = open(out, "a"); cnt = [0, 0]
    def one(m):
        f, ln, why, t = m
        d = q.get()
        try:
            p = f"{d}/mo_parsing/{f}"; old = open(p).read(); open(p, "w").write(t)
            try:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CI="true")
                rc = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "/verif/tools/ut.py"], cwd=d, env=dict(env, PYTHONPATH=d), timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired: rc = 1
            finally: open(p, "w").write(old)
        finally: q.put(d)
        cnt[0] += 1
        if rc == 0:
            cnt[1] += 1
            fo.write(json.dumps({"file": f, "line": ln, "why": why, "text": t}) + "\n"); fo.flush()
        if cnt[0] % 100 == 0: print(cnt, flush=True)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(one, todo))
    print("done", cnt)
main()
