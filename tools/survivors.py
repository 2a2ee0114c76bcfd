"""
development tool: which of the surviving mutants do the checks catch?
  survivors.py IN.jsonl OUT.jsonl WORKERS [BUDGET]    one line per mutant: what caught it (harness or contract), or nothing
"""
import json, os, shutil, subprocess, sys, difflib
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
inp, out, workers = sys.argv[1], sys.argv[2], int(sys.argv[3])
budget = sys.argv[4] if len(sys.argv) > 4 else "15"
PROPS = [f"C{i:02d}" for i in range(1, 29)]
MODS = {"core.py": ["core."], "results.py": ["results."], "enhancement.py": ["enhancement."], "expressions.py": ["expressions."], "tokens.py": ["tokens."], "debug.py": ["debug."], "utils.py": ["utils."], "whitespaces.py": ["whitespaces."], "exceptions.py": ["exceptions."], "regex.py": ["regex."], "helpers.py": ["helpers."], "infix.py": ["infix."]}
FIRST = {"core.py": "C11 C12 C13 C14 C21 C22 C24", "results.py": "C15 C16 C17", "enhancement.py": "C05 C07 C08 C24 C27 C25", "expressions.py": "C02 C03 C04 C06 C22", "tokens.py": "C09 C10", "debug.py": "C28", "utils.py": "C11 C10", "whitespaces.py": "C19 C20", "exceptions.py": "C18", "regex.py": "C26 C10", "helpers.py": "C25 C23", "infix.py": "C23"}
KNOWN = [json.JSONDecoder().raw_decode(l[l.index("{"):])[0] for l in open("/verif/known_findings.txt") if l.startswith("known:")]
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["why"], d["diff"]))
q = Queue()
for w in range(workers):
    d = f"/tmp/w/sv/{w}"
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    q.put(d)
fo = open(out, "a")
def one(m):
    d = q.get(); f = m["file"]
    p = f"{d}/mo_parsing/{f}"; old = open(p).read()
    diff = "".join(x for x in difflib.unified_diff(old.splitlines(True), m["text"].splitlines(True), n=0) if x[0] in "+-" and x[:3] not in ("+++", "---"))
    if (f, m["line"], m["why"], diff) in done: q.put(d); return
    open(p, "w").write(m["text"])
    env = dict(os.environ, PYVC_REPO=d, PYTHONDONTWRITEBYTECODE="1")
    caught = []
    try:
        order = FIRST.get(f, "").split(); order += [x for x in PROPS if x not in order]
        for x in order:
            try: r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "/verif/harness/run.py", x, "quick", "1000", budget], cwd="/tmp", env=env, capture_output=True, text=True, timeout=150)
            except subprocess.TimeoutExpired: caught.append(x + ":timeout"); break
            if "@@RESULT " not in r.stdout: caught.append(x + ":crash " + r.stderr[-200:]); break
            v = json.loads(r.stdout.split("@@RESULT ")[1])["violations"]
            v = [q for q in v if not any(q["case"] == k["case"] and q["args"] == k["args"] for k in KNOWN)]
            if v: caught.append(x + ": " + v[0]["message"][:160]); break
        try: r = subprocess.run(["python3-vt", "-m", "pyvc.run1"] + [MODS[f][0] + m["fn"]], cwd="/verif", env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired: r = None; caught.append("contracts:timeout")
        if r is not None:
            bad = [l.split()[1][:-1] for l in r.stdout.splitlines() if l.startswith("BAD")]
            if bad: caught.append("contracts: " + " ".join(bad))
            if r.returncode: caught.append("contracts:crash " + r.stderr[-200:])
    finally:
        open(p, "w").write(old); q.put(d)
    fo.write(json.dumps({"file": f, "line": m["line"], "why": m["why"], "fn": m["fn"], "diff": diff, "caught": caught}) + "\n"); fo.flush()
import ast
SKIP = {"__str__", "__repr__", "message", "best_message", "mark_inputline", "__data__", "__dir__", "quote", "indent", "_generateDefaultName", "show_best_parse_error", "_try", "match", "fail", "_try_debug", "print_stack"}
def enclosing(m):
    best = None
    def walk(n, path):
        nonlocal best
        for k in ast.iter_child_nodes(n):
            if isinstance(k, (ast.FunctionDef, ast.ClassDef)):
                if k.lineno <= m["line"] <= k.end_lineno:
                    if isinstance(k, ast.FunctionDef) and not best: best = path + [k.name]
                    walk(k, path + [k.name])
            else: walk(k, path)
    walk(ast.parse(open("/repo/mo_parsing/" + m["file"]).read()), [])
    return best
def wanted(m):
    q = enclosing(m)
    m["fn"] = ".".join(q or [])
    return not (q and q[-1] in SKIP)
todo = [m for m in (json.loads(l) for l in open(inp)) if wanted(m)]
print(len(todo), flush=True)
with ThreadPoolExecutor(workers) as ex: list(ex.map(one, todo))
