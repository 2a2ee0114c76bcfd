"""every contract, in parallel: python3-vt tools/all_contracts.py [substr...]  (prints what is not discharged, and the slowest)"""
import multiprocessing as mp, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.load import load
from pyvc.exec import Verifier

def one(q):
    prog, reg = load()
    t = time.time()
    v = Verifier(prog, reg, reg.contracts[q])
    obl = v.run()
    return q, len(obl), [(o.name, o.status, o.line, o.detail[:300]) for o in obl if o.status != "ok"], time.time() - t

if __name__ == "__main__":
    n = int(os.environ.get("JOBS", "8"))
    prog, reg = load()
    qs = [q for q in reg.contracts if not sys.argv[1:] or any(x in q for x in sys.argv[1:])]
    with mp.Pool(n, maxtasksperchild=1) as pool:
        out, total = [], 0
        for q, k, bad, s in pool.imap_unordered(one, qs, chunksize=1):
            out.append((s, q)); total += k
            for b in bad: print("BAD", q, *[str(x)[:200] for x in b], flush=True)
    print(len(qs), "functions", total, "obligations; slowest", [(round(s), q) for s, q in sorted(out, reverse=True)[:12]])
