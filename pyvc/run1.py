import sys, time
from .load import load
from .exec import Verifier
def main():
    prog, reg = load()
    pats = sys.argv[1:]
    for q, c in reg.contracts.items():
        if pats and not any(x in q for x in pats): continue
        t = time.time()
        v = Verifier(prog, reg, c)
        obl = v.run()
        bad = [o for o in obl if o.status != "ok"]
        print(f"{'OK ' if not bad else 'BAD'} {q}: {len(obl)} obligations, {v.paths} paths, {v.queries} queries, {time.time()-t:.1f}s")
        for o in bad:
            print("    ", o.status, o.name, "line", o.line, o.detail[:600])
            if o.model and "-m" in sys.argv: print("        ", {k: w for k, w in list(o.model.items())[:25]})
if __name__ == "__main__": main()
