"""run.py <property> <tier> <seed> <budget seconds>   |   run.py --replay <file>"""
import importlib, json, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main(argv):
    if argv[0] == "--replay":
        data = json.load(open(argv[1]))
        mod = importlib.import_module(data["property"].lower())
        h = lib.H(data["property"], "replay", 0, 60)
        for v in data.get("failing_inputs", []):
            msg = h.run(lib.CASES[v["case"]], *v["args"])
            print(v["case"], json.dumps(v["args"]))
            print("  ->", msg or "holds")
        return 0
    prop, tier, seed, budget = argv[0], argv[1], argv[2], float(argv[3])
    t0 = time.time()
    h = lib.H(prop, tier, seed, budget)
    mod = importlib.import_module(prop.lower())
    h.rule = getattr(mod, "RULE", "")
    mod.main(h)
    # the recorded findings are looked at again on every run
    found, h.violations = h.violations, []
    for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")):
        if line.startswith("known: property=%s " % prop):
            k, _ = json.JSONDecoder().raw_decode(line[line.index("{"):])
            h.run(lib.CASES[k["case"]], *k["args"])
    h.violations += found
    print("\n@@RESULT " + json.dumps({
        "property": prop, "evaluations": h.evaluations, "distinct": len(h.distinct),
        "cases": h.cases, "samples": h.samples[:12], "rule": h.rule,
        "violations": h.violations, "secs": time.time() - t0,
    }, default=repr))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
