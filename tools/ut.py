"""run the repository's stable tests in the current directory; exit 1 at the first one that fails"""
import json, os, sys, unittest
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
class R(unittest.TextTestResult):
    ok = 0
    def addSuccess(self, t):
        super().addSuccess(t)
        if t.id() in stable: R.ok += 1
    def bad(self, t):
        if t.id() in stable: os._exit(1)
    def addError(self, t, e): self.bad(t); super().addError(t, e)
    def addFailure(self, t, e): self.bad(t); super().addFailure(t, e)
    def addSubTest(self, t, s, e):
        super().addSubTest(t, s, e)
        if e is not None: self.bad(t)
    addUnexpectedSuccess = bad
p = unittest.main(module=None, argv=["x", "discover", "."], testRunner=unittest.TextTestRunner(resultclass=R, verbosity=0, stream=open(os.devnull, "w")), exit=False)
os._exit(0 if R.ok == len(stable) else 1)
