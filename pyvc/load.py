import importlib
from . import frontend
from .registry import Registry
MODULES = ["base", "tokens", "structure", "core", "entry", "results", "spaces", "failures", "actions", "lengths", "builders", "recursion", "replace", "collected", "dicts", "streamline", "wrapper", "verify_ws", "items","patterns","expecting","terminals", "shaped"]
def load(repo=None):
    prog = frontend.Program(repo or frontend.REPO)
    reg = Registry(prog)
    for m in MODULES:
        mod = importlib.import_module(f"pyvc.contracts.{m}")
        mod.install(reg)
    return prog, reg
