"""nothing to build: check that the interpreters and the solver are there"""
import subprocess, sys
subprocess.check_call(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3; assert z3.get_version_string()"])
subprocess.check_call(["/opt/venv/bin/python", "-c", "import mo_future, mo_dots, mo_logs, mo_imports"])
print("ok")
