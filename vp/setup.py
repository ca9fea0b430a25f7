"""setup_cmd: checks that the tools the checks need are present; nothing is downloaded or installed."""
import os, shutil, sys
import z3
for t in ("clang++", "g++", "cvc5"):
    if not shutil.which(t):
        print("missing tool", t)
        sys.exit(1)
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "out"):
    os.makedirs(os.path.join(v, d), exist_ok=True)
print("ok: z3", z3.get_version_string())
