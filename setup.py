#!/usr/bin/env python3
"""Checks that the tools are there; the checks build what they need themselves."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import paths
assert shutil.which("java") and os.path.exists("/opt/veriftools/tla/tla2tools.jar"), "TLC is missing"
assert os.path.exists(paths.PY), "no interpreter for unidist"
for m in sorted(os.listdir(os.path.join(HERE, "spec"))):
    if m.endswith(".tla"):
        r = subprocess.run(["tla-sany", m], cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-2000:])
            sys.exit(1)
print("memory module:", paths.build_memory())
