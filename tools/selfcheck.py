#!/opt/venv/bin/python
"""Setup: nothing to build; makes sure that the tools and the specification are usable."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from wv import tlc  # noqa: E402

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
for m in ("WizardTrace", "WizardWalk", "WizardGen", "WTable", "WStackMap", "WNames", "WSeverity"):
    p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", m + ".tla"], cwd=tlc.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode or "Error" in p.stdout:
        print(p.stdout)
        sys.exit(1)
print("specification parsed")
