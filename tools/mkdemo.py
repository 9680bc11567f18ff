"""tools/mkdemo.py <id>: write seeded/<id>/demo.sh from Python code on stdin (it sets ok)."""
import os, sys
out = f"/verif/seeded/{sys.argv[1]}/demo.sh"
open(out, "w").write("""#!/bin/bash
cd /repo || exit 2
NBKODE_NONUMBA=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo timeout 200 /opt/venv/bin/python - <<'P'
import sys, warnings
import numpy as np
import nbkode
from nbkode.runge_kutta.explicit import *
from nbkode.multistep.adams_bashforth import *
from nbkode.multistep.adams_moulton import *
from nbkode.multistep.bdf import *
warnings.simplefilter("ignore")
""" + sys.stdin.read() + """
print("ok" if ok else "BROKEN")
sys.exit(0 if ok else 1)
P
""")
os.chmod(out, 0o755)
