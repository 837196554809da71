#!/bin/bash
# job.sh <check> <expression giving (function, args) pairs>: run some jobs of a check in this process (development only)
cd "$(dirname "$0")/.." || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${MC_REPO:-/repo}:$PWD PYTHONUTF8=1
exec python -c '
import importlib, sys, time, shutil, os
os.environ.setdefault("MC_SCRATCH", "/dev/shm")
from mc import harness
m = importlib.import_module("mc.checks." + sys.argv[1])
for f, a in eval(sys.argv[2]):
    c = harness.Ctx("quick"); t = time.time()
    getattr(m, f)(c, *a)
    d = harness._state["scratch"]
    if d: shutil.rmtree(d); harness._state["scratch"] = None
    print(f, str(a)[:80], "%.1fs" % (time.time() - t), c.evals, "evaluations", str(c.outcomes)[:100], len(c.violations), [v["msg"][:250] for v in c.violations][:3])
' "$@"
