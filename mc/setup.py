import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build
print(build.circom())
if os.path.isdir(os.path.join(build.ROOT, "sched")):
    print(build.sched_circom())
# fills the cache of compiled C++ runtime objects
subprocess.call(["./check.sh", "C02"], cwd=build.ROOT)
subprocess.call(["./check.sh", "C05"], cwd=build.ROOT)
