import sys
import os; os.environ.setdefault("OPENSSL_CONF", "/opt/vp/openssl-legacy.cnf")
sys.dont_write_bytecode=True
sys.path.insert(0,os.environ.get("REPO","/repo")); sys.path.insert(0,"/verif"); sys.path.append("/opt/venv/lib/python3.12/site-packages")
import importlib, time
sys.setrecursionlimit(20000)
from pyvc import harness, api
from specs import runtime
import snmp
m = importlib.import_module("specs."+sys.argv[1])
names = sys.argv[2:]
dbg = "-d" in names
names=[n for n in names if n!="-d"]
for th in api.REGISTRY:
    if names and th.name not in names and th.name.split('.')[0] not in names: continue
    r = harness.run_theorem(th, debug=dbg)
    print(th.name, r.status, "%.1fs"%r.wall, {k:tuple(v) for k,v in r.obl.items()}, "paths",r.stats.get("paths"),"q",r.stats.get("queries"), "native",r.native_ok,"/",r.native_runs)
    for u in r.unsupported[:8]: print("   U", u)
    for f in r.failures[:6]: print("   F", f[:3], f[3][:2], f[4])
    for v in r.violations: print("   V", v)
    if r.missing_covers: print("   C", r.missing_covers)
    if dbg: print(r.functions)
