"""seed.py mk ID PROP FILE <<< json {old,new,needs,breaks,demo}   |   seed.py test ID...  (scratch copy; never /repo)"""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mk(spec):
    d = f"{V}/seeded/{spec['id']}"; os.makedirs(d, exist_ok=True)
    t = f"/tmp/seedwork"; sh(f"rm -rf {t}; mkdir -p {t}; git -C /repo archive HEAD | tar x -C {t}; cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm base")
    for e in spec["edits"]:
        p = f"{t}/{e['file']}"; s = open(p).read(); assert s.count(e["old"]) == 1, (spec['id'], e["file"], s.count(e["old"]), e["old"])
        open(p, "w").write(s.replace(e["old"], e["new"]))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {t} diff").stdout)
    open(f"{d}/demo.py", "w").write(spec["demo"])
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport OPENSSL_CONF=/opt/vp/openssl-legacy.cnf\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 ${PY:-/opt/venv/bin/python} "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
def test(i):
    d = f"{V}/seeded/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]
    t = f"/tmp/seedtest_{i}"; sh(f"rm -rf {t}; cp -a /repo {t}")
    r0 = sh(f"bash {d}/demo.sh", cwd=t)
    a = sh(f"git apply {d}/patch.diff", cwd=t)
    r1 = sh(f"bash {d}/demo.sh", cwd=t)
    tests = sh("OPENSSL_CONF=/opt/vp/openssl-legacy.cnf /opt/venv/bin/python -B -m pytest -q -c /dev/null --rootdir=. -p no:cacheprovider --import-mode=importlib -o python_files='*.py' --ignore=test/__main__.py test 2>&1 | tail -3", cwd=t)
    c = sh(f"VERIF_REPO={t} python3-vt run.py {prop}", cwd=V, env=dict(os.environ, VERIF_REPO=t))
    print(i, prop, "demo", r0.returncode, r1.returncode, "apply", a.returncode, "| tests:", tests.stdout.strip().splitlines()[-1:], "| check", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], flush=True)
    if r0.returncode: print(r0.stderr[-500:])
    shutil.rmtree(t)
if __name__ == "__main__":
    if sys.argv[1] == "mk":
        for s in json.load(open(sys.argv[2])): mk(s)
    else:
        for i in sys.argv[2:]: test(i)
