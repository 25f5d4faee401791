#!/usr/bin/env python3
"""new.py <id> <property> <file> : reads a JSON spec from stdin {"edits":[[file,old,new],..],"needs":..,"breaks":..,"main":..,"deps":..}
and writes seeded/<id>/ (patch against the scratch copy /tmp/seedwt)"""
import sys, json, os, subprocess, shutil
spec = {}
src = sys.stdin.read()
exec(src, spec)
W = "/tmp/seedwt"
subprocess.check_call(f"git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD", shell=True)
d = f"/verif/seeded/{spec['id']}"
os.makedirs(d, exist_ok=True)
for f, old, new in spec["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard"])
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if "demo" in spec:
    open(d + "/demo.sh", "w").write(spec["demo"])
else:
    shutil.copy("/verif/scripts/seed/demo_rust.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
for k, v in spec.get("files", {}).items():
    open(os.path.join(d, k), "w").write(v)
if "main" in spec:
    open(d + "/main.rs", "w").write(spec["main"])
if "deps" in spec:
    open(d + "/deps.toml", "w").write(spec["deps"])
print("wrote", d)
