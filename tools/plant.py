#!/usr/bin/env python3
"""plant.py DEF.py...: turns bug definitions into seeded/<id>/ and tries them out.

A definition file sets: id, property, needs, breaks, kit ("partial" or "full"),
edits = [(file, old, new)], main = "...".
Each is verified: the existing tests pass with the change, the demonstration fails with it and
passes without, and the property's check is run on the changed tree.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh(f"git -C {R} checkout -- .")
def tests():
    if sh("bash /opt/vp/build.sh").returncode: return "build failed"
    sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
    t = json.load(open("/tmp/plant-tests.json"))
    return None if not t["failed"] and len(t["passed"]) >= 23 else f"tests: {t['failed']}"
for f in sys.argv[1:]:
    b = {}
    exec(open(f).read(), b)
    assert not sh(f"git -C {R} status --short --untracked-files=no").stdout.strip()
    out = f"{V}/seeded/{b['id']}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    kit = f"{V}/tools/kit/{b['kit']}"
    shutil.copy(f"{kit}/Cargo.toml", out); shutil.copy(f"{kit}/demo.sh", out)
    if b["kit"] == "partial":
        open(f"{out}/main.rs", "w").write(b["main"].lstrip())
    else:
        os.makedirs(f"{out}/src")
        for n in ["svm.rs", "world.rs", "layout.rs", "rng.rs"]: shutil.copy(f"{V}/harness/src/{n}", f"{out}/src/")
        shutil.copy(f"{kit}/help.rs", f"{out}/src/")
        open(f"{out}/src/main.rs", "w").write("#![allow(dead_code)]\nmod help;\nmod layout;\nmod rng;\nmod svm;\nmod world;\n" + b["main"].lstrip())
        shutil.copytree(f"{V}/shims", f"{out}/shims", ignore=shutil.ignore_patterns("target"))
        lock = open(f"{V}/harness/Cargo.lock").read().replace('"obv-monitor"', '"demo"')
        open(f"{out}/Cargo.lock", "w").write(lock)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    res = []
    d = sh(f"bash {out}/demo.sh", cwd=R)
    res.append(f"demo on unchanged tree: {d.returncode}")
    if d.returncode: res.append(d.stdout[-1500:])
    for file, old, new in b["edits"]:
        p = f"{R}/{file}"; s = open(p).read()
        assert s.count(old) == 1, (b["id"], file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(f"{out}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    res.append(tests() or "tests pass")
    d = sh(f"bash {out}/demo.sh", cwd=R)
    res.append(f"demo with change: {d.returncode} {d.stdout.strip().splitlines()[-3:]}")
    for p in [b["property"]] + b.get("also", []):
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick {V}/check {p}", cwd=V)
        lines = [l for l in c.stdout.splitlines() if l.strip()]
        res.append(f"check {p}: {c.returncode} " + " | ".join(l[:200] for l in lines[-3:]))
    clean()
    print(b["id"]); print("  " + "\n  ".join(res)); sys.stdout.flush()
