#!/usr/bin/env python3
"""plant.py SPEC.py [id..]: lay down /verif/seeded/<id> from SPEC.py, and try it:
build, stable tests, demo with and without the patch, the property's check.
SPEC.py calls bug(id, prop, needs, breaks, [(file, old, new)..], demo_rs)."""
import json, os, subprocess, sys
V, R = "/verif", "/repo"
DEMO = r'''#!/bin/bash
# Compiles the crate with demo.rs as one of its test modules, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=/tmp/tailcall-demo
rm -rf /tmp/tailcall-demo
mkdir -p $d && cp -a "$WS/." $d/ || exit 3
at=@AT@
if [ -L $d/src/$at ]; then rm $d/src/$at && cp -rL /repo/src/$at $d/src/$at; fi
cp -L $d/src/$at/mod.rs $d/src/$at/mod.tmp && mv $d/src/$at/mod.tmp $d/src/$at/mod.rs
printf '\n#[cfg(test)]\nmod shown;\n' >> $d/src/$at/mod.rs
cp "$here/demo.rs" $d/src/$at/shown.rs
cd $d && cargo test --offline --lib shown -- --test-threads 1 2>&1 | tee $d/log | tail -40
code=${PIPESTATUS[0]}
grep -q "test result: ok. [1-9]" $d/log || code=4
rm -rf /tmp/tailcall-demo
exit $code
'''
BUGS = []

def bug(id, prop, needs, breaks, edits, demo, at="core"):
    BUGS.append((id, prop, needs, breaks, edits, demo.lstrip(), at))

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

exec(open(sys.argv[1]).read())
only = sys.argv[2:]
assert not sh(f"git -C {R} status --short").stdout.strip(), "/repo not clean"
base = json.load(open("/opt/vp/BASELINE.json"))
base = base.get("passed") or base.get("stable") or base
for id, prop, needs, breaks, edits, demo, at in BUGS:
    if only and id not in only:
        continue
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    res = []
    try:
        for f, old, new in edits:
            t = open(f"{R}/{f}").read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@AT@", at)); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        res.append(f"build {r.returncode}")
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-3000:])
        else:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            o = json.load(open("/tmp/plant.json"))
            miss = [t for t in base if t not in set(o["passed"])]
            res.append(f"tests {'ok' if not miss else miss[:3]}")
            r = sh(f"bash {d}/demo.sh", cwd=R)
            res.append(f"demo+ {r.returncode}")
            if "error[" in r.stdout or "error:" in r.stdout and "test failed" not in r.stdout:
                print(r.stdout[-3000:])
            r = sh(f"bash {V}/mc/run.sh {prop}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"check {r.returncode} {v[:1]}")
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:])
    finally:
        sh(f"git -C {R} checkout -- .")
    r = sh(f"bash {d}/demo.sh", cwd=R)
    res.append(f"demo- {r.returncode}")
    if r.returncode:
        print(r.stdout[-3000:])
    print(id, prop, "; ".join(res), flush=True)
