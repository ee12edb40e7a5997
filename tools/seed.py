"""Plants bugs: seed(...) writes seeded/<id>/, after confirming that the patch builds, passes the stable tests, and that
the demonstration passes without it and fails with it. Then runs the property's check against it."""
import json, os, subprocess, sys, shutil
V, R = "/verif", "/repo"

def run(cmd, cwd=R, t=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr

DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 240s -run ZZDemo "./%(pkg)s"
r=$?
rm -r -- "$t"
exit $r
'''

def undo():
    run("git checkout -- . && git status --short")

def check(prop, tier="quick"):
    rc, out = run("./run.sh %s %s" % (prop, tier), V)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return rc, v, out

def seed(id, prop, pkg, edits, demo, needs, breaks, checks=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = "%s/seeded/%s" % (V, id)
    rc, out = run("git status --short")
    assert not out.strip(), out
    os.makedirs(d, exist_ok=True)
    open(d + "/demo_test.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    try:
        rc, out = run("bash %s/demo.sh" % d)
        if rc != 0:
            print(id, "DEMO FAILS on the unchanged tree\n", out[-1500:]); return
        for f, a, b in edits:
            s = open(R + "/" + f).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(R + "/" + f, "w").write(s.replace(a, b))
        run("git diff > %s/patch.diff" % d)
        rc, out = run("bash /verif/tools/chk.sh")
        if rc != 0:
            print(id, "TESTS NOTICE\n", out[-1500:]); return
        rc, out = run("bash %s/demo.sh" % d)
        if rc == 0:
            print(id, "DEMO PASSES with the patch"); return
        for p in checks or [prop]:
            rc, v, out = check(p)
            print(id, p, "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, (v or out.splitlines()[-3:])[0][:200] if (v or out) else "", flush=True)
    finally:
        undo()
