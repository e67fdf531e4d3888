"""Helper for planting bugs: mk(id, property, edits, demo_go, needs, breaks).

Works in a scratch copy of /repo; keeps the change only when it compiles, passes
the existing tests and the demonstration tells the two trees apart.
"""
import json, os, shutil, subprocess, sys
S = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Runs demo.go against the tree in the current directory: 0 = behaves, 1 = broken.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset GOWORK
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def sh(cmd, cwd=S, timeout=900):
    env = {k: v for k, v in os.environ.items() if k != "GOWORK"}
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, executable="/bin/bash")
    return p.returncode, p.stdout + p.stderr


def mk(sid, prop, edits, demo, needs, breaks, full=True):
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", S], check=True)
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    try:
        rc, out = sh("bash %s/demo.sh" % d)
        if rc != 0:
            print(sid, "demo fails on the unchanged tree:", rc, out[-1500:]); return False
        for p, old, new in edits:
            s = open(S + "/" + p).read()
            if s.count(old) != 1:
                print(sid, "edit matches %d times" % s.count(old), p, old[:80]); return False
            open(S + "/" + p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff")
        rc, d0 = sh("git diff -U0")
        root = sh("git rev-list --max-parents=0 HEAD")[1].strip()
        orig = total = 0
        cur = None
        for l in d0.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                a, _, n = l.split()[1][1:].partition(",")
                n = int(n or 1)
                if n:
                    bl = sh("git blame -s --no-abbrev -L %s,+%d HEAD -- %s" % (a, n, cur))[1]
                    total += n
                    orig += sum(1 for x in bl.splitlines() if x.lstrip("^").startswith(root[:39]))
        if total and not orig:
            print(sid, "changes no line of the original repository"); return False
        rc, out = sh("bash %s/demo.sh" % d)
        if rc == 0 or rc == 3:
            print(sid, "demo does not fail with the change:", rc, out[-1500:]); return False
        why = out.strip()[-200:]
        if full:
            env = "export HOME=/root GOROOT=/opt/veriftools/go1.24.13 PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=%s/go.work; " % S
            rc, out = sh(env + "go test -json -vet=off -count=1 -p 1 $(go list ./... ./x/bench/... ./x/ftdc/... | grep -v x/ftdc/metrics) > /tmp/seed.log; python3 /opt/vp/results.py /tmp/seed.json gojson:/tmp/seed.log >/dev/null")
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
            res = json.load(open("/tmp/seed.json"))
            missing = base - set(res["passed"])
            if missing:
                print(sid, "breaks tests:", sorted(missing)[:5]); return False
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(sid, "kept:", why)
        return True
    finally:
        if not os.path.exists(d + "/patch.diff"):
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(S, ignore_errors=True)
