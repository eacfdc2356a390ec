"""Makes a planted bug: patch.diff, demo.sh, meta.json under /verif/seeded/<id>.

plant(id, prop, [(file, old, new)], demo, needs, breaks) confirms in a scratch
copy of /repo that the change builds, keeps the existing tests passing, changes
lines of the original repository, and that the demonstration tells it apart.
"""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "8bcbcf4"
DEMO = '''#!/bin/bash
# Exits 0 iff the library in the current directory behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here"/*.go "$t"/
cp "$repo/go.sum" "$t/go.sum"
sed -e "s,^module .*,module demo," "$repo/go.mod" > "$t/go.mod"
printf '\\nrequire github.com/32bitkid/mpeg v0.0.0\\nreplace github.com/32bitkid/mpeg => %s\\n' "$repo" >> "$t/go.mod"
cd "$t" && timeout 120 go run . 
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(repo):
    e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
    return sh("go build ./... && go test -vet=off -count=1 ./... 2>&1", repo, env=e)


def plant(bid, prop, edits, demo, needs, breaks, common=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", bid)
    scratch = tempfile.mkdtemp(prefix="plant-")
    repo = scratch + "/repo"
    try:
        sh("cp -a /repo " + repo)
        for f, old, new, *nth in edits:
            s = open(os.path.join(repo, f)).read()
            if nth:
                parts = s.split(old)
                s = old.join(parts[:nth[0]]) + new + old.join(parts[nth[0]:])
                open(os.path.join(repo, f), "w").write(s)
                continue
            if s.count(old) != 1:
                print(bid, "FAIL: edit matches", s.count(old), "times in", f)
                return False
            open(os.path.join(repo, f), "w").write(s.replace(old, new))
        sh("gofmt -l . ", repo)
        diff = sh("git diff", repo).stdout
        # the removed lines are lines of the original repository
        ok = False
        for m in re.finditer(r"^--- a/(\S+)$", diff, re.M):
            f = m.group(1)
            base = sh("git show %s:%s" % (BASE, f), "/repo").stdout.splitlines()
            part = diff[m.start():].split("\ndiff --git")[0]
            for l in part.splitlines()[2:]:
                if l.startswith("-") and l[1:].strip() and l[1:] in base:
                    ok = True
        if not ok:
            print(bid, "WARN: no removed line is a line of the original")
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go", "w").write(demo)
        if common:
            open(d + "/common.go", "w").write(common)
        t = tests(repo)
        if t.returncode != 0:
            print(bid, "FAIL: tests\n" + t.stdout[-1500:])
            return False
        a = sh(["bash", d + "/demo.sh"], "/repo")
        b = sh(["bash", d + "/demo.sh"], repo)
        if a.returncode != 0 or b.returncode == 0:
            print(bid, "FAIL: demo unchanged=%d changed=%d\n%s\n--\n%s" % (a.returncode, b.returncode, a.stdout[-800:], b.stdout[-800:]))
            return False
        if "build failed" in b.stdout or "cannot use" in b.stdout:
            print(bid, "FAIL: demo does not build"); return False
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(bid, "ok:", b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else "")
        return True
    finally:
        shutil.rmtree(scratch)
