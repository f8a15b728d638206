#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: make and confirm planted bugs from a spec file, into /verif/seeded.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], main=<go source of the demo>, needs, what)].
For each: applies the edits in a scratch copy of /repo, checks it builds and passes the stable tests,
that demo.sh exits 0 on /repo and nonzero on the copy, then runs the property's check (a copy of it, pointed at the
scratch copy).  Prints one line per bug.
"""
import glob, json, os, shutil, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs main.go (beside this file) against the module in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=$t GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOROOT=/opt/veriftools/go1.26.10 GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY XDG_CACHE_HOME
sed 's/^module .*/module demo/' go.mod > "$t/go.mod"
printf '\\nrequire github.com/openrdap/rdap v0.0.0\\n\\nreplace github.com/openrdap/rdap => %s\\n' "$PWD" >> "$t/go.mod"
cp go.sum "$t/go.sum"
cp "$here/main.go.txt" "$t/main.go"
cd "$t" && go build {race}-buildvcs=false -o demo . && exec_ok=1 || exit 3
mkdir scratch && cd scratch && timeout 120 ../demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        cp = "/tmp/seedcp-" + b["id"]
        shutil.rmtree(cp, ignore_errors=True)
        shutil.copytree("/repo", cp, symlinks=True)
        try:
            ok, msg = one(b, d, cp)
        finally:
            shutil.rmtree(cp, ignore_errors=True)
        print("%-28s %s %s" % (b["id"], b["prop"], msg), flush=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
def one(b, d, cp):
    for f, old, new in b["edits"]:
        p = os.path.join(cp, f)
        s = open(p).read()
        if s.count(old) != 1:
            return False, "EDIT: %d matches in %s: %r" % (s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "-C", cp, "diff", "--no-color"]).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "main.go.txt"), "w").write(b["main"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("{race}", "-race " if b.get("race") else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, GOROOT="/opt/veriftools/go1.26.10", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="",
               PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"])
    t = sh(["go", "test", "./..."], cwd=cp, env=env)
    if t.returncode != 0:
        return False, "TESTS FAIL\n" + t.stdout.decode()[-1500:]
    g = sh(["gofmt", "-l", "."], cwd=cp, env=env).stdout.decode().strip()
    r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=cp)
    if r0.returncode != 0 or r1.returncode in (0, 3, 124):
        return False, "DEMO clean=%d bug=%d\n%s\n---\n%s" % (r0.returncode, r1.returncode, r0.stdout.decode()[-800:], r1.stdout.decode()[-800:])
    ver = cp + ".verif"
    shutil.rmtree(ver, ignore_errors=True)
    os.makedirs(ver)
    try:
        for n in ("run.py", "known-findings.txt", "harness"):
            sh(["cp", "-a", os.path.join(VERIF, n), ver + "/" + n])
        for f in [ver + "/run.py", ver + "/harness/go.mod"] + glob.glob(ver + "/harness/*.go"):
            s = open(f).read()
            open(f, "w").write(s.replace('"/repo', '"' + cp).replace("=> /repo", "=> " + cp))
        res = []
        for seed in ("1", "2"):
            c = sh(["python3", ver + "/run.py", b["prop"]], env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
            caught = c.returncode == 1 and ("VIOLATION property=" + b["prop"]).encode() in c.stdout
            res.append("caught" if caught else "MISSED(rc=%d)" % c.returncode)
    finally:
        shutil.rmtree(ver, ignore_errors=True)
    return True, "demo=%d %s %s" % (r1.returncode, ",".join(res), "gofmt:" + g if g else "")
if __name__ == "__main__":
    main()
