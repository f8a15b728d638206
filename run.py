#!/usr/bin/env python3
"""run.py Cxx: decide one property on /repo's current working tree.

Builds harness/ against /repo into a temporary directory, runs the property's
monitor, rewrites evidence/Cxx.json and prints the verdict.
exit 0: held on everything observed; exit 1 + VIOLATION line: violated;
anything else: the check itself could not decide.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RACE = {"C18"}
BIN = {"C30", "C31", "C32", "C33"}   # checks that also run the real command
WATCHDOG = 800          # seconds for the whole run; generous, never a verdict by itself

def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT="/opt/veriftools/go1.26.10", GOTOOLCHAIN="local", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin"
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "no_proxy", "ALL_PROXY", "all_proxy",
              "XDG_CACHE_HOME", "GORACE", "GODEBUG"):
        e.pop(k, None)
    return e

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    watchdog = WATCHDOG if tier == "quick" else 6 * 3600
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, watchdog, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def build(work, race):
    """Builds harness/ against /repo; returns (executable, build output or None)."""
    # module file: /repo's requirements plus /repo itself
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod = re.sub(r"(?m)^module .*$", "module verif/harness", mod)
    mod += "\nrequire github.com/openrdap/rdap v0.0.0\n\nreplace github.com/openrdap/rdap => %s\n" % REPO
    open(os.path.join(work, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
    exe = os.path.join(work, "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(work, "go.mod"), "-o", exe]
    if race:
        cmd.append("-race")
    cmd.append(".")
    b = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return exe, (None if b.returncode == 0 else b.stdout.decode("utf-8", "replace"))

def setup():
    """Checks that the tools are there and warms the build cache (an optimisation only)."""
    for race in (False, True):
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            _, err = build(work, race)
            if err is not None:
                print(err[-4000:])
                return 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    print("setup: harness builds")
    return 0

def run(prop, tier, seed, watchdog, t0, work):
    e = env()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    replay = os.path.join(evdir, "replay", prop + ".json")
    for p in (evfile, replay):
        if os.path.exists(p):
            os.remove(p)
    exe, err = build(work, prop in RACE)
    if err is not None:
        sys.stdout.write("build of the harness against /repo failed\n" + err[-4000:])
        return 2
    if prop in BIN:
        b = subprocess.run(["go", "build", "-trimpath", "-buildvcs=false", "-mod=readonly", "-o", os.path.join(work, "rdap"), "./cmd/rdap"],
                           cwd=REPO, env=dict(e, GOFLAGS=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode != 0:
            sys.stdout.write("build of the command failed\n" + b.stdout.decode("utf-8", "replace")[-4000:])
            return 2
        e["VERIF_BIN"] = os.path.join(work, "rdap")
    build_s = time.time() - t0
    result = os.path.join(work, "result.json")
    current = os.path.join(work, "current")
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    home = os.path.join(work, "home")
    os.makedirs(home)
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_RESULT=result, VERIF_CURRENT=current,
             VERIF_SCRATCH=scratch, TMPDIR=scratch, HOME=home)
    if prop in RACE:
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "race")
    log = open(os.path.join(work, "log"), "wb")
    p = subprocess.Popen([exe, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-test.v"],
                         cwd=scratch, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    hung = False
    try:
        rc = p.wait(timeout=watchdog)
    except subprocess.TimeoutExpired:
        hung = True
        p.send_signal(signal.SIGQUIT)
        try:
            rc = p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            rc = -9
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()
    log.close()
    text = open(os.path.join(work, "log"), "rb").read().decode("utf-8", "replace")
    res = None
    if os.path.exists(result):
        try:
            res = json.load(open(result))
        except ValueError:
            res = None
    viols = []
    if res is not None:
        viols = res.get("violations") or []
    elif hung:
        print(text[-3000:])
        print("the monitor did not finish within %d s: inconclusive" % watchdog)
        return 3
    else:
        cur = ""
        if os.path.exists(current):
            cur = open(current, "rb").read().split(b"\0", 1)[0].decode("utf-8", "replace")
        crash = re.search(r"(?m)^(panic: |fatal error: |unexpected fault|SIG)", text)
        in_repo = re.search(r"(?m)^github\.com/openrdap/rdap", text[crash.start():]) if crash else None
        if cur and (in_repo or not crash):
            viols = [{"key": "crash", "what": "the process ended inside a case (exit status %s)" % rc, "case": cur,
                      "output": text[-6000:]}]
        else:
            print(text[-6000:])
            print("the monitor ended without a result (exit status %s)" % rc)
            return 4
        res = {"evaluations": 1, "distinct": 1, "rule": "crashed run", "samples": [cur], "counters": {}}
    known = known_findings(prop)
    fresh, hits = [], {}
    for v in viols:
        for k, desc in known:
            if v.get("key") == k:
                hits[k] = desc
                break
        else:
            fresh.append(v)
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "rule": res["rule"],
           "samples": res.get("samples") or []}
    for k, v in sorted((res.get("counters") or {}).items()):
        cov["observed_" + k] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": res.get("assumptions") or [], "wall_s": round(time.time() - t0, 2),
          "build_s": round(build_s, 2), "violations": len(fresh)}
    json.dump(ev, open(evfile, "w"), indent=1, ensure_ascii=True)
    for k, desc in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    print("%s: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (prop, res["evaluations"], res["distinct"], time.time() - t0, build_s))
    if fresh:
        json.dump({"property": prop, "seed": seed, "tier": tier, "violations": fresh,
                   "how_to_replay": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (seed, tier, prop)},
                  open(replay, "w"), indent=1, ensure_ascii=True)
        for v in fresh[:3]:
            print(json.dumps(v, ensure_ascii=True)[:400])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if res.get("inconclusive"):
        print("inconclusive: " + res["inconclusive"])
        return 5
    return 0

if __name__ == "__main__":
    sys.exit(main())
