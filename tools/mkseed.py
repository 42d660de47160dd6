"""Builds and validates one planted change: seed(id, prop, pkg, subs, demo, needs, breaks).
Applied to a scratch copy of /repo; kept only when it builds, the repository's
tests pass and the demonstration passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", TZ="Asia/Tokyo")
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is the repository
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
echo "{\\"Replace\\": {\\"$PWD/@PKG@/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$W/o.json"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go test -overlay "$W/o.json" @FLAGS@-count=1 -timeout 200s -run 'TestDemo' ./@PKG@
rc=$?
unlink "$W/o.json"; rmdir "$W"
exit $rc
'''

# for a demonstration whose own source has to be on disk
COPY = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is the repository
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
cp -a "$PWD" "$W/repo"
cp "$D/demo_test.go" "$W/repo/@PKG@/zz_demo_test.go"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
(cd "$W/repo" && go test @FLAGS@-count=1 -timeout 200s -run 'TestDemo' ./@PKG@)
rc=$?
rm -rf "$W"
exit $rc
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def ids(prop):
    """the checks of the same part of the repository"""
    if os.environ.get("FULL"):
        return ["all"]
    top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [c["property"] for c in json.load(open(os.path.join(top, "MANIFEST.json")))["checks"]]
    return [i for i in props if i[0] == prop[0]]


def seed(sid, prop, pkg, subs, demo, needs, breaks, race=False, copy=False):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    wt = os.path.join(d, "repo")
    try:
        sh(["cp", "-a", "/repo", wt], "/")
        sd = os.path.join(d, sid)
        os.mkdir(sd)
        open(os.path.join(sd, "demo.sh"), "w").write((COPY if copy else SH).replace("@PKG@", pkg).replace("@FLAGS@", "-race " if race else ""))
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        open(os.path.join(sd, "demo_test.go"), "w").write(demo)
        r = sh(["bash", os.path.join(sd, "demo.sh")], wt)
        if r.returncode:
            return print(sid, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-2500:], r.stderr[-1500:])
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], wt).stdout.strip()
        for f, old, new in subs:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return print(sid, "text found", s.count(old), "times in", f, repr(old[:60]))
            open(p, "w").write(s.replace(old, new))
        r = sh(["go", "build", "./..."], wt)
        if r.returncode:
            return print(sid, "NOBUILD", r.stderr[-800:])
        sh(["go", "vet", "./..."], wt)
        r = sh(["go", "test", "-short", "./..."], wt)
        if r.returncode:
            return print(sid, "TESTS FAIL", "\n".join(l for l in r.stdout.splitlines() if "FAIL" in l)[:1500])
        r = sh(["bash", os.path.join(sd, "demo.sh")], wt)
        if r.returncode == 0:
            return print(sid, "DEMO DOES NOT FAIL")
        if "--- FAIL" not in r.stdout and "panic:" not in r.stdout and "DATA RACE" not in r.stdout and "fatal error" not in r.stdout:
            print(sid, "note: demo failed oddly:", r.stdout[-500:], r.stderr[-500:])
        patch = sh(["git", "diff"], wt).stdout
        open(os.path.join(sd, "patch.diff"), "w").write(patch)
        # every removed line should be one of the original repository
        orig = {}
        for l in patch.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                ok = sh(["git", "grep", "-qF", "--", l[1:].strip(), base], wt).returncode == 0
                if not ok:
                    print(sid, "note: changes a line not in the original:", l)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        out = os.path.join("/verif/seeded", sid)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(sd, out)
        fv = os.environ.get("FVET", "/verif/bin/fvet")
        os.mkdir(os.path.join(d, "v"))
        shutil.copy("/verif/known-findings.txt", os.path.join(d, "v"))
        r = subprocess.run([fv] + ids(prop), env=dict(ENV, VERIF_REPO=wt, VERIF_DIR=os.path.join(d, "v")), capture_output=True, text=True)
        fired = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        print(sid, "kept;", "CAUGHT" if prop in fired else "MISSED", "by", fired)
    finally:
        shutil.rmtree(d)
