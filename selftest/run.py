#!/usr/bin/env python3
"""Self test of the analyzer: applies small source edits to a scratch copy of
/repo and compares which checks fire with what is expected.

usage: run.py [name-prefix ...]       edits live in selftest/edits_*.py
Each edit: E(name, expect, (file, old, new), ...) with expect a set of property
ids that must fire (others may fire too for bugs); an empty expect means the
edit keeps the behaviour and every check must stay quiet.
"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
EDITS = []


def E(name, expect, *subs):
    EDITS.append((name, set(expect.split()), subs, FAMILY.get(CUR, "all")))


# the checks that look at the code an edits file changes (FULL=1: all of them)
FAMILY = {
    "caches": "C01 C02 C03 C04", "sync": "Y01 Y02 Y03", "store": "T01 T02 T03", "prom": "P01 P02 P03 P04",
    "shutdown": "D01 D02 D03", "ctx": "X01 X02 X03 X04 X05 L01 E07", "utils": "U01", "omap": "U02", "assert": "U03", "config": "U04",
    "http": "H01 H02 H03 H04 H05 H06 H07 H08", "api": "A01 A02 A03", "openapi": "A04", "ws": "W01 W02 W03 W04 W05",
    "enc": "E01 E02 E03 E04 E05 E06 E07 E08 E09",
}
for f in sorted(glob.glob(os.path.join(HERE, "edits_*.py"))):
    CUR = os.path.basename(f)[6:-3]
    exec(open(f).read())

sel = sys.argv[1:]
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
fvet = os.environ.get("FVET", os.path.join(HERE, "..", "bin", "fvet"))
CHECKS = os.environ.get("CHECKS", "all" if os.environ.get("FULL") else "")
known = set(subprocess.run([fvet, "list"], capture_output=True, text=True).stdout.split())


def one(e):
    name, expect, subs, family = e
    only = (CHECKS or " ".join(sorted(expect)) or family).split()
    if only != ["all"]:
        only = [c for c in only if c in known] or ["all"]
    d = tempfile.mkdtemp(prefix="selftest-", dir="/tmp")
    try:
        wt = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        for f, old, new in subs:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "STALE", f"{f}: text not found: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=wt, env=env, capture_output=True, text=True)
        if b.returncode:
            return name, "NOBUILD", b.stderr[:400]
        if os.environ.get("TESTS"):
            e2 = dict(env, TZ="Asia/Tokyo")
            t = subprocess.run(["go", "test", "-short", "./..."], cwd=wt, env=e2, capture_output=True, text=True)
            if t.returncode and expect:
                return name, "TESTFAIL", t.stdout[-600:]
        os.mkdir(os.path.join(d, "v"))
        shutil.copy(os.path.join(HERE, "..", "known-findings.txt"), os.path.join(d, "v"))
        r = subprocess.run([fvet] + only, env=dict(env, VERIF_REPO=wt, VERIF_DIR=os.path.join(d, "v")), capture_output=True, text=True)
        fired = {l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")}
        lines = [l for l in r.stdout.splitlines() if not l.endswith("call sites") and not l.startswith(("VIOLATION", "KNOWN"))]
        if r.returncode not in (0, 1):
            return name, "ERROR", (r.stderr + r.stdout)[-600:]
        if expect and only == ["all"] or expect & set(only):
            want = expect if only == ["all"] else expect & set(only)
            if want <= fired:
                return name, "ok", " ".join(sorted(fired)) + ("" if not os.environ.get("V") else "\n    " + "\n    ".join(lines[:6]))
            return name, "MISSED", f"wanted {sorted(want)} got {sorted(fired)}"
        if fired and not expect:
            return name, "FALSE-ALARM", "\n    ".join(lines[:8])
        return name, "ok", "quiet"
    finally:
        shutil.rmtree(d)


todo = [e for e in EDITS if not sel or any(e[0].startswith(p) for p in sel)]
bad = 0
with ThreadPoolExecutor(6) as ex:
    for name, st, msg in ex.map(one, todo):
        if st != "ok":
            bad += 1
        if st != "ok" or os.environ.get("V"):
            print(f"{st:12} {name}: {msg}", flush=True)
print(f"{len(todo)} edits, {bad} unexpected")
