#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts (design_head.md, design_tail.md) and
what the analyzer, the properties and the seeds say about themselves."""
import ast, glob, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
rd = lambda *p: open(os.path.join(ROOT, *p)).read()

props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
rules, files = {}, {}
for f in sorted(glob.glob(os.path.join(ROOT, "analyzer", "*.go"))):
    for m in re.finditer(r'register\(&Check\{ID:\s*"(\w+)",\s*Rule:\s*("(?:[^"\\]|\\.)*")', open(f).read()):
        rules[m.group(1)] = json.loads(m.group(2))
        files[m.group(1)] = os.path.basename(f)
fixed = {}
for l in rd("known-findings.txt").splitlines():
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    seeds.append((os.path.basename(os.path.dirname(d)), json.load(open(d))))
caught = {}
for l in rd("tools", "caught.txt").splitlines():
    w = l.split()
    caught[w[0]] = w[1:]

out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(p["statement"] + "\n")
    anchors = ", ".join("`" + a + "`" for a in p["anchors"]["files"])
    out.append(f"* For {p['quantifier']['text']}.  {p['why_tests_cant']}")
    out.append(f"* Anchored in {anchors}; decided by `analyzer/{files.get(i, '?')}`.")
    if i in man:
        out.append(f"* Technique: {man[i]['technique']}.")
        out.append(f"* Rule: {rules.get(i, '')}.")
        out.append(f"* Bounds and assumptions: {man[i]['level_note']}")
    n = [s for s, m in seeds if m["property"] == i]
    if n:
        out.append(f"* Planted bugs: {', '.join(n)}.")
    if i in fixed:
        out.append(f"* Defects found and repaired: {', '.join(c for c, _ in fixed[i])} (section 5).")
    out.append("")
sec3 = "## 3. Every property\n\n" + "\n".join(out)

fx = "\n".join(f"* {i} `{c}`: {t}." for i in fixed for c, t in fixed[i])
tb = ["| change | breaks | needs | reported by |", "|---|---|---|---|"]
for s, m in seeds:
    c = caught.get(s, [])
    c = [x for x in c if x == m["property"]] + [x for x in c if x != m["property"]]
    one = lambda t: str(t).replace("|", "/").replace("\n", " ")
    tb.append(f"| {s} | {one(m['what_it_breaks'])} | {one(m['needs'])} | {' '.join(c) or '**nothing**'} |")

EDITS = []
for f in sorted(glob.glob(os.path.join(ROOT, "selftest", "edits_*.py"))):
    exec(open(f).read(), {"E": lambda name, expect, *subs: EDITS.append(expect)})
good = sum(1 for e in EDITS if not e.strip())
tail = rd("tools", "design_tail.md")
for k, v in {"FIXED": fx, "SEEDS": "\n".join(tb), "EDITS": str(len(EDITS)), "GOOD": str(good), "BAD": str(len(EDITS) - good)}.items():
    tail = tail.replace("@@" + k + "@@", v)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(rd("tools", "design_head.md").rstrip() + "\n\n" + sec3.rstrip() + "\n\n" + tail)
