#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json and planted.json.
--run [IDS]: applies each to a copy of the repository, runs the quick check of its property, and writes what it says to planted.json."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RESULTS = os.path.join(HERE, "tools", "planted.json")
results = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
planted = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json")))}


def run(bug):
    prop = planted[bug]["property"]
    with tempfile.TemporaryDirectory(prefix="planted-") as d:
        repo, verif = os.path.join(d, "repo"), os.path.join(d, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(HERE, "seeded", bug, "patch.diff")], check=True)
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        r = subprocess.run(["python3", "check.py", prop], cwd=verif, env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
        caught = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
        print(bug, prop, "caught" if caught else "MISSED (exit %d)" % r.returncode, flush=True)
        return bug, caught


if "--run" in sys.argv:
    ids = sys.argv[sys.argv.index("--run") + 1:] or [b for b in planted if b not in results]
    with ThreadPoolExecutor(3) as ex:
        for bug, caught in ex.map(run, ids):
            results[bug] = caught
    json.dump({b: results[b] for b in sorted(results) if b in planted}, open(RESULTS, "w"), indent=0)
lines = ["%d changes were planted (`seeded/`); the check of the property each breaks, in its quick tier, catches %d of them." %
         (len(planted), sum(results.get(b, False) for b in planted)), "", "| property | caught by its check | missed |", "|---|---|---|"]
for prop in sorted({m["property"] for m in planted.values()}):
    mine = [b for b in planted if planted[b]["property"] == prop]
    short = lambda bs: ", ".join(b[len(prop) + 1:] if b.startswith(prop.lower() + "-") else b for b in bs)
    lines.append("| %s | %s | %s |" % (prop, short([b for b in mine if results.get(b)]), short([b for b in mine if b in results and not results[b]])))
design = os.path.join(HERE, "DESIGN.md")
text = open(design).read()
head = text[:text.index("## Planted bugs\n")]
open(design, "w").write(head + "## Planted bugs\n\n" + "\n".join(lines) + "\n")
print(len(planted), "planted,", len(results), "run")
