#!/usr/bin/env python3
"""Runs the check of its property (and any others named on the command line after
--also) on each planted bug, in scratch clones of /repo; records what was reported in
tools/seeded_results.json.  usage: seedrun.py [ids...]"""
import glob, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "seeded_results.json")
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(HERE + "/seeded/*"))
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        subprocess.run(["git", "-C", t + "/r", "apply", "%s/seeded/%s/patch.diff" % (HERE, i)], check=True)
        r = subprocess.run(["python3-vt", HERE + "/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=t + "/r"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
        g = [l for l in r.stdout.splitlines() if l.startswith("group ")]
        res[i] = {"rc": r.returncode, "by": g[0][:160] if g else ""}
        print(i, r.returncode, res[i]["by"], flush=True)
    finally:
        shutil.rmtree(t)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
