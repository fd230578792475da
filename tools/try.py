#!/usr/bin/env python3
"""try.py NAME...: runs the check of each planted bug's property (or, with -a, every check) against a patched scratch copy."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"] or sorted(os.listdir(ROOT + "/seeded"))
ids = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for name in args:
    d = ROOT + "/seeded/" + name
    prop = json.load(open(d + "/meta.json"))["property"]
    t = "/tmp/seedtry"
    subprocess.run(["rm", "-rf", t], check=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), t], check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t, check=True)
    caught = []
    for p in (ids if every else [prop]):
        r = subprocess.run(["python3", "run.py", p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t, VERIF_BUILD="/tmp/seedtryb"))
        if "VIOLATION property=" + p in r.stdout:
            caught.append(p)
        elif r.returncode != 0:
            caught.append(p + "?")
        subprocess.run("rm -rf %s/replays/%s*" % (ROOT, p), shell=True)
    print(name, prop, "caught by", caught, "" if prop in caught else "*** MISSED", flush=True)
