#!/usr/bin/env python3
"""mkseed.py NAME: (re)assembles /verif/seeded/NAME from tools/seedkit and the folder itself, then confirms the bug.

The folder must hold patch.diff, meta.json and demo.cpp; demo.sh is written when absent from meta's "build" line.
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main(name):
    d = os.path.join(ROOT, "seeded", name)
    kit = os.path.join(ROOT, "tools/seedkit")
    meta = json.load(open(d + "/meta.json"))
    for f in ("build.sh", "kit.hpp"):
        shutil.copy(os.path.join(kit, f), d)
    shutil.rmtree(d + "/stubs", ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, "stubs"), d + "/stubs")
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write("#!/bin/bash\n# run with the repository as current directory\n. \"$(dirname \"$0\")/build.sh\"\nbuild %s\n\"$work/demo\"\n" % meta.pop("build"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(meta, open(d + "/meta.json", "w"), indent=1)
    # confirm in a scratch copy
    t = "/tmp/seedtest"
    subprocess.run(["rm", "-rf", t], check=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), t], check=True)
    alone = "/tmp/seedalone"
    subprocess.run(["rm", "-rf", alone], check=True)
    shutil.copytree(d, alone)
    for f in ("patch.diff", "meta.json"):
        os.remove(alone + "/" + f)
    def demo():
        r = subprocess.run(["bash", alone + "/demo.sh"], cwd=t, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout[-300:] + r.stderr[-800:])
    rc0, o0 = demo()
    print("unpatched:", rc0, o0 if rc0 else "")
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t, check=True)
    rc1, o1 = demo()
    o1 = o1[:300]
    print("patched:", rc1, o1)
    ok = rc0 == 0 and rc1 == 1
    print(name, "CONFIRMED" if ok else "*** NOT CONFIRMED")
    subprocess.run(["rm", "-rf", t, alone], check=True)
    return ok

if __name__ == "__main__":
    sys.exit(0 if all([main(n) for n in sys.argv[1:]]) else 1)
