#!/usr/bin/env python3
"""try.py ID...: runs the check of each planted bug's property against a scratch copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/try-" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    try:
        subprocess.check_call(["git", "-C", w, "apply", d + "/patch.diff"])
        t = time.time()
        r = subprocess.run(["python3", "/verif/check.py", prop, "quick"], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("failed ob") or "COUNTEREX" in l]
        print(i, "rc", r.returncode, "%.0fs" % (time.time() - t), "\n   " + "\n   ".join(v), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
