#!/usr/bin/env python3
"""Run the replay harness of a property by hand: rp.py PROP [iterations] [repo] [seed]"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
it = sys.argv[2] if len(sys.argv) > 2 else "20000"
repo = sys.argv[3] if len(sys.argv) > 3 else "/repo"
seed = sys.argv[4] if len(sys.argv) > 4 else "1"
r = json.load(open(os.path.join(V, "checks.json")))["properties"][prop]["replay"]
with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
    json.dump({"Replace": {os.path.join(repo, r["pkg"], n): os.path.join(V, s) for n, s in r["files"].items()}}, f)
    f.flush()
    env = dict(os.environ, VERIF_PROP=prop, VERIF_SEED=seed, VERIF_BUDGET="100", VERIF_ITER=it)
    c = ". /opt/vp/env.sh; go test -v -vet=off -count=1 -timeout 300s -overlay %s -run '^%s$' ./%s 2>&1 | head -c 6000" % (f.name, r["run"], r["pkg"])
    sys.exit(subprocess.run(["bash", "-c", c], cwd=repo, env=env).returncode)
