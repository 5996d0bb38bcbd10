#!/usr/bin/env python3
"""plant.py SPEC.json [--notest]: makes /verif/seeded/<id>/ from a description of a planted bug, after confirming it in a
scratch copy: it applies, builds, passes the stable tests, and its demo fails with it and passes without it.
SPEC: {"id","property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":{"pkg","files":{name:src},"run","env":{}}}"""
import json, os, shutil, subprocess, sys
spec = json.loads(open(sys.argv[1]).read(), strict=False)
notest = "--notest" in sys.argv
for s in (spec if isinstance(spec, list) else [spec]):
    work = "/tmp/plant-" + s["id"]
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", work])
    try:
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "edit does not match once (%d): %s %r" % (t.count(old), f, old)
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(s["id"], bad); continue
        diff = subprocess.check_output(["git", "-C", work, "diff"], text=True)
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dm = s["demo"]
        ov = ""
        for name, src in dm["files"].items():
            base = os.path.basename(src)
            shutil.copy(os.path.join("/verif", src), os.path.join(d, base))
            ov += '"%s/%s/%s": "%s/%s",' % ("$REPO", dm["pkg"], name, "$DIR", base)
        ov = '{"Replace": {%s}}' % ov.rstrip(",")
        env = " ".join("%s=%s" % kv for kv in dm.get("env", {}).items())
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds on the code in the current directory; nonzero: it is broken
DIR=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<E
%s
E
VERIF_PROP=%s VERIF_SEED=%s %s go test -vet=off -count=1 -timeout 280s -overlay "$T/overlay.json" -run '^%s$' ./%s
''' % (ov, s["property"], s.get("seed", 7), env, dm["run"], dm["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        def sh(cmd, cwd):
            r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, r.stdout
        rc, out = sh(d + "/demo.sh", "/repo")
        if rc != 0:
            print(s["id"], "demo fails on the unchanged tree\n", out[-3000:]); continue
        rc, out = sh(d + "/demo.sh", work)
        if rc == 0 or "build failed" in out or "setup failed" in out:
            print(s["id"], "demo does not fail with the change\n", out[-2000:]); continue
        print(s["id"], "demo ok:", [l for l in out.splitlines() if "COUNTEREXAMPLE" in l][:1], flush=True)
        if not notest:
            rc, out = sh("go vet ./clustering/ ./pkg/... ./backup/... ./controllers/... ./api/... 2>&1 | tail -3; go build ./...", work)
            print(s["id"], "build", rc)
    finally:
        shutil.rmtree(work, ignore_errors=True)
