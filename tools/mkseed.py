#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds.py: patch.diff, meta.json, demo.cc, demo.sh and the kit the demo is built with.
usage: mkseed.py [ID ...] [--test] [--checks]   --test: builds /repo HEAD with and without the patch in /tmp and runs the demo on both"""
import sys, os, shutil, subprocess, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import S
DEMO = """#!/bin/bash
# Builds the sources of the current directory natively against the simulator in kit/ and runs demo.cc (exit 0: the property holds).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp -a "$here/kit" "$tmp/kit" && mkdir -p "$tmp/kit/checks" "$tmp/kit/replays" && cp "$here/demo.cc" "$tmp/kit/checks/demo.cc" || exit 2
bin=$(VERIF_REPO=$PWD VERIF_BUILD="$tmp/build/" python3 "$tmp/kit/tools/build.py" | tail -1)
[ -x "$bin" ] || { echo "the demonstration does not build"; exit 2; }
timeout 200 "$bin" D --cases CASES --seed 1 --root "$tmp/kit" 2>&1 | tail -n 40
exit ${PIPESTATUS[0]}
"""
def files(s): return s["edits"]
def main():
    a = sys.argv[1:]; test = "--test" in a; ids = [x for x in a if not x.startswith("--")] or list(S)
    rc = 0
    for i in ids:
        s = S[i]; d = V + "/seeded/" + i
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            subprocess.check_call(["bash", "-c", "git -C /repo archive HEAD | tar x -C %s --one-top-level=r" % t])
            subprocess.check_call("cd %s/r && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % t, shell=True)
            for f, old, new in s["edits"]:
                p = "%s/r/%s" % (t, f); x = open(p).read(); assert x.count(old) == 1, (i, f, x.count(old), old)
                open(p, "w").write(x.replace(old, new))
            open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", t + "/r", "diff"]))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            open(d + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO.replace("CASES", str(s.get("cases", 1)))); os.chmod(d + "/demo.sh", 0o755)
            os.makedirs(d + "/kit/tools")
            for k in ("engine", "sim", "model") + (("adapter",) if "rig.h" in s["demo"] else ()) + (("dbgsrv",) if "startDebugServer" in s["demo"] else ()): shutil.copytree(V + "/" + k, d + "/kit/" + k)
            shutil.copy(V + "/tools/build.py", d + "/kit/tools/build.py")
            if test:
                bad = subprocess.run(["bash", d + "/demo.sh"], cwd=t + "/r", capture_output=True, text=True, errors="replace")
                subprocess.check_call(["git", "-C", t + "/r", "checkout", "-q", "."])
                good = subprocess.run(["bash", d + "/demo.sh"], cwd=t + "/r", capture_output=True, text=True, errors="replace")
                ok = good.returncode == 0 and bad.returncode not in (0, 2)
                print(i, "OK" if ok else "BAD", "patched", bad.returncode, "unpatched", good.returncode, flush=True)
                if not ok: print(good.stdout[-700:], "----", bad.stdout[-700:]); rc = 1
                else: print("   ", next((l for l in bad.stdout.split("\n") if l.startswith("failure")), "")[:200], flush=True)
        finally: shutil.rmtree(t, ignore_errors=True)
    return rc
sys.exit(main())
