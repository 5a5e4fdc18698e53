#!/usr/bin/env python3
"""replay.py PID --seed N --only GROUP --case K: rebuilds one part (VF_PART) and re-runs one case verbosely."""
import os, subprocess, sys, tempfile, shutil
import vbuild, run
from checks import CHECKS
pid = sys.argv[1]
for part in CHECKS[pid]["parts"]:
    if os.environ.get("VF_PART") not in (None, part["name"]):
        continue
    if "python" in part:
        import pyfront
        scratch = tempfile.mkdtemp(prefix="vf-")
        print("rc", subprocess.call(["python3", "-B", os.path.join(pyfront.HERE, "harness", "py", part["harness"])] + sys.argv[2:], env=dict(pyfront.environment(scratch), VF_VERBOSE="1"), cwd=scratch))
        shutil.rmtree(scratch)
        continue
    os.makedirs(vbuild.BUILD, exist_ok=True)
    exe, _ = vbuild.build(pid + "-" + part["name"], part["harness"], part.get("packages", []), part.get("variant", "asan"), part.get("extra", ()), part.get("repo_files", ()), part.get("libs", ()), part.get("exclude", ()))
    scratch = tempfile.mkdtemp(prefix="vf-")
    e = dict(os.environ); e.update(run.SAN_ENV); e["VF_SCRATCH"] = scratch; e["VF_VERBOSE"] = "1"; e["VF_REPO"] = vbuild.REPO
    print("rc", subprocess.call([exe] + sys.argv[2:], env=e, cwd=scratch))
    os.remove(exe); shutil.rmtree(scratch)
