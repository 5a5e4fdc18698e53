"""Runs a Python harness of harness/py (the repository's Python front end is executed from the working tree with stand-ins for the
compiled modules) in a process of its own and returns its report in the form of the C++ parts."""
import json, os, re, signal, subprocess, sys, time
import vbuild

HERE = os.path.dirname(os.path.abspath(__file__))


def command(part, seed, tier, out, prog, scale):
    return [sys.executable if os.path.basename(sys.executable).startswith("python3") else "python3", "-B", os.path.join(HERE, "harness", "py", part["harness"]),
            "--seed", str(seed), "--tier", tier, "--out", out, "--progress", prog, "--scale", str(scale)]


def environment(scratch):
    e = dict(os.environ)
    e.update({"VF_REPO": vbuild.REPO, "VF_SCRATCH": scratch, "HOME": scratch, "MPLCONFIGDIR": scratch, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
              "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TMPDIR": scratch})
    e.pop("PYTHONPATH", None)
    return e


def run(pid, part, seed, tier, scale, scratch):
    name = pid + "-" + part["name"]
    res = {"violations": [], "infra": None, "report": None, "build": {}, "name": part["name"], "variant": "python"}
    out, prog = os.path.join(scratch, name + ".json"), os.path.join(scratch, name + ".progress")
    timeout = part.get("timeout", 200) * (20 if tier == "thorough" else 1)
    t0 = time.time()
    for attempt in (0, 1):
        p = subprocess.Popen(command(part, seed, tier, out, prog, scale), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=environment(scratch), cwd=scratch, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
            break
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            if attempt == 1:
                res["violations"].append({"key": "hang/" + part["name"], "detail": "no progress within %d s, twice" % timeout,
                                          "ctx": open(prog).read().strip() if os.path.exists(prog) else ""})
                return res
            timeout *= 1.25
    res["run_s"] = round(time.time() - t0, 1)
    ctx = open(prog).read().strip() if os.path.exists(prog) else ""
    if os.path.exists(out):
        res["report"] = json.load(open(out))
        res["violations"] += res["report"].pop("violations")
    err = se.decode(errors="replace")
    if res["report"] is None:
        if p.returncode == -signal.SIGKILL:
            res["infra"] = "killed (memory?)"
        elif p.returncode == 2 and "HARNESS-ERROR" in err:
            res["infra"] = err[-1500:]
        else:
            res["violations"].append({"key": "crash/" + part["name"], "detail": "exit status %s\n%s" % (p.returncode, err[-2500:]), "ctx": ctx})
    return res
