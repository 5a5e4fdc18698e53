#!/usr/bin/env python3
"""run.py PID: builds and runs the monitors of one property, judges the observations, writes evidence.
Exit 0: held; 1: VIOLATION printed; 2: the check itself could not be carried out."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
}


def known_findings(pid):
    """Lines `known: property=<id> key=<monitor key regex> <what>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def san_summary(err):
    m = re.search(r"(ERROR: AddressSanitizer|runtime error|WARNING: ThreadSanitizer|terminate called|UndefinedBehaviorSanitizer)[^\n]*", err)
    head = m.group(0) if m else err.strip().split("\n")[-1][:300] if err.strip() else "no output"
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)[^\n]*?(/[^\s:]+:\d+)", err)
    fr = [f"{a} {b}" for a, b in frames if "/repo/" in b][:3]
    return head, fr


def run_part(pid, part, seed, tier, scale, scratch):
    """Returns dict(report or None, violations=[{key,detail,ctx}], infra=str or None)"""
    name = pid + "-" + part["name"]
    exe, bstat = vbuild.build(name, part["harness"], part.get("packages", []), part.get("variant", "asan"),
                              part.get("extra", ()), part.get("repo_files", ()), part.get("libs", ()), part.get("exclude", ()))
    res = {"violations": [], "infra": None, "report": None, "build": bstat, "name": part["name"], "variant": part.get("variant", "asan")}
    try:
        timeout = part.get("timeout", 150) * (20 if tier == "thorough" else 1)
        out = os.path.join(scratch, name + ".json")
        prog = os.path.join(scratch, name + ".progress")
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--progress", prog, "--scale", str(scale)] + part.get("args", [])
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(part.get("env", {}))
        e["VF_SCRATCH"] = scratch
        e["VF_REPO"] = vbuild.REPO
        for attempt in (0, 1):
            t0 = time.time()
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=scratch, start_new_session=True)
            try:
                so, se = p.communicate(timeout=timeout)
                break
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                so, se = p.communicate()
                if attempt == 1:
                    ctx = open(prog).read().strip() if os.path.exists(prog) else ""
                    res["violations"].append({"key": "hang/" + part["name"], "detail": "no progress within %d s, twice" % timeout, "ctx": ctx})
                    return res
                timeout *= 1.25
        res["run_s"] = round(time.time() - t0, 1)
        err = se.decode(errors="replace")
        rc = p.returncode
        ctx = open(prog).read().strip() if os.path.exists(prog) else ""
        if os.path.exists(out):
            res["report"] = json.load(open(out))
            res["violations"] += res["report"].pop("violations")
        if "WARNING: ThreadSanitizer" in err:
            reps = err.split("==================")
            seen = set()
            for r in reps:
                if "WARNING: ThreadSanitizer" in r:
                    h, fr = san_summary(r)
                    k = "tsan/" + (re.sub(r"[^A-Za-z0-9_]+", "-", h.split(":")[-1].split("(")[0]).strip("-")) + "/" + (os.path.basename(fr[0].split()[-1]).split(":")[0] if fr else "?")
                    if k not in seen:
                        seen.add(k)
                        res["violations"].append({"key": k, "detail": r[:3500], "ctx": ctx})
        elif rc not in (0, 3) or res["report"] is None:
            if rc == -signal.SIGKILL:
                res["infra"] = "killed (memory?)"
            elif rc == 2 and "HARNESS-ERROR" in err:
                res["infra"] = err[-1500:]
            else:
                h, fr = san_summary(err)
                k = "crash/" + (os.path.basename(fr[0].split()[-1]).split(":")[0] if fr else part["name"])
                res["violations"].append({"key": k, "detail": "exit status %s: %s %s\n%s" % (rc, h, fr, err[-3000:]), "ctx": ctx})
    finally:
        if os.path.exists(exe):
            os.remove(exe)
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VF_SCALE", "1"))
    only = os.environ.get("VF_PART")
    chk = CHECKS[pid]
    t0 = time.time()
    os.makedirs(vbuild.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    parts = []
    infra = []
    try:
        for part in chk["parts"]:
            if only and part["name"] != only:
                continue
            try:
                if "python" in part:
                    import importlib
                    mod = importlib.import_module(part["python"])
                    r = mod.run(pid, part, seed, tier, scale, scratch)
                else:
                    r = run_part(pid, part, seed, tier, scale, scratch)
                parts.append(r)
                if r.get("infra"):
                    infra.append(part["name"] + ": " + r["infra"])
            except vbuild.BuildError as ex:
                infra.append(part["name"] + ": BUILD " + "\n".join(l[:300] for l in str(ex).split("\n") if "error" in l or "/verif" in l or "undefined" in l)[:3000])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol = [dict(v, part=r["name"]) for r in parts for v in r["violations"]]
    known = known_findings(pid)
    new, hit = [], {}
    for v in viol:
        for rx, what in known:
            if re.fullmatch(rx, v["key"]):
                hit[(rx, what)] = v
                break
        else:
            new.append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "coverage": {},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    c = ev["coverage"]
    c["evaluations"] = sum(r["report"]["evaluations"] for r in parts if r.get("report"))
    c["distinct_nontrivial"] = sum(r["report"]["distinct_nontrivial"] for r in parts if r.get("report"))
    c["rule"] = chk["rule"]
    c["samples"] = [s for r in parts if r.get("report") for s in r["report"]["samples"]][:40]
    c["monitors"] = {r["name"]: {"variant": r["variant"], "observations_judged": r["report"]["events"], "workload": r["report"]["tags"],
                                 "worst_residual_over_tolerance": {k: round(x, 6) for k, x in r["report"]["worst"].items()},
                                 "build": r["build"], "run_s": r.get("run_s")} for r in parts if r.get("report")}
    c["observations_total"] = sum(sum(r["report"]["events"].values()) for r in parts if r.get("report"))
    if infra:
        c["not_completed"] = infra
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for (rx, what), v in hit.items():
        print("KNOWN-FINDING: property=%s %s (observed at %s)" % (pid, what, v["ctx"]))
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", pid + ".txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("part=%s key=%s\nreplay: VF_PART=%s python3 %s/replay.py %s %s\n%s\n\n" % (v["part"], v["key"], v["part"], VERIF, pid, v["ctx"], v["detail"]))
        for v in new[:8]:
            print("  [%s] %s (%s): %s" % (v["part"], v["key"], v["ctx"], v["detail"][:400].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if infra:
        print("CHECK-ERROR property=%s\n%s" % (pid, "\n".join(infra)), file=sys.stderr)
        sys.exit(2)
    print("property=%s held: %d evaluations, %d distinct, %d observations judged, %.1f s" % (pid, c["evaluations"], c["distinct_nontrivial"], c["observations_total"], time.time() - t0))


if __name__ == "__main__":
    main()
