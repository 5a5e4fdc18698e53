"""Monitors and case loop of the Python harnesses (counterpart of harness/common.hpp)."""
import argparse, contextlib, hashlib, io, json, math, os, random, struct, sys, traceback, types

REPO = os.environ.get("VF_REPO", "/repo")
SCRATCH = os.environ.get("VF_SCRATCH", "/tmp")
FRONT = os.path.join(REPO, "aslam_offline_calibration/kalibr/python")
VERBOSE = bool(os.environ.get("VF_VERBOSE"))
M = {"evaluations": 0, "nontrivial": set(), "events": {}, "tags": {}, "worst": {}, "violations": {}, "samples": []}
ctx = ""
groups = []


def check(key, ok, detail=""):
    M["events"][key] = M["events"].get(key, 0) + 1
    if not ok and key not in M["violations"]:
        M["violations"][key] = {"key": key, "detail": str(detail() if callable(detail) else detail)[:3000], "ctx": ctx}
        if VERBOSE:
            print("FAIL", key, ctx, M["violations"][key]["detail"], file=sys.__stdout__)
    return ok


def near(key, a, b, tol, detail=""):
    import numpy as np
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except Exception as e:
        return check(key, False, "not numbers: %r %r" % (a, b))
    if a.shape != b.shape:
        return check(key, False, "shape %s != %s: %s %s %s" % (a.shape, b.shape, a, b, detail))
    d = float(np.max(np.abs(a - b))) if a.size else 0.0
    if math.isfinite(d) and tol > 0:
        M["worst"][key] = max(M["worst"].get(key, 0.0), d / tol)
    return check(key, d <= tol, lambda: "got %s want %s (%g > %g) %s" % (a.tolist(), b.tolist(), d, tol, detail))


def tag(t):
    M["tags"][t] = M["tags"].get(t, 0) + 1


def evaluation(*what):
    M["evaluations"] += 1
    M["nontrivial"].add(hashlib.md5(repr(what).encode()).digest()[:8])
    if len(M["samples"]) < 6:
        M["samples"].append("%s: %s" % (ctx, repr(what)[:200]))


class Quiet(contextlib.ContextDecorator):
    """Swallows and returns what the code under test prints."""
    def __enter__(self):
        self.out = io.StringIO()
        self.r = contextlib.redirect_stdout(self.out)
        self.r.__enter__()
        return self.out

    def __exit__(self, *a):
        return self.r.__exit__(*a)


def raises(key, types_, f, detail=""):
    """f must raise one of types_ (and nothing else)."""
    try:
        with Quiet():
            r = f()
    except types_ as e:
        return check(key, True)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return check(key, False, "raised %s: %s %s" % (type(e).__name__, e, detail))
    return check(key, False, "accepted, gave %r %s" % (r, detail))


def succeeds(key, f, detail=""):
    """f must not raise; returns (ok, value)."""
    try:
        with Quiet():
            r = f()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        check(key, False, "raised %s: %s %s\n%s" % (type(e).__name__, e, detail, traceback.format_exc()[-800:]))
        return False, None
    check(key, True)
    return True, r


def group(name, quick, thorough):
    def deco(f):
        groups.append((name, quick, thorough, f))
        return f
    return deco


class Rng(random.Random):
    def u(self, a=0.0, b=1.0):
        return self.uniform(a, b)

    def p(self, q=0.5):
        return self.random() < q

    def i(self, a, b):
        return self.randint(a, b)


def main():
    global ctx
    ap = argparse.ArgumentParser()
    for a in ("--seed", "--tier", "--out", "--progress", "--scale", "--only", "--case"):
        ap.add_argument(a)
    o = ap.parse_args()
    seed, scale = int(o.seed or 1), float(o.scale or 1)
    for name, quick, thorough, f in groups:
        if o.only and o.only != name:
            continue
        n = max(1, int((thorough if o.tier == "thorough" else quick) * scale))
        for c in ([int(o.case)] if o.case is not None else range(n)):
            ctx = "--seed %d --only %s --case %d" % (seed, name, c)
            if o.progress:
                with open(o.progress, "w") as pf:
                    pf.write(ctx)
            rng = Rng("%d/%s/%d" % (seed, name, c))
            try:
                import numpy as np
                np.random.seed(rng.getrandbits(32))
                f(rng, c)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                # an exception out of the code under test is a violation
                check("exception/" + name, False, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]))
    rep = {"evaluations": M["evaluations"], "distinct_nontrivial": len(M["nontrivial"]), "events": M["events"], "tags": M["tags"],
           "worst": M["worst"], "samples": M["samples"], "violations": list(M["violations"].values())}
    if o.out:
        json.dump(rep, open(o.out, "w"))
    else:
        print({k: rep[k] for k in ("evaluations", "distinct_nontrivial")}, "observations", sum(M["events"].values()), "violations", len(rep["violations"]), file=sys.__stdout__)
    sys.exit(3 if rep["violations"] else 0)
