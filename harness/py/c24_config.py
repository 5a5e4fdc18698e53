"""C24: configuration files of the Python front end."""
import copy, io, math, os, sys
import numpy as np
import yaml
import pyvf, stubs
from pyvf import check, near, raises, succeeds, group, evaluation, tag, Quiet

kc = stubs.frontend()
with Quiet():
    import kalibr_camera_calibration as kcc
    import kalibr_camera_calibration.CameraCalibrator as CC
import aslam_cv_python as cv, aslam_cv_backend_python as cvb, sm_python as sm

NI = {"pinhole": 4, "omni": 5, "eucm": 6, "ds": 6}
ND = {"radtan": 4, "equidistant": 4, "fov": 1, "none": 0}
# (camera model, distortion) -> projection class, distortion class, prefix of the geometry, frame and error classes, undistorter
CAM = {("pinhole", "radtan"): ("DistortedPinholeProjection", "RadialTangentialDistortion", "DistortedPinhole", "PinholeUndistorterNoMask"),
       ("pinhole", "equidistant"): ("EquidistantPinholeProjection", "EquidistantDistortion", "EquidistantDistortedPinhole", "EquidistantPinholeUndistorterNoMask"),
       ("pinhole", "fov"): ("FovPinholeProjection", "FovDistortion", "FovDistortedPinhole", "FovPinholeUndistorterNoMask"),
       ("pinhole", "none"): ("PinholeProjection", None, "Pinhole", None),
       ("omni", "radtan"): ("DistortedOmniProjection", "RadialTangentialDistortion", "DistortedOmni", "OmniUndistorterNoMask"),
       ("omni", "none"): ("OmniProjection", None, "Omni", None),
       ("eucm", "none"): ("ExtendedUnifiedProjection", None, "ExtendedUnified", None),
       ("ds", "none"): ("DoubleSphereProjection", None, "DoubleSphere", None)}
FILES = [0]


def fresh(ext=".yaml"):
    FILES[0] += 1
    return os.path.join(pyvf.SCRATCH, "f%d%s" % (FILES[0], ext))


def num(rng, a, b):
    r = rng.u(a, b)
    return float(r if rng.p(.7) else round(r, rng.i(0, 3)))


def intrinsics(rng, model):
    f = [num(rng, 1, 2000), num(rng, 1, 2000), num(rng, 0, 2000), num(rng, 0, 2000)]
    if model == "pinhole":
        return f
    if model == "omni":
        return [num(rng, 0, 3)] + f
    a = rng.choice([0.0, rng.u(0, 0.999), rng.u(0, 1e-4)])
    return ([num(rng, -1, 2), a] if model == "ds" else [a, num(rng, 0, 3)]) + f


def coeffs(rng, dist):
    return [rng.choice([0.0, rng.u(-.5, .5), rng.u(-1e-6, 1e-6)]) for _ in range(ND[dist])]


def camdata(rng, key=None):
    model, dist = key or rng.choice(list(CAM))
    return {"rostopic": rng.choice(["/cam%d/image_raw", "/a/b%d", "cam %d", "%d"]) % rng.i(0, 9), "camera_model": model, "intrinsics": intrinsics(rng, model),
            "distortion_model": dist, "distortion_coeffs": coeffs(rng, dist), "resolution": [rng.i(1, 4000), rng.i(1, 4000)]}


def dump(rng, data, path):
    with open(path, "w") as f:
        f.write(yaml.dump(data, default_flow_style=rng.choice([None, False, True])))


def same(key, c, d):
    ok, v = succeeds(key + ".readable", lambda: (c.getRosTopic(), c.getIntrinsics(), c.getDistortion(), c.getResolution()))
    if ok:
        check(key + ".topic", v[0] == d["rostopic"], v[0])
        check(key + ".model", v[1][0] == d["camera_model"], v[1])
        near(key + ".intrinsics", v[1][1], d["intrinsics"], 0)
        check(key + ".distortionModel", v[2][0] == d["distortion_model"], v[2])
        near(key + ".distortionCoeffs", v[2][1], d["distortion_coeffs"], 0)
        check(key + ".resolution", list(v[3]) == list(d["resolution"]), v[3])


def geometry(key, cam, d):
    """The camera object built from a configuration describes exactly that configuration."""
    pc, dc, pre, und = CAM[d["camera_model"], d["distortion_model"]]
    if not check(key + ".geometryPresent", hasattr(cam, "geometry"), "no geometry for %s %s" % (d["camera_model"], d["distortion_model"])):
        return
    g = cam.geometry
    check(key + ".geometryType", type(g) is getattr(cv, pre + "CameraGeometry"), repr(g))
    if not check(key + ".geometryArgs", len(g.args) >= 1 and type(g.args[0]) is getattr(cv, pc), repr(g)):
        return
    p = g.args[0]
    k = len(d["intrinsics"]) + 2
    near(key + ".projection", list(p.args[:k]), d["intrinsics"] + [float(x) for x in d["resolution"]], 0)
    if dc:
        if check(key + ".distortionGiven", len(p.args) == k + 1 and type(p.args[k]) is getattr(cv, dc), repr(p)):
            near(key + ".distortion", list(p.args[k].args), d["distortion_coeffs"], 0)
    else:
        check(key + ".noDistortion", len(p.args) == k or type(p.args[k]) is cv.NoDistortion, repr(p))
    check(key + ".frameType", cam.frameType is getattr(cv, pre + "Frame"), cam.frameType)
    check(key + ".keypointType", cam.keypointType is cv.Keypoint2, cam.keypointType)
    check(key + ".errorType", cam.reprojectionErrorType is getattr(cvb, pre + "ReprojectionErrorSimple"), cam.reprojectionErrorType)
    if und:
        check(key + ".undistorterType", cam.undistorterType is getattr(cv, und), cam.undistorterType)


def values(text):
    import re
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)]


def listed(key, f, nums, words=()):
    """f(dest) writes every number and word to dest and nothing to the standard output."""
    dest = io.StringIO()
    so = io.StringIO()
    import contextlib
    try:
        with contextlib.redirect_stdout(so):
            f(dest)
    except Exception as e:
        check(key + ".prints", False, "%s: %s" % (type(e).__name__, e))
        return
    check(key + ".toDestination", so.getvalue() == "", "on stdout: %r" % so.getvalue()[:200])
    vs = values(dest.getvalue())
    for n in nums:
        check(key + ".lists", any(abs(v - n) <= 1e-4 * abs(n) + 1e-6 for v in vs), "%r missing in %r" % (n, dest.getvalue()[:600]))
    for w in words:
        check(key + ".names", w in dest.getvalue(), "%r missing in %r" % (w, dest.getvalue()[:600]))


@group("cameras", 160, 6000)
def cameras(rng, c):
    d = camdata(rng, list(CAM)[c % len(CAM)])
    evaluation(d)
    tag("camera %s-%s" % (d["camera_model"], d["distortion_model"]))
    path = fresh()
    # written through the setters, in random order
    p = kc.CameraParameters(path, createYaml=True)
    for s in rng.sample([lambda: p.setRosTopic(d["rostopic"]), lambda: p.setIntrinsics(d["camera_model"], d["intrinsics"]),
                         lambda: p.setDistortion(d["distortion_model"], np.array(d["distortion_coeffs"]) if rng.p() else d["distortion_coeffs"]),
                         lambda: p.setResolution(list(d["resolution"]))], 4):
        succeeds("C24.camera.set", s)
    same("C24.camera.kept", p, d)
    succeeds("C24.camera.write", p.writeYaml)
    with open(path) as f:
        raw = yaml.safe_load(f)
    check("C24.camera.file", isinstance(raw, dict) and all(raw.get(k) == v for k, v in d.items()), "%r\n%r" % (raw, d))
    q = kc.CameraParameters(path)
    same("C24.camera.reread", q, d)
    # a file written by hand
    path2 = fresh()
    dump(rng, d, path2)
    r = kc.CameraParameters(path2)
    same("C24.camera.read", r, d)
    ok, cam = succeeds("C24.camera.build", lambda: kc.AslamCamera.fromParameters(r))
    if ok:
        geometry("C24.camera", cam, d)
    listed("C24.camera.details", lambda o: r.printDetails(o), d["intrinsics"] + d["distortion_coeffs"], [d["camera_model"], d["distortion_model"]])
    # to another file; the source stays
    path3 = fresh()
    p.setResolution([d["resolution"][0] + 1, d["resolution"][1]])
    succeeds("C24.camera.writeTo", lambda: p.writeYaml(path3))
    same("C24.camera.sourceUntouched", kc.CameraParameters(path), d)
    same("C24.camera.copy", kc.CameraParameters(path3), dict(d, resolution=[d["resolution"][0] + 1, d["resolution"][1]]))
    for f in (path, path2, path3):
        os.remove(f)


def bad_camera(rng, d):
    """One invalid variant of d, and the setter call that must refuse it (or None)."""
    d = copy.deepcopy(d)
    m = d["camera_model"]
    o = {"pinhole": 0, "omni": 1, "eucm": 2, "ds": 2}[m]
    kind = rng.choice(["missing", "model", "count", "focal", "focalInt", "centre", "centreInt", "xi", "alpha", "alpha1", "beta", "dist", "distCount", "res", "resFloat", "topic"])
    if kind == "missing":
        k = rng.choice(list(d))
        del d[k]
        return kind + "." + k, d, None
    if kind == "model":
        d["camera_model"] = rng.choice(["Pinhole", "fisheye", "", "pinhole ", None, 3])
    elif kind == "count":
        d["intrinsics"] = d["intrinsics"][:-1] if rng.p() else d["intrinsics"] + [1.0] if rng.p() else []
    elif kind == "focal":
        d["intrinsics"][o + rng.i(0, 1)] = -rng.u(1e-6, 500)
    elif kind == "focalInt":
        d["intrinsics"][o + rng.i(0, 1)] = rng.choice([400, None, "400"])
    elif kind == "centre":
        d["intrinsics"][o + 2 + rng.i(0, 1)] = -rng.u(1e-6, 500)
    elif kind == "centreInt":
        d["intrinsics"][o + 2 + rng.i(0, 1)] = 320
    elif kind == "xi" and m == "omni":
        d["intrinsics"][0] = -rng.u(1e-6, 2)
    elif kind == "alpha" and m in ("eucm", "ds"):
        d["intrinsics"][0 if m == "eucm" else 1] = rng.choice([-rng.u(1e-9, 1), rng.u(1.0001, 3)])
    elif kind == "alpha1" and m in ("eucm", "ds"):
        d["intrinsics"][0 if m == "eucm" else 1] = 1.0
    elif kind == "beta" and m == "eucm":
        d["intrinsics"][1] = -rng.u(1e-6, 2)
    elif kind == "dist":
        d["distortion_model"] = rng.choice(["plumb_bob", "Radtan", "", None])
    elif kind == "distCount":
        d["distortion_coeffs"] = d["distortion_coeffs"] + [0.1] if rng.p() or not d["distortion_coeffs"] else d["distortion_coeffs"][:-1]
    elif kind == "res":
        d["resolution"] = rng.choice([[640], [640, 480, 3], []])
    elif kind == "resFloat":
        d["resolution"] = rng.choice([[640.0, 480], [640, 480.5], [None, 480]])
    elif kind == "topic":
        d["rostopic"] = rng.choice([5, None, ["/cam0"], 1.5])
    else:
        return None, None, None
    if kind in ("dist", "distCount"):
        return kind, d, lambda p: p.setDistortion(d["distortion_model"], d["distortion_coeffs"])
    if kind.startswith("res"):
        return kind, d, lambda p: p.setResolution(d["resolution"])
    if kind == "topic":
        return kind, d, lambda p: p.setRosTopic(d["rostopic"])
    return kind, d, lambda p: p.setIntrinsics(d["camera_model"], d["intrinsics"])


@group("badCameras", 300, 9000)
def badCameras(rng, c):
    d = camdata(rng)
    kind, b, setter = bad_camera(rng, d)
    if kind is None:
        return
    evaluation(b)
    tag("refused camera " + kind)
    path = fresh()
    dump(rng, b, path)
    r = kc.CameraParameters(path)
    def read():
        r.getRosTopic(); r.getIntrinsics(); r.getDistortion(); r.getResolution()
    raises("C24.camera.refuse." + kind.split(".")[0], RuntimeError, read, repr(b))
    if not (kind in ("topic", "missing.rostopic")):
        raises("C24.camera.refuseBuild", RuntimeError, lambda: kc.AslamCamera.fromParameters(r), repr(b))
    if setter:
        p = kc.CameraParameters(fresh(), createYaml=True)
        p.setRosTopic(d["rostopic"]); p.setIntrinsics(d["camera_model"], d["intrinsics"]); p.setDistortion(d["distortion_model"], d["distortion_coeffs"]); p.setResolution(d["resolution"])
        raises("C24.camera.refuseSet." + kind.split(".")[0], RuntimeError, lambda: setter(p), repr(b))
        same("C24.camera.unchangedAfterRefusal", p, d)
    os.remove(path)
    # combinations no camera exists for
    m, k = rng.choice([(m, k) for m in NI for k in ND if (m, k) not in CAM])
    d = dict(camdata(rng), camera_model=m, intrinsics=intrinsics(rng, m), distortion_model=k, distortion_coeffs=coeffs(rng, k))
    dump(rng, d, path)
    tag("unsupported %s-%s" % (m, k))
    r = kc.CameraParameters(path)
    raises("C24.camera.unsupported", RuntimeError, lambda: kc.AslamCamera.fromParameters(r), "%s %s" % (m, k))
    raises("C24.camera.unsupportedDirect", RuntimeError, lambda: kc.AslamCamera(m, d["intrinsics"], k, d["distortion_coeffs"], d["resolution"]), "%s %s" % (m, k))
    raises("C24.camera.unknownDirect", RuntimeError, lambda: kc.AslamCamera("pinhole", intrinsics(rng, "pinhole"), "other", [0.0] * 4, [640, 480]))
    raises("C24.camera.unknownDirect", RuntimeError, lambda: kc.AslamCamera("other", intrinsics(rng, "pinhole"), "radtan", [0.0] * 4, [640, 480]))
    os.remove(path)


@group("files", 40, 600)
def files(rng, c):
    """Files which cannot be read, parsed or written."""
    cls = rng.choice([kc.CameraParameters, kc.ImuParameters, kc.CalibrationTargetParameters, kc.CameraChainParameters, kc.ImuSetParameters])
    evaluation(cls.__name__, c)
    raises("C24.file.missing", RuntimeError, lambda: cls(os.path.join(pyvf.SCRATCH, "absent", "x.yaml")))
    raises("C24.file.directory", RuntimeError, lambda: cls(pyvf.SCRATCH))
    path = fresh()
    bad = rng.choice(["a: [1, 2", "a: b: c", "\t- x", "{", "a: *nowhere", "", "- 1\n- 2\n", "just text", "3.5", "!!python/object:os.system {}", "\x00"])
    with open(path, "w") as f:
        f.write(bad)
    raises("C24.file.malformed", RuntimeError, lambda: cls(path), repr(bad))
    os.remove(path)
    p = cls(path, createYaml=True)
    check("C24.file.createDoesNotRead", not os.path.exists(path) and p.getYamlDict() == {}, repr(p.getYamlDict()))
    p.setYamlDict({"a": [1, 2.5, {"b": "c"}]})
    target = os.path.join(pyvf.SCRATCH, "absent", "y%d.yaml" % c)
    try:
        p.writeYaml(target)
        check("C24.file.unwritable", False, "accepted")
    except RuntimeError as e:
        check("C24.file.unwritable", True)
        check("C24.file.errorNamesFile", target in str(e), str(e))
    check("C24.file.nothingElseWritten", not os.path.exists(path), path)
    p.writeYaml()
    check("C24.file.roundTrip", cls(path).getYamlDict() == {"a": [1, 2.5, {"b": "c"}]}, open(path).read())
    os.remove(path)


def imudata(rng):
    return {"rostopic": "/imu%d" % rng.i(0, 5), "update_rate": rng.choice([200.0, 100, 1000, rng.u(0.1, 2000)]), "accelerometer_noise_density": 10 ** rng.u(-6, 0),
            "accelerometer_random_walk": 10 ** rng.u(-7, 0), "gyroscope_noise_density": 10 ** rng.u(-6, 0), "gyroscope_random_walk": 10 ** rng.u(-7, 0)}


def sameImu(key, p, d):
    ok, v = succeeds(key + ".readable", lambda: (p.getRosTopic(), p.getUpdateRate(), p.getAccelerometerStatistics(), p.getGyroStatistics()))
    if not ok:
        return
    check(key + ".topic", v[0] == d["rostopic"], v[0])
    near(key + ".rate", v[1], d["update_rate"], 0)
    s = math.sqrt(d["update_rate"])
    for nm, got in (("accelerometer", v[2]), ("gyroscope", v[3])):
        n, w = d[nm + "_noise_density"], d[nm + "_random_walk"]
        near(key + "." + nm + "Discrete", got[0], n * s, 1e-12 * n * s)
        near(key + "." + nm + "Walk", got[1], w, 0)
        near(key + "." + nm + "Density", got[2], n, 0)


@group("imus", 200, 6000)
def imus(rng, c):
    d = imudata(rng)
    evaluation(d)
    path, path2 = fresh(), fresh()
    dump(rng, d, path)
    r = kc.ImuParameters(path)
    sameImu("C24.imu.read", r, d)
    p = kc.ImuParameters(path2, createYaml=True)
    for s in rng.sample([lambda: p.setRosTopic(d["rostopic"]), lambda: p.setUpdateRate(d["update_rate"]),
                         lambda: p.setAccelerometerStatistics(d["accelerometer_noise_density"], d["accelerometer_random_walk"]),
                         lambda: p.setGyroStatistics(d["gyroscope_noise_density"], d["gyroscope_random_walk"])], 4):
        succeeds("C24.imu.set", s)
    p.writeYaml()
    q = kc.ImuParameters(path2)
    sameImu("C24.imu.reread", q, d)
    with open(path2) as f:
        check("C24.imu.file", yaml.safe_load(f) == d, open(path2).read())
    s = math.sqrt(d["update_rate"])
    listed("C24.imu.details", lambda o: q.printDetails(o), [d["update_rate"], d["accelerometer_noise_density"] * s, d["gyroscope_noise_density"] * s, d["accelerometer_noise_density"],
                                                           d["gyroscope_noise_density"], d["accelerometer_random_walk"], d["gyroscope_random_walk"]])
    # invalid
    k = rng.choice(list(d))
    b = dict(d)
    kind = rng.choice(["missing", "value"])
    if kind == "missing":
        del b[k]
    else:
        b[k] = rng.choice([5, None]) if k == "rostopic" else rng.choice([0.0, -rng.u(1e-6, 10), 0])
    tag("refused imu %s %s" % (kind, k))
    dump(rng, b, path)
    x = kc.ImuParameters(path)
    def read():
        x.getRosTopic(); x.getUpdateRate(); x.getAccelerometerStatistics(); x.getGyroStatistics()
    raises("C24.imu.refuse", RuntimeError, read, repr(b))
    if kind == "value":
        f = {"rostopic": lambda: p.setRosTopic(b["rostopic"]), "update_rate": lambda: p.setUpdateRate(b["update_rate"])}.get(k)
        if f is None:
            f = (lambda: p.setAccelerometerStatistics(b["accelerometer_noise_density"], b["accelerometer_random_walk"])) if k.startswith("acc") else \
                (lambda: p.setGyroStatistics(b["gyroscope_noise_density"], b["gyroscope_random_walk"]))
        raises("C24.imu.refuseSet", RuntimeError, f, repr(b))
        sameImu("C24.imu.unchangedAfterRefusal", p, d)
    os.remove(path); os.remove(path2)
    # a set of IMUs
    n = rng.i(1, 4)
    ds = [imudata(rng) for _ in range(n)]
    names = [rng.choice([None, None, "left%d" % i]) for i in range(n)]
    path = fresh()
    st = kc.ImuSetParameters(path, True)
    for i in range(n):
        p = kc.ImuParameters("", createYaml=True)
        p.setYamlDict(dict(ds[i]))
        st.addImuParameters(p, names[i]) if names[i] else st.addImuParameters(imu_parameters=p)
    st.writeYaml(path)
    with open(path) as f:
        raw = yaml.safe_load(f)
    check("C24.imuSet.file", raw == {(names[i] or "imu%d" % i): ds[i] for i in range(n)}, "%r" % raw)
    os.remove(path)


TARGET = {"checkerboard": ["targetRows", "targetCols", "rowSpacingMeters", "colSpacingMeters"], "circlegrid": ["targetRows", "targetCols", "spacingMeters", "asymmetricGrid"],
          "aprilgrid": ["tagRows", "tagCols", "tagSize", "tagSpacing"]}


def targetdata(rng, t):
    d = {"target_type": t}
    for k in TARGET[t]:
        d[k] = rng.i(3, 20) if k.endswith(("Rows", "Cols")) else rng.p() if k == "asymmetricGrid" else num(rng, 0.001, 2) + 0.001
    return d


def targetConfig(rng, d):
    path = fresh()
    dump(rng, d, path)
    r = kc.CalibrationTargetParameters(path)
    os.remove(path)
    return r


def sameTarget(key, grid, d):
    """The target object has the class and the arguments of the configuration."""
    t = d["target_type"]
    mod, cls = {"checkerboard": ("aslam_cv_python", "GridCalibrationTargetCheckerboard"), "circlegrid": ("aslam_cv_python", "GridCalibrationTargetCirclegrid"),
                "aprilgrid": ("aslam_cameras_april", "GridCalibrationTargetAprilgrid")}[t]
    if not check(key + ".type", type(grid) is getattr(sys.modules[mod], cls), repr(grid)):
        return
    want = [float(d[k]) for k in TARGET[t] if k != "asymmetricGrid"]
    near(key + ".arguments", [float(x) for x in grid.args[:len(want)]], want, 0)
    check(key + ".options", len(grid.args) == len(want) + 1, repr(grid))
    o = grid.args[-1]
    if t == "circlegrid":
        check(key + ".asymmetric", getattr(o, "useAsymmetricCirclegrid", None) is d["asymmetricGrid"], repr(vars(o)))
    if t == "aprilgrid":
        check(key + ".minTags", isinstance(o.minTagsForValidObs, int) and min(d["tagRows"], d["tagCols"]) < o.minTagsForValidObs <= d["tagRows"] * d["tagCols"]
              and o.minTagsForValidObs > max(d["tagRows"], d["tagCols"]), repr(vars(o)))


@group("targets", 240, 8000)
def targets(rng, c):
    t = list(TARGET)[c % 3]
    d = targetdata(rng, t)
    evaluation(d)
    tag("target " + t)
    r = targetConfig(rng, d)
    ok, v = succeeds("C24.target.read", lambda: (r.getTargetType(), r.getTargetParams()))
    if ok:
        check("C24.target.type", v[0] == t, v)
        check("C24.target.params", all(v[1].get(k) == d[k] and type(v[1].get(k)) is type(d[k]) for k in TARGET[t]) and v[1].get("targetType") == t, v)
    listed("C24.target.details", lambda o: r.printDetails(o), [float(d[k]) for k in TARGET[t] if k not in ("asymmetricGrid", "tagSpacing")] + ([d["tagSize"] * d["tagSpacing"]] if t == "aprilgrid" else []), [t])
    # the detector built from it
    show, step, rep = rng.p(), rng.p(), rng.p()
    geom = cv.PinholeCameraGeometry(1)
    ok, det = succeeds("C24.target.detector", lambda: CC.TargetDetector(r, geom, showCorners=show, showReproj=rep, showOneStep=step))
    if ok:
        sameTarget("C24.target.built", det.grid, d)
        check("C24.target.detectorArgs", type(det.detector) is cv.GridDetector and det.detector.args[0] is geom and det.detector.args[1] is det.grid, repr(det.detector))
        o = det.detector.args[2]
        check("C24.target.detectorOptions", o.imageStepping == step and o.plotCornerReprojection == rep and det.grid.args[-1].showExtractionVideo == show, repr(vars(o)))
    # invalid
    b = dict(d)
    kind = rng.choice(["missing", "missing", "value", "value", "value", "value", "type"])
    k = rng.choice(TARGET[t])
    if kind == "missing":
        k = rng.choice(list(d))
        del b[k]
    elif kind == "type":
        b["target_type"] = rng.choice(["Checkerboard", "", None, 1, "assymetric"])
    elif k.endswith(("Rows", "Cols")):
        b[k] = rng.choice([2, 0, -4, 5.0, 4.5])
    elif k == "asymmetricGrid":
        b[k] = rng.choice([1, 0, "yes please", 1.0])
    else:
        b[k] = rng.choice([0.0, -rng.u(1e-6, 1), 1, 2])
    tag("refused target %s %s" % (kind, k if kind != "type" else ""))
    x = targetConfig(rng, b)
    raises("C24.target.refuse." + kind, RuntimeError, x.getTargetParams, repr(b))


def samePose(key, T, M):
    if check(key + ".kind", isinstance(T, sm.Transformation), repr(T)):
        near(key, T.T(), M, 0)


@group("chains", 150, 4000)
def chains(rng, c):
    n = rng.choice([1, 2, 2, 3, 4, 5, 11])
    ds = [camdata(rng) for _ in range(n)]
    path = fresh()
    ch = kc.CameraChainParameters(path, createYaml=True)
    for i, d in enumerate(ds):
        p = kc.CameraParameters("x", createYaml=True)
        p.setYamlDict(copy.deepcopy(d))
        succeeds("C24.chain.add", lambda: ch.addCameraAtEnd(p))
        check("C24.chain.count", ch.numCameras() == i + 1, ch.numCameras())
    T = {i: stubs.pose(rng) for i in range(1, n) if rng.p(.8)}
    I = {i: stubs.pose(rng) for i in range(n) if rng.p(.7)}
    S = {i: rng.choice([0.0, rng.u(-1, 1), rng.u(-1e-6, 1e-6)]) for i in range(n) if rng.p(.7)}
    O = {i: [j for j in range(n) if j != i and rng.p()] for i in range(n) if rng.p(.7)}
    evaluation(n, ds, sorted(T), sorted(I), sorted(S.items()))
    tag("chain of %d" % n)
    ops = [(ch.setExtrinsicsLastCamToHere, i, sm.Transformation(M)) for i, M in T.items()] + [(ch.setExtrinsicsImuToCam, i, sm.Transformation(M)) for i, M in I.items()] + \
          [(ch.setTimeshiftCamImu, i, s) for i, s in S.items()] + [(ch.setCamOverlaps, i, o) for i, o in O.items()]
    rng.shuffle(ops)
    for f, i, x in ops:
        succeeds("C24.chain.set", lambda: f(i, x))
    ch.writeYaml()
    for nm, q in (("kept", ch), ("reread", kc.CameraChainParameters(path))):
        key = "C24.chain." + nm
        check(key + ".count", q.numCameras() == n, q.numCameras())
        for i in range(n):
            ok, p = succeeds(key + ".camera", lambda: q.getCameraParameters(i))
            if ok:
                same(key + ".camera", p, ds[i])
            for tab, get, k in ((T, q.getExtrinsicsLastCamToHere, "baseline"), (I, q.getExtrinsicsImuToCam, "imuToCam")):
                if i in tab:
                    ok, v = succeeds(key + "." + k + "Readable", lambda: get(i))
                    if ok:
                        samePose(key + "." + k, v, tab[i])
                else:
                    raises(key + "." + k + "Absent", RuntimeError, lambda: get(i))
            if i in S:
                ok, v = succeeds(key + ".timeshiftReadable", lambda: q.getTimeshiftCamImu(i))
                if ok:
                    near(key + ".timeshift", v, S[i], 0)
            else:
                raises(key + ".timeshiftAbsent", RuntimeError, lambda: q.getTimeshiftCamImu(i))
            if i in O:
                ok, v = succeeds(key + ".overlapsReadable", lambda: q.getCamOverlaps(i))
                check(key + ".overlaps", ok and list(v) == O[i], v)
            else:
                raises(key + ".overlapsAbsent", RuntimeError, lambda: q.getCamOverlaps(i))
        for i in (n, n + rng.i(1, 5)):
            for f in (q.getCameraParameters, q.getExtrinsicsLastCamToHere, q.getExtrinsicsImuToCam, q.getTimeshiftCamImu, q.getCamOverlaps):
                raises(key + ".outOfRange", RuntimeError, lambda: f(i))
            raises(key + ".outOfRangeSet", RuntimeError, lambda: q.setTimeshiftCamImu(i, 0.1))
            raises(key + ".outOfRangeSet", RuntimeError, lambda: q.setCamOverlaps(i, []))
            raises(key + ".outOfRangeOverlap", RuntimeError, lambda: q.setCamOverlaps(0, [i]))
        listed(key + ".details", lambda o: q.printDetails(o), [x for d in ds for x in d["intrinsics"]] + [float(x) for M in T.values() for x in M[:3, 3]], ["cam%d" % i for i in range(n)])
    with open(path) as f:
        raw = yaml.safe_load(f)
    check("C24.chain.file", sorted(raw) == sorted("cam%d" % i for i in range(n)), sorted(raw))
    raises("C24.chain.firstHasNoBaseline", RuntimeError, lambda: ch.setExtrinsicsLastCamToHere(0, sm.Transformation()))
    raises("C24.chain.firstHasNoBaseline", RuntimeError, lambda: ch.getExtrinsicsLastCamToHere(0))
    if n > 1:
        raises("C24.chain.wrongKind", RuntimeError, lambda: ch.setExtrinsicsLastCamToHere(1, np.eye(4)))
    raises("C24.chain.wrongKind", RuntimeError, lambda: ch.setExtrinsicsImuToCam(0, np.eye(4)))
    raises("C24.chain.wrongKind", RuntimeError, lambda: ch.addCameraAtEnd({"a": 1}))
    raises("C24.chain.wrongKind", RuntimeError, lambda: ch.setTimeshiftCamImu(0, 1))
    # a baseline which is no 4x4 matrix
    raw["cam0"]["T_cam_imu"] = rng.choice([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 2, 3], "x", np.eye(4).tolist()[:3]])
    dump(rng, raw, path)
    raises("C24.chain.invalidBaseline", RuntimeError, lambda: kc.CameraChainParameters(path).getExtrinsicsImuToCam(0), repr(raw["cam0"]["T_cam_imu"]))
    os.remove(path)


class P(object):
    """The projection of a calibrated camera."""
    def __init__(self, d):
        m, v = d["camera_model"], d["intrinsics"]
        names = {"pinhole": [], "omni": ["xi"], "eucm": ["alpha", "beta"], "ds": ["xi", "alpha"]}[m] + ["fu", "fv", "cu", "cv"]
        for n, x in zip(names, v):
            setattr(self, n, (lambda y: lambda: y)(x))
        self.ru, self.rv = (lambda: d["resolution"][0]), (lambda: d["resolution"][1])
        self.d = d

    def distortion(self):
        return stubs.NS(getParameters=lambda: np.array(self.d["distortion_coeffs"]).reshape(-1, 1) if self.d["distortion_coeffs"] else np.zeros((0, 0)))

    def getParameters(self):
        return np.array(self.d["intrinsics"]).reshape(-1, 1)


MODEL = {("pinhole", "radtan"): "DistortedPinhole", ("pinhole", "equidistant"): "EquidistantPinhole", ("pinhole", "fov"): "FovPinhole", ("omni", "none"): "Omni",
         ("omni", "radtan"): "DistortedOmni", ("eucm", "none"): "ExtendedUnified", ("ds", "none"): "DoubleSphere"}


@group("results", 150, 4000)
def results(rng, c):
    """The file written after a camera calibration describes the calibrated cameras, their order, baselines and overlaps."""
    n = rng.choice([1, 2, 3, 4])
    ds = [camdata(rng, rng.choice(list(MODEL))) for _ in range(n)]
    evaluation(ds)
    path = fresh()
    cams = [stubs.NS(model=getattr(cvb, MODEL[d["camera_model"], d["distortion_model"]]), dataset=stubs.NS(topic=d["rostopic"]), geometry=stubs.NS(projection=(lambda p: lambda: p)(P(d)))) for d in ds]
    T = [stubs.pose(rng) for _ in range(n - 1)]
    O = [[j for j in range(n) if j != i and rng.p()] for i in range(n)]
    ok, _ = succeeds("C24.result.save", lambda: CC.saveChainParametersYaml(stubs.NS(cameras=cams, baselines=[stubs.NS(T=(lambda M: lambda: M.copy())(M)) for M in T]), path,
                                                                           stubs.NS(getCamOverlaps=lambda i: O[i])))
    if not ok:
        return
    q = kc.CameraChainParameters(path)
    check("C24.result.count", q.numCameras() == n, q.numCameras())
    for i in range(n):
        same("C24.result.camera", q.getCameraParameters(i), ds[i])
        ok, cam = succeeds("C24.result.build", lambda: kc.AslamCamera.fromParameters(q.getCameraParameters(i)))
        if ok:
            geometry("C24.result", cam, ds[i])
        ok, v = succeeds("C24.result.overlapsReadable", lambda: q.getCamOverlaps(i))
        check("C24.result.overlaps", ok and list(v) == O[i], v)
        if i:
            ok, v = succeeds("C24.result.baselineReadable", lambda: q.getExtrinsicsLastCamToHere(i))
            if ok:
                samePose("C24.result.baseline", v, T[i - 1])
    os.remove(path)


pyvf.main()
