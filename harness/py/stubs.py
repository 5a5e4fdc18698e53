"""Stand-ins for the compiled modules and the ROS packages the Python front end imports. They record what they are given and compute the few
things (transformations, time stamps, image grey values) the front end asks of them. Names not exported by the real modules do not exist here."""
import collections, math, os, sys, types
import numpy as np
import pyvf

# ------------------------------------------------------------------------------------------------ recording classes


class Rec(object):
    """Any exported class: remembers its constructor arguments; options objects accept attributes."""
    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.args)


def recmodule(name, names, extra=None, base=Rec):
    m = types.ModuleType(name)
    for n in names:
        setattr(m, n, type(n, (base,), {}))
    for k, v in (extra or {}).items():
        setattr(m, k, v)
    sys.modules[name] = m
    return m


# ------------------------------------------------------------------------------------------------ sm_python
def quat2r(q):
    e, n = np.asarray(q, float)[:3], float(q[3])
    X = np.array([[0, -e[2], e[1]], [e[2], 0, -e[0]], [-e[1], e[0], 0]])
    return np.eye(3) - 2 * n * X + 2 * X.dot(X)


def r2quat(C):
    C = np.asarray(C, float)
    # eigenvector of the quaternion matrix for the largest eigenvalue (robust everywhere)
    K = np.array([[C[0, 0] - C[1, 1] - C[2, 2], C[1, 0] + C[0, 1], C[2, 0] + C[0, 2], C[2, 1] - C[1, 2]],
                  [C[1, 0] + C[0, 1], C[1, 1] - C[0, 0] - C[2, 2], C[2, 1] + C[1, 2], C[0, 2] - C[2, 0]],
                  [C[2, 0] + C[0, 2], C[2, 1] + C[1, 2], C[2, 2] - C[0, 0] - C[1, 1], C[1, 0] - C[0, 1]],
                  [C[2, 1] - C[1, 2], C[0, 2] - C[2, 0], C[1, 0] - C[0, 1], C[0, 0] + C[1, 1] + C[2, 2]]]) / 3
    w, v = np.linalg.eigh(K)
    q = v[:, 3]
    q = np.array([-q[0], -q[1], -q[2], q[3]])
    return q if q[3] >= 0 else -q


def rt2Transform(C, t):
    T = np.eye(4)
    T[:3, :3] = C
    T[:3, 3] = np.asarray(t, float).flatten()
    return T


class Transformation(object):
    def __init__(self, *a):
        if len(a) == 0:
            self._T = np.eye(4)
        elif len(a) == 1:
            if isinstance(a[0], Transformation):
                self._T = a[0]._T.copy()
            else:
                T = np.array(a[0], float)
                if T.shape != (4, 4):
                    raise TypeError("Boost.Python.ArgumentError: Transformation(%r)" % (T.shape,))
                self._T = T
        else:
            self._T = rt2Transform(quat2r(np.asarray(a[0], float).flatten()), a[1])

    def T(self): return self._T.copy()
    def C(self): return self._T[:3, :3].copy()
    def t(self): return self._T[:3, 3].copy()
    def q(self): return r2quat(self._T[:3, :3])
    def inverse(self): return Transformation(np.linalg.inv(self._T))

    def __mul__(self, o):
        if isinstance(o, Transformation):
            return Transformation(self._T.dot(o._T))
        return self._T.dot(np.asarray(o, float))


class Corrector(object):
    """An affine clock; remembers what it was fed."""
    all = []

    def __init__(self):
        self.fed = []
        Corrector.all.append(self)

    def correctTimestamp(self, remote, local):
        self.fed.append((remote, local))
        return self.getLocalTime(remote)

    def getLocalTime(self, remote):
        return 1.0000125 * remote + 0.75
    getSlope = lambda self: 1.0000125
    getOffset = lambda self: 0.75


class Progress(object):
    def __init__(self, *a): self.n = 0
    def sample(self, k=1): self.n += k
    def reset(self, *a): pass


logs = []


def sm_python():
    ex = {"Transformation": Transformation, "quat2r": quat2r, "r2quat": r2quat, "rt2Transform": rt2Transform, "DoubleTimestampCorrector": Corrector,
          "Progress": Progress, "Progress2": Progress,
          "toHomogeneous": lambda p: np.append(np.asarray(p, float).flatten(), 1.0),
          "fromHomogeneous": lambda p: np.asarray(p, float).flatten()[:3] / np.asarray(p, float).flatten()[3],
          "transform2C": lambda T: np.array(T)[:3, :3], "transform2rho": lambda T: np.array(T)[:3, 3],
          "inverseTransform": lambda T: np.linalg.inv(T), "quatInv": lambda q: np.array([-q[0], -q[1], -q[2], q[3]]),
          "plotCoordinateFrame": lambda *a, **k: None}
    for lev in ("Debug", "Info", "Warn", "Error", "Fatal"):
        ex["log" + lev] = (lambda l: lambda msg, *a: logs.append((l, msg)))(lev)
    m = recmodule("sm_python", ["RotationVector", "EulerRodriguez", "EulerAnglesYawPitchRoll"], ex)
    pc = types.ModuleType("sm_python.PlotCollection")
    pc.PlotCollection = type("PlotCollection", (Rec,), {"add_figure": lambda *a: None, "show": lambda *a: None, "delete_figure": lambda *a: None})
    m.PlotCollection = pc
    m.__path__ = []
    sys.modules["sm_python.PlotCollection"] = pc
    return m


# ------------------------------------------------------------------------------------------------ aslam_cv_python and friends
class Time(object):
    def __init__(self, *a):
        if len(a) == 0:
            self.sec, self.nsec = 0, 0
        elif len(a) == 1:
            t = float(a[0])
            if not 0 <= t < 2 ** 32:
                raise RuntimeError("time out of range")
            self.sec = int(math.floor(t))
            self.nsec = int(round((t - self.sec) * 1e9))
            if self.nsec >= 10 ** 9:
                self.sec, self.nsec = self.sec + 1, self.nsec - 10 ** 9
        else:
            s, n = a
            if not (isinstance(s, (int, np.integer)) and isinstance(n, (int, np.integer))):
                raise TypeError("Boost.Python.ArgumentError: Time(%r, %r)" % a)
            self.sec, self.nsec = int(s) + int(n) // 10 ** 9, int(n) % 10 ** 9
    secs = property(lambda self: self.sec)
    nsecs = property(lambda self: self.nsec)
    def toSec(self): return self.sec + 1e-9 * self.nsec
    def toNSec(self): return self.sec * 10 ** 9 + self.nsec
    to_sec, to_nsec = toSec, toNSec
    def _k(self): return (self.sec, self.nsec)
    def __eq__(self, o): return self._k() == o._k()
    def __lt__(self, o): return self._k() < o._k()
    def __le__(self, o): return self._k() <= o._k()
    def __gt__(self, o): return self._k() > o._k()
    def __ge__(self, o): return self._k() >= o._k()
    def __hash__(self): return hash(self._k())
    def __repr__(self): return "Time(%d,%d)" % self._k()


GEOM = ["Pinhole", "DistortedPinhole", "EquidistantDistortedPinhole", "FovDistortedPinhole", "PinholeRs", "DistortedPinholeRs", "EquidistantDistortedPinholeRs",
        "FovDistortedPinholeRs", "Omni", "DistortedOmni", "EquidistantDistortedOmni", "FovDistortedOmni", "OmniRs", "DistortedOmniRs", "EquidistantDistortedOmniRs",
        "FovDistortedOmniRs", "ExtendedUnified", "DoubleSphere"]
FRAMES = ["Pinhole", "DistortedPinhole", "EquidistantDistortedPinhole", "FovDistortedPinhole", "PinholeRs", "DistortedPinholeRs", "EquidistantDistortedPinholeRs",
          "DistortedOmniRs", "ExtendedUnified", "DoubleSphere", "Omni", "DistortedOmni"]


def aslam_cv():
    proj = ["PinholeProjection", "DistortedPinholeProjection", "EquidistantPinholeProjection", "FovPinholeProjection", "OmniProjection", "DistortedOmniProjection",
            "EquidistantOmniProjection", "FovOmniProjection", "ExtendedUnifiedProjection", "DoubleSphereProjection"]
    names = proj + [g + "CameraGeometry" for g in GEOM] + [f + "Frame" for f in FRAMES] + [
        "RadialTangentialDistortion", "EquidistantDistortion", "FovDistortion", "NoDistortion", "GlobalShutter", "RollingShutter", "NoMask", "ImageMask",
        "Keypoint2", "Keypoint3", "PinholeUndistorterNoMask", "EquidistantPinholeUndistorterNoMask", "FovPinholeUndistorterNoMask", "OmniUndistorterNoMask",
        "CheckerboardOptions", "CirclegridOptions", "GridDetectorOptions", "GridCalibrationTargetCheckerboard", "GridCalibrationTargetCirclegrid", "GridDetector"]
    cv = recmodule("aslam_cv_python", names, {"Time": Time})
    apr = recmodule("aslam_cameras_april", ["AprilgridOptions", "GridCalibrationTargetAprilgrid"])
    cvb = recmodule("aslam_cv_backend_python", [g + s for g in GEOM for s in ("ReprojectionErrorSimple", "ReprojectionError", "CameraGeometryDesignVariable")])
    # the model records of aslam_cv_backend_python/__init__.py
    table = {"Omni": "Omni", "DistortedOmni": "DistortedOmni", "DistortedOmniRs": "DistortedOmniRs", "DistortedPinhole": "DistortedPinhole", "DistortedPinholeRs": "DistortedPinholeRs",
             "EquidistantPinhole": "EquidistantDistortedPinhole", "EquidistantPinholeRs": "EquidistantDistortedPinholeRs", "FovPinhole": "FovDistortedPinhole",
             "ExtendedUnified": "ExtendedUnified", "DoubleSphere": "DoubleSphere"}
    for m, g in table.items():
        setattr(cvb, m, type(m, (object,), {"geometry": getattr(cv, g + "CameraGeometry"), "reprojectionError": getattr(cvb, g + "ReprojectionError"),
                                            "reprojectionErrorSimple": getattr(cvb, g + "ReprojectionErrorSimple"),
                                            "designVariable": getattr(cvb, g + "CameraGeometryDesignVariable")}))
    return cv, apr, cvb


# ------------------------------------------------------------------------------------------------ ROS
class RTime(object):
    def __init__(self, secs=0, nsecs=0): self.secs, self.nsecs = int(secs), int(nsecs)
    def to_sec(self): return float(self.secs) + float(self.nsecs) / 1e9
    def to_nsec(self): return self.secs * 10 ** 9 + self.nsecs
    toSec = to_sec
    def __lt__(self, o): return self.to_nsec() < o.to_nsec()
    def __le__(self, o): return self.to_nsec() <= o.to_nsec()
    def __gt__(self, o): return self.to_nsec() > o.to_nsec()
    def __ge__(self, o): return self.to_nsec() >= o.to_nsec()
    def __eq__(self, o): return isinstance(o, RTime) and self.to_nsec() == o.to_nsec()
    def __hash__(self): return hash(self.to_nsec())


class NS(types.SimpleNamespace):
    pass


class Bag(object):
    """files: {name: {topic: [(receipt RTime, message)]}} in order of receipt."""
    files = {}

    def __init__(self, name, mode="r", *a, **k):
        if name not in Bag.files:
            raise IOError("no such bag: %s" % name)
        self.name = self.filename = name
        self.topics = Bag.files[name]

    def _get_connections(self, topics=None, connection_filter=None):
        if isinstance(topics, str):
            topics = [topics]
        for i, t in enumerate(self.topics):
            if topics is None or t in topics:
                yield NS(id=i, topic=t)

    def _get_indexes(self, connections):
        for c in connections:
            yield [NS(time=m[0], position=(c.topic, k)) for k, m in enumerate(self.topics[c.topic])]

    def _read_message(self, position, raw=False):
        t, k = position
        return t, self.topics[t][k][1], self.topics[t][k][0]

    def read_messages(self, topics=None, start_time=None, end_time=None, **k):
        for c in self._get_connections(topics):
            for e in self._get_indexes([c]):
                for x in e:
                    yield self._read_message(x.position)

    def get_message_count(self, topic_filters=None):
        return sum(len(self.topics[c.topic]) for c in self._get_connections(topic_filters))

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


def grey(kind, img):
    """What OpenCV computes, per pixel (weights as in its documentation); Bayer: the value of the green/red/blue planes is not judged per pixel."""
    img = np.asarray(img, float)
    if kind == "BGR":
        return np.rint(0.114 * img[..., 0] + 0.587 * img[..., 1] + 0.299 * img[..., 2])
    return np.rint(0.299 * img[..., 0] + 0.587 * img[..., 1] + 0.114 * img[..., 2])


cvcalls = []


def ros():
    m = types.ModuleType("rosbag"); m.Bag = Bag; sys.modules["rosbag"] = m
    b = types.ModuleType("cv_bridge")
    b.CvBridge = type("CvBridge", (object,), {"imgmsg_to_cv2": lambda self, msg, desired_encoding="passthrough": msg.array.copy()})
    b.CvBridgeError = type("CvBridgeError", (Exception,), {})
    sys.modules["cv_bridge"] = b
    c = types.ModuleType("cv2")
    codes = ["COLOR_BGR2GRAY", "COLOR_RGB2GRAY", "COLOR_BGRA2GRAY", "COLOR_RGBA2GRAY", "COLOR_BAYER_BG2GRAY", "COLOR_BAYER_RG2GRAY", "COLOR_BAYER_GB2GRAY", "COLOR_BAYER_GR2GRAY"]
    for i, n in enumerate(codes):
        setattr(c, n, n)

    def cvtColor(img, code):
        cvcalls.append(code)
        if "BAYER" in code:
            assert img.ndim == 2
            # what the real conversion weighs: the colour of the pixel (1,1) of the pattern names the code (OpenCV's convention)
            second = {"COLOR_BAYER_BG2GRAY": "BGGR@11", "COLOR_BAYER_RG2GRAY": "RGGB@11"}
            return np.full(img.shape, ["COLOR_BAYER_BG2GRAY", "COLOR_BAYER_RG2GRAY", "COLOR_BAYER_GB2GRAY", "COLOR_BAYER_GR2GRAY"].index(code), np.uint8)
        n = 4 if "A2" in code else 3
        if img.ndim != 3 or img.shape[2] != n:
            raise RuntimeError("cvtColor: wrong number of channels")
        return grey("BGR" if code.startswith("COLOR_BGR") else "RGB", img).astype(np.uint8)
    c.cvtColor = cvtColor
    c.destroyAllWindows = lambda *a: None
    sys.modules["cv2"] = c
    pl = types.ModuleType("pylab")
    sys.modules["pylab"] = pl
    sys.modules.setdefault("sm_numpy_eigen", types.ModuleType("sm_numpy_eigen"))
    return m, b, c


# ------------------------------------------------------------------------------------------------ igraph
class ALookup(list):
    pass


class Vertex(object):
    def __init__(self, g, i): self.g, self.index = g, i
    def __setitem__(self, k, v): self.g.vattr.setdefault(k, {})[self.index] = v
    def __getitem__(self, k): return self.g.vattr[k].get(self.index)
    def neighbors(self): return [Vertex(self.g, i) for i in self.g.neighbors(self.index)]
    def degree(self): return len(self.g.neighbors(self.index))


class VS(object):
    def __init__(self, g): self.g = g
    def __iter__(self): return iter([Vertex(self.g, i) for i in range(self.g.n)])
    def __len__(self): return self.g.n
    def __getitem__(self, i):
        if isinstance(i, str):
            return [self.g.vattr[i].get(k) for k in range(self.g.n)]
        return Vertex(self.g, range(self.g.n)[i])
    def outdegree(self): return [len(self.g.neighbors(i)) for i in range(self.g.n)]
    degree = outdegree


class Edge(object):
    def __init__(self, g, i): self.g, self.index = g, i
    def __setitem__(self, k, v): self.g.edges[self.index][1][k] = v
    def __getitem__(self, k): return self.g.edges[self.index][1][k]
    tuple = property(lambda self: self.g.edges[self.index][0])
    source = property(lambda self: self.g.edges[self.index][0][0])
    target = property(lambda self: self.g.edges[self.index][0][1])


class ES(object):
    def __init__(self, g): self.g = g
    def __iter__(self): return iter([Edge(self.g, i) for i in range(len(self.g.edges))])
    def __len__(self): return len(self.g.edges)
    def __getitem__(self, i):
        if isinstance(i, str):
            if self.g.edges and not any(i in e[1] for e in self.g.edges):
                raise KeyError("Attribute does not exist")
            return [e[1].get(i) for e in self.g.edges]
        return Edge(self.g, range(len(self.g.edges))[i])


class Graph(object):
    def __init__(self, n=0):
        self.n, self.edges, self.vattr = n, [], {}
    vs = property(lambda self: VS(self))
    es = property(lambda self: ES(self))

    def add_edges(self, l):
        for a, b in l:
            if not (0 <= a < self.n and 0 <= b < self.n):
                raise ValueError("no such vertex")
            self.edges.append(((a, b), {}))

    def add_edge(self, a, b, **k): self.add_edges([(a, b)])

    def get_eid(self, a, b, directed=True, error=True):
        for i, (e, _) in enumerate(self.edges):
            if e in ((a, b), (b, a)):
                return i
        if error:
            raise ValueError("Cannot get edge ID, no such edge")
        return -1
    def are_connected(self, a, b): return self.get_eid(a, b, error=False) >= 0
    are_adjacent = are_connected

    def neighbors(self, v):
        return sorted([(b if a == v else a) for (a, b), _ in self.edges if v in (a, b)])

    def reach(self, edges):
        seen, todo = {0}, [0]
        while todo:
            v = todo.pop()
            for a, b in edges:
                for x, y in ((a, b), (b, a)):
                    if x == v and y not in seen:
                        seen.add(y); todo.append(y)
        return len(seen) == self.n

    def is_connected(self, *a, **k): return self.reach([e[0] for e in self.edges])

    def adhesion(self, *a, **k):
        """smallest number of edges whose removal disconnects the graph: minimum cut over all vertex bipartitions"""
        if self.n < 2:
            return 0
        best = None
        for mask in range(1, 2 ** (self.n - 1)):
            c = sum(1 for (a, b), _ in self.edges if (mask >> a & 1) != (mask >> b & 1))
            best = c if best is None else min(best, c)
        return best
    edge_connectivity = adhesion

    def get_shortest_paths(self, v, to=None, weights=None, mode=None, output="vpath", **k):
        if isinstance(weights, str):
            weights = self.es[weights]
        if output not in ("vpath", "epath"):
            raise ValueError(output)
        w = [1.0] * len(self.edges) if weights is None else list(weights)
        dist, via, done = {v: 0.0}, {v: ([v], [])}, set()
        while True:
            c = [(d, x) for x, d in dist.items() if x not in done]
            if not c:
                break
            d, x = min(c)
            done.add(x)
            for i, ((a, b), _) in enumerate(self.edges):
                for s, t in ((a, b), (b, a)):
                    if s == x and d + w[i] < dist.get(t, math.inf):
                        dist[t] = d + w[i]
                        via[t] = (via[x][0] + [t], via[x][1] + [i])
        tos = range(self.n) if to is None else (to if isinstance(to, (list, tuple)) else [to])
        return [(via[t][0] if output == "vpath" else via[t][1]) if t in via else [] for t in tos]
    get_shortest_path = lambda self, v, to, weights=None, output="vpath", **k: self.get_shortest_paths(v, to, weights, output=output)[0]

    def copy(self):
        g = Graph(self.n)
        g.edges = [(e, dict(a)) for e, a in self.edges]
        g.vattr = {k: dict(v) for k, v in self.vattr.items()}
        return g

    def delete_edges(self, ids):
        ids = set(ids) if isinstance(ids, (set, list, tuple, range)) else {ids}
        self.edges = [e for i, e in enumerate(self.edges) if i not in ids]

    def ecount(self): return len(self.edges)
    def vcount(self): return self.n


def igraph():
    m = types.ModuleType("igraph")
    m.Graph = Graph
    sys.modules["igraph"] = m
    return m


# ------------------------------------------------------------------------------------------------ loading the code under test
ABACK = ["BlakeZissermanMEstimator", "HuberMEstimator", "NoMEstimator", "CauchyMEstimator", "GemanMcClureMEstimator", "Optimizer2Options", "OptimizerOptions", "BlockCholeskyLinearSystemSolver",
         "SparseCholeskyLinearSystemSolver", "SparseQrLinearSystemSolver", "DenseQrLinearSystemSolver", "LevenbergMarquardtTrustRegionPolicy", "GaussNewtonTrustRegionPolicy",
         "DogLegTrustRegionPolicy", "SparseQrLinearSolverOptions"]


def frontend():
    """Installs every stand-in and imports the packages of the front end from the tree."""
    sm_python(); aslam_cv(); ros(); igraph()
    pl = sys.modules["pylab"]
    for n in ("plot", "figure", "subplot", "grid", "xlabel", "ylabel", "hist", "show", "legend", "title", "imshow", "xlim", "ylim", "axis", "colorbar"):
        setattr(pl, n, lambda *a, **k: None)
    for n in ("matplotlib", "matplotlib.backends", "matplotlib.patches", "mpl_toolkits", "mpl_toolkits.mplot3d", "PIL", "PIL.Image", "matplotlib.pyplot", "mpl_toolkits.mplot3d.axes3d"):
        m = types.ModuleType(n)
        m.__path__ = []
        sys.modules[n] = m
    b = types.ModuleType("matplotlib.backends.backend_pdf"); b.PdfPages = Rec; sys.modules[b.__name__] = b
    sys.modules["matplotlib"].patches = sys.modules["matplotlib.patches"]
    sys.modules["PIL"].Image = sys.modules["PIL.Image"]
    recmodule("aslam_backend_python", ABACK)
    recmodule("aslam_splines_python", [])
    recmodule("aslam_bsplines_python", [])
    recmodule("aslam_incremental_calibration_python", ["CalibrationOptimizationProblem", "IncrementalEstimator"])
    recmodule("kalibr_errorterms", [])
    if pyvf.FRONT not in sys.path:
        sys.path.insert(0, pyvf.FRONT)
    sys.dont_write_bytecode = True
    with pyvf.Quiet():
        import kalibr_common
    return kalibr_common


# ------------------------------------------------------------------------------------------------ random geometry
def rot(rng, scale=math.pi):
    v = np.array([rng.gauss(0, 1) for _ in range(3)])
    v *= rng.u(0, scale) / np.linalg.norm(v)
    a = np.linalg.norm(v)
    k = v / a if a > 0 else np.zeros(3)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K.dot(K)


def pose(rng, s=1.0):
    return rt2Transform(rot(rng), [rng.u(-s, s) for _ in range(3)])
