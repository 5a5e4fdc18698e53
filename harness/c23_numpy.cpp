// C23: matrices and functions crossing between Python and C++, observed from both sides in an embedded interpreter.
#define VF_IMPORT_ARRAY
#include "c23_common.hpp"
#include "common.hpp"
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/transformations.hpp>
#include <sm_kinematics/property_tree.hpp>
#include <sm_property_tree/BoostPropertyTree.hpp>
#include <sm_matrix_archive/MatrixArchive.hpp>
#include <sm_timing/TimestampCorrector.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <sm_random/random.hpp>
#include <sm_logging/logging.hpp>
#include <sm_logging/logging/LoggingEvent.hpp>
#include <sm_eigen/matrix_sqrt.hpp>
using namespace vf;
using namespace sm::kinematics;
namespace py = boost::python;
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d; using Eigen::Vector4d; using Eigen::Matrix3d; using Eigen::Matrix4d;
typedef Eigen::Matrix<double, 6, 6> Matrix6d; typedef Eigen::Matrix<double, 6, 1> Vector6d;

extern "C" PyObject* PyInit_libsm_python();
namespace c23 { Last& last() { static Last l; return l; } }

namespace {
// ---- the monitor as seen from Python
void vfCheck(const std::string& key, bool ok, const std::string& detail) { mon().check(key, ok, detail); }
void vfTag(const std::string& t) { mon().tag(t); }
void vfEval(const std::string& s) { mon().evaluation(fnv(s)); }
void vfDistinct(const std::string& what, const std::string& s) { mon().distinctIn(what, fnv(s)); }
void vfSample(const std::string& s) { mon().sample(s); }
py::tuple vfLast() {
  const c23::Last& l = c23::last();
  py::list v;
  if (l.integral) for (long x : l.l) v.append(x); else for (double x : l.d) v.append(x);
  return py::make_tuple(l.calls, l.rows, l.cols, v);
}
BOOST_PYTHON_MODULE(vf) {
  py::def("check", vfCheck); py::def("tag", vfTag); py::def("ev", vfEval); py::def("last", vfLast); py::def("distinct", vfDistinct); py::def("sample", vfSample);
  if (_import_array() < 0) { PyErr_Print(); abort(); }
  c23::conv_1(); c23::conv_2(); c23::conv_3(); c23::conv_4(); c23::conv_5(); c23::conv_6(); c23::conv_D();
}
}
// the exported conversion module itself registers the converters
#include "sm_numpy_eigen_export_module.cpp"

static const char* SCRIPT = R"PY(
import random, sys
import numpy as np
import vf
import libsm_numpy_eigen

T = {'int': np.int32, 'long': np.int64, 'float': np.float32, 'double': np.float64, 'uchar': np.uint8}
SIZES = ['1', '2', '3', '4', '5', '6', 'D']
INTS = {'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'uchar': (0, 255)}

def values(rng, name, n):
    out = []
    for _ in range(n):
        if name in INTS:
            lo, hi = INTS[name]
            k = rng.randrange(4)
            out.append(rng.choice([lo, hi, 0, 1, hi - 1]) if k == 0 else rng.randint(lo, hi) if k == 1 else rng.randint(max(lo, -100), min(hi, 100)))
        else:
            k = rng.randrange(8)
            v = rng.choice([0.0, -0.0, float('inf'), float('-inf'), 1e-310, 1e300, -1e-40, 5e-324, 3e38]) if k == 0 else rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6)
            if name == 'float':
                with np.errstate(over='ignore', under='ignore'):
                    v = float(np.float32(v))
            out.append(v)
    return out

def fill(rng, name, shape, dtype=None):
    n = 1
    for s in shape: n *= s
    return np.array(values(rng, name, n), dtype=dtype or T[name]).reshape(shape)

LAYOUTS = ['C', 'F', 'strided', 'negative', 'zero', 'transposed', 'field', 'misaligned', 'swapped', 'readonly', 'matrix', 'offset', 'swapstrided']

def layout(rng, a, kind):
    """An array of the same values and shape as a, held in memory in another way."""
    if kind == 'C': return np.ascontiguousarray(a).reshape(a.shape)
    if kind == 'F': return np.asfortranarray(a).reshape(a.shape, order='A') if a.ndim == 2 else a.copy()
    if kind in ('strided', 'swapstrided'):
        st = [rng.randint(1, 3) for _ in a.shape]
        dt = a.dtype.newbyteorder() if kind == 'swapstrided' else a.dtype
        big = np.zeros([max(1, s * k) for s, k in zip(a.shape, st)], dtype=dt)
        v = big[tuple(slice(0, s * k, k) for s, k in zip(a.shape, st))]
        v = v[tuple(slice(0, s) for s in a.shape)]
        v[...] = a
        return v
    if kind == 'negative':
        ax = [rng.choice([1, -1]) for _ in a.shape]
        if 1 not in ax or len(ax) == 1: ax[0] = -1
        sl = tuple(slice(None, None, k) for k in ax)
        return np.array(a[sl], order=rng.choice('CF'))[sl]
    if kind == 'zero':
        return None if 0 in a.shape else np.broadcast_to(a[tuple(slice(0, 1) for _ in a.shape)], a.shape)
    if kind == 'transposed':
        return np.array(a.T, order=rng.choice('CF')).T
    if kind == 'field':
        rec = np.zeros(a.shape, dtype=[('p', 'u1', (rng.choice([7, 8]),)), ('v', a.dtype), ('q', 'u1', (rng.choice([3, 8]),))], )
        rec['v'] = a
        return rec['v']
    if kind == 'misaligned':
        buf = np.zeros(a.size * a.dtype.itemsize + 9, dtype='u1')
        v = np.ndarray(a.shape, dtype=a.dtype, buffer=buf.data, offset=rng.randint(1, 7))
        v[...] = a
        return v
    if kind == 'swapped': return a.astype(a.dtype.newbyteorder())
    if kind == 'readonly':
        b = a.copy(); b.setflags(write=False); return b
    if kind == 'matrix': return np.asmatrix(a) if a.ndim == 2 else a.view(type('Sub', (np.ndarray,), {}))
    if kind == 'offset':
        big = np.zeros([s + 3 for s in a.shape], dtype=a.dtype, order=rng.choice('CF'))
        v = big[tuple(slice(k, k + s) for s, k in zip(a.shape, [rng.randint(0, 3) for _ in a.shape]))]
        v[...] = a
        return v

def same(x, y):
    return x == y or (x != x and y != y)

def samelist(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))

def expectedShape(r, c, shape):
    """(rows, cols) a C++ matrix type r x c receives for this array, None when it cannot hold it."""
    fits = lambda n, s: s == 'D' or int(s) == n
    if len(shape) == 2:
        return shape if fits(shape[0], r) and fits(shape[1], c) else None
    if len(shape) != 1: return None
    n = shape[0]
    if r == '1': return (1, n) if fits(n, c) else None
    if c in ('1', 'D'): return (n, 1) if fits(n, r) else None
    return None

def call(f, a):
    n0 = vf.last()[0]
    try:
        out = f(a)
        return out, vf.last(), None
    except TypeError as e:
        return None, None, e

def one(rng, r, c, t):
    f = getattr(vf, 'id_%s_%s_%s' % (r, c, t))
    what = 'Matrix<%s,%s,%s>' % (t, r, c)
    rows = int(r) if r != 'D' else rng.choice([0, 1, 2, 3, 7, 19])
    cols = int(c) if c != 'D' else rng.choice([0, 1, 2, 3, 6, 11])
    vecr, vecc = r == '1', c == '1'
    forms = [(rows, cols)]
    if r == '1': forms.append((cols,))
    elif c in ('1', 'D'): forms.append((rows,))
    for shape in forms:
        for kind in rng.sample(LAYOUTS, 5):
            a = layout(rng, fill(rng, t, shape), kind)
            if a is None: continue
            d = '%s from a %s %s array (%s, strides %s)' % (what, a.shape, a.dtype, kind, a.strides)
            vf.tag('layout ' + kind); vf.distinct('type/shape/layout', '%s %s %s' % (what, len(shape), kind))
            before = a.tobytes(); refs = sys.getrefcount(a); dt = a.dtype
            out, got, err = call(f, a)
            if err is not None:
                vf.check('C23.matchingArrayAccepted', False, d + ': ' + str(err)); continue
            vf.check('C23.matchingArrayAccepted', True, '')
            want = a.reshape(-1).tolist() if type(a) is not np.matrix else np.asarray(a).reshape(-1).tolist()
            exp = expectedShape(r, c, shape)
            vf.check('C23.shapeIntoCpp', (got[1], got[2]) == exp, d + ': C++ received %d x %d, expected %s' % (got[1], got[2], exp))
            vf.check('C23.valuesIntoCpp', samelist(got[3], want), d + ': C++ received %s, expected %s' % (got[3][:8], want[:8]))
            vf.check('C23.inputUntouched', a.tobytes() == before and sys.getrefcount(a) == refs and a.dtype == dt, d + ': references %d -> %d' % (refs, sys.getrefcount(a)))
            # the way back
            oshape = (exp[0] * exp[1],) if vecr or vecc else exp
            vf.check('C23.shapeIntoPython', type(out) is np.ndarray and out.shape == oshape, d + ': returned %s, expected %s' % (getattr(out, 'shape', type(out)), oshape))
            vf.check('C23.typeIntoPython', out.dtype == np.dtype(T[t]) and out.dtype.isnative, d + ': returned %s' % out.dtype)
            vf.check('C23.valuesIntoPython', samelist(out.reshape(-1).tolist(), want), d + ': returned %s, expected %s' % (out.reshape(-1).tolist()[:8], want[:8]))
            vf.check('C23.resultIndependent', out.flags.owndata and out.flags.writeable and not np.shares_memory(out, a) and sys.getrefcount(out) == 2, d + ': owndata %s, references %d' % (out.flags.owndata, sys.getrefcount(out)))
            vf.ev(d + repr(want[:20]))
    # arrays of another element type: refused or unchanged in value
    src = rng.choice([np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.float16, np.float32, np.float64, np.longdouble, np.longlong, np.ulonglong, np.bool_])
    a = np.array([rng.randint(0, 100) for _ in range(rows * cols)]).astype(src).reshape(rows, cols)
    if src is not np.bool_ and np.issubdtype(src, np.signedinteger) or src in (np.float32, np.float64):
        if t != 'uchar': a = -a
    a = layout(rng, a, rng.choice(['C', 'F', 'strided', 'negative', 'swapped']))
    out, got, err = call(f, a)
    if err is None:
        want = [float(x) for x in a.reshape(-1).tolist()]
        vf.check('C23.otherTypeValues', [float(x) for x in got[3]] == want, '%s from %s: C++ received %s, expected %s' % (what, a.dtype, got[3][:8], want[:8]))
        vf.tag('element type accepted %s -> %s' % (np.dtype(src).name, t))
    else:
        vf.tag('element type refused %s -> %s' % (np.dtype(src).name, t))
        wide = {'double': (np.int32, np.int64, np.float32), 'float': (np.int32,), 'long': (np.int32,)}.get(t, ())
        vf.check('C23.widerTypeAccepted', src not in wide, '%s refused %s: %s' % (what, a.dtype, err))
    # what cannot be held must be refused
    for _ in range(4):
        k = rng.randrange(6)
        if k == 0: x = fill(rng, t, (rng.randint(0, 8), rng.randint(0, 8)))
        elif k == 1: x = fill(rng, t, (rng.randint(0, 8),))
        elif k == 2: x = fill(rng, t, (rows, cols, rng.choice([1, 2])))
        elif k == 3: x = fill(rng, t, ())
        elif k == 4: x = np.zeros((rows, cols), dtype=rng.choice(['c8', 'c16', 'O', 'S4', 'U3', 'M8[s]', 'm8[s]', [('a', 'f8')]]))
        else: x = rng.choice([None, 'abc', 3, 2.5, [[1.0] * cols] * rows, (1.0,) * rows, {}, object(), b'xx'])
        desc = '%s from %s' % (what, (x.shape, x.dtype) if isinstance(x, np.ndarray) else repr(x)[:60])
        ok = isinstance(x, np.ndarray) and x.dtype == np.dtype(T[t]) and expectedShape(r, c, x.shape) is not None
        try:
            out, got, err = call(f, x)
        except Exception as e:
            vf.check('C23.refusedWithTypeError', False, desc + ': raised %r' % e); continue
        if ok:
            vf.check('C23.matchingArrayAccepted', err is None, desc + ': %s' % err)
            if err is None: vf.check('C23.valuesIntoCpp', samelist(got[3], x.reshape(-1).tolist()), desc + ': C++ received %s' % got[3][:8])
        else:
            vf.check('C23.refusedWithTypeError', err is not None, desc + ': accepted as %s x %s' % (got and got[1], got and got[2]))
            vf.tag('refused')

def conversions(seed, t):
    rng = random.Random(seed)
    for r in SIZES:
        for c in SIZES:
            one(rng, r, c, t)

def lifetime(seed):
    """Many conversions in a row: nothing may accumulate, results stay intact after the argument is gone."""
    import gc
    rng = random.Random(seed)
    keep = []
    for _ in range(60):
        t = rng.choice(sorted(T)); r, c = rng.choice(SIZES), rng.choice(SIZES)
        a = fill(rng, t, (int(r) if r != 'D' else rng.randint(0, 40), int(c) if c != 'D' else rng.randint(0, 40)))
        out = getattr(vf, 'id_%s_%s_%s' % (r, c, t))(layout(rng, a, rng.choice(['C', 'F', 'negative', 'strided'])))
        keep.append((a.reshape(-1).tolist(), out))
        if rng.random() < 0.3: gc.collect()
    for want, out in keep:
        vf.check('C23.resultSurvives', samelist(out.reshape(-1).tolist(), want), 'returned array changed later')
        vf.check('C23.resultReferences', sys.getrefcount(out) == 3, 'references %d' % sys.getrefcount(out))
    vf.ev('lifetime %d' % seed)
)PY";

static py::object& mainNs() {
  static py::object* ns = nullptr;
  if (!ns) {
    PyImport_AppendInittab("vf", PyInit_vf);
    PyImport_AppendInittab("libsm_numpy_eigen", PyInit_libsm_numpy_eigen);
    PyImport_AppendInittab("libsm_python", PyInit_libsm_python);
    Py_Initialize();
    ns = new py::object(py::import("__main__").attr("__dict__"));
    if (_import_array() < 0) { PyErr_Print(); abort(); }
    py::exec(SCRIPT, *ns, *ns);
  }
  return *ns;
}
static std::string pyError() {
  PyObject *t = 0, *v = 0, *b = 0; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
  std::string s = "?";
  if (v) { PyObject* r = PyObject_Repr(v); if (r) { s = PyUnicode_AsUTF8(r); Py_DECREF(r); } }
  if (b) { PyObject* ln = PyObject_GetAttrString(b, "tb_lineno"); if (ln) { s += " line " + std::to_string(PyLong_AsLong(ln)); Py_DECREF(ln); } }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); PyErr_Clear();
  return s;
}
// Runs f; a Python exception becomes a violation of `key`.
template <class F> bool guard(const std::string& key, const std::string& what, F f) {
  try { f(); } catch (const py::error_already_set&) { std::string e = pyError(); return mon().check(key, false, what + " raised " + e); }
  return mon().check(key, true);
}
template <class F> void raises(const std::string& key, const std::string& what, F f) {
  bool t = false;
  try { f(); } catch (const py::error_already_set&) { t = true; PyErr_Clear(); }
  mon().check(key, t, what + ": no exception");
}
static py::object sm_() { mainNs(); static py::object* m = new py::object(py::import("libsm_python")); return *m; }
static py::object fn(const char* n) { return sm_().attr(n); }

// numpy arrays made and read by the harness through the C interface, not through the converters under test
static py::object N(const MatrixXd& m) {
  npy_intp d[2] = {m.rows(), m.cols()};
  PyObject* o = PyArray_SimpleNew(2, d, NPY_DOUBLE);
  for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < m.cols(); ++c) *(double*)PyArray_GETPTR2((PyArrayObject*)o, r, c) = m(r, c);
  return py::object(py::handle<>(o));
}
static py::object V(const VectorXd& m) {
  npy_intp d[1] = {m.size()};
  PyObject* o = PyArray_SimpleNew(1, d, NPY_DOUBLE);
  for (int r = 0; r < m.size(); ++r) *(double*)PyArray_GETPTR1((PyArrayObject*)o, r) = m[r];
  return py::object(py::handle<>(o));
}
static MatrixXd M(const py::object& o) {
  if (PyFloat_Check(o.ptr())) return MatrixXd::Constant(1, 1, PyFloat_AsDouble(o.ptr()));
  if (!PyArray_Check(o.ptr())) return MatrixXd::Constant(1, 1, NAN);
  PyArrayObject* a = (PyArrayObject*)o.ptr();
  if (PyArray_TYPE(a) != NPY_DOUBLE || PyArray_NDIM(a) < 1 || PyArray_NDIM(a) > 2) return MatrixXd::Constant(1, 1, NAN);
  int r = PyArray_DIM(a, 0), c = PyArray_NDIM(a) == 2 ? PyArray_DIM(a, 1) : 1;
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = PyArray_NDIM(a) == 2 ? *(double*)PyArray_GETPTR2(a, i, j) : *(double*)PyArray_GETPTR1(a, i);
  return m;
}
static double D(const py::object& o) { return py::extract<double>(o)(); }
static std::string typeName(const py::object& o) { return py::extract<std::string>(o.attr("__class__").attr("__name__"))(); }
static py::object tdiv(const py::object& a, const py::object& b) { return py::object(py::handle<>(PyNumber_TrueDivide(a.ptr(), b.ptr()))); }
static const double TOL = 1e-12;
template <class A> void same(const std::string& what, const py::object& got, const A& want_) {
  MatrixXd want = want_;
  mon().near("C23.sameAsCpp", M(got), want, TOL * (1 + (want.size() ? want.cwiseAbs().maxCoeff() : 0)), what);
}
static void sameD(const std::string& what, const py::object& got, double want) {
  bool f = PyFloat_Check(got.ptr()) || PyLong_Check(got.ptr());
  mon().check("C23.sameAsCpp", f, what + " is not a number");
  if (f) mon().near("C23.sameAsCpp", D(got), want, TOL * (1 + std::fabs(want)), what);
}
// f(...) in Python against the value computed in C++
#define FUN(name, want, ...) guard("C23.callable", name, [&] { same(name, fn(name)(__VA_ARGS__), want); })
#define FUND(name, want, ...) guard("C23.callable", name, [&] { sameD(name, fn(name)(__VA_ARGS__), want); })

static void conv(Rng& rng, const char* t) {
  py::object& ns = mainNs();
  guard("C23.script", "conversions", [&] { ns["conversions"](rng.next() >> 20, t); });
}
VF_GROUP(conv_int, 8, 60) { conv(rng, "int"); }
VF_GROUP(conv_long, 8, 60) { conv(rng, "long"); }
VF_GROUP(conv_float, 8, 60) { conv(rng, "float"); }
VF_GROUP(conv_double, 16, 120) { conv(rng, "double"); }
VF_GROUP(conv_uchar, 8, 60) { conv(rng, "uchar"); }
VF_GROUP(lifetime, 20, 200) { py::object& ns = mainNs(); guard("C23.script", "lifetime", [&] { ns["lifetime"](rng.next() >> 20); }); }

static Vector4d quat(Rng& r) { Vector4d q = r.gvec(4); return q / q.norm(); }
static Matrix3d rot(Rng& r) { return quat2r(quat(r)); }

VF_GROUP(functions, 300, 3000) {
  mainNs();
  double a = rng.u(-3, 3), b = rng.u(-1.4, 1.4), c = rng.u(-3, 3);
  Vector3d v = rng.v3(3), w = rng.v3(3); Vector4d q = quat(rng), p = quat(rng), h = rng.gvec(4); if (std::fabs(h[3]) < 0.1) h[3] = 1;
  Matrix3d C = rot(rng); Matrix4d T = rt2Transform(C, v), T2 = Transformation(q, w).T(); Vector6d d = rng.gvec(6);
  mon().evaluation(hashm(T, hashm(d, hashm(q))));
  FUN("Rx", Rx(a), a); FUN("Ry", Ry(a), a); FUN("Rz", Rz(a), a); FUN("Cx", Cx(a), a); FUN("Cy", Cy(a), a); FUN("Cz", Cz(a), a);
  FUN("rph2R", rph2R(a, b, c), a, b, c); FUN("rph2R", rph2R(Vector3d(a, b, c)), V(Vector3d(a, b, c)));
  FUN("rph2C", rph2C(a, b, c), a, b, c); FUN("rph2C", rph2C(Vector3d(a, b, c)), V(Vector3d(a, b, c)));
  FUN("C2rph", C2rph(C), N(C)); FUN("R2rph", R2rph(C), N(C));
  FUN("crossMx", crossMx(a, b, c), a, b, c); FUN("crossMx", crossMx(v[0], v[1], v[2]), V(v));
  FUN("axisAngle2R", axisAngle2R(a, b, c), a, b, c); FUN("axisAngle2R", axisAngle2R(v), V(v)); FUN("R2AxisAngle", R2AxisAngle(C), N(C));
  FUND("angleMod", angleMod(3 * a), 3 * a); FUND("deg2rad", deg2rad(a), a); FUND("rad2deg", rad2deg(a), a);
  FUN("quat2r", quat2r(q), V(q)); FUN("r2quat", r2quat(C), N(C)); FUN("axisAngle2quat", axisAngle2quat(v), V(v)); FUN("quat2AxisAngle", quat2AxisAngle(q), V(q));
  FUN("quatPlus", quatPlus(q), V(q)); FUN("quatOPlus", quatOPlus(q), V(q)); FUN("quatInv", quatInv(q), V(q)); FUN("qeps", qeps(q), V(q)); FUND("qeta", qeta(q), V(q));
  FUN("quatJacobian", quatJacobian(q), V(q)); FUN("updateQuat", updateQuat(q, w), V(q), V(w)); FUN("quatIdentity", quatIdentity());
  FUN("quatS", quatS(q), V(q)); FUN("quatInvS", quatInvS(q), V(q)); FUN("quatRotate", quatRotate(q, v), V(q), V(v));
  FUN("qoplus", qoplus(q, p), V(q), V(p)); FUN("qplus", qplus(q, p), V(q), V(p)); FUN("qlog", qlog(q), V(q)); FUN("qexp", qexp(v), V(v));
  double s = rng.u(-0.2, 1.2); FUN("qslerp", qslerp(q, p, s), V(q), V(p), s);
  VectorXd l0 = rng.gvec(rng.i(1, 9)), l1 = rng.gvec(l0.size()); FUN("lerp", lerp(l0, l1, s), V(l0), V(l1), s);
  FUN("rt2Transform", rt2Transform(C, v), N(C), V(v)); FUN("transform2C", transform2C(T), N(T)); FUN("transform2rho", transform2rho(T), N(T)); FUN("transform2rhoHomogeneous", transform2rhoHomogeneous(T), N(T));
  FUN("boxPlus", boxPlus(d), V(d)); FUN("boxMinus", boxMinus(h), V(h)); FUN("boxTimes", boxTimes(T), N(T)); FUN("inverseTransform", inverseTransform(T), N(T));
  FUN("toTEuler", toTEuler(d), V(d)); FUN("toTEuler", toTEuler(d[0], d[1], d[2], d[3], d[4], d[5]), d[0], d[1], d[2], d[3], d[4], d[5]); FUN("fromTEuler", fromTEuler(T), N(T));
  FUN("toHomogeneous", toHomogeneous(v), V(v)); FUN("fromHomogeneous", fromHomogeneous(h), V(h)); FUN("toHomogeneousJacobian", toHomogeneousJacobian(v), V(v)); FUN("fromHomogeneousJacobian", fromHomogeneousJacobian(h), V(h));
  MatrixXd pts = rng.mat(3, rng.i(1, 8)), hp = rng.mat(4, rng.i(1, 8)); hp.row(3).array() += 2;
  FUN("toHomogeneousColumns", toHomogeneousColumns(pts), N(pts)); FUN("fromHomogeneousColumns", fromHomogeneousColumns(hp), N(hp));
  MatrixXd S = rng.spd(rng.i(1, 6)), sq; sm::eigen::computeMatrixSqrt(S, sq); FUN("computeMatrixSqrt", sq, N(S));
  guard("C23.callable", "transformationAndJacobian", [&] {
    Vector4d o; Eigen::Matrix<double, 4, 6> J;
    transformationAndJacobian(T, h, o, J); py::object r = fn("transformationAndJacobian")(N(T), V(h)); same("transformationAndJacobian point", r[0], o); same("transformationAndJacobian Jacobian", r[1], J);
    inverseTransformationAndJacobian(T, h, o, J); r = fn("inverseTransformationAndJacobian")(N(T), V(h)); same("inverseTransformationAndJacobian point", r[0], o); same("inverseTransformationAndJacobian Jacobian", r[1], J);
  });
  // wrong shapes reach Python as TypeError and leave the interpreter usable
  raises("C23.wrongShapeRaises", "quat2r of a 3-vector", [&] { fn("quat2r")(V(v)); });
  raises("C23.wrongShapeRaises", "rph2R of a 4-vector", [&] { fn("rph2R")(V(q)); });
  raises("C23.wrongShapeRaises", "transform2C of a 3x3", [&] { fn("transform2C")(N(C)); });
  raises("C23.cppExceptionRaises", "computeMatrixSqrt of a rectangle", [&] { fn("computeMatrixSqrt")(N(MatrixXd::Zero(2, 3))); });
  // integer and single precision arrays are valid arguments of functions taking double
  guard("C23.callable", "integer argument", [&] { Vector4d e = Vector4d::Zero(); e[rng.i(0, 3)] = rng.b() ? 1 : -1; same("quat2r of an integer array", fn("quat2r")(V(e).attr("astype")(rng.b() ? "i4" : "i8")), quat2r(e)); });
}

template <class R> static void kin(Rng& rng, const char* name) {
  guard("C23.callable", name, [&] {
    R r; py::object o = fn(name)();
    Vector3d p = rng.v3(1.2), pd = rng.v3(2);
    std::string n(name);
    Matrix3d C = r.parametersToRotationMatrix(p);
    same(n + ".parametersToRotationMatrix", o.attr("parametersToRotationMatrix")(V(p)), C);
    same(n + ".rotationMatrixToParameters", o.attr("rotationMatrixToParameters")(N(C)), r.rotationMatrixToParameters(C));
    same(n + ".parametersToSMatrix", o.attr("parametersToSMatrix")(V(p)), r.parametersToSMatrix(p));
    Eigen::Matrix<double, 3, 6> J; Vector3d om;
    bool threw = false;
    try { om = r.angularVelocityAndJacobian(p, pd, &J); } catch (const std::exception&) { threw = true; }
    if (threw) raises("C23.cppExceptionRaises", n + ".angularVelocityAndJacobian", [&] { o.attr("angularVelocityAndJacobian")(V(p), V(pd)); });
    else { py::object t = o.attr("angularVelocityAndJacobian")(V(p), V(pd)); same(n + " angular velocity", t[0], om); same(n + " angular velocity Jacobian", t[1], J); }
    mon().evaluation(hashm(p, fnv(name)));
  });
}
VF_GROUP(rotationKinematics, 60, 1500) {
  kin<EulerAnglesZYX>(rng, "EulerAnglesZYX"); kin<EulerAnglesYawPitchRoll>(rng, "EulerAnglesYawPitchRoll"); kin<RotationVector>(rng, "RotationVector"); kin<EulerRodriguez>(rng, "EulerRodriguez");
}

// Objects: the Python object and its C++ twin are built from the same numbers and compared through every accessor.
static void sameT(const std::string& what, const py::object& o, const Transformation& t) {
  same(what + ".T", o.attr("T")(), t.T()); same(what + ".C", o.attr("C")(), t.C()); same(what + ".t", o.attr("t")(), t.t()); same(what + ".q", o.attr("q")(), t.q()); same(what + ".T3x4", o.attr("T3x4")(), t.T3x4()); same(what + ".S", o.attr("S")(), t.S());
}
static void sameUT(const std::string& what, const py::object& o, const UncertainTransformation& t) {
  if (!mon().check("C23.resultKind", typeName(o) == "UncertainTransformation", what + " is a " + typeName(o))) return;
  sameT(what, o, t); same(what + ".U", o.attr("U")(), t.U());
}
static void sameP(const std::string& what, const py::object& o, const HomogeneousPoint& p) { same(what + ".toHomogeneous", o.attr("toHomogeneous")(), p.toHomogeneous()); same(what + ".toEuclidean", o.attr("toEuclidean")(), p.toEuclidean()); }
static void sameUP(const std::string& what, const py::object& o, const UncertainHomogeneousPoint& p) {
  if (!mon().check("C23.resultKind", typeName(o) == "UncertainHomogeneousPoint", what + " is a " + typeName(o))) return;
  sameP(what, o, p); same(what + ".U4", o.attr("U4")(), p.U4()); same(what + ".U3", o.attr("U3")(), p.U3());
}
static void kindIs(const std::string& what, const py::object& o, const char* k) { mon().check("C23.resultKind", typeName(o) == k, what + " is a " + typeName(o) + ", expected " + k); }

VF_GROUP(transformations, 200, 2000) {
  mainNs();
  Vector4d q = quat(rng), q2 = quat(rng); Vector3d t = rng.v3(5), t2 = rng.v3(5), e = rng.v3(4);
  Matrix6d U = rng.spd(6), U2 = rng.spd(6); Matrix3d U3 = rng.spd(3); Matrix4d U4 = rng.spd(4); double s1 = rng.u(0.1, 2), s2 = rng.u(0.1, 2);
  Vector4d h = rng.gvec(4); if (std::fabs(h[3]) < 0.2) h[3] = 1; Vector4d hu = h / h.norm();
  mon().evaluation(hashm(q, hashm(t, hashm(U))));
  Transformation T(q, t), T2(q2, t2); Matrix4d X = T.T(), X2 = T2.T();
  auto pT = [&](const Vector4d& a, const Vector3d& b) { return fn("Transformation")(V(a), V(b)); };
  #define TRY(what, ...) guard("C23.callable", what, [&] __VA_ARGS__)
  TRY("Transformation()", { sameT("Transformation()", fn("Transformation")(), Transformation()); });
  TRY("Transformation(q,t)", { sameT("Transformation(q,t)", pT(q, t), T); });
  TRY("Transformation(T)", { sameT("Transformation(T)", fn("Transformation")(N(X)), Transformation(X)); });
  TRY("inverse", { py::object i = pT(q, t).attr("inverse")(); kindIs("Transformation.inverse()", i, "Transformation"); sameT("Transformation.inverse()", i, T.inverse()); });
  TRY("T*T", { py::object r = pT(q, t) * pT(q2, t2); kindIs("T*T", r, "Transformation"); sameT("T*T", r, T * T2); });
  TRY("T*vector", { same("T*vector", pT(q, t) * V(e), T * e); });
  TRY("T*point", { py::object r = pT(q, t) * fn("HomogeneousPoint")(V(h)); kindIs("T*point", r, "HomogeneousPoint"); sameP("T*point", r, T * HomogeneousPoint(h)); });
  // constructors of the uncertain transformation
  UncertainTransformation u(q, t, U), u2(q2, t2, U2);
  auto pU = [&](const Vector4d& a, const Vector3d& b, const Matrix6d& c) { return fn("UncertainTransformation")(V(a), V(b), N(c)); };
  TRY("UncertainTransformation()", { sameUT("UncertainTransformation()", fn("UncertainTransformation")(), UncertainTransformation()); });
  TRY("UncertainTransformation(q,t,U)", { sameUT("UncertainTransformation(q,t,U)", pU(q, t, U), u); });
  TRY("UncertainTransformation(T,U)", { sameUT("UncertainTransformation(matrix,U)", fn("UncertainTransformation")(N(X), N(U)), UncertainTransformation(X, U)); });
  TRY("UncertainTransformation(T,s,s)", { sameUT("UncertainTransformation(matrix,s,s)", fn("UncertainTransformation")(N(X), s1, s2), UncertainTransformation(X, s1, s2)); });
  TRY("UncertainTransformation(q,t,s,s)", { sameUT("UncertainTransformation(q,t,s,s)", fn("UncertainTransformation")(V(q), V(t), s1, s2), UncertainTransformation(q, t, s1, s2)); });
  TRY("UncertainTransformation(Transformation,U)", { sameUT("UncertainTransformation(Transformation,U)", fn("UncertainTransformation")(pT(q, t), N(U)), UncertainTransformation(T, U)); });
  TRY("UncertainTransformation(Transformation,s,s)", { sameUT("UncertainTransformation(Transformation,s,s)", fn("UncertainTransformation")(pT(q, t), s1, s2), UncertainTransformation(T, s1, s2)); });
  TRY("UncertainTransformation(Transformation)", { sameUT("UncertainTransformation(Transformation)", fn("UncertainTransformation")(pT(q, t)), UncertainTransformation(T)); });
  TRY("UncertainTransformation(T)", { sameUT("UncertainTransformation(matrix)", fn("UncertainTransformation")(N(X)), UncertainTransformation(X)); });
  TRY("UncertainTransformation(q,t)", { sameUT("UncertainTransformation(q,t)", fn("UncertainTransformation")(V(q), V(t)), UncertainTransformation(q, t)); });
  // products and inverses keep the uncertainty
  TRY("U*U", { sameUT("UncertainTransformation*UncertainTransformation", pU(q, t, U) * pU(q2, t2, U2), u * u2); });
  TRY("U*T", { sameUT("UncertainTransformation*Transformation", pU(q, t, U) * pT(q2, t2), u * T2); });
  TRY("T*U", { sameUT("Transformation*UncertainTransformation", pT(q, t) * pU(q2, t2, U2), T * u2); });
  TRY("U inverse", { sameUT("UncertainTransformation.inverse()", pU(q, t, U).attr("inverse")(), u.inverse()); });
  TRY("U setU", { py::object o = pU(q, t, U); UncertainTransformation x = u; o.attr("setU")(N(U2)); x.setU(U2); sameUT("setU", o, x); o.attr("setUOplus")(N(U)); x.setUOplus(U); sameUT("setUOplus", o, x); });
  HomogeneousPoint p(h); UncertainHomogeneousPoint up(h, U4);
  TRY("U*p", { sameUP("UncertainTransformation*HomogeneousPoint", pU(q, t, U) * fn("HomogeneousPoint")(V(h)), u * p); });
  TRY("U*up", { sameUP("UncertainTransformation*UncertainHomogeneousPoint", pU(q, t, U) * fn("UncertainHomogeneousPoint")(V(h), N(U4)), u * up); });
  TRY("T*up", { sameUP("Transformation*UncertainHomogeneousPoint", pT(q, t) * fn("UncertainHomogeneousPoint")(V(h), N(U4)), T * up); });
  // points
  TRY("HomogeneousPoint()", { same("HomogeneousPoint()", fn("HomogeneousPoint")().attr("toHomogeneous")(), HomogeneousPoint().toHomogeneous()); });
  TRY("HomogeneousPoint(4)", { sameP("HomogeneousPoint(4-vector)", fn("HomogeneousPoint")(V(h)), p); });
  TRY("HomogeneousPoint(3)", { sameP("HomogeneousPoint(3-vector)", fn("HomogeneousPoint")(V(e)), HomogeneousPoint(e)); });
  TRY("UncertainHomogeneousPoint(4)", { sameUP("UncertainHomogeneousPoint(4-vector)", fn("UncertainHomogeneousPoint")(V(h)), UncertainHomogeneousPoint(h)); });
  TRY("UncertainHomogeneousPoint(3)", { sameUP("UncertainHomogeneousPoint(3-vector)", fn("UncertainHomogeneousPoint")(V(e)), UncertainHomogeneousPoint(e)); });
  TRY("UncertainHomogeneousPoint(p)", { sameUP("UncertainHomogeneousPoint(point)", fn("UncertainHomogeneousPoint")(fn("HomogeneousPoint")(V(h))), UncertainHomogeneousPoint(p)); });
  TRY("UncertainHomogeneousPoint(3,3x3)", { sameUP("UncertainHomogeneousPoint(3-vector,3x3)", fn("UncertainHomogeneousPoint")(V(e), N(U3)), UncertainHomogeneousPoint(e, U3)); });
  TRY("UncertainHomogeneousPoint(4,4x4)", { sameUP("UncertainHomogeneousPoint(4-vector,4x4)", fn("UncertainHomogeneousPoint")(V(h), N(U4)), up); });
  TRY("UncertainHomogeneousPoint(p,4x4)", { sameUP("UncertainHomogeneousPoint(point,4x4)", fn("UncertainHomogeneousPoint")(fn("HomogeneousPoint")(V(h)), N(U4)), UncertainHomogeneousPoint(p, U4)); });
  TRY("UncertainHomogeneousPoint(4,3x3)", { sameUP("UncertainHomogeneousPoint(4-vector,3x3)", fn("UncertainHomogeneousPoint")(V(hu), N(U3)), UncertainHomogeneousPoint(hu, U3)); });
  TRY("UncertainHomogeneousPoint(p,3x3)", { sameUP("UncertainHomogeneousPoint(point,3x3)", fn("UncertainHomogeneousPoint")(fn("HomogeneousPoint")(V(hu)), N(U3)), UncertainHomogeneousPoint(HomogeneousPoint(hu), U3)); });
  Vector4d g = rng.gvec(4); g[3] = rng.u(0.5, 2) * (h[3] > 0 ? 1 : -1); Matrix4d G4 = rng.spd(4); HomogeneousPoint pg(g); UncertainHomogeneousPoint ug(g, G4);
  auto pP = [&](const Vector4d& a) { return fn("HomogeneousPoint")(V(a)); };
  auto pUP = [&](const Vector4d& a, const Matrix4d& b) { return fn("UncertainHomogeneousPoint")(V(a), N(b)); };
  TRY("p+p", { sameP("point+point", pP(h) + pP(g), p + pg); sameP("point-point", pP(h) - pP(g), p - pg); });
  TRY("p+up", { sameUP("point+uncertain", pP(h) + pUP(g, G4), p + ug); sameUP("point-uncertain", pP(h) - pUP(g, G4), p - ug); });
  TRY("up+p", { sameUP("uncertain+point", pUP(h, U4) + pP(g), up + pg); sameUP("uncertain-point", pUP(h, U4) - pP(g), up - pg); });
  TRY("up+up", { sameUP("uncertain+uncertain", pUP(h, U4) + pUP(g, G4), up + ug); sameUP("uncertain-uncertain", pUP(h, U4) - pUP(g, G4), up - ug); });
  TRY("up.normalize", { py::object o = pUP(h, U4); UncertainHomogeneousPoint x = up; o.attr("normalize")(); x.normalize(); sameUP("normalize", o, x); o.attr("setU")(N(G4)); x.setU(G4); sameUP("setU of a point", o, x); same("U_av_form", o.attr("U_av_form")(), x.U_av_form()); o.attr("setUOplus")(N(U3)); x.setUOplus(U3); sameUP("setUOplus of a point", o, x); });
  TRY("p.normalize", { py::object o = pP(h); HomogeneousPoint x = p; o.attr("normalize")(); x.normalize(); sameP("normalize", o, x); o.attr("setZero")(); x.setZero(); same("setZero", o.attr("toHomogeneous")(), x.toHomogeneous()); });
  double a0 = rng.u(0, 1), a1 = a0 + rng.u(0.5, 2), ai = rng.u(a0, a1);
  TRY("interpolateTransformations", { sameT("interpolateTransformations", fn("interpolateTransformations")(pT(q, t), a0, pT(q2, t2), a1, ai), interpolateTransformations(T, a0, T2, a1, ai)); });
  TRY("slerpTransformations", { sameT("slerpTransformations", fn("slerpTransformations")(pT(q, t), pT(q2, t2), ai / a1), slerpTransformations(T, T2, ai / a1)); });
  TRY("setIdentity", { py::object o = pT(q, t); o.attr("setIdentity")(); sameT("setIdentity", o, Transformation()); });
  TRY("setRandom", {
    boost::uint64_t s = rng.next() >> 40;
    py::object o = pT(q, t); Transformation x; (srand(unsigned(s)), sm::random::seed(s)); x.setRandom(); (srand(unsigned(s)), sm::random::seed(s)); o.attr("setRandom")(); sameT("setRandom", o, x);
    (srand(unsigned(s)), sm::random::seed(s)); x.setRandom(s1, s2); (srand(unsigned(s)), sm::random::seed(s)); o.attr("setRandom")(s1, s2); sameT("setRandom(t,r)", o, x);
  });
  TRY("pickle", {
    static py::object pickle = py::import("pickle");
    py::object o = pickle.attr("loads")(pickle.attr("dumps")(pT(q, t), rng.i(0, 4)));
    kindIs("unpickled transformation", o, "Transformation");
    mon().check("C23.pickleExact", M(o.attr("q")()) == MatrixXd(T.q()) && M(o.attr("t")()) == MatrixXd(T.t()), "unpickled q " + mstr(M(o.attr("q")())) + " t " + mstr(M(o.attr("t")())) + ", pickled q " + mstr(T.q()) + " t " + mstr(T.t()));
  });
  TRY("save/load", {
    std::string f = scratch() + "/c23-" + std::to_string(getpid()) + ".ba";
    pU(q, t, U).attr("save")(f); py::object o = fn("UncertainTransformation")(); o.attr("load")(f); sameUT("loaded UncertainTransformation", o, u);
    pT(q, t).attr("save")(f); py::object o2 = fn("Transformation")(); o2.attr("load")(f); sameT("loaded Transformation", o2, T);
    unlink(f.c_str());
  });
  // results handed to Python are copies
  TRY("copies", { py::object o = pT(q, t); py::object tt = o.attr("t")(); tt[0] = 1e9; same("t() after writing to an earlier result", o.attr("t")(), T.t()); });
}

template <int K> static void uvec(Rng& rng) {
  typedef UncertainVector<K> UV; typedef UncertainVector<1> US;
  std::string n = "UncertainVector" + std::to_string(K);
  VectorXd a = rng.gvec(K), b = rng.gvec(K); MatrixXd A = rng.spd(K), B = rng.spd(K); double s = rng.u(-2, 2), ss = rng.u(0.1, 2);
  mon().evaluation(hashm(a, hashm(A)));
  UV x(a, A), y(b, B); US z; z = US(s, ss);
  auto same2 = [&](const std::string& what, const py::object& o, const UV& u) { if (mon().check("C23.resultKind", typeName(o) == n, what + " is a " + typeName(o))) { same(n + what, o.attr("v")(), u.v()); same(n + what + " covariance", o.attr("E")(), u.E()); same(n + what, o.attr("mean")(), u.mean()); same(n + what, o.attr("covariance")(), u.covariance()); } };
  auto sameS = [&](const std::string& what, const py::object& o, const US& u) { if (mon().check("C23.resultKind", typeName(o) == "UncertainScalar", what + " is a " + typeName(o))) { sameD(n + what, o.attr("v")(), u.v()); sameD(n + what + " variance", o.attr("E")(), u.E()); } };
  auto pv = [&](const VectorXd& v, const MatrixXd& E) { return fn(n.c_str())(V(v), N(E)); };
  TRY(n, {
    same2("()", fn(n.c_str())(), UV()); same2("(v)", fn(n.c_str())(V(a)), UV(a)); same2("(v,E)", pv(a, A), x);
    same2("+", pv(a, A) + pv(b, B), x + y); same2("-", pv(a, A) - pv(b, B), x - y); same2("+vector", pv(a, A) + V(b), x + typename UV::value_t(b)); same2("-vector", pv(a, A) - V(b), x - typename UV::value_t(b));
    same2("*scalar", pv(a, A) * fn("UncertainScalar")(s, ss), x * z); same2("*double", pv(a, A) * py::object(s), x * s);
    sameS(".dot", pv(a, A).attr("dot")(pv(b, B)), x.dot(y)); sameS(".dotV", pv(a, A).attr("dotV")(V(b)), x.dot(typename UV::value_t(b)));
    UV nx = x; same2(".normalized", pv(a, A).attr("normalized")(), nx.normalized());
    py::object o = pv(a, A); o.attr("normalize")(); UV m = x; m.normalize(); same2(".normalize", o, m);
    o.attr("setMean")(V(b)); m.setMean(b); o.attr("setCovariance")(N(B)); m.setCovariance(B); same2(" after set", o, m);
  });
}
VF_GROUP(uncertainVectors, 100, 1000) {
  mainNs();
  uvec<2>(rng); uvec<3>(rng); uvec<4>(rng); uvec<5>(rng); uvec<6>(rng);
  TRY("UncertainScalar", {
    typedef UncertainVector<1> US; double a = rng.u(-3, 3), A = rng.u(0.1, 2), b = rng.u(0.5, 3), B = rng.u(0.1, 2); US x(a, A), y(b, B);
    auto S = [&](double v, double e) { return fn("UncertainScalar")(v, e); };
    auto eq = [&](const char* w, const py::object& o, const US& u) { sameD(std::string("UncertainScalar ") + w, o.attr("v")(), u.v()); sameD(std::string("UncertainScalar variance ") + w, o.attr("E")(), u.E()); };
    eq("(v,E)", S(a, A), x); eq("+", S(a, A) + S(b, B), x + y); eq("-", S(a, A) - S(b, B), x - y); eq("*", S(a, A) * S(b, B), x * y); eq("/", tdiv(S(a, A), S(b, B)), x / y);
    eq("+d", S(a, A) + py::object(b), x + b); eq("-d", S(a, A) - py::object(b), x - b); eq("*d", S(a, A) * py::object(b), x * b); eq("/d", tdiv(S(a, A), py::object(b)), x / b);
    eq("dot", S(a, A).attr("dot")(S(b, B)), x.dot(y)); eq("dotV", S(a, A).attr("dotV")(b), x.dot(b));
  });
}

struct Capture : sm::logging::Logger {
  std::vector<std::string> got;
  void logImplementation(const sm::logging::LoggingEvent& e) override { got.push_back(std::string(e.streamName) + "|" + std::to_string(int(e.level)) + "|" + e.file + "|" + std::to_string(e.line) + "|" + e.function + "|" + e.message); }
};

VF_GROUP(services, 100, 800) {
  mainNs();
  // archives
  TRY("MatrixArchive", {
    py::object o = fn("MatrixArchive")(); sm::MatrixArchive ar; std::string f = scratch() + "/c23a-" + std::to_string(getpid());
    MatrixXd A = rng.mat(rng.i(1, 7), rng.i(1, 7)); VectorXd v = rng.gvec(rng.i(1, 9)); double s = rng.n();
    o.attr("setMatrix")("A", N(A)); o.attr("setVector")("v", V(v)); o.attr("setScalar")("s", s); o.attr("setString")("str", "text");
    same("MatrixArchive.getMatrix", o.attr("getMatrix")("A"), A); same("MatrixArchive.getVector", o.attr("getVector")("v"), v); sameD("MatrixArchive.getScalar", o.attr("getScalar")("s"), s);
    o.attr("save")(f); ar.load(f);
    MatrixXd B; VectorXd w; double z; ar.getMatrix("A", B); ar.getVector("v", w); ar.getScalar("s", z);
    mon().check("C23.archiveCrosses", B == A && w == v && z == s && ar.getString("str") == "text", "archive written from Python, read in C++: " + mstr(B) + " expected " + mstr(A));
    py::object o2 = fn("MatrixArchive")(); o2.attr("load")(f); unlink(f.c_str());
    same("MatrixArchive loaded", o2.attr("asDict")()["A"], A);
    mon().check("C23.archiveCrosses", py::extract<std::string>(o2.attr("stringsAsDict")()["str"])() == "text" && py::len(o2.attr("getNameList")()) == 3 && py::extract<long>(o2.attr("size")())() == long(ar.size()), "names and strings of the loaded archive");
    raises("C23.cppExceptionRaises", "missing matrix", [&] { o2.attr("getMatrix")("nothing"); });
    raises("C23.cppExceptionRaises", "missing file", [&] { o2.attr("load")(f + ".none"); });
    o.attr("clearOne")("A"); raises("C23.cppExceptionRaises", "cleared matrix", [&] { o.attr("getMatrix")("A"); });
    mon().evaluation(hashm(A, hashm(v)));
  });
  // property trees
  TRY("PropertyTree", {
    py::object o = fn("BoostPropertyTree")("root"); std::string f = scratch() + "/c23p-" + std::to_string(getpid());
    int i = rng.i(-100000, 100000); bool b = rng.b(); double d = rng.n() * std::pow(10, rng.i(-5, 5)); std::string s = "word" + std::to_string(rng.i(0, 999));
    o.attr("setInt")("a/i", i); o.attr("setBool")("a/b", b); o.attr("setDouble")("d", d); o.attr("setString")("a/s", s);
    mon().check("C23.treeValues", py::extract<int>(o.attr("getInt")("a/i"))() == i && py::extract<bool>(o.attr("getBool")("a/b"))() == b && py::extract<std::string>(o.attr("getString")("a/s"))() == s, "values read back from the property tree");
    sameD("PropertyTree.getDouble", o.attr("getDouble")("d"), d);
    sameD("PropertyTree.getDoubleDefault", o.attr("getDoubleDefault")("none", 2.5), 2.5);
    mon().check("C23.treeValues", py::extract<int>(o.attr("getIntDefault")("none2", i))() == i && py::extract<std::string>(o.attr("getStringDefault")("none3", s))() == s && py::extract<bool>(o.attr("getBoolDefault")("none4", b))() == b, "defaults");
    mon().check("C23.treeValues", py::extract<bool>(o.attr("doesKeyExist")("a/i"))() && !py::extract<bool>(o.attr("doesKeyExist")("a/nothing"))(), "doesKeyExist");
    Vector3d t = rng.v3(4); Vector4d q = rng.gvec(4); const char* k[] = {"x", "y", "z", "w"};
    for (int j = 0; j < 4; ++j) { o.attr("setDouble")(std::string("T/q_a_b/") + k[j], q[j]); if (j < 3) o.attr("setDouble")(std::string("T/t_a_b_a/") + k[j], t[j]); }
    py::object sub = fn("PropertyTree")(o, "T"), subq = fn("PropertyTree")(sub, "q_a_b"), subt = fn("PropertyTree")(sub, "t_a_b_a");
    mon().near("C23.sameAsCpp", M(fn("vector3FromPropertyTree")(subt)), MatrixXd(t), 1e-5 * 10, "vector3FromPropertyTree");
    mon().near("C23.sameAsCpp", M(fn("quaternionFromPropertyTree")(subq)), MatrixXd(q), 1e-5 * 10, "quaternionFromPropertyTree");
    py::object T = fn("transformationFromPropertyTree")(sub);
    mon().near("C23.sameAsCpp", M(T.attr("T")()), MatrixXd(Transformation(q / q.norm(), t).T()), 1e-4 * 10, "transformationFromPropertyTree");
    o.attr("saveXml")(f); sm::BoostPropertyTree bt("root"); bt.loadXml(f); unlink(f.c_str());
    mon().check("C23.treeValues", bt.getInt("a/i") == i && bt.getString("a/s") == s, "tree saved from Python and loaded in C++");
    raises("C23.cppExceptionRaises", "missing key", [&] { o.attr("getInt")("a/nothing"); });
  });
  // time
  TRY("time", {
    double s = rng.u(-1e6, 1e6); long ns = long(rng.next() >> 4);
    mon().check("C23.timeValues", py::extract<long>(fn("secToNsec")(s))() == long(sm::timing::secToNsec(s)), "secToNsec " + str(s));
    mon().check("C23.timeValues", D(fn("nsecToSec")(ns)) == sm::timing::nsecToSec(ns), "nsecToSec " + std::to_string(ns));
    py::object o = fn("DoubleTimestampCorrector")(), l = fn("LongTimestampCorrector")(); sm::timing::TimestampCorrector<double> c; sm::timing::TimestampCorrector<boost::int64_t> cl;
    double r = 0, off = rng.u(-10, 10);
    for (int k = 0; k < 20; ++k) {
      r += rng.u(0.01, 1); double loc = r + off + rng.u(0, 0.05);
      mon().check("C23.timeValues", D(o.attr("correctTimestamp")(r, loc)) == c.correctTimestamp(r, loc), "corrected timestamp");
      long rl = long(r * 1e6), ll = long(loc * 1e6);
      mon().check("C23.timeValues", py::extract<long>(l.attr("correctTimestamp")(rl, ll))() == long(cl.correctTimestamp(rl, ll)), "corrected integer timestamp");
    }
    mon().check("C23.timeValues", D(o.attr("getSlope")()) == c.getSlope() && D(o.attr("getOffset")()) == c.getOffset() && D(o.attr("getLocalTime")(r)) == c.getLocalTime(r) && py::extract<long>(o.attr("convexHullSize")())() == long(c.convexHullSize()), "corrector state");
  });
  // random numbers
  TRY("random", {
    boost::uint64_t s = rng.next() >> 33; int lo = rng.i(-50, 50), hi = lo + rng.i(1, 50);
    (srand(unsigned(s)), sm::random::seed(s)); std::vector<double> want; for (int k = 0; k < 4; ++k) { want.push_back(sm::random::normal()); want.push_back(sm::random::randn()); want.push_back(sm::random::uniform()); want.push_back(sm::random::rand()); want.push_back(sm::random::randLU(lo, hi)); want.push_back(sm::random::randLUi(lo, hi)); Vector4d q = quatRandom(); want.push_back(q[0]); }
    srand(unsigned(s)); fn("seed")(s); std::vector<double> got; for (int k = 0; k < 4; ++k) { got.push_back(D(fn("normal")())); got.push_back(D(fn("randn")())); got.push_back(D(fn("uniform")())); got.push_back(D(fn("rand")())); got.push_back(D(fn("randLU")(lo, hi))); got.push_back(D(fn("randLUi")(lo, hi))); got.push_back(M(fn("quatRandom")())(0, 0)); }
    mon().check("C23.randomSequence", got == want, "the sequence drawn from Python differs from the one drawn in C++ with the same seed");
  });
  // logging
  TRY("logging", {
    boost::shared_ptr<Capture> cap(new Capture); boost::shared_ptr<sm::logging::Logger> old = sm::logging::getLogger(); sm::logging::Level oldL = sm::logging::getLevel();
    sm::logging::setLogger(cap);
    const char* names[] = {"Debug", "Info", "Warn", "Error", "Fatal"}; sm::logging::Level lv[] = {sm::logging::levels::Debug, sm::logging::levels::Info, sm::logging::levels::Warn, sm::logging::levels::Error, sm::logging::levels::Fatal};
    int k = rng.i(0, 4); py::object L = fn("LoggingLevel").attr(names[k]);
    int line = rng.i(1, 9999); std::string msg = "m%s" + std::to_string(rng.next());
    fn("rawLogNamed")("stream", L, "file.py", line, "func", msg);
    mon().check("C23.logEvents", cap->got.size() == 1 && cap->got[0] == "stream|" + std::to_string(int(lv[k])) + "|file.py|" + std::to_string(line) + "|func|" + msg, cap->got.empty() ? "no event" : cap->got[0]);
    fn("setLoggingLevel")(L); mon().check("C23.logEvents", sm::logging::getLevel() == lv[k] && py::extract<sm::logging::Level>(fn("getLoggingLevel")())() == lv[k], "level");
    std::string sn = "s" + std::to_string(rng.i(0, 5)); fn("enableNamedLoggingStream")(sn); bool on = sm::logging::isNamedStreamEnabled(sn); fn("disableNamedLoggingStream")(sn);
    mon().check("C23.logEvents", on && !py::extract<bool>(fn("isNamedLoggingStreamEnabled")(sn))(), "named streams");
    sm::logging::setLevel(oldL); sm::logging::setLogger(old);
  });
}
VF_MAIN
