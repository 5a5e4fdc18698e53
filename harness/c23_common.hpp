// Embedded-Python harness for the converters and the exported kinematics: shared declarations.
#pragma once
#include <Eigen/Dense>
#ifndef VF_IMPORT_ARRAY
#define NO_IMPORT_ARRAY
#endif
#include <NumpyEigenConverter.hpp>
#include <boost/cstdint.hpp>
#include <vector>
#include <string>
namespace c23 {
// What C++ received in the last call of an identity function.
struct Last { long calls = 0; int rows = -1, cols = -1; std::vector<double> d; std::vector<long> l; bool integral = false; };
Last& last();
template <class M> M identity(const M& m) {
  Last& x = last();
  ++x.calls; x.rows = int(m.rows()); x.cols = int(m.cols()); x.d.clear(); x.l.clear();
  x.integral = std::is_integral<typename M::Scalar>::value;
  for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < m.cols(); ++c) { if (x.integral) x.l.push_back(long(m(r, c))); else x.d.push_back(double(m(r, c))); }
  return m;
}
template <class M> M byValue(M m) { return identity(m); }
template <class S, int R, int C> void reg(const char* r, const char* c, const char* t) {
  typedef Eigen::Matrix<S, R, C> M;
  boost::python::def((std::string("id_") + r + "_" + c + "_" + t).c_str(), &identity<M>);
}
// -1000 rows/cols name a dynamic size
template <class S, int R> void regRow(const char* r, const char* t) {
  reg<S, R, 1>(r, "1", t); reg<S, R, 2>(r, "2", t); reg<S, R, 3>(r, "3", t); reg<S, R, 4>(r, "4", t);
  reg<S, R, 5>(r, "5", t); reg<S, R, 6>(r, "6", t); reg<S, R, Eigen::Dynamic>(r, "D", t);
}
template <int R> void regAll(const char* r) {
  regRow<int, R>(r, "int"); regRow<float, R>(r, "float"); regRow<double, R>(r, "double");
  regRow<unsigned char, R>(r, "uchar"); regRow<boost::int64_t, R>(r, "long");
}
void conv_1(); void conv_2(); void conv_3(); void conv_4(); void conv_5(); void conv_6(); void conv_D();
}
