// Small shared helpers of the harnesses: formatting, deterministic pseudo-data, dense comparisons.
#ifndef MC_UTIL_HPP
#define MC_UTIL_HPP
#include "mc.hpp"
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
static const double INF = std::numeric_limits<double>::infinity();

template <class M>
std::string show(const M& m0) {
  Mat m = m0.template cast<double>();
  std::string s = "[";
  for (Eigen::Index i = 0; i < m.rows(); ++i) {
    if (i) s += m.cols() == 1 ? " " : "; ";
    for (Eigen::Index j = 0; j < m.cols(); ++j) s += mc::strf(j ? " %.10g" : "%.10g", m(i, j));
  }
  return s + "]";
}
// equal shapes, both finite (or bitwise-equal non-finite), and |a-b| <= tol*(1+|b|)
template <class A, class B>
bool close(const A& a, const B& b, double tol = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      double x = (double)a(i, j), y = (double)b(i, j);
      if (x == y) continue;
      if (!(std::isfinite(x) && std::isfinite(y))) return false;
      if (std::fabs(x - y) > tol * (1 + std::fabs(y))) return false;
    }
  return true;
}
inline bool closes(double x, double y, double tol = 1e-9) {
  if (x == y) return true;
  if (!(std::isfinite(x) && std::isfinite(y))) return false;
  return std::fabs(x - y) <= tol * (1 + std::fabs(y));
}
template <class A, class B>
bool same(const A& a, const B& b) {  // bitwise equal (NaN equals NaN)
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      double x = (double)a(i, j), y = (double)b(i, j);
      if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
    }
  return true;
}
template <class A>
bool finite(const A& a) {
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i)
      if (!std::isfinite((double)a(i, j))) return false;
  return true;
}
// Deterministic "generic" data: no zeros, no symmetries, magnitude <= 1.
struct Gen {
  uint64_t s;
  explicit Gen(uint64_t seed) : s(mc::mix(0xabcdef, seed)) {}
  double next() {
    s = mc::mix(s, 0x2545F4914F6CDD1Dull);
    double v = (double)((s >> 20) % 1801) / 1000. - 0.9;
    return std::fabs(v) < 0.05 ? v + 0.11 : v;
  }
  Vec vec(long n) {
    Vec v(n);
    for (long i = 0; i < n; ++i) v[i] = next();
    return v;
  }
  Mat mat(long r, long c) {
    Mat m(r, c);
    for (long j = 0; j < c; ++j)
      for (long i = 0; i < r; ++i) m(i, j) = next();
    return m;
  }
  Mat spd(long n, double shift = 1.) {
    Mat m = mat(n, n);
    return Mat(m * m.transpose() + shift * Mat::Identity(n, n));
  }
};
template <class F>
bool throws(F f) {
  try {
    f();
  } catch (std::exception&) {
    return true;
  }
  return false;
}
#endif
