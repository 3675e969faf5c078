// Call sequences with valid and invalid arguments: subject `a` receives every call, its mirror `b` only the valid
// ones.  A valid call must be accepted, an invalid one must throw, and the two objects must stay indistinguishable:
// same getters after every call, same results when used at the end.
#ifndef MC_ARGS_HPP
#define MC_ARGS_HPP
#include "models.hpp"

struct Snap {
  std::vector<std::pair<std::string, Mat>> v;
  template <class M>
  void operator()(const std::string& n, const Eigen::MatrixBase<M>& m) {
    v.emplace_back(n, m.template cast<double>());
  }
  void operator()(const std::string& n, double d) { v.emplace_back(n, Mat::Constant(1, 1, d)); }
  void operator()(const std::string& n, const std::vector<Vec>& m) {
    (*this)(n + ".size", (double)m.size());
    for (size_t i = 0; i < m.size(); ++i) (*this)(n + "[" + std::to_string(i) + "]", m[i]);
  }
  void operator()(const std::string& n, const std::vector<double>& m) { (*this)(n, Eigen::Map<const Vec>(m.data(), m.size())); }
  void operator()(const std::string& n, const std::string& s) {
    uint64_t h = mc::hash_bytes(7, s.data(), s.size());
    (*this)(n, (double)(h >> 12));
  }
  uint64_t hash() const {
    uint64_t h = 1;
    for (auto& e : v) h = mc::hash_mat(h, e.second);
    return h;
  }
  static std::string diff(const Snap& a, const Snap& b) {
    if (a.v.size() != b.v.size()) return mc::strf("%zu entries instead of %zu", a.v.size(), b.v.size());
    for (size_t i = 0; i < a.v.size(); ++i)
      if (!same(a.v[i].second, b.v[i].second)) return a.v[i].first + " is " + show(a.v[i].second) + " instead of " + show(b.v[i].second);
    return "";
  }
};

template <class T>
struct Op {
  std::string name;
  bool ok;
  std::function<void(T&)> f;
};
template <class T>
struct Ops : std::vector<Op<T>> {
  void good(const std::string& n, std::function<void(T&)> f) { this->push_back({n, true, f}); }
  void bad(const std::string& n, std::function<void(T&)> f) { this->push_back({n, false, f}); }
  // a scalar setter with its edges
  void edges(const std::string& n, const std::vector<double>& ok, const std::vector<double>& no, std::function<void(T&, double)> f) {
    for (double x : ok) good(mc::strf("%s(%.17g)", n.c_str(), x), [=](T& t) { f(t, x); });
    for (double x : no) bad(mc::strf("%s(%.17g)", n.c_str(), x), [=](T& t) { f(t, x); });
  }
  // a vector argument of dimension n: sizes 0, n-1, n+1 are refused
  void sizes(const std::string& n, long dim, const Vec& value, std::function<void(T&, const Vec&)> f) {
    good(n, [=](T& t) { f(t, value); });
    for (long k : std::set<long>{0l, dim - 1, dim + 1})
      if (k >= 0 && k != dim) bad(mc::strf("%s of size %ld for %ld", n.c_str(), k, dim), [=](T& t) { f(t, Vec(Gen(k + 1).vec(k))); });
  }
};
// calls f; what it throws
template <class F>
std::string thrown(F f) {
  try {
    f();
  } catch (const std::exception& e) {
    return e.what()[0] ? std::string(e.what()) : std::string("(exception)");
  }
  return "";
}
template <class T>
void explore(mc::Ctx& c, const std::string& subject, const std::function<T()>& make, const Ops<T>& ops, size_t depth,
             const std::function<void(T&, Snap&)>& get, const std::function<void(T&, Snap&)>& use) {
  T a = make(), b = make();
  const std::string key = subject + ":";
  for (size_t i = 0; i < depth; ++i) {
    // in the last position only refused calls matter: accepted ones on both sides cannot tell a and b apart
    const Op<T>& o = ops[c.choose((int)ops.size(), "call")];
    c.op("%s", o.name.c_str());
    const std::string e = thrown([&] { o.f(a); });
    CHECK(c, !(o.ok && e.size()), key + "accepted", "%s: %s is refused: %s", subject.c_str(), o.name.c_str(), e.c_str());
    CHECK(c, !(!o.ok && e.empty()), key + "refused", "%s: %s is not refused", subject.c_str(), o.name.c_str());
    if (o.ok) o.f(b);
    Snap sa, sb;
    get(a, sa), get(b, sb);
    const std::string d = Snap::diff(sa, sb);
    CHECK(c, d.empty(), key + "unchanged", "%s: after %s %s", subject.c_str(), o.name.c_str(), d.c_str());
    c.state(sa.hash());
  }
  Snap sa, sb;
  use(a, sa), use(b, sb);
  const std::string d = Snap::diff(sa, sb);
  CHECK(c, d.empty(), key + "behaves", "%s: used afterwards, %s", subject.c_str(), d.c_str());
  c.state(sa.hash());
}
// one call in isolation (constructors)
inline void single(mc::Ctx& c, const std::vector<Op<int>>& ops) {
  const Op<int>& o = ops[c.choose((int)ops.size(), "call")];
  c.op("%s", o.name.c_str());
  int z = 0;
  const std::string e = thrown([&] { o.f(z); });
  CHECK(c, !(o.ok && e.size()), "constructor:accepted", "%s is refused: %s", o.name.c_str(), e.c_str());
  CHECK(c, !(!o.ok && e.empty()), "constructor:refused", "%s is not refused", o.name.c_str());
  c.state(mc::hash_bytes(o.ok, o.name.data(), o.name.size()));
}
#endif
