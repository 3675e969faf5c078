// Small optimal-control problems given by coefficients, all solvers, and what is known about them independently:
// direct evaluation of trajectories, and the dense quadratic program of a linear-quadratic problem.
#ifndef MC_SOLVE_HPP
#define MC_SOLVE_HPP
#include "models.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
using namespace crocoddyl;
typedef std::vector<Vec> Vs;
typedef std::shared_ptr<TAct> TActP;
typedef std::shared_ptr<SolverAbstract> SolverP;

enum Kind { K_DDP, K_FDDP, K_BOXDDP, K_BOXFDDP, K_LU, K_QR, K_SCHUR, K_KKT, KINDS };
inline const char* kind_name(int k) {
  static const char* n[] = {"DDP", "FDDP", "BoxDDP", "BoxFDDP", "Intro/LU", "Intro/QR", "Intro/Schur", "KKT"};
  return n[k];
}
inline bool is_intro(int k) { return k == K_LU || k == K_QR || k == K_SCHUR; }
inline bool is_box(int k) { return k == K_BOXDDP || k == K_BOXFDDP; }
inline bool is_fddp(int k) { return k == K_FDDP || k == K_BOXFDDP || is_intro(k); }
template <template <class> class W>
SolverP make_wrapped(int k, std::shared_ptr<ShootingProblem> p) {
  switch (k) {
    case K_DDP: return std::make_shared<W<SolverDDP>>(p);
    case K_FDDP: return std::make_shared<W<SolverFDDP>>(p);
    case K_BOXDDP: return std::make_shared<W<SolverBoxDDP>>(p);
    case K_BOXFDDP: return std::make_shared<W<SolverBoxFDDP>>(p);
    case K_KKT: return std::make_shared<W<SolverKKT>>(p);
  }
  std::shared_ptr<W<SolverIntro>> s = std::make_shared<W<SolverIntro>>(p);
  s->set_equality_solver(k == K_LU ? LuNull : k == K_QR ? QrNull : Schur);
  s->set_zero_upsilon(true);
  return s;
}
template <class S>
struct Plain : S {
  using S::S;
};
inline SolverP make_solver(int k, std::shared_ptr<ShootingProblem> p) { return make_wrapped<Plain>(k, p); }

struct Prob {
  StateP s;
  Vec x0;
  std::vector<TActP> m;
  TActP mT;
  std::shared_ptr<ShootingProblem> p;
  int T() const { return (int)m.size(); }
  void build() { p = std::make_shared<ShootingProblem>(x0, std::vector<std::shared_ptr<ActionModelAbstract>>(m.begin(), m.end()), mT); }
  Prob twin() const {  // same models, own problem and data
    Prob q = *this;
    q.build();
    return q;
  }
  Vec point(int k, int i) const {
    if (s->get_nx() == 3) return CurvedState::point(0.4 * k - 0.7 * i, 0.3 + 0.5 * i - 0.2 * k);
    return Gen(91 + 7 * k + i).vec(s->get_nx());
  }
  struct Eval {
    double cost = 0;
    Vs fs;                 // gaps: x0 (-) xs[0], f(xs[t],us[t]) (-) xs[t+1]
    std::vector<Vec> g, h;  // violations per node (running, terminal)
    double norm(const Vs& v, bool l1) const {
      double r = 0;
      for (auto& a : v) {
        if (!a.size()) continue;
        const double n = l1 ? a.lpNorm<1>() : a.lpNorm<Eigen::Infinity>();
        r = l1 ? r + n : std::max(r, n);
      }
      return r;
    }
  };
  Vec f(int t, const Vec& x, const Vec& u) const {
    Vec y(s->get_nx());
    s->integrate(x, m[t]->f.val(zof(s, x), u), y);
    return y;
  }
  static Vec viol(const Vec& g, const Vec& lb, const Vec& ub) {
    Vec v(g.size());
    for (long i = 0; i < g.size(); ++i) v[i] = g[i] < lb[i] ? g[i] - lb[i] : g[i] > ub[i] ? g[i] - ub[i] : 0;
    return v;
  }
  Eval eval(const Vs& xs, const Vs& us) const {
    Eval e;
    Vec d(s->get_ndx());
    s->diff(xs[0], x0, d);
    e.fs.push_back(d);
    for (int t = 0; t < T(); ++t) {
      const Vec z = zof(s, xs[t]);
      e.cost += m[t]->l.val(z, us[t]);
      s->diff(xs[t + 1], f(t, xs[t], us[t]), d);
      e.fs.push_back(d);
      if (m[t]->get_ng()) e.g.push_back(viol(m[t]->g.val(z, us[t]), m[t]->get_g_lb().head(m[t]->get_ng()), m[t]->get_g_ub().head(m[t]->get_ng())));
      if (m[t]->get_nh()) e.h.push_back(m[t]->h.val(z, us[t]));
    }
    const Vec z = zof(s, xs[T()]), u = Vec::Zero(mT->get_nu());
    e.cost += mT->lT.val(z, u);
    if (mT->get_ng_T()) e.g.push_back(viol(mT->gT.val(z, u), mT->get_g_lb().head(mT->get_ng_T()), mT->get_g_ub().head(mT->get_ng_T())));
    if (mT->get_nh_T()) e.h.push_back(mT->hT.val(z, u));
    return e;
  }
  Vs rollout(const Vs& us) const {
    Vs xs{x0};
    for (int t = 0; t < T(); ++t) xs.push_back(f(t, xs[t], us[t]));
    return xs;
  }
  Vs zeros_u() const {
    Vs us;
    for (auto& a : m) us.push_back(Vec::Zero(a->get_nu()));
    return us;
  }
  Vs some_u(int i, double sc = 1) const {
    Vs us;
    for (int t = 0; t < T(); ++t) us.push_back(Vec(sc * Gen(300 + 10 * i + t).vec(m[t]->get_nu())));
    return us;
  }
  Vs some_x(int i) const {
    Vs xs;
    for (int t = 0; t <= T(); ++t) xs.push_back(point(t, i));
    return xs;
  }
};

struct Shape {
  int state = 0;  // 0: R^1, 1: R^2, 2: curved
  std::vector<int> nu{1};
  std::vector<int> nh, ng;  // per node, empty: none
  int nhT = 0, ngT = 0;
  double e = 0, shift = 0.5, fscale = 0.3;
  uint64_t seed = 1;
};
inline Prob make_prob(const Shape& h) {
  Prob p;
  if (h.state == 2)
    p.s = std::make_shared<CurvedState>();
  else
    p.s = std::make_shared<StateVector>(h.state + 1);
  p.x0 = p.point(1, 3);
  for (size_t t = 0; t < h.nu.size(); ++t) {
    TAct::Spec a;
    a.nu = h.nu[t], a.e = h.e, a.seed = h.seed * 100 + t, a.shift = h.shift, a.fscale = h.fscale;
    if (t < h.nh.size()) a.nh = h.nh[t];
    if (t < h.ng.size()) a.ng = h.ng[t];
    p.m.push_back(std::make_shared<TAct>(p.s, a));
    p.m.back()->id = (int)t;
  }
  TAct::Spec a;
  a.nu = 1, a.e = h.e, a.seed = h.seed * 100 + 77, a.shift = h.shift, a.nh_T = h.nhT, a.ng_T = h.ngT;
  p.mT = std::make_shared<TAct>(p.s, a);
  p.mT->id = (int)h.nu.size();
  p.build();
  return p;
}

// min over (xs, us) of a linear-quadratic problem subject to the dynamics and, if asked, the running equality constraints
struct Dense {
  Vs xs, us;
  double cost = 0;
  bool unique = true;
};
inline Dense dense(const Prob& p, bool equalities) {
  const long n = p.s->get_nx(), T = p.T();
  std::vector<long> iu(T + 1);
  long N = n * (T + 1), M = n * (T + 1);
  for (long t = 0; t < T; ++t) iu[t] = N, N += p.m[t]->get_nu(), M += equalities && p.m[t]->get_nu() ? p.m[t]->get_nh() : 0;
  Mat H = Mat::Zero(N, N), C = Mat::Zero(M, N);
  Vec q = Vec::Zero(N), b = Vec::Zero(M);
  C.topLeftCorner(n, n).setIdentity();
  b.head(n) = p.x0;
  long r = n;
  for (long t = 0; t < T; ++t) {
    const TAct& a = *p.m[t];
    const long nu = a.get_nu();
    H.block(n * t, n * t, n, n) = a.l.Q;
    H.block(n * t, iu[t], n, nu) = a.l.S;
    H.block(iu[t], n * t, nu, n) = a.l.S.transpose();
    H.block(iu[t], iu[t], nu, nu) = a.l.R;
    q.segment(n * t, n) = a.l.q;
    q.segment(iu[t], nu) = a.l.r;
    C.block(r, n * (t + 1), n, n).setIdentity();
    C.block(r, n * t, n, n) = -(Mat::Identity(n, n) + a.f.A);
    C.block(r, iu[t], n, nu) = -a.f.B;
    b.segment(r, n) = a.f.c;
    r += n;
    if (equalities && nu) {
      const long nh = a.get_nh();
      C.block(r, n * t, nh, n) = a.h.A;
      C.block(r, iu[t], nh, nu) = a.h.B;
      b.segment(r, nh) = -a.h.c;
      r += nh;
    }
  }
  H.block(n * T, n * T, n, n) = p.mT->lT.Q;
  q.segment(n * T, n) = p.mT->lT.q;
  Mat K = Mat::Zero(N + M, N + M);
  K.topLeftCorner(N, N) = H, K.topRightCorner(N, M) = C.transpose(), K.bottomLeftCorner(M, N) = C;
  Vec rhs(N + M);
  rhs << -q, b;
  Eigen::FullPivLU<Mat> lu(K);
  Dense o;
  o.unique = lu.isInvertible() && lu.rcond() > 1e-10;
  const Vec sol = lu.solve(rhs);
  for (long t = 0; t <= T; ++t) o.xs.push_back(sol.segment(n * t, n));
  for (long t = 0; t < T; ++t) o.us.push_back(sol.segment(iu[t], p.m[t]->get_nu()));
  o.cost = p.eval(o.xs, o.us).cost;
  return o;
}

struct Each : CallbackAbstract {  // runs after every iteration
  std::function<void(SolverAbstract&)> f;
  explicit Each(std::function<void(SolverAbstract&)> f) : f(f) {}
  void operator()(SolverAbstract& s) override { f(s); }
};
inline bool all_finite(const Vs& v) {
  for (auto& a : v)
    if (!finite(a)) return false;
  return true;
}
inline std::string shows(const Vs& v) {
  std::string o;
  for (auto& a : v) o += show(a);
  return o;
}
inline bool close_all(const Vs& a, const Vs& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!close(a[i], b[i], tol)) return false;
  return true;
}
inline bool same_all(const Vs& a, const Vs& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i])) return false;
  return true;
}
inline uint64_t hash_all(uint64_t h, const Vs& v) {
  for (auto& a : v) h = mc::hash_mat(h, a);
  return h;
}
#endif
