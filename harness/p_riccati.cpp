// C08: the backward pass is the Riccati recursion of the current linear-quadratic approximation, and the expected
// improvement is the real one.
#include "solve.hpp"

static Prob* PB = nullptr;
static mc::Ctx* C = nullptr;
static int KIND = 0;
static bool LIMITED = false;
static const Vs *XT = nullptr, *UT = nullptr;  // the trial trajectory

static bool pd(const Mat& A, double& margin) {
  if (!A.size()) return true;
  Eigen::SelfAdjointEigenSolver<Mat> e(Mat(0.5 * (A + A.transpose())));
  margin = std::min(margin, std::fabs(e.eigenvalues()[0]) / (1 + A.norm()));
  return e.eigenvalues()[0] > 0;
}
struct Node {
  Mat Fx, Fu, Lxx, Lxu, Luu, Hx, Hu;
  Vec Lx, Lu, h, f;
};
static Node node(const Prob& P, const TAct& m, const Vec& x, const Vec& u) {
  Node d;
  const Vec z = zof(P.s, x), dx = m.f.val(z, u);
  const Mat J = Jof(P.s, x);
  const long n = P.s->get_ndx();
  Mat J1 = Mat::Zero(n, n), J2 = Mat::Zero(n, n);
  P.s->Jintegrate(x, dx, J1, J2, cr::both, cr::setto);
  d.Fx = J1 + J2 * m.f.Jz(z, u) * J, d.Fu = J2 * m.f.Ju(z, u);
  d.Lx = J.transpose() * m.l.gz(z, u), d.Lu = m.l.gu(z, u);
  d.Lxx = J.transpose() * m.l.Hzz(z, u) * J, d.Lxu = J.transpose() * m.l.Hzu(z, u), d.Luu = m.l.Huu(z, u);
  d.h = m.h.val(z, u), d.Hx = m.h.Jz(z, u) * J, d.Hu = m.h.Ju(z, u);
  return d;
}
struct Ref {
  bool ok = true, unclear = false;  // ok: every step of the recursion can be computed
  double tol = 1e-12;               // how far rounding errors grow
  std::vector<Mat> Vxx, Qxx, Qxu, Quu, K;
  Vs Vx, Qx, Qu, k, fs;
  std::vector<int> free_known;  // box: 1 if the free set is clear
};
// the minimiser of 1/2 v'Hv - q'v over lo <= -v <= up, by enumeration of the active sets (v = k)
static Vec box(const Mat& H, const Vec& q, const Vec& lo, const Vec& up, std::vector<bool>& fre, bool& clear) {
  const int n = q.size();
  int tot = 1;
  for (int i = 0; i < n; ++i) tot *= 3;
  double best = INF;
  Vec bx = Vec::Zero(n);
  for (int code = 0; code < tot; ++code) {
    std::vector<int> a(n);
    int r = code;
    bool fin = true;
    for (int i = 0; i < n; ++i) a[i] = r % 3, r /= 3;
    Vec x = Vec::Zero(n);
    std::vector<int> fi;
    for (int i = 0; i < n; ++i)
      if (a[i] == 0) fi.push_back(i);
      else x[i] = a[i] == 1 ? lo[i] : up[i], fin = fin && std::isfinite(x[i]);
    if (!fin) continue;
    if (fi.size()) {
      Mat A(fi.size(), fi.size());
      Vec b(fi.size());
      const Vec g = q + H * x;
      for (size_t i = 0; i < fi.size(); ++i) {
        b[i] = -g[fi[i]];
        for (size_t j = 0; j < fi.size(); ++j) A(i, j) = H(fi[i], fi[j]);
      }
      const Vec y = A.ldlt().solve(b);
      for (size_t i = 0; i < fi.size(); ++i) x[fi[i]] = y[i];
    }
    bool in = true;
    for (int i = 0; i < n; ++i) in = in && x[i] >= lo[i] - 1e-12 && x[i] <= up[i] + 1e-12;
    const double v = 0.5 * x.dot(H * x) + q.dot(x);
    if (in && v < best) best = v, bx = x;
  }
  const Vec g = q + H * bx;
  fre.assign(n, false);
  clear = true;
  for (int i = 0; i < n; ++i) {
    const bool at = bx[i] - lo[i] < 1e-9 || up[i] - bx[i] < 1e-9;
    fre[i] = !at;
    if (at ? std::fabs(g[i]) < 3e-2 : std::min(bx[i] - lo[i], up[i] - bx[i]) < 1e-2) clear = false;
  }
  return -bx;
}
// general: Vx of the trajectory after a full step; otherwise Vx along the current one (they differ only if k is not
// the unconstrained minimiser)
static Ref recursion(const Prob& P, const Vs& xs, const Vs& us, bool feasible, double preg, bool general) {
  const int T = P.T();
  const long n = P.s->get_ndx();
  const Mat I = Mat::Identity(n, n);
  Ref r;
  r.fs = P.eval(xs, us).fs;
  r.Vxx.resize(T + 1), r.Vx.resize(T + 1), r.Qxx.resize(T), r.Qxu.resize(T), r.Quu.resize(T), r.K.resize(T), r.Qx.resize(T), r.Qu.resize(T), r.k.resize(T), r.free_known.assign(T, 1);
  const Vec zT = zof(P.s, xs[T]), u0 = Vec::Zero(P.mT->get_nu());
  const Mat J = Jof(P.s, xs[T]);
  r.Vxx[T] = J.transpose() * P.mT->lT.Hzz(zT, u0) * J + preg * I;
  r.Vx[T] = J.transpose() * P.mT->lT.gz(zT, u0);
  if (!feasible) r.Vx[T] += r.Vxx[T] * r.fs[T];
  for (auto& x : xs) r.unclear = r.unclear || !(x.norm() < 30);
  for (auto& u : us) r.unclear = r.unclear || !(u.norm() < 30);
  for (int t = T - 1; t >= 0; --t) {
    double margin = 1;
    const TAct& m = *P.m[t];
    const long nu = m.get_nu(), nh = is_intro(KIND) ? m.get_nh() : 0;
    const Node d = node(P, m, xs[t], us[t]);
    r.Qxx[t] = d.Lxx + d.Fx.transpose() * r.Vxx[t + 1] * d.Fx;
    r.Qx[t] = d.Lx + d.Fx.transpose() * r.Vx[t + 1];
    r.Vxx[t] = r.Qxx[t], r.Vx[t] = r.Qx[t];
    if (nu) {
      r.Quu[t] = d.Luu + d.Fu.transpose() * r.Vxx[t + 1] * d.Fu + preg * Mat::Identity(nu, nu);
      r.Qxu[t] = d.Lxu + d.Fx.transpose() * r.Vxx[t + 1] * d.Fu;
      r.Qu[t] = d.Lu + d.Fu.transpose() * r.Vx[t + 1];
      Mat M = Mat::Zero(nu + nh, nu + nh);
      M.topLeftCorner(nu, nu) = r.Quu[t];
      if (nh) {
        M.topRightCorner(nu, nh) = d.Hu.transpose(), M.bottomLeftCorner(nh, nu) = d.Hu;
        const Mat Z = Eigen::FullPivLU<Mat>(d.Hu).kernel();
        if (nh < nu) r.ok = pd(Z.transpose() * r.Quu[t] * Z, margin) && r.ok;
        if (KIND == K_SCHUR) r.ok = pd(r.Quu[t], margin) && r.ok;
        if (Eigen::JacobiSVD<Mat>(d.Hu).singularValues().minCoeff() < 0.05) r.unclear = true;
      } else {
        r.ok = pd(r.Quu[t], margin) && r.ok;
      }
      r.tol /= margin * margin;
      if (r.tol > 1e-6) r.unclear = true;
      if (!r.ok || r.unclear) return r;
      Mat rhs(nu + nh, n + 1);
      rhs.topLeftCorner(nu, n) = r.Qxu[t].transpose(), rhs.topRightCorner(nu, 1) = r.Qu[t];
      if (nh) rhs.bottomLeftCorner(nh, n) = d.Hx, rhs.bottomRightCorner(nh, 1) = d.h;
      const Mat sol = M.fullPivLu().solve(rhs);
      r.K[t] = sol.topLeftCorner(nu, n), r.k[t] = sol.topRightCorner(nu, 1);
      if (LIMITED && feasible) {
        std::vector<bool> fre;
        bool clear;
        r.k[t] = box(r.Quu[t], r.Qu[t], m.get_u_lb() - us[t], m.get_u_ub() - us[t], fre, clear);
        r.free_known[t] = clear;
        if (!clear) r.unclear = true;
        std::vector<int> fi;
        for (int i = 0; i < nu; ++i)
          if (fre[i]) fi.push_back(i);
        r.K[t].setZero();
        if (fi.size()) {
          Mat A(fi.size(), fi.size()), B(fi.size(), n);
          for (size_t i = 0; i < fi.size(); ++i) {
            B.row(i) = r.Qxu[t].col(fi[i]).transpose();
            for (size_t j = 0; j < fi.size(); ++j) A(i, j) = r.Quu[t](fi[i], fi[j]);
          }
          const Mat X = A.ldlt().solve(B);
          for (size_t i = 0; i < fi.size(); ++i) r.K[t].row(fi[i]) = X.row(i);
        }
        if (r.unclear) return r;
      }
      if (std::max(std::max((r.Qxu[t] * r.K[t]).norm(), r.K[t].norm()), std::max(r.Quu[t].norm(), r.Qxx[t].norm())) > 1e3) r.unclear = true;
      r.tol = std::max(r.tol, 1e-12 * (r.Quu[t].norm() * r.K[t].norm() + r.Quu[t].norm() + r.Qxx[t].norm() + r.Qx[t].norm() + r.Qu[t].norm()));
      r.Vx[t] -= r.K[t].transpose() * r.Qu[t];
      if (general) r.Vx[t] += r.K[t].transpose() * r.Quu[t] * r.k[t] - r.Qxu[t] * r.k[t];
      r.Vxx[t] += r.K[t].transpose() * r.Quu[t] * r.K[t] - r.Qxu[t] * r.K[t] - r.K[t].transpose() * r.Qxu[t].transpose();
    }
    r.Vxx[t] += preg * I;
    if (!feasible) r.Vx[t] += r.Vxx[t] * r.fs[t];
  }
  return r;
}

static std::string mismatch(const SolverDDP& s, const Ref& r, const Prob& P, double tol) {
  const int T = P.T();
#define M(name, t, a, b) \
  if (!close(a, b, tol)) return mc::strf(name "[%d] is %s, the recursion gives %s", t, show(a).c_str(), show(b).c_str())
  for (int t = T; t >= 0; --t) {
    if (t < T) {
      M("Qxx", t, s.get_Qxx()[t], r.Qxx[t]);
      M("Qx", t, s.get_Qx()[t], r.Qx[t]);
      if (P.m[t]->get_nu()) {
        M("Quu", t, s.get_Quu()[t], r.Quu[t]);
        M("Qxu", t, s.get_Qxu()[t], r.Qxu[t]);
        M("Qu", t, s.get_Qu()[t], r.Qu[t]);
        M("K", t, s.get_K()[t], r.K[t]);
        M("k", t, s.get_k()[t], r.k[t]);
      }
    }
    M("Vxx", t, s.get_Vxx()[t], r.Vxx[t]);
    M("Vx", t, s.get_Vx()[t], r.Vx[t]);
  }
#undef M
  return "";
}
static void judge(SolverAbstract&, bool) {}
static void judge(SolverDDP& s, bool threw) {
  mc::Ctx& c = *C;
  const Prob& P = *PB;
  const bool two = is_box(KIND) && LIMITED && s.get_is_feasible();
  const Ref r = recursion(P, s.get_xs(), s.get_us(), s.get_is_feasible(), s.get_preg(), is_intro(KIND));
  if (r.unclear) {
    c.outcome("degenerate");
    return;
  }
  if (two && !r.ok) {  // the limited problem may still have a minimiser
    c.outcome("indefinite, limited");
    return;
  }
  CHECK(c, threw == !r.ok, "computable", "%s with regularisation %g: the direction %s", kind_name(KIND), s.get_preg(), threw ? "was refused, but every step of the recursion is positive definite" : "was computed from an indefinite control Hessian");
  if (threw) {
    c.outcome("refused");
    return;
  }
  for (int t = 0; t <= P.T(); ++t)
    CHECK(c, close(s.get_fs()[t], r.fs[t], 1e-9), "gaps", "%s: gap %d is %s, expected %s", kind_name(KIND), t, show(s.get_fs()[t]).c_str(), show(r.fs[t]).c_str());
  const double tol = two ? 5e-3 : std::max(1e-8, r.tol);
  std::string e = mismatch(s, r, P, tol);
  if (!e.empty() && two) e = mismatch(s, recursion(P, s.get_xs(), s.get_us(), true, s.get_preg(), true), P, tol) == "" ? "" : e;
  CHECK(c, e.empty(), e.substr(0, e.find('[')), "%s%s, %s, regularisation %g: %s", kind_name(KIND), LIMITED ? " with limits" : "", s.get_is_feasible() ? "feasible" : "infeasible", s.get_preg(), e.c_str());
  c.state(hash_all(mc::hash_mat(KIND, s.get_Vxx()[0]), s.get_k()));
}
template <class S>
struct W : S {
  using S::S;
  void computeDirection(bool recalc) override {
    XT = &this->xs_try_, UT = &this->us_try_;
    try {
      S::computeDirection(recalc);
    } catch (std::exception&) {
      judge(*this, true);
      throw;
    }
    judge(*this, false);
  }
};

struct Setup {
  Prob P;
  SolverP S;
  Vs xs, us;
  bool feasible;
  int state;
  bool lq, plain;  // plain: no constraint and no limit is active
};
static void make(mc::Ctx& c, Setup& g, bool deep) {
  C = &c;
  KIND = c.choose(K_KKT, "solver");
  Shape h;
  h.state = g.state = c.choose(3, "state");
  const int nodes = c.choose(deep ? 7 : 5, "nodes");
  static const std::vector<int> nus[] = {{1}, {2, 1}, {0, 2}, {1, 0, 2}, {0}, {3, 1}, {2, 2, 1, 3}};
  h.nu = nus[nodes];
  bool con = false;
  if (is_intro(KIND) && c.flip("constraints")) {
    for (int n : h.nu) h.nh.push_back(n == 0 ? 0 : n == 1 ? con : n - 1), con = true;
    con = false;
    for (int n : h.nh) con = con || n;
  }
  h.e = c.pick<double>({0., 0.8}, "nonlinearity");
  g.lq = h.e == 0 && h.state != 2;
  h.shift = c.pick<double>({0.5, -0.25, -1.2}, "curvature");  // negative: indefinite Hessians
  h.seed = 1 + c.choose(c.thorough ? 12 : 4, "seed");
  g.P = make_prob(h);
  const int lim = is_box(KIND) ? c.choose(3, "limits") : 0;  // none, tight, wide
  LIMITED = lim != 0;
  if (lim)
    for (auto& m : g.P.m)
      if (m->get_nu()) m->set_u_lb(Vec::Constant(m->get_nu(), lim == 1 ? -0.4 : -80)), m->set_u_ub(Vec::Constant(m->get_nu(), lim == 1 ? 0.3 : 90));
  g.plain = !con && lim == 0;
  PB = &g.P;
  const int guess = c.choose(3, "guess");
  g.us = g.P.some_u(1, lim == 1 ? 0.25 : 1);
  g.xs = guess == 0 ? g.P.some_x(2) : g.P.rollout(g.us);
  g.feasible = guess == 1;  // 2: not known to be feasible
  g.S = make_wrapped<W>(KIND, g.P.p);
}
static const double pregs[] = {0, 1e-9, 1e-2, 10};

static void directions(mc::Ctx& c) {
  Quiet quiet;
  Setup g;
  make(c, g, true);
  SolverDDP& s = static_cast<SolverDDP&>(*g.S);
  s.setCandidate(g.xs, g.us, g.feasible);
  const int rounds = c.thorough ? 3 : 2;
  for (int i = 0; i < rounds; ++i) {
    const double preg = pregs[c.choose(i ? 2 : 4, "regularisation")];
    s.set_preg(preg), s.set_dreg(preg);
    c.op("direction %d with regularisation %g", i, preg);
    try {
      s.computeDirection(true);
    } catch (std::exception&) {
      c.outcome("no direction");
      return;
    }
    const bool feas = s.get_is_feasible();
    if (is_fddp(KIND)) static_cast<SolverFDDP&>(s).updateExpectedImprovement();
    auto trial = [&](double a, double& dV, double& ex, double& slope) {
      dV = s.tryStep(a);
      const Eigen::Vector2d d = s.expectedImprovement();
      ex = a * (d[0] + 0.5 * a * d[1]), slope = d[0];
      return std::isfinite(dV);
    };
    double dV, ex, sl;
    // the model predicts the cost change exactly
    if (g.lq && g.plain && preg == 0 && (feas || is_fddp(KIND)))
      for (double a : {1., 0.7, 0.25, 0.01, 0.}) {
        if (!feas && a < 1) continue;
        trial(a, dV, ex, sl);
        CHECK(c, std::fabs(dV - ex) <= 1e-8 * (1 + std::fabs(s.get_cost()) + std::fabs(ex)), "expected", "%s, step %g: the cost falls by %.12g, expected %.12g", kind_name(KIND), a, dV, ex);
      }
    // gaps: the documented expression at every step length
    if (is_fddp(KIND) && (!LIMITED || !feas)) {
      const Ref r = recursion(g.P, s.get_xs(), s.get_us(), feas, preg, is_intro(KIND));
      if (r.ok && !r.unclear)
        for (double a : {1., 0.4, 0.05}) {
          if (!std::isfinite(s.tryStep(a))) continue;
          const Eigen::Vector2d d = s.expectedImprovement();
          double d1 = 0, d2 = 0;
          for (int t = 0; t <= g.P.T(); ++t) {
            if (t < g.P.T() && g.P.m[t]->get_nu()) d1 += r.k[t].dot(r.Qu[t]), d2 -= r.k[t].dot(r.Quu[t] * r.k[t]);
            if (feas) continue;
            Vec x(g.P.s->get_ndx());
            g.P.s->diff((*XT)[t], s.get_xs()[t], x);
            d1 -= r.fs[t].dot(r.Vx[t] + r.Vxx[t] * x), d2 += r.fs[t].dot(r.Vxx[t] * (r.fs[t] + 2 * x));
          }
          const double sc = 1 + std::fabs(d1) + std::fabs(d2) + std::fabs(s.get_cost());
          CHECK(c, std::fabs(d[0] - d1) <= 1e-6 * sc && std::fabs(d[1] - d2) <= 1e-6 * sc, "documented", "%s, step %g: the expected improvement is %.12g, %.12g, documented %.12g, %.12g", kind_name(KIND), a, d[0], d[1], d1, d2);
        }
    }
    // constraints: for the full step
    if (g.lq && is_intro(KIND) && !g.plain && preg == 0) {
      trial(1, dV, ex, sl);
      CHECK(c, std::fabs(dV - ex) <= 1e-7 * (1 + std::fabs(s.get_cost()) + std::fabs(ex)), "expected", "%s with constraints, full step: the cost falls by %.12g, expected %.12g", kind_name(KIND), dV, ex);
    }
    // to first order, on any problem
    if (g.plain && (feas)) {
      const double a = 1e-5;
      trial(a, dV, ex, sl);
      const double scale = 1 + std::fabs(s.get_cost()) + std::fabs(sl);
      double kk = 1;
      for (auto& k : s.get_k()) kk += k.squaredNorm();
      for (auto& f : s.get_fs()) kk += f.squaredNorm();
      CHECK(c, std::fabs(dV - a * sl) <= 1e-10 * scale + 300 * a * a * scale * kk, "slope", "%s, step %g, regularisation %g: the cost falls by %.12g, expected to first order %.12g", kind_name(KIND), a, preg, dV, a * sl);
      const double lin = std::fabs(a * sl);
      c.outcome(lin > 10 * (1e-10 * scale + 300 * a * a * scale * kk) ? "slope decided" : "slope within rounding");
    }
    if (i + 1 < rounds) {
      const double a = c.pick<double>({1., 0.5}, "step");
      try {
        s.tryStep(a);
      } catch (std::exception&) {
        return;
      }
      s.setCandidate(Vs(*XT), Vs(*UT), feas || a == 1 || KIND == K_DDP || KIND == K_BOXDDP);
    }
  }
}
static void solves(mc::Ctx& c) {
  Quiet quiet;
  Setup g;
  make(c, g, true);
  SolverDDP& s = static_cast<SolverDDP&>(*g.S);
  if (c.flip("alphas")) s.set_alphas({0.8, 0.3});
  const double reg = c.pick<double>({NAN, 0.1}, "initial regularisation");
  c.op("solve");
  s.solve(g.xs, g.us, c.thorough ? 6 : 3, g.feasible, reg);
  if (c.thorough) s.solve(g.xs, g.us, 3, g.feasible, NAN);
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("directions", directions);
  e.add("solves", solves);
  return e.main(argc, argv);
}
