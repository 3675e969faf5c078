// C10: the nonlinear program handed to Ipopt is the shooting problem.
#include "nodes.hpp"
#include "boxopt.hpp"
#include "faults.hpp"
#include <fcntl.h>
#include <unistd.h>
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
typedef Ipopt::Index I;
typedef Ipopt::SmartPtr<IpoptInterface> IfaceP;

// The program as it should be, evaluated with the models on data of its own
struct NLP {
  std::shared_ptr<ShootingProblem> p;
  Vs xs;  // the trajectory the increments are taken from
  std::vector<long> off;
  long n = 0, m = 0;
  NLP(std::shared_ptr<ShootingProblem> p, Vs xs) : p(p), xs(xs) {
    const long ndx = p->get_ndx();
    for (auto& a : p->get_runningModels()) off.push_back(n), n += ndx + a->get_nu(), m += ndx;
    off.push_back(n), n += ndx, m += ndx;
  }
  long ndx() const { return p->get_ndx(); }
  long T() const { return p->get_T(); }
  std::shared_ptr<StateAbstract> st() const { return p->get_terminalModel()->get_state(); }
  Vec x(const Vec& z, long t) const {
    Vec y(p->get_nx());
    st()->integrate(xs[t], z.segment(off[t], ndx()), y);
    return y;
  }
  Vec u(const Vec& z, long t) const { return z.segment(off[t] + ndx(), p->get_runningModels()[t]->get_nu()); }
  double f(const Vec& z) const {
    double c = 0;
    for (long t = 0; t < T(); ++t) {
      auto m = p->get_runningModels()[t];
      auto d = m->createData();
      m->calc(d, x(z, t), u(z, t));
      c += d->cost;
    }
    auto d = p->get_terminalModel()->createData();
    p->get_terminalModel()->calc(d, x(z, T()));
    return c + d->cost;
  }
  Vec g(const Vec& z) const {
    Vec r(m), e(ndx());
    for (long t = 0; t < T(); ++t) {
      auto m = p->get_runningModels()[t];
      auto d = m->createData();
      m->calc(d, x(z, t), u(z, t));
      st()->diff(d->xnext, x(z, t + 1), e);
      r.segment(t * ndx(), ndx()) = e;
    }
    st()->diff(x(z, 0), p->get_x0(), e);
    r.tail(ndx()) = e;
    return r;
  }
  // the problem's own second derivatives, in the increments
  Mat H(const Vec& z) const {
    Mat h = Mat::Zero(n, n);
    for (long t = 0; t <= T(); ++t) {
      const long k = ndx();
      Mat J(k, k), J1(k, k);
      J.setZero(), J1.setZero();
      st()->Jintegrate(xs[t], z.segment(off[t], k), J1, J, cr::second, cr::setto);
      auto m = t < T() ? p->get_runningModels()[t] : p->get_terminalModel();
      auto d = m->createData();
      if (t == T()) {
        m->calc(d, x(z, t));
        m->calcDiff(d, x(z, t));
      } else {
        m->calc(d, x(z, t), u(z, t));
        m->calcDiff(d, x(z, t), u(z, t));
      }
      h.block(off[t], off[t], k, k) = J.transpose() * d->Lxx * J;
      if (t == T()) break;
      const long nu = m->get_nu();
      h.block(off[t], off[t] + k, k, nu) = J.transpose() * d->Lxu;
      h.block(off[t] + k, off[t], nu, k) = h.block(off[t], off[t] + k, k, nu).transpose();
      h.block(off[t] + k, off[t] + k, nu, nu) = d->Luu;
    }
    return h;
  }
  template <class F>
  static Mat fd(F f, const Vec& z, long rows) {  // central differences, two steps extrapolated
    Mat J(rows, z.size());
    for (long i = 0; i < z.size(); ++i) {
      const double e = 1e-3;
      auto d = [&](double s) {
        Vec a = z, b = z;
        a[i] += s, b[i] -= s;
        return Vec((f(a) - f(b)) / (2 * s));
      };
      J.col(i) = (4 * d(e / 2) - d(e)) / 3;
    }
    return J;
  }
};
struct QuietFd {  // Ipopt prints its progress on the standard output
  int saved;
  QuietFd() {
    fflush(stdout);
    saved = dup(1);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~QuietFd() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};
// arrays with sentinels around and in them
template <class T>
struct Arr {
  std::vector<T> v;
  T mark;
  Arr(long n, T mark) : v(n + 16, mark), mark(mark) {}
  T* p() { return v.data() + 8; }
  bool intact(const std::vector<T>& w, size_t n) const {
    for (int i = 0; i < 8; ++i)
      if (memcmp(&v[i], &mark, sizeof(T)) || memcmp(&v[8 + n + i], &mark, sizeof(T))) return false;
    return true;
  }
  bool ok() const { return intact(v, v.size() - 16); }
  bool filled() const {
    for (size_t i = 8; i + 8 < v.size(); ++i)
      if (!memcmp(&v[i], &mark, sizeof(T))) return false;
    return true;
  }
};
static double mark() {
  double d;
  const uint64_t b = 0x7ff8dead0badf00dull;
  memcpy(&d, &b, 8);
  return d;
}
struct Shape2 {
  I n = 0, m = 0, nj = 0, nh = 0;
  Arr<I> jr{0, 0}, jc{0, 0}, hr{0, 0}, hc{0, 0};
};
static Shape2 structure(mc::Ctx& c, Ipopt::TNLP& f, const NLP& N) {
  Shape2 s;
  Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
  CHECK(c, f.get_nlp_info(s.n, s.m, s.nj, s.nh, st), "info", "get_nlp_info fails");
  CHECK(c, s.n == N.n && s.m == N.m && st == Ipopt::TNLP::C_STYLE, "info", "%d variables and %d constraints, expected %ld and %ld", s.n, s.m, N.n, N.m);
  s.jr = Arr<I>(s.nj, -77), s.jc = s.jr, s.hr = Arr<I>(s.nh, -77), s.hc = s.hr;
  CHECK(c, f.eval_jac_g(s.n, nullptr, true, s.m, s.nj, s.jr.p(), s.jc.p(), nullptr) && f.eval_h(s.n, nullptr, true, 1, s.m, nullptr, true, s.nh, s.hr.p(), s.hc.p(), nullptr), "structure", "a structure is refused");
  CHECK(c, s.jr.ok() && s.jc.ok() && s.hr.ok() && s.hc.ok(), "structure", "a structure is written beyond its declared size");
  CHECK(c, s.jr.filled() && s.jc.filled() && s.hr.filled() && s.hc.filled(), "structure", "a structure is not written completely");
  std::set<std::pair<I, I>> seen;
  for (I i = 0; i < s.nj; ++i) {
    const I r = s.jr.p()[i], k = s.jc.p()[i];
    CHECK(c, r >= 0 && r < s.m && k >= 0 && k < s.n, "structure", "Jacobian entry (%d, %d) is out of range", r, k);
    CHECK(c, seen.insert({r, k}).second, "structure", "Jacobian entry (%d, %d) appears twice", r, k);
  }
  seen.clear();
  for (I i = 0; i < s.nh; ++i) {
    const I r = s.hr.p()[i], k = s.hc.p()[i];
    CHECK(c, r >= 0 && r < s.n && k >= 0 && k <= r, "structure", "Hessian entry (%d, %d) is out of the lower triangle", r, k);
    CHECK(c, seen.insert({r, k}).second, "structure", "Hessian entry (%d, %d) appears twice", r, k);
  }
  return s;
}
static void bounds(mc::Ctx& c, Ipopt::TNLP& f, const NLP& N, const Vs& us) {
  Arr<double> xl(N.n, mark()), xu = xl, gl(N.m, mark()), gu = gl, x0 = xl;
  CHECK(c, f.get_bounds_info(N.n, xl.p(), xu.p(), N.m, gl.p(), gu.p()), "bounds", "get_bounds_info fails");
  CHECK(c, xl.ok() && xu.ok() && gl.ok() && gu.ok() && xl.filled() && xu.filled() && gl.filled() && gu.filled(), "bounds", "the bounds are not written exactly in their arrays");
  for (long i = 0; i < N.m; ++i) CHECK(c, gl.p()[i] == 0 && gu.p()[i] == 0, "bounds", "constraint %ld is not an equality to zero", i);
  CHECK(c, f.get_starting_point(N.n, true, x0.p(), false, nullptr, nullptr, N.m, false, nullptr) && x0.ok() && x0.filled(), "start", "the starting point is not written exactly in its array");
  const double free = 1e19;  // Ipopt's own infinity
  for (long t = 0; t <= N.T(); ++t) {
    for (long i = 0; i < N.ndx(); ++i) {
      const long j = N.off[t] + i;
      CHECK(c, xl.p()[j] <= -free && xu.p()[j] >= free, "bounds", "the state of node %ld is limited", t);
      CHECK(c, x0.p()[j] == 0, "start", "the state increment of node %ld starts at %g", t, x0.p()[j]);
    }
    if (t == N.T()) break;
    auto& m = N.p->get_runningModels()[t];
    for (long i = 0; i < (long)m->get_nu(); ++i) {
      const long j = N.off[t] + N.ndx() + i;
      const bool lim = m->get_has_control_limits();
      const double lo = lim ? m->get_u_lb()[i] : -INF, up = lim ? m->get_u_ub()[i] : INF;
      CHECK(c, lo <= -free ? xl.p()[j] <= -free : xl.p()[j] == lo, "bounds", "control %ld of node %ld has the lower bound %g, the model %g", i, t, xl.p()[j], lo);
      CHECK(c, up >= free ? xu.p()[j] >= free : xu.p()[j] == up, "bounds", "control %ld of node %ld has the upper bound %g, the model %g", i, t, xu.p()[j], up);
      CHECK(c, x0.p()[j] == us[t][i], "start", "control %ld of node %ld starts at %g, the guess is %g", i, t, x0.p()[j], us[t][i]);
    }
  }
}
static bool near(const Mat& a, const Mat& b, double tol) { return close(a, b, tol); }
static void evaluate(mc::Ctx& c, Ipopt::TNLP& f, const NLP& N, const Shape2& s, int what, const Vec& z0, int zi, double factor) {
  Vec z = z0;
  static const char* nm[] = {"eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h"};
  c.op("%s at point %d", nm[what], zi);
  const bool newx = true;
  switch (what) {
    case 0: {
      double v = 123.456;  // an output: whatever was there is overwritten
      CHECK(c, f.eval_f(s.n, z.data(), newx, v), "eval_f", "eval_f fails");
      CHECK(c, closes(v, N.f(z)), "eval_f", "the objective is %.12g, the total cost %.12g", v, N.f(z));
      break;
    }
    case 1: {
      Arr<double> g(s.n, mark());
      CHECK(c, f.eval_grad_f(s.n, z.data(), newx, g.p()) && g.ok() && g.filled(), "eval_grad_f", "the gradient is not written exactly in its array");
      const Vec v = Eigen::Map<Vec>(g.p(), s.n), r = NLP::fd([&](const Vec& a) { return Vec(Vec::Constant(1, N.f(a))); }, z, 1).transpose();
      CHECK(c, near(v, r, 2e-6), "eval_grad_f", "the gradient is %s, expected %s", show(v).c_str(), show(r).c_str());
      break;
    }
    case 2: {
      Arr<double> g(s.m, mark());
      CHECK(c, f.eval_g(s.n, z.data(), newx, s.m, g.p()) && g.ok() && g.filled(), "eval_g", "the constraints are not written exactly in their array");
      const Vec v = Eigen::Map<Vec>(g.p(), s.m);
      CHECK(c, near(v, N.g(z), 1e-10), "eval_g", "the constraints are %s, expected %s", show(v).c_str(), show(N.g(z)).c_str());
      break;
    }
    case 3: {
      Arr<double> g(s.nj, mark());
      CHECK(c, f.eval_jac_g(s.n, z.data(), newx, s.m, s.nj, nullptr, nullptr, g.p()) && g.ok() && g.filled(), "eval_jac_g", "the Jacobian is not written exactly in its array");
      Mat v = Mat::Zero(s.m, s.n);
      for (I i = 0; i < s.nj; ++i) v(const_cast<Shape2&>(s).jr.p()[i], const_cast<Shape2&>(s).jc.p()[i]) = g.p()[i];
      const Mat r = NLP::fd([&](const Vec& a) { return N.g(a); }, z, s.m);
      CHECK(c, near(v, r, 2e-6), "eval_jac_g", "the constraint Jacobian is %s, expected %s", show(v).c_str(), show(r).c_str());
      break;
    }
    default: {
      Arr<double> g(s.nh, mark());
      const Vec lambda = Gen(5).vec(s.m);
      CHECK(c, f.eval_h(s.n, z.data(), newx, factor, s.m, lambda.data(), true, s.nh, nullptr, nullptr, g.p()) && g.ok() && g.filled(), "eval_h", "the Hessian is not written exactly in its array");
      Mat v = Mat::Zero(s.n, s.n);
      for (I i = 0; i < s.nh; ++i) {
        const I r = const_cast<Shape2&>(s).hr.p()[i], k = const_cast<Shape2&>(s).hc.p()[i];
        v(r, k) = v(k, r) = g.p()[i];
      }
      const Mat r = factor * N.H(z);
      CHECK(c, near(v, r, 1e-9), "eval_h", "with objective factor %g the Hessian is %s, expected %s", factor, show(v).c_str(), show(r).c_str());
    }
  }
  c.state(mc::hash_mat(what * 10 + zi, z));
}

struct Case {
  StateP s;
  std::shared_ptr<ShootingProblem> p;
  Vs xs, us;
  Vec point(int i) const { return s->get_nx() == 3 ? CurvedState::point(0.4 * i - 0.6, 0.3 - 0.2 * i) : Vec(Gen(40 + i).vec(s->get_nx())); }
  void guess(int k) {
    xs.clear(), us.clear();
    for (size_t t = 0; t <= p->get_T(); ++t) xs.push_back(k ? point(t + 2 * k) : Vec(s->zero()));
    for (auto& m : p->get_runningModels()) us.push_back(k ? Vec(Gen(60 + us.size() + k).vec(m->get_nu())) : Vec(Vec::Zero(m->get_nu())));
  }
};
static ActP limited(ActP m, int k) {
  const long nu = m->get_nu();
  if (!nu || !k) return m;
  Vec lo = Vec::Constant(nu, -INF), up = Vec::Constant(nu, INF);
  lo[0] = -0.3, up[nu - 1] = 0.5;
  if (k == 2) lo.setConstant(-0.4), up.setConstant(0.25);
  m->set_u_lb(lo);
  m->set_u_ub(up);
  return m;
}
static const std::vector<std::vector<int>>& menus() {
  static const std::vector<std::vector<int>> v = {{0}, {2, 1}, {3, 0}, {4, 5}, {1, 6}, {0, 1, 2}, {7, 3, 6}};
  return v;
}
static Case make_case(mc::Ctx& c, int menu, int state, int lim) {
  Case k;
  if (state)
    k.s = std::make_shared<CurvedState>();
  else
    k.s = std::make_shared<StateVector>(2);
  std::vector<ActP> ms;
  for (int kind : menus()[menu]) {
    // the integrated nodes take states made of a position and a velocity in a vector space
    if (state) kind = kind == 3 ? 6 : kind == 4 ? 2 : kind == 7 ? 0 : kind;
    ms.push_back(limited(make_node(kind, k.s, 30 + ms.size()), lim));
  }
  k.p = std::make_shared<ShootingProblem>(k.point(5), ms, make_node(2, k.s, 77));
  return k;
}

// every order of the callbacks, at several points
static void functions(mc::Ctx& c) {
  Quiet quiet;
  Case k = make_case(c, c.choose(menus().size(), "nodes"), c.choose(2, "state"), c.choose(3, "limits"));
  k.guess(c.choose(c.thorough ? 3 : 2, "guess"));
  IfaceP f = new IpoptInterface(k.p);
  f->set_xs(k.xs);
  f->set_us(k.us);
  NLP N(k.p, k.xs);
  const Shape2 s = structure(c, *f, N);
  bounds(c, *f, N, k.us);
  const int depth = c.thorough ? 4 : 3;
  for (int i = 0; i < depth; ++i) {
    const int what = c.choose(5, "callback"), zi = c.choose(2, "point");
    const Vec z = zi == 2 ? Vec(Vec::Zero(N.n)) : Vec(0.5 * Gen(80 + zi).vec(N.n));
    evaluate(c, *f, N, s, what, z, zi, what == 4 ? c.pick<double>({1., 0.3, 0.}, "objective factor") : 1);
  }
  // the solution is handed back
  Vec z = 0.4 * Gen(91).vec(N.n);
  Vec zl = Vec::Zero(N.n), la = Vec::Zero(N.m);
  f->finalize_solution(Ipopt::SUCCESS, N.n, z.data(), zl.data(), zl.data(), N.m, la.data(), la.data(), 4.25, nullptr, nullptr);
  CHECK(c, f->get_cost() == 4.25, "solution", "the final cost is %g", f->get_cost());
  for (long t = 0; t <= N.T(); ++t) {
    CHECK(c, close(f->get_xs()[t], N.x(z, t), 1e-12), "solution", "state %ld is %s, the solution %s", t, show(f->get_xs()[t]).c_str(), show(N.x(z, t)).c_str());
    if (t < N.T()) CHECK(c, same(f->get_us()[t], N.u(z, t)), "solution", "control %ld is %s, the solution %s", t, show(f->get_us()[t]).c_str(), show(N.u(z, t)).c_str());
  }
}
// edits of the problem, followed by resizeData
static void resizes(mc::Ctx& c) {
  Quiet quiet;
  Case k = make_case(c, c.choose(3, "nodes"), c.choose(2, "state"), 0);
  IfaceP f = new IpoptInterface(k.p);
  int seed = 200;
  const int depth = c.thorough ? 3 : 2;
  for (int i = 0; i < depth; ++i) {
    const int op = c.choose(5, "edit"), T = k.p->get_T();
    if (op == 0) {
      c.op("resizeData() without an edit");
    } else if (op == 1) {
      c.op("circularAppend");
      k.p->circularAppend(limited(make_node(c.pick<int>({6, 1}, "node"), k.s, ++seed), 2));
    } else if (op == 2) {
      const int t = c.choose(T, "position");
      c.op("updateModel(%d)", t);
      k.p->updateModel(t, make_node(c.pick<int>({0, 6}, "node"), k.s, ++seed));
    } else if (op == 3) {
      const int n = c.pick<int>({1, 2, 4}, "horizon");
      c.op("set_runningModels(%d)", n);
      std::vector<ActP> ms;
      for (int t = 0; t < n; ++t) ms.push_back(make_node(t % 3, k.s, ++seed));
      k.p->set_runningModels(ms);
    } else {
      c.op("set_x0, set_terminalModel");
      k.p->set_x0(k.point(++seed % 7));
      k.p->set_terminalModel(make_node(0, k.s, ++seed));
    }
    f->resizeData();
    k.guess(1);
    f->set_xs(k.xs);
    f->set_us(k.us);
    NLP N(k.p, k.xs);
    const Shape2 s = structure(c, *f, N);
    bounds(c, *f, N, k.us);
    const Vec z = 0.4 * Gen(83).vec(N.n);
    for (int w = 0; w < 5; ++w) evaluate(c, *f, N, s, w, z, 0, 0.7);
  }
}
static bool quiet_solve(SolverIpopt& S, const Vs& xs, const Vs& us, int n) {
  QuietFd q;
  return S.solve(xs, us, n, false);
}
// limits and nonlinear problems: what is reported solved is feasible, within the limits and stationary
static void limited_solves(mc::Ctx& c) {
  Quiet quiet;
  Shape h;
  h.state = c.choose(3, "state");
  static const std::vector<int> nus[] = {{1}, {1, 2}, {2, 0, 1}};
  h.nu = nus[c.choose(3, "nodes")];
  h.e = c.choose(2, "nonlinear") ? 0.5 : 0;
  h.seed = 1 + c.choose(c.thorough ? 6 : 2, "seed");
  Prob P = make_prob(h);
  bool any = false;
  for (int t = 0; t < P.T(); ++t) any = limits(&c, P, t, P.m[t]->get_nu() ? c.choose(7, "limits") : 0) || any;
  SolverIpopt S(P.p);
  S.setNumericIpoptOption("tol", 1e-10);
  S.setNumericIpoptOption("bound_relax_factor", 0);
  const int g = c.choose(2, "guess");
  const bool r = quiet_solve(S, g ? P.some_x(1) : Vs(), g ? P.some_u(1) : Vs(), c.pick<int>({300, 0}, "iterations"));
  const Vs &xs = S.get_xs(), &us = S.get_us();
  const auto e = P.eval(xs, us);
  if (h.e == 0 && h.state < 2 && S.get_iter() > 0) {
    const Best b = constrained(P);
    if (std::isfinite(b.cost)) {
      CHECK(c, r, "limited-solved", "the linear-quadratic problem with limits is not solved");
      CHECK(c, close_all(us, b.us, 1e-4), "limited-optimum", "us %s, the constrained optimum is %s", shows(us).c_str(), shows(b.us).c_str());
    }
  }
  if (std::isfinite(e.cost)) CHECK(c, closes(S.get_cost(), e.cost, 1e-6), "cost", "the cost is %.12g, that of the trajectory %.12g", S.get_cost(), e.cost);
  if (!r) return c.note("not solved");
  CHECK(c, e.norm(e.fs, false) < 1e-6, "feasible", "reported solved with the dynamics violated by %g", e.norm(e.fs, false));
  Vs gr = gradient(P, xs, us);
  if (h.state == 2)  // the adjoint above takes a vector space
    for (int t = 0; t < P.T(); ++t)
      for (long i = 0; i < us[t].size(); ++i) {
        auto J = [&](double d) {
          Vs v = us;
          v[t][i] += d;
          return P.eval(P.rollout(v), v).cost;
        };
        gr[t][i] = (J(1e-5) - J(-1e-5)) / 2e-5;
      }
  for (int t = 0; t < P.T(); ++t) {
    const TAct& m = *P.m[t];
    for (long i = 0; i < us[t].size(); ++i) {
      const bool lim = m.get_has_control_limits();
      const double lo = lim ? m.get_u_lb()[i] : -INF, up = lim ? m.get_u_ub()[i] : INF, u = us[t][i], q = gr[t][i];
      CHECK(c, u >= lo - 1e-7 && u <= up + 1e-7, "limits", "control %ld of node %d is %.12g, outside [%g, %g]", i, t, u, lo, up);
      const bool at_lo = u <= lo + 1e-4, at_up = u >= up - 1e-4;
      CHECK(c, std::fabs(q) < 1e-4 || (at_lo && q > 0) || (at_up && q < 0), "stationary", "control %ld of node %d is %.12g in [%g, %g] but the cost's derivative is %g", i, t, u, lo, up, q);
    }
  }
  c.state(hash_all(1, us));
}
// whole solves of linear-quadratic problems, also after edits
static void solves(mc::Ctx& c) {
  Quiet quiet;
  Shape h;
  h.state = c.choose(2, "state");
  static const std::vector<int> nus[] = {{1}, {2, 1}, {1, 0, 2}, {3}};
  h.nu = nus[c.choose(4, "nodes")];
  h.seed = 1 + c.choose(c.thorough ? 4 : 2, "seed");
  Prob P = make_prob(h);
  SolverIpopt S(P.p);
  S.setStringIpoptOption("sb", "yes");
  S.setNumericIpoptOption("tol", 1e-10);
  static_cast<SolverIpopt&>(S).setStringIpoptOption("print_timing_statistics", "no");
  for (int i = 0; i < 2; ++i) {
    const int g = c.choose(2, "guess");
    const Vs xs = g ? P.some_x(i) : Vs(), us = g ? P.some_u(i) : Vs();
    c.op("solve");
    const bool r = quiet_solve(S, xs, us, 200);
    const Dense d = dense(P, false);
    if (!d.unique) c.prune();
    CHECK(c, r, "solve", "the linear-quadratic problem is not solved");
    CHECK(c, close_all(S.get_us(), d.us, 1e-5) && close_all(S.get_xs(), d.xs, 1e-5), "optimum", "us %s xs %s, the optimum is %s %s", shows(S.get_us()).c_str(), shows(S.get_xs()).c_str(), shows(d.us).c_str(), shows(d.xs).c_str());
    const double cost = P.eval(S.get_xs(), S.get_us()).cost;
    CHECK(c, closes(S.get_cost(), cost, 1e-7), "cost", "the cost is %.12g, that of the trajectory %.12g", S.get_cost(), cost);
    c.state(hash_all(1, S.get_us()));
    if (i) break;
    const int op = c.choose(4, "edit");
    auto node = [&](int nu) {
      TAct::Spec a;
      a.nu = nu, a.seed = 400 + nu;
      return std::make_shared<TAct>(P.s, a);
    };
    if (op == 1) {
      TActP m = node(2);
      c.op("circularAppend");
      P.p->circularAppend(m);
      P.m.erase(P.m.begin()), P.m.push_back(m);
    } else if (op == 2) {
      c.op("set_runningModels");
      P.m = {node(1), node(3), node(2), node(1)};
      P.p->set_runningModels(std::vector<std::shared_ptr<ActionModelAbstract>>(P.m.begin(), P.m.end()));
    } else if (op == 3) {
      c.op("set_x0");
      P.x0 = P.point(4, 1);
      P.p->set_x0(P.x0);
    }
  }
}
// the stopping threshold is Ipopt's tolerance, whenever it is set
static void tolerance(mc::Ctx& c) {
  Quiet quiet;
  Shape h;
  h.state = c.choose(3, "state");
  h.nu = {1, 2};
  h.e = 0.5;
  h.seed = 1 + c.choose(c.thorough ? 6 : 3, "seed");
  Prob P = make_prob(h);
  SolverIpopt S(P.p);
  CHECK(c, S.get_th_stop() == 1e-9, "default-tolerance", "the default threshold is %g", S.get_th_stop());
  std::size_t iters[2] = {0, 0};
  for (int i = 0; i < 2; ++i) {
    const double tol = c.pick<double>({1e-9, 1., 1e-4}, "threshold");
    c.op("set_th_stop(%g), solve", tol);
    S.set_th_stop(tol);
    CHECK(c, S.get_th_stop() == tol, "tolerance", "the threshold is %g, set to %g", S.get_th_stop(), tol);
    CHECK(c, throws([&] { S.set_th_stop(0); }) && throws([&] { S.set_th_stop(-1e-9); }) && S.get_th_stop() == tol, "tolerance-refused", "a threshold that is not positive is accepted");
    const bool r = quiet_solve(S, P.some_x(1), P.some_u(1), 100);
    iters[i] = S.get_iter();
    SolverIpopt R(P.p);
    R.setNumericIpoptOption("tol", tol);
    const bool q = quiet_solve(R, P.some_x(1), P.some_u(1), 100);
    CHECK(c, r == q && S.get_iter() == R.get_iter() && close_all(S.get_us(), R.get_us(), 1e-12), "tolerance", "with the threshold %g: solved %d in %zu iterations, with the same tolerance of Ipopt's: %d in %zu", tol, r, S.get_iter(), q, R.get_iter());
    c.state(hash_all(i, S.get_us()));
    c.note("%zu iterations", S.get_iter());
  }
}
// a failing evaluation anywhere: what is reported solved is the optimum, and a later solve is as if nothing had happened
static void faults(mc::Ctx& c) {
  Quiet quiet;
  Shape h;
  h.state = c.choose(2, "state");
  static const std::vector<int> nus[] = {{1}, {2, 1}, {0, 1}};
  h.nu = nus[c.choose(3, "nodes")];
  Prob P = make_prob(h);
  const Dense d = dense(P, false);
  SolverIpopt S(P.p);
  S.setStringIpoptOption("sb", "yes");
  S.setNumericIpoptOption("tol", 1e-10);
  S.setStringIpoptOption("check_derivatives_for_naninf", "yes");  // else the linear solver crashes
  Fault hook;
  hook.c = &c;
  for (auto& m : P.m) m->hook = &hook;
  P.mT->hook = &hook;
  bool r = false;
  try {
    r = quiet_solve(S, P.some_x(1), P.some_u(1), 60);
  } catch (const std::exception& e) {
    c.note("solve throws %s", e.what());
  }
  hook.on = false;
  CHECK(c, all_finite(S.get_xs()) && all_finite(S.get_us()), "finite", "a non-finite trajectory is stored (%s): %s %s", hook.what.c_str(), shows(S.get_xs()).c_str(), shows(S.get_us()).c_str());
  auto optimal = [&] { return close_all(S.get_us(), d.us, 1e-5) && close_all(S.get_xs(), d.xs, 1e-5); };
  if (r) CHECK(c, optimal(), "fault", "reported solved (%s) with us %s, the optimum is %s", hook.what.c_str(), shows(S.get_us()).c_str(), shows(d.us).c_str());
  CHECK(c, quiet_solve(S, P.some_x(2), P.some_u(2), 60) && optimal(), "recovery", "after %s the problem is not solved: us %s, the optimum is %s", hook.what.c_str(), shows(S.get_us()).c_str(), shows(d.us).c_str());
  c.outcome(r ? "solved" : "failed");
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("functions", functions);
  e.add("resizes", resizes);
  e.add("solves", solves);
  e.add("limited", limited_solves);
  e.add("tolerance", tolerance);
  e.add("faults", faults, 1, 2);
  return e.main(argc, argv);
}
