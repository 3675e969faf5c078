// C25: invalid arguments are refused and leave the object as it was; valid ones, edges included, are accepted.
#include "args.hpp"
#include "managed.hpp"
#include "nodes.hpp"
#include "solve.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"

static const double TINY = 1e-300;
static double above(double x) { return std::nextafter(x, INF); }
static double below(double x) { return std::nextafter(x, -INF); }
static Vec rnd(long n, int i) { return Gen(40 + i).vec(n); }
static size_t depth_of(mc::Ctx& c) { return c.thorough ? 3 : 2; }

// ---- solvers -----------------------------------------------------------------------------------------------------
struct Sol {
  Prob P;
  SolverP S;
  template <class K>
  K& as() { return dynamic_cast<K&>(*S); }
};
static const int IPOPT = KINDS;
static Vs resized(Vs v, size_t i, long d) {
  v[i] = rnd(v[i].size() + d, 9);
  return v;
}
static Vs shorter(Vs v) {
  v.pop_back();
  return v;
}
static Vs longer(Vs v) {
  v.push_back(v.back());
  return v;
}
static void get_solver(Sol& s, Snap& o, int kind) {
  SolverAbstract& S = *s.S;
  o("xs", S.get_xs()), o("us", S.get_us());
  o("preg", S.get_preg()), o("dreg", S.get_dreg()), o("th_acceptstep", S.get_th_acceptstep()), o("th_stop", S.get_th_stop()), o("th_gaptol", S.get_th_gaptol());
  o("is_feasible", S.get_is_feasible()), o("iter", (double)S.get_iter()), o("feasnorm", (double)S.get_feasnorm());
  o("cost", S.get_cost()), o("stop", S.get_stop());
  if (kind == IPOPT || kind == K_KKT) return;
  SolverDDP& D = s.as<SolverDDP>();
  o("reg_incfactor", D.get_reg_incfactor()), o("reg_decfactor", D.get_reg_decfactor()), o("reg_min", D.get_reg_min()), o("reg_max", D.get_reg_max());
  o("alphas", D.get_alphas()), o("th_stepdec", D.get_th_stepdec()), o("th_stepinc", D.get_th_stepinc()), o("th_grad", D.get_th_grad());
  if (is_fddp(kind)) o("th_acceptnegstep", s.as<SolverFDDP>().get_th_acceptnegstep());
  if (is_intro(kind)) o("rho", s.as<SolverIntro>().get_rho());
}
static void solvers(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(KINDS + 1, "solver");
  const bool fresh = c.flip("never solved");
  Shape h;
  h.state = 2;
  h.nu = kind == IPOPT || is_box(kind) ? std::vector<int>{1, 2} : std::vector<int>{2, 0, 1};
  if (kind == K_LU) h.nh = {1, 0, 1};
  h.e = 0.5;
  const Prob base = make_prob(h);
  const Vs xs = base.some_x(1), us = base.some_u(1);
  Ops<Sol> o;
  auto base_setter = [&](const std::string& n, std::vector<double> ok, std::vector<double> no, void (SolverAbstract::*f)(double)) {
    o.edges(n, ok, no, [f](Sol& s, double x) { (s.S.get()->*f)(x); });
  };
  base_setter("set_preg", {0, 1e-5}, {-TINY, -1}, &SolverAbstract::set_preg);
  base_setter("set_dreg", {0, 1e-5}, {-TINY, -1}, &SolverAbstract::set_dreg);
  base_setter("set_th_acceptstep", {TINY, 0.3, 1}, {0, -0.1, above(1)}, &SolverAbstract::set_th_acceptstep);
  base_setter("set_th_gaptol", {0, 1e-3}, {-TINY}, &SolverAbstract::set_th_gaptol);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
  base_setter("set_xreg", {0, 1e-5}, {-TINY, -1}, &SolverAbstract::set_xreg);
  base_setter("set_ureg", {0, 2e-5}, {-TINY, -1}, &SolverAbstract::set_ureg);
#pragma GCC diagnostic pop
  base_setter("set_th_stop", {TINY, 1e-3}, {0, -1e-9}, &SolverAbstract::set_th_stop);
  o.good("set_xs", [=](Sol& s) { s.S->set_xs(xs); });
  o.good("set_us", [=](Sol& s) { s.S->set_us(us); });
  for (const Vs& v : {shorter(xs), longer(xs), Vs(), resized(xs, 0, 1), resized(xs, 1, -1), resized(xs, xs.size() - 1, 1)}) o.bad("set_xs(" + shows(v) + ")", [=](Sol& s) { s.S->set_xs(v); });
  for (const Vs& v : {shorter(us), longer(us), Vs(), resized(us, 0, 1), resized(us, 0, -1), resized(us, us.size() - 1, 1)}) o.bad("set_us(" + shows(v) + ")", [=](Sol& s) { s.S->set_us(v); });
  o.good("setCandidate(xs, us)", [=](Sol& s) { s.S->setCandidate(xs, us, false); });
  o.good("setCandidate({}, us)", [=](Sol& s) { s.S->setCandidate({}, us, false); });
  o.good("setCandidate(xs, {})", [=](Sol& s) { s.S->setCandidate(xs, {}, true); });
  o.good("setCandidate({}, {})", [=](Sol& s) { s.S->setCandidate(); });
  for (const Vs& v : {shorter(xs), longer(xs), resized(xs, 0, 1), resized(xs, 1, -1), resized(xs, xs.size() - 1, 1)}) {
    o.bad("setCandidate(" + shows(v) + ", us)", [=](Sol& s) { s.S->setCandidate(v, us, true); });
    if (kind != IPOPT) o.bad("solve(" + shows(v) + ", us)", [=](Sol& s) { s.S->solve(v, us, 1, false); });
  }
  for (const Vs& v : {shorter(us), longer(us), resized(us, 0, 1), resized(us, 0, -1), resized(us, us.size() - 1, 1)}) {
    o.bad("setCandidate(xs, " + shows(v) + ")", [=](Sol& s) { s.S->setCandidate(xs, v, true); });
    o.bad("solve(xs, " + shows(v) + ")", [=](Sol& s) { s.S->solve(xs, v, 1, false); });
  }
  if (kind != IPOPT && kind != K_KKT) {
    auto ddp = [&](const std::string& n, std::vector<double> ok, std::vector<double> no, void (SolverDDP::*f)(double)) {
      o.edges(n, ok, no, [f](Sol& s, double x) { (s.as<SolverDDP>().*f)(x); });
    };
    ddp("set_reg_incfactor", {above(1), 7}, {1, 0.5, 0, -3}, &SolverDDP::set_reg_incfactor);
    ddp("set_reg_decfactor", {above(1), 7}, {1, 0.5, 0, -3}, &SolverDDP::set_reg_decfactor);
    ddp("set_reg_min", {0, 1e-7}, {-TINY, -1}, &SolverDDP::set_reg_min);
    ddp("set_reg_max", {0, 1e7}, {-TINY, -1}, &SolverDDP::set_reg_max);
    ddp("set_th_stepdec", {TINY, 1}, {0, above(1), -0.5}, &SolverDDP::set_th_stepdec);
    ddp("set_th_stepinc", {TINY, 1}, {0, above(1), -0.5}, &SolverDDP::set_th_stepinc);
    ddp("set_th_grad", {0, 1e-3}, {-TINY}, &SolverDDP::set_th_grad);
    typedef std::vector<double> A;
    for (const A& a : {A{1}, A{1, 0.5}, A{1, below(1), 1e-4}}) o.good("set_alphas(" + show(Eigen::Map<const Vec>(a.data(), a.size())) + ")", [=](Sol& s) { s.as<SolverDDP>().set_alphas(a); });
    for (const A& a : {A{}, A{0}, A{-1}, A{1, 1}, A{1, 0.5, 0.5}, A{1, 0.5, 0.7}, A{1, 0}, A{1, 0.5, -0.1}, A{-1, -2}})
      o.bad("set_alphas(" + show(Eigen::Map<const Vec>(a.data(), a.size())) + ")", [=](Sol& s) { s.as<SolverDDP>().set_alphas(a); });
    if (!fresh) o.edges("forwardPass", {0, 1}, {-TINY, above(1), 2, -1}, [](Sol& s, double x) { s.as<SolverDDP>().forwardPass(x); });
    if (is_fddp(kind)) o.edges("set_th_acceptnegstep", {0, 3}, {-TINY}, [](Sol& s, double x) { s.as<SolverFDDP>().set_th_acceptnegstep(x); });
    if (is_intro(kind)) o.edges("set_rho", {TINY, 0.3, 1}, {0, above(1), -1}, [](Sol& s, double x) { s.as<SolverIntro>().set_rho(x); });
  }
  auto make = [&] {
    Sol s;
    s.P = base.twin();
    if (kind == IPOPT) {
      auto i = std::make_shared<SolverIpopt>(s.P.p);
      i->setStringIpoptOption("sb", "yes");
      s.S = i;
    } else
      s.S = make_solver(kind, s.P.p);
    if (!fresh) s.S->solve(base.some_x(2), base.some_u(2), 1, false);
    return s;
  };
  explore<Sol>(c, kind == IPOPT ? "Ipopt" : kind_name(kind), make, o, kind == IPOPT ? 1 : depth_of(c), [&](Sol& s, Snap& o) { get_solver(s, o, kind); },
               [&](Sol& s, Snap& o) {
                 o(std::string("solve: ") + thrown([&] { o("converged", s.S->solve(s.S->get_xs(), s.S->get_us(), 3, false)); }), 0);
                 get_solver(s, o, kind);
                 o("merit", s.S->get_merit()), o("d", s.S->get_d()), o("dV", s.S->get_dV()), o("dVexp", s.S->get_dVexp());
               });
}

// ---- box QP ------------------------------------------------------------------------------------------------------
struct Qp {
  std::shared_ptr<BoxQP> q;
};
static void boxqp(mc::Ctx& c) {
  Quiet quiet;
  const long n = 1 + c.choose(3, "dimension");
  Gen g(3);
  const Mat H = g.spd(n);
  const Vec q = Vec(3 * g.vec(n)), lb = Vec::Constant(n, -0.4), ub = Vec::Constant(n, 0.5), x0 = Vec::Zero(n);
  Ops<Qp> o;
  o.edges("set_th_acceptstep", {TINY, 0.1, below(0.5)}, {0, -0.1, 0.5, 1}, [](Qp& s, double x) { s.q->set_th_acceptstep(x); });
  o.edges("set_th_grad", {0, 1e-4}, {-TINY, -1}, [](Qp& s, double x) { s.q->set_th_grad(x); });
  o.edges("set_reg", {0, 1e-4}, {-TINY, -1}, [](Qp& s, double x) { s.q->set_reg(x); });
  typedef std::vector<double> A;
  for (const A& a : {A{1}, A{1, 0.5}, A{1, below(1), 1e-4}}) o.good("set_alphas(" + show(Eigen::Map<const Vec>(a.data(), a.size())) + ")", [=](Qp& s) { s.q->set_alphas(a); });
  for (const A& a : {A{}, A{0}, A{-1}, A{1, 1}, A{1, 0.5, 0.5}, A{1, 0.5, 0.7}, A{1, 0}, A{1, 0.5, -0.1}, A{-1, -2}})
    o.bad("set_alphas(" + show(Eigen::Map<const Vec>(a.data(), a.size())) + ")", [=](Qp& s) { s.q->set_alphas(a); });
  o.good("solve", [=](Qp& s) { s.q->solve(H, q, lb, ub, x0); });
  for (long d : {-1l, 1l}) {
    const Vec w = rnd(n + d, 1);
    o.bad("solve: H rows", [=](Qp& s) { s.q->solve(Gen(1).mat(n + d, n), q, lb, ub, x0); });
    o.bad("solve: H cols", [=](Qp& s) { s.q->solve(Gen(1).mat(n, n + d), q, lb, ub, x0); });
    o.bad("solve: q", [=](Qp& s) { s.q->solve(H, w, lb, ub, x0); });
    o.bad("solve: lb", [=](Qp& s) { s.q->solve(H, q, w, ub, x0); });
    o.bad("solve: ub", [=](Qp& s) { s.q->solve(H, q, lb, w, x0); });
    o.bad("solve: xinit", [=](Qp& s) { s.q->solve(H, q, lb, ub, w); });
  }
  auto sol = [](const BoxQPSolution& r, Snap& o) {
    o("x", r.x), o("Hff_inv", r.Hff_inv);
    Vec f(r.free_idx.size()), k(r.clamped_idx.size());
    for (long i = 0; i < f.size(); ++i) f[i] = (double)r.free_idx[i];
    for (long i = 0; i < k.size(); ++i) k[i] = (double)r.clamped_idx[i];
    o("free", f), o("clamped", k);
  };
  explore<Qp>(c, "BoxQP", [&] { return Qp{std::make_shared<BoxQP>(n, 20, 0.1, 1e-9, 1e-9)}; }, o, c.thorough ? 4 : 3,
              [&](Qp& s, Snap& o) {
                o("th_acceptstep", s.q->get_th_acceptstep()), o("th_grad", s.q->get_th_grad()), o("reg", s.q->get_reg()), o("alphas", s.q->get_alphas()), o("nx", (double)s.q->get_nx()), o("maxiter", (double)s.q->get_maxiter());
                sol(s.q->get_solution(), o);
              },
              [&](Qp& s, Snap& o) { o(thrown([&] { sol(s.q->solve(H, q, lb, ub, x0), o); }), 0); });
}

// ---- actions -----------------------------------------------------------------------------------------------------
template <class M, class D>
struct Mod {
  std::shared_ptr<M> m;
  std::shared_ptr<D> d;
};
template <class M, class D>
static void get_action(Mod<M, D>& s, Snap& o) {
  M& m = *s.m;
  o("dimensions", (Vec(6) << (double)m.get_nu(), (double)m.get_nr(), (double)m.get_ng(), (double)m.get_nh(), (double)m.get_ng_T(), (double)m.get_nh_T()).finished());
  o("u_lb", m.get_u_lb()), o("u_ub", m.get_u_ub()), o("g_lb", m.get_g_lb()), o("g_ub", m.get_g_ub()), o("limits", m.get_has_control_limits());
}
static const Vec& next_of(const ActionDataAbstract& d) { return d.xnext; }
static const Vec& next_of(const DifferentialActionDataAbstract& d) { return d.xout; }
template <class D>
static void get_data(const D& d, Snap& o) {
  o("next", next_of(d)), o("cost", d.cost), o("Fx", d.Fx), o("Fu", d.Fu), o("Lx", d.Lx), o("Lu", d.Lu), o("Lxx", d.Lxx), o("Lxu", d.Lxu), o("Luu", d.Luu), o("g", d.g), o("h", d.h), o("Gx", d.Gx), o("Gu", d.Gu), o("Hx", d.Hx), o("Hu", d.Hu);
}
template <class M, class D>
static void use_action(Mod<M, D>& s, Snap& o, const Vec& x, const Vec& u) {
  get_data(*s.d, o);
  for (int k = 0; k < 2; ++k) {
    auto d = k ? s.m->createData() : s.d;
    s.m->calc(d, x, u), s.m->calcDiff(d, x, u);
    get_data(*d, o);
    s.m->calc(d, x), s.m->calcDiff(d, x);
    get_data(*d, o);
  }
}
template <class M, class D>
static void common(Ops<Mod<M, D>>& o, const StateP& s, M& m, const Vec& x, const Vec& u) {
  typedef Mod<M, D> S;
  const long nx = s->get_nx(), nu = m.get_nu(), ng = std::max(m.get_ng(), m.get_ng_T());
  o.sizes("set_u_lb", nu, Vec(rnd(nu, 1).array() - 2), [](S& t, const Vec& v) { t.m->set_u_lb(v); });
  o.sizes("set_u_ub", nu, Vec(rnd(nu, 2).array() + 2), [](S& t, const Vec& v) { t.m->set_u_ub(v); });
  o.sizes("set_g_lb", ng, Vec(rnd(ng, 3).array() - 2), [](S& t, const Vec& v) { t.m->set_g_lb(v); });
  o.sizes("set_g_ub", ng, Vec(rnd(ng, 4).array() + 2), [](S& t, const Vec& v) { t.m->set_g_ub(v); });
  o.good("calc+calcDiff", [=](S& t) { t.m->calc(t.d, x, u), t.m->calcDiff(t.d, x, u); });
  o.good("terminal calc+calcDiff", [=](S& t) { t.m->calc(t.d, x), t.m->calcDiff(t.d, x); });
}
template <class M, class D>
static void evaluations(Ops<Mod<M, D>>& o, long nx, long nu, const Vec& x, const Vec& u) {
  typedef Mod<M, D> S;
  for (long k : std::set<long>{0, nx - 1, nx + 1}) {
    const Vec w = rnd(k, 5);
    o.bad(mc::strf("calc with x of size %ld", k), [=](S& t) { t.m->calc(t.d, w, u); });
    o.bad(mc::strf("calcDiff with x of size %ld", k), [=](S& t) { t.m->calcDiff(t.d, w, u); });
    o.bad(mc::strf("terminal calc with x of size %ld", k), [=](S& t) { t.m->calc(t.d, w); });
    o.bad(mc::strf("terminal calcDiff with x of size %ld", k), [=](S& t) { t.m->calcDiff(t.d, w); });
  }
  for (long k : std::set<long>{0, nu - 1, nu + 1}) {
    if (k < 0 || k == nu) continue;
    const Vec w = rnd(k, 6);
    o.bad(mc::strf("calc with u of size %ld", k), [=](S& t) { t.m->calc(t.d, x, w); });
    o.bad(mc::strf("calcDiff with u of size %ld", k), [=](S& t) { t.m->calcDiff(t.d, x, w); });
  }
}
template <class M, class D>
static void statics(Ops<Mod<M, D>>& o, long nx, long nu, const Vec& x) {
  typedef Mod<M, D> S;
  o.good("quasiStatic", [=](S& t) {
    Vec u = Vec::Zero(nu);
    t.m->quasiStatic(t.d, u, x);
  });
  for (long k : std::set<long>{0, nx - 1, nx + 1}) o.bad(mc::strf("quasiStatic with x of size %ld", k), [=](S& t) {
    Vec u = Vec::Zero(nu);
    t.m->quasiStatic(t.d, u, rnd(k, 5));
  });
  for (long k : std::set<long>{0, nu - 1, nu + 1})
    if (k >= 0 && k != nu) o.bad(mc::strf("quasiStatic with u of size %ld", k), [=](S& t) {
      Vec u = Vec::Zero(k);
      t.m->quasiStatic(t.d, u, x);
    });
}
typedef Mod<ActionModelAbstract, ActionDataAbstract> Act;
typedef Mod<DifferentialActionModelAbstract, DifferentialActionDataAbstract> DAct;

static void set_lqr(Ops<Act>& o, Ops<DAct>& od, bool disc, long n, long nu, long ng, long nh) {
  // every matrix and vector with one row or column too many or too few; an indefinite cost
  static const char* names[] = {"A", "B", "Q", "R", "N", "G", "H", "f", "q", "r", "g", "h", "Av"};
  const long rows = disc ? n : n / 2;
  struct Set {
    Mat m[7], Av;
    Vec v[5];
  };
  auto fresh = [=](int seed) {
    Set s;
    Gen g(seed);
    const Mat L = g.spd(n + nu, 0.3);
    s.m[0] = g.mat(rows, disc ? n : n / 2), s.Av = g.mat(rows, n / 2), s.m[1] = g.mat(rows, nu), s.m[2] = L.topLeftCorner(n, n), s.m[3] = L.bottomRightCorner(nu, nu), s.m[4] = L.topRightCorner(n, nu);
    s.m[5] = g.mat(ng, n + nu), s.m[6] = g.mat(nh, n + nu);
    s.v[0] = g.vec(rows), s.v[1] = g.vec(n), s.v[2] = g.vec(nu), s.v[3] = g.vec(ng), s.v[4] = g.vec(nh);
    return s;
  };
  auto put = [&](const std::string& n, bool ok, const Set& s) {
    if (disc)
      o.push_back({n, ok, [=](Act& t) { static_cast<ActionModelLQR&>(*t.m).set_LQR(s.m[0], s.m[1], s.m[2], s.m[3], s.m[4], s.m[5], s.m[6], s.v[0], s.v[1], s.v[2], s.v[3], s.v[4]); }});
    else
      od.push_back({n, ok, [=](DAct& t) { static_cast<DifferentialActionModelLQR&>(*t.m).set_LQR(s.m[0], s.Av, s.m[1], s.m[2], s.m[3], s.m[4], s.m[5], s.m[6], s.v[0], s.v[1], s.v[2], s.v[3], s.v[4]); }});
  };
  put("set_LQR", true, fresh(8));
  for (int i = 0; i < 13; ++i)
    for (int dim = 0; dim < (i < 7 || i == 12 ? 2 : 1); ++dim)
      for (int d : {-1, 1}) {
        if (i == 12 && disc) continue;
        Set s = fresh(8);
        const std::string what = std::string("set_LQR with ") + (d > 0 ? "one more " : "one less ") + (dim ? "column" : "row") + " in " + names[i];
        if (i < 7 || i == 12) {
          Mat& m = i == 12 ? s.Av : s.m[i];
          if ((dim ? m.cols() : m.rows()) + d < 0) continue;
          m = Gen(9).mat(m.rows() + (dim ? 0 : d), m.cols() + (dim ? d : 0));
        } else {
          Vec& v = s.v[i - 7];
          if (v.size() + d < 0) continue;
          v = rnd(v.size() + d, 8);
        }
        put(what, false, s);
      }
  Set s = fresh(8);
  s.m[2](0, 0) = -3;
  put("set_LQR with an indefinite cost", false, s);
  s = fresh(8);
  s.m[4] *= 50;
  put("set_LQR with an indefinite cost (N)", false, s);
  s = fresh(8);
  s.m[2].setZero(), s.m[3].setZero(), s.m[4].setZero();
  put("set_LQR with a null cost", true, s);
}
static void actions(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(9, "action");
  static const char* names[] = {"LQR", "LQR with constraints", "Unicycle", "Action", "Euler", "RK4", "RK2/poly-one", "numdiff", "action without controls"};
  StateP s = kind == 3 || kind == 7 || kind == 5 ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(4));
  typedef std::shared_ptr<ControlParametrizationModelAbstract> CP;
  auto model = [&]() -> std::shared_ptr<ActionModelAbstract> {
    TAct::Spec a;
    a.nu = 2, a.ng = 1, a.nh = 1, a.ng_T = 2, a.e = 0.5;
    TDAct::Spec b;
    b.nu = 2, b.ng = kind == 6 ? 2 : 0;
    switch (kind) {
      case 0: return std::make_shared<ActionModelLQR>(ActionModelLQR::Random(4, 2));
      case 1: return std::make_shared<ActionModelLQR>(ActionModelLQR::Random(4, 2, 2, 1));
      case 2: return std::make_shared<ActionModelUnicycle>();
      case 4: return std::make_shared<IntegratedActionModelEuler>(std::make_shared<TDAct>(s, b), 0.1, true);
      case 5: return std::make_shared<IntegratedActionModelRK>(std::make_shared<TDAct>(s, b), CP(std::make_shared<ControlParametrizationModelPolyTwoRK>(2, RKType::four)), RKType::four, 0.2, true);
      case 6: return std::make_shared<IntegratedActionModelRK>(std::make_shared<TDAct>(s, b), CP(std::make_shared<ControlParametrizationModelPolyOne>(2)), RKType::two, 0.15, false);
      case 7: a.ng_T = a.ng, a.nh_T = a.nh; return std::make_shared<ActionModelNumDiff>(std::make_shared<TAct>(s, a), true);
      case 8: a.nu = 0;
    }
    return std::make_shared<TAct>(s, a);
  };
  std::shared_ptr<ActionModelAbstract> shared = model();
  if (kind < 2) {  // Random is seeded anew at every call
    Gen g(4);
    const Mat L = g.spd(6, 0.3);
    const long ng = kind ? 2 : 0, nh = kind ? 1 : 0;
    const Mat A = g.mat(4, 4), B = g.mat(4, 2), Q = L.topLeftCorner(4, 4), R = L.bottomRightCorner(2, 2), N = L.topRightCorner(4, 2), G = g.mat(ng, 6), H = g.mat(nh, 6);
    const Vec f = g.vec(4), q = g.vec(4), r = g.vec(2), gg = g.vec(ng), hh = g.vec(nh);
    shared = std::make_shared<ActionModelLQR>(A, B, Q, R, N, G, H, f, q, r, gg, hh);
  }
  s = shared->get_state();
  const long nx = s->get_nx(), nu = shared->get_nu();
  const Vec x = nx == 3 && kind != 2 ? CurvedState::point(0.4, 0.2) : rnd(nx, 1), u = rnd(nu, 2);
  Ops<Act> o;
  common<ActionModelAbstract, ActionDataAbstract>(o, s, *shared, x, u);
  if (kind != 3 && kind != 8) evaluations<ActionModelAbstract, ActionDataAbstract>(o, nx, nu, x, u);
  if (nu) statics<ActionModelAbstract, ActionDataAbstract>(o, nx, nu, x);
  Ops<DAct> none;
  if (kind < 2) set_lqr(o, none, true, 4, 2, kind ? 2 : 0, kind ? 1 : 0);
  if (kind == 2) o.edges("set_dt", {TINY, 0.2}, {0, -TINY, -1}, [](Act& t, double v) { static_cast<ActionModelUnicycle&>(*t.m).set_dt(v); });
  if (kind >= 4 && kind <= 6) {
    typedef IntegratedActionModelAbstract I;
    o.edges("set_dt", {0, TINY, 0.2}, {-TINY, -1}, [](Act& t, double v) { static_cast<I&>(*t.m).set_dt(v); });
    for (int k : {0, 1, 2, 3}) {
      TDAct::Spec b;
      b.nu = k, b.seed = 5, b.ng = kind == 6 ? 2 : 0;
      auto other = std::make_shared<TDAct>(s, b);
      o.push_back({mc::strf("set_differential with nu %d", k), k == 2, [=](Act& t) { static_cast<I&>(*t.m).set_differential(other); }});
    }
  }
  if (kind == 7) o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](Act& t, double v) { static_cast<ActionModelNumDiff&>(*t.m).set_disturbance(v); });
  auto copy = [&] {
    Act t;
    if (kind < 2) t.m = std::make_shared<ActionModelLQR>(static_cast<ActionModelLQR&>(*shared));
    else t.m = model();
    t.d = t.m->createData();
    t.m->calc(t.d, x, u), t.m->calcDiff(t.d, x, u);
    return t;
  };
  auto get = [&](Act& t, Snap& o) {
    get_action(t, o);
    if (kind == 2) o("dt", static_cast<ActionModelUnicycle&>(*t.m).get_dt());
    if (kind >= 4 && kind <= 6) o("dt", static_cast<IntegratedActionModelAbstract&>(*t.m).get_dt());
    if (kind == 7) o("disturbance", static_cast<ActionModelNumDiff&>(*t.m).get_disturbance());
    if (kind < 2) {
      ActionModelLQR& m = static_cast<ActionModelLQR&>(*t.m);
      o("A", m.get_A()), o("B", m.get_B()), o("Q", m.get_Q()), o("R", m.get_R()), o("N", m.get_N()), o("G", m.get_G()), o("H", m.get_H()), o("f", m.get_f()), o("q", m.get_q()), o("r", m.get_r()), o("g", m.get_g()), o("h", m.get_h());
    }
  };
  explore<Act>(c, names[kind], copy, o, depth_of(c), get, [&](Act& t, Snap& o) { use_action(t, o, x, u); });
}
static void differential(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(4, "action");
  static const char* names[] = {"DiffLQR", "DiffLQR with constraints", "differential action", "differential numdiff"};
  StateP s = kind == 2 ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(4));
  auto model = [&]() -> std::shared_ptr<DifferentialActionModelAbstract> {
    TDAct::Spec b;
    b.nu = 2, b.ng = 1, b.ng_T = 2, b.nh = 1;
    if (kind == 3) b.ng_T = b.ng, b.nh_T = b.nh;
    if (kind == 3) return std::make_shared<DifferentialActionModelNumDiff>(std::make_shared<TDAct>(s, b), false);
    if (kind == 2) return std::make_shared<TDAct>(s, b);
    Gen g(4);
    const Mat L = g.spd(6, 0.3);
    const long ng = kind ? 2 : 0, nh = kind ? 1 : 0;
    const Mat Aq = g.mat(2, 2), Av = g.mat(2, 2), B = g.mat(2, 2), Q = L.topLeftCorner(4, 4), R = L.bottomRightCorner(2, 2), N = L.topRightCorner(4, 2), G = g.mat(ng, 6), H = g.mat(nh, 6);
    const Vec f = g.vec(2), q = g.vec(4), r = g.vec(2), gg = g.vec(ng), hh = g.vec(nh);
    return std::make_shared<DifferentialActionModelLQR>(Aq, Av, B, Q, R, N, G, H, f, q, r, gg, hh);
  };
  auto shared = model();
  s = shared->get_state();
  const long nx = s->get_nx(), nu = shared->get_nu();
  const Vec x = kind == 2 ? CurvedState::point(0.4, 0.2) : rnd(nx, 1), u = rnd(nu, 2);
  Ops<DAct> o;
  Ops<Act> none;
  common<DifferentialActionModelAbstract, DifferentialActionDataAbstract>(o, s, *shared, x, u);
  if (kind != 2) evaluations<DifferentialActionModelAbstract, DifferentialActionDataAbstract>(o, nx, nu, x, u);
  statics<DifferentialActionModelAbstract, DifferentialActionDataAbstract>(o, nx, nu, x);
  if (kind < 2) set_lqr(none, o, false, 4, 2, kind ? 2 : 0, kind ? 1 : 0);
  if (kind == 3) o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](DAct& t, double v) { static_cast<DifferentialActionModelNumDiff&>(*t.m).set_disturbance(v); });
  auto copy = [&] {
    DAct t;
    t.m = model();
    t.d = t.m->createData();
    t.m->calc(t.d, x, u), t.m->calcDiff(t.d, x, u);
    return t;
  };
  auto get = [&](DAct& t, Snap& o) {
    get_action(t, o);
    if (kind == 3) o("disturbance", static_cast<DifferentialActionModelNumDiff&>(*t.m).get_disturbance());
    if (kind < 2) {
      DifferentialActionModelLQR& m = static_cast<DifferentialActionModelLQR&>(*t.m);
      o("Aq", m.get_Aq()), o("Av", m.get_Av()), o("B", m.get_B()), o("Q", m.get_Q()), o("R", m.get_R()), o("N", m.get_N()), o("G", m.get_G()), o("H", m.get_H()), o("f", m.get_f()), o("q", m.get_q()), o("r", m.get_r()), o("g", m.get_g()), o("h", m.get_h());
    }
  };
  explore<DAct>(c, names[kind], copy, o, depth_of(c), get, [&](DAct& t, Snap& o) { use_action(t, o, x, u); });
}

// ---- states ------------------------------------------------------------------------------------------------------
struct St {
  StateP s;
};
static void states(mc::Ctx& c) {
  const int kind = c.choose(2, "state");
  const long n = 1 + c.choose(3, "nx");
  auto make = [&] {
    StateP s = std::make_shared<StateVector>(n);
    if (kind) s = std::make_shared<StateNumDiff>(s);
    return St{s};
  };
  Ops<St> o;
  const Vec a = rnd(n, 1), b = rnd(n, 2), d = rnd(n, 3);
  o.sizes("set_lb", n, Vec(a.array() - 2), [](St& t, const Vec& v) { t.s->set_lb(v); });
  o.sizes("set_ub", n, Vec(a.array() + 2), [](St& t, const Vec& v) { t.s->set_ub(v); });
  o.sizes("set_lb (infinite)", n, Vec::Constant(n, -INF), [](St& t, const Vec& v) { t.s->set_lb(v); });
  o.sizes("set_ub (infinite)", n, Vec::Constant(n, INF), [](St& t, const Vec& v) { t.s->set_ub(v); });
  for (long k : std::set<long>{0, n - 1, n + 1}) {
    const Vec w = rnd(k, 4);
    auto sz = [&](const char* f) { return mc::strf("%s of size %ld", f, k); };
    o.bad(sz("diff x0"), [=](St& t) { Vec y(n); t.s->diff(w, b, y); });
    o.bad(sz("diff x1"), [=](St& t) { Vec y(n); t.s->diff(a, w, y); });
    o.bad(sz("diff out"), [=](St& t) { Vec y(k); t.s->diff(a, b, y); });
    o.bad(sz("integrate x"), [=](St& t) { Vec y(n); t.s->integrate(w, d, y); });
    o.bad(sz("integrate dx"), [=](St& t) { Vec y(n); t.s->integrate(a, w, y); });
    o.bad(sz("integrate out"), [=](St& t) { Vec y(k); t.s->integrate(a, d, y); });
    for (int j = 0; j < 3; ++j) {
      const Jcomponent w = j == 0 ? crocoddyl::first : j == 1 ? crocoddyl::second : crocoddyl::both;
      for (int m = 0; m < 4; ++m) {  // which of the two Jacobians, rows or columns
        if ((m < 2 && j == 1) || (m >= 2 && j == 0)) continue;  // not used: not judged
        const long r1 = m == 0 ? k : n, c1 = m == 1 ? k : n, r2 = m == 2 ? k : n, c2 = m == 3 ? k : n;
        const std::string what = mc::strf(" into %ldx%ld, %ldx%ld, component %d", r1, c1, r2, c2, j);
        o.bad("Jdiff" + what, [=](St& t) { Mat A = Mat::Zero(r1, c1), B = Mat::Zero(r2, c2); t.s->Jdiff(a, b, A, B, w); });
        o.bad("Jintegrate" + what, [=](St& t) { Mat A = Mat::Zero(r1, c1), B = Mat::Zero(r2, c2); t.s->Jintegrate(a, d, A, B, w, setto); });
      }
    }
    if (kind) {  // the built-in state's Jacobians do not depend on the points, which it does not look at
      o.bad(sz("Jdiff x0"), [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jdiff(w, b, A, B, crocoddyl::both); });
      o.bad(sz("Jdiff x1"), [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jdiff(a, w, A, B, crocoddyl::both); });
      o.bad(sz("Jintegrate x"), [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jintegrate(w, d, A, B, crocoddyl::both, setto); });
      o.bad(sz("Jintegrate dx"), [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jintegrate(a, w, A, B, crocoddyl::both, setto); });
    }
  }
  o.good("diff", [=](St& t) { Vec y(n); t.s->diff(a, b, y); });
  o.good("integrate", [=](St& t) { Vec y(n); t.s->integrate(a, d, y); });
  for (Jcomponent w : {crocoddyl::first, crocoddyl::second, crocoddyl::both}) {
    o.good("Jdiff", [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jdiff(a, b, A, B, w); });
    o.good("Jintegrate", [=](St& t) { Mat A = Mat::Zero(n, n), B = A; t.s->Jintegrate(a, d, A, B, w, setto); });
    if (!kind) {
      const bool ok = w != crocoddyl::both;
      o.push_back({ok ? "JintegrateTransport" : "JintegrateTransport of both", ok, [=](St& t) { Mat A = Mat::Identity(n, n); t.s->JintegrateTransport(a, d, A, w); }});
    }
  }
  if (!kind) {
    // the unused Jacobian may have any size
    o.good("Jdiff, first only", [=](St& t) { Mat A = Mat::Zero(n, n), B(0, 0); t.s->Jdiff(a, b, A, B, crocoddyl::first); });
    o.good("Jdiff, second only", [=](St& t) { Mat A = Mat::Zero(n, n), B(0, 0); t.s->Jdiff(a, b, B, A, crocoddyl::second); });
  }
  if (kind) o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](St& t, double v) { static_cast<StateNumDiff&>(*t.s).set_disturbance(v); });
  auto get = [&](St& t, Snap& o) {
    o("lb", t.s->get_lb()), o("ub", t.s->get_ub()), o("limits", t.s->get_has_limits()), o("dimensions", (Vec(4) << (double)t.s->get_nx(), (double)t.s->get_ndx(), (double)t.s->get_nq(), (double)t.s->get_nv()).finished());
    if (kind) o("disturbance", static_cast<StateNumDiff&>(*t.s).get_disturbance());
  };
  auto use = [&](St& t, Snap& o) {
    Vec y(n);
    Mat A = Mat::Zero(n, n), B = A;
    t.s->diff(a, b, y), o("diff", y);
    t.s->integrate(a, d, y), o("integrate", y);
    t.s->Jdiff(a, b, A, B, crocoddyl::both), o("J1", A), o("J2", B);
    t.s->Jintegrate(a, d, A, B, crocoddyl::both, setto), o("J1", A), o("J2", B);
  };
  explore<St>(c, kind ? "StateNumDiff" : "StateVector", make, o, depth_of(c), get, use);
}

// ---- activations -------------------------------------------------------------------------------------------------
typedef Mod<ActivationModelAbstract, ActivationDataAbstract> Av;
static void activations(mc::Ctx& c) {
  const int kind = c.choose(ACTIVATIONS + 1, "activation");
  const long n = 1 + c.choose(3, "nr");
  auto make = [&] {
    Av t;
    t.m = every_activation(kind == ACTIVATIONS ? 0 : kind, n);
    if (kind == ACTIVATIONS) t.m = std::make_shared<ActivationModelNumDiff>(t.m);
    t.d = t.m->createData();
    t.m->calc(t.d, rnd(n, 1)), t.m->calcDiff(t.d, rnd(n, 1));
    return t;
  };
  Ops<Av> o;
  o.sizes("calc", n, rnd(n, 2), [](Av& t, const Vec& v) { t.m->calc(t.d, v); });
  o.sizes("calcDiff", n, rnd(n, 1), [](Av& t, const Vec& v) { t.m->calcDiff(t.d, v); });
  auto set_w = [=](Av& t, const Vec& v) {
    if (kind == 1) static_cast<ActivationModelWeightedQuad&>(*t.m).set_weights(v);
    else static_cast<ActivationModelWeightedQuadraticBarrier&>(*t.m).set_weights(v);
  };
  if (kind == 1 || kind == 8) o.sizes("set_weights", n, Vec(rnd(n, 3).array().abs()), set_w);
  if (kind == 3 || kind == 8) o.sizes("set_bounds", n, Vec(rnd(n, 3).array().abs() + 0.5), [=](Av& t, const Vec& v) {
    const ActivationBounds b(-v, v);
    if (kind == 3) static_cast<ActivationModelQuadraticBarrier&>(*t.m).set_bounds(b);
    else static_cast<ActivationModelWeightedQuadraticBarrier&>(*t.m).set_bounds(b);
  });
  if (kind == ACTIVATIONS) o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](Av& t, double v) { static_cast<ActivationModelNumDiff&>(*t.m).set_disturbance(v); });
  auto get = [&](Av& t, Snap& o) {
    o("nr", (double)t.m->get_nr());
    o("a", t.d->a_value), o("Ar", t.d->Ar), o("Arr", Mat(t.d->Arr.diagonal()));
    if (kind == 1) o("weights", static_cast<ActivationModelWeightedQuad&>(*t.m).get_weights());
    if (kind == 3) o("lb", static_cast<ActivationModelQuadraticBarrier&>(*t.m).get_bounds().lb), o("ub", static_cast<ActivationModelQuadraticBarrier&>(*t.m).get_bounds().ub);
    if (kind == 8) {
      auto& m = static_cast<ActivationModelWeightedQuadraticBarrier&>(*t.m);
      o("lb", m.get_bounds().lb), o("ub", m.get_bounds().ub), o("weights", m.get_weights());
    }
    if (kind == ACTIVATIONS) o("disturbance", static_cast<ActivationModelNumDiff&>(*t.m).get_disturbance());
  };
  auto use = [&](Av& t, Snap& o) {
    for (int k = 0; k < 2; ++k) {
      auto d = k ? t.m->createData() : t.d;
      t.m->calc(d, rnd(n, 4)), t.m->calcDiff(d, rnd(n, 4));
      o("a", d->a_value), o("Ar", d->Ar), o("Arr", Mat(d->Arr.diagonal()));
    }
  };
  explore<Av>(c, "activation " + std::to_string(kind), make, o, c.thorough ? 5 : 4, get, use);
}

// ---- residuals, costs, constraints -------------------------------------------------------------------------------
struct Item {
  StateP s;
  std::shared_ptr<ResidualModelAbstract> r;
  std::shared_ptr<CostModelAbstract> cost;
  std::shared_ptr<ConstraintModelAbstract> con;
  std::shared_ptr<ActuationModelAbstract> act;
};
static StateP vec4() { return std::make_shared<StateVector>(4); }
static DataCollectorJoint collector(const std::shared_ptr<ActuationModelAbstract>& a) {
  auto j = std::make_shared<JointDataAbstract>(a->get_state(), a, a->get_nu());
  j->tau = rnd(j->tau.size(), 5), j->a = rnd(j->a.size(), 6);
  return DataCollectorJoint(j);
}
static void get_item(Item& t, Snap& o) {
  if (auto m = std::dynamic_pointer_cast<ResidualModelControl>(t.r)) o("uref", m->get_reference());
  if (auto m = std::dynamic_pointer_cast<ResidualModelJointAcceleration>(t.r)) o("aref", m->get_reference());
  if (auto m = std::dynamic_pointer_cast<ResidualModelJointEffort>(t.r)) o("tauref", m->get_reference());
  if (auto m = std::dynamic_pointer_cast<ConstraintModelNumDiff>(t.con)) o("disturbance", m->get_disturbance());
  if (t.con) o("lb", t.con->get_lb()), o("ub", t.con->get_ub()), o("n", (Vec(4) << (double)t.con->get_ng(), (double)t.con->get_nh(), (double)t.con->get_type(), (double)t.con->get_T_constraint()).finished());
}
static void use_item(Item& t, Snap& o) {
  DataCollectorJoint col = collector(t.act);
  const Vec x = rnd(4, 1), u = rnd(2, 2);
  for (int T = 0; T < 2; ++T) {
    auto r = t.r->createData(&col);
    T ? t.r->calc(r, x) : t.r->calc(r, x, u);
    T ? t.r->calcDiff(r, x) : t.r->calcDiff(r, x, u);
    o("r", r->r), o("Rx", r->Rx), o("Ru", r->Ru);
    if (t.cost) {
      auto d = t.cost->createData(&col);
      T ? t.cost->calc(d, x) : t.cost->calc(d, x, u);
      T ? t.cost->calcDiff(d, x) : t.cost->calcDiff(d, x, u);
      o("cost", d->cost), o("Lx", d->Lx), o("Lu", d->Lu), o("Luu", d->Luu);
    }
    if (t.con) {
      auto d = t.con->createData(&col);
      T ? t.con->calc(d, x) : t.con->calc(d, x, u);
      T ? t.con->calcDiff(d, x) : t.con->calcDiff(d, x, u);
      o("g", d->g), o("h", d->h), o("Gx", d->Gx), o("Hx", d->Hx), o("Gu", d->Gu), o("Hu", d->Hu);
    }
  }
}
static void items(mc::Ctx& c) {
  const int kind = c.choose(4, "residual");
  const int con = c.choose(4, "constraint");  // equality, inequality, numdiff-free base with both, numerically differentiated
  StateP s = vec4();
  auto make = [&] {
    Item t;
    t.s = s;
    t.act = std::make_shared<TInner>(s, 2, 3);
    switch (kind) {
      case 0: t.r = std::make_shared<ResidualModelControl>(s, Vec(rnd(2, 1))); break;
      case 1: t.r = std::make_shared<ResidualModelJointAcceleration>(s, Vec(rnd(2, 1)), 2); break;
      case 2: t.r = std::make_shared<ResidualModelJointEffort>(s, t.act, Vec(rnd(2, 1)), 2); break;
      default: t.r = std::make_shared<TResidual>(s, 2, 2, 5);
    }
    t.cost = std::make_shared<CostModelResidual>(s, std::make_shared<ActivationModelWeightedQuad>(Vec(Vec::Constant(2, 0.7))), t.r);
    if (con == 0) t.con = std::make_shared<ConstraintModelResidual>(s, t.r);
    if (con == 1) t.con = std::make_shared<ConstraintModelResidual>(s, t.r, Vec::Constant(2, -0.5), Vec::Constant(2, 0.5));
    if (con >= 2) t.con = std::make_shared<TConstraint>(s, 2, 2, 1, true, 8);
    if (con == 3) t.con = std::make_shared<ConstraintModelNumDiff>(t.con);
    return t;
  };
  Ops<Item> o;
  auto ref = [=](Item& t, const Vec& v) {
    if (kind == 0) static_cast<ResidualModelControl&>(*t.r).set_reference(v);
    if (kind == 1) static_cast<ResidualModelJointAcceleration&>(*t.r).set_reference(v);
    if (kind == 2) static_cast<ResidualModelJointEffort&>(*t.r).set_reference(v);
  };
  if (kind < 3) o.sizes("set_reference", 2, rnd(2, 7), ref);
  const long ng = con ? 2 : 0;
  auto ub = [&](bool ok, const Vec& l, const Vec& u) { o.push_back({"update_bounds(" + show(l) + ", " + show(u) + ")", ok, [=](Item& t) { t.con->update_bounds(l, u); }}); };
  auto V = [&](double a, double b) { return Vec(Eigen::Vector2d(a, b)); };
  const double MAX = std::numeric_limits<double>::max();
  if (con) {
    ub(true, V(-1, -0.2), V(-0.9, 0.7));
    ub(true, V(-INF, -0.2), V(0.1, INF));
    ub(true, V(-INF, -INF), V(INF, INF));
    ub(true, V(-1, 0.3), V(1, 0.3));
    ub(false, V(-1, 0.2), V(1, 0.1));
    ub(false, V(0.2, -1), V(below(0.2), 1));
    ub(false, V(INF, -1), V(INF, 1));
    ub(false, V(MAX, -1), V(INF, 1));
    ub(false, V(-1, -INF), V(1, -INF));
    ub(false, V(-1, -INF), V(1, -MAX));
  }
  for (long k : std::set<long>{0, 1, 3})
    if (k != ng) ub(false, Vec::Constant(k, -1), Vec::Constant(k, 1)), ub(false, Vec::Constant(ng, -1), Vec::Constant(k, 1)), ub(false, Vec::Constant(k, -1), Vec::Constant(ng, 1));
  o.good("remove_bounds", [](Item& t) { t.con->remove_bounds(); });
  const Vec x0 = rnd(4, 1), u0 = rnd(2, 2);
  if (kind == 0)
    for (long k : {0l, 1l, 2l, 3l})
      o.push_back({mc::strf("residual with u of size %ld", k), k == 2, [=](Item& t) {
                     DataCollectorJoint col = collector(t.act);
                     t.r->calc(t.r->createData(&col), x0, rnd(k, 2));
                   }});
  if (con == 3) {
    typedef std::function<void(Item&, const std::shared_ptr<ConstraintDataAbstract>&, const Vec&)> F;
    auto sizes = [&](const char* n, long k, F f) {
      o.sizes(n, k, rnd(k, 1), [=](Item& t, const Vec& v) {
        DataCollectorJoint col = collector(t.act);
        auto d = t.con->createData(&col);
        f(t, d, v);
      });
    };
    sizes("calc x", 4, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, v, u0); });
    sizes("calc u", 2, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, x0, v); });
    sizes("terminal calc x", 4, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, v); });
    sizes("calcDiff x", 4, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, x0, u0), t.con->calcDiff(d, v, u0); });
    sizes("calcDiff u", 2, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, x0, u0), t.con->calcDiff(d, x0, v); });
    sizes("terminal calcDiff x", 4, [=](Item& t, const std::shared_ptr<ConstraintDataAbstract>& d, const Vec& v) { t.con->calc(d, x0), t.con->calcDiff(d, v); });
    o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](Item& t, double v) { static_cast<ConstraintModelNumDiff&>(*t.con).set_disturbance(v); });
  }
  explore<Item>(c, "item " + std::to_string(kind) + "/" + std::to_string(con), make, o, c.thorough ? 4 : 3, get_item, [&](Item& t, Snap& o) {
    if (con >= 2) {  // the test constraint does not follow remove_bounds
      auto k = t.con;
      t.con = nullptr, use_item(t, o), t.con = k;
    } else
      use_item(t, o);
  });
}

// ---- sums and managers -------------------------------------------------------------------------------------------
struct Sum {
  std::shared_ptr<CostModelSum> s;
  std::shared_ptr<ConstraintModelManager> m;
  std::shared_ptr<CostDataSum> d, d0;
  std::shared_ptr<ConstraintDataManager> k, k0;
  std::shared_ptr<DataCollectorAbstract> col;
};
static void sums(mc::Ctx& c) {
  Quiet quiet;
  StateP s = vec4();
  std::shared_ptr<CostModelAbstract> costs[3];
  std::shared_ptr<ConstraintModelAbstract> cons[3];
  for (int nu = 0; nu < 3; ++nu) {
    costs[nu] = std::make_shared<CostModelResidual>(s, std::make_shared<TResidual>(s, 2, nu + 1, 4 + nu));
    cons[nu] = std::make_shared<TConstraint>(s, nu + 1, 1, 1, true, 7 + nu);
  }
  const bool sum = c.flip("costs");
  auto make = [&] {
    Sum t;
    t.col = std::make_shared<DataCollectorAbstract>();
    t.s = std::make_shared<CostModelSum>(s, 2), t.m = std::make_shared<ConstraintModelManager>(s, 2);
    t.d0 = t.s->createData(t.col.get()), t.k0 = t.m->createData(t.col.get());
    t.s->addCost("b", costs[1], 0.5), t.m->addConstraint("b", cons[1]);
    t.d = t.s->createData(t.col.get()), t.k = t.m->createData(t.col.get());
    return t;
  };
  const Vec x = rnd(4, 1), u = rnd(2, 2);
  Ops<Sum> o;
  for (int j = 0; j < 3; ++j)
    for (bool act : {true, false}) {
      const std::string n = mc::strf("add '%c' with nu %d, %s", 'a' + j, j + 1, act ? "active" : "inactive"), name(1, "axc"[j]);
      if (sum) {
        o.push_back({n, j == 1, [=](Sum& t) { t.s->addCost(name, costs[j], 0.4, act); }});
        o.push_back({n + " (item)", j == 1, [=](Sum& t) { t.s->addCost(std::make_shared<CostModelSum::CostItem>(name, costs[j], 0.4, act)); }});
      } else {
        o.push_back({n, j == 1, [=](Sum& t) { t.m->addConstraint(name, cons[j], act); }});
      }
    }
  for (int f = 0; f < 4; ++f) {
    static const char* F[] = {"calc", "calcDiff", "terminal calc", "terminal calcDiff"};
    auto call = [=](Sum& t, const Vec& x, const Vec& u, bool empty) {
      auto d = empty ? t.d0 : t.d;
      auto k = empty ? t.k0 : t.k;
      if (sum) f == 0 ? t.s->calc(d, x, u) : f == 1 ? t.s->calcDiff(d, x, u) : f == 2 ? t.s->calc(d, x) : t.s->calcDiff(d, x);
      else f == 0 ? t.m->calc(k, x, u) : f == 1 ? t.m->calcDiff(k, x, u) : f == 2 ? t.m->calc(k, x) : t.m->calcDiff(k, x);
    };
    o.bad(std::string(F[f]) + " with data of another composition", [=](Sum& t) { call(t, x, u, true); });
    for (long n : {0l, 3l, 5l}) o.bad(mc::strf("%s with x of size %ld", F[f], n), [=](Sum& t) { call(t, rnd(n, 1), u, false); });
    if (f < 2)
      for (long n : {0l, 1l, 3l}) o.bad(mc::strf("%s with u of size %ld", F[f], n), [=](Sum& t) { call(t, x, rnd(n, 1), false); });
  }
  // edits of the shared results
  if (sum) {
    auto vec = [&](const char* n, long k, void (CostDataSum::*f)(const Vec&)) { o.sizes(n, k, rnd(k, 3), [f](Sum& t, const Vec& v) { (t.d.get()->*f)(v); }); };
    auto mat = [&](const char* n, long r, long k, void (CostDataSum::*f)(const Mat&)) {
      for (long dr : {-1l, 0l, 1l})
        for (long dc : {-1l, 0l, 1l})
          o.push_back({mc::strf("%s %ldx%ld", n, r + dr, k + dc), !dr && !dc, [=](Sum& t) { (t.d.get()->*f)(Gen(3).mat(r + dr, k + dc)); }});
    };
    vec("set_Lx", 4, &CostDataSum::set_Lx), vec("set_Lu", 2, &CostDataSum::set_Lu);
    mat("set_Lxx", 4, 4, &CostDataSum::set_Lxx), mat("set_Lxu", 4, 2, &CostDataSum::set_Lxu), mat("set_Luu", 2, 2, &CostDataSum::set_Luu);
  } else {
    auto vec = [&](const char* n, long k, void (ConstraintDataManager::*f)(const Vec&)) { o.sizes(n, k, rnd(k, 3), [f](Sum& t, const Vec& v) { (t.k.get()->*f)(v); }); };
    auto mat = [&](const char* n, long r, long k, void (ConstraintDataManager::*f)(const Mat&)) {
      for (long dr : {-1l, 0l, 1l})
        for (long dc : {-1l, 0l, 1l})
          o.push_back({mc::strf("%s %ldx%ld", n, r + dr, k + dc), !dr && !dc, [=](Sum& t) { (t.k.get()->*f)(Gen(3).mat(r + dr, k + dc)); }});
    };
    vec("set_g", 1, &ConstraintDataManager::set_g), vec("set_h", 1, &ConstraintDataManager::set_h);
    mat("set_Gx", 1, 4, &ConstraintDataManager::set_Gx), mat("set_Gu", 1, 2, &ConstraintDataManager::set_Gu), mat("set_Hx", 1, 4, &ConstraintDataManager::set_Hx), mat("set_Hu", 1, 2, &ConstraintDataManager::set_Hu);
  }
  auto get = [&](Sum& t, Snap& o) {
    if (sum) {
      o("nr", (double)t.s->get_nr()), o("nr_total", (double)t.s->get_nr_total()), o("nu", (double)t.s->get_nu()), o("n", (double)t.s->get_costs().size());
      for (auto& n : t.s->get_active_set()) o("active " + n, 1);
      for (auto& n : t.s->get_inactive_set()) o("inactive " + n, 1);
      o("cost", t.d->cost), o("Lx", t.d->Lx), o("Lu", t.d->Lu), o("Lxx", t.d->Lxx), o("Lxu", t.d->Lxu), o("Luu", t.d->Luu);
    } else {
      o("n", (Vec(6) << (double)t.m->get_nu(), (double)t.m->get_ng(), (double)t.m->get_nh(), (double)t.m->get_ng_T(), (double)t.m->get_nh_T(), (double)t.m->get_constraints().size()).finished());
      o("lb", t.m->get_lb()), o("ub", t.m->get_ub());
      for (auto& n : t.m->get_active_set()) o("active " + n, 1);
      for (auto& n : t.m->get_inactive_set()) o("inactive " + n, 1);
      o("g", t.k->g), o("h", t.k->h), o("Gx", t.k->Gx), o("Gu", t.k->Gu), o("Hx", t.k->Hx), o("Hu", t.k->Hu);
    }
  };
  auto use = [&](Sum& t, Snap& o) {
    for (int T = 0; T < 2; ++T) {
      if (sum) {
        auto d = t.s->createData(t.col.get());
        T ? t.s->calc(d, x) : t.s->calc(d, x, u);
        T ? t.s->calcDiff(d, x) : t.s->calcDiff(d, x, u);
        o("cost", d->cost), o("Lx", d->Lx), o("Lu", d->Lu), o("Lxx", d->Lxx), o("Lxu", d->Lxu), o("Luu", d->Luu);
      } else {
        auto d = t.m->createData(t.col.get());
        d->resize(t.m.get(), T == 0);
        T ? t.m->calc(d, x) : t.m->calc(d, x, u);
        T ? t.m->calcDiff(d, x) : t.m->calcDiff(d, x, u);
        o("g", d->g), o("h", d->h), o("Gx", d->Gx), o("Hx", d->Hx);
        if (!T) o("Gu", d->Gu), o("Hu", d->Hu);
      }
    }
  };
  explore<Sum>(c, sum ? "CostModelSum" : "ConstraintModelManager", make, o, depth_of(c), get, use);
}

// ---- control parametrisations, actuations, problems ---------------------------------------------------------------
typedef Mod<ControlParametrizationModelAbstract, ControlParametrizationDataAbstract> Ctl;
static void controls(mc::Ctx& c) {
  const int kind = c.choose(5, "parametrisation");
  const long nw = 1 + c.choose(2, "nw");
  auto make = [&] {
    Ctl t;
    switch (kind) {
      case 0: t.m = std::make_shared<ControlParametrizationModelPolyZero>(nw); break;
      case 1: t.m = std::make_shared<ControlParametrizationModelPolyOne>(nw); break;
      case 2: t.m = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::three); break;
      case 3: t.m = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::four); break;
      default: t.m = std::make_shared<ControlParametrizationModelNumDiff>(std::make_shared<ControlParametrizationModelPolyOne>(nw));
    }
    t.d = t.m->createData();
    const Vec u = rnd(t.m->get_nu(), 1);
    t.m->calc(t.d, 0.3, u), t.m->calcDiff(t.d, 0.3, u);
    return t;
  };
  const long nu = make().m->get_nu();
  Ops<Ctl> o;
  if (kind < 4) {
    o.sizes("calc", nu, rnd(nu, 2), [=](Ctl& t, const Vec& v) { t.m->calc(t.d, 0.6, v); });
    o.sizes("params", nw, rnd(nw, 2), [=](Ctl& t, const Vec& v) { t.m->params(t.d, 0.6, v); });
  }
  const Vec wl = Vec::Constant(nw, -1), wu = Vec::Constant(nw, 1);
  o.sizes("convertBounds w_lb", nw, wl, [=](Ctl& t, const Vec& v) { Vec a(nu), b(nu); t.m->convertBounds(v, wu, a, b); });
  o.sizes("convertBounds w_ub", nw, wu, [=](Ctl& t, const Vec& v) { Vec a(nu), b(nu); t.m->convertBounds(wl, v, a, b); });
  o.sizes("convertBounds u_lb", nu, Vec::Zero(nu), [=](Ctl& t, const Vec& v) { Vec a = v, b(nu); t.m->convertBounds(wl, wu, a, b); });
  o.sizes("convertBounds u_ub", nu, Vec::Zero(nu), [=](Ctl& t, const Vec& v) { Vec a(nu), b = v; t.m->convertBounds(wl, wu, a, b); });
  for (int tr = 0; tr < 2; ++tr)
    for (long d1 : {-1l, 0l, 1l})
      for (long d2 : {-1l, 0l, 1l})
        for (long d3 : {-1l, 0l, 1l}) {
          if (kind == 4 && (d1 || d2 || d3)) continue;
          // A is n x nw (nw x n), the result n x nu (nu x n)
          const long n = 2;
          const bool ok = !d1 && !d2 && !d3;
          for (AssignmentOp op : {setto, addto, rmfrom})
            o.push_back({mc::strf("multiply%s by a %s of %ld for a result of %ld+%ld, mode %d", tr ? "JacobianTransposeBy" : "ByJacobian", tr ? "height" : "width", nw + d1, nu + d2, d3, (int)op), ok, [=](Ctl& t) {
                           if (tr) {
                             Mat A = Gen(2).mat(nw + d1, n), r = Mat::Zero(nu + d2, n + d3);
                             t.m->multiplyJacobianTransposeBy(t.d, A, r, op);
                           } else {
                             Mat A = Gen(2).mat(n, nw + d1), r = Mat::Zero(n + d3, nu + d2);
                             t.m->multiplyByJacobian(t.d, A, r, op);
                           }
                         }});
        }
  if (kind == 4) o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](Ctl& t, double v) { static_cast<ControlParametrizationModelNumDiff&>(*t.m).set_disturbance(v); });
  auto get = [&](Ctl& t, Snap& o) {
    o("n", Eigen::Vector2d(t.m->get_nw(), t.m->get_nu())), o("w", t.d->w), o("u", t.d->u), o("dw_du", t.d->dw_du);
    if (kind == 4) o("disturbance", static_cast<ControlParametrizationModelNumDiff&>(*t.m).get_disturbance());
  };
  auto use = [&](Ctl& t, Snap& o) {
    for (int k = 0; k < 2; ++k) {
      auto d = k ? t.m->createData() : t.d;
      const Vec u = rnd(nu, 3);
      t.m->calc(d, 0.7, u), t.m->calcDiff(d, 0.7, u);
      o("w", d->w), o("dw_du", d->dw_du);
      t.m->params(d, 0.7, rnd(nw, 4));
      o("u", d->u);
      Mat r = Mat::Zero(3, nu);
      t.m->multiplyByJacobian(d, Gen(1).mat(3, nw), r), o("product", r);
    }
  };
  explore<Ctl>(c, "control parametrisation " + std::to_string(kind), make, o, depth_of(c), get, use);
}

struct Actu {
  std::shared_ptr<ActuationModelAbstract> m;
  std::shared_ptr<ActuationDataAbstract> d;
  std::shared_ptr<SquashingModelSmoothSat> sq;
};
static void actuations(mc::Ctx& c) {
  const int kind = c.choose(3, "actuation");  // plain, squashed, numerically differentiated
  StateP s = vec4();
  const Vec x = rnd(4, 1), u = rnd(2, 2);
  auto make = [&] {
    Actu t;
    t.sq = std::make_shared<SquashingModelSmoothSat>(Vec::Constant(2, -1), Vec::Constant(2, 1.5), 2);
    t.m = std::make_shared<TInner>(s, 2, 7);
    if (kind == 1) t.m = std::make_shared<ActuationSquashingModel>(t.m, t.sq, 2);
    if (kind == 2) t.m = std::make_shared<ActuationModelNumDiff>(t.m);
    t.d = t.m->createData();
    t.m->calc(t.d, x, u), t.m->calcDiff(t.d, x, u);
    return t;
  };
  Ops<Actu> o;
  if (kind == 2) {
    o.sizes("calc x", 4, x, [=](Actu& t, const Vec& v) { t.m->calc(t.d, v, u); });
    o.sizes("calc u", 2, u, [=](Actu& t, const Vec& v) { t.m->calc(t.d, x, v); });
    o.sizes("terminal calc x", 4, x, [=](Actu& t, const Vec& v) { static_cast<ActuationModelNumDiff&>(*t.m).calc(t.d, v); });
    o.sizes("calcDiff x", 4, x, [=](Actu& t, const Vec& v) { t.m->calc(t.d, x, u), t.m->calcDiff(t.d, v, u); });
    o.sizes("calcDiff u", 2, u, [=](Actu& t, const Vec& v) { t.m->calc(t.d, x, u), t.m->calcDiff(t.d, x, v); });
    o.sizes("terminal calcDiff x", 4, x, [=](Actu& t, const Vec& v) { static_cast<ActuationModelNumDiff&>(*t.m).calc(t.d, x), static_cast<ActuationModelNumDiff&>(*t.m).calcDiff(t.d, v); });
    for (long k : {0l, 1l, 3l, 5l}) {
      if (k != 4) o.bad(mc::strf("commands x %ld", k), [=](Actu& t) { t.m->commands(t.d, rnd(k, 3), rnd(2, 3)); });
      if (k != 2) o.bad(mc::strf("commands tau %ld", k), [=](Actu& t) { t.m->commands(t.d, x, rnd(k, 3)); });
    }
    o.edges("set_disturbance", {1e-5}, {-TINY, -1}, [](Actu& t, double v) { static_cast<ActuationModelNumDiff&>(*t.m).set_disturbance(v); });
  }
  o.sizes("torqueTransform x", 4, x, [=](Actu& t, const Vec& v) { t.m->torqueTransform(t.d, v, u); });
  o.sizes("torqueTransform u", 2, u, [=](Actu& t, const Vec& v) { t.m->torqueTransform(t.d, x, v); });
  if (kind == 1) {
    o.sizes("commands tau", 2, u, [=](Actu& t, const Vec& v) { t.m->commands(t.d, x, v); });
    o.edges("set_smooth", {TINY, 0.5, 1}, {-TINY, -1}, [](Actu& t, double v) { t.sq->set_smooth(v); });
  }
  auto get = [&](Actu& t, Snap& o) {
    o("smooth", t.sq->get_smooth()), o("d", t.sq->get_d()), o("s_lb", t.sq->get_s_lb());
    o("tau", t.d->tau), o("u", t.d->u), o("dtau_dx", t.d->dtau_dx), o("dtau_du", t.d->dtau_du);
    if (kind == 2) o("disturbance", static_cast<ActuationModelNumDiff&>(*t.m).get_disturbance());
  };
  auto use = [&](Actu& t, Snap& o) {
    for (int k = 0; k < 2; ++k) {
      auto d = k ? t.m->createData() : t.d;
      t.m->calc(d, x, u), t.m->calcDiff(d, x, u), t.m->torqueTransform(d, x, u);
      o("tau", d->tau), o("dtau_dx", d->dtau_dx), o("dtau_du", d->dtau_du), o("Mtau", d->Mtau);
    }
  };
  explore<Actu>(c, "actuation " + std::to_string(kind), make, o, depth_of(c), get, use);
}

struct Pb {
  std::shared_ptr<ShootingProblem> p;
};
static void problem(mc::Ctx& c) {
  Quiet quiet;
  const int T = 1 + c.choose(2, "horizon");
  StateP s = vec4();
  auto lqr = [](long nu, int seed) {
    Gen g(seed);
    const Mat L = g.spd(4 + nu, 0.3);
    const Mat A = g.mat(4, 4), B = g.mat(4, nu), Q = L.topLeftCorner(4, 4), R = L.bottomRightCorner(nu, nu), N = L.topRightCorner(4, nu), G(0, 4 + nu), H(0, 4 + nu);
    return std::make_shared<ActionModelLQR>(A, B, Q, R, N, G, H, g.vec(4), g.vec(4), g.vec(nu), Vec(0), Vec(0));
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> ms;
  for (int t = 0; t < T; ++t) ms.push_back(lqr(1 + t, 3 + t));
  auto term = lqr(1, 9);
  Vs xs, us;
  for (int t = 0; t <= T; ++t) xs.push_back(rnd(4, t));
  for (int t = 0; t < T; ++t) us.push_back(rnd(1 + t, 5 + t));
  const Vs xq(xs.begin(), xs.end() - 1);
  Ops<Pb> o;
  typedef std::function<void(ShootingProblem&, const Vs&, const Vs&)> F;
  auto each = [&](const std::string& n, const Vs& xs, bool node_x, bool node_u, F f) {
    o.good(n, [=](Pb& b) { f(*b.p, xs, us); });
    for (const Vs& v : {shorter(xs), longer(xs)}) o.bad(mc::strf("%s with %zu states", n.c_str(), v.size()), [=](Pb& b) { f(*b.p, v, us); });
    for (const Vs& v : {shorter(us), longer(us)}) o.bad(mc::strf("%s with %zu controls", n.c_str(), v.size()), [=](Pb& b) { f(*b.p, xs, v); });
    for (size_t t = 0; t < xs.size() && node_x; ++t)
      for (long d : {-1l, 1l}) o.bad(mc::strf("%s with state %zu of size %ld", n.c_str(), t, 4 + d), [=](Pb& b) { f(*b.p, resized(xs, t, d), us); });
    for (size_t t = 0; t < us.size() && node_u; ++t)
      for (long d : {-1l, 1l}) o.bad(mc::strf("%s with control %zu of size %ld", n.c_str(), t, us[t].size() + d), [=](Pb& b) { f(*b.p, xs, resized(us, t, d)); });
  };
  each("calc", xs, true, true, [](ShootingProblem& p, const Vs& x, const Vs& u) { p.calc(x, u); });
  each("calcDiff", xs, true, true, [](ShootingProblem& p, const Vs& x, const Vs& u) { p.calc(x, u), p.calcDiff(x, u); });
  each("rollout", xs, false, true, [](ShootingProblem& p, const Vs& x, const Vs& u) { Vs y = x; p.rollout(u, y); });
  each("quasiStatic", xq, true, true, [](ShootingProblem& p, const Vs& x, const Vs& u) { Vs y = u; p.quasiStatic(y, x); });
  for (int d : {-1, 1}) {
    o.bad("rollout_us with a wrong horizon", [=](Pb& b) { b.p->rollout_us(d < 0 ? shorter(us) : longer(us)); });
    o.bad("quasiStatic_xs with a wrong horizon", [=](Pb& b) { b.p->quasiStatic_xs(d < 0 ? shorter(xq) : longer(xq)); });
  }
  o.sizes("set_x0", 4, rnd(4, 11), [](Pb& b, const Vec& v) { b.p->set_x0(v); });
  // edits of the nodes: positions at and beyond the terminal one, models on a smaller state
  typedef std::shared_ptr<ActionModelAbstract> MP;
  const MP small = std::make_shared<ActionModelLQR>(2, 1, true);
  struct Odd : StateVector {  // as many coordinates, fewer directions
    Odd() : StateVector(4) { ndx_ = 3; }
  };
  const MP odd = std::make_shared<TAct>(std::make_shared<Odd>(), TAct::Spec());
  std::vector<MP> other;
  for (int t = 0; t <= T; ++t) other.push_back(t < T ? lqr(1 + t, 23 + t) : lqr(1, 29));
  for (int t : {0, T - 1, T, T + 1, T + 2, 1000}) {
    if (t == T - 1 && t == 0) continue;
    const MP m = other[t <= T ? t : T];
    auto node = [=](Pb& b, const MP& m) { b.p->updateNode(t, m, m->createData()); };
    if (t <= T) {
      o.good(mc::strf("updateNode at %d", t), [=](Pb& b) { node(b, m); });
      o.good(mc::strf("updateModel at %d", t), [=](Pb& b) { b.p->updateModel(t, m); });
    } else {
      o.bad(mc::strf("updateNode at %d", t), [=](Pb& b) { node(b, m); });
      o.bad(mc::strf("updateModel at %d", t), [=](Pb& b) { b.p->updateModel(t, m); });
    }
    o.bad(mc::strf("updateNode at %d with another state", t), [=](Pb& b) { node(b, small); });
    o.bad(mc::strf("updateModel at %d with another state", t), [=](Pb& b) { b.p->updateModel(t, small); });
    o.bad(mc::strf("updateNode at %d with another ndx", t), [=](Pb& b) { node(b, odd); });
    o.bad(mc::strf("updateModel at %d with another ndx", t), [=](Pb& b) { b.p->updateModel(t, odd); });
  }
  const std::vector<MP> run(other.begin(), other.end() - 1);
  o.good("set_runningModels", [=](Pb& b) { b.p->set_runningModels(run); });
  o.good("set_terminalModel", [=](Pb& b) { b.p->set_terminalModel(other[T]); });
  for (int t = 0; t < T; ++t) {
    std::vector<MP> r = run;
    r[t] = small;
    o.bad(mc::strf("set_runningModels with another state at %d", t), [=](Pb& b) { b.p->set_runningModels(r); });
    r[t] = odd;
    o.bad(mc::strf("set_runningModels with another ndx at %d", t), [=](Pb& b) { b.p->set_runningModels(r); });
  }
  o.bad("set_terminalModel with another state", [=](Pb& b) { b.p->set_terminalModel(small); });
  o.bad("set_terminalModel with another ndx", [=](Pb& b) { b.p->set_terminalModel(odd); });
  o.bad("circularAppend with another ndx", [=](Pb& b) { b.p->circularAppend(odd); });
  o.bad("circularAppend with another ndx and data", [=](Pb& b) { b.p->circularAppend(odd, odd->createData()); });
  o.bad("circularAppend with another state", [=](Pb& b) { b.p->circularAppend(small); });
  o.bad("circularAppend with another state and data", [=](Pb& b) { b.p->circularAppend(small, small->createData()); });
  if (T == 1) o.good("circularAppend", [=](Pb& b) { b.p->circularAppend(other[0]); });
  auto make = [&] { return Pb{std::make_shared<ShootingProblem>(rnd(4, 1), ms, term)}; };
  auto get = [&](Pb& b, Snap& o) { o("x0", b.p->get_x0()), o("n", Eigen::Vector3d(b.p->get_T(), b.p->get_nx(), b.p->get_ndx())); };
  auto use = [&](Pb& b, Snap& o) {
    o("updated", b.p->is_updated());
    o("cost", b.p->calc(xs, us)), o("cost", b.p->calcDiff(xs, us));
    for (auto& d : b.p->get_runningDatas()) get_data(*d, o);
    get_data(*b.p->get_terminalData(), o);
    o("rollout", b.p->rollout_us(us)), o("static", b.p->quasiStatic_xs(xq));
  };
  explore<Pb>(c, "ShootingProblem", make, o, depth_of(c), get, use);
}

// ---- constructors ------------------------------------------------------------------------------------------------
static void constructors(mc::Ctx& c) {
  Quiet quiet;
  std::vector<Op<int>> o;
  auto add = [&](const std::string& n, bool ok, std::function<void()> f) { o.push_back({n, ok, [f](int&) { f(); }}); };
  StateP s = vec4();
  auto inner = std::make_shared<TInner>(s, 2, 3);
  const double MAX = std::numeric_limits<double>::max();
  typedef Vec V;
  auto v = [](long n, double x) { return V(V::Constant(n, x)); };
  // activations
  for (double a : {0., 1., -TINY, -1.}) {
    const bool ok = a >= 0;
    add(mc::strf("QuadFlatExp alpha %g", a), ok, [=] { ActivationModelQuadFlatExp m(2, a); });
    add(mc::strf("QuadFlatLog alpha %g", a), ok, [=] { ActivationModelQuadFlatLog m(2, a); });
    add(mc::strf("2NormBarrier alpha %g", a), ok, [=] { ActivationModel2NormBarrier m(2, a); });
    if (a) add(mc::strf("Smooth1Norm eps %g", a), ok, [=] { ActivationModelSmooth1Norm m(2, a); });
    if (a) add(mc::strf("Smooth2Norm eps %g", a), ok, [=] { ActivationModelSmooth2Norm m(2, a); });
  }
  for (double b : {0., 0.5, 1., -TINY, above(1), 2.}) add(mc::strf("ActivationBounds beta %g", b), b >= 0 && b <= 1, [=] { ActivationBounds m(v(2, -1), v(2, 1), b); });
  add("ActivationBounds lb = ub", true, [=] { ActivationBounds m(v(2, 1), v(2, 1)); });
  add("ActivationBounds infinite", true, [=] { ActivationBounds m(v(2, -INF), v(2, INF)); });
  add("ActivationBounds lb > ub", false, [=] { ActivationBounds m(V(Eigen::Vector2d(0, 1)), V(Eigen::Vector2d(1, below(1)))); });
  add("ActivationBounds sizes", false, [=] { ActivationBounds m(v(2, -1), v(3, 1)); });
  add("ActivationBounds sizes", false, [=] { ActivationBounds m(v(2, -1), v(1, 1)); });
  for (long k : {1l, 2l, 3l}) add(mc::strf("WeightedQuadraticBarrier with %ld weights for 2", k), k == 2, [=] { ActivationModelWeightedQuadraticBarrier m(ActivationBounds(v(2, -1), v(2, 1)), v(k, 1)); });
  // residuals
  for (long k : {0l, 1l, 2l, 3l}) {
    add(mc::strf("ResidualModelControl nu %ld", k), k > 0, [=] { ResidualModelControl m(s, (std::size_t)k); });
    add(mc::strf("ResidualModelControl uref of size %ld", k), k > 0, [=] { ResidualModelControl m(s, v(k, 1)); });
    add(mc::strf("JointAcceleration aref of size %ld", k), k == 2, [=] { ResidualModelJointAcceleration m(s, v(k, 1)); });
    add(mc::strf("JointAcceleration aref of size %ld with nu", k), k == 2, [=] { ResidualModelJointAcceleration m(s, v(k, 1), 3); });
    add(mc::strf("JointEffort uref of size %ld", k), k == 2, [=] { ResidualModelJointEffort m(s, inner, v(k, 1)); });
    add(mc::strf("JointEffort uref of size %ld with nu", k), k == 2, [=] { ResidualModelJointEffort m(s, inner, v(k, 1), 3); });
    add(mc::strf("JointEffort nu %ld", k), k > 0, [=] { ResidualModelJointEffort m(s, inner, (std::size_t)k); });
    add(mc::strf("JointEffort uref and nu %ld", k), k > 0, [=] { ResidualModelJointEffort m(s, inner, v(2, 1), k); });
  }
  // data of joint residuals need a joint collector
  add("JointEffort data", true, [=] { DataCollectorJoint j(std::make_shared<JointDataAbstract>(s, inner, 2)); ResidualModelJointEffort(s, inner, v(2, 1), 2).createData(&j); });
  add("JointEffort data without joint data", false, [=] { DataCollectorAbstract j; ResidualModelJointEffort(s, inner, v(2, 1), 2).createData(&j); });
  add("JointAcceleration data", true, [=] { DataCollectorJoint j(std::make_shared<JointDataAbstract>(s, inner, 2)); ResidualModelJointAcceleration(s, v(2, 1), 2).createData(&j); });
  add("JointAcceleration data without joint data", false, [=] { DataCollectorAbstract j; ResidualModelJointAcceleration(s, v(2, 1), 2).createData(&j); });
  // costs and constraints
  auto res = std::make_shared<TResidual>(s, 2, 2, 1);
  for (long k : {1l, 2l, 3l}) {
    add(mc::strf("CostModelResidual with an activation of %ld for 2", k), k == 2, [=] { CostModelResidual m(s, std::make_shared<ActivationModelQuad>(k), res); });
    for (long j : {0l, 1l, 2l, 3l}) add(mc::strf("ConstraintModelResidual with bounds of %ld and %ld for 2", k, j), k == 2 && j == 2, [=] { ConstraintModelResidual m(s, res, v(k, -1), v(j, 1)); });
  }
  add("ConstraintModelResidual lb = ub", true, [=] { ConstraintModelResidual m(s, res, v(2, 1), v(2, 1)); });
  add("ConstraintModelResidual infinite", true, [=] { ConstraintModelResidual m(s, res, v(2, -INF), v(2, INF)); });
  add("ConstraintModelResidual lb > ub", false, [=] { ConstraintModelResidual m(s, res, V(Eigen::Vector2d(0, 1)), V(Eigen::Vector2d(1, below(1)))); });
  add("ConstraintModelResidual lb = inf", false, [=] { ConstraintModelResidual m(s, res, V(Eigen::Vector2d(0, INF)), v(2, INF)); });
  add("ConstraintModelResidual lb = max", false, [=] { ConstraintModelResidual m(s, res, V(Eigen::Vector2d(MAX, 0)), v(2, INF)); });
  add("ConstraintModelResidual ub = -inf", false, [=] { ConstraintModelResidual m(s, res, v(2, -INF), V(Eigen::Vector2d(0, -INF))); });
  add("ConstraintModelResidual ub = -max", false, [=] { ConstraintModelResidual m(s, res, v(2, -INF), V(Eigen::Vector2d(-MAX, 0))); });
  struct Con : ConstraintModelAbstract {
    Con(StateP s, std::shared_ptr<ResidualModelAbstract> r, long ng, long nh) : ConstraintModelAbstract(s, r, ng, nh) {}
    MC_NO_CAST(ConstraintModelBase)
    void calc(const std::shared_ptr<ConstraintDataAbstract>&, const CRef&, const CRef&) override {}
    void calcDiff(const std::shared_ptr<ConstraintDataAbstract>&, const CRef&, const CRef&) override {}
  };
  auto res3 = std::make_shared<TResidual>(s, 3, 2, 1);
  for (long nh = 0; nh < 5; ++nh)
    for (long ng = 0; ng < 8; ++ng) add(mc::strf("constraint of %ld equalities and %ld inequalities on 3 residuals", nh, ng), nh <= 3 && ng <= 2 * (3 - nh), [=] { Con m(s, res3, ng, nh); });
  add("data of a constraint", true, [=] { DataCollectorAbstract d; Con(s, res3, 1, 1).createData(&d); });
  // squashing
  add("SmoothSat ns 0", false, [=] { SquashingModelSmoothSat m(v(0, 1), v(0, 1), 0); });
  for (long a : {1l, 2l, 3l})
    for (long b : {1l, 2l, 3l}) add(mc::strf("SmoothSat limits of %ld and %ld for 2", a, b), a == 2 && b == 2, [=] { SquashingModelSmoothSat m(v(a, -1), v(b, 1), 2); });
  // callbacks
  for (int p : {-5, -1, 0, 3}) {
    add(mc::strf("CallbackVerbose precision %d", p), p >= 0, [=] { CallbackVerbose m(_1, p); });
    add(mc::strf("set_precision(%d)", p), p >= 0, [=] { CallbackVerbose m; m.set_precision(p); });
  }
  // box QP
  for (double a : {0.1, below(0.5), TINY}) add(mc::strf("BoxQP th_acceptstep %g", a), true, [=] { BoxQP m(2, 10, a); });
  for (double a : {0., 1e-3}) add(mc::strf("BoxQP th_grad, reg %g", a), true, [=] { BoxQP m(2, 10, 0.1, a, a); });
  // integrated actions
  for (int nw : {1, 2, 3}) {
    TDAct::Spec b;
    b.nu = 2;
    typedef std::shared_ptr<ControlParametrizationModelAbstract> CP;
    add(mc::strf("Euler with a control of %d for 2", nw), nw == 2, [=] { IntegratedActionModelEuler m(std::make_shared<TDAct>(s, b), CP(std::make_shared<ControlParametrizationModelPolyOne>(nw)), 0.1); });
    add(mc::strf("RK with a control of %d for 2", nw), nw == 2, [=] { IntegratedActionModelRK m(std::make_shared<TDAct>(s, b), CP(std::make_shared<ControlParametrizationModelPolyOne>(nw)), RKType::two, 0.1); });
  }
  single(c, o);
}

// ---- data ownership ----------------------------------------------------------------------------------------------
template <class M>
static void owners(mc::Ctx& c, const std::vector<std::pair<const char*, std::shared_ptr<M>>>& ms) {
  const int i = c.choose((int)ms.size(), "model"), j = c.choose((int)ms.size(), "data of");
  c.op("%s.checkData(data of %s)", ms[i].first, ms[j].first);
  auto d = ms[j].second->createData();
  const bool r = ms[i].second->checkData(d);
  CHECK(c, r == (i == j), "checkData", "%s.checkData(data of %s) is %d", ms[i].first, ms[j].first, r);
  c.state(10 * i + j);
}
static void data(mc::Ctx& c) {
  Quiet quiet;
  StateP s = vec4();
  TAct::Spec a;
  a.nu = 2;
  TDAct::Spec b;
  b.nu = 2;
  typedef std::shared_ptr<ControlParametrizationModelAbstract> CP;
  switch (c.choose(2, "kind")) {
    case 0: {
      auto lqr = std::make_shared<DifferentialActionModelLQR>(2, 2);
      owners<ActionModelAbstract>(c, {{"LQR", std::make_shared<ActionModelLQR>(4, 2)}, {"Unicycle", std::make_shared<ActionModelUnicycle>()}, {"Euler", std::make_shared<IntegratedActionModelEuler>(std::make_shared<TDAct>(s, b), 0.1)},
                                      {"Euler(LQR)", std::make_shared<IntegratedActionModelEuler>(lqr, 0.1)}, {"RK4", std::make_shared<IntegratedActionModelRK>(std::make_shared<TDAct>(s, b), RKType::four, 0.1)},
                                      {"RK4(LQR)", std::make_shared<IntegratedActionModelRK>(lqr, RKType::four, 0.1)}, {"numdiff", std::make_shared<ActionModelNumDiff>(std::make_shared<TAct>(s, a))},
                                      {"numdiff(LQR)", std::make_shared<ActionModelNumDiff>(std::make_shared<ActionModelLQR>(4, 2))}, {"action", std::make_shared<TAct>(s, a)}});
      break;
    }
    case 1:
      owners<DifferentialActionModelAbstract>(c, {{"LQR", std::make_shared<DifferentialActionModelLQR>(2, 2)}, {"action", std::make_shared<TDAct>(s, b)}, {"numdiff", std::make_shared<DifferentialActionModelNumDiff>(std::make_shared<TDAct>(s, b))},
                                                  {"numdiff(LQR)", std::make_shared<DifferentialActionModelNumDiff>(std::make_shared<DifferentialActionModelLQR>(2, 2))}});
      break;
  }
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("solvers", solvers);
  e.add("boxqp", boxqp);
  e.add("actions", actions);
  e.add("differential", differential);
  e.add("states", states);
  e.add("activations", activations);
  e.add("items", items);
  e.add("sums", sums);
  e.add("controls", controls);
  e.add("actuations", actuations);
  e.add("problem", problem);
  e.add("constructors", constructors);
  e.add("data", data);
  return e.main(argc, argv);
}
