// C24: the finite-difference wrappers evaluate what they wrap, differentiate it to the accuracy of their
// disturbance, and keep no memory of earlier (also failed) evaluations.
#include "managed.hpp"
#include "nodes.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
using namespace crocoddyl;

static const double DEF = std::sqrt(2 * std::numeric_limits<double>::epsilon());
static double tol1(double e) { return 60 * e + 2e-6; }              // first derivatives, forward differences
static double tol2(double e) { return 60 * std::sqrt(2 * e) + 1e-4; }  // second derivatives
static StateP mkstate(int i) { return i ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(4)); }
static Vec xof(const StateP& s, int i) { return s->get_ndx() == 2 ? CurvedState::point(0.9 * i - 0.5, 1.3 * i - 0.7) : Vec((1 + i) * Gen(30 + i).vec(4)); }
static Vec uof(long nu, int i) { return Vec((1 + i) * Gen(60 + i).vec(nu)); }

template <class M>
static double disturb(mc::Ctx& c, M& m) {
  const double e = c.pick<double>({0, 1e-6, 1e-4}, "disturbance");
  CHECK(c, closes(m.get_disturbance(), DEF), "disturbance", "default disturbance %g", m.get_disturbance());
  CHECK(c, throws([&] { m.set_disturbance(-1e-3); }), "disturbance", "a negative disturbance is accepted");
  CHECK(c, closes(m.get_disturbance(), DEF), "disturbance", "a refused disturbance is kept");
  if (!e) return DEF;
  m.set_disturbance(e);
  CHECK(c, m.get_disturbance() == e, "disturbance", "disturbance %g", m.get_disturbance());
  return e;
}
template <class A, class B>
static void cmp(mc::Ctx& c, const char* name, const A& a, const B& b, double tol) {
  CHECK(c, close(a, b, tol), std::string("value-") + name, "%s is %s, expected %s", name, show(a).c_str(), show(b).c_str());
}
template <class A, class B>
static void eq(mc::Ctx& c, const char* key, const char* name, const A& a, const B& b) {
  CHECK(c, same(a, b), std::string(key) + "-" + name, "%s: %s is %s, expected %s", key, name, show(a).c_str(), show(b).c_str());
}
static Vec one(double v) { return Vec::Constant(1, v); }
struct Fault : std::runtime_error {
  Fault() : std::runtime_error("fault") {}
};
struct FaultAt : Hook {
  long left = -1;
  void before(int, Call) override {
    if (left >= 0 && left-- == 0) throw Fault();
  }
};

// ---- actions and differential actions ---------------------------------------------------------------------------
struct TAct2 : TAct {  // with a residual of dimension 2
  Fn fr;
  TAct2(StateP s, const Spec& p) : TAct(s, p) {
    nr_ = 2;
    Gen g(p.seed + 5);
    fr = Fn(g, 2, s->get_ndx(), p.nu, 1., 0.4);
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override { TAct::calc(d, x, u), d->r = fr.val(zof(state_, x), u); }
  void calc(const std::shared_ptr<D>& d, const CRef& x) override { TAct::calc(d, x), d->r = fr.val(zof(state_, x), Vec::Zero(nu_)); }
  using TAct::calcDiff;
};
struct TDAct2 : TDAct {
  Fn fr;
  Hook* hook = nullptr;
  TDAct2(StateP s, const Spec& p) : TDAct(s, p) {
    nr_ = 2;
    Gen g(p.seed + 5);
    fr = Fn(g, 2, s->get_ndx(), p.nu, 1., 0.4);
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override {
    if (hook) hook->before(0, CALC);
    TDAct::calc(d, x, u), d->r = fr.val(zof(state_, x), u);
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x) override {
    if (hook) hook->before(0, CALC_T);
    TDAct::calc(d, x), d->r = fr.val(zof(state_, x), Vec::Zero(nu_));
  }
  using TDAct::calcDiff;
};
static const Vec& next_of(const ActionDataAbstract& d) { return d.xnext; }
static const Vec& next_of(const DifferentialActionDataAbstract& d) { return d.xout; }

template <class D>
static void values_equal(mc::Ctx& c, const char* key, const D& a, const D& b) {
  eq(c, key, "next", next_of(a), next_of(b));
  eq(c, key, "cost", one(a.cost), one(b.cost));
  eq(c, key, "r", a.r, b.r);
  eq(c, key, "g", a.g, b.g);
  eq(c, key, "h", a.h, b.h);
}
template <class D>
static void derivs_equal(mc::Ctx& c, const char* key, const D& a, const D& b, bool T) {
  eq(c, key, "Lx", a.Lx, b.Lx);
  eq(c, key, "Lxx", a.Lxx, b.Lxx);
  eq(c, key, "Gx", a.Gx, b.Gx);
  eq(c, key, "Hx", a.Hx, b.Hx);
  if (T) return;
  eq(c, key, "Fx", a.Fx, b.Fx);
  eq(c, key, "Fu", a.Fu, b.Fu);
  eq(c, key, "Lu", a.Lu, b.Lu);
  eq(c, key, "Luu", a.Luu, b.Luu);
  eq(c, key, "Lxu", a.Lxu, b.Lxu);
  eq(c, key, "Gu", a.Gu, b.Gu);
  eq(c, key, "Hu", a.Hu, b.Hu);
}
// W: wrapper; M: abstract model; fr: residual for the Gauss approximation (null: none); exact: whether Hessians are exact
template <class W, class WD, class M>
static void action_like(mc::Ctx& c, std::shared_ptr<M> m, const Fn* fr, bool gauss, bool exact, FaultAt* fault) {
  auto w = std::make_shared<W>(m, gauss);
  CHECK(c, w->get_model() == m && w->get_with_gauss_approx() == gauss && w->get_state() == m->get_state(), "configuration", "wrong parts");
  CHECK(c, w->get_nu() == m->get_nu() && w->get_nr() == m->get_nr() && w->get_ng() == m->get_ng() && w->get_nh() == m->get_nh() && w->get_ng_T() == m->get_ng_T() && w->get_nh_T() == m->get_nh_T(),
        "configuration", "wrong dimensions");
  CHECK(c, same(w->get_u_lb(), m->get_u_lb()) && same(w->get_u_ub(), m->get_u_ub()) && w->get_has_control_limits() == m->get_has_control_limits(), "control-limits", "control limits %s %s, of the model %s %s",
        show(w->get_u_lb()).c_str(), show(w->get_u_ub()).c_str(), show(m->get_u_lb()).c_str(), show(m->get_u_ub()).c_str());
  CHECK(c, same(w->get_g_lb(), m->get_g_lb()) && same(w->get_g_ub(), m->get_g_ub()), "constraint-bounds", "constraint bounds %s %s, of the model %s %s", show(w->get_g_lb()).c_str(), show(w->get_g_ub()).c_str(),
        show(m->get_g_lb()).c_str(), show(m->get_g_ub()).c_str());
  const double e = disturb(c, *w);
  StateP s = m->get_state();
  const long nu = m->get_nu();
  auto data = w->createData();
  CHECK(c, w->checkData(data), "checkData", "checkData refuses the model's own data");
  const int depth = c.thorough ? 3 : 2;
  for (int k = 0; k < depth; ++k) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int i = c.choose(2, "point");
    const Vec x = xof(s, i), u = uof(nu, i), z = zof(s, x);
    c.op("%s %s at %d", T ? "terminal" : "running", diff ? "calc, calcDiff" : "calc", i);
    auto eval = [&](const std::shared_ptr<typename std::remove_reference<decltype(*data)>::type>& d) {
      T ? w->calc(d, x) : w->calc(d, x, u);
      if (diff) T ? w->calcDiff(d, x) : w->calcDiff(d, x, u);
    };
    if (fault && k + 1 < depth) {
      fault->left = (long)c.choose(c.thorough ? 40 : 16, "failing evaluation") - 1;
      bool failed = false;
      try {
        eval(data);
      } catch (Fault&) {
        failed = true;
      }
      fault->left = -1;
      if (failed) {
        c.note("failed");
        continue;
      }
    } else
      eval(data);
    // the wrapped model on data of its own
    auto ref = m->createData();
    T ? m->calc(ref, x) : m->calc(ref, x, u);
    values_equal(c, "value", *data, *ref);
    auto nd = static_cast<WD*>(data.get());
    values_equal(c, "wrapped-data", *nd->data_0, *ref);
    auto fresh = w->createData();
    eval(fresh);
    values_equal(c, "fresh", *data, *fresh);
    if (!diff) continue;
    derivs_equal(c, "fresh", *data, *fresh, T);
    T ? m->calcDiff(ref, x) : m->calcDiff(ref, x, u);
    const double a = tol1(e), b = tol2(e);
    cmp(c, "Lx", data->Lx, ref->Lx, a);
    cmp(c, "Gx", data->Gx, ref->Gx, a);
    cmp(c, "Hx", data->Hx, ref->Hx, a);
    if (!T) {
      cmp(c, "Fx", data->Fx, ref->Fx, a);
      cmp(c, "Fu", data->Fu, ref->Fu, a);
      cmp(c, "Lu", data->Lu, ref->Lu, a);
      cmp(c, "Gu", data->Gu, ref->Gu, a);
      cmp(c, "Hu", data->Hu, ref->Hu, a);
    }
    if (gauss) {
      const Vec v = T ? Vec(Vec::Zero(nu)) : u;
      const Mat Rx = fr->Jz(z, v) * Jof(s, x), Ru = fr->Ju(z, v);
      cmp(c, "Gauss-Lxx", data->Lxx, Mat(Rx.transpose() * Rx), 10 * a);
      if (!T) cmp(c, "Gauss-Lxu", data->Lxu, Mat(Rx.transpose() * Ru), 10 * a), cmp(c, "Gauss-Luu", data->Luu, Mat(Ru.transpose() * Ru), 10 * a);
    } else if (exact) {
      cmp(c, "Lxx", data->Lxx, ref->Lxx, b);
      if (!T) cmp(c, "Lxu", data->Lxu, ref->Lxu, b), cmp(c, "Luu", data->Luu, ref->Luu, b);
    }
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_bytes(k, &data->cost, 8), data->Lxx), data->Gx));
  }
}
template <class M>
static void limits(mc::Ctx& c, M& m) {
  const long nu = m.get_nu(), ng = std::max(m.get_ng(), m.get_ng_T());
  if (c.flip("limits")) {
    if (nu) m.set_u_lb(Vec::Constant(nu, -1.5)), m.set_u_ub(Vec::Constant(nu, 0.7));
    if (ng) m.set_g_lb(Vec::Constant(ng, -0.3)), m.set_g_ub(Vec::Constant(ng, 2.));
  }
}
static void actions(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const int kind = c.choose(6, "model");
  TAct::Spec p;
  p.e = 0.6, p.nu = kind % 3, p.ng = p.ng_T = kind == 3 ? 2 : 0, p.nh = p.nh_T = kind == 3 ? 1 : kind == 2 ? 2 : 0;
  if (kind == 3) p.nu = 2;
  const bool gauss = kind < 4 && c.flip("Gauss approximation");
  if (kind >= 4) {  // in kind 5, one constraint is not imposed at the terminal node
    s = mkstate(0);  // the integrator takes velocity increments as plain sums
    auto d = std::make_shared<Managed>(s, s->get_nv(), 4, true, kind == 4);
    action_like<ActionModelNumDiff, ActionDataNumDiff, ActionModelAbstract>(c, std::make_shared<IntegratedActionModelEuler>(d, 0.1), nullptr, false, false, nullptr);
    return;
  }
  auto m = std::make_shared<TAct2>(s, p);
  FaultAt f;
  m->hook = &f;
  limits(c, *m);
  action_like<ActionModelNumDiff, ActionDataNumDiff, ActionModelAbstract>(c, m, &m->fr, gauss, true, &f);
}
static void diff_actions(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const int kind = c.choose(6, "model");
  TDAct::Spec p;
  p.e = 0.6, p.nu = kind % 3, p.ng = p.ng_T = kind == 3 ? 2 : 0, p.nh = p.nh_T = kind == 3 ? 1 : kind == 2 ? 2 : 0;
  if (kind == 3) p.nu = 2;
  const bool gauss = kind < 4 && c.flip("Gauss approximation");
  if (kind == 0 && gauss) CHECK(c, throws([&] { DifferentialActionModelNumDiff w(std::make_shared<TDAct>(s, p), true); }), "gauss", "a Gauss approximation of a one-dimensional residual is accepted");
  if (kind >= 4) {  // in kind 5, one constraint is not imposed at the terminal node
    action_like<DifferentialActionModelNumDiff, DifferentialActionDataNumDiff, DifferentialActionModelAbstract>(c, std::make_shared<Managed>(s, s->get_nv(), 4, true, kind == 4), nullptr, false, false, nullptr);
    return;
  }
  auto m = std::make_shared<TDAct2>(s, p);
  FaultAt f;
  m->hook = &f;
  limits(c, *m);
  action_like<DifferentialActionModelNumDiff, DifferentialActionDataNumDiff, DifferentialActionModelAbstract>(c, m, &m->fr, gauss, true, &f);
}

// ---- parts ------------------------------------------------------------------------------------------------------
static void activations(mc::Ctx& c) {
  const int k = c.choose(ACTIVATIONS, "activation"), nr = 1 + c.choose(3, "nr");
  auto m = every_activation(k, nr);
  ActivationModelNumDiff w(m);
  CHECK(c, w.get_model() == m && (int)w.get_nr() == nr, "configuration", "wrong parts");
  const double e = disturb(c, w);
  auto d = w.createData();
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    const int p = c.choose(3, "point");
    const bool diff = c.flip("derivatives");
    const Vec r = (0.5 + p) * Gen(11 + p).vec(nr);
    c.op("activation %d %s at %d", k, diff ? "calc, calcDiff" : "calc", p);
    w.calc(d, r);
    auto ref = m->createData();
    m->calc(ref, r);
    auto nd = static_cast<ActivationDataNumDiff*>(d.get());
    eq(c, "value", "a", one(d->a_value), one(ref->a_value));
    eq(c, "wrapped-data", "a", one(nd->data_0->a_value), one(ref->a_value));
    if (!diff) continue;
    w.calcDiff(d, r);
    auto fresh = w.createData();
    w.calc(fresh, r), w.calcDiff(fresh, r);
    m->calcDiff(ref, r);
    eq(c, "value", "a", one(d->a_value), one(ref->a_value));
    eq(c, "wrapped-data", "a", one(nd->data_0->a_value), one(ref->a_value));
    eq(c, "fresh", "Ar", d->Ar, fresh->Ar);
    eq(c, "fresh", "Arr", Vec(d->Arr.diagonal()), Vec(fresh->Arr.diagonal()));
    cmp(c, "Ar", d->Ar, ref->Ar, tol1(e));
    if (k != 7) cmp(c, "Arr", Vec(d->Arr.diagonal()), Vec(ref->Arr.diagonal()), tol2(e));
    c.state(mc::hash_mat(k, d->Ar));
  }
}
struct Shared : DataCollectorAbstract {  // something evaluated outside the model
  Vec v = Vec::Zero(2);
  Mat Vx, Vu;
};
// r = f(x,u) + shared.v, where shared.v = k(x,u) is kept up to date by the caller
struct SResidual : TResidual {
  SResidual(StateP s, long nu, uint64_t seed) : TResidual(s, 2, nu, seed) {}
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const CRef& x, const CRef& u) override {
    TResidual::calc(d, x, u);
    d->r += static_cast<Shared*>(d->shared)->v;
  }
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const CRef& x) override {
    TResidual::calc(d, x, unone_);
    d->r += static_cast<Shared*>(d->shared)->v;
  }
};
static void residuals(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = c.choose(3, "nu");
  const bool dep = c.flip("shared data");
  std::shared_ptr<TResidual> m = dep ? std::make_shared<SResidual>(s, nu, 8) : std::make_shared<TResidual>(s, 2, nu, 8);
  Gen g(99);
  const Fn k(g, 2, s->get_ndx(), nu, 1., 0.5);
  ResidualModelNumDiff w(m);
  CHECK(c, w.get_model() == m && w.get_nr() == 2 && (long)w.get_nu() == nu && w.get_state() == s, "configuration", "wrong parts");
  const double e = disturb(c, w);
  Shared col;
  auto update = [&](const Vec& x, const Vec& u) { col.v = k.val(zof(s, x), u); };
  if (dep) w.set_reevals({update});
  auto d = w.createData(&col);
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = T ? Vec(Vec::Zero(nu)) : uof(nu, p), z = zof(s, x);
    c.op("%s %s at %d", T ? "terminal" : "running", diff ? "calc, calcDiff" : "calc", p);
    auto eval = [&](const std::shared_ptr<ResidualDataAbstract>& d) {
      if (dep) update(x, u);
      T ? w.calc(d, x) : w.calc(d, x, u);
      if (diff) T ? w.calcDiff(d, x) : w.calcDiff(d, x, u);
    };
    eval(d);
    Vec r = m->f.val(z, u);
    Mat Rx = m->f.Jz(z, u), Ru = m->f.Ju(z, u);
    if (dep) r += k.val(z, u), Rx += k.Jz(z, u), Ru += k.Ju(z, u);
    Rx = Mat(Rx * Jof(s, x));
    cmp(c, "r", d->r, r, 1e-13);
    eq(c, "wrapped-data", "r", static_cast<ResidualDataNumDiff*>(d.get())->data_0->r, d->r);
    if (!diff) continue;
    auto fresh = w.createData(&col);
    eval(fresh);
    eq(c, "fresh", "Rx", d->Rx, fresh->Rx);
    cmp(c, "Rx", d->Rx, Rx, tol1(e));
    if (!T) eq(c, "fresh", "Ru", d->Ru, fresh->Ru), cmp(c, "Ru", d->Ru, Ru, tol1(e));
    c.state(mc::hash_mat(mc::hash_mat(nu, d->Rx), d->r));
  }
}
static void costs(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = c.choose(3, "nu");
  const int a = c.choose(ACTIVATIONS, "activation");
  const bool dep = c.flip("shared data");
  std::shared_ptr<TResidual> r = dep ? std::make_shared<SResidual>(s, nu, 8) : std::make_shared<TResidual>(s, 2, nu, 8);
  Gen g(99);
  const Fn k(g, 2, s->get_ndx(), nu, 1., 0.5);
  auto act = every_activation(a, 2);
  auto m = std::make_shared<CostModelResidual>(s, act, r);
  CostModelNumDiff w(m);
  CHECK(c, w.get_model() == m && w.get_activation() == act && (long)w.get_nu() == nu && w.get_state() == s && w.get_with_gauss_approx(), "configuration", "wrong parts");
  const double e = disturb(c, w);
  Shared col;
  auto update = [&](const Vec& x, const Vec& u) { col.v = k.val(zof(s, x), u); };
  if (dep) w.set_reevals({update});
  auto d = w.createData(&col);
  auto ad = act->createData();
  for (int i = 0; i < (c.thorough ? 3 : 2); ++i) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = T ? Vec(Vec::Zero(nu)) : uof(nu, p), z = zof(s, x);
    c.op("%s %s at %d", T ? "terminal" : "running", diff ? "calc, calcDiff" : "calc", p);
    auto eval = [&](const std::shared_ptr<CostDataAbstract>& d) {
      if (dep) update(x, u);
      T ? w.calc(d, x) : w.calc(d, x, u);
      if (diff) T ? w.calcDiff(d, x) : w.calcDiff(d, x, u);
    };
    eval(d);
    Vec rv = r->f.val(z, u);
    Mat Rx = r->f.Jz(z, u), Ru = r->f.Ju(z, u);
    if (dep) rv += k.val(z, u), Rx += k.Jz(z, u), Ru += k.Ju(z, u);
    Rx = Mat(Rx * Jof(s, x));
    act->calc(ad, rv), act->calcDiff(ad, rv);
    cmp(c, "cost", one(d->cost), one(ad->a_value), 1e-13);
    cmp(c, "r", d->residual->r, rv, 1e-13);
    if (!diff) continue;
    auto fresh = w.createData(&col);
    eval(fresh);
    const Mat Arr = ad->Arr.diagonal().asDiagonal();
    eq(c, "fresh", "Lx", d->Lx, fresh->Lx), eq(c, "fresh", "Lxx", d->Lxx, fresh->Lxx);
    cmp(c, "Lx", d->Lx, Vec(Rx.transpose() * ad->Ar), 10 * tol1(e));
    cmp(c, "Lxx", d->Lxx, Mat(Rx.transpose() * Arr * Rx), 10 * tol1(e));
    if (!T) {
      eq(c, "fresh", "Lu", d->Lu, fresh->Lu), eq(c, "fresh", "Luu", d->Luu, fresh->Luu), eq(c, "fresh", "Lxu", d->Lxu, fresh->Lxu);
      cmp(c, "Lu", d->Lu, Vec(Ru.transpose() * ad->Ar), 10 * tol1(e));
      cmp(c, "Luu", d->Luu, Mat(Ru.transpose() * Arr * Ru), 10 * tol1(e));
      cmp(c, "Lxu", d->Lxu, Mat(Rx.transpose() * Arr * Ru), 10 * tol1(e));
    }
    c.state(mc::hash_mat(mc::hash_mat(nu, d->Lxx), d->Lx));
  }
}
// a cost that has no residual: first derivatives, and no second ones
struct SCost : TCost {
  bool dep;
  SCost(StateP s, long nu, bool dep) : TCost(s, 0, nu, 6), dep(dep) {}
  void calc(const std::shared_ptr<CostDataAbstract>& d, const CRef& x, const CRef& u) override {
    TCost::calc(d, x, u);
    if (dep) d->cost += static_cast<Shared*>(d->shared)->v[0];
  }
  void calc(const std::shared_ptr<CostDataAbstract>& d, const CRef& x) override {
    calc(d, x, unone_);
    d->cost *= 2;
  }
};
static void plain_costs(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = c.choose(3, "nu");
  const bool dep = c.flip("shared data");
  auto m = std::make_shared<SCost>(s, nu, dep);
  CostModelNumDiff w(m);
  CHECK(c, w.get_model() == m && !w.get_with_gauss_approx(), "configuration", "a Gauss approximation of a cost without residual");
  const double e = disturb(c, w);
  Gen g(99);
  const Fn k(g, 2, s->get_ndx(), nu, 1., 0.5);
  Shared col;
  auto update = [&](const Vec& x, const Vec& u) { col.v = k.val(zof(s, x), u); };
  if (dep) w.set_reevals({update});
  auto d = w.createData(&col);
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = T ? Vec(Vec::Zero(nu)) : uof(nu, p), z = zof(s, x);
    c.op("%s %s at %d", T ? "terminal" : "running", diff ? "calc, calcDiff" : "calc", p);
    if (diff) d->Lxx.setConstant(7), d->Lxu.setConstant(7), d->Luu.setConstant(7);
    if (dep) update(x, u);
    T ? w.calc(d, x) : w.calc(d, x, u);
    if (diff) T ? w.calcDiff(d, x) : w.calcDiff(d, x, u);
    const double f = T ? 2 : 1;
    Mat K = k.Jz(z, u), Ku = k.Ju(z, u);
    if (!dep) K.setZero(), Ku.setZero();
    const double v = f * (m->l.val(z, u) + (dep ? k.val(z, u)[0] : 0));
    cmp(c, "cost", one(d->cost), one(v), 1e-13);
    if (!diff) continue;
    cmp(c, "Lx", d->Lx, Vec(f * Jof(s, x).transpose() * (m->l.gz(z, u) + K.row(0).transpose())), 10 * tol1(e));
    CHECK(c, d->Lxx.isZero(0), "no-gauss", "second derivatives of a cost without residual");
    if (!T) {
      cmp(c, "Lu", d->Lu, Vec(m->l.gu(z, u) + Ku.row(0).transpose()), 10 * tol1(e));
      CHECK(c, d->Lxu.isZero(0) && d->Luu.isZero(0), "no-gauss", "second derivatives of a cost without residual");
    }
    c.state(mc::hash_mat(mc::hash_mat(nu, d->Lx), one(d->cost)));
  }
}
// a constraint on something evaluated outside the model
struct SConstraint : TConstraint {
  using TConstraint::TConstraint;
  void calc(const std::shared_ptr<ConstraintDataAbstract>& d, const CRef& x, const CRef& u) override {
    TConstraint::calc(d, x, u);
    const Vec& v = static_cast<Shared*>(d->shared)->v;
    if (ng_) d->g[0] += v[0];
    if (nh_) d->h[0] += v[1];
  }
  void calc(const std::shared_ptr<ConstraintDataAbstract>& d, const CRef& x) override { calc(d, x, unone_); }
};
static void outside(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = c.choose(3, "nu"), ng = c.choose(3, "inequalities"), nh = c.choose(3, "equalities");
  if (ng + nh == 0) c.prune();
  auto m = std::make_shared<SConstraint>(s, nu, ng, nh, true, 5);
  ConstraintModelNumDiff w(m);
  const double e = disturb(c, w);
  Gen g(99);
  const Fn k(g, 2, s->get_ndx(), nu, 1., 0.5);
  Shared col;
  auto update = [&](const Vec& x, const Vec& u) { col.v = k.val(zof(s, x), u); };
  w.set_reevals({[](const Vec&, const Vec&) {}, update});
  auto d = w.createData(&col);
  for (int i = 0; i < (c.thorough ? 3 : 2); ++i) {
    const bool T = c.flip("terminal");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = T ? Vec(Vec::Zero(nu)) : uof(nu, p), z = zof(s, x);
    c.op("%s at %d", T ? "terminal" : "running", p);
    update(x, u);
    T ? w.calc(d, x) : w.calc(d, x, u);
    T ? w.calcDiff(d, x) : w.calcDiff(d, x, u);
    Vec gv = m->g.val(z, u), hv = m->h.val(z, u), v = k.val(z, u);
    Mat Gx = m->g.Jz(z, u), Hx = m->h.Jz(z, u), Gu = m->g.Ju(z, u), Hu = m->h.Ju(z, u), K = k.Jz(z, u), Ku = k.Ju(z, u);
    if (ng) gv[0] += v[0], Gx.row(0) += K.row(0);
    if (nh) hv[0] += v[1], Hx.row(0) += K.row(1);
    if (ng && nu) Gu.row(0) += Ku.row(0);
    if (nh && nu) Hu.row(0) += Ku.row(1);
    cmp(c, "g", d->g, gv, 1e-13), cmp(c, "h", d->h, hv, 1e-13);
    cmp(c, "Gx", d->Gx, Mat(Gx * Jof(s, x)), tol1(e)), cmp(c, "Hx", d->Hx, Mat(Hx * Jof(s, x)), tol1(e));
    if (!T) cmp(c, "Gu", d->Gu, Gu, tol1(e)), cmp(c, "Hu", d->Hu, Hu, tol1(e));
    c.state(mc::hash_mat(mc::hash_mat(nu, d->Gx), d->Hx));
  }
}
static void constraints(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = c.choose(3, "nu");
  const int kind = c.choose(5, "constraint");  // both, equality, inequality; residual: equality, inequality
  const bool T0 = c.flip("terminal constraint");
  std::shared_ptr<ConstraintModelAbstract> m;
  if (kind < 3) {
    m = std::make_shared<TConstraint>(s, nu, kind == 1 ? 0 : 2, kind == 2 ? 0 : 1, T0, 5);
    if (kind != 1 && c.flip("bounds")) m->update_bounds(Vec::Constant(2, -0.4), Vec::Constant(2, 0.9));
  } else if (kind == 3)
    m = std::make_shared<ConstraintModelResidual>(s, std::make_shared<TResidual>(s, 2, nu, 5), T0);
  else
    m = std::make_shared<ConstraintModelResidual>(s, std::make_shared<TResidual>(s, 2, nu, 5), Vec::Constant(2, -0.4), Vec::Constant(2, 0.9), T0);
  ConstraintModelNumDiff w(m);
  CHECK(c, w.get_model() == m && w.get_ng() == m->get_ng() && w.get_nh() == m->get_nh() && w.get_nu() == m->get_nu() && w.get_state() == s, "configuration", "wrong parts");
  CHECK(c, w.get_T_constraint() == m->get_T_constraint() && w.get_type() == m->get_type(), "configuration", "wrong flags");
  CHECK(c, same(w.get_lb(), m->get_lb()) && same(w.get_ub(), m->get_ub()), "constraint-bounds", "bounds %s %s, of the model %s %s", show(w.get_lb()).c_str(), show(w.get_ub()).c_str(), show(m->get_lb()).c_str(),
        show(m->get_ub()).c_str());
  const double e = disturb(c, w);
  DataCollectorAbstract col;
  auto d = w.createData(&col);
  for (int i = 0; i < (c.thorough ? 3 : 2); ++i) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = uof(nu, p);
    c.op("%s %s at %d", T ? "terminal" : "running", diff ? "calc, calcDiff" : "calc", p);
    T ? w.calc(d, x) : w.calc(d, x, u);
    auto ref = m->createData(&col);
    ref->g.setZero(), ref->h.setZero();
    T ? m->calc(ref, x) : m->calc(ref, x, u);
    eq(c, "value", "g", d->g, ref->g);
    eq(c, "value", "h", d->h, ref->h);
    if (!diff) continue;
    T ? w.calcDiff(d, x) : w.calcDiff(d, x, u);
    T ? m->calcDiff(ref, x) : m->calcDiff(ref, x, u);
    auto fresh = w.createData(&col);
    T ? w.calc(fresh, x) : w.calc(fresh, x, u);
    T ? w.calcDiff(fresh, x) : w.calcDiff(fresh, x, u);
    auto nd = static_cast<ConstraintDataNumDiff*>(d.get());
    eq(c, "wrapped-data", "g", nd->data_0->g, ref->g);
    eq(c, "wrapped-data", "h", nd->data_0->h, ref->h);
    eq(c, "fresh", "Gx", d->Gx, fresh->Gx);
    eq(c, "fresh", "Hx", d->Hx, fresh->Hx);
    cmp(c, "Gx", d->Gx, ref->Gx, tol1(e));
    cmp(c, "Hx", d->Hx, ref->Hx, tol1(e));
    if (!T) cmp(c, "Gu", d->Gu, ref->Gu, tol1(e)), cmp(c, "Hu", d->Hu, ref->Hu, tol1(e));
    c.state(mc::hash_mat(mc::hash_mat(kind, d->Gx), d->Hx));
  }
}
struct Inverse : TInner {  // with commands
  Fn k;
  Inverse(StateP s, long nu, uint64_t seed) : TInner(s, nu, seed) {
    Gen g(seed + 1);
    k = Fn(g, nu, s->get_ndx(), s->get_nv(), 1., 0.5);
  }
  void commands(const D& d, const CRef& x, const CRef& tau) override { d->u = k.val(zof(state_, x), tau); }
};
static void actuations(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long nu = 1 + c.choose(3, "nu");
  auto inner = std::make_shared<Inverse>(s, nu, 21);
  std::shared_ptr<ActuationModelAbstract> m = inner;
  const bool squashed = c.flip("squashed");
  if (squashed)
    m = std::make_shared<ActuationSquashingModel>(inner, std::make_shared<SquashingModelSmoothSat>(Vec::Constant(nu, -1.5), Vec::Constant(nu, 1.2), nu), nu);
  ActuationModelNumDiff w(m);
  CHECK(c, w.get_model() == m && (long)w.get_nu() == nu && w.get_state() == s, "configuration", "wrong parts");
  const double e = disturb(c, w);
  auto d = w.createData();
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    const bool diff = c.flip("derivatives");
    const int p = c.choose(2, "point");
    const Vec x = xof(s, p), u = uof(nu, p);
    c.op("%s at %d", diff ? "calc, calcDiff" : "calc", p);
    w.calc(d, x, u);
    auto ref = m->createData();
    m->calc(ref, x, u);
    eq(c, "value", "tau", d->tau, ref->tau);
    if (!squashed) {
      const Vec tau = Gen(31 + p).vec(s->get_nv());
      d->u.setConstant(7);
      w.commands(d, x, tau);
      eq(c, "commands", "u", d->u, inner->k.val(zof(s, x), tau));
      eq(c, "commands", "tau", d->tau, ref->tau);
    }
    if (!diff) continue;
    w.calcDiff(d, x, u);
    m->calcDiff(ref, x, u);
    auto fresh = w.createData();
    w.calc(fresh, x, u), w.calcDiff(fresh, x, u);
    eq(c, "value", "tau", d->tau, ref->tau);
    eq(c, "wrapped-data", "tau", static_cast<ActuationDataNumDiff*>(d.get())->data_0->tau, ref->tau);
    eq(c, "fresh", "dtau_dx", d->dtau_dx, fresh->dtau_dx);
    eq(c, "fresh", "dtau_du", d->dtau_du, fresh->dtau_du);
    cmp(c, "dtau_dx", d->dtau_dx, ref->dtau_dx, tol1(e));
    cmp(c, "dtau_du", d->dtau_du, ref->dtau_du, tol1(e));
    c.state(mc::hash_mat(mc::hash_mat(nu, d->dtau_dx), d->tau));
  }
}
static void controls(mc::Ctx& c) {
  const int k = c.choose(4, "parametrisation"), nw = 1 + c.choose(2, "nw");
  typedef ControlParametrizationModelAbstract A;
  std::shared_ptr<A> m;
  if (k == 0) m = std::make_shared<ControlParametrizationModelPolyZero>(nw);
  if (k == 1) m = std::make_shared<ControlParametrizationModelPolyOne>(nw);
  if (k > 1) m = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, k == 2 ? RKType::three : RKType::four);
  ControlParametrizationModelNumDiff w(m);
  CHECK(c, w.get_model() == m && w.get_nu() == m->get_nu() && w.get_nw() == m->get_nw(), "configuration", "wrong parts");
  const double e = disturb(c, w);
  auto d = w.createData();
  const long nu = m->get_nu();
  for (int i = 0; i < (c.thorough ? 4 : 3); ++i) {
    const int op = c.choose(4, "operation"), p = c.choose(2, "point");
    const double t = p ? 0.4 : 0.85;
    const Vec u = uof(nu, p), v = uof(nw, p + 3);
    auto ref = m->createData();
    if (op < 2) {
      c.op("%s at %d", op ? "calc, calcDiff" : "calc", p);
      w.calc(d, t, u);
      m->calc(ref, t, u);
      eq(c, "value", "w", d->w, ref->w);
      if (!op) continue;
      w.calcDiff(d, t, u);
      m->calcDiff(ref, t, u);
      eq(c, "value", "w", d->w, ref->w);
      cmp(c, "dw_du", d->dw_du, ref->dw_du, tol1(e));
      auto fresh = w.createData();
      w.calc(fresh, t, u), w.calcDiff(fresh, t, u);
      eq(c, "fresh", "dw_du", d->dw_du, fresh->dw_du);
      const Mat A0 = Gen(7).mat(3, nw), B0 = Gen(8).mat(nw, 3);
      const AssignmentOp ops[] = {setto, addto, rmfrom};
      for (auto o : ops) {
        Mat a = Gen(9).mat(3, nu), b = a, x = Gen(10).mat(nu, 3), y = x;
        w.multiplyByJacobian(d, A0, a, o);
        m->multiplyByJacobian(ref, A0, b, o);
        cmp(c, "product", a, b, 10 * tol1(e));
        w.multiplyJacobianTransposeBy(d, B0, x, o);
        m->multiplyJacobianTransposeBy(ref, B0, y, o);
        cmp(c, "product", x, y, 10 * tol1(e));
      }
    } else if (op == 2) {
      c.op("params");
      w.params(d, t, v);
      m->params(ref, t, v);
      eq(c, "value", "u", d->u, ref->u);
    } else {
      c.op("convertBounds");
      const Vec lb = Vec::Constant(nw, -1. - p), ub = Vec::Constant(nw, 2.);
      Vec a(nu), b(nu), x(nu), y(nu);
      w.convertBounds(lb, ub, a, b);
      m->convertBounds(lb, ub, x, y);
      eq(c, "value", "bounds", a, x), eq(c, "value", "bounds", b, y);
    }
    c.state(mc::hash_mat(mc::hash_mat(k, d->w), d->u));
  }
}
static void states(mc::Ctx& c) {
  StateP s = mkstate(c.choose(2, "state"));
  const long n = s->get_ndx(), nx = s->get_nx();
  if (c.flip("limits")) s->set_lb(Vec::Constant(nx, -3.)), s->set_ub(Vec::Constant(nx, 2.));
  StateNumDiff w(s);
  CHECK(c, w.get_nx() == s->get_nx() && w.get_ndx() == s->get_ndx() && w.get_nq() == s->get_nq() && w.get_nv() == s->get_nv(), "configuration", "wrong dimensions");
  CHECK(c, same(w.get_lb(), s->get_lb()) && same(w.get_ub(), s->get_ub()) && w.get_has_limits() == s->get_has_limits(), "state-limits", "limits %s %s, of the state %s %s", show(w.get_lb()).c_str(), show(w.get_ub()).c_str(),
        show(s->get_lb()).c_str(), show(s->get_ub()).c_str());
  const double e = disturb(c, w);
  eq(c, "value", "zero", w.zero(), s->zero());
  for (int i = 0; i < (c.thorough ? 3 : 2); ++i) {
    const int p = c.choose(2, "point"), op = c.choose(4, "operation"), q = c.choose(3, "components");
    const Jcomponent which = q == 0 ? cr::first : q == 1 ? cr::second : cr::both;
    const Vec x0 = xof(s, p), x1 = xof(s, 1 - p), dx = 0.4 * Gen(70 + p).vec(n);
    c.op("operation %d at %d", op, p);
    if (op == 0) {
      Vec a(n), b(n);
      w.diff(x0, x1, a), s->diff(x0, x1, b);
      eq(c, "value", "diff", a, b);
    } else if (op == 1) {
      Vec a(nx), b(nx);
      w.integrate(x0, dx, a), s->integrate(x0, dx, b);
      eq(c, "value", "integrate", a, b);
    } else {
      Mat A = Mat::Constant(n, n, 5.), B = A, F = A, G = A;
      if (op == 2)
        w.Jdiff(x0, x1, A, B, which), F.setZero(), G.setZero(), s->Jdiff(x0, x1, F, G, which);
      else
        w.Jintegrate(x0, dx, A, B, which, setto), F.setZero(), G.setZero(), s->Jintegrate(x0, dx, F, G, which, setto);
      if (q != 1) cmp(c, op == 2 ? "Jdiff-first" : "Jintegrate-first", A, F, tol1(e));
      if (q != 0) cmp(c, op == 2 ? "Jdiff-second" : "Jintegrate-second", B, G, tol1(e));
      c.state(mc::hash_mat(mc::hash_mat(op, A), B));
    }
  }
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("actions", actions);
  e.add("diff actions", diff_actions);
  e.add("activations", activations);
  e.add("residuals", residuals);
  e.add("costs", costs);
  e.add("constraints", constraints);
  e.add("costs without residual", plain_costs);
  e.add("constraints on shared data", outside);
  e.add("actuations", actuations);
  e.add("controls", controls);
  e.add("states", states);
  return e.main(argc, argv);
}
