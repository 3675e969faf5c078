// C28: squashed actuation is the composition of its parts; the smooth saturation stays within its limits, is
// increasing, and its Jacobian is exact, through changes of its smoothing and several data objects.
#include "models.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
using namespace crocoddyl;

class TActuation : public ActuationModelAbstract {
 public:
  Fn f;
  bool dep;
  TActuation(StateP s, long nu, bool dep) : ActuationModelAbstract(s, nu), dep(dep) {
    Gen g(nu);
    f = Fn(g, s->get_nv(), s->get_ndx(), nu, 1., 0.6);
    if (!dep) f.A.setZero(), f.P.setZero();
  }
  MC_NO_CAST(ActuationModelBase)
  using ActuationModelAbstract::calc;
  using ActuationModelAbstract::calcDiff;
  void calc(const std::shared_ptr<ActuationDataAbstract>& d, const CRef& x, const CRef& u) override {
    d->tau = f.val(zof(state_, x), u);
    for (size_t i = 0; i < d->tau_set.size(); ++i) d->tau_set[i] = i != 1;
  }
  void calcDiff(const std::shared_ptr<ActuationDataAbstract>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    if (dep) d->dtau_dx = f.Jz(z, u) * Jof(state_, x);
    d->dtau_du = f.Ju(z, u);
  }
  void commands(const std::shared_ptr<ActuationDataAbstract>&, const CRef&, const CRef&) override {}
};

// user-defined: each output mixes its input with the next one
class TSquash : public SquashingModelAbstract {
 public:
  explicit TSquash(long n) : SquashingModelAbstract(n) {}
  MC_NO_CAST(SquashingModelBase)
  void calc(const std::shared_ptr<SquashingDataAbstract>& d, const CRef& s) override { d->u = val(s); }
  void calcDiff(const std::shared_ptr<SquashingDataAbstract>& d, const CRef& s) override { d->du_ds = jac(s); }
  static Vec val(const Vec& s) {
    Vec v(s.size());
    for (long i = 0; i < s.size(); ++i) v[i] = s[i] + (0.3 + 0.1 * i) * std::sin(s[(i + 1) % s.size()] - 0.2 * i);
    return v;
  }
  static Mat jac(const Vec& s) {
    Mat J = Mat::Identity(s.size(), s.size());
    for (long i = 0; i < s.size(); ++i) J(i, (i + 1) % s.size()) += (0.3 + 0.1 * i) * std::cos(s[(i + 1) % s.size()] - 0.2 * i);
    return J;
  }
};
static bool is_pinv(const Mat& P, const Mat& A) {
  if (P.rows() != A.cols() || P.cols() != A.rows()) return false;
  const Mat AP = A * P, PA = P * A;
  return close(Mat(AP * A), A, 1e-8) && close(Mat(PA * P), P, 1e-8) && close(AP, Mat(AP.transpose()), 1e-8) && close(PA, Mat(PA.transpose()), 1e-8);
}

static Vec sat(const Vec& s, const Vec& lb, const Vec& ub, double sm, Vec& J) {
  Vec v(s.size());
  J.resize(s.size());
  for (long i = 0; i < s.size(); ++i) {
    const double a = std::pow(sm * (ub[i] - lb[i]), 2), p = std::sqrt(a + std::pow(s[i] - lb[i], 2)), q = std::sqrt(a + std::pow(s[i] - ub[i], 2));
    v[i] = 0.5 * (lb[i] + ub[i] + p - q);
    J[i] = 0.5 * ((s[i] - lb[i]) / p - (s[i] - ub[i]) / q);
  }
  return v;
}
static void limitsOf(int b, long n, Vec& lb, Vec& ub) {
  lb.resize(n), ub.resize(n);
  for (long i = 0; i < n; ++i) {
    lb[i] = b == 0 ? -1 : b == 1 ? -0.3 - i : 2;
    ub[i] = b == 0 ? 1 : b == 1 ? 4 : 2.5 + i;
  }
}

static void saturation(mc::Ctx& c) {
  const int b = c.choose(3, "limits");
  const long n = 2;
  Vec lb, ub;
  limitsOf(b, n, lb, ub);
  SquashingModelSmoothSat m(lb, ub, n);
  std::shared_ptr<SquashingDataAbstract> d[2] = {m.createData(), m.createData()};
  double sm = 0.1;
  c.check(m.get_smooth() == sm && (long)m.get_ns() == n, "defaults", "wrong defaults");
  const size_t depth = c.thorough ? 5 : 4;
  const double S[] = {0., 0.1, 1., 0.003};
  for (size_t k = 0; k < depth; ++k) {
    const int o = c.choose(3, "operation");
    if (o == 0) {
      const double v = c.pick({1., 0.003, 0.1, -0.1}, "smooth");
      c.op("smooth %g", v);
      const bool t = throws([&] { m.set_smooth(v); });
      c.check(t == (v < 0), "smooth-refusal", "a negative smoothing was accepted or a valid one refused");
      if (!t) sm = v;
      c.check(m.get_smooth() == sm, "smooth", "get_smooth is not the last accepted value");
      c.check(close(m.get_d(), Vec(sm * (ub - lb))), "d", "get_d is wrong");
      continue;
    }
    Vec s(n);
    const double A[] = {-30., -1., 0.4, 2.3, 25.};
    const size_t j = c.choose(5, "s");
    for (long i = 0; i < n; ++i) s[i] = A[(j + i) % 5];
    c.op("evaluate data %d at %s", o - 1, show(s).c_str());
    Vec J, v = sat(s, lb, ub, sm, J);
    m.calc(d[o - 1], s);
    c.check(close(d[o - 1]->u, v, 1e-11), "saturation", "saturation " + show(d[o - 1]->u) + ", expected " + show(v));
    for (long i = 0; i < n; ++i) c.check(d[o - 1]->u[i] > lb[i] && d[o - 1]->u[i] < ub[i], "outside", mc::strf("saturation %.17g outside (%g, %g)", d[o - 1]->u[i], lb[i], ub[i]));
    m.calcDiff(d[o - 1], s);
    c.check(close(Mat(d[o - 1]->du_ds), Mat(J.asDiagonal()), 1e-11), "saturation-jacobian", "Jacobian " + show(Mat(d[o - 1]->du_ds)) + ", expected diag " + show(J));
    c.check((Vec(d[o - 1]->du_ds.diagonal()).array() > 0).all(), "increasing", "the saturation does not increase");
    c.state(mc::hash_mat(mc::hash_mat(b * 100 + (int)(sm * 1000), d[0]->u), d[1]->u));
  }
  c.outcome(mc::strf("limits %d smooth %g", b, sm));
}

static void composition(mc::Ctx& c) {
  StateP s = c.flip("state") ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(4));
  const long nu = 1 + c.choose(3, "nu");
  const bool dep = c.flip("state-dependent");
  Vec lb, ub;
  const int kind = c.choose(4, "squashing");
  limitsOf(kind % 3, nu, lb, ub);
  auto in = std::make_shared<TActuation>(s, nu, dep);
  auto smooth = std::make_shared<SquashingModelSmoothSat>(lb, ub, nu);
  std::shared_ptr<SquashingModelAbstract> sq = smooth;
  if (kind == 3) sq = std::make_shared<TSquash>(nu);
  ActuationSquashingModel m(in, sq, nu);
  std::shared_ptr<ActuationDataAbstract> d[2] = {m.createData(), m.createData()};
  double sm = 0.1;
  const size_t depth = c.thorough ? 4 : 3;
  for (size_t k = 0; k < depth; ++k) {
    const int o = c.choose(3, "operation");
    if (o == 0) {
      if (kind == 3) c.prune();
      smooth->set_smooth(sm = sm == 0.1 ? 0.7 : 0.1);
      c.op("smooth %g", sm);
      continue;
    }
    const int ix = c.choose(3, "x"), iu = c.choose(3, "u");
    const Vec x = s->get_ndx() == 2 ? CurvedState::point(0.8 * ix - 0.5, 1.1 * ix - 1) : Vec(Gen(ix).vec(4)), u = (1 + 2 * iu) * Gen(20 + iu).vec(nu);
    c.op("evaluate data %d at x=%s u=%s", o - 1, show(x).c_str(), show(u).c_str());
    auto& a = d[o - 1];
    const bool inverse = c.flip("torque transform");
    if (inverse)
      static_cast<ActuationModelAbstract&>(m).torqueTransform(a, x, u);
    else
      m.calc(a, x, u), m.calcDiff(a, x, u);
    Vec D, v = sat(u, lb, ub, sm, D), z = zof(s, x);
    Mat J = D.asDiagonal();
    if (kind == 3) v = TSquash::val(u), J = TSquash::jac(u);
    // the pseudo-inverse cuts small singular values
    if (inverse && (J.diagonal().array().abs() > 1e-3).all())
      c.check(is_pinv(a->Mtau, Mat(in->f.Ju(z, v) * J)), "transform", "the torque transform " + show(a->Mtau) + " is not the pseudo-inverse of " + show(Mat(in->f.Ju(z, v) * J)));
    c.check(close(a->tau, in->f.val(z, v)), "torque", "torque " + show(a->tau) + ", expected " + show(in->f.val(z, v)));
    for (size_t i = 0; i < a->tau_set.size(); ++i) c.check(a->tau_set[i] == (i != 1), "tau_set", "the actuated set is not the inner actuation's");
    c.check(close(a->dtau_du, Mat(in->f.Ju(z, v) * J)), "dtau_du", "control Jacobian " + show(a->dtau_du));
    c.check(close(a->dtau_dx, Mat(in->f.Jz(z, v) * Jof(s, x))), "dtau_dx", "state Jacobian " + show(a->dtau_dx) + ", expected " + show(Mat(in->f.Jz(z, v) * Jof(s, x))));
    c.state(mc::hash_mat(mc::hash_mat(nu, d[0]->dtau_dx), d[1]->dtau_du));
  }
  c.outcome(mc::strf("nu=%ld dep=%d", nu, dep));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("saturation", saturation);
  e.add("composition", composition);
  return e.main(argc, argv);
}
