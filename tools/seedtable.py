# The planted bugs.  See seeds.py.
SEEDS = {}


def seed(ident, prop, edits, needs, breaks, demo, **kw):
    SEEDS[ident] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw)


seed("c20-rmfrom-middle", "C20",
     [("include/crocoddyl/core/controls/poly-two-rk.hxx",
       "      out.middleRows(nw_, nw_) -= d->c[1] * A;", "      out.middleRows(nw_, nw_) -= d->c[2] * A;")],
     "the transposed product with the rmfrom operator, at a time where the second and third basis values differ",
     "the two-RK polynomial parametrisation's transposed Jacobian product uses the wrong coefficient when it is subtracted",
     r'''
#include "crocoddyl/core/controls/poly-two-rk.hpp"
using namespace crocoddyl;
int main() {
  ControlParametrizationModelPolyTwoRK m(2, RKType::four);
  auto d = m.createData();
  Vec u = Vec::LinSpaced(6, -1, 1);
  m.calc(d, 0.2, u);
  m.calcDiff(d, 0.2, u);
  Mat A = Mat::Ones(2, 3), out = Mat::Zero(6, 3);
  m.multiplyJacobianTransposeBy(d, A, out, rmfrom);
  Mat want = -d->dw_du.transpose() * A;
  return (out - want).norm() < 1e-12 ? 0 : 1;
}
''')


seed("c15-stale-inactive", "C15",
     [("include/crocoddyl/core/costs/cost-sum.hxx",
       "    costs_.erase(it);\n    active_set_.erase(name);\n    inactive_set_.erase(name);",
       "    costs_.erase(it);\n    if (active_set_.erase(name) == 0 && nr_ == nr_total_) inactive_set_.erase(name);")],
     "an inactive cost is removed while another inactive cost remains",
     "the removed cost stays listed in the inactive set",
     r'''
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/residuals/control.hpp"
using namespace crocoddyl;
int main() {
  auto s = std::make_shared<StateVector>(2);
  CostModelSum m(s, 2);
  for (const char* n : {"a", "b", "c"})
    m.addCost(n, std::make_shared<CostModelResidual>(s, std::make_shared<ResidualModelControl>(s, 2)), 1., n[0] == 'a');
  m.removeCost("b");
  return m.get_inactive_set().count("b") == 0 && m.get_inactive_set().size() == 1 ? 0 : 1;
}
''')

seed("c21-terminal-bias", "C21",
     [("include/crocoddyl/core/actions/lqr.hxx",
       "  data->g.noalias() = G_.leftCols(nx) * x;\n  data->g += g_;\n  data->h.noalias() = H_.leftCols(nx) * x;\n  data->h += h_;",
       "  data->g.noalias() = G_.leftCols(nx) * x;\n  data->h.noalias() = H_.leftCols(nx) * x;\n  data->g += g_;\n  if (nh_ <= nu_) data->h += h_;")],
     "a terminal evaluation of an LQR action with more equality constraints than controls",
     "the bias of the equality constraints is missing at terminal nodes",
     r'''
#include "crocoddyl/core/actions/lqr.hpp"
using namespace crocoddyl;
int main() {
  Mat A = Mat::Identity(3, 3), B = Mat::Ones(3, 1), Q = Mat::Identity(3, 3), R = Mat::Identity(1, 1), N = Mat::Zero(3, 1);
  Mat G = Mat::Zero(0, 4), H = Mat::Ones(2, 4);
  ActionModelLQR m(A, B, Q, R, N, G, H, Vec(Vec::Zero(3)), Vec(Vec::Zero(3)), Vec(Vec::Zero(1)), Vec(0), Vec(Vec::Constant(2, 0.5)));
  std::shared_ptr<ActionDataAbstract> d = m.createData();
  Vec x = Vec::Ones(3);
  m.calc(d, x);
  return (d->h - Vec::Constant(2, 3.5)).norm() < 1e-12 ? 0 : 1;
}
''')

seed("c16-terminal-count", "C16",
     [("include/crocoddyl/core/constraints/constraint-manager.hxx",
       "      ng_ -= it->second->constraint->get_ng();\n      nh_ -= it->second->constraint->get_nh();\n      if (it->second->constraint->get_T_constraint()) {\n        ng_T_ -= it->second->constraint->get_ng();\n        nh_T_ -= it->second->constraint->get_nh();\n      }\n      active_set_.erase(name);\n      inactive_set_.insert(name);",
       "      const std::size_t ng = it->second->constraint->get_ng();\n      const std::size_t nh = it->second->constraint->get_nh();\n      ng_ -= ng;\n      nh_ -= nh;\n      if (it->second->constraint->get_T_constraint()) {\n        ng_T_ -= ng;\n        if (ng == 0) nh_T_ -= nh;\n      }\n      active_set_.erase(name);\n      inactive_set_.insert(name);")],
     "a terminal constraint with both equality and inequality rows is deactivated",
     "the number of terminal equality constraints stays too high",
     r'''
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
using namespace crocoddyl;
struct Mixed : ConstraintModelAbstract {
  Mixed(std::shared_ptr<StateVector> s) : ConstraintModelAbstract(s, 1, 2, 3, true) {}
  std::shared_ptr<ConstraintModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ConstraintModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<ConstraintDataAbstract>&, const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&) override {}
  void calcDiff(const std::shared_ptr<ConstraintDataAbstract>&, const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&) override {}
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  ConstraintModelManager m(s, 1);
  m.addConstraint("a", std::make_shared<Mixed>(s));
  m.changeConstraintStatus("a", false);
  return m.get_ng_T() == 0 && m.get_nh_T() == 0 && m.get_nh() == 0 ? 0 : 1;
}
''')

seed("c23-rmfrom-second", "C23",
     [("include/crocoddyl/core/states/euclidean.hxx",
       "      case rmfrom:\n        Jsecond.diagonal().array() -= Scalar(1.);",
       "      case rmfrom:\n        if (firstsecond == both)\n          Jsecond.diagonal() -= (Jfirst.diagonal().array() + Scalar(1.)).matrix().cwiseMin(Scalar(1.));\n        else\n          Jsecond.diagonal().array() -= Scalar(1.);")],
     "both Jacobian components are subtracted at once and the first Jacobian held a value below 1 on its diagonal",
     "the second Jacobian of integrate is not subtracted in full",
     r'''
#include "crocoddyl/core/states/euclidean.hpp"
using namespace crocoddyl;
int main() {
  StateVector s(2);
  Mat a = Mat::Identity(2, 2) * 0.5, b = Mat::Identity(2, 2) * 5;
  Vec x = Vec::Zero(2);
  s.Jintegrate(x, x, a, b, both, rmfrom);
  return (b - 4 * Mat::Identity(2, 2)).norm() < 1e-12 && (a + 0.5 * Mat::Identity(2, 2)).norm() < 1e-12 ? 0 : 1;
}
''')

# a user-defined action for the demonstrations: xnext = x + B u + e sin(x), quadratic cost, optional rows
ACT = r'''
#include <functional>
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> CR;
struct Act : ActionModelAbstract {
  Mat B;
  double e = 0, w = 1, shift = 1;
  Vec target;
  std::function<void(const std::shared_ptr<ActionDataAbstract>&, const Vec&, const Vec&, bool)> hook;
  Act(std::shared_ptr<StateVector> s, std::size_t nu, std::size_t ng = 0, std::size_t nh = 0, std::size_t ngT = 0, std::size_t nhT = 0)
      : ActionModelAbstract(s, nu, 0, ng, nh, ngT, nhT) {
    B = Mat::Ones(s->get_nx(), nu);
    for (long i = 0; i < B.rows(); ++i)
      for (long j = 0; j < B.cols(); ++j) B(i, j) = std::cos(1. + i + 2 * j);
    target = Vec::Zero(s->get_nx());
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<ActionDataAbstract>& d, const CR& x, const CR& u) override {
    d->xnext = x + B * u + e * x.array().sin().matrix();
    d->cost = 0.5 * w * (x - target).squaredNorm() + 0.5 * u.squaredNorm();
    if (hook) hook(d, x, u, false);
  }
  void calcDiff(const std::shared_ptr<ActionDataAbstract>& d, const CR& x, const CR& u) override {
    d->Fx = Mat::Identity(x.size(), x.size());
    d->Fx.diagonal() += e * x.array().cos().matrix();
    d->Fu = B;
    d->Lx = w * (x - target);
    d->Lu = u;
    d->Lxx = w * Mat::Identity(x.size(), x.size());
    d->Luu.setIdentity();
    d->Lxu.setZero();
    if (hook) hook(d, x, u, true);
  }
  void calc(const std::shared_ptr<ActionDataAbstract>& d, const CR& x) override {
    d->xnext = x;
    d->cost = 0.5 * w * (x - target).squaredNorm();
    if (hook) hook(d, x, Vec(0), false);
  }
  void calcDiff(const std::shared_ptr<ActionDataAbstract>& d, const CR& x) override {
    d->Lx = w * (x - target);
    d->Lxx = w * Mat::Identity(x.size(), x.size());
    if (hook) hook(d, x, Vec(0), true);
  }
};
'''

seed("c01-l1-terminal", "C01",
     [("src/core/solver-base.cpp",
       "        tmp_feas_ += problem_->get_terminalData()->h.lpNorm<1>();",
       "        tmp_feas_ +=\n            problem_->get_terminalData()->h.lpNorm<Eigen::Infinity>();")],
     "the sum norm is selected and the terminal node has several violated equality constraints",
     "the equality violation counts only the largest component of the terminal node",
     ACT + r'''
#include "crocoddyl/core/solvers/fddp.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto run = std::make_shared<Act>(s, 1), ter = std::make_shared<Act>(s, 1, 0, 2, 0, 2);
  ter->hook = [](const std::shared_ptr<ActionDataAbstract>& d, const Vec& x, const Vec&, bool diff) {
    if (!diff) d->h = Vec::Constant(2, 3.) - x;
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, run);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Zero(2)), r, ter);
  SolverFDDP f(p);
  f.set_feasnorm(L1);
  std::vector<Vec> xs(3, Vec(Vec::Zero(2))), us(2, Vec(Vec::Zero(1)));
  p->calc(xs, us);
  return std::abs(f.computeEqualityFeasibility() - 6.) < 1e-12 ? 0 : 1;
}
''')

seed("c01-ascent-feasible", "C01",
     [("src/core/solvers/fddp.cpp",
       "        if (!is_feasible_ && dV_ > th_acceptnegstep_ * dVexp_) {\n          was_feasible_ = is_feasible_;\n          setCandidate(xs_try_, us_try_, (was_feasible_) || (steplength_ == 1));",
       "        if (!is_feasible_ && dV_ > th_acceptnegstep_ * dVexp_) {\n          was_feasible_ = is_feasible_;\n          setCandidate(xs_try_, us_try_, was_feasible_ || dV_ < 0.);")],
     "an infeasible iterate takes a shortened step that increases the cost to reduce the gaps",
     "the new trajectory is said to be feasible although its gaps are only partly closed",
     ACT + r'''
#include "crocoddyl/core/solvers/fddp.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1);
  m->e = 0.3;
  std::vector<std::shared_ptr<ActionModelAbstract>> r(3, m);
  Vec x0 = Vec::Constant(2, 4.);
  auto p = std::make_shared<ShootingProblem>(x0, r, m);
  SolverFDDP f(p);
  f.set_alphas({0.5, 0.25});  // the first step is never a full one
  std::vector<Vec> xs(4, Vec(Vec::Zero(2))), us(3, Vec(Vec::Zero(1)));
  for (std::size_t n = 1; n < 4; ++n) {
    f.solve(xs, us, n, false);
    if (!f.get_is_feasible()) continue;
    if ((f.get_xs()[0] - x0).norm() > 1e-9) return 1;
    std::vector<Vec> roll = p->rollout_us(f.get_us());
    for (std::size_t t = 0; t < 4; ++t)
      if ((roll[t] - f.get_xs()[t]).norm() > 1e-9) return 1;
  }
  return 0;
}
''')

seed("c05-stepinc-strict", "C05",
     [("src/core/solvers/ddp.cpp", "    if (steplength_ <= th_stepinc_) {", "    if (steplength_ < th_stepinc_) {")],
     "the accepted step length is exactly the configured threshold",
     "DDP does not increase the regularisation for a step at the threshold",
     ACT + r'''
#include "crocoddyl/core/solvers/ddp.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, std::make_shared<Act>(s, 1));
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, r[0]);
  SolverDDP f(p);
  f.set_th_stepdec(1.);
  f.set_th_stepinc(1.);
  std::vector<Vec> us(2, Vec(Vec::Zero(1)));
  f.solve(p->rollout_us(us), us, 1, true, 1e-3);
  return std::abs(f.get_preg() / (1e-3 * f.get_reg_incfactor()) - 1) < 1e-12 ? 0 : 1;
}
''')

seed("c06-terminal-cost", "C06",
     [("src/core/solvers/ddp.cpp",
       "  m->calc(d, xs_try_.back());\n  cost_try_ += d->cost;\n\n  if (raiseIfNaN(cost_try_)) {",
       "  m->calc(d, xs_try_.back());\n\n  if (raiseIfNaN(cost_try_)) {"),
      ("src/core/solvers/ddp.cpp",
       "    throw_pretty(\"forward_error\");\n  }\n  STOP_PROFILER(\"SolverDDP::forwardPass\");\n}",
       "    throw_pretty(\"forward_error\");\n  }\n  cost_try_ += d->cost;\n  STOP_PROFILER(\"SolverDDP::forwardPass\");\n}")],
     "the terminal cost evaluates to NaN during a line search from an infeasible guess",
     "DDP accepts a trajectory whose cost is not a number",
     ACT + r'''
#include "crocoddyl/core/solvers/ddp.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1), ter = std::make_shared<Act>(s, 1);
  int n = 0;
  ter->hook = [&](const std::shared_ptr<ActionDataAbstract>& d, const Vec&, const Vec&, bool diff) {
    if (!diff && ++n == 2) d->cost = std::nan("");
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, ter);
  SolverDDP f(p);
  f.solve(DEFAULT_VECTOR, DEFAULT_VECTOR, 1, false);
  return std::isfinite(f.get_cost()) ? 0 : 1;
}
''')

seed("c07-was-feasible", "C07",
     [("src/core/solvers/fddp.cpp",
       "    dreg_ = init_reg;\n  }\n  was_feasible_ = false;\n",
       "    dreg_ = init_reg;\n  }\n  was_feasible_ = was_feasible_ && is_feasible_;\n")],
     "a solver that converged before is started from a feasible guess at which its first line search accepts no step",
     "the second solve reports convergence where a new solver does not",
     ACT + r'''
#include "crocoddyl/core/solvers/fddp.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1);
  bool broken = false;
  m->hook = [&](const std::shared_ptr<ActionDataAbstract>& d, const Vec& x, const Vec& u, bool diff) {
    if (broken && !diff && u.size() && std::abs(u(0)) > 1e-12) d->cost = std::nan("");
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  SolverFDDP a(p), b(p);
  std::vector<Vec> us(2, Vec(Vec::Zero(1)));
  std::vector<Vec> xs = p->rollout_us(us);
  a.set_th_stop(10.);
  b.set_th_stop(10.);
  a.solve(xs, us, 10, true);
  broken = true;
  bool ra = a.solve(xs, us, 1, true), rb = b.solve(xs, us, 1, true);
  return ra == rb ? 0 : 1;
}
''')

seed("c08-initial-gap", "C08",
     [("src/core/solvers/fddp.cpp",
       "    for (std::size_t t = 0; t < T; ++t) {\n      models[t]->get_state()->diff(xs_try_[t], xs_[t], dx_[t]);",
       "    for (std::size_t t = 1; t < T; ++t) {\n      models[t]->get_state()->diff(xs_try_[t], xs_[t], dx_[t]);")],
     "the guess does not start at the problem's initial state",
     "the expected improvement leaves out the gap at the initial node",
     ACT + r'''
#include "crocoddyl/core/solvers/fddp.hpp"
struct F : SolverFDDP {
  using SolverFDDP::SolverFDDP;
  using SolverFDDP::dg_;
  using SolverFDDP::xs_try_;
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  F f(p);
  std::vector<Vec> xs(3, Vec(Vec::Constant(2, -2.))), us(2, Vec(Vec::Zero(1)));
  f.set_reg_min(0.);
  f.set_preg(0.);
  f.setCandidate(xs, us, false);
  f.computeDirection(true);
  f.updateExpectedImprovement();
  f.tryStep(0.5);
  double want = f.dg_;
  std::vector<Vec> dx(3, Vec(2));
  for (int k = 0; k < 3; ++k) {
    s->diff(f.xs_try_[k], xs[k], dx[k]);
    want -= f.get_fs()[k].dot(f.get_Vxx()[k] * dx[k]);
  }
  Eigen::Vector2d d = f.expectedImprovement();
  return std::abs(d[0] - want) < 1e-9 * (1 + std::abs(want)) ? 0 : 1;
}
''')

seed("c09-schur-cross", "C09",
     [("src/core/solvers/intro.cpp",
       "        Ks_[t] = data->Hx;\n        Ks_[t].noalias() -= data->Hu * K_[t];",
       "        Ks_[t] = data->Hx;\n        if (data->Hu.rows() < data->Hu.cols()) {\n          Ks_[t].noalias() -= data->Hu * K_[t];\n        }")],
     "the Schur-complement resolution at a node with as many constraints as controls",
     "the feedback gain of a fully constrained node is wrong",
     ACT + r'''
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
int main() {
  Mat A = Mat::Identity(2, 2), B(2, 1), Q = Mat::Identity(2, 2), R = Mat::Identity(1, 1), N = Mat::Zero(2, 1), G(0, 3), H(1, 3);
  B << 1, 0.5;
  H << 0.3, -0.2, 1.;
  auto m = std::make_shared<ActionModelLQR>(A, B, Q, R, N, G, H, Vec(Vec::Zero(2)), Vec(Vec::Ones(2)), Vec(Vec::Ones(1)), Vec(0), Vec(Vec::Ones(1)));
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  Vec u[2];
  for (int k = 0; k < 2; ++k) {
    SolverIntro f(p);
    f.set_equality_solver(k ? Schur : QrNull);
    f.solve(DEFAULT_VECTOR, DEFAULT_VECTOR, 1, false);
    u[k] = f.get_us()[1];
  }
  return (u[0] - u[1]).norm() < 1e-8 ? 0 : 1;
}
''')

seed("c10-terminal-jac", "C10",
     [("src/core/solvers/ipopt/ipopt-iface.cpp",
       "      const std::size_t ndxi_next =\n          t + 1 == T ? problem_->get_terminalModel()->get_state()->get_ndx()\n                     : models[t + 1]->get_state()->get_ndx();\n      for (std::size_t idx_row = 0; idx_row < ndxi; ++idx_row) {\n        for (std::size_t idx_col = 0; idx_col < (ndxi + nui + ndxi_next);\n             ++idx_col) {\n          iRow[idx] = static_cast<Ipopt::Index>(ix + idx_row);\n          jCol[idx] = static_cast<Ipopt::Index>(ixu_[t] + idx_col);",
       "      const std::size_t ndxi_next =\n          t + 1 == T ? problem_->get_terminalModel()->get_state()->get_ndx()\n                     : models[t + 1]->get_state()->get_ndx();\n      const std::size_t first = t * (ndxi + nui);\n      for (std::size_t idx_row = 0; idx_row < ndxi; ++idx_row) {\n        for (std::size_t idx_col = 0; idx_col < (ndxi + nui + ndxi_next);\n             ++idx_col) {\n          iRow[idx] = static_cast<Ipopt::Index>(ix + idx_row);\n          jCol[idx] = static_cast<Ipopt::Index>(first + idx_col);")],
     "nodes with different control dimensions",
     "the constraint Jacobian's structure points at the wrong variables after a node of another control dimension",
     ACT + r'''
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
int main() {
  auto s = std::make_shared<StateVector>(2);
  std::vector<std::shared_ptr<ActionModelAbstract>> r = {std::make_shared<Act>(s, 1), std::make_shared<Act>(s, 3)};
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, r[0]);
  Ipopt::SmartPtr<IpoptInterface> f = new IpoptInterface(p);
  Ipopt::Index n, m, nj, nh;
  Ipopt::TNLP::IndexStyleEnum st;
  f->get_nlp_info(n, m, nj, nh, st);
  f->set_xs({Vec(Vec::Zero(2)), Vec(Vec::Zero(2)), Vec(Vec::Zero(2))});
  std::vector<Ipopt::Index> ir(nj), jc(nj);
  std::vector<double> x(n, 0.1), v(nj), g0(m), g1(m);
  f->eval_jac_g(n, x.data(), true, m, nj, ir.data(), jc.data(), NULL);
  f->eval_jac_g(n, x.data(), true, m, nj, NULL, NULL, v.data());
  Mat J = Mat::Zero(m, n);
  for (int k = 0; k < nj; ++k) {
    if (ir[k] >= m || jc[k] >= n) return 1;
    J(ir[k], jc[k]) += v[k];
  }
  f->eval_g(n, x.data(), true, m, g0.data());
  for (int j = 0; j < n; ++j) {
    x[j] += 1e-6;
    f->eval_g(n, x.data(), true, m, g1.data());
    x[j] -= 1e-6;
    for (int i = 0; i < m; ++i)
      if (std::abs((g1[i] - g0[i]) / 1e-6 - J(i, j)) > 1e-4) return 1;
  }
  return 0;
}
''')

seed("c11-stale-direction", "C11",
     [("src/core/solvers/box-qp.cpp",
       "    dx_.setZero();\n    for (std::size_t i = 0; i < nf_; ++i) {\n      dx_(solution_.free_idx[i]) = dxf(i);",
       "    if (nf_ == nx_) dx_.setZero();\n    for (std::size_t i = 0; i < nf_; ++i) {\n      dx_(solution_.free_idx[i]) = dxf(i);")],
     "a solver object that solved another problem before, then one in which a coordinate is held at its bound",
     "the held coordinate moves along the direction of the earlier problem",
     r"""
#include "crocoddyl/core/solvers/box-qp.hpp"
using namespace crocoddyl;
int main() {
  Mat H(2, 2);
  H << 2, 0, 0, 2;
  Vec q(2), p(2), lb = Vec::Zero(2), ub = Vec::Constant(2, 5);
  q << -4, -4;
  p << 1, -1;
  BoxQP qp(2), fresh(2);
  qp.set_maxiter(1);
  fresh.set_maxiter(1);
  qp.solve(H, q, lb, ub, lb);
  Vec a = qp.solve(H, p, lb, ub, lb).x, b = fresh.solve(H, p, lb, ub, lb).x;
  return (a - b).norm() < 1e-12 ? 0 : 1;
}
""")

seed("c12-terminal-state", "C12",
     [("include/crocoddyl/core/optctrl/shooting.hxx",
       "  terminal_model_->calcDiff(terminal_data_, xs.back());",
       "  terminal_model_->calcDiff(terminal_data_, running_models_.back() == terminal_model_ ? xs[T_] : terminal_data_->xnext);")],
     "derivatives are requested for a trajectory other than the last evaluated one, or of a terminal model that leaves xnext alone",
     "the terminal node's derivatives are taken at another state",
     ACT + r'''
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1), ter = std::make_shared<Act>(s, 1);
  ter->hook = [](const std::shared_ptr<ActionDataAbstract>& d, const Vec&, const Vec&, bool diff) {
    if (!diff) d->xnext.setZero();
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  ShootingProblem p(Vec(Vec::Ones(2)), r, ter);
  std::vector<Vec> xs(3, Vec(Vec::Constant(2, 3.))), us(2, Vec(Vec::Zero(1)));
  p.calc(xs, us);
  p.calcDiff(xs, us);
  return (p.get_terminalData()->Lx - xs[2]).norm() < 1e-12 ? 0 : 1;
}
''')

seed("c13-refused-append", "C13",
     [("include/crocoddyl/core/optctrl/shooting.hxx",
       "  if (i == T_) {\n    terminal_model_ = model;\n    terminal_data_ = terminal_model_->createData();\n  } else {\n    running_models_[i] = model;\n    running_datas_[i] = model->createData();\n  }",
       "  if (i == T_) {\n    terminal_model_ = model;\n    if (!model->checkData(terminal_data_)) {\n      terminal_data_ = model->createData();\n    }\n  } else {\n    running_models_[i] = model;\n    running_datas_[i] = model->createData();\n  }")],
     "the terminal model is replaced by one of the same type with other sizes or with data of its own",
     "the new terminal model is evaluated with the data of the old one",
     ACT + r'''
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1), a = std::make_shared<Act>(s, 1), b = std::make_shared<Act>(s, 1, 0, 2, 0, 2);
  struct Own : Act {
    using Act::Act;
    bool checkData(const std::shared_ptr<ActionDataAbstract>& d) override { return d != nullptr; }
  };
  auto c = std::make_shared<Own>(s, 2, 0, 2, 0, 2);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  ShootingProblem p(Vec(Vec::Ones(2)), r, a);
  p.updateModel(2, c);
  return p.get_terminalData()->h.size() == 2 && p.get_terminalData()->Lu.size() == 2 ? 0 : 1;
}
''')

seed("c19-luu-partial", "C19",
     [("include/crocoddyl/core/integrator/rk.hxx",
       "    d->ddli_ddu[i].noalias() += d->Luu_partialx[i].transpose() +\n                                d->Luu_partialx[i] +\n",
       "    d->ddli_ddu[i].noalias() += Scalar(2.) * d->Luu_partialx[i] +\n")],
     "a Runge-Kutta step with several control parameters and a cost that couples state and control",
     "the Hessian with respect to the control parameters is not symmetric and wrong off its diagonal",
     ACT + r'''
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
int main() {
  const int nq = 1, nx = 2, nu = 2;
  Mat Aq(1, 1), Av(1, 1), B(1, 2), Q = Mat::Identity(2, 2), R = Mat::Identity(2, 2), N(2, 2), G(0, 4), H(0, 4);
  Aq << 0.3;
  Av << -0.2;
  B << 1., 0.4;
  N << 0.1, 0.5, 0.7, -0.3;
  auto m = std::make_shared<DifferentialActionModelLQR>(Aq, Av, B, Q, R, N, G, H, Vec(Vec::Zero(1)), Vec(Vec::Zero(2)), Vec(Vec::Zero(2)), Vec(0), Vec(0));
  IntegratedActionModelRK rk(m, RKType::four, 0.4);
  auto d = rk.createData();
  Vec x = Vec::Ones(2), u = Vec::Ones(2);
  rk.calc(d, x, u);
  rk.calcDiff(d, x, u);
  return (d->Luu - d->Luu.transpose()).norm() < 1e-12 ? 0 : 1;
}
''')

seed("c24-hess-step", "C24",
     [("include/crocoddyl/core/numdiff/action.hxx",
       "  d->uh_hess = e_hess_ * std::max(Scalar(1.), u.norm());",
       "  d->uh_hess = e_hess_ * std::max(Scalar(1.), d->uh_jac);"),
      ("include/crocoddyl/core/numdiff/action.hxx",
       "  d->xuh_hess_pow2 = Scalar(4.) * d->xh_hess * d->uh_hess;",
       "  d->xuh_hess_pow2 = Scalar(4.) * e_hess_ * d->xh_hess *\n                     std::max(Scalar(1.), u.norm());")],
     "a control of norm above one",
     "the mixed second derivative is scaled by a step that was not the one taken",
     ACT + r'''
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
int main() {
  Mat A = Mat::Identity(2, 2), B = Mat::Ones(2, 1), Q = Mat::Identity(2, 2), R = Mat::Identity(1, 1), N = Mat::Constant(2, 1, 0.3);
  auto m = std::make_shared<ActionModelLQR>(A, B, Q, R, N);
  ActionModelNumDiff n(m);
  auto d = n.createData();
  Vec x = Vec::Ones(2), u = Vec::Constant(1, 4.);
  n.calc(d, x, u);
  n.calcDiff(d, x, u);
  return (d->Lxu - N).norm() < 1e-2 ? 0 : 1;
}
''')

seed("c27-reset-samples", "C27",
     [("src/core/utils/stop-watch.cpp",
       "  perf_info.paused = false;\n  perf_info.stops = 0;",
       "  perf_info.paused = false;\n  if (mode == CPU_TIME) perf_info.stops = 0;")],
     "a section is measured, reset and measured again in real time",
     "the average counts the intervals from before the reset",
     r'''
#include <unistd.h>
#include "crocoddyl/core/utils/stop-watch.hpp"
using namespace crocoddyl;
int main() {
  Stopwatch& w = getProfiler();
  w.enable_profiler();
  w.set_mode(REAL_TIME);
  for (int k = 0; k < 2; ++k) {
    if (k) w.reset("a");
    w.start("a");
    usleep(5000);
    w.stop("a");
  }
  return w.get_average_time("a") == w.get_total_time("a") ? 0 : 1;
}
''')

seed("c28-stale-jacobian", "C28",
     [("include/crocoddyl/core/actuation/actuation-squashing.hpp",
       "    data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;",
       "    data->dtau_du.noalias() =\n        d->actuation->dtau_du * d->squashing->du_ds.diagonal().asDiagonal();")],
     "a squashing function that mixes its inputs",
     "the control Jacobian ignores the off-diagonal terms of the squashing",
     ACT + r'''
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
struct Sq : SquashingModelAbstract {
  Sq() : SquashingModelAbstract(2) {}
  std::shared_ptr<SquashingModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<SquashingModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<SquashingDataAbstract>& d, const CR& s) override { d->u = Eigen::Vector2d(s[0] + s[1], s[1]); }
  void calcDiff(const std::shared_ptr<SquashingDataAbstract>& d, const CR&) override {
    d->du_ds.setIdentity();
    d->du_ds(0, 1) = 1;
  }
};
struct In : ActuationModelAbstract {
  In(std::shared_ptr<StateVector> s) : ActuationModelAbstract(s, 2) {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<ActuationDataAbstract>& d, const CR&, const CR& u) override { d->tau = u; }
  void calcDiff(const std::shared_ptr<ActuationDataAbstract>& d, const CR&, const CR&) override { d->dtau_du.setIdentity(); }
  void commands(const std::shared_ptr<ActuationDataAbstract>& d, const CR&, const CR& t) override { d->u = t; }
  void torqueTransform(const std::shared_ptr<ActuationDataAbstract>&, const CR&, const CR&) override {}
};
int main() {
  auto s = std::make_shared<StateVector>(4);
  ActuationSquashingModel m(std::make_shared<In>(s), std::make_shared<Sq>(), 2);
  auto d = m.createData();
  Vec x = Vec::Zero(4), u = Vec::Ones(2);
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  return std::abs(d->dtau_du(0, 1) - 1) < 1e-12 ? 0 : 1;
}
''')

seed("c02-kkt-cross", "C02",
     [("src/core/solvers/kkt.cpp",
       "    kkt_.block(ndx_ + iu, ix, nui, ndxi) = d->Lxu.transpose();",
       "    if (t == 0 || t + 1 < T) {\n      kkt_.block(ndx_ + iu, ix, nui, ndxi) = d->Lxu.transpose();\n    }")],
     "a horizon of two or more nodes whose cost couples state and control",
     "the KKT matrix misses the cost coupling of the last node, so the KKT solver's step does not reach the minimiser",
     ACT + r'''
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
int main() {
  Mat A = Mat::Identity(2, 2), B(2, 1), Q = Mat::Identity(2, 2), R = Mat::Identity(1, 1), N = Mat::Constant(2, 1, 0.4);
  B << 1, 0.5;
  auto m = std::make_shared<ActionModelLQR>(A, B, Q, R, N);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(3, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  SolverDDP d(p);
  d.solve(DEFAULT_VECTOR, DEFAULT_VECTOR, 20, false);
  SolverKKT k(p);
  std::vector<Vec> us(3, Vec(Vec::Ones(1))), xs = p->rollout_us(us);
  k.solve(xs, us, 1, true);
  return (k.get_us()[2] - d.get_us()[2]).norm() < 1e-5 ? 0 : 1;
}
''')

seed("c03-short-step", "C03",
     [("src/core/solvers/box-fddp.cpp",
       "      m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);\n      m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);\n      if (nu != 0) {\n        us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];\n        if (m->get_has_control_limits()) {  // clamp control",
       "      m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);\n      m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);\n      if (nu != 0) {\n        us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];\n        if (m->get_has_control_limits() && steplength > 0.5) {")],
     "a step of at most one half from an infeasible guess",
     "the controls of short multiple-shooting steps are not kept within the limits",
     ACT + r'''
#include "crocoddyl/core/solvers/box-fddp.hpp"
struct F : SolverBoxFDDP {
  using SolverBoxFDDP::SolverBoxFDDP;
  using SolverBoxFDDP::us_try_;
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1);
  m->set_u_lb(Vec::Constant(1, -0.05));
  m->set_u_ub(Vec::Constant(1, 0.05));
  std::vector<std::shared_ptr<ActionModelAbstract>> r(3, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  F f(p);
  std::vector<Vec> xs(4, Vec(Vec::Constant(2, 3.))), us(3, Vec(Vec::Zero(1)));
  f.setCandidate(xs, us, false);
  f.set_preg(1e-9);
  f.computeDirection(true);
  f.tryStep(0.5);
  for (auto& u : f.us_try_)
    if (std::abs(u[0]) > 0.05) return 1;
  return 0;
}
''')

seed("c04-just-feasible", "C04",
     [("src/core/solvers/ddp.cpp",
       "        if (std::abs(d_[0]) < th_grad_ || !is_feasible_ ||",
       "        if (std::abs(d_[0]) < th_grad_ || !was_feasible_ ||")],
     "the iteration that follows the one in which the trajectory became feasible rejects the full step",
     "a step that increases the cost is accepted from a feasible trajectory",
     ACT + r'''
#include "crocoddyl/core/solvers/ddp.hpp"
struct S : SolverDDP {
  using SolverDDP::SolverDDP;
  void computeDirection(bool) override {}
  double tryStep(double) override {
    xs_try_ = xs_;
    us_try_ = us_;
    cost_try_ = iter_ == 0 ? 5. : 6.;
    return iter_ == 0 ? 1. : -1.;
  }
  const Eigen::Vector2d& expectedImprovement() override {
    d_ << 1., -1.;
    return d_;
  }
  double stoppingCriteria() override { return stop_ = 1.; }
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  auto m = std::make_shared<Act>(s, 1);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  auto p = std::make_shared<ShootingProblem>(Vec(Vec::Ones(2)), r, m);
  S f(p);
  f.solve(DEFAULT_VECTOR, DEFAULT_VECTOR, 2, false);
  return f.get_cost() == 5. ? 0 : 1;
}
''')

seed("c14-model-scratch", "C14",
     [("include/crocoddyl/core/integrator/euler.hxx",
       "  control_->calc(d->control, Scalar(0.), u);\n  differential_->calc(d->differential, x, d->control->w);\n  const VectorXs& a = d->differential->xout;",
       "  control_->calc(d->control, Scalar(0.), u);\n  w_ = d->control->w;\n  differential_->calc(d->differential, x, w_);\n  const VectorXs& a = d->differential->xout;"),
      ("include/crocoddyl/core/integrator/euler.hpp",
       " protected:\n  using Base::control_;",
       " private:\n  VectorXs w_;\n\n protected:\n  using Base::control_;")],
     "two threads evaluate nodes that share one integrated model",
     "the control handed to the continuous model is kept in the shared model, so a node is evaluated with another node's control",
     r'''
#include <unistd.h>
#include <thread>
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
using namespace crocoddyl;
typedef Eigen::Ref<const Vec> CR;
struct Dam : DifferentialActionModelAbstract {
  Dam(std::shared_ptr<StateVector> s) : DifferentialActionModelAbstract(s, 1) {}
  std::shared_ptr<DifferentialActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<DifferentialActionModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<DifferentialActionDataAbstract>& d, const CR&, const CR& u) override {
    usleep(300000);
    d->xout = u;
    d->cost = 0;
  }
  void calc(const std::shared_ptr<DifferentialActionDataAbstract>& d, const CR&) override { d->cost = 0; }
  void calcDiff(const std::shared_ptr<DifferentialActionDataAbstract>&, const CR&, const CR&) override {}
  void calcDiff(const std::shared_ptr<DifferentialActionDataAbstract>&, const CR&) override {}
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  IntegratedActionModelEuler m(std::make_shared<Dam>(s), 1.);
  auto d1 = m.createData(), d2 = m.createData();
  const Vec x = Vec::Zero(2), u1 = Vec::Constant(1, 1.), u2 = Vec::Constant(1, 2.);
  std::thread t1([&] { m.calc(d1, x, u1); });
  std::thread t2([&] {
    usleep(100000);
    m.calc(d2, x, u2);
  });
  t1.join(), t2.join();
  return d1->xnext[1] == 1 && d2->xnext[1] == 2 ? 0 : 1;
}
''')

seed("c17-velocity-cross", "C17",
     [("include/crocoddyl/core/residual-base.hxx",
       "    cdata->Lxx.bottomRightCorner(nv, nv).noalias() =\n        Rv.transpose() * rdata->Arr_Rx.rightCols(nv);\n    if (is_ru) {",
       "    cdata->Lxx.bottomRightCorner(nv, nv).noalias() =\n        Rv.transpose() * rdata->Arr_Rx.rightCols(nv);\n    if (is_ru && nu_ <= nv) {")],
     "a residual of velocity and control but not of position, with more controls than velocities",
     "the mixed cost derivative of such residuals is missing",
     ACT + r'''
#include "crocoddyl/core/costs/residual.hpp"
struct Res : ResidualModelAbstract {
  Res(std::shared_ptr<StateVector> s) : ResidualModelAbstract(s, 1, 2, false, true, true) {}
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const CR& x, const CR& u) override { d->r[0] = x[1] + u.sum(); }
  void calcDiff(const std::shared_ptr<ResidualDataAbstract>& d, const CR&, const CR&) override {
    d->Rx(0, 1) = 1;
    d->Ru.setOnes();
  }
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  CostModelResidual c(s, std::make_shared<Res>(s));
  DataCollectorAbstract k;
  auto d = c.createData(&k);
  c.calc(d, Vec(Vec::Ones(2)), Vec(Vec::Ones(2)));
  c.calcDiff(d, Vec(Vec::Ones(2)), Vec(Vec::Ones(2)));
  return d->Lxu(1, 0) == 1 ? 0 : 1;
}
''')

seed("c18-shrinking-step", "C18",
     [("include/crocoddyl/core/integ-action-base.hxx",
       "  time_step_ = dt;\n  time_step2_ = dt * dt;",
       "  if (dt > time_step_) {\n    time_step2_ = dt * dt;\n  }\n  time_step_ = dt;")],
     "the step of an integrator is made smaller",
     "the position update of the semi-implicit Euler scheme keeps the square of the old step",
     ACT + r'''
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
int main() {
  auto m = std::make_shared<DifferentialActionModelLQR>(1, 1);
  IntegratedActionModelEuler e(m, 0.5), f(m, 0.1);
  e.set_dt(0.1);
  auto d = e.createData(), g = f.createData();
  Vec x = Vec::Ones(2), u = Vec::Ones(1);
  e.calc(d, x, u);
  f.calc(g, x, u);
  return (d->xnext - g->xnext).norm() < 1e-14 ? 0 : 1;
}
''')

seed("c22-barrier-stale", "C22",
     [("include/crocoddyl/core/activations/2norm-barrier.hpp",
       "      data->Ar.setZero();\n      data->Arr.setZero();",
       "      data->Ar.setZero();")],
     "the same data is differentiated within the barrier and then beyond it",
     "the Hessian beyond the barrier is the one left from within it",
     r'''
#include "crocoddyl/core/activations/2norm-barrier.hpp"
using namespace crocoddyl;
int main() {
  ActivationModel2NormBarrier m(2, 1.);
  auto d = m.createData();
  for (double k : {0.2, 3.}) {
    m.calc(d, Vec(Vec::Constant(2, k)));
    m.calcDiff(d, Vec(Vec::Constant(2, k)));
  }
  return d->Arr.diagonal().norm() == 0 ? 0 : 1;
}
''')

seed("c25-update-node", "C25",
     [("include/crocoddyl/core/optctrl/shooting.hxx",
       "    const std::size_t i, std::shared_ptr<ActionModelAbstract> model,\n    std::shared_ptr<ActionDataAbstract> data) {\n  if (i >= T_ + 1) {",
       "    const std::size_t i, std::shared_ptr<ActionModelAbstract> model,\n    std::shared_ptr<ActionDataAbstract> data) {\n  if (i > T_ + 1) {")],
     "the node just beyond the terminal one is updated",
     "the call is accepted and writes beyond the nodes",
     r'''
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
using namespace crocoddyl;
int main() {
  auto m = std::make_shared<ActionModelLQR>(2, 1);
  std::vector<std::shared_ptr<ActionModelAbstract>> r(2, m);
  ShootingProblem p(Vec(Vec::Ones(2)), r, m);
  auto d = m->createData();
  try {
    p.updateNode(3, m, d);
  } catch (std::exception& e) {
    return 0;
  }
  return 1;
}
''')

seed("c26-inactive-cost", "C26",
     [("include/crocoddyl/core/costs/cost-sum.hxx",
       "    ret.addCost(name, m_i.cost, m_i.weight, m_i.active);",
       "    ret.addCost(name, m_i.cost, m_i.weight, m_i.active || nu_ == 0);")],
     "a sum without controls that holds an inactive cost is cast",
     "the cost is active in the cast sum",
     ACT + r'''
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
template <class T>
struct R : ResidualModelAbstractTpl<T> {
  typedef ResidualModelAbstractTpl<T> Base;
  std::shared_ptr<StateVectorTpl<T>> s;
  R(std::shared_ptr<StateVectorTpl<T>> s) : Base(s, 1, 0, true, true, false), s(s) {}
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return std::make_shared<R<double>>(std::make_shared<StateVectorTpl<double>>(2)); }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return std::make_shared<R<float>>(std::make_shared<StateVectorTpl<float>>(2)); }
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  CostModelSum m(s, 0);
  m.addCost("a", std::make_shared<CostModelResidual>(s, std::make_shared<R<double>>(s)), 1., false);
  auto f = m.cast<float>();
  return f.get_active_set().empty() && !f.get_costs().at("a")->active ? 0 : 1;
}
''')

seed("c16-mixed-rows", "C16",
     [("include/crocoddyl/core/constraints/constraint-manager.hxx",
       "      data->Gu.block(ng_i, 0, ng, nu_) = d_i->Gu;\n      data->Hx.block(nh_i, 0, nh, ndx) = d_i->Hx;\n      data->Hu.block(nh_i, 0, nh, nu_) = d_i->Hu;\n      ng_i += ng;\n      nh_i += nh;",
       "      data->Gu.block(ng_i, 0, ng, nu_) = d_i->Gu;\n      data->Hx.block(nh_i, 0, nh, ndx) = d_i->Hx;\n      data->Hu.block(nh_i, 0, nh, nu_) = d_i->Hu;\n      if (ng != 0) {\n        ng_i += ng;\n      } else {\n        nh_i += nh;\n      }")],
     "a constraint with both inequality and equality rows is followed by another equality constraint",
     "the equality Jacobian rows of the first are overwritten by the second",
     ACT + r"""
#include "crocoddyl/core/constraints/constraint-manager.hpp"
struct Con : ConstraintModelAbstract {
  double v;
  Con(std::shared_ptr<StateVector> s, std::size_t ng, double v) : ConstraintModelAbstract(s, 1, ng, 1, true), v(v) {}
  std::shared_ptr<ConstraintModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ConstraintModelBase> cloneAsFloat() const override { return nullptr; }
  void calc(const std::shared_ptr<ConstraintDataAbstract>& d, const CR&, const CR&) override {}
  void calcDiff(const std::shared_ptr<ConstraintDataAbstract>& d, const CR&, const CR&) override {
    d->Gx.setConstant(v);
    d->Hx.setConstant(v);
    d->Hu.setConstant(v);
  }
};
int main() {
  auto s = std::make_shared<StateVector>(2);
  ConstraintModelManager m(s, 1);
  m.addConstraint("a", std::make_shared<Con>(s, 1, 1.));
  m.addConstraint("b", std::make_shared<Con>(s, 0, 2.));
  DataCollectorAbstract k;
  auto d = m.createData(&k);
  Vec x = Vec::Zero(2), u = Vec::Zero(1);
  m.calc(d, x, u);
  m.calcDiff(d, x, u);
  return d->Hx(0, 0) == 1. && d->Hx(1, 0) == 2. ? 0 : 1;
}
""")


seed("c31-cast-range", "C31",
     [("include/crocoddyl/multibody/friction-cone.hxx",
       "  ReturnType ret(R_.template cast<NewScalar>(), scalar_cast<NewScalar>(mu_),\n                 nf_, inner_appr_, scalar_cast<NewScalar>(min_nforce_),\n                 scalar_cast<NewScalar>(max_nforce_));",
       "  ReturnType ret(R_.template cast<NewScalar>(), scalar_cast<NewScalar>(mu_),\n                 nf_, inner_appr_);\n  ret.set_min_nforce(scalar_cast<NewScalar>(min_nforce_));\n  ret.set_max_nforce(scalar_cast<NewScalar>(max_nforce_));")],
     "a friction cone with limits on the normal force is cast and its inequalities are used without another update",
     "the cast cone's bounds ignore the normal-force limits its getters report",
     r'''
#include "crocoddyl/multibody/friction-cone.hpp"
using namespace crocoddyl;
int main() {
  FrictionCone k(Eigen::Matrix3d::Identity(), 0.7, 4, true, 1., 20.);
  FrictionCone c = k.cast<double>();
  return c.get_ub() == k.get_ub() && c.get_lb() == k.get_lb() && c.get_A() == k.get_A() ? 0 : 1;
}
''', mb=True)

seed("c32-jdiff-both", "C32",
     [("include/crocoddyl/multibody/states/multibody.hxx",
       "                           Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);\n    Jsecond.setZero();\n",
       "                           Jfirst.topLeftCorner(nv_, nv_), pinocchio::ARG0);\n    Jsecond.topRows(nv_).setZero();\n")],
     "both Jacobians of diff are requested at once into matrices that were used before",
     "old entries remain in the velocity rows of the second Jacobian",
     r'''
int main() {
  auto s = std::make_shared<crocoddyl::StateMultibody>(robot(true));
  const long n = s->get_ndx();
  const Vec x = point(s), y = point(s, 1);
  Mat A = Mat::Constant(n, n, 3.), B = Mat::Constant(n, n, 5.), B2 = Mat::Zero(n, n);
  s->Jdiff(x, y, A, B, crocoddyl::both);
  s->Jdiff(x, y, A, B2, crocoddyl::second);
  return (B - B2).norm() < 1e-12 ? 0 : 1;
}
''', mb=True)

seed("c33-world-drift", "C33",
     [("include/crocoddyl/multibody/contacts/contact-3d.hxx",
       "        d->a0_local += gains_[0] * d->dp_local;\n      }\n      if (gains_[1] != 0.) {",
       "        d->a0_local += gains_[0] * d->dp_local;\n      } else if (gains_[1] != 0.) {")],
     "a 3D contact in world axes with both stabilisation gains and a moving, rotating frame",
     "the derivative of the drift misses the rotation of the damping term",
     r'''
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
using namespace crocoddyl;
int main() {
  auto m = robot(true);
  auto s = std::make_shared<StateMultibody>(m);
  ContactModel3D k(s, m->getFrameId("tip"), V3(0.1, 0.2, 0.3), pin::LOCAL_WORLD_ALIGNED, 3, Eigen::Vector2d(3., 2.));
  const Vec a = Vec::LinSpaced(m->nv, -1, 1);
  auto eval = [&](const Vec& x, bool diff) {
    pin::Data d(*m);
    auto c = k.createData(&d);
    pin::computeForwardKinematicsDerivatives(*m, d, x.head(m->nq), x.tail(m->nv), a);
    pin::computeJointJacobians(*m, d);
    k.calc(c, x);
    if (diff) k.calcDiff(c, x);
    Mat o(3, 1 + s->get_ndx());
    o << c->a0, c->da0_dx;
    return o;
  };
  const Vec x = point(s);
  const Mat J = differences(s, x, [&](const Vec& y) { return Vec(eval(y, false).col(0)); });
  const Mat got = eval(x, true).rightCols(s->get_ndx());
  return (J - got).norm() < 1e-4 * J.norm() ? 0 : 1;
}
''', mb=True)

seed("c34-armature-drift", "C34",
     [("include/crocoddyl/multibody/actions/free-fwddyn.hxx",
       "    pinocchio::computeRNEADerivatives(*pinocchio_, d->pinocchio, q, v, d->xout);\n    d->dtau_dx",
       "    pinocchio::computeRNEADerivatives(*pinocchio_, d->pinocchio, q, v,\n                                      d->multibody.joint->a);\n    d->dtau_dx"),
      ("include/crocoddyl/multibody/actions/free-fwddyn.hxx",
       "    d->xout.noalias() = d->Minv * d->u_drift;\n  }\n  d->multibody.joint->a = d->xout;",
       "    d->xout.noalias() = d->Minv * d->u_drift;\n  }\n  if (without_armature_ || d->multibody.joint->a.isZero(Scalar(0.))) {\n    d->multibody.joint->a = d->xout;\n  }")],
     "an armature is set and the same data are evaluated at two points",
     "the derivatives are taken at the acceleration of the first point",
     r'''
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
using namespace crocoddyl;
int main() {
  auto m = robot(false);
  auto s = std::make_shared<StateMultibody>(m);
  auto act = std::make_shared<ActuationModelFull>(s);
  DifferentialActionModelFreeFwdDynamics k(s, act, std::make_shared<CostModelSum>(s, m->nv));
  k.set_armature(Vec::Constant(m->nv, 0.3));
  const Vec u = Vec::LinSpaced(m->nv, -2, 3);
  auto d = k.createData(), e = k.createData();
  k.calc(d, point(s), u);
  k.calcDiff(d, point(s), u);
  k.calc(d, point(s, 1), u);
  k.calcDiff(d, point(s, 1), u);
  k.calc(e, point(s, 1), u);
  k.calcDiff(e, point(s, 1), u);
  return (d->Fx - e->Fx).norm() < 1e-12 ? 0 : 1;
}
''', mb=True)

seed("c35-cone-terminal", "C35",
     [("include/crocoddyl/multibody/residuals/contact-friction-cone.hxx",
       "    const Eigen::Ref<const VectorXs>&) {\n  data->Rx.setZero();\n}",
       "    const Eigen::Ref<const VectorXs>&) {\n  data->Rx.leftCols(state_->get_nv()).setZero();\n}")],
     "a model with a friction-cone cost is evaluated as a terminal node on data that were used for a running node",
     "the velocity columns of the residual's Jacobian are those of the running evaluation",
     r'''
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/multibody/actions/contact-fwddyn.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/residuals/contact-friction-cone.hpp"
using namespace crocoddyl;
int main() {
  auto m = robot(false);
  auto s = std::make_shared<StateMultibody>(m);
  auto act = std::make_shared<ActuationModelFull>(s);
  auto cs = std::make_shared<ContactModelMultiple>(s, m->nv);
  cs->addContact("tip", std::make_shared<ContactModel3D>(s, m->getFrameId("tip"), V3::Zero(), pin::LOCAL, m->nv));
  auto sum = std::make_shared<CostModelSum>(s, m->nv);
  FrictionCone cone(Eigen::Matrix3d::Identity(), 0.7, 4);
  sum->addCost("cone", std::make_shared<CostModelResidual>(s, std::make_shared<ResidualModelContactFrictionCone>(s, m->getFrameId("tip"), cone, m->nv)), 1.);
  DifferentialActionModelContactFwdDynamics k(s, act, cs, sum, 0., true);
  const Vec x = point(s), u = Vec::LinSpaced(m->nv, -2, 3);
  auto d = k.createData(), e = k.createData();
  k.calc(d, x, u);
  k.calcDiff(d, x, u);
  for (auto q : {d, e}) {
    k.calc(q, x);
    k.calcDiff(q, x);
  }
  return (d->Lxx - e->Lxx).norm() < 1e-12 && (d->Lx - e->Lx).norm() < 1e-12 ? 0 : 1;
}
''', mb=True)

seed("c36-drag-axis", "C36",
     [("include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp",
       "          W_thrust_.template middleRows<3>(3).col(i) -= p.ctorque * f_z;",
       "          W_thrust_.template middleRows<3>(3).col(i)(2) -= p.ctorque * f_z(2);")],
     "a counter-clockwise thruster that is tilted",
     "the drag torque acts about the base's vertical axis only",
     r'''
#include "crocoddyl/multibody/actuations/floating-base-thrusters.hpp"
using namespace crocoddyl;
typedef ThrusterTpl<double> Jet;
int main() {
  auto s = std::make_shared<StateMultibody>(robot(true));
  std::vector<Jet> jets = {Jet(at(0.3, 0, 0, 0.4, 0.2, 0.1), 0.1, CCW), Jet(at(-0.3, 0, 0, -0.4, 0.2, 0.1), 0.1, CW)};
  ActuationModelFloatingBaseThrustersTpl<double> m(s, jets);
  auto d = m.createData();
  const Vec u = Vec::LinSpaced(m.get_nu(), 1, 2);
  m.calc(d, point(s), u);
  V3 f = V3::Zero(), t = V3::Zero();
  for (int i = 0; i < 2; ++i) {
    const V3 z = jets[i].pose.rotation().col(2) * u[i];
    f += z;
    t += jets[i].pose.translation().cross(z) + (i ? 1. : -1.) * 0.1 * z;
  }
  return (d->tau.head(3) - f).norm() < 1e-12 && (d->tau.segment(3, 3) - t).norm() < 1e-12 ? 0 : 1;
}
''', mb=True)
