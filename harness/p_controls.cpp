// C20: control parametrisations against Lagrange interpolation through their documented nodes.
#include "models.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
using namespace crocoddyl;
typedef std::shared_ptr<ControlParametrizationModelAbstract> ModelP;
typedef std::shared_ptr<ControlParametrizationDataAbstract> DataP;

struct Kind {
  const char* name;
  std::vector<double> nodes;
};
static const Kind K[] = {{"zero", {0.}}, {"one", {0., 0.5}}, {"two-RK3", {0., 1. / 3, 2. / 3}}, {"two-RK4", {0., 0.5, 1.}}};
static ModelP make(int k, long nw) {
  switch (k) {
    case 0: return std::make_shared<ControlParametrizationModelPolyZero>(nw);
    case 1: return std::make_shared<ControlParametrizationModelPolyOne>(nw);
    case 2: return std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::three);
    default: return std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::four);
  }
}
static double lagrange(const std::vector<double>& n, size_t i, double t) {
  double v = 1;
  for (size_t j = 0; j < n.size(); ++j)
    if (j != i) v *= (t - n[j]) / (n[i] - n[j]);
  return v;
}
static Mat jacobian(const Kind& k, long nw, double t) {
  Mat J = Mat::Zero(nw, nw * k.nodes.size());
  for (size_t i = 0; i < k.nodes.size(); ++i) J.middleCols(i * nw, nw).diagonal().setConstant(lagrange(k.nodes, i, t));
  return J;
}
static const double T[] = {0., 0.25, 1. / 3, 0.5, 2. / 3, 0.8, 1.};
static const AssignmentOp OP[] = {setto, addto, rmfrom};
static Mat mode(const Mat& b, const Mat& J, AssignmentOp op) { return op == setto ? J : op == addto ? Mat(b + J) : Mat(b - J); }

// operation histories over two data objects of one model
static void histories(mc::Ctx& c) {
  const int k = c.choose(4, "parametrisation");
  const long nw = 1 + c.choose(c.thorough ? 3 : 2, "nw"), nu = nw * K[k].nodes.size();
  ModelP m = make(k, nw);
  c.check((long)m->get_nw() == nw && (long)m->get_nu() == nu, "dimensions", "wrong dimensions");
  DataP d[2] = {m->createData(), m->createData()};
  double t[2] = {-1, -1};
  const size_t depth = c.thorough ? 4 : 3;
  Gen g(k);
  const Vec U[2] = {g.vec(nu), Vec(3 * g.vec(nu))};
  for (size_t s = 0; s < depth; ++s) {
    const int i = c.choose(2, "data");
    const size_t o = t[i] < 0 ? c.choose(2, "operation") : c.choose(4, "operation");
    if (o == 0) {
      t[i] = T[c.choose(7, "time")];
      const Vec& u = U[c.choose(2, "parameters")];
      c.op("%s nw=%ld: data %d at t=%g", K[k].name, nw, i, t[i]);
      m->calc(d[i], t[i], u);
      const Mat J = jacobian(K[k], nw, t[i]);
      c.check(close(d[i]->w, Vec(J * u), 1e-12), "value", "control " + show(d[i]->w) + ", expected " + show(Vec(J * u)));
      for (size_t j = 0; j < K[k].nodes.size(); ++j)
        if (t[i] == K[k].nodes[j]) c.check(close(d[i]->w, Vec(u.segment(j * nw, nw)), 1e-12), "node-value", "the control at a node is not its parameter");
      m->calcDiff(d[i], t[i], u);
      c.check(close(d[i]->dw_du, J, 1e-12), "jacobian", "Jacobian " + show(d[i]->dw_du) + ", expected " + show(J));
    } else if (o == 1) {
      const double tt = T[c.choose(7, "time")];
      const Vec w = Gen(9).vec(nw);
      c.op("parameters from a control");
      m->params(d[i], tt, w);
      DataP q = m->createData();
      m->calc(q, tt, d[i]->u);
      c.check(close(q->w, w, 1e-12), "params", mc::strf("the parameters recovered at t=%g do not reproduce the control", tt));
    } else {
      const AssignmentOp op = OP[c.choose(3, "operator")];
      const long n = c.choose(3, "rows");
      const Mat J = jacobian(K[k], nw, t[i]);
      c.op("product %d with data %d, assignment %d", (int)o, i, (int)op);
      if (o == 2) {
        Mat A = Gen(1).mat(n, nw), out = Gen(2).mat(n, nu), ref = mode(out, A * J, op);
        m->multiplyByJacobian(d[i], A, out, op);
        c.check(close(out, ref, 1e-12), "A*J", mc::strf("assignment %d: ", (int)op) + show(out) + " expected " + show(ref));
        c.check(close(m->multiplyByJacobian_J(d[i], A, op), mode(Mat::Zero(n, nu), A * J, op), 1e-12), "A*J-wrapper", "multiplyByJacobian_J differs");
        c.check(throws([&] { m->multiplyByJacobian(d[i], Mat::Zero(n, nw + 1), out, op); }) && throws([&] { m->multiplyByJacobian(d[i], Mat::Zero(n + 1, nw), out, op); }),
                "A*J-size", "a matrix of wrong size was accepted");
      } else {
        Mat A = Gen(3).mat(nw, n), out = Gen(4).mat(nu, n), ref = mode(out, J.transpose() * A, op);
        m->multiplyJacobianTransposeBy(d[i], A, out, op);
        c.check(close(out, ref, 1e-12), "JT*A", mc::strf("assignment %d: ", (int)op) + show(out) + " expected " + show(ref));
        c.check(close(m->multiplyJacobianTransposeBy_J(d[i], A, op), mode(Mat::Zero(nu, n), J.transpose() * A, op), 1e-12), "JT*A-wrapper", "multiplyJacobianTransposeBy_J differs");
        c.check(throws([&] { m->multiplyJacobianTransposeBy(d[i], Mat::Zero(nw + 1, n), out, op); }) && throws([&] { m->multiplyJacobianTransposeBy(d[i], Mat::Zero(nw, n + 1), out, op); }),
                "JT*A-size", "a matrix of wrong size was accepted");
      }
    }
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(k, d[0]->w), d[1]->w), d[i]->u));
  }
  c.outcome(K[k].name);
}

// parameter bounds keep the control within its bounds at the nodes, and exclude nothing more than necessary
static void bounds(mc::Ctx& c) {
  const int k = c.choose(4, "parametrisation");
  const long nw = 1 + c.choose(2, "nw"), nn = K[k].nodes.size(), nu = nw * nn;
  ModelP m = make(k, nw);
  Vec lb(nw), ub(nw), ul = Vec::Constant(nu, 7), uu = Vec::Constant(nu, -7);
  for (long i = 0; i < nw; ++i) lb[i] = c.pick({-1., -INF, 0.25}, "lb"), ub[i] = c.pick({2., INF, 0.25}, "ub");
  m->convertBounds(lb, ub, ul, uu);
  c.op("%s bounds %s %s", K[k].name, show(lb).c_str(), show(ub).c_str());
  DataP d = m->createData();
  // every vertex of the (clipped) parameter box
  Vec u(nu);
  for (long i = 0; i < nu; ++i) u[i] = c.flip("vertex") ? std::max(ul[i], -50.) : std::min(uu[i], 50.);
  for (long j = 0; j < nn; ++j) {
    m->calc(d, K[k].nodes[j], u);
    for (long i = 0; i < nw; ++i)
      c.check(d->w[i] >= lb[i] - 1e-9 && d->w[i] <= ub[i] + 1e-9, "outside", mc::strf("parameters within their bounds give a control %g outside [%g, %g] at t=%g", d->w[i], lb[i], ub[i], K[k].nodes[j]));
    c.check(same(ul.segment(j * nw, nw), lb) && same(uu.segment(j * nw, nw), ub), "tight", "the parameter bounds are not the control bounds at a node");
  }
  for (int a = 0; a < 4; ++a)
    for (int s = -1; s < 2; s += 2) {
      Vec l2 = Vec::Zero(nw + (a == 0) * s), u2 = Vec::Zero(nw + (a == 1) * s), a2 = Vec::Constant(nu + (a == 2) * s, 3), b2 = Vec::Constant(nu + (a == 3) * s, 4), a3 = a2, b3 = b2;
      c.check(throws([&] { m->convertBounds(l2, u2, a2, b2); }) && same(a2, a3) && same(b2, b3), "bounds-size", mc::strf("argument %d of wrong size was accepted", a));
    }
  for (int s = -1; s < 2; s += 2)
    c.check(throws([&] { m->calc(d, 0.5, Vec::Zero(nu + s)); }) && throws([&] { m->params(d, 0.5, Vec::Zero(nw + s)); }), "wrong-size", "a vector of wrong size was accepted");
  c.state(mc::hash_mat(mc::hash_mat(k, ul), uu));
  c.outcome(K[k].name);
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("histories", histories);
  e.add("bounds", bounds);
  return e.main(argc, argv);
}
