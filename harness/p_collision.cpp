// C29: the pair-collision residual.  hpp-fcl and pinocchio's geometry module are absent: the stand-in below has
// capsules (spheres among them) on joints or in the world, places them and computes nearest points; the oracle
// minimises the distance on its own.
#define CROCODDYL_WITH_PAIR_COLLISION
#define PINOCCHIO_WITH_HPP_FCL
#include "dyn.hpp"
namespace pinocchio {
struct CollisionPair {
  GeomIndex first, second;
};
struct GeometryObject {
  std::string name;
  JointIndex parentJoint;
  SE3 placement;
  double radius, half;  // a capsule around the segment of half-length `half` along its z axis
};
struct GeometryModel {
  std::vector<GeometryObject> geometryObjects;
  std::vector<CollisionPair> collisionPairs;
};
struct DistanceResult {
  double min_distance;
  Eigen::Vector3d nearest_points[2];
};
struct GeometryData {
  std::vector<SE3> oMg;
  std::vector<DistanceResult> distanceResults;
  explicit GeometryData(const GeometryModel& m) : oMg(m.geometryObjects.size()), distanceResults(m.collisionPairs.size()) {}
};
static int placed = 0;
template <class S, class Q>
void updateGeometryPlacements(const ModelTpl<S>& m, DataTpl<S>& d, const GeometryModel& gm, GeometryData& gd, const Eigen::MatrixBase<Q>& q) {
  const VX<S> q_ = q;
  const auto k = mini::real<S>(m, q_, mini::none(m), mini::none(m));
  d.q_kin = q_;
  for (int i = 0; i < m.njoints; ++i) d.oMi[i] = k.oMi[i], d.liMi[i] = k.liMi[i];
  for (std::size_t i = 0; i < gm.geometryObjects.size(); ++i) gd.oMg[i] = d.oMi[gm.geometryObjects[i].parentJoint].template cast<double>() * gm.geometryObjects[i].placement;
  ++placed;
}
// nearest points of two segments (clamped), then of the capsules
inline DistanceResult& computeDistance(const GeometryModel& gm, GeometryData& gd, PairIndex p) {
  const auto& a = gm.geometryObjects[gm.collisionPairs.at(p).first];
  const auto& b = gm.geometryObjects[gm.collisionPairs.at(p).second];
  const SE3 &A = gd.oMg[gm.collisionPairs[p].first], &B = gd.oMg[gm.collisionPairs[p].second];
  const Eigen::Vector3d u = A.R.col(2) * a.half, v = B.R.col(2) * b.half, w = A.p - B.p;
  const double uu = u.dot(u), vv = v.dot(v), uv = u.dot(v), uw = u.dot(w), vw = v.dot(w), D = uu * vv - uv * uv;
  auto cl = [](double t) { return std::max(-1., std::min(1., t)); };
  double s = D > 1e-12 ? cl((uv * vw - vv * uw) / D) : 0., t = vv > 0 ? cl((uv * s + vw) / vv) : 0.;
  s = uu > 0 ? cl((uv * t - uw) / uu) : 0.;
  t = vv > 0 ? cl((uv * s + vw) / vv) : 0.;
  const Eigen::Vector3d x = A.p + s * u, y = B.p + t * v, n = (y - x).normalized();
  auto& r = gd.distanceResults.at(p);
  r.nearest_points[0] = x + a.radius * n;
  r.nearest_points[1] = y - b.radius * n;
  r.min_distance = (y - x).norm() - a.radius - b.radius;
  return r;
}
}  // namespace pinocchio
#include "crocoddyl/multibody/residuals/pair-collision.hpp"
using namespace crocoddyl;
typedef std::shared_ptr<DifferentialActionDataAbstract> Dat;

static std::shared_ptr<CostDataSum> costsIn(const Dyn& d, const Dat& t) {
  switch (d.kind) {
    case FREE_FWD: return std::static_pointer_cast<DifferentialActionDataFreeFwdDynamics>(t)->costs;
    case CONTACT_FWD: return std::static_pointer_cast<DifferentialActionDataContactFwdDynamics>(t)->costs;
    case FREE_INV: return std::static_pointer_cast<DifferentialActionDataFreeInvDynamics>(t)->costs;
    default: return std::static_pointer_cast<DifferentialActionDataContactInvDynamics>(t)->costs;
  }
}
struct Scene {
  std::shared_ptr<pin::GeometryModel> g;
  std::vector<pin::JointIndex> joint;  // of the first object, per pair
};
static const char* PAIR[] = {"tip sphere - world capsule", "tip capsule - world sphere", "middle capsule - world capsule", "tip capsule - base sphere", "middle sphere - tip sphere"};
static Scene scene(const Robot& r) {
  Scene s;
  s.g = std::make_shared<pin::GeometryModel>();
  const pin::JointIndex tip = r.model->frames[r.frames[2]].parentJoint, base = 1;
  const pin::JointIndex mid = r.model->parents[tip] ? r.model->parents[tip] : 1;
  auto add = [&](const char* n, pin::JointIndex j, const pin::SE3& M, double rad, double half) { s.g->geometryObjects.push_back(pin::GeometryObject{n, j, M, rad, half}); return s.g->geometryObjects.size() - 1; };
  const auto wc = add("world capsule", 0, at(2.1, 1.7, 1.3, 0.4, 0.9, 0.3), 0.1, 0.5), ws = add("world sphere", 0, at(-1.9, 2.2, -1.6), 0.2, 0.);
  const auto ts = add("tip sphere", tip, at(0.1, 0.05, -0.2), 0.04, 0.), tc = add("tip capsule", tip, at(0.2, -0.1, 0.15, 0.6, -0.4, 0.2), 0.03, 0.12);
  const auto mc = add("middle capsule", mid, at(-0.1, 0.2, 0.1, 0.2, 0.7, 0.1), 0.05, 0.2), ms = add("middle sphere", mid, at(-0.9, 0.8, 0.7), 0.02, 0.), bs = add("base sphere", base, at(-1.5, -0.9, 0.6), 0.02, 0.);
  s.g->collisionPairs = {{ts, wc}, {tc, ws}, {mc, wc}, {tc, bs}, {ms, ts}};
  s.joint = {tip, tip, mid, tip, mid};
  return s;
}
struct Near {
  V3 a, b;
};
// alternating projections onto the two segments, then out to the surfaces
static Near nearest(const Robot& r, const Scene& s, int p, const Vec& x) {
  const long nq = r.model->nq, nv = r.model->nv;
  const auto k = pin::kin<double, double>(*r.model, Vec(x.head(nq)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv)));
  const auto &A = s.g->geometryObjects[s.g->collisionPairs[p].first], &B = s.g->geometryObjects[s.g->collisionPairs[p].second];
  const pin::SE3 MA = k.oMi[A.parentJoint] * A.placement, MB = k.oMi[B.parentJoint] * B.placement;
  V3 a = MA.p, b = MB.p;
  auto onto = [](const pin::SE3& M, double half, const V3& y) { return V3(M.p + M.R.col(2) * std::max(-half, std::min(half, M.R.col(2).dot(y - M.p)))); };
  for (int i = 0; i < 4000; ++i) {
    const V3 n = onto(MA, A.half, b);
    b = onto(MB, B.half, n);
    if ((n - a).norm() < 1e-15 && i > 3) break;
    a = n;
  }
  const V3 n = (b - a) / (b - a).norm();
  return {V3(a + A.radius * n), V3(b - B.radius * n)};
}
// the Jacobian of a world point carried by a joint
static Mat carried(const Robot& r, pin::JointIndex j, const V3& w, const Vec& x) {
  auto pose = [&](const Vec& y) {
    const long nq = r.model->nq, nv = r.model->nv;
    return pin::SE3(pin::kin<double, double>(*r.model, Vec(y.head(nq)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv))).oMi[j]);
  };
  const pin::SE3 M = pose(x);
  const V3 local = M.R.transpose() * (w - M.p);
  return diff_x(r.state, x, [&](const Vec& y) { const pin::SE3 N = pose(y); return Vec(N.R * local + N.p); });
}
static void judge(mc::Ctx& c, const char* when, const Dyn& d, const Scene& s, int p, const Vec& x, const std::shared_ptr<CostDataSum>& costs, bool derivs) {
  const auto& k = *costs->costs.at("col");
  const auto& f = *k.residual;
  const Near n = nearest(d.r, s, p, x);
  const V3 r = n.a - n.b;
  c.check(f.r.size() == 3 && close(f.r, Vec(r), 1e-8), "residual", mc::strf("%s: %s: ", when, PAIR[p]) + show(f.r) + ", the nearest points differ by " + show(Vec(r)));
  c.check(closes(k.cost, 0.5 * r.squaredNorm(), 1e-8), "cost", mc::strf("%s: %s: cost %g, not half the squared residual", when, PAIR[p], k.cost));
  if (!derivs) return;
  const Mat J = carried(d.r, s.joint[p], n.a, x);
  c.check(close(f.Rx, J, 1e-7), "jacobian", mc::strf("%s: %s: Rx is\n", when, PAIR[p]) + show(f.Rx) + "\nthe Jacobian of the first geometry's point is\n" + show(J));
  c.check(f.Ru.size() == 0 || f.Ru.isZero(0), "Ru", "depends on the control");
  c.check(close(k.Lx, Mat(J.transpose() * r), 1e-6) && close(k.Lxx, Mat(J.transpose() * J), 1e-6), "cost-derivatives", mc::strf("%s: %s: the cost's derivatives are not those of half the squared residual", when, PAIR[p]));
  if (s.g->geometryObjects[s.g->collisionPairs[p].second].parentJoint == 0) {
    // nothing else moves: half the squared distance has exactly the gradient r'Rx
    const Mat g = diff_x(d.r.state, x, [&](const Vec& y) { const Near m = nearest(d.r, s, p, y); return Vec(Vec::Constant(1, 0.5 * (m.a - m.b).squaredNorm())); });
    c.check(close(Mat(k.Lx.transpose()), g, 1e-5), "gradient", mc::strf("%s: %s: gradient ", when, PAIR[p]) + show(k.Lx) + ", that of the squared distance is " + show(Mat(g)));
  }
}
static void explore(mc::Ctx& c) {
  const Kind kind = (Kind)c.choose(4, "dynamics");
  const int ir = c.choose(3, "robot");
  if (kind == CONTACT_INV && ir == 2) c.prune();
  Dyn d = dyn(kind, ir, 0, false, kind == CONTACT_FWD || kind == CONTACT_INV, 0., false);
  const Scene s = scene(d.r);
  const int p = c.choose(5, "pair"), how = c.choose(5, "model");
  const int other = (p + 1 + c.choose(2, "other pair")) % 5;
  static const char* HOW[] = {"made", "moved to the pair", "refused another pair", "cast", "copied"};
  typedef ResidualModelPairCollision Res;
  std::shared_ptr<Res> m = std::make_shared<Res>(d.r.state, d.nu, s.g, p, s.joint[p]);
  if (how == 1) {  // (the joint stays: only pairs of the same one)
    if (s.joint[other] != s.joint[p]) c.prune();
    m = std::make_shared<Res>(d.r.state, d.nu, s.g, other, s.joint[other]);
    m->set_pair_id(p);
  }
  if (how == 2) c.check(throws([&] { m->set_pair_id(5); }), "set-pair", "a pair that does not exist was accepted");
  if (how == 3) m = std::make_shared<Res>(m->cast<double>());
  if (how == 4) m = std::static_pointer_cast<Res>(m->cloneAsDouble());
  c.check((long)m->get_pair_id() == p && m->get_nr() == 3 && (long)m->get_nu() == d.nu, "getters", "wrong pair or dimensions");
  c.check(&m->get_geometry() == s.g.get(), "getters", "another geometry model");
  d.costs->addCost("col", std::make_shared<CostModelResidual>(d.r.state, m), 0.8);
  // other residuals on the same data must not disturb it, nor it them
  std::vector<Dat> data{d.m->createData(), d.m->createData()};
  const bool terminal_first = c.flip("terminal first");
  const int i = c.choose(c.thorough ? 6 : 3, "point"), j = (i + 1) % 3;
  c.op("%s %s %s (%s)", KIND[kind], d.r.name, PAIR[p], HOW[how]);
  const Vec x = mbpoint(d.r, i), y = mbpoint(d.r, j), u = Gen(300 + i).vec(d.nu), w = Gen(301 + i).vec(d.nu);
  if (!d.fwd() && d.costs->get_costs().count("tau")) d.costs->changeCostStatus("tau", false);
  if (terminal_first) {
    d.m->calc(data[0], y), d.m->calcDiff(data[0], y);
    judge(c, "terminal", d, s, p, y, costsIn(d, data[0]), true);
  }
  d.m->calc(data[0], x, u);
  judge(c, "running", d, s, p, x, costsIn(d, data[0]), false);
  d.m->calc(data[1], y, w);  // the model is shared
  d.m->calcDiff(data[0], x, u);
  judge(c, "running", d, s, p, x, costsIn(d, data[0]), true);
  d.m->calcDiff(data[1], y, w);
  judge(c, "second data", d, s, p, y, costsIn(d, data[1]), true);
  judge(c, "running, after the second data", d, s, p, x, costsIn(d, data[0]), true);
  d.m->calc(data[0], y), d.m->calcDiff(data[0], y);
  judge(c, "terminal", d, s, p, y, costsIn(d, data[0]), true);
  d.m->calc(data[0], x, w), d.m->calcDiff(data[0], x, w);
  judge(c, "running again", d, s, p, x, costsIn(d, data[0]), true);
  // without it, the rest is as before
  Dyn e = dyn(kind, ir, 0, false, kind == CONTACT_FWD || kind == CONTACT_INV, 0., false);
  if (!e.fwd() && e.costs->get_costs().count("tau")) e.costs->changeCostStatus("tau", false);
  const Dat t = e.m->createData();
  e.m->calc(t, x, w), e.m->calcDiff(t, x, w);
  const auto& k = *costsIn(d, data[0])->costs.at("col");
  c.check(closes(data[0]->cost, t->cost + 0.8 * k.cost, 1e-9) && close(data[0]->xout, t->xout, 1e-9) && close(data[0]->Fx, t->Fx, 1e-8) && close(data[0]->Lx, Mat(t->Lx + 0.8 * k.Lx), 1e-8) && close(data[0]->Lu, t->Lu, 1e-8),
          "alone", "the rest of the model is not what it is without the collision cost");
  c.state(mc::hash_mat(mc::hash_mat(p * 8 + kind, Mat(k.residual->Rx)), k.residual->r));
  c.outcome(PAIR[p]);
}
static void refusals(mc::Ctx& c) {
  const Robot r = robot(c.choose(3, "robot"));
  const Scene s = scene(r);
  const int p = c.choose(7, "pair"), j = c.choose(r.model->njoints + 2, "joint");
  const bool bad = p >= 5 || j >= r.model->njoints;
  c.op("pair %d joint %d", p, j);
  bool ok = true;
  std::shared_ptr<ResidualModelPairCollision> m;
  try {
    m = std::make_shared<ResidualModelPairCollision>(r.state, 4, s.g, p, j);
  } catch (const std::exception&) {
    ok = false;
  }
  c.check(ok == !bad, "refusal", mc::strf("pair %d joint %d was %s", p, j, ok ? "accepted" : "refused"));
  if (!ok) return;
  DataCollectorAbstract none;
  c.check(throws([&] { m->createData(&none); }), "data", "data without a robot's were accepted");
  for (int q = 0; q < 7; ++q) {
    const bool t = throws([&] { m->set_pair_id(q); });
    c.check(t == (q >= 5), "set-pair", mc::strf("pair %d was %s", q, t ? "refused" : "accepted"));
    if (q < 5) c.check((int)m->get_pair_id() == q, "set-pair", "another pair");
    else c.check((int)m->get_pair_id() == 4, "set-pair", "a refused pair was kept");
  }
}
static void casts(mc::Ctx& c) {
  typedef ResidualModelPairCollision Res;
  const Kind kind = (Kind)c.choose(2, "dynamics");
  Dyn d = dyn(kind, c.choose(3, "robot"), 0, false, kind == CONTACT_FWD, 0., false);
  const Scene s = scene(d.r);
  const int p = c.choose(5, "pair"), how = c.choose(3, "model");
  auto a = std::make_shared<Res>(d.r.state, d.nu, s.g, p, s.joint[p]);
  auto b = how == 0 ? std::make_shared<Res>(a->cast<double>()) : how == 1 ? std::static_pointer_cast<Res>(a->cloneAsDouble()) : std::make_shared<Res>(a->cast<double>().cast<double>());
  c.op("%s %s %s (%d)", KIND[kind], d.r.name, PAIR[p], how);
  c.check(b->get_pair_id() == a->get_pair_id() && b->get_nr() == a->get_nr() && b->get_nu() == a->get_nu() && b->get_q_dependent() == a->get_q_dependent() && b->get_v_dependent() == a->get_v_dependent() && b->get_u_dependent() == a->get_u_dependent(), "cast-dimensions", "a cast has another pair, dimensions or dependencies");
  d.costs->addCost("a", std::make_shared<CostModelResidual>(d.r.state, a), 0.8), d.costs->addCost("b", std::make_shared<CostModelResidual>(d.r.state, b), 0.8);
  auto t = d.m->createData();
  for (int i = 0; i < 2; ++i) {
    const Vec x = mbpoint(d.r, i), u = Gen(300 + i).vec(d.nu);
    d.m->calc(t, x, u), d.m->calcDiff(t, x, u);
    const auto &ra = *costsIn(d, t)->costs.at("a")->residual, &rb = *costsIn(d, t)->costs.at("b")->residual;
    c.check(close(ra.r, rb.r, 1e-12) && close(ra.Rx, rb.Rx, 1e-12), "cast-values", mc::strf("%s: a cast gives ", PAIR[p]) + show(rb.r) + " instead of " + show(ra.r));
    c.state(mc::hash_mat(mc::hash_mat(p * 8 + kind, Mat(ra.Rx)), ra.r));
  }
  b->set_pair_id((p + 1) % 5);
  c.check((int)a->get_pair_id() == p && (int)b->get_pair_id() == (p + 1) % 5, "cast-edit", "a cast shares its pair with the model it was cast from");
  c.outcome(PAIR[p]);
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("pairs", explore);
  e.add("refusals", refusals);
  e.add("casts", casts);
  return e.main(argc, argv);
}
