// C31: friction cones, wrench cones and support polygons.  Every listed rotation, friction coefficient, box, number
// of facets and force range is compared with an independent description of the set (corner forces for wrenches, the
// regular polygon for forces) on a grid of forces and wrenches; edit histories must leave the object like a new one.
#include "util.hpp"
#include "crocoddyl/multibody/cop-support.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
#include "crocoddyl/multibody/wrench-cone.hpp"
using namespace crocoddyl;
typedef Eigen::Matrix3d R3;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3d;

static R3 rot(int i) {
  using Eigen::AngleAxisd;
  switch (i) {
    case 0: return R3::Identity();
    case 1: return AngleAxisd(0.4, V3d::UnitX()).toRotationMatrix();
    case 2: return (AngleAxisd(-0.7, V3d::UnitZ()) * AngleAxisd(0.3, V3d::UnitY())).toRotationMatrix();
    case 3: return AngleAxisd(M_PI / 2, V3d::UnitY()).toRotationMatrix();
    default: return AngleAxisd(2.2, V3d(1, 2, 3).normalized()).toRotationMatrix();
  }
}
static const double MUS[] = {0., 0.3, 0.7, 1.5};
static const int NFS[] = {4, 6, 8, 12};
struct Range {
  double lo, hi;
};
static const Range RANGES[] = {{0., INF}, {1., 4.}, {0., 2.5}};

// rows of "A f within [lb, ub]" hold; `slack` is how far from the boundary the caller keeps
template <class A, class B, class F>
static bool inside(const A& m, const B& lb, const B& ub, const F& f, double eps) {
  for (long i = 0; i < m.rows(); ++i) {
    const double v = m.row(i).dot(f);
    if (!(v <= ub[i] + eps && v >= lb[i] - eps)) return false;
  }
  return true;
}
// effective coefficient: the inner approximation is inscribed in the circular cone, the outer one contains it
static double effective(double mu, int nf, bool inner) { return inner ? mu * std::cos(M_PI / nf) : mu; }
// largest violation of the set of forces (in the contact frame), negative inside
static double forceViolation(const V3d& g, double mu, int nf, bool inner, Range r) {
  double worst = std::max(r.lo - g.z(), g.z() - r.hi);
  for (int i = 0; i < nf; ++i) worst = std::max(worst, std::cos(2 * M_PI * i / nf) * g.x() + std::sin(2 * M_PI * i / nf) * g.y() - effective(mu, nf, inner) * g.z());
  return worst;
}

static void friction(mc::Ctx& c) {
  const int ri = c.choose(5, "rotation"), nf = NFS[c.choose(4, "facets")];
  const double mu = MUS[c.choose(4, "mu")];
  const bool inner = c.flip("inner");
  const Range g = RANGES[c.choose(3, "range")];
  const R3 R = rot(ri);
  c.op("rotation %d, mu %g, %d facets, %s, normal force [%g, %g]", ri, mu, nf, inner ? "inner" : "outer", g.lo, g.hi);
  FrictionCone k(R, mu, nf, inner, g.lo, g.hi);
  c.check(k.get_A().rows() == nf + 1 && k.get_ub().size() == nf + 1 && k.get_lb().size() == nf + 1 && (int)k.get_nf() == nf, "sizes", "wrong sizes");
  c.check(same(k.get_R(), R) && k.get_mu() == mu && k.get_inner_appr() == inner && k.get_min_nforce() == g.lo && k.get_max_nforce() == g.hi, "parameters", "the parameters are not the given ones");
  long in = 0, out = 0;
  for (double z : {-0.5, 0., 0.4, 1., 2., 2.5, 3., 4.5})
    for (int a = 0; a < 24; ++a)
      for (double rel : {0., 0.5, 0.8, 0.97, 1.03, 1.3, 3.}) {
        const double phi = a * M_PI / 12 + 0.003, rad = rel * std::max(std::fabs(z), 0.2) * std::max(mu, 0.1);
        const V3d f(rad * std::cos(phi), rad * std::sin(phi), z);
        const double v = forceViolation(f, mu, nf, inner, g);
        if (std::fabs(v) < 1e-9) continue;
        const V3d w = R * f;
        const bool is = inside(k.get_A(), k.get_lb(), k.get_ub(), w, 1e-12);
        c.check(is == (v < 0), "force-set", "force " + show(f) + (is ? " is accepted though outside the polyhedral cone" : " is refused though inside the polyhedral cone"));
        // relation with the circular cone
        const bool range = z >= g.lo && z <= g.hi;
        if (inner && is) c.check(rad <= mu * z + 1e-9, "inner", "the inner approximation accepts a sliding force " + show(f));
        if (!inner && range && rad <= mu * z) c.check(is, "outer", "the outer approximation refuses a sticking force " + show(f));
        (is ? in : out)++;
      }
  // vertices of the polygon are on its boundary
  if (mu > 0 && g.hi > 2)
    for (int i = 0; i < nf; ++i) {
      const double phi = (2 * i + 1) * M_PI / nf, rad = effective(mu, nf, inner) / std::cos(M_PI / nf) * 2;
      const V3d f = R * V3d(rad * std::cos(phi), rad * std::sin(phi), 2);
      const V3d f2 = R * V3d(1.001 * rad * std::cos(phi), 1.001 * rad * std::sin(phi), 2);
      c.check(inside(k.get_A(), k.get_lb(), k.get_ub(), f, 1e-9) && !inside(k.get_A(), k.get_lb(), k.get_ub(), f2, 1e-9), "vertex", mc::strf("vertex %d of the cone is not on its boundary", i));
    }
  c.state(mc::hash_mat(mc::hash_mat(in * 1000 + out, Mat(k.get_A())), Vec(k.get_ub())));
  c.outcome(mc::strf("nf=%d %s", nf, inner ? "inner" : "outer"));
}

// ---------------------------------------------------------------------------------------------------------------
// Wrenches that forces at the four corners can produce (each within the four-sided pyramid): the cone over 16 rays.
// A wrench is inside iff it is a non-negative combination of 6 of them (Caratheodory); all subsets are tried.
struct Rays {
  Eigen::Matrix<double, 6, 16> G;
  std::vector<Eigen::Matrix<double, 6, 6>, Eigen::aligned_allocator<Eigen::Matrix<double, 6, 6>>> inv;
};
static const Rays& rays(double mu, double L, double W) {
  static std::map<std::vector<double>, Rays> cache;
  auto it = cache.find({mu, L, W});
  if (it != cache.end()) return it->second;
  Rays r;
  int k = 0;
  for (double x : {-L, L})
    for (double y : {-W, W})
      for (double a : {-mu, mu})
        for (double b : {-mu, mu}) {
          const V3d f(a, b, 1), p(x, y, 0);
          r.G.col(k++) << f, p.cross(f);
        }
  std::vector<int> s(6);
  std::function<void(int, int)> go = [&](int at, int from) {
    if (at == 6) {
      Eigen::Matrix<double, 6, 6> B;
      for (int i = 0; i < 6; ++i) B.col(i) = r.G.col(s[i]);
      Eigen::FullPivLU<Eigen::Matrix<double, 6, 6>> lu(B);
      if (std::fabs(lu.determinant()) > 1e-12) r.inv.push_back(lu.inverse());
      return;
    }
    for (int i = from; i < 16; ++i) {
      s[at] = i;
      go(at + 1, i + 1);
    }
  };
  go(0, 0);
  return cache[{mu, L, W}] = r;
}
static bool producible(const Rays& r, const Eigen::Matrix<double, 6, 1>& w, double eps) {
  for (auto& B : r.inv)
    if (((B * w).array() >= -eps).all()) return true;
  return false;
}
typedef Eigen::Matrix<double, 6, 1> W6;
static Eigen::Matrix<double, 6, 6> both6(const R3& R) {
  Eigen::Matrix<double, 6, 6> X = Eigen::Matrix<double, 6, 6>::Zero();
  X.topLeftCorner<3, 3>() = R, X.bottomRightCorner<3, 3>() = R;
  return X;
}

static void wrench(mc::Ctx& c) {
  const int ri = c.choose(5, "rotation"), nf = c.pick({4, 8}, "facets");
  const double mu = MUS[1 + c.choose(3, "mu")];
  const bool inner = c.flip("inner");
  const Range g = RANGES[c.choose(3, "range")];
  const V2 box = c.pick({V2(0.1, 0.05), V2(0.3, 0.3), V2(1., 2.)}, "box");
  c.op("rotation %d, mu %g, %d facets, %s, box %g x %g, normal force [%g, %g]", ri, mu, nf, inner ? "inner" : "outer", box[0], box[1], g.lo, g.hi);
  const R3 R = rot(ri);
  const double L = box[0] / 2, W = box[1] / 2, m = effective(mu, nf, inner);
  WrenchCone k(R, mu, box, nf, inner, g.lo, g.hi);
  CoPSupport s(R, box), sk(k);
  c.check(k.get_A().rows() == nf + 13 && k.get_ub().size() == nf + 13 && k.get_lb().size() == nf + 13 && (int)k.get_nf() == nf, "wrench-sizes", "wrong sizes");
  c.check(same(k.get_R(), R) && k.get_mu() == mu && same(k.get_box(), box) && k.get_inner_appr() == inner && k.get_min_nforce() == g.lo && k.get_max_nforce() == g.hi, "wrench-parameters", "the parameters are not the given ones");
  if (inner) {
    WrenchCone k2(R, mu, box, nf, g.lo, g.hi);
    c.check(same(k2.get_A(), k.get_A()) && same(k2.get_ub(), k.get_ub()) && same(k2.get_lb(), k.get_lb()), "deprecated", "the constructor without the approximation differs from the inner approximation");
  }
  const Rays& r = rays(m, L, W);
  const Eigen::Matrix<double, 6, 6> X = both6(R);
  long in = 0, out = 0;
  // combinations of corner rays (inside), pushed out in every coordinate direction, and a grid
  std::vector<W6, Eigen::aligned_allocator<W6>> ws;
  Gen gen(3);
  for (int i = 0; i < 16; ++i) {
    for (int j = 0; j < 16; j += 3) {
      W6 w = (r.G.col(i) + 0.7 * r.G.col(j)) + 0.02 * r.G.rowwise().sum();
      ws.push_back(w);
      for (int q = 0; q < 6; ++q)
        for (double t : {-1., 1.}) ws.push_back(w + t * (q < 3 ? 0.4 : q == 3 ? 0.7 * W : q == 4 ? 0.7 * L : m * (L + W) * 0.5) * W6::Unit(q));
    }
  }
  for (auto& w : ws) {
    const bool p0 = producible(r, W6(w), 1e-9), p1 = producible(r, W6(w), -1e-9);
    if (p0 != p1) continue;  // on the boundary
    const double fv = forceViolation(V3d(w.head<3>()), mu, nf, inner, g);
    if (std::fabs(fv) < 1e-9) continue;
    const bool want = p0 && fv < 0, is = inside(k.get_A(), k.get_lb(), k.get_ub(), W6(X * w), 1e-12);
    c.check(is == want, "wrench-set", "wrench " + show(w) + (is ? " is accepted though no corner forces produce it" : " is refused though corner forces produce it"));
    // support: the centre of pressure is in the box (for pushing forces)
    if (w[2] > 1e-6) {
      const double px = -w[4] / w[2], py = w[3] / w[2], v = std::max(std::fabs(px) - L, std::fabs(py) - W);
      if (std::fabs(v) > 1e-9) {
        c.check(inside(s.get_A(), s.get_lb(), s.get_ub(), W6(X * w), 1e-12) == (v < 0), "support-set", "support polygon misjudges the centre of pressure of " + show(w));
        c.check(inside(sk.get_A(), sk.get_lb(), sk.get_ub(), W6(X * w), 1e-12) == (v < 0), "support-of-cone", "the support polygon taken from a wrench cone misjudges the centre of pressure of " + show(w));
      }
    }
    (is ? in : out)++;
  }
  c.check(in > 0 && out > 0, "vacuous", "grid is one-sided");
  c.check(same(s.get_R(), R) && same(s.get_box(), box) && same(sk.get_R(), R) && same(sk.get_box(), box), "support-parameters", "the parameters of the support polygon are not the given ones");
  c.state(mc::hash_mat(mc::hash_mat(in * 1000 + out, Mat(k.get_A())), Vec(k.get_ub())));
  c.outcome(mc::strf("nf=%d %s", nf, inner ? "inner" : "outer"));
}

// the documented rows, for every number of facets and for limits that are absent
static void rows(mc::Ctx& c) {
  const int ri = c.choose(5, "rotation"), nf = NFS[c.choose(4, "facets")];
  const double mu = MUS[c.choose(4, "mu")];
  const bool inner = c.flip("inner");
  const int bi = c.choose(5, "box");
  const double sizes[5][2] = {{0.1, 0.05}, {1, 2}, {INF, 0.4}, {0.4, INF}, {INF, INF}};
  const V2 box(sizes[bi][0], sizes[bi][1]);
  const R3 R = rot(ri);
  WrenchCone k(R, mu, box, nf, inner, 0.5, 9.);
  CoPSupport s(R, box);
  c.op("rotation %d, mu %g, %d facets, %s, box %g x %g", ri, mu, nf, inner ? "inner" : "outer", box[0], box[1]);
  c.check(finite(k.get_A()) && finite(s.get_A()), "finite", "an unlimited box makes the rows non-finite: " + show(s.get_A()));
  const double m = effective(mu, nf, inner), L = box[0] / 2, W = box[1] / 2;
  const FrictionCone f(R, mu, nf, inner, 0.5, 9.);
  c.check(close(k.get_A().topLeftCorner(nf + 1, 3), f.get_A()) && k.get_A().topRightCorner(nf + 1, 3).isZero() && same(k.get_lb().head(nf + 1), f.get_lb()) && same(k.get_ub().head(nf + 1), f.get_ub()),
          "wrench-friction", "the force rows of the wrench cone differ from the friction cone");
  Mat E = Mat::Zero(12, 6);
  if (std::isfinite(W)) E.row(0) << 0, 0, -W, 1, 0, 0, E.row(1) << 0, 0, -W, -1, 0, 0;
  if (std::isfinite(L)) E.row(2) << 0, 0, -L, 0, 1, 0, E.row(3) << 0, 0, -L, 0, -1, 0;
  if (std::isfinite(W) && std::isfinite(L)) {
    int i = 4;
    for (double t : {-1., 1.})
      for (double a : {1., -1.})
        for (double b : {1., -1.}) E.row(i++) << a * W, b * L, -m * (L + W), t * a * m, t * b * m, t;
  }
  const Mat T = both6(R).transpose();
  c.check(close(Mat(k.get_A().bottomRows(12)), Mat(E * T)) && k.get_ub().tail(12).isZero() && (k.get_lb().tail(12).array() == -INF).all(), "documented-rows",
          "the rows of the centre of pressure and yaw torque are " + show(Mat(k.get_A().bottomRows(12))) + " instead of " + show(Mat(E * T)));
  c.check(close(Mat(s.get_A()), Mat(E.topRows(4) * T)) && s.get_ub().isZero() && (s.get_lb().array() == -INF).all(), "support-rows", "the rows of the support polygon are wrong");
  const CoPSupport sk(k);
  c.check(close(Mat(sk.get_A()), Mat(s.get_A())) && same(sk.get_ub(), s.get_ub()) && same(sk.get_lb(), s.get_lb()), "support-of-cone-rows", "the support polygon of a wrench cone differs from the one built directly");
  c.state(mc::hash_mat(mc::hash_mat(bi, Mat(k.get_A())), Vec(k.get_ub())));
  c.outcome(mc::strf("box %d", bi));
}

// edit histories.  The object is like a new one of the last accepted parameters after update(), and its rows are those
// of the last update() before.
struct P {
  R3 R = R3::Identity();
  double mu = 0.7, lo = 0, hi = INF;
  V2 box = V2(0.3, 0.2);
  bool inner = true;
  P fixed() const {
    P p = *this;
    if (p.mu < 0) p.mu = 1;
    if (p.lo < 0) p.lo = 0;
    if (p.hi < 0) p.hi = INF;
    for (int i = 0; i < 2; ++i)
      if (p.box[i] < 0) p.box[i] = INF;
    return p;
  }
};
static const double EMU[] = {0.4, -2., 1.2}, ELO[] = {0., 1.5, -1.}, EHI[] = {3., -7., INF};
static V2 ebox(int i) { return i == 0 ? V2(0.1, 0.4) : i == 1 ? V2(-1, 0.2) : V2(0.2, -0.5); }

template <class K> static K make(const P& p, int nf);
template <> FrictionCone make<FrictionCone>(const P& p, int nf) { return FrictionCone(p.R, p.mu, nf, p.inner, p.lo, p.hi); }
template <> WrenchCone make<WrenchCone>(const P& p, int nf) { return WrenchCone(p.R, p.mu, p.box, nf, p.inner, p.lo, p.hi); }
template <> CoPSupport make<CoPSupport>(const P& p, int) { return CoPSupport(p.R, p.box); }
template <class K> static std::string diffs(const K& a, const K& b) {
  if (!close(a.get_A(), b.get_A(), 1e-12)) return "rows " + show(a.get_A()) + " instead of " + show(b.get_A());
  if (!same(a.get_ub(), b.get_ub()) || !same(a.get_lb(), b.get_lb())) return "bounds " + show(a.get_lb()) + " " + show(a.get_ub()) + " instead of " + show(b.get_lb()) + " " + show(b.get_ub());
  return "";
}
static std::string params(const FrictionCone& k, const P& p) {
  return same(k.get_R(), p.R) && k.get_mu() == p.mu && k.get_inner_appr() == p.inner && k.get_min_nforce() == p.lo && k.get_max_nforce() == p.hi
             ? "" : mc::strf("mu %g, force [%g, %g] instead of mu %g, force [%g, %g]", k.get_mu(), k.get_min_nforce(), k.get_max_nforce(), p.mu, p.lo, p.hi);
}
static std::string params(const WrenchCone& k, const P& p) {
  return same(k.get_R(), p.R) && k.get_mu() == p.mu && k.get_inner_appr() == p.inner && k.get_min_nforce() == p.lo && k.get_max_nforce() == p.hi && same(k.get_box(), p.box)
             ? "" : mc::strf("mu %g, force [%g, %g] instead of mu %g, force [%g, %g], box ", k.get_mu(), k.get_min_nforce(), k.get_max_nforce(), p.mu, p.lo, p.hi) + show(k.get_box());
}
static std::string params(const CoPSupport& k, const P& p) { return same(k.get_R(), p.R) && same(k.get_box(), p.box) ? "" : "box " + show(k.get_box()); }
static bool edit(mc::Ctx& c, FrictionCone& k, P& p, int kind, int i, bool& updated) {
  switch (kind) {
    case 0: k.set_R(p.R = rot(1 + i)); break;
    case 1: k.set_mu(p.mu = EMU[i]); break;
    case 2: k.set_inner_appr(p.inner = i & 1); break;
    case 3: k.set_min_nforce(p.lo = ELO[i]); break;
    case 4: k.set_max_nforce(p.hi = EHI[i]); break;
    case 5: k.update(), updated = true; break;
    default: return false;
  }
  return true;
}
static bool edit(mc::Ctx& c, WrenchCone& k, P& p, int kind, int i, bool& updated) {
  switch (kind) {
    case 0: k.set_R(p.R = rot(1 + i)); break;
    case 1: k.set_mu(p.mu = EMU[i]); break;
    case 2: k.set_inner_appr(p.inner = i & 1); break;
    case 3: k.set_min_nforce(p.lo = ELO[i]); break;
    case 4: k.set_max_nforce(p.hi = EHI[i]); break;
    case 5: k.update(), updated = true; break;
    case 6: k.set_box(p.box = ebox(i)); break;
    case 7:
      p.R = rot(2 + i), p.mu = EMU[i], p.box = ebox((i + 1) % 3), p.lo = ELO[(i + 2) % 3], p.hi = EHI[(i + 1) % 3];
      k.update(p.R, p.mu, p.box, p.lo, p.hi), updated = true;
      break;
    default: return false;
  }
  return true;
}
static bool edit(mc::Ctx& c, CoPSupport& k, P& p, int kind, int i, bool& updated) {
  switch (kind) {
    case 0: k.set_R(p.R = rot(1 + i)); break;
    case 5: k.update(), updated = true; break;
    case 6: k.set_box(p.box = ebox(i)); break;
    default: return false;
  }
  return true;
}
template <class K> static void history(mc::Ctx& c) {
  const int nf = c.pick({4, 6, 5}, "facets"), nfr = nf == 5 ? 4 : nf;  // (odd numbers become 4)
  P p;
  const int bad = c.choose(5, "constructor");
  if (bad == 1) p.mu = -1;
  if (bad == 2) p.lo = -3;
  if (bad == 3) p.hi = -3;
  if (bad == 4) p.box = V2(-1, 0.1);
  const bool defaulted = bad == 0 && c.flip("default constructor");
  K k = defaulted ? K() : make<K>(p, nf);
  if (defaulted) p = P(), p.box = V2(INF, INF);
  const int facets = defaulted ? 4 : nfr;
  p = p.fixed();
  c.op("%s", defaulted ? "default" : mc::strf("constructor %d, %d facets", bad, nf).c_str());
  P last = p;
  auto judge = [&](const char* when) {
    const std::string a = params(k, p), b = diffs(k, make<K>(last, facets));
    c.check(a.empty(), std::string("edit-parameters"), std::string(when) + ": parameters " + a);
    c.check(b.empty() && finite(k.get_A()), std::string("edit-rows"), std::string(when) + ": " + b);
  };
  judge("constructed");
  const int depth = c.thorough ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    const int kind = c.choose(11, "edit");
    if (kind == 10) break;
    bool updated = false;
    if (kind == 8) {
      K o(k);
      k = K();
      k = o;
      c.op("copied and assigned");
    } else if (kind == 9) {
      K o = k.template cast<double>();
      c.op("cast");
      const std::string a = params(o, p), b = diffs(o, make<K>(p, facets));
      c.check(a.empty() && b.empty(), "cast", "cast cone: " + a + b);
      k = o, updated = true;
    } else {
      const int i = kind == 5 ? 0 : c.choose(3, "value");
      c.op("edit %d value %d", kind, i);
      if (!edit(c, k, p, kind, i, updated)) c.prune();
    }
    p = p.fixed();
    if (updated) last = p;
    judge("after the edit");
    c.state(mc::hash_mat(mc::hash_mat(updated, Mat(k.get_A())), p.R));
  }
  k.update();
  last = p;
  judge("updated");
  c.outcome(mc::strf("constructor %d", bad));
}

// the deprecated interface by surface normals: the normal is the axis of the cone
static void normals(mc::Ctx& c) {
  const int which = c.choose(5, "normal"), how = c.choose(2, "operation");
  V3d n = which == 0 ? V3d(0, 0, 1) : which == 1 ? V3d(0.6, 0, 0.8) : which == 2 ? V3d(0.2, -0.5, 1) : which == 3 ? V3d(0, 1, 0) : V3d(-3, 1, 2);
  const double mu = c.pick({0.3, 0.9, -1.}, "mu");
  FrictionCone k(rot(4), 0.5, 4, true, 0., 10.);
  if (how == 0) {
    k.set_nsurf(n);
    k.set_mu(mu);
    k.update();
  } else {
    k.update(n, mu, false, 0., 10.);
  }
  n.normalize();
  c.op("%s normal %s, mu %g", how ? "update" : "set_nsurf", show(n).c_str(), mu);
  c.check(close(V3d(k.get_nsurf()), n, 1e-9), "get_nsurf", "get_nsurf returns " + show(V3d(k.get_nsurf())));
  c.check(close(Vec(k.get_A().row(4).transpose()), Vec(n), 1e-9), "normal-axis", "the normal force is measured along " + show(Vec(k.get_A().row(4).transpose())) + " instead of the normal " + show(n));
  c.check(k.get_mu() == (mu < 0 ? 1. : mu), "normal-mu", mc::strf("mu is %g", k.get_mu()));
  c.check(inside(k.get_A(), k.get_lb(), k.get_ub(), n, 1e-9), "normal-inside", "a pure normal force is refused");
  c.outcome(how ? "update" : "set");
  c.state(mc::hash_mat(how, Mat(k.get_A())));
}

int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  mc::Explorer e;
  e.add("friction", friction);
  e.add("wrench", wrench);
  e.add("rows", rows);
  e.add("friction-history", history<FrictionCone>);
  e.add("wrench-history", history<WrenchCone>);
  e.add("support-history", history<CoPSupport>);
  e.add("normals", normals);
  return e.main(argc, argv);
}
