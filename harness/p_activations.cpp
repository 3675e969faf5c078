// C22: activations against their documented functions and exact derivatives, through parameter edits and
// several data objects of one model.
#include "models.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
using namespace crocoddyl;

enum Kind { QUAD, WQUAD, FLATEXP, FLATLOG, SMOOTH1, SMOOTH2, BARRIER, WBARRIER, NORMB_GN, NORMB_TRUE, NKINDS };
static const char* KN[] = {"quad", "weighted-quad", "flat-exp", "flat-log", "smooth-1norm", "smooth-2norm", "barrier",
                           "weighted-barrier", "2norm-barrier-gn", "2norm-barrier"};

struct Par {  // the parameters in force
  double a;   // alpha / eps / beta
  Vec w, lb, ub;
};
static Par param(long nr, int i) {
  static const double A[] = {0.35, 1., 2.4};
  Par p;
  p.a = A[i];
  Gen g(70 + i);
  p.w = (g.vec(nr).array().abs() + 0.2 * i).matrix();
  p.lb = Vec::Constant(nr, -1.1 + 0.4 * i);
  p.ub = Vec::Constant(nr, 0.6 + 0.5 * i);
  if (i == 1) p.lb[0] = -INF;
  if (i == 2) p.ub[nr - 1] = INF;
  return p;
}
static double beta(const Par& p) { return p.a > 1 ? 0.8 : p.a; }
static void effective(const Par& p, Vec& lb, Vec& ub) {
  lb = p.lb;
  ub = p.ub;
  for (long i = 0; i < lb.size(); ++i)
    if (std::isfinite(lb[i]) && std::isfinite(ub[i])) {
      const double m = (lb[i] + ub[i]) / 2, d = (ub[i] - lb[i]) / 2;
      lb[i] = m - beta(p) * d;
      ub[i] = m + beta(p) * d;
    }
}
static std::shared_ptr<ActivationModelAbstract> create(Kind k, long nr, const Par& p) {
  switch (k) {
    case QUAD: return std::make_shared<ActivationModelQuad>(nr);
    case WQUAD: return std::make_shared<ActivationModelWeightedQuad>(p.w);
    case FLATEXP: return std::make_shared<ActivationModelQuadFlatExp>(nr, p.a);
    case FLATLOG: return std::make_shared<ActivationModelQuadFlatLog>(nr, p.a);
    case SMOOTH1: return std::make_shared<ActivationModelSmooth1Norm>(nr, p.a);
    case SMOOTH2: return std::make_shared<ActivationModelSmooth2Norm>(nr, p.a);
    case BARRIER: return std::make_shared<ActivationModelQuadraticBarrier>(ActivationBounds(p.lb, p.ub, beta(p)));
    case WBARRIER: return std::make_shared<ActivationModelWeightedQuadraticBarrier>(ActivationBounds(p.lb, p.ub, beta(p)), p.w);
    case NORMB_GN: return std::make_shared<ActivationModel2NormBarrier>(nr, p.a, false);
    default: return std::make_shared<ActivationModel2NormBarrier>(nr, p.a, true);
  }
}
static bool edit(Kind k, ActivationModelAbstract* m, const Par& p) {
  switch (k) {
    case WQUAD: static_cast<ActivationModelWeightedQuad*>(m)->set_weights(p.w); return true;
    case FLATEXP: static_cast<ActivationModelQuadFlatExp*>(m)->set_alpha(p.a); return true;
    case FLATLOG: static_cast<ActivationModelQuadFlatLog*>(m)->set_alpha(p.a); return true;
    case BARRIER: static_cast<ActivationModelQuadraticBarrier*>(m)->set_bounds(ActivationBounds(p.lb, p.ub, beta(p))); return true;
    case WBARRIER:
      static_cast<ActivationModelWeightedQuadraticBarrier*>(m)->set_bounds(ActivationBounds(p.lb, p.ub, beta(p)));
      static_cast<ActivationModelWeightedQuadraticBarrier*>(m)->set_weights(p.w);
      return true;
    case NORMB_GN:
    case NORMB_TRUE: static_cast<ActivationModel2NormBarrier*>(m)->set_alpha(p.a); return true;
    default: return false;
  }
}

static void reference(Kind k, const Par& p, const Vec& r, double& v, Vec& g, Vec& h, std::vector<bool>& kink) {
  const long n = r.size();
  g = h = Vec::Zero(n);
  v = 0;
  kink.assign(n, false);
  const double s = r.squaredNorm(), a = p.a;
  Vec lb, ub;
  effective(p, lb, ub);
  for (long i = 0; i < n; ++i) {
    const double x = r[i];
    switch (k) {
      case QUAD: v += x * x / 2, g[i] = x, h[i] = 1; break;
      case WQUAD: v += p.w[i] * x * x / 2, g[i] = p.w[i] * x, h[i] = p.w[i]; break;
      case FLATEXP: {
        const double e = std::exp(-s / a);
        v = 1 - e, g[i] = 2 / a * e * x, h[i] = 2 / a * e - 4 / (a * a) * e * x * x;
        break;
      }
      case FLATLOG: {
        const double q = a + s;
        v = std::log(1 + s / a), g[i] = 2 * x / q, h[i] = 2 / q - 4 * x * x / (q * q);
        break;
      }
      case SMOOTH1: {
        const double q = std::sqrt(a + x * x);
        v += q, g[i] = x / q, h[i] = a / (q * q * q);
        break;
      }
      case SMOOTH2: {
        const double q = std::sqrt(a + s);
        v = q, g[i] = x / q, h[i] = 1 / q - x * x / (q * q * q);
        break;
      }
      case BARRIER:
      case WBARRIER: {
        const double w = k == BARRIER ? 1 : p.w[i];
        double d = x < lb[i] ? x - lb[i] : x > ub[i] ? x - ub[i] : 0;
        v += w * w * d * d / 2, g[i] = w * w * d, h[i] = d ? w * w : 0;
        kink[i] = std::fabs(x - lb[i]) < 1e-12 || std::fabs(x - ub[i]) < 1e-12;
        break;
      }
      default: {
        const double d = std::sqrt(s);
        if (d < a) {
          v = (d - a) * (d - a) / 2;
          g[i] = (d - a) / d * x;
          h[i] = k == NORMB_TRUE ? a * x * x / (d * d * d) + (d - a) / d : x * x / (d * d);
        }
      }
    }
  }
}

static void evaluate(mc::Ctx& c, Kind k, ActivationModelAbstract& m, const std::shared_ptr<ActivationDataAbstract>& d, const Par& p, const Vec& r,
                     bool diff) {
  m.calc(d, r);
  double v;
  Vec g, h;
  std::vector<bool> kink;
  reference(k, p, r, v, g, h, kink);
  const std::string n = KN[k];
  c.check(closes(d->a_value, v), n + ":value", mc::strf("value %.12g, expected %.12g at r=", d->a_value, v) + show(r));
  if (!diff) return;
  m.calcDiff(d, r);
  c.check(closes(d->a_value, v), n + ":value-kept", "calcDiff changed the value");
  if ((k == NORMB_GN || k == NORMB_TRUE) && r.norm() == 0) return;  // not differentiable there
  c.check(close(d->Ar, g), n + ":gradient", "gradient " + show(d->Ar) + ", expected " + show(g) + " at r=" + show(r));
  c.check(d->Arr.diagonal().size() == r.size(), n + ":hessian-size", "wrong Hessian size");
  for (long i = 0; i < r.size(); ++i) {
    const double q = d->Arr.diagonal()[i], w = k == WBARRIER ? p.w[i] * p.w[i] : 1;
    c.check(kink[i] ? closes(q, 0) || closes(q, w) : closes(q, h[i]), n + ":hessian",
            mc::strf("second derivative %ld is %.12g, expected %.12g at r=", i, q, h[i]) + show(r));
  }
}

static void points(mc::Ctx& c) {
  const Kind k = (Kind)c.choose(NKINDS, "activation");
  const long nr = 1 + c.choose(c.thorough ? 4 : 3, "nr");
  const int pi = c.choose(3, "parameters");
  const Par p = param(nr, pi);
  Vec lb, ub;
  effective(p, lb, ub);
  Vec r(nr);
  for (long i = 0; i < nr; ++i) {
    std::vector<double> al = {-2.5, -0.9, -0.2, 0., 0.35, 0.7, 1.9, 40.};
    if (c.thorough) al.push_back(-1.05), al.push_back(1e-6);
    if (k == BARRIER || k == WBARRIER) {
      if (std::isfinite(lb[i])) al.push_back(lb[i]);
      if (std::isfinite(ub[i])) al.push_back(ub[i]);
    }
    r[i] = al[c.choose(al.size(), "r")];
  }
  auto m = create(k, nr, p);
  auto d = m->createData();
  c.op("%s parameters %d", KN[k], pi);
  c.check(m->get_nr() == (size_t)nr, "nr", "wrong residual dimension");
  evaluate(c, k, *m, d, p, r, true);
  c.check(throws([&] { m->calc(d, Vec::Zero(nr + 1)); }) && throws([&] { m->calcDiff(d, Vec::Zero(nr + 1)); }) && throws([&] { m->calc(d, Vec::Zero(nr - 1)); }),
          "wrong-size", "a residual of wrong size was accepted");
  c.state(mc::hash_mat(k * 7 + pi, r));
  c.outcome(KN[k]);
}

static void histories(mc::Ctx& c) {
  const Kind k = (Kind)c.choose(NKINDS, "activation");
  const long nr = c.thorough ? 1 + c.choose(3, "nr") : 2;
  Par p = param(nr, 0);
  auto m = create(k, nr, p);
  std::vector<std::shared_ptr<ActivationDataAbstract>> d(2);
  for (auto& x : d) x = m->createData();
  Gen g(3);
  const Vec R[3] = {Vec(0.15 * g.vec(nr)), Vec(1.8 * g.vec(nr)), Vec(-3 * g.vec(nr))};
  const size_t depth = c.thorough ? 6 : 5;
  int cur = 0;
  for (size_t s = 0; s < depth; ++s) {
    const size_t o = c.choose(2 + 6 + 1, "operation");
    if (o < 2) {
      const int n = (cur + 1 + o) % 3;
      if (!edit(k, m.get(), param(nr, n))) c.prune();
      c.op("%s: parameters %d", KN[k], n);
      p = param(nr, cur = n);
    } else if (o < 8) {
      const int i = (o - 2) / 3, j = (o - 2) % 3;
      c.op("evaluate data %d at point %d", i, j);
      evaluate(c, k, *m, d[i], p, R[j], true);
    } else {
      c.op("new data");
      d[1] = m->createData();
    }
    c.state(mc::mix(mc::mix(k, cur), mc::hash_mat(mc::hash_mat(o, d[0]->Ar), d[1]->Ar)));
  }
  for (int i = 0; i < 2; ++i) evaluate(c, k, *m, d[i], p, R[1], true);
  c.outcome(mc::strf("%s ends with %d", KN[k], cur));
}

// bounds: refused when crossed, scaled by beta around their centre only if both are finite
static void bounds(mc::Ctx& c) {
  Vec lb(2), ub(2);
  for (int i = 0; i < 2; ++i) {
    lb[i] = c.pick({-1., 0.5, -INF, std::nan(""), INF}, "lb");
    ub[i] = c.pick({2., 0.5, -2., INF, std::nan(""), -INF}, "ub");
  }
  const double b = c.pick({1., 0.5, 0., -0.1, 1.2}, "beta");
  c.op("bounds %s %s beta %g", show(lb).c_str(), show(ub).c_str(), b);
  bool bad = b < 0 || b > 1;
  for (int i = 0; i < 2; ++i) bad |= std::isfinite(lb[i]) && std::isfinite(ub[i]) && lb[i] > ub[i];
  std::shared_ptr<ActivationBounds> B;
  const bool t = throws([&] { B = std::make_shared<ActivationBounds>(lb, ub, b); });
  c.check(t == bad, "bounds-refusal", bad ? "badly defined bounds were accepted" : "well defined bounds were refused");
  if (!t)
    for (int i = 0; i < 2; ++i) {
      const bool both = std::isfinite(lb[i]) && std::isfinite(ub[i]);
      const double l = both ? (lb[i] + ub[i]) / 2 - b * (ub[i] - lb[i]) / 2 : std::isfinite(lb[i]) ? lb[i] : -std::numeric_limits<double>::max();
      const double u = both ? (lb[i] + ub[i]) / 2 + b * (ub[i] - lb[i]) / 2 : std::isfinite(ub[i]) ? ub[i] : std::numeric_limits<double>::max();
      c.check(closes(B->lb[i], l) && closes(B->ub[i], u), "bounds-value", mc::strf("effective bounds [%g, %g], expected [%g, %g]", B->lb[i], B->ub[i], l, u));
    }
  c.check(throws([&] { ActivationBounds x(lb, Vec::Zero(3)); }), "bounds-size", "bounds of different sizes were accepted");
  c.outcome(t ? "refused" : "accepted");
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("points", points);
  e.add("histories", histories);
  e.add("bounds", bounds);
  return e.main(argc, argv);
}
