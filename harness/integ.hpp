// Reference for the integrators, written in coordinates: the schemes' formulas and the chain rule, nothing else.
#ifndef MC_INTEG_HPP
#define MC_INTEG_HPP
#include "nodes.hpp"
using namespace crocoddyl;

// q in R^n with a stretched chart (a tangent d at q moves it by exp(k sin q) d), Euclidean v
class StretchState : public StateAbstractTpl<double> {
 public:
  double k;
  StretchState(long n, double k) : StateAbstractTpl<double>(2 * n, 2 * n), k(k) {}
  MC_NO_CAST(StateBase)
  Vec zero() const override { return Vec(Vec::Zero(nx_)); }
  Vec rand() const override { return Vec(Vec::Constant(nx_, 0.3)); }
  Vec s(const CRef& x) const {
    Vec v = Vec::Ones(nx_);
    for (size_t i = 0; i < nv_; ++i) v[i] = std::exp(k * std::sin(x[i]));
    return v;
  }
  Vec ds(const CRef& x) const {
    Vec v = Vec::Zero(nx_);
    for (size_t i = 0; i < nv_; ++i) v[i] = k * std::cos(x[i]) * std::exp(k * std::sin(x[i]));
    return v;
  }
  void diff(const CRef& a, const CRef& b, Eigen::Ref<Vec> d) const override { d = Vec((b - a).cwiseQuotient(s(a))); }
  void integrate(const CRef& x, const CRef& d, Eigen::Ref<Vec> y) const override { y = Vec(x + s(x).cwiseProduct(d)); }
  void Jdiff(const CRef& a, const CRef& b, Eigen::Ref<Mat> J1, Eigen::Ref<Mat> J2, const Jcomponent w) const override {
    Vec sa = s(a);
    if (w != second) J1 = Mat((-(Vec::Ones(nx_) + ((b - a).cwiseQuotient(sa)).cwiseProduct(ds(a)))).asDiagonal());
    if (w != first) J2 = Mat(s(b).cwiseQuotient(sa).asDiagonal());
  }
  Mat Jx(const CRef& x, const CRef& d) const {
    Vec sx = s(x), y = x + sx.cwiseProduct(d);
    return Mat(((Vec::Ones(nx_) + ds(x).cwiseProduct(d)).cwiseProduct(sx).cwiseQuotient(s(y))).asDiagonal());
  }
  Mat Jd(const CRef& x, const CRef& d) const {
    Vec sx = s(x), y = x + sx.cwiseProduct(d);
    return Mat(sx.cwiseQuotient(s(y)).asDiagonal());
  }
  void Jintegrate(const CRef& x, const CRef& d, Eigen::Ref<Mat> J1, Eigen::Ref<Mat> J2, const Jcomponent w, const AssignmentOp op) const override {
    auto put = [&](Eigen::Ref<Mat>& J, const Mat& v) {
      if (op == setto) J = v;
      if (op == addto) J += v;
      if (op == rmfrom) J -= v;
    };
    if (w != second) put(J1, Jx(x, d));
    if (w != first) put(J2, Jd(x, d));
  }
  void JintegrateTransport(const CRef& x, const CRef& d, Eigen::Ref<Mat> J, const Jcomponent w) const override {
    J = Mat((w == first ? Jx(x, d) : Jd(x, d)) * J);
  }
};

enum Scheme { S_EULER, S_RK2, S_RK3, S_RK4 };
enum Control { C_NONE, C_ZERO, C_ONE, C_TWO3, C_TWO4 };
// the row of basis values of a parametrisation at time t
inline Vec basis(int control, double t) {
  if (control == C_NONE || control == C_ZERO) return Vec::Ones(1);
  if (control == C_ONE) return Vec(Eigen::Vector2d(1 - 2 * t, 2 * t));
  const double n[3] = {0, control == C_TWO3 ? 1. / 3 : 0.5, control == C_TWO3 ? 2. / 3 : 1.};
  Vec b(3);
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    b[i] = (t - n[j]) * (t - n[k]) / ((n[i] - n[j]) * (n[i] - n[k]));
  }
  return b;
}
struct Integ {
  int scheme, control;
  long n, nw, nu;
  double k, dt;
  bool residual;
  std::shared_ptr<StateAbstractTpl<double>> s;
  std::shared_ptr<TDAct> dm;
  std::shared_ptr<IntegratedActionModelAbstract> m;

  std::shared_ptr<TDAct> differential(long ng, long nh, long ngT, long nhT, double e, uint64_t seed) const {
    TDAct::Spec p;
    p.nu = nw, p.ng = ng, p.nh = nh, p.ng_T = ngT, p.nh_T = nhT, p.e = e, p.seed = seed;
    return std::make_shared<TDAct>(s, p);
  }
  void build() {
    typedef std::shared_ptr<ControlParametrizationModelAbstract> CP;
    CP cp;
    if (control == C_ZERO) cp = std::make_shared<ControlParametrizationModelPolyZero>(nw);
    if (control == C_ONE) cp = std::make_shared<ControlParametrizationModelPolyOne>(nw);
    if (control == C_TWO3) cp = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, three);
    if (control == C_TWO4) cp = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, four);
    const RKType t = scheme == S_RK2 ? two : scheme == S_RK3 ? three : four;
    if (scheme == S_EULER)
      m = cp ? std::make_shared<IntegratedActionModelEuler>(dm, cp, dt, residual) : std::make_shared<IntegratedActionModelEuler>(dm, dt, residual);
    else
      m = cp ? std::make_shared<IntegratedActionModelRK>(dm, cp, t, dt, residual) : std::make_shared<IntegratedActionModelRK>(dm, t, dt, residual);
    nu = nw * basis(control, 0).size();
  }
  Vec sc(const Vec& x) const { return k == 0 ? Vec(Vec::Ones(2 * n)) : std::static_pointer_cast<StretchState>(s)->s(x); }
  Vec dsc(const Vec& x) const { return k == 0 ? Vec(Vec::Zero(2 * n)) : std::static_pointer_cast<StretchState>(s)->ds(x); }
  Mat W(double t) const {
    Vec b = basis(control, t);
    Mat w(nw, nu);
    for (long i = 0; i < b.size(); ++i) w.middleCols(i * nw, nw) = b[i] * Mat::Identity(nw, nw);
    return w;
  }
  struct Out {
    Vec xnext, g, h, Lx, Lu;
    double cost;
    Mat Fx, Fu, Lxx, Lxu, Luu, Gx, Gu, Hx, Hu;
  };
  static Vec pad(const Vec& v, long r) {
    Vec o = Vec::Zero(r);
    o.head(v.size()) = v;
    return o;
  }
  static Mat padm(const Mat& v, long r) {
    Mat o = Mat::Zero(r, v.cols());
    o.topRows(v.rows()) = v;
    return o;
  }
  Out running(const Vec& x, const Vec& u) const {
    const long N = 2 * n, mg = std::max(dm->g.c.size(), dm->gT.c.size()), mh = std::max(dm->h.c.size(), dm->hT.c.size());
    Out o;
    const Vec sx = sc(x), dx_ = dsc(x);
    const Mat D = sx.asDiagonal();
    auto X = [&](const Vec& d) { return Mat((Vec::Ones(N) + dx_.cwiseProduct(d)).asDiagonal()); };
    std::vector<double> cs, b;
    if (scheme == S_EULER) cs = {0}, b = {1};
    if (scheme == S_RK2) cs = {0, 0.5}, b = {0, 1};
    if (scheme == S_RK3) cs = {0, 1. / 3, 2. / 3}, b = {0.25, 0, 0.75};
    if (scheme == S_RK4) cs = {0, 0.5, 0.5, 1}, b = {1. / 6, 2. / 6, 2. / 6, 1. / 6};
    Vec k = Vec::Zero(N), dx = Vec::Zero(N);
    Mat Kx = Mat::Zero(N, N), Ku = Mat::Zero(N, nu), DX = Mat::Zero(N, N), DU = Mat::Zero(N, nu), H = Mat::Zero(N + nu, N + nu);
    o.cost = 0;
    o.Lx = Vec::Zero(N), o.Lu = Vec::Zero(nu);
    for (size_t i = 0; i < cs.size(); ++i) {
      const Vec d = cs[i] * dt * k, y = x + sx.cwiseProduct(d);
      const Mat Yx = X(d) + D * (cs[i] * dt * Kx), Yu = D * (cs[i] * dt * Ku), Wi = W(cs[i]);
      const Vec w = Wi * u;
      const Vec a = dm->f.val(y, w);
      const Mat Az = dm->f.Jz(y, w), Aw = dm->f.Ju(y, w);
      const Mat ax = Az * Yx, au = Az * Yu + Aw * Wi;
      if (scheme == S_EULER) {
        dx << dt * x.tail(n) + dt * dt * a, dt * a;
        DX << dt * dt * ax, dt * ax;
        DX.topRightCorner(n, n) += dt * Mat::Identity(n, n);
        DU << dt * dt * au, dt * au;
      } else {
        k << y.tail(n), a;
        Kx << Yx.bottomRows(n), ax;
        Ku << Yu.bottomRows(n), au;
        dx += dt * b[i] * k, DX += dt * b[i] * Kx, DU += dt * b[i] * Ku;
      }
      const double q = dt * b[i];
      o.cost += q * dm->l.val(y, w);
      const Vec gz = dm->l.gz(y, w), gw = dm->l.gu(y, w);
      o.Lx += q * D * (Yx.transpose() * gz);
      o.Lu += q * (Yu.transpose() * gz + Wi.transpose() * gw);
      Mat M = Mat::Zero(N + nw, N + nu), Hi(N + nw, N + nw);
      M.topLeftCorner(N, N) = Yx * D, M.topRightCorner(N, nu) = Yu, M.bottomRightCorner(nw, nu) = Wi;
      Hi << dm->l.Hzz(y, w), dm->l.Hzu(y, w), dm->l.Hzu(y, w).transpose(), dm->l.Huu(y, w);
      H += q * M.transpose() * Hi * M;
    }
    o.xnext = x + sx.cwiseProduct(dx);
    const Mat E = sc(o.xnext).cwiseInverse().asDiagonal();
    o.Fx = E * (X(dx) + D * DX) * D;
    o.Fu = E * D * DU;
    o.Lxx = H.topLeftCorner(N, N), o.Lxu = H.topRightCorner(N, nu), o.Luu = H.bottomRightCorner(nu, nu);
    const Mat W0 = W(0);
    const Vec w0 = W0 * u;
    o.g = pad(dm->g.val(x, w0), mg), o.h = pad(dm->h.val(x, w0), mh);
    o.Gx = padm(dm->g.Jz(x, w0) * D, mg), o.Gu = padm(dm->g.Ju(x, w0) * W0, mg);
    o.Hx = padm(dm->h.Jz(x, w0) * D, mh), o.Hu = padm(dm->h.Ju(x, w0) * W0, mh);
    return o;
  }
  Out terminal(const Vec& x) const {
    const long mg = std::max(dm->g.c.size(), dm->gT.c.size()), mh = std::max(dm->h.c.size(), dm->hT.c.size());
    Out o;
    const Vec u = Vec::Zero(nw);
    const Mat D = sc(x).asDiagonal();
    o.xnext = x;
    o.cost = dm->lT.val(x, u);
    o.Lx = D * dm->lT.gz(x, u);
    o.Lxx = D * dm->lT.Hzz(x, u) * D;
    o.g = pad(dm->gT.val(x, u), mg), o.h = pad(dm->hT.val(x, u), mh);
    o.Gx = padm(dm->gT.Jz(x, u) * D, mg), o.Hx = padm(dm->hT.Jz(x, u) * D, mh);
    return o;
  }
};

struct IntegMc {
  mc::Ctx& c;
  bool derivs;
  Integ I;
  double r0[2] = {0, 0};
  ActD d[2];
  explicit IntegMc(mc::Ctx& c, bool derivs) : c(c), derivs(derivs) {}
  void values(const ActionDataAbstract& e, const Integ::Out& o, const char* what) {
    CHECK(c, close(e.xnext, o.xnext), "xnext", "%s: xnext %s, expected %s", what, show(e.xnext).c_str(), show(o.xnext).c_str());
    CHECK(c, closes(e.cost, o.cost), "cost", "%s: cost %.12g, expected %.12g", what, e.cost, o.cost);
    CHECK(c, close(e.g, o.g), "g", "%s: g %s, expected %s", what, show(e.g).c_str(), show(o.g).c_str());
    CHECK(c, close(e.h, o.h), "h", "%s: h %s, expected %s", what, show(e.h).c_str(), show(o.h).c_str());
  }
  void diffs(const ActionDataAbstract& e, const Integ::Out& o, bool T) {
#define EQ(m) CHECK(c, close(e.m, o.m, 1e-8), #m, #m " %s, expected %s", show(e.m).c_str(), show(o.m).c_str());
    EQ(Lx) EQ(Lxx) EQ(Gx) EQ(Hx)
    if (T) return;
    EQ(Fx) EQ(Fu) EQ(Lu) EQ(Lxu) EQ(Luu) EQ(Gu) EQ(Hu)
#undef EQ
  }
  void step(int w, bool T, int pt) {
    const Vec x = Gen(70 + pt).vec(2 * I.n), u = Gen(80 + pt).vec(I.nu);
    if (!d[w]) d[w] = I.m->createData();
    c.op("%s(data%d, point %d)", T ? "terminal" : "running", w, pt);
    ActionDataAbstract& e = *d[w];
    const Integ::Out o = T ? I.terminal(x) : I.running(x, u);
    T ? I.m->calc(d[w], x) : I.m->calc(d[w], x, u);
    if (!derivs) {
      values(e, o, T ? "terminal" : "running");
      if (I.residual) r0[w] = T ? o.cost : I.dm->l.val(x, I.W(0) * u);
      CHECK(c, e.r.size() == 1 && closes(e.r[0], r0[w]), "residual", "residual %s, expected %.12g", show(e.r).c_str(), r0[w]);
      c.state(mc::hash_mat(mc::hash_mat(1, e.xnext), e.g));
    } else {
      T ? I.m->calcDiff(d[w], x) : I.m->calcDiff(d[w], x, u);
      diffs(e, o, T);
      values(e, o, "after calcDiff");
      c.state(mc::hash_mat(mc::hash_mat(1, e.Fx), e.Lxx));
    }
  }
  void configuration(bool small) {
    I.scheme = c.choose(4, "scheme");
    I.control = c.choose(5, "control");
    I.n = 1 + c.choose(2, "nv");
    I.nw = 1 + c.choose(2, "nw");
    I.k = small ? 0.4 : c.pick<double>({0, 0.4}, "stretch");
    I.dt = small ? 0.2 : c.pick<double>({0., 0.01, 0.3, 1.}, "step");
    I.residual = small ? false : c.flip("residual");
    I.s = I.k == 0 ? StateP(std::make_shared<StateVector>(2 * I.n)) : StateP(std::make_shared<StretchState>(I.n, I.k));
  }
  void differential(int shape, double e, uint64_t seed) {
    static const long sh[4][4] = {{0, 0, 0, 0}, {2, 1, 1, 1}, {1, 2, 3, 0}, {0, 1, 2, 2}};  // ng nh ng_T nh_T
    I.dm = I.differential(sh[shape][0], sh[shape][1], sh[shape][2], sh[shape][3], e, seed);
  }
};

// every configuration, one or two evaluations
inline void integ_config(mc::Ctx& c, bool derivs) {
  Quiet quiet;
  IntegMc t(c, derivs);
  t.configuration(false);
  const int shape = c.choose(4, "constraints");
  t.differential(shape, c.pick<double>({0., 0.5}, "nonlinearity"), 11 + c.choose(c.thorough ? 6 : 2, "seed"));
  t.I.build();
  CHECK(c, (long)t.I.m->get_nu() == t.I.nu && t.I.m->get_ng() == t.I.dm->get_ng() && t.I.m->get_nh() == t.I.dm->get_nh() &&
               t.I.m->get_ng_T() == t.I.dm->get_ng_T() && t.I.m->get_nh_T() == t.I.dm->get_nh_T() && t.I.m->get_dt() == t.I.dt && t.I.m->get_nr() == 1,
        "dimensions", "dimensions differ from the differential model's");
  t.step(0, false, 0);
  t.step(0, c.flip("terminal"), 1);
}
// histories over two data objects with edits of the step, the model, failed evaluations and quasi-static calls
inline void integ_history(mc::Ctx& c, bool derivs) {
  Quiet quiet;
  IntegMc t(c, derivs);
  t.I.scheme = c.choose(4, "scheme");
  t.I.control = c.choose(c.thorough ? 5 : 4, "control");
  if (!c.thorough && t.I.control) ++t.I.control;
  t.I.n = 1, t.I.nw = 1, t.I.k = 0.4, t.I.dt = 0.2, t.I.residual = c.flip("residual");
  t.I.s = StateP(std::make_shared<StretchState>(t.I.n, t.I.k));
  int shape = 1 + c.choose(3, "constraints");
  t.differential(shape, 0.5, 11);
  t.I.build();
  const int depth = c.thorough ? 5 : 4;
  for (int s = 0; s < depth; ++s) {
    const int op = c.choose(9, "operation");
    if (op < 4)
      t.step(op % 2, op / 2, s);
    else if (op == 4) {
      t.I.dt = s % 2 ? 0. : 0.45;
      c.op("set_dt(%g)", t.I.dt);
      t.I.m->set_dt(t.I.dt);
      CHECK(c, throws([&] { t.I.m->set_dt(-0.1); }) && t.I.m->get_dt() == t.I.dt, "dt", "a negative step was accepted");
    } else if (op == 5) {
      c.op("set_differential(other of the same dimensions)");
      t.differential(shape, 0.5, 30 + s);
      t.I.m->set_differential(t.I.dm);
    } else if (op == 6) {
      c.op("set_differential(other constraints); data recreated");
      shape = shape % 3 + 1;
      t.differential(shape, 0.2, 40 + s);
      t.I.m->set_differential(t.I.dm);
      t.d[0].reset(), t.d[1].reset();
      t.r0[0] = t.r0[1] = 0;
    } else if (op == 7) {
      c.op("evaluation with NaN (data0)");
      if (!t.d[0]) t.d[0] = t.I.m->createData();
      Vec x = Vec::Constant(2, NAN), u = Vec::Constant(t.I.nu, NAN);
      t.I.m->calc(t.d[0], x, u);
      t.I.m->calcDiff(t.d[0], x, u);
      if (t.I.residual) t.r0[0] = NAN;
    } else {
      c.op("quasiStatic (data0)");
      if (!t.d[0]) t.d[0] = t.I.m->createData();
      Vec x = Vec::Constant(2, 0.3), u = Vec::Constant(t.I.nu, 5.);
      x[1] = 0;
      t.I.m->quasiStatic(t.d[0], u, x);
      // the differential model's own quasi-static control, held constant
      std::shared_ptr<DifferentialActionDataAbstract> dd = t.I.dm->createData();
      Vec w = Vec::Zero(1);
      t.I.dm->quasiStatic(dd, w, x);
      CHECK(c, close(u, Vec(w.replicate(t.I.nu, 1))), "quasistatic", "quasi-static parameters %s for the control %s", show(u).c_str(), show(w).c_str());
    }
  }
}
#endif
