// C21: the linear-quadratic actions (discrete, differential) and the unicycle evaluate their definitions with
// their current parameters, whatever sequence of edits and evaluations, on any of their data, came before.
#include "models.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
using namespace crocoddyl;

struct Par {  // nq rows of dynamics; n = state dimension
  Mat A, B, Q, R, N, G, H;
  Vec f, q, r, g, h;
  Par() {}
  Par(long rows, long n, long nu, long ng, long nh, uint64_t seed) {
    Gen k(seed);
    A = k.mat(rows, n), B = k.mat(rows, nu);
    Mat L = k.spd(n + nu, 0.3);
    Q = L.topLeftCorner(n, n), R = L.bottomRightCorner(nu, nu), N = L.topRightCorner(n, nu);
    G = k.mat(ng, n + nu), H = k.mat(nh, n + nu);
    f = k.vec(rows), q = k.vec(n), r = k.vec(nu), g = k.vec(ng), h = k.vec(nh);
  }
  double cost(const Vec& x, const Vec& u) const {
    return 0.5 * x.dot(Q * x) + 0.5 * u.dot(R * u) + x.dot(N * u) + q.dot(x) + r.dot(u);
  }
};

template <class D>
static void costs(mc::Ctx& c, const Par& p, const D& d, const Vec& x, const Vec& u, bool T, bool diff) {
  const long n = x.size(), nu = u.size();
  const double l = p.cost(x, u);
  CHECK(c, closes(d.cost, l), "cost", "cost %.12g, expected %.12g", d.cost, l);
  Vec g = p.G.leftCols(n) * x + p.G.rightCols(nu) * u + p.g, h = p.H.leftCols(n) * x + p.H.rightCols(nu) * u + p.h;
  CHECK(c, close(d.g, g), "g", "g %s, expected %s", show(d.g).c_str(), show(g).c_str());
  CHECK(c, close(d.h, h), "h", "h %s, expected %s", show(d.h).c_str(), show(h).c_str());
  c.state(mc::hash_mat(mc::hash_mat((uint64_t)(d.cost * 1e6), d.g), d.h));
  if (!diff) return;
  Vec lx = p.Q * x + p.N * u + p.q;
  CHECK(c, close(d.Lx, lx), "Lx", "Lx %s, expected %s", show(d.Lx).c_str(), show(lx).c_str());
  CHECK(c, close(d.Lxx, p.Q), "Lxx", "Lxx %s, expected %s", show(d.Lxx).c_str(), show(p.Q).c_str());
  CHECK(c, close(d.Gx, Mat(p.G.leftCols(n))), "Gx", "Gx %s, expected G.leftCols of %s", show(d.Gx).c_str(), show(p.G).c_str());
  CHECK(c, close(d.Hx, Mat(p.H.leftCols(n))), "Hx", "Hx %s, expected H.leftCols of %s", show(d.Hx).c_str(), show(p.H).c_str());
  if (T) return;
  Vec lu = p.R * u + p.N.transpose() * x + p.r;
  CHECK(c, close(d.Lu, lu), "Lu", "Lu %s, expected %s", show(d.Lu).c_str(), show(lu).c_str());
  CHECK(c, close(d.Lxu, p.N), "Lxu", "Lxu %s, expected %s", show(d.Lxu).c_str(), show(p.N).c_str());
  CHECK(c, close(d.Luu, p.R), "Luu", "Luu %s, expected %s", show(d.Luu).c_str(), show(p.R).c_str());
  CHECK(c, close(d.Gu, Mat(p.G.rightCols(nu))), "Gu", "Gu %s", show(d.Gu).c_str());
  CHECK(c, close(d.Hu, Mat(p.H.rightCols(nu))), "Hu", "Hu %s", show(d.Hu).c_str());
  CHECK(c, close(d.Fx, p.A), "Fx", "Fx %s, expected %s", show(d.Fx).c_str(), show(p.A).c_str());
  CHECK(c, close(d.Fu, p.B), "Fu", "Fu %s, expected %s", show(d.Fu).c_str(), show(p.B).c_str());
}

// The two models behind one interface
struct Disc {
  typedef ActionModelLQR M;
  typedef ActionDataAbstract D;
  static const bool disc = true;
  static long rows(long n) { return n; }
  static bool fits(long) { return true; }
  static std::shared_ptr<M> make(int w, Par& p, long n, long nu, bool dfree) {
    if (w == 0) return std::make_shared<M>(p.A, p.B, p.Q, p.R, p.N);
    if (w == 1) return std::make_shared<M>(p.A, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
    if (w == 2) return std::make_shared<M>(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
    return std::make_shared<M>(n, nu, dfree);
  }
  static std::shared_ptr<M> random(long n, long nu, long ng, long nh) { return std::make_shared<M>(M::Random(n, nu, ng, nh)); }
  static Mat A(const M& m) { return m.get_A(); }
  static void set(M& m, const Par& p) { m.set_LQR(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h); }
  static const Vec& out(const D& d) { return d.xnext; }
};
struct Diff {
  typedef DifferentialActionModelLQR M;
  typedef DifferentialActionDataAbstract D;
  static const bool disc = false;
  static long rows(long n) { return n / 2; }
  static bool fits(long n) { return n % 2 == 0; }
  static std::shared_ptr<M> make(int w, Par& p, long n, long nu, bool dfree) {
    Mat Aq = p.A.leftCols(n / 2), Av = p.A.rightCols(n / 2);
    if (w == 0) return std::make_shared<M>(Aq, Av, p.B, p.Q, p.R, p.N);
    if (w == 1) return std::make_shared<M>(Aq, Av, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
    if (w == 2) return std::make_shared<M>(Aq, Av, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
    return std::make_shared<M>(n / 2, nu, dfree);
  }
  static std::shared_ptr<M> random(long n, long nu, long ng, long nh) { return std::make_shared<M>(M::Random(n / 2, nu, ng, nh)); }
  static Mat A(const M& m) {
    Mat a(m.get_Aq().rows(), 2 * m.get_Aq().cols());
    a << m.get_Aq(), m.get_Av();
    return a;
  }
  static void set(M& m, const Par& p) {
    const long k = p.A.cols() / 2;
    m.set_LQR(p.A.leftCols(k), p.A.rightCols(k), p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  }
  static const Vec& out(const D& d) { return d.xout; }
};

template <class K>
static void check_params(mc::Ctx& c, const typename K::M& m, const Par& p, const char* when) {
  CHECK(c, same(K::A(m), p.A) && same(m.get_B(), p.B) && same(m.get_f(), p.f) && same(m.get_Q(), p.Q) && same(m.get_R(), p.R) &&
              same(m.get_N(), p.N) && same(m.get_G(), p.G) && same(m.get_H(), p.H) && same(m.get_q(), p.q) &&
              same(m.get_r(), p.r) && same(m.get_g(), p.g) && same(m.get_h(), p.h),
          "parameters", "%s: the model's parameters are not the given ones", when);
}

template <class K>
static void lqr(mc::Ctx& c) {
  Quiet quiet;
  static const long dims[6][4] = {{2, 1, 0, 0}, {3, 1, 1, 3}, {1, 1, 2, 1}, {4, 2, 3, 3}, {5, 1, 0, 1}, {2, 3, 1, 2}};
  const int k = c.choose(6, "dimensions");
  const long n = dims[k][0], nu = dims[k][1];
  long ng = dims[k][2], nh = dims[k][3];
  if (!K::fits(n)) c.prune();
  // 0 plain, 1 with drift and linear terms, 2 with constraints, 3/4 default of given dimensions, 5 random, 6 copy
  const int ctor = c.choose(7, "constructor");
  if (ctor < 2 || ctor == 3 || ctor == 4) ng = nh = 0;
  const long rows = K::rows(n);
  Par p(rows, n, nu, ng, nh, 10 + k);
  std::shared_ptr<typename K::M> m;
  if (ctor == 0) p.f.setZero(), p.q.setZero(), p.r.setZero();
  if (ctor <= 2) m = K::make(ctor, p, n, nu, true);
  if (ctor == 3 || ctor == 4) {
    m = K::make(3, p, n, nu, ctor == 3);
    p.A.resize(rows, n);
    if (K::disc)
      p.A.setIdentity();
    else
      p.A << Mat::Identity(rows, rows), Mat::Identity(rows, rows);
    p.B = Mat::Identity(rows, nu), p.Q = Mat::Identity(n, n), p.R = Mat::Identity(nu, nu), p.N = Mat::Zero(n, nu);
    p.f = ctor == 3 ? Vec(Vec::Zero(rows)) : Vec(Vec::Ones(rows)), p.q = Vec::Ones(n), p.r = Vec::Ones(nu);
  }
  if (ctor == 5) {
    srand(1);
    m = K::random(n, nu, ng, nh);
    p.A = K::A(*m), p.B = m->get_B(), p.Q = m->get_Q(), p.R = m->get_R(), p.N = m->get_N(), p.G = m->get_G(), p.H = m->get_H();
    p.f = m->get_f(), p.q = m->get_q(), p.r = m->get_r(), p.g = m->get_g(), p.h = m->get_h();
    CHECK(c, p.A.cols() == n && p.B.cols() == nu && p.G.rows() == ng && p.H.rows() == nh, "random", "wrong dimensions");
  }
  if (ctor == 6) {
    std::shared_ptr<typename K::M> src = K::make(2, p, n, nu, true);
    m = std::make_shared<typename K::M>(*src);
    Par o(rows, n, nu, ng, nh, 900);
    K::set(*src, o);  // must not reach the copy
  }
  CHECK(c, (long)m->get_state()->get_nx() == n && (long)m->get_nu() == nu && (long)m->get_ng() == ng && (long)m->get_nh() == nh &&
              (long)m->get_ng_T() == ng && (long)m->get_nh_T() == nh,
          "dimensions", "n %zu nu %zu ng %zu nh %zu", m->get_state()->get_nx(), m->get_nu(), m->get_ng(), m->get_nh());
  check_params<K>(c, *m, p, "after construction");
  std::shared_ptr<typename K::D> d[2] = {m->createData(), nullptr};
  const int depth = c.thorough ? 6 : 5;
  int edits = 0;
  for (int s = 0; s < depth; ++s) {
    const int op = c.choose(8, "operation");  // per data: run, run+diff, terminal+diff; edit; refused edit
    if (op == 6) {
      p = Par(rows, n, nu, ng, nh, 100 + 10 * k + ++edits);
      K::set(*m, p);
      c.op("set_LQR(#%d)", edits);
      check_params<K>(c, *m, p, "after set_LQR");
      continue;
    }
    if (op == 7) {
      Par bad(rows, n, nu, ng, nh, 500);
      bad.Q = -bad.Q;
      c.op("set_LQR(not PSD)");
      CHECK(c, throws([&] { K::set(*m, bad); }), "psd", "an indefinite cost was accepted");
      check_params<K>(c, *m, p, "after a refused set_LQR");
      continue;
    }
    const int w = op % 2;
    if (!d[w]) d[w] = m->createData();
    Gen gx(7 * s + k);
    Vec x = gx.vec(n), u = gx.vec(nu);
    if (op / 2 == 0) {
      c.op("calc(data%d)", w);
      m->calc(d[w], x, u);
      costs(c, p, *d[w], x, u, false, false);
    } else if (op / 2 == 1) {
      c.op("calc, calcDiff(data%d)", w);
      m->calc(d[w], x, u);
      m->calcDiff(d[w], x, u);
      costs(c, p, *d[w], x, u, false, true);
    } else {
      c.op("calc, calcDiff(data%d) terminal", w);
      m->calc(d[w], x);
      m->calcDiff(d[w], x);
      costs(c, p, *d[w], x, Vec::Zero(nu), true, true);
      if (K::disc) CHECK(c, close(K::out(*d[w]), x), "xnext_T", "terminal xnext differs from x");
      continue;
    }
    Vec y = p.A * x + p.B * u + p.f;
    CHECK(c, close(K::out(*d[w]), y), "dynamics", "next state %s, expected %s", show(K::out(*d[w])).c_str(), show(y).c_str());
  }
}

static void getters(mc::Ctx& c) {  // accessors named after the derivatives
  const int k = c.choose(8, "getter");
  Par p(2, 2, 1, 1, 1, 3);
  ActionModelLQR m(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  const Mat got[] = {m.get_Fx(), m.get_Fu(), m.get_Lxx(), m.get_Lxu(), m.get_Luu(), m.get_f0(), m.get_lx(), m.get_lu()};
  const Mat want[] = {p.A, p.B, p.Q, p.N, p.R, p.f, p.q, p.r};
  const char* names[] = {"get_Fx", "get_Fu", "get_Lxx", "get_Lxu", "get_Luu", "get_f0", "get_lx", "get_lu"};
  c.op("%s", names[k]);
  CHECK(c, same(got[k], want[k]), names[k], "%s returns %s, expected %s", names[k], show(got[k]).c_str(), show(want[k]).c_str());
  Par n2(2, 2, 1, 1, 1, 4);
  n2.Q = 3 * Mat::Identity(2, 2), n2.R = 2 * Mat::Identity(1, 1), n2.N = 0.1 * Mat::Ones(2, 1);
  p.Q *= 4, p.R *= 4;
  Par o = p;
  m.set_LQR(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  switch (k) {
    case 0: m.set_Fx(n2.A), o.A = n2.A; break;
    case 1: m.set_Fu(n2.B), o.B = n2.B; break;
    case 2: m.set_Lxx(p.Q * 2), o.Q = p.Q * 2; break;
    case 3: m.set_Lxu(p.N * 0.5), o.N = p.N * 0.5; break;
    case 4: m.set_Luu(p.R * 2), o.R = p.R * 2; break;
    case 5: m.set_f0(n2.f), o.f = n2.f; break;
    case 6: m.set_lx(n2.q), o.q = n2.q; break;
    case 7: m.set_lu(n2.r), o.r = n2.r; break;
  }
  check_params<Disc>(c, m, o, names[k]);
  DifferentialActionModelLQR m2(p.A, Mat(-p.A), p.B, Mat(4 * Mat::Identity(4, 4)), p.R, Mat(0.1 * Mat::Ones(4, 1)));
  CHECK(c, same(m2.get_Fq(), p.A) && same(m2.get_Fv(), Mat(-p.A)) && same(m2.get_Fu(), p.B) && same(m2.get_Lxx(), Mat(4 * Mat::Identity(4, 4))) &&
              same(m2.get_Luu(), p.R) && same(m2.get_Lxu(), Mat(0.1 * Mat::Ones(4, 1))),
          "diff-getters", "a derivative-named getter of the differential LQR returns another matrix");
}

static void unicycle(mc::Ctx& c) {
  ActionModelUnicycle m;
  double dt = 0.1, wx = 10, wu = 1;
  std::shared_ptr<ActionDataAbstract> d[2] = {m.createData(), m.createData()};
  const int depth = c.thorough ? 6 : 4;
  for (int s = 0; s < depth; ++s) {
    const int op = c.choose(10, "operation");
    if (op == 6) {
      dt = s % 2 ? 0.02 : 0.5;
      c.op("set_dt(%g)", dt);
      m.set_dt(dt);
    } else if (op == 7 || op == 8) {
      wx = op == 7 ? 0.3 + s : 4, wu = op == 7 ? 2 : 0.7 * s;
      c.op("set_cost_weights(%g, %g)", wx, wu);
      m.set_cost_weights(Eigen::Vector2d(wx, wu));
    } else if (op == 9) {
      c.op("set_dt(invalid)");
      CHECK(c, throws([&] { m.set_dt(0); }) && throws([&] { m.set_dt(-1); }), "dt", "a non-positive time step was accepted");
    } else {
      const int w = op % 2;
      Vec x(3), u(2);
      const int pt = c.choose(3, "point");
      x << (pt == 0 ? 0.3 : -1.2), (pt == 1 ? 0. : 0.8), (pt == 0 ? 0 : pt == 1 ? 2.5 : -1.1);
      u << (pt == 1 ? 0. : 0.7), (pt == 2 ? -1.3 : 0.4);
      const bool T = op / 2 == 2;
      c.op("evaluate(data%d, point %d%s)", w, pt, T ? ", terminal" : "");
      ActionDataAbstract& e = *d[w];
      const double cs = std::cos(x[2]), sn = std::sin(x[2]);
      T ? m.calc(d[w], x) : m.calc(d[w], x, u);
      Vec r(5), y(3);
      r << wx * x, (T ? Vec(Vec::Zero(2)) : Vec(wu * u));
      y << x[0] + cs * u[0] * dt, x[1] + sn * u[0] * dt, x[2] + u[1] * dt;
      if (T) y = x;
      CHECK(c, close(e.xnext, y), "xnext", "xnext %s, expected %s", show(e.xnext).c_str(), show(y).c_str());
      CHECK(c, close(e.r, r), "r", "r %s, expected %s", show(e.r).c_str(), show(r).c_str());
      CHECK(c, closes(e.cost, 0.5 * r.squaredNorm()), "cost", "cost %.12g, expected %.12g", e.cost, 0.5 * r.squaredNorm());
      c.state(mc::hash_mat(mc::hash_mat(1, e.xnext), e.r));
      if (op / 2 == 0) continue;
      T ? m.calcDiff(d[w], x) : m.calcDiff(d[w], x, u);
      Mat Fx = Mat::Identity(3, 3), Fu = Mat::Zero(3, 2);
      Fx(0, 2) = -sn * u[0] * dt, Fx(1, 2) = cs * u[0] * dt;
      Fu(0, 0) = cs * dt, Fu(1, 0) = sn * dt, Fu(2, 1) = dt;
      CHECK(c, close(e.Lx, Vec(wx * wx * x)) && close(e.Lxx, Mat(wx * wx * Mat::Identity(3, 3))), "Lx", "Lx %s Lxx %s", show(e.Lx).c_str(), show(e.Lxx).c_str());
      if (T) continue;
      CHECK(c, close(e.Lu, Vec(wu * wu * u)) && close(e.Luu, Mat(wu * wu * Mat::Identity(2, 2))) && e.Lxu.isZero(), "Lu", "Lu %s Luu %s Lxu %s",
              show(e.Lu).c_str(), show(e.Luu).c_str(), show(e.Lxu).c_str());
      CHECK(c, close(e.Fx, Fx) && close(e.Fu, Fu), "Fx", "Fx %s Fu %s", show(e.Fx).c_str(), show(e.Fu).c_str());
    }
    CHECK(c, m.get_dt() == dt && m.get_cost_weights() == Eigen::Vector2d(wx, wu), "settings", "settings differ from those given");
  }
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("lqr", lqr<Disc>);
  e.add("difflqr", lqr<Diff>);
  e.add("getters", getters);
  e.add("unicycle", unicycle);
  return e.main(argc, argv);
}
