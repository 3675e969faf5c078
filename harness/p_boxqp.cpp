// C11: the box-QP solver, exhaustively over small problems and over reuse histories.
#include "util.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
using crocoddyl::BoxQP;
using crocoddyl::BoxQPSolution;

struct QP {
  Mat H;
  Vec q, lb, ub, x0;
};

// Reference: enumerate all active sets and return the KKT point (unique for H > 0).
static bool brute(const QP& p, Vec& best) {
  const long n = p.q.size();
  long total = 1;
  for (long i = 0; i < n; ++i) total *= 3;
  double fbest = INF;
  for (long c = 0; c < total; ++c) {
    std::vector<int> a(n);
    long r = c;
    bool ok = true;
    Vec x(n);
    std::vector<long> fr;
    for (long i = 0; i < n; ++i, r /= 3) {
      a[i] = r % 3;
      if (a[i] == 1) {
        if (!std::isfinite(p.lb[i])) ok = false;
        x[i] = p.lb[i];
      } else if (a[i] == 2) {
        if (!std::isfinite(p.ub[i])) ok = false;
        x[i] = p.ub[i];
      } else
        fr.push_back(i);
    }
    if (!ok) continue;
    long nf = fr.size();
    if (nf) {
      Mat Hf(nf, nf);
      Vec qf(nf);
      for (long i = 0; i < nf; ++i) {
        qf[i] = p.q[fr[i]];
        for (long j = 0; j < nf; ++j) Hf(i, j) = p.H(fr[i], fr[j]);
        for (long j = 0; j < n; ++j)
          if (a[j]) qf[i] += p.H(fr[i], j) * x[j];
      }
      Vec xf = Hf.fullPivLu().solve(-qf);
      for (long i = 0; i < nf; ++i) x[fr[i]] = xf[i];
    }
    for (long i = 0; i < n; ++i)
      if (x[i] < p.lb[i] - 1e-12 || x[i] > p.ub[i] + 1e-12) ok = false;
    if (!ok) continue;
    double f = 0.5 * x.dot(p.H * x) + p.q.dot(x);
    if (f < fbest) {
      fbest = f;
      best = x;
    }
  }
  return fbest < INF;
}

static Mat hessian(size_t n, size_t k) {
  Mat H = Mat::Identity(n, n);
  if (k == 1) {
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) H(i, j) = i == j ? 2. + i : (i + j == 1 ? 1. : -0.75);
  } else if (k == 2) {
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) H(i, j) = i == j ? 1. : 0.9;
  } else if (k == 3) {
    Gen g(77 + n);
    H = g.spd(n, 0.05);
  } else if (k == 4) {
    for (size_t i = 0; i < n; ++i) H(i, i) = std::pow(10., (double)i * 2 - 2);
    for (size_t i = 1; i < n; ++i) H(i, i - 1) = H(i - 1, i) = 0.3 * std::sqrt(H(i, i) * H(i - 1, i - 1));
  }
  return H;
}
static void bound(size_t k, double& l, double& u) {
  static const double L[] = {-INF, 0, -1, 0.5, -INF, 1, -0.25, 0, -3};
  static const double U[] = {INF, 1, 1, 0.5, 0, INF, 0.25, 0, -2};
  l = L[k];
  u = U[k];
}

static void judge(mc::Ctx& c, const QP& p, const BoxQPSolution& s, const std::string& who) {
  const long n = p.q.size();
  const std::string in = who + " H=" + show(p.H) + " q=" + show(p.q) + " lb=" + show(p.lb) + " ub=" + show(p.ub) +
                         " x0=" + show(p.x0) + " -> x=" + show(s.x);
  c.check(s.x.size() == n && finite(s.x), "boxqp:not-finite", in);
  for (long i = 0; i < n; ++i) c.check(s.x[i] >= p.lb[i] && s.x[i] <= p.ub[i], "boxqp:outside-bounds", in);
  Vec ref;
  c.check(brute(p, ref), "internal:no-reference", in);
  c.check(close(s.x, ref, 1e-6), "boxqp:not-optimal", in + " but the minimiser is " + show(ref));
  // the reported partition
  std::vector<int> seen(n, 0);
  for (size_t i : s.free_idx) {
    c.check(i < (size_t)n && !seen[i], "boxqp:partition", in);
    seen[i] = 1;
  }
  for (size_t i : s.clamped_idx) {
    c.check(i < (size_t)n && !seen[i], "boxqp:partition", in);
    seen[i] = 2;
  }
  Vec g = p.H * s.x + p.q;
  for (long i = 0; i < n; ++i) {
    c.check(seen[i] != 0, "boxqp:partition", in + " index in neither set");
    if (seen[i] == 2)
      c.check((s.x[i] == p.lb[i] && g[i] > -1e-6) || (s.x[i] == p.ub[i] && g[i] < 1e-6), "boxqp:clamped-set",
              in + mc::strf(" index %ld reported clamped", i));
    else {
      // a coordinate that converged to a bound up to rounding may be reported on either side
      bool at = (s.x[i] - p.lb[i] < 1e-6 && g[i] > 0) || (p.ub[i] - s.x[i] < 1e-6 && g[i] < 0);
      c.check(at || std::fabs(g[i]) < 1e-5 * (1 + p.H.norm()), "boxqp:free-set", in + mc::strf(" index %ld reported free", i));
    }
  }
  long nf = s.free_idx.size();
  Mat Hf(nf, nf);
  for (long i = 0; i < nf; ++i)
    for (long j = 0; j < nf; ++j) Hf(i, j) = p.H(s.free_idx[i], s.free_idx[j]);
  c.check(s.Hff_inv.rows() == nf && s.Hff_inv.cols() == nf, "boxqp:Hff_inv", in + " shape");
  if (nf) c.check(close(Mat(s.Hff_inv * Hf), Mat(Mat::Identity(nf, nf)), 1e-5), "boxqp:Hff_inv", in);
  c.state(mc::hash_mat(mc::hash_mat(nf, s.x), s.Hff_inv));
  c.outcome(mc::strf("n=%ld free=%ld", n, nf));
}

static void single(mc::Ctx& c) {
  const size_t n = 1 + c.choose(3, "n");
  QP p;
  const bool small = n == 3 && !c.thorough;
  p.H = hessian(n, c.choose(5, "H"));
  p.q.resize(n);
  p.lb.resize(n);
  p.ub.resize(n);
  p.x0.resize(n);
  static const double Q[] = {1, -2, 0, 2, -0.5};
  static const double X[] = {0, 5, -5, 0.5};
  for (size_t i = 0; i < n; ++i) {
    p.q[i] = Q[c.choose(small ? 3 : 5, "q")];
    bound(c.choose(small ? 5 : 9, "bounds"), p.lb[i], p.ub[i]);
  }
  const size_t xk = c.choose(small ? 2 : 4, "x0");
  for (size_t i = 0; i < n; ++i) p.x0[i] = X[xk] * (i % 2 ? -1 : 1);
  const double reg = c.flip("reg") ? 0. : 1e-9;
  BoxQP qp(n, 100, 0.1, 1e-9, reg);
  c.op("solve n=%zu", n);
  const BoxQPSolution& s = qp.solve(p.H, p.q, p.lb, p.ub, p.x0);
  judge(c, p, s, "fresh");
}

static QP menu(size_t k) {
  QP p;
  size_t n = k < 3 ? 1 + k : (k == 3 ? 2 : (k == 4 ? 3 : 2));
  p.H = hessian(n, k % 4);
  if (k == 5) p.H = -Mat::Identity(n, n);  // not convex: the factorisation fails and solve throws
  p.q = Gen(k + 5).vec(n) * 2;
  p.lb = Vec::Constant(n, k == 2 ? -INF : (k == 3 ? 0.2 : -0.3));
  p.ub = Vec::Constant(n, k == 2 ? 0.1 : (k == 3 ? 0.2 : 0.4));
  p.x0 = Gen(k + 9).vec(n) * 3;
  return p;
}
static void histories(mc::Ctx& c) {
  BoxQP qp(menu(0).q.size());
  size_t cur = menu(0).q.size();
  const size_t depth = c.thorough ? 5 : 4;
  std::string h;
  for (size_t d = 0; d < depth; ++d) {
    size_t k = c.choose(6, "problem");
    QP p = menu(k);
    if ((size_t)p.q.size() != cur) {
      // wrong dimensions are refused and change nothing
      c.op("solve wrong size");
      c.check(throws([&] { qp.solve(p.H, p.q, p.lb, p.ub, p.x0); }), "boxqp:size-accepted", h);
      cur = p.q.size();
      c.op("set_nx %zu", cur);
      qp.set_nx(cur);
    }
    h += mc::strf(" solve#%zu", k);
    c.op("solve menu problem %zu", k);
    BoxQPSolution a, b;
    bool ta = throws([&] { a = qp.solve(p.H, p.q, p.lb, p.ub, p.x0); });
    BoxQP fresh(cur);
    bool tb = throws([&] { b = fresh.solve(p.H, p.q, p.lb, p.ub, p.x0); });
    c.check(ta == tb, "boxqp:history", h + " throws differently from a fresh solver");
    if (ta) {
      c.outcome("throws");
      continue;
    }
    c.check(same(a.x, b.x) && same(a.Hff_inv, b.Hff_inv) && a.free_idx == b.free_idx && a.clamped_idx == b.clamped_idx,
            "boxqp:history", h + " differs from a fresh solver: " + show(a.x) + " vs " + show(b.x));
    judge(c, p, a, h);
  }
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("single", single);
  e.add("histories", histories);
  return e.main(argc, argv);
}
