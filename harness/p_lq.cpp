// C02: every solver solves linear-quadratic problems exactly.
#include "solve.hpp"
#include "crocoddyl/core/actions/lqr.hpp"

static std::shared_ptr<ShootingProblem> with_lqr(const Prob& P) {
  const long n = P.s->get_nx();
  auto lqr = [&](const TAct& a, const Quad& l) {
    return std::make_shared<ActionModelLQR>(Mat(Mat::Identity(n, n) + a.f.A), a.f.B, l.Q, l.R, l.S, a.f.c, l.q, l.r);
  };
  std::vector<std::shared_ptr<ActionModelAbstract>> m;
  for (auto& a : P.m) m.push_back(lqr(*a, a->l));
  return std::make_shared<ShootingProblem>(P.x0, m, lqr(*P.mT, P.mT->lT));
}

static void run(mc::Ctx& c, bool use_lqr, bool long_horizon) {
  Quiet quiet;
  Shape h;
  const int kind = c.choose(KINDS, "solver");
  h.state = c.choose(2, "state");
  const int T = long_horizon ? c.pick<int>({5, 9, 20}, "horizon") : 1 + c.choose(c.thorough ? 4 : 3, "horizon");
  h.nu.clear();
  if (long_horizon) {
    const int pat = c.choose(4, "control pattern");
    for (int t = 0; t < T; ++t) h.nu.push_back(pat == 0 ? 1 : pat == 1 ? t % 3 : pat == 2 ? 2 - t % 3 : (t == T - 1 ? 2 : 0));
  } else
    for (int t = 0; t < T; ++t) h.nu.push_back(use_lqr ? 1 + c.choose(3, "nu") : c.choose(4, "nu"));
  h.fscale = c.pick<double>({0.3, 1.2}, "dynamics");
  h.shift = c.pick<double>({0.5, 0.05, 10.}, "cost");
  h.seed = 1 + c.choose(c.thorough ? 4 : 1, "seed");
  if (long_horizon && h.fscale > 1) c.prune();  // unstable dynamics over long horizons are beyond double precision
  Prob P = make_prob(h);
  const Dense ref = dense(P, false);
  if (use_lqr) P.p = with_lqr(P);
  SolverP S = make_solver(kind, P.p);
  const int guess = c.choose(4, "guess");
  Vs xs, us;
  if (guess == 1) xs = P.some_x(1), us = P.some_u(1);
  if (guess >= 2) us = P.some_u(2, 3), xs = P.rollout(us);
  const double reg = c.pick<double>({NAN, 1e-4}, "initial regularisation");
  c.op("%s.solve(guess %d)", kind_name(kind), guess);
  const bool ok = S->solve(xs, us, 30, guess == 3, reg);
  CHECK(c, ok, "convergence", "%s does not report convergence on a linear-quadratic problem (stop %g, iteration %zu)", kind_name(kind), S->get_stop(), S->get_iter());
  const double scale = 1 + std::fabs(ref.cost), tol = 2e-6;
  const Prob::Eval e = P.eval(S->get_xs(), S->get_us());
  double cost0 = e.cost;
  // the library's LQR has no constant cost
  if (use_lqr) {
    for (auto& a : P.m) cost0 -= a->l.c;
    cost0 -= P.mT->lT.c;
  }
  CHECK(c, closes(S->get_cost(), cost0, 1e-8), "cost", "%s reports cost %.12g for a trajectory costing %.12g", kind_name(kind), S->get_cost(), cost0);
  CHECK(c, e.cost <= ref.cost + 1e-8 * scale && e.cost >= ref.cost - 1e-8 * scale, "optimal-cost", "%s: cost %.12g, the optimum is %.12g", kind_name(kind), e.cost, ref.cost);
  CHECK(c, close_all(S->get_us(), ref.us, tol * 10), "controls", "%s: controls %s, the optimum is %s", kind_name(kind), shows(S->get_us()).c_str(), shows(ref.us).c_str());
  CHECK(c, close_all(S->get_xs(), ref.xs, tol * 10), "states", "%s: states %s, the optimum is %s", kind_name(kind), shows(S->get_xs()).c_str(), shows(ref.xs).c_str());
  c.state(hash_all(kind, ref.us));
  c.outcome(mc::strf("%s in %zu iterations", kind_name(kind), S->get_iter() + 1));
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("general", [](mc::Ctx& c) { run(c, false, false); });
  e.add("lqr-model", [](mc::Ctx& c) { run(c, true, false); });
  e.add("long", [](mc::Ctx& c) { run(c, false, true); });
  return e.main(argc, argv);
}
