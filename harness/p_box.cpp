// C03: box solvers never leave the control limits and find the constrained optimum.
#include "boxopt.hpp"

static mc::Ctx* C;
static const Prob* PR;
static int trials;
static void inside(const Vs& us, const char* what) {
  for (int t = 0; t < PR->T(); ++t) {
    const TAct& m = *PR->m[t];
    if (!m.get_has_control_limits()) continue;
    for (long i = 0; i < us[t].size(); ++i)
      CHECK(*C, us[t][i] >= m.get_u_lb()[i] && us[t][i] <= m.get_u_ub()[i], "limits", "%s: control %.17g of node %d is outside [%.17g, %.17g]", what, us[t][i], t, m.get_u_lb()[i], m.get_u_ub()[i]);
  }
}
template <class S>
struct Watch : S {
  using S::S;
  double tryStep(const double a) override {
    const double r = S::tryStep(a);
    ++trials;
    inside(this->us_try_, "trial");
    return r;
  }
};
static SolverP make(int kind, const Prob& P) {
  if (kind == K_BOXDDP) return std::make_shared<Watch<SolverBoxDDP>>(P.p);
  return std::make_shared<Watch<SolverBoxFDDP>>(P.p);
}
static void run(mc::Ctx& c, int section) {
  Quiet quiet;
  C = &c;
  trials = 0;
  Shape h;
  const int kind = K_BOXDDP + c.choose(2, "solver");
  h.state = section == 1 ? c.choose(3, "state") : c.choose(2, "state");
  const int T = 1 + c.choose(section == 0 && !c.thorough ? 2 : 3, "horizon");
  h.nu.clear();
  int total = 0;
  std::vector<int> lim;
  for (int t = 0; t < T; ++t) {
    h.nu.push_back(c.pick<int>({1, 2, 0}, "nu"));
    total += h.nu.back();
    lim.push_back(section == 2 ? c.pick<int>({6, 0}, "limits") : h.nu.back() == 0 ? 0 : c.choose(6, "limits"));
  }
  if (total > 5 || !total) c.prune();
  h.e = section == 1 ? c.pick<double>({0.8, 2.}, "nonlinearity") : 0;
  h.fscale = section == 1 ? 1. : c.pick<double>({0.3, 1.}, "dynamics");
  h.seed = 1 + c.choose(c.thorough ? 3 : 1, "seed");
  Prob P = make_prob(h);
  PR = &P;
  bool any = false;
  for (int t = 0; t < T; ++t) any = limits(C, P, t, lim[t]) || any;
  SolverP S = make(kind, P);
  SolverDDP& D = static_cast<SolverDDP&>(*S);
  if (section == 1) {
    const int k = c.choose(3, "step lengths");
    if (k == 1) D.set_alphas({1., 0.3}), D.set_th_acceptstep(0.7);
    if (k == 2) D.set_alphas({0.6, 0.3, 0.02});
  }
  const bool tight = section == 0 && c.flip("tight stopping threshold");
  if (tight) S->set_th_stop(1e-9);
  Vs xs, us;
  // Convergence is promised from control guesses within the limits: a cheaper guess outside them is rightly never left.
  const int guess = c.choose(section == 1 ? 5 : 4, "guess");
  const bool clip = section == 1 ? guess == 4 : !(kind == K_BOXDDP && guess == 2);
  us = guess == 0 ? P.zeros_u() : P.some_u(guess, guess == 1 ? 1 : 3);
  if (clip)
    for (int t = 0; t < T; ++t)
      if (P.m[t]->get_has_control_limits()) us[t] = us[t].cwiseMax(P.m[t]->get_u_lb()).cwiseMin(P.m[t]->get_u_ub());
  if (guess == 1) xs = P.some_x(1);
  if (guess >= 2) xs = P.rollout(us);
  const bool said_feasible = guess >= 3;
  const Vs first = us;
  int iters = 0;
  S->setCallbacks({std::make_shared<Each>([&](SolverAbstract& s) {
    ++iters;
    c.note("iteration %zu: cost %.12g feasible %d stop %.3g step %g reg %g us %s", s.get_iter(), s.get_cost(), s.get_is_feasible(), s.get_stop(), s.get_steplength(), s.get_preg(), shows(s.get_us()).c_str());
    if (!same_all(s.get_us(), first)) inside(s.get_us(), "iterate");
    c.state(hash_all(kind, s.get_us()));
  })});
  c.op("%s.solve(guess %d)", kind_name(kind), guess);
  const bool ok = S->solve(xs, us, 100, said_feasible);
  if (section == 1) return;
  // Box-FDDP takes unlimited directions until it is feasible and may not get there; that is no convergence either way
  if (!ok && kind == K_BOXFDDP && !said_feasible) return c.outcome("BoxFDDP not converged from an infeasible guess");
  CHECK(c, ok, "convergence", "%s does not report convergence on a linear-quadratic problem (stop %g, iteration %zu)", kind_name(kind), S->get_stop(), S->get_iter());
  inside(S->get_us(), "solution");
  const Prob::Eval e = P.eval(S->get_xs(), S->get_us());
  CHECK(c, closes(S->get_cost(), e.cost), "cost", "reported cost %.12g, expected %.12g", S->get_cost(), e.cost);
  const Best b = constrained(P);
  CHECK(c, e.cost <= b.cost + (tight ? 1e-7 : 1e-3) * (1 + std::fabs(b.cost)), "optimal-cost", "%s: cost %.10g, the limited optimum is %.10g at %s; solution %s", kind_name(kind), e.cost, b.cost, shows(b.us).c_str(), shows(S->get_us()).c_str());
  const Vs g = gradient(P, S->get_xs(), S->get_us());
  for (int t = 0; t < T; ++t)
    for (long i = 0; i < h.nu[t]; ++i) {
      const bool on = P.m[t]->get_has_control_limits();
      const double u = S->get_us()[t][i], lo = on ? P.m[t]->get_u_lb()[i] : -INF, hi = on ? P.m[t]->get_u_ub()[i] : INF, tol = tight ? 3e-4 : 2e-2;
      const bool good = (g[t][i] >= -tol || u >= hi - 1e-6) && (g[t][i] <= tol || u <= lo + 1e-6);
      CHECK(c, good, "first-order", "%s: gradient %g of control %d/%ld = %.10g in [%g, %g]", kind_name(kind), g[t][i], t, i, u, lo, hi);
    }
  if (section == 2) {
    Prob Q = P.twin();
    SolverP R = make_solver(kind == K_BOXDDP ? K_DDP : K_FDDP, Q.p);
    R->set_th_stop(S->get_th_stop());
    const bool ok2 = R->solve(xs, us, 100, said_feasible);
    CHECK(c, ok2 && close_all(S->get_us(), R->get_us(), 1e-3), "unlimited", "%s with inactive limits %s, without %s", kind_name(kind), shows(S->get_us()).c_str(), shows(R->get_us()).c_str());
    CHECK(c, closes(S->get_cost(), R->get_cost(), 1e-5), "unlimited-cost", "%s with inactive limits costs %.12g, without %.12g", kind_name(kind), S->get_cost(), R->get_cost());
  }
  c.outcome(mc::strf("%s in %d iterations", kind_name(kind), iters));
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("limited", [](mc::Ctx& c) { run(c, 0); });
  e.add("nonlinear", [](mc::Ctx& c) { run(c, 1); });
  e.add("inactive", [](mc::Ctx& c) { run(c, 2); });
  return e.main(argc, argv);
}
