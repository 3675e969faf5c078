// C06: a failing or non-finite model evaluation never corrupts a solver.
#include "faults.hpp"

struct Cfg {
  int kind, guess, alphas;
  double lim;
};
static void setup(SolverP S, const Cfg& f) {
  if (f.kind == K_KKT) return;
  SolverDDP& d = static_cast<SolverDDP&>(*S);
  if (f.alphas == 1) d.set_alphas({1.});
  if (f.alphas == 2) d.set_alphas({0.8, 0.3});
}
static void run(mc::Ctx& c, bool many) {
  Quiet quiet;
  Cfg f;
  f.kind = c.choose(KINDS, "solver");
  f.guess = c.choose(3, "guess");
  f.alphas = f.kind == K_KKT ? 0 : c.choose(3, "step lengths");
  Shape h;
  h.state = many ? 0 : c.thorough ? c.choose(3, "state") : 2 * c.choose(2, "state");
  const int nodes = c.choose(many ? 2 : 4, "nodes");
  static const std::vector<int> nus[] = {{1}, {2, 1}, {1, 0}, {0, 2}};
  h.nu = nus[nodes];
  if (is_intro(f.kind))
    for (int n : h.nu) h.nh.push_back(n == 2 ? 1 : 0);
  h.e = c.pick<double>({0.8, 0.}, "nonlinearity");
  h.seed = 1 + c.choose(c.thorough && !many ? 3 : 1, "seed");
  Prob P = make_prob(h);
  const bool limited = is_box(f.kind) && c.flip("limits");
  if (limited)
    for (auto& m : P.m)
      if (m->get_nu()) m->set_u_lb(Vec::Constant(m->get_nu(), -0.4)), m->set_u_ub(Vec::Constant(m->get_nu(), 0.3));
  Vs us = P.some_u(1, limited ? 0.2 : 1), xs = f.guess == 0 ? P.some_x(2) : P.rollout(us);
  SolverP S = make_solver(f.kind, P.p);
  setup(S, f);
  Fault hook;
  hook.c = &c;
  for (auto& m : P.m) m->hook = &hook;
  P.mT->hook = &hook;
  auto judge = [&](SolverAbstract& s, const char* when) {
    const bool was_on = hook.on;
    hook.on = false;
    CHECK(c, all_finite(s.get_xs()) && all_finite(s.get_us()), "finite", "%s stores a non-finite trajectory %s (%s): %s %s", kind_name(f.kind), when, hook.what.c_str(), shows(s.get_xs()).c_str(), shows(s.get_us()).c_str());
    if (!same_all(s.get_xs(), xs) || !same_all(s.get_us(), us)) {
      const Prob::Eval e = P.eval(s.get_xs(), s.get_us());
      CHECK(c, std::isfinite(s.get_cost()), "finite-cost", "%s reports cost %g for the trajectory it accepted %s (%s)", kind_name(f.kind), s.get_cost(), when, hook.what.c_str());
      CHECK(c, closes(s.get_cost(), e.cost), "coherent", "%s reports cost %.12g for a trajectory costing %.12g %s (%s)", kind_name(f.kind), s.get_cost(), e.cost, when, hook.what.c_str());
      if (s.get_is_feasible() && f.kind != K_KKT) CHECK(c, e.norm(e.fs, false) < 1e-11, "gaps", "%s reports a feasible trajectory with gap %g %s (%s)", kind_name(f.kind), e.norm(e.fs, false), when, hook.what.c_str());
    }
    hook.on = was_on;
  };
  S->setCallbacks({std::make_shared<Each>([&](SolverAbstract& s) {
    c.note("iteration %zu: cost %.10g feasible %d stop %g step %g reg %g", s.get_iter(), s.get_cost(), s.get_is_feasible(), s.get_stop(), s.get_steplength(), s.get_preg());
    judge(s, "after an iteration");
    c.state(hash_all(f.kind, s.get_xs()));
  })});
  const int maxiter = many ? 3 : 12;
  c.op("%s.solve", kind_name(f.kind));
  const bool ok = S->solve(xs, us, maxiter, f.guess == 2);
  judge(*S, "at the end");
  hook.on = false;
  if (ok && !limited && !is_intro(f.kind) && S->get_preg() < 1e-3) {  // converged: stationary along its own trajectory
    Vec p = P.mT->lT.gz(zof(P.s, S->get_xs().back()), Vec::Zero(P.mT->get_nu()));
    if (h.state < 2) {
      const long n = P.s->get_ndx();
      for (int t = P.T(); t--;) {
        const Vec z = zof(P.s, S->get_xs()[t]), &u = S->get_us()[t];
        const Vec g = P.m[t]->l.gu(z, u) + P.m[t]->f.Ju(z, u).transpose() * p;
        CHECK(c, !g.size() || g.cwiseAbs().maxCoeff() < 1e-2, "false-convergence", "%s reports convergence (stop %g) with gradient %s at node %d (%s)", kind_name(f.kind), S->get_stop(), show(g).c_str(), t, hook.what.c_str());
        p = P.m[t]->l.gz(z, u) + (Mat::Identity(n, n) + P.m[t]->f.Jz(z, u)).transpose() * p;
      }
    }
  }
  if (!hook.fired) c.outcome(mc::strf("%s without fault: %s", kind_name(f.kind), ok ? "converged" : "stopped"));
  else c.outcome(mc::strf("%s with fault: %s", kind_name(f.kind), ok ? "converged" : "stopped"));
  // afterwards, as if nothing had happened
  S->setCallbacks({});
  Prob Q = P.twin();
  SolverP N = make_solver(f.kind, Q.p);
  setup(N, f);
  const int again = c.thorough ? c.choose(2, "second solve") : 1;
  Vs us2 = again ? us : P.some_u(2, 0.2), xs2 = again ? xs : P.rollout(us2);
  const bool a = S->solve(xs2, us2, maxiter, again ? f.guess == 2 : true), b = N->solve(xs2, us2, maxiter, again ? f.guess == 2 : true);
  // the box-QP warm start leaves differences within its tolerance
  const bool eq = limited ? close_all(S->get_us(), N->get_us(), 2e-3) && closes(S->get_cost(), N->get_cost(), 1e-4)
                          : a == b && same_all(S->get_us(), N->get_us()) && same_all(S->get_xs(), N->get_xs()) && S->get_cost() == N->get_cost() && S->get_iter() == N->get_iter();
  CHECK(c, eq, "recovery", "%s after %s: solve returns %d with cost %.17g after %zu iterations, a new solver %d with %.17g after %zu", kind_name(f.kind), hook.what.c_str(), a, S->get_cost(), S->get_iter(), b, N->get_cost(), N->get_iter());
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("one-fault", [](mc::Ctx& c) { run(c, false); }, 1, 1);
  e.add("two-faults", [](mc::Ctx& c) { run(c, true); }, 2, 3);
  return e.main(argc, argv);
}
