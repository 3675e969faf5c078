// C09: the equality-constrained solver satisfies its constraints at the optimum.
#include "solve.hpp"

static void run(mc::Ctx& c, bool history) {
  Quiet quiet;
  Shape h;
  h.state = c.choose(2, "state");
  const int T = 1 + c.choose(c.thorough && !history ? 4 : 3, "horizon");
  h.nu.clear();
  for (int t = 0; t < T; ++t) {
    const int k = c.choose(history ? 4 : 7, "controls and constraints");
    static const int nu[] = {2, 1, 3, 2, 0, 1, 2}, nh[] = {1, 0, 2, 0, 0, 1, 2};
    h.nu.push_back(nu[k]), h.nh.push_back(nh[k]);
  }
  h.fscale = history ? 0.6 : c.pick<double>({0.3, 1.}, "dynamics");
  h.seed = 1 + c.choose(history ? 1 : c.thorough ? 5 : 2, "seed");
  Prob P = make_prob(h);
  const Dense ref = dense(P, true);
  if (!ref.unique || std::fabs(ref.cost) > 300) c.prune();
  for (auto& a : P.m)  // well-conditioned constraints only
    if (a->get_nh() && Eigen::JacobiSVD<Mat>(a->h.B).singularValues().tail(1)[0] < 0.15) c.prune();
  const int kind = K_LU + c.choose(3, "equality solver");
  SolverP S = make_solver(kind, P.p);
  auto solve = [&](int k, int guess) {
    std::static_pointer_cast<SolverIntro>(S)->set_equality_solver(k == K_LU ? LuNull : k == K_QR ? QrNull : Schur);
    Vs xs, us;
    if (guess == 1) xs = P.some_x(1), us = P.some_u(1);
    if (guess >= 2) us = P.some_u(2, 2), xs = P.rollout(us);
    c.op("%s.solve(guess %d)", kind_name(k), guess);
    S->setCallbacks({std::make_shared<Each>([&](SolverAbstract& s) { c.note("iteration %zu: cost %.12g stop %.3g feasible %d d %.3g %.3g dV %.3g dVexp %.3g hfeas %.3g reg %.1g step %g upsilon %g", s.get_iter(), s.get_cost(), s.get_stop(), s.get_is_feasible(), s.get_d()[0], s.get_d()[1], s.get_dV(), s.get_dVexp(), s.get_hfeas(), s.get_preg(), s.get_steplength(), static_cast<SolverIntro&>(s).get_upsilon()); })});
    const bool ok = S->solve(xs, us, 50, guess == 3);
    CHECK(c, ok, "convergence", "%s does not report convergence (stop %g, violation %g, iteration %zu, reg %g)", kind_name(k), S->get_stop(), S->get_hfeas(), S->get_iter(), S->get_preg());
    const Prob::Eval e = P.eval(S->get_xs(), S->get_us());
    CHECK(c, e.norm(e.h, false) < 1e-8, "violation", "%s: equality violation %g", kind_name(k), e.norm(e.h, false));
    CHECK(c, e.norm(e.fs, false) < 1e-10, "gap", "%s: gap %g", kind_name(k), e.norm(e.fs, false));
    CHECK(c, closes(e.cost, ref.cost, 1e-7), "optimal-cost", "%s: cost %.12g, the optimum is %.12g", kind_name(k), e.cost, ref.cost);
    CHECK(c, close_all(S->get_us(), ref.us, 1e-4), "controls", "%s: controls %s, the optimum is %s", kind_name(k), shows(S->get_us()).c_str(), shows(ref.us).c_str());
    CHECK(c, close_all(S->get_xs(), ref.xs, 1e-4), "states", "%s: states %s, the optimum is %s", kind_name(k), shows(S->get_xs()).c_str(), shows(ref.xs).c_str());
    c.state(hash_all(k, ref.us));
  };
  if (!history)
    solve(kind, c.choose(4, "guess"));
  else
    for (int i = 0; i < 3; ++i) solve(K_LU + c.choose(3, "equality solver"), c.choose(4, "guess"));
}
// nonlinear problems with rejected steps: the three resolutions make the same iterations
static void nonlinear(mc::Ctx& c) {
  Quiet quiet;
  Shape h;
  h.state = 1 + c.choose(2, "state");
  const int T = 1 + c.choose(2, "horizon");
  h.nu.clear();
  for (int t = 0; t < T; ++t) {
    const int k = c.choose(4, "controls and constraints");
    static const int nu[] = {2, 1, 3, 2}, nh[] = {1, 0, 2, 2};
    h.nu.push_back(nu[k]), h.nh.push_back(nh[k]);
  }
  h.e = c.pick<double>({0.8, 2.}, "nonlinearity");
  h.seed = 1 + c.choose(c.thorough ? 12 : 4, "seed");
  Prob P = make_prob(h);
  for (auto& a : P.m)
    if (a->get_nh() && Eigen::JacobiSVD<Mat>(a->h.B).singularValues().tail(1)[0] < 0.15) c.prune();
  const int alphas = c.choose(3, "step lengths");
  const double acc = c.pick<double>({0.1, 0.9}, "acceptance");
  const int guess = c.choose(2, "guess");
  std::vector<Vs> X[3];
  std::vector<Vs> K[3];
  std::vector<std::pair<double, double>> reg_step[3];
  std::vector<double> hf[3];
  for (int k = 0; k < 3; ++k) {
    Prob Q = P.twin();
    SolverP S = make_solver(K_LU + k, Q.p);
    SolverIntro& I = static_cast<SolverIntro&>(*S);
    if (alphas == 1) I.set_alphas({1., 0.3});
    if (alphas == 2) I.set_alphas({1.});
    I.set_th_acceptstep(acc);
    I.set_reg_min(1e-3);
    Vs last;
    S->setCallbacks({std::make_shared<Each>([&](SolverAbstract& s) {
      const bool rejected = same_all(last, s.get_us());
      last = s.get_us();
      K[k].push_back(static_cast<SolverIntro&>(s).get_k());
      reg_step[k].push_back({s.get_preg(), rejected ? 0 : s.get_steplength()});
      hf[k].push_back(s.get_hfeas());
      X[k].push_back(last);
      c.note("%s: cost %.10g hfeas %.3g step %g reg %.3g %s", kind_name(K_LU + k), s.get_cost(), s.get_hfeas(), s.get_steplength(), s.get_preg(), rejected ? "rejected" : "");
    })});
    Vs xs, us = P.some_u(2, 1);
    xs = guess ? P.some_x(1) : P.rollout(us);
    c.op("%s", kind_name(K_LU + k));
    S->solve(xs, us, 6, guess == 0);
  }
  for (int k = 1; k < 3; ++k)
    for (size_t i = 0; i < X[0].size() && i < X[k].size(); ++i) {
      double big = 0;
      for (auto& u : X[0][i])
        if (u.size()) big = std::max(big, u.cwiseAbs().maxCoeff());
      // the Schur resolution needs more regularisation where Quu is not positive definite; a violation at the level of
      // rounding makes the merit function noise
      if (big > 50 || reg_step[k][i].first != reg_step[0][i].first || (i && hf[0][i - 1] < 1e-8)) break;
      CHECK(c, close_all(K[k][i], K[0][i], 1e-5), "gains", "iteration %zu: %s step %s, %s step %s", i, kind_name(K_LU), shows(K[0][i]).c_str(), kind_name(K_LU + k), shows(K[k][i]).c_str());
      if (reg_step[0][i].second != reg_step[k][i].second) break;  // a tie decided by rounding
      CHECK(c, close_all(X[k][i], X[0][i], 1e-5), "resolutions", "iteration %zu: %s controls %s, %s controls %s", i, kind_name(K_LU), shows(X[0][i]).c_str(), kind_name(K_LU + k), shows(X[k][i]).c_str());
      c.state(hash_all(i, X[0][i]));
    }
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("problems", [](mc::Ctx& c) { run(c, false); });
  e.add("switching", [](mc::Ctx& c) { run(c, true); });
  e.add("nonlinear", nonlinear);
  return e.main(argc, argv);
}
