// C04, C05: step acceptance, regularisation, callbacks and termination.  The environment (direction, step, stopping
// measure) of each solver's loop is scripted; the loop itself is the real one and is compared with a reference machine.
#include "solve.hpp"

struct Dir {
  bool ok;
  double d0, d1, hfeas;
};
struct Try {
  bool ok;
  double dV, d0, d1, hfeas;
  int id;
};
struct Ev {
  enum Type { DIR, TRY, CALL, END } type;
  double a = 0, reg = 0, dreg = 0, cost = 0, dV = 0, dVexp = 0, stop = 0;
  int mark = 0, iter = 0, who = 0, feasible = 0, recalc = 0, accepted = 0;
  std::string str() const {
    if (type == DIR) return mc::strf("direction(recompute %d) at regularisation %g", recalc, reg);
    if (type == TRY) return mc::strf("step %g at regularisation %g", a, reg);
    if (type == CALL) return mc::strf("callback %d at iteration %d: trial %d stored (feasible %d), regularisation %g %g, step %g, dV %g, dVexp %g, stop %g", who, iter, mark, feasible, reg, dreg, a, dV, dVexp, stop);
    return mc::strf("returns %d: trial %d stored (feasible %d), regularisation %g", who, mark, feasible, reg);
  }
};
struct Setup {
  int kind, maxiter;
  double th_acc, th_neg, th_grad, stepdec, stepinc, rmin, rmax, inc, dec, init;
  bool feasible;
  std::vector<double> alphas;
};
struct World {  // answers given so far and events seen
  mc::Ctx* c;
  Setup s;
  int deviation;  // 0: all answers free; 1: answers other than the nominal one cost a deviation
  std::vector<Dir> dirs;
  std::vector<Try> tries;
  std::vector<double> stops;
  std::vector<Ev> ev;
  size_t pick(size_t n, const char* w) { return deviation ? c->deviate(n, w) : c->choose(n, w); }
};
static World* W;
static const double D[][2] = {{1, -0.5}, {-1, 0.5}, {1e-3, 0}, {1, -4}, {-0.2, 0.1}};  // expected improvement a (d0 + a d1 / 2)

template <class S>
struct Script : S {
  using S::S;
  void computeDirection(const bool recalc) override {
    Ev e;
    e.type = Ev::DIR, e.reg = this->preg_, e.recalc = recalc;
    W->ev.push_back(e);
    W->c->op("%s", e.str().c_str());
    if (W->dirs.size() > 60) W->c->fail("endless", "the solver keeps asking for directions");
    const bool small = !W->deviation && W->s.maxiter > 1 && !W->c->thorough;
    const size_t k = W->pick(small ? 4 : 6, "direction");
    Dir d{k != 1, 0, 0, 0};
    if (d.ok) {
      const size_t i = k ? k - 1 : 0;
      d.d0 = D[i][0], d.d1 = D[i][1];
      if (is_intro(W->s.kind)) this->hfeas_ = d.hfeas = W->pick(2, "violation") ? 0.5 : 0;
    }
    W->dirs.push_back(d);
    if (!d.ok) throw std::runtime_error("scripted");
    this->d_ << d.d0, d.d1;
  }
  const Eigen::Vector2d& expectedImprovement() override { return this->d_; }
  double tryStep(const double a) override {
    Ev e;
    e.type = Ev::TRY, e.a = a, e.reg = this->preg_;
    W->ev.push_back(e);
    W->c->op("%s", e.str().c_str());
    Try t{true, 0, 0, 0, 0, (int)W->tries.size() + 1};
    const bool per_step = is_fddp(W->s.kind);
    size_t k = W->pick(4, "step");
    t.d0 = this->d_[0], t.d1 = this->d_[1];
    // solvers taking gaps into account refresh the expected improvement at every trial
    if (per_step && (W->deviation || (W->s.maxiter == 1 && W->s.alphas.size() < 3))) {
      const size_t j = W->pick(2, "refreshed improvement");
      if (j) t.d0 = D[1][0], t.d1 = D[1][1];
    }
    if (is_intro(W->s.kind)) t.hfeas = this->hfeas_ ? (W->pick(2, "violation") ? 0.75 : 0.25) : 0;
    const double ex = a * (t.d0 + 0.5 * a * t.d1);
    double thr = (ex >= 0 ? W->s.th_acc : W->s.th_neg) * ex;
    if (const double ups = upsilon(*this)) {
      const double dfeas = this->hfeas_ - t.hfeas, pex = ex + a * ups * dfeas;
      thr = pex >= 0 ? W->s.th_acc * pex - ups * dfeas : W->s.th_neg * ex;
    }
    if (k == 0) t.dV = thr + 0.01;
    if (k == 1) t.ok = false;
    if (k == 2) t.dV = thr - 0.01;
    if (k == 3) t.dV = is_intro(W->s.kind) ? -5 : thr;  // exactly at the threshold is not enough
    W->tries.push_back(t);
    this->us_try_[0][0] = t.id;
    this->cost_try_ = t.id + 0.5;
    if (!t.ok) throw std::runtime_error("scripted");
    this->d_ << t.d0, t.d1;
    this->hfeas_try_ = t.hfeas;
    return t.dV;
  }
  double stoppingCriteria() override {
    const double v = W->pick(2, "stopping measure") ? 1e-12 : 0.5;
    W->stops.push_back(v);
    return this->stop_ = v;
  }
  template <class Q>
  static double upsilon(const Q&) {
    return 0;
  }
  static double upsilon(const SolverIntro& s) { return s.get_upsilon(); }
};
struct CB : CallbackAbstract {
  int who;
  explicit CB(int w) : who(w) {}
  void operator()(SolverAbstract& s) override {
    Ev e;
    e.type = Ev::CALL, e.who = who, e.iter = (int)s.get_iter(), e.mark = (int)s.get_us()[0][0], e.feasible = s.get_is_feasible();
    e.reg = s.get_preg(), e.dreg = s.get_dreg(), e.a = s.get_steplength(), e.dV = s.get_dV(), e.dVexp = s.get_dVexp(), e.stop = s.get_stop();
    e.cost = s.get_cost();
    W->ev.push_back(e);
    W->c->note("%s", e.str().c_str());
  }
};

// the documented machine, fed with the recorded answers
static std::vector<Ev> reference(const World& w) {
  const Setup& s = w.s;
  std::vector<Ev> out;
  size_t id = 0, it = 0, is = 0;
  const bool kkt = s.kind == K_KKT, fddp = is_fddp(s.kind), intro = is_intro(s.kind);
  double reg = kkt ? 0 : std::isnan(s.init) ? s.rmin : s.init, hfeas = 0, ups = 0, cost = 0;
  bool feasible = s.feasible, was = false;
  int mark = 0, recalc = 1;
  auto inc = [&] { reg = std::min(reg == 0 ? s.rmin : reg * s.inc, s.rmax); };
  auto dec = [&] { reg = std::max(reg / s.dec, s.rmin); };
  auto end = [&](bool ok) {
    Ev e;
    e.type = Ev::END, e.who = ok, e.mark = mark, e.feasible = feasible, e.reg = reg, e.cost = cost;
    out.push_back(e);
    return out;
  };
  for (int iter = 0; iter < s.maxiter; ++iter) {
    Dir d{};
    while (true) {
      Ev e;
      e.type = Ev::DIR, e.reg = reg, e.recalc = recalc;
      out.push_back(e);
      if (id == w.dirs.size()) return out;
      d = w.dirs[id++];
      if (d.ok) break;
      recalc = -1;  // free
      if (kkt) return end(false);
      inc();
      if (reg == s.rmax) return end(false);
    }
    if (intro) {
      hfeas = d.hfeas;
      if (hfeas != 0 && iter != 0) ups = std::max(ups, (d.d0 + 0.5 * d.d1) / ((1 - 0.3) * hfeas));
    }
    recalc = kkt ? -1 : 0;
    int accepted = 0;
    double a = 0, dV = 0, ex = 0;
    Try t{};
    bool seen = false;
    double lastdV = 0;
    double d1 = d.d1;
    for (double al : s.alphas) {
      Ev e;
      e.type = Ev::TRY, e.a = a = al, e.reg = reg;
      out.push_back(e);
      if (it == w.tries.size()) return out;
      t = w.tries[it++];
      if (!t.ok) continue;
      const double d0 = fddp ? t.d0 : d.d0;
      d1 = fddp ? t.d1 : d.d1;
      dV = lastdV = t.dV, ex = al * (d0 + 0.5 * al * d1);
      seen = true;
      const double dfeas = hfeas - t.hfeas, phi = dV + ups * dfeas, pex = ex + al * ups * dfeas;
      bool ok;
      if (kkt)
        ok = d0 < s.th_grad || !feasible || dV > s.th_acc * ex;
      else if (intro)
        ok = pex >= 0 ? std::fabs(d0) < s.th_grad || phi > s.th_acc * pex : dV > s.th_neg * ex;
      else if (ex >= 0)
        ok = std::fabs(d0) < s.th_grad || (!fddp && !feasible) || dV > s.th_acc * ex;
      else
        ok = fddp && !feasible && dV > s.th_neg * ex;
      if (ok) {
        was = feasible;
        feasible = fddp ? was || al == 1 : true;
        mark = t.id, cost = t.id + 0.5, hfeas = t.hfeas;
        accepted = 1;
        if (!kkt) recalc = 1;
        break;
      }
    }
    auto regularise = [&]() -> bool {  // false: give up
      if (kkt) return true;
      if (intro) {
        if (a > s.stepdec && lastdV >= 0) dec();
        if (a <= s.stepinc || std::fabs(d1) <= 1e-4) {
          if (reg == s.rmax) return false;
          inc();
        }
        return true;
      }
      if (a > s.stepdec) dec();
      if (a <= s.stepinc) {
        inc();
        if (reg == s.rmax) return false;
      }
      return true;
    };
    if (!intro && !regularise()) return end(false);
    if (is == w.stops.size()) return out;
    const double stop = w.stops[is++];
    for (int k = 0; k < 2; ++k) {
      Ev e;
      e.type = Ev::CALL, e.who = k, e.iter = iter, e.mark = mark, e.feasible = feasible, e.reg = e.dreg = reg, e.a = a, e.dV = dV, e.dVexp = ex, e.stop = stop, e.cost = cost, e.accepted = accepted;
      (void)seen;
      out.push_back(e);
    }
    if (intro && !regularise()) return end(false);
    if ((intro ? feasible : was) && stop < 1e-9) return end(true);
  }
  return end(false);
}
static bool eq(const Ev& got, const Ev& want, bool acceptance, bool machine) {
  if (got.type != want.type) return false;
  if (got.type == Ev::DIR) return !(machine && got.reg != want.reg) && !(want.recalc == 1 && !got.recalc);
  if (got.type == Ev::TRY) return !(acceptance && got.a != want.a) && !(machine && got.reg != want.reg);
  if (acceptance && (got.mark != want.mark || got.feasible != want.feasible || (got.mark && got.cost != want.cost))) return false;
  if (got.type == Ev::CALL) {
    if (acceptance && want.accepted && (got.a != want.a || got.dV != want.dV || got.dVexp != want.dVexp)) return false;
    if (machine && (got.who != want.who || got.iter != want.iter || got.reg != want.reg || got.dreg != want.dreg || got.stop != want.stop)) return false;
    return true;
  }
  return !machine || (got.who == want.who && got.reg == want.reg);
}

// The regularisation's ladder must behave the same in every mode, so only these few settings
static void scripted(mc::Ctx& c, int mode) {
  Quiet quiet;
  World w;
  W = &w;
  w.c = &c;
  w.deviation = mode == 2;
  Setup& s = w.s;
  static const int kinds[] = {K_DDP, K_FDDP, K_SCHUR, K_KKT, K_BOXDDP, K_BOXFDDP};
  s.kind = kinds[c.choose(mode == 2 ? 6 : 4, "solver")];
  s.th_acc = 0.1, s.th_neg = 2, s.th_grad = 1e-2;
  s.alphas = mode == 1 ? std::vector<double>{1, 0.5, 0.01} : mode == 0 ? std::vector<double>{1, 0.01} : std::vector<double>{1, 0.5, 0.25, 0.01};
  const int st = c.choose(mode == 1 ? 3 : 2, "step thresholds");
  s.stepdec = st == 1 ? 0.4 : 0.5, s.stepinc = st == 2 ? 0.5 : 0.01;
  const int r = s.kind == K_KKT ? 0 : c.choose(mode == 1 ? 3 : 5, "regularisation");
  s.rmin = 1e-2, s.rmax = r == 2 ? 0.1 : 10, s.inc = 10, s.dec = 4;
  s.init = r == 1 ? 1. : r == 3 ? 0. : r == 4 ? 10. : NAN;
  if (r == 4) s.inc = 3;
  s.feasible = c.flip("feasible guess");
  s.maxiter = mode == 0 ? (c.thorough && c.budget == 0 ? 2 : 2) : mode == 1 ? 1 : 7;
  Shape h;
  Prob P = make_prob(h);
  SolverP S = make_wrapped<Script>(s.kind, P.p);
  S->set_th_acceptstep(s.th_acc);
  if (s.kind != K_KKT) {
    SolverDDP& d = static_cast<SolverDDP&>(*S);
    d.set_alphas(s.alphas);
    d.set_th_grad(s.th_grad);
    d.set_th_stepdec(s.stepdec);
    d.set_th_stepinc(s.stepinc);
    d.set_reg_min(s.rmin);
    d.set_reg_max(s.rmax);
    d.set_reg_incfactor(s.inc);
    d.set_reg_decfactor(s.dec);
  } else {
    s.th_grad = 1e-12;
    s.alphas.clear();
    for (int i = 0; i < 10; ++i) s.alphas.push_back(1. / pow(2., i));
    if (mode != 2) c.prune();  // its ten step lengths are fixed: explored by deviations only
  }
  if (is_fddp(s.kind)) static_cast<SolverFDDP&>(*S).set_th_acceptnegstep(s.th_neg);
  S->set_th_stop(1e-9);
  S->setCallbacks({std::make_shared<CB>(0), std::make_shared<CB>(1)});
  const bool ok = S->solve(P.rollout(P.zeros_u()), P.zeros_u(), s.maxiter, s.feasible, s.init);
  Ev e;
  e.type = Ev::END, e.who = ok, e.mark = (int)S->get_us()[0][0], e.feasible = S->get_is_feasible(), e.reg = S->get_preg(), e.cost = S->get_cost();
  w.ev.push_back(e);
  CHECK(c, (int)S->get_iter() <= s.maxiter, "iterations", "%zu iterations of at most %d", S->get_iter(), s.maxiter);
  const std::vector<Ev> want = reference(w);
  const bool c04 = mc::options().prop != "C05", c05 = mc::options().prop != "C04";
  for (size_t i = 0; i < std::max(want.size(), w.ev.size()); ++i) {
    const bool has = i < w.ev.size(), due = i < want.size();
    if (has && due && eq(w.ev[i], want[i], c04, c05)) continue;
    c.fail(c04 && !c05 ? "acceptance" : c05 && !c04 ? "machine" : "loop", mc::strf("%s, event %zu: %s; expected %s", kind_name(s.kind), i, has ? w.ev[i].str().c_str() : "nothing", due ? want[i].str().c_str() : "nothing"));
  }
  uint64_t hsh = s.kind;
  for (auto& q : w.ev) {
    hsh = mc::mix(hsh, mc::hash_str(q.str()));
    c.state(hsh);
  }
  c.outcome(mc::strf("%s returns %d", kind_name(s.kind), ok));
}

// directions that can never be computed end the solve, whatever the regularisation settings
static void hopeless(mc::Ctx& c) {
  Quiet quiet;
  World w;
  W = &w;
  w.c = &c;
  static const int kinds[] = {K_DDP, K_FDDP, K_BOXDDP, K_BOXFDDP, K_SCHUR, K_KKT};
  const int kind = w.s.kind = kinds[c.choose(6, "solver")];
  Prob P = make_prob(Shape());
  static int asked;
  asked = 0;
  struct Throw : Hook {
    void before(int, Call k) override {
      ++asked;
      if (k == DIFF || k == DIFF_T) throw std::runtime_error("never");
    }
  } hook;
  SolverP S = make_solver(kind, P.p);
  P.m[0]->hook = &hook;
  const double mins[] = {1e-9, 0, 1e-3}, maxs[] = {1e9, 1, 1e-3}, inits[] = {NAN, 0, 1e-5, 1e3};
  const double lo = mins[c.choose(3, "minimum")], hi = maxs[c.choose(3, "maximum")], init = inits[c.choose(4, "initial")];
  if (kind != K_KKT) static_cast<SolverDDP&>(*S).set_reg_min(lo), static_cast<SolverDDP&>(*S).set_reg_max(hi);
  c.op("%s.solve(minimum %g, maximum %g, initial %g)", kind_name(kind), lo, hi, init);
  const bool ok = S->solve(P.rollout(P.zeros_u()), P.zeros_u(), 10, c.flip("feasible"), init);
  CHECK(c, !ok, "converged", "%s reports convergence although no derivative was ever computed", kind_name(kind));
  CHECK(c, kind == K_KKT || (S->get_preg() <= std::max(hi, init) || std::isnan(init)), "range", "regularisation %g beyond the maximum %g", S->get_preg(), hi);
  c.state(mc::mix(kind, (uint64_t)asked));
}
// real solves of non-convex problems, judged at every callback
struct Rec {
  double a, dV, cost;
  Eigen::Vector2d d;
  bool ok;
};
static std::vector<Rec> recs;
template <class S>
struct Spy : S {
  using S::S;
  double tryStep(const double a) override {
    recs.push_back({a, NAN, NAN, this->d_, false});
    const double dV = S::tryStep(a);
    recs.back().ok = true, recs.back().dV = dV, recs.back().cost = this->cost_try_;
    return dV;
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& r = S::expectedImprovement();
    if (is_fddp(kind) && !recs.empty()) recs.back().d = r;
    return r;
  }
  int kind;
};
static void real(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(K_KKT, "solver");  // the KKT solver's acceptance is scripted only
  Shape h;
  h.state = c.choose(3, "state");
  const int T = 1 + c.choose(3, "horizon");
  h.nu.clear();
  for (int t = 0; t < T; ++t) {
    h.nu.push_back(c.pick<int>({1, 2, 0}, "nu"));
    h.nh.push_back(is_intro(kind) && h.nu.back() == 2 ? 1 : 0);
  }
  h.e = c.pick<double>({1., 4.}, "nonlinearity");
  h.shift = c.pick<double>({0.5, 0.01}, "convexity");
  h.fscale = c.pick<double>({0.3, 1.5}, "dynamics");
  h.seed = 1 + c.choose(c.thorough ? 8 : 1, "seed");
  Prob P = make_prob(h);
  const double acc = c.pick<double>({0.1, 0.8}, "acceptance");
  const int al = c.choose(3, "step lengths"), guess = c.choose(3, "guess");
  std::vector<double> alphas;
  for (int i = 0; i < 10; ++i) alphas.push_back(1. / pow(2., i));
  if (al == 1) alphas = {1, 0.1};
  if (al == 2) alphas = {0.8, 0.4, 0.2, 0.1};
  SolverP S = make_wrapped<Spy>(kind, P.p);
  SolverDDP& D = static_cast<SolverDDP&>(*S);
  D.set_th_acceptstep(acc);
  D.set_alphas(alphas);
  if (kind == K_FDDP) static_cast<Spy<SolverFDDP>&>(D).kind = kind;
  if (kind == K_DDP) static_cast<Spy<SolverDDP>&>(D).kind = kind;
  if (kind == K_BOXDDP) static_cast<Spy<SolverBoxDDP>&>(D).kind = kind;
  if (kind == K_BOXFDDP) static_cast<Spy<SolverBoxFDDP>&>(D).kind = kind;
  if (is_intro(kind)) static_cast<Spy<SolverIntro>&>(D).kind = kind;
  const double neg = is_fddp(kind) ? static_cast<SolverFDDP&>(D).get_th_acceptnegstep() : 0;
  Vs us = P.some_u(1, 2), xs = guess == 0 ? P.some_x(2) : P.rollout(us), lx = xs, lu = us;
  bool feasible = guess == 2;
  double cost = P.eval(xs, us).cost;
  recs.clear();
  S->setCallbacks({std::make_shared<Each>([&](SolverAbstract& s) {
    c.note("iteration %zu: cost %.12g feasible %d step %g reg %g dV %g dVexp %g", s.get_iter(), s.get_cost(), s.get_is_feasible(), s.get_steplength(), s.get_preg(), s.get_dV(), s.get_dVexp());
    const double ups = is_intro(kind) ? static_cast<SolverIntro&>(s).get_upsilon() : 0;
    CHECK(c, recs.size() <= alphas.size(), "steps", "%zu steps were tried, %zu are configured", recs.size(), alphas.size());
    const Rec* take = nullptr;
    for (size_t i = 0; i < recs.size(); ++i) {
      const Rec& r = recs[i];
      CHECK(c, r.a == alphas[i], "order", "step %zu tried is %g, configured %g", i, r.a, alphas[i]);
      if (!r.ok) continue;
      if (is_intro(kind) && h.nh != std::vector<int>(h.nh.size(), 0)) continue;  // merit function: scripted only
      (void)ups;
      const double ex = r.a * (r.d[0] + 0.5 * r.a * r.d[1]);
      const bool ok = ex >= 0 ? std::fabs(r.d[0]) < D.get_th_grad() || (!is_fddp(kind) && !feasible) || r.dV > acc * ex
                              : (is_intro(kind) || (is_fddp(kind) && !feasible)) && r.dV > neg * ex;
      if (ok) {
        CHECK(c, i + 1 == recs.size(), "first", "step %g satisfies the acceptance test, yet %g was tried after it", r.a, recs[i + 1].a);
        take = &r;
      }
    }
    const bool changed = !same_all(s.get_us(), lu) || !same_all(s.get_xs(), lx);
    const bool merit = is_intro(kind) && h.nh != std::vector<int>(h.nh.size(), 0);
    if (!merit) {
      CHECK(c, take || recs.size() == alphas.size(), "steps", "%zu of %zu steps were tried and none accepted", recs.size(), alphas.size());
      if (take) {
        CHECK(c, s.get_cost() == take->cost && s.get_steplength() == take->a && s.get_dV() == take->dV, "taken", "step %g with cost %.12g and reduction %g accepted; reported step %g, cost %.12g, reduction %g", take->a, take->cost, take->dV, s.get_steplength(), s.get_cost(), s.get_dV());
        const double ex = take->a * (take->d[0] + 0.5 * take->a * take->d[1]);
        CHECK(c, closes(s.get_dVexp(), ex), "expected", "expected reduction %g, reported %g", ex, s.get_dVexp());
        CHECK(c, closes(cost - s.get_cost(), s.get_dV(), 1e-9 * (1 + std::fabs(cost))), "reduction", "cost went from %.12g to %.12g; the reported reduction is %.12g", cost, s.get_cost(), s.get_dV());
      } else {
        CHECK(c, !changed, "kept", "no step was accepted, yet the trajectory changed");
        CHECK(c, closes(s.get_cost(), cost, 1e-12), "kept-cost", "no step was accepted, yet the cost went from %.12g to %.12g", cost, s.get_cost());
      }
      if (feasible && !is_intro(kind)) CHECK(c, s.get_cost() <= cost + 1e-9 * (1 + std::fabs(cost)), "monotone", "the cost of feasible trajectories went from %.12g to %.12g", cost, s.get_cost());
    }
    feasible = s.get_is_feasible(), cost = s.get_cost(), lx = s.get_xs(), lu = s.get_us();
    recs.clear();
    c.state(hash_all(kind, lu));
  })});
  c.op("%s.solve", kind_name(kind));
  S->solve(xs, us, 12, guess == 2);
}
int main(int argc, char** argv) {
  mc::Explorer e;
  std::string prop;
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
  e.add("two-steps", [](mc::Ctx& c) { scripted(c, 0); });
  e.add("three-steps", [](mc::Ctx& c) { scripted(c, 1); });
  e.add("long", [](mc::Ctx& c) { scripted(c, 2); }, 3, 4);
  if (prop != "C04") e.add("hopeless", hopeless);
  if (prop != "C05") e.add("real", real);
  return e.main(argc, argv);
}
