// C07: whatever was solved, edited or failed before, a solve gives what a new solver on a new problem of the
// same content gives.
#include "solve.hpp"

struct Bomb : Hook {  // throws at every evaluation, or at every evaluation of values, from the n-th on
  long left = -1;
  bool values = false;
  void before(int, Call call) override {
    if (left < 0 || (values && call != CALC && call != CALC_T)) return;
    if (left == 0) throw std::runtime_error("failing model");
    --left;
  }
};
struct Args {
  Vs xs, us;
  bool feasible = false;
  int maxiter = 20;
  double reg = NAN;
};
struct Settings {  // what the user set on the solver, kept over any edit
  int alphas = 0;
  double th_stop = 0, reg_min = 0;
};
static void apply(SolverAbstract& s, int kind, const Settings& g) {
  if (g.th_stop) s.set_th_stop(g.th_stop);
  if (kind == K_KKT) return;
  SolverDDP& d = static_cast<SolverDDP&>(s);
  if (g.alphas) d.set_alphas({0.9, 0.4, 0.1});
  if (g.reg_min) d.set_reg_min(g.reg_min);
}
struct Got {
  bool threw = false, r = false;
  std::vector<std::string> seen;
};
static Got solve(SolverAbstract& s, const Args& a) {
  Got g;
  try {
    g.r = s.solve(a.xs, a.us, a.maxiter, a.feasible, a.reg);
  } catch (std::exception& e) {
    g.threw = true;
  }
  return g;
}
static bool eqs(const Vs& a, const Vs& b, double tol) { return tol ? close_all(a, b, tol) : same_all(a, b); }

static void compare(mc::Ctx& c, const char* who, int kind, SolverAbstract& s, const Got& g, SolverAbstract& n, const Got& gn, const Prob& P, bool loose, bool stuck = false) {
  CHECK(c, g.threw == gn.threw, "threw", "%s (%s): the solve %s, a new solver's %s", who, kind_name(kind), g.threw ? "throws" : "does not throw", gn.threw ? "throws" : "does not");
  const double tol = loose ? 2e-3 : 0;
  CHECK(c, g.r == gn.r || loose, "result", "%s (%s): returns %d, a new solver %d", who, kind_name(kind), g.r, gn.r);
  CHECK(c, eqs(s.get_xs(), n.get_xs(), tol), "xs", "%s (%s): xs %s, a new solver's %s", who, kind_name(kind), shows(s.get_xs()).c_str(), shows(n.get_xs()).c_str());
  CHECK(c, eqs(s.get_us(), n.get_us(), tol), "us", "%s (%s): us %s, a new solver's %s", who, kind_name(kind), shows(s.get_us()).c_str(), shows(n.get_us()).c_str());
  CHECK(c, s.get_is_feasible() == n.get_is_feasible(), "feasible", "%s (%s): feasible %d, a new solver %d", who, kind_name(kind), s.get_is_feasible(), n.get_is_feasible());
  if (g.threw) return;
  CHECK(c, loose ? closes(s.get_cost(), n.get_cost(), 1e-4) : s.get_cost() == n.get_cost(), "cost", "%s (%s): cost %.17g, a new solver's %.17g", who, kind_name(kind), s.get_cost(), n.get_cost());
  if (loose) return;
  CHECK(c, s.get_iter() == n.get_iter(), "iter", "%s (%s): iterations %zu, a new solver's %zu", who, kind_name(kind), s.get_iter(), n.get_iter());
#define SAME(f) CHECK(c, s.get_##f() == n.get_##f() || (std::isnan(s.get_##f()) && std::isnan(n.get_##f())), #f, "%s (%s): " #f " %.17g, a new solver's %.17g", who, kind_name(kind), s.get_##f(), n.get_##f())
  SAME(ffeas);
  SAME(gfeas);
  SAME(hfeas);
  SAME(stop);
  SAME(preg);
  if (!stuck) SAME(dV);
#undef SAME
  CHECK(c, kind == K_KKT || same_all(s.get_fs(), n.get_fs()), "fs", "%s (%s): gaps %s, a new solver's %s", who, kind_name(kind), shows(s.get_fs()).c_str(), shows(n.get_fs()).c_str());
  if (kind == K_KKT) {
    SolverKKT &a = static_cast<SolverKKT&>(s), &b = static_cast<SolverKKT&>(n);
    CHECK(c, same(a.get_kkt(), b.get_kkt()), "kkt", "%s: the KKT matrix is %s, a new solver's %s", who, show(a.get_kkt()).c_str(), show(b.get_kkt()).c_str());
    CHECK(c, same(a.get_kktref(), b.get_kktref()) && same(a.get_primaldual(), b.get_primaldual()), "kkt", "%s: KKT vectors differ from a new solver's", who);
    return;
  }
  SolverDDP &a = static_cast<SolverDDP&>(s), &b = static_cast<SolverDDP&>(n);
  auto mats = [&](const char* name, auto& x, auto& y) {
    CHECK(c, x.size() == y.size(), name, "%s (%s): %zu entries of %s, a new solver has %zu", who, kind_name(kind), x.size(), name, y.size());
    for (size_t t = 0; t < x.size(); ++t)
      CHECK(c, same(x[t], y[t]), name, "%s (%s): %s[%zu] is %s, a new solver's %s", who, kind_name(kind), name, t, show(x[t]).c_str(), show(y[t]).c_str());
  };
  mats("K", a.get_K(), b.get_K());
  mats("k", a.get_k(), b.get_k());
  mats("Vx", a.get_Vx(), b.get_Vx());
  mats("Vxx", a.get_Vxx(), b.get_Vxx());
  mats("Qu", a.get_Qu(), b.get_Qu());
  mats("Quu", a.get_Quu(), b.get_Quu());
  mats("Qxu", a.get_Qxu(), b.get_Qxu());
  if (is_intro(kind)) {
    SolverIntro &a = static_cast<SolverIntro&>(s), &b = static_cast<SolverIntro&>(n);
    mats("ks", a.get_ks(), b.get_ks());
    mats("Ks", a.get_Ks(), b.get_Ks());
    CHECK(c, a.get_upsilon() == b.get_upsilon(), "upsilon", "%s: the penalty parameter is %.17g, a new solver's %.17g", who, a.get_upsilon(), b.get_upsilon());
  }
}

static void history(mc::Ctx& c, bool two) {
  Quiet quiet;
  const int ka = c.choose(KINDS, "solver");
  const int kb = two ? c.choose(c.thorough ? KINDS : 4, "other solver") : -1;
  static const int others[] = {K_DDP, K_FDDP, K_LU, K_KKT};
  const int kB = !two ? -1 : c.thorough ? kb : others[kb];
  const bool anyintro = is_intro(ka) || (two && is_intro(kB)), limited = is_box(ka) && c.flip("limits");
  Shape h;
  h.state = two ? 0 : 2 * c.choose(2, "state");
  h.nu = {2, 1};
  h.e = 0.6;
  Prob P = make_prob(h);
  int made = 0;
  auto node = [&](int nu) {
    TAct::Spec a;
    a.seed = 700 + 13 * ++made;
    a.nu = nu, a.e = 0.6;
    a.nh = anyintro && nu > 1 ? nu - 1 : 0;
    TActP m = std::make_shared<TAct>(P.s, a);
    if (limited && nu) m->set_u_lb(Vec::Constant(nu, -0.3)), m->set_u_ub(Vec::Constant(nu, 0.4));
    return m;
  };
  P.m = {node(2), node(1)};
  P.build();
  Bomb bomb;
  SolverP A = make_solver(ka, P.p), B = two ? make_solver(kB, P.p) : nullptr;
  bool whole = true;  // the last solve of the solver was not refused
  Settings set;
  set.alphas = 1, set.th_stop = 1e-7, set.reg_min = 1e-8;
  apply(*A, ka, set);
  if (two) apply(*B, kB, set);
  auto hooks = [&](Hook* k) {
    for (auto& m : P.m) m->hook = k;
    P.mT->hook = k;
  };
  auto args = [&](int g) {
    Args a;
    a.maxiter = 6;
    if (g == 0) return a;
    a.us = P.some_u(g + 1, limited ? 0.25 : 0.8);
    a.xs = g == 1 ? P.some_x(2) : P.rollout(a.us);
    a.feasible = g == 2;
    if (g == 2) a.reg = 1e-3;
    return a;
  };
  // stuck: no step of the line searches can be evaluated, neither here nor by the new solver
  auto judged = [&](SolverP& S, int kind, const char* who, int g, bool stuck = false) {
    c.op("%s solves from %s guess%s", who, g == 0 ? "no" : g == 1 ? "an infeasible" : g == 2 ? "a feasible" : "its last", stuck ? " without being able to step" : "");
    const int T = P.T();
    Args a = args(g == 3 ? 2 : g);
    if (g == 3) {
      bool fit = whole && (int)S->get_us().size() == T;
      for (int t = 0; fit && t < T; ++t) fit = S->get_us()[t].size() == (long)P.m[t]->get_nu() && S->get_us()[t].allFinite();
      if (!fit) c.prune();
      a.us = S->get_us(), a.xs = P.rollout(a.us);
    }
    Bomb b;
    b.values = true;
    auto run = [&](SolverAbstract& s, Prob& q) {
      b.left = stuck ? T + 1 : -1;
      for (auto& m : q.m) m->hook = stuck ? &b : nullptr;
      q.mT->hook = stuck ? &b : nullptr;
      const Got r = solve(s, a);
      for (auto& m : q.m) m->hook = nullptr;
      q.mT->hook = nullptr;
      return r;
    };
    const Got r = run(*S, P);
    Prob N = P.twin();
    SolverP n = make_solver(kind, N.p);
    apply(*n, kind, set);
    const Got rn = run(*n, N);
    // the box QP starts from the last controls and stops within a tolerance; with active limits this shows
    compare(c, who, kind, *S, r, *n, rn, P, limited && is_box(kind), stuck);
    if (S == A) whole = !r.threw;
    c.state(hash_all(kind, S->get_us()));
  };
  const int depth = c.thorough ? (two ? 3 : 4) : 3 - (two ? 1 : 0);
  for (int i = 0; i < depth; ++i) {
    const int op = c.choose(two ? 8 : 12, "operation");
    const int T = P.T();
    switch (op) {
      case 0: judged(A, ka, "the solver", c.choose(3, "guess")); break;
      case 1:
        if (two) {
          judged(B, kB, "the other solver", c.choose(3, "guess"));
          break;
        } else {
          c.op("the solver fails in the middle");
          bomb.left = c.pick<int>({0, T + 2, 3 * T + 5, 5 * T + 9}, "failing evaluation");
          hooks(&bomb);
          whole = !solve(*A, args(1)).threw;
          hooks(nullptr);
          bomb.left = -1;
        }
        break;
      case 2: {
        const int nu = c.choose(4, "controls");
        c.op("circularAppend(node with %d controls)", nu);
        TActP m = node(nu);
        P.p->circularAppend(m);
        P.m.erase(P.m.begin()), P.m.push_back(m);
        break;
      }
      case 3: {
        const int t = c.choose(T, "node"), nu = c.choose(4, "controls");
        c.op("updateModel(%d, node with %d controls)", t, nu);
        TActP m = node(nu);
        P.p->updateModel(t, m);
        P.m[t] = m;
        break;
      }
      case 4: {
        const int n = c.pick<int>({1, 3, 2}, "horizon");
        c.op("set_runningModels(%d nodes)", n);
        P.m.clear();
        for (int k = 0; k < n; ++k) P.m.push_back(node(1 + (k + n) % 3));
        P.p->set_runningModels(std::vector<std::shared_ptr<ActionModelAbstract>>(P.m.begin(), P.m.end()));
        break;
      }
      case 5: {
        c.op("set_x0");
        P.x0 = P.point(i + 2, made);
        P.p->set_x0(P.x0);
        break;
      }
      case 6: {
        const int t = c.choose(T, "node"), nu = c.pick<int>({2, 1}, "controls");
        c.op("updateNode(%d, node with %d controls, its data)", t, nu);
        TActP m = node(nu);
        P.p->updateNode(t, m, m->createData());
        P.m[t] = m;
        break;
      }
      case 7: {
        c.op("is_updated() is read");  // whoever asks first
        P.p->is_updated();
        break;
      }
      case 8: {
        c.op("set_terminalModel");
        TAct::Spec a;
        a.nu = 2, a.e = 0.6, a.seed = 900 + ++made;
        P.mT = std::make_shared<TAct>(P.s, a);
        P.p->set_terminalModel(P.mT);
        break;
      }
      case 9: {
        c.op("new limits and a setting of the solver");
        if (limited)
          for (auto& m : P.m)
            if (m->get_nu()) m->set_u_lb(Vec::Constant(m->get_nu(), -0.35)), m->set_u_ub(Vec::Constant(m->get_nu(), 0.2));
        set.th_stop = 1e-5;
        apply(*A, ka, set);
        break;
      }
      case 10: {
        c.op("a guess of the wrong length is refused");
        Args a = args(1);
        a.us.push_back(Vec::Zero(1));
        a.xs.push_back(P.x0);
        whole = false;
        CHECK(c, solve(*A, a).threw, "length", "a guess of the wrong length is not refused");
        break;
      }
      default: {
        c.op("no iteration");
        Args a = args(2);
        a.maxiter = 0;
        whole = !solve(*A, a).threw;
        break;
      }
    }
  }
  const int last = c.choose(two ? 3 : 5, "last guess");
  judged(A, ka, "the solver, finally,", last == 4 ? 3 : last, last == 4);
  if (two) judged(B, kB, "the other solver, finally,", 1);
}
static void one(mc::Ctx& c) { history(c, false); }
static void pair(mc::Ctx& c) { history(c, true); }

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("one", one);
  e.add("pair", pair);
  return e.main(argc, argv);
}
