// C14: with several threads, every result is the one of a single thread, whatever the schedule, and no memory is
// accessed by two threads without order.
#include "managed.hpp"
#include "nodes.hpp"
#include "solve.hpp"
#include "rt.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"

static mc::Ctx* C;
static bool whole;  // in a whole solve, also the choice of the next thread counts towards the bound
static unsigned long decide(unsigned long n, bool costly) { return costly || whole ? C->deviate(n, "continue or switch") : C->choose(n, "next thread"); }
static std::vector<std::shared_ptr<cr::ConstraintModelManager>> managers;
struct Explored {
  Explored() {
    rt_begin(decide);
    for (auto& m : managers) {
      rt_name("ConstraintModelManager.lb", m->get_lb().data(), m->get_lb().size() * sizeof(double));
      rt_name("ConstraintModelManager.ub", m->get_ub().data(), m->get_ub().size() * sizeof(double));
    }
  }
  ~Explored() { rt_end(); }
};
static void no_race(const char* what) {
  const auto v = rt_end();
  for (size_t i = 0; i < v.size(); ++i) C->report(v[i].key, mc::strf("data race during %s: %s", what, v[0].text.c_str()));
}
// every model evaluation is a scheduling point (in quasiStatic, which iterates, the first few)
struct Yield : Hook {
  void before(int, Call) override { rt_yield(); }
};

// kinds beyond make_node: the library's own models
enum { NODES = 17 };
static const char* more_name(int k) {
  static const char* n[] = {"LQR", "unicycle", "Euler of LQR", "RK3 of LQR", "Euler of numdiff", "Euler of composed", "RK2 of composed", "Euler of composed with constraints", "numdiff of Euler of composed"};
  return k < 8 ? node_name(k) : n[k - 8];
}
static bool needs3(int k) { return k == 9; }
static ActP any_node(int k, StateP s, uint64_t seed) {
  typedef std::shared_ptr<cr::ControlParametrizationModelAbstractTpl<double>> CP;
  const long n = s->get_nx(), nv = s->get_nv();
  Gen g(seed);
  auto dlqr = [&] { return std::make_shared<cr::DifferentialActionModelLQR>(Mat(g.mat(nv, nv)), Mat(g.mat(nv, nv)), Mat(g.mat(nv, 2)), g.spd(s->get_ndx(), 0.3), g.spd(2, 0.3), Mat(Mat::Zero(s->get_ndx(), 2))); };
  switch (k) {
    case 8: return std::make_shared<cr::ActionModelLQR>(Mat(0.4 * g.mat(n, n)), g.mat(n, 2), g.spd(n, 0.3), g.spd(2, 0.3), Mat::Zero(n, 2));
    case 9: return std::make_shared<cr::ActionModelUnicycle>();
    case 10: return std::make_shared<cr::IntegratedActionModelEuler>(dlqr(), 0.1);
    case 11: return std::make_shared<cr::IntegratedActionModelRK>(dlqr(), CP(std::make_shared<cr::ControlParametrizationModelPolyOne>(2)), cr::RKType::three, 0.2);
    case 12: return std::make_shared<cr::IntegratedActionModelEuler>(std::make_shared<cr::DifferentialActionModelNumDiff>(std::make_shared<Managed>(s, nv, seed, false), true), 0.1);
    case 13: return std::make_shared<cr::IntegratedActionModelEuler>(std::make_shared<Managed>(s, nv, seed, false), 0.1);
    case 14: return std::make_shared<cr::IntegratedActionModelRK>(std::make_shared<Managed>(s, nv, seed, false), CP(std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nv, cr::RKType::four)), cr::RKType::two, 0.1);
    case 15: {
      auto d = std::make_shared<Managed>(s, nv, seed, true);
      managers.push_back(d->cons);
      return std::make_shared<cr::IntegratedActionModelEuler>(d, 0.1);
    }
    case 16: return std::make_shared<cr::ActionModelNumDiff>(any_node(13, s, seed), true);
  }
  return make_node(k, s, seed);
}
static std::string differs(const ShootingProblem& a, const ShootingProblem& b) {
  for (size_t t = 0; t <= a.get_T(); ++t) {
    const bool T = t == a.get_T();
    const std::string d = diff_data(T ? *a.get_terminalData() : *a.get_runningDatas()[t], T ? *b.get_terminalData() : *b.get_runningDatas()[t]);
    if (!d.empty()) return mc::strf("node %zu: ", t) + d;
  }
  return "";
}

// functions of the problem
static void functions(mc::Ctx& c) {
  Quiet quiet;
  whole = false;
  C = &c;
  cr::enableMultithreading() = true;
  const int k0 = c.choose(NODES, "node"), sharing = c.choose(3, "sharing");  // one model for all nodes, also the terminal one, or one each
  const int T = 1 + c.choose(c.thorough ? 5 : 4, "horizon"), threads = 2 + c.choose(c.thorough ? 3 : 2, "threads");
  StateP s = std::make_shared<StateVector>(needs3(k0) ? 3 : 4);
  c.op("%s, %s", more_name(k0), sharing == 0 ? "shared" : sharing == 1 ? "shared with the terminal node" : "separate");
  std::vector<ActP> m;
  managers.clear();
  static Yield hook;
  auto add = [&](ActP a) {
    if (auto* t = dynamic_cast<TAct*>(a.get())) t->hook = &hook;
    return a;
  };
  m.push_back(add(any_node(k0, s, 5)));
  for (int t = 1; t < T; ++t) m.push_back(sharing == 2 ? add(any_node(k0, s, 5 + t)) : m[0]);
  ActP mT = sharing == 1 ? m[0] : add(any_node(k0, s, 77));
  const Vec x0 = Gen(3).vec(s->get_nx());
  ShootingProblem P(x0, m, mT), R(x0, m, mT);
  R.set_nthreads(1);
  const size_t before = P.get_nthreads();
  CHECK(c, before == CROCODDYL_WITH_NTHREADS, "nthreads", "a new problem has %zu threads", before);
  P.set_nthreads(threads);
  CHECK(c, (int)P.get_nthreads() == threads && R.get_nthreads() == 1, "nthreads", "set_nthreads(%d) gives %zu", threads, P.get_nthreads());
  const int depth = c.thorough ? 3 : 2;
  for (int i = 0; i < depth; ++i) {
    Vs xs, us;
    for (int t = 0; t <= T; ++t) xs.push_back(Gen(20 + t + 7 * i).vec(s->get_nx()));
    for (int t = 0; t < T; ++t) us.push_back(0.4 * Gen(50 + t + 7 * i).vec(m[t]->get_nu()));
    const int op = c.choose(3, "operation");
    rt_yields(op < 2 ? 1 << 20 : 2 * T);
    double a = 0, b = 0;
    Vs qa = us, qb = us;
    if (op == 0) {
      c.op("calc");
      b = R.calc(xs, us);
      Explored e;
      a = P.calc(xs, us);
      no_race("calc");
    } else if (op == 1) {
      c.op("calc, calcDiff");
      R.calc(xs, us), b = R.calcDiff(xs, us);
      Explored e;
      P.calc(xs, us), a = P.calcDiff(xs, us);
      no_race("calcDiff");
    } else {
      c.op("quasiStatic");
      if (needs3(k0)) c.prune();
      xs.pop_back();
      R.quasiStatic(qb, xs);
      Explored e;
      P.quasiStatic(qa, xs);
      no_race("quasiStatic");
    }
    CHECK(c, std::fabs(a - b) <= 1e-13 * (1 + std::fabs(b)), "cost", "%d threads: cost %.17g, one thread %.17g", threads, a, b);
    CHECK(c, same_all(qa, qb), "quasi-static", "%d threads: %s, one thread %s", threads, shows(qa).c_str(), shows(qb).c_str());
    const std::string d = differs(P, R);
    CHECK(c, d.empty(), "data", "%d threads differ from one: %s", threads, d.c_str());
    c.state(hash_data(k0, *P.get_runningDatas()[T - 1]));
    if (c.tracing) c.note("points %lu syncs %lu counts %lu accesses %lu", (long)rt_stats().points, (long)rt_stats().syncs, (long)rt_stats().counts, (long)rt_stats().accesses);
  }
  if (k0 == 0 && c.flip("change the number of threads")) {
    P.set_nthreads(0);
    CHECK(c, P.get_nthreads() == CROCODDYL_WITH_NTHREADS, "nthreads", "set_nthreads(0) gives %zu", P.get_nthreads());
    cr::enableMultithreading() = false;
    P.set_nthreads(4);
    CHECK(c, P.get_nthreads() == 1, "nthreads", "without multithreading there are %zu threads", P.get_nthreads());
  }
}
// whole solves
static void solves(mc::Ctx& c) {
  Quiet quiet;
  whole = true;
  C = &c;
  cr::enableMultithreading() = true;
  const int kind = c.choose(KINDS, "solver"), threads = 2 + c.choose(2, "threads");
  Shape h;
  h.state = 2 * c.choose(2, "state");
  static const std::vector<int> nus[] = {{1, 2}, {2, 1, 2}, {2, 2, 0, 1, 2}};
  h.nu = nus[c.choose(3, "nodes")];
  if (is_intro(kind))
    for (int n : h.nu) h.nh.push_back(n == 2 ? 1 : 0);
  h.e = 0.7;
  h.seed = 1 + c.choose(c.thorough ? 3 : 1, "seed");
  Prob P = make_prob(h), R = P.twin();
  if (is_box(kind))
    for (auto& m : P.m)
      if (m->get_nu()) m->set_u_lb(Vec::Constant(m->get_nu(), -0.4)), m->set_u_ub(Vec::Constant(m->get_nu(), 0.3));
  static Yield hook;
  for (auto& m : P.m) m->hook = &hook;
  rt_yields(c.thorough ? 400 : 40);
  P.p->set_nthreads(threads);
  R.p->set_nthreads(1);
  const bool profile = c.flip("profiler");
  SolverP A = make_solver(kind, P.p), B = make_solver(kind, R.p);
  const int g = c.choose(2, "guess"), n = c.pick<int>({3, 12}, "iterations");
  const Vs xs = g ? P.some_x(1) : Vs(), us = g ? P.some_u(1, 0.2) : Vs();
  c.op("%s.solve", kind_name(kind));
  if (profile) getProfiler().enable_profiler();
  const bool b = B->solve(xs, us, n, false);
  bool a;
  {
    Explored e;
    a = A->solve(xs, us, n, false);
    getProfiler().disable_profiler();
    no_race("solve");
  }
  CHECK(c, a == b && A->get_iter() == B->get_iter() && close_all(A->get_xs(), B->get_xs(), 1e-9) && close_all(A->get_us(), B->get_us(), 1e-9) && closes(A->get_cost(), B->get_cost(), 1e-10), "solve",
        "%s with %d threads: %d after %zu iterations, cost %.15g, us %s; one thread: %d after %zu, cost %.15g, us %s", kind_name(kind), threads, a, A->get_iter(), A->get_cost(), shows(A->get_us()).c_str(), b,
        B->get_iter(), B->get_cost(), shows(B->get_us()).c_str());
  c.state(hash_all(kind, A->get_us()));
}

// the callbacks Ipopt evaluates
struct Outputs {
  double f = 0;
  std::vector<double> grad, g, jac, hess;
};
typedef Ipopt::SmartPtr<IpoptInterface> IfaceP;
static void callback(IpoptInterface& i, int op, const std::vector<double>& z, bool fresh, Outputs& o) {
  Ipopt::Index n, m, nj, nh;
  Ipopt::TNLP::IndexStyleEnum st;
  i.get_nlp_info(n, m, nj, nh, st);
  if (op == 0) i.eval_f(n, z.data(), fresh, o.f);
  if (op == 1) o.grad.assign(n, 0.), i.eval_grad_f(n, z.data(), fresh, o.grad.data());
  if (op == 2) o.g.assign(m, 0.), i.eval_g(n, z.data(), fresh, m, o.g.data());
  if (op == 3) o.jac.assign(nj, 0.), i.eval_jac_g(n, z.data(), fresh, m, nj, nullptr, nullptr, o.jac.data());
  if (op == 4) {
    std::vector<double> lambda(m);
    for (int k = 0; k < m; ++k) lambda[k] = std::sin(k + 1.);
    o.hess.assign(nh, 0.), i.eval_h(n, z.data(), fresh, 0.7, m, lambda.data(), true, nh, nullptr, nullptr, o.hess.data());
  }
}
static bool near(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(b[i])))) return false;
  return true;
}
static std::string show(const std::vector<double>& v) {
  std::string s;
  for (double d : v) s += mc::strf("%.6g ", d);
  return s;
}
static void ipopt(mc::Ctx& c) {
  Quiet quiet;
  C = &c;
  whole = false;
  cr::enableMultithreading() = true;
  const int threads = 2 + c.choose(2, "threads");
  static Yield hook;
  rt_yields(1 << 20);
  managers.clear();
  const int k0 = c.choose(NODES, "node"), sharing = c.choose(3, "sharing"), T = 1 + c.choose(c.thorough ? 4 : 3, "horizon");
  StateP s = std::make_shared<StateVector>(needs3(k0) ? 3 : 4);
  auto add = [&](ActP a) {
    if (auto* t = dynamic_cast<TAct*>(a.get())) t->hook = &hook;
    return a;
  };
  std::vector<ActP> m;
  m.push_back(add(any_node(k0, s, 5)));
  for (int t = 1; t < T; ++t) m.push_back(sharing == 2 ? add(any_node(k0, s, 5 + t)) : m[0]);
  ActP mT = sharing == 1 ? m[0] : add(any_node(k0, s, 77));
  const Vec x0 = Gen(3).vec(s->get_nx());
  auto P = std::make_shared<ShootingProblem>(x0, m, mT), R = std::make_shared<ShootingProblem>(x0, m, mT);
  P->set_nthreads(threads);
  R->set_nthreads(1);
  c.op("Ipopt with %s, %s", more_name(k0), sharing == 0 ? "shared" : sharing == 1 ? "shared with the terminal node" : "separate");
  IfaceP A = new IpoptInterface(P), B = new IpoptInterface(R);
  Vs xs, us;
  for (int t = 0; t <= T; ++t) xs.push_back(Gen(20 + t).vec(s->get_nx()));
  for (int t = 0; t < T; ++t) us.push_back(0.4 * Gen(50 + t).vec(m[t]->get_nu()));
  for (auto* i : {&A, &B}) {
    auto& y = **i;
    y.set_xs(xs), y.set_us(us);
  }
  Ipopt::Index n, mm, nj, nh;
  Ipopt::TNLP::IndexStyleEnum st;
  B->get_nlp_info(n, mm, nj, nh, st);
  static const char* name[] = {"eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h"};
  for (int i = 0; i < 2; ++i) {
    const int op = c.choose(5, "callback");
    std::vector<double> z(n);
    for (int k = 0; k < n; ++k) z[k] = 0.3 * std::sin(1.7 * k + 2. * i + 1);
    Outputs a, b;
    c.op("%s", name[op]);
    callback(*B, op, z, true, b);
    {
      Explored e;
      callback(*A, op, z, true, a);
      no_race(name[op]);
    }
    CHECK(c, std::fabs(a.f - b.f) <= 1e-12 * (1 + std::fabs(b.f)) && near(a.grad, b.grad) && near(a.g, b.g) && near(a.jac, b.jac) && near(a.hess, b.hess), "ipopt", "%s with %d threads differs from one thread: %s", name[op],
          threads, mc::strf("%g/%g %s/%s", a.f, b.f, show(a.grad).c_str(), show(b.grad).c_str()).c_str());
    c.state(mc::hash_bytes(op, &a.f, 8));
  }
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("functions", functions, 1, 2);
  e.add("ipopt", ipopt, 1, 2);
  e.add("solves", solves, 1, 1);
  const int r = e.main(argc, argv);
  return r;
}
