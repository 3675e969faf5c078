// C16: ConstraintModelManager against a list of active constraints, over all short edit/evaluation histories.
#include "models.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
using namespace crocoddyl;

static const char* NAMES[] = {"alpha", "beta", "gamma"};
struct Dim {
  long ng, nh;
  bool T;
};
static const Dim DIMS[] = {{2, 1, false}, {1, 0, true}, {1, 2, true}};
static const long NU = 2;

struct Item {
  std::shared_ptr<TConstraint> m;
  bool active;
  Vec lb, ub;
};
typedef std::map<std::string, Item> Ref;

static std::shared_ptr<TConstraint> make(StateP s, int n) {
  return std::make_shared<TConstraint>(s, NU, DIMS[n].ng, DIMS[n].nh, DIMS[n].T, 100 + n);
}
static std::string names(const std::set<std::string>& s) {
  std::string r = "{";
  for (auto& x : s) r += x + " ";
  return r + "}";
}
static void stack(Mat& a, const Mat& b) {
  Mat m(a.rows() + b.rows(), b.cols());
  m << a, b;
  a = m;
}

struct Expect {
  Mat g, h, Gx, Gu, Hx, Hu, lb, ub;
};
static Expect reference(StateP s, const Ref& ref, const Vec& x, const Vec& u, bool terminal) {
  Expect e;
  const long n = s->get_ndx();
  e.g = e.h = e.lb = e.ub = Mat(0, 1);
  e.Gx = e.Hx = Mat(0, n);
  e.Gu = e.Hu = Mat(0, NU);
  const Vec uu = terminal ? Vec(Vec::Zero(NU)) : u, z = zof(s, x);
  const Mat J = Jof(s, x);
  for (auto& kv : ref) {
    const Item& t = kv.second;
    if (!t.active || (terminal && !t.m->get_T_constraint())) continue;
    stack(e.g, t.m->g.val(z, uu));
    stack(e.h, t.m->h.val(z, uu));
    stack(e.Gx, t.m->g.Jz(z, uu) * J);
    stack(e.Gu, t.m->g.Ju(z, uu));
    stack(e.Hx, t.m->h.Jz(z, uu) * J);
    stack(e.Hu, t.m->h.Ju(z, uu));
    stack(e.lb, t.lb);
    stack(e.ub, t.ub);
  }
  return e;
}

template <class D>
static void compare(mc::Ctx& c, const D& d, const ConstraintModelManager& mgr, const Expect& e, bool terminal) {
  const std::string k = terminal ? "terminal-" : "running-";
  auto eq = [&](const char* what, const Mat& a, const Mat& b) {
    c.check(close(a, b), k + what, std::string(what) + " " + show(a) + ", the active constraints give " + show(b));
  };
  eq("g", d->g, e.g);
  eq("h", d->h, e.h);
  eq("Gx", d->Gx, e.Gx);
  eq("Hx", d->Hx, e.Hx);
  if (!terminal) {
    eq("Gu", d->Gu, e.Gu);
    eq("Hu", d->Hu, e.Hu);
    eq("lb", mgr.get_lb(), e.lb);
    eq("ub", mgr.get_ub(), e.ub);
  } else {
    c.check(mgr.get_lb().size() >= e.lb.rows() && close(mgr.get_lb().head(e.lb.rows()), e.lb), k + "lb", "lower bounds " + show(mgr.get_lb()) + " vs " + show(e.lb));
    c.check(mgr.get_ub().size() >= e.ub.rows() && close(mgr.get_ub().head(e.ub.rows()), e.ub), k + "ub", "upper bounds " + show(mgr.get_ub()) + " vs " + show(e.ub));
  }
}

// An action data that shares the manager's buffers, sized as the library's own action models size it.
struct Action {
  StateP s;
  ConstraintModelManager* mgr;
  Action(StateP s, ConstraintModelManager* m) : s(s), mgr(m) {}
  const StateP& get_state() const { return s; }
  size_t get_nu() const { return NU; }
  size_t get_ng() const { return mgr->get_ng(); }
  size_t get_nh() const { return mgr->get_nh(); }
  size_t get_ng_T() const { return mgr->get_ng_T(); }
  size_t get_nh_T() const { return mgr->get_nh_T(); }
};
struct ActionBuf {
  Vec g, h;
  Mat Gx, Gu, Hx, Hu;
  explicit ActionBuf(Action& a) {
    const long ng = std::max(a.get_ng(), a.get_ng_T()), nh = std::max(a.get_nh(), a.get_nh_T()), n = a.s->get_ndx();
    g = Vec::Zero(ng), h = Vec::Zero(nh), Gx = Mat::Zero(ng, n), Gu = Mat::Zero(ng, NU), Hx = Mat::Zero(nh, n), Hu = Mat::Zero(nh, NU);
  }
};

static void evaluate(mc::Ctx& c, StateP s, ConstraintModelManager& mgr, const std::shared_ptr<ConstraintDataManager>& d, ActionBuf* buf,
                     const Ref& ref, const Vec& x, const Vec& u, bool terminal) {
  c.op("evaluate (%s%s)", terminal ? "terminal" : "running", buf ? ", shared" : "");
  const Expect e = reference(s, ref, x, u, terminal);
  Action a(s, &mgr);
  if (buf) d->resize(&a, buf, !terminal);
  else d->resize(&mgr, !terminal);
  if (terminal) {
    mgr.calc(d, x);
    mgr.calcDiff(d, x);
  } else {
    mgr.calc(d, x, u);
    mgr.calcDiff(d, x, u);
  }
  compare(c, d, mgr, e, terminal);
  if (buf) compare(c, buf, mgr, e, terminal);
}

static void bookkeeping(mc::Ctx& c, const ConstraintModelManager& mgr, const Ref& ref) {
  size_t ng = 0, nh = 0, ngT = 0, nhT = 0;
  std::set<std::string> act, inact, all;
  for (auto& kv : ref) {
    const Item& t = kv.second;
    if (t.active) {
      act.insert(kv.first);
      ng += t.m->get_ng(), nh += t.m->get_nh();
      if (t.m->get_T_constraint()) ngT += t.m->get_ng(), nhT += t.m->get_nh();
    } else
      inact.insert(kv.first);
    c.check(mgr.getConstraintStatus(kv.first) == t.active, "status", "getConstraintStatus(" + kv.first + ") is wrong");
    auto it = mgr.get_constraints().find(kv.first);
    c.check(it != mgr.get_constraints().end() && it->second->constraint == t.m && it->second->active == t.active, "item",
            "the item " + kv.first + " isn't the one that was added");
  }
  c.check(mgr.get_constraints().size() == ref.size(), "items", mc::strf("%zu items, expected %zu", mgr.get_constraints().size(), ref.size()));
  c.check(mgr.get_active_set() == act, "active-set", names(mgr.get_active_set()) + ", expected " + names(act));
  c.check(mgr.get_inactive_set() == inact, "inactive-set", names(mgr.get_inactive_set()) + ", expected " + names(inact));
  c.check(mgr.get_ng() == ng && mgr.get_nh() == nh, "dims", mc::strf("ng=%zu nh=%zu, expected %zu, %zu", mgr.get_ng(), mgr.get_nh(), ng, nh));
  c.check(mgr.get_ng_T() == ngT && mgr.get_nh_T() == nhT, "terminal-dims",
          mc::strf("ng_T=%zu nh_T=%zu, expected %zu, %zu", mgr.get_ng_T(), mgr.get_nh_T(), ngT, nhT));
  c.check((size_t)mgr.get_lb().size() == ng && (size_t)mgr.get_ub().size() == ng, "bound-dims", "the bounds haven't ng rows");
}

static void bounds(mc::Ctx& c, const ConstraintModelManager& mgr, const Ref& ref) {
  Mat lb(0, 1), ub(0, 1);
  for (auto& kv : ref)
    if (kv.second.active) stack(lb, kv.second.lb), stack(ub, kv.second.ub);
  c.check(close(mgr.get_lb(), lb), "edited-lb", "lower bounds after an edit " + show(mgr.get_lb()) + " vs " + show(lb));
  c.check(close(mgr.get_ub(), ub), "edited-ub", "upper bounds after an edit " + show(mgr.get_ub()) + " vs " + show(ub));
}

static void histories(mc::Ctx& c, bool curved, size_t depth) {
  static StateP flat = std::make_shared<StateVector>(4), curv = std::make_shared<CurvedState>();
  StateP s = curved ? curv : flat;
  static const std::shared_ptr<TConstraint> wrong[2] = {std::make_shared<TConstraint>(flat, 3, 1, 1, true, 7),
                                                        std::make_shared<TConstraint>(curv, 3, 1, 1, true, 7)};
  static std::vector<Vec> X[2], U;
  if (U.empty()) {
    Gen g(9);
    for (int i = 0; i < 2; ++i) {
      X[0].push_back(g.vec(4));
      X[1].push_back(CurvedState::point(1.4 * g.next(), g.next()));
      U.push_back(g.vec(NU));
    }
  }
  const std::vector<Vec>& xs = X[curved];
  Quiet quiet;
  ConstraintModelManager mgr(s, NU);
  Ref ref;
  DataCollectorAbstract coll;
  std::shared_ptr<ConstraintDataManager> data;
  std::unique_ptr<ActionBuf> buf;
  std::set<std::string> data_names;
  int eval = 0;
  for (size_t step = 0; step < depth; ++step) {
    enum { ADD, REMOVE, STATUS, BOUNDS, DATA, EVAL, WRONG };
    struct Op {
      int k, n, a;
    };
    std::vector<Op> ops;
    for (int n = 0; n < 3; ++n) {
      ops.push_back({ADD, n, 1});
      ops.push_back({ADD, n, 0});
      ops.push_back({REMOVE, n, 0});
      ops.push_back({STATUS, n, 0});
      ops.push_back({STATUS, n, 1});
      if (ref.count(NAMES[n])) ops.push_back({BOUNDS, n, 0});
    }
    ops.push_back({WRONG, 0, 0});
    if (step) ops.push_back({DATA, 0, 0}), ops.push_back({DATA, 0, 1});
    if (data) ops.push_back({EVAL, 0, 0}), ops.push_back({EVAL, 0, 1});
    const Op o = ops[c.choose(ops.size(), "operation")];
    const std::string name = NAMES[o.n];
    bool edited = false;
    switch (o.k) {
      case ADD: {
        const bool dup = ref.count(name);
        Item it{make(s, dup ? (o.n + 1) % 3 : o.n), (bool)o.a, Vec(), Vec()};
        const long ng = it.m->get_ng();
        it.lb = Vec::Constant(ng, -INF);
        it.ub = Vec::Constant(ng, INF);
        if (o.n != 1) {
          it.lb = Vec::LinSpaced(ng, -1. - o.n, -2.);
          it.ub = Vec::LinSpaced(ng, 1.5, 3. + o.n);
          it.m->update_bounds(it.lb, it.ub);
        }
        c.op("addConstraint(%s%s, active=%d)", name.c_str(), dup ? " [duplicate]" : "", o.a);
        mgr.addConstraint(name, it.m, o.a);
        if (!dup) ref[name] = it, edited = o.a;
        break;
      }
      case REMOVE:
        c.op("removeConstraint(%s)", name.c_str());
        mgr.removeConstraint(name);
        edited = ref.count(name) && ref[name].active;
        ref.erase(name);
        break;
      case STATUS:
        c.op("changeConstraintStatus(%s, %d)", name.c_str(), o.a);
        mgr.changeConstraintStatus(name, o.a);
        if (ref.count(name)) {
          edited = ref[name].active != o.a;
          ref[name].active = o.a;
        }
        break;
      case BOUNDS: {
        c.op("update_bounds of %s", name.c_str());
        Item& t = ref[name];
        const long ng = t.m->get_ng();
        t.lb = Vec::Constant(ng, -0.25 - o.n);
        t.ub = Vec::Constant(ng, 0.75 + o.n);
        t.m->update_bounds(t.lb, t.ub);
        break;
      }
      case WRONG:
        c.op("addConstraint(delta) with a wrong control dimension");
        c.check(throws([&] { mgr.addConstraint("delta", wrong[curved], true); }), "wrong-nu", "a constraint with another nu was accepted");
        break;
      case DATA:
        c.op("createData%s", o.a ? " (shared memory)" : "");
        data = mgr.createData(&coll);
        data_names.clear();
        for (auto& kv : ref) data_names.insert(kv.first);
        buf.reset();
        if (o.a) {
          Action a(s, &mgr);
          buf.reset(new ActionBuf(a));
          data->shareMemory(buf.get());
        }
        break;
      case EVAL: {
        std::set<std::string> now;
        for (auto& kv : ref) now.insert(kv.first);
        const Vec &x = xs[eval % 2], &u = U[eval % 2];
        ++eval;
        if (now.size() != data_names.size()) {
          c.op("evaluate on data of another set of constraints");
          c.check(throws([&] { mgr.calc(data, x, u); }) && throws([&] { mgr.calc(data, x); }) && throws([&] { mgr.calcDiff(data, x, u); }) &&
                      throws([&] { mgr.calcDiff(data, x); }),
                  "stale-data-accepted", "data of " + names(data_names) + " were accepted for " + names(now));
        } else if (now == data_names) {
          evaluate(c, s, mgr, data, buf.get(), ref, x, u, o.a);
        }
        break;
      }
    }
    bookkeeping(c, mgr, ref);
    if (edited) bounds(c, mgr, ref);
    uint64_t h = mc::mix(curved, (data != nullptr) * 2 + (buf != nullptr));
    for (auto& kv : ref) h = mc::mix(h, mc::hash_str(kv.first) + kv.second.active * 3 + (kv.second.lb.size() && kv.second.lb[0] > -0.9) * 7);
    for (auto& n : data_names) h = mc::mix(h, mc::hash_str(n));
    c.state(h);
  }
  std::shared_ptr<ConstraintDataManager> fresh = mgr.createData(&coll);
  c.check(throws([&] { mgr.calc(fresh, Vec::Zero(s->get_nx() + 1)); }) && throws([&] { mgr.calc(fresh, xs[0], Vec::Zero(3)); }) &&
              throws([&] { mgr.calcDiff(fresh, Vec::Zero(s->get_nx() + 1)); }) && throws([&] { mgr.calcDiff(fresh, xs[0], Vec::Zero(1)); }),
          "wrong-size", "wrong sized arguments were accepted");
  // every status pattern of what the history left behind, on the same data
  for (int i = 0; i <= (int)ref.size(); ++i) {
    evaluate(c, s, mgr, fresh, nullptr, ref, xs[i % 2], U[0], false);
    evaluate(c, s, mgr, fresh, nullptr, ref, xs[1 - i % 2], U[1], true);
    evaluate(c, s, mgr, fresh, nullptr, ref, xs[1 - i % 2], U[1], false);
    int k = 0;
    for (auto& kv : ref)
      if (k++ == i) {
        mgr.changeConstraintStatus(kv.first, !kv.second.active);
        kv.second.active = !kv.second.active;
        bounds(c, mgr, ref);
      }
  }
  bookkeeping(c, mgr, ref);
  c.outcome(mc::strf("%zu constraints, ng=%zu nh=%zu", ref.size(), mgr.get_ng(), mgr.get_nh()));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("histories", [](mc::Ctx& c) { histories(c, false, c.thorough ? 5 : 4); });
  e.add("histories-curved", [](mc::Ctx& c) { histories(c, true, c.thorough ? 5 : 4); });
  return e.main(argc, argv);
}
