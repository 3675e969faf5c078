// C15: CostModelSum against a list of active terms, over all short edit/evaluation histories.
#include "models.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
using namespace crocoddyl;

struct Term {
  std::shared_ptr<CostModelAbstract> model;
  double weight;
  bool active;
};
typedef std::map<std::string, Term> Ref;

struct Pool {
  StateP state;
  std::vector<std::shared_ptr<CostModelAbstract>> m;  // last one has a wrong control dimension
  std::vector<Vec> xs, us;
  Pool(bool curved) {
    if (curved) state = std::make_shared<CurvedState>();
    else state = std::make_shared<StateVector>(3);
    m.push_back(std::make_shared<TCost>(state, 1, 2, 11));
    m.push_back(std::make_shared<TCost>(state, 3, 2, 22));
    m.push_back(std::make_shared<CostModelResidual>(state, std::make_shared<TResidual>(state, 2, 2, 33)));
    m.push_back(std::make_shared<TCost>(state, 4, 3, 44));
    Gen g(5);
    for (int i = 0; i < 2; ++i) {
      Vec x = g.vec(state->get_nx());
      if (curved) x = CurvedState::point(1.3 * g.next(), g.next());
      xs.push_back(x);
      us.push_back(g.vec(2));
    }
  }
};

struct Val {
  double cost = 0;
  Vec Lx, Lu;
  Mat Lxx, Lxu, Luu;
};
static Val reference(const Pool& P, const Ref& ref, const Vec& x, const Vec& u, bool terminal) {
  const long n = P.state->get_ndx();
  Val v;
  v.Lx = Vec::Zero(n), v.Lu = Vec::Zero(2), v.Lxx = Mat::Zero(n, n), v.Lxu = Mat::Zero(n, 2), v.Luu = Mat::Zero(2, 2);
  const Vec uu = terminal ? Vec(Vec::Zero(2)) : u;
  const Vec z = zof(P.state, x);
  const Mat J = Jof(P.state, x);
  for (auto& kv : ref) {
    const Term& t = kv.second;
    if (!t.active) continue;
    const double w = t.weight;
    if (auto* q = dynamic_cast<TCost*>(t.model.get())) {
      v.cost += w * q->l.val(z, uu);
      v.Lx += w * J.transpose() * q->l.gz(z, uu);
      v.Lu += w * q->l.gu(z, uu);
      v.Lxx += w * J.transpose() * q->l.Hzz(z, uu) * J;
      v.Lxu += w * J.transpose() * q->l.Hzu(z, uu);
      v.Luu += w * q->l.Huu(z, uu);
    } else {
      const Fn& f = static_cast<TResidual*>(t.model->get_residual().get())->f;
      const Vec r = f.val(z, uu);
      const Mat Rx = f.Jz(z, uu) * J, Ru = f.Ju(z, uu);
      v.cost += w * 0.5 * r.dot(r);
      v.Lx += w * Rx.transpose() * r;
      v.Lu += w * Ru.transpose() * r;
      v.Lxx += w * Rx.transpose() * Rx;
      v.Lxu += w * Rx.transpose() * Ru;
      v.Luu += w * Ru.transpose() * Ru;
    }
  }
  return v;
}

static void evaluate(mc::Ctx& c, const Pool& P, CostModelSum& sum, const std::shared_ptr<CostDataSum>& d, const Ref& ref,
                     const Vec& x, const Vec& u, bool terminal) {
  const Val v = reference(P, ref, x, u, terminal);
  c.op("evaluate (%s)", terminal ? "terminal" : "running");
  if (terminal) {
    sum.calc(d, x);
    sum.calcDiff(d, x);
  } else {
    sum.calc(d, x, u);
    sum.calcDiff(d, x, u);
  }
  const std::string k = terminal ? "terminal-" : "running-";
  c.check(closes(d->cost, v.cost), k + "cost", mc::strf("cost %.12g, active terms sum to %.12g", d->cost, v.cost));
  c.check(close(d->Lx, v.Lx), k + "Lx", "Lx " + show(d->Lx) + " vs " + show(v.Lx));
  c.check(close(d->Lxx, v.Lxx), k + "Lxx", "Lxx " + show(d->Lxx) + " vs " + show(v.Lxx));
  if (!terminal) {
    c.check(close(d->Lu, v.Lu), k + "Lu", "Lu " + show(d->Lu) + " vs " + show(v.Lu));
    c.check(close(d->Lxu, v.Lxu), k + "Lxu", "Lxu " + show(d->Lxu) + " vs " + show(v.Lxu));
    c.check(close(d->Luu, v.Luu), k + "Luu", "Luu " + show(d->Luu) + " vs " + show(v.Luu));
  }
}

static std::string names(const std::set<std::string>& s) {
  std::string r = "{";
  for (auto& x : s) r += x + " ";
  return r + "}";
}

static void bookkeeping(mc::Ctx& c, const CostModelSum& sum, const Ref& ref) {
  size_t nr = 0, nt = 0;
  std::set<std::string> act, inact, all;
  for (auto& kv : ref) {
    const size_t n = kv.second.model->get_activation()->get_nr();
    nt += n;
    if (kv.second.active) nr += n, act.insert(kv.first);
    else inact.insert(kv.first);
    c.check(sum.getCostStatus(kv.first) == kv.second.active, "status", "getCostStatus(" + kv.first + ") is wrong");
  }
  for (auto& kv : sum.get_costs()) all.insert(kv.first);
  std::set<std::string> want = act;
  want.insert(inact.begin(), inact.end());
  c.check(all == want, "terms", "terms " + names(all) + ", expected " + names(want));
  c.check(sum.get_active_set() == act, "active-set", "active " + names(sum.get_active_set()) + ", expected " + names(act));
  c.check(sum.get_inactive_set() == inact, "inactive-set", "inactive " + names(sum.get_inactive_set()) + ", expected " + names(inact));
  c.check(sum.get_nr() == nr, "nr", mc::strf("nr %zu, expected %zu", sum.get_nr(), nr));
  c.check(sum.get_nr_total() == nt, "nr-total", mc::strf("nr_total %zu, expected %zu", sum.get_nr_total(), nt));
  for (auto& kv : ref) {
    auto it = sum.get_costs().find(kv.first);
    c.check(it->second->cost == kv.second.model && it->second->weight == kv.second.weight && it->second->active == kv.second.active,
            "item", "the item " + kv.first + " isn't the one that was added");
  }
}

static const char* NAMES[] = {"alpha", "beta", "gamma"};

static void histories(mc::Ctx& c, bool curved, size_t depth) {
  static Pool flat(false), curv(true);
  Pool& P = curved ? curv : flat;
  Quiet quiet;
  CostModelSum sum(P.state, 2);
  Ref ref;
  DataCollectorAbstract coll;
  std::shared_ptr<CostDataSum> data;
  std::set<std::string> data_names;
  ActionDataAbstract* shared = nullptr;
  std::unique_ptr<TAct> act;
  std::unique_ptr<ActionDataAbstract> sd;
  int eval = 0;
  for (size_t step = 0; step < depth; ++step) {
    enum { ADD, ADDITEM, REMOVE, STATUS, WEIGHT, DATA, EVAL, WRONG };
    struct Op {
      int k, n, a;
    };
    std::vector<Op> ops;
    for (int n = 0; n < 3; ++n) {
      const bool there = ref.count(NAMES[n]);
      ops.push_back({ADD, n, 1});
      ops.push_back({ADD, n, 0});
      ops.push_back({ADDITEM, n, 1});
      ops.push_back({ADDITEM, n, 0});
      ops.push_back({REMOVE, n, 0});
      ops.push_back({STATUS, n, 0});
      ops.push_back({STATUS, n, 1});
      if (there) ops.push_back({WEIGHT, n, 0});
      // by symmetry, a name is only introduced after the previous one has been used
      if (step == 0) break;
    }
    ops.push_back({WRONG, 0, 0});
    if (step) ops.push_back({DATA, 0, 0}), ops.push_back({DATA, 0, 1});
    if (data) ops.push_back({EVAL, 0, 0}), ops.push_back({EVAL, 0, 1});
    const Op o = ops[c.choose(ops.size(), "operation")];
    const std::string name = NAMES[o.n];
    switch (o.k) {
      case ADD:
      case ADDITEM: {
        // a duplicate is offered with another model, weight and status, so that a replaced item shows
        const bool dup = ref.count(name);
        const auto m = P.m[(o.n + (dup ? 1 : 0)) % 3];
        const double w = dup ? 7. : 0.5 + o.n;
        c.op("%s(%s%s, w=%g, active=%d)", o.k == ADD ? "addCost" : "addCost(item)", name.c_str(), dup ? " [duplicate]" : "", w, o.a);
        if (o.k == ADD) sum.addCost(name, m, w, o.a);
        else sum.addCost(std::make_shared<CostItemTpl<double>>(name, m, w, (bool)o.a));
        if (!dup) ref[name] = Term{m, w, (bool)o.a};
        break;
      }
      case REMOVE:
        c.op("removeCost(%s)", name.c_str());
        sum.removeCost(name);
        ref.erase(name);
        break;
      case STATUS:
        c.op("changeCostStatus(%s, %d)", name.c_str(), o.a);
        sum.changeCostStatus(name, o.a);
        if (ref.count(name)) ref[name].active = o.a;
        break;
      case WEIGHT:
        c.op("weight(%s) = -0.75", name.c_str());
        sum.get_costs().find(name)->second->weight = -0.75;
        ref[name].weight = -0.75;
        break;
      case WRONG: {
        c.op("addCost(delta) with a wrong control dimension");
        c.check(throws([&] { sum.addCost("delta", P.m[3], 1.); }), "wrong-nu", "a cost with another nu was accepted");
        c.check(throws([&] { sum.addCost(std::make_shared<CostItemTpl<double>>("delta", P.m[3], 1., true)); }), "wrong-nu-item",
                "a cost item with another nu was accepted");
        break;
      }
      case DATA: {
        c.op("createData%s", o.a ? " (shared memory)" : "");
        data = sum.createData(&coll);
        data_names.clear();
        for (auto& kv : ref) data_names.insert(kv.first);
        shared = nullptr;
        if (o.a) {
          TAct::Spec s;
          s.nu = 2;
          act.reset(new TAct(P.state, s));
          sd.reset(new ActionDataAbstract(act.get()));
          data->shareMemory(sd.get());
          shared = sd.get();
        }
        break;
      }
      case EVAL: {
        std::set<std::string> now;
        for (auto& kv : ref) now.insert(kv.first);
        const Vec &x = P.xs[eval % 2], &u = P.us[eval % 2];
        ++eval;
        if (now.size() != data_names.size()) {
          c.op("evaluate on data of another set of terms");
          c.check(throws([&] { sum.calc(data, x, u); }) && throws([&] { sum.calc(data, x); }) &&
                      throws([&] { sum.calcDiff(data, x, u); }) && throws([&] { sum.calcDiff(data, x); }),
                  "stale-data-accepted", "data of " + names(data_names) + " were accepted for terms " + names(now));
        } else if (now == data_names) {
          evaluate(c, P, sum, data, ref, x, u, o.a);
          if (shared)
            c.check(same(shared->Lx, data->Lx) && same(shared->Lxx, data->Lxx) && shared->Lx.data() == data->Lx.data(), "shared",
                    "the shared buffers don't hold the derivatives");
        }
        break;
      }
    }
    bookkeeping(c, sum, ref);
    uint64_t h = mc::mix(curved, (data != nullptr) * 2 + (shared != nullptr));
    for (auto& kv : ref) h = mc::mix(h, mc::hash_str(kv.first) + kv.second.active * 3 + (kv.second.weight < 0) * 7);
    for (auto& n : data_names) h = mc::mix(h, mc::hash_str(n));
    c.state(h);
  }
  // what the history left behind, on fresh data, at a running and at a terminal node
  std::shared_ptr<CostDataSum> fresh = sum.createData(&coll);
  c.check(throws([&] { sum.calc(fresh, Vec::Zero(P.state->get_nx() + 1)); }) && throws([&] { sum.calc(fresh, P.xs[0], Vec::Zero(3)); }) &&
              throws([&] { sum.calcDiff(fresh, Vec::Zero(P.state->get_nx() + 1)); }) && throws([&] { sum.calcDiff(fresh, P.xs[0], Vec::Zero(1)); }),
          "wrong-size", "wrong sized arguments were accepted");
  for (int i = 0; i < 2; ++i) {
    evaluate(c, P, sum, fresh, ref, P.xs[i], P.us[i], false);
    evaluate(c, P, sum, fresh, ref, P.xs[1 - i], P.us[i], true);
  }
  // The active set can change without new data.
  for (auto& kv : ref) {
    sum.changeCostStatus(kv.first, !kv.second.active);
    kv.second.active = !kv.second.active;
    evaluate(c, P, sum, fresh, ref, P.xs[0], P.us[1], false);
    evaluate(c, P, sum, fresh, ref, P.xs[1], P.us[1], true);
  }
  bookkeeping(c, sum, ref);
  c.outcome(mc::strf("%zu terms, %zu active", ref.size(), sum.get_active_set().size()));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("histories", [](mc::Ctx& c) { histories(c, false, c.thorough ? 5 : 4); });
  e.add("histories-curved", [](mc::Ctx& c) { histories(c, true, c.thorough ? 5 : 4); });
  return e.main(argc, argv);
}
