// C13: after any sequence of structural edits a shooting problem behaves as one built from its content.
#include "nodes.hpp"
using namespace crocoddyl;
typedef std::vector<Vec> Vs;

struct Node {
  ActP m;
  ActD d;  // null: created by the problem
};
static Vec point(int i) { return CurvedState::point(0.3 * i - 0.5, 0.4 - 0.3 * i); }

static void edits(mc::Ctx& c) {
  Quiet quiet;
  StateP s = std::make_shared<CurvedState>(), bad_nx = std::make_shared<StateVector>(4);
  struct Odd : CurvedState {  // same nx, another ndx
    Odd() { ndx_ = 3; }
  };
  StateP bad_ndx = std::make_shared<Odd>();
  const bool deep = c.thorough;
  int T = 1 + c.choose(deep ? 3 : 2, "horizon"), seed = 0;
  std::vector<Node> ref;
  std::vector<ActP> ms;
  for (int i = 0; i < T; ++i) ref.push_back({make_node(i % 3, s, 60 + i), nullptr}), ms.push_back(ref[i].m);
  Node term = {make_node(2, s, 70), nullptr};
  Vec x0 = point(9);
  std::shared_ptr<ShootingProblem> p = std::make_shared<ShootingProblem>(x0, ms, term.m);
  if (c.flip("given data")) {
    std::vector<ActD> ds;
    for (auto& n : ref) ds.push_back(n.d = n.m->createData());
    term.d = term.m->createData();
    p = std::make_shared<ShootingProblem>(x0, ms, term.m, ds, term.d);
    CHECK(c, !p->is_updated(), "updated", "a newly built problem says it was edited");
  }
  for (int i = 0; i < T; ++i) ref[i].d = p->get_runningDatas()[i];
  term.d = p->get_terminalData();
  const int depth = deep && T == 1 ? 4 : 3;
  bool flag = false;
  for (int st = 0; st < depth; ++st) {
    const int op = c.choose(8, "operation");
    // a node: two compatible kinds, wrong nx, wrong ndx
    std::shared_ptr<TAct> made;
    auto model = [&](const char* l) {
      const int k = c.choose(4, l);
      TAct::Spec a;
      a.seed = 200 + ++seed;
      a.nu = k == 0 ? 2 : 1, a.nh = k == 0, a.ng_T = k == 1;
      made = std::make_shared<TAct>(s, a);
      return k < 2 ? std::make_pair(ActP(made), true)
                   : std::make_pair(ActP(std::make_shared<TAct>(k == 2 ? bad_nx : bad_ndx, a)), false);
    };
    bool ok = true, threw = false, edit = op != 6;
    auto run = [&](std::function<void()> f) {
      // a model that looks at the type of the data only, as the built-in ones do, unless data is offered
      if (made) made->lax = op == 0 || op == 2 || op == 4;
      threw = throws(f);
      if (made) made->lax = false;
    };
    if (op == 0 || op == 1) {
      auto m = model("model");
      const bool own = op == 1;
      ActD d;
      if (own) {
        const bool match = c.choose(2, "data") == 0;
        d = match ? m.first->createData() : make_node(6, s, 1)->createData();
        ok = match;
      }
      ok = ok && m.second;
      c.op("circularAppend(model #%d%s)%s", seed, own ? ", data" : "", ok ? "" : " [incompatible]");
      run([&] { own ? p->circularAppend(m.first, d) : p->circularAppend(m.first); });
      if (ok) ref.erase(ref.begin()), ref.push_back({m.first, d});
    } else if (op == 2 || op == 3) {
      const int i = c.choose(T + 2, "node");
      auto m = model("model");
      const bool own = op == 3;
      ActD d;
      if (own) {
        const bool match = c.choose(2, "data") == 0;
        d = match ? m.first->createData() : make_node(6, s, 1)->createData();
        ok = match;
      }
      ok = ok && m.second && i <= T;
      c.op("%s(%d, model #%d)%s", own ? "updateNode" : "updateModel", i, seed, ok ? "" : " [incompatible]");
      run([&] { own ? p->updateNode(i, m.first, d) : p->updateModel(i, m.first); });
      if (ok) (i == T ? term : ref[i]) = {m.first, d};
    } else if (op == 4) {
      auto m = model("model");
      ok = m.second;
      c.op("set_terminalModel(model #%d)%s", seed, ok ? "" : " [incompatible]");
      run([&] { p->set_terminalModel(m.first); });
      if (ok) term = {m.first, nullptr};
    } else if (op == 5) {
      const int n = c.choose(5, "new horizon");  // 0: its own models again
      const int badpos = n ? c.choose(3, "incompatible") : 0;  // none, last, first
      std::vector<ActP> v;
      if (!n)
        for (auto& r : ref) v.push_back(r.m);
      for (int i = 0; i < n; ++i) {
        const bool b = (badpos == 1 && i == n - 1) || (badpos == 2 && i == 0);
        v.push_back(b ? make_node(0, bad_nx, 300) : make_node((i + st) % 3, s, 300 + 10 * st + i));
      }
      ok = badpos == 0;
      c.op("set_runningModels(%d models)%s", n, ok ? "" : " [incompatible]");
      run([&] { n ? p->set_runningModels(v) : p->set_runningModels(p->get_runningModels()); });
      if (ok) {
        ref.clear();
        for (auto& m : v) ref.push_back({m, nullptr});
        T = v.size();
      }
    } else if (op == 6) {
      const bool good = c.choose(2, "size") == 0;
      ok = good;
      Vec v = good ? point(20 + st) : Vec(Vec::Ones(4));
      c.op("set_x0%s", good ? "" : " [wrong size]");
      run([&] { p->set_x0(v); });
      if (ok) x0 = v;
    } else {
      c.op("is_updated()");
      const bool u = p->is_updated();
      CHECK(c, u == flag, "updated", "is_updated is %d after %s edit", u, flag ? "an" : "no");
      flag = false;
      edit = false;
    }
    CHECK(c, threw == !ok, "refusal", "%s", ok ? "a valid edit was refused" : "an invalid edit was accepted");
    if (ok && edit) flag = true;
    // the problem is exactly its content
    CHECK(c, (long)p->get_T() == T, "T", "T is %zu, expected %d", p->get_T(), T);
    CHECK(c, same(p->get_x0(), x0), "x0", "x0 is %s", show(p->get_x0()).c_str());
    CHECK(c, (long)p->get_runningModels().size() == T && (long)p->get_runningDatas().size() == T, "sizes", "%zu models, %zu datas for T=%d",
          p->get_runningModels().size(), p->get_runningDatas().size(), T);
    std::set<void*> used;
    for (int i = 0; i <= T; ++i) {
      Node& n = i == T ? term : ref[i];
      const ActP& m = i == T ? p->get_terminalModel() : p->get_runningModels()[i];
      const ActD& d = i == T ? p->get_terminalData() : p->get_runningDatas()[i];
      CHECK(c, m == n.m, "model", "node %d holds another model", i);
      CHECK(c, d && m->checkData(d), "data", "node %d: its data does not belong to its model", i);
      CHECK(c, !n.d || n.d == d, "data", "node %d: its data is not the expected object", i);
      n.d = d;
      CHECK(c, used.insert(d.get()).second, "data", "node %d shares its data with another node", i);
    }
    c.state(mc::mix(T, seed * 7 + st));
  }
  CHECK(c, p->is_updated() == flag, "updated", "is_updated is %d after %s edit", !flag, flag ? "an" : "no");
  CHECK(c, !p->is_updated(), "updated", "is_updated stays set");
  // ... and evaluates like a new problem
  ms.clear();
  Vs xs, us;
  for (int i = 0; i < T; ++i) ms.push_back(ref[i].m), us.push_back(Gen(i).vec(ref[i].m->get_nu()));
  for (int i = 0; i <= T; ++i) xs.push_back(point(i));
  ShootingProblem q(x0, ms, term.m);
  const double a = p->calc(xs, us), b = q.calc(xs, us), a2 = p->calcDiff(xs, us), b2 = q.calcDiff(xs, us);
  CHECK(c, a == b && a2 == b2, "cost", "cost %.17g / %.17g, a new problem gives %.17g / %.17g", a, a2, b, b2);
  for (int i = 0; i <= T; ++i) {
    const std::string d = i == T ? diff_data(*p->get_terminalData(), *q.get_terminalData()) : diff_data(*p->get_runningDatas()[i], *q.get_runningDatas()[i]);
    CHECK(c, d.empty(), "node", "node %d: %s", i, d.c_str());
  }
  Vs r1 = p->rollout_us(us), r2 = q.rollout_us(us);
  CHECK(c, r1.size() == r2.size(), "rollout", "rollouts differ in length");
  for (size_t i = 0; i < r1.size(); ++i) CHECK(c, same(r1[i], r2[i]), "rollout", "rolled-out state %zu differs", i);
}

// Constructors refuse inconsistent content, and accept it otherwise.
static void construction(mc::Ctx& c) {
  Quiet quiet;
  StateP s = std::make_shared<CurvedState>(), v = std::make_shared<StateVector>(4);
  struct Odd : CurvedState {
    Odd() { ndx_ = 3; }
  };
  StateP odd = std::make_shared<Odd>();
  const int T = 1 + c.choose(3, "horizon");
  const bool given = c.flip("given data");
  const int wrong = c.choose(8, "inconsistency");  // none, node nx, node ndx, terminal nx, terminal ndx, x0, data kind, data count
  const int at = c.choose(T, "node");
  if (!given && wrong >= 6) c.prune();
  if (wrong < 1 && at) c.prune();
  if ((wrong == 1 || wrong == 2) && T == 1) c.prune();  // it would define the dimensions
  if ((wrong == 1 || wrong == 2) && at == 0) c.prune();
  std::vector<ActP> ms;
  std::vector<ActD> ds;
  for (int i = 0; i < T; ++i) {
    ms.push_back(make_node(2, i == at && wrong == 1 ? v : i == at && wrong == 2 ? odd : s, i));
    ds.push_back(wrong == 6 && i == at ? make_node(6, s, 1)->createData() : ms[i]->createData());
  }
  ActP t = make_node(0, wrong == 3 ? v : wrong == 4 ? odd : s, 8);
  ActD td = t->createData();
  if (wrong == 7) ds.pop_back();
  Vec x0 = wrong == 5 ? Vec(Vec::Ones(4)) : point(1);
  c.op("T=%d inconsistency %d at node %d%s", T, wrong, at, given ? ", data given" : "");
  const bool threw = throws([&] {
    if (given)
      ShootingProblem(x0, ms, t, ds, td);
    else
      ShootingProblem(x0, ms, t);
  });
  CHECK(c, threw == (wrong != 0), "construction", "%s", threw ? "consistent content was refused" : "inconsistent content was accepted");
  c.state(wrong * 100 + at * 10 + T);
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("edits", edits);
  e.add("construction", construction);
  return e.main(argc, argv);
}
