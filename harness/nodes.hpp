// Action models of all kinds over one curved state (nx = 3, ndx = 2) or one vector state, and node snapshots.
#ifndef MC_NODES_HPP
#define MC_NODES_HPP
#include "models.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
typedef std::shared_ptr<cr::ActionModelAbstractTpl<double>> ActP;
typedef std::shared_ptr<cr::ActionDataAbstractTpl<double>> ActD;

enum { NODE_KINDS = 8 };
inline const char* node_name(int k) {
  static const char* n[] = {"action nu=1", "action nu=0", "action nu=2 ng=2 nh=1", "Euler", "RK4/poly-two", "numdiff", "action nu=3", "RK2/poly-one"};
  return n[k];
}
inline ActP make_node(int kind, StateP s, uint64_t seed, double e = 0.5) {
  TAct::Spec a;
  a.seed = seed, a.e = e;
  TDAct::Spec b;
  b.seed = seed, b.e = e;
  typedef std::shared_ptr<cr::ControlParametrizationModelAbstractTpl<double>> CP;
  switch (kind) {
    case 1: a.nu = 0; break;
    case 2: a.nu = 2, a.ng = 2, a.nh = 1, a.ng_T = 1, a.nh_T = 2; break;
    case 3: b.nu = 2; return std::make_shared<cr::IntegratedActionModelEuler>(std::make_shared<TDAct>(s, b), 0.1, true);
    case 4:
      b.ng = 1;
      return std::make_shared<cr::IntegratedActionModelRK>(std::make_shared<TDAct>(s, b), CP(std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(1, cr::RKType::four)), cr::RKType::four, 0.2, true);
    case 5: a.nu = 2; return std::make_shared<cr::ActionModelNumDiff>(std::make_shared<TAct>(s, a), true);
    case 6: a.nu = 3; break;
    case 7:
      return std::make_shared<cr::IntegratedActionModelRK>(std::make_shared<TDAct>(s, b), CP(std::make_shared<cr::ControlParametrizationModelPolyOne>(1)), cr::RKType::two, 0.15, false);
  }
  return std::make_shared<TAct>(s, a);
}

inline std::string diff_data(const cr::ActionDataAbstractTpl<double>& a, const cr::ActionDataAbstractTpl<double>& b) {
#define F(m) \
  if (!same(a.m, b.m)) return std::string(#m) + " " + show(a.m) + ", expected " + show(b.m);
  if (!(a.cost == b.cost || (a.cost != a.cost && b.cost != b.cost))) return mc::strf("cost %.17g, expected %.17g", a.cost, b.cost);
  F(xnext) F(r) F(Fx) F(Fu) F(Lx) F(Lu) F(Lxx) F(Lxu) F(Luu) F(g) F(Gx) F(Gu) F(h) F(Hx) F(Hu)
#undef F
  return "";
}
inline uint64_t hash_data(uint64_t h, const cr::ActionDataAbstractTpl<double>& a) {
  return mc::hash_mat(mc::hash_mat(mc::hash_mat(mc::hash_bytes(h, &a.cost, 8), a.xnext), a.Fx), a.Lx);
}
inline ActD clone_data(const ActP& m, const ActD&) { return m->createData(); }
#endif
