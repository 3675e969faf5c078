// A model evaluation that throws or yields non-finite results, wherever the explorer decides.
#ifndef FAULTS_HPP
#define FAULTS_HPP
#include "solve.hpp"
struct Fault : Hook {
  mc::Ctx* c;
  bool on = true;
  int pending = 0, count = 0, fired = 0;
  std::string what;
  void before(int id, Call k) override {
    pending = 0;
    ++count;
    if (!on) return;
    static const char* run[] = {"", "throws", "cost NaN", "cost inf", "xnext NaN", "xnext inf", "cost -inf", "last xnext NaN"};
    static const char* der[] = {"", "throws", "Lx NaN", "Fx inf"};
    const bool diff = k == DIFF || k == DIFF_T;
    const int n = diff ? (k == DIFF ? 4 : 3) : k == CALC ? 8 : 4;
    pending = (int)c->deviate(n, "fault");
    if (!pending) return;
    ++fired;
    what = mc::strf("%s of node %d, evaluation %d: %s", diff ? "calcDiff" : "calc", id, count, diff ? der[pending] : run[pending]);
    c->op("FAULT %s", what.c_str());
    if (pending == 1) {
      pending = 0;
      throw std::runtime_error("fault");
    }
  }
  void after(int, Call k, void* data) override {
    if (!pending) return;
    TAct::D& d = *static_cast<TAct::D*>(data);
    if (k == DIFF || k == DIFF_T) {
      if (pending == 2) d.Lx[0] = NAN;
      if (pending == 3) d.Fx(0, 0) = INF;
      return;
    }
    if (pending == 2) d.cost = NAN;
    if (pending == 3) d.cost = INF;
    if (pending == 4) d.xnext[0] = NAN;
    if (pending == 5) d.xnext[d.xnext.size() - 1] = INF;
    if (pending == 6) d.cost = -INF;
    if (pending == 7) d.xnext[d.xnext.size() - 1] = NAN;
  }
};
#endif
