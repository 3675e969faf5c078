// Control limits, and what is optimal under them.
#ifndef BOXOPT_HPP
#define BOXOPT_HPP
#include "solve.hpp"
// 0: none, 1: both finite, 2: only upper finite, 3: only lower finite, 4: equal, 5: mixed per component, 6: far
inline bool limits(mc::Ctx* C, Prob& P, int t, int k) {
  TAct& m = *P.m[t];
  const long nu = m.get_nu();
  Vec lb = Vec::Constant(nu, -INF), ub = Vec::Constant(nu, INF);
  for (long i = 0; i < nu; ++i) {
    int q = k == 5 ? (i % 2 ? 1 : (t % 2 ? 3 : 2)) : k;
    if (q == 1) lb[i] = -0.25 + 0.1 * i, ub[i] = 0.2 + 0.05 * t;
    if (q == 2) ub[i] = -0.1 - 0.1 * t;
    if (q == 3) lb[i] = 0.15 - 0.1 * i;
    if (q == 4) lb[i] = ub[i] = 0.3 - 0.2 * i;
    if (q == 6) lb[i] = -200, ub[i] = 300;
  }
  if (k == 0) return false;
  m.set_u_lb(lb);
  m.set_u_ub(ub);
  const bool any = nu > 0;
  CHECK(*C, m.get_has_control_limits() == any, "has-limits", "has_control_limits is %d after setting limits %s %s", m.get_has_control_limits(), show(lb).c_str(), show(ub).c_str());
  return any;
}
// exact constrained minimum of a linear-quadratic problem by enumerating active sets
struct Best {
  double cost = INF;
  Vs us;
};
inline Best constrained(const Prob& P) {
  std::vector<std::pair<int, long>> idx;
  for (int t = 0; t < P.T(); ++t)
    for (long i = 0; i < (long)P.m[t]->get_nu(); ++i) idx.push_back({t, i});
  const long N = idx.size();
  // the cost over controls is a quadratic: read it off by evaluating
  auto put = [&](const Vec& v) {
    Vs us = P.zeros_u();
    for (long k = 0; k < N; ++k) us[idx[k].first][idx[k].second] = v[k];
    return us;
  };
  auto J = [&](const Vec& v) {
    const Vs us = put(v);
    return P.eval(P.rollout(us), us).cost;
  };
  const double J0 = J(Vec::Zero(N));
  Vec g(N);
  Mat H(N, N);
  for (long i = 0; i < N; ++i) {
    const double a = J(Vec::Unit(N, i)), b = J(-Vec::Unit(N, i));
    g[i] = (a - b) / 2, H(i, i) = a + b - 2 * J0;
  }
  for (long i = 0; i < N; ++i)
    for (long j = 0; j < i; ++j) {
      const double a = J(Vec::Unit(N, i) + Vec::Unit(N, j));
      H(i, j) = H(j, i) = a - J0 - g[i] - g[j] - H(i, i) / 2 - H(j, j) / 2;
    }
  Vec lb(N), ub(N);
  for (long k = 0; k < N; ++k) {
    const TAct& m = *P.m[idx[k].first];
    lb[k] = m.get_has_control_limits() ? m.get_u_lb()[idx[k].second] : -INF;
    ub[k] = m.get_has_control_limits() ? m.get_u_ub()[idx[k].second] : INF;
  }
  Best best;
  long n3 = 1;
  for (long k = 0; k < N; ++k) n3 *= 3;
  for (long code = 0; code < n3; ++code) {
    std::vector<int> s(N);
    long q = code;
    bool ok = true;
    Vec v = Vec::Zero(N);
    std::vector<long> F;
    for (long k = 0; k < N; ++k) {
      s[k] = q % 3, q /= 3;
      if (s[k] == 0) F.push_back(k);
      if (s[k] == 1) v[k] = lb[k];
      if (s[k] == 2) v[k] = ub[k];
      if (!std::isfinite(v[k])) ok = false;
    }
    if (!ok) continue;
    const long n = F.size();
    if (n) {
      Mat A(n, n);
      Vec b(n);
      const Vec r = g + H * v;
      for (long i = 0; i < n; ++i) {
        b[i] = -r[F[i]];
        for (long j = 0; j < n; ++j) A(i, j) = H(F[i], F[j]);
      }
      const Vec sol = A.ldlt().solve(b);
      for (long i = 0; i < n; ++i) v[F[i]] = sol[i];
    }
    for (long k = 0; k < N; ++k)
      if (v[k] < lb[k] - 1e-12 || v[k] > ub[k] + 1e-12) ok = false;
    if (!ok) continue;
    const double c = J0 + g.dot(v) + 0.5 * v.dot(H * v);
    if (c < best.cost) best.cost = c, best.us = put(v);
  }
  return best;
}
// gradient of the total cost with respect to each control along the stored (feasible) trajectory, by the adjoint
inline Vs gradient(const Prob& P, const Vs& xs, const Vs& us) {
  const int T = P.T();
  Vs g(T);
  const long n = P.s->get_ndx();
  Vec p = P.mT->lT.gz(zof(P.s, xs[T]), Vec::Zero(P.mT->get_nu()));
  for (int t = T; t--;) {
    const Vec z = zof(P.s, xs[t]);
    g[t] = P.m[t]->l.gu(z, us[t]) + P.m[t]->f.Ju(z, us[t]).transpose() * p;
    p = P.m[t]->l.gz(z, us[t]) + (Mat::Identity(n, n) + P.m[t]->f.Jz(z, us[t])).transpose() * p;
  }
  return g;
}
#endif
