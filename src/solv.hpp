// Solver harness: solvers by kind, warm starts, snapshots taken by a callback,
// and independent references (dense KKT, adjoint gradient, Riccati).
#ifndef VF_SOLV_HPP_
#define VF_SOLV_HPP_
#include "gen2.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"

namespace solv {
using namespace gen;
typedef std::vector<V> VV;
enum Kind { DDP = 0, FDDP, BOXDDP, BOXFDDP, INTRO, KKT, IPOPT, NKIND };
inline const char* name(int k) {
  static const char* n[] = {"DDP", "FDDP", "BoxDDP", "BoxFDDP", "Intro", "KKT", "Ipopt"};
  return n[k];
}
typedef std::shared_ptr<cr::SolverAbstract> SolP;
inline SolP make(int k, const ProbP& p, int eq = -1) {
  switch (k) {
    case DDP: return std::make_shared<cr::SolverDDP>(p);
    case FDDP: return std::make_shared<cr::SolverFDDP>(p);
    case BOXDDP: return std::make_shared<cr::SolverBoxDDP>(p);
    case BOXFDDP: return std::make_shared<cr::SolverBoxFDDP>(p);
    case INTRO: {
      auto s = std::make_shared<cr::SolverIntro>(p);
      if (eq >= 0) s->set_equality_solver(static_cast<cr::EqualitySolverType>(eq));
      return s;
    }
    case KKT: return std::make_shared<cr::SolverKKT>(p);
    default: {
      auto s = std::make_shared<cr::SolverIpopt>(p);
      s->setStringIpoptOption("sb", "yes");
      s->setNumericIpoptOption("max_cpu_time", 5.);
      s->setStringIpoptOption("print_user_options", "no");
      s->setStringIpoptOption("print_timing_statistics", "no");
      s->setStringIpoptOption("suppress_all_output", "yes");
      return s;
    }
  }
}
struct Snap {
  VV xs, us, fs;
  bool feas = false, was = false;
  double cost, stop, dV, dVexp, step, preg, dreg, ffeas, gfeas, hfeas, merit, dPhi, dPhiexp, dfeas;
  Eigen::Vector2d d;
  std::size_t iter;
};
inline Snap snap(const cr::SolverAbstract& s) {
  Snap r;
  r.xs = s.get_xs(); r.us = s.get_us(); r.fs = s.get_fs();
  r.feas = s.get_is_feasible();
  r.cost = s.get_cost(); r.stop = s.get_stop(); r.dV = s.get_dV(); r.dVexp = s.get_dVexp(); r.step = s.get_steplength();
  r.preg = s.get_preg(); r.dreg = s.get_dreg(); r.ffeas = s.get_ffeas(); r.gfeas = s.get_gfeas(); r.hfeas = s.get_hfeas();
  r.merit = s.get_merit(); r.dPhi = s.get_dPhi(); r.dPhiexp = s.get_dPhiexp(); r.dfeas = s.get_dfeas(); r.d = s.get_d(); r.iter = s.get_iter();
  return r;
}
struct Capture : cr::CallbackAbstract {
  std::vector<Snap> snaps;
  std::function<void(cr::SolverAbstract&)> hook;
  void operator()(cr::SolverAbstract& s) override { if (hook) hook(s); snaps.push_back(snap(s)); }
};
// ---- warm starts ---------------------------------------------------------------
struct Warm { VV xs, us; bool feas = false; std::string kind; };
inline VV rollout(const Problem& p, const VV& us) {
  VV xs;
  xs.push_back(p.x0);
  for (size_t i = 0; i < p.models.size(); ++i) {
    if (p.models[i]->get_nu()) xs.push_back(eval(p.models[i], xs[i], us[i])->xnext);
    else xs.push_back(evalT(p.models[i], xs[i])->xnext);
  }
  return xs;
}
inline Warm warm(Rng& r, const Problem& p, int k = -1, double sc = 0.5) {
  Warm w;
  if (k < 0) k = r.irange(0, 6);
  switch (k) {
    case 0: w.kind = "empty"; break;
    case 1: w.kind = "random"; w.xs = random_xs(r, p, sc); w.us = random_us(r, p, sc); break;
    case 2: w.kind = "x0-random"; w.xs = random_xs(r, p, sc); w.xs[0] = p.x0; w.us = random_us(r, p, sc); break;
    case 3: w.kind = "rollout-unclaimed"; w.us = random_us(r, p, sc); w.xs = rollout(p, w.us); break;
    case 4: w.kind = "us-only"; w.us = random_us(r, p, sc); break;
    case 5: w.kind = "xs-only"; w.xs = random_xs(r, p, sc); break;
    default: w.kind = "rollout-claimed"; w.us = random_us(r, p, sc); w.xs = rollout(p, w.us); w.feas = true; break;
  }
  return w;
}
inline Warm full(const Problem& p, Warm w) {  // what an empty list stands for
  if (w.xs.empty()) for (size_t i = 0; i <= p.models.size(); ++i) w.xs.push_back(p.state->zero());
  if (w.us.empty()) for (auto& m : p.models) w.us.push_back(V::Zero(m->get_nu()));
  return w;
}
// gaps with the solver's convention: prediction (-) state
inline VV gaps(const Problem& p, const VV& xs, const VV& us) {
  VV f;
  V d(p.state->get_ndx());
  p.state->diff(xs[0], p.x0, d);
  f.push_back(d);
  for (size_t i = 0; i < p.models.size(); ++i) {
    ActDP e = p.models[i]->get_nu() ? eval(p.models[i], xs[i], us[i]) : evalT(p.models[i], xs[i]);
    p.state->diff(xs[i + 1], e->xnext, d);
    f.push_back(d);
  }
  return f;
}
inline double norm_of(const VV& f, bool l1) {
  double m = 0;
  for (auto& v : f) { if (l1) m += v.lpNorm<1>(); else if (v.size()) m = std::max(m, v.lpNorm<Eigen::Infinity>()); }
  return m;
}
inline double cost_of(const Problem& p, const VV& xs, const VV& us) {
  double c = 0;
  for (size_t i = 0; i < p.models.size(); ++i)
    c += p.models[i]->get_nu() ? eval(p.models[i], xs[i], us[i])->cost : evalT(p.models[i], xs[i])->cost;
  return c + evalT(p.terminal, xs.back())->cost;
}
inline void constraint_violation(const Problem& p, const VV& xs, const VV& us, bool l1, double& g, double& h) {
  g = h = 0;
  auto add = [&](double& acc, const V& v) {
    if (!v.size()) return;
    if (l1) acc += v.lpNorm<1>(); else acc = std::max(acc, v.lpNorm<Eigen::Infinity>());
  };
  auto viol = [&](const V& v, const V& lb, const V& ub) {
    V o(v.size());
    for (int i = 0; i < v.size(); ++i) o[i] = v[i] < lb[i] ? v[i] - lb[i] : (v[i] > ub[i] ? v[i] - ub[i] : 0.);
    return o;
  };
  for (size_t i = 0; i <= p.models.size(); ++i) {
    const bool T = i == p.models.size();
    const ActP& m = T ? p.terminal : p.models[i];
    ActDP d = T || !m->get_nu() ? evalT(m, xs[i]) : eval(m, xs[i], us[i]);
    const int ng = int(T ? m->get_ng_T() : m->get_ng()), nh = int(T ? m->get_nh_T() : m->get_nh());
    if (ng) add(g, viol(d->g.head(ng), m->get_g_lb().head(ng), m->get_g_ub().head(ng)));
    if (nh) add(h, d->h.head(nh));
  }
}
inline bool sizes_ok(const Problem& p, const VV& xs, const VV& us) {
  if (xs.size() != p.models.size() + 1 || us.size() != p.models.size()) return false;
  for (auto& x : xs) if (size_t(x.size()) != p.state->get_nx()) return false;
  for (size_t i = 0; i < us.size(); ++i) if (size_t(us[i].size()) != p.models[i]->get_nu()) return false;
  return true;
}
inline bool all_finite(const VV& a) { for (auto& v : a) if (!vf::finite(v)) return false; return true; }

// ---- fresh derivatives of a trajectory -------------------------------------------
inline std::vector<ActDP> derivs(const Problem& p, const VV& xs, const VV& us) {
  std::vector<ActDP> d;
  for (size_t i = 0; i < p.models.size(); ++i) {
    if (p.models[i]->get_nu()) d.push_back(eval(p.models[i], xs[i], us[i], true));
    else d.push_back(evalT(p.models[i], xs[i], true));
  }
  d.push_back(evalT(p.terminal, xs.back(), true));
  return d;
}
// total derivative of the cost with respect to every control along a feasible trajectory
inline VV adjoint_gradient(const Problem& p, const VV& xs, const VV& us) {
  std::vector<ActDP> d = derivs(p, xs, us);
  const int T = int(p.models.size());
  VV g(T);
  V lam = d[T]->Lx;
  for (int t = T - 1; t >= 0; --t) {
    g[t] = d[t]->Lu + d[t]->Fu.transpose() * lam;
    lam = V(d[t]->Lx + d[t]->Fx.transpose() * lam);
  }
  return g;
}
// optimum of a linear-quadratic problem (Euclidean state), optionally with stage
// equality constraints h = Hx x + Hu u + h0, by one dense KKT solve about a base point
struct Opt { VV xs, us; double cost; double cond; };
inline Opt dense_lq(const Problem& p, bool constraints = false) {
  const int n = int(p.state->get_nx()), T = int(p.models.size());
  VV bx, bu;
  for (int t = 0; t <= T; ++t) bx.push_back(V::Zero(n));
  for (auto& m : p.models) bu.push_back(V::Zero(m->get_nu()));
  std::vector<ActDP> d = derivs(p, bx, bu);
  std::vector<int> iu;
  int N = n * (T + 1), nh = 0;
  for (auto& m : p.models) { iu.push_back(N); N += int(m->get_nu()); if (constraints) nh += int(m->get_nh()); }
  const int C = n * (T + 1) + nh;
  M K = M::Zero(N + C, N + C);
  V k = V::Zero(N + C);
  for (int t = 0; t < T; ++t) {
    const int m = int(p.models[t]->get_nu());
    K.block(n * t, n * t, n, n) = d[t]->Lxx;
    K.block(n * t, iu[t], n, m) = d[t]->Lxu;
    K.block(iu[t], n * t, m, n) = d[t]->Lxu.transpose();
    K.block(iu[t], iu[t], m, m) = d[t]->Luu;
    k.segment(n * t, n) = -d[t]->Lx;
    k.segment(iu[t], m) = -d[t]->Lu;
  }
  K.block(n * T, n * T, n, n) = d[T]->Lxx;
  k.segment(n * T, n) = -d[T]->Lx;
  M A = M::Zero(C, N);
  V b = V::Zero(C);
  A.block(0, 0, n, n).setIdentity();
  b.head(n) = p.x0;
  int row = n;
  for (int t = 0; t < T; ++t) {
    A.block(row, n * (t + 1), n, n).setIdentity();
    A.block(row, n * t, n, n) = -d[t]->Fx;
    A.block(row, iu[t], n, p.models[t]->get_nu()) = -d[t]->Fu;
    b.segment(row, n) = d[t]->xnext;
    row += n;
  }
  if (constraints)
    for (int t = 0; t < T; ++t) {
      const int q = int(p.models[t]->get_nh());
      A.block(row, n * t, q, n) = d[t]->Hx;
      A.block(row, iu[t], q, p.models[t]->get_nu()) = d[t]->Hu;
      b.segment(row, q) = -d[t]->h.head(q);
      row += q;
    }
  K.block(N, 0, C, N) = A;
  K.block(0, N, N, C) = A.transpose();
  k.tail(C) = b;
  const V z = K.fullPivLu().solve(k);
  Opt o;
  o.cond = (K * z - k).norm() / std::max(1., k.norm());
  for (int t = 0; t <= T; ++t) o.xs.push_back(z.segment(n * t, n));
  for (int t = 0; t < T; ++t) o.us.push_back(z.segment(iu[t], p.models[t]->get_nu()));
  o.cost = cost_of(p, o.xs, o.us);
  return o;
}
inline double dist(const VV& a, const VV& b) { return vf::relerr(a, b); }

// ---- a solver whose protected state can be read -------------------------------------
template <class S>
struct Open : S {
  explicit Open(ProbP p) : S(p) {}
  using S::cost_; using S::cost_try_; using S::d_; using S::dV_; using S::dVexp_; using S::fs_; using S::is_feasible_; using S::was_feasible_;
  using S::us_; using S::us_try_; using S::xs_; using S::xs_try_; using S::preg_; using S::dreg_; using S::stop_; using S::steplength_; using S::iter_;
};
// ---- reference backward recursion (dense, one stage at a time) ---------------------
struct Stage { V Vx, Qx, Qu, k; M Vxx, Qxx, Qxu, Quu, K; bool limited = false; };
struct Riccati { std::vector<Stage> st; bool pd = true; double rcond = 1; };
// 'limited(t)' nodes take their policy from given (k, K) and drop the clamped gradients
struct Given { std::vector<V> k, Qu; std::vector<M> K; };
inline Riccati riccati(const Problem& p, const VV& xs, const VV& us, bool feasible, double preg, bool constraints = false, const Given* g = nullptr, bool limits = false) {
  std::vector<ActDP> d = derivs(p, xs, us);
  const VV f = gaps(p, xs, us);
  const int T = int(p.models.size()), n = int(p.state->get_ndx());
  const double reg = std::isnan(preg) ? 0. : preg;
  Riccati r;
  r.st.resize(T + 1);
  r.st[T].Vxx = d[T]->Lxx + reg * M::Identity(n, n);
  r.st[T].Vx = d[T]->Lx;
  if (!feasible) r.st[T].Vx += r.st[T].Vxx * f[T];
  for (int t = T - 1; t >= 0; --t) {
    Stage& s = r.st[t];
    const Stage& q = r.st[t + 1];
    const int m = int(p.models[t]->get_nu());
    s.Qx = d[t]->Lx + d[t]->Fx.transpose() * q.Vx;
    s.Qxx = d[t]->Lxx + d[t]->Fx.transpose() * q.Vxx * d[t]->Fx;
    M W = s.Qxx;
    s.Vx = s.Qx;
    if (m) {
      s.Qu = d[t]->Lu + d[t]->Fu.transpose() * q.Vx;
      s.Quu = d[t]->Luu + d[t]->Fu.transpose() * q.Vxx * d[t]->Fu + reg * M::Identity(m, m);
      s.Qxu = d[t]->Lxu + d[t]->Fx.transpose() * q.Vxx * d[t]->Fu;
      const int h = constraints ? int(p.models[t]->get_nh()) : 0;
      s.limited = limits && feasible && p.models[t]->get_has_control_limits();
      if (s.limited) {
        s.k = g->k[t]; s.K = g->K[t];
        s.Vx = s.Qx - s.K.transpose() * g->Qu[t];
        W = s.Qxx - s.Qxu * s.K;
      } else if (h) {
        M A = M::Zero(m + h, m + h);
        A << s.Quu, d[t]->Hu.topRows(h).transpose(), d[t]->Hu.topRows(h), M::Zero(h, h);
        M b(m + h, n + 1);
        b << s.Qu, s.Qxu.transpose(), d[t]->h.head(h), d[t]->Hx.topRows(h);
        Eigen::FullPivLU<M> lu(A);
        lu.setThreshold(0.);
        const M y = lu.solve(b);
        r.rcond = std::min(r.rcond, lu.rcond() > 1e-7 ? lu.rcond() : 0.);
        s.k = y.col(0).head(m); s.K = y.block(0, 1, m, n);
        s.Vx = s.Qx - s.Qxu * s.k - s.K.transpose() * (s.Qu - s.Quu * s.k);
        W = s.Qxx + s.K.transpose() * s.Quu * s.K - s.Qxu * s.K - s.K.transpose() * s.Qxu.transpose();
      } else {
        Eigen::LLT<M> l(s.Quu);
        if (l.info() != Eigen::Success) { r.pd = false; return r; }
        r.rcond = std::min(r.rcond, l.rcond());
        s.k = l.solve(s.Qu); s.K = l.solve(M(s.Qxu.transpose()));
        s.Vx = s.Qx - s.K.transpose() * s.Qu;
        W = s.Qxx - s.Qxu * s.K;
      }
    }
    s.Vxx = 0.5 * (W + W.transpose()) + reg * M::Identity(n, n);
    if (!feasible) s.Vx += s.Vxx * f[t];
  }
  return r;
}
// a solver together with a view of its trial trajectory
struct Viewed { SolP s; const VV* xt; const VV* ut; };
template <class S>
Viewed viewed(const ProbP& p) { auto o = std::make_shared<Open<S>>(p); return Viewed{o, &o->xs_try_, &o->us_try_}; }
template <class S>
struct OpenK : S {
  explicit OpenK(ProbP p) : S(p) {}
  using S::xs_try_; using S::us_try_;
};
inline Viewed make_viewed(int k, const ProbP& p, int eq) {
  Viewed v;
  switch (k) {
    case DDP: v = viewed<cr::SolverDDP>(p); break;
    case FDDP: v = viewed<cr::SolverFDDP>(p); break;
    case BOXDDP: v = viewed<cr::SolverBoxDDP>(p); break;
    case BOXFDDP: v = viewed<cr::SolverBoxFDDP>(p); break;
    case INTRO: v = viewed<cr::SolverIntro>(p); std::dynamic_pointer_cast<cr::SolverIntro>(v.s)->set_equality_solver(static_cast<cr::EqualitySolverType>(eq)); break;
    default: { auto o = std::make_shared<OpenK<cr::SolverKKT>>(p); v = Viewed{o, &o->xs_try_, &o->us_try_}; }
  }
  return v;
}
inline V random_limits(Rng& r, const ActP& m, int mode) {
  const int nu = int(m->get_nu());
  V lb = V::Constant(nu, -std::numeric_limits<double>::infinity()), ub = -lb;
  for (int i = 0; i < nu; ++i) {
    const double w = r.logu(0.02, 2.), c = r.uni(-0.3, 0.3);
    const int k = mode == 0 ? 0 : r.irange(0, 3);
    if (k == 0 || k == 1) lb[i] = c - w;
    if (k == 0 || k == 2) ub[i] = c + w;
  }
  m->set_u_lb(lb);
  m->set_u_ub(ub);
  return lb;
}
}  // namespace solv
#endif
