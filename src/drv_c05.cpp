// C05: reported convergence means a stationary point.
#include "solv.hpp"
using namespace solv;

// reduced Hessian of the model problem along a feasible trajectory, with the solver's
// regularisation (added to every state and control block), and sensitivities
struct Reduced { M H, S; V G; };
static Reduced reduced(const Problem& p, const VV& xs, const VV& us, double preg) {
  std::vector<ActDP> d = derivs(p, xs, us);
  const int T = int(p.models.size()), n = int(p.state->get_ndx());
  int N = 0;
  std::vector<int> iu;
  for (auto& m : p.models) { iu.push_back(N); N += int(m->get_nu()); }
  Reduced r;
  r.H = M::Zero(N, N);
  r.G = V::Zero(N);
  M X = M::Zero(n, N);
  double s2 = 0;
  for (int t = 0; t <= T; ++t) {
    s2 = std::max(s2, X.norm());
    r.H += X.transpose() * (d[t]->Lxx + preg * M::Identity(n, n)) * X;
    r.G += X.transpose() * d[t]->Lx;
    if (t == T) break;
    const int m = int(p.models[t]->get_nu());
    if (m) {
      M U = M::Zero(m, N);
      U.block(0, iu[t], m, m).setIdentity();
      r.H += U.transpose() * (d[t]->Luu + preg * M::Identity(m, m)) * U + X.transpose() * d[t]->Lxu * U + U.transpose() * d[t]->Lxu.transpose() * X;
      r.G += U.transpose() * d[t]->Lu;
      X = M(d[t]->Fx * X + d[t]->Fu * U);
    } else X = M(d[t]->Fx * X);
  }
  r.S = M::Constant(1, 1, s2);
  return r;
}
static V stack(const VV& a) {
  int n = 0;
  for (auto& v : a) n += int(v.size());
  V o(n);
  n = 0;
  for (auto& v : a) { o.segment(n, v.size()) = v; n += int(v.size()); }
  return o;
}
static Problem problem(vf::Rng& r, bool autonomous, bool* wild) {
  *wild = false;
  if (r.coin(0.15)) return lq_problem(r, 1, 6, 4, 3, true);
  if (r.coin(0.15)) { std::string k; return mixed_problem(r, 1, 5, true, &k); }
  ProbOpt o;
  o.varying_nu = true; *wild = r.coin(0.3); o.nonlin = *wild ? 1.5 : r.pick({0.1, 0.3}); o.nonquad = r.pick({0., 0.5, 2.});
  if (autonomous) o.pauto = r.pick({0., 0.2});
  return nl_problem(r, o);
}

// The gradient used by this oracle is the derivative of the rolled-out cost.
static void fd_check(vf::Ctx& c, vf::Rng& r, const Problem& p, const VV& us, const V& G, const std::string& who, double tol) {
  V dir = r.vec(int(G.size()), 1.);
  if (!dir.size()) return;
  dir.normalize();
  auto at = [&](double h) {
    VV u = us;
    int k = 0;
    for (auto& v : u) { v += h * dir.segment(k, v.size()); k += int(v.size()); }
    return cost_of(p, rollout(p, u), u);
  };
  const double h = 1e-4;
  const double fd = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  const double sc = std::max(1., std::abs(at(0)));
  const double f2 = (at(h / 4) - at(-h / 4)) / (h / 2);
  if (!(std::abs(fd - f2) < 1e-7 * sc)) { c.count("slope not measurable"); return; }
  c.check(std::abs(fd - G.dot(dir)) < 1e-6 * sc + 1e-5 * G.norm(), "gradient-oracle:" + who, VF_STR("finite difference " << fd << " adjoint " << G.dot(dir)));
  c.check(std::abs(fd) <= tol + 1e-6 * sc, "descent-left:" + who, VF_STR("the cost still changes at rate " << fd << " allowed " << tol));
  c.count("directional slopes measured");
}

VF_SCENARIO(converged, 4000, 120000) {
  vf::Quiet q;
  const int kind = r.irange(0, 5);
  bool wild;
  Problem p = problem(r, kind != BOXDDP && kind != BOXFDDP && kind != KKT, &wild);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  const double th = r.logu(1e-13, 1e-5);
  s->set_th_stop(th);
  if (r.coin(0.3)) s->set_th_acceptstep(r.uni(0.01, 0.9));
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  for (int k = r.irange(1, 2); k > 0; --k) {
    Warm w = warm(r, p, -1, r.pick({0.3, 2.}));
    cb->snaps.clear();
    const bool ok = s->solve(w.xs, w.us, 100, w.feas, r.coin(0.7) ? NAN : r.logu(1e-9, 1e2));
    c.count("solves " + who);
    if (!ok) { c.count("not converged " + who); continue; }
    c.count("convergences " + who);
    const VV xs = s->get_xs(), us = s->get_us();
    if (!c.check(sizes_ok(p, xs, us) && all_finite(xs) && all_finite(us), "shape:" + who)) return;
    const double gap = norm_of(gaps(p, xs, us), false);
    c.check(gap < (kind == KKT ? 30 * std::sqrt(th) : 1e-12), "dynamics:" + who, VF_STR("gap " << gap << " th " << th));
    c.maxi("gap at convergence " + who, gap);
    double preg = 0;
    if (kind != KKT && !cb->snaps.empty()) preg = cb->snaps.back().preg * 10;
    const VV ur = us, xr = kind == KKT ? rollout(p, us) : xs;
    const V G = stack(adjoint_gradient(p, xr, ur));
    if (!G.size()) { c.count("no control to optimise"); continue; }
    Reduced R = reduced(p, xr, ur, preg);
    c.check(vf::relerr(V(R.G), G) < 1e-9, "oracle-agreement");
    double tol;
    if (kind == KKT) {
      tol = 100 * (1 + R.S(0, 0)) * std::sqrt(th) * (1 + R.H.norm());
      c.check(G.norm() <= tol + 1e-9, "stationary:" + who, VF_STR(w.kind << " gradient " << G.norm() << " th " << th));
      c.maxi("gradient over threshold " + who, G.norm() / tol);
    } else {
      Eigen::SelfAdjointEigenSolver<M> es(M(0.5 * (R.H + R.H.transpose())));
      const V ev = es.eigenvalues();
      const double floor = 1e-13 * std::max(1., std::abs(s->get_cost()));
      const double top = std::max(1e-3, ev[ev.size() - 1]);
      // the stopping value belongs to the candidate the last direction was computed at: there it bounds the decrement
      const size_t ns = cb->snaps.size();
      const Warm f = full(p, w);
      const VV px = ns > 1 ? cb->snaps[ns - 2].xs : f.xs, pu = ns > 1 ? cb->snaps[ns - 2].us : f.us;
      if (norm_of(gaps(p, px, pu), false) < 1e-12) {
        Reduced B = reduced(p, px, pu, preg);
        Eigen::LDLT<M> ld(M(0.5 * (B.H + B.H.transpose())));
        const V st = ld.solve(B.G);
        if (ld.isPositive() && vf::relerr(V(B.H * st), B.G) < 1e-6) {
          const double dec = 0.5 * B.G.dot(st);
          c.check(dec <= th * 1.001 + floor, "stationary-at-search:" + who, VF_STR(w.kind << " half Newton decrement " << dec << " threshold " << th << " preg " << preg / 10 << " iter " << s->get_iter()));
          c.maxi("decrement over threshold at the search point " + who, (dec - floor) / th);
          c.count("search points judged");
        }
      } else c.count("search point with gaps " + who);
      // the returned one is at most one (tiny) step further
      tol = (wild ? 100 : 10) * std::sqrt(2 * (th + floor) * top);
      c.check(G.norm() <= tol, "stationary:" + who, VF_STR(w.kind << " gradient " << G.norm() << " allowed " << tol << " threshold " << th << " preg " << preg / 10 << " iter " << s->get_iter()));
      c.maxi(std::string(wild ? "wild" : "mild") + " gradient over bound " + who, G.norm() / tol);
    }
    if (r.coin(0.5)) fd_check(c, r, p, us, G, who, tol);
    std::ostringstream o;
    o << who << w.kind << p.models.size() << p.state->get_ndx() << cb->snaps.size();
    c.sig(o.str());
    if (c.index < 3) c.sample(o.str());
  }
}

// at a feasible trajectory the stopping value is exactly half the (regularised) Newton decrement
VF_SCENARIO(decrement, 3000, 60000) {
  vf::Quiet q;
  const int kind = r.irange(0, 4);
  bool wild;
  Problem p = problem(r, kind != BOXDDP && kind != BOXFDDP, &wild);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  const VV us = random_us(r, p), xs = rollout(p, us);
  const double preg = r.coin(0.3) ? 0. : r.logu(1e-9, 1e2);
  s->setCandidate(xs, us, true);
  s->set_preg(preg); s->set_dreg(preg);
  try { p.prob->calc(xs, us); s->computeDirection(true); } catch (std::exception&) { c.count("backward pass failed"); return; }
  if (auto f = std::dynamic_pointer_cast<cr::SolverFDDP>(s)) f->updateExpectedImprovement();
  s->expectedImprovement();
  const double stop = s->stoppingCriteria();
  Reduced R = reduced(p, xs, us, preg);
  if (!R.G.size()) return;
  Eigen::LDLT<M> f(M(0.5 * (R.H + R.H.transpose())));
  const V st = f.solve(R.G);
  if (!(vf::relerr(V(R.H * st), R.G) < 1e-9)) { c.count("ill-conditioned, skipped"); return; }
  const double dec = 0.5 * R.G.dot(st), hf = kind == INTRO ? s->get_hfeas() : 0.;
  c.check(std::abs(stop - std::max(hf, std::abs(dec))) <= 1e-7 * std::max(1., std::abs(dec)), "stopping-value:" + who, VF_STR("stop " << stop << " half Newton decrement " << dec << " preg " << preg));
  c.count("stopping values compared " + who);
  c.sig("dec" + who + std::to_string(p.models.size()) + std::to_string(R.H.rows()));
}

// A guess with gaps at which the linearised problem happens to be stationary already: closing the gaps moves the
// trajectory, and convergence may only be claimed after the solver has looked at where it went.
namespace {
struct Tilted : ActNL {  // plus a linear control cost
  Tilted(vf::Rng& r, StateP s, const ActOpt& o) : ActNL(r, s, o), tilt(V::Zero(o.nu)) {}
  void calc(const ActDP& d, const CRef& x, const CRef& u) override { ActNL::calc(d, x, u); d->cost += tilt.dot(u); }
  void calcDiff(const ActDP& d, const CRef& x, const CRef& u) override { ActNL::calcDiff(d, x, u); d->Lu += tilt; }
  using ActNL::calc; using ActNL::calcDiff;
  V tilt;
};
}  // namespace
VF_SCENARIO(stationary_guess, 3000, 60000) {
  vf::Quiet q;
  const int kind = int(c.index % 5);
  const std::string who = name(kind);
  Problem p;
  p.state = random_state(r, 3);
  const int T = r.irange(1, 4), n = int(p.state->get_ndx());
  ActOpt o;
  o.nonlin = r.pick({0.3, 1.}); o.nonquad = r.pick({0.5, 2.});
  std::vector<std::shared_ptr<Tilted>> ms;
  for (int t = 0; t < T; ++t) { o.nu = r.irange(1, 3); ms.push_back(std::make_shared<Tilted>(r, p.state, o)); p.models.push_back(ms.back()); }
  o.nu = 0;
  p.terminal = std::make_shared<ActNL>(r, p.state, o);
  p.x0 = random_x(r, p.state);
  p.prob = build(p);
  const VV us = random_us(r, p, 1.);
  VV xs = rollout(p, us);
  if (!all_finite(xs)) return;
  for (int t = r.irange(0, T); t <= T; ++t) xs[t] = plus(p.state, xs[t], r.vec(n, r.pick({0.3, 2.})));
  SolP s = make(kind, p.prob, r.irange(0, 2));
  auto d = std::dynamic_pointer_cast<cr::SolverDDP>(s);
  double rest = 0;
  for (int k = 0; k < T; ++k) {
    s->setCandidate(xs, us, false);
    s->set_preg(1e-9); s->set_dreg(1e-9);
    try { p.prob->calc(xs, us); s->computeDirection(true); } catch (std::exception&) { c.count("backward pass failed at a stationary guess"); return; }
    for (int t = 0; t < T; ++t) ms[size_t(t)]->tilt -= d->get_Qu()[size_t(t)];
  }
  s->setCandidate(xs, us, false);
  try { p.prob->calc(xs, us); s->computeDirection(true); } catch (std::exception&) { return; }
  for (auto& v : d->get_Qu()) rest = std::max(rest, vf::amax(v));
  if (!(rest < 1e-9)) { c.count("stationary guess not reached"); return; }
  c.count("stationary guesses " + who);
  const double th = r.pick({1e-9, 1e-6, 1e-12});
  s->set_th_stop(th);
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  bool ok;
  try { ok = s->solve(xs, us, 100, false); } catch (std::exception&) { return; }
  if (!ok) { c.count("not converged from a stationary guess " + who); return; }
  c.count("convergences from a stationary guess " + who);
  const VV rx = s->get_xs(), ru = s->get_us();
  const V G = stack(adjoint_gradient(p, rx, ru));
  Reduced R = reduced(p, rx, ru, cb->snaps.empty() ? 0. : cb->snaps.back().preg * 10);
  Eigen::SelfAdjointEigenSolver<M> es(M(0.5 * (R.H + R.H.transpose())));
  const double floor = 1e-13 * std::max(1., std::abs(s->get_cost())), top = std::max(1e-3, es.eigenvalues()[es.eigenvalues().size() - 1]);
  const double tol = 100 * std::sqrt(2 * (th + floor) * top);
  c.check(norm_of(gaps(p, rx, ru), false) < 1e-12, "dynamics:" + who, "from a stationary guess");
  c.check(G.norm() <= tol, "stationary:" + who, VF_STR("from a guess stationary to first order: gradient " << G.norm() << " allowed " << tol << " threshold " << th << " iter " << s->get_iter()));
  c.maxi("stationary guess: gradient over bound " + who, G.norm() / tol);
  c.sig("guess" + who + std::to_string(T) + std::to_string(n));
}

VF_SCENARIO(ipopt, 80, 3000) {
  vf::Quiet q;
  bool wild;
  Problem p = problem(r, false, &wild);
  SolP s = make(IPOPT, p.prob);
  Warm w = warm(r, p);
  const bool ok = s->solve(w.xs, w.us, 200, w.feas);
  c.count("solves Ipopt");
  if (!ok) { c.count("not converged Ipopt"); return; }
  c.count("convergences Ipopt");
  const double gap = norm_of(gaps(p, s->get_xs(), s->get_us()), false);
  c.check(gap < 1e-6, "dynamics:Ipopt", VF_STR(gap));
  const VV us = s->get_us();
  const V G = stack(adjoint_gradient(p, rollout(p, us), us));
  Reduced R = reduced(p, rollout(p, us), us, 0);
  const double tol = 1e-5 * (1 + R.S(0, 0)) * (1 + std::abs(s->get_cost()));
  c.check(G.lpNorm<Eigen::Infinity>() < tol, "stationary:Ipopt", VF_STR(w.kind << " gradient " << G.lpNorm<Eigen::Infinity>()));
  c.maxi("gradient Ipopt", G.lpNorm<Eigen::Infinity>());
  if (r.coin()) fd_check(c, r, p, us, G, "Ipopt", tol);
}
VF_MAIN("C05")
