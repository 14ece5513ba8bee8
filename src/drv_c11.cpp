// C11: the NLP handed to Ipopt is the shooting problem, whatever callbacks ran before.
#include "solv.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
using namespace solv;
typedef cr::IpoptInterface Iface;

namespace {
// limits of every flavour (also one-sided) on some of the nodes
std::string limits(vf::Rng& r, const Problem& p) {
  std::string s;
  std::set<const cr::ActionModelAbstract*> seen;
  for (auto& m : p.models) {
    if (!m->get_nu() || !seen.insert(m.get()).second || r.coin(0.4)) { s += '-'; continue; }
    const int mode = r.irange(0, 1);
    random_limits(r, m, mode);
    s += "bm"[mode];
  }
  return s;
}

struct Layout {
  std::vector<int> ix, iu;
  int N = 0, C = 0, ndx = 0, T = 0;
  explicit Layout(const Problem& p) {
    ndx = int(p.state->get_ndx()); T = int(p.models.size());
    for (auto& m : p.models) { ix.push_back(N); iu.push_back(N + ndx); N += ndx + int(m->get_nu()); }
    ix.push_back(N);
    N += ndx;
    C = (T + 1) * ndx;
  }
};
struct Ref {
  const Problem& p;
  Layout L;
  VV bx;
  Ref(const Problem& p, const VV& xs) : p(p), L(p), bx(xs) {}
  void point(const V& z, VV& xs, VV& us) const {
    xs.clear(); us.clear();
    for (int t = 0; t <= L.T; ++t) {
      V x(p.state->get_nx());
      p.state->integrate(bx[t], V(z.segment(L.ix[t], L.ndx)), x);
      xs.push_back(x);
      if (t < L.T) us.push_back(z.segment(L.iu[t], p.models[t]->get_nu()));
    }
  }
  ActDP at(int t, const VV& xs, const VV& us, bool diff = false) const {
    if (t == L.T) return evalT(p.terminal, xs[t], diff);
    return eval(p.models[t], xs[t], us[t], diff);
  }
  double f(const V& z) const {
    VV xs, us;
    point(z, xs, us);
    double c = 0;
    for (int t = 0; t <= L.T; ++t) c += at(t, xs, us)->cost;
    return c;
  }
  V g(const V& z) const {
    VV xs, us;
    point(z, xs, us);
    V o(L.C), d(L.ndx);
    for (int t = 0; t < L.T; ++t) { p.state->diff(at(t, xs, us)->xnext, xs[t + 1], d); o.segment(t * L.ndx, L.ndx) = d; }
    p.state->diff(xs[0], p.x0, d);
    o.tail(L.ndx) = d;
    return o;
  }
  // Hessian of the objective as documented: the nodes' cost Hessians seen through the integration
  M h(const V& z) const {
    VV xs, us;
    point(z, xs, us);
    M H = M::Zero(L.N, L.N);
    for (int t = 0; t <= L.T; ++t) {
      ActDP d = at(t, xs, us, true);
      auto in = [&](const V& e) { V x(p.state->get_nx()), o(L.ndx); p.state->integrate(bx[t], e, x); p.state->diff(xs[t], x, o); return o; };
      const V e0 = z.segment(L.ix[t], L.ndx);
      const M J = fd([&](const V& e) { return in(e0 + e); }, L.ndx);
      H.block(L.ix[t], L.ix[t], L.ndx, L.ndx) = J.transpose() * d->Lxx * J;
      if (t < L.T && p.models[t]->get_nu()) {
        const int nu = int(p.models[t]->get_nu());
        H.block(L.ix[t], L.iu[t], L.ndx, nu) = J.transpose() * d->Lxu;
        H.block(L.iu[t], L.ix[t], nu, L.ndx) = H.block(L.ix[t], L.iu[t], L.ndx, nu).transpose();
        H.block(L.iu[t], L.iu[t], nu, nu) = d->Luu;
      }
    }
    return H;
  }
};
struct Guarded {  // an array of exactly n entries between sentinels
  std::vector<double> v;
  int n;
  explicit Guarded(int n) : v(n + 8, -7.25e77), n(n) {}
  double* p() { return v.data() + 4; }
  V vec() { return Eigen::Map<V>(p(), n); }
  bool intact() const { for (int i = 0; i < 4; ++i) if (v[i] != -7.25e77 || v[n + 4 + i] != -7.25e77) return false; return true; }
  bool filled() const { for (int i = 0; i < n; ++i) if (v[4 + i] == -7.25e77) return false; return true; }
};
}  // namespace

static Problem any_problem(vf::Rng& r, std::string& kind) {
  if (r.coin(0.3)) { kind = "lq"; return lq_problem(r, 1, 6, 4, 3, true); }
  ProbOpt o;
  o.varying_nu = true; o.numin = 1; o.numax = 3; o.Tmax = 6; o.nonlin = r.pick({0.3, 1.}); o.nonquad = r.pick({0., 1.}); o.pauto = r.pick({0., 0.2});
  kind = "nl";
  return nl_problem(r, o);
}

static void queries(vf::Ctx& c, vf::Rng& r, Problem& p, Iface& f, const std::string& when, const std::string& kind) {
  VV bx = random_xs(r, p), bu = random_us(r, p);
  f.set_xs(bx);
  f.set_us(bu);
  const Ref R(p, bx);
  const Layout& L = R.L;
  int n, m, nj, nh;
  Ipopt::TNLP::IndexStyleEnum st;
  c.check(f.get_nlp_info(n, m, nj, nh, st), "info");
  c.check(n == L.N && m == L.C && f.get_nvar() == size_t(L.N) && f.get_nconst() == size_t(L.C), "sizes:" + when, VF_STR(n << " variables, " << m << " constraints; expected " << L.N << ", " << L.C));
  if (n != L.N || m != L.C) return;
  c.check(st == Ipopt::TNLP::C_STYLE, "index-style");
  Guarded xl(n), xu(n), gl(m), gu(m), x0(n), z0(n), l0(m);
  c.check(f.get_bounds_info(n, xl.p(), xu.p(), m, gl.p(), gu.p()), "bounds");
  c.check(f.get_starting_point(n, true, x0.p(), false, z0.p(), z0.p(), m, false, l0.p()), "start");
  c.check(xl.intact() && xu.intact() && gl.intact() && gu.intact() && x0.intact() && z0.intact() && l0.intact(), "overrun-info");
  c.check(gl.vec().isZero(0) && gu.vec().isZero(0), "equality-bounds");
  for (int t = 0; t <= L.T; ++t) {
    for (int i = 0; i < L.ndx; ++i) {
      c.check(xl.p()[L.ix[t] + i] <= -1e19 && xu.p()[L.ix[t] + i] >= 1e19, "state-unbounded");
      c.check(x0.p()[L.ix[t] + i] == 0, "start-states");
    }
    if (t < L.T) for (int i = 0; i < int(p.models[t]->get_nu()); ++i) {
      const double lo = std::max(p.models[t]->get_u_lb()[i], -1e300), hi = std::min(p.models[t]->get_u_ub()[i], 1e300);
      const double a = xl.p()[L.iu[t] + i], b = xu.p()[L.iu[t] + i];
      c.check(a == lo || (a <= -1e19 && lo <= -1e19), "control-lower-bound", VF_STR(a << " vs " << lo));
      c.check(b == hi || (b >= 1e19 && hi >= 1e19), "control-upper-bound", VF_STR(b << " vs " << hi));
      c.check(x0.p()[L.iu[t] + i] == bu[t][i], "start-controls");
      if (lo > -1e19 || hi < 1e19) c.count("limited controls");
    }
  }
  // the structures
  std::vector<int> ir(nj + 2, -9), jc(nj + 2, -9), hr(nh + 2, -9), hc(nh + 2, -9);
  c.check(f.eval_jac_g(n, NULL, true, m, nj, ir.data(), jc.data(), NULL), "jac-structure");
  c.check(f.eval_h(n, NULL, true, 1., m, NULL, true, nh, hr.data(), hc.data(), NULL), "hess-structure");
  for (int k = 0; k < 2; ++k) c.check(ir[nj + k] == -9 && jc[nj + k] == -9 && hr[nh + k] == -9 && hc[nh + k] == -9, "overrun-structure");
  std::set<std::pair<int, int>> seen;
  bool okj = true, okh = true;
  for (int k = 0; k < nj; ++k) okj = okj && ir[k] >= 0 && ir[k] < m && jc[k] >= 0 && jc[k] < n && seen.insert({ir[k], jc[k]}).second;
  seen.clear();
  for (int k = 0; k < nh; ++k) okh = okh && hc[k] >= 0 && hc[k] <= hr[k] && hr[k] < n && seen.insert({hr[k], hc[k]}).second;
  if (!c.check(okj, "jacobian-structure:" + when) || !c.check(okh, "hessian-structure:" + when)) return;
  // random queries: every call on a point of its own or on a repeated one
  std::vector<V> pts;
  for (int k = 0; k < 3; ++k) pts.push_back(r.vec(n, r.pick({0.1, 0.5, 1.})));
  pts.push_back(x0.vec());
  std::string order;
  int last = -1;
  for (int k = r.irange(4, 9); k > 0; --k) {
    const int at = r.irange(0, int(pts.size()) - 1), what = r.irange(0, 4);
    const V z = pts[at];
    const std::vector<double> zi(z.data(), z.data() + n);
    const bool nx = at != last;  // as Ipopt would announce it
    last = at;
    order += "fgdjh"[what];
    const std::string after = order.size() > 1 ? std::string(1, order[order.size() - 2]) : "start";
    auto say = [&]() { std::ostringstream s; s << when << " after " << order << " T " << L.T << " ndx " << L.ndx; return s.str(); };
    if (what == 0) {
      double v = 1e300;
      c.check(f.eval_f(n, zi.data(), nx, v), "f");
      const double e = R.f(z);
      c.check(std::abs(v - e) <= 1e-10 * (1 + std::abs(e)), "objective", VF_STR(say() << " " << v << " vs " << e));
      c.count("objectives");
    } else if (what == 1) {
      Guarded g(m);
      c.check(f.eval_g(n, zi.data(), nx, m, g.p()), "g");
      c.check(g.intact() && g.filled(), "g-extent");
      const V e = R.g(z);
      c.check(vf::relerr(g.vec(), e) < 1e-10, "constraints", VF_STR(say() << " " << g.vec().transpose() << " vs " << e.transpose()));
      c.count("constraint vectors");
    } else if (what == 2) {
      Guarded g(n);
      c.check(f.eval_grad_f(n, zi.data(), nx, g.p()), "grad");
      c.check(g.intact() && g.filled(), "grad-extent");
      const V e = fd([&](const V& y) { return V(V::Constant(1, R.f(z + y))); }, n).transpose();
      const double err = vf::relerr(g.vec(), e);
      c.check(err < 1e-7, "gradient", VF_STR(say() << " error " << err << ": " << g.vec().transpose() << " vs " << e.transpose()));
      c.maxi("gradient error", err);
      c.count("gradients");
    } else if (what == 3) {
      Guarded v(nj);
      c.check(f.eval_jac_g(n, zi.data(), nx, m, nj, NULL, NULL, v.p()), "jac");
      c.check(v.intact() && v.filled(), "jac-extent");
      M J = M::Zero(m, n);
      for (int q = 0; q < nj; ++q) J(ir[q], jc[q]) += v.p()[q];
      const V g0 = R.g(z);
      bool far = false;  // differences of rotations are not smooth at half a turn
      for (int t = 0; t <= L.T; ++t) far = far || g0.segment(t * L.ndx, L.ndx).norm() > 2.5;
      if (far && p.state->get_nx() != p.state->get_ndx()) { c.count("Jacobians near half a turn, skipped"); continue; }
      const M e = fd([&](const V& y) { return R.g(z + y); }, n);
      const double err = vf::relerr(J, e);
      c.check(err < 1e-7, "jacobian", VF_STR(say() << " error " << err));
      c.maxi("Jacobian error", err);
      c.count("Jacobians");
    } else {
      Guarded v(nh);
      const double fac = r.pick({1., 0., -2.5, 0.3});
      std::vector<double> lam(m);
      for (auto& l : lam) l = kind == "lq" ? r.normal() : 0.;
      c.check(f.eval_h(n, zi.data(), nx, fac, m, lam.data(), r.coin(), nh, NULL, NULL, v.p()), "hess");
      c.check(v.intact() && v.filled(), "hess-extent");
      M H = M::Zero(n, n);
      for (int q = 0; q < nh; ++q) { H(hr[q], hc[q]) += v.p()[q]; if (hr[q] != hc[q]) H(hc[q], hr[q]) += v.p()[q]; }
      M e = fac * R.h(z);
      const double err = vf::relerr(H, e);
      c.check(err < 1e-7, "hessian", VF_STR(say() << " factor " << fac << " error " << err));
      c.maxi("Hessian error", err);
      c.count("Hessians");
    }
    bool same = true;
    for (int i = 0; i < n; ++i) same = same && zi[i] == z[i];
    c.check(same, "input-changed");
    c.count("pair " + after + ">" + order.back());
  }
  // the end of a solve
  const V z = pts[r.irange(0, 3)];
  VV ex, eu;
  R.point(z, ex, eu);
  f.finalize_solution(Ipopt::SUCCESS, n, z.data(), z0.p(), z0.p(), m, gl.p(), l0.p(), 3.25, NULL, NULL);
  bool ok = f.get_xs().size() == ex.size() && f.get_us().size() == eu.size();
  for (size_t t = 0; ok && t < ex.size(); ++t) ok = vf::relerr(f.get_xs()[t], ex[t]) < 1e-13;
  for (size_t t = 0; ok && t < eu.size(); ++t) ok = vf::same(f.get_us()[t], eu[t]);
  c.check(ok && f.get_cost() == 3.25, "finalize:" + when);
  c.count("finalisations");
  c.sig(when + kind + order + std::to_string(n));
}

VF_SCENARIO(nlp, 3000, 80000) {
  vf::Quiet q;
  std::string kind;
  Problem p = any_problem(r, kind);
  const std::string l = limits(r, p);
  Ipopt::SmartPtr<Iface> f = new Iface(p.prob);
  c.check(f->get_problem() == p.prob, "problem");
  queries(c, r, p, *f, "new", kind);
  if (r.coin(0.4)) queries(c, r, p, *f, "again", kind);
  if (r.coin(0.5)) {
    // nodes with another number of controls, another initial state
    std::string k2;
    for (int k = r.irange(1, 2); k > 0; --k) {
      const int i = r.irange(0, int(p.models.size()));
      ActP m;
      if (kind == "lq") m = random_lqr(r, int(p.state->get_nx()), r.irange(1, 4));
      else { ActOpt a; a.nu = r.irange(1, 4); a.nonlin = 0.5; m = std::make_shared<ActNL>(r, p.state, a); }
      if (i < int(p.models.size())) { p.prob->updateModel(i, m); p.models[i] = m; } else { p.prob->updateModel(i, m); p.terminal = m; }
    }
    p.x0 = random_x(r, p.state);
    p.prob->set_x0(p.x0);
    f->resizeData();
    queries(c, r, p, *f, "edited", kind);
    c.count("edited problems");
  }
  if (c.index < 3) c.sample(kind + l);
}

// what SolverIpopt returns when it claims success: feasible, inside the limits, first-order optimal
VF_SCENARIO(solution, 400, 10000) {
  vf::Quiet q;
  std::string kind;
  Problem p;
  if (r.coin(0.4)) { kind = "lq"; p = lq_problem(r, 1, 6, 4, 3, true); }
  else {
    ProbOpt o;
    o.varying_nu = true; o.numax = 3; o.Tmax = 6; o.nonlin = r.pick({0.2, 0.5}); o.nonquad = 0.3; o.pauto = r.pick({0., 0.15});
    kind = "nl"; p = nl_problem(r, o);
  }
  const bool lim = r.coin(0.6);
  const std::string l = lim ? limits(r, p) : "";
  SolP s = make(IPOPT, p.prob);
  s->set_th_stop(1e-8);
  for (int k = r.irange(1, 2); k > 0; --k) {
    Warm w = warm(r, p, -1, 0.5);
    const bool ok = s->solve(w.xs, w.us, 200, w.feas);
    c.check(s->get_is_feasible() == ok, "claim-matches-verdict");
    if (!ok) c.count("not converged");
    else {
      const VV xs = s->get_xs(), us = s->get_us();
      if (!c.check(sizes_ok(p, xs, us), "solution-sizes")) return;
      const double gap = norm_of(gaps(p, xs, us), false);
      c.check(gap < 1e-6, "solution-gaps", VF_STR(kind << l << w.kind << " " << gap));
      c.check(std::abs(s->get_cost() - cost_of(p, xs, us)) < 1e-7 * (1 + std::abs(s->get_cost())), "solution-cost");
      const VV G = adjoint_gradient(p, xs, us);
      double sc = 1;
      for (auto& d : derivs(p, xs, us)) sc = std::max({sc, vf::amax(d->Lx), vf::amax(d->Lxx), vf::amax(d->Lu)});
      for (size_t t = 0; t < us.size(); ++t) for (int i = 0; i < us[t].size(); ++i) {
        const double u = us[t][i], lo = p.models[t]->get_u_lb()[i], hi = p.models[t]->get_u_ub()[i];
        c.check(u >= lo - 1e-7 * (1 + std::abs(lo)) && u <= hi + 1e-7 * (1 + std::abs(hi)), "solution-limits", VF_STR(kind << l << w.kind << " node " << t << " control " << u << " in [" << lo << ", " << hi << "]"));
        const double eps = 1e-4;  // near a limit the interior-point multipliers are positive
        const bool al = u <= lo + eps, ah = u >= hi - eps;
        const double bad = al && ah ? 0 : al ? std::max(0., -G[t][i]) : ah ? std::max(0., G[t][i]) : std::abs(G[t][i]);
        c.check(bad < 2e-3 * sc, "solution-optimality", VF_STR(kind << l << w.kind << " node " << t << " gradient " << G[t][i] << " control " << u << " in [" << lo << ", " << hi << "]"));
        c.maxi("projected gradient", bad / sc);
        if (al || ah) c.count("active limits"); else c.count("free controls");
      }
      c.count("solutions " + kind + (lim ? " with limits" : ""));
    }
    c.sig("sol" + kind + l + w.kind + std::to_string(s->get_iter()));
    p.x0 = random_x(r, p.state);
    p.prob->set_x0(p.x0);
    if (r.coin(0.5)) {
      const int i = r.irange(0, int(p.models.size()) - 1);
      ActP m;
      if (kind == "lq") m = random_lqr(r, int(p.state->get_nx()), r.irange(1, 3));
      else { ActOpt a; a.nu = r.irange(1, 3); a.nonlin = 0.3; a.nonquad = 0.3; m = std::make_shared<ActNL>(r, p.state, a); }
      p.prob->updateModel(i, m);
      p.models[i] = m;
      c.count("edits between solves");
    }
  }
}
VF_MAIN("C11")
