// C10: SolverIntro solves stage-constrained problems, alike with every equality solver.
#include "solv.hpp"
using namespace solv;

// LQR nodes with well-conditioned full-row-rank control parts of the constraints
static Problem lq(vf::Rng& r, int* ncon) {
  Problem p;
  const int nx = r.irange(1, 5), T = r.irange(1, 7);
  *ncon = 0;
  const bool fixed_nu = r.coin();
  const int nu0 = r.irange(1, 4);
  for (int i = 0; i < T; ++i) {
    if (i && r.coin(0.3)) { p.models.push_back(p.models.back()); *ncon += int(p.models.back()->get_nh()); continue; }
    const int nu = fixed_nu ? nu0 : r.irange(1, 4), nh = r.coin(0.7) ? r.irange(0, nu) : 0;
    for (int k = 0;; ++k) {
      auto m = random_lqr(r, nx, nu, 0, nh);
      if (nh) {
        ActDP d = eval(m, V::Zero(nx), V::Zero(nu), true);
        Eigen::JacobiSVD<M> sv(M(d->Hu.topRows(nh)));
        if (sv.singularValues()[nh - 1] < 0.15 && k < 200) continue;
      }
      p.models.push_back(m);
      break;
    }
    *ncon += nh;
  }
  p.terminal = random_lqr(r, nx, nu0);
  p.state = p.models[0]->get_state();
  p.x0 = r.vec(nx);
  p.prob = build(p);
  return p;
}

// further rows that follow from the others change nothing for the null-space methods
VF_SCENARIO(redundant_constraints, 600, 20000) {
  vf::Quiet q;
  int nc;
  Problem p = lq(r, &nc);
  const Opt o = dense_lq(p, true);
  if (!nc || !(o.cond < 1e-9)) { c.count("no reference, skipped"); return; }
  double sc = 1;
  for (auto& x : o.xs) sc = std::max(sc, vf::amax(x));
  for (auto& u : o.us) sc = std::max(sc, vf::amax(u));
  if (sc > 1e3) { c.count("badly scaled, skipped"); return; }
  std::map<ActP, ActP> twin;
  int wide = 0;
  for (auto& m : p.models) {
    auto l = std::dynamic_pointer_cast<cr::ActionModelLQR>(m);
    const int nh = int(l->get_nh()), nu = int(l->get_nu());
    if (!nh) continue;
    if (!twin.count(m)) {
      const int more = r.irange(1, 3);
      M C(nh + more, nh);
      for (;;) {
        C << r.mat(nh, nh), r.mat(more, nh);
        if (r.coin(0.3)) C.bottomRows(more).setZero(), C.topRows(nh).setIdentity();
        else if (r.coin(0.3)) C.topRows(nh).setIdentity();
        Eigen::JacobiSVD<M> sv(C);
        if (sv.singularValues()[nh - 1] > 0.3) break;
      }
      twin[m] = std::make_shared<cr::ActionModelLQR>(l->get_A(), l->get_B(), l->get_Q(), l->get_R(), l->get_N(), l->get_G(), M(C * l->get_H()), l->get_f(), l->get_q(), l->get_r(), l->get_g(), V(C * l->get_h()));
      if (nh + more > nu) ++wide;
    }
    m = twin[m];
  }
  p.prob = build(p);
  Warm w = warm(r, p, -1, r.pick({0.3, 2.}));
  for (int eq = 0; eq < 2; ++eq) {
    const std::string who = eq == 0 ? "LU" : "QR";
    SolP s = make(INTRO, p.prob, eq);
    s->set_th_stop(1e-9);
    const bool ok = s->solve(w.xs, w.us, 200, w.feas);
    if (!c.check(ok, "redundant-not-converged:" + who, VF_STR(w.kind << " stop " << s->get_stop() << " hfeas " << s->get_hfeas()))) continue;
    const double ex = dist(s->get_xs(), o.xs), eu = dist(s->get_us(), o.us);
    c.check(ex < 2e-4 && eu < 2e-4, "redundant-optimum:" + who, VF_STR(w.kind << " xs " << ex << " us " << eu));
    double g, h;
    constraint_violation(p, s->get_xs(), s->get_us(), false, g, h);
    c.check(h < 1e-7 * sc, "redundant-residual:" + who, VF_STR(h));
    c.count("redundant solves " + who);
    if (wide) c.count("more constraints than controls");
  }
  c.sig(VF_STR("R" << w.kind << p.models.size() << "," << nc << "," << wide).operator std::string());
}

VF_SCENARIO(lq_optimum, 2500, 60000) {
  vf::Quiet q;
  int nc;
  Problem p = lq(r, &nc);
  const Opt o = dense_lq(p, true);
  if (!(o.cond < 1e-9)) { c.count("reference inaccurate, skipped"); return; }
  double sc = 1;
  for (auto& x : o.xs) sc = std::max(sc, vf::amax(x));
  for (auto& u : o.us) sc = std::max(sc, vf::amax(u));
  if (sc > 1e3) { c.count("badly scaled, skipped"); return; }
  Warm w = warm(r, p, -1, r.pick({0.3, 2.}));
  std::vector<VV> X, U;
  for (int eq = 0; eq < 3; ++eq) {
    const std::string who = eq == 0 ? "LU" : eq == 1 ? "QR" : "Schur";
    SolP s = make(INTRO, p.prob, eq);
    s->set_th_stop(1e-9);
    const bool l1 = r.coin();
    s->set_feasnorm(l1 ? cr::L1 : cr::LInf);
    const bool ok = s->solve(w.xs, w.us, 200, w.feas);
    if (!c.check(ok, "not-converged:" + who, VF_STR(w.kind << " T " << p.models.size() << " nh " << nc << " stop " << s->get_stop() << " hfeas " << s->get_hfeas() << " iterations " << s->get_iter()))) continue;
    const VV xs = s->get_xs(), us = s->get_us();
    double g, h;
    constraint_violation(p, xs, us, l1, g, h);
    c.check(h < 1e-8 * sc, "residual:" + who, VF_STR(w.kind << " equality residual " << h));
    c.check(std::abs(s->get_hfeas() - h) < 1e-10 * sc, "reported-residual:" + who, VF_STR(s->get_hfeas() << " vs " << h));
    const double ex = dist(xs, o.xs), eu = dist(us, o.us);
    c.check(ex < 2e-4 && eu < 2e-4, "optimum:" + who, VF_STR(w.kind << " xs " << ex << " us " << eu));
    c.check(std::abs(s->get_cost() - o.cost) < 1e-6 * std::max(1., std::abs(o.cost)), "cost:" + who, VF_STR(s->get_cost() << " vs " << o.cost));
    c.maxi("distance to the optimum " + who, std::max(ex, eu));
    X.push_back(xs); U.push_back(us);
    c.count("solves " + who);
    if (nc) c.count("constrained solves " + who);
  }
  for (size_t i = 1; i < X.size(); ++i) c.check(dist(X[i], X[0]) < 4e-4 && dist(U[i], U[0]) < 4e-4, "solvers-disagree", VF_STR(w.kind));
  std::ostringstream g;
  g << w.kind << p.state->get_ndx();
  for (auto& m : p.models) g << m->get_nu() << m->get_nh();
  c.sig(g.str());
  if (c.index < 3) c.sample(g.str());
}

// one search direction at arbitrary points of nonlinear problems: linearised constraints hold along the
// direction and the three methods give the same one
VF_SCENARIO(directions, 3000, 80000) {
  vf::Quiet q;
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.nonlin = r.pick({0.2, 1.}); o.nonquad = r.pick({0., 1.}); o.nh = r.irange(1, 3); o.pauto = r.pick({0., 0.2});
  Problem p = nl_problem(r, o);
  std::vector<SolP> s;
  for (int eq = 0; eq < 3; ++eq) s.push_back(make(INTRO, p.prob, eq));
  const VV us = random_us(r, p);
  const bool feas = r.coin();
  const VV xs = feas ? rollout(p, us) : random_xs(r, p);
  const double preg = r.coin(0.4) ? 0. : r.logu(1e-9, 1.);
  std::vector<ActDP> d = derivs(p, xs, us);
  double worst = 1;
  for (size_t t = 0; t < p.models.size(); ++t) if (const int nh = int(p.models[t]->get_nh())) { Eigen::JacobiSVD<M> sv(M(d[t]->Hu.topRows(nh))); worst = std::min(worst, sv.singularValues()[nh - 1]); }
  if (worst < 0.05) { c.count("nearly dependent constraints, skipped"); return; }
  std::vector<std::vector<V>> k;
  std::vector<std::vector<M>> K;
  for (int eq = 0; eq < 3; ++eq) {
    auto i = std::dynamic_pointer_cast<cr::SolverIntro>(s[eq]);
    i->setCandidate(xs, us, feas);
    i->set_preg(preg); i->set_dreg(preg);
    try { i->computeDirection(true); } catch (std::exception&) { c.count("backward pass failed"); return; }
    k.push_back(i->get_k());
    std::vector<M> kk;
    for (auto& m : i->get_K()) kk.push_back(m);
    K.push_back(kk);
    for (size_t t = 0; t < p.models.size(); ++t) if (const int nh = int(p.models[t]->get_nh())) {
      const double sc = 1 + vf::amax(V(d[t]->h.head(nh))) + vf::amax(k[eq][t]) * vf::amax(M(d[t]->Hu.topRows(nh))) + vf::amax(K[eq][t]);
      const double e0 = (d[t]->h.head(nh) - d[t]->Hu.topRows(nh) * k[eq][t]).cwiseAbs().maxCoeff(), e1 = (d[t]->Hx.topRows(nh) - d[t]->Hu.topRows(nh) * K[eq][t]).cwiseAbs().maxCoeff();
      c.check(e0 < 1e-8 * sc && e1 < 1e-8 * sc, "linearised-constraint:" + std::to_string(eq), VF_STR("node " << t << " errors " << e0 << " " << e1));
      if (eq < 2) c.check(i->get_Hu_rank()[t] == size_t(nh), "rank", VF_STR(i->get_Hu_rank()[t] << " vs " << nh));
      c.count("constrained stages");
    }
  }
  double big = 1;
  for (auto& v : k[0]) big = std::max(big, vf::amax(v));
  if (big > 1e4) return;
  for (int eq = 1; eq < 3; ++eq) for (size_t t = 0; t < p.models.size(); ++t) {
    if (!p.models[t]->get_nu()) continue;
    c.check(vf::relerr(k[eq][t], k[0][t]) < 1e-6 && vf::relerr(K[eq][t], K[0][t]) < 1e-6, "directions-disagree:" + std::to_string(eq), VF_STR("node " << t << " nh " << p.models[t]->get_nh() << " nu " << p.models[t]->get_nu() << " smallest singular value " << worst));
  }
  c.count("directions compared");
  std::ostringstream g;
  for (auto& m : p.models) g << m->get_nu() << m->get_nh();
  c.sig("dir" + g.str());
}

// convergence on nonlinear constrained problems: residuals zero and Lagrangian stationary
VF_SCENARIO(nonlinear, 1500, 40000) {
  vf::Quiet q;
  ProbOpt o;
  o.varying_nu = true; o.numin = 2; o.numax = 4; o.nonlin = r.pick({0.1, 0.3}); o.nonquad = 0.3; o.nh = 1; o.Tmax = 5;
  Problem p = nl_problem(r, o);
  const int eq = r.irange(0, 2);
  SolP s = make(INTRO, p.prob, eq);
  s->set_th_stop(1e-9);
  Warm w = warm(r, p, -1, 0.3);
  if (!s->solve(w.xs, w.us, 100, w.feas)) { c.count("not converged (nonlinear)"); return; }
  c.count("nonlinear convergences");
  const VV xs = s->get_xs(), us = s->get_us();
  double g, h;
  constraint_violation(p, xs, us, false, g, h);
  c.check(h < 2e-9, "residual-nonlinear", VF_STR(w.kind << " residual " << h));
  c.check(norm_of(gaps(p, xs, us), false) < 1e-12, "gaps-nonlinear");
  // stationarity: the reduced gradient lies in the range of the constraint Jacobian of the reduced problem
  std::vector<ActDP> d = derivs(p, xs, us);
  int N = 0, C = 0;
  std::vector<int> iu;
  for (auto& m : p.models) { iu.push_back(N); N += int(m->get_nu()); C += int(m->get_nh()); }
  M J = M::Zero(C, N), X = M::Zero(p.state->get_ndx(), N);
  int row = 0;
  for (size_t t = 0; t < p.models.size(); ++t) {
    const int nu = int(p.models[t]->get_nu()), nh = int(p.models[t]->get_nh());
    if (nh) { J.middleRows(row, nh) = d[t]->Hx.topRows(nh) * X; J.block(row, iu[t], nh, nu) += d[t]->Hu.topRows(nh); row += nh; }
    M Y = d[t]->Fx * X;
    Y.middleCols(iu[t], nu) += d[t]->Fu;
    X = Y;
  }
  V G(N);
  const VV ag = adjoint_gradient(p, xs, us);
  for (size_t t = 0; t < ag.size(); ++t) G.segment(iu[t], ag[t].size()) = ag[t];
  double res = G.norm(), cond = 1;
  if (C) {
    Eigen::JacobiSVD<M> sv(J.transpose(), Eigen::ComputeThinU | Eigen::ComputeThinV);
    cond = sv.singularValues()[C - 1];
    const V lam = sv.solve(G);
    res = (G - J.transpose() * lam).norm();
  }
  if (cond < 0.05) { c.count("nearly dependent constraints, skipped"); return; }
  if (s->get_preg() > 1e-2) { c.count("converged under heavy regularisation, stationarity not implied"); return; }
  c.check(res < 3e-2 * (1 + G.norm()), "stationary-nonlinear", VF_STR(w.kind << " eq " << eq << " stop " << s->get_stop() << " d " << s->get_d().transpose() << " preg " << s->get_preg() << " h " << h << " iter " << s->get_iter() << " cond " << cond << " N " << N << " C " << C << " Lagrangian gradient " << res << " cost gradient " << G.norm()));
  c.maxi("Lagrangian gradient at convergence", res);
  c.sig("nl" + w.kind + std::to_string(eq) + std::to_string(N) + std::to_string(C));
}
VF_MAIN("C10")
