// C08: box solvers stay inside the control limits and reach the box-constrained optimum.
#include "solv.hpp"
using namespace solv;
static const double inf = std::numeric_limits<double>::infinity();

// limits of every flavour; returns a letter per node
static std::string limits(vf::Rng& r, const Problem& p, double width = 1) {
  std::string s;
  std::set<const cr::ActionModelAbstract*> seen;
  for (auto& m : p.models) {
    const int nu = int(m->get_nu());
    if (!nu || !seen.insert(m.get()).second) { s += '='; continue; }
    V lb = V::Constant(nu, -inf), ub = V::Constant(nu, inf);
    const int mode = r.irange(0, 4);  // none, both, lower only, upper only, mixed
    for (int i = 0; i < nu; ++i) {
      const double w = width * r.logu(0.02, 2.), c = width * r.uni(-0.3, 0.3);
      const int k = mode == 4 ? r.irange(0, 3) : mode;
      if (k == 1 || k == 2) lb[i] = c - w;
      if (k == 1 || k == 3) ub[i] = c + w;
      if (mode == 4 && r.coin(0.1)) lb[i] = ub[i] = c;
    }
    if (r.coin()) { m->set_u_lb(lb); m->set_u_ub(ub); } else { m->set_u_ub(ub); m->set_u_lb(lb); }
    s += "nblum"[mode];
  }
  return s;
}
static bool inside(const Problem& p, const VV& us, size_t* at = nullptr) {
  for (size_t t = 0; t < us.size(); ++t) {
    if (!us[t].size()) continue;
    if ((us[t].array() < p.models[t]->get_u_lb().array()).any() || (us[t].array() > p.models[t]->get_u_ub().array()).any()) { if (at) *at = t; return false; }
  }
  return true;
}
static bool any_finite(const ActP& m) {
  for (int i = 0; i < int(m->get_nu()); ++i) if (std::isfinite(m->get_u_lb()[i]) || std::isfinite(m->get_u_ub()[i])) return true;
  return false;
}

template <class S>
struct Watch : S {
  Watch(ProbP p, const Problem& pr, vf::Ctx& c, std::string w) : S(p), prob(pr), ctx(c), who(w) {}
  double tryStep(const double a) override {
    const double v = S::tryStep(a);
    size_t t = 0;
    ctx.check(inside(prob, this->us_try_, &t), "proposed:" + who, VF_STR("step " << a << " node " << t << " control " << this->us_try_[t].transpose() << " limits " << prob.models[t]->get_u_lb().transpose() << " | " << prob.models[t]->get_u_ub().transpose()));
    ctx.count("proposed sequences");
    for (size_t k = 0; k < this->us_try_.size(); ++k) for (int i = 0; i < this->us_try_[k].size(); ++i)
      if (this->us_try_[k][i] == prob.models[k]->get_u_lb()[i] || this->us_try_[k][i] == prob.models[k]->get_u_ub()[i]) { ctx.count("controls on a limit"); }
    return v;
  }
  Problem prob;
  vf::Ctx& ctx;
  std::string who;
};

template <class S>
static void run(vf::Ctx& c, vf::Rng& r, int kind) {
  const std::string who = name(kind);
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.nonlin = r.pick({0.2, 1.}); o.nonquad = r.pick({0., 1.}); o.pauto = r.pick({0., 0.15});
  Problem p = r.coin(0.3) ? lq_problem(r, 1, 7, 4, 4, true) : nl_problem(r, o);
  const std::string l = limits(r, p);
  for (auto& m : p.models) c.check(m->get_has_control_limits() == any_finite(m), "limits-flag", VF_STR(m->get_u_lb().transpose() << " | " << m->get_u_ub().transpose()));
  Watch<S> s(p.prob, p, c, who);
  auto cb = std::make_shared<Capture>();
  s.setCallbacks({cb});
  for (int k = r.irange(1, 2); k > 0; --k) {
    Warm w = warm(r, p, -1, r.pick({0.2, 1., 4.}));
    const Warm f = full(p, w);
    cb->snaps.clear();
    s.solve(w.xs, w.us, r.irange(1, 15), w.feas, r.coin(0.7) ? NAN : r.logu(1e-9, 1e2));
    bool moved = false;
    for (auto& n : cb->snaps) {
      if (!vf::same(n.us, f.us)) moved = true;
      if (moved) { size_t t = 0; c.check(inside(p, n.us, &t), "iterate:" + who, VF_STR("iteration " << n.iter << " node " << t)); c.count("iterates judged"); }
    }
    if (!vf::same(s.get_us(), f.us)) c.check(inside(p, s.get_us()), "returned:" + who);
    else c.count("first candidate kept");
    c.count("solves " + who);
    c.sig(who + l + w.kind + std::to_string(cb->snaps.size()));
    if (c.index < 3) c.sample(who + l + w.kind);
  }
}
VF_SCENARIO(stay_inside, 3000, 80000) {
  vf::Quiet q;
  if (r.coin()) run<cr::SolverBoxDDP>(c, r, BOXDDP); else run<cr::SolverBoxFDDP>(c, r, BOXFDDP);
}

// the feedforward term solves the stage's box QP, the feedback acts on its free subspace only
VF_SCENARIO(stages, 3000, 80000) {
  vf::Quiet q;
  const int kind = r.coin() ? BOXDDP : BOXFDDP;
  const std::string who = name(kind);
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.nonlin = r.pick({0.2, 0.7}); o.pauto = r.pick({0., 0.15});
  Problem p = r.coin(0.3) ? lq_problem(r, 1, 7, 4, 4, true) : nl_problem(r, o);
  const std::string l = limits(r, p);
  SolP s = make(kind, p.prob);
  auto d = std::dynamic_pointer_cast<cr::SolverDDP>(s);
  for (int k = r.irange(1, 3); k > 0; --k) {
    VV us = random_us(r, p);
    for (size_t t = 0; t < us.size(); ++t) if (us[t].size()) us[t] = us[t].cwiseMax(p.models[t]->get_u_lb()).cwiseMin(p.models[t]->get_u_ub());
    const VV xs = rollout(p, us);
    s->setCandidate(xs, us, true);
    const double preg = r.coin() ? 0. : r.logu(1e-9, 10);
    s->set_preg(preg); s->set_dreg(preg);
    try { s->computeDirection(true); } catch (std::exception& e) {
      c.count("backward pass failed");
      const Riccati R = riccati(p, xs, us, true, preg);
      c.check(!R.pd || R.rcond < 1e-10, "refused:" + who, VF_STR(e.what()));
      continue;
    }
    Given g;
    g.k = d->get_k(); g.Qu = d->get_Qu();
    for (auto& K : d->get_K()) g.K.push_back(K);
    const Riccati R = riccati(p, xs, us, true, preg, false, &g, true);
    if (!R.pd) continue;
    for (size_t t = 0; t < us.size(); ++t) {
      const Stage& q2 = R.st[t];
      if (!q2.limited) continue;
      const V lo = p.models[t]->get_u_lb() - us[t], hi = p.models[t]->get_u_ub() - us[t], du = -d->get_k()[t], gr = q2.Qu + q2.Quu * du;
      const M K = d->get_K()[t];
      const double sc = 1 + vf::amax(q2.Qu) + vf::amax(q2.Quu);
      if (sc > 1e6) continue;
      std::vector<int> fr;
      bool clear = true;
      for (int i = 0; i < du.size(); ++i) {
        const double eps = 1e-12 * (1 + std::abs(du[i]));
        c.check(du[i] >= lo[i] - eps && du[i] <= hi[i] + eps, "step-in-box:" + who, VF_STR("node " << t << " " << du.transpose()));
        const bool al = du[i] <= lo[i] + eps, ah = du[i] >= hi[i] - eps;
        const bool ok = al && ah ? true : al ? gr[i] > -3e-5 * sc : ah ? gr[i] < 3e-5 * sc : std::abs(gr[i]) < 3e-5 * sc;
        c.check(ok, "stage-optimality:" + who, VF_STR("node " << t << " coordinate " << i << " gradient " << gr[i] << " step " << du[i] << " in [" << lo[i] << "," << hi[i] << "]"));
        const bool clamped = (al && ah) || (al && gr[i] > 0) || (ah && gr[i] < 0);
        if ((al || ah) && std::abs(gr[i]) < 1e-4 * sc) clear = false;
        if (!clamped) fr.push_back(i); else c.count("clamped coordinates");
      }
      if (!clear) { c.count("weakly active stages"); continue; }
      for (int i = 0; i < du.size(); ++i) if (std::find(fr.begin(), fr.end(), i) == fr.end()) {
        c.check(K.row(i).cwiseAbs().maxCoeff() == 0, "feedback-on-clamped:" + who, VF_STR("node " << t));
        if (du[i] == 0) c.check(d->get_Qu()[t][i] == 0, "gradient-on-clamped:" + who);
        else { c.check(vf::relerr(d->get_Qu()[t][i], q2.Qu[i]) < 1e-7, "gradient-on-moving:" + who); c.count("coordinates moving onto a limit"); }
      } else c.check(vf::relerr(d->get_Qu()[t][i], q2.Qu[i]) < 1e-7, "gradient-on-free:" + who);
      if (!fr.empty()) {
        const int n = int(fr.size());
        M A(n, n), B(n, K.cols()), X(n, K.cols());
        for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) A(a, b) = q2.Quu(fr[a], fr[b]); B.row(a) = q2.Qxu.col(fr[a]).transpose(); X.row(a) = K.row(fr[a]); }
        const double e = (A * X - B).cwiseAbs().maxCoeff();
        c.check(e < 1e-7 * (1 + vf::amax(B) + vf::amax(A) * vf::amax(X)), "feedback-on-free:" + who, VF_STR("node " << t << " error " << e));
      }
      c.count("stages compared");
    }
    c.sig(who + l + std::to_string(p.state->get_ndx()));
  }
}

// LQ problems with limits: the returned sequence satisfies the optimality conditions of the condensed box QP
VF_SCENARIO(lq_optimum, 2500, 60000) {
  vf::Quiet q;
  const int kind = r.coin() ? BOXDDP : BOXFDDP;
  const std::string who = name(kind);
  Problem p = lq_problem(r, 1, 8, 5, 4, true);
  const std::string l = limits(r, p, r.pick({0.3, 1., 3.}));
  SolP s = make(kind, p.prob);
  s->set_th_stop(1e-9);
  Warm w = warm(r, p, -1, r.pick({0.3, 3.}));
  // a start outside the limits may be cheaper than every point inside; the solvers then rightly refuse to move
  for (size_t t = 0; t < w.us.size(); ++t) w.us[t] = w.us[t].cwiseMax(p.models[t]->get_u_lb()).cwiseMin(p.models[t]->get_u_ub());
  if (w.kind.find("rollout") == 0) w.xs = rollout(p, w.us);
  const bool ok = s->solve(w.xs, w.us, 300, w.feas);
  // without a feasibility claim BoxFDDP ignores the limits in its first (closing) step and may rightly report failure
  if (!ok && kind == BOXFDDP && w.kind == "rollout-unclaimed") { c.count("honest failures of the closing step"); return; }
  if (!c.check(ok, "not-converged:" + who, VF_STR(w.kind << l << " stop " << s->get_stop() << " iterations " << s->get_iter()))) return;
  c.check(inside(p, s->get_us()), "optimum-inside:" + who);
  const VV G = adjoint_gradient(p, s->get_xs(), s->get_us());
  std::vector<ActDP> d = derivs(p, s->get_xs(), s->get_us());
  double sc = 1;
  for (auto& v : d) sc = std::max({sc, vf::amax(v->Lx), vf::amax(v->Lxx), vf::amax(v->Lu)});
  for (size_t t = 0; t < G.size(); ++t) for (int i = 0; i < G[t].size(); ++i) {
    const double u = s->get_us()[t][i], lo = p.models[t]->get_u_lb()[i], hi = p.models[t]->get_u_ub()[i], g = G[t][i];
    const double eps = 1e-9 * (1 + std::abs(u));
    const bool al = u <= lo + eps, ah = u >= hi - eps;
    const double bad = al && ah ? 0 : al ? std::max(0., -g) : ah ? std::max(0., g) : std::abs(g);
    c.check(bad < 1e-4 * sc, "optimality:" + who, VF_STR(w.kind << " " << l << " node " << t << " gradient " << g << " u " << u << " in [" << lo << "," << hi << "]"));
    c.maxi("projected gradient", bad / sc);
    if (al || ah) c.count("active limits at the optimum"); else c.count("free controls at the optimum");
  }
  c.count("optima " + who);
  c.sig("lq" + who + l + w.kind);
}
VF_MAIN("C08")
