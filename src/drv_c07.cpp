// C07: steps contract the gaps, follow the policy, and the improvement model is right.
#include "solv.hpp"
using namespace solv;

static Problem problem(vf::Rng& r, int kind, bool* lq) {
  *lq = r.coin(0.35);
  if (*lq) return lq_problem(r, 1, 7, 5, 4, true);
  if (r.coin(0.2)) { std::string k; return mixed_problem(r, 1, 6, true, &k); }
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.nonlin = r.pick({0.2, 1.}); o.nonquad = r.pick({0., 1.});
  o.pauto = r.pick({0., 0.2});
  if (kind == INTRO) { o.nh = r.irange(0, 2); o.nhT = r.irange(0, 1); }
  return nl_problem(r, o);
}

VF_SCENARIO(steps, 5000, 120000) {
  vf::Quiet q;
  const int kind = r.irange(0, 5);
  bool lq;
  Problem p = problem(r, kind, &lq);
  if (kind == KKT) for (auto& m : p.models) if (!m->get_nu()) return;
  const std::string who = name(kind);
  const bool box = kind == BOXDDP || kind == BOXFDDP, shooting = kind == FDDP || kind == BOXFDDP || kind == INTRO;
  const bool limits = box && r.coin();
  if (limits) for (auto& m : p.models) if (m->get_nu() && r.coin(0.7)) random_limits(r, m, 1);
  const Viewed view = make_viewed(kind, p.prob, r.irange(0, 2));
  SolP s = view.s;
  auto ddp = std::dynamic_pointer_cast<cr::SolverDDP>(s);
  auto fddp = std::dynamic_pointer_cast<cr::SolverFDDP>(s);
  std::string sg = who;
  for (int k = r.irange(1, 2); k > 0; --k) {
    const bool dyn = r.coin(0.4);
    const VV us = random_us(r, p, r.pick({0.2, 1.})), xs = dyn ? rollout(p, us) : random_xs(r, p, r.pick({0.1, 0.7}));
    const bool feas = dyn && r.coin(0.7);
    s->setCandidate(xs, us, feas);
    const double preg = r.coin(0.5) ? 0. : r.logu(1e-9, 10);
    s->set_preg(preg); s->set_dreg(preg);
    try { s->computeDirection(true); } catch (std::exception&) { c.count("backward pass failed"); continue; }
    if (fddp) fddp->updateExpectedImprovement();
    const VV fs = gaps(p, xs, us);
    const double cost0 = cost_of(p, xs, us), csc = std::max(1., std::abs(cost0));
    c.check(vf::relerr(s->get_cost(), cost0) < 1e-9, "cost:" + who);
    std::vector<double> as = {1.};
    for (int j = r.irange(1, 4); j > 0; --j) as.push_back(r.coin(0.2) ? 1. / (1 << r.irange(0, 9)) : r.uni(0., 1.));
    if (r.coin()) std::swap(as.front(), as.back());
    const bool have_limits = limits;
    for (double a : as) {
      double dV;
      try { dV = s->tryStep(a); } catch (std::exception&) { c.count("forward pass failed"); continue; }
      VV xt = *view.xt, ut = *view.ut;
      for (size_t t = 0; t < p.models.size(); ++t) if (!p.models[t]->get_nu()) ut[t].resize(0);
      if (!c.check(sizes_ok(p, xt, ut), "sizes:" + who)) return;
      if (!all_finite(xt) || !all_finite(ut)) { c.count("overflowing trial"); continue; }
      c.count("trials " + who);
      double big = 1;
      for (auto& x : xt) big = std::max(big, vf::amax(x));
      for (auto& u : ut) big = std::max(big, vf::amax(u));
      if (big > 1e6) { c.count("huge trial"); continue; }
      c.check(vf::same(s->get_xs(), xs) && vf::same(s->get_us(), us), "candidate-kept:" + who);
      const double ct = cost_of(p, xt, ut);
      c.check(std::abs(dV - (cost0 - ct)) < 1e-9 * std::max(csc, std::abs(ct)), "trial-cost:" + who, VF_STR("a " << a << " dV " << dV << " true " << cost0 - ct));
      if (kind == KKT) {
        auto kk = std::dynamic_pointer_cast<cr::SolverKKT>(s);
        double e = 0;
        for (size_t t = 0; t < xt.size(); ++t) e = std::max(e, vf::relerr(xt[t], plus(p.state, xs[t], V(a * kk->get_dxs()[t]))));
        for (size_t t = 0; t < ut.size(); ++t) e = std::max(e, vf::relerr(ut[t], V(us[t] + a * kk->get_dus()[t])));
        c.check(e < 1e-9, "policy:" + who, VF_STR("a " << a << " error " << e));
      } else {
        // gaps
        const VV ft = gaps(p, xt, ut);
        const bool open = shooting && !feas && a != 1.;
        double e = 0, sc = 1;
        for (size_t t = 0; t < ft.size(); ++t) {
          const V want = open ? V((1 - a) * fs[t]) : V::Zero(fs[t].size());
          e = std::max(e, (ft[t] - want).cwiseAbs().maxCoeff());
          sc = std::max(sc, vf::amax(fs[t]));
        }
        c.check(e < 1e-9 * sc * big, open ? "gap-contraction:" + who : "rollout:" + who, VF_STR("a " << a << " feasible " << feas << " error " << e));
        c.count(open ? "partial steps over gaps" : (feas ? "steps from feasible points" : "closing steps"));
        // policy
        e = 0;
        for (size_t t = 0; t < ut.size(); ++t) {
          if (!ut[t].size()) continue;
          V w = us[t] - a * ddp->get_k()[t] - ddp->get_K()[t] * minus(p.state, xt[t], xs[t]);
          if (box && p.models[t]->get_has_control_limits()) {
            w = w.cwiseMax(p.models[t]->get_u_lb()).cwiseMin(p.models[t]->get_u_ub());
            c.count("clamped controls");
          }
          e = std::max(e, vf::relerr(w, ut[t]));
        }
        c.check(e < 1e-9, "policy:" + who, VF_STR("a " << a << " error " << e));
        if (kind == INTRO) {
          double g, h;
          constraint_violation(p, xt, ut, false, g, h);
          c.check(std::abs(s->get_hfeas_try() - h) < 1e-9 * std::max(1., h), "hfeas-try:" + who, VF_STR(s->get_hfeas_try() << " vs " << h));
        }
      }
      // improvement model
      const Eigen::Vector2d d = s->expectedImprovement();
      if (ddp) {
        double dg = 0, dq = 0, dv = 0, mag = 1;
        for (size_t t = 0; t < ut.size(); ++t) if (ut[t].size()) { dg += ddp->get_Qu()[t].dot(ddp->get_k()[t]); dq -= ddp->get_k()[t].dot(ddp->get_Quu()[t] * ddp->get_k()[t]); }
        if (shooting && !feas) for (size_t t = 0; t < fs.size(); ++t) {
          const V Vf = ddp->get_Vxx()[t] * fs[t];
          dg -= ddp->get_Vx()[t].dot(fs[t]);
          dq += fs[t].dot(Vf);
          dv += Vf.dot(minus(p.state, xt[t], xs[t]));
          mag += std::abs(ddp->get_Vx()[t].dot(fs[t])) + Vf.norm() * (1 + fs[t].norm());
        }
        mag += std::abs(dg) + std::abs(dq) + std::abs(dv);
        c.check(std::abs(d[0] - dg - dv) < 1e-9 * mag && std::abs(d[1] - dq + 2 * dv) < 1e-9 * mag, "improvement-terms:" + who, VF_STR("d " << d.transpose() << " expected " << dg + dv << " " << dq - 2 * dv));
        c.count("improvement models");
      }
      const double pred = a * (d[0] + 0.5 * a * d[1]);
      bool exact = lq && preg == 0. && !have_limits;
      if (kind == KKT) exact = lq;
      else if (!feas && !(shooting && a == 1.)) exact = false;
      if (exact) {
        c.check(std::abs(pred - dV) < 1e-8 * std::max({csc, std::abs(ct), std::abs(d[0]), std::abs(d[1])}), "prediction:" + who, VF_STR("a " << a << " predicted " << pred << " realised " << dV << " feasible " << feas));
        c.count("exact predictions " + who);
      }
    }
    // slope: from a feasible trajectory the cost decreases at rate d[0] for small steps, whatever the nonlinearity
    bool constrained = false;
    for (auto& m : p.models) if (m->get_nh()) constrained = true;
    if (feas && !limits && !(kind == INTRO && constrained)) {  // Intro's model under constraints is not the slope of the cost alone
      try {
        const double h = 1e-4;
        const Eigen::Vector2d d = s->expectedImprovement();
        const double r1 = s->tryStep(h) / h, r2 = s->tryStep(2 * h) / (2 * h), r3 = s->tryStep(4 * h) / (4 * h), sl = 2 * r1 - r2, sl2 = 2 * r2 - r3;
        const double sc = std::max({1., std::abs(d[0]), csc});
        if (std::abs(sl - sl2) < 1e-4 * sc) {
          c.check(std::abs(sl - d[0]) < 1e-3 * sc, "slope:" + who, VF_STR("slope " << sl << " model " << d[0]));
          c.count("slopes");
        }
      } catch (std::exception&) {}
    }
    sg += feas ? 'f' : 'g';
  }
  c.sig(sg + (lq ? "lq" : "nl") + std::to_string(p.models.size()) + std::to_string(p.state->get_nx()) + std::to_string(p.models[0]->get_nu()) + (limits ? "L" : ""));
  if (c.index < 3) c.sample(sg);
}
VF_MAIN("C07")
