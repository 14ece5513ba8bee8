// C02: reported cost, gaps and feasibility figures are those of the trajectory.
#include "solv.hpp"
using namespace solv;

static Problem problem(vf::Rng& r, int kind) {
  Problem p;
  if (r.coin(0.25)) p = mixed_problem(r, 1, 6, true);
  else {
    ProbOpt o;
    o.varying_nu = true; o.nonlin = r.pick({0.1, 0.5, 1.}); o.nonquad = r.pick({0., 1.});
    if (kind != BOXDDP && kind != BOXFDDP) o.pauto = r.pick({0., 0.2});
    o.ng = r.irange(0, 3); o.nh = r.irange(0, 2); o.ngT = r.irange(0, 3); o.nhT = r.irange(0, 2);
    p = nl_problem(r, o);
  }
  for (size_t i = 0; i <= p.models.size(); ++i) {
    const ActP& m = i < p.models.size() ? p.models[i] : p.terminal;
    const int n = int(std::max(m->get_ng(), m->get_ng_T()));
    if (!n || !std::dynamic_pointer_cast<ActNL>(m)) continue;
    V c = r.vec(n, 0.3), lb(n), ub(n);
    for (int k = 0; k < n; ++k) {
      lb[k] = r.coin(0.8) ? c[k] - r.uni(0, 0.2) : -std::numeric_limits<double>::infinity();
      ub[k] = r.coin(0.8) ? c[k] + r.uni(0, 0.2) : std::numeric_limits<double>::infinity();
    }
    m->set_g_lb(lb); m->set_g_ub(ub);
  }
  if (kind == BOXDDP || kind == BOXFDDP) for (auto& m : p.models) if (r.coin(0.8)) random_limits(r, m, 1);
  return p;
}

// every iteration of a solve
VF_SCENARIO(iterations, 1400, 40000) {
  vf::Quiet q;
  const int kind = r.irange(0, 5);
  Problem p = problem(r, kind);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  const bool l1 = r.coin();
  s->set_feasnorm(l1 ? cr::L1 : cr::LInf);
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  for (int k = r.irange(1, 2); k > 0; --k) {
    Warm w = warm(r, p);
    const Warm f = full(p, w);
    cb->snaps.clear();
    s->solve(w.xs, w.us, r.irange(1, 12), w.feas, r.coin(0.7) ? NAN : r.logu(1e-9, 1e2));
    VV px = f.xs, pu = f.us;
    double pcost = cost_of(p, px, pu);
    for (auto& n : cb->snaps) {
      const double cost = cost_of(p, n.xs, n.us);
      c.check(vf::relerr(n.cost, cost) < 1e-9, "cost:" + who, VF_STR("iter " << n.iter << " reported " << n.cost << " true " << cost));
      c.count("costs compared");
      const bool moved = !vf::same(n.xs, px) || !vf::same(n.us, pu);
      if (kind != KKT) {
        const VV fs = gaps(p, px, pu);
        c.check(vf::relerr(n.fs, fs) < 1e-9, "gaps:" + who, VF_STR("iter " << n.iter));
        c.check(vf::relerr(n.ffeas, norm_of(fs, l1)) < 1e-9, "ffeas:" + who, VF_STR("iter " << n.iter << " l1=" << l1 << " " << n.ffeas << " vs " << norm_of(fs, l1)));
        double g, h, gn, hn;
        constraint_violation(p, px, pu, l1, g, h);
        constraint_violation(p, n.xs, n.us, l1, gn, hn);
        c.check(vf::relerr(n.gfeas, g) < 1e-9, "gfeas:" + who, VF_STR("iter " << n.iter << " l1=" << l1 << " " << n.gfeas << " vs " << g));
        c.check(vf::relerr(n.hfeas, kind == INTRO ? hn : h) < 1e-9, "hfeas:" + who, VF_STR("iter " << n.iter << " l1=" << l1 << " " << n.hfeas << " vs " << (kind == INTRO ? hn : h)));
        c.count("gap lists compared");
        if (g > 0) c.count("inequality violations seen");
        if (h > 0) c.count("equality violations seen");
      }
      if (moved) {
        c.check(vf::relerr(n.dV, pcost - cost) < 1e-8, "reduction:" + who, VF_STR("iter " << n.iter << " dV " << n.dV << " true " << pcost - cost));
        c.count("accepted steps");
      }
      px = n.xs; pu = n.us; pcost = cost;
    }
    const double cost = cost_of(p, s->get_xs(), s->get_us());
    if (!cb->snaps.empty()) c.check(vf::relerr(s->get_cost(), cost) < 1e-9, "cost-return:" + who, VF_STR("reported " << s->get_cost() << " true " << cost));
    std::ostringstream o;
    o << who << w.kind << l1 << p.models.size() << p.state->get_ndx() << cb->snaps.size();
    c.sig(o.str());
    c.count("solves " + who);
    if (c.index < 3) c.sample(o.str());
  }
}

// the public feasibility functions on explicit candidates, both norms
VF_SCENARIO(figures, 1500, 50000) {
  vf::Quiet q;
  const int kind = r.irange(0, 5);
  Problem p = problem(r, kind);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob);
  for (int k = 0; k < 3; ++k) {
    const VV xs = random_xs(r, p), us = random_us(r, p);
    s->setCandidate(xs, us, false);
    p.prob->calc(s->get_xs(), s->get_us());
    for (int l1 = 0; l1 < 2; ++l1) {
      s->set_feasnorm(l1 ? cr::L1 : cr::LInf);
      const VV fs = gaps(p, xs, us);
      double g, h;
      constraint_violation(p, xs, us, l1, g, h);
      const double F = s->computeDynamicFeasibility(), G = s->computeInequalityFeasibility(), H = s->computeEqualityFeasibility();
      c.check(vf::relerr(F, norm_of(fs, l1)) < 1e-9, l1 ? "dynamic-L1" : "dynamic-LInf", VF_STR(F << " vs " << norm_of(fs, l1)));
      c.check(vf::relerr(G, g) < 1e-9, l1 ? "inequality-L1" : "inequality-LInf", VF_STR(G << " vs " << g));
      c.check(vf::relerr(H, h) < 1e-9, l1 ? "equality-L1" : "equality-LInf", VF_STR(H << " vs " << h));
      c.check(vf::relerr(s->get_fs(), fs) < 1e-9, "gap-list");
      c.count(l1 ? "L1 figures" : "LInf figures");
    }
  }
  c.sig("fig" + std::to_string(p.models.size()) + who + std::to_string(p.state->get_nx()));
}

VF_SCENARIO(ipopt, 60, 2500) {
  vf::Quiet q;
  Problem p = r.coin(0.4) ? lq_problem(r, 1, 6, 4, 3, true) : nl_problem(r, ProbOpt());
  SolP s = make(IPOPT, p.prob);
  Warm w = warm(r, p);
  s->solve(w.xs, w.us, r.coin(0.7) ? 100 : r.irange(1, 4), w.feas);
  c.check(vf::relerr(s->get_cost(), cost_of(p, s->get_xs(), s->get_us())) < 1e-7, "cost-return:Ipopt", VF_STR(s->get_cost() << " vs " << cost_of(p, s->get_xs(), s->get_us())));
  c.count("solves Ipopt");
}
VF_MAIN("C02")
