// C03: linear-quadratic problems are solved to their exact optimum.
#include "solv.hpp"
using namespace solv;

static Problem lq(vf::Rng& r) {
  Problem p = lq_problem(r, 1, 8, 5, 4, r.coin());
  if (r.coin(0.3)) {  // integrated double integrators with drift and cross terms are LQ too
    Problem q;
    const int nv = r.irange(1, 2), nu = r.irange(1, 3), T = r.irange(1, 6);
    q.state = std::make_shared<cr::StateVector>(2 * nv);
    for (int i = 0; i < T; ++i) {
      if (i && r.coin(0.4)) { q.models.push_back(q.models.back()); continue; }
      q.models.push_back(std::make_shared<cr::IntegratedActionModelEuler>(random_difflqr(r, nv, nu), r.uni(0.05, 0.3), r.coin()));
    }
    q.terminal = std::make_shared<cr::IntegratedActionModelEuler>(random_difflqr(r, nv, nu), 0.);
    q.x0 = r.vec(2 * nv);
    q.prob = build(q);
    return q;
  }
  return p;
}

VF_SCENARIO(converge, 3000, 60000) {
  vf::Quiet q;
  Problem p = lq(r);
  const Opt o = dense_lq(p);
  if (!(o.cond < 1e-9)) { c.count("reference inaccurate, skipped"); return; }
  const int kind = r.irange(0, 5);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  s->set_th_stop(1e-12);
  Warm w = warm(r, p, -1, r.pick({0.3, 3.}));
  const double reg = r.coin(0.8) ? NAN : r.logu(1e-9, 1e-1);
  bool ok = s->solve(w.xs, w.us, 200, w.feas, reg);
  c.check(ok, "not-converged:" + who, VF_STR(w.kind << " T " << p.models.size() << " stop " << s->get_stop() << " iter " << s->get_iter()));
  const double ex = dist(s->get_xs(), o.xs), eu = dist(s->get_us(), o.us);
  c.check(ex < 1e-4 && eu < 1e-4, "optimum:" + who, VF_STR(w.kind << " xs " << ex << " us " << eu));
  c.check(s->get_cost() - o.cost < 1e-7 * std::max(1., std::abs(o.cost)) && o.cost - s->get_cost() < 1e-7 * std::max(1., std::abs(o.cost)), "cost:" + who,
          VF_STR(s->get_cost() << " vs " << o.cost));
  c.maxi("distance to the optimum " + who, std::max(ex, eu));
  c.count("solves " + who);
  c.count("warm " + w.kind);
  std::ostringstream g;
  g << who << w.kind << p.models.size() << p.state->get_ndx();
  for (auto& m : p.models) g << m->get_nu();
  c.sig(g.str());
  if (c.index < 3) c.sample(g.str());
}

// one full Newton step without regularisation
VF_SCENARIO(one_step, 3000, 60000) {
  vf::Quiet q;
  Problem p = lq(r);
  const Opt o = dense_lq(p);
  if (!(o.cond < 1e-9)) { c.count("reference inaccurate, skipped"); return; }
  const int kind = r.irange(0, 5);
  const std::string who = name(kind);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  if (auto d = std::dynamic_pointer_cast<cr::SolverDDP>(s)) d->set_reg_min(0.);
  Warm w = warm(r, p, -1, r.pick({0.3, 3.}));
  const Warm f = full(p, w);
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  s->solve(w.xs, w.us, 1, w.feas, 0.);
  if (!c.check(cb->snaps.size() == 1, "iterations:" + who)) return;
  const Snap& n = cb->snaps[0];
  const double c0 = cost_of(p, f.xs, f.us), sc = std::max({1., std::abs(c0), std::abs(o.cost)});
  if (n.step == 1. && !vf::same(n.us, f.us)) {
    const double ex = dist(n.xs, o.xs), eu = dist(n.us, o.us);
    c.check(ex < 1e-7 && eu < 1e-7, "newton:" + who, VF_STR(w.kind << " xs " << ex << " us " << eu));
    c.count("full steps " + who);
    c.maxi("one-step distance to the optimum", std::max(ex, eu));
    // the model is exact: predicted and realised reductions agree (plain DDP's model does not cover gaps)
    const bool gaps_open = !w.feas;
    if (!((kind == DDP || kind == BOXDDP) && gaps_open) && kind != KKT) {
      const double pred = n.d[0] + 0.5 * n.d[1];
      c.check(std::abs(n.dV - (c0 - o.cost)) < 1e-8 * sc, "realised:" + who, VF_STR(n.dV << " vs " << c0 - o.cost));
      c.check(std::abs(n.dVexp - n.dV) < 1e-8 * sc, "predicted:" + who, VF_STR(w.kind << " predicted " << n.dVexp << " realised " << n.dV));
      c.check(std::abs(pred - n.dVexp) < 1e-9 * sc, "improvement-model:" + who);
      c.count("predictions compared " + who);
    }
    if (kind == KKT) {
      c.check(std::abs(n.dV - (c0 - o.cost)) < 1e-8 * sc, "realised:" + who, VF_STR(n.dV << " vs " << c0 - o.cost));
      c.check(std::abs(n.dVexp - n.dV) < 1e-8 * sc, "predicted:" + who, VF_STR(w.kind << " predicted " << n.dVexp << " realised " << n.dV));
      c.count("predictions compared " + who);
    }
  } else {
    c.count("full step not accepted " + who);
    // from a feasible start the full Newton step of a convex LQ problem always reduces the cost
    if (w.feas && dist(f.us, o.us) > 1e-6) c.check(false, "feasible-newton-rejected:" + who, VF_STR(w.kind << " step " << n.step << " dV " << n.dV << " dVexp " << n.dVexp));
  }
}

VF_SCENARIO(ipopt, 100, 3000) {
  vf::Quiet q;
  Problem p = lq(r);
  const Opt o = dense_lq(p);
  if (!(o.cond < 1e-9)) return;
  SolP s = make(IPOPT, p.prob);
  Warm w = warm(r, p);
  bool ok = s->solve(w.xs, w.us, 300, w.feas);
  c.check(ok, "not-converged:Ipopt", w.kind);
  const double ex = dist(s->get_xs(), o.xs), eu = dist(s->get_us(), o.us);
  c.check(ex < 1e-5 && eu < 1e-5, "optimum:Ipopt", VF_STR(w.kind << " xs " << ex << " us " << eu));
  c.check(vf::relerr(s->get_cost(), o.cost) < 1e-7, "cost:Ipopt");
  c.count("solves Ipopt");
}
VF_MAIN("C03")
