// C13: a reused solver behaves like a fresh one on the same problem.
#include "solv.hpp"
using namespace solv;

namespace {
struct Settings {
  double th_stop = 1e-7, th_acc = 0.1, reg_min = 1e-9, reg_max = 1e9, inc = 10, dec = 10, negstep = 2, reg = NAN;
  std::vector<double> alphas{1., 0.5, 0.25, 0.125, 0.0625};
  bool l1 = false;
  size_t maxiter = 30;
  void draw(vf::Rng& r) {
    th_stop = r.coin(.15) ? 1e3 : r.pick({1e-9, 1e-6, 1e-4});
    th_acc = r.pick({0.1, 0.01, 0.5});
    reg_min = r.pick({0., 1e-9, 1e-5});
    reg_max = r.pick({1e9, 1e3});
    inc = r.pick({2., 10.}); dec = r.pick({2., 10.});
    negstep = r.pick({2., 0.5});
    reg = r.coin(0.6) ? NAN : r.pick({0., 1e-6, 1e-1});
    alphas.clear();
    for (int i = 0, n = r.coin(.15) ? 1 : r.irange(2, 12); i < n; ++i) alphas.push_back(std::pow(0.5, i));
    l1 = r.coin(0.3);
    maxiter = size_t(r.pick({1, 3, 10, 40}));
  }
  void put(const SolP& s) const {
    s->set_th_stop(th_stop);
    s->set_th_acceptstep(th_acc);
    s->set_feasnorm(l1 ? cr::L1 : cr::LInf);
    if (auto d = std::dynamic_pointer_cast<cr::SolverDDP>(s)) {
      d->set_reg_min(reg_min); d->set_reg_max(reg_max); d->set_reg_incfactor(inc); d->set_reg_decfactor(dec); d->set_alphas(alphas);
    }
    if (auto d = std::dynamic_pointer_cast<cr::SolverFDDP>(s)) d->set_th_acceptnegstep(negstep);
    if (auto d = std::dynamic_pointer_cast<cr::SolverIntro>(s)) d->set_zero_upsilon(true);
  }
};
struct Out { bool ok; VV xs, us; double cost, stop; size_t iter; bool feas; std::vector<Snap> snaps; std::string err; };
Out run(const SolP& s, const Warm& w, const Settings& st) {
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  Out o;
  try { o.ok = s->solve(w.xs, w.us, st.maxiter, w.feas, st.reg); }
  catch (std::exception& e) { o.ok = false; o.err = e.what(); if (o.err.empty()) o.err = "?"; }
  s->setCallbacks({});
  o.xs = s->get_xs(); o.us = s->get_us(); o.cost = s->get_cost(); o.stop = s->get_stop(); o.iter = s->get_iter(); o.feas = s->get_is_feasible();
  o.snaps = cb->snaps;
  return o;
}
bool limited(const Problem& p) { for (auto& m : p.models) if (m->get_nu() && m->get_has_control_limits()) return true; return false; }

// tight: identical up to rounding; otherwise (box QPs warm-started by the past) only converged results are comparable
void compare(vf::Ctx& c, const Out& a, const Out& b, bool tight, const std::string& key, const std::string& info) {
  c.check(a.err == b.err, "exception:" + key, VF_STR(info << ": '" << a.err << "' vs '" << b.err << "'"));
  if (!a.err.empty() || !b.err.empty()) return;
  if (!tight) {
    if (!a.ok || !b.ok) { c.count("box solves not converged, not compared"); return; }
    c.check(vf::relerr(a.xs, b.xs) < 1e-2 && vf::relerr(a.us, b.us) < 1e-2, "box-solution:" + key, VF_STR(info << " " << vf::relerr(a.us, b.us)));
    c.count("box solutions compared");
    return;
  }
  const double ex = vf::relerr(a.xs, b.xs), eu = vf::relerr(a.us, b.us);
  c.check(ex < 1e-9 && eu < 1e-9, "trajectory:" + key, VF_STR(info << " states differ by " << ex << " controls by " << eu << " iterations " << a.iter << "," << b.iter));
  c.check(a.ok == b.ok && a.iter == b.iter && a.feas == b.feas && a.snaps.size() == b.snaps.size(), "verdict:" + key, VF_STR(info << " verdict " << a.ok << "," << b.ok << " iterations " << a.iter << "," << b.iter << " feasible " << a.feas << "," << b.feas << " callbacks " << a.snaps.size() << "," << b.snaps.size()));
  c.check(vf::relerr(a.cost, b.cost) < 1e-9, "cost:" + key, VF_STR(info << " " << a.cost << " vs " << b.cost));
  for (size_t i = 0; i < std::min(a.snaps.size(), b.snaps.size()); ++i) {
    const Snap &x = a.snaps[i], &y = b.snaps[i];
    c.check(vf::relerr(x.xs, y.xs) < 1e-9 && vf::relerr(x.us, y.us) < 1e-9 && vf::relerr(x.cost, y.cost) < 1e-9 && x.feas == y.feas && x.step == y.step && (x.preg == y.preg || (std::isnan(x.preg) && std::isnan(y.preg))) && vf::relerr(x.ffeas, y.ffeas) < 1e-9 && vf::relerr(x.gfeas, y.gfeas) < 1e-9 && vf::relerr(x.hfeas, y.hfeas) < 1e-9,
            "iterate:" + key, VF_STR(info << " iteration " << i << " steps " << x.step << "," << y.step << " preg " << x.preg << "," << y.preg));
    c.count("iterates compared");
  }
}

struct World {
  Problem p;
  bool lq = false, autonomous = false, constr = false, manifold = true;
  int nu = 1;
  ActP node(vf::Rng& r, bool terminal) const {
    if (lq) return random_lqr(r, int(p.state->get_nx()), r.irange(1, 4));
    ActOpt a;
    a.nu = r.irange(1, 4); a.nonlin = 0.3; a.nonquad = 0.3;
    if (constr && !terminal) { a.ng = r.irange(0, 2); a.nh = r.irange(0, std::min(a.nu, 2)); }
    if (constr && terminal) { a.ngT = r.irange(0, 2); a.nhT = r.irange(0, 2); }
    if (autonomous && !terminal && r.coin(0.2)) { a.nu = a.ng = a.nh = 0; a.autonomous = true; }
    return std::make_shared<ActNL>(r, p.state, a);
  }
};
World world(vf::Rng& r, int kind) {
  World w;
  w.lq = r.coin(0.25);
  if (w.lq) { w.p = lq_problem(r, 1, 6, 4, 3, true); return w; }
  w.constr = kind != IPOPT && r.coin(0.4);
  w.autonomous = r.coin(0.3);
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.Tmax = 6; o.nonlin = 0.3; o.nonquad = 0.3; o.pauto = w.autonomous ? 0.2 : 0;
  if (w.constr) { o.ng = 2; o.nh = 2; o.ngT = 2; o.nhT = 2; }
  w.p = nl_problem(r, o);
  return w;
}
std::string edit(vf::Rng& r, World& w) {
  Problem& p = w.p;
  const int T = int(p.models.size());
  switch (r.irange(0, 7)) {
    case 0: { const int i = r.irange(0, T - 1); ActP m = w.node(r, false); p.prob->updateModel(i, m); p.models[i] = m; return "M"; }
    case 1: { const int i = r.irange(0, T - 1); ActP m = w.node(r, false); p.prob->updateNode(i, m, m->createData()); p.models[i] = m; return "N"; }
    case 2: { ActP m = w.node(r, true); p.prob->set_terminalModel(m); p.terminal = m; return "T"; }
    case 3: { ActP m = w.node(r, false); p.prob->circularAppend(m, m->createData()); p.models.erase(p.models.begin()); p.models.push_back(m); return "A"; }
    case 4: { ActP m = w.node(r, false); p.prob->circularAppend(m); p.models.erase(p.models.begin()); p.models.push_back(m); return "a"; }
    case 5: { std::vector<ActP> ms; for (int i = 0; i < T; ++i) ms.push_back(r.coin() ? p.models[i] : w.node(r, false)); p.prob->set_runningModels(ms); p.models = ms; return "R"; }
    case 6: { const int i = T; ActP m = w.node(r, true); p.prob->updateModel(i, m); p.terminal = m; return "t"; }
    default: { p.x0 = random_x(r, p.state); p.prob->set_x0(p.x0); return "x"; }
  }
}
}  // namespace

VF_SCENARIO(reuse, 4000, 100000) {
  vf::Quiet q;
  const int kind = c.index % 12 == 11 ? int(IPOPT) : r.irange(0, NKIND - 2), eq = r.irange(0, 2);
  const std::string who = name(kind);
  World w = world(r, kind);
  SolP s = make(kind, w.p.prob, eq), s2;
  const bool two = r.coin(0.2);  // another solver looks at the same problem
  const int kind2 = r.irange(0, NKIND - 2);
  if (two) s2 = make(kind2, w.p.prob, eq);
  Settings st;
  std::string hist;
  for (int n = r.irange(2, 4); n > 0; --n) {
    if (r.coin(0.4)) { st.draw(r); hist += "s"; }
    if (!hist.empty() && r.coin(0.6)) for (int k = r.irange(1, 2); k > 0; --k) hist += edit(r, w);
    if (r.coin(0.2)) {
      for (auto& m : w.p.models) if (m->get_nu() && r.coin(0.5)) random_limits(r, m, r.irange(0, 1));
      hist += "l";
    }
    if (r.coin(0.1)) { vf::throws([&] { s->solve(VV(1), VV(1), 3); }); hist += "b"; }
    if (r.coin(0.1)) { s->resizeData(); hist += "z"; }
    if (r.coin(0.15) && kind != IPOPT && kind != KKT) {  // steps by hand leave internal state behind
      Warm g = full(w.p, warm(r, w.p, 1));
      vf::throws([&] { s->resizeData(); s->setCandidate(g.xs, g.us, false); w.p.prob->calc(g.xs, g.us); s->computeDirection(true); s->tryStep(0.5); s->expectedImprovement(); s->stoppingCriteria(); });
      hist += "h";
    }
    Warm g = warm(r, w.p, -1, 0.4);
    st.put(s);
    if (two) { st.put(s2); run(s2, g, st); }
    const Out a = run(s, g, st);
    Problem fresh = w.p;
    fresh.prob = build(fresh);
    SolP f = make(kind, fresh.prob, eq);
    st.put(f);
    const Out b = run(f, g, st);
    const bool tight = !((kind == BOXDDP || kind == BOXFDDP) && limited(w.p));
    hist += "!";
    const std::string info = who + " " + hist + " " + g.kind + (two ? std::string(" after ") + name(kind2) : "");
    compare(c, a, b, tight, who, info);
    c.count("solves compared " + who);
    if (a.ok) c.count("converged");
    else c.count("not converged");
    // and once more, the same solve on the same object
    if (r.coin(0.4)) {
      const Out d = run(s, g, st);
      compare(c, d, b, tight, who, info + " repeated");
      c.count("repetitions");
      hist += "=";
    }
  }
  for (char ch : hist) c.count(std::string("step ") + ch);
  if (two) c.count("two solvers on one problem");
  c.sig(who + hist);
  if (c.index < 3) c.sample(who + " " + hist);
}

// evaluating and solving copies, other problems in between, other objects' lifetimes: nothing leaks over
VF_SCENARIO(deterministic, 1500, 40000) {
  vf::Quiet q;
  const int kind = c.index % 12 == 11 ? int(IPOPT) : r.irange(0, NKIND - 2), eq = r.irange(0, 2);
  World w = world(r, kind);
  for (auto& m : w.p.models) if (m->get_nu() && r.coin(0.2)) random_limits(r, m, r.irange(0, 1));
  Settings st;
  st.draw(r);
  Warm g = warm(r, w.p, -1, 0.4);
  std::vector<Out> outs;
  for (int k = 0; k < 3; ++k) {
    Problem fresh = w.p;
    fresh.prob = build(fresh);
    SolP f = make(kind, fresh.prob, eq);
    st.put(f);
    outs.push_back(run(f, g, st));
    if (k == 0) {  // an unrelated solve, sharing the models
      World o = w;
      o.p.x0 = random_x(r, o.p.state);
      o.p.prob = build(o.p);
      SolP z = make(r.irange(0, NKIND - 2), o.p.prob, eq);
      run(z, warm(r, o.p, -1, 0.4), st);
    }
  }
  const Out &a = outs[0], &b = outs[1], &d = outs[2];
  compare(c, a, b, true, std::string("fresh-") + name(kind), g.kind);
  compare(c, a, d, true, std::string("fresh-") + name(kind), g.kind);
  c.check(a.err == d.err && (a.ok == d.ok) && vf::same(a.xs, d.xs) && vf::same(a.us, d.us), std::string("bitwise-") + name(kind), g.kind);
  c.count("fresh solves compared");
  c.sig(std::string("f") + name(kind) + g.kind + std::to_string(a.iter) + std::to_string(w.p.models.size()));
}
VF_MAIN("C13")
