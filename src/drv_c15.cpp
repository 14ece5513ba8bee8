// C15: evaluating a shooting problem = evaluating each node exactly once on its own point
#include "gen.hpp"
using namespace gen;
using vf::Ctx;

VF_SCENARIO(calc_calcDiff, 500, 20000) {
  std::string kinds;
  Problem p = mixed_problem(r, 1, 7, true, &kinds, true);
  const size_t T = p.models.size();
  c.sig(kinds);
  if (c.index < 2) c.sample("mixed problem nodes " + kinds);
  std::vector<V> xs, us;
  double first = 0;
  for (int rep = 0; rep < 3; ++rep) {
    if (rep != 2) { xs = random_xs(r, p); us = random_us(r, p); }
    const std::vector<V> xs_c = xs, us_c = us;
    const double cost = p.prob->calc(xs, us);
    double ref = 0, scale = 1;
    for (size_t i = 0; i < T; ++i) {
      ActDP e = eval(p.models[i], xs[i], us[i]);
      ref += e->cost; scale += std::abs(e->cost);
      c.check(data_diff(p.prob->get_runningDatas()[i], e, false) < 1e-12, "calc:running-data", VF_STR("node " << i));
    }
    ActDP e = evalT(p.terminal, xs[T]);
    ref += e->cost; scale += std::abs(e->cost);
    c.check(data_diff(p.prob->get_terminalData(), e, false, false) < 1e-12, "calc:terminal-data");
    c.check(std::abs(cost - ref) <= 1e-11 * scale, "calc:cost-sum", VF_STR(cost << " vs " << ref));
    c.check(vf::same(xs, xs_c) && vf::same(us, us_c), "calc:inputs-changed");
    const double cost2 = p.prob->calcDiff(xs, us);
    c.check(std::abs(cost2 - ref) <= 1e-11 * scale, "calcDiff:cost", VF_STR(cost2 << " vs " << ref));
    for (size_t i = 0; i < T; ++i)
      c.check(data_diff(p.prob->get_runningDatas()[i], eval(p.models[i], xs[i], us[i], true), true) < 1e-11, "calcDiff:running-data",
              VF_STR("node " << i << " of " << kinds << " rep " << rep));
    ActDP t = p.prob->get_terminalData();
    ActDP et = evalT(p.terminal, xs[T], true);
    c.check(vf::relerr(t->Lx, et->Lx) < 1e-11 && vf::relerr(t->Lxx, et->Lxx) < 1e-11, "calcDiff:terminal-data", kinds);
    c.check(vf::same(xs, xs_c) && vf::same(us, us_c), "calcDiff:inputs-changed");
    if (rep == 1) first = cost;
    if (rep == 2) c.check(cost == first, "calc:not-repeatable", VF_STR(cost << " vs " << first));
    c.count("calc+calcDiff sweeps");
    c.count("node evaluations compared", T + 1);
  }
}

// every node is evaluated once, on its own point and with its own data
VF_SCENARIO(call_log, 400, 15000) {
  ProbOpt o; o.varying_nu = true; o.numin = 0; o.shared_models = true;
  Problem p = nl_problem(r, o);
  const size_t T = p.models.size();
  std::vector<Ev> log;
  auto spy = [&](const Ev& e) { log.push_back(e); };
  std::set<ActNL*> uniq;
  for (auto& m : p.models) uniq.insert(static_cast<ActNL*>(m.get()));
  uniq.insert(static_cast<ActNL*>(p.terminal.get()));
  for (auto* m : uniq) m->spy = spy;
  const std::vector<V> xs = random_xs(r, p), us = random_us(r, p);
  for (int phase = 0; phase < 2; ++phase) {
    log.clear();
    if (phase == 0) p.prob->calc(xs, us); else p.prob->calcDiff(xs, us);
    std::vector<int> hit(T + 1, 0);
    for (auto& e : log) {
      const bool term = e.data == p.prob->get_terminalData().get();
      int node = -1;
      for (size_t i = 0; i < T; ++i) if (e.data == p.prob->get_runningDatas()[i].get()) node = int(i);
      if (term) {
        hit[T]++;
        c.check(e.kind == (phase ? 3 : 1), "log:terminal-kind", VF_STR("kind " << e.kind));
        c.check(vf::same(e.x, xs[T]), "log:terminal-point");
      } else if (c.check(node >= 0, "log:foreign-data")) {
        hit[node]++;
        c.check(e.kind == (phase ? 2 : 0), "log:running-kind", VF_STR("kind " << e.kind));
        c.check(vf::same(e.x, xs[node]) && vf::same(e.u, us[node]), "log:running-point", VF_STR("node " << node));
      }
    }
    for (size_t i = 0; i <= T; ++i) c.check(hit[i] == 1, "log:node-evaluated-once", VF_STR("node " << i << " hit " << hit[i] << " phase " << phase));
    c.count("model calls logged", log.size());
  }
  c.sig(VF_STR("T" << T << "u" << uniq.size() << "n" << p.state->get_nx()));
  for (auto* m : uniq) m->spy = nullptr;
}

VF_SCENARIO(rollout, 500, 20000) {
  std::string kinds;
  Problem p = mixed_problem(r, 1, 9, true, &kinds, true);
  const size_t T = p.models.size();
  c.sig("r" + kinds);
  for (int rep = 0; rep < 2; ++rep) {
    if (rep == 1) { p.x0 = random_x(r, p.state); p.prob->set_x0(p.x0); }
    const std::vector<V> us = random_us(r, p, 0.4), us_c = us;
    std::vector<V> xs = random_xs(r, p);
    if (r.coin()) for (auto& x : xs) x = V();  // output vectors need no particular size
    p.prob->rollout(us, xs);
    c.check(xs.size() == T + 1 && vf::same(xs[0], p.x0), "rollout:x0");
    c.check(vf::same(us, us_c), "rollout:us-changed");
    V x = p.x0;
    double total = 0;
    for (size_t i = 0; i < T; ++i) {
      ActDP e = eval(p.models[i], x, us[i]);
      total += e->cost;
      x = e->xnext;
      c.check(vf::relerr(xs[i + 1], x) < 1e-12, "rollout:state", VF_STR("node " << i + 1 << " " << kinds));
      c.check(data_diff(p.prob->get_runningDatas()[i], e, false) < 1e-12, "rollout:running-data");
    }
    ActDP e = evalT(p.terminal, x);
    total += e->cost;
    c.check(data_diff(p.prob->get_terminalData(), e, false, false) < 1e-11, "rollout:terminal-data");
    std::vector<V> xs2 = p.prob->rollout_us(us);
    c.check(vf::same(xs, xs2), "rollout:rollout_us-differs");
    const double cost = p.prob->calc(xs, us);
    c.check(std::abs(cost - total) <= 1e-10 * (1 + std::abs(total)), "rollout:cost", VF_STR(cost << " " << total));
    c.count("rollouts"); c.count("rollout nodes", T);
  }
}

VF_SCENARIO(wrong_sizes, 150, 4000) {
  Problem p = mixed_problem(r, 1, 5);
  const size_t T = p.models.size();
  std::vector<V> xs = random_xs(r, p), us = random_us(r, p);
  const double c0 = p.prob->calc(xs, us);
  std::vector<V> bx = xs, bu = us;
  if (r.coin()) bx.push_back(xs[0]); else bx.pop_back();
  if (r.coin() || T == 1) bu.push_back(us[0]); else bu.pop_back();
  const std::vector<V> bx0 = bx, bu0 = bu;
  c.check(vf::throws([&] { p.prob->calc(bx, us); }), "sizes:calc-xs");
  c.check(vf::throws([&] { p.prob->calc(xs, bu); }), "sizes:calc-us");
  c.check(vf::throws([&] { p.prob->calcDiff(bx, us); }), "sizes:calcDiff-xs");
  c.check(vf::throws([&] { p.prob->calcDiff(xs, bu); }), "sizes:calcDiff-us");
  c.check(vf::throws([&] { p.prob->rollout(us, bx); }), "sizes:rollout-xs");
  c.check(vf::throws([&] { p.prob->rollout(bu, xs); }), "sizes:rollout-us");
  std::vector<V> qx(xs.begin(), xs.end() - 1), qb = xs;
  std::vector<V> uq = us;
  c.check(vf::throws([&] { p.prob->quasiStatic(uq, qb); }), "sizes:quasiStatic-xs");
  c.check(vf::throws([&] { p.prob->quasiStatic(bu, qx); }), "sizes:quasiStatic-us");
  c.check(vf::same(bx, bx0) && vf::same(bu, bu0) && vf::same(uq, us), "sizes:arguments-changed");
  c.check(p.prob->calc(xs, us) == c0, "sizes:state-changed");
  c.count("rejected calls", 8);
  c.sig(VF_STR("w" << T << p.state->get_nx()));
}
VF_MAIN("C15")
