// C12: warm starts are stored exactly as given with their claim, or rejected whole.
#include "solv.hpp"
using namespace solv;

namespace {
Problem problem(vf::Rng& r, bool autonomous = true) {
  ProbOpt o;
  o.varying_nu = true; o.numin = 1; o.numax = 3; o.Tmax = 6; o.nonlin = 0.2; o.nonquad = 0.2; o.pauto = autonomous ? r.pick({0., 0.25}) : 0.;
  o.shared_models = false;
  if (r.coin(0.2)) return lq_problem(r, 1, 5, 4, 3, true);
  return nl_problem(r, o);
}
// a list of states or controls: right, empty, or wrong in one of several ways
VV variant(vf::Rng& r, const VV& right, int k, std::string& what) {
  VV v = right;
  switch (k) {
    case 0: what = "right"; break;
    case 1: what = "empty"; v.clear(); break;
    case 2: what = "short"; v.pop_back(); if (v.empty()) { v = right; v.push_back(right[0]); what = "long"; } break;
    case 3: what = "long"; v.push_back(right.back()); break;
    case 4: what = "last-larger"; v.back() = V::Zero(v.back().size() + 1); break;
    case 5: what = "first-larger"; v[0] = V::Zero(v[0].size() + 1); break;
    case 6: { what = "one-smaller"; auto& e = v[r.irange(0, int(v.size()) - 1)]; e = e.size() ? V(V::Zero(e.size() - 1)) : V(V::Zero(1)); break; }
    default: { what = "one-emptied"; auto& e = v[r.irange(0, int(v.size()) - 1)]; e = e.size() ? V() : V(V::Zero(2)); break; }
  }
  return v;
}
bool valid(int k) { return k <= 1; }
int kindlist(vf::Rng& r) { return r.coin(0.6) ? r.irange(0, 1) : r.irange(2, 7); }
}  // namespace

VF_SCENARIO(candidates, 4000, 100000) {
  vf::Quiet q;
  const int kind = r.irange(0, NKIND - 1);
  const std::string who = name(kind);
  Problem p = problem(r);
  SolP s = make(kind, p.prob);
  Warm e = full(p, Warm());  // what a new solver holds
  bool feas = false;
  auto agree = [&](const std::string& after) {
    c.check(vf::same(s->get_xs(), e.xs), "states:" + after.substr(0, after.find('-')), VF_STR(who << " " << after << " T " << p.models.size()));
    c.check(vf::same(s->get_us(), e.us), "controls:" + after.substr(0, after.find('-')), VF_STR(who << " " << after << " T " << p.models.size()));
    c.check(s->get_is_feasible() == feas, "claim:" + after.substr(0, after.find('-')), VF_STR(who << " " << after << " has " << s->get_is_feasible() << " expected " << feas));
  };
  agree("new");
  std::string hist;
  for (int n = r.irange(3, 8); n > 0; --n) {
    const VV rx = random_xs(r, p), ru = random_us(r, p);
    std::string wx, wu;
    const int kx = kindlist(r), ku = kindlist(r);
    switch (r.irange(0, 6)) {
      case 0: case 1: case 2: {
        const VV xs = variant(r, rx, kx, wx), us = variant(r, ru, ku, wu), xc = xs, uc = us;
        const bool claim = r.coin();
        const bool t = vf::throws([&] { s->setCandidate(xs, us, claim); });
        c.check(t == !(valid(kx) && valid(ku)), t ? "rejected-valid" : "accepted-invalid", VF_STR(who << " states " << wx << " controls " << wu));
        c.check(vf::same(xs, xc) && vf::same(us, uc), "inputs-changed");
        if (!t) {
          e.xs = xs; e.us = us;
          e = full(p, e);
          feas = claim;
          c.count("candidates stored");
        } else c.count("candidates rejected");
        hist += "c";
        agree("setCandidate-" + wx + "-" + wu);
        c.count("states " + wx);
        c.count("controls " + wu);
        break;
      }
      case 3: {
        const VV xs = variant(r, rx, kx, wx);
        const bool t = vf::throws([&] { s->set_xs(xs); });
        c.check(t == (kx != 0), "set_xs-verdict", VF_STR(who << " " << wx));
        if (!t) e.xs = xs;
        hist += "x";
        agree("set_xs-" + wx);
        c.count("set_xs");
        break;
      }
      case 4: {
        const VV us = variant(r, ru, ku, wu);
        const bool t = vf::throws([&] { s->set_us(us); });
        c.check(t == (ku != 0), "set_us-verdict", VF_STR(who << " " << wu));
        if (!t) e.us = us;
        hist += "u";
        agree("set_us-" + wu);
        c.count("set_us");
        break;
      }
      case 5: {  // a solve refusing its warm start
        if (valid(kx) && valid(ku)) break;
        const VV xs = variant(r, rx, kx, wx), us = variant(r, ru, ku, wu);
        auto cb = std::make_shared<Capture>();
        s->setCallbacks({cb});
        const bool t = vf::throws([&] { s->solve(xs, us, 5, r.coin()); });
        c.check(t && cb->snaps.empty(), "solve-accepted-invalid", VF_STR(who << " states " << wx << " controls " << wu));
        s->setCallbacks({});
        hist += "r";
        agree("refused solve-" + wx + "-" + wu);
        c.count("refused solves");
        break;
      }
      default: {  // a proper solve, whose results become the candidate
        Warm w = warm(r, p, -1, 0.3);
        s->solve(w.xs, w.us, r.irange(1, 4), w.feas);
        e.xs = s->get_xs(); e.us = s->get_us(); feas = s->get_is_feasible();
        c.check(sizes_ok(p, e.xs, e.us), "sizes-after-solve", who);
        hist += "s";
        c.count("solves between");
        if (r.coin(0.3)) {  // its own lists as the next warm start
          s->setCandidate(s->get_xs(), s->get_us(), !feas);
          feas = !feas;
          agree("own lists");
          c.count("own lists");
        }
      }
    }
  }
  c.count("histories " + who);
  c.sig(who + hist + std::to_string(p.models.size()));
  if (c.index < 3) c.sample(who + " " + hist);
}

// the first evaluation of every node inside solve is at the candidate
VF_SCENARIO(first_evaluation, 3000, 80000) {
  vf::Quiet q;
  const int kind = r.irange(0, NKIND - 1);
  const std::string who = name(kind);
  ProbOpt o;
  o.varying_nu = true; o.numax = 3; o.Tmax = 6; o.nonlin = 0.2; o.nonquad = 0.2; o.pauto = r.pick({0., 0.2});
  Problem p = nl_problem(r, o);
  SolP s = make(kind, p.prob);
  std::vector<Ev> log;
  std::set<ActNL*> uniq;
  for (auto& m : p.models) uniq.insert(static_cast<ActNL*>(m.get()));
  uniq.insert(static_cast<ActNL*>(p.terminal.get()));
  for (auto* m : uniq) m->spy = [&](const Ev& e) { log.push_back(e); };
  for (int k = r.irange(1, 3); k > 0; --k) {
    Warm w = warm(r, p, -1, 0.5);
    const Warm f = full(p, w);
    log.clear();
    auto cb = std::make_shared<Capture>();
    bool first = true;
    s->setCallbacks({cb});
    s->solve(w.xs, w.us, r.irange(1, 3), w.feas);
    const size_t T = p.models.size();
    const double tol = kind == IPOPT ? 1e-13 : 0;
    for (size_t t = 0; t <= T; ++t) {
      const void* d = t < T ? static_cast<const void*>(p.prob->get_runningDatas()[t].get()) : p.prob->get_terminalData().get();
      const Ev* e = nullptr;
      for (auto& ev : log) if (ev.data == d) { e = &ev; break; }
      if (!c.check(e != nullptr, "not-evaluated:" + who, VF_STR("node " << t))) continue;
      c.check(vf::relerr(e->x, f.xs[t]) <= tol, "first-state:" + who, VF_STR(w.kind << " node " << t << ": " << e->x.transpose() << " instead of " << f.xs[t].transpose()));
      if (t < T && p.models[t]->get_nu()) c.check(vf::relerr(e->u, f.us[t]) <= tol, "first-control:" + who, VF_STR(w.kind << " node " << t << ": " << e->u.transpose() << " instead of " << f.us[t].transpose()));
      c.count("first evaluations");
    }
    if (!cb->snaps.empty() && first && kind != IPOPT && kind != KKT) {
      // the gaps of the first direction are those of the candidate
      const VV g = gaps(p, f.xs, f.us);
      c.check(vf::relerr(cb->snaps[0].fs, g) < 1e-12, "first-gaps:" + who, w.kind);
    }
    c.sig(who + w.kind + std::to_string(T) + std::to_string(k));
    c.count("solves " + who);
    c.count("warm " + w.kind);
    p.x0 = random_x(r, p.state);
    p.prob->set_x0(p.x0);
  }
  for (auto* m : uniq) m->spy = nullptr;
}
VF_MAIN("C12")
