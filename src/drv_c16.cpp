// C16: edit histories of a shooting problem against a list model
#include "gen.hpp"
using namespace gen;
using vf::Ctx;

namespace {
struct Ref {
  std::vector<ActP> m;
  std::vector<ActDP> d;  // null: data the problem created itself
  ActP tm;
  ActDP td;
  V x0;
};
struct World {
  StateP s, bad;
  std::vector<ActP> pool, badpool;
};
ActP new_model(Rng& r, World& w, bool fresh = false) {
  if (!fresh && !w.pool.empty() && r.coin(0.5)) return r.pick(w.pool);
  ActP m = any_action(r, w.s, r.pick({1, 2, 2, 3}), nullptr, true);
  w.pool.push_back(m);
  return m;
}
// compares the problem with the model; slot data is learnt the first time it is seen
void compare(Ctx& c, const ProbP& p, Ref& ref, const std::string& op) {
  const std::string k = "after-" + op;
  const size_t T = ref.m.size();
  c.check(p->get_T() == T, k + ":T", VF_STR(p->get_T() << " vs " << T));
  if (!c.check(p->get_runningModels().size() == T && p->get_runningDatas().size() == T, k + ":sizes")) return;
  c.check(vf::same(p->get_x0(), ref.x0), k + ":x0");
  std::set<const void*> seen;
  auto slot = [&](const ActP& pm, const ActP& rm, const ActDP& pd, ActDP& rd, size_t i) {
    c.check(pm == rm, k + ":model", VF_STR("slot " << i));
    if (!c.check(pd != nullptr, k + ":data-null", VF_STR("slot " << i))) return;
    if (rd) c.check(pd == rd, k + ":data-identity", VF_STR("slot " << i));
    else {
      rd = pd;
      c.check(size_t(pd->Fu.cols()) == rm->get_nu() && size_t(pd->Lu.size()) == rm->get_nu(), k + ":data-dimension", VF_STR("slot " << i));
      ActNL* nl = dynamic_cast<ActNL*>(rm.get());
      c.check(nl ? true : rm->checkData(pd), k + ":data-type", VF_STR("slot " << i));
    }
    c.check(seen.insert(pd.get()).second, k + ":data-shared", VF_STR("slot " << i));
  };
  for (size_t i = 0; i < T; ++i) slot(p->get_runningModels()[i], ref.m[i], p->get_runningDatas()[i], ref.d[i], i);
  slot(p->get_terminalModel(), ref.tm, p->get_terminalData(), ref.td, T);
}
void evaluate(Ctx& c, Rng& r, const ProbP& p, const Ref& ref, const StateP& s, const std::string& op) {
  Problem q;
  q.state = s; q.models = ref.m; q.terminal = ref.tm; q.x0 = ref.x0;
  q.prob = build(q);
  const std::vector<V> xs = random_xs(r, q), us = random_us(r, q);
  const double a = p->calc(xs, us), b = q.prob->calc(xs, us);
  c.check(vf::relerr(a, b) < 1e-12, "eval-after-" + op + ":cost", VF_STR(a << " vs " << b));
  p->calcDiff(xs, us); q.prob->calcDiff(xs, us);
  for (size_t i = 0; i < ref.m.size(); ++i)
    c.check(data_diff(p->get_runningDatas()[i], q.prob->get_runningDatas()[i], true) < 1e-10, "eval-after-" + op + ":data", VF_STR("node " << i));
  std::vector<V> x1 = p->rollout_us(us), x2 = q.prob->rollout_us(us);
  c.check(vf::relerr(x1, x2) < 1e-11, "eval-after-" + op + ":rollout");
  c.count("edited problems evaluated");
}
}  // namespace

VF_SCENARIO(history, 1500, 40000) {
  World w;
  w.s = r.coin(0.3) ? StateP(std::make_shared<StateSO3>(0)) : StateP(std::make_shared<cr::StateVector>(2 * r.irange(1, 2)));
  // same nx, other ndx is only possible with the Lie group; otherwise other nx
  w.bad = (w.s->get_nx() == 7 && r.coin()) ? StateP(std::make_shared<cr::StateVector>(7)) : StateP(std::make_shared<cr::StateVector>(int(w.s->get_nx()) + 1));
  const int T = r.irange(1, 6);
  Ref ref;
  for (int i = 0; i < T; ++i) ref.m.push_back(new_model(r, w));
  ref.tm = new_model(r, w);
  ref.x0 = random_x(r, w.s);
  ref.d.assign(T, nullptr);
  ProbP p;
  const bool userdata = r.coin(0.4);
  if (userdata) {
    for (auto& m : ref.m) ref.d[&m - &ref.m[0]] = m->createData();
    ref.td = ref.tm->createData();
    p = std::make_shared<cr::ShootingProblem>(ref.x0, ref.m, ref.tm, ref.d, ref.td);
  } else p = std::make_shared<cr::ShootingProblem>(ref.x0, ref.m, ref.tm);
  c.check(!p->is_updated(), "updated:new-problem", userdata ? "built with data" : "built without data");
  compare(c, p, ref, userdata ? "construction-data" : "construction");
  bool dirty = false;
  std::string hist;
  const int n = r.irange(1, 14);
  std::vector<std::pair<ProbP, Ref>> copies;
  for (int step = 0; step < n; ++step) {
    const int op = r.irange(0, 11);
    std::string name;
    bool edits = false;
    const size_t TT = ref.m.size();
    switch (op) {
      case 0: case 1: {  // circularAppend
        ActP m = new_model(r, w);
        ref.m.erase(ref.m.begin()); ref.d.erase(ref.d.begin());
        ref.m.push_back(m);
        if (op == 0) { p->circularAppend(m); ref.d.push_back(nullptr); name = "circularAppend"; }
        else { ActDP d = m->createData(); p->circularAppend(m, d); ref.d.push_back(d); name = "circularAppend-data"; }
        edits = true;
        break;
      }
      case 2: case 3: {
        const size_t i = size_t(r.irange(0, int(TT)));
        ActP m = new_model(r, w);
        ActDP d = op == 2 ? m->createData() : nullptr;
        if (op == 2) { p->updateNode(i, m, d); name = "updateNode"; } else { p->updateModel(i, m); name = "updateModel"; }
        if (i == TT) { ref.tm = m; ref.td = d; name += "-terminal"; } else { ref.m[i] = m; ref.d[i] = d; }
        edits = true;
        break;
      }
      case 4: { ActP m = new_model(r, w); p->set_terminalModel(m); ref.tm = m; ref.td = nullptr; name = "set_terminalModel"; edits = true; break; }
      case 5: { ref.x0 = random_x(r, w.s); p->set_x0(ref.x0); name = "set_x0"; break; }
      case 6: {
        const int T2 = r.coin(0.5) ? int(TT) : r.irange(1, 7);
        std::vector<ActP> ms;
        for (int i = 0; i < T2; ++i) ms.push_back(new_model(r, w));
        p->set_runningModels(ms);
        ref.m = ms; ref.d.assign(ms.size(), nullptr);
        name = int(TT) == T2 ? "set_runningModels" : "set_runningModels-resize";
        edits = true;
        break;
      }
      case 7: {  // rejected edits
        ActP m = any_action(r, w.bad, 2);
        ActP good = new_model(r, w);
        ActDP d = m->createData();
        bool t = true;
        const int which = r.irange(0, 6);
        const size_t i = size_t(r.irange(0, int(TT)));
        switch (which) {
          case 0: t = vf::throws([&] { p->circularAppend(m); }); break;
          case 1: t = vf::throws([&] { p->circularAppend(m, d); }); break;
          case 2: t = vf::throws([&] { p->updateNode(i, m, d); }); break;
          case 3: t = vf::throws([&] { p->updateModel(i, m); }); break;
          case 4: t = vf::throws([&] { p->set_terminalModel(m); }); break;
          case 5: t = vf::throws([&] { p->updateModel(TT + 1 + size_t(r.irange(0, 2)), good); }) && vf::throws([&] { p->updateNode(TT + 1, good, good->createData()); }); break;
          default: t = vf::throws([&] { p->set_x0(r.vec(w.s->get_nx() + 1)); }); break;
        }
        name = "rejected" + std::to_string(which);
        c.check(t, name + ":accepted");
        c.count("rejected edits");
        break;
      }
      case 8: {
        std::vector<ActP> ms = ref.m;
        if (ms.size() > 1) ms[size_t(r.irange(0, int(ms.size()) - 1))] = any_action(r, w.bad, 2); else ms[0] = any_action(r, w.bad, 2);
        if (r.coin()) ms.insert(ms.begin() + r.irange(0, int(ms.size())), new_model(r, w));
        c.check(vf::throws([&] { p->set_runningModels(ms); }), "rejected-set_runningModels:accepted");
        name = "rejected-set_runningModels";
        c.count("rejected edits");
        break;
      }
      case 9: {  // a copy shares nodes, then lives its own life
        ProbP q = std::make_shared<cr::ShootingProblem>(*p);
        c.check(!q->is_updated(), "updated:copied-problem");
        copies.push_back({q, ref});
        if (r.coin()) std::swap(p, copies.back().first);   // edit either side (the copy's flag starts clear)
        else { name = "copy"; break; }
        { bool up = copies.back().first->is_updated(); c.check(up == dirty, "updated:before-copy"); dirty = false; }
        name = "copy";
        break;
      }
      case 10: { evaluate(c, r, p, ref, w.s, "history"); name = "eval"; break; }
      default: {
        const bool u = p->is_updated();
        c.check(u == dirty, "updated:flag", VF_STR("got " << u << " want " << dirty << " after " << hist));
        c.check(!p->is_updated(), "updated:not-cleared");
        dirty = false;
        name = "poll";
      }
    }
    if (edits) { dirty = true; c.count("edits"); }
    c.count("op " + name);
    compare(c, p, ref, name);
    hist += name + ";";
  }
  for (auto& q : copies) compare(c, q.first, q.second, "edits-of-copy");
  evaluate(c, r, p, ref, w.s, "history");
  c.check(p->is_updated() == dirty, "updated:flag", hist);
  c.sig(hist);
  if (c.index < 3) c.sample(hist);
}

// constructors reject inconsistent node sets
VF_SCENARIO(constructors, 200, 4000) {
  World w;
  w.s = std::make_shared<cr::StateVector>(4);
  w.bad = std::make_shared<cr::StateVector>(5);
  const int T = r.irange(2, 5);
  std::vector<ActP> ms;
  std::vector<ActDP> ds;
  for (int i = 0; i < T; ++i) { ms.push_back(any_action(r, w.s, 2)); ds.push_back(ms.back()->createData()); }
  ActP tm = any_action(r, w.s, 2), bad = std::make_shared<cr::ActionModelLQR>(5, 2, true);
  V x0 = r.vec(4);
  typedef cr::ShootingProblem P;
  auto mk = [&](V x, std::vector<ActP> m, ActP t) { P p(x, m, t); };
  auto mkd = [&](V x, std::vector<ActP> m, ActP t, std::vector<ActDP> d, ActDP td) { P p(x, m, t, d, td); };
  std::vector<ActP> bm = ms;
  bm[size_t(r.irange(0, T - 1))] = bad;
  c.check(vf::throws([&] { mk(r.vec(5), ms, tm); }), "ctor:x0");
  c.check(vf::throws([&] { mk(x0, bm, tm); }), "ctor:nx");
  c.check(vf::throws([&] { mk(x0, ms, bad); }), "ctor:terminal-nx");
  c.check(vf::throws([&] { mkd(r.vec(3), ms, tm, ds, tm->createData()); }), "ctor-data:x0");
  std::vector<ActDP> fewer(ds.begin(), ds.end() - 1);
  c.check(vf::throws([&] { mkd(x0, ms, tm, fewer, tm->createData()); }), "ctor-data:count");
  { auto lq = random_lqr(r, 4, 2);
    std::vector<ActP> m2 = ms; std::vector<ActDP> d2 = ds;
    const int i = r.irange(0, T - 1);
    m2[i] = lq;
    d2[i] = std::make_shared<cr::ActionDataAbstract>(lq.get());
    c.check(vf::throws([&] { mkd(x0, m2, tm, d2, tm->createData()); }), "ctor-data:wrong-data");
    d2[i] = lq->createData();
    c.check(!vf::throws([&] { mkd(x0, m2, tm, d2, tm->createData()); }), "ctor-data:right-data-rejected");
    c.check(vf::throws([&] { mkd(x0, m2, lq, d2, std::make_shared<cr::ActionDataAbstract>(lq.get())); }), "ctor-data:wrong-terminal-data");
  }
  c.count("constructor rejections", 6);
  c.sig(VF_STR("ctor" << T));
}
VF_MAIN("C16")
