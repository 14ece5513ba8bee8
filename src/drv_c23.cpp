// C23: cost sums through add / remove / enable / disable / weight histories
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;

struct Item { CostP cost; std::shared_ptr<ResNL> res; Actv actv; double w; bool active; };
struct Out { double cost; V Lx, Lu; M Lxx, Lxu, Luu; };
static Out one(const Item& it, int ndx, int nu, const V& x, const V& u, bool term) {
  Out o{0, V::Zero(ndx), V::Zero(nu), M::Zero(ndx, ndx), M::Zero(ndx, nu), M::Zero(nu, nu)};
  if (term && !it.res->get_q_dependent() && !it.res->get_v_dependent()) return o;
  const V uu = term ? V(V::Zero(nu)) : u;
  const V rr = it.res->ref(x, uu);
  o.cost = it.actv.ref.val(rr);
  const V g = it.actv.ref.grad(rr), h = it.actv.ref.hess(rr);
  const M Rx = it.res->refRx(x, uu), Ru = it.res->refRu(x, uu);
  o.Lx = Rx.transpose() * g;
  o.Lxx = Rx.transpose() * h.asDiagonal() * Rx;
  if (!term) { o.Lu = Ru.transpose() * g; o.Lxu = Rx.transpose() * h.asDiagonal() * Ru; o.Luu = Ru.transpose() * h.asDiagonal() * Ru; }
  return o;
}
struct Shared { V Lx, Lu; M Lxx, Lxu, Luu; };
VF_SCENARIO(histories, 6000, 200000) {
  vf::Quiet quiet;
  StateP s = random_dyn_state(r);
  const int ndx = int(s->get_ndx()), nv = int(s->get_nv());
  const bool defnu = r.coin(0.2);
  const int nu = defnu ? nv : r.irange(1, 4);
  auto m = defnu ? std::make_shared<cr::CostModelSum>(s) : std::make_shared<cr::CostModelSum>(s, nu);
  std::map<std::string, Item> ref;
  cr::DataCollectorAbstract coll;
  std::vector<std::shared_ptr<cr::CostDataSum>> ds;
  std::shared_ptr<Shared> ext;
  std::set<int> ismapped;
  auto fresh = [&] { ds.clear(); ds.push_back(m->createData(&coll)); };
  auto make = [&](int nuc) {
    Item it;
    const int nr = r.irange(1, 4), dep = r.irange(1, 7);
    it.res = std::make_shared<ResNL>(r, s, nr, nuc, dep & 1, (dep & 2) != 0, (dep & 4) != 0);
    it.actv = make_actv(r, nr, r.irange(0, NACTV - 1));
    it.cost = std::make_shared<cr::CostModelResidual>(s, it.actv.m, it.res);
    it.w = r.pick({0., 1., -0.5, 1e-3, 10.});
    it.active = r.coin(0.7);
    return it;
  };
  const char* names[] = {"a", "b", "c", "aa", "B", ""};
  auto compare = [&](const char* where) {
    std::set<std::string> on, off;
    size_t nr = 0, nrt = 0;
    for (auto& k : ref) { (k.second.active ? on : off).insert(k.first); nrt += k.second.res->get_nr(); if (k.second.active) nr += k.second.res->get_nr(); }
    c.check(m->get_active_set() == on && m->get_inactive_set() == off, "sets", where);
    c.check(m->get_nr() == nr && m->get_nr_total() == nrt, "dimensions", VF_STR(where << " nr " << m->get_nr() << " vs " << nr << ", total " << m->get_nr_total() << " vs " << nrt));
    bool ok = m->get_costs().size() == ref.size();
    for (auto& k : ref) {
      auto f = m->get_costs().find(k.first);
      ok = ok && f != m->get_costs().end() && f->second->cost == k.second.cost && f->second->weight == k.second.w && f->second->active == k.second.active &&
           f->second->name == k.first && m->getCostStatus(k.first) == k.second.active;
    }
    c.check(ok, "items", where);
    c.check(int(m->get_nu()) == nu && m->get_state() == s, "members");
    c.check(!m->getCostStatus("no such cost"), "status-of-unknown");
  };
  fresh();
  std::string h;
  const int steps = r.irange(4, 16);
  for (int k = 0; k < steps; ++k) {
    const std::string name = names[r.irange(0, 5)];
    const bool known = ref.count(name);
    switch (r.irange(0, 7)) {
      case 0: case 1: {
        if (r.coin(0.15)) {  // wrong control dimension
          Item it = make(nu + 1);
          c.check(vf::throws([&] { m->addCost(name, it.cost, it.w, it.active); }), "add:accepts-wrong-nu");
          auto item = std::make_shared<cr::CostItem>(name, it.cost, it.w, it.active);
          c.check(vf::throws([&] { m->addCost(item); }), "add-item:accepts-wrong-nu");
          h += "x"; break;
        }
        Item it = make(nu);
        const bool byitem = r.coin(0.3), dflt = !byitem && r.coin(0.2);
        if (byitem) m->addCost(std::make_shared<cr::CostItem>(name, it.cost, it.w, it.active));
        else if (dflt) { it.active = true; m->addCost(name, it.cost, it.w); }
        else m->addCost(name, it.cost, it.w, it.active);
        if (!known) { ref[name] = it; fresh(); }
        h += known ? "d" : byitem ? "i" : "a";
        c.count(known ? "duplicate adds" : "adds");
        break;
      }
      case 2:
        m->removeCost(name);
        if (known) { h += ref[name].active ? "r" : "R"; ref.erase(name); fresh(); } else h += "n";
        c.count("removals");
        break;
      case 3: case 4: {
        const bool on = r.coin();
        m->changeCostStatus(name, on);
        if (known) ref[name].active = on;
        h += on ? "+" : "-";
        c.count("status changes");
        break;
      }
      case 5:
        if (known) { const double w = r.uni(-1, 3); m->get_costs().find(name)->second->weight = w; ref[name].w = w; h += "w"; }
        break;
      case 6: ds.push_back(m->createData(&coll)); if (r.coin()) {
          ext = std::make_shared<Shared>(Shared{V::Constant(ndx, 7), V::Constant(nu, 7), M::Constant(ndx, ndx, 7), M::Constant(ndx, nu, 7), M::Constant(nu, nu, 7)});
          auto d = m->createData(&coll);
          d->shareMemory(ext.get());
          const V x = random_x(r, s), u = r.vec(nu);
          m->calc(d, x, u); m->calcDiff(d, x, u);
          Out t{0, V::Zero(ndx), V::Zero(nu), M::Zero(ndx, ndx), M::Zero(ndx, nu), M::Zero(nu, nu)};
          for (auto& q : ref) if (q.second.active) { Out o = one(q.second, ndx, nu, x, u, false); t.Lx += q.second.w * o.Lx; t.Lu += q.second.w * o.Lu; t.Lxx += q.second.w * o.Lxx; t.Lxu += q.second.w * o.Lxu; t.Luu += q.second.w * o.Luu; }
          c.check(vf::relerr(ext->Lx, t.Lx) < 1e-10 && vf::relerr(ext->Lu, t.Lu) < 1e-10 && vf::relerr(ext->Lxx, t.Lxx) < 1e-10 && vf::relerr(ext->Lxu, t.Lxu) < 1e-10 && vf::relerr(ext->Luu, t.Luu) < 1e-10, "shared-memory");
          c.count("evaluations in shared memory");
          ext.reset();
        }
        break;
      default: break;
    }
    compare(h.c_str());
    if (r.coin(0.6)) {
      const auto& d = r.pick(ds);
      const V x = random_x(r, s), u = r.vec(nu), xc = x, uc = u;
      const bool term = r.coin(0.35);
      if (term) m->calc(d, x); else m->calc(d, x, u);
      if (r.coin(0.3)) { const auto& e = r.pick(ds); if (e != d) { const V x2 = random_x(r, s), u2 = r.vec(nu); m->calc(e, x2, u2); m->calcDiff(e, x2, u2); } }
      if (term) m->calcDiff(d, x); else m->calcDiff(d, x, u);
      Out t{0, V::Zero(ndx), V::Zero(nu), M::Zero(ndx, ndx), M::Zero(ndx, nu), M::Zero(nu, nu)};
      int on = 0;
      for (auto& q : ref) if (q.second.active) {
        Out o = one(q.second, ndx, nu, x, u, term);
        t.cost += q.second.w * o.cost; t.Lx += q.second.w * o.Lx; t.Lu += q.second.w * o.Lu;
        t.Lxx += q.second.w * o.Lxx; t.Lxu += q.second.w * o.Lxu; t.Luu += q.second.w * o.Luu; ++on;
        c.check(vf::relerr(d->costs.find(q.first)->second->cost, o.cost) < 1e-10, "item-value", VF_STR(q.first << " " << q.second.actv.ref.kind << " term=" << term));
      }
      const std::string sfx = term ? ":terminal" : ":running";
      c.check(vf::relerr(d->cost, t.cost) < 1e-10, "sum-value" + sfx, VF_STR(h << " " << d->cost << " vs " << t.cost));
      c.check(vf::relerr(d->Lx, t.Lx) < 1e-9, "sum-Lx" + sfx, h);
      c.check(vf::relerr(d->Lxx, t.Lxx) < 1e-9, "sum-Lxx" + sfx, h);
      if (!term) {
        c.check(vf::relerr(d->Lu, t.Lu) < 1e-9, "sum-Lu", h);
        c.check(vf::relerr(d->Lxu, t.Lxu) < 1e-9, "sum-Lxu", h);
        c.check(vf::relerr(d->Luu, t.Luu) < 1e-9, "sum-Luu", h);
      }
      c.check(vf::same(x, xc) && vf::same(u, uc), "inputs-changed");
      c.count(term ? "terminal evaluations" : "running evaluations");
      c.maxi("active items", on);
      h += term ? "T" : "e";
    }
    if (r.coin(0.1)) {
      const auto& d = ds[0];
      c.check(vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }), "calc:accepts-wrong-x");
      c.check(vf::throws([&] { m->calc(d, s->zero(), V::Zero(nu + 1)); }), "calc:accepts-wrong-u");
      c.check(vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }), "calcDiff:accepts-wrong-x");
      c.check(vf::throws([&] { m->calcDiff(d, s->zero(), V::Zero(nu + 1)); }), "calcDiff:accepts-wrong-u");
      c.check(vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1)); }), "calc:accepts-wrong-x-terminal");
      c.check(vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1)); }), "calcDiff:accepts-wrong-x-terminal");
      auto old = ds[0];
      Item it = make(nu);
      if (!ref.count("zz")) {
        m->addCost("zz", it.cost, it.w, it.active);
        c.check(vf::throws([&] { m->calc(old, s->zero(), V::Zero(nu)); }) && vf::throws([&] { m->calcDiff(old, s->zero()); }), "stale-data-accepted");
        m->removeCost("zz");
        compare("after add+remove");
      }
    }
  }
  if (c.index % 8 == 0) {
    auto q = r.pick(ds);
    q->set_Lx(V::Ones(ndx)); q->set_Lu(V::Ones(nu)); q->set_Lxx(M::Ones(ndx, ndx)); q->set_Lxu(M::Ones(ndx, nu)); q->set_Luu(M::Ones(nu, nu));
    c.check(q->get_Lx().isOnes() && q->get_Lu().isOnes() && q->get_Lxx().isOnes() && q->get_Lxu().isOnes() && q->get_Luu().isOnes(), "data-setters");
    c.check(vf::throws([&] { q->set_Lx(V::Ones(ndx + 1)); }) && vf::throws([&] { q->set_Lu(V::Ones(nu + 1)); }) && vf::throws([&] { q->set_Lxx(M::Ones(ndx, ndx + 1)); }) &&
            vf::throws([&] { q->set_Lxu(M::Ones(ndx + 1, nu)); }) && vf::throws([&] { q->set_Luu(M::Ones(nu, nu + 1)); }), "data-setters-accept-wrong-size");
    std::ostringstream o;
    o << *m;
    c.check(o.str().find("Active") != std::string::npos, "print");
  }
  c.sig(h);
  if (c.index < 2) c.sample("history " + h);
}
// a cost by itself: constructors, default activation, chain rule, dimension mismatch
VF_SCENARIO(residual_cost, 5000, 200000) {
  StateP s = random_dyn_state(r);
  const int ndx = int(s->get_ndx()), nu = r.irange(0, 3), nr = r.irange(1, 5), dep = r.irange(1, 7);
  Item it;
  it.res = std::make_shared<ResNL>(r, s, nr, nu, dep & 1, (dep & 2) != 0, (dep & 4) != 0);
  const bool dflt = r.coin(0.3);
  it.actv = make_actv(r, nr, dflt ? 0 : r.irange(0, NACTV - 1));
  it.cost = dflt ? std::make_shared<cr::CostModelResidual>(s, it.res) : std::make_shared<cr::CostModelResidual>(s, it.actv.m, it.res);
  c.check(it.cost->get_nu() == size_t(nu) && it.cost->get_residual() == it.res && it.cost->get_state() == s && it.cost->get_activation()->get_nr() == size_t(nr), "cost-members");
  c.check(vf::throws([&] { cr::CostModelResidual x(s, std::make_shared<cr::ActivationModelQuad>(nr + 1), it.res); }), "cost:accepts-mismatched-activation");
  cr::DataCollectorAbstract coll;
  auto d = it.cost->createData(&coll), d2 = it.cost->createData(&coll);
  for (int k = 0; k < 4; ++k) {
    const V x = random_x(r, s), u = r.vec(nu);
    const bool term = r.coin(0.4);
    if (term) it.cost->calc(d, x); else it.cost->calc(d, x, u);
    if (r.coin()) { const V x2 = random_x(r, s), u2 = r.vec(nu); it.cost->calc(d2, x2, u2); it.cost->calcDiff(d2, x2, u2); }
    if (term) it.cost->calcDiff(d, x); else it.cost->calcDiff(d, x, u);
    Out o = one(it, ndx, nu, x, u, term);
    c.check(vf::relerr(d->cost, o.cost) < 1e-10, "cost-value", VF_STR(it.actv.ref.kind << term));
    c.check(vf::relerr(d->Lx, o.Lx) < 1e-9 && vf::relerr(d->Lxx, o.Lxx) < 1e-9, "cost-x-derivatives", VF_STR(it.actv.ref.kind << " dep" << dep << " term" << term));
    if (!term) c.check(vf::relerr(d->Lu, o.Lu) < 1e-9 && vf::relerr(d->Lxu, o.Lxu) < 1e-9 && vf::relerr(d->Luu, o.Luu) < 1e-9, "cost-u-derivatives", VF_STR(it.actv.ref.kind << " dep" << dep));
  }
  c.count("single costs");
  c.sig(VF_STR("cost" << nr << nu << ndx << dep << it.actv.ref.kind));
}
VF_MAIN("C23")
