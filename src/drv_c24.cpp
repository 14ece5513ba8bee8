// C24: constraint managers through histories; residual constraints and their bounds
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;
static const double INF = std::numeric_limits<double>::infinity();

// ng inequality rows followed by nh equality rows of f(delta,u)
class ConBoth : public cr::ConstraintModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ConstraintModelBase, ConBoth)
  ConBoth(std::shared_ptr<ResNL> res, int ng, int nh) : cr::ConstraintModelAbstract(res->get_state(), res, ng, nh), f(res), a(ng), b(nh) {}
  typedef std::shared_ptr<cr::ConstraintDataAbstract> DP;
  void put(const DP& d, const V& v) { d->g = v.head(a); d->h = v.segment(a, b); }
  void calc(const DP& d, const CRef& x, const CRef& u) override { put(d, f->ref(x, u)); }
  void calc(const DP& d, const CRef& x) override { put(d, f->ref(x, V::Zero(nu_))); }
  void calcDiff(const DP& d, const CRef& x, const CRef& u) override {
    const M X = f->refRx(x, u), U = f->refRu(x, u);
    d->Gx = X.topRows(a); d->Hx = X.middleRows(a, b); d->Gu = U.topRows(a); d->Hu = U.middleRows(a, b);
  }
  void calcDiff(const DP& d, const CRef& x) override { calcDiff(d, x, V::Zero(nu_)); }
  std::shared_ptr<ResNL> f;
  int a, b;
};
struct Item { ConP con; std::shared_ptr<ResNL> res; int ng, nh; V lb, ub; bool active, T; };
struct Out { V g, h, lb, ub; M Gx, Gu, Hx, Hu; };
static void stack(const std::map<std::string, Item>& ref, int ndx, int nu, const V& x, const V& u, bool term, Out* o) {
  int ng = 0, nh = 0;
  for (auto& k : ref) if (k.second.active && (!term || k.second.T)) { ng += k.second.ng; nh += k.second.nh; }
  o->g.resize(ng); o->lb.resize(ng); o->ub.resize(ng); o->Gx.resize(ng, ndx); o->Gu.resize(ng, nu);
  o->h.resize(nh); o->Hx.resize(nh, ndx); o->Hu.resize(nh, nu);
  int i = 0, j = 0;
  const V uu = term ? V(V::Zero(nu)) : u;
  for (auto& k : ref) if (k.second.active && (!term || k.second.T)) {
    const Item& t = k.second;
    const V v = t.res->ref(x, uu);
    const M X = t.res->refRx(x, uu), U = t.res->refRu(x, uu);
    o->g.segment(i, t.ng) = v.head(t.ng); o->Gx.middleRows(i, t.ng) = X.topRows(t.ng); o->Gu.middleRows(i, t.ng) = U.topRows(t.ng);
    o->lb.segment(i, t.ng) = t.lb; o->ub.segment(i, t.ng) = t.ub;
    o->h.segment(j, t.nh) = v.segment(t.ng, t.nh); o->Hx.middleRows(j, t.nh) = X.middleRows(t.ng, t.nh); o->Hu.middleRows(j, t.nh) = U.middleRows(t.ng, t.nh);
    i += t.ng; j += t.nh;
  }
}
static void rbounds(vf::Rng& r, int n, V* lb, V* ub) {
  lb->resize(n); ub->resize(n);
  for (int i = 0; i < n; ++i) {
    (*lb)[i] = r.coin(0.2) ? -INF : r.uni(-2, 0);
    (*ub)[i] = r.coin(0.2) ? INF : r.uni(0.01, 2);
  }
}
static Item make(vf::Rng& r, const StateP& s, int nu) {
  Item it;
  const int nr = r.irange(1, 3), dep = r.irange(1, 7), kind = r.irange(0, 2);
  const bool q = dep & 1, v = (dep & 2) != 0, u = (dep & 4) != 0;
  it.res = std::make_shared<ResNL>(r, s, nr, nu, q, v, u);
  it.active = r.coin(0.7);
  it.T = q || v;
  it.lb = V(); it.ub = V();
  if (kind == 0) {
    const bool T = r.coin(0.7);
    it.con = T && r.coin() ? std::make_shared<cr::ConstraintModelResidual>(s, it.res) : std::make_shared<cr::ConstraintModelResidual>(s, it.res, T);
    it.ng = 0; it.nh = nr; it.T = it.T && T;
  } else if (kind == 1 || nr == 1) {
    const bool T = r.coin(0.7);
    rbounds(r, nr, &it.lb, &it.ub);
    it.con = T && r.coin() ? std::make_shared<cr::ConstraintModelResidual>(s, it.res, it.lb, it.ub) : std::make_shared<cr::ConstraintModelResidual>(s, it.res, it.lb, it.ub, T);
    it.ng = nr; it.nh = 0; it.T = it.T && T;
  } else {
    it.ng = r.irange(1, nr - 1); it.nh = nr - it.ng;
    it.con = std::make_shared<ConBoth>(it.res, it.ng, it.nh);
    it.lb = V::Constant(it.ng, -INF); it.ub = V::Constant(it.ng, INF);
  }
  return it;
}
struct ExtData { V g, h; M Gx, Gu, Hx, Hu; };
VF_SCENARIO(histories, 6000, 200000) {
  vf::Quiet quiet;
  StateP s = random_dyn_state(r);
  const int ndx = int(s->get_ndx()), nv = int(s->get_nv());
  const bool defnu = r.coin(0.2);
  const int nu = defnu ? nv : r.irange(1, 4);
  auto m = defnu ? std::make_shared<cr::ConstraintModelManager>(s) : std::make_shared<cr::ConstraintModelManager>(s, nu);
  std::map<std::string, Item> ref;
  cr::DataCollectorAbstract coll;
  std::shared_ptr<cr::ConstraintDataManager> d = m->createData(&coll), shd = m->createData(&coll);
  ExtData ext;
  auto share = [&] {
    ext = ExtData{V::Constant(m->get_ng(), 7), V::Constant(m->get_nh(), 7), M::Constant(m->get_ng(), ndx, 7), M::Constant(m->get_ng(), nu, 7), M::Constant(m->get_nh(), ndx, 7), M::Constant(m->get_nh(), nu, 7)};
    shd = m->createData(&coll);
    shd->shareMemory(&ext);
  };
  share();
  const char* names[] = {"a", "b", "c", "aa", "B", ""};
  auto compare = [&](const std::string& where, bool fullb) {
    std::set<std::string> on, off;
    size_t ng = 0, nh = 0, ngT = 0, nhT = 0;
    V lb(0), ub(0);
    for (auto& k : ref) {
      const Item& t = k.second;
      (t.active ? on : off).insert(k.first);
      if (!t.active) continue;
      ng += t.ng; nh += t.nh;
      if (t.T) { ngT += t.ng; nhT += t.nh; }
      V l(lb.size() + t.ng), u(ub.size() + t.ng);
      l << lb, t.lb; u << ub, t.ub; lb = l; ub = u;
    }
    c.check(m->get_active_set() == on && m->get_inactive_set() == off, "sets", where);
    c.check(m->get_ng() == ng && m->get_nh() == nh, "dimensions", VF_STR(where << " " << m->get_ng() << "," << m->get_nh() << " vs " << ng << "," << nh));
    c.check(m->get_ng_T() == ngT && m->get_nh_T() == nhT, "terminal-dimensions", VF_STR(where << " " << m->get_ng_T() << "," << m->get_nh_T() << " vs " << ngT << "," << nhT));
    c.check(size_t(m->get_lb().size()) == ng && size_t(m->get_ub().size()) == ng, "bound-dimensions", where);
    if (fullb) c.check(vf::same(m->get_lb(), lb) && vf::same(m->get_ub(), ub), "bounds-after-change", where);
    bool ok = m->get_constraints().size() == ref.size();
    for (auto& k : ref) {
      auto f = m->get_constraints().find(k.first);
      ok = ok && f != m->get_constraints().end() && f->second->constraint == k.second.con && f->second->active == k.second.active && f->second->name == k.first &&
           m->getConstraintStatus(k.first) == k.second.active;
    }
    c.check(ok, "items", where);
    c.check(int(m->get_nu()) == nu && m->get_state() == s && !m->getConstraintStatus("no such constraint"), "members");
  };
  std::string h;
  bool pending = false;  // a bound update the manager has not evaluated yet
  const int steps = r.irange(4, 16);
  for (int k = 0; k < steps; ++k) {
    const std::string name = names[r.irange(0, 5)];
    const bool known = ref.count(name);
    bool structural = false, changed = false;
    switch (r.irange(0, 6)) {
      case 0: case 1: {
        if (r.coin(0.15)) {
          Item it = make(r, s, nu + 1);
          c.check(vf::throws([&] { m->addConstraint(name, it.con, it.active); }), "add:accepts-wrong-nu");
          h += "x"; break;
        }
        Item it = make(r, s, nu);
        if (r.coin(0.15)) { it.active = true; m->addConstraint(name, it.con); } else m->addConstraint(name, it.con, it.active);
        if (!known) { ref[name] = it; structural = true; }
        h += known ? "d" : "a";
        c.count(known ? "duplicate adds" : "adds");
        break;
      }
      case 2:
        m->removeConstraint(name);
        if (known) { h += ref[name].active ? "r" : "R"; ref.erase(name); structural = true; } else h += "n";
        c.count("removals");
        break;
      case 3: case 4: {
        const bool on = r.coin();
        m->changeConstraintStatus(name, on);
        if (known) { changed = ref[name].active != on; ref[name].active = on; }
        h += on ? "+" : "-";
        c.count("status changes");
        break;
      }
      case 5:  // new bounds reach the manager with the next evaluation
        if (known && ref[name].ng && !ref[name].nh) {
          rbounds(r, ref[name].ng, &ref[name].lb, &ref[name].ub);
          ref[name].con->update_bounds(ref[name].lb, ref[name].ub);
          c.check(vf::same(ref[name].con->get_lb(), ref[name].lb) && vf::same(ref[name].con->get_ub(), ref[name].ub), "update_bounds:stored");
          h += "b"; pending |= ref[name].active; c.count("bound updates");
        }
        break;
      default: break;
    }
    if (structural) { d = m->createData(&coll); share(); }
    compare(h, (structural || changed) && !pending);
    if (r.coin(0.7)) {
      const bool sh = r.coin(0.4), term = r.coin(0.35);
      auto& e = sh ? shd : d;
      if (sh) e->resize(m.get(), &ext, !term); else e->resize(m.get(), !term);
      const V x = random_x(r, s), u = r.vec(nu), xc = x, uc = u;
      if (term) { m->calc(e, x); m->calcDiff(e, x); } else { m->calc(e, x, u); m->calcDiff(e, x, u); }
      Out o;
      stack(ref, ndx, nu, x, u, term, &o);
      const std::string sfx = term ? ":terminal" : ":running";
      c.check(vf::relerr(e->g, o.g) < 1e-12, "g" + sfx, h);
      c.check(vf::relerr(e->h, o.h) < 1e-12, "h" + sfx, h);
      c.check(vf::relerr(e->Gx, o.Gx) < 1e-10, "Gx" + sfx, h);
      c.check(vf::relerr(e->Hx, o.Hx) < 1e-10, "Hx" + sfx, h);
      if (!term) {
        c.check(vf::relerr(e->Gu, o.Gu) < 1e-10, "Gu", h);
        c.check(vf::relerr(e->Hu, o.Hu) < 1e-10, "Hu", h);
      }
      c.check(vf::same(V(m->get_lb().head(o.lb.size())), o.lb) && vf::same(V(m->get_ub().head(o.ub.size())), o.ub), "bounds" + sfx, h);
      if (sh) c.check(vf::same(ext.g, o.g) && vf::same(ext.h, o.h) && vf::relerr(ext.Gx, o.Gx) < 1e-10 && vf::relerr(ext.Hx, o.Hx) < 1e-10, "shared-memory" + sfx);
      c.check(vf::same(x, xc) && vf::same(u, uc), "inputs-changed");
      c.count(term ? "terminal evaluations" : "running evaluations");
      if (sh) c.count("evaluations in shared memory");
      pending = term;  // the terminal bounds replace the running ones
      h += term ? "T" : "e";
    }
    if (r.coin(0.1)) {
      d->resize(m.get(), true);
      c.check(vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }), "calc:accepts-wrong-x");
      c.check(vf::throws([&] { m->calc(d, s->zero(), V::Zero(nu + 1)); }), "calc:accepts-wrong-u");
      c.check(vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }), "calcDiff:accepts-wrong-x");
      c.check(vf::throws([&] { m->calcDiff(d, s->zero(), V::Zero(nu + 1)); }), "calcDiff:accepts-wrong-u");
      c.check(vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1)); }), "calc:accepts-wrong-x-terminal");
      c.check(vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1)); }), "calcDiff:accepts-wrong-x-terminal");
      Item it = make(r, s, nu);
      it.active = false;
      m->addConstraint("zz", it.con, false);
      c.check(vf::throws([&] { m->calc(d, s->zero(), V::Zero(nu)); }) && vf::throws([&] { m->calcDiff(d, s->zero()); }), "stale-data-accepted");
      m->removeConstraint("zz");
      compare("after add+remove", false);
    }
  }
  c.sig(h);
  if (c.index < 2) c.sample("history " + h);
}
VF_SCENARIO(residual_constraint, 5000, 200000) {
  StateP s = random_dyn_state(r);
  const int ndx = int(s->get_ndx()), nu = r.irange(0, 3), nr = r.irange(1, 4), dep = r.irange(1, 7);
  auto res = std::make_shared<ResNL>(r, s, nr, nu, dep & 1, (dep & 2) != 0, (dep & 4) != 0);
  V lb, ub;
  rbounds(r, nr, &lb, &ub);
  bool ineq = r.coin(0.6), was_ineq = ineq;
  auto con = ineq ? std::make_shared<cr::ConstraintModelResidual>(s, res, lb, ub) : std::make_shared<cr::ConstraintModelResidual>(s, res);
  cr::DataCollectorAbstract coll;
  if (!ineq) { lb = V(); ub = V(); }
  c.check(con->get_T_constraint() == ((dep & 3) != 0), "T_constraint");
  std::string h = ineq ? "i" : "e";
  for (int k = 0; k < 5; ++k) {
    if (was_ineq && r.coin(0.5)) {
      if (r.coin(0.4)) { con->remove_bounds(); ineq = false; h += "r"; c.count("bounds removed"); }
      else { rbounds(r, nr, &lb, &ub); con->update_bounds(lb, ub); ineq = true; h += "u"; c.count("bounds updated"); }
    }
    if (r.coin(0.3) && was_ineq) {  // invalid bounds change nothing
      const V l0 = con->get_lb(), u0 = con->get_ub();
      const auto t0 = con->get_type();
      V l = V::Zero(nr), u = V::Ones(nr);
      const int kind = r.irange(0, 4), i = r.irange(0, nr - 1);
      if (kind == 0) l = V::Zero(nr + 1);
      if (kind == 1) u = V::Ones(nr + 1);
      if (kind == 2) l[i] = 2;
      if (kind == 3) { l[i] = INF; u[i] = INF; }
      if (kind == 4) { u[i] = -INF; l[i] = -INF; }
      c.check(vf::throws([&] { con->update_bounds(l, u); }), "update_bounds:accepts-invalid", VF_STR("kind " << kind));
      c.check(vf::same(con->get_lb(), l0) && vf::same(con->get_ub(), u0) && con->get_type() == t0, "update_bounds:changed-by-rejected");
      c.count("invalid bounds");
    }
    c.check(con->get_ng() == size_t(ineq ? nr : 0) && con->get_nh() == size_t(ineq ? 0 : nr), "constraint-dimensions", h);
    c.check(con->get_type() == (ineq ? cr::ConstraintType::Inequality : cr::ConstraintType::Equality), "constraint-type", h);
    if (ineq) c.check(vf::same(con->get_lb(), lb) && vf::same(con->get_ub(), ub), "constraint-bounds", h);
    auto d = con->createData(&coll);
    const V x = random_x(r, s), u = r.vec(nu);
    const bool term = r.coin(0.3);
    const V uu = term ? V(V::Zero(nu)) : u;
    if (term) { con->calc(d, x); con->calcDiff(d, x); } else { con->calc(d, x, u); con->calcDiff(d, x, u); }
    const V& v = ineq ? d->g : d->h;
    c.check(vf::relerr(v, res->ref(x, uu)) < 1e-12, "constraint-value", h);
    c.check(vf::relerr(ineq ? d->Gx : d->Hx, res->refRx(x, uu)) < 1e-10, "constraint-Rx", h);
    if (!term) c.check(vf::relerr(ineq ? d->Gu : d->Hu, res->refRu(x, uu)) < 1e-10, "constraint-Ru", h);
    c.check((ineq ? d->h : d->g).size() == 0, "constraint-other-kind-empty");
  }
  (void)ndx;
  V l = V::Zero(nr), u = V::Ones(nr);
  const int kind = r.irange(0, 4), i = r.irange(0, nr - 1);
  if (kind == 0) l = V::Zero(nr + 1);
  if (kind == 1) u = V::Ones(std::max(0, nr - 1));
  if (kind == 2) l[i] = 2;
  if (kind == 3) { l[i] = INF; u[i] = INF; }
  if (kind == 4) { u[i] = -INF; l[i] = -INF; }
  c.check(vf::throws([&] { cr::ConstraintModelResidual q(s, res, l, u); }), "constructor:accepts-invalid-bounds", VF_STR("kind " << kind));
  c.check(vf::throws([&] { ConBoth q(res, 2 * nr + 1, 0); }) && vf::throws([&] { ConBoth q(res, 0, nr + 1); }), "constructor:accepts-too-many-constraints");
  c.count("residual constraints");
  c.sig(h + std::to_string(dep) + std::to_string(nr));
}
VF_MAIN("C24")
