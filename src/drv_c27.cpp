// C27: evaluations are pure. Random histories over several datas of one model (and of
// copies of it); every data always holds what a new data would hold for its last point.
#include "gen3.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
using namespace gen;
using vf::Ctx;
namespace {
struct Pt { V x, u; bool term = false; };
struct Flat {
  std::vector<double> v;
  void operator()(double a) { v.push_back(a); }
  template <class D> void operator()(const Eigen::MatrixBase<D>& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) v.push_back(double(m(i, j))); }
};
typedef std::shared_ptr<void> Any;
struct Probe {
  std::string kind;
  std::function<Any()> create;
  std::function<void(const Any&, const Pt&)> calc, diff;
  std::function<void(const Any&, bool term, bool deriv, Flat&)> out;
  std::function<void(const Any&, const Pt&, Flat&)> extra;  // quasiStatic, commands, ...
  std::function<Pt(Rng&)> point;
  std::vector<std::pair<const char*, std::function<void(Rng&)>>> change;
  std::function<Probe()> copy;
  std::function<void(Flat&)> attributes;
  double tol = 1e-13;
};
std::vector<double> values(const Probe& m, const Any& d, bool term, bool deriv) { Flat f; m.out(d, term, deriv, f); return f.v; }
double gap(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return 1e300;
  double e = 0, s = 1;
  for (size_t i = 0; i < a.size(); ++i) {
    if (std::isnan(a[i]) && std::isnan(b[i])) continue;
    if (a[i] == b[i]) continue;
    if (!std::isfinite(a[i]) || !std::isfinite(b[i])) return 1e300;
    e = std::max(e, std::abs(a[i] - b[i])); s = std::max(s, std::abs(a[i]));
  }
  return e / s;
}
std::vector<double> fresh(const Probe& m, const Pt& p, bool deriv) {
  Any d = m.create();
  m.calc(d, p);
  if (deriv) m.diff(d, p);
  return values(m, d, p.term, deriv);
}
V hostile(Rng& r, V x) {
  const double bad[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e200, -1e160, 0.};
  if (!x.size()) return x;
  const double b = bad[r.irange(0, 4)];
  if (r.coin()) x.setConstant(b); else x[r.irange(0, int(x.size()) - 1)] = b;
  return x;
}

// user models that leave the terminal functions to the base classes
class ActPlain : public ActNL {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ActionModelBase, ActPlain)
  using ActNL::ActNL;
  using ActNL::calc;
  using ActNL::calcDiff;
  void calc(const ActDP& d, const CRef& x) override { cr::ActionModelAbstract::calc(d, x); }
  void calcDiff(const ActDP& d, const CRef& x) override { cr::ActionModelAbstract::calcDiff(d, x); }
};
class DiffPlain : public DiffNL {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::DifferentialActionModelBase, DiffPlain)
  using DiffNL::DiffNL;
  using DiffNL::calc;
  using DiffNL::calcDiff;
  void calc(const DP& d, const CRef& x) override { cr::DifferentialActionModelAbstract::calc(d, x); }
  void calcDiff(const DP& d, const CRef& x) override { cr::DifferentialActionModelAbstract::calcDiff(d, x); }
};

// ---- probes -----------------------------------------------------------------------
std::function<Pt(Rng&)> points(const StateP& s, int nu, bool allow_term = true) {
  return [=](Rng& r) { Pt p; p.x = random_x(r, s, r.pick({0.3, 1.})); p.u = r.vec(nu, r.pick({0.3, 1., 3.})); p.term = allow_term && r.coin(0.3); return p; };
}
template <class Mo, class Da> void link(Probe& p, const std::shared_ptr<Mo>& m) {
  p.create = [m] { return std::static_pointer_cast<void>(m->createData()); };
  p.calc = [m](const Any& d, const Pt& q) { auto t = std::static_pointer_cast<Da>(d); if (q.term) m->calc(t, q.x); else m->calc(t, q.x, q.u); };
  p.diff = [m](const Any& d, const Pt& q) { auto t = std::static_pointer_cast<Da>(d); if (q.term) m->calcDiff(t, q.x); else m->calcDiff(t, q.x, q.u); };
}
template <class Da, class Mo> void action_out(Probe& p, const std::shared_ptr<Mo>& m, const std::function<const V&(const Da&)>& nxt) {
  p.out = [m, nxt](const Any& a, bool term, bool deriv, Flat& f) {
    auto d = std::static_pointer_cast<Da>(a);
    const int ng = int(term ? m->get_ng_T() : m->get_ng()), nh = int(term ? m->get_nh_T() : m->get_nh());
    f(d->cost);
    f(d->g.head(ng)); f(d->h.head(nh));
    if (!term) { f(nxt(*d)); f(d->r); }
    if (!deriv) return;
    f(d->Lx); f(d->Lxx); f(d->Gx.topRows(ng)); f(d->Hx.topRows(nh));
    if (!term) { f(d->Fx); f(d->Fu); f(d->Lu); f(d->Lxu); f(d->Luu); f(d->Gu.topRows(ng)); f(d->Hu.topRows(nh)); }
  };
  p.attributes = [m](Flat& f) {
    f(double(m->get_nu())); f(double(m->get_nr())); f(double(m->get_ng())); f(double(m->get_nh())); f(double(m->get_ng_T())); f(double(m->get_nh_T()));
    f(m->get_g_lb()); f(m->get_g_ub()); f(m->get_u_lb()); f(m->get_u_ub()); f(double(m->get_has_control_limits()));
    f(m->get_state()->get_lb()); f(m->get_state()->get_ub());
  };
  p.extra = [m](const Any& a, const Pt& q, Flat& f) {
    auto d = std::static_pointer_cast<Da>(a);
    V x = q.x, u = V::Zero(m->get_nu());
    x.tail(m->get_state()->get_nv()).setZero();
    m->quasiStatic(d, u, x, 5, 1e-9);
    f(u);
  };
}
Probe action_probe(const ActP& m, const std::string& kind, const std::function<ActP()>& copy);
Probe diff_probe(const DiffP& m, const std::string& kind, const std::function<DiffP()>& copy) {
  Probe p;
  p.kind = kind;
  link<cr::DifferentialActionModelAbstract, cr::DifferentialActionDataAbstract>(p, m);
  action_out<cr::DifferentialActionDataAbstract>(p, m, [](const cr::DifferentialActionDataAbstract& d) -> const V& { return d.xout; });
  p.point = points(m->get_state(), int(m->get_nu()));
  if (copy) p.copy = [=] { return diff_probe(copy(), kind, copy); };
  p.change.push_back({"limits", [m](Rng& r) { V lb(m->get_nu()), ub(m->get_nu()); for (int i = 0; i < lb.size(); ++i) { lb[i] = -r.uni(0.1, 2); ub[i] = r.uni(0.1, 2); } m->set_u_lb(lb); m->set_u_ub(ub); }});
  if (auto l = std::dynamic_pointer_cast<cr::DifferentialActionModelLQR>(m))
    p.change.push_back({"set_LQR", [l](Rng& r) {
      auto n = random_difflqr(r, int(l->get_state()->get_nv()), int(l->get_nu()), int(l->get_ng()), int(l->get_nh()));
      l->set_LQR(n->get_Aq(), n->get_Av(), n->get_B(), n->get_Q(), n->get_R(), n->get_N(), n->get_G(), n->get_H(), n->get_f(), n->get_q(), n->get_r(), n->get_g(), n->get_h());
    }});
  if (auto l = std::dynamic_pointer_cast<DiffSum>(m)) {
    p.change.push_back({"weight", [l](Rng& r) { for (auto& c : l->costs_->get_costs()) if (r.coin()) c.second->weight = r.uni(0.1, 2); }});
    p.change.push_back({"status", [l](Rng& r) { for (auto& c : l->costs_->get_costs()) if (r.coin(0.4)) l->costs_->changeCostStatus(c.first, r.coin()); }});
    p.change.push_back({"reference", [l](Rng& r) {
      for (auto& c : l->costs_->get_costs()) {
        auto res = c.second->cost->get_residual();
        if (auto e = std::dynamic_pointer_cast<cr::ResidualModelControl>(res)) e->set_reference(r.vec(int(e->get_nr())));
        if (auto e = std::dynamic_pointer_cast<cr::ResidualModelJointEffort>(res)) e->set_reference(r.vec(int(e->get_nr())));
        if (auto e = std::dynamic_pointer_cast<cr::ResidualModelJointAcceleration>(res)) e->set_reference(r.vec(int(e->get_nr())));
      }
    }});
    if (l->cons_) p.change.push_back({"cstatus", [l](Rng& r) { for (auto& c : l->cons_->get_constraints()) if (r.coin(0.4)) l->cons_->changeConstraintStatus(c.first, r.coin()); }});
  }
  if (auto l = std::dynamic_pointer_cast<cr::DifferentialActionModelNumDiff>(m)) { p.tol = 1e-8; p.change.push_back({"disturbance", [l](Rng& r) { l->set_disturbance(r.logu(1e-8, 1e-5)); }}); }
  return p;
}
Probe action_probe(const ActP& m, const std::string& kind, const std::function<ActP()>& copy) {
  Probe p;
  p.kind = kind;
  link<cr::ActionModelAbstract, cr::ActionDataAbstract>(p, m);
  action_out<cr::ActionDataAbstract>(p, m, [](const cr::ActionDataAbstract& d) -> const V& { return d.xnext; });
  p.point = points(m->get_state(), int(m->get_nu()));
  if (copy) p.copy = [=] { return action_probe(copy(), kind, copy); };
  p.change.push_back({"limits", [m](Rng& r) { V lb(m->get_nu()), ub(m->get_nu()); for (int i = 0; i < lb.size(); ++i) { lb[i] = -r.uni(0.1, 2); ub[i] = r.uni(0.1, 2); } m->set_u_lb(lb); m->set_u_ub(ub); }});
  if (auto l = std::dynamic_pointer_cast<cr::ActionModelLQR>(m))
    p.change.push_back({"set_LQR", [l](Rng& r) {
      auto n = random_lqr(r, int(l->get_state()->get_nx()), int(l->get_nu()), int(l->get_ng()), int(l->get_nh()));
      l->set_LQR(n->get_A(), n->get_B(), n->get_Q(), n->get_R(), n->get_N(), n->get_G(), n->get_H(), n->get_f(), n->get_q(), n->get_r(), n->get_g(), n->get_h());
    }});
  if (auto l = std::dynamic_pointer_cast<cr::ActionModelUnicycle>(m)) {
    p.change.push_back({"dt", [l](Rng& r) { l->set_dt(r.uni(0.01, 0.5)); }});
    p.change.push_back({"weights", [l](Rng& r) { l->set_cost_weights(Eigen::Vector2d(r.uni(0.1, 3), r.uni(0.1, 3))); }});
  }
  if (auto l = std::dynamic_pointer_cast<cr::IntegratedActionModelAbstract>(m)) {
    p.change.push_back({"dt", [l](Rng& r) { l->set_dt(r.pick({0., 0.01, 0.2})); }});
    if (auto s = std::dynamic_pointer_cast<DiffSum>(l->get_differential())) {
      p.change.push_back({"status", [s](Rng& r) { for (auto& c : s->costs_->get_costs()) if (r.coin(0.4)) s->costs_->changeCostStatus(c.first, r.coin()); }});
      if (s->cons_) p.change.push_back({"cstatus", [s](Rng& r) { for (auto& c : s->cons_->get_constraints()) if (r.coin(0.4)) s->cons_->changeConstraintStatus(c.first, r.coin()); }});
    }
  }
  if (auto l = std::dynamic_pointer_cast<cr::ActionModelNumDiff>(m)) { p.tol = 1e-8; p.change.push_back({"disturbance", [l](Rng& r) { l->set_disturbance(r.logu(1e-8, 1e-5)); }}); }
  return p;
}
template <class T, class B> std::function<std::shared_ptr<B>()> copier(const std::shared_ptr<B>& m) {
  auto t = std::dynamic_pointer_cast<T>(m);
  if (!t) return nullptr;
  return [t] { return std::shared_ptr<B>(std::allocate_shared<T>(Eigen::aligned_allocator<T>(), *t)); };
}
std::function<DiffP()> copy_diff(const DiffP& m) {
  if (auto c = copier<cr::DifferentialActionModelLQR>(m)) return c;
  if (auto c = copier<cr::DifferentialActionModelNumDiff>(m)) return c;
  if (auto c = copier<DiffPlain>(m)) return c;
  if (auto c = copier<DiffNL>(m)) return c;
  return copier<DiffSum>(m);
}
std::function<ActP()> copy_action(const ActP& m) {
  if (auto c = copier<cr::ActionModelLQR>(m)) return c;
  if (auto c = copier<cr::ActionModelUnicycle>(m)) return c;
  if (auto c = copier<cr::ActionModelNumDiff>(m)) return c;
  if (auto c = copier<cr::IntegratedActionModelEuler>(m)) return c;
  if (auto c = copier<cr::IntegratedActionModelRK>(m)) return c;
  if (auto c = copier<ActPlain>(m)) return c;
  return copier<ActNL>(m);
}

// ---- the monitor --------------------------------------------------------------------
void history(Ctx& c, Rng& r, const Probe& m, int steps) {
  struct Slot { Any d; int st = 0; Pt p; std::vector<double> ref; };  // st: 0 nothing known, 1 values, 2 values and derivatives
  std::vector<Slot> s(r.irange(2, 3));
  for (auto& k : s) k.d = m.create();
  std::string log;
  auto fail_key = [&](const char* what) { return std::string(what) + ":" + m.kind.substr(0, m.kind.find('/')); };
  const Pt p0 = m.point(r);
  std::vector<double> r0 = fresh(m, p0, true);
  auto compare = [&](size_t i, const char* what) {
    Slot& k = s[i];
    if (!k.st) return;
    const std::vector<double> v = values(m, k.d, k.p.term, k.st == 2);
    const double e = gap(k.ref, v);
    c.check(e <= m.tol, fail_key(what), VF_STR(m.kind << " data " << i << (k.p.term ? " terminal" : " running") << " differs by " << e << " after " << log));
    if (e < 1e290) c.maxi("difference", e);
    c.count("datas compared");
  };
  auto eval = [&](size_t i, const Pt& p, bool deriv) {
    Slot& k = s[i];
    const bool before = r.coin();
    std::vector<double> ref;
    if (before) ref = fresh(m, p, deriv);
    const Pt q = p;
    m.calc(k.d, q);
    if (deriv) m.diff(k.d, q);
    c.check(vf::same(q.x, p.x) && vf::same(q.u, p.u), fail_key("inputs-changed"), VF_STR(log));
    if (!before) ref = fresh(m, p, deriv);
    k.st = deriv ? 2 : 1; k.p = p; k.ref = ref;
    compare(i, "depends-on-history");
  };
  bool changed = false;
  for (int t = 0; t < steps; ++t) {
    const size_t i = size_t(r.irange(0, int(s.size()) - 1));
    const int op = r.irange(0, 11);
    switch (op) {
      case 0: log += "c" + std::to_string(i); { const Pt p = m.point(r); eval(i, p, false); } c.count("op calc"); break;
      case 1: case 2: case 3: log += "d" + std::to_string(i); { const Pt p = m.point(r); log += p.term ? "T" : "r"; eval(i, p, true); } c.count("op calcDiff"); break;
      case 4: {  // once more at the same point
        Slot& k = s[i];
        if (!k.st) break;
        log += "a" + std::to_string(i);
        if (r.coin()) m.calc(k.d, k.p);
        m.diff(k.d, k.p);
        if (r.coin()) m.diff(k.d, k.p);
        k.ref = fresh(m, k.p, true); k.st = 2;
        compare(i, "not-idempotent");
        c.count("op again");
        break;
      }
      case 5: {  // evaluations at values that are not numbers leave no trace
        log += "h" + std::to_string(i);
        Pt p = m.point(r);
        if (r.coin(0.7)) p.x = hostile(r, p.x);
        if (r.coin(0.7)) p.u = hostile(r, p.u);
        try { m.calc(s[i].d, p); m.diff(s[i].d, p); c.count("op hostile"); } catch (const std::exception&) { c.count("op hostile, refused"); }
        s[i].st = 0;
        break;
      }
      case 6: {
        if (m.change.empty() || r.coin(0.5)) break;
        const auto& f = r.pick(m.change);
        log += std::string("[") + f.first + "]";
        f.second(r);
        for (auto& k : s) k.st = 0;
        changed = true;
        c.count(std::string("change ") + f.first);
        break;
      }
      case 7: {  // a copy evaluates like the original and disturbs nothing
        if (!m.copy) break;
        log += "C";
        Probe q = m.copy();
        const Pt p = m.point(r);
        const std::vector<double> a = fresh(m, p, true);
        Flat am, aq;
        m.attributes(am); q.attributes(aq);
        c.check(am.v.size() == aq.v.size() && gap(am.v, aq.v) == 0, fail_key("copy-attributes"), VF_STR(m.kind << " dimensions, bounds or limits differ after " << log));
        Any d = q.create();
        const Pt o = q.point(r);
        q.calc(d, o); q.diff(d, o);
        q.calc(d, p); q.diff(d, p);
        const double e = gap(a, values(q, d, p.term, true));
        c.check(e <= m.tol, fail_key("copy-differs"), VF_STR(m.kind << (p.term ? " terminal" : " running") << " differs by " << e << " after " << log));
        c.count("op copy");
        break;
      }
      case 8: log += "n" + std::to_string(i); s[i].d = m.create(); s[i].st = 0; c.count("op new data"); break;
      case 9: {
        if (!m.extra) break;
        log += "q" + std::to_string(i);
        const Pt p = m.point(r);
        Any d = m.create();
        Flat a, b;
        m.extra(d, p, a);
        m.extra(s[i].d, p, b);
        const double e = gap(a.v, b.v);
        c.check(e <= 1e-6, fail_key("extra-depends-on-history"), VF_STR(m.kind << " differs by " << e << " after " << log));
        s[i].st = 0;
        c.count("op extra");
        break;
      }
      case 10: {  // values on one data, something else on another, then the derivatives of the first
        Slot& k = s[i];
        const size_t j = (i + 1) % s.size();
        log += "s" + std::to_string(i);
        const Pt p = m.point(r), o = m.point(r);
        m.calc(k.d, p);
        eval(j, o, r.coin());
        m.diff(k.d, p);
        k.st = 2; k.p = p; k.ref = fresh(m, p, true);
        compare(i, "datas-interfere");
        c.count("op split");
        break;
      }
      default: {  // the reference point
        if (changed) break;
        log += "0";
        eval(i, p0, true);
        c.check(gap(r0, s[i].ref) <= m.tol, fail_key("model-changed"), VF_STR(m.kind << " after " << log));
        c.count("op reference");
      }
    }
    for (size_t j = 0; j < s.size(); ++j) compare(j, "datas-interfere");
  }
  c.sig(m.kind + log.substr(0, 12));
  c.count("histories of " + m.kind.substr(0, m.kind.find('/')));
  if (c.index < 2) c.sample(m.kind + " " + log);
}
}  // namespace

VF_SCENARIO(actions, 2400, 60000) {
  const bool dyn = r.coin(0.6);
  const StateP s = dyn ? random_dyn_state(r) : r.coin(0.3) ? StateP(std::make_shared<StateSO3>(r.irange(0, 1))) : StateP(std::make_shared<cr::StateVector>(r.coin(0.3) ? 3 : r.irange(1, 6)));
  std::string k;
  ActP m;
  const int what = r.irange(0, 3);
  if (dyn && what < 2) {
    const int nact = r.irange(1, int(s->get_nv())), ik = r.pick({0, 2, 3, 4}), ck = r.irange(0, 3);
    DiffP d = r.coin(0.7) ? DiffP(random_diffsum(r, s, nact, r.coin(0.4), true)) : any_diff(r, s, nact, r.coin());
    m = make_integrated(d, make_control(ck, nact), ik, r.pick({0., 0.01, 0.1}), r.coin());
    k = ik ? "rk" : "euler";
    k += "/" + std::to_string(ik) + std::to_string(ck);
  } else {
    m = any_action(r, s, r.pick({1, 2, 2, 3, 6}), &k, r.coin());
    if (k == "nl" && r.coin(0.4)) { ActOpt a; a.nu = r.irange(1, 3); a.ng = a.ngT = r.irange(0, 1); a.nh = a.nhT = r.irange(0, 1); m = std::make_shared<ActPlain>(r, s, a); k = "plain"; }
    k = k.substr(0, 3) == "int" ? (k[3] == '0' ? "euler/x" : "rk/x") + k : k;
  }
  if (what == 2) { m = std::make_shared<cr::ActionModelNumDiff>(m, r.coin()); k = "numdiff/" + k; }
  history(c, r, action_probe(m, "action-" + k, copy_action(m)), r.irange(6, 14));
}
VF_SCENARIO(differential, 1200, 30000) {
  const StateP s = random_dyn_state(r);
  const int what = r.irange(0, 3), nact = r.irange(1, int(s->get_nv()));
  DiffP m = what < 2 ? DiffP(random_diffsum(r, s, nact, r.coin(), true)) : any_diff(r, s, nact, r.coin());
  std::string k = what < 2 ? "sum" : std::dynamic_pointer_cast<DiffNL>(m) ? "nl" : "lqr";
  if (k == "nl" && r.coin()) { ActOpt a; a.nu = nact; m = std::make_shared<DiffPlain>(r, s, a); k = "plain"; }
  if (what == 3 || (what == 0 && r.coin(0.3))) { m = std::make_shared<cr::DifferentialActionModelNumDiff>(m, r.coin()); k = "numdiff/" + k; }
  history(c, r, diff_probe(m, "diff-" + k, copy_diff(m)), r.irange(6, 14));
}
VF_SCENARIO(activations, 1500, 30000) {
  const int n = r.irange(1, 6), k = r.irange(0, NACTV - 1);
  Actv a = make_actv(r, n, k);
  ActvP m = a.m;
  Probe p;
  p.kind = "activation-" + a.ref.kind;
  if (r.coin(0.2) && k != 6 && k != 7) { m = std::make_shared<cr::ActivationModelNumDiff>(m); p.kind = "activation-numdiff/" + a.ref.kind; p.tol = 1e-8; }
  p.create = [m] { return std::static_pointer_cast<void>(m->createData()); };
  p.calc = [m](const Any& d, const Pt& q) { m->calc(std::static_pointer_cast<cr::ActivationDataAbstract>(d), q.x); };
  p.diff = [m](const Any& d, const Pt& q) { m->calcDiff(std::static_pointer_cast<cr::ActivationDataAbstract>(d), q.x); };
  p.out = [](const Any& a, bool, bool deriv, Flat& f) { auto d = std::static_pointer_cast<cr::ActivationDataAbstract>(a); f(d->a_value); if (deriv) { f(d->Ar); f(V(d->Arr.diagonal())); } };
  p.point = [n](Rng& r) { Pt q; q.x = r.vec(n, r.pick({0.3, 1., 3.})); return q; };
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModelWeightedQuad>(m)) p.change.push_back({"weights", [w, n](Rng& r) { w->set_weights(r.vec(n).cwiseAbs()); }});
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModelQuadFlatExp>(m)) p.change.push_back({"alpha", [w](Rng& r) { w->set_alpha(r.uni(0.5, 3)); }});
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModelQuadFlatLog>(m)) p.change.push_back({"alpha", [w](Rng& r) { w->set_alpha(r.uni(0.5, 3)); }});
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModel2NormBarrier>(m)) p.change.push_back({"alpha", [w](Rng& r) { w->set_alpha(r.uni(0.5, 3)); }});
  auto bounds = [n](Rng& r) { V lo, up; random_bounds(r, n, &lo, &up); return cr::ActivationBounds(lo, up, r.pick({1., 0.5})); };
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModelQuadraticBarrier>(m)) p.change.push_back({"bounds", [w, bounds](Rng& r) { w->set_bounds(bounds(r)); }});
  if (auto w = std::dynamic_pointer_cast<cr::ActivationModelWeightedQuadraticBarrier>(m)) {
    p.change.push_back({"bounds", [w, bounds](Rng& r) { w->set_bounds(bounds(r)); }});
    p.change.push_back({"weights", [w, n](Rng& r) { w->set_weights(r.vec(n).cwiseAbs()); }});
  }
  history(c, r, p, r.irange(6, 14));
}

namespace {
struct Bundle {  // a data together with what it refers to
  std::shared_ptr<cr::ActuationDataAbstract> act;
  std::shared_ptr<cr::JointDataAbstract> joint;
  std::shared_ptr<cr::DataCollectorAbstract> coll;
  Any d;
};
struct World { StateP s; int nu; ActuP a; };
World world(Rng& r) { World w; w.s = random_dyn_state(r); w.nu = r.irange(1, int(w.s->get_nv())); w.a = std::make_shared<ActuNL>(r, w.s, w.nu, 0.3, 0.5); return w; }
// the joint data is a function of the point: what the dynamics would leave there
void joints(const World& w, Bundle& b, const Pt& p) {
  const V u = p.term ? V(V::Zero(w.nu)) : p.u;
  w.a->calc(b.act, p.x, u);
  w.a->calcDiff(b.act, p.x, u);
  b.joint->tau = u; b.joint->a = b.act->tau * 0.7;
  b.joint->da_dx = 0.7 * b.act->dtau_dx; b.joint->da_du = 0.7 * b.act->dtau_du;
  b.joint->dtau_dx.setZero(); b.joint->dtau_du.setIdentity();
}
template <class Da, class Mo> Probe bundled(const World& w, const std::shared_ptr<Mo>& m, const std::string& kind) {
  Probe p;
  p.kind = kind;
  p.create = [=] {
    auto b = std::make_shared<Bundle>();
    b->act = w.a->createData();
    b->joint = std::make_shared<cr::JointDataAbstract>(w.s, w.a, w.nu);
    b->coll = std::make_shared<JointActuation>(b->act, b->joint);
    b->d = m->createData(b->coll.get());
    return std::static_pointer_cast<void>(b);
  };
  p.calc = [=](const Any& a, const Pt& q) { auto b = std::static_pointer_cast<Bundle>(a); joints(w, *b, q); auto d = std::static_pointer_cast<Da>(b->d); if (q.term) m->calc(d, q.x); else m->calc(d, q.x, q.u); };
  p.diff = [=](const Any& a, const Pt& q) { auto b = std::static_pointer_cast<Bundle>(a); joints(w, *b, q); auto d = std::static_pointer_cast<Da>(b->d); if (q.term) m->calcDiff(d, q.x); else m->calcDiff(d, q.x, q.u); };
  p.point = points(w.s, w.nu);
  return p;
}
ResP any_residual(Rng& r, const World& w, std::string& k) {
  switch (r.irange(0, 4)) {
    case 0: k = "control"; return std::make_shared<cr::ResidualModelControl>(w.s, r.vec(w.nu));
    case 1: k = "effort"; return std::make_shared<cr::ResidualModelJointEffort>(w.s, w.a, r.vec(w.nu), w.nu, r.coin());
    case 2: k = "acceleration"; return std::make_shared<cr::ResidualModelJointAcceleration>(w.s, r.vec(int(w.s->get_nv())), w.nu);
    default: k = "user"; return std::make_shared<ResNL>(r, w.s, r.irange(1, 4), w.nu, r.coin(0.8), r.coin(0.8), r.coin(0.6));
  }
}
void reference_change(Probe& p, const ResP& res) {
  if (auto e = std::dynamic_pointer_cast<cr::ResidualModelControl>(res)) p.change.push_back({"reference", [e](Rng& r) { e->set_reference(r.vec(int(e->get_nr()))); }});
  if (auto e = std::dynamic_pointer_cast<cr::ResidualModelJointEffort>(res)) p.change.push_back({"reference", [e](Rng& r) { e->set_reference(r.vec(int(e->get_nr()))); }});
  if (auto e = std::dynamic_pointer_cast<cr::ResidualModelJointAcceleration>(res)) p.change.push_back({"reference", [e](Rng& r) { e->set_reference(r.vec(int(e->get_nr()))); }});
}
}  // namespace

VF_SCENARIO(residuals, 900, 20000) {
  const World w = world(r);
  std::string k;
  ResP m = any_residual(r, w, k);
  Probe p = bundled<cr::ResidualDataAbstract>(w, m, "residual-" + k);
  p.out = [](const Any& a, bool term, bool deriv, Flat& f) {
    auto d = std::static_pointer_cast<cr::ResidualDataAbstract>(std::static_pointer_cast<Bundle>(a)->d);
    f(d->r); if (deriv) { f(d->Rx); if (!term) f(d->Ru); }
  };
  reference_change(p, m);
  history(c, r, p, r.irange(6, 14));
}
VF_SCENARIO(costs, 1500, 30000) {
  const World w = world(r);
  std::string k;
  auto one = [&] { std::string q; ResP res = any_residual(r, w, q); k += q[0]; return std::make_shared<cr::CostModelResidual>(w.s, make_actv(r, int(res->get_nr()), r.irange(0, NACTV - 1)).m, res); };
  auto out = [](const Any& a, bool term, bool deriv, Flat& f) {
    auto d = std::static_pointer_cast<cr::CostDataAbstract>(std::static_pointer_cast<Bundle>(a)->d);
    f(d->cost); if (deriv) { f(d->Lx); f(d->Lxx); if (!term) { f(d->Lu); f(d->Lxu); f(d->Luu); } }
  };
  if (r.coin(0.4)) {
    auto m = one();
    Probe p = bundled<cr::CostDataAbstract, cr::CostModelAbstract>(w, m, "cost-residual/" + k);
    p.out = out;
    reference_change(p, m->get_residual());
    history(c, r, p, r.irange(6, 14));
  } else if (r.coin(0.2)) {
    auto m = std::make_shared<cr::CostModelNumDiff>(std::make_shared<cr::CostModelResidual>(w.s, std::make_shared<ResNL>(r, w.s, r.irange(1, 4), w.nu, true, true, true)));
    Probe p = bundled<cr::CostDataAbstract, cr::CostModelAbstract>(w, m, "cost-numdiff");
    p.out = out;
    p.tol = 1e-8;
    history(c, r, p, r.irange(6, 14));
  } else {
    auto m = std::make_shared<cr::CostModelSum>(w.s, w.nu);
    const int n = r.irange(1, 4);
    for (int i = 0; i < n; ++i) m->addCost("c" + std::to_string(i), one(), r.uni(0.1, 3), r.coin(0.8));
    Probe p = bundled<cr::CostDataSum>(w, m, "cost-sum/" + k);
    p.out = [](const Any& a, bool term, bool deriv, Flat& f) {
      auto d = std::static_pointer_cast<cr::CostDataSum>(std::static_pointer_cast<Bundle>(a)->d);
      f(d->cost); if (deriv) { f(d->get_Lx()); f(d->get_Lxx()); if (!term) { f(d->get_Lu()); f(d->get_Lxu()); f(d->get_Luu()); } }
    };
    p.change.push_back({"weight", [m](Rng& r) { for (auto& c : m->get_costs()) if (r.coin()) c.second->weight = r.uni(0.1, 2); }});
    p.change.push_back({"status", [m](Rng& r) { for (auto& c : m->get_costs()) if (r.coin(0.4)) m->changeCostStatus(c.first, r.coin()); }});
    history(c, r, p, r.irange(6, 14));
  }
}
VF_SCENARIO(constraints, 900, 20000) {
  const World w = world(r);
  std::string k;
  auto one = [&](bool T) {
    std::string q;
    ResP res = any_residual(r, w, q);
    k += q[0];
    const int nr = int(res->get_nr());
    const V lo = r.vec(nr), up = lo.array() + r.uni(0.1, 2);
    return r.coin() ? std::make_shared<cr::ConstraintModelResidual>(w.s, res, T) : std::make_shared<cr::ConstraintModelResidual>(w.s, res, lo, up, T);
  };
  auto m = one(true);
  Probe p = bundled<cr::ConstraintDataAbstract, cr::ConstraintModelAbstract>(w, m, "constraint-residual/" + k);
  p.out = [m](const Any& a, bool term, bool deriv, Flat& f) {
    auto d = std::static_pointer_cast<cr::ConstraintDataAbstract>(std::static_pointer_cast<Bundle>(a)->d);
    f(d->g); f(d->h); if (deriv) { f(d->Gx); f(d->Hx); if (!term) { f(d->Gu); f(d->Hu); } }
  };
  reference_change(p, m->get_residual());
  history(c, r, p, r.irange(6, 14));
}
VF_SCENARIO(actuations, 900, 20000) {
  const StateP s = random_dyn_state(r);
  const int nu = r.irange(1, int(s->get_nv()));
  Probe p;
  ActuP m = std::make_shared<ActuNL>(r, s, nu, 0.3, 0.5);
  p.kind = "actuation-user";
  const int what = r.irange(0, 2);
  std::shared_ptr<cr::SquashingModelSmoothSatTpl<double>> sat;
  if (what == 0) {
    V lb(nu), ub(nu);
    for (int i = 0; i < nu; ++i) { lb[i] = r.uni(-4, -1); ub[i] = r.uni(1, 4); }
    sat = std::make_shared<cr::SquashingModelSmoothSatTpl<double>>(lb, ub, nu);
    m = std::make_shared<cr::ActuationSquashingModelTpl<double>>(m, sat, nu);
    p.kind = "actuation-squashing";
    p.change.push_back({"smooth", [sat](Rng& r) { sat->set_smooth(r.uni(0.05, 0.5)); }});
  } else if (what == 1) { m = std::make_shared<cr::ActuationModelNumDiff>(m); p.kind = "actuation-numdiff"; p.tol = 1e-8; }
  typedef cr::ActuationDataAbstract Da;
  p.create = [m] { return std::static_pointer_cast<void>(m->createData()); };
  p.calc = [m](const Any& d, const Pt& q) { m->calc(std::static_pointer_cast<Da>(d), q.x, q.u); };
  p.diff = [m](const Any& d, const Pt& q) { m->calcDiff(std::static_pointer_cast<Da>(d), q.x, q.u); };
  p.out = [](const Any& a, bool, bool deriv, Flat& f) { auto d = std::static_pointer_cast<Da>(a); f(d->tau); if (deriv) { f(d->dtau_dx); f(d->dtau_du); } };
  if (what) p.extra = [m, what](const Any& a, const Pt& q, Flat& f) {
    auto d = std::static_pointer_cast<Da>(a);
    V tau = V::Constant(m->get_state()->get_nv(), 0.3);
    m->commands(d, q.x, tau); f(d->u);
    if (what == 2) { m->calc(d, q.x, q.u); m->calcDiff(d, q.x, q.u); m->torqueTransform(d, q.x, q.u); f(d->Mtau); }
  };
  p.point = points(s, nu, false);
  history(c, r, p, r.irange(6, 14));
}
VF_SCENARIO(parametrizations, 600, 15000) {
  const int nw = r.irange(1, 4), k = r.irange(0, 3);
  CtrlP m = make_control(k, nw);
  Probe p;
  p.kind = "control-" + std::to_string(k);
  if (r.coin(0.2)) { m = std::make_shared<cr::ControlParametrizationModelNumDiff>(m); p.kind = "control-numdiff"; p.tol = 1e-8; }
  typedef cr::ControlParametrizationDataAbstract Da;
  const int nu = int(m->get_nu());
  p.create = [m] { return std::static_pointer_cast<void>(m->createData()); };
  p.calc = [m](const Any& d, const Pt& q) { m->calc(std::static_pointer_cast<Da>(d), q.x[0], q.u); };
  p.diff = [m](const Any& d, const Pt& q) { m->calcDiff(std::static_pointer_cast<Da>(d), q.x[0], q.u); };
  p.out = [](const Any& a, bool, bool deriv, Flat& f) { auto d = std::static_pointer_cast<Da>(a); f(d->w); if (deriv) f(d->dw_du); };
  p.extra = [m, nw, nu](const Any& a, const Pt& q, Flat& f) {
    auto d = std::static_pointer_cast<Da>(a);
    m->calc(d, q.x[0], q.u); m->calcDiff(d, q.x[0], q.u);
    const M A = M::Constant(2, nw, 0.5) + M::Identity(2, nw), B = M::Constant(nw, 3, -0.5) + M::Identity(nw, 3);
    M X = M::Ones(2, nu), Y = M::Ones(nu, 3);
    m->multiplyByJacobian(d, A, X, cr::setto); f(X);
    m->multiplyByJacobian(d, A, X, cr::addto); f(X);
    m->multiplyJacobianTransposeBy(d, B, Y, cr::setto); f(Y);
    m->multiplyJacobianTransposeBy(d, B, Y, cr::addto); f(Y);
  };
  p.point = [nu](Rng& r) { Pt q; q.x = V::Constant(1, r.pick({0., 0.5, 1., r.uni(0, 1)})); q.u = r.vec(nu); return q; };
  history(c, r, p, r.irange(6, 14));
}
VF_MAIN("C27")
