// C26: finite-difference models against the analytic models they wrap
#include "gen2.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
using namespace gen;
using vf::Ctx;
static const double EPS = std::numeric_limits<double>::epsilon();

// A step in the admissible range: sometimes the default one
template <class Mo>
static double step(Rng& r, const Mo& m, Ctx& c) {
  double e = std::sqrt(2 * EPS);
  c.check(std::abs(m->get_disturbance() - e) < 1e-12, "default-disturbance");
  if (r.coin(0.6)) {
    e = r.logu(3e-9, 1e-5);
    m->set_disturbance(e);
    c.check(m->get_disturbance() == e, "set_disturbance");
    c.count("chosen steps");
  }
  return e;
}
// error of a first-order forward difference: curv bounds the second derivative, val the magnitude of the value
static double jtol(double e, double nx, double curv, double val) {
  const double h = e * std::max(1., nx);
  return 4 * (curv + 1) * h + 500 * EPS * (1 + val) / (e);
}
static double htol(double e, double nx, double third, double val) {
  const double h = std::sqrt(2 * e) * std::max(1., nx), lo = std::sqrt(2 * e);
  return 4 * (third + 1) * h + 500 * EPS * (1 + val) / (lo * lo);
}
template <class A, class B>
static double gap(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || !vf::finite(a)) return 1e300;
  return a.size() ? (a - b).cwiseAbs().maxCoeff() : 0.;
}
#define NEAR(a, b, tol, key)                                                                             \
  do {                                                                                                   \
    const double g_ = gap(a, b), t_ = tol;                                                               \
    if (g_ < 1e290) c.maxi(std::string("err/tol ") + std::string(key), g_ / t_); \
    c.check(g_ <= t_, std::string(key), VF_STR("error " << g_ << " tol " << t_ << "\n" << a << "\nexpected\n" << b)); \
  } while (0)

// One point of evaluation on one of the datas
struct Pt { V x, u; bool term; };

// Uniform view of action and differential-action datas
static V& nxt(const std::shared_ptr<cr::ActionDataAbstract>& d) { return d->xnext; }
static V& nxt(const std::shared_ptr<cr::DifferentialActionDataAbstract>& d) { return d->xout; }
template <class D>
struct Snap { V nx, g, h, r; double cost; M Fx, Fu, Gx, Gu, Hx, Hu, Rx, Ru; V Lx, Lu; };
template <class Mo>
static auto ev(const Mo& m, const Pt& p) {
  auto d = m->createData();
  if (p.term) { m->calc(d, p.x); m->calcDiff(d, p.x); } else { m->calc(d, p.x, p.u); m->calcDiff(d, p.x, p.u); }
  return d;
}
template <class Mo, class NDm>
static void action_like(Ctx& c, Rng& r, const Mo& m, const std::shared_ptr<NDm>& nd, bool diff, const StateP& s, bool gauss, bool constr, const std::string& kind) {
  const int nu = int(m->get_nu()), ndx = int(s->get_ndx());
  c.check(nd->get_nu() == m->get_nu() && nd->get_nr() == m->get_nr() && nd->get_ng() == m->get_ng() && nd->get_nh() == m->get_nh() &&
              nd->get_ng_T() == m->get_ng_T() && nd->get_nh_T() == m->get_nh_T() && nd->get_state() == m->get_state(), "dims");
  c.check(vf::same(nd->get_g_lb(), m->get_g_lb()) && vf::same(nd->get_g_ub(), m->get_g_ub()), "constraint-bounds");
  c.check(vf::same(nd->get_u_lb(), m->get_u_lb()) && vf::same(nd->get_u_ub(), m->get_u_ub()) && nd->get_has_control_limits() == m->get_has_control_limits(), "control-limits");
  c.check(nd->get_model() == m && nd->get_with_gauss_approx() == gauss, "members");
  const double e = step(r, nd, c);
  typedef decltype(m->createData()) DP;
  DP d[2] = {nd->createData(), nd->createData()};
  Pt p[2];
  std::string h;
  const int n = r.irange(1, 3);
  for (int k = 0; k < n; ++k) {
    for (int i = 0; i < 2; ++i) {
      p[i].x = random_x(r, s, r.pick({0.3, 1.})); p[i].u = r.vec(nu, r.pick({0.3, 1., 4.})); p[i].term = r.coin(0.35);
      h += p[i].term ? "T" : "r";
    }
    auto calc = [&](int i) { if (p[i].term) nd->calc(d[i], p[i].x); else nd->calc(d[i], p[i].x, p[i].u); };
    auto diffs = [&](int i) { const Pt q = p[i]; if (p[i].term) nd->calcDiff(d[i], p[i].x); else nd->calcDiff(d[i], p[i].x, p[i].u);
      c.check(vf::same(q.x, p[i].x) && vf::same(q.u, p[i].u), "inputs-changed"); };
    switch (r.irange(0, 3)) {
      case 0: calc(0); calc(1); diffs(0); diffs(1); h += "a"; break;
      case 1: calc(0); diffs(0); calc(1); diffs(1); calc(0); h += "b"; break;
      case 2: calc(1); calc(0); diffs(1); diffs(1); diffs(0); h += "c"; break;
      default: { const Pt q = p[0]; p[0].x = random_x(r, s); p[0].term = false; calc(0); diffs(0); p[0] = q; calc(0); calc(1); diffs(1); diffs(0); h += "d"; }
    }
    for (int i = 0; i < 2; ++i) {
      const Pt& q = p[i];
      DP a = ev(m, q);
      const DP& b = d[i];
      if (!(diff && q.term)) c.check(vf::same(nxt(a), nxt(b)), "value-next", VF_STR(nxt(b).transpose() << " vs " << nxt(a).transpose()));
      c.check(a->cost == b->cost, "value-cost", VF_STR(b->cost << " vs " << a->cost));
      if (q.term ? m->get_ng_T() : m->get_ng()) c.check(vf::same(a->g, b->g), "value-g");
      if (q.term ? m->get_nh_T() : m->get_nh()) c.check(vf::same(a->h, b->h), "value-h");
      c.check(vf::same(a->r, b->r), "value-r", VF_STR(b->r.transpose() << " vs " << a->r.transpose()));
      // spread of the derivatives around the point bounds the truncation
      double curv = 0, third = 0, vmax = std::abs(a->cost) + vf::amax(nxt(a)) + vf::amax(a->g) + vf::amax(a->h);
      auto grad = [&](const Pt& z, const V& dx, const V& du) {  // gradient of the cost in the tangent chart at z
        Pt y = z; y.x = plus(s, z.x, dx); y.u = z.u + du;
        DP t = ev(m, y);
        M J1 = M::Zero(ndx, ndx), J2 = J1;
        s->Jintegrate(z.x, dx, J1, J2, cr::second);
        V g(ndx + nu); g << J2.transpose() * t->Lx, (z.term ? V(V::Zero(nu)) : V(t->Lu));
        return g;
      };
      auto hess = [&](const Pt& z) { return fd([&](const V& w) { return grad(z, w.head(ndx), w.tail(nu)); }, ndx + nu, 1e-3); };
      const M H = hess(q);
      for (int t = 0; t < 3; ++t) {
        Pt y = q; V dx = r.vec(ndx, 1), du = r.vec(nu, 1);
        const double sz = 0.05; dx *= sz; du *= sz;
        y.x = plus(s, q.x, dx); y.u += du;
        DP v = ev(m, y);
        auto up = [&](double g) { curv = std::max(curv, g / sz); };
        up(gap(v->Lx, a->Lx)); if (!q.term) { up(gap(v->Fx, a->Fx)); up(gap(v->Fu, a->Fu)); up(gap(v->Lu, a->Lu)); }
        up(gap(v->Gx, a->Gx)); up(gap(v->Hx, a->Hx));
        if (t == 0 && !gauss) third = std::max(third, gap(hess(y), H) / sz);
      }
      curv += vf::amax(H); vmax += vf::amax(q.x) + vf::amax(q.u);
      const double xn = minus(s, q.x, s->zero()).norm(), un = q.u.norm(), tx = jtol(e, xn, curv, vmax), tu = jtol(e, un, curv, vmax);
      NEAR(b->Lx, a->Lx, tx, "Lx");
      if (!(q.term)) { NEAR(b->Fx, a->Fx, tx, "Fx"); NEAR(b->Fu, a->Fu, tu, "Fu"); NEAR(b->Lu, a->Lu, tu, "Lu"); NEAR(b->Gu, a->Gu, tu, "Gu"); NEAR(b->Hu, a->Hu, tu, "Hu"); }
      if (constr) { NEAR(b->Gx, a->Gx, tx, "Gx"); NEAR(b->Hx, a->Hx, tx, "Hx"); }
      if (gauss) {
        const int nr = int(m->get_nr());
        M R = M::Zero(nr, ndx + nu);
        if (nr) R = fd([&](const V& w) { Pt y = q; y.x = plus(s, q.x, w.head(ndx)); y.u += w.tail(nu); return V(ev(m, y)->r); }, ndx + nu);
        const M G = R.transpose() * R;
        const double t = jtol(e, std::max(xn, un), curv + 1, vmax) * (1 + 4 * vf::amax(R) * (1 + nr));
        NEAR(b->Lxx, M(G.topLeftCorner(ndx, ndx)), t, "gauss-Lxx");
        if (!q.term) { NEAR(b->Lxu, M(G.topRightCorner(ndx, nu)), t, "gauss-Lxu"); NEAR(b->Luu, M(G.bottomRightCorner(nu, nu)), t, "gauss-Luu"); }
        c.count("Gauss-Newton Hessians");
      } else {
        const double t = htol(e, std::max(xn, un), third + vf::amax(H), vmax);
        NEAR(b->Lxx, M(H.topLeftCorner(ndx, ndx)), t, "Lxx");
        if (!q.term) { NEAR(b->Lxu, M(H.topRightCorner(ndx, nu)), t, "Lxu"); NEAR(b->Luu, M(H.bottomRightCorner(nu, nu)), t, "Luu"); }
        c.count("Hessians");
      }
      c.count(q.term ? "terminal points" : "running points");
    }
  }
  c.count(diff ? "differential actions" : "actions");
  c.sig(VF_STR((diff ? "D" : "A") << kind << ndx << "," << nu << "," << gauss << constr << h));
}
static void some_bounds(Rng& r, const ActP& m) {
  if (m->get_nu() && r.coin(0.4)) { V l = r.vec(int(m->get_nu())), u = l.array() + r.uni(0.1, 2); m->set_u_lb(l); m->set_u_ub(u); }
}
VF_SCENARIO(actions, 1600, 60000) {
  const bool constr = r.coin(0.5), gauss = r.coin(0.3);
  StateP s = r.coin(0.35) ? StateP(std::make_shared<StateSO3>(r.irange(0, 1))) : StateP(std::make_shared<cr::StateVector>(r.coin(0.4) ? 3 : 2 * r.irange(1, 3)));
  std::string k;
  ActP m = any_action(r, s, r.pick({1, 2, 2, 3, 4, 6}), &k, constr);
  some_bounds(r, m);
  const bool b = k.compare(0, 3, "int") != 0 && m->get_ng() && r.coin(0.6);
  if (b) { V l = r.vec(int(m->get_ng())); m->set_g_lb(l); m->set_g_ub(l.array() + r.uni(0.1, 2)); }
  auto nd = std::make_shared<cr::ActionModelNumDiff>(m, gauss);
  action_like(c, r, m, nd, false, s, gauss, constr, k);
}
VF_SCENARIO(diff_actions, 1600, 60000) {
  const bool constr = r.coin(0.5);
  StateP s = random_dyn_state(r);
  const int nu = r.irange(1, 4);
  DiffP m;
  if (r.coin(0.5)) { ActOpt a; a.nu = nu; a.nr = r.pick({0, 2, 3}); if (constr) { a.ng = a.ngT = r.irange(0, 2); a.nh = a.nhT = r.irange(0, 2); } m = std::make_shared<DiffNL>(r, s, a); }
  else m = any_diff(r, s, nu, constr);
  const bool gauss = r.coin(0.4);
  if (m->get_nu() && r.coin(0.4)) { V l = r.vec(nu), u = l.array() + r.uni(0.1, 2); m->set_u_lb(l); m->set_u_ub(u); }
  if (m->get_ng() && r.coin(0.6)) { V l = r.vec(int(m->get_ng())); m->set_g_lb(l); m->set_g_ub(l.array() + r.uni(0.1, 2)); }
  auto nd = std::make_shared<cr::DifferentialActionModelNumDiff>(m, gauss);
  action_like(c, r, m, nd, true, s, gauss, constr, VF_STR("nr" << m->get_nr()).operator std::string());
}
VF_SCENARIO(activations, 4000, 200000) {
  const int n = r.irange(1, 6), k = r.irange(0, NACTV - 1);
  Actv a = make_actv(r, n, k);
  auto nd = std::make_shared<cr::ActivationModelNumDiffTpl<double>>(a.m);
  const double e = step(r, nd, c);
  c.check(nd->get_nr() == a.m->get_nr() && nd->get_model() == a.m, "activation-members");
  auto d0 = nd->createData(), d1 = nd->createData();
  for (int t = 0; t < 3; ++t) {
    V x = r.vec(n, r.pick({0.5, 1., 3.})), y = r.vec(n);
    if (x.norm() < 0.3) x[0] += 1;
    const V xc = x;
    nd->calc(d0, x);
    if (r.coin()) { nd->calc(d1, y); if (r.coin()) nd->calcDiff(d1, y); }
    if (r.coin(0.2)) nd->calcDiff(d0, x);
    nd->calcDiff(d0, x);
    auto w = a.m->createData();
    a.m->calc(w, x); a.m->calcDiff(w, x);
    c.check(w->a_value == d0->a_value, "activation-value");
    c.check(vf::same(x, xc), "inputs-changed");
    double curv = M(w->Arr).norm();
    for (int q = 0; q < 4; ++q) {
      auto v = a.m->createData();
      const V z = x + r.vec(n, 0.02);
      a.m->calc(v, z); a.m->calcDiff(v, z);
      curv = std::max(curv, gap(v->Ar, w->Ar) / 0.02);
    }
    double wmax = 1;
    if (a.ref.w.size()) wmax += vf::amax(a.ref.w);
    NEAR(d0->Ar, w->Ar, jtol(e, x.norm(), curv + 2 * wmax, std::abs(w->a_value)), VF_STR("activation-Ar-" << a.ref.kind).operator std::string());
    c.count("activation points");
  }
  c.sig(VF_STR("act" << k << "," << n));
}

struct Joint : cr::DataCollectorJoint { explicit Joint(std::shared_ptr<cr::JointDataAbstract> j) : cr::DataCollectorJoint(j) {} };
// residuals, and costs and constraints over them, also residuals read from shared data that must be re-evaluated
VF_SCENARIO(residuals, 3000, 120000) {
  StateP s = random_dyn_state(r);
  const int ndx = int(s->get_ndx());
  const int kind = r.irange(0, 4), nr0 = r.irange(1, 4);
  int nu = r.irange(1, 4);
  std::shared_ptr<cr::ResidualModelAbstract> m;
  std::shared_ptr<cr::ActuationModelAbstract> actu;
  std::shared_ptr<cr::ActuationDataAbstract> ad;
  std::shared_ptr<cr::JointDataAbstract> jd;
  std::shared_ptr<cr::DataCollectorAbstract> coll = std::make_shared<cr::DataCollectorAbstract>();
  if (kind == 0) m = std::make_shared<cr::ResidualModelControl>(s, r.vec(nu));
  else if (kind == 1 && s->get_nx() != 0 && s->get_nv() >= 1 && ndx % 2 == 0) {
    nu = r.irange(1, int(s->get_nv()));
    const bool fwd = r.coin();  // forward dynamics: the effort depends on the control only
    actu = std::make_shared<ActuNL>(r, s, nu, 0.3, fwd ? 0. : 1.);
    m = std::make_shared<cr::ResidualModelJointEffort>(s, actu, r.vec(nu), nu, fwd);
    ad = actu->createData();
    jd = std::make_shared<cr::JointDataAbstract>(s, actu, nu);
    coll = std::make_shared<Joint>(jd);
  } else m = std::make_shared<ResNL>(r, s, nr0, nu, r.coin(0.8), r.coin(0.8), r.coin(0.8));
  
  const int nr = int(m->get_nr());
  const bool is_joint = bool(actu);
  std::vector<cr::ResidualModelNumDiffTpl<double>::ReevaluationFunction> re;
  auto fill = [&](const V& x, const V& u) {
    actu->calc(ad, x, u); actu->calcDiff(ad, x, u);
    jd->tau = ad->tau.head(nu); jd->dtau_dx = ad->dtau_dx.topRows(nu); jd->dtau_du = ad->dtau_du.topRows(nu);
  };
  if (is_joint) re.push_back(fill);
  auto prep = [&](const Pt& p) { if (is_joint) { const V u = p.term ? V(V::Zero(nu)) : p.u; fill(p.x, u); } };
  const int what = r.irange(0, 2);  // residual, cost, constraint
  const int ak = r.pick({0, 1, 3, 4, 5, 10});
  Actv a = make_actv(r, nr, ak);
  auto cost = std::make_shared<cr::CostModelResidual>(s, a.m, m);
  V lo = r.vec(nr), up = lo.array() + r.uni(0.1, 2);
  const bool eq = r.coin();
  auto con = eq ? std::make_shared<cr::ConstraintModelResidual>(s, m) : std::make_shared<cr::ConstraintModelResidual>(s, m, lo, up);
  auto ndr = std::make_shared<cr::ResidualModelNumDiffTpl<double>>(m);
  auto ndc = std::make_shared<cr::CostModelNumDiffTpl<double>>(cost);
  auto ndk = std::make_shared<cr::ConstraintModelNumDiffTpl<double>>(con);
  double e = what == 0 ? step(r, ndr, c) : what == 1 ? step(r, ndc, c) : step(r, ndk, c);
  if (is_joint) { ndr->set_reevals(re); ndc->set_reevals(re); ndk->set_reevals(re); c.count("re-evaluated shared data"); }
  c.check(ndr->get_nr() == m->get_nr() && ndr->get_nu() == m->get_nu() && ndr->get_model() == m, "residual-members");
  c.check(ndc->get_nu() == cost->get_nu() && ndc->get_activation() == cost->get_activation(), "cost-members");
  c.check(ndk->get_ng() == con->get_ng() && ndk->get_nh() == con->get_nh() && ndk->get_nu() == con->get_nu(), "constraint-members");
  c.check(vf::same(ndk->get_lb(), con->get_lb()) && vf::same(ndk->get_ub(), con->get_ub()), "constraint-model-bounds", VF_STR(ndk->get_lb().transpose() << " vs " << con->get_lb().transpose()));
  std::string h;
  auto dr = ndr->createData(coll.get()); auto dc = ndc->createData(coll.get()); auto dk = ndk->createData(coll.get());
  auto er = ndr->createData(coll.get()); auto ec = ndc->createData(coll.get()); auto ek = ndk->createData(coll.get());
  const int n = r.irange(1, 4);
  for (int t = 0; t < n; ++t) {
    auto pt = [&] { Pt p; p.x = random_x(r, s, r.pick({0.3, 1.})); p.u = r.vec(nu, r.pick({0.3, 2.})); p.term = r.coin(0.4); return p; };
    const Pt p = pt(), o = pt();
    h += p.term ? "T" : "r";
    auto run = [&](const Pt& q, bool second, bool calc, bool diff) {
      prep(q);
      auto go = [&](auto& mod, auto& d) {
        if (calc) { if (q.term) mod->calc(d, q.x); else mod->calc(d, q.x, q.u); }
        if (diff) { if (q.term) mod->calcDiff(d, q.x); else mod->calcDiff(d, q.x, q.u); }
      };
      if (what == 0) go(ndr, second ? er : dr); else if (what == 1) go(ndc, second ? ec : dc); else go(ndk, second ? ek : dk);
    };
    const int order = r.irange(0, 2);
    h += char('a' + order);
    const Pt pc = p;
    if (order == 0) run(p, false, true, true);
    else if (order == 1) { run(o, true, true, true); run(p, false, true, true); run(p, false, false, true); }
    else { run(p, false, true, false); run(o, true, true, false); run(o, true, false, true); run(p, false, false, true); }
    c.check(vf::same(p.x, pc.x) && vf::same(p.u, pc.u), "inputs-changed");
    // the wrapped model
    auto wrap = [&](const Pt& q) {
      prep(q);
      auto d = cost->createData(coll.get());
      if (q.term) { cost->calc(d, q.x); cost->calcDiff(d, q.x); } else { cost->calc(d, q.x, q.u); cost->calcDiff(d, q.x, q.u); }
      return d;
    };
    auto wrapk = [&](const Pt& q) {
      prep(q);
      auto d = con->createData(coll.get());
      if (q.term) { con->calc(d, q.x); con->calcDiff(d, q.x); } else { con->calc(d, q.x, q.u); con->calcDiff(d, q.x, q.u); }
      return d;
    };
    auto w = wrap(p);
    auto wr = [&](const Pt& q) {
      prep(q);
      auto d = m->createData(coll.get());
      if (q.term) { m->calc(d, q.x); m->calcDiff(d, q.x); } else { m->calc(d, q.x, q.u); m->calcDiff(d, q.x, q.u); }
      return d;
    };
    auto rr = wr(p);
    double curv = 0;
    for (int q = 0; q < 3; ++q) {
      Pt y = p;
      const double sz = 0.05;
      y.x = plus(s, p.x, r.vec(ndx, sz)); y.u += r.vec(nu, sz);
      auto v = wr(y); auto vc = wrap(y);
      curv = std::max({curv, gap(v->Rx, rr->Rx) / sz, gap(v->Ru, rr->Ru) / sz, gap(vc->Lx, w->Lx) / sz, gap(vc->Lu, w->Lu) / sz});
    }
    prep(p);
    const double xn = p.x.norm(), un = p.u.norm(), vmax = vf::amax(rr->r) + std::abs(w->cost) + xn + un;
    curv += vf::amax(w->Lxx) + vf::amax(w->Luu);
    const double tx = jtol(e, xn, curv, vmax), tu = jtol(e, un, curv, vmax);
    if (what == 0) {
      c.check(vf::same(dr->r, rr->r), "residual-value");
      NEAR(dr->Rx, rr->Rx, tx, p.term ? "residual-Rx-terminal" : "residual-Rx");
      if (!p.term) NEAR(dr->Ru, rr->Ru, tu, "residual-Ru");
    } else if (what == 1) {
      c.check(dc->cost == w->cost, "cost-value", VF_STR(dc->cost << " vs " << w->cost));
      // (a terminal cost whose residual ignores the state does not evaluate the residual)
      if (!p.term || m->get_q_dependent() || m->get_v_dependent()) c.check(vf::same(dc->residual->r, w->residual->r), "cost-residual-value");
      NEAR(dc->Lx, w->Lx, tx, p.term ? "cost-Lx-terminal" : "cost-Lx");
      auto act = a.m->createData();
      a.m->calc(act, rr->r); a.m->calcDiff(act, rr->r);
      const M A = M(act->Arr), X = rr->Rx, U = rr->Ru;
      const double tg = (tx + tu) * (1 + 4 * vf::amax(A) * (vf::amax(X) + vf::amax(U)) * (1 + nr) * (1 + nr));
      NEAR(dc->Lxx, M(X.transpose() * A * X), tg, "cost-Lxx");
      if (!p.term) {
        NEAR(dc->Lu, w->Lu, tu, "cost-Lu");
        NEAR(dc->Lxu, M(X.transpose() * A * U), tg, "cost-Lxu");
        NEAR(dc->Luu, M(U.transpose() * A * U), tg, "cost-Luu");
      }
    } else {
      auto wk = wrapk(p);
      c.check(vf::same(dk->g, wk->g) && vf::same(dk->h, wk->h), "constraint-value");
      NEAR(dk->Gx, wk->Gx, tx, "constraint-Gx"); NEAR(dk->Hx, wk->Hx, tx, "constraint-Hx");
      if (!p.term) { NEAR(dk->Gu, wk->Gu, tu, "constraint-Gu"); NEAR(dk->Hu, wk->Hu, tu, "constraint-Hu"); }
    }
    c.count(what == 0 ? (p.term ? "terminal residuals" : "running residuals") : what == 1 ? (p.term ? "terminal costs" : "running costs") : (p.term ? "terminal constraints" : "running constraints"));
  }
  c.sig(VF_STR("res" << kind << what << "," << ndx << "," << nu << "," << nr << "," << ak << h));
}
VF_SCENARIO(actuations, 3000, 120000) {
  StateP s = random_dyn_state(r);
  const int nu = r.irange(1, int(s->get_nv())), ndx = int(s->get_ndx());
  auto m = std::make_shared<ActuNL>(r, s, nu, r.pick({0., 0.3}), r.pick({0., 1.}));
  auto nd = std::make_shared<cr::ActuationModelNumDiffTpl<double>>(m);
  const double e = step(r, nd, c);
  c.check(nd->get_nu() == m->get_nu() && nd->get_state() == m->get_state() && nd->get_model() == m, "actuation-members");
  auto d = nd->createData(), o = nd->createData();
  std::string h;
  for (int t = 0; t < 3; ++t) {
    const V x = random_x(r, s), u = r.vec(nu, r.pick({0.3, 3.})), x2 = random_x(r, s), u2 = r.vec(nu), xc = x, uc = u;
    const int order = r.irange(0, 2);
    h += char('a' + order);
    if (order == 0) { nd->calc(d, x, u); nd->calcDiff(d, x, u); }
    else if (order == 1) { nd->calc(o, x2, u2); nd->calc(d, x, u); nd->calcDiff(o, x2, u2); nd->calcDiff(d, x, u); nd->calcDiff(d, x, u); }
    else { nd->calc(d, x2, u2); nd->calcDiff(d, x2, u2); nd->calc(d, x, u); nd->calcDiff(d, x, u); }
    auto w = m->createData();
    m->calc(w, x, u); m->calcDiff(w, x, u);
    c.check(vf::same(x, xc) && vf::same(u, uc), "inputs-changed");
    c.check(vf::same(d->tau, w->tau), "actuation-tau");
    c.check(d->tau_set == w->tau_set, "actuation-tau_set");
    double curv = 0;
    for (int q = 0; q < 3; ++q) {
      auto v = m->createData();
      const V y = plus(s, x, r.vec(ndx, 0.05)), z = u + r.vec(nu, 0.05);
      m->calc(v, y, z); m->calcDiff(v, y, z);
      curv = std::max({curv, gap(v->dtau_dx, w->dtau_dx) / 0.05, gap(v->dtau_du, w->dtau_du) / 0.05});
    }
    NEAR(d->dtau_dx, w->dtau_dx, jtol(e, minus(s, x, s->zero()).norm(), curv, vf::amax(w->tau)), "actuation-dtau_dx");
    NEAR(d->dtau_du, w->dtau_du, jtol(e, u.norm(), curv, vf::amax(w->tau)), "actuation-dtau_du");
    // commands and torque transform are the wrapped model's
    auto dc = nd->createData(); auto wc = m->createData();
    nd->commands(dc, x, w->tau); m->commands(wc, x, w->tau);
    c.check(vf::same(dc->u, wc->u), "actuation-commands");
    nd->torqueTransform(dc, x, u); m->torqueTransform(wc, x, u);
    c.check(vf::relerr(dc->Mtau, wc->Mtau) < 1e-12, "actuation-torqueTransform");
    c.count("actuation points");
  }
  c.sig(VF_STR("actu" << ndx << "," << nu << h));
}
VF_SCENARIO(controls, 3000, 120000) {
  const int kind = r.irange(0, 3), nw = r.irange(1, 4);
  CtrlP m = make_control(kind, nw);
  auto nd = std::make_shared<cr::ControlParametrizationModelNumDiffTpl<double>>(m);
  const double e = step(r, nd, c);
  const int nu = int(m->get_nu());
  c.check(nd->get_nu() == m->get_nu() && nd->get_nw() == m->get_nw() && nd->get_model() == m, "control-members");
  auto d = nd->createData(), o = nd->createData();
  for (int t = 0; t < 3; ++t) {
    const double tt = r.pick({0., 1., 0.5, r.uni(0, 1)});
    const V u = r.vec(nu, r.pick({0.3, 3.})), u2 = r.vec(nu), w = r.vec(nw);
    nd->calc(d, tt, u);
    auto wd = m->createData();
    m->calc(wd, tt, u);
    c.check(vf::same(d->w, wd->w), "control-value-after-calc", VF_STR(d->w.transpose() << " vs " << wd->w.transpose()));
    if (r.coin()) { nd->calc(o, r.uni(0, 1), u2); if (r.coin()) nd->calcDiff(o, r.uni(0, 1), u2); }
    nd->calcDiff(d, tt, u);
    m->calcDiff(wd, tt, u);
    c.check(vf::same(d->w, wd->w), "control-value");
    NEAR(d->dw_du, wd->dw_du, jtol(e, u.norm(), 0, vf::amax(u)), "control-dw_du");
    const int rows = r.irange(1, 4);
    const double tol = 1e-4;
    for (auto op : {cr::setto, cr::addto, cr::rmfrom}) {
      const M A = r.mat(rows, nw), B = r.mat(nw, rows), s1 = r.mat(rows, nu), s2 = r.mat(nu, rows);
      M a1 = s1, a2 = s1, b1 = s2, b2 = s2;
      nd->multiplyByJacobian(d, A, a1, op); m->multiplyByJacobian(wd, A, a2, op);
      nd->multiplyJacobianTransposeBy(d, B, b1, op); m->multiplyJacobianTransposeBy(wd, B, b2, op);
      c.check(gap(a1, a2) < tol * 20, "control-multiply"); c.check(gap(b1, b2) < tol * 20, "control-multiply-transposed");
    }
    auto dp = nd->createData(); auto wp = m->createData();
    nd->params(dp, tt, w); m->params(wp, tt, w);
    c.check(vf::same(dp->u, wp->u), "control-params");
    V l1(nu), u1(nu), l2(nu), uu2(nu);
    const V wl = r.vec(nw), wu = wl.array() + 1;
    nd->convertBounds(wl, wu, l1, u1); m->convertBounds(wl, wu, l2, uu2);
    c.check(vf::same(l1, l2) && vf::same(u1, uu2), "control-bounds");
    c.count("control points");
  }
  c.sig(VF_STR("ctrl" << kind << nw));
}
VF_SCENARIO(states, 3000, 120000) {
  StateP m = random_state(r);
  auto nd = std::make_shared<cr::StateNumDiffTpl<double>>(m);
  const double e = step(r, nd, c);
  const int n = int(m->get_ndx());
  c.check(nd->get_nx() == m->get_nx() && nd->get_ndx() == m->get_ndx() && nd->get_nq() == m->get_nq() && nd->get_nv() == m->get_nv(), "state-members");
  c.check(vf::same(nd->zero(), m->zero()), "state-zero");
  const V x = random_x(r, m), dx = r.vec(n, 0.5), y = plus(m, x, dx);
  V a(m->get_nx()), d(n), d2(n);
  nd->integrate(x, dx, a);
  c.check(vf::same(a, y), "state-integrate");
  nd->diff(x, y, d); m->diff(x, y, d2);
  c.check(vf::same(d, d2), "state-diff");
  for (auto which : {cr::first, cr::second, cr::both}) {
    M A = M::Zero(n, n), B = A, A2 = A, B2 = A;
    nd->Jdiff(x, y, A, B, which); m->Jdiff(x, y, A2, B2, which);
    const double t = jtol(e, 1, 10, vf::amax(x) + 4);
    NEAR(A, A2, t, "state-Jdiff-first"); NEAR(B, B2, t, "state-Jdiff-second");
    A.setZero(); B.setZero(); A2.setZero(); B2.setZero();
    nd->Jintegrate(x, dx, A, B, which, cr::setto); m->Jintegrate(x, dx, A2, B2, which, cr::setto);
    NEAR(A, A2, t, "state-Jintegrate-first"); NEAR(B, B2, t, "state-Jintegrate-second");
  }
  c.count("state points");
  c.sig(VF_STR("state" << m->get_nx() << "," << n));
}
VF_MAIN("C26")
