// C25: squashing functions and actuations: values, derivatives, inverses
#include "gen2.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
using namespace gen;
using vf::Ctx;
typedef cr::SquashingModelSmoothSatTpl<double> Sat;
typedef cr::ActuationSquashingModelTpl<double> Squashed;

static double ref(double s, double lb, double ub, double sm) {
  const double d = (ub - lb) * sm, a = d * d;
  return 0.5 * (lb + ub + std::sqrt((s - lb) * (s - lb) + a) - std::sqrt((s - ub) * (s - ub) + a));
}
static double dref(double s, double lb, double ub, double sm) {
  const double d = (ub - lb) * sm, a = d * d;
  return 0.5 * ((s - lb) / std::sqrt((s - lb) * (s - lb) + a) - (s - ub) / std::sqrt((s - ub) * (s - ub) + a));
}
static void limits(vf::Rng& r, int n, V* lb, V* ub) {
  lb->resize(n); ub->resize(n);
  for (int i = 0; i < n; ++i) { (*lb)[i] = r.uni(-4, 2); (*ub)[i] = (*lb)[i] + r.logu(0.05, 8); }
}
VF_SCENARIO(saturation, 8000, 400000) {
  const int n = r.irange(1, 6);
  V lb, ub;
  limits(r, n, &lb, &ub);
  Sat m(lb, ub, n);
  double sm = 0.1;
  c.check(m.get_smooth() == sm && int(m.get_ns()) == n && vf::same(m.get_s_lb(), lb) && vf::same(m.get_s_ub(), ub), "sat:initial-parameters");
  auto d = m.createData(), d2 = m.createData();
  std::string h;
  for (int k = 0; k < 5; ++k) {
    if (r.coin(0.4)) {
      sm = r.logu(0.005, 1.5); m.set_smooth(sm); h += "s";
      c.check(m.get_smooth() == sm && vf::relerr(m.get_d(), V(sm * (ub - lb))) < 1e-14, "sat:set_smooth");
    }
    if (r.coin(0.1)) { c.check(vf::throws([&] { m.set_smooth(-0.1); }) && m.get_smooth() == sm, "sat:rejects-negative"); }
    if (r.coin(0.2)) {
      const V a = r.vec(n), b = a.array() + 1;
      m.set_s_lb(a); m.set_s_ub(b);
      c.check(vf::same(m.get_s_lb(), a) && vf::same(m.get_s_ub(), b), "sat:set_s");
    }
    const V s = r.vec(n, r.pick({1., 5., 100.}));
    m.calc(d, s);
    if (r.coin()) { m.calc(d2, r.vec(n)); m.calcDiff(d2, r.vec(n)); }
    m.calcDiff(d, s);
    V want(n), lo(n);
    M J = M::Zero(n, n);
    for (int i = 0; i < n; ++i) {
      want[i] = ref(s[i], lb[i], ub[i], sm);
      J(i, i) = dref(s[i], lb[i], ub[i], sm);
    }
    c.check(vf::relerr(d->u, want) < 1e-10, "sat:value", VF_STR(d->u.transpose() << " vs " << want.transpose()));
    const double tol = 1e-12 * std::max(1., vf::amax(s));
    c.check(((d->u - lb).array() >= -tol).all() && ((ub - d->u).array() >= -tol).all(), "sat:outside-limits", VF_STR(s.transpose()));
    c.check(vf::relerr(d->du_ds, J) < 1e-9, "sat:derivative", VF_STR(d->du_ds.diagonal().transpose() << " vs " << J.diagonal().transpose()));
    c.check((d->du_ds.diagonal().array() >= 0).all(), "sat:not-monotone");
    // monotone along an increasing sequence, limits reached
    const V s2 = s.array() + r.logu(1e-3, 10);
    V u1 = d->u;
    m.calc(d, s2);
    c.check(((d->u - u1).array() >= -tol).all(), "sat:not-monotone-values");
    m.calc(d, V::Constant(n, 1e6));
    c.check(vf::relerr(d->u, ub) < 1e-4, "sat:upper-limit-reached");
    m.calc(d, V::Constant(n, -1e6));
    c.check(vf::relerr(d->u, lb) < 1e-4, "sat:lower-limit-reached");
    const V mid = 0.5 * (lb + ub);
    m.calc(d, mid);
    c.check(vf::relerr(d->u, mid) < 1e-12, "sat:midpoint");
    int q = 0;
    for (int i = 0; i < n; ++i) q = q * 3 + (s[i] < lb[i] ? 0 : s[i] > ub[i] ? 2 : 1);
    c.sig(VF_STR("sat" << n << ":" << q << h));
    c.count("saturation points");
  }
}
struct Act { ActuP m; std::shared_ptr<ActuNL> inner; V lb, ub; double sm; };
VF_SCENARIO(squashed, 6000, 300000) {
  StateP s = random_dyn_state(r);
  const int nv = int(s->get_nv()), nu = r.irange(1, nv), ndx = int(s->get_ndx());
  auto inner = std::make_shared<ActuNL>(r, s, nu, r.pick({0., 0.3}), r.pick({0., 1.}));
  V lb, ub;
  limits(r, nu, &lb, &ub);
  auto sat = std::make_shared<Sat>(lb, ub, nu);
  double sm = 0.1;
  auto sm_ = std::make_shared<Squashed>(inner, sat, nu);
  ActuP m = sm_;
  c.check(sm_->get_squashing() == sat && sm_->get_actuation() == inner && int(m->get_nu()) == nu && m->get_state() == s, "squash:members");
  auto d = m->createData(), d2 = m->createData();
  auto sq = [&](const V& u) { V w(nu); for (int i = 0; i < nu; ++i) w[i] = ref(u[i], lb[i], ub[i], sm); return w; };
  for (int k = 0; k < 3; ++k) {
    if (r.coin(0.4)) { sm = r.uni(0.05, 1); sat->set_smooth(sm); }
    const V x = random_x(r, s), u = r.vec(nu, 3), xc = x, uc = u;
    m->calc(d, x, u);
    if (r.coin()) { const V x2 = random_x(r, s), u2 = r.vec(nu); m->calc(d2, x2, u2); m->calcDiff(d2, x2, u2); }
    m->calcDiff(d, x, u);
    c.check(vf::relerr(d->tau, inner->ref(x, sq(u))) < 1e-10, "squash:tau");
    bool set = true;
    for (int i = 0; i < nv; ++i) set &= d->tau_set[i] == (i < nu);
    c.check(set, "squash:tau_set");
    const M fx = fd([&](const V& e) { return inner->ref(plus(s, x, e), sq(u)); }, ndx);
    V ds(nu);
    for (int i = 0; i < nu; ++i) ds[i] = dref(u[i], lb[i], ub[i], sm);
    const M fu = inner->refu(x, sq(u)) * ds.asDiagonal();
    c.check(vf::relerr(d->dtau_dx, fx) < 1e-6, "squash:dtau_dx", VF_STR(d->dtau_dx << "\nvs\n" << fx));
    c.check(vf::relerr(d->dtau_du, fu) < 1e-9, "squash:dtau_du", VF_STR(d->dtau_du << "\nvs\n" << fu));
    c.check(vf::same(x, xc) && vf::same(u, uc), "squash:inputs-changed");
    c.count("squashed points");
    // torque transform: Mtau is the pseudo-inverse of dtau_du at (x,u)
    const V um = (0.5 * (lb + ub)).array() + 0.1 * (ub - lb).array() * V::Random(nu).array();
    auto dt = m->createData();
    m->torqueTransform(dt, x, um);
    c.check(vf::relerr(M(dt->Mtau * dt->dtau_du), M::Identity(nu, nu)) < 1e-7, "squash:torqueTransform");
    c.check(vf::relerr(dt->tau, inner->ref(x, sq(um))) < 1e-10, "squash:torqueTransform-tau");
    // commands
    auto dc = m->createData();
    const V tau = inner->ref(x, sq(um));
    std::string what;
    const bool thrown = vf::throws([&] { m->commands(dc, x, tau); }, &what);
    c.check(!thrown, nu == nv ? "squash:commands-throws-square" : "squash:commands-rejects-valid-tau", what);
    if (!thrown) {
      auto back = m->createData();
      m->calc(back, x, dc->u);
      c.check(vf::relerr(back->tau, tau) < 1e-6, "squash:commands-not-inverse", VF_STR(back->tau.transpose() << " vs " << tau.transpose()));
    }
    c.check(vf::throws([&] { m->commands(dc, x, V::Zero(nv + 1)); }), "squash:commands-accepts-wrong-size");
    c.check(vf::throws([&] { m->torqueTransform(dc, x, V::Zero(nu + 1)); }), "squash:transform-accepts-wrong-size");
    c.check(vf::throws([&] { m->torqueTransform(dc, V::Zero(s->get_nx() + 1), u); }), "squash:transform-accepts-wrong-x");
    c.sig(VF_STR("squash" << ndx << "," << nu << "," << s->get_nx() << "," << k << (fx.norm() > 1e-9)));
  }
}
// the default torque transform of the abstract class, with the exact inverse of a linear map
VF_SCENARIO(torque_transform, 4000, 100000) {
  StateP s = random_dyn_state(r);
  const int nv = int(s->get_nv()), nu = r.irange(1, nv);
  auto m = std::make_shared<ActuNL>(r, s, nu, r.pick({0., 0.3}), 1.);
  auto d = m->createData();
  const V x = random_x(r, s), u = r.vec(nu);
  d->Mtau.setConstant(r.uni());
  m->torqueTransform(d, x, u);
  const M want = m->refu(x, u).completeOrthogonalDecomposition().pseudoInverse();
  c.check(vf::relerr(d->Mtau, want) < 1e-8, "transform:pseudo-inverse", VF_STR(d->Mtau << "\nvs\n" << want));
  c.check(vf::relerr(d->tau, m->ref(x, u)) < 1e-12 && vf::relerr(d->dtau_dx, m->refx(x, u)) < 1e-12, "transform:evaluates");
  // initial content of the data
  auto e = m->createData();
  bool ok = e->tau.isZero() && e->u.isZero() && e->dtau_dx.isZero() && e->dtau_du.isZero() && e->Mtau.isZero() && int(e->tau_set.size()) == nv;
  for (bool b : e->tau_set) ok &= b;
  c.check(ok && e->tau.size() == nv && e->u.size() == nu && e->dtau_dx.cols() == int(s->get_ndx()), "data:initial");
  // rectangular matrices incl. rank deficient ones
  const int a = r.irange(1, 6), b = r.irange(1, 6), k = r.irange(0, std::min(a, b));
  const M X = r.mat(a, k) * r.mat(k, b), P = cr::pseudoInverse(X);
  c.check(vf::relerr(M(X * P * X), X) < 1e-7 && vf::amax(P) < 1e7 && vf::relerr(M(P * X * P), P) < 1e-6, "pseudoInverse", VF_STR("rank " << k << "\n" << X));
  c.count("torque transforms");
  c.sig(VF_STR("tt" << nv << nu << a << b << k));
}
VF_MAIN("C25")
