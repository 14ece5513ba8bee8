// C19: integrated actions = their integration rule, re-implemented here stage by stage
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;

static std::vector<double> nodes(int kind) {
  if (kind == 0) return {0.};
  if (kind == 1) return {0., 0.5};
  if (kind == 2) return {0., 1. / 3, 2. / 3};
  return {0., 0.5, 1.};
}
static V weights(int kind, double t) {  // Lagrange basis at t
  const std::vector<double> n = nodes(kind);
  V w(n.size());
  for (size_t i = 0; i < n.size(); ++i) { w[i] = 1; for (size_t j = 0; j < n.size(); ++j) if (j != i) w[i] *= (t - n[j]) / (n[i] - n[j]); }
  return w;
}
struct Scheme { std::vector<double> c, w; };
static Scheme scheme(int k) {
  if (k == 0) return {{0.}, {1.}};
  if (k == 2) return {{0., .5}, {0., 1.}};
  if (k == 3) return {{0., 1. / 3, 2. / 3}, {.25, 0., .75}};
  return {{0., .5, .5, 1.}, {1. / 6, 1. / 3, 1. / 3, 1. / 6}};
}
struct Ref {
  StateP s; DiffP d; int ik, ck, nw; double dt;
  V w(double t, const V& u) const { const V b = weights(ck, t); V o = V::Zero(nw); for (int i = 0; i < b.size(); ++i) o += b[i] * u.segment(i * nw, nw); return o; }
  M W(double t) const { const V b = weights(ck, t); M o(nw, nw * b.size()); for (int i = 0; i < b.size(); ++i) o.middleCols(i * nw, nw) = b[i] * M::Identity(nw, nw); return o; }
  struct Out { std::vector<V> y; V xnext; double cost; std::shared_ptr<cr::DifferentialActionDataAbstract> d0; };
  Out operator()(const V& x, const V& u) const {
    Out o;
    const Scheme sc = scheme(ik);
    const int nv = int(s->get_nv());
    std::vector<V> k;
    V dx = V::Zero(2 * nv);
    o.cost = 0;
    for (size_t i = 0; i < sc.c.size(); ++i) {
      const V y = i == 0 ? x : plus(s, x, dt * sc.c[i] * k[i - 1]);
      auto dd = d->createData();
      d->calc(dd, y, w(sc.c[i], u));
      V ki(2 * nv);
      ki << y.tail(nv), dd->xout;
      k.push_back(ki); o.y.push_back(y);
      dx += dt * sc.w[i] * ki;
      o.cost += dt * sc.w[i] * dd->cost;
      if (i == 0) o.d0 = dd;
    }
    if (ik == 0) dx.head(nv) += dt * dt * k[0].tail(nv);
    o.xnext = plus(s, x, dx);
    return o;
  }
};
VF_SCENARIO(scheme_values, 7000, 250000) {
  StateP s = random_dyn_state(r);
  const int ik = r.pick({0, 2, 3, 4}), ck = r.irange(0, 3), nw = r.irange(1, 3);
  const int nu = nw * int(nodes(ck).size()), ndx = int(s->get_ndx());
  const bool resid = r.coin();
  auto mkdiff = [&](const StateP& st) -> DiffP {
    const int nx = int(st->get_nx());
    if (nx == int(st->get_ndx()) && r.coin(0.3)) return random_difflqr(r, nx / 2, nw, r.irange(0, 2), r.irange(0, 2));
    ActOpt a; a.nu = nw; a.nr = r.irange(0, 4); a.ng = a.ngT = r.irange(0, 2); a.nh = a.nhT = r.irange(0, 2);
    auto m = std::make_shared<DiffNL>(r, st, a);
    return m;
  };
  DiffP diff = mkdiff(s);
  double dt = r.coin(0.1) ? 0. : r.logu(1e-3, 0.5);
  CtrlP ctrl = make_control(ck, nw);
  auto m = std::static_pointer_cast<cr::IntegratedActionModelAbstract>(ck == 0 && r.coin(0.3)
      ? (ik == 0 ? ActP(std::make_shared<cr::IntegratedActionModelEuler>(diff, dt, resid))
                 : ActP(std::make_shared<cr::IntegratedActionModelRK>(diff, ik == 2 ? cr::two : ik == 3 ? cr::three : cr::four, dt, resid)))
      : make_integrated(diff, ctrl, ik, dt, resid));
  const std::string w0 = VF_STR("ik" << ik << "ck" << ck << "nw" << nw << "nx" << s->get_nx());
  c.count(VF_STR("integrator " << ik)); c.count(VF_STR("control " << ck));
  std::string hist;
  std::shared_ptr<cr::ActionDataAbstract> d, d2;
  { vf::Quiet q; d = m->createData(); d2 = m->createData(); }
  for (int k = 0; k < 3; ++k) {
    if (r.coin(0.3)) { dt = r.coin(0.2) ? 0. : r.logu(1e-3, 0.5); m->set_dt(dt); hist += "t"; c.count("time-step changes"); }
    if (r.coin(0.1)) { c.check(vf::throws([&] { m->set_dt(-1e-3); }) && m->get_dt() == dt, "negative-dt-accepted"); }
    if (r.coin(0.2)) {
      if (r.coin()) s = random_dyn_state(r);
      diff = mkdiff(s);
      if (r.coin(0.5)) { diff->set_u_lb(V::Constant(nw, -1.5)); diff->set_u_ub(V::Constant(nw, 2.)); }
      m->set_differential(diff);
      vf::Quiet q;
      d = m->createData(); d2 = m->createData(); hist += "D"; c.count("model changes");
    }
    if (r.coin(0.1)) {
      ActOpt a; a.nu = nw + 1;
      DiffP bad = std::make_shared<DiffNL>(r, s, a);
      c.check(vf::throws([&] { m->set_differential(bad); }) && m->get_differential() == diff, "incompatible-model-accepted");
    }
    const int n = int(s->get_ndx());
    c.check(m->get_differential() == diff && m->get_dt() == dt && m->get_state() == diff->get_state() && int(m->get_nu()) == nu && m->get_nr() == diff->get_nr() &&
                m->get_ng() == diff->get_ng() && m->get_nh() == diff->get_nh() && m->get_ng_T() == diff->get_ng_T() && m->get_nh_T() == diff->get_nh_T() &&
                int(m->get_control()->get_nw()) == nw && vf::same(m->get_g_lb(), diff->get_g_lb()) && vf::same(m->get_g_ub(), diff->get_g_ub()), "members", w0 + hist);
    if (ck == 0) c.check(vf::same(m->get_u_lb(), diff->get_u_lb()) && vf::same(m->get_u_ub(), diff->get_u_ub()) && m->get_has_control_limits() == diff->get_has_control_limits(), "control-limits", w0 + hist);
    c.check(int(m->get_u_lb().size()) == nu && int(m->get_u_ub().size()) == nu, "control-limits-size");
    const Ref ref{s, diff, ik, ck, nw, dt};
    const V x = random_x(r, s), u = r.vec(nu);
    const std::string w = w0 + hist + (resid ? "r" : "");
    if (r.coin(0.75)) {
      hist += "R";
      const Ref::Out o = ref(x, u);
      m->calc(d, x, u);
      c.check(vf::relerr(d->xnext, o.xnext) < 1e-12, "next-state", VF_STR(w << " " << d->xnext.transpose() << " vs " << o.xnext.transpose()));
      c.check(vf::relerr(d->cost, o.cost) < 1e-12, "cost", w);
      c.check(vf::same(d->g, o.d0->g) && vf::same(d->h, o.d0->h), "constraints", w);
      if (resid) c.check(vf::same(d->r, o.d0->r), "residual", w);
      if (dt == 0) { c.check(vf::relerr(minus(s, d->xnext, x), V(V::Zero(n))) < 1e-14 && d->cost == 0, "zero-step", w); c.count("zero steps"); }
      if (r.coin(0.3)) { const V x2 = random_x(r, s); const V u2 = r.vec(nu); m->calc(d2, x2, u2); m->calcDiff(d2, x2, u2); }
      m->calcDiff(d, x, u);
      // derivatives of the reference map
      const M Fx = fd([&](const V& e) { return minus(s, ref(plus(s, x, e), u).xnext, o.xnext); }, n);
      const M Fu = fd([&](const V& e) { return minus(s, ref(x, u + e).xnext, o.xnext); }, nu);
      c.check(vf::relerr(d->Fx, Fx) < 1e-7, "Fx", VF_STR(w << "\n" << d->Fx << "\nvs\n" << Fx));
      c.check(vf::relerr(d->Fu, Fu) < 1e-7, "Fu", VF_STR(w << "\n" << d->Fu << "\nvs\n" << Fu));
      const Scheme sc = scheme(ik);
      V Lx = V::Zero(n), Lu = V::Zero(nu);
      M Lxx = M::Zero(n, n), Luu = M::Zero(nu, nu), Lxu = M::Zero(n, nu);
      for (size_t i = 0; i < sc.c.size(); ++i) {
        const M Yx = i == 0 ? M(M::Identity(n, n)) : fd([&](const V& e) { return minus(s, ref(plus(s, x, e), u).y[i], o.y[i]); }, n);
        const M Yu = i == 0 ? M(M::Zero(n, nu)) : fd([&](const V& e) { return minus(s, ref(x, u + e).y[i], o.y[i]); }, nu);
        const M W = ref.W(sc.c[i]);
        auto dd = diff->createData();
        diff->calc(dd, o.y[i], ref.w(sc.c[i], u));
        diff->calcDiff(dd, o.y[i], ref.w(sc.c[i], u));
        const double q = dt * sc.w[i];
        Lx += q * Yx.transpose() * dd->Lx;
        Lu += q * (Yu.transpose() * dd->Lx + W.transpose() * dd->Lu);
        Lxx += q * Yx.transpose() * dd->Lxx * Yx;
        Lxu += q * (Yx.transpose() * dd->Lxx * Yu + Yx.transpose() * dd->Lxu * W);
        const M X = Yu.transpose() * dd->Lxu * W;
        Luu += q * (Yu.transpose() * dd->Lxx * Yu + X + X.transpose() + W.transpose() * dd->Luu * W);
        if (i == 0) {
          c.check(vf::relerr(d->Gx, dd->Gx) < 1e-12 && vf::relerr(d->Gu, M(dd->Gu * W)) < 1e-12, "Gx,Gu", w);
          c.check(vf::relerr(d->Hx, dd->Hx) < 1e-12 && vf::relerr(d->Hu, M(dd->Hu * W)) < 1e-12, "Hx,Hu", w);
        }
      }
      // relative to dt: small steps must not hide a wrong derivative
      const double sc_ = dt > 0 ? std::max(dt, 1e-3) : 1;
      auto err = [&](const M& a, const M& b) { return vf::amax(M(a - b)) / (sc_ * std::max(1., vf::amax(b) / sc_)); };
      c.check(err(d->Lx, Lx) < 1e-6, "Lx", w);
      c.check(err(d->Lu, Lu) < 1e-6, "Lu", w);
      c.check(err(d->Lxx, Lxx) < 1e-6, "Lxx", VF_STR(w << "\n" << d->Lxx << "\nvs\n" << Lxx));
      c.check(err(d->Lxu, Lxu) < 1e-6, "Lxu", VF_STR(w << "\n" << d->Lxu << "\nvs\n" << Lxu));
      c.check(err(d->Luu, Luu) < 1e-6, "Luu", VF_STR(w << "\n" << d->Luu << "\nvs\n" << Luu));
      c.check(err(d->Fx, Fx) < 1e-5, "Fx-scaled", w);
      c.check(err(d->Fu, Fu) < 1e-5, "Fu-scaled", w);
      c.count("running points");
    } else {
      hist += "T";
      auto dd = diff->createData();
      diff->calc(dd, x);
      diff->calcDiff(dd, x);
      m->calc(d, x);
      m->calcDiff(d, x);
      c.check(vf::same(d->xnext, x), "terminal:xnext", w);
      c.check(d->cost == dd->cost, "terminal:cost", w);
      const int g = int(diff->get_ng_T()), h = int(diff->get_nh_T());
      c.check(vf::same(V(d->g.head(g)), V(dd->g.head(g))) && vf::same(V(d->h.head(h)), V(dd->h.head(h))), "terminal:constraints", w);
      c.check(vf::same(d->Lx, dd->Lx) && vf::same(d->Lxx, dd->Lxx), "terminal:derivatives", w);
      c.check(vf::same(M(d->Gx.topRows(g)), M(dd->Gx.topRows(g))) && vf::same(M(d->Hx.topRows(h)), M(dd->Hx.topRows(h))), "terminal:Jacobians", w);
      if (resid) c.check(vf::same(d->r, dd->r), "terminal:residual", w);
      c.count("terminal points");
    }
    c.sig(w + hist.back());
  }
  (void)ndx;
  c.check(vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }) && vf::throws([&] { m->calc(d, s->zero(), V::Zero(nu + 1)); }) &&
              vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1), V::Zero(nu)); }) && vf::throws([&] { m->calcDiff(d, s->zero(), V::Zero(nu + 1)); }) &&
              vf::throws([&] { m->calc(d, V::Zero(s->get_nx() + 1)); }) && vf::throws([&] { m->calcDiff(d, V::Zero(s->get_nx() + 1)); }), "wrong-size-accepted");
  c.check(m->checkData(d) == diff->checkData(diff->createData()), "checkData:own");
  c.check(!m->checkData(std::make_shared<cr::ActionDataAbstract>(m.get())), "checkData:foreign");
}
// order of the local error on vector states: error(dt/2) is about error(dt) / 2^(p+1)
VF_SCENARIO(order, 1500, 40000) {
  StateP s = std::make_shared<cr::StateVector>(2 * r.irange(1, 3));
  const int nw = r.irange(1, 2), ik = r.pick({2, 3, 4});
  ActOpt a; a.nu = nw; a.nonlin = 1.;
  DiffP diff = std::make_shared<DiffNL>(r, s, a);
  const V x = r.vec(s->get_nx()), u = r.vec(nw);
  auto step = [&](const V& y, double dt, int k) { auto m = make_integrated(diff, make_control(0, nw), k, dt, false); return eval(m, y, u); };
  auto fine = [&](double dt) { V y = x; for (int i = 0; i < 40; ++i) y = step(y, dt / 40, 4)->xnext; return y; };
  const double h = ik == 4 ? 0.2 : 0.05;
  const double e1 = (step(x, h, ik)->xnext - fine(h)).norm(), e2 = (step(x, h / 2, ik)->xnext - fine(h / 2)).norm();
  c.maxi(VF_STR("error constant RK" << ik), e1 / std::pow(h, ik + 1));
  // accidental cancellations of the leading term: only judge when both errors are in the asymptotic regime
  c.check(e1 <= 30 * std::pow(h, ik + 1), "order:error-too-large", VF_STR("rk" << ik << " e1 " << e1 << " h " << h));
  c.check(e2 <= 30 * std::pow(h / 2, ik + 1), "order:half-step-error-too-large", VF_STR("rk" << ik << " e2 " << e2));
  if (e1 > 1e-9) { c.maxi(VF_STR("error ratio RK" << ik << " over 2^-(p+1)"), e2 / e1 * std::pow(2., ik + 1)); c.count("orders measured"); }
  c.sig(VF_STR("o" << ik << s->get_nx() << nw << c.index % 50));
}
VF_SCENARIO(construction, 300, 3000) {
  StateP s = random_dyn_state(r);
  ActOpt a; a.nu = r.irange(1, 3);
  DiffP diff = std::make_shared<DiffNL>(r, s, a);
  diff->set_u_lb(V::Constant(a.nu, -1)); diff->set_u_ub(V::Constant(a.nu, 1.));
  const int ik = r.pick({0, 2, 3, 4});
  c.check(vf::throws([&] { make_integrated(diff, make_control(r.irange(0, 3), a.nu + 1), ik, 0.1, true); }), "ctor:incompatible-control-accepted");
  ActP m;
  { vf::Quiet q; m = make_integrated(diff, make_control(0, a.nu), ik, -0.1, true); }
  c.check(std::static_pointer_cast<cr::IntegratedActionModelAbstract>(m)->get_dt() == 1e-3, "ctor:negative-dt");
  const V x = random_x(r, s), u = r.vec(a.nu);
  const Ref ref{s, diff, ik, 0, a.nu, 1e-3};
  c.check(vf::relerr(eval(m, x, u)->xnext, ref(x, u).xnext) < 1e-13 && vf::relerr(eval(m, x, u)->cost, ref(x, u).cost) < 1e-13, "ctor:negative-dt-step");
  c.check(m->get_has_control_limits() && vf::same(m->get_u_lb(), diff->get_u_lb()) && vf::same(m->get_u_ub(), diff->get_u_ub()), "ctor:limits");
  if (ik) c.check(std::static_pointer_cast<cr::IntegratedActionModelRK>(m)->get_ni() == std::size_t(ik), "ctor:stages");
  c.sig(VF_STR("k" << ik << s->get_nx() << a.nu));
}
VF_MAIN("C19")
