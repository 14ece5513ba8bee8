// C37: the multibody state obeys the manifold laws, and its actuations map controls to joint torques as documented.
#include "mb.hpp"
using namespace mb;

static V minus(const pin::Model& m, const V& a, const V& b) {  // a (-) b
  V d(2 * m.nv);
  d << pv::difference(m, V(b.head(m.nq)), V(a.head(m.nq))), a.tail(m.nv) - b.tail(m.nv);
  return d;
}
static StateP state_of(const Robot& b) { return std::make_shared<cr::StateMultibody>(b.model); }
static double quat(const pin::Model& m, const V& q) {  // largest deviation from unit quaternions
  double e = 0;
  for (int i = 1; i < m.njoints; ++i) {
    const auto& j = m.joints[i];
    if (j.nq() == j.nv()) continue;
    e = std::max(e, std::abs(q.segment(j.idx_q() + j.nq() - 4, 4).norm() - 1));
  }
  return e;
}

VF_SCENARIO(manifold, 1500, 30000) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const StateP s = state_of(b);
  const int n = 2 * m.nv, nx = m.nq + m.nv;
  c.check(int(s->get_nx()) == nx && int(s->get_ndx()) == n && int(s->get_nq()) == m.nq && int(s->get_nv()) == m.nv, "dimensions");
  c.check(s->get_pinocchio().get() == b.model.get(), "model-kept");
  V z = V::Zero(nx);
  z.head(m.nq) = pv::dbl(pin::neutral(m));
  c.check(vf::same(s->zero(), z), "zero");
  const V rnd = s->rand();
  c.check(rnd.size() == nx && vf::finite(rnd) && quat(m, rnd.head(m.nq)) < 1e-9, "rand");
  const double sc = r.pick({.1, .7, 1.2});
  const V x0 = point(r, m, sc), x1 = point(r, m, sc), dx = r.vec(n, sc);
  const V a = x0, bb = x1, e = dx;
  V d(n), x(nx), d2(n);
  s->diff(x0, x1, d);
  c.check(vf::relerr(d, minus(m, x1, x0)) < 1e-12, "diff");
  s->integrate(x0, dx, x);
  c.check(vf::relerr(x, plus(m, x0, dx)) < 1e-12, "integrate");
  c.check(quat(m, x.head(m.nq)) < 1e-9, "integrate:unit-quaternion");
  s->diff(x0, x, d2);
  if (sc < 1.2) c.check(vf::amax(V(d2 - dx)) < 1e-8, "diff(x0,integrate(x0,dx))!=dx", VF_STR(vf::amax(V(d2 - dx))));
  s->integrate(x0, d, x);
  c.check(vf::amax(minus(m, x, x1)) < 1e-8, "integrate(x0,diff(x0,x1))!=x1", VF_STR(vf::amax(minus(m, x, x1))));
  s->diff(x0, x0, d2);
  c.check(vf::amax(d2) < 1e-9, "diff(x,x)!=0");
  s->integrate(x0, V::Zero(n), x);
  c.check(vf::relerr(x, x0) < 1e-12, "integrate(x,0)!=x");
  V xi = x0;
  s->integrate(xi, dx, xi);
  c.check(vf::relerr(xi, plus(m, x0, dx)) < 1e-12, "integrate:in-place");
  c.check(vf::same(s->diff_dx(x0, x1), d) && vf::same(s->integrate_x(x0, dx), plus(m, x0, dx)), "return-value-forms");
  c.check(vf::same(x0, a) && vf::same(x1, bb) && vf::same(dx, e), "inputs-changed");
  // rejected dimensions
  const V xb = r.vec(nx + r.pick({-1, 1, 2})), db = r.vec(n + r.pick({-1, 1}));
  V o1(n), o2(nx), o3 = db, o4 = xb;
  c.check(vf::throws([&] { s->diff(xb, x1, o1); }) && vf::throws([&] { s->diff(x0, xb, o1); }) && vf::throws([&] { s->diff(x0, x1, o3); }), "diff:wrong-dimension-accepted");
  c.check(vf::throws([&] { s->integrate(xb, dx, o2); }) && vf::throws([&] { s->integrate(x0, db, o2); }) && vf::throws([&] { s->integrate(x0, dx, o4); }), "integrate:wrong-dimension-accepted");
  c.count("manifold points");
  c.sig(VF_STR("m" << shape(b) << sc));
}

VF_SCENARIO(jacobians, 600, 12000) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const StateP s = state_of(b);
  const int n = 2 * m.nv;
  const V x0 = point(r, m, .7), x1 = point(r, m, .7), dx = r.vec(n, .7);
  auto fd = [&](std::function<V(const V&)> f) {
    const double h = 1e-3;
    M J(n, n);
    for (int i = 0; i < n; ++i) {
      const V e = V::Unit(n, i);
      J.col(i) = (8 * (f(h * e) - f(-h * e)) - (f(2 * h * e) - f(-2 * h * e))) / (12 * h);
    }
    return J;
  };
  const V xe = plus(m, x0, dx);
  const M D0 = fd([&](const V& e) { return minus(m, x1, plus(m, x0, e)); }), D1 = fd([&](const V& e) { return minus(m, plus(m, x1, e), x0); });
  const M I0 = fd([&](const V& e) { return minus(m, plus(m, plus(m, x0, e), dx), xe); }), I1 = fd([&](const V& e) { return minus(m, plus(m, x0, V(dx + e)), xe); });
  const double tol = 1e-6;
  const bool nan = r.coin(.3);  // what the outputs hold before
  for (cr::Jcomponent fs : {cr::both, cr::first, cr::second}) {
    const M P = nan ? M(M::Constant(n, n, std::nan(""))) : M(r.mat(n, n)), Q = nan ? P : M(r.mat(n, n));
    const bool f1 = fs != cr::second, f2 = fs != cr::first;
    M A = P, B = Q;
    s->Jdiff(x0, x1, A, B, fs);
    c.check(f1 ? err(A, D0) < tol : vf::same(A, P), f1 ? "Jdiff:first" : "Jdiff:unselected-written", VF_STR(fs));
    c.check(f2 ? err(B, D1) < tol : vf::same(B, Q), f2 ? "Jdiff:second" : "Jdiff:unselected-written", VF_STR(fs));
    if (f1) c.maxi("Jdiff error", err(A, D0));
    for (cr::AssignmentOp op : {cr::setto, cr::addto, cr::rmfrom}) {
      if (nan && op != cr::setto) continue;
      A = P; B = Q;
      s->Jintegrate(x0, dx, A, B, fs, op);
      const double k = op == cr::setto ? 0 : 1, sg = op == cr::rmfrom ? -1 : 1;
      const M ra = k ? M(P + sg * I0) : I0, rb = k ? M(Q + sg * I1) : I1;
      c.check(f1 ? err(A, ra) < tol : vf::same(A, P), f1 ? "Jintegrate:first" : "Jintegrate:unselected-written", VF_STR(fs << " op " << op));
      c.check(f2 ? err(B, rb) < tol : vf::same(B, Q), f2 ? "Jintegrate:second" : "Jintegrate:unselected-written", VF_STR(fs << " op " << op));
      if (f2) c.maxi("Jintegrate error", err(B, rb));
    }
  }
  // transport: maps what is written at x (+) dx (or in dx) to the tangent space it stands in; the velocities stay
  const int k = r.irange(1, 2 * n);
  const M J = r.mat(n, k);
  for (cr::Jcomponent fs : {cr::first, cr::second}) {
    M T = J, E = J;
    s->JintegrateTransport(x0, dx, T, fs);
    E.topRows(m.nv) = (fs == cr::first ? I0 : I1).topLeftCorner(m.nv, m.nv) * J.topRows(m.nv);
    c.check(err(T, E) < tol, fs == cr::first ? "transport:first" : "transport:second", VF_STR(err(T, E)));
  }
  { M T = J; c.check(vf::throws([&] { s->JintegrateTransport(x0, dx, T, cr::both); }), "transport:both-accepted"); }
  // rejected dimensions
  M ok(n, n), bad(n, n + r.pick({-1, 1})), bad2(n + 1, n);
  const V xb = r.vec(m.nq + m.nv + 1);
  c.check(vf::throws([&] { s->Jdiff(x0, x1, bad, ok); }) && vf::throws([&] { s->Jdiff(x0, x1, ok, bad2); }) && vf::throws([&] { s->Jdiff(xb, x1, ok, ok); }) &&
              vf::throws([&] { s->Jdiff(x0, xb, ok, ok); }) && vf::throws([&] { s->Jdiff(x0, x1, bad2, ok, cr::first); }) && vf::throws([&] { s->Jdiff(x0, x1, ok, bad, cr::second); }),
          "Jdiff:wrong-dimension-accepted");
  c.check(vf::throws([&] { s->Jintegrate(x0, dx, bad, ok); }) && vf::throws([&] { s->Jintegrate(x0, dx, ok, bad2); }) && vf::throws([&] { s->Jintegrate(x0, dx, bad2, ok, cr::first); }),
          "Jintegrate:wrong-dimension-accepted");
  c.count("Jacobians compared");
  c.sig(VF_STR("j" << shape(b) << nan));
}

VF_SCENARIO(limits, 1200, 20000) {
  const Robot b = robot(r);
  pin::Model& m = *b.model;
  if (r.coin(.3)) m.upperPositionLimit.tail(1)[0] = std::numeric_limits<double>::infinity();
  const bool none = r.coin(.15) && !b.floating;
  if (none) {
    m.lowerPositionLimit.setConstant(-std::numeric_limits<double>::infinity());
    m.upperPositionLimit.setConstant(std::numeric_limits<double>::infinity());
    m.velocityLimit.setConstant(std::numeric_limits<double>::infinity());
  }
  const StateP s = state_of(b);
  const int nq0 = b.floating ? m.joints[1].nq() : 0, nx = m.nq + m.nv;
  V lb(nx), ub(nx);
  lb << m.lowerPositionLimit, -m.velocityLimit;
  ub << m.upperPositionLimit, m.velocityLimit;
  lb.head(nq0).setConstant(-std::numeric_limits<double>::max());
  ub.head(nq0).setConstant(std::numeric_limits<double>::max());
  c.check(s->get_lb() == lb && s->get_ub() == ub, "bounds", VF_STR(s->get_lb().transpose() << " / " << lb.transpose()));
  c.check(s->get_has_limits() == !none, "has_limits");
  // histories of own bounds, then a cast there and back
  for (int i = r.irange(0, 3); i > 0; --i) {
    const bool lower = r.coin();
    V v = r.vec(nx, 3);
    const bool wrong = r.coin(.2);
    if (wrong) {
      const V w = r.vec(nx + 1);
      c.check(vf::throws([&] { lower ? s->set_lb(w) : s->set_ub(w); }), "bounds:wrong-dimension-accepted");
    } else {
      if (r.coin(.3)) v[0] = lower ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
      lower ? s->set_lb(v) : s->set_ub(v);
      (lower ? lb : ub) = v;
    }
    c.check(s->get_lb() == lb && s->get_ub() == ub, "bounds-after-set");
    c.check(s->get_has_limits() == (lb.array().isFinite().any() || ub.array().isFinite().any()), "has_limits-after-set");
    c.count("limit changes");
  }
  cr::StateMultibodyTpl<double> t = s->cast<double>();
  c.check(t.get_lb() == lb && t.get_ub() == ub && t.get_has_limits() == s->get_has_limits(), "cast:bounds");
  const cr::StateMultibodyTpl<float> f = s->cast<float>();
  bool close = f.get_nx() == s->get_nx() && f.get_ndx() == s->get_ndx() && f.get_nq() == s->get_nq();
  for (int i = 0; close && i < nx; ++i) close = std::abs(lb[i]) > 1e30 ? f.get_lb()[i] < -1e30 : std::abs(double(f.get_lb()[i]) - lb[i]) < 1e-5 * (1 + std::abs(lb[i]));
  for (int i = 0; close && i < nx; ++i) close = std::abs(ub[i]) > 1e30 ? f.get_ub()[i] > 1e30 : std::abs(double(f.get_ub()[i]) - ub[i]) < 1e-5 * (1 + std::abs(ub[i]));
  c.check(close, "cast:float-bounds");
  const V x0 = point(r, m, .5), x1 = point(r, m, .5);
  const Eigen::VectorXf xf0 = x0.cast<float>(), xf1 = x1.cast<float>();
  Eigen::VectorXf df(f.get_ndx());
  f.diff(xf0, xf1, df);
  c.check(vf::relerr(V(df.cast<double>()), minus(m, x1, x0)) < 1e-3, "cast:float-diff", VF_STR(df.transpose() << " / " << minus(m, x1, x0).transpose()));
  c.check(vf::same(t.diff_dx(x0, x1), s->diff_dx(x0, x1)) && vf::same(t.zero(), s->zero()), "cast:diff");
  std::ostringstream os;
  os << *s;
  c.check(os.str().find(VF_STR("nx=" << nx).operator std::string()) != std::string::npos, "printing", os.str());
  c.count("limits and casts");
  c.sig(VF_STR("l" << shape(b) << none));
}

// ---- actuations ----
typedef std::shared_ptr<cr::ActuationDataAbstract> ADataP;
static bool tau_set_ok(const std::vector<bool>& a, const std::vector<bool>& b) { return a == b; }
VF_SCENARIO(joint_actuations, 1500, 30000) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const StateP s = state_of(b);
  const bool full = r.coin(.35);
  ActP act = actuation(r, b, s, full ? 0 : 1);
  const int nfb = full ? 0 : b.floating ? m.joints[1].nv() : 0, nu = m.nv - nfb;
  if (nu == 0) return;
  if (r.coin(.3)) {
    auto p = full ? ActP(std::make_shared<cr::ActuationModelFull>(std::static_pointer_cast<cr::ActuationModelFull>(act)->cast<double>()))
                  : ActP(std::make_shared<cr::ActuationModelFloatingBase>(std::static_pointer_cast<cr::ActuationModelFloatingBase>(act)->cast<double>()));
    act = p;
    c.count("casts");
  }
  c.check(int(act->get_nu()) == nu, "nu", VF_STR(act->get_nu() << " " << nu));
  M B = M::Zero(m.nv, nu);
  B.bottomRows(nu).setIdentity();
  std::vector<bool> set(m.nv, true);
  for (int i = 0; i < nfb; ++i) set[i] = false;
  std::vector<ADataP> ds;
  for (int i = r.irange(1, 3); i > 0; --i) ds.push_back(act->createData());
  for (int k = r.irange(2, 8); k > 0; --k) {
    const ADataP d = r.pick(ds);
    const V x = point(r, m), u = r.vec(nu, 2), tau = r.vec(m.nv, 3);
    switch (r.irange(0, 4)) {
      case 0:
      case 1:
        act->calc(d, x, u);
        c.check(vf::relerr(d->tau, B * u) < 1e-14, "tau", VF_STR(d->tau.transpose() << " / " << (B * u).transpose()));
        act->calcDiff(d, x, u);
        c.check(vf::same(M(d->dtau_du), B), "dtau_du");
        c.check(vf::amax(d->dtau_dx) == 0, "dtau_dx");
        break;
      case 2:
        act->commands(d, x, tau);
        c.check(vf::relerr(d->u, tau.tail(nu)) < 1e-14, "commands");
        act->calc(d, x, d->u);
        c.check(vf::relerr(d->tau.tail(nu), tau.tail(nu)) < 1e-14 && vf::amax(V(d->tau.head(nfb))) == 0, "commands-then-tau");
        break;
      case 3:
        act->torqueTransform(d, x, u);
        c.check(vf::same(M(d->Mtau), M(B.transpose())), "Mtau");
        break;
      default:
        c.check(vf::throws([&] { act->calc(d, x, r.vec(nu + 1)); }) && vf::throws([&] { act->commands(d, x, r.vec(m.nv + 1)); }), "wrong-dimension-accepted");
    }
    c.check(tau_set_ok(d->tau_set, set), "tau_set");
  }
  c.count(full ? "full actuations" : "floating-base actuations");
  c.sig(VF_STR("a" << full << shape(b)));
}
static cr::Thruster thruster(Rng& r) { return cr::Thruster(pose(r), r.uni(.01, .3), r.coin() ? cr::CW : cr::CCW, r.uni(0, 1), r.uni(2, 5)); }
static M wrench(const std::vector<cr::Thruster>& t, int nv, int nj) {
  M B = M::Zero(nv, t.size() + nj);
  for (std::size_t i = 0; i < t.size(); ++i) {
    const Eigen::Vector3d z = t[i].pose.rotation().col(2), p = t[i].pose.translation();
    B.col(i).head(3) = z;
    B.col(i).segment(3, 3) = Eigen::Vector3d(p[1] * z[2] - p[2] * z[1], p[2] * z[0] - p[0] * z[2], p[0] * z[1] - p[1] * z[0]) + (t[i].type == cr::CW ? 1. : -1.) * t[i].ctorque * z;
  }
  B.bottomRightCorner(nj, nj).setIdentity();
  return B;
}
VF_SCENARIO(thruster_actuations, 1200, 25000) {
  const Robot b = robot(r, 1);
  const pin::Model& m = *b.model;
  const StateP s = state_of(b);
  const int nt = r.irange(1, 7), nj = m.nv - 6, nu = nt + nj;
  std::vector<cr::Thruster> t;
  for (int i = 0; i < nt; ++i) t.push_back(thruster(r));
  if (nt > 1 && r.coin(.2)) t[1] = t[0];  // thrusts that cannot be told apart
  auto act = std::make_shared<cr::ActuationModelFloatingBaseThrusters>(s, t);
  std::vector<ADataP> ds;
  for (int i = r.irange(1, 3); i > 0; --i) ds.push_back(act->createData());
  std::string h;
  for (int k = r.irange(3, 12); k > 0; --k) {
    const M B = wrench(t, m.nv, nj);
    const Eigen::JacobiSVD<M> sv(B, Eigen::ComputeThinU | Eigen::ComputeThinV);
    const V w = sv.singularValues();
    M P = M::Zero(nu, m.nv);  // pseudo-inverse
    bool clear = true;
    for (int i = 0; i < w.size(); ++i) {
      if (w[i] > 1e-6) P += sv.matrixV().col(i) * sv.matrixU().col(i).transpose() / w[i];
      else if (w[i] > 1e-13) clear = false;
      if (w[i] > 1e-6 && w[i] < 1e-3) clear = false;
    }
    const ADataP d = r.pick(ds);
    const V x = point(r, m), u = r.vec(nu, 2), tau = r.vec(m.nv, 3);
    const int op = r.irange(0, 5);
    h += "ctmnsw"[op];
    c.check(int(act->get_nu()) == nu && int(act->get_nthrusters()) == nt, "thrusters:dimensions");
    c.check(err(act->get_Wthrust(), B) < 1e-13, "thrusters:W_thrust");
    if (clear) c.check(err(act->get_S(), B * P) < 1e-7, "thrusters:S");
    if (op == 0) {
      act->calc(d, x, u);
      c.check(vf::relerr(d->tau, B * u) < 1e-13, "thrusters:tau", VF_STR(d->tau.transpose() << " / " << (B * u).transpose()));
      act->calcDiff(d, x, u);
      c.check(err(d->dtau_du, B) < 1e-13 && vf::amax(d->dtau_dx) == 0, "thrusters:derivatives");
    } else if (op == 1 && clear) {
      act->commands(d, x, tau);
      c.check(vf::relerr(d->u, P * tau) < 1e-7, "thrusters:commands", VF_STR(d->u.transpose() << " / " << (P * tau).transpose()));
      const V f = B * u;  // torques the thrusters can produce
      act->commands(d, x, f);
      act->calc(d, x, d->u);
      c.check(vf::relerr(d->tau, f) < 1e-7, "thrusters:commands-then-tau");
    } else if (op == 2 && clear) {
      act->calc(d, x, u);
      act->torqueTransform(d, x, u);
      c.check(err(d->Mtau, P) < 1e-7, "thrusters:Mtau");
      const M S = B * P;
      for (int i = 0; i < m.nv; ++i)
        if (std::abs(S(i, i)) > 1e-9) c.check(d->tau_set[i], "thrusters:tau_set", VF_STR(i));
    } else if (op == 3) {
      std::vector<cr::Thruster> n;
      for (int i = 0; i < nt; ++i) n.push_back(r.coin(.7) ? thruster(r) : t[i]);
      act->set_thrusters(n);
      t = n;
      bool same = act->get_thrusters().size() == n.size();
      for (int i = 0; same && i < nt; ++i) same = act->get_thrusters()[i] == n[i];
      c.check(same, "thrusters:kept");
      c.count("thruster changes");
    } else if (op == 4) {
      auto p = std::make_shared<cr::ActuationModelFloatingBaseThrusters>(act->cast<double>());
      auto e = p->createData();
      p->calc(e, x, u);
      c.check(vf::relerr(e->tau, B * u) < 1e-13, "thrusters:cast");
      bool same = p->get_thrusters().size() == t.size();
      for (int i = 0; same && i < nt; ++i) same = p->get_thrusters()[i] == t[i];
      c.check(same, "thrusters:cast-limits");
      c.count("casts");
    } else if (op == 5) {
      std::vector<cr::Thruster> n(t);
      n.push_back(thruster(r));
      c.check(vf::throws([&] { act->set_thrusters(n); }) && vf::throws([&] { act->calc(d, x, r.vec(nu + 1)); }), "thrusters:wrong-dimension-accepted");
    }
  }
  const Robot g = robot(r, 0);
  c.check(vf::throws([&] { cr::ActuationModelFloatingBaseThrusters(state_of(g), t); }), "thrusters:fixed-base-accepted");
  const cr::Thruster a(.1), q(t[0]);
  c.check(a.type == cr::CW && a.min_thrust == 0 && std::isinf(a.max_thrust) && a.pose.rotation().isIdentity(0) && a.pose.translation().isZero(0) && a.ctorque == .1, "thruster:defaults");
  c.check(q == t[0], "thruster:copy");
  cr::Thruster v(.2);
  v = t[0];
  c.check(v == t[0] && v.min_thrust == t[0].min_thrust && v.max_thrust == t[0].max_thrust && v.type == t[0].type, "thruster:assignment");
  c.count("thruster histories");
  c.sig(VF_STR("t" << nt << nj << h));
}
VF_MAIN("C37")
