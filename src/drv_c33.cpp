// C33: control / joint-effort / joint-acceleration residuals, alone and inside
// residual costs and constraints
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;
typedef std::shared_ptr<cr::JointDataAbstract> JointP;
struct Joint : cr::DataCollectorJoint { explicit Joint(JointP j) : cr::DataCollectorJoint(j) {} };

// what the joint data would hold for a smooth system: q = f(x,u)
struct Src { Fn tau, a; };
static V zvec(const StateP& s, const V& x, const V& u) { V d(s->get_ndx()); s->diff(s->zero(), x, d); V z(d.size() + u.size()); z << d, u; return z; }
static void fill(vf::Rng&, const StateP& s, const Src& f, const V& x, const V& u, bool xdep, cr::JointDataAbstract* j, bool deriv) {
  const int n = int(s->get_ndx());
  M jd = M::Zero(n, n), j0 = M::Zero(n, n);
  s->Jdiff(s->zero(), x, j0, jd, cr::second);
  V z = zvec(s, x, u);
  if (!xdep) z.head(n).setZero();
  j->tau = f.tau.val(z);
  j->a = f.a.val(zvec(s, x, u));
  if (deriv) {
    const M t = f.tau.jac(z), a = f.a.jac(zvec(s, x, u));
    j->dtau_dx = t.leftCols(n) * jd;
    if (!xdep) j->dtau_dx.setZero();
    j->dtau_du = t.rightCols(u.size());
    j->da_dx = a.leftCols(n) * jd;
    j->da_du = a.rightCols(u.size());
  }
}
VF_SCENARIO(residuals, 12000, 500000) {
  StateP s = random_dyn_state(r);
  const int nv = int(s->get_nv()), ndx = int(s->get_ndx());
  const int kind = r.irange(0, 2);
  const int nact = kind == 1 ? r.irange(1, nv) : nv;
  const int ctor = kind == 0 ? r.irange(0, 2) : r.irange(0, 3);
  int nu = kind == 0 ? (ctor == 2 ? nv : r.irange(1, 5)) : r.irange(1, 5);
  bool fwd = false;
  std::shared_ptr<ActuNL> act = std::make_shared<ActuNL>(r, s, nact, 0.2, 1.);
  V ref;
  int nr;
  ResP m;
  std::string name;
  if (kind == 0) {
    nr = nu;
    ref = V::Zero(nu);
    name = "control";
    if (ctor == 0) { ref = r.vec(nu); m = std::make_shared<cr::ResidualModelControl>(s, ref); }
    else if (ctor == 1) m = std::make_shared<cr::ResidualModelControl>(s, nu);
    else m = std::make_shared<cr::ResidualModelControl>(s);
  } else if (kind == 1) {
    nr = nact;
    ref = V::Zero(nr);
    name = "effort";
    if (ctor == 0) { ref = r.vec(nr); fwd = r.coin(); m = std::make_shared<cr::ResidualModelJointEffort>(s, act, ref, nu, fwd); }
    else if (ctor == 1) { nu = nv; ref = r.vec(nr); m = std::make_shared<cr::ResidualModelJointEffort>(s, act, ref); }
    else if (ctor == 2) m = std::make_shared<cr::ResidualModelJointEffort>(s, act, nu);
    else { nu = nv; m = std::make_shared<cr::ResidualModelJointEffort>(s, act); }
  } else {
    nr = nv;
    ref = V::Zero(nr);
    name = "acceleration";
    if (ctor == 0) { ref = r.vec(nr); m = std::make_shared<cr::ResidualModelJointAcceleration>(s, ref, nu); }
    else if (ctor == 1) { nu = nv; ref = r.vec(nr); m = std::make_shared<cr::ResidualModelJointAcceleration>(s, ref); }
    else if (ctor == 2) m = std::make_shared<cr::ResidualModelJointAcceleration>(s, nu);
    else { nu = nv; m = std::make_shared<cr::ResidualModelJointAcceleration>(s); }
  }
  c.count(name);
  if (fwd) c.count("forward-dynamics effort");
  auto refget = [&]() -> V {
    if (kind == 0) return std::static_pointer_cast<cr::ResidualModelControl>(m)->get_reference();
    if (kind == 1) return std::static_pointer_cast<cr::ResidualModelJointEffort>(m)->get_reference();
    return std::static_pointer_cast<cr::ResidualModelJointAcceleration>(m)->get_reference();
  };
  auto refset = [&](const V& v) {
    if (kind == 0) std::static_pointer_cast<cr::ResidualModelControl>(m)->set_reference(v);
    else if (kind == 1) std::static_pointer_cast<cr::ResidualModelJointEffort>(m)->set_reference(v);
    else std::static_pointer_cast<cr::ResidualModelJointAcceleration>(m)->set_reference(v);
  };
  c.check(int(m->get_nr()) == nr && int(m->get_nu()) == nu && m->get_state() == s, "dimensions", VF_STR(name << ctor));
  c.check(vf::same(refget(), ref), "initial-reference", VF_STR(name << ctor));
  const bool xdep = !fwd;
  const bool wq = kind == 0 ? false : kind == 1 ? !fwd : true;
  c.check(m->get_q_dependent() == wq && m->get_v_dependent() == wq && m->get_u_dependent(), "dependence-flags", VF_STR(name << ctor));
  Src src{Fn(r, nact, ndx + nu, 0.8, 0.4), Fn(r, nv, ndx + nu, 0.8, 0.4)};
  auto mkjoint = [&] { return std::make_shared<cr::JointDataAbstract>(s, act, nu); };
  JointP jd = mkjoint(), jd2 = mkjoint();
  Joint col(jd), col2(jd2);
  c.check(jd->tau.isZero() && jd->a.isZero() && jd->dtau_dx.isZero() && jd->dtau_du.isZero() && jd->da_dx.isZero() && jd->da_du.isZero() &&
              jd->tau.size() == nact && jd->a.size() == nv && jd->dtau_dx.cols() == ndx && jd->dtau_du.cols() == nu, "joint-data:initial");
  auto d = m->createData(&col), d2 = m->createData(&col2);
  // cost and constraint over the same residual
  const int ak = r.irange(0, NACTV - 1);
  Actv av = make_actv(r, nr, ak);
  auto cost = std::make_shared<cr::CostModelResidual>(s, av.m, m);
  auto cdat = cost->createData(&col);
  const bool ineq = r.coin();
  V lo, up;
  random_bounds(r, nr, &lo, &up, false);
  ConP con = ineq ? ConP(std::make_shared<cr::ConstraintModelResidual>(s, m, lo, up)) : ConP(std::make_shared<cr::ConstraintModelResidual>(s, m));
  auto kdat = con->createData(&col);
  std::string hist;
  for (int k = 0; k < 4; ++k) {
    if (r.coin(0.4)) { ref = r.vec(nr, 2); refset(ref); c.check(vf::same(refget(), ref), "set_reference"); hist += "r"; }
    if (r.coin(0.2)) {
      c.check(vf::throws([&] { refset(V::Zero(nr + 1)); }) && vf::throws([&] { refset(V::Zero(nr - 1)); }) && vf::same(refget(), ref), "reference-wrong-size-accepted", name);
      c.count("wrong references");
    }
    const V x = random_x(r, s), u = r.vec(nu);
    fill(r, s, src, x, u, xdep, jd.get(), true);
    auto full = [&](const V& xx, const V& uu) -> V {
      if (kind == 0) return uu - ref;
      auto q = mkjoint();
      fill(r, s, src, xx, uu, xdep, q.get(), false);
      return kind == 1 ? V(q->tau - ref) : V(q->a - ref);
    };
    const bool terminal = r.coin(0.35);
    hist += terminal ? "T" : "R";
    M Rx, Ru;
    V want;
    if (!terminal) {
      want = full(x, u);
      Rx = kind == 0 ? M(M::Zero(nr, ndx)) : kind == 1 ? jd->dtau_dx : jd->da_dx;
      Ru = kind == 0 ? M(M::Identity(nr, nu)) : kind == 1 ? jd->dtau_du : jd->da_du;
      c.check(vf::relerr(Rx, fd([&](const V& e) { return full(plus(s, x, e), u); }, ndx)) < 1e-6, "harness:Rx");
      m->calc(d, x, u);
      if (r.coin()) { fill(r, s, src, random_x(r, s), r.vec(nu), xdep, jd2.get(), true); m->calc(d2, random_x(r, s), r.vec(nu)); m->calcDiff(d2, random_x(r, s), r.vec(nu)); }
      m->calcDiff(d, x, u);
      c.check(vf::relerr(d->Ru, Ru) < 1e-12, "Ru", VF_STR(name << ctor << " " << hist << "\n" << d->Ru << "\nvs\n" << Ru));
    } else {
      // terminal: efforts/accelerations that need a control vanish, the others stay
      const bool zero = kind == 0 || kind == 2 || fwd;
      want = zero ? V(V::Zero(nr)) : full(x, u);
      Rx = zero ? M(M::Zero(nr, ndx)) : jd->dtau_dx;
      m->calc(d, x);
      m->calcDiff(d, x);
    }
    c.check(vf::relerr(d->r, want) < 1e-12, "value", VF_STR(name << ctor << " " << hist << " " << d->r.transpose() << " vs " << want.transpose()));
    c.check(vf::relerr(d->Rx, Rx) < 1e-12, "Rx", VF_STR(name << ctor << " " << hist << "\n" << d->Rx << "\nvs\n" << Rx));
    // cost: chain rule / Gauss-Newton
    if (!(av.ref.kind == "2norm" && want.norm() < 1e-3)) {
      if (terminal) { cost->calc(cdat, x); cost->calcDiff(cdat, x); } else { cost->calc(cdat, x, u); cost->calcDiff(cdat, x, u); }
      const V g = av.ref.grad(want);
      const M H = av.ref.hess(want).asDiagonal();
      const std::string w = name + std::to_string(ctor) + "/" + av.ref.kind + "/" + hist;
      // a residual that does not depend on the state costs nothing at the terminal node
      c.check(vf::relerr(cdat->cost, terminal && !wq ? 0. : av.ref.val(want)) < 1e-10, "cost:value", w);
      c.check(vf::relerr(cdat->Lx, V(Rx.transpose() * g)) < 1e-9, "cost:Lx", w);
      c.check(vf::relerr(cdat->Lxx, M(Rx.transpose() * H * Rx)) < 1e-9, "cost:Lxx", w);
      if (!terminal) {
        c.check(vf::relerr(cdat->Lu, V(Ru.transpose() * g)) < 1e-9, "cost:Lu", w);
        c.check(vf::relerr(cdat->Luu, M(Ru.transpose() * H * Ru)) < 1e-9, "cost:Luu", w);
        c.check(vf::relerr(cdat->Lxu, M(Rx.transpose() * H * Ru)) < 1e-9, "cost:Lxu", w);
      }
      c.count(terminal ? "terminal costs" : "running costs");
    }
    if (terminal) { con->calc(kdat, x); con->calcDiff(kdat, x); } else { con->calc(kdat, x, u); con->calcDiff(kdat, x, u); }
    const V& kv = ineq ? kdat->g : kdat->h;
    const M& kx = ineq ? kdat->Gx : kdat->Hx;
    const M& ku = ineq ? kdat->Gu : kdat->Hu;
    c.check(vf::relerr(kv, want) < 1e-12 && vf::relerr(kx, Rx) < 1e-12, "constraint:value-Jx", VF_STR(name << ctor << hist));
    if (!terminal) c.check(vf::relerr(ku, Ru) < 1e-12, "constraint:Ju", VF_STR(name << ctor << hist));
    c.count("constraints");
  }
  if (kind == 0) c.check(vf::throws([&] { m->calc(d, s->zero(), V::Zero(nu + 1)); }), "control:wrong-size-accepted");
  if (kind == 1) {
    c.check(vf::throws([&] { cr::ResidualModelJointEffort q(s, act, V::Zero(nact + 1), nu); (void)q; }), "effort:ctor-accepts-wrong-reference");
    c.check(vf::throws([&] { cr::ResidualModelJointEffort q(s, act, V::Zero(nact + 1)); (void)q; }), "effort:ctor-accepts-wrong-reference2");
    c.check(vf::throws([&] { cr::ResidualModelJointEffort q(s, act, std::size_t(0)); (void)q; }), "effort:ctor-accepts-autonomous");
  }
  if (kind == 2) {
    c.check(vf::throws([&] { cr::ResidualModelJointAcceleration q(s, V::Zero(nv + 1), nu); (void)q; }), "acceleration:ctor-accepts-wrong-reference");
    c.check(vf::throws([&] { cr::ResidualModelJointAcceleration q(s, V::Zero(nv + 1)); (void)q; }), "acceleration:ctor-accepts-wrong-reference2");
  }
  c.sig(name + std::to_string(ctor) + hist + av.ref.kind + (fwd ? "f" : "") + std::to_string(ndx) + "," + std::to_string(nu));
}
VF_MAIN("C33")
