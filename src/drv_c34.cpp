// C34: the multibody actions obey the equations of motion, and report their exact derivatives.
#include "mb.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/multibody/actions/contact-fwddyn.hpp"
#include "crocoddyl/multibody/actions/contact-invdyn.hpp"
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actions/free-invdyn.hpp"
#include "crocoddyl/multibody/actions/impulse-fwddyn.hpp"
#include "crocoddyl/multibody/residuals/com-position.hpp"
#include "crocoddyl/multibody/residuals/frame-placement.hpp"
#include "crocoddyl/multibody/residuals/impulse-com.hpp"
using namespace mb;
typedef std::shared_ptr<cr::CostModelSum> CostsP;
typedef std::shared_ptr<cr::ConstraintModelManager> ConsP;
typedef std::vector<Spec> Specs;

static V state_error(const pin::Model& m, const V& ref, const V& x) {
  V e(2 * m.nv);
  e << pv::difference(m, V(ref.head(m.nq)), V(x.head(m.nq))), x.tail(m.nv) - ref.tail(m.nv);
  return e;
}
// torque of the joints the actuation stands for
static V torque(const pin::Model& m, ActP act, StateP s, const V& x, const V& u) {
  if (std::dynamic_pointer_cast<cr::ActuationModelFloatingBaseThrusters>(act)) {
    auto d = act->createData();
    act->calc(d, x, u);
    return d->tau;
  }
  V t = V::Zero(m.nv);
  t.tail(u.size()) = u;
  return t;
}
struct Costs { CostsP sum; V xref, uref, aref; double wx, wu, wa; };
static Costs costs(Rng& r, const Robot& b, StateP s, std::size_t nu, bool acceleration) {
  Costs o;
  o.sum = std::make_shared<cr::CostModelSum>(s, nu);
  o.xref = point(r, *b.model, .5);
  o.uref = r.vec(nu);
  o.aref = r.vec(s->get_nv());
  o.wx = r.uni(.1, 2);
  o.wu = nu ? r.uni(.1, 2) : 0;
  o.wa = acceleration && r.coin(.7) ? r.uni(.1, 2) : 0;
  o.sum->addCost("x", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelState>(s, o.xref, nu)), o.wx);
  if (nu) o.sum->addCost("u", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelControl>(s, o.uref)), o.wu);
  if (o.wa > 0) o.sum->addCost("a", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelJointAcceleration>(s, o.aref, nu)), o.wa);
  return o;
}
static double cost(const Costs& k, const pin::Model& m, const V& x, const V& u, const V& a) {
  return .5 * (k.wx * state_error(m, k.xref, x).squaredNorm() + (k.wu > 0 ? k.wu * (u - k.uref).squaredNorm() : 0.) + (k.wa > 0 ? k.wa * (a - k.aref).squaredNorm() : 0.));
}
static ConsP limits(Rng& r, StateP s, std::size_t nu) {
  auto m = std::make_shared<cr::ConstraintModelManager>(s, nu);
  const V lb = -V::Constant(s->get_ndx(), 1.) - r.vec(s->get_ndx(), .5), ub = V::Constant(s->get_ndx(), 1.) + r.vec(s->get_ndx(), .5);
  m->addConstraint("limits", std::make_shared<cr::ConstraintModelResidual>(s, std::make_shared<cr::ResidualModelState>(s, s->zero(), nu), lb, ub, r.coin()));
  return m;
}
static bool angle_ok(const Spec& s, const pin::Model& m, const V& x) {
  return s.dim != 6 || pv::log3(s.pref.R.transpose() * frame(m, s.id, x, V::Zero(m.nv)).oMf.R).norm() < 2.6;
}
static M stacked(const Specs& ss, const pin::Model& m, const V& x) {
  std::vector<M> l;
  long n = 0;
  for (auto& s : ss) if (s.active) l.push_back(row(s, m, x, V::Zero(m.nv)).J), n += l.back().rows();
  M J(n, m.nv);
  n = 0;
  for (auto& j : l) J.middleRows(n, j.rows()) = j, n += j.rows();
  return J;
}
static double smallest(const M& J) { return J.rows() ? (J.rows() > J.cols() ? 0. : J.jacobiSvd().singularValues().tail(1)[0]) : 1e9; }
static pin::container::aligned_vector<pin::Force> forces(const Specs& ss, const pin::Model& m, const V& x, const V& lambda, bool all = false) {
  pin::container::aligned_vector<pin::Force> f(m.njoints, pin::Force::Zero());
  long k = 0;
  for (auto& s : ss) {
    if (s.active) f[m.frames[s.id].parentJoint] += joint_force(s, m, x, lambda.segment(k, s.dim));
    if (s.active || all) k += s.dim;
  }
  return f;
}
static std::string names(const Specs& ss) {
  std::string s;
  for (auto& k : ss) s += (k.active ? "" : "-") + std::to_string(k.dim) + "WLA"[int(k.type)];
  return s;
}
static Specs contacts(Rng& r, const Robot& b, StateP s, std::size_t nu, std::shared_ptr<cr::ContactModelMultiple>& cm, int nmax = 3) {
  Specs o;
  cm = std::make_shared<cr::ContactModelMultiple>(s, nu);
  const int n = r.irange(0, 8) ? r.irange(1, nmax) : 0;
  for (int i = 0; i < n; ++i) {
    Spec k = spec(r, b, "c" + std::to_string(i), r.pick({1, 2, 3, 3, 6}));
    k.active = r.coin(.8);
    o.push_back(k);
    cm->addContact(k.name, contact(k, s, nu), k.active);
  }
  return o;
}
template <class D>
static double force_err(const D& fext, const pin::container::aligned_vector<pin::Force>& f) {
  double e = 0, s = 1;
  for (std::size_t j = 0; j < f.size(); ++j) {
    if (!vf::finite(fext[j].d)) return 1e300;
    e = std::max(e, (fext[j].d - f[j].d).cwiseAbs().maxCoeff());
    s = std::max(s, f[j].d.cwiseAbs().maxCoeff());
  }
  return e / s;
}

// ---- the stand-in obeys physics: this judges the oracle, not crocoddyl ----
VF_SCENARIO(stand_in, 24, 200) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const V x = point(r, m), q = x.head(m.nq), v = x.tail(m.nv), a = r.vec(m.nv), z = V::Zero(m.nv);
  const double h = 1e-3;
  // a short motion with velocity v + a t
  auto at = [&](double t) { V y(x.size()); y << pv::integrate(m, q, V(t * v + .5 * t * t * a)), v + t * a; return y; };
  auto energy = [&](const V& y) {
    const pv::Kin k = pv::kinematics(m, V(y.head(m.nq)), V(y.tail(m.nv)), z);
    double e = 0;
    for (int i = 1; i < m.njoints; ++i) {
      const pv::V3 c = k.oMi[i].act(m.bodies[i].com), vc = k.oMi[i].R * (k.v[i].linear() + k.v[i].angular().cross(m.bodies[i].com)), w = k.v[i].angular();
      e += .5 * m.bodies[i].mass * vc.squaredNorm() + .5 * w.dot(m.bodies[i].I * w) - m.bodies[i].mass * m.gravity.linear().dot(c);
    }
    return e;
  };
  const double dE = (8 * (energy(at(h)) - energy(at(-h))) - (energy(at(2 * h)) - energy(at(-2 * h)))) / (12 * h);
  const double power = v.dot(pv::rnea(m, q, v, a));
  c.check(std::abs(dE - power) < 1e-6 * (1 + std::abs(power)), "stand-in:power", VF_STR(dE << " " << power));
  c.check(std::abs(.5 * v.dot(mass(m, x) * v) - (energy(x) - energy([&] { V y = x; y.tail(m.nv).setZero(); return y; }()))) < 1e-9 * (1 + std::abs(energy(x))), "stand-in:kinetic-energy");
  const pin::FrameIndex id = r.pick(b.tips);
  const FrameKin f = frame(m, id, x, a);
  auto pos = [&](double t) { return V(frame(m, id, at(t), a).oMf.p); };
  const V vel = (8 * (pos(h) - pos(-h)) - (pos(2 * h) - pos(-2 * h))) / (12 * h), acc = (16 * (pos(h) + pos(-h)) - (pos(2 * h) + pos(-2 * h)) - 30 * pos(0)) / (12 * h * h);
  // on joints with rotations t v + t^2 a / 2 is a curve of acceleration a only at t = 0
  c.check(err(f.oMf.R * f.v.head<3>(), vel) < 1e-7, "stand-in:velocity", VF_STR((f.oMf.R * f.v.head<3>()).transpose() << " / " << vel.transpose()));
  c.check(err(f.oMf.R * f.classical, acc) < 1e-4, "stand-in:acceleration", VF_STR((f.oMf.R * f.classical).transpose() << " / " << acc.transpose()));
  c.check(err(f.J * v, f.v) < 1e-10, "stand-in:jacobian");
  c.sig(shape(b));
}

// ---- free forward dynamics ----
VF_SCENARIO(free_forward, 120, 1500) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  auto s = std::make_shared<cr::StateMultibody>(b.model);
  ActP act = actuation(r, b, s);
  const std::size_t nu = act->get_nu();
  const Costs k = costs(r, b, s, nu, true);
  ConsP cons = r.coin() ? limits(r, s, nu) : nullptr;
  auto model = std::make_shared<cr::DifferentialActionModelFreeFwdDynamics>(s, act, k.sum, cons);
  V arm = V::Zero(m.nv);
  if (r.coin(.4)) { arm = r.vec(m.nv).cwiseAbs() * 3; model->set_armature(arm); }
  auto d = model->createData(), d2 = model->createData();
  auto eval = [&](const std::shared_ptr<cr::DifferentialActionDataAbstract>& dd, const V& x, const V& u) {
    model->calc(dd, x, u);
    V o(m.nv + 1 + dd->g.size() + dd->h.size());
    o << dd->xout, dd->cost, dd->g, dd->h;
    return o;
  };
  const int n = r.irange(1, 3);
  for (int i = 0; i < n; ++i) {
    if (r.coin(.3)) { const V y = point(r, m); model->calc(d, y); model->calcDiff(d, y); }
    const V x = point(r, m), u = r.vec(nu, 3.);
    eval(d, x, u);
    const V a = d->xout, tau = torque(m, act, s, x, u);
    const V e = pv::rnea(m, V(x.head(m.nq)), V(x.tail(m.nv)), a) + arm.cwiseProduct(a) - tau;
    const double scale = 1 + nle(m, x).cwiseAbs().maxCoeff() + tau.cwiseAbs().maxCoeff() + a.cwiseAbs().maxCoeff();
    if (!c.check(vf::finite(a) && e.cwiseAbs().maxCoeff() < 1e-8 * scale, "free:motion", VF_STR("M a + h - tau = " << e.transpose() << " " << shape(b) << " armature=" << arm.transpose()))) return;
    c.check(std::abs(d->cost - cost(k, m, x, u, a)) < 1e-8 * (1 + std::abs(d->cost)), "free:cost", VF_STR(d->cost << " expected " << cost(k, m, x, u, a)));
    model->calcDiff(d, x, u);
    const M X = ddx(m, x, [&](const V& y) { return eval(d2, y, u); }), U = ddu(u, [&](const V& w) { return eval(d2, x, w); });
    M x0(X.rows(), X.cols()), u0(U.rows(), U.cols());
    x0 << d->Fx, d->Lx.transpose(), d->Gx, d->Hx;
    u0 << d->Fu, d->Lu.transpose(), d->Gu, d->Hu;
    c.maxi("free: largest derivative error", std::max(err(x0, X), err(u0, U)));
    c.check(err(x0, X) < 1e-5, "free:state-derivatives", VF_STR(err(x0, X) << " " << shape(b) << " armature " << arm.transpose()));
    c.check(err(u0, U) < 1e-5, "free:control-derivatives", VF_STR(err(u0, U) << " " << shape(b)));
    // quasi-static control: as close to equilibrium as any control can be
    V w = V::Constant(nu, 7.);
    model->quasiStatic(d, w, x);
    V x1 = x;
    x1.tail(m.nv).setZero();
    M S(m.nv, nu);
    for (std::size_t j = 0; j < nu; ++j) S.col(j) = torque(m, act, s, x1, V::Unit(nu, j)) - torque(m, act, s, x1, V::Zero(nu));
    const V g = nle(m, x1), w0 = S.completeOrthogonalDecomposition().solve(g);
    c.check(vf::finite(w) && (S * w - g).norm() <= (S * w0 - g).norm() + 1e-6 * (1 + g.norm()), "free:quasi-static", VF_STR((S * w - g).norm() << " > " << (S * w0 - g).norm()));
    if (arm.isZero()) c.count("free forward dynamics points"); else c.count("free forward dynamics points with armature");
  }
  c.check((V(model->get_u_ub()) - m.effortLimit.tail(nu)).isZero(1e-12) && (V(model->get_u_lb()) + m.effortLimit.tail(nu)).isZero(1e-12), "free:control-bounds");
  const std::size_t ng = cons ? cons->get_ng() : 0;
  c.check(model->get_ng() == ng && std::size_t(model->get_g_lb().size()) == ng && std::size_t(model->get_g_ub().size()) == ng, "free:inequality-bounds", VF_STR(model->get_g_lb().size() << "," << model->get_g_ub().size() << " for " << ng));
  if (cons && cons->get_ng()) c.check((model->get_g_ub() - cons->get_ub()).isZero() && (model->get_g_lb() - cons->get_lb()).isZero(), "free:inequality-bounds");
  if (!cons) {
    model->set_g_ub(V(0)), model->set_g_lb(V(0));
    c.check(&model->get_g_ub() != &model->get_g_lb(), "free:upper-bound-is-lower-bound");
  }
  if (r.coin(.3)) {
    auto model2 = model->cast<double>();
    auto d3 = model2.createData();
    const V x = point(r, m), u = r.vec(nu);
    model2.calc(d3, x, u);
    model->calc(d, x, u);
    c.check((d3->xout - d->xout).norm() < 1e-9 * (1 + d->xout.norm()) && std::abs(d3->cost - d->cost) < 1e-9 * (1 + std::abs(d->cost)), "free:cast", VF_STR("armature " << arm.transpose()));
    c.count("casts");
  }
  c.sig("free " + shape(b) + (arm.isZero() ? "" : " armature") + (cons ? " constraints" : ""));
}

// ---- forward dynamics in contact ----
static V desired(const Specs& ss, const pin::Model& m, const V& x, const V& a) {
  V o(0);
  for (auto& s : ss) if (s.active) { const V k = row(s, m, x, a).a0; V p(o.size() + k.size()); p << o, k; o = p; }
  return o;
}
VF_SCENARIO(contact_forward, 150, 2500) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  auto s = std::make_shared<cr::StateMultibody>(b.model);
  ActP act = actuation(r, b, s);
  const std::size_t nu = act->get_nu();
  std::shared_ptr<cr::ContactModelMultiple> cm;
  Specs ss = contacts(r, b, s, nu, cm);
  const Costs k = costs(r, b, s, nu, true);
  ConsP cons = r.coin() ? limits(r, s, nu) : nullptr;
  const double damping = r.coin(.4) ? r.logu(1e-4, 1.) : 0.;
  auto model = cons ? std::make_shared<cr::DifferentialActionModelContactFwdDynamics>(s, act, cm, k.sum, cons, damping, true)
                    : std::make_shared<cr::DifferentialActionModelContactFwdDynamics>(s, act, cm, k.sum, damping, true);
  V arm = V::Zero(m.nv);
  if (r.coin(.35)) { arm = r.vec(m.nv).cwiseAbs() * 3; model->set_armature(arm); }
  typedef cr::DifferentialActionDataContactFwdDynamics Data;
  auto d = std::static_pointer_cast<Data>(model->createData()), d2 = std::static_pointer_cast<Data>(model->createData());
  auto eval = [&](const std::shared_ptr<Data>& dd, const V& x, const V& u) {
    model->calc(dd, x, u);
    const long nc = cm->get_nc();
    V o(m.nv + nc + 1 + dd->g.size() + dd->h.size());
    o << dd->xout, dd->pinocchio.lambda_c.head(nc), dd->cost, dd->g, dd->h;
    return o;
  };
  const int n = r.irange(1, 3);
  for (int i = 0; i < n; ++i) {
    for (auto& k : ss) if (i && r.coin(.3)) { k.active = !k.active; cm->changeContactStatus(k.name, k.active); }
    V x = point(r, m);
    const V u = r.vec(nu, 3.);
    const M J = stacked(ss, m, x);
    bool ok = smallest(J) > .15;
    for (auto& k : ss) ok = ok && angle_ok(k, m, x);
    if (!ok) { c.count("skipped: contacts not independent"); continue; }
    if (r.coin(.2)) { model->calc(d, x); model->calcDiff(d, x); }
    eval(d, x, u);
    const V a = d->xout, lambda = d->pinocchio.lambda_c, tau = torque(m, act, s, x, u);
    if (!c.check(lambda.size() == J.rows() && vf::finite(a) && vf::finite(lambda), "contact:forces", VF_STR(lambda.size()))) return;
    const auto F = forces(ss, m, x, lambda);
    const V e = pv::rnea(m, V(x.head(m.nq)), V(x.tail(m.nv)), a, &F) + arm.cwiseProduct(a) - tau;
    const double scale = 1 + nle(m, x).cwiseAbs().maxCoeff() + tau.cwiseAbs().maxCoeff() + a.cwiseAbs().maxCoeff() + (lambda.size() ? lambda.cwiseAbs().maxCoeff() : 0.);
    if (!c.check(e.cwiseAbs().maxCoeff() < 1e-8 * scale, "contact:motion", VF_STR("M a + h - tau - J'f = " << e.transpose() << " " << shape(b) << " " << names(ss)))) return;
    const V gap = desired(ss, m, x, a) + damping * lambda;
    const double gscale = scale + (lambda.size() ? desired(ss, m, x, V::Zero(m.nv)).cwiseAbs().maxCoeff() : 0.);
    if (!c.check(!gap.size() || gap.cwiseAbs().maxCoeff() < 1e-8 * gscale, "contact:acceleration", VF_STR("contact acceleration " << gap.transpose() << " " << names(ss) << " damping " << damping))) return;
    c.check(force_err(d->multibody.contacts->fext, F) < 1e-9, "contact:joint-forces", VF_STR(names(ss) << " " << shape(b)));
    for (auto& k : ss) {
      const auto& dk = d->multibody.contacts->contacts.at(k.name);
      if (!k.active) c.check(dk->f.toVector().isZero() && dk->fext.toVector().isZero(), "contact:force-of-inactive");
    }
    c.check((d->multibody.joint->a - a).isZero() && (d->multibody.joint->tau - u).isZero(), "contact:joint-data");
    c.check(std::abs(d->cost - cost(k, m, x, u, a)) < 1e-8 * (1 + std::abs(d->cost)), "contact:cost");
    model->calcDiff(d, x, u);
    const M X = ddx(m, x, [&](const V& y) { return eval(d2, y, u); }), U = ddu(u, [&](const V& w) { return eval(d2, x, w); });
    M x0(X.rows(), X.cols()), u0(U.rows(), U.cols());
    const long nc = lambda.size();
    x0 << d->Fx, d->df_dx.topRows(nc), d->Lx.transpose(), d->Gx, d->Hx;
    u0 << d->Fu, d->df_du.topRows(nc), d->Lu.transpose(), d->Gu, d->Hu;
    std::string shared;
    for (auto& p : ss) for (auto& q : ss) if (&p < &q && p.active && q.active && m.frames[p.id].parentJoint == m.frames[q.id].parentJoint) shared = " shared joint";
    const double tol = 1e-5;
    c.maxi("contact: largest derivative error", std::max(err(x0, X), err(u0, U)));
    c.check(err(x0, X) < tol, "contact:state-derivatives", VF_STR(err(x0, X) << " " << shape(b) << " " << names(ss) << shared << " damping " << damping << " armature " << arm.norm()));
    c.check(err(u0, U) < tol, "contact:control-derivatives", VF_STR(err(u0, U) << " " << shape(b) << " " << names(ss)));
    if (!shared.empty()) c.count("contacts sharing a joint");
    // quasi-static control
    V w = V::Constant(nu, 7.);
    model->quasiStatic(d, w, x);
    V x1 = x;
    x1.tail(m.nv).setZero();
    const M J1 = stacked(ss, m, x1);
    M S(m.nv, nu + J1.rows());
    for (std::size_t j = 0; j < nu; ++j) S.col(j) = torque(m, act, s, x1, V::Unit(nu, j)) - torque(m, act, s, x1, V::Zero(nu));
    // the forces of the contacts act through the Jacobian of their constraint
    S.rightCols(J1.rows()) = J1.transpose();
    const V g = nle(m, x1), w0 = S.completeOrthogonalDecomposition().solve(g);
    V rest = g - S.leftCols(nu) * w;
    if (J1.rows()) rest -= J1.transpose() * J1.transpose().completeOrthogonalDecomposition().solve(rest);
    c.check(vf::finite(w) && rest.norm() <= (S * w0 - g).norm() + 1e-6 * (1 + g.norm()), "contact:quasi-static", VF_STR(rest.norm() << " > " << (S * w0 - g).norm() << " " << names(ss)));
    c.count("contact forward dynamics points");
    c.sig("contact " + shape(b) + " " + names(ss) + (damping > 0 ? " damped" : ""));
  }
  const std::size_t ng = cons ? cons->get_ng() : 0;
  c.check(model->get_ng() == ng && std::size_t(model->get_g_lb().size()) == ng && std::size_t(model->get_g_ub().size()) == ng, "contact:inequality-bounds");
  if (!cons) {
    model->set_g_ub(V(0)), model->set_g_lb(V(0));
    c.check(&model->get_g_ub() != &model->get_g_lb(), "contact:upper-bound-is-lower-bound");
  }
  if (r.coin(.3)) {
    const V x = point(r, m), u = r.vec(nu);
    if (smallest(stacked(ss, m, x)) > .1) {
      auto model2 = model->cast<double>();
      auto d3 = model2.createData();
      model2.calc(d3, x, u);
      model->calc(d, x, u);
      c.check((d3->xout - d->xout).norm() < 1e-8 * (1 + d->xout.norm()) && std::abs(d3->cost - d->cost) < 1e-8 * (1 + std::abs(d->cost)), "contact:cast", VF_STR("armature " << arm.transpose() << " " << names(ss)));
      c.count("casts");
    }
  }
}

// ---- impulses ----
VF_SCENARIO(impulse, 150, 2500) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  auto s = std::make_shared<cr::StateMultibody>(b.model);
  auto im = std::make_shared<cr::ImpulseModelMultiple>(s);
  Specs ss;
  const int ni = r.irange(0, 8) ? r.irange(1, 3) : 0;
  for (int i = 0; i < ni; ++i) {
    Spec k = spec(r, b, "i" + std::to_string(i), r.pick({3, 3, 6}));
    k.gains.setZero();
    k.active = r.coin(.8);
    ss.push_back(k);
    std::shared_ptr<cr::ImpulseModelAbstract> p;
    if (k.dim == 3) p = std::make_shared<cr::ImpulseModel3D>(s, k.id, k.type);
    else p = std::make_shared<cr::ImpulseModel6D>(s, k.id, k.type);
    im->addImpulse(k.name, p, k.active);
  }
  const bool com = r.coin();
  Costs k;
  k.sum = std::make_shared<cr::CostModelSum>(s, 0);
  k.xref = point(r, m, .5);
  k.sum->addCost("x", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelState>(s, k.xref, 0)), 1.);
  if (com) k.sum->addCost("com", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelImpulseCoM>(s)), 1.);
  ConsP cons = r.coin(.3) ? limits(r, s, 0) : nullptr;
  const double rc = r.coin(.4) ? r.uni(.05, .9) : 0., damping = r.coin(.3) ? r.logu(1e-4, 1.) : 0.;
  auto model = cons ? std::make_shared<cr::ActionModelImpulseFwdDynamics>(s, im, k.sum, cons, rc, damping, true) : std::make_shared<cr::ActionModelImpulseFwdDynamics>(s, im, k.sum, rc, damping, true);
  V arm = V::Zero(m.nv);
  if (r.coin(.35)) { arm = r.vec(m.nv).cwiseAbs() * 3; model->set_armature(arm); }
  typedef cr::ActionDataImpulseFwdDynamics Data;
  auto d = std::static_pointer_cast<Data>(model->createData()), d2 = std::static_pointer_cast<Data>(model->createData());
  const V u(0);
  // xnext is a configuration and a velocity: its change is measured from a reference
  auto eval = [&](const std::shared_ptr<Data>& dd, const V& x, const V& ref, bool terminal) {
    if (terminal) model->calc(dd, x); else model->calc(dd, x, u);
    const long nc = im->get_nc();
    V o(2 * m.nv + nc + 1 + (terminal ? 0 : dd->g.size()));
    o << state_error(m, ref, dd->xnext), dd->pinocchio.impulse_c.head(nc), dd->cost, dd->g.head(terminal ? 0 : dd->g.size());
    return o;
  };
  const int n = r.irange(1, 3);
  for (int i = 0; i < n; ++i) {
    for (auto& p : ss) if (i && r.coin(.3)) { p.active = !p.active; im->changeImpulseStatus(p.name, p.active); }
    const V x = point(r, m), q = x.head(m.nq), v = x.tail(m.nv);
    const M J = stacked(ss, m, x);
    if (smallest(J) < .15) { c.count("skipped: impulses not independent"); continue; }
    const bool terminal = r.coin(.25);
    eval(d, x, x, terminal);
    const V L = d->pinocchio.impulse_c, w = d->xnext.tail(m.nv);
    if (!c.check(L.size() == J.rows() && vf::finite(L) && vf::finite(w), "impulse:forces")) return;
    c.check((d->xnext.head(m.nq) - q).isZero(0), "impulse:configuration");
    const M Mq = mass(m, x) + M(arm.asDiagonal());
    const V e = Mq * (w - v) - J.transpose() * L;
    const double scale = 1 + (Mq * v).cwiseAbs().maxCoeff() + w.cwiseAbs().maxCoeff() + (L.size() ? L.cwiseAbs().maxCoeff() : 0.);
    if (!c.check(e.cwiseAbs().maxCoeff() < 1e-8 * scale, "impulse:momentum", VF_STR(e.transpose() << " " << names(ss)))) return;
    const V gap = J * w + rc * (J * v) + damping * L;
    if (!c.check(!gap.size() || gap.cwiseAbs().maxCoeff() < 1e-8 * scale, "impulse:velocity", VF_STR(gap.transpose() << " " << names(ss) << " restitution " << rc))) return;
    if (damping == 0 && rc <= 1) {
      const double before = v.dot(Mq * v), after = w.dot(Mq * w);
      c.check(after <= before * (1 + 1e-9) + 1e-9, "impulse:energy", VF_STR(after << " > " << before));
    }
    const auto F = forces(ss, m, x, L);
    c.check(force_err(d->multibody.impulses->fext, F) < 1e-9, "impulse:joint-forces", VF_STR(names(ss) << " " << shape(b)));
    // the cost: state and jump of the velocity of the centre of mass
    double cst = .5 * state_error(m, k.xref, x).squaredNorm();
    if (com) {
      const V z = V::Zero(m.nv), jump = pv::centroidal(m, pv::kinematics(m, q, V(w - v), z)).linear() / pv::total(m);
      cst += .5 * jump.squaredNorm();
    }
    c.check(std::abs(d->cost - cst) < 1e-8 * (1 + cst), "impulse:cost", VF_STR(d->cost << " expected " << cst));
    if (terminal) model->calcDiff(d, x); else model->calcDiff(d, x, u);
    const V ref = d->xnext;
    const M X = ddx(m, x, [&](const V& y) { return eval(d2, y, ref, terminal); });
    M x0(X.rows(), X.cols());
    x0 << d->Fx, d->df_dx.topRows(L.size()), d->Lx.transpose(), d->Gx.topRows(terminal ? 0 : d->g.size());
    std::string shared;
    for (auto& p : ss) for (auto& o : ss) if (&p < &o && p.active && o.active && m.frames[p.id].parentJoint == m.frames[o.id].parentJoint) shared = " shared joint";
    c.maxi("impulse: largest derivative error", err(x0, X));
    c.check(err(x0, X) < 1e-5, "impulse:state-derivatives", VF_STR(err(d->Fx, X.topRows(2 * m.nv)) << " " << err(d->df_dx.topRows(L.size()), X.middleRows(2 * m.nv, L.size())) << " " << err(d->Lx.transpose(), X.row(2 * m.nv + L.size())) << " " << shape(b) << " " << names(ss) << shared << " r " << rc << " damping " << damping << " armature " << arm.norm() << (com ? " com" : "")));
    c.count("impulse points");
    if (rc > 0) c.count("impulse points with restitution");
    c.sig("impulse " + shape(b) + " " + names(ss) + (damping > 0 ? " damped" : "") + (rc > 0 ? " restitution" : ""));
  }
  if (!cons) {
    model->set_g_ub(V(0)), model->set_g_lb(V(0));
    c.check(&model->get_g_ub() != &model->get_g_lb(), "impulse:upper-bound-is-lower-bound");
  }
  if (r.coin(.3)) {
    const V x = point(r, m);
    if (smallest(stacked(ss, m, x)) > .1) {
      auto model2 = model->cast<double>();
      auto d3 = model2.createData();
      model2.calc(d3, x, u);
      model->calc(d, x, u);
      c.check((d3->xnext - d->xnext).norm() < 1e-8 * (1 + d->xnext.norm()) && std::abs(d3->cost - d->cost) < 1e-8 * (1 + std::abs(d->cost)), "impulse:cast", VF_STR("armature " << arm.transpose()));
      c.count("casts");
    }
  }
}

// ---- free inverse dynamics ----
VF_SCENARIO(free_inverse, 120, 1500) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  auto s = std::make_shared<cr::StateMultibody>(b.model);
  ActP act = actuation(r, b, s, r.irange(0, 1));
  const std::size_t na = act->get_nu(), nu = m.nv;
  Costs k = costs(r, b, s, nu, true);
  const V tref = r.vec(na);
  k.sum->addCost("effort", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelJointEffort>(s, act, tref, nu, false)), 1.);
  ConsP cons = r.coin() ? limits(r, s, nu) : nullptr;
  auto model = cons ? std::make_shared<cr::DifferentialActionModelFreeInvDynamics>(s, act, k.sum, cons) : std::make_shared<cr::DifferentialActionModelFreeInvDynamics>(s, act, k.sum);
  typedef cr::DifferentialActionDataFreeInvDynamics Data;
  auto d = std::static_pointer_cast<Data>(model->createData()), d2 = std::static_pointer_cast<Data>(model->createData());
  auto eval = [&](const std::shared_ptr<Data>& dd, const V& x, const V& u) {
    model->calc(dd, x, u);
    V o(m.nv + na + 1 + dd->g.size() + dd->h.size());
    o << dd->xout, dd->multibody.joint->tau, dd->cost, dd->g, dd->h;
    return o;
  };
  const std::size_t nh = m.nv - na;
  c.check(model->get_nu() == nu && model->get_nh() >= nh, "inverse:dimensions", VF_STR(model->get_nh()));
  for (int i = r.irange(1, 3); i > 0; --i) {
    const V x = point(r, m), u = r.vec(nu, 2.);
    if (r.coin(.2)) { const V y = point(r, m); model->calc(d, y); model->calcDiff(d, y); }
    eval(d, x, u);
    const V id = pv::rnea(m, V(x.head(m.nq)), V(x.tail(m.nv)), u);
    const double scale = 1 + id.cwiseAbs().maxCoeff();
    c.check((d->xout - u).isZero(0), "inverse:acceleration");
    c.check((d->multibody.joint->tau - id.tail(na)).cwiseAbs().maxCoeff() < 1e-9 * scale, "inverse:torque", VF_STR(d->multibody.joint->tau.transpose() << " / " << id.tail(na).transpose()));
    const double h = nh ? (d->constraints->constraints.at("tau")->residual->r.cwiseAbs() - id.head(nh).cwiseAbs()).cwiseAbs().maxCoeff() : 0;
    c.check(h < 1e-9 * scale, "inverse:underactuation", VF_STR(h));
    c.check(std::abs(d->cost - cost(k, m, x, u, u) - .5 * (id.tail(na) - tref).squaredNorm()) < 1e-8 * (1 + std::abs(d->cost)), "inverse:cost");
    model->calcDiff(d, x, u);
    const M X = ddx(m, x, [&](const V& y) { return eval(d2, y, u); }), U = ddu(u, [&](const V& w) { return eval(d2, x, w); });
    M x0(X.rows(), X.cols()), u0(U.rows(), U.cols());
    x0 << d->Fx, d->multibody.joint->dtau_dx, d->Lx.transpose(), d->Gx, d->Hx;
    u0 << d->Fu, d->multibody.joint->dtau_du, d->Lu.transpose(), d->Gu, d->Hu;
    c.maxi("inverse: largest derivative error", std::max(err(x0, X), err(u0, U)));
    c.check(err(x0, X) < 1e-5, "inverse:state-derivatives", VF_STR(err(x0, X) << " " << shape(b)));
    c.check(err(u0, U) < 1e-5, "inverse:control-derivatives", VF_STR(err(u0, U) << " " << shape(b)));
    V w = V::Constant(nu, 7.);
    model->quasiStatic(d, w, x);
    c.check(w.isZero(0), "inverse:quasi-static", VF_STR(w.transpose()));
    c.count("free inverse dynamics points");
  }
  c.check((model->get_g_ub().size()) == long(model->get_ng()) && model->get_g_lb().size() == long(model->get_ng()), "inverse:inequality-bounds");
  if (r.coin(.3)) {
    auto model2 = model->cast<double>();
    auto d3 = model2.createData();
    const V x = point(r, m), u = r.vec(nu);
    model2.calc(d3, x, u);
    model->calc(d, x, u);
    c.check(model2.get_nh() == model->get_nh() && std::abs(d3->cost - d->cost) < 1e-9 * (1 + std::abs(d->cost)) && (d3->h - d->h).norm() < 1e-9 * (1 + d->h.norm()), "inverse:cast");
    c.count("casts");
  }
  c.sig("inverse " + shape(b) + (cons ? " constraints" : "") + (na == std::size_t(m.nv) ? " full" : ""));
}

// ---- inverse dynamics in contact ----
VF_SCENARIO(contact_inverse, 150, 2500) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  auto s = std::make_shared<cr::StateMultibody>(b.model);
  ActP act = actuation(r, b, s, r.irange(0, 1));
  const std::size_t na = act->get_nu();
  Specs ss;
  std::size_t nct = 0;
  // one contact per frame: the constraints of a contact are tied to its frame
  std::vector<pin::FrameIndex> tips = b.tips;
  const int n = r.irange(1, 3);
  for (int i = 0; i < n; ++i) {
    Spec k = spec(r, b, "c" + std::to_string(i), r.pick({1, 3, 3, 6}));
    k.id = tips[i];
    k.active = r.coin(.75);
    nct += k.dim;
    ss.push_back(k);
  }
  const std::size_t nu = m.nv + nct;
  auto cm = std::make_shared<cr::ContactModelMultiple>(s, nu);
  for (auto& k : ss) cm->addContact(k.name, contact(k, s, nu), k.active);
  Costs k = costs(r, b, s, nu, true);
  const V tref = r.vec(na);
  k.sum->addCost("effort", std::make_shared<cr::CostModelResidual>(s, std::make_shared<cr::ResidualModelJointEffort>(s, act, tref, nu, false)), 1.);
  ConsP cons = r.coin() ? limits(r, s, nu) : nullptr;
  auto model = cons ? std::make_shared<cr::DifferentialActionModelContactInvDynamics>(s, act, cm, k.sum, cons) : std::make_shared<cr::DifferentialActionModelContactInvDynamics>(s, act, cm, k.sum);
  typedef cr::DifferentialActionDataContactInvDynamics Data;
  auto d = std::static_pointer_cast<Data>(model->createData()), d2 = std::static_pointer_cast<Data>(model->createData());
  auto eval = [&](const std::shared_ptr<Data>& dd, const V& x, const V& u) {
    model->calc(dd, x, u);
    V o(m.nv + na + 1 + dd->g.size() + dd->h.size());
    o << dd->xout, dd->multibody.joint->tau, dd->cost, dd->g, dd->h;
    return o;
  };
  const int steps = r.irange(1, 3);
  for (int i = 0; i < steps; ++i) {
    for (auto& p : ss) if (i && r.coin(.3)) { p.active = !p.active; cm->changeContactStatus(p.name, p.active); }
    const V x = point(r, m), u = r.vec(nu, 2.), a = u.head(m.nv), lambda = u.tail(nct);
    bool ok = true;
    for (auto& p : ss) ok = ok && angle_ok(p, m, x);
    if (!ok) continue;
    if (r.coin(.2)) { const V y = point(r, m); model->calc(d, y); model->calcDiff(d, y); }
    eval(d, x, u);
    const auto F = forces(ss, m, x, lambda, true);
    const V id = pv::rnea(m, V(x.head(m.nq)), V(x.tail(m.nv)), a, &F);
    const double scale = 1 + id.cwiseAbs().maxCoeff();
    c.check((d->xout - a).isZero(0), "contact-inverse:acceleration");
    c.check(force_err(d->multibody.contacts->fext, F) < 1e-9, "contact-inverse:joint-forces", VF_STR(names(ss) << " " << shape(b)));
    if (!c.check((d->multibody.joint->tau - id.tail(na)).cwiseAbs().maxCoeff() < 1e-8 * scale, "contact-inverse:torque", VF_STR(d->multibody.joint->tau.transpose() << " / " << id.tail(na).transpose() << " " << names(ss) << shape(b)))) return;
    // equality constraints: what the base cannot do, accelerations of the active contacts, forces of the others
    std::map<std::string, V> want;
    if (na < std::size_t(m.nv)) want["tau"] = id.head(m.nv - na);
    long at = 0;
    for (auto& p : ss) {
      if (p.active) want[p.name + "_acc"] = row(p, m, x, a).a0;
      else want[p.name + "_force"] = lambda.segment(at, p.dim);
      at += p.dim;
    }
    std::size_t nh = 0;
    for (auto& w : want) {
      nh += w.second.size();
      const V got = d->constraints->constraints.at(w.first)->residual->r;
      const bool sign = w.first == "tau";  // the sign of this constraint is a convention
      const bool good = got.size() == w.second.size() && vf::finite(got) && std::min((got - w.second).cwiseAbs().maxCoeff(), sign ? (got + w.second).cwiseAbs().maxCoeff() : 1e300) < 1e-8 * (scale + w.second.cwiseAbs().maxCoeff());
      if (w.first.find("_force") != std::string::npos) continue;  // forces of inactive contacts are judged below
      c.check(good, "contact-inverse:constraint", VF_STR(w.first << ": " << got.transpose() << " expected " << w.second.transpose() << " " << names(ss)));
    }
    if (cons) nh += d->constraints->constraints.count("limits") ? 0 : 0;
    if (!cons) c.check(model->get_nh() == nh && std::size_t(d->h.size()) == nh, "contact-inverse:dimensions", VF_STR(model->get_nh() << " " << nh));
    c.check(std::abs(d->cost - cost(k, m, x, u, a) - .5 * (id.tail(na) - tref).squaredNorm()) < 1e-8 * (1 + std::abs(d->cost)), "contact-inverse:cost");
    model->calcDiff(d, x, u);
    M X = ddx(m, x, [&](const V& y) { return eval(d2, y, u); }), U = ddu(u, [&](const V& w) { return eval(d2, x, w); });
    M x0(X.rows(), X.cols()), u0(U.rows(), U.cols());
    x0 << d->Fx, d->multibody.joint->dtau_dx, d->Lx.transpose(), d->Gx, d->Hx;
    u0 << d->Fu, d->multibody.joint->dtau_du, d->Lu.transpose(), d->Gu, d->Hu;
    // the force of an inactive contact acts on nothing: its constraint has value zero, and its
    // Jacobian keeps the force where it is
    long at_h = 0;
    for (auto& kv : model->get_constraints()->get_constraints()) {
      if (!kv.second->active) continue;
      const long n_h = kv.second->constraint->get_nh();
      for (std::size_t p = 0, at_f = m.nv; p < ss.size(); at_f += ss[p].dim, ++p) if (kv.first == ss[p].name + "_force") {
        c.check(n_h == ss[p].dim && d->h.segment(at_h, n_h).isZero(0), "contact-inverse:force-of-inactive", VF_STR(n_h));
        X.middleRows(X.rows() - d->h.size() + at_h, n_h).setZero();
        U.middleRows(X.rows() - d->h.size() + at_h, n_h).setZero();
        U.block(X.rows() - d->h.size() + at_h, at_f, n_h, n_h).setIdentity();
      }
      at_h += n_h;
    }
    c.maxi("contact-inverse: largest derivative error", std::max(err(x0, X), err(u0, U)));
    std::string shared;
    for (auto& p : ss) for (auto& o : ss) if (&p < &o && p.active && o.active && m.frames[p.id].parentJoint == m.frames[o.id].parentJoint) shared = " shared joint";
    c.check(err(x0, X) < 1e-5, "contact-inverse:state-derivatives", VF_STR(err(d->multibody.joint->dtau_dx, X.middleRows(m.nv, na)) << " " << err(d->Lx.transpose(), X.row(m.nv + na)) << " " << err(d->Gx, X.middleRows(m.nv + na + 1, d->g.size())) << " " << err(d->Hx, X.bottomRows(d->h.size())) << " " << shape(b) << " " << names(ss) << shared));
    c.check(err(u0, U) < 1e-5, "contact-inverse:control-derivatives", VF_STR(err(d->multibody.joint->dtau_du, U.middleRows(m.nv, na)) << " " << err(d->Lu.transpose(), U.row(m.nv + na)) << " " << err(d->Hu, U.bottomRows(d->h.size())) << " " << shape(b) << " " << names(ss)));
    // quasi-static control: no acceleration, forces in equilibrium as well as they can be
    V w = V::Constant(nu, 7.);
    model->quasiStatic(d, w, x);
    V x1 = x;
    x1.tail(m.nv).setZero();
    const M J1 = stacked(ss, m, x1);
    V l1(J1.rows());
    bool zeros = true;
    long p0 = m.nv, p1 = 0;
    for (auto& p : ss) {
      if (p.active) l1.segment(p1, p.dim) = w.segment(p0, p.dim), p1 += p.dim;
      else zeros = zeros && w.segment(p0, p.dim).isZero(0);
      p0 += p.dim;
    }
    if (smallest(J1) > .1) {
      M S(m.nv, na + J1.rows());
      S << M::Identity(m.nv, m.nv).rightCols(na), J1.transpose();
      const V g = nle(m, x1), w0 = S.completeOrthogonalDecomposition().solve(g);
      const V rest = (g - J1.transpose() * l1).head(m.nv - na);
      c.check(vf::finite(w) && zeros && w.head(m.nv).isZero(0) && rest.norm() <= (S * w0 - g).norm() + 1e-6 * (1 + g.norm()), "contact-inverse:quasi-static", VF_STR(w.transpose() << " " << rest.norm() << " > " << (S * w0 - g).norm() << " " << names(ss)));
    }
    c.count("contact inverse dynamics points");
    c.sig("contact-inverse " + shape(b) + " " + names(ss));
  }
  if (r.coin(.3)) {
    auto model2 = model->cast<double>();
    auto d3 = model2.createData();
    const V x = point(r, m), u = r.vec(nu);
    bool ok = true;
    for (auto& p : ss) ok = ok && angle_ok(p, m, x);
    if (ok) {
      model2.calc(d3, x, u);
      model->calc(d, x, u);
      c.check(model2.get_nh() == model->get_nh() && std::abs(d3->cost - d->cost) < 1e-9 * (1 + std::abs(d->cost)) && (d3->h - d->h).norm() < 1e-9 * (1 + d->h.norm()), "contact-inverse:cast", VF_STR(names(ss)));
      c.count("casts");
    }
  }
}
VF_MAIN("C34")
