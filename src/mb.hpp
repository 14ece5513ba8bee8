// Random robots for the multibody monitors, and their physics written out once more from
// the recursions of pin/pinocchio/mini.hpp (never through crocoddyl).
#ifndef VF_MB_HPP_
#define VF_MB_HPP_
#include "vf.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/floating-base-thrusters.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/contacts/contact-2d.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/contacts/contact-6d.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
#include "crocoddyl/multibody/impulses/impulse-3d.hpp"
#include "crocoddyl/multibody/impulses/impulse-6d.hpp"
#include "crocoddyl/multibody/residuals/state.hpp"
namespace mb {
namespace cr = crocoddyl;
namespace pin = pinocchio;
using vf::Ctx;
using vf::M;
using vf::Rng;
using vf::V;
namespace pv = pinocchio::vf;
typedef Eigen::Ref<const V> CRef;
typedef std::shared_ptr<cr::StateMultibody> StateP;
typedef std::shared_ptr<cr::ActuationModelAbstract> ActP;

inline Eigen::Matrix3d rotation(Rng& r, double s = 3.) { return pv::exp3(V(r.vec(3, s / 1.8))); }
inline pin::SE3 pose(Rng& r, double s = .5) { return pin::SE3(rotation(r), Eigen::Vector3d(r.vec(3, s))); }

struct Robot {
  std::shared_ptr<pin::Model> model;
  bool floating;
  std::vector<pin::FrameIndex> tips;  // frames to hold contacts, costs, ...
};
// base: 0 fixed, 1 free-flyer root_joint, 2 spherical root_joint, -1 any
inline Robot robot(Rng& r, int base = -1, int njoints = -1) {
  Robot o;
  o.model = std::make_shared<pin::Model>();
  pin::Model& m = *o.model;
  auto body = [&]() { return pin::Body{r.uni(.3, 2.), Eigen::Vector3d(r.vec(3, .2)), Eigen::Matrix3d(.1 * r.spd(3, .2))}; };
  if (base < 0) base = r.coin(.5) ? 1 : r.coin(.15) ? 2 : 0;
  o.floating = base != 0;
  std::size_t last = 0;
  if (base) last = m.addJoint(0, base == 1 ? pin::JointModel::freeflyer : pin::JointModel::spherical, Eigen::Vector3d::UnitX(), pin::SE3::Identity(), body(), "root_joint");
  const int n = njoints > 0 ? njoints : r.irange(base == 1 ? 1 : 2, base == 1 ? 4 : 5);
  for (int i = 0; i < n; ++i) {
    const std::size_t parent = r.coin(.65) ? last : std::size_t(r.irange(base ? 1 : 0, m.njoints - 1));
    const double k = r.uni();
    const pin::JointModel::Kind kind = k < .75 ? pin::JointModel::revolute : k < .88 ? pin::JointModel::prismatic : pin::JointModel::spherical;
    Eigen::Vector3d axis = r.coin(.6) ? Eigen::Vector3d(Eigen::Vector3d::Unit(r.irange(0, 2))) : Eigen::Vector3d(r.vec(3));
    if (axis.norm() < .1) axis = Eigen::Vector3d::UnitY();
    last = m.addJoint(parent, kind, axis.normalized(), pose(r), body(), "joint" + std::to_string(i));
  }
  const int nf = r.irange(3, 5);
  for (int i = 0; i < nf; ++i) o.tips.push_back(m.addFrame(std::size_t(r.coin(.5) ? last : r.irange(1, m.njoints - 1)), pose(r, .3), "tip" + std::to_string(i)));
  m.effortLimit = V::Constant(m.nv, 5.) + r.vec(m.nv);
  m.velocityLimit = V::Constant(m.nv, 4.) + r.vec(m.nv);
  m.lowerPositionLimit = -V::Constant(m.nq, 2.) + r.vec(m.nq);
  m.upperPositionLimit = V::Constant(m.nq, 2.) + r.vec(m.nq);
  return o;
}
inline std::string shape(const Robot& b) {
  std::string s = b.floating ? "F" : "B";
  for (int i = 1; i < b.model->njoints; ++i) s += "urpsf"[int(b.model->joints[i].kind)] + std::to_string(b.model->parents[i]);
  return s;
}
inline V point(Rng& r, const pin::Model& m, double q = 1., double v = 1.) {
  V x(m.nq + m.nv);
  x.head(m.nq) = pv::integrate(m, pv::dbl(pin::neutral(m)), V(r.vec(m.nv, q)));
  x.tail(m.nv) = r.vec(m.nv, v);
  return x;
}
inline V plus(const pin::Model& m, const V& x, const V& dx) {
  V y(x.size());
  y.head(m.nq) = pv::integrate(m, V(x.head(m.nq)), V(dx.head(m.nv)));
  y.tail(m.nv) = x.tail(m.nv) + dx.tail(m.nv);
  return y;
}
// five-point derivatives of f(x (+) dx) and of f(u + du)
template <class F>
M ddx(const pin::Model& m, const V& x, const F& f) {
  const double h = 1e-3;
  M J;
  for (int i = 0; i < 2 * m.nv; ++i) {
    const V e = V::Unit(2 * m.nv, i);
    const V c = (8 * (V(f(plus(m, x, h * e))) - V(f(plus(m, x, -h * e)))) - (V(f(plus(m, x, 2 * h * e))) - V(f(plus(m, x, -2 * h * e))))) / (12 * h);
    if (!i) J.resize(c.size(), 2 * m.nv);
    J.col(i) = c;
  }
  return J;
}
template <class F>
M ddu(const V& u, const F& f) {
  const double h = 1e-3;
  M J(V(f(u)).size(), u.size());
  for (int i = 0; i < u.size(); ++i) {
    const V e = V::Unit(u.size(), i);
    J.col(i) = (8 * (V(f(V(u + h * e))) - V(f(V(u - h * e)))) - (V(f(V(u + 2 * h * e))) - V(f(V(u - 2 * h * e))))) / (12 * h);
  }
  return J;
}
inline double err(const M& a, const M& b) {  // relative to the largest entry
  if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
  if (!a.size()) return 0;
  if (!vf::finite(a) || !vf::finite(b)) return 1e300;
  return (a - b).cwiseAbs().maxCoeff() / (1 + b.cwiseAbs().maxCoeff());
}

// ---- kinematics of a frame ----
struct FrameKin {
  pin::SE3 oMf;
  Eigen::Matrix<double, 6, 1> v, a;  // local velocity, local spatial acceleration
  Eigen::Vector3d classical;         // acceleration of the origin, local coordinates
  pv::J6 J;                          // local
};
inline FrameKin frame(const pin::Model& m, pin::FrameIndex id, const V& x, const V& acc) {
  const V q = x.head(m.nq), v = x.tail(m.nv);
  const pv::Kin k = pv::kinematics(m, q, v, acc);
  const std::size_t j = m.frames[id].parentJoint;
  const pin::SE3& P = m.frames[id].placement;
  FrameKin o;
  o.oMf = k.oMi[j] * P;
  o.v = P.actInv(k.v[j]).toVector();
  o.a = P.actInv(k.a[j]).toVector();
  o.classical = o.a.head<3>() + Eigen::Vector3d(o.v.tail<3>()).cross(Eigen::Vector3d(o.v.head<3>()));
  o.J = o.oMf.inverse().toActionMatrix() * pv::jacobian(m, k, j);
  return o;
}

// ---- contacts ----
struct Spec {
  std::string name;
  int dim;
  pin::FrameIndex id;
  pin::ReferenceFrame type;
  Eigen::Vector2d gains;
  pin::SE3 pref;
  Eigen::Vector3d xref;
  Eigen::Matrix3d axis;
  bool active;
};
inline Spec spec(Rng& r, const Robot& b, const std::string& name, int dim) {
  Spec s;
  s.name = name;
  s.dim = dim;
  s.id = r.pick(b.tips);
  s.type = dim == 2 ? pin::LOCAL : r.pick({pin::LOCAL, pin::WORLD, pin::LOCAL_WORLD_ALIGNED});
  s.gains = Eigen::Vector2d(r.coin(.3) ? 0. : r.uni(.5, 20.), r.coin(.3) ? 0. : r.uni(.2, 8.));
  s.pref = pose(r, 1.);
  s.xref = r.vec(3);
  s.axis = r.coin(.3) ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : rotation(r);
  s.active = true;
  return s;
}
inline std::shared_ptr<cr::ContactModelAbstract> contact(const Spec& s, StateP st, std::size_t nu) {
  switch (s.dim) {
    case 1: return std::make_shared<cr::ContactModel1D>(st, s.id, s.xref[2], s.type, s.axis, nu, s.gains);
    case 2: return std::make_shared<cr::ContactModel2D>(st, s.id, Eigen::Vector2d(s.xref[0], s.xref[2]), nu, s.gains);
    case 3: return std::make_shared<cr::ContactModel3D>(st, s.id, s.xref, s.type, nu, s.gains);
    default: return std::make_shared<cr::ContactModel6D>(st, s.id, s.pref, s.type, nu, s.gains);
  }
}
// desired-acceleration residual of the contact and its Jacobian
struct Row { V a0; M J; M Jf; };  // Jf: maps generalised motion to what the force of the contact works on
inline Row row(const Spec& s, const pin::Model& m, const V& x, const V& acc) {
  const FrameKin f = frame(m, s.id, x, acc);
  const Eigen::Matrix3d R = f.oMf.R, W = s.type == pin::LOCAL ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : R;
  Row o;
  const Eigen::Vector3d vl = f.v.head<3>();
  if (s.dim == 6) {
    V a = f.a + s.gains[0] * pv::log6(s.pref.actInv(f.oMf)) + s.gains[1] * f.v;
    M B = M::Zero(6, 6);
    B.topLeftCorner(3, 3) = B.bottomRightCorner(3, 3) = W;
    o.a0 = B * a;
    o.J = B * f.J;
  } else if (s.dim == 2) {
    Eigen::Vector3d a = f.classical + s.gains[0] * (f.oMf.p - Eigen::Vector3d(s.xref[0], 0, s.xref[2])) + s.gains[1] * vl;
    o.a0 = Eigen::Vector2d(a[0], a[2]);
    o.J.resize(2, m.nv);
    o.J << f.J.row(0), f.J.row(2);
  } else {
    const Eigen::Vector3d ref = s.dim == 3 ? s.xref : Eigen::Vector3d(s.axis.col(2) * s.xref[2]);
    const Eigen::Vector3d a = W * (f.classical + s.gains[0] * (R.transpose() * (f.oMf.p - ref)) + s.gains[1] * vl);
    const M J = W * f.J.topRows(3);
    if (s.dim == 3) { o.a0 = a; o.J = J; }
    else { o.a0 = (s.axis * a).tail(1); o.J = (s.axis * J).bottomRows(1); }
  }
  return o;
}
// spatial force of the contact on its joint, for multipliers l
inline pin::Force joint_force(const Spec& s, const pin::Model& m, const V& x, const V& l) {
  const FrameKin f = frame(m, s.id, x, V::Zero(m.nv));
  const Eigen::Matrix3d W = s.type == pin::LOCAL ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : f.oMf.R;
  Eigen::Vector3d lin = Eigen::Vector3d::Zero(), ang = Eigen::Vector3d::Zero();
  if (s.dim == 6) { lin = l.head(3); ang = l.tail(3); }
  if (s.dim == 3) lin = l;
  if (s.dim == 2) lin = Eigen::Vector3d(l[0], 0, l[1]);
  if (s.dim == 1) lin = s.axis.transpose().col(2) * l[0];
  return m.frames[s.id].placement.act(pin::Force(Eigen::Vector3d(W.transpose() * lin), Eigen::Vector3d(W.transpose() * ang)));
}
inline V nle(const pin::Model& m, const V& x) { return pv::rnea(m, V(x.head(m.nq)), V(x.tail(m.nv)), V(V::Zero(m.nv))); }
inline M mass(const pin::Model& m, const V& x) { return pv::mass(m, V(x.head(m.nq))); }

inline ActP actuation(Rng& r, const Robot& b, StateP s, int kind = -1) {
  if (kind < 0) kind = r.coin(.6) ? 1 : r.coin(.3) && b.floating && b.model->joints[1].nv() == 6 ? 2 : 0;
  if (kind == 1) return std::make_shared<cr::ActuationModelFloatingBase>(s);
  if (kind == 2) {
    std::vector<cr::Thruster> t;
    const int n = r.irange(1, 5);
    for (int i = 0; i < n; ++i) t.push_back(cr::Thruster(pose(r), r.uni(.01, .3), r.coin() ? cr::CW : cr::CCW, r.uni(0, 1), r.uni(2, 5)));
    return std::make_shared<cr::ActuationModelFloatingBaseThrusters>(s, t);
  }
  return std::make_shared<cr::ActuationModelFull>(s);
}
}  // namespace mb
#endif
