// A small stand-in for pinocchio (which is not installed here), written from the
// documented conventions of pinocchio 3: spatial vectors are [linear; angular],
// velocities of joints are local, accelerations are spatial.  Everything is computed in
// double from first principles (recursive Newton-Euler); derivatives are five-point
// differences of the exact maps, good to about 1e-10.
#ifndef VF_MINI_PINOCCHIO
#define VF_MINI_PINOCCHIO
#include <Eigen/Cholesky>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#define PINOCCHIO_VERSION_AT_LEAST(a, b, c) 1

namespace pinocchio {
typedef std::size_t Index;
typedef Index JointIndex;
typedef Index FrameIndex;
typedef Index PairIndex;
typedef Index GeomIndex;
enum ReferenceFrame { WORLD = 0, LOCAL = 1, LOCAL_WORLD_ALIGNED = 2 };
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
namespace container {
template <typename T>
using aligned_vector = std::vector<T, Eigen::aligned_allocator<T> >;
}
namespace vf {
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, Eigen::Dynamic> J6;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
inline M3 sk(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
}  // namespace vf

template <typename D>
Eigen::Matrix<typename D::Scalar, 3, 3> skew(const Eigen::MatrixBase<D>& v) {
  Eigen::Matrix<typename D::Scalar, 3, 3> m;
  typedef typename D::Scalar S;
  m << S(0), -v[2], v[1], v[2], S(0), -v[0], -v[1], v[0], S(0);
  return m;
}
template <typename D, typename E>
void skew(const Eigen::MatrixBase<D>& v, const Eigen::MatrixBase<E>& out) {
  const_cast<Eigen::MatrixBase<E>&>(out).derived() = skew(v);
}

template <typename S>
struct ForceTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, 6, 1> Vector6;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  Vector6 d;
  ForceTpl() {}
  ForceTpl(const Vector3& l, const Vector3& a) { d << l, a; }
  template <typename D>
  explicit ForceTpl(const Eigen::MatrixBase<D>& v) : d(v) {}
  static ForceTpl Zero() { return ForceTpl(Vector6(Vector6::Zero())); }
  static ForceTpl Random() { return ForceTpl(Vector6(Vector6::Random())); }
  void setZero() { d.setZero(); }
  Eigen::VectorBlock<Vector6, 3> linear() { return d.template head<3>(); }
  Eigen::VectorBlock<Vector6, 3> angular() { return d.template tail<3>(); }
  Eigen::VectorBlock<const Vector6, 3> linear() const { return d.template head<3>(); }
  Eigen::VectorBlock<const Vector6, 3> angular() const { return d.template tail<3>(); }
  Vector6& toVector() { return d; }
  const Vector6& toVector() const { return d; }
  ForceTpl operator+(const ForceTpl& o) const { return ForceTpl(Vector6(d + o.d)); }
  ForceTpl operator-(const ForceTpl& o) const { return ForceTpl(Vector6(d - o.d)); }
  ForceTpl operator-() const { return ForceTpl(Vector6(-d)); }
  ForceTpl& operator+=(const ForceTpl& o) { d += o.d; return *this; }
  ForceTpl& operator-=(const ForceTpl& o) { d -= o.d; return *this; }
  bool operator==(const ForceTpl& o) const { return d == o.d; }
  bool operator!=(const ForceTpl& o) const { return d != o.d; }
  bool isApprox(const ForceTpl& o, S p = Eigen::NumTraits<S>::dummy_precision()) const { return d.isApprox(o.d, p); }
  template <typename N>
  ForceTpl<N> cast() const { return ForceTpl<N>(Eigen::Matrix<N, 6, 1>(d.template cast<N>())); }
};
template <typename S>
ForceTpl<S> operator*(S s, const ForceTpl<S>& f) { return ForceTpl<S>(Eigen::Matrix<S, 6, 1>(s * f.d)); }
template <typename S>
std::ostream& operator<<(std::ostream& os, const ForceTpl<S>& f) { return os << f.d.transpose(); }

template <typename S>
struct MotionTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, 6, 1> Vector6;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  Vector6 d;
  MotionTpl() {}
  MotionTpl(const Vector3& l, const Vector3& a) { d << l, a; }
  template <typename D>
  explicit MotionTpl(const Eigen::MatrixBase<D>& v) : d(v) {}
  static MotionTpl Zero() { return MotionTpl(Vector6(Vector6::Zero())); }
  static MotionTpl Random() { return MotionTpl(Vector6(Vector6::Random())); }
  void setZero() { d.setZero(); }
  Eigen::VectorBlock<Vector6, 3> linear() { return d.template head<3>(); }
  Eigen::VectorBlock<Vector6, 3> angular() { return d.template tail<3>(); }
  Eigen::VectorBlock<const Vector6, 3> linear() const { return d.template head<3>(); }
  Eigen::VectorBlock<const Vector6, 3> angular() const { return d.template tail<3>(); }
  Vector6& toVector() { return d; }
  const Vector6& toVector() const { return d; }
  MotionTpl operator+(const MotionTpl& o) const { return MotionTpl(Vector6(d + o.d)); }
  MotionTpl operator-(const MotionTpl& o) const { return MotionTpl(Vector6(d - o.d)); }
  MotionTpl operator-() const { return MotionTpl(Vector6(-d)); }
  MotionTpl& operator+=(const MotionTpl& o) { d += o.d; return *this; }
  MotionTpl& operator-=(const MotionTpl& o) { d -= o.d; return *this; }
  bool operator==(const MotionTpl& o) const { return d == o.d; }
  bool operator!=(const MotionTpl& o) const { return d != o.d; }
  bool isApprox(const MotionTpl& o, S p = Eigen::NumTraits<S>::dummy_precision()) const { return d.isApprox(o.d, p); }
  // ad(this) applied to another motion / coadjoint applied to a force
  MotionTpl cross(const MotionTpl& m) const {
    return MotionTpl(Vector3(angular().cross(m.linear()) + linear().cross(m.angular())), Vector3(angular().cross(m.angular())));
  }
  ForceTpl<S> cross(const ForceTpl<S>& f) const {
    return ForceTpl<S>(Vector3(angular().cross(f.linear())), Vector3(angular().cross(f.angular()) + linear().cross(f.linear())));
  }
  template <typename N>
  MotionTpl<N> cast() const { return MotionTpl<N>(Eigen::Matrix<N, 6, 1>(d.template cast<N>())); }
};
template <typename S>
MotionTpl<S> operator*(S s, const MotionTpl<S>& f) { return MotionTpl<S>(Eigen::Matrix<S, 6, 1>(s * f.d)); }
template <typename S>
std::ostream& operator<<(std::ostream& os, const MotionTpl<S>& f) { return os << f.d.transpose(); }

template <typename S>
struct SE3Tpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, 3, 3> Matrix3;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 6, 6> Matrix6;
  typedef Matrix6 ActionMatrixType;
  typedef Eigen::Quaternion<S> Quaternion;
  Matrix3 R;
  Vector3 p;
  SE3Tpl() {}
  SE3Tpl(const Matrix3& R, const Vector3& p) : R(R), p(p) {}
  static SE3Tpl Identity() { return SE3Tpl(Matrix3::Identity(), Vector3::Zero()); }
  static SE3Tpl Random() {
    Eigen::Matrix<S, 4, 1> q = Eigen::Matrix<S, 4, 1>::Random();
    return SE3Tpl(Quaternion(q).normalized().toRotationMatrix(), Vector3::Random());
  }
  Matrix3& rotation() { return R; }
  const Matrix3& rotation() const { return R; }
  void rotation(const Matrix3& r) { R = r; }
  Vector3& translation() { return p; }
  const Vector3& translation() const { return p; }
  void translation(const Vector3& t) { p = t; }
  SE3Tpl inverse() const { return SE3Tpl(R.transpose(), Vector3(-(R.transpose() * p))); }
  SE3Tpl operator*(const SE3Tpl& o) const { return SE3Tpl(Matrix3(R * o.R), Vector3(R * o.p + p)); }
  SE3Tpl act(const SE3Tpl& o) const { return *this * o; }
  SE3Tpl actInv(const SE3Tpl& o) const { return SE3Tpl(Matrix3(R.transpose() * o.R), Vector3(R.transpose() * (o.p - p))); }
  MotionTpl<S> act(const MotionTpl<S>& m) const {
    const Vector3 w = R * m.angular();
    return MotionTpl<S>(Vector3(R * m.linear() + p.cross(w)), w);
  }
  MotionTpl<S> actInv(const MotionTpl<S>& m) const {
    return MotionTpl<S>(Vector3(R.transpose() * (m.linear() - p.cross(Vector3(m.angular())))), Vector3(R.transpose() * m.angular()));
  }
  ForceTpl<S> act(const ForceTpl<S>& f) const {
    const Vector3 l = R * f.linear();
    return ForceTpl<S>(l, Vector3(R * f.angular() + p.cross(l)));
  }
  ForceTpl<S> actInv(const ForceTpl<S>& f) const {
    return ForceTpl<S>(Vector3(R.transpose() * f.linear()), Vector3(R.transpose() * (f.angular() - p.cross(Vector3(f.linear())))));
  }
  template <typename D>
  Vector3 act(const Eigen::MatrixBase<D>& v) const { return R * v + p; }
  template <typename D>
  Vector3 actInv(const Eigen::MatrixBase<D>& v) const { return R.transpose() * (v - p); }
  Matrix6 toActionMatrix() const {
    Matrix6 m;
    m << R, skew(p) * R, Matrix3::Zero(), R;
    return m;
  }
  Matrix6 toActionMatrixInverse() const { return inverse().toActionMatrix(); }
  Matrix6 toDualActionMatrix() const {
    Matrix6 m;
    m << R, Matrix3::Zero(), skew(p) * R, R;
    return m;
  }
  bool operator==(const SE3Tpl& o) const { return R == o.R && p == o.p; }
  bool operator!=(const SE3Tpl& o) const { return !(*this == o); }
  bool isApprox(const SE3Tpl& o, S t = Eigen::NumTraits<S>::dummy_precision()) const { return R.isApprox(o.R, t) && (p - o.p).norm() <= t * (1 + p.norm()); }
  template <typename N>
  SE3Tpl<N> cast() const { return SE3Tpl<N>(Eigen::Matrix<N, 3, 3>(R.template cast<N>()), Eigen::Matrix<N, 3, 1>(p.template cast<N>())); }
};
template <typename S>
std::ostream& operator<<(std::ostream& os, const SE3Tpl<S>& m) { return os << m.R << "\n" << m.p.transpose(); }

typedef SE3Tpl<double> SE3;
typedef MotionTpl<double> Motion;
typedef ForceTpl<double> Force;

namespace vf {
inline M3 exp3(const V3& w) {
  const double t = w.norm();
  if (t < 1e-10) { const M3 K = sk(w); return M3::Identity() + K + .5 * K * K; }
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
}
inline V3 log3(const M3& R) {
  Eigen::Quaterniond q(R);
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  const double n = q.vec().norm();
  if (n < 1e-9) return q.vec() * 2 / q.w();
  return q.vec() * (2 * std::atan2(n, q.w()) / n);
}
template <class M>
M right_jac(const M& ad) {
  M J = M::Identity(), P = M::Identity();
  for (int k = 1; k < 60; ++k) { P = (P * ad * (-1. / (k + 1))).eval(); J += P; }
  return J;
}
inline M3 Jexp3(const V3& w) { return right_jac<M3>(sk(w)); }
inline M3 Jlog3(const M3& R) { return Jexp3(log3(R)).inverse(); }
inline M6 ad6(const V6& v) {
  M6 m;
  m << sk(v.tail<3>()), sk(v.head<3>()), M3::Zero(), sk(v.tail<3>());
  return m;
}
inline SE3 exp6(const V6& v) { return SE3(exp3(v.tail<3>()), V3(Jexp3(-v.tail<3>()) * v.head<3>())); }  // left Jacobian
inline V6 log6(const SE3& M) {
  V6 v;
  const V3 w = log3(M.R);
  v << Jexp3(-w).inverse() * M.p, w;
  return v;
}
inline M6 Jexp6(const V6& v) { return right_jac<M6>(ad6(v)); }
inline M6 Jlog6(const SE3& M) { return Jexp6(log6(M)).inverse(); }
}  // namespace vf

template <typename S>
MotionTpl<S> log6(const SE3Tpl<S>& M) { return MotionTpl<S>(Eigen::Matrix<S, 6, 1>(vf::log6(M.template cast<double>()).template cast<S>())); }
template <typename D>
Eigen::Matrix<typename D::Scalar, 3, 1> log3(const Eigen::MatrixBase<D>& R) { return vf::log3(R.template cast<double>()).template cast<typename D::Scalar>(); }
template <typename S, typename E>
void Jlog6(const SE3Tpl<S>& M, const Eigen::MatrixBase<E>& J) { const_cast<Eigen::MatrixBase<E>&>(J) = vf::Jlog6(M.template cast<double>()).template cast<S>(); }
template <typename D, typename E>
void Jlog3(const Eigen::MatrixBase<D>& R, const Eigen::MatrixBase<E>& J) { const_cast<Eigen::MatrixBase<E>&>(J) = vf::Jlog3(R.template cast<double>()).template cast<typename D::Scalar>(); }
namespace quaternion {
template <typename D, typename E>
void assignQuaternion(Eigen::QuaternionBase<D>& q, const Eigen::MatrixBase<E>& R) { q = Eigen::Quaternion<typename D::Scalar>(Eigen::Matrix<typename D::Scalar, 3, 3>(R)); }
}

// ---- models ----
struct JointModel {
  enum Kind { universe, revolute, prismatic, spherical, freeflyer };
  Kind kind = universe;
  Eigen::Vector3d axis = Eigen::Vector3d::UnitX();
  int iq = 0, iv = 0;
  int nq() const { return kind == universe ? 0 : kind == spherical ? 4 : kind == freeflyer ? 7 : 1; }
  int nv() const { return kind == universe ? 0 : kind == spherical ? 3 : kind == freeflyer ? 6 : 1; }
  int idx_q() const { return iq; }
  int idx_v() const { return iv; }
  SE3 placement(const vf::VX& q) const {
    switch (kind) {
      case revolute: return SE3(vf::exp3(axis * q[iq]), vf::V3::Zero());
      case prismatic: return SE3(vf::M3::Identity(), vf::V3(axis * q[iq]));
      case spherical: return SE3(Eigen::Quaterniond(Eigen::Vector4d(q.segment<4>(iq))).normalized().toRotationMatrix(), vf::V3::Zero());
      case freeflyer: return SE3(Eigen::Quaterniond(Eigen::Vector4d(q.segment<4>(iq + 3))).normalized().toRotationMatrix(), q.segment<3>(iq));
      default: return SE3::Identity();
    }
  }
  vf::J6 subspace() const {
    vf::J6 s = vf::J6::Zero(6, nv());
    if (kind == revolute) s.col(0).tail<3>() = axis;
    if (kind == prismatic) s.col(0).head<3>() = axis;
    if (kind == spherical) s.bottomRows(3).setIdentity();
    if (kind == freeflyer) s.setIdentity();
    return s;
  }
};
template <typename S>
struct FrameTpl {
  std::string name;
  JointIndex parentJoint, parent;
  SE3Tpl<S> placement;
};
struct Body { double mass; vf::V3 com; vf::M3 I; };  // inertia about the centre of mass

template <typename S>
struct ModelTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> VectorXs;
  int nq = 0, nv = 0, njoints = 1, nframes = 1;
  std::vector<int> nvs{0}, idx_vs{0}, nqs{0}, idx_qs{0};
  std::vector<JointModel> joints{JointModel()};
  std::vector<JointIndex> parents{0};
  std::vector<SE3> jointPlacements{SE3::Identity()};
  std::vector<Body> bodies{Body{0, vf::V3::Zero(), vf::M3::Zero()}};
  std::vector<std::string> names{"universe"};
  container::aligned_vector<FrameTpl<S> > frames{FrameTpl<S>{"universe", 0, 0, SE3Tpl<S>::Identity()}};
  VectorXs effortLimit, velocityLimit, lowerPositionLimit, upperPositionLimit;
  MotionTpl<S> gravity = MotionTpl<S>(Eigen::Matrix<S, 3, 1>(S(0), S(0), S(-9.81)), Eigen::Matrix<S, 3, 1>::Zero());
  std::string name = "mini";
  JointIndex addJoint(JointIndex parent, JointModel::Kind kind, const vf::V3& axis, const SE3& placement, const Body& body, const std::string& jname) {
    JointModel j;
    j.kind = kind; j.axis = axis; j.iq = nq; j.iv = nv;
    joints.push_back(j); parents.push_back(parent); jointPlacements.push_back(placement); bodies.push_back(body); names.push_back(jname);
    nqs.push_back(j.nq()); nvs.push_back(j.nv()); idx_qs.push_back(nq); idx_vs.push_back(nv);
    nq += j.nq(); nv += j.nv();
    const JointIndex id = JointIndex(njoints++);
    addFrame(id, SE3::Identity(), jname);
    return id;
  }
  FrameIndex addFrame(JointIndex joint, const SE3& placement, const std::string& fname) {
    frames.push_back(FrameTpl<S>{fname, joint, joint, placement.cast<S>()});
    return FrameIndex(nframes = int(frames.size())) - 1;
  }
  bool existJointName(const std::string& n) const { return std::find(names.begin(), names.end(), n) != names.end(); }
  JointIndex getJointId(const std::string& n) const { return JointIndex(std::find(names.begin(), names.end(), n) - names.begin()); }
  FrameIndex getFrameId(const std::string& n) const {
    for (std::size_t i = 0; i < frames.size(); ++i) if (frames[i].name == n) return i;
    return frames.size();
  }
  template <typename N>
  ModelTpl<N> cast() const {
    ModelTpl<N> m;
    m.nq = nq; m.nv = nv; m.njoints = njoints; m.nframes = nframes; m.nvs = nvs; m.idx_vs = idx_vs; m.nqs = nqs; m.idx_qs = idx_qs;
    m.joints = joints; m.parents = parents; m.jointPlacements = jointPlacements; m.bodies = bodies; m.names = names; m.name = name;
    m.frames.clear();
    for (const auto& f : frames) m.frames.push_back(FrameTpl<N>{f.name, f.parentJoint, f.parent, f.placement.template cast<N>()});
    m.effortLimit = effortLimit.template cast<N>(); m.velocityLimit = velocityLimit.template cast<N>();
    m.lowerPositionLimit = lowerPositionLimit.template cast<N>(); m.upperPositionLimit = upperPositionLimit.template cast<N>();
    m.gravity = gravity.template cast<N>();
    return m;
  }
};
template <typename S>
std::ostream& operator<<(std::ostream& os, const ModelTpl<S>& m) { return os << "Nb joints = " << m.njoints << " (nq=" << m.nq << ",nv=" << m.nv << ")"; }

template <typename S>
struct DataTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> VectorXs;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> MatrixXs;
  typedef Eigen::Matrix<S, 6, Eigen::Dynamic> Matrix6x;
  typedef Eigen::Matrix<S, 3, Eigen::Dynamic> Matrix3x;
  container::aligned_vector<SE3Tpl<S> > liMi, oMi, oMf;
  container::aligned_vector<MotionTpl<S> > v, a;
  VectorXs tau, nle, g, ddq, dq_after, lambda_c, impulse_c;
  MatrixXs M, Minv, dtau_dq, dtau_dv, ddq_dq, ddq_dv;
  Matrix6x J;
  Matrix3x Jcom;
  container::aligned_vector<Eigen::Matrix<S, 3, 1> > com, vcom, acom;
  ForceTpl<S> hg;
  // what the functions below remember, as pinocchio does in further fields
  vf::VX kq, kv, ka;            // arguments of the last kinematics (liMi, v, a)
  vf::VX cq, cv;                // of the last centre of mass
  vf::VX rq, rv, ra;            // of the last derivatives pass
  Eigen::LLT<vf::MX> Mllt, JMJllt;
  explicit DataTpl(const ModelTpl<S>& m)
      : liMi(m.njoints, SE3Tpl<S>::Identity()), oMi(liMi), oMf(m.nframes, SE3Tpl<S>::Identity()), v(m.njoints, MotionTpl<S>::Zero()), a(v),
        tau(VectorXs::Zero(m.nv)), nle(tau), g(tau), ddq(tau), dq_after(tau), M(MatrixXs::Zero(m.nv, m.nv)), Minv(M), dtau_dq(M), dtau_dv(M), ddq_dq(M), ddq_dv(M),
        J(Matrix6x::Zero(6, m.nv)), Jcom(Matrix3x::Zero(3, m.nv)), com(m.njoints, Eigen::Matrix<S, 3, 1>::Zero()), vcom(com), acom(com), hg(ForceTpl<S>::Zero()) {}
  DataTpl() {}
};
typedef ModelTpl<double> Model;
typedef DataTpl<double> Data;

// ---- configuration space ----
namespace vf {
template <typename S>
VX integrate(const ModelTpl<S>& m, const VX& q, const VX& v) {
  VX r(m.nq);
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    if (j.nq() == 1) { r[j.iq] = q[j.iq] + v[j.iv]; continue; }
    const SE3 n = j.placement(q) * (j.kind == JointModel::freeflyer ? exp6(v.segment<6>(j.iv)) : SE3(exp3(v.segment<3>(j.iv)), V3::Zero()));
    const int o = j.kind == JointModel::freeflyer ? 3 : 0;
    if (o) r.segment<3>(j.iq) = n.p;
    Eigen::Quaterniond w(n.R);
    w.normalize();
    if (w.coeffs().dot(q.segment<4>(j.iq + o)) < 0) w.coeffs() *= -1;
    r.segment<4>(j.iq + o) = w.coeffs();
  }
  return r;
}
template <typename S>
VX difference(const ModelTpl<S>& m, const VX& a, const VX& b) {
  VX r(m.nv);
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    if (j.nq() == 1) { r[j.iv] = b[j.iq] - a[j.iq]; continue; }
    const SE3 d = j.placement(a).actInv(j.placement(b));
    if (j.kind == JointModel::freeflyer) r.segment<6>(j.iv) = log6(d);
    else r.segment<3>(j.iv) = log3(d.R);
  }
  return r;
}
template <typename S>
MX dIntegrate(const ModelTpl<S>& m, const VX& v, int arg) {
  MX J = MX::Identity(m.nv, m.nv);
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    if (j.kind == JointModel::freeflyer) {
      const V6 w = v.segment<6>(j.iv);
      J.block<6, 6>(j.iv, j.iv) = arg ? Jexp6(w) : M6(exp6(w).inverse().toActionMatrix());
    }
    if (j.kind == JointModel::spherical) {
      const V3 w = v.segment<3>(j.iv);
      J.block<3, 3>(j.iv, j.iv) = arg ? Jexp3(w) : M3(exp3(-w));
    }
  }
  return J;
}
template <typename S>
MX dDifference(const ModelTpl<S>& m, const VX& a, const VX& b, int arg) {
  MX J = MX::Identity(m.nv, m.nv) * (arg ? 1. : -1.);
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    if (j.nq() == 1) continue;
    const SE3 d = j.placement(a).actInv(j.placement(b));
    if (j.kind == JointModel::freeflyer) J.block<6, 6>(j.iv, j.iv) = arg ? Jlog6(d) : M6(-Jlog6(d) * d.inverse().toActionMatrix());
    else J.block<3, 3>(j.iv, j.iv) = arg ? Jlog3(d.R) : M3(-Jlog3(d.R) * d.R.transpose());
  }
  return J;
}
// ---- dynamics ----
struct Kin {
  std::vector<SE3> liMi, oMi;
  std::vector<Motion> v, a, w;  // w: acceleration with the base accelerated against gravity
};
template <typename S>
Kin kinematics(const ModelTpl<S>& m, const VX& q, const VX& v, const VX& a) {
  Kin k;
  k.liMi.assign(m.njoints, SE3::Identity());
  k.oMi = k.liMi;
  k.v.assign(m.njoints, Motion::Zero());
  k.a = k.w = k.v;
  k.w[0] = -m.gravity.template cast<double>();
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    const std::size_t p = m.parents[i];
    const J6 s = j.subspace();
    k.liMi[i] = m.jointPlacements[i] * j.placement(q);
    k.oMi[i] = k.oMi[p] * k.liMi[i];
    const Motion vj(V6(s * v.segment(j.iv, j.nv())));
    k.v[i] = k.liMi[i].actInv(k.v[p]) + vj;
    const Motion da = Motion(V6(s * a.segment(j.iv, j.nv()))) + k.v[i].cross(vj);
    k.a[i] = k.liMi[i].actInv(k.a[p]) + da;
    k.w[i] = k.liMi[i].actInv(k.w[p]) + da;
  }
  return k;
}
inline Force momentum(const Body& b, const Motion& v) {
  const V3 l = b.mass * (v.linear() + v.angular().cross(b.com));
  return Force(l, V3(b.I * v.angular() + b.com.cross(l)));
}
template <typename S>
VX rnea(const ModelTpl<S>& m, const VX& q, const VX& v, const VX& a, const container::aligned_vector<ForceTpl<S> >* fext = nullptr) {
  const Kin k = kinematics(m, q, v, a);
  std::vector<Force> f(m.njoints, Force::Zero());
  VX tau(m.nv);
  for (int i = m.njoints - 1; i > 0; --i) {
    f[i] += momentum(m.bodies[i], k.w[i]) + k.v[i].cross(momentum(m.bodies[i], k.v[i]));
    if (fext) f[i] -= (*fext)[i].template cast<double>();
    const JointModel& j = m.joints[i];
    tau.segment(j.iv, j.nv()) = j.subspace().transpose() * f[i].d;
    f[m.parents[i]] += k.liMi[i].act(f[i]);
  }
  return tau;
}
template <typename S>
MX mass(const ModelTpl<S>& m, const VX& q) {
  const VX z = VX::Zero(m.nv), b = rnea(m, q, z, z);
  MX M(m.nv, m.nv);
  for (int i = 0; i < m.nv; ++i) M.col(i) = rnea(m, q, z, VX(VX::Unit(m.nv, i))) - b;
  return .5 * (M + M.transpose());
}
template <typename S>
J6 jacobian(const ModelTpl<S>& m, const Kin& k, std::size_t joint) {  // world
  J6 J = J6::Zero(6, m.nv);
  for (std::size_t i = joint; i > 0; i = m.parents[i]) {
    const JointModel& j = m.joints[i];
    J.middleCols(j.iv, j.nv()) = k.oMi[i].toActionMatrix() * j.subspace();
  }
  return J;
}
template <typename S>
V3 com(const ModelTpl<S>& m, const Kin& k) {
  V3 c = V3::Zero();
  double t = 0;
  for (int i = 1; i < m.njoints; ++i) c += m.bodies[i].mass * k.oMi[i].act(m.bodies[i].com), t += m.bodies[i].mass;
  return c / t;
}
template <typename S>
Force centroidal(const ModelTpl<S>& m, const Kin& k) {
  Force h = Force::Zero();
  for (int i = 1; i < m.njoints; ++i) h += k.oMi[i].act(momentum(m.bodies[i], k.v[i]));
  h.angular() -= com(m, k).cross(V3(h.linear()));
  return h;
}
template <typename S>
double total(const ModelTpl<S>& m) { double t = 0; for (int i = 1; i < m.njoints; ++i) t += m.bodies[i].mass; return t; }
// five-point derivative of f along every direction of q (local) or of a vector argument
template <class F>
MX diff(int n, int rows, const F& f) {
  MX J(rows, n);
  const double h = 1e-3;
  for (int i = 0; i < n; ++i)
    J.col(i) = (8 * (VX(f(i, h)) - VX(f(i, -h))) - (VX(f(i, 2 * h)) - VX(f(i, -2 * h)))) / (12 * h);
  return J;
}
template <typename S, class F>
MX diff_q(const ModelTpl<S>& m, const VX& q, int rows, const F& f) {
  return diff(m.nv, rows, [&](int i, double h) { return f(integrate(m, q, VX(h * VX::Unit(m.nv, i)))); });
}
template <class F>
MX diff_v(const VX& v, int rows, const F& f) {
  return diff(int(v.size()), rows, [&](int i, double h) { return f(VX(v + h * VX::Unit(v.size(), i))); });
}
template <typename D>
VX dbl(const Eigen::MatrixBase<D>& v) { return v.template cast<double>(); }
template <typename D>
MX sym(const Eigen::MatrixBase<D>& M) {  // only the upper triangle of a mass matrix counts
  const MX m = M.template cast<double>();
  return m.selfadjointView<Eigen::Upper>();
}
template <typename S>
void store(const Kin& k, DataTpl<S>& d, const VX& q, const VX& v, const VX& a, bool world) {
  for (std::size_t i = 0; i < k.v.size(); ++i) {
    d.liMi[i] = k.liMi[i].cast<S>(); d.v[i] = k.v[i].cast<S>(); d.a[i] = k.a[i].cast<S>();
    if (world) d.oMi[i] = k.oMi[i].cast<S>();
  }
  d.kq = q; d.kv = v; d.ka = a;
}
template <typename S>
void store_J(const ModelTpl<S>& m, DataTpl<S>& d, const Kin& k) {
  for (int i = 1; i < m.njoints; ++i) {
    const JointModel& j = m.joints[i];
    d.J.middleCols(j.iv, j.nv()) = (k.oMi[i].toActionMatrix() * j.subspace()).template cast<S>();
  }
}
template <typename S>
void store_Jcom(const ModelTpl<S>& m, DataTpl<S>& d, const VX& q, const VX& v) {
  const VX z = VX::Zero(m.nv);
  const Kin k = kinematics(m, q, v, z);
  d.com[0] = com(m, k).template cast<S>();
  d.vcom[0] = (centroidal(m, k).linear() / total(m)).template cast<S>();
  for (int i = 0; i < m.nv; ++i) d.Jcom.col(i) = (centroidal(m, kinematics(m, q, VX(VX::Unit(m.nv, i)), z)).linear() / total(m)).template cast<S>();
  d.cq = q; d.cv = v;
}
template <typename S>
Motion frame_velocity(const ModelTpl<S>& m, const VX& q, const VX& v, JointIndex joint, const SE3& placement, ReferenceFrame rf) {
  const Kin k = kinematics(m, q, v, VX(VX::Zero(m.nv)));
  const Motion l = placement.actInv(k.v[joint]);
  const SE3 oMf = k.oMi[joint] * placement;
  return rf == LOCAL ? l : rf == WORLD ? oMf.act(l) : SE3(oMf.R, V3::Zero()).act(l);
}
}  // namespace vf

template <typename S>
Eigen::Matrix<S, Eigen::Dynamic, 1> neutral(const ModelTpl<S>& m) {
  Eigen::Matrix<S, Eigen::Dynamic, 1> q = Eigen::Matrix<S, Eigen::Dynamic, 1>::Zero(m.nq);
  for (const JointModel& j : m.joints) {
    if (j.kind == JointModel::spherical) q[j.iq + 3] = S(1);
    if (j.kind == JointModel::freeflyer) q[j.iq + 6] = S(1);
  }
  return q;
}
template <typename S>
Eigen::Matrix<S, Eigen::Dynamic, 1> randomConfiguration(const ModelTpl<S>& m) {
  return vf::integrate(m, vf::dbl(neutral(m)), vf::VX(vf::VX::Random(m.nv))).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
void integrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& out) {
  const_cast<Eigen::MatrixBase<C>&>(out) = vf::integrate(m, vf::dbl(q), vf::dbl(v)).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
void difference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const Eigen::MatrixBase<C>& out) {
  const_cast<Eigen::MatrixBase<C>&>(out) = vf::difference(m, vf::dbl(a), vf::dbl(b)).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
void dIntegrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>&, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& out, ArgumentPosition arg, AssignmentOperatorType op = SETTO) {
  const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> J = vf::dIntegrate(m, vf::dbl(v), arg).template cast<S>();
  Eigen::MatrixBase<C>& o = const_cast<Eigen::MatrixBase<C>&>(out);
  // pinocchio only writes the diagonal blocks of the joints when adding or removing, and the whole matrix when setting
  if (op == SETTO) o = J; else if (op == ADDTO) o += J; else o -= J;
}
template <typename S, typename A, typename B, typename C>
void dIntegrateTransport(const ModelTpl<S>& m, const Eigen::MatrixBase<A>&, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& out, ArgumentPosition arg) {
  Eigen::MatrixBase<C>& o = const_cast<Eigen::MatrixBase<C>&>(out);
  o = (vf::dIntegrate(m, vf::dbl(v), arg).template cast<S>() * o).eval();
}
template <typename S, typename A, typename B, typename C>
void dDifference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const Eigen::MatrixBase<C>& out, ArgumentPosition arg) {
  const_cast<Eigen::MatrixBase<C>&>(out) = vf::dDifference(m, vf::dbl(a), vf::dbl(b), arg).template cast<S>();
}

// ---- algorithms ----
template <typename S, typename A, typename B, typename C>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  vf::store(vf::kinematics(m, vf::dbl(q), vf::dbl(v), vf::dbl(a)), d, vf::dbl(q), vf::dbl(v), vf::dbl(a), true);
}
template <typename S, typename A, typename B>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v) {
  forwardKinematics(m, d, q, v, vf::VX(vf::VX::Zero(m.nv)));
}
template <typename S, typename A>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q) {
  forwardKinematics(m, d, q, vf::VX(vf::VX::Zero(m.nv)), vf::VX(vf::VX::Zero(m.nv)));
}
template <typename S, typename A>
const typename DataTpl<S>::Matrix6x& computeJointJacobians(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q) {
  const vf::VX z = vf::VX::Zero(m.nv);
  const vf::Kin k = vf::kinematics(m, vf::dbl(q), z, z);
  for (int i = 0; i < m.njoints; ++i) d.liMi[i] = k.liMi[i].cast<S>(), d.oMi[i] = k.oMi[i].cast<S>();
  vf::store_J(m, d, k);
  return d.J;
}
template <typename S>
const typename DataTpl<S>::Matrix6x& computeJointJacobians(const ModelTpl<S>& m, DataTpl<S>& d) {
  vf::Kin k;
  for (int i = 0; i < m.njoints; ++i) k.oMi.push_back(d.oMi[i].template cast<double>());
  vf::store_J(m, d, k);
  return d.J;
}
template <typename S, typename A, typename B>
void computeAllTerms(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_, const Eigen::MatrixBase<B>& v_) {
  const vf::VX q = vf::dbl(q_), v = vf::dbl(v_), z = vf::VX::Zero(m.nv);
  const vf::Kin k = vf::kinematics(m, q, v, z);
  vf::store(k, d, q, v, z, true);
  vf::store_J(m, d, k);
  vf::store_Jcom(m, d, q, v);
  d.M = vf::mass(m, q).template cast<S>();
  d.nle = vf::rnea(m, q, v, z).template cast<S>();
  d.hg = vf::centroidal(m, k).template cast<S>();
}
template <typename S>
void updateGlobalPlacements(const ModelTpl<S>& m, DataTpl<S>& d) {
  for (int i = 1; i < m.njoints; ++i) d.oMi[i] = d.oMi[m.parents[i]] * d.liMi[i];
}
template <typename S>
const SE3Tpl<S>& updateFramePlacement(const ModelTpl<S>& m, DataTpl<S>& d, FrameIndex id) {
  return d.oMf[id] = d.oMi[m.frames[id].parentJoint] * m.frames[id].placement;
}
template <typename S>
void updateFramePlacements(const ModelTpl<S>& m, DataTpl<S>& d) { for (int i = 0; i < m.nframes; ++i) updateFramePlacement(m, d, FrameIndex(i)); }
template <typename S>
MotionTpl<S> vf_change(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex id, const MotionTpl<S>& l, ReferenceFrame rf) {
  const SE3Tpl<S> oMf = d.oMi[m.frames[id].parentJoint] * m.frames[id].placement;
  return rf == LOCAL ? l : rf == WORLD ? oMf.act(l) : SE3Tpl<S>(oMf.R, Eigen::Matrix<S, 3, 1>::Zero()).act(l);
}
template <typename S>
MotionTpl<S> getFrameVelocity(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  return vf_change(m, d, id, m.frames[id].placement.actInv(d.v[m.frames[id].parentJoint]), rf);
}
template <typename S>
MotionTpl<S> getFrameAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  return vf_change(m, d, id, m.frames[id].placement.actInv(d.a[m.frames[id].parentJoint]), rf);
}
template <typename S>
MotionTpl<S> getFrameClassicalAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex id, ReferenceFrame rf = LOCAL) {
  MotionTpl<S> a = getFrameAcceleration(m, d, id, rf);
  const MotionTpl<S> v = getFrameVelocity(m, d, id, rf);
  a.linear() += v.angular().cross(Eigen::Matrix<S, 3, 1>(v.linear()));
  return a;
}
template <typename S, typename E>
void vf_jac(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex joint, const SE3Tpl<S>& oMf, ReferenceFrame rf, const Eigen::MatrixBase<E>& out) {
  Eigen::MatrixBase<E>& J = const_cast<Eigen::MatrixBase<E>&>(out);
  J.setZero();
  const Eigen::Matrix<S, 6, 6> X = rf == WORLD ? Eigen::Matrix<S, 6, 6>(Eigen::Matrix<S, 6, 6>::Identity())
                                   : rf == LOCAL ? oMf.inverse().toActionMatrix()
                                                 : SE3Tpl<S>(Eigen::Matrix<S, 3, 3>::Identity(), oMf.p).inverse().toActionMatrix();
  for (std::size_t i = joint; i > 0; i = m.parents[i]) {
    const JointModel& j = m.joints[i];
    J.middleCols(j.iv, j.nv()) = X * d.J.middleCols(j.iv, j.nv());
  }
}
template <typename S, typename E>
void getFrameJacobian(const ModelTpl<S>& m, DataTpl<S>& d, FrameIndex id, ReferenceFrame rf, const Eigen::MatrixBase<E>& out) {
  vf_jac(m, d, m.frames[id].parentJoint, SE3Tpl<S>(d.oMi[m.frames[id].parentJoint] * m.frames[id].placement), rf, out);
}
template <typename S, typename E>
void getJointJacobian(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex id, ReferenceFrame rf, const Eigen::MatrixBase<E>& out) { vf_jac(m, d, id, d.oMi[id], rf, out); }

template <typename S>
void vf_derivs(const ModelTpl<S>& m, DataTpl<S>& d, const vf::VX& q, const vf::VX& v, const vf::VX& a) {
  const vf::Kin k = vf::kinematics(m, q, v, a);
  vf::store(k, d, q, v, a, true);
  vf::store_J(m, d, k);
  d.rq = q; d.rv = v; d.ra = a;
}
template <typename S, typename A, typename B, typename C>
void computeForwardKinematicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  vf_derivs(m, d, vf::dbl(q), vf::dbl(v), vf::dbl(a));
}
template <typename S>
void vf_rnea_derivs(const ModelTpl<S>& m, DataTpl<S>& d, const vf::VX& q, const vf::VX& v, const vf::VX& a, const container::aligned_vector<ForceTpl<S> >* f) {
  vf_derivs(m, d, q, v, a);
  d.tau = vf::rnea(m, q, v, a, f).template cast<S>();
  d.dtau_dq = vf::diff_q(m, q, m.nv, [&](const vf::VX& p) { return vf::rnea(m, p, v, a, f); }).template cast<S>();
  d.dtau_dv = vf::diff_v(v, m.nv, [&](const vf::VX& p) { return vf::rnea(m, q, p, a, f); }).template cast<S>();
  // as in pinocchio, only the upper triangle of the mass matrix is refreshed here
  const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M = vf::mass(m, q).template cast<S>();
  d.M.template triangularView<Eigen::Upper>() = M;
}
template <typename S, typename A, typename B, typename C>
void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  vf_rnea_derivs(m, d, vf::dbl(q), vf::dbl(v), vf::dbl(a), static_cast<const container::aligned_vector<ForceTpl<S> >*>(nullptr));
}
template <typename S, typename A, typename B, typename C>
void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a,
                            const container::aligned_vector<ForceTpl<S> >& f) {
  vf_rnea_derivs(m, d, vf::dbl(q), vf::dbl(v), vf::dbl(a), &f);
}
template <typename S>
void vf_rnea(const ModelTpl<S>& m, DataTpl<S>& d, const vf::VX& q, const vf::VX& v, const vf::VX& a, const container::aligned_vector<ForceTpl<S> >* f) {
  const vf::Kin k = vf::kinematics(m, q, v, a);
  for (int i = 0; i < m.njoints; ++i) d.liMi[i] = k.liMi[i].cast<S>(), d.v[i] = k.v[i].cast<S>();
  d.tau = vf::rnea(m, q, v, a, f).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  vf_rnea(m, d, vf::dbl(q), vf::dbl(v), vf::dbl(a), static_cast<const container::aligned_vector<ForceTpl<S> >*>(nullptr));
  return d.tau;
}
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a,
                                          const container::aligned_vector<ForceTpl<S> >& f) {
  vf_rnea(m, d, vf::dbl(q), vf::dbl(v), vf::dbl(a), &f);
  return d.tau;
}
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& aba(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_, const Eigen::MatrixBase<B>& v_, const Eigen::MatrixBase<C>& tau) {
  const vf::VX q = vf::dbl(q_), v = vf::dbl(v_);
  const vf::VX a = vf::mass(m, q).llt().solve(vf::dbl(tau) - vf::rnea(m, q, v, vf::VX(vf::VX::Zero(m.nv))));
  vf::store(vf::kinematics(m, q, v, a), d, q, v, a, false);
  d.ddq = a.template cast<S>();
  return d.ddq;
}
template <typename S, typename A, typename B, typename C, typename D1, typename D2, typename D3>
void computeABADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_, const Eigen::MatrixBase<B>& v_, const Eigen::MatrixBase<C>& tau, const Eigen::MatrixBase<D1>& dq,
                           const Eigen::MatrixBase<D2>& dv, const Eigen::MatrixBase<D3>& dt) {
  const vf::VX q = vf::dbl(q_), v = vf::dbl(v_);
  const vf::MX Mi = vf::mass(m, q).llt().solve(vf::MX(vf::MX::Identity(m.nv, m.nv)));
  const vf::VX a = Mi * (vf::dbl(tau) - vf::rnea(m, q, v, vf::VX(vf::VX::Zero(m.nv))));
  vf_derivs(m, d, q, v, a);
  d.ddq = a.template cast<S>();
  const_cast<Eigen::MatrixBase<D1>&>(dq) = (-Mi * vf::diff_q(m, q, m.nv, [&](const vf::VX& p) { return vf::rnea(m, p, v, a); })).template cast<S>();
  const_cast<Eigen::MatrixBase<D2>&>(dv) = (-Mi * vf::diff_v(v, m.nv, [&](const vf::VX& p) { return vf::rnea(m, q, p, a); })).template cast<S>();
  const_cast<Eigen::MatrixBase<D3>&>(dt) = Mi.template cast<S>();
}
template <typename S, typename T, typename J, typename G>
const typename DataTpl<S>::VectorXs& forwardDynamics(const ModelTpl<S>&, DataTpl<S>& d, const Eigen::MatrixBase<T>& tau, const Eigen::MatrixBase<J>& J_, const Eigen::MatrixBase<G>& gamma, const S damping = S(0)) {
  const vf::MX Jd = J_.template cast<double>();
  d.Mllt.compute(vf::sym(d.M));
  const vf::VX free = d.Mllt.solve(vf::dbl(tau) - vf::dbl(d.nle));
  const vf::MX MiJt = d.Mllt.solve(vf::MX(Jd.transpose()));
  vf::MX JMJ = Jd * MiJt;
  JMJ.diagonal().array() += double(damping);
  d.JMJllt.compute(JMJ);
  vf::VX l = -Jd * free - vf::dbl(gamma);
  if (l.size()) l = d.JMJllt.solve(l).eval();
  d.lambda_c = l.template cast<S>();
  d.ddq = (free + MiJt * l).template cast<S>();
  return d.ddq;
}
template <typename S, typename V, typename J>
const typename DataTpl<S>::VectorXs& impulseDynamics(const ModelTpl<S>&, DataTpl<S>& d, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<J>& J_, const S r_coeff = S(0), const S damping = S(0)) {
  const vf::MX Jd = J_.template cast<double>();
  d.Mllt.compute(vf::sym(d.M));
  const vf::MX MiJt = d.Mllt.solve(vf::MX(Jd.transpose()));
  vf::MX JMJ = Jd * MiJt;
  JMJ.diagonal().array() += double(damping);
  d.JMJllt.compute(JMJ);
  vf::VX l = -(1. + double(r_coeff)) * (Jd * vf::dbl(v));
  if (l.size()) l = d.JMJllt.solve(l).eval();
  d.impulse_c = l.template cast<S>();
  d.dq_after = (vf::dbl(v) + MiJt * l).template cast<S>();
  return d.dq_after;
}
template <typename S, typename J, typename K>
void getKKTContactDynamicMatrixInverse(const ModelTpl<S>& m, const DataTpl<S>& d, const Eigen::MatrixBase<J>& J_, const Eigen::MatrixBase<K>& out) {
  const vf::MX Jd = J_.template cast<double>();
  const long n = m.nv, c = Jd.rows();
  const vf::MX Mi = d.Mllt.solve(vf::MX(vf::MX::Identity(n, n))), MiJt = Mi * Jd.transpose();
  const vf::MX L = c ? vf::MX(d.JMJllt.solve(vf::MX(vf::MX::Identity(c, c)))) : vf::MX(0, 0);
  vf::MX K_(n + c, n + c);
  K_.topLeftCorner(n, n) = Mi - MiJt * L * MiJt.transpose();
  K_.topRightCorner(n, c) = MiJt * L;
  K_.bottomLeftCorner(c, n) = L * MiJt.transpose();
  K_.bottomRightCorner(c, c) = -L;
  const_cast<Eigen::MatrixBase<K>&>(out) = K_.template cast<S>();
}
namespace cholesky {
template <typename S>
void decompose(const ModelTpl<S>&, DataTpl<S>& d) {
  d.Mllt.compute(vf::sym(d.M));
}
template <typename S, typename E>
void computeMinv(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<E>& out) {
  const_cast<Eigen::MatrixBase<E>&>(out) = d.Mllt.solve(vf::MX(vf::MX::Identity(m.nv, m.nv))).template cast<S>();
}
}  // namespace cholesky

template <typename S, typename E1, typename E2>
void getJointVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, JointIndex id, ReferenceFrame rf, const Eigen::MatrixBase<E1>& dq, const Eigen::MatrixBase<E2>& dv) {
  const_cast<Eigen::MatrixBase<E1>&>(dq) = vf::diff_q(m, d.rq, 6, [&](const vf::VX& p) { return vf::frame_velocity(m, p, d.rv, id, SE3::Identity(), rf).d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E2>&>(dv) = vf::diff_v(d.rv, 6, [&](const vf::VX& p) { return vf::frame_velocity(m, d.rq, p, id, SE3::Identity(), rf).d; }).template cast<S>();
}
template <typename S, typename E1, typename E2>
void getFrameVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, FrameIndex id, ReferenceFrame rf, const Eigen::MatrixBase<E1>& dq, const Eigen::MatrixBase<E2>& dv) {
  const JointIndex j = m.frames[id].parentJoint;
  const SE3 P = m.frames[id].placement.template cast<double>();
  const_cast<Eigen::MatrixBase<E1>&>(dq) = vf::diff_q(m, d.rq, 6, [&](const vf::VX& p) { return vf::frame_velocity(m, p, d.rv, j, P, rf).d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E2>&>(dv) = vf::diff_v(d.rv, 6, [&](const vf::VX& p) { return vf::frame_velocity(m, d.rq, p, j, P, rf).d; }).template cast<S>();
}
template <typename S, typename E1, typename E2, typename E3, typename E4>
void getJointAccelerationDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, JointIndex id, ReferenceFrame rf, const Eigen::MatrixBase<E1>& vq, const Eigen::MatrixBase<E2>& aq, const Eigen::MatrixBase<E3>& av,
                                     const Eigen::MatrixBase<E4>& aa) {
  if (rf != LOCAL) throw std::logic_error("mini pinocchio: acceleration derivatives are LOCAL only");
  const vf::VX &q = d.rq, &v = d.rv, &a = d.ra;
  const_cast<Eigen::MatrixBase<E1>&>(vq) = vf::diff_q(m, q, 6, [&](const vf::VX& p) { return vf::kinematics(m, p, v, a).v[id].d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E2>&>(aq) = vf::diff_q(m, q, 6, [&](const vf::VX& p) { return vf::kinematics(m, p, v, a).a[id].d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E3>&>(av) = vf::diff_v(v, 6, [&](const vf::VX& p) { return vf::kinematics(m, q, p, a).a[id].d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E4>&>(aa) = vf::diff_v(a, 6, [&](const vf::VX& p) { return vf::kinematics(m, q, v, p).a[id].d; }).template cast<S>();
}
template <typename S>
const ForceTpl<S>& computeCentroidalMomentum(const ModelTpl<S>& m, DataTpl<S>& d) {
  vf::Kin k;
  for (int i = 0; i < m.njoints; ++i) k.oMi.push_back(d.oMi[i].template cast<double>()), k.v.push_back(d.v[i].template cast<double>());
  d.com[0] = vf::com(m, k).template cast<S>();
  return d.hg = vf::centroidal(m, k).template cast<S>();
}
template <typename S, typename E1, typename E2, typename E3, typename E4>
void getCentroidalDynamicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<E1>& hq, const Eigen::MatrixBase<E2>& hdq, const Eigen::MatrixBase<E3>& hdv, const Eigen::MatrixBase<E4>& hda) {
  const vf::VX &q = d.rq, &v = d.rv, z = vf::VX::Zero(m.nv);
  const_cast<Eigen::MatrixBase<E1>&>(hq) = vf::diff_q(m, q, 6, [&](const vf::VX& p) { return vf::centroidal(m, vf::kinematics(m, p, v, z)).d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E4>&>(hda) = vf::diff_v(v, 6, [&](const vf::VX& p) { return vf::centroidal(m, vf::kinematics(m, q, p, z)).d; }).template cast<S>();
  const_cast<Eigen::MatrixBase<E2>&>(hdq).setConstant(std::numeric_limits<S>::quiet_NaN());  // time derivatives: not provided
  const_cast<Eigen::MatrixBase<E3>&>(hdv).setConstant(std::numeric_limits<S>::quiet_NaN());
}
template <typename S, typename A, typename B>
void centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_, const Eigen::MatrixBase<B>& v_, bool = true) {
  const vf::VX q = vf::dbl(q_), v = vf::dbl(v_), z = vf::VX::Zero(m.nv);
  const vf::Kin k = vf::kinematics(m, q, v, z);
  vf::store(k, d, q, v, z, true);
  d.com[0] = vf::com(m, k).template cast<S>();
  d.vcom[0] = (vf::centroidal(m, k).linear() / vf::total(m)).template cast<S>();
  d.cq = q; d.cv = v;
}
template <typename S, typename A, typename B, typename C>
void centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  centerOfMass(m, d, q, v);
  forwardKinematics(m, d, q, v, a);
}
template <typename S>
const typename DataTpl<S>::Matrix3x& jacobianCenterOfMass(const ModelTpl<S>& m, DataTpl<S>& d, bool = true) {
  vf::store_Jcom(m, d, d.kq, d.kv);
  return d.Jcom;
}
template <typename S, typename E>
void getCenterOfMassVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<E>& out) {
  const vf::VX z = vf::VX::Zero(m.nv);
  const_cast<Eigen::MatrixBase<E>&>(out) =
      vf::diff_q(m, d.cq, 3, [&](const vf::VX& p) { return vf::V3(vf::centroidal(m, vf::kinematics(m, p, d.cv, z)).linear() / vf::total(m)); }).template cast<S>();
}
template <typename S, typename A>
const typename DataTpl<S>::VectorXs& computeGeneralizedGravity(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q) {
  const vf::VX z = vf::VX::Zero(m.nv);
  return d.g = vf::rnea(m, vf::dbl(q), z, z).template cast<S>();
}
template <typename S, typename A, typename E>
void computeGeneralizedGravityDerivatives(const ModelTpl<S>& m, DataTpl<S>&, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<E>& out) {
  const vf::VX z = vf::VX::Zero(m.nv);
  const_cast<Eigen::MatrixBase<E>&>(out) = vf::diff_q(m, vf::dbl(q), m.nv, [&](const vf::VX& p) { return vf::rnea(m, p, z, z); }).template cast<S>();
}
template <typename S, typename A>
const typename DataTpl<S>::VectorXs& computeStaticTorque(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q, const container::aligned_vector<ForceTpl<S> >& f) {
  const vf::VX z = vf::VX::Zero(m.nv);
  return d.tau = vf::rnea(m, vf::dbl(q), z, z, &f).template cast<S>();
}
template <typename S, typename A, typename E>
void computeStaticTorqueDerivatives(const ModelTpl<S>& m, DataTpl<S>&, const Eigen::MatrixBase<A>& q, const container::aligned_vector<ForceTpl<S> >& f, const Eigen::MatrixBase<E>& out) {
  const vf::VX z = vf::VX::Zero(m.nv);
  const_cast<Eigen::MatrixBase<E>&>(out) = vf::diff_q(m, vf::dbl(q), m.nv, [&](const vf::VX& p) { return vf::rnea(m, p, z, z, &f); }).template cast<S>();
}
}  // namespace pinocchio
#endif
