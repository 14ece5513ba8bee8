// Workload generators: smooth random models with exact derivatives on Euclidean
// and Lie-group states, problems, warm starts; finite differences.
#ifndef VF_GEN_HPP_
#define VF_GEN_HPP_
#include "vf.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/states/euclidean.hpp"

namespace gen {
using vf::M;
using vf::Rng;
using vf::V;
namespace cr = crocoddyl;
typedef Eigen::Ref<const V> CRef;
typedef std::shared_ptr<cr::StateAbstract> StateP;
typedef std::shared_ptr<cr::ActionModelAbstract> ActP;
typedef std::shared_ptr<cr::ActionDataAbstract> ActDP;
typedef std::shared_ptr<cr::DifferentialActionModelAbstract> DiffP;
typedef std::shared_ptr<cr::ShootingProblem> ProbP;

// ---- SO(3) helpers --------------------------------------------------------
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
inline M3 skew(const V3& w) { M3 s; s << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0; return s; }
inline Eigen::Quaterniond exp3(const V3& w) {
  const double t2 = w.squaredNorm(), t = std::sqrt(t2);
  double a, b;
  if (t < 1e-4) { a = 1 - t2 / 8 + t2 * t2 / 384; b = 0.5 - t2 / 48 + t2 * t2 / 3840; }
  else { a = std::cos(t / 2); b = std::sin(t / 2) / t; }
  Eigen::Quaterniond q(a, b * w[0], b * w[1], b * w[2]);
  q.normalize();
  return q;
}
inline V3 log3(Eigen::Quaterniond q) {
  if (q.w() < 0) q.coeffs() = -q.coeffs();
  const V3 v = q.vec();
  const double n = v.norm();
  if (n < 1e-8) return 2 * v / q.w();
  return 2 * std::atan2(n, q.w()) / n * v;
}
// right Jacobian and its inverse
inline M3 Jr3(const V3& w) {
  const double t2 = w.squaredNorm(), t = std::sqrt(t2);
  const M3 s = skew(w);
  if (t < 1e-4) return M3::Identity() - (0.5 - t2 / 24) * s + (1. / 6 - t2 / 120) * s * s;
  return M3::Identity() - (1 - std::cos(t)) / t2 * s + (t - std::sin(t)) / (t2 * t) * s * s;
}
inline M3 Jrinv3(const V3& w) {
  const double t2 = w.squaredNorm(), t = std::sqrt(t2);
  const M3 s = skew(w);
  if (t < 1e-4) return M3::Identity() + 0.5 * s + (1. / 12 + t2 / 720) * s * s;
  return M3::Identity() + 0.5 * s + (1 / t2 - (1 + std::cos(t)) / (2 * t * std::sin(t))) * s * s;
}

// Unit quaternion (x,y,z,w) + k generic coordinates, and nv = 3 + k velocities:
// nx = 7 + 2k, ndx = 6 + 2k, so code that confuses nx with ndx is visible.
class StateSO3 : public cr::StateAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::StateBase, StateSO3)
  explicit StateSO3(int k = 0) : cr::StateAbstract(7 + 2 * k, 6 + 2 * k), k_(k) {}
  V zero() const override { V x = V::Zero(nx_); x[3] = 1; return x; }
  V rand() const override {
    V x = V::Random(nx_);
    x.head<4>().normalize();
    return x;
  }
  static Eigen::Quaterniond Q(const CRef& x) { return Eigen::Quaterniond(x[3], x[0], x[1], x[2]); }
  void diff(const CRef& x0, const CRef& x1, Eigen::Ref<V> d) const override {
    d.head<3>() = log3(Q(x0).conjugate() * Q(x1));
    d.tail(ndx_ - 3) = x1.tail(nx_ - 4) - x0.tail(nx_ - 4);
  }
  void integrate(const CRef& x, const CRef& dx, Eigen::Ref<V> xo) const override {
    Eigen::Quaterniond q = Q(x) * exp3(dx.head<3>());
    q.normalize();
    const V t = x.tail(nx_ - 4) + dx.tail(ndx_ - 3);
    xo.head<4>() = q.coeffs();
    xo.tail(nx_ - 4) = t;
  }
  void Jdiff(const CRef& x0, const CRef& x1, Eigen::Ref<M> J0, Eigen::Ref<M> J1,
             const cr::Jcomponent fs = cr::both) const override {
    const V3 d = log3(Q(x0).conjugate() * Q(x1));
    if (fs == cr::first || fs == cr::both) {
      J0.setZero();
      J0.topLeftCorner<3, 3>() = -Jrinv3(-d);
      J0.diagonal().tail(ndx_ - 3).setConstant(-1);
    }
    if (fs == cr::second || fs == cr::both) {
      J1.setZero();
      J1.topLeftCorner<3, 3>() = Jrinv3(d);
      J1.diagonal().tail(ndx_ - 3).setConstant(1);
    }
  }
  void put(Eigen::Ref<M> J, const M& v, const cr::AssignmentOp op) const {
    switch (op) {
      case cr::setto: J = v; break;
      case cr::addto: J += v; break;
      case cr::rmfrom: J -= v; break;
      default: break;
    }
  }
  M J(const CRef& dx, bool first) const {
    M j = M::Identity(ndx_, ndx_);
    j.topLeftCorner<3, 3>() = first ? M3(exp3(dx.head<3>()).toRotationMatrix().transpose()) : Jr3(dx.head<3>());
    return j;
  }
  void Jintegrate(const CRef&, const CRef& dx, Eigen::Ref<M> J0, Eigen::Ref<M> J1,
                  const cr::Jcomponent fs = cr::both, const cr::AssignmentOp op = cr::setto) const override {
    if (fs == cr::first || fs == cr::both) put(J0, J(dx, true), op);
    if (fs == cr::second || fs == cr::both) put(J1, J(dx, false), op);
  }
  void JintegrateTransport(const CRef&, const CRef& dx, Eigen::Ref<M> Jin, const cr::Jcomponent fs) const override {
    M t = J(dx, fs == cr::first) * Jin;
    Jin = t;
  }
 private:
  int k_;
};

// ---- smooth functions with exact Jacobians --------------------------------
// f(z) = A z + b + e .* sin(C z)
struct Fn {
  M A, C;
  V b, e;
  Fn() {}
  Fn(Rng& r, int m, int n, double lin, double nonlin) : A(r.mat(m, n, lin)), C(r.mat(m, n, 1.)), b(r.vec(m, 0.3)), e(r.vec(m, nonlin)) {}
  V val(const V& z) const { return A * z + b + V(e.array() * (C * z).array().sin()); }
  M jac(const V& z) const {
    V c = e.array() * (C * z).array().cos();
    return A + c.asDiagonal() * C;
  }
};
// l(z) = 1/2 z'Wz + w'z + sum c_i logcosh(z_i - d_i); strictly convex
struct Cost {
  M W;
  V w, c, d;
  Cost() {}
  Cost(Rng& r, int n, double nonquad, double mineig = 0.2) : W(r.spd(n, mineig)), w(r.vec(n, 0.5)), c(n), d(r.vec(n, 0.5)) {
    for (int i = 0; i < n; ++i) c[i] = r.uni(0, nonquad);
  }
  double val(const V& z) const {
    double l = 0.5 * z.dot(W * z) + w.dot(z);
    for (int i = 0; i < z.size(); ++i) { double a = std::abs(z[i] - d[i]); l += c[i] * (a + std::log1p(std::exp(-2 * a)) - std::log(2.)); }
    return l;
  }
  V grad(const V& z) const {
    V g = W * z + w;
    for (int i = 0; i < z.size(); ++i) g[i] += c[i] * std::tanh(z[i] - d[i]);
    return g;
  }
  M hess(const V& z) const {
    M h = W;
    for (int i = 0; i < z.size(); ++i) { double s = 1 / std::cosh(z[i] - d[i]); h(i, i) += c[i] * s * s; }
    return h;
  }
};

// one recorded call on a model
struct Ev { int kind; V x, u; const void* data; };  // kind: 0 calc(x,u) 1 calc(x) 2 calcDiff(x,u) 3 calcDiff(x)

// Remembers where a data was evaluated: like most models, the ones below need their
// calc at a point before their calcDiff there, and return NaN derivatives otherwise.
template <class Base>
struct Stamped : Base {
  template <class Model>
  explicit Stamped(Model* m) : Base(m) {}
  template <class Model>
  Stamped(Model* m, cr::DataCollectorAbstract* c) : Base(m, c) {}
  V at_x, at_u;
  int at = -1;  // 0 running, 1 terminal
};
template <class Base, class P>
void stamp(const P& d, const CRef& x, const CRef* u) {
  if (auto* s = dynamic_cast<Stamped<Base>*>(d.get())) { s->at_x = x; s->at_u = u ? V(*u) : V(); s->at = u ? 0 : 1; }
}
template <class Base, class P>
double stale(const P& d, const CRef& x, const CRef* u) {  // 0, or NaN
  auto* s = dynamic_cast<Stamped<Base>*>(d.get());
  if (!s || (s->at == (u ? 0 : 1) && s->at_x == x && (!u || s->at_u == *u))) return 0.;
  return std::numeric_limits<double>::quiet_NaN();
}

struct ActOpt {
  int nu = 2, ng = 0, nh = 0, ngT = 0, nhT = 0, nr = 0;
  double nonlin = 0.3, nonquad = 0.3, lin = 0.5, h = 0.3;
  bool autonomous = false;  // nu = 0 and calc(x) is the dynamics
};

// Smooth nonlinear action: xnext = x (+) h f(delta,u), delta = x (-) xref
class ActNL : public cr::ActionModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ActionModelBase, ActNL)
  ActNL(Rng& r, StateP s, const ActOpt& o)
      : cr::ActionModelAbstract(s, o.nu, 0, o.ng, o.nh, o.ngT, o.nhT), n_(int(s->get_ndx())), h_(o.h),
        xref_(s->zero()), f_(r, n_, n_ + o.nu, o.lin, o.nonlin), g_(r, o.ng, n_ + o.nu, 0.7, o.nonlin),
        hh_(r, o.nh, n_ + o.nu, 0.7, o.nonlin), gT_(r, o.ngT, n_, 0.7, o.nonlin), hT_(r, o.nhT, n_, 0.7, o.nonlin),
        l_(r, n_ + o.nu, o.nonquad), lT_(r, n_, o.nonquad), autonomous_(o.autonomous) {
    V d = r.vec(n_, 0.3);
    V x = xref_;
    s->integrate(x, d, xref_);
  }
  V delta(const CRef& x) const { V d(n_); state_->diff(xref_, x, d); return d; }
  M jdelta(const CRef& x) const {
    M j = M::Zero(n_, n_), j0 = M::Zero(n_, n_);
    state_->Jdiff(xref_, x, j0, j, cr::second);
    return j;
  }
  V z(const CRef& x, const CRef& u) const { V zz(n_ + int(nu_)); zz << delta(x), u; return zz; }
  void log(int k, const CRef& x, const CRef* u, const void* d) {
    if (spy) spy(Ev{k, V(x), u ? V(*u) : V(), d});
  }
  void calc(const ActDP& data, const CRef& x, const CRef& u) override {
    log(0, x, &u, data.get());
    stamp<cr::ActionDataAbstract>(data, x, &u);
    const V zz = z(x, u);
    const V dx = h_ * f_.val(zz);
    state_->integrate(x, dx, data->xnext);
    data->cost = l_.val(zz);
    if (ng_) data->g.head(ng_) = g_.val(zz);
    if (nh_) data->h.head(nh_) = hh_.val(zz);
  }
  void calc(const ActDP& data, const CRef& x) override {
    if (autonomous_) return calc(data, x, V(0));
    log(1, x, nullptr, data.get());
    stamp<cr::ActionDataAbstract>(data, x, nullptr);
    const V d = delta(x);
    data->xnext = x;
    data->cost = lT_.val(d);
    if (ng_T_) data->g.head(ng_T_) = gT_.val(d);
    if (nh_T_) data->h.head(nh_T_) = hT_.val(d);
  }
  void calcDiff(const ActDP& data, const CRef& x, const CRef& u) override {
    log(2, x, &u, data.get());
    const V zz = z(x, u).array() + stale<cr::ActionDataAbstract>(data, x, &u);
    const M J = jdelta(x);
    const V dx = h_ * f_.val(zz);
    M J0 = M::Zero(n_, n_), J1 = M::Zero(n_, n_);
    state_->Jintegrate(x, dx, J0, J1, cr::both, cr::setto);
    const M fz = h_ * f_.jac(zz);
    data->Fx = J0 + J1 * fz.leftCols(n_) * J;
    data->Fu = J1 * fz.rightCols(nu_);
    const V lz = l_.grad(zz);
    const M lzz = l_.hess(zz);
    data->Lx = J.transpose() * lz.head(n_);
    data->Lu = lz.tail(nu_);
    data->Lxx = J.transpose() * lzz.topLeftCorner(n_, n_) * J;
    data->Lxu = J.transpose() * lzz.topRightCorner(n_, nu_);
    data->Luu = lzz.bottomRightCorner(nu_, nu_);
    if (ng_) { const M j = g_.jac(zz); data->Gx.topRows(ng_) = j.leftCols(n_) * J; data->Gu.topRows(ng_) = j.rightCols(nu_); }
    if (nh_) { const M j = hh_.jac(zz); data->Hx.topRows(nh_) = j.leftCols(n_) * J; data->Hu.topRows(nh_) = j.rightCols(nu_); }
  }
  void calcDiff(const ActDP& data, const CRef& x) override {
    if (autonomous_) return calcDiff(data, x, V(0));
    log(3, x, nullptr, data.get());
    const V d = delta(x).array() + stale<cr::ActionDataAbstract>(data, x, nullptr);
    const M J = jdelta(x);
    data->Lx = J.transpose() * lT_.grad(d);
    data->Lxx = J.transpose() * lT_.hess(d) * J;
    if (ng_T_) data->Gx.topRows(ng_T_) = gT_.jac(d) * J;
    if (nh_T_) data->Hx.topRows(nh_T_) = hT_.jac(d) * J;
  }
  ActDP createData() override { return std::allocate_shared<Stamped<cr::ActionDataAbstract> >(Eigen::aligned_allocator<Stamped<cr::ActionDataAbstract> >(), this); }
  bool checkData(const ActDP& d) override { return d != nullptr && std::size_t(d->Fu.cols()) == nu_; }
  std::function<void(const Ev&)> spy;
  Fn& f() { return f_; }
  Cost& l() { return l_; }
  Cost& lT() { return lT_; }
  Fn& hfun() { return hh_; }
  int n_;
  double h_;
  V xref_;
  Fn f_, g_, hh_, gT_, hT_;
  Cost l_, lT_;
  bool autonomous_;
};

// Smooth nonlinear differential action: a = f(delta,u)
class DiffNL : public cr::DifferentialActionModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::DifferentialActionModelBase, DiffNL)
  DiffNL(Rng& r, StateP s, const ActOpt& o)
      : cr::DifferentialActionModelAbstract(s, o.nu, o.nr, o.ng, o.nh, o.ngT, o.nhT), n_(int(s->get_ndx())), nv_(int(s->get_nv())),
        xref_(s->zero()), f_(r, nv_, n_ + o.nu, o.lin, o.nonlin), g_(r, o.ng, n_ + o.nu, 0.7, o.nonlin),
        hh_(r, o.nh, n_ + o.nu, 0.7, o.nonlin), gT_(r, o.ngT, n_, 0.7, o.nonlin), hT_(r, o.nhT, n_, 0.7, o.nonlin),
        l_(r, n_ + o.nu, o.nonquad), lT_(r, n_, o.nonquad) { if (o.nr) rf_ = Fn(r, o.nr, n_ + o.nu, 1., 0.); }
  V delta(const CRef& x) const { V d(n_); state_->diff(xref_, x, d); return d; }
  M jdelta(const CRef& x) const {
    M j = M::Zero(n_, n_), j0 = M::Zero(n_, n_);
    state_->Jdiff(xref_, x, j0, j, cr::second);
    return j;
  }
  V z(const CRef& x, const CRef& u) const { V zz(n_ + int(nu_)); zz << delta(x), u; return zz; }
  typedef std::shared_ptr<cr::DifferentialActionDataAbstract> DP;
  void calc(const DP& data, const CRef& x, const CRef& u) override {
    const V zz = z(x, u);
    stamp<cr::DifferentialActionDataAbstract>(data, x, &u);
    data->xout = f_.val(zz);
    data->cost = l_.val(zz);
    if (nr_) data->r = rf_.val(zz);
    if (ng_) data->g.head(ng_) = g_.val(zz);
    if (nh_) data->h.head(nh_) = hh_.val(zz);
  }
  void calc(const DP& data, const CRef& x) override {
    const V d = delta(x);
    stamp<cr::DifferentialActionDataAbstract>(data, x, nullptr);
    data->cost = lT_.val(d);
    if (nr_) data->r = rf_.val(z(x, V::Zero(nu_)));
    if (ng_T_) data->g.head(ng_T_) = gT_.val(d);
    if (nh_T_) data->h.head(nh_T_) = hT_.val(d);
  }
  void calcDiff(const DP& data, const CRef& x, const CRef& u) override {
    const V zz = z(x, u).array() + stale<cr::DifferentialActionDataAbstract>(data, x, &u);
    const M J = jdelta(x), fz = f_.jac(zz), lzz = l_.hess(zz);
    const V lz = l_.grad(zz);
    data->Fx = fz.leftCols(n_) * J;
    data->Fu = fz.rightCols(nu_);
    data->Lx = J.transpose() * lz.head(n_);
    data->Lu = lz.tail(nu_);
    data->Lxx = J.transpose() * lzz.topLeftCorner(n_, n_) * J;
    data->Lxu = J.transpose() * lzz.topRightCorner(n_, nu_);
    data->Luu = lzz.bottomRightCorner(nu_, nu_);
    if (ng_) { const M j = g_.jac(zz); data->Gx.topRows(ng_) = j.leftCols(n_) * J; data->Gu.topRows(ng_) = j.rightCols(nu_); }
    if (nh_) { const M j = hh_.jac(zz); data->Hx.topRows(nh_) = j.leftCols(n_) * J; data->Hu.topRows(nh_) = j.rightCols(nu_); }
  }
  void calcDiff(const DP& data, const CRef& x) override {
    const V d = delta(x).array() + stale<cr::DifferentialActionDataAbstract>(data, x, nullptr);
    const M J = jdelta(x);
    data->Lx = J.transpose() * lT_.grad(d);
    data->Lxx = J.transpose() * lT_.hess(d) * J;
    if (ng_T_) data->Gx.topRows(ng_T_) = gT_.jac(d) * J;
    if (nh_T_) data->Hx.topRows(nh_T_) = hT_.jac(d) * J;
  }
  DP createData() override { return std::allocate_shared<Stamped<cr::DifferentialActionDataAbstract> >(Eigen::aligned_allocator<Stamped<cr::DifferentialActionDataAbstract> >(), this); }
  bool checkData(const DP& d) override { return d != nullptr; }
  int n_, nv_;
  V xref_;
  Fn f_, g_, hh_, gT_, hT_, rf_;
  Cost l_, lT_;
};

// ---- random pieces ---------------------------------------------------------
inline StateP random_state(Rng& r, int maxn = 5) {
  if (r.coin(0.35)) return std::make_shared<StateSO3>(r.irange(0, 1));
  return std::make_shared<cr::StateVector>(r.irange(1, maxn));
}
inline StateP random_dyn_state(Rng& r, int maxdof = 3) {
  if (r.coin(0.35)) return std::make_shared<StateSO3>(r.irange(0, 1));
  return std::make_shared<cr::StateVector>(2 * r.irange(1, maxdof));
}
inline V random_x(Rng& r, const StateP& s, double sc = 0.7) {
  V x(s->get_nx()), x0 = s->zero();
  V d = r.vec(s->get_ndx(), sc);
  s->integrate(x0, d, x);
  return x;
}
inline std::shared_ptr<cr::ActionModelLQR> random_lqr(Rng& r, int nx, int nu, int ng = 0, int nh = 0, double drift = 0.5) {
  const M A = r.mat(nx, nx, 1. / std::sqrt(double(std::max(1, nx)))) + 0.3 * M::Identity(nx, nx);
  const M B = r.mat(nx, nu), W = r.spd(nx + nu, 0.3);
  return std::make_shared<cr::ActionModelLQR>(A, B, M(W.topLeftCorner(nx, nx)), M(W.bottomRightCorner(nu, nu)), M(W.topRightCorner(nx, nu)),
                                              r.mat(ng, nx + nu), r.mat(nh, nx + nu), r.vec(nx, drift), r.vec(nx), r.vec(nu), r.vec(ng), r.vec(nh));
}
inline std::shared_ptr<cr::DifferentialActionModelLQR> random_difflqr(Rng& r, int nv, int nu, int ng = 0, int nh = 0) {
  const M W = r.spd(2 * nv + nu, 0.3);
  return std::make_shared<cr::DifferentialActionModelLQR>(r.mat(nv, nv, .7), r.mat(nv, nv, .7), r.mat(nv, nu), M(W.topLeftCorner(2 * nv, 2 * nv)),
                                                          M(W.bottomRightCorner(nu, nu)), M(W.topRightCorner(2 * nv, nu)), r.mat(ng, 2 * nv + nu),
                                                          r.mat(nh, 2 * nv + nu), r.vec(nv, .4), r.vec(2 * nv), r.vec(nu), r.vec(ng), r.vec(nh));
}
typedef std::shared_ptr<cr::ControlParametrizationModelAbstract> CtrlP;
inline CtrlP make_control(int kind, int nw) {
  switch (kind) {
    case 0: return std::make_shared<cr::ControlParametrizationModelPolyZero>(nw);
    case 1: return std::make_shared<cr::ControlParametrizationModelPolyOne>(nw);
    case 2: return std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nw, cr::three);
    default: return std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nw, cr::four);
  }
}
// integrator kinds: 0 Euler, 2/3/4 RK
inline ActP make_integrated(DiffP d, CtrlP ctrl, int kind, double dt, bool residual) {
  switch (kind) {
    case 0: return std::make_shared<cr::IntegratedActionModelEuler>(d, ctrl, dt, residual);
    case 2: return std::make_shared<cr::IntegratedActionModelRK>(d, ctrl, cr::two, dt, residual);
    case 3: return std::make_shared<cr::IntegratedActionModelRK>(d, ctrl, cr::three, dt, residual);
    default: return std::make_shared<cr::IntegratedActionModelRK>(d, ctrl, cr::four, dt, residual);
  }
}

// ---- finite differences (4th order central) --------------------------------
template <class F>
M fd(const F& f, int n, double h = 1e-3) {
  auto ev = [&](int i, double s) { V d = V::Zero(n); d[i] = s; return V(f(d)); };
  M J;
  for (int i = 0; i < n; ++i) {
    V c = (8 * (ev(i, h) - ev(i, -h)) - (ev(i, 2 * h) - ev(i, -2 * h))) / (12 * h);
    if (i == 0) J.resize(c.size(), n);
    J.col(i) = c;
  }
  if (n == 0) { V z(0); J.resize(V(f(z)).size(), 0); }
  return J;
}

// ---- problems ----------------------------------------------------------------
struct Problem {
  StateP state;
  std::vector<ActP> models;
  ActP terminal;
  V x0;
  ProbP prob;
};
inline ProbP build(const Problem& p) { return std::make_shared<cr::ShootingProblem>(p.x0, p.models, p.terminal); }

struct ProbOpt {
  int Tmin = 1, Tmax = 8;
  int numin = 1, numax = 3;
  bool varying_nu = false, shared_models = true;
  int ng = 0, nh = 0, ngT = 0, nhT = 0;
  double nonlin = 0.3, nonquad = 0.3;
  bool allow_manifold = true;
  double pauto = 0;  // probability of a node without controls
  int maxn = 4;
};
inline Problem nl_problem(Rng& r, const ProbOpt& o) {
  Problem p;
  p.state = o.allow_manifold ? random_state(r, o.maxn) : StateP(std::make_shared<cr::StateVector>(r.irange(1, o.maxn)));
  const int T = r.irange(o.Tmin, o.Tmax);
  const int nu0 = r.irange(o.numin, o.numax);
  std::vector<ActP> pool;
  const bool shared = o.shared_models && r.coin(0.5);
  for (int i = 0; i < T; ++i) {
    if (shared && !pool.empty() && r.coin(0.6)) { p.models.push_back(r.pick(pool)); continue; }
    ActOpt a;
    a.nu = o.varying_nu ? r.irange(o.numin, o.numax) : nu0;
    a.ng = o.ng ? r.irange(0, o.ng) : 0; a.nh = o.nh ? r.irange(0, std::min(o.nh, a.nu)) : 0;
    a.nonlin = o.nonlin; a.nonquad = o.nonquad;
    if (o.pauto > 0 && r.coin(o.pauto)) { a.nu = a.ng = a.nh = 0; a.autonomous = true; }
    ActP m = std::make_shared<ActNL>(r, p.state, a);
    pool.push_back(m);
    p.models.push_back(m);
  }
  ActOpt a;
  a.nu = r.coin(0.5) ? 0 : nu0;
  a.ngT = o.ngT ? r.irange(0, o.ngT) : 0; a.nhT = o.nhT ? r.irange(0, o.nhT) : 0;
  a.nonlin = o.nonlin; a.nonquad = o.nonquad;
  p.terminal = std::make_shared<ActNL>(r, p.state, a);
  p.x0 = random_x(r, p.state);
  p.prob = build(p);
  return p;
}
inline Problem lq_problem(Rng& r, int Tmin = 1, int Tmax = 8, int maxnx = 5, int maxnu = 4, bool varying_nu = false, int nh = 0) {
  Problem p;
  const int nx = r.irange(1, maxnx), nu = r.irange(1, maxnu), T = r.irange(Tmin, Tmax);
  const bool distinct = r.coin(0.6);
  for (int i = 0; i < T; ++i) {
    if (i > 0 && !distinct) { p.models.push_back(p.models[0]); continue; }
    const int n = varying_nu ? r.irange(1, maxnu) : nu;
    p.models.push_back(random_lqr(r, nx, n, 0, nh ? r.irange(0, std::min(nh, n)) : 0));
  }
  p.terminal = random_lqr(r, nx, nu);
  p.state = p.models[0]->get_state();
  p.x0 = r.vec(nx);
  p.prob = build(p);
  return p;
}
inline std::vector<V> random_xs(Rng& r, const Problem& p, double sc = 0.7) {
  std::vector<V> xs;
  for (size_t i = 0; i <= p.models.size(); ++i) xs.push_back(random_x(r, p.state, sc));
  return xs;
}
inline std::vector<V> random_us(Rng& r, const Problem& p, double sc = 0.7) {
  std::vector<V> us;
  for (auto& m : p.models) us.push_back(r.vec(m->get_nu(), sc));
  return us;
}
// Any of the library's (and the harness's) actions over this state
inline DiffP any_diff(Rng& r, const StateP& s, int nu, bool constr = false) {
  const int nx = int(s->get_nx()), ndx = int(s->get_ndx());
  if (nx == ndx && r.coin(0.5)) return random_difflqr(r, nx / 2, nu, constr ? r.irange(0, 2) : 0, constr ? r.irange(0, 2) : 0);
  ActOpt a;
  a.nu = nu;
  if (constr) { a.ng = a.ngT = r.irange(0, 2); a.nh = a.nhT = r.irange(0, 2); }
  return std::make_shared<DiffNL>(r, s, a);
}
inline ActP any_action(Rng& r, const StateP& s, int nu, std::string* kind = nullptr, bool constr = false) {
  const int nx = int(s->get_nx()), ndx = int(s->get_ndx());
  const bool flat = nx == ndx, even = ndx % 2 == 0;
  std::string k;
  if (!kind) kind = &k;
  for (;;) {
    switch (r.irange(0, 4)) {
      case 0:
        if (!flat) break;
        *kind = "lqr";
        return random_lqr(r, nx, nu, constr ? r.irange(0, 2) : 0, constr ? r.irange(0, 2) : 0);
      case 1:
        if (nx != 3 || nu != 2) break;
        { auto u = std::make_shared<cr::ActionModelUnicycle>(); u->set_dt(r.uni(0.02, 0.3)); u->set_cost_weights(Eigen::Vector2d(r.uni(0.2, 3), r.uni(0.2, 3))); *kind = "unicycle"; return u; }
      case 2: {
        *kind = "nl";
        ActOpt a; a.nu = nu;
        if (constr) { a.ng = a.ngT = r.irange(0, 2); a.nh = a.nhT = r.irange(0, 2); }
        return std::make_shared<ActNL>(r, s, a);
      }
      default: {
        if (!even) break;
        const int ik = r.pick({0, 2, 3, 4}), ck = r.irange(0, 3), per = ck == 0 ? 1 : (ck == 1 ? 2 : 3);
        if (nu % per) break;
        DiffP d = any_diff(r, s, nu / per, constr);
        *kind = "int" + std::to_string(ik) + "c" + std::to_string(ck);
        return make_integrated(d, make_control(ck, nu / per), ik, r.pick({0.01, 0.1, 0.3}), r.coin());
      }
    }
  }
}
// problem whose nodes mix every kind of action
inline Problem mixed_problem(Rng& r, int Tmin = 1, int Tmax = 7, bool varying_nu = true, std::string* kinds = nullptr, bool constr = false) {
  Problem p;
  p.state = r.coin(0.3) ? StateP(std::make_shared<StateSO3>(r.irange(0, 1)))
                        : StateP(std::make_shared<cr::StateVector>(r.coin(0.3) ? 3 : 2 * r.irange(1, 3)));
  const int T = r.irange(Tmin, Tmax), nu0 = r.irange(1, 6);
  std::string k;
  for (int i = 0; i < T; ++i) {
    if (i > 0 && r.coin(0.3)) { p.models.push_back(r.pick(p.models)); continue; }
    p.models.push_back(any_action(r, p.state, varying_nu ? r.pick({1, 2, 2, 3, 6}) : nu0, &k, constr));
    if (kinds) *kinds += k + ",";
  }
  p.terminal = any_action(r, p.state, varying_nu ? r.irange(1, 3) : nu0, &k, constr);
  if (kinds) *kinds += "|" + k;
  p.x0 = random_x(r, p.state);
  p.prob = build(p);
  return p;
}
// max relative difference over every field of two action datas
inline double data_diff(const ActDP& a, const ActDP& b, bool deriv, bool with_next = true) {
  double m = vf::relerr(a->cost, b->cost);
  auto up = [&](double e) { m = std::max(m, e); };
  if (with_next) up(vf::relerr(a->xnext, b->xnext));
  up(vf::relerr(a->g, b->g)); up(vf::relerr(a->h, b->h));
  if (deriv) {
    up(vf::relerr(a->Fx, b->Fx)); up(vf::relerr(a->Fu, b->Fu)); up(vf::relerr(a->Lx, b->Lx)); up(vf::relerr(a->Lu, b->Lu));
    up(vf::relerr(a->Lxx, b->Lxx)); up(vf::relerr(a->Lxu, b->Lxu)); up(vf::relerr(a->Luu, b->Luu));
    up(vf::relerr(a->Gx, b->Gx)); up(vf::relerr(a->Gu, b->Gu)); up(vf::relerr(a->Hx, b->Hx)); up(vf::relerr(a->Hu, b->Hu));
  }
  return m;
}
// Independent evaluation with fresh data
inline ActDP eval(const ActP& m, const V& x, const V& u, bool deriv = false) {
  ActDP d = m->createData();
  m->calc(d, x, u);
  if (deriv) m->calcDiff(d, x, u);
  return d;
}
inline ActDP evalT(const ActP& m, const V& x, bool deriv = false) {
  ActDP d = m->createData();
  m->calc(d, x);
  if (deriv) m->calcDiff(d, x);
  return d;
}
inline double total_cost(const Problem& p, const std::vector<V>& xs, const std::vector<V>& us) {
  double c = 0;
  for (size_t i = 0; i < p.models.size(); ++i) c += eval(p.models[i], xs[i], us[i])->cost;
  return c + evalT(p.terminal, xs.back())->cost;
}
// dynamics defects: fs[0] = xs[0] (-) x0 convention left to the caller; returns max |xs[i+1] (-) f(xs[i],us[i])|
inline double max_defect(const Problem& p, const std::vector<V>& xs, const std::vector<V>& us, bool with_x0 = true) {
  double m = 0;
  V d(p.state->get_ndx());
  if (with_x0) { p.state->diff(p.x0, xs[0], d); double a = vf::amax(d); if (!(a <= m)) m = a; }
  for (size_t i = 0; i < p.models.size(); ++i) {
    ActDP e = eval(p.models[i], xs[i], us[i]);
    p.state->diff(e->xnext, xs[i + 1], d);
    double a = vf::amax(d);
    if (!(a <= m)) m = a;
  }
  return m;
}
}  // namespace gen
#endif
