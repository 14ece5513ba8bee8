// Generators for activations, residuals, actuations, costs and constraints, each
// with an independent closed-form reference.
#ifndef VF_GEN2_HPP_
#define VF_GEN2_HPP_
#include "gen.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/smooth-abs.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"

namespace gen {
typedef std::shared_ptr<cr::ActivationModelAbstract> ActvP;
typedef std::shared_ptr<cr::ActivationDataAbstract> ActvDP;
typedef std::shared_ptr<cr::ResidualModelAbstract> ResP;
typedef std::shared_ptr<cr::CostModelAbstract> CostP;
typedef std::shared_ptr<cr::ConstraintModelAbstract> ConP;
typedef std::shared_ptr<cr::ActuationModelAbstract> ActuP;

// value / gradient / diagonal Hessian written down from the documentation
struct RefActv {
  std::string kind;
  double p = 1;      // alpha or eps
  bool exact = true; // 2-norm barrier: exact or Gauss-Newton Hessian
  V w, lb, ub;
  double val(const V& r) const {
    const double s = r.squaredNorm();
    if (kind == "quad") return 0.5 * s;
    if (kind == "wquad") return 0.5 * (w.array() * r.array().square()).sum();
    if (kind == "flatexp") return 1 - std::exp(-s / p);
    if (kind == "flatlog") return std::log1p(s / p);
    if (kind == "smooth1" || kind == "smoothabs") { double t = 0; for (int i = 0; i < r.size(); ++i) t += std::sqrt(r[i] * r[i] + p); return t; }
    if (kind == "smooth2") return std::sqrt(s + p);
    if (kind == "2norm") { const double d = std::sqrt(s); return d < p ? 0.5 * (d - p) * (d - p) : 0; }
    double t = 0;  // barriers
    for (int i = 0; i < r.size(); ++i) { const double v = viol(r, i) * (kind == "wbarrier" ? w[i] : 1); t += 0.5 * v * v; }
    return t;
  }
  double viol(const V& r, int i) const { return r[i] < lb[i] ? r[i] - lb[i] : r[i] > ub[i] ? r[i] - ub[i] : 0; }
  V grad(const V& r) const {
    const double s = r.squaredNorm();
    if (kind == "quad") return r;
    if (kind == "wquad") return w.cwiseProduct(r);
    if (kind == "flatexp") return 2 / p * std::exp(-s / p) * r;
    if (kind == "flatlog") return 2 / (p + s) * r;
    if (kind == "smooth2") return r / std::sqrt(s + p);
    if (kind == "2norm") { const double d = std::sqrt(s); return d < p ? V((d - p) / d * r) : V(V::Zero(r.size())); }
    V g(r.size());
    for (int i = 0; i < r.size(); ++i) {
      if (kind == "smooth1" || kind == "smoothabs") g[i] = r[i] / std::sqrt(r[i] * r[i] + p);
      else g[i] = viol(r, i) * (kind == "wbarrier" ? w[i] * w[i] : 1);
    }
    return g;
  }
  V hess(const V& r) const {
    const double s = r.squaredNorm();
    V h(r.size());
    for (int i = 0; i < r.size(); ++i) {
      const double q = r[i] * r[i];
      if (kind == "quad") h[i] = 1;
      else if (kind == "wquad") h[i] = w[i];
      else if (kind == "flatexp") h[i] = 2 / p * std::exp(-s / p) * (1 - 2 * q / p);
      else if (kind == "flatlog") h[i] = 2 / (p + s) - 4 * q / ((p + s) * (p + s));
      else if (kind == "smooth1" || kind == "smoothabs") h[i] = p / std::pow(q + p, 1.5);
      else if (kind == "smooth2") h[i] = (s + p - q) / std::pow(s + p, 1.5);
      else if (kind == "2norm") {
        const double d = std::sqrt(s);
        if (d >= p) h[i] = 0;
        else if (exact) h[i] = 1 - p / d + p * q / (d * d * d);
        else h[i] = q / (d * d);
      } else h[i] = viol(r, i) != 0 ? (kind == "wbarrier" ? w[i] * w[i] : 1) : 0;
    }
    return h;
  }
};
struct Actv { ActvP m; RefActv ref; };
inline void random_bounds(Rng& r, int n, V* lb, V* ub, bool inf = true) {
  lb->resize(n); ub->resize(n);
  for (int i = 0; i < n; ++i) {
    const double a = r.uni(-1.5, 1.5), b = r.uni(-1.5, 1.5);
    (*lb)[i] = std::min(a, b); (*ub)[i] = std::max(a, b);
    if (inf && r.coin(0.15)) (*lb)[i] = -std::numeric_limits<double>::infinity();
    if (inf && r.coin(0.15)) (*ub)[i] = std::numeric_limits<double>::infinity();
  }
}
// the box a barrier really uses: shrunk by beta about its centre when both bounds are finite
inline void shrink(V* lb, V* ub, double beta) {
  const double big = std::numeric_limits<double>::max();
  for (int i = 0; i < lb->size(); ++i) {
    double& l = (*lb)[i]; double& u = (*ub)[i];
    if (std::isfinite(l) && std::isfinite(u)) { const double m = 0.5 * (l + u), d = 0.5 * (u - l); l = m - beta * d; u = m + beta * d; }
    if (!std::isfinite(l)) l = -big;
    if (!std::isfinite(u)) u = big;
  }
}
enum { NACTV = 11 };
inline Actv make_actv(Rng& r, int n, int k) {
  Actv a;
  RefActv& f = a.ref;
  switch (k) {
    case 0: f.kind = "quad"; a.m = std::make_shared<cr::ActivationModelQuad>(n); break;
    case 1: f.kind = "wquad"; f.w = V(n); for (int i = 0; i < n; ++i) f.w[i] = r.uni(0.1, 3);
      a.m = std::make_shared<cr::ActivationModelWeightedQuad>(f.w); break;
    case 2: f.kind = "flatexp"; f.p = r.uni(0.5, 5); a.m = std::make_shared<cr::ActivationModelQuadFlatExp>(n, f.p); break;
    case 3: f.kind = "flatlog"; f.p = r.uni(0.2, 5); a.m = std::make_shared<cr::ActivationModelQuadFlatLog>(n, f.p); break;
    case 4: f.kind = "smooth1"; f.p = r.coin(0.3) ? 1. : r.uni(0.05, 3); a.m = std::make_shared<cr::ActivationModelSmooth1Norm>(n, f.p); break;
    case 5: f.kind = "smooth2"; f.p = r.coin(0.3) ? 1. : r.uni(0.05, 3); a.m = std::make_shared<cr::ActivationModelSmooth2Norm>(n, f.p); break;
    case 6: f.kind = "2norm"; f.p = r.uni(0.3, 3); f.exact = false; a.m = std::make_shared<cr::ActivationModel2NormBarrier>(n, f.p, false); break;
    case 7: f.kind = "2norm"; f.p = r.uni(0.3, 3); f.exact = true; a.m = std::make_shared<cr::ActivationModel2NormBarrier>(n, f.p, true); break;
    case 8: case 9: {
      V lo, up;
      random_bounds(r, n, &lo, &up);
      const double beta = r.pick({1., 1., 0.7, 0.2});
      cr::ActivationBounds b(lo, up, beta);
      shrink(&lo, &up, beta);
      f.lb = lo; f.ub = up;
      if (k == 8) { f.kind = "barrier"; a.m = std::make_shared<cr::ActivationModelQuadraticBarrier>(b); }
      else { f.kind = "wbarrier"; f.w = V(n); for (int i = 0; i < n; ++i) f.w[i] = r.uni(0.1, 3);
        a.m = std::make_shared<cr::ActivationModelWeightedQuadraticBarrier>(b, f.w); }
      break;
    }
    default: f.kind = "smoothabs"; f.p = r.uni(0.05, 3); a.m = std::make_shared<cr::ActivationModelSmoothAbs>(n, f.p); break;
  }
  return a;
}

// r = f(delta,u) masked by the dependence flags
typedef Stamped<cr::ResidualDataAbstract> StampedRes;
class ResNL : public cr::ResidualModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ResidualModelBase, ResNL)
  ResNL(Rng& r, StateP s, int nr, int nu, bool q, bool v, bool u, double nonlin = 0.4)
      : cr::ResidualModelAbstract(s, nr, nu, q, v, u), n_(int(s->get_ndx())), nv_(int(s->get_nv())), xref_(s->zero()),
        f_(r, nr, n_ + nu, 0.8, nonlin) {
    auto mask = [&](M& m) {
      if (!q) m.leftCols(nv_).setZero();
      if (!v) m.middleCols(n_ - nv_, nv_).setZero();
      if (!q && !v) m.leftCols(n_).setZero();
      if (!u) m.rightCols(nu).setZero();
    };
    mask(f_.A); mask(f_.C);
  }
  V delta(const CRef& x) const { V d(n_); state_->diff(xref_, x, d); return d; }
  M jdelta(const CRef& x) const {
    M j = M::Zero(n_, n_), j0 = M::Zero(n_, n_);
    state_->Jdiff(xref_, x, j0, j, cr::second);
    return j;
  }
  V z(const CRef& x, const CRef& u) const { V zz(n_ + int(nu_)); zz << delta(x), u; return zz; }
  typedef std::shared_ptr<cr::ResidualDataAbstract> DP;
  void calc(const DP& d, const CRef& x, const CRef& u) override { stamp<cr::ResidualDataAbstract>(d, x, &u); d->r = f_.val(z(x, u)); }
  void calcDiff(const DP& d, const CRef& x, const CRef& u) override {
    const M j = f_.jac(V(z(x, u).array() + stale<cr::ResidualDataAbstract>(d, x, &u)));
    d->Rx = j.leftCols(n_) * jdelta(x);
    d->Ru = j.rightCols(nu_);
  }
  void calc(const DP& d, const CRef& x) override { stamp<cr::ResidualDataAbstract>(d, x, nullptr); d->r = f_.val(z(x, V::Zero(nu_))); }
  void calcDiff(const DP& d, const CRef& x) override { d->Rx = f_.jac(V(z(x, V::Zero(nu_)).array() + stale<cr::ResidualDataAbstract>(d, x, nullptr))).leftCols(n_) * jdelta(x); }
  DP createData(cr::DataCollectorAbstract* const c) override { return std::allocate_shared<StampedRes>(Eigen::aligned_allocator<StampedRes>(), this, c); }
  // reference
  V ref(const V& x, const V& u) const { return f_.val(z(x, u)); }
  M refRx(const V& x, const V& u) const { return f_.jac(z(x, u)).leftCols(n_) * jdelta(x); }
  M refRu(const V& x, const V& u) const { return f_.jac(z(x, u)).rightCols(nu_); }
  int n_, nv_;
  V xref_;
  Fn f_;
};

// tau = f(delta,u), u -> tau full rank (linear part dominates)
class ActuNL : public cr::ActuationModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ActuationModelBase, ActuNL)
  ActuNL(Rng& r, StateP s, int nu, double nonlin, double xdep)
      : cr::ActuationModelAbstract(s, nu), n_(int(s->get_ndx())), xref_(s->zero()), f_(r, int(s->get_nv()), n_ + nu, 0.3, nonlin) {
    f_.A.leftCols(n_) *= xdep; f_.C.leftCols(n_) *= xdep;
    f_.b *= xdep;
    for (int i = 0; i < std::min(nu, int(s->get_nv())); ++i) f_.A(i, n_ + i) += 1.5;
  }
  V delta(const CRef& x) const { V d(n_); state_->diff(xref_, x, d); return d; }
  M jdelta(const CRef& x) const {
    M j = M::Zero(n_, n_), j0 = M::Zero(n_, n_);
    state_->Jdiff(xref_, x, j0, j, cr::second);
    return j;
  }
  V z(const CRef& x, const CRef& u) const { V zz(n_ + int(nu_)); zz << delta(x), u; return zz; }
  typedef std::shared_ptr<cr::ActuationDataAbstract> DP;
  void calc(const DP& d, const CRef& x, const CRef& u) override { d->tau = f_.val(z(x, u)); for (size_t i = 0; i < d->tau_set.size(); ++i) d->tau_set[i] = i < nu_; }
  void calcDiff(const DP& d, const CRef& x, const CRef& u) override {
    const M j = f_.jac(z(x, u));
    d->dtau_dx = j.leftCols(n_) * jdelta(x);
    d->dtau_du = j.rightCols(nu_);
  }
  void commands(const DP& d, const CRef& x, const CRef& tau) override {
    // Gauss-Newton on |f(x,u) - tau|
    V u = V::Zero(nu_);
    for (int k = 0; k < 50; ++k) u -= f_.jac(z(x, u)).rightCols(nu_).completeOrthogonalDecomposition().solve(f_.val(z(x, u)) - tau);
    d->u = u;
  }
  V ref(const V& x, const V& u) const { return f_.val(z(x, u)); }
  M refx(const V& x, const V& u) const { return f_.jac(z(x, u)).leftCols(n_) * jdelta(x); }
  M refu(const V& x, const V& u) const { return f_.jac(z(x, u)).rightCols(nu_); }
  int n_;
  V xref_;
  Fn f_;
};
// tangent perturbation of a state
inline V plus(const StateP& s, const V& x, const V& d) { V y(s->get_nx()); s->integrate(x, d, y); return y; }
inline V minus(const StateP& s, const V& a, const V& b) { V d(s->get_ndx()); s->diff(b, a, d); return d; }  // a (-) b
}  // namespace gen
#endif
