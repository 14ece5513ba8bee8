// C28: a model cast to another scalar (and back) is the same model. Parameters and points
// are representable in float, so that the round trip must be exact.
#include "gen3.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include <sstream>
using namespace gen;
using vf::Ctx;
namespace {
template <class S> using Ve = Eigen::Matrix<S, -1, 1>;
template <class S> using Ma = Eigen::Matrix<S, -1, -1>;
template <class S> using Cr = const Eigen::Ref<const Ve<S>>&;
// ---- user models for every scalar ---------------------------------------------------
template <class S> struct TFn {
  Ma<S> A, B, C; Ve<S> c;  // A z + B sin(C z) + c
  TFn() {}
  TFn(Rng& r, int m, int n) { A = round(r.mat(m, n, 0.7)); B = round(r.mat(m, m, 0.4)); C = round(r.mat(m, n, 0.5)); c = round(r.vec(m, 0.5)); }
  static Ma<S> round(const M& a) { return a.cast<float>().template cast<S>(); }
  static Ve<S> round(const V& a) { return a.cast<float>().template cast<S>(); }
  Ve<S> val(const Ve<S>& z) const { return A * z + B * (C * z).array().sin().matrix() + c; }
  Ma<S> jac(const Ve<S>& z) const { return A + B * (C * z).array().cos().matrix().asDiagonal() * C; }
  template <class N> TFn<N> cast() const { TFn<N> f; f.A = A.template cast<N>(); f.B = B.template cast<N>(); f.C = C.template cast<N>(); f.c = c.template cast<N>(); return f; }
};
template <class _S> class TRes : public cr::ResidualModelAbstractTpl<_S> {
 public:
  typedef _S Scalar;
  typedef cr::ResidualModelAbstractTpl<_S> Base;
  typedef std::shared_ptr<cr::ResidualDataAbstractTpl<_S>> DP;
  CROCODDYL_DERIVED_CAST(cr::ResidualModelBase, TRes)
  TRes(std::shared_ptr<cr::StateAbstractTpl<_S>> s, int nr, int nu, const TFn<_S>& fn, bool u) : Base(s, nr, nu, true, true, u), f(fn), n(int(s->get_ndx())) {}
  Ve<_S> z(Cr<_S> x, Cr<_S> u) const { Ve<_S> z(n + int(this->nu_)); z << x, u; if (!this->u_dependent_) z.tail(this->nu_).setZero(); return z; }
  void calc(const DP& d, Cr<_S> x, Cr<_S> u) override { d->r = f.val(z(x, u)); }
  void calc(const DP& d, Cr<_S> x) override { d->r = f.val(z(x, Ve<_S>::Zero(this->nu_))); }
  void calcDiff(const DP& d, Cr<_S> x, Cr<_S> u) override { const Ma<_S> j = f.jac(z(x, u)); d->Rx = j.leftCols(n); d->Ru = j.rightCols(this->nu_); if (!this->u_dependent_) d->Ru.setZero(); }
  void calcDiff(const DP& d, Cr<_S> x) override { d->Rx = f.jac(z(x, Ve<_S>::Zero(this->nu_))).leftCols(n); }
  template <class N> TRes<N> cast() const { return TRes<N>(this->state_->template cast<N>(), int(this->nr_), int(this->nu_), f.template cast<N>(), this->u_dependent_); }
  TFn<_S> f;
  int n;
};
template <class _S> class TAct : public cr::ActuationModelAbstractTpl<_S> {
 public:
  typedef _S Scalar;
  typedef cr::ActuationModelAbstractTpl<_S> Base;
  typedef std::shared_ptr<cr::ActuationDataAbstractTpl<_S>> DP;
  CROCODDYL_DERIVED_CAST(cr::ActuationModelBase, TAct)
  TAct(std::shared_ptr<cr::StateAbstractTpl<_S>> s, int nu, const TFn<_S>& fn) : Base(s, nu), f(fn), n(int(s->get_ndx())) {}
  Ve<_S> z(Cr<_S> x, Cr<_S> u) const { Ve<_S> z(n + int(this->nu_)); z << x, u; return z; }
  void calc(const DP& d, Cr<_S> x, Cr<_S> u) override { d->tau = f.val(z(x, u)); }
  void calcDiff(const DP& d, Cr<_S> x, Cr<_S> u) override { const Ma<_S> j = f.jac(z(x, u)); d->dtau_dx = j.leftCols(n); d->dtau_du = j.rightCols(this->nu_); }
  void commands(const DP& d, Cr<_S>, Cr<_S> tau) override { d->u = tau.head(this->nu_); }
  template <class N> TAct<N> cast() const { return TAct<N>(this->state_->template cast<N>(), int(this->nu_), f.template cast<N>()); }
  TFn<_S> f;
  int n;
};
template <class S> struct TColl : cr::DataCollectorActuationTpl<S>, cr::DataCollectorJointTpl<S> {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  TColl(std::shared_ptr<cr::ActuationDataAbstractTpl<S>> a, std::shared_ptr<cr::JointDataAbstractTpl<S>> j) : cr::DataCollectorActuationTpl<S>(a), cr::DataCollectorJointTpl<S>(j) {}
};
template <class S> struct TDiffData : cr::DifferentialActionDataAbstractTpl<S> {
  template <class Mo> explicit TDiffData(Mo* m)
      : cr::DifferentialActionDataAbstractTpl<S>(m), act(m->act_->createData()), joint(std::make_shared<cr::JointDataAbstractTpl<S>>(m->get_state(), m->act_, m->get_nu())),
        coll(act, joint), costs(m->costs_->createData(&coll)) {
    joint->dtau_du.diagonal().setOnes();
    costs->shareMemory(this);
    if (m->cons_) { cons = m->cons_->createData(&coll); cons->shareMemory(this); }
  }
  std::shared_ptr<cr::ActuationDataAbstractTpl<S>> act;
  std::shared_ptr<cr::JointDataAbstractTpl<S>> joint;
  TColl<S> coll;
  std::shared_ptr<cr::CostDataSumTpl<S>> costs;
  std::shared_ptr<cr::ConstraintDataManagerTpl<S>> cons;
};
template <class _S> class TDiff : public cr::DifferentialActionModelAbstractTpl<_S> {
 public:
  typedef _S Scalar;
  typedef cr::DifferentialActionModelAbstractTpl<_S> Base;
  typedef std::shared_ptr<cr::DifferentialActionDataAbstractTpl<_S>> DP;
  typedef TDiffData<_S> Da;
  CROCODDYL_DERIVED_CAST(cr::DifferentialActionModelBase, TDiff)
  TDiff(std::shared_ptr<cr::StateAbstractTpl<_S>> s, std::shared_ptr<cr::ActuationModelAbstractTpl<_S>> a, std::shared_ptr<cr::CostModelSumTpl<_S>> cs,
        std::shared_ptr<cr::ConstraintModelManagerTpl<_S>> cm, const TFn<_S>& fn)
      : Base(s, a->get_nu(), cs->get_nr(), cm ? cm->get_ng() : 0, cm ? cm->get_nh() : 0, cm ? cm->get_ng_T() : 0, cm ? cm->get_nh_T() : 0),
        n(int(s->get_ndx())), nv(int(s->get_nv())), act_(a), costs_(cs), cons_(cm), f(fn) {}
  void calc(const DP& data, Cr<_S> x, Cr<_S> u) override {
    Da* d = static_cast<Da*>(data.get());
    act_->calc(d->act, x, u);
    Ve<_S> z(n + nv); z << x, d->act->tau;
    d->xout = f.val(z); d->joint->a = d->xout; d->joint->tau = u;
    costs_->calc(d->costs, x, u); d->cost = d->costs->cost;
    if (cons_) { d->cons->resize(this, d); cons_->calc(d->cons, x, u); }
  }
  void calc(const DP& data, Cr<_S> x) override {
    Da* d = static_cast<Da*>(data.get());
    d->joint->a.setZero(); d->joint->tau.setZero();
    costs_->calc(d->costs, x); d->cost = d->costs->cost;
    if (cons_) { d->cons->resize(this, d, false); cons_->calc(d->cons, x); }
  }
  void calcDiff(const DP& data, Cr<_S> x, Cr<_S> u) override {
    Da* d = static_cast<Da*>(data.get());
    act_->calcDiff(d->act, x, u);
    Ve<_S> z(n + nv); z << x, d->act->tau;
    const Ma<_S> j = f.jac(z);
    d->Fx = j.leftCols(n) + j.rightCols(nv) * d->act->dtau_dx;
    d->Fu = j.rightCols(nv) * d->act->dtau_du;
    d->joint->da_dx = d->Fx; d->joint->da_du = d->Fu;
    costs_->calcDiff(d->costs, x, u);
    if (cons_) cons_->calcDiff(d->cons, x, u);
  }
  void calcDiff(const DP& data, Cr<_S> x) override {
    Da* d = static_cast<Da*>(data.get());
    d->joint->da_dx.setZero(); d->joint->da_du.setZero();
    costs_->calcDiff(d->costs, x);
    if (cons_) cons_->calcDiff(d->cons, x);
  }
  DP createData() override { return std::allocate_shared<Da>(Eigen::aligned_allocator<Da>(), this); }
  bool checkData(const DP& d) override { return std::dynamic_pointer_cast<Da>(d) != nullptr; }
  std::size_t get_ng() const override { return cons_ ? cons_->get_ng() : this->ng_; }
  std::size_t get_nh() const override { return cons_ ? cons_->get_nh() : this->nh_; }
  std::size_t get_ng_T() const override { return cons_ ? cons_->get_ng_T() : this->ng_T_; }
  std::size_t get_nh_T() const override { return cons_ ? cons_->get_nh_T() : this->nh_T_; }
  const Ve<_S>& get_g_lb() const override { return cons_ ? cons_->get_lb() : this->g_lb_; }
  const Ve<_S>& get_g_ub() const override { return cons_ ? cons_->get_ub() : this->g_ub_; }
  template <class N> TDiff<N> cast() const {
    TDiff<N> m(this->state_->template cast<N>(), act_->template cast<N>(), std::make_shared<cr::CostModelSumTpl<N>>(costs_->template cast<N>()),
                    cons_ ? std::make_shared<cr::ConstraintModelManagerTpl<N>>(cons_->template cast<N>()) : nullptr, f.template cast<N>());
    m.set_u_lb(this->u_lb_.template cast<N>()); m.set_u_ub(this->u_ub_.template cast<N>());
    return m;
  }
  int n, nv;
  std::shared_ptr<cr::ActuationModelAbstractTpl<_S>> act_;
  std::shared_ptr<cr::CostModelSumTpl<_S>> costs_;
  std::shared_ptr<cr::ConstraintModelManagerTpl<_S>> cons_;
  TFn<_S> f;
};

// ---- what is observed of a model --------------------------------------------------
struct Pt { V x, u; };
struct Obs {
  std::vector<std::pair<std::string, M>> attr, eval, deriv;  // deriv: not judged in float for finite differences
  template <class D> static M get(const Eigen::MatrixBase<D>& m) { return m.template cast<double>(); }
  static M get(double v) { return M::Constant(1, 1, v); }
  template <class T> void a(const char* n, const T& v) { attr.push_back({n, get(v)}); }
  template <class T> void e(const char* n, const T& v) { eval.push_back({n, get(v)}); }
  template <class T> void d(const char* n, const T& v) { deriv.push_back({n, get(v)}); }
};
typedef std::vector<Pt> Pts;
template <class S> struct Unbounded { static double of(double v) { return std::abs(v) >= double(std::numeric_limits<float>::max()) ? (v > 0 ? 1e300 : -1e300) : v; } };
M bounded(const M& m) { M r = m; for (int i = 0; i < r.size(); ++i) r.data()[i] = Unbounded<double>::of(r.data()[i]); return r; }
template <class S> void state_attr(const cr::StateAbstractTpl<S>& s, Obs& o) {
  o.a("state nx", double(s.get_nx())); o.a("state ndx", double(s.get_ndx())); o.a("state nq", double(s.get_nq())); o.a("state nv", double(s.get_nv()));
  o.a("state lb", bounded(Obs::get(s.get_lb()))); o.a("state ub", bounded(Obs::get(s.get_ub()))); o.a("state has_limits", double(s.get_has_limits()));
}
template <class S> Obs obs(const std::shared_ptr<cr::StateAbstractTpl<S>>& s, const Pts& pts) {
  Obs o;
  state_attr(*s, o);
  o.e("zero", s->zero());
  Ve<S> prev = s->zero();
  const int n = int(s->get_ndx());
  for (auto& p : pts) {
    const Ve<S> x = p.x.cast<S>();
    Ve<S> d(n), y(s->get_nx());
    s->diff(prev, x, d); o.e("diff", d);
    s->integrate(x, d, y); o.e("integrate", y);
    Ma<S> a = Ma<S>::Zero(n, n), b = a;
    s->Jdiff(prev, x, a, b); o.d("Jdiff", a); o.d("Jdiff", b);
    s->Jintegrate(x, d, a, b); o.d("Jintegrate", a); o.d("Jintegrate", b);
    prev = x;
  }
  return o;
}
template <class S, class Mo, class DP> void action_common(const Mo& m, const DP& d, bool term, Obs& o) {
  const int ng = int(term ? m.get_ng_T() : m.get_ng()), nh = int(term ? m.get_nh_T() : m.get_nh());
  o.e("cost", double(d->cost)); o.e("g", d->g.head(ng)); o.e("h", d->h.head(nh));
  if (!term) o.e("r", d->r);
  o.d("Lx", d->Lx); o.d("Lxx", d->Lxx); o.d("Gx", d->Gx.topRows(ng)); o.d("Hx", d->Hx.topRows(nh));
  if (!term) { o.d("Fx", d->Fx); o.d("Fu", d->Fu); o.d("Lu", d->Lu); o.d("Lxu", d->Lxu); o.d("Luu", d->Luu); o.d("Gu", d->Gu.topRows(ng)); o.d("Hu", d->Hu.topRows(nh)); }
}
template <class S, class Mo, class F> Obs action_obs(const std::shared_ptr<Mo>& m, const Pts& pts, const F& next) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu())); o.a("nr", double(m->get_nr())); o.a("ng", double(m->get_ng())); o.a("nh", double(m->get_nh()));
  o.a("ng_T", double(m->get_ng_T())); o.a("nh_T", double(m->get_nh_T()));
  o.a("u_lb", bounded(Obs::get(m->get_u_lb()))); o.a("u_ub", bounded(Obs::get(m->get_u_ub()))); o.a("has_control_limits", double(m->get_has_control_limits()));
  auto d = m->createData();
  for (size_t i = 0; i < pts.size(); ++i) {
    const bool term = i % 3 == 2;
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    if (term) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
    if (!term) o.e("next", next(*d));
    if (i == 0) { o.a("g_lb", bounded(Obs::get(m->get_g_lb()))); o.a("g_ub", bounded(Obs::get(m->get_g_ub()))); }  // of the running node: managers hold those of the last evaluation
    action_common<S>(*m, d, term, o);
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ActionModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o = action_obs<S>(m, pts, [](const cr::ActionDataAbstractTpl<S>& d) { return d.xnext; });
  if (auto i = std::dynamic_pointer_cast<cr::IntegratedActionModelAbstractTpl<S>>(m)) {
    o.a("dt", double(i->get_dt())); o.a("control nu", double(i->get_control()->get_nu())); o.a("control nw", double(i->get_control()->get_nw()));
    const Obs p = action_obs<S>(i->get_differential(), {}, [](const cr::DifferentialActionDataAbstractTpl<S>& d) { return d.xout; });
    for (auto& a : p.attr) o.attr.push_back({"differential " + a.first, a.second});
  }
  if (auto u = std::dynamic_pointer_cast<cr::ActionModelUnicycleTpl<S>>(m)) { o.a("dt", double(u->get_dt())); o.a("cost weights", u->get_cost_weights()); }
  if (auto u = std::dynamic_pointer_cast<cr::ActionModelNumDiffTpl<S>>(m)) { o.a("gauss", double(u->get_with_gauss_approx())); }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::DifferentialActionModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o = action_obs<S>(m, pts, [](const cr::DifferentialActionDataAbstractTpl<S>& d) { return d.xout; });
  if (auto u = std::dynamic_pointer_cast<cr::DifferentialActionModelNumDiffTpl<S>>(m)) o.a("gauss", double(u->get_with_gauss_approx()));
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ActivationModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  o.a("nr", double(m->get_nr()));
  auto d = m->createData();
  for (auto& p : pts) {
    const Ve<S> r = p.x.cast<S>();
    m->calc(d, r); m->calcDiff(d, r);
    o.e("value", double(d->a_value)); o.d("gradient", d->Ar); o.d("Hessian", Obs::get(Ma<S>(d->Arr)));
  }
  return o;
}
template <class S> struct Shared {
  std::shared_ptr<cr::ActuationModelAbstractTpl<S>> am;
  std::shared_ptr<cr::ActuationDataAbstractTpl<S>> act;
  std::shared_ptr<cr::JointDataAbstractTpl<S>> joint;
  std::shared_ptr<TColl<S>> coll;
  Shared(const std::shared_ptr<cr::StateAbstractTpl<S>>& s, int nu) {
    Rng r(11);
    am = std::make_shared<TAct<S>>(s, nu, TFn<S>(r, int(s->get_nv()), int(s->get_ndx()) + nu));
    act = am->createData();
    joint = std::make_shared<cr::JointDataAbstractTpl<S>>(s, am, nu);
    coll = std::make_shared<TColl<S>>(act, joint);
  }
  void fill(const Ve<S>& x, const Ve<S>& u) {
    am->calc(act, x, u); am->calcDiff(act, x, u);
    joint->tau = u; joint->dtau_du.setIdentity();
    joint->a = x.head(joint->a.size()) * S(2); joint->da_dx.setConstant(S(0.5)); joint->da_du.setConstant(S(0.25));
  }
};
template <class S> Obs obs(const std::shared_ptr<cr::ResidualModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nr", double(m->get_nr())); o.a("nu", double(m->get_nu()));
  o.a("q_dependent", double(m->get_q_dependent())); o.a("v_dependent", double(m->get_v_dependent())); o.a("u_dependent", double(m->get_u_dependent()));
  Shared<S> sh(m->get_state(), int(m->get_nu()));
  auto d = m->createData(sh.coll.get());
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    sh.fill(x, u);
    if (i % 3 == 2) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
    o.e("r", d->r); o.d("Rx", d->Rx);
    if (i % 3 != 2) o.d("Ru", d->Ru);
  }
  return o;
}
template <class S, class Mo> void cost_evals(const std::shared_ptr<Mo>& m, const Pts& pts, Obs& o) {
  Shared<S> sh(m->get_state(), int(m->get_nu()));
  auto d = m->createData(sh.coll.get());
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    sh.fill(x, u);
    if (i % 3 == 2) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
    o.e("cost", double(d->cost)); o.d("Lx", d->Lx); o.d("Lxx", d->Lxx);
    if (i % 3 != 2) { o.d("Lu", d->Lu); o.d("Luu", d->Luu); o.d("Lxu", d->Lxu); }
  }
}
template <class S> Obs obs(const std::shared_ptr<cr::CostModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu())); o.a("nr", double(m->get_residual()->get_nr())); o.a("activation nr", double(m->get_activation()->get_nr()));
  if (auto u = std::dynamic_pointer_cast<cr::CostModelNumDiffTpl<S>>(m)) o.a("gauss", double(u->get_with_gauss_approx()));
  cost_evals<S>(m, pts, o);
  return o;
}
double tag(const std::string& s) { return double(vf::hash_str(s) >> 20); }
template <class S> Obs obs(const std::shared_ptr<cr::CostModelSumTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu())); o.a("nr", double(m->get_nr())); o.a("nr_total", double(m->get_nr_total())); o.a("items", double(m->get_costs().size()));
  for (auto& c : m->get_costs()) { o.a("item name", tag(c.first + "/" + c.second->name)); o.a("item weight", double(c.second->weight)); o.a("item active", double(c.second->active)); }
  for (auto& c : m->get_active_set()) o.a("active", tag(c));
  for (auto& c : m->get_inactive_set()) o.a("inactive", tag(c));
  cost_evals<S>(m, pts, o);
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ConstraintModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu())); o.a("ng", double(m->get_ng())); o.a("nh", double(m->get_nh())); o.a("T", double(m->get_T_constraint()));
  o.a("lb", bounded(Obs::get(m->get_lb()))); o.a("ub", bounded(Obs::get(m->get_ub())));
  Shared<S> sh(m->get_state(), int(m->get_nu()));
  auto d = m->createData(sh.coll.get());
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    sh.fill(x, u);
    const bool term = i % 3 == 2;
    if (term) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
    o.e("g", d->g); o.e("h", d->h); o.d("Gx", d->Gx); o.d("Hx", d->Hx);
    if (!term) { o.d("Gu", d->Gu); o.d("Hu", d->Hu); }
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ConstraintModelManagerTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu())); o.a("ng", double(m->get_ng())); o.a("nh", double(m->get_nh())); o.a("ng_T", double(m->get_ng_T())); o.a("nh_T", double(m->get_nh_T()));
  o.a("items", double(m->get_constraints().size()));
  for (auto& c : m->get_constraints()) { o.a("item name", tag(c.first + "/" + c.second->name)); o.a("item active", double(c.second->active)); }
  for (auto& c : m->get_active_set()) o.a("active", tag(c));
  for (auto& c : m->get_inactive_set()) o.a("inactive", tag(c));
  Shared<S> sh(m->get_state(), int(m->get_nu()));
  auto d = m->createData(sh.coll.get());
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    sh.fill(x, u);
    const bool term = i % 3 == 2;
    d->resize(m.get(), !term);
    if (term) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
    o.e("g", d->g); o.e("h", d->h); o.d("Gx", d->Gx); o.d("Hx", d->Hx);
    o.e("lb", bounded(Obs::get(m->get_lb()))); o.e("ub", bounded(Obs::get(m->get_ub())));
    if (!term) { o.d("Gu", d->Gu); o.d("Hu", d->Hu); }
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ActuationModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  state_attr(*m->get_state(), o);
  o.a("nu", double(m->get_nu()));
  auto d = m->createData();
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> x = pts[i].x.cast<S>(), u = pts[i].u.cast<S>();
    m->calc(d, x, u); m->calcDiff(d, x, u);
    o.e("tau", d->tau); o.d("dtau_dx", d->dtau_dx); o.d("dtau_du", d->dtau_du);
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::SquashingModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  o.a("ns", double(m->get_ns())); o.a("s_lb", m->get_s_lb()); o.a("s_ub", m->get_s_ub());
  if (auto q = std::dynamic_pointer_cast<cr::SquashingModelSmoothSatTpl<S>>(m)) o.a("smooth", double(q->get_smooth()));
  auto d = m->createData();
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> u = pts[i].x.cast<S>();
    m->calc(d, u); m->calcDiff(d, u);
    o.e("u", d->u); o.d("du_ds", d->du_ds);
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ControlParametrizationModelAbstractTpl<S>>& m, const Pts& pts) {
  Obs o;
  o.a("nu", double(m->get_nu())); o.a("nw", double(m->get_nw()));
  auto d = m->createData();
  for (size_t i = 0; i < pts.size(); ++i) {
    const Ve<S> u = pts[i].u.cast<S>(), w = pts[i].x.cast<S>();
    const S t = S(double(i) / 4);
    m->calc(d, t, u); m->calcDiff(d, t, u);
    o.e("w", d->w); o.d("dw_du", d->dw_du);
    m->params(d, t, w);
    o.e("params", d->u);
    Ve<S> lb = w.array() - S(1), ub = w.array() + S(1), a(m->get_nu()), b(m->get_nu());
    m->convertBounds(lb, ub, a, b);
    o.e("bounds", a); o.e("bounds", b);
  }
  return o;
}
template <class S> Obs obs(const std::shared_ptr<cr::ShootingProblemTpl<S>>& p, const Pts& pts) {
  Obs o;
  o.a("T", double(p->get_T())); o.a("nx", double(p->get_nx())); o.a("ndx", double(p->get_ndx())); o.a("nthreads", double(p->get_nthreads())); o.a("x0", p->get_x0());
  std::vector<Ve<S>> xs, us;
  for (size_t t = 0; t <= p->get_T(); ++t) {
    xs.push_back(pts[t % pts.size()].x.cast<S>());
    if (t < p->get_T()) us.push_back(pts[(t + 1) % pts.size()].u.cast<S>().head(p->get_runningModels()[t]->get_nu()));
  }
  for (size_t t = 0; t <= p->get_T(); ++t) {
    auto& m = t < p->get_T() ? p->get_runningModels()[t] : p->get_terminalModel();
    Obs q = obs<S>(m, {});
    o.attr.insert(o.attr.end(), q.attr.begin(), q.attr.end());
  }
  o.e("total cost", double(p->calc(xs, us)));
  p->calcDiff(xs, us);
  for (size_t t = 0; t <= p->get_T(); ++t) {
    const bool term = t == p->get_T();
    auto& m = term ? p->get_terminalModel() : p->get_runningModels()[t];
    auto& d = term ? p->get_terminalData() : p->get_runningDatas()[t];
    if (!term) o.e("next", d->xnext);
    action_common<S>(*m, d, term, o);
  }
  return o;
}
template <class T> std::string printed(const T& m) { std::ostringstream s; s << m; return s.str(); }

// ---- the oracle -------------------------------------------------------------------
double& worst() { static double w = 0; return w; }
std::string differ(const std::vector<std::pair<std::string, M>>& a, const std::vector<std::pair<std::string, M>>& b, double tol) {
  if (a.size() != b.size()) return "number of values";
  double s = 1;
  for (auto& v : a) for (int i = 0; i < v.second.size(); ++i) if (std::isfinite(v.second.data()[i]) && std::abs(v.second.data()[i]) < 1e200) s = std::max(s, std::abs(v.second.data()[i]));
  for (size_t i = 0; i < a.size(); ++i) {
    const M &x = a[i].second, &y = b[i].second;
    if (a[i].first != b[i].first || x.rows() != y.rows() || x.cols() != y.cols()) return a[i].first;
    for (int j = 0; j < x.size(); ++j) {
      const double p = x.data()[j], q = y.data()[j];
      if (p == q || (std::isnan(p) && std::isnan(q))) continue;
      if (!(std::abs(p - q) <= tol * s)) return a[i].first;
      worst() = std::max(worst(), std::abs(p - q) / s);
    }
  }
  return "";
}
std::string differ(const Obs& a, const Obs& b, double tol, bool derivs = true) {
  std::string w = differ(a.attr, b.attr, 0);
  if (w.empty()) w = differ(a.eval, b.eval, tol);
  if (w.empty() && derivs) w = differ(a.deriv, b.deriv, tol);
  return w;
}
double ftol(const Obs&) { return 2e-3; }
bool& numdiff_inside() { static bool b = false; return b; }
struct Kind { std::string name; bool numdiff = false; };
// m64: the model; B: its base class template
template <template <class> class B>
void judge(Ctx& c, const Kind& k, const std::shared_ptr<B<double>>& m, const Pts& pts, const std::vector<std::pair<std::string, std::shared_ptr<B<double>>>>& twins,
           const std::shared_ptr<B<float>>& f, const std::shared_ptr<B<double>>& back, const std::function<void()>& change = nullptr) {
  const Obs o = obs<double>(m, pts);
  if (k.numdiff) numdiff_inside() = true;
  for (auto& t : twins) {
    const std::string w = differ(o, obs<double>(t.second, pts), 1e-12);
    c.check(w.empty(), "same-scalar:" + k.name, VF_STR(t.first << " differs in " << w));
    c.count("same-scalar casts");
  }
  c.check(bool(f) && bool(back), "no-cast:" + k.name, "casting gave no model");
  if (!f || !back) return;
  const Obs of = obs<float>(f, pts);
  worst() = 0;
  const std::string wf = differ(o, of, ftol(o), !numdiff_inside());
  c.check(wf.empty(), "to-float:" + k.name, VF_STR("float model differs in " << wf));
  c.maxi("float error", worst());
  worst() = 0;
  const Obs ob = obs<double>(back, pts);
  const std::string wb = differ(o, ob, 1e-12);
  c.check(wb.empty(), "round-trip:" + k.name, VF_STR("double to float to double differs in " << wb));
  c.maxi("round-trip error", worst());
  if (change) {  // the casts are models of their own
    change();
    const Obs o2 = obs<double>(m, pts), ob2 = obs<double>(back, pts);
    if (!differ(o, o2, 1e-9).empty()) c.count("changed originals");
    const std::string w = differ(ob, ob2, 1e-12);
    c.check(w.empty(), "shares-state:" + k.name, VF_STR("changing the original changed the cast in " << w));
  }
  c.count("casts of " + k.name);
  c.count("values compared", o.eval.size() + o.deriv.size() + o.attr.size());
}
V rnd(Rng& r, int n, double s = 1.) { return r.vec(n, s).cast<float>().cast<double>(); }
M rndm(Rng& r, int m, int n, double s = 1.) { return r.mat(m, n, s).cast<float>().cast<double>(); }
M psd(Rng& r, int n) { V d(n); for (int i = 0; i < n; ++i) d[i] = std::round(r.uni(1, 4) * 16) / 16; M q = d.asDiagonal(); for (int i = 1; i < n; ++i) q(i, i - 1) = q(i - 1, i) = 0.125; return q; }
double dy(Rng& r, double lo, double hi) { return double(float(std::round(r.uni(lo, hi) * 16) / 16)); }
Pts points(Rng& r, int nx, int nu, int n = 6) { Pts p; for (int i = 0; i < n; ++i) p.push_back({rnd(r, nx, 0.7), rnd(r, nu, 0.7)}); return p; }
void limits(Rng& r, int n, V* lb, V* ub) {
  *lb = V(n); *ub = V(n);
  for (int i = 0; i < n; ++i) { (*lb)[i] = -dy(r, 0.1, 3); (*ub)[i] = dy(r, 0.1, 3); if (r.coin(0.2)) (*lb)[i] = -INFINITY; if (r.coin(0.2)) (*ub)[i] = INFINITY; }
}
typedef std::shared_ptr<cr::StateAbstractTpl<double>> SP;
SP make_state(Rng& r, int nx) {
  SP s = std::make_shared<cr::StateVector>(nx);
  if (r.coin(0.4)) { V lb, ub; limits(r, nx, &lb, &ub); s->set_lb(lb); s->set_ub(ub); }
  return s;
}
template <class T> T pow2(T m) { return m; }
struct ActvGen { std::shared_ptr<cr::ActivationModelAbstract> m; std::string kind; std::function<void()> change; std::function<std::shared_ptr<cr::ActivationModelAbstract>()> typed; };
template <class T> void settyped(ActvGen& g, const std::shared_ptr<T>& m) { g.m = m; g.typed = [m] { return std::make_shared<T>(m->template cast<double>()); }; }
ActvGen make_activation(Rng& r, int n) {
  ActvGen g;
  const int k = r.irange(0, 9);
  const double p = dy(r, 0.25, 3);
  V lo(n), up(n), w(n);
  for (int i = 0; i < n; ++i) {
    lo[i] = dy(r, -1, 0); up[i] = dy(r, 0.1, 1); w[i] = dy(r, 0.1, 3);
    if (r.coin(0.25)) lo[i] = -INFINITY;
    if (r.coin(0.25)) up[i] = INFINITY;
  }
  const cr::ActivationBounds b(lo, up, r.pick({1., 0.5, 0.25, 0.75}));
  switch (k) {
    case 0: settyped(g, std::make_shared<cr::ActivationModelQuad>(n)); g.kind = "activation-quad"; break;
    case 1: { auto m = std::make_shared<cr::ActivationModelWeightedQuad>(w); settyped(g, m); g.kind = "activation-wquad"; g.change = [m] { m->set_weights(m->get_weights() * 2); }; break; }
    case 2: { auto m = std::make_shared<cr::ActivationModelQuadFlatExp>(n, p); settyped(g, m); g.kind = "activation-flatexp"; g.change = [m] { m->set_alpha(m->get_alpha() * 2); }; break; }
    case 3: { auto m = std::make_shared<cr::ActivationModelQuadFlatLog>(n, p); settyped(g, m); g.kind = "activation-flatlog"; g.change = [m] { m->set_alpha(m->get_alpha() * 2); }; break; }
    case 4: settyped(g, std::make_shared<cr::ActivationModelSmooth1Norm>(n, p)); g.kind = "activation-smooth1"; break;
    case 5: settyped(g, std::make_shared<cr::ActivationModelSmooth2Norm>(n, p)); g.kind = "activation-smooth2"; break;
    case 6: { auto m = std::make_shared<cr::ActivationModel2NormBarrier>(n, p, r.coin()); settyped(g, m); g.kind = "activation-2norm"; g.change = [m] { m->set_alpha(m->get_alpha() * 2); }; break; }
    case 7: { auto m = std::make_shared<cr::ActivationModelQuadraticBarrier>(b); settyped(g, m); g.kind = "activation-barrier"; V z = V::Zero(n), o = V::Constant(n, 0.125); g.change = [m, z, o] { m->set_bounds(cr::ActivationBounds(z, o)); }; break; }
    case 8: { auto m = std::make_shared<cr::ActivationModelWeightedQuadraticBarrier>(b, w); settyped(g, m); g.kind = "activation-wbarrier"; g.change = [m] { m->set_weights(m->get_weights() * 2); }; break; }
    default: {
      ActvGen in = make_activation(r, n);
      if (in.kind == "activation-numdiff") return in;
      auto m = std::make_shared<cr::ActivationModelNumDiff>(in.m); settyped(g, m); g.kind = "activation-numdiff"; numdiff_inside() = true; g.change = in.change;
    }
  }
  return g;
}
struct ResGen { std::shared_ptr<cr::ResidualModelAbstract> m, typed; std::string kind; std::function<void()> change; };
ResGen make_res(Rng& r, const SP& s, const std::shared_ptr<cr::ActuationModelAbstract>& act, int nu, bool plain = false) {
  ResGen g;
  const int n = int(s->get_ndx()), nv = int(s->get_nv()), k = plain ? 4 : r.irange(0, 5);
  if (k == 0) { auto m = std::make_shared<cr::ResidualModelControl>(s, rnd(r, nu)); g.m = m; g.typed = std::make_shared<cr::ResidualModelControl>(m->cast<double>()); g.kind = "residual-control"; g.change = [m] { m->set_reference(m->get_reference() * 2); }; }
  else if (k == 1) { auto m = std::make_shared<cr::ResidualModelJointEffort>(s, act, rnd(r, nu), nu, r.coin()); g.m = m; g.typed = std::make_shared<cr::ResidualModelJointEffort>(m->cast<double>()); g.kind = "residual-effort"; g.change = [m] { m->set_reference(m->get_reference() * 2); }; }
  else if (k == 2) { auto m = std::make_shared<cr::ResidualModelJointAcceleration>(s, rnd(r, nv), nu); g.m = m; g.typed = std::make_shared<cr::ResidualModelJointAcceleration>(m->cast<double>()); g.kind = "residual-acceleration"; g.change = [m] { m->set_reference(m->get_reference() * 2); }; }
  else {
    const int nr = r.irange(1, 4);
    auto m = std::make_shared<TRes<double>>(s, nr, nu, TFn<double>(r, nr, n + nu), r.coin(0.7));
    g.m = m; g.typed = m; g.kind = "residual-user";
    if (k == 3) { auto w = std::make_shared<cr::ResidualModelNumDiff>(g.m); g.m = w; g.typed = std::make_shared<cr::ResidualModelNumDiff>(w->cast<double>()); g.kind = "residual-numdiff"; numdiff_inside() = true; }
  }
  return g;
}
struct ActuGen { std::shared_ptr<cr::ActuationModelAbstract> m, typed; std::string kind; std::function<void()> change; };
std::shared_ptr<cr::SquashingModelSmoothSatTpl<double>> make_squash(Rng& r, int n) {
  V lb(n), ub(n);
  for (int i = 0; i < n; ++i) { lb[i] = -dy(r, 0.5, 3); ub[i] = dy(r, 0.5, 3); }
  auto m = std::make_shared<cr::SquashingModelSmoothSatTpl<double>>(lb, ub, n);
  m->set_smooth(r.pick({0.0625, 0.25, 0.5, 1.}));
  return m;
}
ActuGen make_actu(Rng& r, const SP& s, int nu, bool numdiff = true) {
  ActuGen g;
  g.m = std::make_shared<TAct<double>>(s, nu, TFn<double>(r, int(s->get_nv()), int(s->get_ndx()) + nu));
  g.kind = "actuation-user"; g.typed = g.m;
  const int k = r.irange(0, 2);
  if (k == 1) { auto q = make_squash(r, nu); auto m = std::make_shared<cr::ActuationSquashingModelTpl<double>>(g.m, q, nu); g.m = m; g.typed = std::make_shared<cr::ActuationSquashingModelTpl<double>>(m->cast<double>()); g.kind = "actuation-squashing"; g.change = [q] { q->set_smooth(q->get_smooth() == 1. ? 0.5 : 1.); }; }
  if (k == 2 && numdiff) { auto m = std::make_shared<cr::ActuationModelNumDiff>(g.m); g.m = m; g.typed = std::make_shared<cr::ActuationModelNumDiff>(m->cast<double>()); g.kind = "actuation-numdiff"; numdiff_inside() = true; }
  return g;
}
std::shared_ptr<cr::CostModelSum> make_sum(Rng& r, const SP& s, const std::shared_ptr<cr::ActuationModelAbstract>& a, int nu) {
  auto sum = std::make_shared<cr::CostModelSum>(s, nu);
  const int n = r.irange(0, 5);
  for (int i = 0; i < n; ++i) {
    ResGen g = make_res(r, s, a, nu);
    std::shared_ptr<cr::CostModelAbstract> c = std::make_shared<cr::CostModelResidual>(s, make_activation(r, int(g.m->get_nr())).m, g.m);
    sum->addCost("c" + std::to_string(r.irange(0, 99)) + "_" + std::to_string(i), c, dy(r, 0.1, 3), r.coin(0.75));
  }
  for (auto& c : sum->get_costs()) { if (r.coin(0.2)) sum->changeCostStatus(c.first, r.coin()); if (r.coin(0.2)) c.second->weight = dy(r, 0, 4); }
  return sum;
}
std::shared_ptr<cr::ConstraintModelAbstract> make_con(Rng& r, const SP& s, const ResGen& g) {
  const int nr = int(g.m->get_nr());
  V lb, ub;
  limits(r, nr, &lb, &ub);
  const bool T = r.coin(0.7);
  auto c = r.coin() ? std::make_shared<cr::ConstraintModelResidual>(s, g.m, T) : std::make_shared<cr::ConstraintModelResidual>(s, g.m, lb, ub, T);
  if (c->get_ng() && r.coin(0.2)) c->remove_bounds();
  return c;
}
std::shared_ptr<cr::ConstraintModelManager> make_cons(Rng& r, const SP& s, const std::shared_ptr<cr::ActuationModelAbstract>& a, int nu) {
  auto cm = std::make_shared<cr::ConstraintModelManager>(s, nu);
  const int n = r.irange(0, 4);
  for (int i = 0; i < n; ++i) cm->addConstraint("k" + std::to_string(r.irange(0, 99)) + "_" + std::to_string(i), make_con(r, s, make_res(r, s, a, nu, true)), r.coin(0.75));
  std::vector<std::string> names;
  for (auto& c : cm->get_constraints()) names.push_back(c.first);
  for (auto& c : names) if (r.coin(0.3)) cm->changeConstraintStatus(c, r.coin());
  return cm;
}
typedef std::shared_ptr<cr::DifferentialActionModelAbstract> DiP;
struct DiffGen { DiP m, typed; std::string kind; std::function<void()> change; };
template <class Mo> void maybe_limits(Rng& r, const std::shared_ptr<Mo>& m, double p) {
  if (!r.coin(p)) return;
  V lb, ub;
  limits(r, int(m->get_nu()), &lb, &ub);
  m->set_u_lb(lb); m->set_u_ub(ub);
}
template <class Mo> void maybe_gbounds(Rng& r, const std::shared_ptr<Mo>& m) {
  if (!r.coin(0.5) || !m->get_ng()) return;
  V lb, ub;
  limits(r, int(m->get_ng()), &lb, &ub);
  m->set_g_lb(lb); m->set_g_ub(ub);
}
DiffGen make_diff(Rng& r, bool numdiff = true, double plim = 0.5) {
  DiffGen g;
  const int k = r.irange(0, numdiff ? 3 : 2), nv = r.irange(1, 3), nu = r.irange(1, nv);
  if (k == 0) {
    const int ng = r.irange(0, 2), nh = r.irange(0, 1), n = 2 * nv;
    auto m = r.coin(0.2) ? std::make_shared<cr::DifferentialActionModelLQR>(nv, nu, r.coin())
                         : std::make_shared<cr::DifferentialActionModelLQR>(rndm(r, nv, nv), rndm(r, nv, nv), rndm(r, nv, nu), psd(r, n), M(2 * M::Identity(nu, nu)), rndm(r, n, nu, 0.1),
                                                                            rndm(r, ng, n + nu), rndm(r, nh, n + nu), rnd(r, nv), rnd(r, n), rnd(r, nu), rnd(r, ng), rnd(r, nh));
    maybe_limits(r, m, plim); maybe_gbounds(r, m);
    g.m = m; g.typed = std::make_shared<cr::DifferentialActionModelLQR>(m->cast<double>()); g.kind = "diff-lqr";
    g.change = [m] { m->set_LQR(m->get_Aq(), m->get_Av(), m->get_B(), 2 * m->get_Q(), m->get_R(), m->get_N(), m->get_G(), m->get_H(), m->get_f(), m->get_q(), m->get_r(), m->get_g(), m->get_h()); };
  } else {
    SP s = make_state(r, 2 * nv);
    ActuGen a = make_actu(r, s, nu, numdiff);
    auto sum = make_sum(r, s, a.m, nu);
    std::shared_ptr<cr::ConstraintModelManager> cm = r.coin(0.4) ? make_cons(r, s, a.m, nu) : nullptr;
    auto m = std::make_shared<TDiff<double>>(s, a.m, sum, cm, TFn<double>(r, nv, 3 * nv));
    maybe_limits(r, m, plim);
    g.m = m; g.typed = std::make_shared<TDiff<double>>(m->cast<double>()); g.kind = "diff-sum";
    g.change = [sum] { for (auto& c : sum->get_costs()) c.second->weight *= 2; };
    if (k == 3) {
      auto w = std::make_shared<cr::DifferentialActionModelNumDiff>(m, m->get_nr() != 1 && r.coin());
      g.m = w; g.typed = std::make_shared<cr::DifferentialActionModelNumDiff>(w->cast<double>()); g.kind = "diff-numdiff"; numdiff_inside() = true;
    }
  }
  return g;
}
typedef std::shared_ptr<cr::ActionModelAbstract> AcP;
struct ActGen { AcP m, typed; std::string kind; std::function<void()> change; };
ActGen make_action(Rng& r, int depth = 0) {
  ActGen g;
  const int k = r.irange(0, depth ? 4 : 5);
  if (k == 0) {
    const int n = r.irange(1, 4), nu = r.irange(1, 3), ng = r.irange(0, 2), nh = r.irange(0, 1);
    auto m = r.coin(0.2) ? std::make_shared<cr::ActionModelLQR>(n, std::min(n, nu), r.coin())
                         : std::make_shared<cr::ActionModelLQR>(rndm(r, n, n), rndm(r, n, nu), psd(r, n), M(2 * M::Identity(nu, nu)), rndm(r, n, nu, 0.1), rndm(r, ng, n + nu), rndm(r, nh, n + nu),
                                                                rnd(r, n), rnd(r, n), rnd(r, nu), rnd(r, ng), rnd(r, nh));
    maybe_limits(r, m, 0.5); maybe_gbounds(r, m);
    g.m = m; g.typed = std::make_shared<cr::ActionModelLQR>(m->cast<double>()); g.kind = "action-lqr";
    g.change = [m] { m->set_LQR(m->get_A(), m->get_B(), 2 * m->get_Q(), m->get_R(), m->get_N(), m->get_G(), m->get_H(), m->get_f(), m->get_q(), m->get_r(), m->get_g(), m->get_h()); };
  } else if (k == 1) {
    auto m = std::make_shared<cr::ActionModelUnicycle>();
    m->set_dt(r.pick({0.125, 0.25, 0.5}));
    m->set_cost_weights(Eigen::Vector2d(dy(r, 0.5, 12), dy(r, 0.5, 3)));
    maybe_limits(r, m, 0.5);
    g.m = m; g.typed = std::make_shared<cr::ActionModelUnicycle>(m->cast<double>()); g.kind = "action-unicycle";
    g.change = [m] { m->set_dt(m->get_dt() * 2); };
  } else if (k == 5) {
    ActGen in = make_action(r, 1);
    auto m = std::make_shared<cr::ActionModelNumDiff>(in.m, r.coin());
    g.m = m; g.typed = std::make_shared<cr::ActionModelNumDiff>(m->cast<double>()); g.kind = "action-numdiff"; numdiff_inside() = true; g.change = in.change;
  } else {
    DiffGen d = make_diff(r, depth == 0 && r.coin(0.2));
    const int nw = int(d.m->get_nu()), kind = r.irange(0, 3);
    std::shared_ptr<cr::ControlParametrizationModelAbstract> ctrl;
    if (kind == 0) ctrl = std::make_shared<cr::ControlParametrizationModelPolyZero>(nw);
    else if (kind == 1) ctrl = std::make_shared<cr::ControlParametrizationModelPolyOne>(nw);
    else ctrl = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nw, kind == 2 ? cr::RKType::three : cr::RKType::four);
    const double dt = r.pick({0., 0.0625, 0.125, 0.25});
    const bool res = r.coin();
    std::function<void()> change = d.change;
    std::shared_ptr<cr::IntegratedActionModelAbstract> im;
    if (k == 2) {
      auto m = r.coin(0.3) ? std::make_shared<cr::IntegratedActionModelEuler>(d.m, dt, res) : std::make_shared<cr::IntegratedActionModelEuler>(d.m, ctrl, dt, res);
      maybe_limits(r, m, 0.3);
      g.m = m; g.typed = std::make_shared<cr::IntegratedActionModelEuler>(m->cast<double>()); g.kind = "action-euler"; im = m;
    } else {
      const cr::RKType t = r.pick({cr::RKType::two, cr::RKType::three, cr::RKType::four});
      auto m = r.coin(0.3) ? std::make_shared<cr::IntegratedActionModelRK>(d.m, t, dt, res) : std::make_shared<cr::IntegratedActionModelRK>(d.m, ctrl, t, dt, res);
      maybe_limits(r, m, 0.3);
      g.m = m; g.typed = std::make_shared<cr::IntegratedActionModelRK>(m->cast<double>()); g.kind = "action-rk"; im = m;
    }
    if (d.kind == "diff-numdiff") g.kind += "-numdiff";
    g.change = [im, change] { change(); im->set_dt(im->get_dt() * 2 + 0.125); };
  }
  return g;
}
template <class T, class U> void check_print(Ctx& c, const std::string& kind, const T& a, const U& b) {
  const std::string p = printed(a), q = printed(b);
  c.check(p == q, "print:" + kind, VF_STR(p.substr(0, 150) << " | " << q.substr(0, 150)));
}
}  // namespace
VF_SCENARIO(states, 200, 6000) {
  numdiff_inside() = false;
  const int nx = 2 * r.irange(1, 5);
  SP s = make_state(r, nx);
  Kind k{"state-vector"};
  std::shared_ptr<cr::StateAbstract> t;
  if (r.coin(0.3)) {
    auto w = std::make_shared<cr::StateNumDiff>(s);
    if (r.coin()) { V lb, ub; limits(r, nx, &lb, &ub); w->set_lb(lb); w->set_ub(ub); }
    s = w; k = {"state-numdiff", true}; t = std::make_shared<cr::StateNumDiff>(w->cast<double>());
  }
  else t = std::make_shared<cr::StateVector>(std::static_pointer_cast<cr::StateVector>(s)->cast<double>());
  const Pts p = points(r, nx, 0);
  auto f = s->cast<float>();
  auto b = f->cast<double>();
  const V one = V::Ones(nx);
  judge<cr::StateAbstractTpl>(c, k, s, p, {{"cast through the base", s->cast<double>()}, {"typed cast", t}}, f, b, [&] { s->set_ub(one); s->set_lb(-one); });
  c.sig(k.name + std::to_string(nx));
}
VF_SCENARIO(actions, 1200, 30000) {
  numdiff_inside() = false;
  ActGen g = make_action(r);
  const Pts p = points(r, int(g.m->get_state()->get_nx()), int(g.m->get_nu()));
  auto f = g.m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, g.kind, *g.m, *b);
  judge<cr::ActionModelAbstractTpl>(c, {g.kind, g.kind.find("numdiff") != std::string::npos}, g.m, p, {{"cast through the base", g.m->cast<double>()}, {"typed cast", g.typed}}, f, b, g.change);
  c.sig(VF_STR(g.kind << g.m->get_nu() << g.m->get_state()->get_nx() << g.m->get_ng() << g.m->get_nh()).operator std::string());
}
VF_SCENARIO(differential, 600, 15000) {
  numdiff_inside() = false;
  DiffGen g = make_diff(r);
  const Pts p = points(r, int(g.m->get_state()->get_nx()), int(g.m->get_nu()));
  auto f = g.m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, g.kind, *g.m, *b);
  judge<cr::DifferentialActionModelAbstractTpl>(c, {g.kind, g.kind == "diff-numdiff"}, g.m, p, {{"cast through the base", g.m->cast<double>()}, {"typed cast", g.typed}}, f, b, g.change);
  c.sig(VF_STR(g.kind << g.m->get_nu() << g.m->get_state()->get_nx() << g.m->get_ng() << g.m->get_nh() << g.m->get_nr()).operator std::string());
}
VF_SCENARIO(activations, 600, 15000) {
  numdiff_inside() = false;
  const int n = r.irange(1, 5);
  ActvGen g = make_activation(r, n);
  const Pts p = points(r, n, 0);
  auto f = g.m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, g.kind, *g.m, *b);
  judge<cr::ActivationModelAbstractTpl>(c, {g.kind, g.kind == "activation-numdiff"}, g.m, p, {{"cast through the base", g.m->cast<double>()}, {"typed cast", g.typed()}}, f, b, g.change);
  c.sig(g.kind + std::to_string(n));
}
VF_SCENARIO(residuals, 400, 10000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen a = make_actu(r, s, nu);
  ResGen g = make_res(r, s, a.m, nu);
  const Pts p = points(r, 2 * nv, nu);
  auto f = g.m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, g.kind, *g.m, *b);
  judge<cr::ResidualModelAbstractTpl>(c, {g.kind, g.kind == "residual-numdiff"}, g.m, p, {{"cast through the base", g.m->cast<double>()}, {"typed cast", g.typed}}, f, b, g.change);
  c.sig(g.kind + std::to_string(nv * 10 + nu));
}
VF_SCENARIO(costs, 400, 10000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen a = make_actu(r, s, nu);
  ResGen g = make_res(r, s, a.m, nu);
  ActvGen v = make_activation(r, int(g.m->get_nr()));
  auto m = std::make_shared<cr::CostModelResidual>(s, v.m, g.m);
  Kind k{"cost-residual", g.kind == "residual-numdiff" || v.kind == "activation-numdiff"};
  std::shared_ptr<cr::CostModelAbstract> x = m, t = std::make_shared<cr::CostModelResidual>(m->cast<double>());
  if (r.coin(0.3)) { auto w = std::make_shared<cr::CostModelNumDiff>(m); x = w; t = std::make_shared<cr::CostModelNumDiff>(w->cast<double>()); k = {"cost-numdiff", true}; }
  const Pts p = points(r, 2 * nv, nu);
  auto f = x->cast<float>();
  auto b = f->cast<double>();
  check_print(c, k.name, *x, *b);
  judge<cr::CostModelAbstractTpl>(c, k, x, p, {{"cast through the base", x->cast<double>()}, {"typed cast", t}}, f, b, v.change);
  c.sig(k.name + g.kind + v.kind);
}
VF_SCENARIO(cost_sums, 400, 10000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen a = make_actu(r, s, nu);
  auto m = make_sum(r, s, a.m, nu);
  const Pts p = points(r, 2 * nv, nu);
  auto f = std::make_shared<cr::CostModelSumTpl<float>>(m->cast<float>());
  auto b = std::make_shared<cr::CostModelSum>(f->cast<double>());
  judge<cr::CostModelSumTpl>(c, {"cost-sum"}, m, p, {{"typed cast", std::make_shared<cr::CostModelSum>(m->cast<double>())}}, f, b, [&] { for (auto& i : m->get_costs()) { i.second->weight *= 2; m->changeCostStatus(i.first, !i.second->active); } });
  c.sig(VF_STR("sum" << m->get_costs().size() << m->get_nr() << m->get_nr_total()).operator std::string());
}
VF_SCENARIO(constraints, 400, 10000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen a = make_actu(r, s, nu);
  ResGen g = make_res(r, s, a.m, nu);
  auto m = std::static_pointer_cast<cr::ConstraintModelResidual>(make_con(r, s, g));
  Kind k{"constraint-residual", g.kind == "residual-numdiff"};
  std::shared_ptr<cr::ConstraintModelAbstract> x = m, t = std::make_shared<cr::ConstraintModelResidual>(m->cast<double>());
  if (r.coin(0.3)) { auto w = std::make_shared<cr::ConstraintModelNumDiff>(m); x = w; t = std::make_shared<cr::ConstraintModelNumDiff>(w->cast<double>()); k = {"constraint-numdiff", true}; }
  const Pts p = points(r, 2 * nv, nu);
  auto f = x->cast<float>();
  auto b = f->cast<double>();
  check_print(c, k.name, *x, *b);
  judge<cr::ConstraintModelAbstractTpl>(c, k, x, p, {{"cast through the base", x->cast<double>()}, {"typed cast", t}}, f, b, g.change);
  if (m->get_lb().size()) {  // bounds can still be given (again)
    auto y = std::static_pointer_cast<cr::ConstraintModelAbstract>(m)->cast<float>()->cast<double>();
    const int n = int(g.m->get_nr());
    y->update_bounds(V::Constant(n, -1.), V::Constant(n, 2.));
    c.check(int(y->get_ng()) == n && y->get_nh() == 0 && y->get_lb().size() == n && y->get_lb()[0] == -1., "bounds-after:constraint-residual", "bounds given to a cast constraint are not kept");
    c.count("bounds given to casts");
  }
  c.sig(k.name + g.kind + std::to_string(m->get_ng() * 10 + m->get_nh()));
}
VF_SCENARIO(managers, 400, 10000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen a = make_actu(r, s, nu);
  auto m = make_cons(r, s, a.m, nu);
  const Pts p = points(r, 2 * nv, nu);
  auto f = std::make_shared<cr::ConstraintModelManagerTpl<float>>(m->cast<float>());
  auto b = std::make_shared<cr::ConstraintModelManager>(f->cast<double>());
  std::vector<std::string> names;
  for (auto& i : m->get_constraints()) names.push_back(i.first);
  judge<cr::ConstraintModelManagerTpl>(c, {"constraint-manager"}, m, p, {{"typed cast", std::make_shared<cr::ConstraintModelManager>(m->cast<double>())}}, f, b, [&] { for (auto& i : names) m->changeConstraintStatus(i, r.coin()); });
  c.sig(VF_STR("man" << m->get_constraints().size() << m->get_ng() << m->get_nh()).operator std::string());
}
VF_SCENARIO(bounds, 100, 3000) {
  const int n = r.irange(1, 5);
  V lo(n), up(n);
  for (int i = 0; i < n; ++i) {
    lo[i] = dy(r, -1, 0); up[i] = dy(r, 0.1, 1);
    if (r.coin(0.25)) lo[i] = -INFINITY;
    if (r.coin(0.25)) up[i] = INFINITY;
  }
  const cr::ActivationBounds b(lo, up, r.pick({1., 0.5, 0.25, 0.75}));
  const auto f = b.cast<float>();
  const cr::ActivationBounds d = b.cast<double>(), e = f.cast<double>();
  const auto close = [](const V& x, const V& y, double tol) {
    for (int i = 0; i < x.size(); ++i) if (!(x[i] == y[i] || std::abs(x[i] - y[i]) <= tol)) return false;
    return x.size() == y.size();
  };
  c.check(close(b.lb, d.lb, 0) && close(b.ub, d.ub, 0) && b.beta == d.beta, "bounds-same-scalar");
  c.check(close(b.lb, e.lb, 1e-6) && close(b.ub, e.ub, 1e-6) && b.beta == e.beta && double(f.beta) == b.beta, "bounds-float", VF_STR("beta " << b.beta << " in float " << f.beta << " back " << e.beta));
  c.count("casts of bounds");
  c.sig(VF_STR("bounds" << n << b.beta).operator std::string());
}
VF_SCENARIO(actuations, 300, 8000) {
  numdiff_inside() = false;
  const int nv = r.irange(1, 3), nu = r.irange(1, nv);
  SP s = make_state(r, 2 * nv);
  ActuGen g = make_actu(r, s, nu);
  const Pts p = points(r, 2 * nv, nu);
  auto f = g.m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, g.kind, *g.m, *b);
  judge<cr::ActuationModelAbstractTpl>(c, {g.kind, g.kind == "actuation-numdiff"}, g.m, p, {{"cast through the base", g.m->cast<double>()}, {"typed cast", g.typed}}, f, b, g.change);
  auto q = make_squash(r, nu);
  auto qf = std::static_pointer_cast<cr::SquashingModelAbstractTpl<double>>(q)->cast<float>();
  const Pts pq = points(r, nu, 0);
  judge<cr::SquashingModelAbstractTpl>(c, {"squashing"}, q, pq, {{"cast through the base", std::static_pointer_cast<cr::SquashingModelAbstractTpl<double>>(q)->cast<double>()}, {"typed cast", std::make_shared<cr::SquashingModelSmoothSatTpl<double>>(q->cast<double>())}},
                                       qf, qf->cast<double>(), [&] { q->set_smooth(q->get_smooth() == 1. ? 0.5 : 1.); });
  c.sig(g.kind + std::to_string(nv * 10 + nu));
}
VF_SCENARIO(parametrizations, 200, 6000) {
  numdiff_inside() = false;
  const int nw = r.irange(1, 4), kind = r.irange(0, 4);
  std::shared_ptr<cr::ControlParametrizationModelAbstract> m, t;
  std::string name;
  if (kind == 0) { auto q = std::make_shared<cr::ControlParametrizationModelPolyZero>(nw); m = q; t = std::make_shared<cr::ControlParametrizationModelPolyZero>(q->cast<double>()); name = "control-zero"; }
  else if (kind == 1) { auto q = std::make_shared<cr::ControlParametrizationModelPolyOne>(nw); m = q; t = std::make_shared<cr::ControlParametrizationModelPolyOne>(q->cast<double>()); name = "control-one"; }
  else { auto q = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(nw, kind == 2 ? cr::RKType::three : cr::RKType::four); m = q; t = std::make_shared<cr::ControlParametrizationModelPolyTwoRK>(q->cast<double>()); name = "control-two"; }
  if (kind == 4) { auto q = std::make_shared<cr::ControlParametrizationModelNumDiff>(m); m = q; t = std::make_shared<cr::ControlParametrizationModelNumDiff>(q->cast<double>()); name = "control-numdiff"; }
  const Pts p = points(r, nw, int(m->get_nu()), 5);
  auto f = m->cast<float>();
  auto b = f->cast<double>();
  check_print(c, name, *m, *b);
  judge<cr::ControlParametrizationModelAbstractTpl>(c, {name, kind == 4}, m, p, {{"cast through the base", m->cast<double>()}, {"typed cast", t}}, f, b);
  c.sig(name + std::to_string(nw));
}
VF_SCENARIO(problems, 200, 6000) {
  numdiff_inside() = false;
  // nodes of one state dimension
  std::vector<AcP> ms;
  AcP term;
  int nx = 0;
  const int T = r.irange(1, 5);
  std::string kinds;
  for (int tries = 0; tries < 400 && (int(ms.size()) < T || !term); ++tries) {
    ActGen g = make_action(r, 1);
    if (ms.empty() && !nx) nx = int(g.m->get_state()->get_nx());
    if (int(g.m->get_state()->get_nx()) != nx) continue;
    if (int(ms.size()) < T) { ms.push_back(g.m); kinds += g.kind.substr(7, 1); } else if (g.m->get_ng() == g.m->get_ng_T() || !g.m->get_ng()) term = g.m;
  }
  if (!term) { c.count("no problem made"); return; }
  int nu = 0;
  for (auto& m : ms) nu = std::max(nu, int(m->get_nu()));
  auto m = std::make_shared<cr::ShootingProblem>(rnd(r, nx), ms, term);
  auto f = std::make_shared<cr::ShootingProblemTpl<float>>(m->cast<float>());
  auto b = std::make_shared<cr::ShootingProblem>(f->cast<double>());
  const Pts p = points(r, nx, nu, T + 2);
  const V x0 = rnd(r, nx);
  judge<cr::ShootingProblemTpl>(c, {"problem"}, m, p, {{"typed cast", std::make_shared<cr::ShootingProblem>(m->cast<double>())}, {"copy", std::make_shared<cr::ShootingProblem>(*m)}}, f, b, [&] { m->set_x0(x0); });
  c.sig(kinds + std::to_string(nx));
}
VF_MAIN("C28")
