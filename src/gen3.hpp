// A forward-dynamics-like differential action over the cost sum, the constraint
// manager, an actuation and the shared joint data, put together the way the
// library's own dynamics models do it.
#ifndef VF_GEN3_HPP_
#define VF_GEN3_HPP_
#include "gen2.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
namespace gen {
struct JointActuation : cr::DataCollectorActuationTpl<double>, cr::DataCollectorJointTpl<double> {  // as the multibody collectors do
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  JointActuation(std::shared_ptr<cr::ActuationDataAbstract> a, std::shared_ptr<cr::JointDataAbstract> j)
      : cr::DataCollectorActuationTpl<double>(a), cr::DataCollectorJointTpl<double>(j) {}
};
struct DiffSumData : cr::DifferentialActionDataAbstract {
  template <class Model>
  explicit DiffSumData(Model* m)
      : cr::DifferentialActionDataAbstract(m), act(m->actuation_->createData()),
        joint(std::make_shared<cr::JointDataAbstract>(m->get_state(), m->actuation_, m->get_nu())), coll(act, joint),
        costs(m->costs_->createData(&coll)) {
    joint->dtau_du.diagonal().setOnes();
    costs->shareMemory(this);
    if (m->cons_) { cons = m->cons_->createData(&coll); cons->shareMemory(this); }
  }
  std::shared_ptr<cr::ActuationDataAbstract> act;
  std::shared_ptr<cr::JointDataAbstract> joint;
  JointActuation coll;
  std::shared_ptr<cr::CostDataSum> costs;
  std::shared_ptr<cr::ConstraintDataManager> cons;
};
class DiffSum : public cr::DifferentialActionModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::DifferentialActionModelBase, DiffSum)
  typedef std::shared_ptr<cr::DifferentialActionDataAbstract> DP;
  DiffSum(Rng& r, StateP s, ActuP a, std::shared_ptr<cr::CostModelSum> cs, std::shared_ptr<cr::ConstraintModelManager> cm)
      : cr::DifferentialActionModelAbstract(s, a->get_nu(), cs->get_nr(), cm ? cm->get_ng() : 0, cm ? cm->get_nh() : 0, cm ? cm->get_ng_T() : 0, cm ? cm->get_nh_T() : 0),
        n_(int(s->get_ndx())), nv_(int(s->get_nv())), actuation_(a), costs_(cs), cons_(cm), xref_(s->zero()), f_(r, nv_, n_ + nv_, 0.5, 0.3) {
    f_.A.rightCols(nv_) += 1.5 * M::Identity(nv_, nv_);
    f_.C.rightCols(nv_) *= 0.3;
  }
  V delta(const CRef& x) const { V d(n_); state_->diff(xref_, x, d); return d; }
  void calc(const DP& data, const CRef& x, const CRef& u) override {
    DiffSumData* d = static_cast<DiffSumData*>(data.get());
    actuation_->calc(d->act, x, u);
    V z(n_ + nv_); z << delta(x), d->act->tau;
    d->xout = f_.val(z);
    d->joint->a = d->xout;
    d->joint->tau = u;
    costs_->calc(d->costs, x, u);
    d->cost = d->costs->cost;
    if (cons_) { d->cons->resize(this, d); cons_->calc(d->cons, x, u); }
  }
  void calc(const DP& data, const CRef& x) override {
    DiffSumData* d = static_cast<DiffSumData*>(data.get());
    d->joint->a.setZero();
    d->joint->tau.setZero();
    costs_->calc(d->costs, x);
    d->cost = d->costs->cost;
    if (cons_) { d->cons->resize(this, d, false); cons_->calc(d->cons, x); }
  }
  void calcDiff(const DP& data, const CRef& x, const CRef& u) override {
    DiffSumData* d = static_cast<DiffSumData*>(data.get());
    actuation_->calcDiff(d->act, x, u);
    V z(n_ + nv_); z << delta(x), d->act->tau;
    M j0 = M::Zero(n_, n_), j1 = j0;
    state_->Jdiff(xref_, x, j0, j1, cr::second);
    const M fz = f_.jac(z);
    d->Fx = fz.leftCols(n_) * j1 + fz.rightCols(nv_) * d->act->dtau_dx;
    d->Fu = fz.rightCols(nv_) * d->act->dtau_du;
    d->joint->da_dx = d->Fx;
    d->joint->da_du = d->Fu;
    costs_->calcDiff(d->costs, x, u);
    if (cons_) cons_->calcDiff(d->cons, x, u);
  }
  void calcDiff(const DP& data, const CRef& x) override {
    DiffSumData* d = static_cast<DiffSumData*>(data.get());
    d->joint->da_dx.setZero();
    d->joint->da_du.setZero();
    costs_->calcDiff(d->costs, x);
    if (cons_) cons_->calcDiff(d->cons, x);
  }
  DP createData() override { return std::allocate_shared<DiffSumData>(Eigen::aligned_allocator<DiffSumData>(), this); }
  bool checkData(const DP& d) override { return std::dynamic_pointer_cast<DiffSumData>(d) != nullptr; }
  std::size_t get_ng() const override { return cons_ ? cons_->get_ng() : ng_; }
  std::size_t get_nh() const override { return cons_ ? cons_->get_nh() : nh_; }
  std::size_t get_ng_T() const override { return cons_ ? cons_->get_ng_T() : ng_T_; }
  std::size_t get_nh_T() const override { return cons_ ? cons_->get_nh_T() : nh_T_; }
  const V& get_g_lb() const override { return cons_ ? cons_->get_lb() : g_lb_; }
  const V& get_g_ub() const override { return cons_ ? cons_->get_ub() : g_ub_; }
  int n_, nv_;
  ActuP actuation_;
  std::shared_ptr<cr::CostModelSum> costs_;
  std::shared_ptr<cr::ConstraintModelManager> cons_;
  V xref_;
  Fn f_;
};
// nact <= nv controls; constraints all of them also terminal when T
inline std::shared_ptr<DiffSum> random_diffsum(Rng& r, const StateP& s, int nact, bool constr, bool T = true, std::string* tag = nullptr) {
  ActuP a = std::make_shared<ActuNL>(r, s, nact, 0.2, r.pick({0., 0.5}));
  std::string k;
  if (r.coin(0.3)) {
    V lb(nact), ub(nact);
    for (int i = 0; i < nact; ++i) { lb[i] = r.uni(-4, -1); ub[i] = r.uni(1, 4); }
    auto sat = std::make_shared<cr::SquashingModelSmoothSatTpl<double>>(lb, ub, nact);
    a = std::make_shared<cr::ActuationSquashingModelTpl<double>>(a, sat, nact);
    k += "q";
  }
  auto costs = std::make_shared<cr::CostModelSum>(s, nact);
  const int nc = r.irange(1, 4);
  for (int i = 0; i < nc; ++i) {
    ResP res;
    const int kind = r.irange(0, 4);
    if (kind == 0) res = std::make_shared<cr::ResidualModelControl>(s, r.vec(nact));
    else if (kind == 1) res = std::make_shared<cr::ResidualModelJointEffort>(s, a, r.vec(nact), nact, r.coin());
    else if (kind == 2) res = std::make_shared<cr::ResidualModelJointAcceleration>(s, r.vec(int(s->get_nv())), nact);
    else res = std::make_shared<ResNL>(r, s, r.irange(1, 4), nact, r.coin(0.8), r.coin(0.8), r.coin(0.6));
    const int ak = r.irange(0, NACTV - 1);
    auto cost = std::make_shared<cr::CostModelResidual>(s, make_actv(r, int(res->get_nr()), ak).m, res);
    costs->addCost("c" + std::to_string(i), cost, r.uni(0.1, 3), r.coin(0.85));
    k += char('0' + kind); k += char('a' + ak);
  }
  auto reg = std::make_shared<cr::CostModelResidual>(s, std::make_shared<ResNL>(r, s, 3, nact, true, true, true));
  costs->addCost("reg", reg, 0.5);
  std::shared_ptr<cr::ConstraintModelManager> cons;
  if (constr) {
    cons = std::make_shared<cr::ConstraintModelManager>(s, nact);
    const int n = r.irange(1, 3);
    for (int i = 0; i < n; ++i) {
      ResP res = std::make_shared<ResNL>(r, s, r.irange(1, 2), nact, true, r.coin(), r.coin());
      const int nr = int(res->get_nr());
      const V lo = r.vec(nr), up = lo.array() + r.uni(0.2, 2);
      ConP c = r.coin() ? std::make_shared<cr::ConstraintModelResidual>(s, res, T) : std::make_shared<cr::ConstraintModelResidual>(s, res, lo, up, T);
      cons->addConstraint("k" + std::to_string(i), c, r.coin(0.85));
    }
    k += "C" + std::to_string(n);
  }
  if (tag) *tag = k;
  return std::make_shared<DiffSum>(r, s, a, costs, cons);
}
}  // namespace gen
#endif
