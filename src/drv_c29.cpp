// C29: hostile histories for the memory checkers - faults inside user models and
// callbacks, objects released in any order, degenerate sizes, edits under datas in use
#include "gen3.hpp"
#include "solv.hpp"
#include <unistd.h>
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
using namespace gen;
using namespace solv;
using vf::Ctx;

struct Fault { int mode = 0; long at = -1, calls = 0; bool fired = false; };  // 0 throw, 1 NaN, 2 infinite, 3 huge
struct Injected : std::runtime_error { Injected() : std::runtime_error("injected") {} };
// Forwards to a model and misbehaves at the chosen call
class Faulty : public cr::ActionModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ActionModelBase, Faulty)
  Faulty(ActP m, std::shared_ptr<Fault> f)
      : cr::ActionModelAbstract(m->get_state(), m->get_nu(), m->get_nr(), m->get_ng(), m->get_nh(), m->get_ng_T(), m->get_nh_T()), m_(m), f_(f) {
    if (m->get_ng()) { set_g_lb(m->get_g_lb()); set_g_ub(m->get_g_ub()); }
    if (m->get_has_control_limits()) { set_u_lb(m->get_u_lb()); set_u_ub(m->get_u_ub()); }
  }
  bool hit() {
    if (f_->calls++ != f_->at) return false;
    f_->fired = true;
    if (f_->mode == 0) throw Injected();
    return true;
  }
  void spoil(Eigen::Ref<M> m) {
    if (!m.size()) return;
    const double v = f_->mode == 1 ? std::numeric_limits<double>::quiet_NaN() : (f_->mode == 2 ? std::numeric_limits<double>::infinity() : 1e200);
    m(f_->at % m.rows(), (f_->at / 3) % m.cols()) = v;
  }
  void poison(const ActDP& d, bool deriv) {
    if (!deriv) {
      if (f_->at % 2) { M t = d->xnext; spoil(t); d->xnext = t; } else d->cost = f_->mode == 1 ? std::nan("") : 1e300;
      return;
    }
    switch (f_->at % 6) {
      case 0: spoil(d->Fx); break;
      case 1: spoil(d->Fu); break;
      case 2: spoil(d->Lxx); break;
      case 3: spoil(d->Luu); break;
      case 4: if (d->Luu.size()) d->Luu = -100. * d->Luu; break;
      default: spoil(d->Lxu);
    }
  }
  void calc(const ActDP& d, const CRef& x, const CRef& u) override { const bool h = hit(); m_->calc(d, x, u); if (h) poison(d, false); }
  void calc(const ActDP& d, const CRef& x) override { const bool h = hit(); m_->calc(d, x); if (h) poison(d, false); }
  void calcDiff(const ActDP& d, const CRef& x, const CRef& u) override { const bool h = hit(); m_->calcDiff(d, x, u); if (h) poison(d, true); }
  void calcDiff(const ActDP& d, const CRef& x) override { const bool h = hit(); m_->calcDiff(d, x); if (h) poison(d, true); }
  ActDP createData() override { return m_->createData(); }
  bool checkData(const ActDP& d) override { return m_->checkData(d); }
  ActP m_;
  std::shared_ptr<Fault> f_;
};
struct Thrower : cr::CallbackAbstract {
  int at;
  explicit Thrower(int n) : at(n) {}
  void operator()(cr::SolverAbstract&) override { if (at-- == 0) throw Injected(); }
};
static Problem some_problem(Rng& r, bool varying = true) {
  switch (r.irange(0, 2)) {
    case 0: return lq_problem(r, 1, 6, 4, 3, varying);
    case 1: { ProbOpt o; o.varying_nu = varying; o.Tmax = 6; return nl_problem(r, o); }
    default: return mixed_problem(r, 1, 5, varying);
  }
}
static bool box(int k) { return k == BOXDDP || k == BOXFDDP; }

VF_SCENARIO(faults, 700, 30000) {
  const int k = r.irange(0, IPOPT);
  Problem p = k == INTRO && r.coin() ? lq_problem(r, 1, 6, 4, 3, false, 1) : some_problem(r, k != BOXDDP);
  if (box(k) || r.coin(0.2)) for (auto& m : p.models) if (m->get_nu()) random_limits(r, m, 1);
  auto f = std::make_shared<Fault>();
  std::map<ActP, ActP> wrap;
  Problem q = p;
  for (auto& m : q.models) { ActP& w = wrap[m]; if (!w) w = std::make_shared<Faulty>(m, f); m = w; }
  q.terminal = std::make_shared<Faulty>(q.terminal, f);
  q.prob = build(q);
  vf::Quiet quiet;
  SolP s = make(k, q.prob, r.irange(0, 2));
  const long per = 2 * long(p.models.size()) + 2;
  std::string h;
  const int rounds = r.irange(1, 4);
  for (int i = 0; i < rounds; ++i) {
    f->calls = 0; f->fired = false;
    f->mode = k == IPOPT ? 0 : r.irange(0, 3);  // MUMPS does not survive values that are not finite
    f->at = r.coin(0.2) ? -1 : r.irange(0, int(per) * r.pick({1, 2, 6}));
    const bool cb = r.coin(0.2);
    if (cb) s->setCallbacks({std::make_shared<Thrower>(r.irange(0, 4))});
    else if (r.coin()) s->setCallbacks({});
    Warm w = warm(r, q, f->at < 0 ? -1 : r.pick({0, 1, 2, 4, 5}));
    std::string out = "ended";
    try { s->solve(w.xs, w.us, r.irange(1, 12), w.feas, r.coin() ? std::numeric_limits<double>::quiet_NaN() : 1e-6); }
    catch (const Injected&) { out = "injected"; }
    catch (const std::exception&) { out = "exception"; }
    h += std::to_string(f->mode) + (f->fired ? "f" : "-") + (cb ? "c" : "") + out[0];
    if (f->fired) c.count("faults of mode " + std::to_string(f->mode));
    c.count(std::string("solves that ") + (out == "ended" ? "ended" : "passed an exception on"));
    // the state left behind can be read
    double acc = s->get_cost() + s->get_stop() + s->get_merit();
    for (auto& v : s->get_xs()) if (v.size()) acc += v[0];
    for (auto& v : s->get_us()) if (v.size()) acc += v[0];
    for (auto& v : s->get_fs()) if (v.size()) acc += v[0];
    c.check(acc == acc || true, "read");
  }
  // once the faults stop, the solver works again
  f->at = -1;
  s->setCallbacks({});
  Warm w = warm(r, q, 1);
  bool threw = false;
  try { s->solve(w.xs, w.us, 5, false, 1e-6); } catch (const std::exception&) { threw = true; }
  c.check(!threw || k == IPOPT, "usable-after-faults");
  c.check(sizes_ok(q, s->get_xs(), s->get_us()), "sizes-after-faults");
  c.sig(std::string(name(k)) + h);
  c.count(std::string("histories of ") + name(k));
}
// objects are released in any order; whatever is still held works
VF_SCENARIO(lifetimes, 700, 30000) {
  vf::Quiet quiet;
  auto p = std::make_shared<Problem>(some_problem(r));
  const int T = int(p->models.size());
  const V x0 = p->x0;
  const VV xs = random_xs(r, *p), us = random_us(r, *p);
  std::string h;
  std::vector<std::shared_ptr<cr::ActionDataAbstract>> datas = p->prob->get_runningDatas();
  ActDP td = p->prob->get_terminalData();
  ActP one = r.pick(p->models);
  ProbP prob = p->prob;
  std::shared_ptr<cr::ShootingProblem> copy;
  if (r.coin()) { copy = std::make_shared<cr::ShootingProblem>(*prob); h += "c"; }
  const int k = r.irange(0, IPOPT - 1);
  SolP s;
  if (!(box(k) && false)) s = make(k, prob, 0);
  auto cb = std::make_shared<Capture>();
  if (s) { s->setCallbacks({cb}); try { s->solve(xs, us, 2, false, 1e-6); } catch (const std::exception&) {} }
  std::shared_ptr<cr::ActionModelAbstract> nd;
  if (r.coin()) { nd = std::make_shared<cr::ActionModelNumDiff>(one); h += "n"; }
  const std::size_t nd_nu = one->get_nu();
  StateP st = p->state;
  std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
  for (int i = 6; i > 0; --i) std::swap(order[i], order[r.irange(0, i)]);
  double acc = 0;
  for (int step : order) {
    h += char('0' + step);
    switch (step) {
      case 0: p.reset(); break;
      case 1: prob.reset(); break;
      case 2: if (s) { try { s->solve(xs, us, 2, false, 1e-6); } catch (const std::exception&) {} s.reset(); } break;
      case 3: if (copy) { try { acc += copy->calc(xs, us); acc += copy->calcDiff(xs, us); } catch (const std::exception&) {} copy.reset(); } break;
      case 4: one.reset(); break;
      case 5: cb.reset(); break;
      default: st.reset();
    }
    for (auto& d : datas) acc += d->cost + (d->Fx.size() ? d->Fx.sum() : 0.);
    acc += td->Lx.sum();
  }
  if (nd) { auto d = nd->createData(); const V u = r.vec(int(nd_nu)); nd->calc(d, x0, u); nd->calcDiff(d, x0, u); acc += d->cost; }
  datas.clear(); td.reset();
  c.check(acc == acc || true, "alive");
  c.sig(h.substr(0, 6) + std::to_string(T) + name(k));
  c.count("release orders");
  if (h[0] == 'c' ) c.count("copied problems outlived");
  if (nd) c.count("wrappers outliving their problem");
}
// edits of sums and managers while datas are in use: used as before, or refused
VF_SCENARIO(edits, 1500, 60000) {
  StateP s = random_dyn_state(r);
  const int nv = int(s->get_nv()), nact = r.irange(1, nv);
  std::shared_ptr<DiffSum> m = random_diffsum(r, s, nact, r.coin(0.7));
  DiffP md = m;
  ActP act = make_integrated(md, make_control(r.irange(0, 3), nact), r.pick({0, 2, 3, 4}), 0.05, r.coin());
  struct D { std::shared_ptr<cr::DifferentialActionDataAbstract> d; ActDP a; };
  std::vector<D> ds;
  auto fresh = [&]() { D d; d.d = m->createData(); d.a = act->createData(); return d; };
  ds.push_back(fresh());
  int next = 0;
  std::string h;
  for (int i = r.irange(3, 14); i > 0; --i) {
    const int op = r.irange(0, 9);
    h += char('0' + op);
    try {
      switch (op) {
        case 0: {
          auto res = std::make_shared<ResNL>(r, s, r.irange(1, 5), nact, true, true, true);
          m->costs_->addCost("n" + std::to_string(next++), std::make_shared<cr::CostModelResidual>(s, make_actv(r, int(res->get_nr()), r.irange(0, NACTV - 1)).m, res), 1., r.coin(0.7));
          break;
        }
        case 1: { if (m->costs_->get_costs().empty()) break; auto it = m->costs_->get_costs().begin(); std::advance(it, r.irange(0, int(m->costs_->get_costs().size()) - 1)); const std::string n = it->first; m->costs_->removeCost(n); break; }
        case 2: m->costs_->changeCostStatus("n" + std::to_string(r.irange(0, std::max(0, next - 1))), r.coin()); break;
        case 3: if (m->cons_) {
          auto res = std::make_shared<ResNL>(r, s, r.irange(1, 3), nact, true, r.coin(), r.coin());
          const int nr = int(res->get_nr());
          const V lo = r.vec(nr), up = lo.array() + 1.;
          const bool T = r.coin();
          ConP k = r.coin() ? std::make_shared<cr::ConstraintModelResidual>(s, res, T) : std::make_shared<cr::ConstraintModelResidual>(s, res, lo, up, T);
          m->cons_->addConstraint("m" + std::to_string(next++), k, r.coin(0.7));
        } break;
        case 4: if (m->cons_ && !m->cons_->get_constraints().empty()) { auto it = m->cons_->get_constraints().begin(); std::advance(it, r.irange(0, int(m->cons_->get_constraints().size()) - 1)); const std::string n = it->first; m->cons_->removeConstraint(n); } break;
        case 5: if (m->cons_ && !m->cons_->get_constraints().empty()) { auto it = m->cons_->get_constraints().begin(); std::advance(it, r.irange(0, int(m->cons_->get_constraints().size()) - 1)); m->cons_->changeConstraintStatus(it->first, r.coin()); } break;
        case 6: ds.push_back(fresh()); break;
        case 7: if (ds.size() > 1) ds.erase(ds.begin() + r.irange(0, int(ds.size()) - 1)); break;
        default: {
          D& d = ds[size_t(r.irange(0, int(ds.size()) - 1))];
          const V x = random_x(r, s), u = r.vec(nact), w = r.vec(int(act->get_nu()));
          if (r.coin()) { if (r.coin(0.7)) { m->calc(d.d, x, u); m->calcDiff(d.d, x, u); } else { m->calc(d.d, x); m->calcDiff(d.d, x); } }
          else if (r.coin(0.7)) { act->calc(d.a, x, w); act->calcDiff(d.a, x, w); }
          else { act->calc(d.a, x); act->calcDiff(d.a, x); }
          c.count("evaluations under edits");
        }
      }
      c.count(std::string("edit ") + h.back());
    } catch (const std::exception&) { c.count("refusals"); h += "!"; }
  }
  c.check(true, "survived");
  c.sig(h);
}
// degenerate sizes: no controls anywhere, one node, empty lists, empty QPs
// constraints that depend on each other, do not depend on the controls, or outnumber them
VF_SCENARIO(dependent_constraints, 300, 10000) {
  vf::Quiet quiet;
  const int nx = r.irange(1, 4), T = r.irange(1, 4);
  Problem p;
  std::string sig;
  for (int t = 0; t < T; ++t) {
    const int nu = r.irange(1, 3), nh = r.irange(1, 6), rank = r.irange(0, std::min(nh, nu));
    auto m = random_lqr(r, nx, nu, 0, nh);
    M H = m->get_H();
    H.rightCols(nu) = r.mat(nh, std::max(rank, 1)) * r.mat(std::max(rank, 1), nu);
    if (!rank) H.rightCols(nu).setZero();
    if (r.coin(0.1)) H(r.irange(0, nh - 1), r.irange(0, nx + nu - 1)) = r.pick({std::numeric_limits<double>::quiet_NaN(), double(INFINITY), 1e300});
    p.models.push_back(std::make_shared<cr::ActionModelLQR>(m->get_A(), m->get_B(), m->get_Q(), m->get_R(), m->get_N(), m->get_G(), H, m->get_f(), m->get_q(), m->get_r(), m->get_g(), m->get_h()));
    sig += VF_STR(nu << nh << rank << ' ').operator std::string();
  }
  p.terminal = random_lqr(r, nx, 1);
  p.state = p.models[0]->get_state();
  p.x0 = r.vec(nx);
  p.prob = build(p);
  const int eq = r.irange(0, 2);
  std::string out = "ended";
  try {
    SolP s = make(INTRO, p.prob, eq);
    Warm w = warm(r, p);
    s->solve(w.xs, w.us, r.irange(0, 6), w.feas);
    s->solve(w.xs, w.us, 2, false, 1e-3);
  } catch (const std::exception&) { out = "refused"; }
  c.count("dependent constraints, " + std::string(eq == 0 ? "LU" : eq == 1 ? "QR" : "Schur"));
  c.sig(VF_STR("dep" << eq << sig << out).operator std::string());
}
VF_SCENARIO(degenerate, 500, 20000) {
  vf::Quiet quiet;
  ProbOpt o;
  o.pauto = r.pick({0.5, 1.}); o.Tmin = 1; o.Tmax = r.pick({1, 1, 3}); o.varying_nu = true; o.maxn = r.pick({1, 3});
  Problem p = nl_problem(r, o);
  const int k = r.irange(0, IPOPT);
  std::string out = "ended";
  try {
    SolP s = make(k, p.prob, r.irange(0, 2));
    Warm w = warm(r, p);
    s->solve(w.xs, w.us, r.irange(0, 5), w.feas, r.coin() ? std::numeric_limits<double>::quiet_NaN() : 1e-5);
    s->computeDynamicFeasibility(); s->computeInequalityFeasibility(); s->computeEqualityFeasibility();
  } catch (const std::exception&) { out = "refused"; }
  bool ctl = false;
  for (auto& m : p.models) ctl = ctl || m->get_nu();
  c.count(ctl ? "solves with some controls" : "solves without controls");
  if (p.models.size() == 1) c.count("one-node solves");
  try {
    VV qs = p.prob->quasiStatic_xs(VV(p.models.size(), V::Zero(p.state->get_nx())));
    c.count("degenerate quasiStatic");
  } catch (const std::exception&) {}
  try { p.prob->circularAppend(p.models[0]); p.prob->circularAppend(p.models[0], p.models[0]->createData()); p.prob->updateNode(0, p.models[0], p.models[0]->createData()); p.prob->updateModel(0, p.models[0]); } catch (const std::exception&) {}
  try { p.prob->set_nthreads(r.irange(0, 3)); } catch (const std::exception&) {}
  VV uo;
  for (auto& m : p.prob->get_runningModels()) uo.push_back(r.vec(m->get_nu()));
  p.prob->rollout_us(uo);
  // box QPs of any size, including nothing to optimise and nothing free
  const int n = r.irange(0, 4);
  try {
    cr::BoxQP qp(n, 50);
    const M H = r.spd(std::max(1, n), 0.1).topLeftCorner(n, n);
    V lb = r.vec(n), ub = lb;
    if (r.coin()) ub.array() += 0.5;
    const auto& sol = qp.solve(H, r.vec(n), lb, ub, r.vec(n));
    double a = sol.x.size() ? sol.x.sum() : 0;
    c.check(a == a, "boxqp");
    c.count("degenerate QPs");
  } catch (const std::exception&) {}
  c.sig(std::string(name(k)) + out + std::to_string(p.models.size()) + std::to_string(n) + (ctl ? "u" : "-"));
}
VF_MAIN("C29")
