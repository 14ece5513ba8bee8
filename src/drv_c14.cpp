// C14: invalid arguments are rejected and change nothing; valid ones are stored and read back exactly.
#include "gen2.hpp"
#include "solv.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
using namespace solv;

namespace {
typedef std::vector<double> D;
D& operator<<(D& d, double v) { d.push_back(v); return d; }
D& operator<<(D& d, const V& v) { d.push_back(double(v.size())); for (int i = 0; i < v.size(); ++i) d.push_back(v[i]); return d; }
D& operator<<(D& d, const M& m) { d.push_back(double(m.rows())); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) d.push_back(m(i, j)); return d; }
bool eq(const D& a, const D& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
template <class S, class F>
void rejects(vf::Ctx& c, const std::string& key, S snap, F f) {
  const D before = snap();
  bool threw = false;
  std::string what;
  { vf::Quiet q; try { f(); } catch (const std::exception& e) { threw = true; what = e.what(); } }
  c.check(threw, "accepted:" + key);
  if (threw) c.check(!what.empty(), "no-message:" + key);
  c.check(eq(before, snap()), "changed:" + key);
  c.count("rejections");
  c.count("rejected " + key.substr(0, key.find('.')));
}
template <class F>
void refuses(vf::Ctx& c, const std::string& key, F f) { rejects(c, key, [] { return D(); }, f); }
template <class S, class F, class G>
void stores(vf::Ctx& c, const std::string& key, S expect, F set, G get) {
  bool threw = false;
  { vf::Quiet q; try { set(); } catch (const std::exception&) { threw = true; } }
  c.check(!threw, "rejected-valid:" + key);
  if (!threw) c.check(get() == expect, "not-stored:" + key);
  c.count("values stored");
}
double neg(vf::Rng& r) { return -r.logu(1e-12, 1e3); }
V wrong(vf::Rng& r, int n) { int m = r.pick({n - 1, n + 1, 0, n + 3}); if (m < 0 || m == n) m = n + 1; return r.vec(m, 1.); }
M wrongm(vf::Rng& r, int a, int b) {
  int i = a, j = b;
  switch (r.irange(0, 3)) {
    case 0: i = a + 1; break;
    case 1: j = b + 1; break;
    case 2: if (a > 0) i = a - 1; else i = 1; break;
    default: if (b > 0) j = b - 1; else j = 1; break;
  }
  return r.mat(i, j, 1.);
}
D act_snap(const cr::ActionModelAbstract& m) {
  D d; d << double(m.get_nu()) << double(m.get_ng()) << double(m.get_nh()) << m.get_u_lb() << m.get_u_ub() << m.get_g_lb() << m.get_g_ub() << double(m.get_has_control_limits());
  return d;
}
D data_snap(const ActDP& a) {
  D d; d << a->cost << a->xnext << a->Fx << a->Fu << a->Lx << a->Lu << a->Lxx << a->Lxu << a->Luu << a->g << a->h << a->Gx << a->Gu << a->Hx << a->Hu << a->r;
  return d;
}
D ddata_snap(const std::shared_ptr<cr::DifferentialActionDataAbstract>& a) {
  D d; d << a->cost << a->xout << a->Fx << a->Fu << a->Lx << a->Lu << a->Lxx << a->Lxu << a->Luu << a->g << a->h << a->r;
  return d;
}
}  // namespace

// ---- solvers ------------------------------------------------------------------------------
VF_SCENARIO(solver_setters, 600, 20000) {
  Problem p = nl_problem(r, ProbOpt());
  const int kind = r.irange(0, NKIND - 1);
  SolP s; { vf::Quiet q; s = make(kind, p.prob); }
  const std::string who = std::string("solver.") + name(kind);
  c.sig(who);
  auto* ddp = dynamic_cast<cr::SolverDDP*>(s.get());
  auto* fddp = dynamic_cast<cr::SolverFDDP*>(s.get());
  auto* intro = dynamic_cast<cr::SolverIntro*>(s.get());
  auto* kkt = dynamic_cast<cr::SolverKKT*>(s.get());
  auto snap = [&] {
    D d; d << s->get_preg() << s->get_dreg() << s->get_th_acceptstep() << s->get_th_stop() << s->get_th_gaptol() << double(s->get_feasnorm()) << double(s->get_is_feasible());
    if (ddp) {
      d << ddp->get_reg_incfactor() << ddp->get_reg_decfactor() << ddp->get_reg_min() << ddp->get_reg_max() << ddp->get_th_stepdec() << ddp->get_th_stepinc() << ddp->get_th_grad();
      for (double a : ddp->get_alphas()) d << a;
    }
    if (fddp) d << fddp->get_th_acceptnegstep();
    if (intro) d << intro->get_th_feas() << intro->get_rho() << intro->get_upsilon() << double(intro->get_zero_upsilon()) << double(intro->get_equality_solver());
    for (auto& x : s->get_xs()) d << x;
    for (auto& u : s->get_us()) d << u;
    return d;
  };
#define REJ(call) rejects(c, who + "." #call, snap, [&] { call; })
#define STO(set, get, val) { auto v_ = val; stores(c, who + "." #set, v_, [&] { set(v_); }, [&] { return get(); }); }
  for (int k = 0; k < 12; ++k) {
    const double n = neg(r), pos = r.logu(1e-12, 1e3), unit = r.uni(1e-6, 1), over = 1 + r.logu(1e-6, 1e2);
    switch (r.irange(0, 13)) {
      case 0: REJ(s->set_preg(n)); STO(s->set_preg, s->get_preg, r.coin(0.2) ? 0. : pos); break;
      case 1: REJ(s->set_dreg(n)); STO(s->set_dreg, s->get_dreg, r.coin(0.2) ? 0. : pos); break;
      case 2: REJ(s->set_th_acceptstep(n)); REJ(s->set_th_acceptstep(0.)); REJ(s->set_th_acceptstep(over)); STO(s->set_th_acceptstep, s->get_th_acceptstep, r.coin(0.2) ? 1. : unit); break;
      case 3: REJ(s->set_th_stop(n)); REJ(s->set_th_stop(0.)); STO(s->set_th_stop, s->get_th_stop, pos); break;
      case 4: REJ(s->set_th_gaptol(n)); STO(s->set_th_gaptol, s->get_th_gaptol, r.coin(0.2) ? 0. : pos); break;
      case 5: STO(s->set_feasnorm, s->get_feasnorm, (r.coin() ? cr::L1 : cr::LInf)); break;
      case 6: if (kind != KKT && kind != IPOPT) { REJ(s->tryStep(over)); REJ(s->tryStep(n)); } break;
      case 7: if (ddp) {
        if (kind != KKT) { vf::Quiet q; REJ(ddp->solve({}, {}, 3, false, n)); }
        REJ(ddp->set_reg_incfactor(1.)); REJ(ddp->set_reg_incfactor(unit * 0.99)); REJ(ddp->set_reg_decfactor(1.)); REJ(ddp->set_reg_decfactor(n)); REJ(ddp->set_reg_incfactor(n));
        STO(ddp->set_reg_incfactor, ddp->get_reg_incfactor, over); STO(ddp->set_reg_decfactor, ddp->get_reg_decfactor, over);
      } break;
      case 8: if (ddp) {
        REJ(ddp->set_reg_min(n)); REJ(ddp->set_reg_max(n));
        STO(ddp->set_reg_min, ddp->get_reg_min, r.coin(0.2) ? 0. : pos); STO(ddp->set_reg_max, ddp->get_reg_max, pos);
      } break;
      case 9: if (ddp) {
        REJ(ddp->set_th_stepdec(n)); REJ(ddp->set_th_stepdec(0.)); REJ(ddp->set_th_stepdec(over)); REJ(ddp->set_th_stepinc(n)); REJ(ddp->set_th_stepinc(0.)); REJ(ddp->set_th_stepinc(over));
        STO(ddp->set_th_stepdec, ddp->get_th_stepdec, unit); STO(ddp->set_th_stepinc, ddp->get_th_stepinc, unit);
      } break;
      case 10: if (ddp) { REJ(ddp->set_th_grad(n)); STO(ddp->set_th_grad, ddp->get_th_grad, r.coin(0.2) ? 0. : pos); } break;
      case 11: if (ddp) {
        D a; double v = r.coin() ? 1. : r.uni(0.3, 1);
        for (int i = r.irange(1, 8); i > 0; --i) { a.push_back(v); v *= r.uni(0.2, 0.95); }
        STO(ddp->set_alphas, ddp->get_alphas, a);
        const size_t at = size_t(r.irange(0, int(a.size()) - 1));
        D z = a; z[at] = r.coin() ? 0. : n;
        REJ(ddp->set_alphas(z));
        D rep = a; rep.push_back(a.back()); REJ(ddp->set_alphas(rep));
        D up = a; up.push_back(a.back() * 1.5); REJ(ddp->set_alphas(up));
        D no; REJ(ddp->set_alphas(no));
        c.count("step lists");
      } break;
      case 12: if (fddp) { REJ(fddp->set_th_acceptnegstep(n)); STO(fddp->set_th_acceptnegstep, fddp->get_th_acceptnegstep, r.coin(0.2) ? 0. : pos); } break;
      case 13: if (intro) {
        REJ(intro->set_rho(n)); REJ(intro->set_rho(0.)); REJ(intro->set_rho(over)); STO(intro->set_rho, intro->get_rho, unit);
        STO(intro->set_zero_upsilon, intro->get_zero_upsilon, r.coin());
        STO(intro->set_th_feas, intro->get_th_feas, pos);
        STO(intro->set_equality_solver, intro->get_equality_solver, r.pick({cr::LuNull, cr::QrNull, cr::Schur}));
      } break;
    }
  }
  (void)kkt;
}

VF_SCENARIO(boxqp, 500, 15000) {
  vf::Quiet q;
  const int n = r.irange(1, 6);
  cr::BoxQP qp{size_t(n)};
  const std::string who = "boxqp";
  M H = r.spd(n, 1e-2);
  V g = r.vec(n, 1.), lb = -r.vec(n, 1.).cwiseAbs(), ub = r.vec(n, 1.).cwiseAbs(), x0 = V::Zero(n);
  qp.solve(H, g, lb, ub, x0);
  auto snap = [&] {
    D d; d << double(qp.get_nx()) << double(qp.get_maxiter()) << qp.get_th_acceptstep() << qp.get_th_grad() << qp.get_reg();
    for (double a : qp.get_alphas()) d << a;
    d << qp.get_solution().x << qp.get_solution().Hff_inv;
    for (auto i : qp.get_solution().clamped_idx) d << double(i);
    for (auto i : qp.get_solution().free_idx) d << double(i);
    return d;
  };
  c.sig(VF_STR("n" << n));
  for (int k = 0; k < 8; ++k) {
    const double ng = neg(r), pos = r.logu(1e-12, 1e3);
    switch (r.irange(0, 6)) {
      case 0: REJ(qp.set_th_acceptstep(ng)); REJ(qp.set_th_acceptstep(0.)); REJ(qp.set_th_acceptstep(0.5)); REJ(qp.set_th_acceptstep(0.5 + pos)); STO(qp.set_th_acceptstep, qp.get_th_acceptstep, r.uni(1e-6, 0.499)); break;
      case 1: REJ(qp.set_th_grad(ng)); STO(qp.set_th_grad, qp.get_th_grad, r.coin(0.2) ? 0. : pos); break;
      case 2: REJ(qp.set_reg(ng)); STO(qp.set_reg, qp.get_reg, r.coin(0.2) ? 0. : pos); break;
      case 3: {
        D a; double v = r.coin() ? 1. : r.uni(0.3, 1);
        for (int i = r.irange(1, 8); i > 0; --i) { a.push_back(v); v *= r.uni(0.2, 0.95); }
        STO(qp.set_alphas, qp.get_alphas, a);
        D z = a; z[size_t(r.irange(0, int(a.size()) - 1))] = r.coin() ? 0. : ng;
        REJ(qp.set_alphas(z));
        D up = a; up.push_back(a.back() * r.pick({1., 1.5})); REJ(qp.set_alphas(up));
        D no; REJ(qp.set_alphas(no));
      } break;
      case 4: STO(qp.set_maxiter, qp.get_maxiter, size_t(r.irange(1, 200))); break;
      default: {
        const M Hw = wrongm(r, n, n);
        const V gw = wrong(r, n);
        REJ(qp.solve(Hw, g, lb, ub, x0)); REJ(qp.solve(H, gw, lb, ub, x0)); REJ(qp.solve(H, g, gw, ub, x0)); REJ(qp.solve(H, g, lb, gw, x0)); REJ(qp.solve(H, g, lb, ub, gw));
      }
    }
  }
}

// ---- action models ---------------------------------------------------------------------
VF_SCENARIO(action_bounds, 500, 20000) {
  vf::Quiet q;
  StateP s = random_dyn_state(r);
  const int nu = r.irange(1, 4);
  const std::string who = "bounds";
  std::string kd;
  std::shared_ptr<cr::ActionModelAbstract> m = any_action(r, s, nu, &kd, r.coin());
  const int n = int(m->get_nu()), ng = int(std::max(m->get_ng(), m->get_ng_T()));
  c.sig(kd);
  auto snap = [&] { return act_snap(*m); };
  for (int k = 0; k < 4; ++k) {
    V a = r.vec(n, 1.), gl = r.vec(ng, 1.);
    for (int i = 0; i < n; ++i) if (r.coin(0.2)) a[i] = std::numeric_limits<double>::infinity();
    const V w = wrong(r, n), wg = wrong(r, ng);
    REJ(m->set_u_lb(w)); REJ(m->set_u_ub(w)); REJ(m->set_g_lb(wg)); REJ(m->set_g_ub(wg));
    STO(m->set_u_lb, m->get_u_lb, V(-a)); STO(m->set_u_ub, m->get_u_ub, a);
    if (ng > 0) {
      const std::string who = std::dynamic_pointer_cast<cr::IntegratedActionModelAbstract>(m) ? "bounds.integrated" : "bounds";
      STO(m->set_g_lb, m->get_g_lb, V(-gl)); STO(m->set_g_ub, m->get_g_ub, gl);
    }
    bool lim = false;
    for (int i = 0; i < n; ++i) lim |= std::isfinite(a[i]);
    c.check(m->get_has_control_limits() == lim, "limits-flag", kd);
  }
  // Differential models as well
  DiffP dm = any_diff(r, s, nu, r.coin());
  const int dng = int(std::max(dm->get_ng(), dm->get_ng_T()));
  auto dsnap = [&] { D d; d << dm->get_u_lb() << dm->get_u_ub() << dm->get_g_lb() << dm->get_g_ub() << double(dm->get_has_control_limits()); return d; };
  const V w = wrong(r, nu), wg = wrong(r, dng), a = r.vec(nu, 1.).cwiseAbs();
  rejects(c, "bounds.diff.set_u_lb", dsnap, [&] { dm->set_u_lb(w); });
  rejects(c, "bounds.diff.set_u_ub", dsnap, [&] { dm->set_u_ub(w); });
  rejects(c, "bounds.diff.set_g_lb", dsnap, [&] { dm->set_g_lb(wg); });
  rejects(c, "bounds.diff.set_g_ub", dsnap, [&] { dm->set_g_ub(wg); });
  STO(dm->set_u_lb, dm->get_u_lb, V(-a)); STO(dm->set_u_ub, dm->get_u_ub, a);
  c.check(dm->get_has_control_limits(), "limits-flag-diff");
}

VF_SCENARIO(evaluation_sizes, 600, 20000) {
  vf::Quiet q;
  StateP s = random_dyn_state(r);
  const int nu = r.irange(1, 4);
  std::string kd;
  ActP m = any_action(r, s, nu, &kd, r.coin());
  while (std::dynamic_pointer_cast<ActNL>(m)) m = any_action(r, s, nu, &kd, r.coin());  // the workload's own model checks nothing
  s = m->get_state();
  const int nx = int(s->get_nx()), n = int(m->get_nu());
  c.sig(kd);
  ActDP d = m->createData();
  const V x = random_x(r, s), u = r.vec(n, 1.);
  m->calc(d, x, u); m->calcDiff(d, x, u);
  auto snap = [&] { return data_snap(d); };
  const std::string who = "eval." + kd;
  const V xw = wrong(r, nx), uw = wrong(r, n);
  V uout = r.vec(n, 1.), uoutw = wrong(r, n), x0 = x;
  x0.tail(s->get_nv()).setZero();
  REJ(m->calc(d, xw, u)); REJ(m->calc(d, x, uw)); REJ(m->calc(d, xw)); REJ(m->calcDiff(d, xw, u)); REJ(m->calcDiff(d, x, uw)); REJ(m->calcDiff(d, xw));
  const V keep = uout;
  auto qsnap = [&] { D e = snap(); e << uout; return e; };
  rejects(c, who + ".quasiStatic-x", qsnap, [&] { m->quasiStatic(d, uout, xw); });
  rejects(c, who + ".quasiStatic-u", snap, [&] { m->quasiStatic(d, uoutw, x0); });
  // and its differential
  if (auto im = std::dynamic_pointer_cast<cr::IntegratedActionModelAbstract>(m)) {
    auto dm = im->get_differential();
    if (!std::dynamic_pointer_cast<DiffNL>(dm)) {
      auto dd = dm->createData();
      const int nd = int(dm->get_nu());
      const V ud = r.vec(nd, 1.), udw = wrong(r, nd);
      dm->calc(dd, x, ud); dm->calcDiff(dd, x, ud);
      auto ds = [&] { return ddata_snap(dd); };
      rejects(c, "eval.diff.calc-x", ds, [&] { dm->calc(dd, xw, ud); });
      rejects(c, "eval.diff.calc-u", ds, [&] { dm->calc(dd, x, udw); });
      rejects(c, "eval.diff.calcT-x", ds, [&] { dm->calc(dd, xw); });
      rejects(c, "eval.diff.calcDiff-x", ds, [&] { dm->calcDiff(dd, xw, ud); });
      rejects(c, "eval.diff.calcDiff-u", ds, [&] { dm->calcDiff(dd, x, udw); });
      rejects(c, "eval.diff.calcDiffT-x", ds, [&] { dm->calcDiff(dd, xw); });
    }
    const double dt = im->get_dt();
    auto isnap = [&] { D e; e << im->get_dt() << double(im->get_nu()); return e; };
    const double n0 = neg(r);
    rejects(c, "integrated.set_dt", isnap, [&] { im->set_dt(n0); });
    const double nd = r.uni(0, 0.3);
    stores(c, "integrated.set_dt", nd, [&] { im->set_dt(nd); }, [&] { return im->get_dt(); });
    im->set_dt(dt);
    auto other = any_diff(r, im->get_state(), int(dm->get_nu()) + 1);
    const void* was = dm.get();
    rejects(c, "integrated.set_differential", isnap, [&] { im->set_differential(other); });
    c.check(im->get_differential().get() == was, "changed:integrated.set_differential");
    auto ctrl = make_control(0, int(dm->get_nu()) + 1);
    refuses(c, "integrated.euler-control", [&] { cr::IntegratedActionModelEuler e(dm, ctrl, 0.1); });
    refuses(c, "integrated.rk-control", [&] { cr::IntegratedActionModelRK e(dm, ctrl, cr::RKType::four, 0.1); });
    auto same_nu = any_diff(r, im->get_state(), int(dm->get_nu()));
    im->set_differential(same_nu);
    c.check(im->get_differential() == same_nu, "not-stored:integrated.set_differential");
  }
}

VF_SCENARIO(unicycle, 60, 1000) {
  const std::string who = "unicycle";
  cr::ActionModelUnicycle m;
  auto snap = [&] { D d = act_snap(m); d << m.get_dt() << V(m.get_cost_weights()); return d; };
  const double n = neg(r);
  REJ(m.set_dt(n)); REJ(m.set_dt(0.));
  STO(m.set_dt, m.get_dt, r.logu(1e-6, 1e1));
  Eigen::Vector2d w(r.uni(0, 3), r.uni(0, 3));
  STO(m.set_cost_weights, m.get_cost_weights, w);
  c.sig(VF_STR(c.index % 4));
}

VF_SCENARIO(lqr, 800, 30000) {
  vf::Quiet q;
  const int nx = r.irange(1, 5), nu = r.irange(1, 4), ng = r.coin() ? r.irange(1, 3) : 0, nh = r.coin() ? r.irange(1, 2) : 0;
  c.sig(VF_STR("x" << nx << "u" << nu << "g" << ng << "h" << nh));
  auto m = random_lqr(r, nx, nu, ng, nh);
  auto snap = [&] {
    D d = act_snap(*m);
    d << M(m->get_A()) << M(m->get_B()) << M(m->get_Q()) << M(m->get_R()) << M(m->get_N()) << M(m->get_G()) << M(m->get_H()) << V(m->get_f()) << V(m->get_q()) << V(m->get_r()) << V(m->get_g()) << V(m->get_h());
    return d;
  };
  auto other = random_lqr(r, nx, nu, ng, nh);
  const M ms[7] = {other->get_A(), other->get_B(), other->get_Q(), other->get_R(), other->get_N(), other->get_G(), other->get_H()};
  const V vs[5] = {other->get_f(), other->get_q(), other->get_r(), other->get_g(), other->get_h()};
  static const char* nm[12] = {"A", "B", "Q", "R", "N", "G", "H", "f", "q", "r", "g", "h"};
  for (int k = 0; k < 12; ++k) {
    M a[7]; V b[5];
    for (int i = 0; i < 7; ++i) a[i] = ms[i];
    for (int i = 0; i < 5; ++i) b[i] = vs[i];
    if (k < 7) a[k] = wrongm(r, int(ms[k].rows()), int(ms[k].cols())); else b[k - 7] = wrong(r, int(vs[k - 7].size()));
    rejects(c, std::string("lqr.") + nm[k], snap, [&] { m->set_LQR(a[0], a[1], a[2], a[3], a[4], a[5], a[6], b[0], b[1], b[2], b[3], b[4]); });
    if (k < 5 && !(k < 2))  // dimensions given by A and B
      refuses(c, std::string("lqr.ctor-") + nm[k], [&] { cr::ActionModelLQR e(a[0], a[1], a[2], a[3], a[4]); });
    if (k == 0) refuses(c, "lqr.ctor-A", [&] { cr::ActionModelLQR e(a[0], a[1], a[2], a[3], a[4]); });
  }
  // not positive semi-definite
  M Q = ms[2]; Q(0, 0) = -r.uni(0.1, 2);
  rejects(c, "lqr.indefinite", snap, [&] { m->set_LQR(ms[0], ms[1], Q, ms[3], ms[4], ms[5], ms[6], vs[0], vs[1], vs[2], vs[3], vs[4]); });
  m->set_LQR(ms[0], ms[1], ms[2], ms[3], ms[4], ms[5], ms[6], vs[0], vs[1], vs[2], vs[3], vs[4]);
  D e = act_snap(*m);
  for (auto& a : ms) e << a;
  for (auto& b : vs) e << b;
  c.check(eq(e, snap()), "not-stored:lqr");
  c.count("LQ models stored");
}

VF_SCENARIO(diff_lqr, 800, 30000) {
  vf::Quiet q;
  const int nv = r.irange(1, 3), nu = r.irange(1, 4), ng = r.coin() ? r.irange(1, 3) : 0, nh = r.coin() ? r.irange(1, 2) : 0;
  c.sig(VF_STR("v" << nv << "u" << nu << "g" << ng << "h" << nh));
  auto m = random_difflqr(r, nv, nu, ng, nh);
  auto snap = [&] {
    D d; d << M(m->get_Aq()) << M(m->get_Av()) << M(m->get_B()) << M(m->get_Q()) << M(m->get_R()) << M(m->get_N()) << M(m->get_G()) << M(m->get_H()) << V(m->get_f()) << V(m->get_q()) << V(m->get_r()) << V(m->get_g()) << V(m->get_h());
    return d;
  };
  auto o = random_difflqr(r, nv, nu, ng, nh);
  const M ms[8] = {o->get_Aq(), o->get_Av(), o->get_B(), o->get_Q(), o->get_R(), o->get_N(), o->get_G(), o->get_H()};
  const V vs[5] = {o->get_f(), o->get_q(), o->get_r(), o->get_g(), o->get_h()};
  static const char* nm[13] = {"Aq", "Av", "B", "Q", "R", "N", "G", "H", "f", "q", "r", "g", "h"};
  for (int k = 0; k < 13; ++k) {
    M a[8]; V b[5];
    for (int i = 0; i < 8; ++i) a[i] = ms[i];
    for (int i = 0; i < 5; ++i) b[i] = vs[i];
    if (k < 8) a[k] = wrongm(r, int(ms[k].rows()), int(ms[k].cols())); else b[k - 8] = wrong(r, int(vs[k - 8].size()));
    rejects(c, std::string("difflqr.") + nm[k], snap, [&] { m->set_LQR(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], b[0], b[1], b[2], b[3], b[4]); });
  }
  M Q = ms[3]; Q(0, 0) = -r.uni(0.1, 2);
  rejects(c, "difflqr.indefinite", snap, [&] { m->set_LQR(ms[0], ms[1], ms[2], Q, ms[4], ms[5], ms[6], ms[7], vs[0], vs[1], vs[2], vs[3], vs[4]); });
  m->set_LQR(ms[0], ms[1], ms[2], ms[3], ms[4], ms[5], ms[6], ms[7], vs[0], vs[1], vs[2], vs[3], vs[4]);
  D e;
  for (auto& a : ms) e << a;
  for (auto& b : vs) e << b;
  c.check(eq(e, snap()), "not-stored:difflqr");
  c.count("LQ models stored");
}

// ---- activations, states, residuals, costs, constraints ----------------------------------------
VF_SCENARIO(activations, 800, 20000) {
  vf::Quiet q;
  const int n = r.irange(1, 5);
  const double ng = neg(r), pos = r.logu(1e-6, 1e2);
  const V w = wrong(r, n);
  // evaluation of wrong sizes, all kinds
  Actv a = make_actv(r, n, int(c.index));
  auto d = a.m->createData();
  const V x = r.vec(n, 1.);
  a.m->calc(d, x); a.m->calcDiff(d, x);
  auto snap = [&] { D e; e << d->a_value << V(d->Ar) << M(M(d->Arr)); return e; };
  rejects(c, "activation.calc", snap, [&] { a.m->calc(d, w); });
  rejects(c, "activation.calcDiff", snap, [&] { a.m->calcDiff(d, w); });
  c.sig(VF_STR("k" << c.index % 12 << "n" << n));
  refuses(c, "activation.smooth1-eps", [&] { cr::ActivationModelSmooth1Norm e(n, ng); });
  refuses(c, "activation.smooth2-eps", [&] { cr::ActivationModelSmooth2Norm e(n, ng); });
  refuses(c, "activation.flatexp-alpha", [&] { cr::ActivationModelQuadFlatExp e(n, ng); });
  refuses(c, "activation.flatlog-alpha", [&] { cr::ActivationModelQuadFlatLog e(n, ng); });
  refuses(c, "activation.2norm-alpha", [&] { cr::ActivationModel2NormBarrier e(n, ng); });
  { cr::ActivationModelQuadFlatExp e(n, pos); c.check(e.get_alpha() == pos, "not-stored:flatexp"); const std::string who = "activation";
    rejects(c, "activation.flatexp-set_alpha", [&] { D z; z << e.get_alpha(); return z; }, [&] { e.set_alpha(ng); }); STO(e.set_alpha, e.get_alpha, pos * 2); }
  { cr::ActivationModelQuadFlatLog e(n, pos); c.check(e.get_alpha() == pos, "not-stored:flatlog"); const std::string who = "activation";
    rejects(c, "activation.flatlog-set_alpha", [&] { D z; z << e.get_alpha(); return z; }, [&] { e.set_alpha(ng); }); STO(e.set_alpha, e.get_alpha, pos * 2); }
  { cr::ActivationModel2NormBarrier e(n, pos); c.check(e.get_alpha() == pos, "not-stored:2norm"); const std::string who = "activation";
    rejects(c, "activation.2norm-set_alpha", [&] { D z; z << e.get_alpha(); return z; }, [&] { e.set_alpha(ng); }); STO(e.set_alpha, e.get_alpha, pos * 2); }
  V lb, ub;
  random_bounds(r, n, &lb, &ub);
  const double beta = r.coin(0.2) ? double(r.coin()) : r.uni(0, 1);
  refuses(c, "activation.bounds-size", [&] { cr::ActivationBounds e(lb, w, 1.); });
  refuses(c, "activation.bounds-size", [&] { cr::ActivationBounds e(w, ub, 1.); });
  refuses(c, "activation.bounds-beta", [&] { cr::ActivationBounds e(lb, ub, ng); });
  refuses(c, "activation.bounds-beta", [&] { cr::ActivationBounds e(lb, ub, 1. + pos); });
  V li = r.vec(n, 1.), ui = li + r.vec(n, 1.).cwiseAbs();
  const int at = r.irange(0, n - 1);
  std::swap(li[at], ui[at]); if (li[at] == ui[at]) li[at] += 1;
  refuses(c, "activation.bounds-inverted", [&] { cr::ActivationBounds e(li, ui, beta); });
  cr::ActivationBounds b(lb, ub, 1.);
  bool kept = b.beta == 1.;
  for (int i = 0; i < n; ++i) {  // infinite bounds become the largest numbers, finite ones pass through mid-point and half-width
    const double big = std::numeric_limits<double>::max();
    const double l = std::isfinite(lb[i]) ? lb[i] : -big, u = std::isfinite(ub[i]) ? ub[i] : big;
    const double tol = l == -big || u == big ? 0 : 1e-14 * (std::abs(l) + std::abs(u));
    kept = kept && std::abs(b.lb[i] - l) <= tol && std::abs(b.ub[i] - u) <= tol;
  }
  c.check(kept, "not-stored:bounds");
  const V wts = r.vec(n, 1.).cwiseAbs(), wts2 = r.vec(n, 1.).cwiseAbs();
  refuses(c, "activation.weighted-barrier-weights", [&] { cr::ActivationModelWeightedQuadraticBarrier e(b, w); });
  auto bsnap = [](const cr::ActivationBounds& z) { D e; e << V(z.lb) << V(z.ub) << z.beta; return e; };
  V wl, wu; random_bounds(r, n + 1, &wl, &wu);
  cr::ActivationBounds wb(wl, wu, 1.);
  cr::ActivationModelWeightedQuadraticBarrier wq(b, wts);
  auto wsnap = [&] { D e = bsnap(wq.get_bounds()); e << wq.get_weights(); return e; };
  rejects(c, "activation.weighted-barrier-set_weights", wsnap, [&] { wq.set_weights(w); });
  rejects(c, "activation.weighted-barrier-set_bounds", wsnap, [&] { wq.set_bounds(wb); });
  stores(c, "activation.weighted-barrier-set_weights", wts2, [&] { wq.set_weights(wts2); }, [&] { return wq.get_weights(); });
  cr::ActivationModelQuadraticBarrier qb(b);
  rejects(c, "activation.barrier-set_bounds", [&] { return bsnap(qb.get_bounds()); }, [&] { qb.set_bounds(wb); });
  cr::ActivationModelWeightedQuad wt(wts);
  rejects(c, "activation.weighted-set_weights", [&] { D e; e << wt.get_weights(); return e; }, [&] { wt.set_weights(w); });
  stores(c, "activation.weighted-set_weights", wts2, [&] { wt.set_weights(wts2); }, [&] { return wt.get_weights(); });
}

VF_SCENARIO(states_residuals, 600, 15000) {
  vf::Quiet q;
  StateP s = random_dyn_state(r);
  const int nx = int(s->get_nx()), ndx = int(s->get_ndx()), nv = int(s->get_nv()), nu = r.irange(1, 4);
  c.sig(VF_STR(typeid(*s).name() << nx << "u" << nu));
  const V xw = wrong(r, nx), dw = wrong(r, ndx), x = random_x(r, s), y = random_x(r, s), d = r.vec(ndx, 1.);
  V out = r.vec(ndx, 1.), xo = r.vec(nx, 1.);
  auto ssnap = [&] { D e; e << s->get_lb() << s->get_ub() << double(s->get_has_limits()) << out << xo; return e; };
  rejects(c, "state.set_lb", ssnap, [&] { s->set_lb(xw); });
  rejects(c, "state.set_ub", ssnap, [&] { s->set_ub(xw); });
  const V bl = r.vec(nx, 1.), bu = r.vec(nx, 1.);
  stores(c, "state.set_lb", bl, [&] { s->set_lb(bl); }, [&] { return s->get_lb(); });
  stores(c, "state.set_ub", bu, [&] { s->set_ub(bu); }, [&] { return s->get_ub(); });
  cr::StateVector sv(static_cast<size_t>(nx));
  const V sx = r.vec(nx, 1.), sd = r.vec(nx, 1.), sw = wrong(r, nx);
  V so = r.vec(nx, 1.), sow = wrong(r, nx);
  auto vsnap = [&] { D e; e << so << sow; return e; };
  rejects(c, "state.diff-x0", vsnap, [&] { sv.diff(sw, sx, so); });
  rejects(c, "state.diff-x1", vsnap, [&] { sv.diff(sx, sw, so); });
  rejects(c, "state.diff-out", vsnap, [&] { sv.diff(sx, sx, sow); });
  rejects(c, "state.integrate-x", vsnap, [&] { sv.integrate(sw, sd, so); });
  rejects(c, "state.integrate-dx", vsnap, [&] { sv.integrate(sx, sw, so); });
  rejects(c, "state.integrate-out", vsnap, [&] { sv.integrate(sx, sd, sow); });
  M Jw = r.mat(nx, nx + 1, 1.), J = r.mat(nx, nx, 1.);
  const M Jc = J, Jwc = Jw;
  auto jsnap = [&] { D e; e << J << Jw; return e; };
  rejects(c, "state.Jdiff-size", jsnap, [&] { sv.Jdiff(sx, sx, Jw, J, cr::first); });
  rejects(c, "state.Jdiff-size", jsnap, [&] { sv.Jdiff(sx, sx, J, Jw, cr::second); });
  rejects(c, "state.Jintegrate-size", jsnap, [&] { sv.Jintegrate(sx, sd, Jw, J, cr::first, cr::setto); });
  // residual references
  auto ctl = std::make_shared<cr::ResidualModelControl>(s, V(r.vec(nu, 1.)));
  const V uw = wrong(r, nu), ur = r.vec(nu, 1.), vw = wrong(r, nv), vr = r.vec(nv, 1.);
  rejects(c, "residual.control-reference", [&] { D e; e << ctl->get_reference(); return e; }, [&] { ctl->set_reference(uw); });
  stores(c, "residual.control-reference", ur, [&] { ctl->set_reference(ur); }, [&] { return ctl->get_reference(); });
  refuses(c, "residual.control-nu0", [&] { cr::ResidualModelControl e(s, size_t(0)); });
  refuses(c, "residual.acceleration-size", [&] { cr::ResidualModelJointAcceleration e(s, vw, size_t(nu)); });
  refuses(c, "residual.acceleration-size", [&] { cr::ResidualModelJointAcceleration e(s, vw); });
  cr::ResidualModelJointAcceleration acc(s, vr, size_t(nu));
  rejects(c, "residual.acceleration-reference", [&] { D e; e << acc.get_reference(); return e; }, [&] { acc.set_reference(vw); });
  const V vr2 = r.vec(nv, 1.);
  stores(c, "residual.acceleration-reference", vr2, [&] { acc.set_reference(vr2); }, [&] { return acc.get_reference(); });
  ActuP act = std::make_shared<ActuNL>(r, s, nu, 0.3, 0.5);
  refuses(c, "residual.effort-size", [&] { cr::ResidualModelJointEffort e(s, act, uw); });
  refuses(c, "residual.effort-size", [&] { cr::ResidualModelJointEffort e(s, act, uw, size_t(nu), r.coin()); });
  refuses(c, "residual.effort-nu0", [&] { cr::ResidualModelJointEffort e(s, act, ur, size_t(0)); });
  cr::ResidualModelJointEffort eff(s, act, ur);
  rejects(c, "residual.effort-reference", [&] { D e; e << eff.get_reference(); return e; }, [&] { eff.set_reference(uw); });
  const V ur2 = r.vec(nu, 1.);
  stores(c, "residual.effort-reference", ur2, [&] { eff.set_reference(ur2); }, [&] { return eff.get_reference(); });
  // cost: activation and residual have to fit
  auto res = std::make_shared<ResNL>(r, s, r.irange(1, 4), nu, true, true, true);
  refuses(c, "cost.activation-size", [&] { cr::CostModelResidual e(s, std::make_shared<cr::ActivationModelQuad>(res->get_nr() + 1), res); });
  refuses(c, "cost.bare-activation-size", [&] { cr::CostModelResidual e(s, std::make_shared<cr::ActivationModelWeightedQuad>(V::Ones(res->get_nr() + 2)), res); });
  // evaluation of cost sums and constraint managers
  auto sum = std::make_shared<cr::CostModelSum>(s, size_t(nu));
  sum->addCost("a", std::make_shared<cr::CostModelResidual>(s, res), 1.);
  refuses(c, "cost.sum-nu", [&] { sum->addCost("b", std::make_shared<cr::CostModelResidual>(s, std::make_shared<ResNL>(r, s, 2, nu + 1, true, true, true)), 1.); });
  cr::DataCollectorAbstract shared;
  auto sd_ = sum->createData(&shared);
  const V u = r.vec(nu, 1.);
  sum->calc(sd_, x, u); sum->calcDiff(sd_, x, u);
  auto csnap = [&] { D e; e << sd_->cost << V(sd_->Lx) << V(sd_->Lu) << M(sd_->Lxx) << M(sd_->Lxu) << M(sd_->Luu) << double(sum->get_nr()) << double(sum->get_costs().size()); return e; };
  rejects(c, "cost.sum-calc-x", csnap, [&] { sum->calc(sd_, xw, u); });
  rejects(c, "cost.sum-calc-u", csnap, [&] { sum->calc(sd_, x, uw); });
  rejects(c, "cost.sum-calcT-x", csnap, [&] { sum->calc(sd_, xw); });
  rejects(c, "cost.sum-calcDiff-x", csnap, [&] { sum->calcDiff(sd_, xw, u); });
  rejects(c, "cost.sum-calcDiff-u", csnap, [&] { sum->calcDiff(sd_, x, uw); });
  rejects(c, "cost.sum-calcDiffT-x", csnap, [&] { sum->calcDiff(sd_, xw); });
  // a data of another sum
  auto sum2 = std::make_shared<cr::CostModelSum>(s, size_t(nu));
  sum2->addCost("a", std::make_shared<cr::CostModelResidual>(s, res), 1.);
  sum2->addCost("b", std::make_shared<cr::CostModelResidual>(s, res), 1.);
  rejects(c, "cost.sum-data", csnap, [&] { sum2->calc(sd_, x, u); });
  rejects(c, "cost.sum-data", csnap, [&] { sum2->calcDiff(sd_, x, u); });
  auto man = std::make_shared<cr::ConstraintModelManager>(s, size_t(nu));
  auto con = std::make_shared<cr::ConstraintModelResidual>(s, res);
  man->addConstraint("a", con);
  refuses(c, "constraint.nu", [&] { man->addConstraint("b", std::make_shared<cr::ConstraintModelResidual>(s, std::make_shared<ResNL>(r, s, 2, nu + 1, true, true, true))); });
  auto md = man->createData(&shared);
  man->calc(md, x, u); man->calcDiff(md, x, u);
  auto msnap = [&] { D e; e << V(md->h) << M(md->Hx) << M(md->Hu) << double(man->get_nh()) << double(man->get_ng()); return e; };
  rejects(c, "constraint.calc-x", msnap, [&] { man->calc(md, xw, u); });
  rejects(c, "constraint.calc-u", msnap, [&] { man->calc(md, x, uw); });
  rejects(c, "constraint.calcDiff-x", msnap, [&] { man->calcDiff(md, xw, u); });
  rejects(c, "constraint.calcDiff-u", msnap, [&] { man->calcDiff(md, x, uw); });
  rejects(c, "constraint.calcT-x", msnap, [&] { man->calc(md, xw); });
  rejects(c, "constraint.calcDiffT-x", msnap, [&] { man->calcDiff(md, xw); });
  const int nr = int(res->get_nr());
  V l = -r.vec(nr, 1.).cwiseAbs(), h = r.vec(nr, 1.).cwiseAbs();
  auto ic = std::make_shared<cr::ConstraintModelResidual>(s, res, l, h);
  auto isnap = [&] { D e; e << V(ic->get_lb()) << V(ic->get_ub()) << double(ic->get_ng()); return e; };
  const V lw = wrong(r, nr), hw = wrong(r, nr);
  rejects(c, "constraint.bounds-lb", isnap, [&] { ic->update_bounds(lw, h); });
  rejects(c, "constraint.bounds-ub", isnap, [&] { ic->update_bounds(l, hw); });
  const V bad_l = h.array() + 0.5, bad_h = l.array() - 0.5;
  rejects(c, "constraint.bounds-inverted", isnap, [&] { ic->update_bounds(bad_l, bad_h); });
  refuses(c, "constraint.ctor-inverted", [&] { cr::ConstraintModelResidual e(s, res, bad_l, bad_h); });
  { V one = l; one[r.irange(0, nr - 1)] = h[0] + 10;  // a single inverted pair
    refuses(c, "constraint.ctor-inverted-one", [&] { cr::ConstraintModelResidual e(s, res, one, h); });
    rejects(c, "constraint.bounds-inverted-one", isnap, [&] { ic->update_bounds(one, h); }); }
  refuses(c, "constraint.ctor-size-lb", [&] { cr::ConstraintModelResidual e(s, res, lw, h); });
  refuses(c, "constraint.ctor-size-ub", [&] { cr::ConstraintModelResidual e(s, res, l, hw); });
  for (int k = 0; k < 2; ++k) {  // no lower bound above everything, no upper bound below everything
    const int at = r.irange(0, nr - 1);
    V li = l, hi = h;
    (k ? hi : li)[at] = (k ? -1 : 1) * r.pick({std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max()});
    if (!k) hi[at] = std::numeric_limits<double>::infinity(); else li[at] = -std::numeric_limits<double>::infinity();
    refuses(c, "constraint.ctor-infinite", [&] { cr::ConstraintModelResidual e(s, res, li, hi); });
    rejects(c, "constraint.bounds-infinite", isnap, [&] { ic->update_bounds(li, hi); });
  }
  {  // equal bounds, and unbounded sides, are fine
    V le = l, he = h;
    for (int i = 0; i < nr; ++i) if (r.coin()) he[i] = le[i]; else if (r.coin(.3)) le[i] = -std::numeric_limits<double>::infinity(); else if (r.coin(.3)) he[i] = std::numeric_limits<double>::infinity();
    bool fine = true;
    try { cr::ConstraintModelResidual e(s, res, le, he); fine = V(e.get_lb()) == le && V(e.get_ub()) == he; } catch (std::exception&) { fine = false; }
    c.check(fine, "constraint:equal-bounds-refused", VF_STR(le.transpose() << " .. " << he.transpose()));
    c.count("equal bounds stored");
  }
}

// ---- actuation, squashing, control parametrizations, numerical differences, problem ---------------------
VF_SCENARIO(actuation_control, 600, 15000) {
  vf::Quiet q;
  StateP s = random_dyn_state(r);
  const int nx = int(s->get_nx()), nv = int(s->get_nv()), nu = r.irange(1, 4);
  c.sig(VF_STR(nx << "u" << nu));
  ActuP act = std::make_shared<ActuNL>(r, s, nu, 0.3, 0.5);
  auto d = act->createData();
  const V x = random_x(r, s), u = r.vec(nu, 1.), xw = wrong(r, nx), uw = wrong(r, nu), tw = wrong(r, nv);
  act->calc(d, x, u); act->calcDiff(d, x, u);
  auto snap = [&] { D e; e << V(d->tau) << V(d->u) << M(d->dtau_dx) << M(d->dtau_du) << M(d->Mtau); return e; };
  rejects(c, "actuation.torqueTransform-x", snap, [&] { act->torqueTransform(d, xw, u); });
  rejects(c, "actuation.torqueTransform-u", snap, [&] { act->torqueTransform(d, x, uw); });
  V lb = -r.vec(nu, 1.).cwiseAbs().array() - 0.1, ub = r.vec(nu, 1.).cwiseAbs().array() + 0.1;
  refuses(c, "squash.ctor-lb", [&] { cr::SquashingModelSmoothSat e(uw, ub, size_t(nu)); });
  refuses(c, "squash.ctor-ub", [&] { cr::SquashingModelSmoothSat e(lb, uw, size_t(nu)); });
  refuses(c, "squash.ns0", [&] { cr::SquashingModelSmoothSat e(V(), V(), size_t(0)); });
  auto sq = std::make_shared<cr::SquashingModelSmoothSat>(lb, ub, size_t(nu));
  auto qsnap = [&] { D e; e << sq->get_smooth() << V(sq->get_d()) << V(sq->get_s_lb()) << V(sq->get_s_ub()); return e; };
  const double ng = neg(r), pos = r.logu(1e-6, 1e1);
  rejects(c, "squash.smooth", qsnap, [&] { sq->set_smooth(ng); });
  stores(c, "squash.smooth", pos, [&] { sq->set_smooth(pos); }, [&] { return sq->get_smooth(); });
  cr::ActuationSquashingModel am(act, sq, size_t(nu));
  auto ad = am.createData();
  am.calc(ad, x, u);
  auto asnap = [&] { D e; e << V(ad->u) << V(ad->tau); return e; };
  rejects(c, "squash.commands-tau", asnap, [&] { am.commands(ad, x, tw); });
  // control parametrizations
  const int kind = r.irange(0, 3), nw = r.irange(1, 3);
  CtrlP ctl = make_control(kind, nw);
  const int n = int(ctl->get_nu());
  auto cd = ctl->createData();
  const V p = r.vec(n, 1.), pw = wrong(r, n), ww = wrong(r, nw), w = r.vec(nw, 1.);
  ctl->calc(cd, 0.4, p); ctl->calcDiff(cd, 0.4, p);
  V l1 = r.vec(n, 1.), l2 = r.vec(n, 1.), lw = wrong(r, n);
  auto csnap = [&] { D e; e << V(cd->w) << V(cd->u) << M(cd->dw_du) << l1 << l2 << lw; return e; };
  const std::string k = "control.k" + std::to_string(kind) + ".";
  rejects(c, k + "calc-u", csnap, [&] { ctl->calc(cd, 0.7, pw); });
  rejects(c, k + "params-w", csnap, [&] { ctl->params(cd, 0.7, ww); });
  rejects(c, k + "bounds-lb", csnap, [&] { ctl->convertBounds(ww, w, l1, l2); });
  rejects(c, k + "bounds-ub", csnap, [&] { ctl->convertBounds(w, ww, l1, l2); });
  rejects(c, k + "bounds-out", csnap, [&] { ctl->convertBounds(w, w, lw, l2); });
  rejects(c, k + "bounds-out", csnap, [&] { ctl->convertBounds(w, w, l1, lw); });
  M A = r.mat(2, nw, 1.), Aw = r.mat(2, nw + 1, 1.), o = r.mat(2, n, 1.), ow = r.mat(2, n + 1, 1.), orow = r.mat(3, n, 1.);
  auto jsnap = [&] { D e; e << o << ow << orow; return e; };
  rejects(c, k + "mulJ-A", jsnap, [&] { ctl->multiplyByJacobian(cd, Aw, o); });
  rejects(c, k + "mulJ-out", jsnap, [&] { ctl->multiplyByJacobian(cd, A, ow); });
  rejects(c, k + "mulJ-rows", jsnap, [&] { ctl->multiplyByJacobian(cd, A, orow); });
  M At = A.transpose(), Awt = Aw.transpose(), ot = o.transpose(), owt = ow.transpose(), ort = orow.transpose();
  auto tsnap = [&] { D e; e << ot << owt << ort; return e; };
  rejects(c, k + "mulJT-A", tsnap, [&] { ctl->multiplyJacobianTransposeBy(cd, Awt, ot); });
  rejects(c, k + "mulJT-out", tsnap, [&] { ctl->multiplyJacobianTransposeBy(cd, At, owt); });
  rejects(c, k + "mulJT-cols", tsnap, [&] { ctl->multiplyJacobianTransposeBy(cd, At, ort); });
}

VF_SCENARIO(numdiff, 400, 10000) {
  vf::Quiet q;
  const double ng = neg(r), pos = r.logu(1e-10, 1e-4);
  StateP s = random_dyn_state(r);
  const int nu = r.irange(1, 3), nx = int(s->get_nx());
  const V xw = wrong(r, nx), x = random_x(r, s), u = r.vec(nu, 1.), uw = wrong(r, nu);
  c.sig(VF_STR(nx << "u" << nu));
#define DIST(obj, nm) rejects(c, "numdiff." nm, [&] { D e; e << (obj).get_disturbance(); return e; }, [&] { (obj).set_disturbance(ng); }); \
  stores(c, "numdiff." nm, pos, [&] { (obj).set_disturbance(pos); }, [&] { return (obj).get_disturbance(); });
  { std::string kd; ActP a = any_action(r, s, nu, &kd); cr::ActionModelNumDiff m(a); DIST(m, "action");
    auto d = m.createData(); const int n = int(m.get_nu()), nx_ = int(a->get_state()->get_nx()); const V X = random_x(r, a->get_state()), U = r.vec(n, 1.), W = wrong(r, nx_), Uw = wrong(r, n);
    m.calc(d, X, U); m.calcDiff(d, X, U);
    auto sn = [&] { return data_snap(d); };
    rejects(c, "numdiff.action-calc-x", sn, [&] { m.calc(d, W, U); }); rejects(c, "numdiff.action-calc-u", sn, [&] { m.calc(d, X, Uw); });
    rejects(c, "numdiff.action-calcDiff-x", sn, [&] { m.calcDiff(d, W, U); }); rejects(c, "numdiff.action-calcDiff-u", sn, [&] { m.calcDiff(d, X, Uw); });
    rejects(c, "numdiff.action-calcT", sn, [&] { m.calc(d, W); }); rejects(c, "numdiff.action-calcDiffT", sn, [&] { m.calcDiff(d, W); }); }
  { DiffP a = any_diff(r, s, nu); cr::DifferentialActionModelNumDiff m(a); DIST(m, "diff-action");
    auto d = m.createData(); m.calc(d, x, u); m.calcDiff(d, x, u);
    auto sn = [&] { return ddata_snap(d); };
    rejects(c, "numdiff.diff-action-calc-x", sn, [&] { m.calc(d, xw, u); }); rejects(c, "numdiff.diff-action-calc-u", sn, [&] { m.calc(d, x, uw); });
    rejects(c, "numdiff.diff-action-calcDiff-x", sn, [&] { m.calcDiff(d, xw, u); }); rejects(c, "numdiff.diff-action-calcDiff-u", sn, [&] { m.calcDiff(d, x, uw); });
    rejects(c, "numdiff.diff-action-calcT", sn, [&] { m.calc(d, xw); }); rejects(c, "numdiff.diff-action-calcDiffT", sn, [&] { m.calcDiff(d, xw); }); }
  { Actv a = make_actv(r, 3, r.irange(0, 20)); cr::ActivationModelNumDiff m(a.m); DIST(m, "activation");
    auto d = m.createData(); const V z = r.vec(3, 1.), w = wrong(r, 3); m.calc(d, z);
    auto sn = [&] { D e; e << d->a_value << V(d->Ar); return e; };
    rejects(c, "numdiff.activation-calc", sn, [&] { m.calc(d, w); }); rejects(c, "numdiff.activation-calcDiff", sn, [&] { m.calcDiff(d, w); }); }
  { ActuP a = std::make_shared<ActuNL>(r, s, nu, 0.3, 0.5); cr::ActuationModelNumDiff m(a); DIST(m, "actuation");
    auto d = m.createData(); m.calc(d, x, u);
    auto sn = [&] { D e; e << V(d->tau) << V(d->u) << M(d->dtau_dx) << M(d->dtau_du); return e; };
    const V tw = wrong(r, int(s->get_nv()));
    rejects(c, "numdiff.actuation-calc-x", sn, [&] { m.calc(d, xw, u); }); rejects(c, "numdiff.actuation-calc-u", sn, [&] { m.calc(d, x, uw); });
    rejects(c, "numdiff.actuation-commands", sn, [&] { m.commands(d, x, tw); }); }
  { auto a = std::make_shared<ResNL>(r, s, 2, nu, true, true, true); cr::ResidualModelNumDiff m(a); DIST(m, "residual"); }
  { auto a = std::make_shared<cr::ConstraintModelResidual>(s, std::make_shared<ResNL>(r, s, 2, nu, true, true, true)); cr::ConstraintModelNumDiff m(a); DIST(m, "constraint");
    cr::DataCollectorAbstract sh; auto d = m.createData(&sh); m.calc(d, x, u);
    auto sn = [&] { D e; e << V(d->h) << M(d->Hx) << M(d->Hu); return e; };
    rejects(c, "numdiff.constraint-calc-x", sn, [&] { m.calc(d, xw, u); }); rejects(c, "numdiff.constraint-calc-u", sn, [&] { m.calc(d, x, uw); }); }
  { cr::StateNumDiff m(s); DIST(m, "state"); }
  { cr::ControlParametrizationModelNumDiff m(make_control(r.irange(0, 3), nu)); DIST(m, "control"); }
}

VF_SCENARIO(problem, 600, 15000) {
  vf::Quiet q;
  ProbOpt o; o.varying_nu = true;
  Problem p = nl_problem(r, o);
  const size_t T = p.models.size();
  const int nx = int(p.state->get_nx());
  c.sig(VF_STR(typeid(*p.state).name() << nx << "T" << T));
  auto pr = p.prob;
  auto ids = [&] {
    D d; d << V(pr->get_x0()) << double(pr->get_T()) << double(pr->get_nthreads());
    for (auto& m : pr->get_runningModels()) d << double(reinterpret_cast<uintptr_t>(m.get()));
    for (auto& m : pr->get_runningDatas()) d << double(reinterpret_cast<uintptr_t>(m.get()));
    d << double(reinterpret_cast<uintptr_t>(pr->get_terminalModel().get())) << double(reinterpret_cast<uintptr_t>(pr->get_terminalData().get()));
    return d;
  };
  const V xw = wrong(r, nx), x0 = random_x(r, p.state);
  rejects(c, "problem.set_x0", ids, [&] { pr->set_x0(xw); });
  stores(c, "problem.set_x0", x0, [&] { pr->set_x0(x0); }, [&] { return V(pr->get_x0()); });
  StateP os = std::make_shared<cr::StateVector>(size_t(nx + 1));
  ActOpt ao; ao.nu = 1;
  ActP alien = std::make_shared<ActNL>(r, os, ao), fine = std::make_shared<ActNL>(r, p.state, ao);
  const size_t over = T + 1 + size_t(r.irange(0, 3)), at = size_t(r.irange(0, int(T)));
  auto fd = fine->createData(), ald = alien->createData();
  rejects(c, "problem.updateModel-index", ids, [&] { pr->updateModel(over, fine); });
  rejects(c, "problem.updateModel-nx", ids, [&] { pr->updateModel(at, alien); });
  rejects(c, "problem.updateNode-index", ids, [&] { pr->updateNode(over, fine, fd); });
  rejects(c, "problem.updateNode-nx", ids, [&] { pr->updateNode(at, alien, ald); });
  rejects(c, "problem.append-nx", ids, [&] { pr->circularAppend(alien); });
  rejects(c, "problem.append-nx", ids, [&] { pr->circularAppend(alien, ald); });
  // an LQ model refuses the data of another kind
  if (std::dynamic_pointer_cast<cr::StateVector>(p.state)) {
    ActP lq = random_lqr(r, nx, 2);
    auto nd = std::make_shared<cr::ActionDataAbstract>(fine.get());
    rejects(c, "problem.updateNode-data", ids, [&] { pr->updateNode(at, lq, nd); });
    rejects(c, "problem.append-data", ids, [&] { pr->circularAppend(lq, nd); });
    c.count("foreign datas");
  }
  rejects(c, "problem.terminal-nx", ids, [&] { pr->set_terminalModel(alien); });
  std::vector<ActP> list = p.models;
  list[size_t(r.irange(0, int(T) - 1))] = alien;
  rejects(c, "problem.running-nx", ids, [&] { pr->set_runningModels(list); });
  for (int k = 0; k < 2; ++k) {  // and a list of another length
    std::vector<ActP> l2 = p.models;
    if (k) { for (int i = r.irange(1, 3); i > 0; --i) l2.push_back(fine); } else if (T > 1) l2.resize(size_t(r.irange(1, int(T) - 1)));
    l2[size_t(r.irange(0, int(l2.size()) - 1))] = alien;
    rejects(c, k ? "problem.running-nx-longer" : "problem.running-nx-shorter", ids, [&] { pr->set_runningModels(l2); });
  }
  if (p.state->get_ndx() != p.state->get_nx()) {  // as many coordinates, another tangent space
    ActP twin = std::make_shared<ActNL>(r, std::make_shared<cr::StateVector>(size_t(nx)), ao);
    auto td = twin->createData();
    std::vector<ActP> l2 = p.models;
    l2[size_t(r.irange(0, int(T) - 1))] = twin;
    rejects(c, "problem.updateModel-ndx", ids, [&] { pr->updateModel(at, twin); });
    rejects(c, "problem.updateNode-ndx", ids, [&] { pr->updateNode(at, twin, td); });
    rejects(c, "problem.append-ndx", ids, [&] { pr->circularAppend(twin); });
    rejects(c, "problem.append-ndx", ids, [&] { pr->circularAppend(twin, td); });
    rejects(c, "problem.terminal-ndx", ids, [&] { pr->set_terminalModel(twin); });
    rejects(c, "problem.running-ndx", ids, [&] { pr->set_runningModels(l2); });
    refuses(c, "problem.ctor-running-ndx", [&] { cr::ShootingProblem e(p.x0, l2, p.terminal); });
    refuses(c, "problem.ctor-terminal-ndx", [&] { cr::ShootingProblem e(p.x0, p.models, twin); });
    c.count("alien tangent spaces");
  }
  if (T > 1) refuses(c, "problem.ctor-running", [&] { cr::ShootingProblem e(p.x0, list, p.terminal); });
  refuses(c, "problem.ctor-terminal", [&] { cr::ShootingProblem e(p.x0, p.models, alien); });
  refuses(c, "problem.ctor-x0", [&] { cr::ShootingProblem e(xw, p.models, p.terminal); });
  std::vector<ActDP> ds;
  for (auto& m : p.models) ds.push_back(m->createData());
  auto few = ds; few.pop_back();
  refuses(c, "problem.ctor-datas", [&] { cr::ShootingProblem e(p.x0, p.models, p.terminal, few, p.terminal->createData()); });
  refuses(c, "problem.ctor-datas-terminal", [&] { cr::ShootingProblem e(p.x0, p.models, alien, ds, ald); });
  // sizes of the lists
  VV xs = random_xs(r, p), us = random_us(r, p), xs1 = xs, us1 = us;
  xs1.pop_back(); us1.push_back(us.back());
  VV xo = xs, uo = us;
  auto both = [&] { D d = ids(); for (auto& v : xo) d << v; for (auto& v : uo) d << v; for (auto& v : xs1) d << v; return d; };
  rejects(c, "problem.calc-xs", both, [&] { pr->calc(xs1, us); });
  rejects(c, "problem.calc-us", both, [&] { pr->calc(xs, us1); });
  rejects(c, "problem.calcDiff-xs", both, [&] { pr->calcDiff(xs1, us); });
  rejects(c, "problem.calcDiff-us", both, [&] { pr->calcDiff(xs, us1); });
  rejects(c, "problem.rollout-xs", both, [&] { pr->rollout(us, xs1); });
  rejects(c, "problem.rollout-us", both, [&] { pr->rollout(us1, xo); });
  rejects(c, "problem.quasiStatic-xs", both, [&] { pr->quasiStatic(uo, xs); });
  if (T > 1) { VV shortu(us.begin(), us.end() - 1); rejects(c, "problem.quasiStatic-us", both, [&] { pr->quasiStatic(shortu, xs1); }); }
}
VF_MAIN("C14")
