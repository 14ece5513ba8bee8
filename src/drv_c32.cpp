// C32: quasiStatic returns controls that hold a zero-velocity state
#include "gen3.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
using namespace gen;
using vf::Ctx;
typedef std::vector<V> VV;

static V still_x(Rng& r, const StateP& s, double sc = 0.7) {
  V x = random_x(r, s, sc);
  x.tail(s->get_nv()).setZero();
  return x;
}
// Gauss-Newton with minimum-norm steps on res(u), as the reference
struct Newton { bool ok = false; V u; double res = 0, cond = 1; int iters = 0; };
template <class F>
static Newton newton(const F& f, V u, double tol = 1e-11, int maxit = 60) {
  Newton n;
  n.u = u;
  double prev = 1e300;
  for (; n.iters < maxit; ++n.iters) {
    V res; M J;
    f(n.u, res, J);
    if (!res.allFinite() || !J.allFinite()) return n;
    Eigen::JacobiSVD<M> svd(J, Eigen::ComputeFullU | Eigen::ComputeFullV);
    const V sv = svd.singularValues();
    n.cond = std::max(n.cond, sv[0] / std::max(sv[sv.size() - 1], 1e-300));
    V c = svd.matrixU().leftCols(sv.size()).transpose() * res;
    for (int i = 0; i < c.size(); ++i) c[i] = sv[i] > 1e-10 * sv[0] && sv[i] > 0 ? c[i] / sv[i] : 0;
    const V du = -svd.matrixV().leftCols(sv.size()) * c;
    n.u += du;
    if (n.iters > 0 && du.norm() > 0.7 * prev && du.norm() > 1e-6) return n;  // no steady contraction: too sensitive to judge
    prev = du.norm();
    if (du.norm() <= tol * (1 + n.u.norm())) { f(n.u, res, J); n.res = vf::amax(res); n.ok = true; return n; }
  }
  return n;
}
static V act_gap(const ActP& m, const V& x, const V& u) {
  V d(m->get_state()->get_ndx());
  m->get_state()->diff(x, eval(m, x, u)->xnext, d);
  return d;
}
static Newton act_newton(const ActP& m, const V& x, const V& u0) {
  return newton([&](const V& u, V& res, M& J) {
    auto d = eval(m, x, u, true);
    res.resize(m->get_state()->get_ndx());
    m->get_state()->diff(x, d->xnext, res);
    J = d->Fu;
  }, u0);
}
static Newton diff_newton(const DiffP& m, const V& x, const V& u0) {
  return newton([&](const V& u, V& res, M& J) {
    auto d = m->createData();
    m->calc(d, x, u); m->calcDiff(d, x, u);
    res = d->xout; J = d->Fu;
  }, u0);
}
static V accel(const DiffP& m, const V& x, const V& u) { auto d = m->createData(); m->calc(d, x, u); return V(d->xout); }
static std::string S(const V& v) { std::ostringstream o; o.precision(17); o << v.transpose(); return o.str(); }
static bool tame(const Newton& n) { return n.ok && n.cond < 1e4 && n.iters < 30 && vf::amax(n.u) < 1e3; }
static ActP conv(const std::shared_ptr<ActNL>& a) { return a; }

// A model that keeps u as given on a stale data set: the result must not depend on what the data held
static ActDP dirty(Rng& r, const ActP& m) {
  auto d = m->createData();
  if (r.coin()) { const V x = still_x(r, m->get_state()), u = r.vec(m->get_nu()); m->calc(d, x, u); m->calcDiff(d, x, u); }
  return d;
}

VF_SCENARIO(action, 4000, 200000) {
  ActP m;
  const int kind = r.irange(0, 3);
  std::string k;
  StateP s;
  int ncalc = 0;
  std::shared_ptr<ActNL> nl;
  if (kind == 0) { const int nx = r.irange(1, 5); m = random_lqr(r, nx, r.irange(1, 6)); k = "lqr"; s = m->get_state(); }
  else if (kind == 1) {
    s = random_dyn_state(r);
    ActOpt o; o.nu = int(s->get_ndx()) + r.irange(-1, 3); o.nonlin = r.pick({0., 0.1, 0.3}); o.lin = 0.7;
    nl = std::make_shared<ActNL>(r, s, o);
    m = conv(nl); k = "nl";
  } else if (kind == 2) {
    auto u = std::make_shared<cr::ActionModelUnicycle>(); u->set_dt(r.uni(0.02, 0.3)); m = u; k = "unicycle"; s = m->get_state();
  } else { s = std::make_shared<cr::StateVector>(2 * r.irange(1, 3)); ActOpt o; o.nu = 0; o.autonomous = true; m = std::make_shared<ActNL>(r, s, o); k = "no-control"; }
  const V x = still_x(r, s);
  const int nu = int(m->get_nu());
  V u0 = r.vec(nu, 0.5);
  // now and then: an equilibrium is known to exist although the model has fewer controls than states
  V ueq;
  if (k == "lqr" && r.coin()) {
    auto l = std::dynamic_pointer_cast<cr::ActionModelLQR>(m);
    ueq = r.vec(nu);
    l->set_LQR(l->get_A(), l->get_B(), l->get_Q(), l->get_R(), l->get_N(), l->get_G(), l->get_H(), V(x - l->get_A() * x - l->get_B() * ueq), l->get_q(), l->get_r(), l->get_g(), l->get_h());
  }
  auto d = dirty(r, m);
  const bool start0 = r.coin(0.4);
  const V us = start0 ? V(V::Zero(nu)) : u0;
  V u = us;
  const V xc = x;
  if (nl) nl->spy = [&](const Ev& e) { if (e.kind == 0) ++ncalc; };
  const int maxit = r.pick({100, 100, 100, 60, 1, 2, 0});
  if (start0) u = m->quasiStatic_x(d, x, maxit, 1e-9);
  else m->quasiStatic(d, u, x, maxit, 1e-9);
  if (nl) nl->spy = nullptr;
  c.check(x == xc, "state-changed:" + k);
  c.check(u.size() == nu && (nu == 0 || u.allFinite()), "control-invalid:" + k, VF_STR("u=" << S(u)));
  if (nl) c.check(ncalc <= maxit, "iteration-limit:" + k, VF_STR(ncalc << " evaluations, limit " << maxit));
  c.sig(k + (start0 ? "0" : "u") + std::to_string(s->get_ndx()) + "/" + std::to_string(nu) + (ueq.size() ? "e" : "") + std::to_string(maxit));
  if (nu == 0) { c.count("models without controls"); return; }
  if (maxit == 0) { c.check(u == us, "no-iteration-keeps-control:" + k, VF_STR("start " << S(us) << " end " << S(u))); c.count("calls without iterations"); return; }
  const Newton n = act_newton(m, x, us);
  if (!tame(n) || (k == "nl" && maxit < 60)) { c.count("starts left out"); return; }
  if (maxit < 60 && k == "nl") return;
  if (n.res < 1e-8) {
    const double g = vf::amax(act_gap(m, x, u));
    c.check(g < 1e-6, "holds:" + k, VF_STR("gap " << g << " u=" << S(u) << " newton " << S(n.u) << " x=" << S(x)));
    c.count("equilibria of " + k); c.count("equilibria");
    c.sample("quasiStatic of " + k + " at x=" + S(x) + " from u=" + S(us) + " returned " + S(u));
    if (start0) c.count("equilibria from a zero start");
    c.maxi("largest gap", g);
  } else {
    // no equilibrium: the least-squares one
    auto e = eval(m, x, u, true);
    V dx(s->get_ndx()); s->diff(x, e->xnext, dx);
    if (k == "lqr") { c.check(vf::amax(V(e->Fu.transpose() * dx)) < 1e-6 * (1 + vf::amax(e->Fu)), "least-squares:" + k, VF_STR("u=" << S(u))); c.count("least-squares controls"); }
  }
  if (k != "nl" || n.res < 1e-8) {
    c.check(vf::relerr(u, n.u) < 1e-5, "control:" + k, VF_STR("u=" << S(u) << " newton " << S(n.u) << " start " << S(us)));
    c.count("controls compared");
  }
  if (ueq.size()) { c.check(vf::amax(act_gap(m, x, u)) < 1e-6, "known-equilibrium", VF_STR("u=" << S(u) << " equilibrium " << S(ueq))); c.count("known equilibria"); }
  // starting at the answer changes nothing
  if (n.res < 1e-8) {
    V u2 = u;
    m->quasiStatic(m->createData(), u2, x, 100, 1e-9);
    c.check(vf::relerr(u2, u) < 1e-7, "equilibrium-kept:" + k, VF_STR("from " << S(u) << " to " << S(u2)));
    // ... and the wrapper that differentiates numerically returns the same
    if (r.coin(0.3)) {
      auto nd = std::make_shared<cr::ActionModelNumDiff>(m);
      V u3 = us;
      nd->quasiStatic(nd->createData(), u3, x, 100, 1e-9);
      c.check(vf::relerr(u3, u) < 1e-7, "numdiff:" + k, VF_STR("wrapped " << S(u3) << " plain " << S(u)));
      c.count("numerically differentiated actions");
    }
  }
}
static DiffP some_diff(Rng& r, std::string& k, bool full = false) {
  const int kind = r.irange(0, 2);
  if (kind == 0) { const int nv = r.irange(1, 3); k = "dlqr"; return random_difflqr(r, nv, std::max(1, nv + r.irange(full ? 0 : -1, 2))); }
  StateP s = random_dyn_state(r);
  const int nv = int(s->get_nv());
  if (kind == 1) { ActOpt o; o.nu = std::max(1, nv + r.irange(full ? 0 : -1, 2)); o.nonlin = r.pick({0., 0.2, 0.3}); o.lin = 0.7; k = "dnl"; return std::make_shared<DiffNL>(r, s, o); }
  k = "dsum";
  return random_diffsum(r, s, nv, r.coin(0.3));
}
VF_SCENARIO(differential, 3000, 150000) {
  std::string k;
  DiffP m = some_diff(r, k);
  StateP s = m->get_state();
  const V x = still_x(r, s), xc = x;
  const int nu = int(m->get_nu());
  const bool start0 = r.coin(0.4);
  const V us = start0 ? V(V::Zero(nu)) : r.vec(nu, 0.4);
  auto d = m->createData();
  if (r.coin()) { const V xo = still_x(r, s), uo = r.vec(nu); m->calc(d, xo, uo); m->calcDiff(d, xo, uo); }
  V u = us;
  const int maxit = r.pick({100, 100, 100, 0});
  if (start0) u = m->quasiStatic_x(d, x, maxit, 1e-9); else m->quasiStatic(d, u, x, maxit, 1e-9);
  c.check(x == xc, "state-changed:" + k);
  c.check(u.size() == nu, "control-invalid:" + k);
  c.sig(k + (start0 ? "0" : "u") + std::to_string(s->get_ndx()) + "/" + std::to_string(nu));
  if (maxit == 0) { c.check(u == us, "no-iteration-keeps-control:" + k); return; }
  const Newton n = diff_newton(m, x, us);
  if (!tame(n)) { c.count("starts left out"); return; }
  if (n.res < 1e-8) {
    const double a = vf::amax(accel(m, x, u));
    c.check(a < 1e-6, "holds:" + k, VF_STR("acceleration " << a << " u=" << S(u) << " newton " << S(n.u)));
    c.check(vf::relerr(u, n.u) < 1e-5, "control:" + k, VF_STR("u=" << S(u) << " newton " << S(n.u)));
    c.count("equilibria of " + k); c.count("equilibria");
    c.maxi("largest acceleration", a);
    if (r.coin(0.3)) {
      auto nd = std::make_shared<cr::DifferentialActionModelNumDiff>(m);
      V u3 = us;
      nd->quasiStatic(nd->createData(), u3, x, 100, 1e-9);
      c.check(vf::relerr(u3, u) < 1e-7, "numdiff:" + k, VF_STR("wrapped " << S(u3) << " plain " << S(u)));
      c.count("numerically differentiated models");
    }
  } else if (k == "dlqr") {
    auto e = m->createData(); m->calc(e, x, u); m->calcDiff(e, x, u);
    c.check(vf::amax(V(e->Fu.transpose() * e->xout)) < 1e-6 * (1 + vf::amax(e->Fu)), "least-squares:" + k, VF_STR("u=" << S(u)));
    c.count("least-squares controls");
  }
}
VF_SCENARIO(integrated, 4000, 200000) {
  std::string k;
  DiffP dm = some_diff(r, k, true);
  StateP s = dm->get_state();
  const int ck = r.irange(0, 3), ik = r.pick({0, 2, 3, 4}), nw = int(dm->get_nu());
  ActP m = make_integrated(dm, make_control(ck, nw), ik, r.pick({1e-3, 0.01, 0.1, 0.3}), r.coin());
  const std::string w = "int" + std::to_string(ik) + "c" + std::to_string(ck);
  const V x = still_x(r, s), xc = x;
  const int nu = int(m->get_nu());
  const Newton n = diff_newton(dm, x, V::Zero(nw));
  auto d = dirty(r, m);
  const bool xform = r.coin(0.4);
  V u = r.vec(nu);
  if (xform) u = m->quasiStatic_x(d, x); else m->quasiStatic(d, u, x);
  c.check(x == xc, "state-changed:" + w);
  c.check(u.size() == nu && u.allFinite(), "control-invalid:" + w);
  c.sig(k + w + std::to_string(s->get_ndx()) + "/" + std::to_string(nw));
  if (!tame(n) || n.res > 1e-8) { c.count("starts left out"); return; }
  const double g = vf::amax(act_gap(m, x, u));
  c.check(g < 1e-6, "holds:" + w, VF_STR(k << " gap " << g << " u=" << S(u) << " equilibrium " << S(n.u)));
  // the held control: the parametrization is constant over the interval
  auto ctrl = make_control(ck, nw);
  auto cd = ctrl->createData();
  for (double t : {0., 0.25, 0.5, 1.}) {
    ctrl->calc(cd, t, u);
    c.check(vf::relerr(V(cd->w), n.u) < 1e-5, "constant-control:" + w, VF_STR("t=" << t << " w=" << S(cd->w) << " equilibrium " << S(n.u)));
  }
  c.count("equilibria"); c.count("equilibria of " + w);
  c.sample("quasiStatic of " + w + " over " + k + " at x=" + S(x) + " returned " + S(u));
  c.maxi("largest gap", g);
  // numerically differentiated
  if (r.coin(0.2)) {
    auto nd = std::make_shared<cr::ActionModelNumDiff>(m);
    V u3 = r.vec(nu);
    nd->quasiStatic(nd->createData(), u3, x, 100, 1e-9);
    c.check(vf::relerr(u3, u) < 1e-7, "numdiff:" + w, VF_STR("wrapped " << S(u3) << " plain " << S(u)));
    c.count("numerically differentiated actions");
  }
  V bad(nu + 1); bad.setConstant(3.5);
  const V bc = bad;
  if (xform) { c.check(vf::throws([&] { m->quasiStatic(d, bad, x); }) && bad == bc, "wrong-control-size:" + w); c.count("wrong sizes rejected"); }
  else if (r.coin(0.5)) { V bx = V::Zero(x.size() + 1), u4 = u; c.check(vf::throws([&] { m->quasiStatic(d, u4, bx); }) && u4 == u, "wrong-state-size:" + w); c.count("wrong sizes rejected"); }
}
// Problems: node by node, states and node order; a posture is held by the rollout
VF_SCENARIO(problem, 2500, 100000) {
  const bool flat = r.coin(0.6);
  StateP s = flat ? StateP(std::make_shared<cr::StateVector>(2 * r.irange(1, 3))) : StateP(std::make_shared<StateSO3>(r.irange(0, 1)));
  const int nv = int(s->get_nv()), T = r.irange(1, 7);
  Problem p;
  p.state = s;
  std::vector<DiffP> diffs;
  for (int i = 0; i < T; ++i) {
    if (i && r.coin(0.3)) { const int j = r.irange(0, i - 1); p.models.push_back(p.models[j]); diffs.push_back(diffs[j]); continue; }
    if (r.coin(0.15)) {
      ActOpt o; o.nu = r.pick({0, 0, int(s->get_ndx()) + 1}); o.autonomous = o.nu == 0; o.nonlin = 0.1; o.lin = 0.6;
      p.models.push_back(std::make_shared<ActNL>(r, s, o)); diffs.push_back(nullptr);
      continue;
    }
    DiffP d;
    if (flat && r.coin()) d = random_difflqr(r, nv, nv + r.irange(0, 1));
    else { ActOpt o; o.nu = nv + r.irange(0, 1); o.nonlin = 0.15; o.lin = 0.7; d = std::make_shared<DiffNL>(r, s, o); }
    const int ck = r.irange(0, 3);
    p.models.push_back(make_integrated(d, make_control(ck, int(d->get_nu())), r.pick({0, 2, 3, 4}), r.pick({0.01, 0.05}), r.coin()));
    diffs.push_back(d);
  }
  ActOpt to; to.nu = 0;
  p.terminal = std::make_shared<ActNL>(r, s, to);
  const bool constant = r.coin();
  VV xs;
  for (int i = 0; i < T; ++i) xs.push_back(i && constant ? xs[0] : still_x(r, s));
  p.x0 = xs[0];
  p.prob = build(p);
  const VV xc = xs;
  // reference: each node alone, own data
  VV ref, start;
  bool all = true;
  for (int i = 0; i < T; ++i) {
    const int nu = int(p.models[i]->get_nu());
    start.push_back(diffs[i] || r.coin() ? V(V::Zero(nu)) : r.vec(nu, 0.3));
    ref.push_back(start[i]);
    p.models[i]->quasiStatic(p.models[i]->createData(), ref[i], xs[i], 100, 1e-9);
  }
  VV us = start;
  const bool xform = r.coin(0.4);
  if (xform) {
    us = p.prob->quasiStatic_xs(xs);
    for (int i = 0; i < T; ++i) if (!diffs[i]) ref[i] = p.models[i]->quasiStatic_x(p.models[i]->createData(), xs[i], 100, 1e-9);
  } else p.prob->quasiStatic(us, xs);
  c.check(int(us.size()) == T, "problem:size");
  for (int i = 0; i < T; ++i) {
    c.check(xs[i] == xc[i], "problem:states-changed");
    c.check(us[i].size() == ref[i].size() && (us[i].size() == 0 || vf::relerr(us[i], ref[i]) < 1e-7), "problem:node", VF_STR("node " << i << " of " << T << ": " << S(us[i]) << " alone " << S(ref[i])));
    c.count("nodes compared");
    if (us[i].size() == 0) { c.count("nodes without controls"); all = false; continue; }
    const Newton n = diffs[i] ? diff_newton(diffs[i], xs[i], V::Zero(diffs[i]->get_nu())) : act_newton(p.models[i], xs[i], xform ? V(V::Zero(us[i].size())) : start[i]);
    if (!tame(n) || n.res > 1e-8) { all = false; continue; }
    const double g = vf::amax(act_gap(p.models[i], xs[i], us[i]));
    c.check(g < 1e-6, "problem:holds", VF_STR("node " << i << " gap " << g));
    c.count("nodes held");
  }
  c.sig(std::to_string(T) + (constant ? "k" : "v") + (xform ? "x" : "u") + (all ? "h" : "-") + std::to_string(s->get_ndx()));
  if (constant && all) {
    VV out = p.prob->rollout_us(us);
    double e = 0;
    V dx(s->get_ndx());
    for (auto& o : out) { s->diff(xs[0], o, dx); e = std::max(e, vf::amax(dx)); }
    c.check(e < 1e-4, "problem:posture", VF_STR("drift " << e << " over " << T << " nodes"));
    c.count("postures held");
    if (T > 2) c.count("postures held over several nodes");
  }
  // the problem is otherwise usable as before
  VV wrong = xs; wrong.push_back(xs.back());
  VV keep = us;
  c.check(vf::throws([&] { p.prob->quasiStatic(keep, wrong); }) && keep.size() == us.size(), "problem:states-size");
  VV short_us(us.begin(), us.end() - 1);
  c.check(vf::throws([&] { p.prob->quasiStatic(short_us, xs); }), "problem:controls-size");
  c.check(vf::throws([&] { p.prob->quasiStatic_xs(wrong); }), "problem:states-size-xs");
  c.count("wrong sizes rejected", 3);
}
VF_MAIN("C32")
