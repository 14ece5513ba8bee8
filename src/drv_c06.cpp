// C06: the backward pass satisfies the (regularised, gap-corrected) Riccati recursion.
#include "solv.hpp"
using namespace solv;

static Problem problem(vf::Rng& r, int kind) {
  if (r.coin(0.2)) { std::string k; return mixed_problem(r, 1, 6, true, &k); }
  if (r.coin(0.15)) return lq_problem(r, 1, 6, 5, 4, true);
  ProbOpt o;
  o.varying_nu = true; o.numax = 4; o.nonlin = r.pick({0.2, 1.}); o.nonquad = r.pick({0., 1.});
  o.pauto = r.pick({0., 0.2});
  if (kind == INTRO) o.nh = r.irange(0, 2);
  Problem p = nl_problem(r, o);
  return p;
}
static double err(const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() ? (a.size() ? vf::relerr(a, b) : 0.) : 1e300; }

// compares everything the solver exposes with the reference recursion
static void compare(vf::Ctx& c, const Problem& p, cr::SolverDDP& s, const VV& xs, const VV& us, bool feas, double preg, int kind, bool limits, const std::string& at) {
  const std::string who = name(kind);
  Given g;
  g.k = s.get_k(); g.Qu = s.get_Qu();
  for (auto& K : s.get_K()) g.K.push_back(K);
  const Riccati R = riccati(p, xs, us, feas, preg, kind == INTRO, &g, limits);
  if (!R.pd || R.rcond < 1e-8) { c.count("ill-conditioned, skipped"); return; }
  const int T = int(p.models.size());
  const double tol = 1e-7;
  for (int t = T; t >= 0; --t) {
    const Stage& q = R.st[t];
    double e = 0;
#define WHERE(x) VF_STR(at << " t " << t << " of " << T << " error " << x << " feasible " << feas << " preg " << preg)
    e = err(s.get_Vx()[t], q.Vx);
    if (!c.check(e < tol, "Vx:" + who, WHERE(e))) return;
    e = err(s.get_Vxx()[t], q.Vxx);
    if (!c.check(e < tol, "Vxx:" + who, WHERE(e))) return;
    const M Vxx = s.get_Vxx()[t];
    c.check((Vxx - Vxx.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * std::max(1., vf::amax(Vxx)), "symmetry:" + who);
    if (t == T) continue;
    e = err(s.get_Qx()[t], q.Qx);
    if (!c.check(e < tol, "Qx:" + who, WHERE(e))) return;
    e = err(s.get_Qxx()[t], q.Qxx);
    if (!c.check(e < tol, "Qxx:" + who, WHERE(e))) return;
    if (!p.models[t]->get_nu()) { c.count("nodes without controls"); continue; }
    if (!q.limited) {
      e = err(s.get_Qu()[t], q.Qu);
      if (!c.check(e < tol, "Qu:" + who, WHERE(e))) return;
    }
    e = err(s.get_Quu()[t], q.Quu);
    if (!c.check(e < tol, "Quu:" + who, WHERE(e))) return;
    e = err(s.get_Qxu()[t], q.Qxu);
    if (!c.check(e < tol, "Qxu:" + who, WHERE(e))) return;
    e = err(s.get_k()[t], q.k);
    if (!c.check(e < tol, "k:" + who, WHERE(e))) return;
    e = err(s.get_K()[t], q.K);
    if (!c.check(e < tol, "K:" + who, WHERE(e))) return;
    c.count(q.limited ? "limited stages compared" : (kind == INTRO && p.models[t]->get_nh() ? "constrained stages compared" : "stages compared"));
  }
  c.count("recursions " + who);
  if (!feas) c.count("recursions with gaps");
  if (feas && norm_of(gaps(p, xs, us), false) > 1e-3) c.count("recursions with gaps ignored by a feasibility claim");
}

template <class S>
struct Watched : S {
  Watched(ProbP p, vf::Ctx& c, const Problem& pr, int k, bool l) : S(p), ctx(c), prob(pr), kind(k), limits(l) {}
  void computeDirection(const bool recalc) override {
    S::computeDirection(recalc);
    ctx.count("directions inside solves");
    compare(ctx, prob, *this, this->xs_, this->us_, this->is_feasible_, this->preg_, kind, limits, "iteration " + std::to_string(this->iter_));
  }
  vf::Ctx& ctx;
  Problem prob;
  int kind;
  bool limits;
};

// at arbitrary points
VF_SCENARIO(points, 4000, 100000) {
  vf::Quiet q;
  const int kind = r.irange(0, 4);
  Problem p = problem(r, kind);
  const bool limits = (kind == BOXDDP || kind == BOXFDDP) && r.coin();
  if (limits) for (auto& m : p.models) if (m->get_nu() && r.coin(0.6)) random_limits(r, m, 1);
  SolP b = make(kind, p.prob, r.irange(0, 2));
  auto s = std::dynamic_pointer_cast<cr::SolverDDP>(b);
  std::string sg = name(kind);
  for (int k = r.irange(1, 3); k > 0; --k) {
    const VV us = random_us(r, p, r.pick({0.3, 1.}));
    const bool dyn = r.coin(0.4);
    const VV xs = dyn ? rollout(p, us) : random_xs(r, p);
    const bool feas = dyn ? r.coin(0.7) : r.coin(0.15);
    s->setCandidate(xs, us, feas);
    bool recalc = true;
    for (int j = r.irange(1, 3); j > 0; --j) {  // changed regularisation without new derivatives
      const double preg = r.coin(0.1) ? NAN : r.coin(0.3) ? 0. : r.logu(1e-9, 1e3);
      s->set_preg(preg); s->set_dreg(preg);
      try {
        s->computeDirection(recalc);
      } catch (std::exception& e) {
        const Riccati R = riccati(p, xs, us, feas, preg, kind == INTRO);
        if (!limits) c.check(!R.pd || R.rcond < 1e-10 || (kind == INTRO), "refused:" + std::string(name(kind)), VF_STR("a positive definite problem was refused: " << e.what()));
        c.count("backward passes refused");
        recalc = false;
        continue;
      }
      compare(c, p, *s, xs, us, feas, preg, kind, limits, recalc ? "point" : "point, derivatives kept");
      c.count(recalc ? "new points" : "regularisation changes");
      recalc = false;
      if (c.failed()) return;
    }
    sg += dyn ? 'd' : 'g'; sg += feas ? 'f' : 'i';
  }
  sg += std::to_string(p.models.size()) + "," + std::to_string(p.state->get_ndx());
  for (auto& m : p.models) sg += char('0' + m->get_nu());
  c.sig(sg);
  if (c.index < 3) c.sample(sg);
}

// during real solves: the recursion belongs to the candidate of every iteration
template <class S>
static void solves(vf::Ctx& c, vf::Rng& r, int kind) {
  Problem p = problem(r, kind);
  const bool limits = (kind == BOXDDP || kind == BOXFDDP) && r.coin();
  if (limits) for (auto& m : p.models) if (m->get_nu() && r.coin(0.6)) random_limits(r, m, 1);
  Watched<S> s(p.prob, c, p, kind, limits);
  if (auto i = dynamic_cast<cr::SolverIntro*>(static_cast<cr::SolverAbstract*>(&s))) i->set_equality_solver(static_cast<cr::EqualitySolverType>(r.irange(0, 2)));
  for (int k = r.irange(1, 2); k > 0 && !c.failed(); --k) {
    Warm w = warm(r, p);
    s.solve(w.xs, w.us, r.irange(1, 8), w.feas, r.coin(0.6) ? NAN : r.logu(1e-9, 1e2));
    c.sig(std::string("solve") + name(kind) + w.kind + std::to_string(p.models.size()) + std::to_string(s.get_iter()));
  }
}
VF_SCENARIO(in_solves, 2000, 50000) {
  vf::Quiet q;
  const int kind = r.irange(0, 4);
  switch (kind) {
    case DDP: solves<cr::SolverDDP>(c, r, kind); break;
    case FDDP: solves<cr::SolverFDDP>(c, r, kind); break;
    case BOXDDP: solves<cr::SolverBoxDDP>(c, r, kind); break;
    case BOXFDDP: solves<cr::SolverBoxFDDP>(c, r, kind); break;
    default: solves<cr::SolverIntro>(c, r, kind); break;
  }
}

// SolverKKT: primal-dual direction of the linearised problem
VF_SCENARIO(kkt, 1000, 30000) {
  vf::Quiet q;
  ProbOpt o;
  o.varying_nu = true; o.nonlin = r.pick({0.2, 1.}); o.nonquad = r.pick({0., 1.});
  Problem p = r.coin(0.3) ? lq_problem(r, 1, 6, 5, 4, true) : nl_problem(r, o);
  cr::SolverKKT s(p.prob);
  for (int k = r.irange(1, 2); k > 0; --k) {
    const VV us = random_us(r, p), xs = random_xs(r, p);
    s.setCandidate(xs, us, false);
    s.computeDirection(true);
    std::vector<ActDP> d = derivs(p, xs, us);
    const VV f = gaps(p, xs, us);
    const int T = int(p.models.size());
    const auto &dx = s.get_dxs(), &du = s.get_dus(), &la = s.get_lambdas();
    double e = (dx[0] - f[0]).cwiseAbs().maxCoeff(), g = 0, sc = 1;
    for (auto& v : dx) sc = std::max(sc, vf::amax(v));
    for (auto& v : la) sc = std::max(sc, vf::amax(v));
    for (int t = 0; t < T; ++t) {
      e = std::max(e, (dx[t + 1] - d[t]->Fx * dx[t] - d[t]->Fu * du[t] - f[t + 1]).cwiseAbs().maxCoeff());
      g = std::max(g, (d[t]->Lx + d[t]->Lxx * dx[t] + d[t]->Lxu * du[t] + la[t] - d[t]->Fx.transpose() * la[t + 1]).cwiseAbs().maxCoeff());
      if (du[t].size()) g = std::max(g, (d[t]->Lu + d[t]->Luu * du[t] + d[t]->Lxu.transpose() * dx[t] - d[t]->Fu.transpose() * la[t + 1]).cwiseAbs().maxCoeff());
    }
    g = std::max(g, (d[T]->Lx + d[T]->Lxx * dx[T] + la[T]).cwiseAbs().maxCoeff());
    c.check(e < 1e-8 * sc, "linearised-dynamics:KKT", VF_STR("residual " << e << " scale " << sc));
    c.check(g < 1e-8 * sc, "stationarity:KKT", VF_STR("residual " << g << " scale " << sc));
    c.count("recursions KKT");
    c.sig("kkt" + std::to_string(T) + std::to_string(p.state->get_ndx()) + std::to_string(p.models[0]->get_nu()));
  }
}
VF_MAIN("C06")
