// C09: BoxQP returns the KKT point of the box-constrained QP
#include "gen.hpp"
#include "crocoddyl/core/solvers/box-qp.hpp"
using namespace gen;
using vf::Ctx;
static const double INF = std::numeric_limits<double>::infinity();

struct QP { M H; V q, lb, ub; std::string kind; double L, cond; };

// eigenvalues log-spread over [scale/cond, scale]
static QP make_qp(Rng& r, int n, double cond) {
  QP p;
  const double sc = r.logu(0.05, 20);
  M Q = Eigen::HouseholderQR<M>(r.mat(n, n)).householderQ();
  V e(n);
  for (int i = 0; i < n; ++i) e[i] = sc * std::pow(cond, -(n > 1 ? double(i) / (n - 1) : 0.));
  p.H = Q * e.asDiagonal() * Q.transpose();
  p.H = (0.5 * (p.H + p.H.transpose())).eval();
  p.L = sc; p.cond = cond;
  const V xs = r.vec(n, 2);  // unconstrained minimiser
  p.q = -p.H * xs;
  p.lb.resize(n); p.ub.resize(n);
  const int style = r.irange(0, 5);
  for (int i = 0; i < n; ++i) {
    const int k = style == 5 ? r.irange(0, 4) : style;
    double a = r.uni(-2, 2), b = r.uni(-2, 2);
    switch (k) {
      case 0: p.lb[i] = -INF; p.ub[i] = INF; break;
      case 1: p.lb[i] = std::min(a, b); p.ub[i] = std::max(a, b); break;
      case 2: p.lb[i] = a; p.ub[i] = INF; break;
      case 3: p.lb[i] = -INF; p.ub[i] = a; break;
      default: p.lb[i] = p.ub[i] = a; break;
    }
    p.kind += "UBLHE"[k];
  }
  return p;
}
static V kkt_residual(const QP& p, const V& x) {
  const V g = p.H * x + p.q;
  V res(x.size());
  for (int i = 0; i < x.size(); ++i) {
    const double t = x[i] - g[i] / p.L;
    res[i] = (x[i] - std::max(std::min(t, p.ub[i]), p.lb[i])) * p.L;
  }
  return res;
}
// independent solver: exact active-set enumeration (n <= 8)
static bool enumerate(const QP& p, V* best, double* gap) {
  const int n = int(p.q.size());
  int N = 1;
  for (int i = 0; i < n; ++i) N *= 3;
  double bv = INF;
  for (int m = 0; m < N; ++m) {
    int k = m;
    std::vector<int> f;
    V x(n);
    bool ok = true;
    for (int i = 0; i < n; ++i, k /= 3) {
      const int a = k % 3;
      if (a == 0) { f.push_back(i); x[i] = 0; }
      else { x[i] = a == 1 ? p.lb[i] : p.ub[i]; if (!std::isfinite(x[i])) ok = false; }
    }
    if (!ok) continue;
    const int nf = int(f.size());
    if (nf) {
      M h(nf, nf); V b(nf);
      const V hx = p.H * x;
      for (int i = 0; i < nf; ++i) { b[i] = -p.q[f[i]] - hx[f[i]]; for (int j = 0; j < nf; ++j) h(i, j) = p.H(f[i], f[j]); }
      const V s = h.ldlt().solve(b);
      for (int i = 0; i < nf; ++i) x[f[i]] = s[i];
    }
    for (int i = 0; i < n; ++i) if (x[i] < p.lb[i] - 1e-9 || x[i] > p.ub[i] + 1e-9) ok = false;
    if (!ok) continue;
    const double v = 0.5 * x.dot(p.H * x) + p.q.dot(x);
    if (v < bv) { bv = v; *best = x; }
  }
  *gap = bv;
  return std::isfinite(bv);
}
static void verify(Ctx& c, const QP& p, const cr::BoxQPSolution& s, double reg, double tol) {
  const int n = int(p.q.size());
  const V& x = s.x;
  if (!c.check(x.size() == n && vf::finite(x), "solution:finite")) return;
  // the regularised problem is the one solved: its gradient differs by reg*x
  const double tol_kkt = tol + 2 * reg * (1 + vf::amax(x)) / p.L;
  double viol = 0;
  for (int i = 0; i < n; ++i) viol = std::max(viol, std::max(p.lb[i] - x[i], x[i] - p.ub[i]));
  c.check(viol <= 0, "solution:outside-box", VF_STR(viol << " kind " << p.kind));
  const V kr = kkt_residual(p, x);
  c.maxi("kkt residual / scale", vf::amax(kr) / p.L);
  c.check(vf::amax(kr) <= tol_kkt * p.L, "solution:kkt", VF_STR("residual " << vf::amax(kr) << " cond " << p.cond << " L " << p.L << " kind " << p.kind));
  // partition
  std::vector<int> seen(n, 0);
  bool ok = true;
  for (size_t i : s.free_idx) { if (i < size_t(n)) seen[i]++; else ok = false; }
  for (size_t i : s.clamped_idx) { if (i < size_t(n)) seen[i] += 1; else ok = false; }
  for (int k : seen) ok = ok && k == 1;
  c.check(ok, "partition:not-a-partition");
  if (!ok) return;
  const V g = p.H * x + p.q;
  for (size_t i : s.clamped_idx) {
    c.check(x[i] == p.lb[i] || x[i] == p.ub[i], "partition:clamped-not-at-bound", VF_STR("i " << i));
    c.check((x[i] == p.lb[i] && g[i] > -tol_kkt * p.L) || (x[i] == p.ub[i] && g[i] < tol_kkt * p.L), "partition:clamped-wrong-sign");
  }
  for (size_t i : s.free_idx)
    c.check(std::abs(g[i]) <= tol_kkt * p.L * 2, "partition:free-gradient", VF_STR("i " << i << " g " << g[i]));
  const int nf = int(s.free_idx.size());
  if (c.check(s.Hff_inv.rows() == nf && s.Hff_inv.cols() == nf, "Hff_inv:size") && nf) {
    M h(nf, nf);
    for (int i = 0; i < nf; ++i) for (int j = 0; j < nf; ++j) h(i, j) = p.H(s.free_idx[i], s.free_idx[j]);
    h.diagonal().array() += reg;
    const double e = vf::amax(M(h * s.Hff_inv - M::Identity(nf, nf)));
    c.check(e < 1e-12 * p.cond * 100 + 1e-10, "Hff_inv:not-inverse", VF_STR(e << " cond " << p.cond));
    c.check(vf::relerr(s.Hff_inv, M(s.Hff_inv.transpose())) < 1e-9, "Hff_inv:symmetric");
  }
  c.count("free variables seen", nf);
  c.count("clamped variables seen", s.clamped_idx.size());
}
VF_SCENARIO(well_conditioned, 40000, 2000000) {
  const int n = r.irange(1, 12);
  QP p = make_qp(r, n, r.logu(1, 100));
  const double reg = r.pick({0., 1e-9, 1e-9, 1e-6});
  cr::BoxQP qp(n, 100, 0.1, 1e-9, reg);
  V x0 = r.vec(n, r.pick({0., 1., 10.}));
  const cr::BoxQPSolution& s = qp.solve(p.H, p.q, p.lb, p.ub, x0);
  verify(c, p, s, reg, 1e-6);
  c.sig(VF_STR(n << p.kind << s.free_idx.size()));
  if (c.index < 3) c.sample(VF_STR("n=" << n << " bounds " << p.kind << " free " << s.free_idx.size()));
  c.check(vf::same(qp.get_solution().x, s.x), "get_solution");
  c.count("QPs");
}
VF_SCENARIO(ill_conditioned, 25000, 1500000) {
  const int n = r.irange(2, 12);
  QP p = make_qp(r, n, r.logu(100, 1e6));
  cr::BoxQP qp(n, 200000, 0.1, 1e-9, 1e-9);
  const cr::BoxQPSolution& s = qp.solve(p.H, p.q, p.lb, p.ub, r.vec(n, 3));
  verify(c, p, s, 1e-9, 1e-4);
  c.sig(VF_STR("ill" << n << p.kind << s.free_idx.size()));
  c.count("ill-conditioned QPs");
}
VF_SCENARIO(exact, 10000, 300000) {
  const int n = r.irange(1, 5);
  QP p = make_qp(r, n, r.logu(1, 1000));
  cr::BoxQP qp(n, 100, 0.1, 1e-9, 0.);
  const V x = qp.solve(p.H, p.q, p.lb, p.ub, r.vec(n, 3)).x;
  V best; double v;
  if (!c.check(enumerate(p, &best, &v), "harness:no-optimum")) return;
  const double fx = 0.5 * x.dot(p.H * x) + p.q.dot(x);
  c.check(fx <= v + 1e-8 * p.L * (1 + std::abs(v)), "exact:value", VF_STR(fx << " vs " << v << " " << p.kind));
  c.check(vf::amax(V(x - best)) < 1e-6 * p.cond, "exact:argmin", VF_STR(vf::amax(V(x - best)) << " cond " << p.cond));
  c.sig(VF_STR("ex" << n << p.kind));
  c.count("QPs compared with enumeration");
}
// same object reused, resized, with other settings: nothing carried over
VF_SCENARIO(reuse, 7000, 400000) {
  int n = r.irange(1, 8);
  const double reg = r.pick({0., 1e-9, 1e-4});
  cr::BoxQP qp(n, 100, 0.1, 1e-9, reg);
  std::string h;
  for (int k = 0; k < 5; ++k) {
    if (k && r.coin(0.4)) { n = r.irange(1, 9); qp.set_nx(n); h += VF_STR("n" << n); c.check(qp.get_nx() == size_t(n), "set_nx"); }
    QP p = make_qp(r, n, r.logu(1, 100));
    if (r.coin(0.15)) {
      M bad = -M::Identity(n, n);
      vf::throws([&] { qp.solve(bad, p.q, p.lb, p.ub, V::Zero(n)); });
      h += "x"; c.count("indefinite QPs in between");
    }
    const V x0 = r.vec(n, 3);
    const M H = p.H; const V q = p.q, lb = p.lb, ub = p.ub, x0c = x0;
    const cr::BoxQPSolution s = qp.solve(p.H, p.q, p.lb, p.ub, x0);
    cr::BoxQP fresh(n, 100, 0.1, 1e-9, reg);
    const cr::BoxQPSolution f = fresh.solve(p.H, p.q, p.lb, p.ub, x0);
    c.check(vf::same(s.x, f.x) && s.free_idx == f.free_idx && s.clamped_idx == f.clamped_idx && vf::same(s.Hff_inv, f.Hff_inv), "reuse:differs-from-fresh", h);
    verify(c, p, s, reg, 1e-6);
    c.check(vf::same(H, p.H) && vf::same(q, p.q) && vf::same(lb, p.lb) && vf::same(ub, p.ub) && vf::same(x0, x0c), "reuse:inputs-changed");
    // warm start at the solution stays there
    const V xs = s.x;
    const V again = qp.solve(p.H, p.q, p.lb, p.ub, xs).x;
    c.check(vf::amax(V(again - xs)) <= 1e-6 + 4 * reg * (1 + vf::amax(xs)) * p.cond / p.L, "reuse:warm-start-moves", VF_STR(vf::amax(V(again - xs))));
    h += p.kind[0];
  }
  c.sig(h);
  c.count("solves after reuse", 5);
}
// settings: maxiter, other step lists; best-effort result stays in the box and never increases the objective
VF_SCENARIO(settings, 8000, 400000) {
  const int n = r.irange(1, 8);
  QP p = make_qp(r, n, r.logu(1, 1000));
  cr::BoxQP qp(n);
  const size_t mi = r.irange(1, 4);
  qp.set_maxiter(mi);
  if (r.coin()) qp.set_alphas({1., 0.7, 0.3, 0.05, 0.001});
  if (r.coin()) qp.set_th_acceptstep(r.uni(0.01, 0.4));
  const V x0 = r.vec(n, 3);
  V xp = x0;
  for (int i = 0; i < n; ++i) xp[i] = std::max(std::min(xp[i], p.ub[i]), p.lb[i]);
  double f0 = 0.5 * xp.dot(p.H * xp) + p.q.dot(xp);
  V x = x0;
  for (int k = 0; k < 6; ++k) {
    x = qp.solve(p.H, p.q, p.lb, p.ub, x).x;
    double viol = 0;
    for (int i = 0; i < n; ++i) viol = std::max(viol, std::max(p.lb[i] - x[i], x[i] - p.ub[i]));
    c.check(viol <= 0, "settings:outside-box");
    const double f = 0.5 * x.dot(p.H * x) + p.q.dot(x);
    c.check(f <= f0 + 1e-9 * p.L * (1 + std::abs(f0)), "settings:objective-increases", VF_STR(f << " after " << f0));
    f0 = f;
  }
  c.sig(VF_STR("set" << n << mi << p.kind));
  c.count("truncated solves", 6);
}
VF_MAIN("C09")
