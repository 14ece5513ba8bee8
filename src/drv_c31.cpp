// C31: friction cones, wrench cones and CoP supports describe the physical set.
// The oracle never looks at how the inequalities are laid out: it samples forces
// that do (or do not) satisfy Coulomb's law / come from pressure inside the
// support box, and watches what `lb <= A w <= ub` says about them.
#include <iostream>
#include "gen3.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
#include "crocoddyl/multibody/wrench-cone.hpp"
#include "crocoddyl/multibody/cop-support.hpp"

template class crocoddyl::FrictionConeTpl<double>;
template class crocoddyl::WrenchConeTpl<double>;
template class crocoddyl::CoPSupportTpl<double>;
template class crocoddyl::FrictionConeTpl<float>;
template class crocoddyl::WrenchConeTpl<float>;
template class crocoddyl::CoPSupportTpl<float>;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace vf;
using namespace crocoddyl;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;
static const double INF = std::numeric_limits<double>::infinity();

static V3 rvec(Rng& r) { return V3(r.normal(), r.normal(), r.normal()); }
static M3 rrot(Rng& r) {
  switch (r.irange(0, 5)) {
    case 0: return M3::Identity();
    case 1: {  // right-angle turns
      M3 R = M3::Identity();
      for (int i = 0, n = r.irange(1, 4); i < n; ++i)
        R = R * Eigen::AngleAxisd(M_PI_2, V3::Unit(r.irange(0, 2))).toRotationMatrix();
      return R;
    }
    case 2: return Eigen::AngleAxisd(r.logu(1e-8, 1e-2), rvec(r).normalized()).toRotationMatrix();
    default: {
      Eigen::Quaterniond q(r.normal(), r.normal(), r.normal(), r.normal());
      return q.normalized().toRotationMatrix();
    }
  }
}
static double rmu(Rng& r) { return r.coin(.1) ? 0. : r.coin(.3) ? r.uni(.9, 3.) : r.uni(.05, 1.); }
static std::size_t rnf(Rng& r) { return 2 * (std::size_t)r.irange(2, r.coin(.3) ? 32 : 8); }

// Does the set described by (A, lb, ub) contain w? -1 outside by more than tol,
// 1 inside by more than tol, 0 undecided, -2 NaN
template <class A, class B, class W>
int member(const A& a, const B& lb, const B& ub, const W& w, double tol) {
  auto y = (a * w).eval();
  int res = 1;
  for (long i = 0; i < y.size(); ++i) {
    const double v = (double)y[i], l = (double)lb[i], u = (double)ub[i];
    if (v != v || l != l || u != u) return -2;
    if (v < l - tol || v > u + tol) return -1;
    const double rn = (double)a.row(i).norm();
    if (rn > 0 && (v < l + tol || v > u - tol)) res = 0;
  }
  return res;
}
// the library's own consumer of the inequalities
template <class A, class B, class W>
double barrier(const A& a, const B& lb, const B& ub, const W& w) {
  ActivationModelQuadraticBarrier act(ActivationBounds(lb, ub));
  auto d = act.createData();
  Eigen::VectorXd y = a * w;
  act.calc(d, y);
  return d->a_value;
}

struct Lim { double lo, hi; };
static Lim rlim(Rng& r) {
  Lim l{0., INF};
  if (r.coin(.5)) l.lo = r.uni(0., 20.);
  if (r.coin(.5)) l.hi = l.lo + r.uni(1., 200.);
  return l;
}
static double fn_inside(Rng& r, const Lim& l) {
  const double hi = l.hi < INF ? l.hi : l.lo + r.logu(1., 1e3);
  return l.lo + (hi - l.lo) * r.uni(.02, .98);
}

struct FP {
  M3 R; double mu; std::size_t nf; bool in; Lim l;
};
static FP rfp(Rng& r) { FP p; p.R = rrot(r); p.mu = rmu(r); p.nf = rnf(r); p.in = r.coin(.5); p.l = rlim(r); return p; }

// All the judgements on one friction cone that should describe parameters p.
template <class Cone>
void judge_friction(Ctx& c, Rng& r, const Cone& cone, const FP& p, const char* how) {
  typedef typename Cone::Scalar S;
  const double eps = sizeof(S) == 4 ? 2e-4 : 1e-9;
  const std::string H = how;
  const double th = 2 * M_PI / p.nf, ap = p.in ? p.mu * std::cos(th / 2) : p.mu, ver = ap / std::cos(th / 2);
  auto& A = cone.get_A(); auto& lb = cone.get_lb(); auto& ub = cone.get_ub();
  if (!c.check(cone.get_nf() == p.nf && (std::size_t)A.rows() == p.nf + 1 && lb.size() == A.rows() && ub.size() == A.rows(), "friction:size:" + H,
               VF_STR("nf " << cone.get_nf() << " expected " << p.nf << " rows " << A.rows()))) return;
  auto force = [&](double t, double phi, double fn) -> Eigen::Matrix<S, 3, 1> {
    return (p.R * V3(t * std::cos(phi), t * std::sin(phi), fn)).template cast<S>();
  };
  auto say = [&](double t, double phi, double fn, double tol) { return member(A, lb, ub, force(t, phi, fn), tol); };
  for (int k = 0; k < 24; ++k) {
    const double phi = r.coin(.3) ? th * .5 * r.irange(0, 2 * (int)p.nf) : r.uni(-M_PI, M_PI);
    const double fn = fn_inside(r, p.l), sc = eps * (1 + fn);
    // inside the inscribed circular cone: always accepted
    int m = say(ap * fn * r.uni(0., .999), phi, fn, sc);
    c.count("friction_inside");
    c.check(m >= 0, "friction:rejects-inside:" + H, VF_STR("mu " << p.mu << " nf " << p.nf << " inner " << p.in << " fn " << fn << " phi " << phi << " R\n" << p.R));
    // outside the circumscribed circular cone: never accepted
    double t = ver * fn * r.uni(1.001, 1.5) + 1e-3 * fn + 100 * sc;
    m = say(t, phi, fn, sc * .1);
    c.count("friction_outside");
    c.check(m < 0 && m != -2, "friction:accepts-outside:" + H, VF_STR("mu " << p.mu << " nf " << p.nf << " inner " << p.in << " t/fn " << t / fn << " phi " << phi));
    // the inner approximation accepts nothing beyond the nominal cone, the
    // outer one rejects nothing within it
    if (p.in) {
      m = say(p.mu * fn * 1.002 + 100 * sc, phi, fn, sc * .1);
      c.check(m < 0, "friction:inner-exceeds-nominal:" + H, VF_STR("mu " << p.mu << " nf " << p.nf << " phi " << phi));
    } else {
      m = say(p.mu * fn * .999, phi, fn, sc);
      c.check(m >= 0, "friction:outer-misses-nominal:" + H, VF_STR("mu " << p.mu << " nf " << p.nf << " phi " << phi));
    }
    // normal force limits, on the axis of the cone
    c.count("friction_normal");
    double f = p.l.lo - 100 * eps * (1 + p.l.lo) - r.logu(1e-2, 10.);
    m = say(0, 0, f, eps);
    // below zero the facets speak, as long as there is friction
    if (f > 0 || p.l.lo > 0 || p.mu > .01 || true)
      c.check(m < 0, "friction:accepts-below-min:" + H, VF_STR("fn " << f << " min " << p.l.lo));
    if (p.l.hi < INF) {
      f = p.l.hi * (1 + 100 * eps) + r.logu(1e-2, 10.);
      c.check(say(0, 0, f, eps) < 0, "friction:accepts-above-max:" + H, VF_STR("fn " << f << " max " << p.l.hi));
    } else
      c.check(say(0, 0, 1e6, eps * 1e6) >= 0, "friction:rejects-large-force:" + H, VF_STR("mu " << p.mu));
  }
  if (p.mu < .01) return;
  // boundary of the pyramid at unit normal force: a regular polygon with nf sides
  auto radius = [&](double phi) {
    V3 d = p.R * V3(std::cos(phi), std::sin(phi), 0), n = p.R.col(2);
    double best = INF;
    for (long i = 0; i < A.rows(); ++i) {
      V3 a = A.row(i).transpose().template cast<double>();
      if ((double)ub[i] != 0. || (double)lb[i] > -INF) continue;
      const double ad = a.dot(d), an = a.dot(n);
      if (ad > 1e-4) best = std::min(best, -an / ad);
    }
    return best;
  };
  double lo = INF, hi = 0;
  const int N = 24 * (int)p.nf;
  std::vector<double> rad(N);
  for (int i = 0; i < N; ++i) rad[i] = radius(2 * M_PI * i / N), lo = std::min(lo, rad[i]), hi = std::max(hi, rad[i]);
  c.count("friction_polygon");
  const double te = sizeof(S) == 4 ? 1e-4 : 1e-9;
  c.check(std::abs(lo - ap) <= te + 2e-2 * ap && lo >= ap - te, "friction:apothem:" + H, VF_STR("got " << lo << " expected " << ap << " nf " << p.nf));
  c.check(hi <= ver + te && hi >= ver * .98 - te, "friction:vertex:" + H, VF_STR("got " << hi << " expected " << ver << " nf " << p.nf));
  for (int i = 0; i < N; ++i)
    if (!c.check(std::abs(rad[i] - rad[(i + 24) % N]) <= 10 * te * (1 + p.mu), "friction:not-regular:" + H, VF_STR("nf " << p.nf << " angle " << i))) break;
}

template <class A, class B> bool same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (long i = 0; i < a.rows(); ++i)
    for (long j = 0; j < a.cols(); ++j)
      if (!(a(i, j) == b(i, j))) return false;
  return true;
}

VF_SCENARIO(friction, 400, 6000) {
  Quiet q;
  FP p = rfp(r);
  c.sig(VF_STR("friction nf" << p.nf << " in" << p.in << " mu" << (p.mu == 0 ? 0 : p.mu > 1 ? 2 : 1) << " lim" << (p.l.lo > 0) << (p.l.hi < INF)).operator std::string());
  std::size_t asked = p.nf;
  if (r.coin(.08)) asked = 2 * (std::size_t)r.irange(0, 8) + 1, p.nf = 4;  // odd number of facets
  FrictionCone cone(p.R, p.mu, asked, p.in, p.l.lo, p.l.hi);
  judge_friction(c, r, cone, p, "ctor");
  // the library's own barrier agrees
  for (int k = 0; k < 6; ++k) {
    const double fn = fn_inside(r, p.l), th = 2 * M_PI / p.nf, ap = p.in ? p.mu * std::cos(th / 2) : p.mu, phi = r.uni(-3, 3);
    double b = barrier(cone.get_A(), cone.get_lb(), cone.get_ub(), (p.R * V3(.99 * ap * fn * std::cos(phi), .99 * ap * fn * std::sin(phi), fn)).eval());
    c.check(std::abs(b) < 1e-12, "friction:barrier-inside", VF_STR("cost " << b));
    const double t = ap / std::cos(th / 2) * fn * 1.05 + .1;
    b = barrier(cone.get_A(), cone.get_lb(), cone.get_ub(), (p.R * V3(t * std::cos(phi), t * std::sin(phi), fn)).eval());
    c.check(b > 0 && std::isfinite(b), "friction:barrier-outside", VF_STR("cost " << b));
    c.count("barrier");
  }
  FrictionCone cp(cone), as;
  as = cone;
  for (auto* o : {&cp, &as})
    c.check(same(o->get_A(), cone.get_A()) && same(o->get_lb(), cone.get_lb()) && same(o->get_ub(), cone.get_ub()) && o->get_nf() == cone.get_nf() && o->get_mu() == cone.get_mu() && o->get_inner_appr() == cone.get_inner_appr() && o->get_min_nforce() == cone.get_min_nforce() && o->get_max_nforce() == cone.get_max_nforce() && same(o->get_R(), cone.get_R()), "friction:copy", VF_STR(cone));
  cp.update(), as.update();
  judge_friction(c, r, r.coin() ? cp : as, p, "copy");
  FrictionConeTpl<float> f = cone.cast<float>();
  judge_friction(c, r, f, p, "float");
}

VF_SCENARIO(friction_default, 1, 4) {
  FP p{M3::Identity(), .7, 4, true, Lim{0, INF}};
  judge_friction(c, r, FrictionCone(), p, "default");
  c.sig("friction default");
}

VF_SCENARIO(friction_updates, 300, 4000) {
  Quiet q;
  FP p = rfp(r);
  FrictionCone cone = r.coin(.3) ? FrictionCone() : FrictionCone(p.R, p.mu, p.nf, p.in, p.l.lo, p.l.hi);
  p.R = cone.get_R(), p.mu = cone.get_mu(), p.nf = cone.get_nf(), p.in = cone.get_inner_appr();
  p.l.lo = cone.get_min_nforce(), p.l.hi = cone.get_max_nforce();
  std::string trace;
  for (int s = 0, n = r.irange(1, 6); s < n; ++s) {
    const int op = r.irange(0, 6);
    FP w = rfp(r);
    switch (op) {
      case 0: cone.set_R(w.R), p.R = w.R; break;
      case 1: {
        V3 nrm = rvec(r).normalized();
        if (r.coin(.2)) nrm = V3::Unit(r.irange(0, 2)) * (r.coin() ? 1 : -1);
        const double k = r.coin(.3) ? r.uni(.2, 5.) : 1.;
        cone.set_nsurf(k * nrm);
        c.check((cone.get_nsurf() - nrm).norm() < 1e-9, "friction:nsurf", VF_STR("set " << nrm.transpose() << " got " << cone.get_nsurf().transpose()));
        p.R = cone.get_R();
        // only the normal is prescribed; the tangents are free
        c.check((p.R.col(2) - nrm).norm() < 1e-9, "friction:nsurf-orientation", VF_STR("set " << nrm.transpose() << " R\n" << p.R));
        c.count("set_nsurf");
        break;
      }
      case 2:
        if (r.coin(.15)) cone.set_mu(-r.uni(.01, 2.)), p.mu = 1.;
        else cone.set_mu(w.mu), p.mu = w.mu;
        break;
      case 3: cone.set_inner_appr(w.in), p.in = w.in; break;
      case 4:
        if (r.coin(.15)) cone.set_min_nforce(-r.uni(.01, 2.)), w.l.lo = 0;
        else cone.set_min_nforce(w.l.lo);
        p.l.lo = w.l.lo;
        if (p.l.hi < p.l.lo + 1) p.l.hi = p.l.lo + 10, cone.set_max_nforce(p.l.hi);
        break;
      case 5:
        if (r.coin(.15)) cone.set_max_nforce(-r.uni(.01, 2.)), p.l.hi = INF;
        else if (w.l.hi > p.l.lo + 1) cone.set_max_nforce(w.l.hi), p.l.hi = w.l.hi;
        break;
      case 6: {
        V3 nrm = rvec(r).normalized();
        cone.update(nrm * (r.coin(.3) ? r.uni(.2, 5.) : 1.), w.mu, w.in, w.l.lo, w.l.hi);
        p.R = cone.get_R();
        c.check((p.R.col(2) - nrm).norm() < 1e-9, "friction:update-normal", VF_STR("normal " << nrm.transpose() << " R\n" << p.R));
        p.mu = w.mu, p.in = w.in, p.l = w.l;
        judge_friction(c, r, cone, p, "update-normal");
        c.count("update_normal");
        break;
      }
    }
    trace += char('0' + op);
    c.count("friction_updates");
  }
  if (r.coin()) cone.update(), judge_friction(c, r, cone, p, "updated");
  else {
    FrictionCone cp(cone);
    cp.update();
    judge_friction(c, r, cp, p, "updated-copy");
  }
  c.check(cone.get_mu() == p.mu && cone.get_min_nforce() == p.l.lo && cone.get_max_nforce() == p.l.hi && cone.get_inner_appr() == p.in, "friction:getters", VF_STR(cone));
  c.sig("friction-updates " + trace);
}

// ---------------------------------------------------------------- wrenches --
// min |G x - w|, x >= 0 (Lawson-Hanson)
static double nnls(const Eigen::MatrixXd& G, const Eigen::VectorXd& w) {
  const long n = G.cols();
  Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
  std::vector<char> P(n, 0);
  const double tol = 1e-11 * G.norm() * (1e-300 + w.norm());
  for (int it = 0; it < 60 * n; ++it) {
    Eigen::VectorXd g = G.transpose() * (w - G * x);
    long best = -1;
    for (long i = 0; i < n; ++i) if (!P[i] && g[i] > tol && (best < 0 || g[i] > g[best])) best = i;
    if (best < 0) break;
    P[best] = 1;
    for (int in = 0; in < 60 * n; ++in) {
      std::vector<long> id;
      for (long i = 0; i < n; ++i) if (P[i]) id.push_back(i);
      Eigen::MatrixXd Gp(G.rows(), id.size());
      for (std::size_t i = 0; i < id.size(); ++i) Gp.col(i) = G.col(id[i]);
      Eigen::VectorXd s = Gp.completeOrthogonalDecomposition().solve(w);
      double al = 1;
      bool neg = false;
      for (std::size_t i = 0; i < id.size(); ++i)
        if (s[i] <= 0) neg = true, al = std::min(al, x[id[i]] / std::max(1e-300, x[id[i]] - s[i]));
      if (!neg) {
        x.setZero();
        for (std::size_t i = 0; i < id.size(); ++i) x[id[i]] = s[i];
        break;
      }
      for (std::size_t i = 0; i < id.size(); ++i) {
        x[id[i]] += al * (s[i] - x[id[i]]);
        if (x[id[i]] <= 1e-13 * (1 + w.norm())) x[id[i]] = 0, P[id[i]] = 0;
      }
    }
  }
  return (G * x - w).norm();
}

struct WP { FP f; V2 box; };
static WP rwp(Rng& r) {
  WP p; p.f = rfp(r);
  p.box = V2(r.logu(.02, 1.), r.logu(.02, 1.));
  if (r.coin(.1)) p.box[r.irange(0, 1)] = 0.;
  return p;
}
static V6 world(const M3& R, const V3& f, const V3& tau) { V6 w; w << R * f, R * tau; return w; }
static V3 cross(const V3& a, const V3& b) { return V3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }

template <class Cone>
void judge_wrench(Ctx& c, Rng& r, const Cone& cone, const WP& p, const char* how) {
  typedef typename Cone::Scalar S;
  const double eps = sizeof(S) == 4 ? 3e-4 : 1e-9;
  const std::string H = how;
  const std::size_t nf = p.f.nf;
  const double th = 2 * M_PI / nf, ap = p.f.in ? p.f.mu * std::cos(th / 2) : p.f.mu;
  auto& A = cone.get_A(); auto& lb = cone.get_lb(); auto& ub = cone.get_ub();
  if (!c.check(cone.get_nf() == nf && (std::size_t)A.rows() == nf + 13 && lb.size() == A.rows() && ub.size() == A.rows(), "wrench:size:" + H, VF_STR("nf " << cone.get_nf()))) return;
  const double X = p.box[0] / 2, Y = p.box[1] / 2;
  auto say = [&](const V3& f, const V3& t, double tol) { return member(A, lb, ub, world(p.f.R, f, t).template cast<S>().eval(), tol); };
  // corner forces, each within a square friction pyramid of half width ap and
  // (jointly) within the circle, to be also within the nf-gon
  for (int k = 0; k < 24; ++k) {
    const double fn = fn_inside(r, p.f.l);
    V3 f = V3::Zero(), tau = V3::Zero();
    double wsum = 0, wt[4];
    const bool corner = r.coin(.4);
    for (int i = 0; i < 4; ++i) wt[i] = corner ? r.coin(.5) * 1. : r.uni(0, 1), wsum += wt[i];
    if (wsum == 0) wt[r.irange(0, 3)] = wsum = 1;
    for (int i = 0; i < 4; ++i) {
      const double fz = fn * wt[i] / wsum;
      const double rho = ap * fz * (r.coin(.4) ? .999 : r.uni(0, 1)), phi = r.uni(-M_PI, M_PI);
      V3 fi(rho * std::cos(phi), rho * std::sin(phi), fz);
      if (nf == 4 && r.coin()) fi[0] = ap * fz * (r.coin() ? .999 : r.uni(-1, 1)) * (r.coin() ? 1 : -1), fi[1] = ap * fz * (r.coin() ? .999 : -.999);
      V3 pi((i & 1) ? X : -X, (i & 2) ? Y : -Y, 0);
      f += fi, tau += cross(pi, fi);
    }
    const double sc = eps * (1 + fn) * (1 + p.f.mu);
    int m = say(f, tau, sc);
    c.count("wrench_inside");
    c.check(m >= 0, "wrench:rejects-realisable:" + H, VF_STR("mu " << p.f.mu << " nf " << nf << " inner " << p.f.in << " box " << p.box.transpose() << " f " << f.transpose() << " tau " << tau.transpose() << " lim " << p.f.l.lo << " " << p.f.l.hi));
    // beyond the normal force limits
    if (p.f.l.hi < INF) c.check(say(V3(0, 0, p.f.l.hi * 1.01 + .1), V3::Zero(), eps) < 0, "wrench:accepts-above-max:" + H, VF_STR(p.f.l.hi));
    c.check(say(V3(0, 0, p.f.l.lo * .99 - .1), V3::Zero(), eps) < 0, "wrench:accepts-below-min:" + H, VF_STR(p.f.l.lo));
    // pure sliding beyond the circumscribed circle
    const double phi = r.uni(-M_PI, M_PI), t = ap / std::cos(th / 2) * fn * 1.01 + .01 * fn + 100 * sc;
    c.check(say(V3(t * std::cos(phi), t * std::sin(phi), fn), V3::Zero(), sc * .1) < 0, "wrench:accepts-sliding:" + H, VF_STR("t/fn " << t / fn << " mu " << p.f.mu));
    // centre of pressure outside of the box
    {
      V3 pc(r.uni(-1, 1) * X, r.uni(-1, 1) * Y, 0), fz(0, 0, fn);
      const int ax = r.irange(0, 1);
      pc[ax] = ((ax ? Y : X) * 1.01 + .01) * (r.coin() ? 1 : -1);
      c.check(say(fz, cross(pc, fz), sc * .1) < 0, "wrench:accepts-cop-outside:" + H, VF_STR("cop " << pc.transpose() << " box " << p.box.transpose()));
      pc = V3(r.uni(-.999, .999) * X, r.uni(-.999, .999) * Y, 0);
      c.check(say(fz, cross(pc, fz), sc) >= 0, "wrench:rejects-cop-inside:" + H, VF_STR("cop " << pc.transpose() << " box " << p.box.transpose()));
    }
    c.count("wrench_outside", 4);
  }
  // Soundness: everything accepted can be produced by forces at the corners
  // of the box within square friction pyramids.
  if (p.f.mu < 1e-3 || X == 0 || Y == 0) return;
  Eigen::MatrixXd G(6, 16);
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      V3 pi((i & 1) ? X : -X, (i & 2) ? Y : -Y, 0), fi((j & 1) ? ap : -ap, (j & 2) ? ap : -ap, 1);
      G.col(4 * i + j) << fi, cross(pi, fi);
    }
  long acc = 0, rej = 0;
  for (int k = 0; k < 60; ++k) {
    const double fn = fn_inside(r, p.f.l), a = r.pick(std::vector<double>{.2, .6, 1.});
    V3 f(a * ap * fn * r.uni(-1, 1), a * ap * fn * r.uni(-1, 1), fn);
    V3 tau(a * Y * fn * r.uni(-1, 1), a * X * fn * r.uni(-1, 1), a * ap * (X + Y) * fn * r.uni(-1, 1));
    const double sc = eps * fn;
    const int m = say(f, tau, 1e-3 * fn * std::min(1., std::min(X, Y)) * std::min(1., ap));
    if (m == 0) continue;
    Eigen::VectorXd w(6);
    w << f, tau;
    const double res = nnls(G, w);
    if (m > 0) {
      ++acc;
      c.check(res <= 10 * sc * (1 + p.f.mu), "wrench:accepts-unrealisable:" + H, VF_STR("distance " << res << " fn " << fn << " mu " << p.f.mu << " nf " << nf << " inner " << p.f.in << " box " << p.box.transpose() << " f " << f.transpose() << " tau " << tau.transpose()));
    } else if (nf == 4) {
      ++rej;
      c.check(res > 1e-6 * fn * std::min(1., std::min(X, Y)) * std::min(1., ap), "wrench:rejects-realisable-exact:" + H, VF_STR("distance " << res << " fn " << fn << " mu " << p.f.mu << " f " << f.transpose() << " tau " << tau.transpose()));
    }
  }
  c.count("wrench_nnls_accepted", acc), c.count("wrench_nnls_rejected", rej);
}

template <class Cop>
void judge_cop(Ctx& c, Rng& r, const Cop& cop, const M3& R, const V2& box, const char* how) {
  typedef typename Cop::Scalar S;
  const double eps = sizeof(S) == 4 ? 3e-4 : 1e-9;
  const std::string H = how;
  for (int k = 0; k < 24; ++k) {
    const double fn = r.logu(.1, 1e3), sc = eps * fn;
    // any force, applied at a point of the surface, plus any torque about the normal
    V3 f(r.normal() * fn, r.normal() * fn, fn);
    V3 in, out;
    const int ax = r.irange(0, 1);
    for (int i = 0; i < 2; ++i) {
      const double h = std::isfinite(box[i]) ? box[i] / 2 : r.logu(1., 1e4);
      in[i] = r.uni(-.999, .999) * h;
      out[i] = i == ax ? (h * 1.01 + .01) * (r.coin() ? 1 : -1) : in[i];
    }
    in[2] = out[2] = 0;
    const V3 tz(0, 0, r.normal() * fn);
    auto say = [&](const V3& pt, double tol) { return member(cop.get_A(), cop.get_lb(), cop.get_ub(), world(R, f, cross(pt, f) + tz).template cast<S>().eval(), tol); };
    c.count("cop_points", 2);
    double big = 1;
    for (int i = 0; i < 2; ++i) big = std::max(big, std::abs(in[i]));
    c.check(say(in, sc * big * 10) >= 0, "cop:rejects-inside:" + H, VF_STR("cop " << in.transpose() << " box " << box.transpose() << " A\n" << cop.get_A()));
    if (std::isfinite(box[ax]))
      c.check(say(out, sc) == -1, "cop:accepts-outside:" + H, VF_STR("cop " << out.transpose() << " box " << box.transpose() << " A\n" << cop.get_A()));
  }
}

VF_SCENARIO(wrench, 300, 4000) {
  Quiet q;
  WP p = rwp(r);
  if (r.coin(.5)) p.f.nf = 4;
  std::size_t asked = p.f.nf;
  if (r.coin(.08)) asked = 2 * (std::size_t)r.irange(0, 8) + 1, p.f.nf = 4;
  const bool dep = r.coin(.15);
  if (dep) p.f.in = true;
  WrenchCone cone = dep ? WrenchCone(p.f.R, p.f.mu, p.box, asked, p.f.l.lo, p.f.l.hi) : WrenchCone(p.f.R, p.f.mu, p.box, asked, p.f.in, p.f.l.lo, p.f.l.hi);
  judge_wrench(c, r, cone, p, "ctor");
  WrenchCone cp(cone), as;
  as = cone;
  for (auto* o : {&cp, &as})
    c.check(same(o->get_A(), cone.get_A()) && same(o->get_lb(), cone.get_lb()) && same(o->get_ub(), cone.get_ub()) && o->get_nf() == cone.get_nf() && o->get_mu() == cone.get_mu() && o->get_inner_appr() == cone.get_inner_appr() && o->get_min_nforce() == cone.get_min_nforce() && o->get_max_nforce() == cone.get_max_nforce() && same(o->get_R(), cone.get_R()) && same(o->get_box(), cone.get_box()), "wrench:copy", VF_STR(cone));
  cp.update(), as.update();
  judge_wrench(c, r, r.coin() ? cp : as, p, "copy");
  judge_wrench(c, r, cone.cast<float>(), p, "float");
  judge_cop(c, r, CoPSupport(cone), p.f.R, p.box, "from-wrench");
  for (int k = 0; k < 4; ++k) {
    const double fn = fn_inside(r, p.f.l);
    double b = barrier(cone.get_A(), cone.get_lb(), cone.get_ub(), world(p.f.R, V3(0, 0, fn), V3::Zero()));
    c.check(std::abs(b) < 1e-12, "wrench:barrier-inside", VF_STR("cost " << b));
    b = barrier(cone.get_A(), cone.get_lb(), cone.get_ub(), world(p.f.R, V3(0, 0, fn), V3(0, (p.box[0] + .1) * fn + .1, 0)));
    c.check(b > 0 && std::isfinite(b), "wrench:barrier-outside", VF_STR("cost " << b));
    c.count("barrier");
  }
  c.sig(VF_STR("wrench nf" << p.f.nf << " in" << p.f.in << " lim" << (p.f.l.lo > 0) << (p.f.l.hi < INF) << " box" << (p.box[0] == 0) << (p.box[1] == 0)).operator std::string());
}

VF_SCENARIO(wrench_updates, 200, 3000) {
  Quiet q;
  WP p = rwp(r);
  WrenchCone cone(p.f.R, p.f.mu, p.box, p.f.nf, p.f.in, p.f.l.lo, p.f.l.hi);
  std::string trace;
  for (int s = 0, n = r.irange(1, 6); s < n; ++s) {
    const int op = r.irange(0, 6);
    WP w = rwp(r);
    switch (op) {
      case 0: cone.set_R(w.f.R), p.f.R = w.f.R; break;
      case 1: cone.set_box(w.box), p.box = w.box; break;
      case 2:
        if (r.coin(.15)) cone.set_mu(-r.uni(.01, 2.)), p.f.mu = 1.;
        else cone.set_mu(w.f.mu), p.f.mu = w.f.mu;
        break;
      case 3: cone.set_inner_appr(w.f.in), p.f.in = w.f.in; break;
      case 4:
        if (r.coin(.15)) cone.set_min_nforce(-r.uni(.01, 2.)), w.f.l.lo = 0;
        else cone.set_min_nforce(w.f.l.lo);
        p.f.l.lo = w.f.l.lo;
        if (p.f.l.hi < p.f.l.lo + 1) p.f.l.hi = p.f.l.lo + 10, cone.set_max_nforce(p.f.l.hi);
        break;
      case 5:
        if (r.coin(.15)) cone.set_max_nforce(-r.uni(.01, 2.)), p.f.l.hi = INF;
        else if (w.f.l.hi > p.f.l.lo + 1) cone.set_max_nforce(w.f.l.hi), p.f.l.hi = w.f.l.hi;
        break;
      case 6:
        cone.update(w.f.R, w.f.mu, w.box, w.f.l.lo, w.f.l.hi);
        w.f.in = p.f.in, w.f.nf = p.f.nf, p = w;
        judge_wrench(c, r, cone, p, "update-args");
        break;
    }
    trace += char('0' + op);
    c.count("wrench_updates");
  }
  cone.update();
  judge_wrench(c, r, cone, p, "updated");
  c.sig("wrench-updates " + trace);
}

VF_SCENARIO(cop, 300, 4000) {
  Quiet q;
  V2 box(r.logu(.02, 1.), r.logu(.02, 1.));
  for (int i = 0; i < 2; ++i) if (r.coin(.1)) box[i] = 0; else if (r.coin(.15)) box[i] = INF;
  M3 R = rrot(r);
  CoPSupport cop(R, box);
  judge_cop(c, r, cop, R, box, "ctor");
  judge_cop(c, r, CoPSupport(cop), R, box, "copy");
  judge_cop(c, r, cop.cast<float>(), R, box, "float");
  for (int s = 0, n = r.irange(1, 4); s < n; ++s) {
    if (r.coin()) R = rrot(r), cop.set_R(R);
    else {
      V2 b(r.logu(.02, 1.), r.logu(.02, 1.));
      if (r.coin(.2)) b[r.irange(0, 1)] = 0;
      if (r.coin(.2)) b[r.irange(0, 1)] *= -1;  // warned about, and unbounded from then on
      cop.set_box(b);
      for (int i = 0; i < 2; ++i) box[i] = b[i] < 0 ? INF : b[i] + 0.;
    }
    c.count("cop_updates");
  }
  CoPSupport as;
  as = cop;
  c.check(same(as.get_A(), cop.get_A()) && same(as.get_lb(), cop.get_lb()) && same(as.get_ub(), cop.get_ub()) && same(as.get_R(), cop.get_R()) && same(as.get_box(), cop.get_box()), "cop:assign", VF_STR(cop));
  cop.update();
  judge_cop(c, r, cop, R, box, "updated");
  as.update();
  judge_cop(c, r, as, R, box, "assigned");
  c.sig(VF_STR("cop " << std::isfinite(box[0]) << std::isfinite(box[1]) << (box[0] == 0) << (box[1] == 0)).operator std::string());
}

// an unbounded support: friction and normal force still constrained
VF_SCENARIO(unbounded_support, 60, 600) {
  Quiet q;
  const bool def = r.coin(.2);
  FP p = rfp(r);
  V2 box(r.logu(.02, 1.), r.logu(.02, 1.));
  const int ax = r.irange(0, 2);
  if (ax == 0 || ax == 2) box[0] = INF;
  if (ax == 1 || ax == 2) box[1] = INF;
  WrenchCone cone;
  if (def) p = FP{M3::Identity(), .7, 4, true, Lim{0, INF}}, box = V2(INF, INF);
  else if (r.coin()) cone = WrenchCone(p.R, p.mu, box, p.nf, p.in, p.l.lo, p.l.hi);
  else {
    cone = WrenchCone(p.R, p.mu, V2(.1, .2), p.nf, p.in, p.l.lo, p.l.hi);
    V2 b = box;
    for (int i = 0; i < 2; ++i) if (!std::isfinite(b[i])) b[i] = -1;
    cone.set_box(b);
    cone.update();
  }
  const double th = 2 * M_PI / p.nf, ap = p.in ? p.mu * std::cos(th / 2) : p.mu;
  for (int k = 0; k < 20; ++k) {
    const double fn = fn_inside(r, p.l), phi = r.uni(-3, 3);
    auto say = [&](const V3& f, const V3& t, double tol) { return member(cone.get_A(), cone.get_lb(), cone.get_ub(), world(p.R, f, t), tol); };
    V3 f(.99 * ap * fn * std::cos(phi), .99 * ap * fn * std::sin(phi), fn), tau = V3::Zero();
    for (int i = 0; i < 2; ++i) tau[1 - i] = (std::isfinite(box[i]) ? r.uni(-.4, .4) * box[i] : r.normal() * 10) * fn;
    tau[2] = r.normal() * fn;
    c.check(say(f, tau, 1e-8 * fn) >= 0, "wrench:unbounded-rejects", VF_STR("box " << box.transpose() << " A\n" << cone.get_A()));
    f.head<2>() *= 1.05 / .99 / std::cos(th / 2), f[0] += .2 * fn * (std::cos(phi) > 0 ? 1 : -1);
    c.check(say(f, tau, 1e-8 * fn) == -1, "wrench:unbounded-accepts-sliding", VF_STR("box " << box.transpose()));
    for (int i = 0; i < 2; ++i)
      if (std::isfinite(box[i])) {
        V3 t = V3::Zero();
        t[1 - i] = (.51 * box[i] + .01) * fn;
        c.check(say(V3(0, 0, fn), t, 1e-8 * fn) == -1, "wrench:unbounded-accepts-cop", VF_STR("box " << box.transpose()));
      }
    c.count("unbounded");
  }
  if (def) judge_cop(c, r, CoPSupport(), M3::Identity(), box, "default");
  judge_cop(c, r, CoPSupport(cone), p.R, box, "from-wrench-unbounded");
  c.sig(VF_STR("unbounded " << ax << def).operator std::string());
}

VF_MAIN("C31")
