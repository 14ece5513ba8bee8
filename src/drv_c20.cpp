// C20: control parametrizations are consistent linear maps
#include "gen.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
using namespace gen;
using vf::Ctx;
typedef std::shared_ptr<cr::ControlParametrizationDataAbstract> CD;

static std::vector<double> nodes(int kind) {
  switch (kind) {
    case 0: return {0.};
    case 1: return {0., 0.5};
    case 2: return {0., 1. / 3, 2. / 3};
    default: return {0., 0.5, 1.};
  }
}
// Lagrange basis: the interpolating polynomial through the node values
static V basis(int kind, double t) {
  const std::vector<double> n = nodes(kind);
  V b(n.size());
  for (size_t i = 0; i < n.size(); ++i) {
    b[i] = 1;
    for (size_t j = 0; j < n.size(); ++j) if (j != i) b[i] *= (t - n[j]) / (n[i] - n[j]);
  }
  return b;
}
static M jac(int kind, int nw, double t) {
  const V b = basis(kind, t);
  M J = M::Zero(nw, nw * b.size());
  for (int k = 0; k < b.size(); ++k) J.middleCols(k * nw, nw).diagonal().setConstant(b[k]);
  return J;
}
static double any_time(Rng& r, int kind) {
  switch (r.irange(0, 4)) { case 0: return 0; case 1: return 1; case 2: return r.pick(nodes(kind)); default: return r.uni(); }
}
VF_SCENARIO(maps, 8000, 600000) {
  const int kind = r.irange(0, 3), nw = r.irange(1, 7);
  CtrlP m = make_control(kind, nw);
  const std::vector<double> nd = nodes(kind);
  const int nu = nw * int(nd.size());
  c.check(int(m->get_nw()) == nw && int(m->get_nu()) == nu, "dimensions");
  CD d = m->createData(), d2 = m->createData();
  c.sig(VF_STR(kind << "/" << nw << "/" << c.index % 97));
  for (int rep = 0; rep < 4; ++rep) {
    const double t = any_time(r, kind), t2 = any_time(r, kind), sc = r.pick({1., 1e-3, 1e3});
    const V u = r.vec(nu, sc), uc = u, u2 = r.vec(nu);
    const M J = jac(kind, nw, t);
    m->calc(d, t, u);
    if (r.coin()) { m->calc(d2, t2, u2); m->calcDiff(d2, t2, u2); }  // another data of the same model
    c.check(vf::amax(V(d->w - J * u)) <= 1e-12 * sc * 20, "calc:value", VF_STR("kind " << kind << " t " << t));
    m->calcDiff(d, t, u);
    c.check(vf::relerr(d->dw_du, J) < 1e-12, "calcDiff:jacobian", VF_STR("kind " << kind << " t " << t));
    c.check(vf::same(u, uc), "inputs-changed");
    // products, every assignment mode, rectangular A
    const int k = r.irange(0, 5);
    const M A = r.mat(k, nw), B = r.mat(nw, k), O = r.mat(k, nu), P = r.mat(nu, k);
    for (cr::AssignmentOp op : {cr::setto, cr::addto, cr::rmfrom}) {
      M o = O, p = P, ro = A * J, rp = J.transpose() * B;
      if (op == cr::addto) { ro = O + ro; rp = P + rp; }
      if (op == cr::rmfrom) { ro = O - ro; rp = P - rp; }
      m->multiplyByJacobian(d, A, o, op);
      m->multiplyJacobianTransposeBy(d, B, p, op);
      c.check(vf::relerr(o, ro) < 1e-12, "multiplyByJacobian", VF_STR("kind " << kind << " op " << op << " t " << t));
      c.check(vf::relerr(p, rp) < 1e-12, "multiplyJacobianTransposeBy", VF_STR("kind " << kind << " op " << op));
      // value-returning forms start from a zero matrix
      const double sg = op == cr::rmfrom ? -1 : 1;
      c.check(vf::relerr(m->multiplyByJacobian_J(d, A, op), M(sg * A * J)) < 1e-12, "multiplyByJacobian_J", VF_STR("kind " << kind << " op " << op));
      c.check(vf::relerr(m->multiplyJacobianTransposeBy_J(d, B, op), M(sg * J.transpose() * B)) < 1e-12, "multiplyJacobianTransposeBy_J", VF_STR("kind " << kind << " op " << op));
    }
    // non-contiguous output
    M big = r.mat(k + 3, nu + 4), bigc = big;
    m->multiplyByJacobian(d, A, big.block(2, 3, k, nu), cr::setto);
    bigc.block(2, 3, k, nu) = A * J;
    c.check(vf::relerr(big, bigc) < 1e-12, "multiplyByJacobian:block-output");
    // params inverts calc
    const V w = r.vec(nw, sc);
    m->params(d, t, w);
    const V un = d->u;
    c.check(un.size() == nu, "params:size");
    m->calc(d, t, un);
    c.check(vf::amax(V(d->w - w)) <= 1e-11 * sc * 10, "params:not-inverse", VF_STR("kind " << kind << " t " << t));
    c.count("maps compared");
    c.count("kind " + std::to_string(kind));
  }
}
VF_SCENARIO(bounds, 6000, 300000) {
  const int kind = r.irange(0, 3), nw = r.irange(1, 6);
  CtrlP m = make_control(kind, nw);
  const std::vector<double> nd = nodes(kind);
  const int nu = nw * int(nd.size());
  const double INF = std::numeric_limits<double>::infinity();
  V lo(nw), up(nw);
  for (int i = 0; i < nw; ++i) {
    double a = r.uni(-3, 3), b = r.uni(-3, 3);
    lo[i] = r.coin(0.2) ? -INF : std::min(a, b); up[i] = r.coin(0.2) ? INF : std::max(a, b);
  }
  V ul = r.vec(nu), uu = r.vec(nu);
  m->convertBounds(lo, up, ul, uu);
  CD d = m->createData();
  // any parameters inside the converted bounds give admissible controls at the node times (extremes included)
  for (int rep = 0; rep < 4; ++rep) {
    V u(nu);
    for (int i = 0; i < nu; ++i) {
      const double a = std::isfinite(ul[i]) ? ul[i] : std::min(-50., uu[i] - 1), b = std::isfinite(uu[i]) ? uu[i] : std::max(50., a + 1);
      c.check(!(ul[i] > uu[i]), "bounds:inverted");
      u[i] = rep == 0 ? a : rep == 1 ? b : r.uni(a, b);
    }
    for (double t : nd) {
      m->calc(d, t, u);
      bool in = true;
      for (int i = 0; i < nw; ++i) in = in && d->w[i] >= lo[i] - 1e-9 && d->w[i] <= up[i] + 1e-9;
      c.check(in, "bounds:not-kept", VF_STR("kind " << kind << " t " << t));
    }
    // and admissible node values are not cut off
  }
  V w(nw);
  for (int i = 0; i < nw; ++i) w[i] = std::isfinite(lo[i]) ? lo[i] : (std::isfinite(up[i]) ? up[i] : 1e3);
  m->params(d, nd[0], w);
  bool in = true;
  for (int i = 0; i < nu; ++i) in = in && d->u[i] >= ul[i] && d->u[i] <= uu[i];
  c.check(in, "bounds:admissible-control-cut-off", VF_STR("kind " << kind));
  // wrong sizes rejected, outputs untouched
  V s1 = ul, s2 = uu;
  c.check(vf::throws([&] { m->convertBounds(V::Zero(nw + 1), up, ul, uu); }), "bounds:accepts-wrong-size");
  c.check(vf::throws([&] { m->convertBounds(lo, V::Zero(nw - 1), ul, uu); }), "bounds:accepts-wrong-size");
  V sh = V::Zero(nu + 1);
  c.check(vf::throws([&] { m->convertBounds(lo, up, sh, uu); }), "bounds:accepts-wrong-size");
  c.check(vf::throws([&] { m->convertBounds(lo, up, ul, sh); }), "bounds:accepts-wrong-size");
  c.check(vf::same(s1, ul) && vf::same(s2, uu), "bounds:rejected-call-writes");
  c.check(vf::throws([&] { m->calc(d, 0.3, V::Zero(nu + 1)); }), "calc:accepts-wrong-size");
  c.check(vf::throws([&] { m->params(d, 0.3, V::Zero(nw + 1)); }), "params:accepts-wrong-size");
  M bad = M::Zero(2, nu);
  c.check(vf::throws([&] { m->multiplyByJacobian(d, M::Zero(3, nw), bad, cr::setto); }), "multiply:accepts-wrong-size");
  c.check(vf::throws([&] { m->multiplyByJacobian(d, M::Zero(2, nw + 1), bad, cr::setto); }), "multiply:accepts-wrong-size");
  c.sig(VF_STR("b" << kind << nw << c.index % 50));
  c.count("bounds converted");
}
VF_MAIN("C20")
