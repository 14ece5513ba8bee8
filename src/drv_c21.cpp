// C21: state operations satisfy the manifold laws
#include "gen2.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
using namespace gen;
using vf::Ctx;

struct Sys { StateP s; StateP inner; std::string kind; double jtol; };
static Sys make(Rng& r) {
  Sys y;
  const int k = r.irange(0, 3);
  if (k < 2) { y.s = std::make_shared<cr::StateVector>(r.irange(1, 9)); y.inner = y.s; y.kind = "vector"; y.jtol = 1e-12; }
  else {
    y.inner = k == 2 ? StateP(std::make_shared<cr::StateVector>(r.irange(1, 6))) : StateP(std::make_shared<StateSO3>(r.irange(0, 2)));
    y.s = std::make_shared<cr::StateNumDiff>(y.inner);
    y.kind = k == 2 ? "numdiff-vector" : "numdiff-so3"; y.jtol = 3e-6;
  }
  return y;
}
VF_SCENARIO(laws, 8000, 400000) {
  Sys y = make(r);
  const StateP& s = y.s;
  const int nx = int(s->get_nx()), n = int(s->get_ndx());
  c.check(s->get_nv() == s->get_ndx() / 2 && s->get_nq() == s->get_nx() - s->get_nv(), "dimensions");
  c.check(s->zero().size() == nx && s->rand().size() == nx && vf::finite(s->rand()), "zero-rand:size");
  if (y.kind == "vector") c.check(vf::amax(s->zero()) == 0, "zero:value");
  const double sc = r.pick({0.1, 0.7});
  const V x0 = random_x(r, y.inner, sc), x1 = random_x(r, y.inner, sc), dx = r.vec(n, sc);
  const V a = x0, b = x1, e = dx;
  V d(n), x(nx), d2(n);
  s->diff(x0, x1, d);
  s->integrate(x0, d, x);
  c.check(vf::amax(V(minus(y.inner, x, x1))) < 1e-11, "integrate(x0,diff(x0,x1))!=x1", y.kind);
  s->integrate(x0, dx, x);
  s->diff(x0, x, d2);
  c.check(vf::amax(V(d2 - dx)) < 1e-11, "diff(x0,integrate(x0,dx))!=dx", y.kind);
  s->diff(x0, x0, d2);
  c.check(vf::amax(d2) < 1e-14, "diff(x,x)!=0");
  s->integrate(x0, V::Zero(n), x);
  c.check(vf::amax(V(minus(y.inner, x, x0))) < 1e-14, "integrate(x,0)!=x");
  c.check(vf::same(s->diff_dx(x0, x1), d), "diff_dx");
  s->integrate(x0, dx, x);
  c.check(vf::same(s->integrate_x(x0, dx), x), "integrate_x");
  // in-place integration
  V xi = x0;
  s->integrate(xi, dx, xi);
  c.check(vf::relerr(xi, x) < 1e-14, "integrate:in-place");
  c.check(vf::same(x0, a) && vf::same(x1, b) && vf::same(dx, e), "inputs-changed");
  c.sig(VF_STR(y.kind << n << c.index % 7));
  c.count("kind " + y.kind);
}
VF_SCENARIO(jacobians, 4000, 150000) {
  Sys y = make(r);
  const StateP& s = y.s;
  const int n = int(s->get_ndx());
  const V x0 = random_x(r, y.inner), x1 = random_x(r, y.inner), dx = r.vec(n, 0.7);
  const M D0 = fd([&](const V& e) { return s->diff_dx(plus(y.inner, x0, e), x1); }, n);
  const M D1 = fd([&](const V& e) { return s->diff_dx(x0, plus(y.inner, x1, e)); }, n);
  const V xe = plus(y.inner, x0, dx);
  const M I0 = fd([&](const V& e) { return minus(y.inner, s->integrate_x(plus(y.inner, x0, e), dx), xe); }, n);
  const M I1 = fd([&](const V& e) { return minus(y.inner, s->integrate_x(x0, dx + e), xe); }, n);
  const double tol = std::max(y.jtol, 1e-8);
  for (cr::Jcomponent fs : {cr::both, cr::first, cr::second}) {
    // outputs hold arbitrary values before
    const M P = r.mat(n, n), Q = r.mat(n, n);
    M A = P, B = Q;
    s->Jdiff(x0, x1, A, B, fs);
    const bool f1 = fs != cr::second, f2 = fs != cr::first;
    c.check(vf::relerr(A, f1 ? D0 : P) < (f1 ? tol : 1e-300), f1 ? "Jdiff:first" : "Jdiff:unselected-written", VF_STR(y.kind << " " << fs));
    c.check(vf::relerr(B, f2 ? D1 : Q) < (f2 ? tol : 1e-300), f2 ? "Jdiff:second" : "Jdiff:unselected-written", VF_STR(y.kind << " " << fs));
    for (cr::AssignmentOp op : {cr::setto, cr::addto, cr::rmfrom}) {
      A = P; B = Q;
      s->Jintegrate(x0, dx, A, B, fs, op);
      M ra = I0, rb = I1;
      if (op == cr::addto) { ra = P + I0; rb = Q + I1; }
      if (op == cr::rmfrom) { ra = P - I0; rb = Q - I1; }
      c.check(vf::relerr(A, f1 ? ra : P) < (f1 ? tol : 1e-300), f1 ? "Jintegrate:first" : "Jintegrate:unselected-written", VF_STR(y.kind << " " << fs << " op " << op));
      c.check(vf::relerr(B, f2 ? rb : Q) < (f2 ? tol : 1e-300), f2 ? "Jintegrate:second" : "Jintegrate:unselected-written", VF_STR(y.kind << " " << fs << " op " << op));
    }
    std::vector<M> js = s->Jdiff_Js(x0, x1, fs), ji = s->Jintegrate_Js(x0, dx, fs);
    c.check(js.size() == (fs == cr::both ? 2u : 1u) && ji.size() == js.size(), "J_Js:count");
    if (fs != cr::second) c.check(vf::relerr(js[0], D0) < tol && vf::relerr(ji[0], I0) < tol, "J_Js:first");
    if (fs != cr::first) c.check(vf::relerr(js.back(), D1) < tol && vf::relerr(ji.back(), I1) < tol, "J_Js:second");
  }
  // transport = left multiplication by the integration Jacobian, any number of columns
  for (cr::Jcomponent fs : {cr::first, cr::second}) {
    const M J = r.mat(n, r.irange(0, 5));
    M t = J;
    s->JintegrateTransport(x0, dx, t, fs);
    c.check(vf::relerr(t, M((fs == cr::first ? I0 : I1) * J)) < tol, "JintegrateTransport", VF_STR(y.kind << " " << fs));
  }
  M t = M::Zero(n, n);
  c.check(vf::throws([&] { s->JintegrateTransport(x0, dx, t, cr::both); }), "JintegrateTransport:accepts-both", y.kind);
  c.sig(VF_STR("J" << y.kind << n << c.index % 7));
  c.count("Jacobians compared", 24);
}
VF_SCENARIO(limits_and_sizes, 4000, 100000) {
  Sys y = make(r);
  const StateP& s = y.s;
  const int nx = int(s->get_nx()), n = int(s->get_ndx());
  const double INF = std::numeric_limits<double>::infinity();
  V lb = V::Constant(nx, -INF), ub = V::Constant(nx, INF);
  c.check(!s->get_has_limits() && vf::same(s->get_lb(), lb) && vf::same(s->get_ub(), ub), "limits:default");
  std::string h;
  for (int k = 0; k < 6; ++k) {
    const int op = r.irange(0, 3);
    V v(nx);
    for (int i = 0; i < nx; ++i) v[i] = r.coin(0.5) ? INF : r.uni(0.1, 3);
    if (r.coin(0.3)) v.setConstant(INF);
    if (op == 0) { lb = -v; s->set_lb(lb); }
    else if (op == 1) { ub = v; s->set_ub(ub); }
    else if (op == 2) c.check(vf::throws([&] { s->set_lb(V::Zero(nx + 1)); }), "set_lb:accepts-wrong-size");
    else c.check(vf::throws([&] { s->set_ub(V::Zero(nx + 1)); }), "set_ub:accepts-wrong-size");
    bool has = false;
    for (int i = 0; i < nx; ++i) has = has || std::isfinite(lb[i]) || std::isfinite(ub[i]);
    c.check(vf::same(s->get_lb(), lb) && vf::same(s->get_ub(), ub), "limits:stored");
    c.check(s->get_has_limits() == has, "limits:flag", VF_STR("lb " << lb.transpose() << " ub " << ub.transpose()));
    h += char('0' + op);
  }
  // wrong sizes are rejected and outputs untouched
  const V x = random_x(r, y.inner), dx = r.vec(n);
  V d = r.vec(n), xo = r.vec(nx);
  const V dc = d, xc = xo;
  const V bx = V::Zero(nx + 1), bd = V::Zero(n + 1);
  V wx = V::Zero(nx + 1), wd = V::Zero(n + 1);
  c.check(vf::throws([&] { s->diff(bx, x, d); }) && vf::throws([&] { s->diff(x, bx, d); }) && vf::throws([&] { s->diff(x, x, wd); }), "diff:accepts-wrong-size", y.kind);
  c.check(vf::throws([&] { s->integrate(bx, dx, xo); }) && vf::throws([&] { s->integrate(x, bd, xo); }) && vf::throws([&] { s->integrate(x, dx, wx); }), "integrate:accepts-wrong-size", y.kind);
  M J = r.mat(n, n), Jc = J, W = M::Zero(n + 1, n);
  c.check(vf::throws([&] { s->Jdiff(x, x, W, J, cr::first); }) && vf::throws([&] { s->Jdiff(x, x, J, W, cr::second); }), "Jdiff:accepts-wrong-size", y.kind);
  c.check(vf::throws([&] { s->Jintegrate(x, dx, W, J, cr::first); }) && vf::throws([&] { s->Jintegrate(x, dx, J, W, cr::second); }), "Jintegrate:accepts-wrong-size", y.kind);
  c.check(vf::same(d, dc) && vf::same(xo, xc) && vf::same(J, Jc), "rejected-call-writes", y.kind);
  c.sig(y.kind + h);
  c.count("limit histories");
}
VF_MAIN("C21")
