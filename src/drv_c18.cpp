// C18: actions return the documented map and its exact derivatives
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;

struct Abc { M A, B, Q, R, N, G, H; V f, q, r, g, h; };
static Abc random_abc(Rng& r, int nx, int no, int nu, int ng, int nh) {
  Abc p;
  p.A = r.mat(no, nx); p.B = r.mat(no, nu);
  const M W = r.spd(nx + nu, r.coin(0.3) ? 1e-3 : 0.3);
  p.Q = W.topLeftCorner(nx, nx); p.R = W.bottomRightCorner(nu, nu); p.N = W.topRightCorner(nx, nu);
  p.G = r.mat(ng, nx + nu); p.H = r.mat(nh, nx + nu);
  p.f = r.vec(no); p.q = r.vec(nx); p.r = r.vec(nu); p.g = r.vec(ng); p.h = r.vec(nh);
  return p;
}
static double cost(const Abc& p, const V& x, const V& u) {
  return 0.5 * x.dot(p.Q * x) + 0.5 * u.dot(p.R * u) + x.dot(p.N * u) + p.q.dot(x) + p.r.dot(u);
}
template <class D>
static void check_lq(Ctx& c, const Abc& p, const D& d, const V& out, const V& x, const V& u, const std::string& w, const char* kind) {
  const int nx = int(x.size()), nu = int(u.size());
  V z(nx + nu);
  z << x, u;
  auto K = [&](const char* s) { return std::string(kind) + ":" + s; };
  c.check(vf::relerr(out, V(p.A * x + p.B * u + p.f)) < 1e-12, K("dynamics"), w);
  c.check(vf::relerr(d->cost, cost(p, x, u)) < 1e-11, K("cost"), w);
  c.check(vf::relerr(d->g, V(p.G * z + p.g)) < 1e-12, K("g"), w);
  c.check(vf::relerr(d->h, V(p.H * z + p.h)) < 1e-12, K("h"), w);
}
template <class D>
static void check_lq_diff(Ctx& c, const Abc& p, const D& d, const V& x, const V& u, const std::string& w, const char* kind) {
  const int nx = int(x.size()), nu = int(u.size());
  auto K = [&](const char* s) { return std::string(kind) + ":" + s; };
  c.check(vf::relerr(d->Fx, p.A) < 1e-14 && vf::relerr(d->Fu, p.B) < 1e-14, K("Fx,Fu"), w);
  c.check(vf::relerr(d->Lx, V(p.Q * x + p.N * u + p.q)) < 1e-12, K("Lx"), w);
  c.check(vf::relerr(d->Lu, V(p.R * u + p.N.transpose() * x + p.r)) < 1e-12, K("Lu"), w);
  c.check(vf::same(d->Lxx, p.Q) && vf::same(d->Luu, p.R) && vf::same(d->Lxu, p.N), K("Hessians"), w);
  c.check(vf::same(d->Gx, M(p.G.leftCols(nx))) && vf::same(d->Gu, M(p.G.rightCols(nu))), K("Gx,Gu"), w);
  c.check(vf::same(d->Hx, M(p.H.leftCols(nx))) && vf::same(d->Hu, M(p.H.rightCols(nu))), K("Hx,Hu"), w);
}
VF_SCENARIO(lqr, 15000, 500000) {
  const int nx = r.irange(1, 7), nu = r.irange(1, 5), ctor = r.irange(0, 4);
  const int ng = ctor >= 2 && ctor != 3 ? r.irange(0, 3) : 0, nh = ctor >= 2 && ctor != 3 ? r.irange(0, 3) : 0;
  Abc p = random_abc(r, nx, nx, nu, ng, nh);
  std::shared_ptr<cr::ActionModelLQR> m;
  if (ctor == 0) { p.f.setZero(); p.q.setZero(); p.r.setZero(); m = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N); }
  else if (ctor == 1) m = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
  else if (ctor == 3) {
    const bool free = r.coin();
    m = std::make_shared<cr::ActionModelLQR>(nx, nu, free);
    p.A = M::Identity(nx, nx); p.B = M::Identity(nx, nu); p.Q = p.A; p.R = M::Identity(nu, nu); p.N = M::Zero(nx, nu);
    p.f = free ? V(V::Zero(nx)) : V(V::Ones(nx)); p.q = V::Ones(nx); p.r = V::Ones(nu);
  } else m = std::make_shared<cr::ActionModelLQR>(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  if (ctor == 4) m = std::make_shared<cr::ActionModelLQR>(*m);
  c.count(VF_STR("lqr constructor " << ctor));
  auto d = m->createData(), e = m->createData();
  std::string hist;
  for (int k = 0; k < 4; ++k) {
    if (r.coin(0.3)) { p = random_abc(r, nx, nx, nu, ng, nh); m->set_LQR(p.A, p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h); hist += "s"; c.count("parameter changes"); }
    if (r.coin(0.15)) {
      Abc b = random_abc(r, nx, nx, nu, ng, nh);
      const int bad = r.irange(0, 12);
      switch (bad) {
        case 0: b.A = r.mat(nx + 1, nx); break;
        case 1: b.B = r.mat(nx + 1, nu); break;
        case 2: b.Q = r.mat(nx, nx + 1); break;
        case 3: b.R = r.mat(nu + 1, nu); break;
        case 4: b.N = r.mat(nx, nu + 1); break;
        case 5: b.G = r.mat(ng + 1, nx + nu); break;
        case 6: b.H = r.mat(nh, nx + nu + 1); break;
        case 7: b.f = r.vec(nx + 1); break;
        case 8: b.q = r.vec(nx - 1); break;
        case 9: b.r = r.vec(nu + 1); break;
        case 10: b.g = r.vec(ng + 1); break;
        case 11: b.h = r.vec(nh + 1); break;
        default: b.Q = -M::Identity(nx, nx); b.R = -M::Identity(nu, nu); b.N.setZero(); break;
      }
      c.check(vf::throws([&] { m->set_LQR(b.A, b.B, b.Q, b.R, b.N, b.G, b.H, b.f, b.q, b.r, b.g, b.h); }), "lqr:invalid-accepted", VF_STR(bad));
      c.count("rejected parameters");
    }
    c.check(vf::same(m->get_A(), p.A) && vf::same(m->get_B(), p.B) && vf::same(m->get_Q(), p.Q) && vf::same(m->get_R(), p.R) && vf::same(m->get_N(), p.N) &&
                vf::same(m->get_f(), p.f) && vf::same(m->get_q(), p.q) && vf::same(m->get_r(), p.r) && vf::same(m->get_G(), p.G) && vf::same(m->get_H(), p.H) &&
                vf::same(m->get_g(), p.g) && vf::same(m->get_h(), p.h), "lqr:getters", hist);
    const V x = r.vec(nx, 2), u = r.vec(nu, 2);
    const std::string w = VF_STR("ctor " << ctor << " nx " << nx << " nu " << nu << " ng " << ng << " nh " << nh << " " << hist);
    if (r.coin(0.7)) {
      hist += "R";
      m->calc(d, x, u);
      check_lq(c, p, d, d->xnext, x, u, w, "lqr");
      if (r.coin(0.3)) { m->calc(e, r.vec(nx), r.vec(nu)); m->calcDiff(e, r.vec(nx)); }
      m->calcDiff(d, x, u);
      check_lq(c, p, d, d->xnext, x, u, w, "lqr");
      check_lq_diff(c, p, d, x, u, w, "lqr");
      c.count("running points");
    } else {
      hist += "T";
      m->calc(d, x);
      m->calcDiff(d, x);
      const V u0 = V::Zero(nu);
      V z(nx + nu);
      z << x, u0;
      c.check(vf::same(d->xnext, x), "lqr:terminal-xnext", w);
      c.check(vf::relerr(d->cost, cost(p, x, u0)) < 1e-11, "lqr:terminal-cost", w);
      c.check(vf::relerr(d->g, V(p.G * z + p.g)) < 1e-12 && vf::relerr(d->h, V(p.H * z + p.h)) < 1e-12, "lqr:terminal-constraints", w);
      c.check(vf::relerr(d->Lx, V(p.Q * x + p.q)) < 1e-12 && vf::same(d->Lxx, p.Q), "lqr:terminal-derivatives", w);
      c.check(vf::same(d->Gx, M(p.G.leftCols(nx))) && vf::same(d->Hx, M(p.H.leftCols(nx))), "lqr:terminal-Gx,Hx", w);
      c.count("terminal points");
    }
    c.sig(w);
  }
  c.check(vf::throws([&] { m->calc(d, r.vec(nx + 1), r.vec(nu)); }) && vf::throws([&] { m->calc(d, r.vec(nx), r.vec(nu + 1)); }) &&
              vf::throws([&] { m->calcDiff(d, r.vec(nx + 1), r.vec(nu)); }) && vf::throws([&] { m->calcDiff(d, r.vec(nx), r.vec(nu + 1)); }) &&
              vf::throws([&] { m->calc(d, r.vec(nx + 1)); }) && vf::throws([&] { m->calcDiff(d, r.vec(nx + 1)); }), "lqr:wrong-size-accepted");
  c.check(m->checkData(d) && !m->checkData(std::make_shared<cr::ActionDataAbstract>(m.get())), "lqr:checkData");
}
VF_SCENARIO(difflqr, 10000, 400000) {
  const int nq = r.irange(1, 4), nx = 2 * nq, nu = r.irange(1, 4), ctor = r.irange(0, 4);
  const int ng = ctor >= 2 && ctor != 3 ? r.irange(0, 3) : 0, nh = ctor >= 2 && ctor != 3 ? r.irange(0, 3) : 0;
  Abc p = random_abc(r, nx, nq, nu, ng, nh);
  typedef cr::DifferentialActionModelLQR Mod;
  std::shared_ptr<Mod> m;
  auto Aq = [&](const Abc& a) { return M(a.A.leftCols(nq)); };
  auto Av = [&](const Abc& a) { return M(a.A.rightCols(nq)); };
  if (ctor == 0) { p.f.setZero(); p.q.setZero(); p.r.setZero(); m = std::make_shared<Mod>(Aq(p), Av(p), p.B, p.Q, p.R, p.N); }
  else if (ctor == 1) m = std::make_shared<Mod>(Aq(p), Av(p), p.B, p.Q, p.R, p.N, p.f, p.q, p.r);
  else if (ctor == 3) {
    const bool free = r.coin();
    m = std::make_shared<Mod>(nq, nu, free);
    p.A << M::Identity(nq, nq), M::Identity(nq, nq);
    p.B = M::Identity(nq, nu); p.Q = M::Identity(nx, nx); p.R = M::Identity(nu, nu); p.N = M::Zero(nx, nu);
    p.f = free ? V(V::Zero(nq)) : V(V::Ones(nq)); p.q = V::Ones(nx); p.r = V::Ones(nu);
  } else m = std::make_shared<Mod>(Aq(p), Av(p), p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h);
  if (ctor == 4) m = std::make_shared<Mod>(*m);
  c.count(VF_STR("difflqr constructor " << ctor));
  auto d = m->createData(), e = m->createData();
  std::string hist;
  for (int k = 0; k < 4; ++k) {
    if (r.coin(0.3)) { p = random_abc(r, nx, nq, nu, ng, nh); m->set_LQR(Aq(p), Av(p), p.B, p.Q, p.R, p.N, p.G, p.H, p.f, p.q, p.r, p.g, p.h); hist += "s"; c.count("parameter changes"); }
    c.check(vf::same(m->get_Aq(), Aq(p)) && vf::same(m->get_Av(), Av(p)) && vf::same(m->get_B(), p.B) && vf::same(m->get_Q(), p.Q) && vf::same(m->get_R(), p.R) &&
                vf::same(m->get_N(), p.N) && vf::same(m->get_f(), p.f) && vf::same(m->get_q(), p.q) && vf::same(m->get_r(), p.r) && vf::same(m->get_G(), p.G) &&
                vf::same(m->get_H(), p.H) && vf::same(m->get_g(), p.g) && vf::same(m->get_h(), p.h), "difflqr:getters", hist);
    const V x = r.vec(nx, 2), u = r.vec(nu, 2);
    const std::string w = VF_STR("dctor " << ctor << " nx " << nx << " nu " << nu << " ng " << ng << " nh " << nh << " " << hist);
    if (r.coin(0.7)) {
      hist += "R";
      m->calc(d, x, u);
      check_lq(c, p, d, d->xout, x, u, w, "difflqr");
      if (r.coin(0.3)) { m->calc(e, r.vec(nx), r.vec(nu)); m->calcDiff(e, r.vec(nx)); }
      m->calcDiff(d, x, u);
      check_lq(c, p, d, d->xout, x, u, w, "difflqr");
      check_lq_diff(c, p, d, x, u, w, "difflqr");
      c.count("running points");
    } else {
      hist += "T";
      m->calc(d, x);
      m->calcDiff(d, x);
      V z(nx + nu);
      const V u0 = V::Zero(nu);
      z << x, u0;
      c.check(vf::relerr(d->cost, cost(p, x, u0)) < 1e-11, "difflqr:terminal-cost", w);
      c.check(vf::relerr(d->g, V(p.G * z + p.g)) < 1e-12 && vf::relerr(d->h, V(p.H * z + p.h)) < 1e-12, "difflqr:terminal-constraints", w);
      c.check(vf::relerr(d->Lx, V(p.Q * x + p.q)) < 1e-12 && vf::same(d->Lxx, p.Q), "difflqr:terminal-derivatives", w);
      c.check(vf::same(d->Gx, M(p.G.leftCols(nx))) && vf::same(d->Hx, M(p.H.leftCols(nx))), "difflqr:terminal-Gx,Hx", w);
      c.count("terminal points");
    }
    c.sig(w);
  }
  c.check(vf::throws([&] { m->calc(d, r.vec(nx + 1), r.vec(nu)); }) && vf::throws([&] { m->calc(d, r.vec(nx), r.vec(nu + 1)); }) &&
              vf::throws([&] { m->calcDiff(d, r.vec(nx + 1), r.vec(nu)); }) && vf::throws([&] { m->calcDiff(d, r.vec(nx), r.vec(nu + 1)); }) &&
              vf::throws([&] { m->calc(d, r.vec(nx + 1)); }) && vf::throws([&] { m->calcDiff(d, r.vec(nx + 1)); }), "difflqr:wrong-size-accepted");
}
VF_SCENARIO(unicycle, 12000, 400000) {
  auto m = std::make_shared<cr::ActionModelUnicycle>();
  double dt = 0.1, wx = 10, wu = 1;
  c.check(m->get_dt() == 0.1 && m->get_cost_weights() == Eigen::Vector2d(10, 1) && m->get_nu() == 2 && m->get_nr() == 5, "unicycle:defaults");
  auto d = m->createData(), e = m->createData();
  std::string hist;
  for (int k = 0; k < 5; ++k) {
    if (r.coin(0.4)) { dt = r.logu(1e-3, 1); m->set_dt(dt); hist += "d"; }
    if (r.coin(0.4)) { wx = r.uni(0, 5); wu = r.uni(0, 5); m->set_cost_weights(Eigen::Vector2d(wx, wu)); hist += "w"; }
    if (r.coin(0.1)) c.check(vf::throws([&] { m->set_dt(r.pick({0., -0.1})); }) && m->get_dt() == dt, "unicycle:dt-accepted");
    const V x = r.vec(3, r.pick({1., 10.})), u = r.vec(2, 3);
    const bool terminal = r.coin(0.3);
    hist += terminal ? "T" : "R";
    if (terminal) {
      m->calc(d, x); m->calcDiff(d, x);
      V rr(5);
      rr << wx * x, 0, 0;
      c.check(vf::same(d->xnext, x) && vf::relerr(d->cost, 0.5 * wx * wx * x.squaredNorm()) < 1e-12 && vf::relerr(d->r, rr) < 1e-13, "unicycle:terminal", hist);
      c.check(vf::relerr(d->Lx, V(wx * wx * x)) < 1e-12 && vf::relerr(d->Lxx, M(wx * wx * M::Identity(3, 3))) < 1e-12, "unicycle:terminal-derivatives", hist);
      c.count("terminal points");
    } else {
      m->calc(d, x, u);
      if (r.coin(0.3)) { m->calc(e, r.vec(3), r.vec(2)); m->calcDiff(e, r.vec(3), r.vec(2)); }
      m->calcDiff(d, x, u);
      auto f = [&](const V& y, const V& w) { V o(3); o << y[0] + std::cos(y[2]) * w[0] * dt, y[1] + std::sin(y[2]) * w[0] * dt, y[2] + w[1] * dt; return o; };
      M Fx = M::Identity(3, 3), Fu = M::Zero(3, 2);
      Fx(0, 2) = -std::sin(x[2]) * u[0] * dt; Fx(1, 2) = std::cos(x[2]) * u[0] * dt;
      Fu(0, 0) = std::cos(x[2]) * dt; Fu(1, 0) = std::sin(x[2]) * dt; Fu(2, 1) = dt;
      V rr(5);
      rr << wx * x, wu * u;
      c.check(vf::relerr(d->xnext, f(x, u)) < 1e-13, "unicycle:dynamics", hist);
      c.check(vf::relerr(d->cost, 0.5 * rr.squaredNorm()) < 1e-12 && vf::relerr(d->r, rr) < 1e-13, "unicycle:cost", hist);
      c.check(vf::relerr(d->Fx, Fx) < 1e-13 && vf::relerr(d->Fu, Fu) < 1e-13, "unicycle:Fx,Fu", VF_STR(hist << "\n" << d->Fx << "\n" << d->Fu));
      c.check(vf::relerr(Fx, fd([&](const V& z) { return f(x + z, u); }, 3)) < 1e-7, "harness:Fx");
      c.check(vf::relerr(d->Lx, V(wx * wx * x)) < 1e-12 && vf::relerr(d->Lu, V(wu * wu * u)) < 1e-12, "unicycle:Lx,Lu", hist);
      c.check(vf::relerr(d->Lxx, M(wx * wx * M::Identity(3, 3))) < 1e-12 && vf::relerr(d->Luu, M(wu * wu * M::Identity(2, 2))) < 1e-12 && d->Lxu.isZero(), "unicycle:Hessians", hist);
      c.count("running points");
    }
    c.sig("uni" + hist);
  }
  c.check(vf::throws([&] { m->calc(d, r.vec(4), r.vec(2)); }) && vf::throws([&] { m->calc(d, r.vec(3), r.vec(1)); }) && vf::throws([&] { m->calcDiff(d, r.vec(2), r.vec(2)); }) &&
              vf::throws([&] { m->calcDiff(d, r.vec(3), r.vec(3)); }) && vf::throws([&] { m->calc(d, r.vec(4)); }) && vf::throws([&] { m->calcDiff(d, r.vec(4)); }), "unicycle:wrong-size-accepted");
  c.count("unicycles");
}
// any action (integrated ones too): derivatives against finite differences of its own map on manifolds
VF_SCENARIO(finite_differences, 6000, 200000) {
  StateP s = r.coin(0.25) ? StateP(std::make_shared<cr::StateVector>(3)) : random_state(r);
  std::string kind;
  const int nu = r.pick({1, 2, 3, 4, 6});
  ActP m = any_action(r, s, nu, &kind, r.coin());
  const int ndx = int(s->get_ndx());
  const V x = random_x(r, s), u = r.vec(nu);
  ActDP d = m->createData();
  if (r.coin(0.3)) { const V x2 = random_x(r, s); const V u2 = r.vec(nu); m->calc(d, x2, u2); m->calcDiff(d, x2, u2); kind += "*"; }
  m->calc(d, x, u);
  m->calcDiff(d, x, u);
  const V xn = d->xnext;
  auto F = [&](const V& y, const V& w) { return minus(s, eval(m, y, w)->xnext, xn); };
  auto L = [&](const V& y, const V& w) { V o(1); o[0] = eval(m, y, w)->cost; return o; };
  auto G = [&](const V& y, const V& w) { return V(eval(m, y, w)->g); };
  auto H = [&](const V& y, const V& w) { return V(eval(m, y, w)->h); };
  const double tol = 1e-6;
  c.check(vf::relerr(d->Fx, fd([&](const V& e) { return F(plus(s, x, e), u); }, ndx)) < tol, "fd:Fx", VF_STR(kind << "\n" << d->Fx << "\nvs\n" << fd([&](const V& e) { return F(plus(s, x, e), u); }, ndx)));
  c.check(vf::relerr(d->Fu, fd([&](const V& e) { return F(x, u + e); }, nu)) < tol, "fd:Fu", kind);
  c.check(vf::relerr(M(d->Lx.transpose()), fd([&](const V& e) { return L(plus(s, x, e), u); }, ndx)) < tol, "fd:Lx", kind);
  c.check(vf::relerr(M(d->Lu.transpose()), fd([&](const V& e) { return L(x, u + e); }, nu)) < tol, "fd:Lu", kind);
  if (m->get_ng()) {
    c.check(vf::relerr(d->Gx, fd([&](const V& e) { return G(plus(s, x, e), u); }, ndx)) < tol, "fd:Gx", kind);
    c.check(vf::relerr(d->Gu, fd([&](const V& e) { return G(x, u + e); }, nu)) < tol, "fd:Gu", kind);
    c.count("constrained");
  }
  if (m->get_nh()) {
    c.check(vf::relerr(d->Hx, fd([&](const V& e) { return H(plus(s, x, e), u); }, ndx)) < tol, "fd:Hx", kind);
    c.check(vf::relerr(d->Hu, fd([&](const V& e) { return H(x, u + e); }, nu)) < tol, "fd:Hu", kind);
  }
  c.check(vf::same(d->Lxx, M(d->Lxx.transpose())) || vf::relerr(d->Lxx, M(d->Lxx.transpose())) < 1e-12, "fd:Lxx-symmetric", kind);
  c.check(vf::relerr(d->Luu, M(d->Luu.transpose())) < 1e-12, "fd:Luu-symmetric", kind);
  // terminal
  ActDP t = m->createData();
  m->calc(t, x); m->calcDiff(t, x);
  auto LT = [&](const V& y) { V o(1); o[0] = evalT(m, y)->cost; return o; };
  c.check(vf::relerr(M(t->Lx.transpose()), fd([&](const V& e) { return LT(plus(s, x, e)); }, ndx)) < tol, "fd:terminal-Lx", kind);
  if (m->get_ng_T()) c.check(vf::relerr(M(t->Gx.topRows(m->get_ng_T())), fd([&](const V& e) { return V(evalT(m, plus(s, x, e))->g.head(m->get_ng_T())); }, ndx)) < tol, "fd:terminal-Gx", kind);
  if (m->get_nh_T()) c.check(vf::relerr(M(t->Hx.topRows(m->get_nh_T())), fd([&](const V& e) { return V(evalT(m, plus(s, x, e))->h.head(m->get_nh_T())); }, ndx)) < tol, "fd:terminal-Hx", kind);
  c.sig("fd" + kind + std::to_string(s->get_nx()) + "," + std::to_string(nu));
  c.count("actions against finite differences");
}
VF_MAIN("C18")
