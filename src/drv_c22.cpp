// C22: activations: value, gradient, diagonal Hessian; parameters; several datas
#include "gen2.hpp"
using namespace gen;
using vf::Ctx;

static bool smooth_point(const RefActv& f, const V& r, double m) {
  if (f.kind == "2norm") { const double d = r.norm(); return d > 10 * m && std::abs(d - f.p) > m; }
  if (f.kind == "barrier" || f.kind == "wbarrier")
    for (int i = 0; i < r.size(); ++i) if (std::abs(r[i] - f.lb[i]) < m || std::abs(r[i] - f.ub[i]) < m) return false;
  return true;
}
static void verify(Ctx& c, const Actv& a, const ActvDP& d, const V& r, bool deriv, const char* where) {
  const std::string k = a.ref.kind + (a.ref.kind == "2norm" ? (a.ref.exact ? "-exact" : "-gn") : "");
  c.check(vf::relerr(d->a_value, a.ref.val(r)) < 1e-11, std::string("value:") + k, VF_STR(where << " " << d->a_value << " vs " << a.ref.val(r)));
  if (!deriv) return;
  c.check(vf::relerr(d->Ar, a.ref.grad(r)) < 1e-10, std::string("gradient:") + k, where);
  const V h = d->Arr.diagonal();
  c.check(vf::relerr(h, a.ref.hess(r)) < 1e-10, std::string("hessian:") + k, VF_STR(where << " " << h.transpose() << " vs " << a.ref.hess(r).transpose()));
}
static V residual(Rng& r, const RefActv& f, int n) {
  V v = r.vec(n, r.pick({0.3, 1., 3., 30.}));
  if (f.kind == "barrier" || f.kind == "wbarrier") v *= std::min(1., 3 / (vf::amax(v) + 1e-9)) * r.uni(0.5, 2);
  return v;
}
VF_SCENARIO(value_derivatives, 12000, 600000) {
  const int n = r.irange(1, 7), k = int(c.index % NACTV);
  Actv a = make_actv(r, n, k);
  c.check(int(a.m->get_nr()) == n, "dimension");
  ActvDP d = a.m->createData(), other = a.m->createData();
  for (int rep = 0; rep < 4; ++rep) {
    const V x = residual(r, a.ref, n), xc = x, y = residual(r, a.ref, n);
    if (!smooth_point(a.ref, x, 1e-6) || !smooth_point(a.ref, y, 1e-6)) continue;
    a.m->calc(d, x);
    if (r.coin()) { a.m->calc(other, y); a.m->calcDiff(other, y); verify(c, a, other, y, true, "other data"); }
    a.m->calcDiff(d, x);
    verify(c, a, d, x, true, "");
    c.check(vf::same(x, xc), "inputs-changed");
    // the library's own value function, differentiated numerically
    if (smooth_point(a.ref, x, 0.05)) {
      auto val = [&](const V& e) { ActvDP t = a.m->createData(); a.m->calc(t, x + e); return V(V::Constant(1, t->a_value)); };
      const M g = fd(val, n, 1e-3);
      c.check(vf::relerr(M(d->Ar.transpose()), g) < 1e-5 || vf::amax(x) > 3, std::string("fd-gradient:") + a.ref.kind, VF_STR(d->Ar.transpose() << " vs " << g));
      c.count("finite-difference gradients");
    }
    c.count("activations evaluated");
    c.count("kind " + a.ref.kind);
    c.sig(VF_STR(a.ref.kind << n << (a.ref.exact) << a.ref.hess(x).array().sign().sum()));
  }
  c.check(vf::throws([&] { a.m->calc(d, V::Zero(n + 1)); }), "accepts-wrong-size:calc", a.ref.kind);
  c.check(vf::throws([&] { a.m->calcDiff(d, V::Zero(n + 1)); }), "accepts-wrong-size:calcDiff", a.ref.kind);
}
// parameter changes reach every data, old and new
VF_SCENARIO(parameters, 4000, 200000) {
  const int n = r.irange(1, 6);
  const int k = r.pick({1, 1, 2, 3, 6, 7, 8, 9, 9});
  Actv a = make_actv(r, n, k);
  std::vector<ActvDP> ds;
  for (int i = 0; i < 3; ++i) ds.push_back(a.m->createData());
  std::string h;
  for (int step = 0; step < 8; ++step) {
    if (r.coin(0.5)) {
      switch (k) {
        case 1: {
          auto m = std::static_pointer_cast<cr::ActivationModelWeightedQuad>(a.m);
          const V w0 = m->get_weights();
          c.check(vf::throws([&] { m->set_weights(V::Ones(n + 1)); }) && vf::same(w0, m->get_weights()), "set_weights:wrong-size");
          for (int i = 0; i < n; ++i) a.ref.w[i] = r.uni(0.1, 3);
          m->set_weights(a.ref.w);
          c.check(vf::same(m->get_weights(), a.ref.w), "set_weights:stored");
          break;
        }
        case 2: { auto m = std::static_pointer_cast<cr::ActivationModelQuadFlatExp>(a.m); a.ref.p = r.uni(0.5, 5); m->set_alpha(a.ref.p); c.check(m->get_alpha() == a.ref.p, "set_alpha:stored"); break; }
        case 3: { auto m = std::static_pointer_cast<cr::ActivationModelQuadFlatLog>(a.m); a.ref.p = r.uni(0.2, 5); m->set_alpha(a.ref.p); c.check(m->get_alpha() == a.ref.p, "set_alpha:stored"); break; }
        case 6: case 7: { auto m = std::static_pointer_cast<cr::ActivationModel2NormBarrier>(a.m); a.ref.p = r.uni(0.3, 3); m->set_alpha(a.ref.p); c.check(m->get_alpha() == a.ref.p, "set_alpha:stored"); break; }
        default: {
          V lo, up;
          random_bounds(r, n, &lo, &up);
          const double beta = r.pick({1., 0.5});
          cr::ActivationBounds b(lo, up, beta);
          shrink(&lo, &up, beta);
          a.ref.lb = lo; a.ref.ub = up;
          if (k == 8) std::static_pointer_cast<cr::ActivationModelQuadraticBarrier>(a.m)->set_bounds(b);
          else {
            auto m = std::static_pointer_cast<cr::ActivationModelWeightedQuadraticBarrier>(a.m);
            m->set_bounds(b);
            if (r.coin()) { for (int i = 0; i < n; ++i) a.ref.w[i] = r.uni(0.1, 3); m->set_weights(a.ref.w); }
          }
        }
      }
      h += "p"; c.count("parameter changes");
      if (r.coin(0.2)) ds.push_back(a.m->createData());
    }
    const int i = r.irange(0, int(ds.size()) - 1);
    const V x = residual(r, a.ref, n);
    if (!smooth_point(a.ref, x, 1e-6)) continue;
    a.m->calc(ds[i], x);
    a.m->calcDiff(ds[i], x);
    verify(c, a, ds[i], x, true, "after parameter change");
    h += char('0' + i);
  }
  c.sig(a.ref.kind + h);
}
VF_SCENARIO(bounds_object, 3000, 100000) {
  const int n = r.irange(1, 5);
  V lo, up;
  random_bounds(r, n, &lo, &up);
  const double beta = r.coin(0.2) ? double(r.coin()) : r.uni(0, 1);
  cr::ActivationBounds b(lo, up, beta);
  V l = lo, u = up;
  shrink(&l, &u, beta);
  c.check(vf::relerr(b.lb, l) < 1e-12 && vf::relerr(b.ub, u) < 1e-12 && b.beta == beta, "bounds:values");
  cr::ActivationBounds b2(b), b3;
  b3 = b;
  c.check(vf::same(b2.lb, b.lb) && vf::same(b3.ub, b.ub) && b3.beta == b.beta && b2.beta == b.beta, "bounds:copies");
  c.check(vf::throws([&] { cr::ActivationBounds x(lo, V::Zero(n + 1), beta); }), "bounds:accepts-size-mismatch");
  c.check(vf::throws([&] { cr::ActivationBounds x(lo, up, r.coin() ? 1.5 : -0.1); }), "bounds:accepts-bad-beta");
  V a = V::Zero(n), z = V::Ones(n);
  a[r.irange(0, n - 1)] = 2;
  c.check(vf::throws([&] { cr::ActivationBounds x(a, z); }), "bounds:accepts-inverted");
  c.sig(VF_STR("bounds" << n << c.index % 20));
  c.count("bounds objects");
}
// documented default parameters
VF_SCENARIO(defaults, 300, 3000) {
  const int n = r.irange(1, 5);
  const V x = r.vec(n, r.pick({0.01, .3, 3.})) + V::Constant(n, 1e-3);
  V lo, up;
  random_bounds(r, n, &lo, &up);
  auto twins = [&](const std::shared_ptr<cr::ActivationModelAbstract>& a, const std::shared_ptr<cr::ActivationModelAbstract>& b, const char* what) {
    auto da = a->createData(), db = b->createData();
    a->calc(da, x); a->calcDiff(da, x); b->calc(db, x); b->calcDiff(db, x);
    const V ha = da->Arr.diagonal(), hb = db->Arr.diagonal();
    c.check(da->a_value == db->a_value && vf::same(da->Ar, db->Ar) && vf::same(ha, hb), std::string("default:") + what, VF_STR(x.transpose()));
    c.count("default parameters");
  };
  twins(std::make_shared<cr::ActivationModelSmooth1Norm>(n), std::make_shared<cr::ActivationModelSmooth1Norm>(n, 1.), "smooth1");
  twins(std::make_shared<cr::ActivationModelSmooth2Norm>(n), std::make_shared<cr::ActivationModelSmooth2Norm>(n, 1.), "smooth2");
  twins(std::make_shared<cr::ActivationModelSmoothAbs>(n), std::make_shared<cr::ActivationModelSmooth1Norm>(n, 1.), "smoothabs");
  twins(std::make_shared<cr::ActivationModelQuadFlatExp>(n), std::make_shared<cr::ActivationModelQuadFlatExp>(n, 1.), "flatexp");
  twins(std::make_shared<cr::ActivationModelQuadFlatLog>(n), std::make_shared<cr::ActivationModelQuadFlatLog>(n, 1.), "flatlog");
  twins(std::make_shared<cr::ActivationModel2NormBarrier>(n), std::make_shared<cr::ActivationModel2NormBarrier>(n, .1, false), "2norm");
  twins(std::make_shared<cr::ActivationModel2NormBarrier>(n, .7), std::make_shared<cr::ActivationModel2NormBarrier>(n, .7, false), "2norm-hessian");
  twins(std::make_shared<cr::ActivationModelQuadraticBarrier>(cr::ActivationBounds(lo, up)), std::make_shared<cr::ActivationModelQuadraticBarrier>(cr::ActivationBounds(lo, up, 1.)), "barrier");
  c.sig(VF_STR("defaults" << n << c.index % 20));
}
VF_MAIN("C22")
