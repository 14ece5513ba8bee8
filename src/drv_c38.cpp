// C38: stacks of contacts and impulses, through any history of additions, removals, status and reference changes.
#include "mb.hpp"
using namespace mb;
typedef std::map<std::string, Spec> Map;


static bool angle_ok(const Spec& s, const pin::Model& m, const V& x) {
  return s.dim != 6 || s.gains[0] == 0 || pv::log3(s.pref.R.transpose() * frame(m, s.id, x, V::Zero(m.nv)).oMf.R).norm() < 2.6;
}
static void reference(Rng& r, Spec& k, const std::shared_ptr<cr::ContactModelAbstract>& p) {
  k.pref = pose(r, 1.);
  k.xref = r.vec(3);
  if (k.dim == 1) {
    auto c = std::static_pointer_cast<cr::ContactModel1D>(p);
    c->set_reference(k.xref[2]);
    if (r.coin()) { k.axis = rotation(r); c->set_axis_rotation(k.axis); }
  }
  if (k.dim == 2) std::static_pointer_cast<cr::ContactModel2D>(p)->set_reference(Eigen::Vector2d(k.xref[0], k.xref[2]));
  if (k.dim == 3) std::static_pointer_cast<cr::ContactModel3D>(p)->set_reference(k.xref);
  if (k.dim == 6) std::static_pointer_cast<cr::ContactModel6D>(p)->set_reference(k.pref);
}
static bool kept(const Spec& k, const std::shared_ptr<cr::ContactModelAbstract>& p) {
  const auto same = [](double a, double b) { return a == b; };
  if (p->get_nc() != std::size_t(k.dim) || p->get_id() != k.id || p->get_type() != k.type) return false;
  if (k.dim == 1) { auto c = std::static_pointer_cast<cr::ContactModel1D>(p); return same(c->get_reference(), k.xref[2]) && c->get_gains() == k.gains && c->get_axis_rotation() == k.axis; }
  if (k.dim == 2) { auto c = std::static_pointer_cast<cr::ContactModel2D>(p); return same(c->get_reference()[0], k.xref[0]) && same(c->get_reference()[1], k.xref[2]) && c->get_gains() == k.gains; }
  if (k.dim == 3) { auto c = std::static_pointer_cast<cr::ContactModel3D>(p); return c->get_reference() == k.xref && c->get_gains() == k.gains; }
  auto c = std::static_pointer_cast<cr::ContactModel6D>(p);
  return c->get_reference().rotation() == k.pref.rotation() && c->get_reference().translation() == k.pref.translation() && c->get_gains() == k.gains;
}
template <class Mo>
static void bookkeeping(Ctx& c, const Mo& cm, const Map& ms, const std::string& p) {
  std::size_t nc = 0, nt = 0;
  std::set<std::string> on, off;
  for (auto& k : ms) {
    nt += k.second.dim;
    if (k.second.active) nc += k.second.dim;
    (k.second.active ? on : off).insert(k.first);
  }
  c.check(cm.get_nc() == nc, p + "nc", VF_STR(cm.get_nc() << " should be " << nc));
  c.check(cm.get_nc_total() == nt, p + "nc_total", VF_STR(cm.get_nc_total() << " should be " << nt));
  c.check(cm.get_active_set() == on && cm.get_inactive_set() == off, p + "active-sets");
}
static M fdx(const pin::Model& m, const V& x, const std::function<V(const V&)>& f, int n) { return ddx(m, x, f).leftCols(n); }
static double ferr(const pin::Force& a, const pin::Force& b) { return vf::finite(V(a.d)) ? (a.d - b.d).cwiseAbs().maxCoeff() / (1 + b.d.cwiseAbs().maxCoeff()) : 1e300; }

struct Live { std::shared_ptr<pin::Data> pd; std::shared_ptr<cr::ContactDataMultiple> d; };
VF_SCENARIO(contacts, 500, 8000) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const StateP s = std::make_shared<cr::StateMultibody>(b.model);
  const std::size_t nu = r.coin() ? m.nv : std::size_t(r.irange(0, 5));
  auto cm = nu == std::size_t(m.nv) && r.coin() ? std::make_shared<cr::ContactModelMultiple>(s) : std::make_shared<cr::ContactModelMultiple>(s, nu);
  Map ms;
  bool all = false;
  std::vector<Live> ds;
  std::string h;
  int evals = 0;
  for (int step = r.irange(4, 14); step > 0 || evals == 0; --step) {
    const std::string name = r.pick({"arm", "foot", "b", "a1", "zeta", "foot2"});
    const int op = step <= 0 ? 9 : r.irange(0, 11);
    h += "aaarsstcweee"[op];
    if (op < 3) {  // add
      Spec k = spec(r, b, name, r.pick({1, 2, 3, 3, 6}));
      k.active = r.coin(.7);
      auto p = contact(k, s, nu);
      {
        vf::Quiet q;
        cm->addContact(name, p, k.active);
      }
      if (ms.count(name)) c.count("duplicate additions");
      else { ms[name] = k; ds.clear(); }
      c.count("additions");
    } else if (op == 3) {
      {
        vf::Quiet q;
        cm->removeContact(name);
      }
      if (ms.erase(name)) ds.clear();
      c.count("removals");
    } else if (op < 6) {
      const bool st = r.coin();
      {
        vf::Quiet q;
        cm->changeContactStatus(name, st);
      }
      if (ms.count(name)) ms[name].active = st;
      c.count("status changes");
    } else if (op == 6) {  // new reference: every data sees it
      if (ms.count(name)) {
        reference(r, ms[name], cm->get_contacts().at(name)->contact);
        c.count("reference changes");
      }
    } else if (op == 7) {
      all = r.coin();
      cm->setComputeAllContacts(all);
    } else if (op == 8) {  // refused uses
      Spec k = spec(r, b, "other", 3);
      c.check(vf::throws([&] { cm->addContact("other", contact(k, s, nu + 1)); }), "add:wrong-control-dimension-accepted");
      auto pd = std::make_shared<pin::Data>(m);
      auto d = cm->createData(pd.get());
      long n = 0;
      for (auto& q : ms) if (all || q.second.active) n += q.second.dim;
      c.check(vf::throws([&] { cm->updateForce(d, V(r.vec(n + 1))); }), "updateForce:wrong-dimension-accepted");
      c.check(vf::throws([&] { cm->updateForceDiff(d, M::Zero(n + 1, 2 * m.nv), M::Zero(n, nu)); }) && vf::throws([&] { cm->updateForceDiff(d, M::Zero(n, 2 * m.nv), M::Zero(n, nu + 1)); }),
              "updateForceDiff:wrong-dimension-accepted");
      c.check(vf::throws([&] { cm->updateAcceleration(d, V(r.vec(m.nv + 1))); }) && vf::throws([&] { cm->updateAccelerationDiff(d, M::Zero(m.nv, 2 * m.nv + 1)); }),
              "updateAcceleration:wrong-dimension-accepted");
      d->contacts.insert(std::make_pair("stray", std::shared_ptr<cr::ContactDataAbstract>()));
      const V x = point(r, m);
      pin::computeAllTerms(m, *pd, x.head(m.nq), x.tail(m.nv));
      c.check(vf::throws([&] { cm->calc(d, x); }) && vf::throws([&] { cm->calcDiff(d, x); }) && vf::throws([&] { cm->updateForce(d, V(r.vec(n))); }) &&
                  vf::throws([&] { cm->updateForceDiff(d, M::Zero(n, 2 * m.nv), M::Zero(n, nu)); }) && vf::throws([&] { cm->updateRneaDiff(d, *pd); }),
              "data-of-another-stack-accepted");
    } else {  // evaluate
      ++evals;
      cr::ContactModelMultiple* mod = cm.get();
      std::shared_ptr<cr::ContactModelMultiple> cast;
      Live l;
      if (r.coin(.15)) {
        vf::Quiet q;
        cast = std::make_shared<cr::ContactModelMultiple>(cm->cast<double>());
        mod = cast.get();
        bookkeeping(c, *mod, ms, "cast:");
        c.check(mod->getComputeAllContacts() == all && mod->get_nu() == nu, "cast:settings");
        bool ok = mod->get_contacts().size() == ms.size();
        for (auto& k : ms) ok = ok && mod->get_contacts().count(k.first) && kept(k.second, mod->get_contacts().at(k.first)->contact);
        c.check(ok, "cast:contacts");
        c.count("casts");
      }
      if (!mod->get_contacts().empty() && !cast && !ds.empty() && r.coin(.6)) l = r.pick(ds);
      else {
        l.pd = std::make_shared<pin::Data>(m);
        l.d = mod->createData(l.pd.get());
        if (!cast) ds.push_back(l);
      }
      auto d = l.d;
      const V x = point(r, m), a = r.vec(m.nv, 2);
      const V q = x.head(m.nq), v = x.tail(m.nv);
      bool ok = true;
      for (auto& k : ms) ok = ok && angle_ok(k.second, m, x);
      if (!ok) { c.count("skipped: reference too far"); continue; }
      pin::computeAllTerms(m, *l.pd, q, v);
      mod->calc(d, x);
      long n = 0;
      for (auto& k : ms) {
        const Spec& z = k.second;
        if (!z.active && !all) continue;
        V a0 = V::Zero(z.dim);
        M J = M::Zero(z.dim, m.nv);
        if (z.active) { const Row w = row(z, m, x, V::Zero(m.nv)); a0 = w.a0; J = w.J; }
        c.check(vf::relerr(d->a0.segment(n, z.dim), a0) < 1e-8, "a0", VF_STR(z.dim << " " << z.type << " " << all << ": " << d->a0.segment(n, z.dim).transpose() << " / " << a0.transpose()));
        c.check(err(d->Jc.middleRows(n, z.dim), J) < 1e-10, "Jc", VF_STR(z.dim << " " << z.type << " " << all));
        n += z.dim;
      }
      c.check(std::size_t(n) == (all ? mod->get_nc_total() : mod->get_nc()), "stacked-rows");
      mod->updateAcceleration(d, a);
      c.check(vf::same(d->dv, a), "updateAcceleration");
      const V f = r.vec(n, 3);
      mod->updateForce(d, f);
      pin::container::aligned_vector<pin::Force> fj(m.njoints, pin::Force::Zero());
      n = 0;
      for (auto& k : ms) {
        const Spec& z = k.second;
        const auto& di = d->contacts.at(k.first);
        if (z.active) {
          const pin::Force e = joint_force(z, m, x, V(f.segment(n, z.dim)));
          fj[m.frames[z.id].parentJoint] += e;
          c.check(ferr(di->fext, e) < 1e-10, "force-on-joint", VF_STR(z.dim << " " << z.type));
          V w = V::Zero(6);
          const V fi = f.segment(n, z.dim);
          if (z.dim == 6) w = fi;
          if (z.dim == 3) w.head(3) = fi;
          if (z.dim == 2) { w[0] = fi[0]; w[2] = fi[1]; }
          if (z.dim == 1) w[2] = fi[0];
          c.check(vf::relerr(V(di->f.toVector()), w) < 1e-13, "force-of-contact", VF_STR(z.dim << " " << z.type));
        } else
          c.check(vf::amax(V(di->fext.toVector())) == 0 && vf::amax(V(di->f.toVector())) == 0, "force-of-inactive-contact");
        if (z.active || all) n += z.dim;
      }
      for (int j = 0; j < m.njoints; ++j) c.check(ferr(d->fext[j], fj[j]) < 1e-10, "joint-forces", VF_STR(j));
      // derivatives
      if (r.coin(.5)) {
        pin::computeRNEADerivatives(m, *l.pd, q, v, a, d->fext);
        l.pd->dtau_dq.setZero();
        mod->updateRneaDiff(d, *l.pd);
        const M got = l.pd->dtau_dq;
        M want = M::Zero(m.nv, m.nv);
        mod->calcDiff(d, x);
        n = 0;
        const pv::Kin kin = pv::kinematics(m, q, v, a);
        for (auto& k : ms) {
          const Spec& z = k.second;
          if (z.active) {
            const std::size_t j = m.frames[z.id].parentJoint;
            const M Jj = kin.oMi[j].inverse().toActionMatrix() * pv::jacobian(m, kin, j);
            const V fi = f.segment(n, z.dim);
            want -= Jj.transpose() * fdx(m, x, [&](const V& y) { return V(joint_force(z, m, y, fi).toVector()); }, m.nv);
          }
          if (z.active || all) n += z.dim;
        }
        c.check(err(got, want) < 1e-7, "force-turning-with-the-frame", VF_STR(err(got, want)));
        n = 0;
        for (auto& k : ms) {
          const Spec& z = k.second;
          if (!z.active && !all) continue;
          M D = M::Zero(z.dim, 2 * m.nv);
          if (z.active) D = ddx(m, x, [&](const V& y) { return row(z, m, y, a).a0; });
          c.check(err(d->da0_dx.middleRows(n, z.dim), D) < 1e-6, "da0_dx", VF_STR(z.dim << " " << z.type << " " << all << " " << err(d->da0_dx.middleRows(n, z.dim), D)));
          if (z.active) c.maxi("da0_dx error", err(d->da0_dx.middleRows(n, z.dim), D));
          n += z.dim;
        }
        const M fx = r.mat(n, 2 * m.nv), fu = r.mat(n, nu), ax = r.mat(m.nv, 2 * m.nv);
        mod->updateForceDiff(d, fx, fu);
        mod->updateAccelerationDiff(d, ax);
        c.check(vf::same(d->ddv_dx, ax), "updateAccelerationDiff");
        n = 0;
        for (auto& k : ms) {
          const Spec& z = k.second;
          const auto& di = d->contacts.at(k.first);
          if (z.active) c.check(vf::same(M(di->df_dx), M(fx.middleRows(n, z.dim))) && vf::same(M(di->df_du), M(fu.middleRows(n, z.dim))), "force-derivatives");
          else c.check(vf::amax(di->df_dx) == 0 && vf::amax(di->df_du) == 0, "force-derivatives-of-inactive-contact");
          if (z.active || all) n += z.dim;
        }
        c.count("contact derivatives");
      }
      c.count(all ? "evaluations of all contacts" : "evaluations of active contacts");
      std::set<std::size_t> js;
      for (auto& k : ms) if (k.second.active && !js.insert(m.frames[k.second.id].parentJoint).second) { c.count("contacts sharing a joint"); break; }
    }
    bookkeeping(c, *cm, ms, "");
    {
      vf::Quiet q;
      c.check(cm->getContactStatus(name) == (ms.count(name) && ms[name].active), "status");
    }
    c.check(cm->getComputeAllContacts() == all && cm->get_contacts().size() == ms.size() && cm->get_nu() == nu, "settings");
    bool ok = true;
    for (auto& k : ms) ok = ok && cm->get_contacts().count(k.first) && kept(k.second, cm->get_contacts().at(k.first)->contact);
    c.check(ok, "contacts-kept");
  }
  std::ostringstream os;
  os << *cm;
  {
    bool ok = true;
    for (auto& k : ms) ok = ok && os.str().find(k.first) != std::string::npos;
    c.check(ok, "printing");
  }
  c.sig(VF_STR(shape(b) << h));
}

static M impulse_jac(const Spec& s, const pin::Model& m, const V& x) { return row(s, m, x, V::Zero(m.nv)).J; }
VF_SCENARIO(impulses, 500, 8000) {
  const Robot b = robot(r);
  const pin::Model& m = *b.model;
  const StateP s = std::make_shared<cr::StateMultibody>(b.model);
  auto im = std::make_shared<cr::ImpulseModelMultiple>(s);
  Map ms;
  struct L { std::shared_ptr<pin::Data> pd; std::shared_ptr<cr::ImpulseDataMultiple> d; };
  std::vector<L> ds;
  std::string h;
  int evals = 0;
  for (int step = r.irange(4, 12); step > 0 || evals == 0; --step) {
    const std::string name = r.pick({"arm", "foot", "b", "a1", "zeta"});
    const int op = step <= 0 ? 9 : r.irange(0, 10);
    h += "aaarsssweee"[op];
    if (op < 3) {
      Spec k = spec(r, b, name, r.pick({3, 6}));
      k.gains.setZero();
      k.active = r.coin(.7);
      std::shared_ptr<cr::ImpulseModelAbstract> p;
      if (k.dim == 3) p = std::make_shared<cr::ImpulseModel3D>(s, k.id, k.type);
      else p = std::make_shared<cr::ImpulseModel6D>(s, k.id, k.type);
      {
        vf::Quiet q;
        im->addImpulse(name, p, k.active);
      }
      if (ms.count(name)) c.count("duplicate additions");
      else { ms[name] = k; ds.clear(); }
      c.count("additions");
    } else if (op == 3) {
      {
        vf::Quiet q;
        im->removeImpulse(name);
      }
      if (ms.erase(name)) ds.clear();
      c.count("removals");
    } else if (op < 7) {
      const bool st = r.coin();
      {
        vf::Quiet q;
        im->changeImpulseStatus(name, st);
      }
      if (ms.count(name)) ms[name].active = st;
      c.count("status changes");
    } else if (op == 7) {
      auto pd = std::make_shared<pin::Data>(m);
      auto d = im->createData(pd.get());
      const long n = long(im->get_nc());
      c.check(vf::throws([&] { im->updateForce(d, V(r.vec(n + 1))); }) && vf::throws([&] { im->updateForceDiff(d, M::Zero(n + 1, 2 * m.nv)); }) &&
                  vf::throws([&] { im->updateVelocity(d, V(r.vec(m.nv + 1))); }) && vf::throws([&] { im->updateVelocityDiff(d, M::Zero(m.nv, m.nv)); }),
              "impulse:wrong-dimension-accepted");
      d->impulses.insert(std::make_pair("stray", std::shared_ptr<cr::ImpulseDataAbstract>()));
      const V x = point(r, m);
      pin::computeAllTerms(m, *pd, x.head(m.nq), x.tail(m.nv));
      c.check(vf::throws([&] { im->calc(d, x); }) && vf::throws([&] { im->calcDiff(d, x); }) && vf::throws([&] { im->updateForce(d, V(r.vec(n))); }) &&
                  vf::throws([&] { im->updateForceDiff(d, M::Zero(n, 2 * m.nv)); }) && vf::throws([&] { im->updateRneaDiff(d, *pd); }),
              "impulse:data-of-another-stack-accepted");
    } else {
      ++evals;
      cr::ImpulseModelMultiple* mod = im.get();
      std::shared_ptr<cr::ImpulseModelMultiple> cast;
      if (r.coin(.15)) {
        vf::Quiet q;
        cast = std::make_shared<cr::ImpulseModelMultiple>(im->cast<double>());
        mod = cast.get();
        bookkeeping(c, *mod, ms, "impulse-cast:");
        c.count("casts");
      }
      L l;
      if (!cast && !ds.empty() && r.coin(.6)) l = r.pick(ds);
      else {
        l.pd = std::make_shared<pin::Data>(m);
        l.d = mod->createData(l.pd.get());
        if (!cast) ds.push_back(l);
      }
      auto d = l.d;
      const V x = point(r, m), q = x.head(m.nq), v = x.tail(m.nv), z0 = V::Zero(m.nv);
      pin::computeAllTerms(m, *l.pd, q, v);
      mod->calc(d, x);
      long n = 0;
      for (auto& k : ms) {
        if (!k.second.active) continue;
        c.check(err(d->Jc.middleRows(n, k.second.dim), impulse_jac(k.second, m, x)) < 1e-10, "impulse:Jc", VF_STR(k.second.dim << " " << k.second.type));
        n += k.second.dim;
      }
      const V f = r.vec(n, 3);
      mod->updateVelocity(d, v);
      c.check(vf::same(d->vnext, v), "impulse:updateVelocity");
      mod->updateForce(d, f);
      pin::container::aligned_vector<pin::Force> fj(m.njoints, pin::Force::Zero());
      n = 0;
      for (auto& k : ms) {
        const Spec& z = k.second;
        const auto& di = d->impulses.at(k.first);
        if (!z.active) { c.check(vf::amax(V(di->fext.toVector())) == 0 && vf::amax(V(di->f.toVector())) == 0, "impulse:force-of-inactive"); continue; }
        const V fi = f.segment(n, z.dim);
        const pin::Force e = joint_force(z, m, x, fi);
        fj[m.frames[z.id].parentJoint] += e;
        V w = V::Zero(6);
        w.head(z.dim) = fi;
        c.check(ferr(di->fext, e) < 1e-10, "impulse:force-on-joint", VF_STR(z.dim << " " << z.type));
        c.check(vf::relerr(V(di->f.toVector()), w) < 1e-13, "impulse:force", VF_STR(z.dim << " " << z.type));
        n += z.dim;
      }
      for (int j = 0; j < m.njoints; ++j) c.check(ferr(d->fext[j], fj[j]) < 1e-10, "impulse:joint-forces", VF_STR(j));
      if (r.coin(.5)) {
        pin::computeRNEADerivatives(m, *l.pd, q, z0, z0, d->fext);
        pin::computeForwardKinematicsDerivatives(m, *l.pd, q, v, z0);
        l.pd->dtau_dq.setZero();
        mod->calcDiff(d, x);
        mod->updateRneaDiff(d, *l.pd);
        const M got = l.pd->dtau_dq;
        M want = M::Zero(m.nv, m.nv);
        const pv::Kin kin = pv::kinematics(m, q, v, z0);
        n = 0;
        for (auto& k : ms) {
          const Spec& z = k.second;
          if (!z.active) continue;
          const std::size_t j = m.frames[z.id].parentJoint;
          const M Jj = kin.oMi[j].inverse().toActionMatrix() * pv::jacobian(m, kin, j);
          const V fi = f.segment(n, z.dim);
          want -= Jj.transpose() * fdx(m, x, [&](const V& y) { return V(joint_force(z, m, y, fi).toVector()); }, m.nv);
          const M D = fdx(m, x, [&](const V& y) { return V(impulse_jac(z, m, y) * v); }, m.nv);
          c.check(err(d->dv0_dq.middleRows(n, z.dim), D) < 1e-6, "impulse:dv0_dq", VF_STR(z.dim << " " << z.type << " " << err(d->dv0_dq.middleRows(n, z.dim), D)));
          c.maxi("dv0_dq error", err(d->dv0_dq.middleRows(n, z.dim), D));
          n += z.dim;
        }
        c.check(err(got, want) < 1e-7, "impulse:force-turning-with-the-frame", VF_STR(err(got, want)));
        const M fx = r.mat(n, 2 * m.nv), vx = r.mat(m.nv, 2 * m.nv);
        mod->updateForceDiff(d, fx);
        mod->updateVelocityDiff(d, vx);
        c.check(vf::same(d->dvnext_dx, vx), "impulse:updateVelocityDiff");
        n = 0;
        for (auto& k : ms) {
          const auto& di = d->impulses.at(k.first);
          if (!k.second.active) { c.check(vf::amax(di->df_dx) == 0, "impulse:force-derivatives-of-inactive"); continue; }
          c.check(vf::same(M(di->df_dx), M(fx.middleRows(n, k.second.dim))), "impulse:force-derivatives");
          n += k.second.dim;
        }
        c.count("impulse derivatives");
      }
      c.count("evaluations of impulses");
    }
    bookkeeping(c, *im, ms, "impulse:");
    {
      vf::Quiet q;
      c.check(im->getImpulseStatus(name) == (ms.count(name) && ms[name].active), "impulse:status");
    }
    bool ok = im->get_impulses().size() == ms.size();
    for (auto& k : ms) {
      ok = ok && im->get_impulses().count(k.first);
      if (!ok) break;
      const auto& p = im->get_impulses().at(k.first)->impulse;
      ok = p->get_nc() == std::size_t(k.second.dim) && p->get_id() == k.second.id && p->get_type() == k.second.type;
    }
    c.check(ok, "impulse:kept");
  }
  c.sig(VF_STR("i" << shape(b) << h));
}
VF_MAIN("C38")
