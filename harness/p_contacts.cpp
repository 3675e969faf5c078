// C33: contacts and impulses.  Every kind x reference frame x stabilisation gains x robot x frame x point:
// the constraint Jacobian, the constrained acceleration and its derivatives, the force at the joint and its
// derivative, against kinematics differentiated numerically; then histories of edits of stacks of them.
#include "mb.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/contacts/contact-2d.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/contacts/contact-6d.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/numdiff/contact.hpp"
#include "crocoddyl/multibody/impulses/impulse-3d.hpp"
#include "crocoddyl/multibody/impulses/impulse-6d.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
using namespace crocoddyl;
typedef std::shared_ptr<ContactModelAbstract> ContactP;
typedef std::shared_ptr<ImpulseModelAbstract> ImpulseP;

struct Spec {  // what a contact constrains
  int kind;    // 1, 2, 3, 6
  pin::ReferenceFrame rf;
  M3 axis;  // 1D
  pin::SE3 ref;
  double xref;
  Eigen::Vector2d gains;
  long nc() const { return kind == 6 ? 6 : kind; }
  bool local() const { return rf == pin::LOCAL || kind == 2; }
};
static ContactP build(const Robot& r, const Spec& s, pin::FrameIndex f, long nu) {
  switch (s.kind) {
    case 1: return std::make_shared<ContactModel1D>(r.state, f, s.xref, s.rf, s.axis, nu, s.gains);
    case 2: return std::make_shared<ContactModel2D>(r.state, f, Eigen::Vector2d(s.ref.p[0], s.ref.p[2]), nu, s.gains);
    case 3: return std::make_shared<ContactModel3D>(r.state, f, s.ref.p, s.rf, nu, s.gains);
    default: return std::make_shared<ContactModel6D>(r.state, f, s.ref, s.rf, nu, s.gains);
  }
}
// the part of a frame vector (linear and angular, in the axes of the contact) that is constrained
static Vec pick(const Spec& s, const Vec& w) {
  switch (s.kind) {
    case 1: return Vec::Constant(1, (s.axis * w.head(3))[2]);
    case 2: return Eigen::Vector2d(w[0], w[2]);
    case 3: return w.head(3);
    default: return w;
  }
}
static Vec axes(const Spec& s, const pin::SE3& M, const Vec& v) { return s.local() ? v : turned(M.R, v); }
static Vec velocity(const Robot& r, const Spec& s, pin::FrameIndex f, const Vec& x) {
  const Motion6 m = motion(r, x, Vec::Zero(r.model->nv), f);
  return pick(s, axes(s, m.M, m.v));
}
static Mat jacobian(const Robot& r, const Spec& s, pin::FrameIndex f, const Vec& x) {
  const long nv = r.model->nv;
  Mat J(s.nc(), nv);
  for (long i = 0; i < nv; ++i) J.col(i) = velocity(r, s, f, cat(x.head(r.model->nq), Vec::Unit(nv, i)));
  return J;
}
// acceleration of the point (3D and below: of the material point; 6D: rate of the twist), and the stabilisation
static Vec acceleration(const Robot& r, const Spec& s, pin::FrameIndex f, const Vec& x, const Vec& a) {
  const long nv = r.model->nv;
  const double h = 1e-5;
  auto later = [&](double t) {
    Vec d(2 * nv);
    const Vec v = x.tail(nv);
    d << v * t + a * (t * t / 2), a * t;
    return motion(r, plus(r.state, x, d), a, f);
  };
  const Motion6 m = motion(r, x, a, f), p = later(h), n = later(-h);
  Vec acc(6);
  if (s.kind == 6) {
    acc = (p.v - n.v) / (2 * h);
  } else {  // world velocity of the origin, differentiated, then seen in the frame
    acc << m.M.R.transpose() * (p.M.R * p.v.head(3) - n.M.R * n.v.head(3)) / (2 * h), V3::Zero();
  }
  acc += s.gains[1] * m.v;
  if (s.kind == 6) {
    acc += s.gains[0] * pin::log6(s.ref.inverse() * m.M).m;
  } else if (s.kind == 3) {
    acc.head(3) += s.gains[0] * m.M.R.transpose() * (m.M.p - s.ref.p);
  } else if (s.kind == 1) {
    acc.head(3) += s.gains[0] * m.M.R.transpose() * m.M.p;
  }
  Vec o = pick(s, axes(s, m.M, acc));
  if (s.kind == 1) o[0] -= s.gains[0] * s.xref;
  if (s.kind == 2) o += s.gains[0] * Eigen::Vector2d(m.M.p[0] - s.ref.p[0], m.M.p[2] - s.ref.p[2]);
  return o;
}
static Spec spec(mc::Ctx& c, int kind, const pin::SE3& near) {
  Spec s;
  s.kind = kind;
  s.rf = kind == 2 ? pin::LOCAL : RF[c.choose(3, "reference frame")];
  s.axis = M3::Identity();
  if (kind == 1) {
    const int k = c.choose(3, "axis");
    if (k == 1) s.axis = turn(0.4, -0.7, 1.1);
    if (k == 2) s.axis = turn(M_PI / 2, 0, 0);
  }
  s.gains.setZero();
  const int g = c.choose(4, "gains");
  if (g & 1) s.gains[0] = 3.;
  if (g & 2) s.gains[1] = 2.;
  s.ref = near * at(0.2, -0.15, 0.1, 0.3, -0.2, 0.4);
  // (a point reference along a body axis is not a meaningful quantity: zero there)
  s.xref = s.rf == pin::LOCAL ? 0. : 0.35;
  return s;
}
static void kinematics(const Robot& r, pin::Data& d, const Vec& x, const Vec& a) {
  pin::computeForwardKinematicsDerivatives(*r.model, d, x.head(r.model->nq), x.tail(r.model->nv), a);
}
// dtau_dq of the bias torque with a constant force on the frame
template <class D>
static void forces(mc::Ctx& c, const Robot& r, const Spec& s, pin::FrameIndex f, const Vec& x, const Vec& a, const std::shared_ptr<D>& d, const Vec& lam) {
  const long nq = r.model->nq, nv = r.model->nv;
  const pin::JointIndex j = r.model->frames[f].parentJoint;
  pin::container::aligned_vector<pin::Force> fext(r.model->njoints, pin::Force::Zero());
  fext[j] = d->fext;
  const Vec q = x.head(nq), v = x.tail(nv);
  pin::Data pd(*r.model);
  const Vec t1 = pin::rnea(*r.model, pd, q, v, a, fext), t0 = invdyn(r, x, a);
  const Mat J = jacobian(r, s, f, x);
  c.check(close(Vec(t0 - t1), Vec(J.transpose() * lam), 1e-8), "force", "joint torques of the contact force " + show(Vec(t0 - t1)) + ", J'f = " + show(Vec(J.transpose() * lam)));
  pin::computeRNEADerivatives(*r.model, pd, q, v, a, fext);
  Mat got = pd.dtau_dq;
  if (!s.local()) got += d->dtau_dq;
  const Mat ref = diff_x(r.state, x, [&](const Vec& y) { return Vec(invdyn(r, y, a) - jacobian(r, s, f, y).transpose() * lam); }).leftCols(nv);
  c.check(close(got, ref, 2e-6), "force-derivative", "derivative of the torques with the force held " + show(got) + ", expected " + show(ref));
  if (s.local()) c.check(same(d->dtau_dq, Mat(Mat::Zero(nv, nv))), "force-derivative-local", "a force fixed to the body adds " + show(d->dtau_dq));
  // the force is reported in the coordinates of the contact
  Vec w = Vec::Zero(6);
  if (s.kind == 1) w[2] = lam[0];
  if (s.kind == 2) w[0] = lam[0], w[2] = lam[1];
  if (s.kind == 3) w.head(3) = lam;
  if (s.kind == 6) w = lam;
  c.check(close(Vec(d->f.m), w), "force-coordinates", "reported force " + show(Vec(d->f.m)) + ", expected " + show(w));
}

static void contacts(mc::Ctx& c) {
  const int kind = c.pick({1, 2, 3, 6}, "contact");
  const Robot r = robot(kind == 2 ? 2 : c.choose(3, "robot"));
  const pin::FrameIndex f = r.frames[c.choose(3, "frame")];
  const int i0 = c.choose(3, "point");
  const Vec x0 = mbpoint(r, i0);
  const long nv = r.model->nv, nu = nv - (c.flip("fewer controls") ? 1 : 0);
  Spec s = spec(c, kind, motion(r, mbpoint(r, 0), Vec::Zero(nv), f).M);
  ContactP m = build(r, s, f, nu);
  c.op("%s frame %s: %dD contact %s gains %g %g, point %d", r.name, r.model->frames[f].name.c_str(), kind, RFN[s.rf == pin::WORLD ? 1 : s.rf == pin::LOCAL ? 0 : 2], s.gains[0], s.gains[1], i0);
  c.check((long)m->get_nc() == s.nc() && (long)m->get_nu() == nu && m->get_id() == f && m->get_type() == s.rf, "construction", "wrong dimensions, frame or type");
  pin::Data pd(*r.model);
  auto d = m->createData(&pd);
  // two evaluations in the same data, the second elsewhere
  const int rounds = 2;
  for (int k = 0; k < rounds; ++k) {
    const Vec x = k ? mbpoint(r, (i0 + 1) % 3) : x0, a = Gen(40 + k).vec(nv);
    if (k) {  // edits through the setters take effect
      if (kind != 2) m->set_type(s.rf = RF[((s.rf == pin::LOCAL ? 0 : s.rf == pin::WORLD ? 1 : 2) + 1) % 3]);
      s.ref = s.ref * at(-0.1, 0.2, 0.05, 0.1, 0.2, -0.3);
      s.xref = s.rf == pin::LOCAL ? 0. : -0.2;
      if (kind == 1) {
        auto m1 = static_cast<ContactModel1D*>(m.get());
        m1->set_reference(s.xref);
        s.axis = s.axis * turn(0.2, 0.1, -0.3);
        m1->set_axis_rotation(s.axis);
      }
      if (kind == 2) static_cast<ContactModel2D*>(m.get())->set_reference(Eigen::Vector2d(s.ref.p[0], s.ref.p[2]));
      if (kind == 3) static_cast<ContactModel3D*>(m.get())->set_reference(s.ref.p);
      if (kind == 6) static_cast<ContactModel6D*>(m.get())->set_reference(s.ref);
    }
    kinematics(r, pd, x, a);
    m->calc(d, x);
    const Mat J = jacobian(r, s, f, x);
    c.check(close(d->Jc, J, 1e-9), "Jacobian", mc::strf("evaluation %d: ", k) + show(d->Jc) + ", expected " + show(J));
    const Vec a0 = acceleration(r, s, f, x, a);
    c.check(close(d->a0, a0, 2e-8), "acceleration", mc::strf("evaluation %d: ", k) + show(d->a0) + ", expected " + show(a0));
    m->calcDiff(d, x);
    c.check(close(d->a0, a0, 2e-8), "acceleration-kept", mc::strf("evaluation %d: after calcDiff ", k) + show(d->a0) + ", expected " + show(a0));
    const Mat da = diff_x(r.state, x, [&](const Vec& y) {
      pin::Data p2(*r.model);
      auto d2 = m->createData(&p2);
      kinematics(r, p2, y, a);
      m->calc(d2, y);
      return Vec(d2->a0);
    });
    c.check(close(d->da0_dx, da, 5e-7), "acceleration-derivative", mc::strf("evaluation %d: ", k) + show(d->da0_dx) + ", expected " + show(da));
    const Vec lam = Gen(60 + k).vec(s.nc()) * 5;
    m->updateForce(d, lam);
    forces(c, r, s, f, x, a, d, lam);
    const Mat fx = Gen(70 + k).mat(s.nc(), 2 * nv), fu = Gen(80 + k).mat(s.nc(), nu);
    m->updateForceDiff(d, fx, fu);
    c.check(same(d->df_dx, fx) && same(d->df_du, fu), "updateForceDiff", "force derivatives not stored");
    for (int w = 0; w < 5; ++w) {
      const bool bad = w == 0 ? throws([&] { m->updateForce(d, Vec::Zero(s.nc() + 1)); })
                     : w == 1 ? throws([&] { m->updateForceDiff(d, Mat::Zero(s.nc() + 1, 2 * nv), fu); })
                     : w == 2 ? throws([&] { m->updateForceDiff(d, Mat::Zero(s.nc(), 2 * nv - 1), fu); })
                     : w == 3 ? throws([&] { m->updateForceDiff(d, fx, Mat::Zero(s.nc() + 1, nu)); })
                              : throws([&] { m->updateForceDiff(d, fx, Mat::Zero(s.nc(), nu + 1)); });
      c.check(bad && same(d->df_dx, fx) && same(d->df_du, fu), "sizes", mc::strf("argument %d of the wrong size accepted", w));
    }
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(kind, x), d->a0), d->Jc));
  }
  {  // a cast one is the same contact
    const Vec x = mbpoint(r, i0), a = Gen(44).vec(nv), lam = Gen(64).vec(s.nc());
    ContactP t = m->template cast<double>();
    pin::Data p1(*r.model), p2(*r.model);
    kinematics(r, p1, x, a), kinematics(r, p2, x, a);
    auto d1 = m->createData(&p1), d2 = t->createData(&p2);
    m->calc(d1, x), t->calc(d2, x);
    m->calcDiff(d1, x), t->calcDiff(d2, x);
    m->updateForce(d1, lam), t->updateForce(d2, lam);
    c.check(t->get_nc() == m->get_nc() && t->get_nu() == m->get_nu() && t->get_id() == m->get_id() && t->get_type() == m->get_type() && same(d1->Jc, d2->Jc) && same(d1->a0, d2->a0) && same(d1->da0_dx, d2->da0_dx) && same(d1->f.m, d2->f.m) && same(d1->fext.m, d2->fext.m) && same(d1->dtau_dq, d2->dtau_dq),
            "cast", "the cast contact is another one");
  }
  m->setZeroForce(d);
  m->setZeroForceDiff(d);
  c.check(d->f.m.isZero(0) && d->fext.m.isZero(0) && d->df_dx.isZero(0) && d->df_du.isZero(0), "zero-force", "not zero after setZeroForce and setZeroForceDiff");
  c.outcome(mc::strf("%dD %s", kind, RFN[s.rf == pin::WORLD ? 1 : s.rf == pin::LOCAL ? 0 : 2]));
}

// C24: numerical differentiation of a contact, against the exact derivatives
static void numdiff(mc::Ctx& c) {
  const int kind = c.pick({1, 2, 3, 6}, "contact");
  const Robot r = robot(kind == 2 ? 2 : c.choose(3, "robot"));
  const pin::FrameIndex f = r.frames[c.choose(3, "frame")];
  const long nv = r.model->nv, nu = nv - 1;
  const int i0 = c.choose(3, "point");
  const Spec s = spec(c, kind, motion(r, mbpoint(r, 0), Vec::Zero(nv), f).M);
  const double h = c.pick({0., 1e-6, 1e-4}, "disturbance");
  ContactP m = build(r, s, f, nu);
  ContactModelNumDiff n(m);
  if (h > 0) n.set_disturbance(h);
  const double e = n.get_disturbance();
  c.check(h > 0 ? e == h : e > 1e-9 && e < 1e-6, "disturbance", mc::strf("the disturbance is %g", e));
  c.check(throws([&] { n.set_disturbance(-1e-3); }) && n.get_disturbance() == e, "disturbance-refusal", "a negative disturbance was accepted");
  const bool casted = c.flip("cast");
  ContactModelNumDiff k = casted ? n.cast<double>() : n;
  if (casted) k.set_disturbance(e);
  c.check((long)k.get_nc() == s.nc() && (long)k.get_nu() == nu && k.get_type() == m->get_type() && (casted || k.get_model() == m), "dimensions", "another dimension, type or model");
  pin::Data pd(*r.model), pe(*r.model);
  Vec a;
  int calls = 0;
  k.set_reevals({[&](const Vec& y, const Vec&) { kinematics(r, pd, y, a), ++calls; }});
  auto d = k.createData(&pd), x0 = m->createData(&pe);
  c.op("%s %dD contact, disturbance %g", r.name, kind, e);
  for (int t = 0; t < 2; ++t) {
    const Vec x = mbpoint(r, (i0 + t) % 3);
    a = Gen(40 + t).vec(nv);
    kinematics(r, pd, x, a), kinematics(r, pe, x, a);
    k.calc(d, x), m->calc(x0, x);
    c.check(close(d->a0, x0->a0, 1e-12), "value", "the constrained acceleration is " + show(d->a0) + ", the contact's is " + show(x0->a0));
    calls = 0;
    k.calcDiff(d, x), m->calcDiff(x0, x);
    c.check(calls == 2 * nv, "evaluations", mc::strf("the kinematics were updated %d times for %ld directions", calls, 2 * nv));
    c.check(close(d->a0, x0->a0, 1e-12), "value-kept", "differentiating changed the constrained acceleration");
    c.check(close(d->da0_dx, x0->da0_dx, 50 * e + 1e-13 / e), "derivative", "the derivative is " + show(d->da0_dx) + ", expected " + show(x0->da0_dx));
    c.check(throws([&] { k.updateForce(d, Vec::Zero(s.nc() + 1)); }), "force-size", "a force of another size was accepted");
    c.state(mc::hash_mat(mc::hash_mat(kind, x), d->a0));
  }
  c.outcome(mc::strf("%dD %g", kind, h));
}
static ImpulseP buildi(const Robot& r, const Spec& s, pin::FrameIndex f) {
  if (s.kind == 3) return std::make_shared<ImpulseModel3D>(r.state, f, s.rf);
  return std::make_shared<ImpulseModel6D>(r.state, f, s.rf);
}
static void impulses(mc::Ctx& c) {
  Spec s;
  s.kind = c.pick({3, 6}, "impulse");
  const Robot r = robot(c.choose(3, "robot"));
  const pin::FrameIndex f = r.frames[c.choose(3, "frame")];
  s.rf = RF[c.choose(3, "reference frame")];
  const int i0 = c.choose(3, "point");
  const long nv = r.model->nv;
  ImpulseP m = buildi(r, s, f);
  c.op("%s frame %s: %dD impulse %s, point %d", r.name, r.model->frames[f].name.c_str(), s.kind, RFN[s.rf == pin::WORLD ? 1 : s.rf == pin::LOCAL ? 0 : 2], i0);
  c.check((long)m->get_nc() == s.nc() && m->get_id() == f && m->get_type() == s.rf, "construction", "wrong dimensions, frame or type");
  pin::Data pd(*r.model);
  auto d = m->createData(&pd);
  for (int k = 0; k < 2; ++k) {
    const Vec x = mbpoint(r, (i0 + k) % 3), z = Vec::Zero(nv);
    if (k) m->set_type(s.rf = RF[((s.rf == pin::LOCAL ? 0 : s.rf == pin::WORLD ? 1 : 2) + 1) % 3]);
    kinematics(r, pd, x, z);
    m->calc(d, x);
    const Mat J = jacobian(r, s, f, x);
    c.check(close(d->Jc, J, 1e-9), "Jacobian", mc::strf("evaluation %d: ", k) + show(d->Jc) + ", expected " + show(J));
    m->calcDiff(d, x);
    const Mat dv = diff_x(r.state, x, [&](const Vec& y) { return velocity(r, s, f, y); }).leftCols(nv);
    c.check(close(d->dv0_dq, dv, 5e-7), "velocity-derivative", mc::strf("evaluation %d: ", k) + show(d->dv0_dq) + ", expected " + show(dv));
    const Vec lam = Gen(60 + k).vec(s.nc()) * 5;
    m->updateForce(d, lam);
    forces(c, r, s, f, x, z, d, lam);
    const Mat fx = Gen(70 + k).mat(s.nc(), 2 * nv);
    m->updateForceDiff(d, fx);
    c.check(same(d->df_dx, fx), "updateForceDiff", "force derivatives not stored");
    c.check(throws([&] { m->updateForce(d, Vec::Zero(s.nc() - 1)); }) && throws([&] { m->updateForceDiff(d, Mat::Zero(s.nc() + 1, 2 * nv)); }) && throws([&] { m->updateForceDiff(d, Mat::Zero(s.nc(), nv)); }) && same(d->df_dx, fx),
            "sizes", "an argument of the wrong size accepted");
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(s.kind + 10, x), d->dv0_dq), d->Jc));
  }
  {
    const Vec x = mbpoint(r, i0), z = Vec::Zero(nv), lam = Gen(64).vec(s.nc());
    ImpulseP t = m->template cast<double>();
    pin::Data p1(*r.model), p2(*r.model);
    kinematics(r, p1, x, z), kinematics(r, p2, x, z);
    auto d1 = m->createData(&p1), d2 = t->createData(&p2);
    m->calc(d1, x), t->calc(d2, x);
    m->calcDiff(d1, x), t->calcDiff(d2, x);
    m->updateForce(d1, lam), t->updateForce(d2, lam);
    c.check(t->get_nc() == m->get_nc() && t->get_id() == m->get_id() && t->get_type() == m->get_type() && same(d1->Jc, d2->Jc) && same(d1->dv0_dq, d2->dv0_dq) && same(d1->f.m, d2->f.m) && same(d1->fext.m, d2->fext.m) && same(d1->dtau_dq, d2->dtau_dq),
            "cast", "the cast impulse is another one");
  }
  m->setZeroForce(d);
  m->setZeroForceDiff(d);
  c.check(d->f.m.isZero(0) && d->fext.m.isZero(0) && d->df_dx.isZero(0), "zero-force", "not zero after setZeroForce and setZeroForceDiff");
  c.outcome(mc::strf("impulse %dD %s", s.kind, RFN[s.rf == pin::WORLD ? 1 : s.rf == pin::LOCAL ? 0 : 2]));
}

// -- stacks ------------------------------------------------------------------------------------------------------
// uniform access to the stack of contacts and the stack of impulses
struct CStack {
  typedef ContactModelMultiple Model;
  typedef ContactP Item;
  static std::shared_ptr<Model> make(const Robot& r, long nu) { return std::make_shared<Model>(r.state, nu); }
  static void add(Model& m, const std::string& n, const Item& i, bool a) { m.addContact(n, i, a); }
  static void remove(Model& m, const std::string& n) { m.removeContact(n); }
  static void status(Model& m, const std::string& n, bool a) { m.changeContactStatus(n, a); }
  static bool status(const Model& m, const std::string& n) { return m.getContactStatus(n); }
  static size_t size(const Model& m) { return m.get_contacts().size(); }
  static const std::map<std::string, std::shared_ptr<ContactDataAbstract>>& items(const ContactDataMultiple& d) { return d.contacts; }
  static Mat drift_dx(const ContactDataAbstract& d) { return d.da0_dx; }
  static Mat drift_dx(const ContactDataMultiple& d) { return d.da0_dx; }
  static void forceDiff(Model& m, const std::shared_ptr<ContactDataMultiple>& d, const Mat& fx, const Mat& fu) { m.updateForceDiff(d, fx, fu); }
  static bool fu(const ContactDataAbstract& d, const Mat& e) { return same(d.df_du, e); }
  static bool all(const Model& m) { return m.getComputeAllContacts(); }
  static void setAll(Model& m, bool b) { m.setComputeAllContacts(b); }
  static Item item(const Robot& r, const Spec& s, pin::FrameIndex f, long nu) { return build(r, s, f, nu); }
  static bool nu(const Model& m, long n) { return (long)m.get_nu() == n; }
  static const bool contact = true;
};
struct IStack {
  typedef ImpulseModelMultiple Model;
  typedef ImpulseP Item;
  static std::shared_ptr<Model> make(const Robot& r, long) { return std::make_shared<Model>(r.state); }
  static void add(Model& m, const std::string& n, const Item& i, bool a) { m.addImpulse(n, i, a); }
  static void remove(Model& m, const std::string& n) { m.removeImpulse(n); }
  static void status(Model& m, const std::string& n, bool a) { m.changeImpulseStatus(n, a); }
  static bool status(const Model& m, const std::string& n) { return m.getImpulseStatus(n); }
  static size_t size(const Model& m) { return m.get_impulses().size(); }
  static const std::map<std::string, std::shared_ptr<ImpulseDataAbstract>>& items(const ImpulseDataMultiple& d) { return d.impulses; }
  static Mat drift_dx(const ImpulseDataAbstract& d) { return d.dv0_dq; }
  static Mat drift_dx(const ImpulseDataMultiple& d) { return d.dv0_dq; }
  static void forceDiff(Model& m, const std::shared_ptr<ImpulseDataMultiple>& d, const Mat& fx, const Mat&) { m.updateForceDiff(d, fx); }
  static bool fu(const ImpulseDataAbstract&, const Mat&) { return true; }
  static bool all(const Model&) { return false; }
  static void setAll(Model&, bool) {}
  static Item item(const Robot& r, const Spec& s, pin::FrameIndex f, long) { return buildi(r, s, f); }
  static bool nu(const Model&, long) { return true; }
  static const bool contact = false;
};
static Vec driftOf(const ContactDataAbstract& d) { return d.a0; }
static Vec driftOf(const ImpulseDataAbstract&) { return Vec(); }
static Vec driftOf(const ContactDataMultiple& d) { return d.a0; }
static Vec driftOf(const ImpulseDataMultiple&) { return Vec(); }

template <class T>
static void stack(mc::Ctx& c) {
  const Robot r = robot(c.choose(2, "robot"));
  const long nq = r.model->nq, nv = r.model->nv, nu = T::contact ? nv - 1 : 0;
  struct Entry { typename T::Item item; Spec s; pin::FrameIndex f; bool active; };
  static const char* NAMES[] = {"b", "a", "c"};
  auto spec_of = [&](int n, int variant) {  // a: 6D on one body, b and c: 3D (or 1D) on the same other body
    Spec s;
    s.axis = turn(0.3, 0.1, -0.2);
    s.gains = Eigen::Vector2d(n ? 3. : 0., variant ? 2. : 0.);
    s.ref = at(0.1, 0.2, 0.3, 0.1, 0.1, 0.1);
    s.xref = 0;
    s.kind = n == 1 ? 6 : (n == 2 && T::contact) ? 1 : 3;
    s.rf = RF[(n + variant) % 3];
    return s;
  };
  const pin::FrameIndex F[] = {r.frames[1], r.frames[0], r.frames[2]};
  auto m = T::make(r, nu);
  std::map<std::string, Entry> ref;
  bool all = false;
  const int len = 1 + c.choose(c.thorough ? 4 : 3, "edits");
  for (int k = 0; k < len; ++k) {
    const int op = c.choose(T::contact ? 4 : 3, "edit");
    if (op == 3) {
      all = !all;
      T::setAll(*m, all);
      c.op("compute all %d", (int)all);
    } else {
      const int n = c.choose(3, "name");
      const std::string name = NAMES[n];
      if (op == 0) {
        const bool active = c.flip("active");
        const int variant = ref.count(name) ? 1 : 0;
        Entry e;
        e.s = spec_of(n, variant), e.f = F[n], e.active = active;
        e.item = T::item(r, e.s, e.f, nu);
        c.op("add %s %s", name.c_str(), active ? "active" : "inactive");
        T::add(*m, name, e.item, active);
        ref.emplace(name, e);
      } else if (op == 1) {
        c.op("remove %s", name.c_str());
        T::remove(*m, name);
        ref.erase(name);
      } else {
        const bool active = c.flip("active");
        c.op("status %s %d", name.c_str(), (int)active);
        T::status(*m, name, active);
        if (ref.count(name)) ref[name].active = active;
      }
    }
    long nc = 0, total = 0;
    std::set<std::string> on, off;
    for (auto& e : ref) {
      total += e.second.s.nc();
      if (e.second.active) nc += e.second.s.nc(), on.insert(e.first);
      else off.insert(e.first);
    }
    c.check((long)m->get_nc() == nc && (long)m->get_nc_total() == total, "count", mc::strf("nc %ld nc_total %ld, expected %ld and %ld", (long)m->get_nc(), (long)m->get_nc_total(), nc, total));
    c.check(m->get_active_set() == on && m->get_inactive_set() == off, "sets", "wrong sets of active and inactive items");
    c.check(T::size(*m) == ref.size() && T::nu(*m, nu) && T::all(*m) == all, "content", "wrong number of items or mode");
    for (auto& n : NAMES) c.check(T::status(*m, n) == (ref.count(n) && ref[n].active), "status", std::string(n) + " has the wrong status");
  }
  if (ref.empty()) { c.outcome("empty"); return; }
  // evaluation, then another one after a change of status in between (the data stay)
  pin::Data pd(*r.model);
  auto d = m->createData(&pd);
  std::string last;
  for (int k = 0; k < 2; ++k) {
    if (k) {
      const int t = c.choose((int)ref.size() + 1, "toggled in between");
      if (t) {
        auto it = ref.begin();
        std::advance(it, t - 1);
        it->second.active = !it->second.active;
        T::status(*m, it->first, it->second.active);
        c.op("toggle %s between evaluations", it->first.c_str());
      }
    }
    const Vec x = mbpoint(r, k), a = T::contact ? Gen(7 + k).vec(nv) : Vec(Vec::Zero(nv));
    const long nc = m->get_nc(), rows = all ? m->get_nc_total() : nc;
    const Vec lam = Gen(30 + k).vec(rows) * 4;
    const Mat fx = Gen(31 + k).mat(rows, 2 * nv), fu = Gen(32 + k).mat(rows, nu);
    kinematics(r, pd, x, a);
    m->calc(d, x);
    m->calcDiff(d, x);
    m->updateForce(d, lam);
    T::forceDiff(*m, d, fx, fu);
    pin::Data p2(*r.model);
    kinematics(r, p2, x, a);
    pin::container::aligned_vector<pin::Force> fext(r.model->njoints, pin::Force::Zero());
    Mat extra = Mat::Zero(nv, nv);
    long row = 0;
    for (auto& e : ref) {
      const Entry& s = e.second;
      const long n = s.s.nc();
      auto ds = T::items(*d).at(e.first);
      if (!s.active) {
        c.check(ds->f.m.isZero(0) && ds->fext.m.isZero(0) && ds->df_dx.isZero(0) && T::fu(*ds, Mat::Zero(n, nu)), "inactive-force", e.first + " is inactive and has a force");
        if (all) {
          c.check(Mat(d->Jc.middleRows(row, n)).isZero(0) && Mat(T::drift_dx(*d).middleRows(row, n)).isZero(0) && (!T::contact || Vec(driftOf(*d).segment(row, n)).isZero(0)), "inactive-rows", e.first + " is inactive and has rows");
          row += n;
        }
        continue;
      }
      auto di = s.item->createData(&p2);
      s.item->calc(di, x);
      const Vec drift = driftOf(*di);
      s.item->calcDiff(di, x);
      s.item->updateForce(di, lam.segment(row, n));
      c.check(close(Mat(d->Jc.middleRows(row, n)), di->Jc, 1e-12), "rows-Jc", mc::strf("evaluation %d: rows of %s", k, e.first.c_str()));
      c.check(close(Mat(T::drift_dx(*d).middleRows(row, n)), T::drift_dx(*di), 1e-12), "rows-derivative", mc::strf("evaluation %d: rows of %s", k, e.first.c_str()));
      if (T::contact) c.check(close(Vec(driftOf(*d).segment(row, n)), drift, 1e-12), "rows-a0", mc::strf("evaluation %d: rows of %s", k, e.first.c_str()));
      c.check(close(ds->f.m, di->f.m, 1e-12) && close(ds->fext.m, di->fext.m, 1e-12), "item-force", "force of " + e.first);
      c.check(same(ds->df_dx, fx.middleRows(row, n)) && T::fu(*ds, nu ? Mat(fu.middleRows(row, n)) : Mat(n, 0)), "item-force-derivative", "force derivative of " + e.first);
      fext[r.model->frames[s.f].parentJoint] += di->fext;
      if (!s.s.local()) extra += di->dtau_dq;
      row += n;
    }
    for (int j = 0; j < r.model->njoints; ++j)
      c.check(close(d->fext[j].m, fext[j].m, 1e-12), "joint-force", mc::strf("evaluation %d: force on joint %d is ", k, j) + show(d->fext[j].m) + ", the contacts on it add up to " + show(fext[j].m));
    pin::Data p3(*r.model);
    p3.dtau_dq = Gen(3).mat(nv, nv);
    const Mat before = p3.dtau_dq;
    m->updateRneaDiff(d, p3);
    c.check(close(p3.dtau_dq, Mat(before + extra), 1e-12), "rnea-derivative", "updateRneaDiff adds the wrong terms");
    bool refused = throws([&] { m->updateForce(d, Vec::Zero(rows + 1)); }) && throws([&] { T::forceDiff(*m, d, Mat::Zero(rows + 1, 2 * nv), fu); }) && throws([&] { T::forceDiff(*m, d, Mat::Zero(rows, nv), fu); });
    if (T::contact) refused = refused && throws([&] { T::forceDiff(*m, d, fx, Mat::Zero(rows, nu + 1)); });
    c.check(refused, "sizes", "an argument of the wrong size accepted");
    for (int j = 0; j < r.model->njoints; ++j) c.check(close(d->fext[j].m, fext[j].m, 1e-12), "refused", "a refused call changed the forces");
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(rows, d->Jc), lam), T::drift_dx(*d)));
  }
  auto t = m->template cast<double>();
  c.check(t.get_nc() == m->get_nc() && t.get_nc_total() == m->get_nc_total() && t.get_active_set() == m->get_active_set() && t.get_inactive_set() == m->get_inactive_set() && T::size(t) == ref.size() && T::nu(t, nu) && T::all(t) == all, "cast", "the cast stack is another one");
  // data of another number of items are refused
  auto more = T::make(r, nu);
  Entry e;
  auto dm = more->createData(&pd);
  c.check(throws([&] { m->calc(dm, mbpoint(r, 0)); }) && throws([&] { m->calcDiff(dm, mbpoint(r, 0)); }) && throws([&] { m->updateForce(dm, Vec::Zero(all ? m->get_nc_total() : m->get_nc())); }), "data", "data of another model accepted");
  (void)nq;
  c.outcome(mc::strf("%zu items, %ld of %ld rows", ref.size(), (long)m->get_nc(), (long)m->get_nc_total()));
}
static void contact_stack(mc::Ctx& c) { stack<CStack>(c); }
static void impulse_stack(mc::Ctx& c) { stack<IStack>(c); }

int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  mc::Explorer e;
  e.add("numdiff", numdiff);
  e.add("contacts", contacts);
  e.add("impulses", impulses);
  e.add("contact-stack", contact_stack);
  e.add("impulse-stack", impulse_stack);
  return e.main(argc, argv);
}
