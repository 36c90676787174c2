// C20: squashing the masses of links keeps mass, centre of mass and inertia.
#include "urdfgen.h"
#include <almath/scenegraph/urdfeigen.h>
using namespace ug;

namespace {
typedef Eigen::Transform<double, 3, Eigen::AffineCompact, Eigen::DontAlign> EPose;
void sameBody(const Body &got, const Body &want, double span, const std::string &what) {
  double tol = 1e-9;
  NEAR(got.mass, want.mass, tol * want.mass, what << ": mass");
  NEARV(got.com, want.com, tol * (1 + norm(want.com) + span), what << ": centre of mass");
  NEARM(got.inertia, want.inertia, tol * (maxabs(want.inertia) + want.mass * span * span), what << ": inertia");
}
Config zero(const Model &m) {
  Config c;
  for (auto &j : m.joints) c.q[j.name] = 0;
  return c;
}
// what a squash may change: inertials. Everything else shall be the same.
void othersUntouched(const Model &a, const Model &b, const std::set<std::string> &touched,
                     const std::set<std::string> &retyped) {
  CHECK(a.order == b.order, "elements moved in the document");
  for (size_t i = 0; i < a.links.size(); ++i) {
    const MLink &x = a.links[i], &y = b.links[i];
    CHECK(x.name == y.name && x.shapes.size() == y.shapes.size(), "link " << x.name);
    for (size_t k = 0; k < x.shapes.size(); ++k)
      CHECK(x.shapes[k].name == y.shapes[k].name && maxdiff(x.shapes[k].origin.xyz, y.shapes[k].origin.xyz) == 0 &&
                maxdiff(x.shapes[k].origin.rpy, y.shapes[k].origin.rpy) == 0, "shape of " << x.name);
    if (touched.count(x.name)) continue;
    CHECK(x.inertial.present == y.inertial.present, "inertial of " << x.name);
    if (!x.inertial.present) continue;
    CHECK(x.inertial.mass == y.inertial.mass && maxdiff(x.inertial.origin.xyz, y.inertial.origin.xyz) == 0 &&
              maxdiff(x.inertial.origin.rpy, y.inertial.origin.rpy) == 0 &&
              maxdiff(x.inertial.tensor(), y.inertial.tensor()) == 0, "inertial of " << x.name);
  }
  for (size_t i = 0; i < a.joints.size(); ++i) {
    MJoint x = a.joints[i], y = b.joints[i];
    CHECK(x.name == y.name && x.parent == y.parent && x.child == y.child &&
              maxdiff(x.origin.xyz, y.origin.xyz) == 0 && maxdiff(x.origin.rpy, y.origin.rpy) == 0 &&
              x.mimic == y.mimic && x.lower == y.lower && x.upper == y.upper, "joint " << x.name);
    if (retyped.count(x.name)) continue;
    CHECK(x.type == y.type && x.has_axis == y.has_axis && maxdiff(x.axis, y.axis) == 0, "joint " << x.name);
  }
}
Model gen(Src &s) {
  GenOpt o;
  o.types = {"revolute", "continuous", "prismatic", "fixed", "fixed", "fixed", "floating", "planar"};
  Model m = genModel(s, o);
  if (s.chance(1, 8))
    for (auto &l : m.links)
      if (l.inertial.present && s.chance(1, 2)) {
        l.inertial.mass = 0;
        if (s.coin())
          for (double &v : l.inertial.i) v = 0;
      }
  return m;
}
// poses whose composition is exactly the identity, or a pure translation
void specialOrigins(Src &s, Model &m) {
  for (auto &j : m.joints) {
    if (!s.chance(1, 3)) continue;
    MLink *c = m.link(j.child);
    if (!c->inertial.present) continue;
    MPose &o = c->inertial.origin;
    o.present = true;
    o.rpy = V3();
    if (s.coin()) {
      j.origin.present = true;
      j.origin.rpy = V3();
      if (s.coin()) j.origin.xyz = V3((double)s.range(-3, 3), 0.5, -2);
      o.xyz = s.coin() ? -j.origin.xyz : V3(0, 0, 1);
    } else {
      V3 r = genRpy(s);
      int k = (int)s.draw(3);
      V3 w;
      w[k] = r[k];
      j.origin.present = true;
      j.origin.rpy = w;
      o.rpy = -w;
    }
  }
}
}  // namespace

// one joint
PBT_FACET(one, 20000) {
  Model m = gen(s);
  if (s.coin()) specialOrigins(s, m);
  if (m.joints.empty()) return;
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  m = readModel(robot);
  urdf::RobotTree tree(robot);
  const MJoint j = m.joints[s.draw(m.joints.size())];
  LOG("joint", j.name);
  auto lp = linkPoses(m, zero(m));
  const MLink *p = m.link(j.parent), *c = m.link(j.child);
  double span = norm(j.origin.xyz) + norm(c->inertial.origin.xyz) + norm(p->inertial.origin.xyz);
  urdf::squashJointMass(tree, j.name);
  Model b = readModel(robot);
  othersUntouched(m, b, {j.parent, j.child}, {});
  const MLink *p2 = b.link(j.parent), *c2 = b.link(j.child);
  CHECK(!c2->inertial.present, "the child keeps its mass");
  bool any = p->inertial.present || c->inertial.present;
  CHECK(p2->inertial.present == any, "inertial of the parent");
  if (!any) return;
  std::vector<Body> bodies;
  if (p->inertial.present) bodies.push_back(toBody(H(), p->inertial));
  if (c->inertial.present) bodies.push_back(toBody(j.origin.h(), c->inertial));
  double total = 0;
  for (auto &x : bodies) total += x.mass;
  if (total == 0) {
    // only the inertia counts, wherever it is
    s.label("null mass");
    M3 i = zeroM();
    for (auto &x : bodies) i = i + x.inertia;
    Body got = toBody(H(), p2->inertial);
    CHECK(got.mass == 0, "mass " << got.mass);
    NEARM(got.inertia, i, 1e-9 * (1 + maxabs(i)), "inertia");
    return;
  }
  sameBody(toBody(H(), p2->inertial), merge(bodies), span, "merged link");
  s.nontrivial(bodies.size() == 2 && span > 0);
  if (bodies.size() == 2) s.label("two bodies");
  // the number of inertial elements
  CHECK(tree.link(j.parent).count("inertial") == 1, "one inertial");
}

namespace {
// masses of the links after all fixed joints are squashed
std::map<std::string, std::vector<Body>> clusters(const Model &m, std::map<std::string, double> &span) {
  std::map<std::string, std::vector<Body>> r;
  for (auto &l : m.links) {
    H h;
    double d = norm(l.inertial.origin.xyz);
    std::string n = l.name;
    while (auto j = m.parentJoint(n)) {
      if (j->type != "fixed") break;
      h = j->origin.h() * h;
      d += norm(j->origin.xyz);
      n = j->parent;
    }
    r[n];
    if (l.inertial.present) {
      r[n].push_back(toBody(h, l.inertial));
      span[n] = std::max(span[n], d);
    }
  }
  return r;
}
void compareClusters(Src &s, const Model &m, const Model &b) {
  std::map<std::string, double> span;
  auto cl = clusters(m, span);
  for (auto &l : b.links) {
    auto it = cl.find(l.name);
    bool any = it != cl.end() && !it->second.empty();
    CHECK(l.inertial.present == any, "inertial of " << l.name);
    if (!any) continue;
    double total = 0;
    for (auto &x : it->second) total += x.mass;
    if (total == 0) continue;
    // a part with a null mass may lie anywhere: skip it, unless it has no inertia
    sameBody(toBody(H(), l.inertial), merge(it->second), span[l.name], l.name);
    if (it->second.size() >= 2) s.nontrivial();
    if (it->second.size() >= 3) s.label("three bodies or more");
  }
}
}  // namespace

// all fixed joints, massless joints
PBT_FACET(all, 16000) {
  Model m = gen(s);
  if (s.coin()) specialOrigins(s, m);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  m = readModel(robot);
  urdf::RobotTree tree(robot);
  bool massless = s.coin();
  LOG("also massless joints", massless);
  std::set<std::string> all, retyped;
  for (auto &l : m.links) all.insert(l.name);
  std::vector<std::string> names;
  if (massless)
    names = urdf::makeMasslessJointsFixed(tree);
  else
    urdf::squashFixedJointsMass(tree);
  Model b = readModel(robot);
  std::map<std::string, double> span;
  auto cl = clusters(m, span);
  if (massless)
    for (auto &j : m.joints)
      if (j.type != "fixed" && cl[j.child].empty()) retyped.insert(j.name);
  std::multiset<std::string> got(names.begin(), names.end());
  CHECK(got == std::multiset<std::string>(retyped.begin(), retyped.end()), "names of the joints made fixed");
  for (auto &n : retyped) {
    CHECK(b.joint(n)->type == "fixed" && !b.joint(n)->has_axis, "type of " << n);
    s.label("massless joint");
  }
  std::set<std::string> touched;
  for (auto &j : m.joints)
    if (j.type == "fixed" && m.link(j.child)->inertial.present) {
      touched.insert(j.child);
      for (std::string n = j.parent;;) {
        touched.insert(n);
        auto k = m.parentJoint(n);
        if (!k || k->type != "fixed") break;
        n = k->parent;
      }
    }
  for (auto &j : m.joints)  // a massless child may receive masses from below
    if (j.type == "fixed") touched.insert(j.child);
  othersUntouched(m, b, touched, retyped);
  compareClusters(s, m, b);
  // doing it again changes nothing
  const ptree was = robot;
  if (massless) {
    // joints made fixed have no mass to give
    CHECK(urdf::makeMasslessJointsFixed(tree).empty(), "second call");
  } else {
    urdf::squashFixedJointsMass(tree);
  }
  CHECK(was == robot, "a second call changes the description");
}

// conversions of types
PBT_FACET(types, 6000) {
  Model m = gen(s);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  m = readModel(robot);
  urdf::RobotTree tree(robot);
  std::set<std::string> retyped;
  std::string type = "fixed";
  switch (s.draw(3)) {
    case 0: {
      auto names = urdf::makeContinuousJointsFixed(tree);
      for (auto &j : m.joints)
        if (j.type == "continuous") retyped.insert(j.name);
      CHECK(std::multiset<std::string>(names.begin(), names.end()) ==
                std::multiset<std::string>(retyped.begin(), retyped.end()), "names of the joints made fixed");
      break;
    }
    case 1:
      if (m.joints.empty()) return;
      retyped.insert(m.joints[s.draw(m.joints.size())].name);
      urdf::makeJointFixed(tree, *retyped.begin());
      break;
    default:
      if (m.joints.empty()) return;
      type = "floating";
      retyped.insert(m.joints[s.draw(m.joints.size())].name);
      urdf::makeJointFloating(tree, *retyped.begin());
  }
  Model b = readModel(robot);
  othersUntouched(m, b, {}, retyped);
  for (auto &n : retyped) CHECK(b.joint(n)->type == type && !b.joint(n)->has_axis, "type of " << n);
  s.nontrivial(!retyped.empty() && m.joints.size() >= 2);
}

// the underlying algebra: any poses and tensors, float and double
PBT_FACET(algebra, 20000) {
  bool single = s.coin();
  MInertial a = genInertial(s), b = genInertial(s);
  H ha = genH(s, 2), hb = genH(s, 2);
  if (s.chance(1, 6)) hb = ha;
  switch (s.draw(12)) {
    case 1: a.mass = 0; break;
    case 2: b.mass = 0; break;
    case 3: a.mass = b.mass = 0; break;
  }
  Body A, B;
  A.mass = a.mass;
  A.com = ha.t;
  A.inertia = ha.r * a.tensor() * tr(ha.r);
  B.mass = b.mass;
  B.com = hb.t;
  B.inertia = hb.r * b.tensor() * tr(hb.r);
  LOG("mass a", a.mass);
  LOG("mass b", b.mass);
  NOTE("pose a " << ha << "\ninertia a " << a.tensor() << "\npose b " << hb << "\ninertia b " << b.tensor());
  Body want = merge({A, B}), got;
  M3 rc;
  auto run = [&](auto scalar) {
    typedef decltype(scalar) S;
    typedef Eigen::Transform<S, 3, Eigen::AffineCompact, Eigen::DontAlign> P;
    typedef Eigen::Matrix<S, 3, 3> M;
    P pa, pb, pc;
    M ia, ib, ic;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        pa.linear()(i, j) = (S)ha.r.m[i][j];
        pb.linear()(i, j) = (S)hb.r.m[i][j];
        ia(i, j) = (S)a.tensor().m[i][j];
        ib(i, j) = (S)b.tensor().m[i][j];
      }
      pa.translation()[i] = (S)ha.t[i];
      pb.translation()[i] = (S)hb.t[i];
    }
    // nothing depends on what the results held
    const S junk = s.coin() ? std::numeric_limits<S>::quiet_NaN() : (S)123;
    S mc = junk;
    pc.matrix().setConstant(junk);
    ic.setConstant(junk);
    AL::Math::squashInertial((S)a.mass, pa, ia, (S)b.mass, pb, ib, mc, pc, ic);
    got.mass = mc;
    M3 tc;
    for (int i = 0; i < 3; ++i) {
      got.com[i] = pc.translation()[i];
      for (int j = 0; j < 3; ++j) {
        rc.m[i][j] = pc.linear()(i, j);
        tc.m[i][j] = ic(i, j);
      }
    }
    got.inertia = rc * tc * tr(rc);
  };
  if (single) run(0.f);
  else run(0.);
  double tol = single ? 2e-5 : 1e-12;
  double d = 1 + norm(ha.t) + norm(hb.t);
  if (a.mass + b.mass == 0) {
    s.label("null mass");
    CHECK(got.mass == 0, "mass");
    CHECK(std::isfinite(got.com[0]) && std::isfinite(got.com[1]) && std::isfinite(got.com[2]), "centre of mass " << got.com);
    CHECK(norm(got.com - ha.t) <= norm(hb.t - ha.t) + tol * d, "centre of mass " << got.com << " away from both bodies");
    NEARM(rc, ha.r, tol, "the basis is that of the first body");
    M3 sum = A.inertia + B.inertia;
    NEARM(got.inertia, sum, tol * (maxabs(A.inertia) + maxabs(B.inertia)), "inertia");
    return;
  }
  NEAR(got.mass, want.mass, tol * want.mass, "mass");
  NEARV(got.com, want.com, tol * d, "centre of mass");
  NEARM(rc, ha.r, tol, "the basis is that of the first body");
  NEARM(got.inertia, want.inertia, tol * (maxabs(want.inertia) + maxabs(A.inertia) + maxabs(B.inertia) + want.mass * d * d), "inertia");
  s.nontrivial(!nearIdentity(tr(ha.r) * hb.r));
}

// reading an inertial element in the frame of its link
PBT_FACET(reading, 10000) {
  MInertial a = genInertial(s);
  Xml x;
  x.s = &s;
  x.inertial(a);
  std::string xml = "<l>" + x.o.str() + "</l>";
  LOG("element", xml);
  ptree pt = parseXml(xml);
  urdf::Link link(pt.get_child("l"));
  auto in = link.inertial();
  CHECK(in, "no inertial");
  double mass;
  Eigen::Vector3d com;
  Eigen::Matrix3d I;
  AL::Math::urdfInertialToEigen(*in, mass, com, I);
  float massf;
  Eigen::Vector3f comf;
  Eigen::Matrix3f If;
  AL::Math::urdfInertialToEigen(*in, massf, comf, If);
  Body w = toBody(H(), a);
  M3 g, gf;
  V3 c, cf;
  for (int i = 0; i < 3; ++i) {
    c[i] = com[i];
    cf[i] = comf[i];
    for (int j = 0; j < 3; ++j) {
      g.m[i][j] = I(i, j);
      gf.m[i][j] = If(i, j);
    }
  }
  CHECK(mass == a.mass && massf == (float)a.mass, "mass");
  NEARV(c, w.com, 1e-12 * (1 + norm(w.com)), "centre of mass");
  NEARV(cf, w.com, 1e-6 * (1 + norm(w.com)), "centre of mass");
  NEARM(g, w.inertia, 1e-12 * (maxabs(w.inertia)), "inertia");
  NEARM(gf, w.inertia, 4e-6 * (maxabs(w.inertia)), "inertia (float)");
  Eigen::Matrix3d raw = AL::Math::toEigenMatrix3(*in);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) CHECK(raw(i, j) == a.tensor().m[i][j], "tensor");
  s.nontrivial(!nearIdentity(a.origin.h().r));
  // point mass
  V3 p = genV(s, 2);
  Eigen::Matrix3d out = I;
  Eigen::Vector3d ep(p.x, p.y, p.z);
  AL::Math::addPointMassInertia(a.mass, ep, out);
  M3 w2 = g + pointInertia(a.mass, p), g2;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) g2.m[i][j] = out(i, j);
  NEARM(g2, w2, 1e-12 * (1 + maxabs(w2)), "point mass");
}
