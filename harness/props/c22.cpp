// C22: a rigid body system built from a robot description has its bodies,
// joints, frames and masses.
#include "urdfgen.h"
#include "rbs.h"
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
using namespace ug;
using namespace rbs;

namespace {
struct Want {
  bool link;
  std::string parent, name, joint;
  H pose;
  B::JointType type = B::JointType::FreeFlyer;
  std::vector<Body> bodies;
  double span = 0;
};
// the construction described by the document; the reason of a refusal otherwise
std::string expected(Model m, bool rmRoot, bool contFixed, const B::Config &cfg, std::vector<Want> &out) {
  if (rmRoot) {
    std::string r = m.root();
    int n = 0;
    std::string only;
    for (auto &j : m.joints)
      if (j.parent == r) ++n, only = j.name;
    if (n != 1) return "not a single root joint";
    Model k;
    for (int i : m.order) {
      if (i >= 0) {
        if (m.links[i].name == r) continue;
        k.order.push_back((int)k.links.size());
        k.links.push_back(m.links[i]);
      } else {
        if (m.joints[-1 - i].name == only) continue;
        k.order.push_back(-1 - (int)k.joints.size());
        k.joints.push_back(m.joints[-1 - i]);
      }
    }
    m = k;
  }
  if (contFixed)
    for (auto &j : m.joints)
      if (j.type == "continuous") j.type = "fixed";
  std::map<std::string, std::vector<Body>> cl;
  std::map<std::string, double> span;
  for (auto &l : m.links) {
    if (!l.inertial.present) continue;
    H h;
    double d = norm(l.inertial.origin.xyz);
    std::string n = l.name;
    while (auto j = m.parentJoint(n)) {
      if (j->type != "fixed") break;
      h = j->origin.h() * h;
      d += norm(j->origin.xyz);
      n = j->parent;
    }
    cl[n].push_back(toBody(h, l.inertial));
    span[n] = std::max(span[n], d);
  }
  for (auto &j : m.joints)
    if (j.type != "fixed" && cl[j.child].empty()) j.type = "fixed";
  std::string root = m.root();
  if (cl[root].empty()) return "";  // documented: a massless branch is not explored
  Want w;
  w.link = true;
  w.name = root;
  w.joint = cfg.joint_name(root);
  w.bodies = cl[root];
  w.span = span[root];
  out.push_back(w);
  std::string bad;
  dfs(m, root, [&](const MJoint &j, bool in) {
    if (!in || !bad.empty()) return;
    Want w;
    w.parent = j.parent;
    w.name = j.child;
    w.joint = j.name;
    w.pose = j.origin.h();
    w.link = j.type != "fixed";
    if (!w.link) {
      if (!cfg.no_static_frame) out.push_back(w);
      return;
    }
    if (j.type == "prismatic" || j.type == "planar") {
      bad = "type of " + j.name;
      return;
    }
    if (j.type == "floating") {
      w.type = B::JointType::FreeFlyer;
    } else {
      V3 a = j.eaxis();
      if (maxdiff(a, V3(1, 0, 0)) == 0) w.type = B::JointType::Rx;
      else if (maxdiff(a, V3(0, 1, 0)) == 0) w.type = B::JointType::Ry;
      else if (maxdiff(a, V3(0, 0, 1)) == 0) w.type = B::JointType::Rz;
      else {
        bad = "axis of " + j.name;
        return;
      }
    }
    w.bodies = cl[j.child];
    w.span = span[j.child];
    out.push_back(w);
  });
  return bad;
}
void compare(const std::vector<Call<double>> &got, const std::vector<Want> &want) {
  for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) {
    auto &g = got[i];
    auto &w = want[i];
    CHECK(g.link == w.link, "call " << i << " (" << w.name << "): body or static frame");
    std::string parent = g.link ? g.l.parent_body : g.f.parent_frame, name = g.link ? g.l.new_body : g.f.new_static_frame,
                joint = g.link ? g.l.new_joint : g.f.new_static_transform;
    CHECK(parent == w.parent && name == w.name && joint == w.joint,
          "call " << i << ": " << parent << " -> " << name << " by " << joint << ", expected " << w.parent << " -> "
                  << w.name << " by " << w.joint);
    H h = g.link ? poseOf(g.l.pose_parent_new) : poseOf(g.f.pose_parent_new);
    NEARH(h, w.pose, 1e-12, 1e-12 * (1 + norm(w.pose.t)), "pose of " << name);
    if (!g.link) continue;
    CHECK(g.l.joint_type == w.type, "joint kind of " << name);
    Body b = merge(w.bodies);
    NEAR(g.l.body_mass.mass, b.mass, 1e-9 * b.mass, "mass of " << name);
    NEARV(vec(g.l.body_mass.center_of_mass), b.com, 1e-9 * (1 + norm(b.com) + w.span), "centre of mass of " << name);
    NEARM(mat(g.l.body_mass.rotational_inertia), b.inertia, 1e-9 * (maxabs(b.inertia) + b.mass * w.span * w.span),
          "inertia of " << name);
  }
  CHECK(got.size() == want.size(), got.size() << " bodies and frames, expected " << want.size());
}
}  // namespace

PBT_FACET(build, 24000) {
  GenOpt o;
  o.unit_axes = !s.chance(1, 8);
  o.types = s.chance(1, 8) ? std::vector<std::string>{"revolute", "fixed", "prismatic", "planar"}
                           : std::vector<std::string>{"revolute", "continuous", "fixed", "revolute", "floating"};
  o.p_massless = s.pick<double>({0.25, 0., 0.6});
  Model m = genModel(s, o);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  bool rmRoot = s.chance(1, 4), cont = s.coin(), stream = s.coin(), checker = s.coin();
  LOG("remove root joint", rmRoot);
  LOG("continuous joints fixed", cont);
  Recorder<double> rec;
  rec.cfg.no_static_frame = s.chance(1, 5);
  if (s.chance(1, 4)) rec.cfg.joint_name_format = s.pick<std::string>({"%1%", "joint_of_%1%", "j_%1%_%1%"});
  std::vector<Want> want;
  std::string bad = expected(m, rmRoot, cont, rec.cfg, want);
  LOG("expected refusal", bad);
  // a joint may have the name of the added root joint: then it is refused by the checker
  B::NamesChecker<double> names(rec);
  std::set<std::string> joints, bodies;
  bool clash = false;
  for (auto &w : want) clash |= !joints.insert(w.joint).second;
  if (rec.cfg.no_static_frame) checker = false;  // parents may be static frames, which are not added
  for (auto &w : want) {
    // bodies whose parent is a static frame are refused by the names checker
    if (w.link && !w.parent.empty() && !bodies.count(w.parent)) clash = true;
    if (w.link) bodies.insert(w.name);
  }
  if (clash) checker = false;
  B::Interface<double> &b = checker ? (B::Interface<double> &)names : (B::Interface<double> &)rec;
  bool thrown = false;
  std::string msg;
  try {
    if (stream) {
      std::istringstream is(xml);
      AL::buildRigidBodySystemFromUrdf(b, is, rmRoot, cont);
    } else {
      ptree pt = parseXml(xml);
      AL::buildRigidBodySystemFromUrdf(b, pt, rmRoot, cont);
    }
  } catch (const std::exception &e) {
    thrown = true;
    msg = e.what();
  }
  CHECK(thrown == !bad.empty(), (thrown ? "refused: " + msg : "accepted") << ", expected "
                                    << (bad.empty() ? "to be accepted" : "to be refused: " + bad));
  if (thrown) {
    s.label("refused");
    return;
  }
  compare(rec.calls, want);
  int nl = 0, nf = 0;
  for (auto &w : want) (w.link ? nl : nf)++;
  s.nontrivial(nl >= 2 && nf >= 1);
  if (want.empty()) s.label("massless root");
}

// default arguments, invalid documents
PBT_FACET(refusals, 2400) {
  GenOpt o;
  o.unit_axes = true;
  o.types = {"revolute", "continuous", "fixed"};
  Model m = genModel(s, o);
  Recorder<double> rec;
  int k = (int)s.draw(3);
  s.nontrivial(m.joints.size() >= 1);
  if (k == 0) {
    std::string xml = toXml(m);
    std::istringstream is(xml);
    AL::buildRigidBodySystemFromUrdf(rec, is);
    std::vector<Want> want;
    CHECK(expected(m, false, false, rec.cfg, want).empty(), "harness");
    compare(rec.calls, want);
    return;
  }
  if (k == 1) {
    std::istringstream is(s.pick<std::string>({"", "<robot", "<robot name=\"r\"/>", "<machine/>", "text"}));
    THROWS(AL::buildRigidBodySystemFromUrdf(rec, is), "not a robot description");
    return;
  }
  MLink l;
  l.name = "other root";
  m.order.push_back((int)m.links.size());
  m.links.push_back(l);
  std::istringstream is(toXml(m));
  THROWS(AL::buildRigidBodySystemFromUrdf(rec, is), "two roots");
  CHECK(rec.calls.empty(), "an invalid description was partly built");
}
