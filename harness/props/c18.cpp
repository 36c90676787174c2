// C18: a robot description is accepted exactly when it is one valid tree; its
// root, look-ups, traversal and graph are those of the document.
#include "urdfgen.h"
using namespace ug;

namespace {
// random damage; the result may still be valid
void damage(Src &s, Model &m) {
  switch (s.draw(10)) {
    case 0:  // duplicate link name
      if (m.links.size() > 1) m.links[s.draw(m.links.size())].name = m.links[s.draw(m.links.size())].name;
      break;
    case 1:  // duplicate joint name
      if (m.joints.size() > 1) m.joints[s.draw(m.joints.size())].name = m.joints[s.draw(m.joints.size())].name;
      break;
    case 2:  // missing end
      if (!m.joints.empty()) (s.coin() ? m.joints[s.draw(m.joints.size())].parent : m.joints[s.draw(m.joints.size())].child) = "missing";
      break;
    case 3:  // other parent: may make a detached cycle, or be another valid tree
      if (!m.joints.empty()) m.joints[s.draw(m.joints.size())].parent = m.links[s.draw(m.links.size())].name;
      break;
    case 4:  // other child
      if (!m.joints.empty()) m.joints[s.draw(m.joints.size())].child = m.links[s.draw(m.links.size())].name;
      break;
    case 5: {  // one more joint
      MJoint j;
      j.name = "extra";
      j.parent = m.links[s.draw(m.links.size())].name;
      j.child = m.links[s.draw(m.links.size())].name;
      m.order.insert(m.order.begin() + s.draw(m.order.size() + 1), -1 - (int)m.joints.size());
      m.joints.push_back(j);
      break;
    }
    case 6: {  // one link without parent
      MLink l;
      l.name = "extra";
      m.order.insert(m.order.begin() + s.draw(m.order.size() + 1), (int)m.links.size());
      m.links.push_back(l);
      break;
    }
    case 7:  // any mimic relation
      if (!m.joints.empty()) {
        MJoint &j = m.joints[s.draw(m.joints.size())];
        j.has_mimic = true;
        j.mimic = s.chance(1, 6) ? "missing" : m.joints[s.draw(m.joints.size())].name;
      }
      break;
    case 8: {  // a chain of mimics, which may close
      std::vector<size_t> perm;
      for (size_t i = 0; i < m.joints.size(); ++i) perm.insert(perm.begin() + s.draw(perm.size() + 1), i);
      if (perm.size() < 2) break;
      size_t k = (size_t)s.range(2, (int)perm.size());
      bool close = s.coin();
      for (size_t i = 0; i + (close ? 0 : 1) < k; ++i) {
        m.joints[perm[i]].has_mimic = true;
        m.joints[perm[i]].mimic = m.joints[perm[(i + 1) % k]].name;
      }
      break;
    }
    default:  // a joint is dropped
      if (!m.joints.empty()) {
        int k = -1 - (int)s.draw(m.joints.size());
        m.order.erase(std::find(m.order.begin(), m.order.end(), k));
        Model o = m;
        m.joints.clear();
        m.order.clear();
        for (int i : o.order)
          if (i >= 0) {
            m.order.push_back(i);
          } else {
            m.order.push_back(-1 - (int)m.joints.size());
            m.joints.push_back(o.joints[-1 - i]);
          }
      }
  }
}
struct Rec : urdf::JointConstVisitor {
  std::vector<std::string> ev;
  std::set<std::string> closed;  // joints whose subtree is not visited
  bool discover(const ptree &p) override {
    std::string n = need(p, nullptr, "name");
    ev.push_back("+" + n);
    return !closed.count(n);
  }
  void finish(const ptree &p) override { ev.push_back("-" + need(p, nullptr, "name")); }
};
struct RecMut : urdf::JointVisitor {
  std::vector<std::string> ev;
  std::set<std::string> closed;
  bool discover(ptree &p) override {
    std::string n = need(p, nullptr, "name");
    ev.push_back("+" + n);
    return !closed.count(n);
  }
  void finish(ptree &p) override { ev.push_back("-" + need(p, nullptr, "name")); }
};

void examine(Src &s, const Model &m, ptree &pt) {
  ptree &robot = pt.get_child("robot");
  const ptree before = robot;
  std::string why = invalid(m);
  LOG("expected", why.empty() ? std::string("valid") : why);
  std::unique_ptr<urdf::RobotTree> tree;
  std::string error;
  try {
    tree.reset(new urdf::RobotTree(robot));
  } catch (const std::exception &e) {
    error = e.what();
    if (error.empty()) error = "error";
  }
  LOG("got", error);
  CHECK(before == robot, "reading a description changes it");
  if (!why.empty()) {
    CHECK(!tree, "invalid description accepted: " << why);
    return;
  }
  CHECK(tree, "valid description refused: " << error);
  const urdf::RobotTree &ct = *tree;
  CHECK(ct.root_link() == m.root(), "root " << ct.root_link() << ", expected " << m.root());
  // look-ups give the elements of the document
  for (auto &kv : robot) {
    if (kv.first == "link") {
      std::string n = need(kv.second, nullptr, "name");
      CHECK(&ct.link(n) == &kv.second && &tree->link(n) == &kv.second, "link(" << n << ")");
      CHECK(urdf::name(kv.second) == n, "name of " << n);
    }
    if (kv.first == "joint") {
      std::string n = need(kv.second, nullptr, "name");
      CHECK(&ct.joint(n) == &kv.second && &tree->joint(n) == &kv.second, "joint(" << n << ")");
      const MJoint *j = m.joint(n);
      CHECK(urdf::name(kv.second) == n && urdf::parent_link(kv.second) == j->parent &&
                urdf::child_link(kv.second) == j->child, "ends of " << n);
      CHECK(urdf::Joint(kv.second).name() == n && urdf::Joint(kv.second).parent_link() == j->parent &&
                urdf::Joint(kv.second).child_link() == j->child, "ends of " << n);
    }
  }
  for (std::string n : {"", "missing", "robot", "zz"}) {
    if (!m.link(n)) {
      THROWS(ct.link(n), "unknown link");
      THROWS(tree->link(n), "unknown link");
    }
    if (!m.joint(n)) {
      THROWS(ct.joint(n), "unknown joint");
      THROWS(tree->joint(n), "unknown joint");
    }
  }
  for (auto &l : m.links)
    if (!m.joint(l.name)) THROWS(ct.joint(l.name), "link name as a joint");
  for (auto &j : m.joints)
    if (!m.link(j.name)) THROWS(ct.link(j.name), "joint name as a link");
  // traversal
  Rec r;
  RecMut rm;
  for (auto &j : m.joints)
    if (s.chance(1, 8)) {
      r.closed.insert(j.name);
      rm.closed.insert(j.name);
    }
  std::vector<std::string> want;
  dfs(m, m.root(), [&](const MJoint &j, bool in) { want.push_back((in ? "+" : "-") + j.name); },
      [&](const MJoint &j) { return !r.closed.count(j.name); });
  LOG("traversal", want);
  ct.traverse_joints(r);
  if (r.ev != want) {
    std::ostringstream o;
    pbt::show(o, r.ev);
    FAIL("traversal: " << o.str());
  }
  tree->traverse_joints(rm);
  if (rm.ev != want) {
    std::ostringstream o;
    pbt::show(o, rm.ev);
    FAIL("traversal (mutable): " << o.str());
  }
  // a visitor which only says what it does at the end, or nothing, sees the
  // whole tree
  struct Ends : urdf::JointConstVisitor {
    std::vector<std::string> ev;
    void finish(const ptree &p) override { ev.push_back(need(p, nullptr, "name")); }
  } ends;
  struct EndsMut : urdf::JointVisitor {
    std::vector<std::string> ev;
    void finish(ptree &p) override { ev.push_back(need(p, nullptr, "name")); }
  } endsMut;
  std::vector<std::string> wantEnds;
  dfs(m, m.root(), [&](const MJoint &j, bool in) { if (!in) wantEnds.push_back(j.name); });
  ct.traverse_joints(ends);
  tree->traverse_joints(endsMut);
  CHECK(ends.ev == wantEnds && endsMut.ev == wantEnds, "traversal without discover()");
  // graph
  std::ostringstream dot, wdot;
  urdf::UrdfDotPrinterVisitor dp(dot);
  ct.traverse_joints(dp);
  dfs(m, m.root(), [&](const MJoint &j, bool in) {
    if (in) wdot << j.parent << " -> " << j.child << " [label=" << j.name << "];\n";
  });
  CHECK(dot.str() == wdot.str(), "graph:\n" << dot.str() << "expected:\n" << wdot.str());
  // mimics
  bool flat = true;
  for (auto &j : m.joints)
    if (j.has_mimic && m.joint(j.mimic)->has_mimic) flat = false;
  CHECK(ct.is_mimic_tree_flat() == flat, "flat mimics");
  CHECK(before == robot, "queries change the description");
}
}  // namespace

// random valid descriptions
PBT_FACET(valid, 16000) {
  GenOpt o;
  o.max_links = s.chance(1, 4) ? 25 : 8;
  o.inertials = o.shapes = false;
  Model m = genModel(s, o);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  int mim = 0;
  for (auto &j : m.joints) mim += j.has_mimic;
  s.nontrivial(m.joints.size() >= 3);
  if (mim >= 2) s.label("two or more mimics");
  examine(s, m, pt);
}

// damaged ones, most of them invalid, some of them other valid trees
PBT_FACET(damaged, 32000) {
  GenOpt o;
  o.inertials = o.shapes = o.limits = false;
  Model m = genModel(s, o);
  int n = (int)s.range(1, 3);
  for (int i = 0; i < n; ++i) damage(s, m);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  s.nontrivial(m.joints.size() >= 2);
  std::string why = invalid(m);
  if (why.empty()) s.label("still valid");
  if (why == "links not connected to the root") s.label("detached cycle");
  if (why == "mimic loop") s.label("mimic loop");
  examine(s, m, pt);
}

// documents without names or ends are refused
PBT_FACET(incomplete, 3200) {
  GenOpt o;
  o.inertials = o.shapes = o.limits = o.mimics = false;
  Model m = genModel(s, o);
  std::string xml = toXml(m);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  std::vector<std::pair<ptree *, const char *>> cuts;
  for (auto &kv : robot) {
    if (kv.first == "link") cuts.push_back({&kv.second, "name"});
    if (kv.first == "joint") {
      cuts.push_back({&kv.second, "name"});
      cuts.push_back({&kv.second.get_child("parent"), "link"});
      cuts.push_back({&kv.second.get_child("child"), "link"});
    }
  }
  if (s.chance(1, 10)) {
    robot.clear();
    THROWS(urdf::RobotTree t(robot), "no link");
    return;
  }
  auto &c = cuts[s.draw(cuts.size())];
  LOG("attribute", std::string(c.second));
  c.first->get_child("<xmlattr>").erase(c.second);
  if (s.coin()) c.first->erase("<xmlattr>");
  s.nontrivial(m.joints.size() >= 1);
  THROWS(urdf::RobotTree t(robot), "missing " << c.second);
}
