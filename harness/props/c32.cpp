// C32: histories of edits on a robot tree: structure, look-ups, traversal,
// document and mechanics, against a model.
#include "../urdfgen.h"
using namespace ug;

namespace {
struct Attached {  // a rigid body, in the first frame of the link which holds it
  std::string link;
  H pose;
  MInertial data;  // mass and tensor
};
// What the history is expected to give. "orig" keeps the joints as they were first
// (only made fixed or floating), and holds the mechanics; "cur" has the structure.
struct Expected {
  Model orig, cur;
  std::map<std::string, H> frame;  // current frame of each link in its first one
  std::vector<Attached> bodies;
  std::set<std::string> retyped;

  H zeroRel(const MJoint &j) const {  // current child's first frame in the current parent's, at zero
    const MJoint *o = orig.joint(j.name);
    return o->parent == j.parent ? o->origin.h() : inv(o->origin.h());
  }
  bool massive(const std::string &l) const {
    for (auto &b : bodies)
      if (b.link == l) return true;
    return false;
  }
  void squash(const MJoint &j) {
    H r = zeroRel(j);
    for (auto &b : bodies)
      if (b.link == j.child) {
        b.link = j.parent;
        b.pose = r * b.pose;
      }
  }
  void squashFixed() {
    std::vector<MJoint> post;
    dfs(cur, cur.root(), [&](const MJoint &j, bool in) {
      if (!in) post.push_back(j);
    });
    for (auto &j : post)
      if (j.type == "fixed") squash(j);
  }
  void retype(const std::string &n, const char *type) {
    retyped.insert(n);
    for (Model *m : {&orig, &cur}) {
      MJoint *j = m->joint(n);
      j->type = type;
      j->has_axis = false;
      j->axis = V3(1, 0, 0);
    }
  }
  void removeLink(const std::string &n) { bodies.erase(std::remove_if(bodies.begin(), bodies.end(), [&](const Attached &b) { return b.link == n; }), bodies.end()); }
  void remove(const std::string &joint, const std::string &link) {
    removeLink(link);
    Model m;
    for (int i : cur.order) {
      if (i >= 0) {
        if (cur.links[i].name == link) continue;
        m.order.push_back((int)m.links.size());
        m.links.push_back(cur.links[i]);
      } else {
        if (cur.joints[-1 - i].name == joint) continue;
        m.order.push_back(-1 - (int)m.joints.size());
        m.joints.push_back(cur.joints[-1 - i]);
      }
    }
    cur = m;
  }
  bool reroot(const std::string &link) {
    std::vector<std::string> p;  // joints, from the new root up
    for (std::string l = link; auto j = cur.parentJoint(l); l = j->parent) {
      if (j->type == "floating" || j->type == "planar") return false;
      p.push_back(j->name);
    }
    for (auto it = p.rbegin(); it != p.rend(); ++it) {
      MJoint *j = cur.joint(*it);
      frame[j->parent] = zeroRel(*j) * frame[j->child];
      std::swap(j->parent, j->child);
      if (j->type != "fixed") j->axis = -j->eaxis(), j->has_axis = true;
    }
    return true;
  }
};

std::vector<std::string> visit(const urdf::RobotTree &t) {
  struct V : urdf::JointConstVisitor {
    std::vector<std::string> v;
    bool discover(const ptree &p) override {
      v.push_back("+" + need(p, nullptr, "name"));
      return true;
    }
    void finish(const ptree &p) override { v.push_back("-" + need(p, nullptr, "name")); }
  } v;
  t.traverse_joints(v);
  return v.v;
}
std::string join(const std::vector<std::string> &v) {
  std::string r;
  for (auto &x : v) r += x + " ";
  return r;
}
bool dangling(const Model &m) {
  for (auto &j : m.joints)
    if (j.has_mimic && !m.joint(j.mimic)) return true;
  return false;
}
void sameStructure(const Model &got, const Model &want) {
  CHECK(got.links.size() == want.links.size(), got.links.size() << " links instead of " << want.links.size());
  CHECK(got.joints.size() == want.joints.size(), got.joints.size() << " joints instead of " << want.joints.size());
  CHECK(got.order == want.order, "the elements of the document moved");
  for (size_t i = 0; i < want.links.size(); ++i) {
    auto &a = got.links[i], &b = want.links[i];
    CHECK(a.name == b.name, "link " << a.name << " instead of " << b.name);
    CHECK(a.shapes.size() == b.shapes.size(), "shapes of " << a.name);
    for (size_t k = 0; k < a.shapes.size(); ++k) {
      auto &x = a.shapes[k], &y = b.shapes[k];
      CHECK(x.name == y.name && x.collision == y.collision && x.geo == y.geo && maxdiff(x.dims, y.dims) == 0, "shape " << x.name << " of " << a.name);
      CHECK(x.filename == y.filename && x.texture == y.texture && x.has_texture == y.has_texture && x.has_material == y.has_material,
            "files of " << x.name << ": " << x.filename << " " << x.texture << " instead of " << y.filename << " " << y.texture);
    }
  }
  for (size_t i = 0; i < want.joints.size(); ++i) {
    auto &a = got.joints[i], &b = want.joints[i];
    CHECK(a.name == b.name, "joint " << a.name << " instead of " << b.name);
    CHECK(a.type == b.type, "type " << a.type << " of " << a.name << " instead of " << b.type);
    CHECK(a.parent == b.parent && a.child == b.child, "ends " << a.parent << " -> " << a.child << " of " << a.name << " instead of " << b.parent << " -> " << b.child);
    if (b.type == "fixed" || b.type == "floating") {
      // whether an unused axis was given at first is not of interest
    } else {
      CHECK(maxdiff(a.eaxis(), b.eaxis()) == 0, "axis " << a.eaxis() << " of " << a.name << " instead of " << b.eaxis());
    }
    CHECK(a.has_lower == b.has_lower && a.has_upper == b.has_upper && a.has_effort == b.has_effort && a.has_velocity == b.has_velocity && a.lower == b.lower &&
              a.upper == b.upper && a.effort == b.effort && a.velocity == b.velocity, "limits of " << a.name);
    bool lost = b.has_mimic && !want.joint(b.mimic);  // its source was removed
    if (!(lost && !a.has_mimic))
      CHECK(a.has_mimic == b.has_mimic && a.mimic == b.mimic && a.multiplier == b.multiplier && a.offset == b.offset, "mimic of " << a.name);
  }
}
const double TOL = 1e-8;
void sameMechanics(Src &s, const Model &got, const Expected &e) {
  for (int k = 0; k < 2; ++k) {
    Config c;
    if (k) c = genConfig(s, e.orig);
    else
      for (auto &j : e.orig.joints) c.q[j.name] = 0;
    for (auto &r : e.retyped) c.free.erase(r);  // at rest: they may also be reversed
    auto t = linkPoses(e.orig, c), g = linkPoses(got, c);
    H base = inv(t.at(got.root()) * e.frame.at(got.root()));
    for (auto &l : got.links) {
      CHECK(g.count(l.name), "link " << l.name << " is not connected to the root");
      H first = base * t.at(l.name);
      double span = 1 + norm(base.t) + norm(t.at(l.name).t) + norm(first.t);
      NEARH(g.at(l.name), first * e.frame.at(l.name), TOL, TOL * span, (k ? "" : "zero configuration: ") << "frame of " << l.name);
      const MLink *o = e.orig.link(l.name);
      for (size_t i = 0; i < l.shapes.size(); ++i)
        NEARH(g.at(l.name) * l.shapes[i].origin.h(), first * o->shapes[i].origin.h(), TOL, TOL * (span + norm(o->shapes[i].origin.xyz)), "shape " << l.shapes[i].name << " of " << l.name);
    }
  }
  for (auto &l : got.links) {
    std::vector<Body> bs;
    H f = inv(e.frame.at(l.name));
    double span = norm(f.t);
    for (auto &b : e.bodies)
      if (b.link == l.name) {
        MInertial d = b.data;
        d.origin = MPose();
        bs.push_back(toBody(f * b.pose, d));
        span += norm(b.pose.t);
      }
    CHECK(l.inertial.present == !bs.empty(), "inertial of " << l.name << (bs.empty() ? " remains" : " is lost"));
    if (bs.empty()) continue;
    Body w = merge(bs), x = toBody(H(), l.inertial);
    NEAR(x.mass, w.mass, 1e-10 * w.mass, "mass of " << l.name);
    NEARV(x.com, w.com, TOL * (1 + span), "centre of mass of " << l.name);
    NEARM(x.inertia, w.inertia, TOL * (maxabs(w.inertia) + w.mass * (1 + span) * (1 + span)), "inertia of " << l.name);
  }
}
}  // namespace

PBT_FACET(history, 9000) {
  GenOpt o;
  o.types = {"revolute", "revolute", "continuous", "prismatic", "fixed", "fixed", "floating", "planar"};
  o.max_links = 9;
  Expected e;
  std::string xml = toXml(genModel(s, o), &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  e.orig = e.cur = readModel(robot);
  for (auto &l : e.cur.links) {
    e.frame[l.name] = H();
    if (l.inertial.present) {
      Attached a{l.name, l.inertial.origin.h(), l.inertial};
      e.bodies.push_back(a);
    }
  }
  std::map<std::string, const ptree *> where, jwhere;
  for (auto &c : robot) {
    if (c.first == "link") where[need(c.second, nullptr, "name")] = &c.second;
    if (c.first == "joint") jwhere[need(c.second, nullptr, "name")] = &c.second;
  }
  urdf::RobotTree tree(robot);
  int n = (int)s.range(1, 12);
  std::set<size_t> kinds;
  bool refused = false;
  for (int step = 0; step < n; ++step) {
    Model &cur = e.cur;
    std::string link = cur.links[(size_t)s.draw(cur.links.size())].name;
    std::string joint = cur.joints.empty() ? "missing" : cur.joints[(size_t)s.draw(cur.joints.size())].name;
    if (s.chance(1, 40)) joint = "missing";
    const MJoint *j = cur.joint(joint);
    size_t op = s.weighted({6, 2, 3, 4, 3, 1, 2, 3, 2, 2, 2, 1});
    const ptree was = robot;
    bool fails = false;
    kinds.insert(op);
    switch (op) {
      case 0: {
        NOTE("root: " << link);
        Expected next = e;
        if (next.reroot(link)) {
          tree.define_as_root_link(link);
          e = next;
        } else {
          fails = true;
          THROWS(tree.define_as_root_link(link), "several degrees of freedom on the way");
        }
        break;
      }
      case 1: {
        MPose p = genPose(s);
        NOTE("move the root frame to xyz " << p.xyz << " rpy " << p.rpy);
        tree.transport_root_link_frame(urdf::Pose({{p.xyz.x, p.xyz.y, p.xyz.z}}, {{p.rpy.x, p.rpy.y, p.rpy.z}}));
        H &f = e.frame[cur.root()];
        f = f * p.h();
        break;
      }
      case 2: {
        NOTE("remove the root joint");
        std::string r = cur.root();
        const MJoint *only = nullptr;
        int count = 0;
        for (auto &x : cur.joints)
          if (x.parent == r) only = &x, ++count;
        if (count == 1) {
          tree.rm_root_joint();
          e.remove(std::string(only->name), r);
        } else {
          fails = true;
          THROWS(tree.rm_root_joint(), count << " root joints");
        }
        break;
      }
      case 3: {
        NOTE("remove the leaf " << joint);
        bool leaf = j != nullptr;
        for (auto &x : cur.joints)
          if (j && x.parent == j->child) leaf = false;
        if (leaf) {
          tree.rm_leaf_joint(joint);
          e.remove(joint, std::string(j->child));
        } else {
          fails = true;
          THROWS(tree.rm_leaf_joint(joint), "not a leaf");
        }
        break;
      }
      case 4:
      case 5: {
        NOTE("make " << joint << (op == 4 ? " fixed" : " floating"));
        if (j) {
          if (op == 4) urdf::makeJointFixed(tree, joint);
          else urdf::makeJointFloating(tree, joint);
          e.retype(joint, op == 4 ? "fixed" : "floating");
          CHECK(!kid(*jwhere[joint], "axis"), "the axis of " << joint << " remains");
        } else {
          fails = true;
          if (op == 4) THROWS(urdf::makeJointFixed(tree, joint), "no such joint");
          else THROWS(urdf::makeJointFloating(tree, joint), "no such joint");
        }
        break;
      }
      case 6: {
        NOTE("make continuous joints fixed");
        std::vector<std::string> want;
        dfs(cur, cur.root(), [&](const MJoint &x, bool in) {
          if (in && x.type == "continuous") want.push_back(x.name);
        });
        auto got = urdf::makeContinuousJointsFixed(tree);
        for (auto &x : want) e.retype(x, "fixed");
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "joints made fixed: " << join(got) << "instead of " << join(want));
        break;
      }
      case 7:
        NOTE("squash the mass of " << joint);
        if (j) {
          urdf::squashJointMass(tree, joint);
          e.squash(*j);
        } else {
          fails = true;
          THROWS(urdf::squashJointMass(tree, joint), "no such joint");
        }
        break;
      case 8:
        NOTE("squash the masses of fixed joints");
        urdf::squashFixedJointsMass(tree);
        e.squashFixed();
        break;
      case 9: {
        NOTE("make massless joints fixed");
        auto got = urdf::makeMasslessJointsFixed(tree);
        e.squashFixed();
        std::vector<std::string> want;
        for (auto &x : cur.joints)
          if (x.type != "fixed" && !e.massive(x.child)) want.push_back(x.name);
        for (auto &x : want) e.retype(x, "fixed");
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "joints made fixed: " << join(got) << "instead of " << join(want));
        break;
      }
      case 10: {
        std::set<std::string> at;
        int m = (int)s.range(0, 2);
        for (int q = 0; q < m; ++q)
          if (!cur.joints.empty()) at.insert(cur.joints[(size_t)s.draw(cur.joints.size())].name);
        NOTE("remove the subtrees at " << join(std::vector<std::string>(at.begin(), at.end())));
        std::vector<std::string> want, children;
        int level = 0;
        dfs(cur, cur.root(), [&](const MJoint &x, bool in) {
          if (in) {
            level += at.count(x.name);
            if (level) want.push_back(x.name), children.push_back(x.child);
          } else {
            level -= at.count(x.name);
          }
        });
        auto got = urdf::removeSubTreeIfJoint(tree, [&](const ptree &p) { return at.count(need(p, nullptr, "name")) > 0; });
        for (size_t q = 0; q < want.size(); ++q) e.remove(want[q], children[q]);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "joints removed: " << join(got) << "instead of " << join(want));
        break;
      }
      default: {
        NOTE("rename the files");
        std::string pre = s.pick({"", "package://", "x"}), post = s.pick({"", ".dae", "<&>"});
        urdf::robot::transform_filenames(robot, [&](std::string f) { return pre + f + post; });
        for (Model *m : {&e.cur, &e.orig})
          for (auto &l : m->links)
            for (auto &v : l.shapes) {
              if (v.geo == MESH) v.filename = pre + v.filename + post;
              if (v.has_texture_filename) v.texture = pre + v.texture + post;
            }
      }
    }
    if (fails) {
      CHECK(was == robot, "a refused edit changed the document");
      refused = true;
    }
    // the document
    Model got = readModel(robot);
    sameStructure(got, e.cur);
    sameMechanics(s, got, e);
    // the index
    CHECK(tree.root_link() == e.cur.root(), "root " << tree.root_link() << " instead of " << e.cur.root());
    std::vector<std::string> want;
    dfs(e.cur, e.cur.root(), [&](const MJoint &x, bool in) { want.push_back((in ? "+" : "-") + x.name); });
    auto v = visit(tree);
    CHECK(v == want, "traversal " << join(v) << " instead of " << join(want));
    for (auto &w : where) {
      if (e.cur.link(w.first)) {
        const urdf::RobotTree &ct = tree;
        CHECK(&ct.link(w.first) == w.second && &tree.link(w.first) == w.second, "link " << w.first << " is not the one of the document");
      } else {
        THROWS(tree.link(w.first), "removed link " << w.first);
      }
    }
    for (auto &w : jwhere) {
      if (e.cur.joint(w.first)) {
        const urdf::RobotTree &ct = tree;
        CHECK(&ct.joint(w.first) == w.second && &tree.joint(w.first) == w.second, "joint " << w.first << " is not the one of the document");
      } else {
        THROWS(tree.joint(w.first), "removed joint " << w.first);
      }
    }
    if (dangling(got)) {
      s.known("removed-mimic-source", "removing a joint which another one mimics leaves a description which is refused");
    } else {
      bool flat = true;
      for (auto &x : got.joints)
        if (x.has_mimic && got.joint(x.mimic)->has_mimic) flat = false;
      CHECK(tree.is_mimic_tree_flat() == flat, "the mimic tree is " << (flat ? "" : "not ") << "flat");
      // the document, written and read again
      std::ostringstream os;
      boost::property_tree::xml_parser::write_xml(os, pt);
      ptree pt2 = parseXml(os.str());
      urdf::RobotTree again(pt2.get_child("robot"));
      CHECK(again.root_link() == e.cur.root(), "root of the document read again: " << again.root_link());
      auto v2 = visit(again);
      CHECK(v2 == want, "traversal of the document read again: " << join(v2) << " instead of " << join(want));
      sameStructure(readModel(pt2.get_child("robot")), e.cur);
      CHECK(again.is_mimic_tree_flat() == flat, "mimic tree read again");
    }
  }
  s.nontrivial(kinds.size() >= 3 && e.orig.joints.size() >= 3);
  if (refused) s.label("refused");
  if (e.cur.joints.size() < e.orig.joints.size()) s.label("removed");
}
