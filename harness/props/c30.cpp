// C30: any text, read as a robot description or as an animation, then queried
// and edited, gives answers or exceptions.
#include "../rbs.h"
#include "../animgen.h"
#include <almath/scenegraph/qianim.h>
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
using namespace ug;
namespace v2 = AL::qianim::V2;
namespace qa = AL::qianim;
namespace xp = boost::property_tree::xml_parser;

namespace {
// the answers, or the fact that there is none
struct Script {
  std::ostringstream os;
  unsigned answers = 0, errors = 0;
  template <class F>
  bool operator()(const char *what, F f) {
    os << what << ": ";
    try {
      f(os);
      ++answers;
      os << "\n";
      return true;
    } catch (const std::exception &) {
      ++errors;
      os << "error\n";
      return false;
    }
  }
};
std::ostream &operator<<(std::ostream &o, const urdf::Array3d &a) { return o << a[0] << " " << a[1] << " " << a[2]; }
void put(std::ostream &o, const urdf::Pose &p) { o << "xyz " << p.xyz() << " rpy " << p.rpy(); }
struct Geo : boost::static_visitor<> {
  std::ostream &o;
  Geo(std::ostream &o) : o(o) {}
  void operator()(urdf::Box b) const { o << "box " << b.size(); }
  void operator()(urdf::Cylinder c) const { o << "cylinder " << c.radius() << " " << c.length(); }
  void operator()(urdf::Sphere b) const { o << "sphere " << b.radius(); }
  void operator()(const urdf::Mesh &b) const { o << "mesh " << b.filename() << " " << b.scale(); }
};
void askJoint(Script &q, const ptree &p) {
  urdf::Joint j(p);
  q("name", [&](std::ostream &o) { o << j.name(); });
  q("type", [&](std::ostream &o) { o << (int)j.type(); });
  q("ends", [&](std::ostream &o) { o << j.parent_link() << " " << j.child_link(); });
  q("origin", [&](std::ostream &o) { put(o, j.origin()); });
  q("axis", [&](std::ostream &o) { o << j.axis(); });
  q("limits", [&](std::ostream &o) {
    auto l = j.limit_lower_upper();
    if (l) o << l->first << " " << l->second;
    auto e = j.limit_effort(), v = j.limit_velocity();
    if (e) o << " effort " << *e;
    if (v) o << " velocity " << *v;
  });
  q("mimic", [&](std::ostream &o) {
    auto m = j.mimic();
    if (m) o << m->joint() << " " << m->multiplier() << " " << m->offset();
  });
}
void askLink(Script &q, const ptree &p) {
  urdf::Link l(p);
  q("name", [&](std::ostream &o) { o << l.name(); });
  q("inertial", [&](std::ostream &o) {
    auto in = l.inertial();
    o << (bool)in;
    if (!in) return;
    q("origin", [&](std::ostream &x) { put(x, in->origin()); });
    q("mass", [&](std::ostream &x) { x << in->mass(); });
    q("inertia", [&](std::ostream &x) { x << in->ixx() << " " << in->ixy() << " " << in->ixz() << " " << in->iyy() << " " << in->iyz() << " " << in->izz(); });
  });
  for (auto v : l.visuals()) {
    q("origin", [&](std::ostream &o) { put(o, v.origin()); });
    q("geometry", [&](std::ostream &o) {
      auto g = v.geometry();
      boost::apply_visitor(Geo(o), g);
    });
  }
}
struct Vis : urdf::JointConstVisitor {
  Script &q;
  const urdf::RobotTree &t;
  unsigned depth = 0;
  Vis(Script &q, const urdf::RobotTree &t) : q(q), t(t) {}
  bool discover(const ptree &p) override {
    ++depth;
    CHECK(depth < 100000, "endless traversal");
    askJoint(q, p);
    q("child", [&](std::ostream &) { askLink(q, t.link(urdf::child_link(p))); });
    q("by name", [&](std::ostream &o) { o << (&t.joint(urdf::name(p)) == &p); });
    return true;
  }
  void finish(const ptree &p) override {
    q("end", [&](std::ostream &o) { o << urdf::name(p); });
    --depth;
  }
};
// everything a robot description offers; "" if it is refused
std::string askRobot(ptree &robot, unsigned &answers, bool mimic = true) {
  Script q;
  std::unique_ptr<urdf::RobotTree> t;
  if (!q("tree", [&](std::ostream &) { t.reset(new urdf::RobotTree(robot)); })) return "";
  q("root", [&](std::ostream &o) { o << t->root_link(); });
  q("root link", [&](std::ostream &) { askLink(q, t->link(t->root_link())); });
  Vis v(q, *t);
  q("visit", [&](std::ostream &) { static_cast<const urdf::RobotTree &>(*t).traverse_joints(v); });
  if (mimic) q("mimic", [&](std::ostream &o) { o << t->is_mimic_tree_flat(); });
  q("dot", [&](std::ostream &o) {
    urdf::UrdfDotPrinterVisitor d(o);
    t->traverse_joints(d);
  });
  for (auto n : {"", "base", "zz", "a"}) {
    q("link", [&](std::ostream &) { t->link(n); });
    q("joint", [&](std::ostream &) { t->joint(n); });
  }
  answers = q.answers;
  return q.os.str();
}
std::vector<std::string> names(const ptree &robot, const char *tag) {
  std::vector<std::string> r;
  for (auto &c : robot)
    if (c.first == tag) r.push_back(ag::attr(c.second, "name"));
  return r;
}
// numbers whose products overflow are out of the domain of the edits
bool moderate(const std::string &text) {
  size_t run = 0;
  for (size_t i = 0; i < text.size(); ++i) {
    if (isdigit((unsigned char)text[i])) {
      if (++run > 60) return false;
    } else {
      run = 0;
    }
    if ((text[i] == 'e' || text[i] == 'E') && i > 0 && (isdigit((unsigned char)text[i - 1]) || text[i - 1] == '.')) {
      size_t j = i + 1;
      if (j < text.size() && (text[j] == '+' || text[j] == '-')) ++j;
      if (std::strtol(text.c_str() + j, nullptr, 10) > 60) return false;
    }
  }
  return true;
}
void editRobot(Src &s, const ptree &doc, unsigned n) {
  ptree robot = doc;
  pbt::Quiet quiet;
  std::unique_ptr<urdf::RobotTree> t;
  try {
    t.reset(new urdf::RobotTree(robot));
  } catch (const std::exception &) {
    return;
  }
  bool removed = false;
  for (unsigned k = 0; k < n; ++k) {
    auto ls = names(robot, "link"), js = names(robot, "joint");
    std::string l = ls.empty() ? "" : s.pick(ls), j = js.empty() ? "" : s.pick(js);
    size_t op = (size_t)s.draw(13);
    NOTE("edit " << op << " " << l << " " << j);
    try {
      switch (op) {
        case 0: t->define_as_root_link(l); break;
        case 1: t->transport_root_link_frame(urdf::Pose(urdf::Array3d{{1, 2, 3}}, urdf::Array3d{{0.1, -1, 2}})); break;
        case 2: t->rm_root_joint(), removed = true; break;
        case 3: t->rm_leaf_joint(j), removed = true; break;
        case 4: urdf::makeJointFixed(*t, j); break;
        case 5: urdf::makeJointFloating(*t, j); break;
        case 6: urdf::makeContinuousJointsFixed(*t); break;
        case 7: urdf::squashJointMass(*t, j); break;
        case 8: urdf::squashFixedJointsMass(*t); break;
        case 9: urdf::makeMasslessJointsFixed(*t); break;
        case 10:
          urdf::removeSubTreeIfJoint(*t, [&](const ptree &p) { return urdf::name(p) == j; });
          removed = true;
          break;
        case 11: urdf::robot::transform_filenames(robot, [](std::string f) { return f + ".x"; }); break;
        default: {
          rbs::Recorder<double> rec;
          ptree doc2;
          doc2.add_child("robot", robot);
          AL::buildRigidBodySystemFromUrdf(rec, doc2, s.coin(), s.coin());
        }
      }
    } catch (const std::exception &e) {
      NOTE("  " << e.what());
    }
    // the tree goes on answering
    Script q;
    Vis v(q, *t);
    q("visit", [&](std::ostream &) { t->traverse_joints(v); });
    q("root", [&](std::ostream &) { askLink(q, t->link(t->root_link())); });
    if (!removed) q("mimic", [&](std::ostream &o) { o << t->is_mimic_tree_flat(); });
  }
}
void askKey(Script &q, const ptree &k) {
  q("frame", [&](std::ostream &o) { o << v2::Key::get_frame(k); });
  q("value", [&](std::ostream &o) { o << v2::Key::get_value<double>(k); });
  q("valuef", [&](std::ostream &o) { o << v2::Key::get_value<float>(k); });
  for (auto sd : {qa::Side::left, qa::Side::right}) {
    q("tangent", [&](std::ostream &o) {
      auto t = v2::Key::get_tangent_optional(k, sd);
      o << (bool)t;
      if (t) {
        q("abscissa", [&](std::ostream &x) { x << v2::Tangent::get_abscissa<double>(*t); });
        q("ordinate", [&](std::ostream &x) { x << v2::Tangent::get_ordinate<float>(*t); });
        q("side", [&](std::ostream &x) { x << (int)v2::Tangent::get_side(*t); });
      }
    });
  }
}
std::string askAnim(ptree &root, unsigned &answers) {
  Script q;
  ptree *a = nullptr;
  q("animation", [&](std::ostream &) { a = &v2::get_animation(root); });
  auto child = root.find("Animation");
  if (!a && child != root.not_found()) a = &child->second;
  if (!a) return "";
  const ptree &anim = *a;
  q("version", [&](std::ostream &) { v2::Animation::check_version(anim); });
  q("check", [&](std::ostream &) { v2::Animation::check_all(anim); });
  for (const ptree &c : v2::Animation::get_actuatorcurves(anim)) {
    q("actuator", [&](std::ostream &o) { o << v2::ActuatorCurve::get_actuator(c); });
    q("fps", [&](std::ostream &o) { o << v2::ActuatorCurve::get_fps(c); });
    q("mute", [&](std::ostream &o) { o << v2::ActuatorCurve::get_mute(c); });
    q("unit", [&](std::ostream &o) { o << (int)v2::ActuatorCurve::get_unit(c); });
    q("bezier", [&](std::ostream &) { v2::ActuatorCurve::check_cubic_bezier<double>(c); });
    q("bezierf", [&](std::ostream &) { v2::ActuatorCurve::check_cubic_bezier<float>(c); });
    for (const ptree &k : v2::ActuatorCurve::get_keys(c)) askKey(q, k);
    for (int f : {0, 1, 5, 100, -1})
      q("key", [&](std::ostream &o) {
        auto k = v2::ActuatorCurve::get_key_optional(c, f);
        o << (bool)k;
        if (k) askKey(q, *k);
      });
  }
  for (const ptree &l : v2::Animation::get_labels(anim)) {
    q("fps", [&](std::ostream &o) { o << v2::Labels::get_fps(l); });
    for (const ptree &x : v2::Labels::get_labels(l)) {
      q("frame", [&](std::ostream &o) { o << v2::Label::get_frame(x); });
      q("value", [&](std::ostream &o) { o << v2::Label::get_value(x); });
    }
  }
  answers = q.answers;
  return q.os.str();
}
void editAnim(Src &s, const ptree &doc, unsigned n) {
  ptree root = doc;
  for (unsigned k = 0; k < n; ++k) {
    try {
      ptree &anim = v2::require_animation(root);
      ptree *c = nullptr, *l = nullptr;
      for (ptree &x : v2::Animation::get_actuatorcurves(anim))
        if (!c || s.coin()) c = &x;
      for (auto &x : anim)
        if (x.first == "Labels" && (!l || s.coin())) l = &x.second;
      int f = (int)s.range(-1, 8);
      switch (s.draw(9)) {
        case 0: v2::Animation::require_actuatorcurve(anim, ag::word(s)); break;
        case 1: if (c) v2::ActuatorCurve::require_key(*c, f); break;
        case 2: if (c) v2::Key::put_value<double>(v2::ActuatorCurve::require_key(*c, f), s.real(-5, 5)); break;
        case 3: if (c) v2::Key::put_tangent<float>(v2::ActuatorCurve::get_key(*c, f), s.coin() ? qa::Side::left : qa::Side::right, 1.f, 2.f); break;
        case 4: if (c) v2::Key::erase_tangent(v2::ActuatorCurve::get_key(*c, f), s.coin() ? qa::Side::left : qa::Side::right); break;
        case 5: if (l) v2::Labels::add_label(*l, f, "x"); break;
        case 6: v2::Animation::add_labels(anim); break;
        case 7: if (c) v2::ActuatorCurve::put_fps(*c, f); break;
        default: if (c) v2::ActuatorCurve::put_unit(*c, qa::Unit::meter);
      }
    } catch (const std::exception &) {
    }
    unsigned a = 0;
    askAnim(root, a);
  }
}

// ---- damaged documents
struct Dict {
  std::vector<std::string> tags, attrs, values;
};
const Dict &robotDict() {
  static const Dict d = {
      {"robot", "link", "joint", "inertial", "origin", "mass", "inertia", "visual", "collision", "geometry", "box", "cylinder", "sphere",
       "mesh", "material", "texture", "parent", "child", "axis", "limit", "mimic", "<xmlcomment>", "gazebo"},
      {"name", "type", "link", "xyz", "rpy", "value", "ixx", "ixy", "ixz", "iyy", "iyz", "izz", "size", "radius", "length", "filename",
       "scale", "lower", "upper", "effort", "velocity", "joint", "multiplier", "offset"},
      {"", "a", "b", "c", "0", "1", "-1", "0.5", "1e-3", "0 0 0", "1 2 3", "0 1 0", "1 2", "1 2 3 4", "x", "nan", "inf", "1e30", "0 0 1.5707963267948966",
       "revolute", "continuous", "prismatic", "fixed", "floating", "planar", "  1  ", "a b"}};
  return d;
}
const Dict &animDict() {
  static const Dict d = {
      {"Animation", "ActuatorCurve", "Key", "Tangent", "Labels", "Label", "<xmlcomment>", "Group"},
      {"typeVersion", "actuator", "fps", "mute", "unit", "frame", "value", "side", "abscissaParam", "ordinateParam"},
      {"", "2.0", "1.0", "a", "0", "1", "5", "-1", "2147483647", "99999999999", "1.5", "-0.5", "nan", "inf", "1e400", "left", "right", "radian",
       "degree", "meter", "dimensionless", "true", "false", "x", " 1"}};
  return d;
}
void nodes(ptree &p, std::vector<ptree *> &out) {
  out.push_back(&p);
  for (auto &c : p)
    if (c.first != "<xmlattr>" && c.first != "<xmlcomment>") nodes(c.second, out);
}
void damageTree(Src &s, ptree &root, const Dict &d) {
  std::vector<ptree *> all;
  nodes(root, all);
  ptree &p = *all[(size_t)s.draw(all.size())];
  auto attrs = p.find("<xmlattr>");
  switch (s.weighted({5, 3, 2, 3, 3, 3, 2, 1})) {
    case 0:  // the value of an attribute
      if (attrs != p.not_found() && !attrs->second.empty()) {
        auto it = attrs->second.begin();
        std::advance(it, s.draw(attrs->second.size()));
        it->second.data() = s.pick(d.values);
      } else {
        p.put("<xmlattr>." + s.pick(d.attrs), s.pick(d.values));
      }
      break;
    case 1:  // a missing attribute
      if (attrs != p.not_found() && !attrs->second.empty()) {
        auto it = attrs->second.begin();
        std::advance(it, s.draw(attrs->second.size()));
        attrs->second.erase(it);
      }
      break;
    case 2:
      p.put("<xmlattr>." + s.pick(d.attrs), s.pick(d.values));
      break;
    case 3: {  // a missing child
      std::vector<ptree::iterator> its;
      for (auto it = p.begin(); it != p.end(); ++it)
        if (it->first != "<xmlattr>") its.push_back(it);
      if (!its.empty()) p.erase(its[(size_t)s.draw(its.size())]);
      break;
    }
    case 4: {  // a copy of an element somewhere
      ptree &q = *all[(size_t)s.draw(all.size())];
      if (q.empty() || &q == &root) break;
      std::vector<std::pair<std::string, ptree>> cs;
      for (auto &c : q)
        if (c.first != "<xmlattr>") cs.push_back(c);
      if (cs.empty() || all.size() > 300) break;
      auto c = cs[(size_t)s.draw(cs.size())];
      if (&p == &root) break;
      auto it = p.begin();
      std::advance(it, s.draw(p.size() + 1));
      p.insert(it, c);
      break;
    }
    case 5: {  // another name for an element
      std::vector<ptree::iterator> its;
      for (auto it = p.begin(); it != p.end(); ++it)
        if (it->first != "<xmlattr>" && it->first != "<xmlcomment>") its.push_back(it);
      if (its.empty() || &p == &root) break;
      auto it = its[(size_t)s.draw(its.size())];
      std::string n = s.pick(d.tags);
      if (n == "<xmlcomment>") break;
      ptree c = it->second;
      p.insert(it, std::make_pair(n, c));
      p.erase(it);
      break;
    }
    case 6: {
      if (&p == &root) break;
      ptree c;
      if (s.coin()) c.put("<xmlattr>." + s.pick(d.attrs), s.pick(d.values));
      std::string n = s.pick(d.tags);
      if (n == "<xmlcomment>") c = ptree(" comment ");
      auto it = p.begin();
      std::advance(it, s.draw(p.size() + 1));
      p.insert(it, std::make_pair(n, c));
      break;
    }
    default:
      p.data() = s.pick(d.values);
  }
}
std::string damageText(Src &s, std::string t) {
  if (t.empty()) return t;
  size_t i = (size_t)s.draw(t.size()), n = (size_t)s.range(1, 20), j = (size_t)s.draw(t.size());
  switch (s.draw(6)) {
    case 0: t[i] = s.pick({'<', '>', '"', '/', '&', '=', ' ', '0', '-', '\'', '!', 'z'}); break;
    case 1: t.erase(i, n); break;
    case 2: t.insert(i, t.substr(j, n)); break;
    case 3: t.resize(i); break;
    case 4: t[i] = (char)s.draw(256); break;
    default: t.insert(i, s.pick({"<!--", "-->", "<![CDATA[", "&#0;", "&#65;", "&lt;", "<?x?>", "<a>", "</a>", "\"", "<!DOCTYPE x>", "&#xFFFFFFFF;"}));
  }
  return t;
}
std::string write(const ptree &p) {
  std::ostringstream os;
  xp::write_xml(os, p);
  return os.str();
}
bool read(const std::string &text, ptree &p, int flags = 0) {
  try {
    std::istringstream is(text);
    xp::read_xml(is, p, flags);
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
void examineRobot(Src &s, const std::string &text, bool again) {
  LOG("text", text);
  ptree p;
  if (!read(text, p, s.coin() ? xp::trim_whitespace : 0)) {
    s.label("not-xml");
    return;
  }
  // streams are also read by the library itself
  if (moderate(text)) {
    pbt::Quiet quiet;
    rbs::Recorder<double> rec;
    std::istringstream is(text);
    try {
      AL::buildRigidBodySystemFromUrdf(rec, is, s.coin(), s.coin());
    } catch (const std::exception &) {
    }
  }
  auto it = p.find("robot");
  if (it == p.not_found()) return;
  ptree before = it->second;
  unsigned answers = 0;
  std::string a = askRobot(it->second, answers);
  CHECK(before == it->second, "queries changed the document");
  CHECK(a == askRobot(it->second, answers), "the second answers differ: " << a);
  if (a.empty()) {
    s.label("refused");
    s.nontrivial();
    return;
  }
  s.label("accepted");
  s.nontrivial(answers > 20);
  if (again) {
    ptree r;
    std::string t2 = write(p);
    CHECK(read(t2, r), "the document written cannot be read: " << t2);
    auto ir = r.find("robot");
    CHECK(ir != r.not_found(), "the document written lost its robot");
    std::string b = askRobot(ir->second, answers);
    CHECK(a == b, "answers after writing and reading: " << b << " instead of " << a);
  }
  if (moderate(text)) editRobot(s, it->second, (unsigned)s.range(0, 6));
}
void examineAnim(Src &s, const std::string &text, bool again) {
  LOG("text", text);
  ptree p;
  if (!read(text, p)) {
    s.label("not-xml");
    return;
  }
  unsigned answers = 0;
  ptree before = p;
  std::string a = askAnim(p, answers);
  CHECK(before == p, "queries changed the document");
  CHECK(a == askAnim(p, answers), "the second answers differ: " << a);
  s.nontrivial(answers > 5);
  if (again) {
    ptree r;
    std::string t2 = write(p);
    CHECK(read(t2, r), "the document written cannot be read: " << t2);
    std::string b = askAnim(r, answers);
    CHECK(a == b, "answers after writing and reading: " << b << " instead of " << a);
  }
  editAnim(s, p, (unsigned)s.range(0, 6));
}
ptree randomTree(Src &s, const Dict &d, int depth) {
  ptree p;
  int na = (int)s.range(0, 3);
  for (int i = 0; i < na; ++i) p.put("<xmlattr>." + s.pick(d.attrs), s.pick(d.values));
  if (depth == 0) return p;
  int nc = (int)s.range(0, 4);
  for (int i = 0; i < nc; ++i) {
    std::string n = s.pick(d.tags);
    if (n == "<xmlcomment>") p.push_back(std::make_pair(n, ptree("c")));
    else p.push_back(std::make_pair(n, randomTree(s, d, depth - 1)));
  }
  return p;
}
ptree validAnim(Src &s) {
  ptree a;
  a.put("<xmlattr>.typeVersion", "2.0");
  for (int c = (int)s.range(1, 3); c > 0; --c) {
    ptree p;
    p.put("<xmlattr>.actuator", ag::word(s));
    p.put("<xmlattr>.fps", 25);
    p.put("<xmlattr>.unit", "radian");
    int f = 0;
    for (int k = (int)s.range(0, 4); k > 0; --k) {
      ptree q;
      q.put("<xmlattr>.frame", f);
      q.put("<xmlattr>.value", "0.5");
      for (auto sd : {"left", "right"}) {
        ptree t;
        t.put("<xmlattr>.side", sd);
        t.put("<xmlattr>.abscissaParam", std::string(sd) == "left" ? "-1" : "1");
        t.put("<xmlattr>.ordinateParam", "0");
        q.add_child("Tangent", t);
      }
      p.add_child("Key", q);
      f += (int)s.range(1, 5);
    }
    a.add_child("ActuatorCurve", p);
  }
  if (s.coin()) {
    ptree l, x("hello");
    x.put("<xmlattr>.frame", 5);
    l.put("<xmlattr>.fps", 25);
    l.add_child("Label", x);
    a.add_child("Labels", l);
  }
  ptree root;
  root.add_child("Animation", a);
  return root;
}
}  // namespace

PBT_FACET(robot_tree, 6000) {
  GenOpt o;
  o.max_links = 6;
  Model m = genModel(s, o);
  ptree p = parseXml(toXml(m, &s));
  int n = (int)s.range(0, 6);
  for (int i = 0; i < n; ++i) damageTree(s, p, robotDict());
  std::string text;
  try {
    text = write(p);
  } catch (const std::exception &) {
    return;  // e.g. text at the top level
  }
  examineRobot(s, text, p.data().empty());
}
PBT_FACET(robot_text, 6000) {
  GenOpt o;
  o.max_links = 4;
  std::string text = toXml(genModel(s, o), &s);
  int n = (int)s.range(1, 4);
  for (int i = 0; i < n; ++i) text = damageText(s, text);
  examineRobot(s, text, false);
}
PBT_FACET(robot_random, 8000) {
  ptree p;
  if (s.coin()) {  // a few links and joints at least
    ptree r;
    int n = (int)s.range(0, 6);
    for (int i = 0; i < n; ++i) {
      bool link = s.coin();
      ptree c = randomTree(s, robotDict(), 2);
      c.put("<xmlattr>.name", s.pick({"a", "b", "c", "base"}));
      if (!link) {
        c.put("<xmlattr>.type", s.pick({"fixed", "revolute", "x"}));
        c.put("parent.<xmlattr>.link", s.pick({"a", "b", "c", "base"}));
        c.put("child.<xmlattr>.link", s.pick({"a", "b", "c", "base"}));
      }
      r.add_child(link ? "link" : "joint", c);
    }
    p.add_child("robot", r);
  } else {
    p.add_child("robot", randomTree(s, robotDict(), 4));
  }
  examineRobot(s, write(p), true);
}
PBT_FACET(anim_tree, 9000) {
  ptree p = validAnim(s);
  int n = (int)s.range(0, 6);
  for (int i = 0; i < n; ++i) damageTree(s, p, animDict());
  if (!p.data().empty()) return;
  examineAnim(s, write(p), true);
}
PBT_FACET(anim_text, 9000) {
  std::string text = write(validAnim(s));
  int n = (int)s.range(1, 4);
  for (int i = 0; i < n; ++i) text = damageText(s, text);
  examineAnim(s, text, false);
}
PBT_FACET(anim_random, 9000) {
  ptree p;
  ptree a = randomTree(s, animDict(), 4);
  if (s.coin()) a.put("<xmlattr>.typeVersion", "2.0");
  p.add_child("Animation", a);
  examineAnim(s, write(p), true);
}
// bytes and tokens, for coverage-guided search
PBT_FACET(tokens, 20000) {
  static const std::vector<std::string> tok = {
      "<", ">", "/", "=", "\"", "'", " ", "\n", "&", ";", "<!--", "-->", "<robot", "</robot>", "<link name=\"", "\"/>", "\">", "</link>", "<joint name=\"",
      "</joint>", "type=\"fixed\"", "type=\"revolute\"", "<parent link=\"", "<child link=\"", "<origin xyz=\"", "rpy=\"", "<inertial>", "</inertial>", "<mass value=\"",
      "<axis xyz=\"", "<mimic joint=\"", "<limit", "a", "b", "c", "0", "1", "2", ".5", "-", "e", "<Animation typeVersion=\"2.0\">", "</Animation>",
      "<ActuatorCurve actuator=\"", "</ActuatorCurve>", "<Key frame=\"", "</Key>", "<Tangent side=\"", "left", "right", "<Labels fps=\"", "</Labels>", "<Label frame=\"",
      "</Label>", "<visual>", "</visual>", "<geometry>", "</geometry>", "<box size=\"", "<sphere radius=\"", "<mesh filename=\"", "<inertia ixx=\"1\"", "<?xml version=\"1.0\"?>"};
  std::string t;
  if (s.coin()) t = s.coin() ? "<robot>" : "<Animation typeVersion=\"2.0\">";
  int n = (int)s.range(0, 60);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 12)) t += (char)s.draw(256);
    else t += s.pick(tok);
  }
  if (t.compare(0, 7, "<robot>") == 0 && s.coin()) t += "</robot>";
  else if (t.compare(0, 10, "<Animation") == 0 && s.coin()) t += "</Animation>";
  examineRobot(s, t, false);
  examineAnim(s, t, false);
}
