// C21: values of robot descriptions are read, defaulted, composed and written back.
#include "urdfgen.h"
#include <almath/scenegraph/urdfeigen.h>
using namespace ug;

namespace {
V3 v3(const urdf::Array3d &a) { return V3(a[0], a[1], a[2]); }
urdf::Array3d a3(V3 v) { return {{v.x, v.y, v.z}}; }
urdf::Pose toPose(const MPose &p) { return urdf::Pose(a3(p.xyz), a3(p.rpy)); }
H toH(const urdf::Pose &p) { return mk(rotZYX(p.rpy()[0], p.rpy()[1], p.rpy()[2]), v3(p.xyz())); }
bool same(const urdf::Pose &p, const MPose &m) {
  return maxdiff(v3(p.xyz()), m.xyz) == 0 && maxdiff(v3(p.rpy()), m.rpy) == 0;
}
const double TOL = 1e-12;
// any finite double
double anyDouble(Src &s) {
  switch (s.draw(5)) {
    case 0: return genNum(s, 10);
    case 1: return (double)s.range(-1000000, 1000000);
    case 2: return (s.coin() ? 1 : -1) * (0.5 + s.unit()) * std::pow(10., (double)s.range(-300, 300));
    case 3: return s.pick<double>({0., -0., 1e-320, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1. / 3});
    default: {
      uint64_t b = s.draw(0);
      double d;
      memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 0.25;
    }
  }
}
std::string spelled(Src &s, double v) {  // several ways of writing the same number
  char b[400];
  switch (s.draw(4)) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.16e", v); break;
    case 2: snprintf(b, sizeof b, "%+.17g", v); break;
    default: snprintf(b, sizeof b, "%.17E", v);
  }
  return b;
}
}  // namespace

// rigid-motion algebra of poses
PBT_FACET(algebra, 24000) {
  std::vector<urdf::Pose> p;
  std::vector<H> h;
  for (int i = 0; i < 3; ++i) {
    MPose m = genPose(s);
    p.push_back(toPose(m));
    h.push_back(m.h());
  }
  int n = (int)s.range(1, 8), prod = 0;
  for (int i = 0; i < n; ++i) {
    int a = (int)s.draw(3), b = (int)s.draw(3), c = (int)s.draw(3);
    if (s.chance(1, 3)) {
      NOTE("p" << c << " = inverse of p" << a);
      p[c] = p[a].inverse();
      h[c] = inv(h[a]);
    } else {
      NOTE("p" << c << " = p" << a << " * p" << b);
      p[c] = p[a] * p[b];
      h[c] = h[a] * h[b];
      ++prod;
    }
    double t = norm(h[0].t) + norm(h[1].t) + norm(h[2].t);
    if (t > 1e4) break;
    NEARH(toH(p[c]), h[c], 1e-11, 1e-11 * (1 + t), "step " << i);
  }
  s.nontrivial(prod >= 2 && !nearIdentity(h[0].r));
  // exact special cases
  urdf::Pose id;
  MPose m = genPose(s);
  urdf::Pose q = toPose(m);
  CHECK(is_identity(id) && id == urdf::Pose({{0, 0, 0}}, {{0, 0, 0}}), "identity");
  CHECK(id * q == q, "identity on the left");
  CHECK(v3((q * id).rpy())[0] == m.rpy.x && maxdiff(v3((q * id).xyz()), m.xyz) == 0, "identity on the right");
  CHECK(id.inverse() == id, "inverse of the identity");
  CHECK(is_identity(q) == (maxdiff(m.xyz, V3()) == 0 && maxdiff(m.rpy, V3()) == 0), "is_identity");
  NEARH(toH(q.inverse().inverse()), m.h(), TOL, TOL * (1 + norm(m.xyz)) * 4, "inverse of the inverse");
  urdf::Pose r = q;
  CHECK(r == q && !(r != q), "equality");
  MPose w = m;
  (s.coin() ? w.xyz : w.rpy)[s.draw(3)] += 1e-3;
  CHECK(!(toPose(w) == q) && toPose(w) != q, "difference");
  // linear algebra counterparts
  Eigen::Isometry3d e = AL::Math::toEigenTransform(q);
  H eh;
  Eigen::Matrix3d em = AL::Math::eigenQuaternionFromUrdfRpy(q.rpy()).matrix();
  M3 qm;
  for (int i = 0; i < 3; ++i) {
    eh.t[i] = e.translation()[i];
    for (int j = 0; j < 3; ++j) {
      eh.r.m[i][j] = e.linear()(i, j);
      qm.m[i][j] = em(i, j);
    }
  }
  CHECK(maxdiff(eh.t, m.xyz) == 0, "translation");
  NEARM(eh.r, m.h().r, TOL, "rotation");
  NEARM(qm, m.h().r, TOL, "quaternion");
  V3 back = v3(AL::Math::urdfRpyFromEigenMatrix3(em));
  NEARM(rotZYX(back.x, back.y, back.z), m.h().r, TOL, "angles of the rotation");
}

// triples of numbers as text
PBT_FACET(triples, 20000) {
  V3 v(anyDouble(s), anyDouble(s), anyDouble(s));
  NOTE("values " << num3(v));
  urdf::Array3dTranslator tr;
  auto t = tr.put_value(a3(v));
  CHECK(t, "not written");
  LOG("text", *t);
  auto b = tr.get_value(*t);
  CHECK(b, "not read: " << *t);
  CHECK((*b) == a3(v), "read " << num3(v3(*b)) << " from " << *t);
  auto x = nums(*t);
  CHECK(x.size() == 3 && x[0] == v.x && x[1] == v.y && x[2] == v.z, "text " << *t);
  // any spelling and layout
  std::string sep1 = s.pick<std::string>({" ", "  ", "\t", "\n", " \r\n "}), sep2 = s.pick<std::string>({" ", "\t\t", "\v", "\f"});
  std::string u = s.pick<std::string>({"", " ", "\n"}) + spelled(s, v.x) + sep1 + spelled(s, v.y) + sep2 +
                  spelled(s, v.z) + s.pick<std::string>({"", " ", "\t\n"});
  LOG("spelled", u);
  auto c = tr.get_value(u);
  CHECK(c && *c == a3(v), "read from " << u);
  s.nontrivial(v.x != v.y && v.y != v.z);
  CHECK(urdf::is_zero(a3(v)) == (v.x == 0 && v.y == 0 && v.z == 0), "is_zero");
  V3 k((double)s.range(0, 1), (double)s.range(0, 1), (double)s.range(0, 1));
  CHECK(urdf::is_zero(a3(k)) == (k.x + k.y + k.z == 0) && urdf::is_ones(a3(k)) == (k.x + k.y + k.z == 3), "zeros and ones " << num3(k));
  // wrong texts
  std::string w;
  switch (s.draw(6)) {
    case 0: w = ""; break;
    case 1: w = num(v.x); break;
    case 2: w = num(v.x) + " " + num(v.y); break;
    case 3: w = *t + " " + num(v.x); break;
    case 4: w = num(v.x) + " abc " + num(v.z); break;
    default: w = num(v.x) + " " + num(v.y) + " 1x";
  }
  LOG("wrong", w);
  CHECK(!tr.get_value(w), "accepted " << w);
}

// poses as elements
PBT_FACET(poses, 12000) {
  MPose m = genPose(s);
  if (s.chance(1, 3)) {
    (s.coin() ? m.xyz : m.rpy) = V3(anyDouble(s), anyDouble(s), anyDouble(s));
    m.present = true;
  }
  Xml x;
  x.s = &s;
  x.pose(m);
  std::string xml = "<l>" + x.o.str() + "</l>";
  LOG("element", xml);
  ptree pt = parseXml(xml);
  const ptree &l = pt.get_child("l");
  urdf::Pose p = urdf::Pose::from_ptree(l.get_child_optional("origin"));
  CHECK(same(p, m), "pose read: xyz " << num3(v3(p.xyz())) << " rpy " << num3(v3(p.rpy())));
  if (auto o = l.get_child_optional("origin")) CHECK(same(urdf::Pose::from_ptree(*o), m), "pose read");
  auto w = p.to_ptree();
  CHECK(!!w == !is_identity(p), "only the identity is not written");
  if (w) {
    CHECK(urdf::Pose::from_ptree(*w) == p, "written and read");
    CHECK(!!attr(*w, "xyz") == !urdf::is_zero(p.xyz()) && !!attr(*w, "rpy") == !urdf::is_zero(p.rpy()), "attributes written");
    std::ostringstream os;
    ptree doc;
    doc.put_child("origin", *w);
    boost::property_tree::xml_parser::write_xml(os, doc);
    LOG("written", os.str());
    ptree again = parseXml(os.str());
    CHECK(urdf::Pose::from_ptree(again.get_child("origin")) == p, "written as text and read");
  }
  s.nontrivial(maxdiff(m.xyz, V3()) != 0 && maxdiff(m.rpy, V3()) != 0);
}

namespace {
void checkJoint(const urdf::Joint &j, const MJoint &m) {
  CHECK(j.name() == m.name && j.parent_link() == m.parent && j.child_link() == m.child, "names of " << m.name);
  static const std::map<std::string, int> types = {{"revolute", urdf::Joint::revolute}, {"continuous", urdf::Joint::continuous},
                                                   {"prismatic", urdf::Joint::prismatic}, {"fixed", urdf::Joint::fixed},
                                                   {"floating", urdf::Joint::floating}, {"planar", urdf::Joint::planar}};
  CHECK((int)j.type() == types.at(m.type), "type of " << m.name);
  CHECK(same(j.origin(), m.origin), "origin of " << m.name);
  CHECK(maxdiff(v3(j.axis()), m.eaxis()) == 0, "axis of " << m.name);
  auto l = j.limit_lower_upper();
  CHECK(!!l == (m.has_lower || m.has_upper), "limits of " << m.name);
  if (l) CHECK(l->first == m.lower && l->second == m.upper, "limits of " << m.name << ": " << l->first << ", " << l->second);
  CHECK(!!j.limit_effort() == m.has_effort && (!m.has_effort || *j.limit_effort() == m.effort), "effort of " << m.name);
  CHECK(!!j.limit_velocity() == m.has_velocity && (!m.has_velocity || *j.limit_velocity() == m.velocity), "velocity of " << m.name);
  auto mi = j.mimic();
  CHECK(!!mi == m.has_mimic, "mimic of " << m.name);
  if (mi)
    CHECK(mi->joint() == m.mimic && mi->multiplier() == m.multiplier && mi->offset() == m.offset, "mimic of " << m.name);
}
struct GeoCheck : boost::static_visitor<void> {
  const MVisual &m;
  GeoCheck(const MVisual &m) : m(m) {}
  void operator()(urdf::Box b) const {
    CHECK(m.geo == BOX && maxdiff(v3(b.size()), m.dims) == 0, "box " << m.name);
  }
  void operator()(urdf::Cylinder b) const {
    CHECK(m.geo == CYLINDER && b.radius() == m.dims.x && b.length() == m.dims.y, "cylinder " << m.name);
  }
  void operator()(urdf::Sphere b) const { CHECK(m.geo == SPHERE && b.radius() == m.dims.x, "sphere " << m.name); }
  void operator()(urdf::Mesh b) const {
    CHECK(m.geo == MESH && b.filename() == m.filename && maxdiff(v3(b.scale()), m.dims) == 0, "mesh " << m.name);
  }
};
void checkInertial(const urdf::Inertial &i, const MInertial &m) {
  CHECK(same(i.origin(), m.origin), "inertial origin");
  CHECK(i.mass() == m.mass, "mass");
  CHECK(i.ixx() == m.i[0] && i.ixy() == m.i[1] && i.ixz() == m.i[2] && i.iyy() == m.i[3] && i.iyz() == m.i[4] &&
            i.izz() == m.i[5], "inertia");
}
}  // namespace

// whole descriptions: every value, then written and read again
PBT_FACET(documents, 16000) {
  GenOpt o;
  Model m = genModel(s, o);
  std::string xml = toXml(m, &s);
  LOG("document", xml);
  ptree pt = parseXml(xml);
  auto checkAll = [&](ptree &doc) {
    ptree &robot = doc.get_child("robot");
    urdf::RobotTree tree(robot);
    for (auto &j : m.joints) checkJoint(urdf::Joint(tree.joint(j.name)), j);
    for (auto &l : m.links) {
      urdf::Link link(tree.link(l.name));
      CHECK(link.name() == l.name, "link name");
      auto i = link.inertial();
      CHECK(!!i == l.inertial.present, "inertial of " << l.name);
      if (i) checkInertial(*i, l.inertial);
      size_t k = 0;
      for (auto &&v : link.visuals()) {
        while (k < l.shapes.size() && l.shapes[k].collision) ++k;
        CHECK(k < l.shapes.size(), "too many visuals in " << l.name);
        CHECK(same(v.origin(), l.shapes[k].origin), "origin of " << l.shapes[k].name);
        boost::apply_visitor(GeoCheck(l.shapes[k]), v.geometry());
        ++k;
      }
      while (k < l.shapes.size() && l.shapes[k].collision) ++k;
      CHECK(k == l.shapes.size(), "missing visuals in " << l.name);
    }
  };
  checkAll(pt);
  std::ostringstream os;
  boost::property_tree::xml_parser::write_xml(os, pt);
  ptree again = parseXml(os.str());
  checkAll(again);
  s.nontrivial(m.links.size() >= 2);
}

// missing mandatory values, optional ones
PBT_FACET(defaults, 16000) {
  static const std::vector<std::pair<std::string, std::string>> mandatory = {
      {"<e type=\"fixed\"><parent link=\"a\"/><child link=\"b\"/></e>", "joint"},
      {"<e name=\"n\" type=\"fixed\"><child link=\"b\"/></e>", "joint"},
      {"<e name=\"n\" type=\"fixed\"><parent link=\"a\"/></e>", "joint"},
      {"<e name=\"n\"><parent link=\"a\"/><child link=\"b\"/></e>", "joint"},
      {"<e name=\"n\" type=\"ball\"><parent link=\"a\"/><child link=\"b\"/></e>", "joint"},
      {"<e name=\"n\" type=\"Revolute\"><parent link=\"a\"/><child link=\"b\"/></e>", "joint"},
      {"<e name=\"n\" type=\"\"><parent link=\"a\"/><child link=\"b\"/></e>", "joint"},
      {"<e><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/></e>", "inertial"},
      {"<e><mass/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixx=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\"/></e>", "inertial"},
      {"<e><mass value=\"x\"/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e><origin xyz=\"1 2\"/><mass value=\"1\"/><inertia ixx=\"1\" ixy=\"1\" ixz=\"1\" iyy=\"1\" iyz=\"1\" izz=\"1\"/></e>", "inertial"},
      {"<e/>", "visual"},
      {"<e><geometry/></e>", "visual"},
      {"<e><geometry><torus/></geometry></e>", "visual"},
      {"<e><geometry><box/></geometry></e>", "visual"},
      {"<e><geometry><sphere/></geometry></e>", "visual"},
      {"<e><geometry><cylinder radius=\"1\"/></geometry></e>", "visual"},
      {"<e><geometry><cylinder length=\"1\"/></geometry></e>", "visual"},
      {"<e><geometry><mesh/></geometry></e>", "visual"},
      {"<e><origin rpy=\"1 2 3 4\"/><geometry><sphere radius=\"1\"/></geometry></e>", "visual"},
      {"<e multiplier=\"2\" offset=\"1\"/>", "mimic"},
      {"<e joint=\"j\" multiplier=\"x\"/>", "mimic"},
      {"<e joint=\"j\" offset=\"1 2\"/>", "mimic"},
      {"<e/>", "link"},
  };
  struct Geo : boost::static_visitor<void> {
    void operator()(urdf::Box b) const { b.size(); }
    void operator()(urdf::Cylinder b) const {
      b.radius();
      b.length();
    }
    void operator()(urdf::Sphere b) const { b.radius(); }
    void operator()(urdf::Mesh b) const {
      b.filename();
      b.scale();
    }
  };
  if (s.chance(1, 3)) {
    auto &c = mandatory[s.draw(mandatory.size())];
    LOG("element", c.first);
    s.nontrivial();
    ptree pt = parseXml(c.first);
    if (c.second == "joint" && s.chance(1, 3)) {  // a type which is none of the six
      pt = parseXml("<e name=\"n\"><parent link=\"a\"/><child link=\"b\"/></e>");
      std::string t = s.nearMiss(s.pick({"revolute", "prismatic", "continuous", "planar", "fixed", "floating"}));
      NOTE("type " << t);
      pt.put("e.<xmlattr>.type", t);
    }
    const ptree &e = pt.get_child("e");
    auto query = [&]() {
      if (c.second == "joint") {
        urdf::Joint j(e);
        j.name(), j.type(), j.parent_link(), j.child_link(), j.origin(), j.axis();
      } else if (c.second == "inertial") {
        urdf::Inertial i(e);
        i.origin(), i.mass(), i.ixx(), i.ixy(), i.ixz(), i.iyy(), i.iyz(), i.izz();
      } else if (c.second == "visual") {
        urdf::Visual v(e);
        v.origin();
        boost::apply_visitor(Geo(), v.geometry());
      } else if (c.second == "mimic") {
        urdf::Mimic m(e);
        m.joint(), m.multiplier(), m.offset();
      } else {
        urdf::Link l(e);
        l.name();
      }
    };
    THROWS(query(), "a mandatory value is missing or malformed in a " << c.second);
    return;
  }
  // empty elements have the documented defaults
  {
    ptree pt = parseXml("<e name=\"n\" type=\"revolute\"><parent link=\"a\"/><child link=\"b\"/></e>");
    urdf::Joint j(pt.get_child("e"));
    CHECK(is_identity(j.origin()) && j.axis() == (urdf::Array3d{{1, 0, 0}}), "defaults of a joint");
    CHECK(!j.limit_lower_upper() && !j.limit_effort() && !j.limit_velocity() && !j.mimic(), "no limits nor mimic");
  }
  MJoint m;
  m.name = "n", m.parent = "a", m.child = "b";
  m.type = s.pick<std::string>({"revolute", "prismatic", "continuous", "planar", "fixed", "floating"});
  if ((m.has_lower = s.coin())) m.lower = anyDouble(s);
  if ((m.has_upper = s.coin())) m.upper = anyDouble(s);
  if ((m.has_effort = s.coin())) m.effort = anyDouble(s);
  if ((m.has_velocity = s.coin())) m.velocity = anyDouble(s);
  if ((m.has_axis = s.coin())) m.axis = V3(anyDouble(s), anyDouble(s), anyDouble(s));
  if ((m.has_mimic = s.coin())) {
    m.mimic = "other";
    if ((m.has_multiplier = s.coin())) m.multiplier = anyDouble(s);
    if ((m.has_offset = s.coin())) m.offset = anyDouble(s);
  }
  m.origin = genPose(s);
  Xml x;
  x.s = &s;
  x.joint(m);
  LOG("element", x.o.str());
  ptree pt = parseXml(x.o.str());
  checkJoint(urdf::Joint(pt.get_child("joint")), m);
  std::string nn = s.pick<std::string>({"new", "", "a b", "<&>"});
  urdf::put_name(pt.get_child("joint"), nn);
  m.name = nn;
  checkJoint(urdf::Joint(pt.get_child("joint")), m);
  s.nontrivial(m.has_lower != m.has_upper || m.has_multiplier != m.has_offset);
}

// file names
PBT_FACET(filenames, 12000) {
  GenOpt o;
  o.limits = o.mimics = false;
  Model m = genModel(s, o);
  std::string xml = toXml(m, &s);
  // materials of the robot itself
  int nm = (int)s.draw(3);
  std::string mats;
  std::vector<std::string> tex;
  for (int i = 0; i < nm; ++i) {
    std::string n = "g" + std::to_string(i);
    mats += "<material name=\"" + n + "\">";
    switch (s.draw(3)) {
      case 0: break;
      case 1: mats += "<texture/>"; break;
      default:
        mats += "<texture filename=\"" + n + ".jpg\"/>";
        tex.push_back(n + ".jpg");
    }
    mats += "<color rgba=\"1 1 1 1\"/></material>";
  }
  size_t at = s.coin() ? xml.find("</robot>") : xml.find("<robot name=\"r\">") + 16;
  xml.insert(at, mats);
  // more than one material in a visual
  if (s.coin())
    for (size_t k = xml.find("</visual>"); k != std::string::npos; k = xml.find("</visual>", k + 9)) {
      std::string more;
      int n = (int)s.draw(4);
      for (int i = 0; i < n; ++i) {
        std::string f = "v" + std::to_string(s.draw(5)) + ".png";
        more += "<material name=\"v\">";
        switch (s.draw(3)) {
          case 0: more += "<color rgba=\"1 1 1 1\"/>"; break;
          case 1: more += "<texture/>"; break;
          default: more += "<texture filename=\"" + f + "\"/>"; tex.push_back(f);
        }
        more += "</material>";
      }
      xml.insert(k, more);
      k += more.size();
    }
  LOG("document", xml);
  ptree pt = parseXml(xml);
  ptree &robot = pt.get_child("robot");
  const ptree before = robot;
  std::multiset<std::string> want(tex.begin(), tex.end()), got;
  int nmesh = 0;
  for (auto &l : m.links)
    for (auto &v : l.shapes) {
      if (v.geo == MESH) want.insert(v.filename), ++nmesh;
      if (v.has_texture_filename) want.insert(v.texture);
    }
  urdf::robot::transform_filenames(robot, [&](std::string n) {
    got.insert(n);
    return "[" + n + "]";
  });
  std::vector<std::string> w(want.begin(), want.end()), g(got.begin(), got.end());
  LOG("expected", w);
  LOG("visited", g);
  CHECK(want == got, "visited " << g.size() << " file names out of " << w.size());
  // nothing else changed
  std::function<void(const ptree &, const ptree &, const std::string &, const std::string &)> cmp =
      [&](const ptree &a, const ptree &b, const std::string &key, const std::string &up) {
        std::string expect = a.data();
        if (key == "filename" && (up == "mesh" || up == "texture")) expect = "[" + expect + "]";
        CHECK(b.data() == expect, up << " " << key << ": " << b.data() << ", expected " << expect);
        CHECK(a.size() == b.size(), "children of " << key);
        auto i = a.begin();
        auto j = b.begin();
        for (; i != a.end(); ++i, ++j) {
          CHECK(i->first == j->first, "children of " << key);
          cmp(i->second, j->second, i->first, key == "<xmlattr>" ? up : key);
        }
      };
  cmp(before, robot, "robot", "");
  s.nontrivial(want.size() >= 2);
}
