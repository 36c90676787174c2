// Robot descriptions: a generator of random kinematic trees, their serialization
// as XML documents, a reader of the library's property trees which uses no
// library code, and the rigid-body mechanics of a description in double precision.
#pragma once
#include "ref.h"
#include <almath/scenegraph/urdf.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <functional>

namespace ug {
using namespace ref;
namespace urdf = AL::urdf;
typedef boost::property_tree::ptree ptree;

inline std::string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string num3(V3 v) { return num(v.x) + " " + num(v.y) + " " + num(v.z); }

struct MPose {
  bool present = false;
  V3 xyz, rpy;
  H h() const { return mk(rotZYX(rpy.x, rpy.y, rpy.z), xyz); }
};
struct MInertial {
  bool present = false;
  MPose origin;
  double mass = 0;
  double i[6] = {0, 0, 0, 0, 0, 0};  // xx xy xz yy yz zz
  M3 tensor() const {
    M3 m;
    m.m[0][0] = i[0];
    m.m[0][1] = m.m[1][0] = i[1];
    m.m[0][2] = m.m[2][0] = i[2];
    m.m[1][1] = i[3];
    m.m[1][2] = m.m[2][1] = i[4];
    m.m[2][2] = i[5];
    return m;
  }
};
enum Geo { BOX, CYLINDER, SPHERE, MESH };
struct MVisual {
  bool collision = false;
  std::string name;
  MPose origin;
  int geo = BOX;
  V3 dims;  // box size, (radius, length, 0), (radius, 0, 0), scale
  bool has_scale = false;
  std::string filename;
  bool has_material = false, has_texture = false, has_texture_filename = false;
  std::string texture;
};
struct MLink {
  std::string name;
  MInertial inertial;
  std::vector<MVisual> shapes;
};
struct MJoint {
  std::string name, type = "revolute", parent, child;
  MPose origin;
  bool has_axis = false;
  V3 axis = V3(1, 0, 0);
  bool has_lower = false, has_upper = false, has_effort = false, has_velocity = false;
  double lower = 0, upper = 0, effort = 0, velocity = 0;
  bool has_mimic = false;
  std::string mimic;
  bool has_multiplier = false, has_offset = false;
  double multiplier = 1, offset = 0;
  V3 eaxis() const { return has_axis ? axis : V3(1, 0, 0); }
};
struct Model {
  std::vector<MLink> links;
  std::vector<MJoint> joints;
  std::vector<int> order;  // document order: i >= 0 links[i], i < 0 joints[-1 - i]
  const MLink *link(const std::string &n) const {
    for (auto &l : links)
      if (l.name == n) return &l;
    return nullptr;
  }
  MLink *link(const std::string &n) {
    for (auto &l : links)
      if (l.name == n) return &l;
    return nullptr;
  }
  const MJoint *joint(const std::string &n) const {
    for (auto &l : joints)
      if (l.name == n) return &l;
    return nullptr;
  }
  MJoint *joint(const std::string &n) {
    for (auto &l : joints)
      if (l.name == n) return &l;
    return nullptr;
  }
  const MJoint *parentJoint(const std::string &l) const {
    for (auto &j : joints)
      if (j.child == l) return &j;
    return nullptr;
  }
  std::string root() const {
    for (auto &l : links)
      if (!parentJoint(l.name)) return l.name;
    return "";
  }
  // joints in document order
  std::vector<const MJoint *> ordered() const {
    std::vector<const MJoint *> r;
    for (int i : order)
      if (i < 0) r.push_back(&joints[-1 - i]);
    return r;
  }
};

// ---- serialization
struct XmlOpt {
  Src *s = nullptr;  // when set, random layout: comments, spaces
};
inline std::string esc(const std::string &in) {
  std::string r;
  for (char c : in)
    switch (c) {
      case '&': r += "&amp;"; break;
      case '<': r += "&lt;"; break;
      case '>': r += "&gt;"; break;
      case '"': r += "&quot;"; break;
      case '\'': r += "&apos;"; break;
      default: r += c;
    }
  return r;
}
struct Xml {
  std::ostringstream o;
  Src *s = nullptr;
  std::string sp() {
    if (!s || !s->chance(1, 12)) return "";
    switch (s->draw(4)) {
      case 0: return "\n  ";
      case 1: return "<!-- comment -->";
      case 2: return "\n<!-- <joint name=\"x\"/> -->\n";
      default:  // elements of others, to be left alone
        return s->pick<std::string>(
            {"<gazebo reference=\"x\"><material>Gazebo/Grey</material></gazebo>", "<dynamics damping=\"0.1\" friction=\"0\"/>",
             "<transmission name=\"t\"><joint name=\"x\"/><link name=\"y\"/><origin xyz=\"1 2 3\"/></transmission>", "<links name=\"z\"/>",
             "<Joint name=\"x\"/>", "<sensor><origin xyz=\"1 2 3\" rpy=\"1 0 0\"/></sensor>", "<joint2/>", "<safety_controller k_velocity=\"1\"/>",
             "<inertials><mass value=\"3\"/></inertials>", "<visuals><origin xyz=\"1 1 1\"/></visuals>", "<note>some text</note>"});
    }
  }
  // the parts of an element, in any order
  void parts(std::vector<std::string> v) {
    if (s && s->chance(1, 4))
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)s->draw(i)]);
    for (auto &x : v) o << x;
  }
  template <class F>
  std::string text(F f) {
    std::string before = o.str();
    o.str("");
    f();
    std::string r = o.str();
    o.str("");
    o << before;
    return r;
  }
  std::string vec(V3 v) {
    std::string sep = " ";
    if (s && s->chance(1, 8)) sep = s->pick<std::string>({"  ", "\t", " \t "});
    std::string r = num(v.x) + sep + num(v.y) + sep + num(v.z);
    if (s && s->chance(1, 12)) r = " " + r + " ";
    return r;
  }
  void pose(const MPose &p) {
    if (!p.present) return;
    o << sp() << "<origin";
    bool x = maxdiff(p.xyz, V3()) != 0, r = maxdiff(p.rpy, V3()) != 0;
    if (s && s->chance(1, 6)) x = r = true;
    if (x) o << " xyz=\"" << vec(p.xyz) << "\"";
    if (r) o << " rpy=\"" << vec(p.rpy) << "\"";
    o << "/>";
  }
  void inertial(const MInertial &m) {
    if (!m.present) return;
    o << sp() << "<inertial>";
    pose(m.origin);
    o << "<mass value=\"" << num(m.mass) << "\"/>" << sp();
    static const char *n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
    o << "<inertia";
    for (int k = 0; k < 6; ++k) o << " " << n[k] << "=\"" << num(m.i[k]) << "\"";
    o << "/></inertial>";
  }
  void visual(const MVisual &v) {
    const char *tag = v.collision ? "collision" : "visual";
    o << sp() << "<" << tag << " name=\"" << esc(v.name) << "\">";
    parts({text([&] { pose(v.origin); }), text([&] { geometry(v); }), text([&] { material(v); })});
    o << "</" << tag << ">";
  }
  void geometry(const MVisual &v) {
    o << sp() << "<geometry>" << sp();
    switch (v.geo) {
      case BOX: o << "<box size=\"" << vec(v.dims) << "\"/>"; break;
      case CYLINDER:
        o << "<cylinder radius=\"" << num(v.dims.x) << "\" length=\"" << num(v.dims.y) << "\"/>";
        break;
      case SPHERE: o << "<sphere radius=\"" << num(v.dims.x) << "\"/>"; break;
      default:
        o << "<mesh filename=\"" << esc(v.filename) << "\"";
        if (v.has_scale) o << " scale=\"" << vec(v.dims) << "\"";
        o << "/>";
    }
    o << "</geometry>";
  }
  void material(const MVisual &v) {
    if (v.has_material) {
      o << "<material name=\"m\">";
      if (v.has_texture) {
        o << "<texture";
        if (v.has_texture_filename) o << " filename=\"" << esc(v.texture) << "\"";
        o << "/>";
      }
      o << "</material>";
    }
  }
  void link(const MLink &l) {
    o << sp() << "<link name=\"" << esc(l.name) << "\">";
    size_t at = s ? (size_t)s->draw(l.shapes.size() + 1) : 0;
    for (size_t i = 0; i < l.shapes.size(); ++i) {
      if (i == at) inertial(l.inertial);
      visual(l.shapes[i]);
    }
    if (at >= l.shapes.size()) inertial(l.inertial);
    o << sp() << "</link>\n";
  }
  void joint(const MJoint &j) {
    o << sp() << "<joint";
    parts({" name=\"" + esc(j.name) + "\"", " type=\"" + j.type + "\""});
    o << ">" << sp();
    std::vector<std::string> v;
    v.push_back("<parent link=\"" + esc(j.parent) + "\"/>");
    v.push_back("<child link=\"" + esc(j.child) + "\"/>");
    v.push_back(text([&] { pose(j.origin); }));
    if (j.has_axis) v.push_back("<axis xyz=\"" + vec(j.axis) + "\"/>");
    v.push_back(text([&] { limit(j); }));
    v.push_back(text([&] { mimic(j); }));
    v.push_back(sp());
    parts(v);
    o << "</joint>\n";
  }
  void limit(const MJoint &j) {
    if (j.has_lower || j.has_upper || j.has_effort || j.has_velocity) {
      o << "<limit";
      if (j.has_lower) o << " lower=\"" << num(j.lower) << "\"";
      if (j.has_upper) o << " upper=\"" << num(j.upper) << "\"";
      if (j.has_effort) o << " effort=\"" << num(j.effort) << "\"";
      if (j.has_velocity) o << " velocity=\"" << num(j.velocity) << "\"";
      o << "/>";
    }
  }
  void mimic(const MJoint &j) {
    if (j.has_mimic) {
      o << "<mimic joint=\"" << esc(j.mimic) << "\"";
      if (j.has_multiplier) o << " multiplier=\"" << num(j.multiplier) << "\"";
      if (j.has_offset) o << " offset=\"" << num(j.offset) << "\"";
      o << "/>";
    }
  }
};
inline std::string toXml(const Model &m, Src *s = nullptr) {
  Xml x;
  x.s = s;
  x.o << "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n";
  for (int i : m.order) {
    if (i >= 0)
      x.link(m.links[i]);
    else
      x.joint(m.joints[-1 - i]);
  }
  x.o << "</robot>\n";
  return x.o.str();
}
inline ptree parseXml(const std::string &xml) {
  std::istringstream is(xml);
  ptree pt;
  boost::property_tree::xml_parser::read_xml(is, pt);
  return pt;
}

// ---- reader (no library code but the container)
inline const ptree *kid(const ptree &p, const std::string &n) {
  auto it = p.find(n);
  return it == p.not_found() ? nullptr : &it->second;
}
inline const std::string *attr(const ptree &p, const std::string &n) {
  auto a = kid(p, "<xmlattr>");
  if (!a) return nullptr;
  auto b = kid(*a, n);
  return b ? &b->data() : nullptr;
}
inline std::vector<double> nums(const std::string &t) {
  std::vector<double> r;
  const char *c = t.c_str();
  for (;;) {
    char *e;
    double v = strtod(c, &e);
    if (e == c) break;
    r.push_back(v);
    c = e;
  }
  return r;
}
inline V3 readVec(const std::string &t) {
  auto v = nums(t);
  if (v.size() != 3) FAIL("not three numbers: " << t);
  return V3(v[0], v[1], v[2]);
}
inline double readNum(const std::string *t) {
  if (!t) FAIL("missing number");
  auto v = nums(*t);
  if (v.size() != 1) FAIL("not a number: " << *t);
  return v[0];
}
inline MPose readPose(const ptree &p) {
  MPose r;
  if (auto o = kid(p, "origin")) {
    r.present = true;
    if (auto a = attr(*o, "xyz")) r.xyz = readVec(*a);
    if (auto a = attr(*o, "rpy")) r.rpy = readVec(*a);
  }
  return r;
}
inline MInertial readInertial(const ptree &link) {
  MInertial m;
  if (auto i = kid(link, "inertial")) {
    m.present = true;
    m.origin = readPose(*i);
    auto mm = kid(*i, "mass");
    auto ii = kid(*i, "inertia");
    if (!mm || !ii) FAIL("inertial without mass or inertia");
    m.mass = readNum(attr(*mm, "value"));
    static const char *n[] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
    for (int k = 0; k < 6; ++k) m.i[k] = readNum(attr(*ii, n[k]));
  }
  return m;
}
inline std::string need(const ptree &p, const char *child, const char *at) {
  const ptree *q = child ? kid(p, child) : &p;
  const std::string *a = q ? attr(*q, at) : nullptr;
  if (!a) FAIL("missing " << (child ? child : "") << " " << at);
  return *a;
}
inline MVisual readVisual(const ptree &p, bool collision) {
  MVisual v;
  v.collision = collision;
  if (auto a = attr(p, "name")) v.name = *a;
  v.origin = readPose(p);
  auto g = kid(p, "geometry");
  if (!g) FAIL("no geometry");
  if (auto b = kid(*g, "box")) {
    v.geo = BOX;
    v.dims = readVec(need(*b, nullptr, "size"));
  } else if (auto b = kid(*g, "cylinder")) {
    v.geo = CYLINDER;
    v.dims = V3(readNum(attr(*b, "radius")), readNum(attr(*b, "length")), 0);
  } else if (auto b = kid(*g, "sphere")) {
    v.geo = SPHERE;
    v.dims = V3(readNum(attr(*b, "radius")), 0, 0);
  } else if (auto b = kid(*g, "mesh")) {
    v.geo = MESH;
    v.filename = need(*b, nullptr, "filename");
    if (auto a = attr(*b, "scale")) {
      v.has_scale = true;
      v.dims = readVec(*a);
    } else {
      v.dims = V3(1, 1, 1);
    }
  } else {
    FAIL("no shape");
  }
  if (auto m = kid(p, "material")) {
    v.has_material = true;
    if (auto t = kid(*m, "texture")) {
      v.has_texture = true;
      if (auto f = attr(*t, "filename")) {
        v.has_texture_filename = true;
        v.texture = *f;
      }
    }
  }
  return v;
}
inline MJoint readJoint(const ptree &p) {
  MJoint j;
  j.name = need(p, nullptr, "name");
  j.type = need(p, nullptr, "type");
  j.parent = need(p, "parent", "link");
  j.child = need(p, "child", "link");
  j.origin = readPose(p);
  if (auto a = kid(p, "axis")) {
    j.has_axis = true;
    j.axis = readVec(need(*a, nullptr, "xyz"));
  }
  if (auto l = kid(p, "limit")) {
    if (auto a = attr(*l, "lower")) j.has_lower = true, j.lower = readNum(a);
    if (auto a = attr(*l, "upper")) j.has_upper = true, j.upper = readNum(a);
    if (auto a = attr(*l, "effort")) j.has_effort = true, j.effort = readNum(a);
    if (auto a = attr(*l, "velocity")) j.has_velocity = true, j.velocity = readNum(a);
  }
  if (auto m = kid(p, "mimic")) {
    j.has_mimic = true;
    j.mimic = need(*m, nullptr, "joint");
    if (auto a = attr(*m, "multiplier")) j.has_multiplier = true, j.multiplier = readNum(a);
    if (auto a = attr(*m, "offset")) j.has_offset = true, j.offset = readNum(a);
  }
  return j;
}
inline Model readModel(const ptree &robot) {
  Model m;
  for (auto &kv : robot) {
    if (kv.first == "link") {
      MLink l;
      l.name = need(kv.second, nullptr, "name");
      l.inertial = readInertial(kv.second);
      for (auto &e : kv.second)
        if (e.first == "visual" || e.first == "collision")
          l.shapes.push_back(readVisual(e.second, e.first == "collision"));
      m.order.push_back((int)m.links.size());
      m.links.push_back(l);
    } else if (kv.first == "joint") {
      m.order.push_back(-1 - (int)m.joints.size());
      m.joints.push_back(readJoint(kv.second));
    }
  }
  return m;
}

// ---- generator
inline double genNum(Src &s, double m) {
  switch (s.draw(4)) {
    case 0: return (double)s.range(-4, 4) / 4. * (m < 1 ? m : 1);
    case 1: return s.real(-m, m);
    default: return m * (2 * s.unit() - 1);
  }
}
inline V3 genV(Src &s, double m) {
  if (s.chance(1, 5)) return V3();
  double x = genNum(s, m), y = genNum(s, m), z = genNum(s, m);
  return V3(x, y, z);
}
inline V3 genRpy(Src &s) {
  switch (s.draw(5)) {
    case 0: return V3();
    case 1: {
      V3 v;
      v[s.draw(3)] = genAngle(s);
      return v;
    }
    case 2: {
      double a = genAngle(s), c = genAngle(s);
      return V3(a, (s.coin() ? 1 : -1) * PI / 2, c);
    }
    default: {
      double a = genAngle(s), b = genAngle(s), c = genAngle(s);
      return V3(a, b, c);
    }
  }
}
inline MPose genPose(Src &s) {
  MPose p;
  p.present = !s.chance(1, 4);
  if (!p.present) return p;
  p.xyz = genV(s, s.chance(1, 6) ? 100. : 1.);
  p.rpy = genRpy(s);
  return p;
}
inline V3 genAxis(Src &s, bool unitOnly) {
  if (unitOnly) {
    V3 v;
    v[s.draw(3)] = 1;
    return v;
  }
  if (s.chance(1, 6)) {  // not of length one
    V3 v;
    for (int i = 0; i < 3; ++i) v[i] = (double)s.range(-4, 4) / 2;
    if (norm(v) > 0) return v;
  }
  V3 d = genDir(s);
  if (s.chance(1, 4)) d = -d;
  return d;
}
// a physically plausible inertial; sometimes an arbitrary symmetric tensor
inline MInertial genInertial(Src &s) {
  MInertial m;
  m.present = true;
  m.origin = genPose(s);
  m.mass = s.chance(1, 6) ? (double)s.range(1, 4) : 0.01 + 10 * s.unit();
  double k = m.mass * std::pow(10., -(double)s.range(0, 3));
  double a = k * (0.1 + s.unit()), b = k * (0.1 + s.unit());
  double c = std::fabs(a - b) + (a + b - std::fabs(a - b)) * s.unit();
  M3 d = zeroM();
  d.m[0][0] = a;
  d.m[1][1] = b;
  d.m[2][2] = c;
  M3 r = genRot(s);
  d = r * d * tr(r);
  m.i[0] = d.m[0][0];
  m.i[1] = d.m[0][1];
  m.i[2] = d.m[0][2];
  m.i[3] = d.m[1][1];
  m.i[4] = d.m[1][2];
  m.i[5] = d.m[2][2];
  return m;
}
inline MVisual genVisual(Src &s, const std::string &name, bool collision) {
  MVisual v;
  v.name = name;
  v.collision = collision;
  v.origin = genPose(s);
  v.geo = (int)s.draw(4);
  switch (v.geo) {
    case BOX: v.dims = V3(0.01 + s.unit(), 0.01 + s.unit(), 0.01 + s.unit()); break;
    case CYLINDER: v.dims = V3(0.01 + s.unit(), 0.01 + s.unit(), 0); break;
    case SPHERE: v.dims = V3(0.01 + s.unit(), 0, 0); break;
    default:
      v.filename = name + s.pick<std::string>({".mesh", ".dae", "", "/a b&<\"'>.stl"});
      if (s.chance(1, 8)) v.filename = "";
      v.has_scale = s.coin();
      v.dims = v.has_scale ? V3(0.01 + s.unit(), 0.01 + s.unit(), -0.01 - s.unit()) : V3(1, 1, 1);
  }
  if (!collision && s.chance(1, 3)) {
    v.has_material = true;
    v.has_texture = s.coin();
    v.has_texture_filename = v.has_texture && !s.chance(1, 4);
    if (v.has_texture_filename) v.texture = s.chance(1, 8) ? "" : name + ".png";
  }
  return v;
}
struct GenOpt {
  int max_links = 8;
  bool inertials = true, shapes = true, mimics = true, limits = true;
  bool unit_axes = false;
  double p_massless = 0.25;
  std::vector<std::string> types = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar"};
  bool odd_names = true, coincide = true;
};
inline std::string genName(Src &s, const std::string &base, bool odd) {
  if (!odd) return base;
  switch (s.draw(12)) {
    case 0: return base + "_joint";
    case 1: return "L" + base;
    case 2: return base + " & <co>";
    case 3: return base + "/a.long.name-with_many.parts and spaces";
    default: return base;
  }
}
inline Model genModel(Src &s, const GenOpt &o) {
  Model m;
  int n = (int)s.range(1, o.max_links);
  // labels are shuffled so that names do not follow the tree
  std::vector<int> lab(n);
  for (int i = 0; i < n; ++i) lab[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(lab[i], lab[i - (int)s.draw(i + 1)]);
  int shapeCount = 0;
  for (int i = 0; i < n; ++i) {
    MLink l;
    l.name = genName(s, std::string(1, (char)('a' + lab[i])), o.odd_names);
    if (o.inertials && s.unit() >= o.p_massless) l.inertial = genInertial(s);
    if (o.shapes) {
      int k = (int)s.draw(s.chance(1, 8) ? 12 : 4);
      for (int q = 0; q < k; ++q) {
        ++shapeCount;
        l.shapes.push_back(genVisual(s, "s" + std::to_string(shapeCount), s.chance(1, 3)));
      }
    }
    m.links.push_back(l);
  }
  std::set<std::string> used;
  for (int i = 1; i < n; ++i) {
    MJoint j;
    // mostly chains or bushes
    int p = s.chance(1, 2) ? i - 1 : (int)s.draw(i);
    j.parent = m.links[p].name;
    j.child = m.links[i].name;
    j.name = s.chance(1, 6) ? m.links[i].name : j.parent + j.child;
    if (!used.insert(j.name).second) {
      j.name += "_" + std::to_string(i);
      used.insert(j.name);
    }
    j.type = s.pick(o.types);
    j.origin = genPose(s);
    if (j.type != "fixed" && j.type != "floating") {
      j.has_axis = !s.chance(1, 5);
      if (j.has_axis) j.axis = genAxis(s, o.unit_axes);
    }
    if (o.limits && s.chance(1, 2)) {
      j.has_lower = s.coin();
      j.has_upper = s.coin();
      j.has_effort = s.coin();
      j.has_velocity = s.coin();
      j.lower = j.has_lower ? genNum(s, 4) : 0;
      j.upper = j.has_upper ? genNum(s, 4) : 0;
      j.effort = j.has_effort ? genNum(s, 100) : 0;
      j.velocity = j.has_velocity ? genNum(s, 100) : 0;
    }
    m.joints.push_back(j);
  }
  if (o.mimics && m.joints.size() > 1) {
    // acyclic: along a random order of the joints
    std::vector<int> perm(m.joints.size());
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = (int)i;
    for (size_t i = perm.size() - 1; i > 0; --i) std::swap(perm[i], perm[i - s.draw(i + 1)]);
    for (size_t i = 1; i < perm.size(); ++i) {
      if (!s.chance(1, 4)) continue;
      MJoint &j = m.joints[perm[i]];
      j.has_mimic = true;
      j.mimic = m.joints[perm[s.draw(i)]].name;
      j.has_multiplier = s.coin();
      j.has_offset = s.coin();
      j.multiplier = j.has_multiplier ? genNum(s, 3) : 1;
      j.offset = j.has_offset ? genNum(s, 3) : 0;
    }
  }
  // some elements are at the same place (or almost), as in real descriptions
  if (o.coincide && s.coin()) {
    for (auto &j : m.joints) {
      MLink *l = m.link(j.parent);
      MPose p = j.origin;
      if (p.present && s.chance(1, 4))
        for (int i = 0; i < 3; ++i) {
          if (s.coin()) p.rpy[i] = std::nextafter(p.rpy[i], s.coin() ? 10 : -10);
          if (s.chance(1, 4)) p.xyz[i] = std::nextafter(p.xyz[i], s.coin() ? 1e3 : -1e3);
        }
      switch (s.draw(4)) {
        case 0: break;
        case 1: if (l->inertial.present) l->inertial.origin = p; break;
        case 2: if (!l->shapes.empty()) l->shapes[s.draw(l->shapes.size())].origin = p; break;
        default: {
          MJoint &k = m.joints[s.draw(m.joints.size())];
          if (k.parent == j.parent && k.name != j.name) k.origin = p;
        }
      }
    }
  }
  // document order: links and joints in any order
  for (int i = 0; i < n; ++i) m.order.push_back(i);
  for (size_t i = 0; i < m.joints.size(); ++i) m.order.push_back(-1 - (int)i);
  if (s.coin())
    for (size_t i = m.order.size() - 1; i > 0; --i) std::swap(m.order[i], m.order[i - s.draw(i + 1)]);
  return m;
}

// ---- mechanics
struct Config {  // one value per joint name
  std::map<std::string, double> q;
  std::map<std::string, H> free;
};
inline Config genConfig(Src &s, const Model &m) {
  Config c;
  for (auto &j : m.joints) {
    c.q[j.name] = s.chance(1, 5) ? 0. : genAngle(s);
    if (j.type == "floating" || j.type == "planar") c.free[j.name] = genH(s, 1);
  }
  return c;
}
inline H motion(const MJoint &j, const Config &c) {
  double q = c.q.at(j.name);
  if (j.type == "revolute" || j.type == "continuous") return mk(rotAxis(j.eaxis(), q), V3());
  if (j.type == "prismatic") return mk(M3(), q * unit(j.eaxis()));
  if (j.type == "fixed") return H();
  auto it = c.free.find(j.name);
  if (j.type == "planar") {
    // translation in the plane normal to the axis, rotation about it
    V3 ax = unit(j.eaxis());
    H f = it == c.free.end() ? H() : it->second;
    return mk(rotAxis(ax, q), f.t - dot(f.t, ax) * ax);
  }
  return it == c.free.end() ? H() : it->second;
}
// world pose of each link, the root being the identity
inline std::map<std::string, H> linkPoses(const Model &m, const Config &c) {
  std::map<std::string, H> r;
  r[m.root()] = H();
  bool more = true;
  while (more) {
    more = false;
    for (auto &j : m.joints) {
      if (r.count(j.child)) continue;
      auto it = r.find(j.parent);
      if (it == r.end()) continue;
      H p = it->second;
      r[j.child] = p * (j.origin.h() * motion(j, c));
      more = true;
    }
  }
  return r;
}
// pose of each physical element, by label
inline std::map<std::string, H> elementPoses(const Model &m, const Config &c) {
  std::map<std::string, H> r;
  auto lp = linkPoses(m, c);
  for (auto &l : m.links) {
    auto it = lp.find(l.name);
    if (it == lp.end()) FAIL("link " << l.name << " is not connected to the root");
    if (l.inertial.present) r["inertial of " + l.name] = it->second * l.inertial.origin.h();
    for (auto &v : l.shapes) r["shape " + v.name + " of " + l.name] = it->second * v.origin.h();
  }
  return r;
}
// mass, centre of mass and inertia about it, in the world frame
struct Body {
  double mass = 0;
  V3 com;
  M3 inertia = zeroM();
};
inline M3 pointInertia(double m, V3 d) {
  M3 r;
  double n = dot(d, d);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = m * ((i == j ? n : 0) - d[i] * d[j]);
  return r;
}
inline Body toBody(const H &link, const MInertial &i) {
  Body b;
  H h = link * i.origin.h();
  b.mass = i.mass;
  b.com = h.t;
  b.inertia = h.r * i.tensor() * tr(h.r);
  return b;
}
inline Body merge(const std::vector<Body> &bs) {
  Body r;
  for (auto &b : bs) r.mass += b.mass;
  for (auto &b : bs) r.com = r.com + (b.mass / r.mass) * b.com;
  for (auto &b : bs) r.inertia = r.inertia + b.inertia + pointInertia(b.mass, b.com - r.com);
  return r;
}
inline double maxabs(const M3 &m) { return maxdiff(m, zeroM()); }

// depth-first joint visit of the description, siblings in document order
inline void dfs(const Model &m, const std::string &link, const std::function<void(const MJoint &, bool)> &f,
                const std::function<bool(const MJoint &)> &enter = nullptr) {
  for (auto *j : m.ordered()) {
    if (j->parent != link) continue;
    f(*j, true);
    if (!enter || enter(*j)) dfs(m, j->child, f, enter);
    f(*j, false);
  }
}
// structural validity of a description
inline std::string invalid(const Model &m) {
  std::set<std::string> ln, jn, children;
  if (m.links.empty()) return "no link";
  for (auto &l : m.links)
    if (!ln.insert(l.name).second) return "duplicate link " + l.name;
  for (auto &j : m.joints) {
    if (!jn.insert(j.name).second) return "duplicate joint " + j.name;
    if (!ln.count(j.parent) || !ln.count(j.child)) return "missing end of " + j.name;
    if (!children.insert(j.child).second) return "two parents for " + j.child;
  }
  if (children.size() + 1 != ln.size()) return "not a single root";
  // reachability
  std::set<std::string> seen;
  std::vector<std::string> todo{m.root()};
  while (!todo.empty()) {
    std::string l = todo.back();
    todo.pop_back();
    if (!seen.insert(l).second) return "cycle";
    for (auto &j : m.joints)
      if (j.parent == l) todo.push_back(j.child);
  }
  if (seen.size() != ln.size()) return "links not connected to the root";
  for (auto &j : m.joints) {
    if (j.has_mimic && !jn.count(j.mimic)) return "mimic of a missing joint";
    const MJoint *k = &j;
    for (size_t n = 0; k->has_mimic; ++n) {
      if (n > m.joints.size()) return "mimic loop";
      k = m.joint(k->mimic);
      if (!k) return "mimic of a missing joint";
    }
  }
  return "";
}
}  // namespace ug
