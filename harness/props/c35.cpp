// C35: the functions added for scripts: complete texts, products from both sides.
#include "ref.h"
#include <almath_i.h>
using namespace ref;
using script::Ext;

namespace {
// a text as a tree: Name(key=value, ...), Name([v, v ...]); commas and blanks both separate
struct Node {
  std::string key, name;
  bool number = false;
  double v = 0;
  std::string digits;
  std::vector<Node> kids;
};
struct Parser {
  const std::string &t;
  size_t i = 0;
  Parser(const std::string &t) : t(t) {}
  void blank() {
    while (i < t.size() && (isspace((unsigned char)t[i]) || t[i] == ',')) ++i;
  }
  void list(Node &n, char end) {
    for (;;) {
      blank();
      CHECK(i < t.size(), "the text ends before '" << end << "': " << t);
      if (t[i] == end) break;
      CHECK(t[i] != ')' && t[i] != ']', "unexpected '" << t[i] << "' in " << t);
      n.kids.push_back(value());
    }
    ++i;
  }
  Node value() {
    Node n;
    blank();
    CHECK(i < t.size(), "the text ends before a value: " << t);
    if (t[i] == '[') {
      ++i;
      n.name = "[]";
      list(n, ']');
      return n;
    }
    size_t b = i;
    while (i < t.size() && !isspace((unsigned char)t[i]) && !strchr(",()[]=", t[i])) ++i;
    std::string w = t.substr(b, i - b);
    CHECK(!w.empty(), "unexpected '" << t[i] << "' in " << t);
    char *e;
    double v = strtod(w.c_str(), &e);
    if (!*e) {
      n.number = true;
      n.v = v;
      n.digits = w;
      return n;
    }
    if (i < t.size() && t[i] == '=') {
      ++i;
      n = value();
      CHECK(n.key.empty(), "two keys for a value: " << t);
      n.key = w;
      return n;
    }
    CHECK(i < t.size() && t[i] == '(', "'" << w << "' is not a value: " << t);
    ++i;
    n.name = w;
    list(n, ')');
    return n;
  }
};
Node parse(const std::string &t) {
  Parser p(t);
  Node n = p.value();
  p.blank();
  CHECK(p.i == t.size(), "text after the value: " << t);
  CHECK(t.find(",,") == std::string::npos, "empty component: " << t);
  return n;
}
void same(const Node &n, double want, const std::string &what, const std::string &t) {
  CHECK(n.number, what << " is not a number: " << t);
  bool ok = std::isnan(want) ? std::isnan(n.v) : std::isinf(want) ? n.v == want : std::fabs(n.v - want) <= 5.1e-6 * std::fabs(want);
  CHECK(ok, what << " is " << n.digits << ", not " << want << ": " << t);
}
typedef std::vector<std::pair<std::string, double>> Fields;
void fields(const Node &n, const std::string &name, const Fields &f, const std::string &t) {
  CHECK(n.name == name, "type " << n.name << ", not " << name << ": " << t);
  CHECK(n.kids.size() == f.size(), n.kids.size() << " components, not " << f.size() << ": " << t);
  for (size_t i = 0; i < f.size(); ++i) {
    CHECK(n.kids[i].key == f[i].first, "component " << n.kids[i].key << ", not " << f[i].first << ": " << t);
    same(n.kids[i], f[i].second, f[i].first, t);
  }
}
void numbers(const Node &n, const std::vector<double> &v, const std::string &t) {
  CHECK(n.name == "[]" && n.kids.size() == v.size(), n.kids.size() << " values, not " << v.size() << ": " << t);
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(n.kids[i].key.empty(), "key in a list: " << t);
    same(n.kids[i], v[i], "value " + std::to_string(i), t);
  }
}
void matrix(const std::string &t, const std::vector<double> &v, size_t cols) {
  Node n = parse(t);
  CHECK(n.name == "[]" && n.kids.size() == v.size() / cols, n.kids.size() << " rows: " << t);
  for (size_t r = 0; r < n.kids.size(); ++r) numbers(n.kids[r], std::vector<double>(v.begin() + r * cols, v.begin() + (r + 1) * cols), t);
}
// the text of the numbers decides how long the whole is: extreme values belong to it
float val(Src &s) {
  switch (s.draw(8)) {
    case 0: return (float)s.range(-1000, 1000);
    case 1: return (s.coin() ? 1 : -1) * 3.4028235e38f;
    case 2: return (s.coin() ? 1 : -1) * 1.1754944e-38f;
    case 3: return s.pick<float>({0.f, -0.f, 1e-45f, INFINITY, -INFINITY, NAN});
    case 4: return (float)(s.real(-1, 1) * std::pow(10., (double)s.range(-30, 30)));
    default: return (float)s.real(-10, 10);
  }
}
template <class T> std::string repr(T &v) {
  std::string r = Ext<T>{&v}.__repr__();

  return r;
}
template <class T> std::string strOf(T &v) { return Ext<T>{&v}.__str__(); }
Fields F2(const am::Position2D &p) { return {{"x", p.x}, {"y", p.y}}; }
Fields FP(const am::Pose2D &p) { return {{"x", p.x}, {"y", p.y}, {"theta", p.theta}}; }
Fields F3(const am::Position3D &p) { return {{"x", p.x}, {"y", p.y}, {"z", p.z}}; }
Fields F6(const am::Position6D &p) { return {{"x", p.x}, {"y", p.y}, {"z", p.z}, {"wx", p.wx}, {"wy", p.wy}, {"wz", p.wz}}; }
Fields FV6(const am::Velocity6D &p) { return {{"xd", p.xd}, {"yd", p.yd}, {"zd", p.zd}, {"wxd", p.wxd}, {"wyd", p.wyd}, {"wzd", p.wzd}}; }
Fields FQ(const am::Quaternion &p) { return {{"w", p.w}, {"x", p.x}, {"y", p.y}, {"z", p.z}}; }
std::vector<double> rows(const am::Transform &t) {
  return {t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4, t.r2_c1, t.r2_c2, t.r2_c3, t.r2_c4, t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4};
}
am::Transform anyT(Src &s) {
  am::Transform t;
  for (float *f : {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r1_c4, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r2_c4, &t.r3_c1, &t.r3_c2, &t.r3_c3, &t.r3_c4}) *f = val(s);
  return t;
}
am::Velocity6D anyV6(Src &s) { return am::Velocity6D(val(s), val(s), val(s), val(s), val(s), val(s)); }
am::Position6D any6(Src &s) { return am::Position6D(val(s), val(s), val(s), val(s), val(s), val(s)); }
template <class T, class G> void vec(Src &s, const char *name, const char *item, G gen, Fields (*f)(const T &)) {
  std::vector<T> v;
  for (int n = (int)s.draw(12); n > 0; --n) v.push_back(gen());
  std::string t = repr(v);
  Node n = parse(t);
  CHECK(n.name == name && n.kids.size() == 1 && n.kids[0].name == "[]", "type " << n.name << ": " << t);
  auto &k = n.kids[0].kids;
  CHECK(k.size() == v.size(), k.size() << " elements, not " << v.size() << ": " << t);
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(k[i].key.empty(), "key in a list: " << t);
    fields(k[i], item, f(v[i]), t);
  }
  s.nontrivial(v.size() >= 2);
}
}  // namespace

PBT_FACET(texts, 500000) {
  switch (s.draw(13)) {
    case 0: { am::Pose2D p(val(s), val(s), val(s)); auto t = repr(p); fields(parse(t), "Pose2D", FP(p), t); break; }
    case 1: { am::Position2D p(val(s), val(s)); auto t = repr(p); fields(parse(t), "Position2D", F2(p), t); break; }
    case 2: { am::Position3D p(val(s), val(s), val(s)); auto t = repr(p); fields(parse(t), "Position3D", F3(p), t); break; }
    case 3: { am::Quaternion p; p.w = val(s); p.x = val(s); p.y = val(s); p.z = val(s); auto t = repr(p); fields(parse(t), "Quaternion", FQ(p), t); break; }
    case 4: { am::Position6D p = any6(s); auto t = repr(p); fields(parse(t), "Position6D", F6(p), t); break; }
    case 5: { am::PositionAndVelocity p(val(s), val(s)); auto t = repr(p); fields(parse(t), "PositionAndVelocity", {{"q", p.q}, {"dq", p.dq}}, t); break; }
    case 6: {
      am::Rotation p;
      std::vector<double> v;
      for (float *f : {&p.r1_c1, &p.r1_c2, &p.r1_c3, &p.r2_c1, &p.r2_c2, &p.r2_c3, &p.r3_c1, &p.r3_c2, &p.r3_c3}) v.push_back(*f = val(s));
      auto t = repr(p);
      Node n = parse(t);
      CHECK(n.name == "Rotation" && n.kids.size() == 1, "type: " << t);
      numbers(n.kids[0], v, t);
      matrix(strOf(p), v, 3);
      break;
    }
    case 7: { am::Rotation3D p(val(s), val(s), val(s)); auto t = repr(p); fields(parse(t), "Rotation3D", {{"wx", p.wx}, {"wy", p.wy}, {"wz", p.wz}}, t); break; }
    case 8: {
      am::Transform p = anyT(s);
      auto t = repr(p);
      Node n = parse(t);
      CHECK(n.name == "Transform" && n.kids.size() == 1, "type: " << t);
      numbers(n.kids[0], rows(p), t);
      matrix(strOf(p), rows(p), 4);
      break;
    }
    case 9: {
      am::TransformAndVelocity6D p;
      p.T = anyT(s);
      p.V = anyV6(s);
      auto t = repr(p);
      Node n = parse(t);
      CHECK(n.name == "TransformAndVelocity6D" && n.kids.size() == 2 && n.kids[0].key == "T" && n.kids[1].key == "V", "type: " << t);
      CHECK(n.kids[0].name == "Transform" && n.kids[0].kids.size() == 1, "type: " << t);
      numbers(n.kids[0].kids[0], rows(p.T), t);
      fields(n.kids[1], "Velocity6D", FV6(p.V), t);
      break;
    }
    case 10: {
      am::Displacement p;
      p.P = am::Position3D(val(s), val(s), val(s));
      p.Q.w = val(s); p.Q.x = val(s); p.Q.y = val(s); p.Q.z = val(s);
      auto t = repr(p);
      Node n = parse(t);
      CHECK(n.name == "Displacement" && n.kids.size() == 2 && n.kids[0].key == "P" && n.kids[1].key == "Q", "type: " << t);
      fields(n.kids[0], "Position3D", F3(p.P), t);
      fields(n.kids[1], "Quaternion", FQ(p.Q), t);
      break;
    }
    case 11: {
      if (s.coin()) {
        am::Velocity3D p(val(s), val(s), val(s));
        auto t = repr(p);
        fields(parse(t), "Velocity3D", {{"xd", p.xd}, {"yd", p.yd}, {"zd", p.zd}}, t);
      } else {
        am::Velocity6D p = anyV6(s);
        auto t = repr(p);
        fields(parse(t), "Velocity6D", FV6(p), t);
      }
      break;
    }
    default: {
      if (s.coin()) {
        am::Point2Di p((int)s.draw(1ull << 32), (int)s.range(-1000, 1000));
        auto t = repr(p);
        fields(parse(t), "Point2Di", {{"x", p.x}, {"y", p.y}}, t);
      } else {
        am::Position2D o(val(s), val(s));
        am::OccupancyMapParams p((int)s.range(1, 100000), val(s), o);
        auto t = repr(p);
        Node n = parse(t);
        CHECK(n.name == "OccupancyMapParams" && n.kids.size() == 3, "type: " << t);
        CHECK(n.kids[0].key == "size" && n.kids[1].key == "metersPerPixel" && n.kids[2].key == "originOffset", "components: " << t);
        same(n.kids[0], p.size, "size", t);
        same(n.kids[1], p.metersPerPixel, "metersPerPixel", t);
        fields(n.kids[2], "Position2D", F2(p.originOffset), t);
      }
    }
  }
  s.nontrivial(true);
}

PBT_FACET(vectors, 150000) {
  switch (s.draw(4)) {
    case 0: vec<am::Position2D>(s, "vectorPosition2D", "Position2D", [&] { return am::Position2D(val(s), val(s)); }, F2); break;
    case 1: vec<am::Pose2D>(s, "vectorPose2D", "Pose2D", [&] { return am::Pose2D(val(s), val(s), val(s)); }, FP); break;
    case 2: vec<am::Position6D>(s, "vectorPosition6D", "Position6D", [&] { return any6(s); }, F6); break;
    default: {
      std::vector<float> v;
      for (int n = (int)s.draw(12); n > 0; --n) v.push_back(val(s));
      std::string t = repr(v);
      Node n = parse(t);
      CHECK(n.name == "vectorFloat" && n.kids.size() == 1, "type: " << t);
      numbers(n.kids[0], std::vector<double>(v.begin(), v.end()), t);
      s.nontrivial(v.size() >= 2);
    }
  }
}

// a script may write number * value, and apply rotations and transforms to points
PBT_FACET(products, 500000) {
  double m = s.pick<double>({1., 100., 1e-3});
  float k = (float)s.real(-m, m);
  float f[6];
  for (float &x : f) x = (float)s.real(-10, 10);
  auto eq = [&](double a, double w, const char *what) { NEAR(a, w, 1.3e-7 * std::fabs(w), what); };
  am::Pose2D p(f[0], f[1], f[2]);
  am::Pose2D rp = Ext<am::Pose2D>{&p}.__rmul__(k);
  eq(rp.x, (double)k * f[0], "Pose2D"); eq(rp.y, (double)k * f[1], "Pose2D"); eq(rp.theta, (double)k * f[2], "Pose2D");
  am::Position2D p2(f[0], f[1]);
  am::Position2D r2 = Ext<am::Position2D>{&p2}.__rmul__(k);
  eq(r2.x, (double)k * f[0], "Position2D"); eq(r2.y, (double)k * f[1], "Position2D");
  am::Position3D p3(f[0], f[1], f[2]);
  am::Position3D r3 = Ext<am::Position3D>{&p3}.__rmul__(k);
  eq(r3.x, (double)k * f[0], "Position3D"); eq(r3.y, (double)k * f[1], "Position3D"); eq(r3.z, (double)k * f[2], "Position3D");
  am::Position6D p6(f[0], f[1], f[2], f[3], f[4], f[5]);
  am::Position6D r6 = Ext<am::Position6D>{&p6}.__rmul__(k);
  eq(r6.x, (double)k * f[0], "Position6D"); eq(r6.y, (double)k * f[1], "Position6D"); eq(r6.z, (double)k * f[2], "Position6D");
  eq(r6.wx, (double)k * f[3], "Position6D"); eq(r6.wy, (double)k * f[4], "Position6D"); eq(r6.wz, (double)k * f[5], "Position6D");
  am::Velocity3D v3(f[0], f[1], f[2]);
  am::Velocity3D w3 = Ext<am::Velocity3D>{&v3}.__rmul__(k);
  eq(w3.xd, (double)k * f[0], "Velocity3D"); eq(w3.yd, (double)k * f[1], "Velocity3D"); eq(w3.zd, (double)k * f[2], "Velocity3D");
  am::Velocity6D v6(f[0], f[1], f[2], f[3], f[4], f[5]);
  am::Velocity6D w6 = Ext<am::Velocity6D>{&v6}.__rmul__(k);
  eq(w6.xd, (double)k * f[0], "Velocity6D"); eq(w6.yd, (double)k * f[1], "Velocity6D"); eq(w6.zd, (double)k * f[2], "Velocity6D");
  eq(w6.wxd, (double)k * f[3], "Velocity6D"); eq(w6.wyd, (double)k * f[4], "Velocity6D"); eq(w6.wzd, (double)k * f[5], "Velocity6D");
  // points
  am::Transform t = genTransform(s, m);
  am::Position3D x(f[3], f[4], f[5]);
  NEARV(P(Ext<am::Transform>{&t}.__mul__(x)), toH(t) * P(x), 1e-6 * (20 + 3 * m), "transform of a point");
  am::Rotation r = am::rotationFromTransform(t);
  NEARV(P(Ext<am::Rotation>{&r}.__mul__(x)), R(r) * P(x), 2e-5, "rotation of a point");
  s.nontrivial(k != 0 && f[3] != f[4]);
}
