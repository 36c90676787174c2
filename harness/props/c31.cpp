// C31: printed values hold all their components, in order, and can be read back.
#include "../ref.h"
#include <almath/tools/almathio.h>
#include <cfloat>
#include <iomanip>
using namespace ref;

namespace {
struct Printed {
  const char *type;
  std::vector<float> v;                  // components in order
  std::vector<std::string> labels;       // one per component, "" without
  std::vector<size_t> lines;             // components per line, for matrices
  bool homogeneous = false;              // followed by the line 0 0 0 1
  std::function<void(std::ostream &)> print;
  std::function<std::string()> text;     // the space separated form, if any
  std::function<bool()> unchanged;
};
float any(Src &s) {
  switch (s.weighted({6, 2, 2, 2, 1})) {
    case 0: return s.real(-100, 100);
    case 1: return (s.coin() ? 1.f : -1.f) * (float)std::pow(10., s.real(-37, 38));
    case 2: return (float)s.range(-20, 20);
    case 3: return s.pick({0.f, -0.f, 1.f, -1.f, 1e6f, 999999.5f, 1e-5f, 123456.f, 1234567.f, 0.1f, FLT_MAX, FLT_MIN, FLT_EPSILON});
    default: return s.pick({1e-42f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::nanf("")});
  }
}
template <class T>
void bind(Printed &p, const T &t) {
  auto a = std::make_shared<T>(t);
  auto b = std::make_shared<T>(t);
  p.print = [a](std::ostream &o) { o << *a; };
  p.unchanged = [a, b] { return std::memcmp(a.get(), b.get(), sizeof(T)) == 0; };
}
template <class T>
void bindText(Printed &p, const T &t) {
  bind(p, t);
  auto a = std::make_shared<T>(t);
  p.text = [a] { return am::toSpaceSeparated(*a); };
}
void set(am::Transform &t, const std::vector<float> &v) {
  float *f[] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r1_c4, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r2_c4, &t.r3_c1, &t.r3_c2, &t.r3_c3, &t.r3_c4};
  for (int i = 0; i < 12; ++i) *f[i] = v[i];
}
Printed gen(Src &s) {
  Printed p;
  auto take = [&](size_t n) {
    for (size_t i = 0; i < n; ++i) p.v.push_back(any(s));
  };
  switch (s.draw(12)) {
    case 0: {
      take(3), p.type = "Pose2D", p.labels = {"x", "y", "theta"};
      am::Pose2D t;
      t.x = p.v[0], t.y = p.v[1], t.theta = p.v[2];
      bind(p, t);
      break;
    }
    case 1: {
      take(2), p.type = "Position2D", p.labels = {"x", "y"};
      am::Position2D t;
      t.x = p.v[0], t.y = p.v[1];
      bind(p, t);
      break;
    }
    case 2: {
      take(3), p.type = "Position3D", p.labels = {"x", "y", "z"};
      am::Position3D t;
      t.x = p.v[0], t.y = p.v[1], t.z = p.v[2];
      bindText(p, t);
      break;
    }
    case 3: {
      take(6), p.type = "Position6D", p.labels = {"x", "y", "z", "wx", "wy", "wz"};
      am::Position6D t;
      t.x = p.v[0], t.y = p.v[1], t.z = p.v[2], t.wx = p.v[3], t.wy = p.v[4], t.wz = p.v[5];
      bindText(p, t);
      break;
    }
    case 4: {
      take(2), p.type = "PositionAndVelocity", p.labels = {"q", "dq"};
      am::PositionAndVelocity t;
      t.q = p.v[0], t.dq = p.v[1];
      bind(p, t);
      break;
    }
    case 5: {
      take(9), p.type = "Rotation", p.lines = {3, 3, 3};
      am::Rotation t;
      float *f[] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r2_c1, &t.r2_c2, &t.r2_c3, &t.r3_c1, &t.r3_c2, &t.r3_c3};
      for (int i = 0; i < 9; ++i) *f[i] = p.v[i];
      bind(p, t);
      break;
    }
    case 6: {
      take(3), p.type = "Rotation3D", p.labels = {"wx", "wy", "wz"};
      am::Rotation3D t;
      t.wx = p.v[0], t.wy = p.v[1], t.wz = p.v[2];
      bindText(p, t);
      break;
    }
    case 7: {
      take(12), p.type = "Transform", p.lines = {4, 4, 4}, p.homogeneous = true;
      am::Transform t;
      set(t, p.v);
      bindText(p, t);
      break;
    }
    case 8: {
      take(18), p.type = "TransformAndVelocity6D", p.lines = {4, 4, 4}, p.homogeneous = true;
      p.labels.assign(12, "");
      for (auto l : {"xd", "yd", "zd", "wxd", "wyd", "wzd"}) p.labels.push_back(l);
      am::TransformAndVelocity6D t;
      set(t.T, p.v);
      float *f[] = {&t.V.xd, &t.V.yd, &t.V.zd, &t.V.wxd, &t.V.wyd, &t.V.wzd};
      for (int i = 0; i < 6; ++i) *f[i] = p.v[12 + i];
      bind(p, t);
      break;
    }
    case 9: {
      take(4), p.type = "Quaternion", p.labels = {"w", "x", "y", "z"};
      am::Quaternion t;
      t.w = p.v[0], t.x = p.v[1], t.y = p.v[2], t.z = p.v[3];
      bindText(p, t);
      break;
    }
    case 10: {
      take(3), p.type = "Velocity3D", p.labels = {"xd", "yd", "zd"};
      am::Velocity3D t;
      t.xd = p.v[0], t.yd = p.v[1], t.zd = p.v[2];
      bind(p, t);
      break;
    }
    default: {
      take(6), p.type = "Velocity6D", p.labels = {"xd", "yd", "zd", "wxd", "wyd", "wzd"};
      am::Velocity6D t;
      t.xd = p.v[0], t.yd = p.v[1], t.zd = p.v[2], t.wxd = p.v[3], t.wyd = p.v[4], t.wzd = p.v[5];
      bindText(p, t);
    }
  }
  if (p.labels.empty()) p.labels.assign(p.v.size(), "");
  return p;
}
struct Token {
  std::string label;
  double value;
  int line;
};
// numbers of a text, with the label before each; brackets, commas and spaces
// are the layout
std::vector<Token> tokens(const std::string &t, const Printed &p, std::string &layout) {
  std::vector<Token> r;
  std::string label;
  int line = 0;
  size_t i = 0;
  auto number = [&](size_t at) {
    size_t k = at;
    if (t[k] == '+' || t[k] == '-') ++k;
    return k < t.size() && (isdigit((unsigned char)t[k]) || t.compare(k, 3, "inf") == 0 || t.compare(k, 3, "nan") == 0);
  };
  while (i < t.size()) {
    if (t[i] == '\n') ++line, ++i;
    else if (number(i)) {
      const char *b = t.c_str() + i;
      char *e = nullptr;
      double v = std::strtod(b, &e);
      CHECK(e > b, p.type << ": not a number at " << b);
      i += e - b;
      r.push_back({label, v, line});
      label.clear();
      layout += '#';
    } else if (isalpha((unsigned char)t[i])) {
      CHECK(label.empty(), p.type << ": two labels in a row: " << t);
      while (i < t.size() && isalpha((unsigned char)t[i])) label += t[i++];
      size_t k = i;
      while (k < t.size() && t[k] == ' ') ++k;
      CHECK(k < t.size() && t[k] == ':', p.type << ": label without a value: " << t);
      i = k + 1;
    } else {
      CHECK(std::strchr(" ,{}", t[i]), p.type << ": unexpected character in " << t);
      if (t[i] != ' ') layout += t[i];
      ++i;
    }
  }
  CHECK(label.empty(), p.type << ": label without a value: " << t);
  return r;
}
// digits < 0: exact
void compare(const Printed &p, const std::string &text, const std::function<double(double)> &tol) {
  std::string layout;
  auto ts = tokens(text, p, layout);
  size_t n = p.v.size(), extra = p.homogeneous ? 4 : 0;
  CHECK(ts.size() == n + extra, p.type << ": " << ts.size() << " numbers in " << text);
  size_t k = 0, matrix = 0;
  for (size_t l = 0; l < p.lines.size(); ++l)
    for (size_t c = 0; c < p.lines[l]; ++c, ++matrix) CHECK(ts[matrix].line == (int)l, p.type << ": row " << l << " is on line " << ts[matrix].line);
  for (size_t i = 0; i < ts.size(); ++i) {
    if (p.homogeneous && i >= 12 && i < 16) {
      CHECK(ts[i].value == (i == 15 ? 1 : 0) && ts[i].line == 3, p.type << ": last row of " << text);
      continue;
    }
    double want = p.v[k];
    CHECK(ts[i].label == p.labels[k], p.type << ": component " << k << " is labelled '" << ts[i].label << "', not '" << p.labels[k] << "'");
    if (std::isnan(want)) CHECK(std::isnan(ts[i].value), p.type << ": " << p.labels[k] << " is " << ts[i].value);
    else if (std::isinf(want)) CHECK(ts[i].value == want, p.type << ": " << p.labels[k] << " is " << ts[i].value);
    else NEAR(ts[i].value, want, tol(want), p.type << " component " << k << " of " << text);
    ++k;
  }
  // components between brackets, separated by commas
  std::string l;
  size_t labelled = 0;
  for (auto &x : p.labels) labelled += !x.empty();
  l.assign(n - labelled + extra, '#');
  if (labelled) {
    l += '{';
    for (size_t i = 0; i < labelled; ++i) l += i ? ",#" : "#";
    l += '}';
  }
  CHECK(layout == l, p.type << ": layout " << layout << " of " << text << " instead of " << l);
  if (!p.lines.empty()) {
    CHECK(labelled || text.back() == '\n', p.type << ": the last row is not ended");
  } else {
    CHECK(text.find('\n') == std::string::npos, p.type << ": " << text << " is on several lines");
  }
}
double six(double v) { return 0.6 * std::pow(10., std::floor(std::log10(std::max(std::fabs(v), 1e-45))) - 5); }
bool interesting(const Printed &p) {
  std::set<float> d;
  for (float x : p.v)
    if (x == x && x != 0) d.insert(x);
  return d.size() + 1 >= p.v.size();
}
}  // namespace

PBT_FACET(defaults, 1000000) {
  Printed p = gen(s);
  std::ostringstream os;
  p.print(os);
  NOTE(p.type << " " << os.str());
  compare(p, os.str(), six);
  CHECK(p.unchanged(), p.type << " was modified by its printing");
  if (p.text) compare(p, p.text(), six);
  CHECK(p.unchanged(), p.type << " was modified by its conversion");
  s.nontrivial(interesting(p));
  s.label(p.type);
}
// as many digits as the stream is asked for
PBT_FACET(precision, 1000000) {
  Printed p = gen(s);
  std::ostringstream os;
  int mode = (int)s.draw(3), digits = (int)s.range(1, 14);
  os << std::setprecision(digits);
  if (mode == 1) os << std::scientific;
  if (mode == 2) os << std::fixed;
  p.print(os);
  NOTE(p.type << " mode " << mode << " digits " << digits << " " << os.str());
  compare(p, os.str(), [&](double v) {
    if (mode == 2) return 0.51 * std::pow(10., -digits) + 1e-12 * std::fabs(v);
    return 0.51 * std::pow(10., std::floor(std::log10(std::max(std::fabs(v), 1e-45))) + 1 - digits - (mode == 1)) + 1e-14 * std::fabs(v);
  });
  CHECK(os.precision() == digits, "the precision of the stream became " << os.precision());
  CHECK(os.good(), "the stream is no longer good");
  CHECK((os.flags() & std::ios::floatfield) == (mode == 1 ? std::ios::scientific : mode == 2 ? std::ios::fixed : std::ios::fmtflags()), "the number format of the stream changed");
  if (mode != 2 && digits >= 9) {  // enough for any float
    std::string layout;
    auto ts = tokens(os.str(), p, layout);
    for (size_t i = 0, k = 0; i < ts.size(); ++i) {
      if (p.homogeneous && i >= 12 && i < 16) continue;
      float want = p.v[k++];
      CHECK(std::isnan(want) ? std::isnan(ts[i].value) : (float)ts[i].value == want, p.type << ": " << want << " is read back as " << ts[i].value);
    }
  }
  s.nontrivial(interesting(p));
}
// several values after one another, in one stream
PBT_FACET(sequence, 300000) {
  std::ostringstream os;
  std::vector<Printed> ps;
  std::string parts;
  for (int n = (int)s.range(2, 6); n > 0; --n) {
    ps.push_back(gen(s));
    std::ostringstream one;
    ps.back().print(one);
    os << "|";
    ps.back().print(os);
    parts += "|" + one.str();
  }
  NOTE(os.str());
  CHECK(os.str() == parts, "values printed after one another " << os.str() << " instead of " << parts);
  // the stream returned is the one given
  am::Position3D a(any(s), any(s), any(s));
  std::ostringstream o1;
  std::ostream &r = (o1 << a);
  CHECK(&r == &o1, "another stream is returned");
  s.nontrivial();
}
