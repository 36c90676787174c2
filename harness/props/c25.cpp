// C25: acceptance of animations, description of the Bezier curves.
#include "../animgen.h"
#include <almath/scenegraph/qianim.h>
using namespace pbt;
using namespace ag;
namespace qa = AL::qianim;
namespace v2 = AL::qianim::V2;

namespace {
std::string num(double d) {
  std::ostringstream os;
  os << std::setprecision(17) << d;
  return os.str();
}
bool rd(const ptree &p, const char *name, double &v) {
  bool f;
  std::string t = attr(p, name, &f);
  if (!f || t.empty()) return false;
  char *e = nullptr;
  v = std::strtod(t.c_str(), &e);
  return *e == 0;
}
bool rdInt(const ptree &p, const char *name, long long &v) {
  bool f;
  std::string t = attr(p, name, &f);
  if (!f || t.empty()) return false;
  char *e = nullptr;
  v = std::strtoll(t.c_str(), &e, 10);
  return *e == 0 && v >= -2147483648LL && v <= 2147483647LL;
}
const ptree *tangent(const ptree &key, const char *side, bool &bad) {
  for (auto &c : key)
    if (c.first == "Tangent") {
      std::string sd = attr(c.second, "side");
      if (sd == side) return &c.second;
      if (sd != "left" && sd != "right") {
        bad = true;
        return nullptr;
      }
    }
  return nullptr;
}
struct Bez {
  long long f0, f3;
  double v0, a1, o1, a2, o2, v3;
};
// why the pair of keys is refused ("" if it is not)
std::string pairError(const ptree &k0, const ptree &k3, Bez &b) {
  if (!rdInt(k0, "frame", b.f0) || !rdInt(k3, "frame", b.f3)) return "frame is missing";
  if (b.f0 < 0 || b.f3 < 0) return "negative frame";
  if (!rd(k0, "value", b.v0) || !rd(k3, "value", b.v3)) return "value is missing";
  bool bad = false;
  const ptree *r = tangent(k0, "right", bad), *l = tangent(k3, "left", bad);
  if (bad) return "side of a tangent";
  if (!r || !l) return "tangent is missing";
  if (!rd(*r, "abscissaParam", b.a1) || !rd(*r, "ordinateParam", b.o1) || !rd(*l, "abscissaParam", b.a2) || !rd(*l, "ordinateParam", b.o2))
    return "tangent is incomplete";
  long long d = b.f3 - b.f0;
  if (d <= 0) return "frames do not increase";
  if (b.a1 < 0 || b.a1 > (double)d) return "right tangent out of bounds";
  if (b.a2 > 0 || b.a2 < -(double)d) return "left tangent out of bounds";
  return "";
}
std::string curveError(const ptree &c, std::vector<Bez> *out = nullptr) {
  const ptree *prev = nullptr;
  for (auto &k : c)
    if (k.first == "Key") {
      if (prev) {
        Bez b;
        std::string e = pairError(*prev, k.second, b);
        if (!e.empty()) return e;
        if (out) out->push_back(b);
      }
      prev = &k.second;
    }
  return "";
}
std::string animError(const ptree &a) {
  if (attr(a, "typeVersion") != "2.0") return "version";
  for (auto &c : a)
    if (c.first == "ActuatorCurve") {
      bool f;
      attr(c.second, "actuator", &f);
      if (!f) return "actuator is missing";
      long long fps;
      if (!rdInt(c.second, "fps", fps) || fps <= 0) return "fps";
      std::string u = attr(c.second, "unit");
      if (u != "radian" && u != "degree" && u != "meter" && u != "dimensionless") return "unit";
      std::string e = curveError(c.second);
      if (!e.empty()) return e;
    }
  return "";
}
double inBounds(Src &s, int d) {
  switch (s.weighted({3, 1, 1, 3})) {
    case 0: return d / 3.;
    case 1: return 0;
    case 2: return d;
    default: return s.unit() * d;
  }
}
void strew(Src &s, ptree &p) {
  while (s.chance(1, 3)) {
    auto it = p.begin();
    std::advance(it, s.range(0, (int64_t)p.size()));
    p.insert(it, foreign(s));
  }
}
ptree genTangent(const char *side, double a, double o) {
  ptree t;
  t.put("<xmlattr>.side", side);
  t.put("<xmlattr>.abscissaParam", num(a));
  t.put("<xmlattr>.ordinateParam", num(o));
  return t;
}
// a curve which is accepted
ptree genCurve(Src &s, int nkeys) {
  ptree c;
  c.put("<xmlattr>.actuator", word(s));
  c.put("<xmlattr>.fps", (int)s.range(1, 60));
  if (s.coin()) c.put("<xmlattr>.mute", s.pick({"true", "false", "0", "1"}));
  c.put("<xmlattr>.unit", s.pick({"radian", "degree", "meter", "dimensionless"}));
  std::vector<int> f;
  int x = s.chance(1, 10) ? 2147480000 : (int)s.range(0, 5);
  for (int i = 0; i < nkeys; ++i) {
    f.push_back(x);
    x += s.coin() ? (int)s.range(1, 3) : (int)s.range(1, 100);
  }
  for (int i = 0; i < nkeys; ++i) {
    ptree k;
    k.put("<xmlattr>.frame", f[i]);
    k.put("<xmlattr>.value", num(s.real(-5, 5)));
    bool l = i > 0 || s.chance(1, 4), r = i + 1 < nkeys || s.chance(1, 4);
    int dl = i > 0 ? f[i] - f[i - 1] : 10, dr = i + 1 < nkeys ? f[i + 1] - f[i] : 10;
    double al = -inBounds(s, dl), ar = inBounds(s, dr);
    // what is not in an interval is free
    if (i == 0 && s.coin()) al = s.real(-1e3, 1e3);
    if (i + 1 == nkeys && s.coin()) ar = s.real(-1e3, 1e3);
    auto L = std::make_pair(std::string("Tangent"), genTangent("left", al, s.real(-5, 5)));
    auto R = std::make_pair(std::string("Tangent"), genTangent("right", ar, s.real(-5, 5)));
    bool swap = s.coin();
    if (r && swap) k.push_back(R);
    if (l) k.push_back(L);
    if (r && !swap) k.push_back(R);
    strew(s, k);
    c.push_back(std::make_pair("Key", k));
  }
  strew(s, c);
  return c;
}
std::vector<ptree *> kids(ptree &p, const char *name) {
  std::vector<ptree *> r;
  for (auto &c : p)
    if (c.first == name) r.push_back(&c.second);
  return r;
}
void damage(Src &s, ptree &anim) {
  auto curves = kids(anim, "ActuatorCurve");
  if (curves.empty()) return;
  ptree &c = *s.pick(curves);
  auto keys = kids(c, "Key");
  size_t kind = s.weighted({1, 1, 1, 1, 5, 5, 5, 4, 4, 4, 3, 3});
  if (keys.empty() && kind >= 4) kind = s.draw(4);
  size_t i = keys.empty() ? 0 : (size_t)s.draw(keys.size());
  ptree *k = keys.empty() ? nullptr : keys[i];
  auto erase = [](ptree &p, const char *n) {
    auto a = p.find("<xmlattr>");
    if (a != p.not_found()) a->second.erase(n);
  };
  switch (kind) {
    case 0: {
      const char *n = s.pick({"actuator", "fps", "unit", "mute"});
      NOTE("no " << n);
      erase(c, n);
      break;
    }
    case 1: c.put("<xmlattr>.fps", s.pick<std::string>({"0", "-1", "x", "1", "1.5", "25x", "2 5", "-25", "0.5", "2147483648"})); break;
    case 2: c.put("<xmlattr>.unit", s.chance(1, 4) ? std::string(s.pick({"rad", "", "Meter", "meter"})) : s.nearMiss(s.pick({"radian", "degree", "meter", "dimensionless"}))); break;
    case 3: anim.put("<xmlattr>.typeVersion", s.chance(1, 4) ? std::string(s.pick({"2.0", "2.1", "1.0", "", "3.0", "2"})) : s.nearMiss("2.0")); break;
    case 4: {  // frames of two keys
      size_t j = (size_t)s.draw(keys.size());
      std::string a = attr(*keys[i], "frame"), b = attr(*keys[j], "frame");
      NOTE("swap the frames of keys " << i << " and " << j);
      keys[i]->put("<xmlattr>.frame", b);
      keys[j]->put("<xmlattr>.frame", a);
      break;
    }
    case 5: {  // abscissa around the bound
      auto ts = kids(*k, "Tangent");
      if (ts.empty()) break;
      ptree &t = *s.pick(ts);
      bool left = attr(t, "side") == "left";
      long long f0 = 0, f1 = 0;
      size_t j = left ? i - 1 : i + 1;
      if (left ? i == 0 : i + 1 == keys.size()) break;
      rdInt(*keys[i], "frame", f0);
      rdInt(*keys[j], "frame", f1);
      double d = (double)(f1 - f0), v = 0;
      switch (s.draw(8)) {
        case 0: v = d; break;
        case 1: v = std::nextafter(d, 1e9 * d); break;
        case 2: v = std::nextafter(d, 0); break;
        case 3: v = 0; break;
        case 4: v = d > 0 ? -5e-324 : 5e-324; break;
        case 5: v = -d / 3; break;
        case 6: v = d + (d > 0 ? 1 : -1) * (0.01 + s.unit()); break;
        default: v = (s.unit() * 4 - 2) * d;
      }
      NOTE("abscissa of the " << (left ? "left" : "right") << " tangent of key " << i << " becomes " << v);
      t.put("<xmlattr>.abscissaParam", num(v));
      break;
    }
    case 6: {  // a missing or misplaced tangent
      auto ts = kids(*k, "Tangent");
      if (ts.empty()) break;
      ptree &t = *s.pick(ts);
      switch (s.draw(3)) {
        case 0:
          NOTE("tangent removed from key " << i);
          for (auto x = k->begin(); x != k->end(); ++x)
            if (&x->second == &t) {
              k->erase(x);
              break;
            }
          break;
        case 1:
          NOTE("side of a tangent of key " << i);
          t.put("<xmlattr>.side", s.coin() ? std::string(s.pick({"left", "right", "up"})) : s.nearMiss(s.pick({"left", "right"})));
          break;
        default:
          NOTE("tangent lacks something in key " << i);
          erase(t, s.pick({"side", "abscissaParam", "ordinateParam"}));
      }
      break;
    }
    case 7: {  // equal or decreasing frames
      long long f = 0;
      rdInt(*k, "frame", f);
      f += s.range(0, 6) - 3;
      NOTE("frame of key " << i << " becomes " << f);
      if (keys.size() >= 2) k->put("<xmlattr>.frame", f);
      break;
    }
    case 8: {  // something is missing in a key
      if (keys.size() < 2) break;
      const char *n = s.pick({"frame", "value"});
      NOTE("key " << i << " lacks its " << n);
      if (s.coin()) erase(*k, n);
      else k->put(std::string("<xmlattr>.") + n, s.pick({"x", "", "1.5.", "--", "1 2", "1,5", "3x", "1.5"}));
      break;
    }
    case 9: {  // a key disappears: the tangents of its neighbours may remain valid
      NOTE("key " << i << " removed");
      for (auto x = c.begin(); x != c.end(); ++x)
        if (&x->second == k) {
          c.erase(x);
          break;
        }
      break;
    }
    case 10: {  // a key twice
      NOTE("key " << i << " twice");
      ptree copy = *k;
      for (auto x = c.begin(); x != c.end(); ++x)
        if (&x->second == k) {
          c.insert(x, std::make_pair("Key", copy));
          break;
        }
      break;
    }
    default: {  // a second tangent on the same side: the first one counts
      NOTE("additional tangent in key " << i);
      auto it = k->begin();
      std::advance(it, s.range(0, (int64_t)k->size()));
      k->insert(it, std::make_pair("Tangent", genTangent(s.pick({"left", "right"}), s.real(-20, 20), 0)));
    }
  }
}
template <class F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
}  // namespace

PBT_FACET(accept, 24000) {
  ptree a;
  a.put("<xmlattr>.typeVersion", "2.0");
  int nc = (int)s.range(1, 3);
  for (int i = 0; i < nc; ++i) a.push_back(std::make_pair("ActuatorCurve", genCurve(s, (int)s.range(0, 5))));
  strew(s, a);
  if (s.coin()) {
    ptree labels;
    ptree l("x");
    if (s.coin()) l.put("<xmlattr>.frame", 3);
    labels.push_back(std::make_pair("Label", l));
    labels.put("<xmlattr>.fps", 25);
    a.push_back(std::make_pair("Labels", labels));
  }
  std::string base = animError(a);
  CHECK(base.empty(), "harness: the generated animation is refused: " << base);
  int nd = (int)s.weighted({2, 4, 1, 1});
  for (int i = 0; i < nd; ++i) damage(s, a);
  ptree root;
  root.push_back(std::make_pair("Animation", a));
  std::string text = toXml(root);
  LOG("document", text);
  ptree r;
  {
    std::istringstream is(text);
    boost::property_tree::read_xml(is, r);
  }
  const ptree &anim = r.get_child("Animation");
  std::string e = animError(anim);
  LOG("oracle", e.empty() ? std::string("accepted") : e);
  ptree before = anim;
  std::string got;
  try {
    v2::Animation::check_all(anim);
  } catch (const std::exception &x) {
    got = std::string("refused: ") + x.what();
  }
  CHECK(before == anim, "checking changed the document");
  if (e.empty())
    CHECK(got.empty(), "a valid animation is " << got << "\n" << text);
  else
    CHECK(!got.empty(), "an invalid animation (" << e << ") is accepted\n" << text);
  // curve by curve
  bool any = false;
  for (const ptree &c : v2::Animation::get_actuatorcurves(anim)) {
    std::vector<Bez> bs;
    std::string ce = curveError(c, &bs);
    bool td = throws([&] { v2::ActuatorCurve::check_cubic_bezier<double>(c); });
    CHECK(td == !ce.empty(), "curve " << (td ? "refused" : "accepted") << ", expected: " << (ce.empty() ? "accepted" : ce) << "\n" << text);
    any = any || bs.size() >= 2;
    if (!ce.empty()) continue;
    // the segments
    size_t i = 0;
    auto keys = v2::ActuatorCurve::get_keys(c);
    v2::adjacent_for_each(keys.begin(), keys.end(), [&](const ptree &p0, const ptree &p3) {
      v2::Key::apply_cubic_bezier<double>(p0, p3, [&](int f0, double v0, double a1, double o1, double a2, double o2, int f3, double v3) {
        CHECK(i < bs.size(), "too many segments");
        const Bez &b = bs[i++];
        CHECK(f0 == b.f0 && f3 == b.f3 && v0 == b.v0 && v3 == b.v3 && a1 == b.a1 && o1 == b.o1 && a2 == b.a2 && o2 == b.o2,
              "segment " << i - 1 << ": " << f0 << " " << v0 << " " << a1 << " " << o1 << " " << a2 << " " << o2 << " " << f3 << " " << v3
                         << " instead of " << b.f0 << " " << b.v0 << " " << b.a1 << " " << b.o1 << " " << b.a2 << " " << b.o2 << " " << b.f3 << " " << b.v3);
      });
    });
    CHECK(i == bs.size(), i << " segments instead of " << bs.size());
    i = 0;
    v2::adjacent_for_each(keys.begin(), keys.end(), [&](const ptree &p0, const ptree &p3) {
      v2::Key::apply_cubic_bezier<float>(p0, p3, [&](int f0, float v0, float a1, float o1, float a2, float o2, int f3, float v3) {
        const Bez &b = bs[i++];
        auto eq = [](float x, double y) { return std::fabs(x - y) <= 1e-6 * std::fabs(y) + 1e-37; };
        CHECK(f0 == b.f0 && f3 == b.f3 && eq(v0, b.v0) && eq(v3, b.v3) && eq(a1, b.a1) && eq(o1, b.o1) && eq(a2, b.a2) && eq(o2, b.o2), "float segment " << i - 1);
      });
    });
  }
  s.nontrivial(nd > 0 && (!e.empty() || any));
  s.label(e.empty() ? "accepted" : "refused");
}

// the bounds themselves
PBT_FACET(bounds, 30000) {
  int f0 = (int)s.range(0, 20), f3 = f0 + (int)(s.range(0, 24) - 4);
  double d = f3 - f0;
  auto gen = [&](double sign) -> double {
    switch (s.draw(7)) {
      case 0: return sign * d / 3;
      case 1: return 0;
      case 2: return sign * d;
      case 3: return std::nextafter(sign * d, sign * 1e9);
      case 4: return std::nextafter(sign * d, 0);
      case 5: return sign * -1e-6;
      default: return (s.unit() * 3 - 1.5) * d;
    }
  };
  double a1 = gen(1), a2 = gen(-1);
  LOG("frames", std::to_string(f0) + " " + std::to_string(f3));
  LOG("a1", a1);
  LOG("a2", a2);
  bool want = d > 0 && a1 >= 0 && a1 <= d && a2 <= 0 && a2 >= -d;
  bool got = !throws([&] { v2::Key::check_cubic_bezier<double>(f0, 1., a1, 2., a2, 3., f3, 4.); });
  CHECK(want == got, (got ? "accepted" : "refused"));
  float b1 = (float)a1, b2 = (float)a2;
  want = d > 0 && b1 >= 0 && b1 <= (float)d && b2 <= 0 && b2 >= -(float)d;
  got = !throws([&] { v2::Key::check_cubic_bezier<float>(f0, 1.f, b1, 2.f, b2, 3.f, f3, 4.f); });
  CHECK(want == got, "float: " << (got ? "accepted" : "refused"));
  s.nontrivial(d > 0);
  s.label(want ? "accepted" : "refused");
}

// adjacent_for_each visits all neighbours, in order, and nothing else
PBT_FACET(adjacent, 10000) {
  std::vector<int> v;
  for (int i = (int)s.range(0, 8); i > 0; --i) v.push_back((int)s.range(0, 9));
  std::vector<std::pair<int, int>> got;
  v2::adjacent_for_each(v.begin(), v.end(), [&](int a, int b) { got.emplace_back(a, b); });
  CHECK(got.size() == (v.empty() ? 0 : v.size() - 1), got.size() << " pairs for " << v.size() << " elements");
  for (size_t i = 0; i < got.size(); ++i) CHECK(got[i].first == v[i] && got[i].second == v[i + 1], "pair " << i);
  s.nontrivial(v.size() > 2);
}
