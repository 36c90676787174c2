// C24: editing histories of animation documents.
#include "../animgen.h"
#include <almath/scenegraph/qianim.h>
#include <iterator>
using namespace pbt;
using namespace ag;
namespace qa = AL::qianim;
namespace v2 = AL::qianim::V2;

namespace {
struct TanM {
  bool hasA = false, hasO = false;
  double a = 0, o = 0;
};
struct KeyM {
  bool hasV = false;
  double v = 0;
  bool has[2] = {false, false};
  TanM t[2];
};
struct CurveM {
  std::string name;
  int fps = 0;     // 0: none
  int mute = -1;   // -1: none
  int unit = -1;   // -1: none
  std::map<int, KeyM> keys;
};
struct LabelsM {
  int fps = 0;
  std::vector<std::pair<int, std::string>> labels;
};
struct AnimM {
  std::vector<CurveM> curves;
  std::vector<LabelsM> labels;
};
const char *kUnits[] = {"dimensionless", "radian", "degree", "meter"};
const qa::Unit kU[] = {qa::Unit::dimensionless, qa::Unit::radian, qa::Unit::degree, qa::Unit::meter};

double genReal(Src &s) {
  switch (s.weighted({4, 2, 1})) {
    case 0: return (double)s.real(-10, 10);
    case 1: return (s.unit() - 0.5) * std::pow(10., (double)s.range(-12, 12));
    default: {
      uint64_t b = s.draw(0);
      double d;
      std::memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 0.5;
    }
  }
}
std::string num(double d) {
  std::ostringstream os;
  os << std::setprecision(17) << d;
  return os.str();
}
// the k-th child which is not an attribute list
size_t place(Src &s, const ptree &p) { return (size_t)s.range(0, (int64_t)p.size()); }
ptree::iterator at(ptree &p, size_t i) {
  auto it = p.begin();
  std::advance(it, i);
  return it;
}
void strew(Src &s, ptree &p, unsigned k) {
  while (k-- && s.coin()) p.insert(at(p, place(s, p)), foreign(s));
}

ptree genKey(Src &s, int f, KeyM &k) {
  ptree p;
  p.put("<xmlattr>.frame", f);
  if (s.chance(3, 4)) {
    k.hasV = true;
    k.v = genReal(s);
    p.put("<xmlattr>.value", num(k.v));
  }
  bool swap = s.coin();
  for (int i = 0; i < 2; ++i) {
    int side = swap ? 1 - i : i;
    if (!s.coin()) continue;
    k.has[side] = true;
    ptree t;
    t.put("<xmlattr>.side", side == 0 ? "left" : "right");
    if (s.chance(3, 4)) {
      k.t[side].hasA = k.t[side].hasO = true;
      k.t[side].a = genReal(s);
      k.t[side].o = genReal(s);
      t.put("<xmlattr>.abscissaParam", num(k.t[side].a));
      t.put("<xmlattr>.ordinateParam", num(k.t[side].o));
    }
    p.push_back(std::make_pair("Tangent", t));
  }
  strew(s, p, 1);
  return p;
}
ptree genCurve(Src &s, const std::string &name, CurveM &c) {
  ptree p;
  c.name = name;
  p.put("<xmlattr>.actuator", name);
  if (s.chance(3, 4)) p.put("<xmlattr>.fps", c.fps = (int)s.range(1, 100));
  if (s.coin()) {
    c.mute = s.coin();
    static const char *spell[2][2] = {{"false", "0"}, {"true", "1"}};
    p.put("<xmlattr>.mute", spell[c.mute][s.draw(2)]);
  }
  if (s.chance(3, 4)) p.put("<xmlattr>.unit", kUnits[c.unit = (int)s.draw(4)]);
  std::set<int> fs;
  for (int i = (int)s.range(0, 6); i > 0; --i) fs.insert(frame(s));
  for (int f : fs) p.push_back(std::make_pair("Key", genKey(s, f, c.keys[f])));
  strew(s, p, 3);
  return p;
}
ptree genLabels(Src &s, LabelsM &l) {
  ptree p;
  if (s.coin()) p.put("<xmlattr>.fps", l.fps = (int)s.range(1, 100));
  std::multiset<int> fs;
  for (int i = (int)s.range(0, 5); i > 0; --i) fs.insert(frame(s));
  for (int f : fs) {
    std::string v = word(s);
    ptree q(v);
    q.put("<xmlattr>.frame", f);
    p.push_back(std::make_pair("Label", q));
    l.labels.emplace_back(f, v);
  }
  strew(s, p, 3);
  return p;
}
ptree genAnim(Src &s, AnimM &m) {
  ptree p;
  p.put("<xmlattr>.typeVersion", "2.0");
  std::set<std::string> used;
  for (int i = (int)s.range(0, 4); i > 0; --i) {
    std::string n = word(s);
    if (!used.insert(n).second) continue;
    m.curves.emplace_back();
    p.push_back(std::make_pair("ActuatorCurve", genCurve(s, n, m.curves.back())));
  }
  for (int i = (int)s.range(0, 2); i > 0; --i) {
    m.labels.emplace_back();
    p.push_back(std::make_pair("Labels", genLabels(s, m.labels.back())));
  }
  strew(s, p, 3);
  return p;
}

template <class F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
void checkReal(bool has, double want, std::function<double()> get, const char *what) {
  if (!has) {
    CHECK(throws(get), what << " is missing but a value was returned");
    return;
  }
  double v = get();
  CHECK(v == want, what << ": " << std::setprecision(17) << v << " instead of " << want);
}
void checkTangent(const KeyM &k, const ptree &key, int side) {
  qa::Side sd = side == 0 ? qa::Side::left : qa::Side::right;
  auto t = v2::Key::get_tangent_optional(key, sd);
  CHECK((bool)t == k.has[side], "tangent on side " << side);
  if (!t) {
    CHECK(throws([&] { v2::Key::get_tangent(key, sd); }), "get_tangent returned a missing tangent");
    return;
  }
  CHECK(&v2::Key::get_tangent(key, sd) == t.get_ptr(), "get_tangent and get_tangent_optional differ");
  CHECK(v2::Tangent::get_side(*t) == sd, "side of the tangent");
  checkReal(k.t[side].hasA, k.t[side].a, [&] { return v2::Tangent::get_abscissa<double>(*t); }, "abscissa");
  checkReal(k.t[side].hasO, k.t[side].o, [&] { return v2::Tangent::get_ordinate<double>(*t); }, "ordinate");
}
// everything the accessors say about the document is what the model says
void checkAll(const AnimM &m, ptree &anim) {
  const ptree &canim = anim;
  std::vector<const ptree *> cs;
  for (const ptree &c : v2::Animation::get_actuatorcurves(canim)) cs.push_back(&c);
  CHECK(cs.size() == m.curves.size(), cs.size() << " curves instead of " << m.curves.size());
  size_t i = 0;
  for (ptree &c : v2::Animation::get_actuatorcurves(anim)) CHECK(&c == cs[i++], "mutable curves differ");
  for (i = 0; i < cs.size(); ++i) {
    const CurveM &cm = m.curves[i];
    const ptree &c = *cs[i];
    CHECK(v2::ActuatorCurve::get_actuator(c) == cm.name, "curve " << i << " is " << v2::ActuatorCurve::get_actuator(c) << " instead of " << cm.name);
    if (cm.fps == 0)
      CHECK(throws([&] { v2::ActuatorCurve::get_fps(c); }), "fps is missing but a value was returned");
    else
      CHECK(v2::ActuatorCurve::get_fps(c) == cm.fps, "fps");
    CHECK(v2::ActuatorCurve::get_mute(c) == (cm.mute == 1), "mute");
    if (cm.unit < 0)
      CHECK(throws([&] { v2::ActuatorCurve::get_unit(c); }), "unit is missing but a value was returned");
    else
      CHECK(v2::ActuatorCurve::get_unit(c) == kU[cm.unit], "unit");
    auto km = cm.keys.begin();
    for (const ptree &k : v2::ActuatorCurve::get_keys(c)) {
      CHECK(km != cm.keys.end(), "too many keys in " << cm.name << ": " << dump(c));
      int f = v2::Key::get_frame(k);
      CHECK(f == km->first, "key at frame " << f << " instead of " << km->first << " in " << dump(c));
      auto o = v2::ActuatorCurve::get_key_optional(c, f);
      CHECK(o && o.get_ptr() == &k, "key " << f << " is not found in " << dump(c));
      CHECK(&v2::ActuatorCurve::get_key(c, f) == &k, "get_key of " << f);
      checkReal(km->second.hasV, km->second.v, [&] { return v2::Key::get_value<double>(k); }, "key value");
      checkTangent(km->second, k, 0);
      checkTangent(km->second, k, 1);
      ++km;
    }
    CHECK(km == cm.keys.end(), "a key is missing in " << cm.name << ": " << dump(c));
  }
  i = 0;
  for (const ptree &l : v2::Animation::get_labels(canim)) {
    CHECK(i < m.labels.size(), "too many lists of labels");
    const LabelsM &lm = m.labels[i++];
    if (lm.fps == 0)
      CHECK(throws([&] { v2::Labels::get_fps(l); }), "fps is missing but a value was returned");
    else
      CHECK(v2::Labels::get_fps(l) == lm.fps, "fps of labels");
    size_t j = 0;
    for (const ptree &x : v2::Labels::get_labels(l)) {
      CHECK(j < lm.labels.size(), "too many labels: " << dump(l));
      CHECK(v2::Label::get_frame(x) == lm.labels[j].first, "label frame " << v2::Label::get_frame(x) << " instead of " << lm.labels[j].first << ": " << dump(l));
      CHECK(v2::Label::get_value(x) == lm.labels[j].second, "label value " << v2::Label::get_value(x));
      ++j;
    }
    CHECK(j == lm.labels.size(), "a label is missing: " << dump(l));
  }
  CHECK(i == m.labels.size(), "a list of labels is missing");
}

// `after` is `before` with exactly one more child, which is `added`
void onlyAdded(const ptree &before, const ptree &after, const ptree *added, const char *name) {
  CHECK(after.size() == before.size() + 1, name << " added " << (long)after.size() - (long)before.size() << " elements");
  CHECK(after.data() == before.data(), name << " changed the text");
  auto b = before.begin();
  bool seen = false;
  for (auto &c : after) {
    if (&c.second == added) {
      CHECK(!seen && c.first == name, "added element is a " << c.first);
      seen = true;
      continue;
    }
    CHECK(b != before.end() && b->first == c.first && b->second == c.second,
          name << ": another element changed: " << dump(before) << " became " << dump(after));
    ++b;
  }
  CHECK(seen, "the returned " << name << " is not in the document");
}
ptree *nthCurve(ptree &anim, size_t i) {
  for (auto &c : anim)
    if (c.first == "ActuatorCurve" && i-- == 0) return &c.second;
  return nullptr;
}
ptree *nthLabels(ptree &anim, size_t i) {
  for (auto &c : anim)
    if (c.first == "Labels" && i-- == 0) return &c.second;
  return nullptr;
}
// the whole document with the given subtree replaced by a marker
ptree masked(const ptree &p, const ptree *hole) {
  if (&p == hole) return ptree("HOLE");
  ptree r(p.data());
  for (auto &c : p) r.push_back(std::make_pair(c.first, masked(c.second, hole)));
  return r;
}
struct Guard {  // what lies out of the edited element did not change
  const ptree &doc;
  const ptree *hole;
  ptree before;
  Guard(const ptree &d, const ptree *h) : doc(d), hole(h), before(masked(d, h)) {}
  void done(const char *what) {
    ptree after = masked(doc, hole);
    CHECK(before == after, what << " changed something else: " << dump(before) << " became " << dump(after));
  }
};
ptree reread(Src &s, const ptree &root) {
  std::ostringstream os;
  unsigned how = (unsigned)s.draw(2);
  namespace xp = boost::property_tree::xml_parser;
  if (how == 0)
    xp::write_xml(os, root);
  else
    xp::write_xml(os, root, boost::property_tree::xml_writer_settings<std::string>(' ', 2));
  std::istringstream is(os.str());
  ptree r;
  xp::read_xml(is, r, how == 0 ? 0 : xp::trim_whitespace);
  return r;
}
}  // namespace

PBT_FACET(history, 9000) {
  ptree root;
  AnimM m;
  // an initial document
  if (s.chance(3, 4)) {
    ptree init;
    init.push_back(std::make_pair("Animation", genAnim(s, m)));
    std::string text = toXml(init);
    std::istringstream is(text);
    boost::property_tree::read_xml(is, root);
    LOG("document", text);
  } else {
    NOTE("empty document");
  }
  unsigned added = 0, found = 0, foreigns = 0, outOfOrder = 0;
  {
    ptree before = root;
    bool had = root.find("Animation") != root.not_found();
    ptree *a = had && s.coin() ? &v2::get_animation(root) : &v2::require_animation(root);
    CHECK(a == &root.find("Animation")->second, "the animation returned is not the one of the document");
    CHECK(attr(*a, "typeVersion") == "2.0", "version");
    if (had) CHECK(before == root, "getting the animation changed the document");
    CHECK(a == &v2::require_animation(root) && a == &v2::get_animation(root) && a == &v2::get_animation(const_cast<const ptree &>(root)),
          "require_animation does not return the existing one");
  }
  checkAll(m, root.find("Animation")->second);
  int n = (int)s.range(0, 30);
  for (int op = 0; op < n; ++op) {
    ptree &anim = root.find("Animation")->second;
    ptree *c = nullptr;
    CurveM *cm = nullptr;
    if (!m.curves.empty()) {
      size_t i = (size_t)s.draw(m.curves.size());
      c = nthCurve(anim, i);
      cm = &m.curves[i];
      CHECK(c, "a curve is missing");
    }
    size_t kind = s.weighted({8, 3, 2, 2, 4, 4, 2, 3, 2, 4, 3, 2, 1, 2});
    if (!c && kind != 1 && kind != 8 && kind != 9 && kind != 10 && kind != 11) kind = 1;
    switch (kind) {
      case 0: {  // require a key
        int f = frame(s);
        bool bad = s.chance(1, 12);
        if (bad) f = -(int)s.range(1, 5);
        NOTE("require_key(" << cm->name << ", " << f << ")");
        ptree before = *c;
        Guard g(root, c);
        if (bad) {
          THROWS(v2::ActuatorCurve::require_key(*c, f), "frame " << f);
          CHECK(*c == before, "a refused key changed the curve: " << dump(before) << " became " << dump(*c));
          break;
        }
        if (!cm->keys.empty() && f < cm->keys.rbegin()->first) ++outOfOrder;
        ptree &k = v2::ActuatorCurve::require_key(*c, f);
        CHECK(v2::Key::get_frame(k) == f, "frame of the key");
        if (cm->keys.count(f)) {
          ++found;
          CHECK(*c == before, "an existing key was not reused: " << dump(before) << " became " << dump(*c));
        } else {
          ++added;
          onlyAdded(before, *c, &k, "Key");
          cm->keys[f];
        }
        g.done("require_key");
        break;
      }
      case 1: {  // require a curve
        std::string name = word(s);
        NOTE("require_actuatorcurve(" << name << ")");
        ptree before = anim;
        ptree &x = v2::Animation::require_actuatorcurve(anim, name);
        size_t i = 0;
        while (i < m.curves.size() && m.curves[i].name != name) ++i;
        if (i < m.curves.size()) {
          ++found;
          CHECK(&x == nthCurve(anim, i), "not the curve of " << name);
          CHECK(before == anim, "an existing curve was not reused");
        } else {
          ++added;
          onlyAdded(before, anim, &x, "ActuatorCurve");
          // anywhere among the curves
          size_t at = 0;
          for (auto &y : anim) {
            if (&y.second == &x) break;
            if (y.first == "ActuatorCurve") ++at;
          }
          CurveM nc;
          nc.name = name;
          m.curves.insert(m.curves.begin() + at, nc);
        }
        break;
      }
      case 2: {  // attributes of a curve
        Guard g(root, c);
        ptree before = *c;
        switch (s.draw(4)) {
          case 0: {
            int f = (int)s.range(-2, 50);
            NOTE("put_fps(" << cm->name << ", " << f << ")");
            if (f <= 0) {
              THROWS(v2::ActuatorCurve::put_fps(*c, f), "fps " << f);
              CHECK(before == *c, "a refused fps changed the curve");
            } else {
              v2::ActuatorCurve::put_fps(*c, f);
              cm->fps = f;
            }
            break;
          }
          case 1:
            cm->mute = s.coin();
            NOTE("put_mute(" << cm->name << ", " << cm->mute << ")");
            v2::ActuatorCurve::put_mute(*c, cm->mute == 1);
            break;
          case 2:
            cm->unit = (int)s.draw(4);
            NOTE("put_unit(" << cm->name << ", " << kUnits[cm->unit] << ")");
            v2::ActuatorCurve::put_unit(*c, kU[cm->unit]);
            CHECK(attr(*c, "unit") == kUnits[cm->unit], "unit attribute");
            break;
          default: {
            std::string w = word(s);
            for (auto &o : m.curves)
              if (o.name == w) w.clear();
            if (w.empty()) break;
            NOTE("put_actuator(" << cm->name << ", " << w << ")");
            v2::ActuatorCurve::put_actuator(*c, w);
            cm->name = w;
          }
        }
        g.done("put attribute");
        break;
      }
      case 3: {  // look up
        int f = frame(s);
        NOTE("get_key(" << cm->name << ", " << f << ")");
        const ptree &cc = *c;
        ptree before = root;
        auto o = v2::ActuatorCurve::get_key_optional(*c, f);
        auto co = v2::ActuatorCurve::get_key_optional(cc, f);
        bool has = cm->keys.count(f) != 0;
        CHECK((bool)o == has && (bool)co == has, "look-up of key " << f << " in " << dump(cc));
        if (has) {
          CHECK(o.get_ptr() == co.get_ptr() && v2::Key::get_frame(*o) == f, "key found");
          CHECK(&v2::ActuatorCurve::get_key(*c, f) == o.get_ptr(), "get_key");
        } else {
          CHECK(throws([&] { v2::ActuatorCurve::get_key(*c, f); }), "get_key of a missing key");
          CHECK(throws([&] { v2::ActuatorCurve::get_key(cc, f); }), "get_key of a missing key");
        }
        CHECK(before == root, "a look-up changed the document");
        break;
      }
      case 4: {  // value of a key
        if (cm->keys.empty()) break;
        auto it = cm->keys.begin();
        std::advance(it, s.draw(cm->keys.size()));
        ptree &k = v2::ActuatorCurve::require_key(*c, it->first);
        Guard g(root, &k);
        double v = genReal(s);
        if (s.coin()) {
          v2::Key::put_value<double>(k, v);
        } else {
          float f = (float)v;
          if (!std::isfinite(f)) f = 1.5f;
          v2::Key::put_value<float>(k, f);
          CHECK(v2::Key::get_value<float>(k) == f, "float value " << f << " becomes " << v2::Key::get_value<float>(k));
          v = std::strtod(attr(k, "value").c_str(), nullptr);
          CHECK((float)v == f, "float value");
        }
        NOTE("put_value(" << cm->name << ", " << it->first << ", " << v << ")");
        it->second.hasV = true;
        it->second.v = v;
        g.done("put_value");
        break;
      }
      case 5: {  // tangents
        if (cm->keys.empty()) break;
        auto it = cm->keys.begin();
        std::advance(it, s.draw(cm->keys.size()));
        ptree &k = v2::ActuatorCurve::get_key(*c, it->first);
        Guard g(root, &k);
        int side = (int)s.draw(2);
        qa::Side sd = side == 0 ? qa::Side::left : qa::Side::right;
        KeyM &km = it->second;
        ptree before = k;
        switch (s.draw(4)) {
          case 0: {
            NOTE("require_tangent(" << cm->name << ", " << it->first << ", " << side << ")");
            ptree &t = v2::Key::require_tangent(k, sd);
            if (km.has[side])
              CHECK(before == k, "an existing tangent was not reused");
            else
              onlyAdded(before, k, &t, "Tangent");
            if (!km.has[side]) km.t[side] = TanM();
            km.has[side] = true;
            break;
          }
          case 1: {
            NOTE("erase_tangent(" << cm->name << ", " << it->first << ", " << side << ")");
            size_t e = v2::Key::erase_tangent(k, sd);
            CHECK(e == (km.has[side] ? 1u : 0u), e << " tangents erased");
            if (km.has[side]) {
              // put it back in the old document's eyes: everything else is there
              size_t i = 0;
              for (auto x = before.begin(); x != before.end(); ++x, ++i)
                if (x->first == "Tangent" && attr(x->second, "side") == (side == 0 ? "left" : "right")) {
                  before.erase(x);
                  break;
                }
            }
            CHECK(before == k, "erase_tangent changed something else");
            km.has[side] = false;
            km.t[side] = TanM();
            break;
          }
          default: {
            double a = genReal(s), o = genReal(s);
            NOTE("put_tangent(" << cm->name << ", " << it->first << ", " << side << ", " << a << ", " << o << ")");
            ptree &t = v2::Key::put_tangent<double>(k, sd, a, o);
            CHECK(attr(t, "side") == (side == 0 ? "left" : "right"), "side attribute");
            km.has[side] = true;
            km.t[side].hasA = km.t[side].hasO = true;
            km.t[side].a = a;
            km.t[side].o = o;
            break;
          }
        }
        g.done("editing a tangent");
        break;
      }
      case 6: {  // erase a key
        if (cm->keys.empty()) break;
        auto it = cm->keys.begin();
        std::advance(it, s.draw(cm->keys.size()));
        NOTE("erase key " << it->first << " of " << cm->name);
        for (auto x = c->begin(); x != c->end(); ++x)
          if (x->first == "Key" && attr(x->second, "frame") == std::to_string(it->first)) {
            c->erase(x);
            break;
          }
        cm->keys.erase(it);
        break;
      }
      case 7: {  // a foreign element in a curve
        auto f = foreign(s);
        NOTE("foreign " << f.first << " in " << cm->name);
        c->insert(at(*c, place(s, *c)), f);
        ++foreigns;
        break;
      }
      case 8: {  // add labels
        NOTE("add_labels");
        ptree before = anim;
        ptree &l = v2::Animation::add_labels(anim);
        onlyAdded(before, anim, &l, "Labels");
        CHECK(l.empty() && l.data().empty(), "new labels are not empty");
        size_t at = 0;
        for (auto &y : anim) {
          if (&y.second == &l) break;
          if (y.first == "Labels") ++at;
        }
        m.labels.insert(m.labels.begin() + at, LabelsM());
        break;
      }
      case 9: {  // add a label
        if (m.labels.empty()) break;
        size_t i = (size_t)s.draw(m.labels.size());
        ptree &l = *nthLabels(anim, i);
        LabelsM &lm = m.labels[i];
        Guard g(root, &l);
        ptree before = l;
        std::string v = word(s);
        int f = frame(s);
        if (s.chance(1, 12)) {
          f = -(int)s.range(1, 5);
          NOTE("add_label(" << i << ", " << f << ")");
          THROWS(v2::Labels::add_label(l, f, v), "frame " << f);
          CHECK(l == before, "a refused label changed the document: " << dump(before) << " became " << dump(l));
          break;
        }
        NOTE("add_label(" << i << ", " << f << ", " << v << ")");
        if (!lm.labels.empty() && f < lm.labels.back().first) ++outOfOrder;
        ptree &x = v2::Labels::add_label(l, f, v);
        CHECK(v2::Label::get_frame(x) == f && v2::Label::get_value(x) == v, "label added");
        onlyAdded(before, l, &x, "Label");
        ++added;
        // after the labels of the same frame
        size_t j = 0;
        while (j < lm.labels.size() && lm.labels[j].first <= f) ++j;
        lm.labels.insert(lm.labels.begin() + j, std::make_pair(f, v));
        g.done("add_label");
        break;
      }
      case 10: {  // foreign element in the labels or in the animation
        auto f = foreign(s);
        if (!m.labels.empty() && s.coin()) {
          ptree &l = *nthLabels(anim, (size_t)s.draw(m.labels.size()));
          l.insert(at(l, place(s, l)), f);
        } else {
          anim.insert(at(anim, place(s, anim)), f);
        }
        NOTE("foreign " << f.first);
        ++foreigns;
        break;
      }
      case 11: {  // write and read
        NOTE("write and read");
        ptree r = reread(s, root);
        CHECK(canon(r) == canon(root), "the document changed: " << dump(root) << " became " << dump(r));
        root = r;
        break;
      }
      case 12: {  // copy: documents are values
        ptree copy = root;
        ptree &ca = v2::get_animation(copy);
        ptree before = root;
        for (ptree &x : v2::Animation::get_actuatorcurves(ca)) v2::ActuatorCurve::require_key(x, frame(s));
        CHECK(before == root, "editing a copy changed the document");
        break;
      }
      default: {  // move a key between its neighbours
        if (cm->keys.empty()) break;
        auto it = cm->keys.begin();
        std::advance(it, s.draw(cm->keys.size()));
        int lo = it == cm->keys.begin() ? 0 : std::prev(it)->first + 1;
        int hi = std::next(it) == cm->keys.end() ? it->first : std::next(it)->first - 1;
        int f = (int)s.range(lo, hi);
        NOTE("put_frame(" << cm->name << ", " << it->first << ", " << f << ")");
        ptree &k = v2::ActuatorCurve::get_key(*c, it->first);
        ptree before = k;
        THROWS(v2::Key::put_frame(k, -1), "negative frame");
        CHECK(before == k, "a refused frame changed the key");
        v2::Key::put_frame(k, f);
        KeyM km = it->second;
        cm->keys.erase(it);
        cm->keys[f] = km;
      }
    }
    checkAll(m, root.find("Animation")->second);
  }
  ptree r = reread(s, root);
  checkAll(m, v2::get_animation(r));
  s.nontrivial(added >= 2 && (outOfOrder > 0 || found > 0 || foreigns > 0));
  if (foreigns && outOfOrder) s.label("foreign-and-out-of-order");
}

// a key which holds any number of tangents, in any order, among other elements
PBT_FACET(tangents, 6000) {
  ptree key;
  key.put("<xmlattr>.frame", 3);
  static const char *kSide[2] = {"left", "right"};
  int n[2] = {0, 0}, total = (int)s.range(0, 7), lastSide = 0;
  bool adjacent = false;
  for (int i = 0; i < total; ++i) {
    int side = s.chance(2, 3) ? lastSide : 1 - lastSide;
    if (i && side == lastSide) adjacent = true;
    lastSide = side;
    ++n[side];
    ptree t;
    t.put("<xmlattr>.side", kSide[side]);
    t.put("<xmlattr>.abscissaParam", i);
    t.put("<xmlattr>.ordinateParam", -i);
    key.push_back(std::make_pair("Tangent", t));
  }
  strew(s, key, 2);
  std::ostringstream shown;
  for (auto &x : key) shown << x.first << (x.first == "Tangent" ? " " + attr(x.second, "side") : std::string()) << ", ";
  LOG("key", shown.str());
  for (int ops = (int)s.range(1, 4); ops > 0; --ops) {
    int side = (int)s.draw(2);
    qa::Side sd = side == 0 ? qa::Side::left : qa::Side::right;
    ptree before = key, *first = nullptr;
    for (auto &x : key)
      if (!first && x.first == "Tangent" && attr(x.second, "side") == kSide[side]) first = &x.second;
    const ptree &ck = key;
    auto found = v2::Key::get_tangent_optional(key, sd);
    auto cfound = v2::Key::get_tangent_optional(ck, sd);
    CHECK((found ? &*found : nullptr) == first && (cfound ? &*cfound : nullptr) == first, "first " << kSide[side] << " tangent");
    if (first)
      CHECK(&v2::Key::get_tangent(key, sd) == first && &v2::Key::get_tangent(ck, sd) == first, "tangent");
    else {
      THROWS(v2::Key::get_tangent(key, sd), "tangent");
      THROWS(v2::Key::get_tangent(ck, sd), "tangent");
    }
    CHECK(before == key, "queries change the key");
    switch (s.draw(3)) {
      case 0: {
        NOTE("erase " << kSide[side]);
        size_t e = v2::Key::erase_tangent(key, sd);
        CHECK(e == (size_t)n[side], e << " erased of " << n[side]);
        for (auto x = before.begin(); x != before.end();)
          if (x->first == "Tangent" && attr(x->second, "side") == kSide[side])
            x = before.erase(x);
          else
            ++x;
        CHECK(before == key, "what is left");
        n[side] = 0;
        break;
      }
      case 1: {
        NOTE("require " << kSide[side]);
        ptree &t = v2::Key::require_tangent(key, sd);
        if (first)
          CHECK(&t == first && before == key, "an existing tangent was not reused");
        else {
          onlyAdded(before, key, &t, "Tangent");
          ++n[side];
        }
        break;
      }
      default: {
        double a = genReal(s), o = genReal(s);
        NOTE("put " << kSide[side]);
        ptree &t = v2::Key::put_tangent<double>(key, sd, a, o);
        if (first) CHECK(&t == first, "not the tangent which is read");
        if (!first) ++n[side];
        ptree &u = v2::Key::get_tangent(key, sd);
        CHECK(v2::Tangent::get_abscissa<double>(u) == a && v2::Tangent::get_ordinate<double>(u) == o, "content of the tangent");
        size_t m = 0;
        for (auto &x : key) m += x.first == "Tangent";
        CHECK(m == (size_t)(n[0] + n[1]), "number of tangents");
      }
    }
  }
  s.nontrivial(adjacent || (n[0] > 1 && n[1] > 1));
}

// required content which is missing or ill-formed is reported
PBT_FACET(errors, 6000) {
  ptree key;
  std::string bad = s.pick({"", "x", "1x", "-", "1.5.2", "nanx", "1 2", "1,5", "1e", "0x10", "--1"});
  bool has = s.coin();
  LOG("value", has ? bad : std::string("(missing)"));
  auto set = [&](ptree &p, const char *name) {
    if (has) p.put(std::string("<xmlattr>.") + name, bad);
  };
  s.nontrivial();
  switch (s.draw(12)) {
    case 0:
      NOTE("key frame");
      set(key, "frame");
      THROWS(v2::Key::get_frame(key), "frame");
      THROWS(v2::Label::get_frame(key), "frame");
      break;
    case 1: {
      int f = -(int)s.range(1, 100);
      NOTE("frame " << f);
      key.put("<xmlattr>.frame", f);
      THROWS(v2::Key::get_frame(key), "frame");
      THROWS(v2::Label::get_frame(key), "frame");
      break;
    }
    case 2:
      NOTE("key value");
      set(key, "value");
      THROWS(v2::Key::get_value<double>(key), "value");
      THROWS(v2::Key::get_value<float>(key), "value");
      break;
    case 3:
      NOTE("abscissa");
      set(key, "abscissaParam");
      THROWS(v2::Tangent::get_abscissa<double>(key), "abscissa");
      THROWS(v2::Tangent::get_abscissa<float>(key), "abscissa");
      break;
    case 4:
      NOTE("ordinate");
      set(key, "ordinateParam");
      THROWS(v2::Tangent::get_ordinate<double>(key), "ordinate");
      THROWS(v2::Tangent::get_ordinate<float>(key), "ordinate");
      break;
    case 5: {
      NOTE("side");
      if (has) key.put("<xmlattr>.side", s.coin() ? std::string(s.pick({"", "Left", "RIGHT", "l", "left ", "both"})) : s.nearMiss(s.pick({"left", "right"})));
      THROWS(v2::Tangent::get_side(key), "side");
      break;
    }
    case 6:
      NOTE("fps");
      set(key, "fps");
      THROWS(v2::ActuatorCurve::get_fps(key), "fps");
      THROWS(v2::Labels::get_fps(key), "fps");
      break;
    case 7:
      NOTE("fps <= 0");
      key.put("<xmlattr>.fps", -(int)s.range(0, 50));
      THROWS(v2::ActuatorCurve::get_fps(key), "fps");
      break;
    case 8: {
      NOTE("unit");
      if (has) key.put("<xmlattr>.unit", s.coin() ? std::string(s.pick({"", "unknown", "Radian", "rad", "meters", "degree "})) : s.nearMiss(s.pick({"radian", "degree", "meter", "dimensionless"})));
      THROWS(v2::ActuatorCurve::get_unit(key), "unit");
      break;
    }
    case 9:
      NOTE("actuator");
      THROWS(v2::ActuatorCurve::get_actuator(key), "actuator");
      break;
    case 10: {
      NOTE("version");
      ptree root;
      std::string v = s.coin() ? std::string(s.pick({"2.1", "1.0", "2", "", "2.0 ", "02.0", "v2.0"})) : s.nearMiss("2.0");
      bool a = s.coin(), t = s.coin();
      if (a) {
        root.put("Animation", "");
        if (t) root.put("Animation.<xmlattr>.typeVersion", v);
        THROWS(v2::require_animation(root), "version");
        THROWS(v2::Animation::check_version(root.get_child("Animation")), "version");
        THROWS(v2::Animation::check_all(root.get_child("Animation")), "version");
      }
      const ptree &croot = root;
      THROWS(v2::get_animation(root), "version");
      THROWS(v2::get_animation(croot), "version");
      break;
    }
    default: {
      NOTE("missing tangents");
      ptree k;
      k.put("<xmlattr>.frame", 1);
      THROWS(v2::Key::get_tangent(k, qa::Side::left), "tangent");
      v2::Key::put_tangent<double>(k, qa::Side::left, -1., 0.);
      THROWS(v2::Key::get_tangent(k, qa::Side::right), "tangent");
      CHECK(!v2::Key::get_tangent_optional(k, qa::Side::right), "tangent");
    }
  }
}
