// Reference model and generator of animation documents (no library code).
#pragma once
#include "pbt.h"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/optional.hpp>

namespace ag {
using boost::property_tree::ptree;
using pbt::Src;

inline std::string attr(const ptree &p, const char *name, bool *found = nullptr) {
  auto a = p.find("<xmlattr>");
  if (found) *found = false;
  if (a == p.not_found()) return "";
  auto v = a->second.find(name);
  if (v == a->second.not_found()) return "";
  if (found) *found = true;
  return v->second.data();
}
inline std::string esc(const std::string &t) {
  std::string r;
  for (char c : t) {
    switch (c) {
      case '<': r += "&lt;"; break;
      case '>': r += "&gt;"; break;
      case '&': r += "&amp;"; break;
      case '"': r += "&quot;"; break;
      case '\'': r += "&apos;"; break;
      default: r += c;
    }
  }
  return r;
}
// the document up to the place of the attributes
inline ptree canon(const ptree &p) {
  ptree r(p.data());
  auto a = p.find("<xmlattr>");
  if (a != p.not_found()) r.push_back(std::make_pair("<xmlattr>", a->second));
  for (auto &c : p)
    if (c.first != "<xmlattr>") r.push_back(std::make_pair(c.first, canon(c.second)));
  return r;
}
inline std::string dump(const ptree &p, const std::string &name = "") {
  std::string r = name;
  if (!p.data().empty()) r += "'" + p.data() + "'";
  if (!p.empty()) {
    r += "{";
    bool first = true;
    for (auto &c : p) {
      if (!first) r += " ";
      first = false;
      r += dump(c.second, c.first);
    }
    r += "}";
  }
  return r;
}
inline std::string word(Src &s) {
  static const std::vector<std::string> w = {"HeadYaw", "HeadPitch", "LShoulder", "a", "b.c", "x y", "<&>\"'", "é", "Key", "1", "a rather long name, with many words.and.dots"};
  return s.pick(w);
}
inline int frame(Src &s) {
  switch (s.weighted({6, 3, 1})) {
    case 0: return (int)s.range(0, 12);
    case 1: return (int)s.range(0, 2000);
    default: return s.pick({0, 1, 2147483646, 2147483647, 1000000, 65536});
  }
}
// an element which is neither a key, a curve, a label nor a list of labels
inline std::pair<std::string, ptree> foreign(Src &s) {
  static const std::vector<std::string> names = {"<xmlcomment>", "Group", "key", "Keys", "Curve", "label", "Extra",
                                                 "Key1", "Tangents", "tangent", "LeftTangent", "ActuatorCurve2", "actuatorcurve", "label1", "SubLabel", "Animation"};
  std::string n = s.pick(names);
  ptree p;
  if (n == "<xmlcomment>") {
    p.data() = s.pick({" a comment ", "x", " Key frame='3' "});
  } else {
    if (s.coin()) p.put("<xmlattr>.frame", s.pick({"3", "0", "x", "-1"}));
    if (s.chance(1, 4)) p.put("<xmlattr>.actuator", word(s));
    if (s.chance(1, 4)) p.add("Key.<xmlattr>.frame", 1);
  }
  return std::make_pair(n, p);
}
inline void xml(std::ostream &os, const std::string &name, const ptree &p) {
  if (name == "<xmlcomment>") {
    os << "<!--" << p.data() << "-->";
    return;
  }
  os << "<" << name;
  auto a = p.find("<xmlattr>");
  if (a != p.not_found())
    for (auto &v : a->second) os << " " << v.first << "=\"" << esc(v.second.data()) << "\"";
  os << ">" << esc(p.data());
  for (auto &c : p)
    if (c.first != "<xmlattr>") xml(os, c.first, c.second);
  os << "</" << name << ">";
}
inline std::string toXml(const ptree &root) {
  std::ostringstream os;
  os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  for (auto &c : root) xml(os, c.first, c.second);
  return os.str();
}
}  // namespace ag
