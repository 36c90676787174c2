// C28: Collada scenes.
#include "../pbt.h"
#include "../ref.h"
#include <cassert>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/colladabuilder.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/geometrics/shapes3d.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
using namespace pbt;
using boost::property_tree::ptree;
using AL::Mesh;
namespace AM = AL::Math;

namespace {
struct Item {
  Mesh mesh;
  float m[16];
};
struct Scene {
  std::unique_ptr<AL::ColladaSceneBuilder> b;
  float color[4];
  int arc;
  std::vector<Item> items;
};
std::string attr(const ptree &p, const char *n) {
  return p.get<std::string>(std::string("<xmlattr>.") + n, "<none>");
}
template <class T>
std::vector<T> numbers(const std::string &t) {
  std::vector<T> r;
  std::istringstream is(t);
  T x;
  while (is >> x) r.push_back(x);
  CHECK(is.eof(), "not a list of numbers: " << t.substr(0, 60));
  return r;
}
// printed with 6 significant digits
bool close6(double a, double b) { return std::fabs(a - b) <= 6e-6 * std::fabs(b) + 1e-40; }

typedef std::map<std::string, std::pair<std::string, const ptree *>> Ids;
void collect(const std::string &name, const ptree &p, Ids &ids) {
  for (auto &c : p) {
    if (c.first == "<xmlattr>" || c.first == "<xmlcomment>") continue;
    std::string id = attr(c.second, "id");
    if (id != "<none>") {
      CHECK(!id.empty(), "empty identifier in a " << c.first);
      CHECK(ids.insert(std::make_pair(id, std::make_pair(c.first, &c.second))).second, "identifier " << id << " is used twice");
    }
    collect(c.first, c.second, ids);
  }
}
const ptree &resolve(const Ids &ids, const std::string &ref, const char *kind) {
  CHECK(ref.size() > 1 && ref[0] == '#', "reference " << ref);
  auto it = ids.find(ref.substr(1));
  CHECK(it != ids.end(), "reference " << ref << " to nothing");
  CHECK(it->second.first == kind, "reference " << ref << " to a " << it->second.first << " instead of a " << kind);
  return *it->second.second;
}
std::vector<const ptree *> kids(const ptree &p, const char *n) {
  std::vector<const ptree *> r;
  for (auto &c : p)
    if (c.first == n) r.push_back(&c.second);
  return r;
}
const ptree &only(const ptree &p, const char *n) {
  auto k = kids(p, n);
  CHECK(k.size() == 1, k.size() << " elements " << n);
  return *k[0];
}
// the coordinates which the source of an input holds
std::vector<double> source(const Ids &ids, const std::string &ref) {
  const ptree &src = resolve(ids, ref, "source");
  const ptree &fa = only(src, "float_array"), &acc = only(only(src, "technique_common"), "accessor");
  auto v = numbers<double>(fa.data());
  CHECK(attr(fa, "count") == std::to_string(v.size()), "count of the array of " << ref << " is " << attr(fa, "count") << " for " << v.size() << " values");
  CHECK(&resolve(ids, attr(acc, "source"), "float_array") == &fa, "the accessor of " << ref << " is about another array");
  CHECK(attr(acc, "stride") == "3", "stride " << attr(acc, "stride"));
  CHECK(v.size() % 3 == 0 && attr(acc, "count") == std::to_string(v.size() / 3), "count of the accessor of " << ref << ": " << attr(acc, "count"));
  auto ps = kids(acc, "param");
  CHECK(ps.size() == 3, "params");
  for (int i = 0; i < 3; ++i) CHECK(attr(*ps[i], "name") == std::string(1, "XYZ"[i]) && attr(*ps[i], "type") == "float", "param " << i);
  return v;
}
void sameCoords(const std::vector<double> &a, const std::vector<float> &b, const char *what) {
  CHECK(a.size() == b.size(), what << ": " << a.size() << " values instead of " << b.size());
  for (size_t i = 0; i < a.size(); ++i) CHECK(close6(a[i], b[i]), what << " " << i << ": " << a[i] << " instead of " << b[i]);
}
void checkGeometry(const Ids &ids, const ptree &geom, const Mesh &m) {
  const ptree &mesh = only(geom, "mesh"), &poly = only(mesh, "polylist");
  auto ins = kids(poly, "input");
  CHECK(ins.size() == 2, "inputs of the polylist");
  bool pos = false, nor = false;
  for (auto *in : ins) {
    std::string sem = attr(*in, "semantic");
    if (sem == "VERTEX") {
      pos = true;
      CHECK(attr(*in, "offset") == "0", "offset of the positions " << attr(*in, "offset"));
      const ptree &vs = resolve(ids, attr(*in, "source"), "vertices");
      CHECK(&vs == &only(mesh, "vertices"), "vertices of another mesh");
      const ptree &pin = only(vs, "input");
      CHECK(attr(pin, "semantic") == "POSITION", "semantic of the vertices");
      sameCoords(source(ids, attr(pin, "source")), m.positions(), "position");
    } else {
      CHECK(sem == "NORMAL", "semantic " << sem);
      nor = true;
      CHECK(attr(*in, "offset") == "1", "offset of the normals " << attr(*in, "offset"));
      sameCoords(source(ids, attr(*in, "source")), m.normals(), "normal");
    }
  }
  CHECK(pos && nor, "positions or normals are missing");
  auto vc = numbers<unsigned long long>(only(poly, "vcount").data()), p = numbers<unsigned long long>(only(poly, "p").data());
  CHECK(attr(poly, "count") == std::to_string(vc.size()), "count of polygons");
  CHECK(vc.size() == m.polygonsNb(), "polygons");
  for (size_t i = 0; i < vc.size(); ++i) CHECK(vc[i] == m.polygonVerticesCounts()[i], "size of polygon " << i << ": " << vc[i]);
  CHECK(p.size() == m.vertices().size(), p.size() << " indices instead of " << m.vertices().size());
  for (size_t i = 0; i < p.size(); ++i) CHECK(p[i] == m.vertices()[i], "index " << i << ": " << p[i] << " instead of " << m.vertices()[i]);
}
void checkScene(const Scene &sc) {
  std::ostringstream os;
  os << *sc.b;
  ptree doc;
  {
    std::istringstream is(os.str());
    boost::property_tree::read_xml(is, doc, boost::property_tree::xml_parser::trim_whitespace);
  }
  CHECK(kids(doc, "COLLADA").size() == 1, "one COLLADA element");
  const ptree &root = only(doc, "COLLADA");
  CHECK(attr(root, "version") == "1.4.1" && attr(root, "xmlns") == "http://www.collada.org/2005/11/COLLADASchema", "COLLADA version");
  const ptree &asset = only(root, "asset");
  only(asset, "created"), only(asset, "modified");  // required by the format
  if (asset.count("unit")) CHECK(std::stod(only(asset, "unit").get("<xmlattr>.meter", "1")) == 1, "coordinates are in metres");
  Ids ids;
  collect("", doc, ids);
  // the scene is the visual scene, which holds one node per mesh in order
  const ptree &vs = resolve(ids, attr(only(only(root, "scene"), "instance_visual_scene"), "url"), "visual_scene");
  CHECK(&vs == &only(only(root, "library_visual_scenes"), "visual_scene"), "visual scene");
  auto nodes = kids(vs, "node");
  CHECK(nodes.size() == sc.items.size(), nodes.size() << " nodes instead of " << sc.items.size());
  std::set<const ptree *> used;
  for (size_t i = 0; i < nodes.size(); ++i) {
    const Item &it = sc.items[i];
    auto mt = numbers<double>(only(*nodes[i], "matrix").data());
    CHECK(mt.size() == 16, "matrix of " << mt.size() << " numbers");
    for (int k = 0; k < 16; ++k) CHECK(close6(mt[k], it.m[k]), "matrix of node " << i << ", coefficient " << k << ": " << mt[k] << " instead of " << it.m[k]);
    const ptree &ig = only(*nodes[i], "instance_geometry");
    const ptree &g = resolve(ids, attr(ig, "url"), "geometry");
    CHECK(used.insert(&g).second, "two nodes share a geometry");
    checkGeometry(ids, g, it.mesh);
    const ptree &im = only(only(only(ig, "bind_material"), "technique_common"), "instance_material");
    CHECK(attr(im, "symbol") == attr(only(only(g, "mesh"), "polylist"), "material"), "material symbol");
    const ptree &mat = resolve(ids, attr(im, "target"), "material");
    const ptree &fx = resolve(ids, attr(only(mat, "instance_effect"), "url"), "effect");
    auto c = numbers<double>(fx.get<std::string>("profile_COMMON.technique.phong.diffuse.color"));
    CHECK(c.size() == 4, "colour");
    for (int k = 0; k < 4; ++k) CHECK(close6(c[k], sc.color[k]), "colour component " << k << ": " << c[k] << " instead of " << sc.color[k]);
  }
  CHECK(kids(only(root, "library_geometries"), "geometry").size() == used.size(), "geometries which are in no node");
  // the material exists even if nothing uses it
  CHECK(kids(only(root, "library_materials"), "material").size() == 1 && kids(only(root, "library_effects"), "effect").size() == 1, "materials");
}
float ext(Src &s) {
  float e = s.coin() ? s.pick({1.f, 0.5f, 2.f}) : (float)(0.05 + s.unit() * 3);
  return s.chance(1, 6) ? e * s.pick({1e-3f, 0.01f, 100.f}) : e;
}
Mesh genMesh(Src &s) {
  switch (s.draw(4)) {
    case 0: return Mesh();
    case 1: return AL::createBoxMesh(ext(s), ext(s), ext(s));
    case 2: return AL::createRoundedBoxMesh(s.coin() ? ext(s) : 0.f, ext(s), ext(s), ext(s), (int)s.range(0, 2));
    default: {
      Mesh m;
      int np = (int)s.range(1, 12);
      for (int i = 0; i < np; ++i) m.position(s.real(-1e4, 1e4), s.real(-5, 5), s.real(-1e-4, 1e-4));
      int nn = (int)s.range(1, 4);
      for (int i = 0; i < nn; ++i) {
        double a = 6.28 * s.unit();
        m.normal((float)std::cos(a), 0.f, (float)std::sin(a));
      }
      for (int k = (int)s.range(0, 4); k > 0; --k) {
        Mesh::Mode md = s.pick({Mesh::POLYGON, Mesh::TRIANGLES, Mesh::QUADS});
        m.begin(md);
        int c = md == Mesh::POLYGON ? (int)s.range(3, 7) : (int)s.range(1, 2) * (md == Mesh::TRIANGLES ? 3 : 4);
        for (int i = 0; i < c; ++i) {
          m.normal((size_t)s.draw(nn));
          m.vertex((size_t)s.draw(np));
        }
        m.end();
      }
      return m;
    }
  }
}
void genTransform(Src &s, float *m) {
  std::fill(m, m + 16, 0.f);
  m[15] = 1;
  if (s.chance(1, 6)) {
    m[0] = m[5] = m[10] = 1;
    return;
  }
  ref::M3 r = ref::genRot(s);
  ref::V3 t = ref::genVec(s, s.coin() ? 1000 : 2);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) m[4 * i + j] = (float)r.m[i][j];
    m[4 * i + 3] = (float)t[i];
  }
}
AM::Transform tfOf(const float *m) {
  AM::Transform t;
  t.r1_c1 = m[0], t.r1_c2 = m[1], t.r1_c3 = m[2], t.r1_c4 = m[3];
  t.r2_c1 = m[4], t.r2_c2 = m[5], t.r2_c3 = m[6], t.r2_c4 = m[7];
  t.r3_c1 = m[8], t.r3_c2 = m[9], t.r3_c3 = m[10], t.r3_c4 = m[11];
  return t;
}
Scene newScene(Src &s) {
  Scene sc;
  AL::SceneBuilder::Config c;
  if (s.coin()) {
    c.color.r = s.real(0, 1);
    c.color.g = s.real(0, 1);
    c.color.b = s.real(0, 1);
    c.color.a = s.real(0, 1);
  }
  c.nbArcVertices = (int)s.range(0, 3);
  sc.color[0] = c.color.r, sc.color[1] = c.color.g, sc.color[2] = c.color.b, sc.color[3] = c.color.a;
  sc.arc = c.nbArcVertices;
  sc.b.reset(new AL::ColladaSceneBuilder(c));
  return sc;
}
}  // namespace

PBT_FACET(history, 3000) {
  std::vector<Scene> scs;
  scs.push_back(newScene(s));
  int n = (int)s.range(0, 16);
  unsigned added = 0, copied = 0;
  for (int op = 0; op < n; ++op) {
    size_t si = (size_t)s.draw(scs.size());
    Scene &sc = scs[si];
    switch (s.weighted({5, 4, 4, 2, 3, 3, 1, 1})) {
      case 0: {
        NOTE("scene " << si << ": add a mesh with an Eigen transform");
        Item it{genMesh(s), {}};
        genTransform(s, it.m);
        if (s.chance(1, 4)) {  // any affine map
          it.m[0] = s.real(-3, 3);
          it.m[6] = s.real(-3, 3);
        }
        Eigen::Affine3f tf = Eigen::Affine3f::Identity();
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 4; ++j) tf.matrix()(i, j) = it.m[4 * i + j];
        sc.b->add(it.mesh, tf);
        sc.items.push_back(it);
        ++added;
        break;
      }
      case 1: {
        NOTE("scene " << si << ": add a mesh with a Transform");
        Item it{genMesh(s), {}};
        genTransform(s, it.m);
        AL::SceneBuilder &b = *sc.b;
        b.add(it.mesh, tfOf(it.m));
        sc.items.push_back(it);
        ++added;
        break;
      }
      case 2: {
        Item it{Mesh(), {}};
        genTransform(s, it.m);
        AM::Transform tf = tfOf(it.m);
        bool poly = s.coin();
        float x = ext(s), y = ext(s), r = ext(s);
        std::unique_ptr<AM::Shape3D> sh;
        switch (s.draw(3)) {
          case 0:
            NOTE("scene " << si << ": add a sphere");
            it.mesh = AL::createRoundedBoxMesh(0, 0, 0, r, sc.arc);
            if (!poly) sc.b->add(AM::Sphere(r), tf);
            else sh.reset(new AM::Sphere(r));
            break;
          case 1:
            NOTE("scene " << si << ": add a rounded rectangle");
            it.mesh = AL::createRoundedBoxMesh(x, y, 0, r, sc.arc);
            if (!poly) sc.b->add(AM::RoundedRectangle(x, y, r), tf);
            else sh.reset(new AM::RoundedRectangle(x, y, r));
            break;
          default:
            NOTE("scene " << si << ": add a pill");
            it.mesh = AL::createRoundedBoxMesh(0, 0, x, r, sc.arc);
            if (!poly) sc.b->add(AM::Pill(x, r), tf);
            else sh.reset(new AM::Pill(x, r));
        }
        if (poly) sc.b->add(*sh, tf);
        sc.items.push_back(it);
        ++added;
        break;
      }
      case 3: {
        NOTE("scene " << si << ": things which are refused");
        float m[16];
        genTransform(s, m);
        Mesh t(true);
        if (s.coin()) {
          t.texCoord(0.f, 1.f);
          AL::addBoxMesh(1, 1, 1, t);
        }
        Eigen::Affine3f tf = Eigen::Affine3f::Identity();
        switch (s.draw(5)) {
          case 0: THROWS(sc.b->add(t, tf), "mesh with texture coordinates"); break;
          case 1: THROWS(sc.b->add(t, tfOf(m)), "mesh with texture coordinates"); break;
          case 2: THROWS(sc.b->add(AM::Plane(), tfOf(m)), "plane"); break;
          case 3: THROWS(sc.b->add(AM::HalfSpace(), tfOf(m)), "half space"); break;
          default: THROWS(sc.b->add(AM::Rectangle(1, 2), tfOf(m)), "rectangle"); break;
        }
        break;
      }
      case 4: {
        if (scs.size() >= 4) break;
        NOTE("copy scene " << si << " to scene " << scs.size());
        Scene c;
        c.b.reset(new AL::ColladaSceneBuilder(*sc.b));
        std::copy(sc.color, sc.color + 4, c.color);
        c.arc = sc.arc;
        c.items = sc.items;
        scs.push_back(std::move(c));
        ++copied;
        break;
      }
      case 5: {
        size_t di = (size_t)s.draw(scs.size());
        NOTE("assign scene " << si << " to scene " << di);
        *scs[di].b = *sc.b;
        if (di != si) {
          std::copy(sc.color, sc.color + 4, scs[di].color);
          scs[di].arc = sc.arc;
          scs[di].items = sc.items;
        }
        ++copied;
        break;
      }
      case 6:
        if (scs.size() < 4) {
          NOTE("new scene " << scs.size());
          scs.push_back(newScene(s));
        }
        break;
      default:
        if (scs.size() > 1) {
          NOTE("destroy scene " << si);
          scs.erase(scs.begin() + si);
        }
    }
    for (auto &x : scs) {
      const auto &c = x.b->getConfig();
      CHECK(c.color.r == x.color[0] && c.color.g == x.color[1] && c.color.b == x.color[2] && c.color.a == x.color[3] && c.nbArcVertices == x.arc, "configuration");
    }
    if (s.chance(1, 8)) checkScene(scs[(size_t)s.draw(scs.size())]);
  }
  for (auto &x : scs) checkScene(x);
  s.nontrivial(added >= 2 || (added && copied));
  if (added && copied) s.label("added-and-copied");
}

// the elements one by one
PBT_FACET(builder, 9000) {
  AL::ColladaBuilder b;
  ptree parent;
  parent.put("before", "x");
  auto id = [&] { return s.pick({std::string("a"), std::string("mesh_1"), std::string("x.y"), std::string("n-0"), std::string("a_long_identifier_of_a.mesh-0123456789")}); };
  std::string i = id(), j = id();
  s.nontrivial();
  const ptree *ret = nullptr;
  std::string tag;
  switch (s.draw(8)) {
    case 0: {
      float c[4];
      for (float &x : c) x = s.real(0, 1);
      ptree &e = b.addEffectColor(parent, i, c[0], c[1], c[2], c[3]);
      CHECK(attr(e, "id") == i, "id");
      auto v = numbers<double>(e.get<std::string>("profile_COMMON.technique.phong.diffuse.color"));
      CHECK(v.size() == 4, "colour");
      for (int k = 0; k < 4; ++k) CHECK(close6(v[k], c[k]), "colour component " << k);
      ret = &e, tag = "effect";
      break;
    }
    case 1: {
      ptree &e = b.addMaterial(parent, i, j);
      CHECK(attr(e, "id") == i && attr(only(e, "instance_effect"), "url") == "#" + j, "material");
      ret = &e, tag = "material";
      break;
    }
    case 2: {
      float m[16];
      genTransform(s, m);
      Eigen::Affine3f tf = Eigen::Affine3f::Identity();
      for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 4; ++c) tf.matrix()(r, c) = m[4 * r + c];
      bool named = s.coin();
      ptree &e = b.addNode(parent, named ? i : "", tf);
      CHECK(attr(e, "id") == (named ? i : "<none>"), "node id");
      auto v = numbers<double>(only(e, "matrix").data());
      CHECK(v.size() == 16, "matrix");
      for (int k = 0; k < 16; ++k) CHECK(close6(v[k], m[k]), "matrix coefficient " << k);
      CHECK(e == b.createNode(named ? i : "", tf), "createNode and addNode differ");
      ret = &e, tag = "node";
      break;
    }
    case 3: {
      ptree &e = b.addVisualScene(parent, i);
      CHECK(attr(e, "id") == i, "id");
      ret = &e, tag = "visual_scene";
      break;
    }
    case 4: {
      ptree &e = b.addInstanceVisualScene(parent, i);
      CHECK(attr(e, "url") == "#" + i, "url");
      ret = &e, tag = "instance_visual_scene";
      break;
    }
    case 5: {
      std::vector<float> d;
      for (int k = 3 * (int)s.range(0, 8); k > 0; --k) d.push_back(s.real(-1e6, 1e6));
      ptree &e = b.addSourceXYZ(parent, d, i);
      Ids ids;
      collect("", parent, ids);
      sameCoords(source(ids, "#" + i), d, "coordinate");
      ret = &e, tag = "source";
      break;
    }
    case 6: {
      int o = (int)s.range(0, 5);
      ptree &e = b.addInput(parent, s.pick({"VERTEX", "NORMAL"}), i, o);
      CHECK(attr(e, "source") == "#" + i && attr(e, "offset") == std::to_string(o), "input");
      ret = &e, tag = "input";
      break;
    }
    default: {
      Mesh m = genMesh(s);
      ptree &e = b.addGeometryMesh(parent, i, m);
      Ids ids;
      collect("", parent, ids);
      CHECK(attr(e, "id") == i, "id");
      checkGeometry(ids, e, m);
      ret = &e, tag = "geometry";
    }
  }
  CHECK(parent.size() == 2 && parent.begin()->first == "before" && parent.back().first == tag && &parent.back().second == ret,
        tag << " is not added after the others, or not returned");
}

// indices of large meshes are integers too
PBT_FACET(large, 3) {
  Mesh m;
  size_t n = (size_t)s.pick({1000000, 1200003, 2000001}) + (size_t)s.range(0, 1000);
  LOG("positions", std::to_string(n));
  for (size_t i = 0; i < n; ++i) m.position(0, 0, (float)(i % 10));
  m.normal(0, 0, 1);
  m.begin(Mesh::TRIANGLES);
  for (int i = 0; i < 6; ++i) m.vertex(n - 1 - (size_t)s.draw(i < 3 ? 1000 : n));
  m.end();
  AL::ColladaBuilder b;
  ptree p;
  b.addGeometryMesh(p, "g", m);
  Ids ids;
  collect("", p, ids);
  checkGeometry(ids, p.get_child("geometry"), m);
  s.nontrivial();
}

// any implementation of the interface receives the meshes of the shapes, in its own resolution
namespace {
struct Recorder : AL::SceneBuilder {
  using AL::SceneBuilder::SceneBuilder;
  std::vector<Item> got;
  void xAddMesh(const Mesh &mesh, const Eigen::Affine3f &tf) override {
    Item it{mesh, {}};
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) it.m[4 * i + j] = tf.matrix()(i, j);
    got.push_back(it);
  }
};
}  // namespace
PBT_FACET(interface, 12000) {
  AL::SceneBuilder::Config c;
  c.nbArcVertices = (int)s.range(0, 4);
  c.color.r = s.real(0, 1), c.color.g = s.real(0, 1), c.color.b = s.real(0, 1), c.color.a = s.real(0, 1);
  LOG("vertices per arc", c.nbArcVertices);
  Recorder a(c);
  bool copied = s.coin(), assigned = s.coin();
  AL::SceneBuilder::Config other;
  other.nbArcVertices = 7;
  Recorder b0 = copied ? Recorder(a) : Recorder(other);
  if (assigned) b0 = a;
  Recorder &b = copied || assigned ? b0 : a;
  const auto &g = b.getConfig();
  CHECK(g.nbArcVertices == c.nbArcVertices && g.color.r == c.color.r && g.color.g == c.color.g && g.color.b == c.color.b && g.color.a == c.color.a,
        "configuration" << (copied ? " of a copy" : ""));
  AL::SceneBuilder &sb = b;
  int n = (int)s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    float m[16];
    genTransform(s, m);
    AM::Transform tf = tfOf(m);
    float x = ext(s), y = ext(s), r = ext(s);
    Mesh e;
    switch (s.draw(4)) {
      case 0: {
        e = AL::createRoundedBoxMesh(0, 0, 0, r, c.nbArcVertices);
        AM::Sphere q(r);
        s.coin() ? sb.add(q, tf) : sb.add((const AM::Shape3D &)q, tf);
        break;
      }
      case 1: {
        e = AL::createRoundedBoxMesh(x, y, 0, r, c.nbArcVertices);
        AM::RoundedRectangle q(x, y, r);
        s.coin() ? sb.add(q, tf) : sb.add((const AM::Shape3D &)q, tf);
        break;
      }
      case 2: {
        e = AL::createRoundedBoxMesh(0, 0, x, r, c.nbArcVertices);
        AM::Pill q(x, r);
        s.coin() ? sb.add(q, tf) : sb.add((const AM::Shape3D &)q, tf);
        break;
      }
      default:
        e = genMesh(s);
        sb.add(e, tf);
    }
    CHECK(b.got.size() == (size_t)i + 1, b.got.size() << " meshes received after " << i + 1);
    const Item &it = b.got.back();
    CHECK(it.mesh.positions() == e.positions() && it.mesh.normals() == e.normals() && it.mesh.vertices() == e.vertices() &&
              it.mesh.polygonVerticesCounts() == e.polygonVerticesCounts(),
          "mesh " << i << " is not the one of the shape");
    for (int k = 0; k < 16; ++k) CHECK(it.m[k] == m[k], "transform of mesh " << i << ", coefficient " << k);
  }
  s.nontrivial(copied || n > 1);
}
