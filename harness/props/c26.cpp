// C26: histories of mesh builder calls.
#include "../pbt.h"
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
using namespace pbt;
using AL::Mesh;

namespace {
struct Model {
  bool tex = false;
  std::vector<float> p, n, t;
  std::vector<size_t> v, vc;
  int mode = -1;
  size_t count = 0;
  size_t cn = Mesh::NO_INDEX, ct = Mesh::NO_INDEX;
};
template <class F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
// exact, NaN-free comparison of buffers
template <class T>
void same(const std::vector<T> &a, const std::vector<T> &b, const char *what) {
  CHECK(a.size() == b.size(), what << ": " << a.size() << " values instead of " << b.size());
  for (size_t i = 0; i < a.size(); ++i) CHECK(a[i] == b[i], what << "[" << i << "] = " << a[i] << " instead of " << b[i]);
}
void compare(const Mesh &m, const Model &r) {
  CHECK(m.withTexCoords() == r.tex, "withTexCoords");
  size_t st = r.tex ? 3 : 2;
  CHECK(m.verticesStride() == st, "stride " << m.verticesStride());
  same(m.positions(), r.p, "positions");
  same(m.normals(), r.n, "normals");
  same(m.texCoords(), r.t, "texture coordinates");
  same(m.vertices(), r.v, "vertices");
  same(m.polygonVerticesCounts(), r.vc, "polygon sizes");
  CHECK(m.positionsNb() == r.p.size() / 3 && m.normalsNb() == r.n.size() / 3 && m.texCoordsNb() == r.t.size() / 2, "numbers of elements");
  CHECK(m.verticesNb() == r.v.size() / st && m.polygonsNb() == r.vc.size(), "numbers of vertices and polygons");
  for (size_t i = 0; i < r.vc.size(); ++i) CHECK(m.polygonVerticesCountAt(i) == r.vc[i], "size of polygon " << i);
  // every index refers to an element
  for (size_t i = 0; i < r.v.size() / st; ++i) {
    const size_t *v = m.vertexPtrAt(i);
    CHECK(v[Mesh::positionOffset] < m.positionsNb() && v[Mesh::normalOffset] < m.normalsNb(), "indices of vertex " << i);
    if (r.tex) CHECK(v[Mesh::texCoordOffset] < m.texCoordsNb(), "texture index of vertex " << i);
    CHECK(v[0] == r.v[i * st] && v[1] == r.v[i * st + 1], "vertexPtrAt " << i);
    const float *p = m.positionPtrAt(v[0]), *n = m.normalPtrAt(v[1]);
    for (int k = 0; k < 3; ++k) CHECK(p[k] == r.p[v[0] * 3 + k] && n[k] == r.n[v[1] * 3 + k], "coordinates of vertex " << i);
    if (r.tex)
      for (int k = 0; k < 2; ++k) CHECK(m.texCoordPtrAt(v[2])[k] == r.t[v[2] * 2 + k], "texture coordinates of vertex " << i);
  }
  THROWS(m.positionPtrAt(m.positionsNb()), "position out of range");
  THROWS(m.normalPtrAt(m.normalsNb()), "normal out of range");
  THROWS(m.texCoordPtrAt(m.texCoordsNb()), "texture coordinates out of range");
  THROWS(m.vertexPtrAt(m.verticesNb()), "vertex out of range");
}
const char *kModes[] = {"POLYGON", "TRIANGLES", "QUADS"};
const Mesh::Mode kM[] = {Mesh::POLYGON, Mesh::TRIANGLES, Mesh::QUADS};
size_t index(Src &s, size_t n) {
  if (s.chance(1, 10)) return s.pick({n, n + 1, n + 7, (size_t)Mesh::NO_INDEX / 4, (size_t)Mesh::NO_INDEX});
  return n == 0 ? 0 : (size_t)s.draw(n);
}
void unitVec(Src &s, float *v) {
  if (s.coin()) {
    v[0] = v[1] = v[2] = 0;
    v[s.draw(3)] = s.coin() ? 1.f : -1.f;
    return;
  }
  double z = 2 * s.unit() - 1, a = 6.283185307 * s.unit(), r = std::sqrt(1 - z * z);
  v[0] = (float)(r * std::cos(a));
  v[1] = (float)(r * std::sin(a));
  v[2] = (float)z;
}
}  // namespace

PBT_FACET(history, 30000) {
  Model r;
  r.tex = s.coin();
  Mesh m = r.tex ? Mesh(true) : s.coin() ? Mesh() : Mesh(false);
  std::vector<std::pair<Mesh, Model>> copies;
  compare(m, r);
  int n = (int)s.range(0, s.chance(1, 12) ? 400 : 50);
  unsigned refused = 0;
  for (int op = 0; op < n; ++op) {
    switch (s.weighted({4, 4, 2, 3, 2, 4, 10, 4, 5, 1, 1})) {
      case 0: {
        float x = s.real(-1e3, 1e3), y = s.real(-1e3, 1e3), z = s.real(-1e3, 1e3);
        NOTE("position " << x << " " << y << " " << z);
        size_t i = m.position(x, y, z);
        CHECK(i == r.p.size() / 3, "index " << i);
        for (float f : {x, y, z}) r.p.push_back(f);
        break;
      }
      case 1: {
        float v[3];
        unitVec(s, v);
        NOTE("normal " << v[0] << " " << v[1] << " " << v[2]);
        size_t i = m.normal(v[0], v[1], v[2]);
        CHECK(i == r.n.size() / 3, "index " << i);
        r.cn = i;
        for (float f : v) r.n.push_back(f);
        break;
      }
      case 2: {
        size_t i = index(s, r.n.size() / 3);
        NOTE("normal(" << i << ")");
        bool bad = i >= r.n.size() / 3, t = throws([&] { m.normal(i); });
        CHECK(bad == t, "normal(" << i << ") " << (t ? "refused" : "accepted"));
        if (bad) ++refused;
        else r.cn = i;
        break;
      }
      case 3: {
        float x = s.real(-200, 200), y = s.real(-200, 200);
        NOTE("texCoord " << x << " " << y);
        size_t i = m.texCoord(x, y);
        CHECK(i == r.t.size() / 2, "index " << i);
        r.ct = i;
        r.t.push_back(x);
        r.t.push_back(y);
        break;
      }
      case 4: {
        size_t i = index(s, r.t.size() / 2);
        NOTE("texCoord(" << i << ")");
        bool bad = i >= r.t.size() / 2, t = throws([&] { m.texCoord(i); });
        CHECK(bad == t, "texCoord(" << i << ") " << (t ? "refused" : "accepted"));
        if (bad) ++refused;
        else r.ct = i;
        break;
      }
      case 5: {
        int k = (int)s.draw(3);
        NOTE("begin " << kModes[k]);
        bool bad = r.mode >= 0, t = throws([&] { m.begin(kM[k]); });
        CHECK(bad == t, "begin " << (t ? "refused" : "accepted"));
        if (bad) ++refused;
        else r.mode = k;
        break;
      }
      case 6: {  // as many vertices as usual polygons need
        int c = (int)s.pick({1, 2, 3, 4, 6, 8});
        while (c--) {
          size_t i = index(s, r.p.size() / 3);
          NOTE("vertex(" << i << ")");
          bool bad = r.mode < 0 || i >= r.p.size() / 3 || r.cn == Mesh::NO_INDEX || (r.tex && r.ct == Mesh::NO_INDEX);
          bool t = throws([&] { m.vertex(i); });
          CHECK(bad == t, "vertex(" << i << ") " << (t ? "refused" : "accepted"));
          if (bad) {
            ++refused;
            break;
          }
          r.v.push_back(i);
          r.v.push_back(r.cn);
          if (r.tex) r.v.push_back(r.ct);
          ++r.count;
        }
        break;
      }
      case 7: {
        float x = s.real(-1e3, 1e3), y = s.real(-1e3, 1e3), z = s.real(-1e3, 1e3);
        NOTE("vertex " << x << " " << y << " " << z);
        bool bad = r.mode < 0 || r.cn == Mesh::NO_INDEX || (r.tex && r.ct == Mesh::NO_INDEX);
        bool t = throws([&] { m.vertex(x, y, z); });
        CHECK(bad == t, "vertex(x, y, z) " << (t ? "refused" : "accepted"));
        if (bad) {
          ++refused;
          break;
        }
        r.v.push_back(r.p.size() / 3);
        r.v.push_back(r.cn);
        if (r.tex) r.v.push_back(r.ct);
        for (float f : {x, y, z}) r.p.push_back(f);
        ++r.count;
        break;
      }
      case 8: {
        NOTE("end");
        size_t k = r.mode == 1 ? 3 : 4;
        bool bad = r.mode < 0 || (r.mode > 0 && r.count % k != 0);
        bool t = throws([&] { m.end(); });
        CHECK(bad == t, "end " << (t ? "refused" : "accepted"));
        if (bad) {
          ++refused;
          break;
        }
        if (r.mode == 0) {
          if (r.count) r.vc.push_back(r.count);
        } else {
          for (size_t i = 0; i < r.count / k; ++i) r.vc.push_back(k);
        }
        r.mode = -1;
        r.count = 0;
        break;
      }
      case 9: {  // copies are independent
        NOTE("copy");
        if (copies.size() < 3) copies.emplace_back(m, r);
        break;
      }
      default: {  // an empty mesh, or a copy, takes the place of this one
        if (copies.empty()) break;
        size_t i = (size_t)s.draw(copies.size());
        NOTE("assign copy " << i);
        std::swap(m, copies[i].first);
        std::swap(r, copies[i].second);
        break;
      }
    }
    compare(m, r);
  }
  for (auto &c : copies) compare(c.first, c.second);
  s.nontrivial(r.vc.size() >= 2 || (refused >= 1 && r.v.size() >= 2));
  if (r.vc.size() >= 2 && refused) s.label("polygons-and-refusals");
}
