// C27: geometry of the generated primitive meshes.
#include "../pbt.h"
#include "../ref.h"
#include <cassert>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
using namespace pbt;
using ref::V3;
using AL::Mesh;

namespace {
V3 at(const std::vector<float> &b, size_t i) {
  return V3{b[3 * i], b[3 * i + 1], b[3 * i + 2]};
}
struct Range {
  size_t p0 = 0, n0 = 0, v0 = 0, c0 = 0;
};
double dotv(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double len(const V3 &a) { return std::sqrt(dotv(a, a)); }
V3 crossv(const V3 &a, const V3 &b) {
  return V3{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
// the solid: points at distance r at most of the box of half extents h
// (distance of the box without rounding when r is null)
V3 toCore(const V3 &p, const V3 &h) {
  V3 d;
  for (int i = 0; i < 3; ++i) d[i] = p[i] - std::max(-h[i], std::min(h[i], p[i]));
  return d;
}

void check(const Mesh &m, const Range &g, const V3 &h, double r, int res) {
  const bool tex = m.withTexCoords();
  const size_t st = tex ? 3 : 2;
  const auto &v = m.vertices();
  const size_t np = m.positionsNb();
  CHECK(np > g.p0 && m.polygonsNb() > g.c0, "nothing was added");
  double size = r + std::max(h[0], std::max(h[1], h[2]));
  double tol = 4e-6 * size;
  // the polygons add up to the vertices
  size_t sum = 0;
  for (size_t i = 0; i < m.polygonsNb(); ++i) sum += m.polygonVerticesCountAt(i);
  CHECK(sum == m.verticesNb(), "polygons have " << sum << " vertices, the mesh has " << m.verticesNb());

  // vertices are on the surface
  V3 lo{1e30, 1e30, 1e30}, hi{-1e30, -1e30, -1e30};
  std::vector<bool> used(np, false);
  for (size_t i = g.v0; i < m.verticesNb(); ++i) {
    CHECK(v[i * st] >= g.p0 && v[i * st] < np, "position index of vertex " << i);
    CHECK(v[i * st + 1] >= g.n0 && v[i * st + 1] < m.normalsNb(), "normal index of vertex " << i);
    used[v[i * st]] = true;
  }
  for (size_t i = g.p0; i < np; ++i) {
    V3 p = at(m.positions(), i);
    CHECK(used[i], "position " << i << " is not used");
    for (int k = 0; k < 3; ++k) {
      lo[k] = std::min(lo[k], (double)p[k]);
      hi[k] = std::max(hi[k], (double)p[k]);
    }
    if (r > 0) {
      double d = len(toCore(p, h));
      NEAR(d, r, tol, "vertex " << i << " (" << p[0] << ", " << p[1] << ", " << p[2] << ") is not on the surface");
    } else {
      for (int k = 0; k < 3; ++k) CHECK(std::fabs(p[k]) == h[k], "vertex " << i << " is not a corner of the box");
    }
  }
  for (int k = 0; k < 3; ++k) {
    NEAR(hi[k], h[k] + r, tol, "extent along axis " << k);
    NEAR(lo[k], -h[k] - r, tol, "extent along axis " << k);
  }
  // normals are unit and those of the surface
  for (size_t i = g.v0; i < m.verticesNb(); ++i) {
    V3 n = at(m.normals(), v[i * st + 1]), p = at(m.positions(), v[i * st]);
    NEAR(len(n), 1, 1e-5, "normal of vertex " << i);
    if (r > 0) {
      V3 d = toCore(p, h);
      NEAR(dotv(d, n), r, tol + 1e-5 * r, "the normal of vertex " << i << " is not the one of the surface");
    }
  }
  // every polygon is outward, the mesh is closed, convex, and close to the solid
  std::map<std::pair<size_t, size_t>, int> edges;
  double volume = 0;
  std::set<size_t> verts;
  size_t faces = 0, at0 = 0;
  // faces of the rounding are at most this angle wide
  double step = 1.5707963268 / (res + 1);
  double sag = r * (1 - std::pow(std::cos(step / 2), 2)) + 1e-3 * r * step;
  for (size_t f = 0; f < m.polygonsNb(); ++f) {
    size_t c = m.polygonVerticesCountAt(f);
    if (f < g.c0) {
      at0 += c;
      continue;
    }
    CHECK(c >= 3, "polygon " << f << " has " << c << " vertices");
    std::vector<size_t> ix;
    for (size_t k = 0; k < c; ++k) ix.push_back(v[(at0 + k) * st]);
    V3 nw{0, 0, 0}, ctr{0, 0, 0};
    V3 mean{0, 0, 0};
    size_t distinct = 0;
    for (size_t k = 0; k < c; ++k) {
      size_t a = ix[k], b = ix[(k + 1) % c];
      V3 pa = at(m.positions(), a), pb = at(m.positions(), b), na = at(m.normals(), v[(at0 + k) * st + 1]);
      V3 x = crossv(pa, pb);
      for (int q = 0; q < 3; ++q) {
        nw[q] += x[q] / 2;
        ctr[q] += pa[q] / c;
        mean[q] += na[q];
      }
      if (a != b) {
        ++edges[std::make_pair(a, b)];
        ++distinct;
      }
      verts.insert(a);
    }
    at0 += c;
    if (distinct >= 3) ++faces;
    double area = len(nw);
    // the area of the smallest faces is judged against the rounding
    for (size_t k = 1; k + 1 < c; ++k) {
      V3 a = at(m.positions(), ix[0]), b = at(m.positions(), ix[k]), d = at(m.positions(), ix[k + 1]);
      volume += dotv(a, crossv(b, d)) / 6;
    }
    double per = 0;
    for (size_t k = 0; k < c; ++k) {
      V3 a = at(m.positions(), ix[k]), b = at(m.positions(), ix[(k + 1) % c]);
      per += len(V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]});
    }
    if (area <= 2e-2 * per * per || area < 1e-3 * size * per) {
      // slivers: their orientation is judged with their edges only
    } else {
      for (int q = 0; q < 3; ++q) nw[q] /= area;
      for (size_t i = g.p0; i < np; ++i) {
        V3 p = at(m.positions(), i);
        V3 d{p[0] - ctr[0], p[1] - ctr[1], p[2] - ctr[2]};
        CHECK(dotv(d, nw) <= 1e-4 * size, "vertex " << i << " is " << dotv(d, nw) << " out of polygon " << f << ", which is not outward or not convex");
      }
      for (size_t k = 0; k < c; ++k) {
        V3 na = at(m.normals(), v[(at0 - c + k) * st + 1]);
        if (r == 0) NEAR(dotv(na, nw), 1, 1e-4, "normal of box face " << f);
        CHECK(dotv(na, nw) > 0, "normal of vertex " << k << " of polygon " << f << " is inward");
      }
    }
    if (r > 0) {
      double d = len(toCore(ctr, h));
      CHECK(d <= r + tol, "the centre of polygon " << f << " is out of the solid");
      CHECK(d >= r - sag - tol, "the centre of polygon " << f << " is " << r - d << " away from the surface, more than " << sag);
    }
  }
  size_t und = 0;
  for (auto &e : edges) {
    CHECK(e.second == 1, "edge " << e.first.first << " -> " << e.first.second << " is used " << e.second << " times in the same direction");
    CHECK(edges.count(std::make_pair(e.first.second, e.first.first)), "edge " << e.first.first << " -> " << e.first.second << " is open");
    if (e.first.first < e.first.second) ++und;
  }
  // one closed surface without hole
  long euler = (long)verts.size() - (long)und + (long)faces;
  CHECK(euler == 2, "V - E + F = " << euler);
  // volume between the solid's and the one of the solid shrunk by the sag
  auto vol = [&](double q) {
    const double pi = 3.14159265358979;
    return 8 * h[0] * h[1] * h[2] + 8 * q * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]) + 2 * pi * q * q * (h[0] + h[1] + h[2]) + 4. / 3 * pi * q * q * q;
  };
  double rnd = 2e-5 * size * size * size;
  CHECK(volume <= vol(r) + rnd, "volume " << volume << " exceeds " << vol(r));
  if (r == 0) CHECK(volume >= vol(0) - rnd, "volume " << volume << " instead of " << vol(0));
  else CHECK(volume >= vol(std::max(0., r - sag)) - rnd, "volume " << volume << " is below " << vol(std::max(0., r - sag)));
}
float ext(Src &s) {
  switch (s.weighted({3, 2, 1})) {
    case 0: return (float)(0.05 + s.unit() * 3);
    case 1: return s.pick({1.f, 0.5f, 2.f, 0.1f});
    default: return (float)(0.05 + s.unit() * 3) * s.pick({1.f, 10.f, 0.1f, 100.f, 1000.f, 0.01f, 1e-3f});
  }
}
Range rangeOf(const Mesh &m) {
  Range g;
  g.p0 = m.positionsNb();
  g.n0 = m.normalsNb();
  g.v0 = m.verticesNb();
  g.c0 = m.polygonsNb();
  return g;
}
template <class T>
void prefix(const std::vector<T> &a, const std::vector<T> &b, const char *what) {
  CHECK(b.size() >= a.size() && std::equal(a.begin(), a.end(), b.begin()), "the previous " << what << " changed");
}
void appended(const Mesh &a, const Mesh &b) {
  prefix(a.positions(), b.positions(), "positions");
  prefix(a.normals(), b.normals(), "normals");
  prefix(a.texCoords(), b.texCoords(), "texture coordinates");
  prefix(a.vertices(), b.vertices(), "vertices");
  prefix(a.polygonVerticesCounts(), b.polygonVerticesCounts(), "polygons");
}
void equal(const Mesh &a, const Mesh &b) {
  CHECK(a.positions() == b.positions() && a.normals() == b.normals() && a.vertices() == b.vertices() &&
            a.polygonVerticesCounts() == b.polygonVerticesCounts() && a.withTexCoords() == b.withTexCoords(),
        "create and add differ");
}
void genBase(Src &s, Mesh &m) {
  if (m.withTexCoords()) m.texCoord(0.25f, 0.5f);
  int k = (int)s.range(0, 2);
  for (int i = 0; i < k; ++i) {
    if (s.coin()) AL::addBoxMesh(ext(s), ext(s), ext(s), m);
    else AL::addRoundedBoxMesh(s.coin() ? 0.f : ext(s), 0.f, ext(s), ext(s), (int)s.range(0, 2), m);
  }
  int np = s.coin() ? 0 : (int)s.range(1, 9), nn = s.coin() ? 0 : (int)s.range(1, 9);
  while (np--) m.position(1, 2, 3);
  while (nn--) m.normal(0, 1, 0);
}
}  // namespace

PBT_FACET(box, 12000) {
  V3 h;
  float f[3];
  for (int i = 0; i < 3; ++i) h[i] = f[i] = ext(s);
  LOG("x", f[0]);
  LOG("y", f[1]);
  LOG("z", f[2]);
  Mesh c = AL::createBoxMesh(f[0], f[1], f[2]);
  check(c, Range(), h, 0, 0);
  Mesh m(s.coin());
  equal(c, AL::createRoundedBoxMesh(f[0], f[1], f[2], 0.f, (int)s.range(0, 5)));
  genBase(s, m);
  Mesh before = m;
  Range g = rangeOf(m);
  AL::addBoxMesh(f[0], f[1], f[2], m);
  appended(before, m);
  check(m, g, h, 0, 0);
  s.nontrivial(f[0] != f[1] && f[1] != f[2]);
}

PBT_FACET(rounded, 6000) {
  V3 h;
  float f[3];
  for (int i = 0; i < 3; ++i) {
    f[i] = ext(s);
    if (s.chance(1, 3)) f[i] = 0;
    h[i] = f[i];
  }
  float r = ext(s);
  int res = s.chance(1, 8) ? (int)s.range(5, 12) : (int)s.range(0, 5);
  LOG("x", f[0]);
  LOG("y", f[1]);
  LOG("z", f[2]);
  LOG("radius", r);
  LOG("vertices per arc", res);
  Mesh c = AL::createRoundedBoxMesh(f[0], f[1], f[2], r, res);
  check(c, Range(), h, r, res);
  Mesh m(s.coin());
  if (s.coin()) {
    Mesh e;
    AL::addRoundedBoxMesh(f[0], f[1], f[2], r, res, e);
    equal(c, e);
    genBase(s, m);
    Mesh before = m;
    Range g = rangeOf(m);
    AL::addRoundedBoxMesh(f[0], f[1], f[2], r, res, m);
    appended(before, m);
    check(m, g, h, r, res);
  }
  s.nontrivial(res > 0 && (f[0] > 0 || f[1] > 0 || f[2] > 0));
  if (f[0] == 0 && f[1] == 0 && f[2] == 0) s.label("sphere");
  else if (f[0] == 0 && f[1] == 0) s.label("pill");
  else if (f[2] == 0) s.label("rounded-rectangle");
  else s.label("rounded-box");
}

// boxes without thickness along some axes keep their six oriented faces
PBT_FACET(flat_box, 6000) {
  float f[3];
  int zeros = 0;
  for (float &x : f) {
    x = s.coin() ? 0.f : ext(s);
    zeros += x == 0;
  }
  LOG("x", f[0]);
  LOG("y", f[1]);
  LOG("z", f[2]);
  Mesh m(s.coin());
  genBase(s, m);
  Range g = rangeOf(m);
  if (s.coin()) AL::addBoxMesh(f[0], f[1], f[2], m);
  else AL::addRoundedBoxMesh(f[0], f[1], f[2], 0.f, 2, m);
  CHECK(m.polygonsNb() == g.c0 + 6 && m.verticesNb() == g.v0 + 24 && m.positionsNb() == g.p0 + 8, "size of the mesh");
  std::set<std::pair<int, int>> seen;
  std::map<std::pair<size_t, size_t>, int> edges;
  for (size_t i = 0; i < 6; ++i) {
    CHECK(m.polygonVerticesCountAt(g.c0 + i) == 4, "face " << i);
    V3 n = at(m.normals(), m.vertexPtrAt(g.v0 + 4 * i)[1]), area{0, 0, 0};
    int k = n[0] != 0 ? 0 : n[1] != 0 ? 1 : 2, sg = n[k] > 0 ? 1 : -1;
    CHECK(std::fabs(n[k]) == 1 && dotv(n, n) == 1, "normal of face " << i);
    CHECK(seen.insert({k, sg}).second, "two faces have the same normal");
    std::set<size_t> corners;
    for (size_t j = 0; j < 4; ++j) {
      const size_t *a = m.vertexPtrAt(g.v0 + 4 * i + j), *b = m.vertexPtrAt(g.v0 + 4 * i + (j + 1) % 4);
      V3 p = at(m.positions(), a[0]), q = at(m.positions(), b[0]), nj = at(m.normals(), a[1]);
      CHECK(nj[0] == n[0] && nj[1] == n[1] && nj[2] == n[2], "normals of face " << i);
      CHECK(p[k] == sg * f[k], "corner " << j << " of face " << i << " is not on its side");
      for (int c = 0; c < 3; ++c) CHECK(std::fabs(p[c]) == f[c], "corner " << j << " of face " << i);
      V3 x = crossv(p, q);
      for (int c = 0; c < 3; ++c) area[c] += x[c] / 2;
      corners.insert(a[0]);
      CHECK(++edges[std::make_pair(a[0], b[0])] == 1, "edge used twice in the same direction");
    }
    CHECK(corners.size() == 4, "face " << i << " has " << corners.size() << " corners");
    double e = 4. * f[(k + 1) % 3] * f[(k + 2) % 3], big = std::max(f[0], std::max(f[1], f[2]));
    NEAR(area[k], sg * e, 1e-6 * big * big, "oriented area of face " << i);
  }
  for (auto &e : edges) CHECK(edges.count(std::make_pair(e.first.second, e.first.first)), "the box is open");
  s.nontrivial(zeros > 0 && zeros < 3);
}
