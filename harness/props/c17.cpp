// C17: shapes report their dimensions and dispatch to the right visitor;
// pills and the centres of their spheres are mutually inverse.
#include "ref.h"
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
using namespace ref;

namespace {
enum Kind { SPHERE, PILL, ROUNDED, RECTANGLE, PLANE, HALFSPACE, HALFLINE, NKINDS };
struct Recorder : am::Shape3DVisitor {
  mutable std::vector<std::pair<int, const void *>> calls;
  mutable std::vector<float> dims;
  void visit(const am::Pill &p) const override {
    calls.push_back({PILL, &p});
    dims = {p.getHalfExtent(), p.getRadius()};
  }
  void visit(const am::Sphere &p) const override {
    calls.push_back({SPHERE, &p});
    dims = {p.getRadius()};
  }
  void visit(const am::RoundedRectangle &p) const override {
    calls.push_back({ROUNDED, &p});
    dims = {p.getHalfExtentX(), p.getHalfExtentY(), p.getRadius()};
  }
  void visit(const am::Plane &p) const override {
    calls.push_back({PLANE, &p});
    dims.clear();
  }
  void visit(const am::HalfSpace &p) const override {
    calls.push_back({HALFSPACE, &p});
    dims.clear();
  }
  void visit(const am::Rectangle &p) const override {
    calls.push_back({RECTANGLE, &p});
    dims = {p.getHalfExtentX(), p.getHalfExtentY()};
  }
  void visit(const am::HalfLine &p) const override {
    calls.push_back({HALFLINE, &p});
    dims.clear();
  }
};
// a visitor which only handles one kind
template <class Shape>
struct Only : am::NotImplementedShape3DVisitor {
  mutable int n = 0;
  Only(const std::string &msg) : am::NotImplementedShape3DVisitor(msg) {}
  using am::NotImplementedShape3DVisitor::visit;
  void visit(const Shape &) const override { ++n; }
};
template <class Shape>
void only(Src &s, const am::Shape3D &x, bool mine, const std::string &msg) {
  Only<Shape> v(msg);
  bool thrown = false;
  try {
    x.accept(v);
  } catch (const std::runtime_error &e) {
    thrown = true;
    CHECK(std::string(e.what()) == msg, "message " << e.what());
  }
  CHECK(thrown != mine && v.n == (mine ? 1 : 0), "visitor of one kind");
}
struct Item {
  int kind;
  std::vector<float> dims;
  std::unique_ptr<am::Shape3D> shape;
};
Item make(Src &s) {
  Item i;
  i.kind = (int)s.draw(NKINDS);
  static const int nd[] = {1, 2, 3, 2, 0, 0, 0};
  for (int k = 0; k < nd[i.kind]; ++k) i.dims.push_back(s.coin() ? s.real(0, 5) : (float)std::pow(10., s.real(-6, 6)));
  const std::vector<float> &d = i.dims;
  switch (i.kind) {
    case SPHERE: i.shape.reset(new am::Sphere(d[0])); break;
    case PILL: i.shape.reset(new am::Pill(d[0], d[1])); break;
    case ROUNDED: i.shape.reset(new am::RoundedRectangle(d[0], d[1], d[2])); break;
    case RECTANGLE: i.shape.reset(new am::Rectangle(d[0], d[1])); break;
    case PLANE: i.shape.reset(new am::Plane()); break;
    case HALFSPACE: i.shape.reset(new am::HalfSpace()); break;
    default: i.shape.reset(new am::HalfLine());
  }
  NOTE("shape of kind " << i.kind);
  LOG("dimensions", i.dims);
  return i;
}
}  // namespace

PBT_FACET(visits, 1500000) {
  std::vector<Item> v;
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n; ++i) v.push_back(make(s));
  Recorder r;
  size_t expected = 0;
  int visits = (int)s.range(1, 8);
  std::set<int> kinds;
  for (int i = 0; i < visits; ++i) {
    Item &it = v[s.draw(v.size())];
    kinds.insert(it.kind);
    it.shape->accept(r);
    ++expected;
    CHECK(r.calls.size() == expected, "one visit per accept");
    CHECK(r.calls.back().first == it.kind, "kind " << r.calls.back().first << " instead of " << it.kind);
    CHECK(r.calls.back().second == dynamic_cast<const void *>(it.shape.get()), "another shape is visited");
    CHECK(r.dims == it.dims, "dimensions");
  }
  std::string msg = s.coin() ? "not implemented" : "some message";
  Item &it = v[0];
  if (s.coin()) {
    am::NotImplementedShape3DVisitor d;
    std::string got;
    try {
      it.shape->accept(d);
    } catch (const std::runtime_error &e) {
      got = e.what();
    }
    CHECK(got == "not implemented", "default message: '" << got << "'");
  }
  only<am::Sphere>(s, *it.shape, it.kind == SPHERE, msg);
  only<am::Pill>(s, *it.shape, it.kind == PILL, msg);
  only<am::RoundedRectangle>(s, *it.shape, it.kind == ROUNDED, msg);
  only<am::Rectangle>(s, *it.shape, it.kind == RECTANGLE, msg);
  only<am::Plane>(s, *it.shape, it.kind == PLANE, msg);
  only<am::HalfSpace>(s, *it.shape, it.kind == HALFSPACE, msg);
  only<am::HalfLine>(s, *it.shape, it.kind == HALFLINE, msg);
  s.nontrivial(kinds.size() > 1);
}

PBT_FACET(pill_from_centres, 3000000) {
  double k = std::pow(10., (double)s.range(-2, 2));
  V3 a = k * genVec(s, 1), d = (k * std::pow(10., -(double)s.range(0, 3)) * (0.1 + s.unit())) * genDir(s);
  if (s.chance(1, 4)) {  // almost along an axis
    V3 e = (std::pow(10., -(double)s.range(1, 7)) * norm(d)) * genDir(s);
    d = d + e;
  } else if (s.chance(1, 6)) {  // along a coordinate axis but for tiny components
    a = V3();
    d = V3();
    int i = s.draw(3);
    for (int j = 0; j < 3; ++j)
      d[j] = j == i ? (s.coin() ? k : -k) : s.real(-1, 1) * std::pow(10., -(double)s.range(5, 38));
  }
  bool same = s.chance(1, 40);
  am::Position3D A = toP(a), B = same ? A : toP(a + d);
  a = P(A);
  V3 b = P(B);
  d = b - a;
  double l = norm(d), scale = norm(a) + norm(b);
  NOTE("A " << a << " B " << b);
  float h = -1;
  am::Transform t = am::Transform::fromPosition(1, 2, 3, 0.1f, 0.2f, 0.3f);
  try {
    am::computePillParameters(A, B, h, t);
  } catch (const std::exception &x) {
    CHECK(same || l < 1e-6, "refused: " << x.what());  // no direction
    s.label("same centres refused");
    return;
  }
  NOTE("half extent " << h << " frame " << toH(t));
  double e = 4 * EPS * scale;
  NEAR(h, l / 2, e + 4 * EPS * l, "half extent");
  NEARV(ref::T(t), 0.5 * (a + b), e, "centre");
  CHECK(orthoError(R(t)) < 2e-6, "frame " << R(t) << " is not a rotation");
  if (l > 100 * e && l > 1e-4) {
    NEARV(col(R(t), 2), unit(d), 2e-6 + 4 * e / l, "the z axis goes from A to B");
  }
  CHECK(t.r1_c1 == t.r1_c1, "NaN");
  if (same) s.label("same centres");
  // and back
  am::Position3D up, down;
  am::getSphereCentersFromPill(h, t, up, down);
  if (l > 1e-4 || same) {
    NEARV(P(up), b, 2 * e + 4e-6 * l, "upper sphere");
    NEARV(P(down), a, 2 * e + 4e-6 * l, "lower sphere");
  }
  s.nontrivial(!same && d.x != 0 && d.y != 0 && d.z != 0);
}

PBT_FACET(centres_from_pill, 3000000) {
  am::Transform t = genTransform(s, std::pow(10., (double)s.range(-1, 2)));
  float h = s.coin() ? s.real(0, 2) : (float)std::pow(10., s.real(-3, 2));
  H x = toH(t);
  NOTE("half extent " << h << " frame " << x);
  am::Position3D up, down;
  am::getSphereCentersFromPill(h, t, up, down);
  double e = 4 * EPS * (norm(x.t) + h);
  NEARV(P(up), x * V3(0, 0, h), e, "upper sphere");
  NEARV(P(down), x * V3(0, 0, -h), e, "lower sphere");
  s.nontrivial(h > 0 && !nearIdentity(x.r));
  // the same pill is found again, when it has an axis
  if (!(h > 1e-6) || h <= 100 * e) return;
  float h2;
  am::Transform t2;
  am::computePillParameters(down, up, h2, t2);
  NEAR(h2, h, 2 * e, "half extent");
  NEARV(ref::T(t2), x.t, 2 * e, "centre");
  if (h > 1e-4) NEARV(col(R(t2), 2), col(x.r, 2), 4e-6 + 4 * e / h, "axis");
}
