// C07: vector-like types follow componentwise vector arithmetic.
#include "ref.h"
using namespace ref;

namespace {
typedef std::vector<double> D;
// field access, written out by hand
D get(const am::Position2D &p) { return {p.x, p.y}; }
D get(const am::Position3D &p) { return {p.x, p.y, p.z}; }
D get(const am::Position6D &p) { return {p.x, p.y, p.z, p.wx, p.wy, p.wz}; }
D get(const am::Pose2D &p) { return {p.x, p.y, p.theta}; }
D get(const am::Velocity3D &p) { return {p.xd, p.yd, p.zd}; }
D get(const am::Velocity6D &p) { return {p.xd, p.yd, p.zd, p.wxd, p.wyd, p.wzd}; }
D get(const am::Rotation3D &p) { return {p.wx, p.wy, p.wz}; }
D get(const am::PositionAndVelocity &p) { return {p.q, p.dq}; }
void set(am::Position2D &p, const float *f) { p.x = f[0]; p.y = f[1]; }
void set(am::Position3D &p, const float *f) { p.x = f[0]; p.y = f[1]; p.z = f[2]; }
void set(am::Position6D &p, const float *f) {
  p.x = f[0]; p.y = f[1]; p.z = f[2]; p.wx = f[3]; p.wy = f[4]; p.wz = f[5];
}
void set(am::Pose2D &p, const float *f) { p.x = f[0]; p.y = f[1]; p.theta = f[2]; }
void set(am::Velocity3D &p, const float *f) { p.xd = f[0]; p.yd = f[1]; p.zd = f[2]; }
void set(am::Velocity6D &p, const float *f) {
  p.xd = f[0]; p.yd = f[1]; p.zd = f[2]; p.wxd = f[3]; p.wyd = f[4]; p.wzd = f[5];
}
void set(am::Rotation3D &p, const float *f) { p.wx = f[0]; p.wy = f[1]; p.wz = f[2]; }

template <class T> struct Tr;
#define TRAIT(T, n, name) \
  template <> struct Tr<am::T> { static const int N = n; static const char *nm() { return name; } };
TRAIT(Position2D, 2, "Position2D")
TRAIT(Position3D, 3, "Position3D")
TRAIT(Position6D, 6, "Position6D")
TRAIT(Pose2D, 3, "Pose2D")
TRAIT(Velocity3D, 3, "Velocity3D")
TRAIT(Velocity6D, 6, "Velocity6D")
TRAIT(Rotation3D, 3, "Rotation3D")

template <class T> T ctor(const float *f);
template <> am::Position2D ctor(const float *f) { return am::Position2D(f[0], f[1]); }
template <> am::Position3D ctor(const float *f) { return am::Position3D(f[0], f[1], f[2]); }
template <> am::Position6D ctor(const float *f) { return am::Position6D(f[0], f[1], f[2], f[3], f[4], f[5]); }
template <> am::Pose2D ctor(const float *f) { return am::Pose2D(f[0], f[1], f[2]); }
template <> am::Velocity3D ctor(const float *f) { return am::Velocity3D(f[0], f[1], f[2]); }
template <> am::Velocity6D ctor(const float *f) { return am::Velocity6D(f[0], f[1], f[2], f[3], f[4], f[5]); }
template <> am::Rotation3D ctor(const float *f) { return am::Rotation3D(f[0], f[1], f[2]); }

// detection of the optional operations
#define DETECT(name, expr)                                                           \
  template <class T> auto has_##name(int) -> decltype(expr, std::true_type()); \
  template <class T> std::false_type has_##name(...);                                \
  template <class T> struct Has_##name : decltype(has_##name<T>(0)) {};
DETECT(plusEq, std::declval<T &>() += std::declval<T>())
DETECT(minusEq, std::declval<T &>() -= std::declval<T>())
DETECT(neg, -std::declval<T>())
DETECT(pos, +std::declval<T>())
DETECT(lscale, 2.f * std::declval<T>())
DETECT(write, std::declval<T>().writeToVector(std::declval<std::vector<float>::iterator &>()))
DETECT(normM, std::declval<T>().norm())
DETECT(normF, am::norm(std::declval<T>()))
DETECT(normalizeM, std::declval<T>().normalize())
DETECT(normalizeF, am::normalize(std::declval<T>()))

float comp(Src &s, double scale) {
  float f = s.real(-1, 1);
  return (float)(f * scale);
}
void same(const D &a, const D &b, double rel, const char *what, const char *type) {
  CHECK(a.size() == b.size(), what << " " << type);
  for (size_t i = 0; i < a.size(); ++i)
    NEAR(a[i], b[i], rel * std::fabs(b[i]) + 1e-40, what << ", component " << i << " of " << type);
}
double nrm(const D &a) {
  double r = 0;
  for (double x : a) r += x * x;
  return std::sqrt(r);
}
std::string txt(const D &a) {
  std::ostringstream o;
  for (double x : a) o << std::setprecision(9) << x << " ";
  return o.str();
}

// constructed over memory which is not zero
template <class T, class... A> __attribute__((noinline)) T dirty(const A &... a) {
  alignas(16) unsigned char buf[sizeof(T) + 16];
  memset(buf, 0x41, sizeof buf);
  asm volatile("" : : "r"(buf) : "memory");
  T *p = new (buf) T(a...);
  asm volatile("" : : "r"(p) : "memory");
  return *p;
}

template <class T> void ops(Src &s) {
  const int N = Tr<T>::N;
  const char *nm = Tr<T>::nm();
  double scale = s.pick<double>({1., 100., 1e-3, 1e5});
  float fa[6], fb[6];
  for (int i = 0; i < N; ++i) fa[i] = comp(s, scale);
  for (int i = 0; i < N; ++i) fb[i] = s.chance(1, 6) ? fa[i] : comp(s, scale);
  T a, b;
  {
    D z = get(a);
    for (double x : z) CHECK(x == 0, "default " << nm);
    CHECK(get(dirty<T>()) == z, "default " << nm << " over used memory");
  }
  set(a, fa);
  set(b, fb);
  D A = get(a), B = get(b), E(N);
  NOTE(nm << " a = " << txt(A) << " b = " << txt(B));
  CHECK(get(ctor<T>(fa)) == A, "constructor from components of " << nm);
  CHECK(get(T(fa[0])) == D(N, fa[0]), "constructor from one value of " << nm);

  // addition and subtraction: one float rounding each
  for (int i = 0; i < N; ++i) E[i] = A[i] + B[i];
  same(get(a + b), E, 1e-7, "a + b", nm);
  same(get(b + a), E, 1e-7, "b + a", nm);
  if constexpr (Has_plusEq<T>::value) {
    T c = a;
    T *r = &(c += b);
    CHECK(r == &c, "+= returns its operand");
    same(get(c), E, 1e-7, "a += b", nm);
    c = a;
    c += c;
    for (int i = 0; i < N; ++i) E[i] = 2 * A[i];
    same(get(c), E, 1e-7, "a += a", nm);
  }
  for (int i = 0; i < N; ++i) E[i] = A[i] - B[i];
  same(get(a - b), E, 1e-7, "a - b", nm);
  if constexpr (Has_minusEq<T>::value) {
    T c = a;
    T *r = &(c -= b);
    CHECK(r == &c, "-= returns its operand");
    same(get(c), E, 1e-7, "a -= b", nm);
    c -= c;
    same(get(c), D(N, 0.), 0, "a -= a", nm);
  }
  if constexpr (Has_neg<T>::value) {
    for (int i = 0; i < N; ++i) E[i] = -A[i];
    same(get(-a), E, 0, "-a", nm);
  }
  if constexpr (Has_pos<T>::value) same(get(+a), A, 0, "+a", nm);

  // scaling
  float k = s.real(-1000, 1000);
  LOG("k", k);
  for (int i = 0; i < N; ++i) E[i] = A[i] * k;
  same(get(a * k), E, 1e-7, "a * k", nm);
  if constexpr (Has_lscale<T>::value) same(get(k * a), E, 1e-7, "k * a", nm);
  {
    T c = a;
    T *r = &(c *= k);
    CHECK(r == &c, "*= returns its operand");
    same(get(c), E, 1e-7, "a *= k", nm);
  }
  if (k != 0) {
    for (int i = 0; i < N; ++i) E[i] = A[i] / k;
    same(get(a / k), E, 3e-7, "a / k", nm);
    T c = a;
    T *r = &(c /= k);
    CHECK(r == &c, "/= returns its operand");
    same(get(c), E, 3e-7, "a /= k", nm);
  }
  {
    T c = a;
    const float z = s.coin() ? 0.f : -0.f;
    THROWS(c / z, "division of " << nm << " by zero");
    THROWS(c /= z, "in place division of " << nm << " by zero");
    CHECK(get(c) == A, nm << " changed by a refused division: " << txt(get(c)));
  }
  CHECK(get(a) == A && get(b) == B, "operands changed");

  // norm
  bool planar = std::is_same<T, am::Pose2D>::value;  // norm of the translation
  double n = planar ? std::hypot(A[0], A[1]) : nrm(A);
  double tn = 5e-7 * n + 1e-18;
  if constexpr (Has_normM<T>::value) NEAR(a.norm(), n, tn, "norm of " << nm);
  if constexpr (Has_normF<T>::value) NEAR(am::norm(a), n, tn, "norm of " << nm);
  if (!planar && n > 1e-12) {
    for (int i = 0; i < N; ++i) E[i] = A[i] / n;
    if constexpr (Has_normalizeM<T>::value) {
      D g = get(a.normalize());
      for (int i = 0; i < N; ++i) NEAR(g[i], E[i], 1e-6 * std::fabs(E[i]) + 1e-9, "normalised " << nm);
    }
    if constexpr (Has_normalizeF<T>::value) {
      D g = get(am::normalize(a));
      for (int i = 0; i < N; ++i) NEAR(g[i], E[i], 1e-6 * std::fabs(E[i]) + 1e-9, "normalised " << nm);
    }
  }
  {
    T z;
    if constexpr (Has_normalizeM<T>::value) THROWS(z.normalize(), "null " << nm);
    if constexpr (Has_normalizeF<T>::value) THROWS(am::normalize(z), "null " << nm);
    CHECK(get(z) == D(N, 0.), nm << " changed by a refused normalisation");
  }

  // flat vectors
  std::vector<float> v(s.draw(8), 9.f), w = a.toVector();
  a.toVector(v);
  CHECK(v == std::vector<float>(fa, fa + N) && w == v, "toVector of " << nm);
  CHECK(get(T(v)) == A, "vector constructor of " << nm);
  if constexpr (Has_write<T>::value) {
    size_t off = s.draw(3);
    std::vector<float> u(off + N + 2, -7.f);
    std::vector<float>::iterator it = u.begin() + off;
    a.writeToVector(it);
    CHECK(it == u.begin() + off + N, "writeToVector advances by " << N);
    for (size_t i = 0; i < u.size(); ++i)
      CHECK(u[i] == (i >= off && i < off + N ? fa[i - off] : -7.f), "writeToVector of " << nm << " at " << i);
  }
  {
    size_t size = s.draw(20);
    if (size != (size_t)N) {
      pbt::Quiet q;
      CHECK(get(dirty<T>(std::vector<float>(size, 3.f))) == D(N, 0.), nm << " from a vector of size " << size);
    }
  }

  // equality and nearness
  bool eq = A == B;
  CHECK((a == b) == eq, "== of " << nm);
  CHECK((a != b) == !eq, "!= of " << nm);
  CHECK(a == a && !(a != a), "reflexivity");
  int pos = s.draw(N);
  float eps = s.pick<float>({1e-4f, 1e-3f, 0.5f, 2.f}), delta = (float)(eps * s.pick<double>({0., .5, .9, 1.1, 2., 10.})) * (s.coin() ? 1 : -1);
  float fc[6];
  bool exact = false;
  std::copy(fa, fa + N, fc);
  if (s.chance(1, 8)) {  // a difference of exactly eps
    fc[pos] = (float)s.range(-3, 3);
    eps = s.pick<float>({0.25f, 0.5f, 2.f});
    delta = s.coin() ? eps : -eps;
    fa[pos] = fc[pos];
    set(a, fa);
    A = get(a);
    exact = true;
  }
  fc[pos] += delta;
  T c;
  set(c, fc);
  D C = get(c);
  double d = std::fabs(C[pos] - A[pos]), margin = 1e-7 * d + 1e-30;
  NOTE("c differs at " << pos << " by " << C[pos] - A[pos] << " eps " << eps);
  CHECK((a == c) == (A == C), "== with a single difference at " << pos << " of " << nm);
  CHECK((a != c) == (A != C), "!= with a single difference at " << pos << " of " << nm);
  if (exact || std::fabs(d - eps) > margin) {
    CHECK(a.isNear(c, eps) == (d <= eps), "isNear of " << nm << ", component " << pos);
    CHECK(c.isNear(a, eps) == (d <= eps), "isNear of " << nm << ", component " << pos);
  }
  if (std::fabs(d - (double)0.0001f) > margin)
    CHECK(a.isNear(c) == (d <= (double)0.0001f), "isNear of " << nm << " with its default");
  int nz = 0;
  for (double x : A) nz += x != 0;
  s.nontrivial(nz >= 2 && A != B && k != 0 && k != 1);
}
}  // namespace

PBT_FACET(position2d, 250000) { ops<am::Position2D>(s); }
PBT_FACET(position3d, 250000) { ops<am::Position3D>(s); }
PBT_FACET(position6d, 250000) { ops<am::Position6D>(s); }
PBT_FACET(pose2d, 250000) { ops<am::Pose2D>(s); }
PBT_FACET(velocity3d, 250000) { ops<am::Velocity3D>(s); }
PBT_FACET(velocity6d, 250000) { ops<am::Velocity6D>(s); }
PBT_FACET(rotation3d, 250000) { ops<am::Rotation3D>(s); }

// products and distances of positions
PBT_FACET(products, 400000) {
  double scale = genScale(s);
  V3 a = genVec(s, scale), b = genVec(s, scale);
  if (s.chance(1, 5)) b = s.real(-3, 3) * a;  // nearly parallel
  am::Position3D p = toP(a), q = toP(b);
  a = P(p);
  b = P(q);
  NOTE("a " << a << " b " << b);
  double ab = norm(a) * norm(b);
  NEAR(p.dotProduct(q), dot(a, b), 3e-7 * ab + 1e-35, "dot product");
  NEAR(am::dotProduct(p, q), dot(a, b), 3e-7 * ab + 1e-35, "dot product");
  NEARV(P(p.crossProduct(q)), cross(a, b), 3e-7 * ab + 1e-35, "cross product");
  NEARV(P(am::crossProduct(p, q)), cross(a, b), 3e-7 * ab + 1e-35, "cross product");
  am::Position3D c(1, 2, 3);
  am::crossProduct(p, q, c);
  NEARV(P(c), cross(a, b), 3e-7 * ab + 1e-35, "cross product");
  double d = norm(a - b), td = 1e-7 * (norm(a) + norm(b)) + 5e-7 * d + 1e-20;
  double d2 = d * d, td2 = 2 * d * td + 1e-6 * d2 + 1e-35;
  NEAR(p.distance(q), d, td, "distance");
  NEAR(am::distance(p, q), d, td, "distance");
  NEAR(p.distanceSquared(q), d2, td2, "squared distance");
  NEAR(am::distanceSquared(p, q), d2, td2, "squared distance");
  CHECK(p.distance(p) == 0 && p.distance(q) == q.distance(p), "distance");
  // six-component poses: the distance is that of their positions
  am::Position6D p6(p.x, p.y, p.z, s.real(-3, 3), s.real(-3, 3), s.real(-3, 3));
  am::Position6D q6(q.x, q.y, q.z, s.real(-3, 3), s.real(-3, 3), s.real(-3, 3));
  NEAR(p6.distance(q6), d, td, "distance of Position6D");
  NEAR(am::distance(p6, q6), d, td, "distance of Position6D");
  NEAR(p6.distanceSquared(q6), d2, td2, "squared distance of Position6D");
  NEAR(am::distanceSquared(p6, q6), d2, td2, "squared distance of Position6D");
  // unit and orthogonal tests
  float eps = s.pick<float>({1e-4f, 1e-3f, 0.1f});
  V3 u = (1 + eps * s.pick<double>({0., .5, .8, 1.2, 5., -.5, -.8, -1.2, -5.})) * genDir(s);
  am::Position3D up = toP(u);
  u = P(up);
  NOTE("u " << u << " eps " << eps);
  double e = std::fabs(1 - norm(u));
  if (std::fabs(e - eps) > 3e-7) {
    CHECK(up.isUnitVector(eps) == (e <= eps), "unit vector");
    CHECK(am::isUnitVector(up, eps) == (e <= eps), "unit vector");
  }
  if (std::fabs(e - 1e-4) > 3e-7) CHECK(up.isUnitVector() == (e <= 1e-4) && am::isUnitVector(up) == (e <= 1e-4), "unit vector, default");
  V3 w = genDir(s);
  w = w - dot(w, u) / dot(u, u) * u;
  w = w + eps * s.pick<double>({0., .5, .8, 1.2, 5., -.5, -.8, -1.2}) * u;
  am::Position3D wp = toP(w);
  w = P(wp);
  double o = std::fabs(dot(u, w)), to = 3e-7 * norm(u) * norm(w) + 1e-12;
  if (std::fabs(o - eps) > to) {
    CHECK(up.isOrthogonal(wp, eps) == (o <= eps), "orthogonality");
    CHECK(am::isOrthogonal(up, wp, eps) == (o <= eps), "orthogonality");
  }
  if (std::fabs(o - 1e-4) > to) CHECK(up.isOrthogonal(wp) == (o <= 1e-4) && am::isOrthogonal(up, wp) == (o <= 1e-4), "orthogonality, default");
  s.nontrivial(norm(cross(a, b)) > 0 && dot(a, b) != 0);
}

PBT_FACET(others, 300000) {
  // pairs of a position and a velocity
  float q = s.real(-100, 100), dq = s.real(-100, 100);
  am::PositionAndVelocity a(q, dq);
  CHECK(a.q == q && a.dq == dq, "PositionAndVelocity");
  CHECK(a.toVector() == (std::vector<float>{q, dq}), "PositionAndVelocity vector");
  std::vector<float> w(s.draw(4), 9.f);
  a.toVector(w);
  CHECK(w == a.toVector(), "PositionAndVelocity vector, in place");
  float eps = s.pick<float>({1e-4f, 1e-3f, .5f});
  double f = s.pick<double>({0., .5, .9, 1.1, 2., 20.});
  bool first = s.coin();
  am::PositionAndVelocity b(first ? (float)(q + f * eps) : q, first ? dq : (float)(dq - f * eps));
  NOTE("q " << q << " dq " << dq << " against " << b.q << " " << b.dq << " eps " << eps);
  double d = std::max(std::fabs((double)b.q - q), std::fabs((double)b.dq - dq));
  if (std::fabs(d - eps) > 1e-7 * d) CHECK(a.isNear(b, eps) == (d <= eps), "PositionAndVelocity nearness");
  if (std::fabs(d - 1e-4) > 1e-7 * d + 1e-10) CHECK(a.isNear(b) == (d <= 1e-4), "PositionAndVelocity nearness, default");
  // transform and velocity
  am::Transform t = genTransform(s, genScale(s)), t2 = t;
  am::Velocity6D v(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1), s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)), v2 = v;
  int which = s.draw(3);
  float *fields[6] = {&v2.xd, &v2.yd, &v2.zd, &v2.wxd, &v2.wyd, &v2.wzd};
  float *tf[4] = {&t2.r1_c1, &t2.r2_c3, &t2.r3_c4, &t2.r1_c4};
  float *target = which == 0 ? nullptr : which == 1 ? fields[s.draw(6)] : tf[s.draw(4)];
  double delta = 0;
  if (target) {
    float before = *target;
    *target += (float)(f * eps);
    delta = std::fabs((double)*target - before);
  }
  am::TransformAndVelocity6D x(t, v), y(t2, v2);
  CHECK(x.T == t && x.V == v, "TransformAndVelocity6D");
  if (std::fabs(delta - eps) > 1e-6 * delta)
    CHECK(x.isNear(y, eps) == (delta <= eps), "TransformAndVelocity6D nearness, difference " << delta << " eps " << eps);
  if (std::fabs(delta - 1e-4) > 1e-6 * delta)
    CHECK(x.isNear(y) == (delta <= 1e-4), "TransformAndVelocity6D nearness, default, difference " << delta);
  CHECK(get(am::PositionAndVelocity()) == D(2, 0.) && get(am::PositionAndVelocity(q)) == (D{q, 0.}), "default PositionAndVelocity");
  am::TransformAndVelocity6D z;
  CHECK(z.T == am::Transform() && z.V == am::Velocity6D(), "default");
  // masks
  int m = (int)s.range(-70, 140);
  LOG("mask", m);
  CHECK(am::isAxisMask(m) == (m >= 1 && m <= 63), "mask " << m);
  int big = (int)s.draw(1ull << 32);
  CHECK(am::isAxisMask(big) == (big >= 1 && big <= 63), "mask " << big);
  CHECK((am::AXIS_MASK_X | am::AXIS_MASK_Y | am::AXIS_MASK_Z) == am::AXIS_MASK_VEL, "masks");
  CHECK((am::AXIS_MASK_WX | am::AXIS_MASK_WY | am::AXIS_MASK_WZ) == am::AXIS_MASK_ROT, "masks");
  CHECK((am::AXIS_MASK_VEL | am::AXIS_MASK_ROT) == am::AXIS_MASK_ALL && (am::AXIS_MASK_VEL & am::AXIS_MASK_ROT) == am::AXIS_MASK_NONE, "masks");
  CHECK((am::AXIS_MASK_X | am::AXIS_MASK_Y) == am::AXIS_MASK_XY && (am::AXIS_MASK_WY | am::AXIS_MASK_WZ) == am::AXIS_MASK_WYWZ, "masks");
  CHECK((am::AXIS_MASK_Z | am::AXIS_MASK_WX | am::AXIS_MASK_WY) == am::AXIS_MASK_PLANEZ, "masks");
  // other types built from a vector of a wrong size
  size_t size = s.draw(20);
  std::vector<float> u(size, .25f);
  pbt::Quiet quiet;
  if (size != 12 && size != 16) {
    CHECK(dirty<am::Transform>(u) == am::Transform(), "transform from " << size << " values");
    CHECK(am::determinant(u) == 0, "determinant of " << size << " values");
    if (size != 9) CHECK(dirty<am::Rotation>(u) == am::Rotation(), "rotation from " << size << " values");
  }
  if (size != 4) CHECK(dirty<am::Quaternion>(u) == am::Quaternion(0, 0, 0, 0), "quaternion from " << size << " values");
  s.nontrivial(f != 0 && q != 0);
}
