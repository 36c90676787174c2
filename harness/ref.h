// Reference rigid-motion algebra in double precision, generators of rotations
// and poses, and conversions from the library's types.
#pragma once
#include "pbt.h"
#include <almath/types/alaxismask.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpose2d.h>
#include <almath/types/alposition2d.h>
#include <almath/types/alposition3d.h>
#include <almath/types/alposition6d.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/alquaternion.h>
#include <almath/types/alrotation.h>
#include <almath/types/alrotation3d.h>
#include <almath/types/altransform.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/alvelocity3d.h>
#include <almath/types/alvelocity6d.h>
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>

namespace ref {
using pbt::Src;
namespace am = AL::Math;

static const double PI = 3.14159265358979323846;
static const double EPS = 5.9604644775390625e-08;  // float unit roundoff
// 1 / epsilon of float, squared norms...

struct V3 {
  double x = 0, y = 0, z = 0;
  V3() {}
  V3(double a, double b, double c) : x(a), y(b), z(c) {}
  double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
  double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator-(V3 a) { return V3(-a.x, -a.y, -a.z); }
inline V3 operator*(double k, V3 a) { return V3(k * a.x, k * a.y, k * a.z); }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
}
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return (1. / norm(a)) * a; }

struct M3 {
  double m[3][3];
  M3() {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) m[i][j] = i == j;
  }
};
inline M3 operator*(const M3 &a, const M3 &b) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      r.m[i][j] = 0;
      for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
    }
  return r;
}
inline V3 operator*(const M3 &a, V3 v) {
  V3 r;
  for (int i = 0; i < 3; ++i)
    r[i] = a.m[i][0] * v.x + a.m[i][1] * v.y + a.m[i][2] * v.z;
  return r;
}
inline M3 operator+(const M3 &a, const M3 &b) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j];
  return r;
}
inline M3 operator*(double k, const M3 &a) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = k * a.m[i][j];
  return r;
}
inline M3 tr(const M3 &a) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
  return r;
}
inline M3 zeroM() { return 0. * M3(); }
inline double det(const M3 &a) {
  return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) -
         a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) +
         a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
}
inline double maxdiff(const M3 &a, const M3 &b) {
  double r = 0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double d = std::fabs(a.m[i][j] - b.m[i][j]);
      if (!(d <= r)) r = d;  // NaN sticks
    }
  return r;
}
inline double maxdiff(V3 a, V3 b) {
  double r = 0;
  for (int i = 0; i < 3; ++i) {
    double d = std::fabs(a[i] - b[i]);
    if (!(d <= r)) r = d;
  }
  return r;
}
inline V3 col(const M3 &a, int j) { return V3(a.m[0][j], a.m[1][j], a.m[2][j]); }
inline M3 fromCols(V3 a, V3 b, V3 c) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    r.m[i][0] = a[i];
    r.m[i][1] = b[i];
    r.m[i][2] = c[i];
  }
  return r;
}
inline M3 skew(V3 w) {
  M3 r = zeroM();
  r.m[0][1] = -w.z;
  r.m[0][2] = w.y;
  r.m[1][0] = w.z;
  r.m[1][2] = -w.x;
  r.m[2][0] = -w.y;
  r.m[2][1] = w.x;
  return r;
}
inline double orthoError(const M3 &a) {
  double e = std::fabs(det(a) - 1);
  double d = maxdiff(tr(a) * a, M3());
  return (d > e || d != d) ? d : e;
}

// quaternion w, x, y, z
struct Q {
  double w = 1, x = 0, y = 0, z = 0;
  Q() {}
  Q(double a, double b, double c, double d) : w(a), x(b), y(c), z(d) {}
};
inline Q operator*(Q a, Q b) {
  return Q(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
           a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
           a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
           a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w);
}
inline double norm(Q q) {
  return std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
}
inline M3 rot(Q q) {
  double n = norm(q);
  q = Q(q.w / n, q.x / n, q.y / n, q.z / n);
  M3 r;
  r.m[0][0] = 1 - 2 * (q.y * q.y + q.z * q.z);
  r.m[0][1] = 2 * (q.x * q.y - q.z * q.w);
  r.m[0][2] = 2 * (q.x * q.z + q.y * q.w);
  r.m[1][0] = 2 * (q.x * q.y + q.z * q.w);
  r.m[1][1] = 1 - 2 * (q.x * q.x + q.z * q.z);
  r.m[1][2] = 2 * (q.y * q.z - q.x * q.w);
  r.m[2][0] = 2 * (q.x * q.z - q.y * q.w);
  r.m[2][1] = 2 * (q.y * q.z + q.x * q.w);
  r.m[2][2] = 1 - 2 * (q.x * q.x + q.y * q.y);
  return r;
}
// rotation of angle |w| about w
inline M3 rotvec(V3 w) {
  double t = norm(w);
  double a, b;  // R = I + a [w] + b [w]^2
  if (t < 1e-4) {
    a = 1 - t * t / 6;
    b = 0.5 - t * t / 24;
  } else {
    a = std::sin(t) / t;
    double h = std::sin(t / 2);
    b = 2 * h * h / (t * t);
  }
  M3 k = skew(w);
  return M3() + a * k + b * (k * k);
}
inline M3 rotAxis(V3 axis, double angle) { return rotvec(angle * unit(axis)); }
inline M3 rotX(double a) { return rotvec(V3(a, 0, 0)); }
inline M3 rotY(double a) { return rotvec(V3(0, a, 0)); }
inline M3 rotZ(double a) { return rotvec(V3(0, 0, a)); }
inline M3 rotZYX(double wx, double wy, double wz) {
  return rotZ(wz) * rotY(wy) * rotX(wx);
}
// angle of a rotation, in [0, pi], accurate everywhere
inline double angleOf(const M3 &r) {
  V3 v(r.m[2][1] - r.m[1][2], r.m[0][2] - r.m[2][0], r.m[1][0] - r.m[0][1]);
  double s = norm(v) / 2;
  double c = (r.m[0][0] + r.m[1][1] + r.m[2][2] - 1) / 2;
  return std::atan2(s, c);
}
// rotation vector; for angles clearly below pi
inline V3 logRot(const M3 &r) {
  V3 v(r.m[2][1] - r.m[1][2], r.m[0][2] - r.m[2][0], r.m[1][0] - r.m[0][1]);
  double s = norm(v) / 2;
  double t = angleOf(r);
  if (t < 1e-8) return 0.5 * v;
  return (t / (2 * s)) * v;
}
inline double angleBetween(const M3 &a, const M3 &b) { return angleOf(tr(a) * b); }

struct H {  // rigid motion
  M3 r;
  V3 t;
};
inline H operator*(const H &a, const H &b) {
  H c;
  c.r = a.r * b.r;
  c.t = a.r * b.t + a.t;
  return c;
}
inline V3 operator*(const H &a, V3 p) { return a.r * p + a.t; }
inline H inv(const H &a) {
  H c;
  c.r = tr(a.r);
  c.t = -(c.r * a.t);
  return c;
}
inline H mk(const M3 &r, V3 t) {
  H h;
  h.r = r;
  h.t = t;
  return h;
}
// V matrix of the SE(3) exponential
inline M3 leftJacobian(V3 w) {
  double t = norm(w);
  double b, c;
  if (t < 1e-3) {
    b = 0.5 - t * t / 24;
    c = 1. / 6 - t * t / 120;
  } else {
    double h = std::sin(t / 2);
    b = 2 * h * h / (t * t);
    c = (t - std::sin(t)) / (t * t * t);
  }
  M3 k = skew(w);
  return M3() + b * k + c * (k * k);
}
inline H expSE3(V3 v, V3 w) { return mk(rotvec(w), leftJacobian(w) * v); }
inline M3 inverse3(const M3 &a) {
  M3 r;
  double d = det(a);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      int i1 = (j + 1) % 3, i2 = (j + 2) % 3, j1 = (i + 1) % 3, j2 = (i + 2) % 3;
      r.m[i][j] = (a.m[i1][j1] * a.m[i2][j2] - a.m[i1][j2] * a.m[i2][j1]) / d;
    }
  return r;
}
inline void logSE3(const H &h, V3 &v, V3 &w) {
  w = logRot(h.r);
  v = inverse3(leftJacobian(w)) * h.t;
}

// ---- conversions from/to the library's types (field by field, no library code)
inline M3 R(const am::Transform &t) {
  M3 r;
  const float f[9] = {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2,
                      t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3};
  for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] = f[i];
  return r;
}
inline M3 R(const am::Rotation &t) {
  M3 r;
  const float f[9] = {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2,
                      t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3};
  for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] = f[i];
  return r;
}
inline V3 T(const am::Transform &t) { return V3(t.r1_c4, t.r2_c4, t.r3_c4); }
inline V3 P(const am::Position3D &p) { return V3(p.x, p.y, p.z); }
inline H toH(const am::Transform &t) { return mk(R(t), T(t)); }
inline Q toQ(const am::Quaternion &q) { return Q(q.w, q.x, q.y, q.z); }
inline am::Transform toT(const H &h) {
  am::Transform t;
  t.r1_c1 = h.r.m[0][0];
  t.r1_c2 = h.r.m[0][1];
  t.r1_c3 = h.r.m[0][2];
  t.r2_c1 = h.r.m[1][0];
  t.r2_c2 = h.r.m[1][1];
  t.r2_c3 = h.r.m[1][2];
  t.r3_c1 = h.r.m[2][0];
  t.r3_c2 = h.r.m[2][1];
  t.r3_c3 = h.r.m[2][2];
  t.r1_c4 = h.t.x;
  t.r2_c4 = h.t.y;
  t.r3_c4 = h.t.z;
  return t;
}
inline am::Rotation toR(const M3 &m) {
  am::Rotation t;
  t.r1_c1 = m.m[0][0];
  t.r1_c2 = m.m[0][1];
  t.r1_c3 = m.m[0][2];
  t.r2_c1 = m.m[1][0];
  t.r2_c2 = m.m[1][1];
  t.r2_c3 = m.m[1][2];
  t.r3_c1 = m.m[2][0];
  t.r3_c2 = m.m[2][1];
  t.r3_c3 = m.m[2][2];
  return t;
}
inline am::Position3D toP(V3 v) {
  return am::Position3D((float)v.x, (float)v.y, (float)v.z);
}

// ---- generators
inline V3 genDir(Src &s) {  // unit vector, axis aligned ones included
  switch (s.draw(6)) {
    case 0:
      return V3(1, 0, 0);
    case 1:
      return V3(0, 1, 0);
    case 2:
      return V3(0, 0, 1);
    case 3: {
      V3 v((double)s.range(0, 2) - 1, (double)s.range(0, 2) - 1,
           (double)s.range(0, 2) - 1);
      return norm(v) == 0 ? V3(1, 0, 0) : unit(v);
    }
    default: {
      double z = 2 * s.unit() - 1, a = 2 * PI * s.unit();
      double k = std::sqrt(std::max(0., 1 - z * z));
      return V3(k * std::cos(a), k * std::sin(a), z);
    }
  }
}
// an angle in [-m, m], with degenerate strata
inline double genAngle(Src &s, double m = PI) {
  double a = 0;
  switch (s.draw(6)) {
    case 0:
      a = 0;
      break;
    case 1:
      a = PI / 4 * (double)s.range(-4, 4);
      break;
    case 2:
      a = PI / 4 * (double)s.range(-4, 4) +
          std::pow(10., -(double)s.range(1, 9)) * (s.coin() ? 1 : -1);
      break;
    case 3:
      a = std::pow(10., -(double)s.range(1, 9)) * (s.coin() ? 1 : -1);
      break;
    default:
      a = m * (2 * s.unit() - 1);
      break;
  }
  return std::max(-m, std::min(m, a));
}
inline M3 genRot(Src &s) {
  switch (s.draw(6)) {
    case 0:
      return M3();
    case 1: {
      double a = genAngle(s);
      int k = s.draw(3);
      return k == 0 ? rotX(a) : k == 1 ? rotY(a) : rotZ(a);
    }
    case 2: {  // gimbal lock strata
      double a = genAngle(s), b = (s.coin() ? 1 : -1) * PI / 2, c = genAngle(s);
      if (s.coin()) b += std::pow(10., -(double)s.range(1, 9)) * (s.coin() ? 1 : -1);
      return rotZYX(a, b, c);
    }
    case 3:
      return rotAxis(genDir(s), genAngle(s));
    default: {
      double u1 = s.unit(), u2 = 2 * PI * s.unit(), u3 = 2 * PI * s.unit();
      return rot(Q(std::sqrt(u1) * std::cos(u3), std::sqrt(1 - u1) * std::sin(u2),
                   std::sqrt(1 - u1) * std::cos(u2), std::sqrt(u1) * std::sin(u3)));
    }
  }
}
// order of magnitude of lengths
inline double genScale(Src &s) { return s.pick<double>({10., 1., 100., 1e-3, 1e3, 1e5}); }
// angles of any number of turns
inline double genTurns(Src &s) {
  double a = genAngle(s, 2 * PI);
  switch (s.draw(6)) {
    case 0: return a + 2 * PI * (double)s.range(-20, 20);
    case 1: return s.real(-1000, 1000);
    default: return a;
  }
}
inline V3 genVec(Src &s, double m) {
  double x = s.real(-m, m), y = s.real(-m, m), z = s.real(-m, m);
  return V3(x, y, z);
}
inline H genH(Src &s, double m) {
  M3 r = genRot(s);
  return mk(r, genVec(s, m));
}
inline am::Transform genTransform(Src &s, double m) { return toT(genH(s, m)); }

inline Q genQ(Src &s) {
  switch (s.draw(4)) {
    case 0: {
      Q q((double)s.range(0, 1), (double)s.range(0, 1), (double)s.range(0, 1),
          (double)s.range(0, 1));
      if (norm(q) == 0) q.w = 1;
      double n = norm(q);
      return Q(q.w / n, q.x / n, q.y / n, q.z / n);
    }
    case 1: {
      V3 d = genDir(s);
      double a = genAngle(s) / 2;
      return Q(std::cos(a), std::sin(a) * d.x, std::sin(a) * d.y, std::sin(a) * d.z);
    }
    default: {
      double u1 = s.unit(), u2 = 2 * PI * s.unit(), u3 = 2 * PI * s.unit();
      return Q(std::sqrt(u1) * std::cos(u3), std::sqrt(1 - u1) * std::sin(u2),
               std::sqrt(1 - u1) * std::cos(u2), std::sqrt(u1) * std::sin(u3));
    }
  }
}
inline am::Quaternion toAm(Q q) {
  return am::Quaternion((float)q.w, (float)q.x, (float)q.y, (float)q.z);
}
inline double qdiff(Q a, Q b) {
  double r = 0;
  for (double d : {a.w - b.w, a.x - b.x, a.y - b.y, a.z - b.z}) {
    d = std::fabs(d);
    if (!(d <= r)) r = d;
  }
  return r;
}
inline std::string str(Q q) {
  std::ostringstream o;
  o << std::setprecision(9) << "(" << q.w << ", " << q.x << ", " << q.y << ", " << q.z << ")";
  return o.str();
}

inline bool nearIdentity(const M3 &r) { return maxdiff(r, M3()) < 1e-6; }

inline std::ostream &operator<<(std::ostream &o, const V3 &v) {
  return o << std::setprecision(10) << "(" << v.x << ", " << v.y << ", " << v.z << ")";
}
inline std::ostream &operator<<(std::ostream &o, const M3 &v) {
  o << std::setprecision(10) << "[";
  for (int i = 0; i < 3; ++i)
    o << (i ? "; " : "") << v.m[i][0] << " " << v.m[i][1] << " " << v.m[i][2];
  return o << "]";
}
inline std::ostream &operator<<(std::ostream &o, const H &h) {
  return o << "{R " << h.r << " t " << h.t << "}";
}
}  // namespace ref

#define NEARM(a, b, tol, expr)                                                  \
  do {                                                                          \
    ref::M3 ma_ = (a), mb_ = (b);                                               \
    double d_ = ref::maxdiff(ma_, mb_), t_ = (tol);                             \
    if (!(d_ <= t_)) FAIL(#a << " = " << ma_ << " expected " << mb_ << " (diff " \
                             << d_ << " > " << t_ << "): " << expr);            \
  } while (0)
#define NEARV(a, b, tol, expr)                                                  \
  do {                                                                          \
    ref::V3 va_ = (a), vb_ = (b);                                               \
    double d_ = ref::maxdiff(va_, vb_), t_ = (tol);                             \
    if (!(d_ <= t_)) FAIL(#a << " = " << va_ << " expected " << vb_ << " (diff " \
                             << d_ << " > " << t_ << "): " << expr);            \
  } while (0)
#define NEARH(a, b, tolr, tolt, expr)     \
  do {                                    \
    ref::H ha_ = (a), hb_ = (b);          \
    NEARM(ha_.r, hb_.r, tolr, #a << " " << expr); \
    NEARV(ha_.t, hb_.t, tolt, #a << " " << expr); \
  } while (0)

#define NEARQ(a, b, tol, expr)                                                 \
  do {                                                                         \
    ref::Q qa_ = (a), qb_ = (b);                                                    \
    double d_ = ref::qdiff(qa_, qb_), t_ = (tol);                                   \
    if (!(d_ <= t_)) FAIL(#a << " = " << ref::str(qa_) << " expected " << ref::str(qb_)  \
                             << " (diff " << d_ << " > " << t_ << "): " << expr); \
  } while (0)

