// C33: transforms of the messaging library are rigid motions and convert faithfully.
#include "ref.h"
#include <Eigen/Geometry>
#include <qi/geometry/geometry.hpp>
#include <almath/scenegraph/qigeometry.h>
#include <almath/scenegraph/almathqigeometry.hpp>
#include <qi/anymodule.hpp>
using namespace ref;
namespace qg = qi::geometry;

namespace {
Q toQ(const qg::Quaternion &q) { return Q(q.w, q.x, q.y, q.z); }
V3 toV(const qg::Vector3 &v) { return V3(v.x, v.y, v.z); }
H toH(const qg::Transform &t) { return mk(rot(toQ(t.rotation)), toV(t.translation)); }
qg::Quaternion mq(Q q) { return qg::makeQuaternion(q.x, q.y, q.z, q.w); }
qg::Vector3 mv(V3 v) { return qg::makeVector3(v.x, v.y, v.z); }
qg::Transform gen(Src &s, double m) {
  Q q = genQ(s);
  double n = norm(q);
  q = Q(q.w / n, q.x / n, q.y / n, q.z / n);
  if (s.chance(1, 3)) q = Q(-q.w, -q.x, -q.y, -q.z);
  return qg::makeTransform(mq(q), mv(genVec(s, m)));
}
std::string str(const qg::Transform &t) {
  std::ostringstream o;
  o.precision(17);
  o << t;
  return o.str();
}
void nearH(const qg::Transform &t, const H &h, double er, double et, const char *what) {
  NEARM(rot(toQ(t.rotation)), h.r, er, what);
  NEARV(toV(t.translation), h.t, et, what);
  CHECK(std::fabs(norm(toQ(t.rotation)) - 1) < er, what << ": norm of the quaternion " << norm(toQ(t.rotation)));
}
}  // namespace

PBT_FACET(history, 600000) {
  double m = s.pick<double>({1., 100., 1e-3});
  qg::Transform r[3];
  H h[3];
  for (int i = 0; i < 3; ++i) {
    r[i] = gen(s, m);
    h[i] = toH(r[i]);
    NOTE("t" << i << " = " << str(r[i]));
  }
  int n = s.range(1, 15), products = 0;
  double er = 1e-14, size = m;
  for (int i = 0; i < n; ++i) {
    int a = s.draw(3), b = s.draw(3), c = s.draw(3);
    switch (s.weighted({5, 3, 1})) {
      case 0:
        NOTE("t" << a << " = t" << b << " * t" << c);
        r[a] = r[b] * r[c];
        h[a] = h[b] * h[c];
        ++products;
        break;
      case 1:
        NOTE("t" << a << " = inverse(t" << b << ")");
        r[a] = qg::inverse(r[b]);
        h[a] = inv(h[b]);
        break;
      default: {
        double k = s.pick<double>({1. + 1e-7, 0.5, 3., 1e3});
        NOTE("t" << a << " = t" << b << " with its quaternion scaled by " << k << " and normalised");
        qg::Quaternion q = r[b].rotation;
        q.x *= k;
        q.y *= k;
        q.z *= k;
        q.w *= k;
        double nq = norm(toQ(q));
        NEAR(qg::norm(q), nq, 1e-14 * nq, "norm");
        double off = std::fabs(nq - 1);
        for (double eps : {1e-12, 1e-9, 1e-5, 0.1, 10.})
          if (off > 2 * eps || off < eps / 2)
            CHECK(qg::isNormalized(q, eps) == (off < eps), "isNormalized, norm off by " << off << " eps " << eps);
        qg::Quaternion u = qg::normalized(q);
        NEAR(norm(toQ(u)), 1., 1e-14, "normalized");
        qg::normalize(q);
        CHECK(q.x == u.x && q.y == u.y && q.z == u.z && q.w == u.w, "forms");
        r[a].rotation = q;
        r[a].translation = r[b].translation;
        h[a] = h[b];
      }
    }
    er += 1e-14;
    size = std::max({size, norm(h[0].t), norm(h[1].t), norm(h[2].t)});
    nearH(r[a], h[a], 40 * er, 100 * er * size * (i + 1), "value");
  }
  // the linear algebra side
  const qg::Transform &t = r[s.draw(3)];
  V3 p = genVec(s, m);
  Eigen::Vector3d y = qg::toEigenAffine3d(t) * Eigen::Vector3d(p.x, p.y, p.z);
  NEARV(V3(y[0], y[1], y[2]), toH(t) * p, 1e-12 * (norm(p) + size), "toEigenAffine3d");
  // nearness: the norm of the difference relative to the one of the motions
  qg::Transform u = t;
  if (s.coin()) u.rotation = qg::makeQuaternion(-t.rotation.x, -t.rotation.y, -t.rotation.z, -t.rotation.w);
  CHECK(qg::isNear(t, u, 1e-9) && qg::isNear(u, t, 1e-9), "nearness of the same motion");
  double eps = s.pick<double>({1e-6, 1e-3, 0.1});
  double k = eps * s.pick<double>({0., .01, .3, 4., 30.});
  V3 d = (s.coin() ? k : 0.) * genDir(s);
  Q q = toQ(t.rotation);
  double w = s.coin() ? k : 0;
  V3 ax = genDir(s);
  q = q * Q(std::cos(w / 2), std::sin(w / 2) * ax.x, std::sin(w / 2) * ax.y, std::sin(w / 2) * ax.z);
  u = qg::makeTransform(mq(q), mv(toV(t.translation) + d));
  H ha = toH(t), hb = toH(u);
  double dd = 0, na = 4, nb = 4;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) dd += std::pow(ha.r.m[i][j] - hb.r.m[i][j], 2);
    dd += std::pow(ha.t[i] - hb.t[i], 2);
    na += ha.t[i] * ha.t[i];
    nb += hb.t[i] * hb.t[i];
  }
  double rel = std::sqrt(dd / std::min(na, nb));
  NOTE("nearness of " << str(t) << " and " << str(u) << ": " << rel << " eps " << eps);
  if (rel < 0.5 * eps) CHECK(qg::isNear(t, u, eps) && qg::isNear(u, t, eps), "near");
  if (std::sqrt(dd) > 5 * eps * std::sqrt(std::max(na, nb)))
    CHECK(!qg::isNear(t, u, eps) && !qg::isNear(u, t, eps), "not near");
  s.nontrivial(products >= 2);
}

PBT_FACET(makers, 600000) {
  V3 v = genVec(s, std::pow(10., (double)s.range(-5, 5)));
  qg::Vector3 x = qg::makeVector3(v.x, v.y, v.z);
  CHECK(x.x == v.x && x.y == v.y && x.z == v.z, "makeVector3");
  double w = s.real(-2, 2);
  qg::Quaternion q = qg::makeQuaternion(v.x, v.y, v.z, w);
  CHECK(q.x == v.x && q.y == v.y && q.z == v.z && q.w == w, "makeQuaternion");
  NOTE("axis " << v << " angle " << w);
  qg::Transform t = qg::makeTransform(q, x);
  CHECK(maxdiff(toV(t.translation), v) == 0 && t.rotation.x == q.x && t.rotation.y == q.y && t.rotation.z == q.z && t.rotation.w == q.w,
        "makeTransform");
  std::ostringstream o, want;
  o << x << q << t;
  want << "Vector3(" << v.x << ", " << v.y << ", " << v.z << ")";
  std::ostringstream wq;
  wq << "Quaternion(" << v.x << ", " << v.y << ", " << v.z << ", " << w << ")";
  std::string vs = want.str(), qs = wq.str();
  CHECK(o.str() == vs + qs + "Transform(" + qs + ", " + vs + ")", "text " << o.str());
  if (norm(v) > 1e-12) {
    double a = s.coin() ? s.real(-10, 10) : genAngle(s);
    qg::Quaternion r = qg::makeQuaternionFromAngleAxis(a, x);
    NEARM(rot(toQ(r)), rotAxis(v, a), 1e-13, "makeQuaternionFromAngleAxis, angle " << a);
    NEAR(norm(toQ(r)), 1, 1e-14, "norm");
  }
  s.nontrivial(v.x != v.y && v.y != v.z && v.x != 0);
}

PBT_FACET(convert, 800000) {
  double m = s.pick<double>({1., 100., 1e-3});
  qg::Transform t = gen(s, m);
  H h = toH(t);
  NOTE(str(t));
  am::Transform a = am::transformFromQiTransform(t);
  NEARM(R(a), h.r, 2e-6, "transformFromQiTransform");
  CHECK(a.r1_c4 == (float)h.t.x && a.r2_c4 == (float)h.t.y && a.r3_c4 == (float)h.t.z, "translation");
  qg::Transform b = am::qiTransformFromALMath(a);
  nearH(b, mk(h.r, T(a)), 8e-6, 0, "and back");
  // composition is the same on both sides
  qg::Transform u = gen(s, m);
  am::Transform c = am::transformFromQiTransform(t * u);
  NEARH(::ref::toH(c), h * toH(u), 2e-6, 1e-6 * (norm(h.t) + m * 3), "composition");
  am::Pose2D p = am::pose2DFromQiTransform(t);
  CHECK(p.x == (float)h.t.x && p.y == (float)h.t.y, "pose2DFromQiTransform");
  double c1 = std::hypot(h.r.m[0][0], h.r.m[1][0]);
  if (c1 > 1e-3) {
    double e = p.theta - std::atan2(h.r.m[1][0], h.r.m[0][0]);
    NEAR(std::remainder(e, 2 * PI), 0, 2e-6 / c1, "heading");
    CHECK(std::fabs(p.theta) < 3.1416, "heading range");
  }
  am::Pose2D z((float)s.real(-m, m), (float)s.real(-m, m), (float)(s.coin() ? genAngle(s) : s.real(-7, 7)));
  qg::Transform y = am::qiTransformFromPose2D(z);
  NOTE("pose " << z.x << " " << z.y << " " << z.theta);
  nearH(y, mk(rotZ(z.theta), V3(z.x, z.y, 0)), 2e-6, 0, "qiTransformFromPose2D");
  am::Pose2D z2 = am::pose2DFromQiTransform(y);
  CHECK(z2.x == z.x && z2.y == z.y, "round trip");
  NEAR(std::remainder((double)z2.theta - z.theta, 2 * PI), 0, 3e-6, "round trip");
  s.nontrivial(c1 > 1e-3 && maxdiff(h.r, M3()) > 1e-3 && norm(h.t) > 0);
}

// the scripting module: each advertised name does what it says
namespace qi { namespace geometry {
void register_geometry_module(qi::ModuleBuilder *mb);
} }
PBT_FACET(module, 100000) {
  qi::ModuleBuilder mb;
  qg::register_geometry_module(&mb);
  auto &f = mb.methods;
  static const char *names[] = {"makeVector3", "makeQuaternion", "makeQuaternionFromAngleAxis", "makeTransform", "inverse", "multiply", "norm", "normalized"};
  for (auto n : names) CHECK(f.count(n), n << " is not advertised");
  double m = s.pick<double>({1., 100., 1e-3});
  qg::Transform a = gen(s, m), b = gen(s, m);
  H ha = toH(a), hb = toH(b);
  NOTE("a " << str(a) << " b " << str(b));
  CHECK(f["multiply"].t_tt && f["inverse"].t_t && f["norm"].d_q && f["normalized"].q_q && f["makeTransform"].t_qv && f["makeVector3"].v_ddd &&
            f["makeQuaternion"].q_dddd && f["makeQuaternionFromAngleAxis"].q_dv,
        "signatures");
  nearH(f["multiply"].t_tt(a, b), ha * hb, 1e-14, 1e-13 * m, "multiply");
  nearH(f["inverse"].t_t(a), inv(ha), 1e-14, 1e-13 * m, "inverse");
  V3 v = genVec(s, m);
  double w = s.real(-m, m);
  qg::Vector3 x = f["makeVector3"].v_ddd(v.x, v.y, v.z);
  CHECK(x.x == v.x && x.y == v.y && x.z == v.z, "makeVector3");
  qg::Quaternion q = f["makeQuaternion"].q_dddd(v.x, v.y, v.z, w);
  CHECK(q.x == v.x && q.y == v.y && q.z == v.z && q.w == w, "makeQuaternion");
  double n = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z + w * w);
  NEAR(f["norm"].d_q(q), n, 1e-14 * (1 + n), "norm");
  if (n > 1e-6) {
    qg::Quaternion u = f["normalized"].q_q(q);
    NEAR(u.x, v.x / n, 1e-14, "normalized");
    NEAR(u.y, v.y / n, 1e-14, "normalized");
    NEAR(u.z, v.z / n, 1e-14, "normalized");
    NEAR(u.w, w / n, 1e-14, "normalized");
  }
  if (norm(v) > 1e-12) {
    double t = s.real(-10, 10);
    NEARM(rot(toQ(f["makeQuaternionFromAngleAxis"].q_dv(t, x))), rotAxis(v, t), 1e-13, "makeQuaternionFromAngleAxis, angle " << t);
  }
  qg::Transform c = f["makeTransform"].t_qv(a.rotation, x);
  CHECK(maxdiff(toV(c.translation), v) == 0 && c.rotation.x == a.rotation.x && c.rotation.w == a.rotation.w && c.rotation.y == a.rotation.y && c.rotation.z == a.rotation.z, "makeTransform");
  s.nontrivial(maxdiff(ha.r, hb.r) > 1e-3 && norm(ha.t) > 0);
}
