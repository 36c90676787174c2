// C05: frame changes of poses, velocities and positions are exact rigid
// actions.
#include "ref.h"
using namespace ref;

namespace {
V3 lin(const am::Position6D &p) { return V3(p.x, p.y, p.z); }
V3 ang(const am::Position6D &p) { return V3(p.wx, p.wy, p.wz); }
V3 lin(const am::Velocity6D &p) { return V3(p.xd, p.yd, p.zd); }
V3 ang(const am::Velocity6D &p) { return V3(p.wxd, p.wyd, p.wzd); }
double mag(V3 v) { return norm(v) + 1e-30; }
}  // namespace

PBT_FACET(frames, 800000) {
  am::Transform t = genTransform(s, genScale(s));
  M3 r = R(t), rt = tr(r);
  double m = genScale(s);
  V3 a = genVec(s, m), b = genVec(s, m);
  NOTE("frame " << toH(t) << " a " << a << " b " << b);
  const double k = 1e-6;
  am::Position3D p = toP(a), out(9, 8, 7);
  a = P(p);
  am::changeReferencePosition3D(t, p, out);
  NEARV(P(out), r * a, k * mag(a), "changeReferencePosition3D");
  out = p;
  am::changeReferencePosition3DInPlace(t, out);
  NEARV(P(out), r * a, k * mag(a), "changeReferencePosition3DInPlace");
  am::changeReferenceTransposePosition3D(t, p, out);
  NEARV(P(out), rt * a, k * mag(a), "changeReferenceTransposePosition3D");
  out = p;
  am::changeReferenceTransposePosition3DInPlace(t, out);
  NEARV(P(out), rt * a, k * mag(a), "changeReferenceTransposePosition3DInPlace");
  // there and back
  am::Position3D q;
  am::changeReferencePosition3D(t, p, out);
  am::changeReferenceTransposePosition3D(t, out, q);
  NEARV(P(q), a, 2e-6 * mag(a), "there and back");

  am::Velocity6D v((float)a.x, (float)a.y, (float)a.z, (float)b.x, (float)b.y, (float)b.z), w(1, 2, 3, 4, 5, 6);
  b = ang(v);
  am::changeReferenceVelocity6D(t, v, w);
  NEARV(lin(w), r * a, k * mag(a), "changeReferenceVelocity6D");
  NEARV(ang(w), r * b, k * mag(b), "changeReferenceVelocity6D");
  am::changeReferenceTransposeVelocity6D(t, v, w);
  NEARV(lin(w), rt * a, k * mag(a), "changeReferenceTransposeVelocity6D");
  NEARV(ang(w), rt * b, k * mag(b), "changeReferenceTransposeVelocity6D");
  am::Position6D x(v.xd, v.yd, v.zd, v.wxd, v.wyd, v.wzd), y(1, 2, 3, 4, 5, 6);
  am::changeReferencePosition6D(t, x, y);
  NEARV(lin(y), r * a, k * mag(a), "changeReferencePosition6D");
  NEARV(ang(y), r * b, k * mag(b), "changeReferencePosition6D");
  am::changeReferenceTransposePosition6D(t, x, y);
  NEARV(lin(y), rt * a, k * mag(a), "changeReferenceTransposePosition6D");
  NEARV(ang(y), rt * b, k * mag(b), "changeReferenceTransposePosition6D");

  am::Transform h = genTransform(s, m), g = genTransform(s, 1);
  am::changeReferenceTransform(t, h, g);
  NEARM(R(g), r * R(h), 1e-6, "changeReferenceTransform");
  NEARV(T(g), r * T(h), k * mag(T(h)), "changeReferenceTransform");
  am::changeReferenceTransposeTransform(t, h, g);
  NEARM(R(g), rt * R(h), 1e-6, "changeReferenceTransposeTransform");
  NEARV(T(g), rt * T(h), k * mag(T(h)), "changeReferenceTransposeTransform");
  CHECK(g.isTransform(), "valid transform");
  s.nontrivial(maxdiff(r, rt) > 1e-3 && norm(a) > 0 && norm(b) > 0);
}

PBT_FACET(points, 800000) {
  am::Transform t = genTransform(s, genScale(s));
  double m = genScale(s);
  am::Position3D p = toP(genVec(s, m));
  am::Position2D p2(p.x, p.y);
  NOTE("transform " << toH(t) << " point " << P(p));
  double tol = 1e-6 * (norm(P(p)) + norm(T(t))) + 1e-30;
  NEARV(P(t * p), toH(t) * P(p), tol, "transform times point");
  NEARV(P(t * p2), toH(t) * V3(p.x, p.y, 0), tol, "transform times planar point");
  // distances are preserved
  am::Position3D q = toP(genVec(s, m));
  double d = norm(P(p) - P(q));
  NEAR((t * p).distance(t * q), d, 1e-6 * d + 4 * tol + 1e-6 * norm(P(q)), "distances are preserved");
  // relative transform and point mass inertia
  am::Transform u = genTransform(s, m);
  am::Position3D viaDiff = am::transformDiff(t, u) * p, direct = t.inverse() * (u * p);
  NEARV(P(viaDiff), inv(toH(t)) * (toH(u) * P(p)), 8e-6 * (norm(T(t)) + norm(T(u)) + norm(P(p))) + 1e-30, "relative transform");
  NEARV(P(direct), inv(toH(t)) * (toH(u) * P(p)), 8e-6 * (norm(T(t)) + norm(T(u)) + norm(P(p))) + 1e-30, "relative transform");
  float mass = s.real(0, s.coin() ? 20 : 1000);
  std::vector<float> in(s.draw(12), 5.f);
  am::pointMassRotationalInertia(mass, p, in);
  CHECK(in.size() == 9, "inertia matrix");
  V3 c = P(p);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double e = mass * ((i == j ? dot(c, c) : 0) - c[i] * c[j]);
      NEAR(in[3 * i + j], e, 1e-6 * mass * dot(c, c) + 1e-30, "inertia " << i << " " << j);
      CHECK(in[3 * i + j] == in[3 * j + i], "symmetric");
    }
  s.nontrivial(norm(P(p)) > 0 && norm(T(t)) > 0 && maxdiff(R(t), M3()) > 1e-3);
}

PBT_FACET(pose_error, 800000) {
  // (an approximation of) the displacement from one frame to another,
  // expressed at the origin of the first in the common basis: the translation
  // and the vector sin(angle) axis of the relative rotation
  am::Transform a = genTransform(s, genScale(s)), b = genTransform(s, genScale(s));
  if (s.coin()) b = a * toT(mk(rotvec(genAngle(s, 0.1) * genDir(s)), genVec(s, 0.1)));
  NOTE("a " << toH(a) << " b " << toH(b));
  am::Position6D e = am::position6DFromTransformDiff(a, b), f(1, 2, 3, 4, 5, 6);
  am::position6DFromTransformDiffInPlace(a, b, f);
  CHECK(e == f, "forms");
  V3 d = T(b) - T(a);
  NEARV(lin(e), d, 2e-7 * (norm(T(a)) + norm(T(b))), "translation");
  M3 rel = R(b) * tr(R(a));
  V3 ax(rel.m[2][1] - rel.m[1][2], rel.m[0][2] - rel.m[2][0], rel.m[1][0] - rel.m[0][1]);
  NEARV(ang(e), 0.5 * ax, 1e-6, "rotation");
  am::Position6D z = am::position6DFromTransformDiff(a, a);
  NEARV(lin(z), V3(), 0, "no error to itself");
  NEARV(ang(z), V3(), 1e-6, "no error to itself");
  am::Position6D o = am::position6DFromTransformDiff(b, a);
  NEARV(lin(o), -lin(e), 0, "antisymmetric");
  NEARV(ang(o), -ang(e), 1e-6, "antisymmetric");
  s.nontrivial(norm(ax) > 1e-3 && norm(d) > 0);
}

PBT_FACET(planar_frames, 500000) {
  const double m = genScale(s);
  am::Pose2D p(s.real(-m, m), s.real(-m, m), (float)genTurns(s)), o(1, 2, 3);
  float th = (float)genTurns(s);
  NOTE("pose " << p.x << " " << p.y << " " << p.theta << " frame " << th);
  double x = std::cos((double)th) * p.x - std::sin((double)th) * p.y,
         y = std::sin((double)th) * p.x + std::cos((double)th) * p.y;
  double tol = 1e-6 * std::hypot((double)p.x, (double)p.y) + 1e-30;
  am::changeReferencePose2D(th, p, o);
  NEAR(o.x, x, tol, "x");
  NEAR(o.y, y, tol, "y");
  CHECK(o.theta == p.theta, "the angle is kept as it is");
  o = p;
  am::changeReferencePose2DInPlace(th, o);
  NEAR(o.x, x, tol, "x, in place");
  NEAR(o.y, y, tol, "y, in place");
  CHECK(o.theta == p.theta, "the angle is kept as it is, in place");
  s.nontrivial(th != 0 && p.x != 0 && p.y != 0);
}
