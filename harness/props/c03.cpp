// C03: all representations of an orientation or pose convert into each other.
#include "ref.h"
using namespace ref;

namespace {
// the pose held by one of the representations, with the motion it denotes
enum Kind { TRANSFORM, ROTATION, ROT3D, POS6D, QUAT, ANGLEAXIS, DISP, NKINDS };
const char *kindName[] = {"Transform", "Rotation", "Rotation3D", "Position6D",
                          "Quaternion", "angle and axis", "Displacement"};
struct Rep {
  Kind kind;
  am::Transform t;
  am::Rotation r;
  am::Rotation3D r3;
  am::Position6D p6;
  am::Quaternion q;
  float ang = 0, ax = 1, ay = 0, az = 0;
  am::Displacement d;
  bool hasPos;  // the representation carries the translation
};
M3 rotOf(const Rep &x) {
  switch (x.kind) {
    case TRANSFORM: return R(x.t);
    case ROTATION: return R(x.r);
    case ROT3D: return rotZYX(x.r3.wx, x.r3.wy, x.r3.wz);
    case POS6D: return rotZYX(x.p6.wx, x.p6.wy, x.p6.wz);
    case QUAT: return rot(toQ(x.q));
    case ANGLEAXIS: return rotvec((double)x.ang * V3(x.ax, x.ay, x.az));
    default: return rot(toQ(x.d.Q));
  }
}
V3 posOf(const Rep &x) {
  switch (x.kind) {
    case TRANSFORM: return T(x.t);
    case POS6D: return V3(x.p6.x, x.p6.y, x.p6.z);
    case DISP: return P(x.d.P);
    default: return V3();
  }
}
void sane(const Rep &x) {
  auto range = [](float a, double m, const char *n) {
    CHECK(std::isfinite(a) && std::fabs(a) <= m + 1e-6, n << " angle " << a << " out of range");
  };
  switch (x.kind) {
    case ROT3D:
      range(x.r3.wx, PI, "roll");
      range(x.r3.wy, PI / 2, "pitch");
      range(x.r3.wz, PI, "yaw");
      break;
    case POS6D:
      range(x.p6.wx, PI, "roll");
      range(x.p6.wy, PI / 2, "pitch");
      range(x.p6.wz, PI, "yaw");
      break;
    case QUAT:
      NEAR(norm(toQ(x.q)), 1., 3e-6, "quaternions have unit norm");
      break;
    case DISP:
      NEAR(norm(toQ(x.d.Q)), 1., 3e-6, "quaternions have unit norm");
      break;
    case ANGLEAXIS:
      CHECK(std::isfinite(x.ang) && x.ang >= -2 * PI - 1e-6 && x.ang <= 2 * PI + 1e-6, "angle " << x.ang);
      NEAR(norm(V3(x.ax, x.ay, x.az)), 1., 3e-6, "axes are unit vectors");
      break;
    case TRANSFORM:
      CHECK(orthoError(R(x.t)) < 1e-5, "valid rotation " << R(x.t));
      break;
    case ROTATION:
      CHECK(orthoError(R(x.r)) < 1e-5, "valid rotation " << R(x.r));
      break;
    default:
      break;
  }
}
bool same(const am::Rotation3D &a, const am::Rotation3D &b) {
  return a.wx == b.wx && a.wy == b.wy && a.wz == b.wz;
}
// one conversion step; returns false if there is no direct conversion
bool convert(Src &s, const Rep &x, Kind to, Rep &y) {
  y = Rep();
  y.kind = to;
  y.hasPos = false;
  const am::Transform junkT = toT(mk(rotZYX(0.3, -0.4, 0.5), V3(7, 8, 9)));
  switch (x.kind) {
    case TRANSFORM: {
      am::Rotation jr = toR(rotZ(0.7));
      switch (to) {
        case ROTATION:
          y.r = am::rotationFromTransform(x.t);
          am::rotationFromTransformInPlace(x.t, jr);
          CHECK(jr == y.r, "rotationFromTransform forms");
          return true;
        case ROT3D:
          y.r3 = am::rotation3DFromTransform(x.t);
          return true;
        case POS6D: {
          y.p6 = am::position6DFromTransform(x.t);
          am::Position6D z(1, 2, 3, 4, 5, 6);
          am::position6DFromTransformInPlace(x.t, z);
          CHECK(z == y.p6, "position6DFromTransform forms");
          y.hasPos = true;
          return true;
        }
        case QUAT:
          y.q = am::quaternionFromTransform(x.t);
          return true;
        case DISP:
          y.d = am::displacementFromTransform(x.t);
          y.hasPos = true;
          return true;
        default:
          return false;
      }
    }
    case ROTATION:
      switch (to) {
        case TRANSFORM: {
          y.t = am::transformFromRotation(x.r);
          NEARV(T(y.t), V3(), 0, "no translation");
          am::Transform z = junkT;
          am::transformFromRotationInPlace(x.r, z);
          NEARM(R(z), R(y.t), 0, "transformFromRotationInPlace");
          NEARV(T(z), T(junkT), 0, "transformFromRotationInPlace keeps the translation");
          V3 p = genVec(s, genScale(s));
          am::Position3D ap = toP(p);
          NEARH(toH(am::transformFromRotationPosition3D(x.r, ap)), mk(R(x.r), P(ap)), 0, 0, "transformFromRotationPosition3D");
          NEARH(toH(am::transformFromRotationPosition3D(x.r, ap.x, ap.y, ap.z)), mk(R(x.r), P(ap)), 0, 0, "transformFromRotationPosition3D");
          return true;
        }
        case ROT3D:
          y.r3 = am::rotation3DFromRotation(x.r);
          return true;
        case ROTATION: {
          V3 c[3] = {col(R(x.r), 0), col(R(x.r), 1), col(R(x.r), 2)};
          am::Position3D p[3] = {toP(c[0]), toP(c[1]), toP(c[2])};
          switch (s.draw(4)) {
            case 0: y.r = am::rotationFromAxesXY(p[0], p[1]); break;
            case 1: y.r = am::rotationFromAxesXZ(p[0], p[2]); break;
            case 2: y.r = am::rotationFromAxesYZ(p[1], p[2]); break;
            default: y.r = am::rotationFromAxesXYZ(p[0], p[1], p[2]); break;
          }
          return true;
        }
        default:
          return false;
      }
    case ROT3D:
      switch (to) {
        case TRANSFORM:
          y.t = am::transformFromRotation3D(x.r3);
          NEARV(T(y.t), V3(), 0, "no translation");
          CHECK(am::Transform::from3DRotation(x.r3.wx, x.r3.wy, x.r3.wz).isNear(y.t, 1e-6f), "from3DRotation");
          return true;
        case ROTATION:
          y.r = am::rotationFrom3DRotation(x.r3.wx, x.r3.wy, x.r3.wz);
          CHECK(am::Rotation::from3DRotation(x.r3.wx, x.r3.wy, x.r3.wz) == y.r, "from3DRotation");
          return true;
        case QUAT: {
          y.q = am::quaternionFromRotation3D(x.r3);
          am::Quaternion z(9, 8, 7, 6);
          am::quaternionFromRotation3D(x.r3, z);
          CHECK(z == y.q, "quaternionFromRotation3D forms");
          return true;
        }
        default:
          return false;
      }
    case POS6D:
      switch (to) {
        case TRANSFORM:
          y.t = am::transformFromPosition6D(x.p6);
          y.hasPos = true;
          return true;
        case QUAT: {
          am::Position3D p(7, 8, 9);
          y.q = am::Quaternion(5, 6, 7, 8);
          am::quaternionPosition3DFromPosition6D(x.p6, y.q, p);
          NEARV(P(p), V3(x.p6.x, x.p6.y, x.p6.z), 0, "quaternionPosition3DFromPosition6D");
          CHECK(am::position3DFromPosition6D(x.p6) == p, "position3DFromPosition6D");
          return true;
        }
        default:
          return false;
      }
    case QUAT:
      switch (to) {
        case TRANSFORM:
          y.t = am::transformFromQuaternion(x.q);
          NEARV(T(y.t), V3(), 0, "no translation");
          return true;
        case ROTATION: {
          y.r = am::rotationFromQuaternion(x.q);
          am::Rotation z = toR(rotX(2.));
          am::rotationFromQuaternion(x.q, z);
          CHECK(z == y.r, "rotationFromQuaternion forms");
          CHECK(am::rotationFromQuaternion(x.q.w, x.q.x, x.q.y, x.q.z).isNear(y.r, 1e-6f), "rotationFromQuaternion forms");
          CHECK(am::Rotation::fromQuaternion(x.q.w, x.q.x, x.q.y, x.q.z).isNear(y.r, 1e-6f), "Rotation::fromQuaternion");
          return true;
        }
        case ROT3D: {
          y.r3 = am::rotation3DFromQuaternion(x.q);
          am::Rotation3D z(1, 2, 3);
          am::rotation3DFromQuaternion(x.q, z);
          CHECK(same(z, y.r3), "rotation3DFromQuaternion forms");
          return true;
        }
        case ANGLEAXIS: {
          am::angleAndAxisRotationFromQuaternion(x.q, y.ang, y.ax, y.ay, y.az);
          std::vector<float> v = am::angleAndAxisRotationFromQuaternion(x.q);
          CHECK(v.size() == 4 && v[0] == y.ang && v[1] == y.ax && v[2] == y.ay && v[3] == y.az,
                "angleAndAxisRotationFromQuaternion forms");
          return true;
        }
        case DISP: {
          V3 p = genVec(s, genScale(s));
          y.d = am::Displacement(toP(p), x.q);
          return true;
        }
        default:
          return false;
      }
    case ANGLEAXIS:
      switch (to) {
        case QUAT:
          y.q = am::quaternionFromAngleAndAxisRotation(x.ang, x.ax, x.ay, x.az);
          CHECK(am::Quaternion::fromAngleAndAxisRotation(x.ang, x.ax, x.ay, x.az) == y.q, "fromAngleAndAxisRotation");
          return true;
        case ROTATION:
          y.r = am::rotationFromAngleDirection(x.ang, x.ax, x.ay, x.az);
          CHECK(am::Rotation::fromAngleDirection(x.ang, x.ax, x.ay, x.az) == y.r, "fromAngleDirection");
          CHECK(am::rotationFromAngleDirection(x.ang, am::Position3D(x.ax, x.ay, x.az)) == y.r, "rotationFromAngleDirection");
          return true;
        default:
          return false;
      }
    default:  // DISP
      if (to != TRANSFORM) return false;
      y.t = am::transformFromDisplacement(x.d);
      y.hasPos = true;
      return true;
  }
}
void describe(Src &s, const Rep &x) {
  if (!s.verbose) return;
  NOTE(kindName[x.kind]);
  switch (x.kind) {
    case ROT3D: NOTE("  " << x.r3.wx << " " << x.r3.wy << " " << x.r3.wz); break;
    case POS6D: NOTE("  " << x.p6.x << " " << x.p6.y << " " << x.p6.z << " " << x.p6.wx << " " << x.p6.wy << " " << x.p6.wz); break;
    case QUAT: NOTE("  " << str(toQ(x.q))); break;
    case ANGLEAXIS: NOTE("  " << x.ang << " about " << x.ax << " " << x.ay << " " << x.az); break;
    default: NOTE("  " << rotOf(x) << " " << posOf(x)); break;
  }
}
am::Transform drifted(Src &s, double m) {
  // a transform as it comes out of a computation
  am::Transform t = genTransform(s, m);
  int n = s.weighted({3, 1, 1, 1});
  for (int i = 0; i < n; ++i) t *= genTransform(s, m);
  return t;
}
}  // namespace

PBT_FACET(chain, 1000000) {
  Rep x;
  x.kind = TRANSFORM;
  x.hasPos = true;
  x.t = drifted(s, genScale(s));
  M3 first = rotOf(x);
  describe(s, x);
  const int n = 1 + s.draw(10);
  int steps = 0;
  for (int i = 0; i < n; ++i) {
    Rep y;
    Kind to = (Kind)s.draw(NKINDS);
    if (!convert(s, x, to, y)) continue;
    ++steps;
    describe(s, y);
    sane(y);
    NEARM(rotOf(y), rotOf(x), 4e-6, "from " << kindName[x.kind] << " to " << kindName[to]);
    if (y.hasPos && (x.kind == TRANSFORM || x.kind == POS6D || x.kind == DISP))
      NEARV(posOf(y), posOf(x), 0, "translation, from " << kindName[x.kind] << " to " << kindName[to]);
    x = y;
  }
  NEARM(rotOf(x), first, 4e-6 * steps, "whole chain");
  double a = angleOf(first);
  if (a < 1e-2) s.label("angle below 0.01");
  if (a > PI - 1e-2) s.label("angle above pi - 0.01");
  if (std::fabs(first.m[2][0]) > 1 - 1e-4) s.label("gimbal lock");
  s.nontrivial(steps >= 2 && a > 0);
}

PBT_FACET(any_angles, 400000) {
  // angle triples outside of the principal range are accepted
  am::Rotation3D r;
  r.wx = (float)genTurns(s);
  r.wy = (float)genTurns(s);
  r.wz = (float)genTurns(s);
  const double ms = genScale(s);
  am::Position6D p(s.real(-ms, ms), s.real(-ms, ms), s.real(-ms, ms), r.wx, r.wy, r.wz);
  M3 m = rotZYX(r.wx, r.wy, r.wz);
  NOTE("angles " << r.wx << " " << r.wy << " " << r.wz);
  NEARM(R(am::transformFromRotation3D(r)), m, 4e-6, "transformFromRotation3D");
  NEARM(R(am::rotationFrom3DRotation(r.wx, r.wy, r.wz)), m, 4e-6, "rotationFrom3DRotation");
  NEARM(rot(toQ(am::quaternionFromRotation3D(r))), m, 4e-6, "quaternionFromRotation3D");
  NEARH(toH(am::transformFromPosition6D(p)), mk(m, V3(p.x, p.y, p.z)), 4e-6, 0, "transformFromPosition6D");
  am::Rotation3D z = am::rotation3DFromTransform(am::transformFromRotation3D(r));
  NEARM(rotZYX(z.wx, z.wy, z.wz), m, 8e-6, "round trip");
  z = am::rotation3DFromQuaternion(am::quaternionFromRotation3D(r));
  NEARM(rotZYX(z.wx, z.wy, z.wz), m, 8e-6, "round trip through quaternions");
  // inside the principal range the round trip gives the angles back
  if (std::fabs(r.wy) < PI / 2 - 0.05 && std::fabs(r.wx) < PI - 0.01 && std::fabs(r.wz) < PI - 0.01) {
    am::Rotation3D w = am::rotation3DFromTransform(am::transformFromRotation3D(r));
    NEAR(w.wx, r.wx, 2e-5, "roll");
    NEAR(w.wy, r.wy, 2e-5, "pitch");
    NEAR(w.wz, r.wz, 2e-5, "yaw");
    am::Position6D v = am::position6DFromTransform(am::transformFromPosition6D(p));
    NEAR(v.wx, r.wx, 2e-5, "roll");
    NEAR(v.wy, r.wy, 2e-5, "pitch");
    NEAR(v.wz, r.wz, 2e-5, "yaw");
    s.label("principal range");
  }
  s.nontrivial(r.wx != 0 && r.wy != 0 && r.wz != 0);
}

PBT_FACET(angle_axis, 400000) {
  V3 d = genDir(s);
  float a = (float)genTurns(s);
  float x = (float)d.x, y = (float)d.y, z = (float)d.z;
  M3 m = rotAxis(V3(x, y, z), a);
  NOTE("angle " << a << " axis " << x << " " << y << " " << z);
  NEARM(R(am::rotationFromAngleDirection(a, x, y, z)), m, 4e-6, "rotationFromAngleDirection");
  am::Quaternion q = am::quaternionFromAngleAndAxisRotation(a, x, y, z);
  NEAR(norm(toQ(q)), 1., 1e-6, "unit norm");
  NEARM(rot(toQ(q)), m, 4e-6, "quaternionFromAngleAndAxisRotation");
  // nearly unit axes: the quaternion is normalised
  float k = 1 + s.real(-1e-3, 1e-3);
  am::Quaternion qk = am::quaternionFromAngleAndAxisRotation(a, k * x, k * y, k * z);
  NEAR(norm(toQ(qk)), 1., 1e-6, "unit norm, axis of norm " << k);
  NEARM(rot(toQ(qk)), m, 1e-2, "axis of norm " << k);
  // quaternions of any norm describe their rotation
  double l = s.pick<double>({1., 0.5, 2., 1.0001, 0.9999, 1e-3, 1e3, -1., -2.});
  Q q0(l * std::cos(a / 2.), l * std::sin(a / 2.) * d.x, l * std::sin(a / 2.) * d.y, l * std::sin(a / 2.) * d.z);
  am::Quaternion qs((float)q0.w, (float)q0.x, (float)q0.y, (float)q0.z);
  float b, bx, by, bz;
  NOTE("quaternion " << str(toQ(qs)));
  am::angleAndAxisRotationFromQuaternion(qs, b, bx, by, bz);
  CHECK(std::isfinite(b), "angle " << b);
  NEAR(norm(V3(bx, by, bz)), 1., 3e-6, "unit axis " << V3(bx, by, bz));
  NEARM(rotvec((double)b * V3(bx, by, bz)), m, 4e-6, "angleAndAxisRotationFromQuaternion");
  {  // small rotations keep their axis
    float ta = (float)std::pow(10., s.real(-8, -1)), tl = s.pick<float>({1.f, 0.5f, 2.f});
    float w = tl * std::cos(ta / 2);
    double h = tl * std::sin(ta / 2.);
    float tb, tx, ty, tz;
    am::angleAndAxisRotationFromQuaternion(am::Quaternion(w, (float)(h * d.x), (float)(h * d.y), (float)(h * d.z)), tb, tx, ty, tz);
    NOTE("small rotation of " << ta << " around " << d);
    NEARV((double)tb * V3(tx, ty, tz), (double)ta * d, 1e-5 * ta, "axis and angle of a small rotation of " << ta);
    am::Quaternion tq = am::quaternionFromAngleAndAxisRotation(ta, x, y, z);
    NEARV(V3(tq.x, tq.y, tq.z), std::sin(ta / 2.) * d, 1e-5 * ta, "quaternion of a small rotation of " << ta);
  }
  {  // axes whose length is slightly off are refused
    float kk = 1 + (s.coin() ? 1 : -1) * (float)std::pow(10., s.real(-4, -1));
    THROWS(am::rotationFromAngleDirection(a, kk * x, kk * y, kk * z), "axis of norm " << kk);
  }
  THROWS(am::rotationFromAngleDirection(a, 1.1f * x, 1.1f * y, 1.1f * z), "not a unit axis");
  THROWS(am::rotationFromAngleDirection(a, 0.f, 0.f, 0.f), "null axis");
  THROWS(am::angleAndAxisRotationFromQuaternion(am::Quaternion(0, 0, 0, 0)), "null quaternion");
  s.nontrivial(a != 0);
}

PBT_FACET(planar_and_positions, 400000) {
  const double m = genScale(s);
  am::Pose2D p(s.real(-m, m), s.real(-m, m), (float)genTurns(s));
  NOTE("pose " << p.x << " " << p.y << " " << p.theta);
  am::Transform t = genTransform(s, genScale(s));
  const am::Transform t0 = t;
  H hp = mk(rotZ(p.theta), V3(p.x, p.y, 0));
  NEARH(toH(am::transformFromPose2D(p)), hp, 2e-6, 0, "transformFromPose2D");
  am::transformFromPose2DInPlace(p, t);
  NEARH(toH(t), hp, 2e-6, 0, "transformFromPose2DInPlace");
  am::Pose2D b = am::pose2DFromTransform(t), c(1, 2, 3);
  am::pose2DFromTransformInPlace(t, c);
  CHECK(b == c, "pose2DFromTransform forms");
  CHECK(b.x == p.x && b.y == p.y, "position");
  NEARM(rotZ(b.theta), hp.r, 4e-6, "round trip");
  CHECK(std::fabs(b.theta) <= PI + 1e-6, "range");
  // of any transform: the heading of the x axis
  b = am::pose2DFromTransform(t0);
  CHECK(b.x == t0.r1_c4 && b.y == t0.r2_c4, "position");
  double k = std::hypot(t0.r1_c1, t0.r2_c1);
  NEARV(V3(k * std::cos((double)b.theta), k * std::sin((double)b.theta), 0), V3(t0.r1_c1, t0.r2_c1, 0), 2e-6, "heading");
  am::Position2D p2 = am::position2DFromTransform(t0), p2b(1, 2);
  am::position2DFromTransformInPlace(t0, p2b);
  CHECK(p2 == p2b && p2.x == t0.r1_c4 && p2.y == t0.r2_c4, "position2DFromTransform");
  am::Position3D p3 = am::position3DFromTransform(t0), p3b(1, 2, 3);
  am::position3DFromTransformInPlace(t0, p3b);
  CHECK(p3 == p3b, "position3DFromTransform forms");
  NEARV(P(p3), T(t0), 0, "position3DFromTransform");
  NEARH(toH(am::transformFromPosition3D(p3)), mk(M3(), P(p3)), 0, 0, "transformFromPosition3D");
  t = am::transformFromPose2D(p);
  am::Transform before = t;
  am::transformFromPosition3DInPlace(p3, t);
  NEARH(toH(t), mk(R(before), P(p3)), 0, 0, "transformFromPosition3DInPlace keeps the rotation");
  // planar and six-component poses
  am::Position6D p6 = am::position6DFromPose2D(p), p6b(9, 8, 7, 6, 5, 4);
  am::position6DFromPose2DInPlace(p, p6b);
  CHECK(p6 == am::Position6D(p.x, p.y, 0, 0, 0, p.theta) && p6b == p6, "position6DFromPose2D");
  am::Position6D a6(s.real(-m, m), s.real(-m, m), s.real(-m, m), s.real(-7, 7), s.real(-7, 7), s.real(-7, 7));
  am::Pose2D q = am::pose2DFromPosition6D(a6), qb(1, 2, 3);
  am::pose2DFromPosition6DInPlace(a6, qb);
  CHECK(q == am::Pose2D(a6.x, a6.y, a6.wz) && qb == q, "pose2DFromPosition6D");
  CHECK(am::position3DFromPosition6D(a6) == am::Position3D(a6.x, a6.y, a6.z), "position3DFromPosition6D");
  am::Position2D w = am::position2DFromPose2D(p), wb(1, 2);
  am::position2DFromPose2DInPlace(p, wb);
  CHECK(w == am::Position2D(p.x, p.y) && wb == w, "position2DFromPose2D");
  am::Pose2D v = am::pose2DFromPosition2D(w, p.theta), vb(1, 2, 3);
  am::pose2DFromPosition2DInPlace(w, p.theta, vb);
  CHECK(v == p && vb == p, "pose2DFromPosition2D");
  CHECK(am::pose2DFromPosition2D(w) == am::Pose2D(p.x, p.y, 0), "pose2DFromPosition2D, default angle");
  am::Position6D u6 = am::position6DFromPosition3D(p3), u6b(9, 8, 7, 6, 5, 4);
  am::position6DFromPosition3DInPlace(p3, u6b);
  CHECK(u6 == am::Position6D(p3.x, p3.y, p3.z, 0, 0, 0) && u6b == u6, "position6DFromPosition3D");
  am::Velocity6D vel(a6.x, a6.y, a6.z, a6.wx, a6.wy, a6.wz);
  CHECK(am::position6DFromVelocity6D(vel) == a6, "position6DFromVelocity6D");
  CHECK(am::Pose2D(p.x, p.y, p.theta).toVector() == std::vector<float>({p.x, p.y, p.theta}), "toVector");
  s.nontrivial(p.theta != 0 && p.x != p.y);
}

PBT_FACET(axis_rotation, 300000) {
  // rotations about a coordinate axis with a translation
  float a = (float)genTurns(s);
  am::Position3D p = toP(genVec(s, genScale(s)));
  static const int masks[] = {am::AXIS_MASK_X, am::AXIS_MASK_Y, am::AXIS_MASK_Z, am::AXIS_MASK_WX,
                              am::AXIS_MASK_WY, am::AXIS_MASK_WZ, am::AXIS_MASK_NONE};
  int m = masks[s.draw(7)];
  M3 r = m == am::AXIS_MASK_X ? rotX(a) : m == am::AXIS_MASK_Y ? rotY(a) : m == am::AXIS_MASK_Z ? rotZ(a) : M3();
  NOTE("mask " << m << " angle " << a << " position " << P(p));
  NEARH(toH(am::transformFromRotVec(m, a, p)), mk(r, P(p)), 4e-7, 0, "transformFromRotVec");
  am::Transform t = genTransform(s, 3);
  am::transformFromRotVecInPlace(m, a, p, t);
  NEARH(toH(t), mk(r, P(p)), 4e-7, 0, "transformFromRotVecInPlace");
  NEARH(toH(am::transformFromRotVec(m, a)), mk(r, V3()), 4e-7, 0, "transformFromRotVec");
  t = genTransform(s, 3);
  am::transformFromRotVecInPlace(p, t);
  NEARH(toH(t), mk(M3(), P(p)), 0, 0, "transformFromRotVecInPlace");
  NEARH(toH(am::transformFromRotVec(p)), mk(M3(), P(p)), 0, 0, "transformFromRotVec");
  NEARM(R(am::rotationFromRotX(a)), rotX(a), 4e-7, "rotationFromRotX");
  NEARM(R(am::rotationFromRotY(a)), rotY(a), 4e-7, "rotationFromRotY");
  NEARM(R(am::rotationFromRotZ(a)), rotZ(a), 4e-7, "rotationFromRotZ");
  NEARM(R(am::Rotation::fromRotX(a)), rotX(a), 4e-7, "fromRotX");
  NEARM(R(am::Rotation::fromRotY(a)), rotY(a), 4e-7, "fromRotY");
  NEARM(R(am::Rotation::fromRotZ(a)), rotZ(a), 4e-7, "fromRotZ");
  // the constants
  NEARM(R(am::Rotation::fromRotXPi()), rotX(M_PI), 1e-15, "fromRotXPi");
  NEARM(R(am::Rotation::fromRotYPi()), rotY(M_PI), 1e-15, "fromRotYPi");
  NEARM(R(am::Rotation::fromRotZPi()), rotZ(M_PI), 1e-15, "fromRotZPi");
  NEARM(R(am::Rotation::fromRotZHalfPi()), rotZ(M_PI / 2), 1e-15, "fromRotZHalfPi");
  s.nontrivial(a != 0);
}
