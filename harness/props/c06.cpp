// C06: planar poses compose, invert and act on points as rigid motions of the
// plane.
#include "ref.h"
using namespace ref;

namespace {
struct P2 {  // exact planar pose
  double x = 0, y = 0, t = 0;
};
P2 mul(P2 a, P2 b) {
  P2 c;
  c.x = a.x + std::cos(a.t) * b.x - std::sin(a.t) * b.y;
  c.y = a.y + std::sin(a.t) * b.x + std::cos(a.t) * b.y;
  c.t = a.t + b.t;
  return c;
}
P2 inv2(P2 a) {
  P2 c;
  c.t = -a.t;
  c.x = -(std::cos(a.t) * a.x + std::sin(a.t) * a.y);
  c.y = -(-std::sin(a.t) * a.x + std::cos(a.t) * a.y);
  return c;
}
P2 toP2(const am::Pose2D &p) {
  P2 r;
  r.x = p.x;
  r.y = p.y;
  r.t = p.theta;
  return r;
}
double len(P2 a) { return std::hypot(a.x, a.y); }
struct Reg {
  am::Pose2D impl;
  P2 m;
  double et = 0, ea = 0;  // error bounds: translation, angle
};
am::Pose2D genPose(Src &s, double m) {
  return am::Pose2D(s.real(-m, m), s.real(-m, m), (float)genAngle(s, 2 * PI));
}
}  // namespace

PBT_FACET(history, 600000) {
  double scale = s.pick<double>({1., 100., 1e-2, 1e5});
  Reg reg[3];
  for (auto &r : reg) {
    r.impl = genPose(s, scale);
    r.m = toP2(r.impl);
    NOTE("pose " << r.m.x << " " << r.m.y << " " << r.m.t);
  }
  const int n = 1 + s.draw(20);
  int rich = 0;
  for (int k = 0; k < n; ++k) {
    int a = s.draw(3), b = s.draw(3), c = s.draw(3), op = s.draw(10);
    NOTE("op " << op << " on " << a << " " << b << " " << c);
    Reg r;
    const Reg &B = reg[b], &C = reg[c];
    auto product = [&](const Reg &u, const Reg &v) {
      r.m = mul(u.m, v.m);
      r.ea = u.ea + v.ea + 1e-7 * (1 + std::fabs(u.m.t) + std::fabs(v.m.t));
      r.et = u.et + v.et + u.ea * len(v.m) + 4e-7 * (len(u.m) + len(v.m)) + 1e-30;
    };
    auto inverse = [&](const Reg &u) {
      Reg i;
      i.m = inv2(u.m);
      i.ea = u.ea;
      i.et = u.et + u.ea * len(u.m) + 4e-7 * len(u.m) + 1e-30;
      return i;
    };
    switch (op) {
      case 0:
        product(B, C);
        r.impl = B.impl * C.impl;
        ++rich;
        break;
      case 1:
      case 2: {
        product(B, b == c ? B : C);
        r.impl = B.impl;
        // only products of distinct operands, and of a copy
        am::Pose2D other = C.impl;
        am::Pose2D &self = (r.impl *= other);
        CHECK(&self == &r.impl, "operator*= returns its operand");
        ++rich;
        break;
      }
      case 3: {
        Reg i = inverse(B);
        r = i;
        switch (s.draw(5)) {
          case 0: r.impl = B.impl.inverse(); break;
          case 1: r.impl = am::pose2DInverse(B.impl); break;
          case 2: r.impl = am::pinv(B.impl); break;
          case 3:
            r.impl = am::Pose2D(1, 2, 3);
            am::pose2DInverse(B.impl, r.impl);
            break;
          default:
            r.impl = B.impl;
            am::pose2dInvertInPlace(r.impl);
            break;
        }
        break;
      }
      case 4:
      case 5: {
        product(inverse(B), C);
        r.impl = op == 4 ? B.impl.diff(C.impl) : am::pose2dDiff(B.impl, C.impl);
        ++rich;
        break;
      }
      case 6: {
        r = B;
        std::vector<float> v = B.impl.toVector();
        r.impl = am::Pose2D(v);
        CHECK(r.impl == B.impl, "vector round trip");
        break;
      }
      default:
        r.impl = genPose(s, scale);
        r.m = toP2(r.impl);
        break;
    }
    NEAR(r.impl.x, r.m.x, 2 * r.et + 2e-7 * len(r.m), "x");
    NEAR(r.impl.y, r.m.y, 2 * r.et + 2e-7 * len(r.m), "y");
    NEAR(r.impl.theta, r.m.t, 2 * r.ea + 2e-7 * std::fabs(r.m.t), "theta");
    // agreement with 3D
    NEARH(toH(am::transformFromPose2D(r.impl)), mk(rotZ(r.m.t), V3(r.m.x, r.m.y, 0)),
          2 * r.ea + 1e-6, 2 * r.et + 1e-6 * len(r.m), "as a transform");
    if (op == 0 || op == 1)
      NEARH(toH(am::transformFromPose2D(B.impl) * am::transformFromPose2D(C.impl)),
            toH(am::transformFromPose2D(r.impl)), 4 * r.ea + 4e-6, 4 * r.et + 4e-6 * (len(B.m) + len(C.m)), "3D product");
    // action on points
    am::Position2D p(s.real(-10, 10), s.real(-10, 10));
    P2 q;
    q.x = p.x;
    q.y = p.y;
    P2 e = mul(r.m, q);
    am::Position2D f = r.impl * p;
    double tol = 2 * r.et + (2 * r.ea + 1e-6) * len(q) + 1e-6 * len(r.m);
    NEAR(f.x, e.x, tol, "action on a point, x");
    NEAR(f.y, e.y, tol, "action on a point, y");
    // inverse law
    am::Pose2D id = r.impl * r.impl.inverse();
    double mag = len(toP2(r.impl));
    NEAR(id.x, 0, 4e-6 * mag + 1e-6 * std::fabs(r.m.t) * mag + 1e-30, "p * p^-1");
    NEAR(id.y, 0, 4e-6 * mag + 1e-6 * std::fabs(r.m.t) * mag + 1e-30, "p * p^-1");
    CHECK(id.theta == 0, "p * p^-1");
    // distances
    double d = std::hypot((double)r.impl.x - B.impl.x, (double)r.impl.y - B.impl.y);
    double td = 4e-7 * (d + len(r.m) + len(B.m)) + 1e-22;
    NEAR(r.impl.distance(B.impl), d, td, "distance");
    NEAR(am::distance(r.impl, B.impl), d, td, "distance");
    NEAR(r.impl.distanceSquared(B.impl), d * d, 2 * d * td + 1e-6 * d * d + 1e-30, "distanceSquared");
    NEAR(am::distanceSquared(r.impl, B.impl), d * d, 2 * d * td + 1e-6 * d * d + 1e-30, "distanceSquared");
    if (r.ea > 1e-4 || len(r.m) > 1e4 * scale || std::fabs(r.m.t) > 60) {
      r.impl = genPose(s, scale);
      r.m = toP2(r.impl);
      r.et = r.ea = 0;
    }
    reg[a] = r;
  }
  s.nontrivial(rich >= 2 && len(reg[0].m) > 0 && reg[0].m.t != 0);
}

PBT_FACET(self_product, 200000) {
  am::Pose2D p = genPose(s, 10), q = p;
  P2 e = mul(toP2(p), toP2(p));
  NOTE("pose " << p.x << " " << p.y << " " << p.theta);
  q *= p;
  NEAR(q.x, e.x, 1e-5, "x");
  NEAR(q.y, e.y, 1e-5, "y");
  NEAR(q.theta, e.t, 1e-5, "theta");
  am::Pose2D r = p;
  r *= r;
  NEAR(r.x, e.x, 1e-5, "x, composed with itself in place");
  NEAR(r.y, e.y, 1e-5, "y, composed with itself in place");
  NEAR(r.theta, e.t, 1e-5, "theta, composed with itself in place");
  s.nontrivial(p.theta != 0 && p.x != 0);
}

PBT_FACET(polar_and_norm, 600000) {
  float radius = s.real(0, 100), a = (float)genAngle(s, 2 * PI);
  NOTE("radius " << radius << " angle " << a);
  am::Pose2D p = am::Pose2D::fromPolarCoordinates(radius, a);
  NEAR(p.x, radius * std::cos((double)a), 2e-7 * radius, "x");
  NEAR(p.y, radius * std::sin((double)a), 2e-7 * radius, "y");
  CHECK(p.theta == a, "theta");
  am::Position2D q = am::Position2D::fromPolarCoordinates(radius, a);
  NEAR(q.x, radius * std::cos((double)a), 2e-7 * radius, "x");
  NEAR(q.y, radius * std::sin((double)a), 2e-7 * radius, "y");
  if (radius > 1e-10) {
    NEARM(rotZ(q.getAngle()), rotZ(a), 1e-6, "angle of a polar position");
    NEARM(rotZ(p.getAngle()), rotZ(a), 1e-6, "angle of a polar pose");
  }
  am::Pose2D u = genPose(s, s.pick<double>({1., 100., 1e-2, 1e5}));
  if (s.chance(1, 4)) u.theta = (float)genTurns(s);
  NOTE("pose " << u.x << " " << u.y << " " << u.theta);
  double n = std::hypot((double)u.x, (double)u.y);
  NEAR(u.norm(), n, 4e-7 * n + 1e-22, "norm");
  if (n > 1e-12) NEAR(u.getAngle(), std::atan2((double)u.y, (double)u.x), 1e-6, "angle");
  if (n > 1.1e-4) {
    am::Pose2D v = u.normalize();
    NEAR(v.x, u.x / n, 1e-6, "normalised x");
    NEAR(v.y, u.y / n, 1e-6, "normalised y");
    CHECK(v.theta == u.theta, "normalised theta");
  }
  am::Position2D b(u.x, u.y), c(s.real(-100, 100), s.real(-100, 100));
  NEAR(b.norm(), n, 4e-7 * n + 1e-22, "norm");
  NEAR(am::norm(b), n, 4e-7 * n + 1e-22, "norm");
  if (n > 1e-15) {
    am::Position2D v = b.normalize(), w = am::normalize(b);
    CHECK(v == w, "forms");
    NEAR(v.x, u.x / n, 1e-6, "normalised x");
    NEAR(v.y, u.y / n, 1e-6, "normalised y");
  }
  double tol = 4e-7 * n * std::hypot((double)c.x, (double)c.y) + 1e-30;
  double dotp = (double)b.x * c.x + (double)b.y * c.y, cr = (double)b.x * c.y - (double)b.y * c.x;
  NEAR(b.dotProduct(c), dotp, tol, "dot product");
  NEAR(am::dotProduct(b, c), dotp, tol, "dot product");
  NEAR(b.crossProduct(c), cr, tol, "cross product");
  NEAR(am::crossProduct(b, c), cr, tol, "cross product");
  float out = 7;
  am::crossProduct(b, c, out);
  NEAR(out, cr, tol, "cross product");
  double d = std::hypot((double)b.x - c.x, (double)b.y - c.y);
  double td = 4e-7 * (d + n + std::hypot((double)c.x, (double)c.y));
  NEAR(b.distance(c), d, td, "distance");
  NEAR(am::distance(b, c), d, td, "distance");
  NEAR(b.distanceSquared(c), d * d, 2 * d * td + 1e-6 * d * d, "distanceSquared");
  NEAR(am::distanceSquared(b, c), d * d, 2 * d * td + 1e-6 * d * d, "distanceSquared");
  // refusals
  am::Pose2D z(0, 0, a);
  THROWS(z.normalize(), "null vector");
  CHECK(z == am::Pose2D(0, 0, a), "unchanged");
  THROWS(am::Position2D(0, 0).normalize(), "null vector");
  THROWS(am::normalize(am::Position2D(0, 0)), "null vector");
  s.nontrivial(n > 0 && radius > 0 && a != 0);
}
