// C11: Dubins solutions are feasible paths made of two turns and a tangent.
#include "ref.h"
#include <almath/tools/aldubinscurve.h>
#include <almath/tools/altrigonometry.h>
using namespace ref;

namespace {
struct C2 {
  double x, y;
};
// centre of the turn at a pose; side = 1 left, -1 right
C2 centre(double x, double y, double th, int side, double r) {
  return C2{x - side * r * std::sin(th), y + side * r * std::cos(th)};
}
double wrapDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * PI)); }
}  // namespace

PBT_FACET(paths, 4000000) {
  float r = s.coin() ? 0.1f : (float)std::pow(10., s.real(-2, 2));
  double dir = genAngle(s);
  double dist = 4 * r * (s.chance(1, 6) ? 1 + 1e-6 : s.coin() ? 1 + 2 * s.unit() : std::pow(10., 3 * s.unit()));
  am::Pose2D t((float)(dist * std::cos(dir)), (float)(dist * std::sin(dir)), (float)genAngle(s));
  if (s.chance(1, 12)) (s.coin() ? t.x : t.y) = 0;  // straight ahead, behind or beside
  if (s.chance(1, 10)) t.theta += (float)(2 * PI * (double)s.range(-2, 2));
  NOTE("target " << t.x << " " << t.y << " " << t.theta << " radius " << r);
  double d = std::hypot((double)t.x, (double)t.y), scale = d + 4 * r;
  std::vector<am::Pose2D> v;
  try {
    v = am::getDubinsSolutions(t, r);
  } catch (const std::invalid_argument &) {
    CHECK(d < 4 * r * (1 + 1e-6), "refused");
    return;
  }
  CHECK(d > 4 * r * (1 - 1e-6), "accepted");
  CHECK(v.size() == 3, v.size() << " checkpoints");
  NOTE("checkpoints " << v[0].x << " " << v[0].y << " " << v[0].theta << "; " << v[1].x << " " << v[1].y << " " << v[1].theta);
  CHECK(v[2] == t, "the last checkpoint is the target");
  const am::Pose2D &p = v[0], &q = v[1];
  // straight part, along the heading
  double dx = (double)q.x - p.x, dy = (double)q.y - p.y, L = std::hypot(dx, dy);
  double epos = 1e-6 * scale;          // position error
  // near the closest admissible targets, cross tangents are ill-conditioned
  double eang = 3e-6 + 4 * epos / std::max(L, 1e-30);
  if (L > 10 * epos) {
    NEAR(wrapDiff(std::atan2(dy, dx), p.theta), 0, eang, "heading of the straight part at the first checkpoint");
    NEAR(wrapDiff(std::atan2(dy, dx), q.theta), 0, eang, "heading of the straight part at the second checkpoint");
  }
  CHECK(wrapDiff(p.theta, q.theta) < 3e-6, "both ends of the straight part have the same heading");
  // the turns: on a circle of the given radius, tangent to the heading, in the direction of travel
  int first = 0, last = 0;
  double e1[2], e2[2], best1 = 1e30, best2 = 1e30;
  for (int side : {1, -1}) {
    C2 c0 = centre(0, 0, 0, side, r), c1 = centre(p.x, p.y, p.theta, side, r);
    double e = std::hypot(c0.x - c1.x, c0.y - c1.y);
    e1[side < 0] = e;
    if (e < best1) best1 = e, first = side;
    C2 c2 = centre(t.x, t.y, t.theta, side, r), c3 = centre(q.x, q.y, q.theta, side, r);
    e = std::hypot(c2.x - c3.x, c2.y - c3.y);
    e2[side < 0] = e;
    if (e < best2) best2 = e, last = side;
  }
  double etol = 3 * epos + r * eang;
  NEAR(best1, 0, etol, "the first turn does not start at the origin with the given radius");
  NEAR(best2, 0, etol, "the last turn does not end at the target with the given radius");
  if (L > 100 * epos && r > 20 * etol) {
    // headings count the turn in its direction
    double a1 = p.theta, a2 = (double)t.theta - q.theta;
    // (a null turn belongs to both sides)
    bool both1 = std::max(e1[0], e1[1]) < 4 * etol, both2 = std::max(e2[0], e2[1]) < 4 * etol;
    CHECK(both1 || a1 * first > -1e-5, "first turn " << (first > 0 ? "left" : "right") << " by " << a1);
    if (std::fabs(t.theta) <= am::PI) {
      CHECK(both2 || a2 * last > -1e-5, "last turn " << (last > 0 ? "left" : "right") << " by " << a2);
      CHECK(std::fabs(a2) < 2 * PI + 1e-5, "last turn by " << a2);
    }
    CHECK(std::fabs(a1) < 2 * PI + 1e-5, "first turn by " << a1);
    s.label(first > 0 ? (last > 0 ? "LSL" : "LSR") : (last > 0 ? "RSL" : "RSR"));
  }
  // the straight part is the shortest of the four candidates
  double shortest = 1e30, second = 1e30;
  for (int a : {1, -1})
    for (int b : {1, -1}) {
      C2 c = centre(0, 0, 0, a, r), e = centre(t.x, t.y, t.theta, b, r);
      double dd = std::pow(c.x - e.x, 2) + std::pow(c.y - e.y, 2);
      double l2 = a == b ? dd : dd - 4. * r * r;
      if (l2 < 4e-6 * scale * scale) continue;  // may be lost to rounding
      if (l2 < shortest) {
        second = shortest;
        shortest = l2;
      } else {
        second = std::min(second, l2);
      }
    }
  CHECK(L * L <= shortest + 6e-6 * scale * scale, "straight part " << L << " instead of " << std::sqrt(shortest));
  // mirror image
  if (second > shortest + 2e-5 * scale * scale) {
    std::vector<am::Pose2D> m = am::getDubinsSolutions(am::Pose2D(t.x, -t.y, -t.theta), r);
    CHECK(m.size() == 3, "size");
    for (int i = 0; i < 3; ++i) {
      NEAR(m[i].x, v[i].x, etol, "mirror image, checkpoint " << i);
      NEAR(m[i].y, -v[i].y, etol, "mirror image, checkpoint " << i);
      NEAR(wrapDiff(m[i].theta, -v[i].theta), 0, 3 * eang + 1e-6 * std::fabs(t.theta), "mirror image, checkpoint " << i);
    }
    // scaling
    float k = (float)std::pow(2., (double)s.range(-3, 3));
    m = am::getDubinsSolutions(am::Pose2D(k * t.x, k * t.y, t.theta), k * r);
    for (int i = 0; i < 3; ++i) {
      NEAR(m[i].x, k * v[i].x, k * etol, "scaled, checkpoint " << i);
      NEAR(m[i].y, k * v[i].y, k * etol, "scaled, checkpoint " << i);
      NEAR(wrapDiff(m[i].theta, v[i].theta), 0, 3 * eang, "scaled, checkpoint " << i);
    }
  }
  s.nontrivial(L > 100 * epos && std::fabs(t.y) > 0 && t.theta != 0);
}

PBT_FACET(refusals, 400000) {
  float r = (float)std::pow(10., s.real(-2, 2));
  double dir = genAngle(s), dist = 4 * r * (1 - 1e-5) * s.unit();
  am::Pose2D t((float)(dist * std::cos(dir)), (float)(dist * std::sin(dir)), (float)genAngle(s));
  NOTE("target " << t.x << " " << t.y << " radius " << r);
  THROWS(am::getDubinsSolutions(t, r), "target nearer than 4 radii");
  s.nontrivial(dist > 0);
}

// targets at exactly four radii are accepted
PBT_FACET(nearest, 200000) {
  float k = (float)std::pow(2., (double)s.range(-8, 8));
  struct {
    int r, x, y;
  } c{1, 4, 0};
  if (s.coin()) c.r = 5, c.x = 12, c.y = 16;
  if (s.coin()) std::swap(c.x, c.y);
  if (s.coin()) c.x = -c.x;
  if (s.coin()) c.y = -c.y;
  am::Pose2D t(k * c.x, k * c.y, (float)genAngle(s));
  float r = k * c.r;
  NOTE("target " << t.x << " " << t.y << " " << t.theta << " radius " << r);
  std::vector<am::Pose2D> v = am::getDubinsSolutions(t, r);
  CHECK(v.size() == 3 && v[2] == t, "checkpoints");
  for (auto &p : v) CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), "checkpoints");
  for (int i = 0; i < 2; ++i) {
    // the checkpoints are on circles of the given radius through the origin and the target
    am::Pose2D o = i ? t : am::Pose2D();
    double best = 1e30;
    for (int side : {1, -1}) {
      C2 a = centre(o.x, o.y, o.theta, side, r);
      best = std::min(best, std::fabs(std::hypot(a.x - v[i].x, a.y - v[i].y) - r));
    }
    NEAR(best, 0, 2e-5 * r, "distance of checkpoint " << i << " to its turn");
  }
  THROWS(am::getDubinsSolutions(am::Pose2D(t.x * (1 - 1e-6f), t.y * (1 - 1e-6f), t.theta), r), "slightly nearer");
  s.nontrivial(t.theta != 0);
}
