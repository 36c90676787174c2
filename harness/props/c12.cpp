// C12: the feet never overlap after collision avoidance.
#include "ref.h"
#include <almath/tools/avoidfootcollision.h>
using namespace ref;

namespace {
typedef std::vector<am::Position2D> Box;

struct P2 {
  double x, y;
};
typedef std::vector<P2> DBox;

DBox moved(const Box &b, double x, double y, double th) {
  DBox r;
  double c = std::cos(th), n = std::sin(th);
  for (auto &p : b) r.push_back(P2{x + c * p.x - n * p.y, y + n * p.x + c * p.y});
  return r;
}
// signed gap between convex polygons: > 0 separated by that distance (at
// least along one edge normal), < 0 overlapping with that depth
double gap(const DBox &a, const DBox &b) {
  double best = -1e300;
  for (int k = 0; k < 2; ++k) {
    const DBox &e = k ? b : a, &o = k ? a : b;
    for (size_t i = 0; i < e.size(); ++i) {
      P2 p = e[i], q = e[(i + 1) % e.size()];
      double dx = q.x - p.x, dy = q.y - p.y, n = std::hypot(dx, dy);
      if (n == 0) continue;
      double m = 1e300;  // clockwise: outside is on the left
      for (auto &v : o) m = std::min(m, (dx * (v.y - p.y) - dy * (v.x - p.x)) / n);
      best = std::max(best, m);
    }
  }
  return best;
}
DBox dbl(const Box &b) { return moved(b, 0, 0, 0); }
std::string str(const Box &b) {
  std::ostringstream o;
  o << std::setprecision(9);
  for (auto &p : b) o << "(" << p.x << ", " << p.y << ")";
  return o.str();
}
// a clockwise rectangle around the origin, any corner first
Box genBox(Src &s) {
  Box b;
  if (s.chance(1, 6)) {  // the box of the robot's foot
    b = {am::Position2D(0.08f, 0.038f), am::Position2D(0.08f, -0.05f), am::Position2D(-0.047f, -0.05f),
         am::Position2D(-0.047f, 0.038f)};
    if (s.coin())
      for (auto &p : b) p.y += 0.012f;
  } else {
    float k = s.pick<float>({0.1f, 1.f, 0.05f, 3.f, 30.f});
    float x0 = k * (0.3f + (float)s.unit()), x1 = -k * (0.3f + (float)s.unit());
    float y0 = k * (0.3f + (float)s.unit()), y1 = -k * (0.3f + (float)s.unit());
    if (s.chance(1, 4)) {
      x0 = y0 = k;
      x1 = y1 = -k;
    }
    b = {am::Position2D(x0, y0), am::Position2D(x0, y1), am::Position2D(x1, y1), am::Position2D(x1, y0)};
  }
  std::rotate(b.begin(), b.begin() + s.draw(4), b.end());
  return b;
}
double radius(const Box &b) {
  double r = 0;
  for (auto &p : b) r = std::max(r, (double)std::hypot(p.x, p.y));
  return r;
}
// placements where the boxes are likely to be close
am::Pose2D genMove(Src &s, const Box &a, const Box &b) {
  double sc = radius(a) + radius(b);
  double dir = genAngle(s), d = sc * (s.chance(1, 8) ? 0 : s.chance(1, 4) ? 2 * s.unit() : 0.4 + 0.7 * s.unit());
  return am::Pose2D((float)(d * std::cos(dir)), (float)(d * std::sin(dir)), (float)genAngle(s, s.chance(1, 8) ? 2 * PI : PI));
}
}  // namespace

PBT_FACET(verdict, 1500000) {
  Box a = genBox(s), b = genBox(s);
  am::Pose2D m = genMove(s, a, b);
  if (s.chance(1, 5)) {  // same box moved along its own axes: aligned edges
    b = a;
    m.theta = 0;
    if (s.coin()) m.x = 0;
    if (s.coin()) m.y = 0;
  }
  Box c;
  if (s.chance(1, 4)) {  // both boxes in another frame
    am::Pose2D f((float)s.real(-1, 1), (float)s.real(-1, 1), (float)genAngle(s));
    am::computeBox(a, f, c);
    a = c;
    m = f * m;
  }
  am::computeBox(b, m, c);
  b = c;
  NOTE("A " << str(a) << " B " << str(b));
  double g = gap(dbl(a), dbl(b)), sc = std::max(radius(a), radius(b));
  bool col = am::areTwoBoxesInCollision(a, b);
  if (g > 5e-5 * sc)
    CHECK(!col, "separated by " << g);
  else if (g < -2e-5 * sc)
    CHECK(col, "overlapping by " << -g);
  else
    s.label("touching");
  s.label(g < 0 ? "overlap" : "separated");
  bool col2 = am::areTwoBoxesInCollision(b, a);
  if (std::fabs(g) > 2e-5 * sc) CHECK(col == col2, "verdict depends on the order of the boxes");
  s.nontrivial(std::fabs(g) < 0.5 * sc);
}

PBT_FACET(avoid, 700000) {
  Box l = genBox(s), r = genBox(s);
  bool leftSupport = s.coin();
  const Box &fixed = leftSupport ? l : r, &moving = leftSupport ? r : l;
  am::Pose2D req = genMove(s, fixed, moving);
  NOTE("left foot " << str(l) << " right foot " << str(r) << (leftSupport ? " left" : " right") << " support, move " << req.x << " " << req.y << " " << req.theta);
  double sc = std::max(radius(l), radius(r));
  DBox f = dbl(fixed);
  auto gapAt = [&](double th) { return gap(f, moved(moving, req.x, req.y, th)); };
  double g = gapAt(req.theta), g0 = gapAt(0);
  am::Pose2D res = req;
  const Box l0 = l, r0 = r;
  bool changed = am::avoidFootCollision(l, r, leftSupport, res);
  NOTE("result " << res.x << " " << res.y << " " << res.theta << (changed ? " changed" : " unchanged") << " gap of the request " << g << " unturned " << g0);
  CHECK(res.x == req.x && res.y == req.y, "the position of the foot is changed");
  CHECK(l == l0 && r == r0, "the boxes are changed");
  if (g > 5e-5 * sc) CHECK(!changed, "the request is free by " << g);
  if (g < -2e-5 * sc) CHECK(changed, "the request overlaps by " << -g);
  if (!changed) {
    CHECK(res.theta == req.theta, "not reported as changed");
  } else {
    double k = req.theta == 0 ? 0 : res.theta / (double)req.theta;
    CHECK(k >= 0 && k <= 1, "the result is not between the reference and the request");
    // free, unless nothing is free along the path
    double gr = gapAt(res.theta);
    if (res.theta != 0 || g0 > 5e-5 * sc) CHECK(gr > -2e-5 * sc, "the corrected placement overlaps by " << -gr);
    // and no much larger angle is free (5 bisections)
    if (req.theta != 0) {
      double lo = 1e300;
      for (int i = 0; i <= 16; ++i) lo = std::min(lo, gapAt(res.theta + req.theta * i / (16. * 32)));
      CHECK(lo < 5e-5 * sc, "the placement is reduced more than needed: free by " << lo << " up to 1/32 of the request further");
    }
    s.label(res.theta == 0 ? "null" : "reduced");
    s.nontrivial(res.theta != 0);
  }
  // the other foot in the same situation
  am::Pose2D res2 = req;
  bool changed2 = am::avoidFootCollision(r, l, !leftSupport, res2);
  CHECK(changed2 == changed && res2 == res, "the result depends on which foot is the support");
}

PBT_FACET(segments, 1000000) {
  float k = s.pick<float>({1.f, 0.1f, 10.f});
  am::Position2D p[4];
  for (auto &q : p) q = am::Position2D(k * s.real(-2, 2), k * s.real(-2, 2));
  if (s.chance(1, 3)) {  // a corner on the other segment
    float u = (float)s.unit();
    p[2] = am::Position2D(p[0].x + u * (p[1].x - p[0].x), p[0].y + u * (p[1].y - p[0].y));
  }
  NOTE("A (" << p[0].x << ", " << p[0].y << ") (" << p[1].x << ", " << p[1].y << ") B (" << p[2].x << ", " << p[2].y << ") (" << p[3].x << ", " << p[3].y << ")");
  am::Position2D c(77.f, 77.f);
  bool hit = am::intersectionSegment2D(p[0], p[1], p[2], p[3], c);
  double ax = (double)p[1].x - p[0].x, ay = (double)p[1].y - p[0].y, bx = (double)p[3].x - p[2].x, by = (double)p[3].y - p[2].y;
  double den = ax * by - ay * bx, wx = (double)p[2].x - p[0].x, wy = (double)p[2].y - p[0].y;
  double la = std::hypot(ax, ay), lb = std::hypot(bx, by);
  if (std::fabs(den) < 0.99e-5 - 1e-6 * la * lb) {
    CHECK(!hit, "parallel or infinitesimal segments");
    return;
  }
  if (std::fabs(den) < 1.01e-5 + 1e-6 * la * lb) return;
  if (la < 2e-5) return;
  double ra = (wx * by - wy * bx) / den, rb = (wx * ay - wy * ax) / den;
  double sinus = std::fabs(den) / (la * lb);
  double m = 4e-6 * k / sinus;  // distance error
  double outA = std::max(-ra, ra - 1) * la, outB = std::max(-rb, rb - 1) * lb;

  double ma = 3 * m;
  NOTE("parameters " << ra << " " << rb);
  if (outA > ma + 1.1e-5 * la || outB > m + 1.1e-5 * lb) {  // (tolerance on the ends)
    CHECK(!hit, "the segments do not meet: parameters " << ra << " " << rb);
  } else if (outA < -ma && outB < -m) {
    CHECK(hit, "the segments meet: parameters " << ra << " " << rb);
  }
  if (hit) {
    NEAR(c.x, p[0].x + ra * ax, ma, "intersection point");
    NEAR(c.y, p[0].y + ra * ay, ma, "intersection point");
    s.label("meet");
    s.nontrivial();
  }
}

PBT_FACET(moved_box, 200000) {
  Box b = genBox(s), c = {am::Position2D(1, 2)};
  if (s.chance(1, 4)) b.push_back(am::Position2D(s.real(-2, 2), s.real(-2, 2)));
  const double far = s.pick({2., 2., 100., 1e4});
  am::Pose2D m(s.real(-far, far), s.real(-far, far), (float)genTurns(s));
  NOTE("box " << str(b) << " move " << m.x << " " << m.y << " " << m.theta);
  am::computeBox(b, m, c);
  CHECK(c.size() == b.size(), "number of corners " << c.size());
  DBox d = moved(b, m.x, m.y, m.theta);
  for (size_t i = 0; i < c.size(); ++i) {
    NEAR(c[i].x, d[i].x, 1e-6 * far + 1e-6 * radius(b), "corner " << i);
    NEAR(c[i].y, d[i].y, 1e-6 * far + 1e-6 * radius(b), "corner " << i);
  }
  s.nontrivial(m.theta != 0);
}
