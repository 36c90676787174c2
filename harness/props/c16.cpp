// C16: occupancy map pixels and metric coordinates are mutually inverse.
#include "ref.h"
#include <almath/types/occupancymapparams.h>
using namespace ref;

namespace {
struct Map {
  int size;
  float mpp, thr;
  am::Position2D centre;
};
Map genMap(Src &s) {
  Map m;
  m.size = s.coin() ? (int)s.range(1, 1000) : (int)s.pick({100, 101, 1, 2, 3, 1024, 20000});
  m.mpp = s.coin() ? s.pick({0.1f, 0.05f, 0.01f, 1.f, 0.25f}) : (float)std::pow(10., s.real(-3, 1));
  double ext = m.size * (double)m.mpp;
  double k = s.coin() ? ext : 10 * m.mpp;
  m.centre = s.chance(1, 4) ? am::Position2D() : am::Position2D((float)(k * s.real(-3, 3)), (float)(k * s.real(-3, 3)));
  m.thr = s.real(0, 1);
  return m;
}
// error of a pixel coordinate, in pixels
double perr(const Map &m, double px) {
  double mag = std::fabs(px) + m.size + std::max(std::fabs(m.centre.x), std::fabs(m.centre.y)) / (double)m.mpp;
  return 8 * EPS * mag;
}
void nearest(Src &s, const char *what, int got, double exact, double err) {
  double d = std::fabs(got - exact);
  CHECK(d <= 0.5 + err, what << " " << got << " is not the nearest to " << exact);
}
void verify(Src &s, const am::OccupancyMapParams &p, const Map &m) {
  CHECK(p.size == m.size && p.metersPerPixel == m.mpp, "parameters");
  CHECK(p.getObstacleProbabilityThreshold() == m.thr && p.obstacleProbabilityThreshold == m.thr, "threshold");
  double mpp = m.mpp;
  double cx = m.centre.x, cy = m.centre.y, h = m.size / 2. * mpp;
  double merr = 4 * EPS * (std::fabs(cx) + std::fabs(cy) + h);
  NEAR(p.originOffset.x, cx - h, merr, "pixel (0, 0)");
  NEAR(p.originOffset.y, cy + h, merr, "pixel (0, 0)");
  // a pixel
  int lim = s.chance(1, 4) ? 4 * m.size : m.size;
  am::Point2Di px((int)s.range(s.chance(1, 4) ? -lim : 0, lim), (int)s.range(s.chance(1, 4) ? -lim : 0, lim));
  float theta = (float)genAngle(s, 10);
  am::Position2D pos = p.getPositionFromPixel(px);
  am::Pose2D pose = p.getPoseFromPixel(am::Pose2Di(px, theta));
  NOTE("pixel " << px.x << " " << px.y << " -> " << pos.x << " " << pos.y);
  double e = merr + 4 * EPS * mpp * (std::abs(px.x) + std::abs(px.y));
  NEAR(pos.x, cx - h + px.x * mpp, e, "position of the pixel");
  NEAR(pos.y, cy + h - px.y * mpp, e, "position of the pixel (rows go downwards)");
  NEAR(pose.x, pos.x, e, "pose of the pixel");
  NEAR(pose.y, pos.y, e, "pose of the pixel");
  CHECK(pose.theta == theta, "orientation of the pixel");
  am::Point2Di back = p.getPixelFromPosition(pos), back2 = p.getPixelFromPose(pose);
  CHECK(back == px, "pixel (" << px.x << ", " << px.y << ") converted back to (" << back.x << ", " << back.y << ")");
  CHECK(back2 == px, "pixel (" << px.x << ", " << px.y << ") converted back to (" << back2.x << ", " << back2.y << ")");
  // a position
  double u = s.real(-1, 2), v = s.real(-1, 2);
  am::Position2D q((float)(cx - h + 2 * h * u), (float)(cy + h - 2 * h * v));
  if (s.chance(1, 3)) {  // around the limit between pixels
    double k = (double)s.range(0, m.size) + 0.5 + (s.coin() ? 1e-3 : -1e-3) * s.unit();
    q.x = (float)(cx - h + k * mpp);
  }
  am::Point2Di a = p.getPixelFromPosition(q), b = p.getPixelFromPose(am::Pose2D(q.x, q.y, theta));
  NOTE("position " << q.x << " " << q.y << " -> pixel " << a.x << " " << a.y);
  CHECK(a == b, "pixel of a position and of a pose");
  double ex = (q.x - (cx - h)) / mpp, ey = ((cy + h) - q.y) / mpp;
  nearest(s, "column", a.x, ex, perr(m, ex));
  nearest(s, "row", a.y, ey, perr(m, ey));
  am::Position2D r = p.getPositionFromPixel(a);
  NEAR(r.x, q.x, mpp * (0.5 + 2 * perr(m, ex)), "position converted back");
  NEAR(r.y, q.y, mpp * (0.5 + 2 * perr(m, ey)), "position converted back");
  // differences do not depend on the origin
  am::Position2D d((float)(s.real(-1, 1) * 2 * h), (float)(s.real(-1, 1) * 2 * h));
  am::Point2Di dp = p.getDeltaPixelFromDeltaPosition(d);
  NOTE("difference " << d.x << " " << d.y << " -> " << dp.x << " " << dp.y);
  nearest(s, "column difference", dp.x, d.x / mpp, 8 * EPS * m.size);
  nearest(s, "row difference", dp.y, -d.y / mpp, 8 * EPS * m.size);
  am::Position2D dm(-d.x, -d.y);
  am::Point2Di dpm = p.getDeltaPixelFromDeltaPosition(dm);
  CHECK(dpm.x == -dp.x && dpm.y == -dp.y, "opposite difference");
  am::Point2Di so = am::OccupancyMapParams::getPixelFromOffsetAndScale(am::Pose2D(q.x, q.y, theta), m.mpp, p.originOffset);
  CHECK(so == a, "offset and scale");
}
}  // namespace

PBT_FACET(coordinates, 6000000) {
  Map m = genMap(s);
  NOTE("map " << m.size << " pixels of " << m.mpp << " centred on " << m.centre.x << " " << m.centre.y);
  am::OccupancyMapParams p(m.size, m.mpp, m.centre, m.thr);
  verify(s, p, m);
  int n = (int)s.range(0, 3);
  for (int i = 0; i < n; ++i) {  // the map is moved
    am::OccupancyMapParams copy(p);
    m.centre = s.coin() ? am::Position2D(m.centre.x + s.real(-5, 5), m.centre.y + s.real(-5, 5)) : genMap(s).centre;
    if (std::hypot(m.centre.x, m.centre.y) > 100 * m.size * (double)m.mpp) break;
    NOTE("centre moved to " << m.centre.x << " " << m.centre.y);
    p.initOriginOffset(m.centre);
    verify(s, p, m);
    copy.initOriginOffset(m.centre);
    CHECK(copy.originOffset == p.originOffset, "copy");
  }
  s.nontrivial(m.size > 1 && (m.centre.x != 0 || m.centre.y != 0));
}

PBT_FACET(types, 1000000) {
  int a = (int)s.range(-1000, 1000), b = (int)s.range(-1000, 1000), da = (int)s.range(-1, 1), db = (int)s.range(-1, 1);
  float th = s.real(-4, 4), dt = s.coin() ? 0 : (s.coin() ? 1 : -1) * (s.coin() ? 1e-5f : 1.f);
  NOTE(a << " " << b << " " << th << " differences " << da << " " << db << " " << dt);
  am::Point2Di p(a, b), q(a + da, b + db);
  CHECK(p.x == a && p.y == b, "point");
  CHECK((p == q) == (da == 0 && db == 0), "equality of points");
  am::Pose2Di x(a, b, th), y(am::Point2Di(a + da, b + db), th + dt);
  CHECK(x.x == a && x.y == b && x.theta == th, "pose");
  CHECK(y.x == a + da && y.y == b + db && y.theta == th + dt, "pose from a point");
  CHECK((x == y) == (da == 0 && db == 0 && dt == 0), "equality of poses");
  // headings which differ by less than a millionth of a radian are the same
  float small = s.real(-0.5, 0.5), e = s.real(-8e-7, 8e-7);
  CHECK(am::Pose2Di(a, b, small) == am::Pose2Di(a, b, small + e), "headings " << small << " and " << small + e);
  CHECK(!(am::Pose2Di(a, b, small) == am::Pose2Di(a, b, small + (e < 0 ? -1.3e-6f : 1.3e-6f) + e)), "headings apart by 1.3e-6 and more");
  am::Point2Di z;
  am::Pose2Di turned(am::Point2Di(a, b));
  CHECK(turned.x == a && turned.y == b && turned.theta == 0.f, "default heading");
  am::Pose2Di w;
  CHECK(z.x == 0 && z.y == 0 && w.x == 0 && w.y == 0 && w.theta == 0, "default values");
  // rounding to the nearest integer
  float v = s.coin() ? s.real(-1e6, 1e6) : (float)s.range(-1000, 1000) + 0.5f + s.real(-0.1, 0.1);
  int r = am::roundToInt(v);
  CHECK(std::fabs(r - (double)v) <= 0.5 + EPS * (1 + std::fabs(v)), "round(" << v << ") = " << r);
  CHECK(am::roundToInt(-v) == -r, "round(" << -v << ")");
  s.nontrivial(da || db || dt != 0);
}
