// C13: foot step clipping lands inside the allowed ellipse.
#include "ref.h"
#include <almath/tools/avoidfootcollision.h>
using namespace ref;

PBT_FACET(clip, 8000000) {
  // half-axes
  double a = s.coin() ? s.pick({0.08, 0.04, 0.06, 1.0}) : std::pow(10., -4 + 6.5 * s.unit());
  double ratio = s.coin() ? 1. + s.unit() : std::pow(10., 2 * s.unit());
  double b = s.coin() ? a * ratio : a / ratio;
  if (s.chance(1, 6)) b = a;
  float fa = (float)a * (s.chance(1, 4) ? -1 : 1), fb = (float)b * (s.chance(1, 4) ? -1 : 1);
  a = std::fabs(fa);
  b = std::fabs(fb);
  ratio = std::max(a / b, b / a);
  // placement, by its elliptical radius
  double phi = genAngle(s), rho = 0;
  switch (s.draw(6)) {
    case 0:
      rho = 1 + (s.coin() ? 1 : -1) * std::pow(10., -(double)s.range(1, 6));
      break;
    case 1:
      rho = std::pow(10., 4 * s.unit());
      break;
    case 2:
      rho = s.unit();
      break;
    default:
      rho = 2 * s.unit();
  }
  bool direction = s.coin();  // uniform in direction rather than in ellipse angle
  double x = a * rho * std::cos(phi), y = b * rho * std::sin(phi);
  if (direction) {
    double k = 1 / std::hypot(std::cos(phi) / a, std::sin(phi) / b);
    x = k * rho * std::cos(phi), y = k * rho * std::sin(phi);
  }
  am::Pose2D m((float)x, (float)y, s.coin() ? s.real(-4, 4) : (float)genTurns(s)), r = m;
  NOTE("half-axes " << fa << " " << fb << " move " << m.x << " " << m.y << " " << m.theta);
  double n = std::hypot(m.x / a, m.y / b);
  bool c = am::clipFootWithEllipse(fa, fb, r);
  double nr = std::hypot(r.x / a, r.y / b);
  NOTE((c ? "clipped to " : "kept ") << r.x << " " << r.y << " " << r.theta << " radii " << n << " -> " << nr);
  double tol = 3e-6 + 1e-6 * ratio;
  if (n < 1 - 1e-6) CHECK(!c, "inside (" << n << ") but clipped");
  if (n > 1 + 3e-5) CHECK(c, "outside (" << n << ") but kept");
  CHECK(r.theta == m.theta, "the orientation is changed");
  if (!c) {
    CHECK(r.x == m.x && r.y == m.y, "not reported as clipped");
  } else {
    CHECK(nr < 1 + tol + 1e-5, "the result is outside of the ellipse");
    NEAR(nr, 1, tol, "the result is not on the ellipse");
    double l = std::hypot((double)m.x, m.y), lr = std::hypot((double)r.x, r.y);
    NEAR(r.x / lr, m.x / l, 3e-6, "direction");
    NEAR(r.y / lr, m.y / l, 3e-6, "direction");
    CHECK(lr <= l * (1 + tol), "the clipped move is longer");
    if (ratio < 3) {  // clipped once is clipped for all
      am::Pose2D r2 = r;
      am::clipFootWithEllipse(fa, fb, r2);
      NEAR(r2.x, r.x, 1e-5 * std::max(a, b), "clipped twice");
      NEAR(r2.y, r.y, 1e-5 * std::max(a, b), "clipped twice");
    }
    // the other side
    am::Pose2D o(-m.x, m.y, m.theta);
    CHECK(am::clipFootWithEllipse(fa, fb, o), "mirror image");
    NEAR(o.x, -r.x, tol * std::max(a, b), "mirror image");
    NEAR(o.y, r.y, tol * std::max(a, b), "mirror image");
  }
  s.label(c ? "clipped" : "kept");
  s.nontrivial(c && m.x != 0 && m.y != 0);
}
