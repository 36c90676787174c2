// C04: exponential and logarithm of rigid motions are inverse; means
// interpolate along the screw motion.
#include "ref.h"
#include <almath/tools/altrigonometry.h>
using namespace ref;

namespace {
const double MAXANGLE = PI - 0.002;  // documented: below pi - 0.001
V3 genW(Src &s, double m) {
  V3 d = genDir(s);
  double a = genAngle(s, m);
  if (s.chance(1, 5)) a = std::pow(10., -2 - 2.5 * s.unit());  // the switch-over region
  return a * d;
}
am::Velocity6D toVel(V3 v, V3 w) {
  return am::Velocity6D((float)v.x, (float)v.y, (float)v.z, (float)w.x, (float)w.y, (float)w.z);
}
V3 lin(const am::Velocity6D &v) { return V3(v.xd, v.yd, v.zd); }
V3 ang(const am::Velocity6D &v) { return V3(v.wxd, v.wyd, v.wzd); }
// conditioning of the logarithm: angle / sin(angle)
double cond(double a) { return a < 1e-3 ? 1 : 1 + a / std::sin(a); }
// the float formulas of the exponential lose eps / angle on the translation
double expTol(double t) { return 2e-6 + 8 * EPS / std::max(t, 1e-3); }
}  // namespace

PBT_FACET(exponential, 600000) {
  V3 w = genW(s, s.coin() ? MAXANGLE : 10), v = genVec(s, s.pick<double>({1., 0., 100., 1e-3}));
  am::Velocity6D x = toVel(v, w);
  v = lin(x);
  w = ang(x);
  double t = norm(w);
  NOTE("twist " << v << " " << w << " angle " << t);
  am::Transform e = am::velocityExponential(x), f = toT(mk(rotX(1), V3(1, 2, 3)));
  am::velocityExponentialInPlace(x, f);
  CHECK(e == f, "forms");
  NEARH(toH(e), expSE3(v, w), 1e-6 * (1 + t), norm(v) * expTol(t) + 1e-30, "exponential");
  CHECK(e.isTransform(), "valid transform");
  if (t <= MAXANGLE) {
    am::Velocity6D y = am::transformLogarithm(e), z(1, 2, 3, 4, 5, 6);
    am::transformLogarithmInPlace(e, z);
    CHECK(y == z, "forms");
    NEARV(ang(y), w, 24 * EPS * cond(t), "logarithm of the exponential, rotation");
    NEARV(lin(y), v, norm(v) * (60 * EPS * cond(t) + 2 * expTol(t)) + 1e-30, "logarithm of the exponential, translation");
  }
  if (t < 1e-2) s.label("angle below 0.01");
  if (t > PI - 0.1 && t <= MAXANGLE) s.label("angle above pi - 0.1");
  s.nontrivial(t > 0 && norm(v) > 0);
}

PBT_FACET(logarithm, 600000) {
  V3 w = genW(s, MAXANGLE), p = genVec(s, s.pick<double>({1., 0., 100., 1e-3}));
  am::Transform h = toT(mk(rotvec(w), p));
  if (s.coin()) {  // as it comes out of a computation
    am::Transform g = genTransform(s, 10);
    h = g.inverse() * (g * h);
    s.label("computed");
  }
  H m = toH(h);
  p = m.t;
  double t = angleOf(m.r);
  if (t > MAXANGLE) return;
  NOTE("transform " << m << " angle " << t);
  V3 lv, lw;
  logSE3(m, lv, lw);
  am::Velocity6D y = am::transformLogarithm(h), yi(1, 2, 3, 4, 5, 6);
  am::transformLogarithmInPlace(h, yi);
  CHECK(y == yi, "forms");
  double tolw = 24 * EPS * cond(t), tolv = norm(p) * 80 * EPS * cond(t) + 1e-30;
  NEARV(ang(y), lw, tolw, "rotation part");
  NEARV(lin(y), lv, tolv, "translation part");
  am::Transform e = am::velocityExponential(y);
  NEARH(toH(e), m, 2 * tolw + 1e-6, 2 * tolv + norm(p) * (expTol(t) + 2 * tolw) + 1e-30, "exponential of the logarithm");
  // the logarithm of the inverse is the opposite
  am::Velocity6D z = am::transformLogarithm(h.inverse());
  NEARV(ang(z), -lw, tolw, "logarithm of the inverse");
  NEARV(lin(z), -lv, 2 * tolv, "logarithm of the inverse");
  s.nontrivial(t > 0 && norm(p) > 0);
}

// half-turns about a coordinate axis: out of the range of the general formulas
PBT_FACET(half_turn, 200000) {
  int k = s.draw(3);
  am::Transform h = k == 0 ? am::Transform::fromRotX(am::PI) : k == 1 ? am::Transform::fromRotY(am::PI) : am::Transform::fromRotZ(am::PI);
  if (s.coin()) h = h.inverse();
  V3 p = genVec(s, s.pick<double>({1., 0., 100., 1e-3})), w;
  h.r1_c4 = (float)p.x;
  h.r2_c4 = (float)p.y;
  h.r3_c4 = (float)p.z;
  H m = toH(h);
  p = m.t;
  w[k] = PI;
  am::Velocity6D y(1, 2, 3, 4, 5, 6), z = am::transformLogarithm(h);
  am::transformLogarithmInPlace(h, y);
  NOTE("half-turn about axis " << k << ", translation " << p);
  CHECK(y == z, "forms");
  V3 v = 0.5 * cross(p, w);  // V^-1 p at the angle pi
  v[k] = p[k];
  NEARV(ang(y), w, 1e-6, "rotation part");
  NEARV(lin(y), v, 2e-6 * norm(p), "translation part");
  NEARH(toH(am::velocityExponential(y)), m, 2e-6, 4e-6 * norm(p) + 1e-30, "exponential of the logarithm");
  s.nontrivial(p[(k + 1) % 3] != 0 && p[(k + 2) % 3] != 0);
}

PBT_FACET(mean, 600000) {
  double scale = s.pick<double>({1., 10., 1e-2});
  am::Transform a = genTransform(s, scale);
  V3 w = genW(s, MAXANGLE);
  am::Transform b = a * toT(mk(rotvec(w), genVec(s, scale)));
  float k = s.pick<float>({0.f, 1.f, 0.5f, -1.f});
  if (k < 0) k = s.real(0, 1);
  H ha = toH(a), hb = toH(b), d = inv(ha) * hb;
  NOTE("a " << ha << " b " << hb << " weight " << k);
  double t = angleOf(d.r);
  if (t > MAXANGLE) return;
  V3 lv, lw;
  logSE3(d, lv, lw);
  H expected = ha * expSE3((double)k * lv, (double)k * lw);
  double len = norm(ha.t) + norm(hb.t) + norm(d.t);
  double tolr = 60 * EPS * cond(t) + 1e-6, tolt = len * (160 * EPS * cond(t) + 2 * expTol(k * t)) + 1e-30;
  am::Transform m = am::transformMean(a, b, k), n = toT(mk(rotX(1), V3(1, 2, 3)));
  am::transformMeanInPlace(a, b, k, n);
  CHECK(m == n, "forms");
  NEARH(toH(m), expected, tolr, tolt, "on the screw motion");
  CHECK(m.isTransform(5e-4f), "valid transform");
  if (k == 0) NEARH(toH(m), ha, tolr, tolt, "weight 0 gives the first");
  if (k == 1) NEARH(toH(m), hb, tolr, tolt, "weight 1 gives the second");
  if (k == 0.5f) CHECK(am::transformMean(a, b) == m, "default weight");
  // symmetric
  NEARH(toH(am::transformMean(b, a, 1 - k)), expected, 2 * tolr, 2 * tolt, "symmetry");
  THROWS(am::transformMean(a, b, 1.001f + k), "weight above 1");
  THROWS(am::transformMean(a, b, -0.001f - k), "negative weight");
  s.nontrivial(t > 0 && k > 0 && k < 1);
}
