// C10: projection of a rotation on the rotations about an axis.
//
// For the coordinate axes the result is the first factor of the decomposition
// of the rotation in rotations about this axis and the two others in cyclic
// order (R = Rx(a) Ry(b) Rz(c) and its cyclic permutations).
// For oblique axes the library is known to be wrong (known_findings.txt): such a
// result is accepted as the listed finding only if it is the one of the formula
// below, which is what the library computed when the finding was recorded.
#include "ref.h"
using namespace ref;

namespace {
struct Known {
  double d2, scale;
  double theta[2], tr[2];
};
Known formula(const M3 &m, V3 u) {
  const double x = u.x, y = u.y, z = u.z;
  auto r = [&](int i, int j) { return m.m[i - 1][j - 1]; };
  double a = x * (r(2, 3) - z * (x * r(2, 1) + y * r(2, 2) + z * r(2, 3))) +
             y * (r(3, 1) - x * (x * r(3, 1) + y * r(3, 2) + z * r(3, 2))) +
             z * (r(1, 2) - y * (x * r(1, 1) + y * r(1, 2) + z * r(1, 3)));
  double b = x * (-r(3, 1) * z + r(3, 3) * x) + y * (r(1, 1) * y - r(1, 2) * x) +
             z * (r(2, 2) * z - r(2, 3) * y);
  double c = x * z * dot(u, V3(r(2, 1), r(2, 2), r(2, 3))) +
             y * x * dot(u, V3(r(3, 1), r(3, 2), r(3, 3))) +
             z * y * dot(u, V3(r(1, 1), r(1, 2), r(1, 3)));
  Known k;
  k.d2 = a * a + b * b - c * c;
  k.scale = std::hypot(a, b);
  double al = std::atan2(b, a), be = std::acos(std::max(-1., std::min(1., c / k.scale)));
  k.theta[0] = al + be;
  k.theta[1] = al - be;
  for (int i = 0; i < 2; ++i) {
    M3 p = tr(rotAxis(u, k.theta[i])) * m;
    k.tr[i] = p.m[0][0] + p.m[1][1] + p.m[2][2];
  }
  return k;
}
}  // namespace

PBT_FACET(coordinate_axes, 700000) {
  int k = s.draw(3), j = (k + 1) % 3, l = (k + 2) % 3;
  double sg = s.coin() ? -1 : 1, len = s.coin() ? 1 : std::pow(10., s.real(-6, 6));
  V3 d;
  d[k] = sg;
  M3 r = genRot(s);
  bool about = s.chance(1, 6), exact = s.chance(1, 10);
  if (about) r = rotAxis(d, genAngle(s));
  if (exact) {  // signed permutations: exactly degenerate
    r = M3();
    int p = s.draw(3);
    M3 q = zeroM();
    for (int i = 0; i < 3; ++i) q.m[(i + p) % 3][i] = 1;
    if (s.coin()) for (int i = 0; i < 3; ++i) std::swap(q.m[i][0], q.m[i][1]);
    for (int i = 0; i < 2; ++i) if (s.coin()) for (int c = 0; c < 3; ++c) q.m[i][c] *= -1;
    if (det(q) < 0) for (int c = 0; c < 3; ++c) q.m[2][c] *= -1;
    r = q;
    about = false;
  }
  am::Position3D axis = toP(len * d);
  am::Transform T0 = toT(mk(r, genVec(s, 100))), T1 = T0;
  am::Rotation R0 = toR(r), R1 = R0;
  r = R(T0);
  NOTE("rotation " << r << " axis " << d << " length " << len);
  am::axisRotationProjectionInPlace(axis, T1);
  am::axisRotationProjectionInPlace(axis, R1);
  am::Transform T2 = am::axisRotationProjection(axis, T0);
  am::Rotation R2 = am::axisRotationProjection(axis, R0);
  double m = std::hypot(r.m[j][l], r.m[l][l]);
  for (const M3 &g : {R(T1), R(R1), R(T2), R(R2)}) {
    CHECK(orthoError(g) < 3e-6, "not a rotation: " << g);
    NEARV(g * d, d, 1e-6, "not about the axis: " << g);
    if (about) NEARM(g, r, 3e-6, "a rotation about the axis was changed");
    M3 rest = tr(g) * r;  // rotations about the two other axes
    if (m > 1e-4) NEAR(rest.m[j][l], 0, 4e-6, "rest of the decomposition " << rest);
    // of the two possible angles, the one leaving the smaller rotation
    M3 other = tr(g * rotAxis(d, PI)) * r;
    double t1 = rest.m[0][0] + rest.m[1][1] + rest.m[2][2], t2 = other.m[0][0] + other.m[1][1] + other.m[2][2];
    if (m > 1e-4) CHECK(t1 >= t2 - 1e-5 / m, "the other half of the decomposition is closer");
  }
  CHECK(maxdiff(R(T1), R(R1)) < 2e-6 / std::min(1., std::max(m, 1e-7)), "rotation and transform");
  CHECK(R2 == R1 && T2.isNear(T1, 1e-5f), "forms");
  NEARV(::ref::T(T1), ::ref::T(T0), 0, "translation");
  NEARV(::ref::T(T2), ::ref::T(T0), 0, "translation");
  am::Rotation R3 = am::axisRotationProjection(axis, R1);
  NEARM(R(R3), R(R1), 6e-6, "idempotence");
  s.nontrivial(m > 1e-3 && maxdiff(R(R1), r) > 1e-3 && !nearIdentity(R(R1)));
}

PBT_FACET(oblique_axes, 500000) {
  V3 d = genDir(s);
  double len = s.coin() ? 1 : std::pow(10., s.real(-6, 6));
  am::Position3D axis = toP(len * d);
  d = unit(P(axis));
  M3 r = s.chance(1, 6) ? rotAxis(d, genAngle(s)) : genRot(s);
  am::Transform T0 = toT(mk(r, genVec(s, 100))), T1 = T0, T2;
  am::Rotation R0 = toR(r), R1 = R0, R2;
  r = R(T0);
  NOTE("rotation " << r << " axis " << d << " length " << len);
  V3 v(r.m[2][1] - r.m[1][2], r.m[0][2] - r.m[2][0], r.m[1][0] - r.m[0][1]);
  double sn = dot(d, v), cs = r.m[0][0] + r.m[1][1] + r.m[2][2] - dot(d, r * d);
  M3 best = rotAxis(d, std::atan2(sn, cs));
  double tb = dot(col(best, 0), col(r, 0)) + dot(col(best, 1), col(r, 1)) + dot(col(best, 2), col(r, 2));
  Known k = formula(r, d);
  bool refused[4] = {false, false, false, false};
  try { am::axisRotationProjectionInPlace(axis, T1); } catch (const std::runtime_error &) { refused[0] = true; }
  try { am::axisRotationProjectionInPlace(axis, R1); } catch (const std::runtime_error &) { refused[1] = true; }
  try { T2 = am::axisRotationProjection(axis, T0); } catch (const std::runtime_error &) { refused[2] = true; }
  try { R2 = am::axisRotationProjection(axis, R0); } catch (const std::runtime_error &) { refused[3] = true; }
  bool clear = std::fabs(k.d2) > 2e-5;  // far from the boundary of the refusals
  bool coordinate = std::fabs(d.x * d.y) + std::fabs(d.y * d.z) + std::fabs(d.z * d.x) < 1e-12;
  M3 g[4] = {R(T1), R(R1), R(T2), R(R2)};
  for (int i = 0; i < 4; ++i) {
    if (refused[i]) {
      CHECK(k.d2 < 2e-5, "refused, d2 = " << k.d2);
      s.known("oblique-axis-refused", "axisRotationProjection throws \"d2 < 0\"");
      if (i < 2) CHECK(i ? R1 == R0 : T1 == T0, "changed by a refused projection");
      continue;
    }
    CHECK(orthoError(g[i]) < 3e-6, "not a rotation: " << g[i]);
    NEARV(g[i] * d, d, 3e-6, "not about the axis: " << g[i]);
    double t = dot(col(g[i], 0), col(r, 0)) + dot(col(g[i], 1), col(r, 1)) + dot(col(g[i], 2), col(r, 2));
    if (t >= tb - 1e-5) continue;  // the closest one
    if (coordinate) continue;      // the other facet
    if (k.scale < 1e-3 || k.d2 < 1e-4) continue;
    double tol = 1e-5 * (1 / k.scale + 1 / std::sqrt(k.d2) / k.scale) + 1e-5;
    bool first = maxdiff(g[i], rotAxis(d, k.theta[0])) < tol && k.tr[0] >= k.tr[1] - 4 * tol;
    bool second = maxdiff(g[i], rotAxis(d, k.theta[1])) < tol && k.tr[1] >= k.tr[0] - 4 * tol;
    CHECK(first || second, "neither the closest rotation about the axis nor the one of the listed finding: " << g[i]);
    s.known("oblique-axis-not-closest", "axisRotationProjection does not return the closest rotation about an oblique axis");
  }
  if (clear && k.d2 > 1e-3 && k.scale > 1e-2 && !refused[0] && !refused[1] && std::fabs(k.tr[0] - k.tr[1]) > 1e-2)
    NEARM(g[0], g[1], 1e-4, "rotation and transform");
  if (clear) CHECK(refused[0] == refused[1], "rotation and transform");
  CHECK(refused[0] == refused[2] || !clear, "forms");
  CHECK(refused[1] == refused[3], "forms");
  if (!refused[1] && !refused[3]) CHECK(R1 == R2, "forms");
  if (!refused[0]) NEARV(::ref::T(T1), ::ref::T(T0), 0, "translation");
  if (!refused[2]) NEARV(::ref::T(T2), ::ref::T(T0), 0, "translation");
  s.nontrivial(!coordinate && !refused[1] && maxdiff(g[1], r) > 1e-3);
}

PBT_FACET(null_axis, 2000) {
  am::Transform T0 = genTransform(s, 10), T1 = T0;
  am::Rotation R0 = toR(genRot(s)), R1 = R0;
  am::Position3D z(0, 0, 0);
  THROWS(am::axisRotationProjectionInPlace(z, T1), "null axis");
  THROWS(am::axisRotationProjectionInPlace(z, R1), "null axis");
  THROWS(am::axisRotationProjection(z, T0), "null axis");
  THROWS(am::axisRotationProjection(z, R0), "null axis");
  CHECK(T1 == T0 && R1 == R0, "operand changed");
  s.nontrivial(true);
}
