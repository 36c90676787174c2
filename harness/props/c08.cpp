// C08: normalisation repairs drifted rotations, transforms and quaternions.
#include "ref.h"
using namespace ref;

namespace {
// a drift: R (I + E), |E| <= m
M3 drift(Src &s, const M3 &r, double m, double &size) {
  M3 e = zeroM();
  size = 0;
  bool sparse = s.coin();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      if (sparse && s.coin()) continue;
      e.m[i][j] = m * (2 * s.unit() - 1);
      size = std::max(size, std::fabs(e.m[i][j]));
    }
  return r * (M3() + e);
}
}  // namespace

PBT_FACET(matrices, 900000) {
  M3 r = genRot(s);
  double m = s.pick<double>({0., 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 5e-2, .15}), size;
  M3 d = drift(s, r, m, size);
  V3 t = genVec(s, 100);
  am::Transform T0 = toT(mk(d, t)), T = T0;
  am::Rotation R0 = toR(d), Rn = R0;
  M3 in = R(T0);
  NOTE("rotation " << r << "\ndrifted  " << in);
  T.normalizeTransform();
  Rn.normalizeRotation();
  am::Transform T2 = T0;
  am::normalizeTransform(T2);
  am::Rotation R2 = R0;
  am::normalizeRotation(R2);
  M3 n = R(T);
  CHECK(orthoError(n) < 1e-6, "normalised transform is not a rotation: " << n);
  CHECK(orthoError(R(Rn)) < 1e-6, "normalised rotation is not a rotation: " << R(Rn));
  CHECK(T.isTransform() && Rn.isRotation(), "validity");
  CHECK(T2 == T && R2 == Rn, "member and free forms");
  NEARM(R(Rn), n, 1e-6, "rotation and transform");
  NEARM(n, in, 8 * size + 1e-6, "close to the input");
  NEARM(n, r, 8 * size + 1e-6, "close to the undrifted rotation");
  CHECK(T.r1_c4 == T0.r1_c4 && T.r2_c4 == T0.r2_c4 && T.r3_c4 == T0.r3_c4, "translation changed");
  am::Transform T3 = T;
  T3.normalizeTransform();
  NEARM(R(T3), n, 5e-7, "idempotence");
  am::Rotation R3 = Rn;
  R3.normalizeRotation();
  NEARM(R(R3), R(Rn), 5e-7, "idempotence");
  // construction from a drifted flat matrix
  std::vector<float> v = T0.toVector();
  if (s.coin()) v.resize(12);
  am::Transform C(v);
  CHECK(C.isTransform(), "constructed from drifted values");
  NEARM(R(C), in, 8 * size + 1e-6, "constructed from drifted values");
  NEARV(::ref::T(C), ::ref::T(T0), 0, "translation of the construction");
  CHECK(C == T0 || (C.r1_c1 == T.r1_c1 && C.r2_c2 == T.r2_c2 && C.r3_c3 == T.r3_c3), "either kept or normalised");
  s.nontrivial(size > 1e-8 && !nearIdentity(r));
}

// columns scaled, from far below to far above one: the rotation is recovered exactly
PBT_FACET(scaled, 300000) {
  M3 r = genRot(s);
  auto scale = [&] { return s.coin() ? std::pow(10., -3 + 6 * s.unit()) : s.pick<double>({1., .5, 2., 1e-2, .09, 1e3}); };
  double k = scale(), kx = k, ky = k, kz = k;
  if (s.coin()) {
    kx = scale(), ky = scale(), kz = scale();
    if (s.coin()) kx = s.pick<double>({0., -1., 1e-8});  // the first axis is rebuilt from the others
  }
  if (ky < 1e-3) ky = 1e-3;
  if (kz < 1e-3) kz = 1e-3;
  am::Transform T = toT(mk(fromCols(kx * col(r, 0), ky * col(r, 1), kz * col(r, 2)), genVec(s, 100))), T0 = T;
  am::Rotation Rn = toR(R(T));
  NOTE("rotation " << r << "\nscaled " << R(T));
  T.normalizeTransform();
  Rn.normalizeRotation();
  NEARM(R(T), r, 2e-6, "scaled transform");
  NEARM(R(Rn), r, 2e-6, "scaled rotation");
  CHECK(T.isTransform() && Rn.isRotation(), "validity");
  NEARV(::ref::T(T), ::ref::T(T0), 0, "translation");
  s.nontrivial(!nearIdentity(r) && std::fabs(kz - 1) > 1e-3);
}

// rotations which drifted through float products, much longer than the history of C01
PBT_FACET(accumulated, 3000) {
  am::Rotation r = toR(genRot(s)), step = toR(genRot(s)), step2 = toR(genRot(s));
  am::Transform t, ts = toT(mk(R(step), V3(0, 0, 0)));
  t = toT(mk(R(r), V3(1, 2, 3)));
  am::Quaternion q = toAm(genQ(s)), qs = toAm(genQ(s));
  int n = 1 + s.draw(3000);
  for (int i = 0; i < n; ++i) {
    r *= (i & 1) ? step : step2;
    t *= ts;
    q *= qs;
  }
  NOTE("after " << n << " products: rotation error " << orthoError(R(r)) << " " << orthoError(R(t)) << " norm " << norm(toQ(q)));
  double er = orthoError(R(r)), et = orthoError(R(t));
  M3 r0 = R(r), t0 = R(t);
  r.normalizeRotation();
  t.normalizeTransform();
  CHECK(orthoError(R(r)) < 1e-6 && r.isRotation(), "rotation");
  CHECK(orthoError(R(t)) < 1e-6 && t.isTransform(), "transform");
  NEARM(R(r), r0, 4 * er + 1e-6, "close");
  NEARM(R(t), t0, 4 * et + 1e-6, "close");
  Q q0 = toQ(q);
  if (norm(q0) > 1e-3) {
    am::Quaternion u = q.normalize();
    NEAR(norm(toQ(u)), 1, 4e-7, "norm");
  }
  s.nontrivial(n > 100 && er > 1e-7);
}

PBT_FACET(degenerate, 200000) {
  pbt::Quiet quiet;
  am::Transform t = genTransform(s, genScale(s));
  M3 m = R(t);
  int k = s.draw(3);
  V3 z = col(m, 2), y = col(m, 1), x = col(m, 0);
  double tiny = s.pick<double>({0., 1e-8, 1e-6});
  if (k == 0) z = tiny * z;               // null third axis
  if (k == 1) y = tiny * y;               // null second axis
  if (k == 2) y = s.pick<double>({1., -1., 0.5}) * z;  // parallel axes
  am::Transform u = toT(mk(fromCols(x, y, z), ::ref::T(t))), v = u;
  if (k == 2 && norm(cross(y, z)) > 1e-7) return;
  am::Rotation w = toR(R(u));
  NOTE("degenerate " << R(u));
  v.normalizeTransform();
  w.normalizeRotation();
  // cannot be repaired: the identity
  NEARM(R(v), M3(), 0, "degenerate transform");
  NEARM(R(w), M3(), 0, "degenerate rotation");
  NEARV(::ref::T(v), ::ref::T(u), 0, "translation");
  s.nontrivial(true);
}

PBT_FACET(quaternions, 600000) {
  Q q = genQ(s);
  double k = s.coin() ? std::pow(10., s.real(-10, 10)) : 1 + 0.01 * (2 * s.unit() - 1);
  am::Quaternion a((float)(k * q.w), (float)(k * q.x), (float)(k * q.y), (float)(k * q.z));
  Q e = toQ(a);
  double n = norm(e);
  e = Q(e.w / n, e.x / n, e.y / n, e.z / n);
  NOTE("quaternion " << str(toQ(a)));
  am::Quaternion u = a.normalize(), v = am::normalize(a);
  NEARQ(toQ(u), e, 5e-7, "normalised");
  NEAR(norm(toQ(u)), 1, 5e-7, "norm");
  CHECK(u == v, "forms");
  NEARQ(toQ(u.normalize()), toQ(u), 3e-7, "idempotence");
  am::Quaternion z(0, 0, 0, 0);
  THROWS(z.normalize(), "null quaternion");
  THROWS(am::normalize(z), "null quaternion");
  CHECK(z == am::Quaternion(0, 0, 0, 0), "operand");
  s.nontrivial(std::fabs(n - 1) > 1e-6);
}

PBT_FACET(orthogonal_frame, 600000) {
  V3 d;
  if (s.coin()) {
    d = genDir(s);
  } else {  // close to a coordinate axis, where the construction switches
    int k = s.draw(3);
    d[k] = s.coin() ? 1 : -1;
    d[(k + 1) % 3] = s.real(-1, 1) * s.pick<double>({0., 1e-4, 2e-4, 1e-3, 1e-6, 1e-12, 1e-21, 1e-30});
    d[(k + 2) % 3] = s.real(-1, 1) * s.pick<double>({0., 1e-4, 2e-4, 1e-3, 1e-6, 1e-12, 1e-21, 1e-30});
  }
  d = std::pow(10., s.coin() ? s.real(-6, 6) : 0.) * d;
  am::Position3D p = toP(d);
  d = unit(P(p));
  NOTE("direction " << d << " length " << norm(P(p)));
  am::Transform t = am::orthogonalSpace(p), u;
  am::orthogonalSpace(p, u);
  CHECK(orthoError(R(t)) < 2e-6, "not a rotation: " << R(t));
  NEARV(col(R(t), 2), d, 5e-7, "third axis");
  NEARV(::ref::T(t), V3(), 0, "translation");
  CHECK(t == u, "forms");
  CHECK(t.isTransform(), "validity");
  THROWS(am::orthogonalSpace(am::Position3D(0, 0, 0)), "null direction");
  s.nontrivial(std::fabs(d.x * d.y) + std::fabs(d.y * d.z) > 0);
}
