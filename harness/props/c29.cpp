// C29: conversions to and from Eigen, average of transforms.
#include "../ref.h"
#include <almath/scenegraph/almatheigen.h>
#include <almath/types/alposition6d.h>
#include <almath/types/alvelocity3d.h>
#include <deque>
#include <list>
using namespace ref;
namespace am = AL::Math;

namespace {
float any(Src &s) { return s.coin() ? s.real(-10, 10) : (float)((s.unit() - 0.5) * std::pow(10., (double)s.range(-6, 6))); }
am::Transform anyT(Src &s) {
  am::Transform t;
  float *p = &t.r1_c1;
  for (int i = 0; i < 12; ++i) p[i] = any(s);
  return t;
}
float coef(const am::Transform &t, int i, int j) {
  const float c[3][4] = {{t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4}, {t.r2_c1, t.r2_c2, t.r2_c3, t.r2_c4}, {t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4}};
  return c[i][j];
}
template <class E>
void sameCoefs(const am::Transform &t, const E &m, const char *what) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j) CHECK(m(i, j) == coef(t, i, j), what << "(" << i << ", " << j << ") = " << m(i, j) << " instead of " << coef(t, i, j));
}
bool same(const am::Transform &a, const am::Transform &b) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      if (coef(a, i, j) != coef(b, i, j)) return false;
  return true;
}
Q quatOf(const M3 &r) {  // Shepperd, in double precision
  double t = r.m[0][0] + r.m[1][1] + r.m[2][2];
  double a[4] = {t, r.m[0][0], r.m[1][1], r.m[2][2]};
  int k = 0;
  for (int i = 1; i < 4; ++i)
    if (a[i] > a[k]) k = i;
  double q[4];
  if (k == 0) {
    q[0] = 1 + t;
    q[1] = r.m[2][1] - r.m[1][2], q[2] = r.m[0][2] - r.m[2][0], q[3] = r.m[1][0] - r.m[0][1];
  } else {
    int i = k - 1, j = (i + 1) % 3, l = (i + 2) % 3;
    q[1 + i] = 1 + r.m[i][i] - r.m[j][j] - r.m[l][l];
    q[1 + j] = r.m[i][j] + r.m[j][i];
    q[1 + l] = r.m[i][l] + r.m[l][i];
    q[0] = r.m[l][j] - r.m[j][l];
  }
  double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  return Q(q[0] / n, q[1] / n, q[2] / n, q[3] / n);
}
}  // namespace

PBT_FACET(convert, 800000) {
  am::Transform t = anyT(s);
  LOG("t", toH(t));
  sameCoefs(t, am::toEigenMatrix34(t), "toEigenMatrix34");
  sameCoefs(t, am::toEigenAffineCompact3(t).matrix(), "toEigenAffineCompact3");
  Eigen::Matrix3f m3 = am::toEigenMatrix3(t);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) CHECK(m3(i, j) == coef(t, i, j), "toEigenMatrix3(" << i << ", " << j << ")");
  // and back, from all kinds of matrices and transforms
  am::Matrix34f cm = am::toEigenMatrix34(t);
  am::Matrix34frm rm = cm;
  Eigen::MatrixXf dyn = cm;
  Eigen::Matrix4f m4 = Eigen::Matrix4f::Identity();
  m4.topRows<3>() = cm;
  CHECK(same(am::toALMathTransform(cm), t), "from a column-major matrix");
  CHECK(same(am::toALMathTransform(rm), t), "from a row-major matrix");
  CHECK(same(am::toALMathTransform(dyn), t), "from a dynamic matrix");
  CHECK(same(am::toALMathTransform(m4.topRows<3>()), t), "from a block");
  CHECK(same(am::toALMathTransform((cm * 1.f).eval()), t), "from an evaluated expression");
  Eigen::Affine3f a3;
  a3.matrix() = m4;
  Eigen::AffineCompact3f ac = am::toEigenAffineCompact3(t);
  Eigen::Isometry3f is;
  is.matrix() = m4;
  Eigen::Transform<float, 3, Eigen::Affine, Eigen::RowMajor> ar;
  ar.matrix() = m4;
  CHECK(same(am::toALMathTransform(a3), t), "from an affine transform");
  CHECK(same(am::toALMathTransform(ac), t), "from a compact affine transform");
  CHECK(same(am::toALMathTransform(is), t), "from an isometry");
  CHECK(same(am::toALMathTransform(ar), t), "from a row-major affine transform");
  am::Transform out = anyT(s);
  am::toALMathTransform(cm, out);
  CHECK(same(out, t), "into a transform, from a matrix");
  out = anyT(s);
  am::toALMathTransform(a3, out);
  CHECK(same(out, t), "into a transform, from an affine transform");
  // positions and velocities
  am::Position3D p(any(s), any(s), any(s));
  Eigen::Vector3f v = am::toEigenVector3(p);
  CHECK(v[0] == p.x && v[1] == p.y && v[2] == p.z, "toEigenVector3");
  am::Position3D q = am::toALMathPosition3D(v);
  CHECK(q.x == p.x && q.y == p.y && q.z == p.z, "toALMathPosition3D");
  q = am::toALMathPosition3D(cm.col(2));
  CHECK(q.x == t.r1_c3 && q.y == t.r2_c3 && q.z == t.r3_c3, "toALMathPosition3D of a column");
  am::Vector6f w;
  for (int i = 0; i < 6; ++i) w[i] = any(s);
  am::Velocity6D vel = am::toALMathVelocity6D(w), vel2(any(s), any(s), any(s), any(s), any(s), any(s));
  am::toALMathVelocity6D(w, vel2);
  for (const am::Velocity6D &x : {vel, vel2})
    CHECK(x.xd == w[0] && x.yd == w[1] && x.zd == w[2] && x.wxd == w[3] && x.wyd == w[4] && x.wzd == w[5], "toALMathVelocity6D");
  s.nontrivial(t.r1_c2 != t.r2_c1 && w[0] != w[3]);
}

PBT_FACET(agree, 600000) {
  H a = genH(s, genScale(s)), b = genH(s, genScale(s));
  am::Transform ta = toT(a), tb = toT(b);
  V3 x = genVec(s, genScale(s));
  double tol = 1e-6 * (norm(a.t) + norm(b.t) + norm(x)) + 1e-20;
  am::Position3D p = toP(x);
  LOG("a", a);
  LOG("b", b);
  LOG("p", x);
  auto ea = am::toEigenAffineCompact3(ta), eb = am::toEigenAffineCompact3(tb);
  am::Transform prod = ta * tb, eprod = am::toALMathTransform(Eigen::AffineCompact3f(ea * eb));
  H h = toH(ta) * toH(tb);
  NEAR(maxdiff(R(prod), h.r), 0, 1e-6, "rotation of the product");
  NEAR(maxdiff(R(eprod), h.r), 0, 1e-6, "rotation of the Eigen product");
  NEAR(maxdiff(T(prod), T(eprod)), 0, tol, "translation of the products");
  Eigen::Vector3f ep = ea * am::toEigenVector3(p);
  am::Position3D ap = ta * p;
  NEAR(maxdiff(P(ap), P(am::toALMathPosition3D(ep))), 0, tol, "image of a point");
  NEAR(maxdiff(P(ap), toH(ta) * P(p)), 0, tol, "image of a point");
  Eigen::Quaternionf q = am::toEigenQuaternion<float>(ta);
  NEAR(q.norm(), 1, 2e-6, "norm of the quaternion");
  NEAR(maxdiff(rot(Q(q.w(), q.x(), q.y(), q.z())), R(ta)), 0, 3e-6, "rotation of the quaternion");
  s.nontrivial(angleOf(a.r) > 1e-3 && angleOf(b.r) > 1e-3 && norm(a.t) > 0);
}

PBT_FACET(average, 280000) {
  // rotations at most `spread` away from a random one
  H base = genH(s, genScale(s));
  double spread = s.pick({0., 1e-4, 0.1, 0.7, 1.35});
  int n = s.chance(1, 12) ? (int)s.range(9, 120) : (int)s.range(1, 8);
  double tm = s.pick({0., 1., 100.});
  LOG("base", base);
  LOG("spread", spread);
  std::vector<am::Transform> ts;
  V3 mean(0, 0, 0);
  Q sum(0, 0, 0, 0), ref0 = quatOf(base.r);
  double big = 0, widest = 0;
  for (int i = 0; i < n; ++i) {
    V3 w = (spread * s.unit()) * genDir(s);
    H h = mk(base.r * rotvec(w), base.t + genVec(s, 1 + tm));
    ts.push_back(toT(h));
    Q q = quatOf(R(ts.back()));
    double d = q.w * ref0.w + q.x * ref0.x + q.y * ref0.y + q.z * ref0.z, sg = d < 0 ? -1 : 1;
    sum = Q(sum.w + sg * q.w, sum.x + sg * q.x, sum.y + sg * q.y, sum.z + sg * q.z);
    mean = mean + (1. / n) * T(ts.back());
    big = std::max(big, norm(T(ts.back())));
    NOTE("transform " << i << ": " << toH(ts.back()));
  }
  double nq = norm(sum);
  M3 want = rot(Q(sum.w / nq, sum.x / nq, sum.y / nq, sum.z / nq));
  for (auto &t : ts) widest = std::max(widest, angleBetween(R(ts[0]), R(t)));
  double tolR = 1e-5 * (1 + n / 30.), tolT = 1e-6 * big * (1 + n / 10.);
  am::Transform avg = am::averageTransforms(ts);
  LOG("average", toH(avg));
  NEAR(orthoError(R(avg)), 0, 4e-6, "the average is not a rotation");
  NEAR(det(R(avg)), 1, 4e-6, "determinant of the average");
  NEAR(maxdiff(T(avg), mean), 0, tolT, "mean translation");
  NEAR(maxdiff(R(avg), want), 0, tolR, "mean rotation");
  for (auto &t : ts) {
    double d = angleBetween(R(avg), R(t));
    CHECK(d <= 2 * spread + 1e-3, "the average is " << d << " away from a transform");
  }
  if (n == 2) {
    double d0 = angleBetween(R(avg), R(ts[0])), d1 = angleBetween(R(avg), R(ts[1]));
    NEAR(d0, d1, 2e-3, "the average of two rotations is not in the middle");
    NEAR(d0, widest / 2, 2e-3, "the average of two rotations is not on the way");
  }
  // any order, any container, everything twice
  std::vector<am::Transform> o(ts);
  for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[(size_t)s.draw(i)]);
  am::Transform ao = am::averageTransforms(o);
  NEAR(maxdiff(R(ao), R(avg)), 0, 2 * tolR, "rotation, in another order");
  NEAR(maxdiff(T(ao), T(avg)), 0, 2 * tolT, "translation, in another order");
  std::deque<am::Transform> d(ts.begin(), ts.end());
  CHECK(same(am::averageTransforms(d), avg), "average of a deque");
  std::vector<am::Transform> tw(ts);
  tw.insert(tw.end(), o.begin(), o.end());
  am::Transform at = am::averageTransforms(tw);
  NEAR(maxdiff(R(at), R(avg)), 0, 3 * tolR, "rotation, everything twice");
  NEAR(maxdiff(T(at), T(avg)), 0, 3 * tolT, "translation, everything twice");
  // copies of one transform
  std::vector<am::Transform> c((size_t)s.range(1, 20), ts[0]);
  am::Transform aone = am::averageTransforms(c);
  NEAR(maxdiff(R(aone), R(ts[0])), 0, 1e-5, "average of copies");
  NEAR(maxdiff(T(aone), T(ts[0])), 0, 3e-6 * big, "average of copies");
  // moving everything moves the average
  H g = genH(s, genScale(s));
  am::Transform tg = toT(g);
  std::vector<am::Transform> mv;
  for (auto &t : ts) mv.push_back(tg * t);
  am::Transform am_ = am::averageTransforms(mv), gm = tg * avg;
  NEAR(maxdiff(R(am_), R(gm)), 0, 3 * tolR, "moved average");
  NEAR(maxdiff(T(am_), T(gm)), 0, 6 * tolT + 2e-6 * (norm(g.t) + big), "moved average");
  std::vector<am::Transform> none;
  THROWS(am::averageTransforms(none), "empty range");
  s.nontrivial(n >= 2 && widest > 1e-3);
  if (n >= 3 && spread > 0.5) s.label("wide");
}
