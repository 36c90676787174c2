// C02: rotations, quaternions and displacements compose, invert and act
// consistently.
#include "ref.h"
using namespace ref;

namespace {
const double RND = 12 * EPS;
template <class T>
struct RegT {
  T impl;
  double e = 0;
};
void setField(am::Rotation &t, int i, float v) {
  float *f[9] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r2_c1, &t.r2_c2,
                 &t.r2_c3, &t.r3_c1, &t.r3_c2, &t.r3_c3};
  *f[i] = v;
}
float getField(const am::Rotation &t, int i) {
  const float f[9] = {t.r1_c1, t.r1_c2, t.r1_c3, t.r2_c1, t.r2_c2,
                      t.r2_c3, t.r3_c1, t.r3_c2, t.r3_c3};
  return f[i];
}
}  // namespace

PBT_FACET(rotation_history, 600000) {
  struct Reg {
    am::Rotation impl;
    M3 m;
    double e;
  } reg[3];
  for (auto &r : reg) {
    r.impl = toR(genRot(s));
    r.m = R(r.impl);
    r.e = 4 * EPS;
    NOTE("rotation " << r.m);
  }
  int n = 1 + s.draw(25), rich = 0;
  for (int k = 0; k < n; ++k) {
    int a = s.draw(3), b = s.draw(3), c = s.draw(3);
    Reg r;
    int op = s.draw(7);
    NOTE("op " << op << " on " << a << " " << b << " " << c);
    switch (op) {
      case 0:
        r.m = reg[b].m * reg[c].m;
        r.e = reg[b].e + reg[c].e + RND;
        r.impl = reg[b].impl * reg[c].impl;
        ++rich;
        break;
      case 1:
      case 2: {
        r = reg[a];
        r.m = reg[a].m * reg[b].m;
        r.e = reg[a].e + reg[b].e + RND;
        am::Rotation &self = (a == b) ? (r.impl *= r.impl) : (r.impl *= reg[b].impl);
        if (a == b) s.label("self product");
        CHECK(&self == &r.impl, "operator*= returns its operand");
        ++rich;
        break;
      }
      case 3:
        r.m = tr(reg[b].m);
        r.e = reg[b].e;
        r.impl = reg[b].impl.transpose();
        CHECK(am::transpose(reg[b].impl) == r.impl, "transpose forms");
        break;
      case 4:
        r = reg[b];
        r.e = 4 * r.e + 24 * EPS;
        if (s.coin())
          r.impl.normalizeRotation();
        else
          am::normalizeRotation(r.impl);
        break;
      case 5: {
        r = reg[b];
        std::vector<float> v = r.impl.toVector(), w(s.draw(12), 7.f);
        r.impl.toVector(w);
        CHECK(v.size() == 9 && v == w, "toVector");
        for (int i = 0; i < 9; ++i) CHECK(v[i] == getField(r.impl, i), "element " << i);
        if (s.coin()) {
          am::Transform t = am::transformFromRotation(r.impl);
          v = t.toVector();
          if (s.coin()) v.resize(12);
        }
        r.impl = am::Rotation(v);
        CHECK(r.impl == reg[b].impl, "vector round trip");
        break;
      }
      default:
        r.impl = toR(genRot(s));
        r.m = R(r.impl);
        r.e = 4 * EPS;
        break;
    }
    NEARM(R(r.impl), r.m, 4 * r.e + 1e-7, "operation " << op);
    if (r.e > 2e-5) {
      r.m = M3();
      r.impl = am::Rotation();
      r.e = 0;
    }
    CHECK(r.impl.isRotation(), "closure " << R(r.impl));
    NEAR(r.impl.determinant(), 1., 12 * r.e + 1e-6, "determinant");
    NEAR(am::determinant(r.impl), 1., 12 * r.e + 1e-6, "determinant");
    M3 id = R(r.impl * r.impl.transpose());
    NEARM(id, M3(), 8 * r.e + 2e-6, "R * R^T");
    // action on vectors: R (S p) = (R S) p
    V3 p = genVec(s, genScale(s));
    am::Position3D ap = toP(p);
    p = P(ap);
    double tol = (4 * r.e + 1e-6) * (norm(p) + 1e-20);
    NEARV(P(r.impl * ap), r.m * p, tol, "rotation times position");
    float x = ap.x, y = ap.y, z = ap.z;
    am::applyRotation(r.impl, x, y, z);
    NEARV(V3(x, y, z), r.m * p, tol, "applyRotation");
    am::Velocity3D v(ap.x, ap.y, ap.z);
    am::Velocity3D rv = r.impl * v;
    NEARV(V3(rv.xd, rv.yd, rv.zd), r.m * p, tol, "rotation times velocity");
    NEARV(P((r.impl * reg[b].impl) * ap), r.m * (R(reg[b].impl) * p),
          tol + 8 * (r.e + reg[b].e + RND) * norm(p), "action of a product");
    reg[a] = r;
  }
  s.nontrivial(rich >= 2 && maxdiff(reg[0].m * reg[1].m, reg[1].m * reg[0].m) > 1e-3);
}

PBT_FACET(rotation_comparison, 500000) {
  am::Rotation a = toR(genRot(s)), b = a;
  CHECK(a == b && !(a != b) && a.isNear(b, 0.f), "copies are equal");
  int i = s.draw(9);
  setField(b, i, getField(a, i) + s.real(-0.5, 0.5));
  double d = std::fabs((double)getField(b, i) - (double)getField(a, i));
  CHECK((a == b) == (d == 0), "field " << i);
  CHECK((a != b) == (d != 0), "field " << i);
  float eps = (float)(s.coin() ? (double)s.real(0, 0.6) : d * (s.coin() ? 1.01 : 0.99));
  NOTE("field " << i << " differs by " << d << " epsilon " << eps);
  if (d < eps * (1 - 1e-5) - 1e-6) CHECK(a.isNear(b, eps), "field " << i);
  if (d > eps * (1 + 1e-5) + 1e-6) CHECK(!a.isNear(b, eps), "field " << i);
  if (d < 0.8e-4) CHECK(a.isNear(b), "default tolerance");
  if (d > 1.2e-4) CHECK(!a.isNear(b), "default tolerance");
  s.nontrivial(d > 0);
}

PBT_FACET(rotation_validity, 500000) {
  // isRotation decides R^T R = I and det R = 1, up to epsilon
  float eps = s.pick<float>({1e-4f, 1e-3f, 1e-2f, 3e-5f, 0.f, 0.3f});
  const double de = eps > 0 ? eps : 1e-4;  // size of the damage
  M3 r = genRot(s);
  double k = (s.coin() ? 1 : -1) * de * std::pow(10., 3 * s.unit() - 1.5);
  int a = s.draw(3), b = (a + 1 + s.draw(2)) % 3;
  switch (s.draw(6)) {
    case 0:
      break;
    case 1:
      r.m[a][s.draw(3)] += k;
      break;
    case 2:
      r = (1 + k) * r;
      break;
    case 3:
      for (int i = 0; i < 3; ++i) {
        r.m[i][a] *= 1 + k;
        r.m[i][b] /= 1 + k;
      }
      break;
    case 4:
      for (int i = 0; i < 3; ++i) r.m[i][a] += k * r.m[i][b];
      break;
    default:
      for (int i = 0; i < 3; ++i) r.m[i][a] = -r.m[i][a];
      break;
  }
  am::Rotation t = toR(r);
  const M3 st = R(t);
  double err = orthoError(st);
  NOTE("matrix " << R(t) << " orthonormality error " << err << " epsilon " << eps);
  bool res = t.isRotation(eps);
  if (err > 3.5 * eps + 5e-6) CHECK(!res, "invalid matrix accepted, error " << err << " eps " << eps);
  if (err < eps / 3.5 - 5e-6) CHECK(res, "valid matrix refused, error " << err << " eps " << eps);
  bool exact = true;  // a matrix of 0, 1 and -1
  for (int i = 0; i < 9; ++i) exact &= st.m[i / 3][i % 3] == std::rint(st.m[i / 3][i % 3]);
  if (exact && err == 0) CHECK(res, "exact matrix refused, epsilon " << eps << " " << st);
  if (eps == 1e-4f) CHECK(res == t.isRotation(), "default tolerance");
  s.nontrivial(err > 1e-6);
}

PBT_FACET(quaternion_history, 600000) {
  struct Reg {
    am::Quaternion impl;
    Q q;
    double e;
  } reg[3];
  for (auto &r : reg) {
    r.impl = toAm(genQ(s));
    r.q = toQ(r.impl);
    r.e = 0;
    NOTE("quaternion " << str(r.q));
  }
  int n = 1 + s.draw(20), rich = 0;
  for (int k = 0; k < n; ++k) {
    int a = s.draw(3), b = s.draw(3), c = s.draw(3);
    Reg r;
    int op = s.draw(9);
    NOTE("op " << op << " on " << a << " " << b << " " << c);
    switch (op) {
      case 0:
        r.q = reg[b].q * reg[c].q;
        r.e = (reg[b].e + reg[c].e) * 1.1 + 8 * EPS;
        r.impl = reg[b].impl * reg[c].impl;
        ++rich;
        break;
      case 1:
      case 2: {
        r = reg[a];
        r.q = reg[a].q * reg[b].q;
        r.e = (reg[a].e + reg[b].e) * 1.1 + 8 * EPS;
        if (a == b) s.label("self product");
        am::Quaternion &self = a == b ? (r.impl *= r.impl) : (r.impl *= reg[b].impl);
        CHECK(&self == &r.impl, "operator*= returns its operand");
        ++rich;
        break;
      }
      case 3: {
        r = reg[b];
        r.impl = reg[b].impl.inverse();
        r.q = Q(r.q.w, -r.q.x, -r.q.y, -r.q.z);
        am::Quaternion o1 = am::quaternionInverse(reg[b].impl), o2(9, 9, 9, 9);
        am::quaternionInverse(reg[b].impl, o2);
        CHECK(o1 == r.impl && o2 == r.impl, "inverse forms");
        break;
      }
      case 4: {
        r = reg[b];
        double nn = norm(r.q);
        r.impl = reg[b].impl.normalize();
        r.q = Q(r.q.w / nn, r.q.x / nn, r.q.y / nn, r.q.z / nn);
        r.e = r.e * 3 + 8 * EPS;
        CHECK(am::normalize(reg[b].impl) == r.impl, "normalize forms");
        NEAR(norm(toQ(r.impl)), 1., 4e-7, "normalised norm");
        break;
      }
      case 5: {
        r = reg[b];
        std::vector<float> v = r.impl.toVector(), w(s.draw(12), 7.f);
        r.impl.toVector(w);
        CHECK(v.size() == 4 && v == w && v[0] == r.impl.w && v[1] == r.impl.x &&
                  v[2] == r.impl.y && v[3] == r.impl.z,
              "toVector");
        r.impl = am::Quaternion(v);
        CHECK(r.impl == reg[b].impl, "vector round trip");
        break;
      }
      case 6: {  // scalings, then undone
        r = reg[b];
        float f = s.real(0.01, 100) * (s.coin() ? 1.f : -1.f);
        if (f == 0) f = 1;
        am::Quaternion u = r.impl * f, v = r.impl, w = r.impl / f, x = r.impl;
        v *= f;
        x /= f;
        Q qu(r.q.w * f, r.q.x * f, r.q.y * f, r.q.z * f);
        Q qw(r.q.w / f, r.q.x / f, r.q.y / f, r.q.z / f);
        double tu = 4 * (r.e + 1e-7) * std::fabs(f) + 1e-12, tw = 4 * (r.e + 2e-7) / std::fabs(f) + 1e-12;
        NEARQ(toQ(u), qu, tu, "q * f");
        NEARQ(toQ(v), qu, tu, "q *= f");
        NEARQ(toQ(w), qw, tw, "q / f");
        NEARQ(toQ(x), qw, tw, "q /= f");
        am::Quaternion y = r.impl;
        THROWS(y / 0.f, "division by zero");
        THROWS(y /= 0.f, "division by zero");
        CHECK(y == r.impl, "unchanged by the refused division");
        r.impl = u / f;
        r.e += 8 * EPS;
        break;
      }
      default:
        r.impl = toAm(genQ(s));
        r.q = toQ(r.impl);
        r.e = 0;
        break;
    }
    NEARQ(toQ(r.impl), r.q, 4 * r.e + 1e-7, "operation " << op);
    NEAR(r.impl.norm(), norm(toQ(r.impl)), 4e-7, "norm");
    NEAR(am::norm(r.impl), norm(toQ(r.impl)), 4e-7, "norm");
    if (r.e > 1e-4) {
      r.impl = am::Quaternion();
      r.q = Q();
      r.e = 0;
    }
    // group homomorphism and action on points
    double tol = 8 * (4 * r.e + 1e-6);
    NEARM(R(am::rotationFromQuaternion(r.impl * reg[b].impl)),
          rot(r.q) * rot(reg[b].q), tol + 32 * (reg[b].e + 1e-6), "rotation of the product");
    V3 p = genVec(s, genScale(s));
    am::Position3D ap = toP(p);
    p = P(ap);
    NEARV(P(r.impl * ap), rot(r.q) * p, tol * (norm(p) + 1e-20), "quaternion times position");
    am::Quaternion id = r.impl * r.impl.inverse();
    NEARQ(toQ(id), Q(), 8 * r.e + 1e-6, "q * q^-1");
    reg[a] = r;
  }
  s.nontrivial(rich >= 2 && qdiff(reg[0].q * reg[1].q, reg[1].q * reg[0].q) > 1e-3);
}

PBT_FACET(quaternion_comparison, 500000) {
  am::Quaternion a = toAm(genQ(s)), b = a;
  CHECK(a == b && !(a != b) && a.isNear(b, 1e-6f), "copies are equal");
  am::Quaternion m(-a.w, -a.x, -a.y, -a.z);
  CHECK(a.isNear(m, 1e-6f), "opposite quaternions are the same rotation");
  float *f[4] = {&b.w, &b.x, &b.y, &b.z};
  const float *g[4] = {&a.w, &a.x, &a.y, &a.z};
  int i = s.draw(4);
  *f[i] += s.real(-0.5, 0.5);
  double d = std::fabs((double)*f[i] - (double)*g[i]);
  CHECK((a == b) == (d == 0), "field " << i);
  CHECK((a != b) == (d != 0), "field " << i);
  float eps = (float)(s.coin() ? (double)s.real(0, 0.4) : d * (s.coin() ? 1.01 : 0.99));
  NOTE("a " << str(toQ(a)) << " field " << i << " differs by " << d << " epsilon " << eps);
  // nearness of either sign
  double sum = 0;
  for (int k = 0; k < 4; ++k) sum = std::max(sum, (double)std::fabs(*f[k] + *g[k]));
  double dist = std::min(d, sum);
  if (dist < eps * (1 - 1e-5) - 1e-6) {
    CHECK(a.isNear(b, eps), "field " << i);
    am::Quaternion mb(-b.w, -b.x, -b.y, -b.z);
    CHECK(a.isNear(mb, eps), "opposite, field " << i);
  }
  if (dist > eps * (1 + 1e-5) + 1e-6) {
    CHECK(!a.isNear(b, eps), "field " << i);
    am::Quaternion mb(-b.w, -b.x, -b.y, -b.z);
    CHECK(!a.isNear(mb, eps) && !mb.isNear(a, eps), "opposite, field " << i);
  }
  if (dist < 0.8e-4) CHECK(a.isNear(b), "default tolerance");
  if (dist > 1.2e-4) CHECK(!a.isNear(b), "default tolerance");
  // values whose differences are exact: near means strictly closer than epsilon, in every component
  {
    float u[4], v[4];
    for (int k = 0; k < 4; ++k) {
      u[k] = s.range(-4, 4) * 0.25f;
      v[k] = s.chance(1, 3) ? u[k] + s.range(-2, 2) * 0.25f : u[k];
    }
    float e = s.pick<float>({0.25f, 0.375f, 0.5f, 0.625f});
    double dm = 0, dp = 0;
    for (int k = 0; k < 4; ++k) dm = std::max(dm, (double)std::fabs(u[k] - v[k])), dp = std::max(dp, (double)std::fabs(u[k] + v[k]));
    am::Quaternion x(u[0], u[1], u[2], u[3]), y(v[0], v[1], v[2], v[3]), my(-v[0], -v[1], -v[2], -v[3]);
    NOTE("exact: " << str(toQ(x)) << " and " << str(toQ(y)) << " epsilon " << e);
    bool near = dm < e || dp < e;
    CHECK(x.isNear(y, e) == near && x.isNear(my, e) == near && y.isNear(x, e) == near, "nearness, exact distances " << dm << " and " << dp);
  }
  s.nontrivial(d > 0);
}

PBT_FACET(vector_sizes, 5000) {
  std::vector<float> v;
  size_t n = s.draw(20);
  for (size_t i = 0; i < n; ++i) v.push_back(s.real(-2, 2));
  LOG("vector", v);
  am::Rotation r(v);
  if (n == 9) {
    for (int i = 0; i < 9; ++i) CHECK(getField(r, i) == v[i], "element " << i);
  } else if (n == 12 || n == 16) {
    for (int i = 0; i < 9; ++i) CHECK(getField(r, i) == v[4 * (i / 3) + i % 3], "element " << i);
  } else {
    CHECK(r == am::Rotation(), "wrong size gives the identity");
    s.label("wrong size (rotation)");
  }
  NEARM(R(am::Rotation()), M3(), 0, "default");
  am::Quaternion q(v);
  if (n == 4)
    CHECK(q.w == v[0] && q.x == v[1] && q.y == v[2] && q.z == v[3], "quaternion from vector");
  else
    CHECK(q == am::Quaternion(0, 0, 0, 0), "wrong size gives the documented default");
  CHECK(am::Quaternion() == am::Quaternion(1, 0, 0, 0), "default is the identity");
  THROWS(am::Quaternion(0, 0, 0, 0).normalize(), "null quaternion");
  THROWS(am::normalize(am::Quaternion(0, 0, 0, 0)), "null quaternion");
  s.nontrivial(n == 4 || n == 9 || n == 12 || n == 16);
}

PBT_FACET(displacement_history, 400000) {
  struct Reg {
    am::Displacement impl;
    H h;
    double er = 0, et = 0;
  } reg[3];
  double scale = s.pick<double>({1., 100., 1e-2});
  for (auto &r : reg) {
    r.impl = am::Displacement(toP(genVec(s, scale)), toAm(genQ(s)));
    r.h = mk(rot(toQ(r.impl.Q)), P(r.impl.P));
    r.er = 1e-6;
    NOTE("displacement " << r.h);
  }
  int n = 1 + s.draw(10), rich = 0;
  for (int k = 0; k < n; ++k) {
    int a = s.draw(3), b = s.draw(3);
    Reg r = reg[a];
    double ta = norm(reg[a].h.t), tb = norm(reg[b].h.t);
    r.h = reg[a].h * reg[b].h;
    r.er = reg[a].er + reg[b].er + 1e-6;
    r.et = reg[a].er * tb + reg[a].et + reg[b].et + 2e-6 * (ta + tb) + 1e-20;
    int op = s.draw(2);
    NOTE((op ? "* " : "*= ") << a << " " << b);
    if (op) {
      r.impl = reg[a].impl * reg[b].impl;
    } else {
      am::Displacement &self = a == b ? (r.impl *= r.impl) : (r.impl *= reg[b].impl);
      CHECK(&self == &r.impl, "operator*= returns its operand");
      if (a == b) s.label("self product");
    }
    ++rich;
    NEARM(rot(toQ(r.impl.Q)), r.h.r, 8 * r.er, "rotation of the product");
    NEARV(P(r.impl.P), r.h.t, 8 * r.et, "translation of the product");
    NEARH(toH(am::transformFromDisplacement(r.impl)), r.h, 8 * r.er + 2e-6, 8 * r.et, "as a transform");
    NEAR(norm(toQ(r.impl.Q)), 1., 1e-4, "unit quaternion");
    if (r.er < 1e-4) reg[a] = r;
  }
  // comparisons
  am::Displacement d = reg[0].impl, e = d;
  CHECK(d.isNear(e, 1e-6f), "copies are near");
  float *f[7] = {&e.P.x, &e.P.y, &e.P.z, &e.Q.w, &e.Q.x, &e.Q.y, &e.Q.z};
  const float *g[7] = {&d.P.x, &d.P.y, &d.P.z, &d.Q.w, &d.Q.x, &d.Q.y, &d.Q.z};
  int i = s.draw(7);
  *f[i] += s.real(-0.3, 0.3) * s.pick<float>({1.f, 1e-3f});
  double dd = std::fabs((double)*f[i] - (double)*g[i]);
  double sum = 0;
  for (int k = 3; k < 7; ++k) sum = std::max(sum, (double)std::fabs(*f[k] + *g[k]));
  if (i >= 3) dd = std::min(dd, sum);
  float eps = s.real(0, 0.4);
  if (dd < eps * (1 - 1e-5) - 1e-4) CHECK(d.isNear(e, eps), "field " << i);
  if (dd > eps * (1 + 1e-5) + 1e-4) CHECK(!d.isNear(e, eps), "field " << i);
  if (dd < 0.4e-4) CHECK(d.isNear(e), "default tolerance");
  if (dd > 2.5e-4) CHECK(!d.isNear(e), "default tolerance");
  am::Displacement z;
  CHECK(z.P == am::Position3D() && z.Q == am::Quaternion(), "default");
  am::Displacement zp(d.P);
  CHECK(zp.P == d.P && zp.Q == am::Quaternion(), "default rotation");
  s.nontrivial(rich >= 2);
}

PBT_FACET(validity_nonfinite, 20000) {
  am::Rotation t = toR(genRot(s));
  int i = s.draw(9);
  float bad = s.pick<float>({NAN, INFINITY, -INFINITY, 1e30f, -1e30f});
  setField(t, i, bad);
  NOTE("field " << i << " = " << bad);
  CHECK(!t.isRotation(), "a matrix with a non finite element is not a rotation");
  s.nontrivial();
}
