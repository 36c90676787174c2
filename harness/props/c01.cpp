// C01: transforms obey the group laws over any history of operations.
#include "ref.h"
using namespace ref;

namespace {
// model of a register: exact motion and error bounds (rotation: spectral norm)
struct Reg {
  am::Transform impl;
  H h;
  double er = 0, et = 0;
};
const double RND = 12 * EPS;  // rounding of a 3x3 product, spectral norm bound

void bumpRound(Reg &r, double tmag) {
  r.er += RND;
  r.et += 8 * EPS * (tmag + norm(r.h.t)) + 1e-30;
}
Reg compose(const Reg &a, const Reg &b) {
  Reg c;
  c.h = a.h * b.h;
  c.er = a.er + b.er + a.er * b.er;
  c.et = a.er * (norm(b.h.t) + b.et) + b.et + a.et;
  bumpRound(c, norm(a.h.t) + norm(b.h.t));
  return c;
}
Reg inverse(const Reg &a) {
  Reg c;
  c.h = inv(a.h);
  c.er = a.er;
  c.et = a.er * (norm(a.h.t) + a.et) + a.et;
  bumpRound(c, norm(a.h.t));
  return c;
}
void compare(Src &s, const Reg &r, const char *what) {
  NEARM(R(r.impl), r.h.r, 4 * r.er + 1e-7, what);
  NEARV(T(r.impl), r.h.t, 4 * r.et + 1e-7 * norm(r.h.t) + 1e-30, what);
}
Reg fresh(Src &s, double m) {
  Reg r;
  r.impl = genTransform(s, m);
  // the model is the stored (float) matrix itself; its distance to an exact
  // rotation is a rounding error
  r.h = toH(r.impl);
  r.er = 4 * EPS;
  r.et = 0;
  return r;
}
void copyField(am::Transform &t, int i, float v) {
  float *f[12] = {&t.r1_c1, &t.r1_c2, &t.r1_c3, &t.r1_c4, &t.r2_c1, &t.r2_c2,
                  &t.r2_c3, &t.r2_c4, &t.r3_c1, &t.r3_c2, &t.r3_c3, &t.r3_c4};
  *f[i] = v;
}
float field(const am::Transform &t, int i) {
  const float f[12] = {t.r1_c1, t.r1_c2, t.r1_c3, t.r1_c4, t.r2_c1, t.r2_c2,
                       t.r2_c3, t.r2_c4, t.r3_c1, t.r3_c2, t.r3_c3, t.r3_c4};
  return f[i];
}
}  // namespace

PBT_FACET(history, 600000) {
  const double scale = s.pick<double>({1., 0., 100., 1e-3});
  Reg reg[4];
  for (auto &r : reg) r = fresh(s, scale);
  if (s.verbose)
    for (int i = 0; i < 4; ++i) NOTE("reg" << i << " " << reg[i].h);
  int n = 1 + s.draw(40);
  int rich = 0;
  for (int step = 0; step < n; ++step) {
    int a = s.draw(4), b = s.draw(4), c = s.draw(4);
    int op = s.draw(16);
    Reg m;
    switch (op) {
      case 0:
        NOTE("reg" << a << " = reg" << b << " * reg" << c);
        m = compose(reg[b], reg[c]);
        m.impl = reg[b].impl * reg[c].impl;
        ++rich;
        break;
      case 1:
      case 2:
        NOTE("reg" << a << " *= reg" << b);
        m = compose(reg[a], reg[b]);
        m.impl = reg[a].impl;
        if (a == b) {
          s.label("self product");
          m.impl *= m.impl;
        } else {
          m.impl *= reg[b].impl;
        }
        ++rich;
        break;
      case 3:
        NOTE("transformPreMultiply(reg" << b << ", reg" << a << ")");
        m = compose(reg[b], reg[a]);
        m.impl = reg[a].impl;
        {
          const am::Transform left = reg[b].impl;
          am::transformPreMultiply(left, m.impl);
        }
        ++rich;
        break;
      case 4:
        NOTE("reg" << a << " = reg" << b << ".inverse()");
        m = inverse(reg[b]);
        m.impl = reg[b].impl.inverse();
        ++rich;
        break;
      case 5:
        NOTE("transformInvertInPlace(reg" << a << ")");
        m = inverse(reg[a]);
        m.impl = reg[a].impl;
        am::transformInvertInPlace(m.impl);
        ++rich;
        break;
      case 6:
        NOTE("transformInverse(reg" << b << ", reg" << a << ")");
        m = inverse(reg[b]);
        m.impl = reg[a].impl;
        {
          const am::Transform in = reg[b].impl;
          am::transformInverse(in, m.impl);
        }
        break;
      case 7:
        NOTE("reg" << a << " = transformInverse(reg" << b << ")");
        m = inverse(reg[b]);
        m.impl = am::transformInverse(reg[b].impl);
        break;
      case 8:
        NOTE("reg" << a << " = pinv(reg" << b << ")");
        m = inverse(reg[b]);
        m.impl = am::pinv(reg[b].impl);
        break;
      case 9:
        NOTE("reg" << a << " = reg" << b << ".diff(reg" << c << ")");
        m = compose(inverse(reg[b]), reg[c]);
        m.impl = reg[b].impl.diff(reg[c].impl);
        ++rich;
        break;
      case 10:
        NOTE("reg" << a << " = transformDiff(reg" << b << ", reg" << c << ")");
        m = compose(inverse(reg[b]), reg[c]);
        m.impl = am::transformDiff(reg[b].impl, reg[c].impl);
        ++rich;
        break;
      case 11:
        NOTE("reg" << a << " normalised");
        m = reg[a];
        if (s.coin())
          m.impl.normalizeTransform();
        else
          am::normalizeTransform(m.impl);
        m.er = 4 * m.er + 24 * EPS;
        break;
      case 12: {
        NOTE("reg" << a << " = Transform(reg" << b << ".toVector())");
        m = reg[b];
        std::vector<float> v = reg[b].impl.toVector();
        CHECK(v.size() == 16, v.size());
        for (int i = 0; i < 12; ++i)
          CHECK(v[i] == field(reg[b].impl, i), "element " << i);
        CHECK(v[12] == 0 && v[13] == 0 && v[14] == 0 && v[15] == 1, "last row");
        std::vector<float> w(s.draw(20), 7.f);
        reg[b].impl.toVector(w);
        CHECK(w == v, "toVector forms");
        std::vector<float> x(18, 9.f);
        std::vector<float>::iterator it = x.begin() + 1;
        reg[b].impl.writeToVector(it);
        CHECK(it == x.begin() + 17, "writeToVector advances by 16");
        CHECK(std::equal(v.begin(), v.end(), x.begin() + 1), "writeToVector");
        CHECK(x[0] == 9.f && x[17] == 9.f, "writeToVector neighbours");
        CHECK(am::transformToFloatVector(reg[b].impl) ==
                  std::vector<float>(v.begin(), v.begin() + 12) ||
              am::transformToFloatVector(reg[b].impl) == v, "transformToFloatVector");
        if (s.coin()) v.resize(12);
        m.impl = am::Transform(v);
        if (reg[b].er < 1e-5)
          CHECK(m.impl == reg[b].impl, "valid matrices are kept as given");
        m.er = 4 * m.er + 24 * EPS;
        break;
      }
      case 13:
        NOTE("reg" << a << " fresh");
        m = fresh(s, scale);
        break;
      default:
        NOTE("reg" << a << " = reg" << b << " * reg" << c << " (in place on a copy)");
        m = compose(reg[b], reg[c]);
        m.impl = reg[b].impl;
        {
          am::Transform &self = (m.impl *= reg[c].impl);
          CHECK(&self == &m.impl, "operator *= returns its operand");
        }
        ++rich;
        break;
    }
    if (m.er > 2.5e-5 || 4 * m.et > 1e-3 * (1 + norm(m.h.t)) || norm(m.h.t) > 1e5) {
      // out of the float-accurate range: restart the register
      compare(s, m, "after operation");
      m = fresh(s, scale);
      s.label("register restarted (error bound)");
    }
    reg[a] = m;
    compare(s, reg[a], "after operation");
    const am::Transform &ta = reg[a].impl;
    CHECK(ta.isTransform(), "closure: still a valid transform: " << toH(ta));
    double d = am::determinant(ta);
    NEAR(d, 1., 8 * reg[a].er * 4 + 1e-6, "determinant");
    NEAR(ta.determinant(), d, 1e-6, "determinant member");
    NEAR(am::determinant(ta.toVector()), d, 1e-6, "determinant of vector");
    double nt = norm(T(ta));
    NEAR(ta.norm(), nt, 4e-7 * nt + 1e-22, "norm");
    NEAR(am::norm(ta), nt, 4e-7 * nt + 1e-22, "norm");
    const am::Transform &tb = reg[b].impl;
    double dist = norm(T(ta) - T(tb));
    NEAR(ta.distance(tb), dist, 4e-7 * (dist + nt) + 1e-18, "distance");
    NEAR(am::transformDistance(ta, tb), dist, 4e-7 * (dist + nt) + 1e-18, "distance");
    // the squares of differences computed in float
    NEAR(ta.distanceSquared(tb), dist * dist, 1e-6 * dist * dist + 1e-22, "distanceSquared");
    NEAR(am::transformDistanceSquared(ta, tb), dist * dist, 1e-6 * dist * dist + 1e-22, "distanceSquared");
    // inverse law, through the library only
    H id = toH(ta * ta.inverse());
    NEARH(id, H(), 4 * (2 * reg[a].er + 2 * RND) + 1e-6, 1e-5 * (nt + 1e-20) + 8 * reg[a].er * nt, "t * t^-1");
    H id2 = toH(am::transformDiff(ta, ta));
    NEARH(id2, H(), 4 * (2 * reg[a].er + 2 * RND) + 1e-6, 1e-5 * (nt + 1e-20) + 8 * reg[a].er * nt, "diff(t, t)");
    CHECK(ta.isNear(ta, 0.f) && ta == ta && !(ta != ta), "reflexivity");
  }
  double ang = 0;
  for (auto &r : reg)
    for (auto &q : reg) ang = std::max(ang, maxdiff(r.h.r * q.h.r, q.h.r * r.h.r));
  if (rich >= 10) s.label("10+ products");
  s.nontrivial(rich >= 3 && ang > 1e-3);
}

PBT_FACET(comparison, 400000) {
  am::Transform a = genTransform(s, genScale(s));
  am::Transform b = a;
  CHECK(a == b && !(a != b), "copies are equal");
  int i = s.draw(12);
  float d = s.real(-0.5, 0.5);
  copyField(b, i, field(a, i) + d);
  double real_d = std::fabs((double)field(b, i) - (double)field(a, i));
  LOG("field", i);
  LOG("delta", d);
  CHECK((a == b) == (real_d == 0), "equality is exact, field " << i);
  CHECK((a != b) == (real_d != 0), "inequality is exact, field " << i);
  double e = s.coin() ? (double)s.real(0, 0.6) : real_d * (s.coin() ? 1.01 : 0.99);
  float eps = (float)e;
  LOG("epsilon", eps);
  if (real_d < eps * (1 - 1e-5) - 1e-6 * 10)
    CHECK(a.isNear(b, eps), "isNear, field " << i << " differs by " << real_d << " eps " << eps);
  if (real_d > eps * (1 + 1e-5) + 1e-6 * 10)
    CHECK(!a.isNear(b, eps), "isNear, field " << i << " differs by " << real_d << " eps " << eps);
  // default tolerance 1e-4
  if (real_d < 0.8e-4) CHECK(a.isNear(b), "default tolerance");
  if (real_d > 1.2e-4) CHECK(!a.isNear(b), "default tolerance");
  s.nontrivial(real_d > 0);
}

PBT_FACET(factories, 400000) {
  float wx = (float)genTurns(s), wy = (float)genTurns(s), wz = (float)genTurns(s);
  const double m = genScale(s);
  float x = s.real(-m, m), y = s.real(-m, m), z = s.real(-m, m);
  NOTE("angles " << wx << " " << wy << " " << wz << " position " << x << " " << y << " " << z);
  NEARH(toH(am::Transform()), H(), 0, 0, "default");
  NEARH(toH(am::Transform(x, y, z)), mk(M3(), V3(x, y, z)), 0, 0, "Transform(x, y, z)");
  NEARH(toH(am::Transform::fromPosition(x, y, z)), mk(M3(), V3(x, y, z)), 0, 0, "fromPosition");
  NEARH(toH(am::transformFromPosition(x, y, z)), mk(M3(), V3(x, y, z)), 0, 0, "transformFromPosition");
  NEARH(toH(am::Transform::fromRotX(wx)), mk(rotX(wx), V3()), 4e-7, 0, "fromRotX");
  NEARH(toH(am::Transform::fromRotY(wy)), mk(rotY(wy), V3()), 4e-7, 0, "fromRotY");
  NEARH(toH(am::Transform::fromRotZ(wz)), mk(rotZ(wz), V3()), 4e-7, 0, "fromRotZ");
  NEARH(toH(am::transformFromRotX(wx)), mk(rotX(wx), V3()), 4e-7, 0, "transformFromRotX");
  NEARH(toH(am::transformFromRotY(wy)), mk(rotY(wy), V3()), 4e-7, 0, "transformFromRotY");
  NEARH(toH(am::transformFromRotZ(wz)), mk(rotZ(wz), V3()), 4e-7, 0, "transformFromRotZ");
  M3 zyx = rotZYX(wx, wy, wz);
  NEARH(toH(am::Transform::from3DRotation(wx, wy, wz)), mk(zyx, V3()), 2e-6, 0, "from3DRotation");
  NEARH(toH(am::transformFrom3DRotation(wx, wy, wz)), mk(zyx, V3()), 2e-6, 0, "transformFrom3DRotation");
  NEARH(toH(am::Transform::fromPosition(x, y, z, wx, wy, wz)), mk(zyx, V3(x, y, z)), 2e-6, 0, "fromPosition6");
  NEARH(toH(am::transformFromPosition(x, y, z, wx, wy, wz)), mk(zyx, V3(x, y, z)), 2e-6, 0, "transformFromPosition6");
  s.nontrivial(wx != 0 && wy != 0 && wz != 0);
}

PBT_FACET(from_vector, 300000) {
  size_t n = s.weighted({1, 1, 1, 1}) == 0 ? (size_t)s.draw(20) : (s.coin() ? 12 : 16);
  am::Transform t = genTransform(s, genScale(s));
  std::vector<float> v = t.toVector();
  v.resize(n, 0.25f);
  double scale = 1;
  if (s.coin()) {
    scale = 0.3 + 3 * s.unit();
    for (int i = 0; i < 12 && i < (int)n; ++i)
      if (i % 4 != 3) v[i] *= (float)scale;
  }
  LOG("vector", v);
  am::Transform u(v);
  if (n != 12 && n != 16) {
    CHECK(u == am::Transform(), "wrong size gives the identity");
    NEAR(am::determinant(v), 0, 0, "determinant of a vector of the wrong size");
    s.label("wrong size");
  } else {
    CHECK(u.isTransform(), "valid");
    // what is valid up to the tolerance of isTransform may be kept as given
    NEARM(R(u), R(t), std::fabs(scale - 1) < 1e-3 ? 1.5e-3 : 1e-5, "the direction is kept");
    for (int i = 3; i < 12; i += 4) CHECK(field(u, i) == field(t, i), "translation is kept");
    if (scale == 1) CHECK(u == t, "valid matrices are kept as given");
    NEAR(am::determinant(v), scale * scale * scale, 1e-5 * scale * scale * scale, "determinant of a vector");
  }
  s.nontrivial();
}

PBT_FACET(validity, 1000000) {
  // isTransform decides R^T R = I and det R = 1, up to epsilon
  float eps = s.pick<float>({1e-4f, 1e-3f, 1e-2f, 3e-5f, 0.f, 0.3f});
  const double de = eps > 0 ? eps : 1e-4;  // size of the damage
  H h = genH(s, genScale(s));
  M3 r = h.r;
  switch (s.draw(6)) {
    case 0:
      break;
    case 1: {  // one element
      int i = s.draw(9);
      r.m[i / 3][i % 3] += (s.coin() ? 1 : -1) * de * std::pow(10., 3 * s.unit() - 1.5);
      break;
    }
    case 2: {  // uniform scaling
      r = (1 + (s.coin() ? 1 : -1) * de * std::pow(10., 3 * s.unit() - 1.5)) * r;
      break;
    }
    case 3: {  // column scaling that keeps the determinant
      double k = 1 + (s.coin() ? 1 : -1) * de * std::pow(10., 3 * s.unit() - 1.5);
      int a = s.draw(3), b = (a + 1) % 3;
      for (int i = 0; i < 3; ++i) {
        r.m[i][a] *= k;
        r.m[i][b] /= k;
      }
      break;
    }
    case 4: {  // shear
      double k = (s.coin() ? 1 : -1) * de * std::pow(10., 3 * s.unit() - 1.5);
      int a = s.draw(3), b = (a + 1) % 3;
      for (int i = 0; i < 3; ++i) r.m[i][a] += k * r.m[i][b];
      break;
    }
    default: {  // reflection
      int a = s.draw(3);
      for (int i = 0; i < 3; ++i) r.m[i][a] = -r.m[i][a];
      break;
    }
  }
  am::Transform t = toT(mk(r, h.t));
  M3 st = R(t);
  double err = orthoError(st);
  NOTE("matrix " << st << " orthonormality error " << err << " epsilon " << eps);
  bool res = t.isTransform(eps);
  if (err > 3.5 * eps + 5e-6) CHECK(!res, "invalid matrix accepted, error " << err << " eps " << eps << " " << st);
  if (err < eps / 3.5 - 5e-6) CHECK(res, "valid matrix refused, error " << err << " eps " << eps << " " << st);
  bool exact = true;  // a matrix of 0, 1 and -1
  for (int i = 0; i < 9; ++i) exact &= st.m[i / 3][i % 3] == std::rint(st.m[i / 3][i % 3]);
  if (exact && err == 0) CHECK(res, "exact matrix refused, epsilon " << eps << " " << st);
  if (eps == 1e-4f) CHECK(res == t.isTransform(), "default tolerance");
  s.label(res ? "accepted" : "refused");
  s.nontrivial(err > 1e-6);
}

PBT_FACET(validity_nonfinite, 20000) {
  am::Transform t = genTransform(s, genScale(s));
  int i = s.draw(9);
  float bad = s.pick<float>({NAN, INFINITY, -INFINITY, 1e30f, -1e30f});
  copyField(t, i + i / 3, bad);
  NOTE("field " << i + i / 3 << " = " << bad);
  CHECK(!t.isTransform(), "a matrix with a non finite element is not a transform");
  CHECK(!t.isTransform(1e-2f), "a matrix with a non finite element is not a transform");
  s.nontrivial();
}
