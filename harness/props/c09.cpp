// C09: angle and interval tools.
#include "ref.h"
#include <almath/tools/altrigonometry.h>
using namespace ref;

namespace {
double wrapDiff(double a, double b) {  // distance of two angles modulo a turn
  return std::fabs(std::remainder(a - b, 2 * PI));
}
float genWide(Src &s) {
  double a = 0;
  switch (s.draw(6)) {
    case 0: a = PI / 4 * (double)s.range(-40, 40); break;
    case 1: a = am::PI * (double)s.range(-12, 12); break;  // float multiples of pi
    case 2: a = 2 * PI * (double)s.range(-1000, 1000) + s.real(-4, 4); break;
    case 3: a = s.real(-1e5, 1e5); break;
    case 4: a = s.real(-0.01, 0.01); break;
    default: a = s.real(-10, 10); break;
  }
  float f = (float)a;
  int k = (int)s.draw(5);  // neighbours
  for (int i = 0; i < k / 2; ++i) f = std::nextafterf(f, k % 2 ? 1e30f : -1e30f);
  return f;
}
bool inRange(float a) { return a > -am::PI && a <= am::PI; }
}  // namespace

PBT_FACET(modulo, 1500000) {
  float a = genWide(s);
  LOG("angle", a);
  float r = am::modulo2PI(a), b = a;
  am::modulo2PIInPlace(b);
  CHECK(b == r, "in place and returning forms differ");
  CHECK(inRange(r), "modulo2PI(" << a << ") = " << r << " is not in ]-PI, PI]");
  // the float constant 2 pi is 1.8e-7 above 2 pi
  NEAR(wrapDiff(r, a), 0, 1e-7 * std::fabs(a) + 4e-7, "equivalent angle of " << a << ": " << r);
  if (inRange(a)) CHECK(r == a, "angle already in range: " << a << " gave " << r);
  CHECK(am::modulo2PI(r) == r, "idempotence");
  s.nontrivial(!inRange(a));
}

PBT_FACET(means, 600000) {
  bool weighted = s.coin();
  size_t n = 1 + s.draw(s.chance(1, 20) ? 200 : 8);
  double wscale = std::pow(10., s.coin() ? (double)s.range(-6, 6) : 0);
  double base = genAngle(s), spread = s.pick<double>({PI, .1, 1e-3, 0.});
  std::vector<float> a, w;
  for (size_t i = 0; i < n; ++i) {
    double x = base + spread * (2 * s.unit() - 1);
    if (s.chance(1, 6)) x = base + PI / 2 * (double)s.range(0, 3);
    if (s.chance(1, 6)) x += 2 * PI * (double)s.range(-3, 3);
    a.push_back((float)x);
    w.push_back(weighted ? (float)(wscale * (s.coin() ? 1. : 0.001 + s.unit())) : 1.f);
  }
  LOG("angles", a);
  LOG("weights", w);
  double sx = 0, sy = 0, sw = 0;
  for (size_t i = 0; i < n; ++i) {
    sx += (double)w[i] * std::cos((double)a[i]);
    sy += (double)w[i] * std::sin((double)a[i]);
    sw += w[i];
  }
  double m = std::hypot(sx, sy) / sw;  // norm of the mean vector
  auto call = [&](const std::vector<float> &aa, const std::vector<float> &ww, float &out) {
    try {
      out = weighted ? am::weightedMeanAngle(aa, ww) : am::meanAngle(aa);
      return true;
    } catch (const std::runtime_error &) {
      return false;
    }
  };
  float r = 0;
  bool ok = call(a, w, r);
  double err = 2e-7 * (n + 4);
  if (m < 1e-6 - 0 && err < 5e-4) CHECK(!ok, "the mean is not defined, got " << r);
  if (m > 2e-3 + err) {
    CHECK(ok, "refused, but the mean vector has norm " << m);
    CHECK(inRange(r), "mean " << r << " is not in ]-PI, PI]");
    double e = std::atan2(sy, sx);
    NEAR(wrapDiff(r, e), 0, err / m + 4e-7, "mean " << r << " expected " << e);
    // metamorphic relations
    std::vector<float> a2 = a, w2 = w;
    size_t i = s.draw(n), j = s.draw(n);
    std::swap(a2[i], a2[j]);
    std::swap(w2[i], w2[j]);
    float r2 = 0;
    CHECK(call(a2, w2, r2), "refused after a permutation");
    NEAR(wrapDiff(r, r2), 0, 2 * err / m + 4e-7, "order");
    a2[i] += (float)(2 * PI);
    CHECK(call(a2, w2, r2), "refused after a turn");
    NEAR(wrapDiff(r, r2), 0, 2 * err / m + 2e-6 * std::max(1., std::fabs((double)a2[i])) / m + 4e-7, "full turn");
    if (weighted) {
      float k = (float)std::pow(2., (double)s.range(-20, 20));
      for (size_t q = 0; q < n; ++q) w2[q] = w[q] * k;
      CHECK(call(a, w2, r2), "refused after scaling the weights by " << k);
      CHECK(r2 == r, "scaling the weights by " << k << ": " << r2 << " instead of " << r);
      std::vector<float> ones(n, 1.f);
      float p = 0, q2 = 0;
      bool o1 = true, o2 = true;
      try { p = am::weightedMeanAngle(a, ones); } catch (const std::runtime_error &) { o1 = false; }
      try { q2 = am::meanAngle(a); } catch (const std::runtime_error &) { o2 = false; }
      CHECK(o1 == o2 && (!o1 || p == q2), "equal weights");
    }
  }
  // refusals
  if (s.coin()) {
    std::vector<float> w2 = w;
    w2[s.draw(n)] = s.pick<float>({0.f, -1.f, -1e-6f, -0.f});
    THROWS(am::weightedMeanAngle(a, w2), "non-positive weight");
    w2 = w;
    if (s.coin()) w2.push_back(1.f); else w2.pop_back();
    THROWS(am::weightedMeanAngle(a, w2), "sizes");
    std::vector<float> none;
    THROWS(am::meanAngle(none), "no angle");
    THROWS(am::weightedMeanAngle(none, none), "no angle");
    float x = (float)genAngle(s);
    std::vector<float> opp{x, (float)(x + PI)};
    THROWS(am::meanAngle(opp), "opposite angles " << x);
    THROWS(am::weightedMeanAngle(opp, std::vector<float>(2, (float)wscale)), "opposite angles " << x << " weights " << wscale);
  }
  s.nontrivial(n >= 2 && spread > 0 && m > 2e-3);
}

PBT_FACET(clip, 800000) {
  float scale = s.pick<float>({1.f, 1000.f, 1e-4f, 1e30f});
  float lo = scale * s.real(-1, 1), hi = scale * s.real(-1, 1);
  if (hi < lo) std::swap(lo, hi);
  auto gen = [&]() {
    switch (s.draw(6)) {
      case 0: return lo;
      case 1: return hi;
      case 2: return std::nextafterf(lo, -1e38f);
      case 3: return std::nextafterf(hi, 1e38f);
      case 4: return (float)(lo + (double)(hi - lo) * s.unit());
      default: return scale * s.real(-2, 2);
    }
  };
  NOTE("interval [" << lo << ", " << hi << "]");
  auto exp = [&](float x) { return x < lo ? lo : x > hi ? hi : x; };
  float x = gen(), y = x;
  LOG("x", x);
  bool c = am::clipData(lo, hi, y);
  CHECK(y == exp(x), "clip of " << x << " gave " << y);
  CHECK(c == (x < lo || x > hi), "flag for " << x);
  std::vector<float> v;
  bool any = false;
  size_t n = s.draw(6);
  for (size_t i = 0; i < n; ++i) v.push_back(gen());
  std::vector<float> u = v;
  for (float f : v) any = any || f < lo || f > hi;
  LOG("v", v);
  c = am::clipData(lo, hi, u);
  CHECK(c == any, "flag of a vector");
  CHECK(u.size() == n, "size");
  for (size_t i = 0; i < n; ++i) CHECK(u[i] == exp(v[i]), "vector, element " << i);
  std::vector<std::vector<float> > vv(s.draw(4)), uu;
  any = false;
  for (auto &row : vv) {
    size_t k = s.draw(4);
    for (size_t i = 0; i < k; ++i) {
      row.push_back(gen());
      any = any || row.back() < lo || row.back() > hi;
    }
    LOG("row", row);
  }
  uu = vv;
  c = am::clipData(lo, hi, uu);
  CHECK(c == any, "flag of a vector of vectors");
  CHECK(uu.size() == vv.size(), "size");
  for (size_t j = 0; j < vv.size(); ++j) {
    CHECK(uu[j].size() == vv[j].size(), "size");
    for (size_t i = 0; i < vv[j].size(); ++i) CHECK(uu[j][i] == exp(vv[j][i]), "element " << j << " " << i);
  }
  s.nontrivial(any && n >= 2);
}

PBT_FACET(constants, 1) {
  NEAR(am::PI, PI, 1.0e-7, "PI");
  NEAR(am::_2_PI_, 2 * PI, 2.0e-7, "2 PI");
  NEAR(am::_4_PI_, 4 * PI, 4.0e-7, "4 PI");
  NEAR(am::PI_2, PI / 2, 5.0e-8, "PI / 2");
  NEAR(am::PI_4, PI / 4, 3.0e-8, "PI / 4");
  NEAR(am::TO_RAD, PI / 180, 2e-9, "TO_RAD");
  NEAR(am::TO_DEG, 180 / PI, 4e-6, "TO_DEG");
  s.nontrivial(true);
}
