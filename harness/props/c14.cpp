// C14: digital filters realise their difference equation over any history.
#include "ref.h"
#include <almath/dsp/digitalfilter.h>
#include <deque>
using namespace ref;

namespace {
struct Model {  // index 0 is the oldest sample
  std::vector<float> wi{1.f}, wo;
  float gain = 1;
  std::deque<double> in, out;
  bool reconfigured = false;
};
float genValue(Src &s) {
  switch (s.draw(5)) {
    case 0:
      return (float)s.range(-3, 3);
    case 1:
      return (float)(s.range(-3, 3) * std::pow(10., (double)s.range(-6, 6)));
    default:
      return s.real(-100, 100);
  }
}
std::vector<float> genWeights(Src &s, size_t n) {
  std::vector<float> w;
  int kind = (int)s.draw(3);
  for (size_t i = 0; i < n; ++i)
    w.push_back(kind == 0 ? (float)s.range(-2, 2) : kind == 1 ? s.real(-1, 1) / (float)n : s.real(-1, 1));
  return w;
}
}  // namespace

PBT_FACET(history, 3000000) {
  am::DSP::DigitalFilter f;
  Model m;
  bool stale = false;  // reconfigured and not reset since: the history is unspecified
  size_t fresh = 0;    // samples processed since then
  int steady = 0, changes = 0;
  int n = (int)s.range(1, 60);
  for (int step = 0; step < n; ++step) {
    switch (s.weighted({20u, stale ? 2u : 1u, stale ? 1u : 2u})) {
      case 0: {
        float x = genValue(s);
        if (stale) {
          // once every remembered sample is newer than the change, they are known again
          float y = f.processFilter(x);
          NOTE("process " << x << " -> " << y << " (unspecified)");
          if (!std::isfinite(y) || std::fabs(y) > 1e30) return;
          if (fresh == 0) m.in.clear(), m.out.clear();
          ++fresh;
          m.in.push_back((double)x / m.gain);
          if (m.in.size() > m.wi.size()) m.in.pop_front();
          m.out.push_back(y);
          if (m.out.size() > m.wo.size()) m.out.pop_front();
          if (fresh >= std::max(m.wi.size(), m.wo.size())) {
            stale = false;
            s.label("known again without a reset");
          }
          break;
        }
        bool full = m.in.size() + 1 >= m.wi.size() && m.out.size() == m.wo.size();
        float y = f.processFilter(x);
        m.in.push_back((double)x / m.gain);
        if (m.in.size() > m.wi.size()) m.in.pop_front();
        double e = x, tol = 0;
        if (full) {
          e = 0;
          double mag = 0;
          for (size_t i = 0; i < m.wi.size(); ++i) {
            e += m.wi[i] * m.in[i];
            mag += std::fabs(m.wi[i] * m.in[i]);
          }
          for (size_t i = 0; i < m.wo.size(); ++i) {
            e += m.wo[i] * m.out[i];
            mag += std::fabs(m.wo[i] * m.out[i]);
          }
          tol = mag * EPS * (4. + m.wi.size() + m.wo.size()) * 2 + 1e-40;
          if (m.wi.size() + m.wo.size() > 1) ++steady;
        }
        NOTE("process " << x << " -> " << y << (full ? "" : " (warm-up)"));
        if (!std::isfinite((float)e) || !std::isfinite(y) || std::fabs(e) > 1e30) return;  // unstable filter
        NEAR(y, e, tol, "sample number " << step << " since the start");
        m.out.push_back(y);
        if (m.out.size() > m.wo.size()) m.out.pop_front();
        break;
      }
      case 1:
        NOTE("reset");
        f.resetFilter();
        m.in.clear();
        m.out.clear();
        stale = false;
        ++changes;
        break;
      default: {
        size_t a = (size_t)s.range(s.chance(1, 12) ? 0 : 1, s.chance(1, 8) ? 12 : 5), b = (size_t)s.range(0, s.chance(1, 8) ? 12 : 4);
        bool same = s.chance(1, 3);  // other weights, same sizes and gain
        if (same) a = m.wi.size(), b = m.wo.size();
        std::vector<float> wi = genWeights(s, a), wo = genWeights(s, b);
        float gain = same ? m.gain : s.chance(1, 2) ? 1.f : (s.coin() ? 1 : -1) * (float)std::pow(10., s.real(-2, 2));
        NOTE("configure in " << a << " out " << b << " gain " << gain);
        LOG("weights in", wi);
        LOG("weights out", wo);
        f.configureFilter(wi, wo, gain);
        // the samples already there are only meaningful with the same sizes and gain
        if (!same && !(m.in.empty() && m.out.empty())) stale = true, fresh = 0;
        if (stale) fresh = 0;
        m.wi = wi;
        m.wo = wo;
        m.gain = gain;
        ++changes;
        break;
      }
    }
    if (s.chance(1, 20)) {  // copies are independent
      am::DSP::DigitalFilter g(f);
      g.processFilter(genValue(s));
      g.resetFilter();
    }
  }
  if (changes > 1 && steady > 0) s.label("steady after changes");
  s.nontrivial(steady >= 3);
}

// linearity and time invariance once warmed up with zeros
PBT_FACET(linear, 1000000) {
  size_t a = (size_t)s.range(1, 6), b = (size_t)s.range(0, 4);
  std::vector<float> wi = genWeights(s, a), wo = genWeights(s, b);
  for (auto &w : wo) w /= 4;
  float gain = s.real(0.5, 4);
  LOG("weights in", wi);
  LOG("weights out", wo);
  NOTE("gain " << gain);
  am::DSP::DigitalFilter f, g, h;
  for (auto *p : {&f, &g, &h}) {
    p->configureFilter(wi, wo, gain);
    for (size_t i = 0; i < a + b; ++i) p->processFilter(0.f);
  }
  int n = (int)s.range(1, 20);
  // h is the response of f, delayed and scaled by a power of two, plus g's
  std::vector<float> yf, yg;
  std::vector<float> xs, xg;
  for (int i = 0; i < n; ++i) xs.push_back(s.real(-10, 10)), xg.push_back(s.real(-10, 10));
  int delay = (int)s.range(0, 5);
  float mag = 0;
  for (int i = 0; i < n; ++i) {
    yf.push_back(f.processFilter(xs[i]));
    yg.push_back(g.processFilter(xg[i]));
    float x = (i >= delay ? 2 * xs[i - delay] : 0) + xg[i];
    float y = h.processFilter(x), e = (i >= delay ? 2 * yf[i - delay] : 0) + yg[i];
    mag = std::max(mag, std::max(std::fabs(yf[i]) + std::fabs(yg[i]), std::fabs(x / gain)));
    NOTE("sample " << i << ": " << x << " -> " << y);
    NEAR(y, e, 1e-4 * mag + 1e-5, "superposition with a delay of " << delay << ", sample " << i);
  }
  s.nontrivial(n > 5 && a + b > 2);
}
