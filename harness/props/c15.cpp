// C15: PID controllers compute the documented command over any history.
#include "ref.h"
#include <almath/dsp/pidcontroller.h>
using namespace ref;

namespace {
struct Model {
  float kp = 0, kv = 0, ki = 0, th = 0, off = 0, period = 1;
  double prev = 0, integral = 0;
  double prevErr = 0, intErr = 0;  // rounding error bounds
  bool first = true;
};
float gain(Src &s) {
  switch (s.draw(4)) {
    case 0:
      return 0;
    case 1:
      return (float)s.range(0, 3);
    default:
      return s.chance(1, 8) ? s.real(0, 1000) : s.real(0, 50);
  }
}
float genPeriod(Src &s) { return s.coin() ? s.pick({0.01f, 0.02f, 1.f, 0.5f}) : (float)std::pow(10., s.real(-3, 1)); }
float invalidate(Src &s) { return s.coin() ? -1.f : -(float)std::pow(10., s.real(-6, 3)); }
double deadZone(double e, double th) { return e > th ? e - th : e < -th ? e + th : 0; }
}  // namespace

PBT_FACET(history, 3000000) {
  Model m;
  const double big = s.pick({10., 10., 10., 1., 1e-2, 1e3, 1e5});
  std::unique_ptr<am::DSP::PIDController> c;
  if (s.coin()) {
    c.reset(new am::DSP::PIDController());
  } else {
    m.kp = gain(s), m.kv = gain(s), m.ki = gain(s);
    m.th = s.coin() ? 0 : s.real(0, 0.3 * big);
    m.off = s.coin() ? 0 : s.real(0, 0.5 * big);
    m.period = genPeriod(s);
    c.reset(new am::DSP::PIDController(m.kp, m.kv, m.ki, m.th, m.off, m.period));
  }
  int n = s.chance(1, 100) ? (int)s.range(40, 600) : (int)s.range(1, 40), computed = 0, resets = 0;
  for (int step = 0; step < n; ++step) {
    switch (s.weighted({14, 3, 1, 2, 2, 2})) {
      case 0:
      case 1: {
        bool absolute = s.chance(1, 4);
        double e, er;  // error and its rounding error
        float y, per = m.period;
        if (absolute) {
          float err = s.real(-big, big);
          e = err > m.th ? (double)err - m.th : 0;
          er = EPS * std::fabs(e);
          y = c->computeFeedbackAbsolute(err);
          NOTE("absolute error " << err << " -> " << y);
        } else {
          float cmd = s.real(-big, big), sen = s.real(-big, big);
          if (s.chance(1, 4)) sen = cmd + (s.coin() ? 1 : -1) * m.th * (float)s.pick({1., 0.5, 1.25});
          e = deadZone((float)(cmd - sen), m.th);
          er = EPS * (std::fabs((double)cmd - sen) + std::fabs(e)) * 2;
          switch (s.draw(3)) {
            case 0:
              y = c->computeFeedback(cmd, sen);
              NOTE("command " << cmd << " sensor " << sen << " -> " << y);
              break;
            case 1: {
              float p = s.pick({-1.f, 0.f, -0.5f});  // no period given
              y = c->computeFeedback(cmd, sen, p);
              NOTE("command " << cmd << " sensor " << sen << " period " << p << " -> " << y);
              break;
            }
            default:
              per = genPeriod(s);
              y = c->computeFeedback(cmd, sen, per);
              NOTE("command " << cmd << " sensor " << sen << " period " << per << " -> " << y);
              s.label("given period");
          }
        }
        double d = m.first ? 0 : (e - m.prev) / per;
        double de = m.first ? 0 : (er + m.prevErr) / per + 4 * EPS * std::fabs(d);
        if (absolute) d = std::fabs(d);
        m.integral += e * per;
        m.intErr += (er + 2 * EPS * std::fabs(e)) * per + EPS * std::fabs(m.integral) * 2;
        m.prev = e;
        m.prevErr = er;
        m.first = false;
        double expect = m.off + m.kp * e + m.kv * d + m.ki * m.integral;
        double mag = m.off + std::fabs(m.kp * e) + std::fabs(m.kv * d) + std::fabs(m.ki * m.integral);
        double tol = 2 * (m.kp * er + m.kv * de + m.ki * m.intErr) + 8 * EPS * mag + 1e-30;
        NEAR(y, expect, tol, "command number " << computed << " since the last reset");
        ++computed;
        s.nontrivial(computed >= 3 && m.kv != 0 && m.ki != 0);
        break;
      }
      case 2:
        NOTE("initialize");
        c->initialize();
        m.first = true;
        m.integral = m.intErr = 0;
        computed = 0;
        ++resets;
        break;
      case 3: {
        m.kp = gain(s), m.kv = gain(s), m.ki = gain(s);
        m.th = s.coin() ? 0 : s.real(0, 0.3 * big);
        m.off = s.coin() ? 0 : s.real(0, 0.5 * big);
        m.period = genPeriod(s);
        NOTE("initialize " << m.kp << " " << m.kv << " " << m.ki << " threshold " << m.th << " offset " << m.off << " period " << m.period);
        c->initialize(m.kp, m.kv, m.ki, m.th, m.off, m.period);
        m.first = true;
        m.integral = m.intErr = 0;
        computed = 0;
        ++resets;
        break;
      }
      case 4:
        m.kp = gain(s), m.kv = gain(s), m.ki = gain(s);
        NOTE("gains " << m.kp << " " << m.kv << " " << m.ki);
        c->setGains(m.kp, m.kv, m.ki);
        break;
      default: {  // refused, without any effect
        float v[6] = {gain(s), gain(s), gain(s), gain(s), gain(s), genPeriod(s)};
        bool full = s.coin();
        int bad = (int)s.draw(full ? 6 : 3);
        v[bad] = bad == 5 && s.coin() ? 0 : invalidate(s);
        NOTE((full ? "initialize " : "gains ") << v[0] << " " << v[1] << " " << v[2] << " " << v[3] << " " << v[4] << " " << v[5]);
        if (full) {
          THROWS(c->initialize(v[0], v[1], v[2], v[3], v[4], v[5]), "invalid parameter " << bad);
          THROWS(am::DSP::PIDController(v[0], v[1], v[2], v[3], v[4], v[5]), "invalid parameter " << bad);
        } else {
          THROWS(c->setGains(v[0], v[1], v[2]), "invalid gain " << bad);
        }
        s.label("refused");
      }
    }
  }
}
