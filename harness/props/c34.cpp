// C34: time stamps are converted between the two clocks exactly, in order, and within the valid range.
#include "pbt.h"
#include <qi/clock.hpp>
#include <ros/time.h>
#include <almath/scenegraph/qirostime.h>
using AL::Math::toQiDuration;
using AL::Math::toValidRosTime;

using namespace pbt;

namespace {
const int64_t G = 1000000000, TOP = 4294967295ll * G + 999999999;
int64_t genCount(Src &s) {
  const int64_t MIN = std::numeric_limits<int64_t>::min(), MAX = std::numeric_limits<int64_t>::max();
  int64_t near = (int64_t)s.range(-2, 2);
  switch (s.weighted({4, 2, 2, 1, 1, 3, 2})) {
    case 0: {  // any valid date
      return (int64_t)(s.draw(4294967296ull) * (uint64_t)G + s.draw(G));
    }
    case 1: return near;
    case 2: return TOP + near;
    case 3: return near < 0 ? MAX + near : MAX - near;
    case 4: return near < 0 ? MIN - near : MIN + near;
    case 5: return (int64_t)s.draw(4294967296ull) * G + near;  // around a whole second
    default: {  // any magnitude, both signs
      uint64_t b = s.draw(64), v = (1ull << b) | s.draw(1ull << b);
      return (int64_t)v;
    }
  }
}
std::string str(ros::Time t) { return std::to_string(t.sec) + "." + std::to_string(t.nsec); }
}  // namespace

PBT_FACET(to_ros, 8000000) {
  int64_t a = genCount(s), b = s.coin() ? genCount(s) : a + (int64_t)((a < 0) - (a > 0)) * (int64_t)s.draw(3);
  NOTE("durations " << a << " and " << b << " ns");
  ros::Time ta = toValidRosTime(qi::Duration(a)), tb = toValidRosTime(qi::Duration(b));
  int64_t want = a < 1 ? 1 : a > TOP ? TOP : a;
  CHECK(ta.sec == (uint64_t)want / G && ta.nsec == (uint64_t)want % G, "time " << str(ta));
  CHECK(ta.nsec < G, "nanoseconds");
  CHECK(ta >= ros::TIME_MIN && ta <= ros::TIME_MAX && !ta.isZero(), "valid time");
  if (a <= b) CHECK(ta <= tb, "order");
  if (a >= b) CHECK(ta >= tb, "order");
  CHECK(toQiDuration(ta).count() == want, "and back: " << toQiDuration(ta).count());
  if (a < 1) s.label("before the range");
  if (a > TOP) s.label("after the range");
  s.nontrivial(want == a && a % G != 0 && a > G);
}

PBT_FACET(to_qi, 4000000) {
  ros::Time t((uint32_t)s.pick<uint64_t>({s.draw(4294967296ull), s.draw(4), 4294967295ull - s.draw(3)}),
              (uint32_t)s.pick<uint64_t>({s.draw(G), s.draw(3), (uint64_t)G - 1 - s.draw(3)}));
  NOTE("time " << str(t));
  int64_t d = toQiDuration(t).count();
  CHECK(d == (int64_t)t.sec * G + t.nsec, "duration " << d);
  ros::Time u = toValidRosTime(toQiDuration(t));
  CHECK(t.isZero() ? u == ros::TIME_MIN : u == t, "and back: " << str(u));
  s.nontrivial(t.sec > 0 && t.nsec > 0);
}
