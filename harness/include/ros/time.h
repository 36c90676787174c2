// Stand-in for rostime (not installed): ros::Time as ros/time.h and ros/impl/time.h define it.
#pragma once
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <stdexcept>
namespace ros {
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) { normalize(s, n); }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + (uint64_t)nsec; }
  explicit Time(double t) { fromSec(t); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  Time &fromSec(double t) {
    sec = (uint32_t)std::floor(t);
    nsec = (uint32_t)std::round((t - sec) * 1e9);
    sec += nsec / 1000000000u;
    nsec %= 1000000000u;
    return *this;
  }
  bool is_zero() const { return isZero(); }
  Time &fromNSec(uint64_t t) {
    normalize(0, t);
    return *this;
  }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return sec < o.sec || (sec == o.sec && nsec < o.nsec); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  bool isZero() const { return sec == 0 && nsec == 0; }
 private:
  void normalize(uint64_t s, uint64_t n) {
    uint64_t t = s + n / 1000000000ull;
    if (t > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)t;
    nsec = (uint32_t)(n % 1000000000ull);
  }
};
static const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
static const Time TIME_MIN(0, 1);
}
