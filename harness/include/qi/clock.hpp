// Stand-in for libqi's clock (not installed): a signed count of nanoseconds.
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <algorithm>
#include <cassert>
namespace qi {
using Duration = std::chrono::duration<int64_t, std::nano>;
using Seconds = std::chrono::duration<int64_t>;
using NanoSeconds = std::chrono::duration<int64_t, std::nano>;
using MicroSeconds = std::chrono::duration<int64_t, std::micro>;
using MilliSeconds = std::chrono::duration<int64_t, std::milli>;
using Minutes = std::chrono::duration<int64_t, std::ratio<60>>;
using Hours = std::chrono::duration<int64_t, std::ratio<3600>>;
struct Clock {
  using duration = Duration;
  using rep = Duration::rep;
  using time_point = std::chrono::time_point<Clock, Duration>;
};
struct SystemClock {
  using duration = Duration;
  using rep = Duration::rep;
  using time_point = std::chrono::time_point<SystemClock, Duration>;
};
}
