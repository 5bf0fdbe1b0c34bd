#ifndef MINIABSL_TIME_H_
#define MINIABSL_TIME_H_
#include <chrono>
#include <limits>
namespace absl {
class Duration { public: double s = 0; friend bool operator<(Duration a, Duration b) { return a.s < b.s; } friend bool operator==(Duration a, Duration b) { return a.s == b.s; } friend bool operator<=(Duration a, Duration b) { return a.s <= b.s; } friend bool operator>(Duration a, Duration b) { return a.s > b.s; } friend bool operator>=(Duration a, Duration b) { return a.s >= b.s; } };
inline Duration Seconds(double s) { return {s}; }
inline Duration Milliseconds(double s) { return {s / 1e3}; }
inline Duration InfiniteDuration() { return {std::numeric_limits<double>::infinity()}; }
inline Duration ZeroDuration() { return {0}; }
inline double ToDoubleSeconds(Duration d) { return d.s; }
class Time { public: double s = 0; };
inline Time operator+(Time t, Duration d) { return {t.s + d.s}; }
inline Time Now() { return {std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count()}; }
inline Time InfiniteFuture() { return {std::numeric_limits<double>::infinity()}; }
}
#endif
