// A virtual wall clock: the process's own definitions of the time functions
// take precedence over libc's, for the repository's code and for the prebuilt
// libraries alike.
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>

namespace vh {
struct VClock {
  inline static std::atomic<bool> on{false};
  inline static std::atomic<int64_t> ns{0};  // nanoseconds since the epoch
  inline static std::atomic<uint64_t> reads{0};
};
}  // namespace vh

#ifndef VH_NO_CLOCK_DEFS  // one translation unit defines them
extern "C" {
__attribute__((visibility("default"), no_sanitize("all"))) int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vh::VClock::on.load(std::memory_order_relaxed) && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
    vh::VClock::reads.fetch_add(1, std::memory_order_relaxed);
    int64_t n = vh::VClock::ns.load(std::memory_order_relaxed);
    ts->tv_sec = n / 1000000000;
    ts->tv_nsec = n % 1000000000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
__attribute__((visibility("default"), no_sanitize("all"))) time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
__attribute__((visibility("default"), no_sanitize("all"))) int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}
#endif
