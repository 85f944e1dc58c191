// Counts the work done between two points, exactly: edges of the control flow
// of the code under test (and of header code compiled with it), bytes passed
// through libc's memory functions by anyone, and allocations by anyone.
#pragma once
#include <malloc.h>
#include <stdint.h>
#include <string.h>

#include <new>

#define VH_NOCOV __attribute__((no_sanitize("coverage")))

namespace vh {
struct Work {
  uint64_t edges = 0, bytes = 0, allocs = 0, allocBytes = 0, trace = 0;
};
inline bool g_count = false;      // counting
inline bool g_trace = false;      // and hashing what happened
inline Work g_work;
inline uint64_t g_budget = 0;     // stop (abort) beyond so many edges
VH_NOCOV inline void traceStep(uint64_t v) { g_work.trace = (g_work.trace ^ v) * 1099511628211ULL; g_work.trace ^= g_work.trace >> 29; }
}  // namespace vh

extern "C" {
VH_NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  static uint32_t n = 0;
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++n;
}
VH_NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!vh::g_count) return;
  vh::g_work.edges++;
  if (vh::g_trace) vh::traceStep(*g);
}

// What a comparison that stops at the first difference shows.
VH_NOCOV static size_t common(const unsigned char* a, const unsigned char* b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] == b[i]) i++;
  return i;
}
#define VH_BYTES(n, salt) \
  if (vh::g_count) { vh::g_work.bytes += (n); if (vh::g_trace) vh::traceStep((n) * 16 + (salt)); }
VH_NOCOV __attribute__((visibility("default"))) void* memcpy(void* d, const void* s, size_t n) noexcept {
  VH_BYTES(n, 1)
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
VH_NOCOV __attribute__((visibility("default"))) void* memmove(void* d, const void* s, size_t n) noexcept {
  VH_BYTES(n, 2)
  void* r = d;
  if (d <= s || static_cast<const char*>(s) + n <= d) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* dd = static_cast<char*>(d) + n - 1;
    const char* ss = static_cast<const char*>(s) + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory", "cc");
  }
  return r;
}
VH_NOCOV __attribute__((visibility("default"))) void* memset(void* d, int c, size_t n) noexcept {
  VH_BYTES(n, 3)
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
VH_NOCOV __attribute__((visibility("default"), optnone)) int memcmp(const void* a, const void* b, size_t n) noexcept {
  const unsigned char *x = static_cast<const unsigned char*>(a), *y = static_cast<const unsigned char*>(b);
  size_t i = common(x, y, n);
  VH_BYTES(i, 4)
  return i == n ? 0 : x[i] < y[i] ? -1 : 1;
}
VH_NOCOV __attribute__((visibility("default"), optnone)) int bcmp(const void* a, const void* b, size_t n) noexcept {
  size_t i = common(static_cast<const unsigned char*>(a), static_cast<const unsigned char*>(b), n);
  VH_BYTES(i, 4)
  return i != n;
}
VH_NOCOV __attribute__((visibility("default"), optnone)) int strncmp(const char* a, const char* b, size_t n) noexcept {
  size_t i = 0;
  while (i < n && a[i] == b[i] && a[i]) i++;
  VH_BYTES(i, 5)
  return i == n ? 0 : static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]);
}
VH_NOCOV __attribute__((visibility("default"), optnone)) int strcmp(const char* a, const char* b) noexcept {
  size_t i = 0;
  while (a[i] == b[i] && a[i]) i++;
  VH_BYTES(i, 5)
  return static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]);
}
VH_NOCOV __attribute__((visibility("default"), optnone)) size_t strlen(const char* s) noexcept {
  size_t i = 0;
  while (s[i]) i++;
  VH_BYTES(i, 6)
  return i;
}
VH_NOCOV __attribute__((visibility("default"), used)) void* vh_memchr(const void* s, int c, size_t n) noexcept __asm__("memchr");
VH_NOCOV __attribute__((optnone, noinline)) void* vh_memchr(const void* s, int c, size_t n) noexcept {
  const unsigned char* p = static_cast<const unsigned char*>(s);
  size_t i = 0;
  while (i < n && p[i] != static_cast<unsigned char>(c)) i++;
  VH_BYTES(i, 7)
  return i == n ? nullptr : const_cast<unsigned char*>(p + i);
}
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
VH_NOCOV __attribute__((visibility("default"))) void* malloc(size_t n) noexcept {
  if (vh::g_count) { vh::g_work.allocs++; vh::g_work.allocBytes += n; if (vh::g_trace) vh::traceStep(n * 16 + 8); }
  return __libc_malloc(n);
}
VH_NOCOV __attribute__((visibility("default"))) void* realloc(void* p, size_t n) noexcept {
  if (vh::g_count) { vh::g_work.allocs++; vh::g_work.allocBytes += n; if (vh::g_trace) vh::traceStep(n * 16 + 9); }
  return __libc_realloc(p, n);
}
VH_NOCOV __attribute__((visibility("default"))) void* calloc(size_t k, size_t n) noexcept {
  if (vh::g_count) { vh::g_work.allocs++; vh::g_work.allocBytes += n * k; if (vh::g_trace) vh::traceStep(n * k * 16 + 10); }
  return __libc_calloc(k, n);
}
}
