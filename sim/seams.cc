#include "seams.hh"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
extern "C" {
#include <gf_complete.h>
}
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif

namespace seam {
thread_local int64_t mono_ns = 0, wall_ns = 0;
uint64_t clock_reads = 0;
thread_local int lib_depth = 0;
long alloc_seen = 0, alloc_fail = 0, alloc_fired = 0, live_blocks = 0;
uint64_t gf_region_ops = 0;
void (*yield_hook)(Yield) = nullptr;
LibScope::LibScope() { ++lib_depth; }
LibScope::~LibScope() { --lib_depth; }
void arm_alloc(long k) { alloc_seen = 0; alloc_fail = k; alloc_fired = 0; }
void disarm_alloc() { alloc_fail = 0; }

static bool should_fail() {
  if (!lib_depth) return false;
  ++alloc_seen;
  if (alloc_fail && alloc_seen == alloc_fail) { ++alloc_fired; return true; }
  return false;
}
}

// ---- clocks ------------------------------------------------------------------------------------
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  ++seam::clock_reads;
  return time_point(duration(seam::mono_ns));
}
system_clock::time_point system_clock::now() noexcept {
  ++seam::clock_reads;
  return time_point(duration(seam::wall_ns));
}
}}}

extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec* t);
time_t __real_time(time_t*);
int __real_gettimeofday(struct timeval*, void*);
int __real_posix_memalign(void**, size_t, size_t);

int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!seam::lib_depth) return __real_clock_gettime(c, t);
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? seam::wall_ns : seam::mono_ns;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
time_t __wrap_time(time_t* p) {
  if (!seam::lib_depth) return __real_time(p);
  time_t v = seam::wall_ns / 1000000000;
  if (p) *p = v;
  return v;
}
int __wrap_gettimeofday(struct timeval* t, void* z) {
  if (!seam::lib_depth) return __real_gettimeofday(t, z);
  t->tv_sec = seam::wall_ns / 1000000000; t->tv_usec = seam::wall_ns / 1000 % 1000000;
  return 0;
}
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  if (seam::lib_depth) seam::yield(seam::Y_ALLOC);
  if (seam::should_fail()) return ENOMEM;
  return __real_posix_memalign(p, a, n);
}
}

double seam::real_now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double seam::real_cpu() { struct timespec t; __real_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- operator new / delete -----------------------------------------------------------------------
// A 16-byte header (poisoned for ASan) tags blocks made inside the library.
namespace {
struct Hdr { uint64_t magic; uint64_t lib; };
const uint64_t LIVE = 0x4c4956454c495645ull, DEAD = 0x4445414444454144ull;

__attribute__((no_sanitize_address)) void* take(size_t n) {
  char* p = (char*)malloc(n + sizeof(Hdr));
  if (!p) return nullptr;
  Hdr* h = (Hdr*)p;
  h->magic = LIVE;
  h->lib = seam::lib_depth > 0;
  if (h->lib) __atomic_add_fetch(&seam::live_blocks, 1, __ATOMIC_RELAXED);
#ifdef HAVE_ASAN
  __asan_poison_memory_region(p, sizeof(Hdr));
#endif
  return p + sizeof(Hdr);
}
__attribute__((no_sanitize_address)) void give(void* q) {
  if (!q) return;
  char* p = (char*)q - sizeof(Hdr);
  Hdr* h = (Hdr*)p;
  if (h->magic == DEAD) { fprintf(stderr, "SIM-FATAL double delete\n"); abort(); }
  if (h->magic != LIVE) { fprintf(stderr, "SIM-FATAL delete of a foreign block\n"); abort(); }
  if (h->lib) __atomic_sub_fetch(&seam::live_blocks, 1, __ATOMIC_RELAXED);
  h->magic = DEAD;
#ifdef HAVE_ASAN
  __asan_unpoison_memory_region(p, sizeof(Hdr));
#endif
  free(p);
}
void* get(size_t n) {
  if (seam::lib_depth) seam::yield(seam::Y_ALLOC);
  if (seam::should_fail()) throw std::bad_alloc();
  void* p = take(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* get_nt(size_t n) noexcept {
  if (seam::should_fail()) return nullptr;
  return take(n);
}
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get_nt(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get_nt(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

// ---- GF-Complete -----------------------------------------------------------------------------------
namespace {
using region_fn = void (*)(GFP, void*, void*, gf_val_32_t, int, int);
region_fn orig[33];

__attribute__((noinline)) void region_check(const char* what, void* p, int n) {
#ifdef HAVE_ASAN
  if (n < 0) { fprintf(stderr, "SIM-FATAL negative region length\n"); abort(); }
  if (n > 0 && __asan_region_is_poisoned(p, (size_t)n)) {
    fprintf(stderr, "SIM-FATAL out-of-bounds %s region of %d bytes handed to GF-Complete\n", what, n);
    __asan_describe_address(p);
    abort();
  }
#endif
}
template <int W> void region(GFP gf, void* src, void* dst, gf_val_32_t v, int n, int add) {
  ++seam::gf_region_ops;
  seam::yield(seam::Y_GF);
  region_check("source", src, n);
  region_check("destination", dst, n);
  orig[W](gf, src, dst, v, n, add);
}
}
extern "C" int gf_init_easy(GFP gf, int w) {
  static int (*real)(GFP, int) = (int (*)(GFP, int))dlsym(RTLD_NEXT, "gf_init_easy");
  if (seam::should_fail()) return 0;
  int saved = seam::lib_depth;
  seam::lib_depth = 0;
  int r = real(gf, w);
  seam::lib_depth = saved;
  if (r) __atomic_add_fetch(&seam::live_blocks, 1, __ATOMIC_RELAXED);
  if (r && (w == 4 || w == 8 || w == 16 || w == 32)) {
    orig[w] = gf->multiply_region.w32;
    gf->multiply_region.w32 = w == 4 ? region<4> : w == 8 ? region<8> : w == 16 ? region<16> : region<32>;
  }
  return r;
}

extern "C" int gf_free(GFP gf, int recursive) {
  static int (*real)(GFP, int) = (int (*)(GFP, int))dlsym(RTLD_NEXT, "gf_free");
  __atomic_sub_fetch(&seam::live_blocks, 1, __ATOMIC_RELAXED);
  return real(gf, recursive);
}

// ---- sanitizer defaults ------------------------------------------------------------------------------
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1073741824:malloc_fill_byte=165:"
         "allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:print_legend=0";
}
