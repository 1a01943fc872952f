// See vsched.hpp.  Compiled without instrumentation; the program is compiled with -fsanitize=thread
// (for its calls into this file) and linked with this file instead of libtsan and libtbb.
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <new>
#include <vector>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <link.h>
#include <asm/prctl.h>
#include <linux/futex.h>
#include <atomic>
#include <chrono>
#include <future>
#include <mutex>
#include <thread>
#include <functional>
#define private public
#define protected public
#include <tbb/task_arena.h>
#include <tbb/task_group.h>
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#undef private
#undef protected
#include "vsched.hpp"

extern "C" void vs_switch(void** save, void* to);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vs_switch,.-vs_switch
)");
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C" void* __cxa_get_globals() noexcept;

namespace d1 = tbb::detail::d1;
namespace tbb::detail::r1 { class task_dispatcher { public: static bool more(d1::wait_context& w) { return w.m_ref_count.load() > 0; } }; }
namespace {
bool more(d1::wait_context& w) { return tbb::detail::r1::task_dispatcher::more(w); }
using Task = d1::task; using Ctx = d1::task_group_context;
struct Entry { Task* t; Ctx* ctx; unsigned short slot; unsigned short aff; long tag; };
struct Fiber {
  void* sp = nullptr; char* lo = nullptr; char* hi = nullptr; int slot = 0; long tag = 0; bool done = false, worker = false;
  bool (*pred)(void*) = nullptr; void* arg = nullptr;      // blocked until pred(arg)
  void* (*fn)(void*) = nullptr; void* farg = nullptr; void* ret = nullptr;
  long prio = 0; std::deque<Entry> q; void* once[2] = {}; char eh[16] = {}; std::vector<char> tls;
};
std::vector<Fiber*> fibers;      // [0] is the program's own thread
Fiber* cur = nullptr;
std::deque<std::pair<d1::global_control*, std::size_t>> limits;
int workers = 4; long ntasks = 0, next_tag = 1, low_prio = 0; unsigned long nswitch = 0, steps = 0, est = 2000;
bool active = false; int mode = 0; long gap = 1, countdown = 0; unsigned focus = 0, focus_m = 1; std::vector<unsigned long> changes;
uint64_t rs = 88172645463325252ull;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
long below(long n) { return n > 0 ? (long)((rnd() >> 11) % (uint64_t)n) : 0; }
long next_gap() { return gap <= 1 ? 1 + (below(4) == 0) : 1 + below(2 * gap); }
int limit() { return workers; }
// the program's own thread_local variables belong to a fiber
char* tls_at = nullptr; std::size_t tls_size = 0; std::vector<char> tls_init;
int find_tls(dl_phdr_info* i, std::size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) if (auto& p = i->dlpi_phdr[k]; p.p_type == PT_TLS && p.p_memsz) {
    unsigned long fs; asm("movq %%fs:0, %0" : "=r"(fs)); std::size_t al = p.p_align ? p.p_align : 1;
    tls_size = p.p_memsz; tls_at = (char*)fs - (p.p_memsz + al - 1) / al * al;
    tls_init.assign(tls_size, 0); std::memcpy(tls_init.data(), (char*)i->dlpi_addr + p.p_vaddr, p.p_filesz);
  }
  return 1;      // only the program itself, which comes first
}
void boot() {
  if (cur) return;
  dl_iterate_phdr(find_tls, nullptr);
  Fiber* f = new Fiber; f->lo = (char*)__builtin_frame_address(0) - (8 << 20); f->hi = (char*)__builtin_frame_address(0) + (1 << 16); f->slot = 0; fibers.push_back(f); cur = f;
}
bool ready(Fiber* f) { return !f->done && (!f->pred || f->pred(f->arg)); }
void to(Fiber* f) {
  if (f == cur) return;
  Fiber* from = cur; from->once[0] = std::__once_callable; from->once[1] = (void*)std::__once_call; std::memcpy(from->eh, __cxa_get_globals(), 16);
  if (tls_size) { from->tls.assign(tls_at, tls_at + tls_size); std::memcpy(tls_at, (f->tls.empty() ? tls_init : f->tls).data(), tls_size); }
  cur = f; ++nswitch;
  vs_switch(&from->sp, f->sp);
  std::__once_callable = cur->once[0]; std::__once_call = (void (*)())cur->once[1]; std::memcpy(__cxa_get_globals(), cur->eh, 16);
}
// picks somebody; other than the running one if asked
Fiber* pick(bool other) {
  Fiber* c[64]; int n = 0;
  for (Fiber* f : fibers) if (n < 64 && !(other && f == cur) && ready(f)) c[n++] = f;
  if (n == 0) return nullptr;
  if (mode == 1) { Fiber* b = c[0]; for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i]; return b; }
  return c[below(n)];
}
void next_change() {
  if (mode != 1) { countdown = next_gap(); return; }
  unsigned long n = 20000; for (auto x : changes) if (x > steps && x - steps < n) n = x - steps;
  countdown = n;
}
__attribute__((noinline)) void preempt() {
  if (mode == 1) { cur->prio = --low_prio; next_change(); Fiber* f = pick(false); if (f) to(f); return; }
  next_change(); Fiber* f = pick(true); if (f) to(f);
}
inline void point(const volatile void* a, bool write, bool atomic) {
  if (!active) return;
  if (!atomic && (char*)a >= cur->lo && (char*)a < cur->hi) return;
  ++steps;
  if (mode == 2 && !write && steps % 256) return;
  if (mode == 3 && (((uintptr_t)a >> 2) * 2654435761u >> 7) % focus_m != focus) { if (steps % 256) return; }
  if (--countdown <= 0) preempt();
}
void stuck() { const char m[] = "VF-HANG (every thread is waiting)\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
void wait_for(bool (*p)(void*), void* a) {
  boot();
  while (!p(a)) { cur->pred = p; cur->arg = a; Fiber* f = pick(false); if (!f) stuck(); to(f); cur->pred = nullptr; }
}
void give_way() { boot(); if (mode == 1) cur->prio = --low_prio; Fiber* f = pick(true); if (f) to(f); }
extern "C" void vs_entry() { Fiber* f = cur; std::__once_callable = nullptr; std::__once_call = nullptr; std::memset(__cxa_get_globals(), 0, 16); f->ret = f->fn(f->farg); f->done = true; for (;;) { Fiber* g = pick(true); if (!g) stuck(); to(g); } }
asm(".text\nvs_start:\n  xorl %ebp, %ebp\n  andq $-16, %rsp\n  call vs_entry\n  ud2\n");
extern "C" void vs_start();
constexpr std::size_t STACK = 8 << 20;
int free_slot() { for (int s = 1;; ++s) { bool u = false; for (Fiber* f : fibers) if (!f->done && f->slot == s) u = true; if (!u) return s; } }
Fiber* spawn_fiber(void* (*fn)(void*), void* arg, int slot) {
  boot(); Fiber* f = new Fiber;
  char* st = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (st == MAP_FAILED) { std::perror("mmap"); _exit(98); }
  f->lo = st; f->hi = st + STACK; f->fn = fn; f->farg = arg; f->slot = slot; f->prio = below(1000);
  void** sp = (void**)(f->hi - 64); *--sp = nullptr; *--sp = (void*)vs_start; for (int i = 0; i < 6; ++i) *--sp = nullptr; f->sp = sp;
  fibers.push_back(f); return f;
}
void bury(Fiber* f) { for (std::size_t i = 0; i < fibers.size(); ++i) if (fibers[i] == f) { fibers.erase(fibers.begin() + i); break; } munmap(f->lo, STACK); delete f; }
// --- TBB
bool fits(const Entry& e, Fiber* f) { return f->tag == 0 || e.tag == f->tag; }
bool work_for(Fiber* f) { if (!ntasks) return false; for (Fiber* g : fibers) for (auto& e : g->q) if (fits(e, f)) return true; return false; }
bool take(Entry& out) {
  Fiber* f = cur;
  for (std::size_t i = f->q.size(); i-- > 0;) if (fits(f->q[i], f)) { out = f->q[i]; f->q.erase(f->q.begin() + i); --ntasks; return true; }
  std::size_t n = fibers.size(), s = below(n);
  for (std::size_t k = 0; k < n; ++k) { Fiber* g = fibers[(s + k) % n]; for (std::size_t i = 0; i < g->q.size(); ++i) if (fits(g->q[i], f)) { out = g->q[i]; g->q.erase(g->q.begin() + i); --ntasks; return true; } }
  return false;
}
struct EdExt : d1::execution_data {};
void run(Entry e) {
  long tag = cur->tag; cur->tag = e.tag;
  Task* t = e.t; unsigned short slot = e.slot;
  while (t) { EdExt ed; ed.context = e.ctx; ed.original_slot = slot; ed.affinity_slot = e.aff; Task* n = t->execute(ed); t = n; slot = cur->slot; e.aff = (unsigned short)-1; }
  cur->tag = tag;
}
bool worker_ready(void* a) { Fiber* f = (Fiber*)a; return f->slot < limit() && work_for(f); }
void* worker_main(void*) { for (;;) { wait_for(worker_ready, cur); Entry e; if (take(e)) run(e); } return nullptr; }
struct WaitArg { d1::wait_context* w; Fiber* f; };
bool wait_ready(void* a) { auto* w = (WaitArg*)a; return !more(*w->w) || work_for(w->f); }
void wait_loop(d1::wait_context& w) {
  WaitArg a{&w, cur};
  while (more(w)) { Entry e; if (take(e)) { run(e); continue; } wait_for(wait_ready, &a); }
}
void offered() { if (active && mode == 1) { Fiber* f = pick(false); if (f) to(f); } }
void need_workers() {
  boot(); int have = 1; for (Fiber* f : fibers) if (f->worker) ++have;
  while (have < limit()) { Fiber* f = spawn_fiber(worker_main, nullptr, free_slot()); f->worker = true; ++have; }
}
char pool_dummy[64];
}    // namespace

namespace vs {
unsigned long switches() { return nswitch; }
void yield() { give_way(); }
void begin(unsigned long seed, int t) {
  boot(); rs = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 4; ++i) rnd();
  workers = t; steps = 0; low_prio = 0; changes.clear();
  static const long gaps[] = {1, 1, 2, 3, 5, 10, 30, 100}; gap = gaps[below(8)]; focus_m = 2 + below(14); focus = below(focus_m);
  int m = below(10); mode = m < 4 ? 0 : m < 7 ? 1 : m < 9 ? 2 : 3; if (mode >= 2) gap = 1 + below(3);
  for (Fiber* f : fibers) f->prio = below(1000);
  if (mode == 1) { int d = 1 + below(5); unsigned long top = 16; while (top < est && below(4)) top *= 2; for (int i = 0; i < d; ++i) changes.push_back(1 + below(top)); }
  active = true; next_change();
}
void end() {
  // those still on their way back to idleness get there
  active = false; if (steps > 16) est = (est * 3 + steps) / 4;
  for (int i = 0; i < 100000; ++i) { bool any = false; for (Fiber* f : fibers) if (f != cur && f->worker && ready(f)) { any = true; to(f); } if (!any) break; }
  workers = 4; mode = 0;
}
}    // namespace vs

namespace tbb::detail::r1 {
void spawn(d1::task& t, d1::task_group_context& c) { need_workers(); cur->q.push_back({&t, &c, (unsigned short)cur->slot, (unsigned short)-1, cur->tag}); ++ntasks; offered(); }
void spawn(d1::task& t, d1::task_group_context& c, d1::slot_id s) { need_workers(); cur->q.push_back({&t, &c, (unsigned short)cur->slot, (unsigned short)s, cur->tag}); ++ntasks; offered(); }
void execute_and_wait(d1::task& t, d1::task_group_context& tc, d1::wait_context& w, d1::task_group_context&) { need_workers(); run({&t, &tc, (unsigned short)cur->slot, (unsigned short)-1, cur->tag}); wait_loop(w); }
void wait(d1::wait_context& w, d1::task_group_context&) { need_workers(); wait_loop(w); }
d1::slot_id execution_slot(const d1::execution_data*) { boot(); return (d1::slot_id)cur->slot; }
d1::slot_id execution_slot(const d1::task_arena_base&) { boot(); return (d1::slot_id)cur->slot; }
d1::task_group_context* current_context() { return nullptr; }
int max_concurrency(const d1::task_arena_base* a) { return a && a->my_max_concurrency > 0 ? std::min(a->my_max_concurrency, limit()) : limit(); }
void notify_waiters(std::uintptr_t) {}
void initialize(d1::task_group_context& c) { c.my_cancellation_requested.store(0); c.my_state.store(d1::task_group_context::state::isolated); c.my_parent = nullptr; c.my_context_list = nullptr; c.my_exception.store(nullptr); }
void destroy(d1::task_group_context&) {}
void reset(d1::task_group_context& c) { c.my_cancellation_requested.store(0); }
bool cancel_group_execution(d1::task_group_context& c) { return !c.my_cancellation_requested.exchange(1); }
bool is_group_execution_cancelled(d1::task_group_context& c) { return c.my_cancellation_requested.load() != 0; }
void capture_fp_settings(d1::task_group_context&) {}
void initialize(d1::task_arena_base& a) { a.my_arena.store((arena*)1); }
void terminate(d1::task_arena_base& a) { a.my_arena.store(nullptr); }
bool attach(d1::task_arena_base&) { return false; }
void execute(d1::task_arena_base& a, d1::delegate_base& d) { int w = workers; if (a.my_max_concurrency > 0 && a.my_max_concurrency < w) workers = a.my_max_concurrency; d(); workers = w; }
void wait(d1::task_arena_base&) {}
void isolate_within_arena(d1::delegate_base& d, std::intptr_t) { boot(); Fiber* f = cur; long t = f->tag; f->tag = next_tag++; d(); f->tag = t; }
void create(d1::global_control& g) { if (g.my_param == d1::global_control::max_allowed_parallelism) { limits.push_back({&g, (std::size_t)workers}); if (g.my_value < (std::size_t)workers || limits.size() == 1) workers = (int)g.my_value; } }
void destroy(d1::global_control& g) { if (!limits.empty() && limits.back().first == &g) { workers = (int)limits.back().second; limits.pop_back(); } }
std::size_t global_control_active_value(int p) { return p == 0 ? (std::size_t)limit() : 0; }
void* allocate(d1::small_object_pool*& p, std::size_t n, const d1::execution_data&) { p = (d1::small_object_pool*)pool_dummy; return std::aligned_alloc(64, (n + 63) / 64 * 64); }
void* allocate(d1::small_object_pool*& p, std::size_t n) { p = (d1::small_object_pool*)pool_dummy; return std::aligned_alloc(64, (n + 63) / 64 * 64); }
void deallocate(d1::small_object_pool&, void* q, std::size_t, const d1::execution_data&) { std::free(q); }
void deallocate(d1::small_object_pool&, void* q, std::size_t) { std::free(q); }
void* allocate_memory(std::size_t n) { return std::malloc(n); }
void deallocate_memory(void* q) { std::free(q); }
void* cache_aligned_allocate(std::size_t n) { return std::aligned_alloc(128, (n + 127) / 128 * 128); }
void cache_aligned_deallocate(void* q) { std::free(q); }
std::size_t cache_line_size() { return 128; }
void assertion_failure(const char* f, int l, const char* e, const char*) { std::fprintf(stderr, "TBB assertion %s:%d %s\n", f, l, e); std::abort(); }
void throw_exception(d0::exception_id) { std::fprintf(stderr, "TBB exception\n"); std::abort(); }
}    // namespace tbb::detail::r1

// --- threads, mutexes, conditions
namespace {
bool fiber_done(void* a) { return ((Fiber*)a)->done; }
bool futex_moved(void* a) { auto* p = (std::pair<unsigned*, unsigned>*)a; return __atomic_load_n(p->first, __ATOMIC_SEQ_CST) != p->second; }
bool mutex_free(void* a) { if (pthread_mutex_trylock((pthread_mutex_t*)a)) return false; pthread_mutex_unlock((pthread_mutex_t*)a); return true; }
bool guard_free(void* a) { return ((char*)a)[1] == 0; }
}    // namespace
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { Fiber* f = spawn_fiber(fn, arg, free_slot()); *t = (pthread_t)f; return 0; }
int pthread_join(pthread_t t, void** r) { Fiber* f = (Fiber*)t; wait_for(fiber_done, f); if (r) *r = f->ret; bury(f); return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { boot(); return (pthread_t)cur; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (active) point(m, true, true); while (pthread_mutex_trylock(m)) wait_for(mutex_free, m); return 0; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); give_way(); return pthread_mutex_lock(m); }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { pthread_mutex_unlock(m); give_way(); return pthread_mutex_lock(m); }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) { pthread_mutex_unlock(m); give_way(); return pthread_mutex_lock(m); }
int pthread_cond_signal(pthread_cond_t*) { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { int* p = (int*)o; while (*p == 1) give_way(); if (*p == 0) { *p = 1; f(); *p = 2; } return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int sched_yield() { give_way(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { give_way(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { give_way(); return 0; }
int usleep(unsigned) { give_way(); return 0; }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex) { int op = a[1] & 0x7f; if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (__atomic_load_n((int*)a[0], __ATOMIC_SEQ_CST) == (int)a[2]) give_way(); } return 0; }
  long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
int __cxa_guard_acquire(uint64_t* g) { char* b = (char*)g; if (b[0]) return 0; if (b[1]) { wait_for(guard_free, b); if (b[0]) return 0; } b[1] = 1; return 1; }
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* p, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { pair<unsigned*, unsigned> a{p, v}; wait_for(futex_moved, &a); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* p, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { pair<unsigned*, unsigned> a{p, v}; wait_for(futex_moved, &a); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
}    // namespace std

// --- instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
  void __tsan_read##n(void* a) { point(a, false, false); } \
  void __tsan_write##n(void* a) { point(a, true, false); } \
  void __tsan_unaligned_read##n(void* a) { point(a, false, false); } \
  void __tsan_unaligned_write##n(void* a) { point(a, true, false); } \
  void __tsan_read_write##n(void* a) { point(a, true, false); } \
  void __tsan_volatile_read##n(void* a) { point(a, false, true); } \
  void __tsan_volatile_write##n(void* a) { point(a, true, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { point(a, false, false); }
void __tsan_write_range(void* a, unsigned long) { point(a, true, false); }
// gcc's own __atomic builtins do the work; a preemption may come before each
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { point(a, false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(a, true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(a, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { point(a, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(a, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
    point(a, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(a, true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (active) point(nullptr, true, true); }
void __tsan_atomic_signal_fence(int) {}
}
