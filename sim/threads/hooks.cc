// The seams: compiler-emitted memory access hooks, pthread mutexes and static
// guards.  Outside Sched::run they do nothing but keep lock state.
#include "sched.h"
#include "../core.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <map>

namespace sim {
namespace {
bool active = false;
__thread int t_me = -1;
int g_n = 0, g_cur = -1; long g_limit = 0, g_total = 0, g_points = 0;
struct Lock { int owner = -1; int count = 0; };
std::map<const void*, Lock>* locks = nullptr;
struct T { sem_t sem; bool done = false; const void* wait = nullptr; std::vector<Preempt> pre; long points = 0; int op = 0; bool real = false; };
T* ts = nullptr; sem_t mainSem;
std::function<void(int)>* g_body; std::string g_cls, g_msg; bool g_fail = false;
unsigned long long g_storm = 0; int g_one = 0;

bool runnable(int i) { return !ts[i].done && (!ts[i].wait || (*locks)[ts[i].wait].owner == -1); }
int nextFrom(int i) { for (int k = 1; k <= g_n; k++) { int j = (i + k) % g_n; if (runnable(j)) return j; } return -1; }
void fail(const char* cls, const std::string& msg) { if (!g_fail) { g_fail = true; g_cls = cls; g_msg = msg; } sem_post(&mainSem); for (;;) sem_wait(&ts[t_me].sem); }
void to(int j) {
  int i = t_me; if (j == i) return; g_cur = j; Sched::switches++; Sched::trace = hcomb(Sched::trace, hcomb((uint64_t)(i * 8 + j), (uint64_t)(ts[i].op * 100003 + ts[i].points)));
  sem_post(&ts[j].sem); while (sem_wait(&ts[i].sem)) {}
}
void point() {
  if (!active || t_me < 0) return; T& t = ts[t_me]; if (!t.real) return; t.points++; if (++g_total > g_limit) fail("no-progress", "the threads made no progress within the limit of switch points");
  for (auto& p : t.pre) if (p.at == t.points) { int j = p.to % g_n; if (!runnable(j) || j == t_me) j = nextFrom(t_me); if (j >= 0) to(j); return; }
  if (g_one) { g_storm += 0x9e3779b97f4a7c15ULL; uint64_t z = mix(g_storm); if (z % (uint64_t)g_one == 0) { int j = (int)((z >> 20) % (uint64_t)g_n); if (!runnable(j)) j = nextFrom(t_me); if (j >= 0) to(j); } }
}
void acquire(const void* m) {
  Lock& l = (*locks)[m];
  while (l.owner != -1) {
    ts[t_me].wait = m; Sched::blocked++; int j = nextFrom(t_me);
    if (j < 0) { std::string s = "every unfinished thread waits for a lock:"; for (int i = 0; i < g_n; i++) if (!ts[i].done) s += " thread " + std::to_string(i) + (ts[i].wait && (*locks)[ts[i].wait].owner == i ? " for one it holds itself" : ts[i].wait ? " for one held by thread " + std::to_string((*locks)[ts[i].wait].owner) : ""); fail("deadlock", s); }
    to(j); }
  ts[t_me].wait = nullptr; l.owner = t_me; l.count = 1;
}
void* start(void* a) {
  t_me = (int)(long)a; int i = t_me; while (sem_wait(&ts[i].sem)) {}
  try { (*g_body)(i); } catch (Violation& v) { fail(v.cls.c_str(), v.msg); } catch (std::exception& e) { fail("exception", e.what()); }
  ts[i].done = true; int j = nextFrom(i);
  if (j >= 0) { g_cur = j; Sched::switches++; sem_post(&ts[j].sem); return nullptr; }
  for (int k = 0; k < g_n; k++) if (!ts[k].done) fail("deadlock", "a thread waits for a lock whose holder has finished");
  sem_post(&mainSem); return nullptr;
}
}
long Sched::switches = 0, Sched::blocked = 0; unsigned long long Sched::trace = 1;
int Sched::me() { return t_me; }
void Sched::real(bool on) { if (t_me >= 0) ts[t_me].real = on; }
long Sched::points() { return ts[t_me].points; }
void Sched::beginOp(const std::vector<Preempt>& p, int k) { T& t = ts[t_me]; t.pre = p; t.points = 0; t.op = k; }
void Sched::storm(unsigned seed, int oneIn) { g_storm = mix(seed); g_one = oneIn; }
void Sched::run(int n, std::function<void(int)> body, long limit) {
  if (!locks) locks = new std::map<const void*, Lock>; locks->clear(); g_n = n; g_limit = limit; g_body = &body; ts = new T[(size_t)n]; sem_init(&mainSem, 0, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  std::vector<pthread_t> h((size_t)n);
  for (int i = 0; i < n; i++) { sem_init(&ts[i].sem, 0, 0); if (pthread_create(&h[(size_t)i], &at, start, (void*)(long)i)) throw Stop{"pthread_create"}; }
  active = true; g_cur = 0; sem_post(&ts[0].sem); while (sem_wait(&mainSem)) {} active = false;
  if (g_fail) throw Violation(g_cls, g_msg);
  for (auto& x : h) pthread_join(x, nullptr);
  for (auto& l : *locks) if (l.second.owner != -1) throw Violation("deadlock", "a lock is still held after every operation has returned");
}
} // namespace sim
using namespace sim;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active || t_me < 0) return 0; point(); int kind = m->__data.__kind & 3; Lock& l = (*locks)[m];
  if (l.owner == t_me) { if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { l.count++; return 0; } if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
  acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active || t_me < 0) return 0; point(); int kind = m->__data.__kind & 3; Lock& l = (*locks)[m];
  if (l.owner == t_me && kind == PTHREAD_MUTEX_RECURSIVE_NP) { l.count++; return 0; } if (l.owner != -1) return EBUSY; l.owner = t_me; l.count = 1; return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active || t_me < 0) return 0; int kind = m->__data.__kind & 3; Lock& l = (*locks)[m];
  if (kind != PTHREAD_MUTEX_NORMAL && l.owner != t_me) return EPERM;
  if (kind == PTHREAD_MUTEX_RECURSIVE_NP && --l.count > 0) return 0; l.owner = -1; l.count = 0; point(); return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!active || t_me < 0) { if (*o == 2) return 0; *o = 2; f(); return 0; }
  point(); if (*o == 2) return 0; acquire(o); if (*o != 2) { f(); *o = 2; } Lock& l = (*locks)[o]; l.owner = -1; l.count = 0; return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (*(volatile char*)g) return 0; if (!active || t_me < 0) return 1;
  point(); acquire(g); if (*(volatile char*)g) { Lock& l = (*locks)[g]; l.owner = -1; l.count = 0; return 0; } return 1;
}
void __cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; if (!active || t_me < 0) return; Lock& l = (*locks)[g]; l.owner = -1; l.count = 0; point(); }
void __cxa_guard_abort(uint64_t* g) { if (!active || t_me < 0) return; Lock& l = (*locks)[g]; l.owner = -1; l.count = 0; }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define H(n) void __tsan_##n(void*) { point(); }
H(read1) H(read2) H(read4) H(read8) H(read16) H(write1) H(write2) H(write4) H(write8) H(write16)
H(unaligned_read2) H(unaligned_read4) H(unaligned_read8) H(unaligned_read16) H(unaligned_write2) H(unaligned_write4) H(unaligned_write8) H(unaligned_write16)
H(volatile_read1) H(volatile_read2) H(volatile_read4) H(volatile_read8) H(volatile_read16) H(volatile_write1) H(volatile_write2) H(volatile_write4) H(volatile_write8) H(volatile_write16)
H(vptr_read)
void __tsan_vptr_update(void**, void*) { point(); }
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define A(w, ty) \
  ty __tsan_atomic##w##_load(const volatile ty* p, int) { point(); return *p; } \
  void __tsan_atomic##w##_store(volatile ty* p, ty v, int) { point(); *p = v; } \
  ty __tsan_atomic##w##_exchange(volatile ty* p, ty v, int) { point(); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##w##_fetch_add(volatile ty* p, ty v, int) { point(); ty o = *p; *p = (ty)(o + v); return o; } \
  ty __tsan_atomic##w##_fetch_sub(volatile ty* p, ty v, int) { point(); ty o = *p; *p = (ty)(o - v); return o; } \
  ty __tsan_atomic##w##_fetch_and(volatile ty* p, ty v, int) { point(); ty o = *p; *p = (ty)(o & v); return o; } \
  ty __tsan_atomic##w##_fetch_or(volatile ty* p, ty v, int) { point(); ty o = *p; *p = (ty)(o | v); return o; } \
  ty __tsan_atomic##w##_fetch_xor(volatile ty* p, ty v, int) { point(); ty o = *p; *p = (ty)(o ^ v); return o; } \
  int __tsan_atomic##w##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int, int) { point(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##w##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int a, int b) { return __tsan_atomic##w##_compare_exchange_strong(p, e, v, a, b); } \
  ty __tsan_atomic##w##_compare_exchange_val(volatile ty* p, ty e, ty v, int, int) { point(); ty o = *p; if (o == e) *p = v; return o; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned int) A(64, unsigned long)
}
