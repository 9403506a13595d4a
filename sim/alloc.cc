// Seams: operator new/delete (addresses decided by the run's seed, freed memory
// poisoned) and rand().
#include "core.h"
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace {
const size_t ARENA = 3ULL << 30;
char* const BASE = (char*)0x610000000000ULL;
char *cur = nullptr, *end_ = nullptr;
const int NCLS = 128;            // 16..2048 step 16
const size_t FCAP = 1 << 20;
struct FL { void** p; size_t n; };
FL fl[NCLS + 1];
const int NBIG = 24;             // powers of two 4096.. 
FL bl[NBIG];
uint64_t rs = 1;
bool scr = false;
uint64_t nalloc = 0;
struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; };
const uint32_t LIVE = 0xA110CA7E, DEAD = 0xDEADBEEF;

uint64_t rnd() { rs += 0x9e3779b97f4a7c15ULL; return sim::mix(rs); }

void init() {
  if (cur) return;
  void* m = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != BASE) { static const char e[] = "arena mmap failed\n"; (void)!write(2, e, sizeof e - 1); _exit(97); }
  size_t tabs = (NCLS + 1 + NBIG) * FCAP * sizeof(void*);
  char* t = (char*)mmap(nullptr, tabs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (t == MAP_FAILED) _exit(97);
  for (int i = 0; i <= NCLS; i++) { fl[i].p = (void**)(t + (size_t)i * FCAP * sizeof(void*)); fl[i].n = 0; }
  for (int i = 0; i < NBIG; i++) { bl[i].p = (void**)(t + (size_t)(NCLS + 1 + i) * FCAP * sizeof(void*)); bl[i].n = 0; }
  cur = BASE; end_ = BASE + ARENA;
}

void* bump(size_t n) {
  if (cur + n > end_) { static const char e[] = "arena exhausted\n"; (void)!write(2, e, sizeof e - 1); _exit(98); }
  void* r = cur; cur += n; return r;
}

void* take(FL& f, size_t slot, int batch) {
  if (f.n == 0) {
    for (int i = batch; i-- > 0;) f.p[f.n++] = bump(slot);
    if (!scr) for (size_t i = 0; i < f.n / 2; i++) std::swap(f.p[i], f.p[f.n - 1 - i]);
  }
  size_t i = scr ? (size_t)(rnd() % f.n) : f.n - 1;
  void* r = f.p[i]; f.p[i] = f.p[f.n - 1]; f.n--;
  return r;
}

void* doAlloc(size_t n) {
  init();
  nalloc++;
  if (n == 0) n = 1;
  Hdr* h;
  if (n <= 2048) {
    int c = (int)((n + 15) / 16);
    h = (Hdr*)take(fl[c], sizeof(Hdr) + (size_t)c * 16, c <= 16 ? 32 : 8);
    h->cls = (uint32_t)c;
  } else {
    int b = 0; size_t s = 4096;
    while (s < n) { s <<= 1; b++; }
    if (b >= NBIG) _exit(98);
    h = (Hdr*)take(bl[b], sizeof(Hdr) + s, 1);
    h->cls = 1000 + (uint32_t)b;
  }
  // freed memory must be as it was left: a write through a stale pointer shows here
  if (h->magic == DEAD) {
    const unsigned char* q = (const unsigned char*)(h + 1);
    for (size_t i = 0; i < h->size; i++) if (q[i] != 0xDD) _exit(99);
  } else if (h->magic != 0) _exit(99);
  h->magic = LIVE; h->size = n;
  memset(h + 1, 0xCB, n);
  return h + 1;
}
void doFree(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if ((char*)p < BASE || (char*)p >= BASE + ARENA || h->magic != LIVE) abort();  // bad or double free
  h->magic = DEAD;
  memset(p, 0xDD, h->size);
  FL& f = h->cls >= 1000 ? bl[h->cls - 1000] : fl[h->cls];
  if (f.n >= FCAP) return;
  f.p[f.n++] = h;
}
uint64_t randState = 12345;
} // namespace

namespace sim {
void arenaBegin(uint64_t seed, bool scramble) {
  init();
  // Drop the free lists so that a run's addresses do not depend on what the
  // parent freed before; start from a fixed offset well above the parent's use.
  char* fixed = BASE + (1ULL << 30);
  if (cur < fixed) cur = fixed;
  for (int i = 0; i <= NCLS; i++) fl[i].n = 0;
  for (int i = 0; i < NBIG; i++) bl[i].n = 0;
  rs = mix(seed); scr = scramble; nalloc = 0;
}
uint64_t arenaAllocCount() { return nalloc; }
void randSeed(uint64_t s) { randState = mix(s); }
}

extern "C" int rand(void) { randState += 0x9e3779b97f4a7c15ULL; return (int)(sim::mix(randState) & 0x7fffffff); }
extern "C" void srand(unsigned) {}

void* operator new(size_t n) { return doAlloc(n); }
void* operator new[](size_t n) { return doAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doAlloc(n); }
void operator delete(void* p) noexcept { doFree(p); }
void operator delete[](void* p) noexcept { doFree(p); }
void operator delete(void* p, size_t) noexcept { doFree(p); }
void operator delete[](void* p, size_t) noexcept { doFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doFree(p); }
