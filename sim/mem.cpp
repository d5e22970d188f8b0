// Allocator with deterministic addresses and no reuse for the code under
// test, shadow memory with a happens-before race detector and a freed-memory
// detector, and the __tsan_* entry points the instrumented code calls.
#include "rt_int.h"
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unistd.h>

extern "C" char __data_start, _end, __executable_start, etext;

namespace rt {
int g_off = 1;
bool g_active = false, g_child = false;

namespace {
constexpr uintptr_t A0 = 0x100000000000, A0Size = 4ull << 30;
constexpr uintptr_t A1 = 0x110000000000, A1Size = 4ull << 30;
constexpr uintptr_t A2 = 0x120000000000, A2Size = 8ull << 30;
constexpr uintptr_t ST = 0x130000000000;
constexpr size_t StackSize = 4 << 20, StackGuard = 64 << 10;
constexpr size_t STSize = MaxThreads * (StackSize + StackGuard);
constexpr uintptr_t SH = 0x200000000000; // shadow
constexpr uintptr_t GL = 0x400000, GLSize = 64 << 20;
constexpr size_t SutHeapCap = 1ull << 30;

struct Hdr {
  size_t size;
  uint32_t magic;
  uint32_t cls;
};
constexpr uint32_t Live = 0xA110C8ED, Dead = 0xDEADF4EE;

bool inited = false;
size_t liveBytes, liveCount[513]; // blocks of the code under test by size / 8
inline void count(size_t n, int d) {
  liveBytes += d > 0 ? n : -n;
  liveCount[n / 8 < 512 ? n / 8 : 512] += d;
}
uintptr_t top0, top1, top2;
struct FreeNode {
  FreeNode *next;
};
FreeNode *free0[64], *free2[64];

// Large blocks of the code under test are reused, in order, once enough of
// their class are free. The links are kept in the freed blocks.
constexpr size_t QuarBytes = 4 << 20;
struct Quarantine {
  size_t n = 0;
  FreeNode *first = nullptr, *last = nullptr;
  void push(void *p) {
    FreeNode *f = (FreeNode *)p;
    f->next = nullptr;
    (last ? last->next : first) = f;
    last = f;
    ++n;
  }
  void *pop() {
    FreeNode *f = first;
    first = f->next;
    if (!first)
      last = nullptr;
    --n;
    return f;
  }
} quar[32];

void mapAt(uintptr_t at, size_t n, bool huge = false) {
  long r = rawcall(SYS_mmap, at, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1,
                   0);
  if ((uintptr_t)r != at) {
    static const char m[] = "simulator: cannot map its arenas\n";
    rawcall(SYS_write, 2, (long)m, sizeof m - 1);
    rawExit(70);
  }
  rawcall(SYS_madvise, at, n, huge ? 14 : 15 /*MADV_(NO)HUGEPAGE*/);
}

// shadow: 4 slots of 8 bytes per 8 bytes of memory
inline uint64_t *shadow(uintptr_t a) {
  uintptr_t off;
  if (a - A1 < A1Size)
    off = a - A1;
  else if (a - ST < STSize)
    off = a - ST + A1Size;
  else if (a - GL < GLSize)
    off = a - GL + A1Size + (1ull << 30);
  else if (a - A0 < A0Size)
    off = a - A0 + A1Size + (2ull << 30);
  else
    return nullptr;
  return (uint64_t *)(SH + (off & ~7ull) * 4);
}
constexpr size_t SHSize = (A1Size + (2ull << 30) + A0Size) * 4;

inline int sizeClass(size_t n) { // powers of two
  int c = 5;
  while ((1ull << c) < n)
    ++c;
  return c;
}

void *alloc(size_t n, size_t align) {
  if (!inited)
    memInit();
  if (align < 16)
    align = 16;
  if (n == 0)
    n = 1;
  if (g_active && g_off == 0) { // code under test
    if (n > SutHeapCap) {
      errno = ENOMEM;
      return nullptr;
    }
    int c = n >= 1024 && align == 16 ? sizeClass(n) : 0;
    if (c && c < 32 && quar[c].n && quar[c].n << c > QuarBytes) {
      void *q = quar[c].pop();
      Hdr *h = (Hdr *)((char *)q - sizeof(Hdr));
      h->size = n;
      h->magic = Live;
      count(n, 1);
      ++g_off;
      memset(shadow((uintptr_t)q), 0, ((n + 7) & ~7ull) * 4);
      --g_off;
      return q;
    }
    uintptr_t p = top1 + sizeof(Hdr);
    p = (p + align - 1) & ~(align - 1);
    // 16 bytes of red zone
    uintptr_t e = p + (c ? 1ull << c : (n + 15) & ~15ull) + 16;
    if (e - A1 > SutHeapCap) {
      ++g_off;
      die("memory", "the system allocated more than the simulation's bound");
    }
    top1 = e;
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    h->size = n;
    h->magic = Live;
    h->cls = c;
    count(n, 1);
    return (void *)p;
  }
  bool a2 = g_active;
  uintptr_t &top = a2 ? top2 : top0;
  int c = sizeClass(n + sizeof(Hdr));
  FreeNode *&fl = (a2 ? free2 : free0)[c];
  if (align == 16 && fl) {
    FreeNode *f = fl;
    fl = f->next;
    Hdr *h = (Hdr *)((char *)f - sizeof(Hdr));
    h->size = n;
    h->magic = Live;
    return f;
  }
  uintptr_t p = top + sizeof(Hdr);
  p = (p + align - 1) & ~(align - 1);
  uintptr_t e = p + (1ull << c);
  top = e;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->size = n;
  h->magic = Live;
  h->cls = align == 16 ? c : 0;
  return (void *)p;
}

// Slot layout: epoch 0..31, tid 32..39, mask 40..47, write 48, atomic 49,
// freed 50.
constexpr uint64_t WBit = 1ull << 48, ABit = 1ull << 49, FBit = 1ull << 50;

struct LastPc {
  void *pc;
  int tid;
};
std::string pcsText(void *pc, void *const *from, void *const *to, int step);
// where each thread last accessed a word: the innermost functions
struct Site {
  int tid;
  void *pc[12];
};
std::unordered_map<uintptr_t, std::vector<Site>> *hist;
void *const *siteEnd(const Site &s) {
  int n = 0;
  while (n < 12 && s.pc[n])
    ++n;
  return s.pc + n;
}

[[noreturn]] __attribute__((noinline)) void
reportRace(uintptr_t a, bool w, uint64_t slot, void *pc) {
  ++g_off;
  int other = (slot >> 32) & 0xff;
  std::string m;
  std::string mine = stackText(Cur, pc);
  if (slot & FBit) {
    m = std::string(w ? "write to" : "read of") + " freed memory by " +
        Cur->name + " at " + mine + "; freed by " + T[other]->name;
    die("use-after-free", m);
  }
  m = std::string(w ? "write" : "read") + " by " + Cur->name + " at " + mine +
      "; unordered with a" +
      ((slot & ABit) ? "n atomic " : " ") +
      ((slot & WBit) ? "write" : "read") + " by " + T[other]->name;
  if (hist) {
    auto it = hist->find(a & ~7ull);
    if (it != hist->end())
      for (auto &e : it->second)
        if (e.tid == other)
          m += " at " + pcsText(e.pc[0], e.pc + 1, siteEnd(e), 1);
  }
  die("data-race", m);
}

inline void access1(uintptr_t a, unsigned mask, bool w, bool atomic, void *pc) {
  uint64_t *s = shadow(a);
  if (!s)
    return;
  Thr *t = Cur;
  uint64_t me = (uint64_t)t->vc.c[t->id] | ((uint64_t)t->id << 32) |
                ((uint64_t)mask << 40) | (w ? WBit : 0) | (atomic ? ABit : 0);
  int put = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t o = s[i];
    if (o == me)
      return;
    if (o == 0) {
      if (put < 0)
        put = i;
      continue;
    }
    if (o & FBit)
      reportRace(a, w, o, pc);
    unsigned om = (o >> 40) & 0xff;
    if (!(om & mask))
      continue;
    unsigned ot = (o >> 32) & 0xff;
    if (ot == (unsigned)t->id) {
      if ((om & ~mask) == 0 && (w || !(o & WBit)) &&
          (!atomic || (o & ABit)))
        put = i; // superseded
      continue;
    }
    bool ow = o & WBit, oa = o & ABit;
    bool hb = (uint32_t)o <= t->vc.c[ot];
    if (hb) {
      if ((om & ~mask) == 0 && w)
        put = i;
      continue;
    }
    if ((ow || w) && !(oa && atomic))
      reportRace(a, w, o, pc);
  }
  if (put < 0)
    put = (t->acc >> 2) & 3;
  s[put] = me;
  if (hist) {
    ++g_off;
    auto &v = (*hist)[a & ~7ull];
    auto it = v.begin();
    while (it != v.end() && it->tid != t->id)
      ++it;
    if (it == v.end())
      it = v.insert(it, Site{t->id});
    int n = 0;
    it->pc[n++] = pc;
    for (int i = (t->depth > 255 ? 255 : t->depth) - 1; i >= 0 && n < 12; --i)
      it->pc[n++] = t->pcs[i];
    while (n < 12)
      it->pc[n++] = nullptr;
    --g_off;
  }
}

inline void access(const void *p, size_t n, bool w, bool atomic, void *pc) {
  Thr *t = Cur;
  if (++t->acc >= t->nextPreempt)
    memPreempt();
  uintptr_t a = (uintptr_t)p;
  unsigned off = a & 7;
  if (off + n <= 8) {
    access1(a, ((1u << n) - 1) << off, w, atomic, pc);
    return;
  }
  while (n) {
    off = a & 7;
    size_t k = 8 - off < n ? 8 - off : n;
    access1(a, ((1u << k) - 1) << off, w, atomic, pc);
    a += k;
    n -= k;
  }
}

std::unordered_map<uintptr_t, VC *> *syncVars;

} // namespace

void enableHistory() {
  hist = new std::unordered_map<uintptr_t, std::vector<Site>>();
}

void memInit() {
  if (inited)
    return;
  inited = true;
  mapAt(A0, A0Size);
  mapAt(A1, A1Size, true);
  mapAt(A2, A2Size);
  mapAt(ST, STSize);
  mapAt(SH, SHSize, true);
  top0 = A0;
  top1 = A1;
  top2 = A2;
}
void memActivate() {
  syncVars = new std::unordered_map<uintptr_t, VC *>();
  syncVars->reserve(4096);
}
size_t sutHeapUsed() { return top1 - A1; }
size_t liveHeap(std::vector<size_t> *bySize) {
  if (bySize)
    bySize->assign(liveCount, liveCount + 513);
  return liveBytes;
}
void *stackFor(int id, size_t &size) {
  size = StackSize;
  return (void *)(ST + id * (StackSize + StackGuard) + StackGuard);
}

void joinVC(VC &a, const VC &b) {
  for (int i = 0; i < nThr; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}
void acquireVC(Thr *t, const void *addr) {
  auto it = syncVars->find((uintptr_t)addr);
  if (it != syncVars->end())
    joinVC(t->vc, *it->second);
}
void releaseVC(Thr *t, const void *addr) {
  VC *&v = (*syncVars)[(uintptr_t)addr];
  if (!v)
    v = new VC();
  joinVC(*v, t->vc);
  t->vc.c[t->id]++;
}

void accessRange(const void *p, size_t n, bool w) {
  if (!n || g_off)
    return;
  access(p, n, w, false, __builtin_return_address(0));
}

std::string symText(void *pc) {
  Dl_info i{};
  char buf[64];
  if (dladdr(pc, &i) && i.dli_sname) {
    int st = 0;
    char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 && d ? d : i.dli_sname;
    free(d);
    size_t par = s.find('(');
    if (par != std::string::npos && par > 0)
      s = s.substr(0, par);
    if (s.size() > 90)
      s = s.substr(0, 90) + "..";
    snprintf(buf, sizeof buf, "+0x%lx", (long)((char *)pc - (char *)i.dli_saddr));
    return s;
  }
  snprintf(buf, sizeof buf, "%p", pc);
  return buf;
}

namespace {
/// The functions from the innermost to the outermost, [from, to).
std::string pcsText(void *pc, void *const *from, void *const *to,
                    int step) {
  std::string s = symText(pc);
  std::string last = s;
  int shown = 0;
  for (; from != to && shown < 7; from += step) {
    if ((uintptr_t)*from < GL || (uintptr_t)*from > (uintptr_t)&etext)
      continue;
    std::string f = symText(*from);
    if (f == last)
      continue;
    last = f;
    s += " < " + f;
    ++shown;
  }
  return s;
}
} // namespace
std::string stackText(Thr *t, void *pc) {
  int n = t->depth > 255 ? 255 : t->depth;
  return pcsText(pc, t->pcs + n - 1, t->pcs - 1, -1);
}

} // namespace rt

using namespace rt;

// ------------------------------------------------------------- allocator
extern "C" {
void *malloc(size_t n) { return alloc(n, 16); }
void free(void *p) {
  if (!p)
    return;
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  uintptr_t a = (uintptr_t)p;
  if (g_off == 0 && g_active && a - A1 < A1Size) {
    if (h->magic != Live) {
      ++g_off;
      die(h->magic == Dead ? "double-free" : "bad-free",
          "free by " + Cur->name + " at " +
              stackText(Cur, __builtin_return_address(0)));
    }
    size_t n = h->size;
    h->magic = Dead;
    count(n, -1);
    // freeing is a write for the race detector
    void *pc = __builtin_return_address(0);
    size_t g = (n + 7) / 8;
    for (size_t i = 0; i < g; ++i) {
      size_t left = n - i * 8;
      unsigned mask = left >= 8 ? 0xff : (1u << left) - 1;
      uint64_t *s = shadow(a + i * 8);
      if (s[0] | s[1] | s[2] | s[3])
        access1(a + i * 8, mask, true, false, pc);
      s[0] = FBit | ((uint64_t)Cur->id << 32);
    }
    ++g_off;
    memset(p, 0xDB, n);
    if (h->cls && h->cls < 32)
      quar[h->cls].push(p);
    --g_off;
    return;
  }
  if (g_child || (g_active && a - A2 >= A2Size))
    return; // never reuse memory of the code under test
  if (h->magic != Live)
    return;
  h->magic = Dead;
  if (!h->cls)
    return;
  FreeNode *f = (FreeNode *)p;
  FreeNode *&fl = (a - A2 < A2Size ? free2 : free0)[h->cls];
  f->next = fl;
  fl = f;
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = alloc(n, 16);
  if (p)
    memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p)
    return malloc(n);
  if (!n) {
    free(p);
    return nullptr;
  }
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  size_t old = h->size;
  void *q = alloc(n, 16);
  if (!q)
    return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void *aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
void *memalign(size_t al, size_t n) { return alloc(n, al); }
int posix_memalign(void **r, size_t al, size_t n) {
  *r = alloc(n, al);
  return *r ? 0 : ENOMEM;
}
// Nothing registered runs: a run's process ends abruptly, and what the driver
// has registered before must not change the allocations of a run.
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
void *valloc(size_t n) { return alloc(n, 4096); }
size_t malloc_usable_size(void *p) {
  return p ? ((Hdr *)((char *)p - sizeof(Hdr)))->size : 0;
}

// ------------------------------------------- memory functions (all callers)
#define PC __builtin_return_address(0)
#define OPT __attribute__((optimize("no-tree-loop-distribute-patterns")))
OPT void *memcpy(void *__restrict d, const void *__restrict s, size_t n) {
  if (g_off == 0 && n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
  }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
OPT void *memmove(void *d, const void *s, size_t n) {
  if (g_off == 0 && n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
  }
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else if (n) {
    char *dd = (char *)d + n - 1;
    const char *ss = (const char *)s + n - 1;
    __asm__ volatile("std; rep movsb; cld"
                     : "+D"(dd), "+S"(ss), "+c"(n)
                     :
                     : "memory");
  }
  return r;
}
OPT void *memset(void *d, int c, size_t n) {
  if (g_off == 0 && n)
    access(d, n, true, false, PC);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
OPT int memcmp(const void *a, const void *b, size_t n) {
  if (g_off == 0 && n) {
    access(a, n, false, false, PC);
    access(b, n, false, false, PC);
  }
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i])
      return x[i] < y[i] ? -1 : 1;
  return 0;
}
OPT int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

// ---------------------------------------------------------------- __tsan_*
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (g_off)
    return;
  Thr *t = Cur;
  if (t->depth < 256)
    t->pcs[t->depth] = pc;
  t->depth++;
}
void __tsan_func_exit() {
  if (g_off)
    return;
  if (Cur->depth > 0)
    Cur->depth--;
}
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) {                                               \
    if (g_off == 0)                                                            \
      access(p, n, false, false, PC);                                          \
  }                                                                            \
  void __tsan_write##n(void *p) {                                              \
    if (g_off == 0)                                                            \
      access(p, n, true, false, PC);                                           \
  }                                                                            \
  void __tsan_unaligned_read##n(void *p) {                                     \
    if (g_off == 0)                                                            \
      access(p, n, false, false, PC);                                          \
  }                                                                            \
  void __tsan_unaligned_write##n(void *p) {                                    \
    if (g_off == 0)                                                            \
      access(p, n, true, false, PC);                                           \
  }                                                                            \
  void __tsan_volatile_read##n(void *p) {                                      \
    if (g_off == 0)                                                            \
      access(p, n, false, true, PC);                                           \
  }                                                                            \
  void __tsan_volatile_write##n(void *p) {                                     \
    if (g_off == 0)                                                            \
      access(p, n, true, true, PC);                                            \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  if (g_off == 0 && n)
    access(p, n, false, false, PC);
}
void __tsan_write_range(void *p, size_t n) {
  if (g_off == 0 && n)
    access(p, n, true, false, PC);
}
void __tsan_vptr_update(void **p, void *v) {
  if (g_off)
    return;
  // what an uninitialised place held before must not change the schedule
  if (*p != v)
    access(p, 8, true, false, PC);
  else if (++Cur->acc >= Cur->nextPreempt)
    memPreempt();
}
void __tsan_vptr_read(void **p) {
  if (g_off == 0)
    access(p, 8, false, false, PC);
}
} // extern C

namespace {
inline void atomicBefore(volatile void *p, size_t n, bool w, void *pc) {
  Thr *t = Cur;
  t->acc += 15; // atomics are likelier preemption points
  access((const void *)p, n, w, true, pc);
  ++g_off;
  acquireVC(t, (const void *)p);
  if (w)
    releaseVC(t, (const void *)p);
  --g_off;
}
} // namespace

#define ATOMIC(bits, type)                                                     \
  extern "C" type __tsan_atomic##bits##_load(const volatile type *p, int) {    \
    if (g_off == 0)                                                            \
      atomicBefore((volatile void *)p, bits / 8, false, PC);                   \
    return __atomic_load_n(p, 5);                                              \
  }                                                                            \
  extern "C" void __tsan_atomic##bits##_store(volatile type *p, type v, int) { \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    __atomic_store_n(p, v, 5);                                                 \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_exchange(volatile type *p, type v,     \
                                                 int) {                        \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_exchange_n(p, v, 5);                                       \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_fetch_add(volatile type *p, type v,    \
                                                  int) {                       \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_fetch_add(p, v, 5);                                        \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v,    \
                                                  int) {                       \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_fetch_sub(p, v, 5);                                        \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_fetch_and(volatile type *p, type v,    \
                                                  int) {                       \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_fetch_and(p, v, 5);                                        \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_fetch_or(volatile type *p, type v,     \
                                                 int) {                        \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_fetch_or(p, v, 5);                                         \
  }                                                                            \
  extern "C" type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v,    \
                                                  int) {                       \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_fetch_xor(p, v, 5);                                        \
  }                                                                            \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(                \
      volatile type *p, type *e, type v, int, int) {                           \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_compare_exchange_n(p, e, v, false, 5, 5);                  \
  }                                                                            \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(                  \
      volatile type *p, type *e, type v, int, int) {                           \
    if (g_off == 0)                                                            \
      atomicBefore(p, bits / 8, true, PC);                                     \
    return __atomic_compare_exchange_n(p, e, v, false, 5, 5);                  \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
