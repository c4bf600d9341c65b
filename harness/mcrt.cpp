// See mcrt.h. This file is compiled without instrumentation and uses no
// templates of the standard library (they might be merged with instrumented
// instantiations).
#include "mcrt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void * __libc_malloc(size_t);
extern "C" void * __libc_calloc(size_t, size_t);
extern "C" void * __libc_realloc(void *, size_t);
extern "C" void * __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);

namespace {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

// thread number + 1, or 0 outside of the threads under control
__thread int t_id = 0;
__thread int t_paused = 0;

McShared * S = nullptr;
int g_n = 0;
int g_current = -1;

struct Thread
{
  int state;              // 0 ready, 1 blocked, 2 finished
  const void * on;        // what it is blocked on
  u32 wake;               // futex
  u32 vc[kMaxThreads];
  char * stack;
  char * arena, * top, * end;
  const void * spin; int spins;
} T[kMaxThreads];
constexpr size_t kStack = 4u << 20, kArena = 256u << 20;

// ------------------------------------------------------------- raw memory ----
void raw_copy(void * d, const void * s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void raw_set(void * d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

// ------------------------------------------------------------------ shadow ----
// One cell per eight bytes as long as all accesses cover all of them, one per
// byte from then on.
struct Cell { u16 w; u16 r[kMaxThreads]; u16 a[kMaxThreads]; u16 split; u32 pc; u32 pad; };      // w: thread << 14 | clock
static_assert(sizeof(Cell) == 24, "");
constexpr u32 kPages = 1u << 15;
struct Page { u64 key; Cell * wide; Cell * bytes; } * g_pages;
char * g_pool, * g_pool_end;
constexpr size_t kPool = 4ull << 30;
void * pool(size_t n)
{
  char * p = g_pool;
  g_pool += n;
  if( g_pool > g_pool_end ) { S->overflow = 5; __atomic_store_n(&S->finished, 2, __ATOMIC_RELEASE); _exit(0); }
  return p;
}
Page * find_page(u64 key)
{
  u32 h = u32(key * 0x9e3779b97f4a7c15ull >> 49) & (kPages - 1);
  for(;; h = (h + 1) & (kPages - 1))
  {
    if( g_pages[h].key == key ) return &g_pages[h];
    if( !g_pages[h].key )
    {
      g_pages[h].key = key;
      g_pages[h].wide = static_cast<Cell *>(pool(512 * sizeof(Cell)));
      return &g_pages[h];
    }
  }
}
extern "C" char __executable_start;
u32 rel(u64 pc) { return u32(pc - u64(&__executable_start)); }

void race(u64 addr, const char * now, int me, const char * before, int other, u64 pc, u32 pc0)
{
  if( S->race++ ) return;
  S->race_pc[0] = rel(pc);
  S->race_pc[1] = pc0;
  snprintf(S->race_text, sizeof S->race_text, "data race: thread %d %s a byte at %p that thread %d %s without synchronisation in between", me, now, reinterpret_cast<void *>(addr), other, before);
}

// false: a race
bool touch(Cell& c, int me, bool write, bool atomic, u64 pc, u64 x)
{
  const u16 clk = u16(T[me].vc[me]);
  if( c.w && !(atomic && c.a[c.w >> 14]) )
  {
    int o = c.w >> 14; u32 k = c.w & 0x3fff;
    if( o != me && k > T[me].vc[o] ) { race(x, write ? "writes" : "reads", me, "has written", o, pc, c.pc); return false; }
  }
  for(int o = 0; o < g_n; ++o)
    if( o != me )
    {
      if( write && c.r[o] > T[me].vc[o] ) { race(x, "writes", me, "has read", o, pc, c.pc); return false; }
      if( !atomic && (write ? c.a[o] : (c.a[o] && (c.w >> 14) == o ? c.a[o] : 0)) > T[me].vc[o] ) { race(x, write ? "writes" : "reads", me, "has accessed", o, pc, c.pc); return false; }
    }
  if( atomic ) { c.a[me] = clk; if( write ) c.w = u16(me << 14 | clk); }
  else if( write ) { c.w = u16(me << 14 | clk); c.a[me] = 0; c.pc = rel(pc); }
  else { c.r[me] = clk; c.pc = rel(pc); }
  return true;
}

void access(const void * p, size_t n, bool write, bool atomic, u64 pc)
{
  const int me = t_id - 1;
  if( me < 0 || t_paused || !n ) return;
  auto a = reinterpret_cast<u64>(p);
  if( static_cast<const char *>(p) >= T[me].stack && static_cast<const char *>(p) < T[me].stack + kStack ) return;
  ++S->plain;
  Page * pg = nullptr;
  for(u64 x = a; x < a + n; )
  {
    if( !pg || pg->key != (x >> 12) ) pg = find_page(x >> 12);
    Cell& w = pg->wide[(x & 4095) >> 3];
    const u64 next = (x | 7) + 1;
    if( !w.split )
    {
      if( !(x & 7) && next <= a + n )
      {
        if( !touch(w, me, write, atomic, pc, x) ) return;
        x = next;
        continue;
      }
      if( !pg->bytes ) pg->bytes = static_cast<Cell *>(pool(4096 * sizeof(Cell)));
      for(int i = 0; i < 8; ++i) pg->bytes[((x & 4095) & ~7ull) + u64(i)] = w;
      w.split = 1;
    }
    for(; x < next && x < a + n; ++x) if( !touch(pg->bytes[x & 4095], me, write, atomic, pc, x) ) return;
  }
}

// ------------------------------------------------------------ vector clocks ----
constexpr u32 kSyncs = 1u << 15;
struct Sync { u64 key; u32 vc[kMaxThreads]; } * g_syncs;
Sync * find_sync(const void * p)
{
  auto key = reinterpret_cast<u64>(p);
  u32 h = u32(key * 0x9e3779b97f4a7c15ull >> 49) & (kSyncs - 1);
  for(;; h = (h + 1) & (kSyncs - 1))
  {
    if( g_syncs[h].key == key ) return &g_syncs[h];
    if( !g_syncs[h].key ) { g_syncs[h].key = key; return &g_syncs[h]; }
  }
}
void acquire(const void * p)
{
  if( !t_id ) return;
  Sync * s = find_sync(p);
  for(int i = 0; i < g_n; ++i) if( s->vc[i] > T[t_id - 1].vc[i] ) T[t_id - 1].vc[i] = s->vc[i];
}
void release(const void * p, bool replace)
{
  if( !t_id ) return;
  const int me = t_id - 1;
  Sync * s = find_sync(p);
  for(int i = 0; i < g_n; ++i) if( replace || T[me].vc[i] > s->vc[i] ) s->vc[i] = T[me].vc[i];
  if( T[me].vc[me] < 0x3ffe ) ++T[me].vc[me];
  else S->overflow = 1;
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rls(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// ---------------------------------------------------------------- scheduler ----
void futex_wait(u32 * f) { while( __atomic_load_n(f, __ATOMIC_ACQUIRE) == 0 ) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
void futex_wake(u32 * f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void stop(int code) { __atomic_store_n(&S->finished, code, __ATOMIC_RELEASE); _exit(0); }

// decide who runs next; `self` may be blocked or finished
void decide(int self, u8 kind, const void * addr, bool write)
{
  u8 enabled = 0;
  for(int i = 0; i < g_n; ++i) if( T[i].state == 0 ) enabled |= u8(1u << i);
  if( !enabled )
  {
    for(int i = 0; i < g_n; ++i) if( T[i].state == 1 ) { S->deadlock = 1; stop(2); }
    return;                                  // all are finished
  }
  if( S->npoints >= kMaxPoints ) { S->overflow = 2; stop(2); }
  const int i = S->npoints++;
  McPoint& p = S->points[i];
  p.addr = reinterpret_cast<u64>(addr);
  p.thread = u8(self);
  p.enabled = enabled;
  p.kind = kind;
  p.write = write;
  int next;
  if( i < S->nprefix )
  {
    next = S->prefix[i];
    if( next >= g_n || !(enabled & (1u << next)) ) { S->diverged = 1; stop(2); }
  }
  else if( T[self].state == 0 ) next = self;
  else { next = 0; while( !(enabled & (1u << next)) ) ++next; }
  p.chosen = u8(next);
  if( next != self )
  {
    g_current = next;
    futex_wake(&T[next].wake);
    if( T[self].state != 2 ) futex_wait(&T[self].wake);
  }
}

void point(u8 kind, const void * addr, bool write)
{
  const int me = t_id - 1;
  if( me < 0 || t_paused ) return;
  // a loop that waits for another thread
  if( addr == T[me].spin && kind != kYield )
  {
    if( ++T[me].spins > 300 )
    {
      T[me].spins = 0;
      bool other = false;
      for(int i = 0; i < g_n; ++i) other |= i != me && T[i].state == 0;
      if( other )
      {
        T[me].state = 1;
        decide(me, kForced, nullptr, false);
        return;
      }
    }
  }
  else { T[me].spin = addr; T[me].spins = 0; }
  decide(me, kind, addr, write);
  // threads that were put aside while looping are ready again
  for(int i = 0; i < g_n; ++i) if( T[i].state == 1 && !T[i].on ) T[i].state = 0;
}

void block(const void * on)
{
  const int me = t_id - 1;
  T[me].state = 1;
  T[me].on = on;
  decide(me, kForced, nullptr, false);
  T[me].on = nullptr;
}
void wake_all(const void * on)
{
  for(int i = 0; i < g_n; ++i) if( T[i].state == 1 && T[i].on == on ) T[i].state = 0;
}

McProgram g_program;
void * g_arg;

void * main_of(void * v)
{
  const int me = int(reinterpret_cast<std::intptr_t>(v));
  futex_wait(&T[me].wake);
  t_id = me + 1;
  g_program(me, g_arg);
  t_id = 0;
  T[me].state = 2;
  for(int i = 0; i < g_n; ++i) if( T[i].state == 1 && !T[i].on ) T[i].state = 0;
  decide(me, kForced, nullptr, false);
  return nullptr;
}

// --------------------------------------------------------------- allocation ----
bool in_arena(const void * p)
{
  for(int i = 0; i < g_n; ++i) if( static_cast<const char *>(p) >= T[i].arena && static_cast<const char *>(p) < T[i].end ) return true;
  return false;
}
void * arena_alloc(size_t n, size_t align)
{
  Thread& t = T[t_id - 1];
  if( S->alloc_points ) point(kAlloc, nullptr, true);
  auto p = (reinterpret_cast<u64>(t.top) + 16 + align - 1) & ~(u64(align) - 1);
  if( p + n + 64 > reinterpret_cast<u64>(t.end) ) { S->overflow = 3; stop(2); }
  reinterpret_cast<u64 *>(p)[-1] = n;
  t.top = reinterpret_cast<char *>((p + n + 15) & ~u64(15));
  return reinterpret_cast<void *>(p);
}

} // namespace

// ----------------------------------------------------------------- interface ----
void mc_run(McShared * s, int n, McProgram f, void * arg)
{
  S = s;
  g_n = n;
  g_program = f;
  g_arg = arg;
  g_pages = static_cast<Page *>(mmap(nullptr, kPages * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_syncs = static_cast<Sync *>(mmap(nullptr, kSyncs * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_pool = static_cast<char *>(mmap(nullptr, kPool, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_pool_end = g_pool + kPool;
  pthread_t th[kMaxThreads];
  for(int i = 0; i < n; ++i)
  {
    T[i].stack = static_cast<char *>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    T[i].arena = T[i].top = static_cast<char *>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    T[i].end = T[i].arena + kArena;
    T[i].vc[i] = 1;
  }
  for(int i = 0; i < n; ++i)
  {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, T[i].stack, kStack);
    if( pthread_create(&th[i], &a, main_of, reinterpret_cast<void *>(std::intptr_t(i))) ) { S->overflow = 4; stop(2); }
  }
  // the first decision is which thread starts
  McPoint& p = S->points[S->npoints++];
  p.addr = 0; p.thread = 0; p.enabled = u8((1u << n) - 1); p.kind = kForced; p.write = 0;
  int first = S->nprefix ? S->prefix[0] : 0;
  p.chosen = u8(first);
  g_current = first;
  futex_wake(&T[first].wake);
  for(int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
  __atomic_store_n(&S->finished, 1, __ATOMIC_RELEASE);
}
void mc_yield() { static char any; point(kYield, &any, true); }
void mc_pause(bool on) { t_paused += on ? 1 : -1; }

extern "C" {

// ------------------------------------------------------ hooks of the compiler ----
#define PC u64(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, false, PC); }
#define RW(N) \
  void __tsan_read##N(void * p) { access(p, N, false, false, PC); } \
  void __tsan_write##N(void * p) { access(p, N, true, false, PC); } \
  void __tsan_unaligned_read##N(void * p) { access(p, N, false, false, PC); } \
  void __tsan_unaligned_write##N(void * p) { access(p, N, true, false, PC); } \
  void __tsan_volatile_read##N(void * p) { access(p, N, false, false, PC); } \
  void __tsan_volatile_write##N(void * p) { access(p, N, true, false, PC); } \
  void __tsan_read##N##_pc(void * p, void * pc) { access(p, N, false, false, u64(pc)); } \
  void __tsan_write##N##_pc(void * p, void * pc) { access(p, N, true, false, u64(pc)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void * p, unsigned long n) { access(p, n, true, false, PC); }

#define ATOMIC(BITS, T_) \
  T_ __tsan_atomic##BITS##_load(const volatile T_ * p, int mo) { auto a = const_cast<const T_ *>(p); point(kAtomic, a, false); access(a, sizeof(T_), false, true, PC); T_ v = *p; if( acq(mo) ) acquire(a); return v; } \
  void __tsan_atomic##BITS##_store(volatile T_ * p, T_ v, int mo) { auto a = const_cast<T_ *>(p); point(kAtomic, a, true); access(a, sizeof(T_), true, true, PC); if( rls(mo) ) release(a, true); *p = v; } \
  T_ __tsan_atomic##BITS##_exchange(volatile T_ * p, T_ v, int mo) { auto a = const_cast<T_ *>(p); point(kAtomic, a, true); access(a, sizeof(T_), true, true, PC); T_ o = *p; if( acq(mo) ) acquire(a); if( rls(mo) ) release(a, false); *p = v; return o; } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T_ * p, T_ * e, T_ v, int mo, int fmo) { auto a = const_cast<T_ *>(p); point(kAtomic, a, true); access(a, sizeof(T_), true, true, PC); if( *p == *e ) { if( acq(mo) ) acquire(a); if( rls(mo) ) release(a, false); *p = v; return 1; } if( acq(fmo) ) acquire(a); *e = *p; return 0; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T_ * p, T_ * e, T_ v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T_ __tsan_atomic##BITS##_compare_exchange_val(volatile T_ * p, T_ e, T_ v, int mo, int fmo) { __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
#define FETCH(BITS, T_, NAME, EXPR) \
  T_ __tsan_atomic##BITS##_fetch_##NAME(volatile T_ * p, T_ v, int mo) { auto a = const_cast<T_ *>(p); point(kAtomic, a, true); access(a, sizeof(T_), true, true, PC); T_ o = *p; if( acq(mo) ) acquire(a); if( rls(mo) ) release(a, false); *p = T_(EXPR); return o; }
#define FETCHES(BITS, T_) FETCH(BITS, T_, add, o + v) FETCH(BITS, T_, sub, o - v) FETCH(BITS, T_, and, o & v) FETCH(BITS, T_, or, o | v) FETCH(BITS, T_, xor, o ^ v) FETCH(BITS, T_, nand, ~(o & v))
ATOMIC(8, u8) FETCHES(8, u8)
ATOMIC(16, u16) FETCHES(16, u16)
ATOMIC(32, u32) FETCHES(32, u32)
ATOMIC(64, u64) FETCHES(64, u64)
void __tsan_atomic_thread_fence(int) { static char f; if( t_id ) { acquire(&f); release(&f, false); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------- static initialisation ----
int __cxa_guard_acquire(u8 * g)
{
  for(;;)
  {
    point(kLock, g, true);
    if( g[0] ) { acquire(g); return 0; }
    if( !g[1] ) { g[1] = 1; return 1; }
    if( !t_id ) abort();
    block(g);
  }
}
void __cxa_guard_release(u8 * g) { point(kLock, g, true); release(g, true); g[0] = 1; g[1] = 0; wake_all(g); }
void __cxa_guard_abort(u8 * g) { point(kLock, g, true); g[1] = 0; wake_all(g); }

// -------------------------------------------------------------------- locks ----
constexpr int kLocks = 4096;
static struct Lock { const void * key; int writer; int depth; int readers; } g_locks[kLocks];     // writer: thread + 1
static Lock * find_lock(const void * p)
{
  u32 h = u32(reinterpret_cast<u64>(p) * 0x9e3779b97f4a7c15ull >> 52) & (kLocks - 1);
  for(;; h = (h + 1) & (kLocks - 1)) { if( g_locks[h].key == p ) return &g_locks[h]; if( !g_locks[h].key ) { g_locks[h].key = p; return &g_locks[h]; } }
}
static int lock(const void * p, bool shared, bool wait, bool recursive)
{
  if( !t_id || t_paused ) return 0;
  for(;;)
  {
    point(kLock, p, true);
    Lock * l = find_lock(p);
    if( recursive && l->writer == t_id ) { ++l->depth; return 0; }
    if( !l->writer && (shared || !l->readers) ) { if( shared ) ++l->readers; else { l->writer = t_id; l->depth = 1; } acquire(p); return 0; }
    if( !wait ) return EBUSY;
    block(p);
  }
}
static int unlock(const void * p)
{
  if( !t_id || t_paused ) return 0;
  point(kLock, p, true);
  Lock * l = find_lock(p);
  if( l->writer == t_id ) { if( --l->depth ) return 0; l->writer = 0; }
  else if( l->readers ) --l->readers;
  release(p, false);
  wake_all(p);
  return 0;
}
static bool is_recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t * m) { return lock(m, false, true, is_recursive(m)); }
int pthread_mutex_trylock(pthread_mutex_t * m) { return lock(m, false, false, is_recursive(m)); }
int pthread_mutex_unlock(pthread_mutex_t * m) { return unlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { return lock(m, true, true, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { return lock(m, false, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { return lock(m, true, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { return lock(m, false, false, false); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { return unlock(m); }
int pthread_spin_lock(pthread_spinlock_t * m) { return lock(const_cast<int *>(m), false, true, false); }
int pthread_spin_unlock(pthread_spinlock_t * m) { return unlock(const_cast<int *>(m)); }
int pthread_once(pthread_once_t * o, void (*f)())
{
  // 0: not yet, 1: running, 2: done
  for(;;)
  {
    point(kLock, o, true);
    if( *o == 2 ) { acquire(o); return 0; }
    if( *o == 0 )
    {
      *o = 1;
      try { f(); }
      catch( ... ) { *o = 0; wake_all(o); throw; }
      point(kLock, o, true);
      release(o, true);
      *o = 2;
      wake_all(o);
      return 0;
    }
    if( !t_id ) abort();
    block(o);
  }
}
int sched_yield() { if( t_id ) mc_yield(); return 0; }

// -------------------------------------------------------------- allocation ----
void * malloc(size_t n) { return t_id && !t_paused ? arena_alloc(n, 16) : __libc_malloc(n); }
void * calloc(size_t a, size_t b)
{
  if( !t_id || t_paused ) return __libc_calloc(a, b);
  void * p = arena_alloc(a * b, 16);     // fresh pages are zero
  return p;
}
void free(void * p)
{
  if( !p ) return;
  if( in_arena(p) )
  {
    if( t_id && !t_paused ) { if( S->alloc_points ) point(kAlloc, nullptr, true); access(p, static_cast<u64 *>(p)[-1], true, false, PC); }
    return;
  }
  // what existed before is not given back while threads run
  if( t_id ) { if( !t_paused ) access(p, malloc_usable_size(p), true, false, PC); return; }
  __libc_free(p);
}
void * realloc(void * p, size_t n)
{
  if( !t_id || t_paused ) { if( p && in_arena(p) ) abort(); return __libc_realloc(p, n); }
  void * q = arena_alloc(n, 16);
  if( p ) { size_t o = in_arena(p) ? static_cast<u64 *>(p)[-1] : malloc_usable_size(p); raw_copy(q, p, o < n ? o : n); free(p); }
  return q;
}
void * memalign(size_t a, size_t n) { return t_id && !t_paused ? arena_alloc(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }

// ------------------------------------------------------- functions of the C library ----
void * memcpy(void * d, const void * s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); raw_copy(d, s, n); return d; }
void * memmove(void * d, const void * s, size_t n)
{
  access(s, n, false, false, PC); access(d, n, true, false, PC);
  auto a = static_cast<char *>(d); auto b = static_cast<const char *>(s);
  if( a <= b || a >= b + n ) raw_copy(d, s, n);
  else while( n ) { --n; static_cast<volatile char *>(a)[n] = b[n]; }
  return d;
}
void * memset(void * d, int c, size_t n) { access(d, n, true, false, PC); raw_set(d, c, n); return d; }
int memcmp(const void * x, const void * y, size_t n)
{
  access(x, n, false, false, PC); access(y, n, false, false, PC);
  auto a = static_cast<const volatile u8 *>(x), b = static_cast<const volatile u8 *>(y);
  for(size_t i = 0; i < n; ++i) if( a[i] != b[i] ) return a[i] < b[i] ? -1 : 1;
  return 0;
}
size_t strlen(const char * s) { auto p = static_cast<const volatile char *>(s); size_t n = 0; while( p[n] ) ++n; access(s, n + 1, false, false, PC); return n; }

} // extern "C"
