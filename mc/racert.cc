/* Happens-before race detector: the library is compiled with the compiler's
 * thread instrumentation, whose run time calls are answered here with vector
 * clocks over the simulated threads.  Also finds uses of freed heap memory. */
#include "simk.h"
#include <unordered_map>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>

namespace {
const int T = 10;
typedef uint32_t Clk;
struct VC { Clk c[T] = {0}; void join(const VC &o) { for (int i = 0; i < T; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
VC g_vc[T];
int g_tid;
std::unordered_map<const void *, VC> g_sync;
struct Byte { Clk wc = 0; int8_t wt = -1; bool freed = false, krace = false; Clk rc[T] = {0}; };
struct Cell { Byte b[8]; };
std::unordered_map<uintptr_t, Cell> g_shadow;
std::vector<void *> g_quarantine;
uintptr_t g_base;

uintptr_t rel(const void *pc) { Dl_info i; if (dladdr(pc, &i) && i.dli_fbase) return (uintptr_t)pc - (uintptr_t)i.dli_fbase; return (uintptr_t)pc; }
void access(const void *p, size_t n, bool w, const void *pc)
{
	if (!simk::in_threads()) return;
	VC &me = g_vc[g_tid];
	uintptr_t a = (uintptr_t)p;
	for (size_t i = 0; i < n; ) {
		Cell &c = g_shadow[(a + i) & ~(uintptr_t)7];
		for (size_t k = (a + i) & 7; k < 8 && i < n; k++, i++) {
			Byte &b = c.b[k];
			if (b.freed) mc::fail("use of freed memory by thread %d (%s of %zu bytes, code +0x%lx)", g_tid, w ? "write" : "read", n, (unsigned long)rel(pc));
			if (b.wt >= 0 && b.wt != g_tid && b.wc > me.c[b.wt]) mc::fail("data race: %s of %zu bytes by thread %d (code +0x%lx) is not ordered with a write by thread %d", w ? "write" : "read", n, g_tid, (unsigned long)rel(pc), b.wt);
			if (!w && b.krace) mc::fail("data race: read of %zu bytes by thread %d (code +0x%lx) of what the kernel wrote into a buffer that is used by another thread, too", n, g_tid, (unsigned long)rel(pc));
			if (w) {
				b.krace = false;
				for (int t = 0; t < T; t++) if (t != g_tid && b.rc[t] > me.c[t]) mc::fail("data race: write of %zu bytes by thread %d (code +0x%lx) is not ordered with a read by thread %d", n, g_tid, (unsigned long)rel(pc), t);
				b.wt = (int8_t)g_tid; b.wc = me.c[g_tid];
				memset(b.rc, 0, sizeof(b.rc));
			} else b.rc[g_tid] = me.c[g_tid];
		}
	}
}
}

extern "C" {
void mc_rt_reset() { for (auto &v : g_vc) v = VC(); for (int i = 0; i < T; i++) g_vc[i].c[i] = 1; g_tid = 0; g_sync.clear(); g_shadow.clear(); for (void *p : g_quarantine) free(p); g_quarantine.clear(); }
void mc_rt_switch(int t) { g_tid = t; }
void mc_rt_fork(int c) { g_vc[c] = VC(); g_vc[c].join(g_vc[g_tid]); g_vc[c].c[c] = 1; g_vc[g_tid].c[g_tid]++; }
void mc_rt_join(int c) { g_vc[g_tid].join(g_vc[c]); }
void mc_rt_acquire(const void *o) { auto i = g_sync.find(o); if (i != g_sync.end()) g_vc[g_tid].join(i->second); }
void mc_rt_release(const void *o) { g_sync[o].join(g_vc[g_tid]); g_vc[g_tid].c[g_tid]++; }
void mc_rt_access(const void *p, size_t n, int w) { access(p, n, w != 0, __builtin_return_address(0)); }
/* the kernel fills a buffer: no access of the program by itself, but what reads it later must be ordered with the call */
void mc_rt_kwrite(const void *p, size_t n)
{
	if (!simk::in_threads()) return;
	uintptr_t a = (uintptr_t)p;
	for (size_t i = 0; i < n; i++) { Byte &b = g_shadow[(a + i) & ~(uintptr_t)7].b[(a + i) & 7]; if (b.freed) mc::fail("the kernel writes to freed memory for thread %d", g_tid);
		VC &me = g_vc[g_tid]; b.krace = b.wt >= 0 && b.wt != g_tid && b.wc > me.c[b.wt]; for (int t = 0; t < T; t++) if (t != g_tid && b.rc[t] > me.c[t]) b.krace = true;
		b.wt = (int8_t)g_tid; b.wc = g_vc[g_tid].c[g_tid]; }
}
/* memory is given back when the execution is over, until then any use of it is an error */
void mc_rt_free(void *p, size_t n)
{
	access(p, n, true, __builtin_return_address(0));
	uintptr_t a = (uintptr_t)p;
	if (simk::in_threads()) for (size_t i = 0; i < n; i++) g_shadow[(a + i) & ~(uintptr_t)7].b[(a + i) & 7].freed = true;
	g_quarantine.push_back(p);
}
void mc_rt_alloc(void *p, size_t n)
{
	uintptr_t a = (uintptr_t)p;
	if (!simk::in_threads()) return;
	for (size_t i = 0; i < n; i++) { auto it = g_shadow.find((a + i) & ~(uintptr_t)7); if (it != g_shadow.end()) it->second.b[(a + i) & 7] = Byte(); }
}

#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_read_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, true, PC); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return memcmp(a, b, n); }

/* atomics: scheduling points, ordered through the object; relaxed ones order nothing */
static void apre(const void *o, int mo, bool rel_) { simk::yield_point("atomic operation"); if (rel_ && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) mc_rt_release(o); }
static void apost(const void *o, int mo) { if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) mc_rt_acquire(o); }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { apre((void *)a, mo, false); T v = *a; apost((void *)a, mo); return v; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { apre((void *)a, mo, true); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = v; apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)(o + v); apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)(o - v); apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)(o & v); apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)(o | v); apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)(o ^ v); apost((void *)a, mo); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { apre((void *)a, mo, true); T o = *a; *a = (T)~(o & v); apost((void *)a, mo); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { apre((void *)a, mo, true); if (*a == *c) { *a = v; apost((void *)a, mo); return 1; } *c = *a; apost((void *)a, fmo); return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { simk::yield_point("fence"); }
void __tsan_atomic_signal_fence(int) {}
}
