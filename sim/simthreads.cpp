#include "simthreads.h"
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cerrno>
#include <unordered_map>
#include <cxxabi.h>
#include <iostream>

extern char __executable_start;

namespace sched {
	using sim::u64;
	static const int kSlots = 4; // the controller and three threads
	struct VC {
		uint32_t c[kSlots] = {};
		void join(const VC& o) { for (int i = 0; i < kSlots; i++) c[i] = c[i] > o.c[i] ? c[i] : o.c[i]; }
	};
	struct Thr {
		int slot = 0;
		pthread_t handle;
		sem_t go;
		VC vc;
		bool done = false;
		const void* blockedOn = nullptr;
		const Body* body = nullptr;
		sim::Rng rng { 1 };
		void* pc = nullptr;
	};
	static Thr g_thr[kSlots];
	static thread_local Thr* t_self = nullptr;
	static bool g_active = false;
	static long g_left = 0;
	static size_t g_next = 0;
	static std::vector<Switch> g_switches;
	static Stats g_stats;
	static u64 g_sig = 1;
	static int g_count = 0;
	static sem_t g_allDone;
	static thread_local int t_inside = 0; // inside the runtime

	const Stats& stats() { return g_stats; }
	u64 signature() { return g_sig; }
	Outside::Outside() { t_inside++; }
	Outside::~Outside() { t_inside--; }
	int self() { return t_self ? t_self->slot : 0; }
	void stream(u64 seed)
	{
		if (t_self) t_self->rng = sim::Rng(seed);
		else g_thr[0].rng = sim::Rng(seed);
	}

	// ------------------------------------------------------------ shadow memory
	struct Cell {
		uint32_t clk;
		uint32_t where; // pc offset << 8 | byte mask
	};
	struct Granule {
		Cell rd[kSlots], wr[kSlots];
	};
	static const size_t kPageShift = 12, kPerPage = (1 << kPageShift) / 8, kTable = 1 << 17, kPages = 24000;
	struct PageEntry {
		uintptr_t page;
		Granule* g;
	};
	static PageEntry* g_table = nullptr;
	static Granule* g_pool = nullptr;
	static size_t g_used = 0;
	static PageEntry g_cache { 0, nullptr };
	static Granule* pageOf(uintptr_t page, bool create)
	{
		if (g_cache.g && g_cache.page == page) return g_cache.g;
		if (!g_table) {
			if (!create) return nullptr;
			g_table = (PageEntry*)mmap(nullptr, kTable * sizeof(PageEntry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			g_pool = (Granule*)mmap(nullptr, kPages * kPerPage * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (g_table == MAP_FAILED || g_pool == MAP_FAILED) abort();
		}
		size_t h = (size_t)(sim::mix(page) & (kTable - 1));
		while (g_table[h].g) {
			if (g_table[h].page == page) return (g_cache = g_table[h]).g;
			h = (h + 1) & (kTable - 1);
		}
		if (!create || g_used >= kPages) return nullptr;
		g_table[h] = { page, g_pool + kPerPage * g_used++ };
		return (g_cache = g_table[h]).g;
	}
	static void clearRange(const void* p, size_t n)
	{
		if (!g_table) return;
		uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n;
		while (a < e) {
			uintptr_t page = a >> kPageShift, end = std::min<uintptr_t>(e, (page + 1) << kPageShift);
			if (Granule* g = pageOf(page, false)) memset(g + (a & ((1 << kPageShift) - 1)) / 8, 0, ((end - a + 7) / 8) * sizeof(Granule));
			a = end;
		}
	}
	static std::string where(uint32_t w)
	{
		void* pc = &__executable_start + (w >> 8);
		Dl_info i;
		if (!dladdr(pc, &i) || !i.dli_sname) {
			char b[32];
			snprintf(b, sizeof b, "code+0x%x", w >> 8);
			return b;
		}
		int st;
		char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
		std::string s = d ? d : i.dli_sname;
		free(d);
		return s.substr(0, 160);
	}
	static void race(uintptr_t addr, const Cell& old, int oldSlot, bool oldWrite, uint32_t now, bool write)
	{
		g_active = false;
		t_inside++;
		if (sim::verbose()) printf("race at %p, code +0x%x and +0x%x\n", (void*)addr, old.where >> 8, now >> 8);
		sim::violate("data-race", "thread %d %s and thread %d %s the same memory, unordered: %s <-> %s", oldSlot, oldWrite ? "writes" : "reads", t_self->slot, write ? "writes" : "reads",
			where(old.where).c_str(), where(now).c_str());
	}
	static inline void check(uintptr_t a, unsigned mask, bool write, uint32_t pc)
	{
		Granule* g = pageOf(a >> kPageShift, true);
		if (!g) return;
		g += (a & ((1 << kPageShift) - 1)) / 8;
		Thr& t = *t_self;
		int me = t.slot;
		uint32_t clk = t.vc.c[me];
		Cell& mine = write ? g->wr[me] : g->rd[me];
		if (mine.clk == clk && (mine.where & mask) == mask) return;
		for (int s = 0; s < kSlots; s++) {
			if (s == me) continue;
			if ((g->wr[s].where & mask) && g->wr[s].clk > t.vc.c[s]) race(a, g->wr[s], s, true, pc << 8 | mask, write);
			if (write && (g->rd[s].where & mask) && g->rd[s].clk > t.vc.c[s]) race(a, g->rd[s], s, false, pc << 8 | mask, write);
		}
		if (mine.clk == clk) mine.where |= mask;
		else mine = { clk, pc << 8 | mask };
	}

	// ------------------------------------------------------------ scheduling
	static void handTo(Thr& to)
	{
		Thr* me = t_self;
		if (&to == me) return;
		sem_post(&to.go);
		if (me) while (sem_wait(&me->go)) { }
	}
	static void loadNext() { g_left = g_next < g_switches.size() ? std::max(1l, g_switches[g_next].delay) : -1; }
	static Thr* runnable(int prefer)
	{
		for (int k = 0; k < g_count; k++) {
			Thr& t = g_thr[1 + (prefer - 1 + k + 8 * g_count) % g_count];
			if (!t.done && !t.blockedOn) return &t;
		}
		return nullptr;
	}
	static long g_alone = 0;
	static void preempt(int kind)
	{
		int to = 1 + (int)(std::labs(g_switches[g_next].to) % g_count);
		g_next++;
		loadNext();
		Thr* t = runnable(to);
		if (!t || t == t_self) return;
		g_stats.preemptions++;
		g_alone = 0;
		sim::fired("sched:preempt");
		g_sig = sim::mix(g_sig ^ ((u64)t->slot << 40 | (u64)t_self->slot << 32 | ((uintptr_t)t_self->pc & 0xffffff) << 4 | kind));
		handTo(*t);
	}
	static void yieldNow()
	{
		g_alone = 0;
		Thr* t = runnable(t_self->slot + 1);
		if (t && t != t_self) handTo(*t);
	}
	static inline void tick(int kind)
	{
		g_stats.points++;
		sim::addStep();
		if (++g_alone > 3000000) yieldNow(); // no thread is starved by one that spins
		if (g_left > 0 && --g_left == 0) preempt(kind);
	}
	void point()
	{
		if (!g_active || !t_self || t_inside) return;
		t_inside++;
		tick(3);
		t_inside--;
	}
	static void block(const void* on)
	{
		Thr* me = t_self;
		me->blockedOn = on;
		g_stats.blocked++;
		Thr* t = runnable(me->slot + 1);
		if (!t) sim::violate("deadlock", "every thread waits for another one");
		g_sig = sim::mix(g_sig ^ 0xb10c ^ me->slot);
		handTo(*t);
	}
	static void wake(const void* on)
	{
		for (int i = 1; i <= g_count; i++)
			if (g_thr[i].blockedOn == on) g_thr[i].blockedOn = nullptr;
	}

	// ------------------------------------------------------------ happens-before
	static std::unordered_map<const void*, VC>* g_sync = nullptr;
	struct Lock {
		int owner = 0; // exclusive owner
		int depth = 0;
		int readers = 0;
	};
	static std::unordered_map<const void*, Lock>* g_locks = nullptr;
	static void acquire(const void* a)
	{
		auto it = g_sync->find(a);
		if (it != g_sync->end()) t_self->vc.join(it->second);
	}
	static void release(const void* a)
	{
		(*g_sync)[a].join(t_self->vc);
		t_self->vc.c[t_self->slot]++;
	}

	static Thr* g_finished = nullptr;
	static void* trampoline(void* arg)
	{
		Thr* t = (Thr*)arg;
		t_inside = 1;
		t_self = t;
		while (sem_wait(&t->go)) { }
		t_inside = 0;
		try {
			t->body->run();
		} catch (const std::exception& e) {
			t_inside++;
			sim::violate("uncaught-exception", "thread %d: %s", t->slot, e.what());
		}
		t_inside = 1;
		t->done = true;
		t_self = nullptr; // destructors of thread-local objects are not interleaved:
		g_finished = t;   // the controller joins the thread before anybody goes on
		sem_post(&g_allDone);
		return nullptr;
	}

	void run(const std::vector<Body>& bodies, const std::vector<Switch>& switches)
	{
		t_inside++;
		if (!g_sync) {
			g_sync = new std::unordered_map<const void*, VC>();
			g_locks = new std::unordered_map<const void*, Lock>();
			g_thr[0].vc.c[0] = 1;
		}
		mallopt(M_ARENA_MAX, 1);
		g_switches = switches;
		g_next = 0;
		loadNext();
		g_count = (int)std::min<size_t>(bodies.size(), kSlots - 1);
		sem_init(&g_allDone, 0, 0);
		VC& main = g_thr[0].vc;
		for (int i = 0; i < g_count; i++) {
			Thr& t = g_thr[1 + i];
			uint32_t own = t.vc.c[1 + i];
			t.slot = 1 + i;
			t.done = false;
			t.blockedOn = nullptr;
			t.body = &bodies[i];
			t.rng = sim::Rng(1000 + bodies[i].id);
			t.vc = main;
			t.vc.c[1 + i] = std::max(own, main.c[1 + i]) + 1;
			sem_init(&t.go, 0, 0);
			g_stats.threads++;
		}
		main.c[0]++;
		g_active = true;
		// the threads are started before any of them runs
		pthread_attr_t attr;
		pthread_attr_init(&attr);
		pthread_attr_setstacksize(&attr, 8 << 20);
		for (int i = 0; i < g_count; i++)
			if (pthread_create(&g_thr[1 + i].handle, &attr, trampoline, &g_thr[1 + i])) {
				fprintf(stderr, "pthread_create failed\n");
				_exit(3);
			}
		if (g_count) {
			Thr* n = &g_thr[1];
			while (n) {
				sem_post(&n->go);
				while (sem_wait(&g_allDone)) { }
				Thr* f = g_finished;
				pthread_join(f->handle, nullptr);
				main.join(f->vc);
				n = runnable(f->slot + 1);
			}
			for (int i = 1; i <= g_count; i++)
				if (!g_thr[i].done) sim::violate("deadlock", "thread %d waits for something nobody will do", i);
			main.c[0]++;
		}
		g_active = false;
		t_inside--;
	}

	static inline void access(const void* p, size_t n, bool write, void* pc, int kind = -1)
	{
		if (!g_active || !t_self || t_inside) return;
		t_inside++;
		t_self->pc = pc;
		tick(kind < 0 ? write : kind);
		uint32_t off = (uint32_t)((char*)pc - &__executable_start);
		uintptr_t a = (uintptr_t)p, e = a + n;
		while (a < e) {
			uintptr_t base = a & ~7ul;
			unsigned lo = (unsigned)(a - base), hi = (unsigned)std::min<uintptr_t>(8, e - base);
			check(base, ((1u << hi) - 1) & ~((1u << lo) - 1), write, off);
			a = base + 8;
		}
		t_inside--;
	}
	static inline bool live() { return g_active && t_self && !t_inside; }
	static inline bool isAcq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	struct AtomicOp {
		bool on;
		const void* a;
		int mo;
		bool store;
		AtomicOp(const volatile void* addr, int m, void* pc, bool st) : on(live()), a((const void*)addr), mo(m & 0xff), store(st)
		{
			if (!on) return;
			t_inside++;
			t_self->pc = pc;
			tick(2);
		}
		~AtomicOp()
		{
			if (!on) return;
			if (isAcq(mo)) acquire(a);
			if (store && isRel(mo)) release(a);
			t_inside--;
		}
	};
}
using namespace sched;

extern "C" uint64_t sim_draw(const void* engine)
{
	if (live()) {
		access(engine, 8, true, __builtin_return_address(0)); // drawing changes the engine
		return t_self->rng.next();
	}
	return t_self ? t_self->rng.next() : g_thr[0].rng.next();
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n)                                                            \
	void __tsan_read##n(void* p) { access(p, n, false, PC); }            \
	void __tsan_write##n(void* p) { access(p, n, true, PC); }            \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }  \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }  \
	void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }   \
	void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p != v, PC, 1); } // what was there before may be anything
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

#define ATOMICS(bits, T)                                                                                                   \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { AtomicOp o(a, mo, PC, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicOp o(a, mo == __ATOMIC_SEQ_CST ? __ATOMIC_RELEASE : mo, PC, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { AtomicOp o(a, mo, PC, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { AtomicOp o(a, mo, PC, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { AtomicOp o(a, mo, PC, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

// ---------------------------------------------------------------- locks
static int lockOp(const void* m, bool shared, bool tryOnly, bool recursive = false)
{
	if (!live()) return 0;
	t_inside++;
	t_self->pc = PC;
	tick(4);
	g_stats.locks++;
	for (;;) {
		Lock& l = (*g_locks)[m];
		bool free = shared ? l.owner == 0 : (l.owner == 0 && l.readers == 0);
		if (free) {
			if (shared) l.readers++;
			else l.owner = t_self->slot;
			break;
		}
		if (tryOnly && !(recursive && l.owner == t_self->slot)) {
			t_inside--;
			return EBUSY;
		}
		if (l.owner == t_self->slot) {
			if (recursive) {
				l.depth++;
				t_inside--;
				return 0;
			}
			sim::violate("deadlock", "a thread locks a mutex it holds already");
		}
		block(m);
	}
	acquire(m);
	t_inside--;
	return 0;
}
static int unlockOp(const void* m)
{
	if (!live()) return 0;
	t_inside++;
	Lock& l = (*g_locks)[m];
	if (l.owner == t_self->slot) {
		if (l.depth > 0) {
			l.depth--;
			t_inside--;
			return 0;
		}
		l.owner = 0;
	} else if (l.readers > 0) l.readers--;
	release(m);
	wake(m);
	t_self->pc = PC;
	tick(5);
	t_inside--;
	return 0;
}
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return lockOp(m, false, false, rec(m)); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return lockOp(m, false, true, rec(m)); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return unlockOp(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lockOp(m, true, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockOp(m, false, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lockOp(m, true, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lockOp(m, false, true); }
int __wrap_sched_yield()
{
	if (live()) {
		t_inside++;
		tick(7);
		yieldNow();
		t_inside--;
	}
	return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockOp(m); }

// one-time initialisation
static std::unordered_map<const void*, int>* g_guards = nullptr; // 1..: in progress by that slot
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
	if (!live()) {
		if (*(int*)o == 0) { *(int*)o = 2; f(); }
		return 0;
	}
	t_inside++;
	tick(6);
	if (!g_guards) g_guards = new std::unordered_map<const void*, int>();
	while ((*g_guards)[o]) block(o);
	acquire(o);
	if (*(int*)o == 0) {
		(*g_guards)[o] = t_self->slot;
		t_inside--;
		try {
			f();
		} catch (...) {
			t_inside++;
			(*g_guards)[o] = 0;
			wake(o);
			t_inside--;
			throw;
		}
		t_inside++;
		*(int*)o = 2;
		(*g_guards)[o] = 0;
		release(o);
		wake(o);
	}
	t_inside--;
	return 0;
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
	if (!live()) return __real___cxa_guard_acquire(g);
	t_inside++;
	tick(6);
	if (!g_guards) g_guards = new std::unordered_map<const void*, int>();
	while ((*g_guards)[g]) {
		if ((*g_guards)[g] == t_self->slot) sim::violate("deadlock", "recursive initialisation of a static object");
		block(g);
	}
	acquire(g);
	int need = *(volatile char*)g == 0;
	if (need) (*g_guards)[g] = t_self->slot;
	t_inside--;
	return need;
}
void __wrap___cxa_guard_release(void* g)
{
	if (!live()) return __real___cxa_guard_release(g);
	t_inside++;
	*(volatile char*)g = 1;
	(*g_guards)[g] = 0;
	release(g);
	wake(g);
	tick(6);
	t_inside--;
}
void __wrap___cxa_guard_abort(void* g)
{
	if (!live()) return __real___cxa_guard_abort(g);
	t_inside++;
	(*g_guards)[g] = 0;
	wake(g);
	tick(6);
	t_inside--;
}

// ---------------------------------------------------------------- block operations
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (live()) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (live()) access(d, n, true, PC); return __real_memset(d, c, n); }

// ---------------------------------------------------------------- memory
// The allocator is replaced for the whole process, so that memory handed out by the
// C++ library to one thread after another is not mistaken for shared memory.
extern char __etext;
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* fresh(void* p)
{
	if (p && g_active && t_self) {
		int before = t_inside++;
		clearRange(p, malloc_usable_size(p));
		t_inside = before;
	}
	return p;
}
static void ends(void* p, void* pc)
{
	// the end of an object conflicts with any unordered use of it; the library's own
	// memory is kept by reference counts that cannot be seen here
	if (p && live() && (char*)pc >= &__executable_start && (char*)pc < &__etext) access(p, std::min<size_t>(malloc_usable_size(p), 256), true, pc);
}
static void release_(void* p, void* pc)
{
	ends(p, pc);
	fresh(p); // whoever gets it next starts anew
	__libc_free(p);
}
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { return (*p = fresh(__libc_memalign(a, n))) ? 0 : ENOMEM; }
void* realloc(void* p, size_t n)
{
	ends(p, PC);
	return fresh(__libc_realloc(p, n));
}
void free(void* p) { release_(p, PC); }

// ---------------------------------------------------------------- streams
std::ostream& __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream&, const char*, std::streamsize);
std::ostream& __wrap__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream& o, const char* s, std::streamsize n)
{
	if (live() && &o != &std::cout && &o != &std::cerr && &o != &std::clog) access(&o, 8, true, PC);
	return __real__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(o, s, n);
}
std::ostream& __real__ZNSo5flushEv(std::ostream*);
std::ostream& __wrap__ZNSo5flushEv(std::ostream* o)
{
	if (live() && o != &std::cout && o != &std::cerr && o != &std::clog) access(o, 8, true, PC);
	return __real__ZNSo5flushEv(o);
}
}

static void* newOp(size_t n, size_t align)
{
	void* p = align > 16 ? __libc_memalign(align, n ? n : 1) : __libc_malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return fresh(p);
}
void* operator new(size_t n) { return newOp(n, 0); }
void* operator new[](size_t n) { return newOp(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return newOp(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return newOp(n, (size_t)a); }
void operator delete(void* p) noexcept { release_(p, PC); }
void operator delete[](void* p) noexcept { release_(p, PC); }
void operator delete(void* p, size_t) noexcept { release_(p, PC); }
void operator delete[](void* p, size_t) noexcept { release_(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release_(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release_(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { release_(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { release_(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release_(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release_(p, PC); }
