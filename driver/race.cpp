// Stands in for the OpenMP and thread-sanitizer runtimes.  A parallel loop is executed by many
// virtual threads, one after the other in a chosen order, and every memory access made in it is noted
// with the thread and the lock held.  What is handed to the specification is, for each piece of
// memory that several threads touched, who read and who wrote it.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <string>
#include <set>
#include <vector>
#include <algorithm>
#include <sys/mman.h>
#include <sys/single_threaded.h>

extern "C" { void __libc_free(void*); void* __libc_malloc(size_t); }
namespace {
    const int NT = 256;
    struct Rec { int16_t t; uint8_t w, m; uint32_t l; const void* pc; };
    struct Cell { uintptr_t key; int n; Rec r[8]; };
    Cell* table = 0; size_t cap = 0, used = 0;
    bool on = false, busy = false, unsupported = false;
    int depth = 0, me = 0, num = 0, threads = 1, order = 0;   // me: who is noted, num: number within the team
    uint32_t lock = 0;
    char* base = 0;               // frames below this one belong to the virtual thread
    std::vector<void*>* deferred = 0;
    std::set<std::string>* patterns = 0; std::set<std::string>* sites = 0;
    int guards = 0;
    long regions = 0, cells = 0, accesses = 0;
    long loop_next = 0, loop_end = 0, loop_incr = 1;
    std::vector<int>* singles = 0;
    int single_no = 0;

    Cell* alloc(size_t n) { return (Cell*) mmap(0, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    size_t hash(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ull) >> 20; }
    Cell* find(uintptr_t key) {
        if(used * 2 >= cap) {
            size_t nc = cap ? cap * 2 : 1 << 14; Cell* nt = alloc(nc);
            for(size_t i = 0; i < cap; i++) if(table[i].n) { size_t j = hash(table[i].key) & (nc - 1); while(nt[j].n) j = (j + 1) & (nc - 1); nt[j] = table[i]; }
            if(table) munmap(table, cap * sizeof(Cell));
            table = nt; cap = nc;
        }
        size_t j = hash(key) & (cap - 1);
        while(table[j].n && table[j].key != key) j = (j + 1) & (cap - 1);
        if(!table[j].n) { table[j].key = key; used++; }
        return &table[j];
    }
    void word(uintptr_t key, uint8_t mask, bool w, uint32_t l, const void* pc) {
        Cell* c = find(key);
        int same = 0;
        for(int i = 0; i < c->n; i++) {
            Rec& r = c->r[i];
            if(r.w == w && r.l == l && r.m == mask) { if(r.t == me) return; same++; }
        }
        if(same >= 2 || c->n == 8) return;    // two threads of a kind stand for all
        c->r[c->n++] = Rec{(int16_t) me, w, mask, l, pc};
    }
    inline void access(const void* p, size_t n, bool w, uint32_t l, const void* pc) {
        if(!on || !depth || busy || guards || n == 0) return;
        char here; uintptr_t a = (uintptr_t) p;
        if(a < (uintptr_t) base && a >= (uintptr_t) &here) return;
        accesses++;
        uintptr_t e = a + n;
        for(uintptr_t k = a >> 2; k <= (e - 1) >> 2; k++) {
            uint8_t m = 0;
            for(int b = 0; b < 4; b++) { uintptr_t x = (k << 2) + b; if(x >= a && x < e) m |= 1 << b; }
            word(k, m, w, l, pc);
        }
    }
    void harvest() {
        busy = true;
        for(size_t i = 0; i < cap; i++) {
            Cell& c = table[i];
            if(!c.n) continue;
            bool shared = false;
            for(int k = 1; k < c.n; k++) shared = shared || c.r[k].t != c.r[0].t;
            if(shared) {
                cells++;
                bool clash = false;
                for(int a = 0; a < c.n; a++) for(int b = 0; b < c.n; b++)
                    if(c.r[a].t != c.r[b].t && (c.r[a].m & c.r[b].m) && (c.r[a].w || c.r[b].w) && (c.r[a].l != c.r[b].l || !c.r[a].l)) clash = true;
                std::vector<int> ids; std::string s = "[";
                for(int k = 0; k < c.n; k++) {
                    size_t id = std::find(ids.begin(), ids.end(), c.r[k].t) - ids.begin();
                    if(id == ids.size()) ids.push_back(c.r[k].t);
                    char b[160];
                    snprintf(b, sizeof b, "%s{\"t\":%d,\"w\":%s,\"l\":%u,\"m\":[%d,%d,%d,%d],\"pc\":\"%lx\"}", k ? "," : "", (int) id, c.r[k].w ? "true" : "false", c.r[k].l,
                        c.r[k].m & 1, c.r[k].m >> 1 & 1, c.r[k].m >> 2 & 1, c.r[k].m >> 3 & 1, clash ? (unsigned long) c.r[k].pc : 0ul);
                    s += b;
                }
                if(patterns->size() < 60 || clash) patterns->insert(s + "]");
            }
        }
        if(table) { munmap(table, cap * sizeof(Cell)); table = 0; cap = used = 0; }
        busy = false;
    }
    void release() {
        std::vector<void*>* d = deferred; deferred = 0;
        if(d) { for(void* p : *d) __libc_free(p); delete d; }
    }
    // the region: every virtual thread in turn
    extern "C" char __executable_start;
    void run(void (*fn)(void*), void* data, unsigned want, char* frame) {
        if(on && sites) { char b[32]; snprintf(b, sizeof b, "\"%lx\"", (unsigned long) ((char*) fn - &__executable_start)); busy = true; sites->insert(b); busy = false; }
        if(depth || !on) {
            // not watched, or within another region, which gives a team of one
            int sn = num, st = threads; long a = loop_next, b = loop_end, c = loop_incr; num = 0; threads = 1; depth++;
            bool so = on; if(depth == 1) on = false;
            fn(data);
            on = so; depth--; num = sn; threads = st; loop_next = a; loop_end = b; loop_incr = c;
            return;
        }
        regions++;
        int n = want ? (int) want : NT;
        std::vector<int> seq(n);
        for(int i = 0; i < n; i++) seq[i] = order == 1 ? n - 1 - i : order == 2 ? (int) ((i * 97L + 41) % n) : i;
        if(order == 2) { std::vector<int> s(seq); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); if((int) s.size() != n) for(int i = 0; i < n; i++) seq[i] = i; }
        deferred = new std::vector<void*>(); singles = new std::vector<int>();
        base = frame; threads = n; lock = 0;
        long l0 = loop_next;
        struct Leave { ~Leave() { depth = 0; me = num = 0; threads = 1; lock = 0; harvest(); release(); delete singles; singles = 0; } } leave;
        for(int k = 0; k < n; k++) { me = num = seq[k]; single_no = 0; loop_next = l0; depth = 1; fn(data); depth = 0; }
        depth = 1;
    }
    bool next(long* s, long* e) {
        // iterations are dealt out one by one
        if(threads == 1) { if(loop_incr > 0 ? loop_next >= loop_end : loop_next <= loop_end) return false; *s = loop_next; *e = loop_end; loop_next = loop_end; return true; }
        while(loop_incr > 0 ? loop_next < loop_end : loop_next > loop_end) {
            long i = loop_next; loop_next += loop_incr;
            // loop_first is kept in the thread's own copy of loop_next at the start
            if((i / loop_incr % threads + threads) % threads == num) { *s = i; *e = i + loop_incr; return true; }
        }
        return false;
    }
}
void race_begin() { __libc_single_threaded = 0; on = true; if(!patterns) { patterns = new std::set<std::string>(); sites = new std::set<std::string>(); } patterns->clear(); sites->clear(); regions = cells = accesses = 0; unsupported = false; }
void race_order(int k) { order = k; }
std::string race_end() {
    on = false;
    std::string s = "{\"regions\":" + std::to_string(regions) + ",\"shared\":" + std::to_string(cells) + ",\"accesses\":" + std::to_string(accesses) + ",\"watched\":" + (unsupported ? "false" : "true") + ",\"cells\":[";
    bool f = true;
    if(patterns) for(auto& p : *patterns) { if(!f) s += ","; f = false; s += p; }
    s += "],\"sites\":["; f = true;
    if(sites) for(auto& p : *sites) { if(!f) s += ","; f = false; s += p; }
    return s + "]}";
}
static void copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
extern "C" {
void free(void* p) { if(!p) return; if(depth && deferred && !busy) { busy = true; deferred->push_back(p); busy = false; } else __libc_free(p); }
void* realloc(void* p, size_t n) {
    if(!p) return __libc_malloc(n);
    size_t o = malloc_usable_size(p); if(n <= o && n) return p;
    void* q = __libc_malloc(n ? n : 1); copy(q, p, o < n ? o : n); free(p); return q;
}
// the initialization of a local static happens before every use of it
int __cxa_guard_acquire(char* g) { if(*g) return 0; guards++; return 1; }
void __cxa_guard_release(char* g) { *g = 1; guards--; }
void __cxa_guard_abort(char*) { guards--; }
#define PC __builtin_return_address(0)
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { access(s, n, false, lock, PC); access(d, n, true, lock, PC); copy(d, s, n); return d; }
void* memset(void* d, int c, size_t n) { access(d, n, true, lock, PC); void* q = d; asm volatile("rep stosb" : "+D"(q), "+c"(n) : "a"(c) : "memory"); return d; }
void* memmove(void* d, const void* s, size_t n) {
    access(s, n, false, lock, PC); access(d, n, true, lock, PC);
    if(d <= s || (char*) d >= (const char*) s + n) copy(d, s, n);
    else { char* q = (char*) d + n - 1; const char* p = (const char*) s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(q), "+S"(p), "+c"(n) : : "memory"); }
    return d;
}
void* __memmove_chk(void* d, const void* s, size_t n, size_t) { return memmove(d, s, n); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run(fn, data, n, (char*) __builtin_frame_address(0)); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { unsupported = true; int k = depth; (void) k; run(fn, data, 1, (char*) __builtin_frame_address(0)); return 1; }
#define PLOOP(name) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long, unsigned) { loop_next = s; loop_end = e; loop_incr = i; run(fn, data, n, (char*) __builtin_frame_address(0)); }
#define PLOOP0(name) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { loop_next = s; loop_end = e; loop_incr = i; run(fn, data, n, (char*) __builtin_frame_address(0)); }
PLOOP(GOMP_parallel_loop_static) PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
PLOOP0(GOMP_parallel_loop_runtime) PLOOP0(GOMP_parallel_loop_nonmonotonic_runtime) PLOOP0(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define START(name) bool name(long s, long e, long i, long, long* a, long* b) { loop_next = s; loop_end = e; loop_incr = i; return next(a, b); }
START(GOMP_loop_static_start) START(GOMP_loop_dynamic_start) START(GOMP_loop_guided_start) START(GOMP_loop_nonmonotonic_dynamic_start) START(GOMP_loop_nonmonotonic_guided_start)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { loop_next = s; loop_end = e; loop_incr = i; return next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { loop_next = s; loop_end = e; loop_incr = i; return next(a, b); }
#define NEXT(name) bool name(long* a, long* b) { return next(a, b); }
NEXT(GOMP_loop_static_next) NEXT(GOMP_loop_dynamic_next) NEXT(GOMP_loop_guided_next) NEXT(GOMP_loop_runtime_next) NEXT(GOMP_loop_nonmonotonic_dynamic_next) NEXT(GOMP_loop_nonmonotonic_guided_next) NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
typedef unsigned long long ull;
static bool unext(ull* a, ull* b) { long s, e; if(!next(&s, &e)) return false; *a = (ull) s; *b = (ull) e; return true; }
#define USTART(name) bool name(bool up, ull s, ull e, ull i, ull, ull* a, ull* b) { (void) up; loop_next = (long) s; loop_end = (long) e; loop_incr = (long) i; return unext(a, b); }
USTART(GOMP_loop_ull_dynamic_start) USTART(GOMP_loop_ull_guided_start) USTART(GOMP_loop_ull_static_start) USTART(GOMP_loop_ull_nonmonotonic_dynamic_start) USTART(GOMP_loop_ull_nonmonotonic_guided_start)
#define UNEXT(name) bool name(ull* a, ull* b) { return unext(a, b); }
UNEXT(GOMP_loop_ull_dynamic_next) UNEXT(GOMP_loop_ull_guided_next) UNEXT(GOMP_loop_ull_static_next) UNEXT(GOMP_loop_ull_nonmonotonic_dynamic_next) UNEXT(GOMP_loop_ull_nonmonotonic_guided_next)
void GOMP_loop_end() { if(threads > 1) unsupported = true; }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { if(threads > 1) unsupported = true; }
bool GOMP_single_start() { int k = single_no++; if(threads == 1 || !singles) return true; if((int) singles->size() > k) return false; singles->push_back(me); return true; }
void GOMP_critical_start() { lock = 1; }
void GOMP_critical_end() { lock = 0; }
void GOMP_critical_name_start(void** p) { lock = 16 + (uint32_t) ((uintptr_t) p >> 3) % 1000000; }
void GOMP_critical_name_end(void**) { lock = 0; }
void GOMP_atomic_start() { lock = 2; }
void GOMP_atomic_end() { lock = 0; }
int omp_get_thread_num() { return num; }
int omp_get_num_threads() { return threads; }
int omp_get_max_threads() { return depth ? threads : NT; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return depth > 0 && threads > 1; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return depth; }
double omp_get_wtime() { return 0; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** p) { lock = 16 + (uint32_t) ((uintptr_t) p >> 3) % 1000000; }
void omp_unset_lock(void**) { lock = 0; }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, lock, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, lock, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, lock, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, lock, PC); }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, lock, PC); } void __tsan_write##n(void* p) { access(p, n, true, lock, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, lock, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, lock, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, lock, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, lock, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define A(p, T, w) access((const void*) p, sizeof(T), w, 3, PC)
#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int) { A(p, T, false); return *p; } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { A(p, T, true); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { A(p, T, true); T o = *p; *p = o ^ v; return o; } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { A(p, T, true); if(*p == *c) { *p = v; return true; } *c = *p; return false; } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { A(p, T, true); if(*p == *c) { *p = v; return true; } *c = *p; return false; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { A(p, T, true); T o = *p; if(o == c) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
}
