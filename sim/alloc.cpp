/* Simulated heap for the compiled component (LD_PRELOAD).
 *
 * Off until simheap_enable(1).  Then every operator new, and every malloc called
 * from the component's text, is served from an arena with guard zones, chosen
 * initial contents and (without reuse) quarantine; the k-th allocation of the
 * component can be made to fail.
 */
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <sys/mman.h>

extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }

namespace {
const size_t ARENA = 3ull << 30, RZ = 64, MAXB = 4u << 20;
struct block { char *p; uint32_t size, cap; uint8_t live, poisoned; uint32_t next; };
char *arena = 0; size_t used = 0;
block *tab = 0; size_t nb = 0;
uint32_t freelist[4096];
unsigned long lo1, hi1, lo2, hi2;
int enabled = 0, fillmode = 0, reuse = 0, persist = 0;
unsigned long seed = 1; long armed = 0, count = 0, live = 0, errors = 0;
size_t scan_from = 0;
char rep[2048];
volatile int lck = 0;
struct guard { guard() { while (__sync_lock_test_and_set(&lck, 1)) {} } ~guard() { __sync_lock_release(&lck); } };

void err(const char *what, size_t size, long off) {
    if (errors++ < 4) {
        size_t n = strlen(rep);
        snprintf(rep + n, sizeof rep - n, "%s%s (block of %zu bytes, offset %ld)", n ? "; " : "", what, size, off);
    }
}
unsigned char rzb(const char *p) {
    /* what lies next to a block: now and then something that could be taken for data */
    uintptr_t a = (uintptr_t) p;
    double one = 1.;
    if (fillmode == 0 && seed % 2) return 0;
    if (fillmode == 4) return ((unsigned char *) &one)[a % 8];
    if (fillmode == 5) return a % 4 ? 0 : (a >> 2) * 7 % 3;
    return (unsigned char) (0xA5 ^ (seed * 37) ^ ((uintptr_t) p >> 3)); }
unsigned char pz() { return (unsigned char) (0xDB ^ (seed * 11)); }
uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void fill(char *p, size_t n, size_t idx) {
    switch (fillmode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: for (size_t i = 0; i < n; i++) p[i] = (char) mix(seed * 1000003 + idx * 7919 + i); break;
    case 3: for (size_t i = 0; i < n; i++) p[i] = (i % 8 == 7) ? 0x7E : 0x11; break;          /* huge numbers */
    case 4: { double one = 1.; for (size_t i = 0; i < n; i++) p[i] = ((char *) &one)[i % 8]; break; }
    case 5: for (size_t i = 0; i < n; i++) p[i] = (i % 4 == 0) ? (seed % 2 ? 3 : (char) (mix(seed + i / 4) % 4)) : 0; break;                 /* small integers */
    default: memset(p, 0x5A, n);
    }
}
void rz(block &b) {
    char *q = b.p - RZ; for (size_t i = 0; i < RZ; i++) q[i] = (char) rzb(q + i);
    for (q = b.p + b.size; q < b.p + b.cap + RZ; q++) *q = (char) rzb(q);
}
void check_rz(block &b) {
    char *q = b.p - RZ;
    for (size_t i = 0; i < RZ; i++) if ((unsigned char) q[i] != rzb(q + i)) { err("write before a block", b.size, (long) i - (long) RZ); break; }
    for (q = b.p + b.size; q < b.p + b.cap + RZ; q++) if ((unsigned char) *q != rzb(q)) { err("write past a block", b.size, q - b.p); break; }
}
long find(void *p) {
    size_t a = 0, b = nb;
    while (a < b) { size_t m = (a + b) / 2; if (tab[m].p < (char *) p) a = m + 1; else b = m; }
    return a < nb && tab[a].p == p ? (long) a : -1;
}
bool mine(void *p) { return arena && (char *) p >= arena && (char *) p < arena + ARENA; }
bool component(void *ra) { unsigned long r = (unsigned long) ra; return (r >= lo1 && r < hi1) || (r >= lo2 && r < hi2); }

void *alloc(size_t n, bool failable, bool *failed) {
    guard g;
    *failed = false;
    if (failable) {
        count++;
        if (armed && (persist ? count >= armed : count == armed)) { *failed = true; return 0; }
    }
    if (n > (1u << 28)) return 0;
    size_t cap = (n + 15) & ~(size_t) 15;
    if (cap == 0) cap = 16;
    long i = -1;
    if (reuse && cap / 16 < 4096 && freelist[cap / 16]) { i = freelist[cap / 16] - 1; freelist[cap / 16] = tab[i].next; }
    if (i < 0) {
        if (used + cap + 2 * RZ > ARENA || nb >= MAXB) return 0;
        i = nb++;
        tab[i].p = arena + used + RZ; tab[i].cap = cap; used += cap + 2 * RZ;
        tab[i].size = n; fill(tab[i].p, n, i);
    } else {
        tab[i].size = n;
        if (reuse == 2) fill(tab[i].p, n, i + count);
    }
    tab[i].live = 1; tab[i].poisoned = 0;
    rz(tab[i]);
    live += n;
    return tab[i].p;
}
void release(void *p) {
    guard g;
    long i = find(p);
    if (i < 0) { err("release of something that was never allocated", 0, (char *) p - arena); return; }
    if (!tab[i].live) { err("second release", tab[i].size, 0); return; }
    check_rz(tab[i]);
    tab[i].live = 0; live -= tab[i].size;
    if (reuse) { size_t c = tab[i].cap / 16; if (c < 4096) { tab[i].next = freelist[c]; freelist[c] = i + 1; } }
    else { memset(tab[i].p, pz(), tab[i].size); tab[i].poisoned = 1; }
}
int phdr(struct dl_phdr_info *i, size_t, void *) {
    if (strstr(i->dlpi_name, "libstdc++")) {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            unsigned long a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            if (a < lo2) lo2 = a;
            if (b > hi2) hi2 = b;
        }
    }
    return 0;
}
void *opnew(size_t n, void *ra, bool nothrow) {
    if (enabled) {
        bool f;
        void *p = alloc(n, component(ra), &f);
        if (p) return p;
        if (f) { if (nothrow) return 0; throw std::bad_alloc(); }
    }
    void *p = __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void del(void *p) { if (!p) return; if (mine(p)) release(p); else __libc_free(p); }
}

extern "C" {
void simheap_setup(unsigned long lo, unsigned long hi, int f, unsigned long s, int r) {
    lo1 = lo; hi1 = hi; lo2 = ~0ul; hi2 = 0; dl_iterate_phdr(phdr, 0);
    fillmode = f; seed = s; reuse = r;
    arena = (char *) mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tab = (block *) mmap(0, sizeof(block) * (size_t) MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || tab == MAP_FAILED) abort();
}
void simheap_enable(int e) { enabled = e; }
void simheap_arm(long k, int p) { armed = k; persist = p; count = 0; }
long simheap_count() { return count; }
long simheap_live() { return live; }
long simheap_errors() { return errors; }
const char *simheap_report() { return rep; }
void simheap_check() {
    guard g;
    for (size_t i = 0; i < nb; i++) {
        if (tab[i].live) check_rz(tab[i]);
        else if (tab[i].poisoned) {
            for (size_t k = 0; k < tab[i].size; k++) if ((unsigned char) tab[i].p[k] != pz()) { err("write to a released block", tab[i].size, k); tab[i].poisoned = 0; break; }
            if (tab[i].poisoned) check_rz(tab[i]);
        }
    }
    if (!reuse) {   /* keep the scan short: forget old clean quarantine */
        size_t k = nb > 60000 ? nb - 60000 : 0;
        for (size_t i = scan_from; i < k; i++) tab[i].poisoned = 0;
        scan_from = k;
    }
}
void *malloc(size_t n) {
    if (enabled && component(__builtin_return_address(0)) && !((unsigned long) __builtin_return_address(0) >= lo2 && (unsigned long) __builtin_return_address(0) < hi2)) {
        bool f; void *p = alloc(n, true, &f);
        if (p || f) return p;
    }
    return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
    unsigned long ra = (unsigned long) __builtin_return_address(0);
    if (enabled && ra >= lo1 && ra < hi1) {
        bool f; void *p = alloc(a * b, true, &f);
        if (p) memset(p, 0, a * b);
        if (p || f) return p;
    }
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
    unsigned long ra = (unsigned long) __builtin_return_address(0);
    if (p && mine(p)) {
        bool f; void *q = alloc(n, true, &f);
        if (!q) return 0;
        long i = find(p);
        if (i >= 0) memcpy(q, p, tab[i].size < n ? tab[i].size : n);
        release(p);
        return q;
    }
    if (!p && enabled && ra >= lo1 && ra < hi1) return malloc(n);
    return __libc_realloc(p, n);
}
void free(void *p) { if (p && mine(p)) release(p); else __libc_free(p); }
}
void *operator new(size_t n) { return opnew(n, __builtin_return_address(0), false); }
void *operator new[](size_t n) { return opnew(n, __builtin_return_address(0), false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return opnew(n, __builtin_return_address(0), true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return opnew(n, __builtin_return_address(0), true); }
void operator delete(void *p) noexcept { del(p); }
void operator delete[](void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }
void operator delete[](void *p, size_t) noexcept { del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del(p); }
