/* Run-time part of the "cov" build: counts, per thread, while switched on,
 * basic blocks executed and bytes moved by the code under test, how often it
 * reads each byte of the stream, and the memory it holds. */
#include <stddef.h>
#include <stdint.h>

static __thread int on;
static __thread uint64_t blocks, moved;
static __thread int64_t live, peak;
static __thread const uint8_t *lo, *hi;
static __thread uint32_t *reads;

void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; blocks += on; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }

static inline void rd(const void *p, size_t n) {
    const uint8_t *b = p;
    if (!on || !reads || b >= hi || b + n <= lo) return;
    for (size_t i = 0; i < n; i++)
        if (b + i >= lo && b + i < hi) reads[b + i - lo]++;
}
void __sanitizer_cov_load1(uint8_t *p) { rd(p, 1); }
void __sanitizer_cov_load2(uint16_t *p) { rd(p, 2); }
void __sanitizer_cov_load4(uint32_t *p) { rd(p, 4); }
void __sanitizer_cov_load8(uint64_t *p) { rd(p, 8); }
void __sanitizer_cov_load16(void *p) { rd(p, 16); }

void *memcpy(void *d, const void *s, size_t n) {
    void *r = d;
    if (on) { moved += n; rd(s, n); }
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memset(void *d, int c, size_t n) {
    void *r = d;
    if (on) moved += n;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    if ((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n);
    if (on) { moved += n; rd(s, n); }
    uint8_t *a = (uint8_t *)d + n - 1;
    const uint8_t *b = (const uint8_t *)s + n - 1;
    __asm__ volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    if (on) { moved += n; rd(a, n); rd(b, n); }
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

void cost_alloc(size_t n) {
    if (!on) return;
    live += n;
    if (live > peak) peak = live;
}
void cost_free(size_t n) { if (on) live -= n; }

/* a stream begins */
void cost_stream(const uint8_t *d, size_t n, uint32_t *r) { lo = d; hi = d + n; reads = r; }
/* a call begins, given what the chunker holds */
void cost_begin(int64_t held) { blocks = moved = 0; live = peak = held; on = 1; }
void cost_end(uint64_t out[2], int64_t mem[2]) {
    on = 0;
    out[0] = blocks;
    out[1] = moved;
    mem[0] = live;
    mem[1] = peak;
}
