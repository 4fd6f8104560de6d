/* Callbacks of the compiler's comparison instrumentation. While the code
 * under test runs on this thread, the constants it compares values with are
 * recorded; the generators use them as interesting values. */
#include <stddef.h>
#include <stdint.h>

#define SLOTS 8192
static __thread int in_subject;
static volatile uint64_t table[SLOTS];
static volatile int used;

#define STRS 512
static volatile unsigned char strs[STRS][40];
static volatile unsigned char strs_state[STRS];

static uint8_t *cov_start[64], *cov_end[64];
static int cov_n;

static void note(uint64_t v) {
    if (!in_subject || v < 4)
        return;
    uint64_t key = v + 1 ? v : v - 1;
    uint64_t h = key * 0x9E3779B97F4A7C15ull;
    unsigned i = (unsigned)(h >> 51);
    for (int k = 0; k < 16; k++, i = (i + 1) % SLOTS) {
        uint64_t cur = table[i];
        if (cur == key)
            return;
        if (cur == 0) {
            if (__sync_bool_compare_and_swap(&table[i], 0, key))
                __sync_fetch_and_add(&used, 1);
            if (table[i] == key)
                return;
        }
    }
}

void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { note(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { note(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { note(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { note(a); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) {}
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) {}
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) {}
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    if (!in_subject)
        return;
    for (uint64_t i = 0; i < c[0] && i < 64; i++)
        note(c[2 + i]);
}
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
    if (cov_n < 64) {
        cov_start[cov_n] = a;
        cov_end[cov_n] = b;
        cov_n++;
    }
}

static void note_bytes(const unsigned char *p, size_t n) {
    uint64_t h = n * 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i < n; i++)
        h = (h ^ p[i]) * 0x100000001B3ull;
    unsigned i = (unsigned)(h >> 40) % STRS;
    if (strs_state[i] != 0)
        return;
    if (!__sync_bool_compare_and_swap(&strs_state[i], 0, 1))
        return;
    for (size_t k = 0; k < n; k++)
        strs[i][1 + k] = p[k];
    strs[i][0] = (unsigned char)n;
    __sync_synchronize();
    strs_state[i] = 2;
}

extern char __executable_start[], _end[];
static void note_static(const void *x, size_t n) {
    const char *p = x;
    if (p >= __executable_start && p < _end)
        note_bytes(x, n);
}

static int cmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = x, *b = y;
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return 0;
}

/* Slices are compared only if their lengths agree, so that constants (static
 * memory) are seen whole. */
int bcmp(const void *a, const void *b, size_t n) {
    if (in_subject && n >= 2 && n <= 38) {
        note_static(a, n);
        note_static(b, n);
    }
    return cmp(a, b, n);
}
int memcmp(const void *a, const void *b, size_t n) {
    if (in_subject && n >= 2 && n <= 38) {
        note_static(a, n);
        note_static(b, n);
    }
    return cmp(a, b, n);
}

void mon_enter(int on) { in_subject = on; }
size_t mon_dump(uint64_t *out, size_t cap) {
    size_t n = 0;
    for (int i = 0; i < SLOTS && n < cap; i++)
        if (table[i])
            out[n++] = table[i];
    return n;
}
size_t mon_dump_strs(unsigned char *out, size_t cap) {
    size_t n = 0;
    for (int i = 0; i < STRS && (n + 1) * 40 <= cap; i++)
        if (strs_state[i] == 2) {
            for (int k = 0; k < 40; k++)
                out[n * 40 + k] = strs[i][k];
            n++;
        }
    return n;
}
void mon_cov(uint64_t *hit, uint64_t *total) {
    *hit = *total = 0;
    for (int i = 0; i < cov_n; i++)
        for (uint8_t *p = cov_start[i]; p < cov_end[i]; p++) {
            *total += 1;
            *hit += *p != 0;
        }
}
