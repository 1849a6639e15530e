/* Counts the control-flow edges the library executes; past g_step_limit it gives up. */
#include <stdint.h>
#include <stdlib.h>
#include <pthread.h>
uint64_t g_steps, g_step_limit = ~0ull; int g_steps_on;
void (*g_step_overrun)(void);
static pthread_t g_main;
__attribute__((constructor)) static void start(void) { g_main = pthread_self(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    (void) g;
    if (g_steps_on && __atomic_add_fetch(&g_steps, 1, __ATOMIC_RELAXED) > g_step_limit && pthread_equal(pthread_self(), g_main)) { g_steps_on = 0; g_step_overrun(); }
}
/* block operations of the C library count one step per 16 bytes */
#define TALLY(n) do { if (g_steps_on && __atomic_add_fetch(&g_steps, 1 + (uint64_t) (n) / 16, __ATOMIC_RELAXED) > g_step_limit && pthread_equal(pthread_self(), g_main)) { g_steps_on = 0; g_step_overrun(); } } while (0)
void *__real_memcpy(void *d, const void *s, size_t n); void *__real_memmove(void *d, const void *s, size_t n); void *__real_memset(void *d, int c, size_t n); void *__real_realloc(void *p, size_t n);
void __real_qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *));
void *__wrap_memcpy(void *d, const void *s, size_t n) { TALLY(n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { TALLY(n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { TALLY(n); return __real_memset(d, c, n); }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); TALLY(n); return q; }
void __wrap_qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) { TALLY(n * s); __real_qsort(b, n, s, c); }
