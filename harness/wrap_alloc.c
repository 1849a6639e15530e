/* Allocation faults: while armed, allocation number g_fail_at (and, with
   g_fail_rest, every later one) of the chosen thread kind returns NULL; live
   blocks allocated while armed are tracked. Thread kind 0: the thread that armed;
   1: any other thread. Creating a thread is fault point kind 2. */
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int g_al_on, g_fail_kind, g_fail_rest; long g_fail_at = -1, g_al_count[3], g_failed, g_live_n;
long g_fail2_at = -1; int g_fail2_kind;
const char *g_al_bad;
static pthread_t owner;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
#define CAP 65536
static struct { void *p; size_t n; } live[CAP];
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static unsigned slot(void *p) { return (unsigned) (((unsigned long) p >> 4) * 2654435761u) % CAP; }
static void add(void *p, size_t n) { unsigned s = slot(p); while (live[s].p && live[s].p != (void *) 1) s = (s + 1) % CAP; live[s].p = p; live[s].n = n; g_live_n++; }
static int del(void *p) { unsigned s = slot(p); for (int k = 0; k < CAP && live[s].p; k++, s = (s + 1) % CAP) if (live[s].p == p) { live[s].p = (void *) 1; g_live_n--; return 1; } return 0; }
void al_arm(int kind, long at, int rest) { owner = pthread_self(); memset(live, 0, sizeof live); g_live_n = 0; g_fail_kind = kind; g_fail_at = at; g_fail_rest = rest; g_al_count[0] = g_al_count[1] = g_al_count[2] = g_failed = 0; g_al_bad = 0; g_al_on = 1; }
void al_disarm(void) { g_al_on = 0; g_fail_at = g_fail2_at = -1; }
void al_nofail(void) { pthread_mutex_lock(&mx); g_fail_at = g_fail2_at = -1; g_fail_rest = 0; pthread_mutex_unlock(&mx); }
static int fails(int kind)
{
    long c = g_al_count[kind]++;
    if ((g_fail_at >= 0 && kind == g_fail_kind && (c == g_fail_at || (g_fail_rest && c > g_fail_at))) || (g_fail2_at >= 0 && kind == g_fail2_kind && c == g_fail2_at)) { g_failed++; return 1; }
    return 0;
}
static int me(void) { return pthread_equal(pthread_self(), owner) ? 0 : 1; }
void *__wrap_malloc(size_t n) { if (!g_al_on) return __real_malloc(n); pthread_mutex_lock(&mx); void *p = 0; if (!fails(me())) { p = __real_malloc(n); if (p) add(p, n); } else errno = ENOMEM; pthread_mutex_unlock(&mx); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!g_al_on) return __real_calloc(a, b); pthread_mutex_lock(&mx); void *p = 0; if (!fails(me())) { p = __real_calloc(a, b); if (p) add(p, a * b); } else errno = ENOMEM; pthread_mutex_unlock(&mx); return p; }
void *__wrap_realloc(void *q, size_t n) { if (!g_al_on) return __real_realloc(q, n); pthread_mutex_lock(&mx); void *p = 0; if (!fails(me())) { if (q) del(q); p = __real_realloc(q, n); if (p) add(p, n); } else errno = ENOMEM; pthread_mutex_unlock(&mx); return p; }
void __wrap_free(void *p) { if (!g_al_on) { __real_free(p); return; } pthread_mutex_lock(&mx); if (p && !del(p)) g_al_bad = "free of a block that is not live"; __real_free(p); pthread_mutex_unlock(&mx); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    if (g_al_on) { pthread_mutex_lock(&mx); int bad = fails(2); pthread_mutex_unlock(&mx); if (bad) return EAGAIN; }
    return __real_pthread_create(t, a, f, x);
}
