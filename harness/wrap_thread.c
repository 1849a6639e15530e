/* Every thread the library starts is delayed by a chosen amount, on either side. */
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <time.h>
static __thread unsigned t_rng = 12345;
int g_delay_on; long g_threads_started;
void wrap_thread_seed(unsigned s) { t_rng = s | 1; }
static unsigned rnd(void) { t_rng ^= t_rng << 13; t_rng ^= t_rng >> 17; t_rng ^= t_rng << 5; return t_rng; }
static void pause_some(unsigned r)
{
    if (r % 8 == 0) { struct timespec ts = {0, (long) (r / 8 % 60) * 1000}; nanosleep(&ts, 0); }
    else for (unsigned i = 0; i < r / 8 % 6; i++) sched_yield();
}
struct start { void *(*f)(void *); void *a; unsigned r; };
static void *go(void *p) { struct start s = *(struct start *) p; free(p); wrap_thread_seed(s.r); pause_some(s.r); return s.f(s.a); }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    if (!g_delay_on) return __real_pthread_create(t, at, f, a);
    struct start *s = malloc(sizeof *s); s->f = f; s->a = a; s->r = rnd(); unsigned mine = rnd();
    __atomic_fetch_add(&g_threads_started, 1, __ATOMIC_RELAXED);
    int rc = __real_pthread_create(t, at, go, s);
    if (rc) free(s); else if (mine & 1) pause_some(mine >> 1);
    return rc;
}
