/* Virtual clock: while armed, clock_gettime called from the linked objects
   advances by g_tick per call and by g_jump at call number g_jump_at. */
#include <time.h>
int g_clock_on; long g_clock_calls, g_jump_at = -1; double g_clock_now, g_tick, g_jump;
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!g_clock_on) return __real_clock_gettime(id, ts);
    if (g_clock_calls++ == g_jump_at) g_clock_now += g_jump;
    g_clock_now += g_tick;
    ts->tv_sec = (time_t) g_clock_now; ts->tv_nsec = (long) ((g_clock_now - (double) ts->tv_sec) * 1e9);
    return 0;
}
