#include <stdint.h>
uint8_t *g_cov_start, *g_cov_stop;
/* one contiguous section for all library objects */
void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) { g_cov_start = start; g_cov_stop = stop; }
