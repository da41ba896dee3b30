#include <stdint.h>
// linked with -Wl,--wrap=llrt_xxh_seed: every hasher gets the same seed
uint64_t __wrap_llrt_xxh_seed(void) { return 0x9E3779B97F4A7C15ull; }
