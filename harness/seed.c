/* linked into build/zmdp only: makes a run's random numbers depend on ZV_SEED
   (when set) instead of the time of day, so that recorded runs are reproducible */
#include <stdlib.h>
void srand(unsigned s) { const char *e = getenv("ZV_SEED"); srandom(e ? (unsigned)atoi(e) : s); }
