/* stands in for libc's rand()/srand() in trials: an arbitrary random stream, its extremes included */
#include <stdlib.h>
static unsigned long long s = 88172645463325252ULL;
static int mode = 0;
void vp_rand(int m, unsigned long long seed) { mode = m; s = seed * 2685821657736338717ULL + 88172645463325252ULL; if (!s) s = 1; }
static unsigned long long next(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
void srand(unsigned int x) { if (!mode) { s = x * 2685821657736338717ULL + 1442695040888963407ULL; if (!s) s = 1; } }
int rand(void)
{
    unsigned long long r = next();
    if (mode == 1) {
        if ((r >> 40) % 6 == 0) return 0;
        if ((r >> 40) % 6 == 1) return RAND_MAX;
    }
    if (mode == 2) return (r >> 41) & 1 ? RAND_MAX : 0;
    return (int) ((r >> 20) & 0x7fffffff);
}
