#include <futils/random.h>
int use(void *p, size_t n)
{
	uint8_t a; uint16_t b; uint32_t c; uint64_t d;
	return futils_random_bytes(p, n) + futils_random8(&a) + futils_random16(&b) + futils_random32(&c) + futils_random64(&d)
		+ futils_random8_maximum(&a, 3) + futils_random16_maximum(&b, 3) + futils_random32_maximum(&c, 3) + futils_random64_maximum(&d, 3);
}
