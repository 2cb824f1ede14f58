#include <futils/varint.h>
int use(void)
{
	uint8_t b[16] = {0}; size_t n; uint16_t v; int64_t w;
	return futils_varint_write_u16(b, sizeof(b), 3, &n) + futils_varint_read_u16(b, n, &v, &n) + futils_varint_write_i64(b, sizeof(b), -3, &n)
		+ futils_varint_read_i64(b, n, &w, &n);
}
