#include <futils/dynmbox.h>
static char buf[DYNMBOX_MAX_SIZE];
int use(struct dynmbox *b)
{
	ssize_t n = dynmbox_peek(b, buf);
	uint32_t timeout = 3;
	return n < 0 ? (int)n : dynmbox_push_block(b, buf, (size_t)n, timeout);
}
