#include <futils/hash.h>
int use(void)
{
	struct hash h; int x = 0; void *d; const void *c;
	return hash_init(&h, 3) + hash_insert(&h, 1, &x) + hash_insert_const(&h, 2, &x) + hash_lookup(&h, 1, &d) + hash_lookup_const(&h, 2, &c)
		+ hash_remove(&h, 1) + hash_remove_all(&h) + hash_destroy(&h);
}
