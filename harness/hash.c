#include "vf.h"
#include <errno.h>
#include <futils/list.h>
#include <futils/hash.h>

#define MAXN 4
static int freed[8];
static char dat[8];	/* data objects are &dat[i] */

static void on_free(void *d)
{
	for (int i = 0; i < 8; i++) {
		if (d == &dat[i]) {
			freed[i]++;
			return;
		}
	}
	vf_assert(0, "free callback receives the stored data");
}

struct model { uint32_t key[8]; int dat[8]; int isc[8]; int n; };

/* which = 0: one bucket, symbolic keys; 1,2: few buckets, colliding and non colliding keys */
static int size_of_kind(int kind) { return kind == 0 ? 0 : kind == 1 ? 1 : 2; }

static uint32_t new_key(int kind, const struct model *m)
{
	uint32_t k;
	if (kind == 0)
		k = vf_u32("key");
	else
		k = 256u * vf_choose(2, "key high") + vf_choose(2, "key low");
	for (int i = 0; i < m->n; i++)
		vf_assume(k != m->key[i]);
	return k;
}

static void verify(struct hash *h, struct model *m, uint32_t absent)
{
	struct list_node *p;
	struct hash_entry *e;
	int i = 0;
	for (i = 0; i < m->n; i++) {
		const void *cd = NULL;
		void *d = NULL;
		int r = futils_hash_lookup_const(h, m->key[i], &cd);
		vf_assert(r == 0 && cd == &dat[m->dat[i]], "present key is found with its data");
		r = futils_hash_lookup(h, m->key[i], &d);
		if (m->isc[i])
			vf_assert(r == -EPERM && d == NULL, "const data is refused by the mutable lookup");
		else
			vf_assert(r == 0 && d == &dat[m->dat[i]], "present key is found with its data");
	}
	void *d = &d;
	const void *cd = &cd;
	vf_assert(futils_hash_lookup(h, absent, &d) == -ENOENT && d == &d, "absent key is -ENOENT");
	vf_assert(futils_hash_lookup_const(h, absent, &cd) == -ENOENT && cd == &cd, "absent key is -ENOENT");
	i = 0;
	list_walk_forward(&h->entries, p) {
		e = list_entry(p, struct hash_entry, node);
		vf_assert(i < m->n, "entry list has no extra entry");
		vf_assert(e->key == m->key[i], "entry list is in insertion order");
		vf_assert(!!e->is_const == m->isc[i], "entry list keeps the const flag");
		vf_assert((m->isc[i] ? e->const_data : (const void *)e->data) == &dat[m->dat[i]], "entry list keeps the data");
		vf_assert(p->next->prev == p && p->prev->next == p, "entry list is doubly linked");
		i++;
	}
	vf_assert(i == m->n, "entry list holds every entry");
}

static int do_insert(struct hash *h, uint32_t key, int isc, int d)
{
	return isc ? futils_hash_insert_const(h, key, &dat[d]) : futils_hash_insert(h, key, &dat[d]);
}

static void m_del(struct model *m, int i)
{
	for (; i + 1 < m->n; i++) {
		m->key[i] = m->key[i + 1];
		m->dat[i] = m->dat[i + 1];
		m->isc[i] = m->isc[i + 1];
	}
	m->n--;
}

/* one arbitrary operation */
static void step(struct hash *h, struct model *m, int kind, int tag)
{
	int r, i;
	uint32_t k;
	switch (vf_choose(5, "operation")) {
	case 0:	/* insert a new key */
		k = new_key(kind, m);
		int isc = vf_choose(2, "const");
		r = do_insert(h, k, isc, tag);
		if (r == 0) {
			m->key[m->n] = k;
			m->dat[m->n] = tag;
			m->isc[m->n++] = isc;
		} else {
			vf_assert(r == -ENOMEM && vf_failed(), "insertion fails only for lack of memory");
		}
		break;
	case 1:	/* insert a present key */
		vf_assume(m->n > 0);
		i = vf_choose(m->n, "which");
		r = do_insert(h, m->key[i], vf_choose(2, "const"), tag);
		vf_assert(r == -EEXIST || (r == -ENOMEM && vf_failed()), "duplicate insertion is -EEXIST");
		break;
	case 2:	/* remove a present key */
		vf_assume(m->n > 0);
		i = vf_choose(m->n, "which");
		r = futils_hash_remove(h, m->key[i]);
		vf_assert(r == 0, "removing a present key succeeds");
		m_del(m, i);
		break;
	case 3:	/* remove an absent key */
		k = new_key(kind, m);
		r = futils_hash_remove(h, k);
		vf_assert(r == -ENOENT, "removing an absent key is -ENOENT");
		break;
	default:
		r = futils_hash_remove_all(h);
		vf_assert(r == 0, "remove all succeeds");
		m->n = 0;
		break;
	}
}

static void setup(struct hash *h, struct model *m, int kind, int n)
{
	m->n = 0;
	vf_assume(futils_hash_init(h, size_of_kind(kind), NULL) == 0);
	for (int i = 0; i < n; i++) {
		uint32_t k = new_key(kind, m);
		int isc = i == 1;
		vf_assume(do_insert(h, k, isc, i) == 0);
		m->key[i] = k;
		m->dat[i] = i;
		m->isc[i] = isc;
		m->n++;
	}
}

#define SEQ(kind, n, ops) \
void h01_##kind##_##n##_##ops(void) \
{ \
	struct hash h; \
	struct model m; \
	setup(&h, &m, kind, n); \
	verify(&h, &m, new_key(kind, &m)); \
	for (int i = 0; i < ops; i++) { \
		step(&h, &m, kind, n + i); \
	} \
	verify(&h, &m, new_key(kind, &m)); \
	vf_end(); \
}
SEQ(0, 0, 3)
SEQ(0, 1, 2)
SEQ(0, 2, 2)
SEQ(0, 3, 1)
SEQ(0, 4, 1)
SEQ(1, 2, 1)
SEQ(2, 2, 1)
SEQ(2, 1, 1)

/* H02: ownership */
void h02_own(void)
{
	struct hash h;
	struct model m;
	int kind = vf_choose(2, "kind");
	int want[8] = {0};
	if (futils_hash_init(&h, size_of_kind(kind), on_free) != 0) {
		vf_no_leak("failed initialisation leaks nothing");
		vf_end();
	}
	m.n = 0;
	int n = vf_choose(kind == 0 ? 3 : 2, "inserts") + 1;
	for (int i = 0; i < n; i++) {
		uint32_t k = new_key(kind, &m);
		int live = vf_live();
		int isc = i == 1;
		if (do_insert(&h, k, isc, i) == 0) {
			m.key[m.n] = k;
			m.dat[m.n] = i;
			m.isc[m.n++] = isc;
			vf_assert(vf_live() == live + 1, "an insertion owns one entry");
		} else {
			vf_assert(vf_live() == live, "failed insertion leaks nothing");
			vf_assert(freed[i] == 0, "failed insertion does not release the data");
		}
	}
	if (m.n > 0 && vf_choose(2, "duplicate")) {
		int live = vf_live();
		int r = do_insert(&h, m.key[0], vf_choose(2, "const"), 6);
		vf_assert(r < 0 && vf_live() == live, "failed insertion leaks nothing");
		vf_assert(freed[6] == 0 && freed[m.dat[0]] == 0, "failed insertion does not release the data");
	}
	if (m.n > 0 && vf_choose(2, "remove")) {
		int i = vf_choose(m.n, "which"), live = vf_live();
		vf_assert(futils_hash_remove(&h, m.key[i]) == 0, "remove");
		want[m.dat[i]]++;
		m_del(&m, i);
		vf_assert(vf_live() == live - 1, "removal releases the entry");
		for (i = 0; i < 8; i++)
			vf_assert(freed[i] == want[i], "free callback runs exactly once per removed entry");
	}
	for (int i = 0; i < m.n; i++)
		want[m.dat[i]]++;
	if (vf_choose(2, "remove all")) {
		vf_assert(futils_hash_remove_all(&h) == 0, "remove all");
		for (int i = 0; i < 8; i++)
			vf_assert(freed[i] == want[i], "free callback runs exactly once per removed entry");
		vf_assert(list_is_empty(&h.entries), "no entry is left in the list");
		if (vf_choose(2, "reuse")) {
			if (futils_hash_insert(&h, 7, &dat[7]) == 0)
				want[7]++;
		}
	}
	vf_assert(futils_hash_destroy(&h) == 0, "destroy");
	vf_no_leak("destroy releases everything");
	for (int i = 0; i < 8; i++)
		vf_assert(freed[i] == want[i], "free callback runs exactly once per removed entry");
	vf_end();
}

/* H03: any requested size, any key */
void h03_init(void)
{
	struct hash h;
	size_t size = vf_u64("size");
	int r = futils_hash_init(&h, size, NULL);
	vf_assert(r == 0 || (r < 0 && vf_failed()), "initialisation works or reports lack of memory");
	if (r != 0) {
		vf_no_leak("failed initialisation leaks nothing");
		vf_end();
	}
	uint32_t k = vf_u32("key"), k2 = vf_u32("other");
	vf_assert(list_is_empty(&h.entries), "a new table is empty");
	vf_assert(futils_hash_lookup(&h, k, NULL) == -ENOENT, "a new table is empty");
	int isc = vf_choose(2, "const");
	if (do_insert(&h, k, isc, 0) != 0)
		vf_end();
	const void *cd = NULL;
	void *d = NULL;
	r = futils_hash_lookup(&h, k, &d);
	if (isc)
		vf_assert(r == -EPERM && d == NULL, "const data is refused by the mutable lookup");
	else
		vf_assert(r == 0 && d == &dat[0], "mutable data is found");
	r = futils_hash_lookup_const(&h, k, &cd);
	vf_assert(r == 0 && cd == &dat[0], "const lookup sees both kinds");
	if (isc)
		vf_assert(futils_hash_lookup(&h, k, NULL) == -EPERM, "const data is refused by the mutable lookup");
	vf_assert(futils_hash_lookup_const(&h, k, NULL) == 0, "lookup without output");
	if (k2 != k && size < 3) {
		vf_assert(futils_hash_lookup(&h, k2, &d) == -ENOENT, "another key is absent");
	}
	vf_assert(futils_hash_remove(&h, k) == 0, "the key is removed");
	vf_assert(futils_hash_lookup_const(&h, k, &cd) == -ENOENT, "removed key is absent");
	vf_end();
}

void h03_null(void)
{
	vf_assert(futils_hash_init(NULL, 1, NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_insert(NULL, 1, NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_insert_const(NULL, 1, NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_lookup(NULL, 1, NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_lookup_const(NULL, 1, NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_remove(NULL, 1) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_remove_all(NULL) == -EINVAL, "NULL table is refused");
	vf_assert(futils_hash_destroy(NULL) == -EINVAL, "NULL table is refused");
	vf_end();
}

/* the names of the previous API do the same */
void h01_alias(void)
{
	struct hash h;
	struct model m = { .n = 0 };
	uint32_t k0 = vf_u32("key"), k1 = vf_u32("key"), k2 = vf_u32("key");
	vf_assume(k0 != k1 && k0 != k2 && k1 != k2);
	size_t n = 1 + 2 * vf_choose(2, "size");
	if (n == 3)
		vf_assume(k0 < 3 && k1 < 3 && k2 < 3);
	if (hash_init(&h, n) != 0) {
		vf_no_leak("a failed initialisation holds nothing");
		vf_end();
	}
	if (hash_insert(&h, k0, &dat[0]) == 0) {
		m.key[m.n] = k0; m.dat[m.n] = 0; m.isc[m.n++] = 0;
		vf_nofault(1);
		vf_assert(hash_insert(&h, k0, &dat[3]) == -EEXIST && hash_insert_const(&h, k0, &dat[3]) == -EEXIST, "a key is inserted once");
	}
	if (hash_insert_const(&h, k1, &dat[1]) == 0) {
		m.key[m.n] = k1; m.dat[m.n] = 1; m.isc[m.n++] = 1;
	}
	verify(&h, &m, k2);
	for (int i = 0; i < m.n; i++) {
		const void *c = NULL;
		void *d = NULL;
		vf_assert(hash_lookup_const(&h, m.key[i], &c) == 0 && c == &dat[m.dat[i]], "hash_lookup_const finds the data");
		vf_assert(hash_lookup(&h, m.key[i], &d) == (m.isc[i] ? -EPERM : 0) && d == (m.isc[i] ? NULL : &dat[m.dat[i]]), "hash_lookup finds the data");
	}
	if (m.n) {
		vf_assert(hash_remove(&h, m.key[0]) == 0 && hash_remove(&h, m.key[0]) == -ENOENT, "hash_remove removes a key once");
		m_del(&m, 0);
	}
	verify(&h, &m, k2);
	if (vf_choose(2, "all")) {
		vf_assert(hash_remove_all(&h) == 0, "hash_remove_all works");
		m.n = 0;
		verify(&h, &m, k0);
	}
	vf_assert(hash_destroy(&h) == 0, "hash_destroy works");
	for (int i = 0; i < 8; i++)
		vf_assert(freed[i] == 0, "no callback was given");
	vf_no_leak("everything is released");
	vf_end();
}
