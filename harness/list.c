#include "vf.h"
#include <futils/list.h>

/* A ring of up to MAXE elements.  An element is a node or a segment: an
 * arbitrary non-empty run of further nodes of which only the outer links are
 * visible; the inner links are sealed, following one is a violation. */
#define MAXE 5
#define SEAL1 ((struct list_node *)0x111)
#define SEAL2 ((struct list_node *)0x222)

struct ring {
	struct list_node head;
	struct list_node f[MAXE], l[MAXE];	/* first/last node of element */
	int seg[MAXE];
	int n;
};

static struct list_node *in(struct ring *r, int i) { return i < 0 || i >= r->n ? &r->head : &r->f[i]; }
static struct list_node *out(struct ring *r, int i)
{
	return i < 0 || i >= r->n ? &r->head : r->seg[i] ? &r->l[i] : &r->f[i];
}

static void make(struct ring *r, int n)
{
	r->n = n;
	list_init(&r->head);
	for (int i = 0; i < n; i++)
		r->seg[i] = vf_choose(2, "element is a segment");
	for (int i = 0; i < n; i++) {
		if (r->seg[i]) {
			r->f[i].next = SEAL1;
			r->l[i].prev = SEAL2;
		}
	}
	for (int i = -1; i < n; i++) {
		out(r, i)->next = in(r, i + 1);
		in(r, i + 1)->prev = out(r, i);
	}
}

/* the ring headed by h consists of exactly the elements seq[0..n) */
static void expect_h(struct ring *r, struct list_node *h, struct list_node **f, struct list_node **l, int n)
{
	struct list_node *p = h;
	for (int i = 0; i <= n; i++) {
		struct list_node *nx = i == n ? h : f[i];
		vf_assert(p->next == nx, "forward order is exactly the expected one");
		vf_assert(nx->prev == p, "backward links mirror the forward links");
		if (i < n) {
			if (l[i] != f[i]) {
				vf_assert(f[i]->next == SEAL1 && l[i]->prev == SEAL2,
					"other elements keep their links");
			}
			p = l[i];
		}
	}
}

struct seq { struct list_node *f[MAXE + 2], *l[MAXE + 2]; int n; };

static void seq_of(struct ring *r, struct seq *s)
{
	s->n = 0;
	for (int i = 0; i < r->n; i++) {
		s->f[s->n] = in(r, i);
		s->l[s->n++] = out(r, i);
	}
}
static void seq_ins(struct seq *s, int at, struct list_node *x)
{
	for (int i = s->n; i > at; i--) {
		s->f[i] = s->f[i - 1];
		s->l[i] = s->l[i - 1];
	}
	s->f[at] = s->l[at] = x;
	s->n++;
}
static void seq_del(struct seq *s, int at)
{
	for (int i = at; i + 1 < s->n; i++) {
		s->f[i] = s->f[i + 1];
		s->l[i] = s->l[i + 1];
	}
	s->n--;
}
static void expect(struct ring *r, struct seq *s) { expect_h(r, &r->head, s->f, s->l, s->n); }
static int pick(struct ring *r)
{
	int i = vf_choose(r->n, "operand");
	vf_assume(!r->seg[i]);
	return i;
}

void l01_init(void)
{
	struct list_node h;
	list_init(&h);
	vf_assert(h.next == &h && h.prev == &h, "init yields the empty ring");
	struct list_node s = list_head_init(s);
	vf_assert(s.next == &s && s.prev == &s, "static init yields the empty ring");
	list_node_unref(&h);
	vf_assert(list_node_is_unref(&h) && !list_node_is_ref(&h), "detached state is recognised");
	list_init(&h);
	vf_assert(!list_node_is_unref(&h) && list_node_is_ref(&h), "linked state is recognised");
	vf_end();
}

void l01_add(void)
{
	struct ring r;
	struct seq s;
	struct list_node x;
	make(&r, vf_choose(4, "n"));
	seq_of(&r, &s);
	int op = vf_choose(4, "op");
	int at = vf_choose(r.n + 1, "reference node") - 1;	/* -1: head */
	vf_assume(at < 0 || !r.seg[at]);
	struct list_node *ref = in(&r, at);
	if (op == 0) {
		list_add_after(ref, &x);
		seq_ins(&s, at + 1, &x);
	} else if (op == 1) {
		list_add_before(ref, &x);
		seq_ins(&s, at < 0 ? r.n : at, &x);
	} else if (op == 2) {
		vf_assume(at < 0);
		list_push(&r.head, &x);
		seq_ins(&s, r.n, &x);
	} else {
		list_add(&x, out(&r, at), in(&r, at + 1));
		seq_ins(&s, at + 1, &x);
	}
	expect(&r, &s);
	vf_assert(list_node_is_ref(&x), "inserted node is linked");
	vf_end();
}

void l01_del(void)
{
	struct ring r;
	struct seq s;
	make(&r, vf_choose(4, "n") + 1);
	seq_of(&r, &s);
	int at = pick(&r), op = vf_choose(3, "op");
	struct list_node *x = &r.f[at];
	if (op == 0) {
		list_del(x);
		vf_assert(list_node_is_unref(x) && !list_node_is_ref(x), "deleted node is detached");
	} else if (op == 1) {
		list_del_init(x);
		vf_assert(x->next == x && x->prev == x, "del_init leaves an empty ring");
	} else {
		list_detach(out(&r, at - 1), in(&r, at + 1));
	}
	seq_del(&s, at);
	expect(&r, &s);
	vf_end();
}

void l01_replace(void)
{
	struct ring r;
	struct seq s;
	struct list_node x;
	make(&r, vf_choose(4, "n") + 1);
	seq_of(&r, &s);
	int at = pick(&r), op = vf_choose(2, "op");
	struct list_node *o = &r.f[at];
	if (op == 0) {
		list_replace(o, &x);
	} else {
		list_replace_init(o, &x);
		vf_assert(o->next == o && o->prev == o, "replaced node is re-initialised");
	}
	s.f[at] = s.l[at] = &x;
	expect(&r, &s);
	vf_end();
}

/* replacing the head moves the whole list */
void l01_replace_head(void)
{
	struct ring r;
	struct seq s;
	struct list_node x;
	make(&r, vf_choose(4, "n"));
	seq_of(&r, &s);
	list_replace(&r.head, &x);
	expect_h(&r, &x, s.f, s.l, s.n);
	vf_end();
}

void l01_move(void)
{
	struct ring r;
	struct seq s;
	make(&r, vf_choose(5, "n") + 1);
	seq_of(&r, &s);
	int from = pick(&r), op = vf_choose(2, "op");
	int to = vf_choose(r.n + 1, "to") - 1;
	vf_assume(to != from && (to < 0 || !r.seg[to]));
	struct list_node *x = &r.f[from], *t = in(&r, to);
	if (op == 0)
		list_move_after(t, x);
	else
		list_move_before(t, x);
	seq_del(&s, from);
	if (to > from)
		to--;
	if (op == 0)
		seq_ins(&s, to + 1, x);
	else
		seq_ins(&s, to < 0 ? s.n : to, x);
	expect(&r, &s);
	vf_end();
}

/* moving to another list */
void l01_move_across(void)
{
	struct ring r, q;
	struct seq s, t;
	make(&r, vf_choose(3, "n") + 1);
	make(&q, vf_choose(3, "m"));
	seq_of(&r, &s);
	seq_of(&q, &t);
	int from = pick(&r), op = vf_choose(2, "op");
	int to = vf_choose(q.n + 1, "to") - 1;
	vf_assume(to < 0 || !q.seg[to]);
	struct list_node *x = &r.f[from], *d = in(&q, to);
	if (op == 0)
		list_move_after(d, x);
	else
		list_move_before(d, x);
	seq_del(&s, from);
	seq_ins(&t, op == 0 ? to + 1 : to < 0 ? q.n : to, x);
	expect(&r, &s);
	expect(&q, &t);
	vf_end();
}

/* ---- L02 */
void l02_query(void)
{
	struct ring r;
	make(&r, vf_choose(4, "n"));
	vf_assert(!!list_is_empty(&r.head) == (r.n == 0), "emptiness");
	vf_assert(list_first(&r.head) == in(&r, 0), "first");
	vf_assert(list_last(&r.head) == out(&r, r.n - 1), "last");
	if (r.n == 0) {
		vf_assert(list_first(&r.head) == &r.head && list_last(&r.head) == &r.head, "empty list");
		vf_assert(list_next(&r.head, &r.head) == NULL, "next of empty");
		vf_assert(list_prev(&r.head, &r.head) == NULL, "prev of empty");
		vf_end();
	}
	int i = vf_choose(r.n, "item");
	vf_assert(list_next(&r.head, out(&r, i)) == (i + 1 < r.n ? in(&r, i + 1) : NULL), "next");
	vf_assert(list_prev(&r.head, in(&r, i)) == (i > 0 ? out(&r, i - 1) : NULL), "prev");
	vf_assert(list_next(&r.head, &r.head) == in(&r, 0), "next of head");
	vf_assert(list_prev(&r.head, &r.head) == out(&r, r.n - 1), "prev of head");
	vf_assert(!!list_is_last(&r.head, out(&r, i)) == (i == r.n - 1), "is_last");
	vf_end();
}

struct item { int pad; struct list_node node; int id; };

static struct item *it[8];

static void fill(struct list_node *h, int n)
{
	list_init(h);
	for (int i = 0; i < n; i++) {
		it[i] = vf_new(sizeof(struct item));
		it[i]->id = i;
		it[i]->node.prev = i ? &it[i - 1]->node : h;
		(i ? &it[i - 1]->node : h)->next = &it[i]->node;
	}
	if (n) {
		it[n - 1]->node.next = h;
		h->prev = &it[n - 1]->node;
	}
}

#define SEEN(x, want) vf_assert((x) == it[(want)], "each element is visited once, in order")

void l02_walk(void)
{
	struct list_node h, *p;
	struct item *e;
	int n = vf_choose(5, "n"), k = 0;
	fill(&h, n);
	switch (vf_choose(5, "form")) {
	case 0:
		list_walk_forward(&h, p) {
			SEEN(list_entry(p, struct item, node), k);
			k++;
		}
		break;
	case 1:
		list_walk_backward(&h, p) {
			SEEN(list_entry(p, struct item, node), n - 1 - k);
			k++;
		}
		break;
	case 2:
		list_walk_entry_forward(&h, e, node) {
			SEEN(e, k);
			k++;
		}
		break;
	case 3:
		list_walk_entry_backward(&h, e, node) {
			SEEN(e, n - 1 - k);
			k++;
		}
		break;
	default:
		vf_assert(list_length(&h) == (size_t)n, "length");
		k = n;
		break;
	}
	vf_assert(k == n, "every element is visited");
	vf_end();
}

void l02_safe(void)
{
	struct list_node h, *p, *t;
	struct item *e, *f;
	int n = vf_choose(5, "n"), k = 0, left = 0;
	fill(&h, n);
	switch (vf_choose(4, "form")) {
	case 0:
		list_walk_forward_safe(&h, p, t) {
			SEEN(list_entry(p, struct item, node), k);
			if (vf_choose(2, "remove")) {
				list_del(p);
				free(it[k]);
			} else
				left++;
			k++;
		}
		break;
	case 1:
		list_walk_backward_safe(&h, p, t) {
			SEEN(list_entry(p, struct item, node), n - 1 - k);
			if (vf_choose(2, "remove")) {
				list_del(p);
				free(it[n - 1 - k]);
			} else
				left++;
			k++;
		}
		break;
	case 2:
		list_walk_entry_forward_safe(&h, e, f, node) {
			SEEN(e, k);
			if (vf_choose(2, "remove")) {
				list_del(&e->node);
				free(e);
			} else
				left++;
			k++;
		}
		break;
	default:
		list_walk_entry_backward_safe(&h, e, f, node) {
			SEEN(e, n - 1 - k);
			if (vf_choose(2, "remove")) {
				list_del(&e->node);
				free(e);
			} else
				left++;
			k++;
		}
		break;
	}
	vf_assert(k == n, "every element is visited");
	vf_assert(list_length(&h) == (size_t)left, "the remaining elements stay linked");
	vf_end();
}

void l02_pop(void)
{
	struct list_node h;
	struct item *e;
	int n = vf_choose(5, "n");
	fill(&h, n);
	for (int i = 0; i < n; i++) {
		e = list_pop(&h, struct item, node);
		SEEN(e, i);
		vf_assert(list_node_is_unref(&e->node), "popped node is detached");
		free(e);
		vf_assert(list_length(&h) == (size_t)(n - 1 - i), "the others stay linked");
	}
	e = list_pop(&h, struct item, node);
	vf_assert(e == NULL, "pop of an empty list is NULL");
	vf_assert(list_is_empty(&h) && list_length(&h) == 0, "empty after popping all");
	vf_end();
}
