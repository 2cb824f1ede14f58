#include <futils/list.h>
struct item { int v; struct list_node node; };
static struct list_node head = list_head_init(head);
int use(void)
{
	struct list_node *p, *t; struct item *i, *j; int n = 0;
	list_walk_forward(&head, p) n++;
	list_walk_backward(&head, p) n++;
	list_walk_forward_safe(&head, p, t) n++;
	list_walk_backward_safe(&head, p, t) n++;
	list_walk_entry_forward(&head, i, node) n += i->v;
	list_walk_entry_backward(&head, i, node) n += i->v;
	list_walk_entry_forward_safe(&head, i, j, node) n += i->v;
	list_walk_entry_backward_safe(&head, i, j, node) n += i->v;
	i = list_entry(head.next, struct item, node);
	list_push(&head, &i->node);
	i = list_pop(&head, struct item, node);
	i = FUTILS_CONTAINER_OF(head.next, struct item, node);
	return n;
}
