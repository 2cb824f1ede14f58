#include <futils/mbox.h>
int use(struct mbox *b, void *m) { return mbox_push(b, m) + mbox_push_block(b, m, 3) + mbox_peek(b, m); }
