/* C01: ordered tree (krbtree.c).
 * Pre-state: every valid red-black tree of height <= H - all shapes and colourings
 * (control choices) with arbitrary keys in search order (symbolic); one operation on
 * it with an arbitrary key; full re-validation.  Histories of any length follow by
 * induction as long as the tree stays within the height. */
#include "vp.h"
#include "krbtree.h"
#include "kmalloc.h"

#ifndef H
#define H 3
#endif
#define NP (1 << H) /* heap positions 1..NP-1 */
static struct krb_node *P[NP];
static int *inorder[NP + 1]; /* keys in search order */
static struct krb_node *inord_node[NP + 1];
static int nkeys;
static bool present[2 * NP];

static struct krb_node *parent_of(struct krb_node *n)
{
	return (struct krb_node *)(n->rb_parent_color & ~(uintptr_t)3);
}
static int is_black(struct krb_node *n)
{
	return n == NULL || (n->rb_parent_color & 1);
}
static int below = -1, above = 1;
static int cmp3(const void *a, const void *b)
{
	int x = *(const int *)a, y = *(const int *)b;
	if (x < y) return below;
	if (x > y) return above;
	return 0;
}
/* a comparison may return any value of the right sign */
static void any_sign()
{
	if (H > 3) return;      /* the higher trees are compared with -1 and 1 */
	below = -0x7fffffff - 1;
	above = 0x10000;
}
#ifdef SLIM
/* SLIM 1: the half of the tree below position slim is as small as it can be */
static int slim;
static bool in_slim(int p) { while (p > 3) p /= 2; return SLIM && p == slim; }
#else
#define in_slim(p) false
#endif
/* subtree at position p whose paths carry exactly bh black nodes */
static struct krb_node *gen(int p, struct krb_node *parent, int bh, int depth)
{
	bool may_be_absent = bh == 0, may_be_black, may_be_red;
	if (depth == H) {
		return NULL;
	}
	/* a complete subtree must fit in the remaining height */
	may_be_black = bh > 0 && bh <= H - depth;
	may_be_red = parent != NULL && is_black(parent) && bh <= H - depth - 1;
	int kinds[3], n = 0;
	if (may_be_absent) kinds[n++] = 0;
	if (may_be_black) kinds[n++] = 1;
	if (may_be_red) kinds[n++] = 2;
	if (n == 0) VP_STOP();
	if (n > 1 && in_slim(p)) n = 1;
	int k = kinds[CHOOSE(n)];
	if (k == 0) return NULL;
	struct krb_node *x = (struct krb_node *)xmalloc(sizeof(struct krb_node));
	P[p] = x;
	present[p] = true;
	x->rb_parent_color = (uintptr_t)parent | (k == 1 ? 1 : 0);
	x->rb_left = gen(2 * p, x, k == 1 ? bh - 1 : bh, depth + 1);
	x->data = xmalloc(sizeof(int));
#ifdef SLIM
	/* only the order of the keys matters to the code; between and around these there is room for another */
	*(int *)x->data = 3 * nkeys;
#else
	*(int *)x->data = ND_INT();
#endif
	inord_node[nkeys] = x;
	inorder[nkeys++] = (int *)x->data;
	x->rb_right = gen(2 * p + 1, x, k == 1 ? bh - 1 : bh, depth + 1);
	return x;
}
static void make_tree(struct krb_tree *tree)
{
	int bh = CHOOSE(H + 1);
#ifdef SLIM
	slim = SLIM ? 2 + CHOOSE(2) : 0;
#endif
	rbtree_init(tree);
	tree->root.rb_node = gen(1, NULL, bh, 0);
	for (int i = 1; i < nkeys; i++) ASSUME(*inorder[i - 1] < *inorder[i]);
}
static int depth_seen, vcount;
static int *seen[NP + 2];
static int validate(struct krb_node *n, struct krb_node *parent, int depth)
{
	if (n == NULL) {
		return 0;
	}
	CHECK(depth < H + 2, "tree is finite and its depth bounded");
	if (depth >= H + 2) {
		return 0;
	}
	CHECK(parent_of(n) == parent, "parent link");
	CHECK(is_black(n) || (is_black(n->rb_left) && is_black(n->rb_right)), "no red node has a red child");
	int l = validate(n->rb_left, n, depth + 1);
	CHECK(vcount <= NP, "no more entries than inserted");
	seen[vcount++] = (int *)n->data;
	int r = validate(n->rb_right, n, depth + 1);
	CHECK(l == r, "equal black height on every path");
	return l + (is_black(n) ? 1 : 0);
}
static void check_tree(struct krb_tree *tree)
{
	vcount = 0;
	CHECK(is_black(tree->root.rb_node), "root is black");
	validate(tree->root.rb_node, NULL, 0);
}
static int dup_at(int key)
{
	for (int i = 0; i < nkeys; i++) if (*inorder[i] == key) return i;
	return -1;
}

static struct krb_node *new_special()
{
	struct krb_node *n = (struct krb_node *)xmalloc(sizeof(struct krb_node) + 8);
	REACH("custom allocation");
	return n;
}
ENTRY(h_insert)
{
	struct krb_tree tree;
	any_sign();
	make_tree(&tree);
	int key = ND_INT();
	int new_flag = 7;
	struct krb_node *n = FLIP() ? rbtree_insert(&tree, &key, &new_flag, cmp3) : rbtree_insert2(&tree, &key, &new_flag, cmp3, new_special);
	CHECK(n != NULL, "insert returns an entry");
	CHECK(new_flag == 0 || new_flag == 1, "insert says whether the entry is new");
	int d = dup_at(key);
	CHECK((new_flag == 0) == (d >= 0), "entry is new exactly when the key was absent");
	if (new_flag) {
		n->data = &key;
		check_tree(&tree);
		CHECK(vcount == nkeys + 1, "one more entry");
		int found = 0;
		for (int i = 0, j = 0; i < vcount; i++) {
			if (seen[i] == &key) found++;
			else CHECK(j < nkeys && seen[i] == inorder[j++], "all other entries kept, in order");
			if (i) CHECK(*seen[i - 1] < *seen[i], "entries in search order");
		}
		CHECK(found == 1, "new entry present once");
		REACH("new");
	} else {
		CHECK(d >= 0 && n == inord_node[d], "existing entry returned");
		check_tree(&tree);
		CHECK(vcount == nkeys, "nothing added");
		for (int i = 0; i < vcount; i++) CHECK(seen[i] == inorder[i], "tree unchanged");
		REACH("dup");
	}
	REACH("end");
}
static struct krb_node *freed;
static void on_free(struct krb_node *n)
{
	CHECK(freed == NULL, "freed once");
	freed = n;
}
ENTRY(h_erase)
{
	struct krb_tree tree;
	make_tree(&tree);
	if (nkeys == 0) VP_STOP();
#ifdef SLIM
	int v = CHOOSE(nkeys), how = 1;
#else
	int v = CHOOSE(nkeys), how = CHOOSE(3);
#endif
	int *kd = inorder[v];
	struct krb_node *victim = inord_node[v];
	if (how == 0) rb_erase(victim, &tree.root);
	else if (how == 1) rbtree_remove(&tree, victim);
	else {
		rbtree_remove2(&tree, victim, on_free);
		CHECK(freed == victim, "removed entry handed to the release function");
	}
	check_tree(&tree);
	CHECK(vcount == nkeys - 1, "one entry fewer");
	for (int i = 0, j = 0; i < nkeys; i++) {
		if (i == v) continue;
		CHECK(j < vcount && seen[j] == inorder[i], "all other entries kept, in order");
		j++;
	}
	CHECK(rbtree_is_empty(&tree) == (nkeys == 1), "empty exactly when nothing is left");
	/* the freed entry must not be reachable: find on every other key works */
#ifndef SLIM
	for (int i = 0; i < nkeys; i++) {
		if (i == v) {
			CHECK(rbtree_find(&tree, kd, cmp3) == NULL, "removed key not found");
		} else {
			CHECK(rbtree_find(&tree, inorder[i], cmp3) == inord_node[i], "kept key found");
		}
	}
#endif
	REACH("end");
}
ENTRY(h_find)
{
	struct krb_tree tree;
	any_sign();
	make_tree(&tree);
	int key = ND_INT(), result = 99;
	int d = dup_at(key);
	switch (CHOOSE(4)) {
	case 0: {
		struct krb_node *n = rbtree_find(&tree, &key, cmp3);
		CHECK(n == (d >= 0 ? inord_node[d] : NULL), "find returns the entry exactly when present");
		break;
	}
	case 1: {
		struct krb_node *n = rbtree_find2(&tree, &key, cmp3, &result);
		if (nkeys == 0) CHECK(n == NULL, "nothing found in an empty tree");
		else if (d >= 0) CHECK(n == inord_node[d] && result == 0, "find2 finds a present key");
		else {
			CHECK(n != NULL, "find2 returns the last entry compared");
			CHECK(result == cmp3(&key, n->data) && result != 0, "find2 reports the last comparison");
		}
		break;
	}
	case 2: {
		struct krb_node *n = rbtree_find_cover(&tree, &key, cmp3);
		struct krb_node *e = nkeys ? inord_node[nkeys - 1] : NULL;
		int c = -1;
		for (int i = 0; i < nkeys; i++) if (*inorder[i] <= key) c = i;
		if (c >= 0) e = inord_node[c];
		CHECK(n == e, "covering lookup: greatest key not above, else the last entry");
		if (c >= 0) REACH("covered");
		break;
	}
	default: {
		CHECK(rb_first(&tree.root) == (nkeys ? inord_node[0] : NULL), "first");
		CHECK(rb_last(&tree.root) == (nkeys ? inord_node[nkeys - 1] : NULL), "last");
		for (int i = 0; i < nkeys; i++) {
			CHECK(rb_next(inord_node[i]) == (i + 1 < nkeys ? inord_node[i + 1] : NULL), "next in ascending order");
			CHECK(rb_prev(inord_node[i]) == (i ? inord_node[i - 1] : NULL), "previous in descending order");
		}
		CHECK(rbtree_is_empty(&tree) == (nkeys == 0), "empty test");
	}
	}
	REACH("end");
}
static int it_pos, it_done;
static bool removed[NP];
static iterator_ret visit(void *data, void *arg)
{
	CHECK(arg == &it_done, "visitor gets its argument");
	CHECK(!it_done, "no visit after break");
	CHECK(it_pos < nkeys && data == inorder[it_pos], "visits every entry once in ascending order");
	int c = CHOOSE(4);
	removed[it_pos++] = c == 1 || c == 3;
	if (c >= 2) it_done = 1;
	static const iterator_ret R[] = { iterator_continue, iterator_remove_continue, iterator_break, iterator_remove_break };
	return R[c];
}
ENTRY(h_iterate)
{
	uint64_t heap0 = vp_heap_bytes();
	struct krb_tree *tree = rbtree_create();
	CHECK(vp_heap_bytes() > heap0, "made");
	heap0 = vp_heap_bytes() - heap0;
	struct krb_tree t;
	CHECK(rbtree_is_empty(tree), "created empty");
	make_tree(&t);
	tree->root = t.root;
	rbtree_iterator(tree, visit, &it_done);
	CHECK(it_done || it_pos == nkeys, "every entry visited unless stopped");
	check_tree(tree);
	int j = 0;
	for (int i = 0; i < nkeys; i++) {
		if (removed[i]) continue;
		CHECK(j < vcount && seen[j] == inorder[i], "exactly the kept entries remain");
		j++;
	}
	CHECK(j == vcount, "removed entries are gone");
	uint64_t heap1 = vp_heap_bytes();
	rbtree_destroy(tree);
	CHECK(vp_heap_bytes() == heap1 - heap0, "destroying the tree returns its memory");
	REACH("end");
}
