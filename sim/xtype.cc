#include "xtype.h"
#include <ecoli_config.h>
using namespace sim;
namespace xtype {
int live, attr_live, tolerated, mute;
static bool done;
static unsigned nfail;
void reset() { live = attr_live = tolerated = mute = 0; nfail = 0; }
// a callback that fails does not always say why
static int cb_fail(int e)
{
	if (++nfail % 3 == 0) { mute++; e = 0; }
	errno = e;
	return -1;
}

static const uint32_t MAGIC = 0x51c0ffee;
struct LeafPriv { uint32_t magic; unsigned mode; char *text; char *buf; };
struct PairPriv { uint32_t magic; unsigned refs; struct ec_node *c[2]; };

template <class P> static void check_zero(struct ec_node *n)
{
	const unsigned char *b = (const unsigned char *)ec_node_priv(n);
	for (size_t i = 0; i < sizeof(P); i++)
		CHECK(b[i] == 0, "result", "priv-zero", "the private area given to init_priv is not zeroed");
}

// ---- leaf
static int leaf_init(struct ec_node *n)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	check_zero<LeafPriv>(n);
	if (S.fault(K_CB)) { errno = ENOMEM; return -1; }
	p->buf = (char *)ec_malloc(8);
	if (!p->buf) return -1;
	p->magic = MAGIC;
	live++;
	return 0;
}
static void leaf_free(struct ec_node *n)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	CHECK(p->magic == MAGIC, "lifetime", "free-priv", "free_priv called on a private area that is not initialised or was already released");
	p->magic = 0;
	ec_free(p->buf);
	ec_free(p->text);
	p->buf = p->text = nullptr;
	live--;
}
static int leaf_config(struct ec_node *n, const struct ec_config *c)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	const struct ec_config *t = ec_config_dict_get(c, "text"), *m = ec_config_dict_get(c, "mode");
	CHECK((!t || ec_config_get_type(t) == EC_CONFIG_TYPE_STRING) && (!m || ec_config_get_type(m) == EC_CONFIG_TYPE_UINT64), "result", "unvalidated",
		"set_config was called with a configuration that does not follow the schema of the type");
	if (!t || (m && m->u64 > 3)) { errno = EINVAL; return -1; }
	if (S.fault(K_CB)) { errno = EIO; return -1; }
	char *d = (char *)ec_strdup(t->string);
	if (!d) return -1;
	ec_free(p->text);
	p->text = d;
	p->mode = m ? (unsigned)m->u64 : 0;
	return 0;
}
static int leaf_parse(const struct ec_node *n, struct ec_pnode *st, const struct ec_strvec *v)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	CHECK(ec_pnode_get_node(st) == n, "result", "pstate", "the parse callback was called with a state that does not refer to its node");
	if (S.fault(K_CB)) return cb_fail(EIO);
	if (!p->text) { errno = ENOENT; return -1; }
	bool eq = ec_strvec_len(v) >= 1 && !strcmp(ec_strvec_val(v, 0), p->text);
	switch (p->mode) {
	case 2: return 0;
	case 3: {
		const struct ec_pnode *root = ec_pnode_get_root(st);
		int c = 0;
		for (const struct ec_pnode *it = root; it; it = EC_PNODE_ITER_NEXT(root, it, true)) c += ec_pnode_get_node(it) == n;
		if (c > 1) return EC_PARSE_NOMATCH;
	} // fallthrough
	case 0: return eq ? 1 : EC_PARSE_NOMATCH;
	default: return eq && ec_strvec_len(v) >= 2 ? 2 : EC_PARSE_NOMATCH;
	}
}
static void attr_free(void *p)
{
	char *c = (char *)p;
	CHECK(*c == 1, "lifetime", "attr-free", "a value attached to a completion result was released twice");
	*c = 0;
	attr_live--;
	delete c;
}
// counts of a completion list, before and after a failed addition
static std::string counts(const struct ec_comp *c)
{
	return fmt("%zu/%zu/%zu/%zu", ec_comp_count(c, EC_COMP_ALL), ec_comp_count(c, EC_COMP_FULL), ec_comp_count(c, EC_COMP_PARTIAL), ec_comp_count(c, EC_COMP_UNKNOWN));
}
static int leaf_complete(const struct ec_node *n, struct ec_comp *comp, const struct ec_strvec *v)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	CHECK(ec_comp_get_cur_pstate(comp) && ec_pnode_get_node(ec_comp_get_cur_pstate(comp)) == n, "result", "comp-pstate",
		"the completion callback was called with a state that does not refer to its node");
	CHECK(ec_comp_get_cur_group(comp) == nullptr, "result", "comp-group", "the completion callback starts with the group of another node");
	if (ec_strvec_len(v) != 1) return 0;
	if (S.fault(K_CB)) return cb_fail(EIO);
	if (!p->text) { errno = ENOENT; return -1; }
	const char *in = ec_strvec_val(v, 0);
	bool tol = strlen(p->text) % 2 == 0;
	bool first = true;
	auto add = [&](enum ec_comp_type ty, const char *start, const char *full) -> struct ec_comp_item * {
		std::string before = counts(comp);
		errno = 0;
		struct ec_comp_item *it = ec_comp_add_item(comp, n, ty, start, full);
		if (!it) {
			int e = errno;
			CHECK(S.faulted(), "spurious", "add-item", "ec_comp_add_item failed without any fault");
			CHECK(e != 0, "result", "errno", "ec_comp_add_item failed without setting errno");
			CHECK(counts(comp) == before, "atomicity", "add-item", "a failed ec_comp_add_item changed the counts from %s to %s", before.c_str(), counts(comp).c_str());
			if (tol) tolerated++;
			return nullptr;
		}
		struct ec_comp_group *g = ec_comp_get_cur_group(comp);
		CHECK(g && ec_comp_item_get_grp(it) == g && ec_comp_group_get_node(g) == n && ec_comp_item_get_node(it) == n, "result", "comp-group",
			"the item was not added to a group of the node that issued it");
		CHECK(ec_comp_group_get_attrs(g) != nullptr && (!first || ec_dict_len(ec_comp_group_get_attrs(g)) == 0), "result", "comp-group", "a completion group has no attributes of its own");
		first = false;
		return it;
	};
	// invalid requests are refused and change nothing
	{
		std::string before = counts(comp);
		errno = 0;
		struct ec_comp_item *it = ec_strvec_val(v, 0)[0] ? ec_comp_add_item(comp, n, EC_COMP_UNKNOWN, nullptr, "x") : ec_comp_add_item(comp, n, EC_COMP_FULL, in, nullptr);
		CHECK(!it && errno && counts(comp) == before, "result", "add-item", "an item whose type contradicts its text was accepted");
		errno = 0;
		it = ec_comp_add_item(comp, n, EC_COMP_UNKNOWN, in, nullptr);
		CHECK(!it && errno && counts(comp) == before, "result", "add-item", "an item that completes nothing was accepted");
	}
	switch (p->mode) {
	case 0:
		if (!strncmp(p->text, in, strlen(in)) && !add(EC_COMP_FULL, in, p->text) && !tol) return -1;
		break;
	case 1: {
		char *ck = new char(1);
		attr_live++;
		if (ec_dict_set(ec_comp_get_attrs(comp), "x-attr", ck, attr_free) < 0) { // the value was released
			CHECK(S.faulted(), "spurious", "attr", "setting a completion attribute failed without any fault");
			return -1;
		}
		auto set = [&](const char *what, int (*f)(struct ec_comp_item *, const char *), const char *(*get)(const struct ec_comp_item *), struct ec_comp_item *it, const std::string &val) -> int {
			const char *o = get(it);
			std::string old = o ? o : "-";
			errno = 0;
			int r = f(it, val.c_str());
			int e = errno;
			const char *now = get(it);
			if (r < 0) {
				CHECK(S.faulted() && e, "spurious", "item-set", "%s failed without any fault or without errno", what);
				CHECK((now ? now : "-") == old, "atomicity", "item-set", "a failed %s changed the item", what);
			} else
				CHECK(now && val == now, "result", "item-set", "%s did not set the text", what);
			return r;
		};
		struct ec_comp_item *it = add(EC_COMP_FULL, in, p->text);
		if (!it && !tol) return -1;
		if (it && set("ec_comp_item_set_display", ec_comp_item_set_display, ec_comp_item_get_display, it, std::string("<") + p->text + ">") < 0) return -1;
		it = add(EC_COMP_PARTIAL, in, (std::string(p->text) + "/").c_str());
		if (!it && !tol) return -1;
		if (it) {
			if (set("ec_comp_item_set_str", ec_comp_item_set_str, ec_comp_item_get_str, it, std::string(p->text) + "!") < 0) return -1;
			if (set("ec_comp_item_set_completion", ec_comp_item_set_completion, ec_comp_item_get_completion, it, "?") < 0) return -1;
			CHECK(ec_comp_item_set_str(it, nullptr) < 0 && ec_comp_item_set_display(it, nullptr) < 0 && ec_comp_item_set_completion(it, nullptr) < 0, "result", "item-set",
				"an item text was set to nothing");
		}
		it = add(EC_COMP_UNKNOWN, nullptr, nullptr);
		if (!it && !tol) return -1;
		if (it)
			CHECK(ec_comp_item_set_str(it, "x") < 0 && ec_comp_item_set_display(it, "x") < 0 && ec_comp_item_set_completion(it, "x") < 0, "result", "item-set",
				"a text was given to an item of unknown kind");
		break;
	}
	case 2: return ec_complete_unknown(n, comp, v);
	default: break;
	}
	return 0;
}
static char *leaf_desc(const struct ec_node *n)
{
	LeafPriv *p = (LeafPriv *)ec_node_priv(n);
	if (S.fault(K_CB)) { errno = EIO; return nullptr; }
	return (char *)ec_strdup(p->text ? p->text : "?");
}

// ---- pair
static int pair_init(struct ec_node *n)
{
	check_zero<PairPriv>(n);
	if (S.fault(K_CB)) { errno = ENOMEM; return -1; }
	((PairPriv *)ec_node_priv(n))->magic = MAGIC;
	live++;
	return 0;
}
static void pair_free(struct ec_node *n)
{
	PairPriv *p = (PairPriv *)ec_node_priv(n);
	CHECK(p->magic == MAGIC, "lifetime", "free-priv", "free_priv called on a private area that is not initialised or was already released");
	p->magic = 0;
	live--;
	ec_node_free(p->c[0]);
	ec_node_free(p->c[1]);
}
static int pair_config(struct ec_node *n, const struct ec_config *c)
{
	PairPriv *p = (PairPriv *)ec_node_priv(n);
	const struct ec_config *l = ec_config_dict_get(c, "children");
	CHECK(!l || ec_config_get_type(l) == EC_CONFIG_TYPE_LIST, "result", "unvalidated", "set_config was called with a configuration that does not follow the schema of the type");
	if (!l || ec_config_count(l) != 2) { errno = EINVAL; return -1; }
	struct ec_config *a = ec_config_list_first((struct ec_config *)l), *b = ec_config_list_next((struct ec_config *)l, a);
	CHECK(ec_config_get_type(a) == EC_CONFIG_TYPE_NODE && ec_config_get_type(b) == EC_CONFIG_TYPE_NODE, "result", "unvalidated", "set_config was called with a configuration that does not follow the schema of the type");
	if (S.fault(K_CB)) { errno = EIO; return -1; }
	struct ec_node *o0 = p->c[0], *o1 = p->c[1];
	p->c[0] = ec_node_clone(a->node);
	p->c[1] = ec_node_clone(b->node);
	p->refs = 2;
	ec_node_free(o0);
	ec_node_free(o1);
	return 0;
}
// some pairs carry on when a child fails, unless the failure was injected: that one must be reported
static bool tolerant(const struct ec_node *n, decltype(S.fired) before) { return ec_node_id(n)[0] % 2 == 0 && S.fired == before; }
static int pair_parse(const struct ec_node *n, struct ec_pnode *st, const struct ec_strvec *v)
{
	PairPriv *p = (PairPriv *)ec_node_priv(n);
	if (S.fault(K_CB)) return cb_fail(EIO);
	if (!p->c[0]) { errno = ENOENT; return -1; }
	CHECK(ec_pnode_get_first_child(st) == nullptr, "result", "pstate", "the parse callback was called with a state that has children");
	auto before = S.fired;
	int r = ec_parse_child(p->c[0], st, v);
	CHECK((r >= 0 && r != EC_PARSE_NOMATCH) == (ec_pnode_get_first_child(st) != nullptr), "result", "pstate", "a child that does not match, or fails, leaves a parse node behind (or the reverse)");
	if (r < 0 && tolerant(n, before)) return EC_PARSE_NOMATCH;
	if (r < 0 || r == EC_PARSE_NOMATCH) return r;
	struct ec_strvec *rest = ec_strvec_ndup(v, r, ec_strvec_len(v) - r);
	if (!rest) return -1;
	int q = ec_parse_child(p->c[1], st, rest);
	ec_strvec_free(rest);
	if (q < 0 && tolerant(n, before)) q = EC_PARSE_NOMATCH;
	if (q < 0) return -1;
	if (q == EC_PARSE_NOMATCH) { ec_pnode_free_children(st); return q; }
	return r + q;
}
static int pair_complete(const struct ec_node *n, struct ec_comp *comp, const struct ec_strvec *v)
{
	PairPriv *p = (PairPriv *)ec_node_priv(n);
	if (S.fault(K_CB)) return cb_fail(EIO);
	if (!p->c[0]) { errno = ENOENT; return -1; }
	// items of its own around those of its children: one group, in this node's state
	bool own = ec_strvec_len(v) == 1 && strlen(ec_node_id(n)) % 2 == 1;
	struct ec_comp_group *grp = nullptr;
	auto add = [&](enum ec_comp_type ty, const char *start, const char *full) -> struct ec_comp_item * {
		struct ec_comp_item *it = ec_comp_add_item(comp, n, ty, start, full);
		if (!it) { CHECK(S.faulted(), "spurious", "add-item", "ec_comp_add_item failed without any fault"); return nullptr; }
		struct ec_comp_group *g = ec_comp_get_cur_group(comp);
		CHECK(g && ec_comp_item_get_grp(it) == g && (!grp || g == grp) && ec_comp_group_get_node(g) == n, "result", "comp-group",
			"the items a node adds around the completion of its children are not in one group of that node");
		grp = g;
		return it;
	};
	CHECK(ec_comp_get_cur_group(comp) == nullptr, "result", "comp-group", "the completion callback starts with the group of another node");
	if (own && !add(EC_COMP_FULL, ec_strvec_val(v, 0), "pair")) return -1;
	struct ec_pnode *st = ec_comp_get_cur_pstate(comp);
	auto restored = [&](size_t k) {
		CHECK(ec_comp_get_cur_group(comp) == grp, "result", "comp-group", "the group of a node is not restored after the completion of its child");
		CHECK(ec_comp_get_cur_pstate(comp) == st && ec_pnode_get_node(st) == n, "result", "comp-pstate", "the state of a node is not restored after the completion of its child");
		size_t have = 0;
		for (struct ec_pnode *it = ec_pnode_get_first_child(st); it; it = ec_pnode_next(it)) have++;
		CHECK(have == k, "result", "comp-pstate", "the completion of a child leaves %zu states in that of its parent, there were %zu", have, k);
	};
	restored(0);
	auto before = S.fired;
	int r = ec_complete_child(p->c[0], comp, v);
	restored(0);
	if (r < 0 && !tolerant(n, before)) return -1;
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		struct ec_strvec *h = ec_strvec_ndup(v, 0, i);
		if (!h) return -1;
		r = ec_parse_child(p->c[0], st, h);
		ec_strvec_free(h);
		if (r < 0 && tolerant(n, before)) r = EC_PARSE_NOMATCH;
		if (r < 0) return -1;
		if (r == EC_PARSE_NOMATCH) continue;
		int q = 0;
		if ((size_t)r == i) {
			struct ec_strvec *t = ec_strvec_ndup(v, i, ec_strvec_len(v) - i);
			q = t ? ec_complete_child(p->c[1], comp, t) : -1;
			ec_strvec_free(t);
			restored(1);
		}
		ec_pnode_del_last_child(st);
		if (q < 0 && !tolerant(n, before)) return -1;
	}
	if (own) {
		struct ec_comp_item *it = add(EC_COMP_PARTIAL, nullptr, "Pair/");
		if (!it) return -1;
		CHECK(!ec_comp_item_get_completion(it), "result", "item-set", "an item that starts with nothing known has a completion");
		if (ec_comp_item_set_completion(it, "+") < 0 || ec_comp_item_set_str(it, "Pair:") < 0) {
			CHECK(S.faulted(), "spurious", "item-set", "setting the text of an item failed without any fault");
			return -1;
		}
	}
	return 0;
}
static size_t pair_count(const struct ec_node *n) { return ((PairPriv *)ec_node_priv(n))->c[0] ? 2 : 0; }
static int pair_child(const struct ec_node *n, size_t i, struct ec_node **c, unsigned *refs)
{
	PairPriv *p = (PairPriv *)ec_node_priv(n);
	if (i >= pair_count(n)) { errno = EINVAL; return -1; }
	*c = p->c[i];
	*refs = p->refs;
	return 0;
}

static struct ec_config_schema leaf_schema[3], node_elt[2], pair_schema[2];
static struct ec_node_type leaf_type, pair_type;

void ensure()
{
	if (done) return;
	done = true;
	leaf_schema[0].key = "text"; leaf_schema[0].desc = "The text."; leaf_schema[0].type = EC_CONFIG_TYPE_STRING;
	leaf_schema[1].key = "mode"; leaf_schema[1].desc = "The mode."; leaf_schema[1].type = EC_CONFIG_TYPE_UINT64;
	leaf_schema[2].type = EC_CONFIG_TYPE_NONE;
	node_elt[0].desc = "A child."; node_elt[0].type = EC_CONFIG_TYPE_NODE; node_elt[1].type = EC_CONFIG_TYPE_NONE;
	pair_schema[0].key = "children"; pair_schema[0].desc = "The children."; pair_schema[0].type = EC_CONFIG_TYPE_LIST;
	pair_schema[0].subschema = node_elt; pair_schema[1].type = EC_CONFIG_TYPE_NONE;
	leaf_type.name = "xleaf"; leaf_type.schema = leaf_schema; leaf_type.size = sizeof(LeafPriv); leaf_type.set_config = leaf_config; leaf_type.parse = leaf_parse;
	leaf_type.complete = leaf_complete; leaf_type.desc = leaf_desc; leaf_type.init_priv = leaf_init; leaf_type.free_priv = leaf_free;
	pair_type.name = "xpair"; pair_type.schema = pair_schema; pair_type.size = sizeof(PairPriv); pair_type.set_config = pair_config; pair_type.parse = pair_parse;
	pair_type.complete = pair_complete; pair_type.init_priv = pair_init; pair_type.free_priv = pair_free; pair_type.get_children_count = pair_count; pair_type.get_child = pair_child;
	static struct ec_node_type xo;
	xo.name = "xo"; xo.parse = leaf_parse; xo.schema = leaf_schema;
	if (ec_node_type_register(&xo, false) < 0 || ec_node_type_register(&leaf_type, false) < 0 || ec_node_type_register(&pair_type, false) < 0)
		violate("spurious", "register", "registering a node type failed");
}

struct ec_node *leaf(const char *id, const char *text, unsigned mode)
{
	struct ec_node *n = S.draw(2) ? ec_node("xleaf", id) : ec_node_from_type(&leaf_type, id);
	if (!n) return nullptr;
	struct ec_config *c = ec_config_dict();
	if (!c || ec_config_dict_set(c, "text", ec_config_string(text)) < 0 || (mode && ec_config_dict_set(c, "mode", ec_config_u64(mode)) < 0)) {
		ec_config_free(c);
		ec_node_free(n);
		return nullptr;
	}
	if (ec_node_set_config(n, c) < 0) { ec_node_free(n); return nullptr; }
	return n;
}

struct ec_node *pair(const char *id, struct ec_node *a, struct ec_node *b, bool via_config)
{
	struct ec_node *n = a && b ? ec_node("xpair", id) : nullptr;
	if (!n) { ec_node_free(a); ec_node_free(b); return nullptr; }
	if (!via_config) {
		PairPriv *p = (PairPriv *)ec_node_priv(n);
		p->c[0] = a;
		p->c[1] = b;
		p->refs = 1;
		return n;
	}
	struct ec_config *c = ec_config_dict(), *l = ec_config_list();
	int r = 0;
	if (ec_config_list_add(l, ec_config_node(a)) < 0) r = -1; // consumes its arguments, null or not
	if (ec_config_list_add(l, ec_config_node(b)) < 0) r = -1;
	if (r < 0) { ec_config_free(l); l = nullptr; }
	if (ec_config_dict_set(c, "children", l) < 0) r = -1;
	if (r < 0) { ec_config_free(c); ec_node_free(n); return nullptr; }
	if (ec_node_set_config(n, c) < 0) { ec_node_free(n); return nullptr; }
	return n;
}

static unsigned serial;
void op_register()
{
	S.opname = "type_register";
	S.op_repeatable = false;
	uint32_t k = S.draw(5);
	switch (k) {
	case 0: { // an existing name is refused
		static const char *names[] = { "xleaf", "seq", "str", "xpair", "file" };
		const char *nm = names[S.draw(5)];
		const struct ec_node_type *old = ec_node_type_lookup(nm);
		CHECK(old && !strcmp(ec_node_type_name(old), nm), "result", "lookup", "the registered type %s is not found", nm);
		struct ec_node_type *t = new struct ec_node_type();
		t->name = nm;
		errno = 0;
		int r = ec_node_type_register(t, false);
		CHECK(r < 0 && errno == EEXIST && ec_node_type_lookup(nm) == old, "result", "register", "registering a second type named %s: returned %d, errno %d", nm, r, errno);
		if (r < 0) delete t;
		break;
	}
	case 1: case 2: { // a new name, or an override
		bool over = k == 2;
		struct ec_node_type *t = new struct ec_node_type();
		char *nm = new char[24];
		if (over) strcpy(nm, "xo");
		else snprintf(nm, 24, "xn%u", ++serial);
		t->name = nm;
		t->parse = leaf_parse;
		t->schema = leaf_schema;
		static const size_t sizes[] = { 0, 1, 3, 4, 7, 13, 30, 64, 333 };
		t->size = sizes[S.draw(9)];
		const struct ec_node_type *before = ec_node_type_lookup(nm);
		CHECK(over || !before, "result", "lookup", "a type is found under a name never registered");
		struct ec_node *old = before ? ec_node(nm, "o") : nullptr;
		if (before && !old) CHECK(S.faulted(), "spurious", "constructor", "ec_node(%s) failed without any fault", over ? nm : "new type");
		int r = ec_node_type_register(t, over);
		CHECK(r == 0, "spurious", "register", "registering a node type failed");
		CHECK(ec_node_type_lookup(nm) == t && ec_node_type_schema(t) == leaf_schema && !strcmp(ec_node_type_name(t), nm), "result", "lookup", "the type just registered is not the one found");
		struct ec_node *n = ec_node(nm, "n");
		if (!n) CHECK(S.faulted(), "spurious", "constructor", "creating a node of a new type failed without any fault");
		else {
			CHECK(ec_node_type(n) == t && ec_node_check_type(n, t) == 0 && !strcmp(ec_node_get_type_name(n), nm) && !strcmp(ec_node_id(n), "n") && ec_node_get_children_count(n) == 0,
				"result", "type", "a node of a registered type has another type or identifier");
			CHECK(ec_node_check_type(n, &leaf_type) < 0 && errno == EINVAL, "result", "type", "a node passes for a node of another type");
			for (size_t l = 1; l <= strlen(nm) + 1; l++) { // types whose names extend each other are different types
				struct ec_node_type o = {};
				char on[32];
				snprintf(on, sizeof on, "%sx", nm);
				on[l] = 0;
				o.name = on;
				if (!strcmp(on, nm)) continue;
				errno = 0;
				CHECK(ec_node_check_type(n, &o) < 0 && errno == EINVAL, "result", "type", "a node of type %s passes for a node of type %s", nm, on);
			}
			unsigned char *pr = (unsigned char *)ec_node_priv(n); // private data: as large as the type says, zeroed, its own
			for (size_t i = 0; i < t->size; i++) {
				CHECK(pr[i] == 0, "result", "priv", "the private data of a new node is not zeroed");
				pr[i] = 0xE7;
			}
			struct ec_node *n2 = t->size ? ec_node(nm, "n2") : nullptr;
			if (n2) memset(ec_node_priv(n2), 0x3C, t->size);
			for (size_t i = 0; i < t->size; i++) CHECK(pr[i] == 0xE7, "result", "priv", "the private data of a node changed");
			ec_node_free(n2);
			struct ec_node *c;
			unsigned refs;
			CHECK(ec_node_get_child(n, 0, &c, &refs) < 0 && !c, "result", "child", "a node without children has a child");
		}
		if (old) CHECK(ec_node_type(old) == before, "result", "type", "the type of an existing node changed when another type was registered");
		ec_node_free(n);
		ec_node_free(old);
		break;
	}
	case 3: {
		errno = 0;
		CHECK(ec_node_type_lookup("xn") == nullptr && errno == ENOENT && !ec_node("xn", "a"), "result", "lookup", "an unknown type is found");
		CHECK(!ec_node("str", nullptr) && errno == EINVAL, "result", "no-id", "a node without identifier was created");
		break;
	}
	default: {
		char *buf = nullptr;
		size_t len = 0;
		{
			NoFault nf;
			FILE *f = open_memstream(&buf, &len);
			ec_node_type_dump(f);
			fclose(f);
		}
		std::string s = std::string("\n") + buf;
		real_free_buf(buf);
		for (const char *nm : { "xleaf", "xpair", "str", "seq", "cmd", "or", "file" })
			CHECK(s.find(fmt("\n%s\n", nm)) != std::string::npos, "result", "type-dump", "the list of types does not contain %s", nm);
		break;
	}
	}
	S.ev("type_register %u", k);
}
} // namespace xtype
