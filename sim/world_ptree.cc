// World "ptree": an application building, editing, copying and searching parse
// trees. Oracle: ordered trees.
#include "sim.h"
#include <functional>
using namespace sim;

static std::vector<int> a_freed;
static std::vector<std::unique_ptr<int>> a_tok;
static void attr_gone(void *p) { a_freed[*(int *)p]++; }

struct PTreeWorld : World {
	struct P { int node = -1; std::string tok; struct ec_pnode *real = nullptr; P *parent = nullptr; std::vector<P *> ch; std::map<std::string, std::shared_ptr<int>> attrs; };
	std::vector<std::unique_ptr<P>> pool;
	std::vector<P *> roots;
	std::vector<struct ec_node *> nodes;
	std::vector<std::weak_ptr<int>> alive;   // attribute values the model holds
	struct ec_node *gram = nullptr;
	explicit PTreeWorld(const std::string &) {}

	void setup() override
	{
		a_freed.clear();
		a_tok.clear();
		S.configure(1u << K_ALLOC | 1u << K_REALLOC, 8, 90);
		NoFault nf;
		static const char *ids[] = { "a", "b", "c", "a", "", "d", "aa", "x10", "A", "b-with-a-long-identifier", "b-with-a-long-identifiez" };
		for (auto id : ids) nodes.push_back(ec_node_str(id, "x"));
		// many(or(a b)) c? : parse trees with tokens
		gram = ec_node("many", "m");
		struct ec_node *o = ec_node("or", "o");
		ec_node_or_add(o, ec_node_str("x1", "foo"));
		ec_node_or_add(o, ec_node_seq_pair());
		set_many(gram, o);
	}
	static struct ec_node *ec_node_seq_pair() { struct ec_node *s = ec_node("seq", "a"); ec_node_seq_add(s, ec_node_str("b", "bar")); ec_node_seq_add(s, ec_node_str("c", "baz")); return s; }
	static void set_many(struct ec_node *m, struct ec_node *child)
	{
		struct ec_config *c = ec_config_dict();
		ec_config_dict_set(c, "child", ec_config_node(child));
		ec_node_set_config(m, c);
	}
	P *mk() { pool.emplace_back(new P()); return pool.back().get(); }
	void failed(const char *what)
	{
		CHECK(S.faulted(), "spurious", what, "%s failed without any fault", what);
	}
	void check_attrs()
	{
		for (size_t i = 0; i < alive.size(); i++)
			CHECK(a_freed[i] == (alive[i].expired() ? 1 : 0), "lifetime", "attr", "attribute value %zu was released %d times, expected %d", i, a_freed[i], alive[i].expired());
	}
	const char *nid(const P *p) { return p->real && ec_pnode_get_node(p->real) ? ec_node_id(ec_pnode_get_node(p->real)) : nullptr; }
	std::string id_of(const P *p) { return p->node == -1 ? "-" : p->node >= 0 ? ec_node_id(nodes[p->node]) : p->tok.substr(0, p->tok.find('=')); }
	std::string attrs_of(const P *p)
	{
		std::string o;
		for (auto &a : p->attrs) o += fmt("@%s=%d", a.first.c_str(), *a.second);
		return o;
	}
	std::string ser(const P *p)
	{
		std::string o = fmt("%s%s", id_of(p).c_str(), attrs_of(p).c_str());
		if (p->node == -2) o += p->tok.substr(p->tok.find('='));
		if (!p->ch.empty()) { o += "("; for (auto c : p->ch) o += ser(c) + " "; o += ")"; }
		return o;
	}
	std::string ser_real(struct ec_pnode *p, int depth = 0)
	{
		if (depth > 2000) violate("hang", "tree-depth", "a parse tree is not a tree any more");
		const struct ec_node *n = ec_pnode_get_node(p);
		std::string o = n ? ec_node_id(n) : "-";
		std::map<std::string, int> at;
		for (struct ec_dict_elt_ref *i = ec_dict_iter(ec_pnode_get_attrs(p)); i; i = ec_dict_iter_next(i))
			at[ec_dict_iter_get_key(i)] = *(int *)ec_dict_iter_get_val(i);
		for (auto &a : at) o += fmt("@%s=%d", a.first.c_str(), a.second);
		const struct ec_strvec *v = ec_pnode_get_strvec(p);
		CHECK((v != nullptr) == (ec_pnode_matches(p) != 0), "result", "matches", "a parse node with tokens does not match, or reverse");
		CHECK(ec_pnode_len(p) == (v ? ec_strvec_len(v) : 0), "result", "len", "length of a parse node");
		if (v) { o += "="; for (size_t i = 0; i < ec_strvec_len(v); i++) o += std::string(ec_strvec_val(v, i)) + ","; }
		struct ec_pnode *c;
		size_t k = 0;
		struct ec_pnode *last = nullptr;
		EC_PNODE_FOREACH_CHILD(c, p) {
			if (++k > 3000) violate("hang", "siblings", "iterating the children of a parse node does not terminate");
			CHECK(ec_pnode_get_parent(c) == p, "result", "parent", "the parent of a child is not its parent");
			if (k == 1) o += "(";
			o += ser_real(c, depth + 1) + " ";
			last = c;
		}
		if (k) o += ")";
		CHECK(ec_pnode_get_last_child(p) == last, "result", "last-child", "the last child of a parse node is wrong");
		return o;
	}
	void align(P *m, struct ec_pnode *r)
	{
		m->real = r;
		struct ec_pnode *c = ec_pnode_get_first_child(r);
		for (auto k : m->ch) { if (!c) return; align(k, c); c = ec_pnode_next(c); }
	}
	P *root_of(P *p) { while (p->parent) p = p->parent; return p; }
	void verify(P *p, const char *op, const char *cls = "result")
	{
		NoFault nf;
		P *r = root_of(p);
		std::string a = ser(r), b = ser_real(r->real);
		CHECK(a == b, cls, "tree", "after %s the tree is %s, expected %s", op, b.c_str(), a.c_str());
		CHECK(ec_pnode_get_root(p->real) == r->real && ec_pnode_get_parent(r->real) == nullptr && ec_pnode_next(r->real) == nullptr, "result", "root", "after %s the root of a tree is wrong", op);
	}
	void collect(P *p, std::vector<P *> &o) { o.push_back(p); for (auto c : p->ch) collect(c, o); }
	P *pick_root() { return roots.empty() ? nullptr : roots[S.draw((uint32_t)roots.size())]; }
	P *pick(P *root) { std::vector<P *> v; collect(root, v); return v[S.draw((uint32_t)v.size())]; }
	void forget(P *p) { p->attrs.clear(); for (auto c : p->ch) forget(c); p->ch.clear(); p->real = nullptr; }
	P *copy(const P *p, const P *mark, P **out)
	{
		P *n = mk();
		n->node = p->node; n->tok = p->tok; n->attrs = p->attrs;
		if (p == mark) *out = n;
		for (auto c : p->ch) { P *x = copy(c, mark, out); x->parent = n; n->ch.push_back(x); }
		return n;
	}
	void op_new()
	{
		S.opname = "pnode_new";
		int k = (int)S.draw((uint32_t)nodes.size() + 1) - 1;
		errno = 0;
		struct ec_pnode *r = ec_pnode(k < 0 ? nullptr : nodes[k]);
		S.ev("new %d -> %d", k, r != nullptr);
		if (!r) { failed("new"); return; }
		P *p = mk();
		p->node = k;
		p->real = r;
		roots.push_back(p);
		verify(p, "creation");
	}
	void op_parse()
	{
		S.opname = "pnode_parse";
		struct ec_strvec *v;
		std::vector<std::string> t;
		uint32_t n = S.draw(4);
		for (uint32_t i = 0; i < n; i++) { if (S.draw(2)) t.push_back("foo"); else { t.push_back("bar"); t.push_back("baz"); } }
		{
			NoFault nf;
			v = ec_strvec();
			for (auto &s : t) ec_strvec_add(v, s.c_str());
		}
		struct ec_pnode *r = ec_parse_strvec(gram, v);
		{ NoFault nf; ec_strvec_free(v); }
		S.ev("parse %u -> %d", n, r != nullptr);
		if (!r) { failed("parse"); return; }
		// build the expected tree
		auto node = [&](const std::string &id, const std::vector<std::string> &tk, P *parent) {
			P *p = mk();
			p->node = -2;
			p->tok = id + "=";
			for (auto &s : tk) p->tok += s + ",";
			p->parent = parent;
			if (parent) parent->ch.push_back(p);
			return p;
		};
		P *root = node("m", t, nullptr);
		for (size_t i = 0; i < t.size();) {
			if (t[i] == "foo") { P *o = node("o", { "foo" }, root); node("x1", { "foo" }, o); i++; }
			else { P *o = node("o", { "bar", "baz" }, root); P *s = node("a", { "bar", "baz" }, o); node("b", { "bar" }, s); node("c", { "baz" }, s); i += 2; }
		}
		align(root, r);
		roots.push_back(root);
		verify(root, "parsing");
	}
	void op_link()
	{
		P *a = pick_root(), *b = pick_root();
		if (!a || a == b) { op_new(); return; }
		std::vector<P *> v;
		collect(a, v);
		if (v.size() > 60) { op_free(); return; }
		P *t = pick(a);
		S.opname = "pnode_link";
		S.op_repeatable = false;
		ec_pnode_link_child(t->real, b->real);
		S.ev("link");
		t->ch.push_back(b);
		b->parent = t;
		roots.erase(std::find(roots.begin(), roots.end(), b));
		verify(t, "linking");
	}
	void op_unlink()
	{
		P *a = pick_root();
		P *t = a ? pick(a) : nullptr;
		if (!t) { op_new(); return; }
		S.opname = "pnode_unlink";
		ec_pnode_unlink_child(t->real);
		S.ev("unlink %d", t->parent != nullptr);
		if (t->parent) {
			t->parent->ch.erase(std::find(t->parent->ch.begin(), t->parent->ch.end(), t));
			t->parent = nullptr;
			roots.push_back(t);
			verify(a, "unlinking");
		}
		verify(t, "unlinking");
		check_attrs();
	}
	void op_dup()
	{
		P *a = pick_root();
		P *t = a ? pick(a) : nullptr;
		if (!t) { op_new(); return; }
		S.opname = "pnode_dup";
		errno = 0;
		struct ec_pnode *d = ec_pnode_dup(t->real);
		S.ev("dup -> %d", d != nullptr);
		if (!d) { failed("dup"); CHECK(errno != 0, "result", "errno", "a failed copy does not set errno"); }
		else {
			P *mark = nullptr;
			P *c = copy(a, t, &mark);
			align(c, ec_pnode_get_root(d));
			verify(c, "copy");
			CHECK(mark->real == d, "result", "dup-position", "the copy does not designate the corresponding position");
			roots.push_back(c);
		}
		verify(a, "copy", "atomicity");
		check_attrs();
	}
	void op_attr()
	{
		P *a = pick_root();
		P *t = a ? pick(a) : nullptr;
		if (!t) { op_new(); return; }
		S.opname = "pnode_attr";
		std::string k = fmt("k%u", S.draw(3));
		NoFault nf;
		auto v = std::make_shared<int>((int)a_tok.size());
		a_tok.emplace_back(new int(*v));
		a_freed.push_back(0);
		alive.push_back(v);
		int r = ec_dict_set(ec_pnode_get_attrs(t->real), k.c_str(), a_tok.back().get(), attr_gone);
		S.ev("attr %s", k.c_str());
		CHECK(r == 0, "spurious", "attr", "attaching an attribute failed");
		t->attrs[k] = v;
		v.reset();
		verify(a, "attaching an attribute");
		check_attrs();
	}
	void op_cut()
	{
		P *a = pick_root();
		P *t = a ? pick(a) : nullptr;
		if (!t) { op_new(); return; }
		if (S.draw(2)) {
			S.opname = "pnode_del_last";
			ec_pnode_del_last_child(t->real);
			if (!t->ch.empty()) { forget(t->ch.back()); t->ch.pop_back(); }
		} else {
			S.opname = "pnode_free_children";
			ec_pnode_free_children(t->real);
			for (auto c : t->ch) forget(c);
			t->ch.clear();
		}
		S.ev("%s", S.opname.c_str());
		verify(a, S.opname.c_str());
		check_attrs();
	}
	void op_free()
	{
		P *a = pick_root();
		if (!a) { op_new(); return; }
		S.opname = "pnode_free";
		S.ev("free");
		ec_pnode_free(a->real);
		forget(a);
		roots.erase(std::find(roots.begin(), roots.end(), a));
		check_attrs();
	}
	void preorder(P *p, std::vector<P *> &o) { o.push_back(p); for (auto c : p->ch) preorder(c, o); }
	void op_search()
	{
		P *a = pick_root();
		P *t = a ? pick(a) : nullptr;
		if (!t) { op_new(); return; }
		S.opname = "pnode_search";
		std::vector<P *> v;
		preorder(t, v);
		// full iteration from an inner node
		const struct ec_pnode *it = t->real;
		size_t i = 0;
		for (; it; it = EC_PNODE_ITER_NEXT(t->real, it, 1), i++) {
			CHECK(i < v.size() && v[i]->real == it, "result", "iter", "iterating a subtree yields a wrong node at position %zu of %zu", i, v.size());
		}
		CHECK(i == v.size(), "result", "iter", "iterating a subtree of %zu nodes yields %zu", v.size(), i);
		// going on after a subtree or into it
		i = 0;
		for (it = t->real; it;) {
			CHECK(i < v.size() && v[i]->real == it, "result", "iter", "iterating a subtree with jumps yields a wrong node at position %zu of %zu", i, v.size());
			bool into = S.draw(3) != 0;
			std::vector<P *> sub;
			preorder(v[i], sub);
			i += into ? 1 : sub.size();
			it = EC_PNODE_ITER_NEXT(t->real, it, into);
		}
		CHECK(i == v.size(), "result", "iter", "iterating a subtree of %zu nodes with jumps stops at %zu", v.size(), i);
		static const char *ids[] = { "a", "b", "c", "", "x1", "zz", "m", "x", "aa", "x10", "b-with-a-long-identifier", "b-with-a-long-identifiez" };
		const char *id = ids[S.draw(12)];
		const struct ec_pnode *f = ec_pnode_find(t->real, id);
		std::vector<bool> skip;
		size_t pos = 0;
		for (size_t n = 0;; n++) {
			while (pos < v.size() && (v[pos]->node == -1 || id_of(v[pos]) != id)) pos++;
			const struct ec_pnode *want = pos < v.size() ? v[pos]->real : nullptr;
			CHECK(f == want, "result", "find", "search result %zu for id '%s' is wrong", n, id);
			if (!f) break;
			bool children = S.draw(3) != 0;
			std::vector<P *> sub;
			preorder(v[pos], sub);
			pos += children ? 1 : sub.size();
			f = ec_pnode_find_next(t->real, f, id, children);
		}
		S.ev("search %s in %zu", id, v.size());
		verify(a, "search");
	}
	std::string dump(const P *p, int ind)
	{
		const struct ec_node *n = ec_pnode_get_node(p->real);
		char *d = n ? ec_node_desc(n) : nullptr;
		std::string o = std::string(ind * 4, ' ') + (d ? d : "none") + " type=" + (n ? ec_node_get_type_name(n) : "none") + " id=" + (n ? ec_node_id(n) : "none") + " vec=";
		ec_free(d);
		const struct ec_strvec *v = ec_pnode_get_strvec(p->real);
		if (!v) o += "none\n";
		else {
			o += fmt("strvec (len=%zu) [", ec_strvec_len(v));
			for (size_t i = 0; i < ec_strvec_len(v); i++) o += std::string(i ? ", " : "") + ec_strvec_val(v, i);
			o += "]\n";
		}
		for (auto c : p->ch) o += dump(c, ind + 1);
		return o;
	}
	void op_dump()
	{
		P *a = pick_root();
		if (!a) { op_new(); return; }
		S.opname = "pnode_dump";
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		P *t = pick(a);
		ec_pnode_dump(f, t->real);
		fclose(f);
		std::string o(buf, n);
		real_free_buf(buf);
		S.ev("dump %zu", n);
		if (!S.faulted()) {
			NoFault nf;
			std::string want = "------------------- parse dump:\n";
			if (t->ch.empty() && !ec_pnode_matches(t->real)) want += "no match\n";
			else want += dump(t, 0);
			CHECK(o == want, "result", "dump", "the dump of %s is %s", ser(t).c_str(), quote(o).c_str());
		}
		verify(a, "dump", "atomicity");
	}
	void op_null() // no tree at all is an empty one
	{
		S.opname = "null";
		CHECK(!ec_pnode_get_node(nullptr) && !ec_pnode_get_root(nullptr) && !ec_pnode_get_parent(nullptr) && !ec_pnode_get_attrs(nullptr) &&
			!ec_pnode_get_strvec(nullptr) && ec_pnode_len(nullptr) == 0 && !ec_pnode_matches(nullptr) && !ec_pnode_find(nullptr, "a"),
			"result", "null", "a query on no tree returns something");
		ec_pnode_free(nullptr);
		ec_pnode_free_children(nullptr);
	}
	void step() override
	{
		if (S.draw(200) == 0) { op_null(); return; }
		if (roots.size() > 10) { op_free(); return; }
		uint32_t o = S.draw(24);
		if (o < 3) op_new();
		else if (o < 6) op_parse();
		else if (o < 11) op_link();
		else if (o < 13) op_unlink();
		else if (o < 16) op_dup();
		else if (o < 18) op_attr();
		else if (o < 19) op_cut();
		else if (o < 22) op_search();
		else if (o < 23) op_dump();
		else op_free();
		if (P *r = pick_root()) verify(r, S.opname.c_str());
	}
	void teardown() override
	{
		while (!roots.empty()) { P *r = roots.back(); verify(r, "teardown"); ec_pnode_free(r->real); forget(r); roots.pop_back(); check_attrs(); }
		for (auto n : nodes) ec_node_free(n);
		ec_node_free(gram);
	}
};
static World *mk_ptree(const std::string &v) { return new PTreeWorld(v); }
REGISTER_WORLD("ptree", mk_ptree, "an application building, editing, copying and searching parse trees");
