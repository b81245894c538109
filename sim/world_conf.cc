// World "conf": an application building, editing, copying, comparing and
// validating configuration trees. Oracle: plain trees.
#include "sim.h"
#include <functional>
using namespace sim;

struct C {
	enum ec_config_type t;
	struct ec_config *real = nullptr;
	bool b = false; int64_t i = 0; uint64_t u = 0; std::string s; int node = -1;
	std::vector<C *> list; std::map<std::string, C *> dict;
};
static std::vector<int> n_freed;
static std::vector<std::unique_ptr<int>> n_tok;
static void node_gone(void *p) { n_freed[*(int *)p]++; }

struct ConfWorld : World {
	std::vector<std::unique_ptr<C>> pool;
	std::vector<C *> roots;
	struct Nd { struct ec_node *n; int handles = 0, in_conf = 0; };
	std::vector<Nd> nodes;
	bool big = false;
	explicit ConfWorld(const std::string &) {}

	void setup() override
	{
		n_freed.clear();
		n_tok.clear();
		big = S.draw(5) == 0;
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_STDIO, 8, 90);
	}
	C *mk(enum ec_config_type t) { pool.emplace_back(new C()); pool.back()->t = t; return pool.back().get(); }
	void failed(const char *what, int bad)
	{
		if (S.faulted()) return;
		CHECK(bad, "spurious", what, "%s failed without any fault on valid arguments", what);
		CHECK(errno != 0, "result", "errno", "%s failed without setting errno", what);
	}
	// ---- nodes
	int mknode()
	{
		NoFault nf;
		int i = (int)nodes.size();
		struct ec_node *n = ec_node_str("id", "x");
		n_tok.emplace_back(new int(i));
		n_freed.push_back(0);
		ec_dict_set(ec_node_attrs(n), "tok", n_tok.back().get(), node_gone);
		nodes.push_back({ n, 1, 0 });
		return i;
	}
	void check_nodes()
	{
		for (size_t i = 0; i < nodes.size(); i++) {
			int want = nodes[i].handles + nodes[i].in_conf == 0;
			CHECK(n_freed[i] == want, "lifetime", "node", "node %zu was destroyed %d times, expected %d (held by %d configurations)", i, n_freed[i], want, nodes[i].in_conf);
		}
	}
	void forget(C *c) // the library released this tree
	{
		if (c->t == EC_CONFIG_TYPE_NODE) nodes[c->node].in_conf--;
		for (auto x : c->list) forget(x);
		for (auto &x : c->dict) forget(x.second);
		c->real = nullptr;
	}
	// ---- comparison
	std::string ser(const C *c)
	{
		switch (c->t) {
		case EC_CONFIG_TYPE_BOOL: return fmt("b%d", c->b);
		case EC_CONFIG_TYPE_INT64: return fmt("i%lld", (long long)c->i);
		case EC_CONFIG_TYPE_UINT64: return fmt("u%llu", (unsigned long long)c->u);
		case EC_CONFIG_TYPE_STRING: return "s" + quote(c->s);
		case EC_CONFIG_TYPE_NODE: return fmt("n%d", c->node);
		case EC_CONFIG_TYPE_LIST: { std::string o = "["; for (auto x : c->list) o += ser(x) + ","; return o + "]"; }
		default: { std::string o = "{"; for (auto &x : c->dict) o += x.first + ":" + ser(x.second) + ","; return o + "}"; }
		}
	}
	std::string ser_real(struct ec_config *c, int depth = 0)
	{
		if (depth > 60) violate("hang", "config-depth", "a configuration tree is not a tree any more");
		switch (ec_config_get_type(c)) {
		case EC_CONFIG_TYPE_BOOL: return fmt("b%d", c->boolean);
		case EC_CONFIG_TYPE_INT64: return fmt("i%lld", (long long)c->i64);
		case EC_CONFIG_TYPE_UINT64: return fmt("u%llu", (unsigned long long)c->u64);
		case EC_CONFIG_TYPE_STRING: return "s" + quote(c->string);
		case EC_CONFIG_TYPE_NODE:
			for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].n == c->node && !n_freed[i]) return fmt("n%zu", i);
			return "n?";
		case EC_CONFIG_TYPE_LIST: {
			std::string o = "[";
			size_t n = 0;
			for (struct ec_config *x = ec_config_list_first(c); x; x = ec_config_list_next(c, x)) {
				if (++n > 2000) violate("hang", "config-list", "iterating a configuration list does not terminate");
				o += ser_real(x, depth + 1) + ",";
			}
			CHECK(ec_config_count(c) == (ssize_t)n, "result", "count", "a list of %zu elements reports %zd", n, ec_config_count(c));
			return o + "]";
		}
		case EC_CONFIG_TYPE_DICT: {
			std::map<std::string, std::string> m;
			size_t n = 0;
			for (struct ec_dict_elt_ref *i = ec_dict_iter(c->dict); i; i = ec_dict_iter_next(i)) {
				n++;
				const char *k = ec_dict_iter_get_key(i);
				struct ec_config *v = (struct ec_config *)ec_dict_iter_get_val(i);
				CHECK(ec_config_dict_get(c, k) == v, "result", "dict-get", "key %s of a configuration is not found", k);
				m[k] = ser_real(v, depth + 1);
			}
			CHECK(ec_config_count(c) == (ssize_t)n, "result", "count", "a dict of %zu elements reports %zd", n, ec_config_count(c));
			std::string o = "{";
			for (auto &x : m) o += x.first + ":" + x.second + ",";
			return o + "}";
		}
		default: return "?";
		}
	}
	void verify(C *root, const char *op, bool atom)
	{
		NoFault nf;
		std::string a = ser(root), b = ser_real(root->real);
		CHECK(a == b, atom ? "atomicity" : "result", "tree", "after %s the configuration is %s, expected %s", op, b.c_str(), a.c_str());
	}
	void align(C *m, struct ec_config *r) // real pointers of a fresh copy
	{
		m->real = r;
		if (m->t == EC_CONFIG_TYPE_LIST) {
			struct ec_config *x = ec_config_list_first(r);
			for (auto k : m->list) { if (!x) return; align(k, x); x = ec_config_list_next(r, x); }
		} else if (m->t == EC_CONFIG_TYPE_DICT) {
			NoFault nf;
			for (auto &k : m->dict) { struct ec_config *v = ec_config_dict_get(r, k.first.c_str()); if (!v) return; align(k.second, v); }
		}
	}
	C *copy(const C *c)
	{
		C *n = mk(c->t);
		n->b = c->b; n->i = c->i; n->u = c->u; n->s = c->s; n->node = c->node;
		if (c->t == EC_CONFIG_TYPE_NODE) nodes[c->node].in_conf++;
		for (auto x : c->list) n->list.push_back(copy(x));
		for (auto &x : c->dict) n->dict[x.first] = copy(x.second);
		return n;
	}
	size_t size(const C *c) { size_t n = 1; for (auto x : c->list) n += size(x); for (auto &x : c->dict) n += size(x.second); return n; }
	int height(const C *c) { int h = 0; for (auto x : c->list) h = std::max(h, height(x)); for (auto &x : c->dict) h = std::max(h, height(x.second)); return h + 1; }
	C *pick_root() { return roots.empty() ? nullptr : roots[S.draw((uint32_t)roots.size())]; }
	void collect(C *c, std::vector<C *> &o) { o.push_back(c); for (auto x : c->list) collect(x, o); for (auto &x : c->dict) collect(x.second, o); }
	C *pick_in(C *root, std::function<bool(C *)> f)
	{
		std::vector<C *> v, w;
		collect(root, v);
		for (auto x : v) if (f(x)) w.push_back(x);
		return w.empty() ? nullptr : w[S.draw((uint32_t)w.size())];
	}
	void unroot(C *c) { roots.erase(std::find(roots.begin(), roots.end(), c)); }

	std::string key() { static const char *k[] = { "a", "b", "c", "dd", "e", "min", "list", "x y", "" }; if (big && S.draw(2)) return S.draw(8) ? fmt("key%u", S.draw(50)) : std::string(1 + S.draw(300), 'k'); return k[S.draw(9)]; }
	// values that agree in their low or high half
	static uint64_t num() { uint64_t v = S.draw(3); static const int sh[] = { 0, 8, 16, 31, 32, 33, 62 }; v = (v << sh[S.draw(7)]) + S.draw(3); return S.draw(3) ? v : 0 - v; }
	C *create(bool nofault)
	{
		uint32_t k = S.draw(10);
		C *c = nullptr;
		struct ec_config *r = nullptr;
		bool bad = false;
		if (nofault) S.suspend++;
		errno = 0;
		switch (k) {
		case 0: c = mk(EC_CONFIG_TYPE_BOOL); c->b = S.draw(2); r = ec_config_bool(c->b); break;
		case 1: { static const int64_t v[] = { 0, -1, INT64_MIN, INT64_MAX, 42 }; c = mk(EC_CONFIG_TYPE_INT64); c->i = S.draw(2) ? v[S.draw(5)] : (int64_t)num(); r = ec_config_i64(c->i); break; }
		case 2: { static const uint64_t v[] = { 0, 1, UINT64_MAX, 1ull << 63, 7 }; c = mk(EC_CONFIG_TYPE_UINT64); c->u = S.draw(2) ? v[S.draw(5)] : num(); r = ec_config_u64(c->u); break; }
		case 3: case 4: {
			static const char *v[] = { "", "a", "hello world", "\x01\xff" };
			c = mk(EC_CONFIG_TYPE_STRING);
			c->s = v[S.draw(4)];
			if (big && S.draw(3) == 0) c->s = std::string(S.draw(600), 's') + c->s;
			bad = !nofault && S.draw(16) == 0;
			std::string tmp = c->s; // the string is copied
			r = ec_config_string(bad ? nullptr : tmp.c_str());
			break;
		}
		case 5: {
			c = mk(EC_CONFIG_TYPE_NODE);
			bad = !nofault && S.draw(16) == 0;
			if (bad) { r = ec_config_node(nullptr); break; }
			std::vector<int> alive;
			for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].handles) alive.push_back((int)i);
			int n = alive.empty() || S.draw(3) == 0 ? mknode() : alive[S.draw((uint32_t)alive.size())];
			c->node = n;
			struct ec_node *x = nodes[n].n;
			if (S.draw(2)) ec_node_clone(x); else nodes[n].handles--;
			r = ec_config_node(x);
			if (r) nodes[n].in_conf++;
			break;
		}
		case 6: case 7: c = mk(EC_CONFIG_TYPE_LIST); r = ec_config_list(); break;
		default: c = mk(EC_CONFIG_TYPE_DICT); r = ec_config_dict(); break;
		}
		if (nofault) S.suspend--;
		S.ev("create %d bad=%d -> %d", (int)c->t, bad, r != nullptr);
		if (!r) { failed("create", bad); return nullptr; }
		CHECK(!bad, "result", "create-invalid", "a configuration value was created from nothing");
		c->real = r;
		CHECK(ec_config_get_type(r) == c->t, "result", "type", "a new configuration has type %d, expected %d", (int)ec_config_get_type(r), (int)c->t);
		return c;
	}
	void op_create() { S.opname = "config_new"; C *c = create(false); if (c) { verify(c, "creation", false); roots.push_back(c); } check_nodes(); }
	// a value to insert: a new one or an existing root
	C *value(C *target_root)
	{
		if (S.draw(2)) {
			C *r = pick_root();
			if (r && r != target_root && size(r) < 25 && height(r) < 5) return r;
		}
		C *c = create(true);
		if (c) roots.push_back(c);
		return c;
	}
	void op_insert()
	{
		C *root = pick_root();
		if (!root) { op_create(); return; }
		bool wrong = S.draw(16) == 0;
		C *t = pick_in(root, [&](C *x) { return wrong || x->t == EC_CONFIG_TYPE_LIST || x->t == EC_CONFIG_TYPE_DICT; });
		if (!t || height(root) > 6 || size(root) > (big ? 160 : 60)) { op_create(); return; }
		bool as_list = t->t == EC_CONFIG_TYPE_LIST;
		if (wrong && S.draw(2)) as_list = !as_list;
		C *v = S.draw(20) ? value(root) : nullptr;
		S.op_repeatable = false;
		S.opname = as_list ? "config_list_add" : "config_dict_set";
		std::string k = key();
		bool nokey = !as_list && S.draw(24) == 0;
		bool bad = !v || nokey || t->t != (as_list ? EC_CONFIG_TYPE_LIST : EC_CONFIG_TYPE_DICT);
		errno = 0;
		int r = as_list ? ec_config_list_add(t->real, v ? v->real : nullptr) : ec_config_dict_set(t->real, nokey ? nullptr : k.c_str(), v ? v->real : nullptr);
		S.ev("insert list=%d key=%s bad=%d -> %d", as_list, k.c_str(), bad, r);
		if (v) unroot(v);
		if (r < 0) {
			failed("insert", bad);
			if (v) forget(v);
			verify(root, S.opname.c_str(), true);
		} else {
			CHECK(!bad, "result", "insert-invalid", "an invalid insertion succeeded");
			if (as_list) t->list.push_back(v);
			else {
				auto it = t->dict.find(k);
				if (it != t->dict.end()) { forget(it->second); it->second = v; } else t->dict[k] = v;
			}
			verify(root, S.opname.c_str(), false);
		}
		check_nodes();
	}
	void op_delete()
	{
		C *root = pick_root();
		if (!root) { op_create(); return; }
		C *t = pick_in(root, [&](C *x) { return x->t == EC_CONFIG_TYPE_LIST ? !x->list.empty() : x->t == EC_CONFIG_TYPE_DICT; });
		if (!t) { op_insert(); return; }
		int r;
		if (t->t == EC_CONFIG_TYPE_LIST) {
			S.opname = "config_list_del";
			size_t i = S.draw((uint32_t)t->list.size());
			r = ec_config_list_del(t->real, t->list[i]->real);
			S.ev("list_del %zu -> %d", i, r);
			CHECK(r == 0, "spurious", "list-del", "removing a list element failed");
			forget(t->list[i]);
			t->list.erase(t->list.begin() + i);
		} else {
			S.opname = "config_dict_del";
			std::string k = key();
			if (!t->dict.empty() && S.draw(3)) { auto it = t->dict.begin(); std::advance(it, S.draw((uint32_t)t->dict.size())); k = it->first; }
			errno = 0;
			r = ec_config_dict_del(t->real, k.c_str());
			S.ev("dict_del %s -> %d", k.c_str(), r);
			auto it = t->dict.find(k);
			CHECK((r == 0) == (it != t->dict.end()), "result", "dict-del", "deleting key %s returned %d", k.c_str(), r);
			if (r < 0) CHECK(errno != 0, "result", "errno", "a failed deletion does not set errno");
			if (it != t->dict.end()) { forget(it->second); t->dict.erase(it); }
		}
		verify(root, S.opname.c_str(), false);
		check_nodes();
	}
	void op_dup()
	{
		C *root = pick_root();
		if (!root) { op_create(); return; }
		C *t = pick_in(root, [&](C *) { return true; });
		S.opname = "config_dup";
		errno = 0;
		struct ec_config *d = ec_config_dup(t->real);
		S.ev("dup %zu -> %d", size(t), d != nullptr);
		if (!d) failed("dup", 0);
		else {
			C *c = copy(t);
			c->real = d;
			verify(c, "copy", false);
			align(c, d);
			roots.push_back(c);
			NoFault nf;
			CHECK(ec_config_cmp(t->real, d) == 0 && ec_config_cmp(d, t->real) == 0, "result", "dup-cmp", "a copy of a configuration is not equal to it");
		}
		verify(root, "copy", true);
		check_nodes();
	}
	// the same configuration, made again, with one difference somewhere
	struct ec_config *build(const C *c, const C *at, uint32_t how)
	{
		struct ec_config *r = nullptr;
		bool d = c == at;
		switch (c->t) {
		case EC_CONFIG_TYPE_BOOL: return ec_config_bool(c->b != d);
		case EC_CONFIG_TYPE_INT64: return ec_config_i64(d ? (int64_t)((uint64_t)c->i ^ 1ull << how) : c->i);
		case EC_CONFIG_TYPE_UINT64: return ec_config_u64(d ? c->u ^ 1ull << how : c->u);
		case EC_CONFIG_TYPE_STRING: {
			std::string x = c->s;
			if (d && (x.empty() || how % 3 == 0)) x += how % 2 ? " " : "x";
			else if (d && how % 3 == 1) x.pop_back();
			else if (d) x[how % x.size()] = x[how % x.size()] == 'q' ? 'r' : 'q';
			return ec_config_string(x.c_str());
		}
		case EC_CONFIG_TYPE_NODE: return d ? ec_config_string("") : ec_config_node(ec_node_clone(nodes[c->node].n));
		case EC_CONFIG_TYPE_LIST:
			r = ec_config_list();
			for (auto x : c->list) ec_config_list_add(r, build(x, at, how));
			if (d) {
				if (how % 2 || c->list.empty()) ec_config_list_add(r, c->list.empty() ? ec_config_bool(true) : build(c->list.back(), nullptr, 0));
				else ec_config_list_del(r, ec_config_list_first(r));
			}
			return r;
		default:
			r = ec_config_dict();
			for (auto &x : c->dict) ec_config_dict_set(r, x.first.c_str(), build(x.second, at, how));
			if (d) {
				if (how % 2 || c->dict.empty()) ec_config_dict_set(r, "one more", ec_config_i64(0));
				else {
					auto it = c->dict.begin();
					std::advance(it, how / 2 % c->dict.size());
					ec_config_dict_del(r, it->first.c_str());
					if (how % 4 == 0) ec_config_dict_set(r, (it->first + "'").c_str(), build(it->second, nullptr, 0));
				}
			}
			return r;
		}
	}
	void op_near()
	{
		C *root = pick_root();
		if (!root || size(root) > 120) { op_cmp(); return; }
		C *t = pick_in(root, [](C *) { return true; });
		C *at = S.draw(5) ? pick_in(t, [](C *) { return true; }) : nullptr;
		uint32_t how = S.draw(64);
		S.opname = "config_cmp";
		NoFault nf;
		struct ec_config *x = build(t, at, how);
		std::string xs = ser_real(x);
		bool eq = xs == ser(t);
		int r = ec_config_cmp(t->real, x), q = ec_config_cmp(x, t->real);
		S.ev("cmp near -> %d %d", r, q);
		CHECK((r == 0) == eq && (q == 0) == eq, "result", "cmp", "comparing %s and %s returns %d and %d", ser(t).c_str(), xs.c_str(), r, q);
		ec_config_free(x);
		check_nodes();
	}
	void op_cmp()
	{
		C *r1 = pick_root(), *r2 = pick_root();
		if (!r1) { op_create(); return; }
		C *a = pick_in(r1, [](C *) { return true; }), *b = pick_in(r2, [](C *) { return true; });
		S.opname = "config_cmp";
		int r = ec_config_cmp(a->real, b->real);
		bool eq = ser(a) == ser(b);
		S.ev("cmp -> %d", r);
		CHECK((r == 0) == eq, "result", "cmp", "comparing %s and %s returns %d", ser(a).c_str(), ser(b).c_str(), r);
		CHECK(ec_config_cmp(a->real, nullptr) == -1, "result", "cmp-null", "a configuration equals NULL");
	}
	// ---- schemas
	struct Schema { std::vector<std::unique_ptr<std::vector<struct ec_config_schema>>> arr; std::vector<std::unique_ptr<std::string>> str; };
	struct ec_config_schema leaf(Schema &s, const char *k, enum ec_config_type t, const struct ec_config_schema *sub)
	{
		const char *kk = nullptr;
		if (k) { s.str.emplace_back(new std::string(k)); kk = s.str.back()->c_str(); }
		return { kk, "d", t, sub };
	}
	struct ec_config_schema entry(Schema &s, const char *k, const C *c, int d)
	{
		if (c->t == EC_CONFIG_TYPE_LIST) {
			const C *e = c->list.empty() ? nullptr : c->list[S.draw((uint32_t)c->list.size())];
			auto v = new std::vector<struct ec_config_schema>();
			s.arr.emplace_back(v);
			if (e && d < 5) v->push_back(entry(s, nullptr, e, d + 1));
			else v->push_back(leaf(s, nullptr, EC_CONFIG_TYPE_BOOL, nullptr));
			v->push_back({ nullptr, nullptr, EC_CONFIG_TYPE_NONE, nullptr });
			return leaf(s, k, c->t, v->data());
		}
		if (c->t == EC_CONFIG_TYPE_DICT) return leaf(s, k, c->t, from(s, c, d + 1));
		return leaf(s, k, c->t, nullptr);
	}
	const struct ec_config_schema *from(Schema &s, const C *c, int d)
	{
		auto v = new std::vector<struct ec_config_schema>();
		s.arr.emplace_back(v);
		for (auto &x : c->dict) {
			if (S.draw(12) == 0) continue; // this key becomes unknown
			if (S.draw(12) == 0) v->push_back(leaf(s, x.first.c_str(), EC_CONFIG_TYPE_STRING, nullptr));
			else v->push_back(entry(s, x.first.c_str(), x.second, d));
		}
		if (S.draw(2) || v->empty()) v->push_back(leaf(s, "extra", EC_CONFIG_TYPE_UINT64, nullptr));
		if (S.draw(8) == 0) for (uint32_t i = 0, n = S.draw(9); i < n; i++) v->push_back(leaf(s, fmt("more%u", i).c_str(), (enum ec_config_type)(EC_CONFIG_TYPE_BOOL + S.draw(4)), nullptr));
		if (S.draw(2)) std::reverse(v->begin(), v->end());
		v->push_back({ nullptr, nullptr, EC_CONFIG_TYPE_NONE, nullptr });
		return v->data();
	}
	bool conf_list(const C *c, const struct ec_config_schema *s)
	{
		for (auto x : c->list) if (!conf_one(x, s)) return false;
		return true;
	}
	bool conf_one(const C *c, const struct ec_config_schema *s)
	{
		if (c->t != s->type) return false;
		if (c->t == EC_CONFIG_TYPE_LIST) return conf_list(c, s->subschema);
		if (c->t == EC_CONFIG_TYPE_DICT) return conf_dict(c, s->subschema);
		return true;
	}
	bool conf_dict(const C *c, const struct ec_config_schema *s)
	{
		for (auto &x : c->dict) {
			const struct ec_config_schema *e = nullptr;
			for (size_t i = 0; s[i].type != EC_CONFIG_TYPE_NONE; i++) if (x.first == s[i].key) e = &s[i];
			if (!e || !conf_one(x.second, e)) return false;
		}
		return true;
	}
	void op_validate()
	{
		C *root = pick_root();
		C *t = root ? pick_in(root, [](C *x) { return x->t == EC_CONFIG_TYPE_DICT; }) : nullptr;
		if (!t) { op_insert(); return; }
		S.opname = "config_validate";
		Schema s;
		const struct ec_config_schema *sc = from(s, t, 0);
		int bad = 0;
		if (S.draw(3) == 0) { // damage the schema somewhere
			bad = 1 + (int)S.draw(10);
			std::vector<std::vector<struct ec_config_schema> *> fit; // where this damage can be done
			for (auto &x : s.arr) if (((*x)[0].key == nullptr) == (bad == 6) || bad > 6 || bad == 3 || bad == 4) fit.push_back(x.get());
			auto &v = fit.empty() ? *s.arr[0] : *fit[S.draw((uint32_t)fit.size())];
			auto &e = v[S.draw((uint32_t)v.size() - 1)];
			bool in_list = v[0].key == nullptr;
			switch (bad) {
			case 1: if (in_list) bad = 0; else { s.str.emplace_back(new std::string(std::vector<const char *>{ "id", "help", "attrs", "type" }[S.draw(4)])); e.key = s.str.back()->c_str(); } break;
			case 2: if (in_list) bad = 0; else e.key = nullptr; break;
			case 3: if (e.subschema) e.subschema = nullptr; else bad = 0; break;
			case 4: if (!e.subschema) e.subschema = sc; else bad = 0; break;
			case 5: {
				if (in_list || v.size() < 3) { bad = 0; break; }
				uint32_t n = (uint32_t)v.size() - 1, i = S.draw(n), j = (i + 1 + S.draw(n - 1)) % n;
				s.str.emplace_back(new std::string(v[i].key));
				v[j].key = s.str.back()->c_str();
				break;
			}
			case 7: if (e.subschema) bad = 0; else e.type = (enum ec_config_type)99; break;
			case 8: case 9: case 10: { // a list has exactly one kind of elements, a dict at least one key
				bool list = e.type == EC_CONFIG_TYPE_LIST;
				if (!e.subschema || (bad == 10) == list) { bad = 0; break; }
				auto nv = new std::vector<struct ec_config_schema>();
				s.arr.emplace_back(nv);
				if (bad == 8) { nv->push_back(e.subschema[0]); nv->push_back(e.subschema[0]); }
				nv->push_back({ nullptr, nullptr, EC_CONFIG_TYPE_NONE, nullptr });
				e.subschema = nv->data();
				break;
			}
			default: if (in_list) { s.str.emplace_back(new std::string("k")); e.key = s.str.back()->c_str(); } else bad = 0; break;
			}
		}
		errno = 0;
		int r = ec_config_schema_validate(sc);
		S.ev("schema bad=%d -> %d", bad, r);
		CHECK((r == 0) == (bad == 0), "result", "schema", "a %s schema is %s", bad ? fmt("damaged (%d)", bad).c_str() : "valid", r == 0 ? "accepted" : "refused");
		if (r < 0) CHECK(errno != 0 || S.faulted(), "result", "errno", "a refused schema does not set errno");
		if (bad) return;
		if (S.draw(6) == 0) inspect_schema(sc);
		errno = 0;
		r = ec_config_validate(t->real, sc);
		bool want = conf_dict(t, sc);
		S.ev("validate %s -> %d", ser(t).c_str(), r);
		if (want) probe("config_valid"); else probe("config_invalid");
		if (r < 0 && want) failed("validate", 0);
		CHECK((r == 0) == want || (r < 0 && S.faulted()), "result", "validate", "validation of %s returns %d", ser(t).c_str(), r);
		if (r < 0) CHECK(errno != 0, "result", "errno", "a failed validation does not set errno");
		verify(root, "validation", false);
	}
	// dumps, with the elements of dictionaries (in no particular order) sorted
	std::string canon_dump(const C *c, const std::string &key, int ind)
	{
		std::string o = std::string(ind * 4, ' ') + key;
		static const char *tn[] = { "bool", "int64", "uint64", "string", "node", "list", "dict" };
		switch (c->t) {
		case EC_CONFIG_TYPE_BOOL: return o + "type=" + tn[0] + (c->b ? " val=true\n" : " val=false\n");
		case EC_CONFIG_TYPE_INT64: return o + "type=" + tn[1] + fmt(" val=%lld\n", (long long)c->i);
		case EC_CONFIG_TYPE_UINT64: return o + "type=" + tn[2] + fmt(" val=%llu\n", (unsigned long long)c->u);
		case EC_CONFIG_TYPE_STRING: return o + "type=" + tn[3] + " val=" + c->s + "\n";
		case EC_CONFIG_TYPE_NODE: return o + "type=" + tn[4] + fmt(" val=%p\n", (void *)nodes[c->node].n);
		case EC_CONFIG_TYPE_LIST: o += "type=list\n"; for (auto x : c->list) o += canon_dump(x, "", ind + 1); return o;
		default: {
			o += "type=dict\n";
			std::vector<std::string> v;
			for (auto &x : c->dict) v.push_back(canon_dump(x.second, "key=" + x.first + " ", ind + 1));
			std::sort(v.begin(), v.end());
			for (auto &x : v) o += x;
			return o;
		}
		}
	}
	std::string canon_lines(const std::vector<std::string> &ln, size_t &at, size_t ind)
	{
		if (at >= ln.size()) return "";
		std::string o = ln[at++], l = o + "\n";
		auto deeper = [&] { return at < ln.size() && ln[at].size() > ind * 4 && !ln[at].compare(0, (ind + 1) * 4, std::string((ind + 1) * 4, ' ')); };
		std::vector<std::string> v;
		while (deeper()) v.push_back(canon_lines(ln, at, ind + 1));
		if (o.size() >= 9 && !o.compare(o.size() - 9, 9, "type=dict")) std::sort(v.begin(), v.end());
		for (auto &x : v) l += x;
		return l;
	}
	std::string sdump(const struct ec_config_schema *s, int ind)
	{
		std::string o;
		for (; s->type != EC_CONFIG_TYPE_NONE; s++) {
			static const std::map<int, const char *> tn = { { EC_CONFIG_TYPE_BOOL, "bool" }, { EC_CONFIG_TYPE_INT64, "int64" }, { EC_CONFIG_TYPE_UINT64, "uint64" }, { EC_CONFIG_TYPE_STRING, "string" },
				{ EC_CONFIG_TYPE_NODE, "node" }, { EC_CONFIG_TYPE_LIST, "list" }, { EC_CONFIG_TYPE_DICT, "dict" } };
			o += std::string(ind * 4, ' ') + (s->key ? fmt("key=%s ", s->key) : std::string()) + fmt("type=%s desc='%s'\n", tn.at(s->type), s->desc);
			if (s->subschema) o += sdump(s->subschema, ind + 1);
		}
		return o;
	}
	void inspect_schema(const struct ec_config_schema *sc)
	{
		size_t n = 0;
		for (; sc[n].type != EC_CONFIG_TYPE_NONE; n++) {
			const struct ec_config_schema *e = ec_config_schema_lookup(sc, sc[n].key);
			CHECK(e == &sc[n] && ec_config_schema_type(e) == sc[n].type && ec_config_schema_sub(e) == sc[n].subschema, "result", "schema-lookup", "key %s of a schema is not found", sc[n].key);
		}
		errno = 0;
		CHECK(!ec_config_schema_lookup(sc, "no such key") && errno == ENOENT, "result", "schema-lookup", "an unknown key is found in a schema");
		char *buf = nullptr;
		size_t len = 0;
		FILE *f = open_memstream(&buf, &len);
		ec_config_schema_dump(f, sc);
		fclose(f);
		std::string o(buf, len);
		real_free_buf(buf);
		CHECK(o == "------------------- schema dump:\n" + sdump(sc, 0), "result", "schema-dump", "the dump of a schema is %s", quote(o).c_str());
	}
	// requests that designate nothing
	void op_misuse()
	{
		C *root = pick_root();
		if (!root) { op_create(); return; }
		S.opname = "config_misuse";
		C *t = pick_in(root, [](C *) { return true; });
		bool l = t->t == EC_CONFIG_TYPE_LIST, d = t->t == EC_CONFIG_TYPE_DICT;
		errno = 0;
		if (!l) CHECK(!ec_config_list_first(t->real) && errno == EINVAL, "result", "misuse", "something that is not a list has a first element");
		errno = 0;
		if (!l && !d) CHECK(ec_config_count(t->real) < 0 && errno == EINVAL, "result", "misuse", "something that is neither a list nor a dict has elements");
		errno = 0;
		if (!d) CHECK(!ec_config_dict_get(t->real, "a") && errno == EINVAL, "result", "misuse", "something that is not a dict has keys");
		errno = 0;
		if (!d) CHECK(ec_config_dict_del(t->real, "a") < 0 && errno == EINVAL, "result", "misuse", "a key of something that is not a dict was deleted");
		errno = 0;
		if (d) CHECK(ec_config_dict_del(t->real, nullptr) < 0 && errno == EINVAL, "result", "misuse", "no key was deleted");
		static const struct ec_config_schema one[] = { { "a", "d", EC_CONFIG_TYPE_BOOL, nullptr }, { nullptr, nullptr, EC_CONFIG_TYPE_NONE, nullptr } };
		errno = 0;
		if (!d) CHECK(ec_config_validate(t->real, one) < 0 && errno == EINVAL, "result", "misuse", "something that is not a dict was validated");
		errno = 0;
		if (d) CHECK(ec_config_validate(t->real, nullptr) < 0 && errno == EINVAL, "result", "misuse", "a configuration was validated without schema");
		errno = 0;
		CHECK(!ec_config_dup(nullptr) && errno == EINVAL && !ec_config_dict_get(nullptr, "a") && !ec_config_list_first(nullptr) && ec_config_cmp(nullptr, t->real) < 0, "result", "misuse", "no configuration was accepted");
		CHECK(ec_config_key_is_reserved("id") && ec_config_key_is_reserved("attrs") && ec_config_key_is_reserved("help") && ec_config_key_is_reserved("type") && !ec_config_key_is_reserved("") && !ec_config_key_is_reserved("i") && !ec_config_key_is_reserved("ids"),
			"result", "reserved", "the reserved keys are wrong");
		if (S.draw(3) == 0) { // values are consumed even if there is nothing to put them in
			C *v = create(true);
			if (v) {
				int r = S.draw(2) ? ec_config_list_add(nullptr, v->real) : ec_config_dict_set(nullptr, "a", v->real);
				CHECK(r < 0, "result", "misuse", "a value was added to nothing");
				forget(v);
			}
		}
		S.ev("misuse");
		verify(root, S.opname.c_str(), true);
		check_nodes();
	}
	void op_dump()
	{
		C *root = pick_root();
		if (!root) { op_create(); return; }
		S.opname = "config_dump";
		char *buf = nullptr;
		size_t n = 0;
		FILE *f = open_memstream(&buf, &n);
		ec_config_dump(f, root->real);
		fclose(f);
		std::string o(buf, n);
		real_free_buf(buf);
		S.ev("dump %zu faults=%d", o.size(), S.faulted());
		std::string err = "error while dumping\n";
		bool cut = o.size() >= err.size() && !o.compare(o.size() - err.size(), err.size(), err);
		CHECK(!cut || S.faulted(), "spurious", "dump", "dumping a configuration failed");
		if (!cut) {
			std::string head = "------------------- config dump:\n";
			CHECK(!o.compare(0, head.size(), head), "result", "dump", "the dump starts with %s", quote(o.substr(0, 60)).c_str());
			std::vector<std::string> ln;
			for (size_t i = head.size(), j; i < o.size(); i = j + 1) { j = o.find('\n', i); if (j == std::string::npos) j = o.size(); ln.push_back(o.substr(i, j - i)); }
			size_t at = 0;
			std::string got = canon_lines(ln, at, 0), want = canon_dump(root, "", 0);
			CHECK(got == want && at == ln.size(), "result", "dump", "the dump of %s is %s", ser(root).c_str(), quote(o).c_str());
		}
		verify(root, "dump", true);
	}
	void op_free()
	{
		C *root = pick_root();
		S.opname = "config_free";
		if (root) {
			S.ev("free %zu", size(root));
			ec_config_free(root->real);
			forget(root);
			unroot(root);
		}
		for (size_t i = 0; i < nodes.size(); i++)
			if (nodes[i].handles && S.draw(4) == 0) { nodes[i].handles--; ec_node_free(nodes[i].n); }
		check_nodes();
	}
	void step() override
	{
		if (roots.size() > 12) { op_free(); return; }
		uint32_t o = S.draw(24);
		if (o < 3) op_create();
		else if (o < 12) { uint32_t n = big && S.draw(4) == 0 ? S.draw(30) : 1; do op_insert(); while (n-- > 1); }
		else if (o < 14) op_delete();
		else if (o < 17) op_dup();
		else if (o < 18) { if (S.draw(2)) op_near(); else op_cmp(); }
		else if (o < 21) op_validate();
		else if (o < 22) { if (S.draw(3)) op_dump(); else op_misuse(); }
		else op_free();
		if (C *r = pick_root()) verify(r, S.opname.c_str(), true);
	}
	void teardown() override
	{
		while (!roots.empty()) { C *r = roots.back(); verify(r, "teardown", true); ec_config_free(r->real); forget(r); roots.pop_back(); check_nodes(); }
		for (auto &n : nodes) while (n.handles) { n.handles--; ec_node_free(n.n); }
		check_nodes();
	}
};
static World *mk_conf(const std::string &v) { return new ConfWorld(v); }
REGISTER_WORLD("conf", mk_conf, "an application building, editing, copying and validating configuration trees");
