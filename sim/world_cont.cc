// World "cont": an application using dictionaries, hash tables, vectors and
// string vectors, sharing elements between copies. Oracle: maps and sequences.
#include "sim.h"
#include <functional>
#include <deque>
using namespace sim;

struct Cell { int val; int holders = 0; bool has_cb = false; };   // one stored value
static std::vector<int> g_freed;                                    // how often each value was released
static std::vector<std::unique_ptr<int>> g_vals;
static void on_free(void *p) { if (p) g_freed[*(int *)p]++; }
static int new_val() { int i = (int)g_vals.size(); g_vals.emplace_back(new int(i)); g_freed.push_back(0); return i; }

struct Map {
	bool dict; struct ec_dict *d = nullptr; struct ec_htable *h = nullptr;
	std::map<std::string, std::shared_ptr<Cell>> m;
};
struct VecElt { std::string bytes; int val = -1; };
struct Vec { int kind; struct ec_vec *v; std::vector<VecElt> e; }; // kind: 0 u8 1 u16 2 u32 3 u64 4 owned ptr 5 12-byte struct 6 300-byte struct
struct SCell { std::string s; int attr = -1; int holders = 0; };
struct SVec { struct ec_strvec *v; std::vector<std::shared_ptr<SCell>> e; };

struct ContWorld : World {
	std::string variant;
	std::vector<std::unique_ptr<Map>> maps;
	std::vector<std::unique_ptr<Vec>> vecs;
	std::vector<std::unique_ptr<SVec>> svs;
	std::vector<int> expect;        // expected release counts
	explicit ContWorld(const std::string &v) : variant(v) {}

	void setup() override
	{
		g_freed.clear();
		g_vals.clear();
		S.configure(1u << K_ALLOC | 1u << K_REALLOC, 8, 90);
	}
	int mkval() { int v = new_val(); expect.push_back(0); return v; }
	void drop(std::shared_ptr<Cell> &c) { if (--c->holders == 0 && c->has_cb) expect[c->val]++; }
	void drops(std::shared_ptr<SCell> &c) { if (--c->holders == 0 && c->attr >= 0) expect[c->attr]++; }
	void check_released()
	{
		for (size_t i = 0; i < g_freed.size(); i++)
			CHECK(g_freed[i] == expect[i], "lifetime", "release", "value %zu was released %d times, expected %d", i, g_freed[i], expect[i]);
	}
	void failed(const char *what, int bad)
	{
		if (S.faulted()) return;
		CHECK(bad, "spurious", what, "%s failed without any fault on valid arguments", what);
		CHECK(errno != 0, "result", "errno", "%s failed without setting errno", what);
	}
	std::string key(bool dict = true)
	{
		if (S.draw(16) == 0) { // awkward keys: empty, binary, differing only after a NUL or in the high bits
			uint32_t k = S.draw(6);
			if (dict) {
				static const char *d[] = { "", " ", "\xff\xfe", "k", "K1", "\x01" };
				return d[k];
			}
			static const std::string h[] = { std::string("\0", 1), std::string("\0\0", 2), std::string("k1\0", 3), std::string("k1\0x", 4), std::string("k1\0y", 4), std::string("\xff\0\xff\0\xff\0\xff\x80", 8) };
			return h[k];
		}
		// 1..90 distinct keys, some sharing prefixes, some longer than a hash block
		uint32_t k = S.draw(6) ? S.draw(14) : S.draw(90);
		if (S.draw(24) == 0) { // long keys of one length that differ in one place only
			static const int len[] = { 9, 17, 33, 70, 260 };
			std::string s((size_t)len[S.draw(5)], 'p');
			s[S.draw(2) ? s.size() - 1 : S.draw((uint32_t)s.size())] = (char)('a' + k % 26);
			return s;
		}
		if (S.draw(1200) == 0) return std::string(65530 + S.draw(12), 'L') + fmt("%u", k % 3);
		return S.draw(12) ? fmt("k%u", k) : fmt("a-much-longer-key-%u-%s", k % 5, std::string(k % 17, 'x').c_str());
	}

	static std::string dump(const std::function<void(FILE *)> &f)
	{
		char *b = nullptr; size_t n = 0;
		FILE *o;
		{ NoFault nf; o = open_memstream(&b, &n); }
		f(o);
		NoFault nf;
		fclose(o);
		std::string r(b, n);
		free(b);
		return r;
	}
	// ---------------------------------------------------------------- maps
	void verify(Map &m, const char *op)
	{
		NoFault nf;
		size_t len = m.dict ? ec_dict_len(m.d) : ec_htable_len(m.h);
		CHECK(len == m.m.size(), "result", "len", "after %s the table reports %zu elements, expected %zu", op, len, m.m.size());
		std::map<std::string, const void *> seen;
		size_t n = 0;
		if (m.dict) {
			for (struct ec_dict_elt_ref *i = ec_dict_iter(m.d); i; i = ec_dict_iter_next(i)) {
				if (++n > 5000) violate("hang", "iterator", "iterating a dictionary does not terminate");
				CHECK(seen.emplace(ec_dict_iter_get_key(i), ec_dict_iter_get_val(i)).second, "result", "iter", "after %s iteration yields a key twice", op);
			}
		} else {
			for (struct ec_htable_elt_ref *i = ec_htable_iter(m.h); i; i = ec_htable_iter_next(i)) {
				if (++n > 5000) violate("hang", "iterator", "iterating a hash table does not terminate");
				CHECK(seen.emplace(std::string((const char *)ec_htable_iter_get_key(i), ec_htable_iter_get_key_len(i)), ec_htable_iter_get_val(i)).second,
					"result", "iter", "after %s iteration yields a key twice", op);
			}
		}
		CHECK(seen.size() == m.m.size(), "result", "iter", "after %s iteration yields %zu elements, expected %zu", op, seen.size(), m.m.size());
		for (auto &x : m.m) {
			const void *want = x.second->val < 0 ? nullptr : g_vals[x.second->val].get();
			errno = 5;
			const void *got = m.dict ? ec_dict_get(m.d, x.first.c_str()) : ec_htable_get(m.h, x.first.data(), x.first.size());
			CHECK(got == want, "result", "get", "after %s the value of key %s is wrong", op, quote(x.first).c_str());
			if (!want) CHECK(errno == 0, "result", "get-null", "getting a NULL value does not clear errno");
			bool has = m.dict ? ec_dict_has_key(m.d, x.first.c_str()) : ec_htable_has_key(m.h, x.first.data(), x.first.size());
			CHECK(has, "result", "has", "after %s the key %s is missing", op, quote(x.first).c_str());
			auto it = seen.find(x.first);
			CHECK(it != seen.end() && it->second == want, "result", "iter", "after %s iteration misses key %s", op, quote(x.first).c_str());
		}
	}
	// many copies of the same elements at once
	void op_crowd()
	{
		S.opname = "crowd";
		uint32_t n = 200 + S.draw(150), left = S.draw(3);
		if (S.draw(2) || svs.empty()) {
			Map *m = pick_map();
			if (!m || m->m.size() > 6) return;
			NoFault nf;
			std::vector<void *> c;
			for (uint32_t i = 0; i < n; i++) {
				c.push_back(m->dict ? (void *)ec_dict_dup(m->d) : (void *)ec_htable_dup(m->h));
				CHECK(c.back(), "spurious", "dup", "copying a table failed without any fault");
			}
			S.ev("crowd of %u tables", n);
			for (uint32_t i = 0; i < n; i++) {
				if (m->dict) ec_dict_free((struct ec_dict *)c[i]); else ec_htable_free((struct ec_htable *)c[i]);
				if (i % 50 == left) verify(*m, "crowd");
			}
			verify(*m, "crowd");
		} else {
			SVec &v = *svs[S.draw((uint32_t)svs.size())];
			if (v.e.size() > 6) return;
			NoFault nf;
			std::vector<struct ec_strvec *> c;
			for (uint32_t i = 0; i < n; i++) {
				c.push_back(ec_strvec_dup(v.v));
				CHECK(c.back(), "spurious", "dup", "copying a string vector failed without any fault");
			}
			S.ev("crowd of %u string vectors", n);
			for (uint32_t i = 0; i < n; i++) {
				ec_strvec_free(c[i]);
				if (i % 50 == left) verify(v, "crowd");
			}
			verify(v, "crowd");
		}
		check_released();
	}
	Map *pick_map() { return maps.empty() ? nullptr : maps[S.draw((uint32_t)maps.size())].get(); }
	void op_map_new()
	{
		bool dict = S.draw(2);
		S.opname = dict ? "dict_new" : "htable_new";
		auto m = std::make_unique<Map>();
		m->dict = dict;
		errno = 0;
		if (dict) m->d = ec_dict(); else m->h = ec_htable();
		S.ev("%s -> %d", S.opname.c_str(), m->d || m->h);
		if (!m->d && !m->h) { failed("new", 0); return; }
		maps.push_back(std::move(m));
	}
	bool map_set(Map *m, const std::string &k)
	{
		uint32_t vk = S.draw(8);
		int v = vk == 0 ? -1 : mkval();
		bool cb = vk != 1;
		int bad = S.draw(24) == 0 ? 1 + (int)S.draw(m->dict ? 1 : 2) : 0;
		void *val = v < 0 ? nullptr : g_vals[v].get();
		errno = 0;
		int r;
		if (m->dict) r = ec_dict_set(m->d, bad ? nullptr : k.c_str(), val, cb ? on_free : nullptr);
		else r = ec_htable_set(m->h, bad == 1 ? nullptr : k.data(), bad == 2 ? 0 : k.size(), val, cb ? on_free : nullptr);
		S.ev("set %.70s (%zu) val=%d cb=%d bad=%d -> %d", k.c_str(), k.size(), v, cb, bad, r);
		if (r < 0) {
			failed("set", bad);
			if (v >= 0 && cb) expect[v]++;
			return false;
		}
		CHECK(!bad, "result", "set-invalid", "setting a value without a key succeeded");
		auto c = std::make_shared<Cell>();
		c->val = v; c->has_cb = cb && v >= 0; c->holders = 1;
		auto it = m->m.find(k);
		if (it != m->m.end()) { drop(it->second); it->second = c; }
		else m->m[k] = c;
		return true;
	}
	void op_map()
	{
		Map *m = pick_map();
		if (!m) { op_map_new(); return; }
		uint32_t o = S.draw(20);
		if (o < 8) { S.opname = "map_set"; map_set(m, key(m->dict)); }
		else if (o < 10) { // grow
			S.opname = "map_grow";
			uint32_t n = 2 + S.draw(30);
			if (S.draw(40) == 0) { // many elements: several table sizes
				n = 100 + S.draw(500);
				uint32_t from = S.draw(300);
				for (uint32_t i = 0; i < n; i++) if (!map_set(m, fmt("n%u", from + i))) break;
			} else
			for (uint32_t i = 0; i < n; i++) if (!map_set(m, key(m->dict))) break;
			S.op_repeatable = false;
		} else if (o < 13) {
			S.opname = "map_del";
			std::string k = key(m->dict);
			if (!m->m.empty() && S.draw(3)) { auto it = m->m.begin(); std::advance(it, S.draw((uint32_t)m->m.size())); k = it->first; }
			errno = 0;
			int r = m->dict ? ec_dict_del(m->d, k.c_str()) : ec_htable_del(m->h, k.data(), k.size());
			S.ev("del %.70s -> %d", k.c_str(), r);
			auto it = m->m.find(k);
			CHECK((r == 0) == (it != m->m.end()), "result", "del", "deleting key %s returned %d", quote(k).c_str(), r);
			if (r < 0) CHECK(errno == ENOENT, "result", "errno", "deleting an absent key sets errno %d", errno);
			if (it != m->m.end()) { drop(it->second); m->m.erase(it); }
		} else if (o == 13 && S.draw(2)) {
			S.opname = "map_dump";
			std::string got = dump([&](FILE *f) { if (m->dict) ec_dict_dump(f, m->d); else ec_htable_dump(f, m->h); });
			std::string want = m->dict ? "dict:\n" : fmt("htable: %zu elements\n", m->m.size());
			if (!m->dict) CHECK(got == want, "result", "dump", "dumping a hash table gives %s", quote(got).c_str());
			else { // one line per element, in any order
				CHECK(!got.compare(0, want.size(), want), "result", "dump", "dumping a dictionary gives %s", quote(got).c_str());
				std::multiset<std::string> gl, wl;
				for (size_t a = want.size(), b; a < got.size(); a = b + 1) { b = got.find('\n', a); if (b == std::string::npos) b = got.size(); gl.insert(got.substr(a, b - a)); }
				for (auto &x : m->m) wl.insert("  " + x.first + ": " + fmt("%p", x.second->val < 0 ? nullptr : (void *)g_vals[x.second->val].get()));
				CHECK(gl == wl, "result", "dump", "dumping a dictionary of %zu elements gives %s", wl.size(), quote(got).c_str());
			}
			S.ev("dump %zu", m->m.size());
		} else if (o < 15) {
			S.opname = "map_get";
			std::string k = key(m->dict);
			errno = 0;
			const void *g = m->dict ? ec_dict_get(m->d, k.c_str()) : ec_htable_get(m->h, k.data(), k.size());
			auto it = m->m.find(k);
			S.ev("get %.70s -> %d", k.c_str(), g != nullptr);
			if (it == m->m.end()) CHECK(!g && errno == ENOENT, "result", "get", "an absent key has a value");
			else CHECK(g == (it->second->val < 0 ? nullptr : g_vals[it->second->val].get()), "result", "get", "wrong value for %s", k.c_str());
		} else if (o < 18) {
			S.opname = "map_dup";
			auto n = std::make_unique<Map>();
			n->dict = m->dict;
			errno = 0;
			if (m->dict) n->d = ec_dict_dup(m->d); else n->h = ec_htable_dup(m->h);
			S.ev("dup %zu -> %d", m->m.size(), n->d || n->h);
			if (!n->d && !n->h) failed("dup", 0);
			else {
				n->m = m->m;
				for (auto &x : n->m) x.second->holders++;
				verify(*n, "dup");
				maps.push_back(std::move(n));
			}
		} else {
			S.opname = "map_free";
			free_map(m);
			check_released();
			return;
		}
		verify(*m, S.opname.c_str());
		if (Map *x = pick_map()) verify(*x, S.opname.c_str());
		check_released();
	}
	void free_map(Map *m)
	{
		S.ev("free %zu", m->m.size());
		if (m->dict) ec_dict_free(m->d); else ec_htable_free(m->h);
		for (auto &x : m->m) drop(x.second);
		for (size_t i = 0; i < maps.size(); i++)
			if (maps[i].get() == m) { maps.erase(maps.begin() + i); break; }
	}

	// ---------------------------------------------------------------- vectors
	static void vcopy(void *dst, void *src)
	{
		int *s = *(int **)src;
		int n = new_val();
		(void)s;
		int *p = g_vals[n].get();
		memcpy(dst, &p, sizeof(p));
	}
	static void vfree(void *e) { on_free(*(int **)e); }
	static size_t esize(int k) { static const size_t z[] = { 1, 2, 4, 8, 8, 12, 300 }; return z[k]; }
	void verify(Vec &v, const char *op)
	{
		NoFault nf;
		CHECK(ec_vec_len(v.v) == v.e.size(), "result", "len", "after %s the vector reports %zu elements, expected %zu", op, ec_vec_len(v.v), v.e.size());
		for (size_t i = 0; i < v.e.size(); i++) {
			char buf[304];
			memset(buf, 0x77, sizeof(buf));
			CHECK(ec_vec_get(buf, v.v, i) == 0, "result", "get", "element %zu of a vector cannot be read", i);
			if (v.kind == 4) {
				int *p;
				memcpy(&p, buf, sizeof(p));
				CHECK(p == g_vals[v.e[i].val].get(), "result", "get", "after %s element %zu of a vector is wrong", op, i);
			} else
				CHECK(!memcmp(buf, v.e[i].bytes.data(), esize(v.kind)), "result", "get", "after %s element %zu of a vector is wrong", op, i);
			CHECK((unsigned char)buf[esize(v.kind)] == 0x77, "result", "get", "ec_vec_get() writes more than one element");
		}
		char buf[304];
		errno = 0;
		CHECK(ec_vec_get(buf, v.v, v.e.size()) == -1 && errno == EINVAL, "result", "get-range", "reading past the end of a vector succeeds");
	}
	void op_vec()
	{
		if (vecs.empty() || S.draw(8) == 0) {
			S.opname = "vec_new";
			int k = (int)S.draw(7);
			uint32_t pre = S.draw(4);
			int bad = S.draw(16) == 0;
			errno = 0;
			struct ec_vec *v = ec_vec(bad ? 0 : esize(k), pre, k == 4 ? vcopy : nullptr, k == 4 ? vfree : nullptr);
			S.ev("vec kind=%d pre=%u bad=%d -> %d", k, pre, bad, v != nullptr);
			if (!v) { failed("vec", bad); return; }
			CHECK(!bad, "result", "new-invalid", "a vector of zero-sized elements was created");
			vecs.push_back(std::unique_ptr<Vec>(new Vec{ k, v, {} }));
			return;
		}
		size_t vi = S.draw((uint32_t)vecs.size());
		Vec &v = *vecs[vi];
		uint32_t o = S.draw(12);
		if (o == 0 && v.kind == 2 && S.draw(20) == 0) { // many elements
			S.opname = "vec_grow";
			S.op_repeatable = false;
			uint32_t k = 100 + S.draw(400);
			for (uint32_t i = 0; i < k; i++) {
				uint32_t y = i * 2654435761u;
				errno = 0;
				if (ec_vec_add_u32(v.v, y) < 0) { failed("vec_add", 0); break; }
				VecElt e;
				e.bytes.assign((char *)&y, sizeof(y));
				v.e.push_back(e);
			}
			S.ev("grow %u", k);
		} else if (o < 7) {
			S.opname = "vec_add";
			uint64_t x = S.draw(1000) * 0x123456789abull;
			char buf[300];
			VecElt e;
			int r;
			int how = S.draw(10) ? v.kind : (int)S.draw(6); // sometimes with the wrong type
			errno = 0;
			switch (how) {
			case 0: { uint8_t y = (uint8_t)x; r = ec_vec_add_u8(v.v, y); e.bytes.assign((char *)&y, sizeof(y)); break; }
			case 1: { uint16_t y = (uint16_t)x; r = ec_vec_add_u16(v.v, y); e.bytes.assign((char *)&y, sizeof(y)); break; }
			case 2: { uint32_t y = (uint32_t)x; r = ec_vec_add_u32(v.v, y); e.bytes.assign((char *)&y, sizeof(y)); break; }
			case 3:
				if (v.kind == 4) { check_released(); return; } // same size, not a pointer
				r = ec_vec_add_u64(v.v, x); e.bytes.assign((char *)&x, sizeof(x)); break;
			case 4: {
				if (v.kind == 3) { check_released(); return; }
				e.val = mkval();
				int *p = g_vals[e.val].get();
				r = ec_vec_add_ptr(v.v, p);
				break;
			}
			default:
				if (v.kind < 5) { check_released(); return; }
				how = v.kind;
				memset(buf, (int)(x & 0x7f), sizeof(buf)); memcpy(buf, &x, 8); memcpy(buf + esize(how) - 4, (char *)&x + 1, 4);
				r = ec_vec_add_by_ref(v.v, buf); e.bytes.assign(buf, esize(how)); break;
			}
			bool bad = how != v.kind;
			S.ev("add kind=%d how=%d -> %d", v.kind, how, r);
			if (r < 0) failed("vec_add", bad);
			else { CHECK(!bad, "result", "add-type", "an element of the wrong size was added to a vector"); v.e.push_back(e); }
		} else if (o < 10) {
			S.opname = "vec_dup";
			size_t n = v.e.size();
			size_t off = S.draw((uint32_t)n + 2), len = S.draw((uint32_t)n + 2);
			bool all = S.draw(2);
			if (S.draw(24) == 0) { off = 1; len = (size_t)-1; all = false; }
			if (all) { off = 0; len = n; }
			bool bad = off > n || len > n - off;
			errno = 0;
			size_t before = g_vals.size();
			struct ec_vec *d = all ? ec_vec_dup(v.v) : ec_vec_ndup(v.v, off, len);
			while (expect.size() < g_vals.size()) expect.push_back(0);
			S.ev("dup %zu+%zu of %zu -> %d", off, len, n, d != nullptr);
			if (!d) { failed("vec_dup", bad); }
			else {
				CHECK(!bad, "result", "dup-range", "duplicating elements outside of a vector succeeds");
				auto nv = std::unique_ptr<Vec>(new Vec{ v.kind, d, {} });
				for (size_t i = 0; i < len; i++) {
					VecElt e = v.e[off + i];
					if (v.kind == 4) e.val = (int)(before + i);
					nv->e.push_back(e);
				}
				if (v.kind == 4) CHECK(g_vals.size() == before + len, "result", "dup-copy", "copying %zu elements called the copy callback %zu times", len, g_vals.size() - before);
				verify(*nv, "dup");
				vecs.push_back(std::move(nv));
			}
			verify(*vecs[vi], "dup");
		} else {
			S.opname = "vec_free";
			S.ev("free %zu", v.e.size());
			free_vec(vi);
			check_released();
			return;
		}
		verify(*vecs[vi], S.opname.c_str());
		check_released();
	}
	void free_vec(size_t i)
	{
		Vec &v = *vecs[i];
		ec_vec_free(v.v);
		if (v.kind == 4) for (auto &e : v.e) expect[e.val]++;
		vecs.erase(vecs.begin() + i);
	}

	// ---------------------------------------------------------------- string vectors
	std::string text()
	{
		static const char *t[] = { "", "a", "b", "foo", "bar baz", "'", "foo", "zz", "-1", "a" };
		if (S.draw(12)) return t[S.draw(10)];
		std::string s(1 + S.draw(200), 'q');
		s[S.draw((uint32_t)s.size())] = (char)(1 + S.draw(255));
		return s;
	}
	void verify(SVec &v, const char *op)
	{
		NoFault nf;
		CHECK(ec_strvec_len(v.v) == v.e.size(), "result", "len", "after %s the string vector has %zu elements, expected %zu", op, ec_strvec_len(v.v), v.e.size());
		for (size_t i = 0; i < v.e.size(); i++) {
			const char *s = ec_strvec_val(v.v, i);
			CHECK(s && v.e[i]->s == s, "result", "val", "after %s string %zu is %s, expected %s", op, i, s ? s : "NULL", v.e[i]->s.c_str());
			const struct ec_dict *a = ec_strvec_get_attrs(v.v, i);
			CHECK((a != nullptr) == (v.e[i]->attr >= 0), "result", "attrs", "after %s attributes of string %zu appeared or vanished", op, i);
			if (a) CHECK(ec_dict_get(a, "v") == g_vals[v.e[i]->attr].get(), "result", "attrs", "after %s attributes of string %zu are wrong", op, i);
		}
		CHECK(ec_strvec_val(v.v, v.e.size()) == nullptr, "result", "val-range", "reading past the end of a string vector succeeds");
		errno = 0;
		CHECK(ec_strvec_get_attrs(v.v, v.e.size()) == nullptr && errno == EINVAL, "result", "attrs-range", "attributes past the end of a string vector");
	}
	std::shared_ptr<SCell> scell(const std::string &s) { auto c = std::make_shared<SCell>(); c->s = s; c->holders = 1; return c; }
	static int rcmp(const char *a, const char *b) { return -strcmp(a, b); }
	void op_sv()
	{
		if (svs.empty() || S.draw(8) == 0) {
			S.opname = "strvec_new";
			auto n = std::unique_ptr<SVec>(new SVec{ nullptr, {} });
			uint32_t how = S.draw(3);
			bool bad = false, toolong = false;
			errno = 0;
			if (how == 0) n->v = ec_strvec();
			else if (how == 1) {
				std::vector<std::string> st;
				uint32_t k = S.draw(16) ? S.draw(5) : S.draw(70);
				for (uint32_t i = 0; i < k; i++) st.push_back(text());
				std::vector<const char *> ar;
				for (auto &s : st) { ar.push_back(s.c_str()); n->e.push_back(scell(s)); }
				if (k && S.draw(10) == 0) { bad = true; ar[S.draw(k)] = nullptr; }
				n->v = ec_strvec_from_array(ar.data(), ar.size());
			} else {
				static const char *in[] = { "a b c", "  x  'y z' \"k\\\"l\" # comment", "", "a\\ b ", "foo 'bar", "q\"w\"'e' r\\", " ", "a b  c d e f g h i j" };
				std::string s = in[S.draw(8)];
				if (S.draw(3)) {
					static const char al[] = "ab \t'\"\\#\n'\" a\r\v\f\x85\xa0";
					uint32_t k = S.draw(14);
					s.clear();
					for (uint32_t i = 0; i < k; i++) s += al[S.draw(sizeof(al) - 1)];
				}
				if (S.draw(60) == 0) { // words around the size the splitter can hold
					size_t at = S.draw((uint32_t)s.size() + 1);
					s.insert(at, std::string(BUFSIZ - 3 + S.draw(6), 'L'));
				}
				int fl = (int)S.draw(4);
				char miss = 1, wmiss = 1;
				bool ask = S.draw(2);
				n->v = ec_strvec_sh_lex_str(s.c_str(), (ec_strvec_flag_t)fl, ask ? &miss : nullptr);
				std::vector<std::string> out;
				bad = ref_lex(s, fl & EC_STRVEC_STRICT, fl & EC_STRVEC_TRAILSP, &out, &wmiss) < 0;
				S.ev("lex %s flags=%d", quote(s).c_str(), fl);
				for (auto &x : out) toolong = toolong || x.size() >= BUFSIZ; // may be refused
				if (ask && n->v) CHECK(miss == wmiss, "result", "missing-quote", "splitting %s reports the missing quote %d, expected %d", quote(s).c_str(), miss, wmiss);
				for (auto &x : out) n->e.push_back(scell(x));
			}
			S.ev("strvec how=%u -> %d", how, n->v != nullptr);
			if (!n->v) { failed("strvec", bad || toolong); check_released(); return; }
			CHECK(!bad, "result", "new-invalid", "an invalid string vector was created");
			verify(*n, "new");
			svs.push_back(std::move(n));
			return;
		}
		size_t vi = S.draw((uint32_t)svs.size());
		SVec &v = *svs[vi];
		size_t n = v.e.size();
		uint32_t o = S.draw(24);
		if (o < 6) {
			S.opname = "strvec_add";
			bool bad = S.draw(20) == 0;
			std::string s = text();
			const char *p = s.c_str();
			if (n && S.draw(4) == 0) { size_t i = S.draw((uint32_t)n); p = ec_strvec_val(v.v, i); s = v.e[i]->s; } // its own string
			errno = 0;
			int r = ec_strvec_add(v.v, bad ? nullptr : p);
			S.ev("add %s bad=%d -> %d", s.c_str(), bad, r);
			if (r < 0) failed("strvec_add", bad);
			else { CHECK(!bad, "result", "add-invalid", "adding no string succeeds"); v.e.push_back(scell(s)); }
		} else if (o < 9) {
			S.opname = "strvec_set";
			size_t i = S.draw((uint32_t)n + 1);
			bool bad = i >= n;
			std::string s = text();
			const char *p = s.c_str();
			if (n && S.draw(4) == 0) { size_t j = S.draw((uint32_t)n); p = ec_strvec_val(v.v, j); s = v.e[j]->s; }
			errno = 0;
			int r = ec_strvec_set(v.v, i, p);
			S.ev("set %zu %s -> %d", i, s.c_str(), r);
			if (r < 0) failed("strvec_set", bad);
			else { CHECK(!bad, "result", "set-range", "setting a string outside of the vector succeeds"); drops(v.e[i]); v.e[i] = scell(s); }
		} else if (o < 11) {
			S.opname = "strvec_del_last";
			errno = 0;
			int r = ec_strvec_del_last(v.v);
			S.ev("del_last -> %d", r);
			if (r < 0) { CHECK(n == 0 && errno != 0, "result", "del", "removing the last string failed"); }
			else { CHECK(n > 0, "result", "del", "removing from an empty string vector succeeds"); drops(v.e.back()); v.e.pop_back(); }
		} else if (o < 16) {
			S.opname = "strvec_dup";
			size_t off = S.draw((uint32_t)n + 2), len = S.draw((uint32_t)n + 2);
			bool all = S.draw(2);
			if (S.draw(24) == 0) { off = 2; len = (size_t)-1; all = false; }
			if (all) { off = 0; len = n; }
			bool bad = off > n || len > n - off;
			errno = 0;
			struct ec_strvec *d = all ? ec_strvec_dup(v.v) : ec_strvec_ndup(v.v, off, len);
			S.ev("dup %zu+%zu of %zu -> %d", off, len, n, d != nullptr);
			if (!d) failed("strvec_dup", bad);
			else {
				CHECK(!bad, "result", "dup-range", "duplicating strings outside of a vector succeeds");
				auto nv = std::unique_ptr<SVec>(new SVec{ d, {} });
				for (size_t i = 0; i < len; i++) { v.e[off + i]->holders++; nv->e.push_back(v.e[off + i]); }
				verify(*nv, "dup");
				svs.push_back(std::move(nv));
			}
		} else if (o < 20) {
			S.opname = "strvec_set_attrs";
			size_t i = S.draw((uint32_t)n + (S.draw(4) == 0));
			bool bad = i >= n;
			struct ec_dict *a = nullptr;
			int val = -1;
			if (S.draw(5)) {
				NoFault nf;
				val = mkval();
				a = ec_dict();
				ec_dict_set(a, "v", g_vals[val].get(), on_free);
			}
			errno = 0;
			int r = ec_strvec_set_attrs(v.v, i, a);
			S.ev("set_attrs %zu val=%d -> %d", i, val, r);
			if (r < 0) { failed("set_attrs", bad); if (val >= 0) expect[val]++; }
			else {
				CHECK(!bad, "result", "attrs-range", "attributes were attached outside of the vector");
				// shared elements are split
				auto c = scell(v.e[i]->s);
				drops(v.e[i]);
				c->attr = val;
				v.e[i] = c;
			}
		} else if (o < 21) {
			S.opname = "strvec_cmp";
			std::string want = fmt("strvec (len=%zu) [", n);
			for (size_t i = 0; i < n; i++) want += (i ? ", " : "") + v.e[i]->s;
			std::string got = dump([&](FILE *f) { ec_strvec_dump(f, v.v); });
			CHECK(got == want + "]\n", "result", "dump", "dumping a string vector gives %s", quote(got).c_str());
			SVec &w = *svs[S.draw((uint32_t)svs.size())];
			bool eq = v.e.size() == w.e.size();
			for (size_t i = 0; eq && i < v.e.size(); i++) eq = v.e[i]->s == w.e[i]->s;
			int r = ec_strvec_cmp(v.v, w.v);
			S.ev("cmp -> %d", r);
			CHECK((r == 0) == eq, "result", "cmp", "comparing string vectors returns %d", r);
		} else if (o < 23) {
			S.opname = "strvec_sort";
			bool rev = S.draw(2);
			std::vector<const void *> at;
			ec_strvec_sort(v.v, rev ? rcmp : nullptr);
			S.ev("sort rev=%d n=%zu", rev, n);
			std::stable_sort(v.e.begin(), v.e.end(), [&](const std::shared_ptr<SCell> &a, const std::shared_ptr<SCell> &b) { return rev ? b->s < a->s : a->s < b->s; });
			// equal strings may come in any order: follow the attributes actually there
			if (ec_strvec_len(v.v) == n)
				for (size_t i = 0; i < n; i++) {
					const struct ec_dict *a = ec_strvec_get_attrs(v.v, i);
					const int *val = a ? (const int *)ec_dict_get(a, "v") : nullptr;
					for (size_t j = i; j < n && v.e[j]->s == v.e[i]->s; j++)
						if (val ? v.e[j]->attr == *val : v.e[j]->attr < 0) { std::swap(v.e[i], v.e[j]); break; }
				}
		} else {
			S.opname = "strvec_free";
			S.ev("free %zu", n);
			free_sv(vi);
			check_released();
			return;
		}
		verify(*svs[vi], S.opname.c_str());
		verify(*svs[S.draw((uint32_t)svs.size())], S.opname.c_str());
		check_released();
	}
	void free_sv(size_t i)
	{
		ec_strvec_free(svs[i]->v);
		for (auto &e : svs[i]->e) drops(e);
		svs.erase(svs.begin() + i);
	}
	static int ref_lex(const std::string &s, bool strict, bool trailsp, std::vector<std::string> *out, char *miss);

	void op_null() // no container at all: queries find nothing, changes are refused
	{
		S.opname = "null";
		CHECK(!ec_htable_has_key(nullptr, "a", 1) && !ec_htable_get(nullptr, "a", 1) && !ec_htable_iter(nullptr) && !ec_htable_iter_next(nullptr) &&
			!ec_htable_iter_get_key(nullptr) && !ec_htable_iter_get_key_len(nullptr) && !ec_htable_iter_get_val(nullptr) &&
			!ec_vec_len(nullptr) && !ec_strvec_val(nullptr, 0) && !ec_strvec_get_attrs(nullptr, 0), "result", "null", "a query on no container returns something");
		int x = 0;
		auto refused = [&](int r, const char *what) { CHECK(r < 0 && errno != 0, "result", "null", "%s without a container returns %d, errno %d", what, r, errno); errno = 0; };
		errno = 0;
		refused(ec_vec_get(&x, nullptr, 0), "ec_vec_get");
		refused(ec_strvec_add(nullptr, "a"), "ec_strvec_add");
		refused(ec_strvec_set(nullptr, 0, "a"), "ec_strvec_set");
		refused(ec_strvec_set_attrs(nullptr, 0, nullptr), "ec_strvec_set_attrs");
		refused(ec_htable_set(nullptr, "a", 1, nullptr, nullptr), "ec_htable_set");
		refused(ec_htable_del(nullptr, "a", 1), "ec_htable_del");
		struct ec_strvec *v = ec_strvec_sh_lex_str(nullptr, (ec_strvec_flag_t)0, nullptr);
		CHECK(!v && errno, "result", "null", "splitting no string succeeds");
		ec_htable_free(nullptr); ec_vec_free(nullptr); ec_strvec_free(nullptr); ec_dict_free(nullptr);
	}
	void step() override
	{
		size_t tot = maps.size() + vecs.size() + svs.size();
		if (tot > 14) { // release something
			S.opname = "free";
			uint32_t k = S.draw((uint32_t)tot);
			if (k < maps.size()) free_map(maps[k].get());
			else if ((k -= maps.size()) < vecs.size()) free_vec(k);
			else free_sv(k - vecs.size());
			check_released();
			return;
		}
		if (S.draw(200) == 0) { op_null(); return; }
		if (S.draw(150) == 0) { op_crowd(); return; }
		uint32_t o = S.draw(variant == "map" ? 5 : 10);
		if (o == 0) op_map_new();
		else if (o < 5) op_map();
		else if (o < 7) op_vec();
		else op_sv();
	}
	void teardown() override
	{
		while (!maps.empty()) { Map *m = maps[S.draw((uint32_t)maps.size())].get(); verify(*m, "teardown"); free_map(m); }
		while (!vecs.empty()) { verify(*vecs.back(), "teardown"); free_vec(vecs.size() - 1); }
		while (!svs.empty()) { verify(*svs.back(), "teardown"); free_sv(svs.size() - 1); }
		check_released();
	}
};
#include "model.h"
int ContWorld::ref_lex(const std::string &s, bool strict, bool trailsp, std::vector<std::string> *out, char *miss)
{
	return model::sh_lex(s, strict, trailsp, out, miss);
}
static World *mk_cont(const std::string &v) { return new ContWorld(v); }
REGISTER_WORLD("cont", mk_cont, "an application using dictionaries, hash tables, vectors and string vectors");
