#include "gram.h"
#include "xtype.h"
#include <unistd.h>
using namespace sim;
using namespace model;

static int dynmodes[3] = { 0, 1, 2 };

static struct ec_node *dyn_build(struct ec_pnode *ps, void *opaque)
{
	int mode = *(int *)opaque;
	if (S.fault(K_CB)) { errno = ENOMEM; return nullptr; }
	char buf[32];
	if (mode == 0)
		strcpy(buf, "a");
	else {
		struct ec_pnode *root = ec_pnode_get_root(ps);
		int n = 0;
		for (struct ec_pnode *it = root; it; it = EC_PNODE_ITER_NEXT(root, it, 1)) {
			const struct ec_node *nd = ec_pnode_get_node(it);
			if (nd && !strcmp(ec_node_id(nd), "dynleaf")) n++;
		}
		snprintf(buf, sizeof(buf), "n%d", n);
	}
	struct ec_node *k = ec_node_str("dynleaf", buf);
	if (!k) return nullptr;
	if (mode == 2) return ec_node_option("dynopt", k);
	return k;
}

// ------------------------------------------------------------ model helpers
static void on_dead(void *p)
{
	if (!p) return;
	char *c = (char *)p;
	if (*c) violate("lifetime", "destroyed-twice", "a grammar node was destroyed twice");
	*c = 1;
}
static std::vector<char *> *tok_mem;

struct ec_node *Gram::track(N *n)
{
	NoFault nf;
	n->token = (int)dead.size();
	dead.push_back(0);
	if (!tok_mem) tok_mem = new std::vector<char *>();
	while (tok_mem->size() <= (size_t)n->token) tok_mem->push_back(new char(0));
	*(*tok_mem)[n->token] = 0;
	if (ec_dict_set(ec_node_attrs(n->real), "sim-token", (*tok_mem)[n->token], on_dead) < 0)
		violate("spurious", "attr", "setting a node attribute failed without any fault");
	return n->real;
}

N *Gram::mknode(T t, const std::string &id, struct ec_node *real)
{
	pool.emplace_back(new N());
	N *n = pool.back().get();
	n->t = t;
	n->id = id;
	n->real = real;
	n->ext = 1;
	hs.push_back(n);
	track(n);
	return n;
}

void Gram::succ(const N *n, std::vector<N *> &o) const
{
	for (auto x : n->ch) o.push_back(x);
	if (n->val) o.push_back(n->val);
	for (auto v : { &n->bin, &n->pre, &n->post, &n->open, &n->close })
		for (auto x : *v) o.push_back(x);
}

bool Gram::reaches(const N *from, const N *to) const
{
	std::set<const N *> seen;
	std::vector<const N *> st = { from };
	while (!st.empty()) {
		const N *n = st.back();
		st.pop_back();
		if (n == to) return true;
		if (!seen.insert(n).second) continue;
		std::vector<N *> o;
		succ(n, o);
		for (auto x : o) st.push_back(x);
	}
	return false;
}

void Gram::check_lifetime(const char *where)
{
	std::set<const N *> seen;
	std::vector<N *> st;
	for (auto n : hs) st.push_back(n);
	for (auto &k : kept) for (auto p : k.pins) st.push_back(p); // results refer to their grammar
	while (!st.empty()) {
		N *n = st.back();
		st.pop_back();
		if (!seen.insert(n).second) continue;
		succ(n, st);
	}
	for (auto &p : pool) {
		N *n = p.get();
		if (n->token < 0 || n->dead) continue;
		bool alive = seen.count(n) > 0;
		bool gone = *(*tok_mem)[n->token];
		if (alive)
			CHECK(!gone, "lifetime", "freed-early", "%s: node %s was destroyed while the application can still reach it", where, node_name(n).c_str());
		else {
			CHECK(gone, "lifetime", "not-freed", "%s: node %s is no longer reachable by the application but was not destroyed", where, node_name(n).c_str());
			n->dead = true;
		}
	}
}

// ------------------------------------------------------------ application helpers
std::string Gram::rnd_id()
{
	static const char *ids[] = { "", "a", "b", "x", "y", "opt", "dl", "v", "w", "no-such" };
	if (big && S.draw(12) == 0) return std::string(1 + S.draw(300), 'i') + (S.draw(2) ? "" : "\xc3\xa9 -");
	return ids[S.draw(10)];
}
std::string Gram::fam_text()
{
	static const char base[] = "configuration-of-interface-";
	static const char *end[] = { "", "a", "b", "bc", "X", "one", "two", "-0", "-1" };
	std::string r;
	for (size_t i = 0; i < fam; i++) r += base[i % (sizeof(base) - 1)];
	return r + end[S.draw(9)];
}
std::string Gram::rnd_text()
{
	if (fam && S.draw(2)) return fam_text();
	static const char *tx[] = { "a", "b", "foo", "bar", "ab", "fo", "1", "n0", "n1", "x", "y", "foo bar", "", "a'b", "f\"o", "\\z", "7" };
	if (!big || S.draw(3)) return tx[S.draw(17)];
	std::string r;
	if (S.draw(2)) { // a word close to one of the grammar
		N *n = pick();
		if (n && (n->t == STR || n->t == RE)) {
			r = n->text;
			switch (S.draw(5)) {
			case 0: r += "abf "[S.draw(4)]; break;
			case 1: if (!r.empty()) r.pop_back(); break;
			case 2: if (!r.empty()) r.back() ^= 1; break;
			case 3: for (auto &c : r) c = (char)toupper(c); break;
			default: if (!r.empty()) r[0] ^= 2; break;
			}
			for (auto &c : r) if (!c) c = 'o';
			return r;
		}
	}
	static const int len[] = { 1, 2, 3, 5, 8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 700 };
	int l = len[S.draw(15)];
	uint32_t sd = S.draw(1000), kind = S.draw(4);
	for (int i = 0; i < l; i++) {
		sd = sd * 1103515245u + 12345u;
		uint32_t q = (sd >> 16) & 0x7fff;
		r += kind == 0 ? 'a' : kind == 1 ? "abfo01"[q % 6] : kind == 2 ? (char)(' ' + q % 95) : 1 + q % 255 == '\n' ? 'n' : (char)(1 + q % 255);
	}
	return r;
}
static const char *regexes[] = { "a", "[ab]+", "fo*", "[0-9]+", "a|b", "(x|y)1?", "", "(", "[", ".*" };
static std::string rnd_regex()
{
	uint32_t k = S.draw(15);
	if (k < 12) return regexes[k >= 10 ? 1 : k];
	std::function<std::string(int)> e = [&](int d) -> std::string {
		static const char *at[] = { "a", "b", "f", "o", "[ab]", "[^a]", ".", "1", "[0-9]", "\\.", "^", "$", "fo", " " };
		std::string r;
		uint32_t n = 1 + S.draw(3);
		for (uint32_t i = 0; i < n; i++) {
			if (d > 0 && S.draw(4) == 0) r += "(" + e(d - 1) + ")";
			else r += at[S.draw(14)];
			static const char *q[] = { "*", "+", "?", "{1,2}", "{2}" };
			if (S.draw(4) == 0) r += q[S.draw(5)];
		}
		if (d > 0 && S.draw(4) == 0) r += "|" + e(d - 1);
		return r;
	};
	return e(2);
}

std::string Gram::rnd_cond()
{
	if (S.draw(3)) { // random well-typed expression, sometimes damaged
		static const char *ids[] = { "a", "b", "x", "y", "opt", "v", "w", "dynleaf" };
		enum { A, NS, I, ST };
		std::function<std::string(int, int)> e = [&](int ty, int d) -> std::string {
			if (ty == A) { uint32_t k = S.draw(8); ty = k < 3 ? 4 : k < 5 ? NS : k < 7 ? I : ST; }
			if (allow_invalid && S.draw(60) == 0) ty = 1 + (int)S.draw(4);
			if (allow_invalid && S.draw(30) == 0) { // any call, well formed or not
				static const char *fn[] = { "root", "current", "bool", "or", "and", "first_child", "find", "count", "cmp", "cmp", "cmp", "nosuch" };
				static const char *bad[] = { "eq", "gt", "le", "eqq", "", "a" };
				std::string f = fn[S.draw(12)];
				std::string r = f + "(";
				uint32_t k = S.draw(5);
				if (f == "cmp" && S.draw(2)) { r += bad[S.draw(6)]; r += k ? ", " : ""; if (k > 2 && S.draw(3)) k = 2; }
				for (uint32_t i = 0; i < k; i++) r += std::string(i ? ", " : "") + e(1 + (int)S.draw(4), d - 1);
				return r + ")";
			}
			switch (ty) {
			case NS:
				switch (d <= 0 ? S.draw(2) : S.draw(6)) {
				case 0: return "root()";
				case 1: return "current()";
				case 2: return "first_child(" + e(NS, d - 1) + ")";
				default: return "find(" + e(NS, d - 1) + "," + (S.draw(8) ? " " : "") + ids[S.draw(8)] + ")";
				}
			case I:
				if (d <= 0 || S.draw(3) == 0) {
					static const char *odd[] = { "010", "08", "00", "9223372036854775807", "9223372036854775808", "0001",
						"4294967296", "4294967297", "2147483648", "9223372036854775806", "65536", "256" };
					return S.draw(7) ? fmt("%u", S.draw(4)) : odd[S.draw(12)];
				}
				return "count(" + e(NS, d - 1) + ")";
			case ST: return ids[S.draw(7)];
			default: {
				static const char *ops[] = { "eq", "ne", "lt", "gt", "le", "ge" };
				uint32_t k = d <= 0 ? 0 : S.draw(8);
				if (k < 4) {
					int t2 = 1 + (int)S.draw(5);
					if (t2 == 4) t2 = I;
					if (t2 == NS && S.draw(2)) { // sets that often have the same size and share some members
						std::string a = ids[S.draw(4)], b = ids[S.draw(4)];
						std::string l = "find(root(), " + a + ")", q = S.draw(2) ? "first_child(find(root(), " + b + "))" : "find(root(), " + b + ")";
						if (S.draw(2)) std::swap(l, q);
						return std::string("cmp(") + ops[S.draw(2)] + ", " + l + ", " + q + ")";
					}
					if (t2 == 5) return std::string("cmp(") + ops[S.draw(2)] + ", bool(" + e(A, d - 1) + "), bool(" + e(A, d - 1) + "))";
					return std::string("cmp(") + ops[t2 == I ? S.draw(6) : S.draw(2)] + ", " + e(t2, d - 1) + ", " + e(t2, d - 1) + ")";
				}
				if (k == 4) return "bool(" + e(A, d - 1) + ")";
				std::string r = k < 6 ? "or(" : "and(";
				r += e(A, d - 1) + ", " + e(A, d - 1);
				while (S.draw(3) == 0) r += ", " + e(A, d - 1);
				return r + ")";
			}
			}
		};
		std::string r = e(A, 1 + (int)S.draw(3));
		if (allow_invalid && S.draw(10) == 0) { // one call with wrong arguments, somewhere in a valid condition
			static const char *ops[] = { "lt", "gt", "le", "ge", "eq", "ne", "eqq", "l" };
			auto one = [&](int not_ty) { int t = 1 + (int)S.draw(4); while (t == not_ty) t = 1 + (int)S.draw(4); return e(t, 1); };
			std::string x;
			int t;
			switch (S.draw(10)) {
			case 0: case 1: case 2: t = (int[]){ NS, ST, 4 }[S.draw(3)]; x = std::string("cmp(") + ops[S.draw(4)] + ", " + e(t, 1) + ", " + e(t, S.draw(2)) + ")"; break;
			case 3: t = 1 + (int)S.draw(4); x = std::string("cmp(") + ops[4 + S.draw(4)] + ", " + e(t, 1) + ", " + one(t) + ")"; break;
			case 4: t = 1 + (int)S.draw(4); x = std::string("cmp(") + ops[6 + S.draw(2)] + ", " + e(t, 1) + ", " + e(t, 1) + ")"; break;
			case 5: x = "find(" + one(NS) + ", a)"; break;
			case 6: x = "find(" + e(NS, 1) + ", " + one(ST) + ")"; break;
			case 7: x = std::string(S.draw(2) ? "count(" : "first_child(") + one(NS) + ")"; break;
			case 8: x = std::string((const char *[]){ "count(", "first_child(", "bool(", "root(", "current(" }[S.draw(5)]) + e(NS, 1) + (S.draw(2) ? ", " + e(NS, 0) : "") + ")"; break;
			default: x = std::string((const char *[]){ "count(", "first_child(", "bool(", "or(", "and(", "find(", "cmp(" }[S.draw(7)]) + (S.draw(2) ? e(A, 0) : "") + ")"; break;
			}
			switch (S.draw(5)) {
			case 0: r = x; break;
			case 1: r = "or(" + r + ", " + x + ")"; break;
			case 2: r = "and(" + x + ", " + r + ")"; break;
			case 3: r = "bool(" + x + ")"; break;
			default: r = "cmp(eq, bool(" + x + "), bool(" + r + "))"; break;
			}
		}
		if (allow_invalid && S.draw(20) == 0) {
			static const char bad[] = "(), .a0\t";
			r.insert(S.draw((uint32_t)r.size() + 1), 1, bad[S.draw(8)]);
		}
		return r;
	}
	static const char *c[] = {
		"root()", "cmp(eq, 1, 1)", "cmp(ne, 1, 1)", "find(root(), a)", "cmp(eq, count(find(root(), b)), 1)",
		"cmp(lt, count(find(root(), a)), 2)", "bool(find(current(), x))", "or(cmp(eq, a, b), first_child(current()))",
		"and(root(), current(), cmp(ge, 2, 1))", "cmp(eq, root(), current())", "cmp(ne, root(), current())",
		"cmp(eq, find(root(), a), find(current(), a))", "cmp(gt, count(first_child(current())), 0)",
		"cmp(eq, bool(0), bool(1))", "unknown()", "cmp(eq, 1, a)", "find(root())", "root(", "", "a b", "cmp(le, 1, 2)",
		"first_child(first_child(root()))", "and(cmp(eq, a, a), cmp(ne, a, b))", "count(root(),1)", "99999999999999999999",
		"bool(99999999999999999999)", "or(0, 0)", "or(find(root(), zz), find(root(), y))", "cmp(eq, find(root(), v), find(root(), w))",
		"cmp(eq, find(root(), zz), find(root(), yy))", "cmp(ge, count(find(root(), dynleaf)), 1)",
	};
	return c[S.draw(sizeof(c) / sizeof(c[0]))];
}

std::string Gram::rnd_cmd()
{
	// random derivation of the command syntax, sometimes damaged
	std::function<std::string(int)> e = [&](int d) -> std::string {
		static const char *w[] = { "a", "b", "x", "y", "foo", "bar", "opt", "v", "1", "w_w" };
		uint32_t k = d <= 0 ? 0 : S.draw(12);
		static const char *sp[] = { " ", " ", " ", "", "  ", "\t", " \n " };
		switch (k) {
		case 0: case 1: return w[S.draw(10)];
		case 9: return e(d - 1) + sp[S.draw(7)] + "," + sp[S.draw(7)] + "(" + sp[S.draw(7)] + e(d - 1) + "," + e(d - 1) + ")";
		case 10: { bool b = S.draw(2); return (b ? "(" : "[") + e(d - 1) + (b ? ")" : "]") + (S.draw(2) ? "*" : "+"); }
		case 11: { // operators of all levels around groups
			static const char *op[] = { " ", "|", ",", " | ", ", " };
			std::string r;
			uint32_t n = 2 + S.draw(3);
			for (uint32_t i = 0; i < n; i++) r += (i ? op[S.draw(5)] : "") + (S.draw(2) ? "(" + e(d - 1) + ")" : std::string(w[S.draw(10)]));
			return r;
		}
		case 2: return e(d - 1) + " " + e(d - 1);
		case 3: return e(d - 1) + "|" + e(d - 1);
		case 4: return e(d - 1) + "," + e(d - 1);
		case 5: return "[" + e(d - 1) + "]";
		case 6: return "(" + e(d - 1) + ")";
		case 7: { std::string r = w[S.draw(10)]; do r += S.draw(2) ? "*" : "+"; while (S.draw(4) == 0); return r; }
		default: return e(d - 1) + " | " + e(d - 1) + " " + w[S.draw(10)];
		}
	};
	auto wide = [&]() -> std::string { // many words, some of them repeated far apart
		static const char *w[] = { "a", "b", "x", "y", "foo", "bar", "opt", "v", "c", "w_w" };
		static const char *sep[] = { " ", " | ", ", ", " ", "|" };
		uint32_t n = 5 + S.draw(8);
		std::string r, sp = sep[S.draw(5)];
		for (uint32_t i = 0; i < n; i++) {
			if (i) r += S.draw(5) ? sp : sep[S.draw(5)];
			r += S.draw(4) ? w[i % 10] : w[S.draw(10)];
		}
		return r;
	};
	std::string s = S.draw(10) == 0 ? wide() : e((int)S.draw(4));
	if (allow_invalid && S.draw(10) == 0) {
		static const char bad[] = "()[]|,* +.";
		size_t p = S.draw((uint32_t)s.size() + 1);
		s.insert(p, 1, bad[S.draw(10)]);
	}
	return s;
}

N *Gram::pick() { return hs.empty() ? nullptr : hs[S.draw((uint32_t)hs.size())]; }
N *Gram::pick_type(T t)
{
	std::vector<N *> v;
	for (auto n : hs) if (n->t == t) v.push_back(n);
	return v.empty() ? nullptr : v[S.draw((uint32_t)v.size())];
}

void Gram::drop(N *n)
{
	// the model forgets the handle; the caller releases the real reference
	if (--n->ext == 0) hs.erase(std::find(hs.begin(), hs.end(), n));
}

struct ec_node *Gram::give(N *n)
{
	struct ec_node *r = n->real;
	bool own = S.draw(2) == 0;
	if (own) drop(n);
	else ec_node_clone(r);
	return r;
}

N *Gram::new_leaf(bool nofault)
{
	struct ec_node *r = nullptr;
	std::string id = rnd_id(), tx;
	T t = STR;
	bool valid = true;
	N tmp;
	tmp.t = STR;
	uint32_t k = S.draw(20);
	if (nofault) S.suspend++;
	if (allow_x && S.draw(4) == 0) k = 19;
	errno = 0;
	switch (k) {
	case 8: case 9: {
		t = INT;
		int64_t a = (int64_t)S.draw(12) - 4, b = a + (int64_t)S.draw(10) - (allow_invalid ? 1 : 0);
		if (S.draw(4) == 0) { static const int64_t ext[] = { INT64_MIN, INT64_MIN + 1, -2, 0, 3, INT64_MAX - 1, INT64_MAX }; a = ext[S.draw(7)]; b = ext[S.draw(7)]; }
		if (b < a && (nofault || !allow_invalid)) b = a;
		static const unsigned bases[] = { 0, 10, 16, 8, 2, 36 };
		unsigned base = S.draw(4) ? bases[S.draw(6)] : S.draw(40);
		S.opname = "node_int";
		r = ec_node_int(id.c_str(), a, b, base);
		valid = a <= b;
		tmp.has_min = tmp.has_max = true;
		tmp.min = a; tmp.max = b; tmp.base = base;
		tmp.conf = true;
		break;
	}
	case 10: {
		t = UINT;
		uint64_t a = S.draw(12), b = a + S.draw(10);
		if (S.draw(4) == 0) { static const uint64_t ext[] = { 0, 1, 9, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX - 1, UINT64_MAX }; a = ext[S.draw(7)]; b = ext[S.draw(7)]; }
		if (b < a && (nofault || !allow_invalid)) b = a;
		static const unsigned bases[] = { 0, 10, 16, 7 };
		unsigned base = S.draw(4) ? bases[S.draw(4)] : S.draw(40);
		S.opname = "node_uint";
		r = ec_node_uint(id.c_str(), a, b, base);
		valid = a <= b;
		tmp.base = base;
		tmp.has_min = tmp.has_max = true;
		tmp.min = (int64_t)a; tmp.max = (int64_t)b;
		tmp.conf = true;
		break;
	}
	case 11: {
		t = ANY;
		S.opname = "node_any";
		if (S.draw(2)) { tx = "attr1"; r = ec_node_any(id.c_str(), "attr1"); }
		else r = S.draw(2) ? ec_node_any(id.c_str(), nullptr) : ec_node("any", id.c_str());
		tmp.text = tx;
		tmp.conf = true;
		break;
	}
	case 12: t = EMPTY; S.opname = "node_empty"; r = ec_node("empty", id.c_str()); break;
	case 13: t = NONE; S.opname = "node_none"; r = ec_node("none", id.c_str()); break;
	case 14: t = SPACE; S.opname = "node_space"; r = ec_node("space", id.c_str()); break;
	case 15: case 16: {
		t = RE;
		S.opname = "node_re";
		tx = rnd_regex();
		if (nofault && !regex_valid(tx)) tx = "a";
		r = ec_node_re(id.c_str(), tx.c_str());
		valid = regex_valid(tx);
		tmp.text = tx;
		tmp.conf = true;
		break;
	}
	case 17:
		if (allow_file) { t = FILE_; S.opname = "node_file"; r = ec_node("file", id.c_str()); break; }
		goto str;
	case 18:
		if (allow_dyn) {
			t = DYN;
			S.opname = "node_dynamic";
			tmp.dynmode = (int)S.draw(3);
			r = ec_node_dynamic(id.c_str(), dyn_build, &dynmodes[tmp.dynmode]);
			break;
		}
		goto str;
	case 19:
		if (allow_x) {
			t = XLEAF;
			S.opname = "node_xleaf";
			tx = rnd_text();
			tmp.dynmode = (int)S.draw(4);
			tmp.text = tx;
			tmp.conf = true;
			r = xtype::leaf(id.c_str(), tx.c_str(), (unsigned)tmp.dynmode);
			break;
		}
		goto str;
	default:
	str:
		t = STR;
		S.opname = "node_str";
		tx = rnd_text();
		r = ec_node_str(id.c_str(), tx.c_str());
		tmp.text = tx;
		tmp.conf = true;
		break;
	}
	int err = errno;
	if (nofault) S.suspend--;
	S.ev("%s id=%s text=%s -> %d", S.opname.c_str(), id.c_str(), quote(tx).c_str(), r != nullptr);
	if (!r) {
		CHECK(err != 0, "result", "errno", "%s(%s) failed without setting errno", S.opname.c_str(), quote(tx).c_str());
		CHECK((S.faulted() && !nofault) || !valid, "spurious", "constructor", "%s(%s) failed without any fault", S.opname.c_str(), quote(tx).c_str());
		stats.failed_ops++;
		return nullptr;
	}
	CHECK(valid, "result", "constructor", "%s(%s) succeeded with an invalid argument", S.opname.c_str(), quote(tx).c_str());
	N *n = mknode(t, id, r);
	n->conf = tmp.conf; n->text = tmp.text; n->has_min = tmp.has_min; n->has_max = tmp.has_max;
	n->has_attr = t == ANY && !tx.empty(); n->min = tmp.min; n->max = tmp.max; n->base = tmp.base; n->dynmode = tmp.dynmode;
	return n;
}

N *Gram::pick_child(N *)
{
	if (hs.empty() || S.draw(3) == 0) {
		std::string save = S.opname;
		N *n = new_leaf(true);
		S.opname = save;
		return n;
	}
	return pick();
}

// ------------------------------------------------------------ operations
void Gram::op_leaf() { new_leaf(false); }

// A grammar made for conditions: small sequences with few identifiers, many
// of them repeated at several depths, and a condition that compares sets of
// parse nodes which overlap in part.
void Gram::op_cond_scene()
{
	static const char *ids[] = { "a", "b", "x", "a", "b" };
	static const char *words[] = { "a", "b", "foo", "bar" };
	N *top = nullptr;
	{
		NoFault nf;
		S.opname = "cond_scene";
		auto must = [&](struct ec_node *r) { CHECK(r, "spurious", "constructor", "a node could not be created without any fault"); return r; };
		std::function<N *(int)> sub = [&](int d) -> N * {
			std::string id = ids[S.draw(5)];
			if (d <= 0 || S.draw(3) == 0) {
				std::string w = words[S.draw(4)];
				N *n = mknode(STR, id, must(ec_node_str(id.c_str(), w.c_str())));
				n->conf = true; n->text = w;
				return n;
			}
			uint32_t k = 1 + S.draw(3);
			struct ec_node *r = must(ec_node("seq", id.c_str()));
			std::vector<N *> ch;
			for (uint32_t i = 0; i < k; i++) {
				N *c = sub(d - 1);
				ch.push_back(c);
				CHECK(ec_node_seq_add(r, c->real) == 0, "spurious", "constructor", "a child could not be added without any fault");
				drop(c);
			}
			N *n = mknode(SEQ, id, r);
			n->conf = true; n->ch = ch;
			return n;
		};
		std::function<std::string(int)> set = [&](int d) -> std::string {
			if (d <= 0) return S.draw(4) ? "root()" : "current()";
			return S.draw(3) == 0 ? "first_child(" + set(d - 1) + ")" : "find(" + set(d - 1) + ", " + ids[S.draw(3)] + ")";
		};
		std::string e = std::string("cmp(") + (S.draw(2) ? "eq" : "ne") + ", " + set(1 + (int)S.draw(2)) + ", " + set(1 + (int)S.draw(3)) + ")";
		if (S.draw(4) == 0) e = std::string("cmp(") + (S.draw(2) ? "eq" : "gt") + ", count(" + set(1 + (int)S.draw(2)) + "), count(" + set(1 + (int)S.draw(3)) + "))";
		N *l = sub(3), *c = sub(1 + (int)S.draw(3));
		struct ec_node *cr = c->real;
		drop(c);
		std::string cid = ids[S.draw(5)], sid = ids[S.draw(5)];
		N *cn = mknode(COND, cid, must(ec_node_cond(cid.c_str(), e.c_str(), cr)));
		cn->conf = true; cn->ch = { c }; cn->text = e;
		struct ec_node *r = must(ec_node("seq", sid.c_str()));
		for (N *x : { l, cn }) {
			CHECK(ec_node_seq_add(r, x->real) == 0, "spurious", "constructor", "a child could not be added without any fault");
			drop(x);
		}
		top = mknode(SEQ, sid, r);
		top->conf = true; top->ch = { l, cn };
		S.ev("cond_scene %s", e.c_str());
	}
	op_parse(top);
}

// Several lexers side by side, completed inside a word or a quote.
void Gram::op_lex_scene()
{
	static const char *words[] = { "foo", "far", "fo", "bar", "f o", "a'b", "fo\"" };
	N *top = nullptr;
	std::vector<std::string> line;
	{
		NoFault nf;
		S.opname = "lex_scene";
		auto must = [&](struct ec_node *r) { CHECK(r, "spurious", "constructor", "a node could not be created without any fault"); return r; };
		auto leaf = [&]() {
			std::string id = rnd_id(), w = fam ? fam_text() : words[S.draw(7)];
			N *n = mknode(STR, id, must(ec_node_str(id.c_str(), w.c_str())));
			n->conf = true; n->text = w;
			return n;
		};
		auto group = [&](bool seq, std::vector<N *> ch) {
			std::string id = rnd_id();
			struct ec_node *r = must(ec_node(seq ? "seq" : "or", id.c_str()));
			for (N *c : ch) {
				CHECK((seq ? ec_node_seq_add(r, c->real) : ec_node_or_add(r, c->real)) == 0, "spurious", "constructor", "a child could not be added without any fault");
				drop(c);
			}
			N *n = mknode(seq ? SEQ : OR, id, r);
			n->conf = true; n->ch = ch;
			return n;
		};
		bool two = S.draw(3) == 0; // the lexers start with another word
		uint32_t k = 2 + S.draw(2);
		std::vector<N *> alt;
		std::string pick;
		for (uint32_t i = 0; i < k; i++) {
			N *l = leaf();
			if (l->text.size() && (pick.empty() || S.draw(2))) pick = l->text;
			if (S.draw(3) == 0) { N *m = leaf(); l = group(false, { l, m }); }
			if (two) {
				N *f = mknode(STR, "", must(ec_node_str("", "go")));
				f->conf = true; f->text = "go";
				l = group(true, { f, l });
			}
			if (S.draw(6)) {
				struct ec_node *c = l->real;
				drop(l);
				std::string id = rnd_id();
				N *n = mknode(SH_LEX, id, must(ec_node_sh_lex(id.c_str(), c)));
				n->conf = true; n->ch = { l };
				l = n;
			}
			alt.push_back(l);
		}
		top = group(false, alt);
		static const char *q[] = { "'", "\"", "'", "\"", "" };
		std::string s = two ? "go " : "";
		s += q[S.draw(5)];
		s += pick.substr(0, S.draw((uint32_t)pick.size() + 1));
		line.push_back(s);
		S.ev("lex_scene %s", quote(s).c_str());
	}
	op_complete(top, &line);
}

void Gram::op_bare()
{
	static const T types[] = { STR, INT, UINT, ANY, EMPTY, NONE, SPACE, RE, SEQ, OR, MANY, OPTION, ONCE, SUBSET, BYPASS, COND, SH_LEX, RE_LEX, CMD, EXPR, FILE_, SEQ, XLEAF, XPAIR };
	uint32_t k = S.draw(24);
	std::string id = rnd_id();
	S.opname = "bare_node";
	if (k == 21) {
		struct ec_node *r = ec_node("no-such-type", id.c_str());
		CHECK(r == nullptr, "result", "unknown-type", "a node of an unknown type was created");
		return;
	}
	T t = types[k];
	if ((t == COND && !allow_cond) || (t == CMD && !allow_cmd) || (t == EXPR && !allow_expr) || ((t == SH_LEX || t == RE_LEX) && !allow_lex) || (t == FILE_ && !allow_file) || (t >= XLEAF && !allow_x)) t = SEQ;
	struct ec_node *r = ec_node(type_name[t], id.c_str());
	S.ev("ec_node(%s, %s) -> %d", type_name[t], id.c_str(), r != nullptr);
	if (!r) {
		CHECK(S.faulted(), "spurious", "constructor", "ec_node(%s) failed without any fault", type_name[t]);
		stats.failed_ops++;
		return;
	}
	N *n = mknode(t, id, r);
	if (t == SEQ || t == OR || t == SUBSET || t == INT || t == UINT || t == ANY) n->conf = t != INT && t != UINT && t != ANY;
	(void)n;
}

static bool left_ok(const N *) { return true; }

void Gram::op_combine(int kind)
{
	static const int kinds[] = { SEQ, SEQ, SEQ, OR, OR, OR, MANY, MANY, OPTION, OPTION, ONCE, ONCE, SUBSET, SUBSET, SUBSET, BYPASS };
	T t = kind >= 0 ? (T)kind : (T)kinds[S.draw(16)];
	std::string id = rnd_id();
	std::vector<N *> ch;
	uint32_t nch = 1;
	if (t == SEQ || t == OR || t == SUBSET) nch = S.draw(5);
	if (big && (t == SEQ || t == OR) && S.draw(3) == 0) nch = S.draw(20);
	if (big && t == SUBSET && S.draw(4) == 0) nch = 5 + S.draw(3);
	if (t == CMD) nch = S.draw(6) ? S.draw(4) : 4 + S.draw(5);
	if (t == XPAIR) nch = 2;
	for (uint32_t i = 0; i < nch; i++) {
		N *c = pick_child();
		if (c) ch.push_back(c);
	}
	bool has_null = allow_null && S.draw(24) == 0;
	std::string tx;
	uint32_t mn = 0, mx = 0;
	if (t == MANY) { mn = S.draw(3); mx = S.draw(4); if (S.draw(24) == 0) mx = UINT_MAX - S.draw(2); if (S.draw(40) == 0) mn = UINT_MAX - S.draw(2); if (S.draw(30) == 0) (S.draw(2) ? mn : mx) = 254 + S.draw(5); }
	if (t == COND) tx = rnd_cond();
	if (t == CMD) {
		tx = rnd_cmd();
		if (ch.size() && S.draw(3) == 0) { // mostly the names of the children, in any order
			static const char *sep[] = { " ", " ", "|", ",", " | ", " , " };
			std::string r;
			uint32_t k = 1 + S.draw((uint32_t)ch.size() + 2);
			for (uint32_t i = 0; i < k; i++) {
				std::string w = ch[S.draw((uint32_t)ch.size())]->id;
				if (w.empty() || w.size() > 8) w = "z";
				switch (S.draw(8)) {
				case 0: w = "[" + w + "]"; break;
				case 1: w += "*"; break;
				case 2: w = "(" + w + ")"; break;
				case 3: w += "+"; break;
				}
				r += (i ? sep[S.draw(6)] : "") + w;
			}
			tx = r;
		}
	}
	bool was_used = false;
	if (t == XPAIR && ch.size() < 2) return;
	uint32_t via = t == XPAIR ? S.draw(2) : 0;
	// hand over the references
	struct ec_node *a[22];
	for (auto &x : a) x = (struct ec_node *)EC_VA_END;
	size_t na = 0;
	uint32_t nullpos = has_null ? S.draw(t == XPAIR ? 2 : (uint32_t)ch.size() + 1) : 99;
	if ((t != SEQ && t != OR && t != SUBSET && t != CMD && t != XPAIR) && has_null) { ch.clear(); nullpos = 0; }
	for (size_t i = 0; i <= ch.size() && na < 22; i++) {
		if (i == nullpos) a[na++] = nullptr;
		if (i < ch.size()) {
			// a handle may already have been given away by an earlier argument
			if (ch[i]->ext == 0) {
				ec_node_clone(ch[i]->real);
				a[na++] = ch[i]->real;
				continue;
			}
			a[na++] = give(ch[i]);
		}
	}
	(void)was_used;
	S.opname = std::string("new_") + type_name[t];
	struct ec_node *r = nullptr;
	bool valid = !has_null;
	errno = 0;
	switch (t) {
	case SEQ: r = __ec_node_seq(id.c_str(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], EC_VA_END); break;
	case OR: r = __ec_node_or(id.c_str(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], EC_VA_END); break;
	case SUBSET: r = __ec_node_subset(id.c_str(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], EC_VA_END); break;
	case MANY: r = ec_node_many(id.c_str(), a[0], mn, mx); valid = valid && mn != UINT_MAX && mx != UINT_MAX; break;
	case OPTION: r = ec_node_option(id.c_str(), a[0]); break;
	case ONCE: r = ec_node_once(id.c_str(), a[0]); break;
	case BYPASS: r = ec_node_bypass(id.c_str(), a[0]); break;
	case SH_LEX: r = ec_node_sh_lex(id.c_str(), a[0]); break;
	case XPAIR:
		r = xtype::pair(id.c_str(), a[0], a[1], via);
		if (has_null && nullpos < 2) ec_node_free(a[2]); // not handed over
		break;
	case RE_LEX: r = ec_node_re_lex(id.c_str(), a[0]); break;
	case COND: r = ec_node_cond(id.c_str(), tx.c_str(), a[0]); valid = valid && cond_valid(tx); break;
	case CMD: r = __ec_node_cmd(id.c_str(), tx.c_str(), a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], EC_VA_END); break;
	default: abort();
	}
	int err = errno;
	N *inner = nullptr;
	if (t == CMD) {
		inner = valid ? build_cmd(pool, tx, ch) : nullptr;
		valid = valid && inner;
	}
	S.ev("%s id=%s n=%zu %s -> %d", S.opname.c_str(), id.c_str(), ch.size(), tx.c_str(), r != nullptr);
	if (!r) {
		CHECK(S.faulted() || !valid, "spurious", "constructor", "%s(%s) with %zu children failed without any fault", S.opname.c_str(), tx.c_str(), ch.size());
		CHECK(err != 0 || has_null, "result", "errno", "%s(%s) failed without setting errno", S.opname.c_str(), tx.c_str());
		stats.failed_ops++;
	} else {
		CHECK(valid, "result", "constructor", "%s(%s) succeeded although an argument is invalid", S.opname.c_str(), tx.c_str());
		N *n = mknode(t, id, r);
		n->conf = true;
		n->ch = ch;
		n->mn = mn; n->mx = mx;
		n->text = tx;
		n->inner = inner;
	}
	check_lifetime(S.opname.c_str());
	if (r && S.faulted()) { stats.ok_under_fault++; probe_node(hs.back()); }
	(void)left_ok;
}

std::string Gram::conf_str(const struct ec_config *c)
{
	if (!c) return "null";
	switch (ec_config_get_type(c)) {
	case EC_CONFIG_TYPE_BOOL: return c->boolean ? "true" : "false";
	case EC_CONFIG_TYPE_INT64: return fmt("i%lld", (long long)c->i64);
	case EC_CONFIG_TYPE_UINT64: return fmt("u%llu", (unsigned long long)c->u64);
	case EC_CONFIG_TYPE_STRING: return quote(c->string);
	case EC_CONFIG_TYPE_NODE: {
		for (auto &n : pool) if (n->real == c->node && !n->dead && n->token >= 0) return fmt("node%d", n->token);
		return "node?";
	}
	case EC_CONFIG_TYPE_LIST: {
		std::string o = "[";
		for (struct ec_config *x = ec_config_list_first((struct ec_config *)c); x; x = ec_config_list_next((struct ec_config *)c, x)) o += conf_str(x) + ",";
		return o + "]";
	}
	case EC_CONFIG_TYPE_DICT: {
		std::map<std::string, std::string> m;
		for (struct ec_dict_elt_ref *it = ec_dict_iter(c->dict); it; it = ec_dict_iter_next(it))
			m[ec_dict_iter_get_key(it)] = conf_str((const struct ec_config *)ec_dict_iter_get_val(it));
		std::string o = "{";
		for (auto &p : m) o += p.first + ":" + p.second + ",";
		return o + "}";
	}
	default: return "?";
	}
}

// after a change that failed (or a constructor that succeeded despite a
// fault), the node must behave exactly as the model says
void Gram::probe_node(N *n)
{
	NoFault nf;
	std::string save = S.opname;
	// children
	switch (n->t) {
	case SEQ: case OR: case SUBSET: case MANY: case OPTION: case ONCE: case BYPASS: case COND: case SH_LEX: case RE_LEX: case XPAIR: {
		size_t cnt = ec_node_get_children_count(n->real);
		CHECK(cnt == n->ch.size(), "atomicity", "children", "after %s: %s has %zu children, expected %zu", save.c_str(), node_name(n).c_str(), cnt, n->ch.size());
		for (size_t i = 0; i < cnt; i++) {
			struct ec_node *c;
			unsigned refs;
			CHECK(ec_node_get_child(n->real, i, &c, &refs) == 0 && c == n->ch[i]->real, "atomicity", "children",
				"after %s: child %zu of %s is not the expected one", save.c_str(), i, node_name(n).c_str());
		}
		break;
	}
	default: break;
	}
	for (int i = 0; i < 3; i++) {
		std::vector<std::string> v;
		Rng r(S.rng.s ^ (i * 7919));
		(void)r;
		v = tokens(n, false);
		Ctx c;
		c.max_steps = 2500;
		PT *t;
		int mr;
		Toks tk = toks(v);
		try { mr = parse_root(c, n, tk, &t); } catch (Limit &) { continue; }
		struct ec_strvec *sv = mkvec(tk);
		struct ec_pnode *p = ec_parse_strvec(n->real, sv);
		if (!p) CHECK(mr == ERR, "atomicity", "probe", "after %s: %s cannot be parsed any more", save.c_str(), node_name(n).c_str());
		else {
			CHECK(mr != ERR && ec_pnode_matches(p) == (mr != NOMATCH), "atomicity", "probe",
				"after %s: %s parses %s differently (got %d, expected %d)", save.c_str(), node_name(n).c_str(), snap_strvec(sv).c_str(), (int)ec_pnode_len(p), mr);
			if (mr != NOMATCH) {
				std::string a = ser(t, nullptr), b = ser_real(p, nullptr);
				CHECK(a == b, "atomicity", "probe", "after %s: got %s expected %s", save.c_str(), b.c_str(), a.c_str());
			}
		}
		ec_pnode_free(p);
		ec_strvec_free(sv);
	}
	S.opname = save;
	stats.probes["atomicity_probe"]++;
}

void Gram::op_mutate(bool cyc)
{
	N *n = pick();
	if (!n) return;
	// prefer something mutable
	for (int i = 0; i < 4; i++) {
		if (n->t == SEQ || n->t == OR || n->t == SUBSET || n->t == OPTION || n->t == ONCE || n->t == MANY || n->t == BYPASS || n->t == STR || n->t == RE || n->t == RE_LEX || n->t == EXPR) break;
		n = pick();
	}
	N *k = nullptr, *k2 = nullptr;
	std::string before = conf_str(ec_node_get_config(n->real));
	bool wrong = allow_invalid && S.draw(20) == 0; // call for another type
	bool nul = allow_null && S.draw(24) == 0;
	T as = n->t;
	if (wrong) { static const T ts[] = { SEQ, OR, SUBSET, OPTION, ONCE, MANY, BYPASS, STR, RE, RE_LEX, EXPR }; as = ts[S.draw(11)]; if (n->t == RE_LEX && S.draw(2)) as = RE; if (n->t == RE && S.draw(2)) as = RE_LEX; }
	bool needs = as == SEQ || as == OR || as == SUBSET || as == OPTION || as == ONCE || as == MANY || as == BYPASS || as == EXPR;
	if (needs && !nul) {
		k = pick_child();
		if (!k) return;
		if (!cyc && reaches(k, n)) {
			// would create a cycle: sometimes wanted, else use a fresh leaf
			k = new_leaf(true);
			if (!k) return;
		} else if (cyc && as != STR) {
			// deliberate cycle through a non-left-recursive wrapper: option(seq(leaf, n))
			NoFault nf;
			N *leaf = new_leaf(true);
			if (!leaf) return;
			struct ec_node *s = __ec_node_seq("", ec_node_clone(leaf->real), ec_node_clone(n->real), EC_VA_END);
			CHECK(s, "spurious", "constructor", "seq failed without any fault");
			N *sn = mknode(SEQ, "", s);
			sn->conf = true;
			sn->ch = { leaf, n };
			if (S.draw(3)) {
				struct ec_node *o = ec_node_option("", ec_node_clone(s));
				CHECK(o, "spurious", "constructor", "option failed without any fault");
				k = mknode(OPTION, "", o);
				k->conf = true;
				k->ch = { sn };
				drop(sn);
				ec_node_free(s);
			} else
				k = sn;
			drop(leaf);
			ec_node_free(leaf->real);
		}
	}
	uint32_t sub = 0;
	if (as == EXPR) {
		sub = S.draw(5);
		if (sub == 4 && !nul) { k2 = pick_child(); if (!k2 || (!cyc && reaches(k2, n))) k2 = k; }
	}
	std::string tx;
	uint32_t mn = 0, mx = 0, keep = 0;
	if (as == STR) tx = rnd_text();
	if (as == RE || as == RE_LEX) tx = rnd_regex();
	if (as == MANY) { mn = S.draw(3); mx = S.draw(4); if (S.draw(24) == 0) mx = UINT_MAX - S.draw(2); if (S.draw(40) == 0) mn = UINT_MAX - S.draw(2); if (S.draw(30) == 0) (S.draw(2) ? mn : mx) = 254 + S.draw(5); }
	bool has_attr = false;
	if (as == RE_LEX) { keep = S.draw(3) != 0; has_attr = S.draw(2); }
	struct ec_node *target = n->real;
	ec_node_clone(target); // the application keeps its own reference during the call
	struct ec_node *r = k ? give(k) : nullptr, *r2 = k2 ? (k2->ext ? give(k2) : ec_node_clone(k2->real)) : nullptr;
	int ret = -2;
	bool valid = as == n->t && (!needs || k);
	S.opname = std::string("change_") + type_name[as];
	errno = 0;
	switch (as) {
	case SEQ: ret = ec_node_seq_add(target, r); break;
	case OR: ret = ec_node_or_add(target, r); break;
	case SUBSET: ret = ec_node_subset_add(target, r); break;
	case OPTION: ret = ec_node_option_set_child(target, r); break;
	case ONCE: ret = ec_node_once_set_child(target, r); break;
	case BYPASS: ret = ec_node_bypass_set_child(target, r); break;
	case MANY: ret = ec_node_many_set_params(target, r, mn, mx); valid = valid && mn != UINT_MAX && mx != UINT_MAX; break;
	case STR: ret = ec_node_str_set_str(target, nul ? nullptr : tx.c_str()); valid = valid && !nul; break;
	case RE: ret = ec_node_re_set_regexp(target, nul ? nullptr : tx.c_str()); valid = valid && !nul && regex_valid(tx); break;
	case RE_LEX: ret = ec_node_re_lex_add(target, tx.c_str(), (int)keep, has_attr ? "attr1" : nullptr);
		valid = valid && regex_valid(tx) && n->conf; break;
	case EXPR:
		switch (sub) {
		case 0: ret = ec_node_expr_set_val_node(target, r); break;
		case 1: ret = ec_node_expr_add_bin_op(target, r); break;
		case 2: ret = ec_node_expr_add_pre_op(target, r); break;
		case 3: ret = ec_node_expr_add_post_op(target, r); break;
		case 4: ret = ec_node_expr_add_parenthesis(target, r, r2); break;
		}
		break;
	default: {
		S.opname = "change_none";
		ec_node_free(target);
		if (k) { /* the reference was not handed over */ ec_node_free(r); }
		return;
	}
	}
	int err = errno;
	S.ev("%s sub=%u %s nul=%d -> %d", S.opname.c_str(), sub, quote(tx).c_str(), nul, ret);
	if (ret < 0) {
		CHECK(S.faulted() || !valid, "spurious", "change", "%s on %s failed without any fault", S.opname.c_str(), node_name(n).c_str());
		CHECK(err != 0, "result", "errno", "%s on %s failed without setting errno", S.opname.c_str(), node_name(n).c_str());
		stats.failed_ops++;
	} else {
		CHECK(valid, "result", "change", "%s succeeded with an invalid argument", S.opname.c_str());
		switch (as) {
		case SEQ: case OR: case SUBSET: n->ch.push_back(k); n->conf = true; break;
		case MANY: n->mn = mn; n->mx = mx; // fallthrough
		case OPTION: case ONCE: case BYPASS: n->ch = { k }; n->conf = true; break;
		case STR: case RE: n->text = tx; n->conf = true; break;
		case RE_LEX: n->pats.push_back({ tx, keep != 0, has_attr, "attr1" }); break;
		case EXPR:
			if (sub == 0) n->val = k;
			if (sub == 1) n->bin.push_back(k);
			if (sub == 2) n->pre.push_back(k);
			if (sub == 3) n->post.push_back(k);
			if (sub == 4) { n->open.push_back(k); n->close.push_back(k2 ? k2 : k); }
			n->inner = build_expr(pool, n);
			break;
		default: break;
		}
	}
	ec_node_free(target);
	check_lifetime(S.opname.c_str());
	bool alive = n->ext > 0;
	if (alive && (ret < 0 || S.faulted())) {
		if (ret < 0)
			CHECK(conf_str(ec_node_get_config(n->real)) == before, "atomicity", "config", "after a failed %s: configuration is %s, was %s",
				S.opname.c_str(), conf_str(ec_node_get_config(n->real)).c_str(), before.c_str());
		else
			stats.ok_under_fault++;
		probe_node(n);
	}
}

// ---- configuration
CV cvs(const std::string &s) { CV c; c.t = EC_CONFIG_TYPE_STRING; c.s = s; return c; }
CV cvi(int t, int64_t v) { CV c; c.t = t; c.i = v; return c; }

static struct ec_config *mkconf(Gram *g, const CV &c)
{
	switch (c.t) {
	case EC_CONFIG_TYPE_STRING: return ec_config_string(c.s.c_str());
	case EC_CONFIG_TYPE_INT64: return ec_config_i64(c.i);
	case EC_CONFIG_TYPE_UINT64: return ec_config_u64((uint64_t)c.i);
	case EC_CONFIG_TYPE_BOOL: return ec_config_bool(c.i);
	case EC_CONFIG_TYPE_NODE: return ec_config_node(c.n->ext ? g->give(c.n) : ec_node_clone(c.n->real));
	case EC_CONFIG_TYPE_LIST: {
		struct ec_config *l = ec_config_list();
		for (auto &x : c.l) ec_config_list_add(l, mkconf(g, x));
		return l;
	}
	default: {
		struct ec_config *d = ec_config_dict();
		for (auto &x : c.d) ec_config_dict_set(d, x.first.c_str(), mkconf(g, x.second));
		return d;
	}
	}
}

// the effect of an accepted configuration on the model
void Gram::apply_conf(N *n, CV &c, const std::vector<N *> &chs, N *inner)
{
	auto has = [&](const char *k) { return c.d.count(k) > 0; };
	n->conf = true;
	switch (n->t) {
	case STR: n->text = c.d["string"].s; break;
	case RE: n->text = c.d["pattern"].s; break;
	case ANY: n->has_attr = has("attr"); n->text = has("attr") ? c.d["attr"].s : ""; break;
	case INT: case UINT:
		n->has_min = has("min"); n->has_max = has("max");
		n->min = has("min") ? c.d["min"].i : 0;
		n->max = has("max") ? c.d["max"].i : 0;
		n->base = has("base") ? (unsigned)c.d["base"].i : 0;
		break;
	case MANY: n->mn = has("min") ? (unsigned)c.d["min"].i : 0; n->mx = has("max") ? (unsigned)c.d["max"].i : 0; n->ch = chs; break;
	case COND: n->text = c.d["expr"].s; n->ch = chs; break;
	case RE_LEX:
		n->ch = chs;
		n->pats.clear();
		if (has("patterns")) for (auto &x : c.d["patterns"].l) n->pats.push_back({ x.d["pattern"].s, x.d["keep"].i != 0, x.d.count("attr") > 0, x.d.count("attr") ? x.d["attr"].s : std::string() });
		break;
	case CMD: n->ch = chs; n->text = c.d["expr"].s; n->inner = inner; break;
	case XLEAF: n->text = c.d["text"].s; n->dynmode = has("mode") ? (int)c.d["mode"].i : 0; break;
	default: n->ch = chs; break;
	}
}

void Gram::op_set_config(N *n)
{
	if (!n) return;
	S.opname = std::string("config_") + type_name[n->t];
	CV c;
	c.t = EC_CONFIG_TYPE_DICT;
	auto child = [&]() { CV x; x.t = EC_CONFIG_TYPE_NODE; x.n = pick_child(); if (x.n && reaches(x.n, n) && S.draw(3)) x.n = new_leaf(true); return x; };
	auto children = [&]() { CV l; l.t = EC_CONFIG_TYPE_LIST; uint32_t k = S.draw(4); for (uint32_t i = 0; i < k; i++) { CV x = child(); if (x.n) l.l.push_back(x); } return l; };
	bool valid = true;
	uint32_t skip = allow_invalid ? S.draw(12) : 99; // 0: drop a mandatory key
	switch (n->t) {
	case STR: if (skip) c.d["string"] = cvs(rnd_text()); valid = skip; break;
	case INT: case UINT: {
		int ty = n->t == INT ? EC_CONFIG_TYPE_INT64 : EC_CONFIG_TYPE_UINT64;
		int64_t a = (int64_t)S.draw(12) - (n->t == INT ? 4 : 0), b = a + (int64_t)S.draw(10) - 1;
		if (n->t == UINT && b < 0) b = 0;
		if (S.draw(3)) c.d["min"] = cvi(ty, a);
		if (S.draw(3)) c.d["max"] = cvi(ty, b);
		if (S.draw(2)) { static const int bs[] = { 0, 10, 16, 1 }; c.d["base"] = cvi(EC_CONFIG_TYPE_UINT64, bs[S.draw(4)]); }
		if (S.draw(4) == 0) {
			static const int64_t ext[] = { INT64_MIN, -1, 0, 5, INT64_MAX };
			if (c.d.count("min")) c.d["min"] = cvi(ty, a = ext[S.draw(5)]);
			if (c.d.count("max")) c.d["max"] = cvi(ty, b = ext[S.draw(5)]);
		}
		if (c.d.count("min") && c.d.count("max") && (n->t == INT ? a > b : (uint64_t)a > (uint64_t)b)) valid = false;
		break;
	}
	case ANY: if (S.draw(2)) c.d["attr"] = cvs("attr1"); break;
	case RE: { std::string r = rnd_regex(); if (skip) c.d["pattern"] = cvs(r); valid = skip && regex_valid(r); break; }
	case MANY:
		if (skip) c.d["child"] = child();
		valid = skip;
		if (S.draw(2)) { uint32_t k = S.draw(7); c.d["min"] = cvi(EC_CONFIG_TYPE_UINT64, k == 6 ? (int64_t)UINT_MAX : k % 3); if (k == 6) valid = false; }
		if (S.draw(2)) { uint32_t k = S.draw(8); c.d["max"] = cvi(EC_CONFIG_TYPE_UINT64, k == 7 ? (int64_t)1 << 40 : k % 4); if (k == 7) valid = false; }
		break;
	case OPTION: case ONCE: case BYPASS: if (skip) c.d["child"] = child(); valid = skip; break;
	case SEQ: case OR: if (skip) c.d["children"] = children(); valid = skip; break;
	case COND: {
		std::string e = rnd_cond();
		if (skip != 0) c.d["expr"] = cvs(e);
		if (skip != 1) c.d["child"] = child();
		valid = skip > 1 && cond_valid(e);
		break;
	}
	case RE_LEX: {
		if (skip) c.d["child"] = child();
		valid = skip;
		if (S.draw(4)) {
			CV l;
			l.t = EC_CONFIG_TYPE_LIST;
			uint32_t k = S.draw(4);
			for (uint32_t i = 0; i < k; i++) {
				CV d;
				d.t = EC_CONFIG_TYPE_DICT;
				std::string r = rnd_regex();
				uint32_t q = S.draw(10);
				if (q != 0) d.d["pattern"] = cvs(r);
				if (q != 1) d.d["keep"] = cvi(EC_CONFIG_TYPE_BOOL, S.draw(3) != 0);
				if (q > 5) d.d["attr"] = cvs("attr1");
				if (q <= 1 || !regex_valid(r)) valid = false;
				l.l.push_back(d);
			}
			c.d["patterns"] = l;
		}
		break;
	}
	case CMD: {
		std::string e = rnd_cmd();
		if (skip != 0) c.d["expr"] = cvs(e);
		if (skip != 1) c.d["children"] = children();
		valid = skip > 1;
		break;
	}
	case XLEAF: {
		uint32_t m = S.draw(allow_invalid ? 5 : 4);
		if (skip) c.d["text"] = cvs(rnd_text());
		if (S.draw(2)) { c.d["mode"] = cvi(EC_CONFIG_TYPE_UINT64, m); valid = m < 4; }
		valid = valid && skip;
		break;
	}
	case XPAIR:
		if (skip) c.d["children"] = children();
		valid = skip && c.d["children"].l.size() == 2;
		if (!skip) c.d.erase("children");
		break;
	default: valid = false; break;
	}
	for (auto &x : c.d) if (x.second.t == EC_CONFIG_TYPE_NODE && !x.second.n) return;
	if (allow_invalid && S.draw(16) == 0) { c.d["bogus"] = cvi(EC_CONFIG_TYPE_BOOL, 1); valid = false; }
	if (allow_invalid && S.draw(20) == 0 && !c.d.empty()) {
		auto it = c.d.begin();
		if (it->second.t != EC_CONFIG_TYPE_BOOL) { it->second = cvi(EC_CONFIG_TYPE_BOOL, 0); valid = false; }
	}
	N *inner = nullptr;
	std::vector<N *> chs;
	if (c.d.count("children") && c.d["children"].t == EC_CONFIG_TYPE_LIST) for (auto &x : c.d["children"].l) chs.push_back(x.n);
	if (c.d.count("child")) chs.push_back(c.d["child"].n);
	if (n->t == CMD && valid) { inner = build_cmd(pool, c.d["expr"].s, chs); valid = inner; }

	std::string before = conf_str(ec_node_get_config(n->real));
	struct ec_node *target = ec_node_clone(n->real);
	struct ec_config *conf;
	{
		NoFault nf;
		conf = mkconf(this, c);
	}
	std::string want = conf_str(conf);
	S.opname = std::string("config_") + type_name[n->t];
	errno = 0;
	int ret = ec_node_set_config(target, conf);
	int err = errno;
	S.ev("%s %s -> %d", S.opname.c_str(), want.c_str(), ret);
	if (ret < 0) {
		CHECK(err != 0, "result", "errno", "%s failed without setting errno", S.opname.c_str());
		CHECK(S.faulted() || !valid, "spurious", "config", "setting a valid configuration %s on %s failed without any fault", want.c_str(), node_name(n).c_str());
		stats.failed_ops++;
	} else {
		CHECK(valid, "result", "config", "an invalid configuration %s was accepted by %s", want.c_str(), node_name(n).c_str());
		apply_conf(n, c, chs, inner);
	}
	ec_node_free(target);
	check_lifetime(S.opname.c_str());
	if (n->ext > 0) {
		std::string after = conf_str(ec_node_get_config(n->real));
		CHECK(after == (ret < 0 ? before : want), "atomicity", "config", "after %s (%d): configuration is %s, expected %s", S.opname.c_str(), ret, after.c_str(), (ret < 0 ? before : want).c_str());
		if (ret < 0 || S.faulted()) probe_node(n);
	}
}

void Gram::op_handle()
{
	N *n = pick();
	if (!n) return;
	S.opname = "handle";
	if (S.draw(3) == 0 && n->ext < 4) {
		ec_node_clone(n->real);
		n->ext++;
		S.ev("clone %s", node_name(n).c_str());
	} else {
		S.ev("free %s", node_name(n).c_str());
		drop(n);
		ec_node_free(n->real);
		check_lifetime("release of a handle");
	}
}

// ------------------------------------------------------------ tokens
void Gram::derive(const N *n, std::vector<std::string> &o, int depth)
{
	static const char *words[] = { "a", "b", "foo", "7", "x" };
	if (depth > 7 || o.size() > (big ? 40 : 8)) return;
	switch (n->t) {
	case STR: o.push_back(n->text); break;
	case INT: case UINT: {
		uint64_t mn = n->has_min ? (uint64_t)n->min : 0, mx = n->has_max ? (uint64_t)n->max : n->t == INT ? (uint64_t)INT64_MAX : UINT64_MAX, v;
		uint32_t k = S.draw(12);
		v = k < 5 ? mn + S.draw(4) : k == 5 ? mx : k == 6 ? mx + 1 : k == 7 ? mn - 1 : k == 8 ? mx - 1 : mn;
		static const char *odd[] = { "18446744073709551616", "9223372036854775808", "-9223372036854775809", "0x", "08", "-0", "+3", " 4", "4 ", "", "-", "0xffffffffffffffff", "zz", "1e3", "0b1", "0b", "0B10", "0b2" };
		if (k == 9) { o.push_back(odd[S.draw(18)]); break; }
		bool neg = n->t == INT && (int64_t)v < 0;
		uint64_t u = neg ? 0 - v : v;
		unsigned b = n->base && n->base != 1 && n->base <= 36 ? n->base : 10;
		std::string s;
		if (k == 10) b = 16;
		do { s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[u % b]); u /= b; } while (u);
		if (k == 10) s = "0x" + s;
		if (k == 11) s = (S.draw(2) ? " 0" : "0") + s;
		o.push_back((neg ? "-" : "") + s);
		break;
	}
	case XLEAF:
		if (n->dynmode == 2) break;
		o.push_back(n->text);
		if (n->dynmode == 1) o.push_back(words[S.draw(5)]);
		break;
	case XPAIR: for (auto k : n->ch) derive(k, o, depth + 1); break;
	case ANY: case FILE_: o.push_back(words[S.draw(5)]); break;
	case SPACE: o.push_back(" "); break;
	case RE: { static const char *w[] = { "a", "b", "ab", "fo", "12", "x1", "" }; o.push_back(w[S.draw(7)]); break; }
	case SEQ: for (auto k : n->ch) derive(k, o, depth + 1); break;
	case OR: if (!n->ch.empty()) derive(n->ch[S.draw((uint32_t)n->ch.size())], o, depth + 1); break;
	case MANY: if (!n->ch.empty()) { uint32_t k = (n->mn > 5 ? 2 : n->mn) + S.draw(big && S.draw(4) == 0 ? 24 : 3); for (uint32_t i = 0; i < k; i++) derive(n->ch[0], o, depth + 1); } break;
	case OPTION: if (!n->ch.empty() && S.draw(3)) derive(n->ch[0], o, depth + 1); break;
	case ONCE: case BYPASS: case COND: if (!n->ch.empty()) derive(n->ch[0], o, depth + 1); break;
	case SUBSET: {
		std::vector<N *> p = n->ch;
		while (!p.empty() && S.draw(5)) {
			size_t i = S.draw((uint32_t)p.size());
			derive(p[i], o, depth + 1);
			p.erase(p.begin() + i);
		}
		break;
	}
	case DYN: o.push_back(n->dynmode == 0 ? "a" : S.draw(2) ? "n0" : "n1"); break;
	case SH_LEX: case RE_LEX: {
		if (n->ch.empty()) break;
		std::vector<std::string> in;
		derive(n->ch[0], in, depth + 1);
		std::string s;
		bool odd = n->t == SH_LEX && S.draw(4) == 0; // every way of writing the same words
		static const char *gap[] = { " ", "  ", "\t", "\n", "\r", " #c 'x\n", " # \"\r", "\v ", " #\n# \\\n" };
		if (odd && S.draw(3) == 0) s += gap[S.draw(9)];
		for (size_t i = 0; i < in.size(); i++) {
			if (i) s += odd ? gap[S.draw(9)] : S.draw(6) ? " " : n->t == SH_LEX ? " \t" : "";
			if (odd && in[i].size() < 40) {
				if (in[i].empty()) { s += S.draw(2) ? "''" : "\"\""; continue; }
				uint32_t how = S.draw(4);
				for (size_t k = 0; k < in[i].size(); k++) {
					char c = in[i][k];
					if (S.draw(3) == 0) how = S.draw(4);
					if (how == 2 && c == '\'') how = 3;
					if (how == 0 && (strchr("'\"\\", c) || isspace((unsigned char)c) || (c == '#' && k == 0))) how = 1;
					if (how == 0) s += c;
					else if (how == 1) s += std::string("\\") + c;
					else if (how == 2) s += std::string("'") + c + (S.draw(4) ? "'" : "'''");
					else s += std::string("\"") + (strchr("\"\\", c) || S.draw(5) == 0 ? "\\" : "") + c + "\"";
				}
			} else if (n->t == SH_LEX && (in[i].empty() || in[i].find_first_of(" '\"\\") != std::string::npos || S.draw(5) == 0)) {
				char q = in[i].find('\'') != std::string::npos || S.draw(2) ? '"' : '\'';
				s += q;
				for (char c : in[i]) { if (q == '"' && (c == '"' || c == '\\')) s += '\\'; s += c; }
				s += q;
			} else
				s += in[i];
		}
		if (odd && S.draw(3) == 0) s += S.draw(2) ? gap[S.draw(9)] : S.draw(2) ? " # end" : "\\";
		o.push_back(s);
		break;
	}
	case CMD: case EXPR: if (n->inner) derive(n->inner, o, depth + 1); break;
	default: break;
	}
}

std::vector<std::string> Gram::tokens(const N *n, bool for_complete)
{
	std::vector<std::string> v;
	derive(n, v, 0);
	uint32_t m = S.draw(8);
	if (m == 0 && !v.empty()) v.erase(v.begin() + S.draw((uint32_t)v.size()));
	else if (m == 1) v.insert(v.begin() + S.draw((uint32_t)v.size() + 1), rnd_text());
	else if (m == 2 && !v.empty()) v[S.draw((uint32_t)v.size())] = rnd_text();
	else if (m == 3 && v.size() > 1) v.resize(1 + S.draw((uint32_t)v.size()));
	else if (m == 4) v.push_back(rnd_text());
	else if (m == 5 && !v.empty() && S.draw(3) == 0) { // another case
		std::string &x = v[S.draw((uint32_t)v.size())];
		for (auto &ch : x) if (isalpha((unsigned char)ch) && S.draw(2)) ch ^= 0x20;
	}
	if (for_complete) {
		uint32_t k = S.draw(6);
		if (k == 0 || v.empty()) v.push_back("");
		else if (k < 5) {
			if (k > 2 && v.size() > 1) v.resize(1 + S.draw((uint32_t)v.size()));
			std::string &s = v.back();
			s = s.substr(0, S.draw((uint32_t)s.size() + 1));
		}
		if (allow_file && S.draw(4) == 0) v.back() = simfs::random_path();
	}
	if (v.size() > (big ? 40 : 7)) v.resize(big ? 40 : 7);
	if (big && !for_complete && !v.empty() && S.draw(12) == 0) { // very long inputs
		size_t k = v.size(), n2 = 240 + S.draw(60);
		for (size_t i = 0; v.size() < n2; i++) v.push_back(v[i % k]);
	}
	return v;
}

// ------------------------------------------------------------ parse / complete
struct ec_strvec *Gram::mkvec(const Toks &t)
{
	NoFault nf;
	struct ec_strvec *v = ec_strvec();
	for (auto &x : t) {
		ec_strvec_add(v, x.s.c_str());
		if (!x.attrs.empty()) {
			struct ec_dict *d = ec_dict();
			for (auto &a : x.attrs) ec_dict_set(d, a.c_str(), nullptr, nullptr);
			ec_strvec_set_attrs(v, ec_strvec_len(v) - 1, d);
		}
	}
	return v;
}
std::string Gram::snap_strvec(const struct ec_strvec *v)
{
	std::string o = "[";
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		o += quote(ec_strvec_val(v, i));
		const struct ec_dict *a = ec_strvec_get_attrs(v, i);
		if (a) o += fmt("@%zu", ec_dict_len(a));
		o += " ";
	}
	return o + "]";
}

void Gram::cmp_tree(const PT *m, const struct ec_pnode *p, const char *what)
{
	if (m->n && m->n->real)
		CHECK(ec_pnode_get_node(p) == m->n->real, "result", "node-identity", "%s: a parse tree element refers to another node than %s", what, node_name(m->n).c_str());
	if (m->n && m->n->real && (m->n->t == INT || m->n->t == UINT) && m->has) {
		const char *str = ec_strvec_val(ec_pnode_get_strvec(p), 0);
		uint64_t want = 0, u = 0;
		int64_t i = 0;
		bool ok = int_value(m->n, m->v[0].s, &want);
		int r = m->n->t == INT ? ec_node_int_getval(m->n->real, str, &i) : ec_node_uint_getval(m->n->real, str, &u);
		CHECK(ok && r == 0 && (m->n->t == INT ? (uint64_t)i : u) == want, "result", "int-value", "%s: the value of %s is not available from its node (%d)", what, quote(str).c_str(), r);
	}
	struct ec_pnode *c = ec_pnode_get_first_child(p);
	for (auto k : m->ch) {
		CHECK(c != nullptr, "result", "tree", "%s: missing element in the parse tree", what);
		CHECK(ec_pnode_get_parent(c) == p, "result", "tree-link", "%s: parse tree parent link broken", what);
		cmp_tree(k, c, what);
		c = ec_pnode_next(c);
	}
	CHECK(c == nullptr, "result", "tree", "%s: extra element in the parse tree", what);
}

std::string Gram::snap_parse(const struct ec_pnode *p) { return ser_real(p, nullptr); }

void Gram::op_parse(N *n)
{
	if (!n) return;
	S.opname = "parse";
	std::vector<std::string> v = tokens(n, false);
	bool single = S.draw(4) == 0 && v.size() == 1;
	Toks tk = toks(v);
	if (!single && !tk.empty() && S.draw(6) == 0) tk[S.draw((uint32_t)tk.size())].attrs.insert("attr1");
	bool keep = S.draw(5) == 0 && kept.size() < 4;
	Ctx c;
	PT *t = nullptr;
	int mr;
	try { mr = parse_root(c, n, tk, &t); } catch (Limit &) { S.ev("parse limit"); stats.probes["model_limit"]++; return; }
	struct ec_strvec *sv = mkvec(tk);
	std::string in = snap_strvec(sv);
	std::string conf = conf_str(ec_node_get_config(n->real));
	errno = 0;
	xtype::mute = 0;
	struct ec_pnode *p = single ? ec_parse(n->real, v[0].c_str()) : ec_parse_strvec(n->real, sv);
	int e = errno;
	std::string got = p ? (ec_pnode_matches(p) ? snap_parse(p) : "nomatch") : "error";
	S.ev("parse %s %s -> %s", node_name(n).c_str(), in.c_str(), got.c_str());
	if (!p) {
		CHECK(S.faulted() || mr == ERR, "result", "spurious-error", "parsing %s with %s failed (errno %d) without any fault; expected %s", in.c_str(), node_name(n).c_str(), e,
			mr == NOMATCH ? "no match" : ser(t, nullptr).c_str());
		CHECK(e != 0 || xtype::mute, "result", "errno", "parsing %s with %s failed without setting errno", in.c_str(), node_name(n).c_str());
		stats.failed_ops++;
	} else {
		if (S.faulted()) stats.ok_under_fault++;
		CHECK(mr != ERR, "result", "missed-error", "parsing %s with %s succeeded (%s) although the grammar is not usable", in.c_str(), node_name(n).c_str(), got.c_str());
		CHECK(ec_pnode_matches(p) == (mr != NOMATCH), "result", "match", "parsing %s with %s: got %s, expected %s", in.c_str(), node_name(n).c_str(), got.c_str(),
			mr == NOMATCH ? "no match" : ser(t, nullptr).c_str());
		CHECK(ec_pnode_get_parent(p) == nullptr && ec_pnode_get_node(p) == n->real, "result", "root", "the result does not have the parsed grammar as root");
		if (mr != NOMATCH) {
			std::string want = ser(t, nullptr);
			CHECK(got == want, "result", "tree", "parsing %s: got %s, expected %s", in.c_str(), got.c_str(), want.c_str());
			CHECK((int)ec_pnode_len(p) == mr, "result", "length", "parsing %s: reported length %zu, expected %d", in.c_str(), ec_pnode_len(p), mr);
			cmp_tree(t, p, "parse");
			stats.probes["parse_match"]++;
		} else {
			CHECK(ec_pnode_get_first_child(p) == nullptr, "result", "nomatch-tree", "parsing %s with %s does not match but returns a partial tree %s", in.c_str(), node_name(n).c_str(), ser_real(p, nullptr).c_str());
			CHECK(ec_pnode_len(p) == 0, "result", "length", "a result that does not match has length %zu", ec_pnode_len(p));
			stats.probes["parse_nomatch"]++;
		}
	}
	if (p && ec_pnode_matches(p) && S.draw(6) == 0) {
		struct ec_pnode *d = ec_pnode_dup(p);
		if (!d) CHECK(S.faulted(), "spurious", "dup", "ec_pnode_dup failed without any fault");
		else {
			CHECK(ser_real(d, nullptr) == got, "result", "dup", "the copy of a parse tree differs: %s vs %s", ser_real(d, nullptr).c_str(), got.c_str());
			if (S.draw(2)) std::swap(d, p);
			ec_pnode_free(d);
			CHECK(ser_real(p, nullptr) == got, "result", "dup", "a parse tree changed when its copy was released");
		}
	}
	CHECK(snap_strvec(sv) == in, "isolation", "input", "parsing modified its input from %s to %s", in.c_str(), snap_strvec(sv).c_str());
	CHECK(conf_str(ec_node_get_config(n->real)) == conf, "isolation", "grammar", "parsing modified the grammar configuration");
	{ NoFault nf; ec_strvec_free(sv); }
	if (p && keep) {
		Kept k{ n, p, nullptr, snap_kept(p, nullptr), {} };
		if (pin(n, k)) kept.push_back(k);
		else ec_pnode_free(p);
	} else
		ec_pnode_free(p);
	check_handles();
}

static std::string item_str(const struct ec_comp_item *it, int grp)
{
	auto s = [](const char *p) { return p ? quote(p) : std::string("-"); };
	return fmt("g%d:%d:%s:%s:%s", grp, (int)ec_comp_item_get_type(it), s(ec_comp_item_get_str(it)).c_str(), s(ec_comp_item_get_completion(it)).c_str(),
		s(ec_comp_item_get_display(it)).c_str());
}
static const enum ec_comp_type masks[] = { EC_COMP_ALL, EC_COMP_FULL, EC_COMP_PARTIAL, EC_COMP_UNKNOWN, (enum ec_comp_type)(EC_COMP_FULL | EC_COMP_PARTIAL) };

// full text of the completion result, through the public iterators
// what must not change in a stored result (the text of its nodes may: the application may reconfigure them)
std::string Gram::snap_kept(const struct ec_pnode *p, const struct ec_comp *c)
{
	model::ser_text = false;
	std::string s = p ? snap_parse(p) : snap_comp(c);
	model::ser_text = true;
	return s;
}

std::string Gram::snap_comp(const struct ec_comp *c)
{
	std::string o;
	std::map<const struct ec_comp_group *, int> grps;
	uint64_t n = 0;
	for (auto m : masks) {
		o += fmt("|%d n=%zu", (int)m, ec_comp_count(c, m));
		uint64_t cnt = 0;
		struct ec_comp_item *it;
		EC_COMP_FOREACH(it, c, m) {
			if (++n > 20000) violate("hang", "iterator", "iterating the completion items does not terminate");
			const struct ec_comp_group *g = ec_comp_item_get_grp(it);
			if (!grps.count(g)) {
				int id = (int)grps.size();
				grps[g] = id;
				const struct ec_pnode *ps = ec_comp_group_get_pstate(g);
				const struct ec_pnode *root = EC_PNODE_GET_ROOT(ps);
				o += " {" + ser_real(root, ps) + "}";
			}
			o += " " + item_str(it, grps[g]);
			cnt++;
		}
		CHECK(cnt == ec_comp_count(c, m), "result", "comp-count", "the completion iterator yields %llu items of kind %d but the count is %zu", (unsigned long long)cnt, (int)m, ec_comp_count(c, m));
	}
	return o;
}

std::string model_comp_str(Comp &mc)
{
	std::string o;
	std::stable_sort(mc.items.begin(), mc.items.end(), [](const Item &a, const Item &b) { return a.grp < b.grp; });
	std::map<int, int> grps;
	for (auto m : masks) {
		size_t n = 0;
		for (auto &it : mc.items) if (it.type & m) n++;
		o += fmt("|%d n=%zu", (int)m, n);
		for (auto &it : mc.items) {
			if (!(it.type & m)) continue;
			if (!grps.count(it.grp)) {
				int id = (int)grps.size();
				grps[it.grp] = id;
				o += " {" + mc.grp_state[it.grp] + "}";
			}
			o += fmt(" g%d:%d:%s:%s:%s", grps[it.grp], it.type, it.has_full ? quote(it.full).c_str() : "-", it.has_comp ? quote(it.comp).c_str() : "-", it.has_full ? quote(it.disp).c_str() : "-");
		}
	}
	return o;
}

// the dump shows the counts and every item once, in order
static void check_comp_dump(const struct ec_comp *r)
{
	char *buf = nullptr;
	size_t len = 0;
	FILE *f;
	{ NoFault nf; f = open_memstream(&buf, &len); }
	ec_comp_dump(f, r);
	{ NoFault nf; fclose(f); }
	std::string out(buf, len), w;
	sim::real_free_buf(buf);
	if (ec_comp_count(r, EC_COMP_ALL) == 0) {
		CHECK(out == "no completion\n", "result", "comp-dump", "the dump of an empty completion is %s", quote(out).c_str());
		return;
	}
	w = fmt("completion: count=%zu full=%zu partial=%zu unknown=%zu\n", ec_comp_count(r, EC_COMP_ALL), ec_comp_count(r, EC_COMP_FULL), ec_comp_count(r, EC_COMP_PARTIAL), ec_comp_count(r, EC_COMP_UNKNOWN));
	CHECK(!out.compare(0, w.size(), w), "result", "comp-dump", "the dump of a completion starts with %s", quote(out.substr(0, 80)).c_str());
	size_t pos = w.size();
	const struct ec_comp_group *g = nullptr;
	struct ec_comp_item *it;
	EC_COMP_FOREACH(it, r, EC_COMP_ALL) {
		if (ec_comp_item_get_grp(it) != g) { // groups without items may be shown too
			g = ec_comp_item_get_grp(it);
			w = fmt("node=%p, node_type=%s\n", (const void *)ec_comp_item_get_node(it), ec_node_get_type_name(ec_comp_item_get_node(it)));
			while (pos < out.size() && !out.compare(pos, 5, "node=") && out.compare(pos, w.size(), w)) { pos = out.find('\n', pos); pos = pos == std::string::npos ? out.size() : pos + 1; }
			CHECK(!out.compare(pos, w.size(), w), "result", "comp-dump", "the dump of a completion misses a node: %s", quote(out).c_str());
			pos += w.size();
		}
		auto s = [](const char *p) { return std::string(p ? p : "(null)"); };
		enum ec_comp_type t = ec_comp_item_get_type(it);
		w = fmt("  type=%s str=<", t == EC_COMP_FULL ? "full" : t == EC_COMP_PARTIAL ? "partial" : "unknown") + s(ec_comp_item_get_str(it)) + "> comp=<" + s(ec_comp_item_get_completion(it)) + "> disp=<" + s(ec_comp_item_get_display(it)) + ">\n";
		CHECK(!out.compare(pos, w.size(), w), "result", "comp-dump", "the dump of a completion lacks %s: %s", quote(w).c_str(), quote(out).c_str());
		pos += w.size();
	}
	CHECK(pos == out.size() || !out.compare(pos, 5, "node="), "result", "comp-dump", "the dump of a completion shows more than its items: %s", quote(out).c_str());
}

void Gram::op_complete(N *n, const std::vector<std::string> *with)
{
	if (!n) return;
	S.opname = "complete";
	std::vector<std::string> v = with ? *with : tokens(n, true);
	bool single = S.draw(4) == 0 && v.size() == 1;
	bool keep = S.draw(5) == 0 && kept.size() < 4;
	Toks tk = toks(v);
	Ctx c;
	Comp mc;
	int mr;
	try { mr = complete_child(c, n, mc, tk); } catch (Limit &) { S.ev("complete limit"); stats.probes["model_limit"]++; return; }
	if (mc.items.size() > 400) return;
	std::string want = mr == ERR ? "error" : model_comp_str(mc);
	struct ec_strvec *sv = mkvec(tk);
	std::string in = snap_strvec(sv);
	errno = 0;
	xtype::tolerated = xtype::mute = 0;
	struct ec_comp *r = single ? ec_complete(n->real, v[0].c_str()) : ec_complete_strvec(n->real, sv);
	int e = errno;
	std::string got;
	{
		NoFault nf;
		got = r ? snap_comp(r) : "error";
	}
	S.ev("complete %s %s -> %s", node_name(n).c_str(), in.c_str(), got.c_str());
	if (!r) {
		CHECK(S.faulted() || mr == ERR, "result", "spurious-error", "completing %s with %s failed (errno %d) without any fault", in.c_str(), node_name(n).c_str(), e);
		CHECK(e != 0 || xtype::mute, "result", "errno", "completing %s with %s failed without setting errno", in.c_str(), node_name(n).c_str());
		stats.failed_ops++;
	} else if (xtype::tolerated) { // the application's callback chose to carry on: fewer items, consistent counts (snap_comp)
		stats.ok_under_fault++;
		keep = false;
	} else {
		if (S.faulted()) stats.ok_under_fault++;
		CHECK(mr != ERR, "result", "missed-error", "completing %s with %s succeeded although it cannot", in.c_str(), node_name(n).c_str());
		CHECK(got == want, "result", "completion", "completing %s with %s: got %s, expected %s", in.c_str(), node_name(n).c_str(), got.c_str(), want.c_str());
		// node identity
		struct ec_comp_item *it;
		size_t i = 0;
		EC_COMP_FOREACH(it, r, EC_COMP_ALL) {
			if (i < mc.items.size() && mc.items[i].n->real)
				CHECK(ec_comp_item_get_node(it) == mc.items[i].n->real, "result", "comp-node", "completion item %zu is attributed to the wrong node", i);
			i++;
		}
		if (!mc.items.empty()) stats.probes["completion_nonempty"]++;
		if (S.draw(12) == 0) check_comp_dump(r);
	}
	CHECK(snap_strvec(sv) == in, "isolation", "input", "completing modified its input");
	{ NoFault nf; ec_strvec_free(sv); }
	if (r && keep) {
		Kept k{ n, nullptr, r, snap_kept(nullptr, r), {} };
		if (pin(n, k)) kept.push_back(k);
		else ec_comp_free(r);
	} else
		ec_comp_free(r);
	if (kept.empty()) CHECK(xtype::attr_live == 0, "lifetime", "comp-attrs", "%d values attached to completion results are still held", xtype::attr_live);
	check_handles();
}

void Gram::op_merge()
{
	std::vector<size_t> idx;
	for (size_t i = 0; i < kept.size(); i++) if (kept[i].c) idx.push_back(i);
	if (idx.size() < 2) { op_complete(pick()); return; }
	S.opname = "comp_merge";
	Kept &a = kept[idx[0]], &b = kept[idx[1]];
	size_t n0 = ec_comp_count(a.c, EC_COMP_ALL), n1 = ec_comp_count(b.c, EC_COMP_ALL);
	// items in order, before
	std::vector<std::string> want;
	auto dump = [](struct ec_comp *c, std::vector<std::string> &o) {
		struct ec_comp_item *it;
		size_t n = 0;
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			if (++n > 20000) violate("hang", "iterator", "iterating the completion items does not terminate");
			const struct ec_pnode *ps = ec_comp_group_get_pstate(ec_comp_item_get_grp(it));
			o.push_back(item_str(it, 0) + ser_real(EC_PNODE_GET_ROOT(ps), ps));
		}
	};
	dump(a.c, want);
	dump(b.c, want);
	int ret = ec_comp_merge(a.c, b.c);
	S.ev("comp_merge %zu+%zu -> %d", n0, n1, ret);
	if (ret < 0) {
		CHECK(S.faulted(), "spurious", "merge", "merging two completion results failed without any fault");
	} else {
		std::vector<std::string> got;
		dump(a.c, got);
		CHECK(ec_comp_count(a.c, EC_COMP_ALL) == n0 + n1 && got == want, "result", "merge", "merging two completion results does not give their concatenation (%zu items, expected %zu)", got.size(), want.size());
		NoFault nf;
		a.snap = snap_kept(nullptr, a.c);
		check_comp_dump(a.c);
	}
	// the second result was consumed (released on failure); both grammars must
	// stay alive for the merged result
	S.op_repeatable = false;
	std::vector<N *> bp = b.pins;
	kept.erase(kept.begin() + idx[1]);
	Kept &m = kept[idx[0]];
	if (ret >= 0) {
		m.pins.insert(m.pins.end(), bp.begin(), bp.end());
		{ NoFault nf; m.snap = snap_kept(nullptr, m.c); }
		if (S.draw(2)) {
			Kept x = m;
			kept.erase(kept.begin() + idx[0]);
			ec_comp_free(x.c);
			unpin(x);
			check_lifetime("comp_merge");
		}
	} else {
		// the first result is unchanged
		NoFault nf;
		std::string now = snap_kept(nullptr, m.c);
		CHECK(now == m.snap, "atomicity", "merge", "a failed merge changed the first result: %s was %s", now.c_str(), m.snap.c_str());
		for (auto x : bp) ec_node_free(x->real);
	}
}

bool Gram::pin(N *root, Kept &k)
{
	std::set<const N *> seen;
	std::vector<N *> st = { root };
	while (!st.empty()) {
		N *n = st.back();
		st.pop_back();
		if (!seen.insert(n).second) continue;
		if (n->t == CMD || n->t == EXPR) return false; // nodes the application has no handle on
		succ(n, st);
		k.pins.push_back(n);
	}
	for (auto n : k.pins) ec_node_clone(n->real);
	return true;
}
void Gram::unpin(Kept &k)
{
	std::vector<N *> p;
	p.swap(k.pins);
	for (auto n : p) ec_node_free(n->real);
}

void Gram::op_drop_kept()
{
	if (kept.empty()) return;
	S.opname = "drop_result";
	size_t i = S.draw((uint32_t)kept.size());
	Kept k = kept[i];
	kept.erase(kept.begin() + i);
	std::string now;
	{
		NoFault nf;
		now = snap_kept(k.p, k.c);
	}
	// the grammar may have been reconfigured since; identifiers and strings of the result must not change
	CHECK(now == k.snap, "isolation", "kept-result", "a stored result changed from %s to %s", k.snap.c_str(), now.c_str());
	if (k.p && S.draw(2)) {
		now = snap_parse(k.p);
		struct ec_pnode *d = ec_pnode_dup(k.p);
		if (!d) CHECK(S.faulted(), "spurious", "dup", "ec_pnode_dup failed without any fault");
		else {
			CHECK(ser_real(d, nullptr) == now, "result", "dup", "the copy of a parse tree differs: %s vs %s", ser_real(d, nullptr).c_str(), now.c_str());
			ec_pnode_free(k.p);
			k.p = nullptr;
			CHECK(ser_real(d, nullptr) == now, "result", "dup", "the copy of a parse tree changed when the original was released");
			ec_pnode_free(d);
		}
	}
	ec_pnode_free(k.p);
	ec_comp_free(k.c);
	S.ev("drop result");
	unpin(k);
	check_lifetime("release of a result");
	S.op_repeatable = false;
}

// children, their number, and what lies outside of the range
void Gram::query_children(N *n)
{
	S.opname = "children";
	std::vector<N *> o;
	succ(n, o);
	size_t cnt = ec_node_get_children_count(n->real);
	S.ev("children of %s -> %zu", node_name(n).c_str(), cnt);
	bool flat = n->t != CMD && n->t != EXPR;
	if (flat) CHECK(cnt == o.size(), "result", "children", "%s has %zu children, expected %zu", node_name(n).c_str(), cnt, o.size());
	struct ec_node *c;
	unsigned refs;
	for (size_t i = 0; i < cnt; i++) {
		c = nullptr;
		refs = 0;
		int r = ec_node_get_child(n->real, i, &c, &refs);
		CHECK(r == 0 && c && refs > 0, "result", "children", "child %zu of %s cannot be obtained", i, node_name(n).c_str());
		if (flat) CHECK(c == o[i]->real, "result", "children", "child %zu of %s is not the expected one", i, node_name(n).c_str());
		else if (n->t == EXPR) {
			bool ok = false;
			for (auto x : o) ok = ok || x->real == c;
			(void)ok;
		}
	}
	for (size_t i : { cnt, cnt + 1 + S.draw(4), (size_t)-1 }) {
		c = n->real;
		int r = ec_node_get_child(n->real, i, &c, &refs);
		CHECK((r < 0 || i == 0) && c == nullptr, "result", "child-range", "child %zu of %s exists although it has %zu children", i, node_name(n).c_str(), cnt);
	}
	const struct ec_node_type *t = ec_node_type(n->real);
	CHECK(!strcmp(ec_node_type_name(t), type_name[n->t]) && !strcmp(ec_node_get_type_name(n->real), type_name[n->t]) && n->id == ec_node_id(n->real) &&
		ec_node_type_lookup(type_name[n->t]) == t && ec_node_check_type(n->real, t) == 0, "result", "identity", "%s has another type or identifier", node_name(n).c_str());
}

// the dump shows every node of the grammar once, in order, at its depth
void Gram::query_dump(N *n)
{
	S.opname = "dump";
	char *buf = nullptr;
	size_t len = 0;
	FILE *f;
	{ NoFault nf; f = open_memstream(&buf, &len); }
	ec_node_dump(f, n->real);
	{ NoFault nf; fclose(f); }
	std::string out(buf, len);
	sim::real_free_buf(buf);
	S.ev("dump %s", node_name(n).c_str());
	bool opaque = false;
	std::set<const N *> seen;
	std::vector<std::string> want; // depth, description, type and identifier
	std::function<void(N *, int)> walk = [&](N *x, int d) {
		if (want.size() > 300) { opaque = true; return; }
		bool loop = !seen.insert(x).second;
		std::string desc = fmt("<%s>", type_name[x->t]);
		if ((x->t == STR || x->t == XLEAF) && x->conf) desc = x->text;
		else if (x->t == STR || x->t == XLEAF || x->t == CMD || x->t == EXPR) opaque = true; // unspecified
		want.push_back(fmt("%*s%s type=%s id=%s %s", d * 4, "", desc.c_str(), type_name[x->t], x->id.c_str(), loop ? "loop" : ""));
		if (loop) return;
		std::vector<N *> o;
		succ(x, o);
		for (auto k : o) walk(k, d + 1);
	};
	walk(n, 0);
	if (S.faulted() || opaque) return;
	std::vector<std::string> got;
	size_t pos = out.find('\n');
	CHECK(pos != std::string::npos, "result", "dump", "the dump of %s is empty", node_name(n).c_str());
	for (pos++; pos < out.size();) {
		size_t e = out.find('\n', pos);
		if (e == std::string::npos) e = out.size();
		got.push_back(out.substr(pos, e - pos));
		pos = e + 1;
	}
	CHECK(got.size() == want.size(), "result", "dump", "the dump of %s has %zu lines, expected %zu: %s", node_name(n).c_str(), got.size(), want.size(), out.c_str());
	for (size_t i = 0; i < got.size(); i++) {
		bool loop = want[i].size() > 4 && want[i].compare(want[i].size() - 5, 5, " loop") == 0;
		std::string w = loop ? want[i].substr(0, want[i].size() - 4) : want[i];
		CHECK(got[i].compare(0, w.size(), w) == 0 && (got[i].find("(loop)") != std::string::npos) == loop, "result", "dump", "line %zu of the dump of %s is %s, expected %s", i, node_name(n).c_str(), quote(got[i]).c_str(), quote(want[i]).c_str());
	}
}

void Gram::op_getval()
{
	N *n = S.draw(2) ? pick_type(INT) : pick_type(UINT);
	if (!n || S.draw(12) == 0) n = pick();
	if (!n) return;
	S.opname = "getval";
	std::vector<std::string> v;
	if (n->t == INT || n->t == UINT) derive(n, v, 0);
	std::string s = v.empty() ? rnd_text() : v[0];
	bool sg = n->t == INT ? S.draw(10) != 0 : n->t == UINT ? S.draw(10) == 0 : S.draw(2);
	int64_t i = 77;
	uint64_t u = 77, want = 0;
	errno = 0;
	int r = sg ? ec_node_int_getval(n->real, s.c_str(), &i) : ec_node_uint_getval(n->real, s.c_str(), &u);
	int e = errno;
	bool ok = n->t == (sg ? INT : UINT) && int_value(n, s, &want);
	S.ev("getval %s %s -> %d", node_name(n).c_str(), quote(s).c_str(), r);
	CHECK((r == 0) == ok, "result", "getval", "the value of %s with %s: returned %d, expected %s", quote(s).c_str(), node_name(n).c_str(), r, ok ? "success" : "an error");
	if (r < 0) CHECK(e != 0, "result", "errno", "getting the value of %s failed without setting errno", quote(s).c_str());
	else CHECK((sg ? (uint64_t)i : u) == want, "result", "getval", "the value of %s is %lld, expected %lld", quote(s).c_str(), (long long)(sg ? i : (int64_t)u), (long long)want);
}

static struct ec_config *list_of(int dummy, ...)
{
	va_list ap;
	va_start(ap, dummy);
	struct ec_config *r = ec_node_config_node_list_from_vargs(ap);
	va_end(ap);
	return r;
}

void Gram::query_node_list()
{
	S.opname = "node_list";
	bool va = S.draw(2) == 0, bad = false;
	uint32_t k = S.draw(va ? 5 : 7);
	std::vector<N *> want;
	struct ec_config *list = nullptr;
	if (va) {
		struct ec_node *a[5];
		for (auto &x : a) x = (struct ec_node *)EC_VA_END;
		for (uint32_t i = 0; i < k; i++) {
			N *n = pick();
			if (!n || S.draw(8) == 0) { a[i] = nullptr; bad = true; continue; } // an argument whose creation failed
			a[i] = ec_node_clone(n->real);
			want.push_back(n);
		}
		list = list_of(0, a[0], a[1], a[2], a[3], a[4], EC_VA_END);
		S.ev("node_list of %u%s -> %d", k, bad ? " (one missing)" : "", list != nullptr);
		if (bad) CHECK(!list, "result", "node-list", "a list was made although one of its nodes is missing");
		else if (!list) CHECK(S.faulted(), "spurious", "node-list", "a list of nodes could not be made without any fault");
	} else {
		list = ec_config_list();
		for (uint32_t i = 0; i < k && list; i++) {
			N *n = pick();
			bool b = !n || S.draw(12) == 0;
			struct ec_config *e = !b ? ec_config_node(ec_node_clone(n->real)) : S.draw(2) ? ec_config_i64(3) : ec_config_list();
			if (ec_config_list_add(list, e) < 0) { // both are released by the library or by us
				CHECK(S.faulted(), "spurious", "node-list", "a list of nodes could not be made without any fault");
				ec_config_free(list);
				list = nullptr;
				break;
			}
			if (b) bad = true;
			else want.push_back(n);
		}
		S.ev("list of %u%s -> %d", k, bad ? " (other types)" : "", list != nullptr);
	}
	if (list) {
		CHECK(!va || (size_t)ec_config_count(list) == want.size(), "result", "node-list", "a list made of %zu nodes has %zd entries", want.size(), ec_config_count(list));
		size_t len = 77;
		errno = 0;
		struct ec_node **t = ec_node_config_node_list_to_table(list, &len);
		int e = errno;
		if (!t) {
			CHECK(len == 0, "result", "node-table", "no table, but %zu entries", len);
			if (bad) CHECK(e == EINVAL || S.faulted(), "result", "node-table", "a list that does not only have nodes: errno %d", e);
			else CHECK(S.faulted(), "spurious", "node-table", "a list of nodes could not be converted without any fault");
		} else {
			CHECK(!bad, "result", "node-table", "a list that does not only have nodes was converted");
			CHECK(len == want.size(), "result", "node-table", "the table of %zu nodes has %zu entries", want.size(), len);
			for (size_t i = 0; i < len; i++) CHECK(t[i] == want[i]->real, "result", "node-table", "entry %zu of the table is not the node of the list", i);
		}
		ec_config_free(list);
		for (size_t i = 0; t && i < len; i++) ec_node_free(t[i]); // the references of the table outlive the list
		if (t) ec_free(t);
		if (S.draw(8) == 0) {
			struct ec_config *c = S.draw(2) ? ec_config_i64(1) : nullptr;
			errno = 0;
			len = 5;
			CHECK(!ec_node_config_node_list_to_table(c, &len) && errno == EINVAL && len == 0, "result", "node-table", "something that is no list was converted");
			ec_config_free(c);
		}
	}
	check_lifetime("list of nodes");
}

void Gram::op_query()
{
	N *n = pick();
	if (!n) return;
	uint32_t k = S.draw(7);
	if (k == 6) {
		query_node_list();
		return;
	}
	if (k == 0) {
		S.opname = "desc";
		char *d = ec_node_desc(n->real);
		S.ev("desc %s -> %d", node_name(n).c_str(), d != nullptr);
		if (!d) CHECK(S.faulted(), "spurious", "desc", "ec_node_desc failed without any fault");
		if (d) {
			if ((n->t == STR || n->t == XLEAF) && n->conf) CHECK(n->text == d, "result", "desc", "the description of %s is %s", node_name(n).c_str(), quote(d).c_str());
			else if (n->t != STR && n->t != XLEAF) CHECK(fmt("<%s>", type_name[n->t]) == d, "result", "desc", "the description of %s is %s", node_name(n).c_str(), quote(d).c_str());
			ec_free(d);
		}
	} else if (k == 1) {
		S.opname = "find";
		std::string id = rnd_id();
		struct ec_node *r = ec_node_find(n->real, id.c_str());
		std::set<const N *> seen;
		bool any = false, ok = r == nullptr;
		std::vector<N *> st = { n };
		bool opaque = false;
		while (!st.empty()) {
			N *x = st.back();
			st.pop_back();
			if (!seen.insert(x).second) continue;
			if (x->id == id) { any = true; if (x->real == r) ok = true; }
			if (x->t == CMD || x->t == EXPR) { opaque = true; }
			succ(x, st);
		}
		S.ev("find %s in %s -> %d", id.c_str(), node_name(n).c_str(), r != nullptr);
		if (r) CHECK(id == ec_node_id(r), "result", "find", "found a node with another identifier");
		if (!opaque) CHECK(ok && any == (r != nullptr), "result", "find", "looking up '%s' under %s: found=%d, expected %d", id.c_str(), node_name(n).c_str(), r != nullptr, any);
	} else if (k == 2) {
		query_dump(n);
	} else if (k == 4) {
		query_children(n);
	} else if (k == 5) {
		op_getval();
	} else {
		probe_node(n);
	}
	S.op_repeatable = k != 3;
}

void Gram::op_fs()
{
	S.opname = "fs";
	simfs::mutate();
	S.ev("fs mutate");
	S.op_repeatable = false;
}

void Gram::check_handles()
{
	if (!allow_file) return;
	CHECK(simfs::open_handles() == 0, "resource", "dir-handle", "%d directory handles left open by %s", simfs::open_handles(), S.opname.c_str());
}

void Gram::finish()
{
	NoFault nf;
	while (!kept.empty()) {
		Kept k = kept.back();
		kept.pop_back();
		ec_pnode_free(k.p);
		ec_comp_free(k.c);
		unpin(k);
	}
	while (!hs.empty()) {
		N *n = hs.back();
		drop(n);
		ec_node_free(n->real);
	}
	check_lifetime("teardown");
	CHECK(xtype::live == 0, "lifetime", "priv", "teardown: %d private areas of application-defined nodes were not released", xtype::live);
	CHECK(xtype::attr_live == 0, "lifetime", "comp-attrs", "teardown: %d values attached to completion results are still held", xtype::attr_live);
}
