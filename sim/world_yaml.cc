// World "yaml": grammar descriptions, valid and damaged in every way, imported
// from simulated files with failing opens, reads and allocations. The oracle
// loads the same text with the YAML library (no faults) and interprets the
// resulting document itself, then compares the imported node graph, its
// configuration and its behaviour with the reference model.
#include "gram.h"
#include "simio.h"
#include <yaml.h>
using namespace sim;
using namespace model;

namespace {
// ---------------------------------------------------------------- generic document
struct G { int k = 0; /*0 scalar 1 seq 2 map 3 alias*/ std::string s; std::vector<G> l; std::vector<std::pair<G, G>> m; int anchor = -1; int q = -1; };
G sc(const std::string &s) { G g; g.s = s; return g; }

struct Gen {
	Gram &g;
	int anchors = 0;
	std::vector<std::pair<int, bool>> known; // anchor number, complete
	uint32_t bad = 0; // /256 chance of a semantic damage per node
	bool cyc = false;
	explicit Gen(Gram &gr) : g(gr) {}
	bool dmg(uint32_t n) { return bad && S.draw(256) < bad && S.draw(n) == 0; }
	G num(bool sig)
	{
		static const char *ok[] = { "0", "1", "2", "5", "0x5", "07", "-1", "-3", "+4" };
		static const char *ko[] = { "", "z", "5x", "99999999999999999999", "-99999999999999999999", "0x", " 3", "1.5", "-" };
		static const char *edge[] = { "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967294", "4294967295", "4294967296", "0xffffffffffffffff", "2147483648", "0777" };
		static const char *pre[] = { "", "", "-", "-", " -", "+", " ", "--", "-+" };
		if (dmg(3)) return sc(ko[S.draw(9)]);
		if (S.draw(10) == 0) {
			std::string v = S.draw(2) ? edge[S.draw(10)] : fmt(S.draw(2) ? "0x%x" : S.draw(2) ? "0%o" : "%u", S.draw(200));
			return sc((sig || (bad && S.draw(2)) ? pre[S.draw(bad ? 9 : 6)] : "") + v);
		}
		return sc(ok[S.draw(sig ? 9 : 6)]);
	}
	G child(int d) { return node(d - 1); }
	G children(int d)
	{
		G l;
		l.k = 1;
		uint32_t n = S.draw(4);
		for (uint32_t i = 0; i < n; i++) l.l.push_back(node(d - 1));
		return l;
	}
	G node(int d)
	{
		if (dmg(8)) return S.draw(2) ? sc("str") : G{ 1, "", { sc("a") }, {}, -1, -1 };
		if (!known.empty() && S.draw(5) == 0) {
			auto &a = known[S.draw((uint32_t)known.size())];
			if (a.second || cyc) { G x; x.k = 3; x.anchor = a.first; return x; }
		}
		G n;
		n.k = 2;
		if (S.draw(3) == 0) {
			n.anchor = anchors++;
			known.push_back({ n.anchor, false });
		}
		static const char *leaf[] = { "str", "str", "int", "uint", "any", "re" };
		static const char *inner[] = { "seq", "or", "many", "option", "once", "bypass", "cond", "re_lex", "cmd", "str" };
		std::string t = d <= 0 ? leaf[S.draw(6)] : S.draw(4) ? inner[S.draw(10)] : leaf[S.draw(6)];
		if (dmg(4)) { static const char *o[] = { "no-such", "space", "subset", "sh_lex", "expr", "", "dynamic", "file" }; t = o[S.draw(8)]; }
		auto put = [&](const char *k, const G &v) { n.m.push_back({ sc(k), v }); };
		if (!dmg(4)) put("type", sc(t));
		if (dmg(8)) put("type", sc(t));
		if (dmg(8)) put("type", children(0));
		if (S.draw(2)) put("id", dmg(4) ? children(0) : sc(g.rnd_id()));
		if (dmg(8)) put("id", sc("x"));
		if (S.draw(3) == 0) put("help", dmg(4) ? children(0) : sc(g.rnd_text()));
		if (dmg(8)) put("help", sc("x"));
		if (S.draw(4) == 0) {
			G a;
			a.k = dmg(4) ? 1 : 2;
			uint32_t c = S.draw(3);
			for (uint32_t i = 0; i < c; i++) {
				static const char *ks[] = { "k1", "k2", "help" };
				G key = dmg(4) ? children(0) : sc(ks[S.draw(3)]), v = dmg(4) ? children(0) : sc(g.rnd_text());
				if (a.k == 2) a.m.push_back({ key, v });
				else a.l.push_back(v);
			}
			put("attrs", a);
			if (dmg(4)) put("attrs", a);
		}
		bool skip = dmg(4);
		if (t == "str") { if (!skip) put("string", dmg(4) ? children(0) : sc(g.rnd_text())); }
		else if (t == "int" || t == "uint") {
			if (S.draw(2)) put("min", num(t == "int"));
			if (S.draw(2)) put("max", num(t == "int"));
			if (S.draw(4) == 0) put("base", S.draw(4) ? sc("10") : num(false));
		} else if (t == "any") { if (S.draw(2)) put("attr", sc("attr1")); }
		else if (t == "re") { static const char *r[] = { "a", "[ab]+", "fo*", "[0-9]+", "a|b", "(x|y)1?", "(", "[" }; if (!skip) put("pattern", sc(r[S.draw(dmg(2) ? 8 : 6)])); }
		else if (t == "seq" || t == "or") { if (!skip) put("children", dmg(6) ? child(d) : children(d)); }
		else if (t == "many") {
			if (S.draw(2)) put("min", num(false));
			if (!skip) put("child", dmg(6) ? children(d) : child(d));
			if (S.draw(2)) put("max", num(false));
		} else if (t == "option" || t == "once" || t == "bypass") { if (!skip) put("child", dmg(6) ? children(d) : child(d)); }
		else if (t == "cond") { put("expr", sc(g.rnd_cond())); if (!skip) put("child", child(d)); }
		else if (t == "cmd") { put("expr", sc(g.rnd_cmd())); if (!skip) put("children", children(d)); }
		else if (t == "re_lex") {
			if (S.draw(4)) {
				G l;
				l.k = 1;
				uint32_t c = S.draw(4);
				for (uint32_t i = 0; i < c; i++) {
					G p;
					p.k = 2;
					static const char *r[] = { "[ ]+", "[a-z]+", "[0-9]+", "a|b", ".", "(" };
					if (!dmg(4)) p.m.push_back({ sc("pattern"), sc(r[S.draw(dmg(2) ? 6 : 5)]) });
					static const char *b[] = { "true", "false", "True", "FALSE", "yes", "1", "" };
					if (!dmg(4)) p.m.push_back({ sc("keep"), sc(b[S.draw(dmg(2) ? 7 : 4)]) });
					if (S.draw(3) == 0) p.m.push_back({ sc("attr"), sc("attr1") });
					if (S.draw(8) == 0) p.m.push_back({ sc("help"), sc("ignored") });
					if (dmg(4)) p.m.push_back({ sc("bogus"), sc("x") });
					l.l.push_back(p);
				}
				put("patterns", l);
			}
			if (!skip) put("child", child(d));
		}
		if (dmg(4)) {
			static const char *bk[] = { "bogus", "_x", "", "Type", "ids", "hel", "childs", "child", "children", "string", "_", "attr", "min", "expr", "_type" };
			const char *k = bk[S.draw(15)];
			put(k, !strcmp(k, "child") ? child(0) : !strcmp(k, "children") ? children(0) : sc("x"));
		}
		if (dmg(4) && !n.m.empty()) n.m.push_back(n.m[S.draw((uint32_t)n.m.size())]);
		if (dmg(6)) n.m.push_back({ children(0), sc("x") });
		if (S.draw(4) == 0 && n.m.size() > 1) std::rotate(n.m.begin(), n.m.begin() + 1, n.m.end());
		for (auto &k : known) if (k.first == n.anchor) k.second = true;
		return n;
	}
};

std::string emit_scalar(const std::string &s, bool key)
{
	bool plain = !s.empty();
	for (char c : s) if (!isalnum((unsigned char)c) && c != '_') plain = false;
	uint32_t k = S.draw(key ? 8 : 4);
	if (plain && (key ? k != 0 : k < 2)) return s;
	std::string o;
	if (S.draw(2)) {
		o = "'";
		for (char c : s) { if (c == '\'') o += '\''; o += c; }
		return o + "'";
	}
	o = "\"";
	for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\t') { o += "\\t"; continue; } o += c; }
	return o + "\"";
}
void emit(std::string &o, const G &g, int ind, bool flow);
void emit_inline(std::string &o, const G &g, bool key)
{
	if (g.k == 3) { o += fmt("*a%d", g.anchor); if (key) o += " "; return; }
	if (g.anchor >= 0) o += fmt("&a%d ", g.anchor);
	if (g.k == 0) { o += emit_scalar(g.s, key); return; }
	bool first = true;
	o += g.k == 1 ? "[" : "{";
	if (g.k == 1) for (auto &x : g.l) { if (!first) o += ", "; first = false; emit_inline(o, x, false); }
	else for (auto &x : g.m) {
		if (!first) o += ", ";
		first = false;
		if (x.first.k != 0) o += "? ";
		emit_inline(o, x.first, true);
		o += " : ";
		emit_inline(o, x.second, false);
	}
	o += g.k == 1 ? " ]" : " }";
}
// writes the value of a key or item, after "key:" or "-"
void emit(std::string &o, const G &g, int ind, bool flow)
{
	bool empty = (g.k == 1 && g.l.empty()) || (g.k == 2 && g.m.empty());
	if (g.k == 0 || g.k == 3 || flow || empty || S.draw(6) == 0) {
		o += " ";
		emit_inline(o, g, false);
		if (S.draw(30) == 0) o += " # comment";
		o += "\n";
		return;
	}
	if (g.anchor >= 0) o += fmt(" &a%d", g.anchor);
	o += "\n";
	std::string pad((size_t)ind, ' ');
	if (g.k == 1)
		for (auto &x : g.l) { o += pad + "-"; emit(o, x, ind + 2, false); }
	else
		for (auto &x : g.m) {
			o += pad;
			if (x.first.k != 0) { o += "? "; emit_inline(o, x.first, true); o += "\n" + pad; }
			else o += emit_scalar(x.first.s, true);
			o += ":";
			emit(o, x.second, ind + 2, false);
		}
}

// ---------------------------------------------------------------- interpretation
struct Bad {};
struct Doc {
	yaml_document_t d;
	bool ok = false;
	~Doc() { if (ok) { NoFault nf; yaml_document_delete(&d); } }
	bool load(const std::string &text)
	{
		NoFault nf;
		yaml_parser_t p;
		if (!yaml_parser_initialize(&p)) abort();
		yaml_parser_set_input_string(&p, (const unsigned char *)text.data(), text.size());
		ok = yaml_parser_load(&p, &d);
		yaml_parser_delete(&p);
		return ok && yaml_document_get_root_node(&d);
	}
	void unload() { if (ok) { NoFault nf; yaml_document_delete(&d); ok = false; } }
	const yaml_node_t *at(int i) { return yaml_document_get_node(&d, i); }
};

struct Interp {
	Gram &g;
	Doc &doc;
	std::map<int, N *> memo;
	std::map<N *, CV> confs;
	std::map<N *, std::map<std::string, std::string>> attrs;
	std::vector<N *> order;
	Interp(Gram &gr, Doc &d) : g(gr), doc(d) {}

	std::string scalar(int i)
	{
		const yaml_node_t *n = doc.at(i);
		if (n->type != YAML_SCALAR_NODE) throw Bad();
		return (const char *)n->data.scalar.value;
	}
	struct Field { const char *key; int type; };
	static const std::vector<Field> *schema(T t)
	{
		typedef std::vector<Field> V;
		static const V str = { { "string", EC_CONFIG_TYPE_STRING } };
		static const V in = { { "min", EC_CONFIG_TYPE_INT64 }, { "max", EC_CONFIG_TYPE_INT64 }, { "base", EC_CONFIG_TYPE_UINT64 } };
		static const V uin = { { "min", EC_CONFIG_TYPE_UINT64 }, { "max", EC_CONFIG_TYPE_UINT64 }, { "base", EC_CONFIG_TYPE_UINT64 } };
		static const V any = { { "attr", EC_CONFIG_TYPE_STRING } };
		static const V re = { { "pattern", EC_CONFIG_TYPE_STRING } };
		static const V list = { { "children", 100 } };
		static const V one = { { "child", EC_CONFIG_TYPE_NODE } };
		static const V many = { { "child", EC_CONFIG_TYPE_NODE }, { "min", EC_CONFIG_TYPE_UINT64 }, { "max", EC_CONFIG_TYPE_UINT64 } };
		static const V cond = { { "expr", EC_CONFIG_TYPE_STRING }, { "child", EC_CONFIG_TYPE_NODE } };
		static const V cmd = { { "expr", EC_CONFIG_TYPE_STRING }, { "children", 100 } };
		static const V rel = { { "patterns", 101 }, { "child", EC_CONFIG_TYPE_NODE } };
		switch (t) {
		case STR: return &str; case INT: return &in; case UINT: return &uin; case ANY: return &any; case RE: return &re;
		case SEQ: case OR: return &list; case OPTION: case ONCE: case BYPASS: return &one; case MANY: return &many;
		case COND: return &cond; case CMD: return &cmd; case RE_LEX: return &rel;
		default: return nullptr;
		}
	}
	static bool reserved(const std::string &k) { return k == "id" || k == "attrs" || k == "help" || k == "type"; }
	CV dict(const std::vector<Field> &sch, int i)
	{
		static const std::vector<Field> pat = { { "pattern", EC_CONFIG_TYPE_STRING }, { "keep", EC_CONFIG_TYPE_BOOL }, { "attr", EC_CONFIG_TYPE_STRING } };
		const yaml_node_t *n = doc.at(i);
		if (n->type != YAML_MAPPING_NODE) throw Bad();
		CV c;
		c.t = EC_CONFIG_TYPE_DICT;
		for (auto p = n->data.mapping.pairs.start; p < n->data.mapping.pairs.top; p++) {
			std::string k = scalar(p->key);
			if (reserved(k)) continue;
			const Field *f = nullptr;
			for (auto &x : sch) if (k == x.key) f = &x;
			if (!f) throw Bad();
			c.d[k] = value(f->type, p->value, pat);
		}
		return c;
	}
	CV value(int type, int i, const std::vector<Field> &pat)
	{
		CV c;
		c.t = type;
		char *end;
		switch (type) {
		case EC_CONFIG_TYPE_STRING: c.s = scalar(i); break;
		case EC_CONFIG_TYPE_BOOL: {
			std::string s = scalar(i);
			if (!strcasecmp(s.c_str(), "true")) c.i = 1;
			else if (!strcasecmp(s.c_str(), "false")) c.i = 0;
			else throw Bad();
			break;
		}
		case EC_CONFIG_TYPE_INT64: case EC_CONFIG_TYPE_UINT64: {
			std::string s = scalar(i);
			if (s.empty() || (type == EC_CONFIG_TYPE_UINT64 && s.find('-') != std::string::npos)) throw Bad();
			errno = 0;
			c.i = type == EC_CONFIG_TYPE_INT64 ? (int64_t)strtoll(s.c_str(), &end, 0) : (int64_t)strtoull(s.c_str(), &end, 0);
			if (errno || *end || end == s.c_str()) throw Bad();
			break;
		}
		case EC_CONFIG_TYPE_NODE: c.n = node(i); break;
		default: {
			const yaml_node_t *n = doc.at(i);
			if (n->type != YAML_SEQUENCE_NODE) throw Bad();
			c.t = EC_CONFIG_TYPE_LIST;
			for (auto p = n->data.sequence.items.start; p < n->data.sequence.items.top; p++)
				c.l.push_back(type == 100 ? value(EC_CONFIG_TYPE_NODE, *p, pat) : dict(pat, *p));
		}
		}
		return c;
	}
	N *node(int i)
	{
		const yaml_node_t *y = doc.at(i);
		if (y->type != YAML_MAPPING_NODE) throw Bad();
		if (memo.count(i)) return memo[i];
		int ntype = 0, nid = 0, nhelp = 0, nattrs = 0;
		std::string type, id, help;
		int at = 0;
		for (auto p = y->data.mapping.pairs.start; p < y->data.mapping.pairs.top; p++) {
			std::string k = scalar(p->key);
			if (k == "type") { ntype++; type = scalar(p->value); }
			else if (k == "id") { nid++; id = scalar(p->value); }
			else if (k == "help") { nhelp++; help = scalar(p->value); }
			else if (k == "attrs") { nattrs++; at = p->value; if (doc.at(at)->type != YAML_MAPPING_NODE) throw Bad(); }
		}
		if (ntype != 1 || nid > 1 || nhelp > 1 || nattrs > 1) throw Bad();
		int t = -1;
		for (int k = 0; k < T_N; k++) if (type == type_name[k]) t = k;
		const std::vector<Field> *sch = t < 0 ? nullptr : schema((T)t);
		if (!sch) throw Bad();
		g.pool.emplace_back(new N());
		N *n = g.pool.back().get();
		n->t = (T)t;
		n->id = id;
		memo[i] = n;
		order.push_back(n);
		CV c = dict(*sch, i);
		auto has = [&](const char *k) { return c.d.count(k) > 0; };
		std::vector<N *> chs;
		if (has("children")) for (auto &x : c.d["children"].l) chs.push_back(x.n);
		if (has("child")) chs.push_back(c.d["child"].n);
		N *inner = nullptr;
		bool valid = true;
		switch (n->t) {
		case STR: valid = has("string"); break;
		case INT: valid = !(has("min") && has("max") && c.d["min"].i > c.d["max"].i); break;
		case UINT: valid = !(has("min") && has("max") && (uint64_t)c.d["min"].i > (uint64_t)c.d["max"].i); break;
		case RE: valid = has("pattern") && regex_valid(c.d["pattern"].s); break;
		case SEQ: case OR: valid = has("children"); break;
		case OPTION: case ONCE: case BYPASS: valid = has("child"); break;
		case MANY:
			valid = has("child") && !(has("min") && (uint64_t)c.d["min"].i >= UINT_MAX) && !(has("max") && (uint64_t)c.d["max"].i >= UINT_MAX);
			break;
		case COND: valid = has("expr") && has("child") && cond_valid(c.d["expr"].s); break;
		case RE_LEX:
			valid = has("child");
			if (has("patterns")) for (auto &x : c.d["patterns"].l) if (!x.d.count("pattern") || !x.d.count("keep") || !regex_valid(x.d["pattern"].s)) valid = false;
			break;
		case CMD:
			valid = has("expr") && has("children");
			if (valid) { inner = build_cmd(g.pool, c.d["expr"].s, chs); valid = inner; }
			break;
		default: break;
		}
		if (!valid) throw Bad();
		g.apply_conf(n, c, chs, inner);
		confs[n] = c;
		if (nhelp) attrs[n]["help"] = help;
		if (nattrs) {
			const yaml_node_t *a = doc.at(at);
			for (auto p = a->data.mapping.pairs.start; p < a->data.mapping.pairs.top; p++) attrs[n][scalar(p->key)] = scalar(p->value);
		}
		return n;
	}

	// ---- comparison with the imported graph
	std::map<const struct ec_node *, N *> rev;
	void bind(N *n, struct ec_node *r)
	{
		if (n->real || rev.count(r)) {
			CHECK(n->real == r && rev.count(r) && rev[r] == n, "result", "sharing", "a part referenced twice in the description is not shared in the imported grammar (or conversely)");
			return;
		}
		n->real = r;
		rev[r] = n;
		CHECK(!strcmp(ec_node_type_name(ec_node_type(r)), type_name[n->t]), "result", "type", "imported node has type %s, described as %s", ec_node_type_name(ec_node_type(r)), type_name[n->t]);
		CHECK(n->id == ec_node_id(r), "result", "id", "imported node has id %s, described as %s", ec_node_id(r), n->id.c_str());
		auto &want = attrs[n];
		CHECK(ec_dict_len(ec_node_attrs(r)) == want.size(), "result", "attrs", "imported node has %zu attributes, expected %zu", ec_dict_len(ec_node_attrs(r)), want.size());
		for (auto &a : want) {
			const char *v = (const char *)ec_dict_get(ec_node_attrs(r), a.first.c_str());
			CHECK(v && a.second == v, "result", "attrs", "attribute %s of an imported node is %s, expected %s", a.first.c_str(), v ? v : "absent", a.second.c_str());
		}
		cmp(confs[n], ec_node_get_config(r), type_name[n->t]);
	}
	void cmp(CV &c, const struct ec_config *r, const char *what)
	{
		CHECK(r && (int)ec_config_get_type(r) == c.t, "result", "config", "%s: imported configuration has another type than described", what);
		switch (c.t) {
		case EC_CONFIG_TYPE_STRING: CHECK(c.s == r->string, "result", "config", "%s: imported string %s, described %s", what, quote(r->string).c_str(), quote(c.s).c_str()); break;
		case EC_CONFIG_TYPE_BOOL: CHECK((c.i != 0) == r->boolean, "result", "config", "%s: imported boolean differs", what); break;
		case EC_CONFIG_TYPE_INT64: CHECK(c.i == r->i64, "result", "config", "%s: imported integer %lld, described %lld", what, (long long)r->i64, (long long)c.i); break;
		case EC_CONFIG_TYPE_UINT64: CHECK((uint64_t)c.i == r->u64, "result", "config", "%s: imported integer %llu, described %llu", what, (unsigned long long)r->u64, (unsigned long long)c.i); break;
		case EC_CONFIG_TYPE_NODE: bind(c.n, r->node); break;
		case EC_CONFIG_TYPE_LIST: {
			struct ec_config *x = ec_config_list_first((struct ec_config *)r);
			for (auto &e : c.l) {
				CHECK(x, "result", "config", "%s: element missing in an imported list", what);
				cmp(e, x, what);
				x = ec_config_list_next((struct ec_config *)r, x);
			}
			CHECK(!x, "result", "config", "%s: extra element in an imported list", what);
			break;
		}
		default: {
			CHECK(ec_dict_len(r->dict) == c.d.size(), "result", "config", "%s: imported configuration has %zu keys, expected %zu", what, ec_dict_len(r->dict), c.d.size());
			for (auto &e : c.d) cmp(e.second, ec_config_dict_get(r, e.first.c_str()), what);
		}
		}
	}
};

struct YamlWorld : World {
	Gram g;
	bool damage = false, mutate = false, cyc = false;
	void setup() override
	{
		simio::reset();
		simfs::reset();
		g.allow_file = g.allow_dyn = g.allow_expr = g.allow_lex = false;
		g.allow_null = false;
		damage = S.draw(2);
		mutate = S.draw(3) == 0;
		cyc = S.draw(3) == 0;
		g.allow_invalid = damage;
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_LIBC | 1u << K_REGEX | 1u << K_IO, 4, 30);
	}
	// the document stays well formed, some part of it is of another kind
	static void collect(G &g, std::vector<G *> &o)
	{
		o.push_back(&g);
		for (auto &x : g.l) collect(x, o);
		for (auto &x : g.m) { collect(x.first, o); collect(x.second, o); }
	}
	void hurt(G &root)
	{
		std::vector<G *> o;
		collect(root, o);
		G *v = o[S.draw((uint32_t)o.size())];
		if (v->anchor >= 0 && v->k != 3) return; // aliases may refer to it
		std::vector<G *> in;
		collect(*v, in);
		for (auto x : in) if (x->k != 3 && x->anchor >= 0) return;
		G n;
		switch (S.draw(6)) {
		case 0: n = sc("x"); break;
		case 1: n = sc(""); break;
		case 2: n.k = 1; break;
		case 3: n.k = 2; break;
		case 4: n.k = 1; n.l.push_back(*v); break;
		case 5: n.k = 2; n.m.push_back({ sc("child"), *v }); break;
		}
		*v = n;
	}
	std::string text()
	{
		Gen gen(g);
		gen.cyc = cyc;
		static const uint32_t lv[] = { 0, 6, 30 };
		gen.bad = damage ? lv[S.draw(3)] : 0;
		G root = gen.node(1 + (int)S.draw(3));
		if (damage && S.draw(3) == 0) hurt(root);
		std::string o;
		if (S.draw(4) == 0) o += "---\n";
		if (S.draw(8) == 0) o += "# a comment\n";
		if (S.draw(3) == 0 || root.k != 2) { emit_inline(o, root, false); o += "\n"; }
		else {
			std::string b;
			emit(b, root, 0, false);
			if (root.anchor >= 0 && b[0] == ' ' && b.find('\n') != std::string::npos && b[1] == '&') o += (o.empty() ? "--- " : "") + b;
			else o += b[0] == '\n' ? b.substr(1) : b;
		}
		if (mutate && S.draw(2)) {
			uint32_t k = 1 + S.draw(2);
			while (k-- && !o.empty()) {
				static const char cs[] = "{}[]:,&*#'\"\n -?|>%!@`~\t\\\x80""a0";
				uint32_t m = S.draw(5), pos = S.draw((uint32_t)o.size());
				if (m == 0) o.resize(pos);
				else if (m == 1) o.erase(pos, 1 + S.draw(8));
				else if (m == 2) o.insert(pos, 1, cs[S.draw(sizeof(cs) - 1)]);
				else if (m == 3) o[pos] = cs[S.draw(sizeof(cs) - 1)];
				else o.insert(pos, o.substr(S.draw((uint32_t)o.size()), 1 + S.draw(20)));
			}
		}
		return o;
	}
	void op_import()
	{
		S.opname = "import";
		std::string t = text();
		bool missing = S.draw(25) == 0;
		simio::put("/sim/grammar.yaml", t);
		Doc doc;
		Interp in(g, doc);
		N *want = nullptr;
		size_t y0 = simio::yaml_live();
		if (!missing && doc.load(t)) {
			NoFault nf;
			try { want = in.node(1); } catch (Bad &) { want = nullptr; }
		}
		doc.unload();
		size_t before = alloc_live(), y1 = simio::yaml_live(), yf = simio::yaml_faults();
		errno = 0;
		struct ec_node *r = ec_yaml_import(missing ? "/sim/none" : "/sim/grammar.yaml");
		S.ev("import %s -> %d (%s)", quote(t).c_str(), r != nullptr, want ? "valid" : "invalid");
		CHECK(simio::open_streams() == 0, "resource", "stream", "the description file was left open");
		// the YAML library itself leaks on some malformed documents: compare with what it did for the oracle
		if (simio::yaml_faults() == yf)
			CHECK(simio::yaml_live() - y1 <= y1 - y0, "leak", "document", "importing left %zu blocks of the YAML document or parser allocated", simio::yaml_live() - y1);
		if (!r) {
			CHECK(S.faulted() || !want, "spurious", "import", "importing a valid description failed without any fault: %s", quote(t).c_str());
			CHECK(alloc_live() == before, "atomicity", "left-behind", "a failed import left something allocated:%s", alloc_live_desc().c_str());
			stats.failed_ops++;
			for (auto n : in.order) n->dead = true;
			return;
		}
		CHECK(want, "result", "accepted", "an invalid description was imported: %s", quote(t).c_str());
		if (S.faulted()) stats.ok_under_fault++;
		stats.probes["imported"]++;
		NoFault nf;
		in.bind(want, r);
		for (auto n : in.order) {
			if (n->real) { n->ext = 0; g.track(n); }
			else n->dead = true; // described but not part of the grammar (overridden key)
		}
		want->ext = 1;
		g.hs.push_back(want);
		g.check_lifetime("import");
		for (int i = 0; i < 2; i++) { g.probe_node(want); }
		S.op_repeatable = true;
	}
	void op_take()
	{
		N *n = g.pick();
		if (!n) return;
		S.opname = "take";
		std::vector<N *> o;
		g.succ(n, o);
		if (o.empty()) return;
		N *c = o[S.draw((uint32_t)o.size())];
		ec_node_clone(c->real);
		if (c->ext++ == 0) g.hs.push_back(c);
		S.ev("take a handle on %s", node_name(c).c_str());
	}
	void step() override
	{
		uint32_t k = S.draw(20);
		if (g.hs.empty()) k = 0;
		if (g.hs.size() > 10 && k < 8) k = 14;
		if (k < 8) op_import();
		else if (k < 11) g.op_parse(g.pick());
		else if (k < 13) g.op_complete(g.pick());
		else if (k < 16) g.op_handle();
		else if (k < 18) op_take();
		else if (k < 19) g.op_set_config(g.pick());
		else g.op_drop_kept();
	}
	void teardown() override { g.finish(); }
};
World *mk_yaml(const std::string &) { return new YamlWorld(); }
REGISTER_WORLD("yaml", mk_yaml, "an application importing grammar descriptions from files");
} // namespace
