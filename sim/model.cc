#include "model.h"
#include <ctype.h>

extern "C" int __real_regcomp(regex_t *, const char *, int);
extern "C" void __real_regfree(regex_t *);

namespace model {

const char *type_name[T_N] = { "str", "int", "uint", "any", "empty", "none", "space", "re", "file", "seq", "or", "many",
	"option", "once", "subset", "bypass", "dynamic", "cond", "sh_lex", "re_lex", "cmd", "expr", "xleaf", "xpair" };
int (*list_dir)(const std::string &, bool *, std::vector<FileEntry> *);

PT *Ctx::newpt(const N *n) { pts.emplace_back(new PT()); pts.back()->n = n; return pts.back().get(); }
N *Ctx::newn(T t, const std::string &id) { ns.emplace_back(new N()); ns.back()->t = t; ns.back()->id = id; return ns.back().get(); }
void Ctx::tick() { if (++steps > max_steps) throw Limit(); }

Toks toks(const std::vector<std::string> &v)
{
	Toks t;
	for (auto &s : v) t.push_back({ s, {} });
	return t;
}

static void link(PT *p, PT *c) { p->ch.push_back(c); c->parent = p; }
static void unlink(PT *c)
{
	if (!c->parent) return;
	auto &v = c->parent->ch;
	v.erase(std::find(v.begin(), v.end(), c));
	c->parent = nullptr;
}
static void del_last(PT *p) { if (!p->ch.empty()) unlink(p->ch.back()); }
static void free_children(PT *p) { while (!p->ch.empty()) unlink(p->ch.back()); }
static PT *root_of(PT *p) { while (p->parent) p = p->parent; return p; }
static const PT *root_of(const PT *p) { while (p->parent) p = p->parent; return p; }
static Toks sub(const Toks &v, size_t off, size_t len) { return Toks(v.begin() + off, v.begin() + off + len); }

// ------------------------------------------------------------ regex (libc is the oracle)
struct Rx { regex_t r; bool ok; };
static Rx &rx(const std::string &re)
{
	static std::map<std::string, Rx> cache;
	auto it = cache.find(re);
	if (it == cache.end()) {
		Rx x;
		x.ok = __real_regcomp(&x.r, re.c_str(), REG_EXTENDED) == 0;
		it = cache.emplace(re, x).first;
	}
	return it->second;
}
bool regex_valid(const std::string &re) { return rx(re).ok; }
bool regex_full(const std::string &re, const std::string &s, bool *bad)
{
	Rx &x = rx(re);
	*bad = !x.ok;
	if (!x.ok) return false;
	regmatch_t m;
	if (regexec(&x.r, s.c_str(), 1, &m, 0)) return false;
	return m.rm_so == 0 && m.rm_eo == (int)s.size();
}
bool regex_prefix(const std::string &re, const std::string &s, size_t *len)
{
	Rx &x = rx(re);
	regmatch_t m;
	if (!x.ok || regexec(&x.r, s.c_str(), 1, &m, 0)) return false;
	if (m.rm_so != 0 || m.rm_eo == 0) return false;
	*len = m.rm_eo;
	return true;
}

// ------------------------------------------------------------ shell lexer
int sh_lex(const std::string &s, bool strict, bool trailsp, std::vector<std::string> *out, char *missing)
{
	// word := sequence of plain chars, \c, "..." (with \c), '...'
	// a # at the beginning of a word starts a comment up to the end of line
	out->clear();
	std::string w;
	bool trail = true;
	char quote = 0; // the quote that is open
	size_t i = 0, n = s.size();
	enum { BETWEEN, WORD, ESC, DQ, DQESC, SQ, COMMENT } st = BETWEEN;
	for (; i < n; i++) {
		char c = s[i];
		bool sp = c != '\'' && c != '"' && c != '\\' && c != '#' && isspace((unsigned char)c);
		switch (st) {
		case BETWEEN:
			trail = sp;
			if (sp) break;
			if (c == '#') st = COMMENT;
			else if (c == '"') { st = DQ; quote = c; }
			else if (c == '\'') { st = SQ; quote = c; }
			else if (c == '\\') st = ESC;
			else { st = WORD; w += c; }
			break;
		case WORD:
			if (sp) { out->push_back(w); w.clear(); st = BETWEEN; trail = true; }
			else if (c == '"') { st = DQ; quote = c; }
			else if (c == '\'') { st = SQ; quote = c; }
			else if (c == '\\') st = ESC;
			else w += c;
			break;
		case ESC: w += c; st = WORD; break;
		case DQESC: w += c; st = DQ; break;
		case DQ: if (c == '"') { st = WORD; quote = 0; } else if (c == '\\') st = DQESC; else w += c; break;
		case SQ: if (c == '\'') { st = WORD; quote = 0; } else w += c; break;
		case COMMENT: if (c == '\n' || c == '\r') st = BETWEEN; break;
		}
	}
	bool inword = st == WORD;
	if (st == ESC || st == DQ || st == DQESC || st == SQ) {
		if (missing) *missing = quote;
		if (strict) return -1;
		inword = true;
	}
	if (inword) out->push_back(w);
	else if (trail && trailsp) out->push_back("");
	return 0;
}

// ------------------------------------------------------------ conditions
struct CVal { enum { NS, BOOL, INT, STR } t; std::vector<const PT *> ns; bool b = false; int64_t i = 0; std::string s; };
struct CTok { int k; std::string s; }; // 0 ident 1 int 2 ( 3 ) 4 ,
static bool clex(const std::string &s, std::vector<CTok> *out)
{
	size_t i = 0;
	while (i < s.size()) {
		char c = s[i];
		size_t j = i;
		if (c == '_' || isalpha((unsigned char)c)) {
			while (j < s.size() && (s[j] == '_' || s[j] == '.' || isalnum((unsigned char)s[j]))) j++;
			out->push_back({ 0, s.substr(i, j - i) });
		} else if (isdigit((unsigned char)c)) {
			while (j < s.size() && isdigit((unsigned char)s[j])) j++;
			out->push_back({ 1, s.substr(i, j - i) });
		} else if (c == '(') { out->push_back({ 2, "(" }); j++; }
		else if (c == ')') { out->push_back({ 3, ")" }); j++; }
		else if (c == ',') { out->push_back({ 4, "," }); j++; }
		else if (c == ' ' || c == '\t') j++;
		else return false;
		i = j;
	}
	return true;
}
struct CAst { int k; std::string s; bool func = false; std::vector<CAst> args; };
static bool cparse(const std::vector<CTok> &t, size_t &p, CAst *a)
{
	if (p >= t.size()) return false;
	if (t[p].k == 0) {
		size_t q = p + 1;
		if (q < t.size() && t[q].k == 2) { // function
			CAst f;
			f.k = 0; f.s = t[p].s; f.func = true;
			q++;
			CAst x;
			size_t r = q;
			bool ok = true;
			if (cparse(t, r, &x)) {
				f.args.push_back(x);
				q = r;
				while (q < t.size() && t[q].k == 4) {
					CAst y;
					r = q + 1;
					if (!cparse(t, r, &y)) break;
					f.args.push_back(y);
					q = r;
				}
			}
			if (ok && q < t.size() && t[q].k == 3) { *a = f; p = q + 1; return true; }
		}
		a->k = 0; a->s = t[p].s; a->func = false; a->args.clear();
		p++;
		return true;
	}
	if (t[p].k == 1) { a->k = 1; a->s = t[p].s; a->func = false; a->args.clear(); p++; return true; }
	return false;
}
static bool cparse_all(const std::string &s, CAst *a)
{
	std::vector<CTok> t;
	if (!clex(s, &t)) return false;
	size_t p = 0;
	return cparse(t, p, a) && p == t.size();
}
bool cond_valid(const std::string &s) { CAst a; return cparse_all(s, &a); }

static bool truth(const CVal &v)
{
	switch (v.t) {
	case CVal::NS: return !v.ns.empty();
	case CVal::BOOL: return v.b;
	case CVal::INT: return v.i != 0;
	default: return !v.s.empty();
	}
}
static void find_all(const PT *t, const std::string &id, std::vector<const PT *> *o)
{
	if (t->n && t->n->id == id) o->push_back(t);
	for (auto c : t->ch) find_all(c, id, o);
}
static void add_ns(std::vector<const PT *> &v, const PT *p) { if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p); }
static bool ceval(const CAst &a, const PT *st, CVal *o)
{
	if (!a.func) {
		if (a.k == 0) { o->t = CVal::STR; o->s = a.s; return true; }
		o->t = CVal::INT;
		errno = 0;
		char *e;
		o->i = strtoll(a.s.c_str(), &e, 0);
		return errno == 0 && *e == 0;
	}
	std::vector<CVal> in;
	for (auto &x : a.args) {
		CVal v;
		if (!ceval(x, st, &v)) return false;
		in.push_back(v);
	}
	const std::string &f = a.s;
	if (f == "root") { if (!in.empty()) return false; o->t = CVal::NS; o->ns = { root_of(st) }; return true; }
	if (f == "current") { if (!in.empty()) return false; o->t = CVal::NS; o->ns = { st }; return true; }
	if (f == "bool") { if (in.size() != 1) return false; o->t = CVal::BOOL; o->b = truth(in[0]); return true; }
	if (f == "or") { if (in.size() < 2) return false; for (auto &v : in) if (truth(v)) { *o = v; return true; } *o = in.back(); return true; }
	if (f == "and") { if (in.size() < 2) return false; for (auto &v : in) if (!truth(v)) { *o = v; return true; } *o = in.back(); return true; }
	if (f == "first_child") {
		if (in.size() != 1 || in[0].t != CVal::NS) return false;
		o->t = CVal::NS;
		for (auto p : in[0].ns) if (!p->ch.empty()) add_ns(o->ns, p->ch[0]);
		return true;
	}
	if (f == "find") {
		if (in.size() != 2 || in[0].t != CVal::NS || in[1].t != CVal::STR) return false;
		o->t = CVal::NS;
		for (auto p : in[0].ns) {
			std::vector<const PT *> r;
			find_all(p, in[1].s, &r);
			for (auto q : r) add_ns(o->ns, q);
		}
		return true;
	}
	if (f == "count") { if (in.size() != 1 || in[0].t != CVal::NS) return false; o->t = CVal::INT; o->i = in[0].ns.size(); return true; }
	if (f == "cmp") {
		if (in.size() != 3 || in[0].t != CVal::STR || in[1].t != in[2].t) return false;
		std::string op = in[0].s;
		if (op != "eq" && op != "ne" && op != "gt" && op != "lt" && op != "ge" && op != "le") return false;
		if (op != "eq" && op != "ne" && in[1].t != CVal::INT) return false;
		bool eq = false;
		switch (in[1].t) {
		case CVal::INT: eq = in[1].i == in[2].i; break;
		case CVal::BOOL: eq = in[1].b == in[2].b; break;
		case CVal::STR: eq = in[1].s == in[2].s; break;
		case CVal::NS: {
			std::set<const PT *> x(in[1].ns.begin(), in[1].ns.end()), y(in[2].ns.begin(), in[2].ns.end());
			eq = x == y;
			break;
		}
		}
		bool gt = in[1].t == CVal::INT && in[1].i > in[2].i;
		o->t = CVal::BOOL;
		o->b = op == "eq" ? eq : op == "ne" ? !eq : op == "lt" ? (!gt && !eq) : op == "gt" ? gt : op == "le" ? !gt : (gt || eq);
		return true;
	}
	return false;
}
int eval_cond(const std::string &c, const PT *st)
{
	CAst a;
	if (!cparse_all(c, &a)) return ERR;
	CVal v;
	if (!ceval(a, st, &v)) return ERR;
	return truth(v);
}

// ------------------------------------------------------------ parse
static int count_node(const PT *t, const N *n)
{
	int c = t->n == n;
	for (auto x : t->ch) c += count_node(x, n);
	return c;
}
static int count_id(const PT *t, const std::string &id)
{
	int c = t->n && t->n->id == id;
	for (auto x : t->ch) c += count_id(x, id);
	return c;
}

// value of a text in a base, by the rules of the C library: optional blanks
// and sign, optional 0x or 0 prefix, digits of the base, nothing else
bool int_value(const N *n, const std::string &s, uint64_t *val)
{
	size_t i = 0;
	while (i < s.size() && isspace((unsigned char)s[i])) i++;
	bool neg = false;
	if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	unsigned base = n->base;
	if (base == 1 || base > 36) return false;
	auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
	bool hex = i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && dig(s[i + 2]) < 16;
	// recent C libraries also accept a binary prefix
	static const bool has_bin = [] { char *e; return strtoll("0b1", &e, 0) == 1 && !*e; }();
	bool bin = has_bin && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'b' || s[i + 1] == 'B') && dig(s[i + 2]) < 2;
	if (hex && (base == 0 || base == 16)) { base = 16; i += 2; }
	else if (bin && (base == 0 || base == 2)) { base = 2; i += 2; }
	else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
	size_t first = i;
	unsigned __int128 v = 0;
	for (; i < s.size() && (unsigned)dig(s[i]) < base; i++) {
		v = v * base + (unsigned)dig(s[i]);
		if (v >> 70) v = (unsigned __int128)1 << 70;
	}
	if (i == first || i != s.size()) return false;
	if (n->t == INT) {
		__int128 w = neg ? -(__int128)v : (__int128)v;
		if (w < INT64_MIN || w > INT64_MAX) return false;
		if (n->has_min && w < n->min) return false;
		if (n->has_max && w > n->max) return false;
		*val = (uint64_t)(int64_t)w;
	} else {
		if (s.find('-') != std::string::npos) return false;
		if (v > UINT64_MAX) return false;
		if (n->has_min && v < (uint64_t)n->min) return false;
		if (n->has_max && v > (uint64_t)n->max) return false;
		*val = (uint64_t)v;
	}
	return true;
}
static bool parse_int(const N *n, const std::string &s) { uint64_t v; return int_value(n, s, &v); }

static N *dyn_child(Ctx &c, const N *n, PT *st)
{
	// mirrors the application callback used by the simulated workloads
	N *k = c.newn(STR, "dynleaf");
	k->conf = true;
	if (n->dynmode == 0) k->text = "a";
	else k->text = sim::fmt("n%d", count_id(root_of(st), "dynleaf"));
	if (n->dynmode == 2) {
		N *o = c.newn(OPTION, "dynopt");
		o->conf = true;
		o->ch.push_back(k);
		return o;
	}
	return k;
}

static bool tokenize(const N *n, const std::string &s, Toks *out)
{
	size_t off = 0;
	while (off < s.size()) {
		bool found = false;
		for (auto &p : n->pats) {
			size_t len;
			if (!regex_prefix(p.re, s.substr(off), &len)) continue;
			if (p.keep) {
				Tok t;
				t.s = s.substr(off, len);
				if (p.has_attr) t.attrs.insert(p.attr);
				out->push_back(t);
			}
			off += len;
			found = true;
			break;
		}
		if (!found) return false;
	}
	return true;
}

struct Best { size_t nodes = 0, len = 0; std::vector<PT *> pts; };
static int subset_parse(Ctx &c, Best *out, const std::vector<N *> &table, PT *st, const Toks &v)
{
	Best best;
	for (size_t i = 0; i < table.size(); i++) {
		c.tick();
		int r = parse_child(c, table[i], st, v);
		if (r == ERR) return ERR;
		if (r == NOMATCH) continue;
		PT *me = st->ch.back();
		std::vector<N *> rest;
		for (size_t j = 0; j < table.size(); j++) if (j != i) rest.push_back(table[j]);
		Best b;
		int q = subset_parse(c, &b, rest, st, sub(v, r, v.size() - r));
		if (q == ERR) return ERR;
		for (auto p : b.pts) unlink(p);
		unlink(me);
		if (best.pts.empty() || b.nodes + 1 > best.nodes) {
			best.nodes = b.nodes + 1;
			best.len = r + b.len;
			best.pts.clear();
			best.pts.push_back(me);
			for (auto p : b.pts) best.pts.push_back(p);
		}
	}
	for (auto p : best.pts) link(st, p);
	*out = best;
	return 0;
}

static int parse(Ctx &c, const N *n, PT *st, const Toks &v)
{
	switch (n->t) {
	case STR:
		if (!n->conf) return ERR;
		return !v.empty() && v[0].s == n->text ? 1 : NOMATCH;
	case INT: case UINT:
		return !v.empty() && parse_int(n, v[0].s) ? 1 : NOMATCH;
	case ANY:
		if (v.empty()) return NOMATCH;
		if (n->has_attr && !v[0].attrs.count(n->text)) return NOMATCH;
		return 1;
	case EMPTY: return 0;
	case NONE: return NOMATCH;
	case SPACE: {
		if (v.empty() || v[0].s.empty()) return NOMATCH;
		for (unsigned char ch : v[0].s) if (!isspace(ch)) return NOMATCH;
		return 1;
	}
	case RE: {
		if (!n->conf) return ERR;
		if (v.empty()) return NOMATCH;
		bool bad;
		return regex_full(n->text, v[0].s, &bad) ? 1 : NOMATCH;
	}
	case FILE_: return v.empty() ? NOMATCH : 1;
	case SEQ: {
		size_t len = 0;
		for (auto k : n->ch) {
			int r = parse_child(c, k, st, sub(v, len, v.size() - len));
			if (r == ERR) return ERR;
			if (r == NOMATCH) { free_children(st); return NOMATCH; }
			len += r;
		}
		return len;
	}
	case OR:
		for (auto k : n->ch) {
			int r = parse_child(c, k, st, v);
			if (r != NOMATCH) return r;
		}
		return NOMATCH;
	case MANY: {
		if (!n->conf) return ERR;
		size_t off = 0, cnt;
		for (cnt = 0; n->mx == 0 || cnt < n->mx; cnt++) {
			int r = parse_child(c, n->ch[0], st, sub(v, off, v.size() - off));
			if (r == ERR) return ERR;
			if (r == NOMATCH) break;
			if (r == 0) { del_last(st); break; }
			off += r;
		}
		if (cnt < n->mn) { free_children(st); return NOMATCH; }
		return off;
	}
	case OPTION: {
		if (!n->conf) return ERR;
		int r = parse_child(c, n->ch[0], st, v);
		return r == NOMATCH ? 0 : r;
	}
	case ONCE:
		if (!n->conf) return ERR;
		if (count_node(root_of(st), n->ch[0]) > 0) return NOMATCH;
		return parse_child(c, n->ch[0], st, v);
	case SUBSET: {
		if (v.empty()) return NOMATCH;
		Best b;
		if (subset_parse(c, &b, n->ch, st, v) == ERR) return ERR;
		return b.len;
	}
	case BYPASS:
		if (!n->conf) return ERR;
		return parse_child(c, n->ch[0], st, v);
	case DYN:
		return parse_child(c, dyn_child(c, n, st), st, v);
	case COND: {
		if (!n->conf) return ERR;
		int r = parse_child(c, n->ch[0], st, v);
		if (r == ERR || r == NOMATCH) return r;
		int ok = eval_cond(n->text, st);
		if (ok == ERR) return ERR;
		if (!ok) { del_last(st); return NOMATCH; }
		return r;
	}
	case SH_LEX: case RE_LEX: {
		Toks nv;
		if (!v.empty()) {
			if (n->t == SH_LEX) {
				std::vector<std::string> o;
				if (sh_lex(v[0].s, true, false, &o, nullptr) < 0) return NOMATCH;
				nv = toks(o);
			} else if (!tokenize(n, v[0].s, &nv))
				return ERR;
		}
		if (!n->conf) return ERR;
		int r = parse_child(c, n->ch[0], st, nv);
		if (r == ERR || r == NOMATCH) return r;
		if ((size_t)r != nv.size()) { del_last(st); return NOMATCH; }
		return v.empty() ? 0 : 1;
	}
	case CMD: case EXPR:
		if (!n->inner) return ERR;
		return parse_child(c, n->inner, st, v);
	case XLEAF: // the callbacks of the application, see sim/xtype.cc
		if (!n->conf) return ERR;
		switch (n->dynmode) {
		case 2: return 0;
		case 3: if (count_node(root_of(st), n) > 1) return NOMATCH; // fallthrough
		case 0: return !v.empty() && v[0].s == n->text ? 1 : NOMATCH;
		default: return v.size() >= 2 && v[0].s == n->text ? 2 : NOMATCH;
		}
	case XPAIR: {
		if (!n->conf) return ERR;
		bool tol = n->id.c_str()[0] % 2 == 0;
		int r = parse_child(c, n->ch[0], st, v);
		if (r == ERR && tol) r = NOMATCH;
		if (r == ERR || r == NOMATCH) return r;
		int q = parse_child(c, n->ch[1], st, sub(v, r, v.size() - r));
		if (q == ERR && tol) q = NOMATCH;
		if (q == ERR) return q;
		if (q == NOMATCH) { free_children(st); return q; }
		return r + q;
	}
	default:
		abort();
	}
}

int parse_child(Ctx &c, const N *n, PT *st, const Toks &v)
{
	c.tick();
	if (c.depth > c.max_depth) throw Limit();
	PT *p = c.newpt(n);
	link(st, p);
	c.depth++;
	int r = parse(c, n, p, v);
	c.depth--;
	if (r == ERR || r == NOMATCH) { unlink(p); return r; }
	p->has = true;
	p->v = sub(v, 0, r);
	return r;
}

int parse_root(Ctx &c, const N *n, const Toks &v, PT **out)
{
	PT *p = c.newpt(n);
	c.tick();
	int r = parse(c, n, p, v);
	*out = p;
	if (r == ERR || r == NOMATCH) return r;
	p->has = true;
	p->v = sub(v, 0, r);
	return r;
}

// ------------------------------------------------------------ complete
static void add_item(Comp &comp, Item it)
{
	if (comp.cur_grp < 0) {
		comp.cur_grp = (int)comp.grp_state.size();
		comp.grp_state.push_back(ser(root_of(comp.cur), comp.cur));
		comp.grp_node.push_back(it.n);
	}
	it.grp = comp.cur_grp;
	comp.items.push_back(it);
}
static bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }

static int seq_complete(Ctx &c, const std::vector<N *> &t, size_t from, Comp &comp, const Toks &v)
{
	c.tick();
	if (from == t.size()) return 0;
	PT *st = comp.cur;
	if (complete_child(c, t[from], comp, v) == ERR) return ERR;
	for (size_t i = 0; i < v.size(); i++) {
		int r = parse_child(c, t[from], st, sub(v, 0, i));
		if (r == ERR) return ERR;
		if (r == NOMATCH) continue;
		if ((size_t)r == i && seq_complete(c, t, from + 1, comp, sub(v, i, v.size() - i)) == ERR) return ERR;
		del_last(st);
	}
	return 0;
}
static int many_complete(Ctx &c, const N *n, unsigned max, Comp &comp, const Toks &v)
{
	c.tick();
	PT *st = comp.cur;
	if (complete_child(c, n->ch[0], comp, v) == ERR) return ERR;
	if (max == 1) return 0;
	if (max) max--;
	// an empty match does not make the repetition progress
	for (size_t i = 1; i < v.size(); i++) {
		int r = parse_child(c, n->ch[0], st, sub(v, 0, i));
		if (r == ERR) return ERR;
		if (r == NOMATCH) continue;
		if ((size_t)r == i && many_complete(c, n, max, comp, sub(v, i, v.size() - i)) == ERR) return ERR;
		del_last(st);
	}
	return 0;
}
static int subset_complete(Ctx &c, std::vector<N *> t, Comp &comp, const Toks &v)
{
	c.tick();
	PT *st = comp.cur;
	for (auto k : t) if (k && complete_child(c, k, comp, v) == ERR) return ERR;
	for (size_t i = 0; i < t.size(); i++) {
		if (!t[i]) continue;
		int r = parse_child(c, t[i], st, v);
		if (r == ERR) return ERR;
		if (r == NOMATCH) continue;
		N *save = t[i];
		t[i] = nullptr;
		int q = subset_complete(c, t, comp, sub(v, r, v.size() - r));
		t[i] = save;
		if (q == ERR) return ERR;
		del_last(st);
	}
	return 0;
}

static int complete(Ctx &c, const N *n, Comp &comp, const Toks &v)
{
	switch (n->t) {
	case STR: {
		if (v.size() != 1) return 0;
		if (!n->conf) return v[0].s.empty() ? ERR : 0;
		if (!starts(n->text, v[0].s)) return 0;
		Item it;
		it.n = n; it.type = EC_COMP_FULL;
		it.has_full = it.has_comp = true;
		it.full = it.disp = n->text;
		it.comp = n->text.substr(v[0].s.size());
		add_item(comp, it);
		return 0;
	}
	case EMPTY: case NONE:
		if (n->t == NONE) return 0;
		// fallthrough
	case INT: case UINT: case ANY: case SPACE: case RE: case RE_LEX: {
		if (v.size() != 1) return 0;
		Item it;
		it.n = n; it.type = EC_COMP_UNKNOWN;
		add_item(comp, it);
		return 0;
	}
	case FILE_: {
		if (v.size() != 1) return 0;
		std::string in = v[0].s, dir, b;
		size_t sl = in.rfind('/');
		dir = sl == std::string::npos ? "" : in.substr(0, sl + 1);
		b = sl == std::string::npos ? in : in.substr(sl + 1);
		bool not_dir = false;
		std::vector<FileEntry> es;
		if (!list_dir || list_dir(dir.empty() ? "." : dir, &not_dir, &es) == ERR) return ERR;
		if (not_dir) return 0;
		for (auto &e : es) {
			if (!starts(e.name, b)) continue;
			if (e.name[0] == '.' && !(b.size() && b[0] == '.')) continue;
			Item it;
			it.n = n;
			it.type = e.is_dir ? EC_COMP_PARTIAL : EC_COMP_FULL;
			it.has_full = it.has_comp = true;
			it.full = dir + e.name + (e.is_dir ? "/" : "");
			it.comp = it.full.substr(in.size());
			it.disp = e.name + (e.is_dir ? "/" : "");
			add_item(comp, it);
		}
		return 0;
	}
	case SEQ: return seq_complete(c, n->ch, 0, comp, v);
	case OR:
		for (auto k : n->ch) if (complete_child(c, k, comp, v) == ERR) return ERR;
		return 0;
	case MANY:
		if (!n->conf) return ERR;
		return many_complete(c, n, n->mx, comp, v);
	case OPTION: case BYPASS: case COND:
		if (!n->conf) return ERR;
		return complete_child(c, n->ch[0], comp, v);
	case ONCE:
		if (!n->conf) return ERR;
		if (count_node(root_of(comp.cur), n->ch[0]) > 0) return 0;
		return complete_child(c, n->ch[0], comp, v);
	case SUBSET: return subset_complete(c, n->ch, comp, v);
	case DYN: return complete_child(c, dyn_child(c, n, comp.cur), comp, v);
	case SH_LEX: {
		if (v.size() != 1) return 0;
		if (!n->conf) return ERR;
		std::vector<std::string> o;
		char miss = 0;
		sh_lex(v[0].s, false, true, &o, &miss);
		size_t before = comp.items.size();
		if (complete_child(c, n->ch[0], comp, toks(o)) == ERR) return ERR;
		if (miss)
			for (size_t i = before; i < comp.items.size(); i++) {
				Item &it = comp.items[i];
				if (it.type != EC_COMP_FULL) continue;
				it.full = miss + it.full + miss;
				if (it.has_comp) it.comp += miss; // nothing can be appended to a token which is not a prefix
			}
		return 0;
	}
	case CMD: case EXPR:
		if (!n->inner) return ERR;
		return complete_child(c, n->inner, comp, v);
	case XLEAF: {
		if (v.size() != 1) return 0;
		if (!n->conf) return ERR;
		const std::string &in = v[0].s;
		auto add = [&](int type, const std::string &full) -> Item & {
			Item it;
			it.n = n; it.type = type;
			it.has_full = true;
			it.full = it.disp = full;
			it.has_comp = starts(full, in);
			if (it.has_comp) it.comp = full.substr(in.size());
			add_item(comp, it);
			return comp.items.back();
		};
		auto unknown = [&]() { Item it; it.n = n; it.type = EC_COMP_UNKNOWN; add_item(comp, it); };
		switch (n->dynmode) {
		case 0: if (starts(n->text, in)) add(EC_COMP_FULL, n->text); break;
		case 1: {
			add(EC_COMP_FULL, n->text).disp = "<" + n->text + ">";
			Item &p = add(EC_COMP_PARTIAL, n->text + "/");
			p.full = n->text + "!";
			p.comp = "?"; p.has_comp = true;
			unknown();
			break;
		}
		case 2: unknown(); break;
		default: break;
		}
		return 0;
	}
	case XPAIR: {
		if (!n->conf) return ERR;
		bool own = v.size() == 1 && n->id.size() % 2 == 1;
		auto add = [&](int type, const char *full) {
			Item it;
			it.n = n; it.type = type;
			it.has_full = true;
			it.full = it.disp = full;
			it.has_comp = starts(it.full, v[0].s);
			if (it.has_comp) it.comp = it.full.substr(v[0].s.size());
			add_item(comp, it);
		};
		bool tol = n->id.c_str()[0] % 2 == 0;
		if (own) add(EC_COMP_FULL, "pair");
		if (complete_child(c, n->ch[0], comp, v) == ERR && !tol) return ERR;
		for (size_t i = 0; i < v.size(); i++) {
			int r = parse_child(c, n->ch[0], comp.cur, sub(v, 0, i));
			if (r == ERR && !tol) return ERR;
			if (r == NOMATCH || r == ERR) continue;
			if ((size_t)r == i && complete_child(c, n->ch[1], comp, sub(v, i, v.size() - i)) == ERR && !tol) return ERR;
			del_last(comp.cur);
		}
		if (own) {
			add(EC_COMP_PARTIAL, "Pair/");
			Item &it = comp.items.back();
			it.full = "Pair:";
			it.comp = "+"; it.has_comp = true;
		}
		return 0;
	}
	default:
		abort();
	}
}

int complete_child(Ctx &c, const N *n, Comp &comp, const Toks &v)
{
	c.tick();
	if (c.depth > c.max_depth) throw Limit();
	PT *save = comp.cur;
	int sg = comp.cur_grp;
	PT *p = c.newpt(n);
	if (save) link(save, p);
	comp.cur = p;
	comp.cur_grp = -1;
	c.depth++;
	int r = complete(c, n, comp, v);
	c.depth--;
	unlink(p);
	comp.cur = save;
	comp.cur_grp = sg;
	return r;
}

// ------------------------------------------------------------ expressions
static N *mk(std::vector<std::unique_ptr<N>> &pool, T t, const std::string &id)
{
	pool.emplace_back(new N());
	pool.back()->t = t;
	pool.back()->id = id;
	pool.back()->conf = true;
	return pool.back().get();
}

N *build_expr(std::vector<std::unique_ptr<N>> &pool, const N *e)
{
	if (!e->val || (e->bin.empty() && e->pre.empty() && e->post.empty())) return nullptr;
	N *ref = mk(pool, SEQ, "ref");
	N *pre = mk(pool, OR, "pre-op");
	pre->ch = e->pre;
	N *posto = mk(pool, OR, "post-op");
	posto->ch = e->post;
	N *post = mk(pool, OR, "post");
	post->ch.push_back(e->val);
	N *s = mk(pool, SEQ, "");
	s->ch = { pre, ref };
	post->ch.push_back(s);
	for (size_t i = 0; i < e->open.size(); i++) {
		N *p = mk(pool, SEQ, "");
		p->ch = { e->open[i], ref, e->close[i] };
		post->ch.push_back(p);
	}
	N *term = mk(pool, SEQ, "term");
	N *m = mk(pool, MANY, "");
	m->ch = { posto };
	term->ch = { post, m };
	for (auto b : e->bin) {
		N *next = mk(pool, SEQ, "next");
		N *mm = mk(pool, MANY, "");
		N *ss = mk(pool, SEQ, "");
		ss->ch = { b, term };
		mm->ch = { ss };
		next->ch = { term, mm };
		term = next;
	}
	ref->ch = { term };
	return term;
}

// ------------------------------------------------------------ commands
bool lex_cmd(const std::string &s, std::vector<std::string> *out)
{
	size_t i = 0;
	while (i < s.size()) {
		char c = s[i];
		size_t j = i;
		auto idc = [](char x) { return isalnum((unsigned char)x) || x == '_' || x == '-'; };
		if (idc(c)) {
			while (j < s.size() && idc(s[j])) j++;
			out->push_back(s.substr(i, j - i));
		} else if (strchr("*+|,()[]", c)) { out->push_back(std::string(1, c)); j++; }
		else if (c == ' ' || c == '\t') j++;
		else return false;
		i = j;
	}
	return true;
}

struct CmdC {
	std::vector<std::unique_ptr<N>> &pool;
	const std::vector<std::string> &t;
	const std::vector<N *> &children;
	std::set<const N *> made; // nodes created by the compiler (may be extended in place)
	bool isid(size_t p) { return p < t.size() && (isalnum((unsigned char)t[p][0]) || t[p][0] == '_' || t[p][0] == '-'); }
	// post := id | '[' expr ']' | '(' expr ')'
	N *post(size_t &p)
	{
		if (isid(p)) {
			for (auto k : children) if (k->id == t[p]) { p++; return k; }
			N *s = mk(pool, STR, "");
			s->text = t[p++];
			return s;
		}
		for (const char *br : { "[]", "()" }) {
			if (p < t.size() && t[p][0] == br[0]) {
				size_t q = p + 1;
				N *e = expr(q, 2);
				if (!e) continue;
				if (q >= t.size() || t[q][0] != br[1]) continue;
				p = q + 1;
				if (br[0] == '(') return e;
				N *o = mk(pool, OPTION, "");
				o->ch = { e };
				return o;
			}
		}
		return nullptr;
	}
	N *term(size_t &p)
	{
		N *n = post(p);
		if (!n) return nullptr;
		while (p < t.size() && (t[p] == "*" || t[p] == "+")) {
			N *m = mk(pool, MANY, "");
			m->mn = t[p] == "+";
			m->ch = { n };
			n = m;
			p++;
		}
		return n;
	}
	N *bin(int lvl, N *a, N *b)
	{
		T k = lvl == 0 ? SUBSET : lvl == 1 ? OR : SEQ;
		if (lvl == 0 && b->t == k && made.count(b)) { b->ch.push_back(a); return b; }
		if (a->t == k && made.count(a)) { a->ch.push_back(b); return a; }
		N *n = mk(pool, k, "");
		n->ch = { a, b };
		made.insert(n);
		return n;
	}
	// lvl 0: ','   1: '|'   2: juxtaposition
	N *expr(size_t &p, int lvl)
	{
		if (lvl < 0) return term(p);
		N *a = expr(p, lvl - 1);
		if (!a) return nullptr;
		while (1) {
			size_t q = p;
			if (lvl < 2) {
				if (q >= t.size() || t[q] != (lvl == 0 ? "," : "|")) break;
				q++;
			}
			N *b = expr(q, lvl - 1);
			if (!b) break;
			a = bin(lvl, a, b);
			p = q;
		}
		return a;
	}
};

N *build_cmd(std::vector<std::unique_ptr<N>> &pool, const std::string &s, const std::vector<N *> &children)
{
	std::vector<std::string> t;
	if (!lex_cmd(s, &t)) return nullptr;
	CmdC c{ pool, t, children, {} };
	size_t p = 0;
	N *n = c.expr(p, 2);
	if (!n || p != t.size()) return nullptr;
	return n;
}

// ------------------------------------------------------------ serialisation
bool ser_text = true;
std::string node_name(const N *n) { return n ? std::string(type_name[n->t]) + "#" + n->id : "-"; }

static void ser_toks(std::string &o, const Toks &v)
{
	o += "<";
	for (size_t i = 0; i < v.size(); i++) {
		if (i) o += ",";
		o += v[i].s;
		for (auto &a : v[i].attrs) o += "@" + a;
	}
	o += ">";
}

static void ser1(std::string &o, const PT *t, const PT *mark)
{
	o += node_name(t->n);
	if (t->n && t->n->t == STR) o += "=" + t->n->text;
	if (t == mark) o += "!";
	if (t->has) ser_toks(o, t->v);
	if (!t->ch.empty()) {
		o += "(";
		for (size_t i = 0; i < t->ch.size(); i++) { if (i) o += " "; ser1(o, t->ch[i], mark); }
		o += ")";
	}
}
std::string ser(const PT *t, const PT *mark) { std::string o; ser1(o, t, mark); return o; }

static void ser2(std::string &o, const struct ec_pnode *t, const struct ec_pnode *mark)
{
	const struct ec_node *n = ec_pnode_get_node(t);
	o += n ? std::string(ec_node_type_name(ec_node_type(n))) + "#" + ec_node_id(n) : "-";
	if (ser_text && n && !strcmp(ec_node_type_name(ec_node_type(n)), "str")) {
		const struct ec_config *cf = ec_node_get_config((struct ec_node *)n);
		struct ec_config *sv = cf ? ec_config_dict_get(cf, "string") : nullptr;
		o += std::string("=") + (sv ? sv->string : "");
	}
	if (t == mark) o += "!";
	const struct ec_strvec *v = ec_pnode_get_strvec(t);
	if (v) {
		o += "<";
		for (size_t i = 0; i < ec_strvec_len(v); i++) {
			if (i) o += ",";
			o += ec_strvec_val(v, i);
			const struct ec_dict *a = ec_strvec_get_attrs(v, i);
			if (a) {
				std::set<std::string> keys;
				for (struct ec_dict_elt_ref *it = ec_dict_iter(a); it; it = ec_dict_iter_next(it)) keys.insert(ec_dict_iter_get_key(it));
				for (auto &k : keys) o += "@" + k;
			}
		}
		o += ">";
	}
	bool first = true;
	struct ec_pnode *c;
	EC_PNODE_FOREACH_CHILD(c, t) {
		o += first ? "(" : " ";
		first = false;
		ser2(o, c, mark);
	}
	if (!first) o += ")";
}
std::string ser_real(const struct ec_pnode *p, const struct ec_pnode *mark) { std::string o; ser2(o, p, mark); return o; }
} // namespace model
