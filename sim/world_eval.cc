// World "eval": expressions evaluated through callbacks that may fail at any
// point. Oracle: a recursive-descent reading of the expression grammar.
#include "gram.h"
using namespace sim;

namespace {
struct Val { std::string term; bool live; };
enum R { BIN, PRE, POST, OPEN, CLOSE };
typedef std::vector<std::string> Tv;

struct EvalWorld;
EvalWorld *W = nullptr;

struct Ast { bool ok; size_t end; std::string term; };

struct EvalWorld : World {
	struct ec_node *expr = nullptr, *root = nullptr, *other = nullptr;
	std::vector<std::string> bin, pre, post, open, close; // "" is juxtaposition
	bool nested_val = false, op_val = false;
	std::deque<Val> vals;
	int calls = 0, live = 0, depth = 0;
	bool failing = false;
	int inner_fail = 0;
	uintptr_t ctx_tag = 0;

	// ---- oracle
	bool is(const Tv &t, size_t p, const std::string &s) { return p < t.size() && t[p] == s; }
	long fuel = 0;
	Ast o_val(const Tv &t, size_t p)
	{
		if (p >= t.size()) return { false, p, "" };
		if (nested_val && t[p] == "f") {
			Ast a = o_expr(t, p + 1, (int)bin.size() - 1);
			if (a.ok) return { true, a.end, "f<" + a.term + ">" };
			return { false, p, "" };
		}
		if (isdigit((unsigned char)t[p][0]) || t[p] == "x") return { true, p + 1, t[p] };
		return { false, p, "" };
	}
	Ast o_post(const Tv &t, size_t p)
	{
		if (--fuel < 0) return { false, p, "" };
		Ast a = o_val(t, p);
		if (a.ok) return a;
		for (auto &o : pre)
			if (is(t, p, o)) {
				Ast e = o_expr(t, p + 1, (int)bin.size() - 1);
				if (e.ok) return { true, e.end, "(" + o + " " + e.term + ")" };
				break; // the alternatives of the operator are not retried
			}
		for (size_t i = 0; i < open.size(); i++)
			if (is(t, p, open[i])) {
				Ast e = o_expr(t, p + 1, (int)bin.size() - 1);
				if (e.ok && is(t, e.end, close[i])) return { true, e.end + 1, "{" + open[i] + " " + e.term + " " + close[i] + "}" };
			}
		return { false, p, "" };
	}
	Ast o_expr(const Tv &t, size_t p, int lvl)
	{
		if (--fuel < 0) return { false, p, "" };
		if (lvl < 0) {
			Ast a = o_post(t, p);
			while (a.ok) {
				bool hit = false;
				for (auto &o : post)
					if (is(t, a.end, o)) { a.term = "(" + a.term + " " + o + ")"; a.end++; hit = true; break; }
				if (!hit) break;
			}
			return a;
		}
		Ast a = o_expr(t, p, lvl - 1);
		while (a.ok) {
			size_t q = a.end;
			const std::string &o = bin[(size_t)lvl];
			if (!o.empty()) { if (!is(t, q, o)) break; q++; }
			Ast b = o_expr(t, q, lvl - 1);
			if (!b.ok || b.end == a.end) break;
			a.term = "(" + a.term + " " + (o.empty() ? "." : o) + " " + b.term + ")";
			a.end = b.end;
		}
		return a;
	}

	// ---- the simulated application's callbacks
	Val *mkval(const std::string &t) { vals.push_back({ t, true }); live++; return &vals.back(); }
	Val *use(void *v, const char *what)
	{
		for (auto &x : vals)
			if (&x == v) {
				CHECK(x.live, "lifetime", "value", "%s was given a value (%s) that was already consumed", what, x.term.c_str());
				return &x;
			}
		violate("lifetime", "value", "%s was given something that is not a value", what);
	}
	void eat(Val *v) { v->live = false; live--; }
	static std::string text(const struct ec_pnode *p)
	{
		std::string s;
		const struct ec_strvec *v = ec_pnode_get_strvec(p);
		for (size_t i = 0; i < ec_strvec_len(v); i++) s += (i ? " " : "") + std::string(ec_strvec_val(v, i));
		return s;
	}
	// every callback: checks, and the decision to fail
	bool enter(void *ctx, void **result, const char *what)
	{
		CHECK(ctx == (void *)ctx_tag, "result", "context", "%s was called with another context", what);
		CHECK(!failing, "result", "after-failure", "%s was called after a callback had reported a failure", what);
		calls++;
		if (!S.fault(K_CB)) return false;
		failing = true;
		uint32_t k = (uint32_t)calls % 3; // "*result is undefined" on error
		if (k == 1) *result = nullptr;
		if (k == 2) *result = (void *)0xdead0;
		errno = EIO;
		return true;
	}
	int fail_code() { return calls % 2 ? -1 : -EIO; }
	int var(void **result, void *ctx, const struct ec_pnode *p)
	{
		CHECK(p, "result", "operand", "no variable given");
		std::string t = text(p);
		if (nested_val && t.substr(0, 1) == "f" && ec_pnode_len(p) > 1) { // a function of an expression: evaluated by the application
			const struct ec_pnode *e = ec_pnode_find(const_cast<struct ec_pnode *>(p), "e");
			CHECK(e, "result", "operand", "the operand of a function is missing");
			void *r = nullptr;
			depth++;
			int x = run(&r, const_cast<struct ec_pnode *>(e));
			depth--;
			if (x < 0) return -1;
			Val *v = use(r, "a function");
			if (enter(ctx, result, "eval_var")) { eat(v); return fail_code(); }
			std::string s = "f<" + v->term + ">";
			eat(v);
			*result = mkval(s);
			return 0;
		}
		if (enter(ctx, result, "eval_var")) return fail_code();
		*result = mkval(t);
		return 0;
	}
	int preop(void **result, void *ctx, void *a, const struct ec_pnode *op)
	{
		Val *x = use(a, "eval_pre_op");
		if (enter(ctx, result, "eval_pre_op")) return fail_code();
		std::string t = "(" + text(op) + " " + x->term + ")";
		eat(x);
		*result = mkval(t);
		return 0;
	}
	int postop(void **result, void *ctx, void *a, const struct ec_pnode *op)
	{
		Val *x = use(a, "eval_post_op");
		if (enter(ctx, result, "eval_post_op")) return fail_code();
		std::string t = "(" + x->term + " " + text(op) + ")";
		if (calls % 2) { x->term = t; *result = x; return 0; } // updated in place
		eat(x);
		*result = mkval(t);
		return 0;
	}
	int binop(void **result, void *ctx, void *a, const struct ec_pnode *op, void *b)
	{
		Val *x = use(a, "eval_bin_op"), *y = use(b, "eval_bin_op");
		CHECK(x != y, "lifetime", "value", "eval_bin_op was given the same value twice");
		if (enter(ctx, result, "eval_bin_op")) return fail_code();
		std::string o = text(op);
		std::string t = "(" + x->term + " " + (o.empty() ? "." : o) + " " + y->term + ")";
		eat(x);
		eat(y);
		*result = mkval(t);
		return 0;
	}
	int paren(void **result, void *ctx, const struct ec_pnode *o, const struct ec_pnode *c, void *a)
	{
		Val *x = use(a, "eval_parenthesis");
		if (enter(ctx, result, "eval_parenthesis")) return fail_code();
		std::string t = "{" + text(o) + " " + x->term + " " + text(c) + "}";
		if (calls % 2) { x->term = t; *result = x; return 0; }
		eat(x);
		*result = mkval(t);
		return 0;
	}
	void release(void *v, void *ctx)
	{
		CHECK(ctx == (void *)ctx_tag, "result", "context", "eval_free was called with another context");
		Val *x = use(v, "eval_free");
		eat(x);
	}
	int run(void **r, struct ec_pnode *p);

	// ---- operations
	struct ec_node *sym(const std::string &s, const char *id)
	{
		if (s.empty()) return ec_node("empty", id);
		if (S.draw(4) == 0) return EC_NODE_OR(id, ec_node_str(EC_NO_ID, s.c_str()));
		return ec_node_str(id, s.c_str());
	}
	void setup() override
	{
		W = this;
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_REGEX | 1u << K_CB, 4, 40);
		S.p_fault = 80 + S.draw(120);
		NoFault nf;
		static const char *syms[] = { "+", "-", "*", "!", "^", "~" };
		auto gen = [&](std::vector<std::string> &v, uint32_t n, bool empty) {
			while (v.size() < n) {
				std::string s = syms[S.draw(6)];
				if (empty && S.draw(8) == 0) s = "";
				bool dup = false;
				for (auto &x : v) if (x == s) dup = true;
				if (!dup) v.push_back(s);
			}
		};
		do {
			bin.clear(); pre.clear(); post.clear();
			gen(bin, S.draw(4), true);
			gen(pre, S.draw(3), false);
			gen(post, S.draw(3), false);
		} while (bin.empty() && pre.empty() && post.empty());
		static const char *po[] = { "(", "[", "(" }, *pc[] = { ")", "]", "]" };
		uint32_t k = S.draw(4), n = k == 3 ? 3 : k;
		for (uint32_t i = 0; i < n; i++) { open.push_back(po[i]); close.push_back(pc[i]); }
		expr = ec_node("expr", "e");
		nested_val = S.draw(3) == 0;
		struct ec_node *v = EC_NODE_OR("v", ec_node_re(EC_NO_ID, "[0-9]+"), ec_node_str(EC_NO_ID, "x"));
		if (nested_val) ec_node_or_add(v, EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "f"), ec_node_clone(expr)));
		// any order of configuration gives the same grammar
		uint32_t first = S.draw(2);
		if (first) ec_node_expr_set_val_node(expr, ec_node_clone(v));
		for (auto &s : bin) ec_node_expr_add_bin_op(expr, sym(s, "b"));
		for (auto &s : pre) ec_node_expr_add_pre_op(expr, sym(s, "pr"));
		for (auto &s : post) ec_node_expr_add_post_op(expr, sym(s, "po"));
		for (size_t i = 0; i < open.size(); i++) ec_node_expr_add_parenthesis(expr, sym(open[i], "op"), sym(close[i], "cl"));
		if (!first) ec_node_expr_set_val_node(expr, ec_node_clone(v));
		ec_node_free(v);
		other = ec_node_str(EC_NO_ID, "other");
		root = S.draw(2) ? EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "="), ec_node_clone(expr)) : nullptr;
	}
	void gen_expr(Tv &o, int d)
	{
		uint32_t k = S.draw(d > 4 ? 2 : 10);
		if (k < 3) o.push_back(S.draw(2) ? "x" : fmt("%u", S.draw(30)));
		else if (k < 6 && !bin.empty()) {
			gen_expr(o, d + 1);
			const std::string &b = bin[S.draw((uint32_t)bin.size())];
			if (!b.empty()) o.push_back(b);
			gen_expr(o, d + 1);
		} else if (k < 7 && !pre.empty()) { o.push_back(pre[S.draw((uint32_t)pre.size())]); gen_expr(o, d + 1); }
		else if (k < 8 && !post.empty()) { gen_expr(o, d + 1); o.push_back(post[S.draw((uint32_t)post.size())]); }
		else if (k < 9 && !open.empty()) { uint32_t i = S.draw((uint32_t)open.size()); o.push_back(open[i]); gen_expr(o, d + 1); o.push_back(close[i]); }
		else if (nested_val) { o.push_back("f"); gen_expr(o, d + 1); }
		else o.push_back("x");
	}
	void op_eval()
	{
		S.opname = "eval";
		Tv t;
		gen_expr(t, 0);
		if (t.size() > 20) t.resize(20);
		if (S.draw(6) == 0 && t.size() > 1) { // damaged
			size_t i = S.draw((uint32_t)t.size());
			if (S.draw(2)) t.erase(t.begin() + (long)i);
			else std::swap(t[i], t[S.draw((uint32_t)t.size())]);
		}
		fuel = 20000;
		Ast a = o_expr(t, 0, (int)bin.size() - 1);
		if (fuel < 0) return;
		std::string line;
		for (auto &x : t) line += x + " ";
		struct ec_strvec *v;
		struct ec_pnode *p, *e;
		{
			NoFault nf;
			v = ec_strvec();
			if (root) ec_strvec_add(v, "=");
			for (auto &x : t) ec_strvec_add(v, x.c_str());
			p = ec_parse_strvec(root ? root : expr, v);
			CHECK(p, "spurious", "parse", "parsing the expression %s failed", line.c_str());
			e = root && ec_pnode_matches(p) ? const_cast<struct ec_pnode *>(ec_pnode_find(p, "e")) : p;
			CHECK(ec_pnode_matches(p) == a.ok, "result", "match", "the expression %s %s", line.c_str(), a.ok ? "does not match" : "matches");
			if (a.ok) CHECK(e && ec_pnode_len(e) == a.end, "result", "match", "the expression %s matches %zu tokens, expected %zu", line.c_str(), ec_pnode_len(e), a.end);
		}
		vals.clear();
		live = calls = 0;
		failing = false;
		ctx_tag = 0x4000 + S.draw(4);
		void *r = (void *)0xbad0;
		errno = 0;
		int x = run(&r, e);
		int er = errno;
		S.ev("eval %s-> %d after %d calls", line.c_str(), x, calls);
		if (!a.ok) {
			CHECK(x == -1 && er == EINVAL && calls == 0, "result", "nomatch", "evaluating a parse that does not match returned %d (%d callbacks)", x, calls);
		} else if (failing) {
			CHECK(x < 0, "result", "verdict", "evaluating %s succeeded although a callback failed", line.c_str());
			CHECK(er == EIO, "result", "errno", "the error of a callback was replaced by errno %d", er);
			CHECK(live == 0, "lifetime", "leak", "%d values were not released after a callback failed while evaluating %s", live, line.c_str());
			stats.probes["eval_failed"]++;
		} else {
			CHECK(x == 0, "spurious", "verdict", "evaluating %s failed although every callback succeeded", line.c_str());
			Val *f = use(r, "the application");
			CHECK(f->term == a.term, "result", "value", "%s was evaluated as %s, expected %s", line.c_str(), f->term.c_str(), a.term.c_str());
			eat(f);
			CHECK(live == 0, "lifetime", "leak", "%d values were lost while evaluating %s", live, line.c_str());
			stats.probes["eval_ok"]++;
		}
		NoFault nf;
		ec_pnode_free(p);
		ec_strvec_free(v);
	}
	void op_misuse();
	void step() override
	{
		if (S.draw(12) == 0) op_misuse();
		else op_eval();
	}
	void teardown() override
	{
		NoFault nf;
		ec_node_free(expr);
		ec_node_free(root);
		ec_node_free(other);
		W = nullptr;
	}
};
int c_var(void **r, void *u, const struct ec_pnode *v) { return W->var(r, u, v); }
int c_pre(void **r, void *u, void *a, const struct ec_pnode *o) { return W->preop(r, u, a, o); }
int c_post(void **r, void *u, void *a, const struct ec_pnode *o) { return W->postop(r, u, a, o); }
int c_bin(void **r, void *u, void *a, const struct ec_pnode *o, void *b) { return W->binop(r, u, a, o, b); }
int c_paren(void **r, void *u, const struct ec_pnode *o, const struct ec_pnode *c, void *v) { return W->paren(r, u, o, c, v); }
void c_free(void *v, void *u) { W->release(v, u); }
const struct ec_node_expr_eval_ops OPS = { c_var, c_pre, c_post, c_bin, c_paren, c_free };
int EvalWorld::run(void **r, struct ec_pnode *p) { return ec_node_expr_eval(r, expr, p, &OPS, (void *)ctx_tag); }
void EvalWorld::op_misuse()
{
	S.opname = "misuse";
	struct ec_strvec *v;
	struct ec_pnode *p;
	{
		NoFault nf;
		v = ec_strvec();
		ec_strvec_add(v, "x");
		p = ec_parse_strvec(expr, v);
	}
	struct ec_node_expr_eval_ops o = OPS;
	uint32_t k = S.draw(8);
	const struct ec_node *n = expr;
	switch (k) {
	case 0: o.eval_var = nullptr; break;
	case 1: o.eval_pre_op = nullptr; break;
	case 2: o.eval_post_op = nullptr; break;
	case 3: o.eval_bin_op = nullptr; break;
	case 4: o.eval_parenthesis = nullptr; break;
	case 5: o.eval_free = nullptr; break;
	case 6: n = other; break;
	}
	calls = 0;
	errno = 0;
	void *r = (void *)0xbad0;
	int x = ec_node_expr_eval(&r, n, p, k == 7 ? nullptr : &o, nullptr);
	S.ev("misuse %u -> %d", k, x);
	CHECK(x == -1 && errno == EINVAL && calls == 0, "result", "misuse", "an invalid request (%u) returned %d errno %d after %d callbacks", k, x, errno, calls);
	NoFault nf;
	ec_pnode_free(p);
	ec_strvec_free(v);
}
World *mk_eval(const std::string &) { return new EvalWorld(); }
REGISTER_WORLD("eval", mk_eval, "expressions evaluated through callbacks that fail");
} // namespace
