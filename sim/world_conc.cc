// World "conc": several activities using the same grammars at the same time,
// preempted wherever the library calls its environment.
#include "gram.h"
#include "sched.h"
using namespace sim;
using namespace model;

namespace {
// values of expressions are texts
int x_res(void **res, const std::string &s, std::initializer_list<void *> eaten)
{
	if (S.fault(K_CB)) { errno = EIO; return -1; }
	std::string *v = new std::string(s);
	for (void *e : eaten) delete (std::string *)e;
	*res = v;
	return 0;
}
const std::string &sv(void *v) { return *(std::string *)v; }
std::string px(const struct ec_pnode *p)
{
	std::string o;
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	for (size_t i = 0; i < ec_strvec_len(v); i++) o += ec_strvec_val(v, i);
	return o;
}
int x_var(void **r, void *, const struct ec_pnode *p) { return x_res(r, px(p), {}); }
int x_pre(void **r, void *, void *a, const struct ec_pnode *o) { return x_res(r, "(" + px(o) + sv(a) + ")", { a }); }
int x_post(void **r, void *, void *a, const struct ec_pnode *o) { return x_res(r, "(" + sv(a) + px(o) + ")", { a }); }
int x_bin(void **r, void *, void *a, const struct ec_pnode *o, void *b) { return x_res(r, "(" + sv(a) + px(o) + sv(b) + ")", { a, b }); }
int x_par(void **r, void *, const struct ec_pnode *o, const struct ec_pnode *c, void *a) { return x_res(r, px(o) + sv(a) + px(c), { a }); }
void x_free(void *v, void *) { delete (std::string *)v; }
const struct ec_node_expr_eval_ops x_ops = { x_var, x_pre, x_post, x_bin, x_par, x_free };

struct Req {
	// 0 parse, 1 complete, 2 find, 3 describe, 4 build on top of shared nodes, use and release it,
	// 5 dump, 6 copy the configuration, 7 evaluate an expression, 8 split a line in words
	int kind = 0;
	N *n = nullptr, *m = nullptr;
	Toks tk;
	std::string id;
	std::string before, got, again, in;
	struct ec_strvec *sv = nullptr;
	struct ec_pnode *p = nullptr;
	struct ec_comp *c = nullptr;
	bool failed = false, dup = false;
	uint32_t fired = 0;
	int err = 0;
};
struct ConcWorld : World {
	Gram g;
	std::vector<Req> all;       // requests of this round, kept until its end
	struct ec_node *xp = nullptr; // a shared expression grammar

	void setup() override
	{
		sched::reset();
		simfs::reset();
		g.allow_invalid = g.allow_null = false;
		simfs::populate();
		simfs::install_model();
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_REGEX | 1u << K_CB | 1u << K_FS, 2, 14);
		NoFault nf;
		xp = ec_node("expr", "xp");
		bool ok = xp && ec_node_expr_set_val_node(xp, ec_node_re(EC_NO_ID, "[0-9]+")) == 0
			&& ec_node_expr_add_bin_op(xp, ec_node_str(EC_NO_ID, "*")) == 0 && ec_node_expr_add_bin_op(xp, ec_node_str(EC_NO_ID, "+")) == 0
			&& ec_node_expr_add_pre_op(xp, ec_node_str(EC_NO_ID, "-")) == 0 && ec_node_expr_add_post_op(xp, ec_node_str(EC_NO_ID, "!")) == 0
			&& ec_node_expr_add_parenthesis(xp, ec_node_str(EC_NO_ID, "("), ec_node_str(EC_NO_ID, ")")) == 0;
		CHECK(ok, "spurious", "constructor", "an expression grammar could not be built without any fault");
		uint32_t n = 5 + S.draw(14);
		for (uint32_t i = 0; i < n; i++) {
			static const T sp[] = { COND, SH_LEX, RE_LEX, CMD, SUBSET };
			if (S.draw(3) == 0) g.op_leaf();
			else if (S.draw(3) == 0) g.op_combine(sp[S.draw(5)]);
			else g.op_combine(-1);
			if (S.draw(12) == 0) g.op_mutate(true);
		}
	}
	N *target()
	{
		if (g.hs.empty()) return nullptr;
		size_t n = g.hs.size(), k = n < 4 ? n : 4;
		return S.draw(3) ? g.hs[n - 1 - S.draw((uint32_t)k)] : g.pick();
	}
	static std::string result(Gram &g, const Req &r)
	{
		if (r.p) return ec_pnode_matches(r.p) ? g.snap_parse(r.p) : "nomatch";
		if (r.c) return g.snap_comp(r.c);
		return "error";
	}
	// performs a request; called alone and inside tasks
	void perform(Req &r, std::string &out, bool keep)
	{
		uint32_t f0 = S.task_fired ? *S.task_fired : 0;
		errno = 0;
		r.failed = false;
		struct ec_pnode *p = nullptr;
		struct ec_comp *c = nullptr;
		switch (r.kind) {
		case 0:
			S.opname = "parse";
			p = r.dup ? ec_parse(r.n->real, r.tk[0].s.c_str()) : ec_parse_strvec(r.n->real, r.sv);
			r.err = errno;
			r.failed = !p;
			out = p ? (ec_pnode_matches(p) ? g.snap_parse(p) : "nomatch") : "error";
			break;
		case 1:
			S.opname = "complete";
			c = r.dup ? ec_complete(r.n->real, r.tk[0].s.c_str()) : ec_complete_strvec(r.n->real, r.sv);
			r.err = errno;
			r.failed = !c;
			out = c ? g.snap_comp(c) : "error";
			break;
		case 2: {
			S.opname = "find";
			struct ec_node *x = ec_node_find(r.n->real, r.id.c_str());
			out = x ? fmt("%s %s", ec_node_get_type_name(x), ec_node_id(x)) : "none";
			break;
		}
		case 3: {
			S.opname = "desc";
			char *d = ec_node_desc(r.n->real);
			r.err = errno;
			r.failed = !d;
			out = d ? d : "error";
			ec_free(d);
			break;
		}
		case 4: {
			S.opname = "build";
			struct ec_node *s = EC_NODE_SEQ("tmp", ec_node_clone(r.n->real), ec_node_option(EC_NO_ID, ec_node_clone(r.m->real)));
			r.err = errno;
			r.failed = !s;
			out = "error";
			if (s) {
				struct ec_pnode *q = ec_parse_strvec(s, r.sv);
				r.err = errno;
				r.failed = !q;
				out = q ? fmt("%d %zu", (int)ec_pnode_matches(q), ec_pnode_len(q)) : "error";
				ec_pnode_free(q);
			}
			ec_node_free(s);
			break;
		}
		case 5: {
			S.opname = "dump";
			char *buf = nullptr;
			size_t len = 0;
			FILE *f;
			{ NoFault nf; f = open_memstream(&buf, &len); }
			ec_node_dump(f, r.n->real);
			{ NoFault nf; fclose(f); }
			out.clear();
			for (size_t i = 0; i < len; i++) { // without the number of references, which others hold too
				if (i >= 5 && !strncmp(buf + i - 5, "refs=", 5)) while (i < len && isdigit((unsigned char)buf[i])) i++;
				if (i < len) out += buf[i];
			}
			real_free_buf(buf);
			if (S.task_fired && *S.task_fired != f0) { r.failed = true; r.err = ENOMEM; } // reports nothing
			break;
		}
		case 6: {
			S.opname = "config_dup";
			const struct ec_config *o = ec_node_get_config(r.n->real);
			struct ec_config *d = o ? ec_config_dup(o) : nullptr;
			r.err = errno;
			r.failed = o && !d;
			out = d ? g.conf_str(d) + (ec_config_cmp(o, d) ? " differs" : "") : o ? "error" : "none";
			ec_config_free(d);
			break;
		}
		case 7: {
			S.opname = "eval";
			struct ec_pnode *q = ec_parse_strvec(xp, r.sv);
			r.err = errno;
			r.failed = !q;
			out = q ? "nomatch" : "error";
			if (q && ec_pnode_matches(q)) {
				void *res = nullptr;
				errno = 0;
				if (ec_node_expr_eval(&res, xp, q, &x_ops, nullptr) < 0) { r.failed = true; r.err = errno; out = "error"; }
				else { out = sv(res); delete (std::string *)res; }
			}
			ec_pnode_free(q);
			break;
		}
		case 8: {
			S.opname = "split";
			struct ec_strvec *v = ec_strvec_sh_lex_str(r.tk.empty() ? "" : r.tk[0].s.c_str(), EC_STRVEC_TRAILSP, nullptr);
			r.err = errno;
			r.failed = !v;
			out = v ? g.snap_strvec(v) : "error";
			ec_strvec_free(v);
			break;
		}
		}
		r.fired = S.task_fired ? *S.task_fired - f0 : 0;
		if (keep) { r.p = p; r.c = c; return; }
		ec_pnode_free(p);
		ec_comp_free(c);
	}
	bool make(Req &r)
	{
		r.n = target();
		if (!r.n) return false;
		uint32_t k = S.draw(16);
		r.kind = k < 5 ? 0 : k < 9 ? 1 : (int)k - 7;
		if (r.kind == 7) {
			static const char *w[] = { "1", "22", "3", "+", "*", "-", "!", "(", ")" };
			std::vector<std::string> v;
			std::function<void(int)> e = [&](int d) {
				switch (d <= 0 ? 0 : S.draw(7)) {
				case 1: v.push_back("-"); e(d - 1); break;
				case 2: e(d - 1); v.push_back("!"); break;
				case 3: v.push_back("("); e(d - 1); v.push_back(")"); break;
				case 4: case 5: case 6: e(d - 1); v.push_back(S.draw(2) ? "+" : "*"); e(d - 1); break;
				default: v.push_back(w[S.draw(3)]);
				}
			};
			e(1 + (int)S.draw(3));
			if (S.draw(6) == 0) v[S.draw((uint32_t)v.size())] = w[S.draw(9)];
			if (v.size() > 12) return false;
			r.tk = toks(v);
			return true;
		}
		if (r.kind > 8) r.kind = 8;
		r.tk = toks(g.tokens(r.n, r.kind == 1));
		if (r.kind < 2 && r.tk.size() == 1) r.dup = S.draw(2);
		if (r.kind == 8 && !r.tk.empty() && S.draw(2)) {
			static const char *line[] = { "a 'b c' d", "foo  \"x\\\"y\" ", "a\\ b #c", "x 'unclosed", "'' \"\"", "one two three four five six seven" };
			r.tk = toks({ line[S.draw(6)] });
		}
		if (r.kind == 4) { r.m = target(); r.tk.resize(std::min<size_t>(r.tk.size(), 3)); }
		r.id = g.rnd_id();
		Ctx c;
		try { // leave out requests that would explore too much
			PT *t = nullptr;
			c.max_steps = 1500;
			if (r.kind == 0) parse_root(c, r.n, r.tk, &t);
			if (r.kind == 4) {
				N o, q;
				o.t = OPTION; o.conf = true; o.ch = { r.m };
				q.t = SEQ; q.conf = true; q.ch = { r.n, &o };
				parse_root(c, &q, r.tk, &t);
			}
			if (r.kind == 1) { Comp mc; complete_child(c, r.n, mc, r.tk); }
		} catch (Limit &) { return false; }
		return true;
	}
	void step() override
	{
		all.clear();
		S.opname = "round";
		uint32_t nt = 2 + S.draw(3);
		std::vector<std::vector<size_t>> plan(nt);
		for (uint32_t t = 0; t < nt; t++) {
			uint32_t n = 1 + S.draw(3);
			for (uint32_t i = 0; i < n; i++) {
				Req r;
				if (!make(r)) continue;
				if (!all.empty() && S.draw(3) == 0) { // the same request as another task
					const Req &o = all[S.draw((uint32_t)all.size())];
					r.kind = o.kind; r.n = o.n; r.m = o.m; r.tk = o.tk; r.id = o.id; r.dup = o.dup;
				}
				plan[t].push_back(all.size());
				all.push_back(r);
			}
		}
		if (all.empty()) return;
		size_t a0 = alloc_live();
		{
			NoFault nf;
			for (auto &r : all) {
				r.sv = g.mkvec(r.tk);
				r.in = g.snap_strvec(r.sv);
				perform(r, r.before, false);
			}
		}
		std::vector<std::function<void()>> tasks;
		for (uint32_t t = 0; t < nt; t++)
			tasks.push_back([this, &plan, t]() {
				for (size_t i : plan[t]) {
					Req &r = all[i];
					perform(r, r.got, true);
					S.ev("task %u request %zu %s %s -> %s", t, i, node_name(r.n).c_str(), r.in.c_str(), r.got.c_str());
				}
			});
		static const unsigned gaps[] = { 1, 2, 4, 16, 64 };
		sched::run(tasks, gaps[S.draw(5)]);
		S.opname = "round";
		for (auto &r : all) {
			static const char *kn[] = { "parsing", "completing", "searching", "describing", "building on", "dumping", "copying the configuration of", "evaluating", "splitting" };
			if (r.failed) {
				CHECK(r.fired || r.before == "error", "isolation", "error", "%s %s with %s failed while other activities ran, with no fault of its own; alone it gives %s", kn[r.kind], r.in.c_str(), node_name(r.n).c_str(), r.before.c_str());
				CHECK(r.err, "isolation", "errno", "%s %s failed without errno", kn[r.kind], r.in.c_str());
				stats.failed_ops++;
			} else CHECK(r.got == r.before, "isolation", "result", "%s %s with %s gave %s while other activities ran; alone it gives %s", kn[r.kind], r.in.c_str(), node_name(r.n).c_str(), r.got.c_str(), r.before.c_str());
			// earlier results, unchanged by what ran after them
			if (r.p || r.c) CHECK(result(g, r) == r.got, "isolation", "kept", "a result changed while other activities ran: %s became %s", r.got.c_str(), result(g, r).c_str());
			CHECK(g.snap_strvec(r.sv) == r.in, "isolation", "input", "an input changed from %s to %s", r.in.c_str(), g.snap_strvec(r.sv).c_str());
		}
		// the grammars answer as before; then results are released in any order
		{
			NoFault nf;
			for (auto &r : all) {
				struct ec_pnode *p = r.p;
				struct ec_comp *c = r.c;
				perform(r, r.again, false);
				r.p = p;
				r.c = c;
				CHECK(r.again == r.before, "isolation", "grammar", "using grammars changed one: %s gives %s, before %s", r.in.c_str(), r.again.c_str(), r.before.c_str());
			}
			std::vector<size_t> ord;
			for (size_t i = 0; i < all.size(); i++) ord.insert(ord.begin() + (long)S.draw((uint32_t)i + 1), i);
			for (size_t i : ord) {
				Req &r = all[i];
				ec_pnode_free(r.p);
				ec_comp_free(r.c);
				r.p = nullptr;
				r.c = nullptr;
				for (auto &q : all)
					if (q.p || q.c) CHECK(result(g, q) == q.got, "isolation", "kept", "releasing a result changed another one: %s became %s", q.got.c_str(), result(g, q).c_str());
			}
			for (auto &r : all) ec_strvec_free(r.sv);
		}
		g.check_handles();
		CHECK(alloc_live() == a0, "leak", "round", "memory remains after a round of requests:%s", alloc_live_desc().c_str());
		stats.probes["rounds"]++;
		stats.probes["requests"] += all.size();
		S.op_repeatable = true;
		if (S.draw(6) == 0) { NoFault nf; g.op_combine(-1); S.op_repeatable = false; }
		if (S.draw(8) == 0) { NoFault nf; g.op_fs(); S.op_repeatable = false; }
	}
	void teardown() override { { NoFault nf; ec_node_free(xp); } g.finish(); }
};
World *mk_conc(const std::string &) { return new ConcWorld(); }
REGISTER_WORLD("conc", mk_conc, "several activities using the same grammars, preempted at every call to the environment");
} // namespace
