// World "init": an application that initialises, uses and shuts down the
// library again and again, with modules of its own in the initialisation list.
#include "gram.h"
using namespace sim;
using namespace model;

namespace {
// modules of the simulated application; registered once per process, inactive
// outside this world
enum { NM = 6 };
bool active = false;
bool up[NM];
std::vector<int> trace;         // +i+1: module i initialised, -i-1: shut down
int failed_mod = -1;

// commands and conditions using every operator and every function
bool library_usable(std::string *why, bool all = false)
{
	NoFault nf;
	static const struct { const char *cmd; std::vector<const char *> in; } cmds[] = {
		{ "show [brief|full] x*", { "show", "full", "x" } },
		{ "(a|b),c d+", { "c", "b", "d", "d" } },
		{ "foo* [bar]", {} },
	};
	static const char *conds[] = {
		"cmp(eq, count(find(root(), id)), 0)",
		"or(bool(first_child(root())), cmp(ne, count(current()), 7))",
		"and(bool(root()), cmp(ge, count(first_child(root())), 0))",
	};
	auto in = [](const std::vector<const char *> &t) {
		struct ec_strvec *v = ec_strvec();
		for (auto x : t) ec_strvec_add(v, x);
		return v;
	};
	bool ok = true;
	for (auto &x : cmds) {
		struct ec_node *n = __ec_node_cmd(EC_NO_ID, x.cmd, EC_VA_END);
		if (!n) { *why = std::string("the command ") + x.cmd + " cannot be compiled"; ok = false; continue; }
		struct ec_strvec *v = in(x.in);
		struct ec_pnode *p = ec_parse_strvec(n, v);
		if (!p || !ec_pnode_matches(p)) { *why = std::string("the command ") + x.cmd + " does not parse"; ok = false; }
		ec_pnode_free(p);
		if (!x.in.empty()) {
			struct ec_comp *k = ec_complete_strvec(n, v);
			if (!k) { *why = "a command does not complete"; ok = false; }
			ec_comp_free(k);
		}
		ec_strvec_free(v);
		ec_node_free(n);
		if (!all) break;
	}
	for (auto x : conds) {
		struct ec_node *c = ec_node_cond(EC_NO_ID, x, ec_node_str(EC_NO_ID, "a"));
		if (!c) { *why = std::string("the condition ") + x + " cannot be compiled"; ok = false; continue; }
		struct ec_strvec *v = in({ "a" });
		struct ec_pnode *p = ec_parse_strvec(c, v);
		if (!p || !ec_pnode_matches(p)) { *why = std::string("the condition ") + x + " does not evaluate"; ok = false; }
		ec_pnode_free(p);
		ec_strvec_free(v);
		ec_node_free(c);
		if (!all) break;
	}
	return ok;
}
const unsigned prio[NM] = { 90, 10, 60, 99, 60, 75 };
int mod_init(int i)
{
	if (!active) return 0;
	if (S.fault(K_CB)) { failed_mod = i; errno = EIO; return -1; }
	if (up[i]) violate("result", "order", "the module of priority %u was initialised twice", prio[i]);
	std::string why;
	if (prio[i] > 75 && !library_usable(&why))
		violate("result", "usable", "the library is not usable when the module of priority %u is initialised: %s", prio[i], why.c_str());
	up[i] = true;
	trace.push_back(i + 1);
	return 0;
}
void mod_exit(int i)
{
	if (!active) return;
	std::string why;
	if (up[i] && prio[i] > 75 && !library_usable(&why))
		violate("result", "usable", "the library is not usable any more when the module of priority %u is shut down: %s", prio[i], why.c_str());
	up[i] = false;
	trace.push_back(-i - 1);
}
template <int I> int t_init() { return mod_init(I); }
template <int I> void t_exit() { mod_exit(I); }
struct ec_init mods[NM];
template <int I> void reg()
{
	mods[I].init = t_init<I>;
	mods[I].exit = t_exit<I>;
	mods[I].priority = prio[I];
	ec_init_register(&mods[I]);
}
void reg_all()
{
	static bool done = false;
	if (done) return;
	done = true;
	reg<0>(); reg<1>(); reg<2>(); reg<3>(); reg<4>(); reg<5>();
}

struct InitWorld : World {
	Gram g;
	bool lib_up = false, was_up = false;
	size_t base = 0;
	std::vector<int> order;

	bool own_init() override { return true; }
	void setup() override
	{
		reg_all();
		active = true;
		simfs::reset();
		for (auto &u : up) u = false;
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_REGEX | 1u << K_CB, 4, 40);
		S.p_fault = 60 + S.draw(120);
		g.allow_file = false;
	}
	void op_init()
	{
		S.opname = "init";
		size_t a0 = alloc_live();
		trace.clear();
		failed_mod = -1;
		errno = 0;
		int r = ec_init();
		int e = errno;
		S.ev("init -> %d", r);
		// what was called, in which order
		std::vector<int> in, out;
		bool bad = false;
		for (int t : trace) {
			if (t > 0) { in.push_back(t - 1); if (!out.empty()) bad = true; }
			else out.push_back(-t - 1);
		}
		for (size_t i = 1; i < in.size(); i++)
			CHECK(prio[in[i - 1]] <= prio[in[i]], "result", "order", "the module of priority %u was initialised after the one of priority %u", prio[in[i]], prio[in[i - 1]]);
		if (r == 0) {
			CHECK(failed_mod < 0, "result", "init", "initialisation succeeded although the module of priority %u failed", prio[failed_mod]);
			CHECK(in.size() == NM && out.empty(), "result", "init", "initialisation succeeded with %zu of %d application modules initialised", in.size(), (int)NM);
			std::string why;
			CHECK(library_usable(&why, true), "result", "usable", "initialisation succeeded but %s", why.c_str());
			lib_up = was_up = true;
			order = in;
			base = alloc_live();
			stats.probes["init_ok"]++;
			return;
		}
		CHECK(S.faulted(), "spurious", "init", "initialisation failed without any fault");
		CHECK(r == -1, "result", "init", "initialisation returned %d", r);
		CHECK(e != 0, "result", "errno", "initialisation failed without setting errno");
		CHECK(!bad, "atomicity", "init", "a module was initialised after others were shut down");
		for (int i = 0; i < NM; i++)
			CHECK(!up[i], "atomicity", "init", "initialisation failed but left the module of priority %u initialised", prio[i]);
		CHECK(alloc_live() == a0, "atomicity", "init", "initialisation failed but left memory allocated:%s", alloc_live_desc().c_str());
		std::vector<int> rev(in.rbegin(), in.rend());
		CHECK(out == rev, "atomicity", "init", "modules were not shut down in reverse order of initialisation after a failure");
		stats.probes["init_failed"]++;
	}
	void op_exit()
	{
		S.opname = "exit";
		{ NoFault nf; g.finish(); g.kept.clear(); }
		trace.clear();
		ec_exit();
		S.ev("exit");
		CHECK(alloc_live() == 0, "leak", "exit", "memory remains allocated after shutdown:%s", alloc_live_desc().c_str());
		CHECK(g_regex_live == 0, "leak", "exit", "%d compiled patterns remain after shutdown", g_regex_live);
		if (lib_up) {
			std::vector<int> rev(order.rbegin(), order.rend()), out;
			for (int t : trace) out.push_back(-t - 1);
			CHECK(out == rev, "result", "order", "modules were not shut down once each, in reverse order of initialisation");
		}
		lib_up = false;
	}
	void op_register()
	{
		S.opname = "malloc_register";
		errno = 0;
		struct ec_malloc_handler h = ec_malloc_handler;
		int r;
		if (S.draw(2)) {
			r = ec_malloc_register(S.draw(2) ? nullptr : h.malloc, nullptr, h.realloc);
			CHECK(r == -1 && errno == EINVAL, "result", "register", "an incomplete allocator was accepted (%d)", r);
		} else if (was_up) {
			r = ec_malloc_register(h.malloc, h.free, h.realloc);
			CHECK(r == -1 && errno == EBUSY, "result", "register", "the allocator could be changed after initialisation (%d)", r);
		}
		CHECK(h.malloc == ec_malloc_handler.malloc && h.free == ec_malloc_handler.free && h.realloc == ec_malloc_handler.realloc, "result", "register", "a refused allocator was installed");
		S.ev("malloc_register");
	}
	void step() override
	{
		if (!lib_up) {
			if (S.draw(12) == 0) op_exit(); // shutting down what is not up is harmless
			else if (S.draw(10) == 0) op_register();
			else op_init();
			return;
		}
		uint32_t k = S.draw(16);
		if (k < 5) op_exit();
		else if (k < 6) op_register();
		else if (k < 8) g.op_leaf();
		else if (k < 10) g.op_combine(S.draw(2) ? CMD : COND);
		else if (k < 12) g.op_combine(-1);
		else if (k < 14) { if (g.pick()) g.op_parse(g.pick()); }
		else { if (g.pick()) g.op_complete(g.pick()); }
	}
	void teardown() override
	{
		NoFault nf;
		op_exit();
		op_init();
		CHECK(lib_up, "result", "init", "the library could not be initialised again");
		op_exit();
		active = false;
	}
};
World *mk_init(const std::string &) { return new InitWorld(); }
REGISTER_WORLD("init", mk_init, "an application initialising, using and shutting down the library repeatedly");
} // namespace
