// World "grammar": one simulated application using grammars, all variants.
#include "gram.h"
#include "xtype.h"
using namespace sim;
using namespace model;

struct GrammarWorld : World {
	std::string v;
	Gram g;
	// weights: leaf bare combine mutate config handle parse complete query drop fs merge special
	int w[13] = { 6, 1, 10, 4, 2, 4, 12, 8, 2, 2, 0, 0, 0 };
	bool cyc = false;
	std::vector<int> special;
	explicit GrammarWorld(const std::string &variant) : v(variant) {}

	void setw(std::initializer_list<int> l) { int i = 0; for (int x : l) w[i++] = x; }
	void setup() override
	{
		simfs::reset();
		xtype::ensure();
		xtype::reset();
		uint32_t kinds = 1u << K_ALLOC | 1u << K_REALLOC | 1u << K_REGEX | 1u << K_CB | 1u << K_FS;
		g.allow_file = g.allow_cond = g.allow_lex = g.allow_cmd = g.allow_expr = g.allow_dyn = false;
		uint32_t mn = 6, mx = 60;
		g.big = S.draw(6) == 0;
		static const size_t fams[] = { 1, 7, 9, 15, 16, 17, 31, 33, 64, 130 };
		if (S.draw(8) == 0) g.fam = fams[S.draw(10)];
		if (v == "parse") setw({ 6, 1, 12, 3, 1, 3, 20, 0, 1, 2, 0, 0, 0 });
		else if (v == "complete") { setw({ 6, 1, 12, 3, 1, 3, 2, 18, 1, 2, 0, 2, 0 }); }
		else if (v == "construct") { setw({ 6, 3, 14, 14, 10, 6, 2, 1, 2, 1, 0, 0, 8 }); g.allow_lex = g.allow_cond = g.allow_cmd = g.allow_expr = true; special = { COND, SH_LEX, RE_LEX, CMD }; }
		else if (v == "life") { setw({ 5, 1, 12, 12, 4, 14, 2, 1, 1, 2, 0, 0, 3 }); g.allow_lex = g.allow_cond = g.allow_cmd = g.allow_expr = true; special = { COND, SH_LEX, RE_LEX, CMD }; cyc = true; g.allow_invalid = false; }
		else if (v == "cond") { setw({ 6, 1, 8, 2, 5, 3, 14, 5, 1, 2, 0, 0, 14 }); g.allow_cond = true; special = { COND }; }
		else if (v == "cmd") { setw({ 6, 1, 5, 1, 6, 3, 14, 6, 1, 2, 0, 0, 14 }); g.allow_cmd = true; special = { CMD }; }
		else if (v == "lex") { setw({ 6, 1, 8, 6, 4, 3, 14, 10, 1, 2, 0, 0, 12 }); g.allow_lex = true; special = { SH_LEX, SH_LEX, RE_LEX }; }
		else if (v == "expr") { setw({ 6, 3, 3, 14, 0, 2, 14, 4, 1, 2, 0, 0, 0 }); g.allow_expr = true; }
		else if (v == "dyn") { setw({ 8, 0, 12, 3, 1, 3, 14, 14, 1, 2, 0, 2, 0 }); g.allow_dyn = true; }
		else if (v == "ext") { setw({ 8, 2, 8, 3, 4, 5, 12, 14, 3, 3, 0, 2, 8 }); g.allow_x = g.allow_lex = true; special = { XPAIR, XPAIR, XPAIR, SH_LEX }; }
		else if (v == "inspect") { setw({ 6, 3, 12, 5, 3, 3, 1, 1, 26, 0, 0, 0, 6 }); g.allow_lex = g.allow_cond = g.allow_cmd = g.allow_expr = g.allow_x = true; special = { COND, SH_LEX, RE_LEX, CMD, XPAIR }; cyc = S.draw(3) == 0; }
		else if (v == "file") { setw({ 5, 0, 6, 1, 0, 2, 1, 24, 0, 2, 8, 1, 2 }); g.allow_file = g.allow_lex = true; special = { SH_LEX }; }
		else { // mix
			setw({ 6, 2, 10, 6, 4, 4, 12, 8, 2, 2, 2, 1, 6 });
			g.allow_file = g.allow_cond = g.allow_lex = g.allow_cmd = g.allow_expr = g.allow_dyn = true;
			special = { COND, SH_LEX, RE_LEX, CMD, XPAIR };
			g.allow_x = true;
			cyc = S.draw(4) == 0;
		}
		if (g.allow_file) { simfs::populate(); simfs::install_model(); }
		S.configure(kinds, mn, mx);
		// a few nodes to start with, built without faults
		uint32_t k = 2 + S.draw(5);
		NoFault nf;
		for (uint32_t i = 0; i < k; i++) g.new_leaf(true);
	}
	void step() override
	{
		int tot = 0;
		for (int x : w) tot += x;
		int r = (int)S.draw((uint32_t)tot), i = 0;
		while (r >= w[i]) r -= w[i++];
		if (g.hs.size() > 24 && i <= 2) i = 5;
		if (v == "ext" && S.draw(24) == 0) { xtype::op_register(); return; }
		if (v == "cond" && g.hs.size() < 16 && S.draw(6) == 0) { g.op_cond_scene(); return; }
		if ((v == "lex" || v == "mix") && g.hs.size() < 16 && S.draw(v == "lex" ? 10 : 30) == 0) { g.op_lex_scene(); return; }
		switch (i) {
		case 0: g.op_leaf(); break;
		case 1: g.op_bare(); break;
		case 2: g.op_combine(-1); break;
		case 3: g.op_mutate(cyc && S.draw(3) == 0); break;
		case 4: g.op_set_config(g.pick()); break;
		case 5: g.op_handle(); break;
		case 6: g.op_parse(target()); break;
		case 7: g.op_complete(target()); break;
		case 8: g.op_query(); break;
		case 9: g.op_drop_kept(); break;
		case 10: g.op_fs(); break;
		case 11: g.op_merge(); break;
		case 12: g.op_combine(special[S.draw((uint32_t)special.size())]); break;
		}
	}
	// prefer the most recently built grammars: they are the largest
	N *target()
	{
		if (g.hs.empty()) return nullptr;
		if (S.draw(2)) return g.pick();
		size_t n = g.hs.size();
		size_t k = n < 5 ? n : 5;
		return g.hs[n - 1 - S.draw((uint32_t)k)];
	}
	void teardown() override { g.finish(); }
};
static World *mk_grammar(const std::string &v) { return new GrammarWorld(v); }
REGISTER_WORLD("grammar", mk_grammar, "an application building, changing, parsing, completing and releasing grammars");
