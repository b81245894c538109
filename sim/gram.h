// Simulated application building, changing, sharing, using and releasing
// grammars, with a reference model in lock step.
#pragma once
#include "sim.h"
#include "model.h"
#include "fs.h"

// configuration value of the model
struct CV { int t = 0; std::string s; int64_t i = 0; model::N *n = nullptr; std::vector<CV> l; std::map<std::string, CV> d; };
CV cvs(const std::string &s);
CV cvi(int t, int64_t v);

struct Gram {
	typedef model::N N;
	std::vector<std::unique_ptr<N>> pool;   // every model node (user and internal)
	std::vector<N *> hs;                    // user nodes with at least one application handle
	std::vector<char> dead;                 // destruction table, indexed by token
	struct Kept { N *root; struct ec_pnode *p; struct ec_comp *c; std::string snap; std::vector<N *> pins; };
	std::vector<Kept> kept;
	bool allow_invalid = true, allow_dyn = true, allow_file = true, allow_cond = true, allow_lex = true, allow_cmd = true,
	     allow_expr = true, allow_null = true, allow_x = false,
	     big = false; // long words, many children, long inputs
	size_t fam = 0;      // not 0: many words share a beginning of this length

	// ---- model helpers
	N *mknode(model::T t, const std::string &id, struct ec_node *real);
	void succ(const N *n, std::vector<N *> &o) const;
	bool reaches(const N *from, const N *to) const;
	void check_lifetime(const char *where);
	bool nullable_loop(const N *n) const;

	// ---- application helpers
	N *pick();                      // live handle or null
	N *pick_type(model::T t);
	struct ec_node *give(N *n);     // reference handed over to the library
	struct ec_node *track(N *n);
	N *pick_child(N *parent = nullptr); // child candidate (creates a leaf if needed)
	N *new_leaf(bool nofault);
	void drop(N *n);                // release one handle
	std::string rnd_id(), fam_text(), rnd_text(), rnd_cond(), rnd_cmd();

	// ---- tokens
	void derive(const N *n, std::vector<std::string> &o, int depth);
	std::vector<std::string> tokens(const N *n, bool for_complete);

	// ---- operations
	void op_leaf();
	void op_bare();
	void op_cond_scene();
	void op_lex_scene();
	void op_combine(int kind);      // -1: random
	void op_mutate(bool cyc);
	void op_set_config(N *n);
	void apply_conf(N *n, CV &c, const std::vector<N *> &chs, N *inner);
	void op_handle();
	void op_parse(N *n);
	void op_complete(N *n, const std::vector<std::string> *with = nullptr);
	void op_query();
	void op_getval();               // value of an integer text
	void query_children(N *n);
	void query_dump(N *n);
	void query_node_list();         // lists of nodes in configurations, as node types use them
	bool pin(N *root, Kept &k);     // keeps every node a result may refer to
	void unpin(Kept &k);
	void op_drop_kept();
	void op_fs();
	void op_merge();
	void probe_node(N *n);          // after a failed change: must behave as before
	void finish();                  // release everything
	void check_handles();           // filesystem handles

	// ---- comparison
	static void cmp_tree(const model::PT *m, const struct ec_pnode *p, const char *what);
	std::string snap_parse(const struct ec_pnode *p);
	std::string snap_kept(const struct ec_pnode *p, const struct ec_comp *c);
	std::string snap_comp(const struct ec_comp *c);
	static std::string snap_strvec(const struct ec_strvec *v);
	static struct ec_strvec *mkvec(const model::Toks &t);
	std::string conf_str(const struct ec_config *c);
};
std::string model_comp_str(model::Comp &mc);
