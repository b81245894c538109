// Executable reference model of libecoli grammars: what a grammar denotes for
// parsing and completion, written independently of the library's data
// structures (value-semantics tokens, explicit parse trees, no allocation
// failure). Real nodes are compared by pointer when the model knows it.
#pragma once
#include "sim.h"

namespace model {

struct Tok { std::string s; std::set<std::string> attrs; };
typedef std::vector<Tok> Toks;
enum T { STR, INT, UINT, ANY, EMPTY, NONE, SPACE, RE, FILE_, SEQ, OR, MANY, OPTION, ONCE, SUBSET, BYPASS, DYN, COND,
	SH_LEX, RE_LEX, CMD, EXPR, XLEAF, XPAIR, T_N };
extern const char *type_name[T_N];

struct Pat { std::string re; bool keep; bool has_attr; std::string attr; };
struct N {
	T t;
	std::string id;
	struct ec_node *real = nullptr; // null: internal node, compared by type/id
	bool conf = false;              // configured
	bool has_attr = false;          // any
	std::string text;               // str, regex, any attr, cmd, cond
	bool has_min = false, has_max = false;
	int64_t min = 0, max = 0;       // int/uint bounds (bits)
	unsigned base = 0;
	unsigned mn = 0, mx = 0;        // many
	std::vector<N *> ch;            // children
	std::vector<Pat> pats;
	N *val = nullptr;               // expr
	std::vector<N *> bin, pre, post, open, close;
	N *inner = nullptr;             // grammar built by cmd/expr
	int dynmode = 0;                // dynamic, application-defined leaf
	// lifetime
	int ext = 0;                    // references held by the application
	int token = -1;                 // index in the destruction table
	bool dead = false;
	bool mark = false;
};

const int NOMATCH = INT_MAX;
const int ERR = -1;
struct Limit {}; // thrown when the model exceeds its exploration budget

struct PT {
	const N *n;
	PT *parent = nullptr;
	std::vector<PT *> ch;
	bool has = false;
	Toks v;
};

struct Item { const N *n; int type; bool has_full = false, has_comp = false; std::string full, comp, disp; int grp = 0; };
struct Comp {
	std::vector<Item> items;
	std::vector<std::string> grp_state; // serialised parse state per group
	std::vector<const N *> grp_node;
	PT *cur = nullptr;
	int cur_grp = -1;
};

struct FileEntry { std::string name; int dtype; bool is_dir; };
// directory listing provider: returns ERR or 0; not_dir set when not a directory
extern int (*list_dir)(const std::string &dir, bool *not_dir, std::vector<FileEntry> *out);

struct Ctx {
	std::vector<std::unique_ptr<PT>> pts;
	std::vector<std::unique_ptr<N>> ns;
	long steps = 0, max_steps = 6000;
	int depth = 0, max_depth = 90;
	PT *newpt(const N *n);
	N *newn(T t, const std::string &id);
	void tick();
};

int parse_child(Ctx &c, const N *n, PT *st, const Toks &v);
// parse from the root; *out receives the root tree
int parse_root(Ctx &c, const N *n, const Toks &v, PT **out);
int complete_child(Ctx &c, const N *n, Comp &comp, const Toks &v);

std::string ser(const PT *t, const PT *mark);       // model tree -> text
std::string ser_real(const struct ec_pnode *p, const struct ec_pnode *mark);
extern bool ser_text;                               // include the text of string nodes
// value of an integer text for an int/uint node; false if it does not match
bool int_value(const N *n, const std::string &s, uint64_t *val);
std::string node_name(const N *n);
Toks toks(const std::vector<std::string> &v);

// shell-like lexer of the reference; returns 0 or -1 (unclosed quote in strict mode)
int sh_lex(const std::string &s, bool strict, bool trailsp, std::vector<std::string> *out, char *missing);
bool regex_full(const std::string &re, const std::string &s, bool *bad);
bool regex_prefix(const std::string &re, const std::string &s, size_t *len);
bool regex_valid(const std::string &re);

// builds the inner grammar of an expression node; null if incomplete
N *build_expr(std::vector<std::unique_ptr<N>> &pool, const N *e);
// compiles a command string; null if the string is invalid
N *build_cmd(std::vector<std::unique_ptr<N>> &pool, const std::string &s, const std::vector<N *> &children);
// condition expressions: 0/1, or ERR
int eval_cond(const std::string &cond, const PT *st);
bool cond_valid(const std::string &cond);
bool lex_cmd(const std::string &s, std::vector<std::string> *out);
} // namespace model
