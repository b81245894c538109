// World "edit": interactive sessions over a simulated line editor and terminal.
#include "gram.h"
#include "xtype.h"
#include "edstub.h"
using namespace sim;
using namespace model;
using ed::Key;

namespace {
std::string out_text, err_text;
// A stream whose write failed stays broken until the request is over (otherwise the C library goes on to write what
// happens to be in its own temporary buffer, which is not the same from one process to the next).
bool broken;
ssize_t o_write(void *to, const char *b, size_t n)
{
	if (broken || S.fault(K_STDIO)) { broken = true; errno = EIO; return -1; }
	((std::string *)to)->append(b, n);
	return (ssize_t)n;
}
FILE *mkout(std::string *to)
{
	cookie_io_functions_t f = { nullptr, o_write, nullptr, nullptr };
	FILE *r = fopencookie(to, "w", f);
	setvbuf(r, nullptr, _IONBF, 0);
	return r;
}
typedef std::vector<std::pair<std::string, std::string>> Helps;

struct EditWorld : World {
	Gram g;
	FILE *in = nullptr, *out = nullptr, *err = nullptr;
	struct ec_editline *el = nullptr;
	N *node = nullptr;
	std::string prompt;
	bool has_hist = false, bound = false;
	std::deque<std::string> hist;
	size_t hist_size = 0;
	std::string hist_file;
	// expectation for the key being handled
	bool x_err = false;
	std::string x_buf, x_ins, x_out;
	int x_items = 0;
	uint32_t x_fired = 0;

	void setup() override
	{
		ed::reset();
		simfs::reset();
		g.allow_null = g.allow_invalid = false;
		g.allow_expr = false;
		static const size_t fams[] = { 1, 7, 9, 15, 16, 17, 31, 33, 64, 130 };
		if (S.draw(5) == 0) g.fam = fams[S.draw(10)];
		g.allow_x = S.draw(3) == 0;
		g.allow_file = S.draw(4) == 0;
		if (g.allow_file) { simfs::populate(); simfs::install_model(); }
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_LIBC | 1u << K_TERM | 1u << K_STDIO | 1u << K_CB, 4, 30);
		NoFault nf;
		in = mkout(&err_text); out = mkout(&out_text); err = mkout(&err_text);
		xtype::ensure();
		xtype::reset();
		uint32_t n = 3 + S.draw(10);
		for (uint32_t i = 0; i < n; i++) {
			if (S.draw(3) == 0) g.op_leaf();
			else if (S.draw(8) == 0) g.op_combine(S.draw(2) ? CMD : COND);
			else g.op_combine(g.allow_x && S.draw(5) == 0 ? XPAIR : -1);
		}
		n = 1 + S.draw(2);
		for (uint32_t i = 0; i < n; i++) g.op_combine(SH_LEX);
		for (auto h : g.hs)
			if (S.draw(3) == 0) {
				static const char *hp[] = { "first help", "second help", "", "help of a node" };
				ec_dict_set(ec_node_attrs(h->real), "help", ec_strdup(hp[S.draw(4)]), ec_free_func);
			}
		ed::before = [this](EditLine *e, int c) { key_before(e, c); };
		ed::after = [this](EditLine *e, int c, int r) { key_after(e, c, r); };
		ed::cheap = [this](const std::string &l) { return cheap(node, l); };
		ed::app = [this](EditLine *) { app_key(); };
		static const int w[] = { 80, 20, 1, 0, 132 };
		ed::term_width = w[S.draw(5)];
	}
	// a bound on the work a line may cause: matching can be exponential in
	// the nesting of repetitions, which is not what this world looks for
	static double weight(const N *n, int depth = 0)
	{
		if (depth > 12) return 1e9;
		double w = 1;
		for (auto c : n->ch) if (c) w += weight(c, depth + 1);
		if (n->inner) w += weight(n->inner, depth + 1);
		if (n->t == MANY) w *= 3;
		if (n->t == OPTION || n->t == OR) w *= 1.3;
		if (n->t == SUBSET) for (size_t i = 2; i <= n->ch.size() && i < 6; i++) w *= (double)i;
		return w;
	}
	// the reference model gives up on lines which are too much work
	static bool cheap(N *n, const std::string &line)
	{
		if (!n) return true;
		Toks t(1);
		t[0].s = line.c_str();
		Ctx c;
		c.max_steps = 3000;
		PT *p = nullptr;
		Comp k;
		try { parse_root(c, n, t, &p); complete_child(c, n, k, t); } catch (Limit &) { return false; }
		return k.items.size() < 400;
	}
	N *target()
	{
		for (int i = 0; i < 6; i++) {
			N *n = S.draw(4) ? g.pick_type(SH_LEX) : nullptr;
			if (!n) n = g.pick();
			if (n && weight(n) < 80 && cheap(n, el ? ed::buffer(ec_editline_get_el(el)) : "")) return n;
		}
		return nullptr;
	}

	// ---- expectations, from the same requests made without faults
	static Helps helps(const struct ec_node *n, const std::string &line, const std::string &full, bool *bad)
	{
		NoFault nf;
		Helps h;
		struct ec_pnode *p = ec_parse(n, full.c_str());
		if (p && ec_pnode_matches(p)) h.push_back({ "<return>", "Validate command." });
		ec_pnode_free(p);
		struct ec_comp *c = ec_complete(n, line.c_str());
		*bad = !c;
		if (!c) return h;
		const struct ec_comp_group *prev = nullptr;
		struct ec_comp_item *it;
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			const struct ec_comp_group *grp = ec_comp_item_get_grp(it);
			if (grp == prev) continue;
			prev = grp;
			std::string desc, help;
			bool hd = false, hh = false;
			for (const struct ec_pnode *s = ec_comp_group_get_pstate(grp); s; s = ec_pnode_get_parent(s)) {
				const struct ec_node *nd = ec_pnode_get_node(s);
				if (!hd) { char *d = ec_node_desc(nd); desc = d ? d : ""; ec_free(d); hd = true; }
				const char *x = (const char *)ec_dict_get(ec_node_attrs(nd), "help");
				if (!hh && x) { help = x; hh = true; }
			}
			h.push_back({ desc, help });
		}
		ec_comp_free(c);
		return h;
	}
	// the layout of a list of words in columns, as the terminal is wide
	static std::string cols(std::vector<std::string> disp)
	{
		std::string o = "\n";
		std::stable_sort(disp.begin(), disp.end(), [](const std::string &a, const std::string &b) { return strcasecmp(a.c_str(), b.c_str()) < 0; });
		size_t mx = 0;
		for (auto &d : disp) mx = std::max(mx, d.size());
		size_t cols = (size_t)ed::term_width / (mx + 4);
		if (!cols) cols = 1;
		for (size_t i = 0; i < disp.size(); i++) {
			o += (i % cols ? "    " : "") + fmt("%-*s", (int)mx, disp[i].c_str());
			if (i % cols == cols - 1 || i + 1 == disp.size()) o += "\n";
		}
		return o;
	}
	void key_before(EditLine *e, int c)
	{
		x_buf = ed::buffer(e);
		size_t cur = ed::cursor(e);
		std::string line = x_buf.substr(0, cur);
		x_ins.clear();
		x_out.clear();
		x_err = false;
		x_items = 0;
		out_text.clear();
		broken = false;
		err_text.clear();
		xtype::tolerated = 0;
		x_fired = S.fired;
		if (!node) { x_err = true; return; }
		NoFault nf;
		struct ec_comp *k = ec_complete(node->real, line.c_str());
		if (!k) { x_err = true; return; }
		std::vector<std::string> disp, comp;
		struct ec_comp_item *it;
		EC_COMP_FOREACH(it, k, EC_COMP_ALL) {
			if (ec_comp_item_get_type(it) == EC_COMP_UNKNOWN) continue;
			disp.push_back(ec_comp_item_get_display(it));
			const char *cs = ec_comp_item_get_completion(it); // none if the token is not a prefix of the item
			comp.push_back(cs ? cs : "");
		}
		ec_comp_free(k);
		x_items = (int)disp.size();
		if (c == '?') {
			bool bad;
			Helps h = helps(node->real, line, x_buf, &bad);
			x_out = "\n";
			for (auto &x : h) x_out += fmt("%-20s %s\n", x.first.c_str(), x.second.c_str());
			return;
		}
		std::string pre = comp.empty() ? "" : comp[0];
		for (auto &s : comp) {
			size_t i = 0;
			while (i < pre.size() && i < s.size() && pre[i] == s[i]) i++;
			pre.resize(i);
		}
		if (!pre.empty()) {
			x_ins = pre + (comp.size() == 1 ? " " : "");
			return;
		}
		x_out = cols(disp);
	}
	void key_after(EditLine *e, int c, int r)
	{
		std::string op = S.opname;
		S.opname = c == '?' ? "key_help" : "key_tab";
		bool f = S.fired != x_fired;
		bool tol = xtype::tolerated > 0; // a callback of the application carried on with fewer items
		std::string now = ed::buffer(e);
		size_t cur = ed::cursor(e);
		S.ev("%s on %s -> %d, buffer %s, output %s", S.opname.c_str(), quote(x_buf).c_str(), r, quote(now).c_str(), quote(out_text).c_str());
		size_t ins = now.size() - x_buf.size();
		size_t at = cur - ins;
		bool shape = now.size() >= x_buf.size() && cur >= ins && now.substr(0, at) + now.substr(cur) == x_buf;
		CHECK(shape, "result", "buffer", "the key altered what was typed: %s became %s", quote(x_buf).c_str(), quote(now).c_str());
		std::string got = now.substr(at, ins);
		if (!f) {
			CHECK(got == x_ins, "result", "insert", "completing %s inserted %s, expected %s", quote(x_buf).c_str(), quote(got).c_str(), quote(x_ins).c_str());
			if (x_err) {
				CHECK(r == CC_ERROR, "result", "error", "completing %s with an unusable grammar did not report an error (%d)", quote(x_buf).c_str(), r);
				CHECK(out_text.empty(), "result", "error", "a failed request wrote %s to the output of the session instead of its error stream", quote(out_text).c_str());
			}
			else {
				CHECK(out_text == x_out, "result", "display", "on %s: displayed %s, expected %s", quote(x_buf).c_str(), quote(out_text).c_str(), quote(x_out).c_str());
				CHECK(r == (x_ins.empty() ? CC_REDISPLAY : CC_REFRESH), "result", "refresh", "on %s: the key returned %d to the line editor", quote(x_buf).c_str(), r);
			}
			stats.probes["key_ok"]++;
		} else if (!tol)
			CHECK(got.empty() || got == x_ins || (got + " " == x_ins && x_items == 1), "result", "insert",
				"completing %s under failures inserted %s, expected %s or nothing", quote(x_buf).c_str(), quote(got).c_str(), quote(x_ins).c_str());
		S.opname = op;
	}
	void cmp_helps(const Helps &want, const struct ec_editline_help *h, ssize_t n, const char *what)
	{
		CHECK((size_t)n == want.size(), "result", what, "%s: %zd entries, expected %zu", what, n, want.size());
		for (size_t i = 0; i < want.size(); i++)
			CHECK(want[i].first == h[i].desc && want[i].second == h[i].help, "result", what, "%s: entry %zu is %s/%s, expected %s/%s", what, i, h[i].desc, h[i].help, want[i].first.c_str(), want[i].second.c_str());
	}
	void app_key(bool direct = false)
	{
		EditLine *e = ec_editline_get_el(el);
		std::string whole = ed::buffer(e), buf = whole.c_str(), line = whole.substr(0, ed::cursor(e)).c_str();
		std::string op = S.opname;
		uint32_t f0 = S.fired;
		switch (S.draw(direct ? 7 : 4)) {
		case 4: case 5: direct_comp(line); break;
		case 6: direct_print(); break;
		case 0: {
			S.opname = "curline";
			bool trim = S.draw(2);
			char *l = ec_editline_curline(el, trim);
			S.ev("curline -> %s", l ? l : "null");
			if (!l) CHECK(S.fired != f0, "spurious", "curline", "getting the current line failed without any fault");
			else CHECK((trim ? line : buf) == l, "result", "curline", "current line is %s, expected %s", l, (trim ? line : buf).c_str());
			ec_free(l);
			break;
		}
		case 1: {
			if (!node) break;
			S.opname = "get_helps";
			struct ec_editline_help *h = nullptr;
			bool bad;
			Helps want = helps(node->real, line, buf, &bad);
			ssize_t n = ec_editline_get_helps(el, line.c_str(), buf.c_str(), &h);
			S.ev("helps %s -> %zd", quote(line).c_str(), n);
			if (n < 0) CHECK(S.fired != f0 || bad, "spurious", "helps", "getting helps failed without any fault");
			else {
				CHECK(!bad, "result", "helps", "helps were returned although completion fails");
				if (S.fired == f0) cmp_helps(want, h, n, "helps");
				ec_editline_free_helps(h, (size_t)n);
			}
			break;
		}
		case 2: {
			if (!node) break;
			if (std::count_if(buf.begin(), buf.end(), [](unsigned char c) { return isspace(c); }) > 80) break; // one request per position
			S.opname = "get_suggestions";
			Helps want;
			bool bad = false;
			int wpos = -1;
			{
				NoFault nf;
				for (size_t p = buf.size() + 1; p-- > 0;) {
					if (p && !isspace((unsigned char)buf[p - 1])) continue;
					std::string pre = buf.substr(0, p);
					struct ec_pnode *a = ec_parse(node->real, pre.c_str());
					struct ec_comp *c = a ? ec_complete(node->real, pre.c_str()) : nullptr;
					bool hit = a && c && (ec_pnode_matches(a) || ec_comp_count(c, EC_COMP_ALL));
					bad = !a || !c;
					ec_pnode_free(a);
					ec_comp_free(c);
					if (bad) break;
					if (hit) { wpos = (int)p; want = helps(node->real, pre, pre, &bad); break; }
				}
			}
			struct ec_editline_help *h = nullptr;
			char *full = nullptr;
			int pos = -1;
			bool wf = S.draw(2);
			ssize_t n = ec_editline_get_suggestions(el, &h, wf ? &full : nullptr, &pos);
			S.ev("suggestions %s -> %zd pos %d", quote(buf).c_str(), n, pos);
			if (n < 0) CHECK(S.fired != f0 || bad, "spurious", "suggestions", "getting suggestions for %s failed without any fault", quote(buf).c_str());
			else if (S.fired == f0) {
				CHECK(!bad, "result", "suggestions", "suggestions were returned although the grammar is unusable");
				cmp_helps(want, h, n, "suggestions");
				CHECK(pos == wpos, "result", "suggestions", "suggestions for %s are at %d, expected %d", quote(buf).c_str(), pos, wpos);
				if (wf) CHECK(full && buf == full, "result", "suggestions", "full line of the suggestions is wrong");
			}
			if (n >= 0) ec_editline_free_helps(h, (size_t)n);
			ec_free(full);
			break;
		}
		case 3: set_prompt(); break;
		}
		CHECK(ed::buffer(e) == whole, "result", "buffer", "an inquiry changed the line being edited");
		S.opname = op;
	}
	// the helpers of the session, used by the application itself
	void direct_comp(const std::string &line)
	{
		if (!node) return;
		uint32_t f0 = S.fired;
		struct ec_comp *c;
		std::vector<std::string> disp, comp;
		{
			NoFault nf;
			c = ec_complete(node->real, line.c_str());
			if (!c) return;
			struct ec_comp_item *it;
			EC_COMP_FOREACH(it, c, (enum ec_comp_type)(EC_COMP_FULL | EC_COMP_PARTIAL)) {
				const char *cs = ec_comp_item_get_completion(it);
				comp.push_back(cs ? cs : "");
				disp.push_back(ec_comp_item_get_display(it));
			}
		}
		if (S.draw(2)) {
			S.opname = "append_chars";
			std::string pre = comp.empty() ? "" : comp[0];
			for (auto &s : comp) {
				size_t i = 0;
				while (i < pre.size() && i < s.size() && pre[i] == s[i]) i++;
				pre.resize(i);
			}
			char *a = ec_editline_append_chars(c);
			S.ev("append_chars %s -> %s", quote(line).c_str(), a ? quote(a).c_str() : "null");
			if (!a) CHECK(S.fired != f0 || comp.empty(), "spurious", "append", "no characters to append to %s, expected %s", quote(line).c_str(), quote(pre).c_str());
			else CHECK(pre == a, "result", "append", "characters to append to %s are %s, expected %s", quote(line).c_str(), quote(a).c_str(), quote(pre).c_str());
			ec_free(a);
		} else {
			S.opname = "get_completions";
			char **m = nullptr;
			ssize_t n = ec_editline_get_completions(c, &m);
			S.ev("get_completions %s -> %zd", quote(line).c_str(), n);
			if (n < 0) {
				CHECK(S.fired != f0, "spurious", "completions", "listing the completions failed without any fault");
				CHECK(m == nullptr, "result", "completions", "a failed listing of completions returned a list");
			} else {
				CHECK((size_t)n == disp.size(), "result", "completions", "%zd completions listed, expected %zu", n, disp.size());
				for (ssize_t i = 0; i < n; i++) CHECK(disp[(size_t)i] == m[i], "result", "completions", "completion %zd is %s, expected %s", i, m[i], disp[(size_t)i].c_str());
				ec_editline_free_completions(m, (size_t)n);
			}
		}
		NoFault nf;
		ec_comp_free(c);
	}
	void direct_print()
	{
		static const char *words[] = { "a", "bb", "Ccc", "a", "", "longer-than-the-others", "b" };
		uint32_t n = S.draw(6);
		std::vector<std::string> l;
		for (uint32_t i = 0; i < n; i++) l.push_back(words[S.draw(7)]);
		out_text.clear();
		broken = false;
		uint32_t f0 = S.fired;
		int r;
		std::string want;
		if (S.draw(2)) {
			S.opname = "print_cols";
			std::vector<const char *> v;
			for (auto &x : l) v.push_back(x.c_str());
			want = cols(l);
			r = ec_editline_print_cols(el, v.data(), v.size());
		} else {
			S.opname = "print_helps";
			std::vector<struct ec_editline_help> v;
			for (auto &x : l) { v.push_back({ (char *)x.c_str(), (char *)"help" }); want += fmt("%-20s help\n", x.c_str()); }
			r = ec_editline_print_helps(el, v.data(), v.size());
		}
		S.ev("%s %u -> %d %s", S.opname.c_str(), n, r, quote(out_text).c_str());
		if (S.fired == f0) {
			CHECK(r >= 0, "spurious", "print", "%s failed without any fault", S.opname.c_str());
			CHECK(out_text == want, "result", "print", "%s wrote %s, expected %s", S.opname.c_str(), quote(out_text).c_str(), quote(want).c_str());
		}
	}
	void set_prompt()
	{
		S.opname = "set_prompt";
		static const char *ps[] = { "> ", "prompt# ", "", nullptr };
		const char *p = ps[S.draw(4)];
		bool esc = S.draw(2);
		uint32_t f0 = S.fired;
		int r = esc ? ec_editline_set_prompt_esc(el, p, '\1') : ec_editline_set_prompt(el, p);
		S.ev("set_prompt(%s) esc=%d -> %d", p ? p : "null", esc, r);
		if (r < 0) CHECK(S.fired != f0, "spurious", "prompt", "setting the prompt failed without any fault");
		else prompt = p ? p : "\xff";
		check_prompt();
	}
	void check_prompt()
	{
		NoFault nf;
		std::string p = ed::prompt(ec_editline_get_el(el));
		if (prompt != "\xff") CHECK(p == prompt, "result", "prompt", "the prompt is %s, expected %s", quote(p).c_str(), quote(prompt).c_str());
	}
	void check_hist(const char *what)
	{
		const std::deque<std::string> *h = ed::history_of(ec_editline_get_el(el));
		CHECK((h != nullptr) == has_hist, "result", "history", "%s: history %s", what, h ? "present but not expected" : "lost");
		if (!h) return;
		CHECK(*h == hist, "result", "history", "%s: the history has %zu lines (first %s), expected %zu (first %s)", what, h->size(), h->empty() ? "-" : quote(h->front()).c_str(),
			hist.size(), hist.empty() ? "-" : quote(hist.front()).c_str());
	}
	void op_open()
	{
		S.opname = "open";
		unsigned fl = 0;
		if (S.draw(4) == 0) fl |= EC_EDITLINE_DISABLE_SIGNALS;
		if (S.draw(4) == 0) fl |= EC_EDITLINE_DISABLE_HISTORY;
		if (S.draw(8) == 0) fl |= EC_EDITLINE_DISABLE_COMPLETION;
		if (S.draw(4) == 0) fl |= EC_EDITLINE_DEFAULT_SIGHANDLER;
		size_t a0 = alloc_live();
		bool nul = S.draw(30) == 0;
		el = ec_editline("sim", in, nul ? nullptr : out, err, fl);
		S.ev("open flags=%x -> %d", fl, el != nullptr);
		if (!el) {
			CHECK(S.faulted() || nul, "spurious", "open", "opening a session failed without any fault");
			CHECK(alloc_live() == a0 && ed::live() == 0, "atomicity", "open", "a session that failed to open left something behind:%s, %d line editor objects", alloc_live_desc().c_str(), ed::live());
			return;
		}
		CHECK(!nul, "result", "open", "a session was opened without output stream");
		EditLine *e = ec_editline_get_el(el);
		bound = !(fl & EC_EDITLINE_DISABLE_COMPLETION);
		CHECK(ed::bound(e, '\t') == bound && ed::bound(e, '?') == bound, "result", "bindings", "completion keys are not bound as asked");
		prompt = "> ";
		node = nullptr;
		has_hist = !(fl & EC_EDITLINE_DISABLE_HISTORY);
		hist.clear();
		hist_size = EC_EDITLINE_HISTORY_SIZE;
		hist_file.clear();
		check_prompt();
		check_hist("open");
	}
	void op_close()
	{
		S.opname = "close";
		ec_editline_free(el);
		S.ev("close");
		el = nullptr;
		CHECK(ed::live() == 0, "resource", "line-editor", "%d line editor objects remain after the session was closed", ed::live());
		node = nullptr;
	}
	void op_history()
	{
		S.opname = "set_history";
		static const size_t sz[] = { 0, 1, 3, 128 };
		size_t n = sz[S.draw(4)];
		static const char *fs[] = { nullptr, "/sim/h1", "/sim/h2" };
		const char *f = fs[S.draw(3)];
		int r = ec_editline_set_history(el, n, f);
		S.ev("set_history(%zu, %s) -> %d", n, f ? f : "-", r);
		if (r < 0) {
			CHECK(S.faulted(), "spurious", "history", "setting the history failed without any fault");
			// the previous history may be kept or dropped, consistently
			const std::deque<std::string> *h = ed::history_of(ec_editline_get_el(el));
			if (!h) { has_hist = false; hist.clear(); }
			else CHECK(has_hist && *h == hist, "atomicity", "history", "a failed change of history altered it");
			return;
		}
		has_hist = n > 0;
		hist.clear();
		hist_size = n;
		hist_file = n && f ? f : "";
		if (n && f && ed::files.count(f)) {
			hist = ed::files[f];
			while (hist.size() > n) hist.pop_back();
		}
		if (S.faulted()) { // loading is best effort
			const std::deque<std::string> *h = ed::history_of(ec_editline_get_el(el));
			if (h) hist = *h;
		}
		check_hist("set_history");
	}
	void op_node()
	{
		S.opname = "set_node";
		node = S.draw(8) ? target() : nullptr;
		ec_editline_set_node(el, node ? node->real : nullptr);
		CHECK(ec_editline_get_node(el) == (node ? node->real : nullptr), "result", "node", "the session does not use the node it was given");
		S.ev("set_node %s", node ? node_name(node).c_str() : "null");
	}
	void type_line(N *n)
	{
		ed::script.clear();
		std::string l;
		if (n) {
			std::vector<std::string> v = g.tokens(n, S.draw(2));
			for (auto &t : v) l += (l.empty() ? "" : " ") + t;
			for (auto &c : l) if (c == '\n' || c == '\r') c = ' '; // what a terminal takes as the end of the line
		}
		if (S.draw(6) == 0) l += " ";
		if (S.draw(12) == 0) l = "  ";
		ed::raw = S.draw(5) == 0;
		if (ed::raw && S.draw(4) == 0) l.insert(S.draw((uint32_t)l.size() + 1), 1, '\0');
		if (l.size() > 40) l.resize(40);
		if (S.draw(16) == 0) l.insert(S.draw(2) ? l.size() : 0, std::string(1 + S.draw(40), ' ') + (S.draw(2) ? std::string(S.draw(1500), 'v') + " " : ""));
		if (S.draw(40) == 0) l.insert(0, std::string(S.draw(1000), ' '));
		while (!l.empty() && (!cheap(n, l) || !cheap(node, l))) l.resize(l.size() / 2);
		if (ed::raw && S.draw(4) == 0) l += S.draw(2) ? "\r" : " \r\r";
		ed::max_len = l.size() > 40 ? l.size() + 60 : 50;
		uint32_t busy = l.size() > 100 ? 60 : 5;
		for (char c : l) {
			ed::script.push_back({ Key::CHAR, (unsigned char)c });
			if (!ed::raw && S.draw(busy) == 0) {
				static const Key ks[] = { { Key::CHAR, '\t' }, { Key::CHAR, '\t' }, { Key::CHAR, '?' }, { Key::APP, 0 }, { Key::APP, 0 }, { Key::BS, 0 }, { Key::LEFT, 0 }, { Key::RIGHT, 0 }, { Key::HOME, 0 }, { Key::END_, 0 }, { Key::UP, 0 } };
				ed::script.push_back(ks[S.draw(11)]);
			}
		}
		if (!ed::raw) {
			if (S.draw(2)) ed::script.push_back({ Key::CHAR, '\t' });
			if (S.draw(3) == 0) ed::script.push_back({ Key::CHAR, '?' });
			if (S.draw(3) == 0) ed::script.push_back({ Key::APP, 0 });
		}
		uint32_t k = S.draw(10);
		ed::script.push_back({ k == 0 ? Key::EOF_ : k == 1 && !ed::raw ? Key::INTR : Key::ENTER, 0 });
	}
	void op_gets(bool parse)
	{
		N *n = parse || S.draw(4) == 0 ? target() : node;
		if (parse && !n) return;
		if (parse) node = n;
		type_line(n);
		Key last = ed::script.back();
		EditLine *e = ec_editline_get_el(el);
		S.opname = parse ? "parse" : "gets";
		char *line = nullptr;
		struct ec_pnode *p = nullptr;
		errno = 0;
		auto files = ed::files;
		if (parse) p = ec_editline_parse(el, n->real);
		else line = ec_editline_gets(el);
		S.opname = parse ? "parse" : "gets";
		CHECK(ed::script.empty(), "result", "keys", "%zu keys were left unread", ed::script.size());
		std::string raw = ed::buffer(e), want = raw;
		bool got_line = last.k == Key::ENTER || (last.k == Key::EOF_ && ed::raw && !raw.empty());
		if (got_line && !want.empty() && want.back() == '\n') want.pop_back();
		want = want.c_str();
		if (!parse) {
			S.ev("gets -> %s", line ? quote(line).c_str() : "null");
			if (!line) CHECK(S.faulted() || !got_line, "spurious", "gets", "an accepted line %s was not delivered", quote(want).c_str());
			else {
				CHECK(got_line, "result", "line", "a line %s was delivered although none was accepted", quote(line).c_str());
				CHECK(want == line, "result", "line", "delivered %s, typed %s", quote(line).c_str(), quote(want).c_str());
				stats.probes["lines"]++;
			}
		} else {
			std::string got = p ? (ec_pnode_matches(p) ? ser_real(p, nullptr) : "nomatch") : "error", w = "error";
			if (got_line) {
				NoFault nf;
				struct ec_pnode *q = ec_parse(n->real, want.c_str());
				if (q) w = ec_pnode_matches(q) ? ser_real(q, nullptr) : "nomatch";
				ec_pnode_free(q);
			}
			S.ev("parse %s -> %s", quote(want).c_str(), got.c_str());
			if (!p) CHECK(S.faulted() || w == "error", "spurious", "parse", "parsing the accepted line %s failed without any fault", quote(want).c_str());
			else CHECK(got == w, "result", "parse", "line %s parsed as %s, expected %s", quote(want).c_str(), got.c_str(), w.c_str());
			CHECK(ec_editline_get_node(el) == n->real, "result", "node", "the session does not use the node it parses with");
			stats.probes["parsed_lines"]++;
		}
		bool space = true;
		for (unsigned char c : want) if (!isspace(c)) space = false;
		if (got_line && has_hist && !space && (line || p || parse || S.faulted())) {
			bool entered = true;
			if (S.faulted()) { // recording a line is best effort; it must be this line, once
				const std::deque<std::string> *h = ed::history_of(e);
				std::deque<std::string> with = hist;
				if (with.empty() || with.front() != want) with.push_front(want);
				while (with.size() > hist_size) with.pop_back();
				CHECK(h && (*h == hist || *h == with), "result", "history", "the history after %s is neither unchanged nor extended by that line", quote(want).c_str());
				hist = *h;
				entered = false;
			} else if (hist.empty() || hist.front() != want) {
				hist.push_front(want);
				while (hist.size() > hist_size) hist.pop_back();
			}
			if (entered && !hist_file.empty()) CHECK(ed::files.count(hist_file) && ed::files[hist_file] == hist, "result", "history-file", "the history file does not contain the history");
		}
		for (auto &f : ed::files)
			if (f.first != hist_file) CHECK(files.count(f.first) && files[f.first] == f.second, "result", "history-file", "a line was recorded in %s, which is not the history file of the session", f.first.c_str());
		check_hist("after a line");
		ec_free(line);
		ec_pnode_free(p);
	}
	void step() override
	{
		broken = false;
		if (!el) { op_open(); return; }
		uint32_t k = S.draw(27);
		if (k < 1) op_close();
		else if (k < 3) op_history();
		else if (k < 5) set_prompt();
		else if (k < 8) op_node();
		else if (k < 11) app_key(true);
		else op_gets(k < 17);
	}
	void teardown() override
	{
		NoFault nf;
		if (el) op_close();
		g.finish();
		fclose(in); fclose(out); fclose(err);
	}
};
World *mk_edit(const std::string &) { return new EditWorld(); }
REGISTER_WORLD("edit", mk_edit, "interactive sessions over a simulated line editor");
} // namespace
