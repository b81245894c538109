#include "edstub.h"
using namespace sim;
struct editline {
	FILE *f[3];
	void *cd = nullptr;
	char *(*prompt)(EditLine *) = nullptr;
	std::map<std::string, unsigned char (*)(EditLine *, int)> fns;
	std::map<int, std::string> binds;
	void *hist = nullptr;
	std::string buf;
	size_t cur = 0;
	std::string ret;
	// exactly sized copies, so that overreads are seen
	char *lb = nullptr, *rb = nullptr;
	LineInfo li;
};
struct ed_history { std::deque<std::string> l; size_t size = 0; bool uniq = false; std::string ev; };
namespace ed {
std::deque<Key> script;
int term_width, term_height;
size_t max_len;
std::function<bool(const std::string &)> cheap;
bool raw;
std::function<void(EditLine *, int)> before;
std::function<void(EditLine *, int, int)> after;
std::function<void(EditLine *)> app;
std::map<std::string, std::deque<std::string>> files;
static std::set<void *> els, hists;
void reset() { script.clear(); term_width = 80; term_height = 24; raw = false; max_len = 50; cheap = nullptr; before = nullptr; after = nullptr; app = nullptr; files.clear(); els.clear(); hists.clear(); }
int live() { return (int)(els.size() + hists.size()); }
static void use(EditLine *e) { S.step(); if (!els.count(e)) violate("memory", "line-editor", "the line editor handle was used after it was released (op %s)", S.opname.c_str()); }
static ed_history *useh(void *h)
{
	S.step();
	if (!hists.count(h)) violate("memory", "history", "a history was used after it was released (op %s)", S.opname.c_str());
	return (ed_history *)h;
}
std::string buffer(EditLine *e) { use(e); return e->buf; }
size_t cursor(EditLine *e) { return e->cur; }
bool bound(EditLine *e, int c) { return e->binds.count(c) && e->fns.count(e->binds[c]); }
std::string prompt(EditLine *e)
{
	use(e);
	if (!e->prompt) return "";
	const char *p = e->prompt(e);
	CHECK(p != nullptr, "memory", "prompt", "the prompt given to the line editor is a null pointer");
	return p;
}
const std::deque<std::string> *history_of(EditLine *e) { use(e); return e->hist ? &useh(e->hist)->l : nullptr; }
}
using namespace ed;
extern "C" {
EditLine *el_init(const char *, FILE *in, FILE *out, FILE *err)
{
	if (S.fault(K_TERM)) { errno = ENOMEM; return nullptr; }
	editline *e = new editline();
	e->f[0] = in; e->f[1] = out; e->f[2] = err;
	els.insert(e);
	return e;
}
void el_end(EditLine *e)
{
	if (!e) return;
	use(e);
	els.erase(e);
	delete[] e->lb;
	delete[] e->rb;
	delete e;
}
int el_get(EditLine *e, int op, ...)
{
	use(e);
	if (S.fault(K_TERM)) return -1;
	va_list ap;
	va_start(ap, op);
	int r = 0;
	switch (op) {
	case EL_GETFP: { int n = va_arg(ap, int); *va_arg(ap, FILE **) = e->f[n]; if (n < 0 || n > 2) r = -1; break; }
	case EL_CLIENTDATA: *va_arg(ap, void **) = e->cd; break;
	case EL_GETTC: {
		const char *n = va_arg(ap, const char *);
		int *v = va_arg(ap, int *);
		*v = !strcmp(n, "co") ? term_width : term_height;
		break;
	}
	default: r = -1;
	}
	va_end(ap);
	return r;
}
int el_set(EditLine *e, int op, ...)
{
	use(e);
	if (S.fault(K_TERM)) { errno = EIO; return -1; }
	va_list ap;
	va_start(ap, op);
	int r = 0;
	switch (op) {
	case EL_CLIENTDATA: e->cd = va_arg(ap, void *); break;
	case EL_SIGNAL: case EL_PREP_TERM: (void)va_arg(ap, int); break;
	case EL_EDITOR: { const char *n = va_arg(ap, const char *); if (strcmp(n, "emacs") && strcmp(n, "vi")) r = -1; break; }
	case EL_SETTY: break;
	case EL_PROMPT: case EL_PROMPT_ESC: e->prompt = va_arg(ap, char *(*)(EditLine *)); break;
	case EL_HIST: (void)va_arg(ap, void *); e->hist = va_arg(ap, void *); break;
	case EL_ADDFN: {
		const char *n = va_arg(ap, const char *);
		(void)va_arg(ap, const char *);
		e->fns[n] = (unsigned char (*)(EditLine *, int))va_arg(ap, void *);
		break;
	}
	case EL_BIND: {
		const char *k = va_arg(ap, const char *), *n = va_arg(ap, const char *);
		int c = k[0] == '^' && k[1] ? k[1] & 0x1f : (unsigned char)k[0];
		e->binds[c] = n;
		break;
	}
	default: r = -1;
	}
	va_end(ap);
	return r;
}
const LineInfo *el_line(EditLine *e)
{
	use(e);
	delete[] e->lb;
	e->lb = new char[e->buf.size() ? e->buf.size() : 1];
	memcpy(e->lb, e->buf.data(), e->buf.size());
	e->li.buffer = e->lb;
	e->li.cursor = e->lb + e->cur;
	e->li.lastchar = e->lb + e->buf.size();
	return &e->li;
}
int el_insertstr(EditLine *e, const char *s)
{
	use(e);
	if (S.fault(K_TERM)) return -1;
	e->buf.insert(e->cur, s);
	e->cur += strlen(s);
	return 0;
}
// a long line can take exponential time to match
static bool fine(const std::string &l) { return l.size() <= 45 || (cheap && l.size() <= max_len && cheap(l)); }
const char *el_gets(EditLine *e, int *count)
{
	use(e);
	ed::prompt(e);
	e->buf.clear();
	e->cur = 0;
	auto result = [&](bool nl) -> const char * {
		if (nl) e->buf += '\n';
		delete[] e->rb;
		e->rb = new char[e->buf.size() + 1];
		memcpy(e->rb, e->buf.data(), e->buf.size());
		e->rb[e->buf.size()] = 0;
		*count = (int)e->buf.size();
		return e->rb;
	};
	for (;;) {
		S.step();
		if (script.empty()) { *count = 0; return nullptr; }
		Key k = script.front();
		script.pop_front();
		switch (k.k) {
		case Key::CHAR:
			if (!raw && bound(e, k.c)) {
				if (!fine(e->buf)) break;
				if (before) before(e, k.c);
				int r = e->fns[e->binds[k.c]](e, k.c);
				if (after) after(e, k.c, r);
			} else if (e->buf.size() < max_len) {
				e->buf.insert(e->cur, 1, (char)k.c);
				e->cur++;
			}
			break;
		case Key::BS: if (e->cur) e->buf.erase(--e->cur, 1); break;
		case Key::LEFT: if (e->cur) e->cur--; break;
		case Key::RIGHT: if (e->cur < e->buf.size()) e->cur++; break;
		case Key::HOME: e->cur = 0; break;
		case Key::END_: e->cur = e->buf.size(); break;
		case Key::UP:
			if (e->hist) {
				ed_history *h = useh(e->hist);
				if (!h->l.empty() && fine(h->l.front())) { e->buf = h->l.front(); e->cur = e->buf.size(); }
			}
			break;
		case Key::APP: if (app && fine(e->buf)) app(e); break;
		case Key::ENTER:
			if (!fine(e->buf)) { e->buf.resize(40); e->cur = 0; }
			return result(true);
		case Key::EOF_:
			if (!fine(e->buf)) { e->buf.resize(40); e->cur = 0; }
			if (raw && !e->buf.empty()) return result(false); // last line of the input, without newline
			*count = 0;
			return nullptr;
		case Key::INTR: *count = -1; errno = EINTR; return nullptr;
		}
	}
}
History *history_init(void)
{
	if (S.fault(K_TERM)) { errno = ENOMEM; return nullptr; }
	ed_history *h = new ed_history();
	hists.insert(h);
	return (History *)h;
}
void history_end(History *h)
{
	if (!h) return;
	ed_history *x = useh(h);
	hists.erase(h);
	delete x;
}
int history(History *hh, HistEvent *ev, int op, ...)
{
	ed_history *h = useh(hh);
	if (S.fault(K_TERM)) { ev->num = 1; ev->str = "failure"; return -1; }
	ev->num = 0;
	ev->str = "OK";
	va_list ap;
	va_start(ap, op);
	int r = 0;
	switch (op) {
	case H_SETSIZE: { int n = va_arg(ap, int); if (n < 0) r = -1; else h->size = (size_t)n; break; }
	case H_SETUNIQUE: h->uniq = va_arg(ap, int) != 0; break;
	case H_ENTER: {
		std::string s = va_arg(ap, const char *);
		if (!(h->uniq && !h->l.empty() && h->l.front() == s)) h->l.push_front(s);
		while (h->l.size() > h->size) h->l.pop_back();
		break;
	}
	case H_SAVE: ed::files[va_arg(ap, const char *)] = h->l; break;
	case H_LOAD: {
		const char *n = va_arg(ap, const char *);
		if (!ed::files.count(n)) { r = -1; break; }
		h->l = ed::files[n];
		while (h->l.size() > h->size) h->l.pop_back();
		break;
	}
	default: r = -1;
	}
	va_end(ap);
	return r;
}
}
