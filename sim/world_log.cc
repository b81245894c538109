// World "log": components logging through handlers that come, go, fail and
// log themselves; the default handler writes to a simulated error stream.
#include "gram.h"
using namespace sim;

namespace {
std::string err_text;
ssize_t e_write(void *, const char *b, size_t n)
{
	if (S.fault(K_STDIO)) { errno = EIO; return -1; }
	err_text.append(b, n);
	return (ssize_t)n;
}
struct Msg { int type; int level; int handler; void *opaque; std::string text; };
std::vector<Msg> got;
int depth = 0;

struct LogWorld;
LogWorld *W = nullptr;
int handler_body(int h, int type, enum ec_log_level level, void *opaque, const char *str);
template <int H> int handler(int type, enum ec_log_level level, void *opaque, const char *str) { return handler_body(H, type, level, opaque, str); }
ec_log_t handlers[3] = { handler<0>, handler<1>, handler<2> };
int vlog_via(int type, enum ec_log_level l, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = ec_vlog(type, l, f, ap);
	va_end(ap);
	return r;
}
unsigned run_no = 0;

struct LogWorld : World {
	FILE *err = nullptr, *saved = nullptr;
	struct T { std::string name; int id; };
	std::vector<T> types;
	int cur = -1;            // current handler, -1: default
	void *cur_opaque = nullptr;
	enum ec_log_level level = EC_LOG_WARNING;
	int next_ret = 0;
	int nested = 0;          // what a handler does: 1 logs, 2 replaces itself
	std::string prefix;

	bool own_leak_check() override { return true; }
	void setup() override
	{
		W = this;
		cookie_io_functions_t f = { nullptr, e_write, nullptr, nullptr };
		err = fopencookie(nullptr, "w", f);
		setvbuf(err, nullptr, _IONBF, 0);
		saved = stderr;
		S.configure(1u << K_ALLOC | 1u << K_REALLOC | 1u << K_LIBC | 1u << K_STDIO | 1u << K_CB, 4, 40);
		prefix = fmt("sim-%u-", run_no++); // components are never unregistered: use new names in every run
		level = ec_log_level_get();
		cur = -2;
		op_handler();
	}
	void op_handler()
	{
		S.opname = "handler";
		int h = (int)S.draw(4) - 1;
		void *o = (void *)(uintptr_t)(0x1000 + S.draw(3));
		int r = ec_log_fct_register(h < 0 ? nullptr : handlers[h], o);
		S.ev("handler %d -> %d", h, r);
		CHECK(r == 0, "spurious", "handler", "registering a handler failed");
		cur = h;
		cur_opaque = o;
	}
	void op_level()
	{
		S.opname = "level";
		unsigned l = S.draw(10);
		if (l == 8) l = 1000;
		if (l == 9) l = (unsigned)-1;
		int r = ec_log_level_set((enum ec_log_level)l);
		S.ev("level %d -> %d", (int)l, r);
		CHECK((r == 0) == (l <= 7) && (r == 0 || r == -1), "result", "level", "selecting level %d returned %d", (int)l, r);
		if (r == 0) level = (enum ec_log_level)l;
		CHECK(ec_log_level_get() == level, "result", "level", "the selected level is %d, expected %d", (int)ec_log_level_get(), (int)level);
	}
	std::string name()
	{
		if (S.draw(6) == 0) return S.draw(2) ? "node" : "log"; // components of the library
		static const char *suf[] = { "a", "b", "aa", "a-long-component-name-that-is-longer-than-twelve" };
		std::string n;
		if (S.draw(2) && !types.empty()) n = types[S.draw((uint32_t)types.size())].name;
		if (n.compare(0, prefix.size(), prefix)) n = prefix + suf[S.draw(4)];
		// a name close to a known one: longer, shorter, one character apart
		switch (S.draw(8)) {
		case 0: n += (char)('a' + S.draw(3)); break;
		case 1: if (n.size() > prefix.size() + 1) n.pop_back(); break;
		case 2: n.back() = n.back() == 'z' ? 'y' : 'z'; break;
		case 3: if (islower(n.back())) n.back() = (char)toupper(n.back()); break;
		case 4: n += std::string(1 + S.draw(60), 'x'); break;
		case 5: n += "\xc3\xa9 %s\t"; break;
		}
		return n;
	}
	void op_register()
	{
		S.opname = "register";
		std::string n = name();
		int known = -1;
		for (auto &t : types) if (t.name == n) known = t.id;
		int id = ec_log_type_register(n.c_str());
		S.ev("register %s -> %d", n.c_str() + (n[0] == 's' ? prefix.size() : 0), id >= 0);
		if (id < 0) CHECK(S.faulted() && known < 0, "spurious", "register", "registering a component failed without any fault");
		else {
			CHECK(known < 0 || known == id, "result", "register", "registering the known component %s gave another identifier", n.c_str());
			if (known < 0) {
				for (auto &t : types) CHECK(t.id != id, "result", "register", "two components have the same identifier");
				types.push_back({ n, id });
			}
		}
		check_names();
	}
	void check_names()
	{
		for (auto &t : types) {
			const char *n = ec_log_name(t.id);
			CHECK(n && t.name == n, "result", "name", "component %s is now called %s", t.name.c_str(), n ? n : "null");
		}
		static const int bad[] = { -1, INT_MAX, INT_MIN };
		int past = -2; // one past the highest identifier ever given
		for (auto &t : types) if (!t.name.compare(0, prefix.size(), prefix)) past = std::max(past, t.id + 1);
		CHECK(ec_log_name(past) && !strcmp(ec_log_name(past), "unknown"), "result", "name", "a component that was never registered has a name");
		for (int b : bad) CHECK(ec_log_name(b) && !strcmp(ec_log_name(b), "unknown"), "result", "name", "an unknown component has a name");
	}
	std::string text()
	{
		static const int len[] = { 0, 1, 5, 30, 200, 5000 };
		int n = len[S.draw(6)];
		std::string s;
		uint32_t seed = S.draw(1000);
		for (int i = 0; i < n; i++) s += (char)(' ' + (seed * 31 + i * 7 + i / 95) % 95);
		return s;
	}
	void op_log()
	{
		S.opname = "log";
		int type = -1;
		if (!types.empty() && S.draw(8)) type = types[S.draw((uint32_t)types.size())].id;
		enum ec_log_level l = (enum ec_log_level)S.draw(8);
		std::string t = text(), want;
		int num = (int)S.draw(100000) - 50000;
		next_ret = S.draw(4) == 0 ? -(int)S.draw(3) - 1 : (int)S.draw(3);
		nested = S.draw(5) == 0 ? 1 + (int)S.draw(2) : 0;
		int how = (int)S.draw(3);
		got.clear();
		err_text.clear();
		depth = 0;
		int h0 = cur;
		void *o0 = cur_opaque;
		int nest = nested;
		int r;
		size_t a0 = alloc_live();
		stderr = err;
		if (how == 0) { want = t; r = ec_log(type, l, "%s", t.c_str()); }
		else if (how == 1) { want = fmt("%d:", num) + t + "\n"; r = ec_log(type, l, "%d:%s\n", num, t.c_str()); }
		else { want = t + fmt("%d%%", num); r = vlog_via(type, l, "%s%d%%", t.c_str(), num); }
		stderr = saved;
		CHECK(alloc_live() == a0, "leak", "leak", "logging a message kept memory:%s", alloc_live_desc().c_str());
		S.ev("log level %d handler %d -> %d (%zu delivered, %zu bytes shown)", (int)l, h0, r, got.size(), err_text.size());
		if (h0 < 0) {
			CHECK(got.empty(), "result", "delivery", "a message went to a handler that is not registered");
			if (S.faulted()) CHECK(r == 0 || r == -1, "result", "return", "logging returned %d", r);
			else {
				CHECK(r == 0, "spurious", "return", "logging failed without any fault");
				std::string name = type < 0 ? "unknown" : "";
				for (auto &x : types) if (x.id == type) name = x.name;
				if (l > level) CHECK(err_text.empty(), "result", "filter", "a message of level %d was shown although level %d is selected", (int)l, (int)level);
				else {
					CHECK(err_text.find(name) != std::string::npos && err_text.size() >= want.size() && err_text.substr(err_text.size() - want.size()) == want,
						"result", "shown", "a message of %zu bytes of component %s was shown as %s", want.size(), name.c_str(), quote(err_text.substr(0, 200)).c_str());
					stats.probes["shown"]++;
				}
			}
			if (r == 0 && l <= level) CHECK(!err_text.empty(), "result", "lost", "logging reported success but the message was lost");
			return;
		}
		if (got.empty()) {
			CHECK(S.faulted(), "result", "lost", "a message was not delivered");
			CHECK(r < 0, "result", "lost", "a message was lost but logging returned %d", r);
			return;
		}
		const Msg &m = got[0];
		CHECK(m.handler == h0 && m.opaque == o0, "result", "delivery", "a message went to handler %d/%p, registered was %d/%p", m.handler, m.opaque, h0, o0);
		CHECK(m.type == type && m.level == (int)l, "result", "delivery", "a message of component %d level %d arrived as component %d level %d", type, (int)l, m.type, m.level);
		CHECK(m.text == want, "result", "text", "a message of %zu bytes arrived with %zu bytes", want.size(), m.text.size());
		CHECK(r == next_ret, "result", "return", "the handler returned %d but logging returned %d", next_ret, r);
		size_t most = nest == 1 ? 2 : 1;
		CHECK(got.size() <= most, "result", "delivery", "a message was delivered %zu times", got.size());
		if (nest == 1 && !S.faulted()) CHECK(got.size() == 2 && got[1].text == "nested 7", "result", "nested", "a message logged by a handler was not delivered");
		stats.probes["delivered"]++;
		if (nest == 2) { // the handler registered the next one while running
			CHECK(cur == (h0 + 1) % 3, "result", "handler", "handler not replaced");
			stats.probes["replaced"]++;
		}
	}
	int in_handler(int h, int type, enum ec_log_level l, void *opaque, const char *str)
	{
		got.push_back({ type, (int)l, h, opaque, str });
		if (depth) return 0;
		depth++;
		if (nested == 1) ec_log(type, l, "nested %d", 7);
		if (nested == 2) {
			cur = (h + 1) % 3;
			cur_opaque = (void *)(uintptr_t)0x2000;
			ec_log_fct_register(handlers[cur], cur_opaque);
		}
		// the text still belongs to this call
		CHECK(got[0].text == str, "result", "text", "the text of a message changed while its handler ran");
		depth--;
		return next_ret;
	}
	void step() override
	{
		uint32_t k = S.draw(20);
		if (k < 3) op_handler();
		else if (k < 5) op_level();
		else if (k < 8) op_register();
		else op_log();
		check_names();
		CHECK(ec_log_level_get() == level, "result", "level", "the selected level changed by itself");
	}
	void teardown() override
	{
		NoFault nf;
		ec_log_fct_register(nullptr, nullptr);
		ec_log_level_set(EC_LOG_WARNING);
		fclose(err);
		W = nullptr;
	}
};
int handler_body(int h, int type, enum ec_log_level level, void *opaque, const char *str) { return W->in_handler(h, type, level, opaque, str); }
World *mk_log(const std::string &) { return new LogWorld(); }
REGISTER_WORLD("log", mk_log, "components logging through handlers that come, go, fail and log themselves");
} // namespace
