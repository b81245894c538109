// World "mem": an application (or a node type of its own) using the library's
// memory and formatting services. Oracle: the requests the registered
// allocator receives, and the contents of every live block.
#include "sim.h"
#include <type_traits>
using namespace sim;

struct MemWorld : World {
	struct Blk { char *p; std::string want; bool str; };
	std::vector<Blk> blks;
	std::vector<AllocReq> log;
	unsigned line = 0;
	explicit MemWorld(const std::string &) {}
	void setup() override { S.configure(1u << K_ALLOC | 1u << K_REALLOC, 10, 120); }

	size_t size() { uint32_t k = S.draw(12); return k < 8 ? 1 + S.draw(40) : k < 11 ? 1 + S.draw(700) : 1 + S.draw(20000); }
	std::string bytes(size_t n) { std::string s(n, 0); uint32_t x = S.draw(1 << 20); for (auto &c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
	std::string text(size_t n) { std::string s = bytes(n); for (auto &c : s) if (!c) c = 'z'; return s; }
	void verify()
	{
		for (auto &b : blks) {
			CHECK(alloc_size(b.p) >= b.want.size(), "result", "block", "a live block of %zu bytes is no longer allocated", b.want.size());
			CHECK(!memcmp(b.p, b.want.data(), b.want.size()), "result", "content", "the contents of another block changed");
		}
	}
	// a request passed on as it is: same kind, same size, same result, made where it was made
	void passed(char op, size_t n, const void *p, const void *ret, bool where)
	{
		CHECK(log.size() == 1, "result", "passed", "%s made %zu requests to the allocator", S.opname.c_str(), log.size());
		AllocReq &r = log[0];
		CHECK(r.op == op && r.n == n && r.p == p && r.ret == ret, "result", "passed", "%s of %zu bytes was passed on as '%c' of %zu bytes", S.opname.c_str(), n, r.op, r.n);
		if (where) CHECK(r.file == "world_mem.cc" && r.line == line, "result", "where", "%s is attributed to %s:%u, not to its caller", S.opname.c_str(), r.file.c_str(), r.line);
	}
	void made(void *p, size_t n, bool allow)
	{
		if (!p) {
			CHECK(S.faulted() || !allow, "spurious", "alloc", "%s failed without any fault", S.opname.c_str());
			CHECK(errno != 0, "result", "errno", "%s failed without setting errno", S.opname.c_str());
			CHECK(log.size() <= 1, "result", "requests", "%s made %zu requests to the allocator", S.opname.c_str(), log.size());
			return;
		}
		CHECK(!S.faulted(), "result", "swallowed", "%s succeeded although the allocator refused", S.opname.c_str());
		CHECK(alloc_size(p) >= n, "result", "size", "%s returned %zu bytes instead of %zu", S.opname.c_str(), alloc_size(p), n);
	}
	void keep(char *p, const std::string &want, bool str) { blks.push_back({ p, want, str }); }
	void op_alloc()
	{
		uint32_t k = S.draw(3);
		size_t n = size();
		log.clear();
		errno = 0;
		char *p;
		if (k == 0) { S.opname = "ec_malloc_func"; p = (char *)ec_malloc_func(n); line = 0; }
		else { S.opname = "ec_malloc"; line = __LINE__; p = (char *)ec_malloc(n); }
		S.ev("%s %zu -> %d", S.opname.c_str(), n, p != nullptr);
		passed('m', n, nullptr, p, k != 0);
		made(p, n, true);
		if (!p) return;
		std::string c = bytes(n);
		memcpy(p, c.data(), n); // the whole block is writable
		keep(p, c, false);
	}
	void op_calloc()
	{
		S.opname = "ec_calloc";
		static const size_t big[][2] = { { SIZE_MAX, 2 }, { 2, SIZE_MAX }, { (size_t)1 << 32, (size_t)1 << 32 }, { 3, SIZE_MAX / 2 }, { SIZE_MAX / 2 + 1, 2 }, { SIZE_MAX / 16 + 1, 16 },
			{ 16, SIZE_MAX / 16 + 1 }, { ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 1 }, { SIZE_MAX / 3 + 1, 3 }, { SIZE_MAX, SIZE_MAX } };
		size_t a, b;
		bool ov = S.draw(6) == 0;
		if (ov) { uint32_t i = S.draw(10); a = big[i][0]; b = big[i][1]; }
		else { static const size_t es[] = { 1, 3, 8, 24, 100 }; b = es[S.draw(5)]; a = 1 + S.draw(30); if (S.draw(2)) std::swap(a, b); }
		log.clear();
		errno = 0;
		line = __LINE__; char *p = (char *)ec_calloc(a, b);
		S.ev("calloc %zu x %zu -> %d", a, b, p != nullptr);
		if (ov) {
			CHECK(!p && errno == ENOMEM && log.empty(), "result", "overflow", "an array of %zu times %zu bytes was allocated", a, b);
			return;
		}
		made(p, a * b, true);
		if (!log.empty() && log[0].op == 'm') CHECK(log[0].file == "world_mem.cc" && log[0].line == line, "result", "where", "ec_calloc is attributed to %s:%u", log[0].file.c_str(), log[0].line);
		if (!p) return;
		std::string z(a * b, 0);
		CHECK(!memcmp(p, z.data(), z.size()), "result", "zero", "an array allocated with ec_calloc is not zeroed");
		keep(p, z, false);
	}
	void op_realloc()
	{
		bool none = blks.empty() || S.draw(5) == 0;
		size_t i = none ? 0 : S.draw((uint32_t)blks.size());
		size_t n = size();
		char *old = none ? nullptr : blks[i].p, *p;
		bool fn = S.draw(4) == 0;
		log.clear();
		errno = 0;
		if (fn && !std::is_same<decltype(ec_realloc_func(old, n)), void *>::value)
			violate("result", "realloc-func", "ec_realloc_func() does not return the new address");
		if (fn) { S.opname = "ec_realloc_func"; p = (char *)((void *(*)(void *, size_t))ec_realloc_func)(old, n); }
		else { S.opname = "ec_realloc"; line = __LINE__; p = (char *)ec_realloc(old, n); }
		S.ev("%s %zu -> %zu: %d", S.opname.c_str(), none ? 0 : blks[i].want.size(), n, p != nullptr);
		passed('r', n, old, p, !fn);
		made(p, n, true);
		if (!p) return; // the old block is left untouched: verify()
		std::string w = none ? std::string() : blks[i].want;
		if (!none) blks.erase(blks.begin() + i);
		w.resize(std::min(w.size(), n));
		CHECK(!memcmp(p, w.data(), w.size()), "result", "realloc-content", "resizing a block lost its contents");
		std::string rest = bytes(n - w.size());
		memcpy(p + w.size(), rest.data(), rest.size());
		keep(p, w + rest, false);
	}
	void op_dup()
	{
		std::string s = text(S.draw(8) ? S.draw(40) : S.draw(3000));
		bool nd = S.draw(2);
		size_t n = s.size();
		char *p;
		log.clear();
		errno = 0;
		if (nd) {
			S.opname = "ec_strndup";
			static const int d[] = { 0, -1, 1, -5, 100 };
			uint32_t k = S.draw(8);
			size_t max = k < 5 ? (size_t)std::max(0l, (long)n + d[k]) : k == 5 ? 0 : k == 6 ? SIZE_MAX : S.draw(50);
			// a string that is not terminated within its bound
			std::vector<char> raw(s.begin(), s.end());
			if (max > n) raw.push_back(0);
			else raw.resize(max);
			if (raw.empty()) raw.reserve(1);
			static char dummy;
			line = __LINE__; p = (char *)ec_strndup(raw.empty() ? &dummy : raw.data(), max);
			s.resize(std::min(n, max));
		} else {
			S.opname = "ec_strdup";
			line = __LINE__; p = (char *)ec_strdup(s.c_str());
		}
		S.ev("%s %zu -> %d", S.opname.c_str(), s.size(), p != nullptr);
		made(p, s.size() + 1, true);
		for (auto &r : log) CHECK(r.file == "world_mem.cc" && r.line == line, "result", "where", "%s is attributed to %s:%u", S.opname.c_str(), r.file.c_str(), r.line);
		if (!p) return;
		CHECK(!memcmp(p, s.c_str(), s.size() + 1), "result", "copy", "%s of %s gives %s", S.opname.c_str(), quote(s).c_str(), quote(p).c_str());
		keep(p, std::string(s.c_str(), s.size() + 1), true);
	}
	static int vfmt(char **b, const char *f, ...) { va_list ap; va_start(ap, f); int r = ec_vasprintf(b, f, ap); va_end(ap); return r; }
	void op_format()
	{
		S.opname = "ec_asprintf";
		std::string s = text(S.draw(8) ? S.draw(30) : S.draw(3000)), w;
		int d = (int)S.draw(1 << 20) - (1 << 19);
		long long ll = (long long)d * 1234567890123ll;
		uint32_t width = S.draw(40);
		char *p = (char *)1;
		int r;
		bool bad = false, v = S.draw(2);
		log.clear();
		errno = 0;
		for (auto &c : s) if ((unsigned char)c >= 0x80) c = 'y';
#define F(...) (v ? vfmt(&p, __VA_ARGS__) : ec_asprintf(&p, __VA_ARGS__))
		switch (S.draw(7)) {
		case 0: r = F("%s", s.c_str()); w = s; break;
		case 1: r = F("%d/%s/%lld%%", d, s.c_str(), ll); w = fmt("%d/", d) + s + fmt("/%lld%%", ll); break;
		case 2: { const char *e = ""; r = F("%s", e); break; }
		case 3: r = F("%*s|%-*d|", (int)width, "x", (int)width, d); w = fmt("%*s|%-*d|", (int)width, "x", (int)width, d); break;
		case 4: r = F("%.*s", (int)width, s.c_str()); w = s.substr(0, width); break;
		case 5: r = F("%c%c%c", 'a', 0, 'b'); w = std::string("a\0b", 3); break; // characters that are not text
		default: { wchar_t x[2] = { (wchar_t)0xd8ffffff, 0 }; r = F("%s%ls", s.c_str(), x); bad = true; break; } // cannot be converted
		}
		S.ev("format %zu v=%d bad=%d -> %d", w.size(), v, bad, r);
		if (r < 0) {
			CHECK(bad || S.faulted(), "spurious", "format", "formatting failed without any fault");
			CHECK(!p, "result", "format-fail", "a failed formatting leaves something in its result");
			CHECK(errno != 0, "result", "errno", "formatting failed without setting errno");
			return;
		}
		CHECK(!bad && !S.faulted(), "result", "swallowed", "formatting succeeded although it cannot");
		CHECK((size_t)r == w.size(), "result", "format-len", "formatting %zu characters returned %d", w.size(), r);
		CHECK(alloc_size(p) > w.size(), "result", "size", "the formatted text is not held by the registered allocator");
		CHECK(!memcmp(p, w.c_str(), w.size() + 1), "result", "format", "formatting gives %s instead of %s", quote(p).c_str(), quote(w).c_str());
		keep(p, std::string(w.c_str(), w.size() + 1), true);
	}
	void op_free()
	{
		bool none = blks.empty() || S.draw(10) == 0, fn = S.draw(2);
		size_t i = none ? 0 : S.draw((uint32_t)blks.size());
		char *p = none ? nullptr : blks[i].p;
		log.clear();
		if (fn) { S.opname = "ec_free_func"; ec_free_func(p); }
		else { S.opname = "ec_free"; line = __LINE__; ec_free(p); }
		S.ev("%s %d", S.opname.c_str(), !none);
		if (!none) {
			passed('f', 0, p, nullptr, !fn);
			blks.erase(blks.begin() + i);
		}
	}
	void step() override
	{
		alloc_log = &log;
		struct Off { ~Off() { alloc_log = nullptr; } } off;
		uint32_t o = S.draw(20);
		if (blks.size() > 30) o = 19;
		if (o < 3) op_alloc();
		else if (o < 6) op_calloc();
		else if (o < 9) op_realloc();
		else if (o < 12) op_dup();
		else if (o < 15) op_format();
		else op_free();
		verify();
	}
	void teardown() override
	{
		verify();
		for (auto &b : blks) ec_free(b.p);
		blks.clear();
	}
};
static World *mk_mem(const std::string &v) { return new MemWorld(v); }
REGISTER_WORLD("mem", mk_mem, "an application using the memory and formatting services of the library");
