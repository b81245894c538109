#include "sim.h"
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_map>
#include <unordered_set>
#include <time.h>

namespace sim {

const char *kind_name[K_N] = { "ec_alloc", "ec_realloc", "libc_alloc", "regcomp_nomem", "fs_error",
	"stream_error", "callback_error", "terminal_event", "stdio_error" };
Stats stats;
Sim S;

// ------------------------------------------------------------ tape log
// A shared mapping receives every decision as it is taken, so that the tape
// of a crashed run survives the process.
static const size_t TAPELOG_MAX = 1 << 20;
struct TapeLog { uint64_t n; uint64_t seed; char cls[32]; char key[128]; char msg[1024]; uint64_t hash; uint64_t tok[TAPELOG_MAX]; };
static TapeLog *tlog;
enum { T_OP = 1, T_C, T_F, T_S, T_FIRED };
static inline void tl(unsigned tag, uint32_t v)
{
	if (tlog && tlog->n < TAPELOG_MAX)
		tlog->tok[tlog->n++] = ((uint64_t)tag << 56) | v;
}

// accepted violations (empty: all): "class" or "class@operation-prefix"
static std::set<std::string> g_classes;
static bool accepted(const char *cls)
{
	if (g_classes.empty() || g_classes.count(cls)) return true;
	std::string pre = std::string(cls) + "@";
	for (auto &c : g_classes)
		if (!c.compare(0, pre.size(), pre) && !S.opname.compare(0, c.size() - pre.size(), c, pre.size())) return true;
	return false;
}

std::string fmt(const char *f, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	if (n < (int)sizeof(buf)) return buf;
	std::string o((size_t)n + 1, 0);
	va_start(ap, f);
	vsnprintf(&o[0], o.size(), f, ap);
	va_end(ap);
	o.pop_back();
	return o;
}

std::string quote(const std::string &s)
{
	std::string o = "'";
	for (unsigned char c : s) {
		if (c < 32 || c >= 127 || c == '\'' || c == '\\') o += fmt("\\x%02x", c);
		else o += (char)c;
	}
	return o + "'";
}

void probe(const char *name) { stats.probes[name]++; }

static void fnv(uint64_t &h, const void *p, size_t n)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
}

void Sim::ev(const char *f, ...)
{
	char buf[2048];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
	fnv(hash, buf, n);
	if (verbose) {
		fprintf(stdout, "#   %s\n", buf);
		fflush(stdout);
	}
}

void Sim::step()
{
	if (++steps > step_budget)
		violate("hang", "step-budget", "no progress: more than %llu simulated steps in one operation (%s)",
			(unsigned long long)step_budget, opname.c_str());
}

void Sim::begin_run(const char *world, uint64_t seed, bool rp)
{
	replay = rp;
	uint64_t h = 0xcbf29ce484222325ull;
	fnv(h, world, strlen(world));
	rng = Rng(seed * 0x9E3779B97F4A7C15ull ^ h);
	if (!rp) tape.clear();
	op_idx = (size_t)-1;
	forced.clear(); has_forced = false; chain = false;
	max_ops = ops_done = 0; kinds_mask = 0; p_fault = p_chain = 0;
	mode = 0; points = fired = site_hits = max_points = 0; fired_at.clear(); in_op = false; suspend = 0; steps = 0;
	hash = 0xcbf29ce484222325ull;
	opname = "setup";
	if (tlog) { tlog->n = 0; tlog->seed = seed; tlog->cls[0] = tlog->key[0] = tlog->msg[0] = 0; }
	// record 0: setup
	op_idx = 0; pc = pf = ps = 0;
	if (!rp) tape.emplace_back();
	tl(T_OP, 0);
	if (rp && tape.empty()) tape.emplace_back();
}

void Sim::configure(uint32_t kinds, uint32_t mn, uint32_t mx)
{
	static const uint32_t pf_tab[] = { 0, 24, 80, 160, 230 };
	max_ops = mn + draw(mx - mn + 1);
	p_fault = pf_tab[draw(5)];
	kinds_mask = kinds;
	if (draw(4) == 0) { // swarm: random subset of the fault kinds
		uint32_t m = 0;
		for (int k = 0; k < K_N; k++)
			if ((kinds >> k & 1) && draw(2)) m |= 1u << k;
		kinds_mask = m;
	}
	static const uint32_t ch_tab[] = { 0, 32, 128, 255 };
	p_chain = ch_tab[draw(4)];
	ev("config max_ops=%u p_fault=%u kinds=%x chain=%u", max_ops, p_fault, kinds_mask, p_chain);
}

bool Sim::next_op()
{
	if (replay) {
		if (op_idx + 1 >= tape.size()) return false;
		op_idx++;
		pc = pf = ps = 0;
	} else {
		if (ops_done >= max_ops) return false;
		op_idx++;
		OpRec prev = tape[op_idx - 1];
		tape.emplace_back();
		pc = pf = ps = 0;
		pforced = 0;
		has_forced = false;
		bool cont = chain && op_idx > 1 && fired > 0 && mode == PM_SINGLE && op_repeatable;
		if (cont) {
			forced = prev.c;
			has_forced = true;
			uint32_t k = fa + 1 + (fa > 24 ? rng.below(3) : 0) + (fa > 80 ? rng.below(12) : 0);
			tape[op_idx].f = { PM_SINGLE, k };
		} else {
			chain = false;
			std::vector<uint32_t> &f = tape[op_idx].f;
			if (rng.below(256) < p_fault) {
				uint32_t m = rng.below(16);
				uint32_t k = rng.below(1u << rng.below(9));
				if (max_points > 64 && rng.below(4) == 0) k = rng.below(max_points + 1);
				if (m < 9) f = { PM_SINGLE, k };
				else if (m < 11) f = { PM_SITE, (uint32_t)rng.next(), (3u << 2 * rng.below(4)) << 8 | rng.below(1 + rng.below(4)) };
				else if (m < 12) f = { PM_BERN, (uint32_t)rng.next(), 1 + rng.below(64) };
				else if (m < 14) f = { PM_FROM, k };
				else f = { PM_BURST, k, 1 + rng.below(6) };
				if (m < 9 && rng.below(256) < p_chain) {
					chain = true;
					f[1] = rng.below(4) ? 0 : k;
				}
			}
		}
	}
	ops_done++;
	tl(T_OP, (uint32_t)op_idx);
	for (uint32_t v : rec().f) tl(T_F, v);
	const std::vector<uint32_t> &f = rec().f;
	mode = f.size() > 0 ? f[0] : 0;
	fa = f.size() > 1 ? f[1] : 0;
	fb = f.size() > 2 ? f[2] : 0;
	flist.clear();
	if (mode == PM_LIST) flist.assign(f.begin() + 1, f.end());
	frng = Rng(fa);
	points = fired = site_hits = 0;
	fired_at.clear();
	in_op = true;
	op_repeatable = true;
	opname = "?";
	stats.ops++;
	return true;
}

void Sim::end_op()
{
	in_op = false;
	if (points > max_points) max_points = points;
	if (fired) stats.fault_ops++;
	if (verbose && fired) {
		std::string l;
		for (uint32_t x : fired_at) l += fmt(" %u", x);
		fprintf(stdout, "#     (fault points hit:%s of %u)\n", l.c_str(), points);
	}
}

uint32_t Sim::draw(uint32_t n)
{
	uint32_t v;
	if (replay) {
		v = pc < rec().c.size() ? rec().c[pc] : 0;
		pc++;
		if (n) v %= n; else v = 0;
	} else {
		if (has_forced && pforced < forced.size()) {
			v = forced[pforced++];
			if (n) v %= n; else v = 0;
		} else
			v = rng.below(n);
		rec().c.push_back(v);
	}
	tl(T_C, v);
	return v;
}

uint32_t Sim::sdraw(uint32_t n)
{
	uint32_t v;
	if (replay) {
		v = ps < rec().s.size() ? rec().s[ps] : 0;
		ps++;
		if (n) v %= n; else v = 0;
	} else {
		v = rng.below(n);
		rec().s.push_back(v);
	}
	tl(T_S, v);
	return v;
}

// Where a fault point is in the code: the chain of callers, so that a place
// reached once among thousands of points is chosen as often as the others.
extern "C" { extern char __executable_start, etext; }
static __attribute__((noinline)) uint64_t call_site(Kind k)
{
	uint64_t h = 1469598103934665603ull + (uint64_t)k;
	if (k == K_LIBC || k == K_STDIO || k == K_IO) return h; // callers outside this program
	void **fp = (void **)__builtin_frame_address(0);
	for (int i = 0; i < 9; i++) {
		char *ret = (char *)fp[1];
		void **next = (void **)fp[0];
		if (ret < &__executable_start || ret >= &etext) break;
		h = (h ^ (uint64_t)(ret - &__executable_start)) * 1099511628211ull;
		if (next <= fp || (char *)next - (char *)fp > 65536) break;
		fp = next;
	}
	return h;
}

bool Sim::fault(Kind k)
{
	step();
	if (!in_op || suspend || !(kinds_mask >> k & 1))
		return false;
	if (at_point) at_point();
	uint32_t i = points++;
	stats.points[k]++;
	bool f = false;
	switch (mode) {
	case PM_NONE: break;
	case PM_SINGLE: f = i == fa; break;
	case PM_BERN: f = frng.below(256) < fb; break;
	case PM_FROM: f = i >= fa; break;
	case PM_SITE: // the n-th time one of a small set of places is reached
		if (site_hits <= (fb & 255)) {
			uint64_t h = (call_site(k) ^ fa) * 0x9e3779b97f4a7c15ull;
			h = (h ^ h >> 29) * 0xbf58476d1ce4e5b9ull;
			if ((h >> 33) % (fb >> 8 ? fb >> 8 : 1) == 0) f = site_hits++ == (fb & 255);
		}
		break;
	case PM_BURST: f = i >= fa && i < fa + fb; break;
	case PM_LIST: for (uint32_t x : flist) if (x == i) f = true; break;
	}
	if (f) {
		fired++;
		if (task_fired) ++*task_fired;
		fired_at.push_back(i);
		stats.fired[k]++;
		tl(T_FIRED, i);
		unsigned char c = (unsigned char)k;
		fnv(hash, &c, 1);
		fnv(hash, &i, sizeof(i));
	}
	return f;
}

// ------------------------------------------------------------ violations
[[noreturn]] static void die(int code)
{
	fflush(stdout);
	_exit(code);
}

static volatile int in_violation;
[[noreturn]] void violate(const char *cls, const char *key, const char *f, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	if (!accepted(cls)) {
		// belongs to another property: end this run without a verdict
		if (S.verbose) { printf("# (other property) %s/%s: %s\n", cls, key, buf); fflush(stdout); }
		throw RunAbort();
	}
	if (!in_violation) {
		in_violation = 1;
		std::string k = S.opname + ":" + key;
		if (tlog) {
			snprintf(tlog->cls, sizeof(tlog->cls), "%s", cls);
			snprintf(tlog->key, sizeof(tlog->key), "%s", k.c_str());
			snprintf(tlog->msg, sizeof(tlog->msg), "%s", buf);
			tlog->hash = S.hash;
		}
		if (S.verbose) printf("FAILURE class=%s key=%s %s\n", cls, k.c_str(), buf);
	}
	die(77);
}

static void record_crash(const char *cls, const char *key, const char *msg)
{
	if (tlog && !tlog->cls[0]) {
		snprintf(tlog->cls, sizeof(tlog->cls), "%s", cls);
		snprintf(tlog->key, sizeof(tlog->key), "%s:%s", S.opname.c_str(), key);
		snprintf(tlog->msg, sizeof(tlog->msg), "%s", msg);
		tlog->hash = S.hash;
	}
}

static void asan_report(const char *rep)
{
	// first lines of the report, flattened, addresses removed
	std::string out, type = "asan";
	const char *p = strstr(rep, "AddressSanitizer: ");
	if (p) {
		p += strlen("AddressSanitizer: ");
		type.clear();
		while (*p && *p != ' ' && *p != '\n') type += *p++;
	}
	int frames = 0;
	for (const char *q = rep; (q = strstr(q, "    #")) && frames < 6; q++) {
		const char *in = strstr(q, " in ");
		const char *nl = strchr(q, '\n');
		if (!in || (nl && in > nl)) continue;
		in += 4;
		std::string fn;
		while (*in && *in != ' ' && *in != '\n') fn += *in++;
		out += (frames ? " < " : "") + fn;
		frames++;
	}
	record_crash("memory", type.c_str(), (type + " at " + out).c_str());
	if (S.verbose) { fputs(rep, stdout); printf("FAILURE class=memory key=%s:%s\n", S.opname.c_str(), type.c_str()); fflush(stdout); }
}

static void on_abort(int)
{
	record_crash("abort", "abort", "the library aborted (assertion)");
	if (S.verbose) { printf("FAILURE class=abort\n"); fflush(stdout); }
	_exit(79);
}

static volatile int timer_left; // seconds of CPU time the current operation may still take
static void on_timer(int)
{
	if (timer_left <= 0 || --timer_left > 0) return;
	record_crash("hang", "cpu-budget", "no progress within the CPU budget of one run");
	if (S.verbose) { printf("FAILURE class=hang\n"); fflush(stdout); }
	_exit(80);
}

// Blocked for good (a lock that nobody holds, a wait nobody ends): no CPU time is used, so the timer above never runs.
// Reported after 15 ticks of a second in a row without any CPU time, which a starved process does not show either: it
// goes on for a while after each tick.
static void on_tick(int)
{
	static uint64_t last_us;
	static int idle;
	struct rusage ru;
	getrusage(RUSAGE_SELF, &ru);
	uint64_t us = (uint64_t)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000000 + ru.ru_utime.tv_usec + ru.ru_stime.tv_usec;
	bool busy = us - last_us > 2000 || timer_left <= 0;
	last_us = us;
	if (busy) { idle = 0; return; }
	if (++idle < 15) return;
	record_crash("hang", "blocked", "blocked for good");
	if (S.verbose) { printf("FAILURE class=hang\n"); fflush(stdout); }
	_exit(80);
}

static void arm_timer(int sec)
{
	static bool started;
	timer_left = sec;
	if (started) return;
	started = true;
	pthread_atfork(nullptr, nullptr, [] { started = false; }); // a forked process has no timer
	struct itimerval it = {};
	it.it_value.tv_sec = it.it_interval.tv_sec = 1;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
	setitimer(ITIMER_REAL, &it, nullptr);
}

// ------------------------------------------------------------ allocator
static const uintptr_t ARENA_BASE = 0x200000000000ull;
static const size_t ARENA_SIZE = 192u << 20;
static const size_t GRAN = 16, RZ = 32;
struct Block { uint32_t off, size; bool live; uint32_t op; const char *file; unsigned line; };
static std::vector<Block> blocks;
static uint32_t *gidx; // granule -> block index + 1
static size_t arena_used;
// In most runs no address is ever handed out twice, so that every use of freed memory is seen. In the others the
// most recently freed block of a size is handed out first, as real allocators do: what identifies an object by its
// address must survive that.
static const size_t REUSE_MAX = 512;
static bool addr_reuse;
static std::vector<uint32_t> freed[REUSE_MAX];
static size_t live_blocks;
static bool sim_active;
static std::unordered_map<void *, size_t> *libc_live;
int g_regex_live;
static std::unordered_set<const void *> *regex_live;

static const char *base(const char *f)
{
	const char *s = f ? strrchr(f, '/') : nullptr;
	return s ? s + 1 : f;
}

static bool in_arena(const void *p) { return (uintptr_t)p >= ARENA_BASE && (uintptr_t)p < ARENA_BASE + ARENA_SIZE; }

static void *arena_alloc(size_t n, const char *file, unsigned line)
{
	size_t need = (n + GRAN - 1) / GRAN * GRAN + RZ;
	if (n > ARENA_SIZE || arena_used + need + RZ > ARENA_SIZE)
		violate("hang", "arena", "runaway memory use (%zu bytes requested) in op %s", n, S.opname.c_str());
	size_t gran = (n + GRAN - 1) / GRAN, off;
	if (addr_reuse && gran < REUSE_MAX && !freed[gran].empty()) {
		off = freed[gran].back();
		freed[gran].pop_back();
	} else {
		off = arena_used + RZ;
		arena_used = off + gran * GRAN;
	}
	char *p = (char *)ARENA_BASE + off;
	__asan_unpoison_memory_region(p, n ? n : 1);
	if (!n) __asan_poison_memory_region(p, GRAN);
	if (n) memset(p, 0xA5, n);
	blocks.push_back({ (uint32_t)off, (uint32_t)n, true, (uint32_t)S.op_idx, file, line });
	gidx[off / GRAN] = (uint32_t)blocks.size();
	live_blocks++;
	return p;
}

static Block *find_block(const void *p)
{
	if (!in_arena(p)) return nullptr;
	size_t off = (uintptr_t)p - ARENA_BASE;
	if (off % GRAN || !gidx[off / GRAN]) return nullptr;
	return &blocks[gidx[off / GRAN] - 1];
}

static void arena_free(void *p)
{
	Block *b = find_block(p);
	if (!b) violate("memory", "bad-free", "free of a pointer that is not the start of an allocation (op %s)", S.opname.c_str());
	if (!b->live) violate("memory", "double-free", "block of %u bytes allocated at %s:%u freed twice (op %s)",
		b->size, b->file ? base(b->file) : "?", b->line, S.opname.c_str());
	b->live = false;
	live_blocks--;
	size_t n = (b->size + GRAN - 1) / GRAN * GRAN;
	__asan_poison_memory_region(p, n);
	if (addr_reuse && n / GRAN < REUSE_MAX) freed[n / GRAN].push_back(b->off);
}

extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void __real_free(void *);


std::vector<AllocReq> *alloc_log;
static void logreq(char op, size_t n, const void *p, const void *ret, const char *file, unsigned line)
{
	if (alloc_log) alloc_log->push_back({ op, n, p, ret, file ? base(file) : "", line });
}

static void *h_malloc(size_t n, const char *file, unsigned line)
{
	if (S.fault(K_ALLOC)) { logreq('m', n, nullptr, nullptr, file, line); errno = ENOMEM; return nullptr; }
	void *r = arena_alloc(n, file, line);
	logreq('m', n, nullptr, r, file, line);
	return r;
}

static void h_free(void *p, const char *file, unsigned line)
{
	(void)file; (void)line;
	S.step();
	logreq('f', 0, p, nullptr, file, line);
	if (!p) return;
	if (!in_arena(p))
		violate("memory", "foreign-free", "memory not obtained from the registered allocator given to its free() at %s:%u (op %s)", base(file), line, S.opname.c_str());
	arena_free(p);
}

static void *h_realloc(void *p, size_t n, const char *file, unsigned line)
{
	if (S.fault(K_REALLOC)) { logreq('r', n, p, nullptr, file, line); errno = ENOMEM; return nullptr; }
	if (!p) {
		void *q = arena_alloc(n, file, line);
		logreq('r', n, p, q, file, line);
		return q;
	}
	Block *b = find_block(p);
	if (!b)
		violate("memory", "foreign-realloc", "memory not obtained from the registered allocator given to its realloc() at %s:%u (op %s)", base(file), line, S.opname.c_str());
	if (!b->live) violate("memory", "realloc-freed", "realloc of freed memory at %s:%u (op %s)", base(file), line, S.opname.c_str());
	size_t old = b->size;
	void *q = arena_alloc(n, file, line);
	memcpy(q, p, old < n ? old : n);
	arena_free(p);
	logreq('r', n, p, q, file, line);
	return q;
}

size_t alloc_size(const void *p) { Block *b = find_block(p); return b && b->live ? b->size : 0; }
void *app_alloc(size_t n) { return arena_alloc(n, "app", 0); }
bool alloc_is_live(const void *p) { Block *b = find_block(p); return b && b->live; }

void alloc_install()
{
	void *a = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void *)ARENA_BASE) { fprintf(stderr, "cannot map the simulated heap\n"); _exit(3); }
	gidx = (uint32_t *)mmap(nullptr, ARENA_SIZE / GRAN * sizeof(uint32_t), PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	libc_live = new std::unordered_map<void *, size_t>();
	regex_live = new std::unordered_set<const void *>();
	arena_used = ARENA_SIZE; // force full reset
	arena_used = 0;
	__asan_poison_memory_region((void *)ARENA_BASE, ARENA_SIZE);
	if (ec_malloc_register(h_malloc, h_free, h_realloc) < 0) { fprintf(stderr, "ec_malloc_register failed\n"); _exit(3); }
	sim_active = true;
}

void alloc_reset(uint64_t seed)
{
	addr_reuse = (seed * 0x9E3779B97F4A7C15ull) >> 62 == 0; // a quarter of the seeds
	for (auto &f : freed) f.clear();
	__asan_poison_memory_region((void *)ARENA_BASE, arena_used + 2 * RZ);
	for (auto &b : blocks) gidx[b.off / GRAN] = 0;
	blocks.clear();
	arena_used = 0;
	live_blocks = 0;
	libc_live->clear();
	regex_live->clear();
	g_regex_live = 0;
}

size_t alloc_live() { return live_blocks + libc_live->size() + (size_t)g_regex_live; }

std::string alloc_live_desc()
{
	std::string d;
	int n = 0;
	for (auto &b : blocks)
		if (b.live) {
			if (n++ >= 6) { d += " ..."; break; }
			d += fmt(" [%u bytes %s:%u op#%u]", b.size, b.file ? base(b.file) : "?", b.line, b.op);
		}
	if (!libc_live->empty()) d += fmt(" [%zu libc blocks]", libc_live->size());
	if (g_regex_live) d += fmt(" [%d compiled regex]", g_regex_live);
	return d;
}

void check_no_leak(const char *where)
{
	stats.checks++;
	if (alloc_live() == 0) return;
	S.opname = where;
	violate("leak", "leak", "%zu resources still held after everything was released:%s", alloc_live(), alloc_live_desc().c_str());
}

// ---- libc allocation done inside the library (linked with --wrap)
extern "C" {
static void *track(void *p, size_t n) { if (p && sim_active && !S.suspend) (*libc_live)[p] = n; return p; }
static void untrack(void *p)
{
	if (!p) return;
	if (in_arena(p)) {
		Block *b = find_block(p);
		violate("memory", "cross-free", "memory allocated with the registered allocator (%s:%u) released with libc free() (op %s)",
			b && b->file ? base(b->file) : "?", b ? b->line : 0, S.opname.c_str());
	}
	if (sim_active) libc_live->erase(p);
}
void *__wrap_malloc(size_t n)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; return nullptr; }
	return track(__real_malloc(n), n);
}
void *__wrap_calloc(size_t a, size_t b)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; return nullptr; }
	return track(__real_calloc(a, b), a * b);
}
void *__wrap_realloc(void *p, size_t n)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; return nullptr; }
	if (p) {
		if (in_arena(p)) untrack(p);
		if (sim_active) libc_live->erase(p);
	}
	return track(__real_realloc(p, n), n);
}
void __wrap_free(void *p)
{
	if (sim_active) S.step();
	untrack(p);
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; return nullptr; }
	size_t n = strlen(s) + 1;
	char *p = (char *)__real_malloc(n);
	if (p) memcpy(p, s, n);
	return (char *)track(p, n);
}
char *__wrap_strndup(const char *s, size_t m)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; return nullptr; }
	size_t n = strnlen(s, m);
	char *p = (char *)__real_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return (char *)track(p, n + 1);
}
int __wrap_vasprintf(char **out, const char *f, va_list ap)
{
	if (sim_active && S.fault(K_LIBC)) { errno = ENOMEM; *out = nullptr; return -1; }
	va_list aq;
	va_copy(aq, ap);
	int n = vsnprintf(nullptr, 0, f, aq);
	va_end(aq);
	if (n < 0) return n;
	char *p = (char *)__real_malloc((size_t)n + 1);
	if (!p) return -1;
	vsnprintf(p, (size_t)n + 1, f, ap);
	*out = (char *)track(p, n + 1);
	return n;
}
int __wrap_asprintf(char **out, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = __wrap_vasprintf(out, f, ap);
	va_end(ap);
	return r;
}
int __real_regcomp(regex_t *, const char *, int);
void __real_regfree(regex_t *);
// Compiling is a pure function of pattern and flags, so compiled patterns are kept for the whole process and
// handed out as copies; each copy carries a number of its own (in a field matching does not use) by which it must be freed.
static std::map<std::pair<std::string, int>, regex_t> *re_cache;
static std::unordered_set<unsigned long> *re_ids;
static unsigned long re_next = 1;
int __wrap_regcomp(regex_t *r, const char *p, int fl)
{
	if (sim_active && S.fault(K_REGEX)) return REG_ESPACE;
	if (!re_cache) { re_cache = new std::map<std::pair<std::string, int>, regex_t>; re_ids = new std::unordered_set<unsigned long>; }
	auto it = re_cache->find({ p, fl });
	if (it == re_cache->end()) {
		regex_t x;
		memset(&x, 0, sizeof(x));
		int ret = __real_regcomp(&x, p, fl);
		if (ret != 0) return ret;
		if (re_cache->size() >= 4096) { // not reached by the generators: patterns come from small families
			re_cache->clear();
		}
		it = re_cache->emplace(std::make_pair(std::string(p), fl), x).first;
	}
	*r = it->second;
	r->__REPB_PREFIX(allocated) = re_next;
	re_ids->insert(re_next++);
	g_regex_live++;
	return 0;
}
void __wrap_regfree(regex_t *r)
{
	if (!re_ids || !re_ids->erase(r->__REPB_PREFIX(allocated))) {
		if (sim_active) violate("memory", "regfree", "regfree() of a regex that is not compiled (op %s)", S.opname.c_str());
		return;
	}
	g_regex_live--;
	memset(r, 0x5A, sizeof(*r));
}
void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn)
{
	violate("abort", "assert", "assertion '%s' failed in %s (%s:%u), op %s", e, fn, base(file), line, S.opname.c_str());
}
void __wrap_abort(void)
{
	violate("abort", "abort", "the library called abort() in op %s", S.opname.c_str());
}
} // extern C
void real_free_buf(void *p) { __real_free(p); }

// ------------------------------------------------------------ worlds
struct WorldDef { WorldFactory f; const char *doc; };
static std::map<std::string, WorldDef> &worlds() { static std::map<std::string, WorldDef> w; return w; }
void register_world(const char *name, WorldFactory f, const char *doc) { worlds()[name] = { f, doc }; }

static int log_sink(int, enum ec_log_level, void *, const char *) { return 0; }

static bool run_once(const std::string &world, const std::string &variant, uint64_t seed, bool replay)
{
	auto it = worlds().find(world);
	if (it == worlds().end()) { fprintf(stderr, "unknown world %s\n", world.c_str()); _exit(3); }
	in_violation = 0;
	alloc_reset(seed);
	S.begin_run((world + "/" + variant).c_str(), seed, replay);
	arm_timer(20);
	World *w = it->second.f(variant);
	bool ok = true;
	try {
		bool own = w->own_init();
		ec_log_fct_register(log_sink, nullptr);
		ec_log_level_set(EC_LOG_ERR);
		if (!own && ec_init() < 0)
			violate("spurious", "init", "ec_init() failed without any fault");
		w->setup();
		while (S.next_op()) {
			if (S.verbose) printf("# op %zu\n", S.op_idx);
			S.steps = 0;
			arm_timer(20);
			w->step();
			S.end_op();
		}
		S.opname = "teardown";
		S.steps = 0;
		arm_timer(20);
		w->teardown();
		if (!own) ec_exit();
		if (!w->own_leak_check()) check_no_leak("end-of-run");
	} catch (RunAbort &) {
		ok = false;
		stats.aborted_other++;
	}
	arm_timer(0);
	if (ok) delete w; // else: leak the harness state, the library state is unknown
	stats.runs++;
	if (tlog) tlog->hash = S.hash;
	return ok;
}

// ------------------------------------------------------------ tape files
struct TapeFile { std::string world, variant, property, cls, key; uint64_t seed = 0; std::vector<OpRec> ops;
	uint64_t seq_stride = 0, seq_count = 0; }; // sequence: seeds seed, seed+stride, ... in one process

static std::string join(const std::vector<uint32_t> &v)
{
	std::string s;
	for (size_t i = 0; i < v.size(); i++) s += fmt(i ? ",%u" : "%u", v[i]);
	return s;
}
static std::vector<uint32_t> split(const char *s)
{
	std::vector<uint32_t> v;
	while (*s && *s != ' ' && *s != '\n') {
		char *e;
		v.push_back((uint32_t)strtoul(s, &e, 10));
		if (e == s) break;
		s = e;
		if (*s == ',') s++;
	}
	return v;
}

static void write_tape(const std::string &path, const TapeFile &t, const std::string &comment)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); _exit(3); }
	fprintf(f, "libecoli-sim-replay 1\nproperty %s\nworld %s %s\nseed %llu\nclass %s\nkey %s\n", t.property.c_str(),
		t.world.c_str(), t.variant.empty() ? "-" : t.variant.c_str(), (unsigned long long)t.seed, t.cls.c_str(), t.key.c_str());
	if (t.seq_count) fprintf(f, "sequence %llu %llu\n", (unsigned long long)t.seq_stride, (unsigned long long)t.seq_count);
	for (auto &o : t.ops)
		fprintf(f, "op c=%s f=%s s=%s\n", join(o.c).c_str(), join(o.f).c_str(), join(o.s).c_str());
	fprintf(f, "%s", comment.c_str());
	fclose(f);
}

static bool read_tape(const char *path, TapeFile &t)
{
	FILE *f = fopen(path, "r");
	if (!f) return false;
	char *line = nullptr;
	size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		char a[256], b[256];
		if (sscanf(line, "property %255s", a) == 1) t.property = a;
		else if (sscanf(line, "world %255s %255s", a, b) == 2) { t.world = a; t.variant = strcmp(b, "-") ? b : ""; }
		else if (sscanf(line, "class %255s", a) == 1) t.cls = a;
		else if (sscanf(line, "key %255s", a) == 1) t.key = a;
		else if (!strncmp(line, "sequence ", 9)) { unsigned long long x = 0, y = 0; sscanf(line + 9, "%llu %llu", &x, &y); t.seq_stride = x; t.seq_count = y; }
		else if (!strncmp(line, "seed ", 5)) t.seed = strtoull(line + 5, nullptr, 10);
		else if (!strncmp(line, "op ", 3)) {
			OpRec o;
			const char *c = strstr(line, "c="), *ff = strstr(line, " f="), *s = strstr(line, " s=");
			if (c) o.c = split(c + 2);
			if (ff) o.f = split(ff + 3);
			if (s) o.s = split(s + 3);
			t.ops.push_back(o);
		}
	}
	__real_free(line);
	fclose(f);
	return true;
}

static std::vector<OpRec> tape_from_log(const TapeLog *l, std::vector<std::vector<uint32_t>> *fired)
{
	std::vector<OpRec> ops;
	if (fired) fired->clear();
	for (uint64_t i = 0; i < l->n; i++) {
		unsigned tag = l->tok[i] >> 56;
		uint32_t v = (uint32_t)l->tok[i];
		if (tag == T_OP) { ops.emplace_back(); if (fired) fired->emplace_back(); }
		else if (ops.empty()) continue;
		else if (tag == T_C) ops.back().c.push_back(v);
		else if (tag == T_F) ops.back().f.push_back(v);
		else if (tag == T_S) ops.back().s.push_back(v);
		else if (tag == T_FIRED && fired) fired->back().push_back(v);
	}
	return ops;
}

struct Outcome { bool failed = false; std::string cls, key, msg; uint64_t hash = 0; std::vector<OpRec> ops; std::vector<std::vector<uint32_t>> fired; };

// run a tape (or a seed) in a forked child
static Outcome run_child(const std::string &world, const std::string &variant, uint64_t seed, const std::vector<OpRec> *ops, bool verbose,
	uint64_t stride = 0, uint64_t count = 1)
{
	Outcome o;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
		S.verbose = verbose;
		if (ops) S.tape = *ops;
		for (uint64_t i = 0; i < count; i++) {
			S.verbose = verbose && i + 1 == count;
			run_once(world, variant, seed + i * stride, ops != nullptr);
		}
		die(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	o.failed = code != 0;
	o.hash = tlog->hash;
	if (o.failed) {
		o.cls = tlog->cls; o.key = tlog->key; o.msg = tlog->msg;
		if (o.cls.empty()) { o.cls = "memory"; o.key = fmt("exit-%d", code); o.msg = fmt("process ended with status %d", code); }
	}
	o.ops = tape_from_log(tlog, &o.fired);
	return o;
}

static bool same_fail(const Outcome &a, const std::string &cls) { return a.failed && a.cls == cls; }

static std::vector<OpRec> minimise(const TapeFile &t0, const std::string &cls, double budget_s, int &tries)
{
	struct timespec ts0, ts;
	clock_gettime(CLOCK_MONOTONIC, &ts0);
	auto elapsed = [&]() { clock_gettime(CLOCK_MONOTONIC, &ts); return (ts.tv_sec - ts0.tv_sec) + (ts.tv_nsec - ts0.tv_nsec) / 1e9; };
	tries = 0;
	std::vector<OpRec> cur = t0.ops;
	auto attempt = [&](std::vector<OpRec> cand) {
		if (elapsed() > budget_s) return false;
		tries++;
		Outcome o = run_child(t0.world, t0.variant, t0.seed, &cand, false);
		if (!same_fail(o, cls)) return false;
		// normalise: keep only the decisions actually used
		cur = o.ops.size() <= cand.size() ? o.ops : cand;
		return true;
	};
	// 1. convert fault plans to explicit lists of fired points
	{
		Outcome o = run_child(t0.world, t0.variant, t0.seed, &cur, false);
		std::vector<OpRec> c = o.ops;
		for (size_t i = 0; i < c.size(); i++) {
			c[i].f.clear();
			if (i < o.fired.size() && !o.fired[i].empty()) {
				c[i].f.push_back(PM_LIST);
				for (uint32_t x : o.fired[i]) c[i].f.push_back(x);
			}
		}
		attempt(c);
	}
	bool progress = true;
	for (int round = 0; round < 6 && progress && elapsed() < budget_s; round++) {
		progress = false;
		// 2. drop ops (ddmin style); record 0 is the setup
		for (size_t chunk = cur.size() / 2; chunk >= 1; chunk /= 2) {
			for (size_t i = cur.size(); i > 1;) {
				size_t b = i > chunk ? i - chunk : 1;
				if (b < 1) b = 1;
				if (i > cur.size()) { i = cur.size(); continue; }
				std::vector<OpRec> c = cur;
				c.erase(c.begin() + b, c.begin() + i);
				if (attempt(c)) progress = true;
				i = b;
				if (elapsed() > budget_s) break;
			}
			if (chunk == 1) break;
		}
		// 3. drop faults
		for (size_t i = 0; i < cur.size(); i++) {
			if (cur[i].f.empty()) continue;
			std::vector<OpRec> c = cur;
			c[i].f.clear();
			if (attempt(c)) { progress = true; continue; }
			for (size_t k = cur[i].f.size(); k > 1 && i < cur.size() && cur[i].f.size() > 2; k--) {
				if (k - 1 >= cur[i].f.size()) continue;
				c = cur;
				c[i].f.erase(c[i].f.begin() + (k - 1));
				if (attempt(c)) progress = true;
			}
		}
		// 4. simplify schedule and workload choices
		for (size_t i = 0; i < cur.size(); i++) {
			for (int which = 0; which < 2; which++) {
				for (size_t k = 0; i < cur.size(); k++) {
					auto &v = which ? cur[i].s : cur[i].c;
					if (k >= v.size() || k > 60) break;
					if (v[k] == 0) continue;
					std::vector<OpRec> c = cur;
					auto &cv = which ? c[i].s : c[i].c;
					cv[k] = 0;
					if (attempt(c)) { progress = true; continue; }
					if (v[k] > 1) {
						c = cur;
						auto &cw = which ? c[i].s : c[i].c;
						cw[k] /= 2;
						if (attempt(c)) progress = true;
					}
				}
				if (elapsed() > budget_s) break;
			}
		}
	}
	// drop trailing zero choices
	for (auto &o : cur) {
		while (!o.c.empty() && o.c.back() == 0) o.c.pop_back();
		while (!o.s.empty() && o.s.back() == 0) o.s.pop_back();
	}
	return cur;
}

} // namespace sim

extern "C" const char *__asan_default_options(void)
{
	return "abort_on_error=0:exitcode=78:detect_leaks=0:handle_abort=0:handle_segv=1:handle_sigfpe=1:handle_sigill=1:"
	       "allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:symbolize=1:quarantine_size_mb=16:malloc_context_size=1:"
	       "strict_init_order=0:check_initialization_order=0:use_sigaltstack=1";
}

using namespace sim;

static const char *arg(int argc, char **argv, const char *name, const char *def)
{
	for (int i = 1; i + 1 < argc; i++)
		if (!strcmp(argv[i], name)) return argv[i + 1];
	return def;
}

int main(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	setlinebuf(stdout);
	struct rlimit rl = { 64u << 20, RLIM_INFINITY };
	(void)rl;
	std::string cmd = argc > 1 ? argv[1] : "";
	const char *tf = arg(argc, argv, "--tape", nullptr);
	void *m;
	if (tf) {
		int fd = open(tf, O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(TapeLog)) < 0) { perror(tf); return 3; }
		m = mmap(nullptr, sizeof(TapeLog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	} else {
		m = mmap(nullptr, sizeof(TapeLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	if (m == MAP_FAILED) { perror("mmap"); return 3; }
	tlog = (TapeLog *)m;
	const char *cl = arg(argc, argv, "--classes", "");
	for (const char *p = cl; *p;) {
		std::string c;
		while (*p && *p != ',') c += *p++;
		if (*p == ',') p++;
		if (!c.empty()) g_classes.insert(c);
	}
	if (!g_classes.empty()) { g_classes.insert("memory"); g_classes.insert("abort"); g_classes.insert("hang"); }
	__asan_set_error_report_callback(asan_report);
	signal(SIGABRT, on_abort);
	signal(SIGVTALRM, on_timer);
	signal(SIGALRM, on_tick);
	signal(SIGPIPE, SIG_IGN);
	alloc_install();

	std::string world = arg(argc, argv, "--world", "");
	std::string variant;
	size_t sl = world.find('/');
	if (sl != std::string::npos) { variant = world.substr(sl + 1); world = world.substr(0, sl); }
	if (cmd == "list") {
		for (auto &w : worlds()) printf("%s: %s\n", w.first.c_str(), w.second.doc);
		return 0;
	}
	if (cmd == "batch") { // run seeds from..from+stride*n until the time is up
		uint64_t from = strtoull(arg(argc, argv, "--from", "0"), nullptr, 10);
		uint64_t stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
		uint64_t maxn = strtoull(arg(argc, argv, "--count", "1000000000"), nullptr, 10);
		double secs = atof(arg(argc, argv, "--seconds", "5"));
		const char *hf = arg(argc, argv, "--hashes", nullptr);
		FILE *hout = hf ? fopen(hf, "wb") : nullptr;
		const char *pf = arg(argc, argv, "--progress", nullptr);
		uint64_t *prog = nullptr; // [0]=seeds done [1]=current seed, then stats text on exit
		if (pf) {
			int fd = open(pf, O_RDWR | O_CREAT, 0644);
			if (fd < 0 || ftruncate(fd, 4096) < 0) { perror(pf); return 3; }
			prog = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		}
		struct timespec t0, t1;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		int devnull = open("/dev/null", O_WRONLY);
		dup2(devnull, 2);
		uint64_t n = 0;
		bool stopped = false;
		for (; n < maxn; n++) {
			uint64_t seed = from + n * stride;
			uint64_t f0 = 0;
			for (int k = 0; k < K_N; k++) f0 += stats.fired[k];
			uint64_t sw0 = stats.switches;
			if (prog) { prog[0] = n; prog[1] = seed; }
			bool ok = run_once(world, variant, seed, false);
			uint64_t f1 = 0;
			for (int k = 0; k < K_N; k++) f1 += stats.fired[k];
			if (hout) {
				uint64_t rec[2] = { S.hash, (f1 > f0 ? 1u : 0u) | (stats.switches > sw0 ? 2u : 0u) };
				fwrite(rec, sizeof(rec), 1, hout);
			}
			if (!ok) { n++; stopped = true; break; } // library state unknown: the driver restarts after this seed
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > secs) { n++; break; }
			if (n % 64 == 63 && prog) {
				uint64_t *p = prog + 8;
				p[0] = stats.runs; p[1] = stats.ops; p[2] = stats.fault_ops; p[3] = stats.switches; p[4] = stats.checks; p[5] = stats.aborted_other;
				for (int k = 0; k < K_N; k++) { p[8 + k] = stats.fired[k]; p[32 + k] = stats.points[k]; }
			}
		}
		if (prog) prog[0] = n;
		if (hout) fclose(hout);
		printf("{\"runs\":%llu,\"ops\":%llu,\"fault_ops\":%llu,\"failed_ops\":%llu,\"ok_under_fault\":%llu,\"switches\":%llu,\"checks\":%llu,\"other\":%llu",
			(unsigned long long)stats.runs, (unsigned long long)stats.ops, (unsigned long long)stats.fault_ops,
			(unsigned long long)stats.failed_ops, (unsigned long long)stats.ok_under_fault, (unsigned long long)stats.switches,
			(unsigned long long)stats.checks, (unsigned long long)stats.aborted_other);
		printf(",\"fired\":{");
		bool first = true;
		for (int k = 0; k < K_N; k++)
			if (stats.fired[k] || stats.points[k]) {
				printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", kind_name[k], (unsigned long long)stats.fired[k], (unsigned long long)stats.points[k]);
				first = false;
			}
		printf("},\"probes\":{");
		first = true;
		for (auto &p : stats.probes) { printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; }
		printf("},\"stopped\":%d,\"next\":%llu}\n", stopped ? 1 : 0, (unsigned long long)(from + n * stride));
		return 0;
	}
	if (cmd == "hash") { // determinism probe: print the history hash of seeds
		uint64_t from = strtoull(arg(argc, argv, "--from", "0"), nullptr, 10);
		uint64_t n = strtoull(arg(argc, argv, "--count", "1"), nullptr, 10);
		for (uint64_t i = 0; i < n; i++) {
			run_once(world, variant, from + i, false);
			printf("%llu %016llx\n", (unsigned long long)(from + i), (unsigned long long)S.hash);
		}
		return 0;
	}
	if (cmd == "seed") { // verbose single seed, in this process
		S.verbose = true;
		run_once(world, variant, strtoull(arg(argc, argv, "--from", "0"), nullptr, 10), false);
		printf("OK hash=%016llx\n", (unsigned long long)S.hash);
		return 0;
	}
	if (cmd == "find") { // re-run a failing seed, gate, minimise and write the replay file
		uint64_t seed = strtoull(arg(argc, argv, "--from", "0"), nullptr, 10);
		const char *out = arg(argc, argv, "--out", "replay.txt");
		double budget = atof(arg(argc, argv, "--min-seconds", "20"));
		Outcome a = run_child(world, variant, seed, nullptr, false);
		Outcome b = run_child(world, variant, seed, nullptr, false);
		if (!a.failed || !b.failed || a.cls != b.cls || a.hash != b.hash) {
			printf("NOT-REPRODUCED failed=%d/%d cls=%s/%s hash=%016llx/%016llx\n", a.failed, b.failed, a.cls.c_str(), b.cls.c_str(),
				(unsigned long long)a.hash, (unsigned long long)b.hash);
			return 4;
		}
		TapeFile t;
		t.world = world; t.variant = variant; t.seed = seed; t.cls = a.cls; t.key = a.key; t.ops = a.ops;
		t.property = arg(argc, argv, "--property", "-");
		Outcome c = run_child(world, variant, seed, &t.ops, false);
		int tries = 0;
		if (c.failed && c.cls == a.cls) {
			t.ops = minimise(t, a.cls, budget, tries);
			Outcome d = run_child(world, variant, seed, &t.ops, false);
			if (!d.failed || d.cls != a.cls) { printf("NOT-REPRODUCED after minimisation\n"); return 4; }
			t.key = d.key;
			t.cls = d.cls;
			write_tape(out, t, fmt("# %s\n# %zu -> %zu records, %d candidate executions\n", d.msg.c_str(), a.ops.size(), t.ops.size(), tries));
			printf("REPRODUCED class=%s key=%s ops=%zu->%zu msg=%s\n", d.cls.c_str(), d.key.c_str(), a.ops.size(), t.ops.size(), d.msg.c_str());
			return 0;
		}
		printf("NOT-REPRODUCED from tape (cls=%s)\n", c.cls.c_str());
		return 4;
	}
	if (cmd == "findseq") { // a failure that needs the history of earlier runs in the same process
		uint64_t seed = strtoull(arg(argc, argv, "--from", "0"), nullptr, 10);
		uint64_t stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
		uint64_t maxn = strtoull(arg(argc, argv, "--count", "1"), nullptr, 10);
		const char *out = arg(argc, argv, "--out", "replay.txt");
		for (uint64_t n = 2; ; n *= 2) {
			if (n > maxn) n = maxn;
			Outcome a = run_child(world, variant, seed - (n - 1) * stride, nullptr, false, stride, n);
			if (a.failed) {
				Outcome b = run_child(world, variant, seed - (n - 1) * stride, nullptr, false, stride, n);
				if (!b.failed || a.cls != b.cls || a.hash != b.hash) break;
				TapeFile t;
				t.world = world; t.variant = variant; t.seed = seed - (n - 1) * stride; t.cls = a.cls; t.key = a.key;
				t.property = arg(argc, argv, "--property", "-");
				t.seq_stride = stride; t.seq_count = n;
				write_tape(out, t, fmt("# %s\n", a.msg.c_str()));
				printf("REPRODUCED class=%s key=%s runs=%llu msg=%s\n", a.cls.c_str(), a.key.c_str(), (unsigned long long)n, a.msg.c_str());
				return 0;
			}
			if (n >= maxn) break;
		}
		printf("NOT-REPRODUCED as a sequence\n");
		return 4;
	}
	if (cmd == "replay") {
		TapeFile t;
		if (!read_tape(argv[2], t)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
		bool v = !getenv("SIM_QUIET");
		Outcome o = t.seq_count ? run_child(t.world, t.variant, t.seed, nullptr, v, t.seq_stride, t.seq_count) :
			run_child(t.world, t.variant, t.seed, &t.ops, v);
		if (o.failed) {
			printf("REPLAY-VIOLATION property=%s class=%s key=%s hash=%016llx msg=%s\n", t.property.c_str(), o.cls.c_str(), o.key.c_str(), (unsigned long long)o.hash, o.msg.c_str());
			return 1;
		}
		printf("REPLAY-OK hash=%016llx\n", (unsigned long long)o.hash);
		return 0;
	}
	fprintf(stderr, "usage: sim list|batch|hash|seed|find|replay ...\n");
	return 3;
}
