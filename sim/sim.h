// Deterministic simulator core: seeded decision tape, fault plans, simulated
// allocator, violation reporting. One tape = one exactly repeatable execution.
#pragma once
#include "ec.h"

namespace sim {

enum Kind { // fault kinds
	K_ALLOC,    // ec allocator: malloc/calloc/strdup
	K_REALLOC,  // ec allocator: realloc
	K_LIBC,     // libc allocations done by the library (strdup, asprintf, ...)
	K_REGEX,    // regcomp out of memory
	K_FS,       // directory access errors
	K_IO,       // stream errors: open, read error, short read, truncation
	K_CB,       // user callback reports a failure
	K_TERM,     // terminal/line editor failures and interruptions
	K_STDIO,    // formatted output failure
	K_N
};
extern const char *kind_name[K_N];

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 32) * (uint64_t)n >> 32); }
};

struct OpRec { std::vector<uint32_t> c, f, s; };

enum PlanMode { PM_NONE, PM_SINGLE, PM_BERN, PM_FROM, PM_BURST, PM_LIST, PM_SITE };

struct Stats {
	uint64_t runs = 0, ops = 0, fault_ops = 0, failed_ops = 0, ok_under_fault = 0;
	uint64_t fired[K_N] = {0}, points[K_N] = {0};
	uint64_t switches = 0, checks = 0, aborted_other = 0, simtime = 0;
	std::map<std::string, uint64_t> probes;
};
extern Stats stats;

struct Sim {
	// ---- decisions
	bool replay = false;
	Rng rng;
	std::vector<OpRec> tape;     // replay source, or record of the current run
	size_t op_idx = 0;           // current record
	size_t pc = 0, pf = 0, ps = 0;
	std::vector<uint32_t> forced; size_t pforced = 0; bool has_forced = false;
	bool verbose = false;
	// ---- run config (swarm)
	uint32_t max_ops = 0, ops_done = 0;
	uint32_t kinds_mask = 0;
	uint32_t p_fault = 0;        // /256 per op
	uint32_t p_chain = 0;        // /256: chance that a fault op starts a sweep
	bool chain = false;
	bool op_repeatable = true;
	// ---- current op
	uint32_t mode = 0, fa = 0, fb = 0;
	std::vector<uint32_t> flist;
	Rng frng;
	uint32_t points = 0, fired = 0, site_hits = 0;
	uint32_t max_points = 0;     // of an operation of this run so far
	std::vector<uint32_t> fired_at;
	bool in_op = false;
	int suspend = 0;
	uint64_t steps = 0;
	uint64_t step_budget = 40000000;
	// ---- cooperative tasks: called at every fault point; faults are attributed to the running task
	void (*at_point)() = nullptr;
	uint32_t *task_fired = nullptr;
	// ---- history hash
	uint64_t hash = 0;
	std::string opname;

	void begin_run(const char *world, uint64_t seed, bool replay);
	void configure(uint32_t kinds, uint32_t min_ops, uint32_t max_ops);
	bool next_op();
	void end_op();
	uint32_t draw(uint32_t n);            // workload choice
	uint32_t sdraw(uint32_t n);           // schedule choice
	uint32_t fdraw(uint32_t n);           // fault-plan choice
	bool chance(uint32_t num, uint32_t den) { return draw(den) < num; }
	bool fault(Kind k);
	bool faulted() const { return task_fired ? *task_fired > 0 : fired > 0; }
	void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void step();
private:
	OpRec &rec() { return tape[op_idx]; }
};
extern Sim S;

struct NoFault {
	NoFault() { S.suspend++; }
	~NoFault() { S.suspend--; }
};

// ---- violations
[[noreturn]] void violate(const char *cls, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
struct RunAbort {}; // thrown when a violation belongs to another property
#define CHECK(cond, cls, key, ...) do { sim::stats.checks++; if (!(cond)) sim::violate(cls, key, __VA_ARGS__); } while (0)
void probe(const char *name);

// ---- allocator (registered in the library)
void alloc_install();
void alloc_reset(uint64_t seed);
struct AllocReq { char op; size_t n; const void *p, *ret; std::string file; unsigned line; };
extern std::vector<AllocReq> *alloc_log; // requests received by the registered allocator, when set
size_t alloc_size(const void *p);        // size of a live block
size_t alloc_live();
std::string alloc_live_desc();
void check_no_leak(const char *where);
bool alloc_is_live(const void *p);
extern int g_regex_live;
// memory obtained from the library allocator by the harness on behalf of the
// simulated application (e.g. values handed over to the library)
void *app_alloc(size_t n);
void real_free_buf(void *p); // libc free, not observed

std::string quote(const std::string &s);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---- worlds
struct World {
	virtual ~World() {}
	virtual void setup() = 0;
	virtual void step() = 0;
	virtual void teardown() = 0;
	virtual bool own_init() { return false; } // world manages ec_init/ec_exit itself
	virtual bool own_leak_check() { return false; }
};
typedef World *(*WorldFactory)(const std::string &variant);
void register_world(const char *name, WorldFactory f, const char *doc);
#define REGISTER_WORLD(name, fn, doc) static struct Reg_##fn { Reg_##fn() { sim::register_world(name, fn, doc); } } reg_##fn
} // namespace sim
using sim::S;
