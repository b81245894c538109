#include "sched.h"
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <exception>
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
}
using namespace sim;

namespace sched {
namespace {
const size_t STACK = 1 << 20;
const int MAX = 8;
struct Task { ucontext_t uc; char *stack = nullptr; void *fake = nullptr; const std::function<void()> *f = nullptr; bool done = true; int err = 0; uint32_t fired = 0; std::string op; };
Task T[MAX];
ucontext_t main_uc;
void *main_fake;
const void *main_bottom;
size_t main_size;
int cur = -1;
int alive = 0, ntasks = 0;
unsigned gap = 0, gap_max = 8;
std::exception_ptr ex;

void to_main(bool last)
{
	Task &t = T[cur];
	t.err = errno;
	t.op = S.opname;
	__sanitizer_start_switch_fiber(last ? nullptr : &t.fake, main_bottom, main_size);
	swapcontext(&t.uc, &main_uc);
	__sanitizer_finish_switch_fiber(t.fake, &main_bottom, &main_size);
	errno = t.err;
}
void entry()
{
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
	Task &t = T[cur];
	errno = 0;
	try { (*t.f)(); } catch (RunAbort &) { ex = std::current_exception(); }
	t.done = true;
	to_main(true);
	abort();
}
void point()
{
	if (cur < 0 || alive < 2) return;
	if (gap) { gap--; return; }
	stats.switches++;
	to_main(false);
}
void resume(int i)
{
	cur = i;
	S.task_fired = &T[i].fired;
	S.opname = T[i].op;
	__sanitizer_start_switch_fiber(&main_fake, T[i].stack, STACK);
	swapcontext(&main_uc, &T[i].uc);
	__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
	S.task_fired = nullptr;
	cur = -1;
}
} // namespace
int current() { return cur; }
uint32_t fired(int t) { return T[t].fired; }
void reset()
{
	S.at_point = nullptr;
	S.task_fired = nullptr;
	cur = -1;
	alive = 0;
}
void run(const std::vector<std::function<void()>> &tasks, unsigned max_gap)
{
	std::string op = S.opname;
	ntasks = (int)tasks.size();
	if (ntasks > MAX) _exit(3);
	gap_max = max_gap ? max_gap : 1;
	ex = nullptr;
	for (int i = 0; i < ntasks; i++) {
		Task &t = T[i];
		if (!t.stack) {
			t.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (t.stack == MAP_FAILED) _exit(3);
		}
		getcontext(&t.uc);
		t.uc.uc_stack.ss_sp = t.stack;
		t.uc.uc_stack.ss_size = STACK;
		t.uc.uc_link = nullptr;
		makecontext(&t.uc, entry, 0);
		t.f = &tasks[(size_t)i];
		t.done = false;
		t.fired = 0;
		t.err = 0;
		t.op = op;
		t.fake = nullptr;
	}
	alive = ntasks;
	S.at_point = point;
	while (alive) {
		int k = (int)S.sdraw((uint32_t)alive), i = 0;
		for (;; i++) if (!T[i].done && k-- == 0) break;
		gap = S.sdraw(gap_max);
		S.ev("run task %d for %u", i, gap);
		resume(i);
		if (T[i].done) alive--;
		if (ex) { // the run is abandoned; the other tasks are left where they are
			reset();
			std::rethrow_exception(ex);
		}
	}
	S.at_point = nullptr;
	S.opname = op;
}
} // namespace sched
