#include "simio.h"
using namespace sim;
namespace simio {
static std::map<std::string, std::string> *files;
static int n_open;
bool active;
void reset() { if (!files) files = new std::map<std::string, std::string>(); files->clear(); n_open = 0; active = true; }
void put(const std::string &p, const std::string &d) { (*files)[p] = d; }
void remove(const std::string &p) { files->erase(p); }
int open_streams() { return n_open; }
struct Cookie { std::string d; size_t pos; bool failed; };
static ssize_t c_read(void *v, char *buf, size_t n)
{
	Cookie *c = (Cookie *)v;
	S.step();
	if (c->failed || S.fault(K_IO)) { c->failed = true; errno = EIO; return -1; }
	size_t k = std::min(n, c->d.size() - c->pos);
	if (k > 1 && S.in_op) { // short reads are legal and must not matter
		uint64_t h = (c->pos + 1) * 0x9E3779B97F4A7C15ull ^ c->d.size();
		if (h >> 62 == 0) k = 1 + (h >> 20) % k;
	}
	memcpy(buf, c->d.data() + c->pos, k);
	c->pos += k;
	return (ssize_t)k;
}
static int c_close(void *v) { delete (Cookie *)v; n_open--; return 0; }
static int c_seek(void *v, off64_t *o, int wh)
{
	Cookie *c = (Cookie *)v;
	off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)c->pos : (off64_t)c->d.size();
	if (b + *o < 0 || b + *o > (off64_t)c->d.size()) { errno = EINVAL; return -1; }
	c->pos = (size_t)(b + *o);
	*o = (off64_t)c->pos;
	return 0;
}
}
namespace simio {
static size_t yl_live;
static uint64_t yl_faults;
size_t yaml_live() { return yl_live; }
uint64_t yaml_faults() { return yl_faults; }
static bool yl_fail() { if (S.fault(K_LIBC)) { yl_faults++; errno = ENOMEM; return true; } return false; }
}
extern "C" {
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *yl_malloc(size_t n) { if (simio::yl_fail()) return nullptr; simio::yl_live++; return __real_malloc(n); }
void *yl_realloc(void *p, size_t n) { if (simio::yl_fail()) return nullptr; if (!p) simio::yl_live++; return __real_realloc(p, n); }
void yl_free(void *p) { S.step(); if (p) simio::yl_live--; __real_free(p); }
char *yl_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)yl_malloc(n); if (p) memcpy(p, s, n); return p; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode)
{
	if (!simio::active || !simio::files) return __real_fopen(path, mode);
	if (S.fault(K_IO)) { errno = EMFILE; return nullptr; }
	auto it = simio::files->find(path);
	if (it == simio::files->end()) { errno = ENOENT; return nullptr; }
	cookie_io_functions_t f = { simio::c_read, nullptr, simio::c_seek, simio::c_close };
	FILE *r = fopencookie(new simio::Cookie{ it->second, 0, false }, mode, f);
	if (r) simio::n_open++;
	return r;
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
}
