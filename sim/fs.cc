#include <fcntl.h>
#include "fs.h"
#include "model.h"
using namespace sim;

namespace simfs {
uint64_t calls;
typedef std::map<std::string, std::vector<Ent>> Tree; // directory path ("." based) -> entries
static Tree tree;
struct Handle { bool open; std::string dir; size_t pos; struct dirent de; };
static std::vector<std::unique_ptr<Handle>> handles;

void reset() { tree.clear(); handles.clear(); calls = 0; tree["."]; tree["/"]; }

// path as written by the application -> canonical directory key
static std::string canon(std::string p)
{
	while (p.size() > 1 && p.back() == '/') p.pop_back();
	if (p == "." || p == "/") return p;
	if (p.compare(0, 2, "./") == 0) return canon(p.substr(2));
	return p;
}
static std::string join(const std::string &d, const std::string &n)
{
	if (d == ".") return n;
	if (d == "/") return "/" + n;
	return d + "/" + n;
}
static const char *names[] = { "foo", "fool", "bar", ".hid", "sub", "f", "a b", "dir1", "ba", ".sub", "x\"y", "z", "..x", "Foo", "s\xc3\xa9", "back\\slash" };

static void add(const std::string &d)
{
	Ent e;
	e.name = names[S.draw(16)];
	for (auto &x : tree[d]) if (x.name == e.name) return;
	e.is_dir = S.draw(3) == 0;
	e.dtype_known = S.draw(3) != 0;
	e.symlink = S.draw(6) == 0;
	tree[d].push_back(e);
	if (e.is_dir) tree[join(d, e.name)];
}

void populate()
{
	reset();
	uint32_t n = 2 + S.draw(7);
	for (uint32_t i = 0; i < n; i++) {
		std::vector<std::string> ds;
		for (auto &t : tree) ds.push_back(t.first);
		add(ds[S.draw((uint32_t)ds.size())]);
	}
}

void mutate()
{
	std::vector<std::string> ds;
	for (auto &t : tree) ds.push_back(t.first);
	std::string d = ds[S.draw((uint32_t)ds.size())];
	auto &v = tree[d];
	if (S.draw(2) || v.empty()) { add(d); return; }
	size_t i = S.draw((uint32_t)v.size());
	std::string sub = join(d, v[i].name);
	v.erase(v.begin() + i);
	for (auto it = tree.begin(); it != tree.end();) {
		if (it->first == sub || it->first.compare(0, sub.size() + 1, sub + "/") == 0) it = tree.erase(it);
		else ++it;
	}
}

int open_handles()
{
	int n = 0;
	for (auto &h : handles) n += h->open;
	return n;
}

std::string random_path()
{
	std::vector<std::string> ds;
	for (auto &t : tree) ds.push_back(t.first);
	std::string d = ds[S.draw((uint32_t)ds.size())];
	std::string p = d == "." ? (S.draw(3) ? "" : "./") : d == "/" ? "/" : d + "/";
	auto &v = tree[d];
	if (!v.empty() && S.draw(4)) {
		std::string n = v[S.draw((uint32_t)v.size())].name;
		p += n.substr(0, S.draw((uint32_t)n.size() + 1));
	} else if (S.draw(6) == 0)
		p += "nope/";
	return p;
}

// a symbolic link to a directory is followed only if something comes after it
static bool is_link(const std::string &dir)
{
	std::string c = canon(dir);
	if (c == "." || c == "/" || dir.back() == '/') return false;
	size_t sl = c.rfind('/');
	std::string par = sl == std::string::npos ? "." : sl == 0 ? "/" : c.substr(0, sl);
	std::string nm = sl == std::string::npos ? c : c.substr(sl + 1);
	auto p = tree.find(par);
	if (p != tree.end()) for (auto &e : p->second) if (e.name == nm) return e.symlink;
	return false;
}
static int model_list(const std::string &dir, bool *not_dir, std::vector<model::FileEntry> *out)
{
	auto it = tree.find(canon(dir));
	if (it != tree.end() && is_link(dir)) { *not_dir = true; return 0; }
	if (it == tree.end()) {
		// maybe an existing non-directory
		std::string c = canon(dir);
		size_t sl = c.rfind('/');
		std::string par = sl == std::string::npos ? "." : sl == 0 ? "/" : c.substr(0, sl);
		std::string nm = sl == std::string::npos ? c : c.substr(sl + 1);
		auto p = tree.find(par);
		if (p != tree.end())
			for (auto &e : p->second)
				if (e.name == nm && dir.back() != '/') { *not_dir = true; return 0; }
		return -1;
	}
	out->push_back({ ".", DT_DIR, true });
	out->push_back({ "..", DT_DIR, true });
	for (auto &e : it->second) {
		bool d = e.dtype_known ? (e.is_dir && !e.symlink) : e.is_dir;
		out->push_back({ e.name, 0, d });
	}
	return 0;
}
void install_model() { model::list_dir = model_list; }

static int err(int a, int b, int c)
{
	(void)c;
	errno = S.points % 2 ? a : b;
	return -1;
}
} // namespace simfs
using namespace simfs;

extern "C" {
int __wrap_lstat(const char *path, struct stat *st)
{
	calls++;
	if (S.fault(K_FS)) return err(EACCES, EIO, 0);
	memset(st, 0, sizeof(*st));
	bool nd = false;
	std::vector<model::FileEntry> o;
	if (model::list_dir(path, &nd, &o) < 0) { errno = ENOENT; return -1; }
	st->st_mode = nd ? is_link(path) ? S_IFLNK : S_IFREG : S_IFDIR;
	return 0;
}
int __wrap_stat(const char *path, struct stat *st)
{
	int r = __wrap_lstat(path, st);
	if (r == 0 && S_ISLNK(st->st_mode)) st->st_mode = S_IFREG;
	return r;
}
DIR *__wrap_opendir(const char *path)
{
	calls++;
	if (S.fault(K_FS)) { err(EACCES, EMFILE, 0); return nullptr; }
	bool nd = false;
	std::vector<model::FileEntry> o;
	if (model::list_dir(path, &nd, &o) < 0 || (nd && !is_link(path))) { errno = ENOENT; return nullptr; }
	handles.emplace_back(new Handle());
	Handle *h = handles.back().get();
	h->open = true;
	h->dir = canon(path);
	h->pos = 0;
	return (DIR *)h;
}
static Handle *hnd(DIR *d, const char *what)
{
	for (auto &h : handles)
		if ((DIR *)h.get() == d) {
			if (!h->open) violate("memory", "closed-dir", "%s() on a directory stream that was already closed", what);
			return h.get();
		}
	violate("memory", "bad-dir", "%s() on something that is not an open directory stream", what);
}
struct dirent *__wrap_readdir(DIR *d)
{
	calls++;
	Handle *h = hnd(d, "readdir");
	if (S.fault(K_FS)) { errno = EIO; return nullptr; }
	auto &v = tree[h->dir];
	if (h->pos >= v.size() + 2) return nullptr;
	memset(&h->de, 0, sizeof(h->de));
	if (h->pos < 2) {
		strcpy(h->de.d_name, h->pos ? ".." : ".");
		h->de.d_type = DT_DIR;
	} else {
		Ent &e = v[h->pos - 2];
		snprintf(h->de.d_name, sizeof(h->de.d_name), "%s", e.name.c_str());
		h->de.d_type = !e.dtype_known ? DT_UNKNOWN : e.symlink ? DT_LNK : e.is_dir ? DT_DIR : DT_REG;
	}
	h->pos++;
	return &h->de;
}
int __wrap_closedir(DIR *d)
{
	calls++;
	Handle *h = hnd(d, "closedir");
	h->open = false;
	return 0;
}
int __wrap_dirfd(DIR *d)
{
	calls++;
	Handle *h = hnd(d, "dirfd");
	if (S.fault(K_FS)) return err(EINVAL, ENOTSUP, 0);
	for (size_t i = 0; i < handles.size(); i++) if (handles[i].get() == h) return 1000 + (int)i;
	return -1;
}
int __wrap_fstatat(int fd, const char *name, struct stat *st, int flags)
{
	calls++;
	if (fd < 1000 || (size_t)(fd - 1000) >= handles.size() || !handles[fd - 1000]->open)
		violate("memory", "bad-dirfd", "fstatat() on a descriptor that is not open");
	if (S.fault(K_FS)) return err(ENOENT, EACCES, 0);
	memset(st, 0, sizeof(*st));
	std::string dir = handles[fd - 1000]->dir;
	for (auto &e : tree[dir])
		if (e.name == name) {
			st->st_mode = e.symlink && (flags & AT_SYMLINK_NOFOLLOW) ? S_IFLNK : e.is_dir ? S_IFDIR : S_IFREG;
			return 0;
		}
	errno = ENOENT;
	return -1;
}
}
