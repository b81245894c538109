// Simulated filesystem behind lstat/opendir/readdir/closedir/dirfd/fstatat.
#pragma once
#include "sim.h"
namespace simfs {
struct Ent { std::string name; bool is_dir; bool dtype_known; bool symlink; };
void reset();
void populate();             // draws a random tree
void mutate();               // draws a random change
int open_handles();
std::string random_path();   // path (prefix) the application may complete
void install_model();        // provide model::list_dir
// calls made by the library since reset
extern uint64_t calls;
}
