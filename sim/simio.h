// Simulated files reached through fopen(): contents, open failures, read
// errors, short reads.
#pragma once
#include "sim.h"
namespace simio {
void reset();
void put(const std::string &path, const std::string &data);
void remove(const std::string &path);
int open_streams();
size_t yaml_live();   // blocks held by the YAML library
uint64_t yaml_faults(); // allocation failures injected in it
extern bool active; // fopen() of the library goes to the simulated files
}
