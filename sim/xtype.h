// Node types defined by the simulated application, through the public
// interface only: "xleaf" (a terminal node issuing every kind of completion
// item) and "xpair" (a sequence of two children).
#pragma once
#include "sim.h"
namespace xtype {
extern int live;        // private areas initialised and not yet released
extern int attr_live;   // values attached to completion results and not yet released
extern int tolerated;   // items that could not be added, in a callback that carries on
extern int mute;        // callbacks that failed without setting errno
void reset();
void ensure();          // registers the types, once per process
struct ec_node *leaf(const char *id, const char *text, unsigned mode);
struct ec_node *pair(const char *id, struct ec_node *a, struct ec_node *b, bool via_config);
void op_register();     // registration of further types
}
