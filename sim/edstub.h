// Simulated line editing library (the libedit calls the library uses): a
// terminal fed by a script of keys, history objects, bindings, failures.
#pragma once
#include "sim.h"
#include <histedit.h>
namespace ed {
struct Key { enum K { CHAR, BS, LEFT, RIGHT, UP, ENTER, EOF_, INTR, APP, HOME, END_ } k; int c; };
struct Hist { std::deque<std::string> *l; };
extern std::deque<Key> script;            // keys to come
extern int term_width, term_height;
extern size_t max_len;                    // longest line that can be typed
extern std::function<bool(const std::string &)> cheap; // whether a long line may be worked on
extern bool raw;                          // not a terminal: lines are passed as they are
// called around every bound function: before() may compute an expectation
extern std::function<void(EditLine *, int)> before;
extern std::function<void(EditLine *, int, int)> after;
extern std::function<void(EditLine *)> app;
extern std::map<std::string, std::deque<std::string>> files; // saved histories
void reset();
int live();                               // open sessions and histories
std::string buffer(EditLine *);
size_t cursor(EditLine *);
bool bound(EditLine *, int c);
std::string prompt(EditLine *);
const std::deque<std::string> *history_of(EditLine *); // through EL_HIST
int history_refs_ok(EditLine *);
}
