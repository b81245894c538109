// C++-safe inclusion of the libecoli public headers (they use the C++
// keywords `typename` and `operator` as parameter names).
#pragma once
#include <cassert>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <algorithm>
#include <dirent.h>
#include <regex.h>
#include <sys/queue.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <histedit.h>
#define typename tname_
#define operator op_
extern "C" {
#include <ecoli.h>
#include <ecoli_editline.h>
#include <ecoli_yaml.h>
#include <ecoli_node_helper.h>
}
#undef typename
#undef operator
