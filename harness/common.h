#ifndef COMMON_H
#define COMMON_H
#include "mc.h"
extern "C" {
#include <glib.h>
#include <json.h>
#include "report_type.h"
#include "location.h"
#include "utils.h"
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "distance.h"
#include "normalize.h"
#include "report.h"
#include "rpm.h"
#include "operating_system.h"
#include "abrt.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "js/frame.h"
#include "js/platform.h"
#include "js/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "cluster.h"
}
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>

using mc::fmt;
using mc::quote;
using std::string;
using std::vector;

inline string S(const char *p) { return p ? string(p) : string("(null)"); }
inline string take(char *p) { string s = S(p); g_free(p); return s; }

// exact-size heap copy of a text, so that any read past the terminator is caught
struct Exact {
    char *p; size_t n;
    explicit Exact(const string &s) : n(s.size()) { p = (char *)malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0; }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
};
#endif
