#pragma once
// stand-in for glog: messages are dropped, FATAL ends the simulated process
#include <sstream>
#include <string>
#include "simrt.h"
namespace google {
inline void InitGoogleLogging(const char*) {}
struct NullLog {
  template <class T>
  NullLog& operator<<(const T& v) {
    std::ostringstream s;  // the arguments are formatted, as the real one does
    s << v;
    return *this;
  }
  NullLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct FatalLog {
  std::ostringstream s;
  template <class T>
  FatalLog& operator<<(const T& v) {
    s << v;
    return *this;
  }
  FatalLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  ~FatalLog() { sim::fatal("fatal-log", s.str()); }
};
inline NullLog Log_INFO() { return {}; }
inline NullLog Log_WARNING() { return {}; }
inline NullLog Log_ERROR() { return {}; }
inline FatalLog Log_FATAL() { return {}; }
}  // namespace google
#define LOG(s) ::google::Log_##s()
#define LOG_IF(s, c) if (c) LOG(s)
#define VLOG(n) if (true) {} else ::google::NullLog()
#define CHECK(c) if (c) {} else LOG(FATAL) << "Check failed: " #c
#define DCHECK(c) CHECK(c)
