// Logging model: arguments are evaluated, nothing is printed.
#pragma once
#include <string>
#define LOGURU_VERSION_MAJOR 2
namespace loguru {
    enum { Verbosity_INVALID = -10, Verbosity_OFF = -9, Verbosity_FATAL = -3, Verbosity_ERROR = -2, Verbosity_WARNING = -1, Verbosity_INFO = 0, Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_9 = 9, Verbosity_MAX = 9 };
    using Verbosity = int;
    enum FileMode { Truncate, Append };
    template<typename... A> inline void hz_log(int, const char *f, A &&...) { (void) *(const volatile char *) f; }
    inline bool add_file(const char *, FileMode, Verbosity) { return true; }
    inline void set_thread_name(const char *) {}
    inline void init(int &, char *[]) {}
    inline int g_stderr_verbosity = 0;
}
#define LOG_F(v, ...) loguru::hz_log(loguru::Verbosity_##v, __VA_ARGS__)
#define VLOG_F(v, ...) loguru::hz_log(v, __VA_ARGS__)
#define LOG_IF_F(v, c, ...) do { if (c) LOG_F(v, __VA_ARGS__); } while (0)
#define DLOG_F LOG_F
#define RAW_LOG_F LOG_F
#define LOG_SCOPE_F LOG_F
#define LOG_SCOPE_FUNCTION(v)
