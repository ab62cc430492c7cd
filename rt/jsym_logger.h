// Stand-in for the diagnostic logger (the repository lets the logger header be
// replaced through LOGGER_H).  Never prints.
#pragma once
#include <atomic>
#include <condition_variable>
#include <fstream>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>
#include <signal.h>
#include <stdarg.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <list>
#include <string>
#include <unordered_map>
class SimpleLogger {
public:
    enum Levels { SYS = 0, FATAL = 1, ERROR = 2, WARNING = 3, INFO = 4, DEBUG = 5, TRACE = 6, UNKNOWN = 99 };
    SimpleLogger(const std::string&, size_t = 0, uint64_t = 0, uint32_t = 0) {}
    static void setCriticalInfo(const std::string&) {}
    static void setCrashDumpPath(const std::string&, bool = true) {}
    static void setStackTraceOriginOnly(bool) {}
    static void logStackBacktrace() {}
    static void shutdown() {}
    int start() { return 0; }
    int stop() { return 0; }
    bool traceAllowed() const { return false; }
    bool debugAllowed() const { return false; }
    void setLogLevel(int l) { lv = l; }
    void setDispLevel(int) {}
    void setMaxLogFiles(size_t) {}
    int getLogLevel() const { return lv; }
    int getDispLevel() const { return -1; }
    void put(int, const char*, const char*, size_t, const char*, ...) {}
    void flushAll() {}
    bool checkWhetherToLog(int, const char*, const char*, size_t) { return false; }
private:
    int lv = 4;
};
#define _log_(level, l, ...) do { if (l && l->checkWhetherToLog(level, __FILE__, __func__, __LINE__)) (l)->put(level, __FILE__, __func__, __LINE__, __VA_ARGS__); } while (0)
#define _log_sys(l, ...)    _log_(SimpleLogger::SYS,     l, __VA_ARGS__)
#define _log_fatal(l, ...)  _log_(SimpleLogger::FATAL,   l, __VA_ARGS__)
#define _log_err(l, ...)    _log_(SimpleLogger::ERROR,   l, __VA_ARGS__)
#define _log_warn(l, ...)   _log_(SimpleLogger::WARNING, l, __VA_ARGS__)
#define _log_info(l, ...)   _log_(SimpleLogger::INFO,    l, __VA_ARGS__)
#define _log_debug(l, ...)  _log_(SimpleLogger::DEBUG,   l, __VA_ARGS__)
#define _log_trace(l, ...)  _log_(SimpleLogger::TRACE,   l, __VA_ARGS__)
#define _timed_log_g(l, ms, lv1, lv2, ...) _log_(lv1, l, __VA_ARGS__)
#define _timed_log_t(l, ms, lv1, lv2, ...) _log_(lv1, l, __VA_ARGS__)
struct jsym_nostream { template<class T> jsym_nostream& operator<<(const T&) { return *this; } };
#define _s_null(l) while (false) jsym_nostream()
#define _s_sys(l) _s_null(l)
#define _s_fatal(l) _s_null(l)
#define _s_err(l) _s_null(l)
#define _s_warn(l) _s_null(l)
#define _s_info(l) _s_null(l)
#define _s_debug(l) _s_null(l)
#define _s_trace(l) _s_null(l)
#include <chrono>
class SimpleLoggerMgr {
public:
    static int& jsymHour() { static int h = 3; return h; }     // hour of the day seen by the code
    struct TimeInfo {
        TimeInfo() {}
        TimeInfo(std::chrono::system_clock::time_point) {}
        int year = 2024, month = 1, day = 1, hour = jsymHour(), min = 4, sec = 5, msec = 0, usec = 0;
    };
    static int getTzGap() { return 0; }
};
