// Verification stub for the logging front end: every logger is a no-op object.
#ifndef LOGGER_H
#define LOGGER_H
#include <filesystem>
#include <iosfwd>
#include <map>
#include <memory>
#include <spdlog/spdlog.h>
class LoggerManager
{
  public:
    virtual void Shutdown() {}
    virtual ~LoggerManager() = default;
    virtual std::shared_ptr<spdlog::logger> RegisterLogger(const std::string&) { return std::make_shared<spdlog::logger>(); }
    void SetLoggingLevel(spdlog::level::level_enum) {}
    template <typename... A> void InitLogger(A&&...) {}
    template <typename... A> void AddConsoleLogging(A&&...) {}
    template <typename... A> void AddRotatingFileLogger(A&&...) {}
};
using CPPLoggerManager = LoggerManager;
inline LoggerManager* GetBaseLoggerManager() { static LoggerManager m; return &m; }
inline LoggerManager* GetLoggerManager() { return GetBaseLoggerManager(); }
inline void SetLoggerManager(LoggerManager*) {}
#define LOGGER_MANAGER GetLoggerManager()
#define CREATE_LOGGER() GetLoggerManager()->RegisterLogger("x")
class Logger
{
  public:
    static std::shared_ptr<spdlog::logger> RegisterLogger(const std::string& s) { return GetLoggerManager()->RegisterLogger(s); }
    static void Shutdown() {}
    static void SetLoggingLevel(spdlog::level::level_enum) {}
    template <typename... A> static void InitLogger(A&&...) {}
    template <typename... A> static void AddConsoleLogging(A&&...) {}
    template <typename... A> static void AddRotatingFileLogger(A&&...) {}
};
#endif
