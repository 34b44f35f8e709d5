// Verification stub: logging has empty bodies (arguments are still evaluated at the call site).
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace spdlog {
namespace level { enum level_enum : int { trace, debug, info, warn, err, critical, off, n_levels }; }
class logger
{
  public:
    template <typename... A> void trace(A&&...) {}
    template <typename... A> void debug(A&&...) {}
    template <typename... A> void info(A&&...) {}
    template <typename... A> void warn(A&&...) {}
    template <typename... A> void error(A&&...) {}
    template <typename... A> void critical(A&&...) {}
    template <typename... A> void log(A&&...) {}
    void set_level(level::level_enum) {}
    level::level_enum level() const { return level::off; }
    bool should_log(level::level_enum) const { return false; }
    void flush() {}
    void flush_on(level::level_enum) {}
};
inline std::shared_ptr<logger> get(const std::string&) { return nullptr; }
inline void shutdown() {}
template <typename... A> inline void stub_use(A&&...) {}
} // namespace spdlog
#define SPDLOG_LOGGER_TRACE(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_LOGGER_DEBUG(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_LOGGER_INFO(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_LOGGER_WARN(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_LOGGER_ERROR(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_LOGGER_CRITICAL(l, ...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_ERROR(...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_WARN(...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_INFO(...) ::spdlog::stub_use(__VA_ARGS__)
#define SPDLOG_DEBUG(...) ::spdlog::stub_use(__VA_ARGS__)
