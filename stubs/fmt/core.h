// Verification stub: the library only specialises a formatter, it never formats through fmt on a path under test.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <string_view>
namespace fmt {
template <typename T, typename C = char> struct formatter;
template <> struct formatter<std::string_view, char>
{
    template <typename P> constexpr auto parse(P& c) { return c.begin(); }
    template <typename Ctx> auto format(std::string_view, Ctx& ctx) const { return ctx.out(); }
};
template <typename... A> inline std::string format(A&&...) { return {}; }
} // namespace fmt
