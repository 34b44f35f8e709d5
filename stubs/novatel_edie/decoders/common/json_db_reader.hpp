// Verification stub: the same declarations; the failure carries no text (it is built with string streams and file names).
#pragma once
#include <filesystem>
#include <exception>
#include <string_view>
#include "novatel_edie/decoders/common/message_database.hpp"
namespace novatel::edie {
class JsonDbReaderFailure : public std::exception { public: template <typename P> JsonDbReaderFailure(const char*, const char*, int32_t, const P&, const char*) {} [[nodiscard]] const char* what() const noexcept override { return "JSON database"; } };
MessageDatabase::Ptr LoadJsonDbFile(const std::filesystem::path& filePath_);
MessageDatabase::Ptr ParseJsonDb(std::string_view strJsonData_);
} // namespace novatel::edie
