// A small message database built in memory, and reference helpers, shared by the OEM decoding and encoding harnesses.
#pragma once
#include "sx.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"
#include "novatel_edie/decoders/oem/common.hpp"
using namespace novatel::edie;
using namespace novatel::edie::oem;
using Bytes = std::vector<unsigned char>;
inline EnumDefinition::ConstPtr mkEnum(const char* id, const char* name, std::vector<std::pair<uint32_t, const char*>> l)
{
    std::vector<EnumDataType> v; for (auto& e : l) { EnumDataType d; d.value = e.first; d.name = e.second; d.description = e.second; v.push_back(d); }
    return std::make_shared<EnumDefinition>(id, name, v);
}
struct EnumRow { const char* n; uint32_t v; };
static const EnumRow PORTS[] = {{"NO_PORTS", 0}, {"COM1", 32}, {"COM2", 64}, {"THISPORT", 192}, {"COM1_1", 33}, {"ICOM1", 23 << 8}};
static const EnumRow TSTAT[] = {{"UNKNOWN", 20}, {"APPROXIMATE", 60}, {"COARSE", 100}, {"FINE", 160}, {"FINESTEERING", 180}, {"SATTIME", 200}};
inline std::vector<EnumDefinition::ConstPtr> baseEnums()
{
    auto rows = [](const EnumRow* r, size_t n) { std::vector<std::pair<uint32_t, const char*>> v; for (size_t i = 0; i < n; ++i) v.push_back({r[i].v, r[i].n}); return v; };
    return {mkEnum("e1", "Commands", {{7, "CMDA"}, {900, "LOG"}}), mkEnum("e2", "PortAddress", rows(PORTS, 6)), mkEnum("e3", "GPSTimeStatus", rows(TSTAT, 6)), mkEnum("e4", "Responses", {{1, "OK"}, {2, "BADCRC"}, {5, "NOTALLOWED"}}), mkEnum("e5", "Color", {{0, "RED"}, {1, "GREEN"}, {7, "BLUE"}})};
}
using Fields = std::vector<BaseField::Ptr>;
inline MessageDefinition::ConstPtr mkMsg(uint32_t id, const char* name, std::vector<std::pair<uint32_t, Fields>> defs)
{
    std::unordered_map<uint32_t, FieldInfo::ConstPtr> fi; uint32_t latest = 0;
    for (auto& d : defs) { fi[d.first] = BuildFieldInfo(d.second, "OEM"); latest = d.first; }
    return std::make_shared<MessageDefinition>(std::string("m") + name, id, name, "", latest, fi);
}
inline BaseField::Ptr simple(const char* n, const char* conv, DATA_TYPE t) { return std::make_shared<BaseField>(n, FIELD_TYPE::SIMPLE, conv, t); }
inline BaseField::Ptr enumf(const char* n, const char* id, DATA_TYPE t = DATA_TYPE::ULONG) { return std::make_shared<EnumField>(n, FIELD_TYPE::ENUM, "%d", t, id); }
inline BaseField::Ptr arr(const char* n, FIELD_TYPE f, const char* conv, DATA_TYPE t, uint32_t len, uint8_t lenSize = 4)
{
    auto p = std::make_shared<ArrayField>(n, f, conv, t, len); p->arrayLengthFieldSize = lenSize; return p;
}
inline BaseField::Ptr farr(const char* n, uint32_t len, Fields f, uint8_t lenSize = 4)
{
    auto p = std::make_shared<FieldArrayField>(n, FIELD_TYPE::FIELD_ARRAY, "", DATA_TYPE::UNKNOWN, len, BuildFieldInfo(f, "OEM")); p->arrayLengthFieldSize = lenSize; return p;
}
inline MessageDatabase::Ptr mkDb(std::vector<MessageDefinition::ConstPtr> m)
{
    auto meta = std::make_shared<DbMetadata>(); meta->messageFamily = "OEM"; return std::make_shared<MessageDatabase>(m, baseEnums(), meta);
}
inline uint64_t le(const unsigned char* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint64_t)p[i] << (8 * i); return v; }
inline void addText(Bytes& b, const char* s) { while (*s) b.push_back((unsigned char)*s++); }
inline bool isHex(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
