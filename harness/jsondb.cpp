// D05: definitions from JSON text. The text is written by this file from definitions built by hand.
#include "message.cpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
static std::string q(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 0x20) { r += "\\u00"; r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } else r += (char)c; } return r + "\""; }
static const char* tn(DT t) { switch (t) { case DT::BOOL: return "BOOL"; case DT::HEXBYTE: return "HEXBYTE"; case DT::CHAR: return "CHAR"; case DT::UCHAR: return "UCHAR"; case DT::SHORT: return "SHORT"; case DT::USHORT: return "USHORT"; case DT::INT: return "INT"; case DT::UINT: return "UINT"; case DT::LONG: return "LONG"; case DT::ULONG: return "ULONG"; case DT::LONGLONG: return "LONGLONG"; case DT::ULONGLONG: return "ULONGLONG"; case DT::FLOAT: return "FLOAT"; case DT::DOUBLE: return "DOUBLE"; case DT::SATELLITEID: return "SATELLITEID"; default: return "UNKNOWN"; } }
static const char* fn(FT t) { switch (t) { case FT::SIMPLE: return "SIMPLE"; case FT::ENUM: return "ENUM"; case FT::FIXED_LENGTH_ARRAY: return "FIXED_LENGTH_ARRAY"; case FT::VARIABLE_LENGTH_ARRAY: return "VARIABLE_LENGTH_ARRAY"; case FT::STRING: return "STRING"; default: return "FIELD_ARRAY"; } }
// every member of the document has a number; one can be left out or replaced by another value
static int serial, drop = -1; static std::string other, dropped; static bool left;
static void mem(std::string& o, const char* key, const std::string& v) { int n = serial++; if (n == drop) dropped = key; if (n == drop && left) return; if (o.back() != '{') o += ','; o += q(key) + ":"; o += n == drop ? other : v; }
static std::string num(uint64_t v) { return std::to_string(v); }
static std::string fields(const FieldInfo& fi);
static std::string field(const BaseField& f)
{
    std::string o = "{"; mem(o, "name", q(f.name)); mem(o, "description", f.description.empty() ? "null" : q(f.description)); mem(o, "type", q(fn(f.type))); if (!f.conversion.empty()) mem(o, "conversionString", q(f.conversion)); else if (f.type == FT::FIELD_ARRAY) mem(o, "conversionString", "null");
    std::string d = "{"; mem(d, "name", q(tn(f.dataType.name))); mem(d, "length", num(f.dataType.length)); mem(d, "description", f.dataType.description.empty() ? "null" : q(f.dataType.description)); mem(o, "dataType", d + "}");
    if (auto* e = dynamic_cast<const EnumField*>(&f)) mem(o, "enumID", q(e->enumId));
    if (auto* a = dynamic_cast<const ArrayField*>(&f)) { mem(o, "arrayLength", num(a->arrayLength)); if (a->arrayLengthFieldSize != 4) mem(o, "arrayLengthFieldSize", num(a->arrayLengthFieldSize)); mem(o, "arrayLengthRef", a->arrayLengthRef.empty() ? "null" : q(a->arrayLengthRef)); }
    if (auto* r = dynamic_cast<const FieldArrayField*>(&f)) mem(o, "fields", fields(*r->fieldInfo));
    return o + "}";
}
static std::string fields(const FieldInfo& fi) { std::string o = "["; for (auto& f : fi.messageOrderedFields) { if (o.size() > 1) o += ","; o += field(*f); } return o + "]"; }
static std::string message(const MessageDefinition& m)
{
    std::string o = "{"; mem(o, "_id", q(m._id)); mem(o, "messageID", num(m.logID)); mem(o, "name", q(m.name)); mem(o, "description", m.description.empty() ? "null" : q(m.description)); mem(o, "latestMsgDefCrc", q(num(m.latestMessageCrc)));
    std::string d = "{"; for (auto& f : m.fieldInfo) mem(d, num(f.first).c_str(), fields(*f.second)); mem(o, "fields", d + "}"); return o + "}";
}
static std::string enumeration(const EnumDefinition& e) { std::string o = "{"; mem(o, "_id", q(e._id)); mem(o, "name", q(e.name)); std::string l = "["; for (auto& x : e.enumerators) { if (l.size() > 1) l += ","; std::string d = "{"; mem(d, "value", num(x.value)); mem(d, "name", q(x.name)); mem(d, "description", x.description.empty() ? "null" : q(x.description)); l += d + "}"; } mem(o, "enumerators", l + "]"); return o + "}"; }
static std::string document(const std::vector<MessageDefinition::ConstPtr>& ms, const std::vector<EnumDefinition::ConstPtr>& es, bool meta = true)
{
    std::string o = "{"; serial = 0; if (meta) { std::string d = "{"; mem(d, "subset", q("part")); mem(d, "version", q("1.2.3")); mem(d, "messageFamily", q("OEM")); mem(o, "meta", d + "}"); }
    std::string l = "["; for (auto& m : ms) { if (l.size() > 1) l += ","; l += message(*m); } mem(o, "messages", l + "]"); l = "["; for (auto& e : es) { if (l.size() > 1) l += ","; l += enumeration(*e); } mem(o, "enums", l + "]"); return o + "}";
}
static MessageDatabase::Ptr load(const std::string& t) { try { return ParseJsonDb(t); } catch (const JsonDbReaderFailure&) { return nullptr; } catch (...) { sx_assert(false, "failure is reported as a reader failure"); return nullptr; } }
static void sameFields(const FieldInfo& a, const FieldInfo& b)
{
    sx_assert(a.messageOrderedFields.size() == b.messageOrderedFields.size() && a.fixedFieldBytes == b.fixedFieldBytes && a.varFieldCount == b.varFieldCount, "number of fields and size of their values"); if (a.messageOrderedFields.size() != b.messageOrderedFields.size()) return;
    for (size_t i = 0; i < a.messageOrderedFields.size(); ++i)
    {
        auto &x = *a.messageOrderedFields[i], &y = *b.messageOrderedFields[i]; sx_assert(x.name == y.name && x.type == y.type && x.description == y.description && x.conversion == y.conversion && x.dataType.name == y.dataType.name && x.dataType.length == y.dataType.length && x.dataType.description == y.dataType.description, "attributes of a field");
        sx_assert(x.conversionHash == y.conversionHash && x.width == y.width && x.precision == y.precision && x.isString == y.isString && x.isCsv == y.isCsv, "derived attributes of a field"); sx_assert(x.index == y.index, "place of a field");
        auto *ex = dynamic_cast<const EnumField*>(&x), *ey = dynamic_cast<const EnumField*>(&y); sx_assert(!ex == !ey, "an enumeration"); if (ex && ey) sx_assert(ex->enumId == ey->enumId && ex->enumDef != nullptr && ex->enumDef->_id == ex->enumId, "the enumeration of a field");
        auto *ax = dynamic_cast<const ArrayField*>(&x), *ay = dynamic_cast<const ArrayField*>(&y); sx_assert(!ax == !ay, "an array"); if (ax && ay) sx_assert(ax->arrayLength == ay->arrayLength && ax->arrayLengthRef == ay->arrayLengthRef && (x.type == FT::FIXED_LENGTH_ARRAY || x.type == FT::STRING || ax->arrayLengthFieldSize == ay->arrayLengthFieldSize), "attributes of an array");
        auto *fx = dynamic_cast<const FieldArrayField*>(&x), *fy = dynamic_cast<const FieldArrayField*>(&y); sx_assert(!fx == !fy, "an array of records"); if (fx && fy) sameFields(*fx->fieldInfo, *fy->fieldInfo);
    }
}
static void sameMsg(const MessageDatabase& db, const MessageDefinition& m)
{
    auto d = db.GetMsgDef((int32_t)m.logID); sx_assert(d != nullptr, "the message is there"); if (!d) return; sx_assert(d->_id == m._id && d->logID == m.logID && d->name == m.name && d->description == m.description && d->latestMessageCrc == m.latestMessageCrc && d->fieldInfo.size() == m.fieldInfo.size(), "attributes of a message");
    for (auto& f : m.fieldInfo) { auto it = d->fieldInfo.find(f.first); sx_assert(it != d->fieldInfo.end(), "each definition is there"); if (it != d->fieldInfo.end()) sameFields(*it->second, *f.second); }
}
static void sameEnum(const MessageDatabase& db, const EnumDefinition& e) { auto d = db.GetEnumDefId(e._id); sx_assert(d != nullptr, "the enumeration is there"); if (!d) return; bool ok = d->_id == e._id && d->name == e.name && d->enumerators.size() == e.enumerators.size(); sx_assert(ok, "attributes of an enumeration"); for (size_t i = 0; ok && i < e.enumerators.size(); ++i) { auto &x = d->enumerators[i], &y = e.enumerators[i]; sx_assert(x.value == y.value && x.name == y.name && x.description == y.description, "attributes of an enumerator"); } }
static Fields of(int k) { Fields v; addField(v, k); return v; }
static EnumDefinition::ConstPtr e5() { return mkEnum("e5", "Color", {{0, "RED"}, {1, "GREEN"}, {7, "BLUE"}}); }
HARNESS(d05_fields) // case: kind of the first field; two definitions of one message and another message
{
    sx_expect("end"); int k = sx_case(), k2 = (int)sx_enum(NK, "second kind"); Fields v = of(k); addField(v, k2); addField(v, 0); auto w = of(k2); auto m = mkMsg(43, "RANGE", {{4000000000u, v}, {7, w}}), n = mkMsg(900, "OTHER", {{1, of(k)}}); auto es = baseEnums(); auto db = load(document({m, n}, es)); sx_assert(db != nullptr, "the document loads"); if (!db) return;
    sameMsg(*db, *m); sameMsg(*db, *n); for (auto& e : es) sameEnum(*db, *e); sx_assert(db->MessageDefinitions().size() == 2 && db->EnumDefinitions().size() == es.size(), "nothing else"); auto meta = db->GetDbMetadata(); sx_assert(meta && meta->subset == "part" && meta->version == "1.2.3" && meta->messageFamily == "OEM", "the attributes of the database"); sx_reach("end");
}
static std::string anyText(int n) { std::string s; for (int i = 0; i < n; ++i) { unsigned char c = sx_any<unsigned char>("character"); sx_assume(c != 0 && c < 0x80); s += (char)c; } return s; }
HARNESS(d05_texts) // any text in one place. case: place + 10 * length
{
    sx_expect("end"); int c = sx_case() % 10; std::string t = anyText(sx_case() / 10); auto a = std::dynamic_pointer_cast<ArrayField>(arr("f", FT::VARIABLE_LENGTH_ARRAY, "%hu", DT::USHORT, 3, 2)); auto s = simple("g", "%lu", DT::ULONG); auto e = enumf("h", "e5");
    switch (c) { case 0: s->name = t; break; case 1: s->description = t; break; case 2: a->arrayLengthRef = t; break; case 3: s->dataType.description = t; break; case 4: std::dynamic_pointer_cast<EnumField>(e)->enumId = "e" + t; break; default: break; }
    auto m0 = mkMsg(43, c == 5 ? t.c_str() : "RANGE", {{1, {a, s, e}}}); auto m = std::make_shared<MessageDefinition>(*m0); if (c == 6) m->description = t; if (c == 7) m->_id = t; std::string id = c == 4 ? "e" + t : "e5"; auto en = mkEnum(id.c_str(), c == 8 ? t.c_str() : "Color", {{5, c == 9 ? t.c_str() : "RED"}}); auto db = load(document({m}, {en})); sx_assert(db != nullptr, "the document loads"); if (!db) return; sameMsg(*db, *m); sameEnum(*db, *en); sx_reach("end");
}
HARNESS(d05_numbers) // any number in one place. case: place + 10 * digits; of more than five digits the last three are free
{
    int c = sx_case() % 10, n = sx_case() / 10; std::string t; static const char* const L[] = {"4294967295", "9999999999", "1000000000", "6553665536"}; const char* lead = L[n > 5 ? sx_enum(4, "leading digits") : 0]; for (int i = 0; i < n; ++i) t += n > 5 && i < n - 3 ? lead[i % 10] : (char)('0' + (i == 0 ? (n > 1 ? 1 + sx_enum(9, "first digit") : sx_enum(10, "first digit")) : sx_range(0, 9, "digit"))); uint64_t v = 0; for (char ch : t) v = v * 10 + (uint64_t)(ch - '0'); Fields f{arr("f", FT::VARIABLE_LENGTH_ARRAY, "%hu", DT::USHORT, 3, 2), simple("g", "%lu", DT::ULONG), farr("h", 2, sub('a'), 2)}; auto m = mkMsg(43, "RANGE", {{1, f}}); auto en = e5(); drop = -1; std::string d = document({m}, {en});
    static const char* const P[] = {"\"messageID\":43", "\"latestMsgDefCrc\":\"1\"", "\"fields\":{\"1\"", "\"arrayLength\":3", "\"arrayLengthFieldSize\":2", "\"value\":7", "\"length\":2", "\"arrayLength\":2"}; size_t at = d.find(P[c]), len = strlen(P[c]); sx_assert(at != std::string::npos, "sample"); std::string old = P[c]; size_t last = old.find_last_of("0123456789"), digit = old.find_last_not_of("0123456789", last) + 1; d = d.substr(0, at) + old.substr(0, digit) + t + old.substr(last + 1) + d.substr(at + len);
    auto db = load(d); bool fits = c == 4 ? v <= 255 : c == 6 ? v <= 65535 : v <= 0xFFFFFFFFull; if (!fits) { sx_assert(db == nullptr, "a number too large for its attribute is rejected"); sx_reach("rejected"); return; } sx_assert(db != nullptr, "the document loads"); if (!db) return;
    auto& ms = db->MessageDefinitions(); sx_assert(ms.size() == 1, "one message"); auto& x = *ms[0]; uint64_t got = 0; if (x.fieldInfo.size() != 1) { sx_assert(false, "one definition"); return; } auto& fi = *x.fieldInfo.begin()->second; auto ar = dynamic_cast<const ArrayField*>(fi.messageOrderedFields[0].get()); switch (c) { case 0: got = x.logID; break; case 1: got = x.latestMessageCrc; break; case 2: got = x.fieldInfo.begin()->first; break; case 3: got = ar->arrayLength; break; case 4: got = ar->arrayLengthFieldSize; break; case 5: got = db->EnumDefinitions()[0]->enumerators[2].value; break; case 6: got = ar->dataType.length; break; default: got = dynamic_cast<const FieldArrayField*>(fi.messageOrderedFields[2].get())->arrayLength; } sx_assert(got == v, "the number is the one written"); sx_reach("end");
}
static const int SAMPLE[] = {5, 16, 30, 36}; // a number, an enumeration, an array and an array of records
static MessageDefinition::ConstPtr sample() { Fields v; for (int k : SAMPLE) addField(v, k); return mkMsg(43, "RANGE", {{1, v}}); }
HARNESS(d05_missing) // each member left out. case: 10 members
{
    sx_expect("end"); auto m = sample(); auto en = e5(); left = true; drop = sx_case() * 10 + (int)sx_enum(10, "member"); std::string d = document({m}, {en}); int n = serial, out = drop; drop = -1; std::string whole = document({m}, {en}); if (out >= n) { sx_reach("end"); return; }
    std::string gone = dropped; auto db = load(d); bool optional = gone == "subset" || gone == "version" || gone == "messageFamily" || gone == "meta" || gone == "conversionString" || gone == "arrayLengthFieldSize" || gone == "arrayLengthRef" || gone == "1";
    sx_assert((db != nullptr) == optional, "a document without a required member is rejected, without another it loads"); if (db && gone == "version") sx_assert(db->GetDbMetadata()->version == "0.0.0" && db->GetDbMetadata()->subset == "part", "a missing version is 0.0.0"); if (db && gone == "meta") sx_assert(db->GetDbMetadata() == nullptr || db->GetDbMetadata()->messageFamily.empty(), "no family"); if (db) sameEnum(*db, *en); sx_reach("end");
}
HARNESS(d05_types) // each member of another type. case: 10 members * 10 + type
{
    sx_expect("end"); static const char* const V[] = {"17", "-1", "\"x\"", "{}", "[]", "true", "null", "1.5", "[1]", "{\"a\":1}"}; auto m = sample(); auto en = e5(); left = false; int at = sx_case() / 10 * 10 + (int)sx_enum(10, "member"); other = V[sx_case() % 10]; drop = at; std::string d = document({m}, {en}); int n = serial; drop = -1; if (at >= n) { sx_reach("end"); return; }
    auto db = load(d); if (db) { auto x = db->MessageDefinitions(); for (auto& y : x) for (auto& f : y->fieldInfo) sx_assert(f.second != nullptr, "whole definitions"); sx_reach("loaded"); std::string key = dropped; bool number = key == "messageID" || key == "length" || key == "arrayLength" || key == "arrayLengthFieldSize" || key == "value", text = key == "name" || key == "description" || key == "_id" || key == "enumID" || key == "arrayLengthRef" || key == "subset" || key == "version" || key == "messageFamily" || key == "latestMsgDefCrc" || key == "type" || key == "conversionString", nul = key == "description" || key == "conversionString" || key == "arrayLengthRef" || key == "arrayLength", list = key == "fields" || key == "messages" || key == "enums" || key == "enumerators" || key == "1"; std::string o = other;
        if (number) sx_assert(o == "17" || (nul && o == "null"), "a number that is none is rejected"); if (text) sx_assert(o == "\"x\"" || (nul && o == "null"), "a text that is none is rejected"); if (list) sx_assert(o == "[]" || (key == "fields" && o == "{}"), "a list that is none is rejected"); }
    sx_reach("end");
}
HARNESS(d05_cut) // a document that ends early
{
    sx_expect("end"); auto m = sample(); auto en = e5(); std::string d = document({m}, {en}); size_t n = sx_enum(d.size(), "length"); d.resize(n); sx_assert(load(d) == nullptr, "a document that ends early is rejected"); sx_reach("end");
}
HARNESS(d05_crc) // any text as a checksum. case: place + 10 * length
{
    std::string t; for (int i = 0; i < sx_case() / 10; ++i) { unsigned char c = sx_any<unsigned char>("character"); sx_assume(c >= 0x20 && c < 0x7F && c != '"' && c != '\\'); t += (char)c; } auto m = mkMsg(43, "RANGE", {{1, {simple("g", "%lu", DT::ULONG)}}}); auto en = e5(); std::string d = document({m}, {en}), p = sx_case() % 10 ? "\"fields\":{\"1\"" : "\"latestMsgDefCrc\":\"1\""; size_t at = d.find(p); d = d.substr(0, at) + p.substr(0, p.size() - 2) + t + "\"" + d.substr(at + p.size()); bool digits = !t.empty(); for (char c : t) digits &= (c >= '0') & (c <= '9'); auto db = load(d); sx_assert((db != nullptr) == digits, "a checksum is a number"); if (db) sx_reach("number"); else sx_reach("rejected");
}
