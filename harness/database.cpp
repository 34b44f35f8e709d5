// D01-D04: the message database against a plain list of definitions, and the field layout against its declared rules.
#include "oem.hpp"
#include "novatel_edie/decoders/common/message_decoder.hpp"
// ---- D01: a history of operations; the model keeps the definitions in the order they were added
struct MM { uint32_t id; std::string name; const MessageDefinition* src; };
struct ME { std::string id, name; const EnumDefinition* src; };
static std::vector<MM> mm; static std::vector<ME> me;
static std::vector<MessageDefinition::ConstPtr> keepM; static std::vector<EnumDefinition::ConstPtr> keepE;
static int serial;
static const char* const NM[] = {"A", "AB", "B"};
static uint32_t anyId() { return sx_any<uint32_t>("id"); }
static MessageDefinition::ConstPtr newMsg()
{
    uint32_t id = anyId(); int n = (int)sx_enum(3, "message name"); std::unordered_map<uint32_t, FieldInfo::ConstPtr> fi; fi[1] = BuildFieldInfo({simple("x", "%hu", DATA_TYPE::USHORT), simple("a", "%lu", DATA_TYPE::ULONG)}, ""); // a layout for no family
    auto p = std::make_shared<MessageDefinition>("u" + std::to_string(serial), id, NM[n], "serial " + std::to_string(serial), 1, fi); ++serial; keepM.push_back(p); return p;
}
static EnumDefinition::ConstPtr newEnum()
{
    static const char* const ID[] = {"e1", "e2"}; int i = (int)sx_enum(2, "enumeration id"), n = (int)sx_enum(3, "enumeration name");
    auto p = mkEnum(ID[i], NM[n], {{(uint32_t)serial, "V"}}); ++serial; keepE.push_back(p); return p;
}
static void mAdd(const MessageDefinition::ConstPtr& m)
{
    for (size_t i = mm.size(); i-- > 0;) if (mm[i].id == m->logID) mm.erase(mm.begin() + (long)i);
    mm.push_back({m->logID, m->name, m.get()});
}
static void mDel(uint32_t id) { for (size_t i = mm.size(); i-- > 0;) if (mm[i].id == id) mm.erase(mm.begin() + (long)i); }
static void eDel(const std::string& n) { for (size_t i = me.size(); i-- > 0;) if (me[i].name == n) me.erase(me.begin() + (long)i); }
static void eAdd(const EnumDefinition::ConstPtr& e) { eDel(e->name); me.push_back({e->_id, e->name, e.get()}); }
static bool same(const MessageDefinition::ConstPtr& got, const MessageDefinition* want) { return want == nullptr ? got == nullptr : got != nullptr && got->_id == want->_id && got->logID == want->logID && got->name == want->name && got->description == want->description; }
static void check(const MessageDatabase& d)
{
    for (int n = 0; n < 4; ++n)
    {
        const char* nm = n < 3 ? NM[n] : "C"; const MessageDefinition* w = nullptr; for (auto& m : mm) if (m.name == nm) w = m.src;
        sx_assert(same(d.GetMsgDef(std::string_view(nm)), w), "lookup by name gives the latest definition added and not removed"); if (w) sx_reach("named"); else sx_reach("not named");
        const EnumDefinition* e = nullptr; for (auto& x : me) if (x.name == nm) e = x.src; sx_assert(d.GetEnumDefName(nm).get() == e, "enumeration lookup by name");
    }
    uint32_t q = anyId(); const MessageDefinition* w = nullptr; for (auto& m : mm) if (m.id == q) w = m.src;
    sx_assert(same(d.GetMsgDef((int32_t)q), w), "lookup by identifier gives the latest definition added and not removed"); if (w) sx_reach("identified"); else sx_reach("not identified");
    for (const char* i : {"e1", "e2", "e3"}) { const EnumDefinition* e = nullptr; for (auto& x : me) if (x.id == i) e = x.src; sx_assert(d.GetEnumDefId(i).get() == e, "enumeration lookup by identifier"); }
    sx_assert(d.MessageDefinitions().size() == mm.size() && d.EnumDefinitions().size() == me.size(), "the lists hold exactly the definitions not removed");
    for (size_t i = 0; i < mm.size() && i < d.MessageDefinitions().size(); ++i) { sx_assert(same(d.MessageDefinitions()[i], mm[i].src), "definitions are listed in the order added"); auto it = d.MessageDefinitions()[i]->fieldInfo.find(1); sx_assert(it != d.MessageDefinitions()[i]->fieldInfo.end() && it->second->messageOrderedFields.size() == 2, "with their fields"); }
    for (size_t i = 0; i < me.size() && i < d.EnumDefinitions().size(); ++i) sx_assert(d.EnumDefinitions()[i].get() == me[i].src, "enumerations are listed in the order added");
}
// case: the decimal digits are the operations (1 add a message, 2 remove one, 3 add an enumeration, 4 remove one, 5 merge another database, 6 add two messages at once, 7 merge into itself and set the family, 8 add the definition a second time)
HARNESS(d01_history)
{
    sx_expect("not identified"); int c = sx_case(); serial = 0; MessageDatabase d;
    for (; c; c /= 10) switch (c % 10)
        {
        case 1: { auto m = newMsg(); d.AppendMessages({m}); mAdd(m); break; }
        case 2: { uint32_t id = anyId(); d.RemoveMessage(id); mDel(id); break; }
        case 3: { auto e = newEnum(); d.AppendEnumerations({e}); eAdd(e); break; }
        case 4: { int n = (int)sx_enum(3, "name removed"); d.RemoveEnumeration(NM[n]); eDel(NM[n]); break; }
        case 5: { auto m = newMsg(); auto e = newEnum(); MessageDatabase o({m}, {e}); d.Merge(o); eAdd(e); mAdd(m); break; }
        case 6: { auto a = newMsg(); auto b = newMsg(); d.AppendMessages({a, b}); mAdd(a); mAdd(b); break; }
        case 7: d.Merge(d); d.SetMessageFamily("OEM"); break;
        case 8: if (!keepM.empty()) { auto m = keepM[0]; d.AppendMessages({m}); mAdd(m); } break;
        default: if (!keepM.empty() && !mm.empty()) { d.RemoveMessage(mm.back().id); mDel(mm.back().id); }
        }
    check(d);
}
HARNESS(d01_construct) // databases given their definitions at construction, copied, and then changed
{
    sx_expect("named"); serial = 0; auto a = newMsg(), b = newMsg(); sx_assume(a->logID != b->logID); auto e = newEnum(), f = newEnum(); sx_assume(e->name != f->name); MessageDatabase d({a, b}, {e, f}); mAdd(a); mAdd(b); eAdd(e); eAdd(f);
    if (sx_enum(2, "change")) { uint32_t id = anyId(); d.RemoveMessage(id); mDel(id); } else { auto g = newMsg(); d.AppendMessages({g}); mAdd(g); } check(d);
}
// names held by the database itself given back to it
HARNESS(d01_alias)
{
    sx_expect("end"); serial = 0; auto e = newEnum(), f = newEnum(); MessageDatabase d; d.AppendEnumerations({e, f}); eAdd(e); eAdd(f); std::string n = d.EnumDefinitions()[0]->name; d.RemoveEnumeration(d.EnumDefinitions()[0]->name); eDel(n);
    for (const char* nm : NM) { const EnumDefinition* w = nullptr; for (auto& x : me) if (x.name == nm) w = x.src; sx_assert(d.GetEnumDefName(nm).get() == w, "lookup after removal by the definition's own name"); } sx_reach("end");
}
// ---- D02
static const struct { const char* n; uint32_t id; } KN[] = {{"ABC", 7}, {"RANGE", 43}, {"POSB", 0x8F21}, {"GLO_EPH", 65535}, {"X", 1}, {"LOGA", 500}};
static MessageDatabase::Ptr ndb;
static MessageDatabase::Ptr nameDb() { std::vector<MessageDefinition::ConstPtr> v; for (auto& k : KN) v.push_back(mkMsg(k.id, k.n, {{1, {simple("a", "%lu", DATA_TYPE::ULONG)}}})); return mkDb(v); }
static uint32_t packed(uint32_t id, uint32_t sib, uint32_t fmt, uint32_t resp) { return (id & 0xFFFF) | sib << 16 | fmt << 21 | resp << 23; }
HARNESS(d02_name) // case: known name * 4 + suffix (0 none, 1 B, 2 A, 3 R)
{
    sx_expect("end"); ndb = nameDb(); int c = sx_case(); auto& k = KN[c / 4]; int s = c % 4; std::string n = k.n; if (s) n += "BAR"[s - 1];
    uint32_t sib = sx_any<uint8_t>("sibling"); sx_assume(sib < 32); if (sib) { n += '_'; if (sib >= 10) n += (char)('0' + sib / 10); n += (char)('0' + sib % 10); }
    uint32_t want = packed(k.id, sib, s == 1 ? 0 : s == 0 ? 2 : 1, s == 3); sx_assert(ndb->MsgNameToMsgId(n) == want, "identifier of a name with format and sibling suffixes"); sx_assert(ndb->MsgIdToMsgName(want) == n, "name of the identifier"); sx_reach("end");
}
HARNESS(d02_id) // any identifier of a known or an unknown message
{
    sx_expect("known"); sx_expect("unknown"); ndb = nameDb(); uint32_t v = sx_any<uint32_t>("identifier"), id = v & 0xFFFF, sib = v >> 16 & 31, fmt = v >> 21 & 3, resp = v >> 23 & 1; sx_assume(v >> 24 == 0);
    const char* nm = nullptr; for (auto& k : KN) if (k.id == id) nm = k.n;
    std::string got = ndb->MsgIdToMsgName(v); std::string want = nm ? nm : "UNKNOWN"; if (resp) want += 'R'; else if (fmt == 0) want += 'B'; else if (fmt == 1) want += 'A'; if (sib) { want += '_'; if (sib >= 10) want += (char)('0' + sib / 10); want += (char)('0' + sib % 10); }
    sx_assert(got == want, "name of any identifier"); if (nm) { if (fmt != 3 && (!resp || fmt == 1)) sx_assert(ndb->MsgNameToMsgId(got) == v, "identifier of the name of a known message"); sx_reach("known"); } else { sx_assert(ndb->MsgNameToMsgId(got) == 0, "no identifier for an unknown message"); sx_reach("unknown"); }
}
// any short text as a name: either it is a known name with suffixes, or it has no identifier. case = length
HARNESS(d02_text)
{
    sx_expect("end"); ndb = mkDb({mkMsg(7, "X", {}), mkMsg(9, "XA", {}), mkMsg(11, "Y_1", {})}); int n = sx_case(); std::string s((size_t)n, ' '); if (n) sx_bytes(&s[0], (size_t)n, "name");
    auto eq = [&](const std::string& t) { bool r = t.size() == s.size(); for (size_t i = 0; i < t.size() && r; ++i) r = t[i] == s[i]; return r; };
    uint32_t want = 0; static const struct { const char* n; uint32_t id; } K[] = {{"XA", 9}, {"X", 7}, {"Y_1", 11}};
    bool done = false; // the longest known name wins, a full name before one with suffixes
    for (auto& k : K) if (!done && eq(k.n)) { want = packed(k.id, 0, 2, 0); done = true; }
    for (auto& k : K) for (int f = 0; f < 4 && !done; ++f) for (int sib = -1; sib < 32 && !done; ++sib)
            {
                std::string t = k.n; if (f) t += "BAR"[f - 1]; size_t tn = t.size() + (sib < 0 ? 0 : sib < 10 ? 2 : 3); if (tn != (size_t)n) continue; if (sib >= 0) { t += '_'; t += std::to_string(sib); }
                if (eq(t)) { want = packed(k.id, sib < 0 ? 0 : (uint32_t)sib, f == 1 ? 0 : f == 0 ? 2 : 1, f == 3); done = true; }
            }
    uint32_t got = ndb->MsgNameToMsgId(s); // a sibling number written with leading zeros is the same sibling
    if (done) sx_assert(got == want, "identifier of a known name"); else { bool zero = false; size_t u = s.rfind('_'); if (u != std::string::npos && u + 1 < s.size() && s[u + 1] == '0') zero = true; if (!zero) sx_assert(got == 0, "anything else has no identifier"); } sx_reach("end");
}
// ---- D03
struct Kind { FIELD_TYPE f; DATA_TYPE t; unsigned len; const char* conv; };
static const Kind KD[] = {{FIELD_TYPE::SIMPLE, DATA_TYPE::UCHAR, 1, "%uc"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::SHORT, 1, "%hd"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::ULONG, 1, "%lu"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::DOUBLE, 1, "%lf"}, {FIELD_TYPE::ENUM, DATA_TYPE::ULONG, 1, "%d"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::UCHAR, 3, "%Z"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::USHORT, 3, "%hu"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::ULONGLONG, 2, "%llu"}, {FIELD_TYPE::STRING, DATA_TYPE::CHAR, 8, "%s"}, {FIELD_TYPE::VARIABLE_LENGTH_ARRAY, DATA_TYPE::USHORT, 4, "%hu"}, {FIELD_TYPE::FIELD_ARRAY, DATA_TYPE::UNKNOWN, 2, ""}, {FIELD_TYPE::SIMPLE, DATA_TYPE::BOOL, 1, "%d"}, {FIELD_TYPE::RESPONSE_ID, DATA_TYPE::INT, 1, "%d"}, {FIELD_TYPE::RESPONSE_STR, DATA_TYPE::CHAR, 1, "%s"}, {FIELD_TYPE::ENUM, DATA_TYPE::UCHAR, 1, "%d"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::BOOL, 2, "%d"}, {FIELD_TYPE::ENUM, DATA_TYPE::USHORT, 1, "%d"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::CHAR, 1, "%c"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::USHORT, 1, "%hu"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::LONG, 1, "%ld"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::LONGLONG, 1, "%lld"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::FLOAT, 1, "%f"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::HEXBYTE, 1, "%XB"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::SATELLITEID, 1, "%id"}, {FIELD_TYPE::SIMPLE, DATA_TYPE::ULONGLONG, 1, "%llu"}, {FIELD_TYPE::BITFIELD, DATA_TYPE::ULONG, 1, "%lx"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::FLOAT, 2, "%f"}, {FIELD_TYPE::FIXED_LENGTH_ARRAY, DATA_TYPE::UCHAR, 0, "%P"}};
constexpr int NK = sizeof KD / sizeof *KD;
static size_t width(DATA_TYPE t) { switch (t) { case DATA_TYPE::CHAR: case DATA_TYPE::UCHAR: case DATA_TYPE::HEXBYTE: return 1; case DATA_TYPE::SHORT: case DATA_TYPE::USHORT: return 2; case DATA_TYPE::LONGLONG: case DATA_TYPE::ULONGLONG: case DATA_TYPE::DOUBLE: return 8; default: return 4; } }
static BaseField::Ptr mkField(int k, int pos)
{
    auto& d = KD[k]; std::string n = "f" + std::to_string(pos);
    switch (d.f)
    {
    case FIELD_TYPE::SIMPLE: case FIELD_TYPE::RESPONSE_ID: case FIELD_TYPE::BITFIELD: return std::make_shared<BaseField>(n, d.f, d.conv, d.t);
    case FIELD_TYPE::ENUM: return std::make_shared<EnumField>(n, d.f, d.conv, d.t, "e5");
    case FIELD_TYPE::FIELD_ARRAY: return std::make_shared<FieldArrayField>(n, d.f, "", d.t, d.len, BuildFieldInfo({simple("a", "%uc", DATA_TYPE::UCHAR), simple("b", "%lu", DATA_TYPE::ULONG)}, "OEM"));
    default: return std::make_shared<ArrayField>(n, d.f, d.conv, d.t, d.len);
    }
}
static bool isVar(FIELD_TYPE f) { return f == FIELD_TYPE::STRING || f == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || f == FIELD_TYPE::FIELD_ARRAY || f == FIELD_TYPE::RESPONSE_STR; }
static size_t bytes(const Kind& k) { return width(k.t) * k.len; }
static void layout(const std::vector<int>& ks, const FieldInfo& fi, bool oem)
{
    size_t off = 0, var = 0; sx_assert(fi.messageOrderedFields.size() == ks.size(), "all fields, in order");
    for (size_t i = 0; i < ks.size(); ++i)
    {
        auto& k = KD[ks[i]]; auto& f = *fi.messageOrderedFields[i]; sx_assert(f.name == "f" + std::to_string(i) && f.type == k.f && f.dataType.name == k.t, "field in its place");
        if (isVar(k.f)) { sx_assert(f.index == var, "variable slots are distinct and dense"); ++var; continue; }
        size_t w = width(k.t), al = oem ? (w > 4 ? 4 : w) : 1; sx_assert(f.index % al == 0, "aligned"); sx_assert(f.index >= off && f.index < off + al, "after the previous field, with no more padding than needed"); sx_assert(f.index + bytes(k) <= fi.fixedFieldBytes, "inside the fixed part"); off = f.index + bytes(k);
    }
    sx_assert(fi.varFieldCount == var && fi.fixedFieldBytes == off, "sizes of both parts");
}
HARNESS(d03_layout) // case: first kind; two or three more of any kind, both families
{
    sx_expect("end"); int c = sx_case(); bool oem = sx_enum(2, "family"); std::vector<int> ks{c}; ks.push_back((int)sx_enum(NK, "kind")); ks.push_back((int)sx_enum(NK, "kind")); if (sx_enum(2, "four")) ks.push_back((int)(ks[1] + ks[2]) % NK);
    std::vector<BaseField::Ptr> v; for (size_t i = 0; i < ks.size(); ++i) v.push_back(mkField(ks[i], (int)i)); MessageDatabase::RegisterAlignmentFunction("OEM", OemAlignmentFunction);
    auto fi = BuildFieldInfo(v, oem ? "OEM" : "OTHER"); layout(ks, *fi, oem); sx_reach("end");
}
template <typename T> static void put(CompositeField& c, const BaseField& f, const Kind& k, unsigned e, uint64_t v) { T x; memcpy((void*)&x, &v, sizeof(T)); if (k.f == FIELD_TYPE::FIXED_LENGTH_ARRAY) c.SetArrayElement<true>(f, e, x); else c.SetFieldValue<true>(f.index, x); }
template <typename T> static bool is(const CompositeField& c, const BaseField& f, unsigned e, uint64_t v) { T x = c.GetFieldValue<T>(f, e), y; memcpy((void*)&y, &v, sizeof(T)); return memcmp(&x, &y, sizeof(T)) == 0; }
template <typename F> static void visit(const Kind& k, F&& fn)
{
    if (k.f == FIELD_TYPE::ENUM) { switch (width(k.t)) { case 1: fn(int8_t{}); return; case 2: fn(int16_t{}); return; default: fn(int32_t{}); return; } }
    switch (k.t) { case DATA_TYPE::BOOL: fn(bool{}); return; case DATA_TYPE::CHAR: fn(int8_t{}); return; case DATA_TYPE::UCHAR: case DATA_TYPE::HEXBYTE: fn(uint8_t{}); return; case DATA_TYPE::SHORT: fn(int16_t{}); return; case DATA_TYPE::USHORT: fn(uint16_t{}); return; case DATA_TYPE::INT: case DATA_TYPE::LONG: fn(int32_t{}); return; case DATA_TYPE::LONGLONG: fn(int64_t{}); return; case DATA_TYPE::ULONGLONG: fn(uint64_t{}); return; case DATA_TYPE::FLOAT: fn(float{}); return; case DATA_TYPE::DOUBLE: fn(double{}); return; default: fn(uint32_t{}); return; }
}
// store any value in every element of three fields, then overwrite one of them: the others keep theirs. case: kind of the first field
HARNESS(d03_store)
{
    sx_expect("end"); int c = sx_case(); std::vector<int> ks{c, (int)sx_enum(NK, "kind"), 0}; ks[2] = (ks[1] * 5 + 2) % NK; std::vector<BaseField::Ptr> v; for (size_t i = 0; i < 3; ++i) v.push_back(mkField(ks[i], (int)i)); MessageDatabase::RegisterAlignmentFunction("OEM", OemAlignmentFunction);
    auto fi = BuildFieldInfo(v, sx_enum(2, "family") ? "OEM" : "OTHER"); CompositeField f(fi->fixedFieldBytes, fi->varFieldCount); std::vector<std::vector<uint64_t>> val(3);
    auto set = [&](size_t i, unsigned e, uint64_t x) {
        auto& k = KD[ks[i]]; auto& d = *v[i];
        if (k.f == FIELD_TYPE::STRING || k.f == FIELD_TYPE::RESPONSE_STR) { f.SetFieldValue<false>(d.index, std::string(3, (char)x)); return; }
        if (k.f == FIELD_TYPE::VARIABLE_LENGTH_ARRAY) { f.SetFieldValue<false>(d.index, std::vector<uint16_t>(2, (uint16_t)x)); return; }
        if (k.f == FIELD_TYPE::FIELD_ARRAY) { f.SetFieldValue(d, FlatFieldArray((size_t)(x & 1), dynamic_cast<FieldArrayField&>(d).fieldInfo.get())); return; }
        visit(k, [&](auto t) { using T = decltype(t); put<T>(f, d, k, e, sizeof(T) == 1 && std::is_same_v<T, bool> ? x & 1 : x); });
    };
    auto get = [&](size_t i, unsigned e, uint64_t x) {
        auto& k = KD[ks[i]]; auto& d = *v[i];
        if (k.f == FIELD_TYPE::STRING || k.f == FIELD_TYPE::RESPONSE_STR) return f.GetFieldValue<std::string>(d) == std::string(3, (char)x);
        if (k.f == FIELD_TYPE::VARIABLE_LENGTH_ARRAY) return f.GetFieldValue<std::vector<uint16_t>>(d) == std::vector<uint16_t>(2, (uint16_t)x) && f.GetFieldValue<uint16_t>(d, 1) == (uint16_t)x && f.GetFieldSize(d) == 2 && f.GetFieldByteSize(d) == 4;
        if (k.f == FIELD_TYPE::FIELD_ARRAY) return f.GetFieldValue<FlatFieldArray>(d).size() == (x & 1);
        bool ok = false; visit(k, [&](auto t) { using T = decltype(t); ok = is<T>(f, d, e, std::is_same_v<T, bool> ? x & 1 : x); }); return ok && f.GetFieldByteSize(d) == bytes(k) && f.GetFieldSize(d) == k.len;
    };
    auto elems = [&](size_t i) { return isVar(KD[ks[i]].f) ? 1u : KD[ks[i]].len; };
    for (size_t i = 0; i < 3; ++i) for (unsigned e = 0; e < elems(i); ++e) { val[i].push_back(sx_any<uint64_t>("value")); set(i, e, val[i][e]); }
    size_t ch = sx_enum(3, "field changed"); unsigned n = elems(ch); if (n) { unsigned e = (unsigned)sx_enum(n, "element changed"); val[ch][e] = sx_any<uint64_t>("new value"); set(ch, e, val[ch][e]); }
    for (size_t i = 0; i < 3; ++i) for (unsigned e = 0; e < elems(i); ++e) sx_assert(get(i, e, val[i][e]), "every field and element holds the value stored through it");
    CompositeField copy(f); if (n) set(ch, 0, sx_any<uint64_t>("later value")); std::swap(copy, f); for (size_t i = 0; i < 3; ++i) for (unsigned e = 0; e < elems(i); ++e) sx_assert(get(i, e, val[i][e]), "a copy keeps its own values"); sx_reach("end");
}
HARNESS(d03_default) // a message built from its definition holds zeros and empty lists of the declared types
{
    sx_expect("end"); std::vector<int> ks{(int)sx_case(), (int)sx_enum(NK, "kind")}; for (int k : ks) if (KD[k].f == FIELD_TYPE::RESPONSE_STR) sx_assume(false); std::vector<BaseField::Ptr> v; for (size_t i = 0; i < 2; ++i) v.push_back(mkField(ks[i], (int)i)); auto fi = BuildFieldInfo(v, "OEM"); CompositeField f(fi);
    for (size_t i = 0; i < 2; ++i)
    {
        auto& k = KD[ks[i]]; auto& d = *v[i];
        if (k.f == FIELD_TYPE::STRING) { sx_assert(f.GetFieldValue<std::string>(d).empty(), "empty text"); continue; }
        if (k.f == FIELD_TYPE::VARIABLE_LENGTH_ARRAY) { sx_assert(f.GetFieldValue<std::vector<uint16_t>>(d).empty(), "empty array"); continue; }
        if (k.f == FIELD_TYPE::FIELD_ARRAY) { sx_assert(f.GetFieldSize(d) == 0, "no records"); continue; }
        for (unsigned e = 0; e < k.len; ++e) visit(k, [&](auto t) { using T = decltype(t); sx_assert(is<T>(f, d, e, 0), "zero"); sx_assert(k.len > 1 || f.GetFieldValueByName<T>(d.name, e) == T{}, "by name"); });
        if (k.f == FIELD_TYPE::FIXED_LENGTH_ARRAY && k.t != DATA_TYPE::BOOL) visit(k, [&](auto t) { using T = decltype(t); bool thrown = false; try { (void)f.GetFieldValue<T>(d, k.len); } catch (const std::runtime_error&) { thrown = true; } sx_assert(thrown, "no element past the end"); });
    }
    sx_reach("end");
}
// ---- D04
static MessageDefinition::Ptr rich()
{
    std::unordered_map<uint32_t, FieldInfo::ConstPtr> fi; auto e = std::make_shared<EnumField>("e", FIELD_TYPE::ENUM, "%d", DATA_TYPE::ULONG, "e5"); auto a = std::make_shared<ArrayField>("v", FIELD_TYPE::VARIABLE_LENGTH_ARRAY, "%hu", DATA_TYPE::USHORT, 4); a->arrayLengthRef = "n"; a->arrayLengthFieldSize = 2;
    fi[1] = BuildFieldInfo({simple("c", "%uc", DATA_TYPE::UCHAR), e, a, farr("fa", 2, {simple("in", "%4.2lf", DATA_TYPE::DOUBLE), arr("s", FIELD_TYPE::STRING, "%s", DATA_TYPE::CHAR, 8)})}, "OEM"); fi[2] = BuildFieldInfo({simple("c", "%uc", DATA_TYPE::UCHAR), simple("q", "%hu", DATA_TYPE::USHORT)}, "OEM");
    return std::make_shared<MessageDefinition>("uid", 77, "RICH", "a description", 2, fi);
}
static void mutate(MessageDefinition& m, int what)
{
    auto& f = m.fieldInfo[1]->messageOrderedFields; auto fld = [&](size_t i) -> BaseField& { return const_cast<BaseField&>(*f[i]); };
    switch (what)
    {
    case 0: m._id = "other"; break;
    case 1: m.logID = 78; break;
    case 2: m.name = "OTHER"; break;
    case 3: m.description = "x"; break;
    case 4: m.latestMessageCrc = 1; break;
    case 5: m.fieldInfo.erase(2); break;
    case 6: fld(0).name = "x"; break;
    case 7: fld(0).type = FIELD_TYPE::BITFIELD; break;
    case 8: fld(0).description = "x"; break;
    case 9: fld(0).SetConversion("%lu"); break;
    case 10: fld(0).dataType.name = DATA_TYPE::CHAR; break;
    case 11: fld(0).dataType.length = 7; break;
    case 12: static_cast<EnumField&>(fld(1)).enumId = "x"; break;
    case 13: static_cast<ArrayField&>(fld(2)).arrayLength = 5; break;
    case 14: static_cast<ArrayField&>(fld(2)).arrayLengthRef = "m"; break;
    case 15: static_cast<ArrayField&>(fld(2)).arrayLengthFieldSize = 4; break;
    case 16: const_cast<BaseField&>(*static_cast<FieldArrayField&>(fld(3)).fieldInfo->messageOrderedFields[0]).name = "y"; break;
    case 17: const_cast<BaseField&>(*static_cast<FieldArrayField&>(fld(3)).fieldInfo->messageOrderedFields[1]).dataType.length = 3; break;
    case 18: const_cast<FieldInfo&>(*static_cast<FieldArrayField&>(fld(3)).fieldInfo).messageOrderedFields.pop_back(); break;
    case 19: const_cast<FieldInfo&>(*m.fieldInfo[1]).messageOrderedFields.pop_back(); break;
    case 20: const_cast<FieldInfo&>(*m.fieldInfo[1]).fixedFieldBytes = 99; break;
    case 21: const_cast<FieldInfo&>(*m.fieldInfo[1]).varFieldCount = 99; break;
    case 22: fld(0).dataType.description = "z"; break;
    case 23: m.fieldInfo[3] = m.fieldInfo[2]; break;
    case 24: const_cast<FieldInfo&>(*m.fieldInfo[1]).messageOrderedFields[0] = std::make_shared<ArrayField>("c", FIELD_TYPE::SIMPLE, "%uc", DATA_TYPE::UCHAR, 0); break;
    case 25: { auto i = m.fieldInfo[2]; m.fieldInfo.erase(2); m.fieldInfo[9] = i; break; }
    }
}
constexpr int NMUT = 26;
static bool deepEq(const BaseField& a, const BaseField& b) // every attribute, caches included
{
    bool ok = typeid(a) == typeid(b) && a.name == b.name && a.type == b.type && a.description == b.description && a.conversion == b.conversion && a.conversionHash == b.conversionHash && a.width == b.width && a.precision == b.precision && a.isString == b.isString && a.isCsv == b.isCsv && a.dataType == b.dataType && a.index == b.index; if (!ok) return false;
    if (auto* x = dynamic_cast<const EnumField*>(&a)) { auto* y = dynamic_cast<const EnumField*>(&b); if (x->enumId != y->enumId) return false; }
    if (auto* x = dynamic_cast<const ArrayField*>(&a)) { auto* y = dynamic_cast<const ArrayField*>(&b); if (x->arrayLength != y->arrayLength || x->arrayLengthRef != y->arrayLengthRef || x->arrayLengthFieldSize != y->arrayLengthFieldSize) return false; }
    if (auto* x = dynamic_cast<const FieldArrayField*>(&a)) { auto* y = dynamic_cast<const FieldArrayField*>(&b); if (x->fieldSize != y->fieldSize || x->fieldInfo->fixedFieldBytes != y->fieldInfo->fixedFieldBytes || x->fieldInfo->varFieldCount != y->fieldInfo->varFieldCount || x->fieldInfo->messageOrderedFields.size() != y->fieldInfo->messageOrderedFields.size()) return false; for (size_t i = 0; i < x->fieldInfo->messageOrderedFields.size(); ++i) if (!deepEq(*x->fieldInfo->messageOrderedFields[i], *y->fieldInfo->messageOrderedFields[i])) return false; }
    return true;
}
static bool deepEq(const MessageDefinition& a, const MessageDefinition& b)
{
    if (a._id != b._id || a.logID != b.logID || a.name != b.name || a.description != b.description || a.latestMessageCrc != b.latestMessageCrc || a.fieldInfo.size() != b.fieldInfo.size()) return false;
    for (auto& [crc, fi] : a.fieldInfo) { auto it = b.fieldInfo.find(crc); if (it == b.fieldInfo.end() || it->second->fixedFieldBytes != fi->fixedFieldBytes || it->second->varFieldCount != fi->varFieldCount || it->second->messageOrderedFields.size() != fi->messageOrderedFields.size()) return false; for (size_t i = 0; i < fi->messageOrderedFields.size(); ++i) if (!deepEq(*fi->messageOrderedFields[i], *it->second->messageOrderedFields[i])) return false; }
    return true;
}
// case: how the copy is made (0 copy constructor, 1 assignment, 2 added to a database, 3 merged, 4 merged into a database of another family and back)
HARNESS(d04_copy)
{
    sx_expect("end"); MessageDatabase::RegisterAlignmentFunction("OEM", OemAlignmentFunction); auto src = rich(), ref = rich(); sx_assert(deepEq(*src, *ref) && *src == *ref, "built twice, equal"); MessageDefinition::Ptr cp; int how = sx_case(); auto meta = std::make_shared<DbMetadata>(); meta->messageFamily = how == 4 ? "NONE" : "OEM"; MessageDatabase d({}, {}, meta), o({src}, baseEnums(), nullptr);
    switch (how) { case 0: cp = std::make_shared<MessageDefinition>(*src); break; case 1: cp = std::make_shared<MessageDefinition>("old", 5, "OLD", "old", 7, std::unordered_map<uint32_t, FieldInfo::ConstPtr>{{7, std::make_shared<FieldInfo>()}}); *cp = *src; { auto& r = *cp; *cp = r; } break; case 2: d.AppendMessages({src}); cp = std::const_pointer_cast<MessageDefinition>(d.GetMsgDef(77)); break; default: d.Merge(o); cp = std::const_pointer_cast<MessageDefinition>(d.GetMsgDef("RICH")); }
    sx_assert(cp && cp != src, "a copy was made"); if (how == 4) { sx_assert(deepEq(*src, *ref), "adding a definition to a database of another family leaves the source alone"); sx_assert(cp->fieldInfo[2]->fixedFieldBytes == 3 && src->fieldInfo[2]->fixedFieldBytes == 4, "each has the layout of its own family"); d.SetMessageFamily("OEM"); cp = std::const_pointer_cast<MessageDefinition>(d.GetMsgDef(77)); }
    sx_assert(deepEq(*cp, *src) && *cp == *src && !(*cp != *src), "the copy equals its source in every attribute");
    if (how > 2) { sx_assert(d.GetEnumDefId("e5") != nullptr && d.EnumDefinitions().size() == o.EnumDefinitions().size(), "enumerations are merged"); sx_assert(static_cast<const EnumField&>(*cp->fieldInfo[1]->messageOrderedFields[1]).enumDef == d.GetEnumDefId("e5"), "fields refer to the enumerations merged"); }
    int w = (int)sx_enum(NMUT, "change"); bool inCopy = sx_enum(2, "changed side"); mutate(inCopy ? *cp : *src, w); sx_assert(deepEq(inCopy ? *src : *cp, *ref), "changing one leaves the other as it was"); sx_assert(!(*cp == *src) && *cp != *src, "definitions that differ in one attribute are not equal"); sx_reach("end");
}
HARNESS(d04_enum) // copies of enumerations look their own names up
{
    sx_expect("end"); uint32_t v1 = sx_any<uint32_t>("value"), v2 = sx_any<uint32_t>("value"); sx_assume(v1 < 0x80000000u && v2 < 0x80000000u && v1 != v2); auto src = std::make_unique<EnumDefinition>("id", "Name", std::vector<EnumDataType>{{v1, "A", "first"}, {v2, "BB", "second"}}); EnumDefinition cp = *src, as; as = *src; EnumDefinition mv = EnumDefinition(*src);
    src->enumerators[0].name = "ZZ"; src->enumerators[1].value = 5; src->RebuildCaches(); src.reset();
    for (auto* e : {&cp, &as, &mv}) { sx_assert(e->_id == "id" && e->name == "Name" && e->enumerators.size() == 2, "same attributes"); sx_assert(e->nameValue.at("A") == v1 && e->nameValue.at("BB") == v2 && e->nameValue.size() == 2 && e->valueName.at(v1) == "A" && e->valueName.at(v2) == "BB" && e->descriptionValue.at("second") == v2, "every name and value is found in the copy"); sx_assert(e->unknownValue > v1 && e->unknownValue > v2, "the value for unknown names is no listed value"); } sx_reach("end");
}
