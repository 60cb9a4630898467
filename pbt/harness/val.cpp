#include "val.h"
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/message.h>
#include <algorithm>
#include <cmath>
#include <sstream>

namespace vt {
using namespace pbt;
namespace gp = google::protobuf;

Val defaultField(const FieldD &f) {
    if (f.card == ONE && f.kind == MESSAGE) return defaultVal(*f.msg);
    return Val();
}
// Recursive singular messages are represented by an empty item vector below this depth.
static Val defaultDepth(const MsgD &d, int depth) {
    Val v;
    if (depth > 6) return v;
    for (auto &f : d.fields) v.items.push_back(f.card == ONE && f.kind == MESSAGE ? defaultDepth(*f.msg, depth + 1) : Val());
    return v;
}
Val defaultVal(const MsgD &d) { return defaultDepth(d, 0); }

static uint64_t sx32(uint64_t u) { return uint64_t(int64_t(int32_t(uint32_t(u)))); }

static uint64_t genInt(Src &s, bool is64) {
    // boundary-heavy: 7-bit groups, sign boundaries, extremes
    switch (s.weighted({3, 6, 5, 3, 3})) {
    case 0: return s.draw(4);
    case 1: {                                // around a power of two
        int bits = int(s.draw(is64 ? 65 : 33));
        uint64_t b = bits >= 64 ? 0 : (1ull << bits);
        int off = s.range(0, 4);
        static const int offs[] = {0, -1, 1, -2, 2};
        return b + uint64_t(int64_t(offs[off]));
    }
    case 2: {                                // negative of that
        int bits = int(s.draw(is64 ? 64 : 32));
        return uint64_t(-int64_t(1ull << bits)) + uint64_t(int64_t(s.range(0, 2)) - 1);
    }
    case 3: return s.draw64();
    default: return s.draw(100000);
    }
}

uint64_t genScalarBits(Src &s, Kind k, const EnumD *en, const GenOpts &o) {
    switch (k) {
    case INT32: case SINT32: case SFIXED32: return sx32(genInt(s, false));
    case UINT32: case FIXED32: return uint32_t(genInt(s, false));
    case INT64: case SINT64: case SFIXED64: case UINT64: case FIXED64: return genInt(s, true);
    case BOOL: return s.draw(2);
    case FLOAT: {
        static const uint32_t sp[] = {0, 0x3f800000, 0xbf800000, 0x7f7fffff, 0xff7fffff, 0x00800000, 1, 0x80000001, 0x7f800000, 0xff800000, 0x007fffff, 0x4b800001};
        if (s.chance(1, 2)) return sp[s.draw(12)];
        uint32_t b = uint32_t(s.draw(1ull << 32));
        if (!o.nan && (b & 0x7f800000) == 0x7f800000) b &= ~0x00400000u & ~0x007fffffu;
        return b;
    }
    case DOUBLE: {
        static const uint64_t sp[] = {0, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 1, 0x8000000000000001ull,
                                      0x0010000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x3fb999999999999aull, 0x4340000000000001ull};
        if (s.chance(1, 2)) return sp[s.draw(12)];
        uint64_t b = s.draw64();
        if (!o.nan && (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) b &= ~0x000fffffffffffffull;
        return b;
    }
    case ENUM:
        if (o.unknownEnum && s.chance(1, 6)) return sx32(s.chance(1, 2) ? s.draw(200) : genInt(s, false));
        return uint64_t(int64_t(en->values[s.draw(en->values.size())]));
    default: return 0;
    }
}

static void putUtf8(std::string &o, uint32_t c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
}

static size_t longLen(Src &s) {
    switch (s.weighted({120, 36, 8, 3, 1})) {     // around the lengths where a length prefix grows or an integer type ends
    case 0: return s.draw(400);
    case 1: return 16380 + s.draw(8);
    case 2: return 65530 + s.draw(12);
    case 3: return 131066 + s.draw(12);
    default: return 2097148 + s.draw(8);
    }
}
std::string genString(Src &s) {
    std::string o;
    size_t n;
    switch (s.weighted({2, 8, 2, 1})) {
    case 0: n = 0; break;
    case 1: n = s.draw(8); break;
    case 2: n = 120 + s.draw(16); break;
    default: n = longLen(s); break;
    }
    if (n > 64) {           // long strings: repeated unit, still cheap to shrink
        uint32_t c = 'a' + uint32_t(s.draw(26));
        bool wide = s.chance(1, 4);
        for (size_t i = 0; i < n; ++i) putUtf8(o, wide && i % 7 == 0 ? 0x20ac : c);
        return o;
    }
    for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({10, 2, 2, 2, 1, 1})) {
        case 5: { static const uint32_t sp[] = {0xfeff, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff}; putUtf8(o, sp[s.draw(12)]); break; }
        case 0: putUtf8(o, 'a' + uint32_t(s.draw(26))); break;
        case 1: putUtf8(o, 0x80 + uint32_t(s.draw(0x780))); break;
        case 2: { uint32_t c = 0x800 + uint32_t(s.draw(0xf7fe)); if (c >= 0xd800 && c < 0xe000) c = 0x20ac; putUtf8(o, c); break; }
        case 3: putUtf8(o, 0x10000 + uint32_t(s.draw(0x100000))); break;
        default: putUtf8(o, uint32_t(s.draw(32))); break;
        }
    }
    return o;
}

std::string genBytes(Src &s) {
    size_t n;
    switch (s.weighted({2, 8, 2, 1})) {
    case 0: n = 0; break;
    case 1: n = s.draw(8); break;
    case 2: n = 120 + s.draw(16); break;
    default: n = longLen(s); break;
    }
    std::string o;
    if (n > 64) {
        unsigned char c = (unsigned char)s.draw(256);
        for (size_t i = 0; i < n; ++i) o += char(c + i * 7);
        return o;
    }
    for (size_t i = 0; i < n; ++i) o += char(s.draw(256));
    return o;
}

Val genScalar(Src &s, Kind k, const EnumD *en, const GenOpts &o) {
    Val v;
    if (k == STRING) v.s = genString(s);
    else if (k == BYTES) v.s = genBytes(s);
    else v.u = genScalarBits(s, k, en, o);
    return v;
}

static Key genKey(Src &s, Kind k) {
    Key r;
    GenOpts o;
    if (k == STRING) r.s = genString(s);
    else r.u = genScalarBits(s, k, nullptr, o);
    return r;
}

bool hugeLists = true;
Val genField(Src &s, const FieldD &f, const GenOpts &o) {
    GenOpts in = o;
    in.depth = o.depth - 1;
    auto one = [&]() { return f.kind == MESSAGE ? genMsg(s, *f.msg, in) : genScalar(s, f.kind, f.en, o); };
    if (f.card == ONE) return one();
    Val v;
    size_t n;
    if (f.kind == MESSAGE && o.depth <= 0) n = 0;
    else switch (s.weighted({2, 4, 4, 1})) {
    case 0: n = 0; break;
    case 1: n = 1; break;
    case 2: n = 2 + s.draw(4); break;
    default: n = f.kind == MESSAGE || f.kind == STRING || f.kind == BYTES ? 3 + s.draw(6) : s.chance(hugeLists ? 1 : 0, 40) ? 2000 + s.draw(30000) : 1 + s.draw(200); break;
    }
    if (f.card == MANY) {
        for (size_t i = 0; i < n; ++i) v.items.push_back(one());
    } else {
        if (n > 12) n = 12;
        for (size_t i = 0; i < n; ++i) { Key k = genKey(s, f.key); v.map[k] = one(); }
    }
    return v;
}

Val genMsg(Src &s, const MsgD &d, const GenOpts &o) {
    // bounds the number of messages in one generated value, whatever the fan-out of the schema
    static thread_local int level = 0, nodes = 0;
    struct Guard { Guard() { if (level++ == 0) nodes = 0; } ~Guard() { --level; } } guard;
    Val v = defaultVal(d);
    if (o.depth < 0 || ++nodes > 250) return v;
    for (size_t i = 0; i < d.fields.size(); ++i) {
        if (!s.chance(o.fill, 100)) continue;
        if (d.fields[i].kind == MESSAGE && o.depth <= 0) continue;
        v.items[i] = genField(s, d.fields[i], o);
    }
    return v;
}

static void normScalar(Kind k, Val &v, bool canonNan) {
    if (k == FLOAT) {
        if (uint32_t(v.u) == 0x80000000u) v.u = 0;
        if (canonNan && (v.u & 0x7f800000) == 0x7f800000 && (v.u & 0x7fffff)) v.u = 0x7fc00000;
    }
    if (k == DOUBLE) {
        if (v.u == 0x8000000000000000ull) v.u = 0;
        if (canonNan && (v.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v.u & 0xfffffffffffffull)) v.u = 0x7ff8000000000000ull;
    }
}
void normalize(const MsgD &d, Val &v, bool c) {
    if (v.items.size() != d.fields.size()) { v = defaultVal(d); }
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) {
        auto &f = d.fields[i];
        auto n = [&](Val &x) { if (f.kind == MESSAGE) { if (!x.items.empty() || f.card != ONE) normalize(*f.msg, x, c); } else normScalar(f.kind, x, c); };
        if (f.card == ONE) n(v.items[i]);
        else if (f.card == MANY) for (auto &x : v.items[i].items) n(x);
        else for (auto &x : v.items[i].map) n(x.second);
    }
}

int countSet(const MsgD &d, const Val &v) {
    int n = 0;
    Val def = defaultVal(d);
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) if (v.items[i] != def.items[i]) ++n;
    return n;
}
bool hasNonDefault(const MsgD &d, const Val &v) { return countSet(d, v) > 0; }

static std::string showScalar(Kind k, const Val &v) {
    std::ostringstream o;
    switch (k) {
    case STRING: case BYTES: {
        std::string h = v.s.size() > 24 ? hex(v.s.substr(0, 24)) + "..(" + std::to_string(v.s.size()) + ")" : hex(v.s);
        o << "0x" << h; break; }
    case FLOAT: { float x; uint32_t b = uint32_t(v.u); memcpy(&x, &b, 4); o << x; break; }
    case DOUBLE: { double x; memcpy(&x, &v.u, 8); o << x; break; }
    case UINT32: case UINT64: case FIXED32: case FIXED64: o << v.u; break;
    default: o << int64_t(v.u);
    }
    return o.str();
}
static std::string showKey(Kind k, const Key &key) { Val v; v.u = key.u; v.s = key.s; return showScalar(k, v); }
std::string show(const MsgD &d, const Val &v) {
    std::ostringstream o;
    o << d.full << "{";
    Val def = defaultVal(d);
    bool first = true;
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) {
        if (v.items[i] == def.items[i]) continue;
        auto &f = d.fields[i];
        o << (first ? "" : " ") << f.name << "=";
        first = false;
        auto sv = [&](const Val &x) { return f.kind == MESSAGE ? show(*f.msg, x) : showScalar(f.kind, x); };
        if (f.card == ONE) o << sv(v.items[i]);
        else if (f.card == MANY) {
            o << "[";
            size_t c = 0;
            for (auto &x : v.items[i].items) { o << (c ? "," : "") << sv(x); if (++c > 8) { o << ",..#" << v.items[i].items.size(); break; } }
            o << "]";
        } else {
            o << "{";
            size_t c = 0;
            for (auto &x : v.items[i].map) o << (c++ ? "," : "") << showKey(f.key, x.first) << ":" << sv(x.second);
            o << "}";
        }
    }
    o << "}";
    return o.str();
}
std::string diff(const MsgD &d, const Val &a, const Val &b, const std::string &path) {
    for (size_t i = 0; i < d.fields.size(); ++i) {
        if (i >= a.items.size() || i >= b.items.size()) return path + ": shape differs";
        auto &f = d.fields[i];
        const Val &x = a.items[i], &y = b.items[i];
        if (x == y) continue;
        std::string p = path + "." + f.name;
        if (f.card == ONE) {
            if (f.kind == MESSAGE) return diff(*f.msg, x, y, p);
            return p + ": " + showScalar(f.kind, x) + " vs " + showScalar(f.kind, y);
        }
        if (f.card == MANY) {
            if (x.items.size() != y.items.size()) return p + ": length " + std::to_string(x.items.size()) + " vs " + std::to_string(y.items.size());
            for (size_t k = 0; k < x.items.size(); ++k) if (x.items[k] != y.items[k]) {
                std::string q = p + "[" + std::to_string(k) + "]";
                if (f.kind == MESSAGE) return diff(*f.msg, x.items[k], y.items[k], q);
                return q + ": " + showScalar(f.kind, x.items[k]) + " vs " + showScalar(f.kind, y.items[k]);
            }
        }
        for (auto &e : x.map) {
            auto it = y.map.find(e.first);
            std::string q = p + "{" + showKey(f.key, e.first) + "}";
            if (it == y.map.end()) return q + ": missing on the right";
            if (it->second != e.second) return f.kind == MESSAGE ? diff(*f.msg, e.second, it->second, q) : q + ": " + showScalar(f.kind, e.second) + " vs " + showScalar(f.kind, it->second);
        }
        for (auto &e : y.map) if (!x.map.count(e.first)) return p + "{" + showKey(f.key, e.first) + "}: missing on the left";
    }
    return "";
}

// ---------------------------------------------------------------- reference implementation
struct ErrColl : gp::compiler::MultiFileErrorCollector {
    void AddError(const std::string &f, int l, int c, const std::string &m) override { fprintf(stderr, "%s:%d:%d %s\n", f.c_str(), l, c, m.c_str()); }
};
static gp::compiler::DiskSourceTree *g_tree;
static gp::compiler::Importer *g_imp;
static gp::DynamicMessageFactory *g_fac;
void refInit(const std::string &dir, const std::vector<std::string> &files) {
    if (g_imp) return;
    gp::SetLogHandler(nullptr);
    g_tree = new gp::compiler::DiskSourceTree;
    g_tree->MapPath("", dir);
    g_tree->MapPath("", "/usr/include");
    g_tree->MapPath("", "/repo/src/qttypes");
    g_imp = new gp::compiler::Importer(g_tree, new ErrColl);
    for (auto &f : files) if (!g_imp->Import(f)) { fprintf(stderr, "reference cannot import %s\n", f.c_str()); exit(2); }
    g_fac = new gp::DynamicMessageFactory(g_imp->pool());
}
std::unique_ptr<gp::Message> refNew(const MsgD &d) {
    const gp::Descriptor *g = g_imp->pool()->FindMessageTypeByName(d.full);
    if (!g) { fprintf(stderr, "reference has no %s\n", d.full); exit(2); }
    return std::unique_ptr<gp::Message>(g_fac->GetPrototype(g)->New());
}
static float fbits(uint64_t u) { float x; uint32_t b = uint32_t(u); memcpy(&x, &b, 4); return x; }
static double dbits(uint64_t u) { double x; memcpy(&x, &u, 8); return x; }
static uint64_t bitsf(float x) { uint32_t b; memcpy(&b, &x, 4); return b; }
static uint64_t bitsd(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }

using FD = gp::FieldDescriptor;
static void refSet(gp::Message &m, const FD *fd, const Val &v) {
    auto r = m.GetReflection();
    switch (fd->cpp_type()) {
    case FD::CPPTYPE_INT32: r->SetInt32(&m, fd, int32_t(v.u)); break;
    case FD::CPPTYPE_INT64: r->SetInt64(&m, fd, int64_t(v.u)); break;
    case FD::CPPTYPE_UINT32: r->SetUInt32(&m, fd, uint32_t(v.u)); break;
    case FD::CPPTYPE_UINT64: r->SetUInt64(&m, fd, v.u); break;
    case FD::CPPTYPE_DOUBLE: r->SetDouble(&m, fd, dbits(v.u)); break;
    case FD::CPPTYPE_FLOAT: r->SetFloat(&m, fd, fbits(v.u)); break;
    case FD::CPPTYPE_BOOL: r->SetBool(&m, fd, v.u != 0); break;
    case FD::CPPTYPE_ENUM: r->SetEnumValue(&m, fd, int32_t(v.u)); break;
    case FD::CPPTYPE_STRING: r->SetString(&m, fd, v.s); break;
    default: break;
    }
}
static void refAdd(gp::Message &m, const FD *fd, const Val &v) {
    auto r = m.GetReflection();
    switch (fd->cpp_type()) {
    case FD::CPPTYPE_INT32: r->AddInt32(&m, fd, int32_t(v.u)); break;
    case FD::CPPTYPE_INT64: r->AddInt64(&m, fd, int64_t(v.u)); break;
    case FD::CPPTYPE_UINT32: r->AddUInt32(&m, fd, uint32_t(v.u)); break;
    case FD::CPPTYPE_UINT64: r->AddUInt64(&m, fd, v.u); break;
    case FD::CPPTYPE_DOUBLE: r->AddDouble(&m, fd, dbits(v.u)); break;
    case FD::CPPTYPE_FLOAT: r->AddFloat(&m, fd, fbits(v.u)); break;
    case FD::CPPTYPE_BOOL: r->AddBool(&m, fd, v.u != 0); break;
    case FD::CPPTYPE_ENUM: r->AddEnumValue(&m, fd, int32_t(v.u)); break;
    case FD::CPPTYPE_STRING: r->AddString(&m, fd, v.s); break;
    default: break;
    }
}
static Val refGet(const gp::Message &m, const FD *fd, int idx) {
    auto r = m.GetReflection();
    Val v;
    bool rep = idx >= 0;
    switch (fd->cpp_type()) {
    case FD::CPPTYPE_INT32: v.u = uint64_t(int64_t(rep ? r->GetRepeatedInt32(m, fd, idx) : r->GetInt32(m, fd))); break;
    case FD::CPPTYPE_INT64: v.u = uint64_t(rep ? r->GetRepeatedInt64(m, fd, idx) : r->GetInt64(m, fd)); break;
    case FD::CPPTYPE_UINT32: v.u = rep ? r->GetRepeatedUInt32(m, fd, idx) : r->GetUInt32(m, fd); break;
    case FD::CPPTYPE_UINT64: v.u = rep ? r->GetRepeatedUInt64(m, fd, idx) : r->GetUInt64(m, fd); break;
    case FD::CPPTYPE_DOUBLE: v.u = bitsd(rep ? r->GetRepeatedDouble(m, fd, idx) : r->GetDouble(m, fd)); break;
    case FD::CPPTYPE_FLOAT: v.u = bitsf(rep ? r->GetRepeatedFloat(m, fd, idx) : r->GetFloat(m, fd)); break;
    case FD::CPPTYPE_BOOL: v.u = rep ? r->GetRepeatedBool(m, fd, idx) : r->GetBool(m, fd); break;
    case FD::CPPTYPE_ENUM: v.u = uint64_t(int64_t(rep ? r->GetRepeatedEnumValue(m, fd, idx) : r->GetEnumValue(m, fd))); break;
    case FD::CPPTYPE_STRING: v.s = rep ? r->GetRepeatedString(m, fd, idx) : r->GetString(m, fd); break;
    default: break;
    }
    return v;
}
void refFromVal(const MsgD &d, const Val &v, gp::Message &m) {
    auto g = m.GetDescriptor();
    auto r = m.GetReflection();
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) {
        auto &f = d.fields[i];
        const FD *fd = g->FindFieldByName(f.name);
        if (!fd || fd->number() != f.number) { fprintf(stderr, "reference schema mismatch %s.%s\n", d.full, f.name); exit(2); }
        const Val &x = v.items[i];
        if (f.card == ONE) {
            if (f.kind == MESSAGE) { if (!x.items.empty() && hasNonDefault(*f.msg, x)) refFromVal(*f.msg, x, *r->MutableMessage(&m, fd)); }
            else if (x != Val()) refSet(m, fd, x);
        } else if (f.card == MANY) {
            for (auto &e : x.items) { if (f.kind == MESSAGE) refFromVal(*f.msg, e, *r->AddMessage(&m, fd)); else refAdd(m, fd, e); }
        } else {
            for (auto &e : x.map) {
                gp::Message *en = r->AddMessage(&m, fd);
                auto kd = en->GetDescriptor()->FindFieldByNumber(1), vd = en->GetDescriptor()->FindFieldByNumber(2);
                Val k; k.u = e.first.u; k.s = e.first.s;
                refSet(*en, kd, k);
                if (f.kind == MESSAGE) refFromVal(*f.msg, e.second, *en->GetReflection()->MutableMessage(en, vd));
                else refSet(*en, vd, e.second);
            }
        }
    }
}
void refToVal(const MsgD &d, const gp::Message &m, Val &v) {
    v = defaultVal(d);
    auto g = m.GetDescriptor();
    auto r = m.GetReflection();
    for (size_t i = 0; i < d.fields.size(); ++i) {
        auto &f = d.fields[i];
        const FD *fd = g->FindFieldByName(f.name);
        if (f.card == ONE) {
            if (f.kind == MESSAGE) { if (r->HasField(m, fd)) refToVal(*f.msg, r->GetMessage(m, fd), v.items[i]); }
            else v.items[i] = refGet(m, fd, -1);
        } else if (f.card == MANY) {
            int n = r->FieldSize(m, fd);
            for (int k = 0; k < n; ++k) {
                Val e;
                if (f.kind == MESSAGE) refToVal(*f.msg, r->GetRepeatedMessage(m, fd, k), e);
                else e = refGet(m, fd, k);
                v.items[i].items.push_back(e);
            }
        } else {
            int n = r->FieldSize(m, fd);
            for (int k = 0; k < n; ++k) {
                const gp::Message &en = r->GetRepeatedMessage(m, fd, k);
                auto kd = en.GetDescriptor()->FindFieldByNumber(1), vd = en.GetDescriptor()->FindFieldByNumber(2);
                Val kv = refGet(en, kd, -1);
                Key key; key.u = kv.u; key.s = kv.s;
                Val e;
                if (f.kind == MESSAGE) refToVal(*f.msg, en.GetReflection()->GetMessage(en, vd), e);
                else e = refGet(en, vd, -1);
                v.items[i].map[key] = e;
            }
        }
    }
}
std::string refEncode(const MsgD &d, const Val &v) {
    auto m = refNew(d);
    refFromVal(d, v, *m);
    return m->SerializeAsString();
}
bool refDecode(const MsgD &d, const std::string &b, Val &v) {
    auto m = refNew(d);
    if (!m->ParseFromString(b)) return false;
    refToVal(d, *m, v);
    return true;
}

// ---------------------------------------------------------------- hand-written encoder
int wireType(Kind k) {
    switch (k) {
    case DOUBLE: case FIXED64: case SFIXED64: return 1;
    case FLOAT: case FIXED32: case SFIXED32: return 5;
    case STRING: case BYTES: case MESSAGE: return 2;
    default: return 0;
    }
}
bool packable(Kind k) { return wireType(k) != 2; }
void putVarint(std::string &o, uint64_t v, int minLen) {
    int n = 0;
    do {
        uint8_t b = v & 0x7f;
        v >>= 7;
        ++n;
        bool more = v != 0 || n < minLen;
        o += char(b | (more ? 0x80 : 0));
        if (!more) break;
    } while (true);
}
void putTag(std::string &o, int n, int wt) { putVarint(o, (uint64_t(uint32_t(n)) << 3) | unsigned(wt)); }
static uint64_t varintBits(Kind k, uint64_t u) {
    switch (k) {
    case SINT32: { int32_t n = int32_t(u); return uint32_t((uint32_t(n) << 1) ^ uint32_t(n >> 31)); }
    case SINT64: { int64_t n = int64_t(u); return (uint64_t(n) << 1) ^ uint64_t(n >> 63); }
    default: return u;
    }
}
static std::string encScalarLen(Kind k, const Val &v, int minLen) {
    std::string o;
    switch (wireType(k)) {
    case 0: putVarint(o, varintBits(k, v.u), minLen); break;
    case 1: for (int i = 0; i < 8; ++i) o += char(v.u >> (8 * i)); break;
    case 5: for (int i = 0; i < 4; ++i) o += char(v.u >> (8 * i)); break;
    default: putVarint(o, v.s.size(), minLen); o += v.s;
    }
    return o;
}
std::string encScalar(Kind k, const Val &v) { return encScalarLen(k, v, 0); }
static std::string lenPref(const std::string &b) { std::string o; putVarint(o, b.size()); return o + b; }

std::string encField(const FieldD &f, const Val &v) {
    std::string o;
    if (f.card == ONE) {
        putTag(o, f.number, wireType(f.kind));
        o += f.kind == MESSAGE ? lenPref(encMsg(*f.msg, v)) : encScalar(f.kind, v);
    } else if (f.card == MANY) {
        if (v.items.empty()) return o;
        if (packable(f.kind)) {
            std::string p;
            for (auto &e : v.items) p += encScalar(f.kind, e);
            putTag(o, f.number, 2);
            o += lenPref(p);
        } else for (auto &e : v.items) {
            putTag(o, f.number, 2);
            o += f.kind == MESSAGE ? lenPref(encMsg(*f.msg, e)) : encScalar(f.kind, e);
        }
    } else {
        for (auto &e : v.map) {
            std::string p;
            Val k; k.u = e.first.u; k.s = e.first.s;
            putTag(p, 1, wireType(f.key)); p += encScalar(f.key, k);
            putTag(p, 2, wireType(f.kind)); p += f.kind == MESSAGE ? lenPref(encMsg(*f.msg, e.second)) : encScalar(f.kind, e.second);
            putTag(o, f.number, 2);
            o += lenPref(p);
        }
    }
    return o;
}
std::string encMsg(const MsgD &d, const Val &v, bool skip) {
    std::string o;
    Val def = defaultVal(d);
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) {
        if (skip && v.items[i] == def.items[i]) continue;
        o += encField(d.fields[i], v.items[i]);
    }
    return o;
}

static int overlong(Src &s, Kind k, const Val &v, const AltOpts &o, int &vari) {
    if (!o.overlong || wireType(k) == 1 || wireType(k) == 5) return 0;
    if (!s.chance(1, 4)) return 0;
    // the encoded 64-bit value may be padded with redundant continuation bytes up to the 10 byte limit
    int base = int(wireType(k) == 2 ? 5 : 10);
    (void)v;
    ++vari;
    return 1 + int(s.draw(uint64_t(base)));
}

// a message occurring twice is the merge of both occurrences: distribute fields
static void splitVal(Src &s, const MsgD &d, const Val &x, Val &a, Val &b) {
    a = b = defaultVal(d);
    for (size_t k = 0; k < x.items.size(); ++k) {
        bool first = s.chance(1, 2);
        const FieldD &sf = d.fields[k];
        if (sf.card == MANY && x.items[k].items.size() > 1 && s.chance(1, 2)) {
            size_t cut = 1 + s.draw(x.items[k].items.size() - 1);
            a.items[k].items.assign(x.items[k].items.begin(), x.items[k].items.begin() + long(cut));
            b.items[k].items.assign(x.items[k].items.begin() + long(cut), x.items[k].items.end());
        } else (first ? a : b).items[k] = x.items[k];
    }
}
static const MsgD &entryDesc() {
    static const MsgD d{"", {{"key", 1, ONE, INT32, INT32, nullptr, nullptr}, {"value", 2, ONE, INT32, INT32, nullptr, nullptr}}};
    return d;
}
// record with a declared number, but a wire type the field cannot have
static std::string genWrongWire(Src &s, int num, int good, bool many) {
    std::vector<int> wts;
    for (int w : {0, 1, 5, 2}) if (w != good && !(many && w == 2)) wts.push_back(w);
    std::string o;
    int w = s.pick(wts);
    putTag(o, num, w);
    if (w == 0) putVarint(o, s.chance(1, 2) ? s.draw(300) : s.draw64());
    else if (w == 2) { std::string b = genBytes(s); putVarint(o, b.size()); o += b; }
    else for (int i = 0; i < (w == 1 ? 8 : 4); ++i) o += char(s.draw(256));
    return o;
}

std::string encAlt(Src &s, const MsgD &d, const Val &v, const AltOpts &o, int &vari) {
    // ordered queues of records per field; queues are then interleaved at random
    std::vector<std::vector<std::string>> q;
    Val def = defaultVal(d);
    GenOpts go;
    auto tagged = [&](int num, int wt, const std::string &body) {
        std::string r;
        putVarint(r, (uint64_t(num) << 3) | unsigned(wt), o.overlong && s.chance(1, 10) ? (++vari, 1 + int(s.draw(5))) : 0);
        return r + body;
    };
    auto scal = [&](Kind k, const Val &x) { return encScalarLen(k, x, overlong(s, k, x, o, vari)); };
    for (size_t i = 0; i < d.fields.size() && i < v.items.size(); ++i) {
        auto &f = d.fields[i];
        const Val &x = v.items[i];
        std::vector<std::string> rs;
        bool isDef = x == def.items[i];
        if (f.card == ONE && f.kind != MESSAGE) {
            if (isDef && !(o.explicitDefaults && s.chance(1, 8))) goto done;
            if (isDef) ++vari;
            if (o.dupScalar && s.chance(1, 6)) { ++vari; rs.push_back(tagged(f.number, wireType(f.kind), scal(f.kind, genScalar(s, f.kind, f.en, go)))); }
            rs.push_back(tagged(f.number, wireType(f.kind), scal(f.kind, x)));
        } else if (f.card == ONE) {
            if (isDef && !(o.explicitDefaults && s.chance(1, 8))) goto done;
            if (isDef) ++vari;
            if (o.splitMessage && !isDef && s.chance(1, 3)) {
                Val a, b;
                splitVal(s, *f.msg, x, a, b);
                ++vari;
                rs.push_back(tagged(f.number, 2, lenPref(encAlt(s, *f.msg, a, o, vari))));
                AltOpts ob = o;
                ob.explicitDefaults = false;   // an explicit default in the later part would override the earlier part
                rs.push_back(tagged(f.number, 2, lenPref(encAlt(s, *f.msg, b, ob, vari))));
            } else rs.push_back(tagged(f.number, 2, lenPref(encAlt(s, *f.msg, x, o, vari))));
        } else if (f.card == MANY) {
            if (packable(f.kind)) {
                size_t k = 0;
                if (x.items.empty() && o.explicitDefaults && s.chance(1, 8)) { ++vari; rs.push_back(tagged(f.number, 2, lenPref(""))); }
                while (k < x.items.size()) {
                    if (o.unpacked && s.chance(1, 6)) { ++vari; rs.push_back(tagged(f.number, wireType(f.kind), scal(f.kind, x.items[k++]))); continue; }
                    size_t n = x.items.size() - k;
                    if (o.splitPacked && n > 1 && s.chance(1, 2)) { ++vari; n = 1 + s.draw(n - 1); }
                    std::string p;
                    for (size_t e = 0; e < n; ++e) p += scal(f.kind, x.items[k + e]);
                    k += n;
                    rs.push_back(tagged(f.number, 2, lenPref(p)));
                    if (o.splitPacked && s.chance(1, 12)) { ++vari; rs.push_back(tagged(f.number, 2, lenPref(""))); }
                }
            } else for (auto &e : x.items) rs.push_back(tagged(f.number, 2, f.kind == MESSAGE ? lenPref(encAlt(s, *f.msg, e, o, vari)) : scal(f.kind, e)));
        } else {
            std::vector<std::pair<Key, Val>> es(x.map.begin(), x.map.end());
            if (o.shuffle) for (size_t k = es.size(); k > 1; --k) std::swap(es[k - 1], es[s.draw(k)]);
            auto entry = [&](const Key &k, const Val &val) {
                Val kv; kv.u = k.u; kv.s = k.s;
                std::string kp = tagged(1, wireType(f.key), scal(f.key, kv));
                std::string vp = tagged(2, wireType(f.kind), f.kind == MESSAGE ? lenPref(encAlt(s, *f.msg, val, o, vari)) : scal(f.kind, val));
                Val vdef;
                bool vIsDef = f.kind == MESSAGE ? !hasNonDefault(*f.msg, val) : val == vdef;
                std::string p;
                if (o.mapEntryForms) switch (s.weighted({6, 2, 1, 1})) {
                case 1: ++vari; p = vp + kp; break;                              // value first
                case 2: if (kv == vdef) { ++vari; p = vp; break; } p = kp + vp; break;   // default key omitted
                case 3: if (vIsDef) { ++vari; p = kp; break; } p = kp + vp; break;       // default value omitted
                default: p = kp + vp;
                } else p = kp + vp;
                if (o.mapEntryForms && s.chance(1, 8)) {                         // key or value occurring twice
                    ++vari;
                    if (s.chance(1, 2)) p = tagged(1, wireType(f.key), scal(f.key, genScalar(s, f.key, nullptr, go))) + (p == vp ? kp + vp : p);
                    else if (f.kind == MESSAGE) {
                        Val a, b;
                        splitVal(s, *f.msg, val, a, b);
                        AltOpts ob = o;
                        ob.explicitDefaults = false;
                        p = kp + tagged(2, 2, lenPref(encAlt(s, *f.msg, a, o, vari))) + tagged(2, 2, lenPref(encAlt(s, *f.msg, b, ob, vari)));
                    } else p = tagged(2, wireType(f.kind), scal(f.kind, genScalar(s, f.kind, f.en, go))) + (p == kp ? kp + vp : p);
                }
                if (o.unknown && s.chance(1, 6)) {
                    ++vari;
                    std::string u = genUnknownField(s, entryDesc());
                    p = s.chance(1, 2) ? u + p : p + u;
                }
                if (o.wrongWire && s.chance(1, 8)) {
                    ++vari;
                    bool key = s.chance(1, 2);
                    std::string u = genWrongWire(s, key ? 1 : 2, wireType(key ? f.key : f.kind), false);
                    p = s.chance(1, 2) ? u + p : p + u;
                }
                return tagged(f.number, 2, lenPref(p));
            };
            for (auto &e : es) {
                if (o.dupMapKey && s.chance(1, 8)) {
                    ++vari;
                    Val other = f.kind == MESSAGE ? genMsg(s, *f.msg, [&] { GenOpts g; g.depth = 0; return g; }()) : genScalar(s, f.kind, f.en, go);
                    rs.push_back(entry(e.first, other));
                }
                rs.push_back(entry(e.first, e.second));
            }
        }
    done:
        if (o.wrongWire && s.chance(1, 6)) {
            ++vari;
            int good = f.card == MAP ? 2 : wireType(f.kind);
            rs.insert(rs.begin() + long(s.draw(rs.size() + 1)), genWrongWire(s, f.number, good, f.card == MANY));
        }
        if (!rs.empty()) q.push_back(std::move(rs));
    }
    std::string out;
    if (!o.shuffle) {
        for (auto &r : q) for (auto &x : r) out += x;
        return out;
    }
    std::vector<size_t> pos(q.size(), 0);
    std::vector<size_t> live;
    for (size_t i = 0; i < q.size(); ++i) live.push_back(i);
    while (!live.empty()) {
        if (o.unknown && s.chance(1, 5)) { ++vari; out += genUnknownField(s, d); }
        size_t w = s.draw(live.size());
        if (w) ++vari;
        size_t i = live[w];
        out += q[i][pos[i]++];
        if (pos[i] == q[i].size()) live.erase(live.begin() + long(w));
    }
    if (o.unknown && s.chance(1, 3)) { ++vari; out += genUnknownField(s, d); }
    return out;
}

std::string genUnknownField(Src &s, const MsgD &d, bool) {
    int num = 0;
    for (int tries = 0; tries < 50; ++tries) {
        switch (s.draw(4)) {
        case 0: num = 1 + int(s.draw(40)); break;
        case 1: num = 1 + int(s.draw(3000)); break;
        case 2: num = 1 + int(s.draw(536870911)); break;
        default: {   // next to / aliasing a known number modulo powers of two
            const FieldD *f = d.fields.empty() ? nullptr : &d.fields[s.draw(d.fields.size())];
            int base = f ? f->number : 1;
            static const int add[] = {1, -1, 16, 32, 128, 256, 2048, 4096, 65536, 1 << 20, 1 << 28};
            num = base + add[s.draw(11)];
            break;
        }
        }
        if (num < 1 || num > 536870911) num = 1;
        if (d.byNumber(num) < 0) break;
        num = 0;
    }
    if (!num) { num = 536870910; while (d.byNumber(num) >= 0) --num; }
    std::string o;
    switch (s.draw(4)) {
    case 0: putTag(o, num, 0); putVarint(o, s.chance(1, 2) ? s.draw(300) : s.draw64(), s.chance(1, 4) ? int(s.draw(11)) : 0); break;
    case 1: putTag(o, num, 1); for (int i = 0; i < 8; ++i) o += char(s.draw(256)); break;
    case 2: putTag(o, num, 5); for (int i = 0; i < 4; ++i) o += char(s.draw(256)); break;
    default: { putTag(o, num, 2); std::string b = genBytes(s); putVarint(o, b.size()); o += b; }
    }
    return o;
}

bool splitFields(const std::string &b, std::vector<std::pair<size_t, size_t>> &out) {
    size_t p = 0;
    auto vi = [&](uint64_t &v) {
        v = 0;
        for (int i = 0; i < 10; ++i) {
            if (p >= b.size()) return false;
            uint8_t c = uint8_t(b[p++]);
            v |= uint64_t(c & 0x7f) << (7 * i);
            if (!(c & 0x80)) return true;
        }
        return false;
    };
    while (p < b.size()) {
        size_t st = p;
        uint64_t t, l;
        if (!vi(t)) return false;
        switch (t & 7) {
        case 0: if (!vi(l)) return false; break;
        case 1: p += 8; break;
        case 5: p += 4; break;
        case 2: if (!vi(l)) return false; if (l > b.size() - p) return false; p += l; break;
        default: return false;
        }
        if (p > b.size()) return false;
        out.push_back({st, p});
    }
    return true;
}
}
