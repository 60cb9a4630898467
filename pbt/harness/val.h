// Schema descriptors and the neutral value tree used as pivot between the Qt message objects, the
// reference implementation (libprotobuf, DynamicMessage) and the hand-written wire encoder.
#pragma once
#include "pbt.h"
#include <memory>

namespace google { namespace protobuf { class Message; } }

namespace vt {

enum Kind { DOUBLE, FLOAT, INT32, INT64, UINT32, UINT64, SINT32, SINT64, FIXED32, FIXED64, SFIXED32, SFIXED64, BOOL, STRING, BYTES, ENUM, MESSAGE };
enum Card { ONE, MANY, MAP };

struct EnumD { std::string full; std::vector<int32_t> values; };
struct MsgD;
struct FieldD {
    const char *name;      // proto name
    int number;
    Card card;
    Kind kind;             // value kind
    Kind key;              // map key kind
    const MsgD *msg;
    const EnumD *en;
};
struct MsgD {
    const char *full;
    std::vector<FieldD> fields;
    int byNumber(int n) const { for (size_t i = 0; i < fields.size(); ++i) if (fields[i].number == n) return int(i); return -1; }
};

struct Key {
    uint64_t u = 0;
    std::string s;
    bool operator<(const Key &o) const { return u != o.u ? u < o.u : s < o.s; }
    bool operator==(const Key &o) const { return u == o.u && s == o.s; }
};

// ints: sign-extended 64 bit pattern; float/double: IEEE bits in u; string/bytes: s
struct Val {
    uint64_t u = 0;
    std::string s;
    std::vector<Val> items;        // MANY: elements; message: one per field of the descriptor
    std::map<Key, Val> map;
    bool operator==(const Val &o) const { return u == o.u && s == o.s && items == o.items && map == o.map; }
    bool operator!=(const Val &o) const { return !(*this == o); }
};

Val defaultVal(const MsgD &d);
Val defaultField(const FieldD &f);

extern bool hugeLists;   // lists of thousands of elements are generated now and then
struct GenOpts {
    bool nan = true;          // NaN payloads allowed
    bool unknownEnum = true;  // undeclared (open) enum values allowed
    int depth = 3;
    unsigned fill = 50;       // % chance that a field is set at all
};
uint64_t genScalarBits(pbt::Src &s, Kind k, const EnumD *en, const GenOpts &o);
std::string genString(pbt::Src &s);
std::string genBytes(pbt::Src &s);
Val genScalar(pbt::Src &s, Kind k, const EnumD *en, const GenOpts &o);
Val genField(pbt::Src &s, const FieldD &f, const GenOpts &o);
Val genMsg(pbt::Src &s, const MsgD &d, const GenOpts &o);
// collapse representation differences the library documents as equal: -0.0 == 0.0
void normalize(const MsgD &d, Val &v, bool canonNan = false);

bool hasNonDefault(const MsgD &d, const Val &v);
int countSet(const MsgD &d, const Val &v);
std::string show(const MsgD &d, const Val &v);
std::string diff(const MsgD &d, const Val &a, const Val &b, const std::string &path = "");

// reference implementation
void refInit(const std::string &protoDir, const std::vector<std::string> &files);
std::unique_ptr<google::protobuf::Message> refNew(const MsgD &d);
void refFromVal(const MsgD &d, const Val &v, google::protobuf::Message &m);
void refToVal(const MsgD &d, const google::protobuf::Message &m, Val &v);
std::string refEncode(const MsgD &d, const Val &v);
bool refDecode(const MsgD &d, const std::string &bytes, Val &v);

// hand-written encoder
int wireType(Kind k);
bool packable(Kind k);
void putVarint(std::string &o, uint64_t v, int minLen = 0);
void putTag(std::string &o, int number, int wt);
std::string encScalar(Kind k, const Val &v);                  // payload without tag
std::string encField(const FieldD &f, const Val &v);          // canonical
std::string encMsg(const MsgD &d, const Val &v, bool proto3skip = true);
struct AltOpts {
    bool shuffle = true, overlong = true, splitPacked = true, unpacked = true, dupScalar = true, splitMessage = true,
         dupMapKey = true, explicitDefaults = true, mapEntryForms = true, unknown = false,
         wrongWire = false;      // declared field numbers with a wire type that does not fit the field
};
// encodes v in a randomly chosen equivalent form; list element order is preserved
std::string encAlt(pbt::Src &s, const MsgD &d, const Val &v, const AltOpts &o, int &variations);
// a random well-formed unknown field whose number does not occur in d
std::string genUnknownField(pbt::Src &s, const MsgD &d, bool groups = false);
// [start,end) of each top level field record
bool splitFields(const std::string &b, std::vector<std::pair<size_t, size_t>> &out);
}
