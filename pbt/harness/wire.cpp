// Wire-format properties of the message serializer
#include "common.h"
#include <QtProtobufTypes>
#include <QCoreApplication>
#include <QMetaProperty>
#include <cmath>
#include <unistd.h>

using namespace vt;
using namespace pbt;
#define init commonInit

static void note(Ctx &c, const MsgD &d, const Val &v, const std::string &extra = "") {
    c.describe = show(d, v) + extra;
    c.hash = hashStr(c.describe);
    c.nontrivial = countSet(d, v) > 0;
}

static std::string tryDecode(const QtOps &o, QObject *p, const std::string &bytes) {
    try {
        o.des(p, ser(), qba(bytes));
    } catch (const std::exception &e) {
        return e.what();
    }
    return "";
}

// ---------------------------------------------------------------- P01
static void p01(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    Val v = genMsg(c.src, *o.d, pickOpts(c.src, *o.d));
    note(c, *o.d, v);
    Obj x(o);
    o.set(x.p, v);
    std::string b = sstr(o.ser(x.p, ser()));
    Val r;
    if (!refDecode(*o.d, b, r)) fail("reference decoder rejects the encoding " + hex(b) + " of " + show(*o.d, v));
    Val a = v;
    normalize(*o.d, a);
    normalize(*o.d, r);
    if (a != r) fail("reference decoder reads a different value from " + hex(b.substr(0, 400)) + ": " + diff(*o.d, a, r) + " for " + show(*o.d, v));
    // an unchanged object keeps encoding to the same message
    std::string b2 = sstr(o.ser(x.p, ser()));
    if (b != b2) fail("two encodings of the same unchanged object differ: " + hex(b) + " vs " + hex(b2));
    c.evals = 2;
}
static Reg r01({"P01", "message with at least one field different from its default", p01, 30, init, {}});

// ---------------------------------------------------------------- P02
static void p02(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    Val v = genMsg(c.src, *o.d, pickOpts(c.src, *o.d));
    note(c, *o.d, v);
    std::string b = refEncode(*o.d, v);
    Obj x(o);
    std::string e = tryDecode(o, x.p, b);
    if (!e.empty()) fail("valid encoding " + hex(b) + " rejected: " + e);
    Val r = x.get();
    Val a = v;
    normalize(*o.d, a);
    normalize(*o.d, r);
    if (a != r) fail("decoded value differs from the encoded one: " + diff(*o.d, a, r) + " bytes " + hex(b.substr(0, 400)));
}
static Reg r02({"P02", "message with at least one field different from its default", p02, 30, init, {}});

// ---------------------------------------------------------------- P03
static void p03(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    GenOpts g = pickOpts(c.src, *o.d);
    g.fill = 60;
    Val v = genMsg(c.src, *o.d, g);
    AltOpts a;
    int vari = 0;
    std::string b = encAlt(c.src, *o.d, v, a, vari);
    note(c, *o.d, v, " alt=" + hex(b.substr(0, 120)));
    c.nontrivial = vari > 0;
    Val ref;
    Val want = v;
    normalize(*o.d, want, true);
    bool ok = refDecode(*o.d, b, ref);
    normalize(*o.d, ref, true);
    if (!ok || ref != want) { fprintf(stderr, "HARNESS-BUG: generated equivalent encoding is not equivalent for the reference: %d %s\n", ok, diff(*o.d, want, ref).c_str()); _exit(2); }
    Obj x(o);
    std::string e = tryDecode(o, x.p, b);
    if (!e.empty()) fail("conforming encoding " + hex(b) + " rejected: " + e);
    Val r = x.get();
    normalize(*o.d, r, true);
    if (r != want) fail("conforming encoding " + hex(b) + " decoded differently from the reference: (reference vs Qt) " + diff(*o.d, want, r));
}
static Reg r03({"P03", "encoding deviates from the canonical form in at least one place (field order, chunked or unpacked repeated field, repeated scalar/sub-message, overlong varint, map entry form, explicit default)", p03, 30, init, {}});

// ---------------------------------------------------------------- P04
static void p04(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    GenOpts g = pickOpts(c.src, *o.d);
    g.nan = false;
    Obj dst(o);
    if (c.src.chance(2, 3)) o.set(dst.p, genMsg(c.src, *o.d, g));
    int steps = 1 + int(c.src.draw(4));
    std::string log;
    bool anyChange = false;
    Val prev = dst.get();
    for (int i = 0; i < steps; ++i) {
        Val v = genMsg(c.src, *o.d, g);
        Obj sent(o);
        o.set(sent.p, v);
        QByteArray b = o.ser(sent.p, ser());
        log += (i ? " ; " : "") + show(*o.d, v);
        if (prev != v) anyChange = true;
        std::string e = tryDecode(o, dst.p, sstr(b));
        if (!e.empty()) fail("own encoding " + hex(sstr(b)) + " rejected: " + e);
        Val r = dst.get(), a = v;
        normalize(*o.d, r);
        normalize(*o.d, a);
        if (r != a) fail("decode after " + std::to_string(i) + " previous decodes: target does not hold the decoded message: " + diff(*o.d, a, r) + " history " + log);
        if (!o.eq(dst.p, sent.p) || o.ne(dst.p, sent.p) || !o.eq(sent.p, dst.p)) fail("decoded message is not equal to the encoded one: " + log);
        // the source object is untouched by encoding
        Val sv = sent.get();
        normalize(*o.d, sv);
        if (sv != a) fail("encoding modified the message: " + diff(*o.d, a, sv));
        QByteArray b2 = o.ser(dst.p, ser());
        Val via;
        if (!refDecode(*o.d, sstr(b2), via)) fail("re-encoding of a decoded message is invalid: " + hex(sstr(b2)));
        normalize(*o.d, via);
        if (via != a) fail("decode then encode changes the message: " + diff(*o.d, a, via));
        prev = v;
        c.evals += 4;
    }
    c.describe = std::string(o.d->full) + ": " + log;
    c.hash = hashStr(c.describe);
    c.nontrivial = anyChange;
}
static Reg r04({"P04", "history of decodes in which at least one decoded message differs from what the target held before", p04, 30, init, {}});

// ---------------------------------------------------------------- P05
static void p05(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    GenOpts g = pickOpts(c.src, *o.d);
    Val v = genMsg(c.src, *o.d, g);
    AltOpts a;
    a = AltOpts{};
    a.overlong = a.splitPacked = a.unpacked = a.dupScalar = a.splitMessage = a.dupMapKey = a.explicitDefaults = a.mapEntryForms = false;
    a.unknown = true;
    a.wrongWire = c.src.chance(1, 2);
    int vari = 0;
    std::string b = encAlt(c.src, *o.d, v, a, vari);
    if (c.src.chance(1, 3)) b = genUnknownField(c.src, *o.d) + b;
    if (b.empty()) b = genUnknownField(c.src, *o.d);
    note(c, *o.d, v, " with unknown fields: " + hex(b.substr(0, 160)));
    c.nontrivial = vari > 0;
    Val want = v, ref;
    normalize(*o.d, want);
    bool ok = refDecode(*o.d, b, ref);
    normalize(*o.d, ref);
    if (!ok || ref != want) { fprintf(stderr, "HARNESS-BUG: unknown-field encoding %d %s\n", ok, diff(*o.d, want, ref).c_str()); _exit(2); }
    Obj x(o);
    std::string e = tryDecode(o, x.p, b);
    if (!e.empty()) fail("encoding with unknown fields " + hex(b) + " rejected: " + e);
    Val r = x.get();
    normalize(*o.d, r);
    if (r != want) fail("unknown fields change the decoded message: " + diff(*o.d, want, r) + " bytes " + hex(b));
    // newer sender -> older receiver: the very same bytes read by a message type that knows none,
    // or only some, of the fields
    const QtOps &o2 = pickOps(c.src);
    Val ref2;
    if (o2.d->fields.empty()) {
        Obj y(o2);
        e = tryDecode(o2, y.p, b);
        if (!e.empty()) fail(std::string("message type without fields rejects well-formed fields: ") + e + " bytes " + hex(b));
        ++c.evals;
    }
    ++c.evals;
}
static Reg r05({"P05", "encoding contains at least one field number the receiving type does not declare, or reordered fields", p05, 30, init, {}});

// ---------------------------------------------------------------- P06
static std::string mutateBytes(Src &s, std::string b, const MsgD &d) {
    int n = 1 + int(s.draw(4));
    for (int i = 0; i < n; ++i) {
        switch (s.draw(9)) {
        case 0: if (!b.empty()) b[s.draw(b.size())] = char(s.draw(256)); break;
        case 1: if (!b.empty()) b.erase(s.draw(b.size())); break;
        case 2: if (!b.empty()) { size_t p = s.draw(b.size()); b.erase(p, 1 + s.draw(4)); } break;
        case 3: { size_t p = s.draw(b.size() + 1); std::string x; for (uint64_t k = 1 + s.draw(4); k; --k) x += char(s.draw(256)); b.insert(p, x); break; }
        case 4: {   // a record with a hostile length
            std::string x;
            int num = d.fields.empty() ? 1 : d.fields[s.draw(d.fields.size())].number;
            putTag(x, num, 2);
            static const uint64_t lens[] = {1, 5, 127, 128, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0xfffffff0ull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x80000005ull, 0x7ffffff0};
            putVarint(x, lens[s.draw(13)]);
            for (uint64_t k = s.draw(12); k; --k) x += char(s.draw(256));
            b.insert(s.chance(1, 2) ? 0 : b.size(), x);
            break;
        }
        case 5: {   // any wire type for a declared field
            std::string x;
            int num = d.fields.empty() ? 1 : d.fields[s.draw(d.fields.size())].number;
            putTag(x, num, int(s.draw(8)));
            for (uint64_t k = s.draw(12); k; --k) x += char(s.chance(1, 2) ? s.draw(16) : s.draw(256));
            b.insert(s.chance(1, 2) ? 0 : b.size(), x);
            break;
        }
        case 6: {   // endless varint
            std::string x;
            int num = d.fields.empty() ? 1 : d.fields[s.draw(d.fields.size())].number;
            putTag(x, num, s.chance(1, 2) ? 0 : 2);
            for (uint64_t k = 5 + s.draw(20); k; --k) x += char(0x80 | s.draw(128));
            if (s.chance(1, 2)) x += char(s.draw(128));
            b += x;
            break;
        }
        case 7: {   // field number 0 / out of range / group tags
            std::string x;
            static const uint64_t tags[] = {0, 1, 2, 5, 3, 4, 11, 12, 0xffffffffull, 0x100000000ull, 0x1fffffffffull};
            putVarint(x, tags[s.draw(11)]);
            b.insert(s.draw(b.size() + 1), x);
            break;
        }
        default: if (!b.empty()) { size_t p = s.draw(b.size()); b[p] = char(b[p] ^ (1 << s.draw(8))); } break;
        }
    }
    return b;
}
static void p06(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    GenOpts g = pickOpts(c.src, *o.d);
    std::string b;
    if (c.src.chance(1, 5)) { for (uint64_t n = c.src.draw(40); n; --n) b += char(c.src.chance(1, 3) ? c.src.draw(32) : c.src.draw(256)); }
    else {
        b = encMsg(*o.d, genMsg(c.src, *o.d, g));
        if (b.size() > 4000) b.resize(4000);
        b = mutateBytes(c.src, b, *o.d);
    }
    c.describe = std::string(o.d->full) + " <- " + hex(b.substr(0, 200));
    c.hash = hashStr(b, hashStr(o.d->full));
    Val ref;
    bool refOk = refDecode(*o.d, b, ref);
    c.nontrivial = !refOk;
    c.label(refOk ? "reference-accepts" : "reference-rejects");
    // exact-size heap copy: any read past the end is caught by AddressSanitizer
    std::unique_ptr<char[]> buf(new char[b.size() ? b.size() : 1]);
    memcpy(buf.get(), b.data(), b.size());
    Obj x(o);
    if (c.src.chance(1, 2)) o.set(x.p, genMsg(c.src, *o.d, g));
    bool threw = false;
    try {
        QByteArray raw = QByteArray::fromRawData(buf.get(), int(b.size()));
        o.des(x.p, ser(), raw);
    } catch (const std::exception &) {
        threw = true;
    }   // anything that is not a std::exception escapes and is reported by the runner
    c.label(threw ? "qt-rejects" : "qt-accepts");
    // the object must stay usable
    Val after = x.get();
    QByteArray again = o.ser(x.p, ser());
    Val fresh = genMsg(c.src, *o.d, [] { GenOpts q; q.nan = false; q.depth = 1; q.fill = 30; return q; }());
    std::string fb = encMsg(*o.d, fresh);
    std::string e = tryDecode(o, x.p, fb);
    if (!e.empty()) fail("after hostile input " + hex(b) + " the same object rejects a valid message " + hex(fb) + ": " + e);
    Val r = x.get();
    normalize(*o.d, r);
    normalize(*o.d, fresh);
    if (r != fresh) fail("after hostile input " + hex(b) + " the same object decodes a valid message wrongly: " + diff(*o.d, fresh, r));
    c.evals = 3;
}
static Reg r06({"P06", "byte string the reference decoder rejects as malformed", p06, 10, init, {}});

// ---------------------------------------------------------------- P07
static bool rejects(const QtOps &o, const std::string &b, Val *out = nullptr) {
    std::unique_ptr<char[]> buf(new char[b.size() ? b.size() : 1]);
    memcpy(buf.get(), b.data(), b.size());
    Obj x(o);
    try {
        o.des(x.p, ser(), QByteArray::fromRawData(buf.get(), int(b.size())));
    } catch (const std::exception &) {
        return true;
    }
    if (out) *out = x.get();
    return false;
}
static void p07(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    GenOpts g = pickOpts(c.src, *o.d);
    Val v = genMsg(c.src, *o.d, g);
    std::string b = encMsg(*o.d, v);
    note(c, *o.d, v);
    if (b.size() > 60000) throw Discard{};
    std::vector<std::pair<size_t, size_t>> rec;
    splitFields(b, rec);
    std::set<size_t> bound{0};
    for (auto &r : rec) bound.insert(r.second);
    std::vector<size_t> cuts;
    if (b.size() <= 48) for (size_t i = 0; i < b.size(); ++i) cuts.push_back(i);
    else for (int i = 0; i < 40; ++i) {
        if (c.src.chance(1, 2)) { auto &r = rec[c.src.draw(rec.size())]; size_t k = r.second - 1 - c.src.draw(std::min<size_t>(4, r.second - r.first)); cuts.push_back(k); }
        else cuts.push_back(c.src.draw(b.size()));
    }
    for (size_t k : cuts) {
        std::string p = b.substr(0, k);
        Val got, want;
        bool rej = rejects(o, p, &got);
        ++c.evals;
        if (bound.count(k)) {
            if (rej) fail("message cut at a field boundary (a valid shorter message) is rejected: " + hex(p));
            if (!refDecode(*o.d, p, want)) continue;
            normalize(*o.d, got, true);
            normalize(*o.d, want, true);
            if (got != want) fail("message cut at a field boundary decodes wrongly: " + hex(p) + ": " + diff(*o.d, want, got));
            c.label("cut-at-boundary");
        } else {
            if (!rej) fail("message truncated inside a field after " + std::to_string(k) + " of " + std::to_string(b.size()) + " bytes is accepted: " + hex(p) + " full " + hex(b.substr(0, 300)));
            c.label("cut-inside-field");
        }
    }
    // truncation below the top level: cut a length-delimited payload and re-wrap it consistently
    for (size_t i = 0; i < o.d->fields.size(); ++i) {
        auto &f = o.d->fields[i];
        const Val &x = v.items[i];
        std::string inner;
        if (f.kind == MESSAGE && f.card == ONE) inner = encMsg(*f.msg, x);
        else if (f.kind == MESSAGE && f.card == MANY && !x.items.empty()) inner = encMsg(*f.msg, x.items.back());
        else if (f.card == MAP && !x.map.empty()) {
            Val one; one.map.insert(*x.map.begin());
            std::string e = encField(f, one);
            std::vector<std::pair<size_t, size_t>> rr;
            size_t p = 0;
            while (uint8_t(e[p]) & 0x80) ++p;
            ++p;
            while (uint8_t(e[p]) & 0x80) ++p;
            ++p;
            inner = e.substr(p);
        } else if (f.card == MANY && packable(f.kind) && wireType(f.kind) != 0 && !x.items.empty()) {
            for (auto &e : x.items) inner += encScalar(f.kind, e);
            size_t el = wireType(f.kind) == 1 ? 8 : 4;
            size_t cut = inner.size() - 1 - c.src.draw(el - 1);
            std::string r;
            putTag(r, f.number, 2);
            putVarint(r, cut);
            r += inner.substr(0, cut);
            r += encMsg(*o.d, v);         // more data follows, so an unchecked read would run into it
            ++c.evals;
            if (!rejects(o, r)) fail(std::string("packed field ") + f.name + " with a partial element is accepted: " + hex(r.substr(0, 300)));
            c.label("partial-packed-element");
            continue;
        } else continue;
        if (inner.size() < 2) continue;
        std::vector<std::pair<size_t, size_t>> rr;
        if (!splitFields(inner, rr)) continue;
        size_t cut = c.src.draw(inner.size() - 1) + 1;
        bool atB = false;
        for (auto &q : rr) if (q.second == cut || cut == 0) atB = true;
        if (atB) continue;
        std::string r;
        putTag(r, f.number, 2);
        putVarint(r, cut);
        r += inner.substr(0, cut);
        if (c.src.chance(1, 2)) r += encMsg(*o.d, v);
        ++c.evals;
        if (!rejects(o, r)) fail(std::string("nested payload of ") + f.name + " truncated inside a field is accepted: " + hex(r.substr(0, 300)));
        c.label("nested-truncation");
    }
    c.nontrivial = b.size() > 1;
}
static Reg r07({"P07", "encoding of at least two bytes, so that at least one cut falls inside a field", p07, 30, init, {}});
