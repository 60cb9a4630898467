// Content of the request/response messages of vprpc.proto, with an encoder and decoder of its own
#pragma once
#include "val.h"
#include <QByteArray>
#include <QString>
#include <string>
using namespace pbt;
// ---------------------------------------------------------------- message content
struct M {
    int32_t n = 0;
    std::string s, b;
    bool operator==(const M &o) const { return n == o.n && s == o.s && b == o.b; }
    bool operator!=(const M &o) const { return !(*this == o); }
};
static inline std::string show(const M &m) {
    return "{" + std::to_string(m.n) + ",\"" + hex(m.s.substr(0, 20)) + "\"" + (m.s.size() > 20 ? "..(" + std::to_string(m.s.size()) + ")" : "") + "," + hex(m.b.substr(0, 12)) + (m.b.size() > 12 ? "..(" + std::to_string(m.b.size()) + ")" : "") + "}";
}
static inline std::string enc(const M &m) {
    std::string o;
    if (m.n) { vt::putTag(o, 1, 0); vt::putVarint(o, uint64_t(int64_t(m.n))); }
    if (!m.s.empty()) { vt::putTag(o, 2, 2); vt::putVarint(o, m.s.size()); o += m.s; }
    if (!m.b.empty()) { vt::putTag(o, 3, 2); vt::putVarint(o, m.b.size()); o += m.b; }
    return o;
}
static inline bool rdVar(const std::string &b, size_t &p, uint64_t &v) {
    v = 0;
    for (int sh = 0; p < b.size() && sh < 70; sh += 7) { uint8_t c = uint8_t(b[p++]); if (sh < 64) v |= uint64_t(c & 127) << sh; if (!(c & 128)) return true; }
    return false;
}
static inline bool dec(const std::string &b, M &m) {       // independent reader of Req/Resp (fields 1..3)
    m = M();
    size_t p = 0;
    while (p < b.size()) {
        uint64_t t, v;
        if (!rdVar(b, p, t) || !rdVar(b, p, v)) return false;
        if (t == 8) m.n = int32_t(v);
        else if ((t == 18 || t == 26) && v <= b.size() - p) { (t == 18 ? m.s : m.b) = b.substr(p, v); p += v; }
        else return false;
    }
    return true;
}
template<class T> static inline M fromQt(const T &r) { M m; m.n = int32_t(r.n()); QByteArray u = r.s().toUtf8(); m.s.assign(u.constData(), size_t(u.size())); m.b.assign(r.b().constData(), size_t(r.b().size())); return m; }
template<class T> static inline void toQt(const M &m, T &r) { r.setN(m.n); r.setS(QString::fromUtf8(m.s.data(), int(m.s.size()))); r.setB(QByteArray(m.b.data(), int(m.b.size()))); }
static inline QByteArray q(const std::string &s) { return QByteArray(s.data(), int(s.size())); }
static inline std::string frame(const std::string &d) {
    std::string o(1, '\0');
    for (int sh = 24; sh >= 0; sh -= 8) o += char((d.size() >> sh) & 255);
    return o + d;
}
static inline std::string genText(Src &s, int max) {
    std::string o;
    int n = int(s.draw(uint64_t(max) + 1));
    for (int i = 0; i < n; ++i) switch (s.draw(5)) {
        case 0: o += "\xc3\xa9"; break;
        case 1: o += "\xe2\x82\xac"; break;
        case 2: o += char(' ' + int(s.draw(95))); break;
        default: o += char('a' + int(s.draw(26)));
        }
    return o;
}
static inline M genM(Src &s, bool big = false) {
    M m;
    if (s.chance(1, 6)) return m;                       // empty message, zero bytes
    m.n = s.chance(1, 3) ? int32_t(s.draw(1ull << 32)) : int32_t(s.draw(200));
    if (s.chance(1, 2)) m.s = genText(s, 8);
    if (s.chance(1, 2)) {
        size_t len;
        switch (s.draw(big ? 8 : 5)) {
        case 0: len = 0; break;
        case 1: case 2: len = s.draw(8); break;
        case 3: len = s.draw(300); break;
        case 4: len = 250 + s.draw(12); break;
        case 5: len = 16370 + s.draw(30); break;
        case 6: len = 65500 + s.draw(80); break;
        default: len = s.draw(200000); break;
        }
        uint8_t c = uint8_t(s.draw(256));
        m.b.resize(len);
        for (size_t i = 0; i < len; ++i) m.b[i] = char(c + (i >> 3) * 7);     // includes zero bytes and things that look like prefixes
    }
    return m;
}

