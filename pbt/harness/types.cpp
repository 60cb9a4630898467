// Qt value types, well-known types and numeric wrapper types
#include <unistd.h>
#include "common.h"
#include <QColor>
#include <QDate>
#include <QDateTime>
#include <QImage>
#include <QMatrix4x4>
#include <QPolygonF>
#include <QQuaternion>
#include <QTransform>
#include <QUrl>
#include <QUuid>
#include <QVector2D>
#include <QVector3D>
#include <QVector4D>
#include <QtProtobufQtTypes>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/message.h>
#include "vpqt.qpb.h"
#include "google/protobuf/timestamp.qpb.h"
#include "google/protobuf/struct.qpb.h"
#include <cmath>
#include <limits>
using namespace vt;
using namespace pbt;
namespace gp = google::protobuf;
namespace vt { void reg_wkt(std::vector<QtOps> &); }

static std::vector<QtOps> &wkt() { static std::vector<QtOps> o; return o; }
static void init() {
    if (!wkt().empty()) return;
    setenv("TZ", "UTC", 1);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    QtProtobuf::qRegisterProtobufTypes();
    QtProtobuf::qRegisterProtobufQtTypes();
    refInit(VP_PROTO_DIR, {"vpext.proto", "vpqt.proto", "google/protobuf/any.proto", "google/protobuf/duration.proto", "google/protobuf/empty.proto", "google/protobuf/field_mask.proto", "google/protobuf/source_context.proto",
                           "google/protobuf/struct.proto", "google/protobuf/timestamp.proto", "google/protobuf/wrappers.proto", "google/protobuf/type.proto", "google/protobuf/api.proto"});
    reg_wkt(wkt());
}

// ---------------------------------------------------------------- flat view of a proto message: path -> value
struct Flat {
    std::vector<std::pair<std::string, std::string>> kv;      // numbers as canonical text of their bits
    void i(const std::string &p, int64_t v) { kv.push_back({p, "i" + std::to_string(v)}); }
    void d(const std::string &p, double v) { uint64_t b; memcpy(&b, &v, 8); kv.push_back({p, "d" + std::to_string(b)}); }
    void s(const std::string &p, const std::string &v) { kv.push_back({p, "s" + v}); }
};
static void toMsg(gp::Message &m, const std::string &path, const std::string &v) {
    auto *r = m.GetReflection();
    auto dot = path.find('.');
    std::string head = path.substr(0, dot);
    if (dot != std::string::npos) {
        auto br = head.find('[');
        if (br != std::string::npos) {
            auto *f = m.GetDescriptor()->FindFieldByName(head.substr(0, br));
            int idx = atoi(head.c_str() + br + 1);
            while (r->FieldSize(m, f) <= idx) r->AddMessage(&m, f);
            return toMsg(*r->MutableRepeatedMessage(&m, f, idx), path.substr(dot + 1), v);
        }
        return toMsg(*r->MutableMessage(&m, m.GetDescriptor()->FindFieldByName(head)), path.substr(dot + 1), v);
    }
    auto *f = m.GetDescriptor()->FindFieldByName(head);
    std::string b = v.substr(1);
    double dv = 0;
    if (v[0] == 'd') { uint64_t u = strtoull(b.c_str(), nullptr, 10); memcpy(&dv, &u, 8); }
    switch (f->cpp_type()) {
    case gp::FieldDescriptor::CPPTYPE_INT32: r->SetInt32(&m, f, int32_t(atoll(b.c_str()))); break;
    case gp::FieldDescriptor::CPPTYPE_UINT32: r->SetUInt32(&m, f, uint32_t(atoll(b.c_str()))); break;
    case gp::FieldDescriptor::CPPTYPE_DOUBLE: r->SetDouble(&m, f, dv); break;
    case gp::FieldDescriptor::CPPTYPE_FLOAT: r->SetFloat(&m, f, float(dv)); break;
    case gp::FieldDescriptor::CPPTYPE_STRING: r->SetString(&m, f, b); break;
    default: fprintf(stderr, "HARNESS-BUG: field type\n"); _exit(2);
    }
}
static std::string fromMsg(const gp::Message &m, const std::string &path) {
    auto *r = m.GetReflection();
    auto dot = path.find('.');
    std::string head = path.substr(0, dot);
    if (dot != std::string::npos) {
        auto br = head.find('[');
        if (br != std::string::npos) {
            auto *f = m.GetDescriptor()->FindFieldByName(head.substr(0, br));
            int idx = atoi(head.c_str() + br + 1);
            if (r->FieldSize(m, f) <= idx) return "<missing>";
            return fromMsg(r->GetRepeatedMessage(m, f, idx), path.substr(dot + 1));
        }
        return fromMsg(r->GetMessage(m, m.GetDescriptor()->FindFieldByName(head)), path.substr(dot + 1));
    }
    auto *f = m.GetDescriptor()->FindFieldByName(head);
    Flat o;
    switch (f->cpp_type()) {
    case gp::FieldDescriptor::CPPTYPE_INT32: o.i("", r->GetInt32(m, f)); break;
    case gp::FieldDescriptor::CPPTYPE_UINT32: o.i("", r->GetUInt32(m, f)); break;
    case gp::FieldDescriptor::CPPTYPE_DOUBLE: o.d("", r->GetDouble(m, f)); break;
    case gp::FieldDescriptor::CPPTYPE_FLOAT: o.d("", double(r->GetFloat(m, f))); break;
    case gp::FieldDescriptor::CPPTYPE_STRING: o.s("", r->GetString(m, f)); break;
    default: return "?";
    }
    return o.kv[0].second;
}

// ---------------------------------------------------------------- generators
static int gi(Src &s, int lim = 2000000000) {
    switch (s.draw(4)) {
    case 0: return int(s.draw(300)) - 100;
    case 1: { int b = int(s.draw(30)); return (s.chance(1, 2) ? -1 : 1) * std::min<int64_t>(lim, (int64_t(1) << b) + int(s.draw(3)) - 1); }
    default: return int(int64_t(s.draw(uint64_t(lim) * 2 + 1)) - lim);
    }
}
static double gd(Src &s) {
    GenOpts o; o.nan = false;
    uint64_t u = genScalarBits(s, DOUBLE, nullptr, o);
    double d; memcpy(&d, &u, 8);
    return d;
}
static float gf(Src &s) {
    GenOpts o; o.nan = false;
    uint32_t u = uint32_t(genScalarBits(s, FLOAT, nullptr, o));
    float d; memcpy(&d, &u, 4);
    return d;
}
static QString gstr(Src &s, int max) {
    QString r;
    int n = int(s.draw(uint64_t(max) + 1));
    for (int i = 0; i < n; ++i) switch (s.draw(6)) {
        case 0: case 1: r += QChar('a' + int(s.draw(26))); break;
        case 2: { static const QString sp("-._~!$&'()*+,;=:@/?#[]% \"<>\\^`{|}"); r += sp.at(int(s.draw(uint64_t(sp.size())))); break; }
        case 3: r += QChar('0' + int(s.draw(10))); break;
        case 4: r += QChar(0xa1 + int(s.draw(0x500))); break;
        default: { uint32_t c = 0x10000 + uint32_t(s.draw(0x8000)); r += QChar(QChar::highSurrogate(c)); r += QChar(QChar::lowSurrogate(c)); }
        }
    return r;
}

template<class Q> struct T;
#define TYPE(Q) template<> struct T<Q>
TYPE(QUrl) {
    static QUrl gen(Src &s) {
        QUrl u;
        if (s.chance(1, 3)) {
            u = QUrl(gstr(s, 20));
        } else {
            static const char *sch[] = {"http", "https", "file", "ftp", "qrc", "mailto", "x-vp"};
            int k = int(s.draw(7));
            u.setScheme(sch[k]);
            if (k < 4 || k == 6) {
                if (s.chance(1, 4)) { u.setUserName(gstr(s, 6)); if (s.chance(1, 2)) u.setPassword(gstr(s, 6)); }
                if (k != 2) u.setHost(s.chance(1, 5) ? QString::fromUtf8("b\xc3\xbc" "cher.example") : s.chance(1, 5) ? "::1" : "h" + QString::number(s.draw(99)) + ".example.org");
                if (k != 2 && s.chance(1, 3)) u.setPort(int(s.draw(65536)));
                u.setPath("/" + gstr(s, 12));
            } else u.setPath((k == 4 ? "/" : "") + gstr(s, 10));
            if (s.chance(1, 3)) u.setQuery(gstr(s, 10));
            if (s.chance(1, 4)) u.setFragment(gstr(s, 8));
        }
        if (!u.isValid()) return QUrl("http://example.org/" + QString::number(s.draw(1000)));
        return u;
    }
    static void flat(const QUrl &, Flat &, const std::string &) {}       // text form not prescribed; checked by parsing it
    static std::string show(const QUrl &u) { return u.toEncoded().toStdString(); }
    static bool same(const QUrl &a, const QUrl &b) { return a == b || a.toEncoded() == b.toEncoded(); }     // "absent" and "empty" parts of a URL look alike
};
TYPE(QChar) {
    static QChar gen(Src &s) { return QChar(ushort(s.draw(65536))); }
    static void flat(const QChar &c, Flat &f, const std::string &p) { f.s(p + "character", std::string({char(c.unicode() >> 8), char(c.unicode() & 255)})); }
    static std::string show(const QChar &c) { return std::to_string(c.unicode()); }
    static bool same(const QChar &a, const QChar &b) { return a == b; }
};
TYPE(QUuid) {
    static QUuid gen(Src &s) { QByteArray b; for (int i = 0; i < 16; ++i) b += char(s.draw(256)); return QUuid::fromRfc4122(b); }
    static void flat(const QUuid &u, Flat &f, const std::string &p) { f.s(p + "uuid", "{" + u.toString(QUuid::WithoutBraces).toStdString() + "}"); }
    static std::string show(const QUuid &u) { return u.toString().toStdString(); }
    static bool same(const QUuid &a, const QUuid &b) { return a == b; }
};
TYPE(QTime) {
    static QTime gen(Src &s) { return QTime::fromMSecsSinceStartOfDay(int(s.draw(86400000))); }
    static void flat(const QTime &t, Flat &f, const std::string &p) { f.i(p + "msec", ((t.hour() * 60 + t.minute()) * 60 + t.second()) * 1000 + t.msec()); }
    static std::string show(const QTime &t) { return t.toString("HH:mm:ss.zzz").toStdString(); }
    static bool same(const QTime &a, const QTime &b) { return a == b; }
};
TYPE(QDate) {
    static QDate gen(Src &s) {
        if (s.chance(1, 4)) return QDate::fromJulianDay(int64_t(s.draw(4000000)) - 1000000);
        return QDate(1900, 1, 1).addDays(int(s.draw(80000)));
    }
    static void flat(const QDate &d, Flat &f, const std::string &p) { f.i(p + "year", d.year()); f.i(p + "month", d.month()); f.i(p + "day", d.day()); }
    static std::string show(const QDate &d) { return std::to_string(d.year()) + "-" + std::to_string(d.month()) + "-" + std::to_string(d.day()); }
    static bool same(const QDate &a, const QDate &b) { return a == b; }
};
TYPE(QDateTime) {
    static QDateTime gen(Src &s) { QDate d = T<QDate>::gen(s); return QDateTime(d, T<QTime>::gen(s)); }
    static void flat(const QDateTime &d, Flat &f, const std::string &p) { T<QDate>::flat(d.date(), f, p + "date."); T<QTime>::flat(d.time(), f, p + "time."); }
    static std::string show(const QDateTime &d) { return T<QDate>::show(d.date()) + " " + T<QTime>::show(d.time()); }
    static bool same(const QDateTime &a, const QDateTime &b) { return a == b && a.date() == b.date() && a.time() == b.time(); }
};
static bool sd(double a, double b) { return a == b; }      // no NaN generated; 0 and -0 count as equal
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
#define PAIR(Q, G, a, b, FN, SAME) TYPE(Q) { \
    static Q gen(Src &s) { auto x = G(s); auto y = G(s); return Q(x, y); } \
    static void flat(const Q &v, Flat &f, const std::string &p) { f.FN(p + #a, v.a()); f.FN(p + #b, v.b()); } \
    static std::string show(const Q &v) { return num(v.a()) + "," + num(v.b()); } \
    static bool same(const Q &x, const Q &y) { return SAME(x.a(), y.a()) && SAME(x.b(), y.b()); } };
static int gi0(Src &s) { return gi(s, 2147483647); }
PAIR(QSize, gi0, width, height, i, sd)
PAIR(QPoint, gi0, x, y, i, sd)
PAIR(QSizeF, gd, width, height, d, sd)
PAIR(QPointF, gd, x, y, d, sd)
TYPE(QRect) {
    static QRect gen(Src &s) { int x = gi(s, 500000000), y = gi(s, 500000000); return QRect(x, y, gi(s, 500000000), gi(s, 500000000)); }
    static void flat(const QRect &r, Flat &f, const std::string &p) { f.i(p + "position.x", r.x()); f.i(p + "position.y", r.y()); f.i(p + "size.width", r.width()); f.i(p + "size.height", r.height()); }
    static std::string show(const QRect &r) { return num(r.x()) + "," + num(r.y()) + " " + num(r.width()) + "x" + num(r.height()); }
    static bool same(const QRect &a, const QRect &b) { return a == b; }
};
TYPE(QRectF) {
    static QRectF gen(Src &s) { double a = gd(s), b = gd(s), c = gd(s), d = gd(s); return QRectF(a, b, c, d); }
    static void flat(const QRectF &r, Flat &f, const std::string &p) { f.d(p + "position.x", r.x()); f.d(p + "position.y", r.y()); f.d(p + "size.width", r.width()); f.d(p + "size.height", r.height()); }
    static std::string show(const QRectF &r) { return num(r.x()) + "," + num(r.y()) + " " + num(r.width()) + "x" + num(r.height()); }
    static bool same(const QRectF &a, const QRectF &b) { return sd(a.x(), b.x()) && sd(a.y(), b.y()) && sd(a.width(), b.width()) && sd(a.height(), b.height()); }
};
#define POLY(Q, P) TYPE(Q) { \
    static Q gen(Src &s) { Q r; int n = int(s.draw(s.chance(1, 6) ? 60 : 6)); for (int i = 0; i < n; ++i) r.append(T<P>::gen(s)); return r; } \
    static void flat(const Q &v, Flat &f, const std::string &p) { for (int i = 0; i < v.size(); ++i) T<P>::flat(v[i], f, p + "points[" + std::to_string(i) + "]."); } \
    static std::string show(const Q &v) { std::string o; for (auto &x : v) { o += "(" + T<P>::show(x) + ")"; if (o.size() > 200) break; } return o + "#" + std::to_string(v.size()); } \
    static bool same(const Q &a, const Q &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!T<P>::same(a[i], b[i])) return false; return true; } };
POLY(QPolygon, QPoint)
POLY(QPolygonF, QPointF)
TYPE(QColor) {
    static QColor gen(Src &s) { return QColor::fromRgba(QRgb(s.draw(1ull << 32))); }
    static void flat(const QColor &c, Flat &f, const std::string &p) { f.i(p + "rgba", (int64_t(c.alpha()) << 24) | (c.red() << 16) | (c.green() << 8) | c.blue()); }
    static std::string show(const QColor &c) { return c.name(QColor::HexArgb).toStdString(); }
    static bool same(const QColor &a, const QColor &b) { return a == b; }
};
TYPE(QMatrix4x4) {
    static QMatrix4x4 gen(Src &s) { QMatrix4x4 m; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) if (s.chance(3, 4)) m(r, c) = gf(s); return m; }
    static void flat(const QMatrix4x4 &m, Flat &f, const std::string &p) { for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) f.d(p + "m" + std::to_string(r + 1) + std::to_string(c + 1), double(m(r, c))); }
    static std::string show(const QMatrix4x4 &m) { std::string o; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) o += num(double(m(r, c))) + " "; return o; }
    static bool same(const QMatrix4x4 &a, const QMatrix4x4 &b) { for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) if (!sd(double(a(r, c)), double(b(r, c)))) return false; return true; }
};
#define VEC(Q, N) TYPE(Q) { \
    static Q gen(Src &s) { Q v; for (int i = 0; i < N; ++i) v[i] = gf(s); return v; } \
    static void flat(const Q &v, Flat &f, const std::string &p) { for (int i = 0; i < N; ++i) f.d(p + std::string(1, "xyzw"[i]) + "pos", double(v[i])); } \
    static std::string show(const Q &v) { std::string o; for (int i = 0; i < N; ++i) o += num(double(v[i])) + " "; return o; } \
    static bool same(const Q &a, const Q &b) { for (int i = 0; i < N; ++i) if (!sd(double(a[i]), double(b[i]))) return false; return true; } };
VEC(QVector2D, 2)
VEC(QVector3D, 3)
VEC(QVector4D, 4)
TYPE(QTransform) {
    static void all(const QTransform &t, double *m) { double v[] = {t.m11(), t.m12(), t.m13(), t.m21(), t.m22(), t.m23(), t.m31(), t.m32(), t.m33()}; memcpy(m, v, sizeof v); }
    static QTransform gen(Src &s) { double m[9]; all(QTransform(), m); for (double &x : m) if (s.chance(3, 4)) x = gd(s); return QTransform(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); }
    static void flat(const QTransform &t, Flat &f, const std::string &p) { double m[9]; all(t, m); for (int i = 0; i < 9; ++i) f.d(p + "m" + std::to_string(i / 3 + 1) + std::to_string(i % 3 + 1), m[i]); }
    static std::string show(const QTransform &t) { double m[9]; all(t, m); std::string o; for (double x : m) o += num(x) + " "; return o; }
    static bool same(const QTransform &a, const QTransform &b) { double m[9], n[9]; all(a, m); all(b, n); return memcmp(m, n, sizeof m) == 0; }
};
TYPE(QQuaternion) {
    static QQuaternion gen(Src &s) { float a = gf(s), b = gf(s), c = gf(s), d = gf(s); return QQuaternion(a, b, c, d); }
    static void flat(const QQuaternion &q, Flat &f, const std::string &p) { f.d(p + "scalar", double(q.scalar())); f.d(p + "vector.xpos", double(q.x())); f.d(p + "vector.ypos", double(q.y())); f.d(p + "vector.zpos", double(q.z())); }
    static std::string show(const QQuaternion &q) { return num(double(q.scalar())) + " " + num(double(q.x())) + " " + num(double(q.y())) + " " + num(double(q.z())); }
    static bool same(const QQuaternion &a, const QQuaternion &b) { return sd(double(a.scalar()), double(b.scalar())) && T<QVector3D>::same(a.vector(), b.vector()); }
};
TYPE(QImage) {
    static QImage gen(Src &s) {
        static const QImage::Format fm[] = {QImage::Format_RGB32, QImage::Format_ARGB32, QImage::Format_RGB888, QImage::Format_RGBA8888, QImage::Format_Grayscale8, QImage::Format_Mono, QImage::Format_Indexed8};
        int w = 1 + int(s.draw(12)), h = 1 + int(s.draw(12));
        QImage::Format f = fm[s.draw(7)];
        QImage im(w, h, f);
        if (f == QImage::Format_Mono || f == QImage::Format_Indexed8) {
            int n = f == QImage::Format_Mono ? 2 : 1 + int(s.draw(40));
            QVector<QRgb> t;
            for (int i = 0; i < n; ++i) t << (f == QImage::Format_Mono ? (i ? 0xffffffffu : 0xff000000u) : QRgb(s.draw(1u << 24)) | 0xff000000u);
            im.setColorTable(t);
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.setPixel(x, y, uint(s.draw(uint64_t(n))));
            return im;
        }
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.setPixelColor(x, y, QColor::fromRgba(QRgb(s.draw(1ull << 32))));
        return im;
    }
    static void flat(const QImage &, Flat &, const std::string &) {}
    static std::string show(const QImage &i) { return std::to_string(i.width()) + "x" + std::to_string(i.height()) + " format " + std::to_string(int(i.format())) + " " + hex(std::to_string(qHash(QByteArray(reinterpret_cast<const char *>(i.constBits()), i.bytesPerLine())))); }
    static bool same(const QImage &a, const QImage &b) {
        if (a.size() != b.size()) return false;
        for (int y = 0; y < a.height(); ++y) for (int x = 0; x < a.width(); ++x) {
            QRgb p = a.pixel(x, y), q = b.pixel(x, y);
            if (p != q) return false;
        }
        return true;
    }
};

// Qt compares floating point values approximately, so a target that holds (approximately) the same value already may keep it
template<class Q> static bool equalQ(const Q &got, const Q &want, const Q &prev = Q()) { return T<Q>::same(got, want) || (want == prev && T<Q>::same(got, prev)) || (want == Q() && T<Q>::same(got, Q())); }

static const gp::Message *proto(const char *name) {
    MsgD d{name, {}};
    static std::map<std::string, std::unique_ptr<gp::Message>> cache;
    auto &c = cache[name];
    if (!c) c = refNew(d);
    return c.get();
}

template<class M, class Q> static void one(Ctx &c, const char *mname, const char *qname) {
    Src &s = c.src;
    QtProtobuf::QProtobufSerializer *se = ser();
    Q v = T<Q>::gen(s);
    int before = s.chance(1, 2) ? gi0(s) : 0;
    std::string after = s.chance(1, 2) ? genString(s) : "";
    QString qafter;
    { Val x; x.s = after; writeQt(x, qafter); }
    c.describe = std::string(qname) + " " + T<Q>::show(v);
    c.hash = hashStr(c.describe);
    c.nontrivial = !(v == Q());
    c.label(qname);
    M m;
    if (s.chance(1, 2)) {                       // previous content
        m.setV(T<Q>::gen(s));
        if (s.chance(1, 2)) m.serialize(se);
        if (m.v() == v) c.nontrivial = false;
    }
    if (s.chance(1, 2)) m.setV(v);
    else if (!m.setProperty("v", QVariant::fromValue<Q>(v))) fail(std::string(qname) + " property not writable");
    Q stored = m.v();
    if (!T<Q>::same(stored, v) && !(stored == v)) fail(std::string(qname) + ": setter stored " + T<Q>::show(stored) + " instead of " + T<Q>::show(v));
    v = stored;
    m.setBefore(before);
    m.setAfter(qafter);
    std::string b = sstr(m.serialize(se));
    // the wire form: what another implementation reads
    std::unique_ptr<gp::Message> r(proto(mname)->New());
    if (!r->ParseFromString(b)) fail(std::string(qname) + ": reference cannot parse " + hex(b));
    auto *rf = r->GetReflection();
    auto *rd = r->GetDescriptor();
    if (rf->GetInt32(*r, rd->FindFieldByName("before")) != before || rf->GetString(*r, rd->FindFieldByName("after")) != after) fail(std::string(qname) + ": neighbouring fields damaged");
    auto *fv = rd->FindFieldByName("v");
    Flat fl;
    T<Q>::flat(v, fl, "");
    for (auto &e : fl.kv) {
        std::string got = fromMsg(rf->GetMessage(*r, fv), e.first);
        if (got != e.second) fail(std::string(qname) + " " + T<Q>::show(v) + ": field " + e.first + " is sent as " + got + " instead of " + e.second);
    }
    if (rf->GetMessage(*r, fv).GetDescriptor()->FindFieldByName("points") && rf->GetMessage(*r, fv).GetReflection()->FieldSize(rf->GetMessage(*r, fv), rf->GetMessage(*r, fv).GetDescriptor()->FindFieldByName("points")) * (std::is_same<Q, QPolygon>::value || std::is_same<Q, QPolygonF>::value ? 2 : 0) != int(fl.kv.size()))
        fail(std::string(qname) + ": wrong number of points sent");
    // round trip, into an object that may hold something else
    M back;
    if (s.chance(1, 2)) back.setV(T<Q>::gen(s));
    Q prev = back.v();
    back.deserialize(se, qba(b));
    if (!equalQ(back.v(), v, prev)) fail(std::string(qname) + ": " + T<Q>::show(v) + " comes back as " + T<Q>::show(back.v()) + " (previous value " + T<Q>::show(prev) + ") bytes " + hex(b.substr(0, 200)));
    if (int(back.before()) != before || back.after() != qafter) fail(std::string(qname) + ": neighbouring fields changed by the round trip");
    // and from the reference encoding
    if (!fl.kv.empty() || std::is_same<Q, QPolygon>::value || std::is_same<Q, QPolygonF>::value) {
        std::unique_ptr<gp::Message> w(proto(mname)->New());
        gp::Message *sub = w->GetReflection()->MutableMessage(w.get(), fv);
        for (auto &e : fl.kv) toMsg(*sub, e.first, e.second);
        std::string wb;
        w->SerializeToString(&wb);
        M x;
        x.deserialize(se, qba(wb));
        if (!equalQ(x.v(), v)) fail(std::string(qname) + ": reference encoding of " + T<Q>::show(v) + " is read as " + T<Q>::show(x.v()) + " bytes " + hex(wb.substr(0, 200)));
        ++c.evals;
    }
    M copy(m);
    if (!equalQ(copy.v(), v)) fail(std::string(qname) + ": copy of the message holds another value");
    c.evals += 3;
}
#define ONE_CASE(Q) [](Ctx &c) { one<vp::qt::M##Q, Q>(c, "vp.qt.M" #Q, #Q); }
static void p15(Ctx &c) {
    static const std::vector<void (*)(Ctx &)> f = {ONE_CASE(QUrl), ONE_CASE(QChar), ONE_CASE(QUuid), ONE_CASE(QTime), ONE_CASE(QDate), ONE_CASE(QDateTime), ONE_CASE(QSize), ONE_CASE(QSizeF), ONE_CASE(QPoint), ONE_CASE(QPointF),
                                                   ONE_CASE(QRect), ONE_CASE(QRectF), ONE_CASE(QPolygon), ONE_CASE(QPolygonF)};
    size_t n = c.src.draw(f.size() + 1);
    if (n < f.size()) return f[n](c);
    // all of them in one message, some unset
    Src &s = c.src;
    vp::qt::CoreAll m, back;
    int set = 0;
#define EACH(X) X(QUrl) X(QChar) X(QUuid) X(QTime) X(QDate) X(QDateTime) X(QSize) X(QSizeF) X(QPoint) X(QPointF) X(QRect) X(QRectF) X(QPolygon) X(QPolygonF)
#define SETALL(Q) if (s.chance(2, 3)) { m.setF##Q(T<Q>::gen(s)); ++set; }
    EACH(SETALL)
    // values that are not valid in Qt terms cannot be sent: give them one
    if (!m.fQTime().isValid()) m.setFQTime(QTime(1, 2, 3));
    if (!m.fQDateTime().isValid()) m.setFQDateTime(QDateTime(QDate(2000, 1, 2), QTime(3, 4)));
    back.deserialize(ser(), m.serialize(ser()));
#define CMPALL(Q) if (!equalQ(back.f##Q(), m.f##Q())) fail(std::string("message with several Qt types: " #Q " ") + T<Q>::show(m.f##Q()) + " comes back as " + T<Q>::show(back.f##Q()));
    EACH(CMPALL)
    c.describe = "all core types, " + std::to_string(set) + " set";
    c.label("all-core");
    c.hash = hashStr(m.serialize(ser()).toStdString());
    c.nontrivial = set > 0;
    c.evals += 14;
}
static void p16(Ctx &c) {
    static const std::vector<void (*)(Ctx &)> f = {ONE_CASE(QColor), ONE_CASE(QMatrix4x4), ONE_CASE(QVector2D), ONE_CASE(QVector3D), ONE_CASE(QVector4D), ONE_CASE(QTransform), ONE_CASE(QQuaternion), ONE_CASE(QImage)};
    size_t n = c.src.draw(f.size() + 1);
    if (n < f.size()) return f[n](c);
    Src &s = c.src;
    vp::qt::GuiAll m, back;
    int set = 0;
#define GEACH(X) X(QColor) X(QMatrix4x4) X(QVector2D) X(QVector3D) X(QVector4D) X(QTransform) X(QQuaternion) X(QImage)
    GEACH(SETALL)
    if (!m.fQColor().isValid()) m.setFQColor(QColor(1, 2, 3, 4));
    back.deserialize(ser(), m.serialize(ser()));
    GEACH(CMPALL)
    c.describe = "all gui types, " + std::to_string(set) + " set";
    c.label("all-gui");
    c.hash = hashStr(m.serialize(ser()).toStdString());
    c.nontrivial = set > 0;
    c.evals += 8;
}
static Reg r15({"P15", "value different from the default-constructed one, sent, read by the reference and read back", p15, 30, init, {}, {}});
static Reg r16({"P16", "value different from the default-constructed one, sent, read by the reference and read back", p16, 30, init, {}, {}});

// ---------------------------------------------------------------- P17
static std::string probeValue() {
    init();
    std::string bad;
    for (int k = 0; k < 2; ++k) {
        google::protobuf::Value v;
        if (k) v.setNumberValue(5);
        else {
            google::protobuf::ListValue l;
            QSharedPointer<google::protobuf::Value> one(new google::protobuf::Value);
            one->setBoolValue(true);
            l.setValues({one});
            v.setListValue(l);
        }
        std::unique_ptr<gp::Message> r(proto("google.protobuf.Value")->New());
        r->ParseFromString(sstr(v.serialize(ser())));
        auto *o = r->GetReflection()->GetOneofFieldDescriptor(*r, r->GetDescriptor()->oneof_decl(0));
        std::string want = k ? "number_value" : "list_value";
        if (!o || o->name() != want) bad += "google.protobuf.Value with " + want + " is read by the reference as " + (o ? o->name() : "nothing") + ". ";
    }
    return bad;
}
static std::string probeStamp() {
    init();
    google::protobuf::Timestamp t(QDateTime::fromMSecsSinceEpoch(1));
    if (int64_t(t.nanos()) == 1000000) return "";
    return "Timestamp of 1 ms after the epoch has nanos=" + std::to_string(int64_t(t.nanos())) + " instead of 1000000 (pinned by the existing test TimestampMessageSerializationTest)";
}
static void p17(Ctx &c) {
    Src &s = c.src;
    if (s.chance(1, 4)) {        // date-times
        int64_t ms;
        switch (s.draw(4)) {
        case 0: ms = int64_t(s.draw(4000)) - 2000; break;
        case 1: ms = int64_t(s.draw(8000000000000ull)) - 4000000000000ll; break;
        case 2: ms = (int64_t(s.draw(2000000)) - 1000000) * 1000 + int64_t(s.draw(3)) - 1; break;
        default: ms = -62135596800000ll + int64_t(s.draw(315537897600000ull)); break;       // year 1 .. 9999
        }
        QDateTime dt = s.chance(1, 2) ? QDateTime::fromMSecsSinceEpoch(ms) : s.chance(1, 2) ? QDateTime::fromMSecsSinceEpoch(ms, Qt::UTC) : QDateTime::fromMSecsSinceEpoch(ms, Qt::OffsetFromUTC, int(s.draw(40000)) - 20000);
        c.describe = "date-time " + std::to_string(ms);
        c.label("date-time");
        c.hash = hashStr(c.describe);
        c.nontrivial = ms % 1000 != 0;
        // the standard form, or the form of known finding K17b (microseconds, truncated towards the epoch)
        int64_t sec = ms >= 0 ? ms / 1000 : -((-ms + 999) / 1000);
        int64_t nanos = (ms - sec * 1000) * 1000000;
        google::protobuf::Timestamp t(dt);
        bool std = int64_t(t.seconds()) == sec && int64_t(t.nanos()) == nanos, k17b = int64_t(t.seconds()) == ms / 1000 && int64_t(t.nanos()) == ms % 1000 * 1000;
        if (!std && !k17b) fail("timestamp of " + std::to_string(ms) + " ms is " + std::to_string(int64_t(t.seconds())) + "s " + std::to_string(int64_t(t.nanos())) + "ns");
        google::protobuf::Timestamp back;
        back.deserialize(ser(), t.serialize(ser()));
        QDateTime q = back;
        if (q.toMSecsSinceEpoch() != ms) fail("date-time " + std::to_string(ms) + " ms comes back as " + std::to_string(q.toMSecsSinceEpoch()));
        if (q != dt) fail("date-time " + std::to_string(ms) + " ms comes back unequal");
        // whole seconds mean the same in both forms
        google::protobuf::Timestamp n;
        n.setSeconds(sec); n.setNanos(0);
        q = n;
        if (q.toMSecsSinceEpoch() != sec * 1000) fail("timestamp " + std::to_string(sec) + "s becomes " + std::to_string(q.toMSecsSinceEpoch()) + " ms");
        c.evals += 3;
        return;
    }
    const QtOps *o;
    do o = &wkt()[s.draw(wkt().size())]; while (false);
    const MsgD &d = *o->d;
    std::string name = d.full;
    bool oneof = name == "google.protobuf.Value" || name == "google.protobuf.Struct" || name == "google.protobuf.ListValue";
    GenOpts g = pickOpts(s, d);
    Val v = genMsg(s, d, g);
    c.label(name);
    Val want = v;
    normalize(d, want);
    c.describe = show(d, v);
    c.hash = hashStr(c.describe);
    c.nontrivial = countSet(d, want) > 0;
    Obj x(*o);
    if (oneof) {                   // members of a oneof: only reading is claimed; write through the library, read by the library
        o->set(x.p, v);
        Obj y(*o);
        o->des(y.p, ser(), o->ser(x.p, ser()));
        Val r = y.get();
        normalize(d, r);
        if (r != want) fail(name + " round trip: " + diff(d, want, r));
        // what the reference sends (its own choice of the oneof member) is read with the same values
        std::string b = refEncode(d, v);
        Val ref;
        if (!refDecode(d, b, ref)) { fprintf(stderr, "HARNESS-BUG: reference\n"); _exit(2); }
        normalize(d, ref);
        Obj z(*o);
        o->des(z.p, ser(), qba(b));
        r = z.get();
        normalize(d, r);
        if (r != ref) fail(name + " from the reference: " + diff(d, ref, r));
        c.evals += 2;
        return;
    }
    o->set(x.p, v);
    std::string b = sstr(o->ser(x.p, ser()));
    Val r;
    if (!refDecode(d, b, r)) fail(name + ": reference cannot parse " + hex(b));
    normalize(d, r);
    if (r != want) fail(name + " read by the reference: " + diff(d, want, r));
    Obj y(*o);
    o->des(y.p, ser(), qba(refEncode(d, v)));
    r = y.get();
    normalize(d, r);
    if (r != want) fail(name + " from the reference: " + diff(d, want, r));
    Obj z(*o);
    o->des(z.p, ser(), qba(b));
    if (!g.nan && !o->eq(z.p, x.p)) fail(name + " does not round-trip");
    c.evals += 3;
}
static Reg r17({"P17", "message with at least one non-default field, or date-time with a fraction of a second", p17, 30, init, {}, {{"K17a", probeValue}, {"K17b", probeStamp}}});

// ---------------------------------------------------------------- P18
template<class W> static std::string str(W w) { return std::to_string(w); }
template<class W, class N> static void conv(Ctx &c, const char *wn, const char *nn) {
    using I = decltype(W::_t);
    Src &s = c.src;
    GenOpts go;
    Kind k = sizeof(I) == 4 ? (std::is_signed<I>::value ? INT32 : UINT32) : (std::is_signed<I>::value ? INT64 : UINT64);
    I raw = I(genScalarBits(s, k, nullptr, go));
    // representable in N?
    bool ok;
    if (std::is_floating_point<N>::value) { ok = raw == 0 || (std::fabs(static_cast<long double>(raw)) <= 9007199254740992.0L); }
    else {
        __int128 r = raw;
        ok = r >= __int128(std::numeric_limits<N>::min()) && r <= __int128(std::numeric_limits<N>::max());
    }
    c.describe = std::string(wn) + " <-> " + nn + " " + std::to_string(raw);
    c.hash = hashStr(c.describe);
    c.nontrivial = raw != 0 && ok;
    c.label(std::string(wn) + "/" + nn);
    W w(raw);
    QVariant q = QVariant::fromValue<W>(w);
    if (!q.canConvert<N>()) fail(std::string("no conversion from ") + wn + " to " + nn);
    if (!QVariant::fromValue<N>(N()).template canConvert<W>()) fail(std::string("no conversion from ") + nn + " to " + wn);
    if (q.value<W>()._t != raw) fail("variant changes the wrapper");
    if (q.toString() != QString::fromStdString(std::to_string(raw))) fail(std::string(wn) + " " + std::to_string(raw) + " prints as " + q.toString().toStdString());
    ++c.evals;
    if (!ok) return;
    N n = q.value<N>();
    if (!(n == N(raw))) fail(std::string(wn) + " " + std::to_string(raw) + " converts to " + nn + " " + std::to_string(n));
    QVariant back = QVariant::fromValue<N>(N(raw));
    W w2 = back.value<W>();
    if (w2._t != raw) fail(std::string(nn) + " " + std::to_string(raw) + " converts to " + wn + " " + std::to_string(w2._t));
    if (!back.convert(qMetaTypeId<W>()) || back.value<W>()._t != raw) fail(std::string("convert() from ") + nn + " to " + wn + " changes the value");
    // direct use as a number
    I direct = w;
    W assigned;
    assigned = raw;
    if (direct != raw || assigned._t != raw || W::toType(w) != raw || W::fromType(raw)._t != raw) fail(std::string(wn) + ": plain conversion changes the value");
    c.evals += 4;
}
#define WRAPS(X) X(int32) X(int64) X(sfixed32) X(sfixed64) X(fixed32) X(fixed64)
template<class W> static void convAll(Ctx &c, const char *wn) {
    switch (c.src.draw(7)) {
    case 0: return conv<W, int32_t>(c, wn, "int");
    case 1: return conv<W, int64_t>(c, wn, "long");
    case 2: return conv<W, uint32_t>(c, wn, "unsigned");
    case 3: return conv<W, uint64_t>(c, wn, "unsigned long");
    case 4: return conv<W, qlonglong>(c, wn, "long long");
    case 5: return conv<W, qulonglong>(c, wn, "unsigned long long");
    default: return conv<W, double>(c, wn, "double");
    }
}
template<class L, class I> static void listCase(Ctx &c, const char *n) {
    Src &s = c.src;
    L l;
    GenOpts go;
    int cnt = int(s.draw(8));
    Kind k = sizeof(I) == 4 ? (std::is_signed<I>::value ? INT32 : UINT32) : (std::is_signed<I>::value ? INT64 : UINT64);
    std::string txt;
    std::vector<I> raw;
    for (int i = 0; i < cnt; ++i) { I x = I(genScalarBits(s, k, nullptr, go)); raw.push_back(x); l.append(x); txt += " " + std::to_string(x); }
    QVariant q = QVariant::fromValue<L>(l);
    L b = q.value<L>();
    c.describe = std::string(n) + txt;
    c.hash = hashStr(c.describe);
    c.label(n);
    c.nontrivial = cnt > 0;
    if (b.size() != cnt) fail(std::string(n) + ": variant changes the size");
    for (int i = 0; i < cnt; ++i) if (I(b[i]) != raw[size_t(i)]) fail(std::string(n) + ": item changed in the variant");
    if (!(b == l)) fail(std::string(n) + ": copy differs");
    if (QMetaType::type((std::string("QtProtobuf::") + n).c_str()) != qMetaTypeId<L>() || QMetaType::type(n) == QMetaType::UnknownType) fail(std::string(n) + " is not registered under its name");
    c.evals += 2;
}
static void p18(Ctx &c) {
#define WCASE(W) [](Ctx &x) { convAll<QtProtobuf::W>(x, #W); },
#define LCASE(W, I) [](Ctx &x) { listCase<QtProtobuf::W##List, I>(x, #W "List"); },
    static const std::vector<void (*)(Ctx &)> f = {WRAPS(WCASE) WRAPS(WCASE) LCASE(int32, int32_t) LCASE(int64, int64_t) LCASE(uint32, uint32_t) LCASE(uint64, uint64_t) LCASE(sint32, int32_t) LCASE(sint64, int64_t)
                                                   LCASE(fixed32, uint32_t) LCASE(fixed64, uint64_t) LCASE(sfixed32, int32_t) LCASE(sfixed64, int64_t)};
    f[c.src.draw(f.size())](c);
}
static Reg r18({"P18", "non-zero value representable in both types, or non-empty list", p18, 30, init, {}, {}});
