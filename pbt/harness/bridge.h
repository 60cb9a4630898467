// Typed access to generated Qt message classes <-> value tree, plus type-erased operations
#pragma once
#include "val.h"
#include <QByteArray>
#include <QList>
#include <QMap>
#include <QObject>
#include <QVariant>
#include <QSharedPointer>
#include <QString>
#include <QStringList>
#include <QProtobufSerializer>
#include <qtprotobuftypes.h>
#include <type_traits>
#include <utility>

namespace vt {

template<class T> struct Bridge;      // specialised by the emitted code
template<class T, class = void> struct IsMsg : std::false_type {};
template<class T> struct IsMsg<T, std::enable_if_t<std::is_base_of<QObject, T>::value>> : std::true_type {};

inline void readQt(const QString &x, Val &v) { QByteArray b = x.toUtf8(); v.s.assign(b.constData(), size_t(b.size())); }
inline void readQt(const QByteArray &x, Val &v) { v.s.assign(x.constData(), size_t(x.size())); }
inline void readQt(float x, Val &v) { uint32_t b; memcpy(&b, &x, 4); v.u = b; }
inline void readQt(double x, Val &v) { memcpy(&v.u, &x, 8); }
inline void readQt(bool x, Val &v) { v.u = x; }
template<class T, std::enable_if_t<(std::is_integral<T>::value && std::is_signed<T>::value), int> = 0> void readQt(const T &x, Val &v) { v.u = uint64_t(int64_t(x)); }
template<class T, std::enable_if_t<(std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value), int> = 0> void readQt(const T &x, Val &v) { v.u = uint64_t(x); }
template<class I, int N> void readQt(const QtProtobuf::transparent<I, N> &x, Val &v) { readQt(static_cast<I>(x._t), v); }
template<class T, std::enable_if_t<std::is_enum<T>::value, int> = 0> void readQt(const T &x, Val &v) { v.u = uint64_t(int64_t(int32_t(x))); }
template<class T, std::enable_if_t<IsMsg<T>::value, int> = 0> void readQt(const T &x, Val &v) { Bridge<T>::get(x, v); }
template<class T> void readQt(const QSharedPointer<T> &x, Val &v) {
    if (x.isNull()) { v = Val(); v.s = "<null message>"; return; }
    Bridge<T>::get(*x, v);
}
template<class T> void readQt(const QList<T> &l, Val &v) {
    v = Val();
    for (auto &x : l) { Val e; readQt(x, e); v.items.push_back(e); }
}
inline void readQt(const QStringList &l, Val &v) { readQt(static_cast<const QList<QString> &>(l), v); }
template<class K, class T> void readQt(const QMap<K, T> &m, Val &v) {
    v = Val();
    for (auto it = m.constBegin(); it != m.constEnd(); ++it) {
        Val k, e;
        readQt(it.key(), k);
        readQt(it.value(), e);
        Key key; key.u = k.u; key.s = k.s;
        v.map[key] = e;
    }
}

inline void writeQt(const Val &v, QString &x) { x = QString::fromUtf8(v.s.data(), int(v.s.size())); if (v.s.compare(0, 3, "\xEF\xBB\xBF") == 0) x.prepend(QChar(0xFEFF)); }
inline void writeQt(const Val &v, QByteArray &x) { x = QByteArray(v.s.data(), int(v.s.size())); }
inline void writeQt(const Val &v, float &x) { uint32_t b = uint32_t(v.u); memcpy(&x, &b, 4); }
inline void writeQt(const Val &v, double &x) { memcpy(&x, &v.u, 8); }
inline void writeQt(const Val &v, bool &x) { x = v.u != 0; }
template<class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0> void writeQt(const Val &v, T &x) { x = T(v.u); }
template<class I, int N> void writeQt(const Val &v, QtProtobuf::transparent<I, N> &x) { x = I(v.u); }
template<class T, std::enable_if_t<std::is_enum<T>::value, int> = 0> void writeQt(const Val &v, T &x) { x = static_cast<T>(int32_t(v.u)); }
template<class T, std::enable_if_t<IsMsg<T>::value, int> = 0> void writeQt(const Val &v, T &x) { Bridge<T>::set(x, v); }
template<class T> void writeQt(const Val &v, QSharedPointer<T> &x) { x.reset(new T); Bridge<T>::set(*x, v); }
template<class T> void writeQt(const Val &v, QList<T> &l) {
    l.clear();
    for (auto &e : v.items) { T x{}; writeQt(e, x); l.append(x); }
}
inline void writeQt(const Val &v, QStringList &l) { writeQt(v, static_cast<QList<QString> &>(l)); }
template<class K, class T> void writeQt(const Val &v, QMap<K, T> &m) {
    m.clear();
    for (auto &e : v.map) {
        Val kv; kv.u = e.first.u; kv.s = e.first.s;
        K k{}; T x{};
        writeQt(kv, k);
        writeQt(e.second, x);
        m[k] = x;
    }
}

template<class T, std::enable_if_t<IsMsg<T>::value, int> = 0> QVariant toVar(const T &x) { return QVariant::fromValue<T *>(new T(x)); }
template<class T, std::enable_if_t<!IsMsg<T>::value, int> = 0> QVariant toVar(const T &x) { return QVariant::fromValue<T>(x); }
template<class T, std::enable_if_t<IsMsg<T>::value, int> = 0> bool fromVar(const QVariant &q, Val &v) {
    T *p = q.value<T *>();
    if (!p) return false;
    v = Val();
    Bridge<T>::get(*p, v);
    return true;
}
template<class T, std::enable_if_t<!IsMsg<T>::value, int> = 0> bool fromVar(const QVariant &q, Val &v) {
    if (!q.isValid() || !q.canConvert<T>()) return false;
    v = Val();
    readQt(q.value<T>(), v);
    return true;
}

struct QtOps {
    const MsgD *d;
    bool (*setProp)(QObject *, int, const Val &);
    bool (*getProp)(const QObject *, int, Val &);
    QObject *(*construct)(int, const Val &);
    QObject *(*make)();
    void (*destroy)(QObject *);
    void (*set)(QObject *, const Val &);
    void (*get)(const QObject *, Val &);
    void (*setField)(QObject *, int, const Val &);
    void (*getField)(const QObject *, int, Val &);
    QByteArray (*ser)(const QObject *, QtProtobuf::QAbstractProtobufSerializer *);
    void (*des)(QObject *, QtProtobuf::QAbstractProtobufSerializer *, const QByteArray &);
    bool (*eq)(const QObject *, const QObject *);
    bool (*ne)(const QObject *, const QObject *);
    QObject *(*copy)(const QObject *);
    QObject *(*moveNew)(QObject *);
    void (*assign)(QObject *, const QObject *);
    void (*moveAssign)(QObject *, QObject *);
    QByteArray (*notifySignal)(int);
    const char *(*propertyName)(int);
    const QMetaObject *meta;
    const QtProtobuf::QProtobufMetaObject *pmeta;
};

template<class T> QtOps makeOps() {
    QtOps o;
    o.d = &Bridge<T>::desc();
    o.setProp = [](QObject *x, int i, const Val &v) { return Bridge<T>::setProp(*static_cast<T *>(x), i, v); };
    o.getProp = [](const QObject *x, int i, Val &v) { return Bridge<T>::getProp(*static_cast<const T *>(x), i, v); };
    o.construct = [](int n, const Val &v) -> QObject * { return Bridge<T>::construct(n, v); };
    o.make = []() -> QObject * { return new T; };
    o.destroy = [](QObject *x) { delete static_cast<T *>(x); };
    o.set = [](QObject *x, const Val &v) { Bridge<T>::set(*static_cast<T *>(x), v); };
    o.get = [](const QObject *x, Val &v) { Bridge<T>::get(*static_cast<const T *>(x), v); };
    o.setField = [](QObject *x, int i, const Val &v) { Bridge<T>::setField(*static_cast<T *>(x), i, v); };
    o.getField = [](const QObject *x, int i, Val &v) { v = Val(); Bridge<T>::getField(*static_cast<const T *>(x), i, v); };
    o.ser = [](const QObject *x, QtProtobuf::QAbstractProtobufSerializer *s) { return static_cast<const T *>(x)->serialize(s); };
    o.des = [](QObject *x, QtProtobuf::QAbstractProtobufSerializer *s, const QByteArray &b) { static_cast<T *>(x)->deserialize(s, b); };
    o.eq = [](const QObject *a, const QObject *b) { return *static_cast<const T *>(a) == *static_cast<const T *>(b); };
    o.ne = [](const QObject *a, const QObject *b) { return *static_cast<const T *>(a) != *static_cast<const T *>(b); };
    o.copy = [](const QObject *a) -> QObject * { return new T(*static_cast<const T *>(a)); };
    o.moveNew = [](QObject *a) -> QObject * { return new T(std::move(*static_cast<T *>(a))); };
    o.assign = [](QObject *a, const QObject *b) { *static_cast<T *>(a) = *static_cast<const T *>(b); };
    o.moveAssign = [](QObject *a, QObject *b) { *static_cast<T *>(a) = std::move(*static_cast<T *>(b)); };
    o.notifySignal = &Bridge<T>::notifySignal;
    o.propertyName = &Bridge<T>::propertyName;
    o.meta = &T::staticMetaObject;
    o.pmeta = &T::protobufMetaObject;
    return o;
}

// RAII holder
struct Obj {
    const QtOps *o;
    QObject *p;
    explicit Obj(const QtOps &ops) : o(&ops), p(ops.make()) {}
    Obj(const QtOps &ops, QObject *x) : o(&ops), p(x) {}
    Obj(const Obj &) = delete;
    Obj(Obj &&x) : o(x.o), p(x.p) { x.p = nullptr; }
    ~Obj() { if (p) o->destroy(p); }
    Val get() const { Val v; o->get(p, v); return v; }
};
inline std::string sstr(const QByteArray &b) { return std::string(b.constData(), size_t(b.size())); }
inline QByteArray qba(const std::string &s) { return QByteArray(s.data(), int(s.size())); }
}
