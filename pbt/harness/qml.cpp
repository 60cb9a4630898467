// P28: messages, streams and calls as QML sees them
#include "pbt.h"
#include "rpcmsg.h"
#include "vprpc.qpb.h"
#include "vprpc_grpc.qpb.h"
#include <QAbstractGrpcChannel>
#include <QCoreApplication>
#include <QGrpcCallReply>
#include <QGrpcStream>
#include <QProtobufSerializer>
#include <QQmlComponent>
#include <QQmlContext>
#include <QQmlEngine>
#include <QQmlListReference>
#include <QJSValueIterator>
#include <QtProtobufTypes>
#include <algorithm>
#include <memory>
using namespace QtProtobuf;
using vp::rpc::AlphaClient;
using vp::rpc::BetaClient;
using vp::rpc::Box;
using vp::rpc::Item;
using vp::rpc::Req;
using vp::rpc::Resp;

static QQmlEngine *engine = nullptr;
static std::string lastWarning;

static std::string sstd(const QByteArray &b) { return std::string(b.constData(), size_t(b.size())); }

namespace {
class Chan : public QAbstractGrpcChannel {
public:
    std::shared_ptr<QAbstractProtobufSerializer> ser = std::make_shared<QProtobufSerializer>();
    struct Open { std::string service, method; M arg; QPointer<QGrpcStream> st; int opens; };
    struct Call { std::string service, method; M arg; QPointer<QGrpcCallReply> r; };
    std::vector<std::shared_ptr<Open>> open;
    std::vector<Call> calls;
    QObject obj;
    bool garbled = false;
    QGrpcStatus call(const QString &, const QString &, const QByteArray &, QByteArray &) override { return QGrpcStatus{QGrpcStatus::Unimplemented}; }
    void call(const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) override {
        Call c{s.toStdString(), m.toStdString(), M(), r};
        if (!dec(sstd(a), c.arg)) garbled = true;
        calls.push_back(c);
    }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *) override {
        for (auto &o : open) if (o->st == st) { ++o->opens; return; }        // opened again after an error
        auto o = std::make_shared<Open>(Open{s.toStdString(), st->method().toStdString(), M(), st, 1});
        if (!dec(sstd(st->arg()), o->arg)) garbled = true;
        open.push_back(o);
        QObject::connect(st, &QGrpcStream::finished, &obj, [this, o] { open.erase(std::remove(open.begin(), open.end(), o), open.end()); });
        QObject::connect(st, &QObject::destroyed, &obj, [this, o] { open.erase(std::remove(open.begin(), open.end(), o), open.end()); });
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser; }
    ~Chan() override = default;
};
}

static void qinit() {
    if (engine) return;
    static int argc = 1;
    static char name[] = "h_qml", *argv[] = {name, nullptr};
    new QCoreApplication(argc, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &m) { lastWarning = m.toStdString(); });
    QtProtobuf::qRegisterProtobufTypes();
    engine = new QQmlEngine;
    engine->setOutputWarningsToStandardError(false);
    engine->addImportPath(VP_GRPC_QUICK);
    engine->addImportPath(VP_PROTOBUF_QUICK);
}
static QObject *make(const char *text) {
    QQmlComponent comp(engine);
    comp.setData(text, QUrl());
    QObject *o = comp.create();
    if (!o) fail(std::string("QML cannot use the types of the library: ") + comp.errorString().toStdString());
    return o;
}

// ---------------------------------------------------------------- lists
namespace {
struct It { int n; std::string s; bool operator==(const It &o) const { return n == o.n && s == o.s; } };
It fromItem(const Item *i) { return {int(i->n()), sstd(i->s().toUtf8())}; }
QString qs(const std::string &s) { return QString::fromUtf8(s.data(), int(s.size())); }
It genIt(Src &s) { return {int(s.draw(100)), genText(s, 5)}; }
std::string showL(const std::vector<It> &l) { std::string o = "["; for (auto &x : l) o += std::to_string(x.n) + " "; return o + "]"; }
}
static void lists(Ctx &c) {
    Src &s = c.src;
    std::unique_ptr<QObject> holder;
    std::unique_ptr<Box> own;
    Box *box;
    std::vector<It> model;
    std::string log;
    if (s.draw(3) == 2) {                   // declared in QML with items inside
        int n = int(s.draw(4));
        std::string t = "import vp.rpc 1.0\nBox { items: [";
        for (int i = 0; i < n; ++i) { model.push_back({i + 1, std::string(1, char('a' + i))}); t += std::string(i ? ", " : "") + "Item { n: " + std::to_string(i + 1) + "; s: \"" + char('a' + i) + "\" }"; }
        t += "] }";
        holder.reset(make(t.c_str()));
        box = static_cast<Box *>(holder.get());
        log = "declared" + std::to_string(n);
    } else {
        own.reset(new Box);
        box = own.get();
    }
    QQmlEngine::setObjectOwnership(box, QQmlEngine::CppOwnership);
    auto ref = std::make_unique<QQmlListReference>(box, "items", engine);      // kept over changes
    if (!ref->isValid() || !ref->canAppend() || !ref->canAt() || !ref->canCount() || !ref->canClear()) fail("the list is not usable from QML");
    static QProtobufSerializer ser;
    QJSValue js = engine->newQObject(box);
    QJSValue jsGet = engine->evaluate("(function(b) { var r = []; for (var i = 0; i < b.items.length; ++i) r.push([b.items[i].n, b.items[i].s]); return r })");
    int steps = 2 + int(s.draw(14)), changes = 0;
    for (int k = 0; k < steps; ++k) {
        switch (s.draw(12)) {
        case 0: case 1: case 2: case 3: {
            It i = genIt(s);
            auto *o = new Item;
            o->setN(i.n);
            o->setS(qs(i.s));
            log += " append" + std::to_string(i.n);
            if (!ref->append(o)) fail("append is refused");
            model.push_back(i);
            ++changes;
            break;
        }
        case 4: log += " clear"; ref->clear(); model.clear(); ++changes; break;
        case 5: {                            // the typed interface
            QList<QSharedPointer<Item>> l;
            std::vector<It> m;
            int n = int(s.draw(4));
            for (int i = 0; i < n; ++i) { m.push_back(genIt(s)); l.append(QSharedPointer<Item>(new Item)); l.back()->setN(m.back().n); l.back()->setS(qs(m.back().s)); }
            log += " set" + std::to_string(n);
            box->setItems(l);
            model = m;
            ++changes;
            break;
        }
        case 6: {                            // received from the wire
            Box src;
            std::vector<It> m;
            int n = int(s.draw(4));
            QList<QSharedPointer<Item>> l;
            for (int i = 0; i < n; ++i) { m.push_back(genIt(s)); l.append(QSharedPointer<Item>(new Item)); l.back()->setN(m.back().n); l.back()->setS(qs(m.back().s)); }
            src.setItems(l);
            log += " receive" + std::to_string(n);
            box->deserialize(&ser, src.serialize(&ser));
            model = m;
            ++changes;
            break;
        }
        case 7: if (!model.empty()) {        // change an item in place
            size_t i = s.draw(model.size());
            It v = genIt(s);
            log += " edit" + std::to_string(i);
            QObject *o = ref->at(int(i));
            if (!o) fail("no item " + std::to_string(i));
            o->setProperty("n", v.n);
            o->setProperty("s", qs(v.s));
            model[i] = v;
            ++changes;
            break;
        } break;
        case 8: {
            Box other;
            log += " assign-empty";
            *box = other;
            model.clear();
            ++changes;
            break;
        }
        case 9: log += " rebind"; ref = std::make_unique<QQmlListReference>(box, "items", engine); break;
        case 10: if (s.chance(1, 2)) {       // assigned in script
            int n = int(s.draw(3));
            std::vector<It> m;
            QJSValue arr = engine->newArray(uint(n));
            for (int i = 0; i < n; ++i) {
                m.push_back(genIt(s));
                auto *o = new Item;
                o->setN(m.back().n);
                o->setS(qs(m.back().s));
                arr.setProperty(uint(i), engine->newQObject(o));
            }
            log += " script" + std::to_string(n);
            js.setProperty("items", arr);
            model = m;
            ++changes;
            break;
        } break;
        default: if (s.chance(1, 3)) { engine->collectGarbage(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); } break;
        }
        // the three views of the list
        ++c.evals;
        std::vector<It> typed, listed, scripted;
        for (auto &p : box->items()) { if (!p) fail(log + ": null item"); typed.push_back(fromItem(p.data())); }
        int n = ref->count();
        for (int i = 0; i < n; ++i) { auto *o = qobject_cast<Item *>(ref->at(i)); if (!o) fail(log + ": no item " + std::to_string(i)); listed.push_back(fromItem(o)); }
        if (k % 3 == 0 || k + 1 == steps) {
            QJSValue r = jsGet.call({js});
            if (r.isError()) fail(log + ": script fails: " + r.toString().toStdString());
            int len = r.property("length").toInt();
            for (int i = 0; i < len; ++i) scripted.push_back({r.property(uint(i)).property(0).toInt(), sstd(r.property(uint(i)).property(1).toString().toUtf8())});
            if (scripted != model) fail(log + ": script sees " + showL(scripted) + ", expected " + showL(model));
        }
        if (typed != model) fail(log + ": the message holds " + showL(typed) + ", expected " + showL(model));
        if (listed != model) fail(log + ": the QML list shows " + showL(listed) + ", expected " + showL(model));
    }
    // and what is sent
    Box back;
    back.deserialize(&ser, box->serialize(&ser));
    std::vector<It> sent;
    for (auto &p : back.items()) sent.push_back(fromItem(p.data()));
    if (sent != model) fail(log + ": encoded message holds " + showL(sent) + ", expected " + showL(model));
    c.describe = "list: " + log;
    c.nontrivial = changes >= 2;
    c.label("list history");
}

// ---------------------------------------------------------------- streams
namespace {
const char *ELEMENT = "import QtGrpc 0.6\nGrpcStream {\n"
    "  property var log: []\n  property var errors: []\n  property int stopAt: -1\n  property int changes: 0\n"
    "  onEnabledChanged: ++changes\n"
    "  onMessageReceived: { log.push([value.n, value.s, returnValue === value]); if (log.length === stopAt) enabled = false }\n"
    "  onError: errors.push([status.code, status.message])\n}";
const std::vector<std::string> METHODS = {"streamOne", "streamTwo", "", "unaryOne", "nope", "StreamOne"};
struct Strm { int client; std::string method; M arg; };
struct Elem {
    std::unique_ptr<QObject> o;
    int client = -1, arg = -1;
    std::string method;
    bool enabled = false, value = false;
    std::shared_ptr<Strm> st;
    std::vector<M> log;
    std::vector<int> errors;
    int stopAt = -1;
    M last;
};
}
static void streams(Ctx &c) {
    Src &s = c.src;
    auto chan = std::make_shared<Chan>();
    std::vector<std::unique_ptr<QObject>> clients;
    auto *alpha = new AlphaClient, *lone = new AlphaClient;
    auto *beta = new BetaClient;
    alpha->attachChannel(chan);
    beta->attachChannel(chan);
    clients.emplace_back(alpha);
    clients.emplace_back(beta);
    clients.emplace_back(lone);             // no channel
    // arguments: two requests, one message of another type
    std::vector<std::unique_ptr<QObject>> args;
    std::vector<M> argM;
    for (int i = 0; i < 3; ++i) {
        M m = genM(s);
        if (i == 2) { auto *r = new Resp; toQt(m, *r); args.emplace_back(r); }
        else { auto *r = new Req; toQt(m, *r); args.emplace_back(r); }
        argM.push_back(m);
    }
    static QQmlComponent *comp = nullptr;
    if (!comp) { comp = new QQmlComponent(engine); comp->setData(ELEMENT, QUrl()); }
    std::vector<std::unique_ptr<Elem>> els;
    std::string log;
    auto drop = [&](std::shared_ptr<Strm> x, Elem *by) {          // the stream ends: everyone else on it is switched off
        for (auto &e : els) if (e->st == x) {
            e->st.reset();
            if (e.get() != by) { e->enabled = false; e->value = false; }
        }
    };
    auto update = [&](Elem &e) {
        if (e.st) { auto x = e.st; drop(x, &e); }
        e.value = false;
        if (e.client < 0 || !clients[size_t(e.client)] || e.method.empty() || !e.enabled || e.arg < 0 || !args[size_t(e.arg)]) return;
        std::string m = e.method;
        m[0] = char(tolower(m[0]));
        if ((m != "streamOne" && m != "streamTwo") || (e.client == 1 && m == "streamTwo")) { e.errors.push_back(QGrpcStatus::Unimplemented); e.enabled = false; return; }
        if (e.arg == 2) { e.errors.push_back(QGrpcStatus::InvalidArgument); e.enabled = false; return; }
        if (e.client == 2) { e.errors.push_back(-1); e.enabled = false; return; }
        e.value = true;
        e.last = M();
        for (auto &o : els) if (o->st && o->st->client == e.client && o->st->method == m && o->st->arg == argM[size_t(e.arg)]) { e.st = o->st; return; }
        e.st = std::make_shared<Strm>(Strm{e.client, m, argM[size_t(e.arg)]});
    };
    auto check = [&] {
        ++c.evals;
        std::vector<std::shared_ptr<Strm>> want;
        for (auto &e : els) if (e->st && !std::count(want.begin(), want.end(), e->st)) want.push_back(e->st);
        for (size_t i = 0; i < els.size(); ++i) {
            Elem &e = *els[i];
            std::string n = log + ": element " + std::to_string(i);
            if (e.o->property("enabled").toBool() != e.enabled) fail(n + (e.enabled ? " is switched off" : " is still enabled"));
            auto *rv = e.o->property("returnValue").value<QObject *>();
            if (bool(rv) != e.value) fail(n + (e.value ? " has no value" : " keeps the value of a stream that is over"));
            QVariantList l = e.o->property("log").value<QJSValue>().toVariant().toList(), er = e.o->property("errors").value<QJSValue>().toVariant().toList();
            if (l.size() != int(e.log.size())) fail(n + " showed " + std::to_string(l.size()) + " messages instead of " + std::to_string(e.log.size()));
            for (int k = 0; k < l.size(); ++k) {
                QVariantList x = l[k].toList();
                const M &m = e.log[size_t(k)];
                if (x[0].toInt() != m.n || sstd(x[1].toString().toUtf8()) != m.s) fail(n + ": message " + std::to_string(k) + " differs: " + x[0].toString().toStdString() + " instead of " + std::to_string(m.n));
                if (!x[2].toBool()) fail(n + ": the value of the signal is not the value of the element");
            }
            if (er.size() != int(e.errors.size())) fail(n + " reported " + std::to_string(er.size()) + " errors instead of " + std::to_string(e.errors.size()));
            for (int k = 0; k < er.size(); ++k) if (e.errors[size_t(k)] >= 0 && er[k].toList()[0].toInt() != e.errors[size_t(k)]) fail(n + " reported status " + er[k].toList()[0].toString().toStdString() + " instead of " + std::to_string(e.errors[size_t(k)]));
            if (rv && e.st) {
                if (!qobject_cast<Resp *>(rv)) fail(n + ": value of the wrong type");
                if (fromQt(*static_cast<Resp *>(rv)) != e.last) fail(n + ": its value is " + show(fromQt(*static_cast<Resp *>(rv))) + " instead of " + show(e.last));
            }
        }
        if (chan->garbled) fail(log + ": the argument sent is garbled");
        if (chan->open.size() != want.size()) fail(log + ": " + std::to_string(chan->open.size()) + " streams are open, expected " + std::to_string(want.size()));
        for (auto &w : want) {
            int found = 0;
            for (auto &o : chan->open) if (o->service == (w->client == 1 ? "vp.rpc.Beta" : "vp.rpc.Alpha") && o->method == w->method && o->arg == w->arg) ++found;
            if (found != 1) fail(log + ": stream " + w->method + " " + show(w->arg) + " is open " + std::to_string(found) + " times");
        }
    };
    auto findOpen = [&](const std::shared_ptr<Strm> &w) -> QGrpcStream * {
        for (auto &o : chan->open) if (o->service == (w->client == 1 ? "vp.rpc.Beta" : "vp.rpc.Alpha") && o->method == w->method && o->arg == w->arg) return o->st;
        return nullptr;
    };
    int steps = 4 + int(s.draw(26));
    size_t shown = 0;
    int restarts = 0;
    for (int k = 0; k < steps; ++k) {
        Elem *e = els.empty() ? nullptr : els[s.draw(els.size())].get();
        std::string en = e ? std::to_string(std::find_if(els.begin(), els.end(), [&](std::unique_ptr<Elem> &x) { return x.get() == e; }) - els.begin()) : "";
        uint64_t op = s.draw(16);
        if (!e || (op == 0 && els.size() < 4)) {
            auto u = std::make_unique<Elem>();
            u->o.reset(comp->create());
            if (!u->o) fail("no stream element: " + comp->errorString().toStdString());
            log += " new" + std::to_string(els.size());
            Elem &x = *u;
            els.push_back(std::move(u));
            if (s.chance(3, 4)) {
                x.client = s.chance(1, 4) ? 1 : 0;
                x.method = METHODS[s.draw(2)];
                x.arg = int(s.draw(2));
                if (x.client == 1) x.method = "streamOne";
                x.o->setProperty("client", QVariant::fromValue(static_cast<QAbstractGrpcClient *>(x.client ? static_cast<QAbstractGrpcClient *>(clients[1] ? beta : nullptr) : alpha)));
                if (x.client == 1 && !clients[1]) x.client = -1;
                x.o->setProperty("method", qs(x.method));
                if (args[size_t(x.arg)]) x.o->setProperty("argument", QVariant::fromValue(args[size_t(x.arg)].get())); else x.arg = -1;
                if (s.chance(3, 4)) { x.enabled = true; log += "+"; update(x); x.o->setProperty("enabled", true); }
            }
        } else if (op <= 2) {
            bool on = s.chance(2, 3);
            log += on ? " on" + en : " off" + en;
            if (e->enabled != on) { e->enabled = on; update(*e); }
            e->o->setProperty("enabled", on);
        } else if (op == 3) {
            std::string m = METHODS[s.draw(s.chance(1, 2) ? 2 : METHODS.size())];
            log += " method" + en + "=" + m;
            if (m != e->method) { e->method = m; if (e->st) ++restarts; update(*e); }
            e->o->setProperty("method", qs(m));
        } else if (op == 4) {
            int a = int(s.draw(s.chance(1, 3) ? 4 : 2));
            if (a == 3 || !args[size_t(a)]) a = -1;
            log += " argument" + en + "=" + std::to_string(a);
            int cur = e->arg >= 0 && args[size_t(e->arg)] ? e->arg : -1;
            if (a != cur) { e->arg = a; if (e->st) ++restarts; update(*e); }
            e->o->setProperty("argument", QVariant::fromValue(a < 0 ? nullptr : args[size_t(a)].get()));
        } else if (op == 5) {
            int a = int(s.draw(4));
            if (a == 3 || !clients[size_t(a)]) a = -1;
            log += " client" + en + "=" + std::to_string(a);
            int cur = e->client >= 0 && clients[size_t(e->client)] ? e->client : -1;
            if (a != cur) { e->client = a; if (e->st) ++restarts; update(*e); }
            QAbstractGrpcClient *p = a < 0 ? nullptr : a == 0 ? static_cast<QAbstractGrpcClient *>(alpha) : a == 1 ? static_cast<QAbstractGrpcClient *>(beta) : lone;
            e->o->setProperty("client", QVariant::fromValue(p));
        } else if (op <= 10) {
            std::vector<std::shared_ptr<Strm>> run;
            for (auto &x : els) if (x->st && !std::count(run.begin(), run.end(), x->st)) run.push_back(x->st);
            if (run.empty()) continue;
            auto w = run[s.draw(run.size())];
            QGrpcStream *st = findOpen(w);
            if (!st) fail(log + ": stream is not open");
            if (op == 9 && s.chance(1, 2)) {
                log += " end";
                drop(w, nullptr);
                st->finished();
            } else if (op == 10 && s.chance(1, 2)) {
                int code = 1 + int(s.draw(16));
                log += " error" + std::to_string(code);
                for (auto &x : els) if (x->st == w) x->errors.push_back(code);
                st->error(QGrpcStatus{QGrpcStatus::StatusCode(code), QStringLiteral("why")});
            } else {
                M m = genM(s);
                log += " message";
                // elements that switch themselves off end the stream for all; who was told before depends on the order
                std::vector<Elem *> on;
                bool stops = false;
                for (auto &x : els) if (x->st == w) { on.push_back(x.get()); stops = stops || x->stopAt == int(x->log.size()) + 1; }
                if (stops && on.size() > 1) continue;
                for (auto *x : on) { x->log.push_back(m); x->last = m; ++shown; }
                if (stops) { on[0]->enabled = false; update(*on[0]); }
                st->handler(q(enc(m)));
            }
        } else if (op == 11) {
            log += " edit-arg";
            int a = int(s.draw(2));
            if (!args[size_t(a)]) continue;
            argM[size_t(a)] = genM(s);
            toQt(argM[size_t(a)], *static_cast<Req *>(args[size_t(a)].get()));
        } else if (op == 12) {
            e->stopAt = s.chance(1, 4) ? -1 : int(e->log.size()) + 1 + int(s.draw(3));
            log += " stop" + en + "@" + std::to_string(e->stopAt);
            e->o->setProperty("stopAt", e->stopAt);
        } else if (op == 13) {
            log += " delete" + en;
            if (e->st) drop(e->st, e);
            if (s.chance(1, 2)) e->o.reset();
            else { e->o.release()->deleteLater(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); }
            els.erase(std::find_if(els.begin(), els.end(), [&](std::unique_ptr<Elem> &x) { return x.get() == e; }));
        } else if (op == 14) {
            if (s.chance(1, 4)) {
                size_t a = s.draw(3);
                log += " delete-arg" + std::to_string(a);
                args[a].reset();
                for (auto &x : els) if (x->arg == int(a)) x->arg = -1;
            } else if (s.chance(1, 4) && clients[1]) {
                log += " delete-client1";
                for (auto &x : els) if (x->client == 1) { x->client = -1; x->st.reset(); }      // nothing more comes
                clients[1].reset();
            }
        } else {
            log += " .";
            QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
            if (s.chance(1, 4)) engine->collectGarbage();
        }
        check();
    }
    // teardown in any order
    if (s.chance(1, 2)) clients.clear();
    els.clear();
    clients.clear();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    if (!chan->open.empty()) fail(log + ": a stream survives its elements");
    c.describe = "stream: " + log;
    c.nontrivial = shown >= 1 && steps >= 2;
    c.label(restarts ? "stream, changed while active" : "stream");
}

// ---------------------------------------------------------------- calls
static void calls(Ctx &c) {
    Src &s = c.src;
    auto chan = std::make_shared<Chan>();
    // a client is given to QML as an object of its context
    auto *client = new AlphaClient;
    std::unique_ptr<QObject> own(client);
    QQmlEngine::setObjectOwnership(client, QQmlEngine::CppOwnership);
    bool attached = !s.chance(1, 12);
    if (attached) client->attachChannel(chan);
    QQmlContext ctx(engine);
    QQmlEngine::setContextForObject(client, &ctx);
    QJSValue js = engine->newQObject(client);
    QJSValue log = engine->newArray();
    static QJSValue one = engine->evaluate("(function(cl, log, id, arg, two) { var cb = function(r) { log.push([id, 0, r]) }, er = function(st) { log.push([id, 1, st.code, st.message]) }; if (two) cl.unaryTwo(arg, cb, er); else cl.unaryOne(arg, cb, er) })");
    static QJSValue into = engine->evaluate("(function(cl, log, id, arg, ret, two) { var er = function(st) { log.push([id, 1, st.code, st.message]) }; if (two) cl.unaryTwo(arg, ret, er); else cl.unaryOne(arg, ret, er) })");
    struct Call { bool into; M arg, want; std::unique_ptr<Resp> ret; M before; int state = 0, code = 0; std::string text; size_t idx; bool gone = false; };
    std::vector<std::unique_ptr<Call>> calls;
    std::string text;
    struct Done { int id; bool err; M m; int code; std::string text; };
    std::vector<Done> want;
    int steps = 2 + int(s.draw(16));
    auto verify = [&] {
        ++c.evals;
        int n = log.property("length").toInt();
        if (n != int(want.size())) fail(text + ": " + std::to_string(n) + " callbacks ran instead of " + std::to_string(want.size()));
        for (int i = 0; i < n; ++i) {
            QJSValue x = log.property(uint(i));
            Done &w = want[size_t(i)];
            if (x.property(0).toInt() != w.id) fail(text + ": the callback of another call ran");
            if (x.property(1).toInt() != int(w.err)) fail(text + ": the wrong callback of the call ran");
            if (w.err) {
                if (x.property(2).toInt() != w.code || sstd(x.property(3).toString().toUtf8()) != w.text) fail(text + ": the callback saw status " + x.property(2).toString().toStdString());
            } else {
                auto *r = qobject_cast<Resp *>(x.property(2).toQObject());
                if (!r) fail(text + ": the callback got no response");
                if (fromQt(*r) != w.m) fail(text + ": the callback got " + show(fromQt(*r)) + " instead of " + show(w.m));
            }
        }
        for (auto &k : calls) if (k->into && k->ret) {
            M m = fromQt(*k->ret), e = k->state == 1 ? k->want : k->before;
            if (m != e) fail(text + ": the result object holds " + show(m) + " instead of " + show(e));
        }
        if (chan->garbled) fail(text + ": the argument sent is garbled");
    };
    for (int k = 0; k < steps; ++k) {
        switch (s.draw(6)) {
        case 0: case 1: case 2: {
            auto u = std::make_unique<Call>();
            Call &x = *u;
            x.into = s.chance(1, 2);
            x.arg = genM(s);
            bool two = s.chance(1, 2);
            auto *req = new Req;
            toQt(x.arg, *req);
            QJSValue arg = engine->newQObject(req);            // owned by the script
            size_t before = chan->calls.size();
            int id = int(calls.size());
            text += (x.into ? " call-into" : " call") + std::to_string(id);
            QJSValue r;
            if (x.into) {
                x.ret.reset(new Resp);
                x.before = genM(s);
                toQt(x.before, *x.ret);
                QQmlEngine::setObjectOwnership(x.ret.get(), QQmlEngine::CppOwnership);
                r = into.call({js, log, id, arg, engine->newQObject(x.ret.get()), two});
            } else r = one.call({js, log, id, arg, two});
            if (r.isError()) fail(text + ": the call throws " + r.toString().toStdString());
            if (!attached) {
                if (chan->calls.size() != before) fail("a call reaches a channel that is not attached");
                x.state = 3;
            } else {
                if (chan->calls.size() != before + 1) fail(text + ": the call reaches the channel " + std::to_string(chan->calls.size() - before) + " times");
                auto &y = chan->calls.back();
                if (y.service != "vp.rpc.Alpha" || y.method != (two ? "unaryTwo" : "unaryOne")) fail(text + ": reaches " + y.service + "/" + y.method);
                if (y.arg != x.arg) fail(text + ": sends " + show(y.arg) + " instead of " + show(x.arg));
                x.idx = before;
            }
            calls.push_back(std::move(u));
            break;
        }
        case 3: case 4: {
            std::vector<size_t> p;
            for (size_t i = 0; i < calls.size(); ++i) if (!calls[i]->state) p.push_back(i);
            if (p.empty()) break;
            size_t id = p[s.draw(p.size())];
            Call &x = *calls[id];
            auto r = chan->calls[x.idx].r;
            if (!r) fail(text + ": the reply of a pending call is gone");
            if (s.chance(1, 3)) {
                x.state = 2;
                x.code = 1 + int(s.draw(16));
                x.text = genText(s, 5);
                text += " fail" + std::to_string(id);
                want.push_back({int(id), true, M(), x.code, x.text});
                r->error(QGrpcStatus{QGrpcStatus::StatusCode(x.code), qs(x.text)});
            } else {
                x.state = 1;
                x.want = genM(s);
                text += " answer" + std::to_string(id);
                if (!x.into) want.push_back({int(id), false, x.want, 0, ""});
                r->setData(q(enc(x.want)));
                r->finished();
            }
            break;
        }
        default:
            if (s.chance(1, 3)) {
                std::vector<Call *> p;
                for (auto &x : calls) if (x->ret && !x->state) p.push_back(x.get());
                if (!p.empty()) { text += " drop-result"; p[s.draw(p.size())]->ret.reset(); }
            } else {
                text += " .";
                engine->collectGarbage();
                QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
            }
        }
        verify();
    }
    if (s.chance(1, 2)) { text += " delete-client"; own.reset(); verify(); }
    c.describe = "calls: " + text;
    c.nontrivial = want.size() >= 1 && calls.size() >= 2;
    c.label("calls from script");
    own.reset();
}

static void p28(Ctx &c) {
    qinit();
    static int cases = 0;
    switch (c.src.draw(4)) {
    case 0: lists(c); break;
    case 1: calls(c); break;
    default: streams(c);
    }
    c.hash = hashStr(c.describe);
    if (++cases % 50 == 0) engine->collectGarbage();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
}
static Reg r28({"P28", "two changes of a list, a shown stream message, or a completed script call", p28, 30, nullptr, {}});
