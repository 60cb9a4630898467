// gRPC client side over a scripted network: P21 unary calls, P22 streams, P23 framing, P24 status, P25 credentials,
// P26 lifecycle, P30 request format
#include "fakenet.h"
#include <qprotobufserializerregistry_p.h>
#include "rpcmsg.h"
#include <QAbstractGrpcClient>
#include <QCoreApplication>
#include <QEventLoop>
#include <QGrpcCallReply>
#include <QGrpcCredentials>
#include <QGrpcHttp2Channel>
#include <QGrpcInsecureCredentials>
#include <QGrpcStatus>
#include <QGrpcStream>
#include <QGrpcUserPasswordCredentials>
#include <QUrl>
#include <QtProtobufTypes>
#include "vprpc.qpb.h"
#include "vprpc_grpc.qpb.h"
#include <algorithm>
#include <memory>
#include <unistd.h>
using namespace pbt;
using namespace QtProtobuf;
using vp::rpc::Req;
using vp::rpc::Resp;
using vp::rpc::AlphaClient;
using vp::rpc::BetaClient;

static void init() {
    static bool done = false;
    if (done) return;
    done = true;
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    qRegisterProtobufTypes();
    qRegisterMetaType<QtProtobuf::QGrpcStatus>();
}

// status message on the wire: percent-encoded as the gRPC protocol prescribes
static QByteArray pct(const std::string &m) {
    QByteArray o;
    for (unsigned char c : m) {
        if (c >= 0x20 && c <= 0x7e && c != '%') o += char(c);
        else { char b[4]; snprintf(b, sizeof b, "%%%02X", c); o += b; }
    }
    return o;
}
static QList<QPair<QByteArray, QByteArray>> trailers(int code, const std::string &msg) {
    QList<QPair<QByteArray, QByteArray>> t{{"grpc-status", QByteArray::number(code)}};
    if (!msg.empty()) t.append({"grpc-message", pct(msg)});
    return t;
}

static const std::vector<QNetworkReply::NetworkError> &netErrors() {
    static const std::vector<QNetworkReply::NetworkError> v = {
        QNetworkReply::ConnectionRefusedError, QNetworkReply::RemoteHostClosedError, QNetworkReply::HostNotFoundError, QNetworkReply::TimeoutError, QNetworkReply::OperationCanceledError,
        QNetworkReply::SslHandshakeFailedError, QNetworkReply::TemporaryNetworkFailureError, QNetworkReply::NetworkSessionFailedError, QNetworkReply::BackgroundRequestNotAllowedError,
        QNetworkReply::TooManyRedirectsError, QNetworkReply::InsecureRedirectError, QNetworkReply::UnknownNetworkError, QNetworkReply::ProxyConnectionRefusedError, QNetworkReply::ProxyConnectionClosedError,
        QNetworkReply::ProxyNotFoundError, QNetworkReply::ProxyTimeoutError, QNetworkReply::ProxyAuthenticationRequiredError, QNetworkReply::UnknownProxyError, QNetworkReply::ContentAccessDenied,
        QNetworkReply::ContentOperationNotPermittedError, QNetworkReply::ContentNotFoundError, QNetworkReply::AuthenticationRequiredError, QNetworkReply::ContentReSendError, QNetworkReply::ContentConflictError,
        QNetworkReply::ContentGoneError, QNetworkReply::UnknownContentError, QNetworkReply::ProtocolUnknownError, QNetworkReply::ProtocolInvalidOperationError, QNetworkReply::ProtocolFailure,
        QNetworkReply::InternalServerError, QNetworkReply::OperationNotImplementedError, QNetworkReply::ServiceUnavailableError, QNetworkReply::UnknownServerError};
    return v;
}

// ---------------------------------------------------------------- credentials with any header names
struct AnyCredentials : public QGrpcCallCredentials {
    std::shared_ptr<std::vector<std::pair<std::string, QVariant>>> kv = std::make_shared<std::vector<std::pair<std::string, QVariant>>>();
    QGrpcCredentialMap operator()() {
        QGrpcCredentialMap m;
        for (auto &e : *kv) m.insert(QLatin1String(e.first.data(), int(e.first.size())), e.second);
        return m;
    }
};
static std::shared_ptr<QGrpcHttp2Channel> channel(const AnyCredentials &c = AnyCredentials()) {
    return std::make_shared<QGrpcHttp2Channel>(QUrl("http://server.example:50051", QUrl::StrictMode), c | QGrpcInsecureChannelCredentials());
}

// ---------------------------------------------------------------- the world: clients, calls and streams with their model
enum { PENDING, OK, FAILED, ABORTED, GONE };
struct Call {
    int id, client, method, state = PENDING, style = 0;
    M req, resp;
    int code = 0;                 // expected status, -1: any error
    std::string text;
    QGrpcCallReplyShared h;
    int fin = 0, err = 0;         // what was seen
    M got;
    int gotCode = -1;
    std::string gotText;
    size_t rq = 0;
    qint64 start = 0;
    std::weak_ptr<int> token;     // lives as long as the handlers of the call
};
struct Strm {
    int id, client, method;
    M arg;
    bool active = true;
    int errorState = 0;           // waiting for the reconnect timer; position in the order of failures
    std::vector<M> delivered;
    std::vector<std::pair<size_t, M>> queue;      // (end offset in outbox, message)
    std::string outbox;
    size_t outPos = 0;
    size_t rq = 0;
    const void *identity = nullptr;
    int limit = -1;               // aborted from inside a handler while message number `limit` was delivered
    int fins = 0, errs = 0;       // expected signals
};
struct Sub {
    int id;
    Strm *st;
    QGrpcStreamShared h;
    std::unique_ptr<Resp> ret;
    size_t from;
    std::vector<M> got;
    int fin = 0, err = 0, fin0 = 0, err0 = 0;
    int action = 0;               // what the handler does when a message arrives
    std::weak_ptr<int> token;
    bool mid = false;             // subscribed while a message was being delivered: may or may not see that one
};
static QString methodName(int type, int m) { static const char *n[] = {"unaryOne", "unaryTwo", "streamOne", "streamTwo"}; (void)type; return n[m]; }
struct World {
    Ctx &c;
    Src &s;
    QObject *ctx = new QObject;
    struct Cl { QAbstractGrpcClient *p; int type; int chan; std::vector<int> used; bool alive = true; std::vector<std::pair<int, std::string>> errs; int expErr = 0; };
    std::vector<std::shared_ptr<QGrpcHttp2Channel>> chans;
    std::vector<std::unique_ptr<Cl>> cl;
    std::vector<std::unique_ptr<Call>> calls;
    std::vector<std::unique_ptr<Strm>> st;
    std::vector<std::unique_ptr<Sub>> subs;
    std::string log, bad;
    int completed = 0, interesting = 0;
    bool reentrant = false, closing = false;
    int errSeq = 0;

    explicit World(Ctx &x) : c(x), s(x.src) { fakenet::reset(); }
    ~World() {
        closing = true;
        delete ctx;
        for (auto &k : cl) if (k->alive) { k->alive = false; delete static_cast<QObject *>(k->p); }
        calls.clear();
        subs.clear();
        chans.clear();
        fakenet::reset();
    }
    void flag(const std::string &m) { if (bad.empty()) bad = m; }
    [[noreturn]] void die(const std::string &m) { fail(m + " | history:" + log); }
    void verify(const std::string &what) { ++c.evals; if (!bad.empty()) die(what + ": " + bad); }

    int addChannel(const AnyCredentials &a = AnyCredentials()) { chans.push_back(channel(a)); return int(chans.size()) - 1; }
    int addClient(int chan) {
        auto k = std::make_unique<Cl>();
        k->type = int(s.draw(2));
        k->p = k->type ? static_cast<QAbstractGrpcClient *>(new BetaClient) : new AlphaClient;
        k->chan = chan;
        k->used.push_back(chan);
        k->p->attachChannel(chans[size_t(chan)]);
        Cl *raw = k.get();
        QObject::connect(k->p, &QAbstractGrpcClient::error, ctx, [raw](const QGrpcStatus &x) { raw->errs.push_back({int(x.code()), x.message().toStdString()}); });
        cl.push_back(std::move(k));
        return int(cl.size()) - 1;
    }
    // takes the newest unclaimed request, checks that it is the expected one
    size_t claim(int client, int method, const M &arg, const char *what) {
        int found = -1;
        for (size_t i = 0; i < fakenet::requests.size(); ++i) if (fakenet::requests[i].taken < 0) { if (found >= 0) die(std::string(what) + " made more than one request"); found = int(i); }
        if (found < 0) die(std::string(what) + " made no request");
        FakeRequest &r = fakenet::requests[size_t(found)];
        r.taken = 1;
        QString path = QString("/") + (cl[size_t(client)]->type ? "vp.rpc.Beta" : "vp.rpc.Alpha") + "/" + methodName(cl[size_t(client)]->type, method);
        if (r.request.url().path() != path) die(std::string(what) + " went to " + r.request.url().path().toStdString() + " instead of " + path.toStdString());
        std::string b(r.body.constData(), size_t(r.body.size()));
        M m;
        if (b.size() < 5 || b != frame(b.substr(5)) || !dec(b.substr(5), m) || m != arg) die(std::string(what) + " sent a wrong argument " + hex(b.substr(0, 60)) + " for " + ::show(arg));
        return size_t(found);
    }
    FakeReply *net(size_t rq) { return fakenet::requests[rq].reply.data(); }

    // ---- unary
    int startCall(int client, int style) {
        auto k = std::make_unique<Call>();
        Call *raw = k.get();
        k->id = int(calls.size());
        k->client = client;
        k->style = style;
        k->req = genM(s);
        k->method = cl[size_t(client)]->type ? 0 : int(s.draw(2));
        Req arg;
        toQt(k->req, arg);
        auto *p = cl[size_t(client)]->p;
        auto token = std::make_shared<int>(0);
        raw->token = token;
        auto done = [this, raw, token](QGrpcCallReply *r) {
            if (closing) return;
            ++raw->fin;
            raw->got = fromQt(r->read<Resp>());
            onEvent();
        };
        auto failed = [this, raw, token](const QGrpcStatus &x) {
            if (closing) return;
            ++raw->err;
            raw->gotCode = int(x.code());
            raw->gotText = x.message().toStdString();
            onEvent();
        };
        calls.push_back(std::move(k));
        if (style == 2) {
            auto cb = [done](QGrpcCallReplyShared r) { done(r.get()); };
            if (cl[size_t(client)]->type) static_cast<BetaClient *>(p)->unaryOne(arg, ctx, cb);
            else if (raw->method) static_cast<AlphaClient *>(p)->unaryTwo(arg, ctx, cb);
            else static_cast<AlphaClient *>(p)->unaryOne(arg, ctx, cb);
        } else {
            QGrpcCallReplyShared h = cl[size_t(client)]->type ? static_cast<BetaClient *>(p)->unaryOne(arg) : raw->method ? static_cast<AlphaClient *>(p)->unaryTwo(arg) : static_cast<AlphaClient *>(p)->unaryOne(arg);
            if (!h) die("call gave no reply object");
            QGrpcCallReply *r = h.get();
            if (style == 0) {
                h->subscribe(ctx, [done, r] { done(r); }, failed);
            } else {
                QObject::connect(r, &QGrpcCallReply::finished, ctx, [done, r] { done(r); });
                QObject::connect(r, &QGrpcCallReply::error, ctx, failed);
            }
            raw->h = h;
        }
        raw->start = fakenet::time();
        raw->rq = claim(client, raw->method, raw->req, "call");
        log += " call" + std::to_string(raw->id) + "(client" + std::to_string(client) + ")";
        return raw->id;
    }
    void sendChunks(size_t rq, const std::string &bytes) {
        size_t p = 0;
        int mode = int(s.draw(5));
        while (p < bytes.size()) {
            size_t n;
            switch (mode) {
            case 0: n = bytes.size(); break;
            case 1: n = bytes.size() < 80 ? 1 : 1 + s.draw(bytes.size()); break;
            case 2: n = 1 + s.draw(7); if (bytes.size() > 400) n *= 1 + bytes.size() / 100; break;
            default: n = 1 + s.draw(bytes.size()); break;
            }
            n = std::min(n, bytes.size() - p);
            QPointer<FakeReply> r = net(rq);
            if (!r || !r->push(q(bytes.substr(p, n)), mode != 4 || p + n == bytes.size())) return;
            if (mode >= 3 && s.chance(1, 3)) fakenet::pump();
            p += n;
        }
    }
    void answer(Call &k, int how) {
        size_t rq = k.rq;
        if (!net(rq)) { flag("the request of call " + std::to_string(k.id) + " was given up"); return; }
        if (how == 0) {
            k.state = OK;
            k.resp = genM(s);
            log += " answer" + std::to_string(k.id);
            sendChunks(rq, frame(enc(k.resp)));
            if (net(rq)) net(rq)->finish(trailers(0, ""));
        } else if (how == 1) {
            k.state = FAILED;
            k.code = 1 + int(s.draw(16));
            k.text = genText(s, 10);
            log += " status" + std::to_string(k.id) + "=" + std::to_string(k.code);
            ++cl[size_t(k.client)]->expErr;
            if (s.chance(1, 4)) sendChunks(rq, frame(enc(genM(s))));
            if (net(rq)) net(rq)->finish(trailers(k.code, k.text));
        } else {
            k.state = FAILED;
            k.code = -1;
            log += " break" + std::to_string(k.id);
            ++cl[size_t(k.client)]->expErr;
            if (s.chance(1, 3)) sendChunks(rq, frame(enc(genM(s))));
            if (net(rq)) net(rq)->breakdown(netErrors()[s.draw(netErrors().size())], "broken");
        }
        ++completed;
    }
    void abortCall(Call &k) {
        if (!k.h || k.state != PENDING) return;
        k.state = ABORTED;
        k.code = int(QGrpcStatus::Aborted);
        ++cl[size_t(k.client)]->expErr;
        log += " abort" + std::to_string(k.id);
        k.h->abort();
        ++interesting;
    }
    void checkCalls(const std::string &what) {
        for (auto &u : calls) {
            Call &k = *u;
            ++c.evals;
            std::string n = "call " + std::to_string(k.id);
            int wantFin = k.state == OK ? 1 : 0, wantErr = (k.state == FAILED || k.state == ABORTED) ? 1 : 0;
            if (k.style == 2) wantErr = 0;
            if (k.fin != wantFin) die(what + ": " + n + " reported completion " + std::to_string(k.fin) + " times instead of " + std::to_string(wantFin));
            if (k.err != wantErr) die(what + ": " + n + " reported an error " + std::to_string(k.err) + " times instead of " + std::to_string(wantErr));
            if (wantFin && k.got != k.resp) die(what + ": " + n + " got " + ::show(k.got) + " instead of " + ::show(k.resp));
            if (wantErr) {
                if (k.code >= 0 && k.gotCode != k.code) die(what + ": " + n + " got status " + std::to_string(k.gotCode) + " instead of " + std::to_string(k.code));
                if (k.code < 0 && k.gotCode == 0) die(what + ": " + n + " failed with status OK");
                if (k.state == FAILED && k.code >= 0 && k.gotText != k.text) die(what + ": " + n + " got status message \"" + k.gotText + "\" instead of \"" + k.text + "\"");
            }
        }
        for (size_t i = 0; i < cl.size(); ++i)
            if (cl[i]->alive && int(cl[i]->errs.size()) != cl[i]->expErr) die(what + ": client " + std::to_string(i) + " signalled " + std::to_string(cl[i]->errs.size()) + " errors instead of " + std::to_string(cl[i]->expErr));
    }
    // blocking call; other operations are answered while it waits
    void blocking(int client) {
        M req = genM(s);
        int type = cl[size_t(client)]->type, method = type ? 0 : int(s.draw(2));
        Req arg;
        toQt(req, arg);
        Resp ret;
        toQt(genM(s), ret);
        int how = int(s.weighted({4, 2, 1}));
        M resp = genM(s);
        int code = 1 + int(s.draw(16));
        std::string text = genText(s, 8);
        auto err = netErrors()[s.draw(netErrors().size())];
        int others = int(s.draw(3));
        log += " blocking(client" + std::to_string(client) + ")" + std::to_string(how);
        std::string inner;
        QMetaObject::invokeMethod(ctx, [&] {
            try {
                size_t rq = claim(client, method, req, "blocking call");
                for (int i = 0; i < others; ++i) if (!answerSome()) break;
                if (how == 0) { sendChunks(rq, frame(enc(resp))); if (net(rq)) net(rq)->finish(trailers(0, "")); }
                else if (how == 1) { if (net(rq)) net(rq)->finish(trailers(code, text)); }
                else if (net(rq)) net(rq)->breakdown(err, "broken");
            } catch (const Fail &f) {
                inner = f.msg;
                for (auto &r : fakenet::requests) if (r.reply && !r.reply->done() && r.taken < 0) r.reply->abort();
                fprintf(stderr, "%s\n", inner.c_str());
            }
        }, Qt::QueuedConnection);
        QPointer<Resp> pr(&ret);
        auto *p = cl[size_t(client)]->p;
        if (how) ++cl[size_t(client)]->expErr;
        QGrpcStatus x = type ? static_cast<BetaClient *>(p)->unaryOne(arg, pr) : method ? static_cast<AlphaClient *>(p)->unaryTwo(arg, pr) : static_cast<AlphaClient *>(p)->unaryOne(arg, pr);
        if (!inner.empty()) fail(inner);
        ++c.evals;
        if (how == 0) {
            if (x != QGrpcStatus::Ok) die("blocking call failed with " + std::to_string(int(x.code())) + " although the server answered");
            if (fromQt(ret) != resp) die("blocking call returned " + ::show(fromQt(ret)) + " instead of " + ::show(resp));
        } else if (how == 1) {
            if (int(x.code()) != code || x.message().toStdString() != text) die("blocking call returned status " + std::to_string(int(x.code())) + " \"" + x.message().toStdString() + "\" instead of " + std::to_string(code) + " \"" + text + "\"");
        } else if (x == QGrpcStatus::Ok) die("blocking call over a broken connection succeeded");
        ++completed;
    }
    bool answerSome() {
        std::vector<int> p;
        for (auto &k : calls) if (k->state == PENDING) p.push_back(k->id);
        if (p.empty()) return false;
        answer(*calls[size_t(p[s.draw(p.size())])], int(s.weighted({5, 2, 1})));
        return true;
    }

    // ---- streams
    Strm *findStream(int client, int method, const M &arg) {
        for (auto &x : st) if (x->active && x->client == client && x->method == method && x->arg == arg) return x.get();
        return nullptr;
    }
    Sub *subscribe(int client, const std::vector<M> &args, int fixedMethod = 0) {
        int type = cl[size_t(client)]->type, method = fixedMethod ? fixedMethod : type ? 2 : 2 + int(s.draw(2));
        M a = args[s.draw(args.size())];
        Req arg;
        toQt(a, arg);
        auto u = std::make_unique<Sub>();
        Sub *b = u.get();
        b->id = int(subs.size());
        Strm *e = findStream(client, method, a);
        bool withRet = s.chance(1, 2);
        auto *p = cl[size_t(client)]->p;
        QGrpcStreamShared h;
        if (withRet) {
            b->ret = std::make_unique<Resp>();
            QPointer<Resp> r(b->ret.get());
            h = type ? static_cast<BetaClient *>(p)->streamStreamOne(arg, r) : method == 3 ? static_cast<AlphaClient *>(p)->streamStreamTwo(arg, r) : static_cast<AlphaClient *>(p)->streamStreamOne(arg, r);
        } else {
            h = type ? static_cast<BetaClient *>(p)->streamStreamOne(arg) : method == 3 ? static_cast<AlphaClient *>(p)->streamStreamTwo(arg) : static_cast<AlphaClient *>(p)->streamStreamOne(arg);
        }
        if (!h) die("subscription gave no stream object");
        log += " subscribe" + std::to_string(b->id) + "(client" + std::to_string(client) + "," + methodName(type, method).toStdString() + ",arg" + std::to_string(a.n) + (withRet ? ",ret)" : ")");
        if (e) {
            for (auto &r : fakenet::requests) if (r.taken < 0) die("subscribing again with the same method and argument opened another request");
            if (h.get() != e->identity) die("subscribing again with the same method and argument gave another stream");
            ++interesting;
        } else {
            auto n = std::make_unique<Strm>();
            n->id = int(st.size());
            n->client = client;
            n->method = method;
            n->arg = a;
            n->identity = h.get();
            for (auto &o : st) if (o->active && o->identity == n->identity && cl[size_t(o->client)]->alive) die("different streams share one stream object");
            n->rq = claim(client, method, a, "stream");
            e = n.get();
            st.push_back(std::move(n));
        }
        b->st = e;
        b->h = h;
        b->from = e->delivered.size();
        b->fin0 = e->fins;
        b->err0 = e->errs;
        b->action = reentrant ? int(s.draw(6)) : 0;
        QGrpcStream *raw = h.get();
        auto token = std::make_shared<int>(0);
        b->token = token;
        QObject::connect(raw, &QGrpcStream::messageReceived, ctx, [this, b, raw, token] {
            if (closing) return;
            b->got.push_back(fromQt(b->ret ? *b->ret : raw->read<Resp>()));
            if (b->action == 5 && b->h && b->st->active && b->st->limit < 0) {       // give up the stream from inside its handler
                b->st->limit = int(b->from + b->got.size());
                log += " (abort-in-handler" + std::to_string(b->id) + ")";
                abortStream(*b->st, b->h);
            } else if (b->action == 4 && b->h) {
                b->action = 0;
                b->h.reset();
                log += " (drop-in-handler)";
            } else if (b->action == 3) onEvent();
            else if (b->action == 2) again(b, b->from + b->got.size() - 1);
        });
        if (b->ret && b->action == 1) QObject::connect(b->ret.get(), &Resp::nChanged, ctx, [this, b] { if (!closing && b->action == 1) again(b, b->from + b->got.size()); });
        QObject::connect(raw, &QGrpcStream::finished, ctx, [this, b] { if (!closing) ++b->fin; });
        QObject::connect(raw, &QGrpcStream::error, ctx, [this, b](const QGrpcStatus &) { if (!closing) ++b->err; });
        subs.push_back(std::move(u));
        return b;
    }
    // subscribes once more to the same stream while it delivers message number `at`
    void again(Sub *b, size_t at) {
        b->action = 0;
        if (!b->st->active || !cl[size_t(b->st->client)]->alive || subs.size() > 16) return;
        log += " (in handler:";
        try {
            Sub *n = subscribe(b->st->client, {b->st->arg}, b->st->method);
            n->from = at;
            n->mid = true;
            n->action = 0;
        } catch (const Fail &f) { flag(f.msg); }
        log += ")";
    }
    void abortStream(Strm &e, QGrpcStreamShared h) {
        e.active = false;
        ++e.fins;
        ++interesting;
        h->abort();
    }
    // server side of a stream
    void streamSend(Strm &e, int n) {
        for (int i = 0; i < n; ++i) {
            M m = genM(s);
            e.outbox += frame(enc(m));
            e.queue.push_back({e.outbox.size(), m});
        }
    }
    void streamPush(Strm &e, size_t bytes) {
        bytes = std::min(bytes, e.outbox.size() - e.outPos);
        if (!bytes) return;
        std::string part = e.outbox.substr(e.outPos, bytes);
        e.outPos += bytes;
        std::vector<M> now;
        while (!e.queue.empty() && e.queue.front().first <= e.outPos) { now.push_back(e.queue.front().second); e.queue.erase(e.queue.begin()); }
        QPointer<FakeReply> r = net(e.rq);
        if (!r) { flag("the request of an active stream was given up"); return; }
        size_t before = e.delivered.size();
        for (auto &m : now) e.delivered.push_back(m);       // what the handlers have to see by the time push returns
        (void)before;
        r->push(q(part));
        if (!e.active && e.limit >= 0 && e.delivered.size() > size_t(e.limit)) e.delivered.resize(size_t(e.limit));
    }
    void newRequest(Strm &e, const char *what) {
        e.rq = claim(e.client, e.method, e.arg, what);
        e.outbox.clear();
        e.outPos = 0;
        e.queue.clear();
    }
    void streamEnd(Strm &e, int how) {
        if (!net(e.rq)) { flag("the request of an active stream was given up"); return; }
        if (how == 0) {
            streamPush(e, e.outbox.size());
            if (!e.active) return;
            log += " end" + std::to_string(e.id);
            e.active = false;
            ++e.fins;
            net(e.rq)->finish(trailers(0, ""));
        } else if (how == 1) {
            log += " streamstatus" + std::to_string(e.id);
            ++e.errs;
            ++cl[size_t(e.client)]->expErr;
            e.errorState = ++errSeq;
            net(e.rq)->finish(trailers(1 + int(s.draw(16)), genText(s, 6)));
        } else if (how == 2) {
            log += " streambreak" + std::to_string(e.id);
            QNetworkReply::NetworkError x = netErrors()[s.draw(netErrors().size())];
            if (x == QNetworkReply::RemoteHostClosedError) x = QNetworkReply::TimeoutError;
            ++e.errs;
            ++cl[size_t(e.client)]->expErr;
            e.errorState = ++errSeq;
            net(e.rq)->breakdown(x, "broken");
        } else {
            log += " streamclosed" + std::to_string(e.id);
            net(e.rq)->breakdown(QNetworkReply::RemoteHostClosedError, "closed");
            if (e.active) newRequest(e, "reconnect after the server closed the connection");
        }
        ++interesting;
    }
    void clock(qint64 ms) {
        log += " +" + std::to_string(ms) + "ms";
        // a call that is not answered in time fails
        std::vector<Call *> late;
        for (auto &k : calls) if (k->state == PENDING && cl[size_t(k->client)]->alive && k->start + 6000 <= fakenet::time() + ms) late.push_back(k.get());
        for (auto *k : late) { k->state = FAILED; k->code = -1; ++cl[size_t(k->client)]->expErr; ++completed; }
        fakenet::advance(ms);
        // whoever waited for its reconnection has a new request now; nobody else may have one
        std::vector<Strm *> order;
        for (auto &e : st) order.push_back(e.get());
        std::sort(order.begin(), order.end(), [](Strm *x, Strm *y) { return x->errorState < y->errorState; });
        for (auto *e : order) {
            if (!e->errorState || ms < 1000) continue;
            bool alive = cl[size_t(e->client)]->alive;
            e->errorState = 0;
            if (!e->active || !alive) continue;
            int found = -1;
            for (size_t i = 0; i < fakenet::requests.size(); ++i) {
                FakeRequest &r = fakenet::requests[i];
                M m;
                std::string b(r.body.constData(), size_t(r.body.size()));
                if (r.taken < 0 && b.size() >= 5 && dec(b.substr(5), m) && m == e->arg &&
                    r.request.url().path() == QString("/") + (cl[size_t(e->client)]->type ? "vp.rpc.Beta" : "vp.rpc.Alpha") + "/" + methodName(0, e->method)) { found = int(i); break; }
            }
            if (found < 0) die("a stream that failed was not opened again after a second");
            fakenet::requests[size_t(found)].taken = 1;
            e->rq = size_t(found);
            e->outbox.clear();
            e->outPos = 0;
            e->queue.clear();
        }
        for (auto &r : fakenet::requests) if (r.taken < 0) die("a stream that was given up was opened again: " + r.request.url().path().toStdString());
    }
    void checkStreams(const std::string &what) {
        for (auto &u : subs) {
            Sub &b = *u;
            Strm &e = *b.st;
            ++c.evals;
            std::string n = "subscriber " + std::to_string(b.id);
            std::vector<M> want(e.delivered.begin() + long(std::min(b.from, e.delivered.size())), e.delivered.end());
            std::vector<M> got = b.got;
            if (b.mid && !want.empty()) {       // the message at hand when it subscribed
                if (got.size() == want.size()) got.erase(got.begin());
                want.erase(want.begin());
            }
            // a message during whose delivery another subscriber gave up the stream may or may not reach the rest
            if (e.limit >= 0 && got.size() + 1 == want.size()) want.pop_back();
            if (got.size() != want.size()) die(what + ": " + n + " got " + std::to_string(got.size()) + " messages instead of " + std::to_string(want.size()));
            for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) die(what + ": " + n + " message " + std::to_string(i) + " is " + ::show(got[i]) + " instead of " + ::show(want[i]));
            if (b.fin != e.fins - b.fin0) die(what + ": " + n + " was told " + std::to_string(b.fin) + " times that the stream finished instead of " + std::to_string(e.fins - b.fin0));
            if (b.err != e.errs - b.err0) die(what + ": " + n + " was told of " + std::to_string(b.err) + " errors instead of " + std::to_string(e.errs - b.err0));
        }
        for (size_t i = 0; i < cl.size(); ++i)
            if (cl[i]->alive && int(cl[i]->errs.size()) != cl[i]->expErr) die(what + ": client " + std::to_string(i) + " signalled " + std::to_string(cl[i]->errs.size()) + " errors instead of " + std::to_string(cl[i]->expErr));
    }
    // something the application may do from inside a handler
    void onEvent() {
        if (!reentrant || closing) return;
        switch (s.draw(8)) {
        case 1: {
            std::vector<Call *> p;
            for (auto &k : calls) if (k->h && k->state == PENDING) p.push_back(k.get());
            if (!p.empty()) { log += " (in handler:"; abortCall(*p[s.draw(p.size())]); log += ")"; }
            break;
        }
        case 2: {
            std::vector<Call *> p;
            for (auto &k : calls) if (k->h) p.push_back(k.get());
            if (!p.empty()) { Call *k = p[s.draw(p.size())]; log += " (in handler: drop" + std::to_string(k->id) + ")"; k->h.reset(); }
            break;
        }
        case 3: {
            std::vector<int> a;
            for (size_t i = 0; i < cl.size(); ++i) if (cl[i]->alive) a.push_back(int(i));
            if (!a.empty() && calls.size() < 40) {
                log += " (in handler:";
                try { startCall(a[s.draw(a.size())], int(s.draw(3))); } catch (const Fail &f) { flag(f.msg); }
                log += ")";
            }
            break;
        }
        default: break;
        }
    }
    int aliveClient() {
        std::vector<int> a;
        for (size_t i = 0; i < cl.size(); ++i) if (cl[i]->alive) a.push_back(int(i));
        return a.empty() ? -1 : a[s.draw(a.size())];
    }
};

static void finishCase(Ctx &c, World &w) {
    c.describe = w.log;
    c.hash = hashStr(w.log);
    for (auto &k : w.calls) { c.hash = hashStr(enc(k->req), c.hash); c.hash = hashStr(enc(k->resp), c.hash); }
    for (auto &e : w.st) for (auto &m : e->delivered) c.hash = hashStr(enc(m), c.hash);
}

// ---------------------------------------------------------------- P21
static void p21(Ctx &c) {
    Src &s = c.src;
    World w(c);
    int nch = 1 + int(s.draw(2)), ncl = 1 + int(s.draw(3));
    for (int i = 0; i < nch; ++i) w.addChannel();
    for (int i = 0; i < ncl; ++i) w.addClient(int(s.draw(uint64_t(nch))));
    int steps = 2 + int(s.draw(20)), overlap = 0;
    for (int k = 0; k < steps; ++k) {
        int pend = 0;
        for (auto &x : w.calls) pend += x->state == PENDING;
        overlap = std::max(overlap, pend);
        switch (s.draw(9)) {
        case 0: case 1: case 2: w.startCall(int(s.draw(w.cl.size())), int(s.draw(3))); break;
        case 3: case 4: w.answerSome(); break;
        case 5: if (s.chance(1, 2)) w.blocking(int(s.draw(w.cl.size()))); break;
        case 6: {       // the application forgets the handle
            if (w.calls.empty()) break;
            auto &x = *w.calls[s.draw(w.calls.size())];
            if (x.h) { x.h.reset(); w.log += " drop" + std::to_string(x.id); }
            break;
        }
        case 7: if (s.chance(1, 4)) { w.clock(s.chance(1, 2) ? 3000 : 6000); break; }
            // fall through
        default: fakenet::pump(); w.log += " ."; break;
        }
        w.verify("step");
        w.checkCalls("after a step");
    }
    while (w.answerSome()) { w.verify("end"); if (s.chance(1, 2)) fakenet::pump(); }
    fakenet::pump();
    w.checkCalls("at the end");
    for (auto &x : w.calls) if (x->h && x->state == OK && fromQt(x->h->read<Resp>()) != x->resp) w.die("the kept reply of call " + std::to_string(x->id) + " gives another value");
    finishCase(c, w);
    c.label(overlap >= 2 ? "overlapping calls" : "no overlap");
    c.nontrivial = overlap >= 2 && w.completed >= 2;
}
static Reg r21({"P21", "at least two calls in flight at once and at least two completed", p21, 30, init, {}, {}});

// ---------------------------------------------------------------- P22
static std::vector<M> argPool(Src &s) {
    std::vector<M> a(2 + s.draw(2));
    for (size_t i = 0; i < a.size(); ++i) a[i].n = int32_t(i);
    a.back().s = "x";
    return a;
}
static void streamStep(World &w, Src &s, const std::vector<M> &args, bool faults) {
    std::vector<Strm *> act, run;
    for (auto &e : w.st) if (e->active && w.cl[size_t(e->client)]->alive) { act.push_back(e.get()); if (!e->errorState) run.push_back(e.get()); }
    switch (s.draw(10)) {
    case 0: case 1: { int k = w.aliveClient(); if (k >= 0 && w.subs.size() < 14) w.subscribe(k, args); break; }
    case 2: case 3: case 4:
        if (!run.empty()) {
            Strm &e = *run[s.draw(run.size())];
            int n = 1 + int(s.draw(3));
            w.streamSend(e, n);
            size_t rest = e.outbox.size() - e.outPos;
            w.log += " send" + std::to_string(e.id) + "x" + std::to_string(n);
            w.streamPush(e, s.chance(1, 2) ? rest : 1 + s.draw(rest));
        }
        break;
    case 5:
        if (!run.empty()) { Strm &e = *run[s.draw(run.size())]; size_t rest = e.outbox.size() - e.outPos; if (rest) { w.log += " more" + std::to_string(e.id); w.streamPush(e, 1 + s.draw(rest)); } }
        break;
    case 6:
        if (!run.empty() && faults) w.streamEnd(*run[s.draw(run.size())], int(s.draw(4)));
        break;
    case 7: {
        std::vector<Sub *> l;
        for (auto &b : w.subs) if (b->h && b->st->active && w.cl[size_t(b->st->client)]->alive) l.push_back(b.get());
        if (!l.empty() && s.chance(1, 2)) { Sub *b = l[s.draw(l.size())]; w.log += " cancel" + std::to_string(b->id); w.abortStream(*b->st, b->h); }
        break;
    }
    case 8:
        if (faults && s.chance(1, 2)) w.clock(s.chance(1, 2) ? 1000 : 5000);
        else fakenet::pump();
        break;
    default: {
        std::vector<Sub *> l;
        for (auto &b : w.subs) if (b->h) l.push_back(b.get());
        if (!l.empty()) { Sub *b = l[s.draw(l.size())]; w.log += " drop" + std::to_string(b->id); b->h.reset(); }
    }
    }
}
static void p22(Ctx &c) {
    Src &s = c.src;
    World w(c);
    int nch = 1 + int(s.draw(2)), ncl = 1 + int(s.draw(2));
    for (int i = 0; i < nch; ++i) w.addChannel();
    for (int i = 0; i < ncl; ++i) w.addClient(int(s.draw(uint64_t(nch))));
    auto args = argPool(s);
    int steps = 4 + int(s.draw(24));
    for (int k = 0; k < steps; ++k) {
        streamStep(w, s, args, true);
        w.verify("step");
        w.checkStreams("after a step");
    }
    w.clock(1000);
    for (auto &e : w.st) if (e->active) { w.streamSend(*e, 1); w.streamPush(*e, e->outbox.size()); }
    fakenet::pump();
    w.verify("end");
    w.checkStreams("at the end");
    finishCase(c, w);
    size_t msgs = 0;
    for (auto &b : w.subs) msgs += b->got.size();
    c.label(w.interesting ? "sharing/ending/cancelling" : "plain");
    c.nontrivial = msgs >= 2 && w.interesting > 0;
}
static Reg r22({"P22", "at least two messages received and a stream shared, ended, broken or cancelled", p22, 30, init, {}, {}});

// ---------------------------------------------------------------- P23
static void p23(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.addChannel();
    w.addClient(0);
    bool unary = s.chance(1, 4);
    if (unary) {
        int id = w.startCall(0, int(s.draw(3)));
        Call &k = *w.calls[size_t(id)];
        k.state = OK;
        k.resp = genM(s, true);
        std::string b = frame(enc(k.resp));
        w.log += " " + show(k.resp);
        w.sendChunks(k.rq, b);
        if (!w.net(k.rq)) w.die("request given up");
        w.net(k.rq)->finish(trailers(0, ""));
        w.checkCalls("unary");
        finishCase(c, w);
        c.label("unary");
        c.nontrivial = b.size() > 5;
        return;
    }
    M a;
    Sub *b = w.subscribe(0, {a});
    Strm &e = *b->st;
    int n = 1 + int(s.draw(6));
    std::string all;
    std::vector<size_t> ends;
    std::vector<M> msgs;
    for (int i = 0; i < n; ++i) {
        M m = genM(s, n < 4);
        msgs.push_back(m);
        all += frame(enc(m));
        ends.push_back(all.size());
        w.log += " " + show(m);
    }
    // cut points: anywhere, preferably around the length prefixes
    std::vector<size_t> cuts;
    int mode = int(s.draw(6));
    if (mode == 0 && all.size() < 300) for (size_t i = 1; i < all.size(); ++i) cuts.push_back(i);
    else if (mode == 1) { size_t st = 1 + s.draw(8); if (all.size() / st > 300) st = all.size() / 300 + 1; for (size_t i = st; i < all.size(); i += st) cuts.push_back(i); }
    else if (mode >= 2) {
        int k = int(s.draw(8));
        for (int i = 0; i < k; ++i) cuts.push_back(1 + s.draw(all.size()));
        for (size_t p : ends) if (s.chance(1, 2)) cuts.push_back(p + s.draw(12) > 6 ? p + s.draw(12) - 6 : 1);
        for (int j = 0; j < 6; ++j) if (s.chance(1, 4)) cuts.push_back(size_t(j));
    }
    cuts.push_back(all.size());
    std::sort(cuts.begin(), cuts.end());
    size_t pos = 0;
    w.log += " |";
    size_t splitPrefix = 0;
    for (size_t p : cuts) {
        if (p <= pos || p > all.size()) continue;
        for (size_t j = 0; j < ends.size(); ++j) { size_t st = j ? ends[j - 1] : 0; if (p > st && p < st + 5) ++splitPrefix; }
        bool silent = s.chance(1, 8) && p != all.size();
        if (!w.net(e.rq)) w.die("request given up");
        if (cuts.size() < 60) w.log += " " + std::to_string(p - pos) + (silent ? "~" : "");
        w.net(e.rq)->push(q(all.substr(pos, p - pos)), !silent);
        pos = p;
        e.delivered.clear();
        if (!silent) {
            for (size_t j = 0; j < ends.size(); ++j) if (ends[j] <= pos) e.delivered.push_back(msgs[j]);
            w.checkStreams("after " + std::to_string(pos) + " of " + std::to_string(all.size()) + " bytes");
        }
        if (s.chance(1, 5)) fakenet::pump();
    }
    e.delivered = msgs;
    if (s.chance(1, 6)) {       // the announced rest never comes, whatever its size
        std::string tail(1, '\0');
        int kind = int(s.draw(4));
        uint32_t len = kind == 0 ? 0xffffffffu : kind == 1 ? 0x80000000u : kind == 2 ? 0x7fffffffu - uint32_t(s.draw(8)) : uint32_t(1 + s.draw(0xfffffffeull));
        for (int sh = 24; sh >= 0; sh -= 8) tail += char((len >> sh) & 255);
        size_t more = s.draw(40);
        if (more >= len) more = len - 1;
        tail += std::string(more, char(s.draw(256)));
        w.log += " +unfinished(" + std::to_string(len) + ")";
        if (!w.net(e.rq)) w.die("request given up");
        w.net(e.rq)->push(q(tail));
        w.checkStreams("after an unfinished message");
        c.label("unfinished message");
    }
    if (s.chance(1, 2)) { e.active = false; ++e.fins; if (w.net(e.rq)) w.net(e.rq)->finish(trailers(0, "")); }
    fakenet::pump();
    w.checkStreams("at the end");
    finishCase(c, w);
    c.label(splitPrefix ? "prefix split" : "stream");
    c.nontrivial = n > 1 && cuts.size() > 1;
}
static Reg r23({"P23", "several messages in several chunks, or a non-empty unary response", p23, 30, init, {}, {}});

// ---------------------------------------------------------------- P24
static void p24(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.addChannel();
    w.addClient(0);
    int what = int(s.draw(5));
    if (what == 4) {                    // the status object itself: a plain value
        std::vector<QGrpcStatus> v;
        std::vector<std::pair<int, std::string>> m;
        int n = 2 + int(s.draw(3));
        for (int i = 0; i < n; ++i) { int k = int(s.draw(17)); std::string t = genText(s, 6); v.emplace_back(QGrpcStatus::StatusCode(k), QString::fromStdString(t)); m.push_back({k, t}); }
        std::vector<bool> known(size_t(n), true);
        int steps = 1 + int(s.draw(8));
        for (int i = 0; i < steps; ++i) {
            size_t a = s.draw(uint64_t(n)), b = s.draw(uint64_t(n));
            switch (s.draw(4)) {
            case 0: if (known[b]) { v[a] = v[b]; m[a] = m[b]; known[a] = true; w.log += " copy"; } break;
            case 1: if (known[b] && a != b) { v[a] = std::move(v[b]); m[a] = m[b]; known[a] = true; known[b] = false; w.log += " move"; } break;
            case 2: { int k = int(s.draw(17)); std::string t = genText(s, 5); v[a] = QGrpcStatus(QGrpcStatus::StatusCode(k), QString::fromStdString(t)); m[a] = {k, t}; known[a] = true; w.log += " assign"; break; }
            default: if (known[a]) { QGrpcStatus x(v[a]); QGrpcStatus y(std::move(x)); v[b] = y; m[b] = m[a]; known[b] = true; w.log += " copy2"; }
            }
            for (size_t j = 0; j < size_t(n); ++j) {
                if (!known[j]) continue;
                ++c.evals;
                if (int(v[j].code()) != m[j].first || v[j].message().toStdString() != m[j].second) w.die("status object changed");
                if ((v[j] == QGrpcStatus::Ok) != (m[j].first == 0) || (v[j] != QGrpcStatus::Ok) == (m[j].first == 0)) w.die("status compares wrongly with Ok");
            }
        }
        c.label("status value");
        finishCase(c, w);
        c.nontrivial = true;
        return;
    }
    int code = int(s.draw(17));
    std::string text = genText(s, 20);
    if (s.chance(1, 6)) text += "%41 100% %";
    bool net = s.chance(1, 4);
    auto err = netErrors()[s.draw(netErrors().size())];
    w.log += (net ? " network error " + std::to_string(int(err)) : " status " + std::to_string(code) + " \"" + text + "\"");
    bool noStatus = !net && s.chance(1, 8);     // an answer that is no gRPC answer
    if (noStatus) { code = 2; text.clear(); w.log += " (no status)"; }
    auto end = [&] { return noStatus ? QList<QPair<QByteArray, QByteArray>>{} : trailers(code, text); };
    static const char *kinds[] = {"async", "blocking", "stream", "callback"};
    c.label(kinds[what]);
    if (what == 0 || what == 3) {
        int id = w.startCall(0, what == 3 ? 2 : int(s.draw(2)));
        Call &k = *w.calls[size_t(id)];
        if (net) { k.state = FAILED; k.code = -1; ++w.cl[0]->expErr; if (s.chance(1, 2)) w.sendChunks(k.rq, frame(enc(genM(s)))); w.net(k.rq)->breakdown(err, "x"); }
        else {
            if (s.chance(1, 2) || code == 0) { k.resp = genM(s); w.sendChunks(k.rq, frame(enc(k.resp))); }
            k.state = code ? FAILED : OK;
            k.code = noStatus ? -1 : code;
            k.text = text;
            if (code) ++w.cl[0]->expErr;
            w.net(k.rq)->finish(end());
        }
        fakenet::pump();
        w.checkCalls("status");
        for (auto &x : w.cl[0]->errs) if (!net && !noStatus && (x.first != code || x.second != text)) w.die("the client's error signal carries " + std::to_string(x.first) + " \"" + x.second + "\"");
        for (auto &x : w.cl[0]->errs) if ((net || noStatus) && x.first == 0) w.die("the client's error signal carries OK");
    } else if (what == 1) {
        Req arg;
        Resp ret;
        M resp = genM(s);
        bool garbage = s.chance(1, 5) && !net && code == 0;
        QMetaObject::invokeMethod(w.ctx, [&] {
            FakeReply *r = fakenet::requests.back().reply;
            if (net) { r->breakdown(err, "x"); return; }
            if (code == 0) r->push(q(frame(garbage ? std::string("\x12\xff\x01", 3) : enc(resp))));
            r->finish(end());
        }, Qt::QueuedConnection);
        QPointer<Resp> p(&ret);
        QGrpcStatus x = w.cl[0]->type ? static_cast<BetaClient *>(w.cl[0]->p)->unaryOne(arg, p) : static_cast<AlphaClient *>(w.cl[0]->p)->unaryOne(arg, p);
        ++c.evals;
        if (net || garbage || noStatus) { if (x == QGrpcStatus::Ok) w.die(garbage ? "undecodable response accepted as success" : noStatus ? "response without status accepted as success" : "network error reported as success"); }
        else {
            if (int(x.code()) != code) w.die("blocking call returned status " + std::to_string(int(x.code())));
            if (code && x.message().toStdString() != text) w.die("blocking call returned message \"" + x.message().toStdString() + "\" instead of \"" + text + "\"");
            if (!code && fromQt(ret) != resp) w.die("wrong response");
        }
        size_t wantErrs = net || garbage || code ? 1 : 0;
        if (w.cl[0]->errs.size() != wantErrs) w.die("client signalled " + std::to_string(w.cl[0]->errs.size()) + " errors instead of " + std::to_string(wantErrs));
        for (auto &e : w.cl[0]->errs) if (e.first != int(x.code()) || e.second != x.message().toStdString()) w.die("error signal differs from the returned status");
    } else {
        M a;
        Sub *b = w.subscribe(0, {a});
        int gotCode = -1;
        std::string gotText;
        QObject::connect(b->h.get(), &QGrpcStream::error, w.ctx, [&](const QGrpcStatus &x) { gotCode = int(x.code()); gotText = x.message().toStdString(); });
        w.streamSend(*b->st, int(s.draw(3)));
        w.streamPush(*b->st, b->st->outbox.size());
        if (net) {
            w.net(b->st->rq)->breakdown(err, "x");
            if (err != QNetworkReply::RemoteHostClosedError) { ++b->st->errs; ++w.cl[0]->expErr; b->st->errorState = ++w.errSeq; if (gotCode <= 0) w.die("stream over a broken connection reported " + std::to_string(gotCode)); }
            else w.newRequest(*b->st, "reconnect");
        } else {
            if (code) { ++b->st->errs; ++w.cl[0]->expErr; b->st->errorState = ++w.errSeq; } else { ++b->st->fins; b->st->active = false; }
            w.net(b->st->rq)->finish(end());
            if (noStatus && gotCode <= 0) w.die("stream ended without a status reported " + std::to_string(gotCode));
            if (code && !noStatus && (gotCode != code || gotText != text)) w.die("stream reported status " + std::to_string(gotCode) + " \"" + gotText + "\" instead of " + std::to_string(code) + " \"" + text + "\"");
        }
        w.checkStreams("status");
        QGrpcStreamShared keep = b->h;
        if (s.chance(1, 2)) fakenet::pump();
    }
    finishCase(c, w);
    c.nontrivial = net || code != 0;
}
static Reg r24({"P24", "non-zero status, transport failure, or a history of status objects", p24, 30, init, {}, {}});

// ---------------------------------------------------------------- P25
static void p25(Ctx &c) {
    Src &s = c.src;
    World w(c);
    int nch = 1 + int(s.draw(3));
    std::vector<std::vector<std::pair<std::string, QVariant>>> want;
    for (int i = 0; i < nch; ++i) {
        if (s.chance(1, 4)) {       // the ready-made credentials
            std::string u = genText(s, 8), p = genText(s, 8);
            w.chans.push_back(std::make_shared<QGrpcHttp2Channel>(QUrl("http://server.example:50051"), QGrpcUserPasswordCredentials<>(QString::fromStdString(u), QString::fromStdString(p)) | QGrpcInsecureChannelCredentials()));
            want.push_back({{"user-name", QString::fromStdString(u)}, {"user-password", QString::fromStdString(p)}});
            w.log += " user/password";
            continue;
        }
        AnyCredentials a;
        int n = int(s.draw(5));
        for (int j = 0; j < n; ++j) {
            std::string name = "x-";
            int l = int(s.draw(6));
            for (int k = 0; k < l; ++k) name += "abcdefghijklmnopqrstuvwxyz0123456789-_"[s.draw(38)];
            name += std::to_string(j);
            QVariant v;
            switch (s.draw(4)) {
            case 0: v = int(s.draw(1000)) - 500; break;
            case 1: v = QString(); break;
            default: v = QString::fromStdString(genText(s, 12));
            }
            a.kv->push_back({name, v});
        }
        want.push_back(*a.kv);
        w.addChannel(a);
        w.log += " channel(" + std::to_string(n) + ")";
    }
    int ncl = 1 + int(s.draw(3));
    for (int i = 0; i < ncl; ++i) w.addClient(int(s.draw(uint64_t(nch))));
    int steps = 1 + int(s.draw(8)), seen = 0;
    std::set<std::string> all;
    for (auto &l : want) for (auto &e : l) all.insert(e.first);
    for (int k = 0; k < steps; ++k) {
        int cl = int(s.draw(w.cl.size()));
        size_t n0 = fakenet::requests.size();
        switch (s.draw(4)) {
        case 0: w.subscribe(cl, argPool(s)); break;
        case 1: w.blocking(cl); break;
        default: w.startCall(cl, int(s.draw(3)));
        }
        for (size_t i = n0; i < fakenet::requests.size(); ++i) {
            auto &r = fakenet::requests[i].request;
            auto &l = want[size_t(w.cl[size_t(cl)]->chan)];
            std::set<std::string> mine;
            for (auto &e : l) {
                ++c.evals;
                ++seen;
                mine.insert(e.first);
                QByteArray h = r.rawHeader(q(e.first));
                if (!r.hasRawHeader(q(e.first))) { if (e.second.toString().isEmpty()) continue; w.die("request lacks the credential " + e.first); }
                if (h != e.second.toString().toUtf8()) w.die("credential " + e.first + " is sent as " + h.toStdString() + " instead of " + e.second.toString().toStdString());
            }
            for (auto &n : all) if (!mine.count(n) && r.hasRawHeader(q(n))) w.die("request carries the credential " + n + " of another channel");
        }
        if (s.chance(1, 2)) w.answerSome();
    }
    finishCase(c, w);
    for (auto &l : want) for (auto &e : l) c.hash = hashStr(e.first + "=" + e.second.toString().toStdString(), c.hash);
    c.label(nch > 1 ? "several channels" : "one channel");
    c.nontrivial = seen > 0;
}
static Reg r25({"P25", "at least one credential header checked on a request", p25, 30, init, {}, {}});

// ---------------------------------------------------------------- P26
static void p26(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.reentrant = s.chance(1, 2);
    int nch = 1 + int(s.draw(2)), ncl = 1 + int(s.draw(3));
    for (int i = 0; i < nch; ++i) w.addChannel();
    for (int i = 0; i < ncl; ++i) w.addClient(int(s.draw(uint64_t(nch))));
    auto args = argPool(s);
    int steps = 4 + int(s.draw(24));
    int killed = 0;
    for (int k = 0; k < steps; ++k) {
        int cl = w.aliveClient();
        switch (s.draw(9)) {
        case 0: case 1: if (cl >= 0 && w.calls.size() < 30) w.startCall(cl, int(s.draw(3))); break;
        case 2: w.answerSome(); break;
        case 3: {
            std::vector<Call *> p;
            for (auto &x : w.calls) if (x->h && x->state == PENDING) p.push_back(x.get());
            if (!p.empty() && !s.chance(1, 4)) { w.abortCall(*p[s.draw(p.size())]); ++killed; break; }
            // what is over already stays as it is
            std::vector<Call *> o;
            for (auto &x : w.calls) if (x->h && x->state != PENDING && x->state != GONE && w.cl[size_t(x->client)]->alive) o.push_back(x.get());
            if (!o.empty()) { auto *x = o[s.draw(o.size())]; w.log += " abort-done" + std::to_string(x->id); x->h->abort(); }
            std::vector<Sub *> u;
            for (auto &b : w.subs) if (b->h && !b->st->active && w.cl[size_t(b->st->client)]->alive) u.push_back(b.get());
            if (!u.empty()) { auto *b = u[s.draw(u.size())]; w.log += " cancel-done" + std::to_string(b->id); b->h->abort(); }
            break;
        }
        case 4: {
            if (w.calls.empty()) break;
            auto &x = *w.calls[s.draw(w.calls.size())];
            if (x.h) { x.h.reset(); w.log += " drop" + std::to_string(x.id); }
            break;
        }
        case 5:
            if (cl >= 0 && s.chance(1, 3)) {                 // delete a client with whatever it has in flight
                w.log += " delete-client" + std::to_string(cl);
                w.cl[size_t(cl)]->alive = false;
                for (auto &x : w.calls) if (x->client == cl && x->state == PENDING) { x->state = GONE; ++killed; }
                for (auto &e : w.st) if (e->client == cl && e->active) { e->active = false; ++killed; }
                if (s.chance(1, 2)) delete static_cast<QObject *>(w.cl[size_t(cl)]->p);
                else { w.cl[size_t(cl)]->p->deleteLater(); fakenet::pump(); }
                if (s.chance(1, 2)) for (auto &x : w.calls) if (x->client == cl) x->h.reset();
            } else if (cl >= 0 && s.chance(1, 3)) {          // another channel: streams are given up, calls go on
                int ch = int(s.draw(w.chans.size()));
                if (!w.chans[size_t(ch)]) break;
                // a pending call whose channel disappears is known finding K26a
                bool pending = false;
                for (auto &x : w.calls) pending = pending || (x->client == cl && x->state == PENDING);
                bool lost = false;
                for (int j : w.cl[size_t(cl)]->used) lost = lost || !w.chans[size_t(j)];
                if (pending && lost) break;
                w.log += " attach-channel" + std::to_string(cl);
                for (auto &e : w.st) if (e->client == cl && e->active) { e->active = false; ++e->fins; ++killed; }
                w.cl[size_t(cl)]->p->attachChannel(w.chans[size_t(ch)]);
                w.cl[size_t(cl)]->chan = ch;
                w.cl[size_t(cl)]->used.push_back(ch);
            }
            break;
        case 6:
            if (cl >= 0 && s.chance(1, 3)) w.blocking(cl);
            else if (s.chance(1, 4)) {                       // the application forgets a channel its clients use
                size_t i = s.draw(w.chans.size());
                bool left = false;
                for (auto &x : w.calls) {
                    auto &k = *w.cl[size_t(x->client)];
                    left = left || (x->state == PENDING && k.alive && k.chan != int(i) && std::count(k.used.begin(), k.used.end(), int(i)));
                }
                if (w.chans[i] && !left) { w.chans[i].reset(); w.log += " drop-channel" + std::to_string(i); }
            }
            break;
        default: streamStep(w, s, args, true); break;
        }
        w.verify("step");
        w.checkCalls("calls");
        w.checkStreams("streams");
        // late data of operations that were given up must have no effect
        if (s.chance(1, 5)) for (auto &x : w.calls) if ((x->state == ABORTED || x->state == GONE) && w.net(x->rq) && !w.net(x->rq)->done()) { w.log += " late" + std::to_string(x->id); w.net(x->rq)->push(q(frame(enc(genM(s))))); if (w.net(x->rq)) w.net(x->rq)->finish(trailers(0, "")); }
    }
    // everything still running completes
    while (w.answerSome()) w.verify("end");
    w.clock(1000);
    for (size_t i = 0; i < w.st.size(); ++i) if (w.st[i]->active && w.cl[size_t(w.st[i]->client)]->alive) { w.streamSend(*w.st[i], 1); w.streamPush(*w.st[i], w.st[i]->outbox.size()); }
    fakenet::pump();
    while (w.answerSome()) w.verify("end");
    fakenet::pump();
    w.verify("end");
    w.checkCalls("at the end");
    w.checkStreams("at the end");
    finishCase(c, w);
    c.label(w.reentrant ? "with handlers that act" : "plain");
    c.nontrivial = killed + w.interesting > 0;
}
static Reg r26({"P26", "something aborted, cancelled, deleted or broken while in flight", p26, 30, init, {}, {{"K26a", [] {
    fakenet::reset();
    auto a = channel(), b = channel();
    AlphaClient k;
    k.attachChannel(a);
    a.reset();
    auto h = k.unaryOne(Req());
    int done = 0;
    QObject::connect(h.get(), &QGrpcCallReply::finished, [&] { ++done; });
    QObject::connect(h.get(), &QGrpcCallReply::error, [&](const QGrpcStatus &) { ++done; });
    k.attachChannel(b);
    if (!fakenet::requests.empty() && fakenet::requests[0].reply) fakenet::requests[0].reply->finish(trailers(0, ""));
    fakenet::advance(60000);
    fakenet::pump();
    return std::string(done ? "" : "call never completes");
}}}});

// ---------------------------------------------------------------- P31
// what is over is released: handlers, reply and stream objects, exchanges with the server
static void leftovers(World &w, const char *what) {
    fakenet::pump();
    std::set<size_t> running;
    for (auto &x : w.calls) {
        ++w.c.evals;
        if (x->state == PENDING) running.insert(x->rq);
        else if (!x->h && !x->token.expired()) w.die(std::string(what) + ": the handlers of call " + std::to_string(x->id) + " are kept although it is over and its handle is gone");
    }
    for (auto &b : w.subs) {
        ++w.c.evals;
        bool held = false;
        for (auto &o : w.subs) held = held || (o->h && o->st == b->st);
        if (b->st->active && !b->st->errorState) running.insert(b->st->rq);
        if (!b->st->active && !held && !b->token.expired()) w.die(std::string(what) + ": the handlers of subscription " + std::to_string(b->id) + " are kept although its stream is over and all handles are gone");
    }
    for (size_t i = 0; i < fakenet::requests.size(); ++i)
        if (fakenet::requests[i].reply && !running.count(i)) w.die(std::string(what) + ": the exchange of request " + std::to_string(i) + " is kept although the operation is over");
}
static void p31(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.reentrant = s.chance(1, 4);
    int nch = 1 + int(s.draw(2)), ncl = 1 + int(s.draw(2));
    for (int i = 0; i < nch; ++i) w.addChannel();
    for (int i = 0; i < ncl; ++i) w.addClient(int(s.draw(uint64_t(nch))));
    auto args = argPool(s);
    int steps = 2 + int(s.draw(20));
    for (int k = 0; k < steps; ++k) {
        int cl = w.aliveClient();
        if (cl < 0) cl = w.addClient(int(s.draw(w.chans.size())));
        switch (s.draw(9)) {
        case 0: case 1: if (w.calls.size() < 30) w.startCall(cl, int(s.draw(3))); break;
        case 2: w.answerSome(); break;
        case 3: {
            std::vector<Call *> p;
            for (auto &x : w.calls) if (x->h && x->state == PENDING) p.push_back(x.get());
            if (!p.empty()) w.abortCall(*p[s.draw(p.size())]);
            break;
        }
        case 4: {
            if (w.calls.empty()) break;
            auto &x = *w.calls[s.draw(w.calls.size())];
            if (x.h) { x.h.reset(); w.log += " drop" + std::to_string(x.id); }
            break;
        }
        case 6:
            if (!s.chance(1, 4)) break;
            w.log += " delete-client" + std::to_string(cl);
            w.cl[size_t(cl)]->alive = false;
            ++w.interesting;
            for (auto &x : w.calls) if (x->client == cl && x->state == PENDING) x->state = GONE;
            for (auto &e : w.st) if (e->client == cl && e->active) e->active = false;
            delete static_cast<QObject *>(w.cl[size_t(cl)]->p);
            break;
        case 5: if (s.chance(1, 3)) w.blocking(cl); else leftovers(w, "step"); break;
        default: streamStep(w, s, args, true); break;
        }
        w.verify("step");
    }
    // some operations go on, the rest ends
    int keep = int(s.draw(3));
    auto pending = [&] { int n = 0; for (auto &x : w.calls) n += x->state == PENDING; return n; };
    while (pending() > keep && w.answerSome()) {}
    for (auto &b : w.subs) if (b->h && b->st->active && w.cl[size_t(b->st->client)]->alive && !s.chance(1, 4)) { w.log += " cancel" + std::to_string(b->id); w.abortStream(*b->st, b->h); }
    for (auto &x : w.calls) if (!s.chance(1, 8)) x->h.reset();
    for (auto &b : w.subs) if (!s.chance(1, 8)) b->h.reset();
    w.log += " drop-handles";
    leftovers(w, "at the end");
    for (auto &x : w.calls) x->h.reset();
    for (auto &b : w.subs) b->h.reset();
    leftovers(w, "at the very end");
    w.verify("end");
    w.checkCalls("at the end");
    w.checkStreams("at the end");
    finishCase(c, w);
    c.nontrivial = w.completed + w.interesting > 1;
}
static Reg r31({"P31", "at least two operations are over", p31, 30, init, {}, {}});

// ---------------------------------------------------------------- P32
// the server (or something pretending to be one) answers with whatever it likes
static std::string hostile(Src &s, std::string &what) {
    std::string pay = enc(genM(s));
    switch (s.draw(4)) {
    case 0: break;
    case 1: for (int i = 0, n = 1 + int(s.draw(3)); i < n && !pay.empty(); ++i) pay[s.draw(pay.size())] = char(s.draw(256)); what += "corrupted "; break;
    case 2: { pay.clear(); for (int i = 0, n = int(s.draw(12)); i < n; ++i) pay += char(s.draw(256)); what += "random "; break; }
    default: if (!pay.empty()) pay.resize(s.draw(pay.size())); what += "cut "; break;
    }
    return pay;
}
// what the message type makes of the payload
static bool understood(const std::string &pay, M &m) {
    auto ser = QtProtobuf::QProtobufSerializerRegistry::instance().getSerializer("protobuf");
    Resp r;
    try {
        r.deserialize(ser.get(), q(pay));
    } catch (const std::exception &) { return false; }
    m = fromQt(r);
    return true;
}
static void p32(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.addChannel();
    w.addClient(0);
    int others = int(s.draw(3));
    for (int i = 0; i < others; ++i) w.startCall(0, int(s.draw(3)));
    auto *p = w.cl[0]->p;
    int type = w.cl[0]->type, kind = int(s.draw(4));
    static const char *kinds[] = {"reply", "blocking", "callback", "stream"};
    c.label(kinds[kind]);
    std::string what;
    w.log += std::string(" ") + kinds[kind] + " ";
    size_t errs0 = 0;
    bool hard = false;
    if (kind < 3) {
        std::string pay = hostile(s, what), body = frame(pay);
        bool any = false;
        switch (s.draw(8)) {
        case 0: body.resize(s.draw(body.size())); what += "truncated "; break;
        case 1: for (int i = 0, n = 1 + int(s.draw(9)); i < n; ++i) body += char(s.draw(256)); what += "trailing bytes "; break;
        case 2: body[0] = char(1 + s.draw(255)); what += "compressed "; break;
        case 3: body[1 + s.draw(4)] ^= char(1 + s.draw(255)); what += "wrong length "; break;
        case 4: body += frame(enc(genM(s))); what += "two messages "; break;
        default: break;
        }
        if (body.empty()) any = true;            // status OK and no message at all: either is accepted
        bool framed = body.size() >= 5 && body == frame(body.substr(5));
        M want;
        bool good = framed && understood(body.substr(5), want);
        static const std::vector<std::string> codes = {"", "abc", "17", "99", "-1", "4294967296", "99999999999999999999", "0x0", "5 ", "13"};
        std::string code = s.chance(1, 5) ? codes[s.draw(codes.size())] : "0";
        bool ok = code == "0";
        QList<QPair<QByteArray, QByteArray>> tr;
        if (!code.empty()) tr.append({"grpc-status", q(code)});
        if (s.chance(1, 6)) { std::string t; for (int i = 0, n = int(s.draw(8)); i < n; ++i) t += char(s.chance(1, 2) ? '%' : char(33 + s.draw(94))); tr.append({"grpc-message", q(t)}); }
        w.log += what + "status '" + code + "' body " + hex(body.substr(0, 40));
        hard = !what.empty() || !ok;
        errs0 = w.cl[0]->errs.size();
        Req arg;
        int fin = 0, err = 0, errCode = -1;
        QGrpcStatus st{QGrpcStatus::Ok};
        M got;
        bool readFailed = false;
        auto send = [&](size_t rq) { w.sendChunks(rq, body); if (w.net(rq)) w.net(rq)->finish(tr); };
        auto read = [&](QGrpcCallReply *r) { ++fin; size_t n = w.cl[0]->errs.size(); got = fromQt(r->read<Resp>()); readFailed = w.cl[0]->errs.size() > n; };
        if (kind == 1) {
            Resp ret;
            QPointer<Resp> pr(&ret);
            QMetaObject::invokeMethod(w.ctx, [&] { send(w.claim(0, 0, M(), "call")); }, Qt::QueuedConnection);
            st = type ? static_cast<BetaClient *>(p)->unaryOne(arg, pr) : static_cast<AlphaClient *>(p)->unaryOne(arg, pr);
            got = fromQt(ret);
        } else if (kind == 2) {
            auto cb = [&](QGrpcCallReplyShared r) { read(r.get()); };
            if (type) static_cast<BetaClient *>(p)->unaryOne(arg, w.ctx, cb); else static_cast<AlphaClient *>(p)->unaryOne(arg, w.ctx, cb);
            send(w.claim(0, 0, M(), "call"));
        } else {
            QGrpcCallReplyShared h = type ? static_cast<BetaClient *>(p)->unaryOne(arg) : static_cast<AlphaClient *>(p)->unaryOne(arg);
            QGrpcCallReply *r = h.get();
            h->subscribe(w.ctx, [&, r] { read(r); }, [&](const QGrpcStatus &x) { ++err; errCode = int(x.code()); });
            send(w.claim(0, 0, M(), "call"));
        }
        fakenet::pump();
        size_t errs = w.cl[0]->errs.size() - errs0;
        for (size_t i = errs0; i < w.cl[0]->errs.size(); ++i) if (w.cl[0]->errs[i].first == 0) w.die("the client reports an error with code OK");
        ++c.evals;
        if (!ok || (!framed && !any)) {
            if (kind == 1 ? st == QGrpcStatus::Ok : fin != 0) w.die("a response that is no complete gRPC response is reported as success");
            if (kind == 0 && (err != 1 || errCode == 0)) w.die("the call reports its failure " + std::to_string(err) + " times, code " + std::to_string(errCode));
            if (errs != 1) w.die("the client reports " + std::to_string(errs) + " errors");
        } else if (!any) {
            if (kind == 1 ? (st == QGrpcStatus::Ok) != good : fin != 1 || err) w.die("completion is reported " + std::to_string(fin) + " times, errors " + std::to_string(err) + (kind == 1 ? ", status " + std::to_string(int(st.code())) : ""));
            if (good && got != want) w.die("got " + show(got) + " instead of " + show(want));
            if (kind != 1 && readFailed == good) w.die(good ? "reading a good response reports an error" : "reading an undecodable response reports no error");
            if (errs != (good ? 0u : 1u)) w.die("the client reports " + std::to_string(errs) + " errors");
        } else if (kind == 1 ? false : fin + (kind == 0 ? err : 0) > 1) w.die("completion is reported twice");
        w.cl[0]->expErr += int(errs);
    } else {
        M a;
        Req arg;
        Resp ret;
        bool withRet = s.chance(1, 2);
        QPointer<Resp> pr(&ret);
        QGrpcStreamShared h = type ? (withRet ? static_cast<BetaClient *>(p)->streamStreamOne(arg, pr) : static_cast<BetaClient *>(p)->streamStreamOne(arg))
                                   : (withRet ? static_cast<AlphaClient *>(p)->streamStreamOne(arg, pr) : static_cast<AlphaClient *>(p)->streamStreamOne(arg));
        size_t rq = w.claim(0, 2, a, "stream");
        std::vector<std::pair<M, bool>> got;
        size_t before = w.cl[0]->errs.size();
        int bad = 0;
        QObject::connect(h.get(), &QGrpcStream::messageReceived, w.ctx, [&] {
            M m = withRet ? fromQt(ret) : fromQt(h->read<Resp>());
            got.push_back({m, w.cl[0]->errs.size() > before});
            before = w.cl[0]->errs.size();
        });
        int ends = 0;
        QObject::connect(h.get(), &QGrpcStream::finished, w.ctx, [&] { ++ends; });
        QObject::connect(h.get(), &QGrpcStream::error, w.ctx, [&] { ++ends; });
        int n = 1 + int(s.draw(5));
        std::string all;
        std::vector<std::pair<M, bool>> want;
        for (int i = 0; i < n; ++i) {
            std::string pay = hostile(s, what);
            M m;
            bool ok = understood(pay, m);
            bad += !ok;
            want.push_back({m, !ok});
            all += frame(pay);
        }
        hard = !what.empty();
        w.log += what + hex(all.substr(0, 60));
        w.sendChunks(rq, all);
        ++c.evals;
        if (ends) w.die("the stream ends because of a message that cannot be decoded");
        if (got.size() != want.size()) w.die(std::to_string(got.size()) + " messages arrive instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); ++i) {
            if (got[i].second != want[i].second) w.die("message " + std::to_string(i) + (want[i].second ? " cannot be decoded but no error is reported" : " is reported as an error"));
            if (!want[i].second && got[i].first != want[i].first) w.die("message " + std::to_string(i) + " arrives as " + show(got[i].first) + " instead of " + show(want[i].first));
        }
        w.cl[0]->expErr += bad;
        h->abort();
    }
    // everything else goes on as if nothing had happened
    while (w.answerSome()) w.verify("others");
    if (s.chance(1, 2)) { w.startCall(0, 0); w.answerSome(); }
    fakenet::pump();
    w.checkCalls("others");
    finishCase(c, w);
    c.nontrivial = hard;
}
static Reg r32({"P32", "a response that a correct server would not send", p32, 30, init, {}, {}});

// ---------------------------------------------------------------- P30
static void p30(Ctx &c) {
    Src &s = c.src;
    World w(c);
    w.addChannel();
    w.addClient(0);
    int type = w.cl[0]->type, kind = int(s.draw(3)), method = kind == 2 ? (type ? 2 : 2 + int(s.draw(2))) : (type ? 0 : int(s.draw(2)));
    M m = genM(s, true);
    Req arg;
    toQt(m, arg);
    c.describe = methodName(type, method).toStdString() + " " + show(m);
    c.hash = hashStr(enc(m), hashStr(c.describe));
    auto *p = w.cl[0]->p;
    if (kind == 0) {
        if (type) static_cast<BetaClient *>(p)->unaryOne(arg); else if (method) static_cast<AlphaClient *>(p)->unaryTwo(arg); else static_cast<AlphaClient *>(p)->unaryOne(arg);
    } else if (kind == 1) {
        QMetaObject::invokeMethod(w.ctx, [] { for (auto &r : fakenet::requests) if (r.reply) r.reply->finish(trailers(0, "")); }, Qt::QueuedConnection);
        Resp ret;
        QPointer<Resp> pr(&ret);
        if (type) static_cast<BetaClient *>(p)->unaryOne(arg, pr); else if (method) static_cast<AlphaClient *>(p)->unaryTwo(arg, pr); else static_cast<AlphaClient *>(p)->unaryOne(arg, pr);
    } else {
        if (type) static_cast<BetaClient *>(p)->streamStreamOne(arg); else if (method == 3) static_cast<AlphaClient *>(p)->streamStreamTwo(arg); else static_cast<AlphaClient *>(p)->streamStreamOne(arg);
    }
    size_t rq = w.claim(0, method, m, "call");
    auto &r = fakenet::requests[rq];
    if (r.verb != "POST") w.die("request is not a POST");
    if (r.request.url().scheme() != "http" || r.request.url().host() != "server.example" || r.request.url().port() != 50051) w.die("request goes to " + r.request.url().toString().toStdString());
    if (!r.request.rawHeader("content-type").startsWith("application/grpc") && !r.request.header(QNetworkRequest::ContentTypeHeader).toString().startsWith("application/grpc")) w.die("wrong content type");
    if (r.request.rawHeader("te") != "trailers") w.die("te header missing");
    if (!r.request.attribute(QNetworkRequest::Http2DirectAttribute).toBool()) w.die("request is not sent as HTTP/2");
    // a server is free to use any message encoding the client says it accepts
    QByteArray accepts = r.request.rawHeader("grpc-accept-encoding");
    for (auto &x : accepts.split(',')) {
        QByteArray name = x.trimmed();
        if (kind != 0 || name.isEmpty() || name == "identity") continue;
        M resp = genM(s);
        resp.n = 7;
        std::string raw = enc(resp), z;
        if (name == "deflate") { QByteArray y = qCompress(q(raw)).mid(4); z.assign(y.constData(), size_t(y.size())); }
        else if (name == "gzip" && raw.size() < 65536) {
            uint32_t crc = ~0u;
            for (unsigned char ch : raw) { crc ^= ch; for (int i = 0; i < 8; ++i) crc = (crc >> 1) ^ (crc & 1 ? 0xedb88320u : 0); }
            crc = ~crc;
            z = std::string("\x1f\x8b\x08\0\0\0\0\0\0\xff\x01", 11);
            for (unsigned v : {unsigned(raw.size()), ~unsigned(raw.size())}) { z += char(v & 255); z += char((v >> 8) & 255); }
            z += raw;
            for (uint32_t v : {crc, uint32_t(raw.size())}) for (int sh = 0; sh < 32; sh += 8) z += char((v >> sh) & 255);
        } else continue;
        std::string f = frame(z);
        f[0] = 1;
        QGrpcCallReplyShared h = type ? static_cast<BetaClient *>(p)->unaryOne(arg) : static_cast<AlphaClient *>(p)->unaryOne(arg);
        bool fin = false;
        QObject::connect(h.get(), &QGrpcCallReply::finished, w.ctx, [&] { fin = true; });
        auto tr = trailers(0, "");
        tr.append({"grpc-encoding", name});
        FakeReply *fr = fakenet::requests.back().reply;
        fr->push(q(f));
        fr->finish(tr);
        ++c.evals;
        if (!fin || fromQt(h->read<Resp>()) != resp) w.die("request offers message encoding " + name.toStdString() + " but a response in it is not understood");
    }
    ++c.evals;
    c.label(kind == 0 ? "async" : kind == 1 ? "blocking" : "stream");
    c.nontrivial = enc(m).size() > 0;
}
static Reg r30({"P30", "argument with at least one field set", p30, 30, init, {}, {}});
