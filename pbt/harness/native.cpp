// gRPC client side over the native channel (QGrpcChannel), against an in-process generic grpc++ server on a unix socket.
// Threads and sockets are real, so the order in which things become visible is up to the machine; the oracles only use
// what has to hold in every order.
#include "fakenet.h"
#include "rpcmsg.h"
#include <QAbstractGrpcClient>
#include <QCoreApplication>
#include <QEventLoop>
#include <QGrpcCallReply>
#include <QGrpcChannel>
#include <QGrpcStatus>
#include <QGrpcStream>
#include <QThread>
#include <QUrl>
#include <QtProtobufTypes>
#include "vprpc.qpb.h"
#include "vprpc_grpc.qpb.h"
#include <grpcpp/grpcpp.h>
#include <grpcpp/generic/async_generic_service.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace QtProtobuf;
using vp::rpc::Req;
using vp::rpc::Resp;
using vp::rpc::AlphaClient;
using vp::rpc::BetaClient;

// ---------------------------------------------------------------- server
struct Rpc {
    grpc::GenericServerContext ctx;
    grpc::GenericServerAsyncReaderWriter io{&ctx};
    grpc::ByteBuffer in;
    std::string method, body;
    int phase = 0;                     // 0 waiting for a call, 1 reading the request, 2 open, 3 finished or broken
    bool busy = false;
    std::deque<std::string> out;
    bool end = false, finishing = false;
    grpc::Status status;
    int refs = 0;
};
struct Srv {
    std::mutex m;
    grpc::AsyncGenericService svc;
    std::unique_ptr<grpc::ServerCompletionQueue> cq;
    std::unique_ptr<grpc::Server> server;
    std::thread t;
    std::vector<std::shared_ptr<Rpc>> rpcs, arrived;
    std::map<int, std::pair<std::string, grpc::Status>> plan;       // answers given by the server itself, by the number in the request
    struct Tag { std::shared_ptr<Rpc> r; int op; };
    void accept() {
        auto r = std::make_shared<Rpc>();
        svc.RequestCall(&r->ctx, &r->io, cq.get(), cq.get(), new Tag{r, 0});
    }
    void next(const std::shared_ptr<Rpc> &r) {                      // with m held
        if (r->phase != 2 || r->busy) return;
        if (!r->out.empty()) {
            std::string d = r->out.front();
            r->out.pop_front();
            grpc::Slice s(d);
            grpc::ByteBuffer b(&s, 1);
            r->busy = true;
            r->io.Write(b, new Tag{r, 2});
        } else if (r->end && !r->finishing) {
            r->finishing = true;
            r->busy = true;
            r->io.Finish(r->status, new Tag{r, 3});
        }
    }
    void loop() {
        void *tag;
        bool ok;
        while (cq->Next(&tag, &ok)) {
            std::unique_ptr<Tag> g(static_cast<Tag *>(tag));
            std::lock_guard<std::mutex> l(m);
            auto r = g->r;
            if (g->op == 0) {
                if (!ok) continue;
                accept();
                r->method = r->ctx.method();
                r->phase = 1;
                r->io.Read(&r->in, new Tag{r, 1});
            } else if (g->op == 1) {
                if (!ok) { r->phase = 3; continue; }
                std::vector<grpc::Slice> sl;
                r->in.Dump(&sl);
                for (auto &x : sl) r->body.append(reinterpret_cast<const char *>(x.begin()), x.size());
                r->phase = 2;
                M q;
                auto p = dec(r->body, q) ? plan.find(q.n) : plan.end();
                if (p != plan.end()) {
                    if (p->second.second.ok()) r->out.push_back(p->second.first);
                    r->status = p->second.second;
                    r->end = true;
                } else arrived.push_back(r);
                next(r);
            } else {
                r->busy = false;
                if (!ok || g->op == 3) r->phase = 3;
                next(r);
            }
        }
    }
    explicit Srv(const std::string &addr) {
        grpc::ServerBuilder b;
        b.AddListeningPort(addr, grpc::InsecureServerCredentials());
        b.RegisterAsyncGenericService(&svc);
        b.SetMaxReceiveMessageSize(-1);
        cq = b.AddCompletionQueue();
        server = b.BuildAndStart();
        if (!server) { fprintf(stderr, "cannot start the server on %s\n", addr.c_str()); _exit(2); }
        { std::lock_guard<std::mutex> l(m); accept(); }
        t = std::thread([this] { loop(); });
    }
    ~Srv() {
        server->Shutdown(std::chrono::system_clock::now());
        cq->Shutdown();
        t.join();
    }
    void write(const std::shared_ptr<Rpc> &r, const std::string &d) { std::lock_guard<std::mutex> l(m); r->out.push_back(d); next(r); }
    void end(const std::shared_ptr<Rpc> &r, int code, const std::string &text) {
        std::lock_guard<std::mutex> l(m);
        r->end = true;
        r->status = grpc::Status(grpc::StatusCode(code), text);
        next(r);
    }
    std::shared_ptr<Rpc> take(const std::string &method, const M &arg, int *extra) {
        std::lock_guard<std::mutex> l(m);
        std::shared_ptr<Rpc> found;
        *extra = 0;
        for (size_t i = 0; i < arrived.size();) {
            M q;
            if (arrived[i]->method == method && dec(arrived[i]->body, q) && q == arg) {
                if (found) ++*extra; else found = arrived[i];
                arrived.erase(arrived.begin() + long(i));
            } else ++i;
        }
        return found;
    }
    size_t waiting() { std::lock_guard<std::mutex> l(m); return arrived.size(); }
    bool over(const std::shared_ptr<Rpc> &r) { std::lock_guard<std::mutex> l(m); return r->phase == 3; }
};
static std::string dir;
static std::unique_ptr<Srv> srv;
static void init() {
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    qRegisterProtobufTypes();
    qRegisterMetaType<QtProtobuf::QGrpcStatus>();
    char tmpl[] = "/tmp/vpnativeXXXXXX";
    dir = mkdtemp(tmpl);
    srv.reset(new Srv("unix:" + dir + "/s"));
}
static void fini() {
    srv.reset();
    unlink((dir + "/s").c_str());
    rmdir(dir.c_str());
}
static std::shared_ptr<QGrpcChannel> channel(const char *name = "s") {
    return std::make_shared<QGrpcChannel>(QUrl(QString::fromStdString("unix:" + dir + "/" + name)), grpc::InsecureChannelCredentials());
}
template<class F> static bool until(F f, int ms = 30000) {
    auto t0 = std::chrono::steady_clock::now();
    for (int i = 0;; ++i) {
        fakenet::pump();
        if (f()) return true;
        if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms)) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 50 : 500));
    }
}
static void settle(Src &s) {        // let things move a little, or not at all
    switch (s.draw(4)) {
    case 1: fakenet::pump(); break;
    case 2: std::this_thread::sleep_for(std::chrono::microseconds(s.draw(800))); break;
    case 3: std::this_thread::sleep_for(std::chrono::microseconds(s.draw(1500))); fakenet::pump(); break;
    default: break;
    }
}

// ---------------------------------------------------------------- model
static int nextNo = 0;
enum { PENDING, OK, FAILED, ABORTED, GONE };
struct Call {
    int id, client, method, style, state = PENDING;
    M req, resp;
    int code = 0;
    std::string text;
    QGrpcCallReplyShared h;
    std::shared_ptr<Rpc> rpc;
    int fin = 0, err = 0, gotCode = -1;
    M got;
    std::string gotText;
};
struct Strm {
    int id, client, method;
    M arg;
    bool active = true, failed = false;
    std::vector<M> sent;
    std::shared_ptr<Rpc> rpc;
    int fins = 0, errs = 0;
};
struct Sub {
    int id;
    Strm *st;
    QGrpcStreamShared h;
    std::unique_ptr<Resp> ret;
    size_t from;
    std::vector<M> got;
    int fin = 0, err = 0, fin0 = 0, err0 = 0;
    bool closed = false;          // cancelled: nothing may arrive any more
    size_t atClose = 0;
};
struct World {
    Ctx &c;
    Src &s;
    QObject *ctx = new QObject;
    struct Cl { QAbstractGrpcClient *p; int type; bool alive = true; int errs = 0; };
    std::vector<std::shared_ptr<QGrpcChannel>> chans;
    std::vector<std::unique_ptr<Cl>> cl;
    std::vector<std::unique_ptr<Call>> calls;
    std::vector<std::unique_ptr<Strm>> st;
    std::vector<std::unique_ptr<Sub>> subs;
    std::string log;
    bool closing = false;
    int interesting = 0;
    std::set<std::tuple<int, int, int>> burned;      // streams cancelled before the server saw them: it may or may not see them later
    explicit World(Ctx &x) : c(x), s(x.src) {
        fakenet::reset();
        Perturb pert;
        static const std::vector<unsigned> every = {0, 0, 20, 100, 1000};
        pert.every = every[s.draw(every.size())];
        pert.kind = unsigned(s.draw(3));
        pert.seed = s.draw(1000000007);
        setPerturb(pert);
        std::lock_guard<std::mutex> l(srv->m);
        srv->arrived.clear();
        srv->plan.clear();
    }
    ~World() {
        closing = true;
        setPerturb(Perturb());
        delete ctx;
        for (auto &k : cl) if (k->alive) { k->alive = false; delete static_cast<QObject *>(k->p); }
        calls.clear();
        for (auto &b : subs) b->h.reset();
        chans.clear();
        fakenet::reset();
    }
    [[noreturn]] void die(const std::string &m) { fail(m + " | history:" + log); }
    void addClient(int chan) {
        auto k = std::make_unique<Cl>();
        k->type = int(s.draw(2));
        k->p = k->type ? static_cast<QAbstractGrpcClient *>(new BetaClient) : new AlphaClient;
        k->p->attachChannel(chans[size_t(chan)]);
        Cl *raw = k.get();
        QObject::connect(k->p, &QAbstractGrpcClient::error, ctx, [raw](const QGrpcStatus &) { ++raw->errs; });
        cl.push_back(std::move(k));
    }
    std::string path(int client, int method) { static const char *n[] = {"unaryOne", "unaryTwo", "streamOne", "streamTwo"}; return std::string("/") + (cl[size_t(client)]->type ? "vp.rpc.Beta/" : "vp.rpc.Alpha/") + n[method]; }
    std::shared_ptr<Rpc> arrival(int client, int method, const M &arg, const char *what) {
        std::shared_ptr<Rpc> r;
        int extra = 0;
        until([&] { r = srv->take(path(client, method), arg, &extra); return bool(r); });
        if (!r) die(std::string(what) + " did not reach the server with its argument " + ::show(arg));
        if (extra) die(std::string(what) + " reached the server more than once");
        return r;
    }
    Call *startCall(int client, int style) {
        auto k = std::make_unique<Call>();
        Call *raw = k.get();
        k->id = int(calls.size());
        k->client = client;
        k->style = style;
        k->req = genM(s, s.chance(1, 10));
        k->req.n = ++nextNo;
        k->method = cl[size_t(client)]->type ? 0 : int(s.draw(2));
        Req arg;
        toQt(k->req, arg);
        auto *p = cl[size_t(client)]->p;
        auto done = [this, raw](QGrpcCallReply *r) { if (closing) return; ++raw->fin; raw->got = fromQt(r->read<Resp>()); };
        auto failed = [this, raw](const QGrpcStatus &x) { if (closing) return; ++raw->err; raw->gotCode = int(x.code()); raw->gotText = x.message().toStdString(); };
        calls.push_back(std::move(k));
        if (style == 2) {
            auto cb = [done](QGrpcCallReplyShared r) { done(r.get()); };
            if (cl[size_t(client)]->type) static_cast<BetaClient *>(p)->unaryOne(arg, ctx, cb);
            else if (raw->method) static_cast<AlphaClient *>(p)->unaryTwo(arg, ctx, cb);
            else static_cast<AlphaClient *>(p)->unaryOne(arg, ctx, cb);
        } else {
            QGrpcCallReplyShared h = cl[size_t(client)]->type ? static_cast<BetaClient *>(p)->unaryOne(arg) : raw->method ? static_cast<AlphaClient *>(p)->unaryTwo(arg) : static_cast<AlphaClient *>(p)->unaryOne(arg);
            if (!h) die("call gave no reply object");
            QGrpcCallReply *r = h.get();
            if (style == 0) h->subscribe(ctx, [done, r] { done(r); }, failed);
            else {
                QObject::connect(r, &QGrpcCallReply::finished, ctx, [done, r] { done(r); });
                QObject::connect(r, &QGrpcCallReply::error, ctx, failed);
            }
            raw->h = h;
        }
        log += " call" + std::to_string(raw->id) + "(client" + std::to_string(client) + ")";
        return raw;
    }
    void answer(Call &k) {
        if (!k.rpc) k.rpc = arrival(k.client, k.method, k.req, "call");
        if (s.chance(3, 4)) {
            k.state = OK;
            k.resp = genM(s, s.chance(1, 6));
            srv->write(k.rpc, enc(k.resp));
            srv->end(k.rpc, 0, "");
            log += " answer" + std::to_string(k.id);
        } else {
            k.state = FAILED;
            k.code = 1 + int(s.draw(16));
            k.text = genText(s, 10);
            srv->end(k.rpc, k.code, k.text);
            log += " status" + std::to_string(k.id) + "=" + std::to_string(k.code);
        }
        settle(s);
    }
    bool answerSome() {
        std::vector<Call *> p;
        for (auto &k : calls) if (k->state == PENDING) p.push_back(k.get());
        if (p.empty()) return false;
        answer(*p[s.draw(p.size())]);
        return true;
    }
    void blocking(int client) {
        M req = genM(s), resp = genM(s, s.chance(1, 6));
        req.n = ++nextNo;
        int type = cl[size_t(client)]->type, method = type ? 0 : int(s.draw(2));
        int code = s.chance(1, 3) ? 1 + int(s.draw(16)) : 0;
        std::string text = code ? genText(s, 8) : "";
        { std::lock_guard<std::mutex> l(srv->m); srv->plan[req.n] = {enc(resp), code ? grpc::Status(grpc::StatusCode(code), text) : grpc::Status::OK}; }
        Req arg;
        toQt(req, arg);
        Resp ret;
        toQt(genM(s), ret);
        QPointer<Resp> pr(&ret);
        auto *p = cl[size_t(client)]->p;
        log += " blocking(client" + std::to_string(client) + ")=" + std::to_string(code);
        QGrpcStatus x = type ? static_cast<BetaClient *>(p)->unaryOne(arg, pr) : method ? static_cast<AlphaClient *>(p)->unaryTwo(arg, pr) : static_cast<AlphaClient *>(p)->unaryOne(arg, pr);
        ++c.evals;
        if (int(x.code()) != code) die("blocking call returned status " + std::to_string(int(x.code())) + " instead of " + std::to_string(code));
        if (code && x.message().toStdString() != text) die("blocking call returned message \"" + x.message().toStdString() + "\" instead of \"" + text + "\"");
        if (!code && fromQt(ret) != resp) die("blocking call returned " + ::show(fromQt(ret)) + " instead of " + ::show(resp));
    }
    void abortCall(Call &k) {
        if (!k.h || k.state != PENDING) return;
        k.state = ABORTED;
        k.code = int(QGrpcStatus::Aborted);
        log += " abort" + std::to_string(k.id);
        ++interesting;
        k.h->abort();
        if (k.style != 2 && k.err != 1) die("aborted call reported " + std::to_string(k.err) + " errors");
    }
    // what may be said at any time: nothing completes twice or wrongly
    void partial(const char *what) {
        for (auto &u : calls) {
            Call &k = *u;
            ++c.evals;
            std::string n = "call " + std::to_string(k.id);
            if (k.fin > (k.state == OK ? 1 : 0)) die(std::string(what) + ": " + n + " reported completion " + std::to_string(k.fin) + " times");
            if (k.err > (k.state == FAILED || k.state == ABORTED ? 1 : 0)) die(std::string(what) + ": " + n + " reported an error " + std::to_string(k.err) + " times");
            if (k.fin && k.got != k.resp) die(std::string(what) + ": " + n + " got " + ::show(k.got) + " instead of " + ::show(k.resp));
            if (k.err && k.gotCode != k.code) die(std::string(what) + ": " + n + " got status " + std::to_string(k.gotCode) + " instead of " + std::to_string(k.code));
            if (k.err && k.state == FAILED && k.gotText != k.text) die(std::string(what) + ": " + n + " got status message \"" + k.gotText + "\" instead of \"" + k.text + "\"");
        }
        for (auto &u : subs) {
            Sub &b = *u;
            Strm &e = *b.st;
            ++c.evals;
            std::string n = "subscriber " + std::to_string(b.id);
            if (b.from + b.got.size() > e.sent.size()) die(std::string(what) + ": " + n + " got more messages than were sent");
            for (size_t i = 0; i < b.got.size(); ++i) if (b.got[i] != e.sent[b.from + i]) die(std::string(what) + ": " + n + " message " + std::to_string(i) + " is " + ::show(b.got[i]) + " instead of " + ::show(e.sent[b.from + i]));
            if (b.closed && b.got.size() != b.atClose) die(std::string(what) + ": " + n + " got a message after the stream was cancelled");
            if (b.fin > e.fins - b.fin0) die(std::string(what) + ": " + n + " was told " + std::to_string(b.fin) + " times that the stream finished");
            if (b.err > e.errs - b.err0) die(std::string(what) + ": " + n + " was told of " + std::to_string(b.err) + " errors");
        }
    }
    bool complete(std::string *why) {
        for (auto &u : calls) {
            Call &k = *u;
            if (k.state == OK && !k.fin) { *why = "call " + std::to_string(k.id) + " never completed although the server answered"; return false; }
            if (k.state == FAILED && k.style != 2 && !k.err) { *why = "call " + std::to_string(k.id) + " never completed although the server reported a status"; return false; }
        }
        for (auto &u : subs) {
            Sub &b = *u;
            Strm &e = *b.st;
            if (!cl[size_t(e.client)]->alive) continue;
            if (!b.closed && b.from + b.got.size() != e.sent.size()) { *why = "subscriber " + std::to_string(b.id) + " got " + std::to_string(b.got.size()) + " messages instead of " + std::to_string(e.sent.size() - b.from); return false; }
            if (b.fin != e.fins - b.fin0) { *why = "subscriber " + std::to_string(b.id) + " was told " + std::to_string(b.fin) + " times that the stream finished instead of " + std::to_string(e.fins - b.fin0); return false; }
            if (b.err != e.errs - b.err0) { *why = "subscriber " + std::to_string(b.id) + " was told of " + std::to_string(b.err) + " errors instead of " + std::to_string(e.errs - b.err0); return false; }
        }
        return true;
    }
    void quiesce(const char *what) {
        std::string why;
        if (!until([&] { return complete(&why); })) die(std::string(what) + ": " + why);
        partial(what);
    }
    // ---- streams
    Sub *subscribe(int client, int argNo) {
        int type = cl[size_t(client)]->type, method = type ? 2 : 2 + int(s.draw(2));
        M a;
        a.n = 1000000 + client * 10 + argNo;
        if (argNo == 2) a.s = "x";
        if (burned.count({client, method, a.n})) return nullptr;
        Strm *e = nullptr;
        for (auto &x : st) if (x->active && x->client == client && x->method == method && x->arg == a) e = x.get();
        if (e) quiesce("before joining");            // so that it is known which messages the new subscriber misses
        auto u = std::make_unique<Sub>();
        Sub *b = u.get();
        b->id = int(subs.size());
        Req arg;
        toQt(a, arg);
        auto *p = cl[size_t(client)]->p;
        QGrpcStreamShared h;
        if (s.chance(1, 2)) {
            b->ret = std::make_unique<Resp>();
            QPointer<Resp> r(b->ret.get());
            h = type ? static_cast<BetaClient *>(p)->streamStreamOne(arg, r) : method == 3 ? static_cast<AlphaClient *>(p)->streamStreamTwo(arg, r) : static_cast<AlphaClient *>(p)->streamStreamOne(arg, r);
        } else h = type ? static_cast<BetaClient *>(p)->streamStreamOne(arg) : method == 3 ? static_cast<AlphaClient *>(p)->streamStreamTwo(arg) : static_cast<AlphaClient *>(p)->streamStreamOne(arg);
        if (!h) die("subscription gave no stream object");
        log += " subscribe" + std::to_string(b->id) + "(client" + std::to_string(client) + ",m" + std::to_string(method) + ",arg" + std::to_string(argNo) + ")";
        if (!e) {
            auto n = std::make_unique<Strm>();
            n->id = int(st.size());
            n->client = client;
            n->method = method;
            n->arg = a;
            e = n.get();
            st.push_back(std::move(n));
        } else ++interesting;
        b->st = e;
        b->h = h;
        b->from = e->sent.size();
        b->fin0 = e->fins;
        b->err0 = e->errs;
        QGrpcStream *raw = h.get();
        QObject::connect(raw, &QGrpcStream::messageReceived, ctx, [this, b, raw] { if (!closing) b->got.push_back(fromQt(b->ret ? *b->ret : raw->read<Resp>())); });
        QObject::connect(raw, &QGrpcStream::finished, ctx, [this, b] { if (!closing) ++b->fin; });
        QObject::connect(raw, &QGrpcStream::error, ctx, [this, b](const QGrpcStatus &) { if (!closing) ++b->err; });
        subs.push_back(std::move(u));
        return b;
    }
    void need(Strm &e) { if (!e.rpc) e.rpc = arrival(e.client, e.method, e.arg, "stream"); }
    void send(Strm &e, int n) {
        need(e);
        log += " send" + std::to_string(e.id) + "x" + std::to_string(n);
        for (int i = 0; i < n; ++i) {
            M m = genM(s, s.chance(1, 10));
            e.sent.push_back(m);
            srv->write(e.rpc, enc(m));
        }
    }
    void end(Strm &e, int code) {
        need(e);
        log += " end" + std::to_string(e.id) + "=" + std::to_string(code);
        ++interesting;
        srv->end(e.rpc, code, code ? genText(s, 5) : "");
        if (code) { ++e.errs; e.failed = true; } else { ++e.fins; e.active = false; }
        quiesce("stream ended");       // the moment at which a new subscription opens a new stream is now known
    }
    void reconnect() {
        log += " +1000ms";
        std::string why;
        fakenet::advance(1000);
        for (auto &e : st) if (e->failed) { e->failed = false; e->rpc.reset(); if (e->active && cl[size_t(e->client)]->alive) need(*e); }
    }
    void cancel(Sub &b) {
        Strm &e = *b.st;
        log += " cancel" + std::to_string(b.id);
        ++interesting;
        e.active = false;
        ++e.fins;
        if (!e.rpc || e.failed) burned.insert({e.client, e.method, e.arg.n});
        b.h->abort();
        for (auto &x : subs) if (x->st == &e && !x->closed) { x->closed = true; x->atClose = x->got.size(); }
    }
    int aliveClient() {
        std::vector<int> a;
        for (size_t i = 0; i < cl.size(); ++i) if (cl[i]->alive) a.push_back(int(i));
        return a.empty() ? -1 : a[s.draw(a.size())];
    }
};
static void finishCase(Ctx &c, World &w) {
    c.describe = "native:" + w.log;
    c.hash = hashStr(w.log);
    for (auto &k : w.calls) { c.hash = hashStr(enc(k->resp), c.hash); c.hash = hashStr(k->req.s + k->req.b, c.hash); }
    for (auto &e : w.st) for (auto &m : e->sent) c.hash = hashStr(enc(m), c.hash);
}
static void setup(World &w, int maxCh, int maxCl) {
    int nch = 1 + int(w.s.draw(uint64_t(maxCh))), ncl = 1 + int(w.s.draw(uint64_t(maxCl)));
    for (int i = 0; i < nch; ++i) w.chans.push_back(channel());
    for (int i = 0; i < ncl; ++i) w.addClient(int(w.s.draw(uint64_t(nch))));
}
// every request the application did not make is a violation, too
static void noStray(World &w) { if (srv->waiting()) w.die("the server got a call that nobody made"); }

static void p21(Ctx &c) {
    Src &s = c.src;
    World w(c);
    setup(w, 2, 3);
    int steps = 2 + int(s.draw(12)), overlap = 0;
    for (int k = 0; k < steps; ++k) {
        int pend = 0;
        for (auto &x : w.calls) pend += x->state == PENDING;
        overlap = std::max(overlap, pend);
        switch (s.draw(7)) {
        case 0: case 1: case 2: w.startCall(int(s.draw(w.cl.size())), int(s.draw(3))); break;
        case 3: case 4: w.answerSome(); break;
        case 5: if (s.chance(1, 2)) w.blocking(int(s.draw(w.cl.size()))); else fakenet::pump(); break;
        default: {
            if (w.calls.empty()) break;
            auto &x = *w.calls[s.draw(w.calls.size())];
            if (x.h) { x.h.reset(); w.log += " drop" + std::to_string(x.id); }
        }
        }
        w.partial("step");
    }
    while (w.answerSome()) {}
    w.quiesce("at the end");
    settle(s);
    fakenet::pump();
    w.partial("at the end");
    noStray(w);
    for (auto &x : w.calls) if (x->h && x->state == OK && fromQt(x->h->read<Resp>()) != x->resp) w.die("the kept reply of call " + std::to_string(x->id) + " gives another value");
    finishCase(c, w);
    c.label(overlap >= 2 ? "native: overlapping calls" : "native: no overlap");
    c.nontrivial = overlap >= 2;
}
static Reg r21({"P21", "at least two calls in flight at once", p21, 120, init, fini, {}});

static void streamStep(World &w, Src &s) {
    std::vector<Strm *> run;
    for (auto &e : w.st) if (e->active && !e->failed && w.cl[size_t(e->client)]->alive) run.push_back(e.get());
    switch (s.draw(9)) {
    case 0: case 1: { int k = w.aliveClient(); if (k >= 0 && w.subs.size() < 10) w.subscribe(k, int(s.draw(3))); break; }
    case 2: case 3: case 4: if (!run.empty()) w.send(*run[s.draw(run.size())], 1 + int(s.draw(4))); break;
    case 5: if (!run.empty() && s.chance(1, 2)) w.end(*run[s.draw(run.size())], s.chance(1, 2) ? 0 : 1 + int(s.draw(16))); break;
    case 6: {
        std::vector<Sub *> l;
        for (auto &b : w.subs) if (b->h && b->st->active && w.cl[size_t(b->st->client)]->alive) l.push_back(b.get());
        if (!l.empty() && s.chance(1, 2)) { settle(s); w.partial("before cancelling"); w.cancel(*l[s.draw(l.size())]); }
        break;
    }
    case 7: if (s.chance(1, 2)) w.reconnect(); else settle(s); break;
    default: {
        std::vector<Sub *> l;
        for (auto &b : w.subs) if (b->h) l.push_back(b.get());
        if (!l.empty()) { Sub *b = l[s.draw(l.size())]; w.log += " drop" + std::to_string(b->id); b->h.reset(); }
    }
    }
}
static void p22(Ctx &c) {
    Src &s = c.src;
    World w(c);
    setup(w, 1, 2);
    int steps = 3 + int(s.draw(14));
    for (int k = 0; k < steps; ++k) { streamStep(w, s); w.partial("step"); }
    w.reconnect();
    for (size_t i = 0; i < w.st.size(); ++i) if (w.st[i]->active) w.send(*w.st[i], 1);
    w.quiesce("at the end");
    settle(s);
    fakenet::pump();
    w.partial("at the end");
    for (auto &e : w.st) { int extra; if (w.burned.count({e->client, e->method, e->arg.n})) continue; if (srv->take(w.path(e->client, e->method), e->arg, &extra) && e->rpc) w.die("a stream was opened twice or opened again"); }
    finishCase(c, w);
    size_t n = 0;
    for (auto &b : w.subs) n += b->got.size();
    c.label(w.interesting ? "native: sharing/ending/cancelling" : "native: plain");
    c.nontrivial = n >= 2 && w.interesting > 0;
}
static Reg r22({"P22", "at least two messages received and a stream shared, ended or cancelled", p22, 120, init, fini, {}});

static void p24(Ctx &c) {
    Src &s = c.src;
    World w(c);
    bool net = s.chance(1, 6);
    w.chans.push_back(channel(net ? "nobody" : "s"));
    w.addClient(0);
    int what = int(s.draw(4)), type = w.cl[0]->type;
    int code = int(s.draw(17));
    std::string text = code ? genText(s, 20) : "";
    if (code && s.chance(1, 6)) text += "%41 100% %";
    w.log += net ? " no server" : " status " + std::to_string(code) + " \"" + text + "\"";
    static const char *kinds[] = {"native: async", "native: blocking", "native: stream", "native: callback"};
    c.label(kinds[what]);
    auto *p = w.cl[0]->p;
    if (what == 1) {
        M req, resp = genM(s);
        req.n = ++nextNo;
        { std::lock_guard<std::mutex> l(srv->m); srv->plan[req.n] = {enc(resp), grpc::Status(grpc::StatusCode(code), text)}; }
        Req arg;
        toQt(req, arg);
        Resp ret;
        QPointer<Resp> pr(&ret);
        QGrpcStatus x = type ? static_cast<BetaClient *>(p)->unaryOne(arg, pr) : static_cast<AlphaClient *>(p)->unaryOne(arg, pr);
        ++c.evals;
        if (net) { if (x == QGrpcStatus::Ok) w.die("call without a server succeeded"); }
        else if (int(x.code()) != code || x.message().toStdString() != text) w.die("blocking call returned status " + std::to_string(int(x.code())) + " \"" + x.message().toStdString() + "\"");
        else if (!code && fromQt(ret) != resp) w.die("wrong response");
        if (w.cl[0]->errs != (net || code ? 1 : 0)) w.die("client signalled " + std::to_string(w.cl[0]->errs) + " errors");
    } else if (what == 2) {
        Sub *b = w.subscribe(0, 0);
        int gotCode = -1;
        std::string gotText;
        QObject::connect(b->h.get(), &QGrpcStream::error, w.ctx, [&](const QGrpcStatus &x) { gotCode = int(x.code()); gotText = x.message().toStdString(); });
        if (net) { ++b->st->errs; w.quiesce("no server"); if (gotCode <= 0) w.die("stream without a server reported " + std::to_string(gotCode)); }
        else {
            w.send(*b->st, int(s.draw(3)));
            if (code) { ++b->st->errs; srv->end(b->st->rpc, code, text); w.quiesce("status"); if (gotCode != code || gotText != text) w.die("stream reported status " + std::to_string(gotCode) + " \"" + gotText + "\""); }
            else { ++b->st->fins; srv->end(b->st->rpc, 0, ""); w.quiesce("status"); }
        }
        ++c.evals;
        if (w.cl[0]->errs != (net || code ? 1 : 0)) w.die("client signalled " + std::to_string(w.cl[0]->errs) + " errors");
    } else {
        Call &k = *w.startCall(0, what == 3 ? 2 : int(s.draw(2)));
        if (net) {
            k.state = GONE;
            if (!until([&] { return w.cl[0]->errs > 0; })) w.die("call without a server never failed");
            if (k.fin || (k.style != 2 && (k.err != 1 || k.gotCode == 0))) w.die("call without a server reported wrongly");
            k.err = 0;
        } else {
            k.rpc = w.arrival(0, k.method, k.req, "call");
            k.state = code ? FAILED : OK;
            k.code = code;
            k.text = text;
            k.resp = genM(s);
            if (!code) srv->write(k.rpc, enc(k.resp));
            srv->end(k.rpc, code, text);
            w.quiesce("status");
            if (code && !until([&] { return w.cl[0]->errs > 0; })) w.die("client did not signal the error");
        }
        if (w.cl[0]->errs != (net || code ? 1 : 0)) w.die("client signalled " + std::to_string(w.cl[0]->errs) + " errors");
    }
    finishCase(c, w);
    c.nontrivial = net || code != 0;
}
static Reg r24({"P24", "non-zero status or no server", p24, 120, init, fini, {}});

static void p26(Ctx &c) {
    Src &s = c.src;
    World w(c);
    setup(w, 2, 3);
    int steps = 3 + int(s.draw(16)), killed = 0;
    for (int k = 0; k < steps; ++k) {
        int cl = w.aliveClient();
        switch (s.draw(10)) {
        case 0: case 1: if (cl >= 0) w.startCall(cl, int(s.draw(3))); break;
        case 2: w.answerSome(); break;
        case 3: {
            std::vector<Call *> p;
            for (auto &x : w.calls) if (x->h && x->state == PENDING) p.push_back(x.get());
            if (!p.empty() && s.draw(4)) { settle(s); w.abortCall(*p[s.draw(p.size())]); ++killed; break; }
            p.clear();
            for (auto &x : w.calls) if (x->h && x->fin + x->err > 0 && w.cl[size_t(x->client)]->alive) p.push_back(x.get());
            if (!p.empty()) {
                Call &x = *p[s.draw(p.size())];
                int fin = x.fin, err = x.err, errs = w.cl[size_t(x.client)]->errs;
                w.log += " abort-done" + std::to_string(x.id);
                x.h->abort();
                if (x.fin != fin || x.err != err || w.cl[size_t(x.client)]->errs != errs) w.die("abort of a completed call is reported");
            }
            break;
        }
        case 4: {
            if (w.calls.empty()) break;
            auto &x = *w.calls[s.draw(w.calls.size())];
            if (x.h) { x.h.reset(); w.log += " drop" + std::to_string(x.id); }
            break;
        }
        case 5:
            if (cl >= 0 && s.chance(1, 2)) {
                w.log += " delete-client" + std::to_string(cl);
                settle(s);
                w.partial("before deleting");
                w.cl[size_t(cl)]->alive = false;
                for (auto &x : w.calls) if (x->client == cl) { if (x->state == PENDING) ++killed; if (x->state == PENDING || !(x->fin || x->err)) x->state = GONE; }
                for (auto &e : w.st) if (e->client == cl && e->active) { e->active = false; ++killed; }
                for (auto &b : w.subs) if (b->st->client == cl && !b->closed) { b->closed = true; b->atClose = b->got.size(); }
                if (s.chance(1, 2)) delete static_cast<QObject *>(w.cl[size_t(cl)]->p);
                else { auto before = w.cl[size_t(cl)]->p; before->deleteLater(); QCoreApplication::sendPostedEvents(before, QEvent::DeferredDelete); }
                if (s.chance(1, 2)) for (auto &x : w.calls) if (x->client == cl) x->h.reset();
            } else if (s.chance(1, 3)) {
                size_t i = s.draw(w.chans.size());
                if (w.chans[i]) { w.chans[i].reset(); w.log += " drop-channel" + std::to_string(i); }
            }
            break;
        case 6: settle(s); break;
        default: streamStep(w, s); break;
        }
        w.partial("step");
    }
    while (w.answerSome()) {}
    w.reconnect();
    for (size_t i = 0; i < w.st.size(); ++i) if (w.st[i]->active && w.cl[size_t(w.st[i]->client)]->alive) w.send(*w.st[i], 1);
    w.quiesce("at the end");
    settle(s);
    fakenet::pump();
    w.partial("at the end");
    finishCase(c, w);
    c.label(killed ? "native: with aborts" : "native: plain");
    c.nontrivial = killed + w.interesting > 0;
}
static Reg r26({"P26", "something aborted, cancelled or deleted while in flight", p26, 120, init, fini, {}});
