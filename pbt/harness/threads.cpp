// P27: a client living in a thread of its own, used by several other threads at once
#include "pbt.h"
#include "rpcmsg.h"
#include "vprpc.qpb.h"
#include "vprpc_grpc.qpb.h"
#include <QAbstractGrpcChannel>
#include <QCoreApplication>
#include <QEventLoop>
#include <QGrpcCallReply>
#include <QGrpcStream>
#include <QProtobufSerializer>
#include <QThread>
#include <QTimer>
#include <QtProtobufTypes>
#include <atomic>
#include <memory>
#include <mutex>
using namespace QtProtobuf;
using vp::rpc::Req;
using vp::rpc::Resp;

namespace {
enum Kind { Blocking, Reply, Callback, AbortReply, Stream, Joined, Attach, NullRet, KINDS };
const char *const KN[] = {"blocking", "reply", "callback", "abort", "stream", "joined stream", "attach", "null result"};
struct Op {
    Kind kind = Blocking;
    int id = 0;
    bool two = false;               // second method
    bool into = false;              // stream into an object
    bool reader = false;            // the worker reads while messages arrive
    bool wait = true;               // wait for the end before the next step
    bool early = false;             // give up the stream while messages arrive, or the reply while it is answered
    int code = 0;                   // status of the answer
    std::string message;
    M arg;
    std::vector<M> answers;
};
struct Entry { std::string kind, method, service, args; bool right; };

class Chan : public QAbstractGrpcChannel {
public:
    std::shared_ptr<QAbstractProtobufSerializer> ser = std::make_shared<QProtobufSerializer>();
    std::vector<Entry> log;                                    // written by the client thread only, unless the client is broken
    std::mutex mx;
    std::map<int, const Op *> ops;
    std::map<int, QPointer<QGrpcCallReply>> pending;
    std::map<int, QGrpcStream *> streams;
    std::map<int, int> ended;
    std::atomic<bool> wrongEnd{false};
    QObject obj;                                               // lives in the thread of the channel

    void note(const char *k, const QString &m, const QString &s, const QByteArray &a) {
        std::lock_guard<std::mutex> l(mx);
        log.push_back({k, m.toStdString(), s.toStdString(), std::string(a.constData(), size_t(a.size())), QThread::currentThread() == thread()});
    }
    const Op *find(const QByteArray &a) {
        M m;
        std::lock_guard<std::mutex> l(mx);
        if (!dec(std::string(a.constData(), size_t(a.size())), m) || !ops.count(m.n)) return nullptr;
        return ops[m.n];
    }
    QGrpcStatus call(const QString &m, const QString &s, const QByteArray &a, QByteArray &r) override {
        note("blocking", m, s, a);
        const Op *o = find(a);
        if (!o) return QGrpcStatus{QGrpcStatus::Internal, QStringLiteral("unexpected argument")};
        if (o->code) return QGrpcStatus{QGrpcStatus::StatusCode(o->code), QString::fromStdString(o->message)};
        r = q(enc(o->answers[0]));
        return QGrpcStatus{QGrpcStatus::Ok};
    }
    void call(const QString &m, const QString &s, const QByteArray &a, QGrpcCallReply *r) override {
        note("reply", m, s, a);
        if (const Op *o = find(a)) {
            std::lock_guard<std::mutex> l(mx);
            pending[o->id] = r;
            auto seen = [this] { if (QThread::currentThread() != thread()) wrongEnd = true; };
            QObject::connect(r, &QGrpcCallReply::error, &obj, seen, Qt::DirectConnection);
            QObject::connect(r, &QGrpcCallReply::finished, &obj, seen, Qt::DirectConnection);
        }
    }
    void stream(QGrpcStream *st, const QString &s, QAbstractGrpcClient *) override {
        note("stream", st->method(), s, st->arg());
        if (const Op *o = find(st->arg())) {
            std::lock_guard<std::mutex> l(mx);
            int id = o->id;
            streams[id] = st;
            QObject::connect(st, &QGrpcStream::finished, &obj, [this, id] {
                if (QThread::currentThread() != thread()) wrongEnd = true;
                std::lock_guard<std::mutex> l(mx);
                ++ended[id];
                streams.erase(id);
            }, Qt::DirectConnection);
        }
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser; }
    // called by the workers
    void answer(int id) {
        QMetaObject::invokeMethod(&obj, [this, id] {
            QPointer<QGrpcCallReply> r;
            const Op *o;
            { std::lock_guard<std::mutex> l(mx); r = pending[id]; o = ops[id]; pending.erase(id); }
            if (!r) return;
            if (o->code) r->error(QGrpcStatus{QGrpcStatus::StatusCode(o->code), QString::fromStdString(o->message)});
            else { r->setData(q(enc(o->answers[0]))); r->finished(); }
        }, Qt::QueuedConnection);
    }
    void deliver(int id, const M &m) {
        QMetaObject::invokeMethod(&obj, [this, id, m] {
            QGrpcStream *s = nullptr;
            { std::lock_guard<std::mutex> l(mx); if (streams.count(id)) s = streams[id]; }
            if (s) s->handler(q(enc(m)));
        }, Qt::QueuedConnection);
    }
    ~Chan() override = default;
};

// one asynchronous step and everything that was seen of it
struct Seen {
    const Op *op = nullptr;
    QGrpcCallReplyShared reply;
    QGrpcStreamShared stream;
    std::unique_ptr<Resp> into;
    int finished = 0, errors = 0, notes = 0;     // worker thread
    bool wrongThread = false;
    QGrpcStatus status{QGrpcStatus::Ok};
    M got;
    std::atomic<int> direct{0};                  // client thread
    std::atomic<bool> directWrong{false}, mismatch{false};
    std::vector<M> expect;
};

struct World {
    vp::rpc::AlphaClient *client = nullptr;
    std::shared_ptr<Chan> chan, other;
    QThread *thread = nullptr;
    std::atomic<int> joinReady{0};
    int joiners = 0;
    std::vector<M> joinMsgs;
    std::atomic<int> joinDone{0};
    std::mutex mx;
    std::vector<QGrpcStream *> joined;
    void flush() { QMetaObject::invokeMethod(&chan->obj, [] {}, Qt::BlockingQueuedConnection); }
};

class Worker : public QThread {
public:
    World *w;
    std::vector<Op> prog;
    std::string error;
    uint64_t ev = 0;
    int expectErrors = 0;
    void bad(const Op &o, const std::string &m) { if (error.empty()) error = std::string(KN[o.kind]) + " from another thread: " + m; }
    template<class F> bool waitFor(F f) {
        QElapsedTimer t;
        t.start();
        while (!f()) {
            if (t.elapsed() > 20000) return false;
            QCoreApplication::processEvents(QEventLoop::AllEvents, 20);
            if (f()) return true;
            QThread::usleep(50);
        }
        return true;
    }
    QObject *ctx = nullptr;
    int told = 0;                     // errors of the client as a receiver in this thread sees them
    std::vector<std::unique_ptr<Seen>> open;
    void conclude(Seen &s) {
        const Op &o = *s.op;
        ++ev;
        if (o.kind == Reply || o.kind == Callback || o.kind == AbortReply) {
            bool aborted = o.kind == AbortReply && !o.early;      // early: the answer was on its way first
            bool fails = aborted || o.code;
            int code = aborted ? int(QGrpcStatus::Aborted) : o.code;
            if (o.kind == Callback && fails) {      // reports errors through the client only
                w->chan->answer(o.id);
                if (s.finished) bad(o, "completes although the call failed");
                return;
            }
            if (!waitFor([&] { return s.finished + s.errors > 0; })) return bad(o, "never completes");
            w->flush();
            QCoreApplication::processEvents();
            if (s.finished != (fails ? 0 : 1) || s.errors != (fails ? 1 : 0)) return bad(o, std::to_string(s.finished) + " completions and " + std::to_string(s.errors) + " errors");
            if (s.wrongThread) return bad(o, "completion is reported in another thread than that of the receiver");
            if (fails && int(s.status.code()) != code) return bad(o, "status " + std::to_string(s.status.code()) + ", expected " + std::to_string(code));
            if (fails && !aborted && s.status.message().toStdString() != o.message) return bad(o, "status message differs");
            if (!fails && s.got != o.answers[0]) return bad(o, "response " + show(s.got) + ", expected " + show(o.answers[0]));
        }
    }
    void watchReply(Seen *s) {
        QObject::connect(s->reply.get(), &QGrpcCallReply::error, ctx, [s](const QGrpcStatus &st) {
            ++s->errors;
            s->status = st;
            if (QThread::currentThread() == s->reply->thread()) s->wrongThread = true;
        });
        QObject::connect(s->reply.get(), &QGrpcCallReply::finished, ctx, [s] {
            ++s->finished;
            s->got = fromQt(s->reply->read<Resp>());
            if (QThread::currentThread() == s->reply->thread()) s->wrongThread = true;
        });
    }
    void subscribe(Seen *s) {
        QGrpcStream *st = s->stream.get();
        QThread *ct = w->thread;
        QObject::connect(st, &QGrpcStream::messageReceived, ctx, [s, st, ct] {
            if (QThread::currentThread() != ct) s->directWrong = true;
            int k = s->direct++;
            M m = fromQt(st->read<Resp>());
            if (k >= int(s->expect.size()) || m != s->expect[size_t(k)]) s->mismatch = true;
        }, Qt::DirectConnection);
        QObject::connect(st, &QGrpcStream::messageReceived, ctx, [s] { ++s->notes; }, Qt::QueuedConnection);
        QObject::connect(st, &QGrpcStream::finished, ctx, [s] { ++s->finished; });
    }
    void step(const Op &o) {
        Req arg;
        toQt(o.arg, arg);
        auto *c = w->client;
        switch (o.kind) {
        case Blocking: {
            Resp r;
            QGrpcStatus st = o.two ? c->unaryTwo(arg, QPointer<Resp>(&r)) : c->unaryOne(arg, QPointer<Resp>(&r));
            ++ev;
            if (int(st.code()) != o.code) return bad(o, "status " + std::to_string(st.code()) + " \"" + st.message().toStdString() + "\", expected " + std::to_string(o.code));
            if (o.code && st.message().toStdString() != o.message) return bad(o, "status message differs");
            if (!o.code && fromQt(r) != o.answers[0]) return bad(o, "response " + show(fromQt(r)) + ", expected " + show(o.answers[0]));
            break;
        }
        case NullRet: {
            QGrpcStatus st = c->unaryOne(arg, QPointer<Resp>());
            ++ev;
            if (st.code() == QGrpcStatus::Ok) return bad(o, "succeeds without a place for the result");
            break;
        }
        case Reply: case AbortReply: {
            open.emplace_back(new Seen);
            Seen *s = open.back().get();
            s->op = &o;
            s->reply = o.two ? c->unaryTwo(arg) : c->unaryOne(arg);
            if (!s->reply) { open.pop_back(); return bad(o, "no reply object"); }
            if (s->reply->thread() != w->thread) return bad(o, "the reply object lives in the wrong thread");
            watchReply(s);
            if (o.kind == AbortReply) { if (o.early) w->chan->answer(o.id); s->reply->abort(); }
            else w->chan->answer(o.id);
            if (o.wait) conclude(*s), s->op = nullptr;
            break;
        }
        case Callback: {
            open.emplace_back(new Seen);
            Seen *s = open.back().get();
            s->op = &o;
            auto cb = [s, this](QGrpcCallReplyShared r) {
                ++s->finished;
                s->got = fromQt(r->read<Resp>());
                if (QThread::currentThread() != this) s->wrongThread = true;
            };
            if (o.two) c->unaryTwo(arg, ctx, cb); else c->unaryOne(arg, ctx, cb);
            w->chan->answer(o.id);
            if (o.wait) conclude(*s), s->op = nullptr;
            break;
        }
        case Stream: {
            open.emplace_back(new Seen);
            Seen *s = open.back().get();
            s->expect = o.answers;
            if (o.into) s->into.reset(new Resp);
            if (o.two) s->stream = o.into ? c->streamStreamTwo(arg, QPointer<Resp>(s->into.get())) : c->streamStreamTwo(arg);
            else s->stream = o.into ? c->streamStreamOne(arg, QPointer<Resp>(s->into.get())) : c->streamStreamOne(arg);
            if (!s->stream) { open.pop_back(); return bad(o, "no stream object"); }
            if (s->stream->thread() != w->thread) return bad(o, "the stream object lives in the wrong thread");
            subscribe(s);
            for (auto &m : o.answers) w->chan->deliver(o.id, m);
            int n = int(o.answers.size());
            if (o.reader) {
                size_t at = 0;
                for (int spin = 0; spin < 4000 && s->direct < n; ++spin) {
                    M m = fromQt(s->stream->read<Resp>());
                    ++ev;
                    if (spin == 0 && m == M() && !s->direct) continue;
                    size_t k = at;
                    while (k < o.answers.size() && o.answers[k] != m) ++k;
                    if (k == o.answers.size()) {
                        if (m == M() && at == 0) continue;
                        return bad(o, "read() gives " + show(m) + ", which is not a message received since the previous read");
                    }
                    at = k;
                }
            }
            if (o.early) {
                s->stream->abort();
                n = s->direct;          // nothing may come after abort() returned
                w->flush();
                s->stream->abort();     // and it is over already
                waitFor([&] { return s->notes >= n; });
            } else {
                if (!waitFor([&] { return s->direct >= n && s->notes >= n; })) return bad(o, std::to_string(s->direct) + " of " + std::to_string(n) + " messages arrive");
                s->stream->abort();
            }
            waitFor([&] { return s->finished > 0; });
            QCoreApplication::processEvents();
            ++ev;
            if (s->mismatch || s->direct != n || s->notes != n) return bad(o, "messages are wrong, missing or repeated");
            if (s->directWrong) return bad(o, "messages are delivered in the wrong thread");
            if (s->finished != 1) return bad(o, "the end is reported " + std::to_string(s->finished) + " times");
            if (o.into && n && fromQt(*s->into) != o.answers[size_t(n) - 1]) return bad(o, "the result object does not hold the last message");
            break;
        }
        case Joined: {        // every worker opens the same stream
            open.emplace_back(new Seen);
            Seen *s = open.back().get();
            s->expect = w->joinMsgs;
            s->stream = c->streamStreamOne(arg);
            if (!s->stream) { open.pop_back(); ++w->joinReady; return bad(o, "no stream object"); }
            { std::lock_guard<std::mutex> l(w->mx); w->joined.push_back(s->stream.get()); }
            subscribe(s);
            if (++w->joinReady == w->joiners)
                for (auto &m : w->joinMsgs) w->chan->deliver(o.id, m);
            int n = int(w->joinMsgs.size());
            if (!waitFor([&] { return s->direct >= n && s->notes >= n; })) bad(o, std::to_string(s->direct) + " of " + std::to_string(n) + " messages arrive");
            else if (s->mismatch || s->direct != n || s->notes != n) bad(o, "messages are wrong, missing or repeated");
            ++ev;
            if (++w->joinDone == w->joiners) s->stream->abort();
            if (!waitFor([&] { return s->finished > 0; })) bad(o, "the end of the stream is not reported");
            if (s->finished > 1) bad(o, "the end of the stream is reported twice");
            break;
        }
        case Attach: {
            bool threw = false;
            try { c->attachChannel(w->other); } catch (const std::exception &) { threw = true; }
            ++ev;
            if (!threw) return bad(o, "a channel of another thread is accepted");
            break;
        }
        default: break;
        }
    }
    void run() override {
        QObject context;
        ctx = &context;
        QObject::connect(w->client, &QAbstractGrpcClient::error, ctx, [this](const QGrpcStatus &) { ++told; });
        for (auto &o : prog) {
            if (!error.empty() && o.kind != Joined) continue;
            try { step(o); } catch (const std::exception &e) { bad(o, std::string("exception ") + e.what()); }
        }
        if (error.empty()) for (auto &s : open) if (s->op) conclude(*s);
        // nothing may reach the receivers any more once everything is over
        QCoreApplication::processEvents();
        if (error.empty() && !waitFor([&] { return told >= expectErrors; })) error = "errors of the client do not reach a receiver in another thread";
        for (auto &s : open) if (s->op && (s->finished > 1 || s->errors > 1)) bad(*s->op, "completes twice");
    }
};
struct Keeper : QObject {};
}

static void p27(Ctx &c) {
    static int argc = 1;
    static char name[] = "h_thr", *argv[] = {name, nullptr};
    static QCoreApplication *app = nullptr;
    if (!app) {
        app = new QCoreApplication(argc, argv);
        qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
        QtProtobuf::qRegisterProtobufTypes();
    }
    Src &s = c.src;
    int nworkers = 1 + int(s.draw(5));
    Perturb pert;
    static const std::vector<unsigned> every = {0, 0, 20, 100, 1000};
    pert.every = every[s.draw(every.size())];
    pert.kind = unsigned(s.draw(3));
    pert.seed = s.draw(1000000007);
    World w;
    bool join = nworkers > 1 && s.chance(1, 4);
    std::vector<std::unique_ptr<Worker>> workers;
    int id = 1;
    std::string text;
    Op joinOp;
    if (join) {
        joinOp.kind = Joined;
        joinOp.id = id++;
        joinOp.arg = genM(s);
        joinOp.arg.n = joinOp.id;
        int n = 1 + int(s.draw(5));
        for (int i = 0; i < n; ++i) w.joinMsgs.push_back(genM(s));
        w.joiners = nworkers;
    }
    int nAsync = 0;
    for (int i = 0; i < nworkers; ++i) {
        workers.emplace_back(new Worker);
        Worker &k = *workers.back();
        k.w = &w;
        int n = 1 + int(s.draw(6));
        int at = join ? int(s.draw(uint64_t(n))) : -1;
        for (int j = 0; j < n; ++j) {
            if (j == at) k.prog.push_back(joinOp), text += "joined ";
            Op o;
            o.kind = Kind(s.weighted({6, 6, 4, 2, 4, 0, 1, 1}));
            o.id = id++;
            o.two = s.chance(1, 3);
            o.arg = genM(s);
            o.arg.n = o.id;
            if (o.kind != Stream && s.chance(1, 4)) { o.code = 1 + int(s.draw(16)); o.message = genText(s, 6); }
            int m = o.kind == Stream ? int(s.draw(s.chance(1, 4) ? 30 : 6)) : 1;
            o.reader = s.chance(1, 2);
            o.into = s.chance(1, 2);
            o.wait = !s.chance(1, 2);
            o.early = s.chance(1, 3);
            for (int x = 0; x < m; ++x) {
                o.answers.push_back(genM(s, o.kind == Stream && m < 8));
                if (o.kind == Stream) o.answers.back().n = x + 1;
            }
            if ((o.code && o.kind != Attach && o.kind != NullRet) || (o.kind == AbortReply && !o.early) || o.kind == NullRet) ++k.expectErrors;
            if (o.kind != Attach && o.kind != NullRet) ++nAsync;
            text += std::string(KN[o.kind]) + (o.code ? "!" : "") + (o.kind == Stream ? std::to_string(m) : "") + (o.wait ? " " : "~ ");
            c.label(KN[o.kind]);
            k.prog.push_back(o);
        }
        text += "| ";
    }
    if (join) c.label("joined stream");
    c.describe = std::to_string(nworkers) + " threads: " + text;
    c.hash = hashStr(c.describe);
    c.nontrivial = nworkers > 1 && nAsync > 1;

    setPerturb(pert);
    QThread thread;
    thread.start();
    w.thread = &thread;
    Keeper keeper;
    keeper.moveToThread(&thread);
    std::atomic<int> clientErrors{0};
    QMetaObject::invokeMethod(&keeper, [&] {
        w.chan = std::make_shared<Chan>();
        w.other = std::make_shared<Chan>();
        w.client = new vp::rpc::AlphaClient;
        w.client->attachChannel(w.chan);
        for (auto &k : workers) for (auto &o : k->prog) w.chan->ops[o.id] = &o;
        QObject::connect(w.client, &QAbstractGrpcClient::error, &w.chan->obj, [&](const QGrpcStatus &) { ++clientErrors; }, Qt::DirectConnection);
    }, Qt::BlockingQueuedConnection);
    for (auto &k : workers) k->start();
    for (auto &k : workers) k->wait();
    int left = 0;
    QMetaObject::invokeMethod(&keeper, [&] {
        QCoreApplication::processEvents();
        left = int(w.chan->streams.size());
    }, Qt::BlockingQueuedConnection);
    std::string err;
    for (auto &k : workers) { c.evals += k->ev; if (err.empty()) err = k->error; }
    // what reached the channel
    if (err.empty()) {
        std::map<std::string, int> seen;
        for (auto &e : w.chan->log) {
            if (!e.right) { err = e.kind + " call enters the channel in a thread that does not own the client"; break; }
            if (e.service != "vp.rpc.Alpha") { err = "service " + e.service; break; }
            M m;
            if (!dec(e.args, m)) { err = "argument " + hex(e.args) + " is not what was given"; break; }
            ++seen[e.kind + " " + e.method + " " + enc(m)];
        }
        int total = 0;
        auto want = [&](const Op &o) {
            if (o.kind == Attach || o.kind == NullRet || !err.empty()) return;
            ++total;
            bool st = o.kind == Stream || o.kind == Joined;
            std::string key = std::string(st ? "stream" : o.kind == Blocking ? "blocking" : "reply") + " " + (st ? o.two ? "streamTwo" : "streamOne" : o.two ? "unaryTwo" : "unaryOne") + " " + enc(o.arg);
            if (seen[key] != 1) err = std::string(KN[o.kind]) + " with " + show(o.arg) + " reaches the channel " + std::to_string(seen[key]) + " times";
        };
        int wantErrors = 0;
        for (auto &k : workers) {
            wantErrors += k->expectErrors;
            for (auto &o : k->prog) if (o.kind != Joined) want(o);
        }
        if (join) want(joinOp);
        if (err.empty() && !w.other->log.empty()) err = "a refused channel is used";
        if (err.empty() && total != int(w.chan->log.size())) err = std::to_string(w.chan->log.size()) + " operations reach the channel, " + std::to_string(total) + " were started";
        for (auto *p : w.joined) if (p != w.joined[0] && err.empty()) err = "equal streams opened by several threads are different objects";
        if (err.empty() && clientErrors != wantErrors) err = "the client reports " + std::to_string(clientErrors) + " errors, expected " + std::to_string(wantErrors);
        if (err.empty() && w.chan->wrongEnd) err = "the end of an operation is reported in a thread that does not own the client";
        if (err.empty() && left) err = "a stream stays open after it was aborted";
        for (auto &e : w.chan->ended) if (e.second != 1 && err.empty()) err = "the end of a stream is reported " + std::to_string(e.second) + " times";
        ++c.evals;
    }
    for (auto &k : workers) k->open.clear();
    QMetaObject::invokeMethod(&keeper, [&] {
        delete static_cast<QObject *>(w.client);
        w.chan.reset();
        w.other.reset();
    }, Qt::BlockingQueuedConnection);
    thread.quit();
    thread.wait();
    setPerturb(Perturb());
    if (!err.empty()) fail(err);
}
static Reg r27({"P27", "at least two threads and two calls or streams", p27, 100, nullptr, {}});
