// P14: the clients generated for random services, driven through a channel that records what it is asked for
#include "common.h"
#include "gencommon.h"
#include <QAbstractGrpcChannel>
#include <QCoreApplication>
#include <QProtobufSerializer>
#include <algorithm>
using namespace vt;
using namespace pbt;
using namespace QtProtobuf;


namespace {
struct Rec {
    std::string kind, method, service, args;
};
class RecChannel : public QAbstractGrpcChannel
{
public:
    std::vector<Rec> log;
    QByteArray answer;
    QGrpcStatus status{QGrpcStatus::Ok};
    QGrpcCallReply *last = nullptr;
    QGrpcStream *lastStream = nullptr;
    std::shared_ptr<QAbstractProtobufSerializer> s = std::make_shared<QProtobufSerializer>();
    QGrpcStatus call(const QString &m, const QString &sv, const QByteArray &a, QByteArray &r) override {
        log.push_back({"blocking", m.toStdString(), sv.toStdString(), sstr(a)});
        r = answer;
        return status;
    }
    void call(const QString &m, const QString &sv, const QByteArray &a, QGrpcCallReply *r) override {
        log.push_back({"reply", m.toStdString(), sv.toStdString(), sstr(a)});
        last = r;
    }
    void stream(QGrpcStream *st, const QString &sv, QAbstractGrpcClient *) override {
        log.push_back({"stream", st->method().toStdString(), sv.toStdString(), sstr(st->arg())});
        lastStream = st;
    }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return s; }
    ~RecChannel() override = default;
};
int count() { int n = 0; while (vp_methods[n].service) ++n; return n; }
const QtOps &byName(const std::string &full) {
    for (auto &o : ops()) if (full == o.d->full) return o;
    fail("harness: no message " + full);
    return ops()[0];
}
}

static void p14(Ctx &c) {
    commonInit();
    static const int n = count();
    if (!n) return;
    QObject scope;
    auto channel = std::make_shared<RecChannel>();
    // several calls of one client; now and then of several methods
    std::vector<const SvcMethod *> same;
    const SvcMethod &first = vp_methods[c.src.draw(uint64_t(n))];
    for (int i = 0; i < n; ++i) if (std::string(vp_methods[i].service) == first.service) same.push_back(&vp_methods[i]);
    QAbstractGrpcClient *client = first.client(&scope);
    client->attachChannel(channel);
    int errors = 0;
    QObject::connect(client, &QAbstractGrpcClient::error, &scope, [&](const QGrpcStatus &) { ++errors; });
    size_t calls = 1 + c.src.draw(4);
    std::string what;
    for (size_t k = 0; k < calls; ++k) {
        const SvcMethod &m = k ? *same[c.src.draw(same.size())] : first;
        const QtOps &ao = byName(m.arg), &ro = byName(m.ret);
        Val av = genMsg(c.src, *ao.d, pickOpts(c.src, *ao.d)), rv = genMsg(c.src, *ro.d, pickOpts(c.src, *ro.d));
        Obj arg(ao), ret(ro), other(ro);
        ao.set(arg.p, av);
        ro.set(other.p, rv);
        std::string answer = refEncode(*ro.d, rv), sent = sstr(ao.ser(arg.p, ser()));
        channel->answer = qba(answer);
        bool bad = c.src.chance(1, 6);
        channel->status = bad ? QGrpcStatus{QGrpcStatus::StatusCode(1 + c.src.draw(16)), QStringLiteral("no")} : QGrpcStatus{QGrpcStatus::Ok};
        size_t before = channel->log.size();
        errors = 0;
        int variant = int(c.src.draw(m.stream ? 2 : 3));
        what = std::string(m.service) + "/" + m.method + (m.stream ? variant ? " (stream into an object)" : " (stream)" : variant == 0 ? " (blocking)" : variant == 1 ? " (reply)" : " (callback)");
        c.label(m.stream ? "stream" : "call");
        std::unique_ptr<QObject> got;
        Val result;
        bool have = false;
        const char *kind = m.stream ? "stream" : variant == 0 ? "blocking" : "reply";
        auto check = [&](const std::string &k) {
            if (channel->log.size() != before + 1) fail(what + ": the channel was asked " + std::to_string(channel->log.size() - before) + " times, expected once");
            const Rec &r = channel->log.back();
            if (r.kind != k) fail(what + ": wrong kind of operation: " + r.kind);
            if (r.service != m.service) fail(what + ": service name " + r.service);
            if (r.method != m.method) fail(what + ": method name " + r.method);
            if (r.args != sent) fail(what + ": argument bytes " + hex(r.args) + ", expected " + hex(sent));
        };
        if (!m.stream && variant == 0) {
            QGrpcStatus st = m.sync(client, arg.p, ret.p);
            check(kind);
            if ((st.code() == QGrpcStatus::Ok) != !bad || (bad && st.code() != channel->status.code())) fail(what + ": status " + std::to_string(st.code()));
            if (!bad) { result = ret.get(); have = true; }
            else {
                Val v = ret.get(), d = defaultVal(*ro.d);
                normalize(*ro.d, v);
                normalize(*ro.d, d);
                if (v != d) fail(what + ": a failed call changed the result object");
            }
        } else if (!m.stream) {
            QGrpcCallReplyShared rep;
            int done = 0;
            QObject ctx;
            if (variant == 1) rep = m.reply(client, arg.p);
            else m.callback(client, arg.p, &ctx, [&](QGrpcCallReplyShared r) { ++done; got.reset(m.read(r.get())); });
            check(kind);
            if (variant == 1) {
                if (rep.get() != channel->last) fail(what + ": the caller got another reply object than the channel");
                QObject::connect(rep.get(), &QGrpcCallReply::finished, &ctx, [&, r = rep.get()] { ++done; got.reset(m.read(r)); });
            }
            if (bad) channel->last->error(channel->status);
            else { channel->last->setData(channel->answer); channel->last->finished(); }
            if (done != (bad ? 0 : 1)) fail(what + ": " + std::to_string(done) + " completions");
            if (!bad) { ro.get(got.get(), result); have = true; }
        } else {
            QGrpcStreamShared st = variant ? m.openInto(client, arg.p, ret.p) : m.open(client, arg.p);
            if (channel->log.size() == before) {
                // the same method and argument: the client already has that stream
                bool dup = false;
                for (size_t i = 0; i < before; ++i) if (channel->log[i].kind == "stream" && channel->log[i].method == m.method && channel->log[i].args == sent) dup = true;
                if (!dup) fail(what + ": no stream was opened");
                continue;
            }
            check(kind);
            if (st.get() != channel->lastStream) fail(what + ": the caller got another stream object than the channel");
            QObject ctx;
            int msgs = 0;
            QObject::connect(st.get(), &QGrpcStream::messageReceived, &ctx, [&, s = st.get()] { ++msgs; got.reset(m.read(s)); });
            size_t many = 1 + c.src.draw(3);
            for (size_t i = 0; i < many; ++i) {
                if (i) { rv = genMsg(c.src, *ro.d, pickOpts(c.src, *ro.d)); }
                channel->lastStream->handler(qba(refEncode(*ro.d, rv)));
                if (msgs != int(i) + 1) fail(what + ": " + std::to_string(msgs) + " messages after " + std::to_string(i + 1));
                Val r;
                ro.get(got.get(), r);
                Val a = rv;
                normalize(*ro.d, a);
                normalize(*ro.d, r);
                if (a != r) fail(what + ": read() of the stream gives a different message: " + diff(*ro.d, a, r));
                if (variant) {
                    Val q = ret.get();
                    normalize(*ro.d, q);
                    if (a != q) fail(what + ": the object of the stream holds a different message: " + diff(*ro.d, a, q));
                }
            }
            st->abort();      // the result object goes out of scope
            ++c.evals;
            continue;
        }
        if (errors != (bad ? 1 : 0)) fail(what + ": " + std::to_string(errors) + " errors reported by the client");
        if (have) {
            Val a = rv;
            normalize(*ro.d, a);
            normalize(*ro.d, result);
            if (a != result) fail(what + ": the caller reads a different response: " + diff(*ro.d, a, result));
        }
        ++c.evals;
        c.hash = hashStr(what + sent + answer, c.hash);
        if (!sent.empty()) c.nontrivial = true;
    }
}
static Reg r14({"P14", "call with a non-empty argument", p14, 20, nullptr, {}});
