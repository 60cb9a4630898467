#include "fakenet.h"
#include <QCoreApplication>
#include <QEvent>
#include <QTimer>
#include <QUrl>
#include <algorithm>
#include <sanitizer/asan_interface.h>

static constexpr size_t kSlot = 4096;
namespace { struct Pool { std::vector<void *> freeList; } pool; }

// the memory of a reply is handed out again at once, as an ordinary allocator may do; poisoned in between
void *FakeReply::operator new(size_t n) {
    if (n > kSlot) std::abort();
    if (!pool.freeList.empty()) {
        void *p = pool.freeList.back();
        pool.freeList.pop_back();
        ASAN_UNPOISON_MEMORY_REGION(p, kSlot);
        return p;
    }
    return ::operator new(kSlot);
}
void FakeReply::operator delete(void *p, size_t) {
    ASAN_POISON_MEMORY_REGION(p, kSlot);
    pool.freeList.push_back(p);
}

FakeReply::FakeReply(const QNetworkRequest &r, QNetworkAccessManager *m) : QNetworkReply(m) {
    setRequest(r);
    setUrl(r.url());
    setOperation(QNetworkAccessManager::PostOperation);
    setAttribute(QNetworkRequest::HttpStatusCodeAttribute, 200);
    open(QIODevice::ReadOnly);
}
FakeReply::~FakeReply() {}
qint64 FakeReply::readData(char *d, qint64 n) {
    n = std::min<qint64>(n, buf_.size());
    memcpy(d, buf_.constData(), size_t(n));
    buf_.remove(0, int(n));
    return n;
}
void FakeReply::abort() {
    if (isFinished()) return;
    setError(OperationCanceledError, QStringLiteral("Operation canceled"));
    setFinished(true);
    QPointer<FakeReply> self(this);
    emit errorOccurred(OperationCanceledError);
    if (self) emit finished();
    if (self) { buf_.clear(); close(); }
}
bool FakeReply::push(const QByteArray &d, bool signal) {
    if (isFinished()) return false;
    buf_ += d;
    if (signal && !buf_.isEmpty()) emit readyRead();
    return true;
}
bool FakeReply::ready() {
    if (isFinished()) return false;
    if (!buf_.isEmpty()) emit readyRead();
    return true;
}
bool FakeReply::finish(const QList<QPair<QByteArray, QByteArray>> &trailers) {
    if (isFinished()) return false;
    for (auto &t : trailers) setRawHeader(t.first, t.second);
    setFinished(true);
    emit finished();
    return true;
}
bool FakeReply::breakdown(NetworkError e, const QString &text) {
    if (isFinished()) return false;
    setError(e, text);
    QPointer<FakeReply> self(this);
    emit errorOccurred(e);
    if (!self || isFinished()) return true;
    setFinished(true);
    emit finished();
    return true;
}

namespace fakenet {
std::vector<FakeRequest> requests;
struct Timer { qint64 due; uint64_t no; QPointer<const QObject> ctx; bool hasCtx; QtPrivate::QSlotObjectBase *slot; };
static std::vector<Timer> timerList;
static qint64 now = 0;
static uint64_t timerNo = 0;
static QNetworkReply *post(QNetworkAccessManager *m, const QNetworkRequest &r, const QByteArray &body, const char *verb) {
    FakeReply *f = new FakeReply(r, m);
    requests.push_back({r, body, verb, f, -1});
    return f;
}
void reset() {
    pump();
    requests.clear();
    std::vector<Timer> l;
    l.swap(timerList);
    for (auto &t : l) t.slot->destroyIfLastRef();
    pump();
    now = 0;
}
size_t timers() {
    size_t n = 0;
    for (auto &t : timerList) if (!t.hasCtx || t.ctx) ++n;
    return n;
}
void advance(qint64 ms) {
    qint64 end = now + ms;
    for (;;) {
        auto it = std::min_element(timerList.begin(), timerList.end(), [](const Timer &a, const Timer &b) { return a.due != b.due ? a.due < b.due : a.no < b.no; });
        if (it == timerList.end() || it->due > end) break;
        Timer t = *it;
        timerList.erase(it);
        now = std::max(now, t.due);
        if (!t.hasCtx || t.ctx) {
            void *args[1] = {nullptr};
            t.slot->call(const_cast<QObject *>(t.ctx.data()), args);
        }
        t.slot->destroyIfLastRef();
        pump();
    }
    now = end;
}
qint64 time() { return now; }
void pump() {
    for (int i = 0; i < 4; ++i) {
        QCoreApplication::sendPostedEvents();
        QCoreApplication::processEvents();
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    }
}
}

// ---- interposed
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, const QByteArray &data) { return fakenet::post(this, r, data, "POST"); }
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, QIODevice *d) { return fakenet::post(this, r, d ? d->readAll() : QByteArray(), "POST"); }
QNetworkReply *QNetworkAccessManager::put(const QNetworkRequest &r, const QByteArray &data) { return fakenet::post(this, r, data, "PUT"); }
QNetworkReply *QNetworkAccessManager::sendCustomRequest(const QNetworkRequest &r, const QByteArray &verb, const QByteArray &data) { return fakenet::post(this, r, data, verb.constData()); }
void QTimer::singleShotImpl(int msec, Qt::TimerType, const QObject *ctx, QtPrivate::QSlotObjectBase *slot) {
    fakenet::timerList.push_back({fakenet::now + std::max(0, msec), ++fakenet::timerNo, ctx, ctx != nullptr, slot});
}
