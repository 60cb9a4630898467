// Scripted stand-in for the network: QNetworkAccessManager::post and QTimer::singleShot are interposed by
// the executable, so the HTTP/2 channel of the tree under test runs unmodified against replies and a clock
// owned by the test case (single-threaded, deterministic).
#pragma once
#include <QByteArray>
#include <QList>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QPointer>
#include <QPair>
#include <functional>
#include <vector>

class FakeReply : public QNetworkReply {
public:
    FakeReply(const QNetworkRequest &r, QNetworkAccessManager *m);
    ~FakeReply() override;
    void abort() override;
    qint64 bytesAvailable() const override { return QNetworkReply::bytesAvailable() + buf_.size(); }
    bool isSequential() const override { return true; }
    // the network side; false when the exchange is over
    bool push(const QByteArray &d, bool signal = true);
    bool ready();                                             // readyRead for what was pushed silently
    bool finish(const QList<QPair<QByteArray, QByteArray>> &trailers);
    bool breakdown(NetworkError e, const QString &text);
    static void *operator new(size_t n);
    static void operator delete(void *p, size_t n);
    bool done() const { return isFinished(); }
protected:
    qint64 readData(char *d, qint64 n) override;
private:
    QByteArray buf_;
};

struct FakeRequest {
    QNetworkRequest request;
    QByteArray body;
    QString verb;
    QPointer<FakeReply> reply;
    int taken = -1;             // scratch for the test: which call it belongs to
};
namespace fakenet {
extern std::vector<FakeRequest> requests;
void reset();
size_t timers();                 // pending virtual timers
void advance(qint64 ms);         // move the virtual clock, firing what is due in order
qint64 time();                   // the virtual clock
void pump();                     // run posted events and deferred deletes until quiet
}
