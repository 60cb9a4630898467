#pragma once
#include <QObject>
struct ShapeEnum {
    struct Item { const char *key; int value; };
    const QMetaObject *meta;
    const char *name;
    const Item *items;
};
extern const char *vp_dir;
extern const char *const vp_files[];
extern const ShapeEnum vp_enums[];

// ---- generated clients of randomly generated services
#include <QAbstractGrpcClient>
#include <QGrpcCallReply>
#include <QGrpcStream>
#include <QGrpcStatus>
#include <QPointer>
#include <functional>
struct SvcMethod {
    const char *service;    // full name in the schema
    const char *method;
    const char *arg, *ret;  // full message names
    bool stream;
    QtProtobuf::QAbstractGrpcClient *(*client)(QObject *parent);
    QtProtobuf::QGrpcStatus (*sync)(QtProtobuf::QAbstractGrpcClient *, QObject *arg, QObject *ret);
    QtProtobuf::QGrpcCallReplyShared (*reply)(QtProtobuf::QAbstractGrpcClient *, QObject *arg);
    void (*callback)(QtProtobuf::QAbstractGrpcClient *, QObject *arg, const QObject *ctx, const std::function<void(QtProtobuf::QGrpcCallReplyShared)> &);
    QtProtobuf::QGrpcStreamShared (*open)(QtProtobuf::QAbstractGrpcClient *, QObject *arg);
    QtProtobuf::QGrpcStreamShared (*openInto)(QtProtobuf::QAbstractGrpcClient *, QObject *arg, QObject *ret);
    QObject *(*read)(QtProtobuf::QGrpcAsyncOperationBase *);   // new object with what the operation received
};
extern const SvcMethod vp_methods[];
