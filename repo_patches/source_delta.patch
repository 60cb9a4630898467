From 2cc7fe999e6ef3597e74e204c67d38bfb04c3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 01/47] fix: declare the metatype of a local enum once when
 several fields use it

---
 src/generator/messagedeclarationprinter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..b6e43be 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,6 +29,7 @@
 #include "generatorcommon.h"
 
 #include <iostream>
+#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -190,11 +191,15 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    // Several fields may share the same local enum, its meta type has to be declared only once
+    std::set<const EnumDescriptor *> declaredEnums;
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
         if (field->type() == FieldDescriptor::TYPE_ENUM
                 && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
+            if (declaredEnums.insert(field->enum_type()).second) {
+                mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
+                mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
+            }
         } else if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
-- 
2.43.0


From e21ba8d621d94943bc8c41c93d31de1f732f3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 02/47] fix: check the bounds of serialized data before reading
 it

---
 src/protobuf/qprotobufselfcheckiterator.h | 11 ++++++++---
 src/protobuf/qprotobufserializer_p.h      | 11 ++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..78f5f68 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -54,7 +54,12 @@ public:
     explicit operator QByteArray::const_iterator&() { return m_it; }
     explicit operator QByteArray::const_iterator() const { return m_it; }
 
-    char operator *() { return *m_it; }
+    char operator *() {
+        if (m_sizeLeft <= 0) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return *m_it;
+    }
 
     QProtobufSelfcheckIterator &operator ++() {
         --m_sizeLeft;
@@ -75,10 +80,10 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..3f72097 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -303,8 +303,9 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        const char *data = it.data();
+        it += sizeof(V); //Throws if the container doesn't hold the complete value
+        variantValue = QVariant::fromValue(*(const V *)data);
     }
 
     template <typename V,
@@ -375,9 +376,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
-        it += length;
-        return result;
+        const char *data = it.data();
+        it += length; //Throws if the container doesn't hold the complete field
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From 92895c0423bdb36e47fc8d621674b651ec2c6804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 03/47] fix: reject varints longer than 10 bytes instead of
 shifting out of range

---
 src/protobuf/qprotobufserializer_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 3f72097..3f422b2 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -281,6 +281,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= 70) { //Varint never takes more than 10 bytes
+                throw std::invalid_argument("Varint is longer than 10 bytes. Deserialization failed");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
-- 
2.43.0


From f39c6214ce8431be506d525f3adf48c03e0cc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 04/47] fix: keep null characters and leading U+FEFF of
 received strings

---
 src/protobuf/qprotobufserializer.cpp |  3 +--
 src/protobuf/qprotobufserializer_p.h | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..b65514d 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -67,8 +67,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
     QStringList list = previousValue.value<QStringList>();
-    QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(deserializeString(it));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 3f422b2..89f5a54 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -352,7 +352,7 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        variantValue = QVariant::fromValue(deserializeString(it));
     }
 
     //-------------------------List types deserializers--------------------------
@@ -384,6 +384,17 @@ public:
         return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
+    static QString deserializeString(QProtobufSelfcheckIterator &it) {
+        const QByteArray data = deserializeLengthDelimited(it);
+        //QString::fromUtf8(const QByteArray &) stops at the first null character, provide length explicitly
+        QString result = QString::fromUtf8(data.constData(), data.size());
+        //Leading U+FEFF is part of the string, but QString::fromUtf8 drops it
+        if (data.startsWith("\xEF\xBB\xBF")) {
+            result.prepend(QChar(0xFEFF));
+        }
+        return result;
+    }
+
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
         qProtoDebug() << __func__ << "data.size" << data.size() << "data" << data.toHex();
         QByteArray result(data);
-- 
2.43.0


From b21aa23182d55b4c7e41ecf457dab105bbd44d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 05/47] fix: append chunks of packed repeated fields instead of
 keeping only the last one

---
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 89f5a54..28d721d 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -361,7 +361,8 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        //Packed field might be split to several chunks
+        QList<V> out = previousValue.value<QList<V>>();
         unsigned int count = deserializeVarintCommon<uint32>(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
         while (it != lastVarint) {
-- 
2.43.0


From df11b72903bb2c150117a54434b8db7427ea9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:24 +0000
Subject: [PATCH 06/47] fix: merge sub-message fields that occur more than
 once, free them if parsing fails

---
 src/protobuf/qabstractprotobufserializer_p.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ee47fc6..9994397 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -31,6 +31,7 @@
 #include <QMetaEnum>
 
 #include <functional>
+#include <memory>
 
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -175,9 +176,13 @@ template <typename T,
           typename std::enable_if_t<std::is_base_of<QObject, T>::value, int> = 0>
 void deserializeObject(const QtProtobuf::QAbstractProtobufSerializer *serializer, QtProtobuf::QProtobufSelfcheckIterator &it, QVariant &to) {
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
-    T *value = new T;
-    serializer->deserializeObject(value, T::protobufMetaObject, it);
-    to = QVariant::fromValue<T *>(value);
+    std::unique_ptr<T> value(new T);
+    //Field that appears more than once has to be merged with previously received part
+    if (const T *previous = to.value<T *>()) {
+        *value = *previous;
+    }
+    serializer->deserializeObject(value.get(), T::protobufMetaObject, it);
+    to = QVariant::fromValue<T *>(value.release());
 }
 
 /*!
@@ -190,10 +195,10 @@ void deserializeList(const QtProtobuf::QAbstractProtobufSerializer *serializer,
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-    V *newValue = new V;
+    QSharedPointer<V> newValue(new V);
     QList<QSharedPointer<V>> list = previous.value<QList<QSharedPointer<V>>>();
-    if (serializer->deserializeListObject(newValue, V::protobufMetaObject, it)) {
-        list.append(QSharedPointer<V>(newValue));
+    if (serializer->deserializeListObject(newValue.data(), V::protobufMetaObject, it)) {
+        list.append(newValue);
         previous.setValue(list);
     }
 }
-- 
2.43.0


From a8df5e43369fcd5fa45430128394451c94f598d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:24 +0000
Subject: [PATCH 07/47] fix: skip unknown parts of map entries and default the
 missing message values

---
 src/protobuf/qabstractprotobufserializer_p.h | 4 +++-
 src/protobuf/qprotobufserializer.cpp         | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index 9994397..13ef746 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -241,7 +241,9 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
     QVariant value = QVariant::fromValue<V *>(nullptr);
 
     if (serializer->deserializeMapPair(key, value, it)) {
-        out[key.value<K>()] = QSharedPointer<V>(value.value<V *>());
+        //Value might be skipped by sender if it's equal to default one
+        V *pairValue = value.value<V *>();
+        out[key.value<K>()] = QSharedPointer<V>(pairValue != nullptr ? pairValue : new V);
         previous = QVariant::fromValue<QMap<K, QSharedPointer<V>>>(out);
     }
 }
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index b65514d..919d470 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -331,12 +331,17 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map field received doesn't contains valid header byte. "
+                                  "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
+        } else if (mapIndex != 2) {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         } else {
             //TODO: replace with some common function
             int userType = value.userType();
-- 
2.43.0


From 60469b6bd9a7e167bd7bd813458bd195e35ef6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:37 +0000
Subject: [PATCH 08/47] fix: compare maps and lists of messages with different
 keys or null items without dereferencing null

---
 src/protobuf/qtprotobuftypes.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..26b0d1c 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -283,7 +283,7 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (*itA != *itB && (itA->isNull() || itB->isNull() || *(*itA) != *(*itB))) {
             return false;
         }
         ++itA;
@@ -304,9 +304,13 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
         return false;
     }
 
-    for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+    for (auto itA = a.constBegin(); itA != a.constEnd(); ++itA) {
+        auto itB = b.constFind(itA.key());
+        if (itB == b.constEnd()) {
+            return false;
+        }
+        if (itA.value() != itB.value()
+                && (itA.value().isNull() || itB.value().isNull() || *(itA.value()) != *(itB.value()))) {
             return false;
         }
     }
-- 
2.43.0


From 8780b13515da9742122312a97a6eb3cb1c165008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:19 +0000
Subject: [PATCH 09/47] fix: accept unpacked repeated fields, skip fields of
 unexpected wire type

---
 src/protobuf/qabstractprotobufserializer.h   |   4 +-
 src/protobuf/qabstractprotobufserializer_p.h |   4 +-
 src/protobuf/qprotobufserializer.cpp         | 103 ++++++++++++-------
 src/protobuf/qprotobufserializer_p.h         |  11 +-
 4 files changed, 80 insertions(+), 42 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index f8dfc0f..4a5d8c6 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -327,7 +327,7 @@ template<typename T,
          typename std::enable_if_t<std::is_enum<T>::value, int> = 0>
 inline void qRegisterProtobufEnumType() {
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
-                                                           QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::ObjectHandler });
+                                                           QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::EnumHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
-                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::ListHandler });
+                                                           QtProtobufPrivate::deserializeEnumList<T>, QtProtobufPrivate::EnumListHandler });
 }
diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index 13ef746..f3756e8 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -56,7 +56,9 @@ using Deserializer = std::function<void(const QtProtobuf::QAbstractProtobufSeria
 enum HandlerType {
     ObjectHandler,
     ListHandler,
-    MapHandler
+    MapHandler,
+    EnumHandler,
+    EnumListHandler
 };
 
 /*!
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 919d470..79467cd 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -197,18 +197,18 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
-        wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited>();
-        wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited>();
-        wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited>();
-        wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited>();
-        wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited>();
-        wrapSerializer<sfixed64List, serializeListType, deserializeList<sfixed64>, LengthDelimited>();
-        wrapSerializer<int32List, serializeListType, deserializeList<int32>, LengthDelimited>();
-        wrapSerializer<int64List, serializeListType, deserializeList<int64>, LengthDelimited>();
-        wrapSerializer<sint32List, serializeListType, deserializeList<sint32>, LengthDelimited>();
-        wrapSerializer<sint64List, serializeListType, deserializeList<sint64>, LengthDelimited>();
-        wrapSerializer<uint32List, serializeListType, deserializeList<uint32>, LengthDelimited>();
-        wrapSerializer<uint64List, serializeListType, deserializeList<uint64>, LengthDelimited>();
+        wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited, Fixed32>();
+        wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited, Fixed64>();
+        wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited, Fixed32>();
+        wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited, Fixed64>();
+        wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited, Fixed32>();
+        wrapSerializer<sfixed64List, serializeListType, deserializeList<sfixed64>, LengthDelimited, Fixed64>();
+        wrapSerializer<int32List, serializeListType, deserializeList<int32>, LengthDelimited, Varint>();
+        wrapSerializer<int64List, serializeListType, deserializeList<int64>, LengthDelimited, Varint>();
+        wrapSerializer<sint32List, serializeListType, deserializeList<sint32>, LengthDelimited, Varint>();
+        wrapSerializer<sint64List, serializeListType, deserializeList<sint64>, LengthDelimited, Varint>();
+        wrapSerializer<uint32List, serializeListType, deserializeList<uint32>, LengthDelimited, Varint>();
+        wrapSerializer<uint64List, serializeListType, deserializeList<uint64>, LengthDelimited, Varint>();
         wrapSerializer<QStringList, QStringList, serializeListType<QString>, deserializeList<QString>, LengthDelimited>();
         wrapSerializer<QByteArrayList, serializeListType, deserializeList<QByteArray>, LengthDelimited>();
     }
@@ -281,6 +281,55 @@ QByteArray QProtobufSerializerPrivate::serializeProperty(const QVariant &propert
     return result;
 }
 
+/*!
+ * \brief Deserializes single field of type \a userType, that has \a wireType on wire
+ * \return false if \a wireType doesn't match the type of field, such field is skipped like an unknown one
+ */
+bool QProtobufSerializerPrivate::deserializeValue(int userType, QVariant &value, WireTypes wireType, QProtobufSelfcheckIterator &it)
+{
+    WireTypes expectedType = LengthDelimited;
+    WireTypes elementType = UnknownWireType;
+    QtProtobufPrivate::SerializationHandler handler;
+    auto basicIt = handlers.find(userType);
+    if (basicIt != handlers.end()) {
+        expectedType = basicIt->second.type;
+        elementType = basicIt->second.elementType;
+    } else {
+        handler = QtProtobufPrivate::findHandler(userType);
+        if (handler.type == QtProtobufPrivate::EnumHandler) {
+            expectedType = Varint;
+        } else if (handler.type == QtProtobufPrivate::EnumListHandler) {
+            elementType = Varint;
+        }
+    }
+
+    auto deserialize = [&](QProtobufSelfcheckIterator &fieldIt) {
+        if (basicIt != handlers.end()) {
+            basicIt->second.deserializer(fieldIt, value);
+        } else {
+            handler.deserializer(q_ptr, fieldIt, value);//throws if not implemented
+        }
+    };
+
+    if (wireType == expectedType) {
+        deserialize(it);
+        return true;
+    }
+
+    const char *data = it.data();
+    int size = skipSerializedFieldBytes(it, wireType);
+    if (wireType != elementType) {
+        qProtoWarning() << "Message received contains field of unexpected WireType:" << wireType;
+        return false;
+    }
+
+    //Single element of repeated field, that is not packed
+    QByteArray packed = prependLengthDelimitedSize(QByteArray(data, size));
+    QProtobufSelfcheckIterator packedIt(packed);
+    deserialize(packedIt);
+    return true;
+}
+
 void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QProtobufMetaObject &metaObject, QProtobufSelfcheckIterator &it)
 {
     //Each iteration we expect iterator is setup to beginning of next chunk
@@ -311,16 +360,9 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     newPropertyValue = metaProperty.read(object);
     int userType = metaProperty.userType();
 
-    //TODO: replace with some common function
-    auto basicIt = handlers.find(userType);
-    if (basicIt != handlers.end()) {
-        basicIt->second.deserializer(it, newPropertyValue);
-    } else {
-        auto handler = QtProtobufPrivate::findHandler(userType);
-        handler.deserializer(q_ptr, it, newPropertyValue);
+    if (deserializeValue(userType, newPropertyValue, wireType, it)) {
+        metaProperty.write(object, newPropertyValue);
     }
-
-    metaProperty.write(object, newPropertyValue);
 }
 
 void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &value, QProtobufSelfcheckIterator &it)
@@ -336,22 +378,11 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
                                   "Seems stream is broken");
         }
         if (mapIndex == 1) {
-            //Only simple types are supported as keys
-            int userType = key.userType();
-            auto &handler = handlers.at(userType);//throws if not found
-            handler.deserializer(it, key);
-        } else if (mapIndex != 2) {
-            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
+            deserializeValue(key.userType(), key, type, it);
+        } else if (mapIndex == 2) {
+            deserializeValue(value.userType(), value, type, it);
         } else {
-            //TODO: replace with some common function
-            int userType = value.userType();
-            auto basicIt = handlers.find(userType);
-            if (basicIt != handlers.end()) {
-                basicIt->second.deserializer(it, value);
-            } else {
-                auto handler = QtProtobufPrivate::findHandler(userType);
-                handler.deserializer(q_ptr, it, value);//throws if not implemented
-            }
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         }
     }
 }
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 28d721d..9c11e4e 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -62,6 +62,7 @@ public:
         Serializer serializer; /*!< serializer assigned to class */
         Deserializer deserializer;/*!< deserializer assigned to class */
         WireTypes type;/*!< Serialization WireType */
+        WireTypes elementType;/*!< WireType of single element of packed list, UnknownWireType for other types */
     };
 
     using SerializerRegistry = std::unordered_map<int/*metatypeid*/, SerializationHandlers>;
@@ -430,13 +431,14 @@ public:
         return s(value, fieldIndex);
     }
 
-    template <typename T, QByteArray(*s)(const T &, int &), Deserializer d, WireTypes type,
+    template <typename T, QByteArray(*s)(const T &, int &), Deserializer d, WireTypes type, WireTypes elementType = UnknownWireType,
     typename std::enable_if_t<!std::is_base_of<QObject, T>::value, int> = 0>
     static void wrapSerializer() {
         handlers[qMetaTypeId<T>()] = {
                 serializeWrapper<T, s>,
                 d,
-                type
+                type,
+                elementType
         };
     }
 
@@ -446,7 +448,8 @@ public:
         handlers[qMetaTypeId<T>()] = {
                 serializeWrapper<S, s>,
                 d,
-                type
+                type,
+                UnknownWireType
         };
     }
 
@@ -456,6 +459,8 @@ public:
     static void skipVarint(QProtobufSelfcheckIterator &it);
     static void skipLengthDelimited(QProtobufSelfcheckIterator &it);
 
+    bool deserializeValue(int userType, QVariant &value, WireTypes wireType, QProtobufSelfcheckIterator &it);
+
     QByteArray serializeProperty(const QVariant &propertyValue, const QProtobufMetaProperty &metaProperty);
     void deserializeProperty(QObject *object, const QProtobufMetaObject &metaObject, QProtobufSelfcheckIterator &it);
 
-- 
2.43.0


From 3349330eb2cd12680c5e40e0bbe04603b42b4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:19 +0000
Subject: [PATCH 10/47] fix: do not lose upper bits of bool varints

---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 79467cd..02253d4 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -193,7 +193,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<fixed64, serializeBasic, deserializeBasic<fixed64>, Fixed64>();
         wrapSerializer<sfixed32, serializeBasic, deserializeBasic<sfixed32>, Fixed32>();
         wrapSerializer<sfixed64, serializeBasic, deserializeBasic<sfixed64>, Fixed64>();
-        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<uint32>, Varint>();
+        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<bool>, Varint>();
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
-- 
2.43.0


From 378ab1d5de84d2426672f22f96b2c03074a9d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:54 +0000
Subject: [PATCH 11/47] fix: notify about enum fields changed by move
 assignment

---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..7fcb0f1 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -302,7 +302,7 @@ void MessageDefinitionPrinter::printMoveSemantic()
                 mPrinter->Print(propertyMap, Templates::MoveFieldTemplate);
             }
             else {
-                mPrinter->Print(propertyMap, Templates::EnumMoveFieldTemplate);
+                mPrinter->Print(propertyMap, Templates::CopyFieldTemplate);
             }
         }
     });
-- 
2.43.0


From da44408d54fcadecc24acaabef3fa55a41a68dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:06 +0000
Subject: [PATCH 12/47] fix: free values of map entries that are replaced or
 fail to parse

---
 src/protobuf/qabstractprotobufserializer_p.h | 10 +++++++++-
 src/protobuf/qprotobufserializer.cpp         |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index f3756e8..01373a3 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -242,7 +242,15 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
     QVariant key = QVariant::fromValue<K>(K());
     QVariant value = QVariant::fromValue<V *>(nullptr);
 
-    if (serializer->deserializeMapPair(key, value, it)) {
+    bool deserialized = false;
+    try {
+        deserialized = serializer->deserializeMapPair(key, value, it);
+    } catch (...) {
+        delete value.value<V *>();
+        throw;
+    }
+
+    if (deserialized) {
         //Value might be skipped by sender if it's equal to default one
         V *pairValue = value.value<V *>();
         out[key.value<K>()] = QSharedPointer<V>(pairValue != nullptr ? pairValue : new V);
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 02253d4..8c0857d 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -380,7 +380,11 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
         if (mapIndex == 1) {
             deserializeValue(key.userType(), key, type, it);
         } else if (mapIndex == 2) {
+            QObject *previous = value.value<QObject *>();
             deserializeValue(value.userType(), value, type, it);
+            if (previous != value.value<QObject *>()) {
+                delete previous;//Merged to the new value
+            }
         } else {
             QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         }
-- 
2.43.0


From 04f31e3a54352c7f4ba4f5b64a0d9b6207bfc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:50 +0000
Subject: [PATCH 13/47] fix: do not delete replies and streams twice when they
 outlive their client

---
 src/grpc/qabstractgrpcclient.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..1dac1eb 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -29,6 +29,7 @@
 #include "qgrpcstream.h"
 #include "qprotobufserializerregistry_p.h"
 
+#include <QPointer>
 #include <QTimer>
 #include <QThread>
 
@@ -105,7 +106,12 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
                                       return call(method, arg);
                                   }, Qt::BlockingQueuedConnection, &reply);
     } else if (dPtr->channel) {
-        reply.reset(new QGrpcCallReply(this), [](QGrpcCallReply *reply) { reply->deleteLater(); });
+        QPointer<QGrpcCallReply> guard(new QGrpcCallReply(this));
+        reply.reset(guard.data(), [guard](QGrpcCallReply *) {
+            if (guard) { // the reply is destroyed together with the client
+                guard->deleteLater();
+            }
+        });
 
         auto errorConnection = std::make_shared<QMetaObject::Connection>();
         auto finishedConnection = std::make_shared<QMetaObject::Connection>();
@@ -140,7 +146,12 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
                                       return stream(method, arg, handler);
                                   }, Qt::BlockingQueuedConnection, &grpcStream);
     } else if (dPtr->channel) {
-        grpcStream.reset(new QGrpcStream(method, arg, handler, this), [](QGrpcStream *stream) { stream->deleteLater(); });
+        QPointer<QGrpcStream> guard(new QGrpcStream(method, arg, handler, this));
+        grpcStream.reset(guard.data(), [guard](QGrpcStream *) {
+            if (guard) { // the stream is destroyed together with the client
+                guard->deleteLater();
+            }
+        });
 
         auto it = std::find_if(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), [grpcStream](const QGrpcStreamShared &activeStream) {
            return *activeStream == *grpcStream;
-- 
2.43.0


From f398690c1e6d13086151444bcd475a783f37144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 14/47] fix: reassemble stream messages whatever chunks they
 arrive in

---
 src/grpc/qgrpchttp2channel.cpp | 54 +++++++++++-----------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..99b4ee7 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -99,17 +99,11 @@ const int GrpcMessageSizeHeaderSize = 5;
 namespace QtProtobuf {
 //! \private
 struct QGrpcHttp2ChannelPrivate {
-    //! \private
-    struct ExpectedData {
-        int expectedSize;
-        QByteArray container;
-    };
-
     QUrl url;
     QNetworkAccessManager nm;
     std::unique_ptr<QAbstractGrpcCredentials> credentials;
     QSslConfiguration sslConfig;
-    std::unordered_map<QNetworkReply *, ExpectedData> activeStreamReplies;
+    std::unordered_map<QNetworkReply *, QByteArray> activeStreamReplies; // Bytes of incomplete messages
     QObject lambdaContext;
 
     QNetworkReply *post(const QString &method, const QString &service, const QByteArray &args, bool stream = false) {
@@ -192,8 +186,8 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        return qint64(qFromBigEndian<quint32>(container.constData() + 1)) + GrpcMessageSizeHeaderSize;
     }
 };
 
@@ -278,42 +272,28 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
     *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
         QByteArray data = networkReply->readAll();
         qProtoDebug() << "RECV" << data.size();
 
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
+        dPtr->activeStreamReplies[networkReply].append(data);
 
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
+        // The handler might abort the stream or run the event loop, so the container is looked up for each message
+        while (!networkReply->isFinished()) {
+            auto replyIt = dPtr->activeStreamReplies.find(networkReply);
+            if (replyIt == dPtr->activeStreamReplies.end() || replyIt->second.size() < GrpcMessageSizeHeaderSize) {
+                break;
             }
 
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
-        }
-
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
+            QByteArray &container = replyIt->second;
+            qint64 expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(container);
+            qProtoDebug() << "Proceed chunk: " << data.size() << " container: " << container.size() << " expected: " << expectedSize;
+            if (container.size() < expectedSize) {
+                break;
             }
-        }
 
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
+            QByteArray message = container.mid(GrpcMessageSizeHeaderSize, int(expectedSize) - GrpcMessageSizeHeaderSize);
+            container.remove(0, int(expectedSize));
+            grpcStream->handler(message);
         }
     });
 
-- 
2.43.0


From c517ba5337d65d78fa5b5a0703a0bc7f596e4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 15/47] fix: forget the received bytes of an aborted stream

---
 src/grpc/qgrpchttp2channel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 99b4ee7..8d727b7 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -350,7 +350,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         }
     });
 
-    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection] {
+    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this] {
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
@@ -360,6 +360,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*abortConnection) {
             QObject::disconnect(*abortConnection);
         }
+        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
-- 
2.43.0


From 3ed1e9c858e41eebd3cd69ecc4aa3835f005d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 16/47] fix: decode percent-encoded status messages

---
 src/grpc/qgrpchttp2channel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 8d727b7..f97a710 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -219,7 +219,7 @@ QGrpcStatus QGrpcHttp2Channel::call(const QString &method, const QString &servic
 
     networkReply->deleteLater();
     qProtoDebug() << __func__ << "RECV: " << ret.toHex() << "grpcStatus" << grpcStatus;
-    return {grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))};
+    return {grpcStatus, QUrl::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage))};
 }
 
 void QGrpcHttp2Channel::call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply)
@@ -245,7 +245,7 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             reply->finished();
         } else {
             reply->setData({});
-            reply->error({grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+            reply->error({grpcStatus, QUrl::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage))});
         }
         networkReply->deleteLater();
     });
@@ -338,7 +338,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-                grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+                grpcStream->error(QGrpcStatus{grpcStatus, QUrl::fromPercentEncoding(networkReply->rawHeader(GrpcStatusMessage))});
             } else {
                 grpcStream->finished();
             }
-- 
2.43.0


From ff86762cbcf100d1e155b04fd9366938538075c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 17/47] fix: take the size of credential names into account

---
 src/grpc/qgrpchttp2channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index f97a710..4d4b287 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -119,7 +119,7 @@ struct QGrpcHttp2ChannelPrivate {
         request.setSslConfiguration(sslConfig);
         QGrpcCredentialMap callCredentials = credentials->callCredentials();
         for (auto i = callCredentials.begin(); i != callCredentials.end(); ++i) {
-            request.setRawHeader(i.key().data(), i.value().toString().toUtf8());
+            request.setRawHeader(QByteArray(i.key().data(), i.key().size()), i.value().toString().toUtf8());
         }
 
         request.setAttribute(QNetworkRequest::Http2DirectAttribute, true);
-- 
2.43.0


From 2b6f9e09d94dfe0c354ef06db7b974a94726e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 18/47] fix: allow assignment to a moved-from status

---
 src/grpc/qgrpcstatus.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcstatus.cpp b/src/grpc/qgrpcstatus.cpp
index 5aa1c73..aedaeee 100644
--- a/src/grpc/qgrpcstatus.cpp
+++ b/src/grpc/qgrpcstatus.cpp
@@ -52,8 +52,9 @@ QGrpcStatus::QGrpcStatus(QGrpcStatus &&other) : dPtr(std::move(other.dPtr))
 
 QGrpcStatus &QGrpcStatus::operator =(const QGrpcStatus &other)
 {
-    dPtr->m_code = other.dPtr->m_code;
-    dPtr->m_message = other.dPtr->m_message;
+    if (this != &other) {
+        dPtr = std::make_unique<QGrpcStatusPrivate>(other.dPtr->m_code, other.dPtr->m_message);
+    }
     return *this;
 }
 
-- 
2.43.0


From 39776b4a12b7be11b35484cb4ac133580b46c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 19/47] fix: abort all active streams when another channel is
 attached

---
 src/grpc/qabstractgrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 1dac1eb..c70c936 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -64,11 +64,12 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    // Aborted streams are removed from activeStreams, so it's not possible to iterate over it directly
+    for (const auto &stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    for (const auto &stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
 }
-- 
2.43.0


From 487e5848c01d1d447c4947e4e2a8e68de1695099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 20/47] fix: do not reconnect streams aborted while waiting for
 reconnection

---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index c70c936..5a4b784 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -171,7 +171,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                // Stream might be aborted meanwhile
+                if (stream && std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream) != std::end(dPtr->activeStreams)) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From 6172d36fc98e40fa01c0e28f54a464b8df2c4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:12 +0000
Subject: [PATCH 21/47] fix: allow to subscribe to a stream while it handles a
 message

---
 src/grpc/qgrpcstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..f09f614 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,9 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        // Handlers might be added while the message is being handled
+        const std::vector<StreamHandler> handlers = m_handlers;
+        for (const auto &handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From 87940f7d74dfb5a7c444dbb087097406c58e915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 22/47] fix: do not take a response without status for success

---
 src/grpc/qgrpchttp2channel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 4d4b287..f0cfd19 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -163,7 +163,9 @@ struct QGrpcHttp2ChannelPrivate {
         }
 
         //Check if server answer with error
-        statusCode = static_cast<QGrpcStatus::StatusCode>(networkReply->rawHeader(GrpcStatusHeader).toInt());
+        bool statusReceived = false;
+        int receivedStatus = networkReply->rawHeader(GrpcStatusHeader).toInt(&statusReceived);
+        statusCode = statusReceived ? static_cast<QGrpcStatus::StatusCode>(receivedStatus) : QGrpcStatus::StatusCode::Unknown;
         if (statusCode != QGrpcStatus::StatusCode::Ok) {
             return {};
         }
-- 
2.43.0


From 769ddf31eac6011dcca24e5593b2cdad1a509185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 23/47] fix: do not offer message compression that is not
 supported

---
 src/grpc/qgrpchttp2channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index f0cfd19..946211d 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -113,7 +113,7 @@ struct QGrpcHttp2ChannelPrivate {
         qProtoDebug() << "Service call url: " << callUrl;
         QNetworkRequest request(callUrl);
         request.setHeader(QNetworkRequest::ContentTypeHeader, "application/grpc");
-        request.setRawHeader(GrpcAcceptEncodingHeader, "identity,deflate,gzip");
+        request.setRawHeader(GrpcAcceptEncodingHeader, "identity");
         request.setRawHeader(AcceptEncodingHeader, "identity,gzip");
         request.setRawHeader(TEHeader, "trailers");
         request.setSslConfiguration(sslConfig);
-- 
2.43.0


From 86e675e15e36b2d607a3a1e3ffc59481abd38158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:38 +0000
Subject: [PATCH 24/47] fix: keep the native channel alive as long as its calls
 run

---
 src/grpc/qgrpcchannel.cpp | 15 ++++++++-------
 src/grpc/qgrpcchannel_p.h |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..603cc3a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -78,12 +78,13 @@ static inline void parseQByteArray(const QByteArray &bytearray, grpc::ByteBuffer
     buffer.Swap(&tmp);
 }
 
-QGrpcChannelStream::QGrpcChannelStream(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent)
+QGrpcChannelStream::QGrpcChannelStream(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent)
+  , channel(channel)
 {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
-    reader = grpc::internal::ClientReaderFactory<grpc::ByteBuffer>::Create(channel,
+    reader = grpc::internal::ClientReaderFactory<grpc::ByteBuffer>::Create(channel.get(),
         grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::SERVER_STREAMING),
         &context, request);
 
@@ -142,7 +143,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +152,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +214,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +246,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
@@ -269,7 +270,7 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
     std::shared_ptr<QMetaObject::Connection> connection(new QMetaObject::Connection);
 
     sub.reset(
-        new QGrpcChannelStream(m_channel.get(), rpcName, stream->arg(), stream),
+        new QGrpcChannelStream(m_channel, rpcName, stream->arg(), stream),
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..6c4979e 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -48,7 +48,7 @@ class QGrpcChannelStream : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelStream(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelStream(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelStream();
 
     void cancel();
@@ -63,6 +63,7 @@ public:
 
 private:
     QThread *thread;
+    std::shared_ptr<grpc::Channel> channel; // used until the thread ends
     grpc::ClientContext context;
     grpc::ClientReader<grpc::ByteBuffer> *reader = nullptr;
 };
@@ -73,7 +74,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From a3c7bb3cbd52281eb914a9b84e1920eb15b8fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:38 +0000
Subject: [PATCH 25/47] fix: report the end of streams closed by the server on
 native channel

---
 src/grpc/qgrpcchannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 603cc3a..4b6c3b4 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -289,6 +289,8 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         if (sub->status.code() != QGrpcStatus::Ok)
         {
             stream->error(sub->status);
+        } else {
+            stream->finished();
         }
     });
 
-- 
2.43.0


From f6ccaac2d809129d263f9b585a8b6ac589515cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 26/47] fix: do not deliver queued data of aborted streams on
 native channel

---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 4b6c3b4..445ee44 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -274,8 +274,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        // Data might be queued already when the stream is aborted
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From d210518e589b2d50fdbbe39e4aa0049d06291e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 27/47] fix: use class names of enclosing messages in the scope
 of nested types

Message names are capitalised in generated classes, references to the types nested in a message that starts with lower case letter were not.
---
 src/generator/generatorcommon.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/generatorcommon.h b/src/generator/generatorcommon.h
index f8d1423..43b1176 100644
--- a/src/generator/generatorcommon.h
+++ b/src/generator/generatorcommon.h
@@ -59,6 +59,10 @@ struct common {
         if (!namespacesList.empty()) {
             namespacesList.pop_back(); //Remove name
         }
+        //Classes of the enclosing messages always start with upper case letter
+        for (size_t i = utils::split(type->file()->package(), '.').size(); i < namespacesList.size(); i++) {
+            namespacesList[i] = utils::upperCaseName(namespacesList[i]);
+        }
         return namespacesList;
     }
 
-- 
2.43.0


From 2ae61473ed30b5fbec09ec8d7f7042eb8e8d461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 28/47] fix: use generated enumerator name as enum property
 default

Enumerators are capitalised in generated code.
---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 7fcb0f1..e0e0c2b 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -172,7 +172,7 @@ void MessageDefinitionPrinter::printInitializationList(int fieldCount)
                 propertyMap["initializer"] = "false";
                 break;
             case FieldDescriptor::TYPE_ENUM:
-                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + field->enum_type()->value(0)->name();
+                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + utils::upperCaseName(field->enum_type()->value(0)->name());
                 break;
             default:
                 break;
-- 
2.43.0


From 6c6bf86beff51f574850ea8d1fc343975f3459f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 29/47] fix: treat enums of nested messages as enums of a
 neighbor message

Only enums of top-level messages were recognised, enums declared deeper were taken for global ones.
---
 src/generator/generatorcommon.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index d0f953a..444f6d2 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -383,15 +383,8 @@ common::EnumVisibility common::enumVisibility(const EnumDescriptor *type, const
         return LOCAL_ENUM;
     }
 
-    const FileDescriptor *typeFile = type->file();
-
-    for (int i = 0; i < typeFile->message_type_count(); i++) {
-        const Descriptor *msg = typeFile->message_type(i);
-        for (int j = 0; j < msg->enum_type_count(); j++) {
-            if (type->full_name() == msg->enum_type(j)->full_name()) {
-                return NEIGHBOR_ENUM;
-            }
-        }
+    if (type->containing_type() != nullptr) {
+        return NEIGHBOR_ENUM;
     }
 
     return GLOBAL_ENUM;
-- 
2.43.0


From 12eddd766babbddce23679c846c09e56e6182188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 30/47] fix: generate classes for all nested messages

Nested messages that were unused, or used by map fields only, were referred to but not generated. Map entries are recognised by descriptor option.
---
 src/generator/generatorcommon.cpp | 41 +++++--------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 444f6d2..20dd9e3 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -27,6 +27,7 @@
 #include "generatoroptions.h"
 
 #include <assert.h>
+#include <google/protobuf/descriptor.pb.h>
 
 using namespace ::QtProtobuf::generator;
 using namespace ::google::protobuf;
@@ -429,33 +430,17 @@ void common::iterateNestedMessages(const ::google::protobuf::Descriptor *message
 {
     for (int i = 0; i < message->nested_type_count(); i++) {
         auto nestedMessage = message->nested_type(i);
-        if (message->field_count() <= 0) {
+        if (isNested(nestedMessage)) { //TODO: Have idea to make maps nested classes instead of typedefs.
             callback(nestedMessage);
-            continue;
-        }
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                callback(nestedMessage);
-                break;
-            }
         }
     }
 }
 
 bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 {
-    if (message->nested_type_count() > 0 && message->field_count() <= 0) {
-        return true;
-    }
-
     for (int i = 0; i < message->nested_type_count(); i++) {
-        auto nestedMessage = message->nested_type(i);
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                return true;
-            }
+        if (isNested(message->nested_type(i))) {
+            return true;
         }
     }
 
@@ -464,22 +449,8 @@ bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 
 bool common::isNested(const ::google::protobuf::Descriptor *message)
 {
-    if (message->containing_type() == nullptr) {
-        return false;
-    }
-
-    auto containingType = message->containing_type();
-    bool isNested = true;
-
-    for (int i = 0; i < containingType->field_count(); i++) {
-        auto field = containingType->field(i);
-        if (field->message_type() == message) {
-            isNested = !field->is_map();
-            break;
-        }
-    }
-
-    return isNested;
+    //Map fields own the synthetic entry message, that doesn't have a class
+    return message->containing_type() != nullptr && !message->options().map_entry();
 }
 
 const ::google::protobuf::Descriptor *common::findHighestMessage(const ::google::protobuf::Descriptor *message)
-- 
2.43.0


From 4ba514b91bc3cc25def4d32470d6292a7212aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 31/47] fix: qualify nested types with extra namespace

Schemas with nested messages or local enums did not compile with EXTRA_NAMESPACE option.
---
 src/generator/generatorcommon.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 20dd9e3..511b3ba 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -45,6 +45,14 @@ std::string common::getNamespacesString(const std::vector<std::string> &namespac
     return namespaces;
 }
 
+static std::vector<std::string> withExtraNamespace(std::vector<std::string> namespacesList)
+{
+    if (!GeneratorOptions::instance().extraNamespace().empty()) {
+        namespacesList.insert(namespacesList.begin(), GeneratorOptions::instance().extraNamespace());
+    }
+    return namespacesList;
+}
+
 std::string common::getScopeNamespacesString(std::string original, const std::string &scope)
 {
     if (scope.empty()) {
@@ -102,10 +110,10 @@ TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor
 
     std::vector<std::string> nestedNamespaceList = namespaceList;
     if(isNested(type)) {
-        nestedNamespaceList = getNestedNamespaces(type);
+        nestedNamespaceList = withExtraNamespace(getNestedNamespaces(type));
     }
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(withExtraNamespace(getNamespaces(scope)), "::"));
     std::string qmlPackage = getNamespacesString(namespaceList, ".");
 
     std::string name = utils::upperCaseName(type->name());
@@ -151,7 +159,7 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
     }
 
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(getNamespaces(scope), "::"));
+    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(withExtraNamespace(getNamespaces(scope)), "::"));
 
     std::string fullName = namespaces.empty() ? name : (namespaces + "::" + name);
     std::string scopeName = scopeNamespaces.empty() ? name : (scopeNamespaces + "::" + name);
-- 
2.43.0


From 7ed8dc8464d1d687a63a01b297b953ea2689d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 32/47] fix: register every enum declared by a message

Local enums used in maps or in other messages only were not registered and could not be serialized. Enums of nested messages were not found by the name of the actual class.
---
 src/generator/generatorcommon.cpp           |  7 +++++++
 src/generator/generatorcommon.h             |  1 +
 src/generator/messagedeclarationprinter.cpp | 17 +++++++----------
 src/generator/messagedefinitionprinter.cpp  | 15 +++++++++++----
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 511b3ba..6dd9961 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -53,6 +53,13 @@ static std::vector<std::string> withExtraNamespace(std::vector<std::string> name
     return namespacesList;
 }
 
+std::string common::getNestedFullName(const Descriptor *type)
+{
+    std::vector<std::string> namespacesList = withExtraNamespace(getNestedNamespaces(type));
+    namespacesList.push_back(utils::upperCaseName(type->name()));
+    return getNamespacesString(namespacesList, "::");
+}
+
 std::string common::getScopeNamespacesString(std::string original, const std::string &scope)
 {
     if (scope.empty()) {
diff --git a/src/generator/generatorcommon.h b/src/generator/generatorcommon.h
index 43b1176..0bef07d 100644
--- a/src/generator/generatorcommon.h
+++ b/src/generator/generatorcommon.h
@@ -77,6 +77,7 @@ struct common {
 
 
     static std::string getNamespacesString(const std::vector<std::string> &namespacesList, const std::string &separator);
+    static std::string getNestedFullName(const ::google::protobuf::Descriptor *type);
     static std::string getScopeNamespacesString(std::string original, const std::string &scope);
     static TypeMap produceQtTypeMap(const ::google::protobuf::Descriptor *type, const ::google::protobuf::Descriptor *scope);
     static TypeMap produceMessageTypeMap(const ::google::protobuf::Descriptor *type, const ::google::protobuf::Descriptor *scope);
diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index b6e43be..ddf8245 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,7 +29,6 @@
 #include "generatorcommon.h"
 
 #include <iostream>
-#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -191,16 +190,14 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
-    // Several fields may share the same local enum, its meta type has to be declared only once
-    std::set<const EnumDescriptor *> declaredEnums;
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        auto typeMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeTemplate);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeListTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            if (declaredEnums.insert(field->enum_type()).second) {
-                mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-                mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
-            }
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
 
diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e0e0c2b..f7cc5ee 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,18 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        auto typeMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(typeMap, Templates::RegisterLocalEnumTemplate);
+        if (common::isNested(mDescriptor)) {
+            //QMetaProperty looks for the enum of nested message by the name of the actual class
+            typeMap["full_type"] = common::getNestedFullName(mDescriptor) + "::" + typeMap["type"];
+            mPrinter->Print(typeMap, Templates::ComplexGlobalEnumFieldRegistrationTemplate);
+        }
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From 280579d17b4db75dbdde58cd1dd29c0fbf5e6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 33/47] fix: do not register local enums by unqualified name

The last registered of the same-named enums of different messages took over the others, their properties could not be read.
---
 src/generator/templates.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..8863df4 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -273,7 +273,6 @@ const char *Templates::DeclareMetaTypeMapTemplate = "#ifndef Q_PROTOBUF_MAP_$key
 
 
 const char *Templates::RegisterLocalEnumTemplate = "qRegisterProtobufEnumType<$scope_type$>();\n"
-                                                   "qRegisterMetaType<$scope_type$>(\"$type$\");\n"
                                                    "qRegisterMetaType<$scope_type$>(\"$full_type$\");\n"
                                                    "qRegisterMetaType<$scope_list_type$>(\"$full_list_type$\");\n";
 const char *Templates::RegisterMapTemplate = "qRegisterMetaType<$scope_type$>(\"$full_type$\");\n"
-- 
2.43.0


From a0a11475fc1b94c094a1693d0f442e92863aa500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 34/47] fix: copy comments to generated code as they are

Dollar signs were treated as template variables and closing comment sequence terminated the block.
---
 src/generator/baseprinter.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/baseprinter.h b/src/generator/baseprinter.h
index 2b1917e..75e3ecf 100644
--- a/src/generator/baseprinter.h
+++ b/src/generator/baseprinter.h
@@ -80,11 +80,13 @@ public:
                 }
             }
             mPrinter->Print("\n/*");
-            if (isSingleLine) {
-                mPrinter->Print(loc.leading_comments.c_str());
-            } else {
+            if (!isSingleLine) {
                 utils::replace(loc.leading_comments, "\n", "\n *");
-                mPrinter->Print(loc.leading_comments.c_str());
+            }
+            //Text of the comment should not be treated as template and should not terminate the comment block
+            utils::replace(loc.leading_comments, "*/", "* /");
+            mPrinter->PrintRaw(loc.leading_comments);
+            if (!isSingleLine) {
                 if (loc.leading_comments[loc.leading_comments.size() - 1] != '\n') {
                     mPrinter->Print("\n");
                 }
-- 
2.43.0


From 7a3d016c046cf8f71596f2ed5a3cb41be16b7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 35/47] fix: take extra namespace from its own option

Combination with other options was ignored or gave incorrect namespace.
---
 src/generator/generatoroptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/generatoroptions.cpp b/src/generator/generatoroptions.cpp
index ef7a4b7..7bebf6c 100644
--- a/src/generator/generatoroptions.cpp
+++ b/src/generator/generatoroptions.cpp
@@ -68,7 +68,7 @@ void GeneratorOptions::parseFromEnv(const std::string &options)
             mGenerateFieldEnum = true;
         } else if (option.find(ExtraNamespaceGenerationOption) == 0) {
             QT_PROTOBUF_DEBUG("set mGenerateFieldEnum: true");
-            std::vector<std::string> compositeOption = utils::split(options, '=');
+            std::vector<std::string> compositeOption = utils::split(option, '=');
             if (compositeOption.size() == 2) {
                 mExtraNamespace = compositeOption[1];
                 if (mExtraNamespace.size() > 1 && mExtraNamespace[0] == '\"'
-- 
2.43.0


From 3386acfc47717e8dfa3e82dbb8004384a3908bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 36/47] fix: use class names for rpc arguments and return types

Names of messages that start with lower case letter did not match generated classes.
---
 src/generator/generatorcommon.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 6dd9961..87e967a 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -417,13 +417,16 @@ bool common::hasQmlAlias(const ::google::protobuf::FieldDescriptor *field)
 
 MethodMap common::produceMethodMap(const MethodDescriptor *method, const std::string& scope)
 {
-    std::string inputTypeName = method->input_type()->full_name();
-    std::string outputTypeName = method->output_type()->full_name();
+    auto typeName = [](const Descriptor *type) {
+        std::vector<std::string> fullName = getNamespaces(type);
+        fullName.push_back(utils::upperCaseName(type->name()));
+        return getNamespacesString(fullName, "::");
+    };
+    std::string inputTypeName = typeName(method->input_type());
+    std::string outputTypeName = typeName(method->output_type());
     std::string methodName = method->name();
     std::string methodNameUpper = method->name();
     methodNameUpper[0] =  static_cast<char>(::toupper(methodNameUpper[0]));
-    utils::replace(inputTypeName, ".", "::");
-    utils::replace(outputTypeName, ".", "::");
     return {{"classname", scope},
                   {"return_type", outputTypeName},
                   {"method_name", methodName},
-- 
2.43.0


From 678cfae6ed431b23c812099a1ee18e4b664618f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:29 +0000
Subject: [PATCH 37/47] fix: include global enums in multi-file mode

The include was skipped when any nested message field preceded the enum field.
---
 src/generator/generatorbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index 97b4c60..82f822f 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -140,6 +140,7 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
     case FieldDescriptor::TYPE_ENUM: {
         common::EnumVisibility enumVisibily = common::enumVisibility(field->enum_type(), message);
         if (enumVisibily == common::GLOBAL_ENUM) {
+            newInclude = "globalenums";
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
             includeTemplate = Templates::InternalIncludeTemplate;
-- 
2.43.0


From 2dcf651d28972d5e362687f0710c4fd6724ba661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:52 +0000
Subject: [PATCH 38/47] fix: throw when serializer of unknown plugin is
 requested

The lookup inserted an empty record and dereferenced it.
---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 68021a21f8bb63cc0cfdca389ad1ef861198296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:52 +0000
Subject: [PATCH 39/47] fix: wait for registration of types running in another
 thread

qRegisterProtobufTypes returned before the types were registered when called by several threads.
---
 src/protobuf/qtprotobuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qtprotobuf.cpp b/src/protobuf/qtprotobuf.cpp
index ecdfa22..7a72d2b 100644
--- a/src/protobuf/qtprotobuf.cpp
+++ b/src/protobuf/qtprotobuf.cpp
@@ -26,6 +26,7 @@
 #include "qtprotobuftypes.h"
 #include "qprotobufobject.h"
 
+#include <mutex>
 #include <type_traits>
 
 #define registerProtobufType(X) qRegisterMetaType<X>(# X);\
@@ -60,6 +61,8 @@ std::list<RegisterFunction>& registerFunctions() {
 }
 
 void qRegisterProtobufTypes() {
+    static std::recursive_mutex registrationLock;
+    std::lock_guard<std::recursive_mutex> locker(registrationLock);
     static bool registred = false;
     if (registred) {
         return;
-- 
2.43.0


From c4a07d70eef9b97cd4e64f9e57f38aa34c0996b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:02 +0000
Subject: [PATCH 40/47] fix: guard initialization of serializer handlers

Creation of the first serializers in several threads corrupted the table of handlers.
---
 src/protobuf/qprotobufserializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 8c0857d..65b9e1b 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,8 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+#include <mutex>
+
 namespace QtProtobuf {
 
 template<>
@@ -179,6 +181,9 @@ void QProtobufSerializer::deserializeEnumList(QList<int64> &value, const QMetaEn
 
 QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) : q_ptr(q)
 {
+    //Serializers might be created in several threads
+    static std::mutex handlersLock;
+    std::lock_guard<std::mutex> locker(handlersLock);
     //if handlers is not empty intialization already done
     if (handlers.empty()) {
         wrapSerializer<float, serializeBasic, deserializeBasic<float>, Fixed32>();
-- 
2.43.0


From ad75de371cc0d27c07fac6b1f46bccd251d4674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:48 +0000
Subject: [PATCH 41/47] fix: deliver errors to receivers in other threads

QGrpcStatus was not registered as meta-type, so error signals of clients,
replies and streams were dropped for receivers living in another thread.
---
 src/grpc/qabstractgrpcclient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 5a4b784..6844611 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -51,6 +51,9 @@ using namespace QtProtobuf;
 QAbstractGrpcClient::QAbstractGrpcClient(const QString &service, QObject *parent) : QObject(parent)
   , dPtr(std::make_unique<QAbstractGrpcClientPrivate>(service))
 {
+    // Errors might be delivered to receivers that live in other threads
+    qRegisterMetaType<QtProtobuf::QGrpcStatus>();
+    qRegisterMetaType<QtProtobuf::QGrpcStatus>("QGrpcStatus");
 }
 
 QAbstractGrpcClient::~QAbstractGrpcClient()
-- 
2.43.0


From 5d9ebf03e7fcdd839227c6eebed7b86ff5f8afd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 42/47] fix: ignore abort of operations that are already
 completed

Aborting a reply after its completion reported an error after the result,
and each further abort of a stream reported its end once more.
---
 src/grpc/qgrpccallreply.cpp |  9 +++++++++
 src/grpc/qgrpccallreply.h   |  5 +++--
 src/grpc/qgrpcstream.cpp    | 10 ++++++++--
 src/grpc/qgrpcstream.h      |  1 +
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/grpc/qgrpccallreply.cpp b/src/grpc/qgrpccallreply.cpp
index 094c08c..1833699 100644
--- a/src/grpc/qgrpccallreply.cpp
+++ b/src/grpc/qgrpccallreply.cpp
@@ -29,9 +29,18 @@
 
 using namespace QtProtobuf;
 
+QGrpcCallReply::QGrpcCallReply(QAbstractGrpcClient *parent) : QGrpcAsyncOperationBase(parent)
+{
+    connect(this, &QGrpcCallReply::finished, this, [this]() { m_completed = true; });
+    connect(this, &QGrpcCallReply::error, this, [this]() { m_completed = true; });
+}
+
 void QGrpcCallReply::abort()
 {
     auto abortFunc = [this]() {
+        if (m_completed) { // nothing to abort
+            return;
+        }
         this->setData({});
         this->error({QGrpcStatus::StatusCode::Aborted, QLatin1String("Call aborted by user or timeout")});
     };
diff --git a/src/grpc/qgrpccallreply.h b/src/grpc/qgrpccallreply.h
index 0ff5666..686ce74 100644
--- a/src/grpc/qgrpccallreply.h
+++ b/src/grpc/qgrpccallreply.h
@@ -75,8 +75,7 @@ public:
 
 protected:
     //! \private
-    QGrpcCallReply(QAbstractGrpcClient *parent) : QGrpcAsyncOperationBase(parent)
-    {}
+    QGrpcCallReply(QAbstractGrpcClient *parent);
     //! \private
     ~QGrpcCallReply() = default;
 
@@ -86,5 +85,7 @@ private:
     Q_DISABLE_COPY_MOVE(QGrpcCallReply)
 
     friend class QAbstractGrpcClient;
+
+    bool m_completed = false;
 };
 }
diff --git a/src/grpc/qgrpcstream.cpp b/src/grpc/qgrpcstream.cpp
index 15301ef..db5c914 100644
--- a/src/grpc/qgrpcstream.cpp
+++ b/src/grpc/qgrpcstream.cpp
@@ -37,6 +37,7 @@ QGrpcStream::QGrpcStream(const QString &method, const QByteArray &arg, const Str
     if (handler) {
         m_handlers.push_back(handler);
     }
+    connect(this, &QGrpcStream::finished, this, [this]() { m_finished = true; });
 }
 
 void QGrpcStream::addHandler(const StreamHandler &handler)
@@ -48,9 +49,14 @@ void QGrpcStream::addHandler(const StreamHandler &handler)
 
 void QGrpcStream::abort()
 {
+    auto abortFunc = [this]() {
+        if (!m_finished) {
+            finished();
+        }
+    };
     if (thread() != QThread::currentThread()) {
-        QMetaObject::invokeMethod(this, &QGrpcStream::finished, Qt::BlockingQueuedConnection);
+        QMetaObject::invokeMethod(this, abortFunc, Qt::BlockingQueuedConnection);
     } else {
-        finished();
+        abortFunc();
     }
 }
diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index f09f614..79b496f 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -107,6 +107,7 @@ private:
     QString m_method;
     QByteArray m_arg;
     std::vector<StreamHandler> m_handlers;
+    bool m_finished = false;
 };
 
 }
-- 
2.43.0


From 66a36d52feee3a879d64004c0a91d54edce93b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 43/47] fix: keep stream element enabled when its properties
 change and drop streams of destroyed clients

Changing client, method or argument of an active GrpcStream aborted the
stream and thereby disabled the element instead of opening a new stream.
Destroying or changing an element after its client was destroyed accessed
the deleted stream.
---
 src/grpc/quick/qquickgrpcstream.cpp | 19 +++++++++++++++----
 src/grpc/quick/qquickgrpcstream_p.h |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..6128423 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -41,17 +41,25 @@ QQuickGrpcStream::QQuickGrpcStream(QObject *parent) : QObject(parent)
 QQuickGrpcStream::~QQuickGrpcStream()
 {
     if (m_stream) {
-        m_stream->abort();
+        QGrpcStreamShared stream = m_stream;
+        releaseStream();
+        stream->abort();
     }
     delete m_returnValue;
 }
 
+void QQuickGrpcStream::releaseStream()
+{
+    disconnect(m_stream.get(), nullptr, this, nullptr);
+    m_stream.reset();
+}
 
 void QQuickGrpcStream::updateStream()
 {
     if (m_stream) {
-        m_stream->abort();
-        m_stream.reset();
+        QGrpcStreamShared stream = m_stream;
+        releaseStream();
+        stream->abort();
     }
 
     if (m_returnValue != nullptr) {
@@ -170,7 +178,10 @@ bool QQuickGrpcStream::stream()
 
     connect(m_stream.get(), &QGrpcStream::error, this, &QQuickGrpcStream::error);//TODO: Probably it's good idea to disable stream here
 
-    connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ m_stream.reset(); setEnabled(false); });
+    connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ releaseStream(); setEnabled(false); });
+
+    // Streams are destroyed together with the client
+    connect(m_stream.get(), &QObject::destroyed, this, [this](){ m_stream.reset(); });
 
     return true;
 }
diff --git a/src/grpc/quick/qquickgrpcstream_p.h b/src/grpc/quick/qquickgrpcstream_p.h
index 65673ba..952c71c 100644
--- a/src/grpc/quick/qquickgrpcstream_p.h
+++ b/src/grpc/quick/qquickgrpcstream_p.h
@@ -178,6 +178,7 @@ signals:
 
 private:
     void updateStream();
+    void releaseStream();
     bool stream();
     QPointer<QAbstractGrpcClient> m_client;
     bool m_enabled;
-- 
2.43.0


From bf822434f62fec2f975909502158502c761b0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:14 +0000
Subject: [PATCH 44/47] fix: do not use missing reply of calls without channel

---
 src/generator/templates.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 8863df4..3aed940 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -313,6 +313,9 @@ const char *Templates::ClientMethodDefinitionAsyncTemplate = "\nQtProtobuf::QGrp
 const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname$::$method_name$(const $param_type$ &$param_name$, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)\n"
                                                               "{\n"
                                                               "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", $param_name$);\n"
+                                                              "    if (!reply) {\n"
+                                                              "        return;\n"
+                                                              "    }\n"
                                                               "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
                                                               "        callback(reply);\n"
                                                               "    });\n"
@@ -334,6 +337,9 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (!reply) {\n"
+                                                           "        return;\n"
+                                                           "    }\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -359,6 +365,9 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (!reply) {\n"
+                                                            "        return;\n"
+                                                            "    }\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From e835be936eb4313c17cf9034ec266563896a557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:33 +0000
Subject: [PATCH 45/47] fix: release replies of completed calls with callbacks

Handlers connected by the generated callback and QML methods owned the reply they were connected to, so it
was kept until the client is destroyed.
---
 src/generator/templates.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 3aed940..2954ff7 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -316,8 +316,12 @@ const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname
                                                               "    if (!reply) {\n"
                                                               "        return;\n"
                                                               "    }\n"
-                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
+                                                              "    //Subscription keeps the reply alive, so it has to be released when the call is completed\n"
+                                                              "    reply->subscribe(const_cast<QObject *>(context), [reply, callback, context]() {\n"
+                                                              "        QObject::disconnect(reply.get(), nullptr, context, nullptr);\n"
                                                               "        callback(reply);\n"
+                                                              "    }, [reply, context]() {\n"
+                                                              "        QObject::disconnect(reply.get(), nullptr, context, nullptr);\n"
                                                               "    });\n"
                                                               "}\n";
 
@@ -340,11 +344,14 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "    if (!reply) {\n"
                                                            "        return;\n"
                                                            "    }\n"
+                                                           "    //Subscription keeps the reply alive, so it has to be released when the call is completed\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
+                                                           "        QObject::disconnect(reply.get(), nullptr, jsEngine, nullptr);\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
                                                            "        QJSValue(callback).call(QJSValueList{jsEngine->toScriptValue(result)});\n"
-                                                           "    }, [errorCallback, jsEngine](const QGrpcStatus &status) {\n"
+                                                           "    }, [reply, errorCallback, jsEngine](const QGrpcStatus &status) {\n"
+                                                           "        QObject::disconnect(reply.get(), nullptr, jsEngine, nullptr);\n"
                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(status)});\n"
                                                            "    });\n"
                                                            "}\n";
@@ -368,13 +375,16 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "    if (!reply) {\n"
                                                             "        return;\n"
                                                             "    }\n"
+                                                            "    //Subscription keeps the reply alive, so it has to be released when the call is completed\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
+                                                            "        QObject::disconnect(reply.get(), nullptr, jsEngine, nullptr);\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
                                                             "            return;\n"
                                                             "        }\n"
                                                             "        *safeReturn = $return_type$(reply->read<$return_type$>());\n"
-                                                            "    }, [errorCallback, jsEngine](const QGrpcStatus &status) {\n"
+                                                            "    }, [reply, errorCallback, jsEngine](const QGrpcStatus &status) {\n"
+                                                            "        QObject::disconnect(reply.get(), nullptr, jsEngine, nullptr);\n"
                                                             "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(status)});\n"
                                                             "    });\n"
                                                             "}\n";
-- 
2.43.0


From a7a5dfdd19604ae770441e61cb5d45afca55d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:06 +0000
Subject: [PATCH 46/47] fix: give up network exchange of calls of destroyed
 client

---
 src/grpc/qgrpchttp2channel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 946211d..d12a77e 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -263,6 +263,9 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             networkReply->deleteLater();
         }
     });
+
+    //Nobody waits for the result of the call if client is destroyed
+    QObject::connect(reply, &QObject::destroyed, networkReply, &QObject::deleteLater);
 }
 
 void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service, QAbstractGrpcClient *client)
-- 
2.43.0


From 097c5d3dadd6ad35ab18645503399c3da1065067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:16 +0000
Subject: [PATCH 47/47] fix: report responses that are not exactly one message
 as errors

---
 src/grpc/qgrpchttp2channel.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index d12a77e..302dbbb 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -170,8 +170,13 @@ struct QGrpcHttp2ChannelPrivate {
             return {};
         }
 
-        //Message size doesn't matter for now
-        return networkReply->readAll().mid(GrpcMessageSizeHeaderSize);
+        QByteArray data = networkReply->readAll();
+        //Response has to contain exactly one uncompressed message
+        if (!data.isEmpty() && (data.size() < GrpcMessageSizeHeaderSize || data.at(0) != 0 || getExpectedDataSize(data) != data.size())) {
+            statusCode = QGrpcStatus::StatusCode::Internal;
+            return {};
+        }
+        return data.mid(GrpcMessageSizeHeaderSize);
     }
 
     QGrpcHttp2ChannelPrivate(const QUrl &_url, std::unique_ptr<QAbstractGrpcCredentials> _credentials)
-- 
2.43.0

