From 4ca9c686fb724b26f1537c5e2a480f6bcb28651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 01/34] fix: unescape SLIP frames received from tunnel servers

The frames were validated but then forwarded in their escaped form, and an
invalid frame stayed in the buffer and got merged with the following one.
---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..7e9ea3b 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,9 +83,11 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
+
+                // The END byte always finishes a frame, also an invalid one
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From 9ebb9ea457eb23751752284d35f356eab1479d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:04 +0000
Subject: [PATCH 02/34] fix: send complete text messages over WebSocket
 connections

The conversion from QByteArray stopped at the first NUL byte, so tunnel payload
containing one was truncated.
---
 libnymea-remoteproxy/server/websocketserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..c81d7d5 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -64,7 +64,7 @@ void WebSocketServer::sendData(const QUuid &clientId, const QByteArray &data)
     client = m_clientList.value(clientId);
     if (client) {
         qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
-        client->sendTextMessage(data);
+        client->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
     } else {
         qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
     }
-- 
2.43.0


From 35cccc9d58b91ec75ce425edc35c23b753c5de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:04 +0000
Subject: [PATCH 03/34] fix: do not take any closing bracket for the end of a
 JSON-RPC message

On a stream a segment may end at any byte of a message. A segment ending with
a bracket inside of a message was treated as complete message, answered with a
parser error and the connection was closed. A line break which arrived on its
own after a registration was even forwarded as tunnel payload.
---
 .../server/transportinterface.h               |  3 +++
 libnymea-remoteproxy/server/websocketserver.h |  2 ++
 .../tunnelproxy/tunnelproxyclient.cpp         | 23 ++++++++++++++++++-
 .../tunnelproxy/tunnelproxyclient.h           |  4 ++++
 .../tunnelproxy/tunnelproxyserver.cpp         | 10 +++++---
 5 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index d024d99..7c8f5e6 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -48,6 +48,9 @@ public:
 
     virtual uint connectionsCount() const = 0;
 
+    // True if the transport preserves message boundaries, false if the data arrives as a stream in arbitrary pieces
+    virtual bool messageBased() const { return false; }
+
     QUrl serverUrl() const;
     void setServerUrl(const QUrl &serverUrl);
 
diff --git a/libnymea-remoteproxy/server/websocketserver.h b/libnymea-remoteproxy/server/websocketserver.h
index 96dfd70..cbd663b 100644
--- a/libnymea-remoteproxy/server/websocketserver.h
+++ b/libnymea-remoteproxy/server/websocketserver.h
@@ -55,6 +55,8 @@ public:
 
     uint connectionsCount() const override;
 
+    bool messageBased() const override { return true; }
+
 private:
     QWebSocketServer *m_server = nullptr;
     bool m_sslEnabled;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 7e9ea3b..c170d35 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -31,6 +31,9 @@
 #include "../engine.h"
 #include "../common/slipdataprocessor.h"
 
+#include <QJsonDocument>
+#include <QJsonParseError>
+
 namespace remoteproxy {
 
 TunnelProxyClient::TunnelProxyClient(TransportInterface *interface, const QUuid &clientId, const QHostAddress &address, QObject *parent) :
@@ -101,15 +104,33 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
             m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
             splitIndex = m_dataBuffer.indexOf("}\n{");
         }
-        if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
+        if (m_dataBuffer.endsWith("}\n") || (m_dataBuffer.endsWith("}") && m_interface->messageBased())) {
             packets.append(m_dataBuffer);
             m_dataBuffer.clear();
+        } else if (m_dataBuffer.endsWith("}")) {
+            // On a stream this could also be any other closing bracket of a message which has not been received entirely yet
+            QJsonParseError error;
+            QJsonDocument::fromJson(m_dataBuffer, &error);
+            if (error.error == QJsonParseError::NoError) {
+                packets.append(m_dataBuffer);
+                m_dataBuffer.clear();
+                m_messageEndPending = true;
+            }
         }
     }
 
     return packets;
 }
 
+QByteArray TunnelProxyClient::stripMessageEnd(const QByteArray &data)
+{
+    if (!m_messageEndPending || data.isEmpty())
+        return data;
+
+    m_messageEndPending = false;
+    return data.startsWith('\n') ? data.mid(1) : data;
+}
+
 void TunnelProxyClient::activateClient()
 {
     // This connection has been registered as TypeServer or TypeClient
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
index c1decfc..28f7634 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
@@ -54,6 +54,9 @@ public:
     // Json server methods
     QList<QByteArray> processData(const QByteArray &data) override;
 
+    // Removes the line break of an already processed message, if it arrived separately
+    QByteArray stripMessageEnd(const QByteArray &data);
+
     // This method will be called from the proxy server once the client is
     // registered correctly as server or client connection and is now active
     void activateClient();
@@ -64,6 +67,7 @@ signals:
 private:
     QTimer *m_inactiveTimer = nullptr;
     Type m_type = TypeNone;
+    bool m_messageEndPending = false;
 
 };
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..299f7b4 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -367,7 +367,7 @@ void TunnelProxyServer::onClientDisconnected(const QUuid &clientId)
     tunnelProxyClient->deleteLater();
 }
 
-void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByteArray &data)
+void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByteArray &receivedData)
 {
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -375,8 +375,12 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
         return;
     }
 
-    qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(data);
-    tunnelProxyClient->addRxDataCount(data.count());
+    qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(receivedData);
+    tunnelProxyClient->addRxDataCount(receivedData.count());
+
+    const QByteArray data = tunnelProxyClient->stripMessageEnd(receivedData);
+    if (data.isEmpty())
+        return;
 
     if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {
         // Send the data to the server using slip encoded frame
-- 
2.43.0


From 17b28f63972913d85e42d2136843666dec663463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 04/34] fix: abort killed connections whose client does not
 take the pending data

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp  | 5 +++++
 libnymea-remoteproxy/server/transportinterface.h | 4 ++++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 6 ++++++
 libnymea-remoteproxy/server/websocketserver.cpp  | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..84d4f6b 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -68,6 +68,11 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close();
+
+    // Note: if there is still data to send, the close has to wait for the client
+    QTimer::singleShot(s_killTimeout, client, [client](){
+        client->abort();
+    });
 }
 
 uint TcpSocketServer::connectionsCount() const
diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index 7c8f5e6..8e72b0b 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -62,6 +62,10 @@ signals:
     void dataAvailable(const QUuid &clientId, const QByteArray &data);
 
 protected:
+    // Closing a socket waits until the pending data has been sent. If the other end does not take
+    // it within this time [ms] a killed connection gets aborted.
+    static constexpr int s_killTimeout = 5000;
+
     QUrl m_serverUrl;
     QString m_serverName;
 
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..56162e1 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -28,6 +28,7 @@
 #include "unixsocketserver.h"
 
 #include <QFile>
+#include <QTimer>
 
 #include "loggingcategories.h"
 
@@ -70,6 +71,11 @@ void UnixSocketServer::killClientConnection(const QUuid &clientId, const QString
     if (client->state() == QLocalSocket::ConnectedState) {
         qCWarning(dcUnixSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
         client->close();
+
+        // Note: if there is still data to send, the close has to wait for the client
+        QTimer::singleShot(s_killTimeout, client, [client](){
+            client->abort();
+        });
     }
 }
 
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c81d7d5..e661653 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -28,6 +28,7 @@
 #include "websocketserver.h"
 #include "loggingcategories.h"
 
+#include <QTimer>
 #include <QCoreApplication>
 
 namespace remoteproxy {
@@ -79,6 +80,11 @@ void WebSocketServer::killClientConnection(const QUuid &clientId, const QString
     qCWarning(dcWebSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
     client->flush();
     client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);
+
+    // Note: if there is still data to send, the close has to wait for the client
+    QTimer::singleShot(s_killTimeout, client, [client](){
+        client->abort();
+    });
 }
 
 uint WebSocketServer::connectionsCount() const
-- 
2.43.0


From 45b3f543bc12fb6be6af68fa5a276dd3e78202a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 05/34] fix: answer complete requests which precede an
 oversized message

---
 libnymea-remoteproxy/server/jsonrpcserver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index fa46c44..116b35e 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -395,15 +395,15 @@ void JsonRpcServer::processData(TransportClient *transportClient, const QByteArr
     // Handle packet fragmentation
     QList<QByteArray> packets = transportClient->processData(data);
 
+    // Note: the packets received completely have to be answered, no matter what follows
+    foreach (const QByteArray &packet, packets) {
+        processDataPacket(transportClient, packet);
+    }
+
     // Make sure the buffer size is in range
-    if (transportClient->bufferSize() > 1024 * 10) {
+    if (m_clients.contains(transportClient) && transportClient->bufferSize() > 1024 * 10) {
         qCWarning(dcJsonRpc()) << "Data buffer size violation from" << transportClient;
         transportClient->killConnection("Data buffer size violation.");
-        return;
-    }
-
-    foreach (const QByteArray &packet, packets) {
-        processDataPacket(transportClient, packet);
     }
 }
 
-- 
2.43.0


From decb52889138540d479f6ae18851ac3ec600b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 06/34] fix: handle fragmented and coalesced monitor requests

---
 libnymea-remoteproxy/server/monitorserver.cpp | 44 ++++++++++++++++---
 libnymea-remoteproxy/server/monitorserver.h   |  2 +
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/libnymea-remoteproxy/server/monitorserver.cpp b/libnymea-remoteproxy/server/monitorserver.cpp
index 8f4b003..def59fc 100644
--- a/libnymea-remoteproxy/server/monitorserver.cpp
+++ b/libnymea-remoteproxy/server/monitorserver.cpp
@@ -76,22 +76,52 @@ void MonitorServer::onMonitorDisconnected()
     qCDebug(dcMonitorServer()) << "Monitor disconnected.";
     QLocalSocket *clientConnection = static_cast<QLocalSocket *>(sender());
     m_clients.removeAll(clientConnection);
+    m_buffers.remove(clientConnection);
     clientConnection->deleteLater();
 }
 
 void MonitorServer::onMonitorReadyRead()
 {
     QLocalSocket *clientConnection = qobject_cast<QLocalSocket*>(sender());
-    QByteArray data = clientConnection->readAll();
-    QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
-    if(error.error != QJsonParseError::NoError) {
-        qCWarning(dcMonitorServer()) << "Failed to parse JSON data from monitor:" << error.errorString();
-        clientConnection->close();
+    QByteArray &buffer = m_buffers[clientConnection];
+    buffer.append(clientConnection->readAll());
+
+    // Note: the requests end with "\n", there can be none, one or many of them in the data received so far
+    int index = buffer.indexOf('\n');
+    while (index >= 0) {
+        QByteArray data = buffer.left(index);
+        buffer.remove(0, index + 1);
+        if (!data.trimmed().isEmpty()) {
+            QJsonParseError error;
+            QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
+            if (error.error != QJsonParseError::NoError) {
+                qCWarning(dcMonitorServer()) << "Failed to parse JSON data from monitor:" << error.errorString();
+                clientConnection->close();
+                return;
+            }
+
+            processRequest(clientConnection, jsonDoc.toVariant().toMap());
+            if (!m_clients.contains(clientConnection) || !clientConnection->isOpen())
+                return;
+        }
+        index = buffer.indexOf('\n');
+    }
+
+    if (buffer.isEmpty())
+        return;
+
+    // A complete request without the final "\n"
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(buffer);
+    if (!jsonDoc.isNull()) {
+        buffer.clear();
+        processRequest(clientConnection, jsonDoc.toVariant().toMap());
         return;
     }
 
-    processRequest(clientConnection, jsonDoc.toVariant().toMap());
+    if (buffer.size() > 1024 * 10) {
+        qCWarning(dcMonitorServer()) << "Data buffer size violation from monitor.";
+        clientConnection->close();
+    }
 }
 
 void MonitorServer::processRequest(QLocalSocket *clientConnection, const QVariantMap &request)
diff --git a/libnymea-remoteproxy/server/monitorserver.h b/libnymea-remoteproxy/server/monitorserver.h
index d423c37..6558d5b 100644
--- a/libnymea-remoteproxy/server/monitorserver.h
+++ b/libnymea-remoteproxy/server/monitorserver.h
@@ -28,6 +28,7 @@
 #ifndef MONITORSERVER_H
 #define MONITORSERVER_H
 
+#include <QHash>
 #include <QTimer>
 #include <QObject>
 #include <QLocalServer>
@@ -48,6 +49,7 @@ private:
     QString m_serverName;
     QLocalServer *m_server = nullptr;
     QList<QLocalSocket *> m_clients;
+    QHash<QLocalSocket *, QByteArray> m_buffers;
 
     void sendMonitorData(QLocalSocket *clientConnection, const QVariantMap &dataMap);
 
-- 
2.43.0


From da71fd606d5ed05eddf853abe6d5184c700b9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 07/34] fix: report each monitor update exactly once and as
 soon as it is complete

---
 monitor/monitorclient.cpp | 25 +++++++++++--------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..4717fcb 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processMessage(const QByteArray &message)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(message, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -73,6 +73,7 @@ void MonitorClient::processBufferData()
 void MonitorClient::onConnected()
 {
     qDebug() << "Monitor connected to" << m_serverName;
+    m_dataBuffer.clear();
     emit connected();
 }
 
@@ -85,18 +86,14 @@ void MonitorClient::onDisconnected()
 void MonitorClient::onReadyRead()
 {
     // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
-
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    m_dataBuffer.append(m_socket->readAll());
+
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        QByteArray message = m_dataBuffer.left(index + 1);
+        m_dataBuffer.remove(0, index + 2);
+        processMessage(message);
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..8c4dcab 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processMessage(const QByteArray &message);
 
 signals:
     void connected();
-- 
2.43.0


From 45521fb5ce9c01ef060b1987f62eb448f57f5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 08/34] fix: do not process data received while a connection is
 being killed

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index 84d4f6b..059f839 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -66,6 +66,9 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     }
 
     qCDebug(dcTcpSocketServer()) << "Killing client connection" << clientId.toString() << "Reason:" << killReason;
+
+    // Note: flushing can receive further data, it must not overtake the data which is being processed right now
+    disconnect(client, &QSslSocket::readyRead, nullptr, nullptr);
     client->flush();
     client->close();
 
-- 
2.43.0


From aedd0307c88d7ba52b3c589507fef3bc7e260feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 09/34] fix: Search the whole address range for a free socket
 address

With more than 100 long lived clients in a row, the search gave up after 100
attempts once the address counter had wrapped around and handed out the
address of a connected client.
---
 .../tunnelproxy/tunnelproxyserverconnection.cpp      | 12 +++++-------
 .../tunnelproxy/tunnelproxyserverconnection.h        |  1 -
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..68d785e 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -84,16 +84,14 @@ TunnelProxyClientConnection *TunnelProxyServerConnection::getClientConnection(qu
 
 quint16 TunnelProxyServerConnection::getFreeAddress()
 {
-    m_currentAddressCounter += 1;
-    quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
-        if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
-            address++;
-        } else {
+    // Note: long lived clients can occupy any range of the address space once the counter wraps around
+    for (int i = 0; i <= 0xFFFF; i++) {
+        m_currentAddressCounter += 1;
+        if (m_currentAddressCounter != 0x0000 && m_currentAddressCounter != 0xFFFF && !m_clientConnectionsAddresses.contains(m_currentAddressCounter))
             break;
-        }
     }
 
+    quint16 address = m_currentAddressCounter;
     Q_ASSERT_X(!m_clientConnectionsAddresses.contains(address), "TunnelProxyServerConnection", "no free address but the maximum of connections has been reached.");
     return address;
 }
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..17e9c54 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From 26670e59fb0085c08f8e26a961552bdc075d3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:29 +0000
Subject: [PATCH 10/34] fix: Measure the throughput time span with a monotonic
 clock

If the system clock was set back, the throughput statistic froze until the
clock had caught up again.
---
 libnymea-remoteproxy/engine.cpp | 9 +++------
 libnymea-remoteproxy/engine.h   | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..712566c 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -179,7 +179,7 @@ QVariantMap Engine::buildMonitorData(bool printAll)
 Engine::Engine(QObject *parent) :
     QObject(parent)
 {
-    m_lastTimeStamp = QDateTime::currentDateTimeUtc().toMSecsSinceEpoch();
+    m_elapsedTimer.start();
 
     m_timer = new QTimer(this);
     m_timer->setSingleShot(false);
@@ -196,11 +196,8 @@ Engine::~Engine()
 
 void Engine::onTimerTick()
 {
-    qint64 timestamp = QDateTime::currentDateTimeUtc().toMSecsSinceEpoch();
-    qint64 deltaTime = timestamp - m_lastTimeStamp;
-    m_lastTimeStamp = timestamp;
-
-    m_currentTimeCounter += deltaTime;
+    // Note: the system clock can be changed at any time, only the monotonic clock measures time spans
+    m_currentTimeCounter += m_elapsedTimer.restart();
     if (m_currentTimeCounter >= 1000) {
         // One second passed, do second tick
         m_currentTimeCounter = 0;
diff --git a/libnymea-remoteproxy/engine.h b/libnymea-remoteproxy/engine.h
index b0234ff..00fffc6 100644
--- a/libnymea-remoteproxy/engine.h
+++ b/libnymea-remoteproxy/engine.h
@@ -29,6 +29,7 @@
 #define ENGINE_H
 
 #include <QUrl>
+#include <QElapsedTimer>
 #include <QTimer>
 #include <QObject>
 #include <QDateTime>
@@ -81,7 +82,7 @@ private:
     static Engine *s_instance;
 
     QTimer *m_timer = nullptr;
-    qint64 m_lastTimeStamp = 0;
+    QElapsedTimer m_elapsedTimer;
     int m_currentTimeCounter = 0;
     qint64 m_runTime = 0;
 
-- 
2.43.0


From cc7bbaf4b6e53f2da644336ffa43483cf683c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 11/34] fix: Do not add WebSocket clients which are already
 disconnected

A client which disconnected while its connection was pending stayed in the
list of clients forever, since it never emits the disconnected signal again.
---
 libnymea-remoteproxy/server/websocketserver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index e661653..6d78a7c 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -101,6 +101,13 @@ void WebSocketServer::onClientConnected()
         return;
     }
 
+    // Note: the client can be gone already, in this case there will be no disconnected signal any more
+    if (client->state() == QAbstractSocket::UnconnectedState) {
+        qCDebug(dcWebSocketServer()) << "Next pending connection has already been disconnected. Doing nothing.";
+        client->deleteLater();
+        return;
+    }
+
     // Check websocket version
     if (client->version() != QWebSocketProtocol::Version13) {
         qCWarning(dcWebSocketServer()) << "Client with invalid protocol version" << client->version() << ". Rejecting.";
-- 
2.43.0


From 9c27b8d1d70af4b45927e01be91329d3f2715a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 12/34] fix: Do not truncate the socket address of
 DisconnectClient requests

A number above 0xFFFF was cut to its lower 16 bits and disconnected the
client with that address.
---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..e7b0ff3 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,9 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    // Note: 0x0000 is never assigned to a client, numbers out of range must not be taken for another address
+    qlonglong requestedAddress = params.value("socketAddress").toLongLong();
+    quint16 socketAddress = requestedAddress >= 0 && requestedAddress <= 0xFFFF ? static_cast<quint16>(requestedAddress) : 0x0000;
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From 7eef16a9bb6501999ec212c9a2ebfa40f553769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 13/34] fix: Do not report the engine as running after it has
 been stopped

The queued call which start() uses to report the running state was still
delivered when stop() had been called in the meantime: a stopped engine
said that it is running.
---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 712566c..9f041d5 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -247,6 +247,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // The queued call from start() arrives after a stop() which followed immediately
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 0c57446e8a1fb3f4a1b8f84471e036d08ed550cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 14/34] fix: Delete the unix sockets of disconnected clients

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 56162e1..d352928 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -146,6 +146,8 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0


From 684a1ec14ce397bf069de36222511f22aac51c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:28 +0000
Subject: [PATCH 15/34] fix: Keep accepting connections after an accept error

---
 libnymea-remoteproxy/server/monitorserver.cpp    | 14 ++++++++++++++
 libnymea-remoteproxy/server/tcpsocketserver.cpp  |  7 +++++++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 14 ++++++++++++++
 libnymea-remoteproxy/server/websocketserver.cpp  |  7 +++++++
 4 files changed, 42 insertions(+)

diff --git a/libnymea-remoteproxy/server/monitorserver.cpp b/libnymea-remoteproxy/server/monitorserver.cpp
index def59fc..145c6f1 100644
--- a/libnymea-remoteproxy/server/monitorserver.cpp
+++ b/libnymea-remoteproxy/server/monitorserver.cpp
@@ -181,6 +181,20 @@ void MonitorServer::startServer()
     }
 
     connect(m_server, &QLocalServer::newConnection, this, &MonitorServer::onMonitorConnected);
+
+    // Note: the local server silently closes and removes the socket file if
+    // a connection could not be accepted, i.e. if there are too many open files
+    QTimer *listenTimer = new QTimer(m_server);
+    connect(listenTimer, &QTimer::timeout, m_server, [this](){
+        if (m_server->isListening() && QFile::exists(m_server->fullServerName()))
+            return;
+
+        qCWarning(dcMonitorServer()) << "The server is not listening any more. Start listening again on" << m_serverName;
+        m_server->close();
+        m_server->listen(m_serverName);
+    });
+    listenTimer->start(1000);
+
     qCDebug(dcMonitorServer()) << "Started successfully on" << m_serverName;
 }
 
diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index 059f839..be58671 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -175,6 +175,13 @@ SslServer::SslServer(bool sslEnabled, const QSslConfiguration &config, QObject *
 {
     connect(this, &QTcpServer::acceptError, this, [this](QAbstractSocket::SocketError socketError){
         qCWarning(dcTcpSocketServer()) << "Accept error occurred" << socketError << errorString();
+
+        // Note: the server pauses accepting on errors, i.e. if there are too many open files
+        QTimer::singleShot(1000, this, [this](){
+            if (isListening()) {
+                resumeAccepting();
+            }
+        });
     });
 
     connect(this, &QTcpServer::newConnection, this, [this](){
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index d352928..d7889bd 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -112,6 +112,20 @@ bool UnixSocketServer::startServer()
     }
 
     connect(m_server, &QLocalServer::newConnection, this, &UnixSocketServer::onClientConnected);
+
+    // Note: the local server silently closes and removes the socket file if
+    // a connection could not be accepted, i.e. if there are too many open files
+    QTimer *listenTimer = new QTimer(m_server);
+    connect(listenTimer, &QTimer::timeout, m_server, [this](){
+        if (m_server->isListening() && QFile::exists(m_server->fullServerName()))
+            return;
+
+        qCWarning(dcUnixSocketServer()) << "The server is not listening any more. Start listening again on" << m_socketFileName;
+        m_server->close();
+        m_server->listen(m_socketFileName);
+    });
+    listenTimer->start(1000);
+
     qCDebug(dcUnixSocketServer()) << "Started successfully on" << m_serverName << m_socketFileName;
     return true;
 }
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 6d78a7c..a685fff 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -172,6 +172,13 @@ void WebSocketServer::onClientError(QAbstractSocket::SocketError error)
 void WebSocketServer::onAcceptError(QAbstractSocket::SocketError error)
 {
     qCWarning(dcWebSocketServer()) << "Server accept error occurred:" << error << m_server->errorString();
+
+    // Note: the server pauses accepting on errors, i.e. if there are too many open files
+    QTimer::singleShot(1000, m_server, [this](){
+        if (m_server->isListening()) {
+            m_server->resumeAccepting();
+        }
+    });
 }
 
 void WebSocketServer::onServerError(QWebSocketProtocol::CloseCode closeCode)
-- 
2.43.0


From 9d4f1c6c720acb4203dec4f74f0076d2bed31553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 16/34] fix: Shut down from the event loop on a signal

The signal handler deleted the engine and quit the application right where the
signal interrupted the server: in the middle of a handler, an allocation or the
start. The objects in use were gone afterwards (crash), or the quit request was
lost if the event loop was not running yet. The handler writes the signal to a
pipe now and the event loop shuts down the server.
---
 server/remoteproxyserverapplication.cpp | 83 +++++++++++++++++--------
 server/remoteproxyserverapplication.h   |  7 ++-
 2 files changed, 61 insertions(+), 29 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..d1f040f 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -26,6 +26,8 @@
 #include "loggingcategories.h"
 #include "engine.h"
 
+#include <errno.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -36,44 +38,71 @@
 
 using namespace remoteproxy;
 
-static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
+// Note: a signal can interrupt the server anywhere. The handler is only allowed to do what is async-signal-safe,
+// so it just passes the signal number on to the event loop, which shuts down the server between two events.
+static int s_signalPipe[2] = { -1, -1 };
+
+static void unixSignalHandler(int sig)
 {
-    auto handler = [](int sig) ->void {
-        switch (sig) {
-        case SIGQUIT:
-            qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
-            break;
-        case SIGINT:
-            qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
-            break;
-        case SIGTERM:
-            qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
-            break;
-        case SIGHUP:
-            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
-            break;
-        default:
-            break;
-        }
-
-        qCDebug(dcApplication()) << "==========================================================";
-        qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
-        qCDebug(dcApplication()) << "==========================================================";
-
-        Engine::instance()->destroy();
-        RemoteProxyServerApplication::quit();
-    };
+    int savedErrno = errno;
+    unsigned char signalNumber = static_cast<unsigned char>(sig);
+    ssize_t written = ::write(s_signalPipe[1], &signalNumber, sizeof(signalNumber));
+    Q_UNUSED(written)
+    errno = savedErrno;
+}
 
+static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
+{
     // all these signals will be ignored.
     for (int sig : ignoreSignals)
         signal(sig, SIG_IGN);
 
     for (int sig : quitSignals)
-        signal(sig, handler);
+        signal(sig, unixSignalHandler);
 }
 
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
+    if (::pipe2(s_signalPipe, O_CLOEXEC | O_NONBLOCK) != 0)
+        qFatal("Could not create the pipe for the unix signals: %s", strerror(errno));
+
+    m_signalNotifier = new QSocketNotifier(s_signalPipe[0], QSocketNotifier::Read, this);
+    connect(m_signalNotifier, &QSocketNotifier::activated, this, &RemoteProxyServerApplication::onUnixSignal);
+
     catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
+
+void RemoteProxyServerApplication::onUnixSignal()
+{
+    unsigned char signalNumber = 0;
+    if (::read(s_signalPipe[0], &signalNumber, sizeof(signalNumber)) != sizeof(signalNumber))
+        return;
+
+    // Already shutting down, any further signal makes no difference
+    m_signalNotifier->setEnabled(false);
+
+    switch (signalNumber) {
+    case SIGQUIT:
+        qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
+        break;
+    case SIGINT:
+        qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
+        break;
+    case SIGTERM:
+        qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
+        break;
+    case SIGHUP:
+        qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
+        break;
+    default:
+        break;
+    }
+
+    qCDebug(dcApplication()) << "==========================================================";
+    qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
+    qCDebug(dcApplication()) << "==========================================================";
+
+    Engine::instance()->destroy();
+    quit();
+}
diff --git a/server/remoteproxyserverapplication.h b/server/remoteproxyserverapplication.h
index 9c53d20..53b1d46 100644
--- a/server/remoteproxyserverapplication.h
+++ b/server/remoteproxyserverapplication.h
@@ -35,9 +35,12 @@ class RemoteProxyServerApplication : public QCoreApplication
 public:
     explicit RemoteProxyServerApplication(int &argc, char **argv);
 
-signals:
+private:
+    QSocketNotifier *m_signalNotifier = nullptr;
+
+private slots:
+    void onUnixSignal();
 
-public slots:
 };
 
 #endif // REMOTEPROXYSERVERAPPLICATION_H
-- 
2.43.0


From c5d11abb24abb240bd732a8104703df352ca18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 17/34] fix: Split the messages of the proxy at their line ends

A message whose line end arrived separately was processed early, and the line
end became tunnel data. Brackets within a message could split it.
---
 .../proxyjsonrpcclient.cpp                      | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..315ba5e 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -177,17 +177,14 @@ void JsonRpcClient::processData(const QByteArray &data)
 {
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Received data:" << data;
 
-    // Handle packet fragmentation
+    // Handle packet fragmentation. Every message ends with a new line and contains none.
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
-    while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
-        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+    int lineEnd = m_dataBuffer.indexOf('\n');
+    while (lineEnd > -1) {
+        QByteArray packet = m_dataBuffer.left(lineEnd);
+        m_dataBuffer.remove(0, lineEnd + 1);
+        processDataPacket(packet);
+        lineEnd = m_dataBuffer.indexOf('\n');
     }
 }
 
-- 
2.43.0


From 7637bb3380c45b244549123b334142a62f3ebf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 18/34] fix: Handle tunnel data right behind the registration
 response

What arrived in the same read as the response to RegisterServer or
RegisterClient was taken for JSON and lost.
---
 .../tunnelproxyremoteconnection.cpp           | 18 ++++++++++++++----
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 19 +++++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..57191d7 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -176,12 +176,22 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
-        return;
+    // Message by message until the client is registered, tunnel data might follow right behind the response
+    ProxyConnection *connection = m_connection;
+    int position = 0;
+    while (m_state != StateRemoteConnected && position < data.length()) {
+        int lineEnd = data.indexOf('\n', position);
+        int length = (lineEnd < 0 ? data.length() : lineEnd + 1) - position;
+        m_jsonClient->processData(data.mid(position, length));
+        position += length;
+        if (m_connection != connection) {
+            return;
+        }
     }
 
-    emit dataReady(data);
+    if (position < data.length()) {
+        emit dataReady(data.mid(position));
+    }
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..a94231b 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -192,14 +192,22 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     // We recived data, let's reset the keep alive timer
     m_keepAliveTimer.start();
 
-    if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+    // Message by message until the server is registered, SLIP frames might follow right behind the response
+    ProxyConnection *connection = m_connection;
+    int position = 0;
+    while (m_state != StateRunning && position < data.length()) {
+        int lineEnd = data.indexOf('\n', position);
+        int length = (lineEnd < 0 ? data.length() : lineEnd + 1) - position;
+        m_jsonClient->processData(data.mid(position, length));
         m_dataBuffer.clear();
-        return;
+        position += length;
+        if (m_connection != connection) {
+            return;
+        }
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
+    for (int i = position; i < data.length(); i++) {
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
@@ -226,6 +234,9 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+            if (m_connection != connection) {
+                return;
+            }
         } else {
             m_dataBuffer.append(data.at(i));
         }
-- 
2.43.0


From 395d11ff25b66e681d83d3e3b28438f1d15cdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 19/34] fix: Ignore the signals of a previous proxy connection

The connection object which is about to be deleted still reported its states.
Its end tore down the connection which had replaced it, or left the state
at disconnecting.
---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                 | 2 ++
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 57191d7..60b60c3 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -311,6 +311,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // The end of this connection must not be mistaken for the end of the next one
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index a94231b..3e87bb2 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -468,6 +468,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // The end of this connection must not be mistaken for the end of the next one
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 88b956f25607603d1641dd354491d5d310e45553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 20/34] fix: Reconnect if the first connect fails at once

A connect which fails immediately (e.g. no route) never started the
reconnect timer.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 3e87bb2..1fc9f20 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -148,8 +148,8 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
-    m_connection->connectServer(m_serverUrl);
     m_enabled = true;
+    m_connection->connectServer(m_serverUrl);
 
     return true;
 }
-- 
2.43.0


From 82c6609732aaacc0143f20cd6b839dc847aa6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 21/34] fix: Give every request an id of its own

All requests had the id 0, and a notification, which carries an id of its own
kind, could be taken for the reply of a pending request: a client was not
reported, and a request was considered finished.
---
 .../proxyjsonrpcclient.cpp                       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 315ba5e..7c69373 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -131,9 +131,9 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // check if this is a reply to a request
-    int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    // check if this is a reply to a request, notifications have an id of their own
+    int commandId = dataMap.value("id", -1).toInt();
+    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 6c35fea4d38db2062e7e6e1132c5ad0654db7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:15 +0000
Subject: [PATCH 22/34] fix: Stop initializing a connection which the
 application has ended

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp          | 9 +++++++++
 .../tunnelproxy/tunnelproxysocketserver.cpp              | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 60b60c3..c15eaa2 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -163,8 +163,13 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 {
     if (connected) {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Connected to remote proxy server.";
+        ProxyConnection *connection = m_connection;
         setState(StateConnected);
         setState(StateInitializing);
+        if (m_connection != connection || !connection->connected()) {
+            return; // disconnected in the meantime
+        }
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
@@ -244,7 +249,11 @@ void TunnelProxyRemoteConnection::onHelloFinished()
     m_remoteProxyServerVersion = responseParams.value("version").toString();
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
+    ProxyConnection *connection = m_connection;
     setState(StateRegister);
+    if (m_connection != connection) {
+        return; // disconnected in the meantime
+    }
 
     JsonReply *registerReply = m_jsonClient->callRegisterClient(m_clientUuid, m_clientName, m_serverUuid);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onClientRegistrationFinished);
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 1fc9f20..6cd9453 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -171,10 +171,15 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
 {
     if (connected) {
         qCDebug(dcTunnelProxySocketServer()) << "Connected to remote proxy server.";
+        ProxyConnection *connection = m_connection;
         setState(StateConnected);
         m_serverError = TunnelProxySocketServer::ErrorNoError;
 
         setState(StateInitializing);
+        if (m_connection != connection || !connection->connected()) {
+            return; // stopped or restarted in the meantime
+        }
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
@@ -296,7 +301,11 @@ void TunnelProxySocketServer::onHelloFinished()
     m_remoteProxyServerVersion = responseParams.value("version").toString();
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
+    ProxyConnection *connection = m_connection;
     setState(StateRegister);
+    if (m_connection != connection) {
+        return; // stopped or restarted in the meantime
+    }
 
     JsonReply *registerReply = m_jsonClient->callRegisterServer(m_serverUuid, m_serverName);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxySocketServer::onServerRegistrationFinished);
-- 
2.43.0


From 3274a3e9ee4c69f47adb5841d30586d304d7e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:53 +0000
Subject: [PATCH 23/34] fix: Send tunnel data with NUL bytes through the web
 socket

---
 libnymea-remoteproxyclient/websocketconnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/websocketconnection.cpp b/libnymea-remoteproxyclient/websocketconnection.cpp
index 91a4165..34daee3 100644
--- a/libnymea-remoteproxyclient/websocketconnection.cpp
+++ b/libnymea-remoteproxyclient/websocketconnection.cpp
@@ -51,7 +51,8 @@ WebSocketConnection::~WebSocketConnection()
 
 void WebSocketConnection::sendData(const QByteArray &data)
 {
-    m_webSocket->sendTextMessage(QString::fromUtf8(data));
+    // Note: without the size the conversion ends at the first NUL byte
+    m_webSocket->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
 }
 
 void WebSocketConnection::ignoreSslErrors()
-- 
2.43.0


From f3d046dbc483bb0c07c291cb81b343f3510ca419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:03 +0000
Subject: [PATCH 24/34] fix: Give up connections which do not get registered

If the other end goes away without a trace while the connection is being
encrypted or the server registered, no signal ever comes and the server
stayed in that state for good.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp         | 13 +++++++++++++
 .../tunnelproxy/tunnelproxysocketserver.h           |  1 +
 2 files changed, 14 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 6cd9453..7e40a10 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -149,6 +149,7 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
     m_enabled = true;
+    m_connectTimer.start();
     m_connection->connectServer(m_serverUrl);
 
     return true;
@@ -158,6 +159,7 @@ void TunnelProxySocketServer::stopServer()
 {
     m_enabled = false;
     m_reconnectTimer.stop();
+    m_connectTimer.stop();
 
     qCDebug(dcTunnelProxySocketServer()) << "Stopping the server.";
 
@@ -391,6 +393,17 @@ void TunnelProxySocketServer::setupTimers()
         }
     });
 
+    // Nobody tells us if the other end has gone before the server is registered
+    m_connectTimer.setInterval(30000);
+    m_connectTimer.setSingleShot(true);
+    connect(&m_connectTimer, &QTimer::timeout, this, [this](){
+        if (m_enabled && m_state != StateRunning && m_state != StateDisconnected) {
+            qCWarning(dcTunnelProxySocketServer()) << "The server could not be registered in time. Giving up this connection.";
+            cleanUp();
+            setServerError(ErrorConnectionError);
+        }
+    });
+
     m_keepAliveTimer.setInterval(30000);
     m_keepAliveTimer.setSingleShot(false);
     connect(&m_keepAliveTimer, &QTimer::timeout, this, [this](){
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.h b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.h
index 2114d98..c67eb30 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.h
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.h
@@ -149,6 +149,7 @@ private:
     State m_state = StateDisconnected;
 
     QTimer m_reconnectTimer;
+    QTimer m_connectTimer;
     QTimer m_keepAliveTimer;
     bool m_enabled = false;
 
-- 
2.43.0


From e20e33f92f7fd360e9c216ad91cbe3b2498209b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 25/34] fix: Ping the proxy even if data is received all the
 time

The proxy drops a server from which nothing arrives for a minute. Every received
message restarted the ping timer, so a server which only receives never sent
anything and lost its registration.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 7e40a10..d624d0f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -196,9 +196,6 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // We recived data, let's reset the keep alive timer
-    m_keepAliveTimer.start();
-
     // Message by message until the server is registered, SLIP frames might follow right behind the response
     ProxyConnection *connection = m_connection;
     int position = 0;
-- 
2.43.0


From 4e154f2bc489698df500037bce8f42e1b49ea45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:36 +0000
Subject: [PATCH 26/34] fix: Keep the state right if the application
 disconnects while it changes

An application which disconnects (or stops the server) from within
stateChanged() was left with a connection that stays initializing for
ever, or got remoteConnectedChanged(false) without the signal before.
---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp     | 13 ++++++++-----
 .../tunnelproxy/tunnelproxyremoteconnection.h       |  1 +
 .../tunnelproxy/tunnelproxysocketserver.cpp         |  5 ++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index c15eaa2..409cfcb 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -165,6 +165,10 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
         qCDebug(dcTunnelProxyRemoteConnection()) << "Connected to remote proxy server.";
         ProxyConnection *connection = m_connection;
         setState(StateConnected);
+        if (m_connection != connection || !connection->connected()) {
+            return; // disconnected in the meantime
+        }
+
         setState(StateInitializing);
         if (m_connection != connection || !connection->connected()) {
             return; // disconnected in the meantime
@@ -289,15 +293,14 @@ void TunnelProxyRemoteConnection::setState(State state)
     if (m_state == state)
         return;
 
-    bool remoteConnected = m_state == StateRemoteConnected;
-
     m_state = state;
     qCDebug(dcTunnelProxyRemoteConnection()) << "State changed" << m_state;
     emit stateChanged(m_state);
 
-    bool stillRemoteConnected = m_state == StateRemoteConnected;
-    if (remoteConnected != stillRemoteConnected) {
-        emit remoteConnectedChanged(m_state == StateRemoteConnected);
+    bool remoteConnected = m_state == StateRemoteConnected;
+    if (m_remoteConnected != remoteConnected) {
+        m_remoteConnected = remoteConnected;
+        emit remoteConnectedChanged(m_remoteConnected);
     }
 }
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
index 6a86534..2beda73 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
@@ -127,6 +127,7 @@ private:
     QUrl m_serverUrl;
     QAbstractSocket::SocketError m_error = QAbstractSocket::UnknownSocketError;
     State m_state = StateDisconnected;
+    bool m_remoteConnected = false;
 
     ProxyConnection *m_connection = nullptr;
     JsonRpcClient *m_jsonClient = nullptr;
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index d624d0f..700cd5f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -175,8 +175,11 @@ void TunnelProxySocketServer::onConnectionChanged(bool connected)
         qCDebug(dcTunnelProxySocketServer()) << "Connected to remote proxy server.";
         ProxyConnection *connection = m_connection;
         setState(StateConnected);
-        m_serverError = TunnelProxySocketServer::ErrorNoError;
+        if (m_connection != connection || !connection->connected()) {
+            return; // stopped or restarted in the meantime
+        }
 
+        m_serverError = TunnelProxySocketServer::ErrorNoError;
         setState(StateInitializing);
         if (m_connection != connection || !connection->connected()) {
             return; // stopped or restarted in the meantime
-- 
2.43.0


From 16d93dae0275bb40365e2d58323d5b403f337159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:36 +0000
Subject: [PATCH 27/34] fix: Give up the connection attempt if stopped while it
 starts

QAbstractSocket goes on connecting if it gets aborted from within
stateChanged(), the stopped server was connected again.
---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp              | 5 +++++
 .../tunnelproxy/tunnelproxysocketserver.cpp                  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 409cfcb..02db7a1 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -146,6 +146,11 @@ void TunnelProxyRemoteConnection::disconnectServer()
         qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnecting from" << m_connection->serverUrl().toString();
         m_connection->disconnectServer();
     }
+
+    // The socket might go on connecting if this gets called while it starts to
+    if (m_connection && !m_connection->connected()) {
+        cleanUp();
+    }
 }
 
 bool TunnelProxyRemoteConnection::sendData(const QByteArray &data)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 700cd5f..c60cdf7 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -167,6 +167,11 @@ void TunnelProxySocketServer::stopServer()
         qCDebug(dcTunnelProxySocketServer()) << "Disconnecting from" << m_connection->serverUrl().toString();
         m_connection->disconnectServer();
     }
+
+    // The socket might go on connecting if this gets called while it starts to
+    if (m_connection && !m_connection->connected()) {
+        cleanUp();
+    }
 }
 
 void TunnelProxySocketServer::onConnectionChanged(bool connected)
-- 
2.43.0


From 257d8b836b4095771e4a7ac89fec3b7220a4a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:46 +0000
Subject: [PATCH 28/34] fix: Drop a peer which does not complete the TLS
 handshake at once

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index be58671..9e23730 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -290,7 +290,8 @@ SslClient::SslClient(QObject *parent) :
     m_timer.setInterval(5000);
     connect(&m_timer, &QTimer::timeout, this, [this](){
         qCWarning(dcTcpSocketServer()) << "SSL socket timeout occurred. The client has not encrypted the connection within" << (m_timer.interval() / 1000) << "seconds. Terminate connection";
-        close();
+        // Note: a close would wait for the client to take the rest of the handshake
+        abort();
     });
 
     connect(this, &SslClient::encrypted, &m_timer, &QTimer::stop);
-- 
2.43.0


From ef02107e9bb8904be736b1994c6f1ee14a884dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:42 +0000
Subject: [PATCH 29/34] fix: do not start with the default configuration if the
 configuration file cannot be read

The QSettings status was never checked: a configuration file that exists, but
cannot be opened or parsed, was silently replaced by the defaults.
---
 libnymea-remoteproxy/proxyconfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 015cc63..a9e5536 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -51,6 +51,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
     }
 
     QSettings settings(m_fileName, QSettings::IniFormat);
+    if (settings.status() != QSettings::NoError) {
+        qCWarning(dcApplication()) << "Configuration: Could not read configuration file" << m_fileName << settings.status();
+        return false;
+    }
 
     settings.beginGroup("ProxyServer");
     setServerName(settings.value("name", "nymea-remoteproxy").toString());
-- 
2.43.0


From 114605101917683ef2a907fcf10f2b3d17d8dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:42 +0000
Subject: [PATCH 30/34] fix: do not start with encryption enabled, but without
 a usable certificate or key

The content of the certificate, key and chain files was never checked. The
server started and failed every TLS handshake.
---
 libnymea-remoteproxy/proxyconfiguration.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index a9e5536..ea184b1 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -99,6 +99,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslCertificate certificate(&certFile, QSsl::Pem);
+    if (sslEnabled() && (certificate.isNull() || certFile.error() != QFile::NoError)) {
+        qCWarning(dcApplication()) << "There is no usable certificate in" << sslCertificateFileName();
+        return false;
+    }
     qCDebug(dcApplication()) << "Loaded successfully certificate" << sslCertificateFileName();
     certFile.close();
     sslConfiguration.setLocalCertificate(certificate);
@@ -110,6 +114,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslKey sslKey(&certKeyFile, QSsl::Rsa, QSsl::Pem, QSsl::PrivateKey);
+    if (sslEnabled() && (sslKey.isNull() || certKeyFile.error() != QFile::NoError)) {
+        qCWarning(dcApplication()) << "There is no usable certificate key in" << sslCertificateKeyFileName();
+        return false;
+    }
     qCDebug(dcApplication()) << "Loaded successfully certificate key" << sslCertificateKeyFileName();
     certKeyFile.close();
     sslConfiguration.setPrivateKey(sslKey);
@@ -122,6 +130,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
             return false;
         }
         QSslCertificate certificate(&certChainFile, QSsl::Pem);
+        if (sslEnabled() && (certificate.isNull() || certChainFile.error() != QFile::NoError)) {
+            qCWarning(dcApplication()) << "There is no usable certificate in the certificate chain" << sslCertificateChainFileName();
+            return false;
+        }
         sslConfiguration.setCaCertificates( QList<QSslCertificate>() << certificate );
         certChainFile.close();
         qCDebug(dcApplication()) << "Loaded successfully certificate chain" << sslCertificateKeyFileName();
-- 
2.43.0


From 2c4133a69472814d07ff13a4606d0fcf45ecd695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:43 +0000
Subject: [PATCH 31/34] fix: use all certificates of the certificate chain file

Only the first certificate of the chain was loaded and presented, any further
intermediate certificate was missing in the handshake.
---
 libnymea-remoteproxy/proxyconfiguration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index ea184b1..6cae4b8 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -129,12 +129,12 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
             qCWarning(dcApplication()) << "Could not open certificate chain file:" << sslCertificateChainFileName() << certChainFile.errorString();
             return false;
         }
-        QSslCertificate certificate(&certChainFile, QSsl::Pem);
-        if (sslEnabled() && (certificate.isNull() || certChainFile.error() != QFile::NoError)) {
+        QList<QSslCertificate> certificateChain = QSslCertificate::fromDevice(&certChainFile, QSsl::Pem);
+        if (sslEnabled() && (certificateChain.isEmpty() || certChainFile.error() != QFile::NoError)) {
             qCWarning(dcApplication()) << "There is no usable certificate in the certificate chain" << sslCertificateChainFileName();
             return false;
         }
-        sslConfiguration.setCaCertificates( QList<QSslCertificate>() << certificate );
+        sslConfiguration.setCaCertificates(certificateChain);
         certChainFile.close();
         qCDebug(dcApplication()) << "Loaded successfully certificate chain" << sslCertificateKeyFileName();
     }
-- 
2.43.0


From 063c3f0ca3b992b7f96174b71f99d7a6516dd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:43 +0000
Subject: [PATCH 32/34] fix: do not start with ports, addresses or timeouts
 that are none

A port out of range was cut to 16 bit and opened as a different one, a word
became a port of the system's choice, an unknown host and a timeout of 0 ms.
---
 libnymea-remoteproxy/proxyconfiguration.cpp | 31 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 6cae4b8..e5dc4bd 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -62,10 +62,18 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
     setLogFileName(settings.value("logFile", "/var/log/nymea-remoteproxy.log").toString());
     setLogEngineEnabled(settings.value("logEngineEnabled", false).toBool());
     setMonitorSocketFileName(settings.value("monitorSocket", "/tmp/nymea-remoteproxy.monitor").toString());
-    setJsonRpcTimeout(settings.value("jsonRpcTimeout", 10000).toInt());
-    setInactiveTimeout(settings.value("inactiveTimeout", 8000).toInt());
+    // Note: a variant converts a number out of range to an other number, a string does not
+    bool jsonRpcTimeoutOk = false;
+    bool inactiveTimeoutOk = false;
+    setJsonRpcTimeout(settings.value("jsonRpcTimeout", 10000).toString().toInt(&jsonRpcTimeoutOk));
+    setInactiveTimeout(settings.value("inactiveTimeout", 8000).toString().toInt(&inactiveTimeoutOk));
     settings.endGroup();
 
+    if (!jsonRpcTimeoutOk || !inactiveTimeoutOk || jsonRpcTimeout() < 0 || inactiveTimeout() < 0) {
+        qCWarning(dcApplication()) << "Configuration: Invalid timeout in" << m_fileName;
+        return false;
+    }
+
     settings.beginGroup("SSL");
     setSslEnabled(settings.value("enabled", true).toBool());
     setSslCertificateFileName(settings.value("certificate", "/etc/ssl/certs/ssl-cert-snakeoil.pem").toString());
@@ -79,14 +87,29 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
 
     settings.beginGroup("WebSocketServerTunnelProxy");
     setWebSocketServerTunnelProxyHost(QHostAddress(settings.value("host", "127.0.0.1").toString()));
-    setWebSocketServerTunnelProxyPort(static_cast<quint16>(settings.value("port", 2212).toInt()));
+    bool webSocketServerPortOk = false;
+    int webSocketServerPort = settings.value("port", 2212).toString().toInt(&webSocketServerPortOk);
+    setWebSocketServerTunnelProxyPort(static_cast<quint16>(webSocketServerPort));
     settings.endGroup();
 
     settings.beginGroup("TcpServerTunnelProxy");
     setTcpServerTunnelProxyHost(QHostAddress(settings.value("host", "127.0.0.1").toString()));
-    setTcpServerTunnelProxyPort(static_cast<quint16>(settings.value("port", 2213).toInt()));
+    bool tcpServerPortOk = false;
+    int tcpServerPort = settings.value("port", 2213).toString().toInt(&tcpServerPortOk);
+    setTcpServerTunnelProxyPort(static_cast<quint16>(tcpServerPort));
     settings.endGroup();
 
+    if (webSocketServerTunnelProxyHost().isNull() || tcpServerTunnelProxyHost().isNull()) {
+        qCWarning(dcApplication()) << "Configuration: Invalid host address in" << m_fileName;
+        return false;
+    }
+
+    // Note: a port out of range must not end up as a different port
+    if (!webSocketServerPortOk || webSocketServerPort < 0 || webSocketServerPort > 65535 || !tcpServerPortOk || tcpServerPort < 0 || tcpServerPort > 65535) {
+        qCWarning(dcApplication()) << "Configuration: Invalid port in" << m_fileName;
+        return false;
+    }
+
     // Load SSL configuration
     QSslConfiguration sslConfiguration;
     sslConfiguration.setPeerVerifyMode(QSslSocket::VerifyNone);
-- 
2.43.0


From f0ba2718bdfe7a0601be5ae83d0d474b5903c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:18 +0000
Subject: [PATCH 33/34] fix: do not drop the character U+FEFF in front of text
 sent over a WebSocket

---
 libnymea-remoteproxy/server/websocketserver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index a685fff..7615e1d 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -65,7 +65,11 @@ void WebSocketServer::sendData(const QUuid &clientId, const QByteArray &data)
     client = m_clientList.value(clientId);
     if (client) {
         qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
-        client->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
+        QString text = QString::fromUtf8(data.constData(), data.size());
+        // Note: the conversion takes the character U+FEFF for a byte order mark in front of the text
+        if (data.startsWith("\xEF\xBB\xBF"))
+            text.prepend(QChar(QChar::ByteOrderMark));
+        client->sendTextMessage(text);
     } else {
         qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
     }
-- 
2.43.0


From a19d240b6b441a5fd06f5918caddbdcca0c06200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:18 +0000
Subject: [PATCH 34/34] fix: do not drop the character U+FEFF in front of the
 text the client library sends

---
 libnymea-remoteproxyclient/websocketconnection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/websocketconnection.cpp b/libnymea-remoteproxyclient/websocketconnection.cpp
index 34daee3..495caaa 100644
--- a/libnymea-remoteproxyclient/websocketconnection.cpp
+++ b/libnymea-remoteproxyclient/websocketconnection.cpp
@@ -52,7 +52,11 @@ WebSocketConnection::~WebSocketConnection()
 void WebSocketConnection::sendData(const QByteArray &data)
 {
     // Note: without the size the conversion ends at the first NUL byte
-    m_webSocket->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
+    QString text = QString::fromUtf8(data.constData(), data.size());
+    // Note: the conversion takes the character U+FEFF for a byte order mark in front of the text
+    if (data.startsWith("\xEF\xBB\xBF"))
+        text.prepend(QChar(QChar::ByteOrderMark));
+    m_webSocket->sendTextMessage(text);
 }
 
 void WebSocketConnection::ignoreSslErrors()
-- 
2.43.0

