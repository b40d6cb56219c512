From d71dacd297c8c1a1ad3aac31b115a3c94eff9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 01/64] fix: wait for the whole Modbus ADU before validating it

isAduReceived() compared the number of received bytes with the length field
alone, which does not count the 6 header bytes. An ADU whose last 1..6 bytes
arrived in a later TCP segment was treated as complete and rejected.
---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..3a832ec 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduPktLen() + aduHdrLen;
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 51d0c44808d8cbcb07962a4d46ebd50ed840b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 02/64] fix: answer a Modbus request whose response has an
 invalid length

The outstanding request was dropped without any MsgModbusClientAduRsp when the
length field of the response was out of range.
---
 src/app/modbus/client/ModbusClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..00d310d 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -117,6 +117,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From 2f351fd7c4f7f30aa37e02b8eac480b903ab01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 03/64] fix: do not answer a queued Modbus request with a late
 response

Data which arrives while no request is outstanding (states Send, Connected)
was matched against the request at the front of the queue, which has not been
sent yet. A late response of a timed out request therefore produced an error
response for the next request, which was then sent and answered again.
---
 src/app/modbus/client/ModbusClient.cpp         | 18 ++++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp         |  2 ++
 .../modbus/client/ModbusClientConnected.cpp    |  5 +----
 src/app/modbus/client/ModbusClientSend.cpp     |  5 +----
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 00d310d..b522631 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -186,6 +186,24 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::discard()
+{
+    pduBuf.reset();
+    auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
+    switch (result.status)
+    {
+    case reactor::LinkResult::ok:
+        LM(MODBUS, LW, "Client-%u, discard %d unexpected bytes", uid, result.len);
+    break;
+    case reactor::LinkResult::na:
+    break;
+    case reactor::LinkResult::closed:
+    case reactor::LinkResult::error:
+        return Status::error;
+    }
+    return Status::noerror;
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..b4bb010 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status discard();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..562e40d 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
@@ -25,9 +25,6 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
     break;
     default:
-    {
-        LM(MODBUS, LE, "Unexpected");
-    }
     break;
     }
 }
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..ed7a7de 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
@@ -29,9 +29,6 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
     break;
     default:
-    {
-        LM(MODBUS, LE, "Unexpected");
-    }
     break;
     }
 }
-- 
2.43.0


From 39b9b56cfbdde343a532a353932469d287600827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:21 +0000
Subject: [PATCH 04/64] fix: reconnect the Modbus client when the link reports
 an error

The link closes itself before it reports LinkEvent::error, but the states
Connected, Send and Receive ignored the event: the client stayed 'connected' on
a closed link, and an outstanding request waited for the whole receive timeout.
---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 562e40d..60cae02 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -29,4 +29,11 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..b3793dd 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,13 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index ed7a7de..6140176 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -33,6 +33,13 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From 30594f0cb7a9c018459e0ed127380bf7a66ebfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 05/64] fix: accept the coil value 0xFF00 in the byte order
 used on the wire

Register and coil values are kept low byte first (data[1] is sent first), but
the check of forceSingleCoil took data[0] for the high byte: the only accepted
'on' value was sent as 0x00FF, and 0xFF00 was refused.
---
 src/app/modbus/ModbusCodec.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 3a832ec..c131a7f 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -107,10 +107,10 @@ bool ModbusCodec::encode(AduRequest const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
@@ -289,10 +289,10 @@ bool ModbusCodec::encode(AduRespond const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
-- 
2.43.0


From dcf96c8919194280de18cf4030b88bd4a4964770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 06/64] fix: do not leak fields of the previous request into a
 decoded Modbus request

The session decodes every request into the same AduRequest. Read requests kept
numBytes (and so the data) of an earlier write, single writes kept numItems.
---
 src/app/modbus/ModbusCodec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index c131a7f..5520c8f 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -170,6 +170,9 @@ bool ModbusCodec::decode(AduRequest& adu)
         return false;
     }
     uint16_t const pktLen = buf.readBe();
+    adu.startItem = 0;
+    adu.numItems = 0;
+    adu.numBytes = 0;
     adu.addr = buf.read();
     if (std::min(adu.addr, maxAddr) != adu.addr || std::max(adu.addr, minAddr) != adu.addr)
     {
-- 
2.43.0


From dcb0aa6dd1a24c9fc8104f06131cb7e52c07b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 07/64] fix: check the length of a Modbus exception response

The error code was read from a stale byte of the buffer when the ADU was too
short to contain it.
---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 5520c8f..0478ef4 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -352,6 +352,11 @@ bool ModbusCodec::decode(AduRespond& adu)
     {
     case ModbusFunction::modbusError:
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
     }
     break;
-- 
2.43.0


From 53315495ec61d18a868c32763968f233a59e6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 08/64] fix: check sessionId and numBytes of MsgModbusAduRsp

Both were used as index and copy length without a check.
---
 src/app/modbus/server/ModbusServer.cpp          | 5 +++++
 src/app/modbus/server/session/ModbusSession.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..3506b0f 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,11 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..d4fd96d 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -168,6 +168,12 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
 
+    if (rsp.numBytes > maxAduLen)
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes %u", uid, rsp.numBytes);
+        return Result::done;
+    }
+
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
-- 
2.43.0


From 3120702c6577d893e5e25e8c49f7226b07634c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:22 +0000
Subject: [PATCH 09/64] fix: return the Modbus session to the pool when accept
 fails

createTimer, createLink and accept report exhaustion and errors by exception;
the session taken from the pool was never given back.
---
 src/app/modbus/server/ModbusServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index 3506b0f..8d6aaa5 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -57,8 +57,16 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+    }
+    catch (...)
+    {
+        session.releaseSession();
+        throw;
+    }
     session.start();
 }
 
-- 
2.43.0


From 22b43d88d29a2ac1f1ddae3f78b7f0f405cf5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:44 +0000
Subject: [PATCH 10/64] fix: release the Modbus session when its link reports
 an error

The link is already closed then; the session kept its link and timer until the
inactivity timeout.
---
 src/app/modbus/server/session/ModbusSession.cpp              | 4 +++-
 src/app/modbus/server/session/ModbusSessionConnected.cpp     | 5 +++++
 src/app/modbus/server/session/ModbusSessionConnected.hpp     | 2 ++
 src/app/modbus/server/session/ModbusSessionState.hpp         | 2 ++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp  | 5 +++++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp  | 2 ++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d4fd96d..850d645 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -52,8 +52,10 @@ void ModbusSession::onLinkEvent(reactor::LinkEvent ev)
     case reactor::LinkEvent::data:
         fsm.getState().onDataReceived(fsm);
     break;
-    case reactor::LinkEvent::connected:
     case reactor::LinkEvent::error:
+        fsm.getState().onError(fsm);
+    break;
+    case reactor::LinkEvent::connected:
         LM(MODBUS, LE, "Session-%u, unexpected", uid);
     break;
     }
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..f8dffd9 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -40,6 +40,11 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
     }
 }
 
+void ModbusSessionConnected::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionConnected::onTimer(ModbusSessionFsm& fsm)
 {
     fsm.transit<ModbusSessionInit>();
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.hpp b/src/app/modbus/server/session/ModbusSessionConnected.hpp
index afee860..8ad589b 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.hpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusSessionFsm&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onTimer(ModbusSessionFsm&) final;
 
     void onExit(ModbusSessionFsm&) final;
diff --git a/src/app/modbus/server/session/ModbusSessionState.hpp b/src/app/modbus/server/session/ModbusSessionState.hpp
index 57cca27..36a9f26 100644
--- a/src/app/modbus/server/session/ModbusSessionState.hpp
+++ b/src/app/modbus/server/session/ModbusSessionState.hpp
@@ -21,6 +21,8 @@ public:
 
     virtual void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) { LM(MODBUS, LE, "Unexpected call"); }
 
+    virtual void onError(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
+
     virtual void onTimer(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
 
     virtual void onEnter(ModbusSessionFsm&) {}
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..4c5154e 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -51,6 +51,11 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
     }
 }
 
+void ModbusSessionWaitModbusAduRsp::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionWaitModbusAduRsp::onTimer(ModbusSessionFsm& fsm)
 {
     LM(MODBUS, LE, "onTimer");
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
index 9c10348..82a3e03 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
@@ -18,6 +18,8 @@ public:
 
     void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onTimer(ModbusSessionFsm&) final;
 
     void onExit(ModbusSessionFsm&) final;
-- 
2.43.0


From 149e03bb36ac2324066a93e5438e337598b9edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:44 +0000
Subject: [PATCH 11/64] fix: report end of stream as LinkResult::closed

read() returning 0 was reported as a successful read of 0 bytes, so nobody
noticed that the peer had closed the connection.
---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..5d4c99e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From de6476bba632b799fd64db961066237f438d1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/64] fix: do not take a connect with immediately available
 data for an error

EPOLLIN | EPOLLOUT closed the link. EPOLL_CTL_MOD reports the pending input
again, so the event can be handled as the completed connect.
---
 src/app/common/reactor/Link.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 5d4c99e..29bc28e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -157,6 +157,7 @@ void Link::onFileDescriptorEvent(int events)
     }
     break;
     case EPOLLOUT:
+    case EPOLLIN | EPOLLOUT:
     {
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
-- 
2.43.0


From c446b0ea5007de00a4a6fc82acec22e51557e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:44 +0000
Subject: [PATCH 13/64] fix: releasing an acceptor that never listened must not
 throw

close() throws without a socket; called from the deleter of AcceptorPtr this
terminated the process, e.g. on release after a failed bind.
---
 src/app/common/reactor/Acceptor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..653f8b6 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -35,7 +35,10 @@ void Acceptor::setHandler(AcceptorHandler handler_)
 
 void Acceptor::release()
 {
-    close();
+    if (-1 != sfd)
+    {
+        close();
+    }
     setHandler({});
 }
 
-- 
2.43.0


From 4c8c7ef075323cca5ab3501656235c405c8bb6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:44 +0000
Subject: [PATCH 14/64] fix: sign extension of address and port bytes in
 LinkAddr

Bytes above 0x7f corrupted the more significant bytes of the address and port.
---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..66bb2f0 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<unsigned char>(addr.data[4]);
+    std::uint16_t b = static_cast<unsigned char>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<unsigned char>(addr.data[0]);
+    std::uint32_t b = static_cast<unsigned char>(addr.data[1]);
+    std::uint32_t c = static_cast<unsigned char>(addr.data[2]);
+    std::uint32_t d = static_cast<unsigned char>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 914ab741f35d8f5fdd6544a3f63bacb89dad93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:59 +0000
Subject: [PATCH 15/64] fix: reserve room for the length header of a stored
 message

The header was part of the chunk, so a message of more than 4088 bytes overwrote
the header of the next message, and the size of a message was not checked.
---
 src/app/common/reactor/MsgMemStorage.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..d0fa552 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -11,7 +11,7 @@ MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
 {
-    auto const totalMem = chunkSize * numChunks;
+    auto const totalMem = (sizeof(Item) + chunkSize) * numChunks;
 
     mem = ::malloc(totalMem + 15);
 
@@ -32,7 +32,7 @@ bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
     std::lock_guard<std::mutex> guard(mutex);
 
-    if (freeIds.empty())
+    if (freeIds.empty() || len > chunkSize)
     {
         return false;
     }
@@ -63,7 +63,7 @@ bool MsgMemStorage::pop(void* data)
 
 void* MsgMemStorage::get(unsigned id)
 {
-    return (void*)((uintptr_t)ptr + chunkSize * id);
+    return (void*)((uintptr_t)ptr + (sizeof(Item) + chunkSize) * id);
 }
 
 } // namespace app::reactor
-- 
2.43.0


From addb77ddc39952450d6558807d6d3bb2c82a80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:59 +0000
Subject: [PATCH 16/64] fix: a failing handler must not drop the remaining
 events of the batch

An exception left the loop over the events returned by epoll_wait: edge
triggered events of other descriptors were lost, and messages already counted
by the event descriptor stayed in the storage until later messages arrived.
---
 src/app/common/reactor/Epoll.cpp   | 9 ++++++++-
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..a687e3f 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch(const std::exception& e)
+        {
+            LM(GEN, LE, "fd event failed: %s", e.what());
+        }
     }
 }
 
diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..11cd207 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -153,7 +153,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch(const std::exception& e)
+            {
+                LM(GEN, LE, "Handler of msgId=%zu failed: %s", msg.getMsgId(), e.what());
+            }
         }
         else
         {
-- 
2.43.0


From 118a83f85f7d5d9fa90aaf8efbfb121d8df79ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:21 +0000
Subject: [PATCH 17/64] fix: ControllerStopReq without a started controller

A stop before start, or a second stop, dereferenced a null pointer.
---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From 43109207530f5b4e0331510c25653402b7939091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:21 +0000
Subject: [PATCH 18/64] fix: check the address range of requests to the Modbus
 test controller

transactId, startItem and numItems of a request come from the network and were
used as index into the test data without a check.
---
 .../modbus/ModbusTestController.cpp           | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..6b3bb60 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -15,6 +15,7 @@
 
 #include "Logger.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 #include <cstring>
@@ -243,6 +244,12 @@ Result ModbusTestController::process(MsgModbusClientAduRsp const& rsp)
 {
     testCaseCounter += 1;
 
+    if (rsp.transactId >= testCases.size())
+    {
+        LM(CTRL, LE, "TEST CASE: %u, INVALID transactId", rsp.transactId);
+        return Result::error;
+    }
+
     auto const& it = testCases[rsp.transactId];
 
     if (it.req.clientId != rsp.clientId)
@@ -341,6 +348,22 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    std::size_t const numBytes = std::max<std::size_t>(req.numItems * 2, req.numBytes);
+    if (req.transactId >= testCases.size()
+        || req.startItem * 2 + numBytes > testCases[req.transactId].rsp.data.size())
+    {
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
-- 
2.43.0


From bfde53c68eb0939fbf56a8039bd2c2ecebfba9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 19/64] fix: writing to a connection reset by the peer must not
 kill the process

Link::send() used write(), which raises SIGPIPE (default action: terminate)
when the peer has reset the connection.
---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 29bc28e..5b9573c 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,7 +104,7 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
-- 
2.43.0


From e93a765e28d49d53867870abde6b09855fa34ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 20/64] fix: do not modify the component map while sending

send() runs on every reactor thread; operator[] inserted an entry for an
unknown component concurrently with the lookups of other threads.
---
 src/app/common/reactor/ReactorManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..14e6ab0 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,13 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    auto const it = components.find(msg.getCompId());
+    if (components.end() == it || nullptr == it->second)
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From 7fe9f156454482790a9279a8efe1c18c759c567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 21/64] fix: return the timer to the pool when it can not be
 created

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 11cd207..a34f41f 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From c43a06fdf0bb860491b23ecc29a58f2a9104d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 22/64] fix: reset the link when an accepted connection can not
 be polled

setFileDescriptor(-1) throws on a link that already has a descriptor, so the
link kept the number of a closed descriptor.
---
 src/app/common/reactor/Acceptor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 653f8b6..22a8083 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -135,8 +135,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From aca256c0b4fdb5014232e85f55d04a4ff695fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/64] fix: a late MsgModbusAduRsp must not cancel the current
 Modbus request

The response of a timed out request (other transactId) ended the wait of the
request received after it, whose own response was then dropped.
---
 src/app/modbus/server/session/ModbusSession.cpp               | 2 +-
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 850d645..09dc053 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -161,7 +161,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
             , uid, storedAdu.transactId, rsp.transactId);
-        return Result::done;
+        return Result::noerror;
     }
 
     if (rsp.status != MsgStatus::success)
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 4c5154e..8ed0b37 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -43,6 +43,10 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
         fsm.transit<ModbusSessionConnected>();
     }
     break;
+    case Result::noerror:
+    {
+    }
+    break;
     default:
     {
         LM(MODBUS, LE, "Unexpected");
-- 
2.43.0


From 88197f31ffb4f4a54230806ce3f9c877b579d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:39 +0000
Subject: [PATCH 24/64] fix: stopping the Modbus test while it is being
 configured releases Modbus

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..00d1a12 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -15,6 +15,7 @@ public:
     void onEnter(ModbusTestFsm&) final;
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
+    void onStop(ModbusTestFsm&) final;
 
 private:
     /* data */
-- 
2.43.0


From 6319c9d8affcee572c2ba410c17245f4ebfadb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 25/64] fix: bound OPC UA decoding by the received data

Reading past the received bytes returned stale buffer content, writing past the
buffer corrupted memory, and an announced length was not checked before use.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 27 +++++++++++--------
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  5 +++-
 src/app/common/ua/common/OpcUaSduBuffer.cpp   | 10 +++++++
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..d22ad6d 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -35,6 +36,19 @@ OpcUaSduBuffer const& OpcUaBinaryCodec::buf() const
     return buffer;
 }
 
+std::size_t OpcUaBinaryCodec::checkLength(std::int32_t len) const
+{
+    if (len == -1)
+    {
+        return 0;
+    }
+    if (len < 0 || len > buffer.end() - buffer.begin())
+    {
+        throw std::runtime_error("Invalid length");
+    }
+    return len;
+}
+
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Boolean& val)
 {
     val = s.read() ? true : false;
@@ -255,11 +269,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
 {
     Int32 len;
     s >> len;
-    if (len == -1)
-    {
-        return s;
-    }
-    val.resize(len);
+    val.resize(s.checkLength(len));
     for (std::int32_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
@@ -322,12 +332,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
 {
     Int32 len;
     s >> len;
-    if (len == -1)
-    {
-        val.clear();
-        return s;
-    }
-    val.resize(len);
+    val.resize(s.checkLength(len));
     for (std::int32_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..b04cc8a 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -73,6 +73,9 @@ public:
 
     OpcUaSduBuffer const& buf() const;
 
+    // Check the decoded number of items (-1 means null) against the received data
+    std::size_t checkLength(std::int32_t) const;
+
 private:
     OpcUaSduBuffer& buffer;
 };
@@ -241,7 +244,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
     Int32 arrayLength;
     s >> arrayLength;
-    arr.resize(arrayLength);
+    arr.resize(s.checkLength(arrayLength));
     for (auto& it : arr)
     {
         s >> it;
diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..d644aec 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::out_of_range("OpcUaSduBuffer overflow");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::out_of_range("OpcUaSduBuffer underflow");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
-- 
2.43.0


From 04259edddf3504a334931aa6068501416342417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 26/64] fix: an unknown OPC UA encoding must not terminate the
 process

'throw;' without an active exception calls std::terminate.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index d22ad6d..01ea2d2 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -403,7 +403,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("Unexpected encoding");
     }
     return s;
 }
@@ -449,7 +449,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("Unexpected encoding");
     }
     return s;
 }
@@ -777,7 +777,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("Unexpected encoding");
         }
         return s;
     }
@@ -898,8 +898,8 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         case DataTypeId::DataValue:
         case DataTypeId::Variant:
         case DataTypeId::DiagnosticInfo:
-            LM(GEN, LE, "Unexpected");
-        break;
+        default:
+            throw std::runtime_error("Unexpected encoding");
         };
     }
     return s;
-- 
2.43.0


From a0fadf87a2d2a11502be48eae237acdbbb35e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 27/64] fix: set the ExpandedNodeId flags in its own encoding
 byte

The flags were set in the first byte of the buffer.
---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 01ea2d2..72b14ea 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -609,7 +609,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From 73f10b4ba630d7591824868ebce9fc06893d5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 28/64] fix: check the id of an OPC UA connection, channel or
 session

The id of a session is taken from the request of the client.
---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From cf54273ca1cfbc23f9cbdfa8eea8272e485248a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 29/64] fix: do not depend on segmentation when receiving an
 OPC UA message

A message of more than 1024 bytes was accepted or rejected depending on how it
was split; a message that can not fit the buffer was waited for.
---
 src/app/ua/transport/server/UaTcpConnection.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..fc88887 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -175,13 +175,6 @@ void UaTcpConnection::receivePreaction()
 
 UaTcpConnection::Result UaTcpConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
-    {
-        LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
-        return Result::error;
-    }
-
     auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
     switch (result.status)
     {
@@ -201,6 +194,12 @@ UaTcpConnection::Result UaTcpConnection::receive()
         return Result::noerror;
     }
 
+    if (getMsgSizeFromHdr(rxBuffer.begin()) > rxBuffer.size() + rxBuffer.capacity())
+    {
+        LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+        return Result::error;
+    }
+
     if (rxBuffer.size() < getMsgSizeFromHdr(rxBuffer.begin()))
     {
         return Result::noerror;
-- 
2.43.0


From e61404a9c2b1dfd4e5cce2cb935874e4f9402305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 30/64] fix: forward exactly the payload of an OPC UA message

The size of the already decoded header was not subtracted, so that stale bytes
followed the payload and a long message overflowed the forwarded one.
---
 .../ua/common/types/UaMessageHeader.hpp       |  2 ++
 .../channel/UaServerSecureChannel.cpp         |  4 +--
 .../ua/transport/server/UaTcpConnection.cpp   | 25 ++++++++++++++-----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/app/common/ua/common/types/UaMessageHeader.hpp b/src/app/common/ua/common/types/UaMessageHeader.hpp
index 2866820..3e77604 100644
--- a/src/app/common/ua/common/types/UaMessageHeader.hpp
+++ b/src/app/common/ua/common/types/UaMessageHeader.hpp
@@ -6,6 +6,8 @@
 namespace app::ua
 {
 
+static constexpr std::uint32_t uaMessageHeaderSize = 12;
+
 struct UaMessageHeader : public MessageHeader
 {
     UInt32                  secureChannelId;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..c509882 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -205,8 +205,8 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessage
     msgRsp.hdr.secureChannelId = secureChannelId;
     msgRsp.hdr.requestId = rxSeqHdr.requestId;
     msgRsp.hdr.sessionId = sessionId ? *sessionId : invalidSuid;
-    msgRsp.length = rx.size();
-    std::memcpy(&msgRsp.data[0], rx.begin(), rx.size());
+    msgRsp.length = rx.end() - rx.begin();
+    std::memcpy(&msgRsp.data[0], rx.begin(), msgRsp.length);
     Sender::sendMsg(msgStore);
 
     return Result::done;
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index fc88887..38955af 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -290,10 +290,23 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     }
     auto msgType = fromString(rxBuffer.begin());
 
+    if (rxBuffer.size() < uaMessageHeaderSize)
+    {
+        LM(UATL, LE, "Uid-%u, received packet is too short", connectionId);
+        return Result::error;
+    }
+
     OpcUaBinaryCodec codec(rxBuffer);
     UaMessageHeader hdr;
     codec >> hdr;
 
+    std::uint32_t const length = rxBuffer.end() - rxBuffer.begin();
+    if (sizeof(MsgUaSecuredMessageReceiveInd) + length > reactor::maxMsgSize)
+    {
+        LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+        return Result::error;
+    }
+
     LM(UATL, LD, "Uid-%u, receiveSecuredMessage: %s", connectionId, toString(msgType).c_str());
 
     switch (msgType)
@@ -310,8 +323,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = length;
+        std::memcpy(msg.data, rxBuffer.begin(), length);
         Sender::sendMsg(msgStore);
     }
     break;
@@ -322,8 +335,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = length;
+        std::memcpy(msg.data, rxBuffer.begin(), length);
         Sender::sendMsg(msgStore);
     }
     break;
@@ -339,8 +352,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = length;
+        std::memcpy(msg.data, rxBuffer.begin(), length);
         Sender::sendMsg(msgStore);
     }
     break;
-- 
2.43.0


From c5d8ee2b25dfe7d518bf8445634a08c253c347e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 31/64] fix: accept only a valid Hello as the first OPC UA
 message

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 38955af..62e5d4c 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -226,18 +226,24 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
     HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid-%u, invalid HelloMessage: %s", connectionId, e.what());
+        return Result::error;
+    }
 
     LM(UATL, LD, "Uid-%u, received HelloMessage", connectionId);
 
-- 
2.43.0


From 3242a336060233c11d2b44bb42a1de2cc78d6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 32/64] fix: release the OPC UA channel and connection on a
 malformed message

The exception of the decoder left the channel allocated and the client connected.
---
 .../channel/UaServerSecureChannel.cpp          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index c509882..ef443b9 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -37,6 +37,7 @@ void UaServerSecureChannel::sendUaConnectionReleaseReq(UaConnectionId connection
 }
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChannelReq const& msgReq)
+try
 {
     OpcUaSduBuffer rx;
     std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
@@ -88,8 +89,14 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChan
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, invalid message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaCloseSecureChannelReq const& msgReq)
+try
 {
     if (not connectionId || *connectionId != msgReq.connectionId)
     {
@@ -153,6 +160,11 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaCloseSecureCha
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, invalid message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaAssociateSecureChannelReq const& msgReq)
 {
@@ -167,6 +179,7 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaAssociateSecur
 }
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessageReceiveInd const& msgReq)
+try
 {
     if (not connectionId || *connectionId != msgReq.connectionId)
     {
@@ -211,6 +224,11 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessage
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, invalid message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessageSendReq const& msgReq)
 {
-- 
2.43.0


From 7e29fad416aa60aad49cb278676d522fad473d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 33/64] fix: release the OPC UA connection when its link
 reports an error

The link is already closed then; connection and channel were kept until the
inactivity timeout.
---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp    | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp    | 2 ++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..a3e5d77 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -89,6 +89,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..ef99a73 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -32,6 +32,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 5d6ccc9c8484cb4d0c26dc3335a61f6a3755ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 34/64] fix: release an OPC UA channel no connection refers to

A channel opened for a connection that is gone, or replaced by a later open
request of the same connection, stayed allocated for ever.
---
 src/app/ua/transport/server/UaTcpConnection.cpp       | 11 ++++++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp       |  1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp   |  5 +++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp   |  2 ++
 .../transport/server/UaTcpConnectionReceiveHello.cpp  |  5 +++++
 .../transport/server/UaTcpConnectionReceiveHello.hpp  |  2 ++
 6 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 62e5d4c..f05105e 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -27,9 +27,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(*associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
@@ -67,6 +72,10 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..14f5a90 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -51,6 +51,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..4d16f2d 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -17,4 +17,9 @@ void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& l
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..f487e42 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -15,6 +15,8 @@ public:
     void onEnter(UaTcpConnection&) final;
 
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
+
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
 };
 
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index ef99a73..7edda03 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -47,4 +47,9 @@ void UaTcpConnectionReceiveHello::onExit(UaTcpConnection& fsm)
     fsm.stopTimer();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index f100976..259e967 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onError(UaTcpConnection&) final;
 
     void onTimer(UaTcpConnection&) final;
-- 
2.43.0


From 92259cceb6fe824c80abebd4ef09c7aa8b5bf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 35/64] fix: a message of another connection must not release
 an OPC UA channel

A channel released by one side and reused meanwhile was released again by a
message that was still on the way.
---
 .../securechannel/channel/UaServerSecureChannel.cpp   | 10 ++++++++++
 .../securechannel/channel/UaServerSecureChannel.hpp   |  1 +
 .../channel/UaServerSecureChannelEstablished.cpp      | 11 ++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index ef443b9..56ce80d 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -28,6 +28,16 @@ void UaServerSecureChannel::release()
     releaser.release(secureChannelId);
 }
 
+bool UaServerSecureChannel::isConnection(UaConnectionId id) const
+{
+    if (not connectionId || *connectionId != id)
+    {
+        LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
+        return false;
+    }
+    return true;
+}
+
 void UaServerSecureChannel::sendUaConnectionReleaseReq(UaConnectionId connectionId)
 {
     reactor::MsgStore<MsgUaConnectionReleaseReq> msgStore;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..22c78b5 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isConnection(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..9dae025 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,6 +7,9 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+        return;
+
     fsm.receive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
@@ -17,8 +20,11 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+        return;
+
     fsm.transit<UaServerSecureChannelInit>();
 }
 
@@ -29,6 +35,9 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+        return;
+
     if (UaServerSecureChannel::Result::done != fsm.receive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
-- 
2.43.0


From d2cd5f59405e997f2537e32ca6b78defcc90e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 36/64] fix: return the OPC UA connection to the pool when it
 gets no timer

---
 src/app/ua/transport/server/UaTcpConnectionInit.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index 4d16f2d..02583ee 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -13,7 +13,15 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
     fsm.acceptLink(link);
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocTimer();
+    }
+    catch (...)
+    {
+        fsm.release();
+        throw;
+    }
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 0856f7a3b3ce687a1ddedeebdb1d865fa07cb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 37/64] fix: use the encoding mask of OPC UA for the timestamps
 of a data value

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 8 ++++----
 src/app/common/ua/common/types/DataValue.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 72b14ea..1ecbe7e 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -682,11 +682,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
     {
         s >> data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s >> data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s >> data.serverTimeStampt;
     }
@@ -713,11 +713,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
     {
         s << data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s << data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s << data.serverTimeStampt;
     }
diff --git a/src/app/common/ua/common/types/DataValue.hpp b/src/app/common/ua/common/types/DataValue.hpp
index 3e42eb2..66e73cb 100644
--- a/src/app/common/ua/common/types/DataValue.hpp
+++ b/src/app/common/ua/common/types/DataValue.hpp
@@ -31,8 +31,8 @@ struct DataValue : public StructType<DataTypeId::DataValue>
               value.value
             , status
             , sourceTimestampt
-            , sourcePicoSeconds
             , serverTimeStampt
+            , sourcePicoSeconds
             , serverPicoSeconds
         );
     }
-- 
2.43.0


From b1b38f2f7142a2e6c7335ef5b827cf46b81fe773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 38/64] fix: decode OPC UA variants holding arrays of every
 encodable type

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 1ecbe7e..bcda165 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -776,6 +776,76 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("Unexpected encoding");
         }
-- 
2.43.0


From aea6d64f4dd5a651e66714e9980a41bd0ccbd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:16 +0000
Subject: [PATCH 39/64] fix: tell the secure channel when its OPC UA connection
 is released

---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index a3e5d77..2d1bdb3 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -86,6 +86,7 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaSecuredMessa
 
 void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)
 {
+    fsm.sendUaConnectionReleaseInd();
     fsm.transit<UaTcpConnectionInit>();
 }
 
-- 
2.43.0


From 8fe358be3c64cdad19ef9ad66582274b38d5d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:46 +0000
Subject: [PATCH 40/64] fix: do not take an unknown OPC UA service id for the
 one with the same low 16 bits

---
 src/app/ua/service/UaService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..2855b49 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,15 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const typeId = static_cast<DataTypeId>(serviceId);
+    auto const it = services.find(typeId);
+    if (static_cast<UaServiceId>(typeId) != serviceId || it == services.end())
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    it->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 29c5a13e86431f1addab075fbb0d68584bad594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 41/64] fix: do not depend on segmentation when an OPC UA
 library connection receives a message

---
 .../ua/protocols/connection/OpcUaConnection.cpp     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..2e3811e 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -70,13 +70,6 @@ void OpcUaConnection::receivePreaction()
 
 OpcUaConnection::Result OpcUaConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rx.size() > 1024)
-    {
-        LM(UA, LW, "Received packet is invalid");
-        return Result::error;
-    }
-
     auto const& result = link->receive(rx.end(), rx.capacity());
     switch (result.status)
     {
@@ -96,6 +89,12 @@ OpcUaConnection::Result OpcUaConnection::receive()
         return Result::noerror;
     }
 
+    if (getMsgSizeFromHdr(rx.begin()) > rx.size() + rx.capacity())
+    {
+        LM(UA, LW, "Received packet is too long");
+        return Result::error;
+    }
+
     if (rx.size() < getMsgSizeFromHdr(rx.begin()))
     {
         return Result::noerror;
-- 
2.43.0


From 9351d7fbb02aa5d119997441e2ac7d8f4b968e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 42/64] fix: report a malformed Hello or Acknowledge as an
 error of the OPC UA library connection

---
 .../ua/protocols/connection/ClientConnection.cpp       | 10 +++++++++-
 .../ua/protocols/connection/ServerConnection.cpp       | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..2db2f15 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -78,7 +78,15 @@ OpcUaConnection::Result ClientConnection::receiveAck()
 
     MessageHeader hdr;
     AcknowledgeMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ClientConnection-0, invalid AcknowledgeMessage: %s", e.what());
+        return Result::error;
+    }
 
     LM(UA, LD, "ClientConnection-0, received AcknowledgeMessage");
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..2c53b68 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -103,7 +103,15 @@ OpcUaConnection::Result ServerConnection::receiveHello()
 
     MessageHeader hdr;
     HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ServerConnection-0, invalid HelloMessage: %s", e.what());
+        return Result::error;
+    }
 
     return OpcUaConnection::Result::done;
 }
-- 
2.43.0


From b57785953ed5a4cd4e6e27ca389bbd19d96445c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 43/64] fix: report an error of the link after the connect of
 an OPC UA library connection

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp | 7 +++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp  | 7 +++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp  | 2 ++
 8 files changed, 36 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..a5b640a 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..998fc44 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,13 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..2a1314d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..33cb703 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,13 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From bfa4641a1cd50e140d7f0354996f2994c15377be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 44/64] fix: an OPC UA library connection that can not be
 started must not keep its link and timer

---
 .../connection/ClientConnectionConnecting.cpp        | 11 ++++++++++-
 .../ua/protocols/connection/ClientConnectionInit.cpp | 10 +++++++++-
 .../connection/ServerConnectionConnecting.cpp        | 11 ++++++++++-
 .../ua/protocols/connection/ServerConnectionInit.cpp | 12 ++++++++++--
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..4cab927 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,8 +8,17 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ClientConnection::connectTimeout);
+    try
+    {
+        fsm.connectLink();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "connect: %s", e.what());
+        fsm.notifyError();
+        fsm.transit<ClientConnectionInit>();
+    }
 }
 
 void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..9c70bc6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -13,8 +13,16 @@ void ClientConnectionInit::onEnter(ClientConnection& fsm)
 void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
     fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ClientConnectionConnecting>();
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..123e68c 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,8 +8,17 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ServerConnection::connectTimeout);
+    try
+    {
+        fsm.connectLink();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "connect: %s", e.what());
+        fsm.notifyError();
+        fsm.transit<ServerConnectionInit>();
+    }
 }
 
 void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..c787fc9 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -14,15 +14,23 @@ void ServerConnectionInit::onEnter(ServerConnection& fsm)
 void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
     fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ServerConnectionConnecting>();
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 372d66e5261d5ad1e5dbfdb9ae9bf905183b0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 45/64] fix: let an OPC UA library connection be closed before
 it is established

---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnecting.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnecting.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index 4cab927..a773963 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -53,6 +53,12 @@ void ClientConnectionConnecting::onError(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnecting::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
index b2690a3..24731d6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 998fc44..5c6bf28 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -40,6 +40,12 @@ void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 5dcb312..9628454 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 123e68c..7d8262a 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -52,6 +52,12 @@ void ServerConnectionConnecting::onError(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnecting::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
index dcb1a11..527d58d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index 33cb703..ffd6042 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -59,6 +59,12 @@ void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index e45c686..02db3f5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 797c7929e5eda230cea10a5efc7db52a5dc4f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 46/64] fix: closing an OPC UA library connection when it is
 reported connected must not crash

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index a5b640a..5251028 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 2a1314d..49e37f0 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From f32e9210cea0e8cda615490f6993657365520363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 47/64] fix: sending on a closed OPC UA library connection must
 not crash

---
 src/app/common/ua/protocols/connection/OpcUaConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index 2e3811e..e077775 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -54,6 +54,11 @@ void OpcUaConnection::closeLink()
 
 OpcUaConnection::Result OpcUaConnection::send(OpcUaSduBuffer const& tx)
 {
+    if (not link)
+    {
+        LM(UA, LI, "send without link");
+        return Result::error;
+    }
     int rc = link->send(tx.begin(), tx.size());
     if (rc <= 0)
     {
-- 
2.43.0


From d7910c205a3c7c5ac606996f75db701a9e2dd6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 48/64] fix: report a malformed message as an error of the OPC
 UA library secure channel

---
 .../secure/OpcUaServerSecureChannel.cpp        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..b7aecff 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -81,6 +81,7 @@ void OpcUaServerSecureChannel::closeConnection()
 }
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -103,8 +104,14 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, invalid UaOpenSecureChannelReq: %s", e.what());
+    return Result::error;
+}
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -131,8 +138,14 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelRe
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, invalid UaCloseSecureChannelReq: %s", e.what());
+    return Result::error;
+}
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -161,6 +174,11 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, invalid message: %s", e.what());
+    return Result::error;
+}
 
 void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
 {
-- 
2.43.0


From de343fac56faf33ed027fe338877a79e5f04f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 49/64] fix: answer OpenSecureChannel of the OPC UA library
 with the handle of the request

---
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp | 2 ++
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index b7aecff..d7dc032 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -100,6 +100,7 @@ try
     UaOpenSecureChannelReqCont req;
     codec >> req;
 
+    storedRequestHandle = req.msg.requestHdr.requestHandle;
     storedRequestedLifetime = req.msg.requestLifetime;
 
     return Result::done;
@@ -243,6 +244,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::sendOpenSecureChannelRsp()
     codec << seqHdr;
 
     UaOpenSecureChannelRspCont rsp;
+    rsp.msg.responseHdr.requestHandle = storedRequestHandle;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.serverProtocolVer = opcUaProtocolVersion;
     rsp.msg.securityToken.secureChannelId = secureChannelId;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
index c56c24a..fc4b1a2 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
@@ -57,6 +57,7 @@ private:
     std::uint32_t sequenceNumberTx{1};
     std::uint32_t storedRxSequenceNumber;
     std::uint32_t storedRequestId;
+    std::uint32_t storedRequestHandle;
     std::uint32_t storedRequestedLifetime;
     std::uint32_t tokenId;
 };
-- 
2.43.0


From b8b14b7d9743b3b7e9515f440c9f20ac10bb33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 50/64] fix: closing an OPC UA library secure channel closes
 its connection

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index d7dc032..b0bc9cc 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -60,7 +60,12 @@ void OpcUaServerSecureChannel::open(reactor::LinkPtr& link)
 
 void OpcUaServerSecureChannel::close()
 {
-    //getState().onClosed(*this);
+    if (&getState() == &app::getSingleton<OpcUaServerSecureChannelInit>())
+    {
+        return;
+    }
+    closeConnection();
+    transit<OpcUaServerSecureChannelInit>();
 }
 
 OpcUaSduBuffer& OpcUaServerSecureChannel::getRxBuffer()
-- 
2.43.0


From b77fa8eb0cf2b10fb2ad8955b8e6c1d11327ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 51/64] fix: do not write beyond the buffer when a message of
 the OPC UA library secure channel is too long

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index b0bc9cc..f49d6b5 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -188,7 +188,14 @@ catch (std::exception const& e)
 
 void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
 {
+    static constexpr std::uint32_t headersSize = 24;
+
     OpcUaSduBuffer tx;
+    if (buf.size() + headersSize > tx.capacity())
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, message is too long");
+        return;
+    }
     OpcUaBinaryCodec codec(tx);
 
     UaMessageHeader hdr;
-- 
2.43.0


From 557c54078bbf09b901bddbed26bbdbe5b8c23f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 52/64] fix: an acceptor can listen again right after
 connections to its address were closed

---
 src/app/common/reactor/Acceptor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 22a8083..edbc34c 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -53,6 +53,13 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    int const reuse = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &reuse, sizeof(reuse)))
+    {
+        ::close(sfd);
+        sfd = -1;
+        throw std::runtime_error("setsockopt");
+    }
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From 76037168495414761f9e772d7c7d655e6ef96597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 53/64] fix: a thread that was never started is not joined

---
 src/app/common/reactor/Thread.cpp | 14 +++++++++++++-
 src/app/common/reactor/Thread.hpp |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..9d3d03d 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , joinable(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -39,7 +40,17 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
-    result = pthread_join(tid, nullptr);
+    join();
+}
+
+void Thread::join()
+{
+    if (not joinable || pthread_equal(tid, pthread_self()))
+    {
+        return;
+    }
+    joinable = false;
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
@@ -60,6 +71,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    joinable = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..511ccd4 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -18,10 +18,13 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
     pthread_t tid;
+    bool joinable;
     pthread_attr_t attr;
 };
 
-- 
2.43.0


From 762316adbe41a0bd76e94fd6aa6e380297251089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 54/64] fix: stopping a reactor waits for its threads, which
 may still use the components

---
 src/app/common/reactor/Reactor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index a34f41f..4b686f7 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -136,6 +136,11 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    event->send();
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
-- 
2.43.0


From b5b9ce01be4508f2947ee1ecc6b4b838b5ac3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 55/64] fix: a reactor manager that is destroyed, as when its
 start failed, stops its reactors first

---
 src/app/common/reactor/ReactorManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index 14e6ab0..7a65a3a 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -18,6 +18,10 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    for (auto& reactor : reactors)
+    {
+        reactor->stop();
+    }
 }
 
 void ReactorManager::send(MsgInterface const& msg)
-- 
2.43.0


From 48a8e8ec7d43234dc15c8bf34d63a1a2b88d3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:14 +0000
Subject: [PATCH 56/64] fix: LM: a text longer than the buffer is cut, not
 written past it

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0


From ca3a26ef9ee988644ad69c85224db18e98785503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 57/64] fix: client secure channel: an attempt that fails at
 once is told and can be repeated

---
 .../protocols/secure/OpcUaClientSecureChannelInit.cpp  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelInit.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelInit.cpp
index 8908010..7c0fd93 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelInit.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelInit.cpp
@@ -7,8 +7,16 @@ namespace app::ua
 
 void OpcUaClientSecureChannelInit::onOpen(OpcUaClientSecureChannel& fsm, reactor::LinkAddr& addr)
 {
-    fsm.connectLink(addr);
     fsm.transit<OpcUaClientSecureChannelConnecting>();
+    try
+    {
+        fsm.connectLink(addr);
+    }
+    catch (...)
+    {
+        fsm.transit<OpcUaClientSecureChannelInit>();
+        throw;
+    }
 }
 
 } // namespace app::ua
-- 
2.43.0


From 69eac8a32539719011d8c5b87f73603f68f6f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 58/64] fix: client secure channel: close closes

---
 .../ua/protocols/secure/OpcUaClientSecureChannel.cpp  | 11 +++++++++++
 .../ua/protocols/secure/OpcUaClientSecureChannel.hpp  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index 30f7f99..1a28626 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -44,6 +44,12 @@ void OpcUaClientSecureChannel::open(reactor::LinkAddr& addr)
 
 void OpcUaClientSecureChannel::close()
 {
+    if (&getState() == &app::getSingleton<OpcUaClientSecureChannelInit>())
+    {
+        return;
+    }
+    closeConnection();
+    transit<OpcUaClientSecureChannelInit>();
 }
 
 OpcUaSduBuffer& OpcUaClientSecureChannel::getRxBuffer()
@@ -60,6 +66,11 @@ void OpcUaClientSecureChannel::connectLink(reactor::LinkAddr& addr)
     connection.connect(addr);
 }
 
+void OpcUaClientSecureChannel::closeConnection()
+{
+    connection.close();
+}
+
 OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 {
     OpcUaSduBuffer tx;
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
index 822ed7e..99fe44c 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
@@ -44,6 +44,7 @@ private:
     void onConnectionClosedEvent() final;
 
     void connectLink(reactor::LinkAddr&);
+    void closeConnection();
     Result sendOpenSecureChannelReq();
     Result receiveOpenSecureChannelRsp();
 
-- 
2.43.0


From c8fcecd530bd35c69c9cfbeec2ddc24834b0fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 59/64] fix: client secure channel: a request that can not be
 sent is told and ends the connection

---
 .../ua/protocols/secure/OpcUaClientSecureChannel.cpp | 12 +++++++++++-
 .../secure/OpcUaClientSecureChannelConnecting.cpp    |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index 1a28626..53ae2cc 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -97,7 +97,17 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
     setPayloadSizeToHdr(tx.begin(), tx.size());
     LM(UA, LD, "OpcUaClientSecureChannel-0, send UaOpenSecureChannelReq, pkt size(%u)", tx.size());
 
-    connection.send(tx);
+    switch (connection.send(tx))
+    {
+    case OpcUaConnection::Result::done:
+    break;
+    case OpcUaConnection::Result::noerror:
+    case OpcUaConnection::Result::error:
+    {
+        return OpcUaSecureChannel::Result::error;
+    }
+    break;
+    }
     return OpcUaSecureChannel::Result::done;
 }
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
index 51e1e8b..7f84781 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
@@ -14,6 +14,8 @@ void OpcUaClientSecureChannelConnecting::onConnected(OpcUaClientSecureChannel& f
     {
         LM(UA, LE, "Unexpected");
         fsm.notifyError();
+        fsm.closeConnection();
+        fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
     case OpcUaSecureChannel::Result::done:
@@ -24,6 +26,8 @@ void OpcUaClientSecureChannelConnecting::onConnected(OpcUaClientSecureChannel& f
     case OpcUaSecureChannel::Result::error:
     {
         fsm.notifyError();
+        fsm.closeConnection();
+        fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
     }
-- 
2.43.0


From 9c0c1569216bd287adaa64f3cc324b3fe1ca3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 60/64] fix: client secure channel: one that ends before it is
 answered gives up its connection and can be opened again

---
 .../secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index 3a2fdf4..4ede73a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -20,6 +20,7 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
     case OpcUaSecureChannel::Result::error:
     {
         fsm.notifyError();
+        fsm.closeConnection();
         fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
@@ -29,11 +30,13 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
 void OpcUaClientSecureChannelReceiveOpenRsp::onClosed(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyClosed();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 void OpcUaClientSecureChannelReceiveOpenRsp::onError(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyError();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 } // namespace app::ua
-- 
2.43.0


From 44c6cb8bb4e46826d90f6c689b43d5f580207f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 61/64] fix: client secure channel: the answer is read with its
 type, and one that can not be read is an error

---
 .../ua/protocols/secure/OpcUaClientSecureChannel.cpp      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index 53ae2cc..a2a82eb 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -112,6 +112,7 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 }
 
 OpcUaSecureChannel::Result OpcUaClientSecureChannel::receiveOpenSecureChannelRsp()
+try
 {
     if (not isOpnMsg(connection.getRxBuffer().begin()))
     {
@@ -129,10 +130,15 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::receiveOpenSecureChannelRsp
     UaSequenceHeader seqHdr;
     codec >> seqHdr;
 
-    UaOpenSecureChannelRsp rsp;
+    UaOpenSecureChannelRspCont rsp;
     codec >> rsp;
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaClientSecureChannel-0, invalid UaOpenSecureChannelRsp: %s", e.what());
+    return Result::error;
+}
 
 } // namespace app::ua
-- 
2.43.0


From 765d08d0ec44addca9d0aabdc4a12e8ee50e335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 62/64] fix: client secure channel: the request names its
 security policy and mode

---
 src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index a2a82eb..04dcf37 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -85,6 +85,7 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
     codec << hdr;
 
     UaSecurityHeader secHdr;
+    secHdr.securityPolicyUri = "http://opcfoundation.org/UA/SecurityPolicy#None";
     codec << secHdr;
 
     UaSequenceHeader seqHdr;
@@ -92,6 +93,7 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 
     UaOpenSecureChannelReqCont req;
     req.msg.clientProtocolVer = opcUaProtocolVersion;
+    req.msg.securityMode = toInt32(UaSecurityModeEnum::none);
     codec << req;
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
-- 
2.43.0


From 06bab92a794c29020ed1327ed696f5387a6271a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:24 +0000
Subject: [PATCH 63/64] fix: link: data that is sent only in part is told as
 failed

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 5b9573c..d15718f 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (static_cast<std::size_t>(rc) != len)
+    {
+        LM(GEN, LE, "Link(%d) write rc: %zd len: %zu", fd, rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From 68067aede497f6880ad56f7ee7535882e6d80941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:00 +0000
Subject: [PATCH 64/64] fix: Variant: comparing two without array dimensions
 reads none

---
 src/app/common/ua/common/types/Variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..076bda9 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,7 +92,7 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
-- 
2.43.0

