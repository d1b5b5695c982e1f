From 5b005a4985fe45c42cd9b191c2260590650b2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 01/32] fix: don't write the shutdown reply when there's no
 writer

failMsgShutdown continued with a nil writer after GetWriter failed on a
disconnected socket, panicking the server.
---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..65951ff 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -109,6 +109,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From d68569b4dd9a05c8a2d4cd00688ccec7cdd73a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 02/32] fix: ignore signals during shutdown instead of
 processing them uncounted

A signal received during the shutdown was handled without being counted
in currentOps, but deregisterHandler decremented the counter nevertheless,
which made Shutdown return before all handlers finished (or underflowed the
counter and closed shutdownRdy too early).
---
 registerHandler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..4386bca 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -34,9 +34,12 @@ func (srv *server) registerHandler(
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if failMsg {
+		// Don't process the message, fail it if a reply is expected. Signals
+		// are ignored
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
-- 
2.43.0


From 0d3a22b7e078ce23a2ec7125a69695008240a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 03/32] fix: release the handler slot of messages refused
 during shutdown

---
 registerHandler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/registerHandler.go b/registerHandler.go
index 4386bca..1626a1e 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -40,6 +40,11 @@ func (srv *server) registerHandler(
 		if msg.RequiresReply() {
 			srv.failMsgShutdown(con, msg)
 		}
+
+		// Release the acquired handler slot
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
 		return false
 	}
 
-- 
2.43.0


From 2be66c624f5d6b5c59041ab530c8442faf4e1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 04/32] fix: set the server reference of the session registry

It's used to log panics of the OnSessionClosed hook, which caused a nil
dereference as it was never set.
---
 newServer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newServer.go b/newServer.go
index 53018ae..f60a9fd 100644
--- a/newServer.go
+++ b/newServer.go
@@ -82,6 +82,8 @@ func NewServer(
 		},
 	)
 
+	srv.sessionRegistry.server = srv
+
 	// Initialize the transport layer
 	if err := transport.Initialize(
 		opts,
-- 
2.43.0


From 88451099f04396872b61251b920131267cfa8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 05/32] fix: log the error returned by the OnSessionClosed hook

---
 newServer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index f60a9fd..be48c42 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,7 +77,7 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("OnSessionClosed hook failed: %s", err)
 			}
 		},
 	)
-- 
2.43.0


From d13d018725f3f377d093688158146c9c8116c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 06/32] fix: refuse requests on closing connections atomically

The check whether the connection is still active and the registration of
the task weren't atomic, a connection could be unlinked in between and the
task was then executed on a dead connection. Requests received on a
connection that's about to be closed never got any reply.
---
 connection.go      | 11 +++++++++--
 registerHandler.go | 14 ++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..ac13343 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,18 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the connection is closed or about to be closed and
+// doesn't accept any new tasks
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	if !con.isActive {
+		con.stateLock.Unlock()
+		return false
+	}
 	con.tasks++
 	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/registerHandler.go b/registerHandler.go
index 1626a1e..470098e 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -16,17 +16,16 @@ func (srv *server) registerHandler(
 ) bool {
 	failMsg := false
 
-	if !con.IsActive() {
-		return false
-	}
-
 	// Acquire handler slot if the number of concurrent handlers is limited
 	if con.options.ConcurrencyLimit > 1 {
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
+	// Closing connections don't accept new tasks
+	registered := con.registerTask()
+
 	srv.opsLock.Lock()
-	if srv.shutdown {
+	if srv.shutdown || !registered {
 		// defer failure due to shutdown of either the server or the connection
 		failMsg = true
 	} else {
@@ -45,9 +44,12 @@ func (srv *server) registerHandler(
 		if con.options.ConcurrencyLimit > 1 {
 			con.handlerSlots.Release(1)
 		}
+
+		if registered {
+			con.deregisterTask()
+		}
 		return false
 	}
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From 9b19f615f26773ec35c13a4888f64467c51b5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 07/32] fix: don't deregister the session of other connections

deregister removed (and destroyed) the entire session when the given
connection wasn't registered for it but another single connection was.
---
 sessionRegistry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..14432b2 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -76,6 +76,11 @@ func (asr *sessionRegistry) deregister(
 
 	asr.lock.Lock()
 	if connSet, exists := asr.registry[conn.session.Key]; exists {
+		if _, isMember := connSet[conn]; !isMember {
+			asr.lock.Unlock()
+			return -1
+		}
+
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
 			delete(asr.registry, conn.session.Key)
-- 
2.43.0


From fd3aa60653d2f747cf5b2b1b678093dd13b43f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 08/32] fix: hold the session lock when (de)registering a
 connection's session

Concurrent session closure/creation/restoration and the connection closure
read and replaced the session without synchronization causing races, nil
dereferences and registry entries of connections without a session.
---
 connection.go           | 10 +---------
 handleSessionClosure.go |  4 +++-
 handleSessionRestore.go |  6 ++++--
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/connection.go b/connection.go
index ac13343..21347ea 100644
--- a/connection.go
+++ b/connection.go
@@ -124,20 +124,12 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
-}
-
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
+	con.sessionLock.Lock()
 	// Deregister session from active sessions registry, but don't destroy it
 	con.srv.sessionRegistry.deregister(con, false)
-
-	con.sessionLock.Lock()
 	con.session = nil
 	con.sessionLock.Unlock()
 
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..aa694ba 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -30,12 +30,14 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
+	con.sessionLock.Lock()
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
 	srv.sessionRegistry.deregister(con, true)
 
 	// Reset the session on the connection
-	con.setSession(nil)
+	con.session = nil
+	con.sessionLock.Unlock()
 
 	// Send confirmation
 	srv.fulfillMsg(con, msg, Payload{})
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..b9e8a5a 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -83,17 +83,19 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	con.sessionLock.Lock()
+	con.session = &Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
+	}
 	if err := srv.sessionRegistry.register(con); err != nil {
 		panic(fmt.Errorf("the number of concurrent session connections was " +
 			"unexpectedly exceeded",
 		))
 	}
+	con.sessionLock.Unlock()
 
 	srv.fulfillMsg(
 		con,
-- 
2.43.0


From d169dc26badc921f691a7a5c13669031e5087e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 09/32] fix: don't panic on concurrent session restorations

Two connections concurrently restoring the same session could both pass the
limit check, the server panicked then. Fail the restoration request instead.
---
 handleSessionRestore.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index b9e8a5a..f31f18e 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -84,6 +83,7 @@ func (srv *server) handleSessionRestore(
 	}
 
 	con.sessionLock.Lock()
+	previousSession := con.session
 	con.session = &Session{
 		Key:        key,
 		Creation:   sessionCreation,
@@ -91,9 +91,12 @@ func (srv *server) handleSessionRestore(
 		Info:       parsedSessInfo,
 	}
 	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+		// The limit was reached by another connection in the meantime
+		con.session = previousSession
+		con.sessionLock.Unlock()
+		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		finalize()
+		return
 	}
 	con.sessionLock.Unlock()
 
-- 
2.43.0


From e1a0d3ac14ffdea25b2f1958d7ee5f598e9591f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 10/32] fix: deregister the previous session when restoring
 another one

A connection restoring a session while having another one remained
registered for the previous session forever.
---
 handleSessionRestore.go |  4 ++++
 sessionRegistry.go      | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index f31f18e..800e504 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -98,6 +98,10 @@ func (srv *server) handleSessionRestore(
 		finalize()
 		return
 	}
+	if previousSession != nil && previousSession.Key != key {
+		// Leave the previous session without destroying it
+		srv.sessionRegistry.remove(con, previousSession.Key, false)
+	}
 	con.sessionLock.Unlock()
 
 	srv.fulfillMsg(
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 14432b2..db9b39d 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -74,8 +74,17 @@ func (asr *sessionRegistry) deregister(
 		return -1
 	}
 
+	return asr.remove(conn, conn.session.Key, destroy)
+}
+
+// remove does the same as deregister for an explicitly given session
+func (asr *sessionRegistry) remove(
+	conn *connection,
+	sessionKey string,
+	destroy bool,
+) int {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
+	if connSet, exists := asr.registry[sessionKey]; exists {
 		if _, isMember := connSet[conn]; !isMember {
 			asr.lock.Unlock()
 			return -1
@@ -83,7 +92,7 @@ func (asr *sessionRegistry) deregister(
 
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
+			delete(asr.registry, sessionKey)
 			asr.lock.Unlock()
 
 			// Destroy the session
@@ -99,7 +108,7 @@ func (asr *sessionRegistry) deregister(
 					}
 				}()
 
-				asr.onSessionDestroy(conn.session.Key)
+				asr.onSessionDestroy(sessionKey)
 			}
 
 			return 0
-- 
2.43.0


From 9cba5a6d569623e26b446d612eef1063f6f5002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 11/32] fix: don't ignore session registration errors in
 CreateSession

When the key generator returned the key of a session that already reached
the maximum number of connections CreateSession succeeded and assigned the
session to the connection without registering it.
---
 connection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index 21347ea..ce12043 100644
--- a/connection.go
+++ b/connection.go
@@ -210,8 +210,18 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		con.sessionLock.Unlock()
+		return fmt.Errorf("Couldn't register the session: %s", err)
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
@@ -219,10 +229,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		)
 	}
 
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
 	con.sessionLock.Unlock()
 
 	// Call session creation hook
-- 
2.43.0


From 22e3318ab8dc942c6e378488ad677aa54f7f5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 12/32] fix: don't create sessions on unlinked connections

CreateSession executed concurrently to the closure of the connection could
register a session for a connection that was already unlinked, it remained
in the registry forever then.
---
 connection.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/connection.go b/connection.go
index ce12043..d771620 100644
--- a/connection.go
+++ b/connection.go
@@ -46,6 +46,10 @@ type connection struct {
 	// session references the currently assigned session, can be null
 	session *Session
 
+	// unlinked is set when the connection is unlinked, no session can be
+	// assigned to it any more then. It's protected by sessionLock
+	unlinked bool
+
 	// info represents overall connection information
 	info info
 }
@@ -131,6 +135,7 @@ func (con *connection) unlink() {
 	// Deregister session from active sessions registry, but don't destroy it
 	con.srv.sessionRegistry.deregister(con, false)
 	con.session = nil
+	con.unlinked = true
 	con.sessionLock.Unlock()
 
 	// Close connection
@@ -198,6 +203,16 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 
 	con.sessionLock.Lock()
 
+	// Abort if the connection was closed in the meantime
+	if con.unlinked {
+		con.sessionLock.Unlock()
+		return ErrDisconnected{
+			Cause: fmt.Errorf(
+				"Can't create session on disconnected connection",
+			),
+		}
+	}
+
 	// Abort if there's already another active session
 	if con.session != nil {
 		con.sessionLock.Unlock()
-- 
2.43.0


From 467a7ea6c9884bb1ba51ecddf6449d6252b7ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 13/32] fix: release the session lock when user code panics

Panics of the session key generator or of the session info object left the
session lock of the connection locked.
---
 connection.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/connection.go b/connection.go
index d771620..7a69970 100644
--- a/connection.go
+++ b/connection.go
@@ -201,11 +201,27 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		}
 	}
 
+	if err := con.startSession(attachment); err != nil {
+		return err
+	}
+
+	// Call session creation hook
+	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
+		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
+	}
+
+	return nil
+}
+
+// startSession creates, registers and assigns a new session and notifies the
+// client about it
+func (con *connection) startSession(attachment SessionInfo) error {
+	// Unlock even if the session key generator or the attachment panics
 	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
 
 	// Abort if the connection was closed in the meantime
 	if con.unlinked {
-		con.sessionLock.Unlock()
 		return ErrDisconnected{
 			Cause: fmt.Errorf(
 				"Can't create session on disconnected connection",
@@ -215,7 +231,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 
 	// Abort if there's already another active session
 	if con.session != nil {
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
 			con.session.Key,
@@ -229,7 +244,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	con.session = &newSession
 	if err := con.srv.sessionRegistry.register(con); err != nil {
 		con.session = nil
-		con.sessionLock.Unlock()
 		return fmt.Errorf("Couldn't register the session: %s", err)
 	}
 
@@ -237,20 +251,12 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	if err := con.notifySessionCreated(&newSession); err != nil {
 		con.srv.sessionRegistry.deregister(con, false)
 		con.session = nil
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
 
-	con.sessionLock.Unlock()
-
-	// Call session creation hook
-	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
-		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
-	}
-
 	return nil
 }
 
@@ -326,9 +332,8 @@ func (con *connection) HasSession() bool {
 // Session implements the Connection interface
 func (con *connection) Session() *Session {
 	con.sessionLock.RLock()
-	clone := con.session.Clone()
-	con.sessionLock.RUnlock()
-	return clone
+	defer con.sessionLock.RUnlock()
+	return con.session.Clone()
 }
 
 // SessionKey implements the Connection interface
@@ -358,13 +363,11 @@ func (con *connection) SessionCreation() time.Time {
 // SessionInfo implements the Connection interface
 func (con *connection) SessionInfo(name string) interface{} {
 	con.sessionLock.RLock()
+	defer con.sessionLock.RUnlock()
 	if con.session == nil || con.session.Info == nil {
-		con.sessionLock.RUnlock()
 		return nil
 	}
-	val := con.session.Info.Value(name)
-	con.sessionLock.RUnlock()
-	return val
+	return con.session.Info.Value(name)
 }
 
 // Close implements the Connection interface
-- 
2.43.0


From 232d06fdcf8e1fa213f7ace30e867a2d175f6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 14/32] fix: remove closed connections from the list of
 connections

The list only grew, closed connections were never garbage collected.
---
 handleConnection.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..5d26029 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -74,6 +74,18 @@ func (srv *server) handleConnection(
 				srv.warnLog.Printf("abnormal closure error: %s", err)
 			}
 
+			srv.connectionsLock.Lock()
+			for i, con := range srv.connections {
+				if con == connection {
+					last := len(srv.connections) - 1
+					srv.connections[i] = srv.connections[last]
+					srv.connections[last] = nil
+					srv.connections = srv.connections[:last]
+					break
+				}
+			}
+			srv.connectionsLock.Unlock()
+
 			connection.Close()
 			srv.impl.OnClientDisconnected(connection, err)
 			break
-- 
2.43.0


From 17f15548c88056890a6059887d0b74a16d10a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 15/32] fix: release the writer when closing an empty memchan
 buffer

Closing the writer without having written any data (e.g. because the message
didn't pass validation or overflowed the buffer) left both the buffer and
the writer of the socket locked forever.
---
 transport/memchan/buffer.go | 7 ++++++-
 transport/memchan/socket.go | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..3bf6082 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -51,10 +51,15 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 	return len(p), nil
 }
 
-// Close flushes the buffer to the reader
+// Close flushes the buffer to the reader. The flush callback is also called when
+// there's nothing to be flushed for it to release the writer
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
 	if buf.len < 1 {
+		if buf.onFlush != nil {
+			buf.onFlush(nil)
+		}
+		buf.lock.Unlock()
 		return errors.New("no data written")
 	}
 	err = buf.onFlush(buf.buf[:buf.len])
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..2287542 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -69,6 +69,12 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	if len(data) < 1 {
+		// Nothing was written, just release the writer
+		sock.writerLock.Unlock()
+		return nil
+	}
+
 	if !sock.IsConnected() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-- 
2.43.0


From 9775d118f5dc399dd08d7ef59886f3ea8559ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 16/32] fix: don't leave requests unanswered if the reply can't
 be written

Replies exceeding the message buffer, UTF16 replies with invalid payloads and
ErrRequest errors with an invalid code were just logged, the client never
received any reply.
---
 failMsg.go    | 8 ++++++++
 fulfillMsg.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/failMsg.go b/failMsg.go
index 65951ff..e08b742 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -36,6 +36,10 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// The error reply couldn't be sent, don't leave the request
+			// unanswered
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case *ErrRequest:
@@ -47,6 +51,10 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// The error reply couldn't be sent, don't leave the request
+			// unanswered
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case ErrMaxSessConnsReached:
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..5a5b378 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -29,5 +29,8 @@ func (srv *server) fulfillMsg(
 			con,
 			err,
 		)
+
+		// The reply couldn't be sent, don't leave the request unanswered
+		srv.failMsg(con, msg, nil)
 	}
 }
-- 
2.43.0


From f5b1bd2b3dea43d58f2c886ab0c7939741fe2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 17/32] fix: don't unlock the unlocked connections lock in
 memchan Shutdown

---
 transport/memchan/transport.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..b82a40d 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -80,7 +80,6 @@ func (srv *Transport) Shutdown() error {
 		// Close all connections
 		for _, sock := range conns {
 			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
 				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
 			}
 		}
-- 
2.43.0


From 5841eb82348129e1db8a061a99c81e2d90dd57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 18/32] fix: don't leave refused memchan sockets connected

A socket remained connected when the server refused its connection. A
connection established concurrently to the shutdown of the transport could
be missed by it and was never closed.
---
 transport/memchan/socket.go    | 7 ++++++-
 transport/memchan/transport.go | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 2287542..3c76807 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -120,7 +120,12 @@ func (sock *Socket) Dial(deadline time.Time) error {
 	sock.remote.resetReader()
 
 	// Execute server callback
-	return sock.server.onConnect(sock, connOpts)
+	if err := sock.server.onConnect(sock, connOpts); err != nil {
+		// The connection was refused
+		atomic.StoreUint32(sock.status, statusDisconnected)
+		return err
+	}
+	return nil
 }
 
 // GetWriter implements the transport.Socket interface
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index b82a40d..cfa0a95 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -104,15 +104,15 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
-	if atomic.LoadUint32(&srv.status) != serverActive {
-		return errors.New("server is closed")
-	}
-
 	if clientSocket.remote == nil || clientSocket.status == nil {
 		return errors.New("uninitialized socket")
 	}
 
 	srv.connectionsLock.Lock()
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		srv.connectionsLock.Unlock()
+		return errors.New("server is closed")
+	}
 	srv.connections[clientSocket.remote] = clientSocket
 	srv.connectionsLock.Unlock()
 
-- 
2.43.0


From 5058506a5e1bc6e909af0ec4330144fbf8586434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 19/32] fix: don't race memchan socket closure against active
 readers and writers

Writing to a concurrently closed socket could panic sending on a closed
channel, the writer and the reader could block forever waiting for the
confirmation sent by Close to the other side. Messages are now handed over
synchronously and are always confirmed once accepted, while the closure of
the connection is signaled by a separate channel.
---
 transport/memchan/newSocket.go |  6 ++-
 transport/memchan/socket.go    | 82 ++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..97cbe6a 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -17,9 +17,10 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
+		reader:     make(chan []byte),
 		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
+		closed:     make(chan struct{}),
 		readTimer:  readTimer,
 		remote:     nil,
 		status:     nil,
@@ -47,9 +48,10 @@ func newDisconnectedSocket() *Socket {
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
+		reader:     make(chan []byte),
 		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
+		closed:     make(chan struct{}),
 		readTimer:  readTimer,
 		remote:     nil,
 		status:     &status,
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 3c76807..adc1ab2 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -62,6 +62,10 @@ type Socket struct {
 	reader     chan []byte
 	readerErr  chan error
 	readerLock *sync.Mutex
+
+	// closed is closed when the current connection is closed. It's protected
+	// by readerLock and replaced for each connection
+	closed chan struct{}
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -81,7 +85,10 @@ func (sock *Socket) onBufferFlush(data []byte) (err error) {
 	}
 
 	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	if !sock.remote.writeReader(data) {
+		sock.writerLock.Unlock()
+		return errors.New("socket closed")
+	}
 
 	// Wait for the remote reader to finish reading
 	err = <-sock.remote.readerErr
@@ -145,30 +152,43 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
+func (sock *Socket) getReader() (chan []byte, chan struct{}) {
 	sock.readerLock.Lock()
-	reader := sock.reader
+	reader, closed := sock.reader, sock.closed
 	sock.readerLock.Unlock()
-	return reader
+	return reader, closed
 }
 
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
+// writeReader blocks until the data was accepted by the reader and returns true,
+// or returns false if the socket was closed before. If the data was accepted
+// then it'll always be confirmed through readerErr
+func (sock *Socket) writeReader(data []byte) bool {
+	reader, closed := sock.getReader()
+	select {
+	case reader <- data:
+		return true
+	case <-closed:
+		return false
+	}
 }
 
 // closeReader closes the current reader
 func (sock *Socket) closeReader() {
 	sock.readerLock.Lock()
-	close(sock.reader)
+	select {
+	case <-sock.closed:
+		// Already closed
+	default:
+		close(sock.closed)
+	}
 	sock.readerLock.Unlock()
 }
 
 // resetReader resets the socket reader
 func (sock *Socket) resetReader() {
 	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
+	sock.reader = make(chan []byte)
+	sock.closed = make(chan struct{})
 	sock.readerLock.Unlock()
 }
 
@@ -176,21 +196,22 @@ func (sock *Socket) readWithoutDeadline() (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
-	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
+	reader, closed := sock.getReader()
 
-	if data == nil {
-		// Socket closed
+	// Await either a message or remote/local socket closure
+	select {
+	case data = <-reader:
+		return data, nil
+	case <-closed:
 		return nil, ErrSockRead{closed: true}
 	}
-
-	return data, nil
 }
 
 func (sock *Socket) readWithDeadline(deadline time.Time) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
+	reader, closed := sock.getReader()
 	sock.readTimer.Reset(time.Until(deadline))
 
 	// Await either a message, socket closure or deadline trigger
@@ -199,13 +220,11 @@ func (sock *Socket) readWithDeadline(deadline time.Time) (
 		// Deadline exceeded
 		err = ErrSockRead{err: errors.New("read deadline exceeded")}
 
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+	case data = <-reader:
+
+	case <-closed:
+		// Socket closed
+		err = ErrSockRead{closed: true}
 	}
 
 	sock.readTimer.Stop()
@@ -285,23 +304,10 @@ func (sock *Socket) Close() error {
 		return nil
 	}
 
-	// Close remote reader and writer
+	// Close the remote reader, fails the local writer if it's not yet accepted
 	sock.remote.closeReader()
 
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Close the local reader
+	// Close the local reader, fails the remote writer if it's not yet accepted
 	sock.closeReader()
 
 	// Execute server callback
-- 
2.43.0


From 4d55ebd0f4b314f391dce996cc04c5e0dc8c6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 20/32] fix: don't panic closing messages that don't belong to
 a pool

---
 message/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..bd64a65 100644
--- a/message/message.go
+++ b/message/message.go
@@ -310,5 +310,7 @@ func (msg *Message) Close() {
 	msg.ServerConfiguration = ServerConfiguration{}
 
 	// Call closure callback
-	msg.onClose()
+	if msg.onClose != nil {
+		msg.onClose()
+	}
 }
-- 
2.43.0


From 8a0321257e2a12505df22fd1872a24e7a732fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 21/32] fix: don't truncate oversized messages when reading
 them

A reader returning the remaining data together with io.EOF overwrote the
beginning of the full message buffer, and the message was accepted.
---
 message/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..b500b41 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -33,8 +33,8 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	for {
 		if cursor >= len(buf.buf) {
 			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			readBytes, err := reader.Read(make([]byte, 1))
+			if readBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From 8eef0db51f44498a898e6d42f3c2001f4eeea9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 22/32] fix: make signal writer and parser agree on signals
 without a payload

UTF16 signals consisting of just a name were written but rejected by the
parser, and signals without both name and payload were written even though
no parser accepts them.
---
 message/parseSignalUtf16.go |  5 ++---
 message/writeMsgSignal.go   | 12 ++++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..a248cec 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -26,7 +26,7 @@ func (msg *Message) parseSignalUtf16() error {
 	nameLen := int(dat[1])
 
 	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	minMsgSize := 2 + nameLen
 	payloadOffset := 2 + nameLen
 
 	// Check whether a name padding byte is to be expected
@@ -40,8 +40,7 @@ func (msg *Message) parseSignalUtf16() error {
 	// name length doesn't correspond to the actual name length
 	if msg.MsgBuffer.len < minMsgSize {
 		return fmt.Errorf(
-			"invalid signal message, too short for full name (%d) "+
-				"and the minimum payload (2)",
+			"invalid signal message, too short for full name (%d)",
 			nameLen,
 		)
 	}
diff --git a/message/writeMsgSignal.go b/message/writeMsgSignal.go
index ac8fd9a..0fa6d9c 100644
--- a/message/writeMsgSignal.go
+++ b/message/writeMsgSignal.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -16,6 +17,17 @@ func WriteMsgSignal(
 	payloadData []byte,
 	safeMode bool,
 ) error {
+	// Require either a name, or a payload or both, but don't allow none
+	if len(name) < 1 && len(payloadData) < 1 {
+		initialErr := errors.New(
+			"signal message requires either a name, or a payload, or both",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	if len(name) > 255 {
 		initialErr := fmt.Errorf(
 			"unsupported request message name length: %d",
-- 
2.43.0


From fa0c75eb3c2e427c59417a15a770dae0a20d1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 23/32] fix: confine session files to the session directory

The session key of a restoration request is provided by the client and could
refer to arbitrary files outside of the session directory.
---
 defaultSessionManager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..69231ec 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"time"
@@ -90,9 +91,11 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
-// filePath generates an absolute session file path given the session key
+// filePath generates an absolute session file path given the session key.
+// The key is escaped because it's provided by the client and must not refer to
+// any file outside of the session directory
 func (mng *DefaultSessionManager) filePath(sessionKey string) string {
-	return filepath.Join(mng.path, sessionKey+".wwrsess")
+	return filepath.Join(mng.path, url.PathEscape(sessionKey)+".wwrsess")
 }
 
 // OnSessionCreated implements the session manager interface.
-- 
2.43.0


From 17eb855f6ca34a2a7212e99f5f5e266a36a18702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 24/32] fix: make the default session directory accessible

A directory without the execute permission can't be accessed by its owner.
---
 defaultSessionManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 69231ec..cc269fa 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -70,7 +70,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
-- 
2.43.0


From aafec8ad73a92e1c325b48685112c6d7e4d5a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 25/32] fix: don't panic saving sessions that were closed in
 the meantime

---
 defaultSessionManager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index cc269fa..0323767 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -102,12 +102,16 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 	sess := conn.Session()
+	if sess == nil {
+		// The session was already closed in the meantime
+		return fmt.Errorf("the connection has no session")
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
-- 
2.43.0


From 1c7b3c1baa3cfd1a044301bb62d5270ced37eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 26/32] fix: write session files atomically

A crash while writing a session file, or a concurrent lookup of it, left or
observed an empty or partially written file.
---
 defaultSessionManager.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 0323767..fe59741 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -35,7 +35,28 @@ func (sessf *sessionFile) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+
+	// Write to a temporary file first to never leave a partially written
+	// session file behind
+	file, err := ioutil.TempFile(filepath.Dir(filePath), "tmp")
+	if err != nil {
+		return fmt.Errorf("Couldn't create temporary session file: %s", err)
+	}
+	_, err = file.Write(encoded)
+	if syncErr := file.Sync(); err == nil {
+		err = syncErr
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(file.Name(), 0640)
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(file.Name())
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
-- 
2.43.0


From fece861ce30a9cfe27f0ef246b5cb1c6328b0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 27/32] fix: resolve pending requests exactly once

Concurrent Fulfill and Fail calls could both find the same pending request,
the second one blocked forever on the reply channel or both reported success.
---
 requestManager/requestManager.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..45ae765 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -63,15 +63,15 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
+	manager.lock.Lock()
 	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
+	delete(manager.pending, msg.MsgIdentifier)
+	manager.lock.Unlock()
 
 	if !exists {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
@@ -85,15 +85,15 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
+	manager.lock.Lock()
 	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
+	delete(manager.pending, identifier)
+	manager.lock.Unlock()
 
 	if !exists {
 		return false
 	}
 
-	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
-- 
2.43.0


From 34deceeeb16aa950974c281611133a73fccd4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 28/32] fix: convert UTF16 surrogate pairs to UTF8 correctly

Code units were decoded individually, characters outside of the BMP were
replaced by two replacement characters.
---
 payload/payload.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..45b5eaa 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,14 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		u16str := make([]uint16, len(pld.Data)/2)
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
 		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+			u16str[i/2] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
+		}
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From 200554c2559bbd681e4f84985516e4cda3ffc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 29/32] fix: don't resurrect closed sessions during a
 concurrent lookup

OnSessionLookup rewrote the session file even when OnSessionClosed deleted it
in the meantime, the destroyed session could be restored then.
---
 defaultSessionManager.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index fe59741..ace4069 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -7,6 +7,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -66,6 +67,9 @@ func (sessf *sessionFile) Save(filePath string) error {
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock serializes the access to the session files
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -142,6 +146,10 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
+	// Don't recreate the file of a session that's closed concurrently
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	path := mng.filePath(key)
 
 	// Lookup session file
@@ -187,6 +195,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From d730c6686925d30fa26f5094b996e7d69f866780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:38 +0000
Subject: [PATCH 30/32] fix: don't write notifications and nameless requests
 the parser rejects

Session restorations without a key, session closures with a payload and
session creation notifications without session info were written successfully
although every parser refuses them.
---
 message/writeMsgNamelessRequest.go | 13 +++++++++++++
 message/writeMsgSessionCreated.go  | 10 ++++++++++
 2 files changed, 23 insertions(+)

diff --git a/message/writeMsgNamelessRequest.go b/message/writeMsgNamelessRequest.go
index c4cf3c3..c89df28 100644
--- a/message/writeMsgNamelessRequest.go
+++ b/message/writeMsgNamelessRequest.go
@@ -20,6 +20,19 @@ func WriteMsgNamelessRequest(
 		panic(fmt.Errorf("unexpected nameless request type: %d", reqType))
 	}
 
+	// Require a session key for session restorations and no payload otherwise
+	if (reqType == MsgRequestRestoreSession) != (len(binaryPayload) > 0) {
+		initialErr := fmt.Errorf(
+			"invalid nameless request (%d) payload length: %d",
+			reqType,
+			len(binaryPayload),
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	// Write message type flag
 	if _, err := writer.Write(msgType); err != nil {
 		if closeErr := writer.Close(); closeErr != nil {
diff --git a/message/writeMsgSessionCreated.go b/message/writeMsgSessionCreated.go
index 929cf8c..5f36773 100644
--- a/message/writeMsgSessionCreated.go
+++ b/message/writeMsgSessionCreated.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 )
@@ -11,6 +12,15 @@ func WriteMsgNotifySessionCreated(
 	writer io.WriteCloser,
 	sessionInfo []byte,
 ) error {
+	// Require the session info
+	if len(sessionInfo) < 1 {
+		initialErr := errors.New("missing session info")
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	// Write message type flag
 	if _, err := writer.Write(msgTypeSessionCreated); err != nil {
 		if closeErr := writer.Close(); closeErr != nil {
-- 
2.43.0


From 6a13989486faeb4da248da60be364d594e96612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 31/32] fix: copy session info maps with nil interface keys

---
 genericSessionInfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index d2206e2..985e5ba 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -61,8 +61,8 @@ func copyRecursive(original, cpy reflect.Value) {
 			originalValue := original.MapIndex(key)
 			copyValue := reflect.New(originalValue.Type()).Elem()
 			copyRecursive(originalValue, copyValue)
-			copyKey := deepCopy(key.Interface())
-			cpy.SetMapIndex(reflect.ValueOf(copyKey), copyValue)
+			// Map keys can't contain slices or maps and may be nil interfaces
+			cpy.SetMapIndex(key, copyValue)
 		}
 
 	default:
-- 
2.43.0


From e26059f188711d0944f8ee8166ddad5ea864090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 32/32] fix: don't lose memchan connections dialed while the
 previous one is being closed

---
 transport/memchan/entangleSockets.go |  7 +++++++
 transport/memchan/newSocket.go       |  1 +
 transport/memchan/socket.go          | 11 +++++++++++
 3 files changed, 19 insertions(+)

diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..3e18e30 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -1,5 +1,7 @@
 package memchan
 
+import "sync"
+
 // entangleSockets connects two sockets
 func entangleSockets(server, client *Socket) {
 	if server.status != nil {
@@ -21,4 +23,9 @@ func entangleSockets(server, client *Socket) {
 	status := statusDisconnected
 	server.status = &status
 	client.status = &status
+
+	// Initialize shared lock
+	connLock := &sync.Mutex{}
+	server.connLock = connLock
+	client.connLock = connLock
 }
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index 97cbe6a..ab04ed2 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -55,6 +55,7 @@ func newDisconnectedSocket() *Socket {
 		readTimer:  readTimer,
 		remote:     nil,
 		status:     &status,
+		connLock:   &sync.Mutex{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index adc1ab2..ce19a02 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -43,6 +43,10 @@ type Socket struct {
 	// status represents the connection status
 	status *uint32
 
+	// connLock serializes dialing and closing. It's shared with the remote
+	// socket
+	connLock *sync.Mutex
+
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
 	readTimer *time.Timer
@@ -115,6 +119,10 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
+	// Don't reconnect while the previous connection is still being closed
+	sock.connLock.Lock()
+	defer sock.connLock.Unlock()
+
 	if !atomic.CompareAndSwapUint32(
 		sock.status,
 		statusDisconnected,
@@ -296,6 +304,9 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
+	sock.connLock.Lock()
+	defer sock.connLock.Unlock()
+
 	if !atomic.CompareAndSwapUint32(
 		sock.status,
 		statusConnected,
-- 
2.43.0

