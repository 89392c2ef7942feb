From af3e20cebfcf0cec56ee832236aa574954ccfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 01/21] fix: reject negative and overflowing counts in
 ReadBuffer

ReadBytes panicked on a negative count, the array readers panicked on
negative counts and on counts whose byte size overflows an int.
---
 pkg/pg/read_buffer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..bbef171 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -30,9 +30,9 @@ func (b *ReadBuffer) Len() int {
 }
 
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
-// If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
+// If n is negative or there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
@@ -104,6 +104,11 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// NB: k * 4 could overflow
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,11 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// NB: k * 2 could overflow
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From d932e1ba9f0721e8d639253e18f0560997a2c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 02/21] fix: reject impossible element counts in RowDescription
 and DataRow

A negative count crashed the proxy and a large one in a tiny message
allocated hundreds of kilobytes.
---
 pkg/pg/data_row_message.go        | 5 +++++
 pkg/pg/row_description_message.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..8d131dd 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,11 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	// Each value takes at least 4 bytes (its size), so don't trust bogus counts
+	if valuesCount < 0 || int(valuesCount) > messageData.Len()/4 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..8f83904 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,11 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	// Each field takes at least 19 bytes (an empty name and six integers), so don't trust bogus counts
+	if fieldsCount < 0 || int(fieldsCount) > messageData.Len()/19 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From b2e01cbb4b48b2560ec8dde983cb9410b764e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 03/21] fix: reject impossible option counts in
 NegotiateProtocolVersion

A negative count panicked, a huge one exhausted the memory.
---
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..9e1796e 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Each option takes at least 1 byte (its terminator), so don't trust bogus counts
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
-- 
2.43.0


From 40b7ecd62e2e5b917fccfcfdd47b9c040fd03d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 04/21] fix: parse NegotiateProtocolVersion with its own parser

RecvMessage handed it to the notice parser, which always refused it.
---
 pkg/pg/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..4cae06d 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -38,7 +38,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From d8e9c973489ed46a7b06cd6b7ef2171e7964a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 05/21] fix: refuse frames that announce less than the length
 field itself

They were returned as empty frames (or, wrapped around, as huge ones).
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e014ce 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..c7ac836 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From 7a1b48d1511a894972eb3274f4c7af4c463e9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 06/21] fix: keep the terminator of an empty startup parameter
 list

A startup message with an empty parameter list was re-emitted without
the list's terminator.
---
 pkg/pg/startup_message.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..b49bfbb 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -38,6 +38,8 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 
 	// NB: startup message won't contain any parameters if this is SSL negotiation message
 	if messageData.Len() > 0 {
+		parameters = []*StartupMessageParameter{}
+
 		// Dictionary encoded as tuples of strings + ending \0
 		for {
 			key, err := messageData.ReadString()
@@ -74,17 +76,14 @@ func (m *StartupMessage) Frame() Frame {
 
 	messageBuffer.WriteInt32(m.ProtocolVersion)
 
-	hasParams := false
-
 	// Dictionary is encoded as string key-value pair + ending /0x00
 	for _, param := range m.Parameters {
 		messageBuffer.WriteString(param.Name)
 		messageBuffer.WriteString(param.Value)
-
-		hasParams = true
 	}
 
-	if hasParams {
+	// NB: an empty dictionary still needs its terminator; no dictionary at all (SSL negotiation message) doesn't
+	if m.Parameters != nil {
 		messageBuffer.WriteByte(0)
 	}
 
-- 
2.43.0


From fb1ea950fbba3a0ae5163662217c28feb8f26a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 07/21] fix: relay each direction of a session in its own
 goroutine

A single goroutine passed messages in both directions, so a peer that stopped
reading blocked the messages travelling the other way too.
---
 pkg/server/session.go | 46 +++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..96cf52d 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -293,29 +294,40 @@ func (s *Session) startDBOutPump() error {
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
+// startClientProcessing passes messages received from the client on to the database.
+//
+// Each direction has its own goroutine, so that a peer that doesn't read what is sent to it
+// can only hold up the messages it is supposed to receive.
+func (s *Session) startClientProcessing() error {
+	// FIXME: temporary just proxy everything from the client to the database
 	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+		clientMsg, ok := <-s.clientIn
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+		// Channel is closed — exit
+		if !ok {
+			return nil
+		}
 
-			s.dbOut <- clientMsg
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+		s.dbOut <- clientMsg
+	}
+}
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+// startDBProcessing passes messages received from the database on to the client.
+func (s *Session) startDBProcessing() error {
+	// FIXME: temporary just proxy everything from the database to the client
+	for {
+		dbMsg, ok := <-s.dbIn
 
-			s.clientOut <- dbMsg
+		// Channel is closed — exit
+		if !ok {
+			return nil
 		}
+
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
+
+		s.clientOut <- dbMsg
 	}
 }
 
-- 
2.43.0


From 06332f2b19fb1cae3839184b120bd6d8aacdf9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 08/21] fix: close a database connection that is set up while
 the session is closed

Close read dbConn while Start was setting it, leaked a connection established
meanwhile, and could not interrupt an attempt to connect.
---
 pkg/server/session.go | 46 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 96cf52d..3195dd2 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"net"
@@ -23,6 +24,9 @@ type Session struct {
 	// Connection from a client to the Gevulot
 	clientConn *pg.Conn
 
+	// Guards dbConn
+	connMu sync.Mutex
+
 	// Connection from the Gevulot to the database
 	dbConn *pg.Conn
 
@@ -46,6 +50,10 @@ type Session struct {
 
 	// Fired when session is closed
 	closed *Event
+
+	// Cancelled when session is closed; interrupts connecting to the database
+	ctx    context.Context
+	cancel context.CancelFunc
 }
 
 var (
@@ -55,6 +63,8 @@ var (
 
 // NewSession initializes a new Session.
 func NewSession(client net.Conn, config ConfigStore) *Session {
+	ctx, cancel := context.WithCancel(context.Background())
+
 	return &Session{
 		cfg:        config,
 		clientConn: pg.NewConn(client),
@@ -65,6 +75,8 @@ func NewSession(client net.Conn, config ConfigStore) *Session {
 		dbOut:     make(chan pg.Message, 64),
 
 		closed: NewEvent(),
+		ctx:    ctx,
+		cancel: cancel,
 	}
 }
 
@@ -123,6 +135,12 @@ func (s *Session) Close() (err error) {
 
 	log.Info("session: closing")
 
+	// Stop connecting to the database
+	s.cancel()
+
+	s.connMu.Lock()
+	defer s.connMu.Unlock()
+
 	// Close network connections — this will stop in pumps
 	if s.clientConn != nil {
 		err = s.clientConn.Close()
@@ -209,14 +227,19 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	}
 
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	var dialer net.Dialer
+
+	conn, err := dialer.DialContext(s.ctx, "tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
-	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	err = s.setDBConn(conn)
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -228,6 +251,23 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the database connection. The connection is closed right away if the session is closed already.
+func (s *Session) setDBConn(conn net.Conn) error {
+	s.connMu.Lock()
+	defer s.connMu.Unlock()
+
+	if s.closed.HasFired() {
+		_ = conn.Close()
+
+		return ErrSessionClosed
+	}
+
+	// Convert to pg.NewConn
+	s.dbConn = pg.NewConn(conn)
+
+	return nil
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
 	for {
-- 
2.43.0


From b8b1a837a76b4a519f74538d896ed717136f88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 09/21] fix: end a session when one side hangs up, and close
 its channels safely

Nothing ended a session whose peer had hung up: the remaining pumps waited
forever and the other connection stayed open. Closing a session closed the
channels its goroutines were sending to, which panicked.

Every channel is now closed by its sender once the peer has hung up, so that
what it sent before is delivered; the session closes after that, or after a
grace period if the other side does not take it.
---
 pkg/server/session.go | 156 ++++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 74 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 3195dd2..e7d6b0e 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"time"
 
 	log "github.com/sirupsen/logrus"
 	"golang.org/x/sync/errgroup"
@@ -13,6 +14,9 @@ import (
 	"github.com/hired/gevulot/pkg/pg"
 )
 
+// drainTimeout limits how long messages under way are waited for once one side of a session has failed or hung up.
+const drainTimeout = 5 * time.Second
+
 // Session represents a proxied PostgreSQL database session.
 type Session struct {
 	// Guards dbConnectionParams
@@ -24,7 +28,7 @@ type Session struct {
 	// Connection from a client to the Gevulot
 	clientConn *pg.Conn
 
-	// Guards dbConn
+	// Guards dbConn and drainTimer
 	connMu sync.Mutex
 
 	// Connection from the Gevulot to the database
@@ -40,7 +44,7 @@ type Session struct {
 	// └──────────┘                  └─────────────────┘                  └──────────┘
 
 	//
-	// Set of channels to send/receive PG messages.
+	// Set of channels to send/receive PG messages. Each one is closed by the goroutine that sends to it.
 	//
 
 	clientIn  chan pg.Message // client -> Gevulot
@@ -48,6 +52,9 @@ type Session struct {
 	dbIn      chan pg.Message // DB -> Gevulot
 	dbOut     chan pg.Message // Gevulot -> DB
 
+	// Closes the session if messages under way can't be delivered in time
+	drainTimer *time.Timer
+
 	// Fired when session is closed
 	closed *Event
 
@@ -141,7 +148,11 @@ func (s *Session) Close() (err error) {
 	s.connMu.Lock()
 	defer s.connMu.Unlock()
 
-	// Close network connections — this will stop in pumps
+	if s.drainTimer != nil {
+		s.drainTimer.Stop()
+	}
+
+	// Close network connections — this will stop in and out pumps
 	if s.clientConn != nil {
 		err = s.clientConn.Close()
 
@@ -149,20 +160,26 @@ func (s *Session) Close() (err error) {
 	}
 
 	if s.dbConn != nil {
-		err = s.dbConn.Close()
+		dbErr := s.dbConn.Close()
 
-		log.Debugf("session: db connection is closed; err = %v", err)
+		log.Debugf("session: db connection is closed; err = %v", dbErr)
+
+		if err == nil {
+			err = dbErr
+		}
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
+	return
+}
 
-	log.Debug("session: channels closed")
+// closeLater closes the session unless that happens by itself within drainTimeout.
+func (s *Session) closeLater() {
+	s.connMu.Lock()
+	defer s.connMu.Unlock()
 
-	return
+	if s.drainTimer == nil && !s.closed.HasFired() {
+		s.drainTimer = time.AfterFunc(drainTimeout, func() { _ = s.Close() })
+	}
 }
 
 // negotiateSessionParams establish session parameters with the client, then connects
@@ -270,105 +287,96 @@ func (s *Session) setDBConn(conn net.Conn) error {
 
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
-	for {
-		message, err := s.clientConn.RecvMessage()
-
-		if err != nil {
-			return err
-		}
-
-		s.clientIn <- message
-	}
+	return s.pumpIn(s.clientConn, s.clientIn)
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
 func (s *Session) startClientOutPump() error {
-	for {
-		// Get next message in queue
-		message, ok := <-s.clientOut
-
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
+	return s.pumpOut(s.clientOut, s.clientConn)
+}
 
-		// Send the message over the network
-		err := s.clientConn.SendMessage(message)
+// startDBInPump pumps messages from the database into the dbIn channel.
+func (s *Session) startDBInPump() error {
+	return s.pumpIn(s.dbConn, s.dbIn)
+}
 
-		if err != nil {
-			return err
-		}
-	}
+// startDBOutPump pumps messages from the dbOut channel to the database.
+func (s *Session) startDBOutPump() error {
+	return s.pumpOut(s.dbOut, s.dbConn)
 }
 
-// startClientOutPump pumps messages from the database into the dbIn channel.
-func (s *Session) startDBInPump() error {
+// pumpIn pumps messages from the connection into the channel.
+func (s *Session) pumpIn(conn *pg.Conn, in chan<- pg.Message) error {
+	// There will be no more messages
+	defer close(in)
+
 	for {
-		message, err := s.dbConn.RecvMessage()
+		message, err := conn.RecvMessage()
 
 		if err != nil {
+			// Peer hung up: what it has sent before is still to be delivered
+			s.closeLater()
+
 			return err
 		}
 
-		s.dbIn <- message
+		select {
+		case in <- message:
+		case <-s.closed.Done():
+			return ErrSessionClosed
+		}
 	}
 }
 
-// startDBOutPump pumps messages from the dbOut channel to the database.
-func (s *Session) startDBOutPump() error {
-	for {
-		// Get next message in queue
-		message, ok := <-s.dbOut
-
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
-
+// pumpOut pumps messages from the channel to the connection.
+func (s *Session) pumpOut(out <-chan pg.Message, conn *pg.Conn) error {
+	for message := range out {
 		// Send the message over the network
-		err := s.dbConn.SendMessage(message)
+		err := conn.SendMessage(message)
 
 		if err != nil {
+			// Peer takes no more messages, but what it has sent before is still to be delivered
+			s.closeLater()
+
 			return err
 		}
 	}
+
+	// The other peer hung up and all its messages are delivered: the session is over
+	return s.Close()
 }
 
 // startClientProcessing passes messages received from the client on to the database.
-//
-// Each direction has its own goroutine, so that a peer that doesn't read what is sent to it
-// can only hold up the messages it is supposed to receive.
 func (s *Session) startClientProcessing() error {
 	// FIXME: temporary just proxy everything from the client to the database
-	for {
-		clientMsg, ok := <-s.clientIn
-
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
-
-		log.Infof("-> %s", clientMsg.Frame().Bytes())
-
-		s.dbOut <- clientMsg
-	}
+	return s.process("->", s.clientIn, s.dbOut)
 }
 
 // startDBProcessing passes messages received from the database on to the client.
 func (s *Session) startDBProcessing() error {
 	// FIXME: temporary just proxy everything from the database to the client
-	for {
-		dbMsg, ok := <-s.dbIn
+	return s.process("<-", s.dbIn, s.clientOut)
+}
 
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
+// process dispatches messages of one direction.
+//
+// Each direction has its own goroutine, so that a peer that doesn't read what is sent to it
+// can only hold up the messages it is supposed to receive.
+func (s *Session) process(direction string, in <-chan pg.Message, out chan<- pg.Message) error {
+	// There will be no more messages
+	defer close(out)
 
-		log.Infof("<- %s", dbMsg.Frame().Bytes())
+	for message := range in {
+		log.Infof("%s %s", direction, message.Frame().Bytes())
 
-		s.clientOut <- dbMsg
+		select {
+		case out <- message:
+		case <-s.closed.Done():
+			return ErrSessionClosed
+		}
 	}
+
+	return nil
 }
 
 // getDBConnnectionParam returns connection parameter with given name from the config.
-- 
2.43.0


From 59cefe41c8b5843502364a96133c4e555180f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 10/21] fix: check the database parameter PostgreSQL uses when
 it is given more than once

---
 pkg/pg/startup_message.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index b49bfbb..1bf3c4b 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -91,12 +91,15 @@ func (m *StartupMessage) Frame() Frame {
 }
 
 // GetParameter returns parameter value by its name. If parameter is not set it returns an empty string.
+// If parameter is set more than once it returns the last value, which is the one PostgreSQL uses.
 func (m *StartupMessage) GetParameter(name string) string {
+	value := ""
+
 	for _, param := range m.Parameters {
 		if param.Name == name {
-			return param.Value
+			value = param.Value
 		}
 	}
 
-	return ""
+	return value
 }
-- 
2.43.0


From 73f0545b191d4822a8ab65c59358e99283178c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 11/21] fix: a client repeating SSL requests made the session's
 stack grow without bound

---
 pkg/server/session.go | 46 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index e7d6b0e..0243168 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -185,29 +185,12 @@ func (s *Session) closeLater() {
 // negotiateSessionParams establish session parameters with the client, then connects
 // to the specified in config DB on behalf of the client.
 func (s *Session) negotiateSessionParams() error {
-	log.Debug("session: waiting for the client startup message")
-
-	// Receiving initial startup message from the client. It contains username, database name etc.
-	startupMessage, err := s.clientConn.RecvStartupMessage()
+	startupMessage, err := s.recvStartupMessage()
 
 	if err != nil {
 		return err
 	}
 
-	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
-		log.Info("session: client requested SSL; denying")
-
-		err = s.clientConn.SendByte('N')
-
-		if err != nil {
-			return err
-		}
-
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
-	}
-
 	// Check the protocol version just in case
 	if startupMessage.ProtocolVersion != pg.DefaultProtocolVersion {
 		return fmt.Errorf("session: unsupported PG protocol version %v", startupMessage.ProtocolVersion)
@@ -228,6 +211,33 @@ func (s *Session) negotiateSessionParams() error {
 	return s.establishDBConnection(startupMessage)
 }
 
+// recvStartupMessage receives initial startup message from the client, denying every SSL request that precedes it.
+func (s *Session) recvStartupMessage() (*pg.StartupMessage, error) {
+	for {
+		log.Debug("session: waiting for the client startup message")
+
+		// Receiving initial startup message from the client. It contains username, database name etc.
+		startupMessage, err := s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return nil, err
+		}
+
+		// Check if startup message is a SSL request
+		if startupMessage.ProtocolVersion != pg.SSLRequestMagic {
+			return startupMessage, nil
+		}
+
+		log.Info("session: client requested SSL; denying")
+
+		err = s.clientConn.SendByte('N')
+
+		if err != nil {
+			return nil, err
+		}
+	}
+}
+
 // establishDBConnection connects to the database using connection parameters from the config.
 func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	// Get database connection params from the config
-- 
2.43.0


From 639018bd8a3aa204c10ff6326ad823ee77bc5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 12/21] fix: client messages were parsed as the backend
 messages of the same type

---
 pkg/pg/conn.go        | 24 ++++++++++++++++++++++++
 pkg/server/session.go | 10 +++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 4cae06d..2567a06 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -81,6 +81,30 @@ func (h *Conn) RecvMessage() (Message, error) {
 	}
 }
 
+// RecvFrontendMessage receives PostgreSQL message sent by a client from the underlying network connection.
+//
+// Clients use many of the message types that backends do, but for messages of their own. Those are
+// returned as GenericMessage, and so are password messages because the same type is used for
+// SASL and GSSAPI responses with arbitrary content.
+func (h *Conn) RecvFrontendMessage() (Message, error) {
+	frame, err := ReadStandardFrame(h.conn)
+
+	if err != nil {
+		return nil, err
+	}
+
+	switch frame.MessageType() {
+	case QueryMessageType:
+		return ParseQueryMessage(frame)
+
+	case TerminateMessageType:
+		return ParseTerminateMessage(frame)
+
+	default:
+		return ParseGenericMessage(frame)
+	}
+}
+
 // SendMessage sends given message over the network.
 func (h *Conn) SendMessage(msg Message) error {
 	_, err := h.conn.Write(msg.Frame().Bytes())
diff --git a/pkg/server/session.go b/pkg/server/session.go
index 0243168..893445f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -297,7 +297,7 @@ func (s *Session) setDBConn(conn net.Conn) error {
 
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
-	return s.pumpIn(s.clientConn, s.clientIn)
+	return s.pumpIn(s.clientConn.RecvFrontendMessage, s.clientIn)
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
@@ -307,7 +307,7 @@ func (s *Session) startClientOutPump() error {
 
 // startDBInPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
-	return s.pumpIn(s.dbConn, s.dbIn)
+	return s.pumpIn(s.dbConn.RecvMessage, s.dbIn)
 }
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
@@ -315,13 +315,13 @@ func (s *Session) startDBOutPump() error {
 	return s.pumpOut(s.dbOut, s.dbConn)
 }
 
-// pumpIn pumps messages from the connection into the channel.
-func (s *Session) pumpIn(conn *pg.Conn, in chan<- pg.Message) error {
+// pumpIn pumps messages that recv returns into the channel.
+func (s *Session) pumpIn(recv func() (pg.Message, error), in chan<- pg.Message) error {
 	// There will be no more messages
 	defer close(in)
 
 	for {
-		message, err := conn.RecvMessage()
+		message, err := recv()
 
 		if err != nil {
 			// Peer hung up: what it has sent before is still to be delivered
-- 
2.43.0


From e25ade47a000569553cdbde64a6116793a8ed679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 13/21] fix: closing the server left connections and listeners
 open that were being set up

---
 pkg/server/server.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..18190c6 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -166,7 +166,12 @@ func (srv *Server) Serve(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
+			// Nobody else is going to close it
+			_ = conn.Close()
+
+			return ErrServerClosed
+		}
 	}
 }
 
@@ -174,9 +179,13 @@ func (srv *Server) Serve(ln net.Listener) error {
 //
 // ServeConn blocks, serving the connection until the client or the database hangs up.
 // The caller typically invokes ServeConn in a go statement.
+//
+// The connection is closed when ServeConn returns.
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		_ = conn.Close()
+
 		return ErrServerClosed
 	}
 
@@ -192,6 +201,8 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		_ = session.Close()
+
 		return err
 	}
 
@@ -264,14 +275,17 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
+		// Nobody else is going to close it
+		_ = ln.Close()
+
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -288,26 +302,36 @@ func (srv *Server) changeListener(ln net.Listener) error {
 }
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
-// before the server is shutdown.
-func (srv *Server) do(f func()) {
+// before the server is shutdown. It returns false if server is closed already.
+func (srv *Server) do(f func()) bool {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Refuse to create a goroutine that Close() is not going to wait for
+	if srv.shutdown.HasFired() {
+		return false
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return true
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From e0e923f03dcf7a6d78b7f02b582528ffb5ea08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 14/21] fix: apply listen address changes in order and
 unsubscribe from them when Start returns

---
 pkg/server/server.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 18190c6..8c742f1 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,6 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
@@ -94,6 +93,9 @@ func (srv *Server) Start() error {
 		return err
 	}
 
+	// NB: the channel is never closed because the config provider can still be sending to it until we unsubscribe
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
@@ -111,8 +113,15 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// Set the new listener here to preserve the order of config changes
+			if err = srv.changeListener(ln); err != nil {
+				return err
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			if !srv.do(func() { _ = srv.acceptConns(ln) }) {
+				return ErrServerClosed
+			}
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -135,6 +144,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted from the listener that has been set already.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 0cb86fed0593d7f59c064c845ab05d9f4e3f7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 15/21] fix: reading, subscribing, unsubscribing and closing
 could deadlock the configuration distributor

---
 pkg/server/config_distributor.go | 230 +++++++++++++++++++++++--------
 1 file changed, 173 insertions(+), 57 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..ab66818 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -33,6 +33,9 @@ type ConfigDistributor struct {
 	// Fired after config monitoring goroutine is started
 	started *Event
 
+	// Fired after the first Config is received
+	ready *Event
+
 	// Fired after Close is called
 	closed *Event
 
@@ -43,7 +46,32 @@ type ConfigDistributor struct {
 	lastConfig *Config
 
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription is a subscription to Config updates. Every subscription has a goroutine that sends to the
+// subscribed channel, so that a slow subscriber holds up neither the distributor nor other subscribers.
+type configSubscription struct {
+	// Subscribed channel
+	ch chan<- *Config
+
+	// Checks that select updates (guarded by ConfigDistributor's mutex)
+	checks []ConfigChangedCheckFn
+
+	// Updates that are not sent yet (guarded by ConfigDistributor's mutex)
+	queue []*Config
+
+	// Set when there will be no more updates (guarded by ConfigDistributor's mutex)
+	completed bool
+
+	// Signalled when queue or completed are changed
+	changed chan struct{}
+
+	// Fired when subscription is cancelled
+	cancelled *Event
+
+	// Fired when nothing will be sent to the channel anymore
+	done *Event
 }
 
 var (
@@ -58,6 +86,7 @@ func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 	return &ConfigDistributor{
 		source:  configChan,
 		started: NewEvent(),
+		ready:   NewEvent(),
 		closed:  NewEvent(),
 	}
 }
@@ -69,103 +98,175 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 		return nil, ErrConfigDistributorClosed
 	}
 
-	// Take lastConfig snapshot
-	var lastConfigSnapshot *Config
+	// Start monitoring goroutine
+	p.start()
 
-	p.mu.RLock()
-	{
-		lastConfigSnapshot = p.lastConfig
+	// Wait for the initial config or Close
+	select {
+	case <-p.ready.Done():
+	case <-p.closed.Done():
+		return nil, ErrConfigDistributorClosed
 	}
-	p.mu.RUnlock()
 
-	// Shortcut: return cached config
-	if lastConfigSnapshot != nil {
-		return lastConfigSnapshot, nil
-	}
+	p.mu.RLock()
+	defer p.mu.RUnlock()
 
-	// Wait for the next config update from the source
-	return p.waitForNextConfig()
+	return p.lastConfig, nil
 }
 
 // Subscribe subscribes given channel to configuration updates.
 // If checks are specified, new config will be sent to the channel only if one of them returns true.
 func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	// Check that distributor is still active
 	if p.closed.HasFired() {
 		return ErrConfigDistributorClosed
 	}
 
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	subscription := p.subscriptions[ch]
 
-	// Send current config immediately even before we registered a new subscription
-	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
-	}
+	if subscription == nil {
+		// Register subscription
+		subscription = &configSubscription{
+			ch:        ch,
+			changed:   make(chan struct{}, 1),
+			cancelled: NewEvent(),
+			done:      NewEvent(),
+		}
+
+		if p.subscriptions == nil {
+			p.subscriptions = make(map[chan<- *Config]*configSubscription)
+		}
 
-	// Register subscription
-	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+		p.subscriptions[ch] = subscription
+
+		go p.sendUpdates(subscription)
 	}
 
-	p.subscriptions[ch] = checks
+	subscription.checks = checks
 
-	// Start monitoring goroutine
-	if p.started.Fire() {
-		go p.monitorConfig()
+	// Send current config immediately
+	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
+		subscription.sendLocked(p.lastConfig)
 	}
 
+	// Start monitoring goroutine
+	p.start()
+
 	return nil
 }
 
-// Unsubscribe cancels subscription for the given channel.
+// Unsubscribe cancels subscription for the given channel. Nothing is sent to the channel after Unsubscribe returned.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.mu.RLock()
+	subscription := p.subscriptions[ch]
+	p.mu.RUnlock()
 
-	p.unsubscribeLocked(ch)
+	if subscription != nil {
+		p.unsubscribe(subscription)
+	}
 }
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
+// Nothing is sent to subscribed channels after Close returned.
 func (p *ConfigDistributor) Close() {
-	if !p.closed.Fire() {
-		return
+	p.closed.Fire()
+
+	for _, subscription := range p.activeSubscriptions() {
+		p.unsubscribe(subscription)
+	}
+}
+
+// start starts the monitoring goroutine.
+func (p *ConfigDistributor) start() {
+	if p.started.Fire() {
+		go p.monitorConfig()
 	}
+}
+
+// activeSubscriptions returns all subscriptions.
+func (p *ConfigDistributor) activeSubscriptions() []*configSubscription {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+
+	var subscriptions []*configSubscription
+
+	for _, subscription := range p.subscriptions {
+		subscriptions = append(subscriptions, subscription)
+	}
+
+	return subscriptions
+}
+
+// unsubscribe cancels the subscription and waits until nothing will be sent to the subscribed channel.
+func (p *ConfigDistributor) unsubscribe(subscription *configSubscription) {
+	subscription.cancelled.Fire()
+
+	<-subscription.done.Done()
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	for ch := range p.subscriptions {
-		p.unsubscribeLocked(ch)
+	if p.subscriptions[subscription.ch] == subscription {
+		delete(p.subscriptions, subscription.ch)
 	}
 }
 
-// unsubscribeLocked unsubscribes the channel without locking the mutex.
-func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
-	delete(p.subscriptions, ch)
-}
+// sendUpdates sends Config updates to the subscribed channel until subscription is cancelled or there are no more updates.
+func (p *ConfigDistributor) sendUpdates(subscription *configSubscription) {
+	defer subscription.done.Fire()
+
+	for {
+		config, completed := p.nextUpdate(subscription)
+
+		switch {
+		case config != nil:
+			select {
+			case subscription.ch <- config:
+			case <-subscription.cancelled.Done():
+				return
+			}
+
+		case completed:
+			return
 
-// waitForNextConfig waits for the next received Config update from the source and then returns it.
-func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
-	defer close(nextConfigChan)
+		default:
+			select {
+			case <-subscription.changed:
+			case <-subscription.cancelled.Done():
+				return
+			}
+		}
+	}
+}
 
-	// Subscribe to ourselves for the duration of this method
-	err := p.Subscribe(nextConfigChan)
+// nextUpdate takes the next update off the subscription's queue. It returns nil if there is none,
+// and whether there will be more.
+func (p *ConfigDistributor) nextUpdate(subscription *configSubscription) (config *Config, completed bool) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 
-	if err != nil {
-		return nil, err
+	if len(subscription.queue) > 0 {
+		config = subscription.queue[0]
+		subscription.queue = subscription.queue[1:]
 	}
 
-	defer p.Unsubscribe(nextConfigChan)
+	return config, subscription.completed
+}
 
-	// Wait for the config or Cancel signal
-	select {
-	case config := <-nextConfigChan:
-		return config, nil
+// sendLocked queues the update without locking the mutex.
+func (s *configSubscription) sendLocked(config *Config) {
+	s.queue = append(s.queue, config)
+	s.wakeUp()
+}
 
-	case <-p.closed.Done():
-		return nil, ErrConfigDistributorClosed
+// wakeUp signals the goroutine of the subscription.
+func (s *configSubscription) wakeUp() {
+	select {
+	case s.changed <- struct{}{}:
+	default:
 	}
 }
 
@@ -181,7 +282,7 @@ func (p *ConfigDistributor) monitorConfig() {
 		case newConfig, ok := <-p.source:
 			if !ok {
 				log.Debug("config_distributor: source channel is closed, closing the distributor")
-				p.Close()
+				p.complete()
 
 				return
 			}
@@ -196,6 +297,8 @@ func (p *ConfigDistributor) monitorConfig() {
 			}
 			p.mu.Unlock()
 
+			p.ready.Fire()
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
@@ -203,11 +306,24 @@ func (p *ConfigDistributor) monitorConfig() {
 	}
 }
 
+// complete closes the distributor, but lets subscribers receive updates that are not sent yet.
+func (p *ConfigDistributor) complete() {
+	p.closed.Fire()
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	for _, subscription := range p.subscriptions {
+		subscription.completed = true
+		subscription.wakeUp()
+	}
+}
+
 // notifySubscribersLocked notifies subscribers about config changes.
 func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+	for _, subscription := range p.subscriptions {
+		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
+			subscription.sendLocked(newConfig)
 		}
 	}
 }
-- 
2.43.0


From 56ed29e10635352ef9975423db8ba2511955ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:28 +0000
Subject: [PATCH 16/21] fix: closing a session that waits for the first
 configuration didn't end it

---
 pkg/server/session.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 893445f..54133dc 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -396,8 +396,8 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
-		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		// getConfig() will block until we have a config
+		config, err := s.getConfig()
 
 		if err != nil {
 			return "", err
@@ -413,3 +413,26 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	return s.dbConnectionParams[name], nil
 }
+
+// getConfig returns current configuration. It blocks until there is one or session is closed.
+func (s *Session) getConfig() (*Config, error) {
+	type result struct {
+		config *Config
+		err    error
+	}
+
+	resultChan := make(chan result, 1)
+
+	go func() {
+		config, err := s.cfg.Get()
+		resultChan <- result{config, err}
+	}()
+
+	select {
+	case r := <-resultChan:
+		return r.config, r.err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
-- 
2.43.0


From f5253113d3a4f3c653fbf24380aaae91f18ad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 17/21] fix: refuse database URIs with a malformed query;
 default the database to the user actually used

---
 pkg/pg/dsn.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..5bfa7af 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -2,7 +2,7 @@ package pg
 
 import (
 	"fmt"
-	"net/url"
+	neturl "net/url"
 	"os/user"
 	"strings"
 )
@@ -13,7 +13,7 @@ type ConnectionParams map[string]string
 // ParseDatabaseURL parses given PostgreSQL connection string in URI format and returns connection params as a map.
 // See the documentation: https://www.postgresql.org/docs/current/libpq-connect.html#LIBPQ-CONNSTRING
 func ParseDatabaseURI(connString string) (ConnectionParams, error) {
-	url, err := url.Parse(connString)
+	url, err := neturl.Parse(connString)
 
 	if err != nil {
 		return nil, err
@@ -28,7 +28,9 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
 		if password, present := url.User.Password(); present {
 			settings["password"] = password
@@ -48,15 +50,23 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	// Database name
 	if database := strings.TrimLeft(url.Path, "/"); database != "" {
 		settings["database"] = database
-	} else {
-		// Default is the same as database user
-		settings["database"] = settings["user"]
 	}
 
-	for k, v := range url.Query() {
+	query, err := neturl.ParseQuery(url.RawQuery)
+
+	if err != nil {
+		return nil, err
+	}
+
+	for k, v := range query {
 		settings[k] = v[0]
 	}
 
+	// Default is the same as database user, which can be a query parameter
+	if _, present := settings["database"]; !present {
+		settings["database"] = settings["user"]
+	}
+
 	return settings, nil
 }
 
@@ -67,10 +77,9 @@ func defaultConnectionSettings() ConnectionParams {
 		"port": "5432",
 	}
 
-	// Use local OS username as both default DB user and DB name
+	// Use local OS username as default DB user
 	if user, err := user.Current(); err == nil {
 		settings["user"] = user.Username
-		settings["database"] = user.Username
 	}
 
 	return settings
-- 
2.43.0


From 9fded8ad6dca295e5ad81ef176dae548291eedd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 18/21] fix: don't return an incomplete OID mapping when
 reading its rows fails

---
 pkg/pgmeta/inspector.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..f5e9c7d 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,14 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Next also returns false when the rest of the rows could not be read; an incomplete mapping is
+	// not the mapping of the database.
+	err = rows.Err()
+
+	if err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 6acd498159bb9540aacf2cb04565847d7835ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 19/21] fix: don't ignore a write that fsnotify reports
 together with other operations

---
 pkg/cli/file_watcher.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..8832fc3 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -75,22 +75,17 @@ func (w *fileWatcher) Watch() error {
 						return
 					}
 
-					// Run the callback
-					switch {
-					case event.Op&fsnotify.Create != 0:
-						if w.OnCreate != nil {
-							w.OnCreate()
-						}
-
-					case event.Op&fsnotify.Write != 0:
-						if w.OnWrite != nil {
-							w.OnWrite()
-						}
-
-					case event.Op&fsnotify.Remove != 0:
-						if w.OnRemove != nil {
-							w.OnRemove()
-						}
+					// Run the callbacks (one event can carry several operations)
+					if event.Op&fsnotify.Create != 0 && w.OnCreate != nil {
+						w.OnCreate()
+					}
+
+					if event.Op&fsnotify.Write != 0 && w.OnWrite != nil {
+						w.OnWrite()
+					}
+
+					if event.Op&fsnotify.Remove != 0 && w.OnRemove != nil {
+						w.OnRemove()
 					}
 
 				// fsnotify watcher error
-- 
2.43.0


From e30ea130037306a61233eb79d9ed7f98ac2525a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 20/21] fix: keep watching the config file after a watcher
 error, without racing with Watch's return

---
 pkg/cli/file_watcher.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 8832fc3..5850de2 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -34,7 +34,7 @@ func newFileWatcher(path string) *fileWatcher {
 // nolint:gocognit
 func (w *fileWatcher) Watch() error {
 	// We have 2 nested goroutines in this function.
-	// We use watcherError variable to pull any errors from them into the calling gorouting.
+	// We use watcherError variable to pull any initialization error into the calling gorouting.
 	var watcherError error = nil
 
 	// Initialization sync group. We have to wait until the watcher starts the watching to
@@ -90,12 +90,14 @@ func (w *fileWatcher) Watch() error {
 
 				// fsnotify watcher error
 				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
+					// 'Errors' channel is closed
+					if !ok {
+						return
 					}
 
-					return
+					// We are not in the context of calling goroutine anymore so we cannot just return error
+					// and have to print the error by ourselves. The watcher itself keeps working.
+					log.Errorf("file watcher error: %v\n", err)
 
 				// StopWatch has been called
 				case <-w.watchDone:
@@ -105,19 +107,19 @@ func (w *fileWatcher) Watch() error {
 		}()
 
 		// Start the watcher
-		watcherError = watcher.Add(w.Path)
+		err = watcher.Add(w.Path)
+
+		if err != nil {
+			watcherError = err
+			initWG.Done()
+			return
+		}
 
 		// Exit from Watch
 		initWG.Done()
 
 		// Event loop
 		eventsWG.Wait()
-
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
 	}()
 
 	// Wait for watcher to initialize
-- 
2.43.0


From f8a13e651b3fe3dc18e43ba1ca238943a9c152f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:18 +0000
Subject: [PATCH 21/21] fix: list tables of schemas whose names only start with
 pg

In a LIKE pattern an underscore stands for any character, so the filter on system schemas also hid
the tables of schemas such as pgq or pglogical, and the mapping of the database was incomplete.
---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index f5e9c7d..200b8b1 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,7 +60,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
+         AND n.nspname NOT LIKE 'pg\_%'
 		 AND c.relkind IN ('r', 'm', 'v');`,
 	)
 
-- 
2.43.0

