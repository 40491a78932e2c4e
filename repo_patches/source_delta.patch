From d7cf12989e2e3fc733be973efda58c182228b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 01/17] fix: report a failed or ended read instead of taking it
 for an ACK

ScanTimeout ignored a scanner that stopped without finding a delimiter, so
a set request reported success when the connection ended or failed.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..6a5b627 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,10 +35,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	found, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// The input ended or failed before a delimiter appeared
+	if !found {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From d01e76a4717b73c1a9843d78e72872b95318c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 02/17] fix: tell ACK, start and end sequences apart when
 reading a packet

Any of the three was accepted in place of another, so for example the echo
of a request or a response without ACK passed as an acknowledgement.
---
 libcomfo/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 6a5b627..8168e02 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// The delimiter that ended the last token.
+	var delim byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -71,6 +74,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case ack, start, end:
+						delim = char
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -89,8 +93,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes before ACK
-	if len(pr) != 0 {
+	// Found bytes before ACK, or another sequence
+	if len(pr) != 0 || delim != ack {
 		return out, errScanInput
 	}
 
@@ -105,8 +109,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes between ACK and packet start
-	if len(pr) != 0 {
+	// Found bytes between ACK and packet start, or another sequence
+	if len(pr) != 0 || delim != start {
 		return out, errScanInput
 	}
 
@@ -116,6 +120,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
+	// Packet not closed by an end sequence
+	if delim != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
 	if len(pr) > 0 && len(pr) < 4 {
 		return out, errTooShort
-- 
2.43.0


From d84532b23195cb8bb2aadadda76d237861c86421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 03/17] fix: do not take bytes of a packet for its end

A response was cut off where its length, payload or checksum happened to
form a control sequence together with its neighbours, for example a length
of 7 followed by 0x0F, or an escaped 7 followed by 0x0F.
---
 libcomfo/conn.go  | 14 +++++++++++++-
 libcomfo/proto.go | 21 +++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 8168e02..6a78996 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -66,7 +66,19 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		for i := 0; i < len(data); i++ {
+		i := 0
+
+		// Bytes of a packet can look like a sequence, skip to where it ends.
+		if delim == start {
+			if i = packetLen(data); i > len(data) {
+				if !atEOF {
+					return
+				}
+				i = 0
+			}
+		}
+
+		for ; i < len(data); i++ {
 			// Look for escape characters
 			if data[i] == esc {
 				// Look for the given byte following the escape character within bounds
diff --git a/libcomfo/proto.go b/libcomfo/proto.go
index b29f057..084b43b 100644
--- a/libcomfo/proto.go
+++ b/libcomfo/proto.go
@@ -104,6 +104,27 @@ func UnmarshalPacket(in []byte) (out Packet, err error) {
 	return out, nil
 }
 
+// packetLen returns the wire length of the packet at the beginning of the input,
+// according to its length field. It exceeds the length of the input as long as
+// the packet is incomplete.
+func packetLen(in []byte) int {
+	if len(in) < dataOffset {
+		return len(in) + 1
+	}
+
+	i := dataOffset
+	for n := int(in[lenOffset]); n > 0 && i < len(in); i++ {
+		// The first half of an escaped 0x07 does not count towards the length.
+		if in[i] == esc && i+1 < len(in) && in[i+1] == esc {
+			i++
+		}
+		n--
+	}
+
+	// Account for the checksum.
+	return i + 1
+}
+
 // escapeData escapes 0x07 characters with 0x07 in a payload.
 func escapeData(in []byte) []byte {
 
-- 
2.43.0


From 904eecff28af3537c0e931881e4b15f0a1da9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 04/17] fix: recover from queries that failed

A read left behind by a query that timed out stole the response to a later
one, and input left behind by a failed query was taken for the response to
the next, which then left its own behind, and so on. Give the reads of a
query a deadline and discard what was received before a query. Serial ports
have no deadlines, so receive from them through a pipe.
---
 comfo.go         | 33 ++++++++++++++++++++++++++++++++-
 libcomfo/conn.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..0cbe569 100644
--- a/comfo.go
+++ b/comfo.go
@@ -74,6 +74,36 @@ func main() {
 	}
 }
 
+// serialConn is a serial port with the read deadlines of a net.Conn.
+type serialConn struct {
+	net.Conn
+	port io.ReadWriteCloser
+}
+
+// newSerialConn wraps a serial port and starts receiving from it.
+func newSerialConn(port io.ReadWriteCloser) *serialConn {
+	local, remote := net.Pipe()
+
+	go func() {
+		_, err := io.Copy(remote, port)
+		slog.Error("Serial device closed", "error", err)
+		remote.Close()
+	}()
+
+	return &serialConn{Conn: local, port: port}
+}
+
+// Write writes to the serial port.
+func (c *serialConn) Write(p []byte) (int, error) {
+	return c.port.Write(p)
+}
+
+// Close closes the serial port.
+func (c *serialConn) Close() error {
+	c.Conn.Close()
+	return c.port.Close()
+}
+
 // ConnectUnit sets up a connection to the unit over TCP or Serial.
 func ConnectUnit(mode string, unit string) (conn io.ReadWriteCloser, err error) {
 	switch mode {
@@ -92,10 +122,11 @@ func ConnectUnit(mode string, unit string) (conn io.ReadWriteCloser, err error)
 		// Establish serial connection
 		slog.Info("Opening serial device", "device", unit)
 
-		conn, err = serial.OpenPort(&serial.Config{Name: unit, Baud: 9600})
+		port, err := serial.OpenPort(&serial.Config{Name: unit, Baud: 9600})
 		if err != nil {
 			return nil, fmt.Errorf("unable to open serial device at %s: %w", unit, err)
 		}
+		conn = newSerialConn(port)
 
 		slog.Info("Opened device", "device", unit)
 
diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 6a78996..0747b1b 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -2,7 +2,9 @@ package libcomfo
 
 import (
 	"bufio"
+	"errors"
 	"io"
+	"os"
 	"sync"
 	"time"
 )
@@ -29,7 +31,8 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	// Buffered, so the goroutine can end when the result is not awaited.
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
@@ -42,7 +45,9 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 
 	// The input ended or failed before a delimiter appeared
 	if !found {
-		if err := scanner.Err(); err != nil {
+		if err := scanner.Err(); errors.Is(err, os.ErrDeadlineExceeded) {
+			return out, errTimeout
+		} else if err != nil {
 			return out, err
 		}
 		return out, io.ErrUnexpectedEOF
@@ -193,6 +198,22 @@ func WriteAck(conn io.Writer) (out bool, err error) {
 	return
 }
 
+// deadlineConn is a connection whose reads can be made to time out.
+type deadlineConn interface {
+	io.Reader
+	SetReadDeadline(t time.Time) error
+}
+
+// discardInput drops everything received so far, like noise or the response
+// to an earlier query that timed out.
+func discardInput(conn deadlineConn) {
+	if err := conn.SetReadDeadline(time.Now().Add(time.Millisecond * 10)); err != nil {
+		return
+	}
+
+	_, _ = io.Copy(io.Discard, conn)
+}
+
 // QueryPacket locks the package-wide mutex, writes the given packet to
 // the connection, starts the timeout timer, reads the response back from
 // the connection, validates the response sequence (command) number and sends
@@ -203,13 +224,29 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	pm.Lock()
 	defer pm.Unlock()
 
+	timeout := time.Second
+
+	// Connections that support it have their reads end with the query. A read
+	// that is left behind would steal the response to the next query.
+	dc, deadline := conn.(deadlineConn)
+	if deadline {
+		discardInput(dc)
+		defer func() { _ = dc.SetReadDeadline(time.Time{}) }()
+		timeout += time.Millisecond * 100
+	}
+
 	// Write the Packet to the connection
 	if _, err := WritePacket(in, conn); err != nil {
 		return out, err
 	}
 
 	// Start a query-scoped timeout
-	timer := time.NewTimer(time.Second)
+	timer := time.NewTimer(timeout)
+	defer timer.Stop()
+
+	if deadline {
+		_ = dc.SetReadDeadline(time.Now().Add(time.Second))
+	}
 
 	// Read packet from the remote
 	out, err = ReadPacket(conn, timer, in.Expect)
-- 
2.43.0


From a6ae0d69f90379e772afe60c29dec2a734221c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 05/17] fix: keep SetFanProfiles out of SetFanProfile's
 read-modify-write

A bulk change between the read and the write of SetFanProfile was undone.
---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..3eb45af 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Stay out of r/w transactions
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From d1bf1a7b4538ffe4e2aefd755b19005fa5cac745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 06/17] fix: refuse fan speeds that do not fit in 16 bits

Readings below 29 were truncated to an arbitrary speed.
---
 libcomfo/response_types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index 5734a01..ea67d8b 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -2,6 +2,7 @@ package libcomfo
 
 import (
 	"encoding/binary"
+	"math"
 	"strings"
 )
 
@@ -175,6 +176,11 @@ func (v *Fans) UnmarshalBinary(in []byte) error {
 		return errZeroValue
 	}
 
+	// Speeds out of the range of the fields would be truncated
+	if 1875000/uint32(inSpeed) > math.MaxUint16 || 1875000/uint32(outSpeed) > math.MaxUint16 {
+		return errTooHigh
+	}
+
 	v.InPercent = uint8(in[0])
 	v.OutPercent = uint8(in[1])
 
-- 
2.43.0


From 813ff3c57ef9259d1a306d4e70d7ff13dd838e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 07/17] fix: release the profiles cache when polling for an
 unknown speed

UpdatePoll kept the read lock, after which every user of the cache hung.
---
 comfoserver/caches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6fb3e7b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -220,10 +220,10 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
-- 
2.43.0


From ffc78e335c037fa358c7c14c1c0fb2fde137c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 08/17] fix: read the caches under their locks in the set
 methods

The set methods and UpdatePoll read cache fields while the cache worker may
be writing them, and SetComfortTemp picked its original temperature before
taking its turn.
---
 comfoserver/caches.go |  4 ++--
 comfoserver/server.go | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6fb3e7b..85a99d3 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -231,8 +231,8 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 		fanCache.Update(true)
 
 		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		if fans := fanCache.Protobuf(); fans.InPercent == uint32(inPct) &&
+			fans.OutPercent == uint32(outPct) {
 			return nil
 		}
 
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..2e397ef 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -80,11 +79,13 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
+	origTemp := tempCache.Protobuf().Comfort
+
+	if origTemp != float32(targetTemp) {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
@@ -120,7 +121,7 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
-	origSpeed := fanProfilesCache.CurrentMode
+	origSpeed := uint8(fanProfilesCache.Protobuf().CurrentMode)
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -193,16 +194,18 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	profiles := fanProfilesCache.Protobuf()
+
 	// Get original fan speed of selected mode into origSpeed
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = uint8(profiles.InAway)
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = uint8(profiles.InLow)
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = uint8(profiles.InMid)
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = uint8(profiles.InHigh)
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From ef32f620c1437536f01756ff0b71915bfa90eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 09/17] fix: refuse fan speed and profile arguments over 8 bits

They were truncated, so for example an absolute speed of 257 set speed 1.
---
 comfoserver/helpers.go | 4 ++++
 comfoserver/server.go  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..f149785 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -24,6 +24,10 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 
 	// Determine Abs/Rel speed and target speed
 	if target.Abs != 0 {
+		// Larger values would be truncated
+		if target.Abs > uint32(upperBound) {
+			return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+		}
 		tgtSpeed = uint8(target.Abs)
 	} else if target.Rel {
 		tgtSpeed = baseSpeed + 1
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 2e397ef..fe25349 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -168,6 +168,11 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	mode := uint8(fpt.GetMode())
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
+	// Detect truncation
+	if fpt.GetMode() > math.MaxUint8 || fpt.GetTargetSpeed() > math.MaxUint8 {
+		return nil, twirp.InvalidArgumentError("Mode/TargetSpeed", "is too large")
+	}
+
 	// Make sure speed mode is valid (1-4).
 	if mode < 1 || mode > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
-- 
2.43.0


From 4a428c89b9e6142e6420be49bea4cdd5b645409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 10/17] fix: set a fan profile whose out percentage differs
 from the target

SetFanProfile only looked at the in percentage and reported success without
changing anything when the out percentage was another.
---
 comfoserver/server.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index fe25349..401f73e 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -193,7 +193,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	}
 
 	var modified bool
-	var origSpeed uint8
+	var origSpeed, origOut uint32
 
 	// Lock the fan speed mutex before reading from the cache
 	fanLock.Lock()
@@ -204,19 +204,19 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	// Get original fan speed of selected mode into origSpeed
 	switch mode {
 	case 0:
-		origSpeed = uint8(profiles.InAway)
+		origSpeed, origOut = profiles.InAway, profiles.OutAway
 	case 1:
-		origSpeed = uint8(profiles.InLow)
+		origSpeed, origOut = profiles.InLow, profiles.OutLow
 	case 2:
-		origSpeed = uint8(profiles.InMid)
+		origSpeed, origOut = profiles.InMid, profiles.OutMid
 	case 3:
-		origSpeed = uint8(profiles.InHigh)
+		origSpeed, origOut = profiles.InHigh, profiles.OutHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
 
 	// Modify speed if different.
-	if origSpeed != tgtSpeed {
+	if origSpeed != uint32(tgtSpeed) || origOut != uint32(tgtSpeed) {
 		// Send profile command to unit.
 		err := libcomfo.SetFanProfile(mode, tgtSpeed, comfoConn)
 		if err != nil {
@@ -232,7 +232,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 
 	return &rpc.FanProfileModified{
 		Modified:      modified,
-		OriginalSpeed: uint32(origSpeed),
+		OriginalSpeed: origSpeed,
 		TargetSpeed:   fpt.GetTargetSpeed(),
 		ReqTime:       fmt.Sprint(time.Since(start)),
 	}, nil
-- 
2.43.0


From 852220265446fd6cacc75bab886d385d0244878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 11/17] fix: notice failed cache updates

FlushCache reported success, the set methods took the previous reading for
the result of the change, and UpdatePoll for a confirmation of the speed,
when the readings could not be updated.
---
 comfoserver/caches.go | 89 +++++++++++++++++++++++++------------------
 comfoserver/server.go | 12 ++++--
 2 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 85a99d3..9f01f87 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -68,13 +69,15 @@ type ErrorsCache struct {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +85,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +104,7 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,7 +116,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -128,13 +125,16 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +146,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +155,16 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,7 +176,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -182,13 +185,16 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,7 +206,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,7 +215,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -228,12 +237,12 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
-
-		// Return when target fan profile is in desired state
-		if fans := fanCache.Protobuf(); fans.InPercent == uint32(inPct) &&
-			fans.OutPercent == uint32(outPct) {
-			return nil
+		if err := fanCache.Update(true); err == nil {
+			// Return when target fan profile is in desired state
+			if fans := fanCache.Protobuf(); fans.InPercent == uint32(inPct) &&
+				fans.OutPercent == uint32(outPct) {
+				return nil
+			}
 		}
 
 		// On my unit, fetching speed readings can take hundreds of ms,
@@ -247,7 +256,7 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -259,7 +268,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -268,13 +277,16 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -286,7 +298,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -295,7 +307,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 401f73e..47d639a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -94,7 +94,9 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 
 		// Flush the temperature cache after a successful update.
 		// New comfort temperature value is immediately reflected in a query.
-		tempCache.Update(true)
+		if err := tempCache.Update(true); err != nil {
+			return nil, twirp.InternalErrorWith(err)
+		}
 
 		modified = true
 	}
@@ -146,7 +148,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 		}
 
 		// Flush the fanProfilesCache when values have converged
-		fanProfilesCache.Update(true)
+		if err := fanProfilesCache.Update(true); err != nil {
+			return nil, twirp.InternalErrorWith(err)
+		}
 
 		// Set modified flag
 		modified = true
@@ -224,7 +228,9 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 		}
 
 		// Flush the fanProfilesCache when values have converged
-		fanProfilesCache.Update(true)
+		if err := fanProfilesCache.Update(true); err != nil {
+			return nil, twirp.InternalErrorWith(err)
+		}
 
 		// Set modified result
 		modified = true
-- 
2.43.0


From d5a7b8be634f863fcbb08f2578dfdde5865a3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 12/17] fix: work from the unit's current values when changing
 them

When a change took effect but its acknowledgement or result was lost, the
cache kept the value before it. Later changes back to that value were then
skipped as not necessary, and relative steps started from it.
---
 comfoserver/server.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 47d639a..81a501a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -83,6 +83,11 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	tempLock.Lock()
 	defer tempLock.Unlock()
 
+	// A failed change may have taken effect, so do not rely on the cached value
+	if err := tempCache.Update(true); err != nil {
+		return nil, twirp.InternalErrorWith(err)
+	}
+
 	origTemp := tempCache.Protobuf().Comfort
 
 	if origTemp != float32(targetTemp) {
@@ -122,6 +127,18 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// Refuse an absolute speed out of bounds without looking at the unit
+	if fst.Abs != 0 {
+		if _, err := modifySpeed(0, fst); err != nil {
+			return nil, err
+		}
+	}
+
+	// A failed change may have taken effect, so do not rely on the cached value
+	if err := fanProfilesCache.Update(true); err != nil {
+		return nil, twirp.InternalErrorWith(err)
+	}
+
 	// Initialize speed values
 	origSpeed := uint8(fanProfilesCache.Protobuf().CurrentMode)
 
@@ -203,6 +220,11 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// A failed change may have taken effect, so do not rely on the cached value
+	if err := fanProfilesCache.Update(true); err != nil {
+		return nil, twirp.InternalErrorWith(err)
+	}
+
 	profiles := fanProfilesCache.Protobuf()
 
 	// Get original fan speed of selected mode into origSpeed
-- 
2.43.0


From 509aaab88c75538786e2cfc2f97fa975cf531121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 13/17] fix: fail changes that the unit did not apply

The set methods reported success for changes that were acknowledged, without
looking at the values read back.
---
 comfoserver/errors.go |  1 +
 comfoserver/server.go | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/comfoserver/errors.go b/comfoserver/errors.go
index 2374bc2..98d4b44 100644
--- a/comfoserver/errors.go
+++ b/comfoserver/errors.go
@@ -4,5 +4,6 @@ import "errors"
 
 var (
 	errSetPollFailed = errors.New("failure polling result after set operation")
+	errSetNotApplied = errors.New("set operation was acknowledged but not applied")
 	errBothAbsRel    = errors.New("Abs and Rel are mutually exclusive")
 )
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 81a501a..a47720a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -103,6 +103,11 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 			return nil, twirp.InternalErrorWith(err)
 		}
 
+		// The unit acknowledges commands before executing them
+		if tempCache.Protobuf().Comfort != float32(targetTemp) {
+			return nil, twirp.InternalErrorWith(errSetNotApplied)
+		}
+
 		modified = true
 	}
 
@@ -169,6 +174,11 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 			return nil, twirp.InternalErrorWith(err)
 		}
 
+		// Profiles with equal percentages look the same when polling
+		if fanProfilesCache.Protobuf().CurrentMode != uint32(tgtSpeed) {
+			return nil, twirp.InternalErrorWith(errSetNotApplied)
+		}
+
 		// Set modified flag
 		modified = true
 	}
@@ -254,6 +264,17 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 			return nil, twirp.InternalErrorWith(err)
 		}
 
+		// The unit acknowledges commands before executing them
+		fanProfilesCache.CacheLock.RLock()
+		in, out, err := fanProfilesCache.Lookup(mode + 1)
+		fanProfilesCache.CacheLock.RUnlock()
+		if err != nil {
+			return nil, twirp.InternalErrorWith(err)
+		}
+		if in != tgtSpeed || out != tgtSpeed {
+			return nil, twirp.InternalErrorWith(errSetNotApplied)
+		}
+
 		// Set modified result
 		modified = true
 	}
-- 
2.43.0


From db940c116d455abd90621011d3d72765958c098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 14/17] fix: answer GetBootInfo when the device name is not
 valid UTF-8

Such a name cannot be encoded in protobuf or JSON.
---
 comfoserver/protobuf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comfoserver/protobuf.go b/comfoserver/protobuf.go
index c51355b..af057ce 100644
--- a/comfoserver/protobuf.go
+++ b/comfoserver/protobuf.go
@@ -1,6 +1,8 @@
 package comfoserver
 
 import (
+	"strings"
+
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 )
 
@@ -26,7 +28,7 @@ func (b *BootInfoCache) Protobuf() *rpc.BootInfo {
 		BetaVersion:  uint32(b.BetaVersion),
 		MajorVersion: uint32(b.MajorVersion),
 		MinorVersion: uint32(b.MinorVersion),
-		DeviceName:   b.DeviceName,
+		DeviceName:   strings.ToValidUTF8(b.DeviceName, "\uFFFD"),
 	}
 }
 
-- 
2.43.0


From 3886c746f3903936961de0a0559da836c1e87180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 15/17] fix: do not cut off slow API requests

SetFanSpeed polls the unit for longer than the 5 seconds after which the
connection was closed without a response.
---
 comfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfo.go b/comfo.go
index 0cbe569..adab420 100644
--- a/comfo.go
+++ b/comfo.go
@@ -62,7 +62,7 @@ func main() {
 	srv := &http.Server{
 		Handler:      router,
 		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
+		WriteTimeout: time.Minute, // setting the fan speed can take 15 seconds
 		ReadTimeout:  5 * time.Second,
 	}
 
-- 
2.43.0


From 3d6fc3b9de02c2cf4a928d3fc0e5e6c4261c1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 16/17] fix: run async methods of the Python client in the
 caller's loop

---
 python/comfo/client.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..eeaee55 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -24,11 +24,12 @@ class Comfo:
         self.host = host
         self.twirp = ComfoClient(f"http://{host}:3094")
 
-        if loop is None:
-            try:
-                self.loop = asyncio.get_running_loop()
-            except RuntimeError:
-                pass
+        self._loop = loop
+
+    @property
+    def loop(self):
+        """Loop to run in: the one given by the caller or the running one."""
+        return self._loop or asyncio.get_running_loop()
 
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
-- 
2.43.0


From 5d802070127f451a0d72eab81993a0fa2febfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 17/17] fix: refuse a reply whose frame is empty

A request with code 0xFF expects the response code 0x00, which is also the
command of the zero Packet that an empty frame was taken for when the
stream ended after it.
---
 libcomfo/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 0747b1b..f43cddc 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -143,7 +143,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Abort on invalid input
-	if len(pr) > 0 && len(pr) < 4 {
+	if len(pr) < 4 {
 		return out, errTooShort
 	}
 
-- 
2.43.0

