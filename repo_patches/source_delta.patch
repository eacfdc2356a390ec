From 21373b6f8e3d05d75d60d7a9c9ecde83af4d4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 01/37] fix: ts.Packet.Next keeps no payload or adaptation
 field of an earlier packet

---
 ts/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..856565e 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -75,6 +75,9 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		return
 	}
 
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	packet.TransportErrorIndicator, err = br.Read1()
 	if err != nil {
 		return
-- 
2.43.0


From 086c646b172e8f1532ef7bc5e37a675e39a213d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 02/37] fix: adaptation field lengths are validated and
 adaptation extensions passed over completely

---
 ts/adaptation_field.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..92d0726 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"errors"
 	"io"
 
 	"github.com/32bitkid/bitreader"
@@ -18,18 +19,25 @@ const (
 	FieldThenPayload                        // 0b11
 )
 
+// ErrInvalidAdaptationField is the error returned if the lengths declared inside of
+// an adaptation field exceed the space that is available to them.
+var ErrInvalidAdaptationField = errors.New("invalid adaptation field")
+
 type TransportPrivateData struct {
 	// length of the transport private data section excludes the length byte
 	length uint32
 	data   []byte
 }
 
-func newTransportPrivateData(br bitreader.BitReader) (*TransportPrivateData, uint32, error) {
+func newTransportPrivateData(br bitreader.BitReader, available uint32) (*TransportPrivateData, uint32, error) {
 	tpd := TransportPrivateData{}
 	var err error
 	if tpd.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if tpd.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	if tpd.length > 0 {
 		tpd.data = make([]byte, tpd.length)
 		_, err = io.ReadFull(br, tpd.data)
@@ -58,12 +66,15 @@ type AdaptationExt struct {
 	length uint32
 }
 
-func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
+func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt, uint32, error) {
 	ae := AdaptationExt{}
 	var err error
 	if ae.length, err = br.Read32(8); err != nil {
 		return nil, 0, err
 	}
+	if ae.length+1 > available {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 	remainLength := ae.length
 
 	if remainLength >= 1 {
@@ -117,6 +128,13 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		br.Skip(1)
+		remainLength -= 5
+	}
+
+	// skip the remaining bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
@@ -152,6 +170,9 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 	if err != nil {
 		return nil, 0, err
 	}
+	if remainLength >= MaxPayloadSize {
+		return nil, 0, ErrInvalidAdaptationField
+	}
 
 	// parse the adaptation field flags
 	if remainLength >= 1 {
@@ -220,7 +241,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 1 && af.TransportPrivateDataFlag {
 		var length uint32
-		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
+		if af.TransportPrivateData, length, err = newTransportPrivateData(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
@@ -228,7 +249,7 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 
 	if remainLength >= 2 && af.AdaptationFieldExtensionFlag {
 		var length uint32
-		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
+		if af.AdapatationExtension, length, err = newAdaptationExt(br, remainLength); err != nil {
 			return nil, 0, err
 		}
 		remainLength -= length + 1
-- 
2.43.0


From e42394ec9dcbea014ff482497081c123d57d2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 03/37] fix: payload reader ends at source errors, applies its
 window to whole packets and its selector to the first one

---
 ts/payload_reader.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..859fb28 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -24,6 +24,7 @@ type payloadReader struct {
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
 	closed        bool
+	err           error
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -40,11 +41,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		return 0, io.EOF
 	}
 
+	// An error that ended the previous read early
+	if r.err != nil {
+		err, r.err = r.err, nil
+		return 0, err
+	}
+
 	if r.currentPacket == nil {
 		r.currentPacket = new(Packet)
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil
 				return
 			}
 
@@ -68,7 +76,17 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// Fill from packet stream
 	for len(p) > 0 {
 		err = r.next()
+
+		if err == nil && r.takeWhile(r.currentPacket) == false {
+			r.closed = true
+			err = io.EOF
+		}
+
 		if err != nil {
+			// Deliver the bytes already read first
+			if n > 0 {
+				r.err, err = err, nil
+			}
 			return
 		}
 
@@ -78,12 +96,6 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
@@ -96,13 +108,15 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 7c2c7c7b5ae9fad4bf528fc342801e30090972af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 04/37] fix: payload unit reader delivers the last unit and no
 bytes along with EOP

---
 ts/payload_unit_reader.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..d1a0792 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,6 +36,7 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
@@ -53,8 +54,19 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 		p = p[rn:]
 
 		if rerr == io.EOF {
+			// Deliver the bytes already read first
+			if n > 0 {
+				return n, nil
+			}
+
 			stream.state = drained
-			return n, EOP
+
+			// A unit is only completed by the next unit or the end of the stream
+			if stream.err != nil && stream.err != io.EOF {
+				err, stream.err = stream.err, nil
+				return 0, err
+			}
+			return 0, EOP
 		} else if rerr != nil {
 			return n, rerr
 		}
@@ -65,6 +77,12 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 
 func (stream *payloadUnitBuffer) fill() (n int, err error) {
 
+	// The error that ended the previous unit
+	if stream.err != nil {
+		err, stream.err = stream.err, nil
+		return
+	}
+
 	// initialize
 	if stream.currentPacket == nil {
 		stream.currentPacket = new(Packet)
@@ -77,6 +95,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 			err = stream.next()
 			if err != nil {
+				stream.currentPacket = nil
 				return
 			}
 		}
@@ -92,8 +111,9 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
+		stream.err = stream.next()
+		if stream.err != nil {
+			stream.currentPacket = nil
 			break
 		}
 
-- 
2.43.0


From 85ad1a6a8dc262ccd1329d604ae1cabe3f14a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 05/37] fix: demuxer hands out a packet of its own for every
 delivery

---
 ts/demuxer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..47e6fd2 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -57,7 +57,6 @@ func (tsd *Demuxer) Go() <-chan bool {
 	var skipping = true
 	var skipUntil = tsd.skipUntil
 	var takeWhile = tsd.takeWhile
-	var p = &Packet{}
 
 	go func() {
 
@@ -69,7 +68,7 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
-			err := p.Next(tsd.reader)
+			p, err := NewPacket(tsd.reader)
 
 			if err != nil {
 				tsd.lastErr = err
-- 
2.43.0


From 6806e0d6fff70214ef1c260e2f99e725e36685b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 06/37] fix: PacketChannel.PayloadUnit delivers the payload
 units

---
 ts/packet_channel.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..8521f15 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -1,7 +1,6 @@
 package ts
 
 import "bytes"
-import "io/ioutil"
 
 // PacketChannel is a delivery channel of TS Packets
 type PacketChannel <-chan *Packet
@@ -25,18 +24,20 @@ func (input PacketChannel) PayloadUnit() <-chan []byte {
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
-					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
-						output <- data
-					}
+					output <- append([]byte(nil), buf.Bytes()...)
+					buf.Reset()
 				} else {
 					started = true
 				}
 			}
+			if started {
+				buf.Write(packet.Payload)
+			}
+		}
+		if started {
+			output <- append([]byte(nil), buf.Bytes()...)
 		}
 	}()
 	return output
-- 
2.43.0


From 50b6224f3364d2a482ba96fb4b33f4ab37d1b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 07/37] fix: PES packets keep nothing of an earlier packet and
 headerless streams carry their payload

---
 pes/packet.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..22ad7f3 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -66,6 +66,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	packet.Header = nil
+	packet.Payload = nil
+
 	packet.StreamID, err = reader.Read32(8)
 	if err != nil {
 		return err
@@ -106,6 +109,12 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		packet.Payload = make([]byte, packet.PacketLength)
+		_, err = io.ReadFull(reader, packet.Payload)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From c4d3f4d4f38dd480d9192612aefb426d6f0f5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 08/37] fix: contradicting PES lengths are reported instead of
 wrapping around

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..0e321a8 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if header.HeaderDataLength < bytesRead-minimumHeaderSize {
+		return nil, 0, ErrInvalidLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 22ad7f3..d29d587 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidLength           = errors.New("invalid length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -88,6 +89,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if packet.PacketLength < headerLen {
+				return ErrInvalidLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 3773ecce79ca29feae88d4a59a1d548aca2d0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 09/37] fix: optional PES fields that are not exposed are
 passed over

---
 pes/extension.go | 26 +++++++++++++++++++++++---
 pes/header.go    | 30 +++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..6f049d3 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -83,7 +93,17 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		if err = r.Skip(1); err != nil {
+			return nil, 0, err
+		}
+		length, err := r.Read32(7)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index 0e321a8..fbc63a0 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -136,23 +136,43 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		// elementary stream clock reference
+		if err = reader.Skip(6 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		// elementary stream rate
+		if err = reader.Skip(3 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		// trick mode control
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		// additional copy info
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		// previous packet CRC
+		if err = reader.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From 229c90d3be9d142feb3cd108ababbcde1c698487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/37] fix: payload unit boundaries never end or interrupt the
 PES payload reader

---
 pes/packet.go         | 10 ++++++++++
 pes/payload_reader.go | 17 ++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pes/packet.go b/pes/packet.go
index d29d587..d1d4f74 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -67,6 +67,16 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	// the packet is truncated if its source ends before it does
+	if err = packet.read(reader); err == io.EOF || err == ts.EOP {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
+func (packet *Packet) read(reader bitreader.BitReader) (err error) {
+
 	packet.Header = nil
 	packet.Payload = nil
 
diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..900b5e3 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,6 +3,7 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/ts"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
@@ -16,9 +17,16 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	err           error
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
+	// The error that ended the previous read early
+	if r.err != nil {
+		err, r.err = r.err, nil
+		return 0, err
+	}
+
 	// Drain remainder
 	for len(p) > 0 {
 		cn, err := r.remainder.Read(p)
@@ -37,7 +45,14 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// Fill from packet stream
 	for len(p) > 0 {
 		err := r.currentPacket.Next(r.br)
-		if err != nil {
+		if err == ts.EOP {
+			// a payload unit of the source is complete
+			continue
+		} else if err != nil && n > 0 {
+			// Deliver the bytes already read first
+			r.err = err
+			return n, nil
+		} else if err != nil {
 			return n, err
 		}
 
-- 
2.43.0


From 7f537a74958a9ab9ea3c6c702678dbd750b0295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 11/37] fix: source errors inside a PES header are reported as
 such

---
 pes/extension.go |  4 +++-
 pes/header.go    | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 6f049d3..a26feb6 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -76,7 +76,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
diff --git a/pes/header.go b/pes/header.go
index fbc63a0..f5836d2 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,7 +31,9 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
-	if val != 2 || err != nil {
+	if err != nil {
+		return nil, 0, err
+	} else if val != 2 {
 		return nil, 0, ErrMarkerNotFound
 	}
 
@@ -222,7 +224,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
-	if val != marker || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != marker {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -234,7 +238,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -246,7 +252,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
@@ -258,7 +266,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
-	if val != 1 || err != nil {
+	if err != nil {
+		return 0, 0, err
+	} else if val != 1 {
 		return 0, 0, ErrMarkerNotFound
 	}
 
-- 
2.43.0


From 723de6a311c4bc9b0803f7f8bb2958373730ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 12/37] fix: the video bound of a system header does not
 replace its audio bound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From 092643ab3a0322b32d99272aa41491983c4dc759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 13/37] fix: pack reader reports errors and truncation instead
 of returning zero bytes

---
 ps/pack_reader.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..99bf2f6 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -13,6 +13,7 @@ import (
 type packreader struct {
 	br        bitreader.BitReader
 	remainder *bytes.Buffer
+	err       error
 }
 
 func NewPackReader(r io.Reader) io.Reader {
@@ -22,9 +23,22 @@ func NewPackReader(r io.Reader) io.Reader {
 	}
 }
 
-func (pr packreader) Read(d []byte) (int, error) {
+// fail keeps the error for the next read if there are bytes to be delivered first.
+func (pr *packreader) fail(n int, err error) (int, error) {
+	pr.err = err
+	if n > 0 {
+		return n, nil
+	}
+	return 0, err
+}
+
+func (pr *packreader) Read(d []byte) (int, error) {
 	n := 0
 
+	if pr.err != nil {
+		return 0, pr.err
+	}
+
 	// DRAIN buffer
 	{
 		read, err := pr.remainder.Read(d)
@@ -40,8 +54,10 @@ func (pr packreader) Read(d []byte) (int, error) {
 	}
 
 STEP:
-	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+	if nextbits, err := pr.br.Peek32(32); err == io.EOF {
+		return pr.fail(n, io.ErrUnexpectedEOF)
+	} else if err != nil {
+		return pr.fail(n, err)
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -51,14 +67,16 @@ STEP:
 	}
 
 PACK:
-	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+	if _, err := NewPackHeader(pr.br); err == io.EOF {
+		return pr.fail(n, io.ErrUnexpectedEOF)
+	} else if err != nil {
+		return pr.fail(n, err)
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return pr.fail(n, err)
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
@@ -77,5 +95,5 @@ MORE_PACKETS:
 PROGRAM_END:
 
 	pr.br.Skip(32)
-	return n, io.EOF
+	return pr.fail(n, io.EOF)
 }
-- 
2.43.0


From 51a5f85186e119608a9df1a883afeef57f07f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 14/37] fix: pack reader accepts packs without packets

---
 ps/pack_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index 99bf2f6..4cdd18a 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -73,6 +73,8 @@ PACK:
 		return pr.fail(n, err)
 	}
 
+	goto STEP
+
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-- 
2.43.0


From f6113fecb3e57caf7d7461ba0e2da85e345c2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 15/37] fix: program stream decoder reports a malformed PES
 packet

---
 ps/decoder.go |  5 ++++-
 ps/pack.go    | 11 ++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..396c952 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -31,7 +31,10 @@ func (d *decoder) Go() <-chan bool {
 
 			d.packs <- pack
 
-			<-packComplete
+			if err := <-packComplete; err != nil {
+				d.err = err
+				return
+			}
 
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..c64bdcd 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -13,10 +13,10 @@ func (p *Pack) Packets() pes.PacketChannel {
 }
 
 // TODO better errors?
-func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
+func readPack(r bitreader.BitReader) (*Pack, <-chan error, error) {
 	var err error
 
-	packComplete := make(chan bool)
+	packComplete := make(chan error)
 
 	pack := Pack{
 		packs: make(chan *pes.Packet),
@@ -28,25 +28,30 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 	}
 
 	go func() {
+		var packErr error
+
 		defer close(packComplete)
-		defer func() { packComplete <- true }()
+		defer func() { packComplete <- packErr }()
 		defer close(pack.packs)
 
 		for true {
 
 			if nextbits, err := r.Peek32(24); err != nil {
+				packErr = err
 				return
 			} else if nextbits != StartCodePrefix {
 				break
 			}
 
 			if nextbits, err := r.Peek32(32); err != nil {
+				packErr = err
 				return
 			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {
 				return
 			}
 
 			if packet, err := pes.NewPacket(r); err != nil {
+				packErr = err
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From b91cd960305f852b81ceab7fa1b0c7478efc120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 16/37] fix: predictions are rounded to the nearest sample
 value

---
 video/motion_compensation.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..fb52baf 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,20 +136,25 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
-			b[v*8+u] += pel >> (samples - 1)
+			// the average of both directions
+			if samples == 2 {
+				pel = (pel + 1) >> 1
+			}
+
+			b[v*8+u] += pel
 		}
 	}
 }
-- 
2.43.0


From b1ea50a22bebdb93003fb61351c1c3681b1d3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 17/37] fix: chroma motion vectors are halved towards zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index fb52baf..bb4e2fc 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From 41f03635ec2916f116f51ae474ce78420a14ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 18/37] fix: an invalid coded block pattern is reported

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..75050ae 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From 7725f6b22e960017d8ce8dc888676fe4e84a437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 19/37] fix: an extension after a group of pictures header does
 not hang the decoder

---
 video/extension_and_user_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..9ebc5d5 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -14,6 +14,8 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			if _, err := br.user_data(); err != nil {
 				return err
 			}
+		} else {
+			break
 		}
 	}
 
-- 
2.43.0


From b0d5c650e3f6fc3f27baa84fe7cf4ee13e671bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 20/37] fix: loaded quantiser matrices are transmitted in
 zig-zag order

---
 video/quant_matrix_extension.go | 12 ++++++------
 video/quantisation_matrix.go    | 12 ++++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..e43e6e1 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,8 +34,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[0] = intra_quantiser_matrix
-		vs.quantisationMatricies[2] = intra_quantiser_matrix
+		vs.quantisationMatricies[0] = intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -51,8 +51,8 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = non_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -68,7 +68,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
+		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix.inverseScan()
 	}
 
 	if load, err := vs.Read1(); err != nil {
@@ -84,7 +84,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
-		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
+		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix.inverseScan()
 	}
 
 	return next_start_code(vs)
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..7f5c227 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,18 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan arranges the values of a matrix in the order they were
+// transmitted, which is always the zig-zag scanning order, by frequency.
+func (m quantisationMatrix) inverseScan() (result quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			result[v][u] = m[n>>3][n&7]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From 95376b83b807618162fb592b4ac63ea38dee517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 21/37] fix: predictions follow the line order of field DCT
 coded macroblocks

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 16 +++++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..b0b3872 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
diff --git a/video/macroblock.go b/video/macroblock.go
index 75050ae..7150334 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -160,7 +160,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index bb4e2fc..cbe2f8f 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -9,7 +9,7 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -20,6 +20,12 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			fs.past != nil,
 	}
 
+	// The lines of a luma block alternate with field DCT coding
+	row, step := (i&2)<<2, 1
+	if interlaced && i < 4 {
+		row, step = (i&2)>>1, 2
+	}
+
 	// project _future_ temporal sample _backward_...
 	if bState.active {
 		horizontal, vertical := motionVectors.actual[0][1][0], motionVectors.actual[0][1][1]
@@ -52,7 +58,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			bState.stride = image.YStride
-			bState.i = (((mb_row * 16) + (i&2)<<2) * bState.stride) + (mb_addr * 16) + (i&1)<<3
+			bState.i = (((mb_row * 16) + row) * bState.stride) + (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			bState.stride = image.CStride
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
@@ -93,7 +99,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		switch i {
 		case 0, 1, 2, 3:
 			fState.stride = image.YStride
-			fState.i = (((mb_row * 16) + (i&2)<<2) * fState.stride) + (mb_addr * 16) + (i&1)<<3
+			fState.i = (((mb_row * 16) + row) * fState.stride) + (mb_addr * 16) + (i&1)<<3
 		case 4, 5:
 			fState.stride = image.CStride
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
@@ -108,7 +114,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * step * fState.stride) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -128,7 +134,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * step * bState.stride) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 09ec30b21d3b19a4b678dc446d49f80af7edcde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 22/37] fix: interlaced frames have an even number of
 macroblock rows

---
 video/picture_data.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..c4aaa9d 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -2,11 +2,17 @@ package video
 
 import "image"
 
-func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
+func createFrameBuffer(w, h int, progressive_sequence uint32, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
 	verticalMacroblocks := (h + 15) >> 4
 
+	// Each field of an interlaced frame is a whole number of macroblocks
+	if progressive_sequence == 0 {
+		verticalMacroblocks = ((h + 31) >> 5) << 1
+	}
+
+
 	r := image.Rect(0, 0, horizontalMacroblocks<<4, verticalMacroblocks<<4)
 
 	var subsampleRatio image.YCbCrSubsampleRatio
@@ -25,7 +31,7 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
 	w, h := self.Size()
-	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
+	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence, self.SequenceExtension.chroma_format)
 
 	for {
 		if err := self.slice(frame); err != nil {
-- 
2.43.0


From 7971caa602711be66e3bfa7da6f65957fcd26aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 23/37] fix: slices of tall pictures use the vertical position
 extension

---
 video/slice.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 0dbff54..98bf670 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -37,7 +37,14 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 	s := Slice{}
 	s.slice_start_code = StartCode(code)
 
-	mb_row := int((code & 0xFF) - 1)
+	if _, vertical_size := br.Size(); vertical_size > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+	}
+
+	mb_row := int((s.slice_vertical_position_extension << 7) + (code & 0xFF) - 1)
 
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
@@ -48,13 +55,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From cf9849a6a5d622c39aff8a5e61f166dd841d6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 24/37] fix: concealment vectors without frame_pred_frame_dct
 do not crash the decoder

---
 video/macroblock.go   | 11 +++++++++++
 video/picture_data.go |  1 -
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 7150334..bf7f7e1 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -287,6 +287,17 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 		}
 	}
 
+	// Concealment motion vectors are frame vectors in frame pictures
+	// and field vectors in field pictures (6.3.17.3)
+	if mb.macroblock_type.macroblock_intra &&
+		br.PictureCodingExtension.concealment_motion_vectors {
+		if br.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+			mb.frame_motion_type = 2
+		} else {
+			mb.field_motion_type = 1
+		}
+	}
+
 	if br.PictureCodingExtension.picture_structure == PictureStructure_FramePicture &&
 		br.PictureCodingExtension.frame_pred_frame_dct == 0 &&
 		(mb.macroblock_type.macroblock_intra || mb.macroblock_type.macroblock_pattern) {
diff --git a/video/picture_data.go b/video/picture_data.go
index c4aaa9d..a48707e 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -12,7 +12,6 @@ func createFrameBuffer(w, h int, progressive_sequence uint32, cf ChromaFormat) *
 		verticalMacroblocks = ((h + 31) >> 5) << 1
 	}
 
-
 	r := image.Rect(0, 0, horizontalMacroblocks<<4, verticalMacroblocks<<4)
 
 	var subsampleRatio image.YCbCrSubsampleRatio
-- 
2.43.0


From b00a239017394120f9aa8fe1313a8d3b0d8b3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 25/37] fix: unsupported motion types are reported instead of
 crashing the decoder

---
 video/motion_vector_info.go | 24 +++++++++++++++---------
 video/motion_vectors.go     |  8 ++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..ff9023e 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedMotionType is the error returned if a macroblock uses a reserved motion type
+// or a type of motion compensation that this package does not implement.
+var ErrUnsupportedMotionType = errors.New("unsupported motion type")
+
 type motionVectorFormat int
 
 const (
@@ -14,28 +20,28 @@ type motionVectorInfo struct {
 	dmv                  int
 }
 
-func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
+func mv_info(fp *VideoSequence, mb *Macroblock) (motionVectorInfo, error) {
 	if fp.PictureCodingExtension.frame_pred_frame_dct == 1 {
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	}
 
 	switch mb.frame_motion_type {
 	case 1:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
 	switch mb.field_motion_type {
 	case 1:
-		return motionVectorInfo{1, motionVectorFormat_Field, 0}
+		return motionVectorInfo{1, motionVectorFormat_Field, 0}, nil
 	case 2:
-		return motionVectorInfo{2, motionVectorFormat_Field, 0}
+		return motionVectorInfo{2, motionVectorFormat_Field, 0}, nil
 	case 3:
-		return motionVectorInfo{1, motionVectorFormat_Field, 1}
+		return motionVectorInfo{1, motionVectorFormat_Field, 1}, nil
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{}, ErrUnsupportedMotionType
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..40dd51c 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -123,7 +123,11 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 
 	f_code := fp.PictureCodingExtension.f_code
 
-	mvd.info = mv_info(fp, mb)
+	if info, err := mv_info(fp, mb); err != nil {
+		return err
+	} else {
+		mvd.info = info
+	}
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
@@ -141,7 +145,7 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 			}
 		}
 		if mvd.info.dmv == 1 {
-			panic("unsupported: dmv[]")
+			return ErrUnsupportedMotionType
 		}
 
 		mvd.update_actual(r, s, t, f_code, mvd.info.motion_vector_format, fp.PictureCodingExtension.picture_structure)
-- 
2.43.0


From 9def07d252e9fcde43f1b3ee80ca7aed5db5664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 26/37] fix: a block with too many coefficients is reported
 instead of crashing the decoder

---
 video/block.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..dbb2c87 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+// ErrTooManyCoefficients is the error returned if the coefficients of a block exceed its size.
+var ErrTooManyCoefficients = errors.New("too many coefficients")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -94,6 +98,9 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				n = n + 1
 			}
 		} else {
+			if n+run >= blockSize {
+				return ErrTooManyCoefficients
+			}
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
 				n = n + 1
-- 
2.43.0


From addc2057ec741d228aabba6b8da58909c64a3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 27/37] fix: slices and macroblocks outside of the picture are
 reported instead of crashing the decoder

---
 video/macroblock.go | 4 ++++
 video/slice.go      | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index bf7f7e1..e3f2efd 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -43,6 +43,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if (mb_address+mb.macroblock_address_increment+1)*16 > frameSlice.Rect.Dx() {
+		return 0, ErrInvalidPosition
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
diff --git a/video/slice.go b/video/slice.go
index 98bf670..658eb0d 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -5,6 +5,9 @@ import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
 
+// ErrInvalidPosition is the error returned if a slice or macroblock is outside of the picture.
+var ErrInvalidPosition = errors.New("invalid slice or macroblock position")
+
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
 	slice_vertical_position_extension uint32    // 3 uimsbf
@@ -46,6 +49,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((s.slice_vertical_position_extension << 7) + (code & 0xFF) - 1)
 
+	if (mb_row+1)*16 > frame.Rect.Dy() {
+		return ErrInvalidPosition
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From cb799eb48027fc1ff7ae5b02f0ca54e0dee516d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 28/37] fix: unsupported pictures and scalable extensions are
 reported instead of crashing the decoder

---
 video/extension_and_user_data.go     | 11 ++++++-----
 video/macroblock.go                  |  2 +-
 video/picture_data.go                |  8 ++++++++
 video/sequence_scalable_extension.go |  4 +---
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 9ebc5d5..13ef69f 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedExtension is the error returned if a stream depends on an extension that this package does not implement.
+var ErrUnsupportedExtension = errors.New("unsupported extension")
+
 func (br *VideoSequence) extension_and_user_data(i int) error {
 	for {
 		if nextbits, err := br.Peek32(32); err != nil {
@@ -69,7 +74,7 @@ func (br *VideoSequence) extension_data(i int) error {
 			case PictureDisplayExtensionID:
 				picture_display_extension()
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				return ErrUnsupportedExtension
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -88,7 +93,3 @@ func copyright_extension() {
 func picture_display_extension() {
 	panic("unsupported: picture_display_extension")
 }
-
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
-}
diff --git a/video/macroblock.go b/video/macroblock.go
index e3f2efd..9097db2 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -258,7 +258,7 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 	case BFrame:
 		typeDecoder = macroblockTypeDecoder.BFrame
 	default:
-		panic("not implemented: macroblock type decoder")
+		return ErrUnsupportedPicture
 	}
 
 	mb.macroblock_type, err = typeDecoder(br)
diff --git a/video/picture_data.go b/video/picture_data.go
index a48707e..ea1baa7 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "image"
 
+// ErrUnsupportedPicture is the error returned if a picture is coded in a way that this package does not implement.
+var ErrUnsupportedPicture = errors.New("unsupported picture")
+
 func createFrameBuffer(w, h int, progressive_sequence uint32, cf ChromaFormat) *image.YCbCr {
 
 	horizontalMacroblocks := (w + 15) >> 4
@@ -29,6 +33,10 @@ func createFrameBuffer(w, h int, progressive_sequence uint32, cf ChromaFormat) *
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	if self.SequenceExtension == nil || self.SequenceExtension.chroma_format != ChromaFormat420 {
+		return nil, ErrUnsupportedPicture
+	}
+
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence, self.SequenceExtension.chroma_format)
 
diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..fab9eb3 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,7 +49,7 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
+	return nil, ErrUnsupportedExtension
 
 	/*
 		scalable_mode 2 uimsbf
@@ -71,6 +71,4 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From 4c799049c5990a5fecb0ede618980062c795044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 29/37] fix: copyright and picture display extensions are
 passed over

---
 video/extension_and_user_data.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 13ef69f..c8f810c 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -70,9 +70,13 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			case CopyrightExtensionID:
-				copyright_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureDisplayExtensionID:
-				picture_display_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureSpatialScalableExtensionID:
 				return ErrUnsupportedExtension
 			default:
@@ -86,10 +90,17 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
-}
+// skip_extension passes over an extension that does not affect the decoding process.
+func (br *VideoSequence) skip_extension() error {
+	for {
+		if nextbits, err := br.Peek32(24); err != nil {
+			return err
+		} else if nextbits == StartCodePrefix {
+			return nil
+		}
 
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
+		if err := br.Skip(8); err != nil {
+			return err
+		}
+	}
 }
-- 
2.43.0


From 6c61c3b5089140a1becfab8e2029f0f8f7de200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 30/37] fix: motion vectors that leave the reference frame are
 reported instead of crashing the decoder

---
 video/copy_macroblocks.go    |  8 ++++++--
 video/macroblock.go          | 10 ++++++---
 video/motion_compensation.go | 40 +++++++++++++++++++++++++++++++-----
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index b0b3872..fac7077 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,16 +31,20 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs)
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs); err != nil {
+				return err
+			}
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 9097db2..6060401 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -56,12 +56,14 @@ func (br *VideoSequence) macroblock(
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -164,7 +166,9 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore)
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore); err != nil {
+			return 0, err
+		}
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index cbe2f8f..987d872 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrInvalidMotionVector is the error returned if a motion vector refers to samples outside of the reference frame.
+var ErrInvalidMotionVector = errors.New("invalid motion vector")
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -9,7 +14,28 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) {
+// displace moves the prediction by the integral part of a motion vector. step is the
+// distance of two lines of the block.
+func (state *motionCompensationState) displace(horizontal, vertical, step int) error {
+	left, top := state.i%state.stride+horizontal, state.i/state.stride+vertical
+	right, bottom := left+7, top+7*step
+
+	if state.h_half {
+		right++
+	}
+	if state.v_half {
+		bottom++
+	}
+
+	if left < 0 || top < 0 || right >= state.stride || bottom >= len(state.channel)/state.stride {
+		return ErrInvalidMotionVector
+	}
+
+	state.i = top*state.stride + left
+	return nil
+}
+
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) error {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -64,8 +90,9 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
-		bState.i += vertical * bState.stride
-		bState.i += horizontal
+		if err := bState.displace(horizontal, vertical, step); err != nil {
+			return err
+		}
 	}
 
 	// project _past_ temporal sample _forward_...
@@ -105,8 +132,9 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
-		fState.i += vertical * fState.stride
-		fState.i += horizontal
+		if err := fState.displace(horizontal, vertical, step); err != nil {
+			return err
+		}
 	}
 
 	for v := 0; v < 8; v++ {
@@ -163,4 +191,6 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			b[v*8+u] += pel
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From ae022faeaf4128d9128d52acc7b12f26ecc0be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 31/37] fix: missing reference frames and references of another
 size do not crash the decoder

---
 video/copy_macroblocks.go | 4 ++++
 video/picture_data.go     | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index fac7077..abf75ce 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -3,6 +3,10 @@ package video
 import "image"
 
 func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
+	// There is nothing to copy without a reference frame
+	if src == nil {
+		return
+	}
 	// Copy Y
 	{
 		y := row * 16
diff --git a/video/picture_data.go b/video/picture_data.go
index ea1baa7..72d325b 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -40,6 +40,14 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence, self.SequenceExtension.chroma_format)
 
+	// Only frames of the same size can be used as a reference
+	if self.frameStore.past != nil && self.frameStore.past.Rect != frame.Rect {
+		self.frameStore.past = nil
+	}
+	if self.frameStore.future != nil && self.frameStore.future.Rect != frame.Rect {
+		self.frameStore.future = nil
+	}
+
 	for {
 		if err := self.slice(frame); err != nil {
 			return nil, err
-- 
2.43.0


From fee285404bded851172c26f4c6e109bb3028c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 32/37] fix: temporal references wrap around in long groups of
 pictures

---
 video/frame_store.go    | 5 +++--
 video/video_sequence.go | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..9e23686 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -22,8 +22,9 @@ func (fs *frameStore) gop() {
 func (fs *frameStore) set(current_temporal_reference uint32) {
 	for _, ref := range fs.frames {
 		if ref.frame != nil {
-			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
+			// temporal references wrap around after 1023
+			distance := (ref.temporal_reference - current_temporal_reference) & 0x3FF
+			if ref.previous_gop == true || distance >= 0x200 {
 				fs.past = ref.frame
 			} else {
 				fs.future = ref.frame
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..627bc40 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -83,7 +83,7 @@ func (vs *VideoSequence) Size() (width int, height int) {
 func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
-		vs.frameCounter++
+		vs.frameCounter = (vs.frameCounter + 1) & 0x3FF
 		return img, nil
 	}
 
@@ -92,7 +92,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 		if img, err := vs.step(); err != nil {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
-			vs.frameCounter++
+			vs.frameCounter = (vs.frameCounter + 1) & 0x3FF
 			return img, nil
 		}
 	}
-- 
2.43.0


From 7e08c19684318d0ffe2b48034278c82adfafe45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 33/37] fix: a sequence that follows the end of another one is
 decoded on its own

---
 video/frame_provider.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..1157988 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -87,6 +87,11 @@ MORE_FRAMES:
 
 RESUME:
 
+	// align to next start code
+	if err := next_start_code(self); err != nil {
+		return nil, err
+	}
+
 	if nextbits, err := self.Peek32(32); err != nil {
 		return nil, err
 	} else if StartCode(nextbits) == PictureStartCode {
@@ -102,6 +107,11 @@ RESUME:
 		if err := self.Skip(32); err != nil {
 			return nil, err
 		}
+
+		// the next sequence does not refer to frames of this one
+		self.frameStore = frameStore{}
+		self.frameCounter = 0
+
 		goto END_OF_STREAM
 	}
 
-- 
2.43.0


From 2719604a943eae894be824121c227f83738b51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 34/37] fix: references are the last two reference frames,
 however many B pictures there are

---
 video/frame_provider.go |  2 +-
 video/frame_store.go    | 18 +++++++-----------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 1157988..4c31a34 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -73,7 +73,7 @@ MORE_FRAMES:
 		return nil, err
 	}
 
-	self.frameStore.set(self.PictureHeader.temporal_reference)
+	self.frameStore.set(self.PictureHeader.picture_coding_type)
 
 	if frame, err := self.picture_data(); err != nil {
 		return nil, err
diff --git a/video/frame_store.go b/video/frame_store.go
index 9e23686..3c1c2f5 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -19,17 +19,13 @@ func (fs *frameStore) gop() {
 	fs.frames[1].previous_gop = true
 }
 
-func (fs *frameStore) set(current_temporal_reference uint32) {
-	for _, ref := range fs.frames {
-		if ref.frame != nil {
-			// temporal references wrap around after 1023
-			distance := (ref.temporal_reference - current_temporal_reference) & 0x3FF
-			if ref.previous_gop == true || distance >= 0x200 {
-				fs.past = ref.frame
-			} else {
-				fs.future = ref.frame
-			}
-		}
+// set selects the references of a picture: the last two reference frames, in
+// the order in which they were decoded.
+func (fs *frameStore) set(pictureCodingType PictureCodingType) {
+	if pictureCodingType == BFrame {
+		fs.past, fs.future = fs.frames[0].frame, fs.frames[1].frame
+	} else {
+		fs.past, fs.future = fs.frames[1].frame, nil
 	}
 }
 
-- 
2.43.0


From 409fa20bcc3b5ee5fff3df97fa84227eb1ae3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 35/37] fix: a read of no bytes from a payload reader must not
 take the error that is waiting

---
 pes/payload_reader.go | 2 +-
 ts/payload_reader.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index 900b5e3..1416b25 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -22,7 +22,7 @@ type payloadReader struct {
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// The error that ended the previous read early
-	if r.err != nil {
+	if r.err != nil && len(p) > 0 {
 		err, r.err = r.err, nil
 		return 0, err
 	}
diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 859fb28..6eede4f 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -42,7 +42,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	}
 
 	// An error that ended the previous read early
-	if r.err != nil {
+	if r.err != nil && len(p) > 0 {
 		err, r.err = r.err, nil
 		return 0, err
 	}
-- 
2.43.0


From 755c08941721bf7cd17f351f0c56909ad6cc1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 36/37] fix: an error of the source in pack stuffing must not
 be dropped

---
 ps/pack_header.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..f8b7db6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,10 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			// stuffing_byte
+			if err := r.Skip(8); err != nil {
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From 3605786d17e5e567c78d64c1c156f0c174ccd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 37/37] fix: an error of the source in front of a piecewise
 rate must not be dropped

---
 ts/adaptation_field.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 92d0726..46bb3d9 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -102,7 +102,9 @@ func newAdaptationExt(br bitreader.BitReader, available uint32) (*AdaptationExt,
 	}
 
 	if remainLength >= 3 && ae.PiecewiseRateFlag {
-		br.Skip(2)
+		if err = br.Skip(2); err != nil {
+			return nil, 0, err
+		}
 		if ae.PiecewiseRate, err = br.Read32(22); err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0

