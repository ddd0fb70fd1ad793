From 93878580ada551734ee97fb2f6f544346158bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 01/55] fix: return an error for an invalid META or MIDI event
 instead of panicking

---
 midi/MTrk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..c016fcd 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -136,8 +136,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 
 		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		if err != nil {
+			return nil, err
+		}
 
-		return events.NewEvent(e), err
+		return events.NewEvent(e), nil
 	}
 
 	// ... SysEx event
@@ -184,8 +187,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 5eba0eb7f2e976758aadc525945daea7d3ecd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 02/55] fix: return an error for an out of range polyphonic
 pressure instead of panicking

---
 midi/events/midi/polyphonic_pressure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..78b0ac7 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("invalid pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
-- 
2.43.0


From 1780e7b83eb79ae41885cc6931d2532deabec008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:07 +0000
Subject: [PATCH 03/55] fix: reject MIDI events with an invalid data byte (high
 bit set)

---
 midi/MTrk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index c016fcd..638d6c6 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -181,8 +181,10 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	for i := 0; i < length[status&0xf0]; i++ {
-		if _, err := rr.ReadByte(); err != nil {
+		if b, err := rr.ReadByte(); err != nil {
 			return nil, err
+		} else if b > 0x7f {
+			return nil, fmt.Errorf("Invalid MIDI event data byte: %02X", b)
 		}
 	}
 
-- 
2.43.0


From 7aa52ccb4bd4fa5dc889493444065d25aec740c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:08 +0000
Subject: [PATCH 04/55] fix: reject a track that ends in the middle of an event

---
 midi/MTrk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 638d6c6..1c167cb 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -50,7 +50,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	var e *events.Event = nil
 
 	for err == nil {
-		e, err = parse(r, tick, chunk.Context)
+		if _, err = r.Peek(1); err != nil {
+			break
+		}
+
+		if e, err = parse(r, tick, chunk.Context); err == io.EOF {
+			return fmt.Errorf("Truncated event in track at tick %v", tick)
+		}
+
 		if err == nil && e != nil {
 			tick += e.Delta()
 			eventlist = append(eventlist, e)
-- 
2.43.0


From c9138ac4ee0fc1cb8741da0f302ad59f01d35453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:09 +0000
Subject: [PATCH 05/55] fix: accumulate event ticks as 64 bit values (no wrap
 around at 2^32)

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 1c167cb..5d8e6e2 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -45,7 +45,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
@@ -59,7 +59,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 		}
 
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -109,7 +109,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -142,7 +142,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
+		e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...)
 		if err != nil {
 			return nil, err
 		}
@@ -161,7 +161,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -195,7 +195,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8cc67f073bed7b514c8f0eb01ba609dc809fcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 06/55] fix: reject variable length quantities longer than 4
 bytes instead of silently overflowing

---
 midi/events/event.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..47f9c7b 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -144,7 +144,7 @@ func VLF(r io.ByteReader) ([]byte, error) {
 func VLQ(r io.ByteReader) (uint32, error) {
 	vlq := uint32(0)
 
-	for {
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -154,9 +154,9 @@ func VLQ(r io.ByteReader) (uint32, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return vlq, nil
 		}
 	}
 
-	return vlq, nil
+	return 0, fmt.Errorf("Invalid variable length quantity (more than 4 bytes)")
 }
-- 
2.43.0


From 5441b878380380182ea9b2424145bdb9e64340e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:48 +0000
Subject: [PATCH 07/55] fix: return an error for a delta that does not fit in a
 MIDI variable length quantity instead of writing a corrupt file

---
 midi/lib/delta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..104f0ac 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -41,6 +41,10 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
+	if d > 0x0fffffff {
+		return nil, fmt.Errorf("invalid delta (%v): exceeds the maximum MIDI delta (%v)", uint32(d), 0x0fffffff)
+	}
+
 	buffer := []byte{0x00, 0x80, 0x80, 0x80, 0x00}
 	b := d
 
-- 
2.43.0


From 90f39205dbf78a5d8b475564c170b4c4c56868df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:49 +0000
Subject: [PATCH 08/55] fix: reject a truncated chunk and do not allocate
 memory for lengths that exceed the file size

---
 encoding/midi/decoder.go | 9 +++++----
 midi/events/event.go     | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..ab274f0 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -88,11 +88,12 @@ func (r *chunker) next() ([]byte, error) {
 	}
 
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if chunk, err := io.ReadAll(io.LimitReader(r.reader, int64(N))); err != nil {
 		return nil, err
+	} else if len(chunk) < int(N) {
+		return nil, fmt.Errorf("truncated chunk - expected %d bytes, got %d", N, len(chunk))
+	} else {
+		return append(buffer, chunk...), nil
 	}
-
-	return append(buffer, chunk...), nil
 }
diff --git a/midi/events/event.go b/midi/events/event.go
index 47f9c7b..952c52f 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
 	for i := 0; i < int(N); i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From 35ddd9e9080834d73421ed7b5ff078b0f1455be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 09/55] fix: return an error for event data shorter than the
 encoded length instead of panicking

---
 midi/events/meta/metaevent.go       | 2 ++
 midi/events/meta/sequence_number.go | 2 ++
 midi/events/midi/midievent.go       | 2 ++
 midi/events/sysex/sysex.go          | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..4f31ff1 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..e988672 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) != 2 {
+		return fmt.Errorf("Invalid SequenceNumber length (%d): expected '2'", len(v))
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..d3785bc 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..5771cf5 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data - expected %v bytes, got %v", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From 5f5154540de6e81cbf994d094e1547a3cfca3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 10/55] fix: do not panic on SysEx and sequencer specific
 events with little or no data

---
 midi/events/meta/sequencer_specific.go | 12 ++++++++----
 midi/events/sysex/message.go           |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..3d53659 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,10 +31,14 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 {
+		return fmt.Errorf("Invalid SequencerSpecificEvent data (missing manufacturer ID)")
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
-	if data[0] == 0x00 {
+	if data[0] == 0x00 && len(data) > 2 {
 		id = data[0:3]
 		d = data[3:]
 	}
@@ -68,13 +72,13 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
-		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
+	} else if len(data) < 1 {
+		return fmt.Errorf("Invalid SequencerSpecificEvent data (missing manufacturer ID)")
 	} else {
 		id := data[0:1]
 		d := data[1:]
 
-		if data[0] == 0x00 {
+		if data[0] == 0x00 && len(data) > 2 {
 			id = data[0:3]
 			d = data[3:]
 		}
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..60efabf 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
-- 
2.43.0


From ba90895394aee958d85a050fd83fb2e2db50051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:24 +0000
Subject: [PATCH 11/55] fix: retain the terminating F7 of a decoded SysEx
 continuation message

---
 midi/events/sysex/continuation_message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..5f9e938 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -51,7 +51,9 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 	if len(data) > 0 {
 		terminator := data[len(d)-1]
 		if terminator == 0xf7 {
-			d = data[:len(d)-1]
+			*e = MakeSysExContinuationEndMessage(tick, delta, data[:len(d)-1], bytes...)
+
+			return nil
 		}
 	}
 
-- 
2.43.0


From 7fc067cc6f2be8cc7d34a14f989f0f78d5f509fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 12/55] fix: retain the terminating F7 when unmarshalling a
 SysEx continuation message

---
 midi/events/sysex/continuation_message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 5f9e938..fd584c4 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -97,8 +97,10 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 		if len(data) > 0 {
 			terminator := data[len(d)-1]
 			if terminator == 0xf7 {
-				d = data[:len(d)-1]
+				*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:len(d)-1], bytes...)
 				// ctx.Casio = false
+
+				return nil
 			}
 		}
 
-- 
2.43.0


From d082cb294fac89e0abd6da00aefe9d033b3759e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 13/55] fix: assemble an empty track without panicking and
 terminate SysEx messages at the last packet only

---
 ops/assemble/assemble.go | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..0977cd5 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,39 +12,28 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+	continued := false
 
-		if message, ok := previous.Event.(*sysex.SysExMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
-				message.Single = true
-			}
-		}
-
-		if message, ok := previous.Event.(sysex.SysExMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+	for ix := len(mtrk.Events) - 1; ix >= 0; ix-- {
+		switch message := mtrk.Events[ix].Event.(type) {
+		case sysex.SysExMessage:
+			if !continued {
 				message.Single = true
 				mtrk.Events[ix].Event = message
 			}
-		}
-	}
 
-	for ix := range mtrk.Events[1:] {
-		previous := mtrk.Events[ix]
-		event := mtrk.Events[ix+1]
+			continued = false
 
-		if message, ok := previous.Event.(*sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(*sysex.SysExContinuationMessage); !ok {
-				message.End = true
-			}
-		}
-
-		if message, ok := previous.Event.(sysex.SysExContinuationMessage); ok {
-			if _, ok := event.Event.(sysex.SysExContinuationMessage); !ok {
+		case sysex.SysExContinuationMessage:
+			if !continued {
 				message.End = true
 				mtrk.Events[ix].Event = message
 			}
+
+			continued = true
+
+		case sysex.SysExEscapeMessage:
+			continued = false
 		}
 	}
 
-- 
2.43.0


From 215846370fff3d4e6a35572cf32c5913a3a3af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:51 +0000
Subject: [PATCH 14/55] fix: correct the manufacturer ID of real time SysEx
 messages (7F)

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 91890ff3410d7b9d10e77ec8bd1675bc75aff473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:19 +0000
Subject: [PATCH 15/55] fix: recognise the three byte manufacturer IDs of SysEx
 messages

---
 midi/events/sysex/message.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 60efabf..41f8126 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -54,9 +54,8 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes")
 	}
 
-	id := data[0:1]
+	id, d := split(data)
 	manufacturer := lib.LookupManufacturer(id)
-	d := data[1:]
 
 	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
@@ -101,9 +100,8 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 	} else if len(data) == 0 {
 		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
-		id := data[0:1]
+		id, d := split(data)
 		manufacturer := lib.LookupManufacturer(id)
-		d := data[1:]
 
 		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
@@ -190,3 +188,12 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 
 	return nil
 }
+
+// Splits the SysEx message data into the (1 or 3 byte) manufacturer ID and the message data proper.
+func split(data []byte) ([]byte, []byte) {
+	if len(data) > 2 && data[0] == 0x00 && data[1] < 0x80 && data[2] < 0x80 {
+		return data[0:3], data[3:]
+	}
+
+	return data[0:1], data[1:]
+}
-- 
2.43.0


From 4b4da561210f202b11e6db11c532e1ffceda0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:21 +0000
Subject: [PATCH 16/55] fix: encode the length of text and sequencer specific
 META events as a variable length quantity

---
 midi/events/meta/copyright.go          | 15 +++++++++------
 midi/events/meta/cue_point.go          | 15 +++++++++------
 midi/events/meta/device_name.go        | 15 +++++++++------
 midi/events/meta/instrument_name.go    | 15 +++++++++------
 midi/events/meta/lyric.go              | 15 +++++++++------
 midi/events/meta/marker.go             | 15 +++++++++------
 midi/events/meta/program_name.go       | 15 +++++++++------
 midi/events/meta/sequencer_specific.go | 17 ++++++++++-------
 midi/events/meta/text.go               | 15 +++++++++------
 9 files changed, 82 insertions(+), 55 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..4c0b35b 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,15 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	if data, err := lib.VLF(e.Copyright).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..98bc5ce 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,15 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	if data, err := lib.VLF(e.CuePoint).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..b9222c1 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,15 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	if data, err := lib.VLF(d.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(d.Status),
+			byte(d.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..66af390 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,15 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if data, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..8e3014e 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,15 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	if data, err := lib.VLF(l.Lyric).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(l.Status),
+			byte(l.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..08dbe81 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,15 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	if data, err := lib.VLF(m.Marker).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(m.Status),
+			byte(m.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..e146c69 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,15 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if data, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 3d53659..f3a3ad0 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -48,17 +48,20 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
-
+	b := []byte{}
 	b = append(b, e.Manufacturer.ID...)
 	b = append(b, e.Data...)
 
-	return b, nil
+	if data, err := lib.VLF(b).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..f8f85f6 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,15 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	if data, err := lib.VLF(e.Text).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From d722b3b0123748abd4f0a26907241c904f704ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:45 +0000
Subject: [PATCH 17/55] fix: encode pitch bend as two 7 bit values (as decoded)

---
 midi/events/midi/pitch_bend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..e3ba0b4 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
-- 
2.43.0


From 396bccdf2e48696772919f00e0a5bf322a7996f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 18/55] fix: use all 7 bits of the bank select controller
 values for the program bank

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 5d8e6e2..ae63afc 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -74,13 +74,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From 96e3c1910657f68470363f7f094f470cacd8ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:47 +0000
Subject: [PATCH 19/55] fix: reject time signature denominators that cannot be
 represented (or that hang the assembler)

---
 midi/events/meta/time_signature.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..f661cba 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -50,6 +43,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a value in the interval [0..7]", data[1])
+	}
+
 	denominator := uint8(1)
 	for i := uint8(0); i < data[1]; i++ {
 		denominator *= 2
@@ -65,6 +62,10 @@ func (t TimeSignature) String() string {
 }
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
+	if !isPowerOfTwo(t.Denominator) {
+		return nil, fmt.Errorf("invalid TimeSignature denominator (%v): expected a power of 2", t.Denominator)
+	}
+
 	d := 0
 	denominator := uint8(1)
 	for denominator < t.Denominator {
@@ -98,6 +99,8 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return err
 	} else if len(data) < 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
+	} else if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a value in the interval [0..7]", data[1])
 	} else {
 		numerator := data[0]
 		ticksPerClick := data[2]
@@ -126,6 +129,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if denominator, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if !isPowerOfTwo(uint8(denominator)) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v): expected a power of 2", denominator)
 	} else if ticks, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
@@ -182,9 +187,15 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if !isPowerOfTwo(t.Denominator) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v): expected a power of 2", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
 
 	return nil
 }
+
+func isPowerOfTwo(v uint8) bool {
+	return v != 0 && v&(v-1) == 0
+}
-- 
2.43.0


From 74986b2455340199a9d1598944ce6d2e310ca5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 20/55] fix: accept any number of 32nds per quarter in the text
 form of a time signature

---
 midi/events/meta/time_signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index f661cba..e84f328 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -118,7 +118,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
-- 
2.43.0


From 84828dce9e37eb067bc2342959a7d083ce0fd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:33 +0000
Subject: [PATCH 21/55] fix: assemble notes with negative octaves, honour the
 middle C convention and reject out of range notes

---
 midi/events/midi/note_off.go |  2 +-
 midi/events/midi/note_on.go  | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..aed03c5 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..7def6ba 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?-?[0-9]),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
@@ -234,8 +234,17 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
 	} else {
+		value := 12*(int(octave)+1) + note.Ord
+		if context.MiddleC == lib.C4 {
+			value += 12
+		}
+
+		if value < 0 || value > 127 {
+			return Note{}, fmt.Errorf("note out of range (%v)", s)
+		}
+
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From 7427a6843ff911def4c7076ce389d6f6ceeb2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:34 +0000
Subject: [PATCH 22/55] fix: reject out of range MIDI event values when
 assembling instead of panicking or writing an invalid file

---
 midi/events/midi/channel_pressure.go    | 2 ++
 midi/events/midi/controller.go          | 8 ++++++++
 midi/events/midi/note_off.go            | 4 ++++
 midi/events/midi/note_on.go             | 4 ++++
 midi/events/midi/pitch_bend.go          | 4 ++++
 midi/events/midi/polyphonic_pressure.go | 2 ++
 midi/events/midi/program_change.go      | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..7dcdfb4 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -97,8 +97,12 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if controller, err := strconv.ParseUint(match[3], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid Controller controller (%v)", controller)
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -139,6 +143,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid Controller controller (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index aed03c5..bfd5e04 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -220,6 +220,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7def6ba..1a92235 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index e3ba0b4..a976f4e 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -100,6 +100,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -136,6 +138,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 0x3fff {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 78b0ac7..b9930cd 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -136,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..1e3666f 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -94,6 +94,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -134,6 +136,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From 1994666258d1265672ee6e2c38c77088554d76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:34 +0000
Subject: [PATCH 23/55] fix: reject unknown key signatures and tempos that do
 not fit in 24 bits when assembling

---
 midi/events/meta/key_signature.go | 13 +++++++++++++
 midi/events/meta/tempo.go         |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..977093f 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -155,11 +155,13 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
+		ok := false
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				ok = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				ok = true
 				break
 			}
 		}
 
+		if !ok {
+			return fmt.Errorf("invalid KeySignature (%v %v)", match[2], match[3])
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
@@ -212,6 +219,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", t.KeyType)
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("Invalid major key signature (%d accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("Invalid minor key signature (%d accidentals)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..4ae5038 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -97,7 +97,7 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return fmt.Errorf("invalid Tempo event (%v)", text)
 	} else if delta, err := lib.ParseDelta(match[1]); err != nil {
 		return err
-	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
+	} else if tempo, err := strconv.ParseUint(match[2], 10, 24); err != nil {
 		return err
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
@@ -135,6 +135,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0x00ffffff {
+		return fmt.Errorf("Invalid tempo (%d): expected a value in the interval [0..16777215]", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
-- 
2.43.0


From f7dfec15fb8f22794d018161e3f1603e50554c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:35 +0000
Subject: [PATCH 24/55] fix: reject out of range SMPTE offsets when assembling
 instead of panicking

---
 midi/events/meta/smpte_offset.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..4e539d4 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -226,6 +226,14 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
+	} else if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
+	} else if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	} else if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	} else if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
 	} else {
@@ -279,6 +287,18 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", t.Hour)
+	} else if t.Minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", t.Minute)
+	} else if t.Second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", t.Second)
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%d): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Frames >= t.FrameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", t.Frames, t.FrameRate-1)
+	} else if t.FractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100]", t.FractionalFrames)
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
-- 
2.43.0


From 66da8532404f269f935c0eac05e574a9961d5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 25/55] fix: reject byte values greater than 255 in JSON data
 and manufacturer IDs

---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..a3ec6d4 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 0xff {
+			return fmt.Errorf("invalid byte value (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..74ba467 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 0xff {
+			return fmt.Errorf("invalid manufacturer ID byte (%v)", b)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From cc22813d1cec7bb90d09dfa686b704e8377656ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 26/55] fix: do not treat comments and events that mention MThd
 or MTrk as chunk headers

---
 ops/assemble/text.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..af68ad2 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -34,10 +34,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 	for _, chunk := range chunks {
 		for _, line := range chunk {
 			switch {
-			case strings.HasPrefix(line, "%%"):
-				// comment - ignore
-
-			case strings.Contains(line, "MThd"):
+			case isChunk(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +43,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isChunk(line, "MTrk"):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
@@ -101,8 +98,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +106,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isChunk(line, "MThd") || isChunk(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -135,7 +130,7 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 	for _, line := range chunk {
-		if strings.Contains(line, "MThd") {
+		if isChunk(line, "MThd") {
 			var format uint16
 			var division uint16
 
@@ -195,7 +190,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	var mtrk *midi.MTrk
 
 	for line := range lines {
-		if strings.Contains(line, "MTrk") {
+		if isChunk(line, "MTrk") {
 			if v, err := midi.NewMTrk(); err != nil {
 				return nil, err
 			} else {
@@ -226,3 +221,13 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	return fixups(mtrk)
 	// return mtrk, fmt.Errorf("missing EndOfTrack")
 }
+
+// Returns true if the line is the header line of an MThd or MTrk chunk i.e. it contains the chunk tag and
+// is neither a comment nor an event (that could, for instance, have the chunk tag as part of a text field).
+func isChunk(line string, tag string) bool {
+	if strings.HasPrefix(line, "%%") || regexp.MustCompile(`(?i)delta:[0-9]+`).MatchString(line) {
+		return false
+	}
+
+	return strings.Contains(line, tag)
+}
-- 
2.43.0


From b8880b22182802350c3794b72de4c1d997cb7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 27/55] fix: identify the event in a line of text from the tag
 following the delta (not from the event details)

---
 midi/events/text.go | 70 ++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..c144457 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -3,99 +3,109 @@ package events
 import (
 	"encoding"
 	"fmt"
-	"strings"
+	"regexp"
 
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
+// Matches the event tag, i.e. the first tag following the event delta (the event details may well include the
+// names of other events).
+var tags = regexp.MustCompile(`(?i:delta:[0-9]+).*?(SequenceNumber|Text|Copyright|TrackName|InstrumentName|Lyric|Marker|CuePoint|ProgramName|DeviceName|MIDIChannelPrefix|MIDIPort|Tempo|TimeSignature|KeySignature|SMPTEOffset|EndOfTrack|SequencerSpecificEvent|NoteOff|NoteOn|PolyphonicPressure|Controller|ProgramChange|ChannelPressure|PitchBend|SysExMessage|SysExContinuation|SysExEscape)`)
+
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
 
-	switch {
-	case strings.Contains(s, "SequenceNumber"):
+	tag := ""
+
+	if match := tags.FindStringSubmatch(s); match != nil {
+		tag = match[1]
+	}
+
+	switch tag {
+	case "SequenceNumber":
 		return unmarshalText[metaevent.SequenceNumber](e, text)
 
-	case strings.Contains(s, "Text"):
+	case "Text":
 		return unmarshalText[metaevent.Text](e, text)
 
-	case strings.Contains(s, "Copyright"):
+	case "Copyright":
 		return unmarshalText[metaevent.Copyright](e, text)
 
-	case strings.Contains(s, "TrackName"):
+	case "TrackName":
 		return unmarshalText[metaevent.TrackName](e, text)
 
-	case strings.Contains(s, "InstrumentName"):
+	case "InstrumentName":
 		return unmarshalText[metaevent.InstrumentName](e, text)
 
-	case strings.Contains(s, "Lyric"):
+	case "Lyric":
 		return unmarshalText[metaevent.Lyric](e, text)
 
-	case strings.Contains(s, "Marker"):
+	case "Marker":
 		return unmarshalText[metaevent.Marker](e, text)
 
-	case strings.Contains(s, "CuePoint"):
+	case "CuePoint":
 		return unmarshalText[metaevent.CuePoint](e, text)
 
-	case strings.Contains(s, "ProgramName"):
+	case "ProgramName":
 		return unmarshalText[metaevent.ProgramName](e, text)
 
-	case strings.Contains(s, "DeviceName"):
+	case "DeviceName":
 		return unmarshalText[metaevent.DeviceName](e, text)
 
-	case strings.Contains(s, "MIDIChannelPrefix"):
+	case "MIDIChannelPrefix":
 		return unmarshalText[metaevent.MIDIChannelPrefix](e, text)
 
-	case strings.Contains(s, "MIDIPort"):
+	case "MIDIPort":
 		return unmarshalText[metaevent.MIDIPort](e, text)
 
-	case strings.Contains(s, "Tempo"):
+	case "Tempo":
 		return unmarshalText[metaevent.Tempo](e, text)
 
-	case strings.Contains(s, "TimeSignature"):
+	case "TimeSignature":
 		return unmarshalText[metaevent.TimeSignature](e, text)
 
-	case strings.Contains(s, "KeySignature"):
+	case "KeySignature":
 		return unmarshalText[metaevent.KeySignature](e, text)
 
-	case strings.Contains(s, "SMPTEOffset"):
+	case "SMPTEOffset":
 		return unmarshalText[metaevent.SMPTEOffset](e, text)
 
-	case strings.Contains(s, "EndOfTrack"):
+	case "EndOfTrack":
 		return unmarshalText[metaevent.EndOfTrack](e, text)
 
-	case strings.Contains(s, "SequencerSpecificEvent"):
+	case "SequencerSpecificEvent":
 		return unmarshalText[metaevent.SequencerSpecificEvent](e, text)
 
-	case strings.Contains(s, "NoteOff"):
+	case "NoteOff":
 		return unmarshalText[midievent.NoteOff](e, text)
 
-	case strings.Contains(s, "NoteOn"):
+	case "NoteOn":
 		return unmarshalText[midievent.NoteOn](e, text)
 
-	case strings.Contains(s, "PolyphonicPressure"):
+	case "PolyphonicPressure":
 		return unmarshalText[midievent.PolyphonicPressure](e, text)
 
-	case strings.Contains(s, "Controller"):
+	case "Controller":
 		return unmarshalText[midievent.Controller](e, text)
 
-	case strings.Contains(s, "ProgramChange"):
+	case "ProgramChange":
 		return unmarshalText[midievent.ProgramChange](e, text)
 
-	case strings.Contains(s, "ChannelPressure"):
+	case "ChannelPressure":
 		return unmarshalText[midievent.ChannelPressure](e, text)
 
-	case strings.Contains(s, "PitchBend"):
+	case "PitchBend":
 		return unmarshalText[midievent.PitchBend](e, text)
 
-	case strings.Contains(s, "SysExMessage"):
+	case "SysExMessage":
 		return unmarshalText[sysex.SysExMessage](e, text)
 
-	case strings.Contains(s, "SysExContinuation"):
+	case "SysExContinuation":
 		return unmarshalText[sysex.SysExContinuationMessage](e, text)
 
-	case strings.Contains(s, "SysExEscape"):
+	case "SysExEscape":
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-- 
2.43.0


From d18481977ba502520d05e35a91f8c4574ae71c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:27 +0000
Subject: [PATCH 28/55] fix: use the correct default tempo and the elapsed
 ticks at each tempo when calculating note times

---
 ops/notes/notes.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..eebc8cc 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -116,16 +116,21 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
+	tick := uint64(0)
+	remainder := uint64(0)
 	at := time.Duration(0)
 
 	for i, e := range list {
-		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
-		at += delta
-
-		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
-			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
+		// NTS: uses the ticks since the previous event (rather than the event delta) because the event list
+		//      includes the tempo changes between the track events
+		dt := 1000*(e.tick-tick)*tempo + remainder
+		at += time.Duration(dt / uint64(ppqn))
+		remainder = dt % uint64(ppqn)
+		tick = e.tick
+
+		if remainder > 0 {
+			warnf("loss of precision converting from MIDI tick to physical time at tick %d", e.tick)
 		}
 
 		if v, ok := e.event.(metaevent.Tempo); ok {
-- 
2.43.0


From 87d33dd535b2d32fee4afd5ee69652c4995e42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:50 +0000
Subject: [PATCH 29/55] fix: do not panic extracting the notes of a MIDI file
 with no tracks or without metrical time

---
 ops/notes/notes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index eebc8cc..88e212d 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -61,6 +61,14 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
+	if smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("cannot calculate note times for a MIDI file without metrical time")
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From e57c692a51dd94f9efc74138500d76527b8849fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:51 +0000
Subject: [PATCH 30/55] fix: extract the notes of a format 0 MIDI file

---
 ops/notes/notes.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 88e212d..7b9910d 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -72,8 +72,13 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	// ... extract track notes (format 0 files have a single track for both tempo and notes)
+	tracks := smf.Tracks[1:]
+	if smf.MThd.Format == 0 {
+		tracks = smf.Tracks
+	}
+
+	for _, track := range tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
-- 
2.43.0


From 22e2cadcaf7284f6647caaec5aff05a8496c320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 31/55] fix: clamp transposed notes to the MIDI note range

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 7b9910d..2078dc7 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -290,8 +290,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From ea3b4494b8dff35ba0b34cfe9f1eb86efbe385ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 32/55] fix: list the notes ended by an EndOfTrack in a
 deterministic order

---
 ops/notes/notes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 2078dc7..87ad23e 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 	"sort"
 	"time"
 
@@ -250,7 +252,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					for _, k := range slices.Sorted(maps.Keys(list)) {
+						p := list[k]
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
@@ -276,7 +279,8 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 	for i := 0; i < 16; i++ {
 		list := pending[lib.Channel(i)]
 		if len(list) > 0 {
-			for k, n := range list {
+			for _, k := range slices.Sorted(maps.Keys(list)) {
+				n := list[k]
 				warnf("Incomplete note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, n.tick, n.at)
 			}
 		}
-- 
2.43.0


From 4ce1a19975d0fa8961a444d53106467546537d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 33/55] fix: report errors writing the list of notes

---
 ops/notes/notes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 87ad23e..9a292d7 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -51,13 +51,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -307,7 +305,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -346,8 +346,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From dae7c9274fdf941ed74906cb24966778ff2cad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:48 +0000
Subject: [PATCH 34/55] fix: find the tempo, time signature and end of track
 events of the click track (and do not panic if there are none)

---
 ops/click/click.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..ac43c8f 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -41,8 +41,12 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
 
+	if len(smf.Tracks) == 0 {
+		return nil
+	}
+
 	for _, e := range smf.Tracks[0].Events {
-		if _, ok := e.Event.(*metaevent.Tempo); ok {
+		if _, ok := e.Event.(metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
 		}
 	}
@@ -57,13 +61,13 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		}
 
 		for _, e := range track.Events {
-			if _, ok := e.Event.(*metaevent.TimeSignature); ok {
+			if _, ok := e.Event.(metaevent.TimeSignature); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
 			}
 
-			if _, ok := e.Event.(*metaevent.EndOfTrack); ok {
+			if _, ok := e.Event.(metaevent.EndOfTrack); ok {
 				tick := e.Tick()
 				list := eventlist[tick]
 				eventlist[tick] = append(list, e)
@@ -97,7 +101,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				event := e.Event
 
 				// ... tempo changes
-				if v, ok := event.(*metaevent.Tempo); ok {
+				if v, ok := event.(metaevent.Tempo); ok {
 					tempo = uint(math.Round(60.0 * 1000000.0 / float64(v.Tempo)))
 
 					debugf("%-14v  %-5v bar:%-3d", "TEMPO", v, bar)
@@ -109,7 +113,7 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 				}
 
 				// ... time signature changes
-				if v, ok := event.(*metaevent.TimeSignature); ok {
+				if v, ok := event.(metaevent.TimeSignature); ok {
 					debugf("%-14v  %-5v bar:%-3d", "TIME SIGNATURE", v, bar)
 
 					cluck := clucks[bar]
@@ -118,10 +122,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 					cluck.TimeSignature = fmt.Sprintf("%v", v)
 					clucks[bar] = cluck
 
-					timeSignature = v
+					timeSignature = &v
 				}
 
-				if _, ok := event.(*metaevent.EndOfTrack); ok {
+				if _, ok := event.(metaevent.EndOfTrack); ok {
 					debugf("%-14v  %-5v bar:%-3d", "END OF TRACK", "", bar)
 
 					cluck := clucks[bar]
-- 
2.43.0


From 376f9f2aa1d0eab80a7557a36bbc1ee56a61269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:49 +0000
Subject: [PATCH 35/55] fix: do not panic validating a format 1 MIDI file
 without tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From c3294ac5235dd40dc7c9996d8feeaec296c87b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:18 +0000
Subject: [PATCH 36/55] fix: write the assembled MIDI to the default output
 file if the --out option is not specified

---
 commands/assemble.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..e75b376 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,11 +69,10 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
 	}
 
-	return nil
+	return os.WriteFile(out, midi, 0660)
 }
-- 
2.43.0


From 9a91714c5332d209093cdd31c642a0ddd75a124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 37/55] fix: create the output directory for split files with
 usable permissions

---
 commands/disassemble.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..2b2f70a 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -115,7 +115,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4d4fce10482199d9a965a8f5de8598dca3d76538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:21 +0000
Subject: [PATCH 38/55] fix: do not hang transposing a key signature down by a
 large number of semitones

---
 midi/lib/scales.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/midi/lib/scales.go b/midi/lib/scales.go
index 65aad60..aa7e49f 100644
--- a/midi/lib/scales.go
+++ b/midi/lib/scales.go
@@ -118,12 +118,7 @@ loop:
 func transpose(note Note, steps int) Note {
 	for ix, n := range SCALE {
 		if n.Ord == note.Ord {
-			ix = (ix + steps)
-			for ix < 0 {
-				ix += 12
-			}
-
-			ix %= len(SCALE)
+			ix = (ix + steps%len(SCALE) + len(SCALE)) % len(SCALE)
 
 			return SCALE[ix]
 		}
-- 
2.43.0


From 284c7028842c2a179f617df0f6f56a5c5e24b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:23 +0000
Subject: [PATCH 39/55] fix: assemble text and JSON sources with SMPTE time
 divisions

---
 ops/assemble/json.go | 20 +++++++++++++++-----
 ops/assemble/text.go | 10 +++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..1a68e7f 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -16,9 +16,11 @@ type JSONAssembler struct {
 }
 
 type mthd struct {
-	Tag    *string `json:"tag,omitempty"`
-	Format *uint16 `json:"format,omitempty"`
-	PPQN   *uint16 `json:"PPQN,omitempty"`
+	Tag           *string `json:"tag,omitempty"`
+	Format        *uint16 `json:"format,omitempty"`
+	PPQN          *uint16 `json:"PPQN,omitempty"`
+	Division      *uint16 `json:"division,omitempty"`
+	SMPTETimeCode bool    `json:"SMPTETimeCode,omitempty"`
 }
 
 type mtrk struct {
@@ -88,10 +90,18 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 		format = *h.Format
 	}
 
-	if h.PPQN == nil {
+	if h.SMPTETimeCode && h.Division == nil {
+		return nil, fmt.Errorf("missing 'division' field in header")
+	} else if h.SMPTETimeCode && *h.Division&0x8000 != 0x8000 {
+		return nil, fmt.Errorf("invalid SMPTE 'division' (%v) in header", *h.Division)
+	} else if !h.SMPTETimeCode && h.PPQN == nil {
 		return nil, fmt.Errorf("missing 'metrical-time' field in header")
 	} else {
-		division = *h.PPQN
+		if h.SMPTETimeCode {
+			division = *h.Division
+		} else {
+			division = *h.PPQN
+		}
 
 		if division&0x8000 == 0x8000 {
 			fps := division & 0xff00 >> 8
diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index af68ad2..e0b12bf 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -142,7 +142,15 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 				format = uint16(v)
 			}
 
-			if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`SMPTE:(24|25|29|30)\s*fps,\s*([0-9]+)\s*sub-frames`).FindStringSubmatch(line); match != nil {
+				fps := map[string]uint16{"24": 0xe8, "25": 0xe7, "29": 0xe3, "30": 0xe2}[match[1]]
+
+				if v, err := strconv.ParseUint(match[2], 10, 8); err != nil {
+					return nil, err
+				} else {
+					division = fps<<8 | uint16(v)
+				}
+			} else if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing 'metrical-time' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From d8ff0193ab42a87b02aa6e593d833562d51228ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:02 +0000
Subject: [PATCH 40/55] fix: reject META event types with the high bit set
 instead of reading them as another type

---
 midi/events/meta/metaevent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 4f31ff1..aab4847 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -75,7 +75,7 @@ func Parse(tick uint64, bytes ...byte) (any, error) {
 	} else {
 		delta = lib.Delta(v)
 		status = remaining[0]
-		eventType = lib.MetaEventType(remaining[1] & 0x7F)
+		eventType = lib.MetaEventType(remaining[1])
 		data = u
 	}
 
-- 
2.43.0


From 840f802c7366885d3b5ef93977ca99a598f8b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:04 +0000
Subject: [PATCH 41/55] fix: reject an EndOfTrack with data instead of silently
 discarding the data

---
 midi/events/meta/end_of_track.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..57eceea 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -26,6 +26,10 @@ func MakeEndOfTrack(tick uint64, delta lib.Delta, bytes ...byte) EndOfTrack {
 }
 
 func (e *EndOfTrack) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
+	}
+
 	*e = MakeEndOfTrack(tick, delta, bytes...)
 
 	return nil
-- 
2.43.0


From 40943b958e2154052e1eb538d7b1100e1561125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:16 +0000
Subject: [PATCH 42/55] fix: assemble text sources with lines longer than 64KB

---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index e0b12bf..d2ab393 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -71,6 +72,8 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt)
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From aa15d112c0b048ba4723f5311a659fd7bb471652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:02 +0000
Subject: [PATCH 43/55] fix: report errors writing the TSV table

writeTable ignored them, so 'tsv' exited with status 0 having written nothing (e.g. on a full disk).
---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From ec45d57298b29bafefda95ae28ed042e1da1c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:04 +0000
Subject: [PATCH 44/55] fix: report errors writing the files of a split
 disassembly

They were printed (with swapped arguments) but the command exited with status 0.
---
 commands/disassemble.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 2b2f70a..8efa54e 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -129,7 +129,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	}
 
 	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
+		w.Close()
+		return fmt.Errorf("error extracting MThd information (%v)", err)
 	}
 
 	w.Close()
@@ -143,7 +144,8 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		}
 
 		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
+			w.Close()
+			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
 		}
 
 		w.Close()
-- 
2.43.0


From 9c5a938d0f75ebb281fedb584ad0904a06d1ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:19 +0000
Subject: [PATCH 45/55] =?UTF-8?q?fix:=20assemble=20B=E2=99=AF=20and=20C?=
 =?UTF-8?q?=E2=99=AD=20in=20the=20right=20octave?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 midi/events/midi/note_on.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 1a92235..6bee785 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -239,6 +239,15 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else {
 		value := 12*(int(octave)+1) + note.Ord
+
+		// ... B♯ belongs to the octave of the B below it, C♭ to the octave of the C above it
+		switch note {
+		case lib.B_SHARP:
+			value += 12
+		case lib.C_FLAT:
+			value -= 12
+		}
+
 		if context.MiddleC == lib.C4 {
 			value += 12
 		}
-- 
2.43.0


From 70262d69143e0946ec478e7663be54b6b4cf3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 46/55] fix: click counts bars from the last time signature, by
 its numerator and denominator

---
 ops/click/click.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index ac43c8f..0790e72 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -84,17 +84,15 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		})
 
 		var tempo uint = 120
-		var beat float64 = 0.0
 		var bar uint = 1
-		var last float64 = 0.0
+		var first uint = 1    // bar of the last time signature
+		var origin uint64 = 0 // tick of the last time signature
 		var timeSignature *metaevent.TimeSignature
 
 		for _, tick := range ticks {
-			beat = float64(tick) / float64(ppqn)
-			if timeSignature != nil {
-				bar += uint((beat - last) / float64(timeSignature.Numerator))
+			if timeSignature != nil && timeSignature.Numerator > 0 && ppqn > 0 {
+				bar = first + uint((tick-origin)*uint64(timeSignature.Denominator)/(4*ppqn*uint64(timeSignature.Numerator)))
 			}
-			last = beat
 
 			list := eventlist[tick]
 			for _, e := range list {
@@ -123,6 +121,8 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 					clucks[bar] = cluck
 
 					timeSignature = &v
+					first = bar
+					origin = tick
 				}
 
 				if _, ok := event.(metaevent.EndOfTrack); ok {
-- 
2.43.0


From d6dd8f39b02722814425ab60aab90734f71c7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:47 +0000
Subject: [PATCH 47/55] fix: click lists the entries of a bar in order

---
 ops/click/click.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index 0790e72..cc40d1d 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -141,9 +141,18 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 		break
 	}
 
+	bars := []uint{}
+	for bar := range clucks {
+		bars = append(bars, bar)
+	}
+
+	sort.Slice(bars, func(i, j int) bool {
+		return bars[i] < bars[j]
+	})
+
 	list := []Cluck{}
-	for _, v := range clucks {
-		list = append(list, v)
+	for _, bar := range bars {
+		list = append(list, clucks[bar])
 	}
 
 	sort.SliceStable(list, func(i, j int) bool {
-- 
2.43.0


From a506d8ff13cd7ce1d90d2a511093f346b027d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:49 +0000
Subject: [PATCH 48/55] fix: report errors writing the click track

---
 ops/click/click.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ops/click/click.go b/ops/click/click.go
index cc40d1d..8c11207 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -161,7 +161,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range list {
-		fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bar %-4v  tempo:%-3v  time-signature %v\n", v.Bar, v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 
 	spans := []Span{}
@@ -188,7 +190,9 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 
 	fmt.Println()
 	for _, v := range spans {
-		fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature)
+		if _, err := fmt.Fprintf(x.Writer, "bars %-7v  tempo:%-3v  time-signature %v\n", fmt.Sprintf("%v:%v", v.Start, v.End), v.Tempo, v.TimeSignature); err != nil {
+			return err
+		}
 	}
 	fmt.Println()
 
-- 
2.43.0


From dd14cdf05f34f86404793402bd4a8c62479872ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 49/55] fix: refuse an MThd 'format' that merely starts with 0,
 1 or 2

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index d2ab393..126df0b 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -137,7 +137,7 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 			var format uint16
 			var division uint16
 
-			if match := regexp.MustCompile(`format:(0|1|2)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`format:(0|1|2)(?:[^0-9]|$)`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing or invalid 'format' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From 5a0cb7fba6223eb503028538897f42c120260bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:00 +0000
Subject: [PATCH 50/55] fix: stop the text assembler's line reader when a track
 is refused

---
 ops/assemble/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 126df0b..5b93294 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -190,7 +190,7 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
 
-- 
2.43.0


From 517f59b4b5a9c6a9e35c7055cb4dbb585d742f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 51/55] fix: a single event is read from bytes that are not a
 legal event

Event.UnmarshalBinary accepted meta types with the top bit set, fixed size
meta events of the wrong size, voice messages with data bytes above 127 and
quantities of more than four bytes.
---
 midi/events/binary.go                   | 4 ++++
 midi/events/meta/end_of_track.go        | 4 ++++
 midi/events/meta/key_signature.go       | 2 +-
 midi/events/meta/metaevent.go           | 4 ++++
 midi/events/meta/midi_channel_prefix.go | 2 +-
 midi/events/meta/midi_port.go           | 2 +-
 midi/events/meta/smpte_offset.go        | 2 +-
 midi/events/meta/tempo.go               | 2 +-
 midi/events/meta/time_signature.go      | 2 +-
 midi/events/midi/controller.go          | 4 ++++
 midi/events/midi/midievent.go           | 4 ++++
 midi/events/midi/note_off.go            | 2 ++
 midi/events/midi/note_on.go             | 2 ++
 midi/events/midi/pitch_bend.go          | 2 ++
 midi/events/midi/program_change.go      | 2 ++
 midi/events/sysex/sysex.go              | 4 ++++
 midi/lib/event.go                       | 2 +-
 17 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/midi/events/binary.go b/midi/events/binary.go
index d05cac9..e0c8a72 100644
--- a/midi/events/binary.go
+++ b/midi/events/binary.go
@@ -130,6 +130,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i == 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 57eceea..007454d 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -52,6 +52,10 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if data, err := vlf(remaining[2:]); err != nil {
+		return err
+	} else if len(data) != 0 {
+		return fmt.Errorf("Invalid EndOfTrack length (%d): expected '0'", len(data))
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 977093f..b48f71b 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -115,7 +115,7 @@ func (e *KeySignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagKeySignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) != 2 {
 		return fmt.Errorf("Invalid KeySignature data")
 	} else {
 		var accidentals = int8(data[0])
diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index aab4847..be46c57 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -167,6 +167,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i == 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/meta/midi_channel_prefix.go b/midi/events/meta/midi_channel_prefix.go
index f04ddf7..5d58d4e 100644
--- a/midi/events/meta/midi_channel_prefix.go
+++ b/midi/events/meta/midi_channel_prefix.go
@@ -66,7 +66,7 @@ func (e *MIDIChannelPrefix) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIChannelPrefix, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel data")
 	} else if channel := data[0]; channel > 15 {
 		return fmt.Errorf("Invalid MIDIChannelPrefix channel (%d): expected a value in the interval [0..15]", channel)
diff --git a/midi/events/meta/midi_port.go b/midi/events/meta/midi_port.go
index bc6c52d..b7ecf82 100644
--- a/midi/events/meta/midi_port.go
+++ b/midi/events/meta/midi_port.go
@@ -68,7 +68,7 @@ func (e *MIDIPort) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagMIDIPort, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 1 {
+	} else if len(data) != 1 {
 		return fmt.Errorf("Invalid MIDIPort channel data")
 	} else if port := data[0]; port > 127 {
 		return fmt.Errorf("Invalid MIDIPort port (%d): expected a value in the interval [0..127]", port)
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index 4e539d4..783d3e1 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -153,7 +153,7 @@ func (e *SMPTEOffset) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSMPTEOffset, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 5 {
+	} else if len(data) != 5 {
 		return fmt.Errorf("Invalid SMPTE offset data")
 	} else {
 		rr := (data[0] >> 5) & 0x03
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 4ae5038..38e00b4 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -75,7 +75,7 @@ func (e *Tempo) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTempo, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 3 {
+	} else if len(data) != 3 {
 		return fmt.Errorf("Invalid Tempo data")
 	} else {
 		tempo := uint32(data[0])
diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index e84f328..d3b4715 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -97,7 +97,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) != 4 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else if data[1] > 7 {
 		return fmt.Errorf("Invalid TimeSignature denominator (%d): expected a value in the interval [0..7]", data[1])
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 7dcdfb4..54af063 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -77,6 +77,10 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid Controller controller (%v)", data[0])
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid Controller value (%v)", data[1])
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index d3785bc..50ec68a 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -123,6 +123,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i == 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index bfd5e04..4f93618 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -139,6 +139,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 6bee785..fa72d8c 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -89,6 +89,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index a976f4e..73c67e5 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -78,6 +78,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid PitchBend data")
 	} else if pressure := data[0]; pressure > 127 {
 		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend bend (%v)", data[1])
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 1e3666f..d38641c 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -71,6 +71,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 5771cf5..63da8ba 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -111,6 +111,10 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 	vlq := uint32(0)
 
 	for i, b := range bytes {
+		if i == 4 {
+			break
+		}
+
 		vlq <<= 7
 		vlq += uint32(b & 0x7f)
 
diff --git a/midi/lib/event.go b/midi/lib/event.go
index 6ac4b56..87ac726 100644
--- a/midi/lib/event.go
+++ b/midi/lib/event.go
@@ -38,7 +38,7 @@ func (t MetaEventType) String() string {
 }
 
 func (t MetaEventType) Equals(b byte) bool {
-	return (b & 0x7f) == byte(t)
+	return b == byte(t)
 }
 
 type MidiEventType byte
-- 
2.43.0


From 67438fb50fe599aa1c160d9540e74fa862e5dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 52/55] fix: a notes command that fails empties the output file
 it was given

---
 commands/notes.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/commands/notes.go b/commands/notes.go
index c53d3c1..9a57371 100644
--- a/commands/notes.go
+++ b/commands/notes.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -66,23 +67,23 @@ func (n notes) Execute(flagset *flag.FlagSet) error {
 }
 
 func (n notes) execute(smf *midi.SMF) error {
-	w := os.Stdout
-	err := error(nil)
-
-	if n.out != "" {
-		w, err = os.Create(n.out)
-		if err != nil {
-			return err
-		}
-
-		defer w.Close()
-	}
+	var b bytes.Buffer
 
 	op := impl.Notes{
 		JSON:      n.json,
 		Transpose: n.transpose,
-		Writer:    w,
+		Writer:    &b,
+	}
+
+	if err := op.Execute(smf); err != nil {
+		return err
+	}
+
+	if n.out != "" {
+		return os.WriteFile(n.out, b.Bytes(), 0666)
 	}
 
-	return op.Execute(smf)
+	_, err := os.Stdout.Write(b.Bytes())
+
+	return err
 }
-- 
2.43.0


From 0ed4f649d91c5181b30e597b5ae73ef3a856699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:14 +0000
Subject: [PATCH 53/55] fix: a delimiter that cannot be used empties the TSV
 output file

---
 commands/tsv.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index 70706c2..0f15243 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -70,18 +70,22 @@ func (t tsv) Execute(flagset *flag.FlagSet) error {
 	} else {
 		if t.out == "" {
 			return writeTable(records, os.Stdout)
-		} else if f, err := os.Create(t.out); err != nil {
-			return err
 		} else {
-			defer f.Close()
+			var f bytes.Buffer
 
 			if t.tabular {
-				return writeTable(records, f)
+				err = writeTable(records, &f)
 			} else if t.delimiter == "" || t.delimiter == `\t` {
-				return writeTSV(header, records, '\t', f)
+				err = writeTSV(header, records, '\t', &f)
 			} else {
-				return writeTSV(header, records, []rune(t.delimiter)[0], f)
+				err = writeTSV(header, records, []rune(t.delimiter)[0], &f)
+			}
+
+			if err != nil {
+				return err
 			}
+
+			return os.WriteFile(t.out, f.Bytes(), 0666)
 		}
 	}
 }
-- 
2.43.0


From ba7b138e832f2203e9e5cfdc30e1fe596d3b3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:15 +0000
Subject: [PATCH 54/55] fix: a template that fails leaves part of a disassembly
 behind

---
 commands/disassemble.go | 67 ++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8efa54e..192c689 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -92,63 +93,61 @@ func (p disassemble) Execute(flagset *flag.FlagSet) error {
 }
 
 func (p disassemble) write(op *impl.Disassemble, smf *midi.SMF) error {
-	out := os.Stdout
+	var b bytes.Buffer
 
-	if p.out != "" {
-		w, err := os.Create(p.out)
-		if err != nil {
-			return err
-		}
-
-		defer w.Close()
+	if err := op.Print(smf, "document", &b); err != nil {
+		return err
+	}
 
-		out = w
+	if p.out != "" {
+		return os.WriteFile(p.out, b.Bytes(), 0666)
 	}
 
-	return op.Print(smf, "document", out)
+	_, err := os.Stdout.Write(b.Bytes())
+
+	return err
 }
 
 func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string) error {
-	// Get base filename and Create out directory
+	// Get base filename
 	base := strings.TrimSuffix(path.Base(file), path.Ext(file))
 	dir := path.Dir(file)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, 0770)
-		if err != nil {
-			return err
-		}
 	}
 
 	// Print MThd
-	filename := fmt.Sprintf("%s.MThd", base)
-	w, err := os.Create(path.Join(dir, filename))
-	if err != nil {
-		return err
-	}
-
-	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		w.Close()
+	var mthd bytes.Buffer
+	if err := op.Print(smf.MThd, "MThd", &mthd); err != nil {
 		return fmt.Errorf("error extracting MThd information (%v)", err)
 	}
 
-	w.Close()
-
 	// Print tracks
-	for _, mtrk := range smf.Tracks {
-		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
-		w, err := os.Create(path.Join(dir, filename))
-		if err != nil {
-			return err
+	tracks := make([]bytes.Buffer, len(smf.Tracks))
+	for i, mtrk := range smf.Tracks {
+		if err := op.Print(mtrk, "MTrk", &tracks[i]); err != nil {
+			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
 		}
+	}
 
-		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			w.Close()
-			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
+	// Create out directory and write files
+	if p.out != "" {
+		if err := os.MkdirAll(dir, 0770); err != nil {
+			return err
 		}
+	}
+
+	filename := fmt.Sprintf("%s.MThd", base)
+	if err := os.WriteFile(path.Join(dir, filename), mthd.Bytes(), 0666); err != nil {
+		return err
+	}
 
-		w.Close()
+	for i, mtrk := range smf.Tracks {
+		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
+		if err := os.WriteFile(path.Join(dir, filename), tracks[i].Bytes(), 0666); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From e2408cd81a6eeb006764f2783a74480a6d5503db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:29 +0000
Subject: [PATCH 55/55] fix: printing bytes takes time that grows with the
 square of their number

---
 midi/lib/hex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index a3ec6d4..6b51393 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -20,12 +20,12 @@ func ParseHex(s string) (Hex, error) {
 }
 
 func (bytes Hex) String() string {
-	s := ""
+	var s strings.Builder
 	for _, b := range bytes {
-		s += fmt.Sprintf("%02X ", b)
+		fmt.Fprintf(&s, "%02X ", b)
 	}
 
-	return strings.TrimSpace(s)
+	return strings.TrimSpace(s.String())
 }
 
 func (h Hex) MarshalBinary() ([]byte, error) {
-- 
2.43.0

