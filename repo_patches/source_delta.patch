From 9c5cd47e607bcfe5ecfcc2962f8088a6b8f3bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:36 +0000
Subject: [PATCH 01/35] fix: treat a doubled 0x7e flag as the start of a frame
 instead of an empty frame

---
 internal/protocol/frame_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..e4bdeb1 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -54,6 +54,10 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if len(buf) == 1 {
+				// 连续的标识位，视为新的起始位，避免后续帧错位
+				continue
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
-- 
2.43.0


From 91b5536833725725ba5b0d8ae8557cefdae45579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:38 +0000
Subject: [PATCH 02/35] fix: refuse to encode a message whose body does not fit
 the 10-bit length field

---
 internal/protocol/model/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..8277cfb 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) {
+		return nil, errors.Wrapf(ErrEncodeMsg, "body length %d is too long", len(pkt))
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
-- 
2.43.0


From 57876309a83bc0d3d4db47b1259bfe782685f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:40 +0000
Subject: [PATCH 03/35] fix: encode latitude type in bit 2 and longitude type
 in bit 3 of the status word

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..280b475 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -196,8 +196,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 02f72b63cf03507c53a9c35a81c8f471b52b1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:42 +0000
Subject: [PATCH 04/35] fix: set the version of generated headers so that 2019
 headers get their protocol version byte

---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From 791baab6db8d79668b6b1bee178c8c34a22d635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:44 +0000
Subject: [PATCH 05/35] fix: record the detected 2011 version of a registration
 message

---
 internal/protocol/model/msg_0100.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0100.go b/internal/protocol/model/msg_0100.go
index cbeff1c..8cd4d16 100644
--- a/internal/protocol/model/msg_0100.go
+++ b/internal/protocol/model/msg_0100.go
@@ -43,7 +43,7 @@ func (m *Msg0100) Decode(packet *PacketData) error {
 			modeLen = 20
 		} else {
 			modeLen = 8
-			ver = &[]VersionType{Version2011}[0]
+			*ver = Version2011
 		}
 	} else {
 		return ErrDecodeMsg
-- 
2.43.0


From 1af654526884b4f442d40148ce5f285ed9eb431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:46 +0000
Subject: [PATCH 06/35] fix: keep IMEI and software version of an
 authentication message within their fixed width

---
 internal/protocol/model/msg_0102.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index 2d50696..f970620 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -24,7 +24,7 @@ func (m *Msg0102) Decode(packet *PacketData) error {
 	} else if ver == Version2019 {
 		m.AuthCodeLen = hex.ReadByte(pkt, &idx)
 		m.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))
-		m.IMEI = hex.ReadString(pkt, &idx, 15)
+		m.IMEI = strings.TrimRight(hex.ReadString(pkt, &idx, 15), "\x00")
 		m.SoftwareVersion = strings.TrimRight(hex.ReadString(pkt, &idx, 20), "\x00")
 	}
 	return nil
@@ -44,12 +44,18 @@ func (m *Msg0102) Encode() (pkt []byte, err error) {
 		var fillByte byte // '\x00'
 		im := []byte(m.IMEI)
 		toFillLen := 15 - len(m.IMEI)
+		if toFillLen < 0 {
+			im = im[:15]
+		}
 		for i := 0; i < toFillLen; i++ {
 			im = append(im, fillByte)
 		}
 		pkt = append(pkt, im...)
 		sv := []byte(m.SoftwareVersion)
 		toFillLen = 20 - len(m.SoftwareVersion)
+		if toFillLen < 0 {
+			sv = sv[:20]
+		}
 		for i := 0; i < toFillLen; i++ {
 			sv = append(sv, fillByte)
 		}
-- 
2.43.0


From 88b244c433ca2a042cb34ad7417c4a4a7742784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 07/35] fix: draw serial numbers with a single atomic step so
 that they stay distinct at the wrap

---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..6266180 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1)) // 超过65535后从0开始循环
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From d0bb2c1c2d0b3a695a44ef81a382ae34118274eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:50 +0000
Subject: [PATCH 08/35] fix: keep the bytes already written when a text cannot
 be converted to GBK

---
 internal/codec/hex/hex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/codec/hex/hex.go b/internal/codec/hex/hex.go
index 87273f9..9b79850 100644
--- a/internal/codec/hex/hex.go
+++ b/internal/codec/hex/hex.go
@@ -170,7 +170,7 @@ func ReadGBK(pkt []byte, idx *int, n int) string {
 func WriteGBK(pkt []byte, str string) []byte {
 	gbk, err := GBK.UTF82GBK([]byte(str))
 	if err != nil {
-		return []byte{}
+		return pkt
 	}
 	return append(pkt, gbk...)
 }
-- 
2.43.0


From 113e289bf7caaec3e62d704b8f0f3d15e3510b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:52 +0000
Subject: [PATCH 09/35] fix: handle an empty media list

---
 internal/protocol/model/msg_1205.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/msg_1205.go b/internal/protocol/model/msg_1205.go
index eb237d4..e187689 100644
--- a/internal/protocol/model/msg_1205.go
+++ b/internal/protocol/model/msg_1205.go
@@ -19,14 +19,18 @@ func (m *Msg1205) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	m.AnswerSerialNumber = hex.ReadWord(pkt, &idx)
 	m.MediaCount = hex.ReadDoubleWord(pkt, &idx)
-	m.DeviceMedia.Decode(pkt[idx:])
+	if m.MediaCount > 0 {
+		m.DeviceMedia.Decode(pkt[idx:])
+	}
 	return nil
 }
 
 func (m *Msg1205) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteWord(pkt, m.AnswerSerialNumber)
 	pkt = hex.WriteDoubleWord(pkt, m.MediaCount)
-	pkt = hex.WriteBytes(pkt, m.DeviceMedia.Encode())
+	if m.MediaCount > 0 {
+		pkt = hex.WriteBytes(pkt, m.DeviceMedia.Encode())
+	}
 
 	pkt, err = writeHeader(m, pkt)
 	return pkt, err
-- 
2.43.0


From 14a78c387494b13cd1c0ad35f6d4a7200ef98407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:54 +0000
Subject: [PATCH 10/35] fix: skip unsupported terminal parameters when decoding
 instead of panicking

---
 internal/protocol/model/device_params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..c48491b 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -29,6 +29,9 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 	for i := 0; i < int(cnt); i++ {
 		param := &ParamData{}
 		err := param.Decode(pkt, &idx)
+		if errors.Is(err, ErrParamIDNotSupportted) {
+			continue // skip this param
+		}
 		if err != nil {
 			return err
 		}
@@ -86,6 +89,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		*idx += int(p.ParamLen)
+		return ErrParamIDNotSupportted
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From 9ea2ab25e89f07bf3b33e66771eb5bdb7c793f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:56 +0000
Subject: [PATCH 11/35] fix: emit the number of parameters actually encoded

---
 internal/protocol/model/device_params.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index c48491b..134ba60 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -42,7 +42,7 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	pkt = hex.WriteByte(pkt, 0) // 实际写入的参数个数，最后回填
 	for _, arg := range p.Params {
 		paramBytes, err := arg.Encode()
 		if err != nil {
@@ -51,6 +51,7 @@ func (p *DeviceParams) Encode() (pkt []byte, err error) {
 			continue
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
+		pkt[0]++
 	}
 	return pkt, nil
 }
-- 
2.43.0


From 125a470dc7fb629efd07edc0dd934ec48818013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:58 +0000
Subject: [PATCH 12/35] fix: keep raw byte parameters intact instead of
 treating them as BCD numbers

---
 internal/protocol/model/device_params.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 134ba60..e2f35c3 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -3,6 +3,7 @@ package model
 import (
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/pkg/errors"
 	"github.com/rs/zerolog/log"
@@ -165,12 +166,14 @@ var (
 	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
 	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
-	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
-	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
-	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK        = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	decodeBytes      = func(b []byte, idx *int, paramLen int) any {
+		return strings.ToUpper(hex.Byte2Str(hex.ReadBytes(b, idx, paramLen)))
+	} // transform bytes to hex string
+	encodeBytes  = func(a any) (pkt []byte) { return hex.WriteBytes(pkt, hex.Str2Byte(a.(string))) } // transform hex string to bytes
+	decodeString = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
+	encodeString = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
+	decodeGBK    = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
+	encodeGBK    = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
 )
 
 var argTable = map[uint32]*paramFn{
-- 
2.43.0


From c0825bb5c40a37849d2dcd8df95d5998bc1f88cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:43 +0000
Subject: [PATCH 13/35] fix: reassemble fragmented messages instead of
 panicking on the first fragment

---
 internal/storage/segment_cache.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..292b4f8 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -35,11 +35,16 @@ func CacheSegment(seg *model.Segment) bool {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	if !ok || seg.SegNo == 1 { // 首个分包，重新开始
+		s = seg
+		cache.cacheByKey[key] = s
+	} else {
+		s.Merge(seg)
 	}
-	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return false
+	}
+	delete(cache.cacheByKey, key)
+	seg.Data = s.Data // 返回合并后的完整数据
+	return true
 }
-- 
2.43.0


From 6f62aee50d710e0827ed336a4a82d6a067ad132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:45 +0000
Subject: [PATCH 14/35] fix: describe a reassembled message by its own length
 and answer it unfragmented

---
 internal/protocol/packet_codec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..1c40bd5 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -71,6 +71,13 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 		pd.SegCompleted = storage.CacheSegment(seg)
 		// 分包接收完成
 		pd.Body = seg.Data
+		if pd.SegCompleted {
+			// 合并后是一个完整消息，消息头按不分包处理
+			attr := pd.Header.Attr
+			attr.BodyLength = uint16(len(pd.Body))
+			attr.PacketFragmented, attr.PacketFragmentedDesc = 0, model.PacketFragmentedFalse
+			pd.Header.Frag = nil
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
-- 
2.43.0


From f1b06cdb798cab46253ae81b441187c3bce1e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:47 +0000
Subject: [PATCH 15/35] fix: do not acknowledge a fragment on a session that is
 gone

---
 internal/protocol/msg_processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..06956c1 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -220,6 +220,9 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
 	session, err := storage.GetSession(device.SessionID)
+	if err != nil {
+		return nil, errors.Wrapf(err, "Fail to find session, phoneNumber=%s", phone)
+	}
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
-- 
2.43.0


From 05dd00a613b5f1de1ab7f57c9a6ad7c69938a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:50 +0000
Subject: [PATCH 16/35] fix: stop the keepalive check when the device is gone
 instead of dereferencing nil

---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From b8744f34dcd558bc8b7b22bb72fc8a79a912ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:52 +0000
Subject: [PATCH 17/35] fix: serve the latest ring entry also when the writer
 has wrapped to slot 0

---
 pkg/container/ring_buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..ff6c6d9 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,7 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From fb9754415382d007ab26ff42461c92e949ba65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:54 +0000
Subject: [PATCH 18/35] fix: count every location report as contact, not only
 those with ACC off

---
 internal/protocol/msg_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 06956c1..ad23bc6 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -365,9 +365,9 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 
 	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
 		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
 	}
+	device.LastestComTime = time.Now()
+	cache.CacheDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
-- 
2.43.0


From beff54c5e26a4f768029e3f14c50cead23dd5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:57 +0000
Subject: [PATCH 19/35] fix: list devices and count sessions under the cache
 lock

---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From fbf21ec7a579bd8e0c327e32bf0c2b7f988d2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:59 +0000
Subject: [PATCH 20/35] fix: check and store a registration under one lock so
 that concurrent ones cannot both succeed

---
 internal/protocol/msg_processor.go | 11 +++++------
 internal/storage/device_cache.go   | 12 ++++++++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index ad23bc6..e1ccfec 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -273,23 +273,22 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 	cache := storage.GetDeviceCache()
 	// 校验注册逻辑
 	out := data.Outgoing.(*model.Msg8100)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+	device := model.NewDevice(in, session)
+	plateUsed, phoneUsed := cache.RegisterDevice(device)
 	// 车辆已被注册
-	if cache.HasPlate(in.PlateNumber) {
+	if plateUsed {
 		out.Result = model.ResCarAlreadyRegister
 		return nil
 	}
 	// 终端已被注册
-	if cache.HasPhone(in.Header.PhoneNumber) {
+	if phoneUsed {
 		out.Result = model.ResDeviceAlreadyRegister
 		return nil
 	}
 
-	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
-	device := model.NewDevice(in, session)
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
-	cache.CacheDevice(device)
-
 	timer := NewKeepaliveTimer()
 	timer.Register(device.Phone)
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 5ec9784..34b7c65 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -76,6 +76,18 @@ func (cache *DeviceCache) CacheDevice(d *model.Device) {
 	cache.cacheDevice(d)
 }
 
+// 注册设备，仅当车牌和手机号都未被占用时才缓存。校验和缓存在同一把锁内，避免并发注册重复
+func (cache *DeviceCache) RegisterDevice(d *model.Device) (plateUsed, phoneUsed bool) {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	_, plateUsed = cache.cacheByPlate[d.Plate]
+	_, phoneUsed = cache.cacheByPhone[d.Phone]
+	if !plateUsed && !phoneUsed {
+		cache.cacheDevice(d)
+	}
+	return plateUsed, phoneUsed
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From 3eb3b95abbc448383bcc45e5d127802bbf903089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:02 +0000
Subject: [PATCH 21/35] fix: do not bring back a device that was removed while
 its message was processed

---
 internal/protocol/keepalive.go     | 2 +-
 internal/protocol/msg_processor.go | 8 ++++----
 internal/storage/device_cache.go   | 9 +++++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..9f6284d 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -75,7 +75,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if d.ShouleTurnOffline() {
 		// 保活失效
 		d.Status = model.DeviceStatusOffline
-		cache.CacheDevice(d)
+		cache.UpdateDevice(d)
 		log.Debug().Str("device", devicePhone).Msg("Turn offline for device keepalive expired")
 	} else if d.ShouldClear() {
 		d.Conn.Close()
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index e1ccfec..fb8ac72 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -244,7 +244,7 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 	}
 
 	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
+	cache.UpdateDevice(device)
 
 	return nil
 }
@@ -321,7 +321,7 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		device.AuthCode = in.AuthCode
 		device.IMEI = in.IMEI
 		device.SoftwareVersion = in.SoftwareVersion
-		cache.CacheDevice(device)
+		cache.UpdateDevice(device)
 	}
 
 	return nil
@@ -366,7 +366,7 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 		device.Status = model.DeviceStatusSleeping
 	}
 	device.LastestComTime = time.Now()
-	cache.CacheDevice(device)
+	cache.UpdateDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
@@ -392,7 +392,7 @@ func processMsg8001(_ context.Context, data *model.ProcessData) error {
 		// 仅在未注册成功时执行一次
 		device.Status = model.DeviceStatusOnline
 		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
+		cache.UpdateDevice(device)
 	}
 
 	return nil
diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index 34b7c65..753ac04 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -88,6 +88,15 @@ func (cache *DeviceCache) RegisterDevice(d *model.Device) (plateUsed, phoneUsed
 	return plateUsed, phoneUsed
 }
 
+// 更新设备，仅当设备仍在缓存中时才生效，避免并发注销后又被写回
+func (cache *DeviceCache) UpdateDevice(d *model.Device) {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	if cache.cacheByPhone[d.Phone] == d {
+		cache.cacheDevice(d)
+	}
+}
+
 func (cache *DeviceCache) delDevice(carPlate, phone *string) {
 	var d *model.Device
 	var ok bool
-- 
2.43.0


From fffa6a9fe92994cbf0ee4098339c1574bf017fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:04 +0000
Subject: [PATCH 22/35] fix: end the accept loop when the listener is closed

---
 internal/server/tcp_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..099015f 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -45,6 +45,9 @@ func (serv *TCPServer) Start() {
 		conn, err := serv.listener.Accept()
 		if err != nil {
 			log.Error().Err(err).Msg("Fail to do listener accept")
+			if errors.Is(err, net.ErrClosed) {
+				return // listener已停止
+			}
 		} else {
 			session := serv.accept(conn)
 			routines.GoSafe(func() { serv.serve(session) })
-- 
2.43.0


From abdd263fbf63b59f21b5f3d6b990ef32bddfbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:06 +0000
Subject: [PATCH 23/35] fix: answer the server time query 0x0004

---
 internal/protocol/msg_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index fb8ac72..9afc43e 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -58,6 +58,11 @@ func initProcessOption() processOptions {
 		},
 		process: processMsg0003,
 	}
+	options[0x0004] = &action{ // 查询服务器时间
+		genData: func() *model.ProcessData {
+			return &model.ProcessData{Incoming: &model.Msg0004{}, Outgoing: &model.Msg8004{}}
+		},
+	}
 	options[0x0100] = &action{ // 注册
 		genData: func() *model.ProcessData {
 			return &model.ProcessData{Incoming: &model.Msg0100{}, Outgoing: &model.Msg8100{}}
-- 
2.43.0


From d5024915a06b674a71b1a5a5a441398a3087b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:08 +0000
Subject: [PATCH 24/35] fix: stop handling a parameter request after reporting
 its error

---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From 2a2daeebea0b450145937e6465728ff7be2423d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:10 +0000
Subject: [PATCH 25/35] fix: report a missing location instead of an empty
 success

---
 internal/api/api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index e214ef7..aaa77cf 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -42,6 +42,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		}
 		gis, err := geoCache.GetGeoLatestByPhone(phone)
 		if err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
 		res["gis"] = gis
-- 
2.43.0


From fc2cb1d3ebef76c7cdb3505a26caf30c72339420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:48 +0000
Subject: [PATCH 26/35] fix: give the simulated channel list parameter its real
 length so that a parameter query does not panic

---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9afc43e..89b2419 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -481,7 +481,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From cee048dbbcd49a3fbb6694810841235a4572636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:29 +0000
Subject: [PATCH 27/35] fix: do not drop a newer session from the same remote
 address when the old connection ends

---
 internal/server/tcp_server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 099015f..d82f37a 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -79,7 +79,9 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	if cur, err := storage.GetSession(session.ID); err == nil && cur == session {
+		storage.ClearSession(session.ID) // 同一地址的新连接可能已经替换了session，不能误删
+	}
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
-- 
2.43.0


From 686bb4c5ca6de43bc7bfddb2a4f5ec1f7d6d1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 28/35] fix: do not read message fields beyond the end of a
 truncated body

---
 internal/protocol/packet_codec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index 1c40bd5..62a7354 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -70,7 +70,7 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 		seg := model.NewSegment(pd)
 		pd.SegCompleted = storage.CacheSegment(seg)
 		// 分包接收完成
-		pd.Body = seg.Data
+		pd.Body = seg.Data[:len(seg.Data):len(seg.Data)]
 		if pd.SegCompleted {
 			// 合并后是一个完整消息，消息头按不分包处理
 			attr := pd.Header.Attr
@@ -166,7 +166,7 @@ func (pc *JT808PacketCodec) verify(pkt []byte) ([]byte, error) {
 		actual ^= v
 	}
 	if expected == actual {
-		return pkt[:n-1], nil
+		return pkt[: n-1 : n-1], nil // 限制容量，消息体过短时不能读到校验码及之后的内容
 	}
 	log.Debug().Msgf("verify expect=%v, but actual=%v", expected, actual)
 	return nil, ErrVerifyFailed
-- 
2.43.0


From 82a8e6d9e93fc8724590067bc2bf528069ec61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:54 +0000
Subject: [PATCH 29/35] fix: take a fragmented message for whole only when all
 its fragments arrived in order

---
 internal/storage/segment_cache.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 292b4f8..bf39bde 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -35,11 +35,13 @@ func CacheSegment(seg *model.Segment) bool {
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok || seg.SegNo == 1 { // 首个分包，重新开始
+	if seg.SegNo == 1 { // 首个分包，重新开始
 		s = seg
 		cache.cacheByKey[key] = s
-	} else {
+	} else if ok && seg.SegTotal == s.SegTotal && seg.SegNo == s.SegNo+1 {
 		s.Merge(seg)
+	} else {
+		return false // 分包缺失、重复或乱序，不能当作完整消息
 	}
 	if !s.IsComplete() {
 		return false
-- 
2.43.0


From fcf222d52492cb07ca5780950aebfc9ef601a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:24 +0000
Subject: [PATCH 30/35] fix: drop the fragments of an unregistered phone when
 they are refused

---
 internal/protocol/msg_processor.go |  1 +
 internal/storage/segment_cache.go  | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 89b2419..4a46c09 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -222,6 +222,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	device, err := cache.GetDeviceByPhone(phone)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
 	if errors.Is(err, storage.ErrDeviceNotFound) {
+		storage.ClearSegment(phone, pkt.Header.MsgID) // 未注册设备的分包不能留到注册之后
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
 	session, err := storage.GetSession(device.SessionID)
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index bf39bde..3a8b113 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -25,12 +25,24 @@ func getSegmentCache() *SegmentCache {
 	return segmentCacheSingleton
 }
 
-func CacheSegment(seg *model.Segment) bool {
+func segmentKey(phone string, msgID uint16) string {
 	b := new(strings.Builder)
-	b.WriteString(seg.Phone)
+	b.WriteString(phone)
 	b.WriteString("/")
-	b.WriteRune(rune(seg.MsgID))
-	key := b.String()
+	b.WriteRune(rune(msgID))
+	return b.String()
+}
+
+// 清理未接收完的分包
+func ClearSegment(phone string, msgID uint16) {
+	cache := getSegmentCache()
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
+	delete(cache.cacheByKey, segmentKey(phone, msgID))
+}
+
+func CacheSegment(seg *model.Segment) bool {
+	key := segmentKey(seg.Phone, seg.MsgID)
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
-- 
2.43.0


From fe4cf80e870902772d549551bdad63003def01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:17 +0000
Subject: [PATCH 31/35] fix: the platform does not act on platform-only
 messages a terminal sends

---
 internal/protocol/model/session.go | 1 +
 internal/protocol/msg_processor.go | 4 ++++
 internal/server/tcp_server.go      | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 6266180..e9bf91d 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -31,6 +31,7 @@ type (
 type Session struct {
 	ID           string // remote addr
 	Conn         net.Conn
+	Accepted     bool // 平台侧accept的连接，对端是终端
 	serialNumber uint32
 }
 
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 4a46c09..a531701 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -148,6 +148,10 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	if _, ok := mp.options[msgID]; !ok {
 		return nil, ErrMsgIDNotSupportted
 	}
+	// 只由平台下发的消息，终端不应上报，否则可绕过鉴权改变状态
+	if session, ok := ctx.Value(model.SessionCtxKey{}).(*model.Session); ok && session != nil && session.Accepted && msgID >= 0x8000 {
+		return nil, ErrMsgIDNotSupportted
+	}
 
 	// process segment packet
 	if pkt.Header.IsFragmented() && !pkt.SegCompleted {
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index d82f37a..75c8de1 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -66,6 +66,8 @@ func (serv *TCPServer) accept(conn net.Conn) *model.Session {
 	session := &model.Session{
 		Conn: conn,
 		ID:   remoteAddr, // using remote addr default
+
+		Accepted: true,
 	}
 	// serv.sessions[remoteAddr] = session
 	storage.StoreSession(session)
-- 
2.43.0


From 5c6e783daf352685ec9e0a75b6d31b0768cd9a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:11 +0000
Subject: [PATCH 32/35] fix: remove the location history of a device together
 with its registration

---
 internal/protocol/msg_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index a531701..4b2b820 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -271,6 +271,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	timer := NewKeepaliveTimer()
 	timer.Cancel(device.Phone)
 	// 清楚缓存
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	cache.DelDeviceByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
@@ -323,6 +324,7 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		timer := NewKeepaliveTimer()
 		timer.Cancel(device.Phone)
 		// 删除设备缓存
+		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 		cache.DelDeviceByPhone(device.Phone)
 	} else {
 		// 鉴权通过
-- 
2.43.0


From c6f50a70520ff7be8677daaa17ec1a2a37b15a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:58 +0000
Subject: [PATCH 33/35] fix: spell the FATAL log level so that configuring it
 is not taken for DEBUG

---
 internal/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9a6aa0b..d35b55f 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -16,7 +16,7 @@ import (
 type LogLevelType string
 
 const (
-	LogLevelFatal LogLevelType = "FATAl"
+	LogLevelFatal LogLevelType = "FATAL"
 	LogLevelError LogLevelType = "ERROR"
 	LogLevelWarn  LogLevelType = "WARN"
 	LogLevelInfo  LogLevelType = "INFO"
@@ -189,7 +189,7 @@ func (c *Config) ParseLogConf() *logger.Config {
 		logLevel = int8(zerolog.WarnLevel)
 	case "ERROR":
 		logLevel = int8(zerolog.ErrorLevel)
-	case "FATAl":
+	case "FATAL":
 		logLevel = int8(zerolog.FatalLevel)
 	}
 	return &logger.Config{
-- 
2.43.0


From 95402b5615acaccd79aa6cadc9189cdd450f3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:41 +0000
Subject: [PATCH 34/35] fix: read the whole of a merged authentication longer
 than the header's length field

---
 internal/protocol/model/msg_0102.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/msg_0102.go b/internal/protocol/model/msg_0102.go
index f970620..06e02db 100644
--- a/internal/protocol/model/msg_0102.go
+++ b/internal/protocol/model/msg_0102.go
@@ -20,7 +20,11 @@ func (m *Msg0102) Decode(packet *PacketData) error {
 	pkt, idx := packet.Body, 0
 	ver := m.Header.Attr.VersionDesc
 	if ver == Version2013 {
-		m.AuthCode = hex.ReadString(pkt, &idx, int(m.Header.Attr.BodyLength)-idx)
+		codeLen := int(m.Header.Attr.BodyLength)
+		if packet.SegCompleted { // 合并后的消息体可能超出消息头长度字段的范围
+			codeLen = len(pkt)
+		}
+		m.AuthCode = hex.ReadString(pkt, &idx, codeLen)
 	} else if ver == Version2019 {
 		m.AuthCodeLen = hex.ReadByte(pkt, &idx)
 		m.AuthCode = hex.ReadString(pkt, &idx, int(m.AuthCodeLen))
-- 
2.43.0


From b84ea0a0167f76464277550635c30389afca4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:01 +0000
Subject: [PATCH 35/35] fix: drop the location history of an earlier
 registration when a phone registers again

A location report handled at the same time as the removal of its device
(deregistration, failed authentication, expiry) could write its location
after the history was deleted; the next registration of the phone then
showed the old location.
---
 internal/protocol/msg_processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 4b2b820..709b907 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -298,6 +298,9 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 		return nil
 	}
 
+	// 注销或清理时并发处理中的位置上报可能留下旧位置，新注册的设备不能看到
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
+
 	out.AuthCode = genAuthCode(device) // 设置鉴权码
 
 	timer := NewKeepaliveTimer()
-- 
2.43.0

