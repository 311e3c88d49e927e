From 5bae47f3be5910c99afee8391098571ae5f5a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 01/21] fix: bf.SetNbits refuses every bit count that would
 change the byte count

---
 src/bf/bitfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..6d10573 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -162,7 +162,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits < 0 || nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From 8994583e633d4c6d9dc26eb23ffe16b2afe70f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 02/21] fix: encode request messages with their payload instead
 of overwriting the length prefix

---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 1bf9129a678a22103c817845db8d1601ae5a761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 03/21] fix: decode piece messages, and do not dereference the
 nil message of a bad one

---
 src/p2p/message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..4e6ed93 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -207,8 +207,8 @@ func Decode(data []byte) (DecodeResult, error) {
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
-		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		msg, err = DecodeMsgPiece(payload, msglen-1)
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
-- 
2.43.0


From c89610b9db47359c0c77f5316607b9fd5e5103df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 04/21] fix: message lengths near 2^32 no longer overflow and
 panic in p2p.Decode

---
 src/p2p/bitfield.go | 2 +-
 src/p2p/message.go  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..1289312 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -63,7 +63,7 @@ func DecodeMsgBitfield(fullmsg []byte, msglen uint32) (*MsgBitfield, error) {
 	//	return nil, fmt.Errorf("message length (%v) does not match fullmsg length (%v)", msglen, len(fullmsg))
 	//}
 
-	nbytes := int64(4 + msglen)
+	nbytes := 4 + int64(msglen)
 	nbits := int64(msglen-1) * 8
 
 	// We need to make a copy of the data since we do not want to be
diff --git a/src/p2p/message.go b/src/p2p/message.go
index 4e6ed93..5fc4989 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,13 +165,13 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
 
-	// msglen includes length byte, -1 to exclude it
-	payload := data[PayloadStart : PayloadStart+msglen-1]
+	// msglen includes the type byte
+	payload := data[PayloadStart : uint64(MsgLengthPrefixLen)+uint64(msglen)]
 
 	var msg Message
 	var n uint64
-- 
2.43.0


From 76495265333f55f1cb2f2b2c4819d1cd9cdc6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 05/21] fix: an empty bitfield message no longer makes
 p2p.DecodeAll loop forever

---
 src/p2p/message.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 5fc4989..70770b1 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
-- 
2.43.0


From beaefaae2a7d7646ae3899ce5a1d79688f305948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 06/21] fix: size options that do not fit in 64 bits are errors

---
 src/utils/opts.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..2c23da2 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -99,14 +100,12 @@ func parseSizeUnits(str string) (int64, error) {
 	}
 
 	i := 0
-	mult := int64(1)
+	strb := strings.Builder{}
 	if str[0] == '-' {
-		mult = -1
+		strb.WriteByte(str[0])
 		i++
 	}
 
-	strb := strings.Builder{}
-
 	// Read the numbers
 	for ; i < lenstr; i++ {
 		if str[i] >= '0' && str[i] <= '9' {
@@ -120,7 +119,7 @@ func parseSizeUnits(str string) (int64, error) {
 	if e != nil {
 		return 0, e
 	}
-	val := int64(v) * mult
+	val := int64(v)
 
 	// No letter, assume units BYTES
 	if i == lenstr {
@@ -133,19 +132,25 @@ func parseSizeUnits(str string) (int64, error) {
 		return 0, errors.New("invalid format")
 	}
 
+	mult := int64(1)
 	lastChar := str[i]
 	switch lastChar {
 	case 'B':
-		return val, nil
+		mult = 1
 	case 'K':
-		return val * 1024, nil
+		mult = 1024
 	case 'M':
-		return val * 1024 * 1024, nil
+		mult = 1024 * 1024
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		mult = 1024 * 1024 * 1024
 	default:
 		return 0, errors.New("invalid units")
 	}
+
+	if val > math.MaxInt64/mult || val < math.MinInt64/mult {
+		return 0, errors.New("value out of range")
+	}
+	return val * mult, nil
 }
 
 func (o *Opts) Input() string {
-- 
2.43.0


From 5c53f0cba35577466381986c79c11e80b8a77913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 07/21] fix: bracket IPv6 addresses so that peers with one can
 be dialled

---
 src/peer/info.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..6a57611 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,14 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
+	// JoinHostPort puts the brackets that IPv6 addresses need
+	addr := net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port))
 
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: addr,
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 024a1147977bae1d96d341d15aa1b3782541df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 08/21] fix: an unsigned lookup of a negative integer is an
 error

---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7d59a60 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: fmt.Sprintf("%T (%v)", v, v),
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From b3a3e51bbafc4338168de01ad68358607741ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 09/21] fix: advance the offset when generating the block
 requests of a piece

---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 1e029ef5b6a4eb5e69cf6d1f4aec706f4367b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 10/21] fix: Set.Items no longer starts with as many zero
 values as the set has elements

---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 23a8a621f60d7894d97a5225c29323b15f7e58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 11/21] fix: refuse info dictionaries with impossible piece or
 file lengths, hash counts or empty paths

---
 src/torrent/filesd/entrybase.go |  4 ++++
 src/torrent/info/info.go        | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..a23d7b3 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -70,6 +70,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry contains an empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..2f9a900 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -160,10 +161,24 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	// The peer protocol addresses the bytes of a piece with 32 bits
+	if pieceLen <= 0 || pieceLen > math.MaxUint32 {
+		return nil, errors.New("invalid piece length")
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
-		length += fentry.Length()
+		flen := fentry.Length()
+		if flen < 0 || flen > math.MaxInt64-pieceLen-length {
+			return nil, errors.New("invalid file length")
+		}
+		length += flen
+	}
+
+	// There must be exactly one hash per piece
+	if int64(len(hashes)/20) != (length+pieceLen-1)/pieceLen {
+		return nil, errors.New("number of hashes does not match the total length")
 	}
 
 	flist := filesd.MakeFileList(files, pieceLen)
-- 
2.43.0


From fb22a5fbacd840922f24e6f085618e88502477b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:39 +0000
Subject: [PATCH 12/21] fix: refuse names and path components that leave the
 working directory

---
 src/torrent/filesd/entrybase.go | 15 ++++++++++++++-
 src/torrent/info/info.go        |  7 +++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index a23d7b3..133aafe 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -3,6 +3,7 @@ package filesd
 import (
 	"errors"
 	"fmt"
+	"os"
 	"strings"
 
 	"gotor/bencode"
@@ -51,6 +52,15 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// ValidPathPart reports whether part can be one component of a path below
+// another directory: it names something in that directory and nothing else.
+func ValidPathPart(part string) bool {
+	if part == "" || part == "." || part == ".." {
+		return false
+	}
+	return strings.IndexByte(part, '/') < 0 && strings.IndexByte(part, os.PathSeparator) < 0
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -80,7 +90,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 		for _, fPathEntry := range fPathList {
 			pathPiece, ok := fPathEntry.(string)
 			if !ok {
-				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
+				return nil, fmt.Errorf("file entry contains invalid path [%v]", fPathEntry)
+			}
+			if !ValidPathPart(pathPiece) {
+				return nil, fmt.Errorf("file entry contains invalid path [%v]", pathPiece)
 			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 2f9a900..c381c50 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -215,6 +215,13 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	// The name is the name of the file, or of the directory of the files
+	if !filesd.ValidPathPart(name) {
+		return nil, &FileMetaError{
+			msg: fmt.Sprintf("invalid name [%v]", name),
+		}
+	}
+
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 87a3b3ecdd242786561f5542f33453296ffa783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 13/21] fix: do not decode strings from beyond the end of the
 data

---
 src/bencode/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..2aa5887 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -150,6 +150,10 @@ func (dc *decoder) decodeString() (string, error) {
 		return "", err
 	}
 
+	if uint64(lenVal) > uint64(len(dc.data))-dc.curs {
+		return "", &DecoderError{"read end of data before completion"}
+	}
+
 	str := string(dc.data[dc.curs : dc.curs+uint64(lenVal)])
 	dc.curs += uint64(lenVal)
 
-- 
2.43.0


From 5f0826febd5c078a6fd12ae47d9b97acf3554b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 14/21] fix: refuse minus zero and accept the smallest integer
 when decoding

---
 src/bencode/decode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 2aa5887..ba892f3 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -170,16 +170,18 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt = "-"
 		dc.curs++
 	}
 
 	// Should not have leading 0s, unless value is 0
 	if dc.curByte() == '0' {
+		if strInt != "" {
+			return 0, &DecoderError{"bad int (minus zero) at byte " + strconv.FormatUint(dc.curs, 10)}
+		}
 		strInt += string(dc.curByte())
 		dc.curs++
 		if dc.curByte() != 'e' {
@@ -205,7 +207,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From 15e2d6eef9cd26e8e03875b99d08bbbe81b7e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 15/21] fix: limit how deep decoded values may be nested

---
 src/bencode/decode.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index ba892f3..4732147 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,12 +57,18 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if dc.depth >= maxDepth {
+		return nil, &DecoderError{"nested too deeply"}
+	}
+
 	dc.curs++
+	dc.depth++
 	dict := make(map[string]interface{})
 
 	for {
 		if dc.curByte() == 'e' {
 			dc.curs++
+			dc.depth--
 			break
 		}
 
@@ -98,12 +104,18 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if dc.depth >= maxDepth {
+		return nil, &DecoderError{"nested too deeply"}
+	}
+
 	dc.curs++
+	dc.depth++
 	var list List
 
 	for {
 		if dc.curByte() == 'e' {
 			dc.curs++
+			dc.depth--
 			break
 		}
 
@@ -213,9 +225,14 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth is how deep lists and dictionaries may be nested: the stack of the
+// decoder must not grow with the input.
+const maxDepth = 10000
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int // Number of lists and dictionaries around the cursor
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From 70907f14e24be09f5c22113270f0ebd4029f67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 16/21] fix: refuse dictionary peers with an invalid address or
 port

---
 src/tracker/tracker.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..b4ef00d 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -240,11 +241,18 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
+		if port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer port [%v]", port)}
+		}
 		id, err := peerDict.GetString("peer id")
 		if err != nil {
 			return nil, err
 		}
-		peerList = append(peerList, peer.MakePeer(id, net.ParseIP(ip), uint16(port)))
+		addr := net.ParseIP(ip)
+		if addr == nil {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer ip [%v]", ip)}
+		}
+		peerList = append(peerList, peer.MakePeer(id, addr, uint16(port)))
 	}
 	return peerList, nil
 }
-- 
2.43.0


From 88ba972e75040d5764e6da29af33af27e675eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 17/21] fix: announce with the right parameters or report an
 unusable announce URL

---
 src/tracker/tracker.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index b4ef00d..dacf231 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -7,7 +7,6 @@ import (
 	"math"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -76,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -84,18 +86,23 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
+
+	// The announce URL may have parameters of its own, which must not hide ours
 	query := req.URL.Query()
-	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
-	query.Add("port", fmt.Sprintf("%v", port))
-	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
-	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-	query.Add("left", fmt.Sprintf("%v", stats.Left()))
-	query.Add("compact", "1") // For compact peer list (BEP_0023)
+	query.Set("info_hash", tor.Infohash())
+	query.Set("peer_id", peerId)
+	query.Set("port", fmt.Sprintf("%v", port))
+	query.Set("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
+	query.Set("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
+	query.Set("left", fmt.Sprintf("%v", stats.Left()))
+	query.Set("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From 7b10985048785f3ab8cd6007bd4a8ebc95d584eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 18/21] fix: fail to load a torrent whose info dictionary
 cannot be encoded

---
 src/torrent/torrent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..adb86f3 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,7 +97,10 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
+	enc, err := bencode.Encode(infodict)
+	if err != nil {
+		return nil, err
+	}
 	tor.infohash = utils.SHA1(enc)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
-- 
2.43.0


From e327b352a237f649070cbd1bfdb6262e2aa065a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 19/21] fix: refuse to write a piece whose data does not have
 the piece's length

---
 src/torrent/fileio/fileio.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 38eedcc..b8cd126 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -169,6 +169,14 @@ func (fio *FileIO) WritePiece(index int64, data []byte) (int64, error) {
 		return 0, e
 	}
 
+	pieceLen := int64(0)
+	for _, ploc := range plocs {
+		pieceLen += ploc.Loc.ReadAmnt
+	}
+	if int64(len(data)) != pieceLen {
+		return 0, errors.New("data is not as long as the piece, refusing write")
+	}
+
 	knownHash := fio.torInfo.PieceHash(index)
 
 	if utils.SHA1(data) != knownHash {
-- 
2.43.0


From e4d63636dde9a5180c63de90586351f61865e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 20/21] fix: do not erase a file that could not be opened

---
 src/utils/futils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..16e5878 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,8 +67,12 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
-	// Create new file
+	// Create new file, but only if there is none: anything else that keeps
+	// us from opening the file must not erase it
 	if e != nil {
+		if !os.IsNotExist(e) {
+			return nil, e
+		}
 		fp, e = CreateZeroFilledFile(fpath, length)
 		if e != nil {
 			return nil, e
-- 
2.43.0


From e92bd73ac3358595cd9f21ee0e806736125a77ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 21/21] fix: refuse requests for pieces or bytes we do not have

---
 src/swarm/msghandler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..1fc5636 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -59,12 +59,17 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
-	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+	if idx < s.Bf.Nbits() && s.Bf.Get(idx) {
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
-		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
+		// Ignore requests for anything outside of the piece
+		end := int64(reqMsg.Begin()) + int64(reqMsg.ReqLen())
+		if end > n {
+			return nil
+		}
+		subdata := ph.buf[reqMsg.Begin():end]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
 		if e != nil {
-- 
2.43.0

