From fb72ee8c59feb7946328379c7fd5936712307673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:40 +0000
Subject: [PATCH 01/50] fix: read fixed-length fields completely or fail

---
 pkg/binary/unmarshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..f2c8e20 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(io.LimitReader(d.r, len), out); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 707ff68d9f8ecbaf4ee6c93dac9c58c629478f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 02/50] fix: keep bytes that a reader returns together with EOF

---
 pkg/binary/unmarshaler.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index f2c8e20..9d8f5e9 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -117,22 +117,10 @@ func (d Decoder) Decode(v interface{}) error {
 func (d Decoder) ReadUntilEOF() (bytes.Buffer, error) {
 	var b bytes.Buffer
 
-	for {
-		buf := make([]byte, 1)
-		n, err := d.r.Read(buf)
+	// ReadFrom keeps the bytes a reader returns together with io.EOF
+	_, err := b.ReadFrom(d.r)
 
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
-
-			return b, err
-		}
-
-		b.Write(buf[:n])
-	}
-
-	return b, nil
+	return b, err
 }
 
 func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
-- 
2.43.0


From 6839c0f391c6f3e345d67fffb334f6909f654a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 03/50] fix: do not allocate announced lengths before the bytes
 arrive

---
 pkg/binary/unmarshaler.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 9d8f5e9..b32b070 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -134,9 +134,18 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// the length comes from the peer: grow with the bytes actually received
+	// instead of allocating it up front
+	var buf bytes.Buffer
+	n, err := buf.ReadFrom(io.LimitReader(d.r, len))
+	if err != nil {
+		return nil, err
+	}
+	if n < len {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	return buf.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-- 
2.43.0


From 772596d27b021535eaccb20d43bd5d15301274ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 04/50] fix: encode variable-length integers passed by value
 with their prefix

---
 pkg/protocol/varint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From 41d0bf1b3ff0c61d98658c48fe6d8b4ff6902119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:47 +0000
Subject: [PATCH 05/50] fix: variable-length integers use the shortest form for
 every source type

---
 pkg/protocol/varint.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index 978cd94..0c66796 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -25,6 +25,11 @@ func newFromInt(i int) VarInt {
 		return VarInt{Value: uint8(0)}
 	}
 
+	return newFromUint64(uint64(i))
+}
+
+// newFromUint64 picks the shortest form for the value.
+func newFromUint64(i uint64) VarInt {
 	if i <= 0xFC {
 		return VarInt{Value: uint8(i)}
 	}
@@ -37,22 +42,21 @@ func newFromInt(i int) VarInt {
 		return VarInt{Value: uint32(i)}
 	}
 
-	return VarInt{Value: uint64(i)}
+	return VarInt{Value: i}
 }
 
 func NewVarint(u interface{}) (VarInt, error) {
 	switch v := u.(type) {
 	case int:
 		return newFromInt(v), nil
-	case uint8, uint16, uint32:
-		return VarInt{Value: v}, nil
+	case uint8:
+		return newFromUint64(uint64(v)), nil
+	case uint16:
+		return newFromUint64(uint64(v)), nil
+	case uint32:
+		return newFromUint64(uint64(v)), nil
 	case uint64:
-		var err error = nil
-		if v > math.MaxInt64 {
-			v = math.MaxInt64
-		}
-
-		return VarInt{Value: v}, err
+		return newFromUint64(v), nil
 	}
 
 	return VarInt{Value: nil}, errInvalidVarIntValue
-- 
2.43.0


From 55feb47bb08c3f550fc2077a7fa61f6ac0a06963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 06/50] fix: encode and decode the length of strings as
 variable-length integer

---
 pkg/protocol/msg.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..3363ddd 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -92,29 +92,39 @@ func (mh MessageHeader) HasValidMagic() bool {
 	return false
 }
 
-// VarStr ...
+// VarStr is a string preceded by its length as variable length integer.
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	d := binary.NewDecoder(r)
+
+	if err := d.Decode(&v.Length); err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+
+	length, err := v.Length.Int()
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	v.String = ""
+	if length == 0 {
+		return nil
+	}
+
+	stringBuf, err := d.DecodeBytes(int64(length))
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
-- 
2.43.0


From 0a3592db51b17d34560b9486aa5ba1939264ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:50 +0000
Subject: [PATCH 07/50] fix: decode network addresses into the value and read
 them completely

---
 pkg/protocol/netaddr.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..b44d3c7 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -1,7 +1,6 @@
 package protocol
 
 import (
-	"errors"
 	"fmt"
 	"io"
 )
@@ -32,16 +31,12 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-	if len(data) != 16 {
-		return errors.New("invalid IPv4: wrong length")
-	}
-
 	ipv4 := data[12:16]
 	copy(ip[:], ipv4)
 
-- 
2.43.0


From 7318f5aea9699f0aecb76b4d259d125174f899d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 08/50] fix: decode block locators into the value and bound
 their number

---
 pkg/protocol/blocklocator.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..f3851fd 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -44,7 +45,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -57,7 +58,11 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	hashes := make([][32]byte, numberOfBlockLocatorHashes)
+	if numberOfBlockLocatorHashes > maxBlockLocatorsPerMsg {
+		return fmt.Errorf("too many block locator hashes (max: %d)", maxBlockLocatorsPerMsg)
+	}
+
+	hashes := make([][hashLen]byte, numberOfBlockLocatorHashes)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
 		var hash [hashLen]byte
@@ -67,6 +72,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
-- 
2.43.0


From 13c5c1e54604b2d72d6e5c9f41ed405490f5103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:53 +0000
Subject: [PATCH 09/50] fix: make compact filter messages encodable

---
 pkg/protocol/msg_cfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..87eff66 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,14 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
+	b, err := binary.Marshal([hashLen]byte(*msg.BlockHash))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5c450ed856d6ce1899ff8cf382b7bcc8b2116b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:55 +0000
Subject: [PATCH 10/50] fix: bound the number of headers in a headers message

---
 pkg/protocol/msg_headers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..fa5475b 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -1,12 +1,16 @@
 package protocol
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 )
 
+// maxHeadersPerMsg is the protocol limit for one headers message.
+const maxHeadersPerMsg = 2000
+
 type MsgHeaders struct {
 	Headers []*block.Header
 }
@@ -26,6 +30,10 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	if numberOfHeaders > maxHeadersPerMsg {
+		return fmt.Errorf("too many headers in headers message (max: %d)", maxHeadersPerMsg)
+	}
+
 	headersBytes, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
-- 
2.43.0


From b3d6bc2883db4295b80b3da2376b53fb4d65b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 11/50] fix: inventory counts are variable-length integers

---
 pkg/protocol/msg_getdata.go |  2 +-
 pkg/protocol/msg_inv.go     | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..d056c0b 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -14,9 +15,12 @@ const (
 	DataObjectCmpctBlock
 )
 
+// maxInvPerMsg is the protocol limit for one inventory message.
+const maxInvPerMsg = 50000
+
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +32,16 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	if count > maxInvPerMsg {
+		return fmt.Errorf("too many inventory vectors (max: %d)", maxInvPerMsg)
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 51d370802afcf4e62a2e0a9aa655304dff0f2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 12/50] fix: accept only zero bytes after the command name

---
 pkg/protocol/msg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 3363ddd..44ce219 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -57,9 +57,9 @@ func NewMessage(cmd string, networkMagic Magic, payload interface{}) (*Message,
 	return &msg, nil
 }
 
-// CommandString returns command as a string with zero bytes removed.
+// CommandString returns command as a string without its zero padding.
 func (mh MessageHeader) CommandString() string {
-	return strings.Trim(string(mh.Command[:]), "\x00")
+	return strings.TrimRight(string(mh.Command[:]), "\x00")
 }
 
 // Validate ...
-- 
2.43.0


From 1d056bf5277ae75403d377aea8b673d97f05f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 13/50] fix: a malformed headers, block or tx payload is an
 error, not a panic

---
 pkg/protocol/msg.go         | 8 ++++++++
 pkg/protocol/msg_block.go   | 4 +++-
 pkg/protocol/msg_headers.go | 4 +++-
 pkg/protocol/msg_tx.go      | 8 ++++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 44ce219..83e6bb2 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -132,6 +132,14 @@ func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	return nil
 }
 
+// recoverDecode turns a panic of a third party decoder, which trusts the lengths
+// it reads, into an error.
+func recoverDecode(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("malformed payload: %v", r)
+	}
+}
+
 func checksum(data []byte) [checksumLength]byte {
 	hash := sha256.Sum256(data)
 	hash = sha256.Sum256(hash[:])
diff --git a/pkg/protocol/msg_block.go b/pkg/protocol/msg_block.go
index 66ee8ad..98397dc 100644
--- a/pkg/protocol/msg_block.go
+++ b/pkg/protocol/msg_block.go
@@ -15,7 +15,9 @@ type MsgBlock struct {
 var _ binary.Unmarshaler = (*MsgBlock)(nil)
 
 // UnmarshalBinary implements binary.Unmarshaler
-func (blck *MsgBlock) UnmarshalBinary(r io.Reader) error {
+func (blck *MsgBlock) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecode(&err)
+
 	d := binary.NewDecoder(r)
 	bytes, err := d.ReadUntilEOF()
 	if err != nil {
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index fa5475b..8133a9f 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -17,7 +17,9 @@ type MsgHeaders struct {
 
 var _ binary.Unmarshaler = (*MsgHeaders)(nil)
 
-func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
+func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecode(&err)
+
 	d := binary.NewDecoder(r)
 
 	var count VarInt
diff --git a/pkg/protocol/msg_tx.go b/pkg/protocol/msg_tx.go
index ae27c60..b2cfa48 100644
--- a/pkg/protocol/msg_tx.go
+++ b/pkg/protocol/msg_tx.go
@@ -15,7 +15,9 @@ type MsgTx struct {
 	transaction.Transaction
 }
 
-func NewMsgTxFromHex(hex string) (MsgTx, error) {
+func NewMsgTxFromHex(hex string) (msg MsgTx, err error) {
+	defer recoverDecode(&err)
+
 	tx, err := transaction.NewTxFromHex(hex)
 	if err != nil {
 		return MsgTx{}, err
@@ -53,7 +55,9 @@ func (tx MsgTx) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary implements binary.Unmarshaler
-func (tx *MsgTx) UnmarshalBinary(r io.Reader) error {
+func (tx *MsgTx) UnmarshalBinary(r io.Reader) (err error) {
+	defer recoverDecode(&err)
+
 	d := binary.NewDecoder(r)
 	bytes, err := d.ReadUntilEOF()
 	if err != nil {
-- 
2.43.0


From 23ea821e457362a0a9d6294614fc6cd6a391dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 14/50] fix: an undecodable block from the explorer is an
 error, not a panic

---
 pkg/blockservice/service.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 1271bc7..773afcb 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -62,10 +62,17 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 		return nil, err
 	}
 
-	block, err := block.NewFromBuffer(bytes.NewBuffer(bodyBytes))
-	if err != nil {
-		return nil, err
-	}
+	return decodeBlock(bodyBytes)
+}
+
+// decodeBlock decodes a block. The decoder trusts the lengths it reads and
+// panics on an impossible one: report it as an error.
+func decodeBlock(b []byte) (blck *block.Block, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			blck, err = nil, fmt.Errorf("malformed block: %v", r)
+		}
+	}()
 
-	return block, nil
+	return block.NewFromBuffer(bytes.NewBuffer(b))
 }
-- 
2.43.0


From 9b5e98636698783f30bbb744681e0be5e3366992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 15/50] fix: frame peer messages exactly and verify their
 checksum

---
 pkg/node/cmd_block.go       |   5 +-
 pkg/node/cmd_cfilter.go     |   5 +-
 pkg/node/cmd_getcfilters.go |   5 +-
 pkg/node/cmd_getheaders.go  |   5 +-
 pkg/node/cmd_headers.go     |   7 +-
 pkg/node/cmd_inv.go         |   5 +-
 pkg/node/cmd_ping.go        |   5 +-
 pkg/node/cmd_pong.go        |   5 +-
 pkg/node/cmd_sendcmpct.go   |   5 +-
 pkg/node/cmd_skip.go        |   5 +-
 pkg/node/cmd_tx.go          |   5 +-
 pkg/node/cmd_verack.go      |   4 +-
 pkg/node/cmd_version.go     |   5 +-
 pkg/node/node.go            | 172 +++++++++++++++++++-----------------
 pkg/protocol/msg.go         |   8 ++
 15 files changed, 127 insertions(+), 119 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..2ee0956 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,8 +19,7 @@ func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..7bf54e3 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..0ffa1d0 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,10 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..9435285 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..bdf72e1 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,13 +12,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
-
-	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..9ca3889 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&inv); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..0a52ff0 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&ping); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..938d4c1 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..754dbfb 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..e9aeb5a 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,11 +10,10 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
+	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..232fb3f 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,11 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..fb76f96 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -1,10 +1,12 @@
 package node
 
 import (
+	"io"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..5056a83 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,12 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&version); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..75bb795 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -163,29 +163,39 @@ func (n *node) getBestPeerForSync() peer.Peer {
 
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
-	defer func() {
-		if r := recover(); r != nil {
-			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
-		}
-	}()
-
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
-Loop:
 	for {
-		nn, err := conn.Read(tmp)
-		if err != nil {
+		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
-			break Loop
+			return
 		}
 
 		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
+		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
-			continue
+			n.DisconCh <- p.ID()
+			return
+		}
+
+		if msgHeader.Length > protocol.MaxPayloadLength {
+			logrus.Errorf("message from peer %s is too long: %d bytes", p.ID(), msgHeader.Length)
+			n.DisconCh <- p.ID()
+			return
+		}
+
+		// the whole payload is taken off the connection before it is handled, the next
+		// message starts right after it whatever happens to this one
+		payload, err := io.ReadAll(io.LimitReader(conn, int64(msgHeader.Length)))
+		if err == nil && len(payload) < int(msgHeader.Length) {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			logrus.Errorf(err.Error())
+			n.DisconCh <- p.ID()
+			return
 		}
 
 		if err := msgHeader.Validate(); err != nil {
@@ -193,76 +203,78 @@ Loop:
 			continue
 		}
 
-		logrus.Debugf("received message: %s", msgHeader.Command)
+		if !msgHeader.HasValidChecksum(payload) {
+			logrus.Debugf("invalid checksum for message: %s", msgHeader.CommandString())
+			continue
+		}
 
-		switch msgHeader.CommandString() {
-		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'version': %+v", err)
-				continue
-			}
-		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'verack': %+v", err)
-				continue
-			}
-		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'ping': %+v", err)
-				continue
-			}
-		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'pong': %+v", err)
-				continue
-			}
-		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'inv': %+v", err)
-				continue
-			}
-		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'tx': %+v", err)
-				continue
-			}
-		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'block': %+v", err)
-				continue
-			}
-		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
-				continue
-			}
-		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getheaders': %+v", err)
-				continue
-			}
-		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'headers': %+v", err)
-				continue
-			}
-		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'cfilter': %+v", err)
-				continue
-			}
-		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
-				continue
-			}
-		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to skip message: %+v", err)
-				continue
-			}
+		n.handleMessage(&msgHeader, bytes.NewReader(payload), p)
+	}
+}
+
+// handleMessage hands the payload of a message to its handler.
+func (n *node) handleMessage(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Infof("recovered handleMessage: %v", string(debug.Stack()))
 		}
+	}()
 
+	logrus.Debugf("received message: %s", msgHeader.Command)
+
+	switch msgHeader.CommandString() {
+	case "version":
+		if err := n.handleVersion(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'version': %+v", err)
+		}
+	case "verack":
+		if err := n.handleVerack(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'verack': %+v", err)
+		}
+	case "ping":
+		if err := n.handlePing(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'ping': %+v", err)
+		}
+	case "pong":
+		if err := n.handlePong(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'pong': %+v", err)
+		}
+	case "inv":
+		if err := n.handleInv(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'inv': %+v", err)
+		}
+	case "tx":
+		if err := n.handleTx(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'tx': %+v", err)
+		}
+	case "block":
+		if err := n.handleBlock(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'block': %+v", err)
+		}
+	case "sendcmpct":
+		if err := n.handleSendCmpct(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
+		}
+	case "getheaders":
+		if err := n.handleGetHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getheaders': %+v", err)
+		}
+	case "headers":
+		if err := n.handleHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'headers': %+v", err)
+		}
+	case "cfilter":
+		if err := n.handleCFilter(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'cfilter': %+v", err)
+		}
+	case "getcfilters":
+		if err := n.handleGetCFilters(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getcfilters': %+v", err)
+		}
+	default:
+		if err := n.skipMessage(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to skip message: %+v", err)
+		}
 	}
 }
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 83e6bb2..5d99fc7 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -16,6 +16,9 @@ const (
 
 	// MsgHeaderLength specifies the length of Message in bytes
 	MsgHeaderLength = magicLength + commandLength + checksumLength + 4 // 4 - payload length value
+
+	// MaxPayloadLength is the largest payload accepted from a peer
+	MaxPayloadLength = 32 * 1024 * 1024
 )
 
 // MessageHeader ...
@@ -74,6 +77,11 @@ func (mh MessageHeader) Validate() error {
 	return nil
 }
 
+// HasValidChecksum returns true if the payload is the one the message header announces.
+func (mh MessageHeader) HasValidChecksum(payload []byte) bool {
+	return mh.Checksum == checksum(payload)
+}
+
 // HasValidCommand returns true if the message header contains a supported command.
 // Returns false otherwise.
 func (mh MessageHeader) HasValidCommand() bool {
-- 
2.43.0


From d1d4a4e0ab4fc9731239260e9bc663f5c9ec948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 16/50] fix: stopping a node ends its background tasks

---
 pkg/node/chainsync.go       | 11 +++++++++--
 pkg/node/cmd_block.go       |  8 ++++++--
 pkg/node/cmd_cfilter.go     |  7 +++++--
 pkg/node/cmd_getcfilters.go |  2 +-
 pkg/node/cmd_getheaders.go  |  2 +-
 pkg/node/cmd_headers.go     |  8 ++++++--
 pkg/node/cmd_inv.go         |  2 +-
 pkg/node/cmd_ping.go        |  2 +-
 pkg/node/cmd_pong.go        |  7 +++++--
 pkg/node/cmd_sendcmpct.go   |  2 +-
 pkg/node/cmd_skip.go        |  2 +-
 pkg/node/cmd_tx.go          |  2 +-
 pkg/node/cmd_verack.go      |  2 +-
 pkg/node/cmd_version.go     |  2 +-
 pkg/node/handle_ping.go     | 36 +++++++++++++++++++++++-----------
 pkg/node/node.go            | 39 ++++++++++++++++++++++++++++---------
 16 files changed, 95 insertions(+), 39 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..593404f 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -100,7 +100,11 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+		select {
+		case <-n.quit:
+			return
+		case <-time.After(time.Second * 1):
+		}
 	}
 }
 
@@ -124,7 +128,10 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			select {
+			case n.syncedChan <- struct{}{}:
+			case <-n.quit:
+			}
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 2ee0956..6c8eccf 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -50,7 +50,11 @@ func (n node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p p
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 7bf54e3..0299161 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
@@ -16,7 +16,10 @@ func (n node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 0ffa1d0..2a3a61a 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 9435285..8edf8ed 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index bdf72e1..bdecb09 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
@@ -72,7 +72,11 @@ func (n node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index 9ca3889..504c91f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index 0a52ff0..c3a0dab 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 938d4c1..78dda0d 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,14 +8,17 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 754dbfb..fa77fd6 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index e9aeb5a..ddd5ae8 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 232fb3f..051a608 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index fb76f96..68f8e87 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -7,6 +7,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 5056a83..deb9b3f 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..318a0e1 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -22,7 +22,7 @@ func (n *node) addPeer(peer peer.Peer) error {
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -49,7 +49,11 @@ func (n *node) monitorPeers() {
 				break
 			}
 
-			n.peersPongCh[peerID] <- nonce
+			// the peer's monitor may have given up waiting for this pong
+			select {
+			case n.peersPongCh[peerID] <- nonce:
+			default:
+			}
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -73,6 +77,8 @@ func (n *node) monitorPeer(peer peer.Peer) {
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
+	pongCh := n.peersPongCh[peer.ID()]
+
 	for {
 		select {
 		case <-n.quit:
@@ -89,29 +95,37 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
+			select {
+			case n.pingsCh <- peerPing{
+				nonce:  nonce,
+				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
+			}
+
 			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
+				n.signalDisconnect(peer.ID())
+				return
 			}
 
 			logrus.Debugf("sent 'ping' to %s", peer)
 
-			n.pingsCh <- peerPing{
-				nonce:  nonce,
-				peerID: peer.ID(),
-			}
-
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case pn := <-pongCh:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.signalDisconnect(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.signalDisconnect(peer.ID())
+				return
+			case <-n.quit:
+				t.Stop()
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 75bb795..32c0d96 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -89,14 +89,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,8 +117,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
@@ -136,7 +135,10 @@ func (n node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
+	select {
+	case <-n.syncedChan:
+	case <-n.quit:
+	}
 
 	return nil
 }
@@ -166,23 +168,34 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
+	// closing the connection ends a pending read when the node is stopped
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-n.quit:
+			conn.Close()
+		case <-done:
+		}
+	}()
+
 	for {
 		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.signalDisconnect(p.ID())
 			return
 		}
 
 		var msgHeader protocol.MessageHeader
 		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
-			n.DisconCh <- p.ID()
+			n.signalDisconnect(p.ID())
 			return
 		}
 
 		if msgHeader.Length > protocol.MaxPayloadLength {
 			logrus.Errorf("message from peer %s is too long: %d bytes", p.ID(), msgHeader.Length)
-			n.DisconCh <- p.ID()
+			n.signalDisconnect(p.ID())
 			return
 		}
 
@@ -194,7 +207,7 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 		}
 		if err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.signalDisconnect(p.ID())
 			return
 		}
 
@@ -308,6 +321,14 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 	return err
 }
 
+// signalDisconnect tells the monitor that the peer has gone, unless the node is stopped.
+func (n *node) signalDisconnect(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
 // on disconnect, remove the peer from the node.
 // and close the connection.
 func (n *node) disconnectPeer(peerID peer.PeerID) {
-- 
2.43.0


From a56d5b525aabdac91d7debe239e234b0f57cc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 17/50] fix: guard the peer table with a lock

---
 pkg/node/chainsync.go   | 10 ++++-----
 pkg/node/handle_ping.go |  9 +++++---
 pkg/node/node.go        | 48 ++++++++++++++++++++++++++++++++++-------
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 593404f..8c8b0af 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -110,11 +110,9 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
+		p = n.getBestPeerForSync()
+		if p == nil {
+			return
 		}
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index 318a0e1..e40372b 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,6 +16,9 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
@@ -44,14 +47,14 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
+			p := n.getPeer(peerID)
 			if p == nil {
 				break
 			}
 
 			// the peer's monitor may have given up waiting for this pong
 			select {
-			case n.peersPongCh[peerID] <- nonce:
+			case n.getPongCh(peerID) <- nonce:
 			default:
 			}
 			delete(peerPings, nonce)
@@ -77,7 +80,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
-	pongCh := n.peersPongCh[peer.ID()]
+	pongCh := n.getPongCh(peer.ID())
 
 	for {
 		select {
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 32c0d96..a28f87f 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -37,6 +37,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	// peersMutex protects Peers and peersPongCh
+	peersMutex sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -97,7 +99,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -152,9 +154,8 @@ func (n *node) Stop() error {
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
-	}
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
 
 	for _, p := range n.Peers {
 		return p
@@ -163,6 +164,35 @@ func (n *node) getBestPeerForSync() peer.Peer {
 	return nil
 }
 
+// getPeer returns the registered peer with the given ID, nil if there is none.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.Peers[peerID]
+}
+
+// getPongCh returns the channel on which the monitor of a peer waits for pongs.
+func (n *node) getPongCh(peerID peer.PeerID) chan uint64 {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	return n.peersPongCh[peerID]
+}
+
+// getPeers returns the registered peers.
+func (n *node) getPeers() []peer.Peer {
+	n.peersMutex.RLock()
+	defer n.peersMutex.RUnlock()
+
+	peers := make([]peer.Peer, 0, len(n.Peers))
+	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+
+	return peers
+}
+
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
@@ -334,6 +364,9 @@ func (n *node) signalDisconnect(peerID peer.PeerID) {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
+	n.peersMutex.Lock()
+	defer n.peersMutex.Unlock()
+
 	peer := n.Peers[peerID]
 	if peer == nil {
 		return
@@ -358,7 +391,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -377,8 +410,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -424,7 +456,7 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
+	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
 			return err
-- 
2.43.0


From cdb9c0630516f7133621d21c856d48bd991c3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 18/50] fix: acknowledge a peer once and count a negative start
 height as zero

---
 pkg/node/cmd_version.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index deb9b3f..2a52acd 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -23,6 +23,10 @@ func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader,
 		return fmt.Errorf("peer %s does not support Compact Filters Service (BIP0158)", p.ID())
 	}
 
+	if n.getPeer(p.ID()) != nil {
+		return fmt.Errorf("peer already known: %s", p.ID())
+	}
+
 	verack, err := protocol.NewVerackMsg(n.Network)
 	if err != nil {
 		return err
@@ -42,7 +46,12 @@ func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader,
 		return err
 	}
 
-	p.SetPeersTip(uint32(version.StartHeight))
+	startHeight := version.StartHeight
+	if startHeight < 0 {
+		startHeight = 0
+	}
+
+	p.SetPeersTip(uint32(startHeight))
 	if err := n.addPeer(p); err != nil {
 		return err
 	}
-- 
2.43.0


From 1e06011cf608ca35a1fdc28a9c5b9afa92ae9b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 19/50] fix: forward only headers above the tip

---
 pkg/node/cmd_headers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index bdecb09..37b2098 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -55,9 +55,9 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 		return nil
 	}
 
-	//in case received headers portion has first header block height less than tip
+	//in case received headers portion has first header block height not above the tip
 	//check if there are other received headers that are continuation of the tip in sequence
-	if firstHeaderBlockHeight < tip.Height && lastHeaderBlockHeight > tip.Height {
+	if firstHeaderBlockHeight <= tip.Height && lastHeaderBlockHeight > tip.Height {
 		newHeaders := make([]*block.Header, 0)
 		for _, header := range headers.Headers {
 			if header.Height > tip.Height {
@@ -91,7 +91,7 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 func checkHeadersInSequence(headers protocol.MsgHeaders) bool {
 	for i := 0; i < len(headers.Headers); i++ {
 		if i < len(headers.Headers)-1 {
-			if headers.Headers[i].Height != headers.Headers[i+1].Height-1 {
+			if uint64(headers.Headers[i].Height)+1 != uint64(headers.Headers[i+1].Height) {
 				return false
 			}
 		}
-- 
2.43.0


From 8d2953ed582979b6b2bfdb9e8d0ef36ab945e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 20/50] fix: serve the filters of the whole requested range in
 order

---
 pkg/node/cmd_getcfilters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 2a3a61a..6ede896 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -41,7 +41,8 @@ func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Read
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	for i := uint32(0); i <= endBlockHeader.Height-getCFilters.StartHeight; i++ {
+		height := getCFilters.StartHeight + i
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 40f57946ecd93aff02a0d2757ad780ebc689044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:54 +0000
Subject: [PATCH 21/50] fix: accept only digits as port of a peer address

---
 pkg/protocol/addr.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/protocol/addr.go b/pkg/protocol/addr.go
index efbc1b8..3f104cb 100644
--- a/pkg/protocol/addr.go
+++ b/pkg/protocol/addr.go
@@ -2,7 +2,6 @@ package protocol
 
 import (
 	"errors"
-	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -27,15 +26,11 @@ func ParseNodeAddr(nodeAddr string) (*Addr, error) {
 		return nil, errors.New("malformed node address")
 	}
 
-	port, err := strconv.Atoi(portPart)
+	port, err := strconv.ParseUint(portPart, 10, 16)
 	if err != nil {
 		return nil, errors.New("malformed node address")
 	}
 
-	if port < 0 || port > math.MaxUint16 {
-		return nil, errors.New("malformed node address")
-	}
-
 	var addr Addr
 	ip := net.ParseIP(hostnamePart)
 	copy(addr.IP[:], []byte(ip.To4()))
-- 
2.43.0


From 2ecc6500ccd502009c8d661dc2b2a76f03141574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 22/50] fix: confirm transactions of a block under the pool's
 lock

---
 pkg/node/mempool.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..3333db9 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -140,20 +140,17 @@ func (m *MemPool) CheckTxConfirmed(block block.Block) {
 }
 
 func (m *MemPool) checkTxConfirmed(block block.Block) {
-	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+		if err := m.removeTxFromMemPool(txID); err != nil {
+			// the block contains a transaction that is not in the memPool
+			continue
 		}
+
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
-- 
2.43.0


From a4098f94fc4522a76756330d2fa374323585cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:01 +0000
Subject: [PATCH 23/50] fix: stopping the pool does not close channels that are
 still sent on

---
 pkg/node/mempool.go | 54 +++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 3333db9..c17001b 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -31,6 +31,8 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//notifications counts the events that are being delivered to subscribers
+	notifications *sync.WaitGroup
 }
 
 func NewMemPool() MemPool {
@@ -40,6 +42,7 @@ func NewMemPool() MemPool {
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifications:      new(sync.WaitGroup),
 	}
 }
 
@@ -92,12 +95,18 @@ func (m *MemPool) Start() {
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+
+	//events are sent in the background, a subscriber's channel can be closed
+	//only when nobody is going to send on it anymore
+	m.txSubscribersMutex.Lock()
+	defer m.txSubscribersMutex.Unlock()
+	m.notifications.Wait()
+
+	for _, v := range m.txSubscribers {
 		close(v.txEvent)
 	}
+	m.txSubscribers = nil
 }
 
 func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
@@ -113,7 +122,10 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case m.txChan <- tx:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
@@ -128,13 +140,6 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
 	go m.checkTxConfirmed(block)
 }
@@ -177,7 +182,15 @@ func (m *MemPool) addTx(txID string, txData txData) {
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
-	for tx := range m.txChan {
+	for {
+		var tx protocol.MsgTx
+		select {
+		case tx = <-m.txChan:
+		case <-m.quitChan:
+			log.Debugln("mem-pool: memPool listener stopped")
+			return
+		}
+
 		m.addTx(
 			tx.HashStr(),
 			txData{
@@ -193,16 +206,23 @@ func (m *MemPool) listenForNewTxs() {
 
 		log.Debugf("tx %s added to memPool", tx.HashStr())
 	}
-
-	log.Debugln("mem-pool: memPool listener stopped")
 }
 
 func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
+
+	for _, v := range m.txSubscribers {
+		m.notifications.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifications.Done()
+
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+				return
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From ab2b6343acf48ce52ca9152e8ce154beca02f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 24/50] fix: a block at height 0 does not follow a tip at the
 maximal height

---
 pkg/node/cmd_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 6c8eccf..6f04bfa 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -42,7 +42,7 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 	//the latest block, and not 50000, we need to update the peer tip height to
 	//the latest block
 	newBlockHeight := msgBlock.Header.Height
-	if newBlockHeight != tip.Height+1 {
+	if uint64(newBlockHeight) != uint64(tip.Height)+1 {
 		if newBlockHeight > p.PeersTip() {
 			p.SetPeersTip(newBlockHeight)
 			n.sync(p)
-- 
2.43.0


From 58a9aab393c7e01cc1f5ff4d293b2227d8b6c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 25/50] fix: a batch of headers kept only its last one in the
 in-memory store

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..4541acf 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -78,7 +78,8 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 			logrus.Error(err)
 			continue
 		}
-		h.headers[hash] = &header
+		stored := header
+		h.headers[hash] = &stored
 	}
 
 	return nil
-- 
2.43.0


From 17a7450948514021dc5793e9a58bc465af45df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 26/50] fix: asking the in-memory store for the ancestors of an
 unknown block crashed

---
 .../infrastructure/storage/db/inmemory/header_inmemory.go    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 4541acf..8e1fb45 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -165,7 +165,10 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 		return false, repository.ErrNoBlocksHeaders
 	}
 
-	blockHeader := h.headers[hash]
+	blockHeader, ok := h.headers[hash]
+	if !ok {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From 635d084a7df9b0b295a9ede5a6c463bf6c3ab779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 27/50] fix: a header that was stored already discarded the
 rest of its batch, other database errors crashed

---
 .../storage/db/pg/header_repository_impl.go           | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..b12444e 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,8 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
-	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -120,15 +118,10 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		// a header that is stored already must not abort the transaction of the others
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT (hash) DO NOTHING;`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
 			return err
 		}
 	}
-- 
2.43.0


From 3ff7661d651d6dea3ce793e7d976de86806a693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 28/50] fix: a database error while reading all headers was
 taken for an empty store

---
 .../storage/db/pg/header_repository_impl.go               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index b12444e..fca6b83 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -265,8 +265,12 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 
 	blockHeaders := []*BlockHeader{}
 	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
-		return nil, repository.ErrNoBlocksHeaders
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return nil, repository.ErrNoBlocksHeaders
+		}
+
+		return nil, err
 	}
 
 	var headers []*block.Header
-- 
2.43.0


From 027ea8c7c4b7e27c58da7c20622f36d39fc0c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 29/50] fix: a missing header crashed the block locator of the
 database store

---
 .../infrastructure/storage/db/pg/header_repository_impl.go   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index fca6b83..2df363b 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -214,7 +214,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
-- 
2.43.0


From a9a2f658c12073c85b1da10bba7d4789c066f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 30/50] fix: a database error that is not from the server
 crashed the storing of a filter

---
 internal/infrastructure/storage/db/pg/filter_repository_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..1c84275 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -49,7 +49,7 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
+		if pqErr, ok := err.(*pq.Error); ok {
 			if pqErr.Code == uniqueViolation {
 				f, err := f.GetFilter(ctx, entry.Key)
 				if err != nil {
-- 
2.43.0


From b0e2856e659a75ec67ddb235fe68b5145b0b00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 31/50] fix: looking a filter up wrote into the array of the
 caller's block hash

---
 pkg/repository/filter_repository.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..8b0d1f7 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,8 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	// the append must not write into the array of the caller's hash
+	hash := k.BlockHash[:len(k.BlockHash):len(k.BlockHash)]
+	hashedKey := btcutil.Hash160(append(hash, byte(k.FilterType)))
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From a3e29bc1e2d4f2c30cf480eb20f1d84e7766e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 32/50] fix: filters of different blocks shared a key of 48
 bits in the in-memory store

---
 .../storage/db/inmemory/filter_inmemory.go     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/filter_inmemory.go b/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
index ce399c1..3328058 100644
--- a/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
@@ -7,14 +7,24 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
+// filterID is the whole key of a filter, key.String() is only a short digest of it
+type filterID struct {
+	blockHash  string
+	filterType repository.FilterType
+}
+
+func idOf(key repository.FilterKey) filterID {
+	return filterID{blockHash: string(key.BlockHash), filterType: key.FilterType}
+}
+
 type FilterInmemory struct {
-	filtersByHash map[string][]byte
+	filtersByHash map[filterID][]byte
 	locker        *sync.RWMutex
 }
 
 func NewFilterInmemory() repository.FilterRepository {
 	return &FilterInmemory{
-		filtersByHash: make(map[string][]byte),
+		filtersByHash: make(map[filterID][]byte),
 		locker:        new(sync.RWMutex),
 	}
 }
@@ -23,7 +33,7 @@ func (f *FilterInmemory) PutFilter(_ context.Context, entry *repository.FilterEn
 	f.locker.Lock()
 	defer f.locker.Unlock()
 
-	f.filtersByHash[entry.Key.String()] = entry.NBytes
+	f.filtersByHash[idOf(entry.Key)] = entry.NBytes
 	return nil
 }
 
@@ -31,7 +41,7 @@ func (f *FilterInmemory) GetFilter(_ context.Context, key repository.FilterKey)
 	f.locker.RLock()
 	defer f.locker.RUnlock()
 
-	filter, ok := f.filtersByHash[key.String()]
+	filter, ok := f.filtersByHash[idOf(key)]
 	if !ok {
 		return nil, repository.ErrFilterNotFound
 	}
-- 
2.43.0


From f5d46276fdc3de3ac9d36000dc7ae582e19c311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 33/50] fix: a filter in the in-memory store changed with the
 caller's bytes

---
 .../infrastructure/storage/db/inmemory/filter_inmemory.go     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/filter_inmemory.go b/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
index 3328058..5e586e3 100644
--- a/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/filter_inmemory.go
@@ -33,7 +33,7 @@ func (f *FilterInmemory) PutFilter(_ context.Context, entry *repository.FilterEn
 	f.locker.Lock()
 	defer f.locker.Unlock()
 
-	f.filtersByHash[idOf(entry.Key)] = entry.NBytes
+	f.filtersByHash[idOf(entry.Key)] = append([]byte{}, entry.NBytes...)
 	return nil
 }
 
@@ -48,6 +48,6 @@ func (f *FilterInmemory) GetFilter(_ context.Context, key repository.FilterKey)
 
 	return &repository.FilterEntry{
 		Key:    key,
-		NBytes: filter,
+		NBytes: append([]byte{}, filter...),
 	}, nil
 }
-- 
2.43.0


From b4596e924d778f5fec36ce252ec1473c82695bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 34/50] fix: a scan that failed lost the requests it had taken
 from the queue

---
 pkg/scanner/scanner.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..cee116b 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -206,11 +206,17 @@ func (s *scannerService) requestsManager(ch chan<- Report) {
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
-// TODO handle properly errors (enqueue the unresolved requests ??)
 func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	// enqueue the remaining requests, also when the scan fails
+	defer func() {
+		for _, req := range nextBatch {
+			s.requestsQueue.enqueue(req)
+		}
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return err
@@ -278,11 +284,6 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 		}
 	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 033a542dfaeef2d8f090c87689aef71274205ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 35/50] fix: a persistent watch was queued again once per
 transaction it matched

---
 pkg/scanner/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index cee116b..d8a7130 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -254,12 +254,14 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 				return err
 			}
 
-			for _, report := range reports {
+			for i, report := range reports {
 				// send the report to the output channel
 				reportsChan <- report
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
+				// (once, after the last of its reports)
+				isLast := i == len(reports)-1 || reports[i+1].Request != report.Request
+				if report.Request.IsPersistent && isLast {
 					s.Watch(
 						WithRequestID(report.Request.ClientID),
 						WithStartBlock(report.BlockHeight+1),
-- 
2.43.0


From 1de749a6ac60840a664e82b7dd405b3863c325d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 36/50] fix: a request for a future block kept the requests
 behind it from being scanned

---
 pkg/scanner/requestqueue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..c38df5d 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -45,6 +45,8 @@ func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.requests = append(queue.requests, req)
 }
 
+// peek returns the first request of the lowest start height: a scan from there
+// meets all the others, whereas one for a future block would keep them waiting.
 func (queue *scanRequestQueue) peek() *ScanRequest {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
@@ -53,7 +55,14 @@ func (queue *scanRequestQueue) peek() *ScanRequest {
 		return nil
 	}
 
-	return queue.requests[0]
+	next := queue.requests[0]
+	for _, req := range queue.requests[1:] {
+		if req.StartHeight < next.StartHeight {
+			next = req
+		}
+	}
+
+	return next
 }
 
 func (queue *scanRequestQueue) isEmpty() bool {
-- 
2.43.0


From bb3770e2633ccbab916f30b5bfe3362e917079de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 37/50] fix: a request added while the scanner was about to
 wait did not wake it

---
 pkg/scanner/requestqueue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index c38df5d..e7706ef 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -39,10 +39,14 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
 	queue.locker.Lock()
-	defer queue.locker.Unlock()
-	defer queue.cond.Signal()
-
 	queue.requests = append(queue.requests, req)
+	queue.locker.Unlock()
+
+	// a consumer that found the queue empty holds the lock until it waits: without
+	// it the signal could be sent, and lost, in between
+	queue.cond.L.Lock()
+	defer queue.cond.L.Unlock()
+	queue.cond.Signal()
 }
 
 // peek returns the first request of the lowest start height: a scan from there
-- 
2.43.0


From 14c69f366735a57a781b940727ee34ece6eb97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 38/50] fix: an event listed twice watched every script of a
 descriptor twice

---
 pkg/scanner/scanner.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d8a7130..6cebf75 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -118,7 +118,14 @@ func (s *scannerService) WatchDescriptorWallet(
 	eventType []EventType,
 	blockStart int,
 ) error {
+	watched := make(map[EventType]bool)
 	for _, v := range eventType {
+		// an event listed twice is watched once
+		if watched[v] {
+			continue
+		}
+		watched[v] = true
+
 		switch v {
 		case UnspentUtxo:
 			wallet, err := descriptor.Parse(desc)
-- 
2.43.0


From 600be972e7696afb571faf9d38496c482a584f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 39/50] fix: an unsupported or malformed descriptor crashed the
 daemon

---
 pkg/scanner/scanner.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 6cebf75..5f98441 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -128,7 +128,7 @@ func (s *scannerService) WatchDescriptorWallet(
 
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
+			wallet, err := parseDescriptor(desc)
 			if err != nil {
 				return err
 			}
@@ -173,6 +173,22 @@ func (s *scannerService) WatchDescriptorWallet(
 	return nil
 }
 
+// parseDescriptor reports as errors what the parser does not: it answers nil for
+// the kinds of descriptor it does not support and panics on some malformed ones.
+func parseDescriptor(desc string) (wallet descriptor.Wallet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			wallet, err = nil, fmt.Errorf("malformed descriptor: %v", r)
+		}
+	}()
+
+	wallet, err = descriptor.Parse(desc)
+	if err == nil && wallet == nil {
+		err = fmt.Errorf("descriptor not supported")
+	}
+	return wallet, err
+}
+
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report) {
 	defer close(s.quitCh)
-- 
2.43.0


From 6b4c44009fa529f71de885a6ca8f2c7f3d2606ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 40/50] fix: one subscription that cannot be watched stopped
 the handling of all later ones

---
 internal/core/application/notification_service.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..0337061 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -130,8 +130,6 @@ func (n *notificationService) handleSubscribers() {
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
 				}
-
-				return
 			}
 		case sub := <-n.unregisterSubs:
 			delete(n.subscribers, sub.ID)
-- 
2.43.0


From 7cdd916ef3bc058819f4c4bdcfb1f5f4ee50c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 41/50] fix: a subscription without identity was accepted

---
 internal/core/application/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index a32f73e..c76e274 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -21,7 +21,10 @@ type Subscriber struct {
 func (s *Subscriber) validate() error {
 	return validation.ValidateStruct(
 		s,
-		validation.Field(&s.ID, validation.Required),
+		// Required alone takes an array for given, whatever it holds
+		validation.Field(
+			&s.ID, validation.Required, validation.NotIn(SubscriberID{}).Error("cannot be blank"),
+		),
 		validation.Field(&s.BlockHeight, validation.Min(1)),
 		validation.Field(&s.Events, validation.Required),
 		validation.Field(&s.WalletDescriptor, validation.Required),
-- 
2.43.0


From c95ea5f1bb63c6c22b116ff53e420a2e995682f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 42/50] fix: the table of subscribers was read and written
 without a lock

---
 .../core/application/notification_service.go  | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 0337061..7e8935d 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -20,6 +21,8 @@ type NotificationService interface {
 type notificationService struct {
 	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
 	subscribers map[SubscriberID]Subscriber
+	// subscribersLock is a mutex for subscribers map
+	subscribersLock sync.RWMutex
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
@@ -118,7 +121,7 @@ func (n *notificationService) handleSubscribers() {
 	for {
 		select {
 		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
+			n.addSubscriberSafe(sub)
 
 			if err := n.scannerSvc.WatchDescriptorWallet(
 				uuid.UUID(sub.ID),
@@ -132,7 +135,7 @@ func (n *notificationService) handleSubscribers() {
 				}
 			}
 		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
+			n.deleteSubscriberSafe(sub.ID)
 		case <-n.quitHandleSubscribers:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
@@ -155,8 +158,7 @@ func (n *notificationService) Subscribe(
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
+	if !n.isSubscribedSafe(subscriber.ID) {
 		return errors.New("subscriber not found")
 	}
 
@@ -166,3 +168,25 @@ func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
 
 	return nil
 }
+
+func (n *notificationService) isSubscribedSafe(id SubscriberID) bool {
+	n.subscribersLock.RLock()
+	defer n.subscribersLock.RUnlock()
+
+	_, ok := n.subscribers[id]
+	return ok
+}
+
+func (n *notificationService) addSubscriberSafe(subscriber Subscriber) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	n.subscribers[subscriber.ID] = subscriber
+}
+
+func (n *notificationService) deleteSubscriberSafe(id SubscriberID) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	delete(n.subscribers, id)
+}
-- 
2.43.0


From 106b7530e6a7f2ecaf9f2594d7a0d2c8a40b6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 43/50] fix: a notification for a subscriber that has gone
 stopped all notifications

---
 .../interface/web-socket/handler/notification_handler.go  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..f857ebf 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -111,6 +111,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
 			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("subscriber: %v has gone, event dropped", eventReport.SubscriberID)
+				continue
+			}
 
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
@@ -159,6 +163,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			)
 
 			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("subscriber: %v has gone, error dropped", errReport.SubscriberID)
+				continue
+			}
 
 			response := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: errReport.ErrorMsg.Error(),
-- 
2.43.0


From 25c1faf0b7a255b4866fa947d93da82a1f13634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 44/50] fix: a refused HTTP subscription got a success after
 its error and stayed registered

---
 .../interface/web-socket/handler/http_handler.go   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..fb43795 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,13 +22,15 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
-	}
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		subscriber := &HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		}
+		d.registerSubs <- subscriber
+
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
@@ -41,6 +43,9 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+
+			d.unregisterSubs <- subscriber
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -58,6 +63,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
 		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
-- 
2.43.0


From f6e27258bb46b5e178ec5f4b070a458fc1da3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 45/50] fix: a refused websocket subscription got a success
 after its error

---
 internal/interface/web-socket/handler/ws_handler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..a6ca2a9 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -113,8 +113,9 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -134,8 +135,9 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+
+				goto msgloop
 			}
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
-- 
2.43.0


From c27b70d1dfd3b0de2d6f519b705eb04cce8d4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 46/50] fix: a request sent before the registration was
 completed ended the connection

---
 internal/interface/web-socket/handler/ws_handler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index a6ca2a9..dc98ee2 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -39,10 +39,11 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	d.registerSubs <- subscriber
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -78,8 +79,6 @@ msgloop:
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-- 
2.43.0


From 2364c465d5ca7c97f36f36582a935277ca6725a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 47/50] fix: a websocket request that was malformed or of an
 unknown action got no answer and left its subscriber registered

---
 .../interface/web-socket/handler/ws_handler.go    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index dc98ee2..6e7d285 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -74,7 +74,14 @@ msgloop:
 		wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
-			return
+
+			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
+
+			goto msgloop
 		}
 
 		log.Debugf("new message from subscriber: %v", subsID)
@@ -149,6 +156,12 @@ msgloop:
 			}
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+
+			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: "bad request",
+			}); err != nil {
+				log.Errorf("failed sending response to subscriber: %v", err.Error())
+			}
 		}
 	}
 }
-- 
2.43.0


From ffae8bf12d7ad18e2eaf06f6fe6bfec7566de5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 48/50] fix: a response and a notification written at once to a
 websocket lost one of them

---
 .../handler/notification_handler.go           |  4 ++--
 .../interface/web-socket/handler/types.go     |  3 +++
 .../web-socket/handler/ws_handler.go          | 20 +++++++++++--------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index f857ebf..0503662 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -130,7 +130,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
@@ -175,7 +175,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..30cdfbf 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
+	"sync"
 )
 
 type SubscriberID uuid.UUID
@@ -17,6 +18,8 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock serialises the responses and notifications sent to the subscriber
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6e7d285..fccb537 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -75,7 +75,7 @@ msgloop:
 		if err = json.Unmarshal(message, wsMsg); err != nil {
 			log.Warn(err)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "bad request",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -92,7 +92,7 @@ msgloop:
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -115,7 +115,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -125,7 +125,7 @@ msgloop:
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -137,7 +137,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -148,7 +148,7 @@ msgloop:
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -157,7 +157,7 @@ msgloop:
 		default:
 			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: "bad request",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -170,7 +170,7 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
 	defer func() {
@@ -185,6 +185,10 @@ func sendResponseToSubscriberWs[
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
+	// the connection takes one writer at a time
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
-- 
2.43.0


From dc021a66d50af4a5d665f7783ac12faf13ba05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 49/50] fix: setting a key replaced a configuration that could
 not be read

---
 cmd/neutrino/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 76a2b24..090a3b6 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -72,7 +72,12 @@ func getState() (map[string]string, error) {
 	if err != nil {
 		return nil, errors.New("get config state error: try 'config cmd'")
 	}
-	json.Unmarshal(file, &data)
+	// the file is empty when it has just been created
+	if len(file) > 0 {
+		if err := json.Unmarshal(file, &data); err != nil {
+			return nil, fmt.Errorf("reading %s: %w", statePath, err)
+		}
+	}
 
 	return data, nil
 }
-- 
2.43.0


From 6135f7b615ad3681ee63cea813e67bc3c479259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 50/50] fix: a failed write of the configuration lost all
 stored keys

---
 cmd/neutrino/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 090a3b6..568bb23 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -109,7 +109,13 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
+	// a write that fails half way must not cost the stored keys
+	tmpPath := statePath + ".tmp"
+	err = ioutil.WriteFile(tmpPath, jsonString, 0755)
+	if err != nil {
+		return fmt.Errorf("writing to file: %w", err)
+	}
+	err = os.Rename(tmpPath, statePath)
 	if err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
-- 
2.43.0

