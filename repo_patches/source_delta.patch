From 80322c9a425716b96c355a350b32eb24d5d7636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 01/59] fix: hexdecode: do not merge the decoded value into the
 previous contents of dst

---
 hex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..3eda590 100644
--- a/hex.go
+++ b/hex.go
@@ -50,6 +50,11 @@ func hexdecode(dst, src []byte) error {
 		return fmt.Errorf("size mismatch: %d != %d", len(dst), hexlen(src))
 	}
 
+	// dst may hold a previous value
+	for i := range dst {
+		dst[i] = 0
+	}
+
 	// If the input is an odd-sized hex string,
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
-- 
2.43.0


From de7a2c16703f58e5e6c8c9d1d7ee515ba1ca603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 02/59] fix: encode the zero quantity as 0x0 rather than 0x

---
 hex.go  | 3 +++
 seth.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 3eda590..2801b04 100644
--- a/hex.go
+++ b/hex.go
@@ -72,6 +72,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..bebf2a6 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,7 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From b16204542843eb6d692d1d45235942711e00ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 03/59] fix: ABI-encode negative integers in two's complement

---
 send.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index c95c308..bc3c664 100644
--- a/send.go
+++ b/send.go
@@ -43,7 +43,15 @@ func (a *Address) internal() {}
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	x := (*big.Int)(i)
+	if x.Sign() < 0 {
+		// negative integers are encoded in two's complement
+		x = new(big.Int).Add(x, new(big.Int).Lsh(big.NewInt(1), 256))
+		if x.Sign() < 0 || x.BitLen() != 256 {
+			panic("ABI encoding: integer overflow")
+		}
+	}
+	bits := x.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From 4817ab2692a11b77c7f4193296921a14c01a4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 04/59] fix: typecheck signatures with zero or one argument

---
 send.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/send.go b/send.go
index bc3c664..a91202d 100644
--- a/send.go
+++ b/send.go
@@ -185,11 +185,11 @@ func typecheck(f string, args []EtherType) {
 		panic(f + " has a bad right paren")
 	}
 	var argstrings []string
-	if strings.Contains(f[lparen+1:rparen], ",") {
+	if lparen+1 < rparen {
 		argstrings = strings.Split(f[lparen+1:rparen], ",")
-		if len(argstrings) != len(args) {
-			panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
-		}
+	}
+	if len(argstrings) != len(args) {
+		panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
 	}
 	for i := range argstrings {
 		switch argstrings[i] {
-- 
2.43.0


From 814d9831809af93efd3ddeb7b5c35197cfd3c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 05/59] fix: DecodeABI: read every value from its own slot and
 reject malformed offsets and lengths without panicking

---
 send.go | 102 +++++++++++++++++++++++---------------------------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/send.go b/send.go
index a91202d..6302573 100644
--- a/send.go
+++ b/send.go
@@ -334,6 +334,21 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// dynamic locates a dynamically-sized value, given the word in
+// the head of the encoding at 'offset' and the element size, and
+// returns the position of the first element and the element count.
+func dynamic(cur []byte, word *big.Int, offset, size int64) (dpos, length int64, err error) {
+	if !word.IsInt64() || word.Int64() < offset+32 || word.Int64() > int64(len(cur))-32 {
+		return 0, 0, fmt.Errorf("offset %d for data length returned (%d)", word, len(cur))
+	}
+	dpos = word.Int64() + 32
+	n := new(big.Int).SetBytes(cur[dpos-32 : dpos])
+	if !n.IsInt64() || n.Int64() > (int64(len(cur))-dpos)/size {
+		return 0, 0, fmt.Errorf("length %d for data length returned (%d)", n, len(cur))
+	}
+	return dpos, n.Int64(), nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -354,7 +369,7 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if offset >= int64(len(cur)) {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
 		buf := cur[offset:]
@@ -367,12 +382,13 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = make([]byte, 32)
+			copy(*v, buf)
 		case *Address:
-			copy(v[:], cur[12:])
+			if len(buf) < 32 {
+				return fmt.Errorf("short address at position %d", i)
+			}
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
@@ -388,53 +404,29 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 1)
+			if err != nil {
+				return fmt.Errorf("bad string: %s", err)
 			}
 			*v = string(cur[dpos : dpos+length])
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 1)
+			if err != nil {
+				return fmt.Errorf("bad bytes: %s", err)
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 1)
+			if err != nil {
+				return fmt.Errorf("bad bytes: %s", err)
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 32)
+			if err != nil {
+				return fmt.Errorf("bad slice: %s", err)
 			}
 			s := make([]Int, length)
 			for i := range s {
@@ -443,15 +435,9 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 32)
+			if err != nil {
+				return fmt.Errorf("bad slice: %s", err)
 			}
 			s := make([]Address, length)
 			for i := range s {
@@ -460,20 +446,14 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic(cur, &spare, offset, 32)
+			if err != nil {
+				return fmt.Errorf("bad slice: %s", err)
 			}
 			s := make([]Data, length)
 			for i := range s {
 				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = append(Data(nil), cur[o:o+32]...)
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From 3898208570a4999ff675c6042d556ae9315d4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 06/59] fix: look for pending transactions in the pending block

---
 sender.go | 2 +-
 seth.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sender.go b/sender.go
index 6f4a522..b3dc3f9 100644
--- a/sender.go
+++ b/sender.go
@@ -197,7 +197,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
diff --git a/seth.go b/seth.go
index bebf2a6..46d3c40 100644
--- a/seth.go
+++ b/seth.go
@@ -521,7 +521,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c54c4e52e82001a007e322d3a08c2b988895fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 07/59] fix: Drain: compare sender addresses by value

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index b3dc3f9..ac8beb5 100644
--- a/sender.go
+++ b/sender.go
@@ -207,7 +207,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From c78d63c4ccbb3aed5b53e4d210a7e489f2429ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 08/59] fix: Recover: reject signatures that do not correspond
 to a curve point

---
 signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signature.go b/signature.go
index 8017350..ea668b3 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
@@ -129,6 +132,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
 
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		return nil, errors.New("invalid signature")
+	}
 	return NewPublicKey(qx, qy), nil
 }
 
-- 
2.43.0


From 75b8092583faddf7ac95457bb0c4d4907f60c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 09/59] fix: reject signatures whose recovery id is neither 0
 nor 1

---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index ea668b3..ade83d3 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
 	return
 }
 
-- 
2.43.0


From 969f8826d04ced95fef68fd091b73ffa36bc6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 10/59] fix: do not share the response buffer between the
 readers of an old and a new connection

---
 client.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..93b5e38 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,14 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +47,22 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		p := t.pending[res.ID]
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From a5c2e69ee8e9588abf6a131d8dac1de24552b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 11/59] fix: stop the block iterator even if nobody receives
 its blocks

---
 seth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seth.go b/seth.go
index 46d3c40..6b2290c 100644
--- a/seth.go
+++ b/seth.go
@@ -653,8 +653,11 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				time.Sleep(1 * time.Second)
 				continue
 			}
-			b.out <- v
-			block++
+			select {
+			case b.out <- v:
+				block++
+			case <-b.done:
+			}
 		}
 	}
 }
-- 
2.43.0


From e8b3f8cb334372df3571971138f4a91eadee42f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 12/59] fix: end the filter goroutine when the filter is closed
 while it sends logs

---
 filter.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..08787eb 100644
--- a/filter.go
+++ b/filter.go
@@ -71,10 +71,7 @@ func frecv(f *Filter) {
 		f.seterr(err)
 		goto done
 	}
-	for i := range logs {
-		f.out <- &logs[i]
-	}
-	if !f.poll {
+	if !f.send(logs) || !f.poll {
 		goto done
 	}
 	for {
@@ -84,14 +81,14 @@ func frecv(f *Filter) {
 			ticker.Stop()
 			goto done
 		case <-ticker.C:
+			ticker.Stop()
 			logs, err := f.c.getUpdates(f.id)
 			if err != nil {
 				f.seterr(err)
-				ticker.Stop()
 				goto done
 			}
-			for i := range logs {
-				f.out <- &logs[i]
+			if !f.send(logs) {
+				goto done
 			}
 		}
 	}
@@ -99,6 +96,19 @@ done:
 	close(f.out)
 }
 
+// send yields logs to the output channel; it
+// returns false if the filter was closed
+func (f *Filter) send(logs []Log) bool {
+	for i := range logs {
+		select {
+		case f.out <- &logs[i]:
+		case <-f.exit:
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Client) getLogs(id int64) ([]Log, error) {
 	var o []Log
 	p := []json.RawMessage{itox(id)}
-- 
2.43.0


From 4d7c6146661336d1d0e3b1c27b6d18b43d251cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 13/59] fix: Keyfile.Private: reject malformed key files
 instead of panicking or truncating the key

---
 keyfile.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index c01770a..f80b8ee 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -73,6 +73,9 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if p.Iters < 1 || p.Keylen < 32 {
+		return nil, fmt.Errorf("bad pbkdf2 params: c=%d, dklen=%d", p.Iters, p.Keylen)
+	}
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
@@ -92,6 +95,9 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.R < 1 || p.P < 1 || p.Keylen < 32 {
+		return nil, fmt.Errorf("bad scrypt params: r=%d, p=%d, dklen=%d", p.R, p.P, p.Keylen)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
@@ -119,6 +125,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv: %d bytes", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -156,6 +165,10 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the cipher and the MAC use 16 bytes of the derived key each
+	if len(key) < 32 {
+		return nil, fmt.Errorf("derived key has %d bytes; need at least 32", len(key))
+	}
 	err = k.checkmac(key, ciphertext)
 	if err != nil {
 		return nil, err
@@ -174,6 +187,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("bad private key length %d", len(ciphertext))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From 172d9ea4e6f6ef721f4e4c0cd44612df762acf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 14/59] fix: compilePos: skip exactly the immediate bytes of
 PUSH instructions

---
 compile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..1fa1d84 100644
--- a/compile.go
+++ b/compile.go
@@ -169,12 +169,12 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for i := 0; i < len(c.Code); i++ {
 		width := 0
 		b := c.Code[i]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
@@ -182,6 +182,7 @@ func (c *CompiledContract) compilePos() {
 		for j := 0; j < width; j++ {
 			out = append(out, opnum)
 		}
+		i += width
 		opnum++
 	}
 	c.pos = out
-- 
2.43.0


From ab7e92dde1554fcf4ac26a18973dbcbefa9ee9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 15/59] fix: SourceOf: do not panic on source map entries
 outside the known sources

---
 compile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 1fa1d84..4e85182 100644
--- a/compile.go
+++ b/compile.go
@@ -156,7 +156,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -288,7 +288,15 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	// generated code has no source file (file id -1)
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return ""
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From f4f91a99ad28afb571fe60d179f33dc3326505d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 16/59] fix: cachename: do not let different sources share a
 cache entry

---
 compile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index 4e85182..86b61f8 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -324,8 +323,10 @@ func cachename(sources []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// length-prefix each string so that different
+		// lists of sources do not hash to the same name
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From 08fcde0a5fc9b53898dda12068747b33fb7f9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 17/59] fix: cachedBundle: remove only stale bundles when the
 temporary directory's name contains a dash

---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 86b61f8..59155cc 100644
--- a/compile.go
+++ b/compile.go
@@ -339,7 +339,7 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
+		i := strings.LastIndexByte(name, '-')
 		if i != -1 && i != len(name)-1 {
 			all, err := filepath.Glob(name[:i+1] + "*")
 			if err == nil {
-- 
2.43.0


From c472d98b3cda032822fa9b8800025f1e6c79b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 18/59] fix: keep the bundle sources in source ID order

---
 compile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index 59155cc..947fbb8 100644
--- a/compile.go
+++ b/compile.go
@@ -254,8 +254,8 @@ func (s *solcout) toBundle() *CompiledBundle {
 		nc += len(cs)
 	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, len(s.Sources)),
+		Sources:   make([]string, len(s.Sources)),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
@@ -446,7 +446,7 @@ func compile(sources []Source) (*CompiledBundle, error) {
 		}
 	}
 	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+		b.Sources[i] = blob.Sources[b.Filenames[i]].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From 7a2fe14b0c20f7d2e84c0fbc3b6d207c01c80b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 19/59] fix: cc: do not add the parsed fraction to the previous
 value of an amount

---
 cc/currency.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..b9a0a4f 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -115,6 +115,7 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 	if ip == "" && fp == "" {
 		return nil, errors.New("cc: number cannot be empty")
 	}
+	num.SetInt64(0)
 	if ip != "" {
 		if !isdigit(rune(ip[0])) {
 			return nil, errors.New("cc: invalid character in integer part: " + s)
-- 
2.43.0


From 31b013c6a745ca4ed3e23b5c32f1409e3e4dca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 20/59] fix: cc: Rate.UnmarshalJSON: do not panic on a lone
 quote

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index b9a0a4f..0946285 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -179,7 +179,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) > 1 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From 39a049a43138ecf3a32cd2b4d78bfc3eb524b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 21/59] fix: eth: sign with the matching key rather than with
 the last one

---
 cmd/eth/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..56fe3c0 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -156,6 +156,7 @@ func signer() (seth.Signer, seth.Address) {
 		fatalf("bad keyspec %q\n", err)
 	}
 	for _, kd := range keys() {
+		kd := kd
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
-- 
2.43.0


From a31cb496cb2236d79c4ddc9f9a3a8be11027439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 22/59] fix: eth call: accept the full range of each integer
 type

---
 cmd/eth/call.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..2a09189 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,7 +79,14 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
+	if signed {
+		bitwidth-- // sign bit
+	}
+	mag := v
+	if v.Sign() < 0 {
+		mag = new(big.Int).Not(v)
+	}
+	if mag.BitLen() > bitwidth {
 		fatalf("value %q overflows bit-width %d", s, bitwidth)
 	}
 	return (*seth.Int)(v)
@@ -138,17 +145,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From 99f929687a59ac705fe3a828a756abc851b2d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 23/59] fix: eth call: strip the braces of array values before
 parsing their elements

---
 cmd/eth/call.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 2a09189..5495c92 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -93,11 +93,12 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if !strings.HasPrefix(val, "[") || !strings.HasSuffix(val, "]") {
 		fatalf("array values must be enclosed with square braces\n")
 	}
+	val = strings.TrimSuffix(strings.TrimPrefix(val, "["), "]")
 	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
+	if val == "" {
 		// doesn't really matter what type this is...
 		s := make(seth.IntSlice, 0)
 		return &s
-- 
2.43.0


From b5adbec7a025e7100b269e4362423aba4f716a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 24/59] fix: eth: report the bad function signature instead of
 an unrelated argument

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 5495c92..195165c 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -179,7 +179,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -200,7 +200,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From 613ae9f70e074659ffe67117ed75d07bf243ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 25/59] fix: bindgen: generate argument types that the ABI
 encoder accepts

---
 bindgen/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..1bc41a3 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -107,7 +107,7 @@ func typeconv(a string) string {
 	case "bool", "int8", "int16", "int32", "int64",
 		"uint8", "uint16", "uint32", "uint64":
 		fallthrough
-	case "int", "uint", "uint128", "uint256":
+	case "int", "uint", "int128", "int256", "uint128", "uint256":
 		return "*seth.Int"
 	case "address":
 		return "*seth.Address"
@@ -115,8 +115,12 @@ func typeconv(a string) string {
 		return "*seth.AddrSlice"
 	case "uint256[]":
 		return "*seth.IntSlice"
+	case "bytes32[]":
+		return "*seth.DataSlice"
+	case "string", "bytes":
+		return "*seth.Bytes"
 	default:
-		return "seth.Data"
+		return "*seth.Data"
 	}
 }
 
@@ -133,6 +137,8 @@ func rettype(a string) string {
 		return "seth.AddrSlice"
 	case "uint256[]":
 		return "seth.IntSlice"
+	case "bytes32[]":
+		return "seth.DataSlice"
 	case "string":
 		return "string"
 	case "bytes":
-- 
2.43.0


From 99467972c8de936082fd2a0244592652c99719c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 26/59] fix: tevm: Tree: do not let a tree and its copies
 overwrite each other's nodes and snapshots

---
 tevm/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..4815bd5 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -195,7 +195,8 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
+		// ... and the same for the snapshot list
+		Snaps: t.Snaps[: snap+1 : snap+1],
 		Root:  s.Root,
 		// make sure any appends to the node list
 		// cause reallocation of the backing data
@@ -215,7 +216,8 @@ func (t *Tree) Rollback(snap int) {
 	s := t.Snaps[snap]
 	t.Snaps = t.Snaps[:snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	// nodes past the snapshot may be in use by a copy
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From 40a93936aabcc57a617fc7362eb5e3fe36046751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 27/59] fix: tevm: Tree: keep earlier snapshots when going back
 to an empty snapshot

---
 tevm/tree.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 4815bd5..198693b 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -179,6 +179,16 @@ func (t *Tree) Snapshot() int {
 	return s
 }
 
+// sealed returns the number of nodes that belong
+// to snapshots, and the number of snapshots
+func (t *Tree) sealed() (nodes int32, snaps int) {
+	snaps = len(t.Snaps)
+	if snaps > 0 {
+		nodes = t.Snaps[snaps-1].Allocated
+	}
+	return nodes, snaps
+}
+
 // CopyAt returns a logical copy of thre tree
 // at a given snapshot. (As an optimization, the
 // data itself is not copied.) Updates to the returned
@@ -191,7 +201,13 @@ func (t *Tree) Snapshot() int {
 //
 func (t *Tree) CopyAt(snap int) Tree {
 	if snap < 0 {
-		return Tree{}
+		// the empty tree; earlier snapshots remain valid
+		n, snaps := t.sealed()
+		return Tree{
+			Snaps: t.Snaps[:snaps:snaps],
+			All:   t.All[:n:n],
+			Epoch: t.Epoch + 1,
+		}
 	}
 	s := t.Snaps[snap]
 	return Tree{
@@ -210,7 +226,11 @@ func (t *Tree) CopyAt(snap int) Tree {
 // back to a prior snapshot is irreversible.
 func (t *Tree) Rollback(snap int) {
 	if snap < 0 {
-		*t = Tree{}
+		// earlier snapshots remain valid
+		n, _ := t.sealed()
+		t.Root = 0
+		t.All = t.All[:n:n]
+		t.Epoch++
 		return
 	}
 	s := t.Snaps[snap]
-- 
2.43.0


From 5bc0d4fa7b2eb78db85ad883745bb5bc124649ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 28/59] fix: tevm: RevertToSnapshot: drop the reverted
 snapshots and do not overwrite the logs of copies

---
 tevm/evm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..deaa0de 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -415,10 +415,10 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
-	snaps = snaps[:v]
+	s.Snapshots = snaps[:v:v]
 }
 
 func (s *gethState) Snapshot() int {
-- 
2.43.0


From c5e1b16f98b758860401467280cd6dbc474840c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 29/59] fix: tevm: take the refund counter of a copied state
 from its snapshot

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index deaa0de..3a843d2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -447,7 +447,7 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
-- 
2.43.0


From b42c609face433e3a81b6d141157386ba8c9326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 30/59] fix: tevm: do not create ether when an account sends to
 itself

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 3a843d2..fdf1d47 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -715,7 +715,7 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 	if st.Trace != nil {
 		st.Trace("Transfer", from.String(), to.String(), v.String())
 	}
-	if v.Sign() == 0 {
+	if v.Sign() == 0 || from == to {
 		return
 	}
 
-- 
2.43.0


From 9e365befb5cf117b5cbf1dca67e2b275419bfbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 31/59] fix: tevm: clear the balance of a suicided account

---
 tevm/evm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index fdf1d47..533e7d5 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -387,6 +387,7 @@ func (s *gethState) Suicide(addr common.Address) bool {
 		return false
 	}
 	acct.SetSuicided(true)
+	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
 	return true
 }
-- 
2.43.0


From ed357ea42288a9fcaa0aabbfa5aeac9857c20112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 32/59] fix: tevm: keep the balance of an address when an
 account is created there

---
 tevm/evm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 533e7d5..c29bb20 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -143,6 +143,9 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	}
 	var empty Account
 	a := seth.Address(addr)
+	// ether that was sent to the address ahead of time is kept
+	acct, _ := s.getAccount(&a)
+	copy(empty[:32], acct[:32])
 	s.setAccount(&a, &empty)
 }
 
-- 
2.43.0


From 8e71e18180e67a30f663fe05054ba53cebc2404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 33/59] fix: tevm: do not use the caller's memory as a key of
 the state trees

---
 tevm/evm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c29bb20..85800c2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -161,6 +161,10 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 		s.Trace("Fallback GetAccount", addr.String())
 	}
 
+	// the address becomes a key of the state tree
+	key := *addr
+	addr = &key
+
 	c := s.Fallback.Client
 	bal, err := c.GetBalanceAt(addr, s.Fallback.Block)
 	if err != nil {
@@ -964,7 +968,7 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	b.Transactions = append(b.Transactions, js(&tx.Hash))
 	c.pendingrx = append(c.pendingrx, rx)
-	c.State.Transactions.Insert(tx.Hash[:], encode(tx))
+	c.State.Transactions.Insert(h[:], encode(tx))
 	return
 }
 
-- 
2.43.0


From 97cf16af24891441b896f0048b3d6db23b455246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 34/59] fix: tevm: contracts of the forked chain exist even if
 they have no balance

---
 tevm/evm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 85800c2..8119334 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -175,7 +175,7 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
 	}
 
@@ -378,7 +378,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From 96872506f1037400a7f020b87e74b5763d5a466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 35/59] fix: tevm: let empty local code take precedence over
 the forked chain

---
 tevm/evm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 8119334..db6d23a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -285,6 +285,9 @@ func (s *gethState) SetCode(addr common.Address, data []byte) {
 	if s.Trace != nil {
 		s.Trace("SetCode", addr.String(), data)
 	}
+	if data == nil {
+		data = []byte{} // nil would mean "not present"
+	}
 	s.Code.Insert(addr[:], data)
 }
 
-- 
2.43.0


From 922e058b79c355d438aa0fadd18025bcb23bc614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 36/59] fix: tevm: provide a gas price to the EVM

---
 tevm/evm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index db6d23a..f1a1554 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -755,6 +755,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		CanTransfer: cantransfer,
 		Transfer:    dotransfer,
 		GetHash:     n2h,
+		GasPrice:    new(big.Int).SetInt64(defaultGasPrice),
 		Origin:      common.Address(sender),
 		Coinbase:    common.Address(b.Miner),
 		GasLimit:    uint64(b.GasLimit),
-- 
2.43.0


From 8b9617fbff3009c4e7041f475bf60d7249cbb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 37/59] fix: tevm: NewFork: make the block hash match the block
 number

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index f1a1554..3a193c0 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -686,7 +686,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From 653176b7d449bfbc8c7dee2a9f97b96a7573ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 38/59] fix: tevm: record the block of receipts and logs

---
 tevm/evm.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 3a193c0..e7addb0 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -957,15 +957,18 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	for _, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		copy(l.BlockHash[:], b.Hash[:])
+		l.TxIndex = uint(*idx)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockNumber: *b.Number,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From a3d941137dbcb7b7f51ee1caff87a21bd2e3d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 39/59] fix: tevm: give copies of a chain their own blocks

---
 tevm/evm.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index e7addb0..d8faba6 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -545,8 +545,21 @@ func (c *Chain) Copy() *Chain {
 	// and grab a logical copy of the snapshot
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
+	cc.State.Preimage = c.State.Preimage.CopyAt(c.State.Preimage.Snapshot())
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+
 	p := *c.State.Pending
+	p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
 	cc.State.Pending = &p
+	for _, rx := range c.pendingrx {
+		r := *rx
+		cc.pendingrx = append(cc.pendingrx, &r)
+	}
+	cc.block2snap = make(map[int64]int, len(c.block2snap))
+	for n, snap := range c.block2snap {
+		cc.block2snap[n] = snap
+	}
+	cc.Debugf = c.Debugf
 	return cc
 }
 
@@ -593,7 +606,7 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.block2snap = make(map[int64]int)
 	return cc
 }
 
-- 
2.43.0


From d455f0b6bf939d2a14713f2b959c38e7f74dd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 40/59] fix: tevm: release the chain's lock when the fallback
 client panics

---
 tevm/evm.go       | 28 ++++++++++++----------------
 tevm/transport.go | 10 +++++++---
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index d8faba6..2e05242 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -799,8 +799,8 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
-	c.mu.Unlock()
 	return seth.Address(addr), err
 }
 
@@ -809,6 +809,7 @@ func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error)
 // increment the sender nonce or enforce callstack limits.
 func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 
 	evm := c.evm(*sender)
 	evm.StateDB.CreateAccount(common.Address(*addr))
@@ -822,14 +823,11 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
-		c.mu.Unlock()
 		return err
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
 
-	c.mu.Unlock()
-
 	return nil
 }
 
@@ -840,8 +838,8 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 // 'sig' must be in the canonical method signature encoding.
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
-	c.mu.Unlock()
 	return ret, err
 }
 
@@ -849,24 +847,24 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return ret, err
 }
 
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
 	return defaultGasLimit - left, err
 }
 
 // Send creates a transaction that sends ether from one address to another.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
-	c.mu.Unlock()
 	return err
 }
 
@@ -888,15 +886,15 @@ func (c *Chain) Sender(from *seth.Address) *seth.Sender {
 // SubBalance subtracts from the balance of an account.
 func (c *Chain) SubBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().SubBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 // AddBalance adds to the balance of an account.
 func (c *Chain) AddBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().AddBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
@@ -908,9 +906,8 @@ func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
 // BalanceOf returns the balance of an address, in Wei.
 func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {
 	c.mu.Lock()
-	b := c.balanceOf(addr)
-	c.mu.Unlock()
-	return b
+	defer c.mu.Unlock()
+	return c.balanceOf(addr)
 }
 
 func encode(v msgp.Marshaler) []byte {
@@ -1038,12 +1035,11 @@ func (c *Chain) Seal() {
 // MarshalJSON implements json.Marshaler.
 func (c *Chain) MarshalJSON() ([]byte, error) {
 	c.mu.Lock()
-	b, err := json.Marshal(&struct {
+	defer c.mu.Unlock()
+	return json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
 	}{c.State, c.block2snap})
-	c.mu.Unlock()
-	return b, err
 }
 
 // UnmarshalJSON implements json.Unmarshaler.
diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..b6b5e2d 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -93,9 +93,7 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 		c.Debugf("request:\n%s\n", pretty(req))
 	}
 
-	c.mu.Lock()
-	ret, err := c.execute(req.Method, req.Params)
-	c.mu.Unlock()
+	ret, err := c.locked(req.Method, req.Params)
 	if err != nil {
 		res.Result = nil
 		res.Error.Code = -32601
@@ -112,6 +110,12 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 	return err
 }
 
+func (c *Chain) locked(method string, params []json.RawMessage) (interface{}, error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.execute(method, params)
+}
+
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
 	var b blocknum
 	switch method {
-- 
2.43.0


From b5b1f583ff737567d07f52ee94fe931a662b50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 41/59] fix: tevm: make all methods of Chain threadsafe

---
 tevm/evm.go       | 24 ++++++++++++++++++++++++
 tevm/transport.go | 10 +++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 2e05242..21a604f 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -539,6 +539,8 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
@@ -569,6 +571,12 @@ func (c *Chain) Copy() *Chain {
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+func (c *Chain) atBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
@@ -643,6 +651,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -711,6 +721,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 // NewAccount creates a new account with some ether in it.
 // The balance of the new account will be 'ether' * 10**18
 func (c *Chain) NewAccount(ether int) seth.Address {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	var addr seth.Address
 	rand.Read(addr[:])
 	if ether == 0 {
@@ -933,6 +945,12 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1004,6 +1022,12 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
diff --git a/tevm/transport.go b/tevm/transport.go
index b6b5e2d..12a2d11 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -295,7 +295,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -358,12 +358,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
@@ -397,7 +397,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -406,7 +406,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From 8dd865392c2570d8901827c5ea93c5e3f99ee127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 42/59] fix: tevm: reject malformed RPC parameters; accept
 quantities as block numbers

---
 tevm/transport.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 12a2d11..ba7a8c4 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"math/big"
 	"net/http"
 	"strconv"
@@ -50,7 +51,18 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
 	default:
-		// should be an integer
+		// should be an integer or a quantity
+		if buf[0] == '"' {
+			var u seth.Uint64
+			if err := u.UnmarshalJSON(buf); err != nil {
+				return err
+			}
+			if u > math.MaxInt64 {
+				return fmt.Errorf("block number %d out of range", u)
+			}
+			*b = blocknum(u)
+			return nil
+		}
 		i, err := strconv.ParseInt(string(buf), 10, 64)
 		if err != nil {
 			return err
@@ -445,7 +457,9 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if err := gross(from[i], to[i]); err != nil {
+			return fmt.Errorf("param %d: %s", i, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2451d82ebc95944ca855edaa91ac0b1d42ee3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 43/59] fix: tevm: eth_getBlockByNumber: resolve latest and
 pending

---
 tevm/transport.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index ba7a8c4..f3052b3 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -195,13 +195,21 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := int64(b)
+		if n < 0 {
+			// "latest" is the pending block until a block is sealed
+			pending := int64(*c.State.Pending.Number)
+			n = pending
+			if _, ok := c.block2snap[pending-1]; ok && b == -2 {
+				n = pending - 1
+			}
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(uint64(n)))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From dbb220337e52193c33acc9a841f44517a5067b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 44/59] fix: tevm: eth_newFilter: accept open-ended block
 ranges

---
 tevm/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index f3052b3..dc564b3 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -247,7 +247,8 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	// negative numbers are latest and pending
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From c280c5addf4cdda55c4cf955efc9c625b0444c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 45/59] fix: tevm: do not let eth_getBlock expand the
 transactions of the pending block in place

---
 tevm/transport.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index dc564b3..eae23b9 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -339,7 +339,10 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		// the caller encodes the block without holding the lock
+		p := *c.State.Pending
+		p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
+		b = &p
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From bf4d6758d7d7d6fbac087bb314184df8ff55332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 46/59] fix: tevm: eth_estimateGas: revert the state if the
 call fails

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index eae23b9..636fbdf 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -439,6 +439,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -459,8 +460,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 0e7d8fdd90973e59aef8376aaa6dae8c46a9a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 47/59] fix: tevm: ServeHTTP: report errors from encoding the
 result

---
 tevm/transport.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 636fbdf..dd076ed 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -87,7 +87,12 @@ func (s *Chain) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 	var res seth.RPCResponse
-	s.Execute(&jsr, &res)
+	err = s.Execute(&jsr, &res)
+	if err != nil {
+		log.Printf("execute error: %s", err)
+		w.WriteHeader(500)
+		return
+	}
 	err = json.NewEncoder(w).Encode(&res)
 	if err != nil {
 		log.Printf("error writing response: %s", err)
-- 
2.43.0


From 6fee43b41d81a090b13b2221d16650ae993f3907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 48/59] fix: tevm: keep the receipts of the pending block when
 a chain is encoded

---
 tevm/evm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 21a604f..db1b52e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1063,7 +1063,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	return json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		PendingRx  []*seth.Receipt
+	}{c.State, c.block2snap, c.pendingrx})
 }
 
 // UnmarshalJSON implements json.Unmarshaler.
@@ -1071,6 +1072,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		PendingRx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1078,6 +1080,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.mu.Lock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	c.pendingrx = s.PendingRx
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 5b0eb449e0e868277b3c21647a66607df655451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 49/59] fix: do not overwrite the snapshot list of a copy of a
 Tree after a rollback

CopyAt shares the snapshot list with the copy. Rollback cut the list
without clipping its capacity, so the next Snapshot replaced an entry
of the copy's list.
---
 tevm/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 198693b..971b852 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -234,9 +234,9 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	// snapshots and nodes past this one may be in use by a copy
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
 	t.Root = s.Root
-	// nodes past the snapshot may be in use by a copy
 	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
-- 
2.43.0


From be9d3df79ec003ff035b37dfb8cf42c67f9de8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 50/59] fix: tevm: do not create ether when a suicided account
 suicides again

---
 tevm/evm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index db1b52e..dff583e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -393,13 +393,15 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	// the account may have received ether since it suicided
+	again := acct.Suicided()
 	acct.SetSuicided(true)
 	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
-	return true
+	return !again
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From 1c5e151dfa598767e02bc8fbff22d115cf3eab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 51/59] fix: tevm: a filter's changes begin when the filter is
 made

---
 tevm/transport.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index dd076ed..7db707b 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -261,10 +261,11 @@ func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.
 		c.filters = make(map[int]*filter)
 	}
 	c.filters[c.filtcount] = &filter{
-		from:   from,
-		to:     to,
-		addr:   addr,
-		topics: topics,
+		from:    from,
+		to:      to,
+		addr:    addr,
+		topics:  topics,
+		lastlog: len(c.State.Logs),
 	}
 	return c.filtcount, nil
 }
-- 
2.43.0


From fb43e575e1bb38c544dfcdcd79c97fd0f6832ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 52/59] fix: tevm: eth_getFilterChanges: do not panic after the
 state was reverted

---
 tevm/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 7db707b..a6eab05 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -302,6 +302,10 @@ func (c *Chain) filterChanges(fd int) ([]seth.Log, error) {
 	}
 
 	out := make([]seth.Log, 0)
+	if filt.lastlog > len(c.State.Logs) {
+		// the state was reverted
+		filt.lastlog = len(c.State.Logs)
+	}
 	sub := c.State.Logs[filt.lastlog:]
 	for i := range sub {
 		if filt.matches(sub[i]) {
-- 
2.43.0


From 986b8f6c5ef87d3f7dfda6f6e945f5b9c7eee1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 53/59] fix: Sender.Cancel: outbid gas prices above 63 bits too

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index ac8beb5..569bccc 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,8 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1))
+		opts.GasPrice = (*Int)(price)
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 8da12e2a36f2640b053203230f44622a5d17c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 54/59] fix: cc: NewRate rounds to the nearest rate instead of
 down

---
 cc/currency.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index 0946285..6ef97a6 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -33,7 +33,10 @@ func NewRate(f float64) *Rate {
 	num, denom := rat.Num(), rat.Denom()
 	if num.Sign() != 0 {
 		pow10(num, RateDigits)
-		num.Div(num, denom)
+		// round to the nearest multiple, rather than down
+		num.Lsh(num, 1)
+		num.Add(num, denom)
+		num.Div(num, new(big.Int).Lsh(denom, 1))
 	}
 	return (*Rate)(num)
 }
-- 
2.43.0


From 5ee31f67d0228c4b2f669ddbea2e1291bc9d08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 55/59] fix: pass string arguments of eth call as their text

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 195165c..6e6b9f5 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From fc0acbeb2f71ac6c15096526cb483cf4759ce8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 56/59] fix: print negative integers as such in eth read

---
 cmd/eth/read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index f85f006..eadb1ec 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -81,13 +81,17 @@ func read(fs *flag.FlagSet) {
 		fatalf("error making call: %s\n", err)
 	}
 
-	for _, v := range *d {
+	for i, v := range *d {
 		switch v := v.(type) {
 		case *string:
 			fmt.Println(*v)
 		case *bool:
 			fmt.Println(*v)
 		case *big.Int:
+			if strings.HasPrefix(rettypes[i], "int") && v.Bit(255) == 1 {
+				// negative, in two's complement
+				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
+			}
 			fmt.Println(v.String())
 		case *seth.Address:
 			fmt.Println(v.String())
-- 
2.43.0


From 74f9c8c439cc9c240ef75ea4c5957e0484c01dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 57/59] fix: eth sign reads standard input when the file is -

---
 cmd/eth/sign.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/sign.go b/cmd/eth/sign.go
index 2dfe974..c94cc6e 100644
--- a/cmd/eth/sign.go
+++ b/cmd/eth/sign.go
@@ -50,9 +50,13 @@ func sign(fs *flag.FlagSet) {
 		fatalf("eth sign: cannot specify more than one of -x or -j at a time\n")
 	}
 
-	f, err := os.Open(args[0])
-	if err != nil {
-		fatalf("cannot sign %s: %s\n", args[0], err)
+	f := os.Stdin
+	if args[0] != "-" {
+		var err error
+		f, err = os.Open(args[0])
+		if err != nil {
+			fatalf("cannot sign %s: %s\n", args[0], err)
+		}
 	}
 	buf, err := ioutil.ReadAll(f)
 	if err != nil {
-- 
2.43.0


From 9e23323c32f5f0e1b6a5c0df23966fb33df6837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 58/59] fix: eth block ranges end at the first block

A range that went below zero went on with the pending and latest
blocks, which are named by negative numbers, and a pending block
without a number was followed through a nil pointer.
---
 cmd/eth/block.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..39dac08 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -47,7 +47,11 @@ func blockrange(c *seth.Client, spec string) {
 	// have to fetch the block to do this
 	start := blocknum(split[0])
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		b := getblock(c, start, false)
+		if b.Number == nil {
+			fatalf("block %q has no number\n", split[0])
+		}
+		start = int64(*b.Number)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
@@ -60,7 +64,13 @@ func blockrange(c *seth.Client, spec string) {
 	}
 
 	for i := int64(0); i < diff; i++ {
-		showblock(getblock(c, op(start, i), true))
+		num := op(start, i)
+		if num < 0 {
+			// there is nothing before the first block,
+			// and negative numbers are symbolic
+			break
+		}
+		showblock(getblock(c, num, true))
 	}
 }
 
-- 
2.43.0


From 2e79dc3de2fe5e235cb5538dc35c9d6af62cd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 59/59] fix: bytecode that is not linked is an error, not a
 panic

---
 compile.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/compile.go b/compile.go
index 947fbb8..3591f82 100644
--- a/compile.go
+++ b/compile.go
@@ -240,15 +240,7 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle() (*CompiledBundle, error) {
 	nc := 0
 	for _, cs := range s.Contracts {
 		nc += len(cs)
@@ -263,15 +255,21 @@ func (s *solcout) toBundle() *CompiledBundle {
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
+			// the code of contracts that need to be linked
+			// has placeholders that aren't hex
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				return nil, fmt.Errorf("bytecode of contract %s: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -439,7 +437,10 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, err
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
-- 
2.43.0

