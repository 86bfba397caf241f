From d4bc7147b01a3f8f2981e39e4db7dc035fb6a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 01/40] fix: do not write the trailer into the spare capacity
 of item.Value

---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..8f47b28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,7 +473,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -876,7 +879,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From 8a5b4b7a0f00d8d5ddf59b04c51b4ae97200d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 02/40] fix: report unexpected replies to delete and touch as
 errors

---
 client/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8f47b28..c12767b 100644
--- a/client/server.go
+++ b/client/server.go
@@ -366,7 +366,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
 	}
-	return nil
+	return fmt.Errorf("memcached: failed delete: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -444,7 +444,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return merrors.ItemNotFound
 	}
 
-	return nil
+	return fmt.Errorf("memcached: failed touch: %s", string(b))
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
-- 
2.43.0


From cb146248901439063a7260aadbc224b443f4bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 03/40] fix: only NOT_STORED means exists/not found for add and
 replace

---
 client/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/client/server.go b/client/server.go
index c12767b..79cb907 100644
--- a/client/server.go
+++ b/client/server.go
@@ -21,6 +21,7 @@ import (
 var (
 	crlf                 = []byte("\r\n")
 	msgTextProtoStored   = []byte("STORED\r\n")
+	msgTextNotStored     = []byte("NOT_STORED\r\n")
 	msgTextProtoDeleted  = []byte("DELETED\r\n")
 	msgTextProtoNotFound = []byte("NOT_FOUND\r\n")
 	msgTextProtoTouched  = []byte("TOUCHED\r\n")
@@ -530,6 +531,9 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -567,6 +571,9 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
@@ -937,6 +944,9 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextNotStored) {
+		return fmt.Errorf("memcached: failed add: %s", string(b))
+	}
 
 	return merrors.ItemExists
 }
@@ -971,6 +981,9 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if bytes.Equal(b, msgTextProtoStored) {
 		return nil
 	}
+	if !bytes.Equal(b, msgTextNotStored) {
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
+	}
 
 	return merrors.ItemNotFound
 }
-- 
2.43.0


From 35e4b30341d93a15e7843917cdd6b911d3824c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 04/40] fix: cas on a missing key is item not found

---
 client/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/server.go b/client/server.go
index 79cb907..60f669e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -493,6 +493,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
-- 
2.43.0


From 472e450a3b3bc74f2aea05e18c4ed7c9b2b93a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 05/40] fix: report error replies to version

---
 client/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/server.go b/client/server.go
index 60f669e..d1251e6 100644
--- a/client/server.go
+++ b/client/server.go
@@ -637,6 +637,9 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	if !bytes.HasPrefix(b, []byte("VERSION ")) {
+		return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	}
 	if len(b) > 0 {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
@@ -1143,6 +1146,9 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if !bytes.HasPrefix(b, []byte("VERSION ")) {
+		return "", fmt.Errorf("memcached: failed version: %s", string(b))
+	}
 	if len(b) > 0 {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-- 
2.43.0


From 2c47e84a894d1eee56a32f7424189a03835a761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 06/40] fix: parse text get replies strictly and keep the CAS
 token

---
 client/server.go | 67 +++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/client/server.go b/client/server.go
index d1251e6..f006e80 100644
--- a/client/server.go
+++ b/client/server.go
@@ -28,9 +28,6 @@ var (
 	msgTextProtoExists   = []byte("EXISTS\r\n")
 	msgTextProtoOk       = []byte("OK\r\n")
 	msgTextProtoEnd      = []byte("END\r\n")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var (
@@ -43,6 +40,9 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+// maxValueSize is the largest value a server can be configured to store.
+const maxValueSize = 1 << 30
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -215,45 +215,18 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	items, err := s.parseGetResponse(s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgTextProtoEnd) {
+	if len(items) == 0 {
 		return nil, merrors.ItemNotFound
 	}
-	if !bytes.HasPrefix(b, []byte("VALUE")) {
-		return nil, errors.New("memcached: invalid response")
-	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
-		return nil, err
-	}
-	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
-	item.Flags = f
-
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return nil, err
-	}
-	item.Value = buf[:size]
-
-	b, err = s.conn.ReadSlice('\n')
-	if err != nil {
-		return nil, err
-	}
-	if !bytes.Equal(b, msgTextProtoEnd) {
+	if len(items) > 1 {
 		return nil, errors.New("memcached: invalid response")
 	}
+	item := items[0]
+	item.Server = s.Name()
 
 	return item, nil
 }
@@ -300,32 +273,38 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if bytes.Equal(b, []byte("END\r\n")) {
 			break
 		}
-		s := bytes.Split(b, []byte(" "))
-		if !bytes.Equal(s[0], []byte("VALUE")) {
+		s := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+		if len(s) < 4 || !bytes.Equal(s[0], []byte("VALUE")) {
 			return nil, errors.New("memcached: invalid response")
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
-		var size int
-		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
-		} else {
-			size, err = strconv.Atoi(string(s[3]))
-		}
+		size, err := strconv.Atoi(string(s[3]))
 		if err != nil {
 			return nil, err
 		}
+		if size < 0 || size > maxValueSize {
+			return nil, errors.New("memcached: invalid response")
+		}
+		var cas uint64
+		if len(s) > 4 {
+			cas, err = strconv.ParseUint(string(s[4]), 10, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
 
 		buf := make([]byte, size+2)
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
+			Cas:   cas,
 		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
-- 
2.43.0


From 567229f0f87b78e54cd3d6b2a3196a9360ea11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 07/40] fix: do not panic on replies without a carriage return

---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index f006e80..dadaa27 100644
--- a/client/server.go
+++ b/client/server.go
@@ -385,7 +385,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -587,7 +587,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -1040,7 +1040,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -1101,7 +1101,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
-- 
2.43.0


From cef127c036e1822a49cbd804ce6ae6e5fc3e439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 08/40] fix: parse meta get replies field by field

---
 client/server.go | 63 ++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 42 deletions(-)

diff --git a/client/server.go b/client/server.go
index dadaa27..7d61a59 100644
--- a/client/server.go
+++ b/client/server.go
@@ -764,49 +764,25 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if bytes.Equal(b, msgMetaProtoNoop) {
 		return nil, merrors.ItemNotFound
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
+	f := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+	if len(f) < 2 || !bytes.Equal(f[0], []byte("VA")) {
 		return nil, errors.New("memcached: invalid get response")
 	}
 
 	item := &Item{}
-	size := 0
-	// state:
-	//    1 - Reading size
-	//    2 - Reading flag name
-	//    3 - Reading token
-	state := 1 // Read size
-	var flagName byte
-	var startIndex int
-	for i := range b[3:] {
-		switch b[3+i] {
-		case ' ':
-			switch state {
-			case 1: // Reading size
-				s, err := strconv.ParseInt(string(b[3:3+i]), 10, 32)
-				if err != nil {
-					return nil, err
-				}
-				size = int(s)
-				state = 2
-			case 3: // Reading token
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-				state = 2
-			}
-		case '\r':
-			if state == 3 {
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-			}
-		case 'f', 'c', 't', 'k':
-			switch state {
-			case 2:
-				flagName = b[3+i]
-				state = 3
-				startIndex = 3 + i + 1
-			}
+	size, err := strconv.Atoi(string(f[1]))
+	if err != nil {
+		return nil, err
+	}
+	if size < 0 || size > maxValueSize {
+		return nil, errors.New("memcached: invalid get response")
+	}
+	for _, v := range f[2:] {
+		if len(v) == 0 {
+			continue
+		}
+		if err := s.readGetFlagToken(v[0], v[1:], item); err != nil {
+			return nil, err
 		}
 	}
 
@@ -822,7 +798,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -830,16 +806,19 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
+		if in < 0 { // -1 means that the item does not expire
+			in = 0
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
-- 
2.43.0


From 48a0aece548e7dc506789c643a705c9be33004f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 09/40] fix: a miss does not end the replies of a meta multi
 get

---
 client/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 7d61a59..b3e28ab 100644
--- a/client/server.go
+++ b/client/server.go
@@ -38,6 +38,9 @@ var (
 	msgMetaProtoDeleted   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
+
+	// errMetaNoop is the reply to mn, it ends the replies of a multi get
+	errMetaNoop = errors.New("memcached: invalid get response")
 )
 
 // maxValueSize is the largest value a server can be configured to store.
@@ -742,6 +745,8 @@ MultiRead:
 		if err != nil {
 			switch err {
 			case merrors.ItemNotFound:
+				continue
+			case errMetaNoop:
 				break MultiRead
 			default:
 				return nil, err
@@ -762,7 +767,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
 	}
 	f := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
 	if len(f) < 2 || !bytes.Equal(f[0], []byte("VA")) {
-- 
2.43.0


From a4c1b365e7e5bfccb712d351c86c9374f2c7e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 10/40] fix: meta touch updates the expiration instead of
 marking the item stale

---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index b3e28ab..19da413 100644
--- a/client/server.go
+++ b/client/server.go
@@ -36,6 +36,7 @@ var (
 	msgMetaProtoStored    = []byte("HD")
 	msgMetaProtoNotStored = []byte("NS")
 	msgMetaProtoDeleted   = []byte("HD")
+	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 
@@ -1041,7 +1042,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1054,8 +1055,10 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case bytes.HasPrefix(b, msgMetaProtoTouched):
 		return nil
+	case bytes.Equal(b, msgMetaProtoEnd):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From 4f7cd2405f7b237dd6e0723a37bda3590fb803aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 11/40] fix: meta set ignores flags that are not four bytes

---
 client/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 19da413..1c51e29 100644
--- a/client/server.go
+++ b/client/server.go
@@ -848,7 +848,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
-- 
2.43.0


From 926c91c3177a7da1d6070ddb9b4047283deb8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 12/40] fix: binary storage commands ignore flags that are not
 four bytes

---
 client/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 1c51e29..432b2ba 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1340,7 +1340,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1392,7 +1392,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1444,7 +1444,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) == 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
-- 
2.43.0


From 222fe21d467a6d12b50df0b41105dcecfaff4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 13/40] fix: reset the recycled header of binary incr and decr

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 432b2ba..13dc685 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1561,6 +1561,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From c871997843011c1df36bf90ce50ee4e1962bbd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 14/40] fix: meta misses may carry the key

---
 client/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 13dc685..891df79 100644
--- a/client/server.go
+++ b/client/server.go
@@ -764,7 +764,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgMetaProtoEnd) {
+	if bytes.Equal(b, msgMetaProtoEnd) || bytes.HasPrefix(b, []byte("EN ")) {
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-- 
2.43.0


From bd1be3cf6b54494f4f4dc469623f91844d91db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 15/40] fix: do not panic on binary responses with inconsistent
 lengths

---
 client/server.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 891df79..ce9261c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -47,6 +48,9 @@ var (
 // maxValueSize is the largest value a server can be configured to store.
 const maxValueSize = 1 << 30
 
+// maxBodySize is the largest body of a binary response: extras, key and value.
+const maxBodySize = maxValueSize + (1 << 17)
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -1252,7 +1256,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1314,8 +1318,8 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
 		})
 	}
@@ -1608,7 +1612,14 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
-	return int64(binary.BigEndian.Uint64(body)), nil
+	if len(body) != 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
+	v := binary.BigEndian.Uint64(body)
+	if v > math.MaxInt64 {
+		return 0, fmt.Errorf("memcached: value out of range: %d", v)
+	}
+	return int64(v), nil
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
@@ -1822,6 +1833,9 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	h.TotalBodyLength = binary.BigEndian.Uint32(h.buf[8:12])
 	h.Opaque = binary.BigEndian.Uint32(h.buf[12:16])
 	h.CAS = binary.BigEndian.Uint64(h.buf[16:24])
+	if int64(h.ExtraLength)+int64(h.KeyLength) > int64(h.TotalBodyLength) || h.TotalBodyLength > maxBodySize {
+		return errors.New("memcached: invalid response")
+	}
 
 	return nil
 }
-- 
2.43.0


From e430a6772c3057df11dfcf272ef3fcd2346d1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 16/40] fix: read the body and check the status of every binary
 response

---
 client/server.go | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/client/server.go b/client/server.go
index ce9261c..82cc57e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1236,6 +1236,9 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return nil, err
 	}
+	if resHeader.Opcode != binaryOpcodeGet {
+		return nil, errors.New("memcached: invalid response")
+	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
@@ -1363,6 +1366,11 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1415,6 +1423,11 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1656,6 +1669,14 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if resHeader.Opcode != binaryOpcodeTouch {
+		return errors.New("memcached: invalid response")
+	}
+
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1698,6 +1719,18 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
@@ -1727,11 +1760,8 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if resHeader.Status != 0 {
-		if v, ok := binaryStatus[resHeader.Status]; ok {
-			return "", fmt.Errorf("memcached: error %s", v)
-		}
-		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	if resHeader.Opcode != binaryOpcodeVersion {
+		return "", errors.New("memcached: invalid response")
 	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
@@ -1739,6 +1769,13 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return "", fmt.Errorf("memcached: error %s", v)
+		}
+		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return string(buf), nil
 }
 
-- 
2.43.0


From 2b37b21a0a5799e4f2c4b8300f6786f656b07e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 17/40] fix: read all replies of a binary multi get and keep
 CAS tokens

---
 client/server.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/client/server.go b/client/server.go
index 82cc57e..6fddf8a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1300,32 +1300,39 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	}
 
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
+	var resErr error
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
-		if resHeader.Opcode == binaryOpcodeNoop {
-			break
+		buf := make([]byte, resHeader.TotalBodyLength)
+		if _, err := io.ReadFull(s.conn, buf); err != nil {
+			return nil, err
 		}
-
-		if resHeader.Status != 0 {
+		if resHeader.Status != 0 && resHeader.Status != 1 && resErr == nil {
 			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
 		}
-
-		buf := make([]byte, resHeader.TotalBodyLength)
-		if _, err := io.ReadFull(s.conn, buf); err != nil {
-			return nil, err
+		if resHeader.Opcode == binaryOpcodeNoop {
+			break
+		}
+		if resHeader.Status != 0 {
+			continue
 		}
 
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
 			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
+	if resErr != nil {
+		return nil, resErr
+	}
 
 	return items, nil
 }
-- 
2.43.0


From 41881ac825631b553f5d0de5af83e4c7ed380a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 18/40] fix: map binary not found and exists statuses

---
 client/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/server.go b/client/server.go
index 6fddf8a..c2490b6 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1380,6 +1380,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
@@ -1496,6 +1498,8 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 		switch resHeader.Status {
 		case 1:
 			return merrors.ItemNotFound
+		case 2:
+			return merrors.ItemExists
 		default:
 			if v, ok := binaryStatus[resHeader.Status]; ok {
 				return fmt.Errorf("memcached: error %s", v)
@@ -1620,6 +1624,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		body = buf
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return 0, merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
@@ -1685,6 +1692,9 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	if resHeader.Status == 1 { // key not found
+		return merrors.ItemNotFound
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
-- 
2.43.0


From d81b384b49b40174e9823ea7e124d3b648219025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 19/40] fix: reconnect when the old connection is already
 closed

---
 client/server.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/client/server.go b/client/server.go
index c2490b6..e03da93 100644
--- a/client/server.go
+++ b/client/server.go
@@ -189,9 +189,7 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		s.raw.Close() // it may be closed already
 	}
 
 	d := &net.Dialer{}
@@ -685,9 +683,7 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		s.raw.Close() // it may be closed already
 	}
 
 	d := &net.Dialer{}
@@ -1191,9 +1187,7 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	defer s.mu.Unlock()
 
 	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+		s.raw.Close() // it may be closed already
 	}
 
 	d := &net.Dialer{}
-- 
2.43.0


From c426b30de4a85d4102b98814a4e80f5442e1043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 20/40] fix: text client can be closed again after a reconnect

---
 client/server.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index e03da93..1e5f835 100644
--- a/client/server.go
+++ b/client/server.go
@@ -173,14 +173,16 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
-	if s.closeCh == nil {
+	if s.raw == nil {
 		return errors.New("memcached: already closed")
 	}
 
 	err := s.raw.Close()
 	s.raw = nil
-	close(s.closeCh)
-	s.closeCh = nil
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
 	return err
 }
 
-- 
2.43.0


From 649bb76ac89d5bcb91a7d6ff2125e6f6cbd201ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 21/40] fix: closing a meta or binary client stops its
 heartbeat

---
 client/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/server.go b/client/server.go
index 1e5f835..7ee8736 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1125,6 +1125,10 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
 	return s.raw.Close()
 }
 
@@ -1793,6 +1797,10 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	if s.closeCh != nil {
+		close(s.closeCh)
+		s.closeCh = nil
+	}
 	return s.raw.Close()
 }
 
-- 
2.43.0


From 61cb787c9e5c867e42f6a9fcdf0e6da974902c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 22/40] fix: heartbeat keeps probing

---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 7ee8736..9f736b5 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1899,7 +1899,8 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 }
 
 func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -1908,9 +1909,8 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
-						return
-					}
+					// a failed reconnect is tried again on the next tick
+					s.Reconnect()
 				} else {
 					s.Close()
 				}
-- 
2.43.0


From 4e067aec66f2e9eba3a23131cc1c2b4b49805676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 23/40] fix: the owner of a key does not depend on the order of
 the servers

---
 client/ring.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..2ccd298 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,6 +35,9 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].hash == nodes[j].hash {
+			return nodes[i].Server.Name() < nodes[j].Server.Name()
+		}
 		return nodes[i].hash < nodes[j].hash
 	})
 
@@ -54,17 +57,14 @@ func (r *Ring) Pick(key string) Server {
 
 	lower := 0
 	upper := len(r.nodes) - 1
-Search:
 	for lower <= upper {
 		idx := (lower + upper) / 2
 
 		t := r.nodes[idx].hash
 		switch {
-		case t == h:
-			break Search
 		case h < t:
 			upper = idx - 1
-		case t < h:
+		case t <= h:
 			lower = idx + 1
 		}
 	}
-- 
2.43.0


From 384a8b0bb4cd96a022a00185facfd605915939ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 24/40] fix: closing the pool closes every server

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 5bded3bc2750a7085a6636c5749ffaa5b14a058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 25/40] fix: do not send the CAS token of the primary to the
 secondary

---
 cluster/cluster.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..758376e 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,7 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +66,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +74,15 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.secondary.Pick(item.Key).Set(withoutCas(item))
+}
+
+// withoutCas returns the item to be stored on the secondary.
+// The CAS token belongs to the primary.
+func withoutCas(item *client.Item) *client.Item {
+	i := *item
+	i.Cas = 0
+	return &i
 }
 
 func (p *ReplicaPool) Delete(key string) error {
-- 
2.43.0


From c822d78860217ad248ea5a3d7fb0174ffb22bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 26/40] fix: do not panic on negative lengths and empty flags
 in text and meta requests

---
 server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..4701781 100644
--- a/server/server.go
+++ b/server/server.go
@@ -150,6 +150,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if err != nil {
 			return nil, err
 		}
+		if bufLen < 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		buf := make([]byte, bufLen+2)
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
 			return nil, err
@@ -234,6 +237,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		opt := &SetOpt{Meta: true, Size: int(v)}
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
+				if len(f) == 0 {
+					return nil, errors.New("server: invalid request")
+				}
 				switch f[0] {
 				case 'C':
 					opt.Cas = true
@@ -276,6 +282,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			}
 		}
 
+		if opt.Size < 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		buf := make([]byte, opt.Size+2)
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
 			return nil, err
-- 
2.43.0


From de8873464235b00f383be53a3f417df44306a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 27/40] fix: reject binary requests with inconsistent lengths

---
 server/server.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/server/server.go b/server/server.go
index 4701781..f45c6b9 100644
--- a/server/server.go
+++ b/server/server.go
@@ -310,6 +310,10 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	if !validBodyLength(header) {
+		return nil, errors.New("server: invalid request")
+	}
+
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
@@ -402,6 +406,27 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// validBodyLength reports whether the lengths of the extras, the key and the body
+// in the request header agree with each other and with the opcode.
+func validBodyLength(header []byte) bool {
+	keyLength := uint64(binary.BigEndian.Uint16(header[2:4]))
+	extraLength := uint64(header[4])
+	totalBodyLength := uint64(binary.BigEndian.Uint32(header[8:12]))
+
+	switch Opcode(header[1]) {
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		return extraLength == 8 && totalBodyLength >= extraLength+keyLength
+	case OpcodeIncrement, OpcodeDecrement:
+		return extraLength == 20 && totalBodyLength == extraLength+keyLength
+	case OpcodeTouch:
+		return extraLength == 4 && totalBodyLength == extraLength+keyLength
+	case OpcodeGet, OpcodeGetKQ, OpcodeDelete:
+		return extraLength == 0 && totalBodyLength == keyLength
+	}
+
+	return totalBodyLength == 0
+}
+
 type Opcode byte
 
 type Handler interface {
-- 
2.43.0


From ed562bf7a4419756882dcf9f7edfa9952f58df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 28/40] fix: flags are unsigned 32-bit numbers

---
 server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index f45c6b9..61afe52 100644
--- a/server/server.go
+++ b/server/server.go
@@ -135,7 +135,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -249,7 +249,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From c91f57fb9d8dbab945ca600f226cc6b41572638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 29/40] fix: decode 64-bit deltas and the expiration of touch

---
 server/server.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 61afe52..396b599 100644
--- a/server/server.go
+++ b/server/server.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"strconv"
 	"strings"
@@ -177,11 +178,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			opt.Meta = true
 		}
 		return &Request{Opcode: OpcodeDelete, Key: s[1], DelOpt: opt}, nil
-	case "incr", "decr", "touch":
+	case "incr", "decr":
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		d, err := strconv.ParseUint(s[2], 10, 63)
 		if err != nil {
 			return nil, err
 		}
@@ -189,10 +190,17 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		switch s[0] {
 		case "decr":
 			opcode = OpcodeDecrement
-		case "touch":
-			opcode = OpcodeTouch
 		}
-		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
+		return &Request{Opcode: opcode, Key: s[1], Delta: int64(d)}, nil
+	case "touch":
+		if len(s) != 3 {
+			return nil, errors.New("server: invalid request")
+		}
+		expiration, err := strconv.ParseInt(s[2], 10, 32)
+		if err != nil {
+			return nil, err
+		}
+		return &Request{Opcode: OpcodeTouch, Key: s[1], SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case "mg":
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
@@ -371,6 +379,9 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
+		if delta > math.MaxInt64 {
+			return nil, errors.New("server: invalid request")
+		}
 		expiration := binary.BigEndian.Uint32(extra[16:20])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
-- 
2.43.0


From 08aaa687e1987bd9dec0cdaeaf79d9188eab2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 30/40] fix: decode the CAS token of binary storage requests

---
 server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 396b599..305a2b6 100644
--- a/server/server.go
+++ b/server/server.go
@@ -352,6 +352,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 
+		cas := binary.BigEndian.Uint64(header[16:24])
 		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
 		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
 		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
@@ -362,8 +363,12 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
-			Flags:  extra[:4],
+			SetOpt: &SetOpt{
+				Expiration: int(expiration),
+				Cas:        cas != 0,
+				CasValue:   cas,
+			},
+			Flags: extra[:4],
 		}, nil
 	case OpcodeDelete:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
-- 
2.43.0


From 7040621936253dc44f18860a862fdfab1157afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 31/40] fix: get takes several keys and gets answers with CAS
 tokens

---
 server/server.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 305a2b6..07152bd 100644
--- a/server/server.go
+++ b/server/server.go
@@ -126,12 +126,18 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 
 	switch s[0] {
 	case "get":
-		if len(s) != 2 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
+		if len(s) > 2 {
+			return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
-		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
+		return &Request{Opcode: OpcodeGet, Keys: s[1:], GetOpt: &GetOpt{Cas: true}}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
@@ -578,9 +584,9 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
-		if req.GetOpt == nil {
+		if req.GetOpt == nil || !req.GetOpt.Meta {
 			for _, r := range res {
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -668,13 +674,13 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d",
 			r.Key,
 			flag,
 			len(r.Value),
@@ -683,6 +689,12 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 	if err != nil {
 		return err
 	}
+	if req.GetOpt != nil && req.GetOpt.Cas {
+		conn.connBuf.WriteString(" " + strconv.FormatUint(uint64(r.Cas), 10))
+	}
+	if _, err := conn.connBuf.Write(crlf); err != nil {
+		return err
+	}
 	if _, err := conn.connBuf.Write(r.Value); err != nil {
 		return err
 	}
-- 
2.43.0


From b5f0213593975431a885b9f21e787a02465c2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 32/40] fix: meta get replies in the format of the protocol

---
 server/server.go | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/server/server.go b/server/server.go
index 07152bd..e26f39c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -208,12 +208,12 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeTouch, Key: s[1], SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
 	case "mg":
-		if len(s) < 3 {
+		if len(s) < 2 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], "")}
+		if len(opt.RequestFlag) > 0 {
+			for _, f := range opt.RequestFlag {
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -709,37 +709,42 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 	if len(r.Flags) > 0 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
+	status := "HD"
+	if req.GetOpt.Value {
+		status = fmt.Sprintf("VA %d", len(r.Value))
+	}
+	if _, err := conn.connBuf.WriteString(status); err != nil {
 		return err
 	}
 	for _, v := range req.GetOpt.RequestFlag {
 		switch v {
 		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
+			conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
 		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
+			conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
 		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
+			conn.connBuf.WriteString(" k" + req.Key)
 		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
+			conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
 		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+			ttl := r.TTL
+			if ttl == 0 {
+				// The item does not expire.
+				ttl = -1
+			}
+			conn.connBuf.WriteString(" t" + strconv.FormatInt(ttl, 10))
 		}
 	}
-	conn.connBuf.Write(crlf)
+	if _, err := conn.connBuf.Write(crlf); err != nil {
+		return err
+	}
 	if req.GetOpt.Value {
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 121551eaf377029b8d353beb4a35d750782ecd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 33/40] fix: do not panic on flags that are not four bytes

---
 server/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index e26f39c..abe5b5f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -676,7 +676,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 
 func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	_, err := conn.connBuf.WriteString(
@@ -706,7 +706,7 @@ func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) er
 }
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
 	status := "HD"
-- 
2.43.0


From 454f062a277b9336f8054b9f00618cc2f2603108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 34/40] fix: answer misses and errors in text and meta protocol

---
 server/server.go | 91 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 7 deletions(-)

diff --git a/server/server.go b/server/server.go
index abe5b5f..15519e0 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -584,6 +586,10 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
+		res, err := foundResponses(res)
+		if err != nil {
+			return s.writeAsciiError(conn, req, err)
+		}
 		if req.GetOpt == nil || !req.GetOpt.Meta {
 			for _, r := range res {
 				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
@@ -600,7 +606,7 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 					return err
 				}
 			}
-			if len(res) == 0 {
+			if len(res) == 0 && !req.GetOpt.NoReply {
 				conn.connBuf.Write(metaProtoEnd)
 			}
 			if err := conn.connBuf.Flush(); err != nil {
@@ -608,7 +614,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			if req.SetOpt.Meta {
 				conn.connBuf.Write(metaProtoStored)
 				conn.connBuf.Write(crlf)
@@ -623,7 +631,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 		}
 	case OpcodeDelete:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			if req.DelOpt.Meta {
 				conn.connBuf.Write(metaProtoDeleted)
 				conn.connBuf.Write(crlf)
@@ -638,7 +648,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 		}
 	case OpcodeIncrement, OpcodeDecrement:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			conn.connBuf.Write(res[0].Value)
 			conn.connBuf.Write(crlf)
 			if err := conn.connBuf.Flush(); err != nil {
@@ -646,7 +658,9 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 		}
 	case OpcodeVersion:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			conn.connBuf.Write(res[0].Value)
 			conn.connBuf.Write(crlf)
 			if err := conn.connBuf.Flush(); err != nil {
@@ -654,14 +668,18 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 			}
 		}
 	case OpcodeTouch:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			conn.connBuf.Write(textProtoTouched)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
 		}
 	case OpcodeFlush:
-		if res[0].Error == nil {
+		if err := responseError(res); err != nil {
+			return s.writeAsciiError(conn, req, err)
+		} else {
 			conn.connBuf.Write(textProtoOk)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
@@ -674,6 +692,65 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
+// writeAsciiError writes the reply that tells the client that the request failed with e.
+func (s *Server) writeAsciiError(conn *conn, req *Request, e error) error {
+	reply := "SERVER_ERROR " + strings.NewReplacer("\r", " ", "\n", " ").Replace(e.Error())
+
+	meta := false
+	switch req.Opcode {
+	case OpcodeSet:
+		meta = req.SetOpt.Meta
+	case OpcodeDelete:
+		meta = req.DelOpt.Meta
+	}
+	switch {
+	case isStatus(e, merrors.ItemNotFound) && meta:
+		reply = "NF"
+	case isStatus(e, merrors.ItemExists) && meta:
+		reply = "EX"
+	case isStatus(e, merrors.ItemExists) && req.Opcode == OpcodeAdd,
+		isStatus(e, merrors.ItemNotFound) && req.Opcode == OpcodeReplace:
+		reply = "NOT_STORED"
+	case isStatus(e, merrors.ItemNotFound):
+		reply = "NOT_FOUND"
+	case isStatus(e, merrors.ItemExists):
+		reply = "EXISTS"
+	}
+
+	conn.connBuf.WriteString(reply)
+	conn.connBuf.Write(crlf)
+	return conn.connBuf.Flush()
+}
+
+// foundResponses returns the items which are found.
+// If the handler failed for a reason other than a miss, the error will be returned.
+func foundResponses(res []*Response) ([]*Response, error) {
+	found := make([]*Response, 0, len(res))
+	for _, r := range res {
+		if r.Error == nil {
+			found = append(found, r)
+		} else if !isStatus(r.Error, merrors.ItemNotFound) {
+			return nil, r.Error
+		}
+	}
+
+	return found, nil
+}
+
+// responseError returns the error of the only response of a request.
+func responseError(res []*Response) error {
+	if len(res) == 0 {
+		return errors.New("server: no response")
+	}
+
+	return res[0].Error
+}
+
+func isStatus(err error, status *merrors.MemcachedError) bool {
+	e, ok := err.(*merrors.MemcachedError)
+	return ok && e.Status == status.Status
+}
+
 func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
 	if len(r.Flags) == 4 {
-- 
2.43.0


From fa0614066bf5f14bfcdba275a7c624f05fd4a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 35/40] fix: answer misses and errors in binary protocol

---
 server/server.go | 87 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 24 deletions(-)

diff --git a/server/server.go b/server/server.go
index 15519e0..2fa2007 100644
--- a/server/server.go
+++ b/server/server.go
@@ -59,6 +59,9 @@ var (
 	metaProtoDeleted = []byte("HD")
 )
 
+// binaryStatusInternalError is the status of failures without a status of the protocol.
+const binaryStatusInternalError uint16 = 0x84
+
 var crlf = []byte("\r\n")
 
 type Protocol string
@@ -830,47 +833,83 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
 	switch req.Opcode {
 	case OpcodeGet:
-		for _, v := range res {
-			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
-				return err
+		res, err := foundResponses(res)
+		if err == nil && len(res) == 0 {
+			if req.GetOpt != nil && req.GetOpt.NoReply {
+				return nil
 			}
+			err = merrors.ItemNotFound
 		}
-		if len(res) > 1 {
-			r := &Response{}
-			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
-				return err
-			}
+		if err != nil {
+			return writeBinaryError(conn, req, err)
 		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
 		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
+		if err := responseError(res); err != nil {
+			return writeBinaryError(conn, req, err)
 		}
+		return res[0].writeAsBinaryProtocol(conn, req)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
-
-	return nil
 }
 
-func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+// writeBinaryError writes the reply that tells the client that the request failed with e.
+func writeBinaryError(conn *conn, req *Request, e error) error {
+	status := binaryStatusInternalError
+	if v, ok := e.(*merrors.MemcachedError); ok && v.Status != 0 {
+		status = v.Status
+	}
+	message := e.Error()
+
 	header := make([]byte, 24)
 	header[0] = magicResponse
-	header[1] = byte(req.Opcode)
-	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
-	header[4] = uint8(len(r.Flags))
-	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	header[1] = binaryResponseOpcode(req)
+	binary.BigEndian.PutUint16(header[6:8], status)
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(message)))
 
 	conn.connBuf.Write(header)
-	if len(r.Flags) > 0 {
-		conn.connBuf.Write(r.Flags)
-	}
-	if len(r.Key) > 0 {
-		conn.connBuf.Write([]byte(r.Key))
+	conn.connBuf.WriteString(message)
+	return conn.connBuf.Flush()
+}
+
+func binaryResponseOpcode(req *Request) byte {
+	if req.Opcode == OpcodeGet && req.GetOpt != nil && req.GetOpt.Key {
+		return byte(OpcodeGetKQ)
 	}
-	if len(r.Value) > 0 {
-		conn.connBuf.Write(r.Value)
+
+	return byte(req.Opcode)
+}
+
+func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+	var extra, key, value []byte
+	switch req.Opcode {
+	case OpcodeGet:
+		extra = make([]byte, 4)
+		if len(r.Flags) == 4 {
+			extra = r.Flags
+		}
+		if req.GetOpt != nil && req.GetOpt.Key {
+			key = []byte(r.Key)
+		}
+		value = r.Value
+	case OpcodeIncrement, OpcodeDecrement, OpcodeVersion:
+		value = r.Value
 	}
+
+	header := make([]byte, 24)
+	header[0] = magicResponse
+	header[1] = binaryResponseOpcode(req)
+	binary.BigEndian.PutUint16(header[2:4], uint16(len(key)))
+	header[4] = uint8(len(extra))
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(key)+len(extra)+len(value)))
+	binary.BigEndian.PutUint64(header[16:24], uint64(r.Cas))
+
+	conn.connBuf.Write(header)
+	conn.connBuf.Write(extra)
+	conn.connBuf.Write(key)
+	conn.connBuf.Write(value)
 	if err := conn.connBuf.Flush(); err != nil {
 		return err
 	}
-- 
2.43.0


From 0748baef8985f1491f940cf296315edfe39b7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 36/40] fix: proxy returns flags, CAS token and TTL of every
 requested key

---
 proxy/replica_pool.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..fe5595c 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -20,6 +20,20 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if len(req.Keys) > 0 {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				if _, ok := err.(*merrors.MemcachedError); ok {
+					return []*server.Response{{Error: err}}, nil
+				}
+				return nil, err
+			}
+			res := make([]*server.Response, 0, len(items))
+			for _, item := range items {
+				res = append(res, itemResponse(item))
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,7 +41,7 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{itemResponse(res)}, nil
 	case server.OpcodeSet:
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
@@ -47,3 +61,13 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+func itemResponse(item *client.Item) *server.Response {
+	return &server.Response{
+		Key:   item.Key,
+		Flags: item.Flags,
+		Value: item.Value,
+		Cas:   int64(item.Cas),
+		TTL:   int64(item.Expiration),
+	}
+}
-- 
2.43.0


From f9189d1f1312349d8d5bc2ff9852ceae1d648c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 37/40] fix: proxy keeps the flags of meta sets

---
 proxy/replica_pool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index fe5595c..c7ab4d3 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,6 +1,7 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
 
 	"go.f110.dev/go-memcached/client"
@@ -43,10 +44,15 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		}
 		return []*server.Response{itemResponse(res)}, nil
 	case server.OpcodeSet:
+		flags := req.Flags
+		if req.SetOpt.Meta && len(flags) == 0 {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
-- 
2.43.0


From 1d04d54729a3a38b2e5873e6f9797a20d369d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 38/40] fix: bazel dependency of the server on the errors
 package

---
 server/BUILD.bazel | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/BUILD.bazel b/server/BUILD.bazel
index e173b6a..852f864 100644
--- a/server/BUILD.bazel
+++ b/server/BUILD.bazel
@@ -5,6 +5,7 @@ go_library(
     srcs = ["server.go"],
     importpath = "go.f110.dev/go-memcached/server",
     visibility = ["//visibility:public"],
+    deps = ["//errors:go_default_library"],
 )
 
 go_test(
-- 
2.43.0


From b98e79a18a75f16a6b35bced6ab8e2e8fcd60272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 39/40] fix: heartbeat revived a client closed during a probe

---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 9f736b5..67db17a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -177,12 +177,12 @@ func (s *ServerWithTextProtocol) Close() error {
 		return errors.New("memcached: already closed")
 	}
 
-	err := s.raw.Close()
-	s.raw = nil
 	if s.closeCh != nil {
 		close(s.closeCh)
 		s.closeCh = nil
 	}
+	err := s.raw.Close()
+	s.raw = nil
 	return err
 }
 
@@ -1908,6 +1908,12 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 		case <-ticker.C:
 			_, err := s.Version()
 			if err != nil {
+				select {
+				case <-closeCh:
+					// the probe failed because the client has been closed
+					return
+				default:
+				}
 				if reconnect {
 					// a failed reconnect is tried again on the next tick
 					s.Reconnect()
-- 
2.43.0


From 4bab67ee86cf274c93631f089a7873932ab8c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 40/40] fix: closing a client raced with its operations

---
 client/server.go | 60 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/client/server.go b/client/server.go
index 67db17a..f3b3020 100644
--- a/client/server.go
+++ b/client/server.go
@@ -134,8 +134,12 @@ type ServerWithTextProtocol struct {
 
 	conn    *bufio.ReadWriter
 	closeCh chan struct{}
+	closed  bool
 	raw     net.Conn
 	mu      sync.Mutex
+	// closeMu guards closeCh and closed. raw is written under mu and closeMu both,
+	// so that Close does not have to wait for the operation which is running.
+	closeMu sync.Mutex
 }
 
 var _ Server = &ServerWithTextProtocol{}
@@ -173,7 +177,10 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
-	if s.raw == nil {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	if s.closed {
 		return errors.New("memcached: already closed")
 	}
 
@@ -181,9 +188,15 @@ func (s *ServerWithTextProtocol) Close() error {
 		close(s.closeCh)
 		s.closeCh = nil
 	}
-	err := s.raw.Close()
-	s.raw = nil
-	return err
+	s.closed = true
+	return s.raw.Close()
+}
+
+func (s *ServerWithTextProtocol) isClosed() bool {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
+	return s.closed
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
@@ -199,7 +212,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closed = false
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -208,7 +224,7 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return nil, errors.New("memcached: closed")
 	}
 
@@ -243,7 +259,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return nil, errors.New("memcached: closed")
 	}
 
@@ -328,7 +344,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -369,7 +385,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return 0, errors.New("memcached: closed")
 	}
 
@@ -405,7 +421,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -439,7 +455,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -491,7 +507,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -531,7 +547,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -571,7 +587,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return errors.New("memcached: closed")
 	}
 
@@ -603,7 +619,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
+	if s.isClosed() {
 		return "", errors.New("memcached: closed")
 	}
 
@@ -644,6 +660,9 @@ type ServerWithMetaProtocol struct {
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 	mu      sync.Mutex
+	// closeMu guards closeCh. raw is written under mu and closeMu both,
+	// so that Close does not have to wait for the operation which is running.
+	closeMu sync.Mutex
 }
 
 var _ Server = &ServerWithMetaProtocol{}
@@ -693,7 +712,9 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -1125,6 +1146,9 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
 	if s.closeCh != nil {
 		close(s.closeCh)
 		s.closeCh = nil
@@ -1141,6 +1165,9 @@ type ServerWithBinaryProtocol struct {
 
 	closeCh chan struct{}
 	mu      sync.Mutex
+	// closeMu guards closeCh. raw is written under mu and closeMu both,
+	// so that Close does not have to wait for the operation which is running.
+	closeMu sync.Mutex
 	conn    *bufio.ReadWriter
 	raw     net.Conn
 
@@ -1201,7 +1228,9 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 	if err != nil {
 		return err
 	}
+	s.closeMu.Lock()
 	s.raw = conn
+	s.closeMu.Unlock()
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
@@ -1797,6 +1826,9 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
+	s.closeMu.Lock()
+	defer s.closeMu.Unlock()
+
 	if s.closeCh != nil {
 		close(s.closeCh)
 		s.closeCh = nil
-- 
2.43.0

