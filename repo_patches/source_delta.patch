From 04f00df8b10f6abca962cb0e491e059a5b676553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 01/87] fix: don't deadlock account delivery when a message
 arrives before the reader starts

Deliver may fill the one deep work channel of a user that just came online
before the delivery goroutine performed its own initial send.  The goroutine
is the only reader and blocked forever, the user never received a message.
---
 zkserver/account/account.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..0f10cdf 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -425,8 +425,11 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
+		// first time around start delivering, unless Deliver beat us to it
+		select {
+		case dn.work <- struct{}{}:
+		default:
+		}
 
 		for {
 			select {
-- 
2.43.0


From 238c906e0192fdc3378e78c6d08a7cd6e985b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 02/87] fix: skip messages that were acknowledged while the
 mailbox was scanned

A delivered message may be acknowledged, and therefore deleted, between
reading the mailbox directory and opening the file.  That was reported as a
notification error which terminates the session of the user.
---
 zkserver/account/account.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 0f10cdf..9c57a3d 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -460,6 +460,13 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 
 				filename := path.Join(cache, v.Name())
 				f, err := os.Open(filename)
+				if os.IsNotExist(err) {
+					// acknowledged after the directory was read
+					a.Lock()
+					delete(dn.processed, v.Name())
+					a.Unlock()
+					continue
+				}
 				if err != nil {
 					dn.send(&Notification{
 						Error: fmt.Errorf("%v: %v",
-- 
2.43.0


From a4d97e5849c9023de41895cd93a1b2695888c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 03/87] fix: deliver messages atomically

A message was written in place.  A crash, or a reader that came online at the
wrong moment, could therefore see a partial message which terminates every
session of the recipient or is pushed truncated.  Two deliveries at the same
instant could also overwrite one another since the duplicate filename check
was made without holding the mutex.
---
 zkserver/account/account.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 9c57a3d..318b0c1 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -308,6 +308,27 @@ func (a *Account) Pull(id [zkidentity.IdentitySize]byte) error {
 	return nil
 }
 
+// writeMessage writes a message to a temporary file and moves it to fullPath
+// once it is safely on disk.  A partial message is therefore never visible.
+func writeMessage(tmpDir, fullPath string, data []byte) error {
+	f, err := ioutil.TempFile(tmpDir, "deliver")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), fullPath)
+}
+
 // Deliver physically drops a message on disk.  It returns the fullpath so that
 // callers can pretty log deliveries.
 func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.IdentitySize]byte, payload []byte, cleartext bool) (string, error) {
@@ -340,8 +361,14 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	a.Lock()
 	defer a.Unlock()
 
+	// check again with the mutex held, someone may have been faster
+	_, err = os.Stat(fullPath)
+	if err == nil {
+		return "", fmt.Errorf("duplicate filename %v", filename)
+	}
+
 	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	err = writeMessage(a.accountDir(to), fullPath, b.Bytes())
 	if err != nil {
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
-- 
2.43.0


From 83baa3366c3f6a0b8a1f9ed78c348f56ac45bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 04/87] fix: replace the inidb file atomically

A crash between the two renames left no database behind, write errors went
unnoticed and the default table could be written below another table's header.
---
 inidb/inidb.go | 64 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..3c04733 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,11 +10,13 @@
 package inidb
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -107,26 +109,24 @@ func (i *INIDB) Save() error {
 	}
 
 	// save all records
-	fmt.Fprintf(f, "%v\n", auto)
-	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
-		}
-		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
-		}
-		fmt.Fprintf(f, "\n")
+	err = i.write(f)
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
 	}
-	f.Close()
 
-	// backup original
+	// backup original, it remains in place until it is replaced
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		err = copyFile(backup, i.filename)
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			_ = os.Remove(f.Name())
+			return fmt.Errorf("could not backup original file: %v",
 				err)
 		}
 	}
@@ -134,6 +134,7 @@ func (i *INIDB) Save() error {
 	// rename new one
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		_ = os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
@@ -142,6 +143,43 @@ func (i *INIDB) Save() error {
 	return i.prune()
 }
 
+// write dumps all tables to f and flushes it to disk.
+func (i *INIDB) write(f *os.File) error {
+	var b bytes.Buffer
+	fmt.Fprintf(&b, "%v\n", auto)
+
+	// The default table has no header and therefore must come first.
+	tables := make([]string, 0, len(i.tables))
+	for tk := range i.tables {
+		tables = append(tables, tk)
+	}
+	sort.Strings(tables)
+
+	for _, tk := range tables {
+		if tk != "" {
+			fmt.Fprintf(&b, "[%v]\n", tk)
+		}
+		for rk, rv := range i.tables[tk] {
+			fmt.Fprintf(&b, "%v = %v\n", rk, rv)
+		}
+		fmt.Fprintf(&b, "\n")
+	}
+
+	_, err := f.Write(b.Bytes())
+	if err != nil {
+		return err
+	}
+	return f.Sync()
+}
+
+func copyFile(to, from string) error {
+	b, err := ioutil.ReadFile(from)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(to, b, 0600)
+}
+
 func (i *INIDB) prune() error {
 	if i.depth < 0 {
 		return nil
-- 
2.43.0


From d0622542f611cb7f08e9ba4cf26ae30d05ed9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 05/87] fix: don't write inidb records that can't be read back

A newline or an equal sign in a record or table name corrupted other records or
made the database unreadable, and a new empty table was not saved.
---
 inidb/inidb.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 3c04733..91a1d23 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -31,6 +31,7 @@ const (
 var (
 	ErrNotFound = errors.New("record not found")
 	ErrCreated  = errors.New("database created")
+	ErrInvalid  = errors.New("invalid record")
 )
 
 // INIDB is an opaque structure that contains the database context.
@@ -156,6 +157,9 @@ func (i *INIDB) write(f *os.File) error {
 	sort.Strings(tables)
 
 	for _, tk := range tables {
+		if !validTable(tk) {
+			continue // has no records
+		}
 		if tk != "" {
 			fmt.Fprintf(&b, "[%v]\n", tk)
 		}
@@ -227,8 +231,22 @@ func (i *INIDB) Get(table string, key string) (string, error) {
 	return value, nil
 }
 
+// validTable returns true if the table name can be read back once it is saved.
+func validTable(table string) bool {
+	return !strings.ContainsAny(table, "=\r\n")
+}
+
+// validRecord returns true if the record can be read back once it is saved.
+func validRecord(key, value string) bool {
+	k := strings.TrimSpace(key)
+	return k != "" && k[0] != '#' && k[0] != ';' &&
+		!strings.ContainsAny(key, "=\r\n") &&
+		!strings.ContainsAny(value, "\r\n")
+}
+
 // Set creates/overwrites a record in table.  If table does not exist
-// ErrNotFound is returned.
+// ErrNotFound is returned.  If the record can't be represented in the
+// database ErrInvalid is returned.
 func (i *INIDB) Set(table, key, value string) error {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
@@ -237,6 +255,9 @@ func (i *INIDB) Set(table, key, value string) error {
 	if !ok {
 		return ErrNotFound
 	}
+	if !validTable(table) || !validRecord(key, value) {
+		return ErrInvalid
+	}
 	s[key] = value
 	i.dirty = true
 
@@ -265,6 +286,7 @@ func (i *INIDB) NewTable(table string) {
 	defer i.mtx.Unlock()
 
 	i.tables.Section(table)
+	i.dirty = true
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From 19b875fe5031cebbe5109189e784b2074c88a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 06/87] fix: create accounts atomically

A crash in the middle left an account behind that could neither be created again
nor receive messages, and a disabled identity could create a second account.
---
 zkserver/account/account.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 318b0c1..6e98e50 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -135,9 +135,23 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 		}
 	}
 
+	if !force && a.Disabled(pid.Identity) {
+		return fmt.Errorf("account is disabled: %v", accountName)
+	}
+
+	// Assemble a new account on the side and move it in place once it is
+	// complete.
+	dir := accountName
+	if os.IsNotExist(err) {
+		dir, err = ioutil.TempDir(a.root, ".create")
+		if err != nil {
+			return fmt.Errorf("could not create directory: %v", err)
+		}
+		defer os.RemoveAll(dir)
+	}
+
 	// open user db
-	user, err := inidb.New(a.accountFile(pid.Identity,
-		UserIdentityFilename), true, 10)
+	user, err := inidb.New(path.Join(dir, UserIdentityFilename), true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open userdb: %v", err)
 	}
@@ -159,11 +173,18 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	}
 
 	// make additional directories
-	err = os.Mkdir(a.accountFile(pid.Identity, CacheDir), 0700)
+	err = os.Mkdir(path.Join(dir, CacheDir), 0700)
 	if err != nil && !os.IsExist(err) {
 		return fmt.Errorf("could not create cache directory: %v", err)
 	}
 
+	if dir != accountName {
+		err = os.Rename(dir, accountName)
+		if err != nil {
+			return fmt.Errorf("could not create account: %v", err)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5ee9e4db1de02e88fa9bd0b7e1b83f19d4624095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 07/87] fix: don't let a single broken account disable the
 directory

---
 zkserver/account/account.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 6e98e50..bd41fca 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -222,8 +222,7 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		dirname := path.Join(a.root, v.Name())
 		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
 		if err != nil {
-			a.Unlock()
-			return nil, fmt.Errorf("could not find user: %v", err)
+			continue // not a usable account, others may be
 		}
 		a.Unlock()
 
-- 
2.43.0


From 388269792ed051cd718584816f6f2189d3d3c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 08/87] fix: decrypt empty messages that arrive out of order

---
 ratchet/ratchet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..e82f970 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -321,6 +321,10 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 		if len(messageKeys) == 0 {
 			delete(r.saved, headerKey)
 		}
+		if msg == nil {
+			// Callers use nil to tell that there is no saved key.
+			msg = []byte{}
+		}
 		return msg, nil
 	}
 
-- 
2.43.0


From 64e2c537ebf65181ae1c6d70ef760cd4d4c12582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 09/87] fix: refuse packed blobs that are too short

---
 blobshare/blobshare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..1219098 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -6,6 +6,7 @@ package blobshare
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 
@@ -17,6 +18,8 @@ var (
 	n = 16384
 	r = 8
 	p = 1
+
+	errShort = errors.New("packed data too short")
 )
 
 func SetNrp(nn, rr, pp int) {
@@ -78,6 +81,10 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		err = errShort
+		return
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +106,10 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		err = errShort
+		return
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From ecdbee54a50abd038e852cb92b79b6e21acdc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 10/87] fix: a refused oversized write must not desynchronise
 the session

---
 session/kx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..89415a7 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -416,11 +416,12 @@ func (kx *KX) Read() ([]byte, error) {
 }
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
-	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
-	if uint(len(payload)) > kx.MaxMessageSize {
+	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
+		// nothing is sent, don't use up a sequence number
 		return ErrOverflow
 	}
+	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From 9cbf5af04d3e2230d7851dc81cbf7b47320909f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 11/87] fix: log text with percent signs faithfully

---
 debug/debug.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/debug/debug.go b/debug/debug.go
index 5f35f4b..fee3e87 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -30,7 +30,7 @@ type Debug struct {
 
 func (d *Debug) Log(id int, format string, args ...interface{}) {
 	s := ttk.Unescape(fmt.Sprintf(format, args...))
-	d.log(id, "[LOG] ", s)
+	d.log(id, "[LOG] ", "%s", s)
 }
 
 func (d *Debug) Info(id int, format string, args ...interface{}) {
@@ -86,7 +86,7 @@ func (d *Debug) log(id int, prefix string, format string, args ...interface{}) {
 	defer f.Close()
 
 	t := time.Now().Format(d.format)
-	fmt.Fprintf(f, t+" "+s+prefix+format+"\n", args...)
+	fmt.Fprint(f, t+" "+s+prefix+fmt.Sprintf(format, args...)+"\n")
 }
 
 func New(filename, format string) (*Debug, error) {
-- 
2.43.0


From 226c0c63d2d39ac92f13a01c631a31c3a7f7d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 12/87] fix: don't list an identity under two nicks

---
 zkclient/addressbook/addressbook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkclient/addressbook/addressbook.go b/zkclient/addressbook/addressbook.go
index 4dab2c4..b7f5ab2 100644
--- a/zkclient/addressbook/addressbook.go
+++ b/zkclient/addressbook/addressbook.go
@@ -51,6 +51,13 @@ func (a *AddressBook) Add(identity zkidentity.PublicIdentity) (string, error) {
 		err   error
 	)
 
+	// an identity is only known by one nick
+	for k, v := range a.identities {
+		if k != identity.Nick && v.Identity == identity.Identity {
+			delete(a.identities, k)
+		}
+	}
+
 	for {
 		i, found = a.identities[identity.Nick]
 		if found {
-- 
2.43.0


From c1eb441c2d20ed26a9fe4ca782e6ea1b7bf7d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 13/87] fix: an identity only verifies when its handle belongs
 to its key

---
 zkidentity/zkidentity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..f8705a3 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,10 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the identity must belong to the key
+	if p.Identity != sha256.Sum256(p.Key[:]) {
+		return false
+	}
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From aa780c878aadd225edde067630d9d9526c44cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 14/87] fix: reject tag 32, it is out of range

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From ba31c9a27170caceda34e62ee43c7d11bd2791f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 15/87] fix: ignore acknowledgement of a tag that is not
 outstanding

---
 zkserver/zkserver.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..3c1c581 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -521,8 +521,15 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				rids,
 				message.Tag)
 
+			// nothing outstanding, there is no tag to give back
+			if m == nil {
+				z.Error(idS, "handleSession: %v unexpected ack "+
+					"tag %v", rids, message.Tag)
+				break
+			}
+
 			// sanity
-			if m != nil && m.Message.Tag != message.Tag {
+			if m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
 					m.Message.Tag,
@@ -530,7 +537,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 					rids)
 			}
 			// see if we have work to do
-			if m != nil && m.Message.Command == rpc.TaggedCmdPush {
+			if m.Message.Command == rpc.TaggedCmdPush {
 				from := kx.TheirIdentity().([32]byte)
 				// err is reporting only
 				err = z.account.Delete(from, m.Identifier)
-- 
2.43.0


From c5be73b43f57eefcf3998bc957fe6182097ddab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 16/87] fix: don't block on a session that is going away

---
 zkserver/zkserver.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 3c1c581..584aa10 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -220,6 +220,15 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// discard whatever is left so that no one blocks on writer
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
@@ -295,6 +304,12 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 					err)
 				return
 			}
+			select {
+			case <-sc.quit:
+				z.T(idS, "sessionNtfn quit: %v", sc.rids)
+				return
+			default:
+			}
 			sc.Lock()
 			if sc.tagMessage[tag] != nil {
 				sc.Unlock()
@@ -326,7 +341,12 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 				r.Message.Command,
 				r.Message.Tag)
 
-			sc.writer <- &r
+			select {
+			case <-sc.quit:
+				z.T(idS, "sessionNtfn quit: %v", sc.rids)
+				return
+			case sc.writer <- &r:
+			}
 		}
 	}
 }
@@ -408,6 +428,11 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		// stop it all
 		close(sc.quit)
 
+		// release sessionNtfn if it is waiting for a tag
+		if sc.tagStack.Depth() == 0 {
+			sc.tagStack.Push(0)
+		}
+
 		z.account.Offline(rid)
 
 		// mark session offline
-- 
2.43.0


From 844f4e86903c4b3124282d21c1e92de9771bfcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 17/87] fix: don't unregister the session that replaced us

---
 zkserver/zkserver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 584aa10..693f11e 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -435,9 +435,11 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 		z.account.Offline(rid)
 
-		// mark session offline
+		// mark session offline, unless a new session replaced it
 		z.Lock()
-		delete(z.sessions, rids)
+		if z.sessions[rids] == &sc {
+			delete(z.sessions, rids)
+		}
 		z.Unlock()
 
 		z.Dbg(idS, "handleSession exit: %v", rids)
-- 
2.43.0


From 356260e667e352efed9a256bc894a0e3415b056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 18/87] fix: take account offline when listing it in the
 directory fails

---
 zkserver/zkserver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 693f11e..381577f 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -410,15 +410,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
-	// populate identity in directory
-	if z.settings.Directory {
-		err := z.account.Push(rid)
-		if err != nil {
-			return fmt.Errorf("handleSession: Push(%v) = %v",
-				rids, err)
-		}
-	}
-
 	tagBitmap := make([]bool, tagDepth) // see if there is a duplicate tag
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
@@ -445,6 +436,15 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// populate identity in directory
+	if z.settings.Directory {
+		err := z.account.Push(rid)
+		if err != nil {
+			return fmt.Errorf("handleSession: Push(%v) = %v",
+				rids, err)
+		}
+	}
+
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From e2a6b840cb619cfd165ce80a17d983e721e9268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 19/87] fix: answer admin requests for identities of the wrong
 length

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..1ee1b60 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 9876b841570e4f1a6f8e9f663e2ee40e255168dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 20/87] fix: knock disabled user offline whatever the case of
 the identity

---
 zkserver/zkserver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 381577f..3eb2bf0 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -793,9 +794,9 @@ func (z *ZKS) socketHandler(c net.Conn) {
 			// write reply
 			reply = z.handleIdentityDisable(jud)
 
-			// knock user offline
+			// knock user offline, sessions are lower case hex
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From 345cccdcb597d08ae6e37e53b7fd733a869f3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 21/87] fix: don't let a login outrun disabling the account

---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 3eb2bf0..6647d2c 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -437,6 +437,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// Make sure the account wasn't disabled before we were registered,
+	// from here on disabling it closes the session.
+	if !z.account.Enabled(rid) {
+		return fmt.Errorf("handleSession: %v account disabled", rids)
+	}
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
-- 
2.43.0


From ec563ff2ecf3c1979bd94b62edfcf27c70703e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 22/87] fix: a token creates one account only

---
 zkserver/pending.go  | 23 ++++++++++++++++-------
 zkserver/zkserver.go |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..685556c 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -13,7 +13,7 @@ import (
 	"github.com/companyzero/zkc/inidb"
 )
 
-func (z *ZKS) prunePending(pending *inidb.INIDB) {
+func (z *ZKS) prunePending(pending *inidb.INIDB) error {
 	r := pending.Records("")
 	for k, v := range r {
 		t, err := strconv.ParseInt(v, 10, 64)
@@ -32,13 +32,15 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 	}
 
 	// save db back
-	err := pending.Save()
-	if err != nil {
-		z.Error(idApp, "could not save pending db: %v", err)
-	}
+	return pending.Save()
 }
 
-func (z *ZKS) validToken(token string, conn net.Conn) bool {
+// validToken returns true if token may be used to create an account.  A token
+// that is used is gone; it is only valid once that is on disk.
+func (z *ZKS) validToken(token string, conn net.Conn) (valid bool) {
+	z.dbMtx.Lock()
+	defer z.dbMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
@@ -46,7 +48,14 @@ func (z *ZKS) validToken(token string, conn net.Conn) bool {
 		z.Error(idApp, "could not open pending db: %v", err)
 		return false
 	}
-	defer z.prunePending(pending) // kill all expired records
+	defer func() {
+		// kill all expired records
+		err := z.prunePending(pending)
+		if err != nil {
+			z.Error(idApp, "could not save pending db: %v", err)
+			valid = false
+		}
+	}()
 
 	// get token
 	v, err := pending.Get("", token)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 6647d2c..0575252 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -86,6 +86,8 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
+	dbMtx sync.Mutex // serializes updates of the ini databases
+
 	// Not mutex entries
 	*debug.Debug
 	account  *account.Account
-- 
2.43.0


From c103c2cf79acaf43bd81f572dc8cf5748e283c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 23/87] fix: don't create accounts for identities that don't
 verify

---
 zkserver/account.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 1ee1b60..959badc 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -54,7 +54,10 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	}
 
 	// try to create account
-	err := z.account.Create(ca.PublicIdentity, false)
+	err := zkidentity.ErrVerify
+	if ca.PublicIdentity.Verify() {
+		err = z.account.Create(ca.PublicIdentity, false)
+	}
 	if err != nil {
 		z.Error(idApp, "%v could not create account: %v",
 			conn.RemoteAddr(),
-- 
2.43.0


From 8d9d8d08e872e834243f9c712bd1b5bc904984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 24/87] fix: don't search the directory when it is not enabled

---
 zkserver/account.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 959badc..f1d08fb 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -6,6 +6,7 @@ package main
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"net"
 
@@ -15,6 +16,8 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
+var errNoDirectory = errors.New("directory not enabled")
+
 // replyAccountFailure marshals and sends a CreateAccountReply with
 // Error set.
 func (z *ZKS) accountReplyFailure(msg string, conn net.Conn,
@@ -92,7 +95,11 @@ func (z *ZKS) handleIdentityFind(writer chan *RPCWrapper, msg rpc.Message, nick
 	payload := rpc.IdentityFindReply{
 		Nick: nick,
 	}
-	id, err := z.account.Find(nick)
+	var id *zkidentity.PublicIdentity
+	err := errNoDirectory
+	if z.settings.Directory {
+		id, err = z.account.Find(nick)
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("nick not found: %v", nick)
 	} else {
-- 
2.43.0


From f01e7d811c88e47ad140bf71f475084678be59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 25/87] fix: don't share welcome properties between connections

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 0575252..eb013dc 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -168,7 +168,8 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	properties := append([]rpc.ServerProperty(nil),
+		rpc.SupportedServerProperties...)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From 645b45498216a1875fb2479c3ec923bdf1638386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 26/87] fix: don't hand out a PIN before its blob is stored

---
 zkserver/rendezvous.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..f64bbf9 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,8 +71,10 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.dbMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
+	z.dbMtx.Unlock()
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
@@ -141,20 +143,15 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	retry := 25
 
 	// open db
+	z.dbMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.dbMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -211,6 +208,15 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	// save db back, a PIN is only good when its blob is on disk
+	err = rz.Save()
+	z.dbMtx.Unlock()
+	if err != nil {
+		z.Error(idApp, "could not save rendezvous db: %v", err)
+		payload = rpc.RendezvousReply{
+			Error: "internal error, contact server administrator",
+		}
+	}
 	reply.Payload = payload
 	writer <- &reply
 	return nil
-- 
2.43.0


From a7e425eacae954f5e66e74c736615feb8eb00d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 27/87] fix: don't allocate whatever a remote claims to send

---
 zkclient/msg.go      | 10 ++++++++++
 zkclient/push.go     | 40 ++++++++++++++++++++++------------------
 zkclient/zkclient.go | 24 ++++++++++++------------
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..95245d3 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -23,8 +23,18 @@ import (
 const (
 	maxMsg  = 16
 	maxBulk = 4
+
+	// maxPayloadSize is the largest (decompressed) payload a remote may
+	// send us and thus what we are prepared to allocate for it.
+	maxPayloadSize = 16 * 1024 * 1024
 )
 
+// unmarshal performs an xdr Unmarshal operation on data that came from a
+// remote; lengths in there are not to be trusted.
+func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
+	return xdr.UnmarshalLimited(r, v, z.msgSize)
+}
+
 type queueDepth struct {
 	hi int
 	lo int
diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..35b6cfc 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -88,7 +88,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var kx rpc.KX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &kx)
+		_, err = z.unmarshal(br, &kx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal KX")
 		}
@@ -199,7 +199,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var idkx rpc.IdentityKX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &idkx)
+		_, err = z.unmarshal(br, &idkx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
@@ -319,7 +319,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &idkx)
+	_, err = z.unmarshal(br, &idkx)
 	if err != nil {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
@@ -408,7 +408,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if msg.Cleartext {
 		var pc rpc.ProxyCmd
 		brProxy := bytes.NewReader(p.Payload)
-		_, err := xdr.Unmarshal(brProxy, &pc)
+		_, err := z.unmarshal(brProxy, &pc)
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
 			nick := z.nickFromId(p.From)
@@ -478,7 +478,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err = z.unmarshal(br, &crpc)
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
@@ -489,7 +489,11 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		zr, err := zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("invalid compressed payload: %v", err)
+		}
+		rd = io.LimitReader(zr, maxPayloadSize)
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
@@ -498,7 +502,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = z.unmarshal(rd, &pm)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -514,7 +518,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = z.unmarshal(rd, &gi)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -530,7 +534,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = z.unmarshal(rd, &gj)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -546,7 +550,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -562,7 +566,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -578,7 +582,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = z.unmarshal(rd, &gp)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -594,7 +598,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = z.unmarshal(rd, &gl)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -610,7 +614,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = z.unmarshal(rd, &gu)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -626,7 +630,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = z.unmarshal(rd, &gm)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -642,7 +646,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = z.unmarshal(rd, &cn)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -658,7 +662,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = z.unmarshal(rd, &c)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -673,7 +677,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = z.unmarshal(rd, &jm)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..9367e66 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -791,7 +791,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 
 	// unmarshal header
 	br := bytes.NewReader(cmd)
-	_, err = xdr.Unmarshal(br, &command)
+	_, err = z.unmarshal(br, &command)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome header failed")
 	}
@@ -802,7 +802,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	case rpc.SessionCmdUnwelcome:
 		// unmarshal payload
 		var umsg rpc.Unwelcome
-		_, err = xdr.Unmarshal(br, &umsg)
+		_, err = z.unmarshal(br, &umsg)
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal Unwelcome payload " +
 				"failed")
@@ -818,7 +818,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = z.unmarshal(br, &wmsg)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
@@ -1300,7 +1300,7 @@ func (z *ZKC) handleRPC() {
 
 		// unmarshal header
 		br := bytes.NewReader(cmd)
-		_, err = xdr.Unmarshal(br, &message)
+		_, err = z.unmarshal(br, &message)
 		if err != nil {
 			exitError = fmt.Errorf("unmarshal header failed")
 			return
@@ -1316,7 +1316,7 @@ func (z *ZKC) handleRPC() {
 		switch message.Command {
 		case rpc.TaggedCmdPong:
 			var p rpc.Pong
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Pong")
 				return
@@ -1340,7 +1340,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousReply:
 			var r rpc.RendezvousReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal RendezvousReply")
 				return
@@ -1359,7 +1359,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousPullReply:
 			var r rpc.RendezvousPullReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"RendezvousPullReply")
@@ -1380,7 +1380,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdPush:
 			var p rpc.Push
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Push")
 				return
@@ -1431,7 +1431,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdAcknowledge:
 			var a rpc.Acknowledge
-			_, err = xdr.Unmarshal(br, &a)
+			_, err = z.unmarshal(br, &a)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"Acknowledge")
@@ -1479,7 +1479,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdIdentityFindReply:
 			var r rpc.IdentityFindReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"IdentityFindReply")
@@ -1513,7 +1513,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdProxyReply:
 			var p rpc.ProxyReply
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"ProxyReply")
@@ -2007,7 +2007,7 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 
 	// obtain answer
 	var car rpc.CreateAccountReply
-	_, err = xdr.Unmarshal(conn, &car)
+	_, err = z.unmarshal(conn, &car)
 	if err != nil {
 		return fmt.Errorf("Could not obtain create account reply")
 	}
-- 
2.43.0


From f7deb29a4f18753ed0ca25d2355fa1d228d67753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 28/87] fix: don't crash on mentions in text that changes size
 with its case

---
 zkclient/push.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 35b6cfc..6706ee1 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1220,6 +1220,17 @@ func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	return nil
 }
 
+// mentionIndex returns where nick, in any case, is mentioned in s or -1. Note
+// that changing the case of s may move things around.
+func mentionIndex(s, nick string) int {
+	for i := 0; i+len(nick) <= len(s); i++ {
+		if strings.EqualFold(s[i:i+len(nick)], nick) {
+			return i
+		}
+	}
+	return -1
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1266,8 +1277,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x := mentionIndex(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-- 
2.43.0


From 3b7722f1ece98ad6e5f827dd411970933afea582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 29/87] fix: don't spin when two keys are saved in the same
 second

---
 zkclient/blobkeys.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zkclient/blobkeys.go b/zkclient/blobkeys.go
index b6fb428..2300e79 100644
--- a/zkclient/blobkeys.go
+++ b/zkclient/blobkeys.go
@@ -61,13 +61,12 @@ func (z *ZKC) saveKey(key *[32]byte) error {
 
 	defer z.pruneKey(kdb) // kill all expired keys
 
-	for {
-		k := time.Now().Add(expiration).Unix()
+	for k := time.Now().Add(expiration).Unix(); ; k++ {
 		keyTS := strconv.FormatInt(k, 10)
 		// see if it exists
 		_, err := kdb.Get("", keyTS)
 		if err == nil {
-			// really shouldnt happen
+			// another key was saved this very second
 			continue
 		}
 
-- 
2.43.0


From edf054dcfd96622a24c65406623201b15fc7576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 30/87] fix: don't crash on group chats without members

---
 zkclient/push.go     | 5 +++++
 zkclient/zkclient.go | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 6706ee1..f889811 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1026,6 +1026,11 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	// sanity
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 9367e66..ffdd236 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1143,7 +1143,8 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			}
 
 			// See if we are the admin of the gc
-			if bytes.Equal(z.id.Public.Identity[:], g.Members[0][:]) {
+			if len(g.Members) != 0 && bytes.Equal(
+				z.id.Public.Identity[:], g.Members[0][:]) {
 				z.PrintfT(k, REDBOLD+"user %v disabled: "+
 					"please kick %v (%x) from gc"+RESET,
 					rid.Nick, rid.Nick, rid.Identity[:])
-- 
2.43.0


From dc3a5b64ffbd1ec17ff25c0251c605efeb6a5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 31/87] fix: don't crash on acknowledgement of the first
 invalid tag

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index ffdd236..68945fe 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1440,7 +1440,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
-- 
2.43.0


From da929fb51764206ee1d64e2503a3da0e814c6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 32/87] fix: don't ping with a tag we did not obtain

---
 zkclient/zkclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 68945fe..0377e8b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1264,6 +1264,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
-- 
2.43.0


From 8165dd389bb7b79320c7a6cb952383e1f9a42c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 33/87] fix: don't crash on a negative tag depth

---
 zkclient/zkclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 0377e8b..3d6e43c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -901,7 +901,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 0 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
-- 
2.43.0


From db466741380deedabd474fe03cd380516a17928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 34/87] fix: don't let a sender write files outside of the
 spool

---
 zkclient/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..27e54f1 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -157,7 +157,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		}
 
 		var fullpath, filename string
-		filename = cn.Filename
+		filename = path.Base(cn.Filename)
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From 2a8d3b03a5d1aa2b97abc3d1354c889dbbae9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 35/87] fix: don't exchange keys with identities that don't
 verify or aren't the sender

---
 zkclient/kxacceptwindow.go |  5 +++++
 zkclient/push.go           | 12 ++++++++++++
 zkclient/zkclient.go       |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..27ba45c 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -140,6 +140,11 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		if !identity.Verify() {
+			ka.Status(w, true, "invalid public identity")
+			return
+		}
+
 		// make sure we don't add ourselves
 		if bytes.Equal(ka.zkc.id.Public.Identity[:], identity.Identity[:]) {
 			ka.Status(w, true, "can't add self to address book")
diff --git a/zkclient/push.go b/zkclient/push.go
index f889811..a432e73 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -208,6 +208,12 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("can't kx with self")
 		}
 
+		// make sure the identity is valid and that of the sender
+		if !idkx.Identity.Verify() ||
+			!bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+			return fmt.Errorf("invalid identity in IdentityKX")
+		}
+
 		// create a new ratchet from idkx
 		r := ratchet.New(rand.Reader)
 		r.MyPrivateKey = &z.id.PrivateKey
@@ -328,6 +334,12 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("can't kx with self")
 	}
 
+	// make sure the identity is valid and that of the sender
+	if !idkx.Identity.Verify() ||
+		!bytes.Equal(idkx.Identity.Identity[:], p.From[:]) {
+		return fmt.Errorf("invalid identity in IdentityKX")
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 3d6e43c..e918776 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1051,6 +1051,10 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
+	if !id.Verify() {
+		return fmt.Errorf("invalid identity: %v", id.Nick)
+	}
+
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
 		return fmt.Errorf("could not encapsulate key: %v", err)
-- 
2.43.0


From 6a2d81990b706dfd90705f2a73826be91a768fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 36/87] fix: be ready for the reply before starting a key
 exchange

---
 zkclient/acceptclientfingerprint.go | 21 ++++++++++++---------
 zkclient/kxwindow.go                | 14 +++++++-------
 zkclient/push.go                    |  2 --
 zkclient/zkclient.go                | 18 +++++++++---------
 4 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index c7ebecc..74994f5 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -163,16 +163,9 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 
 		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
 
-		// send cache command, step 2 of idkx
-		err = aw.zkc.cache(aw.pid.Identity,
-			blobshare.PackNonce(nonce, encrypted))
-		if err != nil {
-			aw.Status(w, true, "could not send IdentityKX %v", err)
-			return
-		}
-
 		//
-		// if we get here save off identity, half ratchet and derived key
+		// save off identity, half ratchet and derived key before sending
+		// because we must be able to deal with the reply
 		//
 
 		// store public identity if this is a new identity
@@ -202,6 +195,16 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		}
 		aw.zkc.ratchetMtx.Unlock()
 
+		// send cache command, step 2 of idkx
+		err = aw.zkc.cache(aw.pid.Identity,
+			blobshare.PackNonce(nonce, encrypted))
+		if err != nil {
+			// let user try again
+			_ = aw.zkc.removeRatchet(aw.pid.Identity, true)
+			aw.Status(w, true, "could not send IdentityKX %v", err)
+			return
+		}
+
 		aw.zkc.PrintfT(0, "Accepted user %v nick %v "+
 			"fingerprint %v", aw.pid.Name, aw.pid.Nick,
 			aw.pid.Fingerprint())
diff --git a/zkclient/kxwindow.go b/zkclient/kxwindow.go
index 59da69c..6cbb84f 100644
--- a/zkclient/kxwindow.go
+++ b/zkclient/kxwindow.go
@@ -128,6 +128,13 @@ func (kw *kxWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 
 		packed := blobshare.PackSaltNonce(salt, nonce, encrypted)
 
+		// save key
+		err = kw.zkc.saveKey(key)
+		if err != nil {
+			kw.Status(w, true, "Could not save key: %v", err)
+			return
+		}
+
 		// send to server
 		kw.Status(w, false, "contacting server")
 		err = kw.zkc.rendezvous(packed)
@@ -137,13 +144,6 @@ func (kw *kxWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
-		// save key
-		err = kw.zkc.saveKey(key)
-		if err != nil {
-			kw.Status(w, true, "Could not save key: %v", err)
-			return
-		}
-
 		kw.zkc.Dbg(idZKC, "step 1 (initiate) idkx")
 
 		fallthrough
diff --git a/zkclient/push.go b/zkclient/push.go
index a432e73..e4dd712 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -304,8 +304,6 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("server sent a short payload")
 	}
 
-	z.Log(0, "[step2IDKX]: payload = %v", p.Payload)
-
 	c := new([sntrup4591761.CiphertextSize]byte)
 	copy(c[:], p.Payload)
 	k, ok := sntrup4591761.Decapsulate(c, &z.id.PrivateKey)
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index e918776..4342b8f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1090,14 +1090,6 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	packed := blobshare.PackNonce(nonce, encrypted)
 	payload := append(nc[:], packed...)
 
-	z.Dbg(0, "[InitiateKX]: nk = %v", nk)
-	z.Dbg(0, "[InitiateKX]: nc = %v", nc)
-
-	err = z.cache(id.Identity, payload)
-	if err != nil {
-		return fmt.Errorf("could not send IdentityKX: %v", err)
-	}
-
 	err = z.saveIdentity(id)
 	if err != nil {
 		return fmt.Errorf("could not save identity: %v", err)
@@ -1109,12 +1101,20 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	}
 
 	z.ratchetMtx.Lock()
-	defer z.ratchetMtx.Unlock()
 	err = z.updateRatchet(r, true)
+	z.ratchetMtx.Unlock()
 	if err != nil {
 		return fmt.Errorf("could not save half ratchet: %v", err)
 	}
 
+	// send last, we must be able to deal with the reply
+	err = z.cache(id.Identity, payload)
+	if err != nil {
+		// let user try again
+		_ = z.removeRatchet(id.Identity, true)
+		return fmt.Errorf("could not send IdentityKX: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0332cf53c2b422d4d397c874fec24c43aef48aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 37/87] fix: talk to the conversation in the window, not
 whoever shares its name

---
 zkclient/groupchat.go  |  6 ++---
 zkclient/mainwindow.go | 52 +++++++++++++++++++++++++-----------------
 zkclient/push.go       | 10 ++++----
 zkclient/zkclient.go   | 30 ++++++++++++++++--------
 4 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..dd6eac3 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -319,7 +319,7 @@ func (z *ZKC) gcKick(args []string) error {
 			v *conversation
 		)
 		for k, v = range z.conversation {
-			if v.id.Nick == args[2] {
+			if v.group && v.nick == args[2] {
 				break
 			}
 		}
@@ -484,7 +484,7 @@ func (z *ZKC) gcKill(args []string) error {
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == args[2] {
+		if v.group && v.nick == args[2] {
 			z.PrintfT(k, REDBOLD+"group chat killed"+RESET)
 			break
 		}
@@ -589,7 +589,7 @@ func (z *ZKC) gcUpdate(args []string) error {
 	//		v *conversation
 	//	)
 	//	for k, v = range z.conversation {
-	//		if v.id.Nick == args[2] {
+	//		if v.group && v.nick == args[2] {
 	//			break
 	//		}
 	//	}
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..9bfe36f 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,28 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// say sends msg to the provided conversation.
+func (mw *mainWindow) say(c *conversation, win int, msg string) error {
+	if msg == "" {
+		return nil
+	}
+	if c.group {
+		a := []string{cmdGc, "m", c.nick, msg}
+		return mw.zkc.gcMessage(a, msg, rpc.MessageModeNormal)
+	}
+
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -359,17 +381,14 @@ func (mw *mainWindow) action(cmd string) error {
 	// see if we got a command
 	if !strings.HasPrefix(cmd, leader) {
 		mw.zkc.RLock()
-		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
-			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
-		}
+		win := mw.zkc.active
+		c := mw.zkc.conversation[win]
 		mw.zkc.RUnlock()
+		if win != 0 {
+			// Talk to the conversation in this window. Don't go by
+			// nick, it may contain spaces or not be unique.
+			return mw.say(c, win, strings.TrimRight(cmd, " "))
+		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
 
@@ -539,7 +558,7 @@ func (mw *mainWindow) action(cmd string) error {
 		)
 		mw.zkc.RLock()
 		for k, v := range mw.zkc.conversation {
-			if v == nil {
+			if v == nil || k == 0 || v.group {
 				continue
 			}
 			if args[1] == v.nick {
@@ -563,16 +582,7 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 		}
 
-		err = mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
-		if err != nil {
-			return err
-		}
-		// echo
-		mw.zkc.PrintfT(win, "<%v> %v",
-			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
-			msg)
-
-		return nil
+		return mw.say(c, win, msg)
 
 	case cmdInfo:
 		if len(args) == 1 {
diff --git a/zkclient/push.go b/zkclient/push.go
index e4dd712..bac2118 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -836,7 +836,7 @@ func (z *ZKC) handleGroupJoin(msg rpc.Message, p rpc.Push,
 		z.settings.GcColor+gj.Name+RESET)
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gj.Name {
+		if v.group && v.nick == gj.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				"%v joined group chat",
 				id.Nick)
@@ -915,7 +915,7 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gp.Name {
+			if v.group && v.nick == gp.Name {
 				z.PrintfT(k, "%v left group chat: %v",
 					z.settings.PmColor+nick+RESET,
 					gp.Reason)
@@ -968,7 +968,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gk.NewGroupList.Name {
+			if v.group && v.nick == gk.NewGroupList.Name {
 				if gk.Parted {
 					z.PrintfTS(k, time.Unix(p.Received, 0),
 						"left group chat: %v",
@@ -1007,7 +1007,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.NewGroupList.Name {
+		if v.group && v.nick == gk.NewGroupList.Name {
 			if gk.Parted {
 				z.PrintfTS(k, time.Unix(p.Received, 0),
 					"%v left group chat %v",
@@ -1055,7 +1055,7 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.Name {
+		if v.group && v.nick == gk.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				REDBOLD+"group chat killed"+RESET)
 			break
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4342b8f..87ad650 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -375,12 +375,15 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
-			return v, k, nil
-		}
 		// next free slot
-		if x == -1 && v == nil {
-			x = k
+		if v == nil {
+			if x == -1 {
+				x = k
+			}
+			continue
+		}
+		if v.group && v.nick == group {
+			return v, k, nil
 		}
 	}
 
@@ -408,6 +411,10 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 	if err != nil {
 		return nil, -1, err
 	}
+	// the address book knows everybody by a unique nick
+	if pid, err := z.ab.FindIdentity(id); err == nil {
+		c.id = pid
+	}
 	if c.id.Nick == "" {
 		c.nick = hex.EncodeToString(id[:])
 	} else {
@@ -436,12 +443,15 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 
 	x := -1
 	for k, v := range z.conversation {
-		if bytes.Equal(v.id.Identity[:], id[:]) {
-			return v, k, nil
-		}
 		// next free slot
-		if x == -1 && v == nil {
-			x = k
+		if v == nil {
+			if x == -1 {
+				x = k
+			}
+			continue
+		}
+		if !v.group && bytes.Equal(v.id.Identity[:], id[:]) {
+			return v, k, nil
 		}
 	}
 
-- 
2.43.0


From 4e3dff11721021686eb9c43afb21d10404f74c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 38/87] fix: don't crash on output while closing the last
 window

---
 zkclient/mainwindow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 9bfe36f..5d9a381 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -653,6 +653,7 @@ func (mw *mainWindow) action(cmd string) error {
 		mw.zkc.conversation[i].console.Visibility(ttk.VisibilityHide)
 		mw.zkc.conversation = append(mw.zkc.conversation[:i:i],
 			mw.zkc.conversation[i+1:]...)
+		mw.zkc.active = 0 // active window is gone
 		mw.zkc.focus(0)
 
 		return nil
-- 
2.43.0


From 7c0eca4f54614d68898707a5077c5c3500d01548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 39/87] fix: x is a letter

---
 zkclient/groupchat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index dd6eac3..ef9bd49 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -21,8 +21,8 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
-const validLetters = "abcdefghijklmnopqrstuvwyz" +
-	"ABCDEFGHIJKLMNOPQRSTUVWYZ" +
+const validLetters = "abcdefghijklmnopqrstuvwxyz" +
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZ" +
 	"1234567890" +
 	"_-@."
 
-- 
2.43.0


From eefe3b1ba470cc256e879be36b145d3343ef6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 40/87] fix: don't create group chats that can't be saved

---
 zkclient/groupchat.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ef9bd49..ac0a25f 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -27,6 +27,10 @@ const validLetters = "abcdefghijklmnopqrstuvwxyz" +
 	"_-@."
 
 func validName(name string) error {
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
+
 	var found bool
 	for _, c := range []byte(name) {
 		found = false
@@ -88,6 +92,10 @@ func (z *ZKC) gcNew(args []string) error {
 		return fmt.Errorf("usage: /gc new <name>")
 	}
 
+	if err := validName(args[2]); err != nil {
+		return err
+	}
+
 	// see if gc already exists on disk
 	filename := path.Join(z.settings.Root, groupchatDir, args[2])
 	_, err := os.Stat(filename)
@@ -174,6 +182,10 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("usage: /gc join <group> <token>")
 	}
 
+	if err := validName(args[2]); err != nil {
+		return err
+	}
+
 	token, err := strconv.ParseUint(args[3], 10, 64)
 	if err != nil {
 		return fmt.Errorf("invalid token: %v", err)
-- 
2.43.0


From d718cd62ec71bbbade2211b40e18efa78f300c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 41/87] fix: consume the invite that was used, not all or
 nothing

---
 zkclient/groupinvites.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..97e9911 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -287,9 +287,6 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 	}
 
 	records := jdb.Records(group)
-	if len(records) != 1 {
-		return fmt.Errorf("invalid join table")
-	}
 	for id, r := range records {
 		// we search for record to make sure everything is cool
 		invite, err := unmarshalInvite(r)
@@ -303,8 +300,8 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 			continue
 		}
 
-		// delete table
-		err = jdb.DelTable(group)
+		// delete record, others may have used the same group name
+		err = jdb.Del(group, id)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d6baa6271bef0aefbf8d3a3db414467a45057a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 42/87] fix: keep track of every file a user is sending

---
 zkclient/chunk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 27e54f1..853f7b2 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -36,7 +36,7 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor // sender may send more than one file
 	os.MkdirAll(dir, 0700)
 
 	// write out encoded chunk information
@@ -89,7 +89,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	dir := path.Join(z.settings.Root, spoolDir,
 		hex.EncodeToString(p.From[:]))
 	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	desc := spool + "." + descriptor // sender may send more than one file
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
@@ -112,6 +112,7 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	// write payload
 	_, err = fs.Write(c.Payload)
 	if err != nil {
+		fs.Close()
 		return err
 	}
 
-- 
2.43.0


From 3bc0dbeedcd36072bf04addfdaf410e3113aa2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 43/87] fix: don't leak files that are too large to send

---
 zkclient/send.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/send.go b/zkclient/send.go
index 6e83c94..fcbd1b1 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -64,6 +64,7 @@ func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
 		return fmt.Errorf("could not stat %v: %v", filename, err)
 	}
 	if uint64(fi.Size()) > z.attachmentSize {
+		f.Close()
 		return fmt.Errorf("file too large %v: %v, max allowed %v",
 			filename, fi.Size(), z.attachmentSize)
 	}
-- 
2.43.0


From 57d87b6a1a089ef960193fc7039e3ffa6c8c287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 44/87] fix: don't use tags and connections of another session

---
 zkclient/msg.go      | 67 ++++++++++++++++++++++++++++++++++-------
 zkclient/zkclient.go | 71 ++++++++++++++++++++++++++++++--------------
 2 files changed, 105 insertions(+), 33 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 95245d3..058acf8 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/companyzero/zkc/ratchet"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -46,6 +47,7 @@ type wireMsg struct {
 	id *[zkidentity.IdentitySize]byte
 
 	msg rpc.Message // PRPC
+	kx  *session.KX // PRPC, session msg.Tag belongs to
 
 	payload interface{} // always set
 
@@ -180,8 +182,16 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.writePRPC(&m)
 						if err != nil {
+							// hold on to new tag
+							mtx.Lock()
+							if hiPrio {
+								hi[0] = m
+							} else {
+								lo[0] = m
+							}
+							mtx.Unlock()
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
 								RESET,
@@ -245,8 +255,44 @@ func (z *ZKC) scheduleCRPC(hi bool, id *[zkidentity.IdentitySize]byte, payload i
 	//z.Dbg(idSnd, "sending CRPC done")
 }
 
-func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
+// retag makes sure that a PRPC that was queued carries a tag of the current
+// session. It returns false if the PRPC means nothing outside of the session it
+// was queued in.
+func (z *ZKC) retag(m *wireMsg) (bool, error) {
+	z.RLock()
+	stale := m.kx != z.kx
+	z.RUnlock()
+	if !stale {
+		return true, nil
+	}
+
+	switch m.msg.Command {
+	case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+		return false, nil
+	}
+
+	kx, tag, err := z.popTag()
+	if err != nil {
+		return true, err
+	}
+	m.kx, m.msg.Tag = kx, tag
+	return true, nil
+}
+
+// writePRPC sends a queued PRPC if it still means something.
+func (z *ZKC) writePRPC(m *wireMsg) error {
+	ok, err := z.retag(m)
+	if err != nil || !ok {
+		return err
+	}
+	return z.writeMessage(m.kx, &m.msg, m.payload)
+}
+
+func (z *ZKC) schedulePRPC(kx *session.KX, hi bool, msg rpc.Message,
+	payload interface{}) {
+
 	m := wireMsg{
+		kx:      kx,
 		msg:     msg,
 		payload: payload,
 	}
@@ -473,15 +519,17 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	}
 
 	// message
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
 	z.Lock()
-	z.tagCallback[tag] = &cb{
-		callback: f,
-		to:       *r.TheirIdentityPublic,
+	if kx == z.kx {
+		z.tagCallback[tag] = &cb{
+			callback: f,
+			to:       *r.TheirIdentityPublic,
+		}
 	}
 	z.Unlock()
 
@@ -498,17 +546,14 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			spew.Sdump(payload))
 	}
 
-	err = z.writeMessage(msg,
+	err = z.writeMessage(kx, msg,
 		rpc.Cache{
 			To:      *r.TheirIdentityPublic,
 			Payload: m,
 		})
 	if err != nil {
-		z.Lock()
-		z.tagCallback[tag] = nil
-		z.Unlock()
 		// return tag
-		err2 := z.tagStack.Push(tag)
+		err2 := z.pushTag(kx, tag)
 		if err2 != nil {
 			// we really are in deep shit now
 			return fmt.Errorf("could not push tag, internal "+
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 87ad650..4dd8249 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1201,6 +1201,10 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 func (z *ZKC) handleRPC() {
 	var exitError error
 
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+
 	var wg sync.WaitGroup
 	quit := make(chan struct{})
 
@@ -1211,7 +1215,7 @@ func (z *ZKC) handleRPC() {
 
 		z.Lock()
 		z.online = false
-		z.kx.Close()
+		kx.Close()
 		z.kx = nil
 		z.Unlock()
 
@@ -1255,7 +1259,7 @@ func (z *ZKC) handleRPC() {
 					if time.Now().After(z.lastTick) {
 						// should have gotten a ping
 						//z.PrintfT(0, "pong timeout")
-						z.kx.Close()
+						kx.Close()
 					}
 					z.write.Unlock()
 					continue
@@ -1275,7 +1279,7 @@ func (z *ZKC) handleRPC() {
 						z.PrintfT(0, "could not obtain"+
 							" tag or heartbeat: %v",
 							err)
-						z.kx.Close()
+						kx.Close()
 						return
 					}
 					continue
@@ -1285,7 +1289,7 @@ func (z *ZKC) handleRPC() {
 				z.pingInProgress = true
 				z.lastTick = time.Now().Add(z.lastDuration)
 				z.write.Unlock()
-				z.schedulePRPC(true,
+				z.schedulePRPC(kx, true,
 					rpc.Message{
 						Command: rpc.TaggedCmdPing,
 						Tag:     tag,
@@ -1300,7 +1304,7 @@ func (z *ZKC) handleRPC() {
 		var message rpc.Message
 
 		// read message
-		cmd, err := z.kx.Read()
+		cmd, err := kx.Read()
 		if err != nil {
 			if xdr.IsIO(err) {
 				z.Dbg(idZKC, "connection closed")
@@ -1438,7 +1442,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			// send ack
-			z.schedulePRPC(true,
+			z.schedulePRPC(kx, true,
 				rpc.Message{
 					Command: rpc.TaggedCmdAcknowledge,
 					Tag:     message.Tag,
@@ -1566,17 +1570,42 @@ func (z *ZKC) handleRPC() {
 	}
 }
 
+// popTag obtains a tag from the current session. Tags mean nothing outside of
+// the session that they were obtained from.
+func (z *ZKC) popTag() (*session.KX, uint32, error) {
+	z.RLock()
+	defer z.RUnlock()
+
+	if !z.online {
+		return nil, 0, fmt.Errorf("not online")
+	}
+	tag, err := z.tagStack.Pop()
+	return z.kx, tag, err
+}
+
+// pushTag returns a tag that was obtained from the provided session.
+func (z *ZKC) pushTag(kx *session.KX, tag uint32) error {
+	z.Lock()
+	defer z.Unlock()
+
+	if kx != z.kx {
+		return nil
+	}
+	z.tagCallback[tag] = nil
+	return z.tagStack.Push(tag)
+}
+
 func (z *ZKC) cache(to [32]byte, blob []byte) error {
 	if !z.isOnline() {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
-	z.schedulePRPC(true,
+	z.schedulePRPC(kx, true,
 		rpc.Message{
 			Command: rpc.TaggedCmdCache,
 			Tag:     tag,
@@ -1594,12 +1623,12 @@ func (z *ZKC) rendezvous(blob []byte) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
-	z.schedulePRPC(true,
+	z.schedulePRPC(kx, true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvous,
 			Tag:     tag,
@@ -1713,11 +1742,11 @@ func (z *ZKC) fetch(pin string) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
-	z.schedulePRPC(true,
+	z.schedulePRPC(kx, true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvousPull,
 			Tag:     tag,
@@ -1759,12 +1788,12 @@ func (z *ZKC) find(nick string) error {
 		return fmt.Errorf("lookup already in progress")
 	}
 
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
-	z.schedulePRPC(true,
+	z.schedulePRPC(kx, true,
 		rpc.Message{
 			Command: rpc.TaggedCmdIdentityFind,
 			Tag:     tag,
@@ -1806,13 +1835,13 @@ func (z *ZKC) reset(nick string) error {
 	// Pop tag early because we are going to de deleting important files.
 	// If something goes wrong we must push the tab back onto the stack.
 	returnTag := true // assume failure
-	tag, err := z.tagStack.Pop()
+	kx, tag, err := z.popTag()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 	defer func() {
 		if returnTag {
-			z.tagStack.Push(tag)
+			_ = z.pushTag(kx, tag)
 		}
 	}()
 
@@ -1842,7 +1871,7 @@ func (z *ZKC) reset(nick string) error {
 	returnTag = false // we no longer need to return the tag
 
 	// try to tell the other side the bad news
-	z.schedulePRPC(true,
+	z.schedulePRPC(kx, true,
 		rpc.Message{
 			Command: rpc.TaggedCmdProxy,
 			Tag:     tag,
@@ -1856,10 +1885,8 @@ func (z *ZKC) reset(nick string) error {
 }
 
 // writeMessage marshals and sends encrypted message to server.
-func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
-		return fmt.Errorf("not online")
-	}
+func (z *ZKC) writeMessage(kx *session.KX, msg *rpc.Message,
+	payload interface{}) error {
 
 	// we lock the ticker, rename write mutex
 	defer func() {
@@ -1879,7 +1906,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From bb5f3804c0e12906bff17514fc49832ace50e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 45/87] fix: don't let a message that is too large block all
 others

---
 zkclient/msg.go      | 17 +++++++++++++++--
 zkclient/zkclient.go |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 058acf8..e102755 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -168,7 +169,13 @@ func (z *ZKC) scheduler() {
 					if m.id != nil {
 						err = z.cacheCRPC(*m.id,
 							m.payload, m.callback)
-						if err != nil {
+						if errors.Is(err, session.ErrOverflow) {
+							// will never fit
+							z.PrintfT(-1, REDBOLD+
+								"CRPC (dropped): %v"+
+								RESET,
+								err)
+						} else if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"CRPC (rescheduled): %v"+
 								RESET,
@@ -183,7 +190,13 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.payload))
 						}
 						err = z.writePRPC(&m)
-						if err != nil {
+						if errors.Is(err, session.ErrOverflow) {
+							z.PrintfT(-1, REDBOLD+
+								"PRPC (dropped): %v"+
+								RESET,
+								err)
+							_ = z.pushTag(m.kx, m.msg.Tag)
+						} else if err != nil {
 							// hold on to new tag
 							mtx.Lock()
 							if hiPrio {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 4dd8249..cb82c4b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1908,7 +1908,7 @@ func (z *ZKC) writeMessage(kx *session.KX, msg *rpc.Message,
 
 	err = kx.Write(bb.Bytes())
 	if err != nil {
-		return fmt.Errorf("could not write %v: %v",
+		return fmt.Errorf("could not write %v: %w",
 			msg.Command, err)
 	}
 
-- 
2.43.0


From 8525e7f1149af214c3e5403c9cddae502ffc88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 46/87] fix: apply kick at once so that it isn't lost or undoes
 other changes

---
 zkclient/groupchat.go | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ac0a25f..38bb1d8 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -311,6 +311,16 @@ func (z *ZKC) gcKick(args []string) error {
 
 	reason := "you have been a bad boy!" // make setable
 
+	// Apply kick right away; by the time everyone has seen it we may have
+	// lost the connection or changed the group again.
+	z.groups[args[2]] = ngc
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group chat to disk %v: %v",
+			args[2], err)
+	}
+
 	got := 0                    // acks seen
 	want := len(gc.Members) - 1 // acks required
 	f := func() {
@@ -336,32 +346,6 @@ func (z *ZKC) gcKick(args []string) error {
 			}
 		}
 
-		// make sure group has not vanished
-		_, found := z.groups[args[2]]
-		if !found {
-			z.PrintfT(0, REDBOLD+
-				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
-			return
-		}
-
 		km := fmt.Sprintf("%v was kicked of group chat %v: %v",
 			z.settings.PmColor+args[3]+RESET,
 			z.settings.GcColor+args[2]+RESET,
-- 
2.43.0


From 3bf7dd03885d5fa1eeb486617a5f27727244b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 47/87] fix: don't report a kick in an unrelated conversation

---
 zkclient/groupchat.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 38bb1d8..ffde87f 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -336,12 +336,10 @@ func (z *ZKC) gcKick(args []string) error {
 		z.Dbg(idZKC, "gcKick: callback")
 
 		// find conversation
-		var (
-			k = -1
-			v *conversation
-		)
-		for k, v = range z.conversation {
+		k := -1
+		for i, v := range z.conversation {
 			if v.group && v.nick == args[2] {
+				k = i
 				break
 			}
 		}
-- 
2.43.0


From 598debef19d2d1d54fc671733e667dfa9567d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 48/87] fix: don't allocate whatever an identity claims

---
 zkclient/kxacceptwindow.go | 3 ++-
 zkclient/welcome.go        | 3 ++-
 zkidentity/zkidentity.go   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index 27ba45c..9fbfb7c 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -133,7 +133,8 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		// unmarshal into public identity
 		var identity zkidentity.PublicIdentity
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &identity)
+		_, err = xdr.UnmarshalLimited(br, &identity,
+			uint(len(decrypted)))
 		if err != nil {
 			ka.Status(w, true, "Could not unmarshal public "+
 				"identity")
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..fd946d8 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -168,7 +168,8 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			}
 
 			// get server identity
-			_, err = xdr.Unmarshal(conn, &pid)
+			_, err = xdr.UnmarshalLimited(conn, &pid,
+				maxPayloadSize)
 			if err != nil {
 				ww.Status(w, true,
 					"Could not obtain remote identity")
diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index f8705a3..88fc9d3 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -175,7 +175,8 @@ func (p *PublicIdentity) Marshal() ([]byte, error) {
 func UnmarshalPublicIdentity(data []byte) (*PublicIdentity, error) {
 	br := bytes.NewReader(data)
 	pi := PublicIdentity{}
-	_, err := xdr.Unmarshal(br, &pi)
+	// no part of it can be larger than all of it
+	_, err := xdr.UnmarshalLimited(br, &pi, uint(len(data)))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1a94a226cdd25ad1cc1bf90e571c1c0233c307ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 49/87] fix: apply the server's message size limit to the
 session

---
 zkclient/zkclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index cb82c4b..22ced54 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -769,7 +769,7 @@ func (z *ZKC) sessionPhase(conn net.Conn) (*session.KX, error) {
 	// session with server and use a default msgSize
 	kx := new(session.KX)
 	kx.Conn = conn
-	kx.MaxMessageSize = z.msgSize
+	kx.MaxMessageSize = uint(rpc.PropMaxMsgSizeDefault)
 	kx.OurPublicKey = &z.id.Public.Key
 	kx.OurPrivateKey = &z.id.PrivateKey
 	kx.TheirPublicKey = &z.serverIdentity.Key
@@ -953,6 +953,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	z.online = true
 	z.chunkSize = cs
 	z.msgSize = uint(ms)
+	kx.MaxMessageSize = z.msgSize // no longer the default
 	z.attachmentSize = as
 	z.directory = dir
 
-- 
2.43.0


From 2cd215acda98cdc5b9e598e1165dc400f3c24a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 50/87] fix: resume sending when online again or when a tag
 becomes available

---
 zkclient/msg.go      | 9 +++++++++
 zkclient/zkclient.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index e102755..ea6da70 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -69,6 +69,7 @@ func (z *ZKC) scheduler() {
 	hi := make([]wireMsg, 0, maxMsg)  // high prio messages
 	lo := make([]wireMsg, 0, maxBulk) // low prio messages
 	execute := make(chan bool, 2)     // tell them there is work
+	z.execute = execute
 
 	queueHi := func(m wireMsg) {
 		// queue message
@@ -227,6 +228,14 @@ func (z *ZKC) scheduler() {
 	}()
 }
 
+// resume tells the scheduler that messages it had to reschedule may go now.
+func (z *ZKC) resume() {
+	select {
+	case z.execute <- true:
+	default:
+	}
+}
+
 func (z *ZKC) queueDepth() (*queueDepth, error) {
 	select {
 	case z.depth <- struct{}{}:
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 22ced54..c8e92c1 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -654,6 +654,8 @@ type ZKC struct {
 	depth  chan struct{}    // return queue depth
 	queueW chan *queueDepth // return queue depth
 
+	execute chan bool // tell scheduler there is work
+
 	// online is a hint to indicate if we are in session phase
 	online  bool // currently online
 	offline bool // forced offline
@@ -992,6 +994,7 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	}
 
 	go z.handleRPC()
+	z.resume()
 
 	return welcome, nil
 }
@@ -1477,6 +1480,7 @@ func (z *ZKC) handleRPC() {
 					"invalid tag: %v", message.Tag)
 				return
 			}
+			z.resume()
 
 			// print error if we got one
 			if a.Error != "" {
-- 
2.43.0


From 07b29c79f01d679585dd454c21ef989b74a99926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 51/87] fix: don't save a received file where a sender's files
 are assembled

---
 zkclient/chunk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 853f7b2..6e2f3bd 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -12,6 +12,7 @@ import (
 	"path"
 
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/zkidentity"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/marcopeereboom/goutil"
 )
@@ -159,6 +160,11 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 
 		var fullpath, filename string
 		filename = path.Base(cn.Filename)
+		id, err := hex.DecodeString(filename)
+		if err == nil && len(id) == zkidentity.IdentitySize {
+			// name of a sender's directory
+			filename = "1" + filename
+		}
 		for {
 			fullpath = path.Join(z.settings.Root, spoolDir,
 				filename)
-- 
2.43.0


From 9f330c034795c6e1080387c191a835a71ed1c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 52/87] fix: close connections to the server that don't become
 a session

---
 zkclient/zkclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index c8e92c1..9800baa 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -751,6 +751,7 @@ func (z *ZKC) preSessionPhase() (net.Conn, *tls.ConnectionState, error) {
 
 	cs := conn.ConnectionState()
 	if len(cs.PeerCertificates) != 1 {
+		conn.Close()
 		return nil, nil, fmt.Errorf("unexpected certificate chain")
 	}
 
@@ -979,17 +980,20 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 
 	// XXX check cert here
 	if !bytes.Equal(cs.PeerCertificates[0].Raw, z.cert) {
+		conn.Close()
 		z.provisionalCert = cs.PeerCertificates[0].Raw
 		return nil, errCert
 	}
 
 	kx, err := z.sessionPhase(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
 	welcome, err := z.welcomePhase(kx)
 	if err != nil {
+		kx.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 4186dde018faf01b1e93f3302150f1c214c51566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 53/87] fix: don't reconnect after the user went offline

---
 zkclient/mainwindow.go | 2 +-
 zkclient/zkclient.go   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 5d9a381..eafc048 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -439,8 +439,8 @@ func (mw *mainWindow) action(cmd string) error {
 	case cmdOffline:
 		// error is handled in function
 		mw.zkc.Lock()
+		mw.zkc.offline = true // also don't reconnect
 		if mw.zkc.online {
-			mw.zkc.offline = true
 			mw.zkc.kx.Close()
 		}
 		mw.zkc.Unlock()
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 9800baa..35eac8b 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1036,9 +1036,10 @@ func (z *ZKC) goOnlineRetry() {
 
 		<-timer.C
 		z.RLock()
-		if z.online {
+		if z.online || z.offline {
+			// user changed it meanwhile
 			z.RUnlock()
-			continue
+			return
 		}
 		z.RUnlock()
 
-- 
2.43.0


From c54b4303600674f133ce3d5fa08528164e307ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 54/87] fix: don't hang while a server doesn't answer

---
 zkclient/zkclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 35eac8b..a5e9ffc 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -985,6 +985,8 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 		return nil, errCert
 	}
 
+	// we hold the lock, don't wait forever
+	conn.SetDeadline(time.Now().Add(30 * time.Second))
 	kx, err := z.sessionPhase(conn)
 	if err != nil {
 		conn.Close()
@@ -996,6 +998,7 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 		kx.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	go z.handleRPC()
 	z.resume()
-- 
2.43.0


From 2511c0c30b040dfff30fdbe8b49c7c8a3a4f9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 55/87] fix: don't offer a server identity that doesn't verify

---
 zkclient/welcome.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index fd946d8..4863463 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -175,6 +175,11 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 					"Could not obtain remote identity")
 				return
 			}
+			if !pid.Verify() {
+				conn.Close()
+				ww.Status(w, true, "Invalid remote identity")
+				return
+			}
 
 			ww.Status(w, false, "Connected to: %v %v", pid.Name,
 				pid.Fingerprint())
-- 
2.43.0


From 70c97bc8628e526b0a7d5405dd4033de99773932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 56/87] fix: save a new account as soon as it exists

---
 zkclient/zkclient.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a5e9ffc..5351ebc 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2075,19 +2075,20 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	z.serverIdentity = pid
 	z.cert = cs.PeerCertificates[0].Raw
 
-	// tell remote we want to go full session
-	kx, err := z.sessionPhase(conn)
+	// the account exists, don't lose it when the remainder fails
+	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
 	if err != nil {
 		return err
 	}
 
-	// go through welcome phase
-	welcome, err := z.welcomePhase(kx)
+	// tell remote we want to go full session
+	kx, err := z.sessionPhase(conn)
 	if err != nil {
 		return err
 	}
 
-	err = z.saveServerRecord(pid, cs.PeerCertificates[0].Raw)
+	// go through welcome phase
+	welcome, err := z.welcomePhase(kx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3011bd4f4814ed4435031830b219605e8712e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 57/87] fix: don't allocate whatever chunk size the server
 allows

---
 zkclient/send.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zkclient/send.go b/zkclient/send.go
index fcbd1b1..eaf446a 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -127,8 +127,12 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 	z.scheduleCRPC(true, &id, *cn)
 
 	// start chunking file
+	chunkSize := cn.ChunkSize
+	if chunkSize > cn.Size {
+		chunkSize = cn.Size // server may allow for a lot
+	}
 	for offset := 0; ; {
-		chunk := make([]byte, z.chunkSize)
+		chunk := make([]byte, chunkSize)
 		count, err := f.Read(chunk)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
-- 
2.43.0


From c83b7e15d86cf8eea31b980df06c628ad242bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 58/87] fix: don't go online after the user went offline
 meanwhile

---
 zkclient/zkclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 5351ebc..69b0481 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -972,6 +972,9 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	if z.online {
 		return nil, fmt.Errorf("already online")
 	}
+	if z.offline {
+		return nil, fmt.Errorf("user went offline")
+	}
 
 	conn, cs, err := z.preSessionPhase()
 	if err != nil {
-- 
2.43.0


From 6857b09b9153c58c8d1f8b56e4b03ed354c2f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 59/87] fix: don't crash when the connection ends right after
 the welcome

---
 zkclient/zkclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 69b0481..d3f009d 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1712,7 +1712,13 @@ func (z *ZKC) parseMyIdentity(server *inidb.INIDB) error {
 }
 
 func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
-	remoteId, ok := z.kx.TheirIdentity().([32]byte)
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("connection closed")
+	}
+	remoteId, ok := kx.TheirIdentity().([32]byte)
 	if !ok {
 		return fmt.Errorf("invalid KX identity type %T", remoteId)
 	}
-- 
2.43.0


From 61e23c4d56f787679222ad96db717300f96047b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 60/87] fix: don't report a completed key exchange as failed or
 elsewhere when the nick is taken

---
 zkclient/addressbook.go |  6 ++++--
 zkclient/push.go        | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index ab62e5e..4714872 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -65,8 +65,10 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 
 	nick, err := z.ab.Add(id)
 	if errors.Is(err, addressbook.ErrDuplicateNick) {
-		return fmt.Errorf("warning duplicate nick added: "+
-			"%v -> %v", id.Nick, nick)
+		// it is added nevertheless
+		z.PrintfT(0, "warning duplicate nick added: %v -> %v",
+			id.Nick, nick)
+		return nil
 	}
 	return err
 }
diff --git a/zkclient/push.go b/zkclient/push.go
index bac2118..742646e 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -44,11 +44,12 @@ func (z *ZKC) printID(id *zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) printKX(id *zkidentity.PublicIdentity) {
-	z.FloodfT(id.Nick, "Client to Client Key Exchange complete:")
-	z.FloodfT(id.Nick, "Identity   : %v", id)
-	z.FloodfT(id.Nick, "Fingerprint: %v", id.Fingerprint())
-	z.FloodfT(id.Nick, "Name       : %v", id.Name)
-	z.FloodfT(id.Nick, "Nick       : %v", id.Nick)
+	nick := z.nickFromId(id.Identity) // may differ from id.Nick
+	z.FloodfT(nick, "Client to Client Key Exchange complete:")
+	z.FloodfT(nick, "Identity   : %v", id)
+	z.FloodfT(nick, "Fingerprint: %v", id.Fingerprint())
+	z.FloodfT(nick, "Name       : %v", id.Name)
+	z.FloodfT(nick, "Nick       : %v", nick)
 }
 
 func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
-- 
2.43.0


From 62785bdd47873f0cc4b3670ad050f5d7e99bb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 61/87] fix: contacts with equal nicks don't swap them at the
 next start

---
 zkclient/addressbook.go | 15 +++++++++++++++
 zkclient/identity.go    |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index 4714872..68eadf4 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -12,6 +12,8 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
+	"time"
 
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkclient/addressbook"
@@ -113,6 +115,19 @@ func (z *ZKC) loadIdentities() error {
 		return err
 	}
 
+	// oldest first, so that equal nicks are told apart the same way again
+	added := make(map[string]time.Time)
+	for _, v := range fi {
+		s, err := os.Stat(path.Join(z.settings.Root, inboundDir,
+			v.Name(), identityFilename))
+		if err == nil {
+			added[v.Name()] = s.ModTime()
+		}
+	}
+	sort.SliceStable(fi, func(i, j int) bool {
+		return added[fi[i].Name()].Before(added[fi[j].Name()])
+	})
+
 	for _, v := range fi {
 		// read
 		filename := path.Join(z.settings.Root, inboundDir, v.Name(),
diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..43c1164 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -209,6 +209,10 @@ func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("marshal public identity")
 	}
 	filename := path.Join(fullPath, identityFilename)
+	old, err := ioutil.ReadFile(filename)
+	if err == nil && bytes.Equal(old, pidXDR) {
+		return nil // its time is that of the first key exchange
+	}
 	err = ioutil.WriteFile(filename, pidXDR, 0600)
 	if err != nil {
 		return fmt.Errorf("write to %v: %v", filename, err)
-- 
2.43.0


From c7e19eb015d4bf488c75b65054c26feafff14973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 62/87] fix: allow for another lookup after the connection was
 lost during one

---
 zkclient/zkclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index d3f009d..5e1db13 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1234,6 +1234,11 @@ func (z *ZKC) handleRPC() {
 		z.kx = nil
 		z.Unlock()
 
+		// there won't be replies to outstanding lookups
+		z.pendingIdentitiesMutex.Lock()
+		z.pendingIdentities = nil
+		z.pendingIdentitiesMutex.Unlock()
+
 		if exitError != nil {
 			z.Dbg(idRPC, "connection error: %v", exitError)
 			z.PrintfT(0, "connection error: %v", exitError)
-- 
2.43.0


From 68b7752e8f0e2e36a36593e565352c1acc5c082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 63/87] fix: allow for another key exchange when the reply
 could not be sent

---
 zkclient/push.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 742646e..f81b73b 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -271,6 +271,8 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 		err = z.cache(idkx.Identity.Identity,
 			blobshare.PackNonce(nonce, encrypted))
 		if err != nil {
+			// let other side try again
+			_ = z.removeRatchet(idkx.Identity.Identity, false)
 			return fmt.Errorf("could not send KX %v", err)
 		}
 
@@ -392,6 +394,8 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	// send cache command, step 3 of idkx
 	err = z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
 	if err != nil {
+		// let other side try again
+		_ = z.removeRatchet(idkx.Identity.Identity, false)
 		return fmt.Errorf("could not send KX %v", err)
 	}
 
-- 
2.43.0


From 58d2e85fa675fef3e5906892dba6f2bebed6c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 64/87] fix: complete the key exchange after a ratchet reset
 without a directory and one with a PIN with it

---
 zkclient/push.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index f81b73b..2d1344a 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -36,6 +36,10 @@ func (re *ratchetError) Error() string {
 	return re.err
 }
 
+// errNotIDKX2 is returned when a message is not an IdentityKX that is encrypted
+// to our public key.
+var errNotIDKX2 = errors.New("not an IdentityKX to our public key")
+
 func (z *ZKC) printID(id *zkidentity.PublicIdentity) {
 	z.PrintfT(-1, "Identity   : %v", id)
 	z.PrintfT(-1, "Fingerprint: %v", id.Fingerprint())
@@ -304,24 +308,25 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("server sent a message without a payload")
 	}
 	if len(p.Payload) < sntrup4591761.CiphertextSize {
-		return fmt.Errorf("server sent a short payload")
+		return fmt.Errorf("%w: short payload", errNotIDKX2)
 	}
 
 	c := new([sntrup4591761.CiphertextSize]byte)
 	copy(c[:], p.Payload)
 	k, ok := sntrup4591761.Decapsulate(c, &z.id.PrivateKey)
 	if ok != 1 {
-		return fmt.Errorf("could not decap key")
+		return fmt.Errorf("%w: could not decap key", errNotIDKX2)
 	}
 
 	nonce, encrypted, err := blobshare.UnpackNonce(p.Payload[sntrup4591761.CiphertextSize:])
 	if err != nil {
-		return fmt.Errorf("could not unpack IdentityKX")
+		return fmt.Errorf("%w: could not unpack", errNotIDKX2)
 	}
 
 	decrypted, err := blobshare.Decrypt(k, nonce, encrypted)
 	if err != nil {
-		return fmt.Errorf("could not decrypt half ratchet: %v", err)
+		return fmt.Errorf("%w: could not decrypt half ratchet: %v",
+			errNotIDKX2, err)
 	}
 
 	var idkx rpc.IdentityKX
@@ -447,11 +452,15 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if !z.identityExists(p.From) {
 		// step 2 of idkx
 		z.Dbg(idZKC, "step 2 (push) idkx")
-		if z.directory {
-			return z.step2IDKX2(msg, p)
-		} else {
-			return z.step2IDKX(msg, p)
+		// a contact also replies to a ratchet reset like this
+		_, err := z.loadIdentity(p.From)
+		if z.directory || err == nil {
+			err = z.step2IDKX2(msg, p)
+			if !errors.Is(err, errNotIDKX2) {
+				return err
+			}
 		}
+		return z.step2IDKX(msg, p)
 	}
 
 	// see if ratchet exists
-- 
2.43.0


From b590496e3578175176cb30909acb9ad5cc82bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 65/87] fix: complete one of two key exchanges that were
 started by both sides

---
 zkclient/push.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/zkclient/push.go b/zkclient/push.go
index 2d1344a..677456f 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -346,6 +346,18 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("invalid identity in IdentityKX")
 	}
 
+	// see if both sides started a key exchange, one of them has to give in
+	if z.identityExists(p.From) {
+		if bytes.Compare(z.id.Public.Identity[:], p.From[:]) < 0 {
+			return fmt.Errorf("key exchange already in progress")
+		}
+		err = z.removeRatchet(p.From, true)
+		if err != nil {
+			return fmt.Errorf("could not remove half ratchet: %v",
+				err)
+		}
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
@@ -467,6 +479,10 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if !z.ratchetExists(p.From) {
 		// step 3 of idkx
 		z.Dbg(idZKC, "step 3 (push) idkx")
+		err := z.step2IDKX2(msg, p) // other side started one as well
+		if !errors.Is(err, errNotIDKX2) {
+			return err
+		}
 		return z.step3IDKX(msg, p)
 	}
 
-- 
2.43.0


From b5aca218d20c30f2f1b0275c66af83b8c95e8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 66/87] fix: don't start another key exchange when a ratchet
 reset is delivered again

---
 zkclient/push.go     | 22 +++++++++++++++++++++-
 zkclient/zkclient.go |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 677456f..6004239 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -443,6 +443,16 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 		_, err := z.unmarshal(brProxy, &pc)
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
+
+			// the server delivers it again if it did not get our
+			// acknowledgement, don't start over in that case
+			z.Lock()
+			last, ok := z.resets[p.From]
+			z.Unlock()
+			if ok && last == p.Received {
+				return nil
+			}
+
 			nick := z.nickFromId(p.From)
 			n := nick
 			if n != "" {
@@ -452,7 +462,17 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 				"command from: %v%x"+RESET, n, p.From)
 			z.FloodfT(nick, REDBOLD+"Ratchet reset message: "+
 				"%v"+RESET, pc.Message)
-			return z.handleResetRatchet(p.From)
+			err = z.handleResetRatchet(p.From)
+			if err != nil {
+				return err
+			}
+			z.Lock()
+			if z.resets == nil {
+				z.resets = make(map[[zkidentity.IdentitySize]byte]int64)
+			}
+			z.resets[p.From] = p.Received
+			z.Unlock()
+			return nil
 		} else if err == nil {
 			return fmt.Errorf("Invalid proxy command: %v",
 				pc.Command)
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 5e1db13..698dbfa 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -665,6 +665,7 @@ type ZKC struct {
 	active       int // index to visible conversation
 	conversation []*conversation
 	groups       map[string]rpc.GroupList
+	resets       map[[zkidentity.IdentitySize]byte]int64 // last ratchet reset, server time
 
 	// locks itself
 	ab *addressbook.AddressBook
-- 
2.43.0


From 3a5e5c1e194c921e0caf801b638a50495841055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 67/87] fix: replace identity and group files as a whole

---
 zkclient/groupchat.go |  3 +--
 zkclient/identity.go  | 28 +++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index ffde87f..6f73b51 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -9,7 +9,6 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path"
 	"strconv"
@@ -84,7 +83,7 @@ func (z *ZKC) _gcSaveDisk(name string) error {
 	}
 
 	// lay on disk
-	return ioutil.WriteFile(filename, bb.Bytes(), 0600)
+	return z.writeFile(filename, bb.Bytes())
 }
 
 func (z *ZKC) gcNew(args []string) error {
diff --git a/zkclient/identity.go b/zkclient/identity.go
index 43c1164..cf558fc 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -169,6 +169,32 @@ func (z *ZKC) updateRatchet(r *ratchet.Ratchet, half bool) error {
 	return nil
 }
 
+// writeFile replaces a file.  There is either the old or the new one after a
+// crash.
+func (z *ZKC) writeFile(filename string, b []byte) error {
+	// not next to the file, all files in there may be loaded at startup
+	f, err := ioutil.TempFile(z.settings.Root, ".tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Sync()
+	}
+	err2 := f.Close()
+	if err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
+
 func (z *ZKC) loadIdentity(id [zkidentity.IdentitySize]byte) (*zkidentity.PublicIdentity,
 	error) {
 	ids := hex.EncodeToString(id[:])
@@ -213,7 +239,7 @@ func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
 	if err == nil && bytes.Equal(old, pidXDR) {
 		return nil // its time is that of the first key exchange
 	}
-	err = ioutil.WriteFile(filename, pidXDR, 0600)
+	err = z.writeFile(filename, pidXDR)
 	if err != nil {
 		return fmt.Errorf("write to %v: %v", filename, err)
 	}
-- 
2.43.0


From d29545a3d46526387ab543aff451c0ec69d4053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 68/87] fix: allow for another group chat invite after the last
 one has expired

---
 zkclient/groupinvites.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 97e9911..cf79776 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -142,10 +142,14 @@ func (z *ZKC) inviteDBAdd(id [zkidentity.IdentitySize]byte, description string,
 		return nil, fmt.Errorf("could not open invites db: %v", err)
 	}
 
-	_, err = idb.Get(group.Name, ids)
+	old, err := idb.Get(group.Name, ids)
 	if err == nil {
 		// if invite is expired create a new one
-		return nil, fmt.Errorf("already invited, XXX add expiration check here")
+		oi, err := unmarshalInvite(old)
+		if err == nil && time.Now().Unix() < oi.Expires {
+			return nil, fmt.Errorf("already invited, invite expires: %v",
+				time.Unix(oi.Expires, 0))
+		}
 	}
 
 	// create new token
-- 
2.43.0


From 8744b04d29b31fb01b691094b1573b119c891a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 69/87] fix: save a ratchet before the message it encrypts
 leaves

---
 zkclient/msg.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ea6da70..f1d7ac7 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -534,6 +534,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return nil
 	}
 
+	// needed again if the message does not leave
+	old, err := z.loadRatchet(id, false)
+	if err != nil {
+		return fmt.Errorf("could not load ratchet: %v", err)
+	}
+
 	// compose RPC
 	m, err := z.crpc(r, payload)
 	if err != nil {
@@ -568,14 +574,32 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			spew.Sdump(payload))
 	}
 
+	// save ratchet before we send, its keys must not be used again if we
+	// don't get to that afterwards
+	err = z.updateRatchet(r, false)
+	if err != nil {
+		err2 := z.pushTag(kx, tag)
+		if err2 != nil {
+			z.Error(idZKC, "could not push tag: %v", err2)
+		}
+		return fmt.Errorf("critical error: could not update ratchet: %v",
+			err)
+	}
+
 	err = z.writeMessage(kx, msg,
 		rpc.Cache{
 			To:      *r.TheirIdentityPublic,
 			Payload: m,
 		})
 	if err != nil {
+		// nobody has seen the message
+		err2 := z.updateRatchet(old, false)
+		if err2 != nil {
+			z.Error(idZKC, "could not restore ratchet: %v", err2)
+		}
+
 		// return tag
-		err2 := z.pushTag(kx, tag)
+		err2 = z.pushTag(kx, tag)
 		if err2 != nil {
 			// we really are in deep shit now
 			return fmt.Errorf("could not push tag, internal "+
@@ -585,12 +609,5 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 		return err
 	}
 
-	// save ratchet only if we sent
-	err = z.updateRatchet(r, false)
-	if err != nil {
-		return fmt.Errorf("critical error: could not update ratchet: %v",
-			err)
-	}
-
 	return nil
 }
-- 
2.43.0


From cc12fbe1db59d05b4065284c408ae1a65ebfa765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 70/87] fix: accept another group chat invite after the last
 one has expired

---
 zkclient/groupinvites.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index cf79776..e306421 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -216,9 +216,12 @@ func (z *ZKC) joinDBAdd(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	_, err = jdb.Get(gi.Name, froms)
+	old, err := jdb.Get(gi.Name, froms)
 	if err == nil {
-		return fmt.Errorf("join already seen: %v", gi.Name)
+		oi, err := unmarshalInvite(old)
+		if err == nil && time.Now().Unix() < oi.Expires {
+			return fmt.Errorf("join already seen: %v", gi.Name)
+		}
 	}
 
 	// always create table since it is a no-op if it exists
-- 
2.43.0


From 84c46232513416c541e3aca3805106738e98d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 71/87] fix: print in the window of a conversation when others
 were closed meanwhile

---
 zkclient/groupchat.go  | 19 ++++++------
 zkclient/mainwindow.go | 12 ++++----
 zkclient/push.go       | 14 ++++-----
 zkclient/zkclient.go   | 67 ++++++++++++++++++++++++++++++++++--------
 4 files changed, 75 insertions(+), 37 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 6f73b51..70dc65e 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -335,10 +335,10 @@ func (z *ZKC) gcKick(args []string) error {
 		z.Dbg(idZKC, "gcKick: callback")
 
 		// find conversation
-		k := -1
-		for i, v := range z.conversation {
+		var c *conversation
+		for _, v := range z.conversation {
 			if v.group && v.nick == args[2] {
-				k = i
+				c = v
 				break
 			}
 		}
@@ -349,8 +349,8 @@ func (z *ZKC) gcKick(args []string) error {
 			reason)
 		z.PrintfT(0, "%v", km)
 		// echo on conversation window
-		if k > 0 {
-			z.PrintfT(k, "%v", km)
+		if c != nil {
+			z.PrintfC(c, "%v", km)
 		}
 	}
 
@@ -476,9 +476,9 @@ func (z *ZKC) gcKill(args []string) error {
 		z.settings.GcColor+args[2]+RESET)
 
 	// echo on conversation window
-	for k, v := range z.conversation {
+	for _, v := range z.conversation {
 		if v.group && v.nick == args[2] {
-			z.PrintfT(k, REDBOLD+"group chat killed"+RESET)
+			z.PrintfC(v, REDBOLD+"group chat killed"+RESET)
 			break
 		}
 	}
@@ -491,11 +491,10 @@ func (z *ZKC) gcMessage(args []string, msg string, mode rpc.MessageMode) error {
 		return fmt.Errorf("usage: /gc m|me <group> <message>")
 	}
 
-	c, win, err := z.groupConversation(args[2])
+	c, _, err := z.groupConversation(args[2])
 	if err != nil {
 		return fmt.Errorf("can't find conversation: %v", err)
 	}
-	_ = c
 
 	z.RLock()
 	defer z.RUnlock()
@@ -527,7 +526,7 @@ func (z *ZKC) gcMessage(args []string, msg string, mode rpc.MessageMode) error {
 	} else {
 		nick = fmt.Sprintf("<%v>", z.settings.NickColor+z.id.Public.Nick+RESET)
 	}
-	z.PrintfT(win, "%v %v", nick, msg)
+	z.PrintfC(c, "%v %v", nick, msg)
 
 	return nil
 }
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index eafc048..67c6884 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -351,7 +351,7 @@ func (mw *mainWindow) appendHistory(cmd string) {
 }
 
 // say sends msg to the provided conversation.
-func (mw *mainWindow) say(c *conversation, win int, msg string) error {
+func (mw *mainWindow) say(c *conversation, msg string) error {
 	if msg == "" {
 		return nil
 	}
@@ -365,7 +365,7 @@ func (mw *mainWindow) say(c *conversation, win int, msg string) error {
 		return err
 	}
 	// echo
-	mw.zkc.PrintfT(win, "<%v> %v",
+	mw.zkc.PrintfC(c, "<%v> %v",
 		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
 		msg)
 
@@ -387,7 +387,7 @@ func (mw *mainWindow) action(cmd string) error {
 		if win != 0 {
 			// Talk to the conversation in this window. Don't go by
 			// nick, it may contain spaces or not be unique.
-			return mw.say(c, win, strings.TrimRight(cmd, " "))
+			return mw.say(c, strings.TrimRight(cmd, " "))
 		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
@@ -553,7 +553,6 @@ func (mw *mainWindow) action(cmd string) error {
 		// determine if to is a nick or an identity
 		var (
 			c   *conversation
-			win int
 			err error
 		)
 		mw.zkc.RLock()
@@ -563,14 +562,13 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 			if args[1] == v.nick {
 				c = v
-				win = k
 				break
 			}
 		}
 		mw.zkc.RUnlock()
 
 		if c == nil {
-			c, win, err = mw.zkc.addressBookConversation(args[1])
+			c, _, err = mw.zkc.addressBookConversation(args[1])
 			if errors.Is(err, errPendingKX) {
 				mw.zkc.PrintfT(-1, "Attempting key exchange "+
 					"with %v", args[1])
@@ -582,7 +580,7 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 		}
 
-		return mw.say(c, win, msg)
+		return mw.say(c, msg)
 
 	case cmdInfo:
 		if len(args) == 1 {
diff --git a/zkclient/push.go b/zkclient/push.go
index 6004239..e2222b5 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -760,7 +760,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 func (z *ZKC) handlePm(msg rpc.Message, p rpc.Push,
 	pm rpc.PrivateMessage) error {
 
-	c, win, err := z.getConversation(p.From)
+	c, _, err := z.getConversation(p.From)
 	if err != nil {
 		return fmt.Errorf("unknown conversation: %v", err)
 	}
@@ -771,7 +771,7 @@ func (z *ZKC) handlePm(msg rpc.Message, p rpc.Push,
 	} else {
 		n = fmt.Sprintf("<%v>", z.settings.PmColor+c.nick+RESET)
 	}
-	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
+	z.PrintfCTS(c, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
 
 	// annoy people
 	if z.settings.Beep {
@@ -964,9 +964,9 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 			gp.Reason)
 
 		// echo on conversation window
-		for k, v := range z.conversation {
+		for _, v := range z.conversation {
 			if v.group && v.nick == gp.Name {
-				z.PrintfT(k, "%v left group chat: %v",
+				z.PrintfC(v, "%v left group chat: %v",
 					z.settings.PmColor+nick+RESET,
 					gp.Reason)
 				break
@@ -1328,7 +1328,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	z.Unlock()
 
 	// now create chat window
-	c, win, err := z.groupConversation(gm.Name)
+	c, _, err := z.groupConversation(gm.Name)
 	if err != nil {
 		return fmt.Errorf("handleGroupMessage: %v", err)
 	}
@@ -1346,7 +1346,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
-		if z.active != win {
+		if z.conversation[z.active] != c {
 			c.mentioned = true
 		}
 		z.Unlock()
@@ -1363,7 +1363,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	} else {
 		n = fmt.Sprintf("<%v>", z.settings.GcColor+nick+RESET)
 	}
-	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, s)
+	z.PrintfCTS(c, time.Unix(p.Received, 0), "%v %v", n, s)
 
 	// annoy people
 	if z.settings.Beep {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 698dbfa..3cbb369 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -118,6 +118,35 @@ func (z *ZKC) PrintfTS(id int, ts time.Time, format string, args ...interface{})
 	z.printf(id, ts, false, format, args...)
 }
 
+// PrintfC prints in the window of a conversation, whatever its number is by
+// then.
+func (z *ZKC) PrintfC(c *conversation, format string, args ...interface{}) {
+	z.printfW(func() int { return z.window(c) }, time.Now(), true, format,
+		args...)
+}
+
+// PrintfCTS is PrintfC with the time a message was received.
+func (z *ZKC) PrintfCTS(c *conversation, ts time.Time, format string, args ...interface{}) {
+	z.printfW(func() int { return z.window(c) }, ts, false, format, args...)
+}
+
+// window returns the window number of a conversation. If its window has been
+// closed in the meantime it is opened again. Lock must be held.
+func (z *ZKC) window(c *conversation) int {
+	for k, v := range z.conversation {
+		if v == nil || k == 0 || v.group != c.group {
+			continue
+		}
+		if c.group && v.nick == c.nick ||
+			!c.group && v.id.Identity == c.id.Identity {
+			return k
+		}
+	}
+
+	z.conversation = append(z.conversation, c)
+	return len(z.conversation) - 1
+}
+
 // FloodfT prints to the console and the current window unless an active
 // conversation with the person is in progress. If nick is empty it always
 // prints in the current window.
@@ -136,25 +165,37 @@ func (z *ZKC) FloodfT(nick, format string, args ...interface{}) {
 			continue
 		}
 		z.RUnlock()
-		z.printf(k, time.Now(), true, format, args...)
+		z.PrintfC(v, format, args...)
 		return
 	}
-	active := z.active
+	var c *conversation
+	if z.active != 0 {
+		c = z.conversation[z.active]
+	}
 	z.RUnlock()
 
 	// Not found, print in current window if it isn't 0
-	if active != 0 {
-		z.printf(active, time.Now(), true, format, args...)
+	if c != nil {
+		z.PrintfC(c, format, args...)
 	}
 }
 
 func (z *ZKC) printf(id int, ts time.Time, localTs bool, format string, args ...interface{}) {
+	z.printfW(func() int {
+		if id < 0 {
+			return z.active
+		}
+		return id
+	}, ts, localTs, format, args...)
+}
+
+// printfW prints in the window that win returns, with the lock held, when it
+// is its turn.
+func (z *ZKC) printfW(win func() int, ts time.Time, localTs bool, format string, args ...interface{}) {
 	output := fmt.Sprintf(format, args...)
 	ttk.Queue(func() {
 		z.Lock()
-		if id < 0 {
-			id = z.active
-		}
+		id := win()
 		if id < len(z.conversation) && z.conversation[id] != nil {
 			// We do these gymnastics in order to print a
 			// separator line where conversation left off.
@@ -397,7 +438,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	z.PrintfT(0, "group conversation started [%v]: %v",
 		x,
 		z.settings.GcColor+c.nick+RESET)
-	z.PrintfT(x, "group conversation started: %v",
+	z.PrintfC(c, "group conversation started: %v",
 		z.settings.GcColor+c.nick+RESET)
 
 	return c, x, nil
@@ -466,7 +507,7 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 		z.settings.PmColor+c.nick+RESET,
 		c.id.Fingerprint())
 
-	z.PrintfT(x, "conversation started: %v %v",
+	z.PrintfC(c, "conversation started: %v %v",
 		z.settings.PmColor+c.nick+RESET,
 		c.id.Fingerprint())
 
@@ -1166,7 +1207,7 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			g, ok := z.groups[v.nick]
 			if !ok {
 				// should be impossible
-				z.PrintfT(k, "User disabled: %v %v",
+				z.PrintfC(v, "User disabled: %v %v",
 					REDBOLD+rid.Nick+RESET,
 					rid.Fingerprint())
 				continue
@@ -1175,7 +1216,7 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			// See if we are the admin of the gc
 			if len(g.Members) != 0 && bytes.Equal(
 				z.id.Public.Identity[:], g.Members[0][:]) {
-				z.PrintfT(k, REDBOLD+"user %v disabled: "+
+				z.PrintfC(v, REDBOLD+"user %v disabled: "+
 					"please kick %v (%x) from gc"+RESET,
 					rid.Nick, rid.Nick, rid.Identity[:])
 				continue
@@ -1189,7 +1230,7 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 						break
 					}
 					z.conversation[k].seenCacheError++
-					z.PrintfT(k, "User disabled: %v %v",
+					z.PrintfC(v, "User disabled: %v %v",
 						REDBOLD+rid.Nick+RESET,
 						rid.Fingerprint())
 					break
@@ -1205,7 +1246,7 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 			continue
 		}
 		z.conversation[k].seenCacheError++
-		z.PrintfT(k, "User disabled: %v %v",
+		z.PrintfC(v, "User disabled: %v %v",
 			REDBOLD+rid.Nick+RESET,
 			rid.Fingerprint())
 		return
-- 
2.43.0


From ebbb000af599cd504dcaeaa8e966fd87de4e9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 72/87] fix: keep the user's window when a group changes

---
 zkclient/push.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index e2222b5..94f3248 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1160,7 +1160,11 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		return
 	}
 
-	z.query(ng.Name)
+	// don't focus on the window, the user may be typing in another one
+	c, _, err := z.groupConversation(ng.Name)
+	if err != nil {
+		return
+	}
 
 	for _, v := range min {
 		if bytes.Equal(v[:], z.id.Public.Identity[:]) {
@@ -1168,7 +1172,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 			z.PrintfT(0, "- %v %v (self)",
 				z.id.Public.Fingerprint(),
 				z.settings.PmColor+z.id.Public.Nick+RESET)
-			z.PrintfT(-1, "you left the channel")
+			z.PrintfC(c, "you left the channel")
 			continue
 		}
 		id, err := z.ab.FindIdentity(v)
@@ -1179,7 +1183,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		z.PrintfT(0, "- %v %v",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
-		z.PrintfT(-1, "%v %v has left the channel",
+		z.PrintfC(c, "%v %v has left the channel",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
 	}
@@ -1190,7 +1194,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 			z.PrintfT(0, "+ %v %v (self)",
 				z.id.Public.Fingerprint(),
 				z.settings.PmColor+z.id.Public.Nick+RESET)
-			z.PrintfT(-1, "you joined the channel")
+			z.PrintfC(c, "you joined the channel")
 			continue
 		}
 		id, err := z.ab.FindIdentity(v)
@@ -1201,7 +1205,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		z.PrintfT(0, "+ %v %v",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
-		z.PrintfT(-1, "%v %v has joined the channel",
+		z.PrintfC(c, "%v %v has joined the channel",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
 	}
-- 
2.43.0


From 738f001479ff82d69ca7eadbd59306406df3a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 73/87] fix: restore the conversations that were saved, and no
 stale window

---
 zkclient/mainwindow.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 67c6884..573c7c7 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -779,9 +779,15 @@ func saveConversations(z *ZKC) error {
 func closeAll(z *ZKC) {
 	z.Lock()
 	defer z.Unlock()
+	for k, v := range z.conversation {
+		if k != 0 && v != nil {
+			v.console.Visibility(ttk.VisibilityHide)
+		}
+	}
 	console := z.conversation[0]
 	z.conversation = make([]*conversation, 1)
 	z.conversation[0] = console
+	z.active = 0 // active window is gone
 	z.focus(0)
 }
 
@@ -831,7 +837,19 @@ func restoreConversations(z *ZKC) error {
 			closeAll(z)
 			return err
 		}
-		z.query(c.Nick)
+
+		// don't go by nick, a group may have the same
+		if c.Group {
+			_, _, err = z.groupConversation(c.Nick)
+		} else if c.Id == nil {
+			continue
+		} else {
+			_, _, err = z.getConversation(c.Id.Identity)
+		}
+		if err != nil {
+			z.PrintfT(0, "could not restore conversation %v: %v",
+				c.Nick, err)
+		}
 	}
 	z.focus(0)
 	return nil
-- 
2.43.0


From f94d8458ce43caae2a2308f21285d0576d719077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 74/87] fix: keep the logs of contacts in the log directory

---
 zkclient/zkclient.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 3cbb369..3111126 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -250,6 +250,9 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 		go z.PrintfT(0, "invalid server address: %v", err)
 		return
 	}
+	// contacts choose their nicks
+	nick := strings.NewReplacer("/", "_", string(os.PathSeparator), "_").
+		Replace(z.conversation[id].nick)
 	var filename string
 	switch {
 	case id == 0:
@@ -258,12 +261,11 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 		return
 	case z.conversation[id].group:
 		filename = path.Join(z.settings.Root,
-			logsDir, "groupchat."+z.conversation[id].nick+"."+
-				server+".log")
+			logsDir, "groupchat."+nick+"."+server+".log")
 	default:
 		filename = path.Join(z.settings.Root,
 			logsDir,
-			z.conversation[id].nick+"."+server+"."+
+			nick+"."+server+"."+
 				z.conversation[id].id.String()+".log")
 	}
 	f, err := os.OpenFile(filename,
-- 
2.43.0


From ef8b1c22a2a9e2fdc022a2c2eb1ce8b4002e0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 75/87] fix: don't lose the saved conversations when saving
 them again is interrupted

---
 zkclient/mainwindow.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 573c7c7..abfb5a9 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -734,16 +734,13 @@ type savedConversation struct {
 }
 
 func saveConversations(z *ZKC) error {
-	os.Remove(path.Join(z.settings.Root, conversationsPath))
 	cdb, err := inidb.New(path.Join(z.settings.Root, conversationsPath), true, 10)
-	if !errors.Is(err, inidb.ErrCreated) {
-		if err != nil {
-			return err
-		} else {
-			return fmt.Errorf("could not create %s", conversationsPath)
-		}
+	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		return err
 	}
 
+	// replace what was saved before
+	_ = cdb.DelTable("conversations")
 	cdb.NewTable("conversations")
 	var b bytes.Buffer
 	n := len(z.conversation)
-- 
2.43.0


From 772b38e970795866bfb342526db75019f8ada452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 76/87] fix: don't replace or tear the server's identity when
 starting

---
 zkserver/zkserver.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index eb013dc..1d7f885 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -903,6 +903,28 @@ func (z *ZKS) listen() error {
 	return nil
 }
 
+// saveFile saves data in filename such that the file is either not there or
+// complete, whatever happens.
+func saveFile(filename string, data []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(filename),
+		filepath.Base(filename))
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filename)
+}
+
 func _main() error {
 	z := &ZKS{
 		sessions: make(map[string]*sessionContext),
@@ -940,6 +962,9 @@ func _main() error {
 	// identity
 	id, err := ioutil.ReadFile(filepath.Join(z.settings.Root,
 		tools.ZKSIdentityFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return err // don't replace an identity that clients know
+	}
 	if err != nil {
 		z.Info(idApp, "Creating a new identity")
 		fid, err := zkidentity.New("zkserver", "zkserver")
@@ -950,8 +975,8 @@ func _main() error {
 		if err != nil {
 			return err
 		}
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSIdentityFilename), id, 0600)
+		err = saveFile(filepath.Join(z.settings.Root,
+			tools.ZKSIdentityFilename), id)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8ef4d94359f4d448c92c0b3f1d4fba5e902a8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 77/87] fix: don't replace or tear the server's certificate
 when starting

---
 zkserver/zkserver.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1d7f885..a486cc7 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -990,6 +990,9 @@ func _main() error {
 	cert, err := tls.LoadX509KeyPair(filepath.Join(z.settings.Root,
 		tools.ZKSCertFilename),
 		filepath.Join(z.settings.Root, tools.ZKSKeyFilename))
+	if err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("could not load certificates: %v", err)
+	}
 	if err != nil {
 		// create a new cert
 		valid := time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC)
@@ -999,14 +1002,20 @@ func _main() error {
 				err)
 		}
 
-		// save on disk
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSCertFilename), cp, 0600)
+		// save on disk, the key last so that it only exists with the
+		// cert it belongs to
+		err = os.RemoveAll(filepath.Join(z.settings.Root,
+			tools.ZKSKeyFilename))
+		if err != nil {
+			return fmt.Errorf("could not remove key: %v", err)
+		}
+		err = saveFile(filepath.Join(z.settings.Root,
+			tools.ZKSCertFilename), cp)
 		if err != nil {
 			return fmt.Errorf("could not save cert: %v", err)
 		}
-		err = ioutil.WriteFile(filepath.Join(z.settings.Root,
-			tools.ZKSKeyFilename), kp, 0600)
+		err = saveFile(filepath.Join(z.settings.Root,
+			tools.ZKSKeyFilename), kp)
 		if err != nil {
 			return fmt.Errorf("could not save key: %v", err)
 		}
-- 
2.43.0


From c86274ad29c35a49458b409a920b94f7e8c6adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 78/87] fix: don't ignore the maxmsgsize setting of the server

---
 zkserver/settings/settings.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkserver/settings/settings.go b/zkserver/settings/settings.go
index 2c6723a..a9c82d5 100644
--- a/zkserver/settings/settings.go
+++ b/zkserver/settings/settings.go
@@ -149,6 +149,15 @@ func (s *Settings) Load(filename string) error {
 		}
 	}
 
+	// maxmsgsize
+	msz, ok := cfg.Get("", "maxmsgsize")
+	if ok {
+		s.MaxMsgSize, err = strconv.ParseUint(msz, 10, 64)
+		if err != nil {
+			return fmt.Errorf("maxmsgsize invalid: %v", err)
+		}
+	}
+
 	// logging and debug
 	logFile, ok := cfg.Get("log", "logfile")
 	if ok {
-- 
2.43.0


From 5284dd0f89e46202193e13e9610f66c0cc8439d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 79/87] fix: accept the documented color attribute none

---
 zkclient/settings.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkclient/settings.go b/zkclient/settings.go
index 40d0726..3272729 100644
--- a/zkclient/settings.go
+++ b/zkclient/settings.go
@@ -86,6 +86,7 @@ func colorToAnsi(in string) (string, error) {
 	aa := strings.Split(strings.ToLower(s[0]), ",")
 	for _, k := range aa {
 		switch strings.ToLower(k) {
+		case "none":
 		case "bold":
 			a |= ttk.AttrBold
 		case "underline":
-- 
2.43.0


From 6bd284db0a2bd2dbf871dd36f280a22928fa7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 80/87] fix: don't leave half a default config file behind

---
 zkclient/settings.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/zkclient/settings.go b/zkclient/settings.go
index 3272729..a123133 100644
--- a/zkclient/settings.go
+++ b/zkclient/settings.go
@@ -111,6 +111,28 @@ func colorToAnsi(in string) (string, error) {
 	return ttk.Color(a, fg, bg)
 }
 
+// writeDefaultConf creates the default config file such that it is either not
+// there or complete.
+func writeDefaultConf(filename string) error {
+	f, err := ioutil.TempFile(filepath.Dir(filename),
+		filepath.Base(filename))
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.WriteString(defaultConfigFileContent)
+	if err == nil {
+		err = f.Sync()
+	}
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filename)
+}
+
 func ObtainSettings() (*Settings, error) {
 	home, err := homedir.Dir()
 	if err != nil {
@@ -176,8 +198,7 @@ func ObtainSettings() (*Settings, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = ioutil.WriteFile(defaultConfFile,
-				[]byte(defaultConfigFileContent), 0700)
+			err = writeDefaultConf(defaultConfFile)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From b1b38cb83326284013bf9e4d626221493fc5f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:24 +0000
Subject: [PATCH 81/87] fix: don't refuse to import accounts that don't exist
 yet

---
 tools/zkimport/zkimport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/zkimport/zkimport.go b/tools/zkimport/zkimport.go
index b85dffc..a116cf2 100644
--- a/tools/zkimport/zkimport.go
+++ b/tools/zkimport/zkimport.go
@@ -103,8 +103,8 @@ func importClientRecord(root string, force bool, cr tools.ClientRecord) error {
 	i := hex.EncodeToString(cr.PublicIdentity.Identity[:])
 	user := path.Join(dir, tools.ZKSHome, i)
 	_, err = os.Stat(user)
-	if err != nil {
-		return err
+	if err == nil && !force {
+		return fmt.Errorf("account already exists: %v", user)
 	}
 	a, err := account.New(home)
 	if err != nil {
-- 
2.43.0


From 62872bdb1e890eee388d5d4cf2552573708309b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 82/87] fix: list the accounts even if the creation of one was
 interrupted

---
 tools/zkserverdump/zkserverdump.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/zkserverdump/zkserverdump.go b/tools/zkserverdump/zkserverdump.go
index 8e9b74c..a7145dc 100644
--- a/tools/zkserverdump/zkserverdump.go
+++ b/tools/zkserverdump/zkserverdump.go
@@ -11,9 +11,11 @@ import (
 	"path"
 	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/companyzero/zkc/inidb"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/tools"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/companyzero/zkc/zkserver/account"
 	"github.com/companyzero/zkc/zkserver/settings"
@@ -69,6 +71,12 @@ func _main() error {
 	}
 
 	for _, v := range fi {
+		// skip accounts whose creation was interrupted
+		_, err := tools.ValidateIdentity(strings.TrimPrefix(v.Name(),
+			"."))
+		if err != nil {
+			continue
+		}
 		user, err := inidb.New(filepath.Join(settings.Users, v.Name(),
 			account.UserIdentityFilename), false, 1)
 		if err != nil {
-- 
2.43.0


From 439120852245c7805404f16fc7a22be6887bc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 83/87] fix: don't accept messages that are too large to be
 delivered

The push of a message is a bit larger than the command that stores it on the
server.  A message at the limit was acknowledged but ended the session of its
recipient, again at every login.
---
 zkserver/cache.go    | 32 +++++++++++++++++++++++++++++---
 zkserver/zkserver.go | 16 ++++++++++++++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/zkserver/cache.go b/zkserver/cache.go
index fde549c..eb5a7c9 100644
--- a/zkserver/cache.go
+++ b/zkserver/cache.go
@@ -6,6 +6,7 @@ package main
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"path"
 
@@ -14,6 +15,8 @@ import (
 	"github.com/companyzero/zkc/zkidentity"
 )
 
+var errTooLarge = errors.New("message too large")
+
 // think about establishing whitelist or just blind deliver
 func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Message, cache rpc.Cache) error {
 	// sanity
@@ -30,11 +33,24 @@ func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
+	var (
+		filename string
+		err      error
+	)
+	fits := z.fits(rpc.TaggedCmdPush, rpc.Push{Payload: cache.Payload})
+	if fits {
+		filename, err = z.account.Deliver(cache.To, from,
+			cache.Payload, false)
+	} else {
+		// the recipient can't ever receive this
+		err = errTooLarge
+	}
 	if err != nil {
 		replyError := "internal error"
 		replyErrorCode := rpc.ErrorCodeInvalid
-		if z.account.Disabled(cache.To) {
+		if !fits {
+			replyError = errTooLarge.Error()
+		} else if z.account.Disabled(cache.To) {
 			replyError = fmt.Sprintf("identity disabled %x",
 				cache.To)
 			replyErrorCode = rpc.ErrorCodeUserDisabled
@@ -99,7 +115,17 @@ func (z *ZKS) handleProxy(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
+	var (
+		filename string
+		err      error
+	)
+	if z.fits(rpc.TaggedCmdPush, rpc.Push{Payload: proxy.Payload}) {
+		filename, err = z.account.Deliver(proxy.To, from,
+			proxy.Payload, true)
+	} else {
+		// the recipient can't ever receive this
+		err = errTooLarge
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
 			proxy.To)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index a486cc7..2c99bc5 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -38,6 +38,7 @@ import (
 	"github.com/companyzero/zkc/zkutil"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
+	"golang.org/x/crypto/nacl/secretbox"
 )
 
 const (
@@ -131,6 +132,21 @@ func (z *ZKS) writeMessage(kx *session.KX, msg *RPCWrapper) error {
 	return nil
 }
 
+// fits returns true if a command with the provided payload is not too large to
+// be sent to a client.
+func (z *ZKS) fits(command string, payload interface{}) bool {
+	var bb bytes.Buffer
+	_, err := xdr.Marshal(&bb, rpc.Message{Command: command})
+	if err != nil {
+		return false
+	}
+	_, err = xdr.Marshal(&bb, payload)
+	if err != nil {
+		return false
+	}
+	return uint64(bb.Len()+secretbox.Overhead) <= z.settings.MaxMsgSize
+}
+
 func (z *ZKS) unwelcome(kx *session.KX, reason string) error {
 	// assemble command
 	message := rpc.Message{
-- 
2.43.0


From dbf5626ac4b15e1fb1997a24d4349bc3e693849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 84/87] fix: ratchet: forget the key exchange secrets once it
 is complete

---
 ratchet/ratchet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index e82f970..39ca0c0 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -231,8 +231,11 @@ func (r *Ratchet) CompleteKeyExchange(kx *KeyExchange, alice bool) error {
 		copy(r.sendRatchetPrivate[:], r.kxPrivate[:])
 	}
 
+	// the keys of the first messages can be derived from both halves
 	r.ratchet = alice
 	r.kxPrivate = nil
+	r.MyHalf = nil
+	r.TheirHalf = nil
 
 	return nil
 }
-- 
2.43.0


From 9f0bbb514b454c219669a576b15a83902967ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 85/87] fix: don't create an account on a server that was not
 accepted

---
 zkclient/welcome.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 4863463..6cd47ca 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -5,6 +5,7 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -156,7 +157,9 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 
 		var pid zkidentity.PublicIdentity
 
-		if ww.zkc.serverIdentity == nil {
+		// ask again unless this is the server that was accepted before
+		if ww.zkc.serverIdentity == nil ||
+			!bytes.Equal(cs.PeerCertificates[0].Raw, ww.zkc.cert) {
 			// awful hack to get fingerprint
 
 			// tell remote we want its public identity
-- 
2.43.0


From c8279a5fe1651548fc39fb4dabd2a1f26cfe8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 86/87] fix: don't wait forever for the server when creating an
 account

---
 zkclient/welcome.go  | 4 ++++
 zkclient/zkclient.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 6cd47ca..66ec790 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"time"
 
 	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/rpc"
@@ -155,6 +156,9 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		// the user is waiting, don't do so forever
+		conn.SetDeadline(time.Now().Add(30 * time.Second))
+
 		var pid zkidentity.PublicIdentity
 
 		// ask again unless this is the server that was accepted before
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 3111126..e5a6cb2 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2096,6 +2096,9 @@ func (z *ZKC) loadGroupchat() error {
 
 func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	pid *zkidentity.PublicIdentity, token string) error {
+	// the user is waiting, don't do so forever
+	conn.SetDeadline(time.Now().Add(30 * time.Second))
+
 	// tell server we want to create an account
 	_, err := xdr.Marshal(conn, rpc.InitialCmdCreateAccount)
 	if err != nil {
@@ -2150,6 +2153,7 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 	if err != nil {
 		return err
 	}
+	conn.SetDeadline(time.Time{})
 
 	go z.handleRPC()
 
-- 
2.43.0


From eb640433c8e96237e20b8b752457ebf998aff921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 87/87] fix: start when the client died while saving a new
 account

---
 zkclient/zkclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index e5a6cb2..dfe15e9 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2233,14 +2233,14 @@ func _main() error {
 		return err
 	}
 
-	// see if we have a myserver.ini
+	// see if we have a myserver.ini, it is empty if we died creating it
 	var server *inidb.INIDB
 	var foundServerIdentity bool
 	var foundClientIdentity bool
 
 	filename := path.Join(z.settings.Root, tools.ZKCServerFilename)
 	server, err = inidb.New(filename, false, 10)
-	if err == nil {
+	if err == nil && len(server.Records("")) != 0 {
 		foundServerIdentity = true
 		// obtain all entries from ini
 		err = z.parseMyServer(server)
-- 
2.43.0

