From e9f7bf62977f18b6b172af8e16eee38bb448959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 01/47] fix: removing a label keeps the other labels

---
 blobformat/blobs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..6968a07 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -446,12 +446,13 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	if len(labels) == 1 {
+		b.touchUpdated(uuid)
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
-- 
2.43.0


From 75366f5067259ef03a647e09b2ac99b6d82535ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 02/47] fix: replace files atomically when saving and pushing

A crash, power failure or full disk while saving truncated the file in place
and lost its contents.
---
 atomicwrite.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++
 main.go        |  2 +-
 sync.go        |  2 +-
 3 files changed, 73 insertions(+), 2 deletions(-)
 create mode 100644 atomicwrite.go

diff --git a/atomicwrite.go b/atomicwrite.go
new file mode 100644
index 0000000..77184f9
--- /dev/null
+++ b/atomicwrite.go
@@ -0,0 +1,71 @@
+package main
+
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+)
+
+// writeFileAtomic replaces the contents of filename with data, so that at any
+// point in time (also after a crash or a failed write) the file has either its
+// old contents or all of the new ones.
+func writeFileAtomic(filename string, data []byte, perm os.FileMode) error {
+	// Replace what a symlink points to, not the symlink
+	target, err := filepath.EvalSymlinks(filename)
+	if os.IsNotExist(err) {
+		target = filename
+		if link, lerr := os.Readlink(filename); lerr == nil {
+			// Dangling symlink, create what it points to
+			if !filepath.IsAbs(link) {
+				link = filepath.Join(filepath.Dir(filename), link)
+			}
+			target = link
+		}
+	} else if err != nil {
+		return err
+	}
+
+	if info, err := os.Stat(target); err == nil {
+		if !info.Mode().IsRegular() {
+			return ioutil.WriteFile(target, data, perm)
+		}
+		perm = info.Mode().Perm()
+	}
+
+	dir := filepath.Dir(target)
+	tmp, err := ioutil.TempFile(dir, "."+filepath.Base(target)+".tmp")
+	if os.IsPermission(err) {
+		// The directory does not allow new files, but the file itself may
+		// still be writable.
+		return ioutil.WriteFile(target, data, perm)
+	} else if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(perm)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), target)
+	}
+	if err != nil {
+		_ = os.Remove(tmp.Name())
+		return err
+	}
+
+	// Make the rename durable, not every platform can sync directories so
+	// errors are of no consequence here.
+	if d, err := os.Open(dir); err == nil {
+		_ = d.Sync()
+		_ = d.Close()
+	}
+
+	return nil
+}
diff --git a/main.go b/main.go
index 1bf94b4..7c67c6b 100644
--- a/main.go
+++ b/main.go
@@ -269,7 +269,7 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFileAtomic(flagFile, data, 0600)
 }
 
 func shortPath(filename string) string {
diff --git a/sync.go b/sync.go
index 706fd9b..389a45d 100644
--- a/sync.go
+++ b/sync.go
@@ -297,7 +297,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFileAtomic(path, payload, 0600)
 	}
 
 	return hostentry, err
-- 
2.43.0


From 558d14e3f926466af652b13beaadf5dc7b9eb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 03/47] fix: report failure in the exit status

Clearing the clipboard and closing the terminal overwrote the error of the
session, so that every run ended with status 0.
---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 7c67c6b..008e56b 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,13 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if closeErr := ctx.in.Close(); closeErr != nil {
+		fmt.Println("failed to close terminal properly:", closeErr)
 	}
 
 	if err != nil {
-- 
2.43.0


From 31691bacf5d7b5f7e49db6651e360f5790a43b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 04/47] fix: edit keeps the value when its temporary file
 cannot be written

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index b5b025b..5dc174e 100644
--- a/commands.go
+++ b/commands.go
@@ -872,7 +872,8 @@ func (u *uiContext) edit(search, key string) error {
 	oldValue := blob[key]
 	if len(oldValue) != 0 {
 		if _, err = io.WriteString(tmp, oldValue); err != nil {
-			errColor.Println("failed to write to tmp file")
+			errColor.Println("failed to write to tmp file:", err)
+			return nil
 		}
 	}
 	maxLen := len(oldValue)
-- 
2.43.0


From 65aa88d4b4462d51457a541fd80fd39342109a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 05/47] fix: wipe the edited value when the editor cannot be
 run

---
 commands.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/commands.go b/commands.go
index 5dc174e..918d108 100644
--- a/commands.go
+++ b/commands.go
@@ -902,23 +902,20 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	// Run the editor for the OS and wait until it exits
-	editExit := 0
-	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
-		}
-		editExit = e.ExitCode()
-	}
+	editErr := osutil.RunEditor(fname)
 
+	// Open the file again before anything else, so it can be wiped
 	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
 	if err != nil {
 		errColor.Println("failed to open tmp file to edit value:", err)
 		return nil
 	}
 
-	if editExit != 0 {
-		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
+	if e, ok := editErr.(*exec.ExitError); ok {
+		errColor.Printf("editor exit non-zero (%d), not saving value\n", e.ExitCode())
+		return nil
+	} else if editErr != nil {
+		errColor.Println("failed to run editor:", editErr)
 		return nil
 	}
 
-- 
2.43.0


From b70c5b82a56f583e34c27a2a661a1133abd7aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 06/47] fix: refuse damaged files and wrong credentials without
 crashing

---
 crypt/crypto.go    |  8 ++++++--
 crypt/crypto_v1.go | 34 +++++++++++++++++++++++++++++-----
 pkcs7/pad.go       |  3 +++
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..871455e 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..18d9f92 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -210,7 +210,7 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 
 	var nUsers int
 	i, err := strconv.ParseInt(string(nUserBytes), 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return p, nil, ErrInvalidFileFormat
 	}
 
@@ -231,6 +231,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, err
 	}
 
+	if len(encrypted) < magicLen+c.saltSize+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	// Pull salt out and derive key
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
@@ -266,6 +270,12 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// A truncated file or the wrong passphrase can leave us with something
+		// that's not made of whole blocks
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +286,9 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -314,6 +327,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	userHash := s[:]
 
 	plaintextHeader := encrypted[magicLen:]
+	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(plaintextHeader) < userSize*nUsers+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
 
 	for i := 0; i < nUsers; i++ {
 		p.Users = append(p.Users, make([]byte, sha256.Size))
@@ -341,11 +358,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		// Here we could return ErrUnknownUser, but this is bad
 		// for security, lets just create some 0 bytes for the headers etc
 		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = nUsers
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -418,6 +434,12 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// A truncated file or the wrong passphrase can leave us with something
+		// that's not made of whole blocks
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -428,12 +450,14 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
-	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..0efe5fe 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,9 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	if padBytes == 0 {
+		return nil, errPaddingInvalid
+	}
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From fb5c65c76741c7732810afb57bfe9c76eb03a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 07/47] fix: rekeyall gives every user the new master key

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 918d108..6868761 100644
--- a/commands.go
+++ b/commands.go
@@ -259,7 +259,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1d2929cd5f9deae5123050036b0041fb69cfc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 08/47] fix: passwd and rekey change the named user and keep
 the session's key

---
 commands.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 main.go     |  1 +
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 6868761..e4a4cdf 100644
--- a/commands.go
+++ b/commands.go
@@ -49,6 +49,10 @@ const (
 )
 
 func (u *uiContext) passwd(user string) error {
+	if ok, err := u.isKnownUser(user); err != nil || !ok {
+		return err
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -65,7 +69,7 @@ func (u *uiContext) passwd(user string) error {
 	}
 
 	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
+	if u.isCurrentUser(user) {
 		u.pass = pass
 		u.key = key
 		u.salt = salt
@@ -73,7 +77,12 @@ func (u *uiContext) passwd(user string) error {
 
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
+		username := u.user
+		if len(user) != 0 {
+			username = user
+		}
+
+		uuid, _, err := u.store.MustFindUser(username)
 		if err != nil {
 			return err
 		}
@@ -92,6 +101,31 @@ func (u *uiContext) passwd(user string) error {
 	return nil
 }
 
+// isCurrentUser checks if the user given to a command is the one who opened the
+// file, which is also who an empty name stands for. There is no other in a
+// single user file.
+func (u *uiContext) isCurrentUser(user string) bool {
+	return len(u.master) == 0 || len(user) == 0 || u.user == user
+}
+
+// isKnownUser checks that a user given to a command exists.
+func (u *uiContext) isKnownUser(user string) (bool, error) {
+	if u.isCurrentUser(user) {
+		return true, nil
+	}
+
+	uuid, _, err := u.store.FindUser(user)
+	if err != nil {
+		return false, err
+	}
+	if len(uuid) == 0 {
+		errColor.Printf("user %q not found\n", user)
+		return false, nil
+	}
+
+	return true, nil
+}
+
 func (u *uiContext) adduser(user string) error {
 	uuid, err := u.store.NewUser(user)
 	if err == blobformat.ErrNameNotUnique {
@@ -143,7 +177,10 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	isCurrentUser := u.isCurrentUser(user)
+	if ok, err := u.isKnownUser(user); err != nil || !ok {
+		return err
+	}
 
 	var pass string
 	var err error
diff --git a/main.go b/main.go
index 008e56b..9d46182 100644
--- a/main.go
+++ b/main.go
@@ -180,6 +180,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From 054e70965c8333b4fca11a5a86a190d17113cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 09/47] fix: only entries with keys are users

---
 blobformat/blob.go  |  5 +++++
 blobformat/blobs.go | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..6730642 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -33,6 +33,11 @@ func (b Blob) Name() string {
 	return name
 }
 
+// hasUserKeys checks that this entry has what's needed to be a user.
+func (b Blob) hasUserKeys() bool {
+	return len(b[KeyIV]) != 0 && len(b[KeySalt]) != 0 && len(b[KeyMKey]) != 0
+}
+
 // Get a specific value. Panics if name is not found. Special keys require the
 // use of specific getters: labels, notes, twofactor, updated etc.
 func (b Blob) Get(key string) string {
diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 6968a07..9ecb31a 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -225,7 +225,12 @@ func (b Blobs) FindByName(name string) (string, Blob, error) {
 
 // FindUser return "", nil if the user could not be found.
 func (b Blobs) FindUser(username string) (string, Blob, error) {
-	return b.FindByName(userPrefix + username)
+	uuid, blob, err := b.FindByName(userPrefix + username)
+	if err != nil || !blob.hasUserKeys() {
+		return "", nil, err
+	}
+
+	return uuid, blob, nil
 }
 
 // MustFindUser never returns uuid or Blob
@@ -290,7 +295,9 @@ func (b Blobs) Users() (results SearchResults, err error) {
 	for uuid, entry := range b.DB.Snapshot {
 		blob := Blob(entry)
 
-		if !IsUserEntry(blob.Name()) {
+		// Anyone can give an entry a user's name, but without the keys it
+		// cannot be used to open the file.
+		if !IsUserEntry(blob.Name()) || !blob.hasUserKeys() {
 			continue
 		}
 
@@ -372,7 +379,7 @@ func (b Blobs) Set(uuid, key, value string) error {
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
 func (b Blobs) DeleteKey(uuid, key string) error {
 	switch key {
-	case KeyName, KeyUpdated:
+	case KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey:
 		return keyNotAllowed(key)
 	}
 
@@ -489,18 +496,17 @@ func (b Blobs) NewUser(name string) (uuid string, err error) {
 
 // IsUserEntry checks to see if the name conforms to user standards
 func IsUserEntry(name string) bool {
-	return strings.HasPrefix(name, userPrefix)
+	return len(SplitUsername(name)) != 0
 }
 
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !strings.HasPrefix(entryname, userPrefix) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 0915930544c5367884461f93c777b94cba06666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 10/47] fix: follow the current user through renames and
 removal

---
 commands.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/commands.go b/commands.go
index e4a4cdf..6472549 100644
--- a/commands.go
+++ b/commands.go
@@ -570,6 +570,21 @@ func (u *uiContext) rename(src, dst string) error {
 		return nil
 	}
 
+	// The current user has to remain one unless there is no other
+	username := blobformat.SplitUsername(src)
+	renameSelf := len(u.master) != 0 && len(username) > 0 && username == u.user
+	if renameSelf && !blobformat.IsUserEntry(dst) {
+		users, err := u.store.Users()
+		if err != nil {
+			return err
+		}
+
+		if len(users) > 1 {
+			errColor.Println("cannot remove yourself while there are other users in the file")
+			return nil
+		}
+	}
+
 	if err := u.store.Rename(oldUUID, dst); err == blobformat.ErrNameNotUnique {
 		errColor.Println(dst, "already exists")
 		return nil
@@ -577,6 +592,15 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if renameSelf {
+		u.user = blobformat.SplitUsername(dst)
+		if len(u.user) == 0 {
+			// Nobody is left, this is a single user file again
+			u.master = nil
+			u.ivm = nil
+		}
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
@@ -624,6 +648,7 @@ func (u *uiContext) deleteEntry(name string) error {
 	if deleteSelf {
 		// We are always the last user and so we must should clear the master
 		// key and IVM to ensure that we are not encrypted as a multi-user file
+		u.user = ""
 		u.master = nil
 		u.ivm = nil
 	}
-- 
2.43.0


From 16cee5b70b590a8a20633b47daa5731e10c90b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 11/47] fix: accept the answer to a sync conflict

---
 merging.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..02b2422 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -244,7 +244,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -256,6 +256,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
+			Ask:
 				for {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
@@ -265,14 +266,18 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						break Ask
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						break Ask
 					}
 				}
 			}
 		}
+
+		// Resolving one conflict can uncover another, earlier answers still
+		// stand.
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 39ddb2dce08efe0fe4008576338d544b51706630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 12/47] fix: tell changes that share a timestamp apart when
 merging

---
 sync.go          |  4 +---
 txlogs/tx.go     | 16 ++++++++++++++++
 txlogs/txlogs.go | 42 ++++++++++++++++++++++++++----------------
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/sync.go b/sync.go
index 389a45d..26dadc1 100644
--- a/sync.go
+++ b/sync.go
@@ -116,9 +116,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
diff --git a/txlogs/tx.go b/txlogs/tx.go
index 3aaccf0..1e76e42 100644
--- a/txlogs/tx.go
+++ b/txlogs/tx.go
@@ -29,6 +29,22 @@ type Tx struct {
 	Value string `msgpack:"value,omitempty" json:"value,omitempty"`
 }
 
+// before orders transactions: first by time, then by uuid, and so that it's
+// the same on each side of a merge, by everything else.
+func (t Tx) before(o Tx) bool {
+	switch {
+	case t.Time != o.Time:
+		return t.Time < o.Time
+	case t.UUID != o.UUID:
+		return t.UUID < o.UUID
+	case t.Kind != o.Kind:
+		return t.Kind < o.Kind
+	case t.Key != o.Key:
+		return t.Key < o.Key
+	}
+	return t.Value < o.Value
+}
+
 // conflict types
 const (
 	// ConflictKindDeleteSet occurs when an entry has been deleted
diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..bb90d7d 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -312,8 +312,8 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
+// There is a no-fork fast-path in which a is returned if both logs are the
+// same.
 //
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
@@ -336,13 +336,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
+	if SameLog(a, b) {
 		return a, nil
 	}
 
@@ -375,7 +369,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Initial != c[last] {
 					continue
 				}
 
@@ -396,7 +390,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Initial == deleteTx {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -410,7 +404,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Initial == deleteTx {
 				return
 			}
 		}
@@ -429,10 +423,11 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			break
 		}
 
-		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		// If they're the same, append and move on, haven't reached fork. The
+		// time alone does not tell: different changes can share a timestamp.
+		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
+				deleted[a[i].UUID] = len(c)
 			}
 
 			c = append(c, a[i])
@@ -458,7 +453,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if a[i].before(b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
@@ -486,6 +481,21 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	return c, nil
 }
 
+// SameLog checks if two logs are the same list of events
+func SameLog(a, b []Tx) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 // applyTx applies the src transactions to the destination snapshot
 func applyTx(dst map[string]Entry, tx Tx) error {
 	switch tx.Kind {
-- 
2.43.0


From 3dd26ef18d4d046dbc3c70ef9aa8f9e27fa5688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 13/47] fix: deleting an entry on two devices is not a conflict

---
 txlogs/txlogs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index bb90d7d..cd1759b 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -385,6 +385,12 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			return
 		}
 
+		// Both sides deleted it, there's nothing to decide.
+		if c[last].Kind == TxDelete {
+			c = c[:last]
+			return
+		}
+
 		// We've previously been deleted and have found an add/set operation of
 		// some kind, this is a conflict.
 		deleteTx := c[ind]
-- 
2.43.0


From f4ec5d406bf84ace932dbb91e2677e2d52b15682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 14/47] fix: merge histories that have the same changes in
 another order

---
 txlogs/txlogs.go | 68 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index cd1759b..809a26d 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -423,19 +423,43 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		})
 	}
 
+	// What remains of each log, to tell what the other side has as well.
+	resta, restb := make(map[Tx]int, lena), make(map[Tx]int, lenb)
+	for _, tx := range a {
+		resta[tx]++
+	}
+	for _, tx := range b {
+		restb[tx]++
+	}
+	// How many more times an event was taken from a than from b.
+	ahead := make(map[Tx]int)
+
 	i, j := 0, 0
-	for {
-		if i >= lena || j >= lenb {
-			break
+	for i < lena || j < lenb {
+		// The histories can have the same events in another order, so an event
+		// may already have been taken from the other side.
+		if i < lena && ahead[a[i]] < 0 {
+			ahead[a[i]]++
+			resta[a[i]]--
+			i++
+			continue
+		}
+		if j < lenb && ahead[b[j]] > 0 {
+			ahead[b[j]]--
+			restb[b[j]]--
+			j++
+			continue
 		}
 
 		// If they're the same, append and move on, haven't reached fork. The
 		// time alone does not tell: different changes can share a timestamp.
-		if a[i] == b[j] {
+		if i < lena && j < lenb && a[i] == b[j] {
 			if a[i].Kind == TxDelete {
 				deleted[a[i].UUID] = len(c)
 			}
 
+			resta[a[i]]--
+			restb[b[j]]--
 			c = append(c, a[i])
 			i++
 			j++
@@ -447,7 +471,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		// that means that there is no common ancestry and this is likely a
 		// mistake to be syncing these. Create a conflict. This will always
 		// be the first conflict.
-		if i == 0 && j == 0 {
+		if i == 0 && j == 0 && lena > 0 && lenb > 0 {
 			// Check if it's been resolved
 			if len(resolved) == 0 || resolved[0].resolution != resolveForce {
 				conflicts = append(conflicts, Conflict{
@@ -459,10 +483,32 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].before(b[j]) {
+		var takea bool
+		switch {
+		case j >= lenb:
+			takea = true
+		case i >= lena:
+			takea = false
+		default:
+			// What only one side has comes before what both have, it is there
+			// in the history that has both.
+			shareda := restb[a[i]] > ahead[a[i]]
+			sharedb := resta[b[j]] > -ahead[b[j]]
+			if shareda != sharedb {
+				takea = sharedb
+			} else {
+				takea = a[i].before(b[j])
+			}
+		}
+
+		if takea {
+			ahead[a[i]]++
+			resta[a[i]]--
 			c = append(c, a[i])
 			i++
 		} else {
+			ahead[b[j]]--
+			restb[b[j]]--
 			c = append(c, b[j])
 			j++
 		}
@@ -470,16 +516,6 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		checkConflict()
 	}
 
-	// Append the rest of the events
-	for ; i < lena; i++ {
-		c = append(c, a[i])
-		checkConflict()
-	}
-	for ; j < lenb; j++ {
-		c = append(c, b[j])
-		checkConflict()
-	}
-
 	if len(conflicts) != 0 {
 		return nil, conflicts
 	}
-- 
2.43.0


From 12b7616e3844895f2ab428597f1dd52a11b256d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 15/47] fix: flush a file that has to be written in place

---
 atomicwrite.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/atomicwrite.go b/atomicwrite.go
index 77184f9..3d0fed3 100644
--- a/atomicwrite.go
+++ b/atomicwrite.go
@@ -37,7 +37,7 @@ func writeFileAtomic(filename string, data []byte, perm os.FileMode) error {
 	if os.IsPermission(err) {
 		// The directory does not allow new files, but the file itself may
 		// still be writable.
-		return ioutil.WriteFile(target, data, perm)
+		return overwriteFile(target, data)
 	} else if err != nil {
 		return err
 	}
@@ -69,3 +69,21 @@ func writeFileAtomic(filename string, data []byte, perm os.FileMode) error {
 
 	return nil
 }
+
+// overwriteFile writes data to a file that cannot be replaced.
+func overwriteFile(filename string, data []byte) error {
+	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+
+	return err
+}
-- 
2.43.0


From 7263da8ee4b5951620b68263c80df4390eddc8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 16/47] fix: password menu crashed on blank input and long
 passwords

Input of only blanks and lengths of a multiple of 256 ended the program, and a
password that could not be generated was accepted as an empty one.
---
 passwd_gen.go | 14 ++++++++++----
 uihelpers.go  |  7 ++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..fcbb4ae 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -13,6 +13,9 @@ var (
 	alphabetExtraSymbols = `()_+-=<>,.{}[]\|?/~"\'` + "`"
 )
 
+// maxPasswordLength is how far the entropy used to shuffle reaches
+const maxPasswordLength = 1 << 16
+
 var (
 	errPasswordImpossible = errors.New("password cannot be generated")
 )
@@ -20,12 +23,15 @@ var (
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
 	}
 
-	if needLen > length {
+	if needLen > length || length > maxPasswordLength {
 		return "", errPasswordImpossible
 	}
 
@@ -36,7 +42,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+(length*2))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -92,9 +98,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := (int(entropy[eOffset])<<8 | int(entropy[eOffset+1])) % length
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 2
 	}
 
 	return string(password), nil
diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..dd4de62 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -245,6 +245,7 @@ func (u *uiContext) getPassword() (string, error) {
 		if regen {
 			password, err = genPassword(length, upper, lower, number, basic, extra)
 			if err == errPasswordImpossible {
+				password = ""
 				errColor.Println("Could not generate password with these requirements")
 			} else if err != nil {
 				return "", err
@@ -264,9 +265,13 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
 		case choice == "y":
+			if len(password) == 0 {
+				// There's nothing to accept
+				continue
+			}
 			return password, nil
 		case choice == "m":
 			initial, err := u.promptPassword(promptColor.Sprint("enter new password: "))
-- 
2.43.0


From 26aa83865aacc6f8e9d00be6ce5481ac4d527a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 17/47] fix: adduser refuses an empty passphrase

An empty password entered for a further user created one that anybody can open
the file as, which passwd refuses. The entry is made once the password is known,
so that a refusal leaves nothing behind.
---
 blobformat/blobs.go |  5 +++++
 commands.go         | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 9ecb31a..6ee00c4 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,6 +494,11 @@ func (b Blobs) NewUser(name string) (uuid string, err error) {
 	return b.New(userPrefix + name)
 }
 
+// UserEntryName returns the name of the entry of a user
+func UserEntryName(name string) string {
+	return userPrefix + name
+}
+
 // IsUserEntry checks to see if the name conforms to user standards
 func IsUserEntry(name string) bool {
 	return len(SplitUsername(name)) != 0
diff --git a/commands.go b/commands.go
index 6472549..5d9a705 100644
--- a/commands.go
+++ b/commands.go
@@ -127,12 +127,13 @@ func (u *uiContext) isKnownUser(user string) (bool, error) {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	exists, _, err := u.store.FindByName(blobformat.UserEntryName(user))
+	if err != nil {
+		return err
+	}
+	if len(exists) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
 	var key, salt []byte
@@ -152,6 +153,11 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
@@ -163,6 +169,11 @@ func (u *uiContext) adduser(user string) error {
 		return err
 	}
 
+	uuid, err := u.store.NewUser(user)
+	if err != nil {
+		return err
+	}
+
 	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
 	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
 	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
-- 
2.43.0


From 2f8b4ef4bdfd50aa350ec8c5159211bed5f7a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 18/47] fix: two factor codes follow the parameters of the key

Period, digits and algorithm in the uri were ignored, which gave wrong codes,
and keys no code can be made of were accepted.
---
 blobformat/blob.go  | 56 ++++++++++++++++++++++++++++++++++++++++++---
 blobformat/blobs.go |  5 +++-
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 6730642..b349c45 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -1,7 +1,9 @@
 package blobformat
 
 import (
+	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -68,17 +70,65 @@ func (b Blob) TwoFactor() (string, error) {
 		return "", fmt.Errorf("failed to parse two factor uri for %s: %w", b.Name(), err)
 	}
 
+	code, err := twoFactorCode(key, time.Now().UTC())
+	if err != nil {
+		return "", fmt.Errorf("two factor key for %s: %w", b.Name(), err)
+	}
+
+	return code, nil
+}
+
+// twoFactorCode generates the code of a key, the parameters that are optional
+// in its uri have the defaults of the Key-Uri-Format.
+func twoFactorCode(key *otp.Key, at time.Time) (string, error) {
 	// There's no constant for totp here
 	if key.Type() != "totp" {
-		return "", fmt.Errorf("two factor key for %s was not a totp key", b.Name())
+		return "", errors.New("not a totp key")
+	}
+
+	if len(strings.TrimSpace(key.Secret())) == 0 {
+		return "", errors.New("no secret in the key")
 	}
 
-	code, err := totp.GenerateCode(key.Secret(), time.Now().UTC())
+	uri, err := url.Parse(key.URL())
 	if err != nil {
 		return "", err
 	}
+	query := uri.Query()
 
-	return code, nil
+	opts := totp.ValidateOpts{
+		Period:    30,
+		Digits:    otp.DigitsSix,
+		Algorithm: otp.AlgorithmSHA1,
+	}
+
+	if period := query.Get("period"); len(period) != 0 {
+		n, err := strconv.ParseUint(period, 10, 31)
+		if err != nil || n == 0 {
+			return "", fmt.Errorf("period %q is not supported", period)
+		}
+		opts.Period = uint(n)
+	}
+
+	switch digits := query.Get("digits"); digits {
+	case "", "6":
+	case "8":
+		opts.Digits = otp.DigitsEight
+	default:
+		return "", fmt.Errorf("%q digits are not supported", digits)
+	}
+
+	switch algorithm := query.Get("algorithm"); strings.ToUpper(algorithm) {
+	case "", "SHA1":
+	case "SHA256":
+		opts.Algorithm = otp.AlgorithmSHA256
+	case "SHA512":
+		opts.Algorithm = otp.AlgorithmSHA512
+	default:
+		return "", fmt.Errorf("algorithm %q is not supported", algorithm)
+	}
+
+	return totp.GenerateCodeCustom(key.Secret(), at, opts)
 }
 
 // Labels for the blob
diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 6ee00c4..1b78311 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -410,10 +410,13 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		)
 	}
 
-	_, err := otp.NewKeyFromURL(uri)
+	key, err := otp.NewKeyFromURL(uri)
 	if err != nil {
 		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
 	}
+	if _, err = twoFactorCode(key, time.Now().UTC()); err != nil {
+		return fmt.Errorf("could not set two factor key: %w", err)
+	}
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyTwoFactor, uri)
-- 
2.43.0


From abecb55e2c816a7e021b35e6ccd2a2760db0cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 19/47] fix: a bad two factor key must not end the session

login returned the error to the repl, which exits without saving.
---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 5d9a705..f259112 100644
--- a/commands.go
+++ b/commands.go
@@ -828,7 +828,8 @@ func (u *uiContext) login(search string) error {
 			if k == blobformat.KeyTwoFactor {
 				value, err = blob.TwoFactor()
 				if err != nil {
-					return err
+					errColor.Println(err)
+					continue
 				}
 			}
 			keyVals = append(keyVals, keyVal{Key: k, Val: value})
-- 
2.43.0


From faef138065f0cf0dc2ec9e146ec8ad4b2b98aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 20/47] fix: report keys that may not be set

set and edit claimed to have changed protected keys.
---
 commands.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index f259112..3f293b2 100644
--- a/commands.go
+++ b/commands.go
@@ -896,7 +896,13 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
+		if blobformat.IsKeyNotAllowed(err) {
+			errColor.Println(key, "may not be set")
+			return nil
+		} else if err != nil {
+			return err
+		}
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
@@ -1004,11 +1010,20 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	if len(newValue) == 0 {
-		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
+		err = u.store.DeleteKey(uuid, key)
 	} else {
+		err = u.store.Set(uuid, key, string(newValue))
+	}
+
+	switch {
+	case blobformat.IsKeyNotAllowed(err):
+		errColor.Println(key, "may not be set")
+	case err != nil:
+		return err
+	case len(newValue) == 0:
+		infoColor.Println("erasing value")
+	default:
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
 	}
 
 	return nil
-- 
2.43.0


From 2a0cb2d9f729631ce89341d86d2cc5cf657e7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 21/47] fix: show with a negative snapshot crashed

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 809a26d..f024121 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -231,7 +231,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -250,7 +250,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From 226e19e6ebaced21d62ec0a9b5564c66b51add30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 22/47] fix: opening a file at the time an entry was being
 added crashed

---
 main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.go b/main.go
index 9d46182..fc100cc 100644
--- a/main.go
+++ b/main.go
@@ -242,6 +242,13 @@ func (u *uiContext) loadBlob() error {
 		if err := u.store.DB.UpdateSnapshot(); err != nil {
 			return err
 		}
+
+		// That time can be in the middle of adding an entry
+		for uuid, entry := range u.store.DB.Snapshot {
+			if _, ok := entry[blobformat.KeyName]; !ok {
+				delete(u.store.DB.Snapshot, uuid)
+			}
+		}
 	}
 
 	// Save this to know if we've actually edited the database in some way
-- 
2.43.0


From 37ad2c8a6cef97886b8cebfac672b59db8349f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 23/47] fix: lpassimport made an entry of the header

---
 import.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import.go b/import.go
index ef60100..d69e89f 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,7 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From 07074007ae4baf5e48c3c5e2a5a9faf66294d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 24/47] fix: export the current contents, readable by the owner
 only

The snapshot in the file may be older than its log, a failing close was not
noticed and the file was created with the permissions of any other.
---
 export.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 385f189..6f38e71 100644
--- a/export.go
+++ b/export.go
@@ -14,6 +14,10 @@ func export(u *uiContext) error {
 	var entries []string
 	keysSet := make(map[string]struct{})
 
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	for entry, blob := range u.store.DB.Snapshot {
 		entries = append(entries, entry)
 		for k := range blob {
@@ -29,7 +33,8 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
-	f, err := os.Create(flagExportFilename)
+	// The file is not encrypted, keep others from reading it
+	f, err := os.OpenFile(flagExportFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
@@ -54,5 +59,9 @@ func export(u *uiContext) error {
 		return fmt.Errorf("failed to flush csv file: %w", err)
 	}
 
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("failed to close csv file: %w", err)
+	}
+
 	return nil
 }
-- 
2.43.0


From bfbc9ef21003b2419f9a91beccc147242a6095e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 25/47] fix: lpassimport in read-only mode claimed to have
 imported

---
 import.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import.go b/import.go
index d69e89f..fe74f9a 100644
--- a/import.go
+++ b/import.go
@@ -12,6 +12,10 @@ import (
 )
 
 func importLastpass(u *uiContext) error {
+	if u.readOnly {
+		return errors.New("cannot import in read-only mode")
+	}
+
 	if !u.created {
 		infoColor.Println("this is not a new file")
 		infoColor.Println("are you sure you wish to import into it?")
-- 
2.43.0


From c5da2c1ecffbab77239cff9cbcdccef2ed443c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 26/47] fix: erase everything the editor left in the temporary
 file

When the editor changed the file but exited with an error, only as much as the old value's length was overwritten before removal.
---
 commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commands.go b/commands.go
index 3f293b2..c5b5961 100644
--- a/commands.go
+++ b/commands.go
@@ -990,6 +990,9 @@ func (u *uiContext) edit(search, key string) error {
 		errColor.Println("failed to open tmp file to edit value:", err)
 		return nil
 	}
+	if info, err := tmp.Stat(); err == nil && int(info.Size()) > maxLen {
+		maxLen = int(info.Size())
+	}
 
 	if e, ok := editErr.(*exec.ExitError); ok {
 		errColor.Printf("editor exit non-zero (%d), not saving value\n", e.ExitCode())
-- 
2.43.0


From 241d70fc5674363f1708f5bb778b8ec053a0a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 27/47] fix: escape the description given to pinentry

---
 pinentry/pinentry.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index d785262..e14e28a 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -30,6 +30,12 @@ var (
 		"%0A", "\n",
 	)
 
+	pinEntryEscape = strings.NewReplacer(
+		"%", "%25",
+		"\r", "%0D",
+		"\n", "%0A",
+	)
+
 	cachedPinEntry string
 )
 
@@ -102,7 +108,7 @@ func Password(prompt string) (password string, err error) {
 
 	setup := []string{
 		fmt.Sprintf("SETTITLE %s\n", "Bpass password entry"),
-		fmt.Sprintf("SETDESC %s\n", prompt),
+		fmt.Sprintf("SETDESC %s\n", pinEntryEscape.Replace(prompt)),
 		fmt.Sprintf("OPTION lc-ctype %s\n", "UTF-8"),
 	}
 	if term := os.Getenv("TERM"); len(term) != 0 {
-- 
2.43.0


From 3fd00af37505d15bb2c9a020465e7f2b53e8a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 28/47] fix: a sync url without a path, or that does not parse,
 crashed

---
 sync.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 26dadc1..50d9e3f 100644
--- a/sync.go
+++ b/sync.go
@@ -261,8 +261,10 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -375,7 +377,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From 5c8e4167be146a8ef7c0628bb411871aa3edbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 29/47] fix: a malformed known host crashed the sync

---
 sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sync.go b/sync.go
index 50d9e3f..0009908 100644
--- a/sync.go
+++ b/sync.go
@@ -431,6 +431,9 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 		if vals[0] != hostname {
 			continue
 		}
+		if len(vals) != 4 {
+			return fmt.Errorf("known host's line is malformed: %q", h)
+		}
 
 		// Same host, double check key is same
 		if vals[2] != keyType {
-- 
2.43.0


From de6268b2f7801c3cb2437d21f533289f6269add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 30/47] fix: quote the path for the remote shell in scp

---
 scpsync/scpsync.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..fc82709 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -97,7 +97,7 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 
 	stream := readWriter{Reader: read, Writer: write}
 
-	if err = session.Start("scp -qf " + filename); err != nil {
+	if err = session.Start("scp -qf " + quoteFilename(filename)); err != nil {
 		return nil, err
 	}
 
@@ -156,7 +156,7 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 	}
 
 	stream := readWriter{Reader: read, Writer: write}
-	if err = session.Start("scp -qt " + filename); err != nil {
+	if err = session.Start("scp -qt " + quoteFilename(filename)); err != nil {
 		return err
 	}
 
@@ -199,6 +199,17 @@ func (e Err) Error() string {
 	return errStr
 }
 
+// quoteFilename protects the filename from the remote shell, except for a
+// leading ~/ which means the home directory.
+func quoteFilename(filename string) string {
+	home := ""
+	if strings.HasPrefix(filename, "~/") {
+		home, filename = filename[:2], filename[2:]
+	}
+
+	return home + "'" + strings.ReplaceAll(filename, "'", `'\''`) + "'"
+}
+
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
 	// Send header
 	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
-- 
2.43.0


From b229021078d93804e7ffefe492f5943bad89962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 31/47] fix: a file with null contents crashed

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index f024121..5237932 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -53,7 +53,7 @@ type storeNoSnapshot struct {
 // New takes a json blob and unmarshals it into a DB
 func New(data []byte) (*DB, error) {
 	s := new(DB)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From f8b582071a1dfbe465d0715fb23ddf475a288b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 32/47] fix: restoring an entry both sides know is deleted
 crashed the merge

---
 txlogs/txlogs.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5237932..45ad838 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -454,13 +454,21 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		// If they're the same, append and move on, haven't reached fork. The
 		// time alone does not tell: different changes can share a timestamp.
 		if i < lena && j < lenb && a[i] == b[j] {
-			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = len(c)
-			}
-
 			resta[a[i]]--
 			restb[b[j]]--
 			c = append(c, a[i])
+			if a[i].Kind == TxDelete {
+				deleted[a[i].UUID] = len(c) - 1
+
+				// It may have been resolved to do without it
+				for _, res := range resolved {
+					if res.Initial == a[i] && res.resolution == resolveDiscardInitial {
+						delete(deleted, a[i].UUID)
+						c = c[:len(c)-1]
+						break
+					}
+				}
+			}
 			i++
 			j++
 			continue
-- 
2.43.0


From e6317527d65432dbfa2c5099d3df08cf570db58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 33/47] fix: name the users a rekeyed remote does not have

---
 merging.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merging.go b/merging.go
index 02b2422..f640694 100644
--- a/merging.go
+++ b/merging.go
@@ -124,7 +124,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
-- 
2.43.0


From 1a3a443695d2805e7990b505fff924c6ad338194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 34/47] fix: do not let a pulled log break the local file

---
 merging.go |  9 +++++++--
 sync.go    | 43 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/merging.go b/merging.go
index f640694..c561655 100644
--- a/merging.go
+++ b/merging.go
@@ -83,8 +83,13 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				var lastTimeLocal, lastTimeRemote int64
+				if len(m.Log) != 0 {
+					lastTimeLocal = m.Log[len(m.Log)-1].Time
+				}
+				if len(r.Log) != 0 {
+					lastTimeRemote = r.Log[len(r.Log)-1].Time
+				}
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
diff --git a/sync.go b/sync.go
index 0009908..4e7d1ae 100644
--- a/sync.go
+++ b/sync.go
@@ -115,6 +115,11 @@ Syncs:
 			syncs[i] = ""
 			continue
 		}
+		if err = checkLog(log); err != nil {
+			errColor.Printf("invalid log %q: %v\n", name, err)
+			syncs[i] = ""
+			continue
+		}
 
 		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
@@ -136,6 +141,11 @@ Syncs:
 		return nil
 	}
 
+	if err = checkLog(out.Log); err != nil {
+		errColor.Println("aborting sync, the merged log is invalid:", err)
+		return nil
+	}
+
 	u.user, u.pass = out.User, out.Pass
 	u.key, u.salt = out.Key, out.Salt
 	u.master, u.ivm = out.Master, out.IVM
@@ -143,9 +153,7 @@ Syncs:
 	u.store.ResetSnapshot()
 	u.store.Log = out.Log
 	if err = u.store.UpdateSnapshot(); err != nil {
-		errColor.Println("failed to rebuild snapshot, poisoned by sync:", err)
-		errColor.Println("exiting to avoid corrupting local file")
-		os.Exit(1)
+		return err
 	}
 
 	if err = saveHosts(u.store.DB, hosts); err != nil {
@@ -178,7 +186,11 @@ Syncs:
 			continue
 		}
 
-		entry := u.store.Snapshot[uuid]
+		entry, ok := u.store.Snapshot[uuid]
+		if !ok {
+			// Merging removed it
+			continue
+		}
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("push:", name)
@@ -200,9 +212,30 @@ Syncs:
 	return nil
 }
 
+// checkLog ensures that a log can be applied and only has usable entries, so
+// that nothing that was pulled can break the local file.
+func checkLog(log []txlogs.Tx) error {
+	db := &txlogs.DB{Log: log}
+	if err := db.UpdateSnapshot(); err != nil {
+		return err
+	}
+
+	for uuid, entry := range db.Snapshot {
+		if len(entry[blobformat.KeyName]) == 0 {
+			return fmt.Errorf("%s has no name", uuid)
+		}
+	}
+
+	return nil
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
-		entry := store.Snapshot[uuid]
+		entry, ok := store.Snapshot[uuid]
+		if !ok {
+			// Merging removed it
+			continue
+		}
 		hosts := entry[blobformat.KeyKnownHosts]
 		if len(hosts) == 0 {
 			store.Set(uuid, blobformat.KeyKnownHosts, hostentry)
-- 
2.43.0


From a78c314eccdb399a5c75579278f13f1881d11c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 35/47] fix: entries merged from different devices could share
 a name

---
 blobformat/blobs.go | 38 +++++++++++++++++++++++---------------
 sync.go             | 13 +++++++++++++
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 1b78311..017210f 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -43,39 +43,47 @@ type Blobs struct {
 // SearchResults have helpers to get uuids/names easily
 type SearchResults map[string]string
 
-// RenameDuplicates renames names (KeyName) that collide.
-// Creates snapshots as it does so. Returns a list of renames that it did.
+// RenameDuplicates renames names (KeyName) that collide, the entry that was
+// added first keeps its name. Creates snapshots as it does so. Returns the new
+// names of the entries it renamed by uuid.
 func (b Blobs) RenameDuplicates() (map[string]string, error) {
 	if err := b.UpdateSnapshot(); err != nil {
 		return nil, err
 	}
 
+	counts := make(map[string]int)
+	for _, entry := range b.Snapshot {
+		counts[entry[KeyName]]++
+	}
+
+	seen := make(map[string]struct{})
 	names := make(map[string]struct{})
 	renames := make(map[string]string)
 
-	for uuid, entry := range b.Snapshot {
-		blob := Blob(entry)
-		name := blob.Name()
+	for _, tx := range b.Log {
+		entry, ok := b.Snapshot[tx.UUID]
+		if _, again := seen[tx.UUID]; !ok || again {
+			continue
+		}
+		seen[tx.UUID] = struct{}{}
 
-		_, ok := names[name]
-		if !ok {
+		name := entry[KeyName]
+		if _, ok := names[name]; !ok || len(name) == 0 {
 			names[name] = struct{}{}
 			continue
 		}
 
-		oldName := name
-		for ok {
+		for counts[name] > 0 {
 			name = name + "1"
-			_, ok = names[name]
 		}
+		counts[name]++
 
-		renames[oldName] = name
-
-		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		renames[tx.UUID] = name
+		b.touchUpdated(tx.UUID)
+		b.DB.Set(tx.UUID, KeyName, name)
 	}
 
-	return renames, nil
+	return renames, b.UpdateSnapshot()
 }
 
 // Search names of entries using fuzzy search and breaks on /
diff --git a/sync.go b/sync.go
index 4e7d1ae..79141df 100644
--- a/sync.go
+++ b/sync.go
@@ -3,6 +3,7 @@ package main
 import (
 	"crypto/sha256"
 	"crypto/sha512"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -156,6 +157,18 @@ Syncs:
 		return err
 	}
 
+	// Entries that were added independently can have the same name
+	renames, err := u.store.RenameDuplicates()
+	if err != nil {
+		return err
+	}
+	for uuid, name := range renames {
+		infoColor.Printf("name used more than once, renamed one to: %s\n", name)
+		if len(u.master) != 0 && u.store.Snapshot[uuid][blobformat.KeySalt] == hex.EncodeToString(u.salt) {
+			u.user = blobformat.SplitUsername(name)
+		}
+	}
+
 	if err = saveHosts(u.store.DB, hosts); err != nil {
 		return err
 	}
-- 
2.43.0


From 3baf095f32967cd85d2402c2fefe0f0b72ad783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 36/47] fix: a sync could leave users who cannot open the file
 without naming them

Whether a user kept a working key was judged by who was present on the
other side, not by whose keys the merged entries hold, and the current
user was looked up by name and by the keys of the local file even after
an earlier remote had replaced them. With all users removed on one side
or the other the merged file kept a header without users.
---
 merging.go | 115 ++++++++++++++++++++++++++---------------------------
 sync.go    |   3 +-
 2 files changed, 58 insertions(+), 60 deletions(-)

diff --git a/merging.go b/merging.go
index c561655..646bf96 100644
--- a/merging.go
+++ b/merging.go
@@ -11,6 +11,7 @@ import (
 
 type mergeResult struct {
 	User, Pass  string
+	UserUUID    string
 	Key, Salt   []byte
 	Master, IVM []byte
 	Log         []txlogs.Tx
@@ -70,6 +71,12 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	}
 	copy(m.Log, u.store.Log)
 
+	if len(m.Master) != 0 {
+		if m.UserUUID, _, err = u.store.FindUser(m.User); err != nil {
+			return m, err
+		}
+	}
+
 	for _, r := range remotes {
 		takeRemoteCreds := false
 		merged, err := mergeLogs(u, m.Log, r.Log)
@@ -77,8 +84,17 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
+		mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+		remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
+
+		users, err := mergedStore.Users()
+		if err != nil {
+			return m, err
+		}
+
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -101,41 +117,29 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
-			// We have to instantiate the merged blob and check user counts
-			db := &txlogs.DB{Log: merged}
-			store := blobformat.Blobs{DB: db}
-			users, err := store.Users()
-			if err != nil {
-				return m, err
-			}
-
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) && len(users) != 0 {
 			// There's been a master change in a multi multi
-
-			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
-			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
-			userUUID, localUser, err := localStore.FindUser(m.User)
+			localUser, err := localStore.Find(m.UserUUID)
 			if err != nil {
 				return m, err
 			}
 
-			mergedUser, err := mergedStore.Find(userUUID)
+			mergedUser, err := mergedStore.Find(m.UserUUID)
 			if err != nil {
 				return m, err
 			}
@@ -147,49 +151,28 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			}
 
 			// Figure out if the local mkey is in the merged database
-			// to see which side wins. Whichever side loses may have invalid
-			// users if they were not present for the rekey, find them
+			// to see which side wins. Whichever side loses may have users
+			// whose keys are not those of the side that wins, find them
 			// and warn that they will not work until they're re-passworded
-			localWins := localUser[blobformat.KeyMKey] == mergedUser[blobformat.KeyMKey]
-			localUsers, err := localStore.Users()
-			if err != nil {
-				return m, err
-			}
-			remoteUsers, err := remoteStore.Users()
-			if err != nil {
-				return m, err
+			winner, loserSide, winnerSide := localStore, "remote", "local"
+			if localUser[blobformat.KeyMKey] != mergedUser[blobformat.KeyMKey] {
+				takeRemoteCreds = true
+				winner, loserSide, winnerSide = remoteStore, "local", "remote"
 			}
 
-			if localWins {
-				// Find remoteUsers not in local
-				for remoteUUID, user := range remoteUsers {
-					found := false
-					for localUUID := range localUsers {
-						if remoteUUID == localUUID {
-							found = true
-							break
-						}
-					}
-					if !found {
-						infoColor.Printf("user %q (from remote) was not present for a local rekey\n", user)
-						infoColor.Println("use the rekey command to fix them")
-					}
+			for uuid, user := range users {
+				mergedUser, err := mergedStore.Find(uuid)
+				if err != nil {
+					return m, err
+				}
+				winnerUser, err := winner.Find(uuid)
+				if err != nil {
+					return m, err
 				}
-			} else {
-				takeRemoteCreds = true
 
-				for localUUID, user := range localUsers {
-					found := false
-					for remoteUUID := range remoteUsers {
-						if remoteUUID == localUUID {
-							found = true
-							break
-						}
-					}
-					if !found {
-						infoColor.Printf("user %q (from local) was not present for a remote rekey\n", user)
-						infoColor.Println("use the rekey command to fix them")
-					}
+				if winnerUser[blobformat.KeyMKey] != mergedUser[blobformat.KeyMKey] {
+					infoColor.Printf("user %q (from %s) was not present for a %s rekey\n", user, loserSide, winnerSide)
+					infoColor.Println("use the rekey command to fix them")
 				}
 			}
 		}
@@ -199,6 +182,22 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			m.User, m.Pass = r.Creds.User, r.Creds.Pass
 			m.Key, m.Salt = r.Params.Keys[r.Params.User], r.Params.Salts[r.Params.User]
 			m.Master, m.IVM = r.Params.Master, r.Params.IVM
+			m.UserUUID = ""
+			if len(m.Master) != 0 {
+				if m.UserUUID, _, err = remoteStore.FindUser(m.User); err != nil {
+					return m, err
+				}
+				if _, ok := users[m.UserUUID]; !ok {
+					return m, errors.New("could not find remote's user entry in merged user db")
+				}
+			}
+		}
+
+		if len(m.Master) != 0 && len(users) == 0 {
+			// Each side removed the users the other had left
+			infoColor.Println("no users left, converted to single-user file")
+			m.User, m.UserUUID = "", ""
+			m.Master, m.IVM = nil, nil
 		}
 
 		m.Log = merged
diff --git a/sync.go b/sync.go
index 79141df..635387f 100644
--- a/sync.go
+++ b/sync.go
@@ -3,7 +3,6 @@ package main
 import (
 	"crypto/sha256"
 	"crypto/sha512"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -164,7 +163,7 @@ Syncs:
 	}
 	for uuid, name := range renames {
 		infoColor.Printf("name used more than once, renamed one to: %s\n", name)
-		if len(u.master) != 0 && u.store.Snapshot[uuid][blobformat.KeySalt] == hex.EncodeToString(u.salt) {
+		if uuid == out.UserUUID {
 			u.user = blobformat.SplitUsername(name)
 		}
 	}
-- 
2.43.0


From a4492ce7d0be5bf334f7e08709e363dac2686377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 37/47] fix: remote files with a space in their name could not
 be pulled

The name is the rest of the header line scp sends.
---
 scpsync/scpsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index fc82709..5099af1 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -258,7 +258,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 
 	str = str[1:]
 
-	fields := strings.Fields(str)
+	// The filename is the rest of the line, it can contain spaces
+	fields := strings.SplitN(strings.TrimSuffix(str, "\n"), " ", 3)
 	if len(fields) != 3 {
 		return file, fmt.Errorf("protocol demands 3 fields, got %d", len(fields))
 	}
-- 
2.43.0


From 2b28f034b122d35e729b6b4fa69ac74891fa3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 38/47] fix: a negative length sent by a remote scp crashed

---
 scpsync/scpsync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 5099af1..192fa00 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -273,6 +273,9 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
 	}
+	if length < 0 {
+		return file, fmt.Errorf("invalid length: %q", fields[1])
+	}
 
 	// Acknowledge we've received the initial header
 	if err = sendOKResponse(stream); err != nil {
-- 
2.43.0


From 7958c8035c75b2d236bf065058eec4a0ddfd6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 39/47] fix: repeated labels of an entry confused the search by
 labels

---
 blobformat/blobs.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 017210f..c7feb5c 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -164,12 +164,8 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 		found := 0
 		for _, want := range labels {
 			for _, have := range haveLabels {
-				if have != want {
-					continue
-				}
-
-				found++
-				if found == len(labels) {
+				if have == want {
+					found++
 					break
 				}
 			}
-- 
2.43.0


From a244515c26aa6d855e3c0892c02b5d21b9f3064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 40/47] fix: login could copy a two-factor code that had
 expired

---
 commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/commands.go b/commands.go
index c5b5961..ded93aa 100644
--- a/commands.go
+++ b/commands.go
@@ -837,6 +837,12 @@ func (u *uiContext) login(search string) error {
 	}
 
 	for i, kv := range keyVals {
+		if kv.Key == blobformat.KeyTwoFactor {
+			// The code can have expired while waiting for the user
+			if kv.Val, err = blob.TwoFactor(); err != nil {
+				return err
+			}
+		}
 		copyToClipboard(kv.Key, kv.Val)
 		if i < len(keyVals)-1 {
 			_, err = u.prompt(infoColor.Sprint("press enter for next"))
-- 
2.43.0


From e9c70e2ea6ff7cf0fda6c8f8f41cfcaae266a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 41/47] fix: a push to a place that merging changed overwrote
 what was there

---
 sync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync.go b/sync.go
index 635387f..df0d626 100644
--- a/sync.go
+++ b/sync.go
@@ -66,6 +66,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	pulled := make(map[string]string, len(syncs))
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -74,6 +75,7 @@ Syncs:
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("pull:", name)
+		pulled[uuid] = entry[blobformat.KeyURL]
 
 		ct, hostentry, err := pullBlob(u, uuid)
 
@@ -205,6 +207,12 @@ Syncs:
 		}
 		name, _ := entry[blobformat.KeyName]
 
+		if entry[blobformat.KeyURL] != pulled[uuid] {
+			// Merging changed where it is, what is there was not pulled
+			infoColor.Printf("skip: %s (url changed, sync again)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
-- 
2.43.0


From 3ab579a9384f0c61b3a89f337542238f9b224f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 42/47] fix: a host that falls silent made a sync wait for ever

---
 scpsync/scpsync.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 192fa00..92ec4c3 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -49,13 +49,51 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"time"
 
 	"golang.org/x/crypto/ssh"
 )
 
+// idleTimeout is how long a host may stay silent before it is given up.
+const idleTimeout = 2 * time.Minute
+
+// idleConn is a connection on which every read and write has to finish within
+// the idleTimeout.
+type idleConn struct {
+	net.Conn
+}
+
+func (i idleConn) Read(b []byte) (int, error) {
+	if err := i.SetDeadline(time.Now().Add(idleTimeout)); err != nil {
+		return 0, err
+	}
+	return i.Conn.Read(b)
+}
+
+func (i idleConn) Write(b []byte) (int, error) {
+	if err := i.SetDeadline(time.Now().Add(idleTimeout)); err != nil {
+		return 0, err
+	}
+	return i.Conn.Write(b)
+}
+
+// dial is ssh.Dial with a connection that times out.
+func dial(hostport string, config *ssh.ClientConfig) (*ssh.Client, error) {
+	conn, err := net.DialTimeout("tcp", hostport, idleTimeout)
+	if err != nil {
+		return nil, err
+	}
+	c, chans, reqs, err := ssh.NewClientConn(idleConn{conn}, hostport, config)
+	if err != nil {
+		return nil, err
+	}
+	return ssh.NewClient(c, chans, reqs), nil
+}
+
 type readWriter struct {
 	io.Reader
 	io.Writer
@@ -64,7 +102,7 @@ type readWriter struct {
 // Recv connects to host:port via tcp with a given client configuration
 // and uses scp to download the file contents from the remote host.
 func Recv(hostport string, config *ssh.ClientConfig, filename string) (content []byte, err error) {
-	client, err := ssh.Dial("tcp", hostport, config)
+	client, err := dial(hostport, config)
 	if err != nil {
 		return nil, err
 	}
@@ -124,7 +162,7 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 // and uses scp to write the file contents to the remote host to 'filename' with
 // the given mode. As per SCP semantics, the mode is ignored if the file exists.
 func Send(hostport string, config *ssh.ClientConfig, filename string, mode int, contents []byte) (err error) {
-	client, err := ssh.Dial("tcp", hostport, config)
+	client, err := dial(hostport, config)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a3f35e293225847b570938f0223f4269b4141eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 43/47] fix: files that had been merged were taken for
 unrelated ones

After two files without a common ancestry are merged with consent, the other
device still has its own history, which does not start like the merged one
when the other file's history comes first. Ask only if no event is in both.
---
 txlogs/txlogs.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 45ad838..4713728 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -431,6 +431,11 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	for _, tx := range b {
 		restb[tx]++
 	}
+	// Without an event in common there is no common ancestry.
+	related := false
+	for _, tx := range a {
+		related = related || restb[tx] > 0
+	}
 	// How many more times an event was taken from a than from b.
 	ahead := make(map[Tx]int)
 
@@ -477,9 +482,10 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		// We've forked.
 		// If the fork happens and we have not moved either i or j
 		// that means that there is no common ancestry and this is likely a
-		// mistake to be syncing these. Create a conflict. This will always
-		// be the first conflict.
-		if i == 0 && j == 0 && lena > 0 && lenb > 0 {
+		// mistake to be syncing these, unless they were merged before and the
+		// other side's history comes first. Create a conflict. This will
+		// always be the first conflict.
+		if i == 0 && j == 0 && lena > 0 && lenb > 0 && !related {
 			// Check if it's been resolved
 			if len(resolved) == 0 || resolved[0].resolution != resolveForce {
 				conflicts = append(conflicts, Conflict{
-- 
2.43.0


From a8dd5393d9083f7bb7f5507b6b4dd30e9cdceef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:21 +0000
Subject: [PATCH 44/47] fix: commands inside an entry that was renamed went to
 another entry

The entry entered with cd was remembered by its name. After a mv, or a sync
that renames it, that name found no entry, another one that matches it, or the
one that has the name now.
---
 repl.go | 57 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/repl.go b/repl.go
index 7c314da..81f0df1 100644
--- a/repl.go
+++ b/repl.go
@@ -122,11 +122,38 @@ type repl struct {
 
 	prompt   string
 	ctxEntry string
+	ctxUUID  string
 }
 
-func (r *repl) run() error {
+// leaveEntry goes back to the top
+func (r *repl) leaveEntry() {
 	r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-	r.ctxEntry = ""
+	r.ctxEntry, r.ctxUUID = "", ""
+}
+
+// followEntry keeps us inside the same entry after it was renamed, or leaves
+// it when it's gone.
+func (r *repl) followEntry() error {
+	if len(r.ctxUUID) == 0 {
+		return nil
+	}
+
+	blob, err := r.ctx.store.Find(r.ctxUUID)
+	if err != nil {
+		return err
+	}
+	if blob == nil {
+		r.leaveEntry()
+		return nil
+	}
+
+	r.ctxEntry = blob.Name()
+	r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
+	return nil
+}
+
+func (r *repl) run() error {
+	r.leaveEntry()
 
 	for {
 		line, err := r.ctx.in.Line(r.prompt)
@@ -174,6 +201,11 @@ func (r *repl) run() error {
 			return err
 		}
 
+		// The entry we're in can have been renamed or removed, by a sync too
+		if err = r.followEntry(); err != nil {
+			return err
+		}
+
 		r.ctx.in.AddHistory(line)
 	}
 }
@@ -250,15 +282,8 @@ var replCmds = map[string]replCmd{
 				errColor.Println("syntax: rm <name>")
 				return nil
 			}
-			name := args[0]
-			err := r.ctx.deleteEntry(name)
-
-			if err == nil && r.ctxEntry == name {
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-			}
 
-			return err
+			return r.ctx.deleteEntry(args[0])
 		},
 	},
 
@@ -295,8 +320,7 @@ var replCmds = map[string]replCmd{
 		Run: func(r *repl, _ string, args []string) error {
 			switch len(args) {
 			case 0:
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+				r.leaveEntry()
 			case 1:
 				var uuid string
 				var err error
@@ -308,13 +332,8 @@ var replCmds = map[string]replCmd{
 					return nil
 				}
 
-				blob, err := r.ctx.store.MustFind(uuid)
-				if err != nil {
-					return err
-				}
-
-				r.ctxEntry = blob.Name()
-				r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
+				r.ctxUUID = uuid
+				return r.followEntry()
 			default:
 				fmt.Println("cd needs an argument")
 			}
-- 
2.43.0


From 7bc21fbf495a8eb6d5c5085c9f71d091660bd9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 45/47] fix: a user who was renamed before a sync brought a
 user back was not found

---
 sync.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sync.go b/sync.go
index df0d626..1c57eb3 100644
--- a/sync.go
+++ b/sync.go
@@ -163,11 +163,13 @@ Syncs:
 	if err != nil {
 		return err
 	}
-	for uuid, name := range renames {
+	for _, name := range renames {
 		infoColor.Printf("name used more than once, renamed one to: %s\n", name)
-		if uuid == out.UserUUID {
-			u.user = blobformat.SplitUsername(name)
-		}
+	}
+
+	// Either side or the above can have renamed the current user
+	if name := blobformat.SplitUsername(u.store.Snapshot[out.UserUUID][blobformat.KeyName]); len(name) != 0 {
+		u.user = name
 	}
 
 	if err = saveHosts(u.store.DB, hosts); err != nil {
-- 
2.43.0


From ea79923f739dccb51d05650410cbd89220a111ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 46/47] fix: values that are not utf-8 were stored with other
 bytes than given

---
 commands.go  | 7 +++++++
 import.go    | 6 ++++++
 uihelpers.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/commands.go b/commands.go
index ded93aa..668117e 100644
--- a/commands.go
+++ b/commands.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -1018,6 +1019,12 @@ func (u *uiContext) edit(search, key string) error {
 		maxLen = len(newValue)
 	}
 
+	// What is not text cannot be stored as it is
+	if !utf8.Valid(newValue) {
+		errColor.Println("value is not valid utf-8, not saving it")
+		return nil
+	}
+
 	if len(newValue) == 0 {
 		err = u.store.DeleteKey(uuid, key)
 	} else {
diff --git a/import.go b/import.go
index fe74f9a..ee8c878 100644
--- a/import.go
+++ b/import.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os/exec"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 )
@@ -40,6 +41,11 @@ func importLastpass(u *uiContext) error {
 		return err
 	}
 
+	// What is not text cannot be stored as it is
+	if !utf8.Valid(out) {
+		return errors.New("lastpass csv is not valid utf-8")
+	}
+
 	reader := csv.NewReader(bytes.NewReader(out))
 
 	for i := 0; ; i++ {
diff --git a/uihelpers.go b/uihelpers.go
index dd4de62..fa8b772 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/pinentry"
 
@@ -288,6 +289,11 @@ func (u *uiContext) getPassword() (string, error) {
 				errColor.Println("passwords did not match")
 				continue
 			}
+			if !utf8.ValidString(initial) {
+				// It cannot be stored as it is
+				errColor.Println("password is not valid utf-8")
+				continue
+			}
 			return initial, err
 		case choice == "?":
 			help()
-- 
2.43.0


From 222f786bc6c280d5dd240fc17c19bb599d86a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 47/47] fix: read every response of the remote scp to an upload

Only the first was read, which scp sends before it has seen the file. When
a later one reported a failure and the remote command still ended with
status 0, the push was taken to have worked.
---
 scpsync/scpsync.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 92ec4c3..f9fb61c 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -207,6 +207,14 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
+	// There is a response to each step and not all of them have been read yet
+	for err == nil {
+		err = readResponse(read)
+	}
+	if err != io.EOF {
+		return err
+	}
+
 	if err = session.Wait(); err != nil {
 		return fmt.Errorf("failed to wait for scp: %w", err)
 	}
@@ -351,7 +359,7 @@ func sendOKResponse(stream io.Writer) error {
 }
 
 func readResponse(stream io.Reader) error {
-	// Get the response
+	// Get the response, perhaps several at once
 	response := make([]byte, 256)
 	nRead, err := stream.Read(response)
 	if err != nil {
@@ -360,18 +368,21 @@ func readResponse(stream io.Reader) error {
 		return errors.New("failed to read a response byte")
 	}
 
-	switch response[0] {
-	case 0:
+	response = bytes.TrimLeft(response[:nRead], "\x00")
+	if len(response) == 0 {
 		return nil
+	}
+
+	switch response[0] {
 	case 1, 2:
 		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
+		if len(response) > 2 {
+			e.Msg = string(response[1:])
 		}
 		e.Code = int(response[0])
 		return e
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", response)
 	}
 }
 
-- 
2.43.0

