From c2da0a68d363694971b68d5ea070fc9c0dab9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 01/15] fix: make the in-memory IO Provider's check-and-write
 operations atomic

---
 io/mem.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..8af806b 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -24,11 +24,15 @@ import (
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
 	data sync.Map
+
+	// Serializes the operations that must not interleave with each other between checking for the
+	// existence of an entry and changing it.
+	mutex sync.Mutex
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,10 +42,9 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, ok := m.data.Load(key); ok {
+	if _, ok := m.data.LoadOrStore(key, data); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
 	return nil
 }
 
@@ -57,6 +60,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +71,8 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From 03ab698fef071652f422fb2481f5860464db9154 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 02/15] fix: stop the in-memory IO Provider from sharing stored
 bytes with its callers

---
 io/mem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 8af806b..74cfca2 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -42,7 +42,7 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
-	if _, ok := m.data.LoadOrStore(key, data); ok {
+	if _, ok := m.data.LoadOrStore(key, append([]byte{}, data...)); ok {
 		return ErrAlreadyExists
 	}
 	return nil
@@ -55,7 +55,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 		return nil, ErrNotFound
 	}
 	data := out.([]byte)
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
@@ -65,7 +65,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
-- 
2.43.0


From cce52a3d742633620ae6b587c46bef0ec3617c71 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 03/15] fix: let the bolt IO Provider return stored data of
 length zero

---
 io/bolt.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..945f540 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -68,15 +68,16 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		data := b.Get(key)
+		if data == nil {
+			return ErrNotFound
+		}
+		out = append([]byte{}, data...)
 		return nil
 	})
 	if err != nil {
 		return nil, err
 	}
-	if out == nil {
-		return nil, ErrNotFound
-	}
 	return out, nil
 }
 
-- 
2.43.0


From 086f148632e21371fad7ecbf77b7589859fa0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 04/15] fix: stop the bolt IO Provider from writing behind the
 caller's ID

---
 io/bolt.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 945f540..92274ed 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,14 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// newBoltKey returns the key under which data is stored. The key is built in memory of its own, so
+// that the caller's memory behind 'id' is left alone.
+func newBoltKey(id []byte, dataType DataType) []byte {
+	return append(append([]byte{}, id...), dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +70,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -82,7 +88,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -93,7 +99,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 90ae03e1c62ff6a58365c5b1b13bfda8ab08917e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 05/15] fix: stop Encrypt from writing the caller's ID into the
 caller's groups slice

---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From e02f837bf7fd506b5666e7e010321424062c9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 06/15] fix: stop users from adding others to their own user ID
 as if it was a group

---
 id/standalone.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9380799 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,9 +219,8 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
@@ -255,9 +254,8 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
-- 
2.43.0


From 4f4d63c0049ed07a875f13ad1eb2fcc6e7e78b8a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 07/15] fix: authenticate that a stored user or group is the
 one that was asked for

---
 id/standalone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 9380799..0a6a09a 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -371,6 +371,7 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 	if err = json.Unmarshal(userBytes, user); err != nil {
 		return nil, err
 	}
+	user.UID = uid
 
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
@@ -417,6 +418,7 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 	if err := json.Unmarshal(groupBytes, group); err != nil {
 		return nil, err
 	}
+	group.GID = gid
 
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
-- 
2.43.0


From a4bc07232d7a70eccd17bc1f613de1ca408abb17 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 08/15] fix: give each call's logger a buffer of its own

---
 log/log.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..33f7e88 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,9 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	// Copying the struct is not enough, as the copy would still append its fields to the original
+	// logger's buffer.
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0


From 81eb7b3c9bfaff34be47077142975258890677db Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 09/15] fix: do not pad KMAC keys that already fill a block

---
 crypto/kmac.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..34284e9 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,8 +117,10 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
-	return append(buf, make([]byte, padlen)...)
+	if padlen := w - (len(buf) % w); padlen < w {
+		buf = append(buf, make([]byte, padlen)...)
+	}
+	return buf
 }
 
 func leftEncode(value uint64) []byte {
-- 
2.43.0


From ad23d3975cd1cd9fce912203b24bded11f2c1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 10/15] fix: make comparing a password with a truncated hash
 return false

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..e52c401 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) < saltLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From 060b5bc23049e82b4feb2c75b80862b0794f9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 11/15] fix: remove nodes left behind by an interrupted
 deletion before their labels are reused

---
 index/index.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/index/index.go b/index/index.go
index 098572f..4f01937 100644
--- a/index/index.go
+++ b/index/index.go
@@ -193,7 +193,7 @@ func (i *SecureIndex) Delete(ctx context.Context, token, keyword, identifier str
 			if err != nil {
 				return err
 			}
-			err = i.deleteNode(ctx, label, next, tagger, cryptor)
+			err = i.deleteNode(ctx, label, current, next, tagger, cryptor)
 			if err != nil {
 				return err
 			}
@@ -205,11 +205,11 @@ func (i *SecureIndex) Delete(ctx context.Context, token, keyword, identifier str
 	return nil
 }
 
-// deleteNode is a part of the Delete operation. It deletes a node "A" by doing one of
-// two things:
+// deleteNode is a part of the Delete operation. It deletes a node "A", which follows the node
+// "previous", by doing one of two things:
 // * If "A" is the last node, "A" itself is simply deleted.
 // * If there is a next node "B", "A" is overwritten with "B"s data and "B" is deleted.
-func (i *SecureIndex) deleteNode(ctx context.Context, label []byte, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
+func (i *SecureIndex) deleteNode(ctx context.Context, label []byte, previous, node data.Node, tagger crypto.TaggerInterface, cryptor crypto.CryptorInterface) error {
 	log.Ctx(ctx).Debug().Msg("deleting node")
 
 	// Get the next Node. If ErrNodeNotFound, then the current Node is the one
@@ -217,6 +217,19 @@ func (i *SecureIndex) deleteNode(ctx context.Context, label []byte, node data.No
 	// any other updates.
 	next, err := i.getNextNode(ctx, node, tagger, cryptor)
 	if errors.Is(err, ErrNodeNotFound) {
+		// If an earlier deletion overwrote this node but failed to delete the node it moved, that
+		// node is still stored under one of the counters that are skipped here. Those counters will
+		// be used again by later additions, so make sure that nothing is left under them.
+		for skipped := previous.NextCounter + 1; skipped < node.NextCounter; skipped++ {
+			skippedLabel, err := (&data.Node{NextCounter: skipped}).NextLabel(tagger)
+			if err != nil {
+				return err
+			}
+			if err = i.deleteSealedNode(ctx, skippedLabel); err != nil {
+				return err
+			}
+		}
+
 		log.Ctx(ctx).Debug().Msg("last node, deleting")
 		if err = i.deleteSealedNode(ctx, label); err != nil {
 			return err
-- 
2.43.0


From 42e4c6bfe1e7fe9d0cc730aa8c126e9fc0005913 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 12/15] fix: keep the index key when the caller reuses or wipes
 its key material

---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 4f01937..41231c2 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...), // The Key Provider may wipe its keys.
 	}, nil
 }
 
-- 
2.43.0


From aa2b645f2b0ce4b860f14f81b25c99a921075965 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 13/15] fix: keep the static key provider's keys fixed when
 callers wipe theirs

---
 key/static.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/key/static.go b/key/static.go
index 3cb4c4e..affb573 100644
--- a/key/static.go
+++ b/key/static.go
@@ -26,10 +26,21 @@ type Static struct {
 
 // NewStatic creates a new Static key provider which returns the given Keys.
 func NewStatic(keys Keys) Static {
-	return Static{keys}
+	return Static{copyKeys(keys)}
 }
 
 // GetKeys returns the static set of keys.
 func (s *Static) GetKeys(_ context.Context) (Keys, error) {
-	return s.keys, nil
+	return copyKeys(s.keys), nil
+}
+
+// copyKeys copies the key material, such that the provider's keys stay fixed when the caller wipes
+// or reuses the memory of theirs.
+func copyKeys(keys Keys) Keys {
+	return Keys{
+		KEK: append([]byte(nil), keys.KEK...),
+		AEK: append([]byte(nil), keys.AEK...),
+		TEK: append([]byte(nil), keys.TEK...),
+		IEK: append([]byte(nil), keys.IEK...),
+	}
 }
-- 
2.43.0


From 577ac44a08aed5f43402677671e281464ab71b41 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 14/15] fix: keep the tagger's key when the caller wipes its
 own

---
 crypto/tagger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/tagger.go b/crypto/tagger.go
index 3d4b07f..85b8545 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -33,7 +33,7 @@ func NewKMAC256Tagger(key []byte) (Tagger, error) {
 		return Tagger{}, ErrInvalidKeyLength
 	}
 
-	return Tagger{Key: key}, nil
+	return Tagger{Key: append([]byte{}, key...)}, nil // The caller may wipe its key.
 }
 
 func (t *Tagger) Tag(data interface{}) ([]byte, error) {
-- 
2.43.0


From 25f9fa2dddbed630d927e4749ed2167e4e323213 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 15/15] fix: sealed and unsealed objects no longer share
 associated data with each other

---
 data/object.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/object.go b/data/object.go
index abb714c..b94f385 100644
--- a/data/object.go
+++ b/data/object.go
@@ -56,7 +56,7 @@ func (o *Object) Seal(oid uuid.UUID, cryptor crypto.CryptorInterface) ([]byte, S
 
 	sealed := SealedObject{
 		Ciphertext:     ciphertext,
-		AssociatedData: o.AssociatedData,
+		AssociatedData: append(o.AssociatedData[:0:0], o.AssociatedData...), // a copy, nil remains nil
 		OID:            oid,
 	}
 
@@ -77,6 +77,6 @@ func (o *SealedObject) Unseal(wrappedKey []byte, cryptor crypto.CryptorInterface
 
 	return Object{
 		Plaintext:      plaintext,
-		AssociatedData: o.AssociatedData,
+		AssociatedData: append(o.AssociatedData[:0:0], o.AssociatedData...), // a copy, nil remains nil
 	}, nil
 }
-- 
2.43.0

