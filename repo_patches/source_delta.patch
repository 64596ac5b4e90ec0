From 09555c502ba1b1d76fa3cfd8eca1d428c2f0eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 01/16] fix: return the decryption error of a signal message

decryptSignal overwrote the error, so a forged, corrupt or replayed message was
reported as a successful decryption of an empty plaintext.
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From dad1cd2958a1a42a988a118a1677eb59b1e05671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:06 +0000
Subject: [PATCH 02/16] fix: advance the receiver chain past the message being
 decrypted

The stored chain key still derived the key of the last decrypted message, so that
message could be replayed and its key recovered from stored state.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From 5253a34dc87391a84a250ea4b0ccb9648f310a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 03/16] fix: report failure to initialize a session from a
 pre-key message

A pre-key message with, for example, a low-order base key caused a nil dereference.
---
 protocol/session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..c4591de 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -107,6 +107,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -307,6 +310,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 9814d816f043aed9faeb467fe3722d146b0f21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 04/16] fix: reject a pre-key message which names an unknown
 pre-key

An unknown signed pre-key ID caused a nil dereference, and an unknown (for example,
already used) one-time pre-key ID was treated as if no one-time pre-key was named.
---
 protocol/session/session.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index c4591de..8034b70 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -69,16 +70,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("no signed pre-key with ID %s", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -91,11 +92,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("no one-time pre-key with ID %s", message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 194d20435a13c5274446b61a51c19cc0c7c68fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:30 +0000
Subject: [PATCH 05/16] fix: reject a signal message shorter than its MAC

It caused a slice bounds panic, also when nested in a pre-key message.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 07b4e9714e4e58b60d7163df6cc1fad2914436fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 06/16] fix: do not write padding into the caller's plaintext
 buffer

---
 protocol/crypto/aes/aes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..8385a3f 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,8 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	// Limit the capacity so append never writes to the caller's buffer.
+	return append(plaintext[:len(plaintext):len(plaintext)], bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From 301e7bf32885f5dc7492e0ed2995675995338f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 07/16] fix: verify every byte of the padding when decrypting

---
 protocol/crypto/aes/aes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8385a3f..de3f2e7 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -78,6 +78,11 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 	if n < 1 || n > aes.BlockSize {
 		return nil, errors.New("invalid padding")
 	}
+	for _, b := range plaintext[length-n:] {
+		if int(b) != n {
+			return nil, errors.New("invalid padding")
+		}
+	}
 
 	return plaintext[:length-n], nil
 }
-- 
2.43.0


From 5d732b06620dc785ddd47aa118309d1c619c9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 08/16] fix: compare identity keys by value when storing them

Storing the same key again was reported as a replacement with a new key.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From 77744b45d5e06ea0c7f2aa20dec8d460f1442fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 09/16] fix: isolate in-memory session records from operations
 which fail

The in-memory stores handed out the stored record itself, so an operation which
reported an error (and stored nothing) still changed the stored session: a forged
pre-key message replaced the current session, for example.
---
 protocol/session/group_record.go | 16 ++++++++++++++++
 protocol/session/record.go       | 12 ++++++++++++
 protocol/session/store_inmem.go  | 12 ++++++++++--
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..2641cb4 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -4,8 +4,10 @@ import (
 	"errors"
 
 	"github.com/golang/glog"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/RTann/libsignal-go/protocol/curve"
+	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 )
 
 const maxSenderKeyStates = 5
@@ -21,6 +23,20 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// clone returns a copy of the record which may be changed independently.
+func (g *GroupRecord) clone() *GroupRecord {
+	states := make([]*GroupState, 0, maxSenderKeyStates)
+	for _, state := range g.states {
+		states = append(states, &GroupState{
+			state: proto.Clone(state.state).(*v1.SenderKeyStateStructure),
+		})
+	}
+
+	return &GroupRecord{
+		states: states,
+	}
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..fdacaf6 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,18 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// clone returns a copy of the record which may be changed independently.
+func (r *Record) clone() *Record {
+	record := &Record{
+		previousSessions: append(make([][]byte, 0, maxArchivedStates), r.previousSessions...),
+	}
+	if r.currentSession != nil {
+		record.currentSession = r.currentSession.Clone()
+	}
+
+	return record
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..4ad21d8 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,7 +23,11 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// Changes are only visible once they are stored.
+	return record.clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
@@ -51,7 +55,11 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// Changes are only visible once they are stored.
+	return record.clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
-- 
2.43.0


From 6af247f39d34cd46113ed3199025fc4e7a5bd109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 10/16] fix: save the identity key of a pre-key message only
 once it is decrypted

A forged pre-key message, which fails to decrypt, pinned its identity key for the
remote address, locking out the genuine owner of the address.
---
 protocol/session/cipher.go  |  6 ++++++
 protocol/session/session.go | 12 +-----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..5b30b6d 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,12 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// Only now is the message known to be from the owner of the identity key.
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index 8034b70..1ba85c3 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -47,17 +47,7 @@ func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *me
 		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
-	if err != nil {
-		return nil, err
-	}
-
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
-	if err != nil {
-		return nil, err
-	}
-
-	return unsignedPreKeyID, nil
+	return s.processPreKeyV3(ctx, record, message)
 }
 
 func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-- 
2.43.0


From a76857770f194f748d57b6845fe8003bd3da08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 11/16] fix: clear the current session state when it is
 archived

An archived session remained the current one, so it was still used for sending and
was archived a second time by the next session.
---
 protocol/session/record.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/session/record.go b/protocol/session/record.go
index fdacaf6..d560185 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -127,6 +127,7 @@ func (r *Record) ArchiveCurrentState() {
 	}
 
 	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
+	r.currentSession = nil
 }
 
 func (r *Record) LocalIdentityKey() (identity.Key, error) {
-- 
2.43.0


From cb45bb5ed5e14c5b7d267c8ff3bf9091f6790101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 12/16] fix: reject a pre-key message with a non-canonical base
 key

A pre-key message without a one-time pre-key could be replayed, and decrypted again,
by setting the ignored bit of its base key.
---
 protocol/session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 1ba85c3..08089b0 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -60,6 +60,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
+	// X25519 ignores the most significant bit, so a key with it set is an alias of
+	// another key, which is how a replayed message could pass as a new session.
+	if message.BaseKey().KeyBytes()[curve.PublicKeySize-1]&0x80 != 0 {
+		return nil, errors.New("non-canonical base key")
+	}
+
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4264c562218ec7b1e8f2340b118b6cc30d8bbbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 13/16] fix: do not panic on a signature of the wrong length

---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 6e3da598e0b44d255f7bbe45b825975dbfc67979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 14/16] fix: reject a pre-key message which does not match the
 identity key of its session

The identity key of a pre-key message for an existing session was checked for trust
and saved, but never compared to the one which authenticates the message. Replacing
it passed a message from an untrusted identity as one from a trusted identity.
---
 protocol/session/cipher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 5b30b6d..16315a8 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,15 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// The identity key which was checked for trust must be the one the message is authenticated with.
+	theirIdentityKey, exists, err := record.RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("pre-key message does not match the identity key of its session")
+	}
+
 	// Only now is the message known to be from the owner of the identity key.
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
 	if err != nil {
-- 
2.43.0


From 09d8ee1931c220896313d6e2dbc45a1eb0023fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:28 +0000
Subject: [PATCH 15/16] fix: decrypt a pre-key message only in the session it
 belongs to

---
 protocol/session/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 16315a8..9e63245 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"context"
 	"encoding/hex"
 	"errors"
@@ -163,6 +164,10 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
 		return nil, errors.New("pre-key message does not match the identity key of its session")
 	}
+	// Neither may the message use up the pre-keys of a session other than the one it belongs to.
+	if !bytes.Equal(record.State().AliceBaseKey(), ciphertext.BaseKey().Bytes()) {
+		return nil, errors.New("pre-key message does not match the base key of its session")
+	}
 
 	// Only now is the message known to be from the owner of the identity key.
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
-- 
2.43.0


From d2912c3e2d51da3b4e5ceff00017d2dfc0f8a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 16/16] fix: report an untrusted identity of a bundle so that
 IsErrUntrustedIdentity recognises it

---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 08089b0..4aa77da 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -128,7 +128,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0

