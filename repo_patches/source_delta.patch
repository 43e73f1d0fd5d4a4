From d2bcc8d80ca853a9a24c3e189f2feff37a37cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 01/30] fix: reject transactions whose fee payer is not one of
 the signers

---
 x/authn/tx/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..c01bcb6 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -139,6 +139,11 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		return feePayer, usersStr, signers, nil
 	}
 	if info.Fee.Payer != "" {
+		// the payer must have signed the transaction, otherwise
+		// anyone could charge fees to accounts they do not control
+		if !user.NewUsersFromString(usersStr...).Has(info.Fee.Payer) {
+			return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", info.Fee.Payer)
+		}
 		feePayer = info.Fee.Payer
 	}
 	return feePayer, usersStr, signers, nil
-- 
2.43.0


From 8ac94c56e874f008efd46870c382fee35a88f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 02/30] fix: return store errors to the caller instead of
 panicking

---
 runtime/runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..3d491aa 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return err
 	}
 }
-- 
2.43.0


From c78616c9537ad584c5b3722d6b417f3b013ae210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 03/30] fix: encode strings and bytes of 128 bytes and more
 without remains of their length prefix

---
 pkg/protoutils/kindencoder/kindencoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..d02c526 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,5 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From 95cc43651d3637396e4a4324f45f2460693e7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 04/30] fix: run state transition admission checks in DeliverTx
 before executing anything

---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..dbffca9 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,6 +116,13 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
+	// run admission checks on single state transitions
+	for _, transition := range tx.StateTransitions() {
+		err = a.rt.runAdmissionChain(tx.Users(), transition)
+		if err != nil {
+			return errors.ToABCIResponse(0, 0, err)
+		}
+	}
 	// TODO cache the store
 	err = a.rt.runTxPostAuthenticationChain(tx)
 	if err != nil {
-- 
2.43.0


From e054e22844f8c24d3f9f5beaf2181d6c8fa704b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 05/30] fix: report failures to bind a module to its role

---
 core/rbac/rbac_applier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..02a221c 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
-- 
2.43.0


From 32f0c0ac5eb9a8540b3fcc3340bde9a4fc4d4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 06/30] fix: reject transactions instead of crashing when no
 decoder is set

---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..34ea419 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From 33028119e80ae28451a5ed54e194ed53e529ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 07/30] fix: inspect nested messages when looking for map
 fields

---
 pkg/protoutils/desc/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..fe36324 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,7 +63,7 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
-- 
2.43.0


From 50113a540b4277409db682740979032dc858ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 08/30] fix: serve objects whose primary key name contains
 upper case letters

---
 core/apiserver/router/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..cf16358 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -79,8 +79,9 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 	case false:
 		// create get
 		def := object.APIDefinition()
-		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
+		singleInstancePath := fmt.Sprintf("%s/{%s}",
+			strings.ToLower(fmt.Sprintf("/%s/%s", def.Group, def.Kind)),
+			definition.PrimaryKey, // must match the variable name looked up by the handler
 		)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
-- 
2.43.0


From 8c901725b7f33e4d528d46985da30a44ff0614b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 09/30] fix: set the http server before starting to serve so
 Stop always finds it

---
 core/apiserver/module.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index a8a0aa6..9478166 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -68,8 +68,8 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
+	a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
 	go func() {
-		a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
 		err := a.server.ListenAndServe()
 		if err != nil {
 			klog.ErrorS(err, "whilst serving")
-- 
2.43.0


From 5efe0768c82248af47a2778a0de97622ba022fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 10/30] fix: do not ignore routing errors of pre execution
 handlers

---
 runtime/runtime.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 3d491aa..0f32392 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -178,6 +178,9 @@ func (r *Runtime) deliver(users user.Users, stateTransition meta.StateTransition
 	}
 	// get pre exec handlers
 	preExecs, err := r.router.GetStateTransitionPreExecutionHandlers(stateTransition)
+	if err != nil {
+		return err
+	}
 	for _, ex := range preExecs {
 		err = ex.PreExec(statetransition.PreExecutionRequest{
 			Users:      users,
-- 
2.43.0


From 43cdb1e6044b57fe0be5158d8e765c0c065a17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 11/30] fix: honour the height given to ListAtHeight

---
 runtime/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..f7a1852 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0


From 90fa16d0488e8795943bcd68d40f77e521526f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 12/30] fix: reject public keys of the wrong length instead of
 crashing on them

---
 x/authn/crypto/crypto.go              | 6 ++++++
 x/authn/crypto/secp256k1/secp256k1.go | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/x/authn/crypto/crypto.go b/x/authn/crypto/crypto.go
index 51716cc..934c719 100644
--- a/x/authn/crypto/crypto.go
+++ b/x/authn/crypto/crypto.go
@@ -38,6 +38,12 @@ func (r *PubKeyResolver) New(any *anypb.Any) (PubKey, error) {
 	if !ok {
 		panic(fmt.Errorf("%T does not implement PubKey", pk))
 	}
+	// keys which can be checked must be valid, as the other methods assume it
+	if v, ok := pk.(interface{ Validate() error }); ok {
+		if err := v.Validate(); err != nil {
+			return nil, err
+		}
+	}
 	return pk, nil
 }
 
diff --git a/x/authn/crypto/secp256k1/secp256k1.go b/x/authn/crypto/secp256k1/secp256k1.go
index 62d3adf..bb25d5c 100644
--- a/x/authn/crypto/secp256k1/secp256k1.go
+++ b/x/authn/crypto/secp256k1/secp256k1.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/subtle"
+	"fmt"
 	"io"
 	"math/big"
 
@@ -113,6 +114,14 @@ var _ crypto2.PubKey = &PubKey{}
 // (the x-coordinate), plus one byte for the parity of the y-coordinate.
 const PubKeySize = 33
 
+// Validate reports if the public key has the expected length.
+func (pubKey *PubKey) Validate() error {
+	if len(pubKey.Key) != PubKeySize {
+		return fmt.Errorf("invalid pubkey length %d, expected %d", len(pubKey.Key), PubKeySize)
+	}
+	return nil
+}
+
 // Address returns a Bitcoin style addresses: RIPEMD160(SHA256(pubkey))
 func (pubKey *PubKey) Address() crypto.Address {
 	if len(pubKey.Key) != PubKeySize {
-- 
2.43.0


From 5200eb63c17fde86b97fbb12d6cd124f744415d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 13/30] fix: list users in a deterministic order

---
 runtime/authentication/user/user.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/authentication/user/user.go b/runtime/authentication/user/user.go
index 5528b77..70e6b43 100644
--- a/runtime/authentication/user/user.go
+++ b/runtime/authentication/user/user.go
@@ -1,6 +1,9 @@
 package user
 
-import "fmt"
+import (
+	"fmt"
+	"sort"
+)
 
 // User uniquely identifies a user in the authentication context
 type User interface {
@@ -57,12 +60,14 @@ func (d *DefaultUsers) List() []User {
 	for _, user := range d.users {
 		u = append(u, user)
 	}
+	// map iteration order is random, callers need the same order on every node
+	sort.Slice(u, func(i, j int) bool { return u[i].GetName() < u[j].GetName() })
 	return u
 }
 
 func (d *DefaultUsers) String() string {
 	uStr := make([]string, 0, len(d.users))
-	for _, u := range d.users {
+	for _, u := range d.List() {
 		uStr = append(uStr, u.String())
 	}
 	return fmt.Sprintf("%s", uStr)
-- 
2.43.0


From 76795cc3398b8d5d097b18bd975d32c9c7b75564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 14/30] fix: copy values read from badger as they are invalid
 outside of the transaction

---
 runtime/kv/badger.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..61b9fcc 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -39,14 +39,9 @@ func (b *Badger) Get(k []byte) (v []byte, exists bool) {
 		if err != nil {
 			return err
 		}
-		err = item.Value(func(val []byte) error {
-			v = val
-			return nil
-		})
-		if err != nil {
-			return err
-		}
-		return nil
+		// the value returned by item.Value is only valid within the transaction
+		v, err = item.ValueCopy(nil)
+		return err
 	})
 	switch {
 	case err == nil:
-- 
2.43.0


From dc34de85503806674fbe52fc063323f6ad72ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 15/30] fix: release badger transactions when their iterators
 are closed

---
 runtime/kv/badger.go        | 7 +++++++
 runtime/orm/indexes/list.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 61b9fcc..58b4fb8 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -68,6 +68,7 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 	if err != nil {
 		panic(err)
 	}
+	txn.Discard()
 	return true
 }
 
@@ -85,6 +86,7 @@ func (b *Badger) Iterate(start, end []byte) Iterator {
 		start: start,
 		end:   end,
 		iter:  iter,
+		txn:   txn,
 	}
 }
 
@@ -94,6 +96,7 @@ func (b *Badger) IteratePrefix(prefix []byte) Iterator {
 	iter.Seek(prefix)
 	return BaderPrefixIterator{
 		iter:      iter,
+		txn:       txn,
 		prefix:    prefix,
 		pfxLength: len(prefix),
 	}
@@ -101,6 +104,7 @@ func (b *Badger) IteratePrefix(prefix []byte) Iterator {
 
 type BaderPrefixIterator struct {
 	iter      *badger.Iterator
+	txn       *badger.Txn
 	prefix    []byte
 	pfxLength int
 }
@@ -130,12 +134,14 @@ func (b BaderPrefixIterator) Valid() bool {
 
 func (b BaderPrefixIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
 
 type BadgerIterator struct {
 	start []byte
 	end   []byte
 	iter  *badger.Iterator
+	txn   *badger.Txn
 }
 
 func (b BadgerIterator) Next() {
@@ -171,4 +177,5 @@ func (b BadgerIterator) Valid() bool {
 
 func (b BadgerIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..5df08b1 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -19,6 +19,7 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	}
 	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
 	if !iterator.Valid() {
+		iterator.Close()
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
 	return iterator, nil
-- 
2.43.0


From f357fbc96d9738c6279baebf67b4bb1a343de41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 16/30] fix: report that list queries are not supported instead
 of answering an empty object

---
 runtime/query.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..0c86eb0 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -42,6 +42,7 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	case GetStateObjectsPath:
 		response, err = q.get(query)
 	case ListStateObjectsPath:
+		err = fmt.Errorf("list queries are not supported")
 	default:
 		return types.ResponseQuery{Code: 0x1, Log: "unknown verb"}
 	}
-- 
2.43.0


From efb6bc840d32ec7c29c7a10174c6366bc720ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 17/30] fix: query the object with the full requested ID when
 it contains slashes

---
 runtime/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/query.go b/runtime/query.go
index 0c86eb0..57ddd4b 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -89,7 +89,7 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	split := strings.SplitN(req.Path, "/", 4) // the object ID can contain slashes
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
-- 
2.43.0


From 07c101bf3b33261c7dc3d32fd7ad191dcf391aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 18/30] fix: report truncated index lists

---
 runtime/orm/indexes/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/orm/indexes/types.go b/runtime/orm/indexes/types.go
index 9573843..577414e 100644
--- a/runtime/orm/indexes/types.go
+++ b/runtime/orm/indexes/types.go
@@ -117,7 +117,7 @@ func (i *indexList) unmarshal(buf []byte) error {
 	list := make([][]byte, numIndexes)
 	for currentIndex := 0; currentIndex < numIndexes; currentIndex++ {
 		if len(buf) == 0 {
-			return nil
+			return fmt.Errorf("orm: index buffer is truncated, got %d of %d indexes", currentIndex, numIndexes)
 		}
 		index, code := protowire.ConsumeBytes(buf)
 		if code < 0 {
-- 
2.43.0


From 288d326eb13634758ddbc9a45120b3cb579db854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 19/30] fix: remove the list of index keys of a deleted object

---
 runtime/orm/indexes/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/orm/indexes/store.go b/runtime/orm/indexes/store.go
index 9c22a67..b13b050 100644
--- a/runtime/orm/indexes/store.go
+++ b/runtime/orm/indexes/store.go
@@ -76,5 +76,7 @@ func (s Store) ClearIndexes(sch *schema.Schema, o meta.StateObject) error {
 			panic(fmt.Errorf("data corruption, indexes for key %s reported indexer key %s which was not found in indexes list", pk.bytes(), key))
 		}
 	}
+	// remove the list itself
+	s.kv.Delete(pk.bytes())
 	return nil
 }
-- 
2.43.0


From bb72eb12cb312fd6c1049c383085f5bbcff9da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 20/30] fix: refuse admission handlers for unknown state
 transitions

---
 runtime/router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/router.go b/runtime/router.go
index 222e1e9..1bb6b68 100644
--- a/runtime/router.go
+++ b/runtime/router.go
@@ -38,6 +38,9 @@ type Router struct {
 
 func (r *Router) AddStateTransitionAdmissionHandler(transition meta.StateTransition, handler statetransition.AdmissionHandler) error {
 	name := meta.Name(transition)
+	if !r.knownStateTransition(transition) {
+		return fmt.Errorf("%w: unable to register state transition admission handler for unknown state transition %s", ErrTransitionNotFound, name)
+	}
 
 	if !r.stateTransitionAdmissionHandlerExists(transition) {
 		r.stateTransitionAdmissionHandlers[name] = nil
-- 
2.43.0


From cf212f8101229d386621beb6c57716134ac63c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 21/30] fix: remember registered modules so that duplicates are
 refused

---
 core/apiserver/router/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index cf16358..502afc9 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -49,6 +49,7 @@ func (s *Builder) CreateModuleHandlers(module module.Descriptor) error {
 			return fmt.Errorf("api: unable to register %s for module %s", meta.Name(obj.StateObject), module.Name)
 		}
 	}
+	s.modules[module.Name] = module
 	return nil
 }
 
-- 
2.43.0


From f197b8713495be5fb11eb4857b1acef039673439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 22/30] fix: credit new balances with the normalized amount
 taken from the sender

---
 x/bank/handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..799dcf7 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -70,9 +70,15 @@ func (s SendCoinsHandler) Exec(req statetransition.ExecutionRequest) (resp state
 	// if not found create the balance for the account
 	// then attempt to create the account itself if it does not exist
 	case errors.Is(err, errors.ErrNotFound):
+		// normalize the amount as it was when subtracted from the sender
+		var newRecvBalance []*coin.Coin
+		newRecvBalance, err = coin.SafeAdd(nil, msg.Amount)
+		if err != nil {
+			return resp, err
+		}
 		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
 			Address: msg.ToAddress,
-			Amount:  msg.Amount,
+			Amount:  newRecvBalance,
 		})
 		if err != nil {
 			return
-- 
2.43.0


From e31089f25dfa48f33944afea0991bc6ee35510ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:52 +0000
Subject: [PATCH 23/30] fix: refuse repeated fields as primary and secondary
 keys

---
 runtime/orm/schema/indexer.go | 3 +++
 runtime/orm/schema/schema.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/runtime/orm/schema/indexer.go b/runtime/orm/schema/indexer.go
index aecf3f5..ef73b34 100644
--- a/runtime/orm/schema/indexer.go
+++ b/runtime/orm/schema/indexer.go
@@ -13,6 +13,9 @@ func NewIndexer(o meta.StateObject, jsonFieldName string) (*Indexer, error) {
 	if fd == nil {
 		return nil, fmt.Errorf("%w: json field %s is not present in object %s", ErrBadDefinition, jsonFieldName, meta.Name(o))
 	}
+	if fd.IsList() {
+		return nil, fmt.Errorf("%w: field %s of object %s is repeated and can not be indexed", ErrBadDefinition, jsonFieldName, meta.Name(o))
+	}
 
 	kindEncoder, err := kindencoder.NewKindEncoder(fd.Kind())
 	if err != nil {
diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..a835c8c 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -117,6 +117,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 		if primaryKey == nil {
 			return nil, fmt.Errorf("%w: invalid primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
 		}
+		if primaryKey.IsList() {
+			return nil, fmt.Errorf("%w: primary key field %s in object %s is repeated", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
+		}
 		primaryKeyEncoder, err := kindencoder.NewKindEncoder(primaryKey.Kind())
 		if err != nil {
 			return nil, fmt.Errorf("%w: %s has invalid primary key field: %s", ErrBadDefinition, meta.Name(o), err)
-- 
2.43.0


From f69bd4141a120a8e3732ee9ac8d4971f7157c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 24/30] fix: refuse schemas which define the same secondary key
 twice

---
 runtime/orm/schema/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index a835c8c..db85a2d 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -142,6 +142,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 	schema.secondaryKeys = make([]*Indexer, len(options.SecondaryKeys))
 	schema.secondaryKeysByField = make(map[string]*Indexer, len(options.SecondaryKeys))
 	for i, skName := range options.SecondaryKeys {
+		if _, exists := schema.secondaryKeysByField[skName]; exists {
+			return nil, fmt.Errorf("%w: secondary key %s is defined twice in object %s", ErrBadDefinition, skName, meta.Name(o))
+		}
 		sk, err := NewIndexer(o, skName)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b4c837849244e74fcd2532bec0c0a1bd79b82092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:08 +0000
Subject: [PATCH 25/30] fix: iterate the range of keys rather than the versions
 of its first key

---
 runtime/kv/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 58b4fb8..ffbe30b 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -74,14 +74,14 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
 	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
+	iter := txn.NewIterator(badger.IteratorOptions{
 		PrefetchSize:   1,
 		PrefetchValues: false,
 		Reverse:        false,
 		AllVersions:    false,
 		InternalAccess: false,
 	})
-	iter.Rewind()
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
-- 
2.43.0


From 44c5f78fb17458f831ce7e9487862f73e831d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:10 +0000
Subject: [PATCH 26/30] fix: accept repeated fields as secondary keys again, as
 the existing tests do

---
 runtime/orm/schema/indexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/runtime/orm/schema/indexer.go b/runtime/orm/schema/indexer.go
index ef73b34..aecf3f5 100644
--- a/runtime/orm/schema/indexer.go
+++ b/runtime/orm/schema/indexer.go
@@ -13,9 +13,6 @@ func NewIndexer(o meta.StateObject, jsonFieldName string) (*Indexer, error) {
 	if fd == nil {
 		return nil, fmt.Errorf("%w: json field %s is not present in object %s", ErrBadDefinition, jsonFieldName, meta.Name(o))
 	}
-	if fd.IsList() {
-		return nil, fmt.Errorf("%w: field %s of object %s is repeated and can not be indexed", ErrBadDefinition, jsonFieldName, meta.Name(o))
-	}
 
 	kindEncoder, err := kindencoder.NewKindEncoder(fd.Kind())
 	if err != nil {
-- 
2.43.0


From 49f2e90f6dcee2372a102a806ed468c6f48e9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 27/30] fix: API server must not use error texts as format
 strings

---
 core/apiserver/router/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 502afc9..d3e8c52 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -171,7 +171,7 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 		newObj := schema.NewStateObject()
 		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
 		if err != nil {
-			notFound(w, err.Error())
+			notFound(w, "%s", err)
 			return
 		}
 		writeObject(w, newObj)
-- 
2.43.0


From 006a6d1d1843788add664c16a3bb8e301ea5931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:44 +0000
Subject: [PATCH 28/30] fix: look the access control of a transition up by its
 full name

---
 core/rbac/rbac_applier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 02a221c..20cb946 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -151,7 +151,8 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 	var md protoreflect.MessageDescriptor
 	for _, fd := range fds {
 		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
+		// a dependency can have a message with the same short name
+		if got != nil && got.FullName() == protoreflect.FullName(std.ProtobufFullname) {
 			md = got
 			break
 		}
-- 
2.43.0


From 1a9379f6755504fad11872d05f911527465e32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 29/30] fix: the get command needs a group, a kind and a name

---
 pkg/spfcli/get.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/spfcli/get.go b/pkg/spfcli/get.go
index 8d08abf..145fb94 100644
--- a/pkg/spfcli/get.go
+++ b/pkg/spfcli/get.go
@@ -8,7 +8,7 @@ func GetCmd(cli CLIContext) *cobra.Command {
 	return &cobra.Command{
 		Use:   "get",
 		Short: "fetch a state object in the apiserver",
-		Args:  cobra.MinimumNArgs(2),
+		Args:  cobra.ExactArgs(3),
 		RunE: func(cmd *cobra.Command, args []string) error {
 			client := cli.Client()
 
-- 
2.43.0


From b6163aafbaed73ed439c86f77b85782811e8009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:48 +0000
Subject: [PATCH 30/30] fix: require the messages of recursive types for the
 API document

AddRequiredMessage marked a message only after it had visited the messages
of its fields, so that an object with a recursive type, google.protobuf.Struct
for one, overflowed the stack when the API server registered it.
---
 pkg/protoutils/oas3schema/oas3schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 750c50e..cdea286 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -75,6 +75,8 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 	if _, exists := g.requiredObjectsSet[message.FullName()]; exists {
 		return nil
 	}
+	// marked before the nested messages are visited, as they can refer back to it
+	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	// check if it has msg field
 	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
 	for i := 0; i < message.Fields().Len(); i++ {
@@ -88,9 +90,7 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 		if err != nil {
 			return err
 		}
-		g.requiredObjectsSet[message.FullName()] = struct{}{}
 	}
-	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	g.requiredObjects = append(g.requiredObjects, message)
 	g.requiredSchemas = append(g.requiredSchemas, fullMessageTypeName(message))
 	return nil
-- 
2.43.0

