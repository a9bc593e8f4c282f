From 0295cc20cb1609e70e88e662bb7d87d1cad81415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:48 +0000
Subject: [PATCH 01/32] verif: simulation seams for storage and the API server
 (build tag verif, off by default)

---
 core/apiserver/module.go      |  9 +--------
 core/apiserver/serve.go       | 21 +++++++++++++++++++++
 core/apiserver/serve_verif.go | 17 +++++++++++++++++
 runtime/builder.go            |  5 ++---
 runtime/kv/badger.go          |  2 +-
 runtime/kv/options.go         | 11 +++++++++++
 runtime/kv/options_verif.go   | 23 +++++++++++++++++++++++
 runtime/newkv.go              | 11 +++++++++++
 runtime/newkv_verif.go        | 19 +++++++++++++++++++
 9 files changed, 106 insertions(+), 12 deletions(-)
 create mode 100644 core/apiserver/serve.go
 create mode 100644 core/apiserver/serve_verif.go
 create mode 100644 runtime/kv/options.go
 create mode 100644 runtime/kv/options_verif.go
 create mode 100644 runtime/newkv.go
 create mode 100644 runtime/newkv_verif.go

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index a8a0aa6..66a2663 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -11,7 +11,6 @@ import (
 	"github.com/fdymylja/tmos/runtime/module"
 	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/reflect/protoregistry"
-	"k8s.io/klog/v2"
 )
 
 type Module struct{}
@@ -68,13 +67,7 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
-	go func() {
-		a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
-		err := a.server.ListenAndServe()
-		if err != nil {
-			klog.ErrorS(err, "whilst serving")
-		}
-	}()
+	a.serve(mux)
 
 	return nil
 }
diff --git a/core/apiserver/serve.go b/core/apiserver/serve.go
new file mode 100644
index 0000000..e8df600
--- /dev/null
+++ b/core/apiserver/serve.go
@@ -0,0 +1,21 @@
+//go:build !verif
+// +build !verif
+
+package apiserver
+
+import (
+	"net/http"
+
+	"k8s.io/klog/v2"
+)
+
+// serve starts serving the handler in the background.
+func (a *apiServer) serve(handler http.Handler) {
+	go func() {
+		a.server = &http.Server{Handler: handler, Addr: ":8080"} // TODO configurable
+		err := a.server.ListenAndServe()
+		if err != nil {
+			klog.ErrorS(err, "whilst serving")
+		}
+	}()
+}
diff --git a/core/apiserver/serve_verif.go b/core/apiserver/serve_verif.go
new file mode 100644
index 0000000..f4fe158
--- /dev/null
+++ b/core/apiserver/serve_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package apiserver
+
+import "net/http"
+
+// OnServe receives the handler of every API server started from now on, which is not bound
+// to a socket. It exists only in simulation builds (build tag verif).
+var OnServe func(handler http.Handler)
+
+func (a *apiServer) serve(handler http.Handler) {
+	a.server = &http.Server{Handler: handler}
+	if OnServe != nil {
+		OnServe(handler)
+	}
+}
diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..2b95b13 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -10,7 +10,6 @@ import (
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/authorization"
 	"github.com/fdymylja/tmos/runtime/errors"
-	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/module"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"github.com/fdymylja/tmos/runtime/orm/indexes"
@@ -284,9 +283,9 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := kv.NewBadger()
+	okv := newKV("objects")
 	obj := objects.NewStore(okv)
-	idxKv := kv.NewBadger()
+	idxKv := newKV("indexes")
 	idx := indexes.NewStore(idxKv)
 
 	b.store = orm.NewStore(obj, idx)
diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..6234b9a 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -13,7 +13,7 @@ type Badger struct {
 }
 
 func NewBadger() *Badger {
-	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true))
+	db, err := badger.Open(badgerOptions())
 	if err != nil {
 		panic(err)
 	}
diff --git a/runtime/kv/options.go b/runtime/kv/options.go
new file mode 100644
index 0000000..d4d4c21
--- /dev/null
+++ b/runtime/kv/options.go
@@ -0,0 +1,11 @@
+//go:build !verif
+// +build !verif
+
+package kv
+
+import "github.com/dgraph-io/badger/v3"
+
+// badgerOptions returns the options the badger database is opened with.
+func badgerOptions() badger.Options {
+	return badger.DefaultOptions("").WithInMemory(true)
+}
diff --git a/runtime/kv/options_verif.go b/runtime/kv/options_verif.go
new file mode 100644
index 0000000..875a183
--- /dev/null
+++ b/runtime/kv/options_verif.go
@@ -0,0 +1,23 @@
+//go:build verif
+// +build verif
+
+package kv
+
+import "github.com/dgraph-io/badger/v3"
+
+// BadgerTuning, if set, adjusts the options of every database opened from now on.
+// It exists only in simulation builds (build tag verif).
+var BadgerTuning func(badger.Options) badger.Options
+
+func badgerOptions() badger.Options {
+	opts := badger.DefaultOptions("").WithInMemory(true)
+	if BadgerTuning != nil {
+		opts = BadgerTuning(opts)
+	}
+	return opts
+}
+
+// Close releases the database: the simulator opens thousands of them in one process.
+func (b *Badger) Close() error {
+	return b.db.Close()
+}
diff --git a/runtime/newkv.go b/runtime/newkv.go
new file mode 100644
index 0000000..bb78880
--- /dev/null
+++ b/runtime/newkv.go
@@ -0,0 +1,11 @@
+//go:build !verif
+// +build !verif
+
+package runtime
+
+import "github.com/fdymylja/tmos/runtime/kv"
+
+// newKV opens the key-value store with the given role ("objects" or "indexes").
+func newKV(_ string) kv.KV {
+	return kv.NewBadger()
+}
diff --git a/runtime/newkv_verif.go b/runtime/newkv_verif.go
new file mode 100644
index 0000000..deb4c4f
--- /dev/null
+++ b/runtime/newkv_verif.go
@@ -0,0 +1,19 @@
+//go:build verif
+// +build verif
+
+package runtime
+
+import "github.com/fdymylja/tmos/runtime/kv"
+
+// KVFactory, if set, opens the key-value stores of every Runtime built from now on: it
+// receives the role of the store and the default constructor. It exists only in simulation
+// builds (build tag verif).
+var KVFactory func(role string, open func() kv.KV) kv.KV
+
+func newKV(role string) kv.KV {
+	open := func() kv.KV { return kv.NewBadger() }
+	if KVFactory != nil {
+		return KVFactory(role, open)
+	}
+	return open()
+}
-- 
2.43.0


From 3c44a5cd1689017fd4c583a43ed5e161889d1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 02/32] fix: store errors other than not-found no longer crash
 the node

convertStoreError panicked on every error but orm.ErrNotFound, so an external
account could halt the chain by creating an existing account, sending coins to
an empty address, or through a listing without results.
---
 runtime/orm/indexes/errors.go | 8 ++++++--
 runtime/runtime.go            | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/orm/indexes/errors.go b/runtime/orm/indexes/errors.go
index 99c08cf..60082dd 100644
--- a/runtime/orm/indexes/errors.go
+++ b/runtime/orm/indexes/errors.go
@@ -1,7 +1,11 @@
 package indexes
 
-import "errors"
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/orm"
+)
 
 var (
-	errNotFound = errors.New("query produced no results")
+	errNotFound = fmt.Errorf("%w: query produced no results", orm.ErrNotFound)
 )
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..3d491aa 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return err
 	}
 }
-- 
2.43.0


From 80c480225275e47b48dab76fcf8f138df8bdabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 03/32] fix: run the admission checks of state transitions when
 a block is executed

They ran in CheckTx only, so a faulty proposer could include transactions which
the mempool refuses, for example one that crashes every node.
---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..dbffca9 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,6 +116,13 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
+	// run admission checks on single state transitions
+	for _, transition := range tx.StateTransitions() {
+		err = a.rt.runAdmissionChain(tx.Users(), transition)
+		if err != nil {
+			return errors.ToABCIResponse(0, 0, err)
+		}
+	}
 	// TODO cache the store
 	err = a.rt.runTxPostAuthenticationChain(tx)
 	if err != nil {
-- 
2.43.0


From 85232a82863684c98255f7873d5764c83e8e5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 04/32] fix: reject public keys of the wrong length instead of
 panicking

---
 x/authn/tx/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..01c8f2f 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -118,6 +118,9 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to resolve public key at index %d: %w", i, err)
 		}
+		if len(pk.Bytes()) != secp256k1.PubKeySize {
+			return "", nil, nil, fmt.Errorf("tx: invalid length of public key at index %d", i)
+		}
 		addr, err := bech32.ConvertAndEncode(d.bech32pfx, pk.Address())
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to bechify address of public key at index %d: %w", i, err)
-- 
2.43.0


From a129f1b8c3f5b29053c643c84f18a52098a2e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 05/32] fix: the fee payer has to be a signer of the
 transaction

Anybody could make anybody else pay the fees.
---
 x/authn/tx/decoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 01c8f2f..bc221e8 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -141,8 +141,14 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 	if info.Fee == nil {
 		return feePayer, usersStr, signers, nil
 	}
-	if info.Fee.Payer != "" {
-		feePayer = info.Fee.Payer
+	if info.Fee.Payer == "" {
+		return feePayer, usersStr, signers, nil
+	}
+	// only who signed the transaction can be charged for it
+	for _, signer := range usersStr {
+		if signer == info.Fee.Payer {
+			return signer, usersStr, signers, nil
+		}
 	}
-	return feePayer, usersStr, signers, nil
+	return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", info.Fee.Payer)
 }
-- 
2.43.0


From 6f3606a91960215172b4428e2cf7ff28f1c16f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 06/32] fix: encode strings and bytes of 128 bytes and more

Only the first byte of their length prefix was removed, so objects with such a
primary key could not be read, and different keys could collide.
---
 pkg/protoutils/kindencoder/kindencoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..d02c526 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,5 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From cc580270bbc842e98af11b59172ca63fd0fdb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 07/32] fix: accept the first transaction of an account without
 a public key

An account created by receiving coins has no public key until its first
transaction records it, so its coins could never be spent. The address of the
signer is derived from the public key that signed.
---
 x/authn/extensions.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..c10ae5e 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,6 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From 5700dc109b88a85b52f599e2f1b189e4b59d0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 08/32] fix: reject transactions instead of panicking when
 there is no decoder

---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index 2b95b13..9cdd050 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -84,6 +84,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From 1520d6cb29abc1a2e075bd0fa2fafff854607781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 09/32] fix: answer snapshot requests instead of panicking

Peers send ListSnapshots and LoadSnapshotChunk to every node that serves state
sync, so anybody could crash it.
---
 runtime/abci.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index dbffca9..6b96f3a 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -35,7 +35,7 @@ func (a ABCIApplication) Info(info types.RequestInfo) types.ResponseInfo {
 }
 
 func (a ABCIApplication) SetOption(option types.RequestSetOption) types.ResponseSetOption {
-	panic("implement me")
+	return types.ResponseSetOption{}
 }
 
 func (a ABCIApplication) Query(query types.RequestQuery) types.ResponseQuery {
@@ -182,17 +182,17 @@ func (a ABCIApplication) Commit() types.ResponseCommit {
 }
 
 func (a ABCIApplication) ListSnapshots(snapshots types.RequestListSnapshots) types.ResponseListSnapshots {
-	panic("implement me")
+	return types.ResponseListSnapshots{}
 }
 
 func (a ABCIApplication) OfferSnapshot(snapshot types.RequestOfferSnapshot) types.ResponseOfferSnapshot {
-	panic("implement me")
+	return types.ResponseOfferSnapshot{Result: types.ResponseOfferSnapshot_REJECT}
 }
 
 func (a ABCIApplication) LoadSnapshotChunk(chunk types.RequestLoadSnapshotChunk) types.ResponseLoadSnapshotChunk {
-	panic("implement me")
+	return types.ResponseLoadSnapshotChunk{}
 }
 
 func (a ABCIApplication) ApplySnapshotChunk(chunk types.RequestApplySnapshotChunk) types.ResponseApplySnapshotChunk {
-	panic("implement me")
+	return types.ResponseApplySnapshotChunk{Result: types.ResponseApplySnapshotChunk_ABORT}
 }
-- 
2.43.0


From 5aee107c575c349838f94d391be6d0f1a89a8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 10/32] fix: hand validator changes over to consensus once

The last change set was returned at the end of every following block; consensus
halts when the removal of a validator is repeated.
---
 runtime/abci.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index 6b96f3a..111fdd7 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -165,6 +165,14 @@ func (a ABCIApplication) EndBlock(block types.RequestEndBlock) types.ResponseEnd
 	for i, val := range valUpdates.ValidatorUpdates {
 		updates[i] = val.ToLegacy()
 	}
+	// clear the changes once they are handed over, otherwise the same ones
+	// would be returned at the end of every block
+	if len(updates) != 0 {
+		err = a.rt.Deliver(a.user, &abcictrl.MsgSetValidatorUpdates{})
+		if err != nil {
+			panic(err)
+		}
+	}
 	// updates..
 	return types.ResponseEndBlock{
 		ValidatorUpdates:      updates,
-- 
2.43.0


From 579ad0e87d1a33f2c5596fa4aabf3562be3ad869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 11/32] fix: list the users of a request in a deterministic
 order

The order of a map iteration decided which error a transaction with several
signers reports and in which order their accounts are written, so nodes could
disagree.
---
 runtime/authentication/user/user.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/authentication/user/user.go b/runtime/authentication/user/user.go
index 5528b77..81970f6 100644
--- a/runtime/authentication/user/user.go
+++ b/runtime/authentication/user/user.go
@@ -1,6 +1,9 @@
 package user
 
-import "fmt"
+import (
+	"fmt"
+	"sort"
+)
 
 // User uniquely identifies a user in the authentication context
 type User interface {
@@ -52,17 +55,19 @@ func (d *DefaultUsers) has(name string) bool {
 	return exists
 }
 
+// List returns the users sorted by name
 func (d *DefaultUsers) List() []User {
 	u := make([]User, 0, len(d.users))
 	for _, user := range d.users {
 		u = append(u, user)
 	}
+	sort.Slice(u, func(i, j int) bool { return u[i].GetName() < u[j].GetName() })
 	return u
 }
 
 func (d *DefaultUsers) String() string {
 	uStr := make([]string, 0, len(d.users))
-	for _, u := range d.users {
+	for _, u := range d.List() {
 		uStr = append(uStr, u.String())
 	}
 	return fmt.Sprintf("%s", uStr)
-- 
2.43.0


From 5f6a752946165bbadfede683d9e0eb2a82595988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 12/32] fix: the API server can be stopped right after it was
 started, or without

The server was set by the goroutine that serves.
---
 core/apiserver/module.go | 3 +++
 core/apiserver/serve.go  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index 66a2663..7715b4e 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -73,5 +73,8 @@ func (a *apiServer) Start() error {
 }
 
 func (a *apiServer) Stop() error {
+	if a.server == nil {
+		return nil
+	}
 	return a.server.Shutdown(context.TODO())
 }
diff --git a/core/apiserver/serve.go b/core/apiserver/serve.go
index e8df600..dfb9612 100644
--- a/core/apiserver/serve.go
+++ b/core/apiserver/serve.go
@@ -11,8 +11,8 @@ import (
 
 // serve starts serving the handler in the background.
 func (a *apiServer) serve(handler http.Handler) {
+	a.server = &http.Server{Handler: handler, Addr: ":8080"} // TODO configurable
 	go func() {
-		a.server = &http.Server{Handler: handler, Addr: ":8080"} // TODO configurable
 		err := a.server.ListenAndServe()
 		if err != nil {
 			klog.ErrorS(err, "whilst serving")
-- 
2.43.0


From f0e26c789352b23e2d85a7f3672c21126b7e151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:39 +0000
Subject: [PATCH 13/32] fix: report when the role of a module cannot be bound

---
 core/rbac/rbac_applier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..02a221c 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
-- 
2.43.0


From 32b42f6df1ecb030f5959b69df6b29aca5674b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 14/32] fix: deleting a key reports whether it existed

It always reported true.
---
 runtime/kv/badger.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 6234b9a..ff3a377 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -65,7 +65,16 @@ func (b *Badger) Has(k []byte) bool {
 
 func (b *Badger) Delete(k []byte) (exists bool) {
 	txn := b.db.NewTransaction(true)
-	err := txn.Delete(k)
+	defer txn.Discard()
+	_, err := txn.Get(k)
+	switch {
+	case err == nil:
+	case errors.Is(err, badger.ErrKeyNotFound):
+		return false
+	default:
+		panic(err)
+	}
+	err = txn.Delete(k)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From fb2dd1f7f39f26458fba4b2df3c6dfe3f1cb051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 15/32] fix: iterate over the whole requested range and release
 closed iterators

The range iterator was a key iterator, which yields the start key only. The
transactions of iterators were never discarded, so the versions of keys they
pinned were kept forever.
---
 runtime/kv/badger.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index ff3a377..6dc6105 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -86,27 +86,23 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 }
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
-	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
-		PrefetchSize:   1,
-		PrefetchValues: false,
-		Reverse:        false,
-		AllVersions:    false,
-		InternalAccess: false,
-	})
-	iter.Rewind()
+	txn := b.db.NewTransaction(false)
+	iter := txn.NewIterator(badger.DefaultIteratorOptions)
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
+		txn:   txn,
 		iter:  iter,
 	}
 }
 
 func (b *Badger) IteratePrefix(prefix []byte) Iterator {
-	txn := b.db.NewTransaction(true)
+	txn := b.db.NewTransaction(false)
 	iter := txn.NewIterator(badger.DefaultIteratorOptions)
 	iter.Seek(prefix)
 	return BaderPrefixIterator{
+		txn:       txn,
 		iter:      iter,
 		prefix:    prefix,
 		pfxLength: len(prefix),
@@ -114,6 +110,7 @@ func (b *Badger) IteratePrefix(prefix []byte) Iterator {
 }
 
 type BaderPrefixIterator struct {
+	txn       *badger.Txn
 	iter      *badger.Iterator
 	prefix    []byte
 	pfxLength int
@@ -144,11 +141,13 @@ func (b BaderPrefixIterator) Valid() bool {
 
 func (b BaderPrefixIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
 
 type BadgerIterator struct {
 	start []byte
 	end   []byte
+	txn   *badger.Txn
 	iter  *badger.Iterator
 }
 
@@ -185,4 +184,5 @@ func (b BadgerIterator) Valid() bool {
 
 func (b BadgerIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
-- 
2.43.0


From 813782f7ded52520b3ac6169e93369610a32c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 16/32] fix: updating an object does not hide it from
 concurrent listings

An update removed all index entries of the object and then added them again, so
a listing through the API server could miss an object whose indexed fields did
not change.
---
 runtime/orm/indexes/store.go | 52 ++++++++++++++++++++++++++++++++++++
 runtime/orm/store.go         |  9 +++----
 2 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/runtime/orm/indexes/store.go b/runtime/orm/indexes/store.go
index 9c22a67..0e1b815 100644
--- a/runtime/orm/indexes/store.go
+++ b/runtime/orm/indexes/store.go
@@ -52,6 +52,58 @@ func (s Store) Index(sch *schema.Schema, o meta.StateObject) error {
 	return nil
 }
 
+// Reindex brings the indexes of an already indexed object up to date: the entries
+// which are still valid are not touched, so a concurrent List never misses the object.
+func (s Store) Reindex(sch *schema.Schema, o meta.StateObject) error {
+	if !sch.HasIndexes() {
+		return nil
+	}
+	primaryKey := sch.EncodePrimaryKey(o)
+	pk := typePrefixedKey{
+		primaryKey: primaryKey,
+		typePrefix: sch.TypePrefix(),
+	}
+	indexListBytes, exists := s.kv.Get(pk.bytes())
+	if !exists {
+		return fmt.Errorf("orm: primary key not found for object %s", pk.bytes())
+	}
+	oldKeys := new(indexList)
+	err := oldKeys.unmarshal(indexListBytes)
+	if err != nil {
+		return err
+	}
+	old := make(map[string]struct{}, len(*oldKeys))
+	for _, key := range *oldKeys {
+		old[string(key)] = struct{}{}
+	}
+	// add the entries which were not there
+	sks := sch.Indexes()
+	newKeys := make(indexList, 0, len(sks))
+	current := make(map[string]struct{}, len(sks))
+	for _, sk := range sks {
+		key := &indexObjectWithSecondaryKey{
+			objectPrefix:      sch.TypePrefix(),
+			indexPrefix:       sk.Prefix(),
+			secondaryKeyValue: sk.MustEncodeFromObject(o),
+			primaryKey:        primaryKey,
+		}
+		keyBytes := key.marshal()
+		newKeys = append(newKeys, keyBytes)
+		current[string(keyBytes)] = struct{}{}
+		if _, exists := old[string(keyBytes)]; !exists {
+			s.kv.Set(keyBytes, []byte{})
+		}
+	}
+	s.kv.Set(pk.bytes(), newKeys.marshal())
+	// remove the entries which are not valid anymore
+	for _, key := range *oldKeys {
+		if _, exists := current[string(key)]; !exists {
+			s.kv.Delete(key)
+		}
+	}
+	return nil
+}
+
 func (s Store) ClearIndexes(sch *schema.Schema, o meta.StateObject) error {
 	if !sch.HasIndexes() {
 		return nil
diff --git a/runtime/orm/store.go b/runtime/orm/store.go
index 4e7697f..4a7db5e 100644
--- a/runtime/orm/store.go
+++ b/runtime/orm/store.go
@@ -24,6 +24,8 @@ type ObjectsStore interface {
 type Indexer interface {
 	// Index indexes the object
 	Index(schema *schema.Schema, o meta.StateObject) error
+	// Reindex updates the indexes of an object which is already indexed
+	Reindex(schema *schema.Schema, o meta.StateObject) error
 	// ClearIndexes clears the indexes for the object
 	ClearIndexes(schema *schema.Schema, o meta.StateObject) error
 	// List provides an iterator which returns the primary keys
@@ -90,13 +92,8 @@ func (s Store) Update(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
-	// clear indexes
-	err = s.indexes.ClearIndexes(sch, object)
-	if err != nil {
-		return err
-	}
 	// update indexes
-	err = s.indexes.Index(sch, object)
+	err = s.indexes.Reindex(sch, object)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 48b85e32a8966b9d1aec3728e9446ea7fdebbd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 17/32] fix: listings honour all field selections and the
 requested range

All selections but the first and the range were ignored.
---
 runtime/orm/indexes/list.go | 57 +++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..d480b52 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -13,17 +13,70 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	if err != nil {
 		return nil, err
 	}
-	// TODO we need to add the logic of query ranges and joint prefixes
 	if len(prefixes) == 0 {
 		return nil, fmt.Errorf("TODO remove me and implement me")
 	}
-	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
+	iterator := newListIterator(s.kv, prefixes, options.Start, options.End)
 	if !iterator.Valid() {
+		iterator.Close()
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
 	return iterator, nil
 }
 
+// listIterator iterates over the primary keys of the objects which match all the
+// selections. Only the matches from position start up to position end, excluded,
+// are provided; there is no upper bound if end is zero.
+type listIterator struct {
+	kv.Iterator // goes over the objects which match the first selection
+
+	store    kv.KV
+	others   []indexObjectWithSecondaryKey
+	position uint64
+	end      uint64
+}
+
+func newListIterator(store kv.KV, selections []indexObjectWithSecondaryKey, start, end uint64) *listIterator {
+	iterator := &listIterator{
+		Iterator: store.IteratePrefix(selections[0].marshal()),
+		store:    store,
+		others:   selections[1:],
+		end:      end,
+	}
+	iterator.skipMismatches()
+	for iterator.position < start && iterator.Valid() {
+		iterator.Next()
+	}
+	return iterator
+}
+
+func (i *listIterator) Valid() bool {
+	return (i.end == 0 || i.position < i.end) && i.Iterator.Valid()
+}
+
+func (i *listIterator) Next() {
+	i.Iterator.Next()
+	i.position++
+	i.skipMismatches()
+}
+
+// skipMismatches moves to the next object which matches the other selections too
+func (i *listIterator) skipMismatches() {
+	for i.Valid() && !i.matchesOthers(i.Iterator.Key()) {
+		i.Iterator.Next()
+	}
+}
+
+func (i *listIterator) matchesOthers(primaryKey []byte) bool {
+	for _, selection := range i.others {
+		selection.primaryKey = primaryKey
+		if !i.store.Has(selection.marshal()) {
+			return false
+		}
+	}
+	return true
+}
+
 // prefixesToScan returns the list of prefixes that need to be scanned to fetch primary keys
 // associated with the provided fields
 func prefixesToScan(schema *schema.Schema, opt orm.ListOptions) ([]indexObjectWithSecondaryKey, error) {
-- 
2.43.0


From a911db4394604547496c7e8b73100fb423717434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 18/32] fix: a listing does not fail when an object is deleted
 meanwhile

---
 core/apiserver/router/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..9ffda66 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -1,6 +1,7 @@
 package router
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -10,6 +11,7 @@ import (
 	"github.com/fdymylja/tmos/pkg/protoutils/forge"
 	"github.com/fdymylja/tmos/runtime/client"
 	"github.com/fdymylja/tmos/runtime/module"
+	"github.com/fdymylja/tmos/runtime/orm"
 	"github.com/fdymylja/tmos/runtime/orm/schema"
 	"github.com/gorilla/mux"
 	"google.golang.org/protobuf/encoding/protojson"
@@ -233,6 +235,11 @@ func newListHandler(c client.Client, schema *schema.Schema) http.HandlerFunc {
 		for iter.Valid() {
 			obj := schema.NewStateObject()
 			err := iter.Get(obj)
+			// the object was deleted after the listing started
+			if errors.Is(err, orm.ErrNotFound) {
+				iter.Next()
+				continue
+			}
 			if err != nil {
 				badRequest(w, "unable to list object: %s", err)
 				return
-- 
2.43.0


From dd9d3903b247a79d3202b14c6c01a40735b0568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 19/32] fix: objects with a camel case primary key can be read
 through the API server

The name of the path variable was lower-cased, and then not found.
---
 core/apiserver/router/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 9ffda66..264b14a 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -82,8 +82,8 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 		// create get
 		def := object.APIDefinition()
 		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
-		)
+			fmt.Sprintf("/%s/%s", def.Group, def.Kind),
+		) + fmt.Sprintf("/{%s}", definition.PrimaryKey)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
 		)
-- 
2.43.0


From 8c89567487da2b124cc23488a6ba2da8c4612bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 20/32] fix: objects whose key contains slashes or dots can be
 read through the API server

---
 core/apiserver/router/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 264b14a..960a880 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"github.com/fdymylja/tmos/core/meta"
@@ -23,7 +24,7 @@ import (
 func NewBuilder(c client.Client) *Builder {
 	return &Builder{
 		client:     c,
-		mux:        mux.NewRouter(),
+		mux:        mux.NewRouter().UseEncodedPath(),
 		modules:    map[string]module.Descriptor{},
 		knownPaths: nil,
 		openAPI:    NewOpenAPIBuilder(),
@@ -162,6 +163,11 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 			badRequest(w, "missing object key in url path")
 			return
 		}
+		primaryKeyValue, err = url.PathUnescape(primaryKeyValue)
+		if err != nil {
+			badRequest(w, "bad object key in url path: %s", err)
+			return
+		}
 		// encode primary key
 		pkBytes, err := schema.EncodePrimaryKeyString(primaryKeyValue)
 		if err != nil {
@@ -171,7 +177,7 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 		newObj := schema.NewStateObject()
 		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
 		if err != nil {
-			notFound(w, err.Error())
+			notFound(w, "%s", err)
 			return
 		}
 		writeObject(w, newObj)
-- 
2.43.0


From eb48eea537297164a4786d24e752680dbfab97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 21/32] fix: query objects by their full identifier

Identifiers were cut at the first slash, and those which are not strings were not
encoded.
---
 runtime/orm/schema/schema.go |  4 ++++
 runtime/query.go             | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..002d4c1 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -47,6 +47,10 @@ func (s *Schema) HasIndexes() bool {
 	return s.hasIndexes
 }
 
+func (s *Schema) IsSingleton() bool {
+	return s.singleton
+}
+
 func (s *Schema) TypePrefix() []byte {
 	return s.typePrefix
 }
diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..81d6f0f 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -88,7 +88,7 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	split := strings.SplitN(req.Path, "/", 4) // the identifier can contain slashes
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
@@ -100,8 +100,15 @@ func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
 	if err != nil {
 		return nil, err
 	}
+	id := []byte(split[3])
+	if !sch.IsSingleton() {
+		id, err = sch.EncodePrimaryKeyString(split[3])
+		if err != nil {
+			return nil, err
+		}
+	}
 	obj := sch.NewStateObject()
-	err = q.store.Get(meta.NewStringID(split[3]), obj)
+	err = q.store.Get(meta.NewBytesID(id), obj)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dc08d5aa69c0a1b5d7af4a44d9106093a84c6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 22/32] fix: report objects which cannot be marshalled instead
 of panicking

---
 core/apiserver/router/server.go | 7 ++++---
 runtime/query.go                | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 960a880..f2db196 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -3,7 +3,6 @@ package router
 import (
 	"errors"
 	"fmt"
-	"io"
 	"net/http"
 	"net/url"
 	"strings"
@@ -258,10 +257,12 @@ func newListHandler(c client.Client, schema *schema.Schema) http.HandlerFunc {
 	}
 }
 
-func writeObject(w io.Writer, obj proto.Message) bool {
+func writeObject(w http.ResponseWriter, obj proto.Message) bool {
 	b, err := protojson.Marshal(obj)
 	if err != nil {
-		panic(err)
+		w.WriteHeader(http.StatusInternalServerError)
+		_, _ = w.Write([]byte(err.Error()))
+		return false
 	}
 	_, err = w.Write(b)
 	if err != nil {
diff --git a/runtime/query.go b/runtime/query.go
index 81d6f0f..4646755 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -50,7 +50,7 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	}
 	b, err := protojson.Marshal(response)
 	if err != nil {
-		panic(err)
+		return types.ResponseQuery{Code: 0x1, Log: err.Error()}
 	}
 	return types.ResponseQuery{
 		Value: b,
-- 
2.43.0


From d5cea14c2bc782bbd29b417fa4e4ae34a2c3e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 23/32] fix: reject accounts whose public key cannot be
 resolved

An account created with a public key of an unknown type could not be read through
the API server or a query (they panicked), and the ones using the cosmos-sdk type
URL had to be recorded under the type URL known here.
---
 x/authn/ctrl_admission.go        |  2 ++
 x/authn/ctrl_state_transition.go |  7 ++++++-
 x/authn/pubkey.go                | 35 ++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)
 create mode 100644 x/authn/pubkey.go

diff --git a/x/authn/ctrl_admission.go b/x/authn/ctrl_admission.go
index 14d940c..1627487 100644
--- a/x/authn/ctrl_admission.go
+++ b/x/authn/ctrl_admission.go
@@ -24,6 +24,8 @@ func (CreateAccountAdmissionHandler) Validate(request statetransition.AdmissionR
 	switch {
 	case acc.Address == "":
 		err = fmt.Errorf("no address provided")
+	case acc.PubKey != nil:
+		_, err = resolvePubKey(acc.PubKey)
 	}
 	return err
 }
diff --git a/x/authn/ctrl_state_transition.go b/x/authn/ctrl_state_transition.go
index bd66933..ad9c6a7 100644
--- a/x/authn/ctrl_state_transition.go
+++ b/x/authn/ctrl_state_transition.go
@@ -21,6 +21,11 @@ type CreateAccountHandler struct {
 
 func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
 	msg := req.Transition.(*v1alpha1.MsgCreateAccount)
+	// save the public key in the same form it's saved when a transaction records it
+	pubKey, err := resolvePubKey(msg.Account.PubKey)
+	if err != nil {
+		return statetransition.ExecutionResponse{}, err
+	}
 	// get last acc number
 	lastAccNum, err := m.auth.CurrentAccountNumber().Get()
 	if err != nil {
@@ -29,7 +34,7 @@ func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp
 	// create account
 	account := &v1alpha1.Account{
 		Address:       msg.Account.Address,
-		PubKey:        msg.Account.PubKey,
+		PubKey:        pubKey,
 		AccountNumber: lastAccNum.Number,
 		Sequence:      0,
 	}
diff --git a/x/authn/pubkey.go b/x/authn/pubkey.go
new file mode 100644
index 0000000..a25268e
--- /dev/null
+++ b/x/authn/pubkey.go
@@ -0,0 +1,35 @@
+package authn
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/x/authn/crypto"
+	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
+	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/anypb"
+)
+
+var pubKeyResolver = crypto.NewDefaultPubKeyResolver([]crypto.PubKey{&secp256k1.PubKey{}})
+
+// resolvePubKey checks that the provided public key is one which can verify signatures
+// and returns it in the form in which it is saved in accounts. A nil key is left as is.
+func resolvePubKey(any *anypb.Any) (*anypb.Any, error) {
+	if any == nil {
+		return nil, nil
+	}
+	pk, err := pubKeyResolver.New(any)
+	if err != nil {
+		return nil, err
+	}
+	if len(pk.Bytes()) != secp256k1.PubKeySize {
+		return nil, fmt.Errorf("invalid public key length: %d", len(pk.Bytes()))
+	}
+	value, err := proto.Marshal(pk)
+	if err != nil {
+		return nil, err
+	}
+	return &anypb.Any{
+		TypeUrl: fmt.Sprintf("/%s", proto.MessageName(pk)),
+		Value:   value,
+	}, nil
+}
-- 
2.43.0


From c0f270f4525b5b63a0bca09eeb5229e4bb473162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:01 +0000
Subject: [PATCH 24/32] fix: coins are moved only by their owner

Any account could send the coins of any other account: MsgSendCoins did not check
that its sender is who delivers it. Modules move coins on behalf of an account by
impersonating it, as the fee deduction now does.
---
 x/bank/admission.go          | 30 ++++++++++++++++++++++++++++++
 x/bank/module.go             |  5 ++++-
 x/distribution/extensions.go | 11 ++++++-----
 3 files changed, 40 insertions(+), 6 deletions(-)
 create mode 100644 x/bank/admission.go

diff --git a/x/bank/admission.go b/x/bank/admission.go
new file mode 100644
index 0000000..ed73234
--- /dev/null
+++ b/x/bank/admission.go
@@ -0,0 +1,30 @@
+package bank
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/authentication/user"
+	"github.com/fdymylja/tmos/runtime/statetransition"
+	"github.com/fdymylja/tmos/x/bank/v1alpha1"
+)
+
+func NewSendCoinsAdmissionHandler() statetransition.AdmissionHandler {
+	return SendCoinsAdmissionHandler{}
+}
+
+// SendCoinsAdmissionHandler verifies that coins are moved only by their owner
+type SendCoinsAdmissionHandler struct{}
+
+func (s SendCoinsAdmissionHandler) Validate(req statetransition.AdmissionRequest) error {
+	msg := req.Transition.(*v1alpha1.MsgSendCoins)
+	// the sender has to be one of the users delivering the transition,
+	// other modules need to impersonate the sender in order to move its coins.
+	if hasUser(req.Users, msg.FromAddress) || hasUser(req.Users, moduleName) {
+		return nil
+	}
+	return fmt.Errorf("coins of %q can not be sent by %s", msg.FromAddress, req.Users)
+}
+
+func hasUser(users user.Users, name string) bool {
+	return users != nil && users.Has(name)
+}
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..7c87500 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -6,6 +6,8 @@ import (
 	"github.com/fdymylja/tmos/x/bank/v1alpha1"
 )
 
+const moduleName = "bank"
+
 func NewModule() Module {
 	return Module{}
 }
@@ -15,9 +17,10 @@ type Module struct {
 
 func (m Module) Initialize(client module.Client) module.Descriptor {
 	return module.NewDescriptorBuilder().
-		Named("bank").
+		Named(moduleName).
 		OwnsStateObject(&v1alpha1.Balance{}, v1alpha1.BalanceSchema).
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
+		HandlesAdmission(&v1alpha1.MsgSendCoins{}, NewSendCoinsAdmissionHandler()).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
 		WithGenesis(newGenesisHandler()).Build()
diff --git a/x/distribution/extensions.go b/x/distribution/extensions.go
index 643a4d0..80639de 100644
--- a/x/distribution/extensions.go
+++ b/x/distribution/extensions.go
@@ -3,6 +3,7 @@ package distribution
 import (
 	v1alpha12 "github.com/fdymylja/tmos/core/coin/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication"
+	"github.com/fdymylja/tmos/runtime/client"
 	"github.com/fdymylja/tmos/runtime/module"
 	"github.com/fdymylja/tmos/x/bank/v1alpha1"
 )
@@ -37,19 +38,19 @@ func (x FeeChecker) Validate(req authentication.Tx) (err error) {
 }
 
 func NewFeeDeduction(c module.Client) authentication.PostAuthenticationHandler {
-	return FeeDeduction{bank: v1alpha1.NewClientSet(c)}
+	return FeeDeduction{c: c}
 }
 
 // FeeDeduction deducts fees from the transaction fee payer and sends them to the fee collector
 type FeeDeduction struct {
-	bank v1alpha1.ClientSet
+	c module.Client
 }
 
 func (x FeeDeduction) Exec(req authentication.PostAuthenticationRequest) (resp authentication.PostAuthenticationResponse, err error) {
-	// move coins and send them to fee collector
-	return resp, x.bank.ExecMsgSendCoins(&v1alpha1.MsgSendCoins{
+	// move coins and send them to fee collector on behalf of the payer
+	return resp, x.c.Deliver(&v1alpha1.MsgSendCoins{
 		FromAddress: req.Tx.Payer(),
 		ToAddress:   "fee_collector",
 		Amount:      req.Tx.Fee(),
-	})
+	}, client.DeliverImpersonating(req.Tx.Payer()))
 }
-- 
2.43.0


From c8cf60cd587ab046ef45bd4fd2fc46728099ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 25/32] fix: amounts out of range are errors

Parsing or adding up coins whose amount exceeds 255 bits panicked, so a single
transaction with such an amount or fee could crash the node.
---
 core/coin/v1alpha1/coin.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..c7d63d9 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,11 +2,15 @@ package v1alpha1
 
 import (
 	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// maxAmountBits is the maximum size of an amount: types.Int panics if it's exceeded
+const maxAmountBits = 255
+
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
 	b := new(strings.Builder)
 	for i, c := range coins {
@@ -16,11 +20,16 @@ func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
 		}
 		_, _ = b.WriteString(fmt.Sprintf("%s%s", c.Amount, c.Denom))
 	}
-	sdkCoins, err := types.ParseCoinsNormalized(b.String())
+	decCoins, err := types.ParseDecCoins(b.String())
 	if err != nil {
 		return nil, err
 	}
-	return &Balance{Coins: sdkCoins}, nil
+	for _, c := range decCoins {
+		if amount := new(big.Int).Quo(c.Amount.BigInt(), types.OneDec().BigInt()); amount.BitLen() > maxAmountBits {
+			return nil, fmt.Errorf("amount of %s out of range", c.Denom)
+		}
+	}
+	return &Balance{Coins: types.NormalizeCoins(decCoins)}, nil
 }
 
 type Balance struct {
@@ -70,6 +79,11 @@ func SafeAdd(initial []*Coin, toAdd []*Coin) (result []*Coin, err error) {
 	if i.IsAnyNegative() || s.IsAnyNegative() {
 		return nil, fmt.Errorf("negative coins")
 	}
+	for _, c := range s.Coins {
+		if sum := new(big.Int).Add(i.AmountOf(c.Denom).BigInt(), c.Amount.BigInt()); sum.BitLen() > maxAmountBits {
+			return nil, fmt.Errorf("sum of %s out of range", c.Denom)
+		}
+	}
 	sdkRes := i.Add(s.Coins...)
 	return (&Balance{Coins: sdkRes}).ToCoins(), nil
 }
-- 
2.43.0


From 99da8b20a9115161ed44312c73d6cbc246de991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 26/32] fix: a transfer moves exactly the stated coins or
 nothing

A transfer which failed to create the account of its receiver destroyed the coins
taken from the sender, the first coins received were saved without being validated
and normalized (which left unreadable balances or created coins), and receivers
having a balance but no account never got one.
---
 x/bank/handler.go | 71 ++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..40a3950 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -36,53 +36,48 @@ func (s SendCoinsHandler) Exec(req statetransition.ExecutionRequest) (resp state
 		return resp, err
 	}
 
+	// get balance of receiver, which might not have one
+	recvCoins := newSenderBalance
+	if msg.ToAddress != msg.FromAddress {
+		recvBalance, err := s.bank.Balances().Get(msg.ToAddress)
+		switch {
+		case err == nil:
+			recvCoins = recvBalance.Balance
+		case errors.Is(err, errors.ErrNotFound):
+			recvCoins = nil
+		default:
+			return resp, err
+		}
+	}
+
+	// add the coins
+	newRecvBalance, err := coin.SafeAdd(recvCoins, msg.Amount)
+	if err != nil {
+		return resp, err
+	}
+
+	// create the account of the receiver if it does not exist, it's done before
+	// moving the coins because it might fail
+	err = s.createAccountIfNotExist(msg.ToAddress)
+	if err != nil {
+		return resp, err
+	}
+
 	// update balance of sender
 	err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
 		Address: msg.FromAddress,
 		Amount:  newSenderBalance,
 	})
-
 	if err != nil {
 		return resp, err
 	}
 
-	// get balance of receiver
-	recvBalance, err := s.bank.Balances().Get(msg.ToAddress)
-
-	// we do a switch check to assert if the balance exists or not
-	switch {
-	// if no error simply update the balance
-	case err == nil:
-		var newRecvBalance []*coin.Coin
-		newRecvBalance, err = coin.SafeAdd(recvBalance.Balance, msg.Amount)
-		if err != nil {
-			return resp, err
-		}
-		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
-			Address: msg.ToAddress,
-			Amount:  newRecvBalance,
-		})
-		if err != nil {
-			return
-		}
-
-		return resp, nil
-	// if not found create the balance for the account
-	// then attempt to create the account itself if it does not exist
-	case errors.Is(err, errors.ErrNotFound):
-		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
-			Address: msg.ToAddress,
-			Amount:  msg.Amount,
-		})
-		if err != nil {
-			return
-		}
-
-		return resp, s.createAccountIfNotExist(msg.ToAddress)
-	// another error exit...
-	default:
-		return resp, err
-	}
+	// update balance of receiver
+	err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
+		Address: msg.ToAddress,
+		Amount:  newRecvBalance,
+	})
+	return resp, err
 }
 
 // createAccountIfNotExist creates a new account since it has received balance
-- 
2.43.0


From 3410f6e14fc6ae982301769dcd39dbb50c7ee095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 27/32] fix: an account which cannot be bound to its role is
 not created

The account was created, and its number handed out, before binding it to the external
account role failed: for instance for the name of a module.
---
 x/authn/ctrl_state_transition.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/x/authn/ctrl_state_transition.go b/x/authn/ctrl_state_transition.go
index ad9c6a7..a8ded5f 100644
--- a/x/authn/ctrl_state_transition.go
+++ b/x/authn/ctrl_state_transition.go
@@ -31,6 +31,15 @@ func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp
 	if err != nil {
 		return statetransition.ExecutionResponse{}, err
 	}
+	// bind account to external_account role, it's done first because it fails
+	// in case the address is already in use
+	err = m.rbac.ExecMsgBindRole(&rbacv1alpha1.MsgBindRole{
+		RoleId:  rbacv1alpha1.ExternalAccountRoleID,
+		Subject: msg.Account.Address,
+	})
+	if err != nil {
+		return
+	}
 	// create account
 	account := &v1alpha1.Account{
 		Address:       msg.Account.Address,
@@ -48,13 +57,5 @@ func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp
 	if err != nil {
 		return
 	}
-	// bind account to external_account role
-	err = m.rbac.ExecMsgBindRole(&rbacv1alpha1.MsgBindRole{
-		RoleId:  rbacv1alpha1.ExternalAccountRoleID,
-		Subject: account.Address,
-	})
-	if err != nil {
-		return
-	}
 	return resp, nil
 }
-- 
2.43.0


From 564c17258a887aae43381e5fa4f94dbaca11c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:39 +0000
Subject: [PATCH 28/32] fix: failed transactions leave nothing of their
 execution behind

When a message failed the effects of the previous ones, and the ones done by itself
until then, were kept. The same went for a transaction refused after its fee was
deducted.
---
 runtime/abci.go       | 25 +++++++++-------
 runtime/builder.go    |  7 +++--
 runtime/kv/journal.go | 68 +++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go    | 22 ++++++++++++--
 4 files changed, 108 insertions(+), 14 deletions(-)
 create mode 100644 runtime/kv/journal.go

diff --git a/runtime/abci.go b/runtime/abci.go
index 111fdd7..9977149 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -123,21 +123,26 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 			return errors.ToABCIResponse(0, 0, err)
 		}
 	}
-	// TODO cache the store
-	err = a.rt.runTxPostAuthenticationChain(tx)
+	// a failure here means the tx was not admitted, so nothing is written
+	err = a.rt.atomic(func() error {
+		return a.rt.runTxPostAuthenticationChain(tx)
+	})
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
-	// start delivering transitions
-	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
-		if err != nil {
-			return errors.ToABCIResponse(0, 0, err)
+	// start delivering transitions, either all of them are executed or none
+	err = a.rt.atomic(func() error {
+		for _, transition := range tx.StateTransitions() {
+			err := a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+			if err != nil {
+				return err
+			}
 		}
+		return nil
+	})
+	if err != nil {
+		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write cache
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index 9cdd050..db42d80 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -10,6 +10,7 @@ import (
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/authorization"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/module"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"github.com/fdymylja/tmos/runtime/orm/indexes"
@@ -284,11 +285,13 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := newKV("objects")
+	okv := kv.NewJournal(newKV("objects"))
 	obj := objects.NewStore(okv)
-	idxKv := newKV("indexes")
+	idxKv := kv.NewJournal(newKV("indexes"))
 	idx := indexes.NewStore(idxKv)
 
+	b.rt.journals = []*kv.Journal{okv, idxKv}
+
 	b.store = orm.NewStore(obj, idx)
 
 	return nil
diff --git a/runtime/kv/journal.go b/runtime/kv/journal.go
new file mode 100644
index 0000000..888767a
--- /dev/null
+++ b/runtime/kv/journal.go
@@ -0,0 +1,68 @@
+package kv
+
+// NewJournal wraps the given KV in a Journal
+func NewJournal(kv KV) *Journal {
+	return &Journal{KV: kv}
+}
+
+// Journal is a KV whose writes can be undone. Only one writer is supported,
+// readers can be concurrent to it.
+type Journal struct {
+	KV
+	recording bool
+	undo      []undoEntry
+}
+
+// undoEntry is the value a key had before it was written
+type undoEntry struct {
+	key    []byte
+	value  []byte
+	exists bool
+}
+
+// Begin starts to record the writes
+func (j *Journal) Begin() {
+	j.recording = true
+	j.undo = nil
+}
+
+// Commit keeps the writes done since Begin
+func (j *Journal) Commit() {
+	j.recording = false
+	j.undo = nil
+}
+
+// Rollback undoes, last first, the writes done since Begin
+func (j *Journal) Rollback() {
+	for i := len(j.undo) - 1; i >= 0; i-- {
+		entry := j.undo[i]
+		if entry.exists {
+			j.KV.Set(entry.key, entry.value)
+		} else {
+			j.KV.Delete(entry.key)
+		}
+	}
+	j.Commit()
+}
+
+func (j *Journal) Set(key, value []byte) {
+	j.record(key)
+	j.KV.Set(key, value)
+}
+
+func (j *Journal) Delete(key []byte) (exists bool) {
+	j.record(key)
+	return j.KV.Delete(key)
+}
+
+func (j *Journal) record(key []byte) {
+	if !j.recording {
+		return
+	}
+	value, exists := j.KV.Get(key)
+	j.undo = append(j.undo, undoEntry{
+		key:    append([]byte(nil), key...),
+		value:  append([]byte(nil), value...),
+		exists: exists,
+	})
+}
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 3d491aa..ed1ecb5 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -40,8 +41,9 @@ type Runtime struct {
 	authorizer        authorization.Authorizer
 	authorizerEnabled bool
 
-	router *Router
-	store  orm.Store
+	router   *Router
+	store    orm.Store
+	journals []*kv.Journal // journals of the KVs underlying the store
 
 	services *ServiceGroup
 }
@@ -261,6 +263,22 @@ func (r *Runtime) runTxPostAuthenticationChain(tx authentication.Tx) error {
 	return nil
 }
 
+// atomic executes f, if it fails then none of the changes it did to the store is kept.
+func (r *Runtime) atomic(f func() error) error {
+	for _, journal := range r.journals {
+		journal.Begin()
+	}
+	err := f()
+	for _, journal := range r.journals {
+		if err != nil {
+			journal.Rollback()
+		} else {
+			journal.Commit()
+		}
+	}
+	return err
+}
+
 func (r *Runtime) authorized(attributes authorization.Attributes) error {
 	if !r.authorizerEnabled {
 		return nil
-- 
2.43.0


From 0073150977db72260265cf7aebe5ac31a04bd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 29/32] fix: objects and keys too big for the key-value store
 are refused

They made the node panic: for instance a transaction creating an account whose
address has more than 65000 bytes.
---
 runtime/orm/objects/store.go | 25 +++++++++++++++++++------
 runtime/orm/store.go         | 25 +++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/runtime/orm/objects/store.go b/runtime/orm/objects/store.go
index e1abd07..19f3bce 100644
--- a/runtime/orm/objects/store.go
+++ b/runtime/orm/objects/store.go
@@ -16,15 +16,22 @@ var marshalOptions = proto.MarshalOptions{
 
 var unmarshalOptions = proto.UnmarshalOptions{}
 
-func marshal(o proto.Message) []byte {
+// maxObjectSize is the maximum size of a saved object, the underlying kv.KV
+// can not save bigger ones.
+const maxObjectSize = 8 << 20
+
+func marshal(o proto.Message) ([]byte, error) {
 	if len(o.ProtoReflect().GetUnknown()) != 0 {
-		panic(fmt.Errorf("object with unknown during marshal: %s", o))
+		return nil, fmt.Errorf("orm: object %s has unknown fields", o.ProtoReflect().Descriptor().FullName())
 	}
 	b, err := marshalOptions.Marshal(o)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("orm: unable to marshal object: %w", err)
+	}
+	if len(b) > maxObjectSize {
+		return nil, fmt.Errorf("orm: object %s is too big: %d bytes", o.ProtoReflect().Descriptor().FullName(), len(b))
 	}
-	return b
+	return b, nil
 }
 
 func unmarshal(b []byte, target proto.Message) {
@@ -57,7 +64,10 @@ func (s *Store) Create(sch *schema.Schema, object meta.StateObject) error {
 		return fmt.Errorf("%w: %s", orm.ErrAlreadyExists, primaryKey)
 	}
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(primaryKey, objBytes)
 	return nil
 }
@@ -86,7 +96,10 @@ func (s *Store) Update(sch *schema.Schema, object meta.StateObject) error {
 	}
 
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(key, objBytes)
 	return nil
 }
diff --git a/runtime/orm/store.go b/runtime/orm/store.go
index 4a7db5e..a52afc4 100644
--- a/runtime/orm/store.go
+++ b/runtime/orm/store.go
@@ -61,6 +61,10 @@ func (s Store) Create(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	err = checkKeys(sch, object)
+	if err != nil {
+		return err
+	}
 	// create object
 	err = s.objects.Create(sch, object)
 	if err != nil {
@@ -87,6 +91,10 @@ func (s Store) Update(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	err = checkKeys(sch, object)
+	if err != nil {
+		return err
+	}
 	// update object
 	err = s.objects.Update(sch, object)
 	if err != nil {
@@ -101,6 +109,23 @@ func (s Store) Update(object meta.StateObject) error {
 	return nil
 }
 
+// maxKeySize is the maximum size of primary keys and indexed fields: keys of the
+// underlying kv.KV are made of both and their size is limited too.
+const maxKeySize = 16 << 10
+
+// checkKeys asserts that the keys of the object can be saved
+func checkKeys(sch *schema.Schema, object meta.StateObject) error {
+	if len(sch.EncodePrimaryKey(object)) > maxKeySize {
+		return fmt.Errorf("orm: primary key of %s is too long", sch.Name())
+	}
+	for _, index := range sch.Indexes() {
+		if len(index.MustEncodeFromObject(object)) > maxKeySize {
+			return fmt.Errorf("orm: indexed field %s of %s is too long", index.Name(), sch.Name())
+		}
+	}
+	return nil
+}
+
 func (s Store) Delete(object meta.StateObject) error {
 	sch, err := s.schemas.Get(object)
 	if err != nil {
-- 
2.43.0


From 010905c5adcd86f3abbb02fac90ded894775cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 30/32] fix: amounts with a fractional part are errors

The fraction was dropped silently, so a transfer moved less than the stated amount.
---
 core/coin/v1alpha1/coin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index c7d63d9..68572e8 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -25,6 +25,9 @@ func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
 		return nil, err
 	}
 	for _, c := range decCoins {
+		if !c.Amount.IsInteger() {
+			return nil, fmt.Errorf("amount of %s is not an integer", c.Denom)
+		}
 		if amount := new(big.Int).Quo(c.Amount.BigInt(), types.OneDec().BigInt()); amount.BitLen() > maxAmountBits {
 			return nil, fmt.Errorf("amount of %s out of range", c.Denom)
 		}
-- 
2.43.0


From 678a2038dbae8c400cc525079664179c418d78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:30 +0000
Subject: [PATCH 31/32] fix: access control of a transition is not taken from
 another package

---
 core/rbac/rbac_applier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 02a221c..36f91d3 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -151,7 +151,8 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 	var md protoreflect.MessageDescriptor
 	for _, fd := range fds {
 		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
+		// dependencies can contain messages of the same name in other packages
+		if got != nil && got.FullName() == protoreflect.FullName(std.ProtobufFullname) {
 			md = got
 			break
 		}
-- 
2.43.0


From 76ef11dbfb033ee2871ade344138ad360d29c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:03 +0000
Subject: [PATCH 32/32] verif: seams name no private fields, so renaming these
 does not break simulation builds

---
 core/apiserver/module.go      | 2 +-
 core/apiserver/serve.go       | 7 ++++---
 core/apiserver/serve_verif.go | 4 ++--
 runtime/kv/options_verif.go   | 5 -----
 4 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index 7715b4e..8ebbebf 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -67,7 +67,7 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
-	a.serve(mux)
+	a.server = serve(mux)
 
 	return nil
 }
diff --git a/core/apiserver/serve.go b/core/apiserver/serve.go
index dfb9612..babfe75 100644
--- a/core/apiserver/serve.go
+++ b/core/apiserver/serve.go
@@ -10,12 +10,13 @@ import (
 )
 
 // serve starts serving the handler in the background.
-func (a *apiServer) serve(handler http.Handler) {
-	a.server = &http.Server{Handler: handler, Addr: ":8080"} // TODO configurable
+func serve(handler http.Handler) *http.Server {
+	server := &http.Server{Handler: handler, Addr: ":8080"} // TODO configurable
 	go func() {
-		err := a.server.ListenAndServe()
+		err := server.ListenAndServe()
 		if err != nil {
 			klog.ErrorS(err, "whilst serving")
 		}
 	}()
+	return server
 }
diff --git a/core/apiserver/serve_verif.go b/core/apiserver/serve_verif.go
index f4fe158..cbcaf60 100644
--- a/core/apiserver/serve_verif.go
+++ b/core/apiserver/serve_verif.go
@@ -9,9 +9,9 @@ import "net/http"
 // to a socket. It exists only in simulation builds (build tag verif).
 var OnServe func(handler http.Handler)
 
-func (a *apiServer) serve(handler http.Handler) {
-	a.server = &http.Server{Handler: handler}
+func serve(handler http.Handler) *http.Server {
 	if OnServe != nil {
 		OnServe(handler)
 	}
+	return &http.Server{Handler: handler}
 }
diff --git a/runtime/kv/options_verif.go b/runtime/kv/options_verif.go
index 875a183..abaefa0 100644
--- a/runtime/kv/options_verif.go
+++ b/runtime/kv/options_verif.go
@@ -16,8 +16,3 @@ func badgerOptions() badger.Options {
 	}
 	return opts
 }
-
-// Close releases the database: the simulator opens thousands of them in one process.
-func (b *Badger) Close() error {
-	return b.db.Close()
-}
-- 
2.43.0

