From c4291cc8db32a297d38073a6037e9d243536369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 01/23] fix: return the key of a verified response from
 Response.GetKey

GetKey was a stub returning nil, so clients reported an empty key for every
successful lookup and never pinned a binding.
---
 protocol/message.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..a0c7e33 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -302,7 +302,22 @@ func (msg *Response) Validate() error {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
+// If no key is bound to the name (i.e. the response proves the absence
+// of the name and doesn't include a temporary binding), GetKey() returns nil.
 func (msg *Response) GetKey() ([]byte, error) {
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+	ap := df.AP[len(df.AP)-1]
+	switch {
+	case ap.ProofType() == merkletree.ProofOfInclusion:
+		return ap.Leaf.Value, nil
+	case df.TB != nil:
+		return df.TB.Value, nil
+	}
 	return nil, nil
 }
-- 
2.43.0


From 783707712fc4fdad0ceeb71c83098de6a4ba9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 02/23] fix: reject malformed responses instead of panicking or
 accepting them

Incomplete proofs and STRs (null or missing parts, a level that doesn't
match the pruned tree, other response types) crashed clients and auditors.
Proof nodes with index or nonce of an unexpected length could present the
leaf of an included name as that of another index, i.e. forge absence, since
the node's hash is computed over the concatenation of its fields.
---
 application/encoding.go              |  2 +-
 merkletree/proof.go                  | 28 +++++++++++++++++++++++++++-
 protocol/auditlog/auditlog.go        | 15 +++++++++++++--
 protocol/auditor/auditor.go          |  5 ++++-
 protocol/client/consistencychecks.go |  7 ++++++-
 protocol/message.go                  | 22 +++++++++++++++++++---
 protocol/str.go                      |  6 ++++++
 7 files changed, 76 insertions(+), 9 deletions(-)

diff --git a/application/encoding.go b/application/encoding.go
index 2f9ce85..2261b3b 100644
--- a/application/encoding.go
+++ b/application/encoding.go
@@ -91,7 +91,7 @@ func UnmarshalResponse(t int, msg []byte) *protocol.Response {
 			Error:             res.Error,
 			DirectoryResponse: response,
 		}
-	case protocol.STRType:
+	case protocol.AuditType, protocol.STRType:
 		response := new(protocol.STRHistoryRange)
 		if err := json.Unmarshal(res.DirectoryResponse, &response); err != nil {
 			return &protocol.Response{
diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..99ced96 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 
 	"github.com/coniks-sys/coniks-go/crypto"
+	"github.com/coniks-sys/coniks-go/crypto/vrf"
 	"github.com/coniks-sys/coniks-go/utils"
 )
 
@@ -20,6 +21,9 @@ var (
 	// ErrUnequalTreeHashes indicates that the hash computed from the authentication path
 	// and the hash taken from the signed tree root are different.
 	ErrUnequalTreeHashes = errors.New("[merkletree] The hashes computed from the authentication path and the STR are unequal")
+	// ErrMalformedProof indicates that the proof is incomplete, or that
+	// any of its parts doesn't have the expected length.
+	ErrMalformedProof = errors.New("[merkletree] Malformed authentication path")
 )
 
 // ProofNode can be a user node or an empty node,
@@ -97,6 +101,25 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
+// WellFormed returns true iff ap is complete and all of its parts have
+// the expected lengths. Since the hash of a proof node is computed over the
+// concatenation of its fields, ap isn't bound to the tree root otherwise.
+func (ap *AuthenticationPath) WellFormed() bool {
+	if ap == nil || ap.Leaf == nil ||
+		len(ap.TreeNonce) != crypto.HashSizeByte ||
+		len(ap.LookupIndex) != vrf.Size ||
+		len(ap.PrunedTree) != int(ap.Leaf.Level) ||
+		len(ap.PrunedTree) > 8*vrf.Size {
+		return false
+	}
+	if ap.Leaf.IsEmpty {
+		return len(ap.Leaf.Index) == (int(ap.Leaf.Level)+7)/8
+	}
+	return len(ap.Leaf.Index) == vrf.Size &&
+		ap.Leaf.Commitment != nil &&
+		len(ap.Leaf.Commitment.Value) == crypto.HashSizeByte
+}
+
 // Verify first compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
@@ -108,6 +131,9 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if !ap.WellFormed() {
+		return ErrMalformedProof
+	}
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
@@ -127,7 +153,7 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 		if !bytes.Equal(ap.Leaf.Value, value) {
 			return ErrBindingsDiffer
 		}
-		if !ap.Leaf.Commitment.Verify(key, value) {
+		if ap.Leaf.IsEmpty || !ap.Leaf.Commitment.Verify(key, value) {
 			return ErrUnverifiableCommitment
 		}
 	}
diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..259587d 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
@@ -126,7 +129,15 @@ func (l ConiksAuditLog) get(dirInitHash [crypto.HashSizeByte]byte) (*directoryHi
 func (l ConiksAuditLog) InitHistory(addr string, signKey sign.PublicKey,
 	snaps []*protocol.DirSTR) error {
 	// make sure we're getting an initial STR at the very least
-	if len(snaps) < 1 || snaps[0].Epoch != 0 {
+	if len(snaps) < 1 {
+		return protocol.ErrMalformedMessage
+	}
+	for _, snap := range snaps {
+		if !snap.WellFormed() {
+			return protocol.ErrMalformedMessage
+		}
+	}
+	if snaps[0].Epoch != 0 {
 		return protocol.ErrMalformedMessage
 	}
 
diff --git a/protocol/auditor/auditor.go b/protocol/auditor/auditor.go
index d6e2f0b..2ac1bfb 100644
--- a/protocol/auditor/auditor.go
+++ b/protocol/auditor/auditor.go
@@ -87,6 +87,9 @@ func (a *AudState) verifySTRConsistency(prevSTR, str *protocol.DirSTR) error {
 // or str's epoch is anything other than the same or one ahead of
 // a.verifiedSTR.
 func (a *AudState) CheckSTRAgainstVerified(str *protocol.DirSTR) error {
+	if !str.WellFormed() {
+		return protocol.ErrMalformedMessage
+	}
 	// FIXME: check whether the STR was issued on time and whatnot.
 	// Maybe it has something to do w/ #81 and client
 	// transitioning between epochs.
@@ -117,7 +120,7 @@ func (a *AudState) VerifySTRRange(prevSTR *protocol.DirSTR, strs []*protocol.Dir
 	prev := prevSTR
 	for i := 0; i < len(strs); i++ {
 		str := strs[i]
-		if str == nil {
+		if !str.WellFormed() {
 			return protocol.ErrMalformedMessage
 		}
 
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..c338c1e 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
@@ -225,6 +228,8 @@ func verifyAuthPath(uname string, key []byte, ap *merkletree.AuthenticationPath,
 		return protocol.CheckBadLookupIndex
 	case merkletree.ErrUnequalTreeHashes:
 		return protocol.CheckBadAuthPath
+	case merkletree.ErrMalformedProof:
+		return protocol.ErrMalformedMessage
 	case nil:
 		return nil
 	default:
diff --git a/protocol/message.go b/protocol/message.go
index a0c7e33..e019b15 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,18 +278,34 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || len(df.AP) == 0 || !validSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
+		for _, ap := range df.AP {
+			if !ap.WellFormed() {
+				return ErrMalformedMessage
+			}
+		}
 		return nil
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || !validSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
 		return nil
 	default:
-		panic("[coniks] Malformed response")
+		return ErrMalformedMessage
+	}
+}
+
+// validSTRs returns true iff strs isn't empty and all
+// of its signed tree roots are well-formed.
+func validSTRs(strs []*DirSTR) bool {
+	for _, str := range strs {
+		if !str.WellFormed() {
+			return false
+		}
 	}
+	return len(strs) > 0
 }
 
 // GetKey returns the key extracted from
diff --git a/protocol/str.go b/protocol/str.go
index db92f96..7ad6d25 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -26,3 +26,9 @@ func (str *DirSTR) Serialize() []byte {
 func (str *DirSTR) VerifyHashChain(savedSTR *DirSTR) bool {
 	return str.SignedTreeRoot.VerifyHashChain(savedSTR.SignedTreeRoot)
 }
+
+// WellFormed returns false if any part of str is missing, which can be
+// the case for an STR unmarshalled from a malformed message.
+func (str *DirSTR) WellFormed() bool {
+	return str != nil && str.SignedTreeRoot != nil && str.Policies != nil
+}
-- 
2.43.0


From 1ac18bbc4ec8be25eca840ab9fbc46286f2c0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 03/23] fix: expect a commitment salt of fixed length in proofs
 of inclusion

The commitment hashes salt, name and key without framing, so a directory
could open the commitment to a key containing the user's name as a
commitment to a suffix of that key.
---
 merkletree/proof.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 99ced96..94bf3af 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -153,7 +153,12 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 		if !bytes.Equal(ap.Leaf.Value, value) {
 			return ErrBindingsDiffer
 		}
-		if ap.Leaf.IsEmpty || !ap.Leaf.Commitment.Verify(key, value) {
+		// The commitment is computed over the concatenation of the salt,
+		// the key and the value: it can only be opened in a single way
+		// if the length of the salt is fixed.
+		if ap.Leaf.IsEmpty ||
+			len(ap.Leaf.Commitment.Salt) != crypto.HashSizeByte ||
+			!ap.Leaf.Commitment.Verify(key, value) {
 			return ErrUnverifiableCommitment
 		}
 	}
-- 
2.43.0


From 4023f136834830caebfa7fcbdfd3271d102d562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 04/23] fix: report contradictions of earlier promises and
 bindings in the client

A held promise was only compared with a later proof of inclusion: proving the
name absent, issuing another promise in a later epoch or promising another
key in the same epoch went unnoticed. The pinned key was neither used unless
passed by the caller nor kept when the directory denied the name. Additional
authentication paths or STRs in a response were ignored without being verified.
---
 protocol/client/consistencychecks.go | 74 +++++++++++++++++++---------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index c338c1e..f20a062 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -118,13 +118,23 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateSTR(requestType, msg); err != nil {
 		return err
 	}
+	if key == nil {
+		// the key is already known if this isn't the first lookup
+		key = cc.Bindings[uname]
+	}
 	if err := cc.checkConsistency(requestType, msg, uname, key); err != nil {
 		return err
 	}
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
+	if msg.Error == protocol.ReqNameNotFound {
+		return nil
+	}
 	recvKey, _ := msg.GetKey()
+	if pinned := cc.Bindings[uname]; pinned != nil && !bytes.Equal(recvKey, pinned) {
+		return protocol.CheckBindingsDiffer
+	}
 	cc.Bindings[uname] = recvKey
 	return nil
 }
@@ -168,8 +178,9 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -188,8 +199,9 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
+	if len(df.AP) != 1 || len(df.STR) != 1 {
+		return protocol.ErrMalformedMessage
+	}
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -243,34 +255,28 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 		return nil
 	}
 	switch requestType {
-	case protocol.RegistrationType:
-		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-		if df.AP[0].ProofType() == merkletree.ProofOfAbsence {
-			if err := cc.verifyReturnedPromise(df, key); err != nil {
-				return err
-			}
-			cc.TBs[uname] = df.TB
-		}
-		return nil
-
-	case protocol.KeyLookupType:
+	case protocol.RegistrationType, protocol.KeyLookupType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
 		ap := df.AP[0]
 		str := df.STR[0]
-		proofType := ap.ProofType()
-		switch {
-		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfInclusion:
+		if ap.ProofType() == merkletree.ProofOfInclusion {
 			if err := cc.verifyFulfilledPromise(uname, str, ap); err != nil {
 				return err
 			}
 			delete(cc.TBs, uname)
+			return nil
+		}
 
-		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence:
-			if err := cc.verifyReturnedPromise(df, key); err != nil {
-				return err
-			}
-			cc.TBs[uname] = df.TB
+		if msg.Error == protocol.ReqNameNotFound {
+			return cc.verifyAbsence(uname, str, nil)
+		}
+		if err := cc.verifyReturnedPromise(df, key); err != nil {
+			return err
+		}
+		if err := cc.verifyAbsence(uname, str, df.TB); err != nil {
+			return err
 		}
+		cc.TBs[uname] = df.TB
 
 	default:
 		panic("[coniks] Unknown request type")
@@ -292,6 +298,28 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyAbsence verifies that a proof of absence returned with the promise
+// returnedTB (nil if none) doesn't contradict what the directory returned
+// before. A name may only be absent after the directory promised
+// to insert its binding in the epoch the TB was issued in, i.e. if the TB
+// was signed together with the current STR's signature, and the directory
+// then has to return the promise again. A binding which was
+// already included never gets removed from the directory.
+func (cc *ConsistencyChecks) verifyAbsence(uname string, str *protocol.DirSTR,
+	returnedTB *protocol.TemporaryBinding) error {
+	tb, ok := cc.TBs[uname]
+	switch {
+	case !ok && cc.Bindings[uname] != nil:
+		return protocol.CheckBindingsDiffer
+	case !ok:
+		return nil
+	case returnedTB == nil || !bytes.Equal(returnedTB.Value, tb.Value) ||
+		!cc.Verify(tb.Serialize(str.Signature), tb.Signature):
+		return protocol.CheckBrokenPromise
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From 6d2e20591f4c0c4f3c83d997aa29f47a214c0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 05/23] fix: run the epoch timer with the deadline announced in
 the policies

The timer used the top-level epoch_deadline of the configuration, which
'coniksserver init' doesn't write: the server updated the directory in a busy
loop, while its STRs announce the deadline of the policies.
---
 application/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/application/server/server.go b/application/server/server.go
index 89050e7..0b6286a 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -62,7 +62,7 @@ func NewConiksServer(conf *Config) *ConiksServer {
 			conf.Policies.signKey,
 			conf.LoadedHistoryLength,
 			true),
-		epochTimer: application.NewEpochTimer(conf.EpochDeadline),
+		epochTimer: application.NewEpochTimer(conf.Policies.EpochDeadline),
 	}
 
 	// save the initial STR to be used for initializing auditors
-- 
2.43.0


From 30c5269aafd789ab4e7acbf68f14485cc8645e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 06/23] fix: apply a reloaded epoch deadline to the epoch timer

After a reload of the policies the STRs announce the new deadline, but the
directory was still updated at the interval configured when the server started.
---
 application/server/server.go | 9 ++++++++-
 application/serverbase.go    | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/application/server/server.go b/application/server/server.go
index 0b6286a..ca73617 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -105,7 +105,7 @@ func (server *ConiksServer) HandleRequests(req *protocol.Request) *protocol.Resp
 // permissions.
 func (server *ConiksServer) Run(addrs []*Address) {
 	server.RunInBackground(func() {
-		server.EpochUpdate(server.epochTimer, server.dir.Update)
+		server.EpochUpdate(server.epochTimer, server.updateDirectory)
 	})
 
 	hasRegistrationPerm := false
@@ -128,6 +128,13 @@ func (server *ConiksServer) Run(addrs []*Address) {
 	})
 }
 
+// updateDirectory starts a new epoch, which lasts as long as
+// announced in the policies of the new epoch's STR.
+func (server *ConiksServer) updateDirectory() {
+	server.dir.Update()
+	server.epochTimer.SetDeadline(server.dir.EpochDeadline())
+}
+
 func (server *ConiksServer) updatePolicies() {
 	// read server policies from config file
 	conf := &Config{}
diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..63b8ba2 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -30,6 +30,12 @@ func NewEpochTimer(epDeadline protocol.Timestamp) *EpochTimer {
 	}
 }
 
+// SetDeadline sets the epoch deadline value
+// used when the timer is reset for the next epoch.
+func (timer *EpochTimer) SetDeadline(epDeadline protocol.Timestamp) {
+	timer.duration = time.Duration(epDeadline) * time.Second
+}
+
 // A ServerAddress describes a server's connection.
 // It supports two types of connections: a TCP connection ("tcp")
 // and a Unix socket connection ("unix").
-- 
2.43.0


From 9ba488003eda43d14bb406553387dd739e347a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 07/23] fix: answer requests for evicted STRs with ErrDirectory

GetSTRHistory dereferenced the missing snapshot and crashed.
---
 protocol/directory/directory.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..ec6875f 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -337,8 +337,12 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			// evicted from memory
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From 04451bd7f03eada6f040b0643962cc897b21844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 08/23] fix: reject incomplete or unusable server
 configurations

A SIGUSR2 while the configuration was missing one of its sections (e.g.
being written) crashed the server, and an epoch deadline of 0 or one that
overflows time.Duration made it update the directory in a busy loop.
---
 application/server/config.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..4dbbac4 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -3,6 +3,8 @@ package server
 import (
 	"fmt"
 	"io/ioutil"
+	"math"
+	"time"
 
 	"github.com/coniks-sys/coniks-go/application"
 	"github.com/coniks-sys/coniks-go/crypto/sign"
@@ -11,6 +13,10 @@ import (
 	"github.com/coniks-sys/coniks-go/utils"
 )
 
+// maxEpochDeadline is the largest epoch deadline in seconds
+// that can be represented as a time.Duration.
+const maxEpochDeadline = protocol.Timestamp(math.MaxInt64 / time.Second)
+
 // A Config contains configuration values
 // which are read at initialization time from
 // a TOML format configuration file.
@@ -58,6 +64,9 @@ func (conf *Config) Load(file, encoding string) error {
 	if err := conf.GetLoader().Decode(conf); err != nil {
 		return err
 	}
+	if err := conf.validate(); err != nil {
+		return err
+	}
 
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
@@ -92,6 +101,28 @@ func (conf *Config) Load(file, encoding string) error {
 	return nil
 }
 
+// validate returns an error if a part of the configuration that the
+// server can't run without is missing or unusable, which can also be the
+// case if the file is read while it's being written.
+func (conf *Config) validate() error {
+	if conf.Policies == nil {
+		return fmt.Errorf("Missing policies")
+	}
+	if deadline := conf.Policies.EpochDeadline; deadline < 1 || deadline > maxEpochDeadline {
+		return fmt.Errorf("Epoch deadline must be between 1 and %d seconds (got %d)",
+			maxEpochDeadline, deadline)
+	}
+	for _, addr := range conf.Addresses {
+		if addr.ServerAddress == nil {
+			return fmt.Errorf("Missing address")
+		}
+	}
+	if conf.Logger == nil {
+		return fmt.Errorf("Missing logger configuration")
+	}
+	return nil
+}
+
 // Save writes a server's configuration.
 func (conf *Config) Save() error {
 	return conf.GetLoader().Encode(conf)
-- 
2.43.0


From fdf61a854ff31933c4a87771e023ff2f340be52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 09/23] fix: return an error for incomplete initial STRs

LoadInitSTR crashed if a part of the STR was missing.
---
 application/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..a4410ac 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if !initSTR.WellFormed() {
+		return nil, fmt.Errorf("Malformed initial STR")
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
-- 
2.43.0


From f5b626e5258251f9482507a228720f16182b101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 10/23] fix: never overwrite existing files or leave incomplete
 ones in WriteFile

---
 utils/utils.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index fe18400..26b17e6 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,7 +3,6 @@ package utils
 import (
 	"encoding/binary"
 	"fmt"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 )
@@ -42,16 +41,30 @@ func UInt32ToBytes(num uint32) []byte {
 }
 
 // WriteFile writes buf to a file whose path is indicated by filename.
+// It never overwrites an existing file, and doesn't leave
+// an incomplete file behind if it fails to write buf.
+// When it returns successfully, buf is on stable storage.
 func WriteFile(filename string, buf []byte, perm os.FileMode) error {
-	if _, err := os.Stat(filename); err == nil {
+	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if os.IsExist(err) {
 		return fmt.Errorf("Can't write file. File '%s' already exists\n",
 			filename)
 	}
-
-	if err := ioutil.WriteFile(filename, buf, perm); err != nil {
+	if err != nil {
 		return err
 	}
-	return nil
+
+	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		os.Remove(filename)
+	}
+	return err
 }
 
 // ResolvePath returns the absolute path of file.
-- 
2.43.0


From c37537b411eb5b20c2fe4ae5c519d9786b338cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 11/23] fix: shut down gracefully when interrupted right after
 startup

---
 cli/coniksserver/internal/cmd/run.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/coniksserver/internal/cmd/run.go b/cli/coniksserver/internal/cmd/run.go
index 36fb2fe..35f34fe 100644
--- a/cli/coniksserver/internal/cmd/run.go
+++ b/cli/coniksserver/internal/cmd/run.go
@@ -41,10 +41,11 @@ func run(cmd *cobra.Command, args []string) {
 	}
 	serv := server.NewConiksServer(conf)
 
-	// run the server until receiving an interrupt signal
-	serv.Run(conf.Addresses)
+	// run the server until receiving an interrupt signal,
+	// which may arrive as soon as the server is listening
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt)
+	serv.Run(conf.Addresses)
 	<-ch
 	serv.Shutdown()
 }
-- 
2.43.0


From 9c7f3d4bb0c04cb9de18a60b6991abf3db5d21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 12/23] fix: reject a promise in a response that proves
 presence or reports no binding

---
 protocol/client/consistencychecks.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index f20a062..0f97b47 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -259,6 +259,11 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
 		ap := df.AP[0]
 		str := df.STR[0]
+		if df.TB != nil && (msg.Error == protocol.ReqNameNotFound ||
+			ap.ProofType() == merkletree.ProofOfInclusion) {
+			// there's nothing left to promise
+			return protocol.CheckBadPromise
+		}
 		if ap.ProofType() == merkletree.ProofOfInclusion {
 			if err := cc.verifyFulfilledPromise(uname, str, ap); err != nil {
 				return err
-- 
2.43.0


From a897e2d65d31052bc47faec9a312ecbe079e0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 13/23] fix: verify a directory's saved history before adding
 it to the audit log

---
 protocol/auditlog/auditlog.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index 259587d..5b9136e 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -125,7 +125,8 @@ func (l ConiksAuditLog) get(dirInitHash [crypto.HashSizeByte]byte) (*directoryHi
 // containing the pinned initial STR as well as the saved directory's
 // STR history so far, in chronological order.
 // InitHistory() returns an ErrAuditLog if the auditor attempts to create
-// a new history for a known directory, and nil otherwise.
+// a new history for a known directory, the appropriate error if snaps is
+// incomplete or isn't a verifiable hash chain, and nil otherwise.
 func (l ConiksAuditLog) InitHistory(addr string, signKey sign.PublicKey,
 	snaps []*protocol.DirSTR) error {
 	// make sure we're getting an initial STR at the very least
@@ -154,11 +155,15 @@ func (l ConiksAuditLog) InitHistory(addr string, signKey sign.PublicKey,
 	// create the new directory history
 	h = newDirectoryHistory(addr, signKey, snaps[0])
 
-	// TODO: re-verify all snaps although auditor should have
-	// already done so in the past? After all, if we have
-	// more than one snapshot, this means that the auditor is
-	// re-initializing its state from disk, and it wouldn't have
-	// saved those STRs if they didn't pass the Audit() checks.
+	// re-verify all snaps: although the auditor has already done so
+	// in the past if it is re-initializing its state from disk, the
+	// saved history may be damaged or incomplete.
+	if !h.Verify(snaps[0].Serialize(), snaps[0].Signature) {
+		return protocol.CheckBadSignature
+	}
+	if err := h.VerifySTRRange(snaps[0], snaps[1:]); err != nil {
+		return err
+	}
 	h.insertRange(snaps[1:])
 	l.set(dirInitHash, h)
 
-- 
2.43.0


From 8f2b5b181c2b8a63307d819ec867adfdcb4bc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 14/23] fix: leveldbkv: iterating over a range that starts
 after its limit panics

---
 storage/kv/leveldbkv/leveldbkv.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 6091727..1d60158 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -16,6 +16,7 @@
 package leveldbkv
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/coniks-sys/coniks-go/storage/kv"
@@ -68,7 +69,12 @@ func (db *leveldbkv) NewIterator(rg *kv.Range) kv.Iterator {
 	if rg == nil {
 		return (*leveldb.DB)(db).NewIterator(nil, nil)
 	}
-	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: rg.Limit}, nil)
+	limit := rg.Limit
+	if limit != nil && bytes.Compare(rg.Start, limit) > 0 {
+		// an empty range, which leveldb panics on
+		limit = rg.Start
+	}
+	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: limit}, nil)
 }
 
 func (db *leveldbkv) Close() error {
-- 
2.43.0


From ca1c5140d5df86a7550a572fda1ab6239420f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 15/23] fix: leveldbkv: a large batch can be lost after it was
 acknowledged

---
 storage/kv/leveldbkv/leveldbkv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 1d60158..3b355b4 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -28,8 +28,12 @@ import (
 type leveldbkv leveldb.DB
 
 func OpenDB(path string) kv.DB {
+	// Large batches go through the journal like all others: written as a
+	// transaction, a batch can be lost when the store is reopened, and a
+	// disk error then blocks all later writes forever.
+	o := &opt.Options{DisableLargeBatchTransaction: true}
 	// open db & keep it open
-	db, err := leveldb.OpenFile(path, nil)
+	db, err := leveldb.OpenFile(path, o)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 0257897bdadc24f281947d0f805485a8e2377f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 16/23] fix: leveldbkv: writes acknowledged after a failed
 write are lost on reopening

---
 storage/kv/leveldbkv/leveldbkv.go | 42 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 3b355b4..d162e42 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -18,6 +18,7 @@ package leveldbkv
 import (
 	"bytes"
 	"fmt"
+	"sync"
 
 	"github.com/coniks-sys/coniks-go/storage/kv"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -25,7 +26,11 @@ import (
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
-type leveldbkv leveldb.DB
+type leveldbkv struct {
+	*leveldb.DB
+	mu     sync.Mutex // serializes writes
+	failed error      // of the first write that failed
+}
 
 func OpenDB(path string) kv.DB {
 	// Large batches go through the journal like all others: written as a
@@ -42,19 +47,36 @@ func OpenDB(path string) kv.DB {
 
 // Wrap uses a leveldb.DB as a kv.DB the obvious way (and with Sync:true).
 func Wrap(db *leveldb.DB) kv.DB {
-	return (*leveldbkv)(db)
+	return &leveldbkv{DB: db}
 }
 
 func (db *leveldbkv) Get(key []byte) ([]byte, error) {
-	return (*leveldb.DB)(db).Get(key, nil)
+	return db.DB.Get(key, nil)
+}
+
+// write performs one write at a time, and none after one has failed: what
+// the failed one left in the journal makes leveldb skip its successors when
+// the store is reopened.
+func (db *leveldbkv) write(f func(wo *opt.WriteOptions) error) error {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	if db.failed != nil {
+		return db.failed
+	}
+	db.failed = f(&opt.WriteOptions{Sync: true})
+	return db.failed
 }
 
 func (db *leveldbkv) Put(key, value []byte) error {
-	return (*leveldb.DB)(db).Put(key, value, &opt.WriteOptions{Sync: true})
+	return db.write(func(wo *opt.WriteOptions) error {
+		return db.DB.Put(key, value, wo)
+	})
 }
 
 func (db *leveldbkv) Delete(key []byte) error {
-	return (*leveldb.DB)(db).Delete(key, &opt.WriteOptions{Sync: true})
+	return db.write(func(wo *opt.WriteOptions) error {
+		return db.DB.Delete(key, wo)
+	})
 }
 
 func (db *leveldbkv) NewBatch() kv.Batch {
@@ -66,23 +88,25 @@ func (db *leveldbkv) Write(b kv.Batch) error {
 	if !ok {
 		return fmt.Errorf("leveldbkv.Write: expected *leveldb.Batch, got %T", b)
 	}
-	return (*leveldb.DB)(db).Write(wb, &opt.WriteOptions{Sync: true})
+	return db.write(func(wo *opt.WriteOptions) error {
+		return db.DB.Write(wb, wo)
+	})
 }
 
 func (db *leveldbkv) NewIterator(rg *kv.Range) kv.Iterator {
 	if rg == nil {
-		return (*leveldb.DB)(db).NewIterator(nil, nil)
+		return db.DB.NewIterator(nil, nil)
 	}
 	limit := rg.Limit
 	if limit != nil && bytes.Compare(rg.Start, limit) > 0 {
 		// an empty range, which leveldb panics on
 		limit = rg.Start
 	}
-	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: limit}, nil)
+	return db.DB.NewIterator(&util.Range{Start: rg.Start, Limit: limit}, nil)
 }
 
 func (db *leveldbkv) Close() error {
-	return (*leveldb.DB)(db).Close()
+	return db.DB.Close()
 }
 
 func (db *leveldbkv) ErrNotFound() error {
-- 
2.43.0


From a6a5b904c9b74ff12b7a196aead6c3e9d5a001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 17/23] fix: leveldbkv: power loss or a disk error while
 opening makes the store unreadable

---
 storage/kv/leveldbkv/leveldbkv.go | 55 +++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index d162e42..c9df2c4 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -23,6 +23,7 @@ import (
 	"github.com/coniks-sys/coniks-go/storage/kv"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/opt"
+	"github.com/syndtr/goleveldb/leveldb/storage"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -30,6 +31,43 @@ type leveldbkv struct {
 	*leveldb.DB
 	mu     sync.Mutex // serializes writes
 	failed error      // of the first write that failed
+	stor   storage.Storage
+}
+
+// syncedStorage makes the manifest durable before it becomes the current
+// one; leveldb itself only does so afterwards, and a power loss in between
+// would make the store unreadable. It also keeps a manifest that may have
+// become the current one although SetMeta failed, which leveldb removes.
+type syncedStorage struct {
+	storage.Storage
+	manifest storage.Writer
+	keep     bool
+}
+
+func (s *syncedStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
+	w, err := s.Storage.Create(fd)
+	if err == nil && fd.Type == storage.TypeManifest {
+		s.manifest = w
+	}
+	return w, err
+}
+
+func (s *syncedStorage) SetMeta(fd storage.FileDesc) error {
+	if s.manifest != nil {
+		if err := s.manifest.Sync(); err != nil {
+			return err
+		}
+	}
+	err := s.Storage.SetMeta(fd)
+	s.keep = err != nil
+	return err
+}
+
+func (s *syncedStorage) Remove(fd storage.FileDesc) error {
+	if s.keep && fd.Type == storage.TypeManifest {
+		return nil
+	}
+	return s.Storage.Remove(fd)
 }
 
 func OpenDB(path string) kv.DB {
@@ -38,11 +76,16 @@ func OpenDB(path string) kv.DB {
 	// disk error then blocks all later writes forever.
 	o := &opt.Options{DisableLargeBatchTransaction: true}
 	// open db & keep it open
-	db, err := leveldb.OpenFile(path, o)
+	stor, err := storage.OpenFile(path, false)
 	if err != nil {
 		panic(err)
 	}
-	return Wrap(db)
+	db, err := leveldb.Open(&syncedStorage{Storage: stor}, o)
+	if err != nil {
+		stor.Close()
+		panic(err)
+	}
+	return &leveldbkv{DB: db, stor: stor}
 }
 
 // Wrap uses a leveldb.DB as a kv.DB the obvious way (and with Sync:true).
@@ -106,7 +149,13 @@ func (db *leveldbkv) NewIterator(rg *kv.Range) kv.Iterator {
 }
 
 func (db *leveldbkv) Close() error {
-	return db.DB.Close()
+	err := db.DB.Close()
+	if db.stor != nil {
+		if err1 := db.stor.Close(); err == nil {
+			err = err1
+		}
+	}
+	return err
 }
 
 func (db *leveldbkv) ErrNotFound() error {
-- 
2.43.0


From a8d55db3c8696a5d34b13db2fa7414c2c150eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 18/23] fix: coniksserver init: --cert overwrites an existing
 certificate, new private keys are paired with an existing public key

---
 cli/coniksserver/internal/cmd/init.go | 30 ++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 198f9cc..f859495 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"log"
+	"os"
 	"path"
 	"strconv"
 
@@ -32,7 +33,28 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 
 	cert, err := strconv.ParseBool(cmd.Flag("cert").Value.String())
 	if err == nil && cert {
-		testutil.CreateTLSCert(dir)
+		mkTLSCert(dir)
+	}
+}
+
+// noneExists returns true only if it is certain that none of the given
+// files exists in dir.
+func noneExists(dir string, files ...string) bool {
+	for _, file := range files {
+		if _, err := os.Lstat(path.Join(dir, file)); !os.IsNotExist(err) {
+			log.Printf("Not writing %s: it may already exist\n", path.Join(dir, file))
+			return false
+		}
+	}
+	return true
+}
+
+func mkTLSCert(dir string) {
+	if !noneExists(dir, "server.pem", "server.key") {
+		return
+	}
+	if err := testutil.CreateTLSCert(dir); err != nil {
+		log.Println(err)
 	}
 }
 
@@ -75,6 +97,9 @@ func mkConfig(dir string) {
 }
 
 func mkSigningKey(dir string) {
+	if !noneExists(dir, "sign.priv", "sign.pub") {
+		return
+	}
 	sk, err := sign.GenerateKey(nil)
 	if err != nil {
 		log.Print(err)
@@ -92,6 +117,9 @@ func mkSigningKey(dir string) {
 }
 
 func mkVrfKey(dir string) {
+	if !noneExists(dir, "vrf.priv", "vrf.pub") {
+		return
+	}
 	sk, err := vrf.GenerateKey(nil)
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From 0a8a890bbf6b5e54e7ba0bf5adcca1472eeda557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 19/23] fix: utils: power loss while writing a file leaves a
 torn key or root under its final name

---
 utils/utils.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 26b17e6..40dc5bf 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,8 +3,10 @@ package utils
 import (
 	"encoding/binary"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 )
 
 // GetNthBit finds the bit in the byte array bs
@@ -43,8 +45,11 @@ func UInt32ToBytes(num uint32) []byte {
 // WriteFile writes buf to a file whose path is indicated by filename.
 // It never overwrites an existing file, and doesn't leave
 // an incomplete file behind if it fails to write buf.
+// If it's interrupted, even by a power loss, the file is either absent,
+// empty or complete.
 // When it returns successfully, buf is on stable storage.
 func WriteFile(filename string, buf []byte, perm os.FileMode) error {
+	// reserve the name
 	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
 	if os.IsExist(err) {
 		return fmt.Errorf("Can't write file. File '%s' already exists\n",
@@ -53,18 +58,57 @@ func WriteFile(filename string, buf []byte, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	if err = f.Close(); err == nil {
+		err = replaceFile(filename, buf)
+	}
+	if err != nil {
+		os.Remove(filename)
+	}
+	return err
+}
 
+// replaceFile atomically replaces the content of an existing file with buf.
+func replaceFile(filename string, buf []byte) error {
+	info, err := os.Stat(filename)
+	if err != nil {
+		return err
+	}
+	dir := filepath.Dir(filename)
+	f, err := ioutil.TempFile(dir, "."+filepath.Base(filename)+".")
+	if err != nil {
+		return err
+	}
 	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Chmod(info.Mode())
+	}
 	if err == nil {
 		err = f.Sync()
 	}
 	if errClose := f.Close(); err == nil {
 		err = errClose
 	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
 	if err != nil {
-		os.Remove(filename)
+		os.Remove(f.Name())
+		return err
 	}
-	return err
+	return syncDir(dir)
+}
+
+// syncDir makes the directory entries of dir durable.
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" { // can't sync directories
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
 }
 
 // ResolvePath returns the absolute path of file.
-- 
2.43.0


From 2ee020f6e60aeeb38feb63e5f521709bf2ed51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 20/23] fix: bot: a key server that closes without answering is
 a directory error

An empty answer was sent to the user as is instead of an error.
---
 application/bots/bot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 4621e1e..4f51b84 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -49,6 +49,10 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
 		return nil, err
 	}
+	if buf.Len() == 0 {
+		// the server went away without answering
+		return nil, io.ErrUnexpectedEOF
+	}
 
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From 7eb37d8e5d93bd41427338c2cf6fc26340805fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 21/23] fix: bot: ignore direct message events without a
 message

The stream delivers these as nil messages, which crashed the bot.
---
 application/bots/twitterbot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/application/bots/twitterbot.go b/application/bots/twitterbot.go
index 53eade0..8bd7662 100644
--- a/application/bots/twitterbot.go
+++ b/application/bots/twitterbot.go
@@ -84,7 +84,8 @@ func NewTwitterBot(conf *TwitterConfig) (Bot, error) {
 func (bot *TwitterBot) Run() {
 	demux := twitter.NewSwitchDemux()
 	demux.DM = func(requestDM *twitter.DirectMessage) {
-		if strings.EqualFold(requestDM.SenderScreenName, bot.handle) {
+		if requestDM == nil || // an event without a message
+			strings.EqualFold(requestDM.SenderScreenName, bot.handle) {
 			return
 		}
 		var responseDM *twitter.DirectMessage
-- 
2.43.0


From fa43d1f467437d288d9c350d745937639cb5cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 22/23] fix: bot: start even if an old direct message cannot be
 deleted

NewTwitterBot tried to delete such a message for ever and the bot never
listened for requests.
---
 application/bots/twitterbot.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/application/bots/twitterbot.go b/application/bots/twitterbot.go
index 8bd7662..16216fb 100644
--- a/application/bots/twitterbot.go
+++ b/application/bots/twitterbot.go
@@ -196,11 +196,19 @@ func (bot *TwitterBot) deleteOldDMs() {
 			log.Println("[registration bot] Deleted all old DMs")
 			return
 		}
+		deleted := 0
 		for i := 0; i < len(dms); i++ {
 			_, _, err = bot.client.DirectMessages.Destroy(dms[i].ID, nil)
 			if err != nil {
 				log.Println("[registration bot] Could not remove Twitter bot's DM. Error: " + err.Error())
+				continue
 			}
+			deleted++
+		}
+		if deleted == 0 {
+			// trying again and again would keep the bot from running
+			log.Println("[registration bot] Could not delete all old DMs")
+			return
 		}
 	}
 }
-- 
2.43.0


From 519e77cf60bb6eae660aca3a6f044cb2d7ae393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 23/23] fix: bot: do not wait for ever for a stalled key server

The bot handles one request at a time, so one connection that is accepted
and never answered kept it from handling any later request.
---
 application/bots/bot.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 4f51b84..e9ffdc4 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -9,10 +9,14 @@ import (
 	"bytes"
 	"io"
 	"net"
+	"time"
 )
 
 const (
 	messagePrefix = "?CONIKS?"
+
+	// how long the CONIKS server may take to answer
+	serverTimeout = 30 * time.Second
 )
 
 // A Bot is a CONIKS registration proxy that verifies
@@ -38,6 +42,7 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 		return nil, err
 	}
 	defer conn.Close()
+	conn.SetDeadline(time.Now().Add(serverTimeout))
 
 	_, err = conn.Write(msg)
 	if err != nil {
-- 
2.43.0

