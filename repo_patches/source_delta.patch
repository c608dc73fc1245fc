From eb1a44e8f8f14ac868afa3fa378e83c817fa5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 01/28] fix: write stored records atomically so no reader or
 restart sees a partial one

---
 pkg/disksyncmap/disksyncmap.go |  3 ++-
 pkg/util/util.go               | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..1eaef08 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type comparableStringer interface {
@@ -75,7 +76,7 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	return util.WriteFileAtomic(path, []byte(val.String()), 0666)
 }
 
 // Load the given file from disk and parse.
diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..38b2cdd 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -1,5 +1,24 @@
 package util
 
+import (
+	"fmt"
+	"os"
+	"sync/atomic"
+)
+
+// Number of temporary files used so far, to give each a distinct path.
+var tmpFileCount atomic.Uint64
+
+// Write a file such that the path never holds partial contents, even if we stop midway.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tmpPath := fmt.Sprintf("%s.%d.tmp", path, tmpFileCount.Add(1))
+	if err := os.WriteFile(tmpPath, data, perm); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 // Get keys from map.
 func MapKeys[K comparable, V any](in map[K]V) []K {
 	out := make([]K, len(in))
-- 
2.43.0


From 39e0d41683cba317fa4cf9d32cd7b666386e4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 02/28] fix: rewind a block's transactions in reverse order so
 chained ones can be undone

---
 internal/chain/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..7b7c078 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,6 +85,10 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
+	// Undo the last tx first, as txs may spend outputs of earlier txs in the same block
+	for i, j := 0, len(rTxs)-1; i < j; i, j = i+1, j-1 {
+		rTxs[i], rTxs[j] = rTxs[j], rTxs[i]
+	}
 	for _, tx := range rTxs {
 		txId := tx.Hash()
 		// Return tx back to mempool
-- 
2.43.0


From afd24f5d305a0d75ffb8b8221543ec928a21dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 03/28] fix: reject transactions whose input or output totals
 overflow

---
 pkg/core/transaction.go | 18 ++++++++++++++++++
 pkg/core/verify.go      |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..e2b312d 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -80,6 +80,24 @@ func (tx Tx) OutputsValue() uint64 {
 	return total
 }
 
+// Whether the total value of the inputs or outputs exceeds what a uint64 can represent.
+func (tx Tx) valuesOverflow() bool {
+	inputs, outputs := uint64(0), uint64(0)
+	for _, txi := range tx.Inputs {
+		if inputs+txi.Utxo.Value < inputs {
+			return true
+		}
+		inputs += txi.Utxo.Value
+	}
+	for _, txo := range tx.Outputs {
+		if outputs+txo.Value < outputs {
+			return true
+		}
+		outputs += txo.Value
+	}
+	return false
+}
+
 func (tx Tx) VSize() uint64 {
 	// 8 from MinBlock, 32 each from top-level hash of Inputs and Outputs
 	vSize := uint64(8 + 32 + 32)
diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..9903363 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -249,6 +249,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify total inputs and outputs don't overflow
+	if tx.valuesOverflow() {
+		return fmt.Errorf("tx values overflow")
+	}
+
 	if tx.IsCoinbase {
 		// Verify coinbase has no inputs
 		if len(tx.Inputs) > 0 {
-- 
2.43.0


From da97e8e4359e1e89ad4e188d0d38b6d2f29ba43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 04/28] fix: rich list lengths beyond the signed range list
 everyone instead of nobody

---
 internal/chain/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 7b7c078..a5a5a28 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -387,7 +387,7 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 	})
 	// outLen = min(maxLen, len(pkhs))
 	outLen := int(maxLen)
-	if len(pkhs) < outLen {
+	if len(pkhs) < outLen || maxLen > uint64(len(pkhs)) {
 		outLen = len(pkhs)
 	}
 	out := make(map[core.HashT]uint64, outLen)
-- 
2.43.0


From d659efbdbc4e43b165e81d4044652932fe1d35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 05/28] fix: reject transactions consuming the same output
 twice

---
 pkg/core/verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 9903363..9eeb46a 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -249,6 +249,11 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		return fmt.Errorf("tx vSize exceeds limit")
 	}
 
+	// Verify no utxo is consumed twice
+	if set.NewSetFromList(tx.GetConsumedUtxos()).Size() != len(tx.Inputs) {
+		return fmt.Errorf("tx consumes the same utxo twice")
+	}
+
 	// Verify total inputs and outputs don't overflow
 	if tx.valuesOverflow() {
 		return fmt.Errorf("tx values overflow")
-- 
2.43.0


From 285a11856f9a23f86c751a55e8ea2bb68fd27831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 06/28] fix: txs stored by an earlier run can become pending
 and be included again

---
 internal/chain/chain.go | 11 ++++++++---
 internal/chain/state.go | 10 ++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..8738e14 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -143,6 +143,9 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 			}
 			c.state.AddMempoolTx(txId)
 			// Don't re-broadcast tx directly, it's implicitly rebroadcasted with block
+		} else if !c.state.HasTx(txId) {
+			// Stored by an earlier run, so it isn't in this run's mempool yet
+			c.state.AddMempoolTx(txId)
 		}
 	}
 	for _, merkle := range event.Merkles {
@@ -209,9 +212,11 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
 	if c.inv.HasTx(txId) {
-		return nil
-	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
+		if c.state.HasTx(txId) {
+			return nil
+		}
+		// Stored by an earlier run, so it isn't in this run's mempool yet
+	} else if err := c.inv.StoreTx(event.Tx); err != nil {
 		return err
 	}
 	c.state.AddMempoolTx(txId)
diff --git a/internal/chain/state.go b/internal/chain/state.go
index a5a5a28..c8370ee 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -159,6 +159,10 @@ func (s *State) Advance(nextBlockId core.HashT, autoAddMempoolInsecure bool) err
 	}
 	for _, tx := range nTxs {
 		txId := tx.Hash()
+		// A tx stored by an earlier run isn't in this run's mempool yet
+		if !s.HasTx(txId) {
+			s.AddMempoolTx(txId)
+		}
 		err := s.VerifyTxIncludable(txId, autoAddMempoolInsecure)
 		if err != nil {
 			return fmt.Errorf("tx not includable: %s", err.Error())
@@ -244,6 +248,12 @@ func (s *State) VerifyTxIncludable(txId core.HashT, autoAddMempoolInsecure bool)
 	return nil
 }
 
+// Check whether a tx is either in our mempool or included in our chain.
+func (s *State) HasTx(txId core.HashT) bool {
+	_, included := s.includedTxBlocks[txId]
+	return included || s.mempool.Includes(txId)
+}
+
 // Get includable mempool txs sorted be fee rate, descending.
 func (s *State) GetSortedIncludableMempool() []core.HashT {
 	mem := s.mempool.Copy()
-- 
2.43.0


From 9c6f4fe12e876f4d3e565c17c48ba5e2149cc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 07/28] fix: verify that the last block of a period is later
 than its first

---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 9eeb46a..2f38552 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 85cb435889b7de6a0b905fb1baeaaa99e9cae30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 08/28] fix: refuse to write messages too long for their length
 prefix

---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..d492b1a 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -170,8 +170,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 965dce2be26208a052128de94d85b4c9c41c2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 09/28] fix: a read timeout inside a message's length no longer
 loses the byte already read

---
 pkg/prot/conn.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index d492b1a..c283423 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -144,17 +144,25 @@ func (c *Conn) writeRawTimeout(data []byte, timeout time.Duration) {
 }
 
 // Read variable-length data from the conn.
-// Uses the given timeout for the size bytes, then the default for the data bytes.
+// Uses the given timeout for the first byte, then the default for the rest of the message.
+// Only reports a timeout if the message hadn't begun, so reading can be tried again later.
 func (c *Conn) ReadTimeout(timeout time.Duration) []byte {
 	if c.err != nil {
 		return nil
 	}
-	sizeB := c.readRawTimeout(2, timeout)
+	sizeB := c.readRawTimeout(1, timeout)
 	if c.err != nil {
 		return nil
 	}
-	size := binary.BigEndian.Uint16(sizeB)
-	return c.readRawTimeout(size, defaultTimeout)
+	sizeB = append(sizeB, c.readRawTimeout(1, defaultTimeout)...)
+	var data []byte
+	if c.err == nil {
+		data = c.readRawTimeout(binary.BigEndian.Uint16(sizeB), defaultTimeout)
+	}
+	if c.err != nil && os.IsTimeout(c.err) {
+		c.err = fmt.Errorf("message incomplete: %s", c.err.Error())
+	}
+	return data
 }
 
 // Read variable-length data from the conn with the default timeout for each read.
-- 
2.43.0


From c3d6ca91e74920ebf1f917e38832f1495a4a2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 10/28] fix: list synced entities in chain order so each comes
 after those it depends on

---
 internal/peer/sync.go | 57 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..294ebdb 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -146,8 +146,8 @@ func (p *Peer) handleInboundSyncChain() error {
 		return p.conn.Err()
 	}
 	// Request the peer for entities we don't know about
-	newMerkles := make([]core.MerkleNode, 0)
-	newTxs := make([]core.Tx, 0)
+	newMerkles := make(map[core.HashT]core.MerkleNode)
+	newTxs := make(map[core.HashT]core.Tx)
 	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
 	for _, block := range newBlocks {
@@ -167,14 +167,14 @@ func (p *Peer) handleInboundSyncChain() error {
 			if p.conn.HasErr() {
 				return p.conn.Err()
 			}
-			newMerkles = append(newMerkles, merkle)
+			newMerkles[id] = merkle
 			idQueue.Push(merkle.LChild, merkle.RChild)
 		} else {
 			tx := p.conn.ReadTx(id)
 			if p.conn.HasErr() {
 				return p.conn.Err()
 			}
-			newTxs = append(newTxs, tx)
+			newTxs[id] = tx
 		}
 		receivedIds.Add(id)
 	}
@@ -183,17 +183,58 @@ func (p *Peer) handleInboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head, ordered so each comes after those it depends on
+	newBlocks = util.Reverse(newBlocks)
+	merkleList, txList := orderEntities(newBlocks, newMerkles, newTxs)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
-		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Blocks:                 newBlocks,
+		Merkles:                merkleList,
+		Txs:                    txList,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
 }
 
+// List the given entities in the order the given blocks (oldest first) include them.
+// Txs are listed in the order they occur, and merkles after their children.
+func orderEntities(
+	blocks []core.Block,
+	merkles map[core.HashT]core.MerkleNode,
+	txs map[core.HashT]core.Tx,
+) (merkleList []core.MerkleNode, txList []core.Tx) {
+	type step struct {
+		id           core.HashT
+		childrenDone bool
+	}
+	listedIds := set.NewSet[core.HashT]()
+	for _, block := range blocks {
+		// Walk this block's tree depth-first, left to right
+		stack := []step{{id: block.MerkleRoot}}
+		for len(stack) > 0 {
+			cur := stack[len(stack)-1]
+			stack = stack[:len(stack)-1]
+			if listedIds.Includes(cur.id) {
+				continue
+			}
+			if tx, ok := txs[cur.id]; ok {
+				txList = append(txList, tx)
+				listedIds.Add(cur.id)
+			} else if merkle, ok := merkles[cur.id]; ok {
+				if cur.childrenDone {
+					merkleList = append(merkleList, merkle)
+					listedIds.Add(cur.id)
+				} else {
+					stack = append(
+						stack, step{cur.id, true}, step{merkle.RChild, false}, step{merkle.LChild, false},
+					)
+				}
+			}
+		}
+	}
+	return merkleList, txList
+}
+
 // Verify a new chain's continuity, expected endpoints, and proof-of-work.
 // Leaves havier and state-based verification to chain, this just helps prevent dos attacks.
 func (p *Peer) quickVerifyChain(
-- 
2.43.0


From fdc97d29141a1be6f2cab1f3cdddfab371a5defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 11/28] fix: new peers start from the current head even if it
 was published just before they subscribed

---
 internal/peer/peer.go               |  7 +++++--
 internal/peerfactory/peerfactory.go | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..45f10a1 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -47,7 +47,10 @@ type Peer struct {
 }
 
 // Create a new peer given a message bus instance.
-func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.HashT) *Peer {
+// The current head is only retrieved once subscribed, so heads published meanwhile aren't missed.
+func NewPeer(
+	msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, getCurHead func() core.HashT,
+) *Peer {
 	subs := &subscriptions{
 		PrintUpdate:        msgBus.PrintUpdate.SubCh(),
 		SendPeers:          msgBus.SendPeers.SubCh(),
@@ -62,7 +65,7 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		subs:        subs,
 		conn:        conn,
 		shouldClose: false,
-		curHead:     curHead,
+		curHead:     getCurHead(),
 	}
 }
 
diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..51e1508 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -26,7 +26,7 @@ type subcriptions struct {
 	PeersReceived     *topic.SubCh[bus.PeersReceivedEvent]
 	PeersRequested    *topic.SubCh[bus.PeersRequestedEvent]
 	PrintUpdate       *topic.SubCh[bus.PrintUpdateEvent]
-	ValidatedHead     *topic.SubCh[bus.ValidatedHeadEvent]
+	ValidatedHead     topic.Sub[bus.ValidatedHeadEvent] // Read by getCurHead
 }
 
 // A peer factory. Does not manage the peers after creation.
@@ -54,7 +54,7 @@ func NewPeerFactory(params Params, msgBus *bus.Bus, inv inv.InvReader) *PeerFact
 		PeersReceived:     msgBus.PeersReceived.SubCh(),
 		PeersRequested:    msgBus.PeersRequested.SubCh(),
 		PrintUpdate:       msgBus.PrintUpdate.SubCh(),
-		ValidatedHead:     msgBus.ValidatedHead.SubCh(),
+		ValidatedHead:     msgBus.ValidatedHead.Sub(),
 	}
 	return &PeerFactory{
 		params:         params,
@@ -140,9 +140,6 @@ func (pf *PeerFactory) Loop() {
 				PeerAddrs:       util.CopyMap(pf.knownPeerAddrs),
 			})
 
-		case event := <-pf.subs.ValidatedHead.C:
-			pf.curHead = event.Head
-
 		case event := <-pf.subs.PrintUpdate.C:
 			if !event.PeerFactory {
 				continue
@@ -150,6 +147,7 @@ func (pf *PeerFactory) Loop() {
 			fmt.Printf("peers: %d\n", pf.knownPeers.Size())
 
 		case <-seekPeersTicker.C:
+			pf.getCurHead() // Just so the events don't pile up
 			pf.seekNewPeers()
 		}
 	}
@@ -231,7 +229,7 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if pf.knownPeers.Size() < pf.params.MaxPeers &&
 		!pf.knownPeers.Includes(runtimeId) {
 		// Upgrade to peer
-		go peer.NewPeer(pf.bus, pf.inv, conn, pf.curHead).Loop()
+		go peer.NewPeer(pf.bus, pf.inv, conn, pf.getCurHead).Loop()
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
@@ -252,6 +250,14 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	}
 }
 
+// Get the most recently published head.
+func (pf *PeerFactory) getCurHead() core.HashT {
+	for event, ok := pf.subs.ValidatedHead.Pop(); ok; event, ok = pf.subs.ValidatedHead.Pop() {
+		pf.curHead = event.Head
+	}
+	return pf.curHead
+}
+
 // Check if we should and can seek new peers, then do so.
 func (pf *PeerFactory) seekNewPeers() {
 	if pf.knownPeers.Size() >= pf.params.MaxPeers {
-- 
2.43.0


From fe40a6647dd991a105cf7bed589be89f36e3eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 12/28] fix: reconsider a peer's better head that we store but
 haven't adopted

---
 internal/peer/sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 294ebdb..b909542 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -27,6 +27,10 @@ func (p *Peer) handleSyncChain() error {
 	if theirWork.Eq(ourWork) || (ourWork.Lt(theirWork) && p.inv.HasBlock(theirHead)) {
 		p.conn.WriteString("cancel")
 		p.conn.ReadString() // Just to consume their msg
+		if !p.conn.HasErr() && ourWork.Lt(theirWork) {
+			// We may only know it from a previous run or a failed candidate, so have chain reconsider it
+			p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{Head: theirHead})
+		}
 		return p.conn.Err()
 	} else {
 		p.conn.WriteString("continue")
-- 
2.43.0


From 0bbcc288ce5a3a55dc388ffb1db8e4dd639f4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 13/28] fix: a sync made redundant by another peer no longer
 loses the command issued at the same moment

---
 internal/peer/sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index b909542..43f7810 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -80,7 +80,7 @@ func (p *Peer) handleOutboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	} else if len(neededBlockIds) == 0 {
-		return fmt.Errorf("peer does not need upgrade, sync should not have run")
+		return nil // Peer got our head elsewhere while we negotiated
 	}
 	// Send blocks to peer
 	for _, blockId := range neededBlockIds {
@@ -127,7 +127,7 @@ func (p *Peer) handleInboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	} else if len(neededBlockIds) == 0 {
-		return fmt.Errorf("we do not actually need upgrade, sync should not have run")
+		return nil // We got their head elsewhere while we negotiated
 	}
 	// Receive blocks from peer
 	newBlocks := make([]core.Block, len(neededBlockIds))
-- 
2.43.0


From c2c3386ab702d77af48860f0013a552f362c3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 14/28] fix: close a peer's connection when its loop ends

---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 45f10a1..fc43947 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -79,6 +79,7 @@ func (p *Peer) Loop() {
 		} else {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
+		p.conn.Close()
 		p.subs.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
-- 
2.43.0


From 6593c18bbe3d7fe598fdcfce0817d129269114e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 15/28] fix: an inbound connection stalling its handshake no
 longer blocks all others

---
 internal/peerfactory/peerfactory.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 51e1508..9220380 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -209,13 +209,16 @@ func (pf *PeerFactory) listen() {
 		if err != nil {
 			continue
 		}
-		protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
-		conn := prot.NewConn(protParams, tcpConn)
-		if conn.HasErr() {
-			conn.CloseIfPossible(nil)
-			continue
-		}
-		pf.newConns <- conn
+		// Handshake separately, so an unresponsive connection doesn't block others
+		go func() {
+			protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
+			conn := prot.NewConn(protParams, tcpConn)
+			if conn.HasErr() {
+				conn.CloseIfPossible(nil)
+				return
+			}
+			pf.newConns <- conn
+		}()
 	}
 }
 
-- 
2.43.0


From 880e416f2f32b65f759612fcbe5418edfca54046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 16/28] fix: stop reading peer addresses once the connection
 fails, and don't trust their claimed number

---
 internal/peer/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..e78caa1 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,8 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
-- 
2.43.0


From f0b5ebb64cd5e0474fdfc0a6c2b95826ae241183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 17/28] fix: a transaction claiming huge numbers of inputs or
 outputs no longer exhausts memory

---
 pkg/prot/core.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..2a32bba 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	// Don't allocate for the claimed numbers, the peer may never send that many
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From bde84f86fb5c653b0448777a01327534b55417f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 18/28] fix: report an error instead of panicking when paying
 from an empty balance

---
 pkg/core/txfactory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..ffe4b17 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -240,6 +240,9 @@ func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey,
 func getBalanceAndRichestPkh(
 	utxoPkhs map[Utxo]HashT, pkhPrivs map[HashT]*ecdsa.PrivateKey,
 ) (uint64, HashT, error) {
+	if len(utxoPkhs) == 0 {
+		return 0, HashT{}, fmt.Errorf("insufficient balance: no utxos")
+	}
 	balance := uint64(0)
 	pkhBalances := make(map[HashT]uint64)
 	for utxo, pkh := range utxoPkhs {
-- 
2.43.0


From 42264495af7a259e719f59b6a9439dd9b76988d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 19/28] fix: do not wrap around 64 bits when summing amounts of
 a payment

---
 pkg/core/txfactory.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index ffe4b17..c4c71b5 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -38,6 +38,9 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
+		if totalOut+val < totalOut {
+			return nil, fmt.Errorf("insufficient balance: outputs exceed maximum value")
+		}
 		totalOut += val
 	}
 	if totalOut >= balance {
@@ -93,16 +96,17 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		if totalIn >= totalOut && totalIn-totalOut >= tx.FeeFromRate(targetFeeRate) {
 			break
 		}
 
 		// If we reached the end of the loop without breaking, we can't make it work
 		if i == len(utxos)-1 {
 			return nil, fmt.Errorf(
-				"insufficient balance to pay outputs and target fee rate - %d < %d",
+				"insufficient balance to pay outputs and target fee rate - %d < %d + %d",
 				balance,
-				totalOut+tx.FeeFromRate(targetFeeRate),
+				totalOut,
+				tx.FeeFromRate(targetFeeRate),
 			)
 		}
 	}
@@ -249,6 +253,9 @@ func getBalanceAndRichestPkh(
 		if _, ok := pkhPrivs[pkh]; !ok {
 			return 0, HashT{}, fmt.Errorf("pkh %s not controlled by private keys", pkh)
 		}
+		if balance+utxo.Value < balance {
+			return 0, HashT{}, fmt.Errorf("balance exceeds maximum value")
+		}
 		balance += utxo.Value
 		pkhBalances[pkh] += utxo.Value
 	}
-- 
2.43.0


From cfed3234c315cc78efe6acce034deec4a19afd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:37 +0000
Subject: [PATCH 20/28] fix: refuse to consolidate outputs not worth the fee

---
 pkg/core/txfactory.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index c4c71b5..51bf609 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -204,6 +204,15 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Verify we can pay the fee
+	if totalIn <= tx.FeeFromRate(targetFeeRate) {
+		return nil, fmt.Errorf(
+			"insufficient balance to pay target fee rate - %d <= %d",
+			totalIn,
+			tx.FeeFromRate(targetFeeRate),
+		)
+	}
+
 	// Set the output amount
 	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
 
-- 
2.43.0


From 87ddba617fa0f10cad3091382eacb77196a39669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 21/28] fix: refuse to build payments without any fee, which no
 node accepts

---
 pkg/core/txfactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 51bf609..3098615 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -111,6 +111,11 @@ func MakeOutboundTx(
 		}
 	}
 
+	// Verify the tx pays some fee, as it could never be included otherwise
+	if tx.FeeFromRate(targetFeeRate) == 0 {
+		return nil, fmt.Errorf("target fee rate too low - tx would pay no fee")
+	}
+
 	// Set the change output
 	// Ideally we would do this after replacing sigs bc vSize and thus fee would decrease
 	// But unfortunately we need this output finalized so we can compute preSigHash
@@ -204,6 +209,11 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Verify the tx pays some fee, as it could never be included otherwise
+	if tx.FeeFromRate(targetFeeRate) == 0 {
+		return nil, fmt.Errorf("target fee rate too low - tx would pay no fee")
+	}
+
 	// Verify we can pay the fee
 	if totalIn <= tx.FeeFromRate(targetFeeRate) {
 		return nil, fmt.Errorf(
-- 
2.43.0


From 57b7f8cda8b792f5a074d4514d8a07784f4caaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 22/28] fix: a crash while saving the wallet no longer destroys
 its keys

---
 cmd/bcwallet/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..75e3895 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -9,6 +9,7 @@ import (
 	"path"
 
 	"github.com/levilutz/basiccoin/pkg/core"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type KeyConfigJSON struct {
@@ -202,7 +203,7 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	return util.WriteFileAtomic(getConfigPath(c.Dev), rawConfig, 0600)
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From ec3e8ca6074fb22966d66fa8d0f9ed77fd6eca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 23/28] fix: sending to the same address twice pays the sum,
 not only the last amount

---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..f4b4bd6 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -200,7 +200,10 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total amount for %s is too large", pkh)
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From 9cc101e0117eb462528af0b1014c0a2aa1c036ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 24/28] fix: a crash while saving the head no longer loses the
 chain

---
 internal/chain/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 8738e14..8d74cf2 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -231,7 +231,7 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	return util.WriteFileAtomic(*c.saveDir+"/head", []byte(head.String()), 0666)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
-- 
2.43.0


From 32c4b0fec24fe777435acf77405709c156a6f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 25/28] fix: a damaged stored record counts as absent instead
 of being read as different content

---
 pkg/disksyncmap/disksyncmap.go | 37 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1eaef08..b5c91c5 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -1,9 +1,11 @@
 package disksyncmap
 
 import (
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
 	"github.com/levilutz/basiccoin/pkg/util"
@@ -56,7 +58,7 @@ func (dsm *DiskSyncMap[K, V]) Get(key K) V {
 // Store the given key to the map and disk.
 func (dsm *DiskSyncMap[K, V]) Store(key K, val V) {
 	dsm.m.Store(key, val)
-	if err := dsm.saveFile(dsm.keyPath(key), val); err != nil {
+	if err := dsm.saveFile(key, val); err != nil {
 		fmt.Printf("failed to save file %s: %s\n", dsm.keyPath(key), err)
 	}
 }
@@ -66,7 +68,7 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 	if dsm.m.Has(key) {
 		return true
 	}
-	val, err := dsm.loadFile(dsm.keyPath(key))
+	val, err := dsm.loadFile(key)
 	if err != nil {
 		return false
 	}
@@ -74,13 +76,24 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 	return true
 }
 
-// Write to the given file on disk.
-func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return util.WriteFileAtomic(path, []byte(val.String()), 0666)
+// First row of a record that ends in a checksum. Records of earlier versions have neither.
+const checkedHeader = "v2\n"
+
+// The checksum of the record with the given key and contents.
+func checksum(key string, raw string) string {
+	return fmt.Sprintf("%x", sha256.Sum256([]byte(key+"\n"+raw)))
+}
+
+// Write the key's record to disk.
+func (dsm *DiskSyncMap[K, V]) saveFile(key K, val V) error {
+	raw := val.String()
+	raw = checkedHeader + raw + "\n" + checksum(key.String(), raw)
+	return util.WriteFileAtomic(dsm.keyPath(key), []byte(raw), 0666)
 }
 
-// Load the given file from disk and parse.
-func (dsm *DiskSyncMap[K, V]) loadFile(path string) (val V, err error) {
+// Load the key's record from disk, verify its checksum, and parse.
+func (dsm *DiskSyncMap[K, V]) loadFile(key K) (val V, err error) {
+	path := dsm.keyPath(key)
 	if !dsm.fileExists(path) {
 		return val, fmt.Errorf("file does not exist: %s", path)
 	}
@@ -88,7 +101,15 @@ func (dsm *DiskSyncMap[K, V]) loadFile(path string) (val V, err error) {
 	if err != nil {
 		return val, fmt.Errorf("failed to read %s: %s", path, err)
 	}
-	val, err = dsm.parseFunc(string(raw))
+	rawS := string(raw)
+	if rest, ok := strings.CutPrefix(rawS, checkedHeader); ok {
+		end := strings.LastIndex(rest, "\n")
+		if end < 0 || rest[end+1:] != checksum(key.String(), rest[:end]) {
+			return val, fmt.Errorf("failed to verify checksum of %s", path)
+		}
+		rawS = rest[:end]
+	}
+	val, err = dsm.parseFunc(rawS)
 	if err != nil {
 		return val, fmt.Errorf("failed to parse %s: %s", path, err)
 	}
-- 
2.43.0


From ecdc5e5e0c6e1fbae4bf9b1eddd2c66bb6a371e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 26/28] fix: miners keep their block's time current instead of
 searching for ever with a time no node accepts

---
 internal/miner/miner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 227be14..fddcce2 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -124,6 +124,8 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 
 // Try nonces for the specified number of rounds.
 func (m *Miner) mine(rounds uint64) {
+	// A template only kept at its creation time may never become valid
+	m.template.MinedTime = uint64(time.Now().Unix())
 	for i := uint64(0); i < rounds; i++ {
 		hash := m.template.Hash()
 		if hash.Lt(m.template.Target) {
-- 
2.43.0


From 3aa82b162c0cc4b496dc6dd6283bea0901d3563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 27/28] fix: miners no longer overwrite the list of
 transactions they share with each other

---
 pkg/util/util.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 38b2cdd..aaf8165 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -33,13 +33,8 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 // Prepend into slice.
 func Prepend[K any](ls []K, items ...K) []K {
 	for _, item := range items {
-		if len(ls) == 0 {
-			ls = []K{item}
-		} else {
-			ls = append(ls, item)
-			copy(ls[1:], ls)
-			ls[0] = item
-		}
+		// Never append to the given slice, as others may share its underlying array
+		ls = append([]K{item}, ls...)
 	}
 	return ls
 }
-- 
2.43.0


From ad7686f7032c41d59b93c2cbf3985519602c33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:43 +0000
Subject: [PATCH 28/28] fix: have chain reconsider an announced tx that is
 known only from a previous run

---
 internal/peer/handlers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index e78caa1..20c51e1 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -73,7 +73,14 @@ func (p *Peer) handleReadNewTx() error {
 		return p.conn.Err()
 	} else if p.inv.HasTx(txId) {
 		p.conn.WriteBool(false)
-		return p.conn.Err()
+		if p.conn.HasErr() {
+			return p.conn.Err()
+		}
+		// We may only know it from a previous run, so have chain reconsider it
+		p.bus.CandidateTx.Pub(bus.CandidateTxEvent{
+			Tx: p.inv.GetTx(txId),
+		})
+		return nil
 	}
 	p.conn.WriteBool(true)
 	tx := p.conn.ReadTx(txId)
-- 
2.43.0

