From 22bbe7dd8e9cbf2f5eaf3054536b18c761f6b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 01/65] fix: trie lookups and updates of keys that are prefixes
 of other keys

get, insert and delete treated an exhausted key as a match of the current node even
when that node still had its own prefix, so a key that is a prefix of a stored key
(or the empty key) was read, overwritten or deleted at the wrong node.
---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..3fa9987 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -266,7 +266,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -362,7 +362,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -506,7 +506,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From 6b8a9d50923715de279d8f139efbdbe7c8728436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 02/65] fix: reversed trie iteration skipped the value of a
 node whose child at index 0 exists

---
 trie/iterator.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..e2fa125 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,25 +363,21 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+			} else {
+				// all children visited, check value when the reversedTrace just before poping out
+				if last.node.hasValue() {
+					return true
 				}
+				// shortcut, pop node if there's no value
+				_ = last.node.collapse()
+				rt.stack = rt.stack[:len(rt.stack)-1]
 			}
 		}
 	}
-- 
2.43.0


From 081d17c4fdd73fbc78757ac21db2ca6b377128b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 03/65] fix: Trie.Commit reported success when saving a
 descendant node failed

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 3fa9987..83b97c7 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From 315864ce20d150e390899350e135b57e3281b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 04/65] fix: Trie.Clone and Trie.Rebase lost the value count

---
 trie/trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index 83b97c7..6decbc3 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -173,6 +173,7 @@ func (t *Trie) Clone() *Trie {
 			t.root.valueDecode, t.root.valueHasher),
 		nodeAdapter:  t.nodeAdapter,
 		valueAdapter: t.valueAdapter,
+		valueCount:   t.valueCount,
 		gen:          t.gen,
 	}
 }
@@ -197,6 +198,7 @@ func (t *Trie) Rebase(dbase db.Database) (*Trie, error) {
 			t.root.valueDecode, t.root.valueHasher),
 		nodeAdapter:  na,
 		valueAdapter: va,
+		valueCount:   t.valueCount,
 		gen:          0,
 	}, nil
 }
-- 
2.43.0


From 583720a3f81693b100d0c14a3f69155489627fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 05/65] fix: existence proofs of keys ending at a valueless
 trie node

The proof of a key whose path ends exactly at a branch node without value
was unverifiable (ErrMissingValue), and setting ValueHash to the nil hash in
it gave a proof of existence that verifies against the root.
---
 trie/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..569f28f 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -467,6 +467,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// current proof proves node value, there's no valueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the key ends at a node without value, does not exist
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
@@ -499,6 +503,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// The current node proves value, and there is no ValueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the key ends at a node without value, does not exist
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
-- 
2.43.0


From f22b322a96295c77c5924b637d5abc0b90780a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 06/65] fix: existence proofs did not bind the child index to
 the merkle path

PType is in no hash: relabelling it turned the proof of one child into a
verifying proof of existence or absence of a key under another child.
---
 trie/proof.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index 569f28f..01154d0 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -535,10 +535,42 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 		return false, nil, keyprefix, ErrMismatchProof
 	}
 
+	if !n.provesChild(int(keyprefix[0])) {
+		// the hash proved is not the one of the child node we want to find
+		return false, nil, keyprefix, ErrMismatchProof
+	}
+
 	// The current path to the current node is matched, and the remaining keyprefix is returned
 	return true, nil, keyprefix[1:], nil
 }
 
+// provesChild whether ChildProofs is the merkle path of the child with the index. PType is not
+// included in any hash, so that only the path tells which of the children is proved.
+func (n *NodeProof) provesChild(index int) bool {
+	pos, total := 0, 0
+	for i := 0; i < childrenLength; i++ {
+		if n.Header.HasChild(i) {
+			if i < index {
+				pos++
+			}
+			total++
+		}
+	}
+	depth := 1
+	for 1<<uint(depth) < total {
+		depth++
+	}
+	if n.ChildProofs == nil || n.ChildProofs.Paths == nil || n.ChildProofs.Len() != depth {
+		return false
+	}
+	for i := 0; i < depth; i++ {
+		if n.ChildProofs.Order(i) != ((pos>>uint(i))&1 == 1) {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *NodeProof) ExistenceHash() ([]byte, error) {
 	if n.PType.IsProofExistence() == false {
 		return nil, fmt.Errorf("only ExistenceProof can Hash, but it's %s", n.PType)
-- 
2.43.0


From 5c4e8392d86f716a56e9d6b6dc3498ccf2792ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 07/65] fix: MerkleProofs decoding accepted short reads and
 truncated data

---
 hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash.go b/hash.go
index 77dc56f..8b7eeea 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From b3b5bad34e659d8a1125f44e7d9898ed3eabdc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 08/65] fix: MoreTimes.IsValid rejected repeats of the first
 hash

---
 hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 8b7eeea..1d10740 100644
--- a/hash.go
+++ b/hash.go
@@ -123,7 +123,7 @@ func (ms MoreTimes) IsValid() bool {
 	if len(ms) == 0 {
 		return false
 	}
-	lastIndex := 0
+	lastIndex := -1
 	for _, m := range ms {
 		if !m.IsValid() {
 			return false
-- 
2.43.0


From 9b968ed400db0b0b25097f2949bd1e54b3389cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 09/65] fix: a lookup of an unavailable history tree node
 emptied the node

When the data of a collapsed node could not be read (not in the database, as
in trees restored from proofs, or a read error), the node forgot its hash and
stayed empty: the next append or commit failed with 'value missing' or gave a
wrong root. Merging the proof of such a leaf node lost the merged value too.
---
 trie/historytree.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..d2a064c 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -501,6 +501,10 @@ func (h *HistoryTree) MergeProof(key uint64, value []byte, proofs ProofChain) er
 	prefix := heightToPrefix(key)
 	tracers := make([]nodeTracer, 0)
 	_, _, leafvalue, exist, err := locateNode(h.root, prefix, h.adapter, &tracers)
+	if err == common.ErrNotFound && len(tracers) > 0 && tracers[len(tracers)-1].nodeInPos.isCollapsed() {
+		// only the hash of the node is known, it will be created by the proofs
+		tracers, err = tracers[:len(tracers)-1], nil
+	}
 	if err != nil {
 		return fmt.Errorf("locateNode by %d -> (%x) failed: %v", key, prefix, err)
 	}
@@ -814,6 +818,11 @@ func (n *TreeNode) expand(adapter db.DataAdapter) error {
 		return common.ErrNotFound
 	}
 	err := n.readFull(root, adapter)
+	if err != nil {
+		// the node is still what it was: a collapsed one
+		n.Reset()
+		n.Branchs[""] = root
+	}
 	// fmt.Printf("expand node from %x\n", root)
 	return err
 }
@@ -1041,7 +1050,7 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 	}
 
 	if len(content) == 0 {
-		return nil
+		return common.ErrNotFound
 	}
 
 	loadEntire := false
@@ -1214,7 +1223,7 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-						} else {
+						} else if !n.Children[p].isCollapsed() {
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-- 
2.43.0


From 66eafc8eaa0e38e12a8edecb3f35eff0dd2965c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/65] fix: HistoryTree.CollapseBefore panicked in trees
 restored from proofs

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index d2a064c..c83dacc 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -371,6 +371,10 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		// nothing to collapse (the tree has been restored from proofs)
+		return nil
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From 87592ee636be8750fa02f1f07f0d3f74f88e20a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/65] fix: reopening a history tree with merged proofs lost
 its rightmost height

Nodes completed by MergeProof may have gaps between known children; the first
gap after a known one was taken for the end of the tree, so that the reopened
tree expected an already appended height.
---
 trie/historytree.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index c83dacc..035577d 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -720,9 +720,6 @@ func (n *TreeNode) rightmostChild(checkPrecedingNil bool) (index int, child *Tre
 		if n.Children[i] != nil {
 			index = i
 			child = n.Children[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
 		} else {
 			if checkPrecedingNil {
 				return
@@ -769,9 +766,6 @@ func (n *TreeNode) rightmostLeaf(checkPrecedingNil bool) (index int, leaf []byte
 		if n.Leafs[i] != nil {
 			index = i
 			leaf = n.Leafs[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
 		} else {
 			if checkPrecedingNil {
 				return
-- 
2.43.0


From 23303ee918030eecc2ed9d0f1c8fbf555efa3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 12/65] fix: chopped history trees were never saved

Chop shares collapsed nodes with the original through the database and marked
none of the changed nodes dirty: entries of an uncommitted original were
unreadable, and Commit of a chopped tree saved nothing under its root.
---
 trie/historytree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 035577d..117b172 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1761,6 +1761,10 @@ func (h *HistoryTree) Chop(byKey uint64) (*HistoryTree, error) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 	prefix := heightToPrefix(byKey)
+	// copied nodes will be read from the database
+	if err := h._commit(); err != nil {
+		return nil, fmt.Errorf("commit failed: %v", err)
+	}
 	cursor := h.root
 	var newroot, lastnode, newnode *TreeNode
 	var hasChanged bool
@@ -1796,13 +1800,16 @@ func (h *HistoryTree) Chop(byKey uint64) (*HistoryTree, error) {
 	}
 
 	if hasChanged {
+		// the new nodes on the path differ from those in the database
 		cursor = newroot
+		cursor.isDirty = true
 		for i := 0; i < lastChangedI; i++ {
 			changedPrefix, _ := ToBinary(prefix[i], ValueKeyLength)
 			for j := 0; j <= 3; j++ {
 				delete(cursor.Branchs, string(changedPrefix[:3-j]))
 			}
 			cursor = cursor.Children[prefix[i]]
+			cursor.isDirty = true
 		}
 	}
 
-- 
2.43.0


From cbbf08ba6a44ee1da266d834026acdd69bcb606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/65] fix: reverting to the first checkpoint dropped the
 changes made before it

---
 trie/revertable.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..dccc73f 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -15,6 +15,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"sync"
 
@@ -314,12 +315,21 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	if h != r.chkpts[checkPoint] {
 		return ErrNotExist
 	}
+	if r.Live != nil {
+		originRoot, err := r.Origin.HashValue()
+		if err != nil {
+			return err
+		}
+		if bytes.Equal(originRoot, root) {
+			// nothing had been changed when the checkpoint was created
+			r.Live = nil
+		} else {
+			r.Live = r.Live.Inherit(root)
+		}
+	}
 	r.chkpts = r.chkpts[:checkPoint]
 	if len(r.chkpts) == 0 {
 		r.chkpts = nil
-		r.Live = nil
-	} else {
-		r.Live = r.Live.Inherit(root)
 	}
 	return nil
 }
-- 
2.43.0


From 5897a53fa8e79cb4b6b27ba19d38bea5410857b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 14/65] fix: RevertableTrie.SetTo kept the checkpoints of the
 replaced trie

---
 trie/revertable.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index dccc73f..2dc9c08 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -80,6 +80,7 @@ func (r *RevertableTrie) SetTo(newTrie *Trie) error {
 	}
 	r.Origin = newTrie
 	r.Live = nil
+	r.chkpts = nil
 	return nil
 }
 
-- 
2.43.0


From e5023bf0853af95718da8544c4906ebe4a842187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 15/65] fix: an empty SmallCombinedTrie could not be committed
 or restored

---
 trie/combinedtrie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 14a0155..b8b733f 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -226,6 +226,10 @@ func (c *SmallCombinedTrie) saveRoot() error {
 		log.Warn("SmallCombinedTrie save root without DataAdapter")
 		return nil
 	}
+	if len(c.keys) == 0 {
+		// the root of an empty trie is the nil hash, there is nothing to save
+		return nil
+	}
 	buf := new(bytes.Buffer)
 	for i := 0; i < len(c.keys); i++ {
 		t, ok := c.valueMap[c.keys[i]]
@@ -257,7 +261,7 @@ func (c *SmallCombinedTrie) saveRoot() error {
 // TODO optimization needed
 func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, vadapter db.DataAdapter,
 	encode NodeValueEncode, decode NodeValueDecode, hasher NodeValueHasher) error {
-	if rootHash == nil {
+	if rootHash == nil || bytes.Equal(rootHash, common.NilHashSlice) {
 		return nil
 	}
 	value, err := c.adapter.Load(rootHash)
-- 
2.43.0


From 3b2da8e3cf69be410171f09b889dbc43a31963ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 16/65] fix: Trie.Dump reported the value of the empty key
 twice

---
 trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/trie.go b/trie/trie.go
index 6decbc3..b8e4ca5 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1036,6 +1036,7 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				}
 				if len(prefix) == 0 {
 					valueCallback(nil, valuebytes)
+					continue
 				}
 				if len(prefix)%2 != 0 {
 					return fmt.Errorf("odd length prefix(%s) found a (%d)bytes value",
-- 
2.43.0


From bc4ad249918baf92c0753d8e72f7abb508785b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 17/65] fix: LDB.Batch ignored write errors

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From 158441b679ad0377ecaba8935a7ee3413a758ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:42 +0000
Subject: [PATCH 18/65] fix: cached database reported absent keys as present
 and shared cached values

---
 db/cacheddb.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..8a032e0 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -94,10 +94,11 @@ func (d *cachedDB) Put(key, value []byte) error {
 func (d *cachedDB) Has(key []byte) (bool, error) {
 	d.lock.RLock()
 	defer d.lock.RUnlock()
-	_, ok := d.cache.Get(string(key))
+	v, ok := d.cache.Get(string(key))
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return true, nil
+		// the absence of a key is cached as a nil value
+		return v.([]byte) != nil, nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	return d.baseDB.Has(key)
@@ -110,14 +111,14 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	d.cache.Add(ckey, CopySlice(r))
 	return r, nil
 }
 
-- 
2.43.0


From a21858e928e8d9d3c1d5ed64e6c51e62a6383f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 19/65] fix: batches of key prefixed databases could not be
 committed

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..82fe923 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -68,6 +68,14 @@ func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
 
+// unwrapKeyBatch returns the batch of the underlying database, whose keys are already converted
+func unwrapKeyBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok {
+		return kb.batch
+	}
+	return batch
+}
+
 type keyPrefixedDataAdapter struct {
 	database  Database
 	keyPrefix []byte
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(unwrapKeyBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(unwrapKeyBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From 5b1bc112af3b281d416062d953efc32444cc0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 20/65] fix: memBatch aliased the buffers of its caller and
 lost nil puts

---
 db/memdb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..9cc2e3b 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -123,12 +123,15 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	if key == nil || value == nil {
+		return common.ErrNil
+	}
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From 770dae4a4e2bada4b3f9715e060c74f75d0ae121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 21/65] fix: BatchWrite dropped the last batch when the last
 item was skipped

---
 db/types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..30eb5c5 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,11 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From 393cda4b463197d25cafac623c06318abe1474d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:45 +0000
Subject: [PATCH 22/65] fix: BatchWrite to a read only database panicked

---
 db/readonly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/readonly.go b/db/readonly.go
index 849868e..8f56c05 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -31,7 +31,7 @@ func (r *readOnlyDB) Delete(key []byte) error {
 }
 
 func (r *readOnlyDB) NewBatch() Batch {
-	return nil
+	return &memBatch{}
 }
 
 func (r *readOnlyDB) Batch(batch Batch) error {
-- 
2.43.0


From 56169da8db35b2f2dbc7e22bb8048acb2018137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 23/65] fix: HashRipemd160 returned its input followed by the
 digest of nothing

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 1d10740..2e7f948 100644
--- a/hash.go
+++ b/hash.go
@@ -750,7 +750,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0


From 7565a95891f39946d5a199960670664bbd70fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 24/65] fix: KeyCount returned the live map of running keys

---
 routinepool.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 9c08999..c033a79 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -186,7 +186,14 @@ func decKeyCount(key string) {
 }
 
 func KeyCount() map[string]int {
-	return routinePoolKeyCountMap
+	routinePoolKeyCountLock.Lock()
+	defer routinePoolKeyCountLock.Unlock()
+
+	ret := make(map[string]int, len(routinePoolKeyCountMap))
+	for k, v := range routinePoolKeyCountMap {
+		ret[k] = v
+	}
+	return ret
 }
 
 func (p *RoutinePool) PostLower(v interface{}) {
-- 
2.43.0


From f94e8ccf6630c23d85b8e8c82688877fdcabc382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 25/65] fix: restarting a stopped RoutinePool crashed

---
 routinepool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index c033a79..f948390 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -114,7 +114,6 @@ func NewRoutinePool(name string, routineSize int, queueSize int, workFunc Worker
 			workFunc: workFunc,
 		}
 	}
-	ret.wg.Add(routineSize)
 	return ret
 }
 
@@ -133,7 +132,10 @@ func (p *RoutinePool) Start() {
 		return
 	}
 	p.started = true
+	p.quit = make(chan struct{})
+	p.wg.Add(len(p.workers))
 	for i := 0; i < len(p.workers); i++ {
+		p.workers[i].quit = p.quit
 		go p.workers[i].work()
 	}
 }
-- 
2.43.0


From dabd4de1d893379b76bc44e7d4c1557226c9047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 26/65] fix: LruMap.Add could succeed twice for one key

---
 types.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index e111139..f56cbdc 100644
--- a/types.go
+++ b/types.go
@@ -225,11 +225,8 @@ func NewLruMap(size int) *LruMap {
 }
 
 func (m *LruMap) Add(key interface{}, value interface{}) bool {
-	if m.Map.Contains(key) {
-		return false
-	}
-	m.Map.Add(key, value)
-	return true
+	exist, _ := m.Map.ContainsOrAdd(key, value)
+	return !exist
 }
 
 func (m *LruMap) Get(key interface{}) interface{} {
-- 
2.43.0


From 3132b0218351b43665c615e3a14edff4e92222d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 27/65] fix: NodeIDSet.Delete left stale indexes

---
 basic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basic.go b/basic.go
index 193d83a..1559b48 100644
--- a/basic.go
+++ b/basic.go
@@ -646,9 +646,12 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	if !exist {
 		return
 	}
+	delete(ns.m, *id)
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
-	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*ns.l[i]] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
-- 
2.43.0


From 1d54a2bddbdc243b019ce785039f22cb178cb57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 28/65] fix: NodeIDSet.GetNodeIDs returned zero ids and raced
 with updates

---
 basic.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/basic.go b/basic.go
index 1559b48..f237307 100644
--- a/basic.go
+++ b/basic.go
@@ -655,6 +655,8 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
 	if i < 0 || i >= len(ns.l) {
 		return nil, false
 	}
@@ -672,16 +674,14 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 }
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
-	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
-		sort.Sort(ns)
-		for i := 0; i < len(ns.l); i++ {
-			nids = append(nids, *ns.l[i])
-		}
-		return nids
-	} else {
-		return make(NodeIDs, 0)
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
+	nids := make(NodeIDs, 0, len(ns.l))
+	for i := 0; i < len(ns.l); i++ {
+		nids = append(nids, *ns.l[i])
 	}
+	sort.Sort(nids)
+	return nids
 }
 
 func (e EraNum) IsNil() bool {
-- 
2.43.0


From 9a4528ecd85134f29cb42fa1c2112def05766890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 29/65] fix: address prefix shards mishandled bit indexes at
 byte boundaries

---
 shardinfo.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index b71d330..465cb01 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -50,9 +50,6 @@ func (p BitIndex) Mask(b byte) byte {
 	if bits == 7 {
 		return b
 	}
-	if bits == 0 {
-		return 0
-	}
 	sh := 7 - bits
 	bb := b >> sh
 	bb = bb << sh
@@ -77,8 +74,9 @@ func (bs Bits) Bits(length int) []bool {
 		return nil
 	}
 	r := make([]bool, 0, length)
-	x := BitIndex(length).BytePos()
-	y := BitIndex(length).BitPos()
+	last := BitIndex(length - 1)
+	x := last.BytePos()
+	y := last.BitPos()
 	var j uint
 	for i := 0; i < len(bs) && i <= x; i++ {
 		for j = 0; j < 8; j++ {
@@ -102,13 +100,13 @@ func (s *AddressShard) IsValid() bool {
 	if s == nil {
 		return false
 	}
-	if s.Index <= 0 {
+	if s.Index < 0 {
 		return false
 	}
-	if s.Index > (AddressLength * 8) {
+	if s.Index >= (AddressLength * 8) {
 		return false
 	}
-	if (len(s.Value) * 8) < int(s.Index) {
+	if (len(s.Value) * 8) <= int(s.Index) {
 		return false
 	}
 	return true
-- 
2.43.0


From fadc45992970855e2a29dc585102a6093306328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 30/65] fix: ForPrint panicked on empty slices, arrays and
 strings

---
 bytes.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bytes.go b/bytes.go
index 6112388..94e3eba 100644
--- a/bytes.go
+++ b/bytes.go
@@ -23,6 +23,12 @@ import (
 )
 
 func startAndEnd(length, startPos, endPos int) (start, end int) {
+	if length <= 0 {
+		return 0, 0
+	}
+	if startPos < 0 {
+		startPos = 0
+	}
 	if startPos >= length {
 		startPos = length - 1
 	}
@@ -61,7 +67,10 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 			return []byte{}
 		}
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = make([]byte, endPos-startPos)
+		for i := range s {
+			s[i] = byte(val.Index(startPos + i).Uint())
+		}
 	case reflect.Slice:
 		if val.IsNil() || typ.Elem().Kind() != reflect.Uint8 || val.Len() == 0 {
 			return []byte{}
@@ -70,7 +79,7 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.String:
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = []byte(val.String()[startPos:endPos])
 	default:
 		return []byte{}
 	}
-- 
2.43.0


From 06575ef3121210c865b6cf81caf82e5ae8845c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 31/65] fix: SetBytes kept the leading bytes of the previous
 value

---
 basic.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/basic.go b/basic.go
index f237307..c0c6899 100644
--- a/basic.go
+++ b/basic.go
@@ -407,7 +407,9 @@ func (nid *NodeID) SetBytes(b []byte) {
 	if len(b) > len(nid) {
 		b = b[len(b)-NodeIDBytes:]
 	}
-	copy(nid[NodeIDBytes-len(b):], b)
+	start := NodeIDBytes - len(b)
+	copy(nid[start:], b)
+	copy(nid[:start], EmptyNodeID[:])
 }
 
 func (nid NodeID) MarshalText() ([]byte, error) {
@@ -1285,7 +1287,9 @@ func (a *Address) SetBytes(b []byte) {
 	if len(b) > len(a) {
 		b = b[len(b)-AddressLength:]
 	}
-	copy(a[AddressLength-len(b):], b)
+	start := AddressLength - len(b)
+	copy(a[start:], b)
+	copy(a[:start], EmptyAddress[:])
 }
 
 // MarshalText returns the hex representation of a.
@@ -1470,7 +1474,9 @@ func (h *Hash) SetBytes(b []byte) {
 		b = b[len(b)-HashLength:]
 	}
 
-	copy(h[HashLength-len(b):], b)
+	start := HashLength - len(b)
+	copy(h[start:], b)
+	copy(h[:start], EmptyHash[:])
 }
 
 // Generate implements testing/quick.Generator.
@@ -1664,7 +1670,9 @@ func (s *Seed) SetBytes(b []byte) *Seed {
 		b = b[len(b)-SeedLength:]
 	}
 
-	copy(s[SeedLength-len(b):], b)
+	start := SeedLength - len(b)
+	copy(s[start:], b)
+	copy(s[:start], zeroSeed[:])
 	return s
 }
 
-- 
2.43.0


From 68b1a7edea0ebd575a1f5d5839d2c1ea21114ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 32/65] fix: math.Exp changed its base argument

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 1da29d3..0ead476 100644
--- a/math/big.go
+++ b/math/big.go
@@ -258,6 +258,7 @@ func S256(x *big.Int) *big.Int {
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 7ea56fb299505b8778f574f3a8f231be6947d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 33/65] fix: rational rounding lost precision through float64

---
 math/big.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/math/big.go b/math/big.go
index 0ead476..3b3dd0e 100644
--- a/math/big.go
+++ b/math/big.go
@@ -19,7 +19,6 @@ package math
 
 import (
 	"fmt"
-	"math"
 	"math/big"
 )
 
@@ -407,24 +406,23 @@ func CopyBigRat(x *big.Rat) *big.Rat {
 // return the smallest integer not less than r. If r is too large or divided by 0,
 // nomeans is true, and x is meaningless
 func RatToInt64(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
-		return 0, true
+	q, m := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
+	if m.Sign() != 0 {
+		q.Add(q, Big1)
 	}
-	x = int64(f)
-	if float64(x) < f {
-		x += 1
+	if !q.IsInt64() {
+		return 0, true
 	}
-	return x, false
+	return q.Int64(), false
 }
 
 // lower round of r
 func RatToInt64Floor(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	q := new(big.Int).Div(r.Num(), r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	return int64(f), false
+	return q.Int64(), false
 }
 
 func CompareBigInt(a, b *big.Int) int {
-- 
2.43.0


From 1e25f314c84f77d58ed2522f5d9b196c659fb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 34/65] fix: BigInt comparison of nil with a negative number

---
 math/big.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/math/big.go b/math/big.go
index 3b3dd0e..2efe7a9 100644
--- a/math/big.go
+++ b/math/big.go
@@ -622,17 +622,11 @@ func (b *BigInt) IsZero() bool {
 }
 
 func (b *BigInt) Compare(o *BigInt) int {
-	if b.IsZero() && o.IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), (*big.Int)(o))
+	return b.MustInt().Cmp(o.MustInt())
 }
 
 func (b *BigInt) CompareInt(i *big.Int) int {
-	if b.IsZero() && (*BigInt)(i).IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), i)
+	return b.MustInt().Cmp((*BigInt)(i).MustInt())
 }
 
 func (b *BigInt) MustPositive() *BigInt {
-- 
2.43.0


From deec1b091c4c30feb27c7b339c3f9e56cadc6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 35/65] fix: removing the last node left a chain description
 with another hash

---
 chaininfo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/chaininfo.go b/chaininfo.go
index 0f65cb6..dbf01d3 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -775,6 +775,10 @@ func (c *ChainInfos) RemoveBootNode(node NodeID) bool {
 	if i < len(c.BootNodes) {
 		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
 		if bytes.Equal(s[:], node[:]) {
+			if len(c.BootNodes) == 1 {
+				c.BootNodes = nil // an empty list and a nil list hash differently
+				return true
+			}
 			bdatas := make([]Dataserver, len(c.BootNodes)-1)
 			copy(bdatas, c.BootNodes[:i])
 			copy(bdatas[i:], c.BootNodes[i+1:])
@@ -810,6 +814,10 @@ func (c *ChainInfos) RemoveDataNode(node NodeID) bool {
 		return bytes.Compare(c.Datas[i][:], node[:]) >= 0
 	})
 	if k < len(c.Datas) && bytes.Equal(c.Datas[k][:], node[:]) {
+		if len(c.Datas) == 1 {
+			c.Datas = nil // an empty list and a nil list hash differently
+			return true
+		}
 		ndatas := make(NodeIDs, len(c.Datas)-1)
 		copy(ndatas, c.Datas[:k])
 		copy(ndatas[k:], c.Datas[k+1:])
-- 
2.43.0


From 06b785aca1a35a367f1020aa0c8b7dc9cef5bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:53 +0000
Subject: [PATCH 36/65] fix: rlp: a value cut short inside a custom decoder was
 taken for the end of its list

---
 rlp/decode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rlp/decode.go b/rlp/decode.go
index f6cb436..75aa23b 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -539,7 +539,14 @@ func decodeInterface(s *Stream, val reflect.Value) error {
 }
 
 func decodeDecoder(s *Stream, val reflect.Value) error {
-	return val.Addr().Interface().(Decoder).DecodeRLP(s)
+	depth := len(s.stack)
+	err := val.Addr().Interface().(Decoder).DecodeRLP(s)
+	if err == EOL && len(s.stack) > depth {
+		// The value itself ended too early. This must not be mistaken for
+		// the end of the list containing the value.
+		return &decodeError{msg: "too few elements", typ: val.Type()}
+	}
+	return err
 }
 
 // Kind represents the kind of value contained in an RLP stream.
-- 
2.43.0


From 980aa1f90f46bfdb52cefeb54a52321bf0db2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:54 +0000
Subject: [PATCH 37/65] fix: rlp: list iterator never ended on a malformed
 element

---
 rlp/iterator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlp/iterator.go b/rlp/iterator.go
index 6be5745..a4ba561 100644
--- a/rlp/iterator.go
+++ b/rlp/iterator.go
@@ -44,9 +44,13 @@ func (it *listIterator) Next() bool {
 		return false
 	}
 	_, t, c, err := readKind(it.data)
+	if err != nil {
+		// There is no way to find the next value, so this ends the iteration.
+		it.next, it.data, it.err = nil, nil, err
+		return true
+	}
 	it.next = it.data[:t+c]
 	it.data = it.data[t+c:]
-	it.err = err
 	return true
 }
 
-- 
2.43.0


From c508c95a9d27f7fa164bf8a46ae788039c29681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 38/65] fix: rlp: decoders generated for string fields call
 Stream.String, which did not exist

---
 rlp/decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rlp/decode.go b/rlp/decode.go
index 75aa23b..301bf76 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -662,6 +662,16 @@ func (s *Stream) Bytes() ([]byte, error) {
 	}
 }
 
+// String reads an RLP string and returns its contents as a string. It is the
+// method called by generated decoders for fields of string type.
+func (s *Stream) String() (string, error) {
+	b, err := s.Bytes()
+	if err != nil {
+		return "", err
+	}
+	return string(b), nil
+}
+
 // ReadBytes decodes the next RLP value and stores the result in b.
 // The value size must match len(b) exactly.
 func (s *Stream) ReadBytes(b []byte) error {
-- 
2.43.0


From 875317699d9a8e23862a2f9c785d14034fecd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 39/65] fix: rlpgen: wrong code for named basic types, pointers
 to named slices, nil or non-pointer custom coders; incomparable optional
 fields refused

---
 rlp/rlpgen/gen.go   | 72 ++++++++++++++++++++++++++++++++-------------
 rlp/rlpgen/types.go | 15 ++++++++++
 2 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index dd6d89f..2bf4ac1 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -165,8 +165,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -387,13 +390,12 @@ func (op encoderDecoderOp) genWrite(ctx *genContext, v string) string {
 
 func (op encoderDecoderOp) genDecode(ctx *genContext) (string, string) {
 	// DecodeRLP must have pointer receiver, and this is verified in makeOp.
-	etyp := op.typ.(*types.Pointer).Elem()
 	var resultV = ctx.temp()
 
 	var b bytes.Buffer
-	fmt.Fprintf(&b, "%s := new(%s)\n", resultV, types.TypeString(etyp, ctx.qualify))
+	fmt.Fprintf(&b, "%s := new(%s)\n", resultV, types.TypeString(op.typ, ctx.qualify))
 	fmt.Fprintf(&b, "if err := %s.DecodeRLP(dec); err != nil { return err }\n", resultV)
-	return resultV, b.String()
+	return "(*" + resultV + ")", b.String()
 }
 
 // ptrOp handles pointer types.
@@ -449,6 +451,7 @@ func (op ptrOp) genWrite(ctx *genContext, v string) string {
 
 func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	result, code := op.elem.genDecode(ctx)
+	code, result = op.makeAddressable(ctx, code, result)
 	if !op.nilOK {
 		// If nil pointers are not allowed, we can just decode the element.
 		return "&" + result, code
@@ -479,6 +482,26 @@ func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	return resultV, b.String()
 }
 
+// makeAddressable ensures that the address of result can be taken, and that it is a pointer
+// to the element type.
+func (op ptrOp) makeAddressable(ctx *genContext, code, result string) (string, string) {
+	switch elem := op.elem.(type) {
+	case basicOp:
+		if elem.decodeNeedsConversion() || types.Identical(elem.decResultType, op.elemTyp) || elem.decMethod == "Raw" {
+			return code, result
+		}
+	case ptrOp, bigIntOp, uint256Op:
+		if _, isPtr := op.elemTyp.(*types.Pointer); !isPtr {
+			return code, result
+		}
+	default:
+		return code, result
+	}
+	v := ctx.temp()
+	code += fmt.Sprintf("var %s %s = %s\n", v, types.TypeString(op.elemTyp, ctx.qualify), result)
+	return code, v
+}
+
 // structOp handles struct types.
 type structOp struct {
 	named          *types.Named
@@ -522,6 +545,9 @@ func (bctx *buildContext) makeStructOp(named *types.Named, typ *types.Struct) (o
 			return nil, err
 		}
 		typ := typ.Field(field.Index).Type()
+		if tag.Optional && !canCheckNonZero(typ) {
+			return nil, fmt.Errorf("optional field %s has incomparable type %v", field.Name, typ)
+		}
 		elem, err := bctx.makeOp(nil, typ, tags[i])
 		if err != nil {
 			return nil, fmt.Errorf("field %s: %v", field.Name, err)
@@ -629,15 +655,18 @@ func (op structOp) decodeOptionalFields(b *bytes.Buffer, ctx *genContext, result
 
 // sliceOp handles slice types.
 type sliceOp struct {
-	typ    *types.Slice
+	typ    types.Type
 	elemOp op
 }
 
-func (bctx *buildContext) makeSliceOp(typ *types.Slice) (op, error) {
+func (bctx *buildContext) makeSliceOp(name *types.Named, typ *types.Slice) (op, error) {
 	elemOp, err := bctx.makeOp(nil, typ.Elem(), rlpstruct.Tags{})
 	if err != nil {
 		return nil, err
 	}
+	if name != nil {
+		return sliceOp{typ: name, elemOp: elemOp}, nil
+	}
 	return sliceOp{typ: typ, elemOp: elemOp}, nil
 }
 
@@ -687,7 +716,15 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		if bctx.isDecoder(typ) {
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
-		// TODO: same check for encoder?
+		// Encoder/Decoder interfaces.
+		if ptr := types.NewPointer(typ); bctx.isEncoder(ptr) {
+			if bctx.isDecoder(ptr) {
+				return encoderDecoderOp{typ}, nil
+			}
+			return nil, fmt.Errorf("type %v implements rlp.Encoder but not rlp.Decoder", ptr)
+		} else if bctx.isDecoder(ptr) {
+			return nil, fmt.Errorf("type %v implements rlp.Decoder but not rlp.Encoder", ptr)
+		}
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
 		if isBigInt(typ.Elem()) {
@@ -696,31 +733,24 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		if isUint256(typ.Elem()) {
 			return uint256Op{pointer: true}, nil
 		}
-		// Encoder/Decoder interfaces.
-		if bctx.isEncoder(typ) {
-			if bctx.isDecoder(typ) {
-				return encoderDecoderOp{typ}, nil
-			}
-			return nil, fmt.Errorf("type %v implements rlp.Encoder but not rlp.Decoder", typ)
-		}
-		if bctx.isDecoder(typ) {
-			return nil, fmt.Errorf("type %v implements rlp.Decoder but not rlp.Encoder", typ)
-		}
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
 		etyp := typ.Elem()
 		if isByte(etyp) && !bctx.isEncoder(etyp) {
+			if !isPlainByte(etyp) {
+				return nil, fmt.Errorf("unhandled slice type: %v", typ)
+			}
 			return bctx.makeByteSliceOp(typ), nil
 		}
-		return bctx.makeSliceOp(typ)
+		return bctx.makeSliceOp(name, typ)
 	case *types.Array:
 		etyp := typ.Elem()
-		if isByte(etyp) && !bctx.isEncoder(etyp) {
+		if isPlainByte(etyp) {
 			return bctx.makeByteArrayOp(name, typ), nil
 		}
 		return nil, fmt.Errorf("unhandled array type: %v", typ)
@@ -763,7 +793,7 @@ func (bctx *buildContext) generate(typ *types.Named, encoder, decoder bool) ([]b
 	bctx.topType = typ
 
 	pkg := typ.Obj().Pkg()
-	op, err := bctx.makeOp(nil, typ, rlpstruct.Tags{})
+	op, err := bctx.makeOp(typ, typ.Underlying(), rlpstruct.Tags{})
 	if err != nil {
 		return nil, err
 	}
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index ea7dc96..6bc535a 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -113,6 +113,21 @@ func isByte(typ types.Type) bool {
 	return ok && basic.Kind() == types.Uint8
 }
 
+// isPlainByte checks whether 'typ' is uint8, i.e. whether []typ is assignable to []byte.
+func isPlainByte(typ types.Type) bool {
+	return types.Identical(typ, types.Typ[types.Uint8])
+}
+
+// canCheckNonZero reports whether nonZeroCheck can produce an expression for 'typ'.
+func canCheckNonZero(typ types.Type) bool {
+	switch resolveUnderlying(typ).(type) {
+	case *types.Array, *types.Struct:
+		return types.Comparable(typ)
+	default:
+		return true
+	}
+}
+
 func resolveUnderlying(typ types.Type) types.Type {
 	for {
 		t := typ.Underlying()
-- 
2.43.0


From 7caa1a132de6275b6f5eef3903d7c896f7e9f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 40/65] fix: abi: Pack appended the arguments to the method's
 own ID, so results shared memory

---
 abi/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..bc56966 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -78,7 +78,7 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 		return nil, err
 	}
 	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	return append(append(make([]byte, 0, len(method.ID)+len(arguments)), method.ID...), arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From 541abac2cc1e401dcacfadb89c5ae354fb43fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:34 +0000
Subject: [PATCH 41/65] fix: abi: nil pointers and arrays of a wrong length or
 element panicked in Pack or were encoded wrongly

---
 abi/error_handling.go | 19 +++++++++++++++----
 abi/reflect.go        |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index 7add707..c459636 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -38,6 +38,9 @@ func formatSliceString(kind reflect.Kind, sliceSize int) string {
 // sliceTypeCheck checks that the given slice can by assigned to the reflection
 // type in t.
 func sliceTypeCheck(t Type, val reflect.Value) error {
+	if !val.IsValid() {
+		return typeErr(formatSliceString(t.GetType().Kind(), t.Size), val.Kind())
+	}
 	if val.Kind() != reflect.Slice && val.Kind() != reflect.Array {
 		return typeErr(formatSliceString(t.GetType().Kind(), t.Size), val.Type())
 	}
@@ -68,11 +71,19 @@ func typeCheck(t Type, value reflect.Value) error {
 	// Check base type validity. Element types will be checked later on.
 	if t.GetType().Kind() != value.Kind() {
 		return typeErr(t.GetType().Kind(), value.Kind())
-	} else if t.T == FixedBytesTy && t.Size != value.Len() {
-		return typeErr(t.GetType(), value.Type())
-	} else {
-		return nil
 	}
+	switch t.T {
+	case FixedBytesTy, AddressTy, FunctionTy:
+		// an array of bytes of exactly that length
+		if t.GetType().Len() != value.Len() || value.Type().Elem().Kind() != reflect.Uint8 {
+			return typeErr(t.GetType(), value.Type())
+		}
+	case IntTy, UintTy:
+		if value.Kind() == reflect.Ptr && (value.IsNil() || value.Type() != t.GetType()) {
+			return typeErr(t.GetType(), fmt.Sprintf("%v %v", value.Type(), value))
+		}
+	}
+	return nil
 }
 
 // typeErr returns a formatted type casting error.
diff --git a/abi/reflect.go b/abi/reflect.go
index 7917fa9..0941e0f 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -48,9 +48,9 @@ func ConvertType(in interface{}, proto interface{}) interface{} {
 }
 
 // indirect recursively dereferences the value until it either gets the value
-// or finds a big.Int
+// or finds a big.Int or a nil pointer
 func indirect(v reflect.Value) reflect.Value {
-	if v.Kind() == reflect.Ptr && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
+	if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
 		return indirect(v.Elem())
 	}
 	return v
-- 
2.43.0


From 0b59797806c9832097fc72c98e9ffd08ff3876a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 42/65] fix: abi: an array offset beyond 64 bits was accepted;
 elements were allocated before their size was checked

---
 abi/unpack.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/abi/unpack.go b/abi/unpack.go
index f7d3080..36a62ca 100644
--- a/abi/unpack.go
+++ b/abi/unpack.go
@@ -123,8 +123,15 @@ func forEachUnpack(t Type, output []byte, start, size int) (interface{}, error)
 	if size < 0 {
 		return nil, fmt.Errorf("cannot marshal input to array, size is negative (%d)", size)
 	}
-	if start+32*size > len(output) {
-		return nil, fmt.Errorf("abi: cannot marshal in to go array: offset %d would go over slice boundary (len=%d)", len(output), start+32*size)
+	// Arrays have packed elements, resulting in longer unpack steps.
+	// Slices have just 32 bytes per element (pointing to the contents).
+	elemSize := getTypeSize(*t.Elem)
+	step := elemSize
+	if step < 32 {
+		step = 32
+	}
+	if start > len(output) || size > (len(output)-start)/step {
+		return nil, fmt.Errorf("abi: cannot marshal in to go array: %d elements of %d bytes would go over slice boundary (len=%d)", size, step, len(output))
 	}
 
 	// this value will become our slice or our array, depending on the type
@@ -140,10 +147,6 @@ func forEachUnpack(t Type, output []byte, start, size int) (interface{}, error)
 		return nil, fmt.Errorf("abi: invalid type in array/slice unpacking stage")
 	}
 
-	// Arrays have packed elements, resulting in longer unpack steps.
-	// Slices have just 32 bytes per element (pointing to the contents).
-	elemSize := getTypeSize(*t.Elem)
-
 	for i, j := start, 0; j < size; i, j = i+elemSize, j+1 {
 		inter, err := toGoType(i, *t.Elem, output)
 		if err != nil {
@@ -225,9 +228,9 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 		return forEachUnpack(t, output[begin:], 0, length)
 	case ArrayTy:
 		if isDynamicType(*t.Elem) {
-			offset := binary.BigEndian.Uint64(returnOutput[len(returnOutput)-8:])
-			if offset > uint64(len(output)) {
-				return nil, fmt.Errorf("abi: toGoType offset greater than output length: offset: %d, len(output): %d", offset, len(output))
+			offset, err := tuplePointsTo(index, output)
+			if err != nil {
+				return nil, err
 			}
 			return forEachUnpack(t, output[offset:], 0, t.Size)
 		}
-- 
2.43.0


From 938f7559159ba8d5ddf131f1c742958ce8fe71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:31 +0000
Subject: [PATCH 43/65] fix: abi: unpacking into an unfitting destination
 panicked or overflowed the stack

---
 abi/argument.go |  5 ++++-
 abi/reflect.go  | 13 ++++++++++++-
 abi/thinkium.go |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/abi/argument.go b/abi/argument.go
index 6cfbab3..24db7c5 100644
--- a/abi/argument.go
+++ b/abi/argument.go
@@ -123,7 +123,7 @@ func (arguments Arguments) UnpackIntoInterface(v interface{}, data []byte) error
 // Copy performs the operation go format -> provided struct.
 func (arguments Arguments) Copy(v interface{}, values []interface{}) error {
 	// make sure the passed value is arguments pointer
-	if reflect.Ptr != reflect.ValueOf(v).Kind() {
+	if val := reflect.ValueOf(v); reflect.Ptr != val.Kind() || val.IsNil() {
 		return fmt.Errorf("abi: Unpack(non-pointer %T)", v)
 	}
 	if len(values) == 0 {
@@ -144,6 +144,9 @@ func (arguments Arguments) copyAtomic(v interface{}, marshalledValues interface{
 	src := reflect.ValueOf(marshalledValues)
 
 	if dst.Kind() == reflect.Struct {
+		if dst.NumField() == 0 {
+			return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
+		}
 		return set(dst.Field(0), src)
 	}
 	return set(dst, src)
diff --git a/abi/reflect.go b/abi/reflect.go
index 0941e0f..6a744a5 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -97,6 +97,9 @@ func mustArrayToByteSlice(value reflect.Value) reflect.Value {
 // set is a bit more lenient when it comes to assignment and doesn't force an as
 // strict ruleset as bare `reflect` does.
 func set(dst, src reflect.Value) error {
+	if !dst.IsValid() || !src.IsValid() {
+		return errors.New("abi: cannot unmarshal in to or from a nil value")
+	}
 	dstType, srcType := dst.Type(), src.Type()
 	switch {
 	case dstType.Kind() == reflect.Interface && dst.Elem().IsValid() && (dst.Elem().Type().Kind() == reflect.Ptr || dst.Elem().CanSet()):
@@ -135,9 +138,14 @@ func setSlice(dst, src reflect.Value) error {
 }
 
 func setArray(dst, src reflect.Value) error {
-	if src.Kind() == reflect.Ptr {
+	if src.Kind() == reflect.Ptr && indirect(src).Kind() != reflect.Ptr {
 		return set(dst, indirect(src))
 	}
+	switch src.Kind() {
+	case reflect.Array, reflect.Slice, reflect.String:
+	default:
+		return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
+	}
 	array := reflect.New(dst.Type()).Elem()
 	min := src.Len()
 	if src.Len() > dst.Len() {
@@ -156,6 +164,9 @@ func setArray(dst, src reflect.Value) error {
 }
 
 func setStruct(dst, src reflect.Value) error {
+	if src.Kind() != reflect.Struct || src.NumField() > dst.NumField() {
+		return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
+	}
 	for i := 0; i < src.NumField(); i++ {
 		srcField := src.Field(i)
 		dstField := dst.Field(i)
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 8ee5dda..73970ae 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -18,7 +18,7 @@ var (
 
 func (arguments Arguments) CopyEvent(v interface{}, values []interface{}) error {
 	// make sure the passed value is arguments pointer
-	if reflect.Ptr != reflect.ValueOf(v).Kind() {
+	if val := reflect.ValueOf(v); reflect.Ptr != val.Kind() || val.IsNil() {
 		return fmt.Errorf("abi: event Unpack(non-pointer %T)", v)
 	}
 	if len(values) == 0 {
-- 
2.43.0


From 1ba7a8fdff0cfa6dc78c404de2b7eec1c9227596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 44/65] fix: abi: topics of negative or oversized integers and
 of long arrays were wrong or panicked

---
 abi/topics.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..b9fd81e 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -24,6 +24,7 @@ import (
 	"reflect"
 
 	"github.com/ThinkiumGroup/go-common"
+	"github.com/ThinkiumGroup/go-common/math"
 )
 
 // MakeTopics converts a filter query argument list into a filter topic set.
@@ -40,8 +41,10 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 			case common.Address:
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
-				blob := rule.Bytes()
-				copy(topic[common.HashLength-len(blob):], blob)
+				if rule == nil || rule.BitLen() > 256 {
+					return nil, fmt.Errorf("unsupported indexed value: %v", rule)
+				}
+				copy(topic[:], math.U256Bytes(new(big.Int).Set(rule)))
 			case bool:
 				if rule {
 					topic[common.HashLength-1] = 1
@@ -85,7 +88,7 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 				val := reflect.ValueOf(rule)
 				switch {
 				// static byte array
-				case val.Kind() == reflect.Array && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
+				case val.Kind() == reflect.Array && val.Len() <= len(topic) && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
 					reflect.Copy(reflect.ValueOf(topic[:val.Len()]), val)
 				default:
 					return nil, fmt.Errorf("unsupported indexed type: %T", rule)
@@ -110,6 +113,17 @@ func genIntType(rule int64, size uint) []byte {
 	return topic[:]
 }
 
+// topicValue returns the value of an indexed event argument. Values of dynamic
+// and composite types can not be recovered, their topic is the hash of the value.
+func topicValue(t Type, topic common.Hash) (interface{}, error) {
+	switch t.T {
+	case StringTy, BytesTy, SliceTy, ArrayTy, TupleTy:
+		return topic, nil
+	default:
+		return toGoType(0, t, topic.Bytes())
+	}
+}
+
 // ParseTopics converts the indexed topic fields into actual log field values.
 func ParseTopics(out interface{}, fields Arguments, topics []common.Hash) error {
 	return parseTopicWithSetter(fields, topics,
-- 
2.43.0


From 1d443feb54da2af64897167d1a983c14f5305f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 45/65] fix: abi: events decoded wrongly when an indexed
 argument follows one that is not; indexed dynamic values failed

---
 abi/abi.go      | 4 ++--
 abi/thinkium.go | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index bc56966..bbc782e 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -460,11 +460,11 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 		}
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return "", fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return "", fmt.Errorf("%d topic unpack failed: %v", j, err)
 			}
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 73970ae..4f804f9 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -98,20 +98,19 @@ func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) err
 	for i, arg := range args {
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return fmt.Errorf("%d topic unpack failed: %w", j, err)
 			}
 			ret = append(ret, value)
 		} else {
-			break
+			ret = append(ret, values[i-indexes])
 		}
 	}
-	ret = append(ret, values...)
 	return args.CopyEvent(v, ret)
 }
 
-- 
2.43.0


From 7d6468c40e79ebb03e2b89259e727fe0efeef4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 46/65] fix: abi: malformed selectors panicked or were accepted

---
 abi/selector_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..8822bb6 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -85,7 +85,7 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
 	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
-		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
+		return nil, "", fmt.Errorf("expected '(', got '%s'", unescapedSelector)
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
 	if err != nil {
@@ -93,6 +93,9 @@ func parseCompositeType(unescapedSelector string) ([]interface{}, string, error)
 	}
 	result := []interface{}{parsedType}
 	for len(rest) > 0 && rest[0] != ')' {
+		if rest[0] != ',' {
+			return nil, "", fmt.Errorf("expected ',', got %c", rest[0])
+		}
 		parsedType, rest, err = parseType(rest[1:])
 		if err != nil {
 			return nil, "", fmt.Errorf("failed to parse type: %v", err)
@@ -161,6 +164,9 @@ func ParseSelector(unescapedSelector string) (SelectorMarshaling, error) {
 		if err != nil {
 			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': %v", unescapedSelector, err)
 		}
+		if args[len(args)-1] == "[]" {
+			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '[]'", unescapedSelector)
+		}
 	}
 	if len(rest) > 0 {
 		return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '%s'", unescapedSelector, rest)
-- 
2.43.0


From 031d31dad28a1fef30248803729cdcbea16cfc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 47/65] fix: abi: malformed type strings were accepted and huge
 arrays panicked

---
 abi/type.go | 76 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/abi/type.go b/abi/type.go
index 17be76f..e64218d 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -19,6 +19,7 @@ package abi
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -63,9 +64,35 @@ type Type struct {
 
 var (
 	// typeRegex parses the abi sub types
-	typeRegex = regexp.MustCompile("([a-zA-Z]+)(([0-9]+)(x([0-9]+))?)?")
+	typeRegex = regexp.MustCompile("^([a-zA-Z]+)(([0-9]+)(x([0-9]+))?)?$")
+	// dimRegex parses the last dimension of an array or a slice
+	dimRegex = regexp.MustCompile(`^\[(0|[1-9][0-9]*)?\]$`)
+	// sizeRegex is the size of an elementary type
+	sizeRegex = regexp.MustCompile("^[1-9][0-9]*$")
 )
 
+// checkedSum and checkedMul are used for the sizes of types, ok is false if the
+// result is too large.
+func checkedSum(a, b int) (int, bool) {
+	return a + b, a <= math.MaxInt-b
+}
+
+func checkedMul(a, b int) (int, bool) {
+	return a * b, a == 0 || b <= math.MaxInt/a
+}
+
+// checkSize checks that n consecutive values of the type can be addressed, both
+// encoded and as Go values.
+func checkSize(n int, t Type) error {
+	if _, ok := checkedMul(n, getTypeSize(t)); !ok {
+		return fmt.Errorf("abi: type %v[%d] is too large", t, n)
+	}
+	if _, ok := checkedMul(n, int(t.GetType().Size())); !ok {
+		return fmt.Errorf("abi: type %v[%d] is too large", t, n)
+	}
+	return nil
+}
+
 // NewType creates a new reflection type of abi type given in t.
 func NewType(t string, internalType string, components []ArgumentMarshaling) (typ Type, err error) {
 	// check that array brackets are equal if they exist
@@ -91,34 +118,39 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 		// grab the last cell and create a type from there
 		sliced := t[i:]
 		// grab the slice size with regexp
-		re := regexp.MustCompile("[0-9]+")
-		intz := re.FindAllString(sliced, -1)
-
-		if len(intz) == 0 {
+		dim := dimRegex.FindStringSubmatch(sliced)
+		if dim == nil {
+			return Type{}, fmt.Errorf("invalid formatting of array type")
+		}
+		if dim[1] == "" {
 			// is a slice
 			typ.T = SliceTy
 			typ.Elem = &embeddedType
 			typ.stringKind = embeddedType.stringKind + sliced
-		} else if len(intz) == 1 {
+		} else {
 			// is an array
 			typ.T = ArrayTy
 			typ.Elem = &embeddedType
-			typ.Size, err = strconv.Atoi(intz[0])
+			typ.Size, err = strconv.Atoi(dim[1])
 			if err != nil {
 				return Type{}, fmt.Errorf("abi: error parsing variable size: %v", err)
 			}
+			if err := checkSize(typ.Size, embeddedType); err != nil {
+				return Type{}, err
+			}
 			typ.stringKind = embeddedType.stringKind + sliced
-		} else {
-			return Type{}, fmt.Errorf("invalid formatting of array type")
 		}
 		return typ, err
 	}
 	// parse the type and size of the abi-type.
-	matches := typeRegex.FindAllStringSubmatch(t, -1)
-	if len(matches) == 0 {
+	base := t
+	if strings.HasPrefix(t, "tuple(") || strings.HasPrefix(t, "tuple ") {
+		base = "tuple" // what follows is not used, the fields are those of components
+	}
+	parsedType := typeRegex.FindStringSubmatch(base)
+	if parsedType == nil {
 		return Type{}, fmt.Errorf("invalid type '%v'", t)
 	}
-	parsedType := matches[0]
 
 	// varSize is the size of the variable
 	var varSize int
@@ -135,6 +167,17 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 			return Type{}, fmt.Errorf("unsupported arg type: %s", t)
 		}
 	}
+	// only integers and bytes have a size, integers in bits and bytes up to 32
+	validSize := len(parsedType[2]) == 0
+	switch parsedType[1] {
+	case "int", "uint":
+		validSize = sizeRegex.MatchString(parsedType[2]) && varSize <= 256
+	case "bytes":
+		validSize = validSize || sizeRegex.MatchString(parsedType[2]) && varSize <= 32
+	}
+	if !validSize {
+		return Type{}, fmt.Errorf("unsupported arg type: %s", t)
+	}
 	// varType is the parsed abi type
 	switch varType := parsedType[1]; varType {
 	case "int":
@@ -163,6 +206,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 			elems      []*Type
 			names      []string
 			expression string // canonical parameter expression
+			encSize    int    // sum of the encoded sizes of the fields
+			goSize     int    // sum of the sizes of the Go types of the fields
+			ok         bool
 			used       = make(map[string]bool)
 		)
 		expression += "("
@@ -183,6 +229,12 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 			if !isValidFieldName(fieldName) {
 				return Type{}, fmt.Errorf("field %d has invalid name", idx)
 			}
+			if encSize, ok = checkedSum(encSize, getTypeSize(cType)); !ok {
+				return Type{}, errors.New("abi: tuple type is too large")
+			}
+			if goSize, ok = checkedSum(goSize, int(cType.GetType().Size())); !ok {
+				return Type{}, errors.New("abi: tuple type is too large")
+			}
 			fields = append(fields, reflect.StructField{
 				Name: fieldName, // reflect.StructOf will panic for any exported field.
 				Type: cType.GetType(),
-- 
2.43.0


From 06d07d65003c88dca1763f20521b2fa340aab0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:26 +0000
Subject: [PATCH 48/65] fix: hexutil: Big marshalled negative integers into
 text it can not read, although documented as an error

---
 hexutil/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexutil/json.go b/hexutil/json.go
index fbc2124..6b5e3fd 100644
--- a/hexutil/json.go
+++ b/hexutil/json.go
@@ -19,6 +19,7 @@ package hexutil
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"math/big"
 	"reflect"
@@ -134,6 +135,9 @@ type Big big.Int
 
 // MarshalText implements encoding.TextMarshaler
 func (b Big) MarshalText() ([]byte, error) {
+	if (*big.Int)(&b).Sign() < 0 {
+		return nil, errors.New("hexutil: negative integers are not supported")
+	}
 	return []byte(EncodeBig((*big.Int)(&b))), nil
 }
 
-- 
2.43.0


From 1b8cce1325df0d4303315a314b3a43060e66a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 49/65] fix: log: CC functions crashed before InitCheckLog, and
 InitCheckLog with a node id under 5 bytes

---
 log/cashcheck.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 817cf96..bccbbee 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -2,6 +2,7 @@ package log
 
 import (
 	"fmt"
+	"os"
 	"sync"
 	"time"
 
@@ -10,7 +11,12 @@ import (
 )
 
 var (
-	ccLog        *logrus.Logger
+	// before InitCheckLog the records go to the standard output, as those of rootLog
+	ccLog = &logrus.Logger{
+		Out:       os.Stdout,
+		Formatter: &logrus.TextFormatter{FullTimestamp: true, TimestampFormat: time.StampMilli},
+		Level:     logrus.DebugLevel,
+	}
 	ccLogLock    sync.RWMutex
 	createCCOnce sync.Once
 )
@@ -19,11 +25,14 @@ func InitCheckLog(path string, nid []byte) {
 	createCCOnce.Do(func() {
 		ccLogLock.Lock()
 		defer ccLogLock.Unlock()
-		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid[:5]) + ".%Y"
+		if len(nid) > 5 {
+			nid = nid[:5]
+		}
+		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid) + ".%Y"
 		checkWriter, err := rotatelogs.New(checkLogFile,
 			rotatelogs.WithMaxAge(-1), rotatelogs.WithRotationTime(time.Hour*24*365))
 		if err != nil {
-			rootLog.Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
+			Errorf("initial CashCheck log %s failed: %v", checkLogFile, err)
 			return
 		}
 		formatter := &logrus.TextFormatter{
-- 
2.43.0


From 3904d7b61674fe0d1159f60cf47da4b0f03ba384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:24 +0000
Subject: [PATCH 50/65] fix: log: WithField dropped half of its fields, derived
 loggers ignored SetFields and raced with InitLog, arguments that log could
 deadlock

---
 log/log.go | 58 ++++++++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/log/log.go b/log/log.go
index 494bf46..0f15b17 100644
--- a/log/log.go
+++ b/log/log.go
@@ -94,64 +94,49 @@ func init() {
 	wrapped = rootLog
 }
 
+// current returns the logger in use. It is called without holding the lock, because
+// the arguments may log, too, when they are printed.
+func current() logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
+	return wrapped
+}
+
 // func Logger() *logrus.Logger {
 // 	return rootLog
 // }
 
 func Debug(msgs ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Debug(msgs...)
+	current().Debug(msgs...)
 }
 
 func Debugf(format string, values ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Debugf(format, values...)
+	current().Debugf(format, values...)
 }
 
 func Info(msgs ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Info(msgs...)
+	current().Info(msgs...)
 }
 
 func Infof(format string, values ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Infof(format, values...)
+	current().Infof(format, values...)
 }
 
 func Warn(msgs ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Warn(msgs...)
+	current().Warn(msgs...)
 }
 
 func Warnf(format string, values ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Warnf(format, values...)
+	current().Warnf(format, values...)
 }
 
 func Error(msgs ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Error(msgs...)
+	current().Error(msgs...)
 }
 
 func Errorf(format string, values ...interface{}) {
-	_logLocker.RLock()
-	defer _logLocker.RUnlock()
-
-	wrapped.Errorf(format, values...)
+	current().Errorf(format, values...)
 }
 
 func MustDebugf(logger logrus.FieldLogger, format string, args ...interface{}) {
@@ -187,23 +172,22 @@ func MustErrorf(logger logrus.FieldLogger, format string, args ...interface{}) {
 }
 
 func WithFields(fields logrus.Fields) logrus.FieldLogger {
-	return rootLog.WithFields(fields)
+	return current().WithFields(fields)
 }
 
 func WithField(vs ...interface{}) logrus.FieldLogger {
 	if len(vs) <= 1 {
-		return rootLog
+		return current()
 	}
-	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < len(vs); i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
 		}
 		fields[k] = vs[i+1]
 	}
-	return rootLog.WithFields(fields)
+	return current().WithFields(fields)
 }
 
 func SetFields(fields logrus.Fields) {
-- 
2.43.0


From e3ee87afbb1859b7a07f2e26a8140c3ae9da3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 51/65] fix: trie: Count, IsEmpty, Collapse and Dump raced with
 other users of the trie

---
 trie/revertable.go |  5 ++++-
 trie/trie.go       | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 2dc9c08..60524b7 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -339,7 +339,10 @@ func (r *RevertableTrie) Dump(to db.Database, valueCallback func(key, value []by
 	if r == nil {
 		return nil
 	}
-	return r.Origin.Dump(to, valueCallback)
+	r.lock.Lock()
+	origin := r.Origin
+	r.lock.Unlock()
+	return origin.Dump(to, valueCallback)
 }
 
 type RevertableHistoryTree struct {
diff --git a/trie/trie.go b/trie/trie.go
index b8e4ca5..fcf1f74 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -224,10 +224,14 @@ func (t *Trie) hashLocked() ([]byte, error) {
 }
 
 func (t *Trie) Count() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	return t.valueCount
 }
 
 func (t *Trie) IsEmpty() bool {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	return t.root.isEmpty()
 }
 
@@ -646,6 +650,8 @@ func (t *Trie) Commit() error {
 }
 
 func (t *Trie) Collapse() error {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	if t.root != nil {
 		if t.root.canCollapse() {
 			if err := t.root.collapse(); err != nil {
@@ -966,14 +972,38 @@ func (t *Trie) ReversedValueIterator() ValueIterator {
 	return newReversedValueIterator(newt)
 }
 
+// committedSnapshot returns a trie sharing nothing but the storage with t, nil if t is empty
+func (t *Trie) committedSnapshot() (*Trie, error) {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	if t.root == nil || t.root.isEmpty() {
+		return nil, nil
+	}
+	if t.root.isDirty() {
+		return nil, errors.New("trie is dirty")
+	}
+	rootHash, err := t.hashLocked()
+	if err != nil {
+		return nil, fmt.Errorf("hash failed: %v", err)
+	}
+	return &Trie{
+		root: NewNodeWithFuncs(common.CopyBytes(rootHash), t.gen, t.root.valueEncode,
+			t.root.valueDecode, t.root.valueHasher),
+		nodeAdapter:  t.nodeAdapter,
+		valueAdapter: t.valueAdapter,
+		gen:          t.gen,
+	}, nil
+}
+
 func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
-	if t == nil || t.root == nil || t.root.isEmpty() {
+	if t == nil {
 		return nil
 	}
-	if t.root.isDirty() {
-		return errors.New("trie is dirty")
+	// iterate a snapshot of the trie: others may use the trie while it is being dumped
+	t, err := t.committedSnapshot()
+	if err != nil || t == nil {
+		return err
 	}
-	var err error
 	var na, va db.DatabasedAdapter
 	if tna, ok := t.nodeAdapter.(db.DatabasedAdapter); ok {
 		na, err = tna.Rebase(to)
-- 
2.43.0


From 859dde0dab529bb75cefc2edeacb25e183e2aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 52/65] fix: trie: HistoryTree.Has deadlocked on its own lock

---
 trie/historytree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 117b172..0a08aef 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -420,14 +420,17 @@ func (h *HistoryTree) Has(key uint64) bool {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
-	_, exist := h.Get(key)
+	_, exist := h._get(key)
 	return exist
 }
 
 func (h *HistoryTree) Get(key uint64) (value []byte, exist bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	return h._get(key)
+}
 
+func (h *HistoryTree) _get(key uint64) (value []byte, exist bool) {
 	prefix := heightToPrefix(key)
 	var err error
 	_, value, exist, err = h.root.traceDescendant(h.adapter, prefix, 0, false, nil)
-- 
2.43.0


From 3c4bfbee458bae48e91c2d5ea8e3410523593374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 53/65] fix: rlp.Stream checks the size of a value against what
 its list has left after the tag

---
 rlp/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlp/decode.go b/rlp/decode.go
index 301bf76..01d0351 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -1039,6 +1039,8 @@ func (s *Stream) Kind() (kind Kind, size uint64, err error) {
 	// Read the actual size tag.
 	s.kind, s.size, s.kinderr = s.readKind()
 	if s.kinderr == nil {
+		// Reading the tag has taken it off the enclosing list.
+		_, listLimit = s.listLimit()
 		// Check the data size of the value ahead against input limits. This
 		// is done here because many decoders require allocating an input
 		// buffer matching the value size. Checking it here protects those
-- 
2.43.0


From 96520cd31b9b2492b681636cb82e3c5ef76ee0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:52 +0000
Subject: [PATCH 54/65] fix: log: a check log call whose argument logs
 deadlocked while the check log was opened

---
 log/cashcheck.go | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index bccbbee..319ee40 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -49,56 +49,46 @@ func InitCheckLog(path string, nid []byte) {
 	)
 }
 
-func CCDebug(msgs ...interface{}) {
+// currentCC returns the logger in use. It is called without holding the lock, because
+// the arguments may log, too, when they are printed.
+func currentCC() *logrus.Logger {
 	ccLogLock.RLock()
 	defer ccLogLock.RUnlock()
-	ccLog.Debug(msgs...)
+	return ccLog
+}
+
+func CCDebug(msgs ...interface{}) {
+	currentCC().Debug(msgs...)
 }
 
 func CCDebugf(format string, values ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Debugf(format, values...)
+	currentCC().Debugf(format, values...)
 }
 
 func CCInfo(msgs ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Info(msgs...)
+	currentCC().Info(msgs...)
 }
 
 func CCInfof(format string, values ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Infof(format, values...)
+	currentCC().Infof(format, values...)
 }
 
 func CCWarn(msgs ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Warn(msgs...)
+	currentCC().Warn(msgs...)
 }
 
 func CCWarnf(format string, values ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Warnf(format, values...)
+	currentCC().Warnf(format, values...)
 }
 
 func CCError(msgs ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Error(msgs...)
+	currentCC().Error(msgs...)
 }
 
 func CCErrorf(format string, values ...interface{}) {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	ccLog.Errorf(format, values...)
+	currentCC().Errorf(format, values...)
 }
 
 func CCWithFields(fields logrus.Fields) logrus.FieldLogger {
-	ccLogLock.RLock()
-	defer ccLogLock.RUnlock()
-	return ccLog.WithFields(fields)
+	return currentCC().WithFields(fields)
 }
-- 
2.43.0


From 1cab6dc70f7d3029d9651fb177f496639f02cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:54 +0000
Subject: [PATCH 55/65] fix: MarshalAsMap left out the value stored under the
 empty key

---
 trie/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/utils.go b/trie/utils.go
index 090ff08..55154c6 100644
--- a/trie/utils.go
+++ b/trie/utils.go
@@ -167,7 +167,8 @@ func MarshalAsMap(t ITrie, w io.Writer) error {
 	it := t.ValueIterator()
 	for it.Next() {
 		k, v := it.Current()
-		if k != nil {
+		// the key of the value at the root of the trie is nil, since it is empty
+		if k != nil || v != nil {
 			if err := rtl.Encode(k, w); err != nil {
 				return err
 			}
-- 
2.43.0


From 7dd5bb8df65a0067486fa3523e9562cf16ee8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:56 +0000
Subject: [PATCH 56/65] fix: importing a trie took a stream broken off inside a
 value for a complete one

---
 trie/trie.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index fcf1f74..c27540f 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -907,18 +907,54 @@ func (t *Trie) GetExistenceProof(key []byte) (exist bool, proofs ProofChain, err
 	return t.getExistenceLocked(key)
 }
 
+// borderReader tells the end of the data (between two values) from data broken off inside a value,
+// rtl.ValueReader returns io.EOF for both
+type borderReader struct {
+	rtl.ValueReader
+	inside bool // whether a part of the current value has been read
+}
+
+func (b *borderReader) ReadHeader() (rtl.TypeHeader, int, error) {
+	th, length, err := b.ValueReader.ReadHeader()
+	b.inside = b.inside || err == nil
+	return th, length, err
+}
+
+func (b *borderReader) ReadFullHeader() (rtl.TypeHeader, int, error) {
+	th, length, err := b.ValueReader.ReadFullHeader()
+	b.inside = b.inside || err == nil
+	return th, length, err
+}
+
+func (b *borderReader) ReadByte() (byte, error) {
+	c, err := b.ValueReader.ReadByte()
+	b.inside = b.inside || err == nil
+	return c, err
+}
+
+func (b *borderReader) Read(p []byte) (int, error) {
+	n, err := b.ValueReader.Read(p)
+	b.inside = b.inside || n > 0
+	return n, err
+}
+
 func (t *Trie) unmarshalNewTrieLocked(r io.Reader, valueType reflect.Type, keyFunc func(interface{}) []byte) (*Trie, error) {
 	trie := NewTrieWithValueFuncs(nil, t.nodeAdapter, t.valueAdapter, t.root.valueEncode,
 		t.root.valueDecode, t.root.valueHasher)
 
-	reader, ok := r.(rtl.ValueReader)
+	vr, ok := r.(rtl.ValueReader)
 	if !ok {
-		reader = rtl.NewValueReader(r, 0)
+		vr = rtl.NewValueReader(r, 0)
 	}
+	reader := &borderReader{ValueReader: vr}
 
 	for reader.HasMore() {
 		newValue := reflect.New(valueType)
+		reader.inside = false
 		if err := rtl.Decode(reader, newValue.Interface()); err != nil {
+			if err == io.EOF && reader.inside {
+				err = io.ErrUnexpectedEOF
+			}
 			if err == io.EOF {
 				break
 			}
-- 
2.43.0


From d87ee1ccfdb5c875a71daa3f5873263c4819a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:57 +0000
Subject: [PATCH 57/65] fix: RevertableTrie.RevertTo did nothing after a revert
 to the committed state

---
 trie/revertable.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 60524b7..28748d8 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -316,7 +316,12 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	if h != r.chkpts[checkPoint] {
 		return ErrNotExist
 	}
-	if r.Live != nil {
+	live := r.Live
+	if live == nil {
+		// reverted to the origin before, the checkpoint could still be different from it
+		live = r.Origin
+	}
+	if live != nil {
 		originRoot, err := r.Origin.HashValue()
 		if err != nil {
 			return err
@@ -325,7 +330,7 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 			// nothing had been changed when the checkpoint was created
 			r.Live = nil
 		} else {
-			r.Live = r.Live.Inherit(root)
+			r.Live = live.Inherit(root)
 		}
 	}
 	r.chkpts = r.chkpts[:checkPoint]
-- 
2.43.0


From 048cd38fb533865491b58da0370697040cc617af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 58/65] fix: trie: a damaged node record stayed half decoded in
 memory

---
 trie/trie.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index c27540f..486a2a6 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -588,12 +588,18 @@ func (t *Trie) expandNode(node *node) error {
 	// the expanded node must update generation
 	node.generation = t.gen
 	hashes := node.hash
+	prefix := node.prefix
 	nodebytes, err := t.nodeAdapter.Load(hashes)
 	if err != nil {
 		return fmt.Errorf("load %s data error: %v", node, err)
 	}
 	buf := rtl.NewValueReader(bytes.NewBuffer(nodebytes), 256)
 	if err = rtl.Decode(buf, node); err != nil {
+		// what has been decoded so far would be taken for the whole node the next time
+		node.prefix, node.valuehash = prefix, nil
+		for i := 0; i < childrenLength; i++ {
+			node.children[i] = nil
+		}
 		return fmt.Errorf("decode nodebytes@[%x] DA:%s error: %v", hashes, t.nodeAdapter, err)
 	}
 	if node.inErrorStatus() {
-- 
2.43.0


From 5c12fde99b0e1dedb472ef01682baba8dc2af379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:14 +0000
Subject: [PATCH 59/65] fix: SubBytes panicked for sizes near the largest
 integer

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 94e3eba..9f631e0 100644
--- a/bytes.go
+++ b/bytes.go
@@ -368,7 +368,7 @@ func SubBytes(bs []byte, from, size int) ([]byte, error) {
 	if from >= bsBitSize {
 		return nil, nil
 	}
-	if size+from > bsBitSize {
+	if size > bsBitSize-from {
 		size = bsBitSize - from
 	}
 
-- 
2.43.0


From 1235ce00f736751ec7fd02fbb40cc90f698198f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 60/65] fix: Bits.Bits ran out of memory for large lengths,
 Bits.Bit panicked for negative indexes

---
 shardinfo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shardinfo.go b/shardinfo.go
index 465cb01..5813d16 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -59,7 +59,7 @@ func (p BitIndex) Mask(b byte) byte {
 // return true if the bit at index is 1, otherwise return false
 func (bs Bits) Bit(index BitIndex) bool {
 	bytePos := index.BytePos()
-	if bytePos >= len(bs) {
+	if bytePos < 0 || bytePos >= len(bs) {
 		return false
 	}
 	bitPos := index.BitPos()
@@ -73,6 +73,9 @@ func (bs Bits) Bits(length int) []bool {
 	if length <= 0 {
 		return nil
 	}
+	if length > len(bs)<<3 {
+		length = len(bs) << 3
+	}
 	r := make([]bool, 0, length)
 	last := BitIndex(length - 1)
 	x := last.BytePos()
-- 
2.43.0


From bc15e1151743bda2722e1dbef95817c3f03602e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:53 +0000
Subject: [PATCH 61/65] fix: SplitBytes divided by zero or panicked for sizes
 that are not positive

---
 bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 9f631e0..4c4406b 100644
--- a/bytes.go
+++ b/bytes.go
@@ -239,7 +239,7 @@ func LeftPadBytes(slice []byte, l int) []byte {
 
 // Divide bs into slices according to size, and each slice length is size
 func SplitBytes(bs []byte, size int) ([][]byte, error) {
-	if len(bs)%size != 0 {
+	if size <= 0 || len(bs)%size != 0 {
 		return nil, errors.New(fmt.Sprintf("input length illegal: (%d)%%(%d)!=0", len(bs), size))
 	}
 	r := make([][]byte, 0, len(bs)/size)
-- 
2.43.0


From f94a5d7f280d29a355e34bf9f749ba7bac86ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:54 +0000
Subject: [PATCH 62/65] fix: GetExistenceProof reported absence without an
 error when the storage failed

---
 trie/trie.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 486a2a6..42ec215 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -259,7 +259,8 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
 	prefix := keyToPrefix(key)
-	return t.get(t.root, prefix, 0, nil)
+	value, ok, _ := t.get(t.root, prefix, 0, nil)
+	return value, ok
 }
 
 // Take startNode as the root and prefixString[offset:] as the key to get the value in the node
@@ -267,22 +268,23 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 // Each nodePosition in trace:
 // 		nodePosition.nodeInPos: the node selected for the current lookup
 // 		nodePosition.pos: the index of current startNode.children[] which is the node selected
-func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool) {
+// The error tells that a node on the path could not be loaded, whether there is a value is unknown.
+func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool, error) {
 	if err := t.fullExpand(startNode); err != nil {
-		return nil, false
+		return nil, false, err
 	}
 
 	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
-			return startNode.value, true
+			return startNode.value, true, nil
 		} else {
-			return nil, false
+			return nil, false, nil
 		}
 	}
 
 	if startNode.isEmpty() {
 		// current node is empty or
-		return nil, false
+		return nil, false, nil
 	}
 
 	suffix := prefixString[offset:]
@@ -300,19 +302,19 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		// input prefix is starting with current node's prefix
 		if inRemains == 0 {
 			// if current node prefix matches with input prefix, return current node value
-			return startNode.value, startNode.value != nil
+			return startNode.value, startNode.value != nil, nil
 		}
 		// inRemains > 0, go down the path by child node
 		childIndex := int(suffix[matchLength])
 		if startNode.children[childIndex] == nil {
 			// no child in the path of prefix, return
-			return nil, false
+			return nil, false, nil
 		}
 		// expand child first
 		if startNode.children[childIndex].isCollapsed() {
 			if err := t.expandNode(startNode.children[childIndex]); err != nil {
 				log.Errorf("expand %s error: %s", startNode.children[childIndex], err)
-				return nil, false
+				return nil, false, err
 			}
 		}
 
@@ -323,7 +325,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return t.get(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
 	} else {
 		// there're remains in current node's prefix not match with input prefix, not found
-		return nil, false
+		return nil, false, nil
 	}
 }
 
@@ -839,7 +841,7 @@ func (t *Trie) getProofLocked(key []byte) (val interface{}, proofs ProofChain, o
 	// Use an illegal pos to indicate that root is not the child of any node
 	trace[0] = nodePosition{childrenLength + 1, t.root}
 	prefix := keyToPrefix(key)
-	val, ok = t.get(t.root, prefix, 0, &trace)
+	val, ok, _ = t.get(t.root, prefix, 0, &trace)
 	if !ok {
 		// rh, _ := t.hashLocked()
 		// // value does not exist, proof cannot be provided
@@ -879,7 +881,9 @@ func (t *Trie) getExistenceLocked(key []byte) (exist bool, proofs ProofChain, er
 	trace := make([]nodePosition, 1, 16)
 	trace[0] = nodePosition{pos: childrenLength + 1, nodeInPos: t.root}
 	prefix := keyToPrefix(key)
-	_, exist = t.get(t.root, prefix, 0, &trace)
+	if _, exist, err = t.get(t.root, prefix, 0, &trace); err != nil {
+		return false, nil, err
+	}
 
 	nodeChild := nodePosition{16, nil}
 	l := len(trace)
-- 
2.43.0


From 9fa7b6b843241428e5c9ade73c3519b241a62e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:55 +0000
Subject: [PATCH 63/65] fix: a revertable trie changed after a failed commit
 lost its committed content

---
 trie/revertable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 28748d8..bfdfb2a 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -91,6 +91,10 @@ func (r *RevertableTrie) checkLiveLocked() error {
 		if r.Origin == nil {
 			return common.ErrNil
 		}
+		// the clone reads from the storage what the original holds, which must be there
+		if err := r.Origin.Commit(); err != nil {
+			return err
+		}
 		r.Live = r.Origin
 		r.Origin = r.Live.Clone()
 	}
-- 
2.43.0


From 7b753414190ed8601c3cebdd53c6ac8298c1406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:55 +0000
Subject: [PATCH 64/65] fix: a revertable history tree changed while the
 storage failed lost its committed tree

---
 trie/revertable.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index bfdfb2a..b9da5c7 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -16,6 +16,7 @@ package trie
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -366,8 +367,13 @@ func (h *RevertableHistoryTree) _checkLive() error {
 		if h.Origin == nil {
 			return common.ErrNil
 		}
+		// there's no clone when the storage fails
+		origin := h.Origin.Clone()
+		if origin == nil {
+			return errors.New("clone origin failed")
+		}
 		h.Live = h.Origin
-		h.Origin = h.Live.Clone()
+		h.Origin = origin
 	}
 	return nil
 }
-- 
2.43.0


From 93fa7b49215e04b3b04f2a081c952a07401cb5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 65/65] fix: MerkleHashCompleteOld filled up the array of the
 caller's list

---
 hash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash.go b/hash.go
index 2e7f948..b669677 100644
--- a/hash.go
+++ b/hash.go
@@ -816,6 +816,8 @@ func MerkleHashCompleteOld(hashList [][]byte, toBeProof int, proofs *MerkleProof
 	for max < len(hashList) {
 		max <<= 1
 	}
+	// the list belongs to the caller, so does what is behind it in its array
+	hashList = append(make([][]byte, 0, max), hashList...)
 	for i := len(hashList); i < max; i++ {
 		hashList = append(hashList, CopyBytes(NilHashSlice))
 	}
-- 
2.43.0

